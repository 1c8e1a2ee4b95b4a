pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, k: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ k.wrapping_mul(0xd134_2543_de82_ef95) ^ 0x5851_f42d_4c95_7f2d);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T {
        &l[self.below(l.len())]
    }
    /// integers with many leading zeros or ones, and all boundaries
    pub fn int(&mut self) -> u64 {
        match self.below(8) {
            0 => self.next(),
            1 => self.below(4) as u64,
            2 => (self.below(4) as u64).wrapping_neg(),
            3 => {
                let k = self.below(64);
                (1u64 << k).wrapping_add(self.below(3) as u64).wrapping_sub(1)
            }
            4 => {
                let k = self.below(64);
                (1u64 << k).wrapping_add(self.below(3) as u64).wrapping_sub(1).wrapping_neg()
            }
            5 => self.below(300) as u64,
            6 => (self.below(300) as u64).wrapping_neg(),
            _ => self.next() >> self.below(64),
        }
    }
    pub fn len(&mut self, big: bool) -> usize {
        match self.below(if big { 14 } else { 8 }) {
            0 => 0,
            1 => 1,
            2 | 3 | 4 | 5 | 6 => self.below(12),
            7 => self.below(40),
            8 => 253 + self.below(6),
            9 => 120 + self.below(20),
            10 => self.below(300),
            11 => 245 + self.below(20),
            12 => self.below(700),
            _ => {
                if self.one_in(12) {
                    65_530 + self.below(12)
                } else {
                    self.below(60)
                }
            }
        }
    }
}
