//! Contract files: `%directive key` followed by raw Verus text up to the next directive.
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Contracts {
    /// directive -> key -> text
    pub map: BTreeMap<String, BTreeMap<String, String>>,
    pub used: std::cell::RefCell<std::collections::BTreeSet<(String, String)>>,
}

impl Contracts {
    pub fn load(&mut self, text: &str) {
        let mut cur: Option<(String, String)> = None;
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix('%') {
                if rest.starts_with('%') || rest.trim().is_empty() {
                    cur = None;
                    continue;
                }
                let mut it = rest.splitn(2, ' ');
                let d = it.next().unwrap().trim().to_string();
                let k = it.next().unwrap_or("").trim().to_string();
                self.map.entry(d.clone()).or_default().entry(k.clone()).or_default();
                cur = Some((d, k));
            } else if let Some((d, k)) = &cur {
                let e = self.map.get_mut(d).unwrap().get_mut(k).unwrap();
                e.push_str(line);
                e.push('\n');
            }
        }
    }
    pub fn get(&self, d: &str, k: &str) -> Option<String> {
        let r = self.map.get(d).and_then(|m| m.get(k)).cloned();
        if r.is_some() {
            self.used.borrow_mut().insert((d.to_string(), k.to_string()));
        }
        r
    }
    pub fn has(&self, d: &str, k: &str) -> bool {
        self.map.get(d).map_or(false, |m| m.contains_key(k))
    }
    pub fn unused(&self) -> Vec<(String, String)> {
        let mut v = vec![];
        for (d, m) in &self.map {
            for k in m.keys() {
                if !self.used.borrow().contains(&(d.clone(), k.clone())) {
                    v.push((d.clone(), k.clone()));
                }
            }
        }
        v
    }
}
