//! The inputs of the recorded findings, each run in a child process: exit 0 if the finding is still there.
use amqp_codec::types::*;
use amqp_codec::*;
use std::process::{exit, Command, Stdio};

fn child(name: &str) -> std::process::ExitStatus {
    Command::new(std::env::current_exe().unwrap()).args(&["known", name]).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap()
}
pub fn run(name: &str) {
    match name {
        // P03: nesting of described values, lists or maps exhausts the stack
        "deep-nesting" => {
            let st = child("deep-nesting-run");
            exit(if st.success() { 1 } else { 0 })
        }
        "deep-nesting-run" => {
            let mut b = vec![];
            for _ in 0..2_000_000 {
                b.extend_from_slice(&[0x00, 0x53, 0x01]);
            }
            b.push(0x40);
            let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                let r = Variant::decode(&b);
                let ok = r.is_err();
                std::mem::forget(r);
                ok
            });
            t.unwrap().join().unwrap();
            exit(0)
        }
        // P15: an array whose elements take no bytes grows to any claimed count
        "zero-width-array" => {
            let n = 3_000_000u32;
            let mut b = vec![0xf0, 0, 0, 0, 5];
            b.extend_from_slice(&[(n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8, 0x41]);
            crate::alloc::start();
            let r = Vec::<bool>::decode(&b).map(|x| x.1.len());
            let (most, _) = crate::alloc::stop();
            exit(if r.is_ok() && most >= n as usize / 2 { 0 } else { 1 })
        }
        _ => exit(2),
    }
}
