//! Search for inputs on which the compiled crate breaks a property, and replay of one such input.
//!   replay search <property> --seed S --budget-ms M [--jobs N]
//!   replay case <property> <seed> <index>
//!   replay known <name>
//! A search runs workers as child processes, so that an abort, a stack overflow or a hang of the code under test ends
//! a worker only. Exit 0: nothing found; 1: the last line on stdout is a JSON object that describes the failing case.
#[allow(dead_code)]
mod alloc;
#[allow(dead_code)]
mod av;
#[allow(dead_code)]
mod known;
#[allow(dead_code)]
mod msg;
#[allow(dead_code)]
#[allow(dead_code)]
mod perf;
#[allow(dead_code)]
mod props;
#[allow(dead_code)]
mod rng;
#[allow(dead_code)]
mod sample;
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic;
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Count = alloc::Count;

fn one(prop: &str, seed: u64, idx: u64) -> Result<(), String> {
    let p = prop.to_string();
    let mut r = rng::Rng::new(seed ^ p.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)), idx);
    match panic::catch_unwind(panic::AssertUnwindSafe(move || props::case(&p, &mut r))) {
        Ok(x) => x,
        Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())),
    }
}
fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap()
}
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 || (c as u32) > 126 => o += &format!("\\u{:04x}", (c as u32).min(0xffff)),
            c => o.push(c),
        }
    }
    o + "\""
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str, d: u64| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).and_then(|x| x.parse().ok()).unwrap_or(d);
    match a.get(1).map(|x| x.as_str()) {
        Some("case") => {
            let (p, seed, idx) = (a[2].clone(), a[3].parse().unwrap(), a[4].parse().unwrap());
            props::TRACE.store(true, std::sync::atomic::Ordering::Relaxed);
            match big_stack(move || one(&p, seed, idx)) {
                Ok(()) => println!("holds"),
                Err(e) => {
                    println!("fails: {}", e);
                    exit(1)
                }
            }
        }
        Some("worker") => {
            let (p, seed, journal) = (a[2].clone(), opt("--seed", 1), a[3].clone());
            let (mut i, step, end) = (opt("--from", 0), opt("--step", 1), Instant::now() + Duration::from_millis(opt("--budget-ms", 1000)));
            panic::set_hook(Box::new(|_| {}));
            big_stack(move || {
                let mut j = fs::OpenOptions::new().write(true).create(true).open(&journal).unwrap();
                let mut n = 0u64;
                while Instant::now() < end {
                    j.seek(SeekFrom::Start(0)).unwrap();
                    j.write_all(&i.to_le_bytes()).unwrap();
                    j.write_all(&n.to_le_bytes()).unwrap();
                    if let Err(e) = one(&p, seed, i) {
                        println!("{}", e);
                        exit(3);
                    }
                    n += 1;
                    i += step;
                }
                j.seek(SeekFrom::Start(8)).unwrap();
                j.write_all(&n.to_le_bytes()).unwrap();
            });
        }
        Some("search") => {
            let prop = a[2].clone();
            let (seed, budget, jobs) = (opt("--seed", 1), opt("--budget-ms", 2000), opt("--jobs", 4));
            let me = std::env::current_exe().unwrap();
            let dir = std::env::temp_dir();
            let mut kids: Vec<_> = (0..jobs)
                .map(|k| {
                    let j = dir.join(format!("replay-{}-{}", std::process::id(), k));
                    let c = Command::new(&me)
                        .args(&["worker", &prop, j.to_str().unwrap(), "--seed", &seed.to_string(), "--from", &k.to_string(), "--step", &jobs.to_string(), "--budget-ms", &budget.to_string()])
                        .stdout(Stdio::piped())
                        .stderr(Stdio::null())
                        .spawn()
                        .unwrap();
                    (c, j, None::<std::process::ExitStatus>)
                })
                .collect();
            let end = Instant::now() + Duration::from_millis(budget) + Duration::from_secs(20);
            let mut found: Option<(u64, String)> = None;
            let mut cases = 0u64;
            loop {
                let mut open = false;
                for (c, j, st) in kids.iter_mut() {
                    if st.is_some() {
                        continue;
                    }
                    let over = Instant::now() > end || found.is_some();
                    let done = c.try_wait().unwrap();
                    if done.is_none() && !over {
                        open = true;
                        continue;
                    }
                    if done.is_none() {
                        let _ = c.kill();
                    }
                    let s = c.wait().unwrap();
                    *st = Some(s);
                    let mut b = [0u8; 16];
                    let _ = fs::File::open(&j).and_then(|mut f| f.read_exact(&mut b));
                    let _ = fs::remove_file(&j);
                    let (mut i8_, mut n8) = ([0u8; 8], [0u8; 8]);
                    i8_.copy_from_slice(&b[..8]);
                    n8.copy_from_slice(&b[8..]);
                    let idx = u64::from_le_bytes(i8_);
                    cases += u64::from_le_bytes(n8);
                    let mut out = String::new();
                    if let Some(o) = c.stdout.as_mut() {
                        let _ = o.read_to_string(&mut out);
                    }
                    if done.is_some() && s.success() || found.is_some() {
                        continue;
                    }
                    found = Some((
                        idx,
                        if s.code() == Some(3) {
                            out.trim().to_string()
                        } else if done.is_none() {
                            "the case does not end".to_string()
                        } else {
                            format!("the process ended: {}", s)
                        },
                    ));
                }
                if !open {
                    break;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            match found {
                None => println!("{{\"found\": false, \"cases\": {}}}", cases),
                Some((i, e)) => {
                    println!("{{\"found\": true, \"cases\": {}, \"property\": {}, \"seed\": {}, \"index\": {}, \"what\": {}}}", cases, json(&prop), seed, i, json(&e));
                    exit(1)
                }
            }
        }
        Some("known") => known::run(&a[2]),
        _ => {
            eprintln!("usage: replay search|case|known ..");
            exit(2)
        }
    }
}
