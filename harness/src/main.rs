//! Bounded search for failing inputs: the stand-in that runs the real code of /repo beside the proofs.
//!   gch run <property> --seed N --secs T --cases N --scratch DIR --out FILE
//!   gch replay <property> --seed N --index I --scratch DIR [--times K]
#[macro_use]
mod util;
mod cli;
mod p_algo;
mod p_cmd;
mod p_core;
mod p_search;

use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::Rng;

/// What a driver can use besides its random numbers
pub struct Ctx {
    pub slot: Arc<Mutex<(u64, String, Instant)>>,
    pub scratch: PathBuf,
    pub bin: PathBuf,
    pub thorough: bool,
}

impl Ctx {
    /// Records the input about to be tried, so that a panic or a hang can be reported with it
    pub fn input(&self, s: String) {
        self.slot.lock().unwrap().1 = s;
    }
    /// An empty scratch directory of this thread
    pub fn dir(&self) -> PathBuf {
        let _ = std::fs::remove_dir_all(&self.scratch);
        std::fs::create_dir_all(&self.scratch).unwrap();
        self.scratch.clone()
    }
}

/// Ok(true): a non-trivial case; Ok(false): a trivial one; Err: the property fails on it
pub type Driver = fn(u64, &mut Rng, &Ctx) -> Result<bool, String>;

fn driver(p: &str) -> Option<Driver> {
    Some(match p {
        "C01" => p_core::c01,
        "C02" => p_cmd::c02,
        "C03" => p_algo::c03,
        "C04" => p_search::c04,
        "C05" => p_search::c05,
        "C06" => p_search::c06,
        "C07" => p_algo::c07,
        "C08" => p_algo::c08,
        "C09" => p_algo::c09,
        "C10" => p_algo::c10,
        "C11" => p_algo::c11,
        "C12" => p_algo::c12,
        "C13" => p_algo::c13,
        "C14" => p_search::c14,
        "C15" => p_cmd::c15,
        "C16" => p_cmd::c16,
        "C17" => p_core::c17,
        "C18" => p_core::c18,
        "C19" => p_cmd::c19,
        _ => return None,
    })
}

fn one(p: &str, d: Driver, seed: u64, i: u64, c: &Ctx) -> Result<bool, String> {
    {
        let mut s = c.slot.lock().unwrap();
        *s = (i, String::new(), Instant::now());
    }
    let mut r = Rng::new(seed, i, p);
    match panic::catch_unwind(panic::AssertUnwindSafe(|| d(i, &mut r, c))) {
        Ok(x) => x,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("the code panicked: {}", m))
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn short(s: &str) -> String {
    if s.chars().count() > 3000 {
        s.chars().take(3000).collect::<String>() + "..."
    } else {
        s.to_string()
    }
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4096
        / 1_000_000
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string())
    };
    let p = a.get(2).cloned().unwrap_or_default();
    let d = match driver(&p) {
        Some(d) => d,
        None => {
            eprintln!("unknown property");
            std::process::exit(2)
        }
    };
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let scratch = PathBuf::from(get("--scratch", "/tmp/gch-scratch"));
    let bin = std::env::current_exe().unwrap().parent().unwrap().to_path_buf();
    let limit: u64 = get("--case-limit", "60").parse().unwrap();
    let thorough = get("--tier", "quick") == "thorough";
    panic::set_hook(Box::new(|_| {}));

    if a[1] == "replay" {
        let i: u64 = get("--index", "0").parse().unwrap();
        let times: u64 = get("--times", "20").parse().unwrap();
        let slot = Arc::new(Mutex::new((0, String::new(), Instant::now())));
        let c = Ctx { slot: slot.clone(), scratch: scratch.join("r"), bin, thorough };
        let w = slot.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let (_, input, t) = w.lock().unwrap().clone();
            if t.elapsed().as_secs() > limit || rss_mb() > 8000 {
                println!("FAILS input: {}\nobserved: no answer within {} s / 8 GB", input, limit);
                std::process::exit(1);
            }
        });
        for _ in 0..times {
            if let Err(m) = one(&p, d, seed, i, &c) {
                println!("FAILS input: {}\nobserved: {}", slot.lock().unwrap().1, m);
                let _ = std::fs::remove_dir_all(&scratch);
                std::process::exit(1);
            }
        }
        let _ = std::fs::remove_dir_all(&scratch);
        println!("PASSES ({} times) input: {}", times, slot.lock().unwrap().1);
        return;
    }

    let secs: f64 = get("--secs", "10").parse().unwrap();
    let cases: u64 = get("--cases", "1000000000").parse().unwrap();
    let out = get("--out", "/dev/stdout");
    let threads: usize = get("--threads", "8").parse().unwrap();
    let start = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let fails: Arc<Mutex<Vec<(u64, String, String)>>> = Arc::new(Mutex::new(vec![]));
    let stats: Arc<Mutex<(u64, HashSet<u64>, Vec<String>)>> = Arc::new(Mutex::new((0, HashSet::new(), vec![])));
    let mut slots = vec![];
    let mut hs = vec![];
    for t in 0..threads {
        let slot = Arc::new(Mutex::new((0u64, String::new(), Instant::now())));
        slots.push(slot.clone());
        let (next, stop, fails, stats, p) = (next.clone(), stop.clone(), fails.clone(), stats.clone(), p.clone());
        let c = Ctx { slot: slot.clone(), scratch: scratch.join(format!("t{}", t)), bin: bin.clone(), thorough };
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let (mut n, mut seen, mut samples) = (0u64, HashSet::new(), vec![]);
                    while !stop.load(Ordering::SeqCst) && start.elapsed().as_secs_f64() < secs {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= cases {
                            break;
                        }
                        match one(&p, d, seed, i, &c) {
                            Ok(nontrivial) => {
                                n += 1;
                                if nontrivial {
                                    let s = c.slot.lock().unwrap().1.clone();
                                    let mut h = DefaultHasher::new();
                                    s.hash(&mut h);
                                    seen.insert(h.finish());
                                    if samples.len() < 1 && i > 600 {
                                        samples.push(s);
                                    }
                                }
                            }
                            Err(m) => {
                                let s = c.slot.lock().unwrap().1.clone();
                                fails.lock().unwrap().push((i, s, m));
                                stop.store(true, Ordering::SeqCst);
                                break;
                            }
                        }
                    }
                    c.slot.lock().unwrap().0 = u64::max_value();
                    let mut g = stats.lock().unwrap();
                    g.0 += n;
                    g.1.extend(seen);
                    g.2.extend(samples);
                })
                .unwrap(),
        );
    }
    // watchdog: a case that does not end, or eats the memory, is a failure of that case
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
        let mem = rss_mb() > 12000;
        let oldest = slots
            .iter()
            .map(|s| s.lock().unwrap().clone())
            .filter(|s| s.0 != u64::max_value())
            .min_by_key(|s| s.2);
        if let Some((i, input, t)) = oldest {
            if t.elapsed().as_secs() > limit || (mem && t.elapsed().as_secs() > 3) {
                fails.lock().unwrap().push((i, input, format!("no answer within {} s (or 12 GB of memory used)", limit)));
                break;
            }
        }
    }
    let g = stats.lock().unwrap();
    let mut f = fails.lock().unwrap().clone();
    f.sort();
    let mut o = format!(
        "{{\"property\":\"{}\",\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"wall_s\":{:.2},\"samples\":[",
        p, seed, g.0, g.1.len(), start.elapsed().as_secs_f64()
    );
    o.push_str(&g.2.iter().take(3).map(|s| format!("\"{}\"", esc(&short(s)))).collect::<Vec<_>>().join(","));
    o.push_str("],\"failures\":[");
    o.push_str(
        &f.iter()
            .take(3)
            .map(|(i, s, m)| format!("{{\"index\":{},\"input\":\"{}\",\"observed\":\"{}\"}}", i, esc(&short(s)), esc(&short(m))))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("]}\n");
    std::fs::write(&out, o).unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(0);
}
