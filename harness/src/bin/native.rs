//! Native driver: replays counterexamples on, and searches failing inputs of,
//! the real code.
//!
//!   native replay HARNESS HEX|kani:HEX|seed:N|@FILE   exit 1: the harness fails on that input
//!   native search SEED SECONDS HARNESS...   prints FAIL lines, exit 1 if any

use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use ur20_verif::nd::{self, Rejected, Source};

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

fn run(f: fn()) -> Result<bool, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Ok(true),
        Err(e) if e.is::<Rejected>() => Ok(false),
        Err(_) => Err(LAST.with(|l| l.borrow().clone())),
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

/// bytes of memory in use
fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0u64) * 4096
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line()));
        let text = format!("{} [{}]", msg.replace('\n', " "), at.unwrap_or_default());
        LAST.with(|l| *l.borrow_mut() = text);
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let all: Vec<ur20_verif::Entry> = ur20_verif::all()
        .into_iter()
        .map(|(n, v, f)| (n.trim_start_matches("ur20_verif::"), v, f))
        .collect();
    let find = |n: &str| all.iter().find(|(k, _, _)| *k == n).map(|(_, _, f)| *f);
    match args.first().map(String::as_str) {
        Some("list") => {
            for (n, verified, _) in &all {
                println!("{} {n}", if *verified { "kani" } else { "native" });
            }
        }
        Some("replay") => {
            let f = find(&args[1]).expect("unknown harness");
            // the bytes in hex, or @ and a file that holds them
            let mut input = args.get(2).cloned().unwrap_or_default();
            if let Some(f) = input.strip_prefix('@') {
                input = std::fs::read_to_string(f).expect("input file").trim().to_string();
            }
            nd::install(match input.split_once(':') {
                Some(("seed", k)) => Source::Random(k.parse().expect("seed"), Vec::new()),
                Some(("kani", h)) => Source::Kani(unhex(h), 0),
                _ => Source::Replay(unhex(&input), 0),
            });
            match run(f) {
                Ok(true) => println!("PASS {}", args[1]),
                Ok(false) => println!("REJECTED {}", args[1]),
                Err(e) => {
                    println!("FAIL {} {}", args[1], e);
                    std::process::exit(1);
                }
            }
        }
        Some("search") => {
            let seed: u64 = args[1].parse().expect("seed");
            let secs: f64 = args[2].parse().expect("seconds");
            let names = args[3..].to_vec();
            let mut failed = false;
            let queue = Mutex::new(names);
            let out = Mutex::new(Vec::new());
            // what each thread evaluates, since when
            let threads = std::thread::available_parallelism().map_or(1, |n| n.get());
            let running: Vec<Mutex<Option<(String, u64, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
            let working = AtomicUsize::new(threads);
            std::thread::scope(|s| {
                s.spawn(|| {
                    while working.load(Relaxed) > 0 {
                        std::thread::sleep(Duration::from_millis(20));
                        let oldest = running.iter().filter_map(|r| r.lock().unwrap().clone()).min_by_key(|r| r.2);
                        let Some((n, k, t)) = oldest else { continue };
                        let what = match t.elapsed() {
                            t if t > Duration::from_secs(20) => "does not terminate",
                            t if t > Duration::from_millis(200) && resident() > 3 << 30 => "takes all memory",
                            _ => continue,
                        };
                        for l in out.lock().unwrap().iter() {
                            println!("{l}");
                        }
                        println!("FAIL {n} seed:{k} {what}");
                        std::process::exit(1);
                    }
                });
                for slot in &running {
                    let (queue, out, working, find) = (&queue, &out, &working, &find);
                    s.spawn(move || {
                        loop {
                            let Some(n) = queue.lock().unwrap().pop() else {
                                working.fetch_sub(1, Relaxed);
                                break;
                            };
                            let Some(f) = find(&n) else {
                                out.lock().unwrap().push(format!("UNKNOWN {n}"));
                                continue;
                            };
                            let t0 = Instant::now();
                            let (mut done, mut rejected) = (0u64, 0u64);
                            let mut k = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
                            // the shortest input among those found in a while
                            let mut found: Option<(Vec<u8>, String, Instant)> = None;
                            while t0.elapsed() < Duration::from_secs_f64(secs)
                                && found.as_ref().is_none_or(|f| f.2.elapsed() < Duration::from_millis(500))
                            {
                                k = k.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
                                nd::install(Source::Random(k | 1, Vec::new()));
                                *slot.lock().unwrap() = Some((n.clone(), k | 1, Instant::now()));
                                let r = run(f);
                                *slot.lock().unwrap() = None;
                                match r {
                                    Ok(true) => done += 1,
                                    Ok(false) => rejected += 1,
                                    Err(e) => {
                                        let d = nd::drawn();
                                        match &mut found {
                                            None => found = Some((d, e, Instant::now())),
                                            Some(f) if d.len() < f.0.len() => (f.0, f.1) = (d, e),
                                            _ => {}
                                        }
                                    }
                                }
                            }
                            let line = match found {
                                Some((d, e, _)) => format!("FAIL {n} {} {e}", hex(&d)),
                                None => format!("OK {n} {done} {rejected}"),
                            };
                            out.lock().unwrap().push(line);
                        }
                    });
                }
            });
            for l in out.into_inner().unwrap() {
                failed |= l.starts_with("FAIL");
                println!("{l}");
            }
            if failed {
                std::process::exit(1);
            }
        }
        _ => {
            eprintln!("usage: native list | replay HARNESS HEX | search SEED SECONDS HARNESS...");
            std::process::exit(2);
        }
    }
}
