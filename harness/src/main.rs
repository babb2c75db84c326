//! Drives the real library and records what it did. See /verif/DESIGN.md.
mod drive;
mod giant;
mod mem;
mod ops;
mod rng;
mod tok;
mod util;

use drive::{parse_profile, Profile};
use ops::Op;
use std::collections::HashMap;
use std::fs::{self, File};
use std::io::Write;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};
use util::*;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

/// Vectors of the thread-safe kind may be sent to and shared between threads.
#[allow(dead_code)]
fn thread_safe() {
    fn both<T: Send + Sync>() {}
    both::<librrb::ThreadSafeVector<u32>>();
    both::<librrb::ThreadSafeVector<tok::Tok>>();
}

#[allow(dead_code)]
mod rc {
    type E = u32;
    type V = librrb::Vector<E>;
    type Foc<'a> = librrb::RegularFocus<'a, E>;
    type FMut<'a> = librrb::RegularFocusMut<'a, E>;
    const THREADS: bool = false;
    macro_rules! make { ($($t:tt)*) => { librrb::vector![$($t)*] } }
    include!("world.rs");
}
#[allow(dead_code)]
mod rct {
    type E = crate::tok::Tok;
    type V = librrb::Vector<E>;
    type Foc<'a> = librrb::RegularFocus<'a, E>;
    type FMut<'a> = librrb::RegularFocusMut<'a, E>;
    const THREADS: bool = false;
    macro_rules! make { ($($t:tt)*) => { librrb::vector![$($t)*] } }
    include!("world.rs");
}
#[allow(dead_code)]
mod arc {
    type E = u32;
    type V = librrb::ThreadSafeVector<E>;
    type Foc<'a> = librrb::ThreadSafeFocus<'a, E>;
    type FMut<'a> = librrb::ThreadSafeFocusMut<'a, E>;
    const THREADS: bool = true;
    macro_rules! make { ($($t:tt)*) => { librrb::vector_ts![$($t)*] } }
    include!("world.rs");
}
#[allow(dead_code)]
mod arct {
    type E = crate::tok::Tok;
    type V = librrb::ThreadSafeVector<E>;
    type Foc<'a> = librrb::ThreadSafeFocus<'a, E>;
    type FMut<'a> = librrb::ThreadSafeFocusMut<'a, E>;
    const THREADS: bool = true;
    macro_rules! make { ($($t:tt)*) => { librrb::vector_ts![$($t)*] } }
    include!("world.rs");
}

#[allow(dead_code)]
mod hrc {
    use crate::giant::Plain;
    type E = u32;
    type V = librrb::Vector<E>;
    type Foc<'a> = librrb::RegularFocus<'a, E>;
    include!("huge.rs");
}
#[allow(dead_code)]
mod hz {
    use crate::giant::Plain;
    type E = crate::giant::Nil;
    type V = librrb::Vector<E>;
    type Foc<'a> = librrb::RegularFocus<'a, E>;
    include!("huge.rs");
}
#[allow(dead_code)]
mod harc {
    use crate::giant::Plain;
    type E = u32;
    type V = librrb::ThreadSafeVector<E>;
    type Foc<'a> = librrb::ThreadSafeFocus<'a, E>;
    include!("huge.rs");
}
#[allow(dead_code)]
mod hzarc {
    use crate::giant::Plain;
    type E = crate::giant::Nil;
    type V = librrb::ThreadSafeVector<E>;
    type Foc<'a> = librrb::ThreadSafeFocus<'a, E>;
    include!("huge.rs");
}

fn world(kind: &str, p: &Profile, seed: u64, log: Log) -> (Log, Option<String>) {
    match kind {
        "rc" => rc::world(p, seed, log),
        "rct" => rct::world(p, seed, log),
        "arc" => arc::world(p, seed, log),
        _ => arct::world(p, seed, log),
    }
}

fn script(kind: &str, ops: &[Op], k: usize, log: Log) -> (Log, Option<String>) {
    match kind {
        "rc" => rc::script(ops, k, log),
        "rct" => rct::script(ops, k, log),
        "arc" => arc::script(ops, k, log),
        _ => arct::script(ops, k, log),
    }
}

fn scripted(kind: &str, ops: &[Op], battery: &str, p: &Profile, seed: u64, log: Log) -> (Log, Option<String>) {
    match kind {
        "rc" => rc::scripted(ops, battery, p, seed, log),
        "rct" => rct::scripted(ops, battery, p, seed, log),
        "arc" => arc::scripted(ops, battery, p, seed, log),
        _ => arct::scripted(ops, battery, p, seed, log),
    }
}

/// One script a line, its operations separated by //.
fn read_scripts(path: &str) -> Vec<Vec<Op>> {
    let text = fs::read_to_string(path).unwrap();
    text.lines().filter(|l| !l.trim().is_empty()).map(|l| l.split("//").filter_map(Op::parse).collect()).collect()
}

fn world_seed(seed: u64, i: u64) -> u64 {
    rng::Rng::new(seed.wrapping_mul(0x1000_0000_01B3) ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15)).next()
}

/// Aborts when no operation finishes for a long while.
fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let (mut last, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = BEAT.load(Ordering::Relaxed);
            if now != last {
                last = now;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(secs) {
                eprintln!("watchdog: no progress for {} s", secs);
                std::process::exit(97);
            }
        }
    });
}

fn through(dir: &str) -> Log {
    Log {
        through: Some((File::create(format!("{}/trace.ndjson", dir)).unwrap(), File::create(format!("{}/intent.txt", dir)).unwrap())),
        ..Default::default()
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args[1].clone();
    let mut o: HashMap<String, String> = HashMap::new();
    let mut i = 2;
    while i + 1 < args.len() {
        o.insert(args[i].trim_start_matches('-').to_string(), args[i + 1].clone());
        i += 2;
    }
    let get = |k: &str, d: &str| o.get(k).cloned().unwrap_or_else(|| d.to_string());
    let num = |k: &str, d: u64| o.get(k).map(|x| x.parse().unwrap()).unwrap_or(d);
    if num("loud", 0) == 0 {
        std::panic::set_hook(Box::new(|_| {}));
    }
    watchdog(num("watchdog", 60));
    let (kind, dir, seed) = (get("kind", "rc"), get("out", "."), num("seed", 1));
    fs::create_dir_all(&dir).unwrap();
    let stack = (num("stack", 8) as usize) << 20;
    let t = std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || {
            let get = |k: &str, d: &str| o.get(k).cloned().unwrap_or_else(|| d.to_string());
            let num = |k: &str, d: u64| o.get(k).map(|x| x.parse().unwrap()).unwrap_or(d);
            match cmd.as_str() {
                "run" => {
                    let p = parse_profile(&get("profile", ""));
                    run(num("worlds", 100), num("secs", 10), num("events", 20000), &dir, &|i| i, &|i| {
                        world(&kind, &p, world_seed(seed, i), Log::default())
                    })
                }
                "scripts" => {
                    let p = parse_profile(&get("profile", ""));
                    let all = read_scripts(&get("file", ""));
                    let battery = get("battery", "");
                    if let Some(i) = get("only", "").parse::<u64>().ok() {
                        let (_, s) = scripted(&kind, &all[i as usize], &battery, &p, world_seed(seed, i), through(&dir));
                        println!("{:?}", s);
                        return;
                    }
                    // in an order of the seed's, every part a different share
                    let (part, parts) = (num("part", 0), num("parts", 1));
                    let mut order: Vec<u64> = (0..all.len() as u64).collect();
                    let mut r = rng::Rng::new(seed / 1000 + 7);
                    for i in (1..order.len()).rev() {
                        order.swap(i, r.below(i as u64 + 1) as usize);
                    }
                    let mine: Vec<u64> = order.into_iter().skip(part as usize).step_by(parts as usize).collect();
                    let n = mine.len() as u64;
                    run(n, num("secs", 10), num("events", 20000), &dir, &|i| mine[i as usize], &|i| {
                        scripted(&kind, &all[i as usize], &battery, &p, world_seed(seed, i), Log::default())
                    })
                }
                "retrace" => {
                    let p = parse_profile(&get("profile", ""));
                    let (_, s) = world(&kind, &p, world_seed(seed, num("world", 0)), through(&dir));
                    println!("{:?}", s);
                }
                "giants" => {
                    let mut out = giant::Out {
                        f: File::create(format!("{}/trace.ndjson", dir)).unwrap(),
                        cur: File::create(format!("{}/intent.txt", dir)).unwrap(),
                        n: 0,
                    };
                    let start = Instant::now();
                    for i in 0..num("worlds", 10) {
                        if start.elapsed() > Duration::from_secs(num("secs", 10)) {
                            break;
                        }
                        match kind.as_str() {
                            "rc" => hrc::giants(&mut out, world_seed(seed, i)),
                            "arc" => harc::giants(&mut out, world_seed(seed, i)),
                            "rcz" => hz::giants(&mut out, world_seed(seed, i)),
                            _ => hzarc::giants(&mut out, world_seed(seed, i)),
                        }
                    }
                    println!("{}", out.n);
                }
                "costs" => {
                    let mut out = giant::Out {
                        f: File::create(format!("{}/trace.ndjson", dir)).unwrap(),
                        cur: File::create(format!("{}/intent.txt", dir)).unwrap(),
                        n: 0,
                    };
                    match kind.as_str() {
                        "rc" => hrc::costs(&mut out, seed),
                        _ => harc::costs(&mut out, seed),
                    }
                    println!("{}", out.n);
                }
                "replay" => {
                    let text = fs::read_to_string(get("script", "")).unwrap();
                    let ops: Vec<Op> = text.lines().filter_map(Op::parse).collect();
                    let (_, s) = script(&kind, &ops, num("k", 4) as usize, through(&dir));
                    println!("{}", s.unwrap_or("fine".to_string()));
                }
                x => panic!("unknown command {}", x),
            }
        })
        .unwrap();
    if t.join().is_err() {
        eprintln!("harness panicked");
        std::process::exit(3);
    }
}

type One<'a> = &'a dyn Fn(u64) -> (Log, Option<String>);

fn run(worlds: u64, secs: u64, budget: u64, dir: &str, name: &dyn Fn(u64) -> u64, one: One) {
    use std::os::unix::fs::FileExt;
    let start = Instant::now();
    let cur = File::create(format!("{}/current", dir)).unwrap();
    let mut sample = File::create(format!("{}/sample.ndjson", dir)).unwrap();
    let (mut events, mut kept, mut done, mut suspects) = (0u64, 0u64, 0u64, 0u64);
    // worlds worth sampling are spread over the whole run
    for n in 0..worlds {
        let i = name(n);
        if start.elapsed() > Duration::from_secs(secs) {
            break;
        }
        cur.write_all_at(format!("{:020}", i).as_bytes(), 0).unwrap();
        let (log, suspect) = one(i);
        done += 1;
        events += log.n as u64;
        if let Some(s) = suspect {
            suspects += 1;
            fs::write(format!("{}/suspect-{}.ndjson", dir, suspects), &log.buf).unwrap();
            fs::write(format!("{}/suspect-{}.ops", dir, suspects), &log.ops).unwrap();
            fs::write(format!("{}/suspect-{}.txt", dir, suspects), format!("world {}: {}\n", i, s)).unwrap();
            if suspects >= 3 {
                break;
            }
        } else if log.buf.len() < 300 * log.n + 20_000 && (kept as f64) <= budget as f64 * (n as f64 / worlds as f64).max(start.elapsed().as_secs_f64() / secs as f64) {
            kept += log.n as u64;
            sample.write_all(log.buf.as_bytes()).unwrap();
        }
    }
    let shapes = SHAPES.lock().unwrap().take().unwrap_or_default();
    let mut shapes: Vec<String> = shapes.into_iter().collect();
    shapes.sort();
    fs::write(format!("{}/shapes.txt", dir), shapes.join("\n") + "\n").unwrap();
    fs::write(
        format!("{}/stats.json", dir),
        format!(
            "{{\"worlds\":{},\"events\":{},\"sampled\":{},\"suspects\":{},\"shapes\":{},\"width\":{},\"secs\":{:.2}}}\n",
            done,
            events,
            kept,
            suspects,
            shapes.len(),
            librrb_width(),
            start.elapsed().as_secs_f64()
        ),
    )
    .unwrap();
    println!("worlds {} events {} sampled {} suspects {} shapes {}", done, events, kept, suspects, shapes.len());
}
