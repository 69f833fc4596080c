//! Concrete search for inputs on which a property of yamd fails, and replay of such inputs.
//! This never decides that a property holds; it looks for the failing input behind a failed proof obligation.
mod conform;
mod dict;
mod generate;
mod gram;
mod lexref;
mod nodegen;
mod oracle;
mod show;
mod treeref;

use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Case {
    pub input: String,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Err: the property fails on this input
pub fn run_one(prop: &str, input: &str) -> Result<bool, String> {
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| oracle::check(prop, input)));
    match r {
        Ok(x) => x,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {m}"))
        }
    }
}

fn shrink(prop: &str, input: &str, until: Instant) -> (String, String) {
    let mut best = input.to_string();
    let mut why = run_one(prop, &best).err().unwrap_or_default();
    loop {
        let cs: Vec<char> = best.chars().collect();
        let mut improved = false;
        let mut w = cs.len().max(1);
        'outer: while w >= 1 {
            let mut i = 0;
            while i + w <= cs.len() {
                if Instant::now() > until {
                    return (best, why);
                }
                let c: String = cs[..i].iter().chain(cs[i + w..].iter()).collect();
                if let Err(m) = run_one(prop, &c) {
                    best = c;
                    why = m;
                    improved = true;
                    break 'outer;
                }
                i += 1;
            }
            w /= 2;
        }
        if !improved {
            return (best, why);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let usage = "yh search PROP SEED SECONDS THREADS [KNOWN-FILE] | yh replay PROP FILE | yh conform";
    panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        Some("search") => {
            let prop = a.get(2).expect(usage).clone();
            let seed: u64 = a.get(3).expect(usage).parse().unwrap_or(1);
            let secs: f64 = a.get(4).expect(usage).parse().expect(usage);
            let threads: usize = a.get(5).map(|x| x.parse().unwrap()).unwrap_or(8);
            search(&prop, seed, secs, threads);
        }
        Some("conform") => match conform::conform() {
            Ok(n) => println!("{n}"),
            Err(m) => {
                println!("{m}");
                std::process::exit(1);
            }
        },
        Some("replay") => {
            let prop = a.get(2).expect(usage);
            let input = String::from_utf8(std::fs::read(a.get(3).expect(usage)).unwrap()).unwrap();
            let p2 = prop.clone();
            let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run_one(&p2, &input)).unwrap();
            let start = Instant::now();
            while !t.is_finished() {
                if start.elapsed() > Duration::from_secs(10) {
                    println!("FAILS {prop}: no result after 10 s");
                    std::process::exit(1);
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            match t.join().unwrap() {
                Ok(_) => println!("HOLDS {prop}"),
                Err(m) => {
                    println!("FAILS {prop}: {m}");
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("{usage}");
            std::process::exit(2);
        }
    }
}

struct Slot {
    input: Mutex<(String, Option<Instant>)>,
}

fn report(prop: &str, input: &str, why: &str, evals: u64, nontriv: u64, distinct: u64, exh: u64, samples: &[String]) -> ! {
    let s: Vec<String> = samples.iter().map(|x| jstr(x)).collect();
    println!(
        "{{\"property\":{},\"violation\":{},\"why\":{},\"evaluations\":{evals},\"nontrivial\":{nontriv},\"distinct_nontrivial\":{distinct},\"exhaustive_cases\":{exh},\"samples\":[{}]}}",
        jstr(prop),
        if why.is_empty() { "null".to_string() } else { jstr(input) },
        jstr(why),
        s.join(",")
    );
    std::process::exit(if why.is_empty() { 0 } else { 1 });
}

fn search(prop: &str, seed: u64, secs: f64, threads: usize) {
    let start = Instant::now();
    let end = start + Duration::from_secs_f64(secs);
    let stop = Arc::new(AtomicBool::new(false));
    let evals = Arc::new(AtomicU64::new(0));
    let nontriv = Arc::new(AtomicU64::new(0));
    let exh = Arc::new(AtomicU64::new(0));
    let found: Arc<Mutex<Option<(String, String)>>> = Default::default();
    let distinct: Arc<Mutex<std::collections::HashSet<u64>>> = Default::default();
    let samples: Arc<Mutex<Vec<String>>> = Default::default();
    let slots: Vec<Arc<Slot>> = (0..threads).map(|_| Arc::new(Slot { input: Mutex::new((String::new(), None)) })).collect();
    let mut hs = vec![];
    for t in 0..threads {
        let (stop, evals, nontriv, found, distinct, samples, exh) = (stop.clone(), evals.clone(), nontriv.clone(), found.clone(), distinct.clone(), samples.clone(), exh.clone());
        let slot = slots[t].clone();
        let prop = prop.to_string();
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut g = generate::Gen::new(&prop, seed, t as u64, threads as u64);
                    let mut local: Vec<u64> = vec![];
                    loop {
                        if stop.load(SeqCst) || Instant::now() > end {
                            break;
                        }
                        let (x, is_exh) = g.next();
                        {
                            let mut s = slot.input.lock().unwrap();
                            s.0.clone_from(&x);
                            s.1 = Some(Instant::now());
                        }
                        let r = run_one(&prop, &x);
                        slot.input.lock().unwrap().1 = None;
                        let n = evals.fetch_add(1, SeqCst);
                        if is_exh {
                            exh.fetch_add(1, SeqCst);
                        }
                        match r {
                            Ok(nt) => {
                                if nt {
                                    nontriv.fetch_add(1, SeqCst);
                                    let mut h = DefaultHasher::new();
                                    x.hash(&mut h);
                                    local.push(h.finish());
                                    if n % 997 == 5 {
                                        let mut s = samples.lock().unwrap();
                                        if s.len() < 5 {
                                            s.push(x.clone());
                                        }
                                    }
                                    if local.len() > 4096 {
                                        distinct.lock().unwrap().extend(local.drain(..));
                                    }
                                }
                            }
                            Err(m) => {
                                let mut f = found.lock().unwrap();
                                if f.is_none() {
                                    *f = Some((x, m));
                                }
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                    distinct.lock().unwrap().extend(local.drain(..));
                })
                .unwrap(),
        );
    }
    loop {
        std::thread::sleep(Duration::from_millis(20));
        for s in &slots {
            let g = s.input.lock().unwrap();
            if let (x, Some(t)) = &*g {
                if t.elapsed() > Duration::from_secs(8) {
                    let x = x.clone();
                    drop(g);
                    report(prop, &x, "no result after 8 s: the parser does not terminate (or takes unreasonable time) on this input", evals.load(SeqCst), 0, 0, 0, &[]);
                }
            }
        }
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
    }
    for h in hs {
        let _ = h.join();
    }
    let d = distinct.lock().unwrap().len() as u64;
    let sm = samples.lock().unwrap().clone();
    let f = found.lock().unwrap().clone();
    let (e, n, x) = (evals.load(SeqCst), nontriv.load(SeqCst), exh.load(SeqCst));
    if let Some((x0, m)) = f {
        let p = prop.to_string();
        let (x1, m1) = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let (x1, m1) = shrink(&p, &x0, Instant::now() + Duration::from_secs(4));
                if m1.is_empty() { (x0, m) } else { (x1, m1) }
            })
            .unwrap()
            .join()
            .unwrap();
        report(prop, &x1, &m1, e, n, d, x, &sm);
    }
    report(prop, "", "", e, n, d, x, &sm);
}
