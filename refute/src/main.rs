//! Drives the code under test with structured inputs and compares it with a
//! reference. `refute run PROP` looks for a failing input; `refute replay FILE`
//! runs one again.

mod api;
mod conform;
mod gen;
mod io;
mod p_agent;
mod p_hist;
mod p_req;
mod p_sess;
mod p_share;
mod p_stream;
mod p_wire;
mod spec;

use gen::{Dict, G};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type CaseFn = fn(&mut G, u64) -> Result<(), String>;

pub struct Phase {
    pub name: &'static str,
    /// Number of cases, or `None` for as many as time allows.
    pub count: Option<u64>,
    /// The cases enumerate a finite space.
    pub all: bool,
    pub f: CaseFn,
}

impl Phase {
    pub fn all(name: &'static str, count: u64, f: CaseFn) -> Self {
        Phase { name, count: Some(count), all: true, f }
    }
    pub fn some(name: &'static str, count: u64, f: CaseFn) -> Self {
        Phase { name, count: Some(count), all: false, f }
    }
    pub fn rand(name: &'static str, f: CaseFn) -> Self {
        Phase { name, count: None, all: false, f }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(120).map(|x| format!("{x:02x}")).collect();
    if b.len() > 120 {
        s.push_str(&format!("… ({} bytes)", b.len()));
    }
    if s.is_empty() {
        s.push_str("(nothing)");
    }
    s
}

fn phases(prop: &str, th: bool) -> Vec<Phase> {
    match prop {
        "TRUSTED" => conform::trusted(th),
        "C01" => p_wire::c01(th),
        "C02" => p_wire::c02(th),
        "C03" => p_wire::c03(th),
        "C04" => p_wire::c04(th),
        "C05" => p_wire::c05(th),
        "C06" => p_wire::c06(th),
        "C07" => p_wire::c07(th),
        "C08" => p_wire::c08(th),
        "C09" => p_wire::c09(th),
        "C10" => p_wire::c10(th),
        "C11" => p_wire::c11(th),
        "C12" => p_wire::c12(th),
        "C13" => p_wire::c13(th),
        "C14" => p_wire::c14(th),
        "C15" => p_stream::c15(th),
        "C16" => p_stream::c16(th),
        "C17" => p_hist::c17(th),
        "C18" => p_sess::c18(th),
        "C19" => p_sess::c19(th),
        "C20" => p_sess::c20(th),
        "C21" => p_sess::c21(th),
        "C22" => p_sess::c22(th),
        "C23" => p_hist::c23(th),
        "C24" => p_hist::c24(th),
        "C25" => p_req::c25(th),
        "C26" => p_hist::c26(th),
        "C27" => p_hist::c27(th),
        "C28" => p_hist::c28(th),
        "C29" => p_wire::c29(th),
        "C30" => p_wire::c30(th),
        "C31" => p_agent::c31(th),
        "C33" => p_agent::c33(th),
        "C32" => p_share::c32(th),
        _ => panic!("unknown property {prop}"),
    }
}

fn case_seed(seed: u64, phase: u64, idx: u64) -> u64 {
    let mut x = seed ^ 0x5851f42d4c957f2d;
    for v in [phase, idx] {
        x = (x ^ v).wrapping_mul(0x9e3779b97f4a7c15);
        x ^= x >> 29;
        x = x.wrapping_mul(0xbf58476d1ce4e5b9);
        x ^= x >> 32;
    }
    x
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn run_case(f: CaseFn, g: &mut G, idx: u64) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| f(g, idx))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

fn load_dict() -> Dict {
    let mut d = Dict::default();
    if let Ok(p) = std::env::var("REFUTE_DICT") {
        for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
            if let Some(n) = l.strip_prefix("i ") {
                d.ints.extend(n.parse::<u64>());
            } else if let Some(s) = l.strip_prefix("s ") {
                d.strs.push(s.to_string());
            }
        }
    }
    d
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Found {
    phase: usize,
    idx: u64,
    msg: String,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args[2..]),
        Some("nofiles") => match p_agent::no_files() {
            Ok(()) => println!("holds"),
            Err(e) => println!("FAILS: {e}"),
        },
        Some("case") => one(&args[2..]),
        _ => {
            eprintln!("usage: refute run PROP SEED SECONDS thorough|quick | refute case PROP SEED quick|thorough PHASE INDEX");
            std::process::exit(2);
        }
    }
}

/// Run one case again.
fn one(a: &[String]) {
    let th = a[2] == "thorough";
    let (prop, seed): (&str, u64) = (&a[0], a[1].parse().unwrap());
    let (p, idx): (usize, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let dict = load_dict();
    let ph = phases(prop, th);
    let mut g = G::new(case_seed(seed, p as u64, idx), &dict, th);
    g.want_desc = true;
    match run_case(ph[p].f, &mut g, idx) {
        Ok(()) => println!("case {p}/{idx} of {prop} holds: {}", g.desc),
        Err(e) => {
            println!("case {p}/{idx} of {prop} FAILS: {e}");
            std::process::exit(1);
        }
    }
}

fn run(a: &[String]) {
    let prop = a[0].clone();
    let seed: u64 = a[1].parse().unwrap();
    let secs: f64 = a[2].parse().unwrap();
    let th = a[3] == "thorough";
    let dict = load_dict();
    let ph = phases(&prop, th);
    let start = Instant::now();
    let nthreads = std::env::var("REFUTE_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(6usize);
    let nrand = ph.iter().filter(|p| p.count.is_none()).count().max(1) as f64;
    let found: Arc<Mutex<Vec<Found>>> = Default::default();
    let known: Arc<Mutex<Vec<Found>>> = Default::default();
    let stop = AtomicBool::new(false);
    // what each thread is doing, for the watchdog
    let busy: Vec<(AtomicU64, AtomicU64, AtomicU64)> = (0..nthreads).map(|_| Default::default()).collect();
    let done = AtomicBool::new(false);
    let mut evaluations = 0u64;
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut lines: Vec<String> = vec![];
    std::thread::scope(|s| {
        let (busy, done, prop2) = (&busy, &done, prop.clone());
        s.spawn(move || {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                let now = start.elapsed().as_millis() as u64;
                for b in busy {
                    let t = b.2.load(Ordering::SeqCst);
                    if t != 0 && now > t + 30_000 {
                        println!(
                            "{{\"property\": {}, \"found\": [{{\"phase\": {}, \"idx\": {}, \"msg\": \"does not terminate within 30 s\"}}]}}",
                            json_str(&prop2), b.0.load(Ordering::SeqCst), b.1.load(Ordering::SeqCst)
                        );
                        std::process::exit(3);
                    }
                }
            }
        });
        for (pi, p) in ph.iter().enumerate() {
            if stop.load(Ordering::SeqCst) {
                break;
            }
            let t0 = Instant::now();
            let counter = AtomicU64::new(0);
            let budget = if p.count.is_some() { f64::MAX } else { secs / nrand };
            let results: Vec<(u64, Vec<u64>, Vec<String>)> = std::thread::scope(|s2| {
                let hs: Vec<_> = (0..nthreads)
                    .map(|t| {
                        let (counter, dict, stop, found, known) = (&counter, &dict, &stop, &found, &known);
                        s2.spawn(move || {
                            let (mut n, mut keys, mut samples) = (0u64, vec![], vec![]);
                            loop {
                                if stop.load(Ordering::Relaxed) || (budget < 1e9 && t0.elapsed().as_secs_f64() > budget) {
                                    break;
                                }
                                let i0 = counter.fetch_add(16, Ordering::SeqCst);
                                for idx in i0..i0 + 16 {
                                    if p.count.is_some_and(|c| idx >= c) {
                                        break;
                                    }
                                    let mut g = G::new(case_seed(seed, pi as u64, idx), dict, th);
                                    g.want_desc = idx == 5 || idx == 17;
                                    let b = &busy[t];
                                    b.0.store(pi as u64, Ordering::SeqCst);
                                    b.1.store(idx, Ordering::SeqCst);
                                    b.2.store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                                    let r = run_case(p.f, &mut g, idx);
                                    b.2.store(0, Ordering::SeqCst);
                                    n += 1;
                                    if !g.trivial && keys.len() < 3_000_000 {
                                        keys.push(g.key);
                                    }
                                    if g.want_desc && !g.desc.is_empty() {
                                        samples.push(format!("{}: {}", p.name, g.desc));
                                    }
                                    if let Err(msg) = r {
                                        if msg.starts_with("KNOWN ") {
                                            known.lock().unwrap().push(Found { phase: pi, idx, msg });
                                        } else {
                                            found.lock().unwrap().push(Found { phase: pi, idx, msg });
                                            stop.store(true, Ordering::SeqCst);
                                        }
                                    }
                                }
                                if p.count.is_some_and(|c| i0 + 16 >= c) {
                                    break;
                                }
                            }
                            (n, keys, samples)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            let n: u64 = results.iter().map(|r| r.0).sum();
            evaluations += n;
            for (_, k, s) in results {
                for key in k {
                    nontrivial.insert(key ^ ((pi as u64) << 56));
                }
                samples.extend(s);
            }
            lines.push(format!(
                "{{\"phase\": {}, \"cases\": {n}, \"enumerated\": {}, \"seconds\": {:.2}}}",
                json_str(p.name),
                p.all,
                t0.elapsed().as_secs_f64()
            ));
        }
        done.store(true, Ordering::SeqCst);
    });
    let mut f = found.lock().unwrap();
    f.sort_by_key(|f| (f.phase, f.idx));
    let show = |v: &[Found]| {
        v.iter()
            .take(3)
            .map(|f| format!("{{\"phase\": {}, \"name\": {}, \"idx\": {}, \"msg\": {}}}", f.phase, json_str(ph[f.phase].name), f.idx, json_str(&f.msg)))
            .collect::<Vec<_>>()
            .join(", ")
    };
    samples.truncate(8);
    println!(
        "{{\"property\": {}, \"hook\": {}, \"evaluations\": {evaluations}, \"distinct_nontrivial\": {}, \"phases\": [{}], \"samples\": [{}], \"found\": [{}], \"known\": [{}]}}",
        json_str(&prop),
        api::HOOK,
        nontrivial.len(),
        lines.join(", "),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        show(&f),
        show(&known.lock().unwrap()),
    );
    std::process::exit(if f.is_empty() { 0 } else { 1 });
}
