//! Native side of the checks: looks for a concrete failing input of a
//! property on the real code, and stands in (labelled bounded) for the parts
//! outside the contracts.
//!
//!   vnative check PROP --seed N --secs T --json OUT [--trace DIR]
//!   vnative replay PROP FILE
//!   vnative dump ...

mod checks;
mod gen;
mod prec;
mod refdec;
mod reflex;
mod refwl;
mod tree;
mod whole;

use checks::{inputs_of, Cfg, Chk};
use gen::Rng;
use refdec::Conv;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! { static LAST: std::cell::RefCell<String> = Default::default(); }

pub fn show(b: &[u8]) -> String {
    b.iter().map(|&c| std::ascii::escape_default(c).to_string()).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{c:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut u = [0; 2];
                for x in c.encode_utf16(&mut u) {
                    o.push_str(&format!("\\u{x:04x}"));
                }
            },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("panic: {} at {}", m.chars().take(200).collect::<String>(), LAST.with(|l| l.borrow().clone())))
        },
    }
}

#[derive(Clone)]
struct Failure {
    check: String,
    input: Vec<u8>,
    cfg: Cfg,
    msg: String,
}

fn write_json(path: &str, prop: &str, evals: u64, nontrivial: u64, notes: &[String], samples: &[Vec<u8>], f: Option<&Failure>) {
    let mut s = String::new();
    s.push_str(&format!("{{\"property\":{},\"evaluations\":{evals},\"distinct_nontrivial\":{nontrivial},", jstr(prop)));
    s.push_str(&format!("\"hooks\":{},", cfg!(codeparser_verif)));
    s.push_str("\"notes\":[");
    s.push_str(&notes.iter().map(|n| jstr(n)).collect::<Vec<_>>().join(","));
    s.push_str("],\"samples\":[");
    s.push_str(&samples.iter().map(|n| jstr(&show(n))).collect::<Vec<_>>().join(","));
    s.push_str("],\"failure\":");
    match f {
        None => s.push_str("null"),
        Some(f) => s.push_str(&format!(
            "{{\"check\":{},\"input_hex\":{},\"input\":{},\"cfg\":{},\"message\":{}}}",
            jstr(&f.check),
            jstr(&hex(&f.input)),
            jstr(&show(&f.input)),
            jstr(&f.cfg.encode()),
            jstr(&f.msg)
        )),
    }
    s.push_str("}\n");
    std::fs::File::create(path).unwrap().write_all(s.as_bytes()).unwrap();
}

fn shrink(mut f: Failure, chk: Chk) -> Failure {
    let t = Instant::now();
    let mut step = (f.input.len() / 2).max(1);
    while step > 0 && t.elapsed() < Duration::from_secs(10) {
        let mut i = 0;
        let mut progress = false;
        while i < f.input.len() {
            let mut b = f.input.clone();
            b.drain(i..(i + step).min(b.len()));
            if let Err(m) = guard(|| chk(&b, &f.cfg)) {
                f.input = b;
                f.msg = m;
                progress = true;
            } else {
                i += step;
            }
        }
        if !progress || step > 1 {
            if step == 1 && !progress {
                break;
            }
            step = if step > 1 { step / 2 } else { 1 };
        }
    }
    let d = Cfg::default();
    if let Err(m) = guard(|| chk(&f.input, &d)) {
        f.cfg = d;
        f.msg = m;
    }
    f
}

fn run_one(prop: &str, b: &[u8], cfg: &Cfg) -> Option<(String, String)> {
    for (name, chk) in inputs_of(prop) {
        if let Err(m) = guard(|| chk(b, cfg)) {
            return Some((name.to_string(), m));
        }
    }
    None
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        LAST.with(|l| *l.borrow_mut() = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default())
    }));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    match a.get(0).map(|s| s.as_str()) {
        Some("check") => {
            let prop = a[1].clone();
            let seed: u64 = opt("--seed").map_or(1, |s| s.parse().unwrap());
            let secs: f64 = opt("--secs").map_or(10.0, |s| s.parse().unwrap());
            let json = opt("--json").unwrap_or("/dev/stdout".into());
            std::process::exit(check(&prop, seed, secs, &json, opt("--trace")));
        },
        Some("replay") => {
            let prop = a[1].clone();
            let txt = std::fs::read_to_string(&a[2]).unwrap();
            let field = move |k: &str| -> Option<String> {
                let key = format!("\"{k}\":");
                let i = txt.find(&key)? + key.len();
                let r = txt[i..].trim_start();
                let r = r.strip_prefix('"')?;
                Some(r[..r.find('"')?].to_string())
            };
            let h = std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || match field("input_hex") {
                    Some(x) => {
                        let b = unhex(&x);
                        let cfg = Cfg::decode(&field("cfg").unwrap_or_default());
                        println!("input: {}", show(&b));
                        match run_one(&prop, &b, &cfg) {
                            Some((c, m)) => {
                                println!("FAIL {c}: {m}");
                                1
                            },
                            None => match whole_fail(&prop, 1) {
                                Some(f) => {
                                    println!("FAIL {}: {}", f.check, f.msg);
                                    1
                                },
                                None => {
                                    println!("ok");
                                    0
                                },
                            },
                        }
                    },
                    None => 2,
                })
                .unwrap();
            // a hang is a failure
            let t = Instant::now();
            while !h.is_finished() {
                std::thread::sleep(Duration::from_millis(20));
                if t.elapsed() > Duration::from_secs(60) {
                    println!("FAIL: does not terminate (60 s)");
                    std::process::exit(1);
                }
            }
            std::process::exit(h.join().unwrap_or(1));
        },
        Some("kinds") => whole::dump_kinds(),
        Some("tree") => {
            let b = a[1].replace("\\n", "\n").into_bytes();
            let r = wolfram_parser::parse_bytes_cst_seq(&b, &checks::opts(&Cfg::default()));
            for n in &r.syntax.0 {
                dump(n, 0);
            }
        },
        _ => {
            eprintln!("usage");
            std::process::exit(2)
        },
    }
}

fn whole_fail(prop: &str, _seed: u64) -> Option<Failure> {
    for (name, f) in whole::whole_of(prop) {
        match guard(|| f()) {
            Ok(_) => {},
            Err(m) => return Some(Failure { check: name.to_string(), input: vec![], cfg: Cfg::default(), msg: m }),
        }
    }
    None
}

fn check(prop: &str, seed: u64, secs: f64, json: &str, trace: Option<String>) -> i32 {
    let start = Instant::now();
    let mut notes = vec![];
    let mut evals0 = 0u64;
    // 1. finite domains, completely
    for (name, f) in whole::whole_of(prop) {
        match guard(|| f()) {
            Ok(n) => {
                evals0 += n;
                notes.push(format!("{name}: complete finite domain, {n} cases"));
            },
            Err(m) => {
                let f = Failure { check: name.to_string(), input: vec![], cfg: Cfg::default(), msg: m };
                write_json(json, prop, evals0, 0, &notes, &[], Some(&f));
                return 1;
            },
        }
    }
    let chks: Vec<(&'static str, Chk)> = inputs_of(prop);
    if chks.is_empty() {
        write_json(json, prop, evals0, evals0, &notes, &[], None);
        return 0;
    }
    let found: Arc<Mutex<Option<Failure>>> = Default::default();
    let stop = Arc::new(AtomicBool::new(false));
    let evals = Arc::new(AtomicU64::new(0));
    let nontriv = Arc::new(AtomicU64::new(0));
    const T: usize = 8;
    let cur: Arc<Vec<Mutex<Option<(Vec<u8>, Cfg, Instant)>>>> = Arc::new((0..T).map(|_| Mutex::new(None)).collect());
    let samples: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
    let mut hs = vec![];
    let fixed = gen::fixed(prop);
    let nfixed = fixed.len();
    let fixed = Arc::new(fixed);
    for t in 0..T {
        let (found, stop, evals, nontriv, cur, samples, fixed, chks, trace) = (
            found.clone(), stop.clone(), evals.clone(), nontriv.clone(), cur.clone(), samples.clone(), fixed.clone(), chks.clone(), trace.clone(),
        );
        let prop = prop.to_string();
        hs.push(
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || {
                    let mut r = Rng(seed.wrapping_mul(0x1234567) ^ (t as u64 * 7919));
                    let mut seen = std::collections::HashSet::new();
                    let mut n = 0u64;
                    let mut k = t;
                    let prop_start = Instant::now();
                    loop {
                        if stop.load(SeqCst) {
                            break;
                        }
                        let b = if k < fixed.len() {
                            let b = fixed[k].clone();
                            k += T;
                            b
                        } else {
                            if start.elapsed().as_secs_f64() > secs && prop_start.elapsed().as_secs_f64() > 1.0 {
                                break;
                            }
                            gen::input(&prop, &mut r)
                        };
                        let cfg = Cfg::random(&mut r);
                        *cur[t].lock().unwrap() = Some((b.clone(), cfg.clone(), Instant::now()));
                        if let Some(d) = &trace {
                            let f = Failure { check: "crash".into(), input: b.clone(), cfg: cfg.clone(), msg: "process died on this input".into() };
                            write_json(&format!("{d}/t{t}.json"), &prop, 0, 0, &[], &[], Some(&f));
                        }
                        for (name, chk) in &chks {
                            n += 1;
                            if let Err(m) = guard(|| chk(&b, &cfg)) {
                                stop.store(true, SeqCst);
                                *cur[t].lock().unwrap() = None;
                                let f = shrink(Failure { check: name.to_string(), input: b.clone(), cfg: cfg.clone(), msg: m }, *chk);
                                let mut g = found.lock().unwrap();
                                if g.as_ref().map_or(true, |o| f.input.len() < o.input.len()) {
                                    *g = Some(f);
                                }
                                break;
                            }
                        }
                        if seen.len() < 200_000 && b.len() >= 2 {
                            let mut h = 0xcbf29ce484222325u64;
                            for x in &b {
                                h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
                            }
                            if seen.insert(h) && seen.len() % 1500 == 7 {
                                let mut s = samples.lock().unwrap();
                                if s.len() < 12 {
                                    s.push(b.clone());
                                }
                            }
                        }
                    }
                    *cur[t].lock().unwrap() = None;
                    evals.fetch_add(n, SeqCst);
                    nontriv.fetch_add(seen.len() as u64, SeqCst);
                })
                .unwrap(),
        );
    }
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(10));
        for m in cur.iter() {
            let g = m.lock().unwrap().clone();
            if let Some((b, cfg, at)) = g {
                if at.elapsed() > Duration::from_secs(5) {
                    // Confirm in a fresh process image: a busy machine is not a hang.
                    let f = Failure { check: "termination".into(), input: b, cfg, msg: "does not terminate".into() };
                    write_json(json, prop, evals0, 0, &notes, &[], Some(&f));
                    use std::os::unix::process::CommandExt;
                    let e = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", prop, json]).exec();
                    panic!("{e}");
                }
            }
        }
    }
    let f = found.lock().unwrap().clone();
    notes.push(format!("{nfixed} enumerated inputs, then random inputs until {secs} s"));
    let e = evals.load(SeqCst) + evals0;
    write_json(json, prop, e, nontriv.load(SeqCst), &notes, &samples.lock().unwrap(), f.as_ref());
    if f.is_some() {
        1
    } else {
        0
    }
}

#[allow(dead_code)]
fn _unused(_: Conv) {}

fn dump(n: &tree::C, d: usize) {
    use wolfram_parser::{cst::Cst, tokenize::TokenInput};
    match n {
        Cst::Token(t) => println!("{}{:?} {} {}", "  ".repeat(d), t.tok, show(t.input.as_bytes()), t.src),
        _ => {
            let k = format!("{n:?}");
            println!("{}{}", "  ".repeat(d), &k[..k.len().min(40)]);
            for c in tree::children(n) {
                dump(c, d + 1);
            }
        },
    }
}
