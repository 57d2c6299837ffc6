//! Concrete conformance search on the real crate.
//!
//! search <PROPERTY> <seed> <seconds> <tier> <report.json> <replay file>   exit 0 nothing found, 1 counterexample written, 2 error
//! run <PROPERTY> <replay file>                                            exit 0 property holds on it, 1 it does not
//!
//! Every oracle is written from the text of the property; none calls the code under test to compute its expectation.
mod pa;
#[cfg(feature = "hooks")]
mod pb;
#[cfg(feature = "hooks")]
mod pc;
mod pd;
mod util;

use std::collections::HashSet;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use util::Rng;

/// one case: a list of byte strings, whose meaning is the property's own
pub type Case = Vec<Vec<u8>>;
/// Ok(true): the property held on a non-trivial case; Ok(false): held, trivial; Err: violated
pub type Verdict = Result<bool, String>;

pub struct Prop {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    /// deterministic cases; the sink returns false to stop
    pub enumerate: fn(u32, &mut dyn FnMut(Case) -> bool),
    pub random: fn(&mut Rng) -> Case,
    pub check: fn(&Case) -> Verdict,
    pub threads: usize,
    /// cases may also be changed blindly: the oracle understands or turns down everything
    pub spice: bool,
}

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(pa::props());
    #[cfg(feature = "hooks")]
    v.extend(pb::props());
    #[cfg(feature = "hooks")]
    v.extend(pc::props());
    v.extend(pd::props());
    v
}

fn esc(b: &[u8]) -> String {
    b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect()
}

fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' || i + 1 >= b.len() {
            out.push(b[i]);
            i += 1;
            continue;
        }
        match b[i + 1] {
            b'n' => out.push(b'\n'),
            b'r' => out.push(b'\r'),
            b't' => out.push(b'\t'),
            b'x' if i + 3 < b.len() => {
                out.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap_or(b'?'));
                i += 2
            }
            c => out.push(c),
        }
        i += 2
    }
    out
}

fn write_case(path: &str, id: &str, why: &str, c: &Case) {
    let mut s = format!("# property {}\n# {}\n# one item of the case per line, escaped; replay: replay run {} <this file>\n",
                        id, why.replace('\n', "\n# "), id);
    for i in c {
        s.push_str("item ");
        s.push_str(&esc(i));
        s.push('\n');
    }
    std::fs::write(path, s).expect("write replay file");
}

fn read_case(path: &str) -> Case {
    std::fs::read_to_string(path).expect("read replay file").lines()
        .filter_map(|l| l.strip_prefix("item ").or(if l == "item" { Some("") } else { None }).map(unesc)).collect()
}

fn run_check(p: &Prop, c: &Case) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| (p.check)(c))) {
        Ok(v) => v,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into());
            Err(format!("the code panicked: {}", m))
        }
    }
}

/// greedy shrinking: drop items, then drop chunks of bytes of an item
fn shrink(p: &Prop, mut c: Case, mut why: String) -> (Case, String) {
    let t0 = Instant::now();
    let mut progress = true;
    while progress && t0.elapsed() < Duration::from_secs(5) {
        progress = false;
        let mut i = 0;
        while i < c.len() && t0.elapsed() < Duration::from_secs(5) {
            let mut d = c.clone();
            d.remove(i);
            if let Err(e) = run_check(p, &d) {
                if !e.starts_with("bad case") {
                    c = d;
                    why = e;
                    progress = true;
                    continue;
                }
            }
            let mut n = c[i].len() / 2;
            while n > 0 {
                let mut k = 0;
                while k + n <= c[i].len() && t0.elapsed() < Duration::from_secs(5) {
                    let mut d = c.clone();
                    d[i].drain(k..k + n);
                    match run_check(p, &d) {
                        Err(e) if !e.starts_with("bad case") => {
                            c = d;
                            why = e;
                            progress = true
                        }
                        _ => k += n,
                    }
                }
                n /= 2
            }
            i += 1
        }
    }
    (c, why)
}

struct Shared {
    stop: AtomicBool,
    evals: AtomicU64,
    nontrivial: AtomicU64,
    failure: Mutex<Option<(Case, String)>>,
    slots: Vec<Mutex<Option<(Instant, Case)>>>,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
}

thread_local! {
    /// the case to report in place of the one that was running: with what came before it
    pub static INSTEAD: std::cell::RefCell<Option<Case>> = const { std::cell::RefCell::new(None) };
}

fn one(p: &Prop, sh: &Shared, slot: usize, c: Case, seen: &mut HashSet<u64>) {
    *sh.slots[slot].lock().unwrap() = Some((Instant::now(), c.clone()));
    let v = run_check(p, &c);
    *sh.slots[slot].lock().unwrap() = None;
    let n = sh.evals.fetch_add(1, Ordering::Relaxed);
    match v {
        Ok(nt) => {
            if nt {
                sh.nontrivial.fetch_add(1, Ordering::Relaxed);
                if seen.len() < 400_000 {
                    let mut h = DefaultHasher::new();
                    c.hash(&mut h);
                    seen.insert(h.finish());
                }
            }
            if n % 997 == 0 {
                let mut s = sh.samples.lock().unwrap();
                if s.len() < 12 {
                    s.push(c.iter().map(|i| esc(i)).collect::<Vec<_>>().join(" | ").chars().take(400).collect())
                }
            }
        }
        Err(e) => {
            if e.starts_with("bad case") {
                return;
            }
            let c = INSTEAD.with(|i| i.borrow_mut().take()).unwrap_or(c);
            let mut f = sh.failure.lock().unwrap();
            if f.is_none() {
                *f = Some((c, e))
            }
            sh.stop.store(true, Ordering::SeqCst)
        }
    }
}

/// texts that code tends to treat in a special way
pub const ODD: &[&str] = &["+", "%", "%20", "%26", "%2F", "%00", ".", "..", "/", "//", "_", "-", ";", ",", "\"", "'", "\\", "\0", "\u{7f}", "\t", " ", "  ", "é", "ß", "İ", "\u{a0}", "\u{feff}", "*", "~",
    "=", "==", "&", "&&", "#", "?", ":", "::", "@", "[", "]", "(", ")", "<", ">", "0", "00", "0x", "1", "9", "-1", "+1", "1e3", "a", "A", "z", "\r", "\n", "\r\n", "\r\n\r\n", "--", "null", "true"];

/// a case like `c`, changed in a few places without regard to what it means: the oracles judge whatever comes out
fn spice(r: &mut Rng, mut c: Case) -> Case {
    if c.is_empty() {
        return c;
    }
    for _ in 0..1 + r.below(3) {
        let (i, j) = (r.below(c.len()), r.below(c.len()));
        let n = c[i].len();
        let a = r.below(n + 1);
        let b = (a + 1 + r.below(12)).min(n);
        match r.below(11) {
            10 => {
                // a line of the text again, at the start of another line
                let starts: Vec<usize> = std::iter::once(0).chain((0..n).filter(|k| c[i][*k] == b'\n').map(|k| k + 1)).collect();
                let s0 = starts[r.below(starts.len())];
                let e0 = c[i][s0..].iter().position(|b| *b == b'\n').map_or(n, |k| s0 + k + 1);
                let w = c[i][s0..e0].to_vec();
                let at = starts[r.below(starts.len())];
                c[i].splice(at..at, w);
            }
            0 | 1 => {
                // the other letter case
                let at: Vec<usize> = (0..n).filter(|k| c[i][*k].is_ascii_alphabetic()).collect();
                if !at.is_empty() {
                    let k = at[r.below(at.len())];
                    c[i][k] ^= 0x20
                }
            }
            2 | 3 | 4 => {
                let w = match r.hinted() {
                    Some(t) if r.chance(3, 4) => t,
                    _ => r.pick(ODD),
                };
                let w = if r.chance(1, 8) { w.to_ascii_uppercase() } else { w.to_string() }.into_bytes();
                c[i].splice(a..a, w);
            }
            5 => {
                // a piece again, perhaps many times
                let w = c[i][a..b].to_vec();
                let mut times = [1, 1, 1, 2, 3, 8, 17, 70][r.below(8)];
                if r.chance(1, 3) {
                    if let Some(k) = r.hint(20_000) {
                        times = k as usize / w.len().max(1)
                    }
                }
                let w = w.repeat(times);
                let times = 1;
                for _ in 0..times {
                    c[i].splice(b..b, w.clone());
                }
            }
            6 => {
                c[i].drain(a..b);
            }
            7 => {
                if n > 0 {
                    let k = a.min(n - 1);
                    c[i][k] = r.next() as u8
                }
            }
            8 if r.chance(1, 3) && util::dict().is_some() => {
                if let Some(k) = r.hint(u64::MAX) {
                    c[i].splice(a..b, k.to_string().into_bytes());
                }
            }
            8 => {
                // a piece of another item
                let m = c[j].len();
                let x = r.below(m + 1);
                let w = c[j][x..(x + 1 + r.below(24)).min(m)].to_vec();
                c[i].splice(a..a, w);
            }
            _ => {
                // a piece of the same text somewhere else: the blanks, signs or letters that are there already
                let w = c[i][a..b].to_vec();
                let x = r.below(n + 1);
                c[i].splice(x..x, w);
            }
        }
    }
    c
}

fn search(p: &'static Prop, seed: u64, secs: f64, tier: u32, report: &str, replay: &str) -> i32 {
    let t0 = Instant::now();
    let n = p.threads;
    let sh = Arc::new(Shared {
        stop: AtomicBool::new(false), evals: AtomicU64::new(0), nontrivial: AtomicU64::new(0), failure: Mutex::new(None),
        slots: (0..n).map(|_| Mutex::new(None)).collect(), distinct: Mutex::new(HashSet::new()), samples: Mutex::new(vec![]),
    });
    let mut hs = vec![];
    for t in 0..n {
        let sh = sh.clone();
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut seen = HashSet::new();
            let mut k = 0usize;
            (p.enumerate)(tier, &mut |c| {
                if k % n == t {
                    one(p, &sh, t, c, &mut seen)
                }
                k += 1;
                !sh.stop.load(Ordering::Relaxed) && t0.elapsed().as_secs_f64() < secs * 4.0 + 60.0
            });
            let enumerated = k;
            let mut rng = Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (t as u64 + 1).wrapping_mul(0xD1B54A32D192ED03));
            let t1 = Instant::now();
            while !sh.stop.load(Ordering::Relaxed) && t1.elapsed().as_secs_f64() < secs {
                let mut c = (p.random)(&mut rng);
                if p.spice && rng.chance(if util::dict().is_some() { 3 } else { 2 }, 5) {
                    c = spice(&mut rng, c)
                }
                one(p, &sh, t, c, &mut seen)
            }
            sh.distinct.lock().unwrap().extend(seen);
            enumerated
        }).unwrap());
    }
    // watchdog: a case that does not come back is a failure of its own
    loop {
        std::thread::sleep(Duration::from_millis(30));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        for s in sh.slots.iter() {
            let stuck = match &*s.lock().unwrap() {
                Some((t, c)) if t.elapsed() > Duration::from_secs(20) => Some(c.clone()),
                _ => None,
            };
            if let Some(c) = stuck {
                let why = "the code did not come back within 20 s";
                write_case(replay, p.id, why, &c);
                write_report(p, &sh, report, t0, 0, Some(why));
                return 1;
            }
        }
    }
    let mut enumerated = 0;
    let mut broken = false;
    for h in hs {
        match h.join() {
            Ok(k) => enumerated = k,
            Err(_) => broken = true,
        }
    }
    let f = sh.failure.lock().unwrap().take();
    match f {
        Some((c, why)) => {
            let (c, why) = shrink(p, c, why);
            write_case(replay, p.id, &why, &c);
            write_report(p, &sh, report, t0, enumerated, Some(&why));
            1
        }
        None if broken => 2,
        None => {
            write_report(p, &sh, report, t0, enumerated, None);
            0
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_report(p: &Prop, sh: &Shared, path: &str, t0: Instant, enumerated: usize, failure: Option<&str>) {
    let samples = sh.samples.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
    let s = format!("{{\"evaluations\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"enumerated\": {}, \"rule\": {}, \"samples\": [{}], \"wall_s\": {:.2}, \"failure\": {}}}\n",
                    sh.evals.load(Ordering::SeqCst), sh.nontrivial.load(Ordering::SeqCst), sh.distinct.lock().unwrap().len(), enumerated,
                    js(p.rule), samples, t0.elapsed().as_secs_f64(), failure.map(js).unwrap_or("null".into()));
    std::fs::write(path, s).expect("write report");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let ps: &'static Vec<Prop> = Box::leak(Box::new(props()));
    if a.len() >= 2 && a[1] == "list" {
        for p in ps {
            eprintln!("{}", p.id)
        }
        return;
    }
    let p: &'static Prop = match ps.iter().find(|p| a.len() > 3 && p.id == a[2]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property or usage");
            std::process::exit(2)
        }
    };
    if std::env::var("REPLAY_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if let (Ok(f), "search") = (std::env::var("REPLAY_DICT"), a[1].as_str()) {
        util::load_dict(&f, p.spice, unesc)
    }
    let code = match a[1].as_str() {
        "search" => search(p, a[3].parse().unwrap(), a[4].parse().unwrap(), if a[5] == "thorough" { 1 } else { 0 }, &a[6], &a[7]),
        "run" => {
            let c = read_case(&a[3]);
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || tx.send(run_check(p, &c))).unwrap();
            match rx.recv_timeout(Duration::from_secs(20)) {
                Ok(Ok(_)) => {
                    eprintln!("property {} holds on this case", p.id);
                    0
                }
                Ok(Err(e)) => {
                    eprintln!("property {} is broken: {}", p.id, e);
                    1
                }
                Err(_) => {
                    eprintln!("property {} is broken: the code did not come back within 20 s", p.id);
                    1
                }
            }
        }
        _ => 2,
    };
    std::process::exit(code)
}
