//! Case runner: every case is announced before it runs (so that a crash can be attributed and
//! replayed), executed under catch_unwind, and its verdict, event counts and signature recorded.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static EVENTS: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
}

/// Counts something a monitor actually observed.
pub fn event(name: &'static str, n: u64) {
    EVENTS.with(|e| *e.borrow_mut().entry(name).or_insert(0) += n);
}

/// A check's complaint: the property does not hold in this execution.
pub struct Fail(pub String);

pub type Res<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::run::Fail(format!($($a)*))); } };
}

/// Result of a call that may legitimately panic.
pub enum Outcome<R> { Value(R), Panic(String) }

/// Runs `f`; a panic is caught and returned with its message.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Outcome<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Outcome::Value(v),
        Err(_) => {
            let (msg, _) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Outcome::Panic(msg)
        }
    }
}

/// Forgets the panic recorded last (and frees its text).
pub fn take_last_panic() -> String { LAST_PANIC.with(|p| p.borrow_mut().take()).map(|(m, l)| format!("{m} ({l})")).unwrap_or_default() }
pub fn drop_last_panic() { LAST_PANIC.with(|p| p.borrow_mut().take()); }

pub fn panics(f: impl FnOnce()) -> bool { matches!(attempt(f), Outcome::Panic(_)) }

pub struct Cfg { pub thorough: bool, pub tiny: bool, pub small: bool, pub huge: bool, pub case: u64 }

pub struct Case<'a> {
    pub rng: Rng,
    pub cfg: &'a Cfg,
    pub sig: String,
    pub desc: String,
}

impl Case<'_> {
    pub fn note(&mut self, s: impl AsRef<str>) {
        if !self.desc.is_empty() { self.desc.push_str("; "); }
        self.desc.push_str(s.as_ref());
    }
    pub fn sig(&mut self, s: impl AsRef<str>) { self.sig.push_str(s.as_ref()); self.sig.push('|'); }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
        else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

pub type CaseFn = fn(&mut Case) -> Res;

/// Runs the cases named on the command line of one of `groups`.
pub fn main_with(groups: &[(&str, CaseFn)]) {
    let mut group = groups[0].0.to_string();
    let (mut seed, mut from, mut to, mut step) = (1u64, 0u64, 100u64, 1u64);
    let (mut thorough, mut tiny, mut small, mut huge, mut verbose) = (false, false, false, false, false);
    let mut out = None;
    let mut deadline = f64::INFINITY;
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--group" => group = args.next().unwrap(),
            "--seed" => seed = args.next().unwrap().parse().unwrap(),
            "--from" => from = args.next().unwrap().parse().unwrap(),
            "--to" => to = args.next().unwrap().parse().unwrap(),
            "--step" => step = args.next().unwrap().parse().unwrap(),
            "--deadline" => deadline = args.next().unwrap().parse().unwrap(),
            "--out" => out = args.next(),
            "--thorough" => thorough = true,
            "--tiny" => tiny = true,
            // interpreted kernels: floating point only, sizes around a few vector registers
            "--small" => { tiny = true; small = true; crate::el::FLOATS.store(true, std::sync::atomic::Ordering::Relaxed); }
            // more than a million elements in every case
            "--huge" => huge = true,
            "--verbose" => verbose = true,
            _ => panic!("unknown argument {a}"),
        }
    }
    let f = groups.iter().find(|g| g.0 == group).expect("no such group").1;
    let mut sink: Box<dyn Write> = match &out {
        Some(p) => Box::new(std::fs::File::create(p).unwrap()),
        None => Box::new(std::io::stdout()),
    };
    let start = std::time::Instant::now();
    install_hook();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut samples: Vec<(u64, String)> = Vec::new();
    let (mut evaluated, mut fails) = (0u64, 0u64);
    let mut i = from;
    while i < to {
        if start.elapsed().as_secs_f64() > deadline { break; }
        // announced before it runs: what is in the log when the process dies is the culprit
        writeln!(sink, "C {i}").unwrap();
        sink.flush().unwrap();
        let cfg = Cfg { thorough, tiny, small, huge, case: i };
        let mut case = Case { rng: Rng::new(seed ^ fnv(&group), i), cfg: &cfg, sig: String::new(), desc: String::new() };
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
        let mut verdict = match r {
            Ok(Ok(())) => None,
            Ok(Err(Fail(m))) => Some(m),
            Err(_) => {
                let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                if loc.starts_with("src/") {
                    // a panic raised by the harness itself: never a verdict
                    writeln!(sink, "H {{\"case\":{i},\"msg\":\"{}\",\"loc\":\"{}\",\"desc\":\"{}\"}}", esc(&msg), esc(&loc), esc(&case.desc)).unwrap();
                    sink.flush().unwrap();
                    i += step;
                    continue;
                }
                Some(format!("unexpected panic at {loc}: {msg}"))
            }
        };
        if let Some(v) = crate::alloc::take_violation(group == "C01" || group == "C02") {
            verdict = Some(match verdict { Some(m) => format!("{m}; and {v}"), None => v });
        }
        evaluated += 1;
        let h = fnv(&case.sig);
        if sigs.insert(h) && samples.len() < 6 { samples.push((i, case.desc.clone())); }
        if verbose { eprintln!("case {i}: {} => {}", case.desc, verdict.as_deref().unwrap_or("ok")); }
        if let Some(m) = verdict {
            fails += 1;
            let d: String = case.desc.chars().take(2000).collect();
            let m: String = m.chars().take(2000).collect();
            writeln!(sink, "V {{\"case\":{i},\"msg\":\"{}\",\"desc\":\"{}\"}}", esc(&m), esc(&d)).unwrap();
            sink.flush().unwrap();
            if fails >= 5 { break; }
        }
        i += step;
    }
    for h in &sigs { writeln!(sink, "S {h:016x}").unwrap(); }
    EVENTS.with(|e| for (k, v) in e.borrow().iter() { writeln!(sink, "E {k} {v}").unwrap(); });
    for (i, d) in samples { let d: String = d.chars().take(400).collect(); writeln!(sink, "X {{\"case\":{i},\"desc\":\"{}\"}}", esc(&d)).unwrap(); }
    writeln!(sink, "D {evaluated} {fails}").unwrap();
    sink.flush().unwrap();
    if fails > 0 { std::process::exit(1); }
}
