//! Property runner: generated and enumerated cases, shrinking, replay files, evidence.
//!
//! A case is a vector of machine words (`i128`), so that every case of every property can be
//! written to a replay file and run again without any generator.

pub mod gen;
pub mod num;

use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub use proptest::prop_oneof;
pub use proptest::strategy::{BoxedStrategy, Just, Strategy};

pub type Case = Vec<i128>;

/// What one case showed.
#[derive(Debug, Clone)]
pub enum Verdict {
    /// The property held. `ratio` is error/tolerance where the oracle has a tolerance.
    Pass { nontrivial: bool, class: &'static str, ratio: f64 },
    /// The case is outside the property's domain.
    Skip(&'static str),
    /// A listed finding, identified by its id in known-findings.json.
    Known(&'static str),
    Fail(String),
}

pub fn pass(nontrivial: bool, class: &'static str) -> Verdict {
    Verdict::Pass { nontrivial, class, ratio: 0.0 }
}
pub fn pass_r(nontrivial: bool, class: &'static str, ratio: f64) -> Verdict {
    Verdict::Pass { nontrivial, class, ratio }
}
#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return $crate::Verdict::Fail(format!($($a)*)) } }

/// Complete (or strided) enumeration: `total` cases, the i-th written into the buffer.
pub struct Sweep {
    pub total: u64,
    /// Cases in the thorough tier.
    pub deep: u64,
    pub nth: Box<dyn Fn(u64, &mut Case) + Send + Sync>,
}

pub struct Sub {
    pub name: String,
    /// Position in the property's list.
    index: usize,
    /// Generated cases at (quick, thorough).
    pub cases: (u64, u64),
    pub strat: Option<Box<dyn Fn() -> BoxedStrategy<Case> + Send + Sync>>,
    pub sweep: Option<Sweep>,
    /// Fixed landmark cases, always run.
    pub fixed: Vec<Case>,
    pub check: Box<dyn Fn(&[i128]) -> Verdict + Send + Sync>,
    pub show: Box<dyn Fn(&[i128]) -> String + Send + Sync>,
}

impl Sub {
    pub fn new(name: impl Into<String>, check: impl Fn(&[i128]) -> Verdict + Send + Sync + 'static) -> Sub {
        Sub {
            name: name.into(),
            index: 0,
            cases: (0, 0),
            strat: None,
            sweep: None,
            fixed: vec![],
            check: Box::new(check),
            show: Box::new(|c| format!("{c:?}")),
        }
    }
    pub fn gen(mut self, quick: u64, thorough: u64, s: impl Fn() -> BoxedStrategy<Case> + Send + Sync + 'static) -> Sub {
        self.cases = (quick, thorough);
        self.strat = Some(Box::new(s));
        self
    }
    pub fn sweep(mut self, total: u64, nth: impl Fn(u64, &mut Case) + Send + Sync + 'static) -> Sub {
        self.sweep = Some(Sweep { total, deep: total, nth: Box::new(nth) });
        self
    }
    /// A longer enumeration in the thorough tier.
    pub fn deep(mut self, deep: u64) -> Sub {
        if let Some(s) = self.sweep.as_mut() { s.deep = deep }
        self
    }
    pub fn fixed(mut self, cases: Vec<Case>) -> Sub {
        self.fixed = cases;
        self
    }
    pub fn show(mut self, f: impl Fn(&[i128]) -> String + Send + Sync + 'static) -> Sub {
        self.show = Box::new(f);
        self
    }
}

/// One listed finding of a property: how to see that it is still there.
pub struct Finding {
    pub id: &'static str,
    pub text: &'static str,
    /// True when the specific recorded input still fails.
    pub reproduces: Box<dyn Fn() -> bool + Send + Sync>,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    pub findings: Vec<Finding>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: Cell<bool> = Cell::new(false);
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            LAST_PANIC.with(|p| {
                let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
                    .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
                let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                *p.borrow_mut() = format!("{msg} at {at}");
            });
        } else {
            old(info)
        }
    }));
}

/// Runs library code; a panic becomes an error value.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// The case a worker is at, for the watchdog.
struct Slot {
    count: AtomicU64,
    clock: AtomicI32,
    now: Mutex<(usize, Case)>,
}
thread_local! {
    static SLOT: RefCell<Option<Arc<Slot>>> = RefCell::new(None);
}
/// Quick-tier cases per case declared: the declared counts take seconds.
const QUICK: u64 = 4;

/// A case that computes this long does not end: cases take microseconds. Processor time, so that a stopped or
/// crowded machine does not count.
const HANG_S: u64 = 30;

/// The clock of the processor time of this thread.
fn cpu_clock() -> i32 {
    let mut k = 0;
    // Clock 0, the wall clock, where there is none.
    if unsafe { num::c::pthread_getcpuclockid(num::c::pthread_self(), &mut k) } == 0 { k } else { 0 }
}
fn clock_s(k: i32) -> u64 {
    let mut t = [0i64; 2];
    unsafe { num::c::clock_gettime(k, &mut t) };
    t[0].max(0) as u64
}

/// Runs a check; a panic that the check did not expect is a failure of the property.
fn run_check(sub: &Sub, c: &[i128]) -> Verdict {
    SLOT.with(|s| {
        if let Some(s) = s.borrow().as_ref() {
            s.count.fetch_add(1, Ordering::Relaxed);
            let mut n = s.now.lock().unwrap();
            n.0 = sub.index;
            n.1.clear();
            n.1.extend_from_slice(c);
        }
    });
    match guard(|| (sub.check)(c)) {
        Ok(v) => v,
        Err(e) => {
            // A panic in the harness itself says nothing about the library.
            let at = e.rsplit(" at ").next().unwrap_or("");
            if at.starts_with("src/") || at.starts_with("kit/") {
                println!("INCONCLUSIVE: the harness panicked: {e}\n  {}: {:?}", sub.name, c);
                std::process::exit(3);
            }
            Verdict::Fail(format!("unexpected panic: {e}"))
        }
    }
}

fn hash_case(c: &[i128]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}
fn hash_str(s: &str) -> u64 {
    // FNV-1a: stable over Rust versions, so that a seed always means the same cases.
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

#[derive(Default)]
struct Stats {
    evals: u64,
    swept: u64,
    skipped: BTreeMap<&'static str, u64>,
    classes: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    distinct_swept: u64,
    ratio: f64,
    samples: Vec<String>,
}

impl Stats {
    fn record(&mut self, sub: &Sub, c: &[i128], v: &Verdict, swept: bool) {
        self.evals += 1;
        if swept {
            self.swept += 1;
        }
        match v {
            Verdict::Pass { nontrivial, class, ratio } => {
                *self.classes.entry(class).or_default() += 1;
                if *ratio > self.ratio {
                    self.ratio = *ratio;
                }
                if *nontrivial {
                    if swept {
                        self.distinct_swept += 1;
                    } else {
                        self.distinct.insert(hash_case(c));
                    }
                    if self.samples.is_empty() {
                        self.samples.push(format!("{}: {} -> {}", sub.name, (sub.show)(c), class));
                    }
                }
            }
            Verdict::Skip(w) => *self.skipped.entry(w).or_default() += 1,
            Verdict::Known(k) => *self.known.entry(k).or_default() += 1,
            Verdict::Fail(_) => {}
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.swept += o.swept;
        self.distinct_swept += o.distinct_swept;
        self.ratio = self.ratio.max(o.ratio);
        for (k, v) in o.skipped { *self.skipped.entry(k).or_default() += v; }
        for (k, v) in o.classes { *self.classes.entry(k).or_default() += v; }
        for (k, v) in o.known { *self.known.entry(k).or_default() += v; }
        if self.distinct.is_empty() { self.distinct = o.distinct } else { self.distinct.extend(o.distinct) }
        self.samples.extend(o.samples);
    }
}

enum Job {
    Gen { sub: usize, chunk: u64, n: u64 },
    Sweep { sub: usize, from: u64, to: u64 },
    Fixed { sub: usize },
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Failure {
    sub: usize,
    case: Case,
    msg: String,
    original: Option<Case>,
}

/// Greedy shrink of a word vector, for cases that came from an enumeration.
fn shrink_words(sub: &Sub, mut c: Case) -> (Case, String) {
    let mut msg = match run_check(sub, &c) { Verdict::Fail(m) => m, _ => String::new() };
    let mut budget = 2000;
    let mut progress = true;
    while progress && budget > 0 {
        progress = false;
        for i in 0..c.len() {
            let v = c[i];
            for cand in [0, v / 2, v - v.signum()] {
                if cand == v || budget == 0 { continue; }
                budget -= 1;
                let mut d = c.clone();
                d[i] = cand;
                if let Verdict::Fail(m) = run_check(sub, &d) {
                    c = d;
                    msg = m;
                    progress = true;
                    break;
                }
            }
        }
    }
    (c, msg)
}

pub struct Args {
    pub seed: u64,
    pub tier: String,
    pub out: String,
    pub replays: String,
    pub replay: Option<String>,
    pub only: Option<String>,
    pub build: String,
    pub known: Vec<String>,
    pub extra: Vec<String>,
}

pub fn args() -> Args {
    let mut a = Args {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        out: String::new(),
        replays: ".".into(),
        replay: None,
        only: None,
        build: "default".into(),
        known: vec![],
        extra: vec![],
    };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < v.len() {
        let next = v.get(i + 1).cloned().unwrap_or_default();
        match v[i].as_str() {
            "--seed" => { a.seed = next.parse().expect("seed"); i += 1 }
            "--tier" => { a.tier = next; i += 1 }
            "--out" => { a.out = next; i += 1 }
            "--replays" => { a.replays = next; i += 1 }
            "--replay" => { a.replay = Some(next); i += 1 }
            "--only" => { a.only = Some(next); i += 1 }
            "--build" => { a.build = next; i += 1 }
            "--known" => { a.known.push(next); i += 1 }
            o => a.extra.push(o.to_string()),
        }
        i += 1;
    }
    a
}

fn field<'a>(text: &'a str, key: &str) -> Option<&'a str> {
    let at = text.find(&format!("\"{key}\""))?;
    let rest = &text[at + key.len() + 2..];
    let rest = rest[rest.find(':')? + 1..].trim_start();
    if let Some(r) = rest.strip_prefix('"') { return r.find('"').map(|e| &r[..e]); }
    if let Some(r) = rest.strip_prefix('[') { return r.find(']').map(|e| &r[..e]); }
    rest.find([',', '}', '\n']).map(|e| rest[..e].trim())
}

/// Runs a property and ends the process: 0 held, 1 violation, 3 inconclusive.
pub fn main(mut prop: Property) -> ! {
    for (k, s) in prop.subs.iter_mut().enumerate() { s.index = k; }
    let a = args();
    install_hook();
    if let Some(f) = &a.replay {
        let text = std::fs::read_to_string(f).expect("replay file");
        let sub = field(&text, "sub").expect("sub");
        let case: Case = field(&text, "case").expect("case").split(',')
            .map(|w| w.trim().trim_matches('"')).filter(|w| !w.is_empty()).map(|w| w.parse().expect("word")).collect();
        let s = prop.subs.iter().find(|s| s.name == sub).expect("no such sub-check");
        println!("replay {} / {}: {}", prop.id, sub, (s.show)(&case));
        let (id, file, clock) = (prop.id, f.clone(), cpu_clock());
        std::thread::spawn(move || {
            while clock_s(clock) < HANG_S { std::thread::sleep(std::time::Duration::from_millis(100)) }
            println!("no result within {HANG_S} s of computing\nVIOLATION property={id} replay={file}");
            std::process::exit(1)
        });
        match run_check(s, &case) {
            Verdict::Fail(m) => {
                println!("{m}");
                println!("VIOLATION property={} replay={}", prop.id, f);
                std::process::exit(1)
            }
            v => {
                println!("{v:?}");
                std::process::exit(0)
            }
        }
    }
    let code = run(prop, a);
    std::process::exit(code)
}

fn report(prop: &Property, a: &Args, f: &Failure) {
    let s = &prop.subs[f.sub];
    let words = f.case.iter().map(|w| format!("\"{w}\"")).collect::<Vec<_>>().join(", ");
    let orig = f.original.as_ref().map(|c| format!("{c:?}")).unwrap_or_default();
    let name = format!("{}/{}-{:08x}.json", a.replays, prop.id, (hash_str(&s.name) ^ hash_case(&f.case)) as u32);
    let body = format!(
        "{{\n \"property\": {},\n \"build\": {},\n \"sub\": {},\n \"case\": [{}],\n \"shown\": {},\n \"message\": {},\n \"unshrunk\": {}\n}}\n",
        esc(prop.id), esc(&a.build), esc(&s.name), words, esc(&(s.show)(&f.case)), esc(&f.msg), esc(&orig));
    let _ = std::fs::create_dir_all(&a.replays);
    std::fs::write(&name, body).expect("write replay");
    println!("  {} / {}: {}", prop.id, s.name, (s.show)(&f.case));
    println!("  {}", f.msg);
    println!("VIOLATION property={} replay={}", prop.id, name);
}

fn run(prop: Property, a: Args) -> i32 {
    let t0 = Instant::now();
    let thorough = a.tier == "thorough";
    let limit: u64 = std::env::var("VERIF_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6 * 3600 } else { 700 });
    let threads: usize = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let done = Arc::new(AtomicBool::new(false));
    {
        let (done, id) = (done.clone(), prop.id);
        std::thread::spawn(move || {
            let t = Instant::now();
            while t.elapsed().as_secs() < limit {
                std::thread::sleep(std::time::Duration::from_millis(200));
                if done.load(Ordering::Relaxed) { return; }
            }
            println!("INCONCLUSIVE property={id}: did not finish within {limit} s");
            std::process::exit(3);
        });
    }

    let mut jobs = vec![];
    for (i, s) in prop.subs.iter().enumerate() {
        if let Some(o) = &a.only { if !s.name.contains(o.as_str()) { continue; } }
        if !s.fixed.is_empty() { jobs.push(Job::Fixed { sub: i }); }
        if let Some(sw) = &s.sweep {
            let step = 1 << 18;
            let mut f = 0;
            let total = if thorough { sw.deep } else { sw.total };
            while f < total {
                let to = (f + step).min(total);
                jobs.push(Job::Sweep { sub: i, from: f, to });
                f = to;
            }
        }
        if s.strat.is_some() {
            let total = if thorough { s.cases.1 } else { s.cases.0 * QUICK };
            let step = 1 << 14;
            let (mut f, mut k) = (0, 0);
            while f < total {
                let n = step.min(total - f);
                jobs.push(Job::Gen { sub: i, chunk: k, n });
                f += n;
                k += 1;
            }
        }
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let stats: Mutex<Stats> = Mutex::new(Stats::default());
    let per_sub: Vec<Mutex<(u64, f64, u64)>> = prop.subs.iter().map(|_| Mutex::new((0, 0.0, 0))).collect();
    let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let cpu = AtomicU64::new(0);
    let slots: Vec<Arc<Slot>> = (0..threads).map(|_| Arc::new(Slot { count: AtomicU64::new(0), clock: AtomicI32::new(0), now: Mutex::new((0, vec![])) })).collect();
    let busy: Vec<AtomicBool> = (0..threads).map(|_| AtomicBool::new(true)).collect();

    std::thread::scope(|sc| {
        // A case that does not end is a violation: no result is no guarantee.
        sc.spawn(|| {
            let mut last: Vec<(u64, u64)> = (0..threads).map(|_| (0, 0)).collect();
            while busy.iter().any(|b| b.load(Ordering::Relaxed)) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                for t in 0..threads {
                    let n = slots[t].count.load(Ordering::Relaxed);
                    // The clock of a thread that has ended is gone.
                    if n == 0 || !busy[t].load(Ordering::Relaxed) { continue }
                    if n != last[t].0 {
                        last[t] = (n, clock_s(slots[t].clock.load(Ordering::Relaxed)));
                    } else if clock_s(slots[t].clock.load(Ordering::Relaxed)) >= last[t].1 + HANG_S {
                        let (sub, case) = slots[t].now.lock().unwrap().clone();
                        let f = Failure { sub, case, msg: format!("no result within {HANG_S} s of computing"), original: None };
                        report(&prop, &a, &f);
                        std::process::exit(1);
                    }
                }
            }
        });
        for t in 0..threads {
            let (slots, busy) = (&slots, &busy);
            let (prop, jobs, next, stop, stats, per_sub, failures, cpu, a) = (&prop, &jobs, &next, &stop, &stats, &per_sub, &failures, &cpu, &a);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || { slots[t].clock.store(cpu_clock(), Ordering::Relaxed); SLOT.with(|s| *s.borrow_mut() = Some(slots[t].clone())); loop {
                if stop.load(Ordering::Relaxed) { break; }
                let j = next.fetch_add(1, Ordering::Relaxed);
                if j >= jobs.len() { break; }
                let began = Instant::now();
                let (si, st, fl) = run_job(prop, &jobs[j], a, stop);
                cpu.fetch_add(began.elapsed().as_micros() as u64, Ordering::Relaxed);
                {
                    let mut p = per_sub[si].lock().unwrap();
                    p.0 += st.evals;
                    p.1 = p.1.max(st.ratio);
                    p.2 += st.skipped.values().sum::<u64>();
                }
                stats.lock().unwrap().merge(st);
                if let Some(f) = fl {
                    stop.store(true, Ordering::Relaxed);
                    failures.lock().unwrap().push(f);
                }
            } busy[t].store(false, Ordering::Relaxed) }).expect("thread");
        }
    });
    done.store(true, Ordering::Relaxed);

    let st = stats.into_inner().unwrap();
    let mut fails = failures.into_inner().unwrap();
    fails.sort_by_key(|f| f.sub);
    let mut code = 0;
    for f in fails.iter().take(2) {
        report(&prop, &a, f);
        code = 1;
    }
    for k in st.known.keys() {
        if !prop.findings.iter().any(|f| f.id == *k) { panic!("unlisted finding {k}"); }
    }
    for f in &prop.findings {
        if a.known.iter().any(|k| k == f.id) && (f.reproduces)() {
            println!("KNOWN-FINDING: property={} {} ({})", prop.id, f.text, f.id);
        }
    }
    // Evidence of this build.
    let mut ratios: Vec<(f64, u64, u64, &str)> = prop.subs.iter().zip(&per_sub)
        .map(|(s, p)| { let p = p.lock().unwrap(); (p.1, p.0, p.2, s.name.as_str()) }).collect();
    ratios.sort_by(|x, y| y.0.partial_cmp(&x.0).unwrap());
    if std::env::var("KIT_RATIOS").is_ok() {
        for r in &ratios { println!("ratio {:.4e} {}", r.0, r.3); }
    }
    let show_map = |m: &BTreeMap<&'static str, u64>| m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
    let idle: Vec<&str> = ratios.iter().filter(|r| r.1 > 0 && r.2 * 10 > r.1 * 9).map(|r| r.3).collect();
    let mut samples = st.samples.clone();
    samples.sort();
    samples.dedup();
    let want = 12;
    if samples.len() > want {
        let step = samples.len() as f64 / want as f64;
        samples = (0..want).map(|i| samples[(i as f64 * step) as usize].clone()).collect();
    }
    let ev = format!(
        "{{\"build\": {}, \"evaluations\": {}, \"enumerated\": {}, \"distinct_nontrivial\": {}, \"sub_checks\": {}, \"classes\": {{{}}}, \"outside_domain\": {{{}}}, \"known_finding_cases\": {{{}}}, \"mostly_outside_domain\": [{}], \"largest_error_to_tolerance\": [{}], \"samples\": [{}], \"rule\": {}, \"assumptions\": [{}], \"violations\": {}, \"wall_s\": {:.2}, \"cpu_s\": {:.2}}}\n",
        esc(&a.build), st.evals, st.swept, st.distinct.len() as u64 + st.distinct_swept,
        per_sub.iter().filter(|p| p.lock().unwrap().0 > 0).count(),
        show_map(&st.classes), show_map(&st.skipped), show_map(&st.known),
        idle.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        ratios.iter().take(6).map(|r| format!("{{\"sub\": {}, \"ratio\": {:.4}}}", esc(r.3), r.0)).collect::<Vec<_>>().join(", "),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        esc(prop.rule), prop.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        fails.len(), t0.elapsed().as_secs_f64(), cpu.load(Ordering::Relaxed) as f64 / 1e6);
    if !a.out.is_empty() {
        std::fs::write(&a.out, &ev).expect("write evidence");
    } else {
        println!("{ev}");
    }
    println!("{} [{}] {} cases ({} enumerated), {} distinct non-trivial, {} sub-checks, {:.1} s", prop.id, a.build, st.evals, st.swept,
        st.distinct.len() as u64 + st.distinct_swept, prop.subs.len(), t0.elapsed().as_secs_f64());
    code
}

fn run_job(prop: &Property, job: &Job, a: &Args, stop: &AtomicBool) -> (usize, Stats, Option<Failure>) {
    match *job {
        Job::Fixed { sub } => {
            let s = &prop.subs[sub];
            let mut st = Stats::default();
            for c in &s.fixed {
                let v = resolve(run_check(s, c), a);
                st.record(s, c, &v, false);
                if let Verdict::Fail(m) = v {
                    return (sub, st, Some(Failure { sub, case: c.clone(), msg: m, original: None }));
                }
            }
            (sub, st, None)
        }
        Job::Sweep { sub, from, to } => {
            let s = &prop.subs[sub];
            let sw = s.sweep.as_ref().unwrap();
            let mut st = Stats::default();
            let mut c = Case::new();
            for i in from..to {
                if i % 4096 == 0 && stop.load(Ordering::Relaxed) { break; }
                c.clear();
                (sw.nth)(i, &mut c);
                let v = resolve(run_check(s, &c), a);
                st.record(s, &c, &v, true);
                if let Verdict::Fail(m) = v {
                    let (d, m2) = shrink_words(s, c.clone());
                    let m = if m2.is_empty() { m } else { m2 };
                    return (sub, st, Some(Failure { sub, case: d, msg: m, original: Some(c) }));
                }
            }
            (sub, st, None)
        }
        Job::Gen { sub, chunk, n } => {
            let s = &prop.subs[sub];
            let mut seed = [0u8; 32];
            seed[..8].copy_from_slice(&a.seed.to_le_bytes());
            seed[8..16].copy_from_slice(&hash_str(&s.name).to_le_bytes());
            seed[16..24].copy_from_slice(&chunk.to_le_bytes());
            seed[24..32].copy_from_slice(&hash_str(&format!("{}/{}", prop.id, a.build)).to_le_bytes());
            let cfg = Config {
                cases: n as u32,
                max_shrink_iters: 20_000,
                max_shrink_time: 20_000,
                failure_persistence: None,
                verbose: 0,
                ..Config::default()
            };
            let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
            let strat = (s.strat.as_ref().unwrap())();
            let st = RefCell::new(Stats::default());
            let first: RefCell<Option<Case>> = RefCell::new(None);
            let r = runner.run(&strat, |c: Case| {
                let failed = first.borrow().is_some();
                if !failed && stop.load(Ordering::Relaxed) { return Ok(()); }
                let v = resolve(run_check(s, &c), a);
                if !failed { st.borrow_mut().record(s, &c, &v, false); }
                match v {
                    Verdict::Fail(m) => {
                        if !failed { *first.borrow_mut() = Some(c); }
                        Err(TestCaseError::fail(m))
                    }
                    _ => Ok(()),
                }
            });
            let fl = match r {
                Ok(()) => None,
                Err(TestError::Fail(_, c)) => {
                    let m = match resolve(run_check(s, &c), a) { Verdict::Fail(m) => m, v => format!("did not fail again: {v:?}") };
                    Some(Failure { sub, case: c, msg: m, original: first.into_inner() })
                }
                Err(TestError::Abort(why)) => panic!("generator aborted: {why}"),
            };
            (sub, st.into_inner(), fl)
        }
    }
}

/// A finding that known-findings.json does not list is a failure like any other.
fn resolve(v: Verdict, a: &Args) -> Verdict {
    match v {
        Verdict::Known(k) if !a.known.iter().any(|x| x == k) => Verdict::Fail(format!("finding {k} is not listed in known-findings.json")),
        v => v,
    }
}

pub fn vec_of<S: Strategy + 'static>(s: S, lo: usize, hi: usize) -> BoxedStrategy<Vec<S::Value>> where S::Value: 'static {
    proptest::collection::vec(s, lo..=hi).boxed()
}

pub fn words_i64() -> BoxedStrategy<i128> {
    use proptest::arbitrary::any;
    any::<i64>().prop_map(|v| v as i128).boxed()
}
pub fn union(v: Vec<(u32, BoxedStrategy<Case>)>) -> BoxedStrategy<Case> {
    proptest::strategy::Union::new_weighted(v).boxed()
}
