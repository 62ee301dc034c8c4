//! Worker side of a check: runs the cases of a property's workloads, records what was observed and
//! every violation, and keeps a progress file so that the supervisor can attribute crashes and hangs.
use crate::rng::{fnv, mix, Dict, Gen};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::{Relaxed, SeqCst}};
use std::sync::Barrier;

/// Err = violation of the property, in words.
pub type R = Result<(), String>;
pub type WorkFn = fn(&mut Case) -> R;

pub struct Workload {
    pub name: &'static str,
    /// cases per profile: micro (Miri), quick, thorough
    pub n: [u64; 3],
    pub f: WorkFn,
}

pub struct Prop {
    pub id: &'static str,
    /// what a case is and what makes it non-trivial
    pub rule: &'static str,
    pub work: Vec<Workload>,
    /// counters that must reach this much in a full quick or thorough run, or the run is inconclusive
    pub floors: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
}

#[derive(Default)]
pub struct Obs {
    pub counters: BTreeMap<String, u64>,
    pub prints: HashSet<u64>,
    pub samples: Vec<String>,
    pub evaluations: u64,
}

pub struct Case<'a> {
    pub g: Gen,
    pub idx: u64,
    pub obs: &'a mut Obs,
    notes: Vec<String>,
    verbose: bool,
    work: &'a str,
}

impl Case<'_> {
    pub fn count(&mut self, what: &str) {
        self.add(what, 1);
    }
    pub fn add(&mut self, what: &str, n: u64) {
        if let Some(c) = self.obs.counters.get_mut(what) {
            *c += n;
        } else {
            self.obs.counters.insert(what.to_string(), n);
        }
    }
    pub fn max(&mut self, what: &str, n: u64) {
        let c = self.obs.counters.entry(format!("max_{}", what)).or_insert(0);
        *c = (*c).max(n);
    }
    /// Marks an evaluation as non-trivial, identified by what was observed.
    pub fn nontrivial(&mut self, what: &[u8]) {
        if self.obs.prints.len() < 400_000 {
            self.obs.prints.insert(fnv(what));
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.obs.samples.len() < 6 {
            let mut t = s();
            if t.len() > 300 {
                let mut k = 300;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push_str("...");
            }
            if !self.obs.samples.contains(&t) {
                self.obs.samples.push(t);
            }
        }
    }
    /// A step of the case, shown with a violation.
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        let t = s();
        if self.verbose {
            eprintln!("  step {}: {}", self.notes.len(), t);
        }
        self.notes.push(t);
    }
    /// One more oracle decision than the case itself.
    pub fn eval(&mut self) {
        self.obs.evaluations += 1;
    }
}

thread_local! { static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) }; }

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_string()
        };
        // no unwinding from these: the process ends, and the supervisor reads why
        let all = i.to_string();
        if ["unsafe precondition", "misaligned pointer dereference", "null pointer dereference", "construct an enum from an invalid value"].iter().any(|m| all.contains(m)) {
            eprintln!("{}", all);
        }
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs code under test; a panic in it is a violation.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("{} panicked: {} (at {})", what, m, l))
        }
    }
}

/// A call of the code under test that should give the same whenever it is made.
pub struct Call<'a> {
    pub what: String,
    pub f: Box<dyn Fn() -> String + Sync + 'a>,
}
/// What a fresh process has to do of this case alone, if this is one.
pub fn solo() -> Option<String> {
    std::env::var("VP_SOLO").ok()
}
/// Ends the fresh process.
pub fn tell(what: &str) -> ! {
    println!("SOLO {}", what.bytes().map(|b| format!("{:02x}", b)).collect::<String>());
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}
/// Has a fresh process of this program, in which nothing went before, do a part of the present case.
pub fn fresh(c: &mut Case, part: &str) -> Option<String> {
    if cfg!(miri) || c.g.scale == 0 || shared() || solo().is_some() { return None; }
    let mut args: Vec<String> = vec![];
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--prop" | "--seed" | "--tier" | "--dict" => { args.push(x); args.push(it.next()?); }
            "--verbose" => {}
            _ => { it.next(); }
        }
    }
    let o = std::process::Command::new(std::env::current_exe().ok()?).args(args)
        .args(["--only", &format!("{}:{}", c.work, c.idx)]).env("VP_SOLO", part)
        .stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null()).output().ok()?;
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    let h = t.lines().find_map(|l| l.strip_prefix("SOLO "))?;
    c.count("fresh_processes");
    let b: Vec<u8> = (0..h.len() / 2).filter_map(|k| u8::from_str_radix(h.get(2 * k..2 * k + 2)?, 16).ok()).collect();
    String::from_utf8(b).ok()
}
/// Makes calls in one order, then again in others, several times and from other threads: each has to give what it
/// gave first. Now and then some are made in a process where they are the first.
pub fn isolated(c: &mut Case, calls: &[Call]) -> R {
    if calls.is_empty() { return Ok(()); }
    let run = |k: usize| match sut("", || (calls[k].f)()) { Ok(s) => s, Err(e) => e };
    if let Some(k) = solo() { tell(&run(k.parse().expect("call"))); }
    let base: Vec<String> = (0..calls.len()).map(run).collect();
    for (k, x) in calls.iter().zip(&base) { c.note(|| format!("{} gives {}", k.what, show(x.as_bytes()))); }
    let order = |g: &mut Gen| { let mut o: Vec<usize> = (0..calls.len()).collect(); for _ in 0..calls.len() / 2 { o.push(g.below(calls.len())); } g.shuffle(&mut o); o };
    let judge = |how: &str, k: usize, prev: Option<usize>, x: String| -> R {
        crate::ensure!(x == base[k], "{} gives {} {}{}, but gave {} before", calls[k].what, show(x.as_bytes()), how, prev.map_or(String::new(), |p| format!(" after {}", calls[p].what)), show(base[k].as_bytes()));
        Ok(())
    };
    for _ in 0..2 {
        let o = order(&mut c.g);
        for (n, &k) in o.iter().enumerate() {
            judge("later", k, if n > 0 { Some(o[n - 1]) } else { None }, run(k))?;
            c.eval();
        }
        c.add("calls_repeated", o.len() as u64);
    }
    if c.g.scale > 0 && c.g.one_in(3) {
        let os: Vec<Vec<usize>> = (0..3).map(|_| order(&mut c.g)).collect();
        let res: Vec<R> = std::thread::scope(|s| {
            let ts: Vec<_> = os.iter().map(|o| s.spawn(|| { for (n, &k) in o.iter().enumerate() { judge("in another thread", k, if n > 0 { Some(o[n - 1]) } else { None }, run(k))?; } Ok(()) })).collect();
            ts.into_iter().map(|t| t.join().expect("a thread of the harness")).collect()
        });
        for r in res { r?; }
        c.add("calls_from_threads", os.iter().map(|o| o.len() as u64).sum());
    }
    if c.g.one_in(50) {
        for _ in 0..3 {
            let k = c.g.below(calls.len());
            let Some(x) = fresh(c, &k.to_string()) else { continue };
            c.count("calls_in_fresh_processes");
            crate::ensure!(x == base[k], "{} gives {} here, but {} as the first call of a process", calls[k].what, show(base[k].as_bytes()), show(x.as_bytes()));
        }
    }
    Ok(())
}

thread_local! { static SCRATCH: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) }; }
/// Hands out the bytes at an address that earlier and later contents have as well.
pub fn in_place<T>(b: &[u8], f: impl FnOnce(&[u8]) -> T) -> T {
    let mut v = SCRATCH.with(|s| std::mem::take(&mut *s.borrow_mut()));
    v.clear();
    v.reserve(b.len().max(4096));
    v.extend_from_slice(b);
    let r = f(&v);
    SCRATCH.with(|s| *s.borrow_mut() = v);
    r
}

/// A text that the code under test gave out: the compiler takes it for UTF-8, so it has to be.
pub fn text<S: AsRef<str>>(s: S) -> usize {
    let b = std::hint::black_box(s.as_ref().as_bytes());
    if std::str::from_utf8(b).is_err() {
        eprintln!("Undefined Behavior: a text that is no UTF-8 was given out: {}", show(b));
        std::process::abort();
    }
    b.iter().map(|&x| x as usize).sum()
}

/// Runs code under test with arguments it may refuse: a panic is fine, only a sanitizer can object.
pub fn any<T>(c: &mut Case, f: impl FnOnce() -> T) -> Option<T> {
    c.eval();
    let r = sut("", f).ok();
    c.count(if r.is_some() { "misuse_returned" } else { "misuse_refused" });
    r
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}

/// Bytes for people: printable ASCII, the rest escaped, long ones cut.
pub fn show(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for &c in b.iter().take(160) {
        match c {
            b'"' | b'\\' => { s.push('\\'); s.push(c as char) }
            0x20..=0x7e => s.push(c as char),
            _ => { let _ = write!(s, "\\x{:02x}", c); }
        }
    }
    s.push('"');
    if b.len() > 160 {
        let _ = write!(s, "...({} bytes)", b.len());
    }
    s
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args {
    prop: String,
    seed: u64,
    tier: usize,
    out: Option<String>,
    progress: Option<String>,
    dict: Option<String>,
    only: Option<(String, u64)>,
    shard: (u64, u64),
    /// start after this (workload, idx): the supervisor skips a case that crashed
    skip: Vec<(String, u64)>,
    /// divide the case numbers by this
    div: u64,
    /// multiply the quick case numbers by this, up to those of thorough
    mul: u64,
    /// this many threads share the cases of the shard
    threads: u64,
    verbose: bool,
}

/// Threads that are in a case at this moment.
static ACTIVE: AtomicU64 = AtomicU64::new(0);
/// Whether several threads run cases: what is measured for the whole process makes no sense then.
static SHARED: AtomicBool = AtomicBool::new(false);
pub fn shared() -> bool {
    SHARED.load(Relaxed)
}

fn args() -> Args {
    let mut a = Args {
        prop: String::new(), seed: 1, tier: 1, out: None, progress: None, dict: None, only: None,
        shard: (0, 1), skip: vec![], div: 1, mul: 1, threads: 1, verbose: false,
    };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    let case = |s: &str| {
        let (w, n) = s.rsplit_once(':').expect("workload:idx");
        (w.to_string(), n.parse().expect("idx"))
    };
    while i < v.len() {
        let next = || v.get(i + 1).expect("argument value").clone();
        match v[i].as_str() {
            "--prop" => a.prop = next(),
            "--seed" => a.seed = next().parse().expect("seed"),
            "--tier" => a.tier = next().parse().expect("tier 0..2"),
            "--out" => a.out = Some(next()),
            "--progress" => a.progress = Some(next()),
            "--dict" => a.dict = Some(next()),
            "--only" => a.only = Some(case(&next())),
            "--skip" => a.skip.push(case(&next())),
            "--mul" => a.mul = next().parse().expect("mul"),
            "--div" => a.div = next().parse().expect("div"),
            "--threads" => a.threads = next().parse().expect("threads"),
            "--shard" => {
                let s = next();
                let (x, y) = s.split_once('/').expect("i/n");
                a.shard = (x.parse().unwrap(), y.parse().unwrap());
            }
            "--verbose" => { a.verbose = true; i += 1; continue; }
            x => panic!("unknown argument {}", x),
        }
        i += 2;
    }
    a
}

fn load_dict(path: &Option<String>) -> Dict {
    let mut d = Dict::default();
    let Some(p) = path else { return d };
    let mut s = String::new();
    std::fs::File::open(p).expect("dict").read_to_string(&mut s).expect("dict");
    for l in s.lines() {
        let (k, x) = l.split_at(2);
        match k {
            "i " | "I " => {
                d.ints.push(x.parse().expect("dict int"));
                if k == "I " { d.fresh_ints.push(x.parse().expect("dict int")); }
            }
            _ => {
                let b: Vec<u8> = (0..x.len() / 2).map(|k| u8::from_str_radix(&x[2 * k..2 * k + 2], 16).unwrap()).collect();
                if k == "S " { d.fresh_strs.push(b.clone()); }
                d.strs.push(b);
            }
        }
    }
    d
}

/// Entry point of the worker binaries.
pub fn main(props: Vec<Prop>) {
    // a big stack: deep recursion is measured on purpose elsewhere, not met by accident
    let size = if cfg!(miri) { 64 << 20 } else { 1 << 30 };
    let t = std::thread::Builder::new().stack_size(size).spawn(move || run(props)).expect("thread");
    match t.join() {
        Ok(code) => std::process::exit(code),
        Err(_) => std::process::exit(70),
    }
}

#[derive(Default)]
struct Done {
    violations: Vec<(String, u64, String, String)>,
    harness_error: Option<String>,
    obs: Obs,
    per: BTreeMap<String, u64>,
}

impl Done {
    fn merge(&mut self, o: Done) {
        self.violations.extend(o.violations);
        self.harness_error = self.harness_error.take().or(o.harness_error);
        for (k, v) in o.per { *self.per.entry(k).or_insert(0) += v; }
        self.obs.evaluations += o.obs.evaluations;
        for (k, v) in o.obs.counters {
            let c = self.obs.counters.entry(k.clone()).or_insert(0);
            if k.starts_with("max_") { *c = (*c).max(v) } else { *c += v }
        }
        self.obs.prints.extend(o.obs.prints);
        for x in o.obs.samples { if self.obs.samples.len() < 6 { self.obs.samples.push(x); } }
    }
}

fn cases(a: &Args, selected: &[&Prop], mut progress: Option<std::fs::File>, counter: &AtomicU64, shard: (u64, u64)) -> Done {
    let dict = Rc::new(load_dict(&a.dict));
    let mut violations: Vec<(String, u64, String, String)> = vec![];
    let mut harness_error: Option<String> = None;
    let mut obs = Obs::default();
    let mut per: BTreeMap<String, u64> = BTreeMap::new();
    // cases are dealt to the shards in turn, over all workloads
    let mut turn = 0;
    'all: for p in selected {
        for w in &p.work {
            let wname = if a.prop == "all" { format!("{}/{}", p.id, w.name) } else { w.name.to_string() };
            if let Some((n, _)) = &a.only {
                if *n != wname { continue; }
            }
            let mut n = w.n[a.tier];
            if a.tier == 1 && a.mul > 1 { n = (n * a.mul).min(w.n[2]).max(n); }
            if n > 0 { n = (n / a.div).max(1); }
            let range = match &a.only { Some((_, k)) => *k..*k + 1, None => 0..n };
            let first = turn;
            turn += n;
            let mut bad = 0;
            for idx in range {
                if a.only.is_none() && ((first + idx) % shard.1 != shard.0 || a.skip.iter().any(|(s, k)| *s == wname && *k == idx)) {
                    continue;
                }
                let nth = counter.fetch_add(1, Relaxed) + 1;
                if let Some(f) = progress.as_mut() {
                    let line = format!("{:>12} {} {}\n", nth, idx, wname);
                    f.seek(SeekFrom::Start(0)).unwrap();
                    f.write_all(format!("{:<90}\n", line.trim_end()).as_bytes()).unwrap();
                }
                let seed = mix(a.seed ^ fnv(w.name.as_bytes()) ^ fnv(p.id.as_bytes()).rotate_left(7)).wrapping_add(mix(idx.wrapping_mul(0x2545_f491_4f6c_dd1d)));
                let mut c = Case { g: Gen::new(seed, dict.clone(), a.tier as u8), idx, obs: &mut obs, notes: vec![], verbose: a.verbose, work: &wname };
                c.obs.evaluations += 1;
                if ACTIVE.fetch_add(1, Relaxed) > 0 { c.count("concurrent_cases"); }
                let r = catch_unwind(AssertUnwindSafe(|| (w.f)(&mut c)));
                ACTIVE.fetch_sub(1, Relaxed);
                let notes = std::mem::take(&mut c.notes);
                *per.entry(wname.clone()).or_insert(0) += 1;
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(m)) => {
                        let k = notes.len().saturating_sub(40);
                        let mut d = String::new();
                        if k > 0 { let _ = write!(d, "({} earlier steps) ", k); }
                        d.push_str(&notes[k..].join("; "));
                        violations.push((wname.clone(), idx, m, d));
                        bad += 1;
                    }
                    Err(_) => {
                        let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                        // panics located outside the harness come from the code under test
                        if l.starts_with("src/") || l.is_empty() {
                            harness_error = Some(format!("harness panicked in {}:{}: {} (at {})", wname, idx, m, l));
                            break 'all;
                        }
                        violations.push((wname.clone(), idx, format!("panicked: {} (at {})", m, l), notes.join("; ")));
                        bad += 1;
                    }
                }
                if bad >= 8 { break; }
            }
        }
    }
    Done { violations, harness_error, obs, per }
}

fn run(props: Vec<Prop>) -> i32 {
    let a = args();
    install_hook();
    let selected: Vec<&Prop> = props.iter().filter(|p| a.prop == "all" || p.id == a.prop).collect();
    if selected.is_empty() {
        eprintln!("no property {}", a.prop);
        return 70;
    }
    let progress = a.progress.as_ref().map(|p| std::fs::File::create(p).expect("progress"));
    let counter = AtomicU64::new(0);
    let mut done = Done::default();
    if a.threads > 1 {
        SHARED.store(true, SeqCst);
        let start = Barrier::new(a.threads as usize);
        // from here on the threads do not synchronise with each other: that would hide races. One of them tells
        // how far it is.
        let mut progress = progress;
        std::thread::scope(|s| {
            let ts: Vec<_> = (0..a.threads).map(|k| {
                let (a, selected, progress, counter, start) = (&a, &selected, progress.take(), &counter, &start);
                let stack = if cfg!(miri) { 16 << 20 } else { 256 << 20 };
                std::thread::Builder::new().stack_size(stack).spawn_scoped(s, move || {
                    start.wait();
                    cases(a, selected, progress, counter, (a.shard.0 + k * a.shard.1, a.shard.1 * a.threads))
                }).expect("thread")
            }).collect();
            for t in ts { done.merge(t.join().expect("a thread of the harness")); }
        });
    } else {
        done = cases(&a, &selected, progress, &counter, a.shard);
    }
    let Done { violations, harness_error, obs, per } = done;
    let mut o = String::from("{\"violations\":[");
    for (i, (w, k, m, d)) in violations.iter().enumerate() {
        if i > 0 { o.push(','); }
        let mut d = d.clone();
        if d.len() > 6000 { let mut k = 6000; while !d.is_char_boundary(k) { k -= 1; } d.truncate(k); d.push_str("..."); }
        let mut m = m.clone();
        if m.len() > 3000 { let mut k = 3000; while !m.is_char_boundary(k) { k -= 1; } m.truncate(k); m.push_str("..."); }
        let _ = write!(o, "{{\"workload\":{},\"idx\":{},\"message\":{},\"steps\":{}}}", json_str(w), k, json_str(&m), json_str(&d));
    }
    let _ = write!(o, "],\"evaluations\":{},\"counters\":{{", obs.evaluations);
    for (i, (k, v)) in obs.counters.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, json_str(k), v);
    }
    o.push_str("},\"cases\":{");
    for (i, (k, v)) in per.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, json_str(k), v);
    }
    o.push_str("},\"samples\":[");
    for (i, s) in obs.samples.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, json_str(s));
    }
    o.push_str("],\"floors\":{");
    let mut first = true;
    for p in &selected {
        for (k, v) in p.floors {
            let _ = write!(o, "{}{}:{}", if first { "" } else { "," }, json_str(k), v);
            first = false;
        }
    }
    let rule = selected.iter().map(|p| p.rule).collect::<Vec<_>>().join(" | ");
    let _ = write!(o, "}},\"rule\":{},\"assumptions\":[", json_str(&rule));
    for (i, s) in selected.iter().flat_map(|p| p.assumptions.iter()).enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, json_str(s));
    }
    let _ = write!(o, "],\"harness_error\":{}}}", match &harness_error { Some(e) => json_str(e), None => "null".into() });
    if let Some(p) = &a.out {
        std::fs::write(p, &o).expect("out");
        let mut fp: Vec<u8> = Vec::with_capacity(obs.prints.len() * 8);
        for x in &obs.prints { fp.extend_from_slice(&x.to_le_bytes()); }
        std::fs::write(format!("{}.fp", p), fp).expect("fp");
    } else {
        println!("{}", o);
    }
    if harness_error.is_some() { 70 } else if violations.is_empty() { 0 } else { 1 }
}
