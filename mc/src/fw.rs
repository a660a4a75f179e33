//! Exploration framework: deterministic exhaustive enumeration of numbered cases, in parallel,
//! with panic capture, a watchdog for non-terminating cases, replay of a single case, known
//! findings and evidence output.
use std::{
    any::Any,
    collections::BTreeMap,
    fmt::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub part: String,
    pub case: u64,
    pub detail: String,
    /// class of a recorded known finding this violation belongs to, if any
    pub known: Option<String>,
}

/// Failure of a single case.
pub struct Fail {
    pub detail: String,
    pub known: Option<String>,
}
impl From<String> for Fail {
    fn from(detail: String) -> Self {
        Fail { detail, known: None }
    }
}
impl From<&str> for Fail {
    fn from(d: &str) -> Self {
        Fail { detail: d.into(), known: None }
    }
}
pub type Case = Result<(), Fail>;

#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return Err($crate::fw::Fail::from(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::fw::Fail::from(format!($($t)*))); } };
}

#[derive(Default)]
pub struct PartStat {
    pub name: String,
    pub cases: u64,
    pub rule: String,
    pub wall: f64,
}

pub struct Cx {
    pub prop: String,
    pub tier: Tier,
    pub only: Option<(String, u64)>,
    pub threads: usize,
    pub trace: bool,
    /// name put before the parts that follow, and those of them that are run (none listed: all)
    pub select: Mutex<(String, Vec<&'static str>)>,
    /// parts that are left out
    pub skip: Mutex<Vec<&'static str>>,
    pub seen: Vec<Mutex<std::collections::HashSet<u64>>>,
    pub transitions: AtomicU64,
    pub checks: AtomicU64,
    pub violations: Mutex<Vec<Violation>>,
    pub n_viol: AtomicU64,
    pub parts: Mutex<Vec<PartStat>>,
    pub samples: Mutex<Vec<String>>,
    pub notes: Mutex<BTreeMap<String, u64>>,
    pub start: Instant,
    pub case_limit: Duration,
}

thread_local! {
    pub static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn panic_text(p: &(dyn Any + Send)) -> String {
    let m = PANIC_MSG.with(|m| m.borrow().clone());
    if !m.is_empty() {
        return m;
    }
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Run a closure over the code under test, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC_MSG.with(|m| m.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| panic_text(&*p))
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        PANIC_MSG.with(|m| *m.borrow_mut() = s.replace('\n', " "));
    }));
}

const MAX_VIOL: u64 = 200;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
}
static SAVED_STDOUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
/// Send what the code under test prints to /dev/null until the verdict is printed.
pub fn silence() {
    use std::os::fd::AsRawFd;
    let Ok(n) = std::fs::OpenOptions::new().write(true).open("/dev/null") else { return };
    unsafe {
        SAVED_STDOUT.store(dup(1), Ordering::SeqCst);
        dup2(n.as_raw_fd(), 1);
        dup2(n.as_raw_fd(), 2);
    }
}
fn unsilence() {
    let fd = SAVED_STDOUT.swap(-1, Ordering::SeqCst);
    if fd >= 0 {
        let _ = std::io::Write::flush(&mut std::io::stdout());
        unsafe {
            dup2(fd, 1);
        }
    }
}

impl Cx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    /// Record a visited state by fingerprint (distinct fingerprints are counted).
    pub fn state(&self, h: u64) {
        self.seen[(h >> 56) as usize & 63].lock().unwrap().insert(h);
    }
    /// Record `n` executed operations of the code under test whose outcome was compared.
    pub fn step(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn new(prop: &str, tier: Tier, only: Option<(String, u64)>, threads: usize, trace: bool) -> Cx {
        Cx {
            prop: prop.into(),
            tier,
            only,
            threads,
            trace,
            select: Mutex::new((String::new(), vec![])),
            skip: Mutex::new(vec![]),
            seen: (0..64).map(|_| Mutex::new(Default::default())).collect(),
            transitions: AtomicU64::new(0),
            checks: AtomicU64::new(0),
            violations: Mutex::new(vec![]),
            n_viol: AtomicU64::new(0),
            parts: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            notes: Mutex::new(BTreeMap::new()),
            start: Instant::now(),
            case_limit: Duration::from_secs(180),
        }
    }
    pub fn note(&self, k: &str, n: u64) {
        *self.notes.lock().unwrap().entry(k.into()).or_insert(0) += n;
    }
    pub fn report(&self, part: &str, case: u64, f: Fail) {
        if f.known.is_none() {
            self.n_viol.fetch_add(1, Ordering::Relaxed);
        }
        let mut v = self.violations.lock().unwrap();
        // keep every unlisted violation up to a cap, and one witness per known class
        if let Some(k) = &f.known {
            if v.iter().any(|x| x.known.as_ref() == Some(k)) {
                return;
            }
        }
        if v.len() < 2 * MAX_VIOL as usize {
            v.push(Violation { part: part.into(), case, detail: f.detail, known: f.known });
        }
    }

    /// Enumerate every case number in 0..total exactly once and evaluate `f` on it.
    pub fn run<F>(&self, part: &str, rule: &str, total: u64, f: F)
    where
        F: Fn(u64) -> Case + Sync,
    {
        self.run_desc(part, rule, total, f, |c| format!("case {c}"))
    }

    pub fn run_desc<F, D>(&self, part: &str, rule: &str, total: u64, f: F, desc: D)
    where
        F: Fn(u64) -> Case + Sync,
        D: Fn(u64) -> String + Sync,
    {
        let t0 = Instant::now();
        let named;
        let part = {
            let sel = self.select.lock().unwrap();
            if (!sel.1.is_empty() && !sel.1.contains(&part)) || self.skip.lock().unwrap().contains(&part) {
                return;
            }
            named = format!("{}{part}", sel.0);
            named.as_str()
        };
        let eval = |c: u64| -> Case {
            match guard(|| f(c)) {
                Ok(r) => r,
                Err(m) => Err(Fail { detail: format!("panicked: {m}"), known: None }),
            }
        };
        if let Some((p, c)) = &self.only {
            if p == part && *c < total {
                println!("replaying {}/{} case {}: {}", self.prop, part, c, desc(*c));
                match eval(*c) {
                    Ok(()) => println!("case passes"),
                    Err(e) => {
                        println!("case fails: {}", e.detail);
                        self.report(part, *c, e);
                    }
                }
            }
            return;
        }
        let next = AtomicU64::new(0);
        let nthreads = self.threads.min(total.max(1) as usize).max(1);
        let batch = (total / (nthreads as u64 * 64)).clamp(1, 256);
        let slots: Vec<(AtomicU64, AtomicU64)> =
            (0..nthreads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let done = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let executed = AtomicU64::new(0);
        let base = Instant::now();
        std::thread::scope(|s| {
            for t in 0..nthreads {
                let (next, slots, eval, done, stop, executed) =
                    (&next, &slots, &eval, &done, &stop, &executed);
                s.spawn(move || {
                    let mut n = 0u64;
                    'o: loop {
                        let lo = next.fetch_add(batch, Ordering::Relaxed);
                        if lo >= total {
                            break;
                        }
                        for c in lo..(lo + batch).min(total) {
                            if stop.load(Ordering::Relaxed) {
                                break 'o;
                            }
                            slots[t].1.store(base.elapsed().as_millis() as u64, Ordering::Relaxed);
                            slots[t].0.store(c, Ordering::Relaxed);
                            if self.trace {
                                eprintln!("{part} {c}");
                            }
                            if let Err(e) = eval(c) {
                                self.report(part, c, e);
                                if self.n_viol.load(Ordering::Relaxed) > MAX_VIOL {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            n += 1;
                        }
                    }
                    slots[t].0.store(u64::MAX, Ordering::Relaxed);
                    executed.fetch_add(n, Ordering::Relaxed);
                    done.fetch_add(1, Ordering::Release);
                });
            }
            // watchdog
            let mut tick = 0u32;
            while done.load(Ordering::Acquire) < nthreads {
                std::thread::sleep(Duration::from_millis(if tick < 20 { 2 } else { 25 }));
                tick += 1;
                if tick % 40 != 0 {
                    continue;
                }
                let now = base.elapsed().as_millis() as u64;
                for sl in &slots {
                    let c = sl.0.load(Ordering::Relaxed);
                    let t = sl.1.load(Ordering::Relaxed);
                    if c != u64::MAX && now.saturating_sub(t) > self.case_limit.as_millis() as u64 {
                        // the thread cannot be stopped: report and leave
                        self.report(
                            part,
                            c,
                            Fail {
                                detail: format!(
                                    "did not terminate within {} s: {}",
                                    self.case_limit.as_secs(),
                                    desc(c)
                                ),
                                known: None,
                            },
                        );
                        let code = self.finish_partial(part);
                        std::process::exit(code);
                    }
                }
            }
        });
        let ex = executed.load(Ordering::Relaxed);
        self.checks.fetch_add(ex, Ordering::Relaxed);
        self.parts.lock().unwrap().push(PartStat {
            name: part.into(),
            cases: ex,
            rule: rule.into(),
            wall: t0.elapsed().as_secs_f64(),
        });
        let mut sm = self.samples.lock().unwrap();
        if total > 0 {
            for c in [0, total / 3, total - 1] {
                if sm.len() < 24 {
                    sm.push(format!("{part}#{c}: {}", truncate(&desc(c), 240)));
                }
            }
        }
    }

    fn finish_partial(&self, part: &str) -> i32 {
        eprintln!("aborting exploration in part {part}");
        self.finish()
    }

    /// Write evidence, print verdict lines, return the exit code.
    pub fn finish(&self) -> i32 {
        unsilence();
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let seed = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
        let known = known_findings(&dir, &self.prop);
        let mut viol = self.violations.lock().unwrap().clone();
        viol.sort_by(|a, b| (a.known.is_some(), &a.part, a.case).cmp(&(b.known.is_some(), &b.part, b.case)));
        let mut real = vec![];
        let mut listed: BTreeMap<String, String> = BTreeMap::new();
        for v in viol {
            match &v.known {
                Some(k) if known.iter().any(|x| x.0 == *k) => {
                    let what = known.iter().find(|x| x.0 == *k).unwrap().1.clone();
                    listed.insert(k.clone(), format!("{} [{}] witness {}#{}: {}", what, k, v.part, v.case, truncate(&v.detail, 200)));
                }
                _ => real.push(v),
            }
        }
        if self.only.is_some() {
            return if real.is_empty() { 0 } else { 1 };
        }
        for (_, l) in &listed {
            println!("KNOWN-FINDING: property={} {}", self.prop, l);
        }
        let parts = self.parts.lock().unwrap();
        let cases: u64 = parts.iter().map(|p| p.cases).sum();
        let st: u64 = self.seen.iter().map(|s| s.lock().unwrap().len() as u64).sum();
        let tr = self.transitions.load(Ordering::Relaxed);
        let mut rules = String::new();
        for p in parts.iter() {
            let _ = write!(rules, "{} ({} cases, {:.1}s): {}; ", p.name, p.cases, p.wall, p.rule);
        }
        let mut j = String::new();
        let tier = if self.quick() { "quick" } else { "thorough" };
        let samples = self.samples.lock().unwrap();
        let sj: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
        let notes = self.notes.lock().unwrap();
        let nj: Vec<String> = notes.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
        let partj: Vec<String> = parts
            .iter()
            .map(|p| format!("{{\"part\": {}, \"cases\": {}, \"rule\": {}}}", jstr(&p.name), p.cases, jstr(&p.rule)))
            .collect();
        let _ = write!(
            j,
            "{{\n  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"exhaustive\": true,\n    \"rule\": {},\n    \"samples\": [{}],\n    \"parts\": [{}],\n    \"counters\": {{{}}}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
            jstr(&self.prop),
            tier,
            seed.parse::<i64>().unwrap_or(1),
            st,
            tr,
            cases,
            jstr(&rules),
            sj.join(", "),
            partj.join(", "),
            nj.join(", "),
            jstr("the enumeration runs the real crate built from /repo's working tree (ALP library left out, or replaced by a stand-in codec for P19-P25); bounds are the alphabets, lengths and depths named in each part's rule"),
            self.start.elapsed().as_secs_f64(),
            real.len()
        );
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        let _ = std::fs::write(format!("{dir}/evidence/{}.json", self.prop), j);
        if real.is_empty() {
            println!(
                "{}: held on all {} cases ({} states, {} transitions) in {:.1}s",
                self.prop,
                cases,
                st,
                tr,
                self.start.elapsed().as_secs_f64()
            );
            return 0;
        }
        let rdir = format!("{dir}/evidence/replay");
        let _ = std::fs::create_dir_all(&rdir);
        for v in real.iter().take(8) {
            println!("  {}#{}: {}", v.part, v.case, truncate(&v.detail, 700));
        }
        let v = &real[0];
        let path = format!("{rdir}/{}.json", self.prop);
        let rp = format!(
            "{{\n  \"property\": {},\n  \"tier\": \"{}\",\n  \"part\": {},\n  \"case\": {},\n  \"detail\": {},\n  \"rerun\": {}\n}}\n",
            jstr(&self.prop),
            tier,
            jstr(&v.part),
            v.case,
            jstr(&v.detail),
            jstr(&format!("/verif/check.sh {} {} --case {}:{}", self.prop, tier, v.part, v.case)),
        );
        let _ = std::fs::write(&path, rp);
        println!("VIOLATION property={} replay={}", self.prop, path);
        1
    }
}

pub fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.into();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…", &s[..e])
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Lines "finding: property=<id> key=<key> <what>" of known_findings.txt.
fn known_findings(dir: &str, prop: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(format!("{dir}/known_findings.txt")) else {
        return vec![];
    };
    let mut v = vec![];
    for l in s.lines() {
        let Some(r) = l.strip_prefix(&format!("finding: property={prop} key=")) else { continue };
        let (k, w) = r.split_once(' ').unwrap_or((r, ""));
        v.push((k.to_string(), w.to_string()));
    }
    v
}

/// Mixed-radix decoder for case numbers.
pub struct Dig(pub u64);
impl Dig {
    pub fn take(&mut self, radix: usize) -> usize {
        let r = radix as u64;
        let d = self.0 % r;
        self.0 /= r;
        d as usize
    }
}

/// Number of sequences over an alphabet of `a` letters with length in lo..=hi.
pub fn n_seqs(a: u64, lo: u32, hi: u32) -> u64 {
    (lo..=hi).map(|l| a.pow(l)).sum()
}
/// The `i`-th such sequence (shortest first).
pub fn nth_seq(a: u64, lo: u32, hi: u32, mut i: u64) -> Vec<usize> {
    for l in lo..=hi {
        let n = a.pow(l);
        if i < n {
            let mut v = Vec::with_capacity(l as usize);
            for _ in 0..l {
                v.push((i % a) as usize);
                i /= a;
            }
            return v;
        }
        i -= n;
    }
    unreachable!()
}

/// Command line: <property> <quick|thorough> [--case part:num] [--trace]
pub fn main(run: impl FnOnce(&Cx) -> bool) {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let tier = match a.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    let mut trace = false;
    let mut i = 3;
    while i < a.len() {
        if a[i] == "--case" {
            let (p, c) = a[i + 1].rsplit_once(':').expect("--case part:num");
            only = Some((p.to_string(), c.parse().unwrap()));
            i += 1;
        } else if a[i] == "--trace" {
            trace = true;
        }
        i += 1;
    }
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let cx = Cx::new(&prop, tier, only, threads, trace);
    if !run(&cx) {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    }
    std::process::exit(cx.finish());
}
