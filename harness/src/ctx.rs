//! Running cases, watching the code under test, and reporting.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use lunify::{Format, LunifyError, Settings};
use serde_json::{json, Value};

use crate::rng::Rng;
use crate::vm::{Fail, Vm};

// ---------------------------------------------------------------- memory monitor

/// Counts the bytes the current thread has allocated. A call of the code under
/// test that asks for more than `CAP` gets a failed allocation.
pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TRACKED: Cell<bool> = const { Cell::new(false) };
}

const CAP: i64 = 3 << 30;

fn account(delta: i64) -> bool {
    TRACKED.with(|t| {
        if !t.get() {
            return true;
        }
        LIVE.with(|l| {
            let n = l.get() + delta;
            if n > CAP {
                return false;
            }
            l.set(n);
            PEAK.with(|p| p.set(p.get().max(n)));
            true
        })
    })
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        match account(l.size() as i64) {
            true => System.alloc(l),
            false => std::ptr::null_mut(),
        }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        match account(n as i64 - l.size() as i64) {
            true => System.realloc(p, l, n),
            false => std::ptr::null_mut(),
        }
    }
}

// ---------------------------------------------------------------- slots

pub const MAX_THREADS: usize = 64;

/// What a thread is doing right now, in a file that survives a crash.
#[repr(C)]
pub struct Slot {
    /// Odd while a call is running.
    pub sequence: AtomicU64,
    pub index: AtomicU64,
    pub section: [AtomicU64; 4],
    pub clock: AtomicI64,
}

pub struct Slots(*mut Slot);
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

impl Slots {
    pub fn map(path: &Path) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slot file");
        let size = std::mem::size_of::<Slot>() * MAX_THREADS;
        f.set_len(size as u64).expect("slot file");
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED, "mmap");
        Slots(p as *mut Slot)
    }

    pub fn get(&self, i: usize) -> &Slot {
        assert!(i < MAX_THREADS);
        unsafe { &*self.0.add(i) }
    }
}

impl Slot {
    fn set_name(&self, name: &str) {
        let mut b = [0u8; 32];
        let n = name.len().min(32);
        b[..n].copy_from_slice(&name.as_bytes()[..n]);
        for (i, c) in b.chunks(8).enumerate() {
            self.section[i].store(u64::from_le_bytes(c.try_into().unwrap()), Relaxed);
        }
    }

    pub fn name(&self) -> String {
        let b: Vec<u8> = self.section.iter().flat_map(|w| w.load(Relaxed).to_le_bytes()).take_while(|b| *b != 0).collect();
        String::from_utf8_lossy(&b).into_owned()
    }
}

fn cpu(clock: libc::clockid_t) -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(clock, &mut t) } != 0 {
        return 0.0;
    }
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

// ---------------------------------------------------------------- context

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub enum Out {
    Ok(Vec<u8>),
    Err(LunifyError),
    Panic(String),
}

impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Ok(v) => format!("Ok({} bytes)", v.len()),
            Out::Err(e) => format!("Err({e:?})"),
            Out::Panic(m) => format!("panic: {m}"),
        }
    }
}

#[derive(Default)]
struct State {
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    evaluations: u64,
    samples: BTreeMap<String, Vec<Value>>,
    violations: Vec<(String, String)>,
    known: BTreeMap<String, String>,
    errors: Vec<String>,
    sections: Vec<Value>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    pub repo: PathBuf,
    pub only: Option<(String, u64)>,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    pub threads: usize,
    pub deadline: Instant,
    pub start: Instant,
    slots: Slots,
    state: Mutex<State>,
    known: Vec<(String, String)>,
    done: AtomicBool,
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64, root: PathBuf, repo: PathBuf, slots: &Path, only: Option<(String, u64)>) -> Self {
        let known = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
        let known = known
            .lines()
            .filter_map(|l| l.strip_prefix("finding: "))
            .filter_map(|l| {
                let mut w = l.split_whitespace();
                let p = w.next()?.strip_prefix("property=")?;
                let k = w.next()?.strip_prefix("key=")?;
                Some((p.to_owned(), k.to_owned()))
            })
            .collect();
        let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16);
        let limit = match tier {
            Tier::Quick => 420,
            Tier::Thorough => 2700,
        };
        Self {
            prop: prop.into(),
            tier,
            seed,
            root,
            repo,
            only,
            rule: Mutex::default(),
            assumptions: Mutex::default(),
            threads,
            deadline: Instant::now() + Duration::from_secs(limit),
            start: Instant::now(),
            slots: Slots::map(slots),
            state: Mutex::default(),
            known,
            done: AtomicBool::new(false),
        }
    }

    pub fn rule(&self, text: &str) {
        *self.rule.lock().unwrap() = text.split_whitespace().collect::<Vec<_>>().join(" ");
    }

    pub fn assume(&self, text: &str) {
        self.assumptions.lock().unwrap().push(text.split_whitespace().collect::<Vec<_>>().join(" "));
    }

    /// Number of cases, scaled for the tier.
    pub fn scale(&self, quick: u64) -> u64 {
        let factor = std::env::var("VP_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
        let n = match self.tier {
            Tier::Quick => quick as f64,
            Tier::Thorough => quick as f64 * 12.0,
        };
        ((n * factor) as u64).max(1)
    }

    pub fn error(&self, message: String) {
        let mut s = self.state.lock().unwrap();
        if s.errors.len() < 20 {
            s.errors.push(message);
        }
    }

    pub fn count(&self, name: &str, n: u64) {
        *self.state.lock().unwrap().counters.entry(name.into()).or_default() += n;
    }

    /// Run `n` cases in parallel.
    pub fn run(&self, section: &str, n: u64, f: impl Fn(&mut Case) + Sync) {
        let begin = Instant::now();
        let indices: Vec<u64> = match &self.only {
            Some((s, _)) if s != section => return,
            Some((_, i)) => vec![*i],
            None => (0..n).collect(),
        };
        let next = AtomicU64::new(0);
        let ran = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        std::thread::scope(|scope| {
            let watch = scope.spawn(|| self.watch(&stop));
            let workers: Vec<_> = (0..self.threads.min(indices.len()))
                .map(|t| {
                    let (f, next, indices, ran) = (&f, &next, &indices, &ran);
                    // Same stack size as any other thread that is spawned by Rust.
                    std::thread::Builder::new()
                        .stack_size(2 << 20)
                        .spawn_scoped(scope, move || {
                            let slot = self.slots.get(t);
                            slot.set_name(section);
                            let mut clock = 0;
                            unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
                            slot.clock.store(clock as i64, SeqCst);
                            let mut local = Local::default();
                            let vm = |n: &str| Vm::new(self.root.join("build/lua").join(n));
                            let mut vms = (vm("vm51"), vm("vm50"));
                            loop {
                                let at = next.fetch_add(1, Relaxed) as usize;
                                if at >= indices.len() || Instant::now() > self.deadline {
                                    break;
                                }
                                // Enough evidence.
                                if self.state.lock().unwrap().violations.len() >= 5 {
                                    break;
                                }
                                let index = indices[at];
                                slot.index.store(index, Relaxed);
                                let mut case = Case {
                                    cx: self,
                                    section,
                                    index,
                                    rng: Rng::new(self.seed, section, index),
                                    slot,
                                    local: &mut local,
                                    vm51: &mut vms.0,
                                    vm50: &mut vms.1,
                                    notes: Vec::new(),
                                };
                                let result = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
                                ran.fetch_add(1, Relaxed);
                                if result.is_err() {
                                    self.error(format!("harness panicked in {section}:{index}: {}", last_panic()));
                                }
                            }
                            self.merge(section, local);
                            slot.sequence.store(0, SeqCst);
                        })
                        .expect("thread")
                })
                .collect();
            for w in workers {
                let _ = w.join();
            }
            stop.store(true, SeqCst);
            let _ = watch.join();
        });
        let ran = ran.load(Relaxed);
        let seconds = (begin.elapsed().as_secs_f64() * 10.0).round() / 10.0;
        self.state.lock().unwrap().sections.push(json!({"section": section, "cases": ran, "planned": n, "seconds": seconds}));
    }

    fn merge(&self, section: &str, local: Local) {
        let mut s = self.state.lock().unwrap();
        s.evaluations += local.evaluations;
        s.distinct.extend(local.distinct);
        for (k, v) in local.counters {
            *s.counters.entry(k).or_default() += v;
        }
        let samples = s.samples.entry(section.into()).or_default();
        for v in local.samples {
            if samples.len() < 2 {
                samples.push(v);
            }
        }
    }

    /// Reports calls that don't come to an end, measured in CPU time.
    fn watch(&self, stop: &AtomicBool) {
        let mut seen = [(0u64, 0f64); MAX_THREADS];
        while !stop.load(SeqCst) {
            for _ in 0..10 {
                std::thread::sleep(Duration::from_millis(20));
                if stop.load(SeqCst) {
                    return;
                }
            }
            for (t, seen) in seen.iter_mut().enumerate().take(self.threads) {
                let slot = self.slots.get(t);
                let sequence = slot.sequence.load(SeqCst);
                if sequence & 1 == 0 {
                    continue;
                }
                let now = cpu(slot.clock.load(SeqCst) as libc::clockid_t);
                if seen.0 != sequence {
                    *seen = (sequence, now);
                } else if now - seen.1 > 60.0 && slot.sequence.load(SeqCst) == sequence {
                    let index = slot.index.load(SeqCst);
                    let section = slot.name();
                    self.report(&section, index, "the conversion was still running after 60 seconds of CPU time", json!({}));
                    std::process::exit(self.finish());
                }
            }
        }
    }

    pub fn report(&self, section: &str, index: u64, what: &str, details: Value) {
        let dir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{section}-{index}-{}.json", self.prop, self.seed));
        let tier = match self.tier {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        };
        let file = json!({
            "property": self.prop, "section": section, "index": index, "seed": self.seed, "tier": tier,
            "what": what, "details": details,
            "how": "/verif/check.sh replay <this file> runs this case again",
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap());
        self.state.lock().unwrap().violations.push((path.display().to_string(), what.into()));
    }

    /// A failure that might be listed as a known finding.
    pub fn finding(&self, key: &str, section: &str, index: u64, what: &str, details: Value) {
        match self.known.iter().any(|(p, k)| *p == self.prop && k == key) {
            true => {
                self.state.lock().unwrap().known.insert(key.into(), what.into());
            }
            false => self.report(section, index, what, details),
        }
    }

    /// Write the evidence, print the verdict and return the exit code.
    pub fn finish(&self) -> i32 {
        if self.done.swap(true, SeqCst) {
            return 2;
        }
        let s = self.state.lock().unwrap();
        let tier = match self.tier {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        };
        let samples: Vec<Value> =
            s.samples.iter().flat_map(|(k, v)| v.iter().map(move |v| json!({"section": k, "case": v}))).take(12).collect();
        let distinct = s.distinct.len() as u64;
        let evidence = json!({
            "property": self.prop,
            "tier": tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": s.evaluations,
                "distinct_nontrivial": distinct,
                "rule": *self.rule.lock().unwrap(),
                "samples": samples,
                "observed": s.counters,
                "sections": s.sections,
                "known_findings_seen": s.known,
            },
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": s.violations.len(),
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if self.only.is_none() {
            if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&evidence).unwrap()) {
                eprintln!("can't write evidence: {e}");
                return 2;
            }
        }
        for (key, what) in &s.known {
            println!("KNOWN-FINDING: property={} key={key} {what}", self.prop);
        }
        for (path, what) in s.violations.iter().take(5) {
            println!("VIOLATION property={} replay={path}", self.prop);
            println!("  {}", what.lines().next().unwrap_or(""));
        }
        for e in &s.errors {
            eprintln!("ERROR {e}");
        }
        println!(
            "{} {tier} seed {}: {} evaluations, {distinct} distinct non-trivial, {} violations, {:.1} s",
            self.prop,
            self.seed,
            s.evaluations,
            s.violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        if !s.violations.is_empty() {
            return 1;
        }
        if !s.errors.is_empty() {
            return 2;
        }
        if self.only.is_none() && (s.evaluations == 0 || distinct == 0) {
            eprintln!("ERROR nothing was observed");
            return 2;
        }
        0
    }
}

#[derive(Default)]
pub struct Local {
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

pub struct Case<'a> {
    pub cx: &'a Ctx,
    pub section: &'a str,
    pub index: u64,
    pub rng: Rng,
    slot: &'a Slot,
    local: &'a mut Local,
    pub vm51: &'a mut Vm,
    pub vm50: &'a mut Vm,
    /// Shown in a replay file.
    pub notes: Vec<(String, String)>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = m);
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for b in b {
        let _ = write!(s, "{b:02x}");
    }
    s
}

impl<'a> Case<'a> {
    /// Call the code under test.
    pub fn unify(&mut self, input: &[u8], format: &Format, settings: &Settings) -> Out {
        self.unify_measured(input, format, settings).0
    }

    /// Call the code under test and measure the peak of the memory it uses.
    pub fn unify_measured(&mut self, input: &[u8], format: &Format, settings: &Settings) -> (Out, u64) {
        self.monitored(|| lunify::unify(input, format, settings))
    }

    pub fn monitored(&mut self, f: impl FnOnce() -> Result<Vec<u8>, LunifyError>) -> (Out, u64) {
        self.local.evaluations += 1;
        self.slot.sequence.fetch_add(1, SeqCst);
        LIVE.with(|l| l.set(0));
        PEAK.with(|p| p.set(0));
        TRACKED.with(|t| t.set(true));
        let result = catch_unwind(AssertUnwindSafe(f));
        TRACKED.with(|t| t.set(false));
        self.slot.sequence.fetch_add(1, SeqCst);
        let peak = PEAK.with(|p| p.get()).max(0) as u64;
        let out = match result {
            Ok(Ok(v)) => Out::Ok(v),
            Ok(Err(e)) => Out::Err(e),
            Err(_) => Out::Panic(last_panic()),
        };
        (out, peak)
    }

    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }

    pub fn add(&mut self, name: &str, n: u64) {
        match self.local.counters.get_mut(name) {
            Some(v) => *v += n,
            None => {
                self.local.counters.insert(name.into(), n);
            }
        }
    }

    pub fn evaluated(&mut self) {
        self.local.evaluations += 1;
    }

    pub fn nontrivial(&mut self, hash: u64) {
        self.local.distinct.insert(hash);
    }

    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.local.samples.len() < 2 {
            self.local.samples.push(v());
        }
    }

    pub fn note(&mut self, key: &str, value: impl Into<String>) {
        self.notes.push((key.into(), value.into()));
    }

    fn details(&self) -> Value {
        Value::Object(self.notes.iter().map(|(k, v)| (k.clone(), Value::String(v.chars().take(200_000).collect()))).collect())
    }

    pub fn violation(&mut self, what: impl Into<String>) {
        let what = what.into();
        self.cx.report(self.section, self.index, &what, self.details());
    }

    pub fn finding(&mut self, key: &str, what: impl Into<String>) {
        let what = what.into();
        self.cx.finding(key, self.section, self.index, &what, self.details());
    }

    pub fn error(&self, what: impl Into<String>) {
        self.cx.error(format!("{}:{}: {}", self.section, self.index, what.into()));
    }

    pub fn fail(&mut self, f: Fail) {
        match f {
            Fail::Harness(m) => self.error(m),
            Fail::Crash(m) => self.error(format!("reference runtime crashed: {m}")),
        }
    }
}
