//! The monitors: counting allocator, panic guard, crash slots, CPU/deadlock watchdog, workers,
//! evidence.
use refmodel::{hash_bytes, mix, Livelock, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---- allocation monitor --------------------------------------------------------------------

pub struct Counting;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    /// all that was ever asked for
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    /// largest value CUR may take; isize::MAX outside guarded regions
    static CAP: Cell<isize> = const { Cell::new(isize::MAX) };
}

pub const EXIT_MEMORY: i32 = 77;

#[inline]
fn grow(n: usize) {
    let _ = TOTAL.try_with(|c| c.set(c.get().wrapping_add(n as u64)));
    let _ = CUR.try_with(|c| {
        let v = c.get().saturating_add(n as isize);
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = CAP.try_with(|cap| {
            if v > cap.get() {
                // Unwinding out of an allocator is not allowed: end the process with a code of its
                // own; the slots say which case it was.
                unsafe {
                    let m = b"dlhnmon: memory cap exceeded in a guarded operation\n";
                    libc::write(2, m.as_ptr() as *const _, m.len());
                    libc::_exit(EXIT_MEMORY);
                }
            }
        });
    });
}

#[inline]
fn shrink(n: usize) {
    let _ = CUR.try_with(|c| c.set(c.get().saturating_sub(n as isize)));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            grow(n - l.size())
        } else {
            shrink(l.size() - n)
        }
        System.realloc(p, l, n)
    }
}

/// Bytes this thread has taken and not given back.
pub fn held() -> isize {
    CUR.with(|c| c.get())
}

/// Bytes this thread has asked for since it started (a growing allocation counts what it gains).
pub fn asked() -> u64 {
    TOTAL.with(|c| c.get())
}

/// CPU time of this thread.
pub fn cpu() -> Duration {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}

// ---- verdicts ------------------------------------------------------------------------------

#[derive(Debug)]
pub enum Broken {
    /// the property does not hold on this case
    Vio(String),
    /// the harness itself failed: no verdict
    Harness(String),
}

impl From<String> for Broken {
    fn from(s: String) -> Self {
        if s.starts_with("model: ") {
            Broken::Harness(s)
        } else {
            Broken::Vio(s)
        }
    }
}

pub type R<T = ()> = Result<T, Broken>;

#[macro_export]
macro_rules! vio {
    ($($t:tt)*) => { return Err($crate::mon::Broken::Vio(format!($($t)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::mon::Broken::Vio(format!($($t)*))) } };
}

thread_local! {
    static LAST: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = i.payload().downcast_ref::<Livelock>() {
            format!("LIVELOCK: {}", s.0)
        } else {
            "(no message)".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = Some((msg, loc)));
    }));
}

pub fn take_panic() -> (String, String) {
    LAST.with(|l| l.borrow_mut().take()).unwrap_or_default()
}

fn ours(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("refmodel/src/") || loc.contains("/verif/")
}

fn classify(what: &str) -> Broken {
    let (msg, loc) = take_panic();
    if msg.starts_with("LIVELOCK") || msg.starts_with("HARNESS-WRAP") {
        return Broken::Vio(format!("{}: {}", what, msg));
    }
    if ours(&loc) {
        return Broken::Harness(format!("{}: panic in the harness at {}: {}", what, loc, msg));
    }
    Broken::Vio(format!("{}: panicked at {}: {}", what, loc, msg))
}

/// Runs an operation of the code under test; a panic in it breaks the case.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| classify(what))
}

/// As `guard`, and measures the most memory the thread held during the operation.
pub fn guard_mem<T>(what: &str, cap: usize, f: impl FnOnce() -> T) -> R<(T, usize)> {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    CAP.with(|c| c.set(base.saturating_add(cap as isize)));
    let r = catch_unwind(AssertUnwindSafe(f));
    CAP.with(|c| c.set(isize::MAX));
    let peak = (PEAK.with(|p| p.get()) - base).max(0) as usize;
    match r {
        Ok(v) => Ok((v, peak)),
        Err(_) => Err(classify(what)),
    }
}

// ---- run -----------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Replay {
    pub section: String,
    pub seed: u64,
    pub idx: u64,
}

pub struct Cfg {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub evidence: Option<PathBuf>,
    pub dir: PathBuf,
    pub replay: Option<Replay>,
    pub workers: usize,
    /// multiplies case counts (the sanitizer builds run a fraction)
    pub scale: f64,
    /// this executable, for probes in a child process
    pub exe: PathBuf,
}

const SLOT: usize = 64;
pub const SLOTS: usize = 64;

struct Slots {
    p: *mut u8,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    fn open(path: &std::path::Path) -> std::io::Result<Slots> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path)?;
        f.set_len((SLOT * SLOTS) as u64)?;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT * SLOTS,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Slots { p: p as *mut u8 })
    }
    fn set(&self, slot: usize, active: bool, section: u64, seed: u64, idx: u64) {
        unsafe {
            let q = self.p.add(slot * SLOT) as *mut u64;
            q.write_volatile(0);
            q.add(1).write_volatile(section);
            q.add(2).write_volatile(seed);
            q.add(3).write_volatile(idx);
            q.write_volatile(active as u64);
        }
    }
}

#[derive(Default)]
struct Beat {
    active: AtomicBool,
    /// index into Run.names
    section: AtomicU64,
    seed: AtomicU64,
    idx: AtomicU64,
    tid: AtomicU64,
}

#[derive(Default, Clone)]
pub struct SectionReport {
    pub name: String,
    pub cases: u64,
    pub planned: u64,
    pub secs: f64,
    pub stopped: bool,
}

pub struct Run {
    pub cfg: Cfg,
    slots: Slots,
    beats: Vec<Beat>,
    names: Mutex<Vec<String>>,
    distinct: Vec<Mutex<HashSet<u64>>>,
    reports: Mutex<Vec<SectionReport>>,
    counters: Mutex<BTreeMap<String, u64>>,
    maxima: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    pub vio: Mutex<Vec<(String, u64, u64, String)>>,
    harness: Mutex<Vec<String>>,
    known: Mutex<Vec<String>>,
    start: Instant,
    replayed: AtomicU64,
    evals: AtomicU64,
}

pub struct Case<'a> {
    pub run: &'a Run,
    pub rng: Rng,
    pub idx: u64,
    counters: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, u64>,
    evals: u64,
}

impl<'a> Case<'a> {
    /// for threads a case starts itself; what it counts is not reported
    pub fn detached(run: &'a Run, seed: u64) -> Case<'a> {
        Case { run, rng: Rng::new(seed), idx: 1 << 40, counters: BTreeMap::new(), maxima: BTreeMap::new(), evals: 0 }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_default();
        *e = (*e).max(n)
    }
    /// one evaluation of the oracle on a non-trivial input identified by `h`
    pub fn seen(&mut self, h: u64) {
        self.evals += 1;
        let s = &self.run.distinct[(h >> 58) as usize];
        let mut s = s.lock().unwrap();
        if s.len() < 200_000 {
            s.insert(h);
        }
    }
    pub fn seen_bytes(&mut self, b: &[u8]) {
        let h = hash_bytes(b);
        self.seen(h)
    }
    /// evaluations of the oracle that are not entered into the distinct set
    pub fn evals(&mut self, n: u64) {
        self.evals += n
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx < 3 || (self.idx < 2000 && self.idx % 400 == 7) {
            let s = f();
            let mut v = self.run.samples.lock().unwrap();
            if v.len() < 60 {
                v.push(refmodel::clip(&s, 500));
            }
        }
    }
    pub fn thorough(&self) -> bool {
        self.run.cfg.tier == Tier::Thorough
    }
}

impl Run {
    pub fn new(cfg: Cfg) -> std::io::Result<Run> {
        std::fs::create_dir_all(&cfg.dir)?;
        let slots = Slots::open(&cfg.dir.join(format!("{}.slots", cfg.prop)))?;
        Ok(Run {
            slots,
            beats: (0..SLOTS).map(|_| Beat::default()).collect(),
            names: Mutex::new(vec![]),
            distinct: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            reports: Mutex::new(vec![]),
            counters: Mutex::default(),
            maxima: Mutex::default(),
            samples: Mutex::default(),
            vio: Mutex::default(),
            harness: Mutex::default(),
            known: Mutex::default(),
            start: Instant::now(),
            replayed: AtomicU64::new(0),
            evals: AtomicU64::new(0),
            cfg,
        })
    }
    pub fn thorough(&self) -> bool {
        self.cfg.tier == Tier::Thorough
    }
    /// quick or thorough amount, scaled
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough() { thorough } else { quick };
        ((n as f64 * self.cfg.scale) as u64).max(1)
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.to_string()).or_default() += n
    }
    pub fn known(&self, line: String) {
        let mut k = self.known.lock().unwrap();
        if !k.contains(&line) {
            k.push(line)
        }
    }
    pub fn violation(&self, section: &str, seed: u64, idx: u64, msg: String) {
        self.vio.lock().unwrap().push((section.to_string(), seed, idx, msg))
    }
    pub fn harness_error(&self, msg: String) {
        self.harness.lock().unwrap().push(msg)
    }
    fn bad(&self) -> bool {
        self.vio.lock().unwrap().len() >= 4 || self.harness.lock().unwrap().len() >= 4
    }

    /// Runs `n` cases of `f` on the workers. Each case gets its own generator, derived from the
    /// run's seed, the section and the case's number, so that it can be replayed alone.
    pub fn section(&self, name: &str, n: u64, f: impl Fn(&mut Case) -> R + Sync) {
        self.section_limited(name, n, if self.thorough() { 400.0 } else { 40.0 }, f)
    }

    pub fn section_limited(&self, name: &str, n: u64, secs: f64, f: impl Fn(&mut Case) -> R + Sync) {
        let sec_hash = hash_bytes(format!("{}/{}", self.cfg.prop, name).as_bytes());
        let sec_id = {
            let mut names = self.names.lock().unwrap();
            names.push(name.to_string());
            // for whoever reads the slots after a crash
            let _ = std::fs::write(self.cfg.dir.join(format!("{}.sections", self.cfg.prop)), names.join("\n"));
            names.len() as u64 - 1
        };
        if let Some(rp) = &self.cfg.replay {
            if rp.section != name {
                return;
            }
            self.replayed.fetch_add(1, SeqCst);
        } else if self.bad() {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stopped = AtomicBool::new(false);
        let workers = if self.cfg.replay.is_some() { 1 } else { self.cfg.workers };
        let base = mix(self.cfg.seed, sec_hash);
        std::thread::scope(|sc| {
            for w in 0..workers {
                let (f, next, done, stopped) = (&f, &next, &done, &stopped);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .name(format!("w{}", w))
                    .spawn_scoped(sc, move || {
                        let beat = &self.beats[w];
                        beat.tid.store(unsafe { libc::gettid() } as u64, SeqCst);
                        let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let mut maxima: BTreeMap<&'static str, u64> = BTreeMap::new();
                        loop {
                            let (idx, seed) = match &self.cfg.replay {
                                Some(rp) => {
                                    if next.fetch_add(1, SeqCst) > 0 {
                                        break;
                                    }
                                    (rp.idx, rp.seed)
                                }
                                None => {
                                    let i = next.fetch_add(1, SeqCst);
                                    if i >= n || self.bad() {
                                        break;
                                    }
                                    if t0.elapsed().as_secs_f64() > secs {
                                        stopped.store(true, SeqCst);
                                        break;
                                    }
                                    (i, mix(base, i))
                                }
                            };
                            self.slots.set(w, true, sec_id, seed, idx);
                            beat.section.store(sec_id, SeqCst);
                            beat.seed.store(seed, SeqCst);
                            beat.idx.store(idx, SeqCst);
                            beat.active.store(true, SeqCst);
                            let mut case = Case {
                                run: self,
                                rng: Rng::new(seed),
                                idx,
                                counters: std::mem::take(&mut counters),
                                maxima: std::mem::take(&mut maxima),
                                evals: 0,
                            };
                            let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
                            CAP.with(|c| c.set(isize::MAX));
                            counters = std::mem::take(&mut case.counters);
                            maxima = std::mem::take(&mut case.maxima);
                            self.evals.fetch_add(case.evals, SeqCst);
                            beat.active.store(false, SeqCst);
                            self.slots.set(w, false, sec_id, seed, idx);
                            done.fetch_add(1, SeqCst);
                            let r = match r {
                                Ok(r) => r,
                                Err(_) => Err(classify("unguarded")),
                            };
                            match r {
                                Ok(()) => {}
                                Err(Broken::Vio(m)) => self.violation(name, seed, idx, m),
                                Err(Broken::Harness(m)) => {
                                    self.harness_error(format!("{}/{}/{:#x}: {}", name, idx, seed, m))
                                }
                            }
                        }
                        {
                            let mut c = self.counters.lock().unwrap();
                            for (k, v) in counters {
                                *c.entry(k.to_string()).or_default() += v
                            }
                        }
                        let mut c = self.maxima.lock().unwrap();
                        for (k, v) in maxima {
                            let e = c.entry(k.to_string()).or_default();
                            *e = (*e).max(v)
                        }
                    })
                    .expect("spawn");
            }
        });
        self.reports.lock().unwrap().push(SectionReport {
            name: name.to_string(),
            cases: done.load(SeqCst),
            planned: n,
            secs: t0.elapsed().as_secs_f64(),
            stopped: stopped.load(SeqCst),
        });
    }

    /// Watches the workers: a case that burns CPU far beyond its cost, or blocks for good.
    pub fn watchdog(&'static self) {
        std::thread::spawn(move || {
            // (seed, idx, cpu at first sight, cpu at last progress, time of last progress)
            let mut st: Vec<Option<(u64, u64, f64, f64, Instant)>> = vec![None; SLOTS];
            loop {
                std::thread::sleep(Duration::from_millis(1000));
                for (w, b) in self.beats.iter().enumerate() {
                    if !b.active.load(SeqCst) {
                        st[w] = None;
                        continue;
                    }
                    let key = (b.seed.load(SeqCst), b.idx.load(SeqCst));
                    let cpu = match thread_cpu(b.tid.load(SeqCst)) {
                        Some(c) => c,
                        None => continue,
                    };
                    match &mut st[w] {
                        Some((s, i, c0, last, when)) if (*s, *i) == key => {
                            if cpu - *last > 0.02 || !asleep(b.tid.load(SeqCst)) {
                                *last = cpu;
                                *when = Instant::now();
                            }
                            let spin = cpu - *c0 > if self.cfg.tier == Tier::Quick { 60.0 } else { 300.0 };
                            let stuck = when.elapsed() > Duration::from_secs(60);
                            if spin || stuck {
                                let name = self.names.lock().unwrap()[b.section.load(SeqCst) as usize].clone();
                                let msg = if spin {
                                    format!("operation does not end: {:.0} s of CPU on one case", cpu - *c0)
                                } else {
                                    "operation blocked for good: thread asleep without any CPU use for 60 s".to_string()
                                };
                                self.violation(&name, key.0, key.1, msg);
                                let code = self.finish();
                                unsafe { libc::_exit(code) }
                            }
                        }
                        s => *s = Some((key.0, key.1, cpu, cpu, Instant::now())),
                    }
                }
            }
        });
    }

    pub fn finish(&self) -> i32 {
        let vio = self.vio.lock().unwrap();
        let harness = self.harness.lock().unwrap();
        for l in self.known.lock().unwrap().iter() {
            println!("{}", l);
        }
        let replays = self.cfg.dir.join("replays");
        let _ = std::fs::create_dir_all(&replays);
        for (section, seed, idx, msg) in vio.iter() {
            let p = replays.join(format!("{}-{}-{:x}.json", self.cfg.prop, section, seed));
            let text = format!(
                "{{\"property\":{},\"section\":{},\"case_seed\":{},\"idx\":{},\"tier\":{},\"what\":{},\"replay_cmd\":{}}}\n",
                js(&self.cfg.prop),
                js(section),
                js(&format!("{:#x}", seed)),
                idx,
                js(if self.thorough() { "thorough" } else { "quick" }),
                js(msg),
                js(&format!("python3 /verif/run_check.py --replay {}", p.display())),
            );
            let _ = std::fs::write(&p, text);
            println!("{}", msg.replace('\n', " "));
            println!("VIOLATION property={} replay={}", self.cfg.prop, p.display());
        }
        if let Some(ev) = &self.cfg.evidence {
            self.write_evidence(ev, vio.len());
        }
        for m in harness.iter() {
            eprintln!("HARNESS ERROR: {}", m);
        }
        if !vio.is_empty() {
            return 1;
        }
        if !harness.is_empty() {
            return 3;
        }
        if self.cfg.replay.is_some() {
            if self.replayed.load(SeqCst) == 0 {
                eprintln!("no such section");
                return 3;
            }
            return 0;
        }
        let rs = self.reports.lock().unwrap();
        for r in rs.iter() {
            if r.stopped && r.cases * 20 < r.planned {
                eprintln!("INCONCLUSIVE: section {} did {} of {} cases", r.name, r.cases, r.planned);
                return 4;
            }
        }
        if self.evals.load(SeqCst) == 0 {
            eprintln!("INCONCLUSIVE: the monitors observed nothing");
            return 4;
        }
        0
    }

    fn write_evidence(&self, path: &std::path::Path, violations: usize) {
        let distinct: usize = self.distinct.iter().map(|s| s.lock().unwrap().len()).sum();
        let meta = crate::checks::meta(&self.cfg.prop);
        let reports = self.reports.lock().unwrap();
        let sections: Vec<String> = reports
            .iter()
            .map(|r| {
                format!(
                    "{{\"name\":{},\"cases\":{},\"planned\":{},\"seconds\":{:.2},\"stopped_by_time\":{}}}",
                    js(&r.name),
                    r.cases,
                    r.planned,
                    r.secs,
                    r.stopped
                )
            })
            .collect();
        let obj = |m: &BTreeMap<String, u64>| {
            m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
        };
        let s = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"sections\":[{}],\"observed\":{{{}}},\"maxima\":{{{}}},\"known_findings\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
            js(&self.cfg.prop),
            js(if self.thorough() { "thorough" } else { "quick" }),
            self.cfg.seed,
            js(meta.level),
            self.evals.load(SeqCst),
            distinct,
            js(meta.rule),
            self.samples.lock().unwrap().iter().take(40).map(|s| js(s)).collect::<Vec<_>>().join(","),
            sections.join(","),
            obj(&self.counters.lock().unwrap()),
            obj(&self.maxima.lock().unwrap()),
            self.known.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            meta.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            self.start.elapsed().as_secs_f64(),
            violations
        );
        if let Some(d) = path.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        if let Err(e) = std::fs::write(path, s) {
            eprintln!("cannot write evidence: {}", e);
        }
    }

    /// Runs `dlhnmon probe <name> <args>` in a child; returns how it ended.
    pub fn probe(&self, args: &[&str], secs: u64) -> ProbeEnd {
        let mut c = match std::process::Command::new(&self.cfg.exe)
            .arg("probe")
            .args(args)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(e) => return ProbeEnd::Error(e.to_string()),
        };
        let t = Instant::now();
        loop {
            match c.try_wait() {
                Ok(Some(s)) => {
                    use std::os::unix::process::ExitStatusExt;
                    return match (s.code(), s.signal()) {
                        (Some(n), _) => ProbeEnd::Code(n),
                        (_, Some(n)) => ProbeEnd::Signal(n),
                        _ => ProbeEnd::Error("?".into()),
                    };
                }
                Ok(None) => {
                    if t.elapsed() > Duration::from_secs(secs) {
                        let _ = c.kill();
                        let _ = c.wait();
                        return ProbeEnd::Timeout;
                    }
                    std::thread::sleep(Duration::from_millis(5));
                }
                Err(e) => return ProbeEnd::Error(e.to_string()),
            }
        }
    }
}

#[derive(Debug, PartialEq)]
pub enum ProbeEnd {
    Code(i32),
    Signal(i32),
    Timeout,
    Error(String),
}

/// CPU seconds of a thread of this process, from /proc (safe when the thread has just ended).
fn thread_cpu(tid: u64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 1..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

fn asleep(tid: u64) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)) {
        Ok(s) => match s.rfind(')') {
            Some(i) => s[i + 1..].trim_start().starts_with('S'),
            None => false,
        },
        Err(_) => false,
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
