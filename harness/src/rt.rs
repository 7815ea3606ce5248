//! Runtime: PRNG, case runner, panic capture, allocation monitor, supervisor, evidence.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocation monitor
/// Wraps the system allocator: counts live/peak/max single request per thread and refuses
/// requests past a hard cap (the refusal aborts the worker; the supervisor reports the case).
pub struct Monitor;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static MAXREQ: Cell<usize> = const { Cell::new(0) };
    static NALLOC: Cell<u64> = const { Cell::new(0) };
}
pub static HARD_CAP: AtomicUsize = AtomicUsize::new(2 << 30);
pub static REFUSED: AtomicUsize = AtomicUsize::new(0);

fn on_alloc(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = MAXREQ.try_with(|m| {
        if n > m.get() {
            m.set(n)
        }
    });
    let _ = NALLOC.try_with(|m| m.set(m.get() + 1));
}
fn on_free(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}
fn refused(n: usize) -> bool {
    let cap = HARD_CAP.load(Ordering::Relaxed);
    let live = LIVE.try_with(|l| l.get()).unwrap_or(0).max(0) as usize;
    if n > cap || live + n > cap {
        REFUSED.store(n, Ordering::Relaxed);
        true
    } else {
        false
    }
}
unsafe impl GlobalAlloc for Monitor {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        on_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && refused(n - l.size()) {
            return std::ptr::null_mut();
        }
        on_free(l.size());
        on_alloc(n);
        System.realloc(p, l, n)
    }
}
#[derive(Debug, Clone, Copy)]
pub struct AllocUse {
    /// peak of live bytes above the level at the start
    pub peak: usize,
    /// largest single request
    pub max_request: usize,
}
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, AllocUse) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    MAXREQ.with(|p| p.set(0));
    let r = f();
    let peak = PEAK.with(|p| p.get()) - base;
    (
        r,
        AllocUse {
            peak: peak.max(0) as usize,
            max_request: MAXREQ.with(|p| p.get()),
        },
    )
}

// ---------------------------------------------------------------- PRNG
#[derive(Clone, Debug)]
pub struct Rng(u64, u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let a = mix(seed);
        Rng(a, mix(a ^ 0x1234567))
    }
    pub fn u64(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        mix(r)
    }
    pub fn u32(&mut self) -> u32 {
        self.u64() as u32
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % (n.max(1) as u64)) as usize
    }
    /// inclusive range
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// small sizes with a long tail
    pub fn size(&mut self, max: usize) -> usize {
        let m = match self.below(10) {
            0 => 0,
            1 => 1,
            2..=5 => 16.min(max),
            6..=8 => 150.min(max),
            _ => max,
        };
        self.range(0, m.min(max))
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(x));
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

// ---------------------------------------------------------------- failures
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Fail>;
pub fn failure(sig: impl Into<String>, msg: impl Into<String>) -> Fail {
    Fail {
        sig: sig.into(),
        msg: msg.into(),
    }
}
#[macro_export]
macro_rules! fail {
    ($sig:expr, $($a:tt)*) => { return Err($crate::rt::failure($sig, format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return Err($crate::rt::failure($sig, format!($($a)*))) } };
}
/// Unwraps a library result that the property says must be Ok.
pub fn must<T, E: std::fmt::Debug>(r: Result<T, E>, what: &str) -> R<T> {
    r.map_err(|e| failure(format!("unexpected-error:{what}"), format!("{what} failed: {e:?}")))
}

thread_local! { static LAST_PANIC: RefCell<Option<(String,String)>> = const { RefCell::new(None) }; }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("HARNESS_TRACE").is_ok() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}
fn norm(s: &str) -> String {
    let mut o = String::new();
    let mut last = false;
    for c in s.chars().take(120) {
        if c.is_ascii_digit() {
            if !last {
                o.push('#');
            }
            last = true
        } else {
            o.push(if c.is_whitespace() { '_' } else { c });
            last = false
        }
    }
    o
}
/// Runs `f`; a panic becomes a Fail. `what` names the operation under observation.
pub fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("?".into(), "?".into()));
            let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(&loc);
            let file = file.rsplit_once("/src/").map(|x| x.1).unwrap_or(file);
            Err(failure(
                format!("panic:{what}:{file}:{}", norm(&msg)),
                format!("{what} panicked at {loc}: {msg}"),
            ))
        }
    }
}

// ---------------------------------------------------------------- cases
#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: BTreeMap<String, String>,
    /// failures recorded by `Case::soft` in the current case
    pub soft: Vec<Fail>,
}
pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    pub st: &'a mut Stats,
    pub family: &'static str,
    pub verbose: bool,
}
impl<'a> Case<'a> {
    pub fn eval(&mut self) {
        self.st.evals += 1;
    }
    /// Records a failure and lets the case go on (used where one case observes many operations).
    pub fn soft<T>(&mut self, r: R<T>) -> Option<T> {
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                if !self.st.soft.iter().any(|f| f.sig == e.sig) {
                    self.st.soft.push(e);
                }
                None
            }
        }
    }
    pub fn evals(&mut self, n: usize) {
        self.st.evals += n as u64;
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.st.counters.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.st.counters.insert(k.to_string(), n);
            }
        }
    }
    /// The largest `n` met, of all cases and processes
    pub fn most(&mut self, k: &str, n: usize) {
        let v = self.st.counters.entry(format!("most:{k}")).or_insert(0);
        *v = (*v).max(n as u64);
    }
    /// Registers the (hashed) observable state of this case as one distinct situation.
    pub fn distinct(&mut self, h: u64) {
        if self.st.distinct.len() < 400_000 {
            self.st.distinct.insert(mix(h ^ hash_str(self.family)));
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.verbose {
            println!("case: {}", s());
        } else if !self.st.samples.contains_key(self.family) && self.idx >= 3 {
            let mut v = s();
            if v.len() > 400 {
                let mut k = 400;
                while !v.is_char_boundary(k) {
                    k -= 1
                }
                v.truncate(k);
            }
            self.st.samples.insert(self.family.to_string(), v);
        }
    }
}
pub struct Family {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Case) -> R,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: Vec<Family>,
}

fn case_seed(seed: u64, fam: &str, idx: u64) -> u64 {
    mix(mix(seed) ^ hash_str(fam)) ^ mix(idx.wrapping_mul(0x9e37))
}
pub fn run_case(fam: &Family, seed: u64, idx: u64, thorough: bool, st: &mut Stats, verbose: bool) -> Vec<Fail> {
    st.soft.clear();
    let mut c = Case {
        rng: Rng::new(case_seed(seed, fam.name, idx)),
        idx,
        thorough,
        st,
        family: fam.name,
        verbose,
    };
    c.st.cases += 1;
    let key = format!("cases:{}", fam.name);
    c.count(&key);
    let r = guarded(fam.name, || (fam.f)(&mut c));
    let mut fails = std::mem::take(&mut st.soft);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) | Err(e) => fails.push(e),
    }
    fails
}

// ---------------------------------------------------------------- worker
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug)]
pub struct Viol {
    pub family: String,
    pub idx: u64,
    pub sig: String,
    pub msg: String,
}
#[derive(serde::Serialize, serde::Deserialize, Default)]
pub struct ShardOut {
    pub evals: u64,
    pub cases: u64,
    pub distinct: Vec<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: BTreeMap<String, String>,
    pub viols: Vec<Viol>,
    pub viol_total: u64,
    pub truncated: bool,
    pub done: bool,
}
const MAX_VIOL_KINDS: usize = 60;

/// Global case ordering: round robin over families so that a truncated run still touches all of them.
fn schedule(p: &Prop, thorough: bool) -> Vec<(usize, u64)> {
    // percentage of the cases, for mutation campaigns
    let scale: u64 = std::env::var("HARNESS_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(100);
    let n = |f: &Family| ((if thorough { f.thorough } else { f.quick }) * scale / 100).max(1);
    let mut v: Vec<(u64, usize, u64)> = vec![];
    for (fi, f) in p.families.iter().enumerate() {
        let k = n(f);
        for i in 0..k {
            // spread uniformly on [0, 1e9)
            v.push((i * 1_000_000_000 / k.max(1), fi, i));
        }
    }
    v.sort();
    v.into_iter().map(|(_, f, i)| (f, i)).collect()
}

pub struct WorkerArgs {
    pub shard: usize,
    pub nshards: usize,
    pub start: usize,
    pub out: String,
    pub progress: String,
    pub seed: u64,
    pub thorough: bool,
    pub budget_s: u64,
}
pub fn worker(p: &Prop, a: &WorkerArgs) {
    install_hook();
    let sched = schedule(p, a.thorough);
    let t0 = Instant::now();
    let mut prog = std::fs::OpenOptions::new()
        .create(true)
        .truncate(false)
        .write(true)
        .open(&a.progress)
        .unwrap();
    let mut st = Stats::default();
    let mut out = ShardOut::default();
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut pos = a.start;
    let mut last_flush = Instant::now();
    while pos < sched.len() {
        if pos % a.nshards != a.shard {
            pos += 1;
            continue;
        }
        if t0.elapsed() > Duration::from_secs(a.budget_s) {
            out.truncated = true;
            break;
        }
        let (fi, idx) = sched[pos];
        let fam = &p.families[fi];
        prog.seek(SeekFrom::Start(0)).unwrap();
        prog.write_all(format!("{:>12} {:>6} {:>12}\n", pos, fi, idx).as_bytes()).unwrap();
        for e in run_case(fam, a.seed, idx, a.thorough, &mut st, false) {
            out.viol_total += 1;
            let k = kinds.entry(e.sig.clone()).or_insert(0);
            *k += 1;
            if *k <= 1 && out.viols.len() < MAX_VIOL_KINDS {
                let mut m = e.msg.clone();
                if m.len() > 3000 {
                    let mut k = 3000;
                    while !m.is_char_boundary(k) {
                        k -= 1
                    }
                    m.truncate(k);
                }
                out.viols.push(Viol {
                    family: fam.name.into(),
                    idx,
                    sig: e.sig,
                    msg: m,
                });
                flush(&mut out, &st, a, &kinds);
                last_flush = Instant::now();
            }
        }
        if last_flush.elapsed() > Duration::from_secs(10) {
            flush(&mut out, &st, a, &kinds);
            last_flush = Instant::now();
        }
        pos += 1;
    }
    out.done = true;
    flush(&mut out, &st, a, &kinds);
}
fn flush(out: &mut ShardOut, st: &Stats, a: &WorkerArgs, kinds: &BTreeMap<String, u64>) {
    out.evals = st.evals;
    out.cases = st.cases;
    out.distinct = st.distinct.iter().copied().collect();
    out.counters = st.counters.clone();
    for (k, v) in kinds {
        out.counters.insert(format!("fail:{k}"), *v);
    }
    out.samples = st.samples.clone();
    let tmp = format!("{}.tmp", a.out);
    let mut f = std::fs::File::create(&tmp).unwrap();
    f.write_all(&serde_json::to_vec(out).unwrap()).unwrap();
    drop(f);
    std::fs::rename(&tmp, &a.out).unwrap();
}

// ---------------------------------------------------------------- supervisor
#[derive(Debug, Clone)]
pub struct Known {
    pub prop: String,
    pub sig: String,
    pub desc: String,
}
pub fn load_known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            // known: property=<id> sig=<sig> <description>
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut it = r.splitn(3, ' ');
                let prop = it.next().unwrap_or("").to_string();
                let sig = it.next().unwrap_or("").trim_start_matches("sig=").to_string();
                let desc = it.next().unwrap_or("").to_string();
                v.push(Known { prop, sig, desc });
            }
        }
    }
    v
}

struct Child {
    proc: std::process::Child,
    shard: usize,
    out: String,
    progress: String,
    last: String,
    cpu_at_change: f64,
    gen: usize,
    /// observations in a row of all threads sleeping and nothing advancing
    asleep: usize,
    cpu: f64,
}
fn cpu_seconds(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let r = s.rsplit_once(')')?.1;
    let f: Vec<&str> = r.split_whitespace().collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}
const ASLEEP: usize = 1500;
/// whether no thread of the process runs, is about to run or waits for a device
fn all_asleep(pid: u32) -> bool {
    let Ok(d) = std::fs::read_dir(format!("/proc/{pid}/task")) else { return false };
    let mut n = 0;
    for t in d.flatten() {
        let s = read_file(&t.path().join("stat").to_string_lossy());
        match s.rsplit_once(')').map(|x| x.1.trim_start().starts_with('S')) {
            Some(true) => n += 1,
            _ => return false,
        }
    }
    n > 0
}
fn read_file(p: &str) -> String {
    let mut s = String::new();
    if let Ok(mut f) = std::fs::File::open(p) {
        let _ = f.read_to_string(&mut s);
    }
    s
}

pub struct RunCfg {
    pub root: String,
    pub seed: u64,
    pub thorough: bool,
    pub jobs: usize,
}
/// returns the exit code
pub fn supervise(p: &Prop, cfg: &RunCfg) -> i32 {
    let t0 = Instant::now();
    let tier = if cfg.thorough { "thorough" } else { "quick" };
    let san = std::env::var("HARNESS_SANITIZER").ok();
    let budget_s: u64 = std::env::var("HARNESS_BUDGET_S")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(if cfg.thorough { 3000 } else { 240 });
    // a single case normally takes milliseconds; this is CPU time of the worker, not wall time
    let hang_cpu_s = if cfg.thorough { 120.0 } else { 40.0 };
    let tmp = format!("{}/evidence/tmp-{}-{}", cfg.root, p.id, std::process::id());
    let _ = std::fs::remove_dir_all(&tmp);
    std::fs::create_dir_all(&tmp).unwrap();
    let exe = std::env::current_exe().unwrap();
    let sched = schedule(p, cfg.thorough);
    let spawn = |shard: usize, start: usize, gen: usize| -> Child {
        let out = format!("{tmp}/s{shard}-{gen}.json");
        let progress = format!("{tmp}/s{shard}-{gen}.prog");
        let errf = std::fs::File::create(format!("{tmp}/s{shard}-{gen}.err")).unwrap();
        let left = budget_s.saturating_sub(t0.elapsed().as_secs()).max(1);
        let proc = std::process::Command::new(&exe)
            .args([
                "worker",
                p.id,
                &shard.to_string(),
                &cfg.jobs.to_string(),
                &start.to_string(),
                &out,
                &progress,
                &cfg.seed.to_string(),
                tier,
                &left.to_string(),
            ])
            .stdout(std::process::Stdio::null())
            .stderr(errf)
            .spawn()
            .unwrap();
        Child { proc, shard, out, progress, last: String::new(), cpu_at_change: 0.0, gen, asleep: 0, cpu: 0.0 }
    };
    let mut children: Vec<Child> = (0..cfg.jobs).map(|s| spawn(s, 0, 0)).collect();
    let mut outs: Vec<String> = vec![];
    let mut viols: Vec<Viol> = vec![];
    let mut crashes = 0usize;
    let mut errors: Vec<String> = vec![];
    while !children.is_empty() {
        std::thread::sleep(Duration::from_millis(30));
        let mut next: Vec<Child> = vec![];
        for mut c in children.drain(..) {
            let status = c.proc.try_wait().unwrap();
            let mut dead: Option<(String, String)> = None;
            match status {
                None => {
                    let cur = read_file(&c.progress);
                    let cpu = cpu_seconds(c.proc.id()).unwrap_or(0.0);
                    if cur == c.last && cpu == c.cpu && !c.last.is_empty() && all_asleep(c.proc.id()) {
                        c.asleep += 1;
                    } else {
                        c.asleep = 0;
                    }
                    c.cpu = cpu;
                    if c.asleep > ASLEEP {
                        let _ = c.proc.kill();
                        let _ = c.proc.wait();
                        dead = Some(("deadlock".into(), format!("all threads slept for {ASLEEP} observations in a row within one case")));
                    } else if cur != c.last {
                        c.last = cur;
                        c.cpu_at_change = cpu;
                    } else if cpu - c.cpu_at_change > hang_cpu_s && !c.last.is_empty() {
                        let _ = c.proc.kill();
                        let _ = c.proc.wait();
                        dead = Some((
                            "no-termination".into(),
                            format!("one case consumed more than {hang_cpu_s} s of CPU time without finishing"),
                        ));
                    }
                    if t0.elapsed().as_secs() > budget_s + 120 {
                        let _ = c.proc.kill();
                        let _ = c.proc.wait();
                        errors.push(format!("shard {} did not stop at the wall-clock budget", c.shard));
                        outs.push(c.out.clone());
                        continue;
                    }
                }
                Some(s) => {
                    if !s.success() {
                        use std::os::unix::process::ExitStatusExt;
                        let err = read_file(&c.out.replace(".json", ".err"));
                        let err: String = err.chars().take(1500).collect();
                        if s.signal() == Some(9) {
                            errors.push(format!("shard {} was killed from outside", c.shard));
                            outs.push(c.out.clone());
                            continue;
                        }
                        let kind = if err.contains("Sanitizer") {
                            "sanitizer"
                        } else if err.contains("overflowed its stack") {
                            "stack-overflow"
                        } else if err.contains("memory allocation of") {
                            "memory-exhaustion"
                        } else {
                            "crash"
                        };
                        dead = Some((kind.into(), format!("worker died: {s}; stderr: {err}")));
                    } else {
                        outs.push(c.out.clone());
                        continue;
                    }
                }
            }
            if let Some((kind, msg)) = dead {
                crashes += 1;
                outs.push(c.out.clone());
                let pr = read_file(&c.progress);
                let f: Vec<usize> = pr.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                if f.len() == 3 {
                    let fam = p.families[f[1]].name;
                    viols.push(Viol {
                        family: fam.into(),
                        idx: f[2] as u64,
                        sig: format!("{kind}:{fam}"),
                        msg,
                    });
                    if crashes <= 24 && f[0] + 1 < sched.len() {
                        next.push(spawn(c.shard, f[0] + 1, c.gen + 1));
                    }
                } else {
                    errors.push(format!("worker died before its first case: {msg}"));
                }
            } else {
                next.push(c);
            }
        }
        children = next;
    }
    // merge
    let mut tot = ShardOut::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    for o in &outs {
        if let Ok(b) = std::fs::read(o) {
            if let Ok(s) = serde_json::from_slice::<ShardOut>(&b) {
                tot.evals += s.evals;
                tot.cases += s.cases;
                distinct.extend(s.distinct);
                for (k, v) in s.counters {
                    let most = k.starts_with("most:");
                    let t = tot.counters.entry(k).or_insert(0);
                    *t = if most { v.max(*t) } else { *t + v };
                }
                for (k, v) in s.samples {
                    tot.samples.entry(k).or_insert(v);
                }
                tot.truncated |= s.truncated;
                viols.extend(s.viols);
            }
        }
    }
    if std::env::var("HARNESS_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(&tmp);
    }
    viols.sort_by(|a, b| (&a.sig, &a.family, a.idx).cmp(&(&b.sig, &b.family, b.idx)));
    viols.dedup_by(|a, b| a.sig == b.sig);
    let known: Vec<Known> = load_known(&format!("{}/known-findings.txt", cfg.root))
        .into_iter()
        .filter(|k| k.prop == p.id)
        .collect();
    let mut new_viols = vec![];
    let mut seen_known: HashSet<String> = HashSet::new();
    for v in &viols {
        if known.iter().any(|k| k.sig == v.sig) {
            seen_known.insert(v.sig.clone());
        } else {
            new_viols.push(v.clone());
        }
    }
    for k in &known {
        if seen_known.contains(&k.sig) {
            println!("KNOWN-FINDING: property={} {} [{}]", p.id, k.desc, k.sig);
        } else {
            println!("note: listed finding not observed in this run: property={} [{}]", p.id, k.sig);
        }
    }
    let rdir = format!("{}/evidence/replay", cfg.root);
    let _ = std::fs::create_dir_all(&rdir);
    let mut lines = vec![];
    for (i, v) in new_viols.iter().enumerate() {
        let path = format!("{rdir}/{}-{}{}-{}.json", p.id, san.as_deref().unwrap_or(""), tier, i);
        let _ = std::fs::write(
            &path,
            serde_json::to_string_pretty(&serde_json::json!({
                "property": p.id, "family": v.family, "idx": v.idx, "seed": cfg.seed,
                "thorough": cfg.thorough, "signature": v.sig, "message": v.msg, "sanitizer": san,
                "replay_command": format!("./check.sh replay {path}"),
            }))
            .unwrap(),
        );
        if i < 20 {
            println!("  [{}#{}] {}: {}", v.family, v.idx, v.sig, v.msg.chars().take(700).collect::<String>());
            lines.push(format!("VIOLATION property={} replay={}", p.id, path));
        }
    }
    for l in &lines {
        println!("{l}");
    }
    let expected = sched.len() as u64;
    // what the same workload gave in the build with a sanitizer, when it ran before
    let sdir = format!("{}/evidence/sanitizer", cfg.root);
    let mut sanitized = serde_json::Value::Null;
    if san.is_none() {
        if let Ok(b) = std::fs::read(format!("{sdir}/{}.json", p.id)) {
            sanitized = serde_json::from_slice(&b).unwrap_or_default();
            let _ = std::fs::remove_file(format!("{sdir}/{}.json", p.id));
        }
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": tier,
        "seed": cfg.seed,
        "level": crate::level_of(p.id),
        "coverage": {
            "evaluations": tot.cases,
            "oracle_comparisons": tot.evals,
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule,
            "samples": tot.samples.iter().map(|(k,v)| format!("{k}: {v}")).collect::<Vec<_>>(),
            "cases_planned": expected,
            "stopped_at_time_budget": tot.truncated,
            "observed": tot.counters,
            "sanitizer_run": sanitized,
        },
        "violations": new_viols.len(),
        "known_findings_seen": seen_known.len(),
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64()*1000.0).round()/1000.0,
    });
    if let Some(k) = &san {
        std::fs::create_dir_all(&sdir).unwrap();
        let x = serde_json::json!({
            "sanitizer": k, "cases": tot.cases, "oracle_comparisons": tot.evals, "reports": crashes,
            "observed": tot.counters, "wall_s": t0.elapsed().as_secs(),
        });
        std::fs::write(format!("{sdir}/{}.json", p.id), serde_json::to_string_pretty(&x).unwrap()).unwrap();
    } else {
        let epath = format!("{}/evidence/{}.json", cfg.root, p.id);
        std::fs::create_dir_all(format!("{}/evidence", cfg.root)).unwrap();
        std::fs::write(&epath, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    println!(
        "{}{} {tier} seed={}: {} cases of {expected}, {} oracle evaluations, {} distinct situations, {} violations, {} known, {:.1}s",
        p.id, san.map(|k| format!(" ({k} sanitizer)")).unwrap_or_default(), cfg.seed, tot.cases, tot.evals, distinct.len(), new_viols.len(), seen_known.len(), t0.elapsed().as_secs_f64()
    );
    if !new_viols.is_empty() {
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("inconclusive: {e}");
        }
        return 3;
    }
    if tot.cases * 5 < expected || tot.evals == 0 || distinct.len() < 10 {
        eprintln!("inconclusive: too little was observed ({} of {expected} cases)", tot.cases);
        return 3;
    }
    0
}
