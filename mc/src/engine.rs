//! Explicit, exhaustive exploration engine.
//!
//! * `Ctx::tree`  - stateless exploration: the harness asks a `Chooser` for every nondeterministic
//!   choice; the engine enumerates *every* choice sequence (no sampling, no cap unless stated).
//! * `Ctx::range` - exhaustive enumeration of an index range (for flat, very large spaces).
//! * `Ctx::bfs`   - explicit-state breadth-first search over histories of operations, real object
//!   and reference model replayed in lockstep, states deduplicated by a canonical form.
//!
//! The exploring process is a child of a supervisor, so that aborts (stack overflow, failed
//! allocation) and hangs of the code under test are verdicts about one identified case.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- allocation meter

pub struct Meter;

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !note(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

fn note(d: i64) -> bool {
    let _ = CUR.try_with(|c| {
        let v = c.get() + d;
        c.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    // one request above the (per case) hard limit is refused: the process then aborts and the
    // supervisor attributes the abort to the running case
    d <= 0 || LIMIT.try_with(|l| (d as usize) <= l.get()).unwrap_or(true)
}

/// Runs `f` and returns its result and the peak number of bytes it had allocated at once.
pub fn metered<R>(limit: usize, f: impl FnOnce() -> R) -> (R, u64) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    LIMIT.with(|l| l.set(limit));
    let r = catch_unwind(AssertUnwindSafe(f));
    LIMIT.with(|l| l.set(usize::MAX));
    let peak = PEAK.with(|p| p.get()) - base;
    match r {
        Ok(r) => (r, peak.max(0) as u64),
        Err(e) => std::panic::resume_unwind(e),
    }
}

// ---------------------------------------------------------------- outcomes

#[derive(Debug)]
pub enum Fail {
    Violation(String),
    /// A deviation that exactly matches a *described* known defect; `key` must be listed in
    /// known_findings.txt, otherwise it is a violation like any other.
    Finding { key: &'static str, msg: String },
}
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::Violation(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail::Violation(s.to_string())
    }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Fail::Violation(format!($($a)*))); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let a = &$a; let b = &$b;
        if a != b { return Err($crate::engine::Fail::Violation(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b))); }
    }};
}

// ---------------------------------------------------------------- chooser

pub struct Chooser {
    prefix: Vec<u32>,
    pub choices: Vec<u32>,
    arities: Vec<u32>,
    desc: Vec<String>,
    outcome: u64,
    has_outcome: bool,
    want_desc: bool,
    pub ops: u64,
}

impl Chooser {
    fn new(prefix: Vec<u32>, want_desc: bool) -> Self {
        Chooser { prefix, choices: vec![], arities: vec![], desc: vec![], outcome: 0, has_outcome: false, want_desc, ops: 0 }
    }
    /// One nondeterministic choice among `n`.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "engine: empty choice");
        let i = self.choices.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            panic!("ENGINE: replay diverged: choice {} of {} at {}", c, n, i);
        }
        self.choices.push(c);
        self.arities.push(n as u32);
        slot_push(c);
        c as usize
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.pick(xs.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// Human readable description of the case (only evaluated for samples and violations).
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc.push(f());
        }
    }
    /// Records a canonical observation; distinct observations are counted as states.
    pub fn observe(&mut self, h: impl Hash) {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        self.outcome.hash(&mut s);
        h.hash(&mut s);
        self.outcome = s.finish();
        self.has_outcome = true;
    }
    pub fn op(&mut self) {
        self.ops += 1;
    }
}

// ---------------------------------------------------------------- crash slots

const SLOTS: usize = 64;
const SLOT: usize = 4096;
static SLOT_BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static FREE_SLOTS: Mutex<Vec<usize>> = Mutex::new(Vec::new());
struct MySlot(Cell<usize>);
impl Drop for MySlot {
    fn drop(&mut self) {
        if self.0.get() != usize::MAX {
            FREE_SLOTS.lock().unwrap().push(self.0.get());
        }
    }
}
thread_local! {
    static MY_SLOT: MySlot = const { MySlot(Cell::new(usize::MAX)) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn slot_ptr() -> Option<*mut u8> {
    let base = SLOT_BASE.load(Relaxed);
    if base == 0 {
        return None;
    }
    let s = MY_SLOT.with(|m| {
        if m.0.get() == usize::MAX {
            let free = FREE_SLOTS.lock().unwrap().pop();
            m.0.set(free.unwrap_or_else(|| NEXT_SLOT.fetch_add(1, SeqCst)));
        }
        m.0.get()
    });
    assert!(s < SLOTS, "engine: out of slots");
    Some((base + s * SLOT) as *mut u8)
}
// layout: u32 active, u32 nchoices, u64 start_ms, u32 harness, u32 pad, then u32 choices
fn slot_begin(harness: u32) {
    if let Some(p) = slot_ptr() {
        unsafe {
            let w = p as *mut u32;
            *w.add(1) = 0;
            *(p as *mut u64).add(1) = now_ms();
            *w.add(4) = harness;
            std::sync::atomic::fence(SeqCst);
            *w = 1;
        }
    }
}
fn slot_push(c: u32) {
    if let Some(p) = slot_ptr() {
        unsafe {
            let w = p as *mut u32;
            let n = *w.add(1) as usize;
            if n < (SLOT - 24) / 4 {
                *w.add(6 + n) = c;
                *w.add(1) = n as u32 + 1;
            }
        }
    }
}
fn slot_end() {
    if let Some(p) = slot_ptr() {
        unsafe {
            *(p as *mut u32) = 0;
        }
    }
}
fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

pub fn install_slots(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len((SLOTS * SLOT) as u64).unwrap();
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), SLOTS * SLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    SLOT_BASE.store(p as usize, SeqCst);
}

/// (harness index, choices) of every case that was active when the worker died.
pub fn read_slots(path: &str) -> Vec<(u32, Vec<u32>, u64)> {
    let d = std::fs::read(path).unwrap_or_default();
    let mut out = vec![];
    for s in d.chunks(SLOT) {
        if s.len() < SLOT {
            continue;
        }
        let u = |i: usize| u32::from_le_bytes(s[i * 4..i * 4 + 4].try_into().unwrap());
        if u(0) == 1 {
            let n = (u(1) as usize).min((SLOT - 24) / 4);
            let t = u64::from_le_bytes(s[8..16].try_into().unwrap());
            out.push((u(4), (0..n).map(|i| u(6 + i)).collect(), t));
        }
    }
    out
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} (at {})", m, l));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Calls into the code under test, turning a panic into an error message.
pub fn guarded<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Fail> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| Fail::Violation(format!("{} panicked: {}", what, last_panic())))
}

// ---------------------------------------------------------------- context

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Viol {
    pub harness: String,
    pub choices: Vec<u64>,
    pub desc: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct HStat {
    pub kind: String,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub impl_calls: u64,
    pub tree_nodes: u64,
    pub max_depth: u64,
    pub completed: bool,
    pub wall_s: f64,
    pub samples: Vec<String>,
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Report {
    pub stats: BTreeMap<String, HStat>,
    pub violations: Vec<Viol>,
    pub findings: BTreeMap<String, (u64, String)>,
    pub engine_errors: Vec<String>,
    pub bounds: Vec<String>,
}

pub enum Mode {
    Explore,
    Replay { harness: String, choices: Vec<u64> },
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub mode: Mode,
    pub threads: usize,
    pub rep: Mutex<Report>,
    pub names: Mutex<Vec<String>>,
    pub names_file: Option<String>,
    pub known: HashSet<String>,
    pub replay_out: Mutex<Option<String>>,
    pub seed: u64,
    pub only: Option<String>,
}

const MAX_VIOL: usize = 5;
const OUTCOME_CAP: usize = 4_000_000;

#[derive(Default)]
struct Local {
    states: u64,
    transitions: u64,
    traces: u64,
    calls: u64,
    max_depth: u64,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
}

impl Ctx {
    pub fn bound(&self, s: impl Into<String>) {
        self.rep.lock().unwrap().bounds.push(s.into());
    }
    fn reg(&self, kind: char, name: &str) -> u32 {
        if let Some(f) = &self.names_file {
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().append(true).create(true).open(f).unwrap();
            writeln!(f, "{}:{}", kind, name).unwrap();
        }
        let mut n = self.names.lock().unwrap();
        if let Some(i) = n.iter().position(|x| x == name) {
            panic!("engine: duplicate harness name {} ({})", name, i);
        }
        n.push(name.to_string());
        (n.len() - 1) as u32
    }
    fn skip(&self, name: &str) -> bool {
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return true;
            }
        }
        !self.rep.lock().unwrap().violations.is_empty()
    }
    /// One case, judged. Returns false if a violation was recorded.
    fn judge(&self, name: &str, choices: impl Fn() -> Vec<u64>, desc: impl Fn() -> String, r: Res, replay: impl Fn() -> Res) -> bool {
        match r {
            Ok(()) => true,
            Err(Fail::Finding { key, msg }) if self.known.contains(&format!("{}:{}", self.prop, key)) => {
                let mut rep = self.rep.lock().unwrap();
                let e = rep.findings.entry(key.to_string()).or_insert((0, msg));
                e.0 += 1;
                true
            }
            Err(f) => {
                let m = match f {
                    Fail::Violation(m) => m,
                    Fail::Finding { key, msg } => format!("[{}] {}", key, msg),
                };
                if m.contains("ENGINE:") {
                    self.rep.lock().unwrap().engine_errors.push(format!("{}: {}", name, m));
                    return false;
                }
                // the same choices must fail the same way before the failure is believed
                let again = match replay() {
                    Ok(()) => "<passed on replay>".to_string(),
                    Err(Fail::Violation(m)) => m,
                    Err(Fail::Finding { key, msg }) => format!("[{}] {}", key, msg),
                };
                let mut rep = self.rep.lock().unwrap();
                if again != m {
                    rep.engine_errors.push(format!("{}: not deterministic: {} / {}", name, m, again));
                    return false;
                }
                if rep.violations.len() < MAX_VIOL {
                    rep.violations.push(Viol { harness: name.to_string(), choices: choices(), desc: desc(), msg: m });
                }
                false
            }
        }
    }

    fn finish(&self, name: &str, kind: &str, locals: Vec<Local>, completed: bool, t: Instant) {
        let mut s = HStat { kind: kind.into(), completed, wall_s: t.elapsed().as_secs_f64(), ..Default::default() };
        let mut all: HashSet<u64> = HashSet::new();
        for l in locals {
            s.tree_nodes += l.states;
            s.transitions += if kind == "flat enumeration" { l.calls } else { l.transitions };
            s.traces += l.traces;
            s.impl_calls += l.calls;
            s.max_depth = s.max_depth.max(l.max_depth);
            if all.len() < OUTCOME_CAP {
                all.extend(l.outcomes);
            }
            for x in l.samples {
                if s.samples.len() < 3 {
                    s.samples.push(x);
                }
            }
        }
        s.states = all.len() as u64;
        self.rep.lock().unwrap().stats.insert(name.into(), s);
    }

    /// Exhaustive stateless exploration of every choice sequence of `f`.
    pub fn tree<F>(&self, name: &str, f: F)
    where
        F: Fn(&mut Chooser) -> Res + Sync,
    {
        let id = self.reg('T', name);
        if let Mode::Replay { harness, choices } = &self.mode {
            if harness == name {
                let mut ch = Chooser::new(choices.iter().map(|x| *x as u32).collect(), true);
                slot_begin(id);
                let r = run_one(&f, &mut ch);
                slot_end();
                self.set_replay(&ch.desc.join("; "), r);
            }
            return;
        }
        if self.skip(name) {
            return;
        }
        let t = Instant::now();
        let queue: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
        let idle = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let total = AtomicU64::new(0);
        let nt = self.threads;
        let locals: Vec<Local> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..nt)
                .map(|_| {
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, || {
                            let mut l = Local::default();
                            let mut stack: Vec<Vec<u32>> = vec![];
                            let mut is_idle = false;
                            loop {
                                if stop.load(Relaxed) {
                                    break;
                                }
                                if stack.is_empty() {
                                    let got = queue.lock().unwrap().pop();
                                    match got {
                                        Some(p) => {
                                            if is_idle {
                                                is_idle = false;
                                                idle.fetch_sub(1, SeqCst);
                                            }
                                            stack.push(p)
                                        }
                                        None => {
                                            if !is_idle {
                                                is_idle = true;
                                                idle.fetch_add(1, SeqCst);
                                            }
                                            if idle.load(SeqCst) == nt && queue.lock().unwrap().is_empty() {
                                                break;
                                            }
                                            std::thread::sleep(std::time::Duration::from_micros(200));
                                            continue;
                                        }
                                    }
                                }
                                if stack.len() > 1 && idle.load(Relaxed) > 0 {
                                    let mut q = queue.lock().unwrap();
                                    if q.is_empty() {
                                        let h = stack.len() / 2;
                                        q.extend(stack.drain(..h));
                                    }
                                }
                                let prefix = stack.pop().unwrap();
                                let plen = prefix.len();
                                let want = total.fetch_add(1, Relaxed) < 3;
                                let mut ch = Chooser::new(prefix, want);
                                slot_begin(id);
                                let r = run_one(&f, &mut ch);
                                slot_end();
                                l.traces += 1;
                                let fresh = ch.choices.len().saturating_sub(plen) as u64;
                                l.transitions += fresh + (plen > 0) as u64;
                                l.states += fresh + 1;
                                l.calls += ch.ops.max(1);
                                l.max_depth = l.max_depth.max(ch.choices.len() as u64);
                                if ch.has_outcome && l.outcomes.len() < OUTCOME_CAP {
                                    l.outcomes.insert(ch.outcome);
                                }
                                if want {
                                    l.samples.push(format!("{:?} {}", ch.choices, trunc(&ch.desc.join("; "), 300)));
                                }
                                let ok = r.is_ok()
                                    || self.judge(
                                        name,
                                        || ch.choices.iter().map(|x| *x as u64).collect(),
                                        || {
                                            let mut c2 = Chooser::new(ch.choices.clone(), true);
                                            let _ = run_one(&f, &mut c2);
                                            trunc(&c2.desc.join("; "), 4000)
                                        },
                                        r,
                                        || run_one(&f, &mut Chooser::new(ch.choices.clone(), false)),
                                    );
                                if !ok {
                                    stop.store(true, SeqCst);
                                    break;
                                }
                                for i in (plen..ch.choices.len()).rev() {
                                    for alt in (1..ch.arities[i]).rev() {
                                        let mut p = ch.choices[..i].to_vec();
                                        p.push(alt);
                                        stack.push(p);
                                    }
                                }
                            }
                            l
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|e| panic!("ENGINE worker thread died: {:?}", e.downcast_ref::<String>()))).collect()
        });
        self.finish(name, "choice tree", locals, !stop.load(SeqCst), t);
    }

    /// Exhaustive enumeration of indices 0..n.
    pub fn range<F>(&self, name: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Chooser) -> Res + Sync,
    {
        let id = self.reg('R', name);
        if let Mode::Replay { harness, choices } = &self.mode {
            if harness == name {
                let mut ch = Chooser::new(vec![], true);
                let i = choices[0];
                slot_begin(id);
                slot_push(i as u32);
                slot_push((i >> 32) as u32);
                let r = run_one(&|c: &mut Chooser| f(i, c), &mut ch);
                slot_end();
                self.set_replay(&ch.desc.join("; "), r);
            }
            return;
        }
        if self.skip(name) {
            return;
        }
        let t = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 1 << 16);
        let locals: Vec<Local> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..self.threads)
                .map(|_| {
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, || {
                            let mut l = Local::default();
                            'o: loop {
                                let a = next.fetch_add(chunk, SeqCst);
                                if a >= n || stop.load(Relaxed) {
                                    break;
                                }
                                for i in a..(a + chunk).min(n) {
                                    let want = i == 0 || i == n / 2 || i == n - 1;
                                    let mut ch = Chooser::new(vec![], want);
                                    slot_begin(id);
                                    slot_push(i as u32);
                                    slot_push((i >> 32) as u32);
                                    let r = run_one(&|c: &mut Chooser| f(i, c), &mut ch);
                                    slot_end();
                                    l.traces += 1;
                                    l.transitions += 1;
                                    l.states += 1;
                                    l.calls += ch.ops.max(1);
                                    l.max_depth = 1;
                                    if ch.has_outcome && l.outcomes.len() < 200_000 {
                                        l.outcomes.insert(ch.outcome);
                                    }
                                    if want {
                                        l.samples.push(format!("#{} {}", i, trunc(&ch.desc.join("; "), 300)));
                                    }
                                    let ok = r.is_ok()
                                        || self.judge(
                                            name,
                                            || vec![i],
                                            || {
                                                let mut c2 = Chooser::new(vec![], true);
                                                let _ = run_one(&|c: &mut Chooser| f(i, c), &mut c2);
                                                trunc(&c2.desc.join("; "), 4000)
                                            },
                                            r,
                                            || run_one(&|c: &mut Chooser| f(i, c), &mut Chooser::new(vec![], false)),
                                        );
                                    if !ok {
                                        stop.store(true, SeqCst);
                                        break 'o;
                                    }
                                }
                            }
                            l
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|e| panic!("ENGINE worker thread died: {:?}", e.downcast_ref::<String>()))).collect()
        });
        self.finish(name, "flat enumeration", locals, !stop.load(SeqCst), t);
    }

    /// Explicit-state breadth-first search. A state is represented by the history of operation
    /// numbers reaching it; `run` replays a whole history on fresh objects (implementation and
    /// model in lockstep, checking agreement at the last step), and returns the canonical key of
    /// the state reached together with the number of operations enabled in it.
    /// Histories are explored up to `depth` operations; equal keys are merged.
    pub fn bfs<F>(&self, name: &str, depth: usize, f: F)
    where
        F: Fn(&[u32], &mut Chooser) -> Result<(Vec<u8>, usize), Fail> + Sync,
    {
        let id = self.reg('B', name);
        let run = |h: &[u32], ch: &mut Chooser| -> Result<(Vec<u8>, usize), Fail> {
            match catch_unwind(AssertUnwindSafe(|| f(h, ch))) {
                Ok(r) => r,
                Err(_) => Err(Fail::Violation(format!("panic: {}", last_panic()))),
            }
        };
        if let Mode::Replay { harness, choices } = &self.mode {
            if harness == name {
                let h: Vec<u32> = choices.iter().map(|x| *x as u32).collect();
                let mut ch = Chooser::new(vec![], true);
                slot_begin(id);
                h.iter().for_each(|c| slot_push(*c));
                let r = run(&h, &mut ch).map(|_| ());
                slot_end();
                self.set_replay(&ch.desc.join("; "), r);
            }
            return;
        }
        if self.skip(name) {
            return;
        }
        let t = Instant::now();
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        let mut l = Local::default();
        let mut stop = false;
        let mut ch = Chooser::new(vec![], true);
        let mut frontier: Vec<(Vec<u32>, usize)> = vec![];
        match run(&[], &mut ch) {
            Ok((k, n)) => {
                seen.insert(k);
                l.states = 1;
                l.traces = 1;
                l.calls += ch.ops.max(1);
                frontier.push((vec![], n));
            }
            Err(e) => {
                stop = true;
                self.judge(name, Vec::new, || ch.desc.join("; "), Err(e), || run(&[], &mut Chooser::new(vec![], false)).map(|_| ()));
            }
        }
        for d in 1..=depth {
            if stop || frontier.is_empty() {
                break;
            }
            let work: Mutex<VecDeque<(Vec<u32>, usize)>> = Mutex::new(frontier.drain(..).collect());
            let stopf = AtomicBool::new(false);
            let outs: Vec<(Vec<(Vec<u8>, Vec<u32>, usize)>, Local)> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..self.threads)
                    .map(|_| {
                        std::thread::Builder::new()
                            .stack_size(16 << 20)
                            .spawn_scoped(sc, || {
                                let mut l = Local::default();
                                let mut out: Vec<(Vec<u8>, Vec<u32>, usize)> = vec![];
                                let mut mine: HashSet<Vec<u8>> = HashSet::new();
                                loop {
                                    if stopf.load(Relaxed) {
                                        break;
                                    }
                                    let (h, n) = match work.lock().unwrap().pop_front() {
                                        Some(x) => x,
                                        None => break,
                                    };
                                    for op in 0..n as u32 {
                                        let mut h2 = h.clone();
                                        h2.push(op);
                                        let mut ch = Chooser::new(vec![], false);
                                        slot_begin(id);
                                        h2.iter().for_each(|c| slot_push(*c));
                                        let r = run(&h2, &mut ch);
                                        slot_end();
                                        l.transitions += 1;
                                        l.traces += 1;
                                        l.calls += ch.ops.max(1);
                                        match r {
                                            Ok((k, n2)) => {
                                                if mine.insert(k.clone()) {
                                                    out.push((k, h2, n2));
                                                }
                                            }
                                            Err(e) => {
                                                let ok = self.judge(
                                                    name,
                                                    || h2.iter().map(|x| *x as u64).collect(),
                                                    || {
                                                        let mut c2 = Chooser::new(vec![], true);
                                                        let _ = run(&h2, &mut c2);
                                                        c2.desc.join("; ")
                                                    },
                                                    Err(e),
                                                    || run(&h2, &mut Chooser::new(vec![], false)).map(|_| ()),
                                                );
                                                if !ok {
                                                    stopf.store(true, SeqCst);
                                                    return (out, l);
                                                }
                                            }
                                        }
                                    }
                                }
                                (out, l)
                            })
                            .unwrap()
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|e| panic!("ENGINE worker thread died: {:?}", e.downcast_ref::<String>()))).collect()
            });
            // merge deterministically (shortest history first, then lexicographic)
            let mut all: Vec<(Vec<u8>, Vec<u32>, usize)> = vec![];
            for (o, x) in outs {
                l.transitions += x.transitions;
                l.traces += x.traces;
                l.calls += x.calls;
                all.extend(o);
            }
            all.sort_by(|a, b| a.1.cmp(&b.1));
            for (k, h, n) in all {
                if seen.insert(k) {
                    l.states += 1;
                    if l.samples.len() < 2 && d >= 2 {
                        let mut c2 = Chooser::new(vec![], true);
                        let _ = run(&h, &mut c2);
                        l.samples.push(format!("{:?} {}", h, trunc(&c2.desc.join("; "), 300)));
                    }
                    frontier.push((h, n));
                }
            }
            l.max_depth = d as u64;
            stop = stopf.load(SeqCst);
        }
        let exhausted = frontier.is_empty();
        let n = seen.len() as u64;
        if exhausted && !stop {
            self.bound(format!("{}: state space closed at depth {}", name, l.max_depth));
        }
        for k in seen {
            let mut s = std::collections::hash_map::DefaultHasher::new();
            k.hash(&mut s);
            l.outcomes.insert(s.finish());
        }
        l.states = n;
        self.finish(name, "breadth-first state search", vec![l], !stop, t);
    }

    fn set_replay(&self, desc: &str, r: Res) {
        let m = match r {
            Ok(()) => None,
            Err(Fail::Violation(m)) => Some(m),
            Err(Fail::Finding { key, msg }) => Some(format!("[{}] {}", key, msg)),
        };
        *self.replay_out.lock().unwrap() = Some(match m {
            None => format!("PASS {}", desc),
            Some(m) => format!("FAIL {} :: {}", desc, m),
        });
    }
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{}...", t)
    }
}

fn run_one<F: Fn(&mut Chooser) -> Res>(f: &F, ch: &mut Chooser) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(ch))) {
        Ok(r) => r,
        Err(_) => Err(Fail::Violation(format!("panic: {}", last_panic()))),
    }
}

/// Watchdog: if one case runs for longer than `secs`, the process exits with code 77; the
/// supervisor then replays that case alone before calling it a hang.
pub fn start_watchdog(slots: String, secs: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(1000));
        let now = now_ms();
        if read_slots(&slots).iter().any(|(_, _, t)| now.saturating_sub(*t) > secs * 1000) {
            unsafe { libc::_exit(77) }
        }
    });
}
