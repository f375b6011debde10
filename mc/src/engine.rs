//! Stateless exhaustive explorer.
//!
//! A *model* is a nondeterministic program `Fn(&mut Ch)`: every nondeterministic decision goes
//! through `Ch::pick` (or `Ch::dev`, a deviation from the default answer, bounded per execution).
//! The engine enumerates every choice sequence depth-first, in parallel over disjoint subtrees,
//! and runs the real code on each. One execution is identified by its choice sequence, which is
//! what a replay artefact stores.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const EXIT_HANG: i32 = 70;
pub const EXIT_MEM: i32 = 71;
/// No progress on one execution for this long: suspected hang (confirmed separately on CPU time).
pub const HANG_WALL: Duration = Duration::from_secs(10);
/// CPU seconds one single execution gets when it is confirmed in isolation.
pub const CONFIRM_CPU: u64 = 5;
/// Bytes one execution may hold on to.
pub const MEM_CAP: i64 = 1 << 29;
pub const STACK: usize = 8 << 20;

// ---------------------------------------------------------------- allocator
pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        note(l.size() as i64, l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64, n);
        std::alloc::System.realloc(p, l, n)
    }
}
fn note(d: i64, n: usize) {
    let _ = LIVE.try_with(|c| {
        c.set(c.get() + d);
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        let _ = BYTES.try_with(|a| a.set(a.get() + n as u64));
        if c.get() > MEM_CAP && ARMED.with(|a| a.get()) {
            unsafe { libc::_exit(EXIT_MEM) }
        }
    });
}
/// Allocator calls made by this thread so far: a deterministic proxy for work done.
pub fn allocs() -> u64 {
    ALLOCS.with(|a| a.get())
}

/// Bytes this thread asked the allocator for so far, a block that is moved counted again.
pub fn bytes() -> u64 {
    BYTES.with(|a| a.get())
}

// ---------------------------------------------------------------- tally
#[derive(Default, Clone)]
pub struct Tally {
    pub executions: u64,
    pub transitions: u64,
    pub distinct: u64,
    pub validated: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}
impl Tally {
    pub fn merge(&mut self, o: Tally) {
        self.executions += o.executions;
        self.transitions += o.transitions;
        self.distinct += o.distinct;
        self.validated += o.validated;
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s)
            }
        }
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub case: String,
    pub msg: String,
}

// ---------------------------------------------------------------- choices
/// Source of nondeterminism for one execution.
pub struct Ch<'a> {
    prefix: &'a [u8],
    pub trail: Vec<(u8, u8)>,
    dev_left: usize,
    pub dry: bool,
    /// the generated case is outside of the model: `begin` refuses it
    pub skip: bool,
    pub case: String,
    known: Option<&'a HashSet<String>>,
    pub known_hit: Option<String>,
    pub states: Option<&'a StateSet>,
    pub want_case: bool,
    pub tally: Tally,
}
impl<'a> Ch<'a> {
    fn new(prefix: &'a [u8], devs: usize) -> Self {
        Ch {
            prefix,
            trail: Vec::with_capacity(32),
            dev_left: devs,
            dry: false,
            skip: false,
            case: String::new(),
            known: None,
            known_hit: None,
            states: None,
            want_case: false,
            tally: Tally::default(),
        }
    }
    /// One of `n` alternatives, all of them explored.
    #[inline]
    pub fn pick(&mut self, n: usize) -> usize {
        debug_assert!(n >= 1 && n <= 60000);
        if n > 255 {
            let hi = self.pick(n.div_ceil(250));
            return hi * 250 + self.pick(250.min(n - hi * 250));
        }
        if n == 1 {
            return 0;
        }
        let i = self.trail.len();
        let c = if i < self.prefix.len() {
            let c = self.prefix[i];
            assert!((c as usize) < n, "explorer: divergence while replaying a prefix");
            c
        } else {
            0
        };
        self.trail.push((c, n as u8));
        c as usize
    }
    /// As `pick`, but alternatives other than 0 are deviations, bounded per execution.
    #[inline]
    pub fn dev(&mut self, n: usize) -> usize {
        if self.dev_left == 0 {
            return 0;
        }
        let c = self.pick(n);
        if c != 0 {
            self.dev_left -= 1;
        }
        c
    }
    pub fn devs_left(&self) -> usize {
        self.dev_left
    }
    pub fn flip(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn of<'t, T>(&mut self, v: &'t [T]) -> &'t T {
        let i = self.pick(v.len());
        &v[i]
    }
    /// Declare the concrete case before the code under test runs on it. `false`: do not run it
    /// (describing only, or the case is a listed known finding).
    pub fn begin(&mut self, f: impl FnOnce() -> String) -> bool {
        if self.skip {
            return false;
        }
        if self.dry || self.want_case || self.known.is_some() {
            self.case = f();
        }
        if let Some(k) = self.known {
            if k.contains(&self.case) {
                self.known_hit = Some(self.case.clone());
                return false;
            }
        }
        !self.dry
    }
    pub fn outcome(&mut self, s: &'static str) {
        *self.tally.outcomes.entry(s).or_default() += 1;
    }
    /// Record the canonical hash of a model state.
    pub fn state(&mut self, h: u64) -> bool {
        match self.states {
            Some(s) => s.insert(h),
            None => false,
        }
    }
}

pub struct StateSet {
    shards: Vec<Mutex<HashSet<u64>>>,
    n: AtomicU64,
    pub cap: u64,
}
impl StateSet {
    pub fn new(cap: u64) -> Self {
        StateSet {
            shards: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            n: AtomicU64::new(0),
            cap,
        }
    }
    pub fn insert(&self, h: u64) -> bool {
        if self.n.load(Relaxed) >= self.cap {
            return false;
        }
        let new = self.shards[(h >> 58) as usize].lock().unwrap().insert(h);
        if new {
            self.n.fetch_add(1, Relaxed);
        }
        new
    }
    pub fn len(&self) -> u64 {
        self.n.load(Relaxed)
    }
}

pub fn hash_of<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub type Model = Box<dyn Fn(&mut Ch) -> Result<(), String> + Send + Sync>;
pub struct Space {
    pub name: String,
    /// what is enumerated and within which bounds
    pub what: String,
    pub devs: usize,
    pub model: Model,
}
impl Space {
    pub fn new(
        name: impl Into<String>,
        what: impl Into<String>,
        model: impl Fn(&mut Ch) -> Result<(), String> + Send + Sync + 'static,
    ) -> Self {
        Space { name: name.into(), what: what.into(), devs: 0, model: Box::new(model) }
    }
    pub fn devs(mut self, d: usize) -> Self {
        self.devs = d;
        self
    }
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("panic at {l}: {m}"));
    }));
}
/// Run code under test; a panic becomes an `Err`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

/// Execute one choice sequence.
pub fn execute<'a>(
    sp: &Space,
    prefix: &'a [u8],
    known: Option<&'a HashSet<String>>,
    states: Option<&'a StateSet>,
    dry: bool,
    want_case: bool,
) -> (Ch<'a>, Result<(), String>) {
    let mut ch = Ch::new(prefix, sp.devs);
    ch.known = known;
    ch.states = states;
    ch.dry = dry;
    ch.want_case = want_case;
    LIVE.with(|l| l.set(0));
    ARMED.with(|a| a.set(true));
    let r = match guard(|| (sp.model)(&mut ch)) {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    ARMED.with(|a| a.set(false));
    (ch, r)
}

// ---------------------------------------------------------------- slots (survive the process)
pub const SLOT: usize = 512;
pub const NSLOT: usize = 64;
pub struct Slots {
    p: *mut u8,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    pub fn open(path: &str) -> Slots {
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("slot file");
        f.set_len((SLOT * NSLOT) as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT * NSLOT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slots { p: p as *mut u8 }
    }
    fn at(&self, i: usize) -> *mut u8 {
        unsafe { self.p.add(i * SLOT) }
    }
    /// layout: [0]=active, [1..3]=space, [3..5]=len, [5..]=choices
    fn set(&self, i: usize, space: usize, seq: &[u8]) {
        let n = seq.len().min(SLOT - 8);
        unsafe {
            let s = self.at(i);
            s.write_volatile(0);
            std::ptr::copy_nonoverlapping((space as u16).to_le_bytes().as_ptr(), s.add(1), 2);
            std::ptr::copy_nonoverlapping((n as u16).to_le_bytes().as_ptr(), s.add(3), 2);
            std::ptr::copy_nonoverlapping(seq.as_ptr(), s.add(5), n);
            s.write_volatile(1);
        }
    }
    fn clear(&self, i: usize) {
        unsafe { self.at(i).write_volatile(0) }
    }
    pub fn active(&self) -> Vec<(usize, Vec<u8>)> {
        let mut v = vec![];
        for i in 0..NSLOT {
            unsafe {
                let s = std::slice::from_raw_parts(self.at(i), SLOT);
                if s[0] == 1 {
                    let sp = u16::from_le_bytes([s[1], s[2]]) as usize;
                    let n = u16::from_le_bytes([s[3], s[4]]) as usize;
                    v.push((sp, s[5..5 + n].to_vec()));
                }
            }
        }
        v
    }
}

// ---------------------------------------------------------------- exploration
pub struct Report {
    pub per_space: Vec<(String, String, Tally, f64, bool)>,
    pub states: u64,
    pub capped: bool,
    pub fails: Vec<(usize, Vec<u8>, Fail)>,
    pub known_hits: Vec<String>,
}

fn next(trail: &mut Vec<(u8, u8)>, floor: usize) -> Option<usize> {
    while trail.len() > floor {
        let i = trail.len() - 1;
        if trail[i].0 + 1 < trail[i].1 {
            trail[i].0 += 1;
            return Some(i);
        }
        trail.pop();
    }
    None
}

pub const MAX_FAILS: usize = 25;

pub fn explore(
    spaces: &[Space],
    known: &HashSet<String>,
    slots: &Slots,
    wall: Duration,
    threads: usize,
) -> Report {
    let t0 = Instant::now();
    let states = StateSet::new(60_000_000);
    let known_opt = if known.is_empty() { None } else { Some(known) };
    let fails: Mutex<Vec<(usize, Vec<u8>, Fail)>> = Mutex::new(vec![]);
    let known_hits: Mutex<Vec<String>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let mut per_space = vec![];
    let beats: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let busy: Vec<AtomicBool> = (0..threads).map(|_| AtomicBool::new(false)).collect();
    let done = AtomicBool::new(false);
    std::thread::scope(|sc| {
        // watchdog
        sc.spawn(|| {
            let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); threads];
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                for i in 0..threads {
                    let b = beats[i].load(Relaxed);
                    if b != last[i].0 || !busy[i].load(Relaxed) {
                        last[i] = (b, Instant::now());
                    } else if last[i].1.elapsed() > HANG_WALL {
                        unsafe { libc::_exit(EXIT_HANG) }
                    }
                }
                if t0.elapsed() > wall && !stop.load(Relaxed) {
                    capped.store(true, Relaxed);
                    stop.store(true, Relaxed);
                }
            }
        });
        for (si, sp) in spaces.iter().enumerate() {
            let ts = Instant::now();
            if stop.load(Relaxed) {
                break;
            }
            // split the choice tree into disjoint subtrees
            let mut items: std::collections::VecDeque<Vec<u8>> = [vec![]].into();
            let mut leaves: Vec<Vec<u8>> = vec![];
            let mut split_edges = 0u64;
            let mut guard_n = 0;
            while items.len() + leaves.len() < threads * 48 && guard_n < 20000 {
                guard_n += 1;
                let Some(p) = items.pop_front() else { break };
                let (ch, _) = execute(sp, &p, None, None, true, false);
                if ch.trail.len() <= p.len() {
                    leaves.push(p);
                    continue;
                }
                let n = ch.trail[p.len()].1;
                for i in 0..n {
                    let mut q = p.clone();
                    q.push(i);
                    items.push_back(q);
                    split_edges += 1;
                }
            }
            leaves.extend(items);
            leaves.sort();
            let idx = AtomicUsize::new(0);
            let total: Mutex<Tally> = Mutex::new(Tally { transitions: split_edges, ..Default::default() });
            std::thread::scope(|s2| {
                for t in 0..threads {
                    let (leaves, idx, total, fails, stop, beats, busy, states, known_hits) =
                        (&leaves, &idx, &total, &fails, &stop, &beats, &busy, &states, &known_hits);
                    std::thread::Builder::new()
                        .name(format!("w{t}"))
                        .stack_size(STACK)
                        .spawn_scoped(s2, move || {
                            let mut tally = Tally::default();
                            busy[t].store(true, Relaxed);
                            'items: loop {
                                let k = idx.fetch_add(1, Relaxed);
                                if k >= leaves.len() || stop.load(Relaxed) {
                                    break;
                                }
                                let floor = leaves[k].len();
                                let mut seq: Vec<u8> = leaves[k].clone();
                                let mut from = floor;
                                let mut local = 0u64;
                                loop {
                                    local += 1;
                                    slots.set(t, si, &seq);
                                    beats[t].fetch_add(1, Relaxed);
                                    let first = (local == 61 || local == 1) && k % 29 == 7 && tally.samples.len() < 6;
                                    let (mut ch, r) =
                                        execute(sp, &seq, known_opt, Some(states), false, first);
                                    tally.executions += 1;
                                    tally.transitions += (ch.trail.len() - from) as u64;
                                    let mut tl = std::mem::take(&mut ch.tally);
                                    if first && !ch.case.is_empty() {
                                        tl.samples.push(ch.case.clone());
                                    }
                                    tally.merge(tl);
                                    if let Some(kh) = ch.known_hit.take() {
                                        known_hits.lock().unwrap().push(kh);
                                    }
                                    let mut trail = std::mem::take(&mut ch.trail);
                                    drop(ch);
                                    if let Err(msg) = r {
                                        let full: Vec<u8> = trail.iter().map(|c| c.0).collect();
                                        let (ch2, _) = execute(sp, &full, None, None, true, true);
                                        let mut f = fails.lock().unwrap();
                                        f.push((si, full.clone(), Fail { case: ch2.case, msg }));
                                        if f.len() >= MAX_FAILS {
                                            stop.store(true, Relaxed);
                                        }
                                    }
                                    if stop.load(Relaxed) {
                                        break 'items;
                                    }
                                    match next(&mut trail, floor) {
                                        Some(i) => {
                                            from = i;
                                            seq.clear();
                                            seq.extend(trail.iter().map(|c| c.0));
                                        }
                                        None => break,
                                    }
                                }
                            }
                            slots.clear(t);
                            busy[t].store(false, Relaxed);
                            total.lock().unwrap().merge(tally);
                        })
                        .unwrap();
                }
            });
            let t = total.into_inner().unwrap();
            per_space.push((
                sp.name.clone(),
                sp.what.clone(),
                t,
                ts.elapsed().as_secs_f64(),
                !stop.load(Relaxed),
            ));
        }
        done.store(true, Relaxed);
    });
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| (f.0, f.1.len(), f.1.clone()));
    let mut known_hits = known_hits.into_inner().unwrap();
    known_hits.sort();
    known_hits.dedup();
    Report { per_space, states: states.len(), capped: capped.load(Relaxed), fails, known_hits }
}

pub fn flush() {
    let _ = std::io::stdout().flush();
}
