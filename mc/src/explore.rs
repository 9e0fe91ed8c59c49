//! The explorers: breadth-first search over operation histories, and enumeration of a grid of points.
use crate::alloc;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// One operation: kind, store, small operand, two large operands.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
#[repr(C)]
pub struct Op {
    pub k: u8,
    pub s: u8,
    pub c: u16,
    pub a: u32,
    pub b: u32,
}

pub trait System: Sync {
    type Run;
    fn start(&self) -> Result<Self::Run, String>;
    fn enabled(&self, run: &Self::Run, out: &mut Vec<Op>);
    /// Performs `op` on the implementation and on the model; Err: the implementation's answer is wrong.
    fn step(&self, run: &mut Self::Run, op: Op) -> Result<(), String>;
    fn key(&self, run: &Self::Run) -> u128;
    /// The property, on the state reached.
    fn check(&self, run: &mut Self::Run) -> Result<(), String>;
    /// Drops everything.
    fn finish(&self, run: Self::Run) -> Result<(), String>;
    fn show(&self, op: Op) -> String;
    /// Whether leftovers after `finish` are violations.
    fn leaks_matter(&self) -> bool {
        false
    }
    fn strict_memory(&self) -> bool {
        false
    }
}

pub fn threads() -> usize {
    std::env::var("ECSMC_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(8)
}

// ------------------------------------------------------------------ panics

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        alloc::track(false);
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("ECSMC_VERBOSE").is_some() {
            eprintln!("[panic] {m} at {at}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} ({at})"));
    }));
}

/// Runs `f`, which calls into the library; Err carries the panic message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            alloc::track(false);
            drop(p);
            Err(LAST_PANIC.with(|p| p.borrow().clone()))
        }
    }
}

// ------------------------------------------------------------------ history in flight

#[repr(C)]
pub struct Flight {
    pub busy: AtomicU32,
    pub n: AtomicU32,
    pub since_ms: AtomicU64,
    pub point: AtomicU64,
    pub ops: [std::cell::UnsafeCell<Op>; 80],
}

#[repr(C)]
pub struct Shared {
    pub magic: AtomicU64,
    pub crash_slot: AtomicI32,
    pub signal: AtomicI32,
    pub scene: AtomicU32,
    pub _pad: AtomicU32,
    pub flights: [Flight; alloc::MAX_ARENAS],
}
unsafe impl Sync for Shared {}

static SHARED: std::sync::atomic::AtomicPtr<Shared> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn _exit(code: i32) -> !;
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

extern "C" fn on_signal(sig: i32) {
    if let Some(s) = shared() {
        s.signal.store(sig, SeqCst);
        s.crash_slot.store(SLOT.with(|s| s.get()) as i32, SeqCst);
    }
    unsafe { _exit(98) }
}

pub fn shared() -> Option<&'static Shared> {
    let p = SHARED.load(Relaxed);
    (!p.is_null()).then(|| unsafe { &*p })
}

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// Crash handlers, shared flight recorder, stuck-history monitor.
pub fn install_supervision(path: &str, stuck: Duration) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    let len = std::mem::size_of::<Shared>();
    f.set_len(len as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    let p = p as *mut Shared;
    unsafe {
        (*p).crash_slot.store(-1, SeqCst);
        (*p).magic.store(0xEC5, SeqCst);
    }
    SHARED.store(p, SeqCst);
    for sig in [4, 6, 7, 8, 11] {
        let a = SigAction { handler: on_signal as *const () as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
        unsafe { sigaction(sig, &a, std::ptr::null_mut()) };
    }
    now_ms();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = shared().unwrap();
        for (i, f) in s.flights.iter().enumerate() {
            if f.busy.load(SeqCst) != 0 {
                let t = f.since_ms.load(SeqCst);
                if now_ms().saturating_sub(t) > stuck.as_millis() as u64 && f.busy.load(SeqCst) != 0 && f.since_ms.load(SeqCst) == t {
                    s.signal.store(0, SeqCst);
                    s.crash_slot.store(i as i32, SeqCst);
                    unsafe { _exit(97) }
                }
            }
        }
    });
}

fn takeoff_point(slot: usize, point: u64) {
    if let Some(s) = shared() {
        let f = &s.flights[slot];
        f.n.store(u32::MAX, Relaxed);
        f.point.store(point, Relaxed);
        f.since_ms.store(now_ms(), Relaxed);
        f.busy.store(1, Release);
    }
}

fn takeoff(slot: usize, ops: &[Op], last: Option<Op>) {
    if let Some(s) = shared() {
        let f = &s.flights[slot];
        let mut n = 0;
        for o in ops.iter().copied().chain(last) {
            if n < 80 {
                unsafe { *f.ops[n].get() = o };
                n += 1;
            }
        }
        f.n.store(n as u32, Relaxed);
        f.since_ms.store(now_ms(), Relaxed);
        f.busy.store(1, Release);
    }
}

fn landed(slot: usize) {
    if let Some(s) = shared() {
        s.flights[slot].busy.store(0, Release);
    }
}

pub fn enter_thread(slot: usize) {
    alloc::init_arena(slot);
    SLOT.with(|s| s.set(slot));
}

// ------------------------------------------------------------------ results

#[derive(Clone, Debug)]
pub struct Violation {
    pub ops: Vec<Op>,
    pub point: Option<u64>,
    pub what: String,
}

#[derive(Default, Debug)]
pub struct Outcome {
    pub states: u64,
    pub transitions: u64,
    pub histories: u64,
    pub depth: usize,
    pub complete: bool,
    pub violation: Option<Violation>,
    pub samples: Vec<String>,
    pub wall: f64,
}

#[derive(Default)]
struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u128(&mut self, v: u128) {
        self.0 = (v >> 64) as u64 ^ v as u64
    }
}
type Keys = HashSet<u128, BuildHasherDefault<Ident>>;

pub struct Limits {
    pub depth: usize,
    pub wall: Duration,
    pub states: u64,
}

/// One execution of a history from the start. Ok(Some(run)) leaves the run open.
pub fn execute<S: System>(sys: &S, ops: &[Op]) -> Result<S::Run, String> {
    alloc::arena().strict = sys.strict_memory();
    let mut run = sys.start()?;
    for o in ops {
        if let Err(e) = sys.step(&mut run, *o) {
            abandon(sys, run);
            return Err(e);
        }
    }
    Ok(run)
}

/// Throws a run away without judging how.
pub fn abandon<S: System>(sys: &S, run: S::Run) {
    let _ = sys.finish(run);
    alloc::arena().end_history();
}

/// Ends a run and judges leaks: what is left behind by the same history for the third time is no cache.
pub fn close<S: System>(sys: &S, run: S::Run, ops: &[Op]) -> Result<(), String> {
    let r = sys.finish(run);
    let left = alloc::arena().leftovers();
    let err = alloc::arena().error.map(|e| (e, alloc::arena().error_size));
    alloc::arena().end_history();
    r?;
    if !sys.leaks_matter() {
        return Ok(());
    }
    if let Some((e, n)) = err {
        return Err(format!("{e} ({n} bytes)"));
    }
    if left.0 == 0 {
        return Ok(());
    }
    let mut left = left;
    for _ in 0..2 {
        let run = execute(sys, ops)?;
        let r = sys.finish(run);
        left = alloc::arena().leftovers();
        alloc::arena().end_history();
        r?;
        if left.0 == 0 {
            return Ok(());
        }
    }
    Err(format!("{} blocks ({} bytes) are never given back", left.0, left.1))
}

/// Executes a history and everything that is checked along it (used for replays and shrinking).
pub fn judge<S: System>(sys: &S, ops: &[Op]) -> Result<(), String> {
    let mut run = execute(sys, ops)?;
    if let Err(e) = sys.check(&mut run) {
        abandon(sys, run);
        return Err(e);
    }
    close(sys, run, ops)
}

pub fn bfs<S: System>(sys: &S, lim: &Limits) -> Outcome {
    let t0 = Instant::now();
    let nt = threads();
    let shards: Vec<Mutex<Keys>> = (0..256).map(|_| Mutex::new(Keys::default())).collect();
    let states = AtomicU64::new(0);
    let transitions = AtomicU64::new(0);
    let histories = AtomicU64::new(0);
    let found: Mutex<Option<Violation>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    // (parent, op); node 0 is the root
    let mut nodes: Vec<(u32, Op)> = vec![(0, Op::default())];
    let mut level = 0..1usize;
    let mut depth = 0;
    let report = |ops: Vec<Op>, what: String| {
        let mut f = found.lock().unwrap();
        if f.as_ref().map_or(true, |v| v.ops.len() > ops.len()) {
            *f = Some(Violation { ops, point: None, what });
        }
        stop.store(true, Relaxed);
    };
    // the root state itself
    std::thread::scope(|s| {
        s.spawn(|| {
            enter_thread(0);
            takeoff(0, &[], None);
            match execute(sys, &[]) {
                Err(e) => report(vec![], e),
                Ok(mut run) => {
                    let k = sys.key(&run);
                    shards[(k & 255) as usize].lock().unwrap().insert(k);
                    states.fetch_add(1, Relaxed);
                    histories.fetch_add(1, Relaxed);
                    match sys.check(&mut run) {
                        Err(e) => {
                            abandon(sys, run);
                            report(vec![], e)
                        }
                        Ok(()) => {
                            if let Err(e) = close(sys, run, &[]) {
                                report(vec![], e)
                            }
                        }
                    }
                }
            }
            landed(0);
        });
    });
    while depth < lim.depth && !stop.load(Relaxed) && !level.is_empty() {
        let cursor = AtomicUsize::new(level.start);
        let fresh: Vec<Vec<(u32, Op)>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..nt)
                .map(|slot| {
                    let (nodes, level, cursor, shards) = (&nodes, &level, &cursor, &shards);
                    let (states, transitions, histories) = (&states, &transitions, &histories);
                    let (stop, capped, report, t0) = (&stop, &capped, &report, &t0);
                    s.spawn(move || {
                        enter_thread(slot);
                        let mut out: Vec<(u32, Op)> = Vec::new();
                        let mut ops: Vec<Op> = Vec::new();
                        let mut enabled: Vec<Op> = Vec::new();
                        loop {
                            let n = cursor.fetch_add(1, Relaxed);
                            if n >= level.end || stop.load(Relaxed) {
                                break;
                            }
                            if t0.elapsed() > lim.wall || states.load(Relaxed) > lim.states {
                                capped.store(true, Relaxed);
                                stop.store(true, Relaxed);
                                break;
                            }
                            ops.clear();
                            let mut i = n;
                            while i != 0 {
                                ops.push(nodes[i].1);
                                i = nodes[i].0 as usize;
                            }
                            ops.reverse();
                            let mut open: Option<S::Run> = None;
                            enabled.clear();
                            takeoff(slot, &ops, None);
                            match execute(sys, &ops) {
                                Ok(run) => {
                                    sys.enabled(&run, &mut enabled);
                                    open = Some(run);
                                }
                                // passed before: the implementation is not deterministic
                                Err(e) => report(ops.clone(), format!("{e} (not on an earlier execution of the same history)")),
                            }
                            landed(slot);
                            for op in &enabled {
                                takeoff(slot, &ops, Some(*op));
                                let run = match open.take() {
                                    Some(r) => Ok(r),
                                    None => execute(sys, &ops),
                                };
                                histories.fetch_add(1, Relaxed);
                                transitions.fetch_add(1, Relaxed);
                                let full = || {
                                    let mut v = ops.clone();
                                    v.push(*op);
                                    v
                                };
                                match run {
                                    Err(e) => report(ops.clone(), format!("{e} (not on an earlier execution of the same history)")),
                                    Ok(mut run) => match sys.step(&mut run, *op) {
                                        Err(e) => {
                                            abandon(sys, run);
                                            report(full(), e)
                                        }
                                        Ok(()) => {
                                            let k = sys.key(&run);
                                            if shards[(k & 255) as usize].lock().unwrap().insert(k) {
                                                states.fetch_add(1, Relaxed);
                                                match sys.check(&mut run) {
                                                    Err(e) => {
                                                        abandon(sys, run);
                                                        report(full(), e)
                                                    }
                                                    Ok(()) => {
                                                        if let Err(e) = close(sys, run, &full()) {
                                                            report(full(), e)
                                                        } else {
                                                            out.push((n as u32, *op));
                                                        }
                                                    }
                                                }
                                            } else {
                                                abandon(sys, run)
                                            }
                                        }
                                    },
                                }
                                landed(slot);
                                if stop.load(Relaxed) {
                                    break;
                                }
                            }
                            if let Some(run) = open {
                                abandon(sys, run)
                            }
                        }
                        out
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        if stop.load(Relaxed) {
            break;
        }
        let start = nodes.len();
        for f in fresh {
            nodes.extend(f);
        }
        level = start..nodes.len();
        depth += 1;
    }
    let path = |mut i: usize| {
        let mut v = Vec::new();
        while i != 0 {
            v.push(sys.show(nodes[i].1));
            i = nodes[i].0 as usize;
        }
        v.reverse();
        v.join("; ")
    };
    let mut samples = Vec::new();
    if nodes.len() > 1 {
        for i in [nodes.len() / 3, nodes.len() * 2 / 3, nodes.len() - 1] {
            samples.push(path(i.max(1)));
        }
    }
    let violation = found.into_inner().unwrap();
    Outcome {
        states: states.into_inner(),
        transitions: transitions.into_inner(),
        histories: histories.into_inner(),
        depth,
        complete: !capped.into_inner() && violation.is_none(),
        violation,
        samples,
        wall: t0.elapsed().as_secs_f64(),
    }
}

/// What executing one grid point covered.
#[derive(Default)]
pub struct PointDone {
    pub states: u64,
    pub transitions: u64,
}

/// A finite grid of histories or inputs; every point is executed.
pub trait Grid: Sync {
    fn points(&self) -> u64;
    fn run(&self, point: u64) -> Result<PointDone, String>;
    fn show(&self, point: u64) -> String;
    /// Whether what is left after a point, and misuse of memory in it, are violations.
    fn leaks_matter(&self) -> bool {
        false
    }
}

/// One grid point, with everything that is judged about it.
pub fn run_point<G: Grid + ?Sized>(g: &G, i: u64) -> Result<PointDone, String> {
    let mut left = (0, 0);
    for _ in 0..3 {
        alloc::arena().strict = true;
        let r = guarded(|| g.run(i)).unwrap_or_else(|p| Err(format!("a panic: {p}")));
        alloc::track(false);
        let swept = alloc::arena().sweep();
        let err = alloc::arena().error.map(|e| format!("{e} ({} bytes)", alloc::arena().error_size));
        left = alloc::arena().leftovers();
        alloc::arena().end_history();
        let d = r?;
        if !g.leaks_matter() {
            return Ok(d);
        }
        swept?;
        if let Some(e) = err {
            return Err(e);
        }
        if left.0 == 0 {
            return Ok(d);
        }
        // a cache is filled once, a leak every time
    }
    Err(format!("{} blocks ({} bytes) are never given back", left.0, left.1))
}

pub fn grid(g: &dyn Grid, wall: Duration) -> Outcome {
    let t0 = Instant::now();
    let n = g.points();
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let states = AtomicU64::new(0);
    let transitions = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let found: Mutex<Option<Violation>> = Mutex::new(None);
    std::thread::scope(|s| {
        for slot in 0..threads() {
            let (next, done, states, transitions, stop, capped, found, t0) =
                (&next, &done, &states, &transitions, &stop, &capped, &found, &t0);
            s.spawn(move || {
                enter_thread(slot);
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n || stop.load(Relaxed) {
                        break;
                    }
                    if t0.elapsed() > wall {
                        capped.store(true, Relaxed);
                        break;
                    }
                    takeoff_point(slot, i);
                    let r = run_point(g, i);
                    landed(slot);
                    match r {
                        Ok(d) => {
                            done.fetch_add(1, Relaxed);
                            states.fetch_add(d.states, Relaxed);
                            transitions.fetch_add(d.transitions, Relaxed);
                        }
                        Err(what) => {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map_or(true, |v| v.point.unwrap() > i) {
                                *f = Some(Violation { ops: vec![], point: Some(i), what });
                            }
                            stop.store(true, Relaxed);
                        }
                    }
                }
            });
        }
    });
    let violation = found.into_inner().unwrap();
    let samples = if n > 0 { [0, n / 2, n - 1].iter().map(|i| g.show(*i)).collect() } else { vec![] };
    Outcome {
        states: states.into_inner(),
        transitions: transitions.into_inner(),
        histories: done.into_inner(),
        depth: 0,
        complete: !capped.into_inner() && violation.is_none(),
        violation,
        samples,
        wall: t0.elapsed().as_secs_f64(),
    }
}

/// A job of a check.
pub trait Job {
    fn name(&self) -> String;
    fn method(&self) -> &'static str;
    fn explore(&self, wall: Duration) -> Outcome;
    /// On the calling thread.
    fn judge(&self, v: &Violation) -> Result<(), String>;
    fn describe(&self, v: &Violation) -> String;
    fn shrink(&self, _v: &mut Violation) {}
}

pub struct BfsJob<S: System> {
    pub name: String,
    pub sys: S,
    pub depth: usize,
}

impl<S: System> Job for BfsJob<S> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn method(&self) -> &'static str {
        "breadth-first search over operation histories"
    }
    fn explore(&self, wall: Duration) -> Outcome {
        bfs(&self.sys, &Limits { depth: self.depth, wall, states: 120_000_000 })
    }
    fn judge(&self, v: &Violation) -> Result<(), String> {
        judge(&self.sys, &v.ops)
    }
    fn describe(&self, v: &Violation) -> String {
        let h: Vec<String> = v.ops.iter().map(|o| self.sys.show(*o)).collect();
        format!("[{}] {}", self.name, h.join("; "))
    }
}

pub struct GridJob<G: Grid> {
    pub name: String,
    pub grid: G,
}

impl<G: Grid> Job for GridJob<G> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn method(&self) -> &'static str {
        "enumeration of a finite grid"
    }
    fn explore(&self, wall: Duration) -> Outcome {
        grid(&self.grid, wall)
    }
    fn judge(&self, v: &Violation) -> Result<(), String> {
        run_point(&self.grid, v.point.unwrap_or(0)).map(|_| ())
    }
    fn describe(&self, v: &Violation) -> String {
        format!("[{}] {}", self.name, v.point.map(|p| self.grid.show(p)).unwrap_or_default())
    }
}
