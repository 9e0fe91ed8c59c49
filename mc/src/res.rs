//! The resource store next to its reference model.
use crate::alloc::{self, H};
use crate::comps::t;
use crate::explore::{guarded, Grid, Op, PointDone, System};
use division_ecs::{Entity, ResourceStore};
use std::cell::RefCell;

pub mod rk {
    pub const CREATE: u8 = 1;
    pub const RELEASE: u8 = 2; // a; c: 0 dropped at once, 1 kept by the caller
    pub const MODIFY: u8 = 3;
    pub const DEAD_READ: u8 = 4;
    pub const DEAD_MODIFY: u8 = 5;
    pub const DEAD_RELEASE: u8 = 6;
    pub const MOVE: u8 = 7;
    pub const READ: u8 = 8; // a; c: 0 shared, 1 exclusive
}

pub mod ro {
    pub const VALUE: u32 = 1;
    pub const DROPS: u32 = 2;
    pub const DEAD: u32 = 4;
    pub const LEAK: u32 = 8;
    pub const KEEP: u32 = 16;
    /// the store is moved in memory now and then
    pub const MOVES: u32 = 32;
    /// all stores undergo the same, and are compared
    pub const LOCKSTEP: u32 = 64;
    /// resources are read when the history says so, and only then
    pub const LOOK: u32 = 128;
}

#[derive(Default)]
struct Ledger {
    drops: Vec<u32>,
    strange: u32,
    nameless: u32,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

fn dropped(serial: Option<u32>) {
    let t = alloc::tracking();
    alloc::track(false);
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        match serial {
            None => l.nameless += 1,
            Some(s) => match l.drops.get_mut(s as usize) {
                Some(d) => *d += 1,
                None => l.strange += 1,
            },
        }
    });
    alloc::track(t);
}

pub trait Res: Sized + 'static {
    const NAME: &'static str;
    /// whether values can be told apart
    const NAMED: bool;
    const DROPS: bool;
    fn new(serial: u32) -> Self;
    fn serial(&self) -> u32;
    fn val(&self) -> u32;
    fn bump(&mut self);
    /// what a resource of this number calls itself
    fn named(serial: u32) -> u32 {
        serial
    }
}

const MAGIC: u32 = 0xC0DE_CAFE;

pub struct Boxed {
    b: Box<[u32; 3]>,
}
impl Res for Boxed {
    const NAME: &'static str = "boxed";
    const NAMED: bool = true;
    const DROPS: bool = true;
    fn new(serial: u32) -> Self {
        Boxed { b: t!(Box::new([serial, 0, MAGIC])) }
    }
    fn serial(&self) -> u32 {
        // a bitwise copy of rubbish must not be followed
        let p = &self.b as *const Box<[u32; 3]> as *const usize;
        let a = unsafe { p.read() };
        if !alloc::arena().owns(a, 12) {
            return u32::MAX;
        }
        if self.b[2] == MAGIC { self.b[0] } else { u32::MAX }
    }
    fn val(&self) -> u32 {
        if self.serial() == u32::MAX { u32::MAX } else { self.b[1] }
    }
    fn bump(&mut self) {
        if self.serial() != u32::MAX {
            self.b[1] += 1
        }
    }
}
impl Drop for Boxed {
    fn drop(&mut self) {
        let s = self.serial();
        dropped(Some(s));
        if s == u32::MAX {
            // dropping rubbish: already counted, do not free it
            let b = std::mem::replace(&mut self.b, Box::new([0; 3]));
            std::mem::forget(b);
        }
    }
}

#[repr(align(64))]
pub struct Big {
    serial: u32,
    val: u32,
    body: [u32; 30],
}
impl Res for Big {
    const NAME: &'static str = "big";
    const NAMED: bool = true;
    const DROPS: bool = true;
    fn new(serial: u32) -> Self {
        let mut b = Big { serial, val: 0, body: [0; 30] };
        for (i, x) in b.body.iter_mut().enumerate() {
            *x = serial.wrapping_mul(7919) ^ i as u32 ^ MAGIC;
        }
        b
    }
    fn serial(&self) -> u32 {
        let ok = self.body.iter().enumerate().all(|(i, x)| *x == self.serial.wrapping_mul(7919) ^ i as u32 ^ MAGIC);
        if ok { self.serial } else { u32::MAX }
    }
    fn val(&self) -> u32 {
        self.val
    }
    fn bump(&mut self) {
        self.val += 1
    }
}
impl Drop for Big {
    fn drop(&mut self) {
        dropped(Some(self.serial()))
    }
}

#[derive(Clone, Copy)]
pub struct Plain(u16, u8);
impl Res for Plain {
    const NAME: &'static str = "plain";
    const NAMED: bool = true;
    const DROPS: bool = false;
    fn new(serial: u32) -> Self {
        Plain(serial as u16, 0)
    }
    fn serial(&self) -> u32 {
        self.0 as u32
    }
    fn val(&self) -> u32 {
        self.1 as u32
    }
    fn bump(&mut self) {
        self.1 += 1
    }
    fn named(serial: u32) -> u32 {
        serial as u16 as u32
    }
}

pub struct Empty;
impl Res for Empty {
    const NAME: &'static str = "empty";
    const NAMED: bool = false;
    const DROPS: bool = true;
    fn new(_: u32) -> Self {
        Empty
    }
    fn serial(&self) -> u32 {
        0
    }
    fn val(&self) -> u32 {
        0
    }
    fn bump(&mut self) {}
}
impl Drop for Empty {
    fn drop(&mut self) {
        dropped(None)
    }
}

#[repr(align(32))]
pub struct EmptyAligned;
impl Res for EmptyAligned {
    const NAME: &'static str = "empty-aligned";
    const NAMED: bool = false;
    const DROPS: bool = true;
    fn new(_: u32) -> Self {
        EmptyAligned
    }
    fn serial(&self) -> u32 {
        0
    }
    fn val(&self) -> u32 {
        0
    }
    fn bump(&mut self) {}
}
impl Drop for EmptyAligned {
    fn drop(&mut self) {
        dropped(None)
    }
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Live,
    Kept,
    Gone,
}

#[derive(Clone, Copy)]
struct M {
    st: St,
    val: u32,
}

pub struct RWorld<R: Res> {
    store: Option<Box<ResourceStore<R>>>,
    handles: Vec<Entity>,
    model: Vec<M>,
    kept: Vec<(usize, R)>,
}

pub struct RRun<R: Res> {
    w: Vec<RWorld<R>>,
    /// model index of each serial number
    serials: Vec<(usize, usize)>,
    moves: u8,
    /// the last read: which, and in what state
    look: u128,
}

pub struct ResSys<R: Res> {
    /// initial capacities of the stores; usize::MAX: ResourceStore::new()
    pub caps: Vec<usize>,
    pub oracles: u32,
    pub max_live: usize,
    pub prefix: Vec<Op>,
    /// what refused calls leave behind is judged by the next check, not after each
    pub batch: bool,
    pub _r: std::marker::PhantomData<fn() -> R>,
}

impl<R: Res> ResSys<R> {
    pub fn new(cap: usize, oracles: u32, max_live: usize) -> Self {
        ResSys { caps: vec![cap], oracles, max_live, prefix: vec![], batch: false, _r: Default::default() }
    }

    fn expected_drops(&self, r: &RRun<R>) -> Vec<u32> {
        r.serials.iter().map(|(s, i)| if r.w[*s].model[*i].st == St::Gone { 1 } else { 0 }).collect()
    }

    fn check_drops(&self, want: &[u32], when: &str) -> Result<(), String> {
        if !R::DROPS {
            return Ok(());
        }
        LEDGER.with(|l| {
            let l = l.borrow();
            if l.strange > 0 {
                return Err(format!("something that is no resource was dropped {when}"));
            }
            if R::NAMED {
                for (i, w) in want.iter().enumerate() {
                    if l.drops[i] != *w {
                        return Err(format!("resource r{i} was dropped {} times instead of {w} {when}", l.drops[i]));
                    }
                }
            } else {
                let w: u32 = want.iter().sum();
                if l.nameless != w {
                    return Err(format!("{} resources were dropped instead of {w} {when}", l.nameless));
                }
            }
            Ok(())
        })
    }

    fn check_values(&self, r: &RRun<R>) -> Result<(), String> {
        for (si, w) in r.w.iter().enumerate() {
            let st = w.store.as_ref().unwrap();
            let mut addrs: Vec<usize> = Vec::new();
            let mut seen: std::collections::HashMap<(u32, u32), usize> = Default::default();
            for (i, m) in w.model.iter().enumerate() {
                if m.st != St::Live {
                    continue;
                }
                let h = w.handles[i];
                if let Some(j) = seen.insert((h.id(), h.version()), i) {
                    return Err(format!("the live resources r{i} and r{j} have equal handles"));
                }
                let x: &R = guarded(|| t!(&st[h])).map_err(|p| format!("indexing the live resource r{i} panicked: {p}"))?;
                let a = x as *const R as usize;
                let size = std::mem::size_of::<R>();
                if a % std::mem::align_of::<R>() != 0 {
                    return Err(format!("the reference to resource r{i} is not aligned"));
                }
                if size > 0 {
                    if !alloc::arena().owns(a, size) {
                        return Err(format!("resource r{i} lies outside of the resource store's memory"));
                    }
                    addrs.push(a);
                }
                if R::NAMED {
                    let serial = serial_of(&r.serials, si, i);
                    if x.serial() != R::named(serial as u32) {
                        return Err(format!("the handle of resource r{i} leads to something else"));
                    }
                    if x.val() != m.val {
                        return Err(format!("resource r{i} lost a modification"));
                    }
                }
            }
            addrs.sort();
            if addrs.windows(2).any(|p| p[1] - p[0] < std::mem::size_of::<R>()) {
                return Err("two live resources share memory".into());
            }
            for (i, x) in &w.kept {
                if R::NAMED && (x.val() != w.model[*i].val) {
                    return Err(format!("the released resource r{i} changed in the caller's hands"));
                }
            }
        }
        Ok(())
    }
}

/// the running number of resource i of store si
fn serial_of(serials: &[(usize, usize)], si: usize, i: usize) -> usize {
    if serials.get(i) == Some(&(si, i)) {
        return i;
    }
    serials.iter().position(|s| *s == (si, i)).unwrap()
}

impl<R: Res> System for ResSys<R> {
    type Run = RRun<R>;

    fn start(&self) -> Result<Self::Run, String> {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.drops.clear();
            l.strange = 0;
            l.nameless = 0;
        });
        let mut w = vec![];
        for c in &self.caps {
            if self.oracles & ro::LOCKSTEP != 0 {
                alloc::arena().habitat(w.len());
            }
            let store = guarded(|| {
                t!(Box::new(if *c == usize::MAX { ResourceStore::<R>::new() } else { ResourceStore::with_capacity(*c) }))
            })
            .map_err(|e| format!("creating a resource store panicked: {e}"))?;
            w.push(RWorld { store: Some(store), handles: vec![], model: vec![], kept: vec![] });
        }
        let mut r = RRun { w, serials: vec![], moves: 0, look: 0 };
        for op in &self.prefix {
            self.step(&mut r, *op)?;
        }
        Ok(r)
    }

    fn enabled(&self, r: &Self::Run, out: &mut Vec<Op>) {
        for (si, w) in r.w.iter().enumerate() {
            let s = si as u8;
            if s > 0 && self.oracles & ro::LOCKSTEP != 0 {
                break;
            }
            if self.oracles & ro::MOVES != 0 && r.moves < 2 {
                out.push(Op { k: rk::MOVE, s, ..Op::default() });
            }
            let live = w.model.iter().filter(|m| m.st == St::Live).count();
            if live < self.max_live {
                out.push(Op { k: rk::CREATE, s, ..Op::default() });
            }
            for (i, m) in w.model.iter().enumerate() {
                let a = i as u32;
                if m.st == St::Live {
                    out.push(Op { k: rk::RELEASE, s, a, ..Op::default() });
                    if self.oracles & ro::KEEP != 0 {
                        out.push(Op { k: rk::RELEASE, s, a, c: 1, b: 0 });
                    }
                    if R::NAMED && m.val < 2 && self.oracles & (ro::VALUE | ro::LOOK) != 0 {
                        out.push(Op { k: rk::MODIFY, s, a, ..Op::default() });
                    }
                    if self.oracles & ro::LOOK != 0 {
                        out.push(Op { k: rk::READ, s, a, ..Op::default() });
                        out.push(Op { k: rk::READ, s, a, c: 1, b: 0 });
                    }
                } else if self.oracles & ro::DEAD != 0 && cfg!(debug_assertions) {
                    for k in [rk::DEAD_READ, rk::DEAD_MODIFY, rk::DEAD_RELEASE] {
                        out.push(Op { k, s, a, ..Op::default() });
                    }
                }
            }
        }
    }

    fn step(&self, r: &mut Self::Run, op: Op) -> Result<(), String> {
        let si = op.s as usize;
        let i = op.a as usize;
        if self.oracles & ro::LOCKSTEP != 0 {
            if si + 1 < r.w.len() {
                self.step(r, Op { s: op.s + 1, ..op })?;
            }
            alloc::arena().habitat(si);
        }
        let w = &mut r.w[si];
        if op.k == rk::MOVE {
            r.moves += 1;
            let old = w.store.take().unwrap();
            w.store = Some(t!(Box::new(*old)));
            return Ok(());
        }
        if op.k == rk::READ {
            r.look = 0;
            let now = self.key(r);
            let mut h = H::new();
            for x in [now as u64, (now >> 64) as u64, (op.s as u64) << 32 | op.c as u64, op.a as u64] {
                h.add(x);
            }
            r.look = h.done();
        }
        let w = &mut r.w[si];
        let st = w.store.as_mut().unwrap();
        let fail = |p: String| format!("{} panicked: {p}", self.show(op));
        match op.k {
            rk::CREATE => {
                let serial = r.serials.len() as u32;
                r.serials.push((si, w.model.len()));
                LEDGER.with(|l| l.borrow_mut().drops.push(0));
                let x = R::new(serial);
                let h = guarded(|| t!(st.create(x))).map_err(fail)?;
                w.handles.push(h);
                w.model.push(M { st: St::Live, val: 0 });
            }
            rk::RELEASE => {
                let h = w.handles[i];
                let x = guarded(|| t!(st.release(h))).map_err(fail)?;
                let serial = serial_of(&r.serials, si, i) as u32;
                let bad = R::NAMED && (x.serial() != R::named(serial) || x.val() != w.model[i].val);
                if bad && self.oracles & (ro::VALUE | ro::LOOK) != 0 {
                    std::mem::forget(x);
                    return Err(format!("releasing r{i} hands back something else"));
                }
                if op.c == 0 {
                    w.model[i].st = St::Gone;
                    t!(drop(x));
                } else {
                    w.model[i].st = St::Kept;
                    w.kept.push((i, x));
                }
            }
            rk::MODIFY => {
                let h = w.handles[i];
                guarded(|| {
                    let x: &mut R = t!(&mut st[h]);
                    let a = x as *mut R as usize;
                    if alloc::arena().owns(a, std::mem::size_of::<R>()) {
                        x.bump();
                    }
                })
                .map_err(fail)?;
                w.model[i].val += 1;
            }
            rk::READ => {
                let h = w.handles[i];
                let serial = serial_of(&r.serials, si, i) as u32;
                let (a, ok) = guarded(|| {
                    let x: &R = if op.c == 0 { t!(&st[h]) } else { t!(&mut st[h]) };
                    let a = x as *const R as usize;
                    let mine = std::mem::size_of::<R>() == 0 || alloc::arena().owns(a, std::mem::size_of::<R>());
                    (a, mine && (!R::NAMED || x.serial() == R::named(serial) && x.val() == w.model[i].val))
                })
                .map_err(fail)?;
                if !ok || a % std::mem::align_of::<R>() != 0 {
                    return Err(format!("{} shows something else", self.show(op)));
                }
            }
            _ => {
                let h = w.handles[i];
                let refused = match op.k {
                    rk::DEAD_READ => guarded(|| {
                        let x: &R = t!(&st[h]);
                        std::hint::black_box(x as *const R);
                    })
                    .is_err(),
                    rk::DEAD_MODIFY => guarded(|| {
                        let x: &mut R = t!(&mut st[h]);
                        std::hint::black_box(x as *mut R);
                    })
                    .is_err(),
                    _ => guarded(|| {
                        let x = t!(st.release(h));
                        std::mem::forget(x);
                    })
                    .is_err(),
                };
                if !refused {
                    return Err(format!("{} was not refused", self.show(op)));
                }
                if self.batch {
                    return Ok(());
                }
                self.check_values(r).map_err(|e| format!("after the refused {}: {e}", self.show(op)))?;
                self.check_drops(&self.expected_drops(r), "after a refused call")?;
            }
        }
        Ok(())
    }

    fn key(&self, r: &Self::Run) -> u128 {
        let mut h = H::new();
        let roots: Vec<usize> = r.w.iter().map(|w| &**w.store.as_ref().unwrap() as *const ResourceStore<R> as usize).collect();
        alloc::canonical_heap(&roots, usize::MAX, &mut h);
        h.add(r.moves as u64);
        h.add(r.look as u64);
        h.add((r.look >> 64) as u64);
        for w in &r.w {
            h.add(w.model.len() as u64);
            for (i, m) in w.model.iter().enumerate() {
                if m.st == St::Live || self.oracles & ro::DEAD != 0 {
                    h.add((w.handles[i].id() as u64) << 32 | w.handles[i].version() as u64);
                }
                h.add((m.st as u64) << 32 | m.val as u64);
            }
        }
        LEDGER.with(|l| {
            let l = l.borrow();
            for d in &l.drops {
                h.add(*d as u64);
            }
            h.add(l.nameless as u64);
        });
        h.done()
    }

    fn check(&self, r: &mut Self::Run) -> Result<(), String> {
        if self.oracles & ro::LOCKSTEP != 0 {
            for w in &r.w[1..] {
                if let Some(i) = (0..w.handles.len()).find(|i| w.handles[*i] != r.w[0].handles[*i]) {
                    return Err(format!("two resource stores that went through the same gave different handles for r{i}"));
                }
            }
        }
        if self.oracles & ro::VALUE != 0 {
            self.check_values(r)?;
        }
        if self.oracles & ro::DROPS != 0 {
            self.check_drops(&self.expected_drops(r), "so far")?;
        }
        if self.oracles & ro::LEAK != 0 {
            alloc::arena().sweep()?;
            if let Some(e) = alloc::arena().error {
                return Err(format!("{e} ({} bytes)", alloc::arena().error_size));
            }
        }
        Ok(())
    }

    fn finish(&self, mut r: Self::Run) -> Result<(), String> {
        guarded(|| {
            for w in &mut r.w {
                let s = w.store.take();
                t!(drop(s));
            }
        })
        .map_err(|e| format!("dropping a resource store panicked: {e}"))?;
        if self.oracles & ro::DROPS != 0 {
            let want: Vec<u32> =
                r.serials.iter().map(|(s, i)| if r.w[*s].model[*i].st == St::Kept { 0 } else { 1 }).collect();
            self.check_drops(&want, "when the store was dropped")?;
        }
        for w in &mut r.w {
            for (i, x) in w.kept.drain(..) {
                let bad = R::NAMED && x.val() != w.model[i].val;
                if bad {
                    std::mem::forget(x);
                    return Err(format!("the released resource r{i} changed when the store was dropped"));
                }
                t!(drop(x));
            }
        }
        Ok(())
    }

    fn show(&self, op: Op) -> String {
        let st = if self.caps.len() > 1 { format!("s{}.", op.s) } else { String::new() };
        st + &match op.k {
            rk::CREATE => "create".to_string(),
            rk::MOVE => "move".to_string(),
            rk::RELEASE if op.c == 1 => format!("release-and-keep(r{})", op.a),
            rk::RELEASE => format!("release(r{})", op.a),
            rk::MODIFY => format!("modify(r{})", op.a),
            rk::READ if op.c == 1 => format!("read-mutably(r{})", op.a),
            rk::READ => format!("read(r{})", op.a),
            rk::DEAD_READ => format!("read(released r{})", op.a),
            rk::DEAD_MODIFY => format!("modify(released r{})", op.a),
            _ => format!("release(released r{})", op.a),
        }
    }

    fn leaks_matter(&self) -> bool {
        self.oracles & ro::LEAK != 0
    }
}

/// Bulk histories: fill, release a pattern, refill, judged along the way.
pub struct ResGrid<R: Res> {
    pub caps: Vec<usize>,
    pub sizes: Vec<usize>,
    pub oracles: u32,
    pub edges: bool,
    pub _r: std::marker::PhantomData<fn() -> R>,
}

pub const PATTERNS: [&str; 8] =
    ["none", "all forwards", "all backwards", "every second", "every third backwards", "first half", "last half", "all but first and last"];

pub fn pattern(p: usize, n: usize) -> Vec<usize> {
    match p {
        0 => vec![],
        1 => (0..n).collect(),
        2 => (0..n).rev().collect(),
        3 => (0..n).step_by(2).collect(),
        4 => (0..n).rev().step_by(3).collect(),
        5 => (0..n / 2).collect(),
        6 => (n / 2..n).collect(),
        _ => (1..n.saturating_sub(1)).collect(),
    }
}

impl<R: Res> ResGrid<R> {
    fn pairs(&self) -> Vec<(usize, usize)> {
        crate::bulk::pairs(&self.caps, &self.sizes, self.edges)
    }
    fn at(&self, p: u64) -> (usize, usize, usize, usize) {
        let v = self.pairs();
        let p = p as usize;
        let (c, n) = v[p % v.len()];
        let p = p / v.len();
        (c, n, p % PATTERNS.len(), p / PATTERNS.len())
    }
}

impl<R: Res> Grid for ResGrid<R> {
    fn points(&self) -> u64 {
        (self.pairs().len() * PATTERNS.len() * 3) as u64
    }

    fn run(&self, point: u64) -> Result<PointDone, String> {
        let (cap, n, pat, refill) = self.at(point);
        let sys = ResSys::<R>::new(cap, self.oracles, usize::MAX);
        let mut r = sys.start()?;
        let mut d = PointDone::default();
        let go = |r: &mut RRun<R>, op: Op, d: &mut PointDone| {
            d.transitions += 1;
            sys.step(r, op)
        };
        let create = Op { k: rk::CREATE, ..Op::default() };
        let res = (|| {
            for i in 0..n {
                go(&mut r, create, &mut d)?;
                // right after growing, and now and then
                if i < 8 || n < 10_000 && (i & (i + 1)) == 0 || n < 10_000 && (i & i.wrapping_sub(1)) == 0 {
                    sys.check(&mut r)?;
                    d.states += 1;
                }
            }
            sys.check(&mut r)?;
            for (j, i) in pattern(pat, n).into_iter().enumerate() {
                let c = if j % 5 == 4 { 1 } else { 0 };
                go(&mut r, Op { k: rk::RELEASE, a: i as u32, c, ..Op::default() }, &mut d)?;
            }
            sys.check(&mut r)?;
            d.states += 2;
            let more = match refill {
                0 => 0,
                1 => pattern(pat, n).len(),
                _ => n + 3,
            };
            for _ in 0..more {
                go(&mut r, create, &mut d)?;
            }
            sys.check(&mut r)?;
            d.states += 1;
            Ok::<(), String>(())
        })();
        match res {
            Err(e) => {
                crate::explore::abandon(&sys, r);
                Err(e)
            }
            Ok(()) => {
                sys.finish(r)?;
                Ok(d)
            }
        }
    }

    fn leaks_matter(&self) -> bool {
        self.oracles & ro::LEAK != 0
    }

    fn show(&self, p: u64) -> String {
        let (cap, n, pat, refill) = self.at(p);
        let cap = if cap == usize::MAX { "new()".to_string() } else { format!("with_capacity({cap})") };
        format!("ResourceStore<{}> {cap}; create {n}; release {}; create {}", R::NAME, PATTERNS[pat], ["nothing", "as many", "many more"][refill])
    }
}

/// Many resources, many released, their slots reused or not: every access through every released handle.
pub struct ResDead<R: Res> {
    pub caps: Vec<usize>,
    pub sizes: Vec<usize>,
    pub _r: std::marker::PhantomData<fn() -> R>,
}

impl<R: Res> ResDead<R> {
    fn at(&self, p: u64) -> (usize, usize, usize, usize) {
        let v = crate::bulk::pairs(&self.caps, &self.sizes, true);
        let p = p as usize;
        let (c, n) = v[p % v.len()];
        let p = p / v.len();
        (c, n, p % PATTERNS.len(), p / PATTERNS.len())
    }
}

fn all_dead<R: Res>(sys: &ResSys<R>, r: &mut RRun<R>, who: &[u32], d: &mut PointDone) -> Result<(), String> {
    for a in who {
        for k in [rk::DEAD_READ, rk::DEAD_MODIFY, rk::DEAD_RELEASE] {
            sys.step(r, Op { k, a: *a, ..Op::default() })?;
            d.transitions += 1;
        }
    }
    sys.check(r)?;
    d.states += 1;
    Ok(())
}

impl<R: Res> Grid for ResDead<R> {
    fn points(&self) -> u64 {
        (crate::bulk::pairs(&self.caps, &self.sizes, true).len() * PATTERNS.len() * 3) as u64
    }
    fn run(&self, point: u64) -> Result<PointDone, String> {
        let (cap, n, pat, refill) = self.at(point);
        let mut sys = ResSys::<R>::new(cap, ro::DEAD | ro::VALUE | ro::DROPS, usize::MAX);
        sys.batch = true;
        let mut r = sys.start()?;
        let mut d = PointDone::default();
        let create = Op { k: rk::CREATE, ..Op::default() };
        let res = (|| {
            let mut dead = vec![];
            let mut next = 0u32;
            for _ in 0..2 {
                let from = next;
                for _ in 0..n {
                    sys.step(&mut r, create)?;
                    next += 1;
                }
                for i in pattern(pat, n) {
                    sys.step(&mut r, Op { k: rk::RELEASE, a: from + i as u32, ..Op::default() })?;
                    dead.push(from + i as u32);
                }
                all_dead(&sys, &mut r, &dead, &mut d)?;
                let more = match refill {
                    0 => 0,
                    1 => pattern(pat, n).len(),
                    _ => n / 2 + 1,
                };
                for _ in 0..more {
                    sys.step(&mut r, create)?;
                    next += 1;
                }
                if more > 0 {
                    all_dead(&sys, &mut r, &dead, &mut d)?;
                }
            }
            Ok::<(), String>(())
        })();
        match res {
            Err(e) => {
                crate::explore::abandon(&sys, r);
                Err(e)
            }
            Ok(()) => {
                sys.finish(r)?;
                Ok(d)
            }
        }
    }
    fn leaks_matter(&self) -> bool {
        false
    }
    fn show(&self, p: u64) -> String {
        let (cap, n, pat, refill) = self.at(p);
        format!(
            "ResourceStore<{}> of capacity {cap}; twice: create {n}; release {}; create {}; use all released handles",
            R::NAME, PATTERNS[pat], ["nothing", "as many", "half as many"][refill]
        )
    }
}

/// One slot used very often; handles of long ago are used.
pub struct ResOld<R: Res> {
    pub uses: Vec<usize>,
    pub _r: std::marker::PhantomData<fn() -> R>,
}

impl<R: Res> Grid for ResOld<R> {
    fn points(&self) -> u64 {
        (self.uses.len() * 4) as u64
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let p = p as usize;
        let n = self.uses[p % self.uses.len()];
        let company = p / self.uses.len();
        let sys = ResSys::<R>::new(1, ro::DEAD, usize::MAX);
        let mut r = sys.start()?;
        let mut d = PointDone::default();
        let create = Op { k: rk::CREATE, ..Op::default() };
        let res = (|| {
            let mut next = 0u32;
            if company & 1 != 0 {
                sys.step(&mut r, create)?;
                next += 1;
            }
            let mut uses = vec![];
            for i in 0..n {
                sys.step(&mut r, create)?;
                uses.push(next);
                let now = next;
                next += 1;
                if i == 0 && company & 2 != 0 {
                    sys.step(&mut r, create)?;
                    next += 1;
                }
                if crate::bulk::AGES.contains(&i) || i + 1 == n {
                    let old: Vec<u32> = crate::bulk::AGES.iter().filter(|x| **x <= i).map(|x| uses[i - x]).collect();
                    for a in old {
                        for k in [rk::DEAD_READ, rk::DEAD_MODIFY, rk::DEAD_RELEASE] {
                            sys.step(&mut r, Op { k, a, ..Op::default() })?;
                            d.transitions += 1;
                        }
                    }
                    d.states += 1;
                }
                sys.step(&mut r, Op { k: rk::RELEASE, a: now, ..Op::default() })?;
                d.transitions += 2;
            }
            sys.check(&mut r)
        })();
        match res {
            Err(e) => {
                crate::explore::abandon(&sys, r);
                Err(e)
            }
            Ok(()) => {
                sys.finish(r)?;
                Ok(d)
            }
        }
    }
    fn leaks_matter(&self) -> bool {
        false
    }
    fn show(&self, p: u64) -> String {
        let p = p as usize;
        format!(
            "ResourceStore<{}> with {} others: {} times create and release one, using old handles",
            R::NAME, ["no", "older", "younger", "older and younger"][p / self.uses.len()], self.uses[p % self.uses.len()]
        )
    }
}

/// Every short workload on a resource store, repeated.
pub struct RepeatRes<R: Res> {
    len: usize,
    early: usize,
    late: usize,
    _r: std::marker::PhantomData<fn() -> R>,
}

impl<R: Res> RepeatRes<R> {
    pub fn new(len: usize, early: usize, late: usize) -> Self {
        RepeatRes { len, early, late, _r: Default::default() }
    }
    fn seq(&self, mut p: u64) -> (Vec<usize>, usize) {
        let cap = [0, 1, 3][(p % 3) as usize];
        p /= 3;
        let mut v = vec![];
        for _ in 0..self.len {
            v.push((p % 3) as usize);
            p /= 3;
        }
        (v, cap)
    }
}

impl<R: Res> Grid for RepeatRes<R> {
    fn points(&self) -> u64 {
        3u64.pow(self.len as u32 + 1)
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let (seq, cap) = self.seq(p);
        let sys = ResSys::<R>::new(cap, 0, usize::MAX);
        sys.start().map(|r| abandon_res(&sys, r))?;
        let mut st = t!(Box::new(ResourceStore::<R>::with_capacity(cap)));
        let mut d = PointDone::default();
        let mut early = 0;
        let mut res = Ok(());
        'cycles: for cycle in 0..self.late {
            let mut live: std::collections::VecDeque<Entity> = Default::default();
            for s in &seq {
                d.transitions += 1;
                let h = match s {
                    0 => {
                        LEDGER.with(|l| l.borrow_mut().drops.resize(1, 0));
                        let x = R::new(0);
                        live.push_back(t!(st.create(x)));
                        continue;
                    }
                    1 => live.pop_front(),
                    _ => live.pop_back(),
                };
                if let Some(h) = h {
                    t!(drop(st.release(h)));
                }
            }
            while let Some(h) = live.pop_front() {
                t!(drop(st.release(h)));
            }
            d.states += 1;
            let now = alloc::arena().live_bytes;
            if cycle + 1 == self.early {
                early = now;
            } else if cycle + 1 == self.late && now > early {
                res = Err(format!(
                    "after {} repetitions the resource store holds {early} bytes, after {} repetitions {now} bytes",
                    self.early, self.late
                ));
                break 'cycles;
            }
        }
        t!(drop(st));
        res.map(|_| d)
    }
    fn show(&self, p: u64) -> String {
        let (seq, cap) = self.seq(p);
        let v: Vec<&str> = seq.iter().map(|s| ["create", "release oldest", "release youngest"][*s]).collect();
        format!("ResourceStore<{}> with_capacity({cap}): repeat [{}; release all]", R::NAME, v.join("; "))
    }
}

fn abandon_res<R: Res>(sys: &ResSys<R>, r: RRun<R>) {
    let _ = sys.finish(r);
}

/// Resource stores one after the other: none may notice that there were others.
pub struct ResSuccession<R: Res> {
    pub caps: Vec<usize>,
    pub sizes: Vec<usize>,
    pub _r: std::marker::PhantomData<fn() -> R>,
}

impl<R: Res> ResSuccession<R> {
    fn loads(&self) -> Vec<(usize, usize, usize)> {
        let mut v = vec![];
        for c in &self.caps {
            for n in &self.sizes {
                for p in [0, 1, 4, 6] {
                    v.push((*c, *n, p));
                }
            }
        }
        v
    }
    fn fill(&self, sys: &ResSys<R>, r: &mut RRun<R>, load: usize, d: &mut PointDone) -> Result<(), String> {
        let (_, n, pat) = self.loads()[load];
        let from = r.w[0].model.len() as u32;
        for _ in 0..n {
            sys.step(r, Op { k: rk::CREATE, ..Op::default() })?;
        }
        for i in pattern(pat, n) {
            sys.step(r, Op { k: rk::RELEASE, a: from + i as u32, ..Op::default() })?;
        }
        sys.check(r)?;
        d.transitions += n as u64;
        d.states += 1;
        Ok(())
    }
}

impl<R: Res> Grid for ResSuccession<R> {
    fn points(&self) -> u64 {
        let n = self.loads().len() as u64;
        n * n
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let l = self.loads();
        let (l0, l1) = (p as usize % l.len(), p as usize / l.len());
        let mut d = PointDone::default();
        for load in [l0, l1, l0] {
            let sys = ResSys::<R>::new(l[load].0, ro::VALUE | ro::DROPS, usize::MAX);
            let mut r = sys.start()?;
            let res = self.fill(&sys, &mut r, load, &mut d).and_then(|_| self.fill(&sys, &mut r, l0, &mut d));
            match res {
                Err(e) => {
                    let _ = sys.finish(r);
                    return Err(e);
                }
                Ok(()) => sys.finish(r)?,
            }
        }
        Ok(d)
    }
    fn show(&self, p: u64) -> String {
        let l = self.loads();
        let of = |l: (usize, usize, usize)| format!("(capacity {}, create {}, release {})", l.0, l.1, PATTERNS[l.2]);
        format!(
            "a ResourceStore<{}> {}, dropped; one {}, dropped; one like the first",
            R::NAME, of(l[p as usize % l.len()]), of(l[p as usize / l.len()])
        )
    }
}
