//! Archetypes and the archetype builder next to sets of numbers.
use crate::alloc::{self, H};
use crate::comps::*;
use crate::explore::{guarded, Grid, Op, PointDone, System};
use division_ecs::{Archetype, ArchetypeBuilder, Component, ComponentType, Entity, Store};
use std::any::TypeId;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

comp!(K0, 0, u8);
comp!(K1, 1, u64);
comp!(K2, 2, [u8; 3]);
comp!(K3, 3, [u32; 5], 16);
comp!(K4, 10, [u16; 9]);
comp!(K5, 11, [u8; 1000], 1024);
comp!(K6, 6, [u8; 40], 64);
comp!(K7, 7, [u32; 40], 256);
comp!(K8, 8, [u8; 128], 128);
comp!(K9, 9, [u8; 129]);

/// a type that is no member of any set
struct Stranger;

type Has = fn(&Archetype) -> (bool, Option<usize>);

pub struct Types {
    pub all: Vec<ComponentType>,
    pub ids: Vec<TypeId>,
    has: Vec<Has>,
}

fn has<T: 'static>() -> Has {
    |a| t!((a.has_component::<T>(), a.find_component_index_of::<T>()))
}

macro_rules! types {
    ($($T:ident),*) => {
        Types {
            all: vec![$(ComponentType::of::<$T>()),*],
            ids: vec![$(TypeId::of::<$T>()),*],
            has: vec![$(has::<$T>()),*],
        }
    };
}

/// numbers 4 and 5 share name, size and alignment; the other tuples are over 0 to 3, 6 to 11
pub fn types() -> &'static Types {
    static T: std::sync::OnceLock<Types> = std::sync::OnceLock::new();
    T.get_or_init(|| types!(K0, K1, K2, K3, TwinA, TwinB, K6, K7, K8, K9, K4, K5))
}

fn bits(mask: u32) -> Vec<usize> {
    (0..32).filter(|i| mask & (1 << i) != 0).collect()
}

fn names(mask: u32) -> String {
    format!("{{{}}}", bits(mask).iter().map(|i| format!("K{i}")).collect::<Vec<_>>().join(","))
}

fn build(order: &[usize]) -> Archetype {
    let ts = types();
    let list: Vec<ComponentType> = order.iter().map(|i| ts.all[*i]).collect();
    t!({
        let mut b = ArchetypeBuilder::new();
        b.include_component_types(&list);
        b.build()
    })
}

pub fn build_mask(mask: u32) -> Archetype {
    build(&bits(mask))
}

fn hash_of(a: &Archetype) -> u64 {
    let mut h = DefaultHasher::new();
    t!(a.hash(&mut h));
    h.finish()
}

/// Exactly this set: each type once, with its own size, alignment and name.
pub fn is_exactly(a: &Archetype, mask: u32) -> Result<(), String> {
    let ts = types();
    let got: Vec<ComponentType> = t!(a.components_iter().collect());
    let want = bits(mask);
    if got.len() != want.len() || t!(a.component_count()) != want.len() || t!(a.included_ids().len()) != want.len() {
        return Err(format!("an archetype of {} lists {} types", names(mask), got.len()));
    }
    for i in want {
        let n = got.iter().filter(|c| c.id() == ts.ids[i]).count();
        if n != 1 {
            return Err(format!("an archetype of {} lists K{i} {n} times", names(mask)));
        }
        let c = got.iter().find(|c| c.id() == ts.ids[i]).unwrap();
        let w = ts.all[i];
        if c.size() != w.size() || c.align() != w.align() || c.name() != w.name() {
            return Err(format!(
                "an archetype of {} gives K{i} size {} alignment {} name {:?}", names(mask), c.size(), c.align(), c.name()
            ));
        }
        if !t!(a.included_ids().contains(&ts.ids[i])) {
            return Err(format!("the ids of an archetype of {} lack K{i}", names(mask)));
        }
    }
    Ok(())
}

/// The answers about one archetype of set `m`.
fn check_single(a: &Archetype, m: u32, n: usize, what: &str) -> Result<(), String> {
    let ts = types();
    let ids: Vec<TypeId> = t!(a.included_ids().to_vec());
    let listed: Vec<TypeId> = t!(a.components_iter().map(|c| c.id()).collect());
    if ids.len() != listed.len() || ids.len() != m.count_ones() as usize {
        return Err(format!("{what} {} has {} ids and lists {} types", names(m), ids.len(), listed.len()));
    }
    for i in 0..n {
        let want = m & (1 << i) != 0;
        let (h, ix) = (ts.has[i])(a);
        if h != want {
            return Err(format!("has_component of K{i} on {what} {} is {h}", names(m)));
        }
        let ix2 = t!(a.find_component_index(ts.ids[i]));
        for (x, f) in [(ix, "find_component_index_of"), (ix2, "find_component_index")] {
            match x {
                None if want => return Err(format!("{f} of K{i} on {what} {} finds nothing", names(m))),
                Some(_) if !want => return Err(format!("{f} of K{i} on {what} {} finds something", names(m))),
                Some(j) if listed.get(j) != Some(&ts.ids[i]) || ids.get(j) != Some(&ts.ids[i]) => {
                    return Err(format!("{f} of K{i} on {what} {} finds another type", names(m)))
                }
                _ => {}
            }
        }
    }
    let (h, ix) = (has::<Stranger>())(a);
    if h || ix.is_some() {
        return Err(format!("{what} {} has a type it does not have", names(m)));
    }
    Ok(())
}

/// All pairs of sets over n types.
pub struct Pairs {
    pub n: usize,
}

impl Grid for Pairs {
    fn points(&self) -> u64 {
        (1 << self.n) - 1
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let m = p as u32 + 1;
        let a = build_mask(m);
        check_single(&a, m, self.n, "the set")?;
        let c = t!(a.clone());
        check_single(&c, m, self.n, "a clone of")?;
        if !t!(c.is_same_as(&a)) || hash_of(&c) != hash_of(&a) {
            return Err(format!("a clone of {} does not equal it", names(m)));
        }
        let (x, y): (Vec<ComponentType>, Vec<ComponentType>) = t!((a.components_iter().collect(), c.components_iter().collect()));
        for (x, y) in x.iter().zip(&y) {
            if x.id() != y.id() || x.size() != y.size() || x.align() != y.align() || x.name() != y.name() {
                return Err(format!("a clone of {} differs from it at {}", names(m), x.name()));
            }
        }
        let mut rev = bits(m);
        rev.reverse();
        let r = build(&rev);
        if hash_of(&r) != hash_of(&a) {
            return Err(format!("equal sets {} have different hashes", names(m)));
        }
        let before = hash_of(&a);
        t!(drop(a));
        check_single(&c, m, self.n, "a clone (of a dropped archetype) of")?;
        if hash_of(&c) != before {
            return Err(format!("the hash of {} changes", names(m)));
        }
        let mut d = PointDone { states: 1, transitions: 0 };
        for m2 in 1..1u32 << self.n {
            let b = build_mask(m2);
            let ask = [
                ("is_same_as", t!(c.is_same_as(&b)), m == m2),
                ("is_include", t!(c.is_include(&b)), m & m2 == m2),
                ("is_exclude", t!(c.is_exclude(&b)), m & m2 == 0),
            ];
            for (f, got, want) in ask {
                if got != want {
                    return Err(format!("{}.{f}({}) is {got}", names(m), names(m2)));
                }
            }
            d.transitions += 3;
            t!(drop(b));
        }
        t!(drop(c));
        t!(drop(r));
        Ok(d)
    }
    fn show(&self, p: u64) -> String {
        format!("{} against all sets over {} types", names(p as u32 + 1), self.n)
    }
}

/// Every set against every ordered list of distinct ids.
pub struct Lists {
    pub n: usize,
    pub len: usize,
}

impl Grid for Lists {
    fn points(&self) -> u64 {
        (1 << self.n) - 1
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let ts = types();
        let m = p as u32 + 1;
        let a = build_mask(m);
        let mut d = PointDone { states: 1, transitions: 0 };
        let mut list: Vec<usize> = vec![];
        let mut r = Ok(());
        fn go(g: &Lists, ts: &Types, a: &Archetype, m: u32, list: &mut Vec<usize>, d: &mut PointDone) -> Result<(), String> {
            let l = list.iter().fold(0u32, |x, i| x | 1 << i);
            let ids: Vec<TypeId> = list.iter().map(|i| ts.ids[*i]).collect();
            let ask = [
                ("is_include_ids", t!(a.is_include_ids(&ids)), m & l == l),
                ("is_include_only_ids", t!(a.is_include_only_ids(&ids)), m == l),
                ("is_exclude_ids", t!(a.is_exclude_ids(&ids)), m & l == 0),
            ];
            d.transitions += 3;
            for (f, got, want) in ask {
                if got != want {
                    return Err(format!("{}.{f}({list:?}) is {got}", names(m)));
                }
            }
            if list.len() < g.len {
                for i in 0..g.n {
                    if !list.contains(&i) {
                        list.push(i);
                        go(g, ts, a, m, list, d)?;
                        list.pop();
                    }
                }
            }
            Ok(())
        }
        if let Err(e) = go(self, ts, &a, m, &mut list, &mut d) {
            r = Err(e);
        }
        t!(drop(a));
        r.map(|_| d)
    }
    fn show(&self, p: u64) -> String {
        format!("{} against all lists of up to {} of {} ids", names(p as u32 + 1), self.len, self.n)
    }
}

// ------------------------------------------------------------------ builder histories

pub struct BuilderSys {
    pub max_len: usize,
    ops: Vec<(String, u32, bool, Box<dyn Fn(&mut ArchetypeBuilder) + Sync + Send>)>,
}

pub struct BRun {
    b: Option<Box<ArchetypeBuilder>>,
    set: u32,
}

impl BuilderSys {
    pub fn new() -> BuilderSys {
        let mut ops: Vec<(String, u32, bool, Box<dyn Fn(&mut ArchetypeBuilder) + Sync + Send>)> = vec![];
        macro_rules! tuple {
            ($($T:ident $i:expr),*) => {
                let m = 0 $(| 1 << $i)*;
                let n = [$(stringify!($T)),*].join(",");
                #[allow(unused_parens)]
                ops.push((format!("include<({n})>"), m, true, Box::new(|b| { t!({ b.include_components::<($($T),*)>(); }) })));
                #[allow(unused_parens)]
                ops.push((format!("exclude<({n})>"), m, false, Box::new(|b| { t!({ b.exclude_components::<($($T),*)>(); }) })));
            };
        }
        tuple!(K0 0);
        tuple!(K1 1);
        tuple!(K1 1, K0 0);
        tuple!(K2 2, K3 3);
        tuple!(K3 3, K0 0, K2 2);
        for list in [&[1usize, 2][..], &[2, 1], &[3, 3, 0], &[0, 1, 2, 3], &[3, 2, 1, 0], &[], &[4], &[5, 4], &[6]] {
            let l = list.to_vec();
            let m = l.iter().fold(0, |x, i| x | 1 << i);
            let l2 = l.clone();
            ops.push((format!("include_types{l:?}"), m, true, Box::new(move |b| {
                let v: Vec<ComponentType> = l.iter().map(|i| types().all[*i]).collect();
                t!({ b.include_component_types(&v); })
            })));
            ops.push((format!("exclude_types{l2:?}"), m, false, Box::new(move |b| {
                let v: Vec<ComponentType> = l2.iter().map(|i| types().all[*i]).collect();
                t!({ b.exclude_component_types(&v); })
            })));
        }
        for m in [1u32, 6, 9, 14, 15, 32] {
            ops.push((format!("include_archetype{}", names(m)), m, true, Box::new(move |b| {
                let a = build_mask(m);
                t!({ b.include_archetype(&a); });
                t!(drop(a));
            })));
        }
        // building in between must not disturb what follows
        ops.push(("build".into(), 0, true, Box::new(|b| {
            let a = t!(b.build());
            t!(drop(a));
        })));
        BuilderSys { max_len: 4, ops }
    }
}

impl System for BuilderSys {
    type Run = BRun;
    fn start(&self) -> Result<BRun, String> {
        Ok(BRun { b: Some(t!(Box::new(ArchetypeBuilder::new()))), set: 0 })
    }
    fn enabled(&self, r: &BRun, out: &mut Vec<Op>) {
        for i in 0..self.ops.len() {
            if self.ops[i].0 == "build" && r.set == 0 {
                continue;
            }
            out.push(Op { k: i as u8, ..Op::default() });
        }
    }
    fn step(&self, r: &mut BRun, op: Op) -> Result<(), String> {
        let (name, m, inc, f) = &self.ops[op.k as usize];
        guarded(|| f(r.b.as_mut().unwrap())).map_err(|p| format!("{name} panicked: {p}"))?;
        if *inc {
            r.set |= m
        } else {
            r.set &= !m
        }
        Ok(())
    }
    fn key(&self, r: &BRun) -> u128 {
        let mut h = H::new();
        alloc::canonical_heap(&[&**r.b.as_ref().unwrap() as *const _ as usize], usize::MAX, &mut h);
        h.add(r.set as u64);
        h.done()
    }
    fn check(&self, r: &mut BRun) -> Result<(), String> {
        if r.set == 0 {
            return Ok(());
        }
        for _ in 0..2 {
            let a = guarded(|| t!(r.b.as_mut().unwrap().build())).map_err(|p| format!("build panicked: {p}"))?;
            let x = guarded(|| is_exactly(&a, r.set)).unwrap_or_else(Err);
            let y = guarded(|| check_single(&a, r.set, 10, "the built set")).unwrap_or_else(Err);
            let direct = build_mask(r.set);
            let z = t!(direct.is_same_as(&a) && a.is_same_as(&direct));
            t!(drop(direct));
            t!(drop(a));
            x?;
            y?;
            if !z {
                return Err(format!("the built archetype of {} is not the same as a directly built one", names(r.set)));
            }
        }
        Ok(())
    }
    fn finish(&self, mut r: BRun) -> Result<(), String> {
        let b = r.b.take();
        guarded(|| t!(drop(b)))
    }
    fn show(&self, op: Op) -> String {
        self.ops[op.k as usize].0.clone()
    }
}

/// Every short sequence of builder calls, gone through again and again with one builder.
pub struct BuilderLong {
    pub sys: BuilderSys,
    pub len: usize,
    pub early: usize,
    pub late: usize,
    /// the memory held is judged, instead of what is built
    pub memory: bool,
}

impl BuilderLong {
    fn decode(&self, mut p: u64) -> Vec<usize> {
        let n = self.sys.ops.len() as u64;
        let mut v = vec![];
        for _ in 0..self.len {
            v.push((p % n) as usize);
            p /= n;
        }
        v
    }
}

impl Grid for BuilderLong {
    fn points(&self) -> u64 {
        (self.sys.ops.len() as u64).pow(self.len as u32)
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let seq = self.decode(p);
        let mut d = PointDone::default();
        let mut r = self.sys.start()?;
        let mut early = 0;
        let res = (|| {
            for cycle in 0..self.late {
                for i in &seq {
                    if self.sys.ops[*i].0 == "build" && r.set == 0 {
                        continue;
                    }
                    self.sys.step(&mut r, Op { k: *i as u8, ..Op::default() })?;
                    d.transitions += 1;
                }
                if !self.memory && (cycle < 2 || cycle + 1 == self.late) {
                    self.sys.check(&mut r)?;
                    d.states += 1;
                }
                let now = alloc::arena().live_bytes;
                if cycle + 1 == self.early {
                    early = now;
                } else if self.memory && cycle + 1 == self.late && now > early {
                    return Err(format!(
                        "after {} repetitions the builder holds {early} bytes, after {} repetitions {now} bytes", self.early, self.late
                    ));
                }
            }
            Ok(())
        })();
        let f = self.sys.finish(r);
        res.and(f).map(|_| d)
    }
    fn show(&self, p: u64) -> String {
        let v: Vec<String> = self.decode(p).iter().map(|i| self.sys.ops[*i].0.clone()).collect();
        format!("{} times [{}] with one builder", self.late, v.join("; "))
    }
}

/// Every order of naming the types of a set, in a builder list and in tuples.
pub struct Orders {
    pub n: usize,
}

fn permutations(items: &[usize]) -> Vec<Vec<usize>> {
    if items.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for (i, x) in items.iter().enumerate() {
        let mut rest = items.to_vec();
        rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, *x);
            out.push(p);
        }
    }
    out
}

impl Grid for Orders {
    fn points(&self) -> u64 {
        (1 << self.n) - 1
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let m = p as u32 + 1;
        let mut d = PointDone { states: 1, transitions: 0 };
        let base = build_mask(m);
        for o in permutations(&bits(m)) {
            let a = build(&o);
            is_exactly(&a, m).map_err(|e| format!("named in the order {o:?}: {e}"))?;
            if !t!(a.is_same_as(&base)) {
                return Err(format!("named in the order {o:?}, {} is not the same archetype", names(m)));
            }
            t!(drop(a));
            d.transitions += 1;
        }
        t!(drop(base));
        Ok(d)
    }
    fn show(&self, p: u64) -> String {
        format!("every order of {}", names(p as u32 + 1))
    }
}

/// Two ways of naming the same set, used side by side in a store.
pub struct Interchange {
    pub stay: bool,
}

fn tuples() -> &'static Vec<TupOps> {
    struct W(Vec<TupOps>);
    unsafe impl Sync for W {}
    unsafe impl Send for W {}
    static T: std::sync::OnceLock<W> = std::sync::OnceLock::new();
    &T.get_or_init(|| W(crate::perms::all())).0
}

impl Grid for Interchange {
    fn points(&self) -> u64 {
        (tuples().len() * tuples().len()) as u64
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let n = tuples().len();
        let (a, b) = (&tuples()[p as usize / n], &tuples()[p as usize % n]);
        if a.mask != b.mask {
            return Ok(PointDone::default());
        }
        let d = PointDone { states: 1, transitions: 10 };
        let m = a.mask as u32;
        let xa = (a.archetype)();
        let xb = {
            let o: Vec<usize> = b.ids.iter().map(|i| *i as usize).collect();
            build(&o)
        };
        is_exactly(&xa, m).map_err(|e| format!("from the tuple {:?}: {e}", a.ids))?;
        is_exactly(&xb, m)?;
        let xc = t!({
            let mut bl = ArchetypeBuilder::new();
            (b.include)(&mut bl);
            bl.build()
        });
        is_exactly(&xc, m).map_err(|e| format!("from a builder including the tuple {:?}: {e}", b.ids))?;
        let all = [&xa, &xb, &xc];
        for x in all {
            for y in all {
                if !t!(x.is_same_as(y)) {
                    return Err(format!("archetypes of {} built in different ways are not the same", names(m)));
                }
                if hash_of(x) != hash_of(y) {
                    return Err(format!("archetypes of {} built in different ways have different hashes", names(m)));
                }
            }
        }
        // one entity with each, and one that got the components one tuple at a time
        let mut st = t!(Store::with_capacity(3));
        let seed = |e: u64| move |id: u8| 0x0101_0101_0101_0101 * (1 + e * 16 + id as u64);
        let mut es: Vec<Entity> = vec![];
        for x in all {
            es.push(t!(st.create_entity_with_archetype(x)));
        }
        es.push(t!(st.create_entity()));
        for (i, e) in es.iter().enumerate() {
            let f = if i % 2 == 0 { a } else { b };
            (f.add)(&mut st, *e, &seed(i as u64));
        }
        for (i, e) in es.iter().enumerate() {
            for f in [a, b] {
                let Some(parts) = (f.get)(&st, *e) else {
                    return Err(format!("entity {i} with {} cannot be read as {:?}", names(m), f.ids));
                };
                for q in parts.iter() {
                    let size = types().all[q.id as usize].size();
                    if !alloc::arena().owns(q.addr, size) || !unsafe { holds(q.addr, size, seed(i as u64)(q.id)) } {
                        return Err(format!("K{} of entity {i} read as {:?} is not what was written", q.id, f.ids));
                    }
                }
            }
            match t!(st.get_entity_archetype(*e)) {
                None => return Err(format!("entity {i} has no archetype")),
                Some(x) => {
                    is_exactly(x, m)?;
                    for y in all {
                        if !t!(x.is_same_as(y)) {
                            return Err(format!("the archetype of entity {i} is not the one it was created with"));
                        }
                    }
                }
            }
        }
        // removing by the other name
        if self.stay {
            (b.remove)(&mut st, es[0]);
            (a.remove)(&mut st, es[1]);
            for (i, e) in es.iter().enumerate() {
                if (a.get)(&st, *e).is_some() != (i > 1) {
                    return Err(format!("removing {:?} and {:?} takes the components of the wrong entity or none", b.ids, a.ids));
                }
            }
        }
        t!(drop(st));
        t!(drop(xa));
        t!(drop(xb));
        t!(drop(xc));
        Ok(d)
    }
    fn show(&self, p: u64) -> String {
        let n = tuples().len();
        format!("tuple {:?} against tuple {:?}", tuples()[p as usize / n].ids, tuples()[p as usize % n].ids)
    }
}

/// Archetypes of up to seventy-two types, named in many orders, against each other and against long lists.
pub struct WideSets {
    /// only the building, or only the comparing
    pub build: bool,
}

fn wide_types() -> &'static Vec<ComponentType> {
    static T: std::sync::OnceLock<Vec<ComponentType>> = std::sync::OnceLock::new();
    T.get_or_init(crate::wide::component_types)
}

/// windows of the seventy-two types: (first, how many, step)
fn windows() -> Vec<Vec<usize>> {
    let mut v = vec![];
    for n in [1usize, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 71, 72] {
        for (from, step) in [(0usize, 1usize), (13, 1), (5, 5), (20, 7), (1, 11)] {
            v.push((0..n).map(|i| (from + i * step) % 72).collect());
        }
    }
    v
}

const NAMING: [&str; 5] = ["upwards", "downwards", "from the middle", "interleaved", "one by one, some twice"];

fn named(set: &[usize], how: usize) -> Vec<usize> {
    let n = set.len();
    match how {
        0 | 4 => set.to_vec(),
        1 => set.iter().rev().copied().collect(),
        2 => set[n / 2..].iter().chain(&set[..n / 2]).copied().collect(),
        _ => set.iter().step_by(2).chain(set.iter().skip(1).step_by(2)).copied().collect(),
    }
}

impl WideSets {
    fn build(set: &[usize], how: usize) -> Archetype {
        let ts = wide_types();
        let list: Vec<ComponentType> = named(set, how).iter().map(|i| ts[*i]).collect();
        t!({
            let mut b = ArchetypeBuilder::new();
            if how == 4 {
                for (i, c) in list.iter().enumerate() {
                    b.include_component_types(std::slice::from_ref(c));
                    if i % 3 == 0 {
                        b.include_component_types(&[list[i / 2], *c]);
                    }
                }
            } else {
                b.include_component_types(&list);
            }
            b.build()
        })
    }
}

impl Grid for WideSets {
    fn points(&self) -> u64 {
        (windows().len() * NAMING.len()) as u64
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let ws = windows();
        let ts = wide_types();
        let (set, how) = (&ws[p as usize / NAMING.len()], p as usize % NAMING.len());
        let mut d = PointDone { states: 1, transitions: 0 };
        let a = Self::build(set, how);
        let is = |i: usize| set.contains(&i);
        if self.build {
            let got: Vec<ComponentType> = t!(a.components_iter().collect());
            if got.len() != set.len() || t!(a.component_count()) != set.len() || t!(a.included_ids().len()) != set.len() {
                return Err(format!("the archetype lists {} types instead of {}", got.len(), set.len()));
            }
            for i in set {
                let w = ts[*i];
                match got.iter().position(|c| c.id() == w.id()) {
                    Some(j) if got[j].size() == w.size() && got[j].align() == w.align() && got[j].name() == w.name() => {}
                    _ => return Err(format!("the archetype lacks W{i}, or has it with another size, alignment or name")),
                }
            }
            let base = Self::build(set, 0);
            if !t!(a.is_same_as(&base)) || !t!(base.is_same_as(&a)) || hash_of(&a) != hash_of(&base) {
                return Err("the archetype is not the same as the one named upwards".into());
            }
            // excluding one type at a time, in this order
            let order = named(set, how);
            let list: Vec<ComponentType> = order.iter().map(|i| ts[*i]).collect();
            for k in 0..set.len() {
                let b = t!({
                    let mut b = ArchetypeBuilder::new();
                    b.include_archetype(&a);
                    b.exclude_component_types(&list[..k]);
                    b.build()
                });
                let rest: Vec<usize> = order[k..].to_vec();
                let want = Self::build(&rest, 1);
                if !t!(b.is_same_as(&want)) || t!(b.component_count()) != rest.len() {
                    return Err(format!("after excluding {k} types the archetype has others than the {} remaining", rest.len()));
                }
                d.transitions += 1;
                t!(drop(b));
                t!(drop(want));
            }
            for i in 0..72 {
                let b = t!({
                    let mut b = ArchetypeBuilder::new();
                    b.include_component_types(&[ts[i]]);
                    b.include_archetype(&a);
                    b.build()
                });
                if t!(b.component_count()) != set.len() + !is(i) as usize || !t!(b.is_include(&a)) {
                    return Err(format!("including the archetype after W{i} does not give both"));
                }
                t!(drop(b));
                d.transitions += 1;
            }
            t!(drop(base));
        } else {
            for i in 0..72 {
                let x = t!(a.find_component_index(ts[i].id()));
                let at = x.map(|j| t!(a.included_ids().get(j).copied()));
                if x.is_some() != is(i) || (is(i) && at != Some(Some(ts[i].id()))) {
                    return Err(format!("find_component_index of W{i} finds {x:?}"));
                }
            }
            for other in &ws {
                let l: Vec<usize> = named(other, (how + 1) % 4);
                let ids: Vec<TypeId> = l.iter().map(|i| ts[*i].id()).collect();
                let b = Self::build(other, (how + 2) % 4);
                let (inc, same, exc) = (l.iter().all(|i| is(*i)), l.iter().all(|i| is(*i)) && l.len() == set.len(), !l.iter().any(|i| is(*i)));
                let ask = [
                    ("is_include_ids", t!(a.is_include_ids(&ids)), inc),
                    ("is_include_only_ids", t!(a.is_include_only_ids(&ids)), same),
                    ("is_exclude_ids", t!(a.is_exclude_ids(&ids)), exc),
                    ("is_include", t!(a.is_include(&b)), inc),
                    ("is_same_as", t!(a.is_same_as(&b)), same),
                    ("is_exclude", t!(a.is_exclude(&b)), exc),
                ];
                t!(drop(b));
                for (f, got, want) in ask {
                    if got != want {
                        return Err(format!("{f} with the types {l:?} is {got}"));
                    }
                }
                d.transitions += 6;
            }
            // its own types but for one place, where a foreign one stands
            let own = named(set, how);
            let foreign = (0..72).find(|i| !is(*i));
            for k in 0..own.len() {
                let mut l = own.clone();
                l.remove(k);
                let less: Vec<TypeId> = l.iter().map(|i| ts[*i].id()).collect();
                let mut ask = vec![
                    ("is_include_ids", t!(a.is_include_ids(&less)), true),
                    ("is_include_only_ids", t!(a.is_include_only_ids(&less)), false),
                    ("is_exclude_ids", t!(a.is_exclude_ids(&less)), own.len() == 1),
                ];
                let mut all = own.clone();
                if let Some(f) = foreign {
                    l.insert(k, f);
                    let ids: Vec<TypeId> = l.iter().map(|i| ts[*i].id()).collect();
                    ask.push(("is_include_ids", t!(a.is_include_ids(&ids)), false));
                    ask.push(("is_include_only_ids", t!(a.is_include_only_ids(&ids)), false));
                    ask.push(("is_exclude_ids", t!(a.is_exclude_ids(&ids)), own.len() == 1));
                    all.insert(k, f);
                    let ids: Vec<TypeId> = all.iter().map(|i| ts[*i].id()).collect();
                    ask.push(("is_include_ids", t!(a.is_include_ids(&ids)), false));
                    ask.push(("is_include_only_ids", t!(a.is_include_only_ids(&ids)), false));
                    // foreign ones and a single own one
                    let mut mix: Vec<TypeId> = (0..72).filter(|i| !is(*i)).map(|i| ts[i].id()).collect();
                    ask.push(("is_exclude_ids", t!(a.is_exclude_ids(&mix)), true));
                    mix.insert(k.min(mix.len()), ts[own[k]].id());
                    ask.push(("is_exclude_ids", t!(a.is_exclude_ids(&mix)), false));
                }
                for (f, got, want) in ask {
                    if got != want {
                        return Err(format!("{f} with its own types but for place {k} is {got}"));
                    }
                    d.transitions += 1;
                }
            }
        }
        t!(drop(a));
        Ok(d)
    }
    fn show(&self, p: u64) -> String {
        let ws = windows();
        format!("the archetype of the types {:?} of seventy-two, named {}", ws[p as usize / NAMING.len()], NAMING[p as usize % NAMING.len()])
    }
}
