//! P28: tuples of one to twelve component types through every operation that takes a tuple.
#![allow(dead_code)]
#[path = "../../alloc.rs"]
mod alloc;
#[path = "../../cli.rs"]
mod cli;
#[path = "../../comps.rs"]
mod comps;
#[path = "../../explore.rs"]
mod explore;
mod list;

use comps::*;
use division_ecs::{Archetype, ArchetypeBuilder, Component, Entity, ReadWriteAccess, ReadonlyAccess, Store, WriteAccess};
use explore::{Grid, GridJob, Job, PointDone};

#[global_allocator]
static GLOBAL: alloc::Checking = alloc::Checking;

comp!(C0, 0, u8);
comp!(C1, 1, u64);
comp!(C2, 2, [u8; 3]);
comp!(C3, 3, [u32; 5], 16);
comp!(C4, 4, u16);
comp!(C5, 5, [u64; 4]);
comp!(C6, 6, [u8; 40], 64);
comp!(C7, 7, u32);
comp!(C8, 8, [u16; 9]);
comp!(C9, 9, [u8; 129]);
comp!(C10, 10, [u8; 7]);
comp!(C11, 11, [u64; 9], 32);
const N: usize = 12;

pub struct Case {
    tup: TupOps,
    cloned: fn(&Store, Entity, &dyn Fn(u8, usize, usize) -> bool) -> Option<Result<usize, u8>>,
    accs: Vec<AccOps>,
}

fn cloned<T: Tup>(s: &Store, e: Entity, ok: &dyn Fn(u8, usize, usize) -> bool) -> Option<Result<usize, u8>> {
    let r = t!(s.get_components_refs::<T>(e))?;
    let v = T::cloned(r);
    let mut p = Parts::new();
    T::parts_of(&v, &mut p);
    for q in p.iter() {
        if !ok(q.id, q.addr, 0) {
            return Some(Err(q.id));
        }
    }
    Some(Ok(p.n))
}

pub fn one<T: Tup>() -> Case {
    Case { tup: tup::<T>(), cloned: cloned::<T>, accs: vec![acc_r::<T>(), acc_w::<T>()] }
}

pub fn many<T: Tup, R: Tup, W: Tup>() -> Case {
    Case {
        tup: tup::<T>(),
        cloned: cloned::<T>,
        accs: vec![
            acc::<ReadonlyAccess<T>>("read", mask_of(T::ids()), 0),
            acc::<WriteAccess<T>>("write", 0, mask_of(T::ids())),
            acc::<ReadWriteAccess<R, W>>("read_write", mask_of(R::ids()), mask_of(W::ids())),
        ],
    }
}

fn singles() -> [TupOps; N] {
    [
        tup::<C0>(),
        tup::<C1>(),
        tup::<C2>(),
        tup::<C3>(),
        tup::<C4>(),
        tup::<C5>(),
        tup::<C6>(),
        tup::<C7>(),
        tup::<C8>(),
        tup::<C9>(),
        tup::<C10>(),
        tup::<C11>(),
    ]
}

fn sizes() -> [usize; N] {
    use std::mem::size_of as s;
    [
        s::<C0>(),
        s::<C1>(),
        s::<C2>(),
        s::<C3>(),
        s::<C4>(),
        s::<C5>(),
        s::<C6>(),
        s::<C7>(),
        s::<C8>(),
        s::<C9>(),
        s::<C10>(),
        s::<C11>(),
    ]
}

/// Entities with chosen component sets next to a plain model.
struct W {
    store: Store,
    ones: [TupOps; N],
    sizes: [usize; N],
    ents: Vec<(Entity, [Option<u64>; N])>,
    clock: u64,
    calls: u64,
}

impl W {
    fn seed(&mut self) -> u64 {
        self.clock += 1;
        self.clock.wrapping_mul(0x9E37_79B9_7F4A_7C15)
    }
    fn spawn(&mut self, order: &[u8]) {
        let e = t!(self.store.create_entity());
        self.calls += 1;
        let mut m = [None; N];
        for i in order {
            let s = self.seed();
            self.calls += 1;
            (self.ones[*i as usize].add)(&mut self.store, e, &|_| s);
            m[*i as usize] = Some(s);
        }
        self.ents.push((e, m));
    }
    fn mask(&self, k: usize) -> u128 {
        (0..N).filter(|i| self.ents[k].1[*i].is_some()).fold(0, |m, i| m | 1 << i)
    }
    /// Every component of every entity, read by itself.
    fn agree(&self, when: &str) -> Result<(), String> {
        for (k, (e, m)) in self.ents.iter().enumerate() {
            for i in 0..N {
                match ((self.ones[i].get)(&self.store, *e), m[i]) {
                    (None, None) => {}
                    (Some(p), Some(s)) => {
                        if !unsafe { holds(p.p[0].addr, self.sizes[i], s) } {
                            return Err(format!("{when}: component C{i} of entity {k} has not the value written last"));
                        }
                    }
                    (None, _) => return Err(format!("{when}: entity {k} lacks its component C{i}")),
                    _ => return Err(format!("{when}: entity {k} has a component C{i} it was not given")),
                }
            }
        }
        Ok(())
    }
    fn addr(&self, k: usize, id: u8) -> Option<usize> {
        (self.ones[id as usize].get)(&self.store, self.ents[k].0).map(|p| p.p[0].addr)
    }
    /// The parts of a tuple are the entity's own components, position by position.
    fn parts(&self, k: usize, ids: &[u8], p: &Parts, when: &str) -> Result<(), String> {
        if p.n != ids.len() {
            return Err(format!("{when}: {} parts instead of {}", p.n, ids.len()));
        }
        for (pos, (q, id)) in p.iter().zip(ids).enumerate() {
            if q.id != *id || self.addr(k, *id) != Some(q.addr) {
                return Err(format!("{when}: position {pos} is not component C{id} of entity {k}"));
            }
        }
        Ok(())
    }
    /// New values through the given parts.
    fn rewrite(&mut self, k: usize, p: &Parts) {
        for q in p.iter() {
            if q.mutable {
                let s = self.seed();
                unsafe { write_seed(q.addr, self.sizes[q.id as usize], s) };
                self.ents[k].1[q.id as usize] = Some(s);
            }
        }
    }
}

struct Tuples {
    cases: Vec<Case>,
}
unsafe impl Sync for Tuples {}

const STEPS: u64 = 9;
const WORLDS: u64 = 4;

impl Tuples {
    /// Worlds differ in the order entities and their components are made and in the entities there are.
    fn world(&self, c: &Case, kind: u64) -> W {
        let mut w = W {
            store: t!(Store::with_capacity(if kind == 1 { 1 } else { 8 })),
            ones: singles(),
            sizes: sizes(),
            ents: vec![],
            clock: 0,
            calls: 1,
        };
        let ids = &c.tup.ids;
        let all: Vec<u8> = (0..N as u8).collect();
        let mut sets: Vec<Vec<u8>> = vec![ids.clone(), all.clone(), vec![], ids.clone()];
        for i in ids {
            sets.push(ids.iter().copied().filter(|j| j != i).collect());
        }
        for i in &all {
            if !ids.contains(i) {
                let mut s = ids.clone();
                s.insert((*i as usize) % (s.len() + 1), *i);
                sets.push(s);
            }
        }
        match kind {
            1 => sets.reverse(),
            2 => {
                for s in &mut sets {
                    s.sort_unstable()
                }
            }
            3 => {
                for s in &mut sets {
                    s.reverse()
                }
                let n = sets.len();
                sets.rotate_left(n / 2);
                let more = sets.clone();
                sets.extend(more);
            }
            _ => {}
        }
        for s in &sets {
            w.spawn(s);
        }
        w
    }

    fn step(&self, c: &Case, step: u64, kind: u64) -> Result<u64, String> {
        let mut w = self.world(c, kind);
        w.agree("after setting up")?;
        let mask = c.tup.mask;
        let ids = &c.tup.ids;
        let n = w.ents.len();
        let full: Vec<usize> = (0..n).filter(|k| w.mask(*k) & mask == mask).collect();
        match step {
            // reading and cloning
            0 => {
                for k in 0..n {
                    let e = w.ents[k].0;
                    let got = (c.tup.get)(&w.store, e);
                    if got.is_some() != full.contains(&k) {
                        return Err(format!("reading a tuple of entity {k} gives {}", if got.is_some() { "something" } else { "nothing" }));
                    }
                    if let Some(p) = got {
                        w.parts(k, ids, &p, "reading")?;
                    }
                    let m = w.ents[k].1;
                    let sizes = w.sizes;
                    match (c.cloned)(&w.store, e, &|id, addr, _| unsafe { holds(addr, sizes[id as usize], m[id as usize].unwrap()) }) {
                        Some(Err(id)) => return Err(format!("cloning the components of entity {k}: wrong C{id}")),
                        Some(Ok(x)) if x != ids.len() => return Err("cloning loses components".into()),
                        _ => {}
                    }
                    w.calls += 2;
                }
            }
            // writing
            1 => {
                for k in 0..n {
                    let e = w.ents[k].0;
                    let mut got = None;
                    let some = (c.tup.get_mut)(&mut w.store, e, &mut |p| got = Some(*p));
                    w.calls += 1;
                    if some != full.contains(&k) {
                        return Err(format!("mutable access to a tuple of entity {k} gives {}", if some { "something" } else { "nothing" }));
                    }
                    if let Some(p) = got {
                        w.parts(k, ids, &p, "mutable access")?;
                        if p.iter().any(|q| !q.mutable) {
                            return Err("mutable access is not mutable".into());
                        }
                        w.rewrite(k, &p);
                        w.agree("after writing through a tuple")?;
                    }
                }
            }
            // adding
            2 => {
                for k in 0..n {
                    let e = w.ents[k].0;
                    let base = w.seed();
                    (c.tup.add)(&mut w.store, e, &|id| base.wrapping_add(id as u64 * 0x0101_0307));
                    w.calls += 1;
                    for id in ids {
                        w.ents[k].1[*id as usize] = Some(base.wrapping_add(*id as u64 * 0x0101_0307));
                    }
                    w.agree("after adding a tuple")?;
                }
            }
            // removing
            3 => {
                for k in 0..n {
                    let e = w.ents[k].0;
                    (c.tup.remove)(&mut w.store, e);
                    w.calls += 1;
                    for id in ids {
                        w.ents[k].1[*id as usize] = None;
                    }
                    w.agree("after removing a tuple")?;
                }
            }
            // archetypes
            4 => {
                let a = (c.tup.archetype)();
                self.exactly(&w, &a, mask, "the archetype of a tuple")?;
                let mut b = ArchetypeBuilder::new();
                (c.tup.include)(&mut b);
                let b: Archetype = t!(b.build());
                self.exactly(&w, &b, mask, "a builder that included a tuple")?;
                if !t!(a.is_same_as(&b)) {
                    return Err("the archetype of a tuple differs from the one a builder makes of it".into());
                }
                for i in 0..N {
                    // all types, without one, then without the tuple
                    let mut b = ArchetypeBuilder::new();
                    for (j, one) in w.ones.iter().enumerate() {
                        if j != i {
                            (one.include)(&mut b);
                        }
                    }
                    let without: Archetype = t!(b.build());
                    let full = 0xFFF & !(1 << i);
                    if (c.tup.included_in)(&without) != (mask & !full == 0) {
                        return Err(format!("an archetype without C{i} gives a wrong answer about the tuple"));
                    }
                    if full & !mask == 0 {
                        continue; // an archetype has at least one type
                    }
                    (c.tup.exclude)(&mut b);
                    let less: Archetype = t!(b.build());
                    self.exactly(&w, &less, full & !mask, "a builder that excluded a tuple")?;
                    w.calls += 2;
                }
                let e = t!(w.store.create_entity_with_archetype(&a));
                let s = w.seed();
                (c.tup.get_mut)(&mut w.store, e, &mut |p| {
                    for q in p.iter() {
                        unsafe { write_seed(q.addr, w.sizes[q.id as usize], s.wrapping_add(q.id as u64)) };
                    }
                });
                let mut m = [None; N];
                for id in ids {
                    m[*id as usize] = Some(s.wrapping_add(*id as u64));
                }
                w.ents.push((e, m));
                w.agree("after creating an entity from a tuple's archetype")?;
            }
            // queries: 5 over all, 6 over a list, 7 over an order group, 8 all of them before and after changes
            _ => {
                let kinds: &[Kind] = match step {
                    5 => &[Kind::Comp],
                    6 => &[Kind::List],
                    7 => &[Kind::Ord(0)],
                    _ => &[Kind::Comp, Kind::List, Kind::Ord(0)],
                };
                let mut line: Vec<usize> = (0..n).rev().collect();
                if n > 2 {
                    line.swap(0, n / 2);
                }
                for k in &line {
                    t!(w.store.add_entity_order_by::<G0>(w.ents[*k].0));
                }
                let list: Vec<Entity> = line.iter().map(|k| w.ents[*k].0).collect();
                let mut objs: Vec<(usize, Kind, Box<dyn QueryObj>)> = vec![];
                for (i, a) in c.accs.iter().enumerate() {
                    for kind in kinds {
                        objs.push((i, *kind, a.make(*kind)));
                    }
                }
                for round in 0..if step == 8 { 2 } else { 1 } {
                    for (i, kind, q) in &mut objs {
                        for form in [Form::Entities, Form::Plain] {
                            self.query(c, &mut w, &c.accs[*i], *kind, q.as_mut(), &line, &list, form)?;
                        }
                    }
                    if step == 8 && round == 0 {
                        for k in 0..n {
                            if k % 3 == 1 {
                                (c.tup.remove)(&mut w.store, w.ents[k].0);
                                for id in ids {
                                    w.ents[k].1[*id as usize] = None;
                                }
                            } else if k % 3 == 2 {
                                let base = w.seed();
                                (c.tup.add)(&mut w.store, w.ents[k].0, &|id| base ^ (id as u64) << 20);
                                for id in ids {
                                    w.ents[k].1[*id as usize] = Some(base ^ (*id as u64) << 20);
                                }
                            }
                        }
                        w.agree("after changing components through a tuple")?;
                    }
                }
            }
        }
        Ok(w.calls)
    }

    fn exactly(&self, w: &W, a: &Archetype, mask: u128, what: &str) -> Result<(), String> {
        if t!(a.component_count()) != mask.count_ones() as usize {
            return Err(format!("{what} has {} types", t!(a.component_count())));
        }
        for i in 0..N {
            if t!(a.included_ids().contains(&w.ones[i].type_ids[0])) != (mask & (1 << i) != 0) {
                return Err(format!("{what} is wrong about C{i}"));
            }
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn query(&self, c: &Case, w: &mut W, a: &AccOps, kind: Kind, q: &mut dyn QueryObj, line: &[usize], list: &[Entity], form: Form) -> Result<(), String> {
        let n = w.ents.len();
        let mask = c.tup.mask;
        let want: Vec<usize> = match kind {
            Kind::Comp => (0..n).filter(|k| w.mask(*k) & mask == mask).collect(),
            _ => line.iter().copied().filter(|k| w.mask(*k) & mask == mask).collect(),
        };
        let y = q.run(&w.store, &Run { list, form, how: How::Each, take: None, limit: 2 * n + 8 }, &mut |_| {});
        w.calls += 1;
        let what = format!("a {} query ({kind:?}, {form:?})", a.name);
        if y.items.len() != want.len() {
            return Err(format!("{what} yields {} items instead of {}", y.items.len(), want.len()));
        }
        let mut seen = vec![false; n];
        for (pos, it) in y.items.iter().enumerate() {
            let first = it.parts.p[0];
            let Some(k) = (0..n).find(|k| w.addr(*k, first.id) == Some(first.addr)) else {
                return Err(format!("{what}: item {pos} belongs to no entity"));
            };
            if seen[k] || !want.contains(&k) || (kind != Kind::Comp && want[pos] != k) {
                return Err(format!("{what}: item {pos} should not be entity {k}"));
            }
            seen[k] = true;
            if form == Form::Entities && it.entity != Some(w.ents[k].0) {
                return Err(format!("{what}: item {pos} carries another entity than its components"));
            }
            if it.parts.iter().any(|p| p.mutable != (a.write & (1 << p.id) != 0)) {
                return Err(format!("{what}: a wrong part is mutable"));
            }
            w.parts(k, &c.tup.ids, &it.parts, &what)?;
            let parts = it.parts;
            w.rewrite(k, &parts);
        }
        w.agree(&format!("after writing through {what}"))
    }
}

impl Grid for Tuples {
    fn points(&self) -> u64 {
        self.cases.len() as u64 * STEPS * WORLDS
    }
    fn run(&self, point: u64) -> Result<PointDone, String> {
        let (i, r) = ((point / (STEPS * WORLDS)) as usize, point % (STEPS * WORLDS));
        let calls = self.step(&self.cases[i], r / WORLDS, r % WORLDS)?;
        Ok(PointDone { states: 1, transitions: calls })
    }
    fn show(&self, point: u64) -> String {
        let (i, r) = ((point / (STEPS * WORLDS)) as usize, point % (STEPS * WORLDS));
        let what = [
            "reading and cloning",
            "writing",
            "adding",
            "removing",
            "archetypes",
            "component queries",
            "entity list queries",
            "ordered queries",
            "queries across changes",
        ];
        let ids: Vec<String> = self.cases[i].tup.ids.iter().map(|i| format!("C{i}")).collect();
        format!("{} through ({}), world {}", what[(r / WORLDS) as usize], ids.join(","), r % WORLDS)
    }
}

fn jobs(prop: &str, _thorough: bool) -> Vec<Box<dyn Job>> {
    match prop {
        "P28" => vec![Box::new(GridJob { name: "tuples".to_string(), grid: Tuples { cases: list::all() } })],
        _ => vec![],
    }
}

fn main() {
    cli::run(jobs);
}
