//! The store under test next to its reference model.
use crate::alloc::{self, H};
use crate::comps::*;
use crate::explore::{guarded, Op, System};
use division_ecs::{Entity, Store};
use std::collections::{HashMap, HashSet};

// ------------------------------------------------------------------ operations

pub mod k {
    pub const CREATE: u8 = 1;
    pub const CREATE_WITH: u8 = 2; // c: index of a tuple
    pub const DESTROY: u8 = 3; // a
    pub const ADD: u8 = 4; // a, c: index of a tuple
    pub const REMOVE: u8 = 5;
    pub const WRITE: u8 = 6;
    pub const TAG: u8 = 7; // a, c: tag
    pub const UNTAG: u8 = 8;
    pub const PUSH: u8 = 9; // a, c: group
    pub const NEXT: u8 = 10; // a after b
    pub const PREV: u8 = 11; // a before b
    pub const LEAVE: u8 = 12;
    pub const QWRITE: u8 = 13; // c: access, a: kind (0 comp, 1 list, 2.. ordered), b: 0 plain, 1 with entities
    pub const OBSERVE: u8 = 14;
    pub const QUERY: u8 = 15; // c: slot, a: items taken (MAX: all)
    pub const MOVE: u8 = 16; // the store goes to another place in memory
    pub const SWAP: u8 = 17; // with store a
    pub const SHIFT: u8 = 18; // c: slot
    pub const LOOK: u8 = 19; // c: which look, a: its parameter, b: 0 of all entities, h + 1 of one
}

/// What one look asks for.
pub mod lk {
    pub const ALIVE: u16 = 0;
    pub const KINDS: u16 = 1;
    pub const READ: u16 = 2; // a: tuple
    pub const READ_MUT: u16 = 3; // a: tuple
    pub const TAG: u16 = 4; // a: tag
    pub const NEAR: u16 = 5; // a: group
    pub const ENDS: u16 = 6; // a: group
    pub const QUERY: u16 = 7; // a: access
    pub const LIST: u16 = 8; // a: access
    pub const ORDERED: u16 = 9; // a: access | group << 8
    pub const FILTER: u16 = 10; // a: access | tag << 8
    pub const CAPACITY: u16 = 11;
    pub const AFTER: u16 = 12; // a: group
    pub const BEFORE: u16 = 13; // a: group
    pub const FIRST: u16 = 14; // a: group
    pub const LAST: u16 = 15; // a: group
}

/// Generators of operations; each is expanded over the entities of a state.
#[derive(Clone, Debug)]
pub enum Gen {
    Create,
    CreateWith(u32),
    Destroy,
    Add(u32),
    Remove(u32),
    Write(u32),
    Tag(u8),
    Untag(u8),
    Push(u8),
    Next(u8),
    Prev(u8),
    Leave(u8),
    /// every way to misuse the insertions of a group
    Misuse(u8),
    QWrite(u16, u8, u8),
    Observe,
    Query(u16, u32),
    /// the store is moved in memory
    Move,
    /// the store changes places with another one
    Swap(u8),
    /// a query object is moved in memory
    Shift(u16),
    /// one question, judged at once
    Look(u16, u32),
    /// one question about one entity, for each of them
    Ask(u16, u32),
    /// the operation through handles of destroyed entities
    DeadDestroy,
    DeadAdd(u32),
    DeadRemove(u32),
    DeadWrite(u32),
    DeadTag(u8),
    DeadUntag(u8),
    DeadPush(u8),
    DeadNext(u8),
    DeadPrev(u8),
    DeadLeave(u8),
}

pub mod o {
    pub const LIVE: u32 = 1;
    pub const DEAD: u32 = 2;
    pub const VAL: u32 = 4;
    pub const SET: u32 = 8;
    pub const MEM: u32 = 16;
    pub const CQ: u32 = 32;
    pub const EQ: u32 = 64;
    pub const OQ: u32 = 128;
    pub const FILTER: u32 = 256;
    pub const LEN: u32 = 512;
    pub const TAG: u32 = 1024;
    pub const ORD: u32 = 2048;
    pub const CAP: u32 = 4096;
    pub const ITER: u32 = 8192;
    pub const LEAK: u32 = 16384;
    pub const MISUSE: u32 = 32768;
    pub const PAIRS: u32 = 65536;
    pub const ALL: u32 = LIVE | DEAD | VAL | SET | CQ | EQ | OQ | FILTER | TAG | ORD | CAP;
}

#[derive(Clone)]
pub struct Scene {
    pub name: String,
    pub menu: &'static Menu,
    /// initial capacity of each store (0: Store::new())
    pub caps: Vec<usize>,
    pub prefix: Vec<Op>,
    pub gens: Vec<Gen>,
    pub max_live: usize,
    pub max_issued: usize,
    pub depth: usize,
    pub oracles: u32,
    /// accesses (indices into menu.accs) used by query oracles; empty: all
    pub accs: Vec<usize>,
    /// every list of handles up to this length, and the long lists
    pub list_len: usize,
    pub long_lists: bool,
    pub tags: u8,
    pub groups: u8,
    /// long-lived query objects
    pub slots: Vec<(Kind, usize)>,
    /// operations on dead handles are judged by the next check, not one by one
    pub batch: bool,
    /// all stores undergo the same operations and are compared
    pub lockstep: bool,
    /// moves in memory in a history
    pub max_moves: u8,
}

impl Scene {
    pub fn new(name: &str, menu: &'static Menu, cap: usize) -> Scene {
        Scene {
            name: name.into(),
            menu,
            caps: vec![cap],
            prefix: vec![],
            gens: vec![],
            max_live: 4,
            max_issued: 64,
            depth: 5,
            oracles: 0,
            accs: vec![],
            list_len: 2,
            long_lists: false,
            tags: 0,
            groups: 0,
            slots: vec![],
            batch: false,
            lockstep: false,
            max_moves: 2,
        }
    }
}

// ------------------------------------------------------------------ model

#[derive(Clone)]
pub struct MEnt {
    pub alive: bool,
    pub set: u128,
    pub tog: u128,
    pub tags: u128,
}

#[derive(Clone, Default)]
pub struct Model {
    pub ents: Vec<MEnt>,
    pub groups: Vec<Vec<u32>>,
    pub live: usize,
}

impl Model {
    pub fn alive(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.ents.len()).filter(|i| self.ents[*i].alive)
    }
    pub fn dead(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.ents.len()).filter(|i| !self.ents[*i].alive)
    }
    fn matching(&self, mask: u128) -> Vec<usize> {
        self.alive().filter(|i| self.ents[*i].set & mask == mask).collect()
    }
    fn member(&self, g: usize, h: u32) -> bool {
        self.groups[g].contains(&h)
    }
}

pub fn seed(store: usize, h: usize, id: u8, tog: u128) -> u64 {
    let t = (tog >> id) & 1;
    let low = (h as u64 * 8 + id as u64 * 2 + t as u64) & 0xFF;
    let mut z = ((store as u64) << 48) ^ ((h as u64) << 16) ^ ((id as u64) << 8) ^ t as u64;
    z = (z ^ 0x1234_5678_9ABC_DEF1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^= z >> 32;
    (z & !0xFF) | (low ^ (store as u64 * 0x55))
}

pub struct World {
    pub store: Option<Box<Store>>,
    pub handles: Vec<Entity>,
    pub model: Model,
    pub max_cap: usize,
    /// handle to its number
    pub index: HashMap<(u32, u32), usize>,
    /// what its values are derived from, wherever it is
    pub id: usize,
}

impl World {
    pub fn number(&self, e: Entity) -> Option<usize> {
        self.index.get(&(e.id(), e.version())).copied()
    }
    fn issued(&mut self, e: Entity) {
        self.index.insert((e.id(), e.version()), self.handles.len());
        self.handles.push(e);
    }
}

pub struct Run {
    pub w: Vec<World>,
    pub moves: u8,
    pub slots: Vec<Box<dyn QueryObj>>,
    /// the last look, and the state it was taken in: what it may have left behind is not in the stores
    pub look: u128,
}

pub struct StoreSys {
    pub sc: Scene,
    pub debug: bool,
    dead_matters: bool,
}

impl StoreSys {
    pub fn new(sc: Scene) -> StoreSys {
        let dead_matters = sc.oracles & (o::LIVE | o::DEAD | o::EQ) != 0;
        StoreSys { sc, debug: cfg!(debug_assertions), dead_matters }
    }
}

#[derive(PartialEq)]
enum Expect {
    Done,
    Refused,
    Inert,
}

fn short(idx: &[usize]) -> String {
    if idx.len() <= 16 {
        format!("{idx:?}")
    } else {
        format!("{:?}... ({} handles)", &idx[..16], idx.len())
    }
}

fn parts_at(st: &Store, menu: &Menu, e: Entity, id: u8) -> Option<usize> {
    (menu.tups[menu.single[id as usize]].get)(st, e).and_then(|p| p.addr_of(id))
}

impl StoreSys {
    fn menu(&self) -> &'static Menu {
        self.sc.menu
    }

    fn expect(&self, m: &Model, op: Op) -> Expect {
        let alive = |i: u32| m.ents[i as usize].alive;
        match op.k {
            k::CREATE | k::CREATE_WITH | k::QWRITE | k::OBSERVE | k::QUERY | k::MOVE | k::SWAP | k::SHIFT | k::LOOK => Expect::Done,
            k::PUSH => {
                if !alive(op.a) {
                    Expect::Inert
                } else if m.member(op.c as usize, op.a) {
                    Expect::Refused
                } else {
                    Expect::Done
                }
            }
            k::NEXT | k::PREV => {
                if !alive(op.a) || !alive(op.b) {
                    Expect::Inert
                } else if m.member(op.c as usize, op.a) || !m.member(op.c as usize, op.b) {
                    Expect::Refused
                } else {
                    Expect::Done
                }
            }
            _ => {
                if alive(op.a) {
                    Expect::Done
                } else {
                    Expect::Inert
                }
            }
        }
    }

    fn apply(&self, w: &mut World, si: usize, op: Op) -> Result<(), String> {
        let menu = self.menu();
        let h = op.a as usize;
        let tup = &menu.tups[if matches!(op.k, k::CREATE_WITH | k::ADD | k::REMOVE | k::WRITE) { op.c as usize } else { 0 }];
        let mask = tup.mask;
        let st: &mut Store = w.store.as_mut().unwrap();
        let ent = |i: u32| w.handles[i as usize];
        match op.k {
            k::CREATE => {
                let e = t!(st.create_entity());
                self.is_new(w, e)?;
                w.issued(e);
            }
            k::CREATE_WITH => {
                let a = (tup.archetype)();
                let e = t!(st.create_entity_with_archetype(&a));
                t!(drop(a));
                self.is_new(w, e)?;
                let h = w.handles.len();
                w.issued(e);
                let st: &mut Store = w.store.as_mut().unwrap();
                let ok = (tup.get_mut)(st, e, &mut |p| {
                    for q in p.iter() {
                        if alloc::arena().owns(q.addr, menu.sizes[q.id as usize]) {
                            unsafe { write_seed(q.addr, menu.sizes[q.id as usize], seed(si, h, q.id, 0)) }
                        }
                    }
                });
                if !ok {
                    return Err("a new entity cannot be asked for the components it was created with".into());
                }
            }
            k::DESTROY => t!(st.destroy_entity(ent(op.a))),
            k::ADD => {
                let tog = w.model.ents[h].tog ^ mask;
                (tup.add)(st, ent(op.a), &|id| seed(si, h, id, tog));
            }
            k::REMOVE => (tup.remove)(st, ent(op.a)),
            k::WRITE => {
                let tog = w.model.ents[h].tog ^ mask;
                let some = (tup.get_mut)(st, ent(op.a), &mut |p| {
                    for q in p.iter() {
                        if alloc::arena().owns(q.addr, menu.sizes[q.id as usize]) {
                            unsafe { write_seed(q.addr, menu.sizes[q.id as usize], seed(si, h, q.id, tog)) }
                        }
                    }
                });
                let want = w.model.ents[h].alive && w.model.ents[h].set & mask == mask;
                if some != want {
                    return Err(format!(
                        "mutable access to components {} of e{h} is {} but should be {}",
                        self.names(mask), if some { "granted" } else { "denied" }, if want { "granted" } else { "denied" }
                    ));
                }
            }
            k::TAG => (tag(op.c as usize).add)(st, ent(op.a)),
            k::UNTAG => (tag(op.c as usize).remove)(st, ent(op.a)),
            k::PUSH => (group(op.c as usize).push)(st, ent(op.a)),
            k::NEXT => (group(op.c as usize).next)(st, ent(op.a), ent(op.b)),
            k::PREV => (group(op.c as usize).prev)(st, ent(op.a), ent(op.b)),
            k::LEAVE => (group(op.c as usize).leave)(st, ent(op.a)),
            _ => unreachable!(),
        }
        Ok(())
    }

    pub fn apply_model(&self, m: &mut Model, op: Op) {
        let h = op.a as usize;
        let mask = match op.k {
            k::CREATE_WITH | k::ADD | k::REMOVE | k::WRITE => self.menu().tups[op.c as usize].mask,
            _ => 0,
        };
        match op.k {
            k::CREATE => {
                m.ents.push(MEnt { alive: true, set: 0, tog: 0, tags: 0 });
                m.live += 1;
            }
            k::CREATE_WITH => {
                m.ents.push(MEnt { alive: true, set: mask, tog: 0, tags: 0 });
                m.live += 1;
            }
            k::DESTROY => {
                m.ents[h] = MEnt { alive: false, set: 0, tog: 0, tags: 0 };
                m.live -= 1;
                for g in &mut m.groups {
                    g.retain(|x| *x != op.a);
                }
            }
            k::ADD => {
                m.ents[h].set |= mask;
                m.ents[h].tog ^= mask;
            }
            k::REMOVE => m.ents[h].set &= !mask,
            k::WRITE => {
                if m.ents[h].set & mask == mask {
                    m.ents[h].tog ^= mask;
                }
            }
            k::TAG => m.ents[h].tags |= 1 << op.c,
            k::UNTAG => m.ents[h].tags &= !(1 << op.c),
            k::PUSH => m.groups[op.c as usize].push(op.a),
            k::NEXT => {
                let g = &mut m.groups[op.c as usize];
                let i = g.iter().position(|x| *x == op.b).unwrap();
                g.insert(i + 1, op.a);
            }
            k::PREV => {
                let g = &mut m.groups[op.c as usize];
                let i = g.iter().position(|x| *x == op.b).unwrap();
                g.insert(i, op.a);
            }
            k::LEAVE => m.groups[op.c as usize].retain(|x| *x != op.a),
            _ => {}
        }
    }

    pub fn names(&self, mask: u128) -> String {
        let v: Vec<String> = (0..self.menu().n).filter(|i| mask & (1 << i) != 0).map(|i| format!("C{i}")).collect();
        v.join("+")
    }

    fn list_of_all(&self, w: &World) -> Vec<Entity> {
        w.handles.clone()
    }

    /// Writes a new value through every item of a query.
    fn qwrite(&self, w: &mut World, op: Op) -> Result<(), String> {
        let si = w.id;
        let menu = self.menu();
        let ac = &menu.accs[op.c as usize];
        let kind = match op.a {
            0 => Kind::Comp,
            1 => Kind::List,
            g => Kind::Ord(g as u8 - 2),
        };
        let st: &Store = w.store.as_ref().unwrap();
        // who lives where, by direct reads
        let mut at: HashMap<(usize, u8), usize> = HashMap::new();
        for h in w.model.alive() {
            for id in 0..menu.n as u8 {
                if w.model.ents[h].set & (1 << id) != 0 {
                    if let Some(a) = parts_at(st, menu, w.handles[h], id) {
                        at.insert((a, id), h);
                    }
                }
            }
        }
        let list = self.list_of_all(w);
        let mut q = ac.make(kind);
        let mut err: Option<String> = None;
        let mut touched: HashSet<(usize, u8)> = HashSet::new();
        let model = &w.model;
        let handles = &w.handles;
        let number = |e| w.number(e);
        q.run(
            st,
            &Run_ { list: &list, form: if op.b == 0 { Form::Plain } else { Form::Entities }, how: How::Each, take: None, limit: 4 * handles.len() + 16 },
            &mut |it| {
                for p in it.parts.iter() {
                    let size = menu.sizes[p.id as usize];
                    let owner = match it.entity {
                        Some(e) => number(e).filter(|h| model.ents[*h].alive),
                        None => at.get(&(p.addr, p.id)).copied(),
                    };
                    let Some(h) = owner else {
                        err.get_or_insert(format!("a {} query item belongs to no live entity with C{}", ac.name, p.id));
                        continue;
                    };
                    if !alloc::arena().owns(p.addr, size) {
                        err.get_or_insert(format!("a {} query item for e{h} lies outside of the store's memory", ac.name));
                        continue;
                    }
                    let again = touched.contains(&(h, p.id)); // listed twice
                    if p.mutable {
                        let tog = model.ents[h].tog ^ (1 << p.id);
                        unsafe { write_seed(p.addr, size, seed(si, h, p.id, tog)) };
                        if !again {
                            touched.insert((h, p.id));
                        }
                    } else if !unsafe { holds(p.addr, size, seed(si, h, p.id, model.ents[h].tog)) } {
                        err.get_or_insert(format!("the read part of a {} query item shows another value than e{h}'s C{}", ac.name, p.id));
                    }
                }
            },
        );
        t!(drop(q));
        if let Some(e) = err {
            return Err(e);
        }
        for (h, id) in touched {
            w.model.ents[h].tog ^= 1 << id;
        }
        Ok(())
    }

    /// Runs a long-lived query object and a fresh one.
    fn query(&self, r: &mut Run, op: Op) -> Result<(), String> {
        let (kind, ai) = self.sc.slots[op.c as usize];
        let ac = &self.menu().accs[ai];
        let w = &r.w[op.s as usize];
        let st: &Store = w.store.as_ref().unwrap();
        let list = self.list_of_all(w);
        for form in [Form::Entities, Form::Plain] {
            let spec = Run_ {
                list: &list,
                form,
                how: How::Each,
                take: (op.a != u32::MAX).then_some(op.a as usize),
                limit: 4 * list.len() + 16,
            };
            let old = r.slots[op.c as usize].run(st, &spec, &mut |_| {});
            let mut fresh = ac.make(kind);
            let new = fresh.run(st, &spec, &mut |_| {});
            t!(drop(fresh));
            if old.items != new.items {
                return Err(format!(
                    "a reused {} {:?} query yields {} items where a fresh one yields {} (or other ones)",
                    ac.name, kind, old.items.len(), new.items.len()
                ));
            }
            if old.lens != new.lens || old.hints != new.hints || old.revived != new.revived {
                return Err(format!("a reused {} {:?} query reports other lengths than a fresh one", ac.name, kind));
            }
        }
        Ok(())
    }

    fn is_new(&self, w: &World, e: Entity) -> Result<(), String> {
        match w.number(e) {
            Some(old) if self.sc.oracles & o::LIVE != 0 => {
                Err(format!("the new handle e{} equals the earlier handle e{old}", w.handles.len()))
            }
            _ => Ok(()),
        }
    }

    /// Everything that can be observed through live handles.
    fn snapshot(&self, w: &mut World) -> Vec<(String, u128)> {
        let mut out = vec![];
        let menu = self.menu();
        let live: Vec<usize> = w.model.alive().collect();
        for h in live {
            let e = w.handles[h];
            let st: &Store = w.store.as_ref().unwrap();
            let mut f = |what: String, x: u64, y: u64| out.push((what, (x as u128) << 64 | y as u128));
            f(format!("the liveness of e{h}"), guarded(|| t!(st.is_alive(e))).unwrap_or(false) as u64, 0);
            let set = guarded(|| {
                t!(st.get_entity_archetype(e)).map(|a| {
                    (0..menu.n).filter(|i| t!(a.find_component_index(menu.types[*i])).is_some()).map(|i| 1u128 << i).sum::<u128>()
                })
            });
            let v = set.clone().ok().flatten().unwrap_or(0);
            f(format!("the component set of e{h}"), (v >> 64) as u64 | (set.is_err() as u64) << 63, v as u64);
            for id in 0..menu.n as u8 {
                let a = guarded(|| parts_at(st, menu, e, id)).ok().flatten().unwrap_or(0);
                f(format!("the place of C{id} of e{h}"), a as u64, 0);
                let size = menu.sizes[id as usize];
                if a != 0 && alloc::arena().owns(a, size) {
                    let mut hs = H::new();
                    for b in unsafe { std::slice::from_raw_parts(a as *const u8, size) } {
                        hs.add(*b as u64);
                    }
                    let d = hs.done();
                    f(format!("the value of C{id} of e{h}"), (d >> 64) as u64, d as u64);
                }
            }
            for n in 0..self.sc.tags {
                let x = guarded(|| (tag(n as usize).has)(st, e)).unwrap_or(false);
                f(format!("tag T{n} of e{h}"), x as u64, 0);
            }
            for g in 0..self.sc.groups {
                let gr = group(g as usize);
                let (a, b) = (guarded(|| (gr.after)(st, e)).ok().flatten(), guarded(|| (gr.before)(st, e)).ok().flatten());
                let n = |x: Option<Entity>| x.map_or(u64::MAX, |x| (x.id() as u64) << 32 | x.version() as u64);
                f(format!("the place of e{h} in group G{g}"), n(a), n(b));
            }
        }
        let st: &Store = w.store.as_ref().unwrap();
        for g in 0..self.sc.groups {
            let gr = group(g as usize);
            let (a, b) = (guarded(|| (gr.first)(st)).ok().flatten(), guarded(|| (gr.last)(st)).ok().flatten());
            let n = |x: Option<Entity>| x.map_or(u64::MAX, |x| (x.id() as u64) << 32 | x.version() as u64);
            out.push((format!("an end of group G{g}"), (n(a) as u128) << 64 | n(b) as u128));
        }
        for ac in &menu.accs[..menu.accs.len().min(4)] {
            let mut q = ac.make(Kind::Comp);
            let spec = Run_ { list: &[], form: Form::Entities, how: How::Each, take: None, limit: 4 * w.handles.len() + 16 };
            let y = guarded(|| q.run(st, &spec, &mut |_| {}));
            let mut hs = H::new();
            if let Ok(y) = y {
                let mut v: Vec<(u32, u32)> = y.items.iter().map(|i| i.entity.map_or((0, 0), |e| (e.id(), e.version()))).collect();
                v.sort();
                for (i, e) in v {
                    hs.add((i as u64) << 32 | e as u64);
                }
            }
            out.push((format!("the result of a {} query", ac.name), hs.done()));
            t!(drop(q));
        }
        out
    }

    /// The stores, the queries and what the model knows of them.
    fn state(&self, r: &Run) -> u128 {
        let mut h = H::new();
        let mut roots: Vec<usize> = Vec::new();
        for w in &r.w {
            roots.push(&**w.store.as_ref().unwrap() as *const Store as usize);
        }
        for s in &r.slots {
            roots.push(s.root());
        }
        alloc::canonical_heap(&roots, Store::data_page_size(), &mut h);
        h.add(r.moves as u64);
        for w in &r.w {
            h.add(0x51 + ((w.id as u64) << 8));
            for (i, e) in w.model.ents.iter().enumerate() {
                if !e.alive && !self.dead_matters {
                    continue;
                }
                let hd = w.handles[i];
                h.add((hd.id() as u64) << 32 | hd.version() as u64);
                h.add(e.alive as u64);
                for x in [e.set, e.tog, e.tags] {
                    h.add(x as u64);
                    if x >> 64 != 0 {
                        h.add((x >> 64) as u64);
                    }
                }
            }
            for g in &w.model.groups {
                h.add(g.len() as u64 | 0xAB << 56);
                for x in g {
                    // by handle, so that renumbering does not matter
                    h.add(w.handles[*x as usize].id() as u64);
                }
            }
        }
        h.done()
    }

    /// One question to one store, judged at once.
    fn look(&self, w: &mut World, op: Op) -> Result<(), String> {
        let menu = self.menu();
        let (si, p) = (w.id, op.a as usize);
        let m = &w.model;
        let n = w.handles.len();
        // whom it is about
        let about = if op.b == 0 { 0..n } else { op.b as usize - 1..op.b as usize };
        let st: &mut Store = w.store.as_mut().unwrap();
        let said = |h: usize, what: &str, yes: bool| {
            format!("asked whether e{h} {what}, the store says {}", if yes { "yes" } else { "no" })
        };
        match op.c {
            lk::ALIVE => {
                for h in about {
                    let got = t!(st.is_alive(w.handles[h]));
                    if got != m.ents[h].alive {
                        return Err(said(h, "is alive", got));
                    }
                }
            }
            lk::KINDS => {
                for h in about {
                    let set = m.ents[h].set;
                    let got = t!(st.get_entity_archetype(w.handles[h])).map_or(0, |a| {
                        (0..menu.n).filter(|i| t!(a.find_component_index(menu.types[*i])).is_some()).map(|i| 1u128 << i).sum()
                    });
                    if got != set {
                        return Err(format!("e{h} is said to have {} but has {}", self.names(got), self.names(set)));
                    }
                    let got = t!(st.is_valid_entity_with_archetype(w.handles[h]));
                    if got != (set != 0) {
                        return Err(said(h, "has any component", got));
                    }
                }
            }
            lk::READ | lk::READ_MUT => {
                let tup = &menu.tups[p];
                for h in about {
                    let me = &m.ents[h];
                    let mut bad = false;
                    let mut look = |p: &Parts| {
                        for q in p.iter() {
                            let size = menu.sizes[q.id as usize];
                            bad |= !alloc::arena().owns(q.addr, size)
                                || !unsafe { holds(q.addr, size, seed(si, h, q.id, me.tog)) };
                        }
                    };
                    let got = if op.c == lk::READ {
                        (tup.get)(st, w.handles[h]).map(|p| look(&p)).is_some()
                    } else {
                        (tup.get_mut)(st, w.handles[h], &mut |p| look(p))
                    };
                    if got != (me.alive && me.set & tup.mask == tup.mask) {
                        return Err(said(h, &format!("has {}", self.names(tup.mask)), got));
                    }
                    if bad {
                        return Err(format!("reading {} of e{h} shows other values than it has", self.names(tup.mask)));
                    }
                }
            }
            lk::TAG => {
                for h in about {
                    let got = (tag(p).has)(st, w.handles[h]);
                    if got != (m.ents[h].tags & 1 << p != 0) {
                        return Err(said(h, &format!("has tag T{p}"), got));
                    }
                }
            }
            lk::NEAR | lk::AFTER | lk::BEFORE => {
                let (g, gr) = (&m.groups[p], group(p));
                for h in about.filter(|h| m.ents[*h].alive) {
                    let i = g.iter().position(|x| *x == h as u32);
                    let at = |i: Option<usize>| i.and_then(|i| g.get(i)).map(|x| w.handles[*x as usize]);
                    if op.c != lk::BEFORE && (gr.after)(st, w.handles[h]) != at(i.map(|i| i + 1))
                        || op.c != lk::AFTER && (gr.before)(st, w.handles[h]) != at(i.and_then(|i| i.checked_sub(1)))
                    {
                        return Err(format!("the neighbours told of e{h} in group G{p} are wrong"));
                    }
                }
            }
            lk::ENDS | lk::FIRST | lk::LAST => {
                let (g, gr) = (&m.groups[p], group(p));
                let of = |x: Option<&u32>| x.map(|x| w.handles[*x as usize]);
                if op.c != lk::LAST && (gr.first)(st) != of(g.first()) || op.c != lk::FIRST && (gr.last)(st) != of(g.last()) {
                    return Err(format!("the first or the last told of group G{p} is wrong"));
                }
            }
            lk::CAPACITY => {
                let c = t!(st.entities_capacity());
                if c < m.live || c < w.max_cap {
                    return Err(format!("the capacity is said to be {c} with {} alive, after {}", m.live, w.max_cap));
                }
                w.max_cap = c;
            }
            lk::QUERY | lk::LIST | lk::ORDERED | lk::FILTER => {
                let ac = &menu.accs[p & 0xFF];
                let more = p >> 8;
                let fits = |h: &usize| m.ents[*h].alive && m.ents[*h].set & ac.all() == ac.all();
                let (kind, form) = match op.c {
                    lk::QUERY => (Kind::Comp, Form::Entities),
                    lk::LIST => (Kind::List, Form::Entities),
                    lk::ORDERED => (Kind::Ord(more as u8), Form::Entities),
                    _ => (Kind::Comp, Form::Filter(more as u8)),
                };
                let mut want: Vec<usize> = match op.c {
                    lk::ORDERED => m.groups[more].iter().map(|h| *h as usize).filter(fits).collect(),
                    lk::FILTER => (0..n).filter(fits).filter(|h| m.ents[*h].tags & 1 << more != 0).collect(),
                    lk::LIST => about.clone().filter(fits).collect(),
                    _ => (0..n).filter(fits).collect(),
                };
                let list: Vec<Entity> = w.handles[about.clone()].to_vec();
                let mut q = ac.make(kind);
                let y = q.run(st, &Run_ { list: &list, form, how: How::Each, take: None, limit: 4 * n + 16 }, &mut |_| {});
                t!(drop(q));
                let mut got = vec![];
                for it in &y.items {
                    let e = it.entity.unwrap();
                    let Some(h) = w.index.get(&(e.id(), e.version())).copied() else {
                        return Err(format!("a {kind:?} {form:?} {} query yields an unknown handle", ac.name));
                    };
                    got.push(h);
                    for q in it.parts.iter() {
                        let size = menu.sizes[q.id as usize];
                        if !alloc::arena().owns(q.addr, size) || !unsafe { holds(q.addr, size, seed(si, h, q.id, m.ents[h].tog)) } {
                            return Err(format!("a {kind:?} {form:?} {} query shows another C{} of e{h} than it has", ac.name, q.id));
                        }
                    }
                }
                if matches!(op.c, lk::QUERY | lk::FILTER) {
                    got.sort();
                    want.sort();
                }
                if got != want {
                    return Err(format!(
                        "a {kind:?} {form:?} {}({},{}) query yields {} instead of {}", ac.name, self.names(ac.read), self.names(ac.write),
                        short(&got), short(&want)
                    ));
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }

    /// Calls every observer without judging it: state it may cache gets its chance to go stale.
    fn observe(&self, w: &mut World) {
        let menu = self.menu();
        let st: &mut Store = w.store.as_mut().unwrap();
        for h in 0..w.handles.len() {
            let e = w.handles[h];
            t!(st.is_alive(e));
            t!(st.get_entity_archetype(e).map(|a| a.component_count()));
            for m in 1..menu.tups.len() {
                (menu.tups[m].get)(st, e);
            }
            for n in 0..self.sc.tags {
                (tag(n as usize).has)(st, e);
            }
            for g in 0..self.sc.groups {
                (group(g as usize).after)(st, e);
                (group(g as usize).before)(st, e);
            }
        }
        for g in 0..self.sc.groups {
            (group(g as usize).first)(st);
            (group(g as usize).last)(st);
        }
        for ac in &menu.accs[..menu.accs.len().min(7)] {
            let mut kinds = vec![Kind::Comp, Kind::List];
            for g in 0..self.sc.groups.min(2) {
                kinds.push(Kind::Ord(g));
            }
            for kind in kinds {
                let mut q = ac.make(kind);
                q.run(
                    st,
                    &Run_ { list: &w.handles, form: Form::Entities, how: How::Each, take: None, limit: 4 * w.handles.len() + 16 },
                    &mut |_| {},
                );
                t!(drop(q));
            }
            for n in 0..self.sc.tags.min(NFILTERS) {
                let mut q = ac.make(Kind::Comp);
                q.run(
                    st,
                    &Run_ { list: &[], form: Form::Filter(n), how: How::Each, take: None, limit: 4 * w.handles.len() + 16 },
                    &mut |_| {},
                );
                t!(drop(q));
            }
        }
    }
}

use crate::comps::Run as Run_;

impl System for StoreSys {
    type Run = Run;

    fn start(&self) -> Result<Run, String> {
        let mut w = Vec::new();
        for cap in &self.sc.caps {
            if self.sc.lockstep {
                alloc::arena().habitat(w.len());
            }
            let store = guarded(|| t!(Box::new(if *cap == 0 { Store::new() } else { Store::with_capacity(*cap) })))
                .map_err(|e| format!("creating a store panicked: {e}"))?;
            let model = Model { groups: vec![vec![]; NGROUPS], ..Model::default() };
            w.push(World { store: Some(store), handles: vec![], model, max_cap: 0, index: HashMap::new(), id: w.len() });
        }
        let slots = guarded(|| self.sc.slots.iter().map(|(k, a)| self.menu().accs[*a].make(*k)).collect())?;
        let mut r = Run { w, slots, moves: 0, look: 0 };
        for op in &self.sc.prefix {
            self.step(&mut r, *op).map_err(|e| format!("in the prepared part of the history, at {}: {e}", self.show(*op)))?;
        }
        Ok(r)
    }

    fn enabled(&self, r: &Run, out: &mut Vec<Op>) {
        for s in 0..if self.sc.lockstep { 1 } else { r.w.len() } {
            let m = &r.w[s].model;
            let live: Vec<u32> = m.alive().map(|x| x as u32).collect();
            let dead: Vec<u32> = m.dead().map(|x| x as u32).collect();
            let mut put = |k: u8, c: u16, a: u32, b: u32| out.push(Op { k, s: s as u8, c, a, b });
            let room = m.live < self.sc.max_live && m.ents.len() < self.sc.max_issued;
            for g in &self.sc.gens {
                match g {
                    Gen::Create => {
                        if room {
                            put(k::CREATE, 0, 0, 0)
                        }
                    }
                    Gen::CreateWith(mask) => {
                        if room {
                            put(k::CREATE_WITH, *mask as u16, 0, 0)
                        }
                    }
                    Gen::Destroy => live.iter().for_each(|h| put(k::DESTROY, 0, *h, 0)),
                    Gen::Add(x) => live.iter().for_each(|h| put(k::ADD, *x as u16, *h, 0)),
                    Gen::Remove(x) => live.iter().for_each(|h| put(k::REMOVE, *x as u16, *h, 0)),
                    Gen::Write(x) => live.iter().for_each(|h| put(k::WRITE, *x as u16, *h, 0)),
                    Gen::Tag(x) => live.iter().for_each(|h| put(k::TAG, *x as u16, *h, 0)),
                    Gen::Untag(x) => live.iter().for_each(|h| put(k::UNTAG, *x as u16, *h, 0)),
                    Gen::Push(x) => live
                        .iter()
                        .filter(|h| !m.member(*x as usize, **h))
                        .for_each(|h| put(k::PUSH, *x as u16, *h, 0)),
                    Gen::Next(x) | Gen::Prev(x) => {
                        let kind = if matches!(g, Gen::Next(_)) { k::NEXT } else { k::PREV };
                        for h in live.iter().filter(|h| !m.member(*x as usize, **h)) {
                            for a in &m.groups[*x as usize] {
                                put(kind, *x as u16, *h, *a)
                            }
                        }
                    }
                    Gen::Leave(x) => live.iter().for_each(|h| put(k::LEAVE, *x as u16, *h, 0)),
                    Gen::Misuse(x) => {
                        let gi = *x as usize;
                        for h in &live {
                            if m.member(gi, *h) {
                                put(k::PUSH, *x as u16, *h, 0);
                            }
                            for a in &live {
                                if m.member(gi, *h) || !m.member(gi, *a) {
                                    put(k::NEXT, *x as u16, *h, *a);
                                    put(k::PREV, *x as u16, *h, *a);
                                }
                            }
                        }
                    }
                    Gen::QWrite(ac, kind, form) => put(k::QWRITE, *ac, *kind as u32, *form as u32),
                    Gen::Observe => put(k::OBSERVE, 0, 0, 0),
                    Gen::Query(slot, take) => put(k::QUERY, *slot, *take, 0),
                    Gen::Move => {
                        if r.moves < self.sc.max_moves {
                            put(k::MOVE, 0, 0, 0)
                        }
                    }
                    Gen::Swap(other) => {
                        if r.moves < self.sc.max_moves && (*other as usize) > s {
                            put(k::SWAP, 0, *other as u32, 0)
                        }
                    }
                    Gen::Shift(slot) => {
                        if r.moves < self.sc.max_moves {
                            put(k::SHIFT, *slot, 0, 0)
                        }
                    }
                    Gen::Look(what, of) => put(k::LOOK, *what, *of, 0),
                    Gen::Ask(what, of) => (0..m.ents.len() as u32).for_each(|h| put(k::LOOK, *what, *of, h + 1)),
                    Gen::DeadDestroy => dead.iter().for_each(|h| put(k::DESTROY, 0, *h, 0)),
                    Gen::DeadAdd(x) => dead.iter().for_each(|h| put(k::ADD, *x as u16, *h, 0)),
                    Gen::DeadRemove(x) => dead.iter().for_each(|h| put(k::REMOVE, *x as u16, *h, 0)),
                    Gen::DeadWrite(x) => dead.iter().for_each(|h| put(k::WRITE, *x as u16, *h, 0)),
                    Gen::DeadTag(x) => dead.iter().for_each(|h| put(k::TAG, *x as u16, *h, 0)),
                    Gen::DeadUntag(x) => dead.iter().for_each(|h| put(k::UNTAG, *x as u16, *h, 0)),
                    Gen::DeadPush(x) => dead.iter().for_each(|h| put(k::PUSH, *x as u16, *h, 0)),
                    Gen::DeadLeave(x) => dead.iter().for_each(|h| put(k::LEAVE, *x as u16, *h, 0)),
                    Gen::DeadNext(x) | Gen::DeadPrev(x) => {
                        let kind = if matches!(g, Gen::DeadNext(_)) { k::NEXT } else { k::PREV };
                        for d in &dead {
                            for a in &live {
                                put(kind, *x as u16, *d, *a);
                                put(kind, *x as u16, *a, *d);
                            }
                        }
                    }
                }
            }
        }
    }

    fn step(&self, r: &mut Run, op: Op) -> Result<(), String> {
        let si = op.s as usize;
        if self.sc.lockstep {
            alloc::arena().habitat(si);
            if si + 1 < r.w.len() {
                self.step(r, Op { s: op.s + 1, ..op })?;
                alloc::arena().habitat(si);
            }
        }
        match op.k {
            k::MOVE => {
                r.moves += 1;
                let old = r.w[si].store.take().unwrap();
                r.w[si].store = Some(t!(Box::new(*old)));
                return Ok(());
            }
            k::SWAP => {
                r.moves += 1;
                let (a, b) = r.w.split_at_mut(op.a as usize);
                let (a, b) = (&mut a[si], &mut b[0]);
                std::mem::swap(&mut **a.store.as_mut().unwrap(), &mut **b.store.as_mut().unwrap());
                // the boxes stay where they are
                std::mem::swap(&mut a.store, &mut b.store);
                std::mem::swap(a, b);
                return Ok(());
            }
            k::SHIFT => {
                r.moves += 1;
                r.slots[op.c as usize].shift();
                return Ok(());
            }
            k::QWRITE => return guarded(|| self.qwrite(&mut r.w[si], op)).map_err(|e| format!("a query panicked: {e}"))?,
            k::OBSERVE => return guarded(|| self.observe(&mut r.w[si])).map_err(|e| format!("an observer panicked: {e}")),
            k::LOOK => {
                let now = self.state(r);
                let mut h = H::new();
                for x in [now as u64, (now >> 64) as u64, (op.s as u64) << 32 | op.c as u64, (op.b as u64) << 32 | op.a as u64] {
                    h.add(x);
                }
                r.look = h.done();
                return guarded(|| self.look(&mut r.w[si], op)).map_err(|e| format!("{} panicked: {e}", self.show(op)))?;
            }
            k::QUERY => return guarded(|| self.query(r, op)).map_err(|e| format!("a query panicked: {e}"))?,
            _ => {}
        }
        let w = &mut r.w[si];
        let want = self.expect(&w.model, op);
        let judged = !self.sc.batch
            && ((want == Expect::Inert && self.sc.oracles & o::DEAD != 0)
                || (want == Expect::Refused && self.sc.oracles & o::MISUSE != 0));
        let before = if judged { Some(self.snapshot(w)) } else { None };
        let got = guarded(|| self.apply(w, w.id, op));
        if let (Some(b), Ok(Ok(())) | Err(_)) = (before, &got) {
            if want == Expect::Inert || got.is_err() {
                let after = self.snapshot(w);
                for (x, y) in b.iter().zip(&after) {
                    if x != y {
                        return Err(format!("{} {} but {} changed", self.show(op), if got.is_err() { "panicked" } else { "returned" }, y.0));
                    }
                }
            }
        }
        match (want, got) {
            (Expect::Done, Ok(Ok(()))) => self.apply_model(&mut w.model, op),
            (Expect::Done, Err(p)) => return Err(format!("{} panicked: {p}", self.show(op))),
            (Expect::Refused, Ok(_)) => {
                if self.debug {
                    return Err(format!("{} was not refused", self.show(op)));
                }
            }
            (Expect::Refused, Err(_)) => {}
            (Expect::Inert, Ok(Ok(()))) | (Expect::Inert, Err(_)) => {}
            (_, Ok(Err(e))) => return Err(e),
        }
        Ok(())
    }

    fn key(&self, r: &Run) -> u128 {
        let s = self.state(r);
        if r.look == 0 {
            return s;
        }
        let mut h = H::new();
        for x in [s, r.look] {
            h.add(x as u64);
            h.add((x >> 64) as u64);
        }
        h.done()
    }

    fn check(&self, r: &mut Run) -> Result<(), String> {
        if self.sc.lockstep {
            guarded(|| self.check_same(r)).map_err(|e| format!("an observer panicked: {e}"))??;
        }
        for si in 0..r.w.len() {
            if self.sc.lockstep {
                alloc::arena().habitat(si);
            }
            guarded(|| self.check_world(&mut r.w[si])).map_err(|e| format!("an observer panicked: {e}"))??;
        }
        if self.sc.oracles & o::PAIRS != 0 {
            guarded(|| crate::conc::check_pairs(self, r)).map_err(|e| format!("a panic: {e}"))??;
        }
        if self.sc.oracles & o::MEM != 0 {
            self.check_disjoint(r)?;
            alloc::arena().sweep()?;
        }
        if self.sc.oracles & o::LEAK != 0 {
            alloc::arena().sweep()?;
            if let Some(e) = alloc::arena().error {
                return Err(format!("{e} ({} bytes)", alloc::arena().error_size));
            }
        }
        Ok(())
    }

    fn finish(&self, mut r: Run) -> Result<(), String> {
        guarded(|| {
            for w in &mut r.w {
                let s = w.store.take();
                t!(drop(s));
            }
            for s in r.slots.drain(..) {
                t!(drop(s));
            }
        })
        .map_err(|e| format!("dropping panicked: {e}"))
    }

    fn leaks_matter(&self) -> bool {
        self.sc.oracles & o::LEAK != 0
    }

    fn strict_memory(&self) -> bool {
        self.sc.oracles & (o::LEAK | o::MEM) != 0
    }

    fn show(&self, op: Op) -> String {
        let st = if self.sc.caps.len() > 1 { format!("s{}.", op.s) } else { String::new() };
        let n = match op.k {
            k::CREATE_WITH | k::ADD | k::REMOVE | k::WRITE => self.names(self.menu().tups[op.c as usize].mask),
            _ => String::new(),
        };
        let acc = |c: u16| {
            let a = &self.menu().accs[c as usize];
            format!("{}({},{})", a.name, self.names(a.read), self.names(a.write))
        };
        st + &match op.k {
            k::CREATE => "create".to_string(),
            k::CREATE_WITH => format!("create_with({n})"),
            k::DESTROY => format!("destroy(e{})", op.a),
            k::ADD => format!("add(e{},{n})", op.a),
            k::REMOVE => format!("remove(e{},{n})", op.a),
            k::WRITE => format!("write(e{},{n})", op.a),
            k::TAG => format!("tag(e{},T{})", op.a, op.c),
            k::UNTAG => format!("untag(e{},T{})", op.a, op.c),
            k::PUSH => format!("append(e{},G{})", op.a, op.c),
            k::NEXT => format!("insert(e{} after e{},G{})", op.a, op.b, op.c),
            k::PREV => format!("insert(e{} before e{},G{})", op.a, op.b, op.c),
            k::LEAVE => format!("leave(e{},G{})", op.a, op.c),
            k::QWRITE => format!("write_through({} kind{} form{})", acc(op.c), op.a, op.b),
            k::OBSERVE => "observe".to_string(),
            k::MOVE => "move".to_string(),
            k::SWAP => format!("swap with s{}", op.a),
            k::SHIFT => format!("move(q{})", op.c),
            k::LOOK if op.b != 0 => format!("{} of e{} only", self.show(Op { b: 0, ..op }), op.b - 1),
            k::LOOK => match op.c {
                lk::ALIVE => "look(alive)".into(),
                lk::KINDS => "look(kinds)".into(),
                lk::READ => format!("look(read {})", self.names(self.menu().tups[op.a as usize].mask)),
                lk::READ_MUT => format!("look(read mutably {})", self.names(self.menu().tups[op.a as usize].mask)),
                lk::TAG => format!("look(tag T{})", op.a),
                lk::NEAR => format!("look(neighbours in G{})", op.a),
                lk::ENDS => format!("look(ends of G{})", op.a),
                lk::AFTER => format!("look(next in G{})", op.a),
                lk::BEFORE => format!("look(previous in G{})", op.a),
                lk::FIRST => format!("look(first of G{})", op.a),
                lk::LAST => format!("look(last of G{})", op.a),
                lk::CAPACITY => "look(capacity)".into(),
                lk::QUERY => format!("look(query {})", acc(op.a as u16 & 0xFF)),
                lk::LIST => format!("look(list query {})", acc(op.a as u16 & 0xFF)),
                lk::ORDERED => format!("look(ordered query {} of G{})", acc(op.a as u16 & 0xFF), op.a >> 8),
                _ => format!("look(query {} filtered by T{})", acc(op.a as u16 & 0xFF), op.a >> 8),
            },
            k::QUERY => format!("query(q{},take {})", op.c, op.a as i32),
            _ => format!("{op:?}"),
        }
    }
}

// ------------------------------------------------------------------ oracles

impl StoreSys {
    fn acc_list(&self) -> Vec<usize> {
        if self.sc.accs.is_empty() {
            (0..self.menu().accs.len()).collect()
        } else {
            self.sc.accs.clone()
        }
    }

    fn describe(&self, w: &World) -> String {
        let mut v = Vec::new();
        for h in w.model.alive() {
            if v.len() == 12 {
                v.push("...".to_string());
                break;
            }
            v.push(format!("e{h}:{}", self.names(w.model.ents[h].set)));
        }
        v.join(" ")
    }

    fn who(&self, w: &World, e: Entity) -> String {
        match w.number(e) {
            Some(i) => format!("e{i}"),
            None => format!("an unknown handle (id {}, version {})", e.id(), e.version()),
        }
    }

    fn check_world(&self, w: &mut World) -> Result<(), String> {
        let si = w.id;
        let or = self.sc.oracles;
        let menu = self.menu();
        let st: &mut Store = w.store.as_mut().unwrap();

        if or & o::CAP != 0 {
            let c = t!(st.entities_capacity());
            if c < w.model.live {
                return Err(format!("the capacity is reported as {c} with {} live entities", w.model.live));
            }
            if c < w.max_cap {
                return Err(format!("the reported capacity shrank from {} to {c}", w.max_cap));
            }
            w.max_cap = c;
        }
        if or & o::LIVE != 0 {
            for (h, e) in w.model.ents.iter().enumerate() {
                if t!(st.is_alive(w.handles[h])) != e.alive {
                    return Err(format!("e{h} is reported {}", if e.alive { "dead but is alive" } else { "alive but was destroyed" }));
                }
            }
        }
        if or & o::SET != 0 {
            for h in w.model.alive() {
                let e = w.handles[h];
                let set = w.model.ents[h].set;
                match t!(st.get_entity_archetype(e)) {
                    None => {
                        if set != 0 {
                            return Err(format!("e{h} has {} but no archetype is reported", self.names(set)));
                        }
                    }
                    Some(a) => {
                        if set == 0 {
                            return Err(format!("an archetype is reported for e{h}, which has no components"));
                        }
                        let ids: Vec<_> = a.components_iter().map(|c| c.id()).collect();
                        let want: Vec<_> = (0..menu.n).filter(|i| set & (1 << i) != 0).map(|i| menu.types[i]).collect();
                        if ids.len() != want.len() || !want.iter().all(|i| ids.contains(i)) {
                            let n: Vec<_> = a.components_iter().map(|c| c.name()).collect();
                            return Err(format!("the archetype reported for e{h} lists {n:?} instead of {}", self.names(set)));
                        }
                    }
                }
                if t!(st.is_valid_entity_with_archetype(e)) != (set != 0) {
                    return Err(format!("is_valid_entity_with_archetype(e{h}) is wrong: it has {} components", set.count_ones()));
                }
                for t in &menu.tups[1..] {
                    let m = t.mask;
                    let want = set & m == m;
                    let got = (t.get)(st, e).is_some();
                    let got_mut = (t.get_mut)(st, e, &mut |_| {});
                    if got != want || got_mut != want {
                        return Err(format!(
                            "reading {} of e{h} (which has {:?}) {}", self.names(m), self.names(set),
                            if want { "is denied" } else { "is granted" }
                        ));
                    }
                }
            }
        }
        if or & o::VAL != 0 {
            for h in w.model.alive() {
                let e = w.handles[h];
                let me = &w.model.ents[h];
                for t in &menu.tups[1..] {
                    let m = t.mask;
                    if me.set & m != m {
                        continue;
                    }
                    let mut bad: Option<String> = None;
                    let mut look = |p: &Parts| {
                        for q in p.iter() {
                            let size = menu.sizes[q.id as usize];
                            if !alloc::arena().owns(q.addr, size) {
                                bad.get_or_insert(format!("C{} of e{h} lies outside of the store's memory", q.id));
                            } else if !unsafe { holds(q.addr, size, seed(si, h, q.id, me.tog)) } {
                                bad.get_or_insert(format!("C{} of e{h} is not what was last written", q.id));
                            }
                        }
                    };
                    match (t.get)(st, e) {
                        Some(p) => look(&p),
                        None => return Err(format!("e{h} has {} but it cannot be read", self.names(m))),
                    }
                    (t.get_mut)(st, e, &mut |p| look(p));
                    if let Some(b) = bad {
                        return Err(b);
                    }
                }
            }
        }
        if or & o::DEAD != 0 {
            for h in w.model.dead() {
                let e = w.handles[h];
                let mut leak = Vec::new();
                // refusing to answer reveals nothing either
                let no = |r: Result<bool, String>| r.unwrap_or(false);
                if no(guarded(|| t!(st.is_alive(e)))) {
                    leak.push("is alive");
                }
                if no(guarded(|| t!(st.is_valid_entity_with_archetype(e)))) {
                    leak.push("is valid with an archetype");
                }
                if no(guarded(|| t!(st.get_entity_archetype(e)).is_some())) {
                    leak.push("has an archetype");
                }
                for m in 1..menu.tups.len() {
                    if no(guarded(|| (menu.tups[m].get)(st, e).is_some())) || no(guarded(|| (menu.tups[m].get_mut)(st, e, &mut |_| {}))) {
                        leak.push("has components");
                    }
                }
                for n in 0..self.sc.tags {
                    if no(guarded(|| (tag(n as usize).has)(st, e))) {
                        leak.push("has a tag");
                    }
                }
                for g in 0..self.sc.groups {
                    let gr = group(g as usize);
                    if no(guarded(|| (gr.after)(st, e).is_some())) || no(guarded(|| (gr.before)(st, e).is_some())) {
                        leak.push("has neighbours in an order group");
                    }
                }
                if let Some(l) = leak.first() {
                    return Err(format!("the destroyed entity e{h} {l}"));
                }
            }
        }
        if or & o::TAG != 0 {
            for h in w.model.alive() {
                for n in 0..self.sc.tags {
                    let want = w.model.ents[h].tags & (1 << n) != 0;
                    if (tag(n as usize).has)(st, w.handles[h]) != want {
                        return Err(format!("e{h} {} tag T{n}", if want { "lost" } else { "has" }));
                    }
                }
            }
        }
        if or & o::ORD != 0 {
            for g in 0..self.sc.groups {
                self.check_group(w, g)?;
            }
        }
        if or & (o::CQ | o::FILTER | o::LEN | o::ITER | o::EQ | o::OQ) != 0 {
            self.check_queries(w)?;
        }
        Ok(())
    }

    fn check_group(&self, w: &World, g: u8) -> Result<(), String> {
        let st: &Store = w.store.as_ref().unwrap();
        let want: Vec<Entity> = w.model.groups[g as usize].iter().map(|h| w.handles[*h as usize]).collect();
        let limit = want.len() + 2;
        let show = |v: &[Entity]| v.iter().map(|e| self.who(w, *e)).collect::<Vec<_>>().join(",");
        let gr = group(g as usize);
        let mut fwd = Vec::new();
        let mut c = (gr.first)(st);
        while let Some(e) = c {
            fwd.push(e);
            if fwd.len() > limit { break; }
            c = (gr.after)(st, e);
        }
        if fwd != want {
            return Err(format!("group G{g} walks forwards as [{}] instead of [{}]", show(&fwd), show(&want)));
        }
        let mut bwd = Vec::new();
        let mut c = (gr.last)(st);
        while let Some(e) = c {
            bwd.push(e);
            if bwd.len() > limit { break; }
            c = (gr.before)(st, e);
        }
        bwd.reverse();
        if bwd != want {
            return Err(format!("group G{g} walks backwards as [{}] instead of [{}]", show(&bwd), show(&want)));
        }
        let at: HashMap<u32, usize> = w.model.groups[g as usize].iter().enumerate().map(|(i, h)| (*h, i)).collect();
        for h in w.model.alive() {
            let e = w.handles[h];
            let i = at.get(&(h as u32)).copied();
            let n = i.and_then(|i| want.get(i + 1)).copied();
            let p = i.and_then(|i| i.checked_sub(1)).map(|i| want[i]);
            if (gr.after)(st, e) != n || (gr.before)(st, e) != p {
                return Err(format!("the neighbours of e{h} in group G{g} are wrong (group is [{}])", show(&want)));
            }
        }
        Ok(())
    }

    fn check_queries(&self, w: &World) -> Result<(), String> {
        let or = self.sc.oracles;
        let menu = self.menu();
        let st: &Store = w.store.as_ref().unwrap();
        let n = w.handles.len();
        // addresses by direct reads
        let addr: Vec<[usize; MAXC]> = (0..n)
            .map(|h| {
                let mut a = [0; MAXC];
                for id in 0..menu.n {
                    if w.model.ents[h].alive && w.model.ents[h].set & (1 << id) != 0 {
                        a[id] = parts_at(st, menu, w.handles[h], id as u8).unwrap_or(0);
                    }
                }
                a
            })
            .collect();
        let mut place: HashMap<(usize, u8), usize> = HashMap::new();
        for (h, a) in addr.iter().enumerate() {
            for id in 0..menu.n {
                if a[id] != 0 {
                    place.insert((a[id], id as u8), h);
                }
            }
        }
        let spec = |form, list| Run_ { list, form, how: How::Each, take: None, limit: 4 * n + 64 };
        let own = |h: usize, it: &Item| it.parts.iter().all(|p| addr[h][p.id as usize] == 0 || addr[h][p.id as usize] == p.addr);

        for ai in self.acc_list() {
            let ac = &menu.accs[ai];
            let what = format!("{}({},{})", ac.name, self.names(ac.read), self.names(ac.write));
            let matching = w.model.matching(ac.all());
            let is_matching = |h: usize| w.model.ents[h].alive && w.model.ents[h].set & ac.all() == ac.all();
            if or & (o::CQ | o::FILTER | o::LEN | o::ITER) != 0 {
                let mut q = ac.make(Kind::Comp);
                let ents = q.run(st, &spec(Form::Entities, &[]), &mut |_| {});
                let plain = q.run(st, &spec(Form::Plain, &[]), &mut |_| {});
                if or & o::CQ != 0 {
                    let mut seen = vec![false; n];
                    for it in &ents.items {
                        let e = it.entity.unwrap();
                        match w.number(e).filter(|h| w.model.ents[*h].alive) {
                            Some(h) if is_matching(h) => {
                                if seen[h] {
                                    return Err(format!("query {what} yields e{h} twice; store: {}", self.describe(w)));
                                }
                                seen[h] = true;
                                if !own(h, it) {
                                    return Err(format!("query {what} pairs e{h} with storage that is not its own; store: {}", self.describe(w)));
                                }
                            }
                            _ => return Err(format!("query {what} yields {}; store: {}", self.who(w, e), self.describe(w))),
                        }
                    }
                    if let Some(h) = matching.iter().find(|h| !seen[**h]) {
                        return Err(format!("query {what} does not yield e{h}; store: {}", self.describe(w)));
                    }
                    // without entities: the same storage
                    let mut a: Vec<usize> = ents.items.iter().map(|i| i.parts.p[0].addr).collect();
                    let mut b: Vec<usize> = plain.items.iter().map(|i| i.parts.p[0].addr).collect();
                    a.sort();
                    b.sort();
                    if a != b {
                        return Err(format!("query {what} refers to other storage without entities than with them"));
                    }
                    for k in 0..plain.items.len().min(4) {
                        let y = q.run(st, &spec(Form::After(k), &[]), &mut |_| {});
                        if y.items != ents.items[k..] {
                            return Err(format!("query {what} with entities from item {k} on yields other items than with entities from the start"));
                        }
                    }
                    for it in &plain.items {
                        let p0 = it.parts.p[0];
                        let whose = place.get(&(p0.addr, p0.id)).copied().filter(|h| is_matching(*h));
                        if !whose.map_or(false, |h| own(h, it)) {
                            return Err(format!("query {what} yields an item that mixes storage of several entities"));
                        }
                    }
                }
                if or & o::LEN != 0 {
                    self.check_len(&what, &plain, true)?;
                    self.check_len(&format!("{what} with entities"), &ents, false)?;
                }
                if or & o::LEN != 0 || (or & o::ITER != 0 && or & o::FILTER != 0) {
                    for n in 0..self.sc.tags.min(NFILTERS) {
                        let f = q.run(st, &spec(Form::Filter(n), &[]), &mut |_| {});
                        if or & o::LEN != 0 {
                            self.check_len(&format!("{what} filtered"), &f, false)?;
                        }
                        self.check_adaptors(st, &format!("{what} filtered"), &mut *q, Form::Filter(n), &f, &[], false)?;
                    }
                }
                if or & o::LEN != 0 || (or & o::ITER != 0 && or & o::CQ != 0) {
                    self.check_adaptors(st, &what, &mut *q, Form::Plain, &plain, &[], true)?;
                    self.check_adaptors(st, &format!("{what} with entities"), &mut *q, Form::Entities, &ents, &[], false)?;
                }
                if or & o::FILTER != 0 {
                    for t in 0..self.sc.tags.min(NFILTERS) {
                        let f = q.run(st, &spec(Form::Filter(t), &[]), &mut |_| {});
                        // whose storage an item of the unfiltered query is, by direct reads
                        let want: Vec<Item> = plain
                            .items
                            .iter()
                            .filter_map(|it| {
                                let p0 = it.parts.p[0];
                                let h = *place.get(&(p0.addr, p0.id))?;
                                (w.model.ents[h].tags & (1 << t) != 0).then(|| Item { entity: Some(w.handles[h]), parts: it.parts })
                            })
                            .collect();
                        if f.items != want || f.endless {
                            let i = (0..f.items.len().max(want.len())).find(|i| f.items.get(*i) != want.get(*i)).unwrap_or(0);
                            let of = |v: &[Item]| v.get(i).map_or("nothing".to_string(), |it| self.who(w, it.entity.unwrap()));
                            return Err(format!(
                                "query {what} filtered by T{t} yields {} items instead of {}, the first difference is at {i}: {} (or the storage of another) instead of {}; store: {}",
                                f.items.len(), want.len(), of(&f.items), of(&want), self.describe(w)
                            ));
                        }
                        if f.revived {
                            return Err(format!("query {what} filtered by T{t} yields items after its end"));
                        }
                        // filtering what is left of an iterator
                        for (k, l) in [(0, 1), (1, 0), (1, 1), (2, 0), (0, 2)] {
                            let y = q.run(st, &spec(Form::FilterAfter(t, k, l), &[]), &mut |_| {});
                            let rest = plain.items.len().min(k + l);
                            let gone = plain.items[..rest]
                                .iter()
                                .filter(|it| place.get(&(it.parts.p[0].addr, it.parts.p[0].id)).is_some_and(|h| w.model.ents[*h].tags & (1 << t) != 0))
                                .count();
                            if y.items != want[gone..] {
                                return Err(format!(
                                    "query {what} filtered by T{t} from item {k}+{l} on yields {} items instead of the last {} (or other ones); store: {}",
                                    y.items.len(), want.len() - gone, self.describe(w)
                                ));
                            }
                        }
                    }
                }
                t!(drop(q));
            }
            if or & o::OQ != 0 || (or & o::LEN != 0 && self.sc.groups > 0) {
                for g in 0..self.sc.groups.min(2) {
                    let mut q = ac.make(Kind::Ord(g));
                    let ents = q.run(st, &spec(Form::Entities, &[]), &mut |_| {});
                    let plain = q.run(st, &spec(Form::Plain, &[]), &mut |_| {});
                    if or & o::OQ != 0 {
                        let want: Vec<usize> = w.model.groups[g as usize]
                            .iter()
                            .map(|h| *h as usize)
                            .filter(|h| is_matching(*h))
                            .collect();
                        self.check_list(w, &format!("ordered query {what} over G{g}"), &want, &ents, &plain, &own)?;
                        for k in 0..plain.items.len().min(4) {
                            let y = q.run(st, &spec(Form::After(k), &[]), &mut |_| {});
                            if y.items != ents.items[k..] {
                                return Err(format!("ordered query {what} over G{g} with entities from item {k} on yields other items"));
                            }
                        }
                    }
                    if or & o::LEN != 0 {
                        self.check_len(&format!("ordered {what}"), &plain, true)?;
                        self.check_len(&format!("ordered {what} with entities"), &ents, false)?;
                    }
                    if or & o::LEN != 0 || (or & o::ITER != 0 && or & o::OQ != 0) {
                        self.check_adaptors(st, &format!("ordered {what}"), &mut *q, Form::Plain, &plain, &[], true)?;
                        self.check_adaptors(st, &format!("ordered {what} with entities"), &mut *q, Form::Entities, &ents, &[], false)?;
                    }
                    t!(drop(q));
                }
            }
            if or & o::EQ != 0 || (or & o::LEN != 0 && self.sc.list_len > 0) {
                let mut q = ac.make(Kind::List);
                let judge = |q: &mut dyn QueryObj, idx: &[usize]| -> Result<(), String> {
                    let list: Vec<Entity> = idx.iter().map(|h| w.handles[*h]).collect();
                    let spec = |form| Run_ { list: &list, form, how: How::Each, take: None, limit: 4 * list.len() + 64 };
                    let ents = q.run(st, &spec(Form::Entities), &mut |_| {});
                    let plain = q.run(st, &spec(Form::Plain), &mut |_| {});
                    if or & o::EQ != 0 {
                        let want: Vec<usize> = idx.iter().copied().filter(|h| is_matching(*h)).collect();
                        self.check_list(w, &format!("query {what} over the list {}", short(idx)), &want, &ents, &plain, &own)?;
                        for k in 0..plain.items.len().min(3) {
                            let y = q.run(st, &spec(Form::After(k)), &mut |_| {});
                            if y.items != ents.items[k..] {
                                return Err(format!("query {what} over the list {} with entities from item {k} on yields other items", short(idx)));
                            }
                        }
                    }
                    if or & o::LEN != 0 {
                        self.check_len(&format!("list {what}"), &plain, false)?;
                        self.check_len(&format!("list {what} with entities"), &ents, false)?;
                    }
                    if or & o::LEN != 0 || (or & o::ITER != 0 && or & o::EQ != 0) {
                        self.check_adaptors(st, &format!("list {what}"), q, Form::Plain, &plain, &list, false)?;
                        self.check_adaptors(st, &format!("list {what} with entities"), q, Form::Entities, &ents, &list, false)?;
                    }
                    Ok(())
                };
                if self.sc.long_lists && n > 0 {
                    let fwd: Vec<usize> = (0..n).collect();
                    let bwd: Vec<usize> = (0..n).rev().collect();
                    let twice: Vec<usize> = (0..2 * n).map(|i| i / 2).collect();
                    let stride: Vec<usize> = (0..n).map(|i| (i * 7 + 3) % n).collect();
                    let again: Vec<usize> = (0..n).chain(0..n).collect();
                    let ends: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect();
                    for l in [fwd, bwd, twice, stride, again, ends] {
                        judge(&mut *q, &l)?;
                    }
                }
                let mut idx: Vec<usize> = vec![];
                loop {
                    judge(&mut *q, &idx)?;
                    // next list: all lists up to the length
                    let mut i = idx.len();
                    loop {
                        if i == 0 {
                            idx = vec![0; idx.len() + 1];
                            break;
                        }
                        i -= 1;
                        if idx[i] + 1 < n {
                            idx[i] += 1;
                            for x in &mut idx[i + 1..] {
                                *x = 0;
                            }
                            break;
                        }
                    }
                    if idx.len() > self.sc.list_len || n == 0 {
                        break;
                    }
                }
                t!(drop(q));
            }
        }
        Ok(())
    }

    fn check_list(
        &self,
        w: &World,
        what: &str,
        want: &[usize],
        ents: &Yield,
        plain: &Yield,
        own: &dyn Fn(usize, &Item) -> bool,
    ) -> Result<(), String> {
        let got: Vec<String> = ents.items.iter().map(|i| self.who(w, i.entity.unwrap())).collect();
        let exact = ents.items.len() == want.len()
            && ents.items.iter().zip(want).all(|(i, h)| i.entity == Some(w.handles[*h]));
        if !exact {
            return Err(format!(
                "{what} yields {} items [{}] instead of {} items {}; store: {}",
                got.len(), got[..got.len().min(16)].join(","), want.len(), short(want), self.describe(w)
            ));
        }
        if plain.items.len() != want.len() {
            return Err(format!("{what} yields {} items without entities instead of {}", plain.items.len(), want.len()));
        }
        for (y, f) in [(ents, "with"), (plain, "without")] {
            for (it, h) in y.items.iter().zip(want) {
                if !own(*h, it) {
                    return Err(format!("{what} ({f} entities) refers to storage that is not e{h}'s; store: {}", self.describe(w)));
                }
            }
            if y.revived {
                return Err(format!("{what} yields items after its end"));
            }
        }
        Ok(())
    }

    fn check_len(&self, what: &str, y: &Yield, exact: bool) -> Result<(), String> {
        let n = y.items.len();
        if y.endless {
            return Err(format!("{what} does not end"));
        }
        if y.revived {
            return Err(format!("{what} yields items after its end"));
        }
        if exact && y.lens.is_empty() {
            return Err(format!("{what} reports no length"));
        }
        for (i, l) in y.lens.iter().enumerate() {
            let left = n.saturating_sub(i);
            if *l != left {
                return Err(format!("{what} reports length {l} with {left} items left (of {n})"));
            }
        }
        for (i, (lo, hi)) in y.hints.iter().enumerate() {
            let left = n.saturating_sub(i);
            if *lo > left || hi.map_or(false, |h| h < left) {
                return Err(format!("{what} hints at {lo}..{hi:?} items with {left} left (of {n})"));
            }
        }
        Ok(())
    }

    /// count, last, nth and folding agree with stepping
    /// The iterator's other methods agree with `next`; `lens`: so do the lengths it reports.
    fn check_adaptors(&self, st: &Store, what: &str, q: &mut dyn QueryObj, form: Form, base: &Yield, list: &[Entity], exact: bool) -> Result<(), String> {
        let lens = self.sc.oracles & o::LEN != 0;
        let n = base.items.len();
        let spec = |how| Run_ { list, form, how, take: None, limit: 4 * n + 64 };
        let some = |n: usize| -> Vec<usize> {
            if n <= 5 {
                (0..=n).collect()
            } else {
                let mut v = vec![0, 1, 2, n / 2, n - 1, n];
                v.dedup();
                v
            }
        };
        for j in some(n) {
            let c = q.run(st, &spec(How::Count(j)), &mut |_| {});
            if c.count != n - j {
                return Err(format!("after {j} steps {what}.count() is {} but {} items are yielded", c.count, n - j));
            }
            let l = q.run(st, &spec(How::Last(j)), &mut |_| {});
            if l.items.last() != base.items.last() {
                return Err(format!("after {j} steps {what}.last() is not the last item"));
            }
            let y = q.run(st, &spec(How::Fold(j)), &mut |_| {});
            if y.items != base.items {
                return Err(format!("{what} yields other items when it is folded after {j} steps"));
            }
            for k in some(n - j) {
                let y = q.run(st, &spec(How::Nth(j, k)), &mut |_| {});
                if y.items.get(j) != base.items.get(j + k) {
                    return Err(format!("after {j} steps {what}.nth({k}) is not the item at {}", j + k));
                }
                let left = n.saturating_sub(j + k + 1);
                if y.count != left {
                    return Err(format!("after {j} steps and {what}.nth({k}) {} items are left instead of {left}", y.count));
                }
                if !lens {
                    continue;
                }
                if exact && y.lens.iter().any(|l| *l != left) {
                    return Err(format!("after {j} steps and {what}.nth({k}) {:?} is reported with {left} items left", y.lens));
                }
                let (lo, hi) = y.hints[0];
                if lo > left || hi.map_or(false, |h| h < left) {
                    return Err(format!("after {j} steps and {what}.nth({k}) the hint is {lo}..{hi:?} with {left} items left"));
                }
            }
        }
        for k in some(n).into_iter().skip(1) {
            let y = q.run(st, &spec(How::Stride(k)), &mut |_| {});
            if !y.items.iter().eq(base.items.iter().skip(k).step_by(k + 1)) {
                return Err(format!("{what} stepped by {} yields other items", k + 1));
            }
        }
        Ok(())
    }

    /// Everything a store tells, with entities by their numbers, in the order in which it tells it.
    fn account(&self, w: &World) -> Vec<(String, Vec<u64>)> {
        let menu = self.menu();
        let st: &Store = w.store.as_ref().unwrap();
        let mut out = vec![];
        let of = |e: Option<Entity>| e.map_or(u64::MAX, |e| (e.id() as u64) << 32 | e.version() as u64);
        let put = |out: &mut Vec<(String, Vec<u64>)>, what: String, v: Vec<u64>| out.push((what, v));
        put(&mut out, "the handles".into(), w.handles.iter().map(|e| of(Some(*e))).collect());
        put(&mut out, "the capacity".into(), vec![t!(st.entities_capacity()) as u64]);
        for (h, e) in w.handles.iter().enumerate() {
            let v = guarded(|| {
                let mut v = vec![t!(st.is_alive(*e)) as u64, t!(st.is_valid_entity_with_archetype(*e)) as u64];
                if let Some(a) = t!(st.get_entity_archetype(*e)) {
                    v.extend(a.components_iter().map(|c| menu.types.iter().position(|t| *t == c.id()).unwrap_or(99) as u64));
                }
                for t in &menu.tups[1..] {
                    v.push((t.get)(st, *e).is_some() as u64);
                }
                for n in 0..self.sc.tags {
                    v.push((tag(n as usize).has)(st, *e) as u64);
                }
                for g in 0..self.sc.groups {
                    let gr = group(g as usize);
                    v.extend([of((gr.after)(st, *e)), of((gr.before)(st, *e))]);
                }
                v
            });
            put(&mut out, format!("what is told about e{h}"), v.unwrap_or(vec![u64::MAX]));
        }
        for g in 0..self.sc.groups {
            let gr = group(g as usize);
            put(&mut out, format!("the ends of G{g}"), vec![of((gr.first)(st)), of((gr.last)(st))]);
        }
        let mut kinds = vec![(Kind::Comp, Form::Entities), (Kind::List, Form::Entities)];
        kinds.extend((0..self.sc.groups.min(2)).map(|g| (Kind::Ord(g), Form::Entities)));
        kinds.extend((0..self.sc.tags.min(NFILTERS)).map(|t| (Kind::Comp, Form::Filter(t))));
        let list: Vec<Entity> = w.handles.iter().rev().copied().collect();
        for ai in self.acc_list() {
            for (kind, form) in &kinds {
                let mut q = menu.accs[ai].make(*kind);
                let y = q.run(st, &Run_ { list: &list, form: *form, how: How::Each, take: None, limit: 4 * list.len() + 16 }, &mut |_| {});
                t!(drop(q));
                let mut v: Vec<u64> = y.items.iter().map(|i| of(i.entity)).collect();
                v.push(u64::MAX);
                v.extend(y.lens.iter().map(|l| *l as u64));
                v.extend(y.hints.iter().flat_map(|(l, h)| [*l as u64, h.map_or(u64::MAX, |h| h as u64)]));
                put(&mut out, format!("the result of a {kind:?} {form:?} {} query", menu.accs[ai].name), v);
            }
        }
        out
    }

    /// Stores that went through the same tell the same.
    fn check_same(&self, r: &Run) -> Result<(), String> {
        let mut first: Option<Vec<(String, Vec<u64>)>> = None;
        for (si, w) in r.w.iter().enumerate() {
            alloc::arena().habitat(si);
            let a = self.account(w);
            match &first {
                None => first = Some(a),
                Some(f) => {
                    for (x, y) in f.iter().zip(&a) {
                        if x != y {
                            return Err(format!(
                                "two stores that went through the same differ (fresh memory holds {:#x} and {:#x}) in {}: {:?} and {:?}",
                                alloc::FILLS[0], alloc::arena().fresh, x.0, &x.1[..x.1.len().min(12)], &y.1[..y.1.len().min(12)]
                            ));
                        }
                    }
                }
            }
        }
        Ok(())
    }

    /// Every component of every live entity of every store: in memory the library owns, aligned, disjoint.
    fn check_disjoint(&self, r: &Run) -> Result<(), String> {
        let menu = self.menu();
        let mut all: Vec<(usize, usize, String)> = Vec::new();
        for (si, w) in r.w.iter().enumerate() {
            let st: &Store = w.store.as_ref().unwrap();
            for h in w.model.alive() {
                for id in 0..menu.n as u8 {
                    if w.model.ents[h].set & (1 << id) == 0 {
                        continue;
                    }
                    let a = guarded(|| parts_at(st, menu, w.handles[h], id))?;
                    let Some(a) = a else { continue };
                    let (size, align) = (menu.sizes[id as usize], menu.aligns[id as usize]);
                    let name = format!("C{id} of e{h} (store {si})");
                    if a % align != 0 {
                        return Err(format!("{name} is not aligned to {align}"));
                    }
                    if !alloc::arena().owns(a, size) {
                        return Err(format!("{name} lies outside of the store's memory"));
                    }
                    all.push((a, size, name));
                }
            }
        }
        all.sort();
        for p in all.windows(2) {
            if p[0].0 + p[0].1 > p[1].0 {
                return Err(format!("{} overlaps {}", p[0].2, p[1].2));
            }
        }
        Ok(())
    }
}
