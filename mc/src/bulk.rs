//! Grids of structured histories at sizes no breadth-first search reaches.
use crate::alloc;
use crate::comps::*;
use crate::explore::{guarded, Grid, Op, PointDone, System};
use crate::res::{pattern, PATTERNS};
use crate::sys::*;
use division_ecs::{Component, ComponentType, Entity, Store};

/// Which components entity number i gets.
pub const RULES: [&str; 8] = ["C0", "C0+C1+C2", "cycling sets", "C0 then C2", "C1 / C0+C2", "C0+C1 minus C0", "none", "C1+C2 in runs"];

fn give(rule: usize, i: usize, a: u32, ops: &mut Vec<Op>) {
    let mut p = |k: u8, c: u16| ops.push(Op { k, c, a, ..Op::default() });
    match rule {
        0 => p(k::CREATE_WITH, 1),
        1 => p(k::CREATE_WITH, 7),
        2 => match i % 8 {
            0 => p(k::CREATE, 0),
            m => p(k::CREATE_WITH, m as u16),
        },
        3 => {
            p(k::CREATE, 0);
            p(k::ADD, 1);
            p(k::ADD, 4);
        }
        4 => p(k::CREATE_WITH, if i % 2 == 0 { 2 } else { 5 }),
        5 => {
            p(k::CREATE_WITH, 3);
            p(k::REMOVE, 1);
        }
        6 => p(k::CREATE, 0),
        _ => p(k::CREATE_WITH, if (i / 5) % 3 == 0 { 6 } else { 1 }),
    }
}

#[derive(Clone)]
pub struct Bulk {
    pub menu: &'static Menu,
    pub caps: Vec<usize>,
    pub sizes: Vec<usize>,
    pub rules: Vec<usize>,
    pub pats: Vec<usize>,
    pub oracles: u32,
    pub accs: Vec<usize>,
    pub tags: u8,
    pub groups: u8,
    pub qwrites: Vec<Op>,
    /// as many entities as the capacity, exactly, before and after growing
    pub edges: bool,
}

/// All (capacity, size) pairs; with `edges` also the sizes that fill each capacity exactly.
pub fn pairs(caps: &[usize], sizes: &[usize], edges: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for c in caps {
        let mut ns = sizes.to_vec();
        if edges {
            let c = match *c {
                0 | usize::MAX => 10,
                c => c,
            };
            ns.extend([c, 2 * c, 2 * c + 1, 4 * c]);
        }
        ns.sort();
        ns.dedup();
        v.extend(ns.into_iter().map(|n| (*c, n)));
    }
    v
}

impl Bulk {
    pub fn new(menu: &'static Menu, oracles: u32) -> Bulk {
        Bulk {
            menu,
            caps: vec![1, 32],
            sizes: vec![33],
            rules: vec![2],
            pats: (0..PATTERNS.len()).collect(),
            oracles,
            accs: vec![],
            tags: 0,
            groups: 0,
            qwrites: vec![],
            edges: false,
        }
    }

    fn at(&self, p: u64) -> (usize, usize, usize, usize) {
        let v = pairs(&self.caps, &self.sizes, self.edges);
        let p = p as usize;
        let ((c, n), p) = (v[p % v.len()], p / v.len());
        let (r, p) = (self.rules[p % self.rules.len()], p / self.rules.len());
        (c, n, r, self.pats[p])
    }

    /// Tags by bits of the number, and the groups in three shapes of insertion.
    fn mark(&self, i: usize, a: u32, first: &mut [Option<u32>; NGROUPS], ops: &mut Vec<Op>) {
        let mut p = |k: u8, c: u16, b: u32| ops.push(Op { k, c, a, b, ..Op::default() });
        for t in 0..self.tags as u16 {
            let yes = match t {
                0 => i % 3 == 0,
                1 => i % 32 == 31,
                2 => i % 64 == 0,
                3 => i >= 40,
                4 => i % 97 == 96,
                _ => (i + t as usize) % (t as usize % 7 + 2) == 0,
            };
            if yes {
                p(k::TAG, t, 0);
            }
        }
        for g in 0..self.groups as u16 {
            let f = &mut first[g as usize];
            match g % 3 {
                0 => {
                    if i % 4 != 1 {
                        p(k::PUSH, g, 0)
                    }
                }
                _ => match *f {
                    None => {
                        p(k::PUSH, g, 0);
                        *f = Some(a);
                    }
                    Some(b) => {
                        if g % 3 == 1 {
                            // before the previous one: backwards
                            p(k::PREV, g, b);
                            *f = Some(a);
                        } else if i % 2 == 0 {
                            p(k::NEXT, g, b);
                        } else if i % 3 == 0 {
                            p(k::PREV, g, b);
                        }
                    }
                },
            }
        }
    }
}

impl Grid for Bulk {
    fn points(&self) -> u64 {
        (pairs(&self.caps, &self.sizes, self.edges).len() * self.rules.len() * self.pats.len()) as u64
    }

    fn run(&self, point: u64) -> Result<PointDone, String> {
        let (cap, n, rule, pat) = self.at(point);
        let mut sc = Scene::new("bulk", self.menu, cap);
        sc.oracles = self.oracles;
        sc.accs = self.accs.clone();
        sc.tags = self.tags;
        sc.groups = self.groups;
        sc.list_len = 0;
        sc.long_lists = true;
        sc.max_live = usize::MAX;
        let sys = StoreSys::new(sc);
        let mut r = sys.start()?;
        let mut d = PointDone::default();
        let res = (|| {
            let mut first = [None; NGROUPS];
            let mut next = 0u32;
            for phase in 0..2 {
                let rule = if phase == 0 { rule } else { (rule + 1) % RULES.len() };
                let from = next;
                let mut ops = vec![];
                for i in 0..n {
                    give(rule, i, next, &mut ops);
                    self.mark(i, next, &mut first, &mut ops);
                    next += 1;
                }
                for op in ops {
                    sys.step(&mut r, op)?;
                    d.transitions += 1;
                }
                sys.check(&mut r)?;
                for q in &self.qwrites {
                    sys.step(&mut r, *q)?;
                    d.transitions += 1;
                }
                if !self.qwrites.is_empty() {
                    sys.check(&mut r)?;
                }
                for (j, i) in pattern(pat, n).into_iter().enumerate() {
                    let a = from + i as u32;
                    for f in &mut first {
                        if *f == Some(a) {
                            *f = None;
                        }
                    }
                    if j % 16 == 7 {
                        // not all by destroying: some lose what they have
                        sys.step(&mut r, Op { k: k::REMOVE, c: 7, a, ..Op::default() })?;
                        for t in 0..self.tags as u16 {
                            sys.step(&mut r, Op { k: k::UNTAG, c: t, a, ..Op::default() })?;
                        }
                        for g in 0..self.groups as u16 {
                            sys.step(&mut r, Op { k: k::LEAVE, c: g, a, ..Op::default() })?;
                        }
                    } else {
                        sys.step(&mut r, Op { k: k::DESTROY, a, ..Op::default() })?;
                    }
                    d.transitions += 1;
                }
                for g in 1..self.groups as usize {
                    first[g] = r.w[0].model.groups[g].first().copied();
                }
                sys.check(&mut r)?;
                d.states += 2;
            }
            Ok::<(), String>(())
        })();
        match res {
            Err(e) => {
                let _ = sys.finish(r);
                Err(e)
            }
            Ok(()) => {
                sys.finish(r)?;
                Ok(d)
            }
        }
    }

    fn leaks_matter(&self) -> bool {
        self.oracles & o::LEAK != 0
    }

    fn show(&self, p: u64) -> String {
        let (c, n, r, pat) = self.at(p);
        format!(
            "capacity {c}, {} components: create {n} entities with {}, give up {}, create {n} with {}, give up {}",
            self.menu.name, RULES[r], PATTERNS[pat], RULES[(r + 1) % RULES.len()], PATTERNS[pat]
        )
    }
}

/// One id used very often, or very many ids.
pub struct Many {
    pub live: Vec<usize>,
    pub recycles: Vec<usize>,
}

impl Grid for Many {
    fn points(&self) -> u64 {
        (self.live.len() * self.recycles.len() * 2) as u64
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let p = p as usize;
        let live = self.live[p % self.live.len()];
        let rec = self.recycles[p / self.live.len() % self.recycles.len()];
        let lifo = p / self.live.len() / self.recycles.len() == 0;
        let mut st = t!(Box::new(Store::with_capacity(1)));
        let mut seen: std::collections::HashSet<(u32, u32)> = Default::default();
        let mut now: std::collections::VecDeque<Entity> = Default::default();
        let mut dead: Vec<Entity> = vec![];
        let mut d = PointDone::default();
        let res = (|| {
            let mut create = |st: &mut Store, now: &mut std::collections::VecDeque<Entity>| {
                let e = t!(st.create_entity());
                if !seen.insert((e.id(), e.version())) {
                    return Err(format!("handle number {} equals an earlier one (id {}, version {})", seen.len(), e.id(), e.version()));
                }
                now.push_back(e);
                Ok(())
            };
            for _ in 0..live {
                create(&mut st, &mut now)?;
                d.transitions += 1;
            }
            for i in 0..rec {
                let e = if lifo { now.pop_back() } else { now.pop_front() }.unwrap();
                t!(st.destroy_entity(e));
                if t!(st.is_alive(e)) {
                    return Err(format!("a handle stays alive after destroying it (recycling {i})"));
                }
                dead.push(e);
                create(&mut st, &mut now)?;
                d.transitions += 2;
                if i % 8192 == 0 || i + 1 == rec {
                    for e in &now {
                        if !t!(st.is_alive(*e)) {
                            return Err(format!("a live handle (id {}, version {}) is reported dead after {i} recyclings", e.id(), e.version()));
                        }
                    }
                    for e in &dead {
                        if t!(st.is_alive(*e)) {
                            return Err(format!("a destroyed handle (id {}, version {}) is reported alive after {i} recyclings", e.id(), e.version()));
                        }
                    }
                    d.states += 1;
                }
            }
            if t!(st.entities_capacity()) < now.len() {
                return Err(format!("the capacity is reported as {} with {} live entities", st.entities_capacity(), now.len()));
            }
            Ok(())
        })();
        t!(drop(st));
        res.map(|_| d)
    }
    fn show(&self, p: u64) -> String {
        let p = p as usize;
        format!(
            "create {} entities; {} times destroy the {} and create another one",
            self.live[p % self.live.len()], self.recycles[p / self.live.len() % self.recycles.len()],
            if p / self.live.len() / self.recycles.len() == 0 { "youngest" } else { "oldest" }
        )
    }
}

/// Every operation on an entity.
fn dead_ops(d: u32, live: Option<u32>, ops: &mut Vec<Op>) {
    let mut p = |k: u8, c: u16, a: u32, b: u32| ops.push(Op { k, s: 0, c, a, b });
    p(k::DESTROY, 0, d, 0);
    for c in [1, 2, 3, 7] {
        p(k::ADD, c, d, 0);
        p(k::REMOVE, c, d, 0);
        p(k::WRITE, c, d, 0);
    }
    for c in 0..2 {
        p(k::TAG, c, d, 0);
        p(k::UNTAG, c, d, 0);
        p(k::PUSH, c, d, 0);
        p(k::LEAVE, c, d, 0);
        if let Some(l) = live {
            p(k::NEXT, c, d, l);
            p(k::PREV, c, d, l);
            p(k::NEXT, c, l, d);
            p(k::PREV, c, l, d);
        }
    }
}

/// One id given to very many entities, one after the other; handles of long ago are used.
pub struct OldHandles {
    pub uses: Vec<usize>,
}

pub const AGES: [usize; 20] = [1, 2, 3, 4, 15, 16, 127, 128, 129, 254, 255, 256, 257, 512, 1024, 4096, 32768, 65535, 65536, 65537];
/// who else is there, and where the id comes from
const COMPANY: [&str; 4] = ["alone", "with older ones", "with younger ones", "with both"];

impl Grid for OldHandles {
    fn points(&self) -> u64 {
        (self.uses.len() * COMPANY.len() * 2) as u64
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let p = p as usize;
        let n = self.uses[p % self.uses.len()];
        let company = p / self.uses.len() % COMPANY.len();
        let bare = p / self.uses.len() / COMPANY.len() == 1;
        let mut sc = Scene::new("old", small(), 1);
        sc.oracles = o::DEAD | o::LIVE;
        sc.tags = 2;
        sc.groups = 2;
        sc.max_live = usize::MAX;
        let sys = StoreSys::new(sc);
        let mut r = sys.start()?;
        let mut d = PointDone::default();
        let res = (|| {
            let mut mates = 0u32;
            let mut mate = |r: &mut crate::sys::Run| -> Result<(), String> {
                let a = r.w[0].handles.len() as u32;
                for op in [
                    Op { k: k::CREATE_WITH, c: 3, ..Op::default() },
                    Op { k: k::TAG, a, c: 0, ..Op::default() },
                    Op { k: k::PUSH, a, c: 0, ..Op::default() },
                ] {
                    sys.step(r, op)?;
                }
                mates += 1;
                Ok(())
            };
            if company & 1 != 0 {
                mate(&mut r)?;
                mate(&mut r)?;
            }
            let mut uses: Vec<u32> = vec![];
            for i in 0..n {
                let a = r.w[0].handles.len() as u32;
                uses.push(a);
                let mut ops = vec![Op { k: if bare { k::CREATE } else { k::CREATE_WITH }, c: if bare { 0 } else { 1 }, ..Op::default() }];
                if !bare {
                    ops.push(Op { k: k::TAG, a, c: 1, ..Op::default() });
                    ops.push(Op { k: k::PUSH, a, c: 0, ..Op::default() });
                }
                for op in ops {
                    sys.step(&mut r, op)?;
                    d.transitions += 1;
                }
                if i == 0 && company & 2 != 0 {
                    mate(&mut r)?;
                    mate(&mut r)?;
                }
                let live = r.w[0].handles[a as usize];
                if AGES.contains(&i) || i + 1 == n {
                    for age in AGES.iter().filter(|x| **x <= i) {
                        let old = uses[i - age];
                        if live.id() != r.w[0].handles[old as usize].id() {
                            continue; // the store prefers other ids
                        }
                        let mut ops = vec![];
                        let m = &r.w[0].model;
                        dead_ops(old, m.alive().next().map(|x| x as u32).filter(|x| *x != a), &mut ops);
                        dead_ops(old, Some(a), &mut ops);
                        for op in ops {
                            sys.step(&mut r, op)?;
                            d.transitions += 1;
                        }
                    }
                    d.states += 1;
                }
                if AGES.contains(&(i + 1)) || i + 1 == n {
                    sys.check(&mut r)?;
                }
                sys.step(&mut r, Op { k: k::DESTROY, a, ..Op::default() })?;
                d.transitions += 1;
            }
            sys.check(&mut r)
        })();
        match res {
            Err(e) => {
                let _ = sys.finish(r);
                Err(e)
            }
            Ok(()) => {
                sys.finish(r)?;
                Ok(d)
            }
        }
    }
    fn show(&self, p: u64) -> String {
        let p = p as usize;
        format!(
            "{} {}: {} times create and destroy an entity{}, using old handles",
            COMPANY[p / self.uses.len() % COMPANY.len()],
            if p / self.uses.len() / COMPANY.len() == 1 { "(bare)" } else { "(with component, tag and place)" },
            self.uses[p % self.uses.len()], ""
        )
    }
}

/// Many entities, many of them gone, their ids reused or not: everything is tried through every dead handle.
#[derive(Clone)]
pub struct DeadMany {
    pub menu: &'static Menu,
    pub caps: Vec<usize>,
    pub sizes: Vec<usize>,
    pub rules: Vec<usize>,
    pub oracles: u32,
}

impl DeadMany {
    fn at(&self, p: u64) -> (usize, usize, usize, usize, usize) {
        let p = p as usize;
        let (c, p) = (self.caps[p % self.caps.len()], p / self.caps.len());
        let (n, p) = (self.sizes[p % self.sizes.len()], p / self.sizes.len());
        let (r, p) = (self.rules[p % self.rules.len()], p / self.rules.len());
        (c, n, r, p % PATTERNS.len(), p / PATTERNS.len())
    }
}

impl Grid for DeadMany {
    fn points(&self) -> u64 {
        (self.caps.len() * self.sizes.len() * self.rules.len() * PATTERNS.len() * 3) as u64
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let (cap, n, rule, pat, again) = self.at(p);
        let mut sc = Scene::new("dead", self.menu, cap);
        sc.oracles = self.oracles;
        sc.accs = vec![0, 9];
        sc.tags = 2;
        sc.groups = 2;
        sc.list_len = 0;
        sc.max_live = usize::MAX;
        sc.batch = true;
        let mut b = Bulk::new(self.menu, 0);
        b.tags = 2;
        b.groups = 2;
        let sys = StoreSys::new(sc);
        let mut r = sys.start()?;
        let mut d = PointDone::default();
        let res = (|| {
            let mut first = [None; NGROUPS];
            let mut ops = vec![];
            for i in 0..n {
                give(rule, i, i as u32, &mut ops);
                b.mark(i, i as u32, &mut first, &mut ops);
            }
            let gone = pattern(pat, n);
            ops.extend(gone.iter().map(|i| Op { k: k::DESTROY, a: *i as u32, ..Op::default() }));
            let new = gone.len() * again / 2;
            for i in 0..new {
                let a = (n + i) as u32;
                give(rule + 1, i, a, &mut ops);
                ops.push(Op { k: k::TAG, c: 0, a, ..Op::default() });
                ops.push(Op { k: k::PUSH, c: 0, a, ..Op::default() });
            }
            for op in ops {
                sys.step(&mut r, op)?;
                d.transitions += 1;
            }
            sys.check(&mut r)?;
            let m = &r.w[0].model;
            let (young, old) = (m.alive().last().map(|x| x as u32), m.alive().next().map(|x| x as u32));
            let mut ops = vec![];
            for (i, h) in gone.iter().enumerate() {
                dead_ops(*h as u32, if i % 2 == 0 { young } else { old }, &mut ops);
            }
            for op in ops {
                sys.step(&mut r, op)?;
                d.transitions += 1;
            }
            sys.check(&mut r)?;
            // and still after more has happened
            for i in 0..3 {
                let a = r.w[0].handles.len() as u32;
                let mut ops = vec![];
                give(rule, i, a, &mut ops);
                for op in ops {
                    sys.step(&mut r, op)?;
                }
            }
            sys.check(&mut r)?;
            d.states += 3;
            Ok::<(), String>(())
        })();
        match res {
            Err(e) => {
                let _ = sys.finish(r);
                Err(e)
            }
            Ok(()) => {
                sys.finish(r)?;
                Ok(d)
            }
        }
    }
    fn show(&self, p: u64) -> String {
        let (c, n, r, pat, again) = self.at(p);
        format!(
            "capacity {c}, {} components: {n} entities with {}, destroy {}, create {again} halves of them again, everything through every dead handle",
            self.menu.name, RULES[r], PATTERNS[pat]
        )
    }
}

/// Order groups of many members, and every kind of misuse.
#[derive(Clone)]
pub struct MisuseMany {
    pub caps: Vec<usize>,
    pub sizes: Vec<usize>,
    pub groups: Vec<u8>,
}

impl MisuseMany {
    fn at(&self, p: u64) -> (usize, usize, u8, usize, bool) {
        let v = pairs(&self.caps, &self.sizes, false);
        let p = p as usize;
        let ((c, n), p) = (v[p % v.len()], p / v.len());
        let (g, p) = (self.groups[p % self.groups.len()], p / self.groups.len());
        (c, n, g, p % PATTERNS.len(), p / PATTERNS.len() == 1)
    }
}

impl Grid for MisuseMany {
    fn points(&self) -> u64 {
        (pairs(&self.caps, &self.sizes, false).len() * self.groups.len() * PATTERNS.len() * 2) as u64
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let (cap, n, groups, pat, destroy) = self.at(p);
        let mut sc = Scene::new("misuse", small(), cap);
        sc.oracles = o::MISUSE | o::ORD | o::LIVE;
        sc.groups = groups;
        sc.max_live = usize::MAX;
        sc.batch = true;
        let mut b = Bulk::new(small(), 0);
        b.groups = groups;
        let sys = StoreSys::new(sc);
        let mut r = sys.start()?;
        let mut d = PointDone::default();
        let res = (|| {
            let mut first = [None; NGROUPS];
            for i in 0..n {
                let mut ops = vec![];
                give(6, i, i as u32, &mut ops);
                b.mark(i, i as u32, &mut first, &mut ops);
                for op in ops {
                    sys.step(&mut r, op)?;
                }
            }
            for round in 0..2 {
                if round == 1 {
                    // fewer members, in other places
                    for i in pattern(pat, n) {
                        let mut ops = vec![];
                        if destroy {
                            ops.push(Op { k: k::DESTROY, a: i as u32, ..Op::default() });
                            ops.push(Op { k: k::CREATE, ..Op::default() });
                        } else {
                            ops.extend((0..groups as u16).map(|c| Op { k: k::LEAVE, c, a: i as u32, ..Op::default() }));
                        }
                        for op in ops {
                            sys.step(&mut r, op)?;
                        }
                    }
                }
                sys.check(&mut r)?;
                let m = &r.w[0].model;
                let mut ops = vec![];
                for g in 0..groups as u16 {
                    let group = &m.groups[g as usize];
                    let (inside, outside): (Vec<u32>, Vec<u32>) = m.alive().map(|x| x as u32).partition(|x| group.contains(x));
                    let ends = |v: &[u32]| -> Vec<u32> {
                        if v.len() <= 8 {
                            v.to_vec()
                        } else {
                            vec![v[0], v[1], v[v.len() / 2], v[v.len() - 2], v[v.len() - 1]]
                        }
                    };
                    for (i, h) in group.iter().enumerate() {
                        ops.push(Op { k: k::PUSH, c: g, a: *h, ..Op::default() });
                        let mut by: Vec<u32> = ends(group);
                        by.extend(ends(&outside));
                        by.extend([*h, group[(i + 1) % group.len()], group[(i + group.len() - 1) % group.len()]]);
                        for b in by {
                            ops.push(Op { k: k::NEXT, c: g, a: *h, b, s: 0 });
                            ops.push(Op { k: k::PREV, c: g, a: *h, b, s: 0 });
                        }
                    }
                    for h in &outside {
                        let mut by = ends(&outside);
                        by.push(*h);
                        for b in by {
                            ops.push(Op { k: k::NEXT, c: g, a: *h, b, s: 0 });
                            ops.push(Op { k: k::PREV, c: g, a: *h, b, s: 0 });
                        }
                    }
                    let _ = inside;
                }
                for op in ops {
                    sys.step(&mut r, op)?;
                    d.transitions += 1;
                }
                sys.check(&mut r)?;
                d.states += 2;
                // and used properly afterwards
                let m = &r.w[0].model;
                let mut ops = vec![];
                for g in 0..groups as u16 {
                    let group = &m.groups[g as usize];
                    let out: Vec<u32> = m.alive().map(|x| x as u32).filter(|x| !group.contains(x)).take(3).collect();
                    for (i, a) in out.iter().enumerate() {
                        ops.push(match (i, group.last()) {
                            (1, Some(b)) => Op { k: k::NEXT, c: g, a: *a, b: *b, s: 0 },
                            (2, Some(b)) => Op { k: k::PREV, c: g, a: *a, b: *b, s: 0 },
                            _ => Op { k: k::PUSH, c: g, a: *a, ..Op::default() },
                        });
                    }
                }
                for op in ops {
                    sys.step(&mut r, op)?;
                }
                sys.check(&mut r)?;
            }
            Ok::<(), String>(())
        })();
        match res {
            Err(e) => {
                let _ = sys.finish(r);
                Err(e)
            }
            Ok(()) => {
                sys.finish(r)?;
                Ok(d)
            }
        }
    }
    fn show(&self, p: u64) -> String {
        let (c, n, g, pat, destroy) = self.at(p);
        format!("capacity {c}: {n} entities in {g} groups, then {} {}; every misuse before and after", if destroy { "destroyed:" } else { "taken out:" }, PATTERNS[pat])
    }
}

/// Tags and order groups first used in every order.
pub struct Marks {
    pub tags: usize,
    pub groups: usize,
    pub oracles: u32,
}

impl Marks {
    fn n(&self) -> usize {
        self.tags.max(self.groups)
    }
    fn steps(&self) -> Vec<usize> {
        let gcd = |mut a: usize, mut b: usize| {
            while b > 0 {
                (a, b) = (b, a % b)
            }
            a
        };
        (1..self.n()).filter(|x| gcd(*x, self.n()) == 1).collect()
    }
    fn order(&self, p: u64) -> Vec<usize> {
        let n = self.n();
        if n <= 8 {
            let mut left: Vec<usize> = (0..n).collect();
            let mut p = p as usize;
            let mut out = vec![];
            while !left.is_empty() {
                out.push(left.remove(p % left.len()));
                p /= left.len() + 1;
            }
            out
        } else {
            let s = self.steps();
            let (m, r) = (s[p as usize % s.len()], p as usize / s.len());
            (0..n).map(|i| (i * m + r) % n).collect()
        }
    }
}

impl Grid for Marks {
    fn points(&self) -> u64 {
        if self.n() <= 8 {
            (1..=self.n() as u64).product()
        } else {
            (self.steps().len() * self.n()) as u64
        }
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let order = self.order(p);
        let mut sc = Scene::new("marks", small(), 1);
        sc.oracles = self.oracles;
        sc.accs = vec![0];
        sc.tags = self.tags as u8;
        sc.groups = self.groups as u8;
        sc.list_len = 0;
        sc.max_live = usize::MAX;
        let sys = StoreSys::new(sc);
        let mut r = sys.start()?;
        let mut d = PointDone::default();
        let res = (|| {
            let mut go = |r: &mut crate::sys::Run, k: u8, c: usize, a: u32, b: u32| {
                d.transitions += 1;
                sys.step(r, Op { k, s: 0, c: c as u16, a, b })
            };
            for _ in 0..3 {
                go(&mut r, k::CREATE_WITH, 1, 0, 0)?;
            }
            for (i, j) in order.iter().enumerate() {
                let (a, b) = ((i % 3) as u32, ((i + 1) % 3) as u32);
                if self.tags > 0 {
                    go(&mut r, k::TAG, *j, a, 0)?;
                }
                if self.groups > 0 {
                    go(&mut r, k::PUSH, *j, a, 0)?;
                    go(&mut r, k::PREV, *j, b, a)?;
                }
                sys.check(&mut r)?;
            }
            go(&mut r, k::CREATE, 0, 0, 0)?;
            sys.check(&mut r)?;
            for (i, j) in order.iter().enumerate() {
                match i % 3 {
                    0 => {
                        if self.tags > 0 {
                            go(&mut r, k::UNTAG, *j, 0, 0)?;
                        }
                        if self.groups > 0 {
                            go(&mut r, k::LEAVE, *j, 0, 0)?;
                        }
                    }
                    1 => {
                        if self.tags > 0 {
                            go(&mut r, k::TAG, *j, 3, 0)?;
                        }
                        if self.groups > 0 {
                            go(&mut r, k::PUSH, *j, 3, 0)?;
                        }
                    }
                    _ => {}
                }
            }
            sys.check(&mut r)?;
            go(&mut r, k::DESTROY, 0, 1, 0)?;
            sys.check(&mut r)?;
            go(&mut r, k::CREATE, 0, 0, 0)?;
            go(&mut r, k::CREATE, 0, 0, 0)?;
            sys.check(&mut r)?;
            go(&mut r, k::DESTROY, 0, 3, 0)?;
            go(&mut r, k::DESTROY, 0, 0, 0)?;
            go(&mut r, k::CREATE_WITH, 3, 0, 0)?;
            sys.check(&mut r)?;
            d.states += order.len() as u64 + 5;
            Ok::<(), String>(())
        })();
        match res {
            Err(e) => {
                let _ = sys.finish(r);
                Err(e)
            }
            Ok(()) => {
                sys.finish(r)?;
                Ok(d)
            }
        }
    }
    fn leaks_matter(&self) -> bool {
        self.oracles & o::LEAK != 0
    }
    fn show(&self, p: u64) -> String {
        format!("{} tags and {} groups used first in the order {:?}", self.tags, self.groups, self.order(p))
    }
}

/// Tags, groups and components used for the first time only when the store has long grown, and growth again after.
pub struct Late {
    pub caps: Vec<usize>,
    pub sizes: Vec<usize>,
    pub oracles: u32,
    pub accs: Vec<usize>,
    pub tags: bool,
    pub groups: bool,
}

const LATE_WHO: [&str; 5] = ["the last", "the first", "the middle one", "all", "all backwards"];

impl Late {
    fn at(&self, p: u64) -> (usize, usize, usize, usize, usize) {
        let mut p = p as usize;
        let mut take = |n: usize| {
            let x = p % n;
            p /= n;
            x
        };
        let s = self.sizes.len();
        let (c, a, b, who) = (self.caps[take(self.caps.len())], self.sizes[take(s)], self.sizes[take(s)], take(LATE_WHO.len()));
        // which of the three times the marks are first used
        (c, a, b, who, take(3))
    }
}

impl Grid for Late {
    fn points(&self) -> u64 {
        (self.caps.len() * self.sizes.len() * self.sizes.len() * LATE_WHO.len() * 3) as u64
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let (cap, a, b, who, first) = self.at(p);
        let mut sc = Scene::new("late", small(), cap);
        sc.oracles = self.oracles;
        sc.accs = self.accs.clone();
        sc.tags = if self.tags { 3 } else { 0 };
        sc.groups = if self.groups { 3 } else { 0 };
        sc.list_len = 0;
        sc.long_lists = true;
        sc.max_live = usize::MAX;
        let sys = StoreSys::new(sc);
        let mut r = sys.start()?;
        let mut d = PointDone::default();
        let res = (|| {
            let mut made = 0usize;
            for (round, n) in [a, b, a].into_iter().enumerate() {
                let mut ops = vec![];
                for _ in 0..n {
                    ops.push(Op { k: k::CREATE, ..Op::default() });
                }
                made += n;
                if round >= first {
                    let mid = made / 2;
                    let ids: Vec<usize> = match who {
                        0 => vec![made - 1],
                        1 => vec![round],
                        2 => vec![mid],
                        3 => (0..made).collect(),
                        _ => (0..made).rev().collect(),
                    };
                    let t = (round - first) as u16;
                    for (j, i) in ids.iter().enumerate() {
                        let i = *i as u32;
                        ops.push(Op { k: k::ADD, c: 1 << t, a: i, ..Op::default() });
                        if self.tags {
                            ops.push(Op { k: k::TAG, c: t, a: i, ..Op::default() });
                        }
                        if self.groups {
                            if j == 0 || t == 0 {
                                ops.push(Op { k: k::PUSH, c: t, a: i, ..Op::default() });
                            } else {
                                let k = if t == 1 { k::NEXT } else { k::PREV };
                                ops.push(Op { k, c: t, a: i, b: ids[j - 1] as u32, ..Op::default() });
                            }
                        }
                    }
                }
                for op in ops {
                    sys.step(&mut r, op)?;
                    d.transitions += 1;
                }
                sys.check(&mut r)?;
                d.states += 1;
            }
            // those at the ends leave, and others come in their place
            for i in [made - 1, 0, made / 2] {
                if r.w[0].model.ents[i].alive {
                    sys.step(&mut r, Op { k: k::DESTROY, a: i as u32, ..Op::default() })?;
                    d.transitions += 1;
                }
            }
            sys.check(&mut r)?;
            for _ in 0..4 {
                sys.step(&mut r, Op { k: k::CREATE, ..Op::default() })?;
                d.transitions += 1;
            }
            sys.check(&mut r)?;
            d.states += 2;
            Ok::<(), String>(())
        })();
        match res {
            Err(e) => {
                let _ = sys.finish(r);
                Err(e)
            }
            Ok(()) => {
                sys.finish(r)?;
                Ok(d)
            }
        }
    }
    fn leaks_matter(&self) -> bool {
        self.oracles & o::LEAK != 0
    }
    fn show(&self, p: u64) -> String {
        let (c, a, b, who, first) = self.at(p);
        format!(
            "capacity {c}: create {a}, {b} and {a} entities; from the {}. time on, {} get a component, tag and group not used before; then three are destroyed and four created",
            first + 1, LATE_WHO[who]
        )
    }
}

/// Every short workload, repeated many times in the same store.
pub struct Repeat {
    pub menu: &'static Menu,
    pub cap: usize,
    pub len: usize,
    pub early: usize,
    pub late: usize,
    /// entities that stay
    pub residents: Vec<Op>,
}

const REPEAT_OPS: usize = 20;

impl Repeat {
    fn stay(&self) -> usize {
        self.residents.iter().filter(|o| matches!(o.k, k::CREATE | k::CREATE_WITH)).count()
    }
    fn scene(&self) -> Scene {
        let mut sc = Scene::new("repeat", self.menu, self.cap);
        sc.tags = 1;
        sc.groups = 1;
        sc.slots = vec![(Kind::Comp, 0), (Kind::List, 0), (Kind::Ord(0), 0)];
        sc.prefix = self.residents.clone();
        sc
    }
    fn decode(&self, mut p: u64) -> (Vec<usize>, bool) {
        let fifo = p % 2 == 0;
        p /= 2;
        let mut v = vec![];
        for _ in 0..self.len {
            v.push((p % REPEAT_OPS as u64) as usize);
            p /= REPEAT_OPS as u64;
        }
        (v, fifo)
    }
    fn op(&self, w: usize, m: &Model) -> Option<Op> {
        let stay = self.stay();
        let first = m.alive().find(|x| *x >= stay).map(|x| x as u32);
        let last = m.alive().last().filter(|x| *x >= stay).map(|x| x as u32);
        let mk = |k: u8, c: u16, a: Option<u32>| a.map(|a| Op { k, c, a, ..Op::default() });
        match w {
            0 => Some(Op { k: k::CREATE, ..Op::default() }),
            1 => Some(Op { k: k::CREATE_WITH, c: 1, ..Op::default() }),
            2 => Some(Op { k: k::CREATE_WITH, c: 6, ..Op::default() }),
            3 => Some(Op { k: k::CREATE_WITH, c: 7, ..Op::default() }),
            4 => mk(k::DESTROY, 0, first),
            5 => mk(k::DESTROY, 0, last),
            6 => mk(k::ADD, 2, last),
            7 => mk(k::ADD, 5, first),
            8 => mk(k::REMOVE, 1, last),
            9 => mk(k::REMOVE, 6, first),
            10 => mk(k::TAG, 0, last),
            11 => last.filter(|l| !m.groups[0].contains(l)).map(|a| Op { k: k::PUSH, a, ..Op::default() }),
            12 => Some(Op { k: k::OBSERVE, ..Op::default() }),
            13 => mk(k::UNTAG, 0, first),
            14 => mk(k::LEAVE, 0, first),
            15 => {
                let at = m.groups[0].first().copied();
                last.filter(|l| !m.groups[0].contains(l)).and_then(|a| at.map(|b| Op { k: k::PREV, a, b, ..Op::default() }))
            }
            16 => Some(Op { k: k::QUERY, c: 0, a: u32::MAX, ..Op::default() }),
            17 => Some(Op { k: k::QUERY, c: 1, a: 1, ..Op::default() }),
            18 => Some(Op { k: k::QUERY, c: 2, a: u32::MAX, ..Op::default() }),
            _ => mk(k::WRITE, 1, last),
        }
    }
}

impl Grid for Repeat {
    fn points(&self) -> u64 {
        2 * (REPEAT_OPS as u64).pow(self.len as u32)
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let (seq, fifo) = self.decode(p);
        // the same workload as a shorter one
        if seq[self.len - 1] == 12 && self.len > 1 {
            return Ok(PointDone::default());
        }
        let sys = StoreSys::new(self.scene());
        let stay = self.stay();
        let mut r = sys.start()?;
        let mut d = PointDone::default();
        let mut early = (0, 0);
        let res = (|| {
            for cycle in 0..self.late {
                for w in &seq {
                    if let Some(op) = self.op(*w, &r.w[0].model) {
                        sys.step(&mut r, op)?;
                        d.transitions += 1;
                    }
                }
                loop {
                    let m = &r.w[0].model;
                    let h = if fifo { m.alive().find(|x| *x >= stay) } else { m.alive().last().filter(|x| *x >= stay) };
                    match h {
                        None => break,
                        Some(h) => sys.step(&mut r, Op { k: k::DESTROY, a: h as u32, ..Op::default() })?,
                    }
                    d.transitions += 1;
                }
                r.w[0].model.ents.truncate(stay);
                r.w[0].handles.truncate(stay);
                r.w[0].index.retain(|_, n| *n < stay);
                d.states += 1;
                let now = (alloc::arena().live_bytes, t!(r.w[0].store.as_ref().unwrap().entities_capacity()));
                if cycle + 1 == self.early {
                    early = now;
                } else if cycle + 1 == self.late && (now.0 > early.0 || now.1 > early.1) {
                    return Err(format!(
                        "after {} repetitions the store holds {} bytes (capacity {}), after {} repetitions {} bytes (capacity {})",
                        self.early, early.0, early.1, self.late, now.0, now.1
                    ));
                }
            }
            Ok(())
        })();
        let _ = sys.finish(r);
        res.map(|_| d)
    }
    fn show(&self, p: u64) -> String {
        let (seq, fifo) = self.decode(p);
        let sys = StoreSys::new(self.scene());
        let mut m = Model { groups: vec![vec![]; NGROUPS], ..Model::default() };
        for op in &self.residents {
            sys.apply_model(&mut m, *op);
        }
        let mut v = vec![];
        for w in seq {
            if let Some(op) = self.op(w, &m) {
                v.push(sys.show(op));
                sys.apply_model(&mut m, op);
            }
        }
        let with: Vec<String> = self.residents.iter().map(|o| sys.show(*o)).collect();
        let with = if with.is_empty() { String::new() } else { format!("[{}], then ", with.join("; ")) };
        format!("{with}repeat [{}; destroy all of these {}]", v.join("; "), if fifo { "oldest first" } else { "youngest first" })
    }
}

/// Bulk workloads repeated.
pub struct RepeatBulk {
    pub menu: &'static Menu,
    pub sizes: Vec<usize>,
    pub early: usize,
    pub late: usize,
}

impl Grid for RepeatBulk {
    fn points(&self) -> u64 {
        (self.sizes.len() * RULES.len() * 4) as u64
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let p = p as usize;
        let n = self.sizes[p % self.sizes.len()];
        let rule = p / self.sizes.len() % RULES.len();
        let order = p / self.sizes.len() / RULES.len();
        let sys = StoreSys::new(Scene::new("repeat", self.menu, 1));
        let mut r = sys.start()?;
        let mut d = PointDone::default();
        let mut early = (0, 0);
        let res = (|| {
            for cycle in 0..self.late {
                let mut ops = vec![];
                for i in 0..n {
                    give(rule, i, i as u32, &mut ops);
                }
                for op in ops {
                    sys.step(&mut r, op)?;
                    d.transitions += 1;
                }
                let idx: Vec<usize> = match order {
                    0 => (0..n).collect(),
                    1 => (0..n).rev().collect(),
                    2 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
                    _ => (n / 2..n).chain(0..n / 2).collect(),
                };
                for h in idx {
                    sys.step(&mut r, Op { k: k::DESTROY, a: h as u32, ..Op::default() })?;
                    d.transitions += 1;
                }
                r.w[0].model.ents.clear();
                r.w[0].handles.clear();
                r.w[0].index.clear();
                d.states += 1;
                let now = (alloc::arena().live_bytes, t!(r.w[0].store.as_ref().unwrap().entities_capacity()));
                if cycle + 1 == self.early {
                    early = now;
                } else if cycle + 1 == self.late && (now.0 > early.0 || now.1 > early.1) {
                    return Err(format!(
                        "after {} repetitions the store holds {} bytes (capacity {}), after {} repetitions {} bytes (capacity {})",
                        self.early, early.0, early.1, self.late, now.0, now.1
                    ));
                }
            }
            Ok(())
        })();
        let _ = sys.finish(r);
        res.map(|_| d)
    }
    fn show(&self, p: u64) -> String {
        let p = p as usize;
        format!(
            "repeat [create {} entities with {}; destroy all in order {}]",
            self.sizes[p % self.sizes.len()], RULES[p / self.sizes.len() % RULES.len()], p / self.sizes.len() / RULES.len()
        )
    }
}

// ------------------------------------------------------------------ layouts

#[repr(C, align(16))]
#[derive(Clone, Copy)]
pub struct A16;
#[repr(C, align(32))]
#[derive(Clone, Copy)]
pub struct A32;
#[repr(C, align(64))]
#[derive(Clone, Copy)]
pub struct A64;
#[repr(C, align(256))]
#[derive(Clone, Copy)]
pub struct A256;
#[repr(C, align(1024))]
#[derive(Clone, Copy)]
pub struct A1024;
#[repr(C, align(4096))]
#[derive(Clone, Copy)]
pub struct A4096;
#[repr(C, align(16384))]
#[derive(Clone, Copy)]
pub struct A16384;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Blob<A, const N: usize, const TAG: usize> {
    a: [A; 0],
    b: [u8; N],
}
impl<A: Copy, const N: usize, const TAG: usize> Component for Blob<A, N, TAG> {}

#[derive(Clone, Copy)]
pub struct Kindt {
    pub ty: ComponentType,
    pub at: fn(&Store, Entity) -> Option<usize>,
    pub remove: fn(&mut Store, Entity),
}

fn kindt<T: Component + 'static>() -> Kindt {
    Kindt {
        ty: ComponentType::of::<T>(),
        at: |s, e| t!(s.get_components_refs::<T>(e)).map(|r| r as *const T as usize),
        remove: |s, e| t!(s.remove_components::<T>(e)),
    }
}

macro_rules! blobs {
    ($($A:ty : $($N:expr),*;)*) => { vec![$($(kindt::<Blob<$A, $N, 0>>(),)*)*] };
}
macro_rules! twelve {
    ($A:ty, $N:expr) => {
        vec![
            kindt::<Blob<$A, $N, 1>>(), kindt::<Blob<$A, $N, 2>>(), kindt::<Blob<$A, $N, 3>>(), kindt::<Blob<$A, $N, 4>>(),
            kindt::<Blob<$A, $N, 5>>(), kindt::<Blob<$A, $N, 6>>(), kindt::<Blob<$A, $N, 7>>(), kindt::<Blob<$A, $N, 8>>(),
            kindt::<Blob<$A, $N, 9>>(), kindt::<Blob<$A, $N, 10>>(), kindt::<Blob<$A, $N, 11>>(), kindt::<Blob<$A, $N, 12>>(),
        ]
    };
}

/// Sets of component types, each filled over more than a page, on fresh and on recycled pages.
pub struct Layouts {
    singles: Vec<Kindt>,
    copies: Vec<Vec<Kindt>>,
    /// (set, set used afterwards in the recycled pages)
    sets: Vec<Set>,
}
unsafe impl Sync for Layouts {}
unsafe impl Send for Layouts {}

#[derive(Clone)]
enum Set {
    Of(Vec<usize>),
    /// number of types, number of copies of the first, first, second
    Copies(usize, usize, usize, usize),
}

impl Layouts {
    pub fn new(thorough: bool) -> Layouts {
        let singles = blobs! {
            u8: 1, 2, 3, 5, 7, 13, 31, 33, 63, 100, 127, 129, 255, 257, 511, 513, 1000, 1170, 1365, 1366, 2047, 2049, 3000, 4095, 4097,
                5461, 5462, 8191, 8192, 8193, 10922, 16379, 16380, 16383, 16384, 16385, 20000;
            u16: 2, 6, 34, 1366, 2730, 5460, 8190, 16382;
            u32: 4, 12, 20, 60, 1364, 4092, 5460, 8188, 16376, 16380;
            u64: 8, 24, 40, 72, 1168, 1360, 2048, 5456, 8184, 16368, 16376;
            A16: 16, 48, 1168, 1360, 4096, 5456, 8176, 16368;
            A32: 32, 96, 1152, 8160;
            A64: 64, 192, 1344, 8128, 16320;
            A256: 256, 768, 5376, 8192;
            A1024: 1024, 3072, 8192, 15360;
            A4096: 4096, 8192, 12288;
            A16384: 16384;
        };
        let copies = vec![
            twelve!(u8, 1), twelve!(u8, 3), twelve!(u8, 1170), twelve!(u8, 1365), twelve!(u8, 1366), twelve!(u16, 2), twelve!(u16, 1364), twelve!(u32, 4),
            twelve!(u32, 1360), twelve!(u64, 8), twelve!(u64, 40), twelve!(u64, 1168), twelve!(A16, 16), twelve!(A16, 1168), twelve!(A16, 1360), twelve!(A32, 1344),
            twelve!(A64, 64), twelve!(A64, 1344), twelve!(A256, 256), twelve!(A1024, 1024), twelve!(A4096, 4096), twelve!(u8, 2340), twelve!(A16, 2336), twelve!(u8, 600),
        ];
        let mut sets: Vec<Set> = vec![];
        for i in 0..singles.len() {
            sets.push(Set::Of(vec![i]));
            for j in 0..i {
                sets.push(Set::Of(vec![i, j]));
            }
        }
        let few: Vec<usize> = (0..singles.len()).step_by(if thorough { 2 } else { 5 }).collect();
        for x in 0..few.len() {
            for y in 0..x {
                for z in 0..y {
                    sets.push(Set::Of(vec![few[x], few[y], few[z]]));
                    if thorough {
                        for w in (0..z).step_by(3) {
                            sets.push(Set::Of(vec![few[x], few[y], few[z], few[w]]));
                        }
                    }
                }
            }
        }
        for n in 2..=12 {
            for a in 0..n {
                if !thorough && a > 2 && a + 2 < n && a != n / 2 && a != 4 {
                    continue;
                }
                for x in 0..copies.len() {
                    for y in 0..copies.len() {
                        if x != y && (a > 0 || x == 0 || (x == 1 && y == 0)) {
                            sets.push(Set::Copies(n, a, x, y));
                        }
                    }
                }
            }
        }
        Layouts { singles, copies, sets }
    }

    fn kinds(&self, s: &Set) -> Vec<Kindt> {
        match s {
            Set::Of(v) => v.iter().map(|i| self.singles[*i]).collect(),
            Set::Copies(n, a, x, y) => {
                (0..*a).map(|i| self.copies[*x][i]).chain((0..*n - *a).map(|i| self.copies[*y][i])).collect()
            }
        }
    }

    fn text(&self, s: &Set) -> String {
        let v: Vec<String> = self.kinds(s).iter().map(|k| format!("{}@{}", k.ty.size(), k.ty.align())).collect();
        v.join("+")
    }

    /// Fills a store with entities of one set; None: refused.
    fn fill(&self, st: &mut Store, ks: &[Kindt], text: &str, salt: u64, d: &mut PointDone) -> Result<Option<Vec<Entity>>, String> {
        let page = Store::data_page_size();
        let types: Vec<ComponentType> = ks.iter().map(|k| k.ty).collect();
        let arch = t!({
            let mut b = division_ecs::ArchetypeBuilder::new();
            b.include_component_types(&types);
            b.build()
        });
        let sum: usize = ks.iter().map(|k| k.ty.size()).sum();
        let max = ks.iter().map(|k| k.ty.size()).max().unwrap();
        let aligns: usize = ks.iter().map(|k| k.ty.align()).sum();
        let fits = (max + 8) * ks.len() + aligns <= page;
        let want = page / sum + 3;
        let mut es: Vec<Entity> = vec![];
        let mut out: Result<Option<()>, String> = Ok(Some(()));
        for i in 0..want {
            match guarded(|| t!(st.create_entity_with_archetype(&arch))) {
                Ok(e) => es.push(e),
                Err(p) => {
                    out = if i > 0 || fits {
                        Err(format!("creating entity {i} with {text} panicked: {p}"))
                    } else {
                        Ok(None)
                    };
                    break;
                }
            }
            d.transitions += 1;
        }
        t!(drop(arch));
        if out?.is_none() {
            return Ok(None);
        }
        if sum > page {
            return Err(format!("{text} does not fit in a page of {page} bytes but is not refused"));
        }
        let mut all: Vec<(usize, usize, usize, usize)> = vec![];
        for (i, e) in es.iter().enumerate() {
            for (j, k) in ks.iter().enumerate() {
                match guarded(|| (k.at)(st, *e)) {
                    Ok(Some(a)) => {
                        if a % k.ty.align() != 0 {
                            return Err(format!("{text}: component {j} of entity {i} is not aligned to {}", k.ty.align()));
                        }
                        if !alloc::arena().owns(a, k.ty.size()) {
                            return Err(format!("{text}: component {j} of entity {i} lies outside of the store's memory"));
                        }
                        all.push((a, k.ty.size(), i, j));
                    }
                    Ok(None) => return Err(format!("{text}: component {j} of entity {i} cannot be read")),
                    Err(p) => return Err(format!("{text}: reading component {j} of entity {i} panicked: {p}")),
                }
            }
        }
        for x in &all {
            unsafe { write_seed(x.0, x.1, salt ^ ((x.2 as u64) << 20 | x.3 as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)) }
        }
        for x in &all {
            if !unsafe { holds(x.0, x.1, salt ^ ((x.2 as u64) << 20 | x.3 as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)) } {
                return Err(format!("{text}: component {} of entity {} shares memory with another component", x.3, x.2));
            }
        }
        all.sort();
        for p in all.windows(2) {
            if p[0].0 + p[0].1 > p[1].0 {
                return Err(format!("{text}: component {} of entity {} overlaps component {} of entity {}", p[0].3, p[0].2, p[1].3, p[1].2));
            }
        }
        d.states += 1;
        Ok(Some(es))
    }
}

impl Grid for Layouts {
    fn points(&self) -> u64 {
        self.sets.len() as u64
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let mut d = PointDone::default();
        let i = p as usize;
        let sets = [&self.sets[i], &self.sets[(i + 1) % self.sets.len()]];
        let mut st = t!(Box::new(Store::with_capacity(2)));
        let mut kept: Vec<(Entity, Kindt, usize, u64)> = vec![];
        let res = (|| {
            for (n, s) in sets.into_iter().enumerate() {
                let ks = self.kinds(s);
                let salt = 0x5555 * (n as u64 + 1);
                let text = if n == 0 { self.text(s) } else { format!("after {} was destroyed, {}", self.text(sets[0]), self.text(s)) };
                let Some(es) = self.fill(&mut st, &ks, &text, salt, &mut d)? else { continue };
                // entities that stayed keep their bytes
                for (e, k, size, seed) in &kept {
                    match guarded(|| (k.at)(&st, *e))? {
                        Some(a) if alloc::arena().owns(a, *size) && unsafe { holds(a, *size, *seed) } => {}
                        _ => return Err(format!("{text}: a component of an entity that stayed was overwritten")),
                    }
                }
                alloc::arena().sweep()?;
                if let Some(e) = alloc::arena().error {
                    return Err(format!("{text}: {e}"));
                }
                // all but one go
                for (j, e) in es.iter().enumerate() {
                    if n == 0 && j == es.len() / 2 {
                        for (c, k) in ks.iter().enumerate() {
                            let seed = salt ^ ((j as u64) << 20 | c as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                            kept.push((*e, *k, k.ty.size(), seed));
                        }
                        continue;
                    }
                    guarded(|| t!(st.destroy_entity(*e))).map_err(|p| format!("{text}: destroying panicked: {p}"))?;
                    d.transitions += 1;
                }
                for (e, k, size, seed) in &kept {
                    match guarded(|| (k.at)(&st, *e))? {
                        Some(a) if alloc::arena().owns(a, *size) && unsafe { holds(a, *size, *seed) } => {}
                        _ => return Err(format!("{text}: destroying others changed a component of an entity that stayed")),
                    }
                }
                // the one that stayed loses a component
                if n == 0 && ks.len() > 1 {
                    let e = kept[0].0;
                    guarded(|| (ks[0].remove)(&mut st, e)).map_err(|p| format!("{text}: removing a component panicked: {p}"))?;
                    kept.remove(0);
                    for (e, k, size, seed) in &kept {
                        match guarded(|| (k.at)(&st, *e))? {
                            Some(a) if a % k.ty.align() == 0 && alloc::arena().owns(a, *size) && unsafe { holds(a, *size, *seed) } => {}
                            _ => return Err(format!("{text}: removing one component spoils another")),
                        }
                    }
                }
            }
            Ok(())
        })();
        t!(drop(st));
        res.map(|_| d)
    }
    fn leaks_matter(&self) -> bool {
        false
    }
    fn show(&self, p: u64) -> String {
        let i = p as usize;
        format!("fill pages with {} (size@alignment), destroy all but one, fill with {}", self.text(&self.sets[i]), self.text(&self.sets[(i + 1) % self.sets.len()]))
    }
}

/// Stores one after the other, or side by side for a while: none may notice that there were others.
pub struct Succession {
    pub menu: &'static Menu,
    pub caps: Vec<usize>,
    pub sizes: Vec<usize>,
    pub pats: Vec<usize>,
    pub oracles: u32,
}

/// When the first store is dropped.
const PASSING: [&str; 3] = ["before the second is created", "after the second is filled", "at the end"];

impl Succession {
    fn loads(&self) -> Vec<(usize, usize, usize)> {
        let mut v = vec![];
        for c in &self.caps {
            for n in &self.sizes {
                for p in &self.pats {
                    v.push((*c, *n, *p));
                }
            }
        }
        v
    }
    fn at(&self, p: u64) -> (usize, usize, usize) {
        let n = self.loads().len();
        let p = p as usize;
        (p % n, p / n % n, p / n / n)
    }
    fn sys(&self, load: usize) -> StoreSys {
        let mut sc = Scene::new("succession", self.menu, self.loads()[load].0);
        sc.oracles = self.oracles;
        sc.tags = 2;
        sc.groups = 2;
        sc.accs = vec![0, 9, 14];
        sc.list_len = 0;
        sc.long_lists = true;
        sc.max_live = usize::MAX;
        StoreSys::new(sc)
    }
    fn fill(&self, sys: &StoreSys, r: &mut crate::sys::Run, load: usize, d: &mut PointDone) -> Result<(), String> {
        let (_, n, pat) = self.loads()[load];
        let from = r.w[0].handles.len() as u32;
        let mut ops = vec![];
        for i in 0..n {
            let a = from + i as u32;
            give((load + 2) % RULES.len(), i, a, &mut ops);
            if i % 3 != 1 {
                ops.push(Op { k: k::TAG, c: (i % 2) as u16, a, ..Op::default() });
            }
            if i % 2 == 0 {
                ops.push(Op { k: k::PUSH, c: (i / 2 % 2) as u16, a, ..Op::default() });
            }
        }
        for i in pattern(pat, n) {
            ops.push(Op { k: k::DESTROY, a: from + i as u32, ..Op::default() });
        }
        for op in ops {
            sys.step(r, op)?;
            d.transitions += 1;
        }
        sys.check(r)?;
        d.states += 1;
        Ok(())
    }
}

impl Grid for Succession {
    fn points(&self) -> u64 {
        let n = self.loads().len() as u64;
        n * n * PASSING.len() as u64
    }

    fn run(&self, p: u64) -> Result<PointDone, String> {
        let (l0, l1, mode) = self.at(p);
        let sys = [self.sys(l0), self.sys(l1), self.sys(l0)];
        let mut d = PointDone::default();
        let mut open: [Option<crate::sys::Run>; 3] = [None, None, None];
        let mut res = (|| {
            for i in 0..3 {
                open[i] = Some(sys[i].start()?);
                sys[i].check(open[i].as_mut().unwrap())?;
                self.fill(&sys[i], open[i].as_mut().unwrap(), if i == 1 { l1 } else { l0 }, &mut d)?;
                let drop_now = match mode {
                    0 => open[i].take().map(|r| (i, r)),
                    1 if i > 0 => open[i - 1].take().map(|r| (i - 1, r)),
                    _ => None,
                };
                if let Some((n, r)) = drop_now {
                    sys[n].finish(r)?;
                }
                // those that stay, and go on
                for k in 0..=i {
                    if let Some(r) = open[k].as_mut() {
                        sys[k].check(r)?;
                        self.fill(&sys[k], r, if k == 1 { l0 } else { l1 }, &mut d)?;
                    }
                }
            }
            Ok::<(), String>(())
        })();
        for i in 0..3 {
            if let Some(r) = open[i].take() {
                let f = sys[i].finish(r);
                if res.is_ok() {
                    res = f;
                }
            }
        }
        res.map(|_| d)
    }

    fn show(&self, p: u64) -> String {
        let (l0, l1, mode) = self.at(p);
        let l = self.loads();
        let of = |l: (usize, usize, usize)| format!("(capacity {}, create {}, destroy {})", l.0, l.1, PATTERNS[l.2]);
        format!(
            "{} components: a store {}, then one {}, then one like the first; each goes on while it lives; dropped {}",
            self.menu.name, of(l[l0]), of(l[l1]), PASSING[mode]
        )
    }
}

/// Stores that all go through the same bulk history, on fresh memory of different contents.
pub struct Alike {
    pub menu: &'static Menu,
    pub caps: Vec<usize>,
    pub sizes: Vec<usize>,
    pub rules: Vec<usize>,
    pub pats: Vec<usize>,
}

impl Alike {
    fn at(&self, p: u64) -> (usize, usize, usize, usize) {
        let p = p as usize;
        let (a, b, c) = (self.caps.len(), self.sizes.len(), self.rules.len());
        (self.caps[p % a], self.sizes[p / a % b], self.rules[p / a / b % c], self.pats[p / a / b / c])
    }
}

impl Grid for Alike {
    fn points(&self) -> u64 {
        (self.caps.len() * self.sizes.len() * self.rules.len() * self.pats.len()) as u64
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let (cap, n, rule, pat) = self.at(p);
        let mut sc = Scene::new("alike", self.menu, cap);
        sc.caps = vec![cap; 3];
        sc.lockstep = true;
        sc.oracles = o::LIVE | o::SET | o::VAL | o::TAG | o::ORD | o::CQ;
        sc.tags = 2;
        sc.groups = 2;
        sc.accs = vec![0, 2, 8];
        sc.max_live = usize::MAX;
        let sys = StoreSys::new(sc);
        let mut d = PointDone::default();
        let mut r = sys.start()?;
        let mut res = (|| {
            for round in 0..2 {
                let from = r.w[0].handles.len() as u32;
                let mut ops = vec![];
                for i in 0..n {
                    let a = from + i as u32;
                    give((rule + round) % RULES.len(), i, a, &mut ops);
                    if i % 3 != 1 {
                        ops.push(Op { k: k::TAG, c: (i % 2) as u16, a, ..Op::default() });
                    }
                    if i % 2 == 0 {
                        ops.push(Op { k: k::PUSH, c: (i / 2 % 2) as u16, a, ..Op::default() });
                    }
                }
                let half = ops.len();
                for i in pattern(pat, n) {
                    ops.push(Op { k: k::DESTROY, a: from + i as u32, ..Op::default() });
                }
                for (i, op) in ops.iter().enumerate() {
                    sys.step(&mut r, *op)?;
                    d.transitions += 1;
                    if i + 1 == half {
                        sys.check(&mut r)?;
                        d.states += 1;
                    }
                }
                sys.check(&mut r)?;
                d.states += 1;
            }
            Ok::<(), String>(())
        })();
        let f = sys.finish(r);
        if res.is_ok() {
            res = f;
        }
        res.map(|_| d)
    }
    fn show(&self, p: u64) -> String {
        let (cap, n, rule, pat) = self.at(p);
        format!(
            "{} components, three stores of capacity {cap}, each: twice [create {n} with sets by rule {}, tag and order some, destroy {}]",
            self.menu.name, RULES[rule], PATTERNS[pat]
        )
    }
}

// ------------------------------------------------------------------ cycles

/// One step of a pattern: operation, operand, and whom it is about.
#[derive(Clone, Copy)]
pub struct Sym(pub u8, pub u16, pub Who, pub Who);

#[derive(Clone, Copy, PartialEq)]
pub enum Who {
    Nobody,
    First,
    Last,
    Mid,
    Head,
    Tail,
    MidMember,
    OldDead,
    NewDead,
}

/// Every pattern of operations up to a length, repeated over and over in one store (which it leaves as it likes).
#[derive(Clone)]
pub struct Cycles {
    pub scene: Scene,
    pub syms: Vec<Sym>,
    pub len: usize,
    pub times: usize,
    pub max_live: usize,
}

impl Cycles {
    fn decode(&self, mut p: u64) -> Vec<Sym> {
        (0..self.len)
            .map(|_| {
                let s = self.syms[(p % self.syms.len() as u64) as usize];
                p /= self.syms.len() as u64;
                s
            })
            .collect()
    }

    fn who(&self, w: Who, g: usize, m: &Model, live: &[u32]) -> Option<u32> {
        let group = m.groups.get(g);
        match w {
            Who::Nobody => Some(0),
            Who::First => live.first().copied(),
            Who::Last => live.last().copied(),
            Who::Mid => live.get(live.len() / 2).copied(),
            Who::Head => group?.first().copied(),
            Who::Tail => group?.last().copied(),
            Who::MidMember => group.and_then(|g| g.get(g.len() / 2)).copied(),
            Who::OldDead => m.dead().next().map(|x| x as u32),
            Who::NewDead => m.dead().last().map(|x| x as u32),
        }
    }

    fn op(&self, s: Sym, m: &Model) -> Option<Op> {
        let Sym(kind, c, wa, wb) = s;
        let live: Vec<u32> = m.alive().map(|x| x as u32).collect();
        if matches!(kind, k::CREATE | k::CREATE_WITH) && live.len() >= self.max_live {
            return None;
        }
        let a = self.who(wa, c as usize, m, &live)?;
        let b = self.who(wb, c as usize, m, &live)?;
        let legal = match kind {
            k::PUSH => !m.groups[c as usize].contains(&a),
            k::NEXT | k::PREV => !m.groups[c as usize].contains(&a) && m.groups[c as usize].contains(&b),
            _ => true,
        };
        let misuse = self.scene.oracles & o::MISUSE != 0 || (wa == Who::OldDead || wa == Who::NewDead);
        (legal || misuse).then_some(Op { k: kind, c, a, b, ..Op::default() })
    }
}

impl Grid for Cycles {
    fn points(&self) -> u64 {
        (self.syms.len() as u64).pow(self.len as u32)
    }

    fn run(&self, p: u64) -> Result<PointDone, String> {
        let seq = self.decode(p);
        // the rotations of a pattern are prefixes and suffixes of each other's repetitions: those that begin with a
        // creation stand for them
        let creates = |s: &Sym| matches!(s.0, k::CREATE | k::CREATE_WITH);
        if !creates(&seq[0]) && seq.iter().any(creates) {
            return Ok(PointDone::default());
        }
        let sys = StoreSys::new(self.scene.clone());
        let mut r = sys.start()?;
        let mut d = PointDone::default();
        let res = (|| {
            for cycle in 1..=self.times {
                for s in &seq {
                    if let Some(op) = self.op(*s, &r.w[0].model) {
                        sys.step(&mut r, op)?;
                        d.transitions += 1;
                    }
                }
                if cycle <= 3 || cycle % 7 == 0 || cycle == self.times {
                    sys.check(&mut r)?;
                    d.states += 1;
                }
            }
            Ok::<(), String>(())
        })();
        match res {
            Err(e) => {
                let _ = sys.finish(r);
                Err(e)
            }
            Ok(()) => {
                sys.finish(r)?;
                Ok(d)
            }
        }
    }

    fn leaks_matter(&self) -> bool {
        self.scene.oracles & o::LEAK != 0
    }

    fn show(&self, p: u64) -> String {
        let one = |s: &Sym| {
            let name = |w: Who| match w {
                Who::Nobody => "",
                Who::First => "first",
                Who::Last => "last",
                Who::Mid => "middle",
                Who::Head => "head",
                Who::Tail => "tail",
                Who::MidMember => "middle member",
                Who::OldDead => "oldest dead",
                Who::NewDead => "newest dead",
            };
            let sys = StoreSys::new(self.scene.clone());
            let t = sys.show(Op { k: s.0, c: s.1, a: 0, b: 1, ..Op::default() });
            format!("{t} [{} {}]", name(s.2), name(s.3)).replace(" ]", "]").replace(" []", "")
        };
        format!("{} times: {}", self.times, self.decode(p).iter().map(one).collect::<Vec<_>>().join("; "))
    }
}

// ------------------------------------------------------------------ one id, millions of owners

/// One id with more owners than 16 or 24 bits count.
pub struct Aeons {
    pub owners: usize,
    pub resources: bool,
    /// handles of released resources must be refused
    pub dead: bool,
}

impl Aeons {
    /// which owners are remembered, and when they are looked at
    fn kept(i: usize) -> bool {
        (0..=28).any(|b| i.abs_diff(1 << b) <= 1)
    }
}

impl Grid for Aeons {
    fn points(&self) -> u64 {
        if self.resources { 2 } else { 4 }
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let company = p & 1 != 0;
        let all = p & 2 != 0;
        let mut d = PointDone::default();
        let mut kept: Vec<Entity> = vec![];
        let mut seen: Vec<u64> = Vec::with_capacity(self.owners + 2);
        let num = |e: Entity| (e.id() as u64) << 32 | e.version() as u64;
        let said = |e: Entity| format!("id {} version {}", e.id(), e.version());
        if self.resources {
            let mut st = t!(Box::new(division_ecs::ResourceStore::<u64>::with_capacity(2)));
            let res = (|| {
                let mate = company.then(|| t!(st.create(7)));
                for i in 0..self.owners {
                    let e = t!(st.create(i as u64));
                    seen.push(num(e));
                    if Some(e) == mate {
                        return Err(format!("two live resources share {}", said(e)));
                    }
                    if Self::kept(i) {
                        if self.dead && cfg!(debug_assertions) {
                            for x in &kept {
                                if guarded(|| t!(st[*x])).is_ok() {
                                    return Err(format!("{} of a released resource leads to a resource after {i} owners", said(*x)));
                                }
                                if guarded(|| t!(st.release(*x))).is_ok() {
                                    return Err(format!("{} of a released resource is released again after {i} owners", said(*x)));
                                }
                            }
                        }
                        if t!(st[e]) != i as u64 || mate.is_some_and(|m| t!(st[m]) != 7) {
                            return Err(format!("another resource than was put in, after {i} owners"));
                        }
                        kept.push(e);
                        d.states += 1;
                    }
                    if t!(st.release(e)) != i as u64 {
                        return Err(format!("another resource is given back by {} after {i} owners", said(e)));
                    }
                    d.transitions += 2;
                }
                Ok(())
            })();
            alloc::track(false);
            t!(drop(st));
            res?;
        } else {
            let mut st = t!(Box::new(Store::with_capacity(2)));
            let res = (|| {
                let mate = company.then(|| t!(st.create_entity()));
                for i in 0..self.owners {
                    let e = t!(st.create_entity());
                    seen.push(num(e));
                    if !t!(st.is_alive(e)) {
                        return Err(format!("a new entity ({}) is dead, after {i} owners", said(e)));
                    }
                    if Self::kept(i) {
                        if all {
                            t!(st.add_tag::<T0>(e));
                            t!(st.add_entity_order_by::<T0>(e));
                        }
                        for x in kept.iter() {
                            if t!(st.is_alive(*x)) || t!(st.has_tag::<T0>(*x)) || t!(st.get_entity_archetype(*x).is_some()) {
                                return Err(format!("the handle {} of a destroyed entity leads to the owner number {i} of its id", said(*x)));
                            }
                            if all {
                                let _ = guarded(|| t!(st.remove_tag::<T0>(*x)));
                                let _ = guarded(|| t!(st.remove_entity_order_by::<T0>(*x)));
                                let _ = guarded(|| t!(st.destroy_entity(*x)));
                            }
                        }
                        if !t!(st.is_alive(e)) || mate.is_some_and(|m| !t!(st.is_alive(m))) {
                            return Err(format!("a live entity is dead, after {i} owners"));
                        }
                        if all && (!t!(st.has_tag::<T0>(e)) || t!(st.get_first_entity_ordered_by::<T0>()) != Some(e)) {
                            return Err(format!("handles of the dead changed {} after {i} owners", said(e)));
                        }
                        kept.push(e);
                        d.states += 1;
                    }
                    t!(st.destroy_entity(e));
                    d.transitions += 2;
                }
                Ok(())
            })();
            alloc::track(false);
            t!(drop(st));
            res?;
        }
        seen.sort_unstable();
        if let Some(w) = seen.windows(2).find(|w| w[0] == w[1]) {
            return Err(format!("the handle id {} version {} was returned twice within {} creations", w[0] >> 32, w[0] as u32, self.owners));
        }
        Ok(d)
    }
    fn show(&self, p: u64) -> String {
        format!(
            "{}{} times {}{}",
            if p & 1 != 0 { "beside another one: " } else { "" },
            self.owners,
            if self.resources { "create and release a resource" } else { "create and destroy an entity" },
            if p & 2 != 0 { ", operating through old handles" } else { "" }
        )
    }
}
