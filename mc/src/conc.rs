//! Iterators that are open at the same time: every interleaving of their steps.
use crate::comps::{Run as _, *};
use crate::explore::{guarded, Grid, Op, PointDone, System};
use crate::sys::{k, o, Run, Scene, StoreSys, World};
use division_ecs::{Entity, Store};

/// Something that goes on step by step next to others.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Course {
    /// a query of a world: opened, stepped to its end (or abandoned after some items), dropped
    Query { world: usize, kind: Kind, form: Form, acc: usize, take: usize },
    /// direct reads of everything, twice
    Reads { world: usize },
}

const ALL: usize = usize::MAX;

impl Course {
    fn world(&self) -> usize {
        match *self {
            Course::Query { world, .. } | Course::Reads { world } => world,
        }
    }
    fn show(&self, sys: &StoreSys) -> String {
        match *self {
            Course::Query { world, kind, form, acc, take } => {
                let a = &sys.sc.menu.accs[acc];
                let w = if sys.sc.caps.len() > 1 { format!(" of store {world}") } else { String::new() };
                let t = if take == ALL { String::new() } else { format!(" left after {take} items") };
                format!("{kind:?} {form:?} {}({},{}){w}{t}", a.name, sys.names(a.read), sys.names(a.write))
            }
            Course::Reads { .. } => "direct reads".to_string(),
        }
    }
}

/// What a course observes when nothing else is going on.
struct Alone {
    items: Vec<Item>,
    lens: Vec<Option<usize>>,
    hints: Vec<(usize, Option<usize>)>,
    reads: Vec<u64>,
    steps: usize,
}

/// Direct reads of everything a store tells about its entities.
fn reads(sys: &StoreSys, w: &World) -> Vec<u64> {
    let st: &Store = w.store.as_ref().unwrap();
    let menu = sys.sc.menu;
    let mut v = vec![];
    let of = |e: Option<Entity>| e.map_or(u64::MAX, |e| (e.id() as u64) << 32 | e.version() as u64);
    for h in w.model.alive() {
        let e = w.handles[h];
        v.push(t!(st.is_alive(e)) as u64);
        v.push(t!(st.get_entity_archetype(e).map_or(0, |a| a.component_count() as u64)));
        for t in &menu.tups[1..] {
            match (t.get)(st, e) {
                None => v.push(0),
                Some(p) => v.extend(p.iter().map(|q| q.addr as u64)),
            }
        }
        for n in 0..sys.sc.tags {
            v.push((tag(n as usize).has)(st, e) as u64);
        }
        for g in 0..sys.sc.groups {
            let gr = group(g as usize);
            v.extend([of((gr.after)(st, e)), of((gr.before)(st, e))]);
        }
    }
    for g in 0..sys.sc.groups {
        let gr = group(g as usize);
        v.extend([of((gr.first)(st)), of((gr.last)(st))]);
    }
    v
}

fn alone(sys: &StoreSys, w: &[&World], lists: &[Vec<Entity>], c: &Course) -> Alone {
    let mut a = Alone { items: vec![], lens: vec![], hints: vec![], reads: vec![], steps: 2 };
    match *c {
        Course::Reads { world } => a.reads = reads(sys, w[world]),
        Course::Query { world, kind, form, acc, take } => {
            let mut q = sys.sc.menu.accs[acc].make(kind);
            let mut it = q.open(w[world].store.as_ref().unwrap(), &lists[world], form);
            let limit = 4 * lists[world].len() + 16;
            loop {
                a.lens.push(t!(it.len()));
                a.hints.push(t!(it.size_hint()));
                if a.items.len() == take {
                    a.steps = 1 + take;
                    break;
                }
                match t!(it.next()) {
                    Some(i) => a.items.push(i),
                    None => {
                        a.steps = 2 + a.items.len();
                        break;
                    }
                }
                if a.items.len() > limit {
                    break;
                }
            }
            t!(drop(it));
            t!(drop(q));
        }
    }
    a
}

/// Every order of the steps of several courses.
pub fn interleavings(counts: &[usize], each: &mut dyn FnMut(&[u8]) -> Result<(), String>) -> Result<u64, String> {
    fn go(left: &mut [usize], seq: &mut Vec<u8>, n: &mut u64, each: &mut dyn FnMut(&[u8]) -> Result<(), String>) -> Result<(), String> {
        let mut last = true;
        for i in 0..left.len() {
            if left[i] > 0 {
                last = false;
                left[i] -= 1;
                seq.push(i as u8);
                go(left, seq, n, each)?;
                seq.pop();
                left[i] += 1;
            }
        }
        if last {
            *n += 1;
            each(seq)?;
        }
        Ok(())
    }
    let mut n = 0;
    go(&mut counts.to_vec(), &mut vec![], &mut n, each)?;
    Ok(n)
}

struct Going<'a> {
    it: Option<Box<dyn Iter + 'a>>,
    q: Option<Box<dyn QueryObj>>,
    at: usize,
}

/// What the courses share while they go on.
struct Stage<'a> {
    sys: &'a StoreSys,
    w: &'a [&'a World],
    lists: &'a [Vec<Entity>],
    courses: &'a [Course],
    alone: &'a [Alone],
    /// query objects that are used again and again (otherwise one for each course)
    warm: bool,
}

impl<'a> Stage<'a> {
    fn step(&self, g: &mut Going<'a>, i: usize) -> Result<(), String> {
        let (c, a) = (&self.courses[i], &self.alone[i]);
        let n = g.at;
        g.at += 1;
        match *c {
            Course::Reads { world } => {
                if reads(self.sys, self.w[world]) != a.reads {
                    return Err("direct reads tell something else than before".into());
                }
            }
            Course::Query { world, kind, form, acc, take } => {
                if n == 0 {
                    if g.q.is_none() {
                        g.q = Some(self.sys.sc.menu.accs[acc].make(kind));
                    }
                    let q: *mut dyn QueryObj = &mut **g.q.as_mut().unwrap();
                    // the iterator is dropped before the query object
                    g.it = Some(unsafe { &mut *q }.open(self.w[world].store.as_ref().unwrap(), &self.lists[world], form));
                }
                let what = || c.show(self.sys);
                let it = g.it.as_mut().unwrap();
                if n > 0 {
                    let got = t!(it.next());
                    if got.as_ref() != a.items.get(n - 1) {
                        return Err(format!(
                            "{} yields {} as item {} where it yields {} alone", what(),
                            if got.is_some() { "something else" } else { "nothing" }, n - 1,
                            if n - 1 < a.items.len() { "one" } else { "nothing" }
                        ));
                    }
                }
                if n < a.lens.len() {
                    if t!(it.len()) != a.lens[n] || t!(it.size_hint()) != a.hints[n] {
                        return Err(format!("{} reports another length after {n} items than alone", what()));
                    }
                }
                if g.at == a.steps {
                    if take == ALL && t!(it.next()).is_some() {
                        return Err(format!("{} yields items after its end", what()));
                    }
                    let it = g.it.take();
                    t!(drop(it));
                    if !self.warm {
                        let q = g.q.take();
                        t!(drop(q));
                    }
                }
            }
        }
        Ok(())
    }
}

/// All interleavings of some courses over stores nobody changes.
fn together(sys: &StoreSys, w: &[&World], lists: &[Vec<Entity>], courses: &[Course], warm: bool, d: &mut PointDone) -> Result<(), String> {
    let al: Vec<Alone> = courses.iter().map(|c| alone(sys, w, lists, c)).collect();
    all_orders(sys, w, lists, courses, &al, warm, d)
}

fn all_orders(sys: &StoreSys, w: &[&World], lists: &[Vec<Entity>], courses: &[Course], al: &[Alone], warm: bool, d: &mut PointDone) -> Result<(), String> {
    let counts: Vec<usize> = al.iter().map(|a| a.steps).collect();
    let stage = Stage { sys, w, lists, courses, alone: al, warm };
    let mut going: Vec<Going> = courses.iter().map(|_| Going { it: None, q: None, at: 0 }).collect();
    let n = interleavings(&counts, &mut |seq| {
        for (s, i) in seq.iter().enumerate() {
            let i = *i as usize;
            if let Err(e) = stage.step(&mut going[i], i) {
                let v: Vec<String> = courses.iter().map(|c| c.show(sys)).collect();
                return Err(format!("with [{}] open at the same time, stepped in the order {:?}: {e}", v.join(" | "), &seq[..=s]));
            }
            d.transitions += 1;
        }
        for g in &mut going {
            g.at = 0;
        }
        Ok(())
    });
    for g in &mut going {
        let (it, q) = (g.it.take(), g.q.take());
        t!(drop(it));
        t!(drop(q));
    }
    d.states += n?;
    Ok(())
}

/// No course changes what another one refers to.
fn compatible(sys: &StoreSys, cs: &[Course]) -> bool {
    for (i, a) in cs.iter().enumerate() {
        for (j, b) in cs.iter().enumerate() {
            if let (Course::Query { acc: x, world: u, .. }, Course::Query { acc: y, world: v, .. }) = (a, b) {
                let (x, y) = (&sys.sc.menu.accs[*x], &sys.sc.menu.accs[*y]);
                if i != j && u == v && x.write & y.all() != 0 {
                    return false;
                }
            }
        }
    }
    true
}

/// The queries of a world that are put together.
fn courses(sys: &StoreSys, world: usize, few: bool) -> Vec<Course> {
    let q = |kind, form, acc, take| Course::Query { world, kind, form, acc, take };
    let mut v = vec![
        q(Kind::Comp, Form::Plain, 0, ALL),
        q(Kind::Comp, Form::Entities, 2, ALL),
        q(Kind::Comp, Form::Filter(0), 0, ALL),
        q(Kind::Comp, Form::Entities, 8, ALL),
        q(Kind::List, Form::Entities, 0, ALL),
        q(Kind::Ord(0), Form::Entities, 0, ALL),
        q(Kind::Ord(1), Form::Plain, 0, ALL),
    ];
    if !few {
        v.extend([
            q(Kind::Comp, Form::Entities, 0, ALL),
            q(Kind::Comp, Form::Entities, 0, 1),
            q(Kind::Comp, Form::Filter(1), 0, ALL),
            q(Kind::Comp, Form::Filter(0), 14, ALL),
            q(Kind::List, Form::Plain, 2, ALL),
            q(Kind::List, Form::Entities, 8, 1),
            q(Kind::Ord(0), Form::Plain, 2, ALL),
            q(Kind::Ord(0), Form::Entities, 8, ALL),
            q(Kind::Ord(0), Form::Plain, 0, 1),
            Course::Reads { world },
        ]);
    }
    v.retain(|c| match c {
        Course::Query { kind: Kind::Ord(g), .. } => *g < sys.sc.groups,
        Course::Query { form: Form::Filter(t), .. } => *t < sys.sc.tags,
        _ => true,
    });
    v
}

fn lists(r: &Run) -> Vec<Vec<Entity>> {
    r.w.iter().map(|w| w.handles.iter().rev().copied().collect()).collect()
}

/// The oracle of a state: every pair of courses, in every order of their steps.
pub fn check_pairs(sys: &StoreSys, r: &Run) -> Result<(), String> {
    let w: Vec<&World> = r.w.iter().collect();
    let l = lists(r);
    let mut d = PointDone::default();
    let all: Vec<Course> = (0..w.len()).flat_map(|s| courses(sys, s, w.len() > 1)).collect();
    let al: Vec<Alone> = all.iter().map(|c| alone(sys, &w, &l, c)).collect();
    for i in 0..all.len() {
        for j in i..all.len() {
            if w.len() > 1 && all[i].world() == all[j].world() {
                continue;
            }
            let cs = [all[i], all[j]];
            if !compatible(sys, &cs) {
                continue;
            }
            let a = |n: usize| Alone {
                items: al[n].items.clone(), lens: al[n].lens.clone(), hints: al[n].hints.clone(), reads: al[n].reads.clone(), steps: al[n].steps,
            };
            all_orders(sys, &w, &l, &cs, &[a(i), a(j)], (i + j) % 2 == 0, &mut d)?;
        }
    }
    Ok(())
}

fn op(k: u8, c: u16, a: u32, b: u32) -> Op {
    Op { k, s: 0, c, a, b }
}

/// Stores to iterate over.
fn scenes(n: usize) -> Vec<Vec<Op>> {
    let (cw, tag, push, des, add, rem) = (k::CREATE_WITH, k::TAG, k::PUSH, k::DESTROY, k::ADD, k::REMOVE);
    let v = vec![
        vec![op(cw, 1, 0, 0), op(cw, 3, 0, 0), op(tag, 0, 0, 0), op(tag, 1, 1, 0), op(push, 0, 1, 0), op(push, 0, 0, 0), op(push, 1, 0, 0)],
        vec![op(cw, 3, 0, 0), op(cw, 3, 0, 0), op(tag, 0, 1, 0), op(push, 0, 0, 0), op(push, 0, 1, 0), op(push, 1, 1, 0)],
        vec![op(cw, 7, 0, 0), op(cw, 1, 0, 0), op(cw, 2, 0, 0), op(tag, 0, 0, 0), op(tag, 0, 2, 0), op(push, 0, 2, 0), op(push, 0, 0, 0)],
        vec![op(cw, 1, 0, 0), op(cw, 1, 0, 0), op(cw, 3, 0, 0), op(des, 0, 0, 0), op(tag, 0, 2, 0), op(push, 0, 2, 0), op(push, 0, 1, 0)],
        vec![op(cw, 3, 0, 0), op(cw, 1, 0, 0), op(add, 2, 1, 0), op(rem, 2, 0, 0), op(tag, 0, 1, 0), op(push, 1, 1, 0), op(push, 1, 0, 0)],
        vec![op(k::CREATE, 0, 0, 0), op(cw, 3, 0, 0), op(push, 0, 0, 0), op(push, 0, 1, 0), op(tag, 0, 0, 0)],
    ];
    v.into_iter().take(n).collect()
}

/// What happens to another store meanwhile.
fn scripts() -> Vec<Vec<Op>> {
    let (cw, tag, push, des, add, rem) = (k::CREATE_WITH, k::TAG, k::PUSH, k::DESTROY, k::ADD, k::REMOVE);
    vec![
        vec![op(cw, 1, 0, 0), op(cw, 3, 0, 0), op(des, 0, 0, 0), op(cw, 3, 0, 0)],
        vec![op(add, 2, 0, 0), op(rem, 1, 0, 0), op(rem, 7, 0, 0)],
        vec![op(tag, 0, 0, 0), op(k::UNTAG, 0, 1, 0), op(tag, 2, 1, 0)],
        vec![op(push, 2, 0, 0), op(k::LEAVE, 0, 0, 0), op(push, 0, 0, 0)],
        vec![op(k::CREATE, 0, 0, 0), op(k::CREATE, 0, 0, 0), op(k::CREATE, 0, 0, 0)],
        vec![op(k::OBSERVE, 0, 0, 0), op(des, 0, 1, 0), op(k::OBSERVE, 0, 0, 0)],
        // the other store ends
        vec![op(des, 0, 0, 0), op(DROP, 0, 0, 0)],
        // and another one begins
        vec![op(DROP, 0, 0, 0), op(AGAIN, 0, 0, 0), op(cw, 3, 0, 0)],
    ]
}
const DROP: u8 = 200;
const AGAIN: u8 = 201;

/// Three courses, or courses over a store while another one is changed.
#[derive(Clone)]
pub struct Together {
    pub menu: &'static Menu,
    pub caps: Vec<usize>,
    pub scenes: usize,
    /// courses over the store at the same time
    pub width: usize,
    /// another store is changed meanwhile
    pub changes: bool,
    /// the orders are divided into that many points
    pub parts: usize,
    pub scripts: Vec<usize>,
}

impl Together {
    fn sys(&self, cap: usize, prefix: &[Op]) -> StoreSys {
        let mut sc = Scene::new("together", self.menu, cap);
        sc.prefix = prefix.to_vec();
        sc.oracles = o::ALL;
        sc.tags = 3;
        sc.groups = 3;
        sc.list_len = 1;
        sc.accs = vec![0, 2, 8];
        StoreSys::new(sc)
    }
    fn combos(&self) -> Vec<Vec<usize>> {
        let n = 7; // few
        let mut v: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..self.width {
            v = v.into_iter().flat_map(|c| (c.last().copied().unwrap_or(0)..n).map(move |x| [&c[..], &[x]].concat())).collect();
        }
        v
    }
    fn at(&self, p: u64) -> (usize, usize, usize, usize) {
        let p = p as usize / self.parts;
        let (a, b, c) = (self.caps.len(), self.scenes, self.combos().len());
        (p % a, p / a % b, p / a / b % c, p / a / b / c)
    }
}

impl Grid for Together {
    fn points(&self) -> u64 {
        let s = if self.changes { self.scripts.len() } else { 1 };
        (self.caps.len() * self.scenes * self.combos().len() * s * self.parts) as u64
    }

    fn run(&self, p: u64) -> Result<PointDone, String> {
        let (ci, si, co, sp) = self.at(p);
        let sys = self.sys(self.caps[ci], &scenes(self.scenes)[si]);
        let mut d = PointDone::default();
        let mut r = sys.start()?;
        let mut res = (|| {
            let all = courses(&sys, 0, true);
            let cs: Vec<Course> = self.combos()[co].iter().map(|i| all[*i]).collect();
            if !compatible(&sys, &cs) {
                return Ok(());
            }
            let w: Vec<&World> = r.w.iter().collect();
            let l = lists(&r);
            if self.changes {
                self.changing(&sys, &w, &l, &cs, &scripts()[self.scripts[sp]], p as usize % self.parts, &mut d)
            } else {
                guarded(|| together(&sys, &w, &l, &cs, co % 2 == 0, &mut d)).map_err(|e| format!("a panic: {e}"))?
            }
        })();
        if res.is_ok() {
            res = sys.check(&mut r);
        }
        let f = sys.finish(r);
        res.and(f).map(|_| d)
    }

    fn show(&self, p: u64) -> String {
        let (ci, si, co, sp) = self.at(p);
        let sys = self.sys(self.caps[ci], &[]);
        let all = courses(&sys, 0, true);
        let cs: Vec<String> = self.combos()[co].iter().map(|i| all[*i].show(&sys)).collect();
        let show = |o: &Op| match o.k {
            DROP => "drop it".to_string(),
            AGAIN => "create it again".to_string(),
            _ => sys.show(*o),
        };
        let h: Vec<String> = scenes(self.scenes)[si].iter().map(|o| sys.show(*o)).collect();
        let c: Vec<String> = if self.changes { scripts()[self.scripts[sp]].iter().map(show).collect() } else { vec![] };
        format!(
            "{} components, capacity {}: {}; then every order of the steps of [{}]{}{}",
            self.menu.name, self.caps[ci], h.join("; "), cs.join(" | "),
            if self.changes { format!(" and of, on another such store, [{}]", c.join("; ")) } else { String::new() },
            if self.parts > 1 { format!(" (part {} of {})", p as usize % self.parts, self.parts) } else { String::new() }
        )
    }
}

impl Together {
    fn changing(&self, sys: &StoreSys, w: &[&World], l: &[Vec<Entity>], cs: &[Course], script: &[Op], part: usize, d: &mut PointDone) -> Result<(), String> {
        let al: Vec<Alone> = cs.iter().map(|c| alone(sys, w, l, c)).collect();
        // like the first scene, with other values
        let mut prefix = scenes(1)[0].clone();
        prefix.extend([op(k::WRITE, 1, 0, 0), op(k::WRITE, 3, 1, 0)]);
        let mut other = self.sys(1, &prefix);
        if self.width > 1 {
            other.sc.oracles = o::LIVE | o::SET | o::VAL | o::TAG | o::ORD;
        }
        let mut counts: Vec<usize> = al.iter().map(|a| a.steps).collect();
        let me = counts.len();
        counts.push(script.len());
        let stage = Stage { sys, w, lists: l, courses: cs, alone: &al, warm: false };
        let mut going: Vec<Going> = cs.iter().map(|_| Going { it: None, q: None, at: 0 }).collect();
        // (what an aborted order leaves open is dropped with `going`)
        let mut order = 0;
        interleavings(&counts, &mut |seq| {
            order += 1;
            if order % self.parts != part {
                return Ok(());
            }
            d.states += 1;
            let mut b = Some(other.start()?);
            let mut at = 0;
            let mut one = |i: usize, b: &mut Option<Run>| -> Result<(), String> {
                if i < me {
                    return guarded(|| stage.step(&mut going[i], i)).map_err(|e| format!("a panic: {e}"))?;
                }
                let op = script[at];
                at += 1;
                match op.k {
                    DROP => other.finish(b.take().unwrap()),
                    AGAIN => {
                        *b = Some(other.start()?);
                        Ok(())
                    }
                    _ => other.step(b.as_mut().unwrap(), op),
                }
            };
            let mut res = Ok(());
            for (s, i) in seq.iter().enumerate() {
                if let Err(e) = one(*i as usize, &mut b) {
                    res = Err(format!("in the order {:?} ({me}: the other store): {e}", &seq[..=s]));
                    break;
                }
                d.transitions += 1;
            }
            if let Some(mut b) = b {
                if res.is_ok() {
                    res = other.check(&mut b);
                }
                let f = other.finish(b);
                res = res.and(f);
            }
            for g in &mut going {
                g.at = 0;
            }
            res
        })?;
        Ok(())
    }
}
