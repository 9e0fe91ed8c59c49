//! Which explorations decide which property.
use crate::arch;
use crate::bulk::*;
use crate::comps::*;
use crate::conc::Together;
use crate::explore::{BfsJob, Grid, GridJob, Job, Op, System};
use crate::res::*;
use crate::sys::*;
use crate::wide::{wide, Sets, Wide};

fn bfs<S: System + 'static>(name: &str, sys: S, depth: usize) -> Box<dyn Job> {
    Box::new(BfsJob { name: name.to_string(), sys, depth })
}

fn grid<G: Grid + 'static>(name: &str, grid: G) -> Box<dyn Job> {
    Box::new(GridJob { name: name.to_string(), grid })
}

fn store(mut sc: Scene) -> Box<dyn Job> {
    let d = sc.depth;
    let n = sc.name.clone();
    // the same object names the state space of the scene
    sc.max_issued = sc.max_issued.min(60);
    bfs(&n, StoreSys::new(sc), d)
}

struct B {
    sc: Scene,
}

impl B {
    fn new(name: &str, menu: &'static Menu, cap: usize, oracles: u32) -> B {
        let mut sc = Scene::new(name, menu, cap);
        sc.oracles = oracles;
        B { sc }
    }
    fn gens(mut self, g: &[Gen]) -> B {
        self.sc.gens.extend_from_slice(g);
        self
    }
    fn depth(mut self, quick: usize, deep: usize, thorough: bool) -> B {
        self.sc.depth = if thorough { deep } else { quick };
        self
    }
    fn live(mut self, n: usize) -> B {
        self.sc.max_live = n;
        self
    }
    fn tags(mut self, n: u8) -> B {
        self.sc.tags = n;
        self
    }
    fn groups(mut self, n: u8) -> B {
        self.sc.groups = n;
        self
    }
    fn accs(mut self, a: &[usize]) -> B {
        self.sc.accs = a.to_vec();
        self
    }
    fn lists(mut self, n: usize) -> B {
        self.sc.list_len = n;
        self
    }
    fn prefix(mut self, p: Vec<Op>) -> B {
        self.sc.prefix = p;
        self
    }
    fn job(self) -> Box<dyn Job> {
        store(self.sc)
    }
}

fn op(k: u8, c: u16, a: u32, b: u32) -> Op {
    Op { k, s: 0, c, a, b }
}

/// n entities created with a component set each
fn made(sets: &[u16]) -> Vec<Op> {
    sets.iter().map(|m| if *m == 0 { op(k::CREATE, 0, 0, 0) } else { op(k::CREATE_WITH, *m, 0, 0) }).collect()
}

use Gen::*;

/// every store operation on components
fn comp_gens(masks: &[u32]) -> Vec<Gen> {
    let mut g = vec![Create, Destroy];
    for m in masks {
        g.extend([CreateWith(*m), Add(*m), Remove(*m)]);
    }
    g
}

/// Operations with tuples of several of the seventy-two types.
fn wide_gens() -> Vec<Gen> {
    let mut g = vec![Create, Destroy];
    let t = crate::wide::N as u32;
    g.extend([CreateWith(t + 1), CreateWith(t + 4), Add(t + 1), Add(t + 2), Add(t + 3), Add(t + 6), Add(t + 7), Add(5)]);
    g.extend([Remove(t + 1), Remove(t + 8), Remove(t + 11), Remove(t + 6)]);
    g
}

/// Sets of many types: entities that have up to seventy-two, and hundreds of sets at a time.
fn wide_jobs(j: &mut Vec<Box<dyn Job>>, or: u32, th: bool, tags: u8, groups: u8) {
    let mut w = Wide::new(or);
    w.tags = tags;
    w.groups = groups;
    if th {
        w.caps = vec![1, 2, 33];
        w.sizes = vec![1, 2, 3, 7, 14, 40];
        w.every = 2;
    }
    j.push(grid("many-types-each", w));
    let mut s = Sets::new(or, if th { &[3, 7, 40, 72, 120, 300, 450] } else { &[3, 7, 72, 300] });
    s.wide.tags = tags;
    s.wide.groups = groups;
    j.push(grid("many-sets", s));
    let mut b = B::new("wide", wide(), 2, or).gens(&wide_gens()).live(3).depth(4, 5, th).tags(tags.min(2)).groups(groups.min(2)).lists(1);
    if tags > 0 {
        b = b.gens(&[Tag(0)]);
    }
    if groups > 0 {
        b = b.gens(&[Push(0), Prev(0)]);
    }
    j.push(b.job());
}

/// More entities than sixteen bits count, more pages than eight bits count.
fn huge_jobs(j: &mut Vec<Box<dyn Job>>, or: u32, th: bool, tags: u8, groups: u8, qwrites: &[Op]) {
    let mut b = Bulk::new(small(), or);
    b.caps = vec![1, 30_001];
    b.sizes = vec![40_000];
    b.rules = if th { vec![0, 2, 5] } else { vec![4] };
    b.pats = if th { vec![0, 1, 3, 7] } else { vec![0, 3] };
    b.accs = vec![0, 9];
    b.tags = tags;
    b.groups = groups;
    b.qwrites = qwrites.to_vec();
    j.push(grid("very-many-entities", b.clone()));
    // a group, a kind and a tag with more of them each than sixteen bits count
    let mut m = b.clone();
    m.caps = vec![1];
    m.sizes = vec![if th { 90_000 } else { 46_000 }];
    m.rules = vec![0];
    m.pats = vec![if th { 3 } else { 0 }];
    m.groups = groups.min(1);
    m.accs = vec![0];
    j.push(grid("most-entities", m));
    b.menu = big();
    b.sizes = vec![1_100];
    b.rules = if th { (0..8).collect() } else { vec![0, 2] };
    b.pats = if th { (0..8).collect() } else { vec![1, 3, 6] };
    j.push(grid("very-many-pages", b));
}

/// The other ways to ask an iterator for its items, on states where it passes many a boundary.
fn adaptor_jobs(j: &mut Vec<Box<dyn Job>>, or: u32, th: bool, tags: u8, groups: u8) {
    let or = or | o::ITER;
    for menu in [small(), big()] {
        let mut p = made(&[1, 3, 1, 3, 1]);
        if groups > 0 {
            p.extend([0, 2, 4, 1, 3].map(|a| op(k::PUSH, 0, a, 0)));
        }
        if tags > 0 {
            p.extend([1, 2, 4].map(|a| op(k::TAG, 0, a, 0)));
        }
        let mut b = B::new(&format!("adaptors-{}", menu.name), menu, 2, or)
            .prefix(p)
            .gens(&[CreateWith(1), CreateWith(3), Destroy, Add(2), Remove(1)])
            .tags(tags)
            .groups(groups)
            .accs(&[0, 8])
            .live(7)
            .depth(2, 3, th);
        if or & o::EQ != 0 {
            b.sc.long_lists = true;
        }
        if groups > 0 {
            b = b.gens(&[Push(0), Prev(0), Leave(0)]);
        }
        if tags > 0 {
            b = b.gens(&[Tag(0), Untag(0)]);
        }
        j.push(b.job());
        let mut b = Bulk::new(menu, or);
        b.caps = vec![1];
        b.sizes = if menu.name == "small" { vec![33, 130, 700] } else { vec![4, 9, 25] };
        b.rules = vec![0, 2, 5];
        b.accs = vec![0, 8];
        b.tags = tags;
        b.groups = groups;
        j.push(grid(&format!("adaptors-many-{}", menu.name), b));
    }
}

/// Everything used for the first time late in a store's life.
fn late_jobs(j: &mut Vec<Box<dyn Job>>, or: u32, th: bool, what: &str, accs: &[usize]) {
    let all = what == "everything";
    j.push(grid(
        "late",
        Late {
            caps: if th { vec![1, 2, 3, 10, 31, 32, 33, 64, 100] } else { vec![1, 10, 32, 33] },
            sizes: if th { vec![1, 2, 5, 32, 33, 70, 140] } else { vec![1, 5, 33, 70] },
            oracles: or,
            accs: accs.to_vec(),
            tags: all || what == "tags",
            groups: all || what == "groups",
        },
    ));
}

/// Patterns of operations, each repeated over and over.
fn cycle_jobs(j: &mut Vec<Box<dyn Job>>, or: u32, th: bool, what: &str, accs: &[usize]) {
    use Who::*;
    let lives = [Sym(k::CREATE, 0, Nobody, Nobody), Sym(k::DESTROY, 0, First, Nobody), Sym(k::DESTROY, 0, Last, Nobody), Sym(k::DESTROY, 0, Mid, Nobody)];
    let comps = [
        Sym(k::CREATE_WITH, 1, Nobody, Nobody),
        Sym(k::CREATE_WITH, 6, Nobody, Nobody),
        Sym(k::CREATE_WITH, 7, Nobody, Nobody),
        Sym(k::ADD, 2, Last, Nobody),
        Sym(k::ADD, 5, First, Nobody),
        Sym(k::ADD, 4, Mid, Nobody),
        Sym(k::REMOVE, 1, Last, Nobody),
        Sym(k::REMOVE, 6, First, Nobody),
        Sym(k::REMOVE, 7, Mid, Nobody),
        Sym(k::WRITE, 1, Mid, Nobody),
    ];
    let tags = [
        Sym(k::TAG, 0, First, Nobody),
        Sym(k::TAG, 0, Last, Nobody),
        Sym(k::TAG, 1, Mid, Nobody),
        Sym(k::UNTAG, 0, Mid, Nobody),
        Sym(k::UNTAG, 1, First, Nobody),
        Sym(k::CREATE_WITH, 1, Nobody, Nobody),
    ];
    let groups = [
        Sym(k::PUSH, 0, Last, Nobody),
        Sym(k::PUSH, 1, Mid, Nobody),
        Sym(k::PREV, 0, Last, Head),
        Sym(k::NEXT, 0, Last, Head),
        Sym(k::PREV, 0, Mid, MidMember),
        Sym(k::NEXT, 1, Last, Tail),
        Sym(k::LEAVE, 0, Head, Nobody),
        Sym(k::LEAVE, 0, Tail, Nobody),
        Sym(k::LEAVE, 0, MidMember, Nobody),
        Sym(k::LEAVE, 1, First, Nobody),
        Sym(k::CREATE_WITH, 1, Nobody, Nobody),
    ];
    let dead = [
        Sym(k::DESTROY, 0, OldDead, Nobody),
        Sym(k::DESTROY, 0, NewDead, Nobody),
        Sym(k::ADD, 1, NewDead, Nobody),
        Sym(k::REMOVE, 1, OldDead, Nobody),
        Sym(k::TAG, 0, NewDead, Nobody),
        Sym(k::UNTAG, 0, NewDead, Nobody),
        Sym(k::PUSH, 0, NewDead, Nobody),
        Sym(k::LEAVE, 0, NewDead, Nobody),
        Sym(k::NEXT, 0, Last, NewDead),
    ];
    let (mut syms, mut quick) = (lives.to_vec(), 4);
    let (mut nt, mut ng) = (0, 0);
    match what {
        "lives" => {
            quick = 7;
            syms.push(Sym(k::CREATE_WITH, 1, Nobody, Nobody));
        }
        "components" => syms.extend(comps),
        "tags" => {
            syms.extend(tags);
            syms.extend([Sym(k::ADD, 2, First, Nobody), Sym(k::REMOVE, 1, Mid, Nobody)]);
            nt = 2;
        }
        "groups" => {
            syms.extend(groups);
            syms.extend([Sym(k::ADD, 2, First, Nobody), Sym(k::REMOVE, 1, Mid, Nobody)]);
            ng = 2;
        }
        "dead" => {
            syms.extend(dead);
            syms.extend([Sym(k::CREATE_WITH, 1, Nobody, Nobody), Sym(k::TAG, 0, Last, Nobody), Sym(k::PUSH, 0, Last, Nobody)]);
            (nt, ng) = (1, 1);
        }
        _ => {
            // everything
            syms.extend([comps[0], comps[1], comps[3], comps[6], comps[8], tags[1], tags[3], groups[0], groups[2], groups[8]]);
            (nt, ng) = (1, 1);
        }
    }
    let menus: &[&'static Menu] = if what == "components" { &[small(), big(), mixed()] } else { &[small(), big()] };
    for menu in menus {
        for cap in if th { vec![1, 3, 64] } else { vec![1] } {
            let mut sc = Scene::new("cycles", menu, cap);
            sc.oracles = or;
            sc.accs = accs.to_vec();
            (sc.tags, sc.groups) = (nt, ng);
            sc.list_len = 1;
            sc.long_lists = or & o::EQ != 0;
            sc.max_live = usize::MAX;
            let c = Cycles { scene: sc, syms: syms.clone(), len: if th { quick + 1 } else { quick }, times: if menu.name == "small" { 28 } else { 14 }, max_live: if menu.name == "small" { 70 } else { 24 } };
            j.push(grid(&format!("cycles-{what}-{}{}", menu.name, if th { format!("-cap{cap}") } else { String::new() }), c));
        }
    }
}

const SOME: &[usize] = &[0, 2, 6, 8, 14, 20, 23];

pub fn jobs(prop: &str, th: bool) -> Vec<Box<dyn Job>> {
    let debug = cfg!(debug_assertions);
    let mut j: Vec<Box<dyn Job>> = vec![];
    let sizes = |quick: &[usize], more: &[usize]| -> Vec<usize> {
        let mut v = quick.to_vec();
        if th {
            v.extend_from_slice(more);
        }
        v
    };
    match prop {
        "P01" => {
            for cap in [1, 2, 3, 0] {
                j.push(B::new(&format!("lives-cap{cap}"), small(), cap, o::LIVE).gens(&[Create, Destroy]).live(5).depth(13, 17, th).job());
            }
            for cap in [1, 2, 4] {
                j.push(
                    B::new(&format!("lives-mixed-cap{cap}"), small(), cap, o::LIVE)
                        .gens(&[Create, Destroy, CreateWith(3), Add(1), Remove(3), Tag(0), Push(0), Leave(0)])
                        .tags(1)
                        .groups(1)
                        .live(4)
                        .depth(7, 9, th)
                        .job(),
                );
            }
            let mut b = Bulk::new(small(), o::LIVE);
            b.caps = sizes(&[1, 2, 31, 32, 33, 64, 100, 0], &[3, 5, 63, 65, 96, 97, 127, 128, 129, 200]);
            b.sizes = sizes(&[5, 31, 32, 33, 63, 64, 65, 128, 129, 201], &[1, 2, 3, 4, 10, 16, 17, 96, 97, 256, 257, 1025]);
            b.rules = vec![6, 2];
            b.edges = true;
            j.push(grid("fill-and-recycle", b));
            j.push(grid("millions-of-owners", Aeons { owners: (1 << 24) + (1 << if th { 22 } else { 10 }), resources: false, dead: true }));
            j.push(grid("very-many", Many { live: vec![1, 2, 33, 70_000], recycles: vec![3, 300, 70_000] }));
        }
        "P02" => {
            let or = o::DEAD;
            let dead = [
                DeadDestroy, DeadAdd(1), DeadAdd(2), DeadRemove(1), DeadWrite(1), DeadTag(0), DeadUntag(0), DeadPush(0), DeadNext(0), DeadPrev(0),
                DeadLeave(0),
            ];
            for cap in [1, 3] {
                j.push(
                    B::new(&format!("dead-handles-cap{cap}"), small(), cap, or)
                        .gens(&[Create, CreateWith(1), Destroy, Tag(0), Push(0)])
                        .gens(&dead)
                        .tags(1)
                        .groups(1)
                        .live(3)
                        .depth(7, 9, th)
                        .job(),
                );
            }
            j.push(
                B::new("dead-handles-components", small(), 2, or)
                    .gens(&[Create, CreateWith(1), CreateWith(3), Destroy, Add(2), Remove(1)])
                    .gens(&[DeadDestroy, DeadAdd(1), DeadAdd(6), DeadRemove(1), DeadRemove(3), DeadWrite(1), DeadWrite(2)])
                    .live(3)
                    .depth(6, 8, th)
                    .job(),
            );
            j.push(
                B::new("dead-handles-groups", small(), 2, or)
                    .gens(&[Create, Destroy, Push(0), Next(0), Prev(0), Push(1), Tag(1)])
                    .gens(&[DeadPush(0), DeadNext(0), DeadPrev(0), DeadLeave(0), DeadPush(1), DeadLeave(1), DeadTag(1), DeadUntag(1)])
                    .tags(2)
                    .groups(2)
                    .live(3)
                    .depth(8, 10, th)
                    .job(),
            );
            // one id, many times reused, with everything
            j.push(
                B::new("dead-handles-of-one-id", small(), 1, or)
                    .prefix(vec![op(k::CREATE_WITH, 1, 0, 0), op(k::DESTROY, 0, 0, 0), op(k::CREATE, 0, 0, 0), op(k::DESTROY, 0, 1, 0)])
                    .gens(&[Create, CreateWith(2), Destroy, Tag(0), Push(0), Push(1)])
                    .gens(&dead)
                    .tags(1)
                    .groups(2)
                    .live(2)
                    .depth(7, 9, th)
                    .job(),
            );
            j.push(grid("millions-of-owners", Aeons { owners: (1 << 24) + (1 << if th { 22 } else { 10 }), resources: false, dead: true }));
            j.push(grid("old-handles", OldHandles { uses: sizes(&[5, 260, 1030, 66_000], &[140_000]) }));
            let all = or | o::LIVE | o::SET | o::VAL | o::TAG | o::ORD | o::CQ;
            let mut m = DeadMany {
                menu: small(),
                caps: sizes(&[1, 33], &[2, 31, 32, 64, 100]),
                sizes: sizes(&[5, 33, 65, 130], &[31, 32, 64, 97, 300, 700]),
                rules: vec![0, 2, 5],
                oracles: all,
            };
            j.push(grid("dead-handles-many", m.clone()));
            m.menu = big();
            m.caps = vec![2];
            m.sizes = sizes(&[4, 9, 25], &[60]);
            j.push(grid("dead-handles-pages", m));
        }
        "P03" => {
            let or = o::VAL;
            j.push(grid("layouts", Layouts::new(th)));
            for (menu, d) in [(small(), (4, 6)), (big(), (4, 5)), (mixed(), (4, 5))] {
                j.push(
                    B::new(&format!("values-{}", menu.name), menu, 2, or)
                        .gens(&comp_gens(&[1, 2, 4, 3, 5, 6, 7]))
                        .gens(&[Write(1), Write(2), Write(4)])
                        .live(3)
                        .depth(d.0, d.1, th)
                        .job(),
                );
                // swaps within and between pages: several entities on the same pages
                let sets: &[u16] = if menu.name == "small" { &[1, 1, 1, 3, 3] } else { &[1, 1, 1, 1, 2, 2, 6] };
                j.push(
                    B::new(&format!("values-swaps-{}", menu.name), menu, 2, or)
                        .prefix(made(sets))
                        .gens(&[Destroy, Add(2), Add(5), Remove(1), Remove(6), CreateWith(1), CreateWith(3), Write(1)])
                        .live(8)
                        .depth(3, 5, th)
                        .job(),
                );
                for (n, g) in [[Destroy, Add(2), Remove(1), CreateWith(1)], [Destroy, Add(5), Remove(6), CreateWith(3)]].iter().enumerate() {
                    j.push(
                        B::new(&format!("values-more-swaps-{n}-{}", menu.name), menu, 2, or)
                            .prefix(made(sets))
                            .gens(g)
                            .live(8)
                            .depth(4, 6, th)
                            .job(),
                    );
                }
            }
            let mut b = Bulk::new(small(), o::VAL);
            b.caps = vec![1, 64];
            b.sizes = sizes(&[33, 200, 700], &[1400, 4100, 5600]);
            b.rules = (0..8).collect();
            j.push(grid("values-many-small", b.clone()));
            b.menu = big();
            b.sizes = sizes(&[3, 4, 7, 10, 20], &[30, 61]);
            j.push(grid("values-many-big", b.clone()));
            b.menu = mixed();
            j.push(grid("values-many-mixed", b));
            wide_jobs(&mut j, or, th, 0, 0);
            j.push(
                B::new("values-twins", twins(), 2, or)
                    .gens(&comp_gens(&[1, 2, 4, 3, 7]))
                    .gens(&[Write(1), Write(2)])
                    .live(3)
                    .depth(5, 6, th)
                    .job(),
            );
            huge_jobs(&mut j, or, th, 0, 0, &[]);
        }
        "P04" => {
            let or = o::SET;
            j.push(B::new("sets", small(), 2, or).gens(&comp_gens(&[1, 2, 4, 3, 5, 6, 7])).live(3).depth(4, 6, th).job());
            j.push(B::new("sets-two-entities", small(), 1, or).gens(&comp_gens(&[1, 2, 4, 6])).live(2).depth(6, 8, th).job());
            j.push(
                B::new("sets-many-archetypes", small(), 2, or)
                    .prefix(made(&[1, 2, 4, 3, 5, 6, 7]))
                    .gens(&[Destroy, Add(1), Add(2), Add(4), Add(6), Remove(1), Remove(2), Remove(4), Remove(7), CreateWith(5)])
                    .live(8)
                    .depth(3, 5, th)
                    .job(),
            );
            let mut b = Bulk::new(small(), or);
            b.sizes = sizes(&[33, 65, 700], &[129, 1500, 5600]);
            b.rules = (0..8).collect();
            j.push(grid("sets-many", b.clone()));
            b.menu = big();
            b.sizes = sizes(&[4, 7, 10, 20], &[40]);
            j.push(grid("sets-many-big", b));
            wide_jobs(&mut j, or, th, 0, 0);
            j.push(B::new("sets-twins", twins(), 2, or).gens(&comp_gens(&[1, 2, 4, 3, 6, 7])).live(3).depth(5, 6, th).job());
            huge_jobs(&mut j, or, th, 0, 0, &[]);
        }
        "P05" => {
            j.push(grid("layouts", Layouts::new(th)));
            for menu in [big(), mixed()] {
                j.push(
                    B::new(&format!("places-{}", menu.name), menu, 2, o::MEM)
                        .gens(&comp_gens(&[1, 2, 4, 3, 6, 7]))
                        .live(5)
                        .depth(4, 5, th)
                        .job(),
                );
            }
            j.push(
                B::new("places-recycled", mixed(), 2, o::MEM)
                    .prefix(made(&[1, 1, 1, 1, 3, 3, 6, 6]))
                    .gens(&[Destroy, CreateWith(1), CreateWith(6), CreateWith(7), Add(4), Add(1), Remove(1)])
                    .live(9)
                    .depth(3, 5, th)
                    .job(),
            );
            let or = o::MEM;
            wide_jobs(&mut j, or, th, 0, 0);
            huge_jobs(&mut j, o::MEM, th, 0, 0, &[]);
        }
        "P06" => {
            j.push(grid("layouts", Layouts::new(th)));
            let or = o::SET | o::VAL | o::CQ;
            // every set alone on its page(s): freed and reused in every order
            j.push(
                B::new("recycle-from-all-sets", small(), 2, or)
                    .prefix(made(&[1, 2, 4, 3, 5, 6, 7]))
                    .gens(&[Destroy, CreateWith(1), CreateWith(2), CreateWith(6), CreateWith(7)])
                    .accs(SOME)
                    .live(8)
                    .depth(5, 6, th)
                    .job(),
            );
            j.push(
                B::new("recycle-by-moving", small(), 2, or)
                    .prefix(made(&[1, 2, 4, 3]))
                    .gens(&[Destroy, Add(1), Add(4), Add(7), Remove(1), Remove(6), CreateWith(5)])
                    .accs(SOME)
                    .live(5)
                    .depth(4, 6, th)
                    .job(),
            );
            for (n, g) in [[Destroy, Add(1), Remove(6), CreateWith(5)], [Destroy, Add(4), Remove(1), CreateWith(1)]].iter().enumerate() {
                j.push(
                    B::new(&format!("recycle-by-moving-{n}"), small(), 2, or)
                        .prefix(made(&[1, 2, 4, 3]))
                        .gens(g)
                        .accs(SOME)
                        .live(5)
                        .depth(5, 7, th)
                        .job(),
                );
            }
            j.push(
                B::new("recycle-big-pages", big(), 2, or)
                    .prefix(made(&[1, 1, 1, 1, 2, 2, 2, 2, 6]))
                    .gens(&[Destroy, CreateWith(1), CreateWith(2), CreateWith(3), CreateWith(6)])
                    .accs(SOME)
                    .live(11)
                    .depth(4, 5, th)
                    .job(),
            );
            j.push(
                B::new("recycle-one-by-one", big(), 2, or)
                    .gens(&[CreateWith(1), CreateWith(2), CreateWith(7), Destroy, Add(2), Remove(2)])
                    .accs(SOME)
                    .live(4)
                    .depth(6, 7, th)
                    .job(),
            );
            let mut b = Bulk::new(big(), or);
            b.caps = vec![2];
            b.sizes = sizes(&[4, 7, 10, 22], &[40, 100]);
            b.rules = (0..8).collect();
            b.accs = SOME.to_vec();
            j.push(grid("recycle-many-big", b.clone()));
            b.menu = small();
            b.sizes = sizes(&[65, 700], &[1400, 4100, 5600]);
            j.push(grid("recycle-many-small", b));
            let or = or | o::EQ;
            wide_jobs(&mut j, or, th, 0, 0);
            huge_jobs(&mut j, or, th, 0, 0, &[]);
        }
        "P07" => {
            let or = o::LIVE | o::SET | o::VAL | o::TAG | o::ORD | o::CAP | o::CQ | o::EQ | o::OQ | o::FILTER;
            for cap in [1, 2, 3, 4] {
                j.push(
                    B::new(&format!("grow-from-{cap}"), small(), cap, or)
                        .gens(&[Create, CreateWith(1), CreateWith(3), Destroy, Tag(0), Push(0), Observe])
                        .tags(1)
                        .groups(1)
                        .accs(&[0, 2, 9, 14])
                        .lists(1)
                        .live(5)
                        .depth(7, 9, th)
                        .job(),
                );
            }
            let mut b = Bulk::new(small(), or);
            b.caps = sizes(&[1, 2, 3, 7, 31, 32, 33, 64, 100, 0], &[4, 5, 8, 15, 16, 17, 63, 65, 96, 127, 128, 200]);
            b.sizes = sizes(&[5, 33, 65, 130, 201], &[2, 3, 9, 17, 31, 32, 64, 129, 260]);
            b.rules = vec![2, 3, 5];
            b.pats = vec![0, 1, 3, 7];
            b.accs = vec![0, 9, 14];
            b.tags = 5;
            b.groups = 3;
            b.edges = true;
            j.push(grid("grow-many", b));
            huge_jobs(&mut j, or, th, 2, 2, &[]);
        }
        "P08" => {
            let or = o::CQ;
            j.push(
                B::new("queries-small", small(), 2, or)
                    .gens(&[Create, CreateWith(1), CreateWith(3), CreateWith(7), Destroy, Add(2), Add(4), Remove(1), Remove(6)])
                    .live(4)
                    .depth(5, 6, th)
                    .job(),
            );
            for menu in [big(), mixed()] {
                j.push(
                    B::new(&format!("queries-pages-{}", menu.name), menu, 2, or)
                        .prefix(made(&[1, 1, 1, 1, 3, 3, 6]))
                        .gens(&[Destroy, CreateWith(1), CreateWith(2), CreateWith(7), Add(2), Remove(1), Remove(6)])
                        .live(9)
                        .depth(3, 5, th)
                        .job(),
                );
            }
            j.push(
                B::new("queries-all-sets", small(), 2, or)
                    .prefix(made(&[1, 2, 3, 4, 5, 6, 7, 0]))
                    .gens(&[Destroy, Create, CreateWith(1), CreateWith(6), Add(1), Add(6), Remove(1), Remove(2), Remove(7)])
                    .live(9)
                    .depth(3, 4, th)
                    .job(),
            );
            let mut b = Bulk::new(small(), or);
            b.caps = vec![1];
            b.sizes = sizes(&[33, 681, 682, 683, 1365], &[1366, 2047, 2049, 4095, 4096, 4097, 5461, 5462]);
            b.rules = vec![0, 1, 2, 4];
            b.accs = SOME.to_vec();
            j.push(grid("queries-many-small", b.clone()));
            b.menu = big();
            b.sizes = sizes(&[3, 4, 6, 9, 25], &[50, 99]);
            b.rules = (0..8).collect();
            b.accs = vec![];
            j.push(grid("queries-many-big", b));
            wide_jobs(&mut j, or, th, 0, 0);
            j.push(B::new("queries-twins", twins(), 2, or).gens(&comp_gens(&[1, 2, 4, 3])).live(4).depth(5, 6, th).job());
            adaptor_jobs(&mut j, or, th, 0, 0);
            huge_jobs(&mut j, or, th, 0, 0, &[]);
        }
        "P09" => {
            let or = o::EQ;
            j.push(
                B::new("lists-short", small(), 2, or)
                    .gens(&[Create, CreateWith(1), CreateWith(3), CreateWith(6), Destroy, Add(2), Remove(1)])
                    .accs(&[0, 2, 8, 14, 18])
                    .lists(3)
                    .live(3)
                    .depth(5, 6, th)
                    .job(),
            );
            j.push(
                B::new("lists-all-queries", small(), 2, or)
                    .gens(&[Create, CreateWith(1), CreateWith(7), CreateWith(6), Destroy, Add(2), Remove(7)])
                    .lists(2)
                    .live(3)
                    .depth(5, 6, th)
                    .job(),
            );
            j.push(
                B::new("lists-pages", big(), 2, or)
                    .prefix(made(&[1, 1, 1, 1, 3]))
                    .gens(&[Destroy, CreateWith(1), Create, CreateWith(2), Remove(1), Remove(7), Add(2)])
                    .accs(&[0, 1, 7, 14])
                    .lists(2)
                    .live(6)
                    .depth(3, 4, th)
                    .job(),
            );
            j.push(
                B::new("lists-long", small(), 2, or)
                    .prefix(made(&[1, 0, 1, 3]))
                    .gens(&[Destroy, Remove(7), Create])
                    .accs(&[0, 9])
                    .lists(if th { 5 } else { 4 })
                    .live(5)
                    .depth(3, 4, th)
                    .job(),
            );
            let mut b = Bulk::new(small(), or);
            b.caps = vec![1];
            b.sizes = sizes(&[33, 130, 700], &[1400, 4100]);
            b.rules = (0..8).collect();
            b.accs = SOME.to_vec();
            j.push(grid("lists-many-small", b.clone()));
            b.menu = big();
            b.sizes = sizes(&[4, 9, 25], &[99]);
            j.push(grid("lists-many-big", b));
            wide_jobs(&mut j, or, th, 0, 0);
            adaptor_jobs(&mut j, or, th, 0, 0);
            huge_jobs(&mut j, or, th, 0, 0, &[]);
        }
        "P10" => {
            let or = o::OQ;
            j.push(
                B::new("ordered", small(), 2, or)
                    .gens(&[Create, CreateWith(1), CreateWith(3), Destroy, Push(0), Next(0), Prev(0), Leave(0), Remove(1)])
                    .groups(1)
                    .accs(&[0, 1, 2, 7, 14])
                    .live(4)
                    .depth(7, 8, th)
                    .job(),
            );
            j.push(
                B::new("ordered-full-group", small(), 2, or)
                    .prefix({
                        let mut p = made(&[1, 3, 1, 0, 7]);
                        p.extend((0..5).map(|a| op(k::PUSH, 0, a, 0)));
                        p
                    })
                    .gens(&[Destroy, CreateWith(1), Leave(0), Push(0), Prev(0), Next(0), Remove(1), Remove(7), Add(2)])
                    .groups(1)
                    .live(6)
                    .depth(4, 5, th)
                    .job(),
            );
            j.push(
                B::new("ordered-pages", big(), 2, or)
                    .prefix(made(&[1, 1, 1, 1, 0]))
                    .gens(&[Push(0), Prev(0), Leave(0), Destroy, Remove(7), Add(2)])
                    .groups(1)
                    .accs(&[0, 1, 9, 14])
                    .live(5)
                    .depth(4, 5, th)
                    .job(),
            );
            j.push(
                B::new("ordered-two-groups", small(), 2, or)
                    .prefix(made(&[1, 1, 3]))
                    .gens(&[Push(0), Push(1), Prev(0), Next(1), Leave(0), Leave(1), Destroy, CreateWith(1)])
                    .groups(2)
                    .accs(&[0, 14])
                    .live(4)
                    .depth(6, 8, th)
                    .job(),
            );
            let mut b = Bulk::new(small(), or);
            b.caps = vec![1, 64];
            b.sizes = sizes(&[33, 130, 700], &[1400, 4100]);
            b.rules = (0..8).collect();
            b.accs = SOME.to_vec();
            b.groups = 2;
            j.push(grid("ordered-many-small", b.clone()));
            b.menu = big();
            b.sizes = sizes(&[4, 9, 25], &[99]);
            j.push(grid("ordered-many-big", b));
            wide_jobs(&mut j, or, th, 0, 2);
            adaptor_jobs(&mut j, or, th, 0, 1);
            huge_jobs(&mut j, or, th, 0, 1, &[]);
        }
        "P11" => {
            let or = o::FILTER;
            j.push(
                B::new("filter", small(), 2, or)
                    .gens(&[Create, CreateWith(1), CreateWith(3), Destroy, Tag(0), Untag(0), Tag(1), Remove(1)])
                    .tags(2)
                    .accs(&[0, 2, 9, 14])
                    .live(4)
                    .depth(7, 8, th)
                    .job(),
            );
            j.push(
                B::new("filter-pages", big(), 2, or)
                    .prefix(made(&[1, 1, 1, 1, 3, 3, 1]))
                    .gens(&[Tag(0), Untag(0), Tag(1), Destroy, CreateWith(1), Remove(1)])
                    .tags(3)
                    .live(9)
                    .depth(4, 5, th)
                    .job(),
            );
            let mut b = Bulk::new(small(), or);
            b.caps = vec![1, 64];
            b.sizes = sizes(&[31, 32, 33, 64, 65, 97, 130, 700], &[1400, 4100, 5600]);
            b.rules = vec![0, 1, 2, 4];
            b.tags = 5;
            b.accs = SOME.to_vec();
            j.push(grid("filter-many", b.clone()));
            // a long way between tagged ones
            b.caps = vec![1];
            b.sizes = sizes(&[30_000], &[200_000]);
            b.rules = vec![0];
            b.pats = vec![0, 7];
            b.accs = vec![0, 9];
            j.push(grid("filter-far-apart", b));
            wide_jobs(&mut j, or, th, 3, 0);
            adaptor_jobs(&mut j, or, th, 2, 0);
            huge_jobs(&mut j, or, th, 2, 0, &[]);
        }
        "P12" => {
            let or = o::LEN | o::ITER;
            j.push(
                B::new("lengths", small(), 2, or)
                    .gens(&[Create, CreateWith(1), CreateWith(3), Destroy, Push(0), Prev(0), Tag(0), Remove(1)])
                    .tags(1)
                    .groups(1)
                    .accs(&[0, 2, 9, 14])
                    .lists(1)
                    .live(4)
                    .depth(6, 7, th)
                    .job(),
            );
            j.push(
                B::new("lengths-all-queries", small(), 2, or)
                    .prefix(made(&[1, 7, 3, 6]))
                    .gens(&[CreateWith(1), CreateWith(7), Destroy, Push(0), Remove(2)])
                    .groups(1)
                    .lists(1)
                    .live(5)
                    .depth(4, 5, th)
                    .job(),
            );
            j.push(
                B::new("lengths-pages", big(), 2, or)
                    .prefix(made(&[1, 1, 1, 1, 3, 3]))
                    .gens(&[Destroy, CreateWith(1), CreateWith(2), Push(0), Prev(0), Remove(1), Tag(0)])
                    .tags(1)
                    .groups(1)
                    .accs(&[0, 1, 9, 14])
                    .lists(1)
                    .live(8)
                    .depth(4, 5, th)
                    .job(),
            );
            let mut b = Bulk::new(small(), or);
            b.caps = vec![1];
            b.sizes = sizes(&[33, 130, 683], &[1366, 4097]);
            b.rules = (0..8).collect();
            b.accs = vec![0, 2, 9, 14];
            b.tags = 2;
            b.groups = 2;
            j.push(grid("lengths-many-small", b.clone()));
            b.menu = big();
            b.sizes = sizes(&[4, 9, 25], &[99]);
            j.push(grid("lengths-many-big", b));
            wide_jobs(&mut j, or, th, 2, 2);
            huge_jobs(&mut j, or, th, 1, 1, &[]);
        }
        "P13" => {
            let or = o::VAL;
            let mut all = vec![];
            for a in 7..26u16 {
                for kind in 0..3u8 {
                    all.push(QWrite(a, kind, (a % 2) as u8));
                }
            }
            j.push(
                B::new("writes-all-queries", small(), 2, or)
                    .prefix(made(&[7, 3, 1]))
                    .gens(&[CreateWith(7), CreateWith(5), Destroy, Push(0), Prev(0), Remove(2)])
                    .gens(&all)
                    .groups(1)
                    .live(5)
                    .depth(4, 5, th)
                    .job(),
            );
            let few: Vec<Gen> =
                [7u16, 9, 13, 14, 15, 20, 23].iter().flat_map(|a| (0..3u8).flat_map(move |k| (0..2u8).map(move |f| QWrite(*a, k, f)))).collect();
            j.push(
                B::new("writes", small(), 2, or)
                    .gens(&[Create, CreateWith(7), CreateWith(3), Destroy, Push(0), Remove(1), Write(1)])
                    .gens(&few)
                    .groups(1)
                    .live(3)
                    .depth(5, 6, th)
                    .job(),
            );
            for menu in [big(), mixed()] {
                j.push(
                    B::new(&format!("writes-pages-{}", menu.name), menu, 2, or)
                        .prefix({
                            let mut p = made(&[1, 1, 1, 1, 3, 3, 7]);
                            p.extend([6, 2, 0, 1, 4].map(|a| op(k::PUSH, 0, a, 0)));
                            p
                        })
                        .gens(&[Destroy, CreateWith(1), Add(2), Remove(1), Leave(0), Push(0)])
                        .gens(&few)
                        .groups(1)
                        .live(8)
                        .depth(3, 4, th)
                        .job(),
                );
            }
            let mut b = Bulk::new(small(), or);
            b.caps = vec![1];
            b.sizes = sizes(&[33, 130, 683], &[1366, 4097]);
            b.rules = (0..8).collect();
            b.groups = 1;
            for a in [7u16, 13, 15, 20, 23] {
                for kind in 0..3 {
                    for f in 0..2 {
                        b.qwrites.push(op(k::QWRITE, a, kind, f));
                    }
                }
            }
            j.push(grid("writes-many-small", b.clone()));
            b.menu = big();
            b.sizes = sizes(&[4, 9, 25], &[99]);
            j.push(grid("writes-many-big", b));
            let wr: Vec<Gen> = (4..9u16).flat_map(|a| (0..3u8).map(move |k| QWrite(a, k, (a % 2) as u8))).collect();
            j.push(
                B::new("writes-wide", wide(), 2, or)
                    .prefix({
                        let mut p = made(&[41, 42, 46]);
                        for a in 0..3 {
                            p.extend([op(k::ADD, 47, a, 0), op(k::ADD, 48, a, 0), op(k::PUSH, 0, a, 0)]);
                        }
                        p
                    })
                    .gens(&wr)
                    .gens(&[Add(42), Add(41), Add(43), Remove(51), CreateWith(41), Destroy])
                    .groups(1)
                    .live(4)
                    .depth(4, 5, th)
                    .job(),
            );
            huge_jobs(&mut j, or, th, 0, 1, &[op(k::QWRITE, 7, 0, 0), op(k::QWRITE, 13, 1, 1), op(k::QWRITE, 15, 2, 0)]);
        }
        "P14" => {
            let or = o::TAG;
            let g4: Vec<Gen> = (0..4u8).flat_map(|t| [Tag(t), Untag(t)]).collect();
            j.push(B::new("tags", small(), 1, or).gens(&[Create, Destroy]).gens(&g4).tags(5).live(2).depth(10, 13, th).job());
            j.push(
                B::new("tags-and-components", small(), 2, or)
                    .gens(&[Create, CreateWith(1), Destroy, Add(3), Remove(1), Remove(3), Tag(0), Untag(0), Tag(1), Untag(1), Push(0), Observe])
                    .tags(3)
                    .groups(1)
                    .live(3)
                    .depth(7, 8, th)
                    .job(),
            );
            j.push(
                B::new("tags-growing", small(), 1, or)
                    .gens(&[Create, Destroy, Tag(0), Tag(1), Tag(2), Untag(1)])
                    .tags(3)
                    .live(5)
                    .depth(10, 13, th)
                    .job(),
            );
            let mut b = Bulk::new(small(), or);
            b.caps = sizes(&[1, 2, 31, 32, 33, 64, 100, 0], &[3, 63, 65, 96, 127, 128, 200]);
            b.sizes = sizes(&[31, 32, 33, 64, 65, 97, 129], &[1, 2, 63, 96, 128, 200, 257, 1030]);
            b.rules = vec![6, 2];
            b.tags = 5;
            b.edges = true;
            j.push(grid("tags-many", b));
            j.push(grid("tag-orders", Marks { tags: if th { 8 } else { 6 }, groups: 0, oracles: or }));
            j.push(grid("many-tags", Marks { tags: 72, groups: 0, oracles: or }));
            let mut b = Bulk::new(small(), or);
            b.caps = vec![1, 100];
            b.sizes = sizes(&[33, 130], &[65, 300]);
            b.rules = vec![6, 2];
            b.tags = 40;
            j.push(grid("many-tags-many", b));
            huge_jobs(&mut j, or, th, 2, 0, &[]);
        }
        "P15" => {
            let or = o::ORD;
            j.push(
                B::new("order", small(), 1, or)
                    .gens(&[Create, Destroy, Push(0), Next(0), Prev(0), Leave(0)])
                    .groups(2)
                    .live(5)
                    .depth(11, 14, th)
                    .job(),
            );
            j.push(
                B::new("order-five", small(), 8, or)
                    .prefix(made(&[0, 0, 0, 0, 0]))
                    .gens(&[Push(0), Next(0), Prev(0), Leave(0)])
                    .groups(1)
                    .live(5)
                    .depth(11, 14, th)
                    .job(),
            );
            j.push(
                B::new("order-two-groups", small(), 2, or)
                    .prefix(made(&[0, 1, 0]))
                    .gens(&[Push(0), Next(0), Prev(0), Leave(0), Push(1), Next(1), Prev(1), Leave(1), Destroy, Create])
                    .groups(3)
                    .live(4)
                    .depth(7, 8, th)
                    .job(),
            );
            j.push(
                B::new("order-four-groups", small(), 2, or)
                    .prefix(made(&[0, 0]))
                    .gens(&[Push(0), Push(1), Push(2), Push(3), Leave(0), Leave(2), Prev(3), Next(1), Destroy, Create])
                    .groups(4)
                    .live(3)
                    .depth(7, 9, th)
                    .job(),
            );
            let mut b = Bulk::new(small(), or);
            b.caps = sizes(&[1, 2, 32, 100, 0], &[3, 31, 33, 64, 129, 200]);
            b.sizes = sizes(&[5, 31, 33, 64, 65, 130], &[200, 257, 600]);
            b.rules = vec![6, 2];
            b.groups = 4;
            b.edges = true;
            j.push(grid("order-many", b));
            j.push(grid("group-orders", Marks { tags: 0, groups: if th { 8 } else { 6 }, oracles: or }));
            j.push(grid("many-groups", Marks { tags: 0, groups: 72, oracles: or }));
            let mut b = Bulk::new(small(), or);
            b.caps = vec![1, 100];
            b.sizes = sizes(&[33, 130], &[65, 300]);
            b.rules = vec![6, 2];
            b.groups = 24;
            j.push(grid("many-groups-many", b));
            huge_jobs(&mut j, or, th, 0, 2, &[]);
        }
        "P16" => {
            if debug {
                let or = o::MISUSE;
                for (n, g) in [(1u8, 1u8), (2, 2)] {
                    let mut gens = vec![Create, Destroy];
                    for x in 0..g {
                        gens.extend([Push(x), Next(x), Prev(x), Leave(x), Misuse(x)]);
                    }
                    j.push(
                        B::new(&format!("misuse-{n}-groups"), small(), 2, or)
                            .gens(&gens)
                            .groups(g)
                            .live(4)
                            .depth(if g == 1 { 9 } else { 7 }, if g == 1 { 12 } else { 9 }, th)
                            .job(),
                    );
                }
                j.push(
                    B::new("misuse-of-five", small(), 8, or)
                        .prefix(made(&[0, 1, 0, 3, 0]))
                        .gens(&[Push(0), Prev(0), Leave(0), Misuse(0)])
                        .groups(1)
                        .live(5)
                        .depth(6, 8, th)
                        .job(),
                );
                j.push(
                    B::new("misuse-sole-member", small(), 4, or)
                        .prefix({
                            let mut p = made(&[0, 0, 0]);
                            p.push(op(k::PUSH, 0, 1, 0));
                            p.push(op(k::PUSH, 1, 2, 0));
                            p
                        })
                        .gens(&[Leave(0), Destroy, Push(0), Push(1), Misuse(0), Misuse(1), Create, Next(0)])
                        .groups(2)
                        .live(4)
                        .depth(5, 7, th)
                        .job(),
                );
                j.push(grid(
                    "misuse-many",
                    MisuseMany { caps: sizes(&[1, 64], &[2, 33, 100]), sizes: sizes(&[3, 9, 33, 70], &[2, 5, 130, 300]), groups: vec![1, 3, 20] },
                ));
            }
        }
        "P17" => {
            let or = o::LIVE | o::SET | o::VAL | o::TAG | o::ORD | o::CQ | o::OQ | o::FILTER;
            for cap in [1, 3] {
                j.push(
                    B::new(&format!("blank-cap{cap}"), small(), cap, or)
                        .gens(&[Create, CreateWith(1), Destroy, Add(2), Tag(0), Push(0), Prev(0)])
                        .tags(2)
                        .groups(2)
                        .accs(&[0, 1, 14])
                        .live(3)
                        .depth(7, 9, th)
                        .job(),
                );
            }
            // everybody has everything: destroy in every order, recycle
            j.push(
                B::new("blank-after-full-lives", small(), 2, or)
                    .prefix({
                        let mut p = made(&[1, 3, 3, 7, 0]);
                        for a in 0..5 {
                            p.extend([op(k::TAG, 0, a, 0), op(k::TAG, 1, a, 0), op(k::PUSH, 0, a, 0)]);
                            p.push(op(if a == 0 { k::PUSH } else { k::PREV }, 1, a, a.saturating_sub(1)));
                        }
                        p
                    })
                    .gens(&[Destroy, Create, CreateWith(1), CreateWith(3)])
                    .tags(2)
                    .groups(2)
                    .accs(&[0, 2, 9])
                    .live(6)
                    .depth(7, 8, th)
                    .job(),
            );
            j.push(
                B::new("blank-many-groups", small(), 4, or)
                    .gens(&[Create, Destroy, Push(0), Push(1), Push(2), Push(3), Tag(0), Tag(1), Tag(2), Tag(3)])
                    .tags(4)
                    .groups(4)
                    .accs(&[0])
                    .live(2)
                    .depth(8, 10, th)
                    .job(),
            );
            let mut b = Bulk::new(small(), or);
            b.caps = sizes(&[1, 33], &[2, 64]);
            b.sizes = sizes(&[5, 33, 65, 130], &[257, 600]);
            b.rules = vec![0, 2, 5];
            b.accs = vec![0, 9];
            b.tags = 5;
            b.groups = 4;
            b.edges = true;
            j.push(grid("blank-many", b));
            j.push(grid("blank-marks", Marks { tags: 6, groups: 6, oracles: or }));
            j.push(grid("blank-many-marks", Marks { tags: 72, groups: 72, oracles: or }));
            let mut b = Bulk::new(small(), or);
            b.caps = vec![1, 100];
            b.sizes = sizes(&[33, 130], &[65, 300]);
            b.rules = vec![6, 2];
            b.accs = vec![0];
            b.tags = 40;
            b.groups = 24;
            j.push(grid("blank-many-groups-many", b));
            wide_jobs(&mut j, or, th, 3, 3);
            huge_jobs(&mut j, or, th, 2, 2, &[]);
        }
        "P18" => {
            j.push(grid("pairs", arch::Pairs { n: if th { 12 } else { 11 } }));
            j.push(grid("many-types", arch::WideSets { build: false }));
            j.push(grid("lists", arch::Lists { n: if th { 9 } else { 8 }, len: if th { 7 } else { 6 } }));
        }
        "P19" => {
            j.push(bfs("builder", arch::BuilderSys::new(), if th { 8 } else { 7 }));
            j.push(grid("builder-long", arch::BuilderLong { sys: arch::BuilderSys::new(), len: if th { 3 } else { 2 }, early: 0, late: 80, memory: false }));
            j.push(grid("orders", arch::Orders { n: if th { 9 } else { 8 } }));
            j.push(grid("many-types", arch::WideSets { build: true }));
            j.push(grid("interchange", arch::Interchange { stay: true }));
        }
        "P20" | "P21" | "P22" => {
            let or = match prop {
                "P20" => ro::VALUE,
                "P21" => ro::DROPS,
                _ => ro::DEAD,
            };
            if prop == "P22" && !debug {
                return j;
            }
            if prop != "P21" {
                j.push(grid("millions-of-owners", Aeons { owners: (1 << 24) + (1 << if th { 22 } else { 10 }), resources: true, dead: prop == "P22" }));
            }
            let d = match (prop, th) {
                ("P20", false) => 10,
                ("P20", true) => 12,
                ("P22", false) => 9,
                ("P22", true) => 12,
                (_, false) => 11,
                (_, true) => 14,
            };
            macro_rules! kind {
                ($R:ty) => {
                    for cap in [0, 1, 2, 5, usize::MAX] {
                        let mut s = ResSys::<$R>::new(cap, or, 4);
                        if prop != "P22" {
                            s.oracles |= ro::KEEP;
                        }
                        let c = if cap == usize::MAX { "new".to_string() } else { cap.to_string() };
                        j.push(bfs(&format!("resources-{}-cap-{c}", <$R>::NAME), s, if cap == usize::MAX || cap == 5 { d - 1 } else { d }));
                    }
                    if prop == "P22" {
                        j.push(grid(
                            &format!("released-many-{}", <$R>::NAME),
                            ResDead::<$R> { caps: sizes(&[0, 1, 100], &[2, 32, 33]), sizes: sizes(&[3, 9, 33, 65], &[17, 130, 257]), _r: Default::default() },
                        ));
                        j.push(grid(
                            &format!("released-long-ago-{}", <$R>::NAME),
                            ResOld::<$R> { uses: sizes(&[5, 260, 1030, 66_000], &[140_000]), _r: Default::default() },
                        ));
                    } else {
                        j.push(grid(
                            &format!("resources-many-{}", <$R>::NAME),
                            ResGrid::<$R> {
                                caps: sizes(&[0, 1, 2, 32, 100, 200, usize::MAX], &[3, 4, 31, 33, 64, 150]),
                                sizes: sizes(&[1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 129, 257], &[127, 128, 513, 1025]),
                                oracles: or,
                                edges: true,
                                _r: Default::default(),
                            },
                        ));
                        j.push(grid(
                            &format!("resources-very-many-{}", <$R>::NAME),
                            ResGrid::<$R> { caps: vec![1], sizes: vec![66_000], oracles: or, edges: false, _r: Default::default() },
                        ));
                    }
                };
            }
            kind!(Boxed);
            kind!(Big);
            kind!(Plain);
            kind!(Empty);
            kind!(EmptyAligned);
        }
        "P23" => {
            let or = o::LEAK;
            j.push(
                B::new("memory-small", small(), 1, or)
                    .gens(&[Create, CreateWith(1), CreateWith(3), Destroy, Add(6), Remove(1), Remove(7), Tag(0), Push(0), Tag(1), Push(1), Observe])
                    .tags(2)
                    .groups(2)
                    .live(3)
                    .depth(6, 7, th)
                    .job(),
            );
            for menu in [big(), mixed()] {
                j.push(
                    B::new(&format!("memory-{}", menu.name), menu, 1, or)
                        .gens(&comp_gens(&[1, 2, 3, 7]))
                        .live(5)
                        .depth(4, 5, th)
                        .job(),
                );
            }
            j.push(
                B::new("memory-growing", small(), 1, or)
                    .gens(&[Create, CreateWith(1), Destroy, Tag(0), Push(0), Prev(0), Leave(0), Untag(0)])
                    .tags(1)
                    .groups(1)
                    .live(5)
                    .depth(8, 9, th)
                    .job(),
            );
            let mut sc = Scene::new("memory-queries", small(), 2);
            sc.oracles = or;
            sc.gens = vec![CreateWith(1), CreateWith(3), Destroy, Push(0), Query(0, u32::MAX), Query(1, u32::MAX), Query(2, 1), Query(3, u32::MAX)];
            sc.slots = vec![(Kind::Comp, 0), (Kind::List, 9), (Kind::Ord(0), 0), (Kind::Ord(0), 14)];
            sc.groups = 1;
            sc.max_live = 4;
            sc.depth = if th { 9 } else { 7 };
            j.push(store(sc));
            if debug {
                let mut sc = Scene::new("memory-refused", small(), 2);
                sc.oracles = or;
                sc.gens = vec![Create, CreateWith(1), Destroy, Push(0), Misuse(0), DeadDestroy, DeadAdd(1), DeadTag(0), DeadPush(0), DeadNext(0)];
                sc.tags = 1;
                sc.groups = 1;
                sc.max_live = 3;
                sc.depth = if th { 8 } else { 7 };
                j.push(store(sc));
            }
            j.push(bfs("memory-builder", LeakyBuilder(arch::BuilderSys::new()), if th { 4 } else { 3 }));
            macro_rules! kind {
                ($R:ty) => {
                    for cap in [0, 1, 3, usize::MAX] {
                        let s = ResSys::<$R>::new(cap, ro::LEAK | ro::KEEP, 4);
                        let c = if cap == usize::MAX { "new".to_string() } else { cap.to_string() };
                        j.push(bfs(&format!("memory-resources-{}-cap-{c}", <$R>::NAME), s, if th { 12 } else { 9 }));
                    }
                    j.push(grid(
                        &format!("memory-resources-many-{}", <$R>::NAME),
                        ResGrid::<$R> {
                            caps: vec![0, 1, 2, 32, usize::MAX],
                            sizes: sizes(&[1, 4, 31, 32, 33, 65], &[127, 128, 129, 257]),
                            oracles: ro::LEAK,
                            edges: true,
                            _r: Default::default(),
                        },
                    ));
                };
            }
            kind!(Boxed);
            kind!(Big);
            kind!(Plain);
            kind!(Empty);
            kind!(EmptyAligned);
            let mut b = Bulk::new(small(), or);
            b.caps = sizes(&[1, 31, 32, 33], &[2, 63, 64, 65, 128]);
            b.sizes = sizes(&[31, 32, 33, 64, 65, 129, 700], &[1, 63, 128, 1400, 4100]);
            b.rules = vec![2, 5];
            b.tags = 3;
            b.groups = 3;
            b.edges = true;
            j.push(grid("memory-many", b.clone()));
            b.menu = big();
            b.caps = vec![1];
            b.sizes = sizes(&[4, 9, 25], &[99]);
            b.rules = (0..8).collect();
            j.push(grid("memory-many-big", b));
            wide_jobs(&mut j, or, th, 2, 2);
            huge_jobs(&mut j, or, th, 1, 1, &[]);
        }
        "P24" => {
            let (early, late) = (70, 300);
            for (menu, cap) in [(small(), 1), (big(), 1), (small(), 0)] {
                j.push(grid(
                    &format!("repeat-{}-cap{cap}", menu.name),
                    Repeat { menu, cap, len: if th { 4 } else { 3 }, early, late, residents: vec![] },
                ));
            }
            for menu in [small(), big()] {
                let mut p = made(&[1, 6, 7, 1, 1]);
                p.extend([op(k::TAG, 0, 0, 0), op(k::PUSH, 0, 1, 0), op(k::PUSH, 0, 3, 0)]);
                j.push(grid(
                    &format!("repeat-among-residents-{}", menu.name),
                    Repeat { menu, cap: 2, len: if th { 4 } else { 3 }, early, late, residents: p },
                ));
            }
            j.push(grid("repeat-builder", arch::BuilderLong { sys: arch::BuilderSys::new(), len: if th { 3 } else { 2 }, early: 10, late: 24, memory: true }));
            j.push(grid("repeat-many-big", RepeatBulk { menu: big(), sizes: vec![2, 5, 9, 30], early: 20, late: 100 }));
            j.push(grid("repeat-many-small", RepeatBulk { menu: small(), sizes: sizes(&[33, 700], &[1400, 4200]), early: 12, late: 40 }));
            macro_rules! kind {
                ($R:ty) => {
                    j.push(grid(&format!("repeat-resources-{}", <$R>::NAME), RepeatRes::<$R>::new(if th { 7 } else { 6 }, early, late)));
                };
            }
            kind!(Boxed);
            kind!(Plain);
            kind!(Empty);
        }
        "P25" => {
            let accs: &[usize] = &[0, 9, 14];
            for (name, kinds) in [("component", Kind::Comp), ("list", Kind::List), ("ordered", Kind::Ord(0))] {
                for menu in [small(), big()] {
                    let mut sc = Scene::new(&format!("reuse-{name}-{}", menu.name), menu, 2);
                    sc.prefix = if menu.name == "big" { made(&[1, 1, 1, 1, 3]) } else { made(&[1, 3]) };
                    if name == "ordered" {
                        sc.prefix.extend([op(k::PUSH, 0, 1, 0), op(k::PUSH, 0, 0, 0)]);
                    }
                    sc.gens = vec![CreateWith(1), CreateWith(3), Destroy, Remove(1), Add(2)];
                    if name == "ordered" {
                        sc.gens.extend([Push(0), Leave(0)]);
                    }
                    sc.groups = 1;
                    for (i, a) in accs.iter().enumerate() {
                        sc.slots.push((kinds, *a));
                        for take in [0, 1, u32::MAX] {
                            sc.gens.push(Query(i as u16, take));
                        }
                    }
                    sc.max_live = 7;
                    sc.depth = if th { 5 } else { 4 };
                    j.push(store(sc));
                }
            }
            // one query object on two stores
            for (name, kind) in [("component", Kind::Comp), ("list", Kind::List), ("ordered", Kind::Ord(0))] {
                let mut sc = Scene::new(&format!("reuse-{name}-two-stores"), small(), 2);
                sc.caps = vec![2, 1];
                sc.gens = vec![CreateWith(1), CreateWith(3), Destroy, Push(0), Query(0, 0), Query(0, 1), Query(0, u32::MAX)];
                sc.groups = 1;
                sc.slots = vec![(kind, 0)];
                sc.max_live = 3;
                sc.depth = if th { 7 } else { 6 };
                j.push(store(sc));
            }
        }
        "P26" => {
            let or = o::ALL;
            let mut sc = Scene::new("two-stores", small(), 1);
            sc.caps = vec![1, 2];
            sc.oracles = or;
            sc.gens = vec![Create, CreateWith(1), CreateWith(3), Destroy, Add(2), Remove(1), Tag(0), Push(0), Observe];
            sc.tags = 1;
            sc.groups = 1;
            sc.accs = vec![0, 9, 14];
            sc.list_len = 1;
            sc.max_live = 2;
            sc.depth = if th { 7 } else { 6 };
            j.push(store(sc.clone()));
            sc.name = "three-stores".into();
            sc.caps = vec![2, 2, 1];
            sc.gens = vec![CreateWith(1), CreateWith(2), Destroy, Tag(0), Push(0), Tag(1)];
            sc.tags = 2;
            sc.depth = if th { 8 } else { 6 };
            j.push(store(sc.clone()));
            sc.name = "two-stores-big".into();
            sc.menu = big();
            sc.caps = vec![2, 2];
            sc.gens = vec![CreateWith(1), CreateWith(3), Destroy, Add(2), Remove(1), Write(1)];
            sc.max_live = 4;
            sc.depth = if th { 6 } else { 5 };
            j.push(store(sc.clone()));
            // a store that has nothing of what its neighbour has plenty of
            sc.name = "empty-neighbour".into();
            sc.menu = small();
            sc.caps = vec![4, 1];
            sc.prefix = {
                let mut p = made(&[1, 3, 7, 2]);
                for a in 0..4 {
                    p.extend([op(k::TAG, 0, a, 0), op(k::PUSH, 0, a, 0)]);
                }
                p
            };
            sc.gens = vec![Create, CreateWith(1), CreateWith(6), Destroy, Tag(0), Tag(1), Push(0), Push(1), Observe];
            sc.tags = 2;
            sc.groups = 2;
            sc.max_live = 5;
            sc.depth = if th { 5 } else { 4 };
            j.push(store(sc));
            macro_rules! kind {
                ($R:ty) => {
                    let mut s = ResSys::<$R>::new(1, ro::VALUE | ro::DROPS, 3);
                    s.caps = vec![0, 2];
                    j.push(bfs(&format!("two-resource-stores-{}", <$R>::NAME), s, if th { 11 } else { 9 }));
                };
            }
            kind!(Boxed);
            kind!(Big);
            for menu in [small(), big()] {
                j.push(grid(
                    &format!("stores-in-turn-{}", menu.name),
                    Succession {
                        menu,
                        caps: sizes(&[1, 8, 40], &[0, 2, 33, 64, 100]),
                        sizes: if menu.name == "small" { sizes(&[3, 20, 45], &[70, 9]) } else { sizes(&[3, 9], &[20]) },
                        pats: vec![0, 1, 4, 6],
                        oracles: or,
                    },
                ));
            }
            macro_rules! turn {
                ($R:ty) => {
                    j.push(grid(
                        &format!("resource-stores-in-turn-{}", <$R>::NAME),
                        ResSuccession::<$R> { caps: vec![0, 1, 8, 40], sizes: vec![3, 20, 45], _r: Default::default() },
                    ));
                };
            }
            turn!(Boxed);
            turn!(Plain);
            // very many types, and many sets, between two stores
            let mut sc = Scene::new("two-stores-wide", wide(), 2);
            sc.caps = vec![2, 1];
            sc.oracles = o::SET | o::VAL | o::CQ;
            sc.gens = wide_gens();
            sc.max_live = 2;
            sc.depth = if th { 5 } else { 4 };
            j.push(store(sc));
        }
        "P30" => {
            let or = o::ALL;
            let base = [Create, CreateWith(1), CreateWith(3), Destroy, Add(2), Remove(1), Tag(0), Push(0), Observe];
            for menu in [small(), big()] {
                j.push(
                    B::new(&format!("moved-{}", menu.name), menu, 1, or)
                        .gens(&base)
                        .gens(&[Move])
                        .tags(2)
                        .groups(2)
                        .accs(&[0, 8, 14])
                        .lists(1)
                        .live(3)
                        .depth(6, 7, th)
                        .job(),
                );
                // something to lose at the time of the move
                let mut p = made(&[1, 3, 7, 2, 0]);
                for a in 0..5 {
                    p.extend([op(k::TAG, (a % 2) as u16, a, 0), op(k::PUSH, 0, a, 0)]);
                }
                p.push(op(k::DESTROY, 0, 1, 0));
                j.push(
                    B::new(&format!("moved-full-{}", menu.name), menu, 8, or)
                        .prefix(p)
                        .gens(&base)
                        .gens(&[Move, Untag(1), Leave(0)])
                        .tags(2)
                        .groups(2)
                        .accs(&[0, 8, 14])
                        .lists(1)
                        .live(6)
                        .depth(4, 5, th)
                        .job(),
                );
            }
            let mut sc = Scene::new("swapped", small(), 1);
            sc.caps = vec![1, 2];
            sc.oracles = or;
            sc.gens = vec![Create, CreateWith(3), Destroy, Add(2), Tag(0), Push(0), Observe, Swap(1)];
            sc.tags = 1;
            sc.groups = 1;
            sc.accs = vec![0, 9, 14];
            sc.list_len = 1;
            sc.max_live = 2;
            sc.depth = if th { 7 } else { 6 };
            j.push(store(sc.clone()));
            sc.name = "swapped-among-three".into();
            sc.caps = vec![1, 2, 1];
            sc.gens = vec![CreateWith(1), Destroy, Tag(0), Push(0), Move, Swap(1), Swap(2)];
            sc.max_moves = 3;
            sc.depth = if th { 7 } else { 6 };
            j.push(store(sc));
            // queries kept while two stores change places
            for (name, kind) in [("component", Kind::Comp), ("list", Kind::List), ("ordered", Kind::Ord(0))] {
                let mut sc = Scene::new(&format!("swapped-{name}-queries"), small(), 2);
                sc.caps = vec![2, 2];
                sc.gens = vec![CreateWith(1), CreateWith(3), Destroy, Push(0), Swap(1), Query(0, u32::MAX)];
                sc.groups = 1;
                sc.slots = vec![(kind, 0)];
                sc.max_live = 2;
                sc.max_moves = 2;
                sc.depth = if th { 7 } else { 6 };
                j.push(store(sc));
            }
            // three unlike stores change places between looks at them
            let mut sc = Scene::new("swapped-looking", small(), 2);
            sc.caps = vec![2, 2, 2];
            for (st, order) in [[0u16, 1, 2], [1, 2, 3], [2, 0, 3]].iter().enumerate() {
                let at = |k: u8, c: u16, a: u32| Op { s: st as u8, ..op(k, c, a, 0) };
                sc.prefix.extend([at(k::CREATE_WITH, [1, 3, 2][st], 0), at(k::CREATE_WITH, [3, 2, 1][st], 0)]);
                for g in order {
                    sc.prefix.extend([at(k::PUSH, *g, (*g as u32 + st as u32) % 2), at(k::TAG, *g, (*g as u32 + st as u32 / 2) % 2)]);
                }
            }
            sc.tags = 4;
            sc.groups = 4;
            sc.max_live = 2;
            sc.max_moves = 3;
            sc.depth = if th { 5 } else { 4 };
            let looks = [
                vec![Look(lk::ENDS, 0), Look(lk::ENDS, 1), Look(lk::ENDS, 2), Look(lk::NEAR, 3)],
                vec![Look(lk::TAG, 0), Look(lk::TAG, 1), Look(lk::TAG, 2), Look(lk::TAG, 3), Look(lk::FILTER, 1 << 8)],
                vec![Look(lk::READ, 1), Look(lk::READ_MUT, 3), Look(lk::KINDS, 0), Look(lk::QUERY, 0), Look(lk::LIST, 8), Look(lk::ORDERED, 0)],
            ];
            for (name, l) in ["groups", "tags", "components"].iter().zip(looks) {
                let mut sc = sc.clone();
                sc.name = format!("swapped-looking-{name}");
                sc.gens = l;
                sc.gens.extend([Destroy, Swap(1), Swap(2)]);
                j.push(store(sc));
            }
            for (name, kind) in [("component", Kind::Comp), ("list", Kind::List), ("ordered", Kind::Ord(0))] {
                let mut sc = Scene::new(&format!("moved-{name}-queries"), small(), 2);
                sc.gens = vec![CreateWith(1), CreateWith(3), Destroy, Push(0), Move, Shift(0), Query(0, 0), Query(0, 1), Query(0, u32::MAX)];
                sc.groups = 1;
                sc.slots = vec![(kind, 0)];
                sc.max_live = 3;
                sc.max_moves = 3;
                sc.depth = if th { 8 } else { 6 };
                j.push(store(sc));
            }
            macro_rules! kind {
                ($R:ty) => {
                    for cap in [usize::MAX, 1, 3] {
                        let s = ResSys::<$R>::new(cap, ro::VALUE | ro::DROPS | ro::MOVES, 3);
                        let n = if cap == usize::MAX { "new".to_string() } else { cap.to_string() };
                        j.push(bfs(&format!("moved-resources-{}-cap-{n}", <$R>::NAME), s, if th { 11 } else { 10 }));
                    }
                };
            }
            kind!(Boxed);
            kind!(Big);
            kind!(Empty);
        }
        "P31" => {
            let or = o::LIVE | o::SET | o::VAL | o::TAG | o::ORD;
            let step = |name: &str, menu, cap: usize, gens: &[Gen], n: usize, depth: usize, live: usize| {
                let mut sc = Scene::new(name, menu, cap);
                sc.caps = vec![cap; n];
                sc.lockstep = true;
                sc.oracles = or;
                sc.gens = gens.to_vec();
                sc.tags = 2;
                sc.groups = 2;
                sc.accs = vec![0, 2, 8];
                sc.max_live = live;
                sc.depth = depth;
                sc
            };
            let base = [Create, CreateWith(1), CreateWith(3), Destroy, Add(2), Remove(1), Tag(0), Push(0)];
            for menu in [small(), big(), mixed()] {
                for cap in [1, 2] {
                    j.push(store(step(&format!("alike-{}-cap{cap}", menu.name), menu, cap, &base, 3, if th { 6 } else { 5 }, 4)));
                }
            }
            j.push(store(step("alike-lives", small(), 1, &[Create, Destroy, DeadDestroy], 4, if th { 12 } else { 10 }, 5)));
            j.push(store(step(
                "alike-groups", small(), 1,
                &[Create, Destroy, Push(0), Next(0), Prev(0), Leave(0), Push(1), Untag(0), Tag(1), Observe],
                3, if th { 7 } else { 6 }, 3,
            )));
            for menu in [small(), big()] {
                let mut sc = step(
                    &format!("alike-recycled-{}", menu.name), menu, 2,
                    &[Destroy, CreateWith(1), CreateWith(6), Add(4), Remove(1), Remove(6)],
                    3, if th { 5 } else { 4 }, 6,
                );
                sc.prefix = [1u16, 2, 4, 3].iter().map(|m| op(k::CREATE_WITH, *m, 0, 0)).collect();
                j.push(store(sc));
            }
            for menu in [small(), big()] {
                j.push(grid(
                    &format!("alike-many-{}", menu.name),
                    Alike {
                        menu,
                        caps: sizes(&[1, 33], &[0, 2, 64]),
                        sizes: if menu.name == "small" { sizes(&[33, 70, 200], &[700]) } else { sizes(&[4, 9, 22], &[40]) },
                        rules: (0..8).collect(),
                        pats: vec![0, 1, 3, 4, 6],
                    },
                ));
            }
            macro_rules! kind {
                ($R:ty) => {
                    for cap in [usize::MAX, 1, 2, 5] {
                        let mut s = ResSys::<$R>::new(cap, ro::VALUE | ro::DROPS | ro::LOCKSTEP, 4);
                        s.caps = vec![cap; 4];
                        let n = if cap == usize::MAX { "new".to_string() } else { cap.to_string() };
                        j.push(bfs(&format!("alike-resources-{}-cap-{n}", <$R>::NAME), s, if th { 11 } else { 9 }));
                    }
                };
            }
            kind!(Boxed);
            kind!(Plain);
        }
        "P32" => {
            // nothing is asked but what the history asks: one look between any two changes
            for menu in [small(), big()] {
                let b = |name: &str, cap: usize| B::new(&format!("{name}-{}", menu.name), menu, cap, 0);
                j.push(
                    b("looks-values", 2)
                        .gens(&[CreateWith(1), CreateWith(3), Destroy, Add(2), Remove(1), Write(1)])
                        .gens(&[Look(lk::READ, 1), Look(lk::READ, 3), Look(lk::READ_MUT, 1), Look(lk::READ_MUT, 2)])
                        .live(3)
                        .depth(6, 7, th)
                        .job(),
                );
                j.push(
                    b("looks-kinds", 1)
                        .gens(&[Create, CreateWith(1), CreateWith(6), Destroy, Add(2), Remove(3)])
                        .gens(&[Look(lk::ALIVE, 0), Look(lk::KINDS, 0), Look(lk::CAPACITY, 0)])
                        .live(3)
                        .depth(6, 7, th)
                        .job(),
                );
                j.push(
                    b("looks-tags", 1)
                        .gens(&[CreateWith(1), Destroy, Tag(0), Untag(0), Tag(1)])
                        .gens(&[Look(lk::TAG, 0), Look(lk::TAG, 1), Look(lk::FILTER, 0), Look(lk::FILTER, 1 << 8)])
                        .tags(2)
                        .live(3)
                        .depth(6, 7, th)
                        .job(),
                );
                j.push(
                    b("looks-groups", 1)
                        .gens(&[CreateWith(1), Destroy, Push(0), Prev(0), Leave(0), Push(1)])
                        .gens(&[Look(lk::ENDS, 0), Look(lk::NEAR, 0), Look(lk::NEAR, 1), Look(lk::ORDERED, 0), Look(lk::ORDERED, 8)])
                        .groups(2)
                        .live(3)
                        .depth(6, 7, th)
                        .job(),
                );
                j.push(
                    b("looks-queries", 2)
                        .gens(&[CreateWith(1), CreateWith(3), Destroy, Add(2), Remove(1), Write(1)])
                        .gens(&[Look(lk::QUERY, 0), Look(lk::QUERY, 8), Look(lk::LIST, 0), Look(lk::LIST, 14)])
                        .live(3)
                        .depth(6, 7, th)
                        .job(),
                );
                // full pages, groups and tags to begin with
                let mut p = made(&[1, 3, 1, 2, 3, 7]);
                for a in 0..6 {
                    p.extend([op(k::TAG, (a % 2) as u16, a, 0), op(k::PUSH, (a % 2) as u16, a, 0)]);
                }
                j.push(
                    b("looks-full", 4)
                        .prefix(p)
                        .gens(&[CreateWith(1), Destroy, Add(2), Remove(1), Untag(0), Leave(0), Push(1)])
                        .gens(&[Look(lk::READ, 1), Look(lk::READ_MUT, 3), Look(lk::KINDS, 0), Look(lk::TAG, 0), Look(lk::NEAR, 0), Look(lk::ENDS, 1)])
                        .gens(&[Look(lk::QUERY, 0), Look(lk::FILTER, 0), Look(lk::LIST, 8), Look(lk::ORDERED, 0)])
                        .tags(2)
                        .groups(2)
                        .live(7)
                        .depth(3, 4, th)
                        .job(),
                );
            }
            // one question about one entity at a time
            let b = |name: &str, cap: usize| B::new(name, small(), cap, 0).live(3);
            j.push(
                b("asks-values", 2)
                    .gens(&[CreateWith(1), CreateWith(3), Destroy, Add(2), Remove(1), Write(1)])
                    .gens(&[Ask(lk::READ, 1), Ask(lk::READ, 3), Ask(lk::READ_MUT, 1)])
                    .depth(6, 7, th)
                    .job(),
            );
            j.push(
                b("asks-lists", 2)
                    .gens(&[CreateWith(1), CreateWith(3), Destroy, Add(2), Remove(1), Write(1)])
                    .gens(&[Ask(lk::LIST, 0), Ask(lk::LIST, 14)])
                    .depth(6, 7, th)
                    .job(),
            );
            j.push(
                b("asks-alive", 1)
                    .gens(&[Create, CreateWith(1), Destroy])
                    .gens(&[Ask(lk::ALIVE, 0)])
                    .depth(8, 10, th)
                    .job(),
            );
            j.push(
                b("asks-kinds", 1)
                    .gens(&[Create, CreateWith(1), Destroy, Add(2), Remove(3)])
                    .gens(&[Ask(lk::KINDS, 0)])
                    .depth(6, 7, th)
                    .job(),
            );
            j.push(
                b("asks-tags", 1)
                    .gens(&[CreateWith(1), Destroy, Tag(0), Untag(0), Tag(1)])
                    .gens(&[Ask(lk::TAG, 0), Ask(lk::TAG, 1)])
                    .tags(2)
                    .depth(6, 7, th)
                    .job(),
            );
            j.push(
                b("asks-groups", 1)
                    .gens(&[CreateWith(1), Destroy, Push(0), Next(0), Prev(0), Leave(0), Push(1)])
                    .gens(&[Ask(lk::AFTER, 0), Ask(lk::BEFORE, 0), Ask(lk::AFTER, 1), Look(lk::FIRST, 0), Look(lk::LAST, 0)])
                    .groups(2)
                    .depth(6, 7, th)
                    .job(),
            );
            j.push(
                b("asks-groups-filled", 4)
                    .prefix(made(&[1, 1, 1, 1]))
                    .gens(&[Destroy, Push(0), Next(0), Prev(0), Leave(0)])
                    .gens(&[Ask(lk::AFTER, 0), Ask(lk::BEFORE, 0), Look(lk::FIRST, 0), Look(lk::LAST, 0)])
                    .groups(1)
                    .live(4)
                    .depth(5, 6, th)
                    .job(),
            );
            // the same of resource stores, one and two of them
            macro_rules! kind {
                ($R:ty) => {
                    for cap in [0, 1, 3] {
                        let s = ResSys::<$R>::new(cap, ro::LOOK, 3);
                        j.push(bfs(&format!("resource-looks-{}-cap-{cap}", <$R>::NAME), s, if th { 10 } else { 8 }));
                    }
                    let mut s = ResSys::<$R>::new(1, ro::LOOK, 2);
                    s.caps = vec![0, 1];
                    j.push(bfs(&format!("resource-looks-across-{}", <$R>::NAME), s, if th { 9 } else { 7 }));
                };
            }
            kind!(Boxed);
            kind!(Big);
            kind!(Plain);
            // looking at one store tells nothing of another
            let mut sc = Scene::new("looks-across", small(), 1);
            sc.caps = vec![1, 1];
            sc.gens = vec![CreateWith(1), CreateWith(3), Destroy, Tag(0), Push(0)];
            sc.gens.extend([Look(lk::READ, 1), Look(lk::KINDS, 0), Look(lk::TAG, 0), Look(lk::ENDS, 0), Look(lk::QUERY, 0)]);
            sc.tags = 1;
            sc.groups = 1;
            sc.max_live = 2;
            sc.depth = if th { 7 } else { 6 };
            j.push(store(sc));
        }
        "P29" => {
            let or = o::PAIRS | o::VAL;
            for menu in [small(), big()] {
                j.push(
                    B::new(&format!("pairs-{}", menu.name), menu, 2, or)
                        .gens(&[CreateWith(1), CreateWith(3), Destroy, Tag(0), Push(0), Prev(0)])
                        .tags(1)
                        .groups(1)
                        .live(3)
                        .depth(5, 6, th)
                        .job(),
                );
                j.push(
                    B::new(&format!("pairs-moving-{}", menu.name), menu, 2, or)
                        .prefix(vec![op(k::CREATE_WITH, 3, 0, 0), op(k::CREATE_WITH, 1, 0, 0), op(k::PUSH, 0, 0, 0), op(k::TAG, 1, 1, 0)])
                        .gens(&[CreateWith(7), Destroy, Add(2), Remove(2), Add(4), Tag(0), Push(0), Push(1)])
                        .tags(2)
                        .groups(2)
                        .live(3)
                        .depth(3, 4, th)
                        .job(),
                );
            }
            // iterators over different stores
            let mut sc = Scene::new("pairs-two-stores", small(), 1);
            sc.caps = vec![1, 2];
            sc.oracles = or;
            sc.gens = vec![CreateWith(1), CreateWith(3), Destroy, Tag(0), Push(0)];
            sc.tags = 1;
            sc.groups = 1;
            sc.max_live = 2;
            sc.depth = if th { 8 } else { 6 };
            j.push(store(sc));
            for menu in [small(), big()] {
                let t = Together { menu, caps: sizes(&[2], &[1, 33]), scenes: if th { 6 } else { 4 }, width: 3, changes: false, parts: 1, scripts: (0..8).collect() };
                j.push(grid(&format!("three-iterators-{}", menu.name), t.clone()));
                j.push(grid(&format!("one-iterator-and-another-store-{}", menu.name), Together { scenes: 6, width: 1, changes: true, ..t.clone() }));
                if th || menu.name == "small" {
                    j.push(grid(&format!("two-iterators-and-another-store-{}", menu.name), Together { scenes: if th { 3 } else { 1 }, width: 2, changes: true, parts: 16, ..t }));
                }
            }
        }
        _ => {}
    }
    // the same patterns again and again
    let full = o::LIVE | o::SET | o::VAL | o::TAG | o::ORD | o::CAP | o::CQ | o::EQ | o::OQ | o::FILTER;
    let cycles: Option<(u32, &str, &[usize])> = match prop {
        "P01" => Some((o::LIVE, "lives", &[])),
        "P02" => Some((o::DEAD, "dead", &[])),
        "P03" => Some((o::VAL, "components", &[])),
        "P04" => Some((o::SET, "components", &[])),
        "P05" => Some((o::MEM, "components", &[])),
        "P06" => Some((o::SET | o::VAL | o::CQ, "components", &[0, 2, 14])),
        "P07" => Some((full, "everything", &[0, 14])),
        "P08" => Some((o::CQ, "components", SOME)),
        "P09" => Some((o::EQ, "components", &[0, 14])),
        "P10" => Some((o::OQ, "groups", &[0, 14])),
        "P11" => Some((o::FILTER, "tags", &[0, 14])),
        "P12" => Some((o::LEN, "everything", &[0, 14])),
        "P14" => Some((o::TAG, "tags", &[])),
        "P15" => Some((o::ORD, "groups", &[])),
        "P16" if debug => Some((o::MISUSE, "groups", &[])),
        "P17" => Some((full & !o::EQ & !o::CAP, "everything", &[0, 14])),
        "P23" => Some((o::LEAK, "everything", &[])),
        _ => None,
    };
    if let Some((or, what, accs)) = cycles {
        cycle_jobs(&mut j, or, th, what, accs);
        if !["lives"].contains(&what) {
            late_jobs(&mut j, or, th, what, accs);
        }
    }
    // questions asked now and then only
    let looks: &[&str] = match prop {
        "P01" => &["asks-alive", "looks-kinds"],
        "P02" => &["asks-"],
        "P03" => &["asks-values", "looks-values"],
        "P04" => &["asks-kinds", "looks-kinds"],
        "P08" | "P12" => &["looks-queries"],
        "P09" => &["asks-lists", "looks-queries"],
        "P10" => &["looks-groups"],
        "P11" => &["looks-tags"],
        "P14" => &["asks-tags", "looks-tags"],
        "P15" => &["asks-groups", "looks-groups"],
        "P17" => &["asks-tags", "asks-groups", "asks-alive", "looks-full"],
        "P20" => &["resource-looks"],
        "P26" => &["looks-across", "resource-looks-across"],
        _ => &[],
    };
    if !looks.is_empty() {
        j.extend(jobs("P32", th).into_iter().filter(|x| looks.iter().any(|l| x.name().starts_with(l))));
    }
    j
}

/// The builder with memory judged instead of sets.
struct LeakyBuilder(arch::BuilderSys);
impl System for LeakyBuilder {
    type Run = <arch::BuilderSys as System>::Run;
    fn start(&self) -> Result<Self::Run, String> {
        self.0.start()
    }
    fn enabled(&self, r: &Self::Run, out: &mut Vec<Op>) {
        self.0.enabled(r, out)
    }
    fn step(&self, r: &mut Self::Run, op: Op) -> Result<(), String> {
        self.0.step(r, op)
    }
    fn key(&self, r: &Self::Run) -> u128 {
        self.0.key(r)
    }
    fn check(&self, r: &mut Self::Run) -> Result<(), String> {
        let _ = self.0.check(r);
        crate::alloc::arena().sweep()?;
        match crate::alloc::arena().error {
            Some(e) => Err(e.to_string()),
            None => Ok(()),
        }
    }
    fn finish(&self, r: Self::Run) -> Result<(), String> {
        self.0.finish(r)
    }
    fn show(&self, op: Op) -> String {
        self.0.show(op)
    }
    fn leaks_matter(&self) -> bool {
        true
    }
    fn strict_memory(&self) -> bool {
        true
    }
}
