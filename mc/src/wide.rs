//! Seventy-two component types, far more than one tuple holds.
use crate::comps::*;
use crate::explore::{Grid, Op, PointDone, System};
use crate::res::{pattern, PATTERNS};
use crate::sys::*;
use division_ecs::{Component, ComponentType};
use std::any::TypeId;

comp!(W0, 0, [u8; 1]);
comp!(W1, 1, [u16; 2]);
comp!(W2, 2, [u32; 3]);
comp!(W3, 3, [u64; 4]);
comp!(W4, 4, [u8; 80], 16);
comp!(W5, 5, [u8; 6]);
comp!(W6, 6, [u16; 1]);
comp!(W7, 7, [u32; 2]);
comp!(W8, 8, [u64; 3]);
comp!(W9, 9, [u8; 128], 32);
comp!(W10, 10, [u8; 6]);
comp!(W11, 11, [u16; 1]);
comp!(W12, 12, [u32; 2]);
comp!(W13, 13, [u64; 3]);
comp!(W14, 14, [u8; 64], 16);
comp!(W15, 15, [u8; 5]);
comp!(W16, 16, [u16; 6]);
comp!(W17, 17, [u32; 1]);
comp!(W18, 18, [u64; 2]);
comp!(W19, 19, [u8; 96], 32);
comp!(W20, 20, [u8; 5]);
comp!(W21, 21, [u16; 6]);
comp!(W22, 22, [u32; 1]);
comp!(W23, 23, [u64; 2]);
comp!(W24, 24, [u8; 48], 16);
comp!(W25, 25, [u8; 4]);
comp!(W26, 26, [u16; 5]);
comp!(W27, 27, [u32; 6]);
comp!(W28, 28, [u64; 1]);
comp!(W29, 29, [u8; 64], 32);
comp!(W30, 30, [u8; 4]);
comp!(W31, 31, [u16; 5]);
comp!(W32, 32, [u32; 6]);
comp!(W33, 33, [u64; 1]);
comp!(W34, 34, [u8; 32], 16);
comp!(W35, 35, [u8; 3]);
comp!(W36, 36, [u16; 4]);
comp!(W37, 37, [u32; 5]);
comp!(W38, 38, [u64; 6]);
comp!(W39, 39, [u8; 32], 32);
comp!(W40, 40, [u8; 2]);
comp!(W41, 41, [u16; 1]);
comp!(W42, 42, [u32; 2]);
comp!(W43, 43, [u64; 3]);
comp!(W44, 44, [u8; 9]);
comp!(W45, 45, [u8; 3]);
comp!(W46, 46, [u16; 2]);
comp!(W47, 47, [u32; 1]);
comp!(W48, 48, [u64; 1]);
comp!(W49, 49, [u8; 16], 16);
comp!(W50, 50, [u8; 7]);
comp!(W51, 51, [u16; 3]);
comp!(W52, 52, [u32; 3]);
comp!(W53, 53, [u64; 2]);
comp!(W54, 54, [u8; 64], 32);
comp!(W55, 55, [u8; 2]);
comp!(W56, 56, [u16; 1]);
comp!(W57, 57, [u32; 2]);
comp!(W58, 58, [u64; 3]);
comp!(W59, 59, [u8; 9]);
comp!(W60, 60, [u8; 3]);
comp!(W61, 61, [u16; 2]);
comp!(W62, 62, [u32; 1]);
comp!(W63, 63, [u64; 1]);
comp!(W64, 64, [u8; 16], 16);
comp!(W65, 65, [u8; 7]);
comp!(W66, 66, [u16; 3]);
comp!(W67, 67, [u32; 3]);
comp!(W68, 68, [u64; 2]);
comp!(W69, 69, [u8; 64], 32);
comp!(W70, 70, [u8; 2]);
comp!(W71, 71, [u16; 1]);

/// how many types
pub const N: usize = 72;

/// every type alone (tuple 1 + number), then tuples of several
pub fn wide() -> &'static Menu {
    static M: std::sync::OnceLock<Menu> = std::sync::OnceLock::new();
    M.get_or_init(|| {
        macro_rules! all {
            ($($T:ident),*) => {{
                let mut tups = vec![tup::<W0>()];
                $(tups.push(tup::<$T>());)*
                let mut m = Menu {
                    name: "wide",
                    n: N,
                    sizes: vec![$(std::mem::size_of::<$T>()),*],
                    aligns: vec![$(std::mem::align_of::<$T>()),*],
                    types: vec![$(TypeId::of::<$T>()),*],
                    single: (1..=N).collect(),
                    tups,
                    accs: vec![],
                };
                assert_eq!(m.sizes.len(), N);
                m.tups.shrink_to_fit();
                m
            }};
        }
        let mut m = all!(W0, W1, W2, W3, W4, W5, W6, W7, W8, W9, W10, W11, W12, W13, W14, W15, W16, W17, W18, W19, W20, W21, W22, W23, W24, W25, W26, W27, W28, W29, W30, W31, W32, W33, W34, W35, W36, W37, W38, W39, W40, W41, W42, W43, W44, W45, W46, W47, W48, W49, W50, W51, W52, W53, W54, W55, W56, W57, W58, W59, W60, W61, W62, W63, W64, W65, W66, W67, W68, W69, W70, W71);
        m.tups.extend([
            tup::<(W0, W1, W2, W3, W4, W5, W6, W7, W8, W9, W10, W11)>(),
            tup::<(W23, W22, W21, W20, W19, W18, W17, W16, W15, W14, W13, W12)>(),
            tup::<(W24, W25, W26, W27, W28, W29, W30, W31, W32, W33, W34, W35)>(),
            tup::<(W39, W36, W38, W37)>(),
            tup::<(W39, W0)>(),
            tup::<(W5, W20)>(),
            tup::<(W3, W38, W17, W9, W30, W22)>(),
            tup::<(W31, W32, W7, W8, W15, W16, W1, W33)>(),
            tup::<(W12, W11)>(),
            tup::<(W0, W13, W39)>(),
            tup::<(W10, W2, W28, W4, W35, W6, W26, W19, W14)>(),
            tup::<(W71, W31, W63, W64, W7, W65, W32)>(),
        ]);
        m.accs = vec![
            acc_r::<W0>(),
            acc_r::<W39>(),
            acc_r::<(W39, W0)>(),
            acc_r::<(W23, W22, W21, W20, W19, W18, W17, W16, W15, W14, W13, W12)>(),
            acc_w::<W17>(),
            acc_w::<(W20, W5)>(),
            acc_rw::<(W3, W38, W17), (W9, W30, W22)>(),
            acc_rw::<W12, W11>(),
            acc_w::<(W0, W1, W2, W3, W4, W5, W6, W7, W8, W9, W10, W11)>(),
            acc_rw::<(W71, W31), (W64, W7, W63)>(),
        ];
        m
    })
}

pub fn component_types() -> Vec<ComponentType> {
    macro_rules! all {
        ($($T:ident),*) => { vec![$(ComponentType::of::<$T>()),*] };
    }
    all!(W0, W1, W2, W3, W4, W5, W6, W7, W8, W9, W10, W11, W12, W13, W14, W15, W16, W17, W18, W19, W20, W21, W22, W23, W24, W25, W26, W27, W28, W29, W30, W31, W32, W33, W34, W35, W36, W37, W38, W39, W40, W41, W42, W43, W44, W45, W46, W47, W48, W49, W50, W51, W52, W53, W54, W55, W56, W57, W58, W59, W60, W61, W62, W63, W64, W65, W66, W67, W68, W69, W70, W71)
}

/// the tuples of several
pub const TUPLES: std::ops::Range<usize> = N + 1..N + 13;

/// In which order an entity gets (and loses) its types.
pub const ORDERS: [&str; 6] = ["upwards", "downwards", "every seventh", "rotated per entity", "halves interleaved", "tuples of several first"];

fn order(o: usize, h: usize) -> Vec<usize> {
    let all = 1..=N;
    match o {
        0 => all.collect(),
        1 => all.rev().collect(),
        2 => all.map(|i| (i * 7) % N + 1).collect(),
        3 => all.map(|i| (i + h * 5) % N + 1).collect(),
        4 => all.map(|i| if i % 2 == 0 { i / 2 } else { N / 2 + 1 + i / 2 }).collect(),
        _ => TUPLES.chain(1..=N).collect(),
    }
}

/// Entities that get all types one after the other and lose them again.
#[derive(Clone)]
pub struct Wide {
    pub caps: Vec<usize>,
    pub sizes: Vec<usize>,
    pub oracles: u32,
    pub groups: u8,
    pub tags: u8,
    /// every how many steps everything is judged
    pub every: usize,
}

impl Wide {
    pub fn new(oracles: u32) -> Wide {
        Wide { caps: vec![1], sizes: vec![1, 3, 14], oracles, groups: 0, tags: 0, every: 5 }
    }
    fn at(&self, p: u64) -> (usize, usize, usize, usize) {
        let p = p as usize;
        let (c, p) = (self.caps[p % self.caps.len()], p / self.caps.len());
        let (n, p) = (self.sizes[p % self.sizes.len()], p / self.sizes.len());
        (c, n, p % ORDERS.len(), p / ORDERS.len())
    }
    pub fn scene(&self, cap: usize) -> Scene {
        let mut sc = Scene::new("wide", wide(), cap);
        sc.oracles = self.oracles;
        sc.tags = self.tags;
        sc.groups = self.groups;
        sc.list_len = 0;
        sc.long_lists = true;
        sc.max_live = usize::MAX;
        sc
    }
}

fn mark(tags: u8, groups: u8, h: usize, ops: &mut Vec<Op>) {
    let a = h as u32;
    for t in 0..tags as u16 {
        if (h + t as usize) % 3 == 0 {
            ops.push(Op { k: k::TAG, c: t, a, ..Op::default() });
        }
    }
    for g in 0..groups as u16 {
        if (h + g as usize) % 4 != 1 {
            ops.push(Op { k: k::PUSH, c: g, a, ..Op::default() });
        }
    }
}

impl Grid for Wide {
    fn points(&self) -> u64 {
        (self.caps.len() * self.sizes.len() * ORDERS.len() * 3) as u64
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let (cap, n, o, r) = self.at(p);
        let sys = StoreSys::new(self.scene(cap));
        let mut run = sys.start()?;
        let mut d = PointDone::default();
        let res = (|| {
            let mut ops = vec![];
            for h in 0..n {
                ops.push(if h % 3 == 2 { Op { k: k::CREATE_WITH, c: (N + 1 + h % 8) as u16, ..Op::default() } } else { Op { k: k::CREATE, ..Op::default() } });
                mark(self.tags, self.groups, h, &mut ops);
            }
            let mut steps: Vec<Vec<Op>> = vec![ops];
            let get: Vec<Vec<usize>> = (0..n).map(|h| order(o, h)).collect();
            for s in 0..get[0].len() {
                steps.push((0..n).map(|h| Op { k: k::ADD, c: get[h][s] as u16, a: h as u32, ..Op::default() }).collect());
            }
            let lose: Vec<Vec<usize>> = (0..n).map(|h| order((o + 1 + r) % ORDERS.len(), h)).collect();
            for s in 0..lose[0].len() {
                steps.push(
                    (0..n)
                        .map(|h| {
                            // one in four goes altogether, half-way
                            let k = if h % 4 == 3 && s == 17 { k::DESTROY } else { k::REMOVE };
                            (h, Op { k, c: if k == k::REMOVE { lose[h][s] as u16 } else { 0 }, a: h as u32, ..Op::default() })
                        })
                        .filter(|(h, _)| h % 4 != 3 || s <= 17)
                        .map(|x| x.1)
                        .collect(),
                );
            }
            let last = steps.len() - 1;
            for (s, ops) in steps.into_iter().enumerate() {
                for op in ops {
                    sys.step(&mut run, op)?;
                    d.transitions += 1;
                }
                if s % self.every == 0 || (12..15).contains(&s) || (32..34).contains(&s) || (63..66).contains(&s) || s == last {
                    sys.check(&mut run)?;
                    d.states += 1;
                }
            }
            Ok::<(), String>(())
        })();
        match res {
            Err(e) => {
                let _ = sys.finish(run);
                Err(e)
            }
            Ok(()) => {
                sys.finish(run)?;
                Ok(d)
            }
        }
    }
    fn leaks_matter(&self) -> bool {
        self.oracles & o::LEAK != 0
    }
    fn show(&self, p: u64) -> String {
        let (c, n, o, r) = self.at(p);
        format!("capacity {c}: {n} entities get seventy-two component types {}, and lose them {}", ORDERS[o], ORDERS[(o + 1 + r) % ORDERS.len()])
    }
}

/// Very many component sets at the same time.
#[derive(Clone)]
pub struct Sets {
    pub wide: Wide,
    pub sizes: Vec<usize>,
}

impl Sets {
    pub fn new(oracles: u32, sizes: &[usize]) -> Sets {
        Sets { wide: Wide::new(oracles), sizes: sizes.to_vec() }
    }
    fn at(&self, p: u64) -> (usize, usize, usize) {
        let p = p as usize;
        (self.sizes[p % self.sizes.len()], p / self.sizes.len() % PATTERNS.len(), p / self.sizes.len() / PATTERNS.len())
    }
    /// the set of entity number h: a window of types
    fn set(shape: usize, h: usize) -> Vec<usize> {
        match shape {
            0 => (0..1 + (h / N) % 11).map(|i| (h + i) % N + 1).collect(),
            _ => (0..1 + h % 4).map(|i| (h * 3 + i * (1 + h / N)) % N + 1).collect(),
        }
    }
}

impl Grid for Sets {
    fn points(&self) -> u64 {
        (self.sizes.len() * PATTERNS.len() * 2) as u64
    }
    fn run(&self, p: u64) -> Result<PointDone, String> {
        let (n, pat, shape) = self.at(p);
        let sys = StoreSys::new(self.wide.scene(8));
        let mut run = sys.start()?;
        let mut d = PointDone::default();
        let res = (|| {
            let mut next = 0usize;
            for phase in 0..3 {
                let from = next;
                for i in 0..n {
                    let mut ops = vec![Op { k: k::CREATE, ..Op::default() }];
                    mark(self.wide.tags, self.wide.groups, next, &mut ops);
                    for c in Self::set(shape, i + phase * 17) {
                        ops.push(Op { k: k::ADD, c: c as u16, a: next as u32, ..Op::default() });
                    }
                    for op in ops {
                        sys.step(&mut run, op)?;
                        d.transitions += 1;
                    }
                    next += 1;
                }
                sys.check(&mut run)?;
                for i in pattern(pat, n) {
                    sys.step(&mut run, Op { k: k::DESTROY, a: (from + i) as u32, ..Op::default() })?;
                    d.transitions += 1;
                }
                sys.check(&mut run)?;
                d.states += 2;
            }
            Ok::<(), String>(())
        })();
        match res {
            Err(e) => {
                let _ = sys.finish(run);
                Err(e)
            }
            Ok(()) => {
                sys.finish(run)?;
                Ok(d)
            }
        }
    }
    fn leaks_matter(&self) -> bool {
        self.wide.oracles & o::LEAK != 0
    }
    fn show(&self, p: u64) -> String {
        let (n, pat, shape) = self.at(p);
        format!("three times: create {n} entities with sets of shape {shape}, give up {}", PATTERNS[pat])
    }
}
