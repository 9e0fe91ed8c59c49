//! Component types, tuples, queries: everything that needs the library's generics, behind plain tables.
use division_ecs::query::access::ComponentQueryAccess;
use division_ecs::query::component::ComponentQuery;
use division_ecs::query::entity_component::EntityComponentQuery;
use division_ecs::query::ordered_component::OrderedComponentQuery;
use division_ecs::{
    Archetype, ArchetypeBuilder, Component, ComponentTuple, ComponentType, Entity, ReadWriteAccess,
    ReadonlyAccess, Store, Tag, WriteAccess,
};
use std::any::TypeId;

/// Runs library code with tracking on.
macro_rules! t {
    ($e:expr) => {{
        crate::alloc::track(true);
        let r = $e;
        crate::alloc::track(false);
        r
    }};
}
pub(crate) use t;

pub trait Comp: Component + 'static {
    const ID: u8;
}

/// Component values are runs of bytes derived from a seed, so every byte of a value identifies its owner.
#[inline]
pub fn byte_at(seed: u64, i: usize) -> u8 {
    (seed >> ((i % 8) * 8)) as u8 ^ ((i / 8) as u8).wrapping_mul(31)
}

pub fn make<T: Copy>(seed: u64) -> T {
    let mut v = std::mem::MaybeUninit::<T>::uninit();
    let n = std::mem::size_of::<T>();
    let p = v.as_mut_ptr() as *mut u8;
    for i in 0..n {
        unsafe { p.add(i).write(byte_at(seed, i)) };
    }
    unsafe { v.assume_init() }
}

pub unsafe fn holds(addr: usize, size: usize, seed: u64) -> bool {
    let s = std::slice::from_raw_parts(addr as *const u8, size);
    s.iter().enumerate().all(|(i, b)| *b == byte_at(seed, i))
}

pub unsafe fn write_seed(addr: usize, size: usize, seed: u64) {
    let s = std::slice::from_raw_parts_mut(addr as *mut u8, size);
    for (i, b) in s.iter_mut().enumerate() {
        *b = byte_at(seed, i);
    }
}

#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub struct Part {
    pub id: u8,
    pub mutable: bool,
    pub addr: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Parts {
    pub n: usize,
    pub p: [Part; 12],
}

impl Parts {
    pub fn new() -> Parts {
        Parts { n: 0, p: [Part::default(); 12] }
    }
    fn push(&mut self, id: u8, mutable: bool, addr: usize) {
        self.p[self.n] = Part { id, mutable, addr };
        self.n += 1;
    }
    pub fn iter(&self) -> impl Iterator<Item = &Part> {
        self.p[..self.n].iter()
    }
    pub fn addr_of(&self, id: u8) -> Option<usize> {
        self.iter().find(|p| p.id == id).map(|p| p.addr)
    }
}

pub trait Tup: ComponentTuple + 'static {
    fn ids() -> Vec<u8>;
    fn make(seed: &dyn Fn(u8) -> u64) -> Self;
    fn refs(r: Self::RefTuple<'_>, out: &mut Parts);
    fn muts(r: Self::MutRefTuple<'_>, out: &mut Parts);
    fn cloned(r: Self::RefTuple<'_>) -> Self;
    fn parts_of(v: &Self, out: &mut Parts);
    fn types() -> Vec<ComponentType>;
    fn type_ids() -> Vec<TypeId>;
}

impl<A: Comp> Tup for A {
    fn ids() -> Vec<u8> {
        vec![A::ID]
    }
    fn make(seed: &dyn Fn(u8) -> u64) -> Self {
        make(seed(A::ID))
    }
    fn refs(r: &A, out: &mut Parts) {
        out.push(A::ID, false, r as *const A as usize);
    }
    fn muts(r: &mut A, out: &mut Parts) {
        out.push(A::ID, true, r as *mut A as usize);
    }
    fn cloned(r: &A) -> A {
        division_ecs::ClonedExtension::cloned(r)
    }
    fn parts_of(v: &A, out: &mut Parts) {
        out.push(A::ID, false, v as *const A as usize);
    }
    fn types() -> Vec<ComponentType> {
        vec![ComponentType::of::<A>()]
    }
    fn type_ids() -> Vec<TypeId> {
        vec![TypeId::of::<A>()]
    }
}

macro_rules! tup_impl {
    ($($T:ident $v:ident),*) => {
        impl<$($T: Comp),*> Tup for ($($T),*) {
            fn ids() -> Vec<u8> { vec![$($T::ID),*] }
            fn make(seed: &dyn Fn(u8) -> u64) -> Self { ($(make::<$T>(seed($T::ID))),*) }
            fn refs(($($v),*): ($(&$T),*), out: &mut Parts) {
                $(out.push($T::ID, false, $v as *const $T as usize);)*
            }
            fn muts(($($v),*): ($(&mut $T),*), out: &mut Parts) {
                $(out.push($T::ID, true, $v as *mut $T as usize);)*
            }
            fn cloned(r: ($(&$T),*)) -> Self { division_ecs::ClonedExtension::cloned(r) }
            fn parts_of(($($v),*): &Self, out: &mut Parts) {
                $(out.push($T::ID, false, $v as *const $T as usize);)*
            }
            fn types() -> Vec<ComponentType> { vec![$(ComponentType::of::<$T>()),*] }
            fn type_ids() -> Vec<TypeId> { vec![$(TypeId::of::<$T>()),*] }
        }
    };
}
tup_impl!(A a, B b);
tup_impl!(A a, B b, C c);
tup_impl!(A a, B b, C c, D d);
tup_impl!(A a, B b, C c, D d, E e);
tup_impl!(A a, B b, C c, D d, E e, F f);
tup_impl!(A a, B b, C c, D d, E e, F f, G g);
tup_impl!(A a, B b, C c, D d, E e, F f, G g, H h);
tup_impl!(A a, B b, C c, D d, E e, F f, G g, H h, I i);
tup_impl!(A a, B b, C c, D d, E e, F f, G g, H h, I i, J j);
tup_impl!(A a, B b, C c, D d, E e, F f, G g, H h, I i, J j, K k);
tup_impl!(A a, B b, C c, D d, E e, F f, G g, H h, I i, J j, K k, L l);

// ---------------------------------------------------------------- tags

macro_rules! tags {
    ($($T:ident),*) => { $(#[derive(Tag)] pub struct $T;)* };
}
tags!(T0, T1, T2, T3, T4, G0, G1, G2, G3);

/// Calls `f::<tag number n>()`
macro_rules! with_tag {
    ($n:expr, $T:ident => $e:expr) => {
        match $n {
            0 => { type $T = crate::comps::T0; $e }
            1 => { type $T = crate::comps::T1; $e }
            2 => { type $T = crate::comps::T2; $e }
            3 => { type $T = crate::comps::T3; $e }
            _ => { type $T = crate::comps::T4; $e }
        }
    };
}


pub struct TagOps {
    pub add: fn(&mut Store, Entity),
    pub remove: fn(&mut Store, Entity),
    pub has: fn(&Store, Entity) -> bool,
}
fn tag_ops<T: Tag + 'static>() -> TagOps {
    TagOps {
        add: |s, e| t!(s.add_tag::<T>(e)),
        remove: |s, e| t!(s.remove_tag::<T>(e)),
        has: |s, e| t!(s.has_tag::<T>(e)),
    }
}

pub struct GroupOps {
    pub push: fn(&mut Store, Entity),
    pub next: fn(&mut Store, Entity, Entity),
    pub prev: fn(&mut Store, Entity, Entity),
    pub leave: fn(&mut Store, Entity),
    pub after: fn(&Store, Entity) -> Option<Entity>,
    pub before: fn(&Store, Entity) -> Option<Entity>,
    pub first: fn(&Store) -> Option<Entity>,
    pub last: fn(&Store) -> Option<Entity>,
}
fn group_ops<G: Tag + 'static>() -> GroupOps {
    GroupOps {
        push: |s, e| t!(s.add_entity_order_by::<G>(e)),
        next: |s, e, o| t!(s.add_entity_next_to_order_by::<G>(e, o)),
        prev: |s, e, o| t!(s.add_entity_previous_to_order_by::<G>(e, o)),
        leave: |s, e| t!(s.remove_entity_order_by::<G>(e)),
        after: |s, e| t!(s.get_next_entity_ordered_by::<G>(e)),
        before: |s, e| t!(s.get_previous_entity_ordered_by::<G>(e)),
        first: |s| t!(s.get_first_entity_ordered_by::<G>()),
        last: |s| t!(s.get_last_entity_ordered_by::<G>()),
    }
}

/// Tag and group types beyond the ones queries filter by.
pub struct MoreTag<const N: usize>;
impl<const N: usize> Tag for MoreTag<N> {}

macro_rules! table {
    ($f:ident; $($T:ident),*; $($n:expr),*) => { vec![$($f::<$T>(),)* $($f::<MoreTag<$n>>(),)*] };
}
pub fn tag(n: usize) -> &'static TagOps {
    static T: std::sync::OnceLock<Vec<TagOps>> = std::sync::OnceLock::new();
    &T.get_or_init(|| {
        table!(tag_ops; T0, T1, T2, T3, T4; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66)
    })[n]
}
pub fn group(n: usize) -> &'static GroupOps {
    static T: std::sync::OnceLock<Vec<GroupOps>> = std::sync::OnceLock::new();
    &T.get_or_init(|| {
        table!(group_ops; G0, G1, G2, G3; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67)
    })[n]
}
/// tags a query can be filtered by
pub const NFILTERS: u8 = 5;
pub const NTAGS: usize = 72;
pub const NGROUPS: usize = 72;

// ---------------------------------------------------------------- queries

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    Plain,
    Entities,
    Filter(u8),
    /// some items without entities, the rest with
    After(usize),
    /// some items without entities, some with, the rest filtered
    FilterAfter(u8, usize, usize),
}

/// How the items are asked for.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Each,
    // some one by one, then ...
    Count(usize),
    Last(usize),
    Nth(usize, usize),
    Fold(usize),
    /// again and again so many passed over
    Stride(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Item {
    pub entity: Option<Entity>,
    pub parts: Parts,
}

/// What one run of a query yielded.
#[derive(Default)]
pub struct Yield {
    pub items: Vec<Item>,
    /// exact length reported before each `next` (for iterators that report one), last one after the end
    pub lens: Vec<usize>,
    pub hints: Vec<(usize, Option<usize>)>,
    /// `next` returned something after it had returned nothing
    pub revived: bool,
    /// stopped by the safety limit, not by the iterator
    pub endless: bool,
    pub count: usize,
}

pub trait Acc: ComponentQueryAccess + 'static {
    fn parts(o: Self::AccessOutput<'_>, out: &mut Parts);
}
impl<R: Tup> Acc for ReadonlyAccess<R> {
    fn parts(o: R::RefTuple<'_>, out: &mut Parts) {
        R::refs(o, out)
    }
}
impl<W: Tup> Acc for WriteAccess<W> {
    fn parts(o: W::MutRefTuple<'_>, out: &mut Parts) {
        W::muts(o, out)
    }
}
impl<R: Tup, W: Tup> Acc for ReadWriteAccess<R, W> {
    fn parts((r, w): (R::RefTuple<'_>, W::MutRefTuple<'_>), out: &mut Parts) {
        R::refs(r, out);
        W::muts(w, out)
    }
}

pub struct Run<'r> {
    pub list: &'r [Entity],
    pub form: Form,
    pub how: How,
    /// stop after this many items (an abandoned run), if given
    pub take: Option<usize>,
    /// more items than this cannot be right
    pub limit: usize,
}

pub trait QueryObj {
    fn run(&mut self, store: &Store, r: &Run, each: &mut dyn FnMut(&Item)) -> Yield;
    /// address of the query object itself (it lives in the arena)
    fn root(&self) -> usize;
    /// The query object goes to another place in memory.
    fn shift(&mut self);
    /// An iterator to be stepped by hand.
    fn open<'a>(&'a mut self, store: &'a Store, list: &'a [Entity], form: Form) -> Box<dyn Iter + 'a>;
}

/// An iterator of the library behind plain calls (every call goes to the library's own method).
pub trait Iter {
    fn next(&mut self) -> Option<Item>;
    fn nth(&mut self, n: usize) -> Option<Item>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> Option<usize>;
    fn count(&mut self) -> usize;
    fn last(&mut self) -> Option<Item>;
    fn fold(&mut self, each: &mut dyn FnMut(Item));
}
struct It<I: Iterator> {
    it: Option<I>,
    len: fn(&I) -> Option<usize>,
    to: fn(I::Item) -> Item,
}
impl<I: Iterator> Iter for It<I> {
    fn next(&mut self) -> Option<Item> {
        self.it.as_mut().unwrap().next().map(self.to)
    }
    fn nth(&mut self, n: usize) -> Option<Item> {
        self.it.as_mut().unwrap().nth(n).map(self.to)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.as_ref().unwrap().size_hint()
    }
    fn len(&self) -> Option<usize> {
        (self.len)(self.it.as_ref().unwrap())
    }
    fn count(&mut self) -> usize {
        self.it.take().unwrap().count()
    }
    fn last(&mut self) -> Option<Item> {
        self.it.take().unwrap().last().map(self.to)
    }
    fn fold(&mut self, each: &mut dyn FnMut(Item)) {
        let to = self.to;
        self.it.take().unwrap().fold((), |(), i| each(to(i)))
    }
}

fn drive<I: Iterator>(
    it: I,
    r: &Run,
    len: fn(&I) -> Option<usize>,
    to: fn(I::Item) -> Item,
    each: &mut dyn FnMut(&Item),
) -> Yield {
    drive_dyn(&mut It { it: Some(it), len, to }, r, each)
}

fn drive_dyn(it: &mut dyn Iter, r: &Run, each: &mut dyn FnMut(&Item)) -> Yield {
    let mut y = Yield::default();
    let first = match r.how {
        How::Count(j) | How::Last(j) | How::Nth(j, _) | How::Fold(j) => j,
        _ => 0,
    };
    for _ in 0..first {
        y.items.extend(t!(it.next()));
    }
    match r.how {
        How::Count(_) => {
            y.count = t!(it.count());
            return y;
        }
        How::Last(_) => {
            if let Some(i) = t!(it.last()) {
                each(&i);
                y.items.push(i);
            }
            return y;
        }
        How::Nth(_, n) => {
            if let Some(i) = t!(it.nth(n)) {
                each(&i);
                y.items.push(i);
            }
            // what is left after nth
            if let Some(l) = t!(it.len()) {
                y.lens.push(l);
            }
            y.hints.push(t!(it.size_hint()));
            while t!(it.next()).is_some() {
                y.count += 1;
                if y.count > r.limit {
                    y.endless = true;
                    break;
                }
            }
            return y;
        }
        How::Fold(_) => {
            let items = &mut y.items;
            t!(it.fold(&mut |i| {
                crate::alloc::track(false);
                items.push(i);
                crate::alloc::track(true);
            }));
            return y;
        }
        How::Stride(n) => {
            while let Some(i) = t!(it.nth(n)) {
                y.items.push(i);
                if y.items.len() > r.limit {
                    y.endless = true;
                    break;
                }
            }
            return y;
        }
        How::Each => {}
    }
    loop {
        if let Some(l) = t!(it.len()) {
            y.lens.push(l);
        }
        y.hints.push(t!(it.size_hint()));
        if r.take == Some(y.items.len()) {
            return y;
        }
        match t!(it.next()) {
            Some(i) => {
                each(&i);
                y.items.push(i);
            }
            None => break,
        }
        if y.items.len() > r.limit {
            y.endless = true;
            return y;
        }
    }
    for _ in 0..2 {
        if let Some(l) = t!(it.len()) {
            y.lens.push(l);
        }
        y.revived |= t!(it.next()).is_some();
    }
    y
}

fn item<A: Acc>(o: A::AccessOutput<'_>) -> Item {
    let mut parts = Parts::new();
    A::parts(o, &mut parts);
    Item { entity: None, parts }
}
fn item_e<A: Acc>((e, o): (Entity, A::AccessOutput<'_>)) -> Item {
    let mut parts = Parts::new();
    A::parts(o, &mut parts);
    Item { entity: Some(e), parts }
}

fn boxed<'a, I: Iterator + 'a>(it: I, len: fn(&I) -> Option<usize>, to: fn(I::Item) -> Item) -> Box<dyn Iter + 'a> {
    Box::new(It { it: Some(it), len, to })
}

fn skip<I: Iterator>(mut it: I, k: usize) -> I {
    for _ in 0..k {
        it.next();
    }
    it
}

struct CQ<A: Acc>(Box<ComponentQuery<A>>);
impl<A: Acc> QueryObj for CQ<A> {
    fn run(&mut self, store: &Store, r: &Run, each: &mut dyn FnMut(&Item)) -> Yield {
        let it = t!(store.component_query_iter(&mut *self.0));
        match r.form {
            Form::Entities => drive(t!(it.with_entities()), r, |_| None, item_e::<A>, each),
            Form::Filter(n) => with_tag!(n, T => {
                let f = t!(it.with_entities().filter_tag::<T>());
                drive(f, r, |_| None, item_e::<A>, each)
            }),
            Form::After(k) => drive(t!(skip(it, k).with_entities()), r, |_| None, item_e::<A>, each),
            Form::FilterAfter(n, k, l) => with_tag!(n, T => {
                let f = t!(skip(skip(it, k).with_entities(), l).filter_tag::<T>());
                drive(f, r, |_| None, item_e::<A>, each)
            }),
            _ => drive(it, r, |i| Some(ExactSizeIterator::len(i)), item::<A>, each),
        }
    }
    fn root(&self) -> usize {
        &*self.0 as *const _ as usize
    }
    fn shift(&mut self) {
        let old = std::mem::replace(&mut self.0, t!(Box::new(ComponentQuery::new())));
        t!(self.0 = Box::new(*old));
    }
    fn open<'a>(&'a mut self, store: &'a Store, _: &'a [Entity], form: Form) -> Box<dyn Iter + 'a> {
        let it = t!(store.component_query_iter(&mut *self.0));
        match form {
            Form::Entities => boxed(t!(it.with_entities()), |_| None, item_e::<A>),
            Form::Filter(n) => with_tag!(n, T => boxed(t!(it.with_entities().filter_tag::<T>()), |_| None, item_e::<A>)),
            _ => boxed(it, |i| Some(ExactSizeIterator::len(i)), item::<A>),
        }
    }
}

struct EQ<A: Acc>(Box<EntityComponentQuery<A>>);
impl<A: Acc> QueryObj for EQ<A> {
    fn run(&mut self, store: &Store, r: &Run, each: &mut dyn FnMut(&Item)) -> Yield {
        let it = t!(store.entity_component_query_iter(r.list, &mut *self.0));
        match r.form {
            Form::Entities | Form::Filter(_) => {
                drive(t!(it.with_entities()), r, |_| None, item_e::<A>, each)
            }
            Form::After(k) => drive(t!(skip(it, k).with_entities()), r, |_| None, item_e::<A>, each),
            _ => drive(it, r, |_| None, item::<A>, each),
        }
    }
    fn root(&self) -> usize {
        &*self.0 as *const _ as usize
    }
    fn shift(&mut self) {
        let old = std::mem::replace(&mut self.0, t!(Box::new(EntityComponentQuery::new())));
        t!(self.0 = Box::new(*old));
    }
    fn open<'a>(&'a mut self, store: &'a Store, list: &'a [Entity], form: Form) -> Box<dyn Iter + 'a> {
        let it = t!(store.entity_component_query_iter(list, &mut *self.0));
        match form {
            Form::Entities | Form::Filter(_) => boxed(t!(it.with_entities()), |_| None, item_e::<A>),
            _ => boxed(it, |_| None, item::<A>),
        }
    }
}

struct OQ<O: Tag, A: Acc>(Box<OrderedComponentQuery<O, A>>);
impl<O: Tag, A: Acc> QueryObj for OQ<O, A> {
    fn run(&mut self, store: &Store, r: &Run, each: &mut dyn FnMut(&Item)) -> Yield {
        let it = t!(store.ordered_query_iter(&mut *self.0));
        match r.form {
            Form::Entities | Form::Filter(_) => {
                drive(t!(it.with_entities()), r, |_| None, item_e::<A>, each)
            }
            Form::After(k) => drive(t!(skip(it, k).with_entities()), r, |_| None, item_e::<A>, each),
            _ => drive(it, r, |i| Some(ExactSizeIterator::len(i)), item::<A>, each),
        }
    }
    fn root(&self) -> usize {
        &*self.0 as *const _ as usize
    }
    fn shift(&mut self) {
        let old = std::mem::replace(&mut self.0, t!(Box::new(OrderedComponentQuery::new())));
        t!(self.0 = Box::new(*old));
    }
    fn open<'a>(&'a mut self, store: &'a Store, _: &'a [Entity], form: Form) -> Box<dyn Iter + 'a> {
        let it = t!(store.ordered_query_iter(&mut *self.0));
        match form {
            Form::Entities | Form::Filter(_) => boxed(t!(it.with_entities()), |_| None, item_e::<A>),
            _ => boxed(it, |i| Some(ExactSizeIterator::len(i)), item::<A>),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Comp,
    List,
    Ord(u8),
}

// ---------------------------------------------------------------- tables

pub struct TupOps {
    pub ids: Vec<u8>,
    pub mask: u128,
    pub types: Vec<ComponentType>,
    pub type_ids: Vec<TypeId>,
    pub get: fn(&Store, Entity) -> Option<Parts>,
    pub get_mut: fn(&mut Store, Entity, &mut dyn FnMut(&Parts)) -> bool,
    pub add: fn(&mut Store, Entity, &dyn Fn(u8) -> u64),
    pub remove: fn(&mut Store, Entity),
    pub archetype: fn() -> Archetype,
    pub include: fn(&mut ArchetypeBuilder),
    pub exclude: fn(&mut ArchetypeBuilder),
    pub included_in: fn(&Archetype) -> bool,
}

pub fn tup<T: Tup>() -> TupOps {
    let ids = T::ids();
    TupOps {
        mask: ids.iter().fold(0, |m, i| m | 1u128 << i),
        ids,
        types: T::types(),
        type_ids: T::type_ids(),
        get: |s, e| {
            t!(s.get_components_refs::<T>(e)).map(|r| {
                let mut p = Parts::new();
                T::refs(r, &mut p);
                p
            })
        },
        get_mut: |s, e, f| match t!(s.get_components_refs_mut::<T>(e)) {
            Some(r) => {
                let mut p = Parts::new();
                T::muts(r, &mut p);
                f(&p);
                true
            }
            None => false,
        },
        add: |s, e, seed| {
            let v = T::make(seed);
            t!(s.add_components(e, v))
        },
        remove: |s, e| t!(s.remove_components::<T>(e)),
        archetype: || t!(Archetype::with_components::<T>()),
        include: |b| {
            t!(b.include_components::<T>());
        },
        exclude: |b| {
            t!(b.exclude_components::<T>());
        },
        included_in: |a| t!(T::is_archetype_include_types(a)),
    }
}

pub struct AccOps {
    pub read: u128,
    pub write: u128,
    pub name: &'static str,
    pub comp: fn() -> Box<dyn QueryObj>,
    pub list: fn() -> Box<dyn QueryObj>,
    pub ord: [fn() -> Box<dyn QueryObj>; 2],
}

pub fn mask_of(v: Vec<u8>) -> u128 {
    v.iter().fold(0, |m, i| m | 1u128 << i)
}

pub fn acc<A: Acc>(name: &'static str, read: u128, write: u128) -> AccOps {
    AccOps {
        read,
        write,
        name,
        comp: || {
            let b = t!(Box::new(ComponentQuery::<A>::new()));
            Box::new(CQ(b))
        },
        list: || {
            let b = t!(Box::new(EntityComponentQuery::<A>::new()));
            Box::new(EQ(b))
        },
        ord: [
            || {
                let b = t!(Box::new(OrderedComponentQuery::<G0, A>::new()));
                Box::new(OQ(b))
            },
            || {
                let b = t!(Box::new(OrderedComponentQuery::<G1, A>::new()));
                Box::new(OQ(b))
            },
        ],
    }
}
pub fn acc_r<R: Tup>() -> AccOps {
    acc::<ReadonlyAccess<R>>("read", mask_of(R::ids()), 0)
}
pub fn acc_w<W: Tup>() -> AccOps {
    acc::<WriteAccess<W>>("write", 0, mask_of(W::ids()))
}
pub fn acc_rw<R: Tup, W: Tup>() -> AccOps {
    acc::<ReadWriteAccess<R, W>>("read_write", mask_of(R::ids()), mask_of(W::ids()))
}

impl AccOps {
    pub fn all(&self) -> u128 {
        self.read | self.write
    }
    pub fn make(&self, k: Kind) -> Box<dyn QueryObj> {
        match k {
            Kind::Comp => (self.comp)(),
            Kind::List => (self.list)(),
            Kind::Ord(g) => (self.ord[g as usize])(),
        }
    }
}

pub const MAXC: usize = 72;

/// Component types with tuples over them: three with every tuple, or many with some.
pub struct Menu {
    pub name: &'static str,
    pub n: usize,
    pub sizes: Vec<usize>,
    pub aligns: Vec<usize>,
    pub types: Vec<TypeId>,
    /// with three types: indexed by mask; [0] is unused (same as [1])
    pub tups: Vec<TupOps>,
    /// type to the tuple of it alone
    pub single: Vec<usize>,
    pub accs: Vec<AccOps>,
}

macro_rules! comp {
    ($N:ident, $id:expr, $t:ty) => {
        #[derive(Clone, Copy, Component)]
        #[repr(C)]
        #[allow(dead_code)]
        pub struct $N {
            v: $t,
        }
        impl Comp for $N {
            const ID: u8 = $id;
        }
    };
    ($N:ident, $id:expr, $t:ty, $al:expr) => {
        #[derive(Clone, Copy, Component)]
        #[repr(C, align($al))]
        #[allow(dead_code)]
        pub struct $N {
            v: $t,
        }
        impl Comp for $N {
            const ID: u8 = $id;
        }
    };
}
pub(crate) use comp;

unsafe impl Sync for Menu {}
unsafe impl Send for Menu {}

fn build<A: Comp, B: Comp, C: Comp>(name: &'static str) -> Menu {
    Menu {
        name,
        n: 3,
        sizes: vec![std::mem::size_of::<A>(), std::mem::size_of::<B>(), std::mem::size_of::<C>()],
        aligns: vec![std::mem::align_of::<A>(), std::mem::align_of::<B>(), std::mem::align_of::<C>()],
        types: vec![TypeId::of::<A>(), TypeId::of::<B>(), TypeId::of::<C>()],
        single: vec![1, 2, 4],
        tups: vec![
            tup::<A>(),
            tup::<A>(),
            tup::<B>(),
            tup::<(A, B)>(),
            tup::<C>(),
            tup::<(C, A)>(),
            tup::<(B, C)>(),
            tup::<(A, C, B)>(),
        ],
        accs: vec![
            acc_r::<A>(),
            acc_r::<B>(),
            acc_r::<(B, A)>(),
            acc_r::<C>(),
            acc_r::<(A, C)>(),
            acc_r::<(C, B)>(),
            acc_r::<(B, C, A)>(),
            acc_w::<A>(),
            acc_w::<B>(),
            acc_w::<(A, B)>(),
            acc_w::<C>(),
            acc_w::<(C, A)>(),
            acc_w::<(B, C)>(),
            acc_w::<(C, B, A)>(),
            acc_rw::<A, B>(),
            acc_rw::<B, A>(),
            acc_rw::<A, C>(),
            acc_rw::<C, A>(),
            acc_rw::<B, C>(),
            acc_rw::<C, B>(),
            acc_rw::<A, (B, C)>(),
            acc_rw::<B, (C, A)>(),
            acc_rw::<C, (A, B)>(),
            acc_rw::<(B, C), A>(),
            acc_rw::<(A, C), B>(),
            acc_rw::<(B, A), C>(),
        ],
    }
}

comp!(S0, 0, u32);
comp!(S1, 1, u64);
comp!(S2, 2, [u8; 3]);

comp!(B0, 0, [u8; 5400]);
comp!(B1, 1, [u64; 650]);
comp!(B2, 2, [u8; 5]);

comp!(M0, 0, [u8; 5000], 8);
comp!(M1, 1, [u8; 64], 64);
comp!(M2, 2, u16);

/// two types of the same name, size and alignment
pub trait Pick {
    type T;
}
pub struct P0;
pub struct P1;
const _: () = {
    comp!(Twin, 0, [u16; 3]);
    impl Pick for P0 {
        type T = Twin;
    }
};
const _: () = {
    comp!(Twin, 1, [u16; 3]);
    impl Pick for P1 {
        type T = Twin;
    }
};
pub type TwinA = <P0 as Pick>::T;
pub type TwinB = <P1 as Pick>::T;
comp!(N2, 2, [u32; 2]);

        /// twins: types that only their ids tell apart
        pub fn twins() -> &'static Menu {
            static M: std::sync::OnceLock<Menu> = std::sync::OnceLock::new();
            M.get_or_init(|| {
                assert_eq!(std::any::type_name::<TwinA>(), std::any::type_name::<TwinB>());
                build::<TwinA, TwinB, N2>("twins")
            })
        }
/// small: everything of a history fits on one page per set
        pub fn small() -> &'static Menu {
            static M: std::sync::OnceLock<Menu> = std::sync::OnceLock::new();
            M.get_or_init(|| build::<S0, S1, S2>("small"))
        }
        /// big: three entities (single component) or one (two or three components) fill a page
        pub fn big() -> &'static Menu {
            static M: std::sync::OnceLock<Menu> = std::sync::OnceLock::new();
            M.get_or_init(|| build::<B0, B1, B2>("big"))
        }
        /// mixed: page-filling, over-aligned and tiny
        pub fn mixed() -> &'static Menu {
            static M: std::sync::OnceLock<Menu> = std::sync::OnceLock::new();
            M.get_or_init(|| build::<M0, M1, M2>("mixed"))
        }
