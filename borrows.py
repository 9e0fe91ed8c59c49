"""P33: every program of a kind that keeps something a store handed out across a use of that store, through the compiler.

A program is (what is kept) x (what happens meanwhile). Where the two conflict the program must be refused; where they
do not, and where the kept thing is no longer used, it must be accepted. Programs of one expectation are functions of
one crate, and the compiler's errors are attributed to them by their place."""
import concurrent.futures as cf
import json, os, shutil, subprocess, tempfile, time

import check as driver
import shapes

HEAD = """#![allow(warnings)]
use division_ecs::*;
use division_ecs::query::{component as cq, entity_component as lq, ordered_component as oq};
#[derive(Clone, Copy, Component)] pub struct A { v: u32 }
#[derive(Clone, Copy, Component)] pub struct B { v: u64 }
#[derive(Clone, Copy, Component)] pub struct C { v: [u8; 3] }
#[derive(Tag)] pub struct T {}
#[derive(Tag)] pub struct G {}
fn using<X>(_: &X) {}
"""

# everything a program may need
SCENE = """
    let mut s = Store::new();
    let e = s.create_entity();
    let f = s.create_entity();
    let list = vec![e, f];
    let r = Archetype::with_components::<(A, B)>();
    let (mut qr, mut qw, mut qm) = (cq::readonly::<A>(), cq::write::<(A, B)>(), cq::read_write::<A, B>());
    let (mut pr, mut pw, mut pm) = (cq::readonly::<A>(), cq::write::<(A, B)>(), cq::read_write::<A, B>());
    let (mut lr, mut lw, mut lm) = (lq::readonly::<A>(), lq::write::<(A, B)>(), lq::read_write::<A, B>());
    let (mut or, mut ow, mut om) = (oq::readonly::<G, A>(), oq::write::<G, (A, B)>(), oq::read_write::<G, A, B>());
"""

# name, how it is obtained (bound to h), exclusive?, query object it keeps, keeps the list?
HOLDERS = [
    ("a component", "s.get_components_refs::<A>(e).unwrap()", False, None, False),
    ("one of two components", "s.get_components_refs::<(A, B)>(e).unwrap().1", False, None, False),
    ("a tuple of components", "s.get_components_refs::<(A, B, C)>(e)", False, None, False),
    ("a component to be changed", "s.get_components_refs_mut::<A>(e).unwrap()", True, None, False),
    ("one of two components to be changed", "s.get_components_refs_mut::<(A, B)>(e).unwrap().0", True, None, False),
    ("a tuple of components to be changed", "s.get_components_refs_mut::<(A, B, C)>(e)", True, None, False),
    ("an archetype", "s.get_entity_archetype(e).unwrap()", False, None, False),
    ("the components of an archetype", "s.get_entity_archetype(e).unwrap().components_iter()", False, None, False),
    ("the ids of an archetype", "s.get_entity_archetype(e).unwrap().included_ids()", False, None, False),
]
for kind, call, qs in [("component", "s.component_query_iter(&mut {})", ["qr", "qw", "qm"]),
                       ("list", "s.entity_component_query_iter(&list, &mut {})", ["lr", "lw", "lm"]),
                       ("ordered", "s.ordered_query_iter(&mut {})", ["or", "ow", "om"])]:
    for q, acc in zip(qs, ["read", "write", "read-write"]):
        c = call.format(q)
        lst = kind == "list"
        HOLDERS.append((f"a {kind} {acc} iterator", c, False, q, lst))
        HOLDERS.append((f"an item of a {kind} {acc} iterator", c + ".next().unwrap()", False, None, False))
        HOLDERS.append((f"a {kind} {acc} iterator with entities", c + ".with_entities()", False, q, lst))
        HOLDERS.append((f"an item of a {kind} {acc} iterator with entities", c + ".with_entities().next().unwrap().1", False, None, False))
        if kind == "component":
            HOLDERS.append((f"a filtered {acc} iterator", c + ".with_entities().filter_tag::<T>()", False, q, lst))
            HOLDERS.append((f"an item of a filtered {acc} iterator", c + ".with_entities().filter_tag::<T>().last().unwrap().1", False, None, False))
        HOLDERS.append((f"the collected items of a {kind} {acc} iterator", c + ".collect::<Vec<_>>()", False, None, False))

# name, statement: needs the store for itself
CHANGES = [
    ("create", "s.create_entity();"),
    ("create with an archetype", "s.create_entity_with_archetype(&r);"),
    ("destroy", "s.destroy_entity(f);"),
    ("add components", "s.add_components(f, (A { v: 1 }, B { v: 2 }));"),
    ("remove components", "s.remove_components::<A>(f);"),
    ("add a tag", "s.add_tag::<T>(f);"),
    ("remove a tag", "s.remove_tag::<T>(f);"),
    ("append to a group", "s.add_entity_order_by::<G>(f);"),
    ("insert after", "s.add_entity_next_to_order_by::<G>(f, e);"),
    ("insert before", "s.add_entity_previous_to_order_by::<G>(f, e);"),
    ("leave a group", "s.remove_entity_order_by::<G>(f);"),
    ("ask for mutable components", "using(&s.get_components_refs_mut::<C>(f));"),
    ("drop the store", "drop(s);"),
    ("move the store", "let elsewhere = s;"),
    ("replace the store", "s = Store::new();"),
    ("swap the store", "let mut t = Store::new(); std::mem::swap(&mut s, &mut t);"),
    ("borrow the store mutably", "let m = &mut s; using(&m);"),
]
# name, statement: shares the store
LOOKS = [
    ("ask for liveness", "using(&s.is_alive(f));"),
    ("ask for a tag", "using(&s.has_tag::<T>(f));"),
    ("ask for components", "using(&s.get_components_refs::<(A, B)>(f));"),
    ("ask for the archetype", "using(&s.get_entity_archetype(f));"),
    ("ask for validity", "using(&s.is_valid_entity_with_archetype(f));"),
    ("ask for the capacity", "using(&s.entities_capacity());"),
    ("ask for the next", "using(&s.get_next_entity_ordered_by::<G>(f));"),
    ("ask for the previous", "using(&s.get_previous_entity_ordered_by::<G>(f));"),
    ("ask for the first", "using(&s.get_first_entity_ordered_by::<G>());"),
    ("ask for the last", "using(&s.get_last_entity_ordered_by::<G>());"),
    ("run another query", "for x in s.component_query_iter(&mut pr).with_entities() { using(&x); }"),
    ("lend the store", "let m = &s; using(&m);"),
]
# name, statement by the query object
QUERY = [
    ("drop its query", "drop({q});"),
    ("move its query", "let elsewhere = {q};"),
    ("run its query again", "{again}"),
    ("borrow its query mutably", "let m = &mut {q}; using(&m);"),
]
LIST = [
    ("drop its list", "drop(list);"),
    ("move its list", "let elsewhere = list;"),
    ("replace its list", "let mut list = list; list.push(e);"),
]
AGAIN = {"q": "s.component_query_iter(&mut {q}).count();", "l": "s.entity_component_query_iter(&[e], &mut {q}).count();",
         "o": "s.ordered_query_iter(&mut {q}).count();"}

# resource stores: name, statement needing it for itself?
RES_SCENE = """
    let mut s: ResourceStore<Box<u32>> = ResourceStore::new();
    let e = s.create(Box::new(1));
    let f = s.create(Box::new(2));
"""
RES_HOLDERS = [("a resource", "&s[e]", False), ("a resource to be changed", "&mut s[e]", True), ("a part of a resource", "&*s[e]", False)]
RES_CHANGES = [
    ("create", "s.create(Box::new(3));"), ("release", "drop(s.release(e));"), ("release another", "drop(s.release(f));"),
    ("change another", "*s[f] = 4;"), ("drop the store", "drop(s);"), ("move the store", "let elsewhere = s;"),
    ("replace the store", "s = ResourceStore::new();"),
]
RES_LOOKS = [("read another", "using(&*s[f]);"), ("read the same", "using(&*s[e]);"), ("lend the store", "let m = &s; using(&m);")]

# archetypes by themselves
ARCH_SCENE = "\n    let mut s = Archetype::with_components::<(A, B)>();\n"
ARCH_HOLDERS = [("the components of an archetype", "s.components_iter()"), ("the ids of an archetype", "s.included_ids()")]
ARCH_CHANGES = [("drop it", "drop(s);"), ("move it", "let elsewhere = s;"), ("replace it", "s = Archetype::with_components::<A>();")]
ARCH_LOOKS = [("count them", "using(&s.component_count());"), ("copy it", "using(&s.clone());"), ("ask it", "using(&s.has_component::<A>());")]


def programs():
    """(name, body of a function, must be accepted?)"""
    out = []

    def put(scene, who, get, change, stmt, want):
        out.append((f"keep {who}, {change}, use it", f"{scene}    let h = {get};\n    {stmt}\n    using(&h);\n", want))

    def gone(scene, who, get, change, stmt):
        out.append((f"use {who}, then {change}", f"{scene}    {{ let h = {get}; using(&h); }}\n    {stmt}\n", True))

    for who, get, excl, q, lst in HOLDERS:
        for change, stmt in CHANGES:
            put(SCENE, who, get, change, stmt, False)
            gone(SCENE, who, get, change, stmt)
        for look, stmt in LOOKS:
            put(SCENE, who, get, look, stmt, not excl)
        if q:
            for change, stmt in QUERY:
                stmt = stmt.format(q=q, again=AGAIN[q[0]].format(q=q))
                put(SCENE, who, get, change, stmt, False)
                gone(SCENE, who, get, change, stmt)
        if lst:
            for change, stmt in LIST:
                put(SCENE, who, get, change, stmt, False)
                gone(SCENE, who, get, change, stmt)
        # out of the block that owns everything it is taken from
        out.append((f"let {who} escape from its block", f"    let h = {{{SCENE}    {get}\n    }};\n    using(&h);\n", False))
    # two at a time, of different query objects
    for who, get, excl, q, lst in HOLDERS:
        for who2, get2, excl2, q2, lst2 in HOLDERS:
            if any(x in get and x in get2 for x in ["qr", "qw", "qm", "lr", "lw", "lm", "&mut or", "&mut ow", "&mut om"]):
                continue
            body = f"{SCENE}    let h = {get};\n    let i = {get2};\n    using(&h);\n    using(&i);\n"
            out.append((f"keep {who} and {who2}", body, not excl and not excl2))
    for who, get, excl in RES_HOLDERS:
        for change, stmt in RES_CHANGES:
            put(RES_SCENE, who, get, change, stmt, False)
            gone(RES_SCENE, who, get, change, stmt)
        for look, stmt in RES_LOOKS:
            put(RES_SCENE, who, get, look, stmt, not excl)
        out.append((f"let {who} escape from its block", f"    let h = {{{RES_SCENE}    {get}\n    }};\n    using(&h);\n", False))
    for who, get in ARCH_HOLDERS:
        for change, stmt in ARCH_CHANGES:
            put(ARCH_SCENE, who, get, change, stmt, False)
            gone(ARCH_SCENE, who, get, change, stmt)
        for look, stmt in ARCH_LOOKS:
            put(ARCH_SCENE, who, get, look, stmt, True)
        out.append((f"let {who} escape from its block", f"    let h = {{{ARCH_SCENE}    {get}\n    }};\n    using(&h);\n", False))
    return out


def thread_programs():
    """(name, item, must be accepted?): what may be shared between threads or sent to another one"""
    out = []

    def put(name, item, want):
        out.append((name, item, want))

    sync = "fn need<X: Sync + ?Sized>() {{}} pub fn f() {{ need::<{}>() }}"
    send = "fn need<X: Send + ?Sized>() {{}} pub fn f() {{ need::<{}>() }}"
    put("share a store", sync.format("Store"), False)
    put("send a lent store", send.format("&'static Store"), False)
    for t, name in [("cq::ComponentsQueryIter<'static, {}>", "a component iterator"), ("cq::WithEntitiesIter<'static, {}>", "a component iterator with entities"),
                    ("cq::FilterTagIter<'static, {}>", "a filtered iterator"), ("lq::EntityComponentQueryIter<'static, {}>", "a list iterator"),
                    ("lq::WithEntitiesIter<'static, {}>", "a list iterator with entities"),
                    ("oq::OrderedComponentQueryIter<'static, {}>", "an ordered iterator"), ("oq::WithEntitiesIter<'static, {}>", "an ordered iterator with entities")]:
        for a in ["ReadonlyAccess<A>", "WriteAccess<A>", "ReadWriteAccess<A, B>"]:
            put(f"send {name} of {a}", send.format(t.format(a)), False)
    for t in ["std::rc::Rc<u8>", "*mut u8", "std::cell::Cell<u8>", "std::cell::RefCell<Box<u8>>"]:
        put(f"share a store of {t}", sync.format(f"ResourceStore<{t}>"), False)
    for t in ["std::rc::Rc<u8>", "*mut u8", "std::sync::MutexGuard<'static, u8>"]:
        put(f"send a store of {t}", send.format(f"ResourceStore<{t}>"), False)
    for t in ["Entity", "Vec<Entity>"]:
        put(f"share {t}", sync.format(t), True)
        put(f"send {t}", send.format(t), True)
    return out


CODES = {"E0499", "E0502", "E0503", "E0505", "E0506", "E0515", "E0521", "E0597", "E0713", "E0716", "E0382"}


def errors(lib, deps, items):
    """For every item, the errors the compiler has against it: [(code, message)]"""
    text, starts = HEAD, []
    for i, item in enumerate(items):
        starts.append(text.count("\n") + 1)
        text += f"pub mod m{i} {{ use super::*;\n{item}\n}}\n"
    folder = tempfile.mkdtemp(prefix="ecsmc-borrow-")
    try:
        f = os.path.join(folder, "programs.rs")
        with open(f, "w") as h:
            h.write(text)
        cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--cap-lints", "allow", "--error-format", "json",
               "--out-dir", folder, "--extern", "division_ecs=" + lib, "-L", "dependency=" + deps, f]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=driver.env(), timeout=600)
        except subprocess.TimeoutExpired:
            raise driver.NoAnswer("the compiler does not end")
    finally:
        shutil.rmtree(folder)
    if r.returncode not in (0, 1):
        raise driver.NoAnswer(f"the compiler ended with status {r.returncode}: {r.stderr[-500:]}")
    out = [[] for _ in items]
    for l in r.stderr.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("level") != "error":
            continue
        lines = [s["line_start"] for s in m["spans"] if s["is_primary"]]
        if not lines:
            if r.returncode and m["message"].startswith("aborting"):
                continue
            raise driver.NoAnswer("the compiler says: " + m["message"])
        i = max((k for k, s in enumerate(starts) if s <= lines[0]), default=None)
        if i is None:
            raise driver.NoAnswer("the compiler says: " + m["message"])
        out[i].append(((m.get("code") or {}).get("code"), m["message"]))
    return out


def judge(lib, deps, programs, codes):
    """(bad programs, number accepted)"""
    bad, ok = [], 0
    crates = []
    for want in (True, False):
        chosen = [p for p in programs if p[2] == want]
        crates += [chosen[i:i + 300] for i in range(0, len(chosen), 300)]
    with cf.ThreadPoolExecutor(8) as ex:
        found = list(ex.map(lambda c: errors(lib, deps, [p[1] for p in c]), crates))
    for chosen, errs in zip(crates, found):
        for p, e in zip(chosen, errs):
            want = p[2]
            strange = [m for c, m in e if c is not None and c not in codes]
            if strange:
                # not about borrowing: the program does not say what it is meant to say
                raise driver.NoAnswer(f"{p[0]}: {strange[0]}")
            ok += not e
            if want and e:
                bad.append((p, f"is refused by the compiler ({e[0][1]})"))
            if not want and not e:
                bad.append((p, "is accepted by the compiler"))
    return bad, ok


def as_function(p):
    return (p[0], "pub fn f() {\n" + p[1] + "}", p[2])


def check(tier, t0):
    lib, deps = shapes.library()
    ps = [as_function(p) for p in programs()]
    ts = thread_programs()
    bad, ok = judge(lib, deps, ps, CODES)
    bad2, ok2 = judge(lib, deps, ts, {"E0277"})
    n, done = len(ps) + len(ts), ok + ok2
    found = None
    for p, what in (bad + bad2)[:1]:
        found = dict(property="P33", tier=tier, flavour="compiler", job="programs", spec=p[1], expect=p[2], history=p[0], what=what, again="")
    cover = dict(states=n, transitions=n, traces_validated_against_impl=n, accepted=done, refused=n - done,
                 samples=[ps[0][0], ps[len(ps) // 2][0], ts[0][0]], exhaustive=True,
                 rule="every pair of something handed out and something that happens meanwhile, given to the compiler with the library built from /repo")
    driver.write_evidence("P33", tier, cover, ["programs that keep more than two things are not compiled",
                                               "write queries over a shared store may alias by design and are not refused"], t0, 1 if found else 0)
    for l in driver.known("P33"):
        print("KNOWN-FINDING:", l[len("finding: "):])
    print(f"P33 {tier}: {n} programs ({done} accepted), {time.time() - t0:.0f} s")
    return driver.report(found)


def replay(v):
    lib, deps = shapes.library()
    p = (v["history"], v["spec"], v["expect"])
    bad, _ = judge(lib, deps, [p], CODES | {"E0277"})
    print(v["history"], bad[0][1] if bad else "as it should be")
    print("VIOLATED" if bad else "HELD")
    return 1 if bad else 0
