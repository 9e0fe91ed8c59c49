"""P27: every item shape up to a size, through the compiler, with the derive macros of /repo's current tree.

For each shape: the item without a library derive compiles (so the shape itself is legal); with the derive it compiles
exactly if the shape is one the derive is meant for; and an accepted type implements the trait of its derive and not
that of the other one."""
import concurrent.futures as cf
import itertools, json, os, shutil, subprocess, tempfile, time

import check as driver

FIELDS = ["u32", "[u8; 3]", "core::marker::PhantomData<u8>", "Inner", "(u8, u16)"]


def shapes(tier):
    """(name of the shape, item text with @D@ for the derives, is a struct, number of fields, generic)"""
    top = 4 if tier == "thorough" else 3
    vis = ["", "pub ", "pub(crate) "]
    out = []

    def add(name, text, struct, n, generic=False):
        out.append(dict(name=name, text=text, struct=struct, n=n, generic=generic))

    def named(n, k=0, v=""):
        return ", ".join(f"{v}f{i}: {FIELDS[(i + k) % len(FIELDS)]}" for i in range(n))

    def bare(n, k=0, v=""):
        return ", ".join(f"{v}{FIELDS[(i + k) % len(FIELDS)]}" for i in range(n))

    for v in vis:
        add(f"{v}unit struct", f"@D@ {v}struct X;", True, 0)
        for n in range(0, top + 1):
            for k in range(len(FIELDS) if n else 1):
                add(f"{v}struct, {n} named fields from {k}", f"@D@ {v}struct X {{ {named(n, k, v)} }}", True, n)
                add(f"{v}tuple struct, {n} fields from {k}", f"@D@ {v}struct X({bare(n, k, v)});", True, n)
    for n in (12, 40):
        add(f"struct, {n} named fields", f"@D@ struct X {{ {named(n)} }}", True, n)
        add(f"tuple struct, {n} fields", f"@D@ struct X({bare(n)});", True, n)
    for a in ["#[repr(C)]", "#[repr(C, align(64))]", "#[allow(dead_code)]", "/// documented\n", "#[must_use]", "#[doc(hidden)]"]:
        for n in range(0, 3):
            add(f"{a.strip()} struct, {n} named", f"@D@ {a} struct X {{ {named(n)} }}", True, n)
            add(f"struct, {n} named, {a.strip()} first", f"{a} @D@ struct X {{ {named(n)} }}", True, n)
    for n in (1, 2):
        add(f"{n} documented fields", "@D@ struct X { " + ", ".join(f"/// d\n #[allow(unused)] f{i}: u8" for i in range(n)) + " }", True, n)
    add("zero-sized field", "@D@ struct X { f: () }", True, 1)
    add("zero-sized tuple field", "@D@ struct X(());", True, 1)
    add("unnamed field name", "@D@ struct X { _f: u8 }", True, 1)
    # enums: every list of up to `top` variants of every form
    forms = ["V@", "V@(u8)", "V@ { a: u8 }", "V@()", "V@ {}", "V@(u8, u16)"]
    for n in range(0, top):
        for c in itertools.product(forms, repeat=n):
            add(f"enum of {list(c)}", "@D@ enum X { " + ", ".join(f.replace("@", str(i)) for i, f in enumerate(c)) + " }", False, n)
    add("enum with values", "@D@ #[repr(u8)] enum X { A = 1, B = 2 }", False, 2)
    for n in range(1, top + 1):
        add(f"union of {n}", "@D@ union X { " + ", ".join(f"f{i}: u{8 << (i % 3)}" for i in range(n)) + " }", False, n)
    add("repr(C) union", "@D@ #[repr(C)] union X { f: u8 }", False, 1)
    # generic items
    for g, f in [("<T>", "T"), ("<T: Copy>", "T"), ("<'a>", "&'a u8"), ("<const N: usize>", "[u8; N]"), ("<A, B>", "(A, B)")]:
        add(f"generic struct {g}", f"@D@ struct X{g} {{ f: {f} }}", True, 1, True)
        add(f"generic tuple struct {g}", f"@D@ struct X{g}({f});", True, 1, True)
        add(f"generic enum {g}", f"@D@ enum X{g} {{ A({f}), B }}", False, 2, True)
    add("generic unit struct", "@D@ struct X<const N: usize>;", True, 0, True)
    add("generic struct without fields", "@D@ struct X<const N: usize> {}", True, 0, True)
    add("generic tuple struct without fields", "@D@ struct X<const N: usize>();", True, 0, True)
    return out


TRAITS = ["Component", "Tag"]
PLACES = {
    "after": "#[derive(Clone, Copy)] #[derive({})]",
    "before": "#[derive({})] #[derive(Clone, Copy)]",
    "among": "#[derive(Clone, {}, Copy)]",
}
HEAD = """#![allow(dead_code, unused_imports)]
use division_ecs::{Component, Tag};
#[derive(Clone, Copy)] struct Inner { a: u64 }
fn is_component<T: Component>() {}
fn is_tag<T: Tag>() {}
"""


def programs(tier):
    """(description, source, must compile?)"""
    out = []
    for s in shapes(tier):
        ordinary = "#[derive(Clone, Copy)]"
        out.append((f"{s['name']}, no derive of the library", HEAD + s["text"].replace("@D@", ordinary), True))
        for t in TRAITS:
            want = s["struct"] and not s["generic"] and (s["n"] > 0) == (t == "Component")
            places = PLACES if tier == "thorough" or s["n"] < 2 else {"after": PLACES["after"]}
            for where, d in places.items():
                src = HEAD + s["text"].replace("@D@", d.format(t))
                out.append((f"derive({t}) {where} the others on: {s['name']}", src, want))
            if want:
                src = HEAD + s["text"].replace("@D@", PLACES["after"].format(t))
                for u in TRAITS:
                    out.append((f"derive({t}) on: {s['name']}; it implements {u}", src + f"\nfn check() {{ is_{u.lower()}::<X>() }}", t == u))
        out.append((f"derive of both on: {s['name']}", HEAD + s["text"].replace("@D@", PLACES["among"].format("Component, Tag")), False))
    for item, n in [("struct Inner2 { a: u8 }", 1), ("struct Inner2;", 0), ("struct Inner2(u8);", 1), ("enum Inner2 { A }", None)]:
        for t in TRAITS:
            want = n is not None and (n > 0) == (t == "Component")
            d = PLACES["after"].format(t)
            out.append((f"derive({t}) inside a function: {item}", HEAD + f"fn f() {{ {d} {item} is_{t.lower()}::<Inner2>() }}", want))
            out.append((f"derive({t}) inside a module: {item}",
                        HEAD + f"mod m {{ use division_ecs::*; {d} pub(crate) {item} }}\nfn f() {{ is_{t.lower()}::<m::Inner2>() }}", want))
    # a raw name, a long name
    for name in ["r#type", "x", "A_very_long_name_0123456789_" * 4]:
        for t, body in [("Component", "{ a: u8 }"), ("Tag", "{}")]:
            src = HEAD + f"#[allow(non_camel_case_types)] {PLACES['after'].format(t)} struct {name} {body}\nfn f() {{ is_{t.lower()}::<{name}>() }}"
            out.append((f"derive({t}) on a struct called {name}", src, True))
    # the same shape twice in one program: the derives keep nothing
    out.append(("many derives in one program", HEAD + "\n".join(
        f"#[derive(Clone, Copy, Component)] struct C{i} {{ a: u8 }} #[derive(Tag)] struct T{i};" for i in range(20)), True))
    return out


def library():
    d, out = driver.cargo("chk0", ["-p", "division_ecs", "--lib"], ["--message-format=json"])
    found = None
    for l in out.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "division_ecs":
                found = [f for f in m["filenames"] if f.endswith(".rlib")][0]
    return found, os.path.join(d, "deps")


def accepted(lib, deps, source, folder):
    """(does it compile?, the compiler's first error)"""
    f = os.path.join(folder, "item.rs")
    with open(f, "w") as h:
        h.write(source)
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--cap-lints", "allow",
                        "--out-dir", folder, "--extern", "division_ecs=" + lib, "-L", "dependency=" + deps, f]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=driver.env(), timeout=120)
    except subprocess.TimeoutExpired:
        return False, "the compiler does not end"
    first = [l for l in r.stderr.splitlines() if l.startswith("error")]
    if r.returncode not in (0, 1):
        raise driver.NoAnswer(f"the compiler ended with status {r.returncode}: {r.stderr[-500:]}")
    return r.returncode == 0, first[0] if first else ""


def judge(lib, deps, p):
    folder = tempfile.mkdtemp(prefix="ecsmc-shape-")
    try:
        got, err = accepted(lib, deps, p[1], folder)
    finally:
        shutil.rmtree(folder)
    return None if got == p[2] else ("is accepted by the compiler" if got else f"is rejected by the compiler ({err})")


def check(tier, t0):
    lib, deps = library()
    ps = programs(tier)
    bad, done, ok = None, 0, 0
    with cf.ThreadPoolExecutor(8) as ex:
        for p, v in zip(ps, ex.map(lambda p: judge(lib, deps, p), ps)):
            done += 1
            ok += p[2]
            if v and not bad:
                bad = dict(property="P27", tier=tier, flavour="compiler", job="shapes", spec=p[1],
                           expect=p[2], history=p[0], what=v, again="")
    cover = dict(states=len(ps), transitions=done, traces_validated_against_impl=done, must_compile=ok, must_not_compile=done - ok,
                 samples=[ps[1][0], ps[len(ps) // 2][0], ps[-1][0]], exhaustive=True,
                 rule="every program is one item shape with one derive, given to the compiler with the macros built from /repo")
    driver.write_evidence("P27", tier, cover, ["shapes larger than the enumerated ones are not compiled"], t0, 1 if bad else 0)
    for l in driver.known("P27"):
        print("KNOWN-FINDING:", l[len("finding: "):])
    print(f"P27 {tier}: {done} programs ({ok} to be accepted), {time.time() - t0:.0f} s")
    return driver.report(bad)


def replay(v):
    lib, deps = library()
    r = judge(lib, deps, (v["history"], v["spec"], v["expect"]))
    print(v["history"], r or "as it should be")
    print("VIOLATED" if r else "HELD")
    return 1 if r else 0
