"""P34: the listing macros, in every context and with every list of types up to a length, through the compiler.

Every context is a program of its own; in it, every list is compared, element by element, with the list it was made
from. A context that does not compile is a violation like one that answers wrongly: the same program with the lists
written out by hand compiles."""
import concurrent.futures as cf
import itertools, json, os, shutil, subprocess, tempfile, time

import check as driver
import shapes

TYPES = ["A", "B", "C", "D", "E"]
WIDE = [f"W{i}" for i in range(12)]
ITEMS = """
    #[derive(Clone, Copy)] pub struct A { pub a: u8 }
    #[derive(Clone, Copy)] pub struct B(pub u64, pub u64);
    #[derive(Clone, Copy)] pub struct C;
    #[derive(Clone)] pub struct D { pub v: Vec<u8> }
    #[derive(Clone, Copy)] #[repr(align(64))] pub struct E { pub a: u8 }
""" + "".join(f"    #[derive(Clone, Copy)] pub struct W{i} {{ pub a: [u16; {i + 1}] }}\n" for i in range(12))

CHECK = """
mod judge {
    use core::any::TypeId;
    pub type Want = (TypeId, usize, usize, &'static str);
    pub fn of<T: 'static>() -> Want {
        (TypeId::of::<T>(), core::mem::size_of::<T>(), core::mem::align_of::<T>(), core::any::type_name::<T>())
    }
    pub fn types(list: &str, got: &[division_ecs::ComponentType], want: &[Want]) {
        let got: Vec<Want> = got.iter().map(|c| (c.id(), c.size(), c.align(), c.name())).collect();
        if got != want { println!("component_types!({list}) is {got:?} instead of {want:?}"); std::process::exit(3); }
    }
    pub fn ids(list: &str, got: &[TypeId], want: &[Want]) {
        let want: Vec<TypeId> = want.iter().map(|w| w.0).collect();
        if got != want { println!("type_ids!({list}) is {got:?} instead of {want:?}"); std::process::exit(3); }
    }
}
"""


def lists(tier):
    top = 4 if tier == "thorough" else 3
    out = [l for n in range(top + 1) for l in itertools.product(TYPES, repeat=n)]
    for n in range(2, 13):
        for k in range(12 if tier == "thorough" else 3):
            r = [WIDE[(i + k) % 12] for i in range(n)]
            out += [tuple(r), tuple(reversed(r))]
    out += [tuple(["A"] * n) for n in (5, 13, 40)] + [tuple(WIDE + TYPES + WIDE)]
    return out


# name -> (what stands before the macro's name, the program around the statements; by hand: how the list is written out)
CONTEXTS = {
    "by their full path, nothing imported": ("division_ecs::", ITEMS + CHECK + "fn main() {{\n{}\n}}"),
    "with everything imported": ("", "use division_ecs::*;" + ITEMS + CHECK + "fn main() {{\n{}\n}}"),
    "imported by name": ("", "use division_ecs::{{component_types, type_ids}};" + ITEMS + CHECK + "fn main() {{\n{}\n}}"),
    "in a module": ("division_ecs::", "mod m {{" + ITEMS + "pub fn f() {{\n{}\n}} }}" + CHECK + "fn main() {{ m::f() }}"),
    "in a module of a module, imported": ("", "mod m {{ pub mod n {{ use division_ecs::*;" + ITEMS + "pub fn f() {{\n{}\n}} }} }}" + CHECK + "fn main() {{ m::n::f() }}"),
    "inside a function with its own types": ("division_ecs::", CHECK + "fn main() {{" + ITEMS + "\n{}\n}}"),
    "next to own items of the library's names": ("division_ecs::", "#[allow(dead_code)] pub struct ComponentType; #[allow(dead_code)] pub struct TypeId; pub mod macros {{}}" + ITEMS + CHECK + "fn main() {{\n{}\n}}"),
    "through a macro of one's own": ("division_ecs::", ITEMS + CHECK + "macro_rules! mine {{ ($($t:tt)*) => {{ $($t)* }} }}\nfn main() {{ mine! {{\n{}\n}} }}"),
}


def escape(t):
    return t.replace("{", "{{").replace("}", "}}")


def render(context, ls, by_hand=False):
    before, text = CONTEXTS[context]
    # the braces of the pieces are literal, only those written twice in the contexts are not
    text = text.replace("{{", "\0").replace("}}", "\1").replace("\n{}\n", "\2").replace("{", "\0").replace("}", "\1")
    rows = []
    for l in ls:
        named = ", ".join(l)
        want = "&[" + ", ".join(f"crate::judge::of::<{t}>()" for t in l) + "]"
        if by_hand:
            types = "[" + ", ".join(f"division_ecs::ComponentType::of::<{t}>()" for t in l) + "]"
            ids = "[" + ", ".join(f"core::any::TypeId::of::<{t}>()" for t in l) + "]"
        else:
            types, ids = f"{before}component_types!({named})", f"{before}type_ids!({named})"
        rows.append(f'crate::judge::types("{named}", &{types}, {want});')
        rows.append(f'crate::judge::ids("{named}", &{ids}, {want});')
    text = text.replace("\2", "\n" + "\n".join(rows) + "\n")
    return "#![allow(dead_code, unused_imports)]\n" + text.replace("\0", "{").replace("\1", "}")


GENERIC = CHECK + "{}" + """
fn one<T: 'static>() {
    judge::types("T", &division_ecs::component_types!(T), &[judge::of::<T>()]);
    judge::ids("T", &division_ecs::type_ids!(T), &[judge::of::<T>()]);
}
fn two<T: 'static, U: 'static>() {
    judge::types("T, U", &division_ecs::component_types!(T, U), &[judge::of::<T>(), judge::of::<U>()]);
    judge::ids("U, T, U", &division_ecs::type_ids!(U, T, U), &[judge::of::<U>(), judge::of::<T>(), judge::of::<U>()]);
}
fn main() {
"""


def programs(tier):
    """(description, source, number of lists)"""
    ls = lists(tier)
    for c in CONTEXTS:
        # the lists in parts, so that compiling goes in parallel
        n = 8 if tier == "thorough" else 2
        for i in range(n):
            part = ls[i::n]
            yield f"the macros {c}, part {i + 1} of {n}", render(c, part), len(part), render(c, part, True)
    body = "\n".join(f"one::<{t}>();" for t in TYPES) + "\n".join(f"two::<{t}, {u}>();" for t in TYPES for u in TYPES) + "\n}"
    src = "#![allow(dead_code)]\n" + GENERIC.replace("{}", ITEMS, 1) + body
    yield "the macros with type parameters", src, 30, None


def run(lib, deps, source, folder):
    """None, or what is wrong with the program"""
    f, exe = os.path.join(folder, "item.rs"), os.path.join(folder, "item")
    with open(f, "w") as h:
        h.write(source)
    cmd = ["rustc", "--edition", "2021", "--cap-lints", "allow", "-C", "debuginfo=0", "-o", exe, "--extern", "division_ecs=" + lib, "-L", "dependency=" + deps, f]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=driver.env(), timeout=200)
    except subprocess.TimeoutExpired:
        return "the compiler does not end"
    if r.returncode not in (0, 1):
        raise driver.NoAnswer(f"the compiler ended with status {r.returncode}: {r.stderr[-500:]}")
    if r.returncode:
        first = [l for l in r.stderr.splitlines() if l.startswith("error")]
        return f"the program does not compile ({first[0] if first else r.stderr[:200]})"
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60)
    except subprocess.TimeoutExpired:
        return "the program does not end"
    if r.returncode:
        return (r.stdout or r.stderr or f"the program ends with status {r.returncode}").strip()[:400]
    return None


def judge(lib, deps, source, by_hand):
    folder = tempfile.mkdtemp(prefix="ecsmc-macro-")
    try:
        v = run(lib, deps, source, folder)
        if v and by_hand and "does not compile" in v:
            w = run(lib, deps, by_hand, folder)
            if w:
                raise driver.NoAnswer(f"the program does not compile with the lists written out either: {w}")
        return v
    finally:
        shutil.rmtree(folder)


def check(tier, t0):
    lib, deps = shapes.library()
    ps = list(programs(tier))
    bad, n = None, 0
    with cf.ThreadPoolExecutor(8) as ex:
        for p, v in zip(ps, ex.map(lambda p: judge(lib, deps, p[1], p[3]), ps)):
            n += p[2]
            if v and not bad:
                bad = dict(property="P34", tier=tier, flavour="compiler", job="macros", spec=p[1], hand=p[3], history=p[0], what=v, again="")
    cover = dict(states=n, transitions=2 * n, traces_validated_against_impl=n, programs=len(ps), contexts=len(CONTEXTS) + 1,
                 samples=[p[0] for p in ps[:3]], exhaustive=True,
                 rule="every list of types up to a length, in every context, given to both macros of /repo and compared with the list written out")
    driver.write_evidence("P34", tier, cover, ["lists longer than the enumerated ones are not compiled"], t0, 1 if bad else 0)
    for l in driver.known("P34"):
        print("KNOWN-FINDING:", l[len("finding: "):])
    print(f"P34 {tier}: {n} lists in {len(ps)} programs, {time.time() - t0:.0f} s")
    return driver.report(bad)


def replay(v):
    lib, deps = shapes.library()
    r = judge(lib, deps, v["spec"], v.get("hand"))
    print(v["history"], r or "as it should be")
    print("VIOLATED" if r else "HELD")
    return 1 if r else 0
