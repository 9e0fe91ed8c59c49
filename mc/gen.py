#!/usr/bin/env python3
"""Writes src/perms.rs (every tuple over four component types, every pair over ten, some long ones) and src/bin/tuples/list.rs (tuples of every length)."""
import itertools, os
here = os.path.dirname(os.path.abspath(__file__))

def t(ids, p):
    return f"{p}{ids[0]}" if len(ids) == 1 else "(" + ", ".join(f"{p}{i}" for i in ids) + ")"

with open(f"{here}/src/perms.rs", "w") as f:
    f.write("//! Written by gen.py: every tuple of distinct types over K0..K3, every pair over K0..K9, and longer ones.\nuse crate::arch::*;\nuse crate::comps::{tup, TupOps};\n\npub fn all() -> Vec<TupOps> {\n    vec![\n")
    for n in range(1, 5):
        for p in itertools.permutations(range(4), n):
            f.write(f"        tup::<{t(p, 'K')}>(),\n")
    for p in itertools.permutations(range(10), 2):
        if max(p) > 3:
            f.write(f"        tup::<{t(p, 'K')}>(),\n")
    ten = list(range(10))
    for o in (ten, ten[::-1], ten[5:] + ten[:5], ten[0::2] + ten[1::2], ten[1::2] + ten[0::2]):
        f.write(f"        tup::<{t(o, 'K')}>(),\n")
        f.write(f"        tup::<{t([x for x in o if x >= 5], 'K')}>(),\n")
    f.write("    ]\n}\n")

def orders(n):
    """Orders of n types out of twelve."""
    if n == 1:
        return [[i] for i in range(12)]
    if n == 2:
        return [list(p) for a in range(0, 12, 2) for p in itertools.permutations([a, a + 1])] + [[0, 11], [11, 3]]
    if n <= 4:
        return [list(p) for p in itertools.permutations(range(n))]
    first = list(range(n))
    last = list(range(12 - n, 12))
    out = [first, last[::-1], first[1:] + first[:1], last[n // 2:] + last[:n // 2],
           first[-1:] + first[1:-1] + first[:1], last[0::2] + last[1::2], last[1:2] + last[:1] + last[2:]]
    uniq = []
    for o in out:
        if o not in uniq:
            uniq.append(o)
    return uniq

with open(f"{here}/src/bin/tuples/list.rs", "w") as f:
    f.write("//! Written by gen.py: tuples of one to twelve types in many orders.\nuse super::*;\n\npub fn all() -> Vec<Case> {\n    vec![\n")
    for n in range(1, 13):
        for o in orders(n):
            if n == 1:
                f.write(f"        one::<{t(o, 'C')}>(),\n")
            else:
                k = 1 + (o[0] + n // 3) % (n - 1)
                f.write(f"        many::<{t(o, 'C')}, {t(o[:k], 'C')}, {t(o[k:], 'C')}>(),\n")
    f.write("    ]\n}\n")
