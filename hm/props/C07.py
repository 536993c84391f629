"""C07: tensor representations agree with the action on states."""
from __future__ import annotations

import itertools

import numpy as np

from .. import gen, ref
from .C05 import relabel
from .common import val_form

CASES = {"quick": 1500, "thorough": 25000}
FLOOR = {"distinct": 400, "tensor": 400, "C07.tensor": 400, "C07.action": 300}
RULE = (
    "systematic: every gate and placement on 3 qubits of non-contiguous labels, on every superset "
    "support; random: nested operations (sequences, sums, scalings, observables, circuits) on "
    "random labels up to 11, in any units, with random, permuted full supports, or none. Compared with the "
    "reference matrix and with the library's action on states. Distinct by (operation, support, values)."
)
ASSUMPTIONS = [
    "a full support is read as a set: the result is laid out with qubits in increasing order",
]


def one(rng, depth, n, hi=3):
    op = gen.rop(rng, n, depth=depth) if depth else gen.rgate(rng, n, maxc=4)
    return op


def nested(rng, tier):
    n = rng.choice([1, 2, 3, 3, 4])
    op = one(rng, rng.randint(1, 3), n)
    return finish(rng, op, n)


def gate(rng, tier):
    n = rng.choice([1, 2, 3, 4, 5])
    op = one(rng, 0, n)
    return finish(rng, op, n)


def observable(rng, tier):
    n = rng.choice([1, 2, 3, 4])
    return finish(rng, gen.robs(rng, n, names=["o1", "o2"]), n)


def manyq(rng, tier):
    """Compositions whose gates touch many qubits, in scrambled order."""
    n = rng.randint(6, 8)
    qs = rng.sample(range(n), n)
    ops = [{"g": rng.choice(["X", "Y", "H", "S"]), "t": [q], "c": None} for q in qs]
    ops += gen.rgates(rng, n, 1, 2)
    k = rng.choice(["seq", "add", "circ", "obs"])
    if k == "obs":
        ops = [o for o in ops if o["g"] in gen.HERM1]
    return finish(rng, {"op": k, "ops": ops, "n": n}, n, labels=False)


def finish(rng, op, n, labels=True):
    f = gen.mag(rng)
    if f != 1.0 and op.get("op") in ("seq", "add", "scale"):
        op = {"op": "scale", "f": f, "ops": [op]}
    elif f != 1.0 and op.get("op") == "obs":
        op = gen.in_units([op], [f])[0][0]
    else:
        f = 1.0
    vals = gen.rvalues(rng, gen.names_of(op), special=0.15)
    if labels and rng.random() < 0.5:
        new = rng.sample(range(12), n)
        op = relabel(op, dict(enumerate(new)))
    sup = gen.support(op)
    full = None
    if rng.random() < 0.75:
        extra = [q for q in range(12) if q not in sup]
        k = rng.randint(0, max(0, min(2, 6 - len(sup))))
        full = sup + rng.sample(extra, k)
        if rng.random() < 0.5:
            rng.shuffle(full)
        else:
            full.sort()
    return dict(op=op, full=full, vals=vals, vf=val_form(rng), mag=f)


FAMILIES = [("nested", 4, nested), ("gate", 4, gate), ("observable", 2, observable), ("many-qubits", 0.6, manyq)]


def systematic(tier):
    return [dict(grid=g, family="grid") for g in gen.FIX1 + gen.PAR1 + gen.FIX2]


def check(case, mon):
    if "grid" in case:
        k = 2 if case["grid"] in gen.FIX2 else 1
        labels = (1, 4, 6)
        for t in itertools.permutations(labels, k):
            rest = [q for q in labels if q not in t]
            for m in range(len(rest) + 1):
                for c in itertools.permutations(rest, m):
                    j = {"g": case["grid"], "t": list(t), "c": list(c) or None, "tf": "t"}
                    if case["grid"] in gen.PAR1:
                        j["p"] = 1.234
                    for full in (None, labels, (0,) + labels, labels + (5,)):
                        judge(dict(op=j, full=full and list(full), vals={}, vf="f"), mon, False)
        return
    judge(case, mon, True)


def judge(case, mon, action):
    import jax.numpy as jnp

    op, vals = case["op"], case["vals"]
    lv = gen.lib_values(vals, case["vf"])
    lib = mon.call("build", gen.build, op)
    full = case["full"]
    got = mon.call("tensor", lib.tensor, lv, tuple(full) if full is not None else None)
    bare_multi = "g" in op and full is None
    sup = sorted(full) if full is not None else gen.support(op)
    pos = {q: i for i, q in enumerate(sup)}
    m = len(sup)
    rel = relabel(op, pos)
    u = case.get("mag", 1.0)
    want = ref.op_matrix(rel, vals, m) / u
    tol = 1e-10 * max(1.0, float(np.abs(want).max()))
    mon.close("C07.tensor", np.asarray(got) / u, want, tol, f"tensor on {full if full is not None else 'its own support'}")
    if action and m <= 6:
        # the library's own action on the columns of a random unitary-ish set of states
        r = np.random.default_rng(len(str(op)))
        for _ in range(2):
            v = r.normal(size=2**m) + 1j * r.normal(size=2**m)
            obj = gen.build(rel)
            fn = obj.forward if rel.get("op") == "obs" else obj
            out = mon.call("action", fn, jnp.asarray(v.reshape((2,) * m)), lv)
            mon.close("C07.action", np.asarray(out).reshape(-1) / u, np.asarray(got) @ v / u, tol * 100, "action against tensor")
    mon.tag(f"support:{m}", "own-support" if bare_multi or full is None else "full-support", "op:" + op.get("op", "gate"))
    if np.abs(want - np.eye(2**m)).max() > 1e-6:
        mon.sig(op, full, vals)
