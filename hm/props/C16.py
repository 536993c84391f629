"""C16: grouping and merging gates never change results."""
from __future__ import annotations

import itertools

import numpy as np

from .. import gen, ref
from .C06 import describe
from .common import circuit_features, shape_of, val_form

CASES = {"quick": 620, "thorough": 10000}
FLOOR = {"distinct": 250, "apply_gates": 1500, "group_by_index": 400, "C16.state": 1500}
RULE = (
    "random gate lists biased to runs on the same qubits (mergeable gates, equal targets with other "
    "controls, other target order, noisy gates in between), on vectors, density matrices and sparse "
    "vectors, applied with all four option combinations and as lists, tuples and after grouping; "
    "grouping must return the same multiset of gates and leave its input alone. Non-trivial: a mergeable or groupable pair. Distinct by program."
)


def runs(rng, n, lo, hi, pnoise=0.0):
    """Gate lists in which neighbours often share targets or controls."""
    m = rng.randint(lo, hi)
    ops = []
    for _ in range(m):
        prev = rng.choice(ops[-3:]) if ops else None
        g = gen.rgate(rng, n, names=["a", "b", "theta"], pnoise=pnoise, prev=prev)
        r = rng.random()
        if prev and r < 0.25 and len(prev["t"]) == len(g["t"]):  # same targets, other controls
            g["t"] = list(prev["t"])
            free = [q for q in range(n) if q not in g["t"]]
            g["c"] = rng.sample(free, rng.randint(0, len(free))) or None
        elif prev and r < 0.35 and prev["c"] and len(g["t"]) == 1:  # control becomes target
            g["t"], g["c"] = [prev["c"][0]], [prev["t"][0]]
        if g["c"] and g.get("noise"):
            g.pop("noise")
        ops.append(g)
    return ops


def base(rng, n, ops, st, kind):
    return dict(kind=kind, n=n, ops=ops, st=st, vals=gen.rvalues(rng, gen.names_of(ops)), vf=val_form(rng), tup=rng.random() < 0.3)


def vector(rng, tier):
    n = rng.choice([1, 2, 3, 3, 4, 5])
    return base(rng, n, runs(rng, n, 2, 14), gen.rstate(rng, n), "vector")


def mixed(rng, tier):
    n = rng.choice([1, 2, 3, 4])
    return base(rng, n, runs(rng, n, 2, 10), gen.rdm(rng, n), "dm")


def noisy(rng, tier):
    n = rng.choice([1, 2, 3])
    st = gen.rdm(rng, n) if rng.random() < 0.5 else gen.rstate(rng, n)
    return base(rng, n, runs(rng, n, 2, 8, pnoise=rng.choice([0.2, 0.6])), st, "noisy")


def sparse(rng, tier):
    n = rng.choice([1, 2, 3])
    return base(rng, n, runs(rng, n, 2, 4), gen.rstate(rng, n), "sparse")


FAMILIES = [("vector", 5, vector), ("mixed", 3, mixed), ("noisy", 3, noisy), ("sparse", 0.5, sparse)]


def check(case, mon):
    import horqrux
    from horqrux.apply import group_by_index
    from jax.experimental.sparse import BCOO

    n, ops, vals, kind = case["n"], case["ops"], case["vals"], case["kind"]
    sp = kind == "sparse"
    gates = [gen.build(g, sp) for g in ops]
    # the list may contain the same object several times
    if len(gates) > 2 and len(ops) % 4 == 0 and not sp:
        gates.append(gates[0])
        ops = ops + [ops[0]]
    lv = gen.lib_values(vals, case["vf"])
    st0 = gen.np_any(case["st"])
    want = ref.evolve(ops, st0, vals, n) if st0.ndim == 1 else ref.evolve_dm(ops, st0, vals, n)
    shape = shape_of(n, want.ndim == 2)
    st = gen.lib_state(case["st"], True) if sp else gen.lib_any(case["st"])
    seq = tuple(gates) if case["tup"] else gates
    before = list(gates)

    def same(got, what):
        if sp:
            mon.check(isinstance(got, BCOO), "C16.type", lambda: f"{type(got)}")
            got = got.todense()
        got = got.array if hasattr(got, "array") else got
        mon.close("C16.state", got, want.reshape(shape), 1e-9, what)

    combos = list(itertools.product([False, True], [False, True]))
    if sp:
        combos = combos[1:3]
    for i, (g, m) in enumerate(combos):
        s = seq if i % 2 else gen.iterable(gates, n, len(ops) + i)
        out = mon.call("apply_gates", horqrux.apply_gates, st, s, lv, group_gates=g, merge_ops=m)
        same(out, f"group_gates={g}, merge_ops={m}")
    if not sp:
        same(mon.call("apply_gates", horqrux.apply_gates, st, seq, lv), "default options")
    grouped = list(mon.call("group_by_index", group_by_index, seq))
    mon.check(len(gates) == len(before) and all(a is b for a, b in zip(gates, before)), "C16.pure", "grouping changed its input")
    key = lambda g: repr(describe(g))
    mon.check(sorted(map(key, grouped)) == sorted(map(key, gates)), "C16.multiset", lambda: f"grouping returned {grouped} for {gates}")
    if not sp:
        same(mon.call("apply_gates", horqrux.apply_gates, st, grouped, lv), "grouped list")
        again = list(group_by_index(grouped))
        same(mon.call("apply_gates", horqrux.apply_gates, st, again, lv, merge_ops=False), "list grouped twice")
    f = circuit_features(ops)
    moved = any(a is not b for a, b in zip(gates, grouped))
    mon.tag(kind, "regrouped" if moved else "order kept", *f)
    if moved or "mergeable-pair" in f:
        mon.sig(n, ops, case["st"], vals)

