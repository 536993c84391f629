"""C05: sparse and dense simulation agree (with each other and with the reference)."""
from __future__ import annotations

import numpy as np

from .. import gen, ref
from .C01 import grid
from .common import circuit_features, shape_of, val_form

CASES = {"quick": 420, "thorough": 9000}
FLOOR = {"distinct": 200, "run.sparse": 150, "C05.state": 150, "C05.tensor": 150, "C05.expectation": 80}
RULE = (
    "systematic: every gate, every placement on 2-3 qubits, sparse; random: sparse circuits on "
    "sparse states of any norm, sparse tensors of nested compositions on random full supports, sparse "
    "expectations of nested observables. Compared with the dense run and the numpy reference. "
    "Distinct by (kind, n, operations, state, values)."
)
ASSUMPTIONS = ["noise and density matrices are not supported in sparse mode (documented)"]


def state(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 3, 4] if tier == "quick" else [1, 2, 3, 3, 4, 5])
    ops = gen.nest(rng, gen.rgates(rng, n, 1, 8, maxc=4), n)
    return dict(kind="state", n=n, ops=ops, st=gen.rstate(rng, n), vals=gen.rvalues(rng, gen.names_of(ops)), vf=val_form(rng), mag=gen.mag(rng))


def tensor(rng, tier):
    n = rng.choice([1, 2, 3, 3, 3, 4])
    op = gen.rop(rng, n, depth=rng.randint(0, 2))
    sup = gen.support(op)
    full = sorted(set(sup) | set(q for q in range(n) if rng.random() < 0.5))
    return dict(kind="tensor", n=n, op=op, full=full if rng.random() < 0.7 else None, vals=gen.rvalues(rng, gen.names_of(op), special=0.1), vf=val_form(rng))


def expval(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    ops = gen.rgates(rng, n, 1, 6)
    obs = gen.robslist(rng, n, rng.randint(1, 3))
    names = gen.names_of(ops) + gen.names_of(obs)
    return dict(kind="exp", n=n, ops=ops, obs=obs, st=gen.rstate(rng, n), vals=gen.rvalues(rng, names, special=0.1), vf=val_form(rng), mode=rng.choice(["ad", "adjoint", "gpsr"]))


FAMILIES = [("state", 5, state), ("tensor", 3, tensor), ("expectation", 2, expval)]


def systematic(tier):
    return [
        dict(grid=g, n=n, k=2 if g in gen.FIX2 else 1, family="grid")
        for g in gen.FIX1 + gen.PAR1 + gen.FIX2
        for n in (2, 3)
    ]


def dense(x):
    return np.asarray(x.todense())


def check(case, mon):
    import horqrux
    from jax.experimental.sparse import BCOO

    if "grid" in case:
        n = case["n"]
        for i, j in enumerate(grid(case)):
            if i % 2:
                continue
            one_state(dict(n=n, ops=[j], st={"k": "rand", "n": n, "s": i}, vals={"a": 0.8}, vf="f"), mon)
        return
    n, vals = case["n"], case["vals"]
    lv = gen.lib_values(vals, case["vf"])
    if case["kind"] == "state":
        one_state(case, mon)
    elif case["kind"] == "tensor":
        op, full = case["op"], case["full"]
        a = mon.call("tensor.dense", lambda: gen.build(op).tensor(lv, tuple(full) if full is not None else None))
        b = mon.call("tensor.sparse", lambda: gen.build(op, sparse=True).tensor(lv, tuple(full) if full is not None else None))
        mon.check(isinstance(b, BCOO), "C05.type", lambda: f"tensor of a sparse operation is {type(b)}")
        tol = 1e-9 * max(1.0, float(np.abs(np.asarray(a)).max()))
        mon.close("C05.tensor", dense(b), a, tol, "sparse tensor")
        if full is None:
            full = gen.support(op)
        pos = {q: i for i, q in enumerate(full)}
        want = ref.op_matrix(relabel(op, pos), vals, len(full))
        mon.close("C05.tensor", dense(b), want, tol, "sparse tensor (reference)")
        mon.sig("tensor", n, op, full, vals)
    else:
        ops, obs = case["ops"], case["obs"]
        mode = horqrux.DiffMode(case["mode"])
        want = np.array([ref.expect(ref.evolve(ops, gen.np_state(case["st"]), vals, n), o, vals, n) for o in obs])
        a = mon.call("expectation.dense", lambda: horqrux.expectation(gen.lib_state(case["st"]), gen.circuit(ops, n), [gen.build(o) for o in obs], lv, mode))
        b = mon.call("expectation.sparse", lambda: horqrux.expectation(gen.lib_state(case["st"], True), gen.circuit(ops, n, True), [gen.build(o, True) for o in obs], lv, mode))
        b = b.todense() if isinstance(b, BCOO) else b
        tol = 1e-9 * max(1.0, float(np.abs(want).max()))
        mon.close("C05.expectation", np.asarray(b).reshape(-1), np.asarray(a).reshape(-1), tol, "sparse expectation")
        mon.close("C05.expectation", np.asarray(b).reshape(-1), want, tol, "sparse expectation (reference)")
        mon.sig("exp", n, ops, obs, case["st"], vals)
        mon.tag("mode:" + case["mode"])


def relabel(j, pos):
    if "g" in j:
        return {**j, "t": [pos[q] for q in j["t"]], "c": [pos[q] for q in j["c"]] if j.get("c") else None}
    return {**j, "ops": [relabel(s, pos) for s in j["ops"]]}


def one_state(case, mon):
    import horqrux
    from jax.experimental.sparse import BCOO

    n, ops, vals = case["n"], case["ops"], case["vals"]
    lv = gen.lib_values(vals, case["vf"])
    v0 = gen.np_state(case["st"])
    want = ref.apply_op({"op": "seq", "ops": ops}, v0, vals, n).reshape(shape_of(n))
    m = case.get("mag", 1.0)
    a = mon.call("run.dense", lambda: horqrux.run(gen.circuit(ops, n), m * gen.lib_state(case["st"]), lv))
    b = mon.call("run.sparse", lambda: horqrux.run(gen.circuit(ops, n, True), m * gen.lib_state(case["st"], True), lv))
    mon.check(isinstance(b, BCOO), "C05.type", lambda: f"running sparse gates on a sparse state returned {type(b)}")
    mon.close("C05.state", dense(b) / m, np.asarray(a) / m, 1e-10, "sparse state")
    mon.close("C05.state", dense(b) / m, want, 1e-10, "sparse state (reference)")
    mon.tag(f"qubits:{n}", *circuit_features(ops))
    if np.abs(want.reshape(-1) - v0).max() > 1e-6:
        mon.sig("state", n, ops, case["st"], vals)
