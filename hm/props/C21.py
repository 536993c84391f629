"""C21: daggers invert gates and jacobians are their derivatives."""
from __future__ import annotations

import numpy as np

from .. import gen, ref
from .C06 import build, shifted
from .common import circuit_features, shape_of, val_form

CASES = {"quick": 800, "thorough": 14000}
FLOOR = {"distinct": 300, "dagger": 300, "C21.restored": 250, "C21.dagger": 300, "jacobian": 150, "C21.jacobian": 150, "C21.derivative": 150}
RULE = (
    "random circuits over all gates (any placement of targets and controls, named, constant and "
    "shifted angles) on vectors, density matrices and sparse states, undone gate by gate and as a "
    "whole with the dagger operation, grouped and merged or not; daggers of every gate against its "
    "unitary and the reference; jacobians of every parametric gate, dense and sparse, plain, "
    "compiled and through apply_gates, against the analytic derivative. Non-trivial: the circuit "
    "changes the state / the derivative is not zero. Distinct by program."
)
ASSUMPTIONS = ["the jacobian operation is claimed for gates applied to state vectors (one parametric gate at a time, or products of them)"]


def add_shift(rng, ops, p=0.2):
    for g in ops:
        if g["g"] in ("RX", "RY", "RZ") and rng.random() < p:
            g["shift"] = rng.uniform(-3, 3)
    return ops


def restore(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    r = rng.random()
    kind = "sparse" if r < 0.12 else "density" if r < 0.4 else "vector"
    if kind == "sparse":
        n = min(n, 3)
    ops = gen.rgates(rng, n, 1, 4 if kind == "sparse" else 9)
    if kind != "sparse":
        add_shift(rng, ops)
    return dict(
        kind=kind, n=n, ops=ops, st=gen.rdm(rng, n) if kind == "density" else gen.rstate(rng, n),
        vals=gen.rvalues(rng, gen.names_of(ops)), vf=val_form(rng), group=rng.random() < 0.3, merge=rng.random() < 0.7,
        single=rng.random() < 0.4,
    )


def jac(rng, tier):
    n = rng.choice([1, 2, 2, 3, 4])
    kind = "sparse" if rng.random() < 0.15 else "vector"
    pool = ["RX", "RY", "RZ"] if kind == "sparse" else gen.PAR1
    ops = gen.rgates(rng, n, 1, 1 if rng.random() < 0.6 else 3, pool=pool, pctrl=0.5)
    add_shift(rng, ops, 0.25 if kind == "vector" else 0)
    return dict(kind=kind, jac=True, n=n, ops=ops, st=gen.rstate(rng, n), vals=gen.rvalues(rng, gen.names_of(ops)), vf=val_form(rng), jit=rng.random() < 0.15, alist=rng.random() < 0.5)


FAMILIES = [("restore", 5, restore), ("jacobian", 4, jac)]


def systematic(tier):
    for g in gen.FIX1 + gen.FIX2 + gen.PAR1:
        for sparse in (False, True):
            yield dict(kind="grid", g=g, sparse=sparse, family="grid")


def den(x):
    from jax.experimental.sparse import BCOO

    return np.asarray(x.todense() if isinstance(x, BCOO) else x)


def grid(case, mon):
    g = case["g"]
    k = 2 if g in gen.FIX2 else 1
    for p in [0.0, 0.3, -2.1, 3.14159, 6.5, 40.0] if g in gen.PAR1 else [None]:
        for named in (False, True) if p is not None else (False,):
            j = {"g": g, "t": list(range(k)), "c": None, "tf": "t"}
            vals = {}
            if p is not None:
                j["p"] = "a" if named else p
                vals = {"a": p} if named else {}
            lib = gen.build(j, case["sparse"])
            u = ref.gate_matrix(g, p)
            shape = (2**k, 2**k)
            d = den(mon.call("dagger", lib.dagger, vals)).reshape(shape)
            mon.close("C21.dagger", d, u.conj().T, 1e-10, f"dagger of {g}({p})")
            mon.close("C21.dagger", d @ den(lib._unitary(vals)).reshape(shape), np.eye(2**k), 1e-10, "dagger times unitary")
            if p is not None:
                J = den(mon.call("jacobian", lib.jacobian, vals)).reshape(shape)
                mon.close("C21.jacobian", J, ref.gate_jacobian(g, p), 1e-10, f"jacobian of {g}({p})")
    mon.sig(case)


def check(case, mon):
    import horqrux
    import jax
    import jax.numpy as jnp
    from horqrux.utils.conversion import to_sparse
    from horqrux.utils.operator_utils import DensityMatrix, OperationType

    if case["kind"] == "grid":
        return grid(case, mon)
    n, ops, vals = case["n"], case["ops"], case["vals"]
    lv = gen.lib_values(vals, case["vf"])
    gates = [build(g) for g in ops]
    rops, rvals = [], dict(vals)
    for g in ops:
        r, extra = shifted(g)
        rops.append(r)
        rvals.update({k: vals[p] + s for k, (p, s) in extra.items()})
    st0 = gen.np_any(case["st"])
    st = gen.lib_any(case["st"])
    if case["kind"] == "sparse":
        st, gates = to_sparse(st), [to_sparse(g) for g in gates]
    arr = lambda x: den(x.array if isinstance(x, DensityMatrix) else x)
    shp = shape_of(n, case["kind"] == "density")
    if "jac" not in case:
        kw = dict(group_gates=case["group"], merge_ops=case["merge"])
        out = mon.call("apply", horqrux.apply_gates, st, gates, lv, **kw)
        fwd = ref.evolve_dm(rops, st0, rvals, n) if st0.ndim == 2 else ref.evolve(rops, st0, rvals, n)
        mon.close("C21.forward", arr(out), fwd.reshape(shp), 1e-9, "evolved state")
        if case["single"]:
            back = out
            for g in reversed(gates):
                back = mon.call("dagger", horqrux.apply_gates, back, g, lv, OperationType.DAGGER)
        else:
            back = mon.call("dagger", horqrux.apply_gates, out, gates[::-1], lv, OperationType.DAGGER, **kw)
        mon.check(type(back) is type(out), "C21.type", lambda: f"{type(back)} from {type(out)}")
        mon.close("C21.restored", arr(back), st0.reshape(shp), 1e-9, "state after undoing the circuit")
        # the dagger alone, on another state than the evolved one
        d = mon.call("dagger", horqrux.apply_gates, st, gates[0], lv, OperationType.DAGGER)
        u = ref.op_matrix(rops[0], rvals, n).conj().T
        want = u @ st0 if st0.ndim == 1 else u @ st0 @ u.conj().T
        mon.close("C21.dagger", arr(d), want.reshape(shp), 1e-9, f"dagger of {ops[0]}")
        if np.abs(fwd - st0).max() > 1e-6:
            mon.sig(case["kind"], n, ops, case["st"], vals)
    else:
        for g, r in zip(gates, rops):
            th = ref.angle(r["p"], rvals)
            f = jax.jit(g.jacobian) if case["jit"] else g.jacobian
            J = den(mon.call("jacobian", f, lv)).reshape(2, 2)
            mon.close("C21.jacobian", J, ref.gate_jacobian(r["g"], th), 1e-9, f"jacobian of {r}")
        got = mon.call("jacobian", horqrux.apply_gates, st, gates if case["alist"] or len(gates) > 1 else gates[0], lv, OperationType.JACOBIAN)
        want = st0
        for r in rops:
            want = ref.apply_matrix(ref.gate_jacobian(r["g"], ref.angle(r["p"], rvals)), r["t"], r.get("c") or [], want, n, block_only=True)
        mon.close("C21.derivative", den(got).reshape(-1), want, 1e-9, "state after the jacobian operation")
        if np.abs(want).max() > 1e-6:
            mon.sig("jac", case["kind"], n, ops, case["st"], vals)
    mon.tag("state:" + case["kind"], *circuit_features(ops))
    if any("shift" in g for g in ops):
        mon.tag("shifted-angle")
