"""C06: sparse/dense conversion preserves structure and meaning."""
from __future__ import annotations

import numpy as np

from .. import gen, ref
from .C05 import relabel
from .common import val_form

CASES = {"quick": 420, "thorough": 12000}
FLOOR = {"distinct": 200, "to_sparse": 200, "C06.meaning": 80, "C06.structure": 300}
RULE = (
    "random nested operations of depth up to 4 mixing gates (with noise, named/constant angles, "
    "controls), sequences, sums, scalings of one or several operations, observables and circuits "
    "with feature-map parameters, and random arrays; converted to sparse, back, and again. "
    "Distinct by (operation, values)."
)


def ops(rng, tier):
    n = rng.choice([1, 2, 3, 4])
    op = gen.rop(rng, n, depth=rng.randint(0, 4))
    return finish(rng, op, n)


def finish(rng, op, n):
    op = decorate(rng, op)
    return dict(
        n=n, op=op, vals=gen.rvalues(rng, gen.names_of(op), special=0.2), vf=val_form(rng),
        deep=rng.random() < 0.15,
    )


def decorate(rng, j):
    """Adds noise to gates, feature-map parameters to circuits, shifts to rotations."""
    if "g" in j:
        j = dict(j)
        if len(j["t"]) == 1 and rng.random() < 0.15:
            j["noise"] = [gen.rnoise(rng) for _ in range(rng.randint(1, 2))]
        if j["g"] in gen.PAR1 and rng.random() < 0.2:
            j["shift"] = rng.uniform(-2, 2)
        return j
    j = {**j, "ops": [decorate(rng, s) for s in j["ops"]]}
    if j["op"] == "circ":
        names = gen.names_of(j["ops"])
        j["fp"] = [x for x in names if rng.random() < 0.5]
    return j


def circuit(rng, tier):
    n = rng.choice([1, 2, 3, 4])
    op = {"op": "circ", "n": n + rng.choice([0, 0, 1]), "ops": gen.nest(rng, gen.rgates(rng, n, 0, 6, pnoise=0.1), n)}
    return finish(rng, op, n)


def observable(rng, tier):
    n = rng.choice([1, 2, 3])
    return finish(rng, gen.robs(rng, n, depth=3), n)


def array(rng, tier):
    return dict(array=rng.randrange(10**6), n=rng.randint(1, 6), fill=rng.choice([0.0, 0.1, 0.5, 1.0]), mat=rng.random() < 0.4, tiny=rng.random() < 0.5)


FAMILIES = [("operation", 5, ops), ("circuit", 2, circuit), ("observable", 2, observable), ("array", 1, array)]


def build(j, sparse=False):
    """As gen.build, with the shift of a rotation."""
    import dataclasses

    if "g" in j:
        g = gen.build(j, sparse)
        return dataclasses.replace(g, target=g.target[0], control=g.control[0], shift=j["shift"]) if "shift" in j and type(g).__name__ == "Parametric" else g
    shallow = gen.build({**j, "ops": [{"g": "X", "t": [0], "c": None}] * len(j["ops"])}) if j["op"] != "scale" else None
    kids = [build(s, sparse) for s in j["ops"]]
    if j["op"] == "scale":
        import horqrux

        return horqrux.Scale(kids[0] if len(kids) == 1 and not j.get("aslist") else kids, j["f"])
    if j["op"] == "circ":
        import horqrux

        return horqrux.QuantumCircuit(j["n"], kids, list(j.get("fp", [])))
    return type(shallow)(kids)


def describe(o, with_sparse=True):
    """Public structure of an operation."""
    from horqrux.composite import OpSequence, Scale
    from horqrux.primitives import Primitive
    from horqrux.circuit import QuantumCircuit

    if isinstance(o, Primitive):
        noise = None if o.noise is None else tuple((str(x.type), x.error_probability) for x in o.noise)
        d = [type(o).__name__, o.name, tuple(map(tuple, o.target)), tuple(q for c in o.control for q in (c or ()) if q is not None), noise, o.qubit_support]
        d += [getattr(o, "param", None), getattr(o, "shift", None)]
        return tuple(d + ([bool(o.sparse)] if with_sparse else []))
    assert isinstance(o, OpSequence), type(o)
    d = [type(o).__name__, o.qubit_support, frozenset(o.param_names)]
    if isinstance(o, Scale):
        d.append(o.parameter)
    if isinstance(o, QuantumCircuit):
        d += [o.n_qubits, tuple(o.fparams), frozenset(o.vparams), o.n_vparams]
    return tuple(d + [tuple(describe(x, with_sparse) for x in o.operations)])


def flags(o):
    from horqrux.primitives import Primitive

    return [bool(o.sparse)] if isinstance(o, Primitive) else [f for x in o.operations for f in flags(x)]


def shifted(j):
    """The reference has no shift: fold it in constant angles (named ones get a private name)."""
    if "g" in j:
        if "shift" not in j or j["g"] == "PHASE":
            return j, {}
        if isinstance(j["p"], str):
            k = f"{j['p']}@{j['shift']}"
            return {**j, "p": k, "shift": 0.0}, {k: (j["p"], j["shift"])}
        return {**j, "p": j["p"] + j["shift"], "shift": 0.0}, {}
    kids, m = [], {}
    for s in j["ops"]:
        a, b = shifted(s)
        kids.append(a)
        m.update(b)
    return {**j, "ops": kids}, m


def check(case, mon):
    import jax.numpy as jnp
    from horqrux.utils.conversion import to_dense, to_sparse
    from jax.experimental.sparse import BCOO

    if "array" in case:
        r = np.random.default_rng(case["array"])
        n = case["n"]
        sh = (2**n, 2**n) if case["mat"] else (2,) * n
        a = (r.normal(size=sh) + 1j * r.normal(size=sh)) * (r.random(sh) < case["fill"])
        if case.get("tiny"):  # conversion keeps every entry, whatever its size
            a = a * 10.0 ** r.uniform(-30, 6, size=sh)
        x = jnp.asarray(a)
        s = mon.call("to_sparse", to_sparse, x)
        mon.check(isinstance(s, BCOO) and s.shape == sh, "C06.array", lambda: f"{type(s)} {getattr(s, 'shape', None)}")
        mon.close("C06.array", s.todense(), a, 0, "sparse array")
        mon.close("C06.array", mon.call("to_dense", to_dense, s), a, 0, "array round trip")
        mon.close("C06.array", x, a, 0, "original array")
        mon.sig("array", case)
        return
    op, vals = case["op"], dict(case["vals"])
    lv = gen.lib_values(vals, case["vf"])
    o = build(op)
    before = describe(o)
    plain = describe(o, False)
    s = mon.call("to_sparse", to_sparse, o)
    mon.check(describe(o) == before, "C06.pure", lambda: f"to_sparse changed its argument from {before} to {describe(o)}")
    mon.check(describe(s, False) == plain, "C06.structure", lambda: f"to_sparse turned {plain} into {describe(s, False)}")
    mon.check(all(flags(s)), "C06.flags", "some gate is not sparse after to_sparse")
    sdesc = describe(s)
    d = mon.call("to_dense", to_dense, s)
    mon.check(describe(s) == sdesc, "C06.pure", "to_dense changed its argument")
    mon.check(describe(d, False) == plain, "C06.structure", lambda: f"round trip turned {plain} into {describe(d, False)}")
    mon.check(not any(flags(d)), "C06.flags", "some gate is sparse after to_dense")
    mon.check(describe(to_dense(o)) == before, "C06.idempotent", "to_dense of a dense operation differs from it")
    mon.check(describe(to_sparse(s)) == sdesc, "C06.idempotent", "to_sparse of a sparse operation differs from it")
    made = mon.call("build", build, op, True)
    mon.check(describe(made) == sdesc, "C06.constructed", lambda: f"constructed with sparse=True {describe(made)}, converted {sdesc}")
    sup = gen.support(op)
    if sup and len(sup) <= 4 and gen._flat(op):
        rel, extra = shifted(relabel(op, {q: i for i, q in enumerate(sup)}))
        rv = {**vals, **{k: vals[p] + sh for k, (p, sh) in extra.items()}}
        want = ref.op_matrix(rel, rv, len(sup))
        tol = 1e-9 * max(1.0, float(np.abs(want).max()))
        full = tuple(sup)
        mon.close("C06.meaning", d.tensor(lv, full), want, tol, "operator after the round trip")
        # sparse tensors compile for each gate: quick runs look at a part of the large ones
        if len(gen._flat(op)) <= 4 or case["deep"]:
            t = s.tensor(lv, full)
            mon.check(isinstance(t, BCOO), "C06.type", lambda: f"tensor of a converted operation is {type(t)}")
            mon.close("C06.meaning", t.todense(), want, tol, "operator after to_sparse")
    mon.tag("op:" + op.get("op", "gate"))
    mon.sig(op, vals)
