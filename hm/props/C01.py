"""C01: circuits act on state vectors as the product of the textbook unitaries of their gates."""
from __future__ import annotations

import itertools

import numpy as np

from .. import gen, ref
from .common import circuit_features, shape_of, val_form

CASES = {"quick": 1900, "thorough": 30000}
FLOOR = {"distinct": 300, "run": 300, "C01.state": 600}
RULE = (
    "systematic: every gate on every target/control placement of 1-4 qubits; random: gate lists "
    "(families: mixed, deep, wide, scaled inputs, single gates with special angles), nested in "
    "sequences and circuits, with random states, parameter names, values and written forms. A case "
    "is non-trivial when its reference output differs from its input; distinct by (n, gates, state)."
)
ASSUMPTIONS = ["the numpy reference of hm/ref.py defines the textbook semantics"]


def base(rng, n, ops, tier, **kw):
    return dict(
        n=n, ops=ops, st=gen.rstate(rng, n), vals=gen.rvalues(rng, gen.names_of(ops)),
        vf=val_form(rng), **kw,
    )


def mixed(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6])
    ops = gen.nest(rng, gen.rgates(rng, n, 1, 14), n)
    return base(rng, n, ops, tier)


def deep(rng, tier):
    n = rng.randint(1, 4)
    return base(rng, n, gen.rgates(rng, n, 40, 90, names=gen.NAMES[:3]), tier)


def wide(rng, tier):
    n = rng.randint(7, 11 if tier == "quick" else 13)
    return base(rng, n, gen.rgates(rng, n, 1, 5, maxc=8, pctrl=0.7), tier)


def single(rng, tier):
    n = rng.randint(1, 7)
    ops = [gen.rgate(rng, n, special=0.7, pctrl=0.7, pool=gen.PAR1 + gen.FIX2 + gen.FIX1)]
    return base(rng, n, ops, tier)


def scaled(rng, tier):
    n = rng.randint(1, 5)
    c = base(rng, n, gen.rgates(rng, n, 1, 8), tier)
    c["scale"] = [rng.choice([1e-6, 0.3, -2.0, 1e4]), rng.uniform(-1, 1)]
    c["st2"] = gen.rstate(rng, n)
    return c


FAMILIES = [("mixed", 5, mixed), ("deep", 1, deep), ("wide", 1.3, wide), ("single", 3, single), ("scaled", 1, scaled)]


def systematic(tier):
    out = []
    for g in gen.FIX1 + gen.PAR1 + gen.FIX2:
        k = 2 if g in gen.FIX2 else 1
        for n in (1, 2, 3, 4) if tier == "thorough" else (2, 3):
            if k > n:
                continue
            out.append(dict(grid=g, n=n, k=k, family="grid"))
    return out


def grid(case):
    n, k = case["n"], case["k"]
    for t in itertools.permutations(range(n), k):
        rest = [q for q in range(n) if q not in t]
        for m in range(len(rest) + 1):
            for c in itertools.permutations(rest, m):
                if m == 3 and list(c) != sorted(c) and list(c) != sorted(c, reverse=True):
                    continue
                j = {"g": case["grid"], "t": list(t), "c": list(c) or None, "tf": "t"}
                if case["grid"] in gen.PAR1:
                    j["p"] = "a"
                yield j


def check(case, mon):
    import horqrux

    if "grid" in case:
        n = case["n"]
        for i, j in enumerate(grid(case)):
            for a in (0.7, -2.9) if j.get("p") else (0.0,):
                one(dict(n=n, ops=[j], st={"k": "rand", "n": n, "s": i}, vals={"a": a}, vf="f"), mon, horqrux, True)
        return
    one(case, mon, horqrux, False)


def one(case, mon, horqrux, brief):
    n, ops, vals = case["n"], case["ops"], case["vals"]
    v0 = gen.np_state(case["st"])
    if "scale" in case:
        v0 = case["scale"][0] * v0 + 1j * case["scale"][1] * gen.np_state(case["st2"])
    want = ref.apply_op({"op": "seq", "ops": ops}, v0, vals, n).reshape(shape_of(n))
    import jax.numpy as jnp

    tol = 1e-10 * max(1.0, float(np.abs(v0).max())) * 10
    st = jnp.asarray(v0.reshape(shape_of(n)))
    lv = gen.lib_values(vals, case["vf"])
    circ = mon.call("build", gen.circuit, ops, n)
    out = mon.call("run", horqrux.run, circ, st, lv)
    mon.close("C01.state", out, want, tol, "state returned by run")
    mon.close("C01.norm", np.linalg.norm(np.asarray(out)), np.linalg.norm(v0), tol, "norm")
    gates = mon.call("iterate", lambda: list(iter(circ)))
    out = mon.call("apply_gates", horqrux.apply_gates, st, gates, lv)
    mon.close("C01.state", out, want, tol, "state returned by apply_gates")
    if not brief:
        out = mon.call("call", circ, st, lv)
        mon.close("C01.state", out, want, tol, "state returned by calling the circuit")
        # the default state of a gate, a sequence and a circuit is the zero state of their register
        flat = ref.flatten({"op": "seq", "ops": ops})
        for j, g in list(zip(flat, gates))[:3]:
            k = len(gen.support(j))
            if gen.support(j) == list(range(k)):
                z = ref.apply_op(j, gen.np_state({"k": "zero", "n": k}), vals, k)
                out = mon.call("gate()", lambda: g(values=lv))
                mon.close("C01.default", out, z.reshape(shape_of(k)), tol, "state returned by a gate on the default state")
        z = ref.apply_op({"op": "seq", "ops": ops}, gen.np_state({"k": "zero", "n": n}), vals, n)
        out = mon.call("circuit()", lambda: circ(values=lv))
        mon.close("C01.default", out, z.reshape(shape_of(n)), tol, "state returned by a circuit on the default state")
        form = len(ops) + len(str(case["st"])) + n
        out = mon.call("iterable", lambda: horqrux.apply_gates(st, gen.iterable(gates, n, form), lv))
        mon.close("C01.state", out, want, tol, "state returned by apply_gates for another kind of iterable")
        mon.tag(f"qubits:{n}", f"iterable:{form % 6}", *circuit_features(ops))
    if np.abs(want.reshape(-1) - v0).max() > 1e-6:
        mon.sig(n, ops, case["st"], vals)
