"""C08: sums, scalings and sequences compose as operator algebra."""
from __future__ import annotations

import numpy as np

from .. import gen, ref
from .common import val_form

CASES = {"quick": 1500, "thorough": 25000}
FLOOR = {"distinct": 400, "apply": 400, "C08.state": 400, "C08.law": 150}
RULE = (
    "random nested operations of depth up to 4 (sequences, sums, scalings by constants or named "
    "factors, circuits, observables through forward) applied to random states, against the "
    "reference algebra; laws (distributivity, scaling of sums and of sequences, associativity of "
    "nesting) on random operands by comparing library results of both sides. Distinct by (operation, state, values)."
)
ASSUMPTIONS = ["compositions other than sequences are supported on state vectors only"]


def nested(rng, tier):
    n = rng.choice([1, 2, 3, 3, 4, 5])
    op = gen.rop(rng, n, depth=rng.randint(1, 4))
    if "g" in op:
        op = {"op": "scale", "f": rng.choice(["s1", -0.5, 2]), "ops": [op]}
    return dict(n=n, op=op, st=gen.rstate(rng, n), vals=gen.rvalues(rng, gen.names_of(op), special=0.2), vf=val_form(rng), mag=gen.mag(rng))


def observable(rng, tier):
    n = rng.choice([1, 2, 3, 4])
    op = gen.robs(rng, n, names=["o1", "o2"], depth=3, terms=4)
    if rng.random() < 0.3:  # scalings of whole observables
        op = {"op": "scale", "f": rng.choice(["o1", 1.5]), "ops": [op]}
    return dict(n=n, op=op, st=gen.rstate(rng, n), vals=gen.rvalues(rng, gen.names_of(op), special=0.2), vf=val_form(rng), mag=gen.mag(rng))


LAWS = ["dist-left", "dist-right", "scale-add", "scale-seq", "scale-scale", "seq-assoc", "add-assoc", "add-comm", "scale-list"]


def law(rng, tier):
    n = rng.choice([1, 2, 3])
    a, b, c = (gen.rop(rng, n, depth=1) for _ in range(3))
    vals = gen.rvalues(rng, gen.names_of([a, b, c]) + ["s1", "s2"], special=0.2)
    return dict(law=rng.choice(LAWS), n=n, a=a, b=b, c=c, st=gen.rstate(rng, n), vals=vals, vf=val_form(rng), mag=gen.mag(rng))


FAMILIES = [("nested", 5, nested), ("observable", 2, observable), ("law", 3, law)]


def sides(law, a, b, c):
    S = lambda *x: {"op": "seq", "ops": list(x)}
    A = lambda *x: {"op": "add", "ops": list(x)}
    K = lambda f, *x: {"op": "scale", "f": f, "ops": list(x)}
    return {
        "dist-left": (S(A(a, b), c), A(S(a, c), S(b, c))),
        "dist-right": (S(c, A(a, b)), A(S(c, a), S(c, b))),
        "scale-add": (K("s1", A(a, b)), A(K("s1", a), K("s1", b))),
        "scale-seq": (K("s1", S(a, b)), S(a, K("s1", b))),
        "scale-scale": (K("s1", K("s2", a)), K("s2", K("s1", a))),
        "seq-assoc": (S(S(a, b), c), S(a, S(b, c))),
        "add-assoc": (A(A(a, b), c), A(a, A(b, c))),
        "add-comm": (A(a, b, c), A(c, a, b)),
        "scale-list": (K("s1", a, b, c), K("s1", S(a, b, c))),
    }[law]


def check(case, mon):
    n, vals = case["n"], case["vals"]
    lv = gen.lib_values(vals, case["vf"])
    m = case.get("mag", 1.0)
    v0 = gen.np_state(case["st"])
    st = m * gen.lib_state(case["st"])
    if "law" in case:
        lhs, rhs = sides(case["law"], case["a"], case["b"], case["c"])
        want = ref.apply_op(lhs, v0, vals, n)
        tol = 1e-9 * max(1.0, float(np.abs(want).max()))
        x = mon.call("apply", gen.build(lhs), st, lv)
        y = mon.call("apply", gen.build(rhs), st, lv)
        mon.close("C08.law", np.asarray(x) / m, np.asarray(y) / m, tol, f"law {case['law']}")
        mon.close("C08.state", np.asarray(x).reshape(-1) / m, want, tol, "left side")
        mon.tag("law:" + case["law"])
    else:
        op = case["op"]
        want = ref.apply_op(op, v0, vals, n)
        tol = 1e-9 * max(1.0, float(np.abs(want).max()))
        lib = mon.call("build", gen.build, op)
        fn = lib.forward if op["op"] == "obs" else lib
        got = mon.call("apply", fn, st, lv)
        mon.close("C08.state", np.asarray(got) / m, want.reshape((2,) * n), tol, "state")
        sup = gen.support(op)
        k = n if op["op"] == "circ" else len(sup)
        if "g" not in op and sup and (op["op"] == "circ" or sup == list(range(k))):
            # without a state: the zero state of the register
            z = ref.apply_op(op, gen.np_state({"k": "zero", "n": k}), vals, k)
            got = mon.call("default", lambda: fn(values=lv))
            if op["op"] == "obs" and gen.hermitian(ref.op_matrix(op, vals, k)):
                e = mon.call("default", lambda: lib(values=lv))
                mon.close("C08.default", e, z[0].real, 1e-9 * max(1.0, float(np.abs(z).max())), "expectation of an observable on the default state")
            mon.close("C08.default", got, z.reshape((2,) * k), 1e-9 * max(1.0, float(np.abs(z).max())), "composition applied to the default state")
        mon.tag("op:" + op["op"], f"depth:{depth(op)}")
    if np.abs(want).max() > 1e-9:
        mon.sig(case.get("law"), n, case.get("op"), case.get("a"), case.get("b"), case.get("c"), case["st"], vals)


def depth(j):
    return 0 if "g" in j else 1 + max(depth(s) for s in j["ops"])
