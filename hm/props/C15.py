"""C15: jit, vmap and pytree passes are transparent."""
from __future__ import annotations

import copy

import numpy as np

from .. import gen, ref
from .C06 import build, decorate, describe
from .C09 import split
from .C10 import jvals
from .common import circuit_features

CASES = {"quick": 900, "thorough": 9000}
FLOOR = {"distinct": 150, "compiled": 250, "vmapped": 60, "roundtrip": 60, "C15.result": 300}
RULE = (
    "families: jitted run/expectation/gradient taking circuit, observables, state and values as "
    "arguments, called for a program and then for a mutated sibling (other angle, placement, "
    "noise probability, order, scale factor, number of uses) through the same compiled function; "
    "the same on density matrices; vmap over values, states and density matrices; flatten / "
    "unflatten / tree_map / pass through jit of every class of object, compared by public "
    "structure and by action. Distinct by family and program."
)


def prog(rng, n, pnoise=0.0, hi=5):
    ops = gen.rgates(rng, n, 1, hi, names=["a", "b"], pnoise=pnoise, pconst=0.4)
    obs = gen.robslist(rng, n, rng.randint(1, 2), ("o1", "a"), depth=1, terms=2)
    return ops, obs


def mutate(rng, ops, n):
    """A sibling of the program which differs in one detail that compilation must not lose."""
    ops = copy.deepcopy(ops)
    pick = ["angle", "angle", "name", "kind", "target", "control", "swap", "drop", "dup"]
    if any(g.get("noise") for g in ops):
        pick += ["noise"] * 8 + ["unnoise", "swapnoise"]
    for _ in range(20):
        g = rng.choice(ops)
        k = rng.choice(pick)
        if k == "angle" and isinstance(g.get("p"), float):
            # from far to nearly equal, and equal up to a period
            g["p"] += rng.choice([0.3, -1.0, 2 * gen.PI, 0.01, -1e-3, 1e-4, 1e-5, -1e-6, 1e-7])
        elif k == "name" and isinstance(g.get("p"), str):
            g["p"] = "a" if g["p"] == "b" else "b"
        elif k == "kind" and len(g["t"]) == 1:
            g["g"] = rng.choice([x for x in (gen.PAR1 if "p" in g else gen.FIX1) if x != g["g"]])
        elif k == "target" and len(g["t"]) == 2:
            g["t"] = g["t"][::-1]
        elif k == "target" and not g["c"] and n > 1:
            g["t"] = [(g["t"][0] + 1) % n]
        elif k == "control" and g["c"]:
            if len(g["c"]) > 1 and rng.random() < 0.5:
                g["c"] = g["c"][:-1]
            else:
                g["c"] = None
        elif k == "noise" and g.get("noise"):
            t, p = g["noise"][0]
            f = 10 ** -rng.uniform(0.3, 6.5)
            if rng.random() < 0.25 and t in gen.NOISE1:
                g["noise"][0] = [rng.choice([x for x in gen.NOISE1 if x != t]), p]
            elif isinstance(p, float):
                g["noise"][0] = [t, p * (1 - f) if rng.random() < 0.6 else p + (1 - p) * f]
            else:
                g["noise"][0] = [t, [x * (1 - f) for x in p]]
        elif k == "noise" and len(g["t"]) == 1 and any(x.get("noise") for x in ops):
            g["noise"] = [gen.rnoise(rng)]
        elif k == "unnoise" and g.get("noise"):
            g["noise"] = g["noise"][1:] or None
        elif k == "swapnoise" and len(g.get("noise") or []) > 1:
            g["noise"] = g["noise"][::-1]
        elif k == "swap" and len(ops) > 1:
            i = rng.randrange(len(ops) - 1)
            ops[i], ops[i + 1] = ops[i + 1], ops[i]
        elif k == "drop" and len(ops) > 1:
            ops.pop(rng.randrange(len(ops)))
        elif k == "dup":
            ops.insert(rng.randrange(len(ops)), copy.deepcopy(g))
        else:
            continue
        return ops, k
    return ops, "same"


def mutate_obs(rng, obs):
    """Observables which differ in one factor, gate or term."""
    obs = copy.deepcopy(obs)
    scales = []

    def rec(j):
        if j.get("op") == "scale":
            scales.append(j)
        for s in j.get("ops", []):
            rec(s)

    for o in obs:
        rec(o)
    consts = [s for s in scales if not isinstance(s["f"], str)]
    if consts and rng.random() < 0.7:
        s = rng.choice(consts)
        s["f"] = s["f"] + rng.choice([1.0, -0.1, 1e-3, -1e-5, 1e-6])
    elif scales and rng.random() < 0.5:
        s = rng.choice(scales)
        s["f"] = "a" if s["f"] == "o1" else "o1"
    else:
        g = rng.choice(gen._flat(rng.choice(obs)))
        if "p" not in g and len(g["t"]) == 1:
            g["g"] = rng.choice([x for x in gen.HERM1 if x != g["g"]])
    return obs


def compiled(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    noisy = rng.random() < 0.3
    ops, obs = prog(rng, n, 0.5 if noisy else 0.0)
    ops2, how = mutate(rng, ops, n)
    dm = rng.random() < 0.35
    mk = gen.rdm if dm else gen.rstate
    vals = {k: gen.rangle(rng) for k in ("a", "b", "o1")}
    vals2 = {k: gen.rangle(rng) for k in ("a", "b", "o1")}
    what = rng.choice(["run", "run", "expectation", "gradient", "gpsr", "exp-jit"])
    if what == "gradient" and rng.random() < 0.5:
        what = "expectation"
    return dict(
        do="compiled", n=n, ops=ops, ops2=ops2, how=how, obs=obs, st=mk(rng, n), st2=mk(rng, n),
        vals=vals, vals2=vals2, what=what, mode=rng.choice(["ad", "gpsr"]), nested=rng.random() < 0.3,
        obs2=mutate_obs(rng, obs) if rng.random() < 0.4 else obs,
        closure=rng.random() < 0.2, wrap=rng.choice(["circ", "circ", "seq", "list"]),
    )


def vmapped(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    noisy = rng.random() < 0.3
    ops, obs = prog(rng, n, 0.5 if noisy else 0.0)
    over = rng.choice(["values", "states", "dms", "both"])
    B = rng.randint(2, 4)
    mk = gen.rdm if over == "dms" or rng.random() < 0.3 else gen.rstate
    sts = [mk(rng, n) for _ in range(B)]
    if over in ("states", "both") and mk is gen.rdm:
        over = "dms"
    if over != "dms" and sts[0]["k"] in ("mixed", "maxmixed", "proj", "pure"):
        over = "values"
    return dict(
        do="vmapped", n=n, ops=ops, obs=obs, over=over, sts=sts, jit=rng.random() < 0.4,
        vals=[{k: gen.rangle(rng) for k in ("a", "b", "o1")} for _ in range(B)],
        what=rng.choice(["run", "expectation", "gradient"]), mode=rng.choice(["ad", "ad", "gpsr"]),
    )


def roundtrip(rng, tier):
    n = rng.choice([1, 2, 3])
    r = rng.random()
    if r < 0.3:
        op = {"op": "circ", "n": n + rng.choice([0, 1]), "ops": gen.nest(rng, gen.rgates(rng, n, 0, 5, pnoise=0.3), n)}
    elif r < 0.6:
        op = gen.robs(rng, n, depth=3)
    elif r < 0.7:
        op = gen.rgate(rng, n, pnoise=0.3)
    else:
        op = gen.rop(rng, n, depth=3)
    return dict(do="roundtrip", n=n, op=decorate(rng, op), st=gen.rstate(rng, n), vals=gen.rvalues(rng, gen.names_of(op)), sparse=rng.random() < 0.25, dm=gen.rdm(rng, n))


FAMILIES = [("compiled", 5, compiled), ("vmapped", 3, vmapped), ("roundtrip", 3, roundtrip)]


def check(case, mon):
    {"compiled": do_compiled, "vmapped": do_vmapped, "roundtrip": do_roundtrip}[case["do"]](case, mon)


def expected(ops, st0, obs, vals, n, what):
    out = ref.evolve(ops, st0, vals, n) if st0.ndim == 1 else ref.evolve_dm(ops, st0, vals, n)
    if what == "run":
        return out.reshape((2,) * (n * out.ndim))
    if what == "gradient":
        names = sorted(vals)
        return np.array([[ref.dexpect(ops, st0, o, vals, vals, n, p) for o in obs] for p in names])
    return np.array([ref.expect(out, o, vals, n) for o in obs])


def arr(x):
    return x.array if hasattr(x, "array") else x


def do_compiled(case, mon):
    import horqrux
    import jax
    from horqrux import DiffMode
    from horqrux.composite import OpSequence
    from horqrux.differentiation.gpsr import jitted_analytical_exp

    n, what = case["n"], case["what"]
    mode = DiffMode(case["mode"])

    def wrap(ops):
        if case["wrap"] == "seq":
            return OpSequence([gen.build(g) for g in ops])
        if case["wrap"] == "list" and what == "run":
            return [gen.build(g) for g in ops]
        return gen.circuit(ops, n)

    def fn(c, obs, st, v):
        if what == "run":
            return horqrux.apply_gates(st, c, v) if isinstance(c, list) else horqrux.run(c, st, v)
        if what == "gradient":
            return jax.jacrev(lambda v: horqrux.expectation(st, c, obs, v))(v)
        return horqrux.expectation(st, c, obs, v, DiffMode.GPSR if what == "gpsr" else mode)

    jf = jax.jit(fn)
    obs = [gen.build(o) for o in case["obs"]]
    o1, o2 = case["obs"], case["obs2"]
    calls = [
        (case["ops"], o1, case["st"], case["vals"]),
        (case["ops2"], o2, case["st2"], case["vals2"]),
        (case["ops"], o1, case["st2"], case["vals"]),
        (case["ops"], o2, case["st"], case["vals"]),
    ]
    if what == "run" or o1 == o2:
        calls.pop()
    if case["closure"]:
        # object closed over by the compiled function
        c0 = wrap(case["ops"])
        jc = jax.jit(lambda st, v: fn(c0, obs, st, v))
        calls = [(case["ops"], o1, s, v) for _, _, s, v in calls[:2]]
    for i, (ops, ob, st, vals) in enumerate(calls):
        lv = jvals(vals)
        nested = case["nested"] and what in ("run", "expectation") and what != "run"
        a = {"circuit": {k: lv[k] for k in ("a", "b")}, "observables": lv} if nested else lv
        s = gen.lib_any(st)
        if case["closure"]:
            got = mon.call("compiled", jc, s, a)
        elif what == "exp-jit":
            got = mon.call("compiled", jitted_analytical_exp, s, [gen.build(g) for g in ops], [gen.build(o) for o in ob], a)
        else:
            got = mon.call("compiled", jf, wrap(ops), [gen.build(o) for o in ob], s, a)
        want = expected(ops, gen.np_any(st), ob, vals, n, what)
        if what == "run":
            from horqrux.utils.operator_utils import DensityMatrix

            mon.check(isinstance(got, DensityMatrix) == (want.ndim == 2 * n), "C15.type", lambda: f"compiled run returned {type(got)}")
            got = arr(got)
        if what == "gradient":
            got = np.array([np.asarray(got[p]) for p in sorted(vals)])
        mon.close("C15.result", got, want, 1e-9 * max(1.0, float(np.abs(want).max())), f"compiled {what}, call {i} ({case['how']} changed)")
    mon.tag("what:" + what, "changed:" + case["how"], "wrap:" + case["wrap"], "closure" if case["closure"] else "argument", *circuit_features(case["ops"]))
    mon.sig("compiled", case)


def do_vmapped(case, mon):
    import horqrux
    import jax
    import jax.numpy as jnp
    from horqrux import DiffMode
    from horqrux.utils.operator_utils import DensityMatrix

    n, over, what = case["n"], case["over"], case["what"]
    B = len(case["sts"])
    mode = DiffMode(case["mode"])
    circ = gen.circuit(case["ops"], n)
    obs = [gen.build(o) for o in case["obs"]]

    def fn(st, v):
        if what == "run":
            return horqrux.run(circ, st, v)
        if what == "gradient":
            return jax.jacrev(lambda v: horqrux.expectation(st, circ, obs, v))(v)
        return horqrux.expectation(st, circ, obs, v, mode)

    libs = [gen.lib_any(s) for s in case["sts"]]
    if over == "dms":
        st = DensityMatrix(jnp.stack([x.array for x in libs]))
    elif over in ("states", "both"):
        st = jnp.stack(libs)
    else:
        st = libs[0]
    vs = case["vals"] if over in ("values", "both") else case["vals"][:1] * B
    v = {k: jnp.array([x[k] for x in vs]) for k in vs[0]} if over in ("values", "both") else jvals(vs[0])
    f = jax.vmap(fn, in_axes=(None if over == "values" else 0, 0 if over in ("values", "both") else None))
    got = mon.call("vmapped", jax.jit(f) if case["jit"] else f, st, v)
    for i in range(B):
        s0 = gen.np_any(case["sts"][0 if over == "values" else i])
        want = expected(case["ops"], s0, case["obs"], vs[i], n, what)
        if what == "gradient":
            g = np.array([np.asarray(got[p][i]) for p in sorted(vs[i])])
        else:
            g = arr(got)[i]
        mon.close("C15.result", g, want, 1e-9 * max(1.0, float(np.abs(want).max())), f"vmapped {what} over {over}, entry {i}")
    mon.tag("vmap:" + over, "what:" + what, *circuit_features(case["ops"]))
    mon.sig("vmapped", case)


def do_roundtrip(case, mon):
    import jax
    import jax.numpy as jnp
    from horqrux.utils.operator_utils import DensityMatrix

    op = case["op"]
    o = build(op)
    if case["sparse"]:
        from horqrux.utils.conversion import to_sparse

        o = to_sparse(o)
    d = describe(o)
    ways = {
        "flatten/unflatten": lambda x: jax.tree.unflatten(*reversed(jax.tree.flatten(x))),
        "tree_map": lambda x: jax.tree.map(lambda y: y, x),
        "jit": lambda x: jax.jit(lambda y: y)(x),
        "in a container": lambda x: jax.tree.map(lambda y: y, {"k": [x, (x,)]})["k"][1][0],
        "copied by the node methods": lambda x: type(x).tree_unflatten(*reversed(x.tree_flatten())),
    }
    back = None
    for name, w in ways.items():
        back = mon.call("roundtrip", w, o)
        mon.check(type(back) is type(o), "C15.type", lambda: f"{name} turned {type(o)} into {type(back)}")
        mon.check(describe(back) == d, "C15.structure", lambda: f"{name} turned {d} into {describe(back)}")
        mon.check(describe(o) == d, "C15.structure", f"{name} changed its argument")
    twice = jax.tree.map(lambda y: y, back)
    mon.check(describe(twice) == d, "C15.structure", "second pass changed the object")
    # equal objects have equal tree structures, so that compiled functions are reused rightly
    mon.check(jax.tree.structure(o) == jax.tree.structure(back), "C15.structure", "tree structures differ after a round trip")
    if not case["sparse"] and not any(g.get("noise") for g in gen._flat(op)) and gen._flat(op):
        lv = gen.lib_values(case["vals"])
        st = gen.lib_state(case["st"])
        fn = back.forward if op.get("op") == "obs" else back
        want = ref.apply_op(op, gen.np_state(case["st"]), case["vals"], case["n"])
        got = mon.call("apply", fn, st, lv)
        mon.close("C15.result", got, want.reshape((2,) * case["n"]), 1e-9 * max(1.0, float(np.abs(want).max())), "action after a round trip")
    rho = gen.lib_dm(case["dm"])
    for name, w in list(ways.items()):
        r = mon.call("roundtrip", w, rho)
        mon.check(isinstance(r, DensityMatrix), "C15.type", lambda: f"{name} turned a density matrix into {type(r)}")
        mon.close("C15.result", r.array, rho.array, 0, f"density matrix after {name}")
    half = jax.tree.map(lambda x: x / 2, rho)
    mon.close("C15.result", half.array, np.asarray(rho.array) / 2, 1e-15, "tree_map on a density matrix")
    mon.check(len(jax.tree.leaves(rho)) == 1, "C15.structure", "a density matrix has other leaves than its array")
    mon.tag("roundtrip:" + op.get("op", "gate"))
    mon.sig("roundtrip", op, case["sparse"])
