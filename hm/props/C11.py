"""C11: analytic parameter-shift gradients equal the true derivatives."""
from __future__ import annotations

import math

import numpy as np

from .. import gen, ref
from .C09 import make, split
from .C10 import jvals
from .common import circuit_features

CASES = {"quick": 170, "thorough": 5000}
FLOOR = {"distinct": 70, "gradient": 70, "backward": 30, "C11.gradient": 200, "C11.hessian": 4}
RULE = (
    "random circuits over rotations and phase gates (controlled or not) with parameters used 0 to "
    "6 times, constants, noise, pure and mixed states, 1-3 observables (with named factors whose "
    "own derivatives are out of scope); gradients through jax (reverse and forward) of the "
    "parameter-shift expectation and from the backward function, against analytic derivatives of "
    "the reference. Non-trivial: some derivative exceeds 1e-6. Distinct by program."
)
ASSUMPTIONS = [
    "gradients with respect to parameters of observables are not claimed in this mode",
    "controlled RX/RY/RZ are a known finding: their derivatives must still equal the two-term rule",
]
PN = ["a", "b", "theta", "x_1", "w"]
POOL = ["RX", "RY", "RZ", "PHASE"] * 4 + gen.FIX1 + gen.FIX2
UNC = ["RX", "RY", "RZ"]


def gates(rng, n, lo, hi, names, pconst=0.15, pnoise=0.0, crot=0.06):
    out = gen.rgates(rng, n, lo, hi, names=names, pool=POOL, pconst=pconst, pnoise=pnoise, pshift=0.15)
    for g in out:  # controlled rotations are a known finding: keep them rare
        if g["g"] in UNC and g["c"] and rng.random() > crot:
            if rng.random() < 0.4:
                g["g"] = "PHASE"
            else:
                g["c"] = None
    return out


def finish(rng, c, nested=0.0):
    v = c["vals"]
    if "circuit" in v and rng.random() >= nested:
        o = {("q_" + k): x for k, x in v["observables"].items()}
        c["obs"] = [rename(j) for j in c["obs"]]
        keys = [("c", k, x) for k, x in v["circuit"].items()] + [("o", k, x) for k, x in o.items()]
        rng.shuffle(keys)
        c["vals"] = {k: x for _, k, x in keys}
    c["via"] = rng.choice(["rev", "rev", "fwd"])
    c["shape"] = rng.choice([0, 0, 0, 1])
    c["bwd"] = rng.random() < 0.5  # the backward function compiles once per shifted gate
    return c


def rename(j):
    if "g" in j:
        return j
    j = {**j, "ops": [rename(s) for s in j["ops"]]}
    if j["op"] == "scale" and isinstance(j["f"], str):
        j["f"] = "q_" + j["f"]
    return j


def vector(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    ops = gen.nest(rng, gates(rng, n, 1, 7 if tier == "quick" else 10, PN[: rng.randint(1, 5)]), n)
    return finish(rng, make(rng, n, ops, gen.rstate(rng, n)))


def single(rng, tier):
    """Every parameter is used exactly once."""
    n = rng.choice([1, 2, 3])
    ops = gates(rng, n, 1, 5, ["?"])
    names = list(gen.NAMES)
    rng.shuffle(names)
    for g in ops:
        if g.get("p") == "?":
            g["p"] = names.pop()
    return finish(rng, make(rng, n, ops, gen.rstate(rng, n)))


def mixed(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    ops = gates(rng, n, 1, 5, PN[: rng.randint(1, 3)], pnoise=rng.choice([0, 0.4]))
    st = gen.rdm(rng, n) if rng.random() < 0.6 else gen.rstate(rng, n)
    return finish(rng, make(rng, n, ops, st))


def many(rng, tier):
    """An ansatz with 6 to 18 parameters."""
    n = rng.choice([2, 3])
    ops = gen.layered(rng, n, rng.randint(1, 2), rng.choice([("RY",), ("RX", "RY"), ("RX", "RY", "RZ")]))
    if rng.random() < 0.3:  # one of the parameters is shared
        ns = gen.names_of(ops)
        next(g for g in reversed(ops) if "p" in g)["p"] = rng.choice(ns)
    c = make(rng, n, ops, gen.rstate(rng, n))
    c["obs"] = [gen.hamiltonian(rng, n, rng.randint(1, 8))] + ([gen.hamiltonian(rng, n, 1)] * rng.randint(0, 2))
    c = finish(rng, c)
    c["bwd"] = rng.random() < 0.3
    return c


def hess(rng, tier):
    n = rng.choice([1, 2])
    ops = gates(rng, n, 1, 4, PN[: rng.randint(1, 2)], pconst=0.1, crot=0)
    c = finish(rng, make(rng, n, ops, gen.rstate(rng, n), depth=1))
    c["obs"] = c["obs"][:1]
    c["vals"] = gen.rvalues(rng, sorted(set(gen.names_of(ops)) | set(gen.names_of(c["obs"]))), extra=0.3)
    c["hess"] = True
    return c


def nested(rng, tier):
    n = rng.choice([1, 2])
    c = make(rng, n, gates(rng, n, 1, 3, PN[:2]), gen.rstate(rng, n))
    if "circuit" not in c["vals"]:
        c["vals"] = {"circuit": gen.rvalues(rng, gen.names_of(c["ops"])), "observables": gen.rvalues(rng, gen.names_of(c["obs"]))}
    c["via"], c["shape"] = "rev", 0
    return c


def systematic(tier):
    """The known findings, on their smallest programs."""
    z = [{"op": "obs", "ops": [{"g": "X", "t": [1], "c": None}]}]
    g = lambda k, c, p: {"g": k, "t": [1], "c": c, "p": p}
    h = {"g": "H", "t": [0], "c": None}
    base = dict(kind="plain", n=2, obs=z, st={"k": "zero", "n": 2}, vf="f", via="rev", shape=0, bwd=True, family="known")
    for k in UNC:
        yield dict(base, ops=[h, g("RY", None, 0.7), g(k, [0], "a")], vals={"a": 0.4})
        yield dict(base, ops=[h, g("RY", None, 0.7), g(k, [0], "a"), g("RX", None, "a")], vals={"a": 0.4})
    yield dict(base, ops=[g("RY", None, "a")], vals={"circuit": {"a": 0.4}, "observables": {}})


FAMILIES = [("vector", 5, vector), ("single", 3, single), ("mixed", 3, mixed), ("many", 0.6, many), ("hessian", 0.7, hess), ("nested", 0.25, nested)]


def defective(ops, st0, obs, vals, vo, n, p, all_names):
    """What the two-term rule returns although some gate of p is a controlled rotation."""
    flat = ref.flatten({"op": "seq", "ops": ops})
    users = {q: [i for i, g in enumerate(flat) if g.get("p") == q] for q in all_names}

    def f(gs, v):
        out = ref.evolve(gs, st0, v, n) if st0.ndim == 1 else ref.evolve_dm(gs, st0, v, n)
        return ref.expect(out, obs, vo, n)

    s = math.pi / 2
    if max(map(len, users.values())) <= 1:
        return (f(flat, {**vals, p: vals[p] + s}) - f(flat, {**vals, p: vals[p] - s})) / 2
    tot = 0.0
    for i in users[p]:
        g = flat[i]
        gap = 1.0 if g["g"] in UNC and g.get("c") else 2.0
        up = flat[:i] + [{**g, "p": vals[p] + s}] + flat[i + 1 :]
        dn = flat[:i] + [{**g, "p": vals[p] - s}] + flat[i + 1 :]
        tot += gap * (f(up, vals) - f(dn, vals)) / (4 * math.sin(gap * s / 2))
    return tot


def check(case, mon):
    import horqrux
    import jax
    import jax.numpy as jnp
    from horqrux import DiffMode
    from horqrux.differentiation.gpsr import analytical_gpsr_bwd

    n, ops, vals = case["n"], case["ops"], case["vals"]
    vc, vo = split(vals)
    if not vc:
        return
    st0 = gen.np_any(case["st"])
    st = gen.lib_any(case["st"])
    circ = gen.circuit(ops, n)
    scaled, F = gen.in_units(case["obs"], (case.get("units") or [])[:1])
    obs = [gen.build(o) for o in scaled]
    f = lambda v: horqrux.expectation(st, circ, obs, v, DiffMode.GPSR) / F
    flat = ref.flatten({"op": "seq", "ops": ops})
    cnames = set(gen.names_of(flat)) | {"unused"}
    bad = {g["p"] for g in flat if g["g"] in UNC and g.get("c") and isinstance(g.get("p"), str)}
    if "circuit" in vals:
        try:
            got = jax.jacrev(f)(jvals(vals))["circuit"]
        except TypeError as e:
            mon.known("gpsr-nested-values-gradient", f"{type(e).__name__}: {e}")
            return
    elif "hess" in case:
        h = mon.call("hessian", jax.hessian(lambda v: f(v)[0]), jvals(vals))
        for p in vals:
            for q in vals:
                if p not in cnames or q not in cnames:
                    continue
                want = ref.d2expect(ops, st0, case["obs"][0], vals, n, p, q)
                mon.close("C11.hessian", h[p][q], want, 2e-6 * max(1, abs(want)), f"d2<O>/d{p} d{q}")
        mon.sig(n, ops, case["obs"], case["st"], vals, "h")
        return
    else:
        lv = jvals(vals)
        if case["shape"] and len(obs) == 1 and not gen.names_of(case["obs"]) and all(g["g"] != "PHASE" for g in flat):
            lv = {k: x.reshape(1) for k, x in lv.items()}
            tr = mon.call("gradient", jax.grad(lambda v: f(v).sum()), lv)
            got = {k: np.asarray(x).reshape(1) for k, x in tr.items()}
        elif case["via"] == "fwd":
            got = mon.call("gradient", jax.jacfwd(f), lv)
        else:
            got = mon.call("gradient", jax.jacrev(f), lv)
        mon.close("C11.forward", f(lv), np.array([ref.expect(evolved(ops, st0, vc, n), o, vo, n) for o in case["obs"]]), 1e-9 * scale(case, st0, vc, vo), "value of the differentiated function")
    nontrivial = False
    wants = {}
    for p in vc:
        if p not in cnames:
            continue
        want = np.array([ref.dexpect(ops, st0, o, vc, vo, n, p, "circuit") for o in case["obs"]])
        wants[p] = want
        nontrivial |= bool(np.abs(want).max() > 1e-6)
        judge(case, mon, "gradient", p, np.asarray(got[p]), want, p in bad, st0, vc, vo, flat, cnames)
    if "circuit" not in vals and case["bwd"]:
        # backward function: one entry per value, in their order, summed over the observables
        lv = gen.lib_values(vals, "a")
        b = np.asarray(mon.call("backward", analytical_gpsr_bwd, st, gen.iterable(iter(circ), n, len(str(vals))), obs, lv)) / F[0]
        mon.check(b.shape == (len(vals),), "C11.shape", lambda: f"backward returned shape {b.shape} for {len(vals)} values")
        for i, p in enumerate(vals):
            if p in wants:
                judge(case, mon, "backward", p, b[i], wants[p].sum(), p in bad, st0, vc, vo, flat, cnames)
    uses = [sum(g.get("p") == p for g in flat) for p in vc]
    mon.tag(f"uses:{max(uses)}", "vector" if st0.ndim == 1 else "density", "noisy" if ref.has_noise(ops) else "noiseless", f"observables:{len(obs)}", *circuit_features(ops))
    if nontrivial:
        mon.sig(n, ops, case["obs"], case["st"], vals)


def evolved(ops, st0, vc, n):
    return ref.evolve(ops, st0, vc, n) if st0.ndim == 1 else ref.evolve_dm(ops, st0, vc, n)


def scale(case, st0, vc, vo):
    out = evolved(case["ops"], st0, vc, case["n"])
    return max([1.0] + [abs(ref.expect(out, o, vo, case["n"])) for o in case["obs"]])


def judge(case, mon, what, p, got, want, controlled, st0, vc, vo, flat, cnames):
    tol = 1e-8 * max(1.0, float(np.abs(want).max()))
    key = "C11.gradient" if what == "gradient" else "C11.backward"
    if controlled and got.shape == np.shape(want) and np.abs(got - want).max() > tol:
        names = list(vc)
        d = np.array([defective(flat, st0, o, vc, vo, case["n"], p, names) for o in case["obs"]])
        d = d if what == "gradient" else d.sum()
        mon.close(key + ".two-term", got, d, tol * max(1.0, float(np.abs(d).max())), f"{what} d<O>/d{p} of a controlled rotation")
        mon.known("gpsr-controlled-rotation", f"d<O>/d{p} = {got} instead of {want} for {flat}")
        return
    mon.close(key, got, want, tol, f"{what} d<O>/d{p}")
