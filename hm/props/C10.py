"""C10: AD and adjoint gradients equal the true derivatives."""
from __future__ import annotations

import numpy as np

from .. import gen, ref
from .C09 import make, split
from .common import circuit_features

CASES = {"quick": 330, "thorough": 6000}
FLOOR = {"distinct": 120, "gradient": 200, "C10.gradient": 500, "C10.hessian": 30, "C10.state": 20, "C10.along-state": 8, "C10.fidelity": 8}
RULE = (
    "random circuits with repeated, shared and unused parameters, controlled rotations and phase "
    "gates, noise (AD), pure and mixed states, observables with named factors, flat or separate "
    "values; the jacobian of all expectations with respect to every value (reverse, forward, compiled, batched), "
    "of the output state, of its fidelity with a target, and along directions of input states, is compared with "
    "analytic forward derivatives of the reference; small programs also second derivatives. Systematic: every "
    "parametric gate with 0-2 controls at special angles (0, tiny, multiples of pi/2) on basis and generic states. "
    "Non-trivial: some derivative exceeds 1e-6. Distinct by program."
)
PN = ["a", "b", "theta", "x_1"]
POOL = gen.PAR1 * 5 + gen.FIX1 + gen.FIX2


def finish(rng, c):
    c["via"] = rng.choice(["rev", "rev", "rev", "fwd", "fwd", "jit", "vmap"])
    c["mode"] = rng.choice(["ad", "adjoint"]) if c["st"]["k"] in gen.STATES and not ref.has_noise(c["ops"]) else "ad"
    return c


def vector(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    names = rng.choice([("o1", "o2"), ("a", "o2"), ("a", "b")])
    ops = gen.nest(rng, gen.rgates(rng, n, 1, 8, names=PN[: rng.randint(1, 4)], pool=POOL, pconst=0.15), n)
    return finish(rng, make(rng, n, ops, gen.rstate(rng, n), names))


def mixed(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    ops = gen.rgates(rng, n, 1, 6, names=PN[: rng.randint(1, 3)], pool=POOL, pconst=0.15, pnoise=rng.choice([0, 0, 0.4]))
    st = gen.rdm(rng, n) if rng.random() < 0.6 else gen.rstate(rng, n)
    return finish(rng, make(rng, n, ops, st))


def many(rng, tier):
    """An ansatz with 8 to 24 parameters."""
    n = rng.choice([2, 3, 4])
    ops = gen.layered(rng, n, rng.randint(1, 3), rng.choice([("RY",), ("RX", "RY"), ("RX", "RY", "RZ")]))[:30]
    c = make(rng, n, ops, gen.rstate(rng, n))
    c["obs"] = [gen.hamiltonian(rng, n, rng.randint(1, 10))] + ([gen.hamiltonian(rng, n, 1)] * rng.randint(0, 2))
    return finish(rng, c)


def hess(rng, tier):
    n = rng.choice([1, 2])
    ops = gen.rgates(rng, n, 1, 4, names=PN[: rng.randint(1, 2)], pool=POOL, pconst=0.1)
    c = make(rng, n, ops, gen.rstate(rng, n), names=("o1", "a"), depth=1)
    c["obs"] = c["obs"][:1]
    c["vals"] = gen.rvalues(rng, sorted(set(gen.names_of(ops)) | set(gen.names_of(c["obs"]))))
    c["hess"] = True
    return finish(rng, c)


def outstate(rng, tier):
    """Derivatives of the output state itself, and of its fidelity with a target."""
    c = vector(rng, tier) if rng.random() < 0.6 else mixed(rng, tier)
    c["obs"], c["kind"] = [], "outstate"
    names = gen.names_of(c["ops"])
    c["vals"] = gen.rvalues(rng, names)
    c["ts"] = rng.randrange(10**6)
    return c


def wrtstate(rng, tier):
    """The derivative of the expectations along a direction in the space of states."""
    c = vector(rng, tier) if rng.random() < 0.6 else mixed(rng, tier)
    c["kind"], c["ts"] = "wrtstate", rng.randrange(10**6)
    return c


FAMILIES = [("vector", 5, vector), ("mixed", 3, mixed), ("many", 0.7, many), ("hessian", 1.6, hess), ("outstate", 1.6, outstate), ("wrtstate", 1.2, wrtstate)]


ANGLES = [0.0, 1e-9, np.pi / 2, np.pi, -np.pi, 2 * np.pi, 4 * np.pi, -8 * np.pi, 1.0]


def systematic(tier):
    """Every parametric gate at special angles, on generic and on basis states."""
    for g in gen.PAR1:
        for nc in (0, 1, 2):
            for st in ("rand", "zero"):
                for mode in ("ad", "adjoint", "overlap"):
                    yield dict(kind="special", g=g, nc=nc, st=st, mode=mode, family="special")


def special(case, mon):
    """Value, derivative and second derivative at special angles, compiled once."""
    import horqrux
    import jax
    import jax.numpy as jnp

    n, vals = 1 + case["nc"], {"a": 0.0}
    gate = {"g": case["g"], "t": [n - 1], "c": list(range(n - 1)) or None, "p": "a"}
    before = [{"g": "X", "t": [q], "c": None} for q in range(n - 1)] if case["st"] == "zero" else []
    ops = before + [gate]
    sj = {"k": case["st"], "n": n, "s": 7}
    st0, st, circ = gen.np_state(sj), gen.lib_state(sj), gen.circuit(ops, n)
    if case["mode"] == "overlap":
        targets = [np.eye(2**n)[-1], np.eye(2**n)[-2], gen.np_state({"k": "rand", "n": n, "s": 8})]
        f = lambda a: jnp.stack([horqrux.overlap(jnp.asarray(t.reshape((2,) * n)), horqrux.run(circ, st, {"a": a})) for t in targets])
    else:
        obs = [{"op": "obs", "ops": [{"g": p, "t": [q], "c": None} for q in range(n)]} for p in "XYZ"]
        lib = [gen.build(o) for o in obs]
        f = lambda a: horqrux.expectation(st, circ, lib, {"a": a}, horqrux.DiffMode(case["mode"]))
    d1 = jax.jit(jax.jacrev(f))
    d2 = jax.jit(jax.jacfwd(jax.jacrev(f))) if case["mode"] != "adjoint" else None
    seq = {"op": "seq", "ops": ops}

    def slope(a):
        v = {"a": a}
        if case["mode"] == "overlap":
            out, w = ref.dual(seq, st0, np.zeros_like(st0), v, n, "a")
            return np.array([2 * (np.vdot(t, out).conjugate() * np.vdot(t, w)).real for t in targets])
        return np.array([ref.dexpect(ops, st0, o, v, v, n, "a") for o in obs])

    for i, a in enumerate(ANGLES):
        want = slope(a)
        mon.close("C10.gradient", mon.call("gradient", d1, a), want, 1e-9, f"derivative at {a} ({case['mode']})")
        if i == 0:  # not compiled
            mon.close("C10.gradient", mon.call("gradient", jax.jacfwd(f), a), want, 1e-9, f"derivative at {a} ({case['mode']})")
        if d2 is not None:
            mon.close("C10.hessian", mon.call("hessian", d2, a), ref.deriv(slope, a), 2e-6, f"second derivative at {a} ({case['mode']})")
    mon.tag("special", "mode:" + case["mode"])
    mon.sig(case)


def jvals(v):
    import jax.numpy as jnp

    return {k: (jvals(x) if isinstance(x, dict) else jnp.asarray(float(x))) for k, x in v.items()}


def jacobian(f, lv, via):
    import jax
    import jax.numpy as jnp

    if via == "fwd":
        return jax.jacfwd(f)(lv)
    if via == "jit":
        return jax.jit(jax.jacrev(f))(lv)
    if via == "vmap":  # a batch of values, whose first element is the one we look at
        batch = jax.tree_util.tree_map(lambda x: jnp.stack([x, x + 0.1, -x]), lv)
        return jax.tree_util.tree_map(lambda x: x[0], jax.vmap(jax.jacrev(f))(batch))
    return jax.jacrev(f)(lv)


def outstate_check(case, mon):
    import horqrux
    import jax
    import jax.numpy as jnp
    from horqrux.utils.operator_utils import DensityMatrix

    n, ops, vals = case["n"], case["ops"], case["vals"]
    d = 2**n
    st0, st = gen.np_any(case["st"]), gen.lib_any(case["st"])
    circ = gen.circuit(ops, n)
    if not vals:
        return

    def f(v):
        out = horqrux.run(circ, st, v)
        return out.array if isinstance(out, DensityMatrix) else out

    lv = jvals(vals)
    dm = st0.ndim == 2 or ref.has_noise(ops)
    got = mon.call("jacobian of run", jax.jacfwd(f), lv)
    rho = np.outer(st0, st0.conj()) if dm and st0.ndim == 1 else st0
    r = np.random.default_rng(case["ts"])
    phi = r.normal(size=d) + 1j * r.normal(size=d)
    phi /= np.linalg.norm(phi)
    lphi = jnp.asarray(phi.reshape((2,) * n))
    if not dm:
        fid = mon.call("gradient of overlap", jax.grad(lambda v: horqrux.overlap(lphi, f(v))), lv)
    big = 0.0
    for p in vals:
        if dm:
            _, w = ref.dual_dm(ops, rho, vals, n, p)
        else:
            out, w = ref.dual({"op": "seq", "ops": ops}, st0, np.zeros_like(st0), vals, n, p)
            a, da = np.vdot(phi, out), np.vdot(phi, w)
            mon.close("C10.fidelity", fid[p], 2 * (a.conjugate() * da).real, what=f"d|<phi|psi>|^2/d{p}")
        big = max(big, np.abs(w).max())
        mon.close("C10.state", np.asarray(got[p]).reshape(w.shape), w, what=f"d(output state)/d{p}")
    mon.tag("outstate", "density" if dm else "vector", *circuit_features(ops))
    if big > 1e-6:
        mon.sig(n, ops, case["st"], vals, "o")


def wrtstate_check(case, mon):
    import horqrux
    import jax
    import jax.numpy as jnp
    from horqrux import DiffMode
    from horqrux.utils.operator_utils import DensityMatrix

    n, ops, vals = case["n"], case["ops"], case["vals"]
    d = 2**n
    vc, vo = split(vals)
    st0, st = gen.np_any(case["st"]), gen.lib_any(case["st"])
    circ = gen.circuit(ops, n)
    scaled, F = gen.in_units(case["obs"], case.get("units"))
    obs = [gen.build(o) for o in scaled]
    r = np.random.default_rng(case["ts"])
    dx = r.normal(size=st0.shape) + 1j * r.normal(size=st0.shape)
    lv, mode = jvals(vals), DiffMode(case["mode"])
    if st0.ndim == 2:
        dx = dx + dx.conj().T
        t = DensityMatrix(jnp.asarray(dx.reshape((2,) * (2 * n))))
        dr, rho = dx, st0
    else:
        t = jnp.asarray(dx.reshape((2,) * n))
        rho = np.outer(st0, st0.conj())
        dr = np.outer(dx, st0.conj()) + np.outer(st0, dx.conj())
    f = lambda s: horqrux.expectation(s, circ, obs, lv, mode) / F
    val, got = mon.call("derivative along a state", jax.jvp, f, (st,), (t,))
    if ref.has_noise(ops) or n <= 3:
        out, dout = ref.evolve_dm(ops, rho, vc, n), ref.evolve_dm(ops, dr, vc, n)
        w0 = np.array([np.trace(ref.apply_op(o, out, vo, n)).real for o in case["obs"]])
        w = np.array([np.trace(ref.apply_op(o, dout, vo, n)).real for o in case["obs"]])
    else:
        u = ref.evolve(ops, np.stack([st0, dx], 1), vc, n)
        os = [ref.apply_op(o, u, vo, n) for o in case["obs"]]
        w0 = np.array([np.vdot(u[:, 0], y[:, 0]).real for y in os])
        w = np.array([2 * np.vdot(u[:, 1], y[:, 0]).real for y in os])
    s = max(1.0, float(np.abs(w).max()), float(np.abs(w0).max()))
    mon.close("C10.value", val, w0, 1e-9 * s, "expectation while differentiating")
    mon.close("C10.along-state", got, w, 1e-9 * s, "derivative along a direction of states")
    mon.tag("wrtstate", "mode:" + case["mode"])
    mon.sig(n, ops, case["obs"], case["st"], vals, "w")


def check(case, mon):
    if case.get("kind") == "outstate":
        return outstate_check(case, mon)
    if case.get("kind") == "special":
        return special(case, mon)
    if case.get("kind") == "wrtstate":
        return wrtstate_check(case, mon)
    import horqrux
    import jax
    from horqrux import DiffMode

    n, ops = case["n"], case["ops"]
    vals = case["vals"]
    vc, vo = split(vals)
    if not vc and not vo:
        return
    st0 = gen.np_any(case["st"])
    st = gen.lib_any(case["st"])
    circ = gen.circuit(ops, n)
    scaled, F = gen.in_units(case["obs"], case.get("units"))
    obs = [gen.build(o) for o in scaled]
    mode = DiffMode(case["mode"])
    f = lambda v: horqrux.expectation(st, circ, obs, v, mode) / F
    lv = jvals(vals)
    if "hess" in case:
        g = lambda v: f(v)[0]
        got = mon.call("hessian", jax.hessian(g), lv)
        for p in vals:
            for q in vals:
                want = ref.d2expect(ops, st0, case["obs"][0], vals, n, p, q)
                mon.close("C10.hessian", got[p][q], want, 2e-6 * max(1, abs(want)), f"d2<O>/d{p} d{q}")
        gr = mon.call("gradient", jax.grad(g), lv)
        for p in vals:
            want = ref.dexpect(ops, st0, case["obs"][0], vals, vals, n, p)
            mon.close("C10.gradient", gr[p], want, 1e-9 * max(1, abs(want)), f"d<O>/d{p}")
        mon.sig(n, ops, case["obs"], case["st"], vals, "h")
        return
    got = mon.call("gradient", jacobian, f, lv, case["via"])
    nontrivial = False
    parts = [("circuit", vc), ("observables", vo)] if "circuit" in vals else [("both", vals)]
    for wrt, v in parts:
        g = got if wrt == "both" else got[wrt]
        mon.check(set(g) == set(v), "C10.names", lambda: f"gradients {sorted(g)} for values {sorted(v)}")
        for p in v:
            want = np.array([ref.dexpect(ops, st0, o, vc, vo, n, p, wrt) for o in case["obs"]])
            nontrivial |= bool(np.abs(want).max() > 1e-6)
            mon.close("C10.gradient", g[p], want, 1e-9 * max(1.0, float(np.abs(want).max())), f"{mode} d<O>/d{p} ({wrt})")
            if p == "unused":
                mon.close("C10.unused", g[p], np.zeros(len(obs)), 0, "gradient of an unused parameter")
    mon.tag("via:" + case["via"], "mode:" + case["mode"], "vector" if st0.ndim == 1 else "density", "noisy" if ref.has_noise(ops) else "noiseless", "nested" if "circuit" in vals else "flat", *circuit_features(ops))
    if nontrivial:
        mon.sig(n, ops, case["obs"], case["st"], vals)
