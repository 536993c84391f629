"""C13: shot-based parameter-shift gradients are unbiased seeded estimates."""
from __future__ import annotations

import math

import numpy as np

from .. import gen, ref
from ..stats import bernstein, clusters
from .C09 import make, split
from .C10 import jvals
from .C11 import evolved, finish, gates
from .C12 import same_prob
from .common import circuit_features

CASES = {"quick": 130, "thorough": 3000}
FLOOR = {"distinct": 30, "gradient": 40, "backward": 100, "C13.gradient": 100, "C13.backward": 100}
RULE = (
    "random circuits over uncontrolled rotations and phase gates (controls elsewhere) with "
    "parameters used 0 to 6 times, constants, noise, pure and mixed states, 1-2 observables, 200 to "
    "100000 shots; gradients through jax and from the backward function with several keys must lie "
    "within the Bernstein bound (failure probability 1e-13) of the evaluations the rule needs, "
    "around the true derivative, also when pooled over keys; equal keys repeat, different keys "
    "differ. Non-trivial: some derivative exceeds its bound. Distinct by program."
)
ASSUMPTIONS = ["jax.random generates independent uniform numbers for distinct keys"]
PN = ["a", "b", "theta"]
SHOTS = [200, 5000, 20000, 100000, 100000]


def strip(ops):
    for g in ops:
        if g["g"] in gen.PAR1:
            g["c"] = None
    return ops


def add(rng, c):
    if not any(g.get("p") in gen.NAMES for g in ref.flatten({"op": "seq", "ops": c["ops"]})):
        c["ops"] = list(c["ops"]) + [{"g": "RY", "t": [0], "c": None, "p": "a", "tf": "i"}]
        c["vals"]["a"] = gen.rangle(rng)
    if rng.random() < 0.3:  # many turns
        for k in c["vals"]:
            if rng.random() < 0.7:
                c["vals"][k] = rng.choice([rng.uniform(-60, 60), rng.uniform(-1000, 1000)])
    c["shots"] = rng.choice(SHOTS)
    c["key"] = rng.randrange(10**6)
    c["obs"] = c["obs"][:2]
    c["how"] = rng.choice(["grad", "bwd", "bwd"])
    return c


def vector(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    ops = strip(gates(rng, n, 1, 6, PN[: rng.randint(1, 3)]))
    return add(rng, finish(rng, make(rng, n, gen.nest(rng, ops, n), gen.rstate(rng, n))))


def single(rng, tier):
    n = rng.choice([1, 2, 3])
    ops = strip(gates(rng, n, 1, 5, ["?"], pconst=0.05))
    names = list(gen.NAMES)
    rng.shuffle(names)
    for g in ops:
        if g.get("p") == "?":
            g["p"] = names.pop()
    return add(rng, finish(rng, make(rng, n, ops, gen.rstate(rng, n))))


def many(rng, tier):
    """An ansatz with many parameters: every one is estimated with its own numbers."""
    n = rng.choice([2, 3])
    ops = gen.layered(rng, n, 1, rng.choice([("RY",), ("RX", "RY"), ("RX", "RY", "RZ")]))
    c = make(rng, n, ops, gen.rstate(rng, n))
    c["obs"] = [gen.hamiltonian(rng, n, rng.randint(1, 5))]
    c = add(rng, finish(rng, c))
    c["how"] = rng.choice(["grad", "grad", "bwd"])
    return c


def mixed(rng, tier):
    n = rng.choice([1, 2, 2])
    ops = strip(gates(rng, n, 1, 5, PN[: rng.randint(1, 3)], pnoise=rng.choice([0, 0.4])))
    st = gen.rdm(rng, n) if rng.random() < 0.6 else gen.rstate(rng, n)
    return add(rng, finish(rng, make(rng, n, ops, st)))


FAMILIES = [("vector", 4, vector), ("single", 3, single), ("many", 0.35, many), ("mixed", 2, mixed)]


def shifted_outputs(flat, st0, vc, n, p, repeated):
    """Outputs of the evaluations the rule needs for p: list of (up, down)."""
    s = math.pi / 2
    users = [i for i, g in enumerate(flat) if g.get("p") == p]
    if not repeated or not users:
        return [(evolved(flat, st0, {**vc, p: vc[p] + s}, n), evolved(flat, st0, {**vc, p: vc[p] - s}, n))]
    res = []
    for i in users:
        alt = lambda d: flat[:i] + [{**flat[i], "p": vc[p] + d}] + flat[i + 1 :]
        res.append((evolved(alt(s), st0, vc, n), evolved(alt(-s), st0, vc, n)))
    return res


def check(case, mon):
    import horqrux
    import jax
    from horqrux import DiffMode
    from horqrux.differentiation.gpsr import finite_shots_gpsr_backward

    n, ops, vals, N = case["n"], case["ops"], case["vals"], case["shots"]
    flat = ref.flatten({"op": "seq", "ops": ops})
    cnames = set(gen.names_of(flat)) | {"unused"}
    mine = [p for p in vals if p in cnames]
    if not mine:
        return
    st0 = gen.np_any(case["st"])
    uses = {p: sum(g.get("p") == p for g in flat) for p in mine}
    repeated = max(uses.values()) > 1
    mats = [ref.op_matrix(o, vals, n) for o in case["obs"]]
    spans = [float(np.ptp(np.linalg.eigvalsh((m + m.conj().T) / 2))) for m in mats]
    bounds, wants, random_diff = {}, {}, False
    # a random half of the evaluations that forgets its key shows only over many keys
    K = 96 if N <= 5000 and case["key"] % 2 else 8
    for p in mine:
        wants[p] = np.array([ref.dexpect(ops, st0, o, vals, vals, n, p, "circuit") for o in case["obs"]])
        outs = shifted_outputs(flat, st0, vals, n, p, repeated)
        rows = []
        for m, span in zip(mats, spans):
            vs = []
            for pair in outs:
                for o in pair:
                    w, q = clusters(m, o)
                    vs.append(max(0.0, float((w * w * q).sum() - (w * q).sum() ** 2)))
            # The two evaluations may share their random numbers: their difference is only sure to
            # depend on the key when the distributions differ, in more shots than a few.
            if len(outs) == 1:
                up, down = (clusters(m, o) for o in outs[0])
                gap = abs(float((up[0] * up[1]).sum() - (down[0] * down[1]).sum()))
                same = min(same_prob(x, min(N, 5000), 8) for x in (up, down))
                random_diff |= same < 1e-12 and 0.02 * span < gap < 0.98 * span and N >= 5000
            # each evaluation enters with weight 1/2
            rows.append([sum(bernstein(v, span, k * N) for v in vs) / 2 + 1e-7 for k in (1, K)])
        bounds[p] = np.array(rows)
    st, circ = gen.lib_any(case["st"]), gen.circuit(ops, n)
    obs = [gen.build(o) for o in case["obs"]]
    keys = jax.random.split(gen.key(case["key"]), K)

    def inside(key, got, want, b, what):
        mon.check(np.isfinite(got).all() and (np.abs(got - want) <= b).all(), key, lambda: f"{what} = {got}, derivative {want}, bound {b} ({N} shots)")

    if case["how"] == "grad":
        lv = jvals(vals)
        jac = jax.jacfwd if case["via"] == "fwd" else jax.jacrev
        g = lambda k: jac(lambda v: horqrux.expectation(st, circ, obs, v, DiffMode.GPSR, n_shots=N, key=k))(lv)
        a = mon.call("gradient", g, keys[0])
        again = mon.call("gradient", g, keys[0])
        # compiled once when many keys are drawn
        fast = jax.jit(g) if K > 8 else g
        rs = [mon.call("gradient", fast, k) for k in (keys if K > 8 else keys[1:2])]
        for p in mine:
            for x in (a, *rs):
                mon.check(x[p].shape == (len(obs),), "C13.shape", lambda: f"gradient has shape {x[p].shape}")
                inside("C13.gradient", np.asarray(x[p]), wants[p], bounds[p][:, 0], f"d<O>/d{p}")
            if K > 8:
                inside("C13.pooled", np.mean([x[p] for x in rs], 0), wants[p], bounds[p][:, 1], f"d<O>/d{p} over {K} keys")
            mon.close("C13.seeded", again[p], np.asarray(a[p]), 1e-9, f"same key, d<O>/d{p}")
    else:
        lv = gen.lib_values(vals, "a")
        gs = gen.iterable(iter(circ), n, (0, 0, 1, 4)[case["key"] % 4])
        f = lambda k: np.asarray(mon.call("backward", finite_shots_gpsr_backward, st, gs, obs, lv, N, k))
        rs = [f(k) for k in keys]
        for r in rs:
            mon.check(r.shape == (len(vals),), "C13.shape", lambda: f"backward has shape {r.shape}")
            for i, p in enumerate(vals):
                if p in wants:
                    inside("C13.backward", r[i], wants[p].sum(), bounds[p][:, 0].sum(), f"backward d<O>/d{p}")
        pool = np.mean(rs, 0)
        for i, p in enumerate(vals):
            if p in wants:
                inside("C13.pooled", pool[i], wants[p].sum(), bounds[p][:, 1].sum(), f"backward d<O>/d{p} over {K} keys")
        mon.close("C13.seeded", f(keys[0]), rs[0], 1e-9, "backward with the same key")
        if len(obs) == 1 and random_diff:
            mon.check(any(np.abs(r - rs[0]).max() > 0 for r in rs[1:]), "C13.keys", lambda: f"{K} keys gave the same gradient {rs[0]}")
    mon.tag(f"shots:{N}", f"uses:{max(uses.values())}", "vector" if st0.ndim == 1 else "density", "noisy" if ref.has_noise(ops) else "noiseless", case["how"], *circuit_features(ops))
    if any((np.abs(wants[p]) > bounds[p][:, 0]).any() for p in mine):
        mon.sig(n, ops, case["obs"], case["st"], vals, N, case["how"])
