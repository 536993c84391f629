"""C12: shot-based expectations are sound, seeded estimates of the exact value."""
from __future__ import annotations

import itertools
import math

import numpy as np

from .. import gen, ref
from ..stats import bernstein, clusters
from .C09 import make, split
from .common import circuit_features

CASES = {"quick": 260, "thorough": 5000}
FLOOR = {"distinct": 120, "shots": 600, "C12.concentration": 400, "C12.lattice": 60}
RULE = (
    "systematic: small constant observables through the compiled function; random programs (pure, mixed and noisy) with lists of 1-3 commuting or non-commuting "
    "observables and shot numbers from 1 to 150001, several keys each, in both modes with shots "
    "and through the compiled function. Monitors: exact lattice of few-shot means (every value is "
    "a mean of eigenvalues of positive probability), spectral range, Bernstein bounds (failure "
    "probability 1e-13) per call and pooled over keys, spread over keys, repetition of keys, joint estimates of multiples of one observable. "
    "Non-trivial: some observable has variance above 0.01. Distinct by program and shots."
)
ASSUMPTIONS = ["jax.random generates independent uniform numbers for distinct keys"]
SHOTS = [1, 1, 2, 3, 7, 50, 1000, 1000, 20000, 100000, 150001]


def addshots(rng, c):
    c["shots"] = rng.choice(SHOTS)
    c["mode"] = rng.choice(["ad", "gpsr"])
    c["key"] = rng.randrange(10**6)
    c["nkeys"] = 12 if c["shots"] <= 50 else (5 if c["shots"] <= 1000 else 2)
    c["obs"] = c["obs"][:3]
    c["jit"] = rng.random() < 0.15
    return c


def factors(rng):
    """Names of the factors of observables: also names the circuit uses."""
    return rng.choice([("o1", "o2"), ("o1", "o2"), ("a", "b"), tuple(gen.NAMES)])


def vector(rng, tier):
    n = rng.choice([1, 2, 2, 3, 4])
    return addshots(rng, make(rng, n, gen.nest(rng, gen.rgates(rng, n, 0, 7), n), gen.rstate(rng, n), factors(rng)))


def clash(rng, tier):
    """Separate values of the circuit and of the observables, under the same names."""
    n = rng.choice([1, 2, 3])
    names = ("a", "b")
    ops = gen.rgates(rng, n, 1, 6, names=names)
    if not any("p" in g for g in ops):
        ops.append({"g": "RX", "t": [0], "c": None, "p": "a"})
    c = make(rng, n, ops, gen.rstate(rng, n) if rng.random() < 0.6 else gen.rdm(rng, n), names)
    c["obs"][0] = {"op": "obs", "ops": [{"op": "scale", "f": rng.choice(names), "ops": c["obs"][0]["ops"]}]}
    c["vals"] = {w: {k: rng.uniform(-3, 3) for k in names} for w in rng.sample(["circuit", "observables"], 2)}
    return addshots(rng, c)


def mixed(rng, tier):
    n = rng.choice([1, 2, 3])
    return addshots(rng, make(rng, n, gen.rgates(rng, n, 0, 5), gen.rdm(rng, n), factors(rng)))


def noisy(rng, tier):
    n = rng.choice([1, 2, 3])
    st = gen.rdm(rng, n) if rng.random() < 0.4 else gen.rstate(rng, n)
    return addshots(rng, make(rng, n, gen.rgates(rng, n, 1, 5, pnoise=0.5), st, factors(rng)))


def pauli(rng, tier):
    """Pauli strings and their scalings: lists that commute, anticommute, or share qubits."""
    n = rng.choice([1, 2, 3, 4])
    c = make(rng, n, gen.rgates(rng, n, 1, 6), gen.rstate(rng, n) if rng.random() < 0.6 else gen.rdm(rng, n))

    def string():
        qs = rng.sample(range(n), rng.randint(1, n))
        return {"op": "seq", "ops": [{"g": rng.choice("XYZ"), "t": [q], "c": None} for q in qs]}

    kinds = rng.choice(["one", "zs", "any"])
    obs = []
    for _ in range(rng.randint(1, 3)):
        s = string()
        if kinds == "zs":
            for g in s["ops"]:
                g["g"] = "Z"
        if rng.random() < 0.5:
            s = {"op": "scale", "f": rng.uniform(-2, 2), "ops": [s]}
        obs.append({"op": "obs", "ops": [s]})
    c["obs"] = obs
    return addshots(rng, c)


def multiples(rng, tier):
    """One measurement evaluates every multiple of an observable."""
    c = rng.choice([pauli, vector, noisy])(rng, tier)
    o = c["obs"][0]["ops"]
    base = o[0] if len(o) == 1 else {"op": "add", "ops": o}
    c["factors"] = [1.0] + [rng.choice([-1.0, 1.0, 0.5, rng.uniform(-3, 3)]) for _ in range(rng.randint(1, 2))]
    c["obs"] = [{"op": "obs", "ops": [base]}] + [{"op": "obs", "ops": [{"op": "scale", "f": f, "ops": [base]}]} for f in c["factors"][1:]]
    return c


def hamiltonian(rng, tier):
    n = rng.choice([2, 3, 4])
    c = make(rng, n, gen.layered(rng, n, 1, ("RY",)), gen.rstate(rng, n))
    many = rng.random() < 0.5
    c = addshots(rng, c)
    c["obs"] = [gen.hamiltonian(rng, n, 1) for _ in range(rng.randint(4, 9))] if many else [gen.hamiltonian(rng, n, rng.randint(5, 12))]
    return c


def spread(rng, tier):
    """Many keys: the spread of the estimates follows 1/sqrt(n)."""
    c = pauli(rng, tier)
    c["shots"] = rng.choice([100, 400, 1500])
    c["nkeys"] = 30
    c["jit"] = False
    return c


def systematic(tier):
    """Small constant observables, compiled: whatever the compiler can evaluate in advance."""
    one = [{"g": g, "t": [0], "c": None} for g in "XYZH"]
    two = [{"op": "seq", "ops": [{"g": a, "t": [0], "c": None}, {"g": b, "t": [1], "c": None}]} for a in "XYZ" for b in "XYZ"]
    lists = [[o] for o in one + two] + [[{"op": "scale", "f": -1.5, "ops": [one[1]]}], [{"op": "add", "ops": one[:2]}]]
    lists += [[a, b] for a in one[:3] for b in one[:3] if a is not b]
    for i, l in enumerate(lists):
        n = 2 if l[0] in two else 1
        st = {"k": "mixed", "n": n, "s": i, "r": 2} if i % 3 == 0 else {"k": "rand", "n": n, "s": i}
        ops = [{"g": g, "t": [0], "c": None, "p": p} for g, p in (("RX", "a"), ("RZ", 0.7), ("RY", "b"))]
        yield dict(
            n=n, ops=ops, obs=[{"op": "obs", "ops": [o]} for o in l], st=st, vals={"a": 0.3 + i, "b": 1.1 - i}, vf="f",
            shots=4000, mode=["ad", "gpsr"][i % 2], key=i, nkeys=3, jit=True, family="compiled",
        )


FAMILIES = [("vector", 4, vector), ("clash", 1, clash), ("mixed", 2, mixed), ("noisy", 2, noisy), ("pauli", 3, pauli), ("hamiltonian", 0.5, hamiltonian), ("multiples", 1, multiples), ("spread", 1, spread)]


def check(case, mon):
    import horqrux
    import jax
    from horqrux import DiffMode
    from horqrux.differentiation.gpsr import jitted_finite_shots

    n, ops, N = case["n"], case["ops"], case["shots"]
    vc, vo = split(case["vals"])
    lv = gen.lib_values(case["vals"], "f")
    st0 = gen.np_any(case["st"])
    out = ref.evolve(ops, st0, vc, n) if st0.ndim == 1 else ref.evolve_dm(ops, st0, vc, n)
    mats = [ref.op_matrix(o, vo, n) for o in case["obs"]]
    spec = [clusters(m, out) for m in mats]
    exact = np.array([float((w * p).sum()) for w, p in spec])
    var = np.array([max(0.0, float((w * w * p).sum() - e * e)) for (w, p), e in zip(spec, exact)])
    span = np.array([w[-1] - w[0] for w, p in spec])
    big = np.array([max(1.0, float(np.abs(w).max())) for w, _ in spec])
    st, circ = gen.lib_any(case["st"]), gen.circuit(ops, n)
    scaled, F = gen.in_units(case["obs"], case.get("units"))
    obs = [gen.build(o) for o in scaled]
    key = gen.key(case["key"])
    keys = jax.random.split(key, case["nkeys"])
    mode = DiffMode(case["mode"])
    if case["jit"]:
        gates = list(iter(circ))
        call = lambda k: jitted_finite_shots(st, gates, obs, lv, N, k)
    else:
        call = lambda k: horqrux.expectation(st, circ, obs, lv, mode, n_shots=N, key=k)
    ests = []
    for k in keys:
        e = np.asarray(mon.call("shots", call, k))
        e = e / F
        mon.check(e.shape == (len(obs),) and e.dtype.kind == "f", "C12.shape", lambda: f"{e.shape} {e.dtype}")
        ests.append(e)
        for i in range(len(obs)):
            w, p = spec[i]
            tol = 1e-7 * big[i]
            mon.check(w[0] - tol <= e[i] <= w[-1] + tol, "C12.range", lambda: f"estimate {e[i]} outside the spectrum [{w[0]}, {w[-1]}]")
            lattice(mon, e[i], w, p, N, tol)
            t = bernstein(var[i], span[i], N) + tol
            mon.check(abs(e[i] - exact[i]) <= t, "C12.concentration", lambda: f"observable {i}: estimate {e[i]} of {exact[i]} with {N} shots (bound {t:.3g})")
    ests = np.array(ests)
    if "factors" in case:
        mon.close("C12.joint", ests, np.outer(ests[:, 0], case["factors"]), 1e-7 * big.max(), "estimates of multiples of one observable from the same shots")
    # pooled over independent keys
    t = np.array([bernstein(v, s, N * len(keys)) for v, s in zip(var, span)]) + 1e-7 * big
    d = np.abs(ests.mean(0) - exact)
    mon.check((d <= t).all(), "C12.pooled", lambda: f"mean of {len(keys)} keys {ests.mean(0)} of {exact}, bound {t}")
    if case["nkeys"] >= 12:
        sp = ests.std(0, ddof=1) ** 2 * N
        for i in range(len(obs)):
            if span[i] > 1e-3 and same_prob(spec[i], N, len(keys)) < 1e-13:
                mon.check(len(set(np.round(ests[:, i], 9))) > 1, "C12.keys", lambda: f"{len(keys)} keys gave the same estimate {ests[0, i]} (variance {var[i]})")
            if var[i] > 0.05 * span[i] ** 2 and span[i] > 1e-3:
                if case["nkeys"] >= 30 and N >= 100:
                    r = sp[i] / var[i]
                    mon.check(0.08 < r < 4.5, "C12.rate", lambda: f"spread over keys times {N} shots is {sp[i]}, variance {var[i]}")
    again = np.asarray(mon.call("shots", call, keys[0])) / F
    mon.check((again == ests[0]).all(), "C12.seeded", lambda: f"same key gave {again} and {ests[0]}")
    if not case["jit"] and case["key"] % 3 == 0:
        # default key is fixed
        f = lambda: np.asarray(horqrux.expectation(st, circ, obs, lv, mode, n_shots=N))
        a, b = mon.call("shots", f), mon.call("shots", f)
        mon.check((a == b).all(), "C12.seeded", "default key gave different estimates")
        c = np.asarray(mon.call("shots", horqrux.expectation, st, circ, obs, lv, mode, N, jax.random.PRNGKey(0)))
        mon.check((a == c).all(), "C12.seeded", lambda: f"default key gave {a}, the documented PRNGKey(0) {c}")
    mon.tag(f"shots:{N}", "vector" if out.ndim == 1 else "density", f"observables:{len(obs)}", "commuting" if commuting(mats) else "non-commuting", "jit" if case["jit"] else "plain", *circuit_features(ops))
    if var.max() > 0.01:
        mon.sig(n, ops, case["obs"], case["st"], case["vals"], N, case["mode"])


def same_prob(spec, N, K):
    """Bound on the probability that K independent means of N values coincide (two-valued only)."""
    p = spec[1][spec[1] > 1e-15]
    if len(p) != 2 or N > 5000:
        return 1.0
    q = min(max(p[0], 1e-15), 1 - 1e-15)
    m = min(N, int((N + 1) * q))
    atom = math.exp(math.lgamma(N + 1) - math.lgamma(m + 1) - math.lgamma(N - m + 1) + m * math.log(q) + (N - m) * math.log(1 - q))
    return atom ** (K - 1)


def commuting(mats):
    return all(np.abs(a @ b - b @ a).max() < 1e-9 for a, b in itertools.combinations(mats, 2))


def lattice(mon, e, w, p, N, tol):
    """The estimate is a mean of N eigenvalues of positive probability."""
    pos = w[p > 1e-12]
    if len(pos) == 1:
        mon.check(abs(e - pos[0]) <= tol, "C12.lattice", lambda: f"estimate {e} of a certain outcome {pos[0]}")
    elif len(pos) == 2:
        if (pos[1] - pos[0]) * 1.0 / N > 100 * tol:
            k = (e - pos[0]) / (pos[1] - pos[0]) * N
            mon.check(abs(k - round(k)) * (pos[1] - pos[0]) / N <= 2 * tol, "C12.lattice", lambda: f"{e} is not a mean of {N} values among {pos}")
    elif N <= 3:
        means = [sum(c) / N for c in itertools.combinations_with_replacement(pos, N)]
        mon.check(min(abs(e - m) for m in means) <= 2 * tol, "C12.lattice", lambda: f"{e} is not a mean of {N} values among {pos}")
