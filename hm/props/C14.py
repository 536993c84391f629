"""C14: sampling returns n_shots bitstrings from the Born distribution of the circuit's output."""
from __future__ import annotations

import math
from collections import Counter

import numpy as np

from .. import gen, ref
from ..stats import bernstein
from .common import circuit_features

CASES = {"quick": 600, "thorough": 10000}
FLOOR = {"distinct": 250, "sample": 500, "C14.frequency": 500, "C14.support": 500}
RULE = (
    "random circuits on 1-7 qubits, product, entangled, sparse-support, mixed and noisy outputs, 1 "
    "to 100000 shots. Monitors: counts are positive ints summing to the shots, keys have one "
    "character per qubit, no outcome of probability below 1e-14, per-outcome Bernstein bounds and "
    "a chi-square statistic (failure probability 1e-13 each). Non-trivial: two or more outcomes "
    "possible. Distinct by program and shots."
)
ASSUMPTIONS = ["jax.random generates independent uniform numbers"]
SHOTS = [1, 2, 10, 100, 1000, 1000, 10000, 100000, 65537, 262145]


def add(rng, c):
    c["shots"] = rng.choice(SHOTS)
    c["vals"] = gen.rvalues(rng, gen.names_of(c["ops"]))
    return c


def vector(rng, tier):
    n = rng.choice([1, 2, 3, 3, 4, 5, 6, 7])
    return add(rng, dict(n=n, ops=gen.nest(rng, gen.rgates(rng, n, 0, 8), n), st=gen.rstate(rng, n)))


def basis(rng, tier):
    """Permutations of basis states: a single, asymmetric outcome."""
    n = rng.randint(2, 8)
    ops = gen.rgates(rng, n, 0, 6, pool=["X", "SWAP", "NOT", "Z", "S"])
    return add(rng, dict(n=n, ops=ops, st={"k": "prod", "n": n, "b": "".join(rng.choice("01") for _ in range(n))}))


def wide(rng, tier):
    """More than nine qubits: few outcomes, or many more than shots."""
    n = rng.randint(9, 12)
    kinds = ["prod", "ghz", "sparse", "uni", "zero"]
    c = add(rng, dict(n=n, ops=gen.rgates(rng, n, 0, 6), st=gen.rstate(rng, n, kinds)))
    if c["st"]["k"] in ("uni", "zero"):  # hundreds of outcomes, each seen many times
        c["n"] = n = rng.choice([9, 9, 10])
        c["st"] = {"k": "uni", "n": n}
        c["ops"] = gen.rgates(rng, n, 0, 6, pool=["Z", "X", "SWAP", "RZ", "PHASE", "RY"])
        c["vals"] = gen.rvalues(rng, gen.names_of(c["ops"]))
        c["shots"] = rng.choice([100000, 262145])
    return c


def mixed(rng, tier):
    n = rng.choice([1, 2, 3, 4])
    return add(rng, dict(n=n, ops=gen.rgates(rng, n, 0, 6), st=gen.rdm(rng, n)))


def noisy(rng, tier):
    n = rng.choice([1, 2, 3, 4])
    st = gen.rdm(rng, n) if rng.random() < 0.4 else gen.rstate(rng, n)
    return add(rng, dict(n=n, ops=gen.rgates(rng, n, 1, 6, pnoise=0.5), st=st))


FAMILIES = [("vector", 5, vector), ("basis", 2, basis), ("mixed", 3, mixed), ("wide", 0.5, wide), ("noisy", 3, noisy)]


def check(case, mon):
    import horqrux

    n, ops, N, vals = case["n"], case["ops"], case["shots"], case["vals"]
    st0 = gen.np_any(case["st"])
    out = ref.evolve(ops, st0, vals, n) if st0.ndim == 1 else ref.evolve_dm(ops, st0, vals, n)
    p = ref.probs(out)
    circ = gen.circuit(ops, n)
    kw = {} if N == 1000 else {"n_shots": N}
    got = mon.call("sample", horqrux.sample, gen.lib_any(case["st"]), circ, gen.lib_values(vals), **kw)
    mon.check(isinstance(got, Counter), "C14.type", lambda: f"{type(got)}")
    mon.check(all(type(c) is int and c > 0 for c in got.values()), "C14.counts", lambda: f"counts {dict(got)}")
    mon.check(sum(got.values()) == N, "C14.total", lambda: f"{sum(got.values())} counts for {N} shots")
    mon.check(all(isinstance(k, str) and len(k) == n and set(k) <= {"0", "1"} for k in got), "C14.keys", lambda: f"keys {list(got)[:5]} for {n} qubits")
    f = np.zeros(2**n)
    for k, c in got.items():
        f[int(k, 2)] = c
    mon.check(not f[p < 1e-14].any(), "C14.support", lambda: f"outcomes of zero probability: {[(format(i, f'0{n}b'), f[i]) for i in np.flatnonzero((p < 1e-14) & (f > 0))]}")
    t = np.array([bernstein(q * (1 - q), 1.0, N, 1e-15) for q in p]) + 1e-9
    bad = np.abs(f / N - p) > t
    mon.check(not bad.any(), "C14.frequency", lambda: f"outcome {int(np.argmax(np.abs(f / N - p) / t)):0{n}b}: frequencies {f / N} of probabilities {p}")
    # chi-square over outcomes of expected count at least 20 (normal regime), rest pooled
    e = p * N
    big = e >= 20
    if big.sum() >= 2:
        obs, ex = list(f[big]), list(e[big])
        if e[~big].sum() >= 20:
            obs.append(f[~big].sum())
            ex.append(e[~big].sum())
            k = len(ex) - 1
        else:
            k = len(ex)
        x = float(sum((a - b) ** 2 / b for a, b in zip(obs, ex)))
        L = -math.log(1e-15)
        lim = k + 2 * math.sqrt(k * L) + 2 * L  # Laurent-Massart bound
        mon.check(x <= 1.5 * lim, "C14.chi2", lambda: f"chi-square {x} with {k} degrees of freedom (limit {1.5 * lim})")
        low = k - 2 * math.sqrt(k * L)
        if low > 0:  # many outcomes: frequencies which are too regular are no random samples either
            mon.check(x >= 0.7 * low, "C14.regular", lambda: f"chi-square {x} with {k} degrees of freedom (at least {0.7 * low})")
        mon.tag("chi2")
    mon.tag(f"shots:{N}", f"qubits:{n}", "vector" if out.ndim == 1 else "density", *circuit_features(ops))
    if (p > 1e-12).sum() > 1 or case["family"] == "basis":
        mon.sig(n, ops, case["st"], vals, N)
