"""C17: Hamiltonian evolution applies exp(-iHt)."""
from __future__ import annotations

import math

import numpy as np

from .. import gen, ref
from .common import circuit_features, shape_of

CASES = {"quick": 520, "thorough": 9000}
FLOOR = {"distinct": 250, "evolve": 600, "C17.state": 600, "C17.additive": 100, "C17.list": 600, "C17.expectation": 40}
RULE = (
    "random Hermitian matrices (dense, diagonal, Pauli sums, degenerate, projectors, zero, large "
    "and tiny norms) on 1-3 targets in any order with 0-2 controls, times of both signs, on vectors "
    "and density matrices, alone and inside circuits with other gates and several evolutions; "
    "additivity in time, inverse, time zero, dagger, tensor and compiled evolution. Non-trivial: "
    "the output differs from the input. Distinct by (H, t, placement, state)."
)
ASSUMPTIONS = [
    "the accuracy of the matrix exponential of JAX is outside the property: the tolerance is 6e-9 (1 + |H t|_1), "
    "three times the largest error of jax.scipy.linalg.expm measured for such norms"
]


def rham(rng, k):
    kind = rng.choice(["dense", "dense", "diag", "pauli", "degenerate", "projector", "zero", "real", "big", "tiny", "weak", "weak"])
    j = {"kind": kind, "k": k, "s": rng.randrange(10**6)}
    if rng.random() < 0.3:  # another unit of energy (and of time)
        j["u"] = rng.choice([1e-12, 1e-9, 1e-7, 1e-5, 1e4, 1e8])
    return j


def ham(j):
    k, kind = j["k"], j["kind"]
    d = 2**k
    r = np.random.default_rng(j["s"])
    a = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))
    h = (a + a.conj().T) / 2
    if kind == "diag":
        h = np.diag(r.normal(size=d)).astype(complex)
    elif kind == "real":
        h = h.real.astype(complex)
    elif kind == "zero":
        h = np.zeros((d, d), complex)
    elif kind == "pauli":
        h = np.zeros((d, d), complex)
        for _ in range(3):
            m = np.eye(1)
            for _ in range(k):
                m = np.kron(m, ref.FIXED["IXYZ"[r.integers(4)]])
            h = h + r.normal() * m
    elif kind in ("degenerate", "projector"):
        _, v = np.linalg.eigh(h)
        w = np.where(np.arange(d) < max(1, d // 2), 1.0, 0.0 if kind == "projector" else -2.0)
        h = (v * w) @ v.conj().T
        h = (h + h.conj().T) / 2
    elif kind == "big":
        h = h * 30
    elif kind == "tiny":
        h = h * 1e-7
    elif kind == "weak":  # couplings far below the (degenerate) energies, which matter in the end
        h = h + 3000 * np.eye(d)
    return h * j.get("u", 1.0)


def rtime(rng):
    return rng.choice([0.0, 1.0, -1.0, math.pi, rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(-20, 20) * 0.3, 1e-6, 10 ** rng.uniform(1.5, 4) * rng.choice([-1, 1])])


def place(rng, n, maxk=3):
    k = rng.randint(1, min(n, maxk))
    qs = rng.sample(range(n), n)
    c = qs[k : k + rng.randint(0, min(2, n - k))] if rng.random() < 0.4 else []
    return {"g": "HAMEVO", "t": qs[:k], "c": c or None}


def alone(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    g = place(rng, n)
    st = gen.rdm(rng, n) if rng.random() < 0.35 else gen.rstate(rng, n)
    return dict(n=n, ops=[g], obs=[], h=rham(rng, len(g["t"])), t=rtime(rng), t2=rtime(rng), st=st, vals={}, jit=rng.random() < 0.2)


def within(rng, tier):
    n = rng.choice([1, 2, 3, 3, 4])
    ops = gen.rgates(rng, n, 1, 6)
    g = place(rng, n)
    ops.insert(rng.randrange(len(ops) + 1), g)
    if rng.random() < 0.6:  # a second evolution under the same Hamiltonian elsewhere
        qs = rng.sample(range(n), n)
        k = len(g["t"])
        r = rng.random()
        if r < 0.2:
            g2 = dict(g)
        elif r < 0.5:  # directly after the first one, with its qubits in another order
            g2 = {"g": "HAMEVO", "t": rng.sample(g["t"], k), "c": g["c"] and rng.sample(g["c"], len(g["c"]))}
            if g["c"] and rng.random() < 0.3:
                g2["t"][0], g2["c"][0] = g2["c"][0], g2["t"][0]
        else:
            g2 = {"g": "HAMEVO", "t": qs[:k], "c": qs[k : k + 1] if rng.random() < 0.3 and n > k else None}
        ops.insert(ops.index(g) + 1 if r < 0.5 and rng.random() < 0.7 else rng.randrange(len(ops) + 1), g2)
    vals = gen.rvalues(rng, gen.names_of([x for x in ops if x["g"] != "HAMEVO"]))
    vals.pop("time", None)
    for x in ops:
        if x.get("p") == "time":
            x["p"] = 0.7
    st = gen.rdm(rng, n) if rng.random() < 0.35 else gen.rstate(rng, n)
    obs = [gen.robs(rng, n, pname=0.0, depth=1, terms=2)] if rng.random() < 0.5 else []
    return dict(n=n, ops=ops, obs=obs, h=rham(rng, len(g["t"])), t=rtime(rng), t2=rtime(rng), st=st, vals=vals, jit=rng.random() < 0.2)


FAMILIES = [("alone", 5, alone), ("within", 3, within)]


def check(case, mon):
    import horqrux
    import jax
    import jax.numpy as jnp
    from horqrux.utils.operator_utils import DensityMatrix, OperationType

    n, ops = case["n"], case["ops"]
    H = ham(case["h"])
    if "u" in case["h"]:
        case = dict(case, t=case["t"] / case["h"]["u"], t2=case["t2"] / case["h"]["u"])
    nt = np.abs(H).sum(0).max() * (abs(case["t"]) + abs(case["t2"]))
    if nt > 5e4:  # jax.scipy.linalg.expm gives no number for norms beyond 3e5
        case = dict(case, t=case["t"] * 5e4 / nt, t2=case["t2"] * 5e4 / nt)
    mon.tag("unit:" + str(case["h"].get("u", 1.0)))
    mon.tag("norm:1e" + str(int(math.log10(max(1.0, min(nt, 5e4))))))
    st0 = gen.np_any(case["st"])
    st = gen.lib_any(case["st"])
    circ = gen.circuit(ops, n)
    gates = list(iter(circ))
    dm = st0.ndim == 2

    def run(t, s=st, form=0):
        hv = jnp.asarray(H) if form != 1 else H
        tv = jnp.asarray(t) if form == 2 else float(t)
        v = {**gen.lib_values(case["vals"]), "hamiltonian": hv, "time_evolution": tv}
        f = lambda s, v: horqrux.run(circ, s, v)
        return mon.call("evolve", jax.jit(f) if case["jit"] else f, s, v)

    def want(t):
        v = {**case["vals"], "hamiltonian": H, "time_evolution": t}
        out = ref.evolve_dm(ops, st0, v, n) if dm else ref.evolve(ops, st0, v, n)
        return out.reshape(shape_of(n, dm))

    arr = lambda x: x.array if isinstance(x, DensityMatrix) else x
    nt = np.abs(H).sum(0).max() * (abs(case['t']) + abs(case['t2']))
    tol = 6e-9 * (1 + nt)
    w = want(case["t"])
    got = run(case["t"], form=case["h"]["s"] % 3)
    mon.check(isinstance(got, DensityMatrix) == dm, "C17.type", lambda: f"{type(got)}")
    mon.close("C17.state", arr(got), w, tol, "evolved state")
    if not dm:
        mon.close("C17.norm", np.linalg.norm(np.asarray(got)), 1.0, tol, "norm")
    lv = {**gen.lib_values(case["vals"]), "hamiltonian": jnp.asarray(H), "time_evolution": case["t"]}
    for merge in (True, False):
        out = mon.call("list", horqrux.apply_gates, st, gates, lv, OperationType.UNITARY, False, merge)
        mon.close("C17.list", arr(out), w, tol, f"list of gates (merge_ops={merge})")
    if case["obs"]:
        out = ref.evolve_dm(ops, st0, {**case["vals"], "hamiltonian": H, "time_evolution": case["t"]}, n) if dm else w.reshape(-1)
        ow = np.array([ref.expect(out, o, {}, n) for o in case["obs"]])
        got_o = mon.call("expectation", horqrux.expectation, st, circ, [gen.build(o) for o in case["obs"]], lv, "ad")
        mon.close("C17.expectation", got_o, ow, tol * max(1.0, float(np.abs(ow).max())), "expectation after the evolution")
    if len(ops) == 1:
        a = run(case["t2"], run(case["t"]))
        mon.close("C17.additive", arr(a), want(case["t"] + case["t2"]), 3 * tol, "two evolutions")
        mon.close("C17.inverse", arr(run(-case["t"], got)), st0.reshape(shape_of(n, dm)), 3 * tol, "evolution back in time")
        mon.close("C17.zero", arr(run(0.0)), st0.reshape(shape_of(n, dm)), tol, "evolution for no time")
        v = {"hamiltonian": jnp.asarray(H), "time_evolution": case["t"]}
        back = mon.call("dagger", horqrux.apply_gates, got, gates, v, OperationType.DAGGER)
        mon.close("C17.inverse", arr(back), st0.reshape(shape_of(n, dm)), 3 * tol, "dagger of the evolution")
        g = gates[0]
        out = mon.call("evolve", g, st, v)
        mon.close("C17.state", arr(out), w, tol, "gate called on the state")
        full = tuple(range(n))
        u = ref.op_matrix(ops[0], {"hamiltonian": H, "time_evolution": case["t"]}, n)
        mon.close("C17.tensor", mon.call("tensor", g.tensor, v, full), u, tol, "tensor of the evolution")
        out = mon.call("evolve", horqrux.apply_operator, st, jnp.asarray(ref.expmh(H, case["t"])), g.target[0], g.control[0])
        mon.close("C17.operator", arr(out), w, tol, "apply_operator with the exponential")
    mon.tag("H:" + case["h"]["kind"], f"targets:{case['h']['k']}", "density" if dm else "vector", "jit" if case["jit"] else "plain", *circuit_features(ops))
    if np.abs(w.reshape(-1) - st0.reshape(-1)).max() > 1e-6:
        mon.sig(n, ops, case["h"], case["t"], case["st"])
