"""C03: noisy gates apply exactly their documented channels after the gate."""
from __future__ import annotations

import numpy as np

from .. import gen, ref
from .common import check_valid_dm, circuit_features, outdm, shape_of, val_form

CASES = {"quick": 1000, "thorough": 15000}
FLOOR = {"distinct": 300, "run": 300, "C03.state": 500}
RULE = (
    "systematic: every noise type x extreme/ordinary probabilities x every (n, target, control) of "
    "up to 3 qubits; random: circuits mixing noisy and noiseless gates with 1-4 noise instances "
    "per gate, on vectors, projectors and mixed states. Non-trivial when the noise changes the "
    "reference output; distinct by (n, gates, state, values)."
)
ASSUMPTIONS = [
    "the Kraus maps documented in the noise module define the channels",
    "noise acts on the single target qubit of a gate (noise on multi-target gates is unsupported)",
]


def base(rng, n, ops):
    st = gen.rdm(rng, n) if rng.random() < 0.5 else gen.rstate(rng, n)
    return dict(n=n, ops=ops, st=st, vals=gen.rvalues(rng, gen.names_of(ops)), vf=val_form(rng))


def force_noise(rng, ops):
    gs = [g for g in ops if len(g["t"]) == 1]
    if gs and not any(g.get("noise") for g in gs):
        rng.choice(gs)["noise"] = [gen.rnoise(rng)]
    return ops


def mixed(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    ops = force_noise(rng, gen.rgates(rng, n, 1, 8, pnoise=0.4))
    return base(rng, n, gen.nest(rng, ops, n))


def stacked(rng, tier):
    n = rng.randint(1, 3)
    ops = gen.rgates(rng, n, 1, 3, pool=gen.FIX1 + gen.PAR1, pnoise=0.0)
    for g in ops:
        g["noise"] = [gen.rnoise(rng) for _ in range(rng.randint(2, 5))]
    return base(rng, n, ops)


def wide(rng, tier):
    n = rng.randint(5, 6)
    ops = force_noise(rng, gen.rgates(rng, n, 1, 3, pnoise=0.7, maxc=4))
    return base(rng, n, ops)


def sparse_noise(rng, tier):
    """One noisy gate within a long noiseless circuit with mergeable neighbours."""
    n = rng.randint(1, 3)
    ops = gen.rgates(rng, n, 6, 16)
    one = [g for g in ops if len(g["t"]) == 1]
    if not one:
        ops.append({"g": "H", "t": [0], "c": None})
        one = ops[-1:]
    rng.choice(one)["noise"] = [gen.rnoise(rng) for _ in range(rng.randint(1, 2))]
    return base(rng, n, ops)


FAMILIES = [("mixed", 5, mixed), ("stacked", 2, stacked), ("wide", 1, wide), ("one-noisy", 2, sparse_noise)]


def systematic(tier):
    out = []
    for k in gen.NOISES:
        if k == "PauliChannel":
            ps = [[0, 0, 0], [1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0], [0.1, 0.2, 0.3], [0.5, 0.25, 0.25]]
        elif k == "GeneralizedAmplitudeDamping":
            ps = [[a, b] for a in (0.0, 1.0, 0.3) for b in (0.0, 1.0, 0.6)]
        else:
            ps = [0.0, 1.0, 0.5, 0.13, 1e-8]
        for p in ps:
            out.append(dict(noise=[k, p], family="grid"))
    return out


def check(case, mon):
    if "noise" in case:
        i = 0
        for n, t, c in ((1, 0, None), (2, 0, None), (2, 1, [0]), (3, 1, None), (3, 1, [2, 0]), (3, 2, [1])):
            for st in ({"k": "rand", "n": n, "s": i}, {"k": "mixed", "n": n, "s": i, "r": 2}):
                i += 1
                g = {"g": ["X", "RY", "H", "S"][i % 4], "t": [t], "c": c, "noise": [case["noise"]], "tf": "t"}
                if g["g"] == "RY":
                    g["p"] = 0.9
                one(dict(n=n, ops=[g], st=st, vals={}, vf="f"), mon)
        return
    one(case, mon)


def one(case, mon):
    import horqrux

    n, ops, vals = case["n"], case["ops"], case["vals"]
    v0 = gen.np_any(case["st"])
    flat = [g for j in ops for g in gen._flat(j)]
    noisy = any(g.get("noise") for g in flat)
    rho0 = np.outer(v0, v0.conj()) if v0.ndim == 1 else v0
    want = ref.evolve_dm(ops, rho0, vals, n)
    clean = ref.evolve_dm([{**g, "noise": None} for g in flat], rho0, vals, n)
    lv = gen.lib_values(vals, case["vf"])
    circ = mon.call("build", gen.circuit, ops, n)
    st = gen.lib_any(case["st"])
    for kind, fn in (
        ("run", lambda: horqrux.run(circ, st, lv)),
        ("apply_gates", lambda: horqrux.apply_gates(st, list(iter(circ)), lv)),
    ):
        out = mon.call(kind, fn)
        if not noisy and v0.ndim == 1:
            mon.check(not outdm(out), "C03.type", "a noiseless circuit turned a vector into a density matrix")
            continue
        mon.check(outdm(out), "C03.type", lambda: f"{kind} returned {type(out)} for a noisy circuit")
        mon.close("C03.state", out.array, want.reshape(shape_of(n, True)), 1e-9, f"density matrix returned by {kind}")
        check_valid_dm(mon, "C03", gen.to_np(out))
    mon.tag(f"qubits:{n}", "state:" + case["st"]["k"], *circuit_features(ops))
    if np.abs(want - clean).max() > 1e-6:
        mon.sig(n, ops, case["st"], vals)
