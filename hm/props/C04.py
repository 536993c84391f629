"""C04: Kraus operators are complete, and inadmissible probabilities are rejected."""
from __future__ import annotations

import numpy as np

from .. import gen, ref

CASES = {"quick": 3000, "thorough": 60000}
FLOOR = {"distinct": 800, "kraus": 800, "C04.channel": 800}
RULE = (
    "admissible probability settings (uniform, 0, 1, within 1e-16..1e-2 of the bounds, simplex "
    "faces and corners) of all noise types, and inadmissible ones (just outside the bounds, far "
    "outside, one bad entry of several, sums above one). Distinct by setting; settings whose "
    "channel is the identity count as trivial."
)
ASSUMPTIONS = ["a sum of Pauli probabilities above one only by rounding is left out"]


def ok(rng, tier):
    return dict(noise=gen.rnoise(rng), form=rng.choice(["t", "l", "f", "n"]))


def edge(rng, tier):
    k = rng.choice(gen.NOISES)
    e = 10 ** rng.uniform(-16, -3)
    p = rng.choice([e, 1 - e, 0.0, 1.0, 5e-324])
    if k == "PauliChannel":
        q = [0.0, 0.0, 0.0]
        i = rng.randrange(3)
        q[i] = p
        if rng.random() < 0.5:
            q[(i + 1) % 3] = (1 - p) * rng.random() * 0.99
        p = q
    elif k == "GeneralizedAmplitudeDamping":
        p = [p, rng.random()] if rng.random() < 0.5 else [rng.random(), p]
    return dict(noise=[k, p], form="t")


def bad(rng, tier):
    k = rng.choice(gen.NOISES)
    e = 10 ** rng.uniform(-12, 2)
    x = rng.choice([1 + e, -e, 1 + 1e-9, -1e-9, 2.0, -1.0, 1.5, -0.5, float("inf"), -float("inf")])
    if k == "PauliChannel":
        if rng.random() < 0.4:
            w = [rng.uniform(0.05, 1.0) for _ in range(3)]
            s = sum(w)
            target = 1 + 10 ** rng.uniform(-9, 0.2)
            p = [min(1.0, y / s * target) for y in w]
            if sum(p) <= 1 + 1e-12:
                p = [0.5, 0.4, 0.3]
        else:
            p = [rng.uniform(0, 0.2) for _ in range(3)]
            p[rng.randrange(3)] = x
    elif k == "GeneralizedAmplitudeDamping":
        p = [rng.random(), rng.random()]
        p[rng.randrange(2)] = x
    else:
        p = x
    return dict(noise=[k, p], bad=True)


FAMILIES = [("ok", 4, ok), ("edge", 2, edge), ("bad", 4, bad)]


def check(case, mon):
    import horqrux
    from horqrux.noise import DigitalNoiseInstance, DigitalNoiseType

    k, p = case["noise"]
    pp = tuple(p) if isinstance(p, list) else p
    if case.get("bad"):
        def use():
            inst = DigitalNoiseInstance(DigitalNoiseType(k), pp)
            return inst.kraus

        mon.rejects("kraus", ValueError, use)

        def run():
            g = horqrux.H(0, noise=(DigitalNoiseInstance(DigitalNoiseType(k), pp),))
            return horqrux.run(horqrux.QuantumCircuit(1, [g]), horqrux.zero_state(1))

        mon.rejects("run", ValueError, run)
        mon.sig("bad", k, p)
        return
    if case["form"] == "l" and isinstance(p, list):
        pp = list(p)
    if case["form"] == "n":
        pp = np.float64(p) if not isinstance(p, list) else tuple(np.float64(x) for x in p)
    inst = mon.call("instance", DigitalNoiseInstance, DigitalNoiseType(k), pp)
    ks = [np.asarray(x) for x in mon.call("kraus", lambda: inst.kraus)]
    mon.check(all(x.shape == (2, 2) and np.isfinite(x).all() for x in ks), "C04.shape", "Kraus operators are not finite 2x2 matrices")
    comp = sum(x.conj().T @ x for x in ks)
    mon.close("C04.complete", comp, np.eye(2), 1e-12, f"sum K^dagger K of {k}({p})")
    want = ref.choi(ref.kraus(k, p))
    mon.close("C04.channel", ref.choi(ks), want, 1e-12, f"channel of {k}({p})")
    mon.tag("noise:" + k)
    if np.abs(want - np.eye(4)).max() > 1e-14:
        mon.sig(k, p)
