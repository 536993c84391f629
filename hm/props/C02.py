"""C02: noiseless circuits evolve density matrices as U rho U^dagger."""
from __future__ import annotations

import numpy as np

from .. import gen, ref
from .C01 import grid
from .common import check_valid_dm, circuit_features, shape_of, val_form

CASES = {"quick": 900, "thorough": 15000}
FLOOR = {"distinct": 300, "run": 300, "C02.state": 600}
RULE = (
    "systematic: every gate on every target/control placement of 2-3 qubits on a mixed state; "
    "random: circuits (mixed, deep, wide up to 6 qubits, 8-10 qubits with few gates in the "
    "thorough tier) on mixed, pure, maximally mixed and projector density matrices. Non-trivial "
    "when the reference output differs from its input; distinct by (n, gates, state, values)."
)
ASSUMPTIONS = ["the numpy reference of hm/ref.py defines the textbook semantics"]


def base(rng, n, ops):
    return dict(n=n, ops=ops, st=gen.rdm(rng, n), vals=gen.rvalues(rng, gen.names_of(ops)), vf=val_form(rng))


def mixed(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 3, 4, 4])
    return base(rng, n, gen.nest(rng, gen.rgates(rng, n, 1, 10), n))


def deep(rng, tier):
    n = rng.randint(1, 3)
    return base(rng, n, gen.rgates(rng, n, 25, 50, names=gen.NAMES[:3]))


def wide(rng, tier):
    n = rng.randint(5, 6 if tier == "quick" else 8)
    return base(rng, n, gen.rgates(rng, n, 1, 4, maxc=5, pctrl=0.6))


def multi(rng, tier):
    """Gates whose support is far from sorted and in the middle of the register."""
    n = rng.randint(3, 6)
    ops = [gen.rgate(rng, n, pool=gen.FIX2 + ["X", "RY", "PHASE"], pctrl=0.8) for _ in range(rng.randint(1, 3))]
    return base(rng, n, ops)


def proj(rng, tier):
    c = mixed(rng, tier)
    c["st"] = {"k": "proj", "n": c["n"], "st": gen.rstate(rng, c["n"])}
    return c


FAMILIES = [("mixed", 5, mixed), ("deep", 1, deep), ("wide", 1, wide), ("multi", 2, multi), ("proj", 2, proj)]


def systematic(tier):
    return [
        dict(grid=g, n=n, k=2 if g in gen.FIX2 else 1, family="grid")
        for g in gen.FIX1 + gen.PAR1 + gen.FIX2
        for n in (2, 3)
    ]


def check(case, mon):
    if "grid" in case:
        n = case["n"]
        for i, j in enumerate(grid(case)):
            one(dict(n=n, ops=[j], st={"k": "mixed", "n": n, "s": i, "r": 2}, vals={"a": -2.1}, vf="f"), mon, True)
    else:
        one(case, mon, False)


def one(case, mon, brief):
    import horqrux
    from horqrux.utils.operator_utils import DensityMatrix, density_mat

    n, ops, vals = case["n"], case["ops"], case["vals"]
    rho0 = gen.np_dm(case["st"])
    want = ref.evolve_dm(ops, rho0, vals, n)
    lv = gen.lib_values(vals, case["vf"])
    circ = mon.call("build", gen.circuit, ops, n)
    st = gen.lib_dm(case["st"])
    out = mon.call("run", horqrux.run, circ, st, lv)
    mon.check(isinstance(out, DensityMatrix), "C02.type", lambda: f"run returned {type(out)}")
    mon.close("C02.state", out.array, want.reshape(shape_of(n, True)), 1e-10, "density matrix returned by run")
    gates = list(iter(circ))
    out2 = mon.call("apply_gates", horqrux.apply_gates, st, gates, lv)
    mon.close("C02.state", out2.array, want.reshape(shape_of(n, True)), 1e-10, "density matrix returned by apply_gates")
    if not brief:
        a = gen.to_np(out)
        check_valid_dm(mon, "C02", a)
        mon.close("C02.purity", np.trace(a @ a), np.trace(rho0 @ rho0), 1e-9, "purity")
        mon.close(
            "C02.spectrum",
            np.linalg.eigvalsh((a + a.conj().T) / 2),
            np.linalg.eigvalsh((rho0 + rho0.conj().T) / 2),
            1e-9,
            "spectrum",
        )
        if case["st"]["k"] == "proj":
            psi = gen.lib_state(case["st"]["st"])
            o = mon.call("run", horqrux.run, circ, psi, lv)
            p = mon.call("density_mat", density_mat, o)
            mon.close("C02.projector", p.array, want.reshape(shape_of(n, True)), 1e-10, "projector of the evolved state")
            p0 = mon.call("density_mat", density_mat, psi)
            o = mon.call("run", horqrux.run, circ, p0, lv)
            mon.close("C02.projector", o.array, want.reshape(shape_of(n, True)), 1e-10, "evolved projector")
        mon.tag(f"qubits:{n}", "state:" + case["st"]["k"], *circuit_features(ops))
    if np.abs(want - rho0).max() > 1e-6:
        mon.sig(n, ops, case["st"], vals)
