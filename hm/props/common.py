"""Shared pieces of the property modules."""
from __future__ import annotations

import math

import numpy as np

from .. import gen, ref

ALL1 = gen.FIX1 + gen.PAR1


def val_form(rng):
    return rng.choice(["f", "f", "a", "n", "j"])


def outdm(x):
    from horqrux.utils.operator_utils import DensityMatrix

    return isinstance(x, DensityMatrix)


def check_valid_dm(mon, key, rho, trace=1.0):
    mon.check(np.isfinite(rho).all(), key + ".finite", "density matrix with non-finite entries")
    mon.close(key + ".trace", np.trace(rho), trace, what="trace")
    mon.close(key + ".hermitian", rho, rho.conj().T, what="density matrix minus its adjoint")
    w = np.linalg.eigvalsh((rho + rho.conj().T) / 2)
    mon.check(w.min() > -1e-9, key + ".positive", lambda: f"smallest eigenvalue {w.min()}")


def shape_of(n, dm=False):
    return (2,) * (2 * n if dm else n)


def circuit_features(ops):
    gs = [g for j in ops for g in gen._flat(j)]
    f = set()
    for g in gs:
        f.add("gate:" + g["g"])
        if g.get("c"):
            f.add(f"controls:{len(g['c'])}")
        if len(g["t"]) > 1 and g["t"] != sorted(g["t"]):
            f.add("unsorted-targets")
        if g.get("c") and list(g["c"]) != sorted(g["c"]):
            f.add("unsorted-controls")
        if g.get("noise"):
            f.add(f"noise-instances:{len(g['noise'])}")
            for k, p in g["noise"]:
                f.add("noise:" + k)
    for a, b in zip(gs, gs[1:]):
        if a["t"] == b["t"] and a.get("c") == b.get("c"):
            f.add("mergeable-pair")
    names = [g["p"] for g in gs if isinstance(g.get("p"), str)]
    if len(names) != len(set(names)):
        f.add("repeated-parameter")
    return f
