"""Rigorous concentration bounds used by the statistical oracles."""
from __future__ import annotations

import math

import numpy as np

DELTA = 1e-13  # failure probability of each statistical comparison


def bernstein(var, rng, n, delta=DELTA):
    """t with P(|mean of n iid - E| > t) <= delta, for variables of variance var and range rng."""
    L = math.log(2 / delta)
    a = rng * L / (3 * n)
    return a + math.sqrt(a * a + 2 * var * L / n)


def spectrum(mat):
    w = np.linalg.eigvalsh((mat + mat.conj().T) / 2)
    return w


def clusters(mat, out, tol=1e-7):
    """Distinct eigenvalues of an observable and their Born probabilities in `out`."""
    h = (mat + mat.conj().T) / 2
    w, v = np.linalg.eigh(h)
    p = np.abs(v.conj().T @ out) ** 2 if out.ndim == 1 else np.einsum("ji,jk,ki->i", v.conj(), out, v).real
    scale = max(1.0, float(np.abs(w).max()))
    vals, probs = [], []
    for x, q in zip(w, p):
        if vals and x - vals[-1] <= tol * scale:
            probs[-1] += q
        else:
            vals.append(float(x))
            probs.append(float(q))
    return np.array(vals), np.array(probs)
