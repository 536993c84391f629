"""Independent reference semantics, in plain numpy, of everything the monitors compare against.

Nothing here imports the code under test.  States are vectors of 2**n amplitudes, qubit 0 being the
most significant bit; operations are the JSON descriptions of gen.py.
"""
from __future__ import annotations

import math
import cmath

import numpy as np

C = np.complex128
SQ2 = 1 / math.sqrt(2)

FIXED = {
    "I": [[1, 0], [0, 1]],
    "X": [[0, 1], [1, 0]],
    "NOT": [[0, 1], [1, 0]],
    "Y": [[0, -1j], [1j, 0]],
    "Z": [[1, 0], [0, -1]],
    "H": [[SQ2, SQ2], [SQ2, -SQ2]],
    "S": [[1, 0], [0, 1j]],
    "T": [[1, 0], [0, complex(SQ2, SQ2)]],
    "SWAP": [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]],
    "SQRTSWAP": [
        [1, 0, 0, 0],
        [0, (1 + 1j) / 2, (1 - 1j) / 2, 0],
        [0, (1 - 1j) / 2, (1 + 1j) / 2, 0],
        [0, 0, 0, 1],
    ],
    "ISWAP": [[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]],
    "ISQRTSWAP": [[1, 0, 0, 0], [0, SQ2, 1j * SQ2, 0], [0, 1j * SQ2, SQ2, 0], [0, 0, 0, 1]],
}
FIXED = {k: np.array(v, dtype=C) for k, v in FIXED.items()}
ROT = {"RX": "X", "RY": "Y", "RZ": "Z"}


def gate_matrix(g: str, theta: float | None) -> np.ndarray:
    if g in FIXED:
        return FIXED[g]
    if g in ROT:
        h = theta / 2
        return math.cos(h) * FIXED["I"] - 1j * math.sin(h) * FIXED[ROT[g]]
    if g == "PHASE":
        return np.array([[1, 0], [0, cmath.exp(1j * theta)]], dtype=C)
    raise KeyError(g)


def gate_jacobian(g: str, theta: float) -> np.ndarray:
    if g in ROT:
        h = theta / 2
        return -0.5 * math.sin(h) * FIXED["I"] - 0.5j * math.cos(h) * FIXED[ROT[g]]
    if g == "PHASE":
        return np.array([[0, 0], [0, 1j * cmath.exp(1j * theta)]], dtype=C)
    raise KeyError(g)


def angle(p, values) -> float | None:
    if p is None:
        return None
    return float(values[p]) if isinstance(p, str) else float(p)


def gate_angle(j, values) -> float | None:
    """The angle of a gate, with the shift a rotation may have of its own."""
    t = angle(j.get("p"), values)
    return t + j["shift"] if "shift" in j and j["g"] in ROT else t


def expmh(h: np.ndarray, t: float) -> np.ndarray:
    """exp(-i h t) of a Hermitian matrix."""
    w, v = np.linalg.eigh(h)
    return (v * np.exp(-1j * w * t)) @ v.conj().T


def apply_matrix(u, targets, controls, arr, n, block_only=False):
    """Apply u on `targets` (first target = most significant bit of u) of arr (2**n, ...),
    where every control bit is one; elsewhere the identity (zero if block_only)."""
    arr = np.asarray(arr, dtype=C)
    k = len(targets)
    idx = np.arange(2**n)
    sel = np.ones(2**n, dtype=bool)
    for c in controls or ():
        sel &= ((idx >> (n - 1 - c)) & 1) == 1
    for t in targets:
        sel &= ((idx >> (n - 1 - t)) & 1) == 0
    base = idx[sel]
    offs = []
    for a in range(2**k):
        o = 0
        for j, t in enumerate(targets):
            if (a >> (k - 1 - j)) & 1:
                o |= 1 << (n - 1 - t)
        offs.append(o)
    out = np.zeros_like(arr) if block_only else arr.copy()
    rows = [arr[base | o] for o in offs]
    for a in range(2**k):
        acc = 0
        for b in range(2**k):
            if u[a, b] != 0:
                acc = acc + u[a, b] * rows[b]
        out[base | offs[a]] = acc
    return out


def gate_u(j, values):
    if j["g"] == "HAMEVO":
        t = float(values["time_evolution"]) if "time_evolution" in values else j["time"]
        return expmh(np.asarray(values["hamiltonian"]), t)
    return gate_matrix(j["g"], gate_angle(j, values))


def apply_op(j, arr, values, n):
    """Apply an operation description to a stack of column vectors arr (2**n, ...)."""
    if "g" in j:
        return apply_matrix(gate_u(j, values), j["t"], j.get("c"), arr, n)
    o = j["op"]
    if o in ("seq", "circ"):
        for s in j["ops"]:
            arr = apply_op(s, arr, values, n)
        return arr
    if o in ("add", "obs"):
        return sum(apply_op(s, arr, values, n) for s in j["ops"])
    if o == "scale":
        f = values[j["f"]] if isinstance(j["f"], str) else j["f"]
        for s in j["ops"]:
            arr = apply_op(s, arr, values, n)
        return complex(f) * arr
    raise KeyError(o)


def op_matrix(j, values, n):
    return apply_op(j, np.eye(2**n, dtype=C), values, n)


def sandwich(u, targets, controls, rho, n):
    left = apply_matrix(u, targets, controls, rho, n)
    return apply_matrix(u, targets, controls, left.conj().T, n).conj().T


def kraus(name, p):
    I, X, Y, Z = (FIXED[k] for k in "IXYZ")
    s = lambda x: math.sqrt(max(x, 0.0))
    m = lambda a: np.array(a, dtype=C)
    if name == "BitFlip":
        return [s(1 - p) * I, s(p) * X]
    if name == "PhaseFlip":
        return [s(1 - p) * I, s(p) * Z]
    if name == "Depolarizing":
        return [s(1 - p) * I, s(p / 3) * X, s(p / 3) * Y, s(p / 3) * Z]
    if name == "PauliChannel":
        return [s(1 - sum(p)) * I, s(p[0]) * X, s(p[1]) * Y, s(p[2]) * Z]
    if name == "AmplitudeDamping":
        return [m([[1, 0], [0, s(1 - p)]]), m([[0, s(p)], [0, 0]])]
    if name == "PhaseDamping":
        return [m([[1, 0], [0, s(1 - p)]]), m([[0, 0], [0, s(p)]])]
    if name == "GeneralizedAmplitudeDamping":
        q, r = p
        return [
            s(q) * m([[1, 0], [0, s(1 - r)]]),
            s(q) * m([[0, s(r)], [0, 0]]),
            s(1 - q) * m([[s(1 - r), 0], [0, 1]]),
            s(1 - q) * m([[0, 0], [s(r), 0]]),
        ]
    raise KeyError(name)


def apply_channel(name, p, target, rho, n):
    return sum(sandwich(k, [target], None, rho, n) for k in kraus(name, p))


def choi(ks):
    """Matrix of a channel in the Pauli-free basis: sum_k kron(k, conj k)."""
    return sum(np.kron(k, k.conj()) for k in ks)


def has_noise(ops):
    return any(g.get("noise") for g in flatten({"op": "seq", "ops": ops}))


def flatten(j):
    if "g" in j:
        return [j]
    return [g for s in j["ops"] for g in flatten(s)]


def evolve(ops, vec, values, n):
    """Run gates on a vector (2**n,) -> vector, or a density matrix when some gate is noisy."""
    if not has_noise(ops):
        return apply_op({"op": "seq", "ops": ops}, vec, values, n)
    return evolve_dm(ops, np.outer(vec, vec.conj()), values, n)


def evolve_dm(ops, rho, values, n):
    for g in flatten({"op": "seq", "ops": ops}):
        rho = sandwich(gate_u(g, values), g["t"], g.get("c"), rho, n)
        for name, p in g.get("noise") or ():
            rho = apply_channel(name, p, g["t"][0], rho, n)
    return rho


def expect(out, obs, values, n):
    """<O> of a vector or a density matrix (real part)."""
    if out.ndim == 1:
        return float(np.vdot(out, apply_op(obs, out, values, n)).real)
    return float(np.trace(apply_op(obs, out, values, n)).real)


def probs(out):
    if out.ndim == 1:
        return np.abs(out) ** 2
    return np.diagonal(out).real.clip(0, None)


def deriv(f, x, order=1):
    """Derivative of a trigonometric polynomial-like smooth f by Richardson extrapolation of
    central differences (error ~1e-10 for the functions used here)."""
    hs = [0.04, 0.02, 0.01, 0.005]
    if order == 1:
        col = [(f(x + h) - f(x - h)) / (2 * h) for h in hs]
    else:
        f0 = f(x)
        col = [(f(x + h) - 2 * f0 + f(x - h)) / (h * h) for h in hs]
    k = 1
    while len(col) > 1:
        q = 4.0**k
        col = [(q * b - a) / (q - 1) for a, b in zip(col, col[1:])]
        k += 1
    return col[0]


def dual(j, x, dx, values, n, p):
    """(O x, d/dp (O x)) for x depending on p with derivative dx; p is a parameter name."""
    if "g" in j:
        u = gate_u(j, values)
        y = apply_matrix(u, j["t"], j.get("c"), x, n)
        dy = apply_matrix(u, j["t"], j.get("c"), dx, n)
        if isinstance(j.get("p"), str) and j["p"] == p:
            jac = gate_jacobian(j["g"], gate_angle(j, values))
            dy = dy + apply_matrix(jac, j["t"], j.get("c"), x, n, block_only=True)
        return y, dy
    o = j["op"]
    if o in ("add", "obs"):
        parts = [dual(s, x, dx, values, n, p) for s in j["ops"]]
        return sum(a for a, _ in parts), sum(b for _, b in parts)
    for s in j["ops"]:
        x, dx = dual(s, x, dx, values, n, p)
    if o == "scale":
        f = values[j["f"]] if isinstance(j["f"], str) else j["f"]
        df = 1.0 if j["f"] == p else 0.0
        x, dx = f * x, f * dx + df * x
    return x, dx


def dual_dm(ops, rho, values, n, p):
    d = np.zeros_like(rho)
    for g in flatten({"op": "seq", "ops": ops}):
        u, t, c = gate_u(g, values), g["t"], g.get("c")
        new = sandwich(u, t, c, rho, n)
        d = sandwich(u, t, c, d, n)
        if isinstance(g.get("p"), str) and g["p"] == p:
            jac = gate_jacobian(g["g"], gate_angle(g, values))
            a = apply_matrix(jac, t, c, rho, n, block_only=True)
            b = apply_matrix(u, t, c, a.conj().T, n).conj().T  # J rho U^dagger
            d = d + b + b.conj().T
        rho = new
        for name, q in g.get("noise") or ():
            rho = apply_channel(name, q, t[0], rho, n)
            d = apply_channel(name, q, t[0], d, n)
    return rho, d


def dexpect(ops, state, obs, vc, vo, n, p, wrt="both"):
    """d<O>/dp; vc / vo are the values of the circuit / the observable.
    wrt selects the occurrences: 'circuit', 'observables' or 'both'."""
    pc = p if wrt in ("both", "circuit") else None
    po = p if wrt in ("both", "observables") else None
    if state.ndim == 1 and not has_noise(ops):
        out, dout = dual({"op": "seq", "ops": ops}, state, np.zeros_like(state), vc, n, pc)
        y, dy = dual(obs, out, np.zeros_like(out), vo, n, po)
        return float(2 * np.vdot(dout, y).real + np.vdot(out, dy).real)
    rho = np.outer(state, state.conj()) if state.ndim == 1 else state
    rho, d = dual_dm(ops, rho, vc, n, pc)
    a = np.trace(apply_op(obs, d, vo, n)).real
    b = np.trace(dual(obs, rho, np.zeros_like(rho), vo, n, po)[1]).real
    return float(a + b)


def d2expect(ops, state, obs, values, n, p, q):
    def g(x):
        v = dict(values)
        v[q] = x
        return dexpect(ops, state, obs, v, v, n, p)

    return deriv(g, float(values[q]))
