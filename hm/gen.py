"""Generators of JSON-serialisable programs, and builders of the corresponding objects.

A gate is {"g": name, "t": [targets], "c": [controls] or None, "p": name | float | None,
"noise": [[type, probability], ...] or None, "tf": how target/control are written}.
A composition is {"op": "seq" | "circ" | "add" | "obs" | "scale", "ops": [...], ...}.
"""
from __future__ import annotations

import copy
import json
import math
import zlib

import numpy as np

PI = math.pi
FIX1 = ["X", "Y", "Z", "H", "S", "T", "I", "NOT"]
PAR1 = ["RX", "RY", "RZ", "PHASE"]
FIX2 = ["SWAP", "SQRTSWAP", "ISWAP", "ISQRTSWAP"]
HERM1 = ["X", "Y", "Z", "H", "I"]
SPECIAL = [
    0.0, PI / 2, -PI / 2, PI, -PI, 2 * PI, -2 * PI, 3 * PI, 4 * PI, -5 * PI, PI / 4, PI / 3,
    1e-9, -1e-6, 1e-3, 12.7, -25.3, 100.5, -311.0, 1.0, 2.0, -1.0, 0.5, 6.0, 7.5,
]
NOISE1 = ["BitFlip", "PhaseFlip", "Depolarizing", "AmplitudeDamping", "PhaseDamping"]
NOISES = NOISE1 + ["PauliChannel", "GeneralizedAmplitudeDamping"]
NAMES = ["a", "b", "theta", "x_1", "v_0", "phi", "g", "0", "time", "w", "x", "a_", "A", "v_01"]


def rangle(rng, special=0.3):
    if rng.random() < special:
        return rng.choice(SPECIAL)
    if rng.random() < 0.08:
        return rng.choice([rng.uniform(-40, 40), rng.uniform(-400, 400), rng.uniform(-3000, 3000)])
    return rng.uniform(-2 * PI, 2 * PI)


def rprob(rng):
    r = rng.random()
    if r < 0.08:
        return 0.0
    if r < 0.16:
        return 1.0
    if r < 0.24:
        return 10 ** rng.uniform(-9, -2)
    if r < 0.30:
        return 1 - 10 ** rng.uniform(-9, -2)
    if r < 0.36:
        return 0.5
    return rng.random()


def rnoise(rng, kinds=NOISES):
    k = rng.choice(kinds)
    if k == "PauliChannel":
        while True:
            r = rng.random()
            if r < 0.15:
                p = [0.0, 0.0, 0.0]
                p[rng.randrange(3)] = rng.choice([1.0, rng.random()])
            elif r < 0.3:
                p = [0.25, 0.25, 0.5]
                rng.shuffle(p)
            else:
                w = [rng.random() for _ in range(4)]
                p = [x / sum(w) for x in w[:3]]
                if rng.random() < 0.3:
                    p[rng.randrange(3)] = 0.0
            if sum(p) <= 1.0:
                return [k, p]
    if k == "GeneralizedAmplitudeDamping":
        return [k, [rprob(rng), rprob(rng)]]
    return [k, rprob(rng)]


def rgate(
    rng, n, names=NAMES, pool=None, maxc=None, pconst=0.3, pnoise=0.0, pctrl=0.45, special=0.3,
    prev=None, pshift=0.05,
):
    """A random gate on n qubits."""
    pool = pool or (FIX1 + PAR1 * 2 + FIX2)
    while True:
        g = rng.choice(pool)
        k = 2 if g in FIX2 else 1
        if k <= n:
            break
    if prev is not None and len(prev["t"]) == k and rng.random() < 0.3:
        t, c = list(prev["t"]), (list(prev["c"]) if prev["c"] else None)
        if rng.random() < 0.2 and k == 2:
            t = t[::-1]
        if c and rng.random() < 0.3:
            rng.shuffle(c)
    else:
        qs = rng.sample(range(n), n)
        t = qs[:k]
        free = qs[k:]
        c = None
        m = len(free) if maxc is None else min(maxc, len(free))
        if m and rng.random() < pctrl:
            nc = 1
            while nc < m and rng.random() < 0.4:
                nc += 1
            if rng.random() < 0.08:
                nc = m
            c = free[:nc]
    j = {"g": g, "t": t, "c": c}
    if g in PAR1:
        j["p"] = rangle(rng, special) if rng.random() < pconst else rng.choice(names)
        if g != "PHASE" and rng.random() < pshift:
            j["shift"] = rng.choice([PI / 2, -PI, rng.uniform(-3, 3)])
    if pnoise and k == 1 and rng.random() < pnoise:
        m = 1
        while m < 4 and rng.random() < 0.35:
            m += 1
        j["noise"] = [rnoise(rng) for _ in range(m)]
    r = rng.random()
    j["tf"] = "i" if r < 0.6 else ("t" if r < 0.88 else ("n" if r < 0.94 else "a"))
    if not c and r < 0.15:
        j["nc"] = "none" if r < 0.08 else "tuple"
    return j


def rgates(rng, n, lo, hi, **kw):
    m = rng.randint(lo, hi)
    ops, prev = [], None
    for _ in range(m):
        if ops and rng.random() < 0.05:
            prev = copy.deepcopy(rng.choice(ops))  # often built as the same object again
        elif prev is not None and rng.random() < 0.08:
            prev = sibling(rng, prev if rng.random() < 0.6 else rng.choice(ops), kw.get("names", NAMES))
        else:
            prev = rgate(rng, n, prev=prev, **kw)
        ops.append(prev)
    return ops


def near(rng, x):
    """A number which is easily taken for x."""
    return rng.choice([-x, 2 * x, x + 2 * PI, x + 1e-3, x * (1 + 1e-3), x + 1.0, x + 1e-5])


def sibling(rng, g, names=NAMES):
    """A gate which differs from g in one respect (or in none)."""
    g = copy.deepcopy(g)
    c = g.get("c") or []
    ways = ["same"]
    if len(g["t"]) == 2:
        ways += ["targets"] * 2
    if len(c) > 1:
        ways.append("controls")
    if c:
        ways += ["exchange", "drop"]
    if "p" in g:
        ways += ["angle"] * 2
    if g.get("shift"):
        ways.append("unshift")
    if g.get("noise"):
        ways += ["noise"] * 2
    w = rng.choice(ways)
    if w == "targets":
        g["t"] = g["t"][::-1]
    elif w == "controls":
        g["c"] = c[::-1]
    elif w == "exchange":
        i, k = rng.randrange(len(g["t"])), rng.randrange(len(c))
        g["t"][i], g["c"][k] = g["c"][k], g["t"][i]
    elif w == "drop":
        g["c"] = c[:-1] or None
    elif w == "angle":
        g["p"] = rng.choice(list(names)) if isinstance(g["p"], str) else near(rng, g["p"])
    elif w == "unshift":
        g.pop("shift")
    elif w == "noise":
        if len(g["noise"]) > 1 and rng.random() < 0.5:
            g["noise"] = g["noise"][::-1]
        else:
            i = rng.randrange(len(g["noise"]))
            g["noise"][i] = rnoise(rng, [g["noise"][i][0]])
    return g


def key(seed):
    """A random key of either style (raw or typed) and generator that JAX offers."""
    import jax

    if seed % 4 == 1:
        return jax.random.key(seed)
    if seed % 8 == 3:
        return jax.random.key(seed, impl="rbg")
    return jax.random.PRNGKey(seed)


def rmatrix(rng, n):
    """A density matrix, or any other matrix in its place."""
    return {"k": "general", "n": n, "s": rng.randrange(10**6)} if rng.random() < 0.4 else rdm(rng, n)


MAGS = [1e-12, 1e-9, 1e-7, 1e-5, 1e4, 1e8]


def mag(rng, p=0.15):
    """The magnitude of a vector or matrix: linear maps have to respect every one."""
    return rng.choice(MAGS) if rng.random() < p else 1.0


def units(rng, k, p=0.2):
    """Units in which k observables are measured: factors which are divided out afterwards."""
    if rng.random() > p:
        return None
    return [rng.choice([1e-12, 1e-9, 1e-7, 1e-5, 1e4, 1e8, 1.0]) for _ in range(k)]


def in_units(obs, us):
    """The descriptions of observables scaled by their units, and the units."""
    if not us:
        return obs, np.ones(len(obs))
    us = [us[i % len(us)] for i in range(len(obs))]
    obs = [{"op": "obs", "ops": [{"op": "scale", "f": u, "ops": [{"op": "add", "ops": o["ops"]}]}]} for o, u in zip(obs, us)]
    return obs, np.array(us)


def gates_in(j):
    """The gate descriptions inside a (list of) description(s), to be edited in place."""
    if isinstance(j, list):
        return [g for x in j for g in gates_in(x)]
    return [j] if "g" in j else gates_in(j["ops"])


def twin(rng, case):
    """A case easily taken for the given one: the same but for where parameters sit, a value, a
    constant, a probability, the state, or the order of two operations (None if nothing applies)."""
    case = copy.deepcopy(case)
    gates = gates_in(case.get("ops", [])) + gates_in([case["op"]] if "op" in case else [])
    named = [g for g in gates if isinstance(g.get("p"), str)]
    const = [g for g in gates if isinstance(g.get("p"), float)]
    noisy = [g for g in gates if g.get("noise")]
    ways = []
    if len({g["p"] for g in named}) > 1:
        ways += ["names"] * 4
    if const:
        ways.append("const")
    if noisy:
        ways += ["noise"] * 2
    if len(case.get("ops", [])) > 1:
        ways.append("order")
    vals = case.get("vals") or {}
    sets = [v for v in vals.values() if isinstance(v, dict)] or [vals]
    if any(sets):
        ways += ["value"] * 2
    if isinstance(case.get("st"), dict) and isinstance(case["st"].get("s"), int):
        ways += ["state"] * 2
    if not ways:
        return None
    w = rng.choice(ways)
    if w == "names":
        ps = [g["p"] for g in named]
        for _ in range(5):
            rng.shuffle(ps)
            if ps != [g["p"] for g in named]:
                break
        for g, q in zip(named, ps):
            g["p"] = q
    elif w == "const":
        g = rng.choice(const)
        g["p"] = near(rng, g["p"])
    elif w == "noise":
        g = rng.choice(noisy)
        i = rng.randrange(len(g["noise"]))
        g["noise"][i] = rnoise(rng, [g["noise"][i][0]])
    elif w == "order":
        i, k = rng.sample(range(len(case["ops"])), 2)
        case["ops"][i], case["ops"][k] = case["ops"][k], case["ops"][i]
    elif w == "value":
        v = rng.choice([v for v in sets if v])
        v[rng.choice(sorted(v))] = rangle(rng, 0.1)
    else:
        case["st"]["s"] += 1
    return case


def nest(rng, ops, n, depth=2):
    """Randomly group a flat list of gates in sequences / circuits (same meaning)."""
    if depth == 0 or len(ops) < 2 or rng.random() < 0.3:
        return list(ops)
    out, i = [], 0
    while i < len(ops):
        k = rng.randint(1, len(ops) - i)
        if rng.random() < 0.5:
            inner = nest(rng, ops[i : i + k], n, depth - 1)
            kind = rng.choice(["seq", "circ"])
            j = {"op": kind, "ops": inner}
            if kind == "circ":
                j["n"] = n
            out.append(j)
        else:
            out += ops[i : i + k]
        i += k
    return out


def names_of(j):
    """Named parameters of gates (first) and of scale factors."""
    out = []

    def rec(x):
        if "g" in x:
            if isinstance(x.get("p"), str) and x["p"] not in out:
                out.append(x["p"])
        else:
            if x["op"] == "scale" and isinstance(x["f"], str) and x["f"] not in out:
                out.append(x["f"])
            for s in x["ops"]:
                rec(s)

    for x in j if isinstance(j, list) else [j]:
        rec(x)
    return out


def rvalues(rng, names, extra=0.15, special=0.3):
    names = list(names)
    if rng.random() < extra:
        names.append("unused")
    rng.shuffle(names)
    return {k: rangle(rng, special) for k in names}


# ------------------------------------------------------------------------------------ states

STATES = ["zero", "prod", "uni", "rand", "rand", "rand", "sparse", "real", "ghz", "lib"]


def rstate(rng, n, kinds=STATES):
    k = rng.choice(kinds)
    j = {"k": k, "n": n}
    if k == "prod":
        j["b"] = "".join(rng.choice("01") for _ in range(n))
    if k in ("rand", "sparse", "real", "mixed", "pure"):
        j["s"] = rng.randrange(10**6)
    if k == "mixed":
        j["r"] = rng.randint(1, min(2**n, 5))
    return j


def rdm(rng, n):
    k = rng.choice(["mixed", "mixed", "mixed", "pure", "maxmixed", "proj"])
    j = {"k": k, "n": n, "s": rng.randrange(10**6)}
    if k == "mixed":
        j["r"] = rng.randint(2, min(2**n, 5)) if n > 0 else 1
    if k == "proj":
        j["st"] = rstate(rng, n)
    return j


def np_state(j):
    n, k = j["n"], j["k"]
    d = 2**n
    v = np.zeros(d, dtype=np.complex128)
    if k == "zero":
        v[0] = 1
    elif k == "prod":
        v[int(j["b"], 2)] = 1
    elif k == "uni":
        v[:] = 1 / math.sqrt(d)
    elif k == "ghz":
        v[0] = v[-1] = 1
        v /= np.linalg.norm(v)
    elif k == "lib":
        import horqrux

        v = np.asarray(horqrux.random_state(n)).reshape(-1).astype(np.complex128)
    else:
        r = np.random.default_rng(j["s"])
        v = r.normal(size=d) + (1j * r.normal(size=d) if k != "real" else 0)
        v = v.astype(np.complex128)
        if k == "sparse":
            keep = r.permutation(d)[: max(1, d // 4)]
            m = np.zeros(d)
            m[keep] = 1
            v = v * m
        v /= np.linalg.norm(v)
    return v


def np_dm(j):
    n, k = j["n"], j["k"]
    d = 2**n
    if k == "maxmixed":
        return np.eye(d, dtype=np.complex128) / d
    if k == "proj":
        v = np_state(j["st"])
        return np.outer(v, v.conj())
    r = np.random.default_rng(j["s"])
    if k == "general":  # no state: a coherence, a derivative of a state ...
        return (r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))) / d
    m = j.get("r", 1)
    a = r.normal(size=(d, m)) + 1j * r.normal(size=(d, m))
    rho = a @ a.conj().T
    return rho / np.trace(rho).real


def lib_state(j, sparse=False):
    import jax.numpy as jnp
    from jax.experimental.sparse import BCOO

    a = jnp.asarray(np_state(j).reshape((2,) * j["n"]))
    return BCOO.fromdense(a) if sparse else a


def lib_dm(j):
    import jax.numpy as jnp
    from horqrux.utils.operator_utils import DensityMatrix

    return DensityMatrix(jnp.asarray(np_dm(j).reshape((2,) * (2 * j["n"]))))


def is_dm(j):
    return j["k"] in ("mixed", "pure", "maxmixed", "proj", "general")


def np_any(j):
    return np_dm(j) if is_dm(j) else np_state(j)


def lib_any(j):
    return lib_dm(j) if is_dm(j) else lib_state(j)


def to_np(x):
    """numpy (2**n,) or (2**n, 2**n) array of a library state."""
    from horqrux.utils.operator_utils import DensityMatrix
    from jax.experimental.sparse import BCOO

    if isinstance(x, DensityMatrix):
        a = np.asarray(x.array)
        d = int(round(math.sqrt(a.size)))
        return a.reshape((d, d))
    if isinstance(x, BCOO):
        x = x.todense()
    return np.asarray(x).reshape(-1)


# ------------------------------------------------------------------------------- observables


def rterm(rng, n, names, depth, pname):
    r = rng.random()
    if r < 0.45 or depth == 0:
        if rng.random() < 0.75 or n < 2:
            g = {"g": rng.choice(HERM1), "t": [rng.randrange(n)], "c": None}
            if n > 1 and rng.random() < 0.2:
                free = [q for q in range(n) if q != g["t"][0]]
                g["c"] = rng.sample(free, rng.randint(1, min(2, len(free))))
        else:
            qs = rng.sample(range(n), min(n, 3))
            g = {"g": "SWAP", "t": qs[:2], "c": qs[2:] if rng.random() < 0.4 and len(qs) > 2 else None}
        return g
    if r < 0.70:
        f = rng.choice(names) if rng.random() < pname else rng.choice([-1.0, 0.0, 2.0, rng.uniform(-3, 3)])
        return {"op": "scale", "f": f, "ops": [rterm(rng, n, names, depth - 1, pname)]}
    if r < 0.85:  # Pauli string on distinct qubits
        qs = rng.sample(range(n), rng.randint(1, min(n, 4)))
        return {"op": "seq", "ops": [{"g": rng.choice(HERM1), "t": [q], "c": None} for q in qs]}
    if r < 0.93:
        return {"op": "add", "ops": again(rng, [rterm(rng, n, names, depth - 1, pname) for _ in range(rng.randint(1, 3))])}
    q = rng.randrange(n)  # conjugated operator G(-a) P G(a)
    a, g = rng.uniform(-3, 3), rng.choice(["RX", "RY", "RZ"])
    return {
        "op": "seq",
        "ops": [
            {"g": g, "t": [q], "c": None, "p": -a},
            {"g": rng.choice(["X", "Y", "Z"]), "t": [q], "c": None},
            {"g": g, "t": [q], "c": None, "p": a},
        ],
    }


def robs(rng, n, names=("o1", "o2"), depth=2, pname=0.4, terms=3):
    return {
        "op": "obs",
        "ops": again(rng, [rterm(rng, n, list(names), depth, pname) for _ in range(rng.randint(1, terms))]),
    }


def again(rng, ops):
    """Sometimes one of the operations occurs twice (often as the same object)."""
    if rng.random() < 0.12:
        ops.insert(rng.randrange(len(ops) + 1), copy.deepcopy(rng.choice(ops)))
    return ops


def sibling_obs(rng, j, names=("o1", "o2")):
    """An observable which differs from j in one factor or gate."""
    j = copy.deepcopy(j)
    leaves = []

    def rec(x):
        if "g" in x:
            if x["g"] in HERM1:
                leaves.append(x)
        else:
            if x["op"] == "scale":
                leaves.extend([x, x, x])
            for s in x["ops"]:
                rec(s)

    rec(j)
    if not leaves:
        return j
    x = rng.choice(leaves)
    if "g" in x:
        x["g"] = rng.choice(HERM1)
    elif isinstance(x["f"], str) and rng.random() < 0.7:
        x["f"] = rng.choice(list(names))
    else:
        x["f"] = near(rng, x["f"]) if not isinstance(x["f"], str) else rng.uniform(-2, 2)
    return j


def robslist(rng, n, m, names=("o1", "o2"), **kw):
    """m observables, some of which are easily taken for one another."""
    out = []
    for _ in range(m):
        if out and rng.random() < 0.3:
            out.append(sibling_obs(rng, rng.choice(out), names))
        else:
            out.append(robs(rng, n, names=list(names), **kw))
    return out


def hamiltonian(rng, n, terms, names=(), pname=0.0):
    """A sum of many Pauli strings with coefficients, some of which differ little."""
    out, f = [], 1.0
    for _ in range(terms):
        qs = rng.sample(range(n), rng.randint(1, min(n, 4)))
        s = [{"g": rng.choice("XYZ"), "t": [q], "c": None} for q in qs]
        s = s[0] if len(s) == 1 and rng.random() < 0.5 else {"op": "seq", "ops": s}
        r = rng.random()
        if names and rng.random() < pname:
            s = {"op": "scale", "f": rng.choice(list(names)), "ops": [s]}
        elif r < 0.8:
            f = near(rng, f) if r < 0.15 else rng.uniform(-2, 2)
            s = {"op": "scale", "f": f, "ops": [s]}
        out.append(s)
    return {"op": "obs", "ops": out}


def layered(rng, n, layers, rots=("RX", "RY", "RZ"), style=None, entangler="NOT"):
    """An ansatz with a parameter of its own for every rotation; names order differently as
    strings, as numbers and by position."""
    style = style or rng.choice(["p{}", "p{:02d}", "{}", "v_{}", "rev"])
    k, ops = 0, []
    total = layers * n * len(rots)
    for _ in range(layers):
        for r in rots:
            for q in range(n):
                i = total - k if style == "rev" else k
                ops.append({"g": r, "t": [q], "c": None, "p": ("p{}" if style == "rev" else style).format(i), "tf": "i"})
                k += 1
        for q in range(n - 1 if n == 2 else n):
            if n > 1:
                ops.append({"g": entangler, "t": [(q + 1) % n], "c": [q], "tf": "i"})
    return ops


def rop(rng, n, names=("a", "b", "s1", "s2"), depth=3, scale_complex=False, pool=None):
    """Any operation: gates, sequences, sums, scalings (not necessarily Hermitian)."""
    r = rng.random()
    if depth == 0 or r < 0.3:
        return rgate(rng, n, names=names, pool=pool)
    sub = lambda: rop(rng, n, names, depth - 1, scale_complex, pool)
    if r < 0.5:
        return {"op": "seq", "ops": again(rng, [sub() for _ in range(rng.randint(1, 3))])}
    if r < 0.72:
        return {"op": "add", "ops": again(rng, [sub() for _ in range(rng.randint(1, 3))])}
    if r < 0.78:
        return {"op": "circ", "n": n, "ops": again(rng, [sub() for _ in range(rng.randint(1, 3))])}
    f = rng.choice(list(names)) if rng.random() < 0.5 else rng.choice([0.0, 1.0, -1.0, 2, rng.uniform(-3, 3)])
    k = 1 if rng.random() < 0.75 else 2
    return {"op": "scale", "f": f, "ops": [sub() for _ in range(k)]}


def hermitian(m):
    return bool(np.abs(m - m.conj().T).max() < 1e-12)


def support(j):
    return sorted({q for g in _flat(j) for q in list(g["t"]) + list(g.get("c") or [])})


def _flat(j):
    if "g" in j:
        return [j]
    return [g for s in j["ops"] for g in _flat(s)]


# ---------------------------------------------------------------------------------- builders


def _idx(xs, form):
    xs = list(xs)
    if form == "i" and len(xs) == 1:
        return xs[0]
    if form == "n" and len(xs) == 1:
        return np.int64(xs[0])
    if form == "a":
        return np.array(xs)
    return tuple(xs)


def build_noise(noise):
    from horqrux.noise import DigitalNoiseInstance, DigitalNoiseType

    if not noise:
        return None
    return tuple(
        DigitalNoiseInstance(DigitalNoiseType(k), tuple(p) if isinstance(p, (list, tuple)) else p)
        for k, p in noise
    )


def gate_fn(g):
    import horqrux
    from horqrux import primitives

    return getattr(horqrux, g) if hasattr(horqrux, g) else getattr(primitives, g)


def build(j, sparse=False, memo=None):
    """The library object of a description.  Equal parts of it are equal objects or, for half of the
    descriptions, the same object."""
    if "g" in j and memo is None:
        return _build(j, sparse, {})
    memo = {} if memo is None else memo
    text = json.dumps(j, sort_keys=True, default=str)
    if text in memo:
        return memo[text]
    out = _build(j, sparse, memo)
    if zlib.crc32(text.encode()) % 2:
        memo[text] = out
    return out


def _build(j, sparse, memo):
    import horqrux
    from horqrux.composite import OpSequence

    if "g" in j:
        form = j.get("tf", "t")
        t = _idx(j["t"], form)
        kw = {}
        # mixed plain forms: an uncontrolled gate is written with the default control
        args = [t]
        if j.get("c"):
            args.append(_idx(j["c"], form))
        elif "nc" in j:
            args.append(None if j["nc"] == "none" else (None,))
        if j["g"] == "HAMEVO":
            from horqrux.analog import HamiltonianEvolution

            return HamiltonianEvolution(tuple(j["t"]), *([tuple(j["c"])] if j.get("c") else []))
        if j.get("noise"):
            kw["noise"] = build_noise(j["noise"])
        if sparse:
            kw["sparse"] = True
        fn = gate_fn(j["g"])
        if "shift" in j and j["g"] in ("RX", "RY", "RZ"):
            from horqrux.primitives import Parametric

            return Parametric(j["g"][1], t, args[1] if len(args) > 1 else (None,), param=j["p"], shift=j["shift"], **kw)
        if j["g"] in PAR1:
            return fn(j["p"], *args, **kw)
        return fn(*args, **kw)
    ops = [build(s, sparse, memo) for s in j["ops"]]
    o = j["op"]
    if o == "seq":
        return OpSequence(ops)
    if o == "circ":
        return horqrux.QuantumCircuit(j["n"], ops, list(j.get("fp", [])))
    if o == "add":
        return horqrux.Add(ops)
    if o == "obs":
        return horqrux.Observable(ops)
    if o == "scale":
        return horqrux.Scale(ops[0] if len(ops) == 1 and not j.get("aslist") else ops, j["f"])
    raise KeyError(o)


def iterable(gates, n, form):
    """The gates as some iterable: list, tuple, one-shot iterator, circuit, sequence."""
    import horqrux
    from horqrux.composite import OpSequence

    gates = list(gates)
    return [
        lambda: gates, lambda: tuple(gates), lambda: iter(gates), lambda: (g for g in gates),
        lambda: horqrux.QuantumCircuit(n, gates), lambda: OpSequence(gates),
    ][form % 6]()


def circuit(ops, n, sparse=False, fp=()):
    return build({"op": "circ", "n": n, "ops": ops, "fp": list(fp)}, sparse)


def lib_values(values, form="f"):
    import jax.numpy as jnp

    conv = {"f": float, "n": np.float64, "j": jnp.asarray, "a": lambda x: jnp.array(float(x))}[form]
    return {k: (lib_values(v, form) if isinstance(v, dict) else conv(v)) for k, v in values.items()}
