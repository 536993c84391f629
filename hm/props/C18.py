"""C18: calls are pure: no input is changed and results do not depend on history."""
from __future__ import annotations

import gc
import math

import numpy as np

from .. import gen, ref
from .common import shape_of

CASES = {"quick": 120, "thorough": 3000}
FLOOR = {"distinct": 60, "C18.inputs": 900, "C18.repeat": 300, "C18.fresh": 300, "C18.reference": 300}
RULE = (
    "histories of 12-26 public calls (run, sample, expectations of every mode with and without "
    "shots, reverse and forward gradients, backward functions, conversions, grouping, tensors, "
    "daggers, jit) over a pool of 2 circuits, 2 states, observables and value dictionaries, mixed "
    "with short-lived look-alike objects, garbage collections, default arguments and updates of the "
    "caller's dictionaries, gate lists and observables (often between two equal calls). After every call the whole pool is fingerprinted; calls "
    "are repeated later in the history and on freshly built equal copies, and compared with the "
    "reference. Distinct by history."
)
ASSUMPTIONS = [
    "repeats are compared to 1e-12 (exactly for integer counts), results of the reference to 1e-9",
    "a caller who updates a dictionary of values or a list of operations gets results for the updated contents",
]
NAMES = ["a", "b", "theta"]
POOL = gen.FIX1 + ["RX", "RY", "RZ", "PHASE"] * 3 + ["SWAP", "ISWAP"]
KINDS = [
    ("run", 5), ("call", 2), ("gates", 3), ("sample", 4), ("ad", 4), ("adjoint", 3), ("gpsr", 2.5), ("shots", 2),
    ("gpsr-shots", 0.8), ("grad", 1.2), ("grad-gpsr", 0.8), ("backward", 0.5), ("backward-shots", 0.35), ("jit-backward", 0.6), ("jit-backward-shots", 0.25), ("jit-grad", 0.5), ("gaps", 0.8), ("sparse", 1.4), ("dense", 0.6),
    ("group", 2), ("tensor", 2.5), ("dagger", 2), ("jit", 0.8), ("obs", 2), ("dm", 1.5), ("meta", 2), ("default", 1.5), ("flatten", 1),
]


def history(rng, tier, dm=None):
    n = rng.choice([1, 2, 2, 3])
    dm = rng.random() < 0.4 if dm is None else dm
    circs = []
    for _ in range(2):
        ops = gen.rgates(rng, n, 1, 5, names=NAMES, pool=POOL, maxc=1, pnoise=0.25 if dm else 0.0)
        for g in ops:
            if g["g"] in ("RX", "RY", "RZ") and g["c"]:
                g["c"] = None
        circs.append(gen.nest(rng, ops, n, 1))
    if rng.random() < 0.5:  # the same gates in another order, or with another gate
        b = [dict(g) for g in ref.flatten({"op": "seq", "ops": circs[0]})]
        g = b[rng.randrange(len(b))]
        if rng.random() < 0.4:
            b[b.index(g)] = alike(rng, g)
        elif g["g"] in gen.FIX1 and rng.random() < 0.6:
            g["g"] = rng.choice([x for x in gen.FIX1 if x != g["g"]])
        else:
            rng.shuffle(b)
        circs[1] = b
    states = [gen.rdm(rng, n) if dm and rng.random() < 0.7 else gen.rstate(rng, n) for _ in range(2)]
    obs = gen.robslist(rng, n, rng.randint(1, 2), ("q",), depth=1, terms=2)
    names = NAMES + ["q"]
    vals = [dict(zip(names, (gen.rangle(rng, 0.1) for _ in names))) for _ in range(2)]
    steps, calls = [], []
    for _ in range(rng.randint(12, 26)):
        r = rng.random()
        if r < 0.12:
            steps.append({"s": "churn", "seed": rng.randrange(10**6), "like": rng.randrange(2)})
        elif r < 0.22:
            last = calls and rng.random() < 0.6 and rng.choice(calls[-3:])
            if last:  # the same call before and after the update
                steps.append(dict(last))
            v = last["v"] if last else rng.randrange(2)
            steps.append({"s": "value", "v": v, "k": rng.choice(NAMES + ["q"] * 2), "x": gen.rangle(rng, 0.1)})
            if last:
                steps.append(dict(last))
        elif r < 0.25:
            last = calls and rng.choice(calls[-3:])
            if last:
                steps.append(dict(last))
            steps.append({"s": "term", "t": gen.rterm(rng, n, ["q"], 1, 0.5), "pop": rng.random() < 0.4})
            if last:
                steps.append(dict(last))
        elif r < 0.30:
            g = gen.rgate(rng, n, names=NAMES, pool=gen.FIX1 + ["RX", "RZ"], maxc=0)
            steps.append({"s": "append", "c": rng.randrange(2), "g": g, "how": rng.choice(["append", "insert", "pop"])})
        elif calls and r < 0.55:
            steps.append(dict(rng.choice(calls)))
        else:
            st = {
                "s": "call", "k": rng.choices([k for k, _ in KINDS], [w for _, w in KINDS])[0],
                "c": rng.randrange(2), "st": rng.randrange(2), "v": rng.randrange(2),
                "shots": rng.choice([1, 7, 64]), "key": rng.randrange(4),
            }
            calls.append(st)
            steps.append(dict(st))
    return dict(n=n, circs=circs, states=states, obs=obs, vals=vals, steps=steps, form=rng.choice(["f", "n", "j", "np0"]))


def alike(rng, g):
    """A gate which differs from g in one respect, still without control."""
    g = gen.sibling(rng, g, NAMES)
    if g["g"] in gen.PAR1:
        g["c"] = None
    return g


def derivatives(rng, tier):
    """Gradients of two circuits with the same gates, whose parameters sit elsewhere."""
    n = rng.choice([1, 2, 2])
    names = NAMES[: rng.choice([2, 2, 3])]
    ops = gen.rgates(rng, n, 2, 4, names=names, pool=["RX", "RY", "RZ", "RX", "RY", "PHASE", "H"], maxc=0, pconst=0.0)
    ops = [g for g in ops if g["g"] in gen.PAR1] or [{"g": "RX", "t": [0], "c": None, "p": "a"}]
    ops = ops + [{**g, "p": rng.choice(names)} for g in rng.choices(ops, k=rng.randint(1, 2))]
    a, b = [dict(g) for g in ops], [dict(g) for g in ops]
    for g in b:
        g["p"] = rng.choice(names)
    if rng.random() < 0.3:
        i = rng.randrange(len(b))
        b[i] = alike(rng, b[i])
    vals = {k: gen.rangle(rng, 0.1) for k in NAMES}
    steps = []
    for k in rng.sample(["backward", "grad-gpsr", "jit-backward", "jit-grad"], 2):
        order = [0, 1] if rng.random() < 0.5 else [1, 0]
        for c in order + order[: rng.randint(0, 1)]:
            steps.append({"s": "call", "k": k, "c": c, "st": rng.randrange(2), "v": 0, "shots": 7, "key": 1})
    return dict(
        n=n, circs=[a, b], states=[gen.rstate(rng, n) for _ in range(2)],
        obs=[{"op": "obs", "ops": [{"g": rng.choice("XYZ"), "t": [rng.randrange(n)], "c": None}]} for _ in range(rng.randint(1, 2))],
        vals=[vals, vals], steps=steps, form=rng.choice(["f", "j"]),
    )


FAMILIES = [("derivatives", 1, derivatives), ("vector", 3, lambda r, t: history(r, t, False)), ("density", 2, lambda r, t: history(r, t, True))]


def values(v, form):
    if form == "np0":
        return {k: np.array(x) for k, x in v.items()}
    return gen.lib_values(v, form)


class Pool:
    def __init__(self, case):
        self.n = case["n"]
        self.circs = [gen.circuit(c, self.n, fp=["a"]) for c in case["circs"]]
        self.states = [gen.lib_any(s) for s in case["states"]]
        self.obs = [gen.build(o) for o in case["obs"]]
        self.vals = [values(v, case["form"]) for v in case["vals"]]
        self.gates = [list(iter(c)) for c in self.circs]

    def fingerprint(self):
        return [
            [deep(c) for c in self.circs],
            [deep(s) for s in self.states],
            [deep(o) for o in self.obs],
            [[(k, deep(x)) for k, x in v.items()] for v in self.vals],
            [[deep(g) for g in gs] for gs in self.gates],
        ]


def deep(x):
    """Contents of an object, as plain data (public and private attributes that exist at that time
    are left out unless they belong to the structure: caches may come and go)."""
    from horqrux.composite import OpSequence
    from horqrux.primitives import Primitive
    from horqrux.utils.operator_utils import DensityMatrix

    from .C06 import describe

    if isinstance(x, (Primitive, OpSequence)):
        return describe(x)
    if isinstance(x, DensityMatrix):
        return ("dm",) + deep(x.array)
    if isinstance(x, (int, float)):
        return (type(x).__name__, x)
    a = np.asarray(x)
    return (type(x).__name__, a.shape, str(a.dtype), a.tobytes())


def plain(r):
    """Comparable form of a result: list of numpy arrays / python values."""
    from collections import Counter

    from horqrux.composite import OpSequence
    from horqrux.primitives import Primitive
    from horqrux.utils.operator_utils import DensityMatrix
    from jax.experimental.sparse import BCOO

    from .C06 import describe

    if isinstance(r, DensityMatrix):
        return ["dm", np.asarray(r.array)]
    if isinstance(r, BCOO):
        return ["bcoo", np.asarray(r.todense())]
    if isinstance(r, Counter):
        return ["counter", tuple(sorted(r.items()))]
    if isinstance(r, (Primitive, OpSequence)):
        return ["op", describe(r)]
    if isinstance(r, dict):
        return [x for k in sorted(r) for x in [k] + plain(r[k])]
    if isinstance(r, (list, tuple)):
        return [x for y in r for x in plain(y)]
    if isinstance(r, (set, frozenset)):
        return [tuple(sorted(r))]
    if isinstance(r, (str, int, bool, type(None))):
        return [r]
    return [np.asarray(r)]


def same(mon, key, a, b, tol, what):
    mon.check(len(a) == len(b), key, lambda: f"{what}: {len(a)} parts, then {len(b)}")
    for x, y in zip(a, b):
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            mon.close(key, y, x, tol * max(1.0, float(np.abs(x).max(initial=0))), what)
        else:
            mon.check(isinstance(x, np.ndarray) == isinstance(y, np.ndarray) and x == y, key, lambda: f"{what}: {str(x)[:300]}, then {str(y)[:300]}")


def perform(st, p, mon):
    """One public call on the objects of pool p."""
    import horqrux
    import jax
    import jax.numpy as jnp
    from horqrux import DiffMode
    from horqrux.apply import group_by_index
    from horqrux.differentiation.gpsr import analytical_gpsr_bwd, finite_shots_gpsr_backward
    from horqrux.utils.conversion import to_dense, to_sparse
    from horqrux.utils.operator_utils import DensityMatrix, OperationType, density_mat

    k = st["k"]
    c, s, v = p.circs[st["c"]], p.states[st["st"]], p.vals[st["v"]]
    gates = p.gates[st["c"]]
    key = gen.key(st["key"])
    isdm = isinstance(s, DensityMatrix)
    noisy = any(g.noise for g in gates)
    if k == "adjoint" and (isdm or noisy):
        k = "ad"
    if k == "obs" and isdm:
        k = "ad"
    E = lambda mode, shots=0: (lambda: horqrux.expectation(s, c, p.obs, v, mode, shots, key))
    jv = lambda: {q: jnp.asarray(x, dtype=float) for q, x in v.items()}
    fns = {
        "run": lambda: horqrux.run(c, s, v),
        "call": lambda: c(s, v),
        "gates": lambda: horqrux.apply_gates(s, gates, v, group_gates=bool(st["key"] % 2), merge_ops=bool(st["key"] // 2)),
        "sample": lambda: horqrux.sample(s, c, v, st["shots"]),
        "ad": E(DiffMode.AD), "adjoint": E(DiffMode.ADJOINT), "gpsr": E(DiffMode.GPSR),
        "shots": E(DiffMode.AD, st["shots"]), "gpsr-shots": E(DiffMode.GPSR, st["shots"]),
        "grad": lambda: jax.jacrev(lambda w: horqrux.expectation(s, c, p.obs, w, DiffMode.AD))(jv()),
        "grad-gpsr": lambda: jax.jacrev(lambda w: horqrux.expectation(s, c, p.obs, w, DiffMode.GPSR))(jv()),
        "backward": lambda: analytical_gpsr_bwd(s, gates, p.obs, v),
        "backward-shots": lambda: finite_shots_gpsr_backward(s, gates, p.obs, v, st["shots"], key),
        "jit-backward": lambda: jax.jit(lambda w: analytical_gpsr_bwd(s, gates, p.obs, w))(jv()),
        "jit-backward-shots": lambda: jax.jit(lambda w: finite_shots_gpsr_backward(s, gates, p.obs, w, st["shots"], key))(jv()),
        "jit-grad": lambda: jax.jit(jax.jacrev(lambda w: horqrux.expectation(s, c, p.obs, w, DiffMode.GPSR if st["key"] % 2 else DiffMode.AD)))(jv()),
        "gaps": lambda: [(np.asarray(g.eigenvals_generator), np.asarray(g.spectral_gap)) for g in gates if g.is_parametric],
        "sparse": lambda: to_sparse(c if st["key"] % 2 else p.obs[0]),
        "dense": lambda: to_dense(c if st["key"] % 2 else p.obs[0]),
        "group": lambda: list(group_by_index(gates)),
        "tensor": lambda: (c if st["key"] % 2 else p.obs[0]).tensor(v, tuple(range(p.n))),
        "dagger": lambda: horqrux.apply_gates(s, [g for g in gates if not g.noise], v, OperationType.DAGGER),
        "jit": lambda: jax.jit(lambda s, v: horqrux.run(c, s, v))(s, v),
        "obs": lambda: p.obs[0](s, v),
        "dm": lambda: s if isdm else density_mat(s),
        "meta": lambda: [c.qubit_support, c.param_names, c.vparams, c.n_vparams, c.n_qubits, list(iter(c))],
        "default": lambda: defaults(c, s, mon),
        "flatten": lambda: jax.tree_util.tree_unflatten(*jax.tree_util.tree_flatten(c)[::-1]),
    }
    return k, mon.call(k, fns[k])


def defaults(c, s, mon):
    """Calls which leave the values out: they see no value of an earlier call."""
    import horqrux

    if c.param_names:
        mon.rejects("run-without-values", KeyError, horqrux.run, c, s)
        mon.rejects("expectation-without-values", KeyError, horqrux.expectation, s, c, [horqrux.Observable([horqrux.Z(0)])])
        return 0
    return horqrux.run(c, s)


def churn(step, case, p, mon):
    """Short-lived objects which look like those of the pool: same names, qubits and shapes."""
    import random

    import horqrux

    rng = random.Random(step["seed"])
    like = ref.flatten({"op": "seq", "ops": case["now"][step["like"]]})
    for _ in range(2):
        ops = []
        for g in like:
            g = dict(g)
            pool = gen.FIX1 if g["g"] in gen.FIX1 else ["RX", "RY", "RZ", "PHASE"] if g["g"] in gen.PAR1 else ["SWAP", "ISWAP", "SQRTSWAP"]
            g["g"] = rng.choice(pool)
            if isinstance(g.get("p"), float):
                g["p"] = gen.rangle(rng)
            if g.get("noise"):
                g["noise"] = [gen.rnoise(rng)]
            ops.append(g)
        names = {k: gen.rangle(rng) for k in NAMES}
        st = rng.choice(case["states"])
        c = gen.circuit(ops, p.n)
        s = gen.lib_any(st)
        out = mon.call("churn", horqrux.run, c, s, gen.lib_values(names))
        want = reference(ops, st, names, p.n)
        mon.close("C18.reference", gen.to_np(out), want, 1e-9, "state of a short-lived circuit")
        mon.call("churn", horqrux.sample, s, c, gen.lib_values(names), 3)
        del c, s, out
    gc.collect()


def reference(ops, st, vals, n):
    a = gen.np_any(st)
    return ref.evolve(ops, a, vals, n) if a.ndim == 1 and not ref.has_noise(ops) else ref.evolve_dm(ops, a if a.ndim == 2 else np.outer(a, a.conj()), vals, n)


def check(case, mon):
    case = {**case, "now": [[dict(g) for g in c] for c in case["circs"]], "vals": [dict(v) for v in case["vals"]], "obs": [{**o, "ops": list(o["ops"])} for o in case["obs"]]}
    n = case["n"]
    p = Pool(case)
    seen = {}
    version = [0, 0, 0, 0, 0]  # of circuit 0/1, values 0/1, observable 0
    for i, step in enumerate(case["steps"]):
        where = f"step {i} ({step.get('k', step['s'])})"
        if step["s"] == "churn":
            before = p.fingerprint()
            churn(step, case, p, mon)
            mon.check(p.fingerprint() == before, "C18.inputs", f"{where} changed objects it was not given")
            continue
        if step["s"] == "value":
            case["vals"][step["v"]][step["k"]] = step["x"]
            d = p.vals[step["v"]]
            if isinstance(d[step["k"]], np.ndarray):
                d[step["k"]][...] = step["x"]
            else:
                d[step["k"]] = values({"x": step["x"]}, case["form"])["x"]
            version[2 + step["v"]] += 1
            continue
        if step["s"] == "term":
            o, ops = p.obs[0], case["obs"][0]["ops"]
            if step["pop"] and len(ops) > 1:
                ops.pop()
                o.operations.pop()
            else:
                ops.append(step["t"])
                o.operations.append(gen.build(step["t"]))
            version[4] += 1
            continue
        if step["s"] == "append":
            ci = step["c"]
            c, ops = p.circs[ci], case["now"][ci]
            if step["how"] == "pop" and len(ops) > 1:
                ops.pop()
                c.operations.pop()
            else:
                at = 0 if step["how"] == "insert" else len(ops)
                ops.insert(at, step["g"])
                c.operations.insert(at, gen.build(step["g"]))
            p.gates[ci] = list(iter(c))
            version[ci] += 1
            continue
        before = p.fingerprint()
        k, out = perform(step, p, mon)
        after = p.fingerprint()
        for name, b, a in zip(["circuit", "state", "observable", "values", "gate list"], before, after):
            mon.check(a == b, "C18.inputs", lambda: f"{where} changed a {name}: {show(b, a)}")
        res = plain(out)
        tol = 1e-9 if "grad" in k or "backward" in k else 1e-12
        sig = (k, step["c"], step["st"], step["v"], step["shots"], step["key"], version[step["c"]], version[2 + step["v"]], version[4])
        if sig in seen:
            same(mon, "C18.repeat", seen[sig], res, tol, f"{where}, repeated")
        elif k not in ("grad-gpsr", "backward-shots", "backward", "gpsr-shots", "jit-backward-shots", "jit-grad"):
            fresh = Pool({**case, "circs": case["now"]})
            _, o2 = perform(step, fresh, mon)
            same(mon, "C18.fresh", plain(o2), res, tol, f"{where} on new copies")
        seen[sig] = res
        against_reference(step, k, out, case, mon, where)
        mon.tag("call:" + k)
    mon.sig({x: case[x] for x in ("n", "circs", "states", "steps", "form")})


def show(b, a):
    for x, y in zip(b, a):
        if x != y:
            return f"{str(x)[:400]} -> {str(y)[:400]}"
    return f"{len(b)} -> {len(a)} entries"


def against_reference(step, k, out, case, mon, where):
    n, v = case["n"], case["vals"][step["v"]]
    ops, st = case["now"][step["c"]], case["states"][step["st"]]
    if k in ("run", "call", "gates", "jit"):
        mon.close("C18.reference", gen.to_np(out), reference(ops, st, v, n), 1e-9, where)
    elif k in ("ad", "adjoint", "gpsr"):
        s = reference(ops, st, v, n)
        want = np.array([ref.expect(s, o, v, n) for o in case["obs"]])
        mon.close("C18.reference", out, want, 1e-9 * max(1.0, float(np.abs(want).max())), where)
    elif k == "sample":
        mon.check(sum(out.values()) == step["shots"], "C18.reference", lambda: f"{where}: {out}")
    elif k in ("backward", "jit-backward"):
        s0 = gen.np_any(st)
        names = sorted(v) if k == "jit-backward" else list(v)
        if "q" in gen.names_of(case["obs"]):  # C11's subject: shifts of observables' parameters
            return
        want = np.array([sum(ref.dexpect(ops, s0, o, v, v, n, q) for o in case["obs"]) for q in names])
        mon.close("C18.reference", out, want, 1e-8 * max(1.0, float(np.abs(want).max())), where)
    elif k == "gaps":
        for g, (_, gap) in zip([g for g in ops if isinstance(g.get("p"), str)], out):
            mon.close("C18.reference", gap, np.array([2.0]), 1e-12, f"{where}: spectral gap")
    elif k in ("grad", "jit-grad", "grad-gpsr"):
        if k == "grad-gpsr" and "q" in gen.names_of(case["obs"]):
            return
        if k == "jit-grad" and step["key"] % 2 and "q" in gen.names_of(case["obs"]):
            return
        s0 = gen.np_any(st)
        for q in v:
            want = np.array([ref.dexpect(ops, s0, o, v, v, n, q) for o in case["obs"]])
            mon.close("C18.reference", out[q], want, 1e-8 * max(1.0, float(np.abs(want).max())), f"{where} d/d{q}")
    elif k == "tensor":
        op = {"op": "seq", "ops": ops} if step["key"] % 2 else case["obs"][0]
        want = ref.op_matrix(op, v, n)
        mon.close("C18.reference", out, want, 1e-9 * max(1.0, float(np.abs(want).max())), where)
