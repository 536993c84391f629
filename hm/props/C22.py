"""C22: circuit metadata describes the circuit, and the ansatz has its documented form."""
from __future__ import annotations

import numpy as np

from .. import gen, ref
from .C06 import build, decorate

CASES = {"quick": 2400, "thorough": 40000}
FLOOR = {"distinct": 800, "C22.support": 1500, "C22.params": 1500, "C22.order": 1000, "hea": 60, "C22.hea": 300}
RULE = (
    "random nested operations of depth up to 4 and circuits with feature-map parameters on "
    "scattered qubits (also extended by the caller after construction), against metadata computed "
    "from the description; the hardware-efficient ansatz for 1-10 qubits, 0-5 layers, 1-5 rotations "
    "from any constructor, several prefixes, run against the reference. Distinct by request."
)
ASSUMPTIONS = [
    "iterating a scaling yields the scaling itself; iterating any other composition yields its gates",
    "the ansatz repeats the ring of entangling gates after the rotations of each qubit, as the pinned code does",
]


def nested(rng, tier):
    n = rng.choice([1, 2, 3, 4, 6])
    op = decorate(rng, gen.rop(rng, n, names=gen.NAMES, depth=rng.randint(0, 4)))
    q = rng.sample(range(40), n) if rng.random() < 0.4 else None
    return dict(n=n, op=op, relabel=q)


def circuit(rng, tier):
    n = rng.choice([1, 2, 3, 4, 6])
    ops = [decorate(rng, g) for g in gen.nest(rng, gen.rgates(rng, n, 0 if rng.random() < 0.1 else 1, 10), n)]
    names = gen.names_of(ops)
    fp = [x for x in names if rng.random() < 0.4] + (["absent"] if rng.random() < 0.2 else [])
    if fp and rng.random() < 0.2:
        fp.append(fp[0])
    rng.shuffle(fp)
    g = gen.rgate(rng, n)
    return dict(n=n, op={"op": "circ", "n": n, "ops": ops, "fp": fp}, relabel=None, extend=g if rng.random() < 0.4 else None)


def observable(rng, tier):
    n = rng.choice([1, 2, 3, 4])
    return dict(n=n, op=gen.robs(rng, n, names=["o1", "o2"], depth=3, terms=4), relabel=None)


ROT = ["RX", "RY", "RZ", "PHASE"]


def hea(rng, tier):
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 10])
    j = dict(hea=True, n=n, layers=rng.choice([0, 1, 1, 2, 3, 5]) if n < 6 else rng.randint(1, 2), s=rng.randrange(10**6))
    if rng.random() < 0.7:
        j["rot"] = [rng.choice(ROT) for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.6:
        j["prefix"] = rng.choice(["v_", "", "theta", "x y", "0", "p_1_", "circuit"])
    return j


FAMILIES = [("nested", 5, nested), ("circuit", 5, circuit), ("observable", 1.5, observable), ("hea", 0.9, hea)]


def mapped(j, q):
    if q is None:
        return j
    if "g" in j:
        return {**j, "t": [q[x] for x in j["t"]], "c": [q[x] for x in j["c"]] if j.get("c") else None}
    return {**j, "ops": [mapped(s, q) for s in j["ops"]]}


def ident(g):
    """What identifies a gate of the library / of a description."""
    from horqrux.primitives import Primitive

    assert isinstance(g, Primitive), type(g)
    return (g.generator_name, tuple(map(int, g.target[0])), tuple(c for c in (g.control[0] or ()) if c is not None), str(getattr(g, "param", "")), type(g).__name__)


def gate_meta(g, j, mon):
    sup = tuple(sorted(set(j["t"]) | set(j.get("c") or [])))
    mon.check(tuple(g.qubit_support) == sup, "C22.support", lambda: f"support of {j} is {g.qubit_support}")
    mon.check(g.n_qubits == len(sup), "C22.gate", lambda: f"number of qubits of {j} is {g.n_qubits}")
    named = isinstance(j.get("p"), str)
    mon.check(bool(g.is_parametric) == named, "C22.gate", lambda: f"is_parametric of {j} is {g.is_parametric}")
    mon.check([x is g for x in iter(g)] == [True], "C22.order", "iterating a gate does not yield the gate")
    mon.check(bool(j.get("c")) == g.name.startswith("C"), "C22.gate", lambda: f"name of {j} is {g.name}")


def names(j):
    return {g["p"] for g in gen._flat(j) if isinstance(g.get("p"), str)}


def judge(o, j, mon):
    """Metadata of an operation and of all its parts."""
    sup = tuple(sorted({q for g in gen._flat(j) for q in list(g["t"]) + list(g.get("c") or [])}))
    mon.check(isinstance(o.qubit_support, tuple) and tuple(o.qubit_support) == sup, "C22.support", lambda: f"support {o.qubit_support}, expected {sup}")
    want = names(j)
    got = o.param_names
    mon.check(set(got) == want and len(got) == len(want), "C22.params", lambda: f"parameters {got}, expected {want}")
    if j["op"] == "circ":
        fp = list(j.get("fp", []))
        mon.check(o.n_qubits == j["n"], "C22.nqubits", lambda: f"{o.n_qubits} qubits, expected {j['n']}")
        mon.check(list(o.fparams) == fp, "C22.fparams", lambda: f"feature-map parameters {o.fparams}, expected {fp}")
        v = want - set(fp)
        mon.check(set(o.vparams) == v and len(o.vparams) == len(v), "C22.vparams", lambda: f"variational parameters {o.vparams}, expected {v}")
        mon.check(o.n_vparams == len(v), "C22.nvparams", lambda: f"{o.n_vparams} variational parameters, expected {len(v)}")
    else:
        mon.check(o.n_vparams == len(want), "C22.nvparams", lambda: f"{o.n_vparams} parameters, expected {len(want)}")
    it = list(iter(o))
    if j["op"] == "scale":
        mon.check(len(it) == 1 and it[0] is o, "C22.order", "iterating a scaling does not yield the scaling")
    else:
        leaves = list(leaf(o))
        mon.check([id(x) for x in it] == [id(x) for x in leaves], "C22.order", lambda: f"iteration yields {it}, expected {leaves}")
        flat = gen._flat(j)
        mon.check(len(it) == len(flat), "C22.order", lambda: f"{len(it)} gates, expected {len(flat)}")
        for g, d in zip(it, flat):
            gate_meta(g, d, mon)
            mon.check(ident(g)[1:3] == (tuple(d["t"]), tuple(d.get("c") or [])) and ident(g)[3] == str(d.get("p", "")), "C22.order", lambda: f"gate {g} where {d} was put")
    for x, s in zip(parts(o, j), j["ops"]):
        if "g" in s:
            gate_meta(x, s, mon)
        else:
            judge(x, s, mon)


def parts(o, j):
    ops = list(o.operations)
    if j["op"] == "scale" and len(ops) == 1 and len(j["ops"]) == 1 and j["ops"][0].get("op") == "obs":
        return []  # an observable is scaled as the sum of its operations
    return ops


def leaf(o):
    from horqrux.primitives import Primitive

    if isinstance(o, Primitive):
        yield o
    else:
        for x in o.operations:
            yield from leaf(x)


SEEN_NAMES = set()


def check_hea(case, mon):
    import horqrux
    from horqrux.circuit import hea as lib_hea

    n, layers = case["n"], case["layers"]
    kw = {}
    if "rot" in case:
        kw["rot_fns"] = [gen.gate_fn(r) for r in case["rot"]]
    if "prefix" in case:
        kw["variational_param_prefix"] = case["prefix"]
    rot, prefix = case.get("rot", ["RX", "RY", "RX"]), case.get("prefix", "v_")
    gates = mon.call("hea", lib_hea, n, layers, **kw)
    mon.check(isinstance(gates, list), "C22.hea", lambda: f"{type(gates)}")
    ring = [((i + 1) % n, i) for i in range(n)] if n > 1 else []
    want = []
    for _ in range(layers):
        for q in range(n):
            want += [(r, (q,), ()) for r in rot] + [("CX", (t,), (c,)) for t, c in ring]
    got = [(g.name, *ident(g)[1:3]) for g in gates]
    mon.check(got == want, "C22.hea", lambda: f"gates {got[:12]}..., expected {want[:12]}...")
    names = [g.param for g in gates if g.is_parametric]
    mon.check(all(isinstance(x, str) and x.startswith(prefix) and len(x) > len(prefix) for x in names), "C22.hea", lambda: f"names {names[:4]}")
    mon.check(len(set(names)) == len(names) == layers * n * len(rot), "C22.hea", lambda: f"{len(set(names))} distinct names of {len(names)}")
    mon.check(not SEEN_NAMES & set(names), "C22.hea", "a parameter name of an earlier ansatz is used again")
    SEEN_NAMES.update(names)
    mon.check(all(g.noise is None and not g.sparse for g in gates), "C22.hea", "noisy or sparse gates")
    circ = horqrux.QuantumCircuit(n, gates)
    mon.check(circ.vparams == set(names) and circ.n_vparams == len(names), "C22.hea", "variational parameters of the ansatz circuit")
    if layers:
        mon.check(circ.qubit_support == tuple(range(n)), "C22.hea", lambda: f"support {circ.qubit_support}")
    if layers and n <= 4 and len(gates) <= 60:
        r = np.random.default_rng(case["s"])
        vals = {k: float(x) for k, x in zip(names, r.uniform(-3, 3, len(names)))}
        it = iter(names)
        ops = [{"g": k[-1] if k == "CX" else k, "t": list(t), "c": list(c) or None, **({} if k == "CX" else {"p": next(it)})} for k, t, c in want]
        out = mon.call("run", horqrux.run, circ, horqrux.zero_state(n), vals)
        mon.close("C22.hea-state", np.asarray(out).reshape(-1), ref.evolve(ops, gen.np_state({"k": "zero", "n": n}), vals, n), 1e-9, "state of the ansatz")
    mon.tag(f"hea-qubits:{n}", f"hea-layers:{layers}", f"hea-rotations:{len(rot)}")
    mon.sig("hea", n, layers, case.get("rot"), case.get("prefix"))


def check(case, mon):
    if case.get("hea"):
        return check_hea(case, mon)
    j = mapped(case["op"], case["relabel"])
    o = build(j)
    if "g" in j:
        gate_meta(o, j, mon)
    else:
        judge(o, j, mon)
        if case.get("extend"):
            # the metadata follows the contents when the caller extends the circuit
            g = case["extend"]
            o.operations.append(gen.build(g))
            new = {**j, "ops": j["ops"] + [g], "fp": list(j["fp"]) + ["b"]}
            o.fparams.append("b")
            judge(o, new, mon)
            import horqrux

            other = horqrux.QuantumCircuit(1, [horqrux.RX("b", 0)])
            mon.check(list(other.fparams) == [] and other.vparams == {"b"}, "C22.fparams", lambda: f"a new circuit has feature-map parameters {other.fparams}")
            horqrux.QuantumCircuit(1, []).fparams.append("b")
            other = horqrux.QuantumCircuit(1, [horqrux.RX("b", 0)])
            mon.check(list(other.fparams) == [], "C22.fparams", lambda: f"a new circuit has feature-map parameters {other.fparams}")
    mon.tag("op:" + j.get("op", "gate"))
    mon.sig(j)
