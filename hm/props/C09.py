"""C09: expectation values equal Tr(rho O) in every mode and for every state type."""
from __future__ import annotations

import numpy as np

from .. import gen, ref
from .common import circuit_features, val_form

CASES = {"quick": 700, "thorough": 16000}
FLOOR = {"distinct": 300, "expectation": 600, "C09.value": 900, "observable()": 100}
RULE = (
    "random circuits, states (pure and mixed), noise, lists of 1-4 random Hermitian observables "
    "with constant or named factors, flat or separate values with clashing names; each program is "
    "evaluated in every mode that supports it and against the reference, observables also one by "
    "one and in reverse order. Non-trivial: some value differs from 0 and +-1. Distinct by program."
)
ASSUMPTIONS = ["adjoint mode is exact only for noiseless state vectors; other requests are C23's"]


def make(rng, n, ops, st, names=("o1", "o2"), depth=2, kind="plain"):
    obs = gen.robslist(rng, n, rng.randint(1, 4), names, depth=depth)
    cn, on = gen.names_of(ops), gen.names_of(obs)
    c = dict(kind=kind, n=n, ops=ops, obs=obs, st=st, vf=val_form(rng), units=gen.units(rng, 4))
    if rng.random() < 0.4:
        c["vals"] = {"circuit": gen.rvalues(rng, cn), "observables": gen.rvalues(rng, on)}
        if rng.random() < 0.5:
            c["vals"] = dict(reversed(c["vals"].items()))
    else:
        c["vals"] = gen.rvalues(rng, sorted(set(cn) | set(on)))
    return c


def vector(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    names = rng.choice([("o1", "o2"), ("a", "b"), tuple(gen.NAMES)])  # clashing names
    ops = gen.nest(rng, gen.rgates(rng, n, 0, 10, names=gen.NAMES[:5]), n)
    return make(rng, n, ops, gen.rstate(rng, n), names, depth=rng.randint(1, 3))


def mixed(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    names = rng.choice([("o1", "o2"), ("a", "b")])
    ops = gen.nest(rng, gen.rgates(rng, n, 0, 7, names=gen.NAMES[:5]), n)
    return make(rng, n, ops, gen.rdm(rng, n), names)


def noisy(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3])
    ops = gen.nest(rng, gen.rgates(rng, n, 1, 7, names=gen.NAMES[:5], pnoise=0.5), n)
    st = gen.rdm(rng, n) if rng.random() < 0.4 else gen.rstate(rng, n)
    return make(rng, n, ops, st)


def wide(rng, tier):
    n = rng.randint(6, 8 if tier == "quick" else 11)
    return make(rng, n, gen.rgates(rng, n, 1, 6), gen.rstate(rng, n))


def hamiltonian(rng, tier):
    """Many terms, and many observables, on an ansatz with many parameters."""
    n = rng.choice([2, 3, 4, 5])
    rots = rng.choice([("RY",), ("RX", "RZ")])
    c = make(rng, n, gen.layered(rng, n, rng.randint(1, 2), rots), gen.rstate(rng, n) if rng.random() < 0.6 or n > 3 else gen.rdm(rng, n))
    if rng.random() < 0.5:
        c["obs"] = [gen.hamiltonian(rng, n, rng.randint(6, 20)) for _ in range(rng.randint(1, 2))]
    else:
        c["obs"] = [gen.hamiltonian(rng, n, 1) for _ in range(rng.randint(5, 13))]
    return c


def composite(rng, tier):
    """Circuits whose operations include scalings or sums (a known finding)."""
    n = rng.choice([1, 2, 3])
    ops = [gen.rop(rng, n, names=("a", "b", "s1"), depth=2) for _ in range(rng.randint(1, 3))]
    return make(rng, n, ops, gen.rstate(rng, n), kind="composite")


def systematic(tier):
    """The known finding, on its smallest circuits."""
    z = [{"op": "obs", "ops": [{"g": "Z", "t": [0], "c": None}]}]
    x = {"g": "X", "t": [0], "c": None}
    h = {"g": "H", "t": [0], "c": None}
    for ops in ([{"op": "scale", "f": 0.5, "ops": [x]}], [{"op": "add", "ops": [x, h]}], [h, {"op": "scale", "f": "s1", "ops": [x]}]):
        yield dict(kind="composite", n=1, ops=ops, obs=z, st={"k": "zero", "n": 1}, vals={"s1": 0.3}, vf="f", family="composite")


FAMILIES = [("vector", 5, vector), ("mixed", 3, mixed), ("noisy", 3, noisy), ("wide", 1, wide), ("hamiltonian", 0.7, hamiltonian), ("composite", 0.5, composite)]


def is_linear(ops):
    """Only gates, sequences and circuits."""
    return all("g" in j or (j["op"] in ("seq", "circ") and is_linear(j["ops"])) for j in ops)


def split(vals):
    return (vals["circuit"], vals["observables"]) if "circuit" in vals else (vals, vals)


def check(case, mon):
    import horqrux
    from horqrux import DiffMode

    n, ops = case["n"], case["ops"]
    vc, vo = split(case["vals"])
    lv = gen.lib_values(case["vals"], case["vf"])
    lo = split(lv)[1]
    st0 = gen.np_any(case["st"])
    out = ref.evolve(ops, st0, vc, n) if st0.ndim == 1 else ref.evolve_dm(ops, st0, vc, n)
    if not is_linear(ops):
        out = ref.apply_op({"op": "seq", "ops": ops}, st0, vc, n)
    want = np.array([ref.expect(out, o, vo, n) for o in case["obs"]])
    tol = 1e-9 * max(1.0, float(np.abs(want).max()))
    st = gen.lib_any(case["st"])
    circ = gen.circuit(ops, n)
    scaled, F = gen.in_units(case["obs"], case.get("units"))
    obs = [mon.call("build", gen.build, o) for o in scaled]
    noisy = ref.has_noise(ops)
    modes = [DiffMode.AD, DiffMode.GPSR]
    if st0.ndim == 1 and not noisy:
        modes.append(DiffMode.ADJOINT)
    if case["kind"] == "composite":
        if not is_linear(ops):
            mon.tag("composite-circuit")
            flat = ref.evolve(ref.flatten({"op": "seq", "ops": ops}), st0, vc, n)
            fwant = np.array([ref.expect(flat, o, vo, n) for o in case["obs"]])
        for m in modes:
            got = np.asarray(mon.call("expectation", horqrux.expectation, st, circ, obs, lv, m)) / F
            if is_linear(ops) or np.abs(got - want).max() <= tol:
                mon.close("C09.value", got, want, tol, f"{m} expectation")
            else:
                mon.close("C09.flattened", got, fwant, tol, f"{m} expectation of a flattened circuit")
                mon.known("composite-in-circuit", f"<O> = {got.tolist()} instead of {want.tolist()} for {ops}")
        return
    import jax.numpy as jnp

    values = {}
    for m in modes:
        got = mon.call("expectation", horqrux.expectation, st, circ, obs, lv, m)
        mon.check(got.shape == (len(obs),) and jnp.isrealobj(got), "C09.shape", lambda: f"{got.shape} {got.dtype}")
        got = np.asarray(got) / F
        mon.close("C09.value", got, want, tol, f"{m} expectation")
        values[m] = got
    for m in modes[1:]:
        mon.close("C09.modes", values[m], values[modes[0]], tol, f"{m} against {modes[0]}")
    # independence of the other observables, and order
    m = modes[len(ops) % len(modes)]
    if len(obs) > 1:
        rev = mon.call("expectation", horqrux.expectation, st, circ, obs[::-1], lv, m)
        rev = np.asarray(rev) / F[::-1]
        mon.close("C09.order", rev, values[m][::-1], 1e-12 * max(1, abs(want).max()), "reversed list")
        one = mon.call("expectation", horqrux.expectation, st, circ, [obs[-1]], lv, m)
        one = np.asarray(one) / F[-1]
        mon.close("C09.independent", one, values[m][-1:], 1e-12 * max(1, abs(want).max()), "single observable")
    # the observable called on the output state
    res = mon.call("run", horqrux.run, circ, st, split(lv)[0])
    for o, w, u in zip(obs, want, F):
        v = np.asarray(mon.call("observable()", o, res, lo)) / u
        mon.close("C09.value", v, w, tol, "observable called on the output state")
    if case["vf"] == "f" and not isinstance(case["vals"].get("circuit"), dict) and not gen.names_of(list(ops) + case["obs"]):
        got = np.asarray(mon.call("expectation", horqrux.expectation, st, circ, obs)) / F  # default values and mode
        mon.close("C09.value", got, want, tol, "expectation with default arguments")
    mon.tag("units" if case.get("units") else "plain units", "noisy" if noisy else "noiseless", "vector" if st0.ndim == 1 else "density", "nested" if "circuit" in case["vals"] else "flat", f"observables:{len(obs)}", *circuit_features(ops))
    if any(min(abs(w - x) for x in (0, 1, -1)) > 1e-6 for w in want):
        mon.sig(n, ops, case["obs"], case["st"], case["vals"])
