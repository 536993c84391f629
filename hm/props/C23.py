"""C23: unsupported or invalid requests are rejected, never silently answered."""
from __future__ import annotations

import numpy as np

from .. import gen, ref
from .C18 import deep

CASES = {"quick": 900, "thorough": 16000}
FLOOR = {"distinct": 400, "rejections": 500, "C23.recovery": 500, "C23.inputs": 500}
RULE = (
    "valid random programs made invalid at one random place (shots, mode, state type, one unbound "
    "name of a gate, factor or part of separate values, one inadmissible probability, noise on a "
    "sparse state, one missing qubit of a full support, a qubit outside the register, a control "
    "equal to a target), called plainly, compiled or differentiated; every rejection is followed by "
    "valid calls of the same objects. Distinct by request."
)
ASSUMPTIONS = [
    "adjoint mode takes no shots, so their number is not judged there",
    "the documented exception types are required where the code documents them; elsewhere any exception is a rejection",
]
KINDS = [
    "sample-shots", "sample-shots", "negative-shots", "negative-shots", "adjoint-dm", "adjoint-noise", "sparse-noise", "mode", "unbound-gate",
    "unbound-gate", "unbound-factor", "unbound-nested", "probability", "probability", "support", "support", "qubit", "overlap", "state", "convert",
]


def request(rng, tier):
    k = rng.choice(KINDS)
    n = rng.choice([1, 2, 2, 3]) if k != "overlap" else rng.choice([2, 3])
    ops = gen.rgates(rng, n, 1, 5, names=gen.NAMES[:4])
    if k in ("unbound-gate", "unbound-nested") and not gen.names_of(ops):
        ops.insert(rng.randrange(len(ops) + 1), {"g": rng.choice(gen.PAR1), "t": [rng.randrange(n)], "c": None, "p": rng.choice(gen.NAMES[:4])})
    dm = k in ("adjoint-dm",) or (k not in ("sparse-noise", "adjoint-noise") and rng.random() < 0.35)
    obs = gen.robslist(rng, n, rng.randint(1, 2), depth=1, terms=2)
    if k == "unbound-factor" and not gen.names_of(obs):
        obs.append({"op": "obs", "ops": [{"op": "scale", "f": "o1", "ops": [{"g": "Z", "t": [0], "c": None}]}]})
    return dict(
        k=k, n=n, ops=gen.nest(rng, ops, n, 1), obs=obs, st=gen.rdm(rng, n) if dm else gen.rstate(rng, n),
        vals=gen.rvalues(rng, sorted(set(gen.names_of(ops)) | set(gen.names_of(obs)))),
        bad=rng.choice([-1, -1, -2, -1000, "np"]), zero=rng.random() < 0.5, mode=rng.choice(["ad", "gpsr"]), how=rng.choice(["plain", "plain", "plain", "jit", "grad"]),
        pick=rng.randrange(10**6), noise=gen.rnoise(rng),
    )


FAMILIES = [("request", 1, request)]


def bad_probability(rng):
    k = rng.choice(gen.NOISES)
    x = rng.choice([1.0000001, -1e-7, 1.5, -0.3, 2, -1, 100.0])
    if k == "PauliChannel":
        p = [0.1, 0.2, 0.3]
        if rng.random() < 0.5:
            p[rng.randrange(3)] = x
        else:
            p = rng.choice([[0.5, 0.4, 0.2], [1.0, 0.0, 1e-6], [0.34, 0.33, 0.34]])
        return [k, p]
    if k == "GeneralizedAmplitudeDamping":
        p = [0.4, 0.7]
        p[rng.randrange(2)] = x
        return [k, p]
    return [k, x]


def check(case, mon):
    import random

    import horqrux
    import jax
    import jax.numpy as jnp
    from horqrux import DiffMode
    from horqrux.utils.conversion import to_dense, to_sparse

    k, n, vals = case["k"], case["n"], case["vals"]
    rng = random.Random(case["pick"])
    circ = gen.circuit(case["ops"], n)
    st = gen.lib_any(case["st"])
    obs = [gen.build(o) for o in case["obs"]]
    lv = gen.lib_values(vals)
    v0 = gen.np_any(case["st"])
    dm = v0.ndim == 2

    def valid():
        """The same objects still work."""
        out = mon.call("run", horqrux.run, circ, st, lv)
        flat = ref.flatten({"op": "seq", "ops": case["ops"]})
        want = ref.evolve_dm(flat, v0, vals, n) if dm else ref.evolve(flat, v0, vals, n)
        mon.close("C23.recovery", gen.to_np(out), want, 1e-9, "state")
        e = mon.call("expectation", horqrux.expectation, st, circ, obs, lv)
        w = np.array([ref.expect(want, o, vals, n) for o in case["obs"]])
        mon.close("C23.recovery", e, w, 1e-9 * max(1.0, float(np.abs(w).max())), "expectation")

    def wrap(fn):
        """fn(values) called plainly, compiled or differentiated."""
        if case["how"] == "jit":
            return lambda v: jax.jit(fn)(v)
        if case["how"] == "grad" and vals:
            return lambda v: jax.jacrev(fn)({q: jnp.asarray(float(x)) for q, x in v.items()})
        return fn

    def reject(exc, fn, *a, what=k):
        mon.rejects(what, exc, fn, *a)
        with mon.lock:
            mon.events["rejections"] += 1

    objects = lambda: [deep(circ), deep(st), [deep(o) for o in obs], [(q, deep(x)) for q, x in lv.items()]]
    before = objects()
    if rng.random() < 0.5:
        valid()
    shots = np.int64(-3) if case["bad"] == "np" else case["bad"]
    E = lambda v, mode=DiffMode(case["mode"]), s=0, c=circ, state=st, o=obs: horqrux.expectation(state, c, o, v, mode, s)
    if k == "sample-shots":
        s = 0 if case["zero"] else shots
        reject(ValueError, lambda: horqrux.sample(st, circ, lv, s))
        reject(ValueError, lambda: horqrux.sample(state=st, circuit=circ, values=lv, n_shots=s))
    elif k == "negative-shots":
        reject(ValueError, wrap(lambda v: E(v, s=shots)), lv)
    elif k == "adjoint-dm":
        reject(TypeError, wrap(lambda v: E(v, DiffMode.ADJOINT)), lv)
    elif k == "adjoint-noise":  # the noise turns the state into a density matrix
        c2 = noisy(case, rng, case["noise"], gen.circuit)
        reject(Exception, wrap(lambda v: E(v, DiffMode.ADJOINT, c=c2)), lv)
    elif k == "sparse-noise":
        c2 = to_sparse(noisy(case, rng, case["noise"], gen.circuit))
        s2 = to_sparse(st)
        reject(NotImplementedError, horqrux.run, c2, s2, lv)
        reject(NotImplementedError, horqrux.apply_gates, s2, list(iter(c2)), lv)
        reject(NotImplementedError, lambda: E(lv, DiffMode.AD, c=c2, state=s2, o=[to_sparse(o) for o in obs]))
    elif k == "mode":
        m = rng.choice(["foo", "AD", "", None, 0, "adjoint ", "psr", "GPSR", "parameter-shift", True])
        reject(ValueError, wrap(lambda v: E(v, m, s=rng.choice([0, 10]))), lv)
    elif k == "unbound-gate":
        q = rng.choice(gen.names_of(case["ops"]))
        less = {a: b for a, b in lv.items() if a != q}
        if rng.random() < 0.5:
            less[q + "_"] = 0.1
        if case["how"] != "plain":
            less = {a: jnp.asarray(float(b)) for a, b in less.items()}
        f = rng.choice([
            lambda v: horqrux.run(circ, st, v), lambda v: circ(st, v), lambda v: E(v, DiffMode.AD), lambda v: E(v, DiffMode.GPSR),
            lambda v: horqrux.sample(st, circ, v, 5), lambda v: E(v, DiffMode.AD, 7), lambda v: circ.tensor(v, tuple(range(n))),
            lambda v: horqrux.apply_gates(st, list(iter(circ)), v), lambda v: E(v, DiffMode.AD if dm else DiffMode.ADJOINT),
        ])
        reject(KeyError, f, less)
        reject(KeyError, lambda: horqrux.run(circ, st))
        mon.check(q not in less, "C23.inputs", "an unbound name was bound by the call")
    elif k == "unbound-factor":
        i = rng.choice([i for i, o in enumerate(case["obs"]) if gen.names_of(o)])
        q = rng.choice(gen.names_of(case["obs"][i]))
        if q not in gen.names_of(case["ops"]):
            less = {a: b for a, b in lv.items() if a != q}
            modes = [DiffMode.AD, DiffMode.GPSR] + ([] if dm else [DiffMode.ADJOINT])
            reject(KeyError, lambda: E(less, rng.choice(modes), rng.choice([0, 4])))
            reject(KeyError, lambda: obs[i].tensor(less))
            reject(KeyError, lambda: obs[i](st, less))
    elif k == "unbound-nested":  # the name is only bound in the part for the other object
        cn = gen.names_of(case["ops"])
        q = rng.choice(cn)
        c = {a: b for a, b in lv.items() if a != q}
        v = {"circuit": c, "observables": dict(lv)}
        reject(KeyError, lambda: E(v, DiffMode.AD, rng.choice([0, 4])))
        reject(KeyError, lambda: E({"circuit": {}, "observables": dict(lv)}))
        on = gen.names_of(case["obs"])
        if on:
            reject(KeyError, lambda: E({"circuit": dict(lv), "observables": {}}, DiffMode.AD))
    elif k == "probability":
        bad = bad_probability(rng)
        c2 = noisy(case, rng, bad, gen.circuit)
        reject(ValueError, horqrux.run, c2, st, lv)
        reject(ValueError, wrap(lambda v: E(v, DiffMode.AD, c=c2)), lv)
        reject(ValueError, lambda: E(lv, DiffMode(case["mode"]), s=3, c=c2))
    elif k == "support":
        o = rng.choice([circ, *obs, *iter(circ), *[x for b in obs for x in b.operations]])
        sup = list(o.qubit_support)
        full = [q for q in sup if q != rng.choice(sup)]
        if rng.random() < 0.7:
            full += [q for q in (7, 9, 11)[: rng.randint(1, 3)]]
        if set(sup) - set(full):
            rng.shuffle(full)
            if full:
                reject(ValueError, lambda: o.tensor(lv, tuple(full)))
    elif k == "qubit":
        q = n + rng.randint(0, 3)
        t, c = ([q], None) if n == 1 or rng.random() < 0.6 else ([rng.randrange(n)], [q])
        g = {"g": rng.choice(gen.FIX1 + ["RX"]), "t": t, "c": c, "p": 0.3}
        bad = gen.circuit(case["ops"] + [g] if rng.random() < 0.5 else [g] + case["ops"], n + 4)
        reject(Exception, horqrux.run, bad, st, lv)
        reject(Exception, lambda: horqrux.sample(st, bad, lv, 3))
        reject(Exception, lambda: E(lv, c=bad))
    elif k == "overlap":
        t = rng.randrange(n)
        c = [q for q in range(n) if q != t][: rng.randint(0, n - 2)] + [t]
        rng.shuffle(c)
        g = {"g": rng.choice(["X", "Z", "H", "RY"]), "t": [t], "c": c, "p": 0.3}
        bad = lambda: gen.circuit([g] + case["ops"], n)
        reject(Exception, lambda: horqrux.run(bad(), st, lv))
        reject(Exception, lambda: E(lv, c=bad()))
    elif k == "state":
        bad = rng.choice([None, "00", [1.0, 0.0], 3, {"a": 1}])
        reject(NotImplementedError, horqrux.apply_gates, bad, list(iter(circ)), lv)
        reject(NotImplementedError, horqrux.apply_operator, bad, jnp.eye(2), (0,), (None,))
    elif k == "convert":
        bad = rng.choice([None, "x", 3, 1.5, {"a": 1}, object()])
        reject(NotImplementedError, to_sparse, bad)
        reject(NotImplementedError, to_dense, bad)
    after = objects()
    mon.check(before == after, "C23.inputs", lambda: f"the rejected request ({k}) changed its arguments: {before} -> {after}")
    valid()
    mon.tag("request:" + k, "how:" + case["how"])
    mon.sig(case)


def noisy(case, rng, noise, make):
    """The circuit with one more noise instance at a random single-qubit gate."""
    flat = [dict(g) for g in ref.flatten({"op": "seq", "ops": case["ops"]})]
    ok = [i for i, g in enumerate(flat) if len(g["t"]) == 1]
    if not ok:
        flat.insert(0, {"g": "H", "t": [0], "c": None})
        ok = [0]
    g = flat[rng.choice(ok)]
    more = [gen.rnoise(rng) for _ in range(rng.randint(0, 2))]
    more.insert(rng.randrange(len(more) + 1), noise)
    g["noise"] = more
    return make(flat, case["n"])
