"""Sanity of the reference and of the monitors themselves (setup_cmd): no library code is judged."""
from __future__ import annotations

import random

import numpy as np

from . import gen, ref
from .mon import Monitor, Violation


def fires(fn):
    try:
        fn()
    except Violation:
        return True
    return False


def main():
    m = Monitor("selftest")
    for g in gen.FIX1 + gen.FIX2:
        u = ref.gate_matrix(g, None)
        assert np.allclose(u @ u.conj().T, np.eye(len(u))), g
    for g in gen.PAR1:
        u = ref.gate_matrix(g, 0.7)
        assert np.allclose(u @ u.conj().T, np.eye(2)), g
        num = ref.deriv(lambda x: ref.gate_matrix(g, x), 0.7)
        assert np.allclose(num, ref.gate_jacobian(g, 0.7), atol=1e-9), g
    rng = random.Random(1)
    for i in range(40):
        n = rng.randint(1, 3)
        ops = gen.rgates(rng, n, 1, 6, pnoise=0.2)
        obs = gen.robs(rng, n)
        vals = gen.rvalues(rng, gen.names_of(ops) + gen.names_of(obs), extra=0)
        st = gen.np_state({"k": "rand", "n": n, "s": i})
        for p in vals:

            def f(x):
                v = {**vals, p: x}
                return ref.expect(ref.evolve(ops, st, v, n), obs, v, n)

            assert abs(ref.deriv(f, vals[p]) - ref.dexpect(ops, st, obs, vals, vals, n, p)) < 1e-6
        # independent check of apply_matrix: explicit kron for one gate
        u = ref.op_matrix({"op": "seq", "ops": [{k: v for k, v in g.items() if k != "noise"} for g in ops]}, vals, n)
        assert np.allclose(u @ u.conj().T, np.eye(2**n))
    for name, p in [("BitFlip", 0.2), ("PauliChannel", [0.1, 0.2, 0.3]), ("GeneralizedAmplitudeDamping", [0.3, 0.4])]:
        ks = ref.kraus(name, p)
        assert np.allclose(sum(k.conj().T @ k for k in ks), np.eye(2))
    assert fires(lambda: m.close("k", np.array([1.0]), np.array([1.1])))
    assert fires(lambda: m.close("k", np.array([np.nan]), np.array([1.0])))
    assert fires(lambda: m.close("k", np.ones(2), np.ones(3)))
    assert fires(lambda: m.check(False, "k"))
    assert fires(lambda: m.call("k", lambda: 1 / 0))
    assert fires(lambda: m.rejects("k", ValueError, lambda: 1))
    assert fires(lambda: m.rejects("k", ValueError, lambda: {}["a"]))
    assert fires(lambda: m.known("unlisted", "x"))
    assert not fires(lambda: m.close("k", np.ones(2), np.ones(2)))
    from . import env

    import horqrux

    assert horqrux.__file__.startswith(env.REPO), horqrux.__file__
    print("selftest passed; code under test:", horqrux.__file__)
    return 0
