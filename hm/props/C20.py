"""C20: state constructors and state metrics satisfy their definitions."""
from __future__ import annotations

import itertools
import math

import numpy as np

from .. import gen
from .common import check_valid_dm

CASES = {"quick": 1300, "thorough": 20000}
FLOOR = {"distinct": 600, "construct": 300, "C20.state": 300, "C20.overlap": 250, "C20.equivalent": 300, "C20.density": 80}
RULE = (
    "all bitstrings up to 5 qubits and random ones up to 14, uniform and random states up to 12 "
    "qubits, dense and sparse; density matrices of random states; overlaps, inner products, "
    "equivalence and normalisation on random, orthogonal, phase-shifted, relatively rotated, nearby "
    "and rescaled vectors, plain, compiled and vectorised. Distinct by request."
)
ASSUMPTIONS = [
    "overlap, equivalence, normalisation checks and density matrices are for dense states (inner also for sparse ones)",
    "a random state is only required to be normalised, generic and equal on repetition",
    "equivalence is not judged when the overlap is within 1e-10..1e-4 of one (the library's tolerance)",
]


def systematic(tier):
    for n in range(1, 6):
        for b in itertools.product("01", repeat=n):
            yield dict(make="product", bits="".join(b), sparse=len(b) % 2 == 0, family="product-all")
    for n in range(1, 13):
        for sp in (False, True):
            for k in ("zero", "uniform", "random"):
                yield dict(make=k, n=n, sparse=sp, family=k)


def product(rng, tier):
    n = rng.randint(1, 14)
    return dict(make="product", bits="".join(rng.choice("01") for _ in range(n)), sparse=rng.random() < 0.5)


def density(rng, tier):
    n = rng.choice([1, 1, 2, 3, 4, 5])
    return dict(make="density", st=gen.rstate(rng, n), again=rng.random() < 0.3, jit=rng.random() < 0.2)


RELATION = ["random", "random", "phase", "phase", "same", "orthogonal", "relative", "near", "near", "conj", "permuted", "scaled"]


def metrics(rng, tier):
    n = rng.choice([1, 1, 2, 3, 4, 6, 9])
    return dict(
        make="metrics", n=n, st=gen.rstate(rng, n, ["rand", "rand", "rand", "real", "sparse", "prod", "ghz", "uni"]),
        rel=rng.choice(RELATION), s=rng.randrange(10**6), phi=rng.uniform(-math.pi, math.pi),
        scale=rng.choice([0.0, 0.5, 0.9, 0.99, 0.999, 1.001, 1.01, 1.1, 2.0, 1.0]), how=rng.choice(["plain", "plain", "jit", "vmap"]),
    )


def reshape(rng, tier):
    return dict(make="reshape", k=rng.randint(1, 5), s=rng.randrange(10**6), vec=rng.random() < 0.3)


FAMILIES = [("product", 3, product), ("density", 2, density), ("metrics", 5, metrics), ("reshape", 0.5, reshape)]


def other(case, a):
    n, r = case["n"], np.random.default_rng(case["s"])
    b = r.normal(size=2**n) + 1j * r.normal(size=2**n)
    b /= np.linalg.norm(b)
    k = case["rel"]
    if k == "phase":
        return a * np.exp(1j * case["phi"])
    if k == "same":
        return a.copy()
    if k == "orthogonal":
        b = b - a * (a.conj() @ b)
        return b / np.linalg.norm(b)
    if k == "relative":  # a phase on half of the amplitudes
        m = np.where(np.arange(2**n) % 2, np.exp(1j * case["phi"]), 1)
        return a * m
    if k == "near":
        c = a + b * 10.0 ** (r.uniform(-8, -1) if r.random() < 0.3 else r.uniform(-2, -0.5))
        return c / np.linalg.norm(c)
    if k == "conj":
        return a.conj()
    if k == "permuted":
        return a[r.permutation(2**n)]
    if k == "scaled":
        return a * case["scale"]
    return b


def dense(x):
    from jax.experimental.sparse import BCOO

    return np.asarray(x.todense() if isinstance(x, BCOO) else x)


def check(case, mon):
    import horqrux
    import jax
    import jax.numpy as jnp
    from horqrux.utils.operator_utils import DensityMatrix, density_mat, inner, is_normalized
    from jax.experimental.sparse import BCOO

    k = case["make"]
    if k in ("product", "zero", "uniform", "random"):
        fn, arg = {
            "product": (horqrux.product_state, case.get("bits")), "zero": (horqrux.zero_state, case.get("n")),
            "uniform": (horqrux.uniform_state, case.get("n")), "random": (horqrux.random_state, case.get("n")),
        }[k]
        n = len(arg) if k == "product" else arg
        out = mon.call("construct", fn, arg, case["sparse"])
        mon.check(isinstance(out, BCOO) == case["sparse"], "C20.type", lambda: f"{k} state with sparse={case['sparse']} is {type(out)}")
        mon.check(tuple(out.shape) == (2,) * n, "C20.shape", lambda: f"{k} state of {n} qubits has shape {out.shape}")
        mon.check(jnp.issubdtype(out.dtype, jnp.complexfloating), "C20.dtype", lambda: f"{k} state of type {out.dtype}")
        a = dense(out).reshape(-1)
        if k == "random":
            mon.close("C20.norm", np.linalg.norm(a), 1.0, 1e-9, "norm of a random state")
            mon.check(n < 2 or np.abs(a).std() > 1e-4, "C20.generic", "all amplitudes of a random state have the same modulus")
            mon.check(n < 2 or np.abs(a.imag).max() > 1e-4, "C20.generic", "a random state is real")
            mon.close("C20.repeat", dense(fn(arg, case["sparse"])).reshape(-1), a, 1e-12, "random state, built again")
        else:
            want = np.zeros(2**n, complex)
            if k == "uniform":
                want[:] = 2 ** (-n / 2)
            else:
                want[int(arg, 2) if k == "product" else 0] = 1
            mon.close("C20.state", a, want, 1e-12, f"{k} state {arg}")
            if not case["sparse"] and k != "uniform":
                # the axes follow the bitstring: qubit 0 is the first axis
                i = tuple(int(c) for c in (arg if k == "product" else "0" * n))
                mon.close("C20.state", dense(out)[i], 1.0, 1e-12, f"amplitude {i}")
        mon.sig(k, arg, case["sparse"])
    elif k == "density":
        n = case["st"]["n"]
        st = gen.lib_state(case["st"])
        v = gen.np_state(case["st"])
        f = jax.jit(density_mat) if case["jit"] else density_mat
        d = mon.call("density", f, st)
        mon.check(isinstance(d, DensityMatrix) and d.array.shape == (2,) * (2 * n), "C20.density", lambda: f"{type(d)}")
        rho = np.asarray(d.array).reshape(2**n, 2**n)
        mon.close("C20.density", rho, np.outer(v, v.conj()), 1e-12, "density matrix of a state")
        check_valid_dm(mon, "C20.valid", rho)
        mon.close("C20.purity", np.trace(rho @ rho), 1.0, 1e-9, "purity")
        if case["again"]:
            e = mon.call("density", density_mat, d)
            mon.close("C20.density", np.asarray(e.array), np.asarray(d.array), 0, "density matrix of a density matrix")
        mon.sig(case)
    elif k == "metrics":
        n = case["n"]
        a = gen.np_state(case["st"])
        b = other(case, a)
        A, B = (jnp.asarray(x.reshape((2,) * n)) for x in (a, b))

        def via(f, *xs):
            if case["how"] == "jit":
                return np.asarray(jax.jit(f)(*xs))
            if case["how"] == "vmap":
                two = jax.vmap(f)(*(jnp.stack([x, A]) for x in xs))
                return np.asarray(two)[0]
            return np.asarray(f(*xs))

        ip = np.vdot(a, b)
        ov = abs(ip) ** 2
        mon.close("C20.inner", mon.call("inner", via, inner, A, B), ip, 1e-10, "inner product")
        got = mon.call("overlap", via, horqrux.overlap, A, B)
        mon.check(not np.iscomplexobj(got), "C20.overlap", lambda: f"overlap of type {got.dtype}")
        mon.close("C20.overlap", got, ov, 1e-10, f"overlap ({case['rel']})")
        mon.close("C20.overlap", via(horqrux.overlap, B, A), ov, 1e-10, "overlap, exchanged")
        if n <= 4:
            sp = mon.call("inner", inner, BCOO.fromdense(A), BCOO.fromdense(B))
            mon.close("C20.inner", dense(sp), ip, 1e-10, "inner product of sparse states")
        if abs(1 - ov) < 1e-10 or abs(1 - ov) > 1e-4:
            want = abs(1 - ov) < 1e-10
            for x, y in ((A, B), (B, A)):
                e = mon.call("equivalent", via, horqrux.equivalent_state, x, y)
                mon.check(bool(e) == want, "C20.equivalent", lambda: f"equivalent_state is {e} for overlap {ov}")
        nb = float(np.linalg.norm(b))
        if abs(nb - 1) < 1e-10 or abs(nb - 1) > 1e-4:
            e = mon.call("normalized", via, is_normalized, B)
            mon.check(bool(e) == (abs(nb - 1) < 1e-10), "C20.normalized", lambda: f"is_normalized is {e} for norm {nb}")
        mon.tag("relation:" + case["rel"], "how:" + case["how"])
        mon.sig(case)
    else:
        d = 2 ** case["k"]
        r = np.random.default_rng(case["s"])
        a = r.normal(size=d if case["vec"] else (d, d)) + 1j * r.normal(size=d if case["vec"] else (d, d))
        out = mon.call("reshape", horqrux.hilbert_reshape, jnp.asarray(a))
        mon.check(out.shape == (2,) * (case["k"] * a.ndim), "C20.reshape", lambda: f"{out.shape}")
        mon.close("C20.reshape", np.asarray(out).reshape(a.shape), a, 0, "reshaped operator")
        mon.sig(case)
