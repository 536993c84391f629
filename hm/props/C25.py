"""C25: operators given as arrays act on exactly the qubits they are given."""
from __future__ import annotations

import random

import jax
import jax.numpy as jnp
import numpy as np
from jax.experimental.sparse import BCOO

import horqrux
from horqrux import apply as happly
from horqrux.utils import operator_utils as ou

from .. import gen, ref
from .common import outdm

CASES = {"quick": 640, "thorough": 12000}
FLOOR = {
    "distinct": 320,
    "apply_operator": 200,
    "C25.vector": 120,
    "C25.sparse": 40,
    "C25.density": 40,
    "C25.noise": 30,
    "C25.expand": 33,
    "C25.controlled": 17,
    "C25.permute": 27,
    "C25.kraus": 30,
}
RULE = (
    "random complex matrices of any magnitude (general, unitary, Hermitian, nilpotent, projectors, real, diagonal) on 1-3 ordered "
    "targets with 0-4 ordered controls in registers of 1-7 qubits, applied as arrays to vectors, sparse states "
    "and density matrices and other matrices in their place (plainly, compiled, vectorised over states and over operators, with noise), embedded, "
    "controlled and permuted (dense and sparse, with padded sparse storage), and used as Kraus operators. "
    "Non-trivial: the result differs from the input. Distinct by matrix, placement and state."
)
ASSUMPTIONS = ["embedding and control of arrays take the qubits of the array in increasing order (documented)"]
MATS = ("general", "general", "unitary", "hermitian", "nilpotent", "projector", "real", "diag", "sparse", "zero")


def rmat(rng, k):
    return {"kind": rng.choice(MATS), "k": k, "s": rng.randrange(10**6), "mag": gen.mag(rng)}


def mat(j):
    return j.get("mag", 1.0) * shape(j)


def shape(j):
    d = 2 ** j["k"]
    r = np.random.default_rng(j["s"])
    a = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))
    kind = j["kind"]
    if kind == "unitary":
        return np.linalg.qr(a)[0]
    if kind == "hermitian":
        return (a + a.conj().T) / 2
    if kind == "nilpotent":
        return np.triu(a, 1)
    if kind == "projector":
        q = np.linalg.qr(a)[0][:, : max(1, d // 2)]
        return q @ q.conj().T
    if kind == "real":
        return a.real.astype(complex)
    if kind == "diag":
        return np.diag(np.diag(a))
    if kind == "sparse":
        return np.where(r.random((d, d)) < 0.3, a, 0)
    if kind == "zero":
        return np.zeros((d, d), complex)
    return a


def place(rng, n, kmax=3, cmax=4):
    k = rng.randint(1, min(kmax, n))
    q = rng.sample(range(n), n)
    c = rng.choice([0, 0, 1, 1, 2, 3, 4])
    c = min(c, cmax, n - k)
    return q[:k], q[k : k + c]


def f_apply(rng, tier):
    n = rng.randint(1, 7 if tier == "quick" else 9)
    form = rng.choice(["vector", "vector", "density", "sparse"])
    if form == "density":
        n = min(n, 4)
    elif form == "sparse":
        n = min(n, 5)
    t, c = place(rng, n)
    st = gen.rmatrix(rng, n) if form == "density" else gen.rstate(rng, n)
    return {
        "n": n,
        "form": form,
        "m": rmat(rng, len(t)),
        "t": t,
        "c": c,
        "state": st,
        "how": rng.choice(["plain", "plain", "jit", "states", "operators"]) if form != "sparse" else "plain",
        "pad": rng.choice([0, 0, 1, 3]),
    }


def f_noise(rng, tier):
    n = rng.randint(1, 3)
    t, c = place(rng, n, kmax=1)
    return {
        "n": n,
        "form": "noise",
        "m": dict(rmat(rng, 1), kind="unitary"),
        "t": t,
        "c": c,
        "state": gen.rmatrix(rng, n),
        "noise": [gen.rnoise(rng) for _ in range(rng.randint(1, 3))],
    }


def f_embed(rng, tier):
    n = rng.randint(1, 6 if tier == "quick" else 8)
    t, c = place(rng, n)
    full = sorted(rng.sample(range(13), n))
    if rng.random() < 0.3:
        rng.shuffle(full)
    return {
        "n": n,
        "form": rng.choice(["expand", "controlled", "permute"]),
        "m": rmat(rng, len(t)),
        "t": t,
        "c": c,
        "full": full,
        "sparse": rng.random() < 0.4,
        "s": rng.randrange(10**6),
        "inv": rng.random() < 0.5,
    }


def f_kraus(rng, tier):
    n = rng.randint(1, 4)
    t, _ = place(rng, n, kmax=2)
    if rng.random() < 0.3:
        t = list(range(n))[: 3 if n > 3 else n]
    return {
        "n": n,
        "form": "kraus",
        "ms": [rmat(rng, len(t)) for _ in range(rng.randint(1, 4))],
        "t": t,
        "state": gen.rmatrix(rng, n),
    }


FAMILIES = [("apply", 10, f_apply), ("noise", 2, f_noise), ("embed", 6, f_embed), ("kraus", 2, f_kraus)]


def systematic(tier):
    """Every ordered placement of one and two targets and up to three controls in four qubits."""
    import itertools

    rng = random.Random(25)
    out = []
    for n in (2, 3, 4):
        for k in (1, 2):
            for nc in (0, 1, 2, 3):
                for q in itertools.permutations(range(n), k + nc) if k + nc <= n else ():
                    if n == 4 and rng.random() > (0.4 if tier == "quick" else 1.1):
                        continue
                    form = rng.choice(["vector", "density"] if n < 4 else ["vector"])
                    st = gen.rmatrix(rng, n) if form == "density" else {"k": "rand", "s": rng.randrange(10**6), "n": n}
                    out.append(
                        {
                            "n": n,
                            "form": form,
                            "m": {"kind": "general", "k": k, "s": rng.randrange(10**6)},
                            "t": list(q[:k]),
                            "c": list(q[k:]),
                            "state": st,
                            "how": "plain",
                            "pad": 0,
                            "family": "grid",
                        }
                    )
    return out


def sp(a, pad=0):
    a = jnp.asarray(a)
    return BCOO.fromdense(a, nse=int(np.count_nonzero(np.asarray(a))) + pad)


def matrix_of(x, d):
    x = x.todense() if isinstance(x, BCOO) else x
    return np.asarray(x).reshape(d, d)


def check(case, mon):
    n, form = case["n"], case["form"]
    d = 2**n
    mon.tag(f"n={n}", "form:" + form)
    if form == "kraus":
        return kraus(case, mon)
    if case["c"] or form == "noise" or case.get("how") == "operators":
        case = {**case, "m": {**case["m"], "mag": 1.0}}
    A = mat(case["m"])
    t, c = tuple(case["t"]), tuple(case["c"])
    mon.tag("matrix:" + case["m"]["kind"], f"targets:{len(t)}", f"controls:{len(c)}")
    if form in ("expand", "controlled", "permute"):
        return embed(case, mon, A)
    lc = c if c else (None,)
    x = gen.np_any(case["state"])
    dm = form in ("density", "noise")
    # the magnitude of the results is divided out
    mag = case["m"].get("mag", 1.0)
    u = mag**2 if dm else mag
    tol = 1e-9 * (1 + (np.abs(A).max() / mag) ** 2)
    op = jnp.asarray(A)

    def want_dm(U, rho):
        left = ref.apply_matrix(U, t, c, rho, n)
        return ref.apply_matrix(U, t, c, left.conj().T, n).conj().T

    if form == "vector":
        mon.tag("how:" + case["how"])
        st = gen.lib_any(case["state"])
        w = ref.apply_matrix(A, t, c, x.reshape(d, 1), n).reshape((2,) * n)
        if case["how"] == "jit":
            out = mon.call("apply_operator", jax.jit(lambda s, o: horqrux.apply_operator(s, o, t, lc)), st, op)
        elif case["how"] == "states":
            batch = jnp.stack([st, 1j * st, 0 * st])
            out = mon.call("apply_operator", jax.vmap(lambda s: horqrux.apply_operator(s, op, t, lc)), batch)
            w = np.stack([w, 1j * w, 0 * w])
        elif case["how"] == "operators":
            B = A @ A - 1j * A
            out = mon.call("apply_operator", jax.vmap(lambda o: horqrux.apply_operator(st, o, t, lc)), jnp.stack([op, jnp.asarray(B)]))
            w = np.stack([w, ref.apply_matrix(B, t, c, x.reshape(d, 1), n).reshape((2,) * n)])
            tol = 1e-9 * (1 + np.abs(B).max() ** 2)
        else:
            out = mon.call("apply_operator", horqrux.apply_operator, st, op, t, lc)
        mon.close("C25.vector", np.asarray(out) / u, w / u, tol, "array applied to a vector")
        changed = np.abs(w.reshape(-1)[: x.size] - x.reshape(-1)).max() > 1e-6
    elif form == "sparse":
        st = sp(x.reshape((2,) * n), case["pad"])
        out = mon.call("apply_operator", horqrux.apply_operator, st, sp(A, case["pad"]), t, lc)
        w = ref.apply_matrix(A, t, c, x.reshape(d, 1), n).reshape((2,) * n)
        mon.check(isinstance(out, BCOO), "C25.sparse-type", lambda: f"a {type(out)} for a sparse state")
        mon.close("C25.sparse", np.asarray(out.todense()) / u, w / u, tol, "array applied to a sparse state")
        changed = np.abs(w - x.reshape(w.shape)).max() > 1e-6
    else:
        st = gen.lib_any(case["state"])
        rho = x.reshape(d, d)
        w = want_dm(A, rho)
        if form == "noise":
            noise = gen.build_noise(case["noise"])
            for k, p in case["noise"]:
                w = ref.apply_channel(k, p, t[0], w, n)
                mon.tag("noise:" + k)
            out = mon.call("apply_with_noise", happly.apply_operator_with_noise, st, op, t, lc, noise)
            key = "C25.noise"
        elif case["how"] == "jit":
            out = mon.call("apply_operator", jax.jit(lambda s, o: horqrux.apply_operator(s, o, t, lc)), st, op)
            key = "C25.density"
        elif case["how"] == "operators":
            f = jax.vmap(lambda o: horqrux.apply_operator(st, o, t, lc).array)
            B = A @ A - 1j * A
            out = mon.call("apply_operator", f, jnp.stack([op, jnp.asarray(B)]))
            w = np.stack([w, want_dm(B, rho)])
            mon.close("C25.density", np.asarray(out).reshape(2, d, d), w, 1e-9 * (1 + np.abs(B).max() ** 2), "arrays applied to a density matrix")
            mon.sig(case)
            return
        else:
            out = mon.call("apply_operator", horqrux.apply_operator, st, op, t, lc)
            key = "C25.density"
        mon.check(outdm(out), "C25.density-type", lambda: f"a {type(out)} for a density matrix")
        mon.check(out.array.shape == (2,) * (2 * n), "C25.density-shape", lambda: f"shape {out.array.shape}")
        mon.close(key, np.asarray(out.array).reshape(d, d) / u, w / u, tol, "array applied to a density matrix")
        changed = np.abs(w - rho).max() > 1e-6
    if changed:
        mon.sig(case)


def embed(case, mon, A):
    form, full = case["form"], case["full"]
    n = case["n"]
    spx = case["sparse"]
    mon.tag("sparse-array" if spx else "dense-array")
    conv = (lambda a: sp(a)) if spx else jnp.asarray
    if form == "expand":
        pos = sorted(case["t"])
        order = sorted(full)
        sup = tuple(order[i] for i in pos)
        w = ref.apply_matrix(A, pos, [], np.eye(2**n), n)
        given = sup if case["s"] % 2 else tuple(reversed(sup))
        out = mon.call("expand", ou.expand_operator, conv(A), given, tuple(full))
        u = case["m"].get("mag", 1.0)
        mon.close("C25.expand", matrix_of(out, 2**n) / u, w / u, what="embedded array")
        missing = tuple(q for q in full if q != sup[0])
        mon.rejects("expand", ValueError, ou.expand_operator, conv(A), sup, missing)
    elif form == "controlled":
        q = sorted(case["t"]) + case["c"]
        if not case["c"]:
            return
        allq = sorted(q)
        pos = {x: i for i, x in enumerate(allq)}
        m = len(allq)
        lab = sorted(random.Random(case["s"]).sample(range(13), m))
        w = ref.apply_matrix(A, [pos[x] for x in sorted(case["t"])], [pos[x] for x in case["c"]], np.eye(2**m), m)
        T = (tuple(lab[pos[x]] for x in sorted(case["t"])),)
        Cq = (tuple(lab[pos[x]] for x in case["c"]),)
        out = mon.call("controlled", ou.controlled, conv(A), T, Cq)
        mon.close("C25.controlled", matrix_of(out, 2**m), w, what="controlled array")
    else:
        r = np.random.default_rng(case["s"])
        k = min(n, 4)
        sup = full[:k]
        r.shuffle(sup)
        sup = tuple(int(x) for x in sup)
        rank = [sorted(sup).index(x) for x in sup]
        a = r.normal(size=(2,) * (2 * k)) + 1j * r.normal(size=(2,) * (2 * k))
        axes = rank + [x + k for x in rank]
        if case["inv"]:
            axes = list(np.argsort(axes))
        out = mon.call("permute", ou.permute_basis, conv(a), sup, case["inv"])
        dense = np.asarray(out.todense() if isinstance(out, BCOO) else out)
        mon.close("C25.permute", dense, np.transpose(a, axes), what="permuted array")
        back = mon.call("permute", ou.permute_basis, out, sup, not case["inv"])
        back = np.asarray(back.todense() if isinstance(back, BCOO) else back)
        mon.close("C25.permute-inverse", back, a, what="array permuted forth and back")
    mon.sig(case)


def kraus(case, mon):
    n, t = case["n"], tuple(case["t"])
    d = 2**n
    rho = gen.np_any(case["state"]).reshape(d, d)
    st = gen.lib_any(case["state"])
    u = case["ms"][0].get("mag", 1.0)
    ks = [mat(dict(j, mag=u)) for j in case["ms"]]
    w, tot = 0, 1.0
    for k in ks:
        left = ref.apply_matrix(k, t, [], rho, n)
        w = w + ref.apply_matrix(k, t, [], left.conj().T, n).conj().T
        tot += (np.abs(k).max() / u) ** 2
    arr = st.array.reshape((2,) * (2 * n))
    mon.tag(f"targets:{len(t)}", "kraus-full" if len(t) == n else "kraus-part")
    out = mon.call("kraus", happly.apply_kraus_sum, jnp.stack([jnp.asarray(k) for k in ks]), arr, t)
    mon.close("C25.kraus", np.asarray(out.array).reshape(d, d) / u**2, w / u**2, 1e-9 * tot, "sum of Kraus operators")
    one = mon.call("kraus", happly.apply_kraus_operator, jnp.asarray(ks[0]), arr, t)
    left = ref.apply_matrix(ks[0], t, [], rho, n)
    w1 = ref.apply_matrix(ks[0], t, [], left.conj().T, n).conj().T
    mon.close("C25.kraus-one", np.asarray(one).reshape(d, d) / u**2, w1 / u**2, 1e-9 * tot, "one Kraus operator")
    mon.sig(case)
