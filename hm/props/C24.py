"""C24: training histories follow the exact losses and gradients in every mode."""
from __future__ import annotations

import numpy as np

from .. import gen, ref
from .C11 import gates as gpsr_gates
from .C13 import strip
from .common import circuit_features

CASES = {"quick": 150, "thorough": 3500}
FLOOR = {"distinct": 70, "train": 90, "C24.params": 250, "C24.loss": 250}
RULE = (
    "variational problems as in the documentation: energies of random and hardware-efficient "
    "ansaetze (vectors, density matrices, noise), regression over a batch of inputs encoded by "
    "feature maps (vmap), losses containing derivatives with respect to the input; 4-5 optimizer "
    "steps (gradient descent, momentum, Adam) in every differentiation mode, eagerly, with a "
    "compiled step, in fori_loop and in scan, parameters as an array or a dictionary, circuits also "
    "as subclasses which override the call. Every parameter vector and loss of the history is "
    "compared with the optimizer applied to the reference's loss and gradient. Non-trivial: some parameter moves by "
    "more than 1e-4. Distinct by problem."
)
ASSUMPTIONS = ["optax implements its documented optimizers", "controlled rotations are C11's known finding in parameter-shift mode"]
MODES = ["ad", "adjoint", "gpsr"]


def ansatz(rng, n, mode, pnoise=0.0):
    names = [f"v{i}" for i in range(rng.randint(1, 4))]
    if mode in ("gpsr", "bwd"):
        ops = strip(gpsr_gates(rng, n, 2, 6, names, pconst=0.1, pnoise=pnoise))
    else:
        ops = gen.rgates(rng, n, 2, 7, names=names, pool=["RX", "RY", "RZ", "PHASE"] * 3 + gen.FIX1 + gen.FIX2, pconst=0.1, pnoise=pnoise)
    if not gen.names_of(ops):
        ops.append({"g": "RY", "t": [0], "c": None, "p": "v0", "tf": "i"})
    return ops


def common(rng, c):
    c["opt"] = rng.choice(["sgd", "sgd", "momentum", "adam"])
    c["lr"] = rng.choice([0.01, 0.05, 0.2])
    c["loop"] = rng.choice(["eager", "jit", "jit", "fori", "scan"])
    c["steps"] = rng.choice([4, 5])
    c["form"] = rng.choice(["array", "dict"])
    names = sorted(set(gen.names_of(c["ops"])) | set(gen.names_of(c["obs"]))) if c["kind"] == "vqe" else gen.names_of(c["ops"])
    names = [x for x in names if x != "x"]
    rng.shuffle(names)
    c["theta"] = {k: rng.uniform(-3, 3) for k in names}
    return c


def vqe(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    mode = rng.choice(MODES + ["bwd"])
    dm = mode != "adjoint" and rng.random() < 0.3
    noise = 0.3 if mode != "adjoint" and rng.random() < 0.25 else 0.0
    ops = ansatz(rng, n, mode, noise)
    train_obs = mode in ("ad", "adjoint")
    obs = gen.robslist(rng, n, rng.randint(1, 3), ("o1", "v0"), depth=1, pname=0.4 if train_obs else 0.0)
    return common(rng, dict(kind="vqe", n=n, ops=ops, obs=obs, mode=mode, st=gen.rdm(rng, n) if dm else gen.rstate(rng, n), w=[rng.uniform(-1, 1) for _ in obs] if mode != "bwd" else [1.0] * len(obs)))


def hea(rng, tier):
    """The ansatz of the library; its parameter names are known only once it is built."""
    n = rng.choice([2, 2, 3])
    obs = gen.robslist(rng, n, rng.randint(1, 2), depth=1, pname=0.0)
    c = common(rng, dict(kind="vqe", n=n, ops=[], hea=dict(layers=rng.randint(1, 2), s=rng.randrange(10**6)), obs=obs, mode=rng.choice(MODES + ["bwd"]), st=gen.rstate(rng, n), w=[1.0] * len(obs)))
    c["steps"] = 3
    return c


def fitted(rng, kind, tier):
    n = rng.choice([1, 2, 2, 3])
    mode = rng.choice(MODES)
    fm = [{"g": rng.choice(["RX", "RY"]), "t": [q], "c": None, "p": "x", "tf": "i"} for q in range(n) if rng.random() < 0.8 or q == 0]
    ops = ansatz(rng, n, mode)
    ops = fm + ops if rng.random() < 0.7 else ops[:2] + fm + ops[2:]
    obs = [gen.robs(rng, n, depth=1, pname=0.0, terms=2)]
    c = common(rng, dict(kind=kind, n=n, ops=ops, obs=obs, mode=mode, st=gen.rstate(rng, n)))
    b = rng.randint(2, 4) if kind == "qcl" else 2
    c["x"] = [rng.uniform(-2, 2) for _ in range(b)]
    c["y"] = [rng.uniform(-1, 1) for _ in range(b)]
    c["k"] = rng.uniform(-2, 2)
    c["sub"] = mode != "ad" and rng.random() < 0.4
    if kind == "dqc":
        c["steps"] = 3
        c["opt"] = rng.choice(["sgd", "momentum"])
        c["lr"] = rng.choice([0.01, 0.05])
    return c


def qcl(rng, tier):
    return fitted(rng, "qcl", tier)


def dqc(rng, tier):
    return fitted(rng, "dqc", tier)


FAMILIES = [("vqe", 5, vqe), ("hea", 0.8, hea), ("qcl", 3, qcl), ("dqc", 1.5, dqc)]


# -------------------------------------------------------------------------- reference training


class RefOpt:
    def __init__(self, kind, lr):
        self.kind, self.lr, self.t, self.m, self.v = kind, lr, 0, 0.0, 0.0

    def __call__(self, p, g):
        self.t += 1
        if self.kind == "sgd":
            return p - self.lr * g
        if self.kind == "momentum":
            self.m = g + 0.9 * self.m
            return p - self.lr * self.m
        self.m = 0.9 * self.m + 0.1 * g
        self.v = 0.999 * self.v + 0.001 * g * g
        return p - self.lr * (self.m / (1 - 0.9**self.t)) / (np.sqrt(self.v / (1 - 0.999**self.t)) + 1e-4)


def optimizer(kind, lr):
    import optax

    return {"sgd": lambda: optax.sgd(lr), "momentum": lambda: optax.sgd(lr, momentum=0.9), "adam": lambda: optax.adam(lr, eps=1e-4)}[kind]()


def ref_loss(case, ops, st0, theta):
    """Loss and gradient (in the order of theta) by the reference."""
    n, obs = case["n"], case["obs"]
    if case["kind"] == "vqe":
        out = ref.evolve(ops, st0, theta, n) if st0.ndim == 1 else ref.evolve_dm(ops, st0, theta, n)
        loss = sum(w * ref.expect(out, o, theta, n) for w, o in zip(case["w"], obs))
        return loss, np.array([sum(w * ref.dexpect(ops, st0, o, theta, theta, n, p) for w, o in zip(case["w"], obs)) for p in theta])
    o = obs[0]

    def f(x):
        v = {**theta, "x": x}
        return ref.expect(ref.evolve(ops, st0, v, n), o, v, n)

    def df(x, p):
        v = {**theta, "x": x}
        return ref.dexpect(ops, st0, o, v, v, n, p)

    def d2f(x, p):
        return ref.d2expect(ops, st0, o, {**theta, "x": x}, n, "x", p)

    B = len(case["x"])
    if case["kind"] == "qcl":
        r = [f(x) - y for x, y in zip(case["x"], case["y"])]
        return sum(a * a for a in r) / B, np.array([sum(2 * a * df(x, p) for a, x in zip(r, case["x"])) / B for p in theta])
    k = case["k"]
    r = [df(x, "x") - k * f(x) for x in case["x"]]
    r0 = f(0.3) - 1.0
    loss = sum(a * a for a in r) / B + r0 * r0
    grad = [sum(2 * a * (d2f(x, p) - k * df(x, p)) for a, x in zip(r, case["x"])) / B + 2 * r0 * df(0.3, p) for p in theta]
    return loss, np.array(grad)


# ----------------------------------------------------------------------------------- the check


def describe(gs):
    """Descriptions of the gates of the library's ansatz."""
    out = []
    for g in gs:
        c = [q for q in (g.control[0] or ()) if q is not None]
        j = {"g": g.generator_name, "t": list(g.target[0]), "c": c or None}
        if g.is_parametric:
            j.update(g="R" + g.generator_name, p=g.param)
        out.append(j)
    return out


def check(case, mon):
    import horqrux
    import jax
    import jax.numpy as jnp
    import optax
    from horqrux.circuit import hea as lib_hea
    from horqrux.differentiation.gpsr import analytical_gpsr_bwd

    n, ops, theta = case["n"], case["ops"], dict(case["theta"])
    st0 = gen.np_any(case["st"])
    st = gen.lib_any(case["st"])
    fp = [] if case["kind"] == "vqe" else ["x"]
    if "hea" in case:
        circ = horqrux.QuantumCircuit(n, mon.call("hea", lib_hea, n, case["hea"]["layers"]))
        ops = describe(iter(circ))
        r = np.random.default_rng(case["hea"]["s"])
        theta = {g["p"]: float(r.uniform(-3, 3)) for g in ops if "p" in g}
    else:
        circ = gen.circuit(ops, n, fp=fp)
    mon.check(set(circ.vparams) == {p for p in theta if p in set(gen.names_of(ops))}, "C24.vparams", lambda: f"{circ.vparams}")
    obs = [gen.build(o) for o in case["obs"]]
    names = list(theta)
    mode = case["mode"]

    def values(t):
        return dict(zip(names, t)) if case["form"] == "array" else dict(t)

    if case.get("sub"):

        class Fitter(horqrux.QuantumCircuit):
            """As in the documentation: the call takes the parameters and the inputs."""

            def __init__(self, n_qubits, operations, fparams):
                super().__init__(n_qubits, operations, fparams)
                self.observable, self.state = obs[0], st

            def __call__(self, t, x):
                f = lambda x: jnp.squeeze(horqrux.expectation(self.state, self, [self.observable], {**values(t), "x": x}, mode))
                return jax.vmap(f)(x) if jnp.ndim(x) else f(x)

        model = Fitter(n, list(iter(circ)), fp)
    else:

        def model(t, x):
            f = lambda x: horqrux.expectation(st, circ, obs, {**values(t), "x": x}, mode)[0]
            return jax.vmap(f)(x) if jnp.ndim(x) else f(x)

    if case["kind"] == "vqe":
        w = jnp.asarray(case["w"])
        fmode = "gpsr" if mode == "bwd" else mode

        def loss(t):
            return jnp.sum(w * horqrux.expectation(st, circ, obs, values(t), fmode))

    elif case["kind"] == "qcl":
        X, Y = jnp.asarray(case["x"]), jnp.asarray(case["y"])

        def loss(t):
            return jnp.mean((model(t, X) - Y) ** 2)

    else:
        X = jnp.asarray(case["x"])

        def loss(t):
            d = jax.vmap(jax.grad(lambda x: model(t, x)))(X)
            return jnp.mean((d - case["k"] * model(t, X)) ** 2) + (model(t, jnp.asarray(0.3)) - 1.0) ** 2

    opt = optimizer(case["opt"], case["lr"])
    glist = list(iter(circ))

    def step(t, s):
        if mode == "bwd":
            value, g = loss(t), analytical_gpsr_bwd(st, glist, obs, values(t))
            if case["form"] == "dict":
                g = dict(zip(t, g))
        else:
            value, g = jax.value_and_grad(loss)(t)
        u, s = opt.update(g, s, t)
        return optax.apply_updates(t, u), s, value

    def train(t):
        K, s = case["steps"], opt.init(t)
        if case["loop"] == "scan":

            def body(carry, _):
                t, s, value = step(*carry)
                return (t, s), (t, value)

            _, (ts, vs) = jax.lax.scan(body, (t, s), None, length=K)
            return [jax.tree_util.tree_map(lambda a: a[i], ts) for i in range(K)], list(vs)
        if case["loop"] == "fori":

            def body(i, c):
                t, s, hist, vs = c
                t, s, value = step(t, s)
                return t, s, jax.tree_util.tree_map(lambda h, a: h.at[i].set(a), hist, t), vs.at[i].set(value)

            hist = jax.tree_util.tree_map(lambda a: jnp.zeros((K,) + a.shape, a.dtype), t)
            _, _, ts, vs = jax.lax.fori_loop(0, K, body, (t, s, hist, jnp.zeros(K)))
            return [jax.tree_util.tree_map(lambda a: a[i], ts) for i in range(K)], list(vs)
        f = jax.jit(step) if case["loop"] == "jit" else step
        ts, vs = [], []
        for _ in range(K):
            t, s, value = f(t, s)
            ts.append(t)
            vs.append(value)
        return ts, vs

    t0 = jnp.asarray([theta[k] for k in names]) if case["form"] == "array" else {k: jnp.asarray(x) for k, x in theta.items()}
    ts, vs = mon.call("train", train, t0)
    ro, cur = RefOpt(case["opt"], case["lr"]), np.array([theta[k] for k in names])
    tol = 1e-4 if case["kind"] == "dqc" else 1e-7
    for i, (t, value) in enumerate(zip(ts, vs)):
        l, g = ref_loss(case, ops, st0, dict(zip(names, map(float, cur))))
        mon.close("C24.loss", value, l, tol * max(1.0, abs(l)), f"loss of step {i} ({case['kind']}, {mode}, {case['loop']})")
        cur = ro(cur, g)
        got = np.asarray(t) if case["form"] == "array" else np.array([float(t[k]) for k in names])
        mon.close("C24.params", got, cur, tol * max(1.0, float(np.abs(g).max())), f"parameters after step {i} ({case['kind']}, {mode}, {case['loop']}, {case['opt']})")
        cur = got  # each step starts from the library's own parameters: rounding is not amplified
    if case["kind"] == "vqe" and "hea" not in case:
        # the trained circuit, used afterwards outside of any transformation
        v = {k: float(x) for k, x in zip(names, cur)}
        out = ref.evolve(ops, st0, v, n) if st0.ndim == 1 else ref.evolve_dm(ops, st0, v, n)
        e = mon.call("expectation", horqrux.expectation, st, circ, obs, v, "ad")
        want = np.array([ref.expect(out, o, v, n) for o in case["obs"]])
        mon.close("C24.trained", e, want, 1e-9 * max(1.0, float(np.abs(want).max())), "expectation of the trained circuit")
    mon.tag("kind:" + case["kind"], "mode:" + mode, "loop:" + case["loop"], "opt:" + case["opt"], "form:" + case["form"], "hea" if "hea" in case else "explicit", "subclass" if case.get("sub") else "circuit", "density" if st0.ndim == 2 else "vector", "noisy" if ref.has_noise(ops) else "noiseless", *circuit_features(ops))
    if np.abs(cur - np.array([theta[k] for k in names])).max() > 1e-4:
        mon.sig(case["kind"], n, case["ops"], case.get("hea"), case["obs"], case["st"], case["theta"], mode, case["loop"], case["opt"])
