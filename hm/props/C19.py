"""C19: concurrent calls from several threads behave as sequential ones."""
from __future__ import annotations

import os
import random
import sys
import threading
import time

from .. import gen
from ..mon import Violation
from . import C18
from .C18 import Pool, against_reference, perform, plain, same

CASES = {"quick": 100, "thorough": 2500}
FLOOR = {"distinct": 60, "interleavings": 50, "switches": 3000, "C19.result": 700, "delays": 2000}
RULE = (
    "3-6 threads start together on one shared pool (circuits, gates, observables, states, value "
    "dictionaries, one compiled function) and make 3-6 public calls each, biased to calls of the "
    "same objects, with a switch interval of 1 microsecond and delays injected between lines of the "
    "library (everywhere, in one file, or at the lines of one function). Every result is recorded at "
    "the client and compared offline with the same call made sequentially on a fresh equal pool, and "
    "with the reference. Distinct by program; interleavings are distinct sequences of (thread, line) "
    "at the switches observed inside the library."
)
ASSUMPTIONS = ["CPython with the global interpreter lock: switches happen between bytecodes, delays at line boundaries"]
KINDS = [
    ("run", 5), ("call", 3), ("gates", 4), ("sample", 4), ("ad", 4), ("adjoint", 2), ("gpsr", 3), ("shots", 3), ("gpsr-shots", 1),
    ("grad", 1), ("grad-gpsr", 0.5), ("backward", 1), ("backward-shots", 0.3), ("sparse", 1.5), ("dense", 1), ("group", 2), ("tensor", 3),
    ("dagger", 3), ("jit", 1), ("obs", 3), ("dm", 2), ("meta", 3), ("shared-jit", 3), ("kraus", 2),
]
FILES = [
    "apply.py", "api.py", "shots.py", "circuit.py", "composite/compose.py", "composite/sequence.py", "primitives/primitive.py",
    "primitives/parametric.py", "utils/operator_utils.py", "utils/conversion.py", "utils/values_utils.py", "noise/noise.py",
    "noise/utils_noise.py", "differentiation/ad.py", "differentiation/gpsr/analytical.py", "differentiation/gpsr/shots.py",
    "differentiation/gpsr/gpsr_utils.py", "differentiation/adjoint.py",
]


def program(rng, tier):
    c = C18.history(rng, tier)
    c.pop("steps")
    threads = []
    fav = (rng.randrange(2), rng.randrange(2), rng.randrange(2))
    common = rng.choices([k for k, _ in KINDS], [w for _, w in KINDS], k=2)
    for _ in range(rng.randint(3, 6)):
        calls = []
        for _ in range(rng.randint(3, 6)):
            k = rng.choice(common) if rng.random() < 0.4 else rng.choices([k for k, _ in KINDS], [w for _, w in KINDS])[0]
            cc, ss, vv = fav if rng.random() < 0.6 else (rng.randrange(2), rng.randrange(2), rng.randrange(2))
            calls.append({"s": "call", "k": k, "c": cc, "st": ss, "v": vv, "shots": rng.choice([1, 5, 33]), "key": rng.randrange(4)})
        threads.append(calls)
    c["threads"] = threads
    r = rng.random()
    c["delay"] = {"mode": "all" if r < 0.3 else "file" if r < 0.7 else "function", "seed": rng.randrange(10**6), "file": rng.choice(FILES)}
    return c


FAMILIES = [("program", 1, program)]


class Injector:
    """Delays between lines of the library, and a record of the thread switches inside it."""

    def __init__(self, d, root):
        self.rng = random.Random(d["seed"])
        self.mode = d["mode"]
        self.prefix = os.path.join(root, "horqrux") + os.sep
        self.file = self.prefix + d["file"]
        self.pick = d["seed"] % 5
        self.last = None
        self.switches = []
        self.delays = 0
        self.ids = {}

    def start(self):
        m = sys.monitoring
        self.tool = m.DEBUGGER_ID
        m.use_tool_id(self.tool, "hm-delays")
        local = {}

        def begin(code, off):
            if code.co_filename.startswith(self.prefix):
                hot = self.mode == "all" or code.co_filename == self.file
                if hot and self.mode == "function":
                    hot = sum(map(ord, code.co_name)) % 5 == self.pick
                local[code] = hot
                m.set_local_events(self.tool, code, m.events.LINE)
            return m.DISABLE

        def line(code, no):
            t = self.ids.get(threading.get_ident())
            if t is None:
                return
            if t != self.last:
                self.last = t
                self.switches.append((t, code.co_name, no))
            hot = local.get(code)
            r = self.rng.random()
            if r < (0.25 if hot and self.mode != "all" else 0.04):
                self.delays += 1
                time.sleep(0 if r < 0.01 else self.rng.random() * 4e-4)

        m.register_callback(self.tool, m.events.PY_START, begin)
        m.register_callback(self.tool, m.events.LINE, line)
        m.set_events(self.tool, m.events.PY_START)
        self.local = local

    def stop(self):
        m = sys.monitoring
        m.set_events(self.tool, 0)
        for code in self.local:
            m.set_local_events(self.tool, code, 0)
        m.free_tool_id(self.tool)
        m.restart_events()


def one(step, pool, mon, jitted):
    """The call of a step; the compiled function is shared by the threads."""
    if step["k"] == "shared-jit":
        s, v = pool.states[step["st"]], pool.vals[step["v"]]
        return "jit", mon.call("shared-jit", jitted[step["c"]], s, v)
    if step["k"] == "kraus":
        g = next((g for g in pool.gates[step["c"]] if g.noise), None)
        return "kraus", mon.call("kraus", lambda: [] if g is None else [list(x.kraus) for x in g.noise])
    return perform(step, pool, mon)


def compiled(pool):
    import horqrux
    import jax

    return [jax.jit(lambda s, v, c=c: horqrux.run(c, s, v)) for c in pool.circs]


def check(case, mon):
    from .. import env

    case = {**case, "now": case["circs"]}
    pool = Pool(case)
    jitted = compiled(pool)
    before = pool.fingerprint()
    calls = case["threads"]
    got = [[] for _ in calls]
    errors = []
    barrier = threading.Barrier(len(calls))
    inj = Injector(case["delay"], env.REPO)

    def body(i):
        inj.ids[threading.get_ident()] = i
        barrier.wait(60)
        for step in calls[i]:
            try:
                got[i].append((step, *one(step, pool, mon, jitted)))
            except BaseException as e:  # noqa: BLE001
                errors.append((i, step, e))
                return

    old = sys.getswitchinterval()
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(calls))]
    inj.start()
    sys.setswitchinterval(1e-6)
    try:
        for t in ts:
            t.start()
        end = time.time() + 240
        for t in ts:
            t.join(max(0.1, end - time.time()))
        stuck = any(t.is_alive() for t in ts)
    finally:
        sys.setswitchinterval(old)
        inj.stop()
    if stuck:
        raise RuntimeError("threads did not finish in time")
    with mon.lock:
        mon.events["switches"] += len(inj.switches)
        mon.events["delays"] += inj.delays
    # offline: the same calls, one after another, on fresh equal objects
    fresh = Pool(case)
    jf = compiled(fresh)
    done = {}
    for i, step, e in errors:
        if not isinstance(e, (Violation, threading.BrokenBarrierError)):
            raise e
        try:
            one(step, fresh, mon, jf)
        except Violation as s:
            raise Violation("sequential:" + s.key, f"the call also fails sequentially: {s.msg}") from s
        raise Violation("C19.raised", f"thread {i}, call {step}: raised only in the concurrent run: {e}")
    for i, rs in enumerate(got):
        for step, k, out in rs:
            sig = tuple(sorted(step.items()))
            if sig not in done:
                done[sig] = plain(one(step, fresh, mon, jf)[1])
            where = f"thread {i}, {k} of circuit {step['c']}, state {step['st']}, values {step['v']}"
            tol = 1e-9 if "grad" in k or "backward" in k else 1e-12
            same(mon, "C19.result", done[sig], plain(out), tol, where + ": sequential, then concurrent")
            if k not in ("sample", "kraus"):
                against_reference(step, k, out, case, mon, where)
            mon.tag("call:" + step["k"])
    mon.check(pool.fingerprint() == before, "C19.inputs", "the shared objects changed during the concurrent run")
    mon.tag(f"threads:{len(calls)}", "delay:" + case["delay"]["mode"])
    if len(inj.switches) > 2 * len(calls):
        if mon_new(mon, inj.switches):
            with mon.lock:
                mon.events["interleavings"] += 1
        mon.sig({x: case[x] for x in ("n", "circs", "states", "threads")})


SEEN = set()


def mon_new(mon, switches):
    h = hash(tuple(switches))
    new = h not in SEEN
    SEEN.add(h)
    return new
