"""Monitors: recording of client-boundary events, oracle comparisons, coverage of the real code."""
from __future__ import annotations

import hashlib
import json
import os
import sys
import threading
import traceback
from collections import Counter

import numpy as np

TOL = 1e-9


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(f"{key}: {msg}")
        self.key = key
        self.msg = msg


class Monitor:
    def __init__(self, prop, known=()):
        self.prop = prop
        self.events = Counter()  # client-boundary events (completed calls), by kind
        self.raised = Counter()  # expected exceptions, by kind
        self.oracle = Counter()  # oracle comparisons, by kind
        self.sigs = set()  # distinct non-trivial cases
        self.samples = []
        self.known_hits = {}  # known finding id -> first description
        self.known_ids = set(known)
        self.tags = Counter()
        self.maxdev = 0.0
        self.lock = threading.Lock()

    # ------------------------------------------------------------------ events
    def call(self, kind, fn, *a, **k):
        """Call the library; an exception on a valid request is a violation."""
        try:
            out = fn(*a, **k)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation(
                f"raised:{kind}:{type(e).__name__}",
                f"{kind} raised {type(e).__name__}: {str(e)[:300]}\n"
                + "".join(traceback.format_tb(e.__traceback__)[-6:]),
            ) from e
        with self.lock:
            self.events[kind] += 1
        return out

    def rejects(self, kind, exc, fn, *a, **k):
        """Call the library with an invalid request; it must raise one of `exc`."""
        try:
            out = fn(*a, **k)
        except exc as e:
            with self.lock:
                self.raised[f"{kind}:{type(e).__name__}"] += 1
            return e
        except Exception as e:  # noqa: BLE001
            raise Violation(
                f"rejects:{kind}",
                f"{kind} raised {type(e).__name__}: {str(e)[:200]} instead of {exc}",
            ) from e
        raise Violation(f"rejects:{kind}", f"{kind} was accepted and returned {str(out)[:200]}")

    # ------------------------------------------------------------------ oracle
    def check(self, cond, key, msg=""):
        with self.lock:
            self.oracle[key] += 1
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg)

    def close(self, key, got, want, tol=TOL, what=""):
        got = np.asarray(got)
        want = np.asarray(want)
        with self.lock:
            self.oracle[key] += 1
        if got.shape != want.shape:
            raise Violation(key, f"{what} shape {got.shape}, expected {want.shape}")
        if got.size == 0:
            return
        dev = np.abs(got - want)
        d = float(dev.max()) if np.isfinite(dev).all() else float("inf")
        if not d <= tol:
            i = int(np.argmax(np.where(np.isfinite(dev), dev, np.inf)))
            raise Violation(
                key,
                f"{what} deviates by {d:.3g} (tolerance {tol:.1g}) at flat index {i}: "
                f"got {got.reshape(-1)[i]}, expected {want.reshape(-1)[i]}",
            )
        with self.lock:
            self.maxdev = max(self.maxdev, d)

    # ---------------------------------------------------------------- coverage
    def sig(self, *parts):
        h = hashlib.blake2b(json.dumps(parts, sort_keys=True, default=str).encode(), digest_size=8)
        self.sigs.add(h.hexdigest())

    def tag(self, *names):
        with self.lock:
            for n in names:
                self.tags[n] += 1

    def known(self, fid, msg):
        """A failure which the known-findings file lists under fid; unlisted ones are violations."""
        if fid not in self.known_ids:
            raise Violation(f"unlisted:{fid}", msg)
        self.known_hits.setdefault(fid, msg[:500])
        with self.lock:
            self.oracle[f"known:{fid}"] += 1


class LineCoverage:
    """Lines of the package executed during the run, through sys.monitoring (each line fires once)."""

    def __init__(self, root):
        self.root = os.path.join(root, "horqrux") + os.sep
        self.lines = set()
        self.funcs = set()

    def start(self):
        m = sys.monitoring
        self.tool = m.COVERAGE_ID
        m.use_tool_id(self.tool, "hm-coverage")

        def on_start(code, off):
            if code.co_filename.startswith(self.root):
                self.funcs.add((code.co_filename[len(self.root) :], code.co_qualname))
                m.set_local_events(self.tool, code, m.events.LINE)
            return m.DISABLE

        def on_line(code, line):
            self.lines.add((code.co_filename[len(self.root) :], line))
            return m.DISABLE

        m.register_callback(self.tool, m.events.PY_START, on_start)
        m.register_callback(self.tool, m.events.LINE, on_line)
        m.set_events(self.tool, m.events.PY_START)

    def stop(self):
        sys.monitoring.set_events(self.tool, 0)
        sys.monitoring.free_tool_id(self.tool)
