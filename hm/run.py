"""Driver of a check:  python -m hm.run C01 [--tier quick|thorough] [--replay FILE] [--cases N]

The parent shards the cases over worker processes, aggregates what the monitors observed, writes
evidence/<id>.json and decides: exit 0 (held on everything observed), 1 (violated, with VIOLATION
lines), 2 (inconclusive: too little was observed, or the harness failed).
"""
from __future__ import annotations

import argparse
import glob
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("HM_PYTHON", "/opt/venv/bin/python")
HARD_LIMIT = {"quick": 780, "thorough": 6 * 3600}
SOFT_LIMIT = {"quick": 330, "thorough": 5 * 3600}


# share of the random cases which are followed by a look-alike
TWINS = dict(C01=0.25, C02=0.25, C03=0.25, C05=0.06, C07=0.25, C09=0.2, C10=0.08, C11=0.12, C12=0.1, C13=0.08, C16=0.15, C21=0.15)


def known_findings(prop):
    """Entries of known_findings.txt: 'finding: property=<id> key=<key> <what>' lines."""
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                f = line.split()
                if f[1] == f"property={prop}":
                    out[f[2].split("=", 1)[1]] = " ".join(f[3:])
    return out


def case_rng(seed, prop, i):
    return random.Random(f"{seed}/{prop}/{i}")


# ------------------------------------------------------------------------------------- worker


def worker(a):
    from . import env  # noqa: F401  (imports jax and the code under test)
    from . import gen
    from .mon import LineCoverage, Monitor, Violation

    cov = LineCoverage(env.REPO)
    cov.start()
    P = importlib.import_module(f"hm.props.{a.prop}")
    mon = Monitor(a.prop, known_findings(a.prop))
    res = dict(cases=0, violations=[], errors=[], families=Counter(), truncated=False)
    t0 = time.time()

    def one(case):
        try:
            P.check(case, mon)
        except Violation as v:
            res["violations"].append(dict(key=v.key, msg=v.msg, case=case, hashseed=os.environ.get("PYTHONHASHSEED")))
        except Exception as e:  # noqa: BLE001
            import traceback

            # raised inside the library, on a request of the harness which is valid
            lib = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(env.REPO + "/horqrux/")]
            if lib and not isinstance(e, MemoryError):
                msg = f"{type(e).__name__}: {str(e)[:300]} in {lib[-1].filename}:{lib[-1].lineno}"
                res["violations"].append(dict(key=f"raised:{type(e).__name__}", msg=msg, case=case, hashseed=os.environ.get("PYTHONHASHSEED")))
                return
            # a result whose form the oracle cannot read (shape, type, missing entries)
            absent = isinstance(e, AttributeError) and ("module" in str(e) or "has no attribute '_" in str(e))
            if isinstance(e, (ValueError, TypeError, IndexError, KeyError, AttributeError, AssertionError)) and not absent:
                at = traceback.extract_tb(e.__traceback__)[-1]
                msg = f"{type(e).__name__}: {str(e)[:300]} while reading a result, in {at.filename}:{at.lineno}"
                res["violations"].append(dict(key=f"form:{type(e).__name__}", msg=msg, case=case, hashseed=os.environ.get("PYTHONHASHSEED")))
                return
            res["errors"].append(dict(err=traceback.format_exc()[-3000:], case=case))
            del e

    if a.replay:
        r = json.load(open(a.replay))
        for case in [r["before"]] * ("before" in r) + [r["case"]]:
            one(case)
        for v in res["violations"]:
            print(f"{v['key']}: {v['msg']}")
        for e in res["errors"]:
            print("harness error", e["err"])
        for k, m in mon.known_hits.items():
            print("KNOWN-FINDING", k, m)
        return 1 if res["violations"] else (2 if res["errors"] else 0)

    syst = list(P.systematic(a.tier)) if hasattr(P, "systematic") else []
    total = len(syst) + (a.cases if a.cases is not None else P.CASES[a.tier])
    fams = [f for f in P.FAMILIES]
    weights = [f[1] for f in fams]
    deadline = t0 + SOFT_LIMIT[a.tier]
    sample_kinds = set()
    cache_limit = 1500
    for i in range(a.shard, total, a.of):
        if time.time() > deadline or len(res["violations"]) >= 4 or len(res["errors"]) >= 4:
            res["truncated"] = time.time() > deadline
            break
        rng = case_rng(a.seed, a.prop, i)
        if i < len(syst):
            case = syst[i]
        else:
            name, _, fn = rng.choices(fams, weights)[0]
            case = fn(rng, a.tier)
            case["family"] = name
        fam = case.get("family", "systematic")
        res["families"][fam] += 1
        before = len(mon.sigs)
        if os.environ.get("HM_TRACE"):
            print(i, json.dumps(case), file=sys.stderr, flush=True)
        tc = time.time()
        one(case)
        if a.prop in TWINS and i >= len(syst) and rng.random() < TWINS[a.prop]:
            # whatever the library remembers from the case just run must not leak into its twin
            other, k = gen.twin(rng, case), len(res["violations"])
            if other is not None:
                one(other)
                for v in res["violations"][k:]:
                    v["before"] = case
                mon.tag("twin")
        if os.environ.get("HM_SLOW") and time.time() - tc > float(os.environ["HM_SLOW"]):
            print(f"slow {time.time() - tc:.1f}s", fam, json.dumps(case)[:300], file=sys.stderr)
        res["cases"] += 1
        if len(mon.sigs) > before and fam not in sample_kinds and len(mon.samples) < 3:
            sample_kinds.add(fam)
            mon.samples.append(case)
        if res["cases"] % 20 == 0 and rss_mb() > cache_limit:
            import jax

            jax.clear_caches()
            cache_limit = min(max(cache_limit, rss_mb() + 900), 3300)
    cov.stop()
    out = dict(
        res,
        events=mon.events,
        raised=mon.raised,
        oracle=mon.oracle,
        tags=mon.tags,
        sigs=sorted(mon.sigs),
        samples=mon.samples,
        known=mon.known_hits,
        maxdev=mon.maxdev,
        lines=sorted(cov.lines),
        funcs=sorted(cov.funcs),
        wall=time.time() - t0,
        rss=rss_mb(),
    )
    out["meta"] = dict(rule=P.RULE, floor=P.FLOOR, assumptions=getattr(P, "ASSUMPTIONS", []))
    json.dump(out, open(a.out, "w"), default=str)
    return 0


def rss_mb():
    for line in open("/proc/self/status"):
        if line.startswith("VmRSS"):
            return int(line.split()[1]) // 1024
    return 0


# ------------------------------------------------------------------------------------- parent


def parent(a):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="hm-")
    e = dict(os.environ, PYTHONPATH=ROOT, VERIF_TIER=a.tier)
    if "HM_CACHE" not in e:
        os.mkdir(os.path.join(tmp, "cache"))
        e["HM_CACHE"] = os.path.join(tmp, "cache")
    W = int(os.environ.get("HM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    procs = []
    for w in range(W):
        cmd = [PY, "-m", "hm.run", a.prop, "--worker", "--shard", str(w), "--of", str(W)]
        cmd += ["--seed", str(a.seed), "--tier", a.tier, "--out", f"{tmp}/{w}.json"]
        if a.cases is not None:
            cmd += ["--cases", str(a.cases)]
        err = open(f"{tmp}/{w}.err", "w")
        # sets of strings iterate in another order in every worker
        e["PYTHONHASHSEED"] = str(a.seed * 64 % 4000000 + w)
        procs.append(subprocess.Popen(cmd, env=e, cwd=ROOT, stdout=err, stderr=err))
    problems = []
    limit = t0 + HARD_LIMIT[a.tier]
    for w, p in enumerate(procs):
        try:
            p.wait(max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            problems.append(f"worker {w} was stopped at the time limit")
    outs = []
    for w, p in enumerate(procs):
        f = f"{tmp}/{w}.json"
        if os.path.exists(f):
            outs.append(json.load(open(f)))
        else:
            tail = open(f"{tmp}/{w}.err").read()[-2000:]
            problems.append(f"worker {w} ended with {p.returncode} and no result: {tail}")
        if os.environ.get("HM_TRACE") or os.environ.get("HM_SLOW"):
            sys.stderr.write(open(f"{tmp}/{w}.err").read())
    shutil.rmtree(tmp, ignore_errors=True)

    def add(k):
        c = Counter()
        for o in outs:
            c.update(o[k])
        return dict(sorted(c.items()))

    meta = outs[0]["meta"] if outs else {}
    sigs = set().union(*(o["sigs"] for o in outs)) if outs else set()
    events, oracle = add("events"), add("oracle")
    violations = [v for o in outs for v in o["violations"]]
    errors = [v for o in outs for v in o["errors"]]
    known = {}
    for o in outs:
        for k, m in o["known"].items():
            known.setdefault(k, m)
    lines = {tuple(x) for o in outs for x in o["lines"]}
    funcs = {tuple(x) for o in outs for x in o["funcs"]}
    if os.environ.get("HM_LINES"):  # development aid: which lines no check has executed
        with open(os.environ["HM_LINES"], "a") as f:
            f.write(json.dumps([a.prop, sorted(lines)]) + "\n")
    samples, seen = [], set()
    for o in outs:
        for s in o["samples"]:
            if s.get("family") not in seen and len(samples) < 6:
                seen.add(s.get("family"))
                samples.append(s)
    evidence = dict(
        property=a.prop,
        tier=a.tier,
        seed=a.seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(o["cases"] for o in outs),
            distinct_nontrivial=len(sigs),
            rule=meta.get("rule", ""),
            samples=samples or ["none"],
            library_calls_observed=events,
            expected_rejections_observed=add("raised"),
            oracle_decisions=oracle,
            situations_seen=add("tags"),
            cases_by_family=add("families"),
            largest_accepted_deviation=max([o["maxdev"] for o in outs], default=0.0),
            functions_executed=len(funcs),
            lines_executed_by_file={
                f: len([1 for x in lines if x[0] == f]) for f in sorted({x[0] for x in lines})
            },
            workers=len(outs),
            truncated_by_time=any(o["truncated"] for o in outs),
            known_findings_seen=sorted(known),
        ),
        assumptions=meta.get("assumptions", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    json.dump(evidence, open(f"{ROOT}/evidence/{a.prop}.json", "w"), indent=1)

    listed = known_findings(a.prop)
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={a.prop} {listed.get(k, k)} [observed: {first_line(known[k])}]")
    rc = 0
    if violations:
        os.makedirs(f"{ROOT}/replays", exist_ok=True)
        for f in glob.glob(f"{ROOT}/replays/{a.prop}-*.json"):
            os.remove(f)
        for i, v in enumerate(violations[:8]):
            path = f"{ROOT}/replays/{a.prop}-{i}.json"
            json.dump(dict(property=a.prop, seed=a.seed, tier=a.tier, **v), open(path, "w"), indent=1)
            print(f"VIOLATION property={a.prop} replay={path}")
            print("   ", v["key"], "--", v["msg"][:600].replace("\n", "\n      "))
        rc = 1
    elif problems or errors:
        for p in problems:
            print("INCONCLUSIVE:", p)
        for x in errors[:3]:
            print("INCONCLUSIVE: harness error", x["err"], json.dumps(x["case"])[:1500])
        rc = 2
    else:
        full = a.cases is None
        for k, m in meta.get("floor", {}).items():
            got = len(sigs) if k == "distinct" else (events.get(k, 0) + oracle.get(k, 0))
            if full and got < m:
                print(f"INCONCLUSIVE: observed only {got} of {k}, need {m}")
                rc = 2
    c = evidence["coverage"]
    print(
        f"{a.prop} {a.tier} seed={a.seed}: {c['evaluations']} cases, {len(sigs)} distinct, "
        f"{sum(events.values())} library calls, {sum(oracle.values())} oracle decisions, "
        f"max deviation {c['largest_accepted_deviation']:.1e}, {len(violations)} violations, "
        f"rss {max([o['rss'] for o in outs], default=0)} MB, {evidence['wall_s']} s -> exit {rc}"
    )
    return rc


def first_line(s):
    return s.splitlines()[0][:200] if s else ""


def main():
    if sys.argv[1:2] == ["--selftest"]:
        from . import env  # noqa: F401
        from .selftest import main as selftest

        return selftest()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--of", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.replay and not a.worker:
        hs = json.load(open(a.replay)).get("hashseed") or "0"
        e = dict(os.environ, PYTHONPATH=ROOT, PYTHONHASHSEED=str(hs))
        r = subprocess.run([PY, "-m", "hm.run", a.prop, "--worker", "--replay", os.path.abspath(a.replay)], env=e, cwd=ROOT)
        if r.returncode == 1:
            print(f"VIOLATION property={a.prop} replay={os.path.abspath(a.replay)}")
        return r.returncode
    return worker(a) if a.worker else parent(a)


if __name__ == "__main__":
    sys.exit(main())
