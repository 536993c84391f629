"""Regenerates MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C12": "runtime monitoring: statistical oracle over seeded shot estimates of random programs",
    "C13": "runtime monitoring: statistical oracle over seeded shot gradients of random programs",
    "C14": "runtime monitoring: conservation and goodness-of-fit monitors over recorded samples",
    "C15": "runtime monitoring: differential monitor of compiled/vectorised against plain calls",
    "C18": "runtime monitoring: state fingerprints around every call, replayed random histories",
    "C19": "runtime monitoring: thread stress with injected delays, offline check against sequential results",
    "C23": "runtime monitoring: hostile-input workload with rejection and recovery monitors",
}
DEFAULT = "runtime monitoring: online oracle (independent numpy reference) over random, systematic and stress workloads"
props = [json.loads(x) for x in open(f"{ROOT}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(f"{ROOT}/hm/props/{i}.py"):
        na.append({"property": i, "reason": "no check yet"})
        continue
    checks.append(
        {
            "property": i,
            "quick_cmd": f"./check {i} --tier quick",
            "thorough_cmd": f"./check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i, DEFAULT),
            "level": "exploration",
            "level_note": "Every execution of the run satisfied the monitors; executions outside the "
            "generated workload are not covered. Trusts the numpy reference semantics of hm/ref.py, "
            "numpy, and the generators' reach (measured in the evidence file).",
        }
    )
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -m compileall -q hm && ./check --selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the monitors wrap the public calls from outside. Known findings: known_findings.txt.",
}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
