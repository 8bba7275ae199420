"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib.util, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(ROOT, "mc", "checks", i + ".py")
    if os.path.exists(path):
        src = open(path).read()
        m = re.search(r'^TECHNIQUE = "(.*)"$', src, re.M)
        n = re.search(r'^NOTE = "(.*)"$', src, re.M)
        checks.append({
            "property": i,
            "quick_cmd": "/opt/venv/bin/python -B run.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python -B run.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": m.group(1) if m else "bounded exhaustive model checking of the real code against a reference model",
            "level": "model_checking",
            "level_note": n.group(1) if n else "Every case of the finite space described in the evidence file (bounds) is executed on the real code and compared with an independent reference model; nothing is claimed outside those bounds. Trusts numpy/scipy and the reference model.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
doc = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B -c 'import numpy, scipy'",
    "checks": checks,
    "not_applicable": na,
    "notes": "Each check enumerates every case of finite spaces of inputs, configurations and operation sequences on the code of /repo and compares with a reference model (mc/). Replay a violation with: /opt/venv/bin/python -B run.py <id> --replay <file>.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not claimed")
