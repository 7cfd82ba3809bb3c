"""writes MANIFEST.json from the property modules present and NOT_APPLICABLE below"""
import importlib.util, json, os, sys, ast

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
checks = []
d = os.path.join(here, "dst", "props")
claimed = set()
for f in sorted(os.listdir(d)):
    if not (f.startswith("p") and f.endswith(".py")):
        continue
    meta = {}
    for n in ast.parse(open(os.path.join(d, f)).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                meta[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    pid = meta["ID"]
    claimed.add(pid)
    checks.append({
        "property": pid,
        "quick_cmd": f"/opt/venv/bin/python check.py run {pid} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python check.py run {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": meta.get("TECHNIQUE", "deterministic simulation with fault injection (seeded search)"),
        "level": meta.get("LEVEL", "exploration"),
        "level_note": "Seeded search over simulated runs, not exhaustive. "
        + "Real code: " + "; ".join(meta.get("REAL", []))
        + ". Stubbed: " + "; ".join(meta.get("STUB", []))
        + ". Assumes: " + ("; ".join(meta.get("ASSUMPTIONS", [])) or "nothing further") + ".",
    })
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in claimed]
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python check.py selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every seam is installed from outside (dst/seams.py) before qermit is imported; "
             "/repo carries only fix: commits (see known_findings.json). Checks import qermit from /repo's working tree.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
