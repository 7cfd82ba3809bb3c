"""tools/mkbug.py ID PROP FILE  <<< JSON {"edits":[[old,new],...], "needs":..., "what":..., "demo":...}
writes seeded/ID from textual edits against /repo (working tree left as it was)"""
import difflib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def make(id, prop, edits, needs, what, demo):
    d = os.path.join(here, "seeded", id)
    os.makedirs(d, exist_ok=True)
    byfile = {}
    for f, old, new in edits:
        s = byfile.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        byfile[f] = s.replace(old, new)
    out = ""
    for f, new in byfile.items():
        a = open("/repo/" + f).read()
        out += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff(
            a.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(out)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\n'
        'here="$(cd "$(dirname "$0")" && pwd)"\nexec /opt/venv/bin/python "$here/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
