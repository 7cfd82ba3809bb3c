#!/usr/bin/env python3
"""Entry point.

  check.py run PID [--tier quick|thorough] [--seed N] [--workers W] [--runs N]
  check.py replay FILE
  check.py determinism PID [--runs N]      (runs every seed several times and diffs digests)

exit 0: property held on everything explored; 1: VIOLATION line printed; 3: harness error.
"""

import argparse
import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("QERMIT_REPO", "/repo")
GROUPS = 8  # hash-seed classes; fixed, so run i means the same thing at any worker count


def env_for(hashseed):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = str(hashseed)
    e["PYTHONPATH"] = REPO + os.pathsep + HERE
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e[v] = "1"
    return e


def hashseed(seed, group):
    return (seed * 2654435761 + group * 40503 + 17) % 4294967295


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def spawn(pid, seed, tier, group, runs, budget, out, known, plan=None, hs=None, start=0):
    cmd = [PY, "-m", "dst.worker", "--prop", pid, "--seed", str(seed), "--tier", tier,
           "--group", str(group), "--groups", str(GROUPS), "--runs", str(runs),
           "--budget", str(budget), "--out", out, "--known", json.dumps(known),
           "--start", str(start)]
    if plan:
        cmd += ["--plan", plan]
    return subprocess.Popen(
        cmd, cwd=HERE, env=env_for(hashseed(seed, group) if hs is None else hs),
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
    )


def run_groups(pid, seed, tier, runs, budget, workers, known, tmp, start=0):
    """all groups, at most `workers` interpreters at a time"""
    todo = list(range(min(GROUPS, runs)))
    live = []
    recs, errs = [], []
    hard_end = time.monotonic() + budget + 400
    while todo or live:
        while todo and len(live) < workers:
            g = todo.pop(0)
            out = os.path.join(tmp, f"g{g}.jsonl")
            log = open(os.path.join(tmp, f"g{g}.log"), "wb")
            p = spawn(pid, seed, tier, g, runs, budget, out, known, start=start)
            live.append((g, p, out))
        time.sleep(0.05)
        for item in list(live):
            g, p, out = item
            if p.poll() is None and time.monotonic() < hard_end:
                continue
            if p.poll() is None:
                p.kill()
                errs.append(f"group {g}: hard timeout")
            so = p.stdout.read().decode(errors="replace")
            live.remove(item)
            ended = False
            if os.path.exists(out):
                for line in open(out):
                    r = json.loads(line)
                    r["group"] = g
                    recs.append(r)
                    ended = ended or r["type"] == "end"
            if p.returncode != 0 or not ended:
                errs.append(f"group {g}: exit {p.returncode}: {so[-3000:]}")
    return recs, errs


def prop_meta(pid):
    """static metadata without importing the library"""
    import ast

    d = os.path.join(HERE, "dst", "props")
    for f in sorted(os.listdir(d)):
        if f.split("_")[0].upper() == pid and f.endswith(".py"):
            tree = ast.parse(open(os.path.join(d, f)).read())
            meta = {}
            for n in tree.body:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                    try:
                        meta[n.targets[0].id] = ast.literal_eval(n.value)
                    except Exception:
                        pass
            return meta
    raise SystemExit(f"no such property {pid}")


def cmd_run(a):
    t0 = time.monotonic()
    pid = a.prop.upper()
    meta = prop_meta(pid)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    runs = a.runs or meta["RUNS"][tier]
    budget = a.budget or {"quick": 240, "thorough": 700}[tier]
    known = [f for f in known_findings() if f["property"] == pid]
    sigs = [f["sig"] for f in known]
    print(f"check {pid} tier={tier} seed={seed} runs={runs} hash-seed groups={GROUPS}", flush=True)
    tmp = tempfile.mkdtemp(prefix="dst_")
    try:
        recs, errs = run_groups(pid, seed, tier, runs, budget, a.workers, sigs, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.monotonic() - t0
    rr = [r for r in recs if r["type"] == "run"]
    faults, probes = collections.Counter(), collections.Counter()
    states, digests = set(), set()
    evals, sim, cross = 0, 0.0, {}
    outcome = collections.Counter()
    viol, known_hits, samples = [], {}, []
    for r in sorted(rr, key=lambda r: r["i"]):
        res = r["res"]
        outcome[res["outcome"]] += 1
        if res["outcome"] == "harness_error":
            errs.append(f"run {r['i']}: {res['detail']}")
            continue
        faults.update(res["faults"])
        probes.update(res["probes"])
        states.update(res["states"])
        digests.add(res["digest"])
        evals += res["evals"]
        sim += res["sim_time"]
        if res["outcome"] == "invalid":
            errs.append(f"run {r['i']}: generated plan invalid: {res['detail']}")
        if res["outcome"] == "violation":
            if r.get("known"):
                known_hits.setdefault(res["sig"], r["i"])
            else:
                viol.append(r)
        elif "plan" in r and len(samples) < 3:
            samples.append({"run": r["i"], "plan": json.dumps(r["plan"])[:700], "digest": res["digest"]})
    evaluations = len(rr)
    violations = []
    for r in viol:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{pid}-s{seed}-r{r['i']}.json")
        mr = r.get("min_res") or r["res"]
        json.dump(
            {
                "property": pid, "seed": seed, "index": r["i"], "tier": tier,
                "hashseed": hashseed(seed, r["group"]), "plan": r["min_plan"],
                "violation": {"kind": mr["kind"], "sig": mr["sig"], "detail": mr["detail"]},
                "digest": mr["digest"], "trace_tail": mr["tail"],
                "original_plan": r["plan"], "minimiser_steps": r.get("tried"),
            },
            open(path, "w"), indent=1,
        )
        ok, txt = replay_file(path) if len(violations) < 2 else (None, '')
        violations.append({"run": r["i"], "kind": mr["kind"], "detail": mr["detail"][:600],
                           "replay": path, "replayed": ok})
        print(f"  run {r['i']}: {mr['kind']}: {mr['detail'][:700]}")
        print(f"  minimised in {r.get('tried')} steps; replay in a fresh process: {'same violation' if ok else ('not run' if ok is None else 'DIFFERENT: ' + txt)}")
    for f in known:
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    zero = [p for p in meta.get("PROBES", []) if not probes.get(p)]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": meta.get("LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(states),
            "rule": meta["RULE"],
            "samples": samples or [{"note": "no passing run"}],
            "oracle_checks": evals,
            "simulated_runs": evaluations,
            "seeds_per_hour": round(evaluations / wall * 3600),
            "runs_per_hour": round(evaluations / wall * 3600),
            "simulated_seconds": round(sim, 3),
            "faults_injected": dict(sorted(faults.items())),
            "probes_hit": dict(sorted(probes.items())),
            "probes_never_hit": zero,
            "distinct_event_traces": len(digests),
            "distinct_states": len(states),
            "state_measure": meta["RULE"],
            "components_real": meta.get("REAL", []),
            "components_stub": meta.get("STUB", []),
            "hash_seed_classes": min(GROUPS, runs),
            "outcomes": dict(outcome),
            "known_findings_hit": known_hits,
        },
        "assumptions": meta.get("ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": [f"{v['kind']}: {v['detail'][:300]} replay={v['replay']}" for v in violations],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"  {evaluations} runs, {evals} oracle checks, {len(states)} distinct states, "
          f"{len(digests)} distinct traces, {sum(faults.values())} faults fired "
          f"({dict(sorted(faults.items()))}), sim {sim:.0f}s, wall {wall:.1f}s")
    if a.verbose:
        print("  probes", dict(sorted(probes.items())), "never", zero)
        ws = sorted(((r["res"].get("wall", 0), r["i"]) for r in rr), reverse=True)[:5]
        print("  slowest", ws)
    if violations:
        for v in violations:
            print(f"VIOLATION property={pid} replay={v['replay']}")
        return 1
    if errs:
        print("HARNESS ERROR")
        for e in errs[:5]:
            print(e)
        return 3
    return 0


def replay_file(path):
    rec = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="dst_")
    try:
        out = os.path.join(tmp, "o.jsonl")
        p = spawn(rec["property"], rec["seed"], rec["tier"], 0, 1, 600, out, [], plan=path, hs=rec["hashseed"])
        so, _ = p.communicate(timeout=600)
        if not os.path.exists(out) or not os.path.getsize(out):
            return False, so.decode(errors="replace")[-2000:]
        res = json.loads(open(out).readline())["res"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    same = res["outcome"] == "violation" and res["sig"] == rec["violation"]["sig"] and (
        res["digest"] == rec["digest"])
    return same, json.dumps({k: res[k] for k in ("outcome", "kind", "detail", "digest")})


def cmd_replay(a):
    rec = json.load(open(a.file))
    ok, txt = replay_file(a.file)
    print(txt)
    if ok:
        print("replay: identical violation and event digest")
    res = json.loads(txt) if txt.startswith("{") else {"outcome": "?"}
    if res["outcome"] == "violation":
        print(f"VIOLATION property={rec['property']} replay={a.file}")
        return 1
    return 0


def cmd_determinism(a):
    """the same runs: repeated, at other worker counts, and (hash classes permitting) under
    another PYTHONHASHSEED; event digests must agree"""
    bad = 0
    for pid in ([a.prop.upper()] if a.prop != "all" else all_ids()):
        base = None
        for workers in (8, 3, 8):
            tmp = tempfile.mkdtemp(prefix="dst_")
            recs, errs = run_groups(pid, a.seed or 1, "quick", a.runs or 40, 600, workers, [], tmp)
            shutil.rmtree(tmp, ignore_errors=True)
            d = {r["i"]: (r["res"].get("digest"), r["res"]["outcome"]) for r in recs if r["type"] == "run"}
            if base is None:
                base = d
            elif d != base:
                diff = [i for i in base if d.get(i) != base[i]]
                print(f"{pid}: NOT deterministic, workers={workers}, runs {diff[:10]}")
                bad += 1
        print(f"{pid}: {len(base)} runs x3 (8, 3, 8 workers): digests compared")
    return 1 if bad else 0


def cmd_selftest(a):
    """setup: everything needed is importable, from the working tree of /repo"""
    p = subprocess.run([PY, "-c", "from dst import seams; seams.install(); seams.preload(); "
                        "import qermit; print(qermit.__file__)"], cwd=HERE, env=env_for(1),
                       capture_output=True, text=True)
    print(p.stdout, p.stderr[-2000:])
    return 0 if p.returncode == 0 and p.stdout.strip().startswith(REPO) else 3


def all_ids():
    d = os.path.join(HERE, "dst", "props")
    return [f.split("_")[0].upper() for f in sorted(os.listdir(d)) if f.startswith("p") and f.endswith(".py")]


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    r = sp.add_parser("run")
    r.add_argument("prop")
    r.add_argument("--tier", default=None)
    r.add_argument("--seed", type=int, default=None)
    r.add_argument("--workers", type=int, default=8)
    r.add_argument("--runs", type=int, default=None)
    r.add_argument("--budget", type=float, default=None)
    r.add_argument("-v", "--verbose", action="store_true")
    q = sp.add_parser("replay")
    q.add_argument("file")
    d = sp.add_parser("determinism")
    d.add_argument("prop")
    d.add_argument("--runs", type=int, default=None)
    d.add_argument("--seed", type=int, default=None)
    sp.add_parser("selftest")
    a = ap.parse_args()
    sys.exit({"selftest": cmd_selftest, "run": cmd_run, "replay": cmd_replay, "determinism": cmd_determinism}[a.cmd](a))


if __name__ == "__main__":
    main()
