"""One interpreter (own PYTHONHASHSEED): executes its share of the runs of one check."""

import argparse
import json
import os
import sys
import time

from . import seams

seams.install()

from . import core, registry  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--seed", type=int, required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--group", type=int, default=0)
    ap.add_argument("--groups", type=int, default=1)
    ap.add_argument("--runs", type=int, default=10)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--out", required=True)
    ap.add_argument("--known", default="")
    ap.add_argument("--plan", default="")
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--start", type=int, default=0)
    a = ap.parse_args()
    seams.preload()
    prop = registry.load(a.prop)
    if hasattr(prop, "start_worker"):
        prop.start_worker()  # a second interpreter
    known = set(json.loads(a.known)) if a.known else set()
    timeout = getattr(prop, "RUN_TIMEOUT", 150.0)
    t0 = time.monotonic()
    out = open(a.out, "w")

    def emit(o):
        out.write(json.dumps(o) + "\n")
        out.flush()

    if a.plan:
        rec = json.load(open(a.plan))
        r = core.execute_isolated(prop, rec["plan"], timeout)
        emit({"type": "run", "i": rec.get("index", -1), "res": r})
        return
    done = 0
    new_viol = 0
    for i in range(a.start + a.group, a.start + a.runs, a.groups):
        if time.monotonic() - t0 > a.budget:
            emit({"type": "budget", "i": i})
            break
        try:
            plan = core.make_plan(prop, a.seed, i, a.tier)
        except Exception:  # noqa: BLE001
            import traceback

            emit(
                {
                    "type": "run",
                    "i": i,
                    "res": {
                        "outcome": "harness_error",
                        "detail": "gen: " + traceback.format_exc()[-2000:],
                    },
                }
            )
            break
        t1 = time.monotonic()
        r = core.execute_isolated(prop, plan, timeout)
        r["wall"] = time.monotonic() - t1
        rec = {"type": "run", "i": i, "res": r}
        if r["outcome"] == "violation":
            if r["sig"] in known:
                rec["known"] = True
                rec["plan"] = plan
            else:
                # determinism: the very same run must fail the same way again
                again = core.execute_isolated(prop, plan, timeout)
                rec["repeat_same"] = (
                    again["outcome"] == "violation" and again["sig"] == r["sig"]
                )
                if r["kind"] == "no-progress":  # every try would take as long
                    mp, mr, tried = plan, r, 0
                else:
                    mp, mr, tried = core.minimise(prop, plan, r)
                rec["plan"] = plan
                rec["min_plan"], rec["min_res"], rec["tried"] = mp, mr, tried
                new_viol += 1
        elif i < a.start + 2 * a.groups:
            rec["plan"] = plan
        emit(rec)
        done += 1
        if new_viol >= 1:
            break
    emit({"type": "end", "done": done, "wall": time.monotonic() - t0})


if __name__ == "__main__":
    main()
