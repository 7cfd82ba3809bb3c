"""P04: shot splitting."""

from collections import Counter

from ..common import PlanInvalid, SimFault, circuit_key, counts_of
from .. import qexec
from ..device import SimDevice
from .p03_results import gen_circuit, make_circuit, placing_pass

ID = "P04"
RUNS = {"quick": 1800, "thorough": 30000}
LEVEL = "exploration"
RULE = ("distinct (limit, shot list relative to limit, completion order class, fault call, compiled) "
        "tuples")
REAL = ["gen_shot_split_MitRes", "gen_compiled_shot_split_MitRes", "split/group task generators"]
STUB = ["device: queue, latency, failures, execution"]
ASSUMPTIONS = ["every circuit of a call requests at least one shot"]
SHRINK_LISTS = ("calls", "list", "circuits", "ops", "measure", "mid")
SHRINK_INTS = ("max_shots",)
PROBES = ["equal_to_limit", "multiple_of_limit", "below", "above", "fault_surfaced", "retry_ok",
          "out_of_order", "empty"]


def gen(rng, tier, index):
    circuits = [gen_circuit(rng) for _ in range(rng.randint(1, 4))]
    m = rng.choice([1, 2, 3, 5, 10, 16, 50])
    calls = []
    for _ in range(rng.randint(1, 3)):
        lst = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 5])):
            s = rng.choice([rng.randint(1, m), m, 2 * m, 3 * m, m + 1, 2 * m - 1, 2 * m + 1,
                            rng.randint(1, 5 * m)])
            lst.append([rng.randrange(len(circuits)), max(1, s)])
        njobs = sum(-(-s // m) for _, s in lst)
        calls.append({"list": lst, "fault": rng.choice(
            [None, None, ["error", rng.randint(0, njobs + len(lst))], ["timeout", rng.randint(0, njobs + len(lst))],
             ["after_submit", len(lst)]])})
    return {"circuits": circuits, "calls": calls, "max_shots": m,
            "compiled": rng.choice([None, None, 0, 1, "place"]),
            "mode": rng.choice(["exact", "sample"]), "form": rng.choice(["shots", "shots", "counts"]),
            "dev_seed": rng.getrandbits(30)}


def run(plan, ctx):
    from qermit import CircuitShots
    from qermit.taskgraph import gen_compiled_shot_split_MitRes, gen_shot_split_MitRes

    m = plan["max_shots"]
    if m < 1:
        raise PlanInvalid()
    # results are always delivered as shots: merging is specified on shots
    dev = SimDevice(ctx, seed=plan["dev_seed"], mode=plan["mode"], form="shots",
                    compile_pass=placing_pass if plan["compiled"] == "place" else None)
    if plan["compiled"] is None:
        mr = gen_shot_split_MitRes(dev, m)
    else:
        mr = gen_compiled_shot_split_MitRes(dev, m, 1 if plan["compiled"] == "place" else plan["compiled"])
    circuits = [make_circuit(s) for s in plan["circuits"]]
    keys = [circuit_key(c) for c in circuits]
    dists = [qexec.distribution(c) for c in circuits]
    failed = False
    for call in plan["calls"]:
        lst = call["list"]
        if any(i >= len(circuits) or s < 1 for i, s in lst):
            raise PlanInvalid()
        j0, nf = dev.serial, len(dev.fired)
        c0 = len(dev.completion)
        dev.faults = {dev.calls + call["fault"][1]: call["fault"][0]} if call["fault"] else {}
        for _, s in lst:
            ctx.probe("equal_to_limit" if s == m else "multiple_of_limit" if s % m == 0
                      else "below" if s < m else "above")
        if not lst:
            ctx.probe("empty")
        try:
            res = mr.run([CircuitShots(circuits[i], s) for i, s in lst])
            err = None
        except SimFault as e:
            err = e
        dev.faults = {}
        fired = dev.fired[nf:]
        jobs = dev.log[j0:]
        order = [s - j0 for s in dev.completion[c0:]]
        ctx.state(m, tuple(sorted((s // m, s % m > 0) for _, s in lst)), tuple(order) if len(order) < 5 else
                  sum(a > b for a, b in zip(order, order[1:])), tuple((k, w) for k, _, w in fired), plan["compiled"])
        if order != sorted(order):
            ctx.probe("out_of_order")
        for _, c, s in jobs:
            ctx.check(1 <= s <= m, "job-limit", lambda: f"a job of {s} shots, limit {m}")
        if err is not None:
            ctx.check(bool(fired), "phantom-failure", f"{err}")
            ctx.probe("fault_surfaced")
            failed = True
            continue
        ctx.check(not fired, "fault-swallowed", lambda: f"{fired} fired, {len(res)} results returned")
        if failed:
            ctx.probe("retry_ok")
        ctx.check(len(res) == len(lst), "result-count", lambda: f"{len(res)} results for {lst}")
        ctx.check(sum(s for _, _, s in jobs) == sum(s for _, s in lst), "job-total",
                  lambda: f"jobs add up to {sum(s for _, _, s in jobs)} shots, requested {lst}")
        pool = Counter()
        pool_by, got_by = {}, {}  # per distinct circuit (uncompiled runs keep the circuit)
        for ser, c, s in jobs:
            r = dev.by_serial(ser).result
            pool += counts_of(r)
            pool_by[circuit_key(c)] = pool_by.get(circuit_key(c), Counter()) + counts_of(r)
        got_all = Counter()
        for k, ((i, s), r) in enumerate(zip(lst, res)):
            got = counts_of(r)
            ctx.check(sum(got.values()) == s, "shots", lambda: f"result {k}: {sum(got.values())} of {s} shots")
            ctx.check(set(r.c_bits) == set(circuits[i].bits), "bits", lambda: f"result {k} over {r.c_bits}")
            got_c = counts_of(r, circuits[i].bits)
            got_all += got
            got_by[keys[i]] = got_by.get(keys[i], Counter()) + got
            ctx.check(all(dists[i].get(o, 0) > 1e-9 for o in got_c), "impossible-outcome",
                      lambda: f"result {k}: {dict(got_c)} impossible for circuit {i}: {dists[i]}")
            if plan["mode"] == "exact":
                nj = -(-s // m)
                d = max(abs(got_c.get(o, 0) - dists[i].get(o, 0) * s) for o in set(got_c) | set(dists[i]))
                ctx.check(d <= nj + 1e-6, "distribution", lambda: f"result {k}: {dict(got_c)} vs {dists[i]} x {s}")
        ctx.check(got_all == pool, "shots-conserved", lambda: f"merged {dict(got_all)} measured {dict(pool)}")
        if plan["compiled"] is None:
            ctx.check(got_by == pool_by, "own-shots", "a result holds shots of another circuit's jobs")
    for c, k in zip(circuits, keys):
        ctx.check(circuit_key(c) == k, "input-mutated", "a caller's circuit was altered")
