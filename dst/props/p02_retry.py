"""P02: a run leaves no trace."""

import random

from .. import flows
from ..common import PlanInvalid
from ..device import SimAer

ID = "P02"
RUNS = {"quick": 700, "thorough": 14000}
LEVEL = "exploration"
RULE = ("distinct (workflow tree, operation and position class at which the device failed, failure kind, outcome of the "
        "retry, number of earlier runs, batch sizes) tuples")
REAL = ["all mitigation generators of the library, with their sub-workflows", "TaskGraph, MitRes, MitEx", "pytket passes, "
        "Backend base class"]
STUB = ["devices: queue, latency, failures; exact distributions plus a deterministic parity noise", "process pool"]
ASSUMPTIONS = ["the device itself is deterministic: what a newly built object would return is computed on an equal device",
               "the library's randomness (process-wide generators, entropy, pool order) is set to the same state before a "
               "run and before its reference run"]
SHRINK_LISTS = ("calls", "inputs", "terms")
PROBES = ["fault_surfaced", "retry_same_objects", "retry_other_experiments", "two_faults_in_a_row", "compile_fault",
          "submit_fault", "retrieve_fault", "expectation_fault", "same_circuit_objects", "after_submit", "earlier_success",
          "custom_base", "same_inputs_again", "earlier_results_kept", "refused_equally", "smaller_batch", "placed"]
PLACED = {"plain", "compiled", "split", "csplit", "fr", "spam", "uspam", "post", "leak", "checks", "mitex", "mr"}


def gen(rng, tier, index):
    flow = flows.gen_flow(rng, flows.RES + flows.EX, depth=rng.choice([0, 1, 1, 2]))
    calls = []
    sims = flows.kinds_of(flow) & {"cdr", "pec"}
    for _ in range(rng.choice([1, 2, 2, 3])):
        faults = []
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            faults.append([rng.choice(["dev", "sim"] if sims else ["dev"]), rng.choice(["error", "timeout", "after_submit"]),
                           rng.randrange(10**6)])
        share = bool(calls) and rng.random() < 0.35
        c = {"inputs": flows.vary(rng, flow, calls[-1]["inputs"]) if share else flows.gen_inputs(rng, flow), "share": share,
             "faults": faults, "again": rng.random() < 0.25,
             "retry": rng.random() < 0.8}
        calls.append(c)
    return {"flow": flow, "calls": calls, "place": rng.random() < 0.3, "dev_seed": rng.getrandbits(30)}


def run(plan, ctx):
    flow = plan["flow"]
    kinds = flows.kinds_of(flow)
    place = plan["place"] and kinds <= PLACED
    SimAer.CTX = ctx
    if flow["base"]:
        ctx.probe("custom_base")
    if place:
        ctx.probe("placed")

    def fresh():
        env = flows.Env(ctx, plan["dev_seed"], place)
        return env, flows.build(flow, env)

    env, obj = fresh()
    kept = []
    earlier = 0
    last = None
    prev_len = None
    for n, call in enumerate(plan["calls"]):
        specs = call["inputs"]
        if not specs:
            raise PlanInvalid()
        seed = random.Random(f"{plan['dev_seed']}:{n}").getrandbits(40)
        # what a newly built object returns
        renv, robj = fresh()
        rin = flows.Inputs(flow, specs)
        flows.reseed(seed)
        ref = flows.call(robj, rin)
        n_calls = {"dev": renv.dev.calls, "sim": renv.sim.calls}
        ctx.check(ref[0] != "fault", "spurious fault", lambda: repr(ref))
        inputs = flows.Inputs(flow, specs, last if call["share"] else None)
        last = inputs
        if call["share"] and n:
            ctx.probe("same_circuit_objects")
        before = inputs.snapshot()
        fired_here = 0
        todo = list(call["faults"]) + [None]
        if call["again"]:
            todo.append(None)
        for f in todo:
            if f is None and fired_here and not call["retry"]:
                break  # the caller goes on to other experiments
            if f is not None and n_calls[f[0]] == 0:
                f = [f[0] if n_calls[f[0]] else "dev"] + f[1:]
                if n_calls[f[0]] == 0:
                    continue
            flows.reseed(seed)
            marks = (len(env.dev.fired), len(env.sim.fired))
            env.dev.faults.clear()
            env.sim.faults.clear()
            if f is not None:
                k = f[2] % n_calls[f[0]]
                d = getattr(env, f[0])
                d.faults[d.calls + k] = f[1]
            got, raw = flows.call_raw(obj, inputs)
            new = env.dev.fired[marks[0]:] + env.sim.fired[marks[1]:]
            after = inputs.snapshot()
            ctx.check(after == before, "the run changed the caller's experiments", lambda: f"{diff(before, after)}"[:900],
                      sig="inputs-changed")
            if new:
                ctx.check(got[0] != "ok", "a failure of the device did not reach the caller",
                          lambda: f"{flow['kind']}: fault {new}, returned {repr(got[1])[:400]}", sig="failure-swallowed")
                ctx.probe("fault_surfaced")
                ctx.probe(new[0][2] + "_fault")
                if new[0][1] == "after_submit":
                    ctx.probe("after_submit")
                if fired_here:
                    ctx.probe("two_faults_in_a_row")
                fired_here += 1
                ctx.state(tree(flow), [(w, kk) for _, kk, w in new], k * 6 // n_calls[f[0]], earlier, len(specs))
                continue
            ctx.check(flows.same(got, ref), "result differs from that of a newly built object",
                      lambda: f"{tree(flow)} after {earlier} runs and {fired_here} failures here: got {repr(got)[:500]}, "
                              f"fresh {repr(ref)[:500]}", sig="not-fresh")
            ctx.state(tree(flow), "ok", fired_here > 0, earlier, len(specs), got[0])
            if got[0] == "ok":
                kept.append((inputs, raw, got))
            else:
                ctx.probe("refused_equally")
            if fired_here:
                ctx.probe("retry_same_objects")
            if earlier:
                ctx.probe("earlier_success")
                if len(specs) < prev_len:
                    ctx.probe("smaller_batch")
            if f is None and call["again"]:
                ctx.probe("same_inputs_again")
            earlier += 1
            prev_len = len(specs)
        if fired_here and not call["retry"] and n + 1 < len(plan["calls"]):
            ctx.probe("retry_other_experiments")
        for i, raw, got in kept:
            ctx.check(flows.same(("ok", flows.canonical(i, raw)), got), "a later run changed results returned earlier",
                      lambda: repr(got)[:400], sig="results-changed")
        if len(kept) > 1:
            ctx.probe("earlier_results_kept")


def tree(flow):
    return (flow["kind"], tuple(sorted((s, tree(b)) for s, b in flow["base"].items())))


def diff(a, b):
    return [(x, y) for x, y in zip(a, b) if x != y]
