"""P19: independent clients of one device; workflows built around other workflows."""

import copy
import random

from .. import flows
from ..common import PlanInvalid
from ..device import SimAer
from ..threads import Threads
from .p02_retry import PLACED, tree

ID = "P19"
RUNS = {"quick": 500, "thorough": 12000}
LEVEL = "exploration"
RULE = ("distinct (workflow trees of the clients, schedule kind, number-of-switches class, failing client) and (outer and "
        "inner workflow, order of build/run/extend/drift actions) tuples")
REAL = ["all mitigation generators of the library with user-supplied sub-workflows", "TaskGraph, MitTask, MitRes, MitEx",
        "real Python threads (one runs at a time)"]
STUB = ["devices: queue, latency, failures; exact distributions plus a deterministic noise that drifts between runs",
        "thread scheduler: seeded, switches at device interactions and at lines of the library"]
ASSUMPTIONS = ["process-wide random generators are switched together with the thread: which random numbers a client draws "
               "does not depend on the other clients (seeds are the subject of P20)"]
SHRINK_LISTS = ("clients", "runs", "inputs", "terms", "actions")
SHRINK_INTS = ("rate",)
PROBES = ["line_switches", "device_switches", "same_kind", "three_clients", "fault_in_one", "others_unaffected", "alone_first",
          "wrap", "inner_calibrated_first", "two_outer", "inner_run_after", "extended_outer", "extended_inner", "decomposed",
          "drift", "cache", "spam_inner", "ex_inner", "read_from_inner", "put_into_graph"]


def gen(rng, tier, index):
    return gen_threads(rng) if rng.random() < 0.5 else gen_wrap(rng)


def gen_threads(rng):
    kinds = [rng.choice(flows.RES + flows.EX)] if rng.random() < 0.5 else flows.RES + flows.EX
    clients = []
    for _ in range(rng.choice([2, 2, 3])):
        f = flows.gen_flow(rng, kinds, depth=rng.choice([0, 1]))
        clients.append({"flow": f, "runs": [{"inputs": flows.gen_inputs(rng, f)} for _ in range(rng.choice([1, 1, 2]))],
                        "fault": [rng.choice(["error", "timeout"]), rng.choice([3, 10, 30, 100]), rng.random()]
                        if rng.random() < 0.2 else None})
    return {"mode": "threads", "clients": clients, "place": rng.random() < 0.3, "dev_seed": rng.getrandbits(30),
            "rate": rng.choice([0, 2, 5, 20, 100, 300]), "sched_seed": rng.getrandbits(30), "alone_first": rng.random() < 0.5}


SIM_SLOTS = ("states_simulator_mitex", "simulator_mitex")


def gen_wrap(rng):
    while True:
        w1 = flows.gen_flow(rng, ["mitex", "spectral", "zne"] if rng.random() < 0.3 else list(flows.SLOTS), depth=1)
        if w1["base"]:
            break
    slot = rng.choice(sorted(w1["base"]))
    inner = w1["base"][slot]
    outer = [[w1, slot]]
    for _ in range(60):
        w = flows.gen_flow(rng, list(flows.SLOTS), depth=1)
        ok = [s for s, b in sorted(w["base"].items()) if b["kind"] == inner["kind"] and (s in SIM_SLOTS) == (slot in SIM_SLOTS)]
        if ok:
            w["base"][ok[0]] = inner
            outer.append([w, ok[0]])
            break
    if len(outer) < 2 and rng.random() < 0.7:
        outer.append(copy.deepcopy(outer[0]))
    for _ in range(rng.choice([0, 0, 1, 2])):
        # a workflow read from the inner one's task graph, or a graph the inner one is put into
        outer.insert(rng.randint(0, len(outer)), [inner, rng.choice(["=read", "=append", "=prepend", "=parallel"])])
    n = len(outer)
    actions = []
    built = []
    for _ in range(rng.randint(3, 8)):
        todo = [i for i in range(n) if i not in built]
        r = rng.random()
        if todo and (r < 0.35 or len(built) == 0 and r < 0.6):
            i = todo[0]
            built.append(i)
            actions.append(["build", i])
            continue
        who = rng.choice([-1] + built)
        r = rng.random()
        if r < 0.65:
            f = inner if who < 0 else outer[who][0]
            actions.append(["run", who, flows.gen_inputs(rng, f), rng.random() < 0.2,
                            rng.randint(0, 12) if rng.random() < 0.12 else None])
        elif r < 0.8:
            actions.append(["extend", who])
        elif r < 0.85:
            actions.append(["decompose", who])
        else:
            actions.append(["drift"])
    actions.append(["run", -1, flows.gen_inputs(rng, inner), False, None])
    for i in built:
        actions.append(["run", i, flows.gen_inputs(rng, outer[i][0]), False, None])
    return {"mode": "wrap", "inner": inner, "outer": outer, "actions": actions, "sim": slot in SIM_SLOTS,
            "dev_seed": rng.getrandbits(30)}


def run(plan, ctx):
    SimAer.CTX = ctx
    if plan["mode"] == "threads":
        return run_threads(plan, ctx)
    return run_wrap(plan, ctx)


# ---------------------------------------------------------------- threads
def run_threads(plan, ctx):
    clients = plan["clients"]
    if not clients:
        raise PlanInvalid()
    n = len(clients)
    place = plan["place"] and all(flows.kinds_of(c["flow"]) <= PLACED for c in clients)
    seeds = [random.Random(f"{plan['dev_seed']}:{i}").getrandbits(40) for i in range(n)]
    counts = [0] * n
    fired = [False] * n
    who = [0]

    def hook(name, what):
        i = who[0]()
        counts[i] += 1
        f = clients[i]["fault"]
        if f is not None and not fired[i] and counts[i] > f[1] * f[2]:
            fired[i] = True
            return f[0]
        return None

    def program(i, env, out):
        c = clients[i]
        place_i = flows.build(c["flow"], env)
        for r in c["runs"]:
            if not r["inputs"]:
                raise PlanInvalid()
            out.append(flows.call(place_i, flows.Inputs(c["flow"], r["inputs"])))

    def alone():
        res = []
        for i in range(n):
            counts[i], fired[i] = 0, False
            who[0] = lambda i=i: i
            env = flows.Env(ctx, plan["dev_seed"], place, fault_hook=hook)
            flows.reseed(seeds[i])
            out = []
            program(i, env, out)
            res.append(out)
        return res

    def together():
        states = []
        for i in range(n):
            flows.reseed(seeds[i])
            states.append(flows.save())
            counts[i], fired[i] = 0, False
        ts = Threads(plan["sched_seed"], plan["rate"], flows.save, flows.restore, states,
                     on_switch=lambda a, b, w: ctx.event(f"switch {a}->{b} {w}"))
        who[0] = lambda: ts.current
        env = flows.Env(ctx, plan["dev_seed"], place, fault_hook=hook, yield_point=lambda w: ts.point("device"))
        outs = [[] for _ in range(n)]
        ts.run([lambda i=i: program(i, env, outs[i]) for i in range(n)])
        return outs, ts

    if plan["alone_first"]:
        ctx.probe("alone_first")
        ref = alone()
        got, ts = together()
    else:
        got, ts = together()
        ref = alone()
    ctx.probe("line_switches", ts.where.get("line", 0))
    ctx.probe("device_switches", ts.where.get("device", 0))
    if n > 2:
        ctx.probe("three_clients")
    kinds = [c["flow"]["kind"] for c in clients]
    if len(set(kinds)) < n:
        ctx.probe("same_kind")
    failing = [i for i in range(n) if any(o[0] == "fault" for o in ref[i])]
    for i in range(n):
        for k, (a, b) in enumerate(zip(got[i], ref[i])):
            ctx.check(flows.same(a, b), "a client's result depends on the other clients",
                      lambda: f"client {i} of {kinds}, run {k}: with others {repr(a)[:500]}, alone {repr(b)[:500]}",
                      sig="disturbed")
    if failing:
        ctx.probe("fault_in_one")
        if len(failing) < n:
            ctx.probe("others_unaffected")
    b = 0
    while (1 << b) < ts.switches:
        b += 1
    ctx.state("threads", sorted(map(repr, map(tree, (c["flow"] for c in clients)))), bool(plan["rate"]), b, len(failing))


# ---------------------------------------------------------------- workflows around workflows
def run_wrap(plan, ctx):
    from qermit import MitEx, MitRes, MitTask, TaskGraph

    inner, outer, actions = plan["inner"], plan["outer"], plan["actions"]
    ctx.probe("wrap")
    if inner["kind"] in ("spam", "uspam"):
        ctx.probe("spam_inner")
    if not flows.is_res(inner["kind"]):
        ctx.probe("ex_inner")

    from typing import List, Tuple

    from pytket.backends.backendresult import BackendResult
    from pytket.utils import QubitPauliOperator

    def count_res(obj, wire: List[BackendResult]) -> Tuple[List[BackendResult]]:
        obj.characterisation["runs"] = obj.characterisation.get("runs", 0) + 1
        return (wire,)

    def fork(obj, wire):
        return (wire, wire)

    def first(obj, one, two):
        return (one,)

    def count_ex(obj, wire: List[QubitPauliOperator]) -> Tuple[List[QubitPauliOperator]]:
        return count_res(obj, wire)

    def play(only=None):
        """the whole history, or the part of it that concerns one object (None: all; -1: the inner one)"""
        env = flows.Env(ctx, plan["dev_seed"])
        dev = env.sim if plan["sim"] else env.dev
        recorder = {True: MitTask("Recorder", 1, 1, count_res), False: MitTask("Recorder", 1, 1, count_ex)}
        flows.reseed(plan["dev_seed"])
        objs = {-1: flows._build(inner, env, dev, {}, "")}
        born = set()
        seen = {}
        for n, a in enumerate(actions):
            if a[0] == "drift":
                env.epoch += 1
                continue
            if only is not None and not (a[1] == only or (a[1] == -1 and only not in born)):
                continue
            flows.reseed(plan["dev_seed"] * 1000 + n)
            x = a[1]
            if a[0] == "build":
                f, slot = outer[x]
                is_res = isinstance(objs[-1], MitRes)
                if slot == "=read":
                    ctx.probe("read_from_inner")
                    objs[x] = (MitRes if is_res else MitEx)(dev)
                    objs[x].from_TaskGraph(objs[-1])
                elif slot[0] == "=":
                    ctx.probe("put_into_graph")
                    o = objs[x] = TaskGraph()
                    if slot == "=append":
                        o.append(objs[-1])
                        o.append(recorder[is_res])
                    elif slot == "=parallel":
                        o.append(objs[-1])
                        o.parallel(objs[-1])
                        o.prepend(MitTask("Fork", 1, 2, fork))
                        o.append(MitTask("First", 2, 1, first))
                    else:
                        o.append(recorder[is_res])
                        o.prepend(objs[-1])
                else:
                    objs[x] = flows.build(f, env, {"/" + slot: objs[-1]})
                born.add(x)
                continue
            if x not in objs:
                raise PlanInvalid()
            o = objs[x]
            if a[0] == "extend":
                o.append(recorder[isinstance(o, MitRes) or not isinstance(o, MitEx) and isinstance(objs[-1], MitRes)])
            elif a[0] == "decompose":
                try:
                    o.decompose_TaskGraph_nodes()
                except ValueError:
                    pass  # graphs with through wires cannot be decomposed
            elif a[0] == "run":
                if not a[2]:
                    raise PlanInvalid()
                env.dev.faults.clear()
                if a[4] is not None:
                    env.dev.faults[env.dev.calls + a[4]] = "error"
                seen[n] = (flows.call_raw(o, flows.Inputs(inner if x < 0 else outer[x][0], a[2]),
                                          **({"cache": True} if a[3] else {}))[0], looks(o))
                env.dev.faults.clear()
        return seen, {x: looks(o) for x, o in objs.items()}

    def looks(o):
        return (o.label, sorted(t._label for t in o.tasks), o.n_in_wires, o.n_out_wires,
                describe(o.get_characterisation()), [(k, tuple(map(repr_type, v[1]))) for k, v in o.get_cache().items()])

    all_seen, all_looks = play()
    names = {a[1] for a in actions if a[0] != "drift"} | {-1}
    for x in sorted(names):
        seen, lk = play(x)
        for n, (want, look) in sorted(seen.items()):
            if actions[n][1] != x:
                continue
            got, got_look = all_seen[n]
            who = "the inner workflow" if x < 0 else f"outer workflow {x}"
            ctx.check(flows.same(got, want), "workflows built from the same object affect each other",
                      lambda: f"{who} ({tree(inner)} in {[tree(w) + (s,) for w, s in outer]}), action {n}: {repr(got)[:400]}, by "
                              f"itself {repr(want)[:400]}", sig="affects-result")
            ctx.check(got_look == look, "workflows built from the same object affect each other's state",
                      lambda: f"{who}, action {n}: {got_look}, by itself {look}"[:900], sig="affects-state")
        ctx.check(all_looks[x] == lk[x], "workflows built from the same object affect each other's state",
                  lambda: f"object {x} at the end: {all_looks[x]}, by itself {lk[x]}"[:900], sig="affects-state")
    ops = [(a[0], a[1] if len(a) > 1 else None) for a in actions]
    first = next((i for i, a in enumerate(ops) if a[0] == "build"), len(ops))
    if ("run", -1) in ops[:first]:
        ctx.probe("inner_calibrated_first")
    if len([a for a in ops if a[0] == "build"]) > 1:
        ctx.probe("two_outer")
    if any(a[0] == "run" and a[1] >= 0 for a in ops[first:-1]):
        ctx.probe("inner_run_after")
    for a in ops:
        if a[0] == "extend":
            ctx.probe("extended_inner" if a[1] < 0 else "extended_outer")
        elif a[0] == "decompose":
            ctx.probe("decomposed")
        elif a[0] == "drift":
            ctx.probe("drift")
    if any(a[0] == "run" and a[3] for a in actions):
        ctx.probe("cache")
    ctx.state("wrap", tree(inner), [(tree(w), s) for w, s in outer], ops)


def repr_type(v):
    return type(v).__name__


def describe(v):
    """characterisation data in a form that can be compared"""
    import numpy as np

    if isinstance(v, dict):
        return sorted((repr(k), describe(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [describe(x) for x in v]
    if isinstance(v, np.ndarray):
        return [describe(x) for x in v.tolist()]
    if isinstance(v, (float, complex)):
        return f"{v:.6g}"
    if isinstance(v, (int, str, bool)) or v is None:
        return repr(v)
    if type(v).__module__.startswith("pytket"):
        return repr(v)
    if hasattr(v, "__dict__"):
        return describe(vars(v))
    return type(v).__name__
