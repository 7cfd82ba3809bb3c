"""P03: circuit runs: one complete result per circuit, in order, under any queue."""

from ..common import (PlanInvalid, SimFault, apply_ops, circuit_key, counts_of,
                      dist_of, new_circuit, qubit_list, rand_ops, tv)
from .. import qexec
from ..device import SimDevice

ID = "P03"
RUNS = {"quick": 1600, "thorough": 30000}
LEVEL = "exploration"
RULE = ("distinct (circuit count, repeats, completion order of the queue, fault kind and call, "
        "runner kind, result form) tuples")
REAL = ["MitRes", "gen_compiled_MitRes", "backend_handle/res/compile task generators", "TaskGraph"]
STUB = ["device: queue, latency, failures, execution, qubit placement pass"]
ASSUMPTIONS = ["the device answers each handle with that job's own result"]
SHRINK_LISTS = ("calls", "circuits", "ops", "measure")
SHRINK_INTS = ("shots",)
PROBES = ["out_of_order", "fault_surfaced", "retry_ok", "empty_list", "compiled", "repeated_circuit",
          "placed", "prepended_task", "midcircuit"]


def gen_circuit(rng, big=False):
    n = rng.randint(1, 4)
    nb = rng.randint(1, 5)
    ops = rand_ops(rng, n, rng.randint(0, 8))
    # a distinctive basis prefix
    k = rng.randint(1, min(n, nb))
    qs = rng.sample(range(n), k)
    bs = rng.sample(range(nb), k)
    mid = []
    if rng.random() < 0.2:
        mid = [[rng.randrange(n), rng.randrange(nb)]]
    return {"n": n, "nb": nb, "ops": ops, "mid": mid, "measure": [[q, b] for q, b in zip(qs, bs)],
            "reg": rng.choice(["q", "q", "node", "a"]), "breg": rng.choice(["c", "c", "d"])}


def make_circuit(spec):
    from pytket.circuit import Bit

    c = new_circuit(spec["ops"])
    for q in qubit_list(spec["n"], spec["reg"]):
        c.add_qubit(q)
    for b in range(spec["nb"]):
        c.add_bit(Bit(spec["breg"], b))
    qs = qubit_list(spec["n"], spec["reg"])
    for q, b in spec["mid"]:
        c.Measure(qs[q], Bit(spec["breg"], b))
    apply_ops(c, spec["ops"], qs)
    for q, b in spec["measure"]:
        c.Measure(qs[q], Bit(spec["breg"], b))
    if not spec["measure"]:
        raise PlanInvalid()
    return c


def gen(rng, tier, index):
    k = rng.choice([0, 1, 1, 2, 3, 4, 6, 9])
    circuits = [gen_circuit(rng) for _ in range(max(1, k))]
    for c in list(circuits):
        if rng.random() < 0.3:
            # the same gates, measured differently
            m = list(c["measure"])
            bs = [b for _, b in m]
            rng.shuffle(bs)
            circuits.append(dict(c, measure=[[rng.choice([q, q, rng.randrange(c["n"])]) if len(m) == 1 else q, b]
                                             for (q, _), b in zip(m, bs)]))
    calls = []
    for _ in range(rng.randint(1, 3)):
        m = k if rng.random() < 0.7 else rng.randint(0, 6)
        lst = [[rng.randrange(len(circuits)), rng.choice([1, 2, 5, 17, 64, 100, 333])] for _ in range(m)]
        calls.append({"list": lst,
                      "fault": rng.choice([None, None, ["error", rng.randint(0, 1 + 2 * m)],
                                           ["timeout", rng.randint(0, 1 + 2 * m)],
                                           ["after_submit", 0]])})
    return {"circuits": circuits, "calls": calls,
            "runner": rng.choice(["plain", "plain", "compiled0", "compiled1", "compiled2", "compiled_place", "user"]),
            "mode": rng.choice(["exact", "sample"]), "form": rng.choice(["counts", "shots"]),
            "dev_seed": rng.getrandbits(30)}


def placing_pass(dev, level):
    """rebase + seeded relabelling of the qubits onto device nodes"""
    from pytket.circuit import Node
    from pytket.passes import CustomPass

    from ..device import AutoRebase, DecomposeBoxes

    gates = dev.gates
    perm = list(range(8))
    dev._session_random.shuffle(perm)

    def tr(c):
        c = c.copy()
        DecomposeBoxes().apply(c)
        AutoRebase(gates).apply(c)
        c.rename_units({q: Node("node", perm[i]) for i, q in enumerate(c.qubits)})
        return c

    return CustomPass(tr)


def run(plan, ctx):
    from typing import List, Tuple

    from qermit import CircuitShots, MitRes, MitTask
    from qermit.taskgraph import gen_compiled_MitRes

    runner = plan["runner"]
    from pytket.circuit import OpType

    gates = None
    if runner.startswith("compiled"):
        gates = {OpType.CX, OpType.Rz, OpType.H, OpType.Measure, OpType.Barrier, OpType.Rx}
    dev = SimDevice(ctx, seed=plan["dev_seed"], mode=plan["mode"], form=plan["form"], gates=gates,
                    compile_pass=placing_pass if runner == "compiled_place" else None)
    if runner in ("plain", "user"):
        mr = MitRes(dev)
    else:
        mr = gen_compiled_MitRes(dev, int(runner[-1]) if runner[-1].isdigit() else 1)
        ctx.probe("placed" if runner == "compiled_place" else "compiled")
    if runner == "user":
        # a user's own tasks around the runner
        def pre(obj, circs: List[CircuitShots]) -> Tuple[List[CircuitShots]]:
            return ([CircuitShots(c.copy(), s + 1) for c, s in circs],)

        mr.prepend(MitTask(_label="pre", _n_in_wires=1, _n_out_wires=1, _method=pre))
        ctx.probe("prepended_task")
    # the tasks listed are those that run
    from qermit import MitEx
    from qermit.taskgraph.task_graph import TaskGraph

    for w in (mr, MitEx(dev)):
        ctx.check(len(w.tasks) >= 2 and all(isinstance(t, (MitTask, TaskGraph)) for t in w.tasks), "tasks",
                  lambda: f"{type(w).__name__} lists {w.tasks}")
    circuits = [make_circuit(s) for s in plan["circuits"]]
    if any(s["mid"] for s in plan["circuits"]):
        ctx.probe("midcircuit")
    keys = [circuit_key(c) for c in circuits]
    dists = [qexec.distribution(c) for c in circuits]
    failed_before = False
    for call in plan["calls"]:
        if any(i >= len(circuits) for i, _ in call["list"]):
            raise PlanInvalid()
        lst = call["list"]
        wires = [CircuitShots(circuits[i], s) for i, s in lst]
        j0, c0, comp0 = dev.serial, dev.calls, len(dev.completion)
        dev.faults = {}
        if call["fault"]:
            dev.faults = {dev.calls + call["fault"][1]: call["fault"][0]}
        n_fired = len(dev.fired)
        try:
            res = mr.run(wires)
            err = None
        except SimFault as e:
            err = e
        fired = dev.fired[n_fired:]
        dev.faults = {}
        order = tuple(s - j0 for s in dev.completion[comp0:])
        ctx.state(len(lst), tuple(lst_i for lst_i, _ in lst) if len(lst) < 4 else len(set(i for i, _ in lst)),
                  order, tuple((k - c0, w) for k, w, _ in fired), runner, plan["form"])
        if order != tuple(sorted(order)):
            ctx.probe("out_of_order")
        if err is not None:
            ctx.check(bool(fired), "phantom-failure", f"{err}")
            ctx.probe("fault_surfaced")
            failed_before = True
            continue
        ctx.check(not fired, "fault-swallowed",
                  lambda: f"device failed with {fired} but the run returned {len(res)} results for {len(lst)} circuits")
        ctx.check(isinstance(res, list) and len(res) == len(lst), "result-count",
                  lambda: f"{len(res)} results for {len(lst)} circuits")
        if not lst:
            ctx.probe("empty_list")
        if failed_before:
            ctx.probe("retry_ok")
        if len(set(i for i, _ in lst)) < len(lst):
            ctx.probe("repeated_circuit")
        jobs = dev.log[j0:]
        jobs = [j for j in jobs]
        ctx.check(len(jobs) == len(lst), "job-count", lambda: f"{len(jobs)} jobs for {len(lst)} circuits")
        extra = 1 if runner == "user" else 0
        for k, ((i, s), r) in enumerate(zip(lst, res)):
            got = counts_of(r)
            ctx.check(sum(got.values()) == s + extra, "shots",
                      lambda: f"result {k}: {sum(got.values())} shots, requested {s + extra}")
            ctx.check(set(r.c_bits) == set(circuits[i].bits), "bits",
                      lambda: f"result {k} is over {list(r.c_bits)}, circuit has {circuits[i].bits}")
            got = counts_of(r, circuits[i].bits)
            if plan["mode"] == "exact":
                want = dists[i]
                d = max(abs(got.get(o, 0) - want.get(o, 0) * (s + extra)) for o in set(got) | set(want))
                ctx.check(d <= 1.0 + 1e-6, "distribution",
                          lambda: f"result {k}: {dict(got)} of {s + extra} shots, circuit {i} has {want}")
            else:
                ctx.check(all(dists[i].get(o, 0) > 1e-9 for o in got), "impossible-outcome",
                          lambda: f"result {k}: {dict(got)} not possible for circuit {i}: {dists[i]}")
                # each result is one job's own result
                own = [dev.by_serial(j[0]) for j in jobs if j[2] == s + extra]
                ctx.check(any(o.result is not None and set(circuits[i].bits) <= set(o.result.c_bits)
                              and counts_of(o.result, circuits[i].bits) == got for o in own),
                          "wrong-job", lambda: f"result {k} is not the result of any job of this call")
    for c, k in zip(circuits, keys):
        ctx.check(circuit_key(c) == k, "input-mutated", "a caller's circuit was altered")
