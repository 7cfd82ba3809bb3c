"""P06: measurement reduction changes the cost, not the answer."""

from ..common import PlanInvalid, SimFault, circuit_key, rand_observable
from ..device import SimDevice
from .. import exps
from .p05_mitex import premeasure
from .p03_results import placing_pass

ID = "P06"
RUNS = {"quick": 2200, "thorough": 25000}
LEVEL = "exploration"
RULE = ("distinct (strategy, method, entangler configuration, number of strings, circuits used, experiments, "
        "fault call class, tracker reuse) tuples")
REAL = ["gen_MeasurementReduction_MitEx", "measurement_reduction_task_gen", "MitEx", "ObservableTracker",
        "pytket.partition"]
STUB = ["device: queue, latency, failures, execution (exact probabilities apportioned to counts)"]
ASSUMPTIONS = ["ansatz circuits contain no measurements"]
SHRINK_LISTS = ("calls", "exps", "ops", "terms", "pre")
PROBES = ["fault_surfaced", "retry_ok", "same_tracker_retry", "reduced", "two_experiments", "symbolic",
          "premeasured", "custom_mitex", "identity_string", "clear_expectation"]


def gen(rng, tier, index):
    specs, obs = [], []
    for _ in range(rng.randint(1, 2)):
        specs.append(exps.gen_ansatz(rng, nmax=4, depth=8))
        if rng.random() < 0.6:
            # a state in which most strings have an expectation other than zero
            for _ in range(2):
                for q in range(specs[-1]["n"]):
                    specs[-1]["ops"] = [["Ry", rng.choice([0.2, 0.3, -0.3, 0.7, 1.2]), q],
                                        ["Rz", rng.choice([0.2, 0.3, -0.3, 0.8]), q]] + specs[-1]["ops"]
    for s in list(specs):
        for _ in range(rng.randint(1, 2)):
            n = rng.randint(1, s["n"])
            many = 18 if rng.random() < 0.4 else 8
            terms = rand_observable(rng, n, rng.randint(1, many), p_i=rng.choice([0.1, 0.35, 0.6]))
            if rng.random() < 0.08:
                terms.append([{}, -1.5])
            obs.append({"n": n, "terms": terms, "reg": s["reg"]})
    calls = []
    for _ in range(rng.randint(1, 4)):
        es = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            c = rng.randrange(len(specs))
            ok = [i for i, o in enumerate(obs) if o["reg"] == specs[c]["reg"] and o["n"] <= specs[c]["n"]]
            es.append({"c": c, "o": rng.choice(ok), "shots": rng.choice([1000, 1800, 3001]),
                       "vals": {s: rng.choice(exps.ANGLES) for s in exps.SYMS},
                       "pre": [0] if rng.random() < 0.15 else []})
        calls.append({"exps": es,
                      "fault": [rng.choice(["error", "timeout", "after_submit"]), rng.randint(0, 14)]
                      if rng.random() < 0.45 else None})
    return {"specs": specs, "obs": obs, "calls": calls,
            "strategy": rng.choice(["NonConflictingSets", "CommutingSets", "CommutingSets", None]),
            "method": rng.choice(["Lazy", "LargestFirst", "Exhaustive", None]),
            "cx": rng.choice(["Snake", "Star", "Tree", "MultiQGate", None]),
            "custom": rng.choice([False, False, True]), "place": rng.random() < 0.3,
            "form": rng.choice(["counts", "shots"]), "dev_seed": rng.getrandbits(30)}


def run(plan, ctx):
    from pytket.partition import GraphColourMethod, PauliPartitionStrat
    from pytket.transform import CXConfigType

    from qermit import AnsatzCircuit, MitEx, ObservableExperiment
    from qermit.taskgraph import gen_MeasurementReduction_MitEx
    from qermit.taskgraph.utils import ObservableTracker

    dev = SimDevice(ctx, seed=plan["dev_seed"], form=plan["form"],
                    compile_pass=placing_pass if plan["place"] else None)
    kw = {}
    if plan["strategy"]:
        kw["strategy"] = getattr(PauliPartitionStrat, plan["strategy"])
    if plan["method"]:
        kw["method"] = getattr(GraphColourMethod, plan["method"])
    if plan["cx"]:
        kw["cx_config"] = getattr(CXConfigType, plan["cx"])
    if plan["custom"]:
        kw["mitex"] = MitEx(dev, _label="users")
        ctx.probe("custom_mitex")
    mx = gen_MeasurementReduction_MitEx(dev, **kw)
    circs = [exps.make_ansatz(s) for s in plan["specs"]]
    keys = [circuit_key(c) for c in circs]
    obs = [exps.make_qpo(o["terms"], o["reg"]) for o in plan["obs"]]
    snaps = [exps.op_snapshot(o) for o in obs]
    shared, failed_with = {}, set()
    for call in plan["calls"]:
        experiment, meta, n_pre = [], [], 0
        for e in call["exps"]:
            if e["c"] >= len(circs) or e["o"] >= len(obs):
                raise PlanInvalid()
            spec, o = plan["specs"][e["c"]], plan["obs"][e["o"]]
            if spec["reg"] != o["reg"] or spec["n"] < o["n"] or not o["terms"]:
                raise PlanInvalid()
            sd = exps.symbols_dict(spec, e["vals"], "dict")
            if exps.used_syms(spec["ops"]):
                ctx.probe("symbolic")
            if e["pre"] and exps.n_qubits_of(o["terms"][0][0]):
                t = ObservableTracker(exps.make_qpo(o["terms"], o["reg"]))
                premeasure(t, circs[e["c"]], sd, o["terms"][0][0], o["reg"], False)
                ctx.probe("premeasured")
                n_pre += 1
            else:
                t = shared.setdefault(e["o"], ObservableTracker(obs[e["o"]]))
            experiment.append(ObservableExperiment(AnsatzCircuit(circs[e["c"]], e["shots"], sd), t))
            meta.append((spec, o, e))
        nf, j0, c0 = len(dev.fired), dev.serial, dev.calls
        dev.faults = {dev.calls + call["fault"][1]: call["fault"][0]} if call["fault"] else {}
        try:
            res = mx.run(experiment)
            err = None
        except SimFault as ex:
            err = ex
        dev.faults = {}
        fired = dev.fired[nf:]
        njobs = dev.serial - j0
        nstr = sum(len(o["terms"]) for _, o, _ in meta)
        ctx.state(plan["strategy"], plan["method"], plan["cx"], nstr, njobs, len(meta),
                  tuple(w for _, _, w in fired), any(e["o"] in failed_with for _, _, e in meta))
        ctx.check(njobs <= nstr, "cost", lambda: f"{njobs} measurement circuits for {nstr} strings")
        if err is not None:
            ctx.check(bool(fired), "phantom-failure", f"{err}")
            ctx.probe("fault_surfaced")
            failed_with.update(e["o"] for _, _, e in meta)
            continue
        ctx.check(not fired, "fault-swallowed", lambda: f"{fired}")
        if failed_with:
            ctx.probe("retry_ok")
        if any(e["o"] in failed_with and not e["pre"] for _, _, e in meta):
            ctx.probe("same_tracker_retry")
        if njobs < nstr:
            ctx.probe("reduced")
        ctx.check(len(res) == len(meta), "result-count", lambda: f"{len(res)} for {len(meta)} experiments")
        if len(meta) > 1:
            ctx.probe("two_experiments")
        for i, (r, (spec, o, e)) in enumerate(zip(res, meta)):
            ctx.check(len(r._dict) == len(o["terms"]), "strings",
                      lambda: f"experiment {i}: {len(r._dict)} strings of {len(o['terms'])}")
            for s, coeff in o["terms"]:
                got = exps.lookup(r, s, o["reg"])
                ctx.check(len(got) == 1, "strings", lambda: f"experiment {i}: {s} appears {len(got)} times")
                want = exps.exact_value(spec, e["vals"], s)
                if not exps.n_qubits_of(s):
                    ctx.probe("identity_string")
                if abs(want) > 0.1:
                    ctx.probe("clear_expectation")
                ctx.close(got[0], coeff * want, abs(coeff) * 2 * 2 ** spec["n"] / e["shots"] + 1e-6, "expectation",
                          lambda: f"experiment {i}, string {s}")
    for c, k in zip(circs, keys):
        ctx.check(circuit_key(c) == k, "input-mutated", "a caller's circuit was altered")
    for o, k in zip(obs, snaps):
        ctx.check(exps.op_snapshot(o) == k, "input-mutated", "a caller's observable was altered")
