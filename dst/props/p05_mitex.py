"""P05: every observable's expectation comes from its own experiment."""

from ..common import PlanInvalid, SimFault, build, circuit_key, rand_observable, rand_pauli
from ..device import SimDevice
from .. import exps
from .p03_results import placing_pass

ID = "P05"
RUNS = {"quick": 1600, "thorough": 40000}
LEVEL = "exploration"
RULE = ("distinct (experiments per call, strings per experiment, shared trackers / symbol tables, "
        "completion order class, runner, fault call) tuples")
REAL = ["MitEx", "run_basic", "filter/collate/split/expectation tasks", "ObservableTracker", "SymbolsDict",
        "MeasurementCircuit", "gen_compiled_MitRes", "gen_shot_split_MitRes"]
STUB = ["device: queue, latency, failures, execution (exact probabilities apportioned to counts)"]
ASSUMPTIONS = ["ansatz circuits contain no measurements",
               "a circuit handed to a tracker by the caller measures what the caller says it does"]
SHRINK_LISTS = ("calls", "exps", "ops", "terms", "pre")
SHRINK_INTS = ()
PROBES = ["several_experiments", "shared_tracker", "symbolic", "shared_symbols_changed", "premeasured",
          "run_basic", "fault_surfaced", "retry_ok", "out_of_order", "identity_string", "inverted",
          "tracker_extended", "tracker_reduced", "tracker_modified"]


def gen(rng, tier, index):
    specs = [exps.gen_ansatz(rng, nmax=4, depth=9) for _ in range(rng.randint(1, 3))]
    regs = {s["reg"] for s in specs}
    obs = []
    for _ in range(rng.randint(1, 3)):
        n = rng.randint(1, 4)
        terms = rand_observable(rng, n, rng.randint(1, 5))
        if rng.random() < 0.12:
            terms.append([{}, 0.7])
        obs.append({"n": n, "terms": terms, "reg": rng.choice(sorted(regs))})
    calls = []
    for _ in range(rng.randint(1, 3)):
        es = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            o = rng.randrange(len(obs))
            ok = [i for i, s in enumerate(specs) if s["reg"] == obs[o]["reg"] and s["n"] >= obs[o]["n"]]
            if not ok:
                specs.append(dict(exps.gen_ansatz(rng, nmin=obs[o]["n"], nmax=4, reg=obs[o]["reg"])))
                ok = [len(specs) - 1]
            c = rng.choice(ok)
            es.append({"c": c, "o": o, "shots": rng.choice([600, 1000, 1400, 2200, 3001]),
                       "vals": {s: rng.choice(exps.ANGLES) for s in exps.SYMS},
                       "pre": [[rng.randrange(len(obs[o]["terms"])), rng.random() < 0.5]]
                       if rng.random() < 0.25 else []})
            if rng.random() < 0.2:
                es[-1]["edits"] = [gen_edit(rng, obs[o]["n"]) for _ in range(rng.randint(1, 3))]
                es[-1]["edit_first"] = rng.random() < 0.5
        if rng.random() < 0.3:
            # the same experiment once more, at other parameters
            again = dict(rng.choice(es), pre=[], vals={s: rng.choice(exps.ANGLES) for s in exps.SYMS},
                         shots=rng.choice([600, 1000, 3001]))
            again.pop("edits", None)
            es.append(again)
        calls.append({"exps": es, "basic": rng.random() < 0.2,
                      "fault": [rng.choice(["error", "timeout", "after_submit"]), rng.randint(0, 20)]
                      if rng.random() < 0.4 else None})
    return {"specs": specs, "obs": obs, "calls": calls,
            "runner": rng.choice(["default", "default", "place", "split", "subclass"]),
            "share_trackers": rng.random() < 0.6, "share_symbols": rng.random() < 0.5,
            "symhow": rng.choice(["dict", "list", "circuit"]),
            "form": rng.choice(["counts", "shots"]), "dev_seed": rng.getrandbits(30)}


def gen_edit(rng, n):
    k = rng.choice(["extend", "extend", "remove", "modify"])
    if k == "extend":
        return [k, rand_observable(rng, n, rng.randint(1, 3))]
    if k == "remove":
        return [k, rng.randrange(5)]
    return [k, rng.randrange(5), rng.choice([0.5, -1.25, 2.0])]


def edit_tracker(ctx, t, terms, edits, reg):
    """the caller changes what is to be measured; returns the terms this leaves"""
    from ..common import qps

    def bare(s):
        return {q: p for q, p in s.items() if p != "I"}

    terms = [[dict(s), c] for s, c in terms]
    for ed in edits:
        if ed[0] == "extend":
            t.extend_operator(exps.make_qpo(ed[1], reg))
            for s, c in ed[1]:
                for x in terms:
                    if bare(x[0]) == bare(s):
                        x[1] += c
                        break
                else:
                    terms.append([s, c])
            ctx.probe("tracker_extended")
        elif len(terms) < 2:
            continue
        elif ed[0] == "remove":
            t.remove_strings([qps(terms.pop(ed[1] % len(terms))[0], reg)])
            ctx.probe("tracker_reduced")
        else:
            x = terms[ed[1] % len(terms)]
            x[1] = ed[2]
            t.modify_coefficients([(qps(x[0], reg), ed[2])])
            ctx.probe("tracker_modified")
    return terms


def premeasure(tracker, circ, sd, string, reg, invert):
    """the caller measures a string with a circuit of their own"""
    from pytket.circuit import Bit, Qubit

    from qermit.taskgraph.utils import MeasurementCircuit

    c = circ.copy()
    bits = []
    b = 5  # bit numbers of the caller's choice
    first = True
    for k, p in sorted(string.items()):
        if p == "I":
            continue
        q = Qubit(reg, int(k))
        if p == "X":
            c.H(q)
        if p == "Y":
            c.V(q)
        if first and invert:
            c.X(q)
        first = False
        c.add_bit(Bit("m", b))
        c.Measure(q, Bit("m", b))
        bits.append(Bit("m", b))
        b -= 1
    from ..common import qps

    key = next(k for k in tracker.qubit_pauli_operator._dict if k == qps(string, reg))
    tracker.add_measurement_circuit(MeasurementCircuit(c, sd), [(key, bits, invert)])


def run(plan, ctx):
    from qermit import AnsatzCircuit, CircuitShots, MitEx, ObservableExperiment
    from qermit.taskgraph import gen_shot_split_MitRes
    from qermit.taskgraph.utils import ObservableTracker

    dev = SimDevice(ctx, seed=plan["dev_seed"], form="shots" if plan["runner"] == "split" else plan["form"],
                    compile_pass=placing_pass if plan["runner"] == "place" else None)
    if plan["runner"] == "split":
        mx = MitEx(dev, mitres=gen_shot_split_MitRes(dev, 700))
    else:
        mx = MitEx(dev)
    circs = [exps.make_ansatz(s) for s in plan["specs"]]
    keys = [circuit_key(c) for c in circs]
    obs = [exps.make_qpo(o["terms"], o["reg"]) for o in plan["obs"]]
    snaps = [exps.op_snapshot(o) for o in obs]
    shared = {}
    sds = {}
    failed = False
    for call in plan["calls"]:
        experiment, meta = [], []
        call_vals = {}
        for e in call["exps"]:
            if e["c"] >= len(circs) or e["o"] >= len(obs):
                raise PlanInvalid()
            spec, o = plan["specs"][e["c"]], plan["obs"][e["o"]]
            if spec["reg"] != o["reg"]:
                raise PlanInvalid()
            vals = e["vals"]
            if plan["share_symbols"]:
                # one table per circuit, updated by the caller between calls
                vals = call_vals.setdefault(e["c"], vals)
                if e["c"] not in sds:
                    sds[e["c"]] = exps.symbols_dict(spec, vals, plan["symhow"])
                elif exps.used_syms(spec["ops"]):
                    exps.set_symbols(sds[e["c"]], vals)
                    ctx.probe("shared_symbols_changed")
                sd = sds[e["c"]]
            else:
                sd = exps.symbols_dict(spec, vals, plan["symhow"])
            if exps.used_syms(spec["ops"]):
                ctx.probe("symbolic")
            own = bool(e["pre"]) or (bool(e.get("edits")) and not call["basic"])
            terms = o["terms"]
            if own or not plan["share_trackers"]:
                t = ObservableTracker(exps.make_qpo(o["terms"], o["reg"]))
            else:
                if e["o"] in shared:
                    ctx.probe("shared_tracker")
                t = shared.setdefault(e["o"], ObservableTracker(obs[e["o"]]))
            done = set()
            if not call["basic"]:
                if e.get("edits") and e["edit_first"]:
                    terms = edit_tracker(ctx, t, terms, e["edits"], o["reg"])
                for k, inv in e["pre"]:
                    if k >= len(terms):
                        if e.get("edits"):
                            continue
                        raise PlanInvalid()
                    s = terms[k][0]
                    if k in done or not exps.n_qubits_of(s):
                        continue
                    done.add(k)
                    premeasure(t, circs[e["c"]], sd, s, o["reg"], inv)
                    ctx.probe("premeasured")
                    if inv:
                        ctx.probe("inverted")
                if e.get("edits") and not e["edit_first"]:
                    terms = edit_tracker(ctx, t, terms, e["edits"], o["reg"])
            if call["basic"]:
                experiment.append((CircuitShots(circs[e["c"]], e["shots"]), obs[e["o"]]))
            else:
                experiment.append(ObservableExperiment(AnsatzCircuit(circs[e["c"]], e["shots"], sd), t))
            meta.append((spec, {"terms": terms, "reg": o["reg"]}, vals, e))
        if call["basic"] and any(exps.used_syms(m[0]["ops"]) for m in meta):
            continue
        nf, j0, c0 = len(dev.fired), dev.serial, len(dev.completion)
        dev.faults = {dev.calls + call["fault"][1]: call["fault"][0]} if call["fault"] else {}
        try:
            if call["basic"]:
                ctx.probe("run_basic")
                res = mx.run_basic(experiment)
            else:
                res = mx.run(experiment)
            err = None
        except SimFault as ex:
            err = ex
        dev.faults = {}
        fired = dev.fired[nf:]
        order = [s - j0 for s in dev.completion[c0:]]
        if order != sorted(order):
            ctx.probe("out_of_order")
        ctx.state(tuple((e["c"], e["o"], len(plan["obs"][e["o"]]["terms"]), len(e["pre"])) for e in call["exps"]),
                  plan["share_trackers"], plan["share_symbols"], plan["runner"], call["basic"],
                  sum(a > b for a, b in zip(order, order[1:])), tuple((w, k) for _, k, w in fired))
        if err is not None:
            ctx.check(bool(fired), "phantom-failure", f"{err}")
            ctx.probe("fault_surfaced")
            failed = True
            continue
        ctx.check(not fired, "fault-swallowed", lambda: f"{fired}")
        if failed:
            ctx.probe("retry_ok")
        ctx.check(len(res) == len(meta), "result-count", lambda: f"{len(res)} operators for {len(meta)} experiments")
        if len(meta) > 1:
            ctx.probe("several_experiments")
        for i, (r, (spec, o, vals, e)) in enumerate(zip(res, meta)):
            ctx.check(len(r._dict) == len(o["terms"]), "strings",
                      lambda: f"experiment {i}: {len(r._dict)} strings, observable has {len(o['terms'])}")
            for s, coeff in o["terms"]:
                if not exps.n_qubits_of(s):
                    ctx.probe("identity_string")
                got = exps.lookup(r, s, o["reg"])
                ctx.check(len(got) == 1, "strings", lambda: f"experiment {i}: string {s} appears {len(got)} times")
                want = exps.exact_value(spec, vals, s)
                nq = exps.n_qubits_of(s)
                tol = (2 ** nq + (4 if plan["runner"] == "split" else 0) * 2 ** nq) / e["shots"] * 2
                ctx.close(got[0], coeff * want, abs(coeff) * tol + 1e-6, "expectation",
                          lambda: f"experiment {i}, string {s}, shots {e['shots']}")
                # the estimate was made with that experiment's number of shots
                if nq and coeff:
                    par = (got[0] / coeff).real * e["shots"]
                    ctx.check(abs(par - round(par)) < 1e-4 and (round(par) - e["shots"]) % 2 == 0, "shots",
                              lambda: f"experiment {i}: {s} = {got[0]} cannot come from {e['shots']} shots")
    for c, k in zip(circs, keys):
        ctx.check(circuit_key(c) == k, "input-mutated", "a caller's circuit was altered")
    for o, k in zip(obs, snaps):
        ctx.check(exps.op_snapshot(o) == k, "input-mutated", "a caller's observable was altered")
