"""P11: zero-noise extrapolation pairs each value with its noise scale."""

import math

from .. import exps, qexec
from ..common import put_barriers, PlanInvalid, SimFault, apply_ops, circuit_key, qubit_list, rand_observable
from ..device import SimDevice

ID = "P11"
RUNS = {"quick": 520, "thorough": 16000}
LEVEL = "exploration"
RULE = ("distinct (folding, fit, scaling list, experiments, strings, placement, sub-workflow, completion order class, "
        "device fault) tuples")
REAL = ["gen_ZNE_MitEx", "Folding", "Fit", "gen_initial_compilation_task", "gen_qubit_relabel_task", "MitEx", "MitRes",
        "TaskGraph", "pytket placement, routing and optimisation passes"]
STUB = ["device: queue, latency, failures; its bias is a function of the gate count of a job"]
ASSUMPTIONS = ["the bias multiplies the expectation of every measured string by a member of the fit family in the "
               "number of (two-qubit) gates of the ansatz part of the job",
                "exponential fits are judged on strings of magnitude above 0.15 with unit coefficient, where a least-squares fit of exact data recovers its own parameters",
               "cube_root fits are not exercised (non-convex fit, no exactness promised)"]
SHRINK_LISTS = ("calls", "exps", "ops", "terms", "scales", "specs")
PROBES = ["out_of_order", "barrier", "fault_surfaced", "retry_ok", "several_experiments", "unsorted_scales", "no_unit_scale",
          "linear", "polynomial", "richardson", "exponential", "poly_exponential", "circuit", "gate", "odd_gate",
          "two_qubit_gate", "multi", "fractional", "fit_not_convex", "rename", "route", "optimise", "own_runner", "own_workflow",
          "wire_swap", "symbolic", "identity_string", "reordered_strings", "far_qubits", "nothing"]

COUNTED = ["Ry", "Rz", "T", "Tdg", "X", "Y", "Z", "CX", "CZ", "ZZPhase", "SWAP", "PhasedX"]
SHOTS = 10**8


def permuted(rng, n, p):
    """whether, and how, the wires are permuted at the end"""
    return n > 1 and rng.random() < p and (n < 3 or rng.choice([True, "cycle"]))


def gen_spec(rng, reg, even, two):
    n = rng.randint(2 if two else 1, 3)
    ops = []
    syms = rng.sample(exps.SYMS, 1) if rng.random() < 0.3 else []
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if n > 1 and r < 0.4:
            ops.append([rng.choice(["CX", "CX", "CZ"])] + rng.sample(range(n), 2))
        elif r < 0.85:
            a = rng.choice(syms) if syms and rng.random() < 0.5 else rng.choice([0.15, 0.25, 0.4, 0.6, 1.1, 1.7])
            ops.append([rng.choice(["Ry", "Ry", "Rz"]), a, rng.randrange(n)])
        else:
            ops.append([rng.choice(["T", "Tdg", "X", "Z"]), rng.randrange(n)])
    if two and not any(o[0] in ("CX", "CZ") for o in ops):
        ops.append(["CX"] + rng.sample(range(n), 2))
    if even and len(ops) % 2:
        ops.append(["Ry", 0.3, rng.randrange(n)])
    put_barriers(rng, ops, n)
    return {"n": n, "ops": ops, "reg": reg, "swap": permuted(rng, n, 0.12)}


def gen(rng, tier, index):
    reg = rng.choice(["q", "q", "node", "z"])
    fold = rng.choice(["circuit", "circuit", "gate", "odd_gate", "two_qubit_gate", "multi"])
    place = rng.choice(["none", "rename", "rename", "route", "optimise"])
    if fold == "odd_gate" and place in ("route", "optimise"):
        place = "rename"
    if fold == "two_qubit_gate" and place == "optimise":
        place = "route"
    specs = [gen_spec(rng, reg, fold == "odd_gate", fold == "two_qubit_gate") for _ in range(rng.randint(1, 3))]
    if place == "route" and rng.random() < 0.7:
        # no line of qubits has all three pairs next to each other: swaps are inserted
        s = specs[0]
        s["n"] = 3
        ps = [["CX", 0, 1], ["CX", 1, 2], ["CX", 2, 0]]
        rng.shuffle(ps)
        s["ops"] = s["ops"][:3] + ps[:1] + [["Ry", 0.4, rng.randrange(3)]] + ps[1:]
        s["far"] = True
    if fold == "odd_gate":
        for s in specs:
            s["swap"] = False
    fit = rng.choice(["linear", "linear", "polynomial", "richardson", "exponential", "poly_exponential"])
    if fold == "multi":
        fit = "linear"
    k = rng.randint(2, 4)
    deg = None
    if fit == "polynomial":
        k = rng.randint(3, 4)
        deg = 2 if k == 4 or rng.random() < 0.5 else None  # by default one less than the number of scalings
    if fit in ("exponential", "poly_exponential"):
        k = rng.randint(3, 4)
        deg = 1
    odd = rng.random() < 0.6
    # odd_gate folds by any integer
    pool = [1, 3, 5, 7] if fold != "odd_gate" or odd else [1, 2, 3, 4, 5]
    frac = fold in ("gate", "two_qubit_gate") and place in ("none", "rename") and rng.random() < 0.4
    if frac:
        specs = specs[:1]
        specs[0]["swap"] = False
        n0 = len([o for o in specs[0]["ops"] if fold == "gate" and o[0] != "Barrier" or o[0] in ("CX", "CZ")])
        pool = [(n0 + 2 * i) / n0 for i in range(0, max(6, 2 * n0))]
    scales = rng.sample(pool, min(k, len(pool)))
    if fit in ("exponential", "poly_exponential") and 1 not in scales:
        scales[rng.randrange(len(scales))] = 1
        scales = list(dict.fromkeys(scales))
    calls = []
    for _ in range(rng.choice([1, 1, 2])):
        es = []
        for _ in range(rng.randint(1, 3)):
            c = rng.randrange(len(specs))
            terms = rand_observable(rng, specs[c]["n"], rng.randint(1, 3))
            if fit in ("exponential", "poly_exponential"):
                terms = [[s, 1.0] for s, _ in terms]
            elif rng.random() < 0.1:
                terms.append([{}, 0.7])
            es.append({"c": c, "terms": terms, "vals": {s: rng.choice(exps.ANGLES) for s in exps.SYMS}})
        calls.append({"exps": es, "fault": [rng.choice(["error", "timeout", "after_submit"]), rng.randint(0, 30)]
                      if rng.random() < 0.25 else None})
    sub = rng.choice(["none", "none", "mitres", "compiled", "mitex", "task"])
    if sub == "task" and fit.endswith("exponential"):
        sub = "mitex"  # the library's exponential fit is bounded to values in [-1, 1]
    return {"reg": reg, "specs": specs, "fold": fold, "fit": fit, "deg": deg, "scales": scales, "place": place,
            "approx": not frac or rng.random() < 0.5, "sub": sub,
            "calls": calls, "reorder": rng.random() < 0.4, "dev_seed": rng.getrandbits(30)}


def device_pass(plan):
    from pytket.architecture import Architecture
    from pytket.circuit import Node, OpType, Qubit
    from pytket.passes import (AutoRebase, DecomposeBoxes, DefaultMappingPass, FullPeepholeOptimise, RenameQubitsPass,
                               SequencePass)

    def make(dev, level):
        r = dev._session_random
        nodes = list(range(8))
        r.shuffle(nodes)
        base = [DecomposeBoxes(), AutoRebase(dev.gates)]
        if plan["place"] == "rename":
            return SequencePass(base + [RenameQubitsPass(
                {Qubit(plan["reg"], i): Node("fridge", nodes[i]) for i in range(4)})])
        if plan["place"] == "route":
            arch = Architecture([(Node("fridge", a), Node("fridge", b)) for a, b in zip(nodes[:4], nodes[1:4])])
            return SequencePass(base + [DefaultMappingPass(arch, delay_measures=False), AutoRebase(dev.gates)])
        if plan["place"] == "optimise":
            return SequencePass([DecomposeBoxes(), FullPeepholeOptimise(),
                                 AutoRebase({OpType.CX, OpType.Rz, OpType.PhasedX})])
        return SequencePass(base)

    return make


def make_circuit(spec):
    c = exps.make_ansatz(spec)
    if spec["swap"]:
        c.SWAP(c.qubits[0], c.qubits[1])
        if spec["swap"] == "cycle":
            c.SWAP(c.qubits[1], c.qubits[2])
        c.replace_SWAPs()
    return c


def run(plan, ctx):
    from typing import List, Tuple

    from pytket.circuit import OpType
    from pytket.utils import QubitPauliOperator

    from qermit import AnsatzCircuit, MitEx, MitRes, MitTask, ObservableExperiment
    from qermit.taskgraph import gen_compiled_MitRes
    from qermit.taskgraph.utils import ObservableTracker
    from qermit.zero_noise_extrapolation import Fit, Folding, gen_ZNE_MitEx

    fold, fit, scales = plan["fold"], plan["fit"], list(plan["scales"])
    need = {"linear": 2, "polynomial": 3, "richardson": 2}.get(fit, 3)
    if len(scales) < need or (fit.endswith("exponential") and 1 not in scales):
        raise PlanInvalid()
    for s in plan["specs"]:
        gates = [o for o in s["ops"] if o[0] != "Barrier"]
        if len(gates) < len(s["ops"]):
            ctx.probe("barrier")
        two = [o for o in gates if o[0] in ("CX", "CZ")]
        if not gates or (fold == "two_qubit_gate" and not two) or (fold == "odd_gate" and len(gates) % 2):
            raise PlanInvalid()
        n0 = len(two) if fold == "two_qubit_gate" else len(gates)
        if fold in ("gate", "two_qubit_gate") and any(abs(n0 * (x - 1) / 2 - round(n0 * (x - 1) / 2)) > 1e-9
                                                      for x in scales):
            raise PlanInvalid()
    types = {getattr(OpType, t) for t in COUNTED}

    def count(circ):
        n = 0
        for c in circ.get_commands():
            if c.op.type in types and (fold != "two_qubit_gate" or len(c.qubits) == 2):
                n += 1
        return n

    top = max(len(s["ops"]) for s in plan["specs"]) * 3 + 6
    unit = 0.75 / (top * (max(scales) + (2 if fold == "multi" else 0)))

    def contraction(circ):
        x = unit * count(circ)
        m = len([c for c in circ.get_commands() if c.op.type == OpType.Measure])
        x *= 1 - 0.2 * m  # strings of different weight suffer differently
        ctx.fault("noise")
        if fit == "linear":
            return 1 - x
        if fit == "polynomial":
            return 1 - x + 0.6 * x * x
        if fit == "richardson":
            d = len(scales) - 1
            return 1 - x if d == 1 else 1 - x + 0.5 * x * x if d == 2 else 1 - x + 0.5 * x * x - 0.2 * x**3
        return math.exp(-2 * x)

    noise = qexec.Noise(mix=contraction)
    cp = device_pass(plan)
    dev = SimDevice(ctx, seed=plan["dev_seed"], noise=noise, compile_pass=cp)
    runner = dev
    kw = {"fit_type": getattr(Fit, fit), "allow_approx_fold": plan["approx"]}
    factor = 1
    if plan["deg"] is not None:
        kw["deg"] = plan["deg"]
    if fold == "multi":
        def several_circuits(circ, noise_scaling, **k):
            """one to three circuits, depending on the circuit, of this scaling on average"""
            a, b = (1, 1) if noise_scaling == 1 else (noise_scaling - 2, noise_scaling + 2)
            m = len(circ.qubits)
            if m == 1:
                return Folding.circuit(circ, noise_scaling)
            return [c for x in ([a, b] if m == 2 else [a, noise_scaling, b]) for c in Folding.circuit(circ, x)]

        kw["folding_type"] = several_circuits
    else:
        kw["folding_type"] = getattr(Folding, fold)
    sub = plan["sub"]
    if sub != "none":
        runner = SimDevice(ctx, seed=plan["dev_seed"] + 1, noise=noise, name="dev2")
        ctx.probe("own_runner" if sub in ("mitres", "compiled") else "own_workflow")
        if sub == "mitres":
            kw["experiment_mitres"] = MitRes(runner)
        elif sub == "compiled":
            kw["experiment_mitres"] = gen_compiled_MitRes(runner, 0)
        else:
            kw["experiment_mitex"] = MitEx(runner)
            if sub == "task":
                factor = 2

                def double(obj, ops: List[QubitPauliOperator]) -> Tuple[List[QubitPauliOperator]]:
                    return ([QubitPauliOperator({k: 2 * v for k, v in o._dict.items()}) for o in ops],)

                if fit.endswith("exponential"):
                    raise PlanInvalid()
                kw["experiment_mitex"].append(MitTask(_label="double", _n_in_wires=1, _n_out_wires=1, _method=double))
            exps.reordering(kw["experiment_mitex"], plan["reorder"])
            if plan["reorder"]:
                ctx.probe("reordered_strings")
    for p in (fold, fit):
        ctx.probe(p)
    if plan["place"] != "none":
        ctx.probe(plan["place"])
    if scales != sorted(scales):
        ctx.probe("unsorted_scales")
    if 1 not in scales:
        ctx.probe("no_unit_scale")
    if any(s % 1 for s in scales):
        ctx.probe("fractional")
    zne = gen_ZNE_MitEx(dev, list(scales), **kw)
    exps.nothing(ctx, zne, plan)
    circs = [make_circuit(s) for s in plan["specs"]]
    keys = [circuit_key(c) for c in circs]
    failed = False
    for call in plan["calls"]:
        wires = []
        for e in call["exps"]:
            if e["c"] >= len(circs) or not e["terms"]:
                raise PlanInvalid()
            spec = plan["specs"][e["c"]]
            if exps.used_syms(spec["ops"]):
                ctx.probe("symbolic")
            if spec["swap"]:
                ctx.probe("wire_swap")
            if spec.get("far"):
                ctx.probe("far_qubits")
            sd = exps.symbols_dict(spec, e["vals"], "dict")
            wires.append(ObservableExperiment(AnsatzCircuit(circs[e["c"]], SHOTS, sd),
                                              ObservableTracker(exps.make_qpo(e["terms"], plan["reg"]))))
        nf, j0, d0, c0 = len(dev.fired) + (len(runner.fired) if runner is not dev else 0), runner.serial, dev.serial, len(runner.completion)
        runner.faults = {runner.calls + call["fault"][1]: call["fault"][0]} if call["fault"] else {}
        try:
            res = zne.run(wires)
            err = None
        except SimFault as ex:
            err = ex
        runner.faults = {}
        fired = (dev.fired + (runner.fired if runner is not dev else []))[nf:]
        order = [s - j0 for s in runner.completion[c0:]]
        ctx.state(fold, fit, tuple(scales), len(wires), tuple(len(e["terms"]) for e in call["exps"]), plan["place"], sub,
                  order == sorted(order), tuple((w, k) for _, k, w in fired))
        if order != sorted(order):
            ctx.probe("out_of_order")
        if err is not None:
            ctx.check(bool(fired), "phantom-failure", f"{err}")
            ctx.probe("fault_surfaced")
            failed = True
            continue
        ctx.check(not fired, "fault-swallowed", lambda: f"{fired}")
        if failed:
            ctx.probe("retry_ok")
        if runner is not dev:
            ctx.check(dev.serial == d0, "wrong-runner", lambda: f"{dev.serial - d0} circuits ran on the device instead "
                      "of the supplied workflow")
        # the shots of an experiment are spent once per scaling and string
        total = sum(n for _, _, n in runner.log[-(runner.serial - j0):]) if runner.serial > j0 else 0
        least = SHOTS * len(scales) * sum(exps.n_qubits_of(s) > 0 for e in call["exps"] for s, _ in e["terms"])
        most = SHOTS * len(scales) * sum(len(e["terms"]) for e in call["exps"])
        ctx.check(least - 1000 <= total <= most, "shots", lambda: f"{total} shots in all, expected {least}..{most}")
        ctx.check(len(res) == len(wires), "result-count", lambda: f"{len(res)} for {len(wires)}")
        if len(wires) > 1:
            ctx.probe("several_experiments")
        for i, (r, e) in enumerate(zip(res, call["exps"])):
            spec = plan["specs"][e["c"]]
            ctx.check(len(r._dict) == len(e["terms"]), "strings", lambda: f"experiment {i}: {r}")
            for s, coeff in e["terms"]:
                if not exps.n_qubits_of(s):
                    ctx.probe("identity_string")
                got = exps.lookup(r, s, plan["reg"])
                ctx.check(len(got) == 1, "strings", lambda: f"experiment {i}: {s} appears {len(got)} times in {r}")
                c = build_exact(spec, e["vals"])
                want = exps.qexec.pauli_expectation(c, {q: p for q, p in exps.qps(s, plan["reg"]).map.items()})
                tol = 2e-4
                if fit.endswith("exponential"):
                    if abs(want) < 0.15:
                        continue
                    n0 = sum(fold != "two_qubit_gate" or o[0] in ("CX", "CZ") for o in spec["ops"])
                    rate = 2 * unit * (1 - 0.2 * exps.n_qubits_of(s))
                    if not all(recovers(scales, want, rate * n0 * f) for f in (1, 1.5, 2, 3)):
                        ctx.probe("fit_not_convex")
                        continue
                    tol = 5e-3
                ctx.close(got[0], factor * coeff * want, tol * abs(coeff) * factor, "extrapolated",
                          lambda: f"experiment {i} of {len(wires)}, string {s}, {fold} folding by {scales}, {fit} fit")
    for c, k in zip(circs, keys):
        ctx.check(circuit_key(c) == k, "input-mutated", "a caller's circuit was altered")


def recovers(scales, want, rate):
    """least squares finds its way back from exact data (an exponential fit need not)"""
    from scipy.optimize import curve_fit

    y = [want * math.exp(-rate * s) for s in scales]
    try:
        v, _ = curve_fit(lambda x, a, b, c: a + b * qexec.np.exp(c * x), scales, y, p0=[0, y[scales.index(1)], -1],
                         maxfev=10000, bounds=([-1, -2, -math.inf], [1, 2, math.inf]))
    except Exception:  # noqa: BLE001
        return False
    return abs(v[0] + v[1] - want) < 1e-3


def build_exact(spec, vals):
    c = exps.build(exps.substituted(spec["ops"], vals), spec["n"], spec["reg"])
    if spec["swap"]:
        c.SWAP(c.qubits[0], c.qubits[1])
        if spec["swap"] == "cycle":
            c.SWAP(c.qubits[1], c.qubits[2])
    return c
