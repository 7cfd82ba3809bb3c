"""P13: depolarisation correction divides out the measured contraction."""

from .. import exps, qexec
from ..common import put_barriers, PlanInvalid, SimFault, circuit_key, rand_observable
from ..device import SimDevice
from .p11_zne import permuted
from .p12_cdr import distinct_supports, hash_int, where

ID = "P13"
RUNS = {"quick": 900, "thorough": 26000}
LEVEL = "exploration"
RULE = ("distinct (experiments, strings, sub-workflows, threshold, completion order class, device fault, non-Clifford "
        "refusal) tuples")
REAL = ["gen_DFSC_MitEx", "characterisation circuit, collation, characterisation and correction tasks", "MitEx",
        "MitRes", "TaskGraph", "pytket Clifford basis change"]
STUB = ["device: queue, latency, failures; every string (set of measured qubits of a circuit) is contracted by its own factor"]
ASSUMPTIONS = ["the contraction depends on the qubits the circuit acts on, the pairs it entangles and the qubits measured only, and exceeds the method's threshold",
               "all gates of the circuit other than its symbolic rotations are Clifford (as documented)"]
SHRINK_LISTS = ("calls", "exps", "ops", "terms", "specs")
PROBES = ["out_of_order", "fault_surfaced", "retry_ok", "several_experiments", "own_experiment", "own_characterisation",
          "wire_swap", "symbolic", "other_register", "identity_string", "odd_y", "non_clifford_refused",
          "below_threshold", "premeasured", "same_circuit_twice", "reordered_strings", "nothing", "shots_counted"]
SHOTS = 10**8
REGS = ["q", "node", "z"]


def gen_spec(rng, reg):
    n = rng.randint(1, 4)
    syms = rng.sample(exps.SYMS, rng.randint(1, 3))
    ops = []
    for _ in range(rng.randint(1, 9)):
        r = rng.random()
        if n > 1 and r < 0.35:
            ops.append([rng.choice(["CX", "CX", "CZ", "CY", "ZZMax"])] + rng.sample(range(n), 2))
        elif r < 0.65:
            ops.append([rng.choice(["Ry", "Rz", "Rx"]), rng.choice(syms), rng.randrange(n)])
        elif r < 0.72:
            ops.append([rng.choice(["Ry", "Rz", "Rx"]), rng.choice([0.5, 1.0, 1.5]), rng.randrange(n)])
        else:
            ops.append([rng.choice(["H", "X", "Y", "Z", "S", "Sdg", "V", "Vdg"]), rng.randrange(n)])
    put_barriers(rng, ops, n)
    return {"n": n, "ops": ops, "reg": reg, "swap": permuted(rng, n, 0.12),
            "bad": rng.random() < 0.03}


def gen(rng, tier, index):
    specs = [gen_spec(rng, r) for r in rng.sample(REGS, rng.randint(1, 3))]
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        es = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            c = rng.randrange(len(specs))
            terms = rand_observable(rng, specs[c]["n"], rng.randint(1, 4))
            if rng.random() < 0.1:
                terms.append([{}, 0.7])
            es.append({"c": c, "shots": rng.choice([1, 1, 2, 3]), "terms": terms, "vals": {s: rng.choice(exps.ANGLES) for s in exps.SYMS},
                       "pre": rng.random() < 0.15})
        calls.append({"exps": es, "fault": [rng.choice(["error", "timeout", "after_submit"]), rng.randint(0, 40)]
                      if rng.random() < 0.3 else None})
    return {"specs": specs, "calls": calls, "threshold": rng.choice([None, None, 0.2, 0.455]), "weak": rng.random() < 0.3,
            "sub": sorted(rng.sample(["experiment", "characterisation"], rng.choice([0, 0, 1, 2]))),
            "reorder": rng.random() < 0.4, "dev_seed": rng.getrandbits(30)}


def pairs(circ):
    """which qubits the circuit entangles"""
    return sorted({tuple(sorted(q.index[0] for q in c.qubits)) for c in circ.get_commands()
                   if len(c.qubits) == 2 and c.op.type != qexec.OpType.Barrier})


def run(plan, ctx):
    from pytket.circuit import OpType

    from qermit import AnsatzCircuit, MitEx, ObservableExperiment
    from qermit.clifford_noise_characterisation import gen_DFSC_MitEx
    from qermit.taskgraph.utils import ObservableTracker
    from .p05_mitex import premeasure
    from .p11_zne import build_exact, make_circuit

    regs = [s["reg"] for s in plan["specs"]]
    if len(set(regs)) != len(regs):
        raise PlanInvalid()
    thr = plan["threshold"] or 0.01

    def lam(reg, support, entangled):
        # the noise is that of the circuit at hand, so that characterising another circuit does not do
        v = 0.3 + (hash_int(plan["dev_seed"], reg, support, entangled) % 61) / 100
        if plan["weak"] and hash_int(plan["dev_seed"], support) % 3 == 0:
            v = thr / 2
        return v

    def mix(circ):
        ctx.fault("noise")
        reg, support = where(circ)
        return lam(reg, support, pairs(circ)) if support else 1.0

    noise = qexec.Noise(mix=mix)
    mk = lambda name, k: SimDevice(ctx, seed=plan["dev_seed"] + k, noise=noise, name=name)
    dev = mk("dev", 0)
    roles = {"experiment": dev, "characterisation": dev}
    kw = {}
    for k, r in enumerate(plan["sub"]):
        roles[r] = mk("dev_" + r[0], 1 + k)
        kw[r + "_mitex"] = exps.reordering(MitEx(roles[r]), plan["reorder"])
        if plan["reorder"]:
            ctx.probe("reordered_strings")
        ctx.probe("own_" + r)
    if plan["threshold"]:
        kw["DFSC_threshold"] = plan["threshold"]
    dfsc = gen_DFSC_MitEx(dev, **kw)
    exps.nothing(ctx, dfsc, plan)
    circs = []
    for s in plan["specs"]:
        c = make_circuit(s)
        if s["bad"]:
            c.T(c.qubits[0])
        circs.append(c)
    keys = [circuit_key(c) for c in circs]
    devs = list({id(d): d for d in [dev] + list(roles.values())}.values())
    failed = False
    for call in plan["calls"]:
        wires = []
        for e in call["exps"]:
            if e["c"] >= len(circs) or not e["terms"]:
                raise PlanInvalid()
            spec = plan["specs"][e["c"]]
            if exps.used_syms(spec["ops"]):
                ctx.probe("symbolic")
            if spec["swap"]:
                ctx.probe("wire_swap")
            if spec["reg"] != "q":
                ctx.probe("other_register")
            sd = exps.symbols_dict(spec, e["vals"], "dict")
            t = ObservableTracker(exps.make_qpo(e["terms"], spec["reg"]))
            s0 = e["terms"][0][0]
            if e["pre"] and exps.n_qubits_of(s0):
                premeasure(t, circs[e["c"]], sd, s0, spec["reg"], False)
                ctx.probe("premeasured")
            wires.append(ObservableExperiment(AnsatzCircuit(circs[e["c"]], SHOTS * e["shots"], sd), t))
        nf = {d.name: len(d.fired) for d in devs}
        n0 = {d.name: d.serial for d in devs}
        log0 = {d.name: len(d.log) for d in devs}
        done0 = {d.name: len(d.completion) for d in devs}
        for d in devs:
            d.faults = {}
        if call["fault"]:
            d = devs[call["fault"][1] % len(devs)]
            d.faults = {d.calls + call["fault"][1]: call["fault"][0]}
        bad = any(plan["specs"][e["c"]]["bad"] for e in call["exps"])
        err = None
        try:
            res = dfsc.run(wires)
        except SimFault as ex:
            err = ex
        except Exception:
            if bad:
                ctx.probe("non_clifford_refused")
                continue
            raise
        for d in devs:
            d.faults = {}
        fired = [f for d in devs for f in d.fired[nf[d.name]:]]
        ooo = any(d.completion[done0[d.name]:] != sorted(d.completion[done0[d.name]:]) for d in devs)
        ctx.state(tuple((e["c"], len(e["terms"]), e["pre"]) for e in call["exps"]), tuple(plan["sub"]),
                  plan["threshold"], plan["weak"], ooo, tuple((w, k) for _, k, w in fired), bad)
        if ooo:
            ctx.probe("out_of_order")
        if err is not None:
            ctx.check(bool(fired), "phantom-failure", f"{err}")
            ctx.probe("fault_surfaced")
            failed = True
            continue
        ctx.check(not fired, "fault-swallowed", lambda: f"{fired}")
        ctx.check(not bad, "non-clifford", "a circuit with a fixed non-Clifford gate was characterised")
        if failed:
            ctx.probe("retry_ok")
        ctx.check(len(res) == len(wires), "result-count", lambda: f"{len(res)} for {len(wires)}")
        if len(wires) > 1:
            ctx.probe("several_experiments")
        if len({e["c"] for e in call["exps"]}) < len(wires):
            ctx.probe("same_circuit_twice")
        for r, d in roles.items():
            ctx.check(d.serial > n0[d.name] or all(not exps.n_qubits_of(s) for e in call["exps"] for s, _ in e["terms"]),
                      "role", f"the {r} workflow was not used")
        # every circuit is measured with the shots of the experiment it serves
        spent = {d.name: exps.Spent() for d in devs}
        for e in call["exps"]:
            k = sum(exps.n_qubits_of(s) > 0 for s, _ in e["terms"])
            spent[roles["experiment"].name].allow(SHOTS * e["shots"], min(k, 1), len(e["terms"]))
            spent[roles["characterisation"].name].allow(SHOTS * e["shots"], k, len(e["terms"]))
        for d in devs:
            spent[d.name].check(ctx, d.log[log0[d.name]:], d.name)
        if dev not in roles.values():
            ctx.check(dev.serial == n0["dev"], "role", "circuits ran on the device instead of the supplied workflows")
        for i, (r, e) in enumerate(zip(res, call["exps"])):
            spec = plan["specs"][e["c"]]
            ctx.check(len(r._dict) == len(e["terms"]), "strings", lambda: f"experiment {i}: {r}")
            inv = {b.index[0]: a.index[0] for a, b in circs[e["c"]].implicit_qubit_permutation().items()}
            for s, coeff in e["terms"]:
                got = exps.lookup(r, s, spec["reg"])
                ctx.check(len(got) == 1, "strings", lambda: f"experiment {i}: {s} appears {len(got)} times in {r}")
                if not exps.n_qubits_of(s):
                    ctx.probe("identity_string")
                if sum(v == "Y" for v in s.values()) % 2:
                    ctx.probe("odd_y")
                c = build_exact(spec, e["vals"])
                want = qexec.pauli_expectation(c, {q: p for q, p in exps.qps(s, spec["reg"]).map.items()})
                support = tuple(sorted(inv[int(q)] for q, v in s.items() if v != "I"))
                f = lam(spec["reg"], support, pairs(circs[e["c"]])) if support else 1
                if f <= thr:
                    ctx.probe("below_threshold")
                    want *= f
                ctx.close(got[0], coeff * want, 1e-4 * abs(coeff), "corrected",
                          lambda: f"experiment {i} of {len(wires)}, string {s}, contraction {f}")
    for c, k in zip(circs, keys):
        ctx.check(circuit_key(c) == k, "input-mutated", "a caller's circuit was altered")
