"""P14: probabilistic error cancellation learns a valid quasi-probability."""

from .. import exps, qexec
from ..common import PlanInvalid, SimFault, circuit_key, rand_observable
from ..device import SimDevice
from .p11_zne import build_exact, make_circuit
from .p12_cdr import distinct_supports, hash_int

ID = "P14"
RUNS = {"quick": 110, "thorough": 4000}
LEVEL = "exploration"
RUN_TIMEOUT = 300.0  # processor seconds; runs take up to 60
RULE = ("distinct (experiments, strings, frame gates, training size, noise kind, placement, sub-workflows, completion "
        "order class, device fault) tuples")
REAL = ["gen_PEC_learning_based_MitEx", "random_commuting_clifford", "random_clifford_circ", "label/wrap/rebase tasks",
        "gen_get_noisy_circuits", "collation, learning and recombination tasks", "MitEx", "MitRes", "TaskGraph"]
STUB = ["devices: queue, latency, failures, Pauli noise at two-qubit gates or a contraction per string",
        "simulator backend: exact outcome distributions"]
ASSUMPTIONS = ["the noise is undone by some combination of the Pauli variants the method searches",
               "a value is judged only if the training circuits determine the combination for that experiment "
               "(its exact variant values are a linear combination of those of the training circuits)",
               "two-qubit gates of the circuits are CX and the device's compiler keeps them"]
SHRINK_LISTS = ("calls", "exps", "ops", "terms", "specs")
SHRINK_INTS = ("num",)
PROBES = ["out_of_order", "fault_surfaced", "retry_ok", "several_experiments", "pauli_noise", "contraction", "rename",
          "other_register", "identity_string", "judged", "undetermined", "own_device", "own_sim", "symbolic",
          "shared_key", "several_frames", "wire_swap", "several_strings", "idle_qubit", "reordered_strings", "nothing", "shots_counted",
          "frame_numbers_differ"]
SHOTS = 10**8
REGS = ["q", "q", "node", "z"]


def gen_spec(rng, reg, frames):
    n = rng.choice([2, 2, 2, 3])
    sym = rng.random() < 0.25
    ang = lambda: "alpha" if sym and rng.random() < 0.5 else rng.choice([0.15, 0.25, 0.4, 0.6, 1.1, 1.7])
    one = lambda q: ([rng.choice(["Ry", "Rx"]), ang(), q] if rng.random() < 0.75 else
                     rng.choice([["H", q], ["S", q], ["V", q]]))
    ops = [["Ry", ang(), q] for q in range(n)]
    for _ in range(frames):
        a, b = rng.sample(range(n), 2)
        ops.append(["CX", a, b])
        for q in range(n):
            if rng.random() < 0.5:
                ops.append(one(q))
    return {"n": n, "ops": ops, "reg": reg, "swap": rng.random() < 0.15}


def gen(rng, tier, index):
    pauli = rng.random() < 0.5
    frames = lambda: 1 if pauli else rng.choice([1, 2])
    reg = rng.choice(REGS)
    specs = [gen_spec(rng, reg, frames()) for _ in range(rng.choice([1, 2, 2]))]
    calls = []
    for _ in range(rng.choice([1, 1, 2])):
        es = []
        for _ in range(rng.choice([1, 1, 2, 2, 2, 3])):
            c = rng.randrange(len(specs))
            terms = distinct_supports(rand_observable(rng, specs[c]["n"], rng.choice([1, 1, 2, 2])))
            if rng.random() < 0.1:
                terms.append([{}, 0.7])
            es.append({"c": c, "shots": rng.choice([1, 1, 2, 3]), "terms": terms, "vals": {s: rng.choice(exps.ANGLES) for s in exps.SYMS}})
        calls.append({"exps": es, "fault": [rng.choice(["error", "timeout", "after_submit"]), rng.randint(0, 60),
                                            rng.choice(["dev", "sim"])] if rng.random() < 0.25 else None})
    return {"reg": reg, "specs": specs, "calls": calls, "pauli": pauli, "num": rng.choice([3, 5, 8, 8, 12]),
            "place": rng.choice(["none", "none", "rename"]), "seed": rng.choice([None, 1, rng.getrandbits(20)]),
            "level": rng.choice([None, 0]), "sub": sorted(rng.sample(["dev", "sim"], rng.choice([0, 0, 1, 2]))),
            "reorder": rng.random() < 0.4, "dev_seed": rng.getrandbits(30)}


def frame_keys(circ):
    """[(command index, control, target, (rank at control, rank at target))] of the CX of a circuit"""
    seen, out = {}, []
    for i, c in enumerate(circ.get_commands()):
        if c.op.type == qexec.OpType.CX:
            k = tuple(seen.get(q, 0) for q in c.qubits)
            for q in c.qubits:
                seen[q] = seen.get(q, 0) + 1
            out.append((i, c.qubits[0], c.qubits[1], k))
    return out


def variants(circ, paulis, name):
    """{(control, target, ranks, pauli pair): value of the string} of all searched Pauli variants

    circ has no measurements; paulis: {qubit: Pauli}; name: qubit -> label"""
    cmds = circ.get_commands()
    out = {"none": qexec.pauli_expectation(circ, paulis)}
    for i, a, b, k in frame_keys(circ):
        for x in "IXYZ":
            for y in "IXYZ":
                if x + y == "II":
                    continue
                v = qexec.new_like(circ)
                for j, c in enumerate(cmds):
                    if j == i:
                        qexec.put_pauli(v, a, x)
                        qexec.put_pauli(v, b, y)
                    v.add_gate(c.op, c.args)
                    if j == i:
                        qexec.put_pauli(v, a, x)
                        qexec.put_pauli(v, b, y)
                out[(name(a), name(b), k, x + y)] = qexec.pauli_expectation(v, paulis)
    return out


def run(plan, ctx):
    import numpy as np

    from qermit import AnsatzCircuit, MitEx, ObservableExperiment
    from qermit.probabilistic_error_cancellation import gen_PEC_learning_based_MitEx
    from qermit.taskgraph import gen_compiled_MitRes
    from qermit.taskgraph.utils import ObservableTracker

    if plan["num"] < 1:
        raise PlanInvalid()
    for s in plan["specs"]:
        cx = sum(o[0] == "CX" for o in s["ops"])
        first = {}
        for o in s["ops"]:
            for q in o[1:] if o[0] == "CX" else o[-1:]:
                first.setdefault(q, o[0])
        if not cx or (plan["pauli"] and cx > 1) or set(first) != set(range(s["n"])) or "CX" in first.values():
            raise PlanInvalid()
    reg = plan["reg"]

    def parity(circ, e):
        support = tuple(sorted(label(plan, nodes, c.qubits[0]) for c in circ.get_commands()
                               if c.op.type == qexec.OpType.Measure))
        ctx.fault("noise")
        return e * (0.5 + hash_int(plan["dev_seed"], support) % 41 / 100)

    px, pz, pb = 0.05, 0.03 + plan["dev_seed"] % 5 / 100, 0.02

    def pauli(op, qubits):
        if op.type != qexec.OpType.CX:
            return []
        ctx.fault("noise")
        c, t = qubits
        return [(px, {t: "X"}), (pz, {c: "Z"}), (pb, {t: "X", c: "Z"})]

    noise = qexec.Noise(pauli=pauli) if plan["pauli"] else qexec.Noise(parity=parity)
    ctx.probe("pauli_noise" if plan["pauli"] else "contraction")
    nodes = list(range(6))
    if plan["place"] == "rename":
        ctx.probe("rename")
    cp = placing(plan, nodes)
    mk = lambda name, k, noisy, **kw: SimDevice(ctx, seed=plan["dev_seed"] + k, noise=noise if noisy else None,
                                                name=name, max_calls=60000, **kw)
    dev, sim = mk("dev", 0, True, compile_pass=cp), mk("sim", 1, False)
    roles = {"dev": dev, "sim": sim}
    kw = {"num_cliff": plan["num"]}
    if plan["seed"] is not None:
        kw["seed"] = plan["seed"]
    if plan["level"] is not None:
        kw["optimisation_level"] = plan["level"]
    for k, (r, name, key) in enumerate([("sim", "sim2", "simulator_mitex"), ("dev", "dev2", "device_mitex")]):
        if r in plan["sub"]:
            roles[r] = mk(name, 2 + k, r == "dev")
            kw[key] = MitEx(roles[r], mitres=gen_compiled_MitRes(roles[r], 0)) if plan["dev_seed"] % 2 else MitEx(roles[r])
            kw[key] = exps.reordering(kw[key], plan["reorder"])
            if plan["reorder"]:
                ctx.probe("reordered_strings")
            ctx.probe({"sim": "own_sim", "dev": "own_device"}[r])
    pec = gen_PEC_learning_based_MitEx(dev, sim, **kw)
    exps.nothing(ctx, pec, plan)
    circs = [make_circuit(s) for s in plan["specs"]]
    keys = [circuit_key(c) for c in circs]
    devs = list({id(d): d for d in [dev, sim] + list(roles.values())}.values())
    failed = False
    for call in plan["calls"]:
        wires = []
        for e in call["exps"]:
            if e["c"] >= len(circs) or not e["terms"]:
                raise PlanInvalid()
            spec = plan["specs"][e["c"]]
            if exps.used_syms(spec["ops"]):
                ctx.probe("symbolic")
            if spec["swap"]:
                ctx.probe("wire_swap")
            if reg != "q":
                ctx.probe("other_register")
            wires.append(ObservableExperiment(
                AnsatzCircuit(circs[e["c"]], SHOTS * e["shots"], exps.symbols_dict(spec, e["vals"], "dict")),
                ObservableTracker(exps.make_qpo(e["terms"], reg))))
        nf = {d.name: len(d.fired) for d in devs}
        log0 = {d.name: len(d.log) for d in devs}
        done0 = {d.name: len(d.completion) for d in devs}
        for d in devs:
            d.faults = {}
        if call["fault"]:
            d = roles[call["fault"][2]]
            d.faults = {d.calls + call["fault"][1]: call["fault"][0]}
        try:
            res = pec.run(wires)
            err = None
        except SimFault as ex:
            err = ex
        for d in devs:
            d.faults = {}
        fired = [f for d in devs for f in d.fired[nf[d.name]:]]
        ooo = any(o != sorted(o) for o in [d.completion[done0[d.name]:] for d in devs])
        ctx.state(plan["num"], plan["pauli"], plan["place"], tuple(plan["sub"]),
                  tuple((e["c"], len(e["terms"])) for e in call["exps"]), ooo, tuple((w, k) for _, k, w in fired))
        if ooo:
            ctx.probe("out_of_order")
        if err is not None:
            ctx.check(bool(fired), "phantom-failure", f"{err}")
            ctx.probe("fault_surfaced")
            failed = True
            continue
        ctx.check(not fired, "fault-swallowed", lambda: f"{fired}")
        if failed:
            ctx.probe("retry_ok")
        ctx.check(len(res) == len(wires), "result-count", lambda: f"{len(res)} for {len(wires)}")
        if len(wires) > 1:
            ctx.probe("several_experiments")
        if len({sum(o[0] == "CX" for o in plan["specs"][e["c"]]["ops"]) for e in call["exps"]}) > 1:
            ctx.probe("frame_numbers_differ")
        new = {d.name: d.log[log0[d.name]:] for d in devs}
        n_dev = n_sim = 0
        spent = exps.Spent()
        for e in call["exps"]:
            v = 1 + 15 * sum(o[0] == "CX" for o in plan["specs"][e["c"]]["ops"])
            n_dev += v * len(e["terms"]) * (1 + plan["num"])
            spent.allow(SHOTS * e["shots"], *[v * len(e["terms"]) * (1 + plan["num"])] * 2)
            n_sim += len(e["terms"]) * plan["num"]
        ctx.check(len(new[roles["dev"].name]) == n_dev, "role",
                  lambda: f"{len(new[roles['dev'].name])} noisy circuits ran, expected {n_dev}")
        spent.check(ctx, new[roles["dev"].name])
        if roles["dev"] is not dev:
            ctx.check(not new["dev"], "role", "circuits ran on the device although a workflow was supplied")
        if roles["sim"] is not sim:
            ctx.check(len(new["sim2"]) == n_sim, "role", lambda: f"{len(new['sim2'])} ideal circuits ran, expected {n_sim}")
        # the training circuits: the last n_sim jobs of the simulator in role
        vec = {}
        for _, j, _ in new[roles["sim"].name]:
            if j.n_qubits not in {s["n"] for s in plan["specs"]}:
                continue
            core, paulis = unmeasured(j)
            support = tuple(sorted(label(plan, nodes, q) for q in paulis))
            fk = tuple(sorted((label(plan, nodes, a), label(plan, nodes, b), k) for _, a, b, k in frame_keys(core)))
            vec.setdefault((fk, support), []).append(variants(core, paulis, lambda q: label(plan, nodes, q)))
        for i, (r, e) in enumerate(zip(res, call["exps"])):
            spec = plan["specs"][e["c"]]
            ctx.check(len(r._dict) == len(e["terms"]), "strings", lambda: f"experiment {i}: {r}")
            if len(e["terms"]) > 1:
                ctx.probe("several_strings")
            for s, coeff in e["terms"]:
                got = exps.lookup(r, s, reg)
                ctx.check(len(got) == 1, "strings", lambda: f"experiment {i}: {s} appears {len(got)} times in {r}")
                if not exps.n_qubits_of(s):
                    ctx.probe("identity_string")
                    ctx.close(got[0], coeff, 1e-3, "identity", f"experiment {i}")
                    continue
                c = build_exact(spec, e["vals"])
                ps = {q: p for q, p in exps.qps(s, reg).map.items() if p != qexec.Pauli.I}
                want = qexec.pauli_expectation(c, ps)
                # variants of the circuit; wires are named by where they start
                c2 = exps.build(exps.substituted(spec["ops"], e["vals"]), spec["n"], reg)
                back = {}
                if spec["swap"]:
                    back = {c2.qubits[0]: c2.qubits[1], c2.qubits[1]: c2.qubits[0]}
                ps2 = {back.get(q, q): p for q, p in ps.items()}
                mine = variants(c2, ps2, lambda q: q.index[0])
                support = tuple(sorted(q.index[0] for q in ps2))
                fk = tuple(sorted((a.index[0], b.index[0], k) for _, a, b, k in frame_keys(c2)))
                if len(fk) > 1:
                    ctx.probe("several_frames")
                train = vec.get((fk, support), [])
                names = sorted(mine, key=str)
                a = np.array([[t[k] for k in names] for t in train]).T
                v = np.array([mine[k] for k in names])
                if len(train) != plan["num"]:
                    ctx.probe("shared_key")  # whose training circuits these are is not visible from outside
                    continue
                ctx.check(all(abs(abs(t["none"]) - 1) < 1e-6 for t in train), "training-circuits",
                          lambda: f"experiment {i}, string {s}: ideal training values {[round(t['none'], 3) for t in train]}")
                if np.linalg.norm(a @ np.linalg.lstsq(a, v, rcond=1e-9)[0] - v) > 1e-6:
                    ctx.probe("undetermined")
                    continue
                ctx.probe("judged")
                ctx.close(got[0], coeff * want, 2e-3 * abs(coeff), "corrected",
                          lambda: f"experiment {i} of {len(wires)}, string {s}, {plan['num']} training circuits")
                have = sorted(qexec.parity_expectation(j) for _, j, _ in new[roles["dev"].name]
                              if tuple(sorted(label(plan, nodes, q) for q in unmeasured(j)[1])) == support)
                ctx.check(includes(have, sorted(mine.values())), "variants",
                          lambda: f"experiment {i}, string {s}: not every Pauli variant of the circuit was measured")
    for c, k in zip(circs, keys):
        ctx.check(circuit_key(c) == k, "input-mutated", "a caller's circuit was altered")


def includes(have, need, tol=1e-6):
    """sorted lists of numbers: have contains need as a multiset"""
    i = 0
    for x in need:
        while i < len(have) and have[i] < x - tol:
            i += 1
        if i == len(have) or have[i] > x + tol:
            return False
        i += 1
    return True


def placing(plan, nodes):
    from pytket.circuit import Node, Qubit
    from pytket.passes import AutoRebase, DecomposeBoxes, RenameQubitsPass, SequencePass

    def make(dev, level):
        base = [DecomposeBoxes(), AutoRebase(dev.gates)]
        if plan["place"] == "rename":
            base.append(RenameQubitsPass({Qubit(plan["reg"], i): Node("fridge", (5 * i + plan["dev_seed"]) % 6)
                                          for i in range(3)}))
        return SequencePass(base)

    return make


def label(plan, nodes, q):
    if q.reg_name == "fridge":
        return next((i for i in range(3) if (5 * i + plan["dev_seed"]) % 6 == q.index[0]), -1)
    return q.index[0]


def unmeasured(job):
    """(the circuit without measurements, {qubit: Z} of what is measured)"""
    out = qexec.new_like(job, bits=False)
    ps = {}
    for c in job.get_commands():
        if c.op.type == qexec.OpType.Measure:
            ps[c.qubits[0]] = qexec.Pauli.Z
        elif c.op.type != qexec.OpType.Barrier:
            out.add_gate(c.op, c.args)
    return out, ps
