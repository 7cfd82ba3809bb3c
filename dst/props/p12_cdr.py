"""P12: Clifford data regression learns each experiment's own correction."""

import math

from .. import exps, qexec
from ..common import put_barriers, PlanInvalid, SimFault, circuit_key, rand_observable
from ..device import SimDevice
from .p11_zne import permuted

ID = "P12"
RUNS = {"quick": 360, "thorough": 12000}
LEVEL = "exploration"
RULE = ("distinct (experiments, strings, training parameters, model, sub-workflows, likelihood filter, completion order "
        "class, device fault) tuples")
REAL = ["gen_CDR_MitEx", "gen_state_circuits", "likelihood filter, batching, calibration, quality check and correction "
        "tasks", "MitEx", "MitRes", "TaskGraph"]
STUB = ["devices: queue, latency, failures; bias is a function of the exact parity expectation of a job",
        "simulator backend: exact expectation values"]
ASSUMPTIONS = ["the bias of a string is a member of the model family, the same for training and experiment circuits",
               "a value is judged only if the training values of that string determine the fit "
               "(spread of at least 0.15, and enough distinct values for the degree)"]
SHRINK_LISTS = ("calls", "exps", "ops", "terms", "specs")
SHRINK_INTS = ("total",)
PROBES = ["out_of_order", "fault_surfaced", "retry_ok", "several_experiments", "own_model", "quadratic", "likelihood",
          "own_sim", "own_states", "own_experiment", "strict_training", "one_rotation", "wire_swap", "symbolic",
          "other_register", "identity_string", "judged", "fit_undetermined", "non_cliffords_kept", "reordered_strings", "nothing", "shots_counted"]
SHOTS = 10**8
REGS = ["q", "node", "z"]
NON_CLIFFORD = [0.15, 0.25, 0.4, 0.6, 1.1, 1.7, 0.503, 1.002]  # the last two are close to Clifford angles


def gen_spec(rng, reg):
    n = rng.randint(1, 3)
    base = rng.random() < 0.5
    syms = rng.sample(exps.SYMS, 1) if not base and rng.random() < 0.4 else []
    ops = []
    for q in range(n):
        if rng.random() < 0.7:
            a = rng.choice(NON_CLIFFORD)
            ops += [["H", q], ["Rz", a, q], ["H", q]] if base else [["Ry", a, q]]
    for _ in range(rng.randint(1, 7)):
        r = rng.random()
        if n > 1 and r < 0.35:
            ops.append([rng.choice(["CX"] if base else ["CX", "CZ", "CX"])] + rng.sample(range(n), 2))
        elif r < 0.7:
            a = rng.choice(syms) if syms and rng.random() < 0.5 else rng.choice(NON_CLIFFORD + [0.5])
            ops.append([rng.choice(["Rz"] if base else ["Ry", "Rz", "Rx"]), a, rng.randrange(n)])
        else:
            ops.append([rng.choice(["H"] if base else ["H", "X", "S", "V"]), rng.randrange(n)])
        if base and ops[-1][0] == "Rz" and rng.random() < 0.5:
            # rotations that matter
            q = ops[-1][2]
            ops = ops[:-1] + [["H", q], ops[-1], ["H", q]]
    put_barriers(rng, ops, n)
    single = rng.random() < 0.25
    if single:
        ops = [o for o in ops if o[0] not in exps.ROT] + [["H", 0], ["Rz", rng.choice([0.25, 0.3, 0.75, 1.25, 0.501]), 0], ["H", 0]]
    return {"n": n, "ops": ops, "reg": reg, "base": base, "swap": permuted(rng, n, 0.3 if single else 0.12)}


def distinct_supports(terms):
    seen, out = set(), []
    for s, c in terms:
        k = tuple(sorted(q for q, v in s.items() if v != "I"))
        if k not in seen:
            seen.add(k)
            out.append([s, c])
    return out


def gen(rng, tier, index):
    specs = [gen_spec(rng, r) for r in rng.sample(REGS, rng.randint(1, 3))]
    model = rng.choice(["default", "default", "own1", "own1", "own2", "poly2"])
    like = rng.random() < 0.2
    calls = []
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randint(1, 3)
        if model in ("default", "poly2"):
            order = rng.sample(range(len(specs)), min(k, len(specs)))
        else:
            order = [rng.randrange(len(specs)) for _ in range(k)]
        es = []
        for c in order:
            terms = distinct_supports(rand_observable(rng, specs[c]["n"], 1 if like else rng.randint(1, 3)))
            if not like and rng.random() < 0.1:
                terms.append([{}, 0.7])
            es.append({"c": c, "shots": rng.choice([1, 1, 2, 3]), "terms": terms, "vals": {s: rng.choice(exps.ANGLES) for s in exps.SYMS}})
        calls.append({"exps": es, "fault": [rng.choice(["error", "timeout", "after_submit"]), rng.randint(0, 40),
                                            rng.choice(["dev", "sim"])] if rng.random() < 0.25 else None})
    n_non = rng.randint(0, 4)
    return {"specs": specs, "calls": calls, "model": model, "like": like,
            "n_non": n_non, "n_pairs": rng.randint(0, n_non), "total": rng.randint(6, 14),
            "attempts": rng.choice([1, 2, 10]), "tol": rng.choice([0.01, 0.1, 0.3]),
            "sub": sorted(rng.sample(["sim", "states", "experiment"], rng.choice([0, 0, 1, 2, 3]))),
            "reorder": rng.random() < 0.4, "dev_seed": rng.getrandbits(30)}


class Model:
    """a user's own fit"""

    def __init__(self, deg):
        self.deg, self.x, self.y = deg, [], []

    def calibrate(self, noisy_exp, exact_exp):
        self.x, self.y = list(noisy_exp), list(exact_exp)

    def determined(self, coeff):
        ys = sorted(v / coeff for v in self.y)
        return enough(ys, self.deg)

    def correct(self, noisy_expectation):
        import numpy as np

        if not enough(sorted(self.y), self.deg, 0.003):
            return 1e6
        return float(np.polyval(np.polyfit(self.x, self.y, self.deg), noisy_expectation))


def enough(ys, deg, gap=0.15):
    k = 0
    last = None
    for v in ys:
        if last is None or v - last > gap:
            k += 1
            last = v
    return k > deg


def bias_of(plan, reg, support):
    """(slope, offset) of one string of one circuit"""
    h = hash_int(plan["dev_seed"], reg, support)
    return 0.5 + (h % 41) / 100, ((h // 41) % 21 - 10) / 200


def hash_int(*a):
    import hashlib

    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=6).digest(), "big")


def where(circ):
    """register and measured qubits of a job"""
    qs = sorted(c.qubits[0].index[0] for c in circ.get_commands() if c.op.type == qexec.OpType.Measure)
    return circ.qubits[0].reg_name, tuple(qs)


def per_qubit(circ):
    """{qubit: [(type, params, other qubits)...]} without barriers and measurements"""
    out = {}
    for c in circ.get_commands():
        if c.op.type in (qexec.OpType.Barrier, qexec.OpType.Measure):
            continue
        for q in c.qubits:
            out.setdefault(repr(q), []).append((c.op.type, tuple(map(float, c.op.params)), tuple(map(repr, c.qubits))))
    return out


def clifford(a):
    return min(abs(a % 0.5), 0.5 - a % 0.5) < 1e-9


def run(plan, ctx):
    from pytket.circuit import OpType

    from qermit import AnsatzCircuit, MitEx, ObservableExperiment
    from qermit.clifford_noise_characterisation import gen_CDR_MitEx
    from qermit.clifford_noise_characterisation.cdr_post import _PolyCDRCorrect
    from qermit.taskgraph import gen_compiled_MitRes
    from qermit.taskgraph.utils import ObservableTracker

    if plan["n_pairs"] > plan["n_non"] or plan["total"] < 2:
        raise PlanInvalid()
    deg = 2 if plan["model"] in ("own2", "poly2") else 1
    regs = [s["reg"] for s in plan["specs"]]
    if len(set(regs)) != len(regs):
        raise PlanInvalid()

    def parity(circ, e):
        reg, support = where(circ)
        a, b = bias_of(plan, reg, support)
        ctx.fault("noise")
        if plan["like"] and abs(e) < 1e-6:
            return 0.9  # a fluke the likelihood function is there to reject
        if deg == 2:
            w = 0.5 + 0.3 * a
            q = 0.8 * b / 0.05 * 0.4
            # e = y / w + q (y^2 - w^2), |y| <= w
            if abs(q) < 1e-9:
                return e * w
            return (-1 / w + math.sqrt(max(0.0, 1 / w**2 + 4 * q * (e + q * w * w)))) / (2 * q)
        return a * e + b

    noise = qexec.Noise(parity=parity)
    mk = lambda name, k, noisy, **kw: SimDevice(ctx, seed=plan["dev_seed"] + k, noise=noise if noisy else None,
                                                name=name, **kw)
    dev, sim = mk("dev", 0, True), mk("sim", 1, False, expectation=True)
    roles = {"states": dev, "experiment": dev, "sim": sim}
    kw = {"tolerance": plan["tol"], "max_state_circuits_attempts": plan["attempts"]}
    for k, (r, name, key) in enumerate([("sim", "sim2", "states_simulator_mitex"),
                                        ("states", "dev_s", "states_device_mitex"),
                                        ("experiment", "dev_e", "experiment_mitex")]):
        if r in plan["sub"]:
            roles[r] = mk(name, 2 + k, r != "sim")
            kw[key] = MitEx(roles[r], mitres=gen_compiled_MitRes(roles[r], 0)) if plan["dev_seed"] % 2 else MitEx(roles[r])
            kw[key] = exps.reordering(kw[key], plan["reorder"])
            if plan["reorder"]:
                ctx.probe("reordered_strings")
            ctx.probe("own_" + r)
    if plan["model"] == "poly2":
        kw["model"] = _PolyCDRCorrect(2)
    elif plan["model"] != "default":
        kw["model"] = Model(deg)
        ctx.probe("own_model")
    if deg == 2:
        ctx.probe("quadratic")
    if plan["like"]:
        ctx.probe("likelihood")
        kw["likelihood_function"] = lambda noisy, exact: float(all(abs(complex(v)) > 1e-6 for v in exact._dict.values()))
    cdr = gen_CDR_MitEx(dev, sim, plan["n_non"], plan["n_pairs"], plan["total"], **kw)
    exps.nothing(ctx, cdr, plan)
    from .p11_zne import build_exact, make_circuit

    circs = [make_circuit(s) for s in plan["specs"]]
    keys = [circuit_key(c) for c in circs]
    devs = list({id(d): d for d in [dev, sim] + list(roles.values())}.values())
    failed = False
    for call in plan["calls"]:
        wires = []
        seen = [e["c"] for e in call["exps"]]
        if plan["model"] in ("default", "poly2") and len(set(seen)) != len(seen):
            raise PlanInvalid()
        for e in call["exps"]:
            if e["c"] >= len(circs) or not e["terms"]:
                raise PlanInvalid()
            spec = plan["specs"][e["c"]]
            if exps.used_syms(spec["ops"]):
                ctx.probe("symbolic")
            if spec["swap"]:
                ctx.probe("wire_swap")
            if spec["reg"] != "q":
                ctx.probe("other_register")
            wires.append(ObservableExperiment(
                AnsatzCircuit(circs[e["c"]], SHOTS * e["shots"], exps.symbols_dict(spec, e["vals"], "dict")),
                ObservableTracker(exps.make_qpo(e["terms"], spec["reg"]))))
        nf = {d.name: len(d.fired) for d in devs}
        log0 = {d.name: len(d.log) for d in devs}
        done0 = {d.name: len(d.completion) for d in devs}
        for d in devs:
            d.faults = {}
        if call["fault"]:
            d = roles["sim"] if call["fault"][2] == "sim" else roles["states"]
            d.faults = {d.calls + call["fault"][1]: call["fault"][0]}
        try:
            res = cdr.run(wires)
            err = None
        except SimFault as ex:
            err = ex
        except qexec.np.linalg.LinAlgError:
            # refused: noisy training values of some string are all exactly zero
            jobs = [j for _, j, _ in roles["states"].log[log0[roles["states"].name]:]]
            vals = {}
            for j in jobs:
                zero = abs(parity(j, qexec.parity_expectation(j))) < 1e-6
                vals[where(j)] = vals.get(where(j), 0) + zero
            ctx.check(any(v >= plan["total"] for v in vals.values()), "refused", "a fit failed on usable training data")
            ctx.probe("fit_undetermined")
            continue
        for d in devs:
            d.faults = {}
        fired = [f for d in devs for f in d.fired[nf[d.name]:]]
        order = [o for d in devs for o in [d.completion[done0[d.name]:]]]
        ooo = any(o != sorted(o) for o in order)
        ctx.state(plan["n_non"], plan["n_pairs"], plan["total"], plan["model"], plan["like"], tuple(plan["sub"]),
                  tuple((e["c"], len(e["terms"])) for e in call["exps"]), ooo, tuple((w, k) for _, k, w in fired))
        if ooo:
            ctx.probe("out_of_order")
        if err is not None:
            ctx.check(bool(fired), "phantom-failure", f"{err}")
            ctx.probe("fault_surfaced")
            failed = True
            continue
        ctx.check(not fired, "fault-swallowed", lambda: f"{fired}")
        if failed:
            ctx.probe("retry_ok")
        ctx.check(len(res) == len(wires), "result-count", lambda: f"{len(res)} for {len(wires)}")
        if len(wires) > 1:
            ctx.probe("several_experiments")
        new = {d.name: d.log[log0[d.name]:] for d in devs}
        # every workflow is used for its own role
        n_strings = sum(exps.n_qubits_of(s) > 0 for e in call["exps"] for s, _ in e["terms"])
        n_id = sum(exps.n_qubits_of(s) == 0 for e in call["exps"] for s, _ in e["terms"])
        want_jobs = {}
        for r, k in (("sim", plan["total"]), ("states", plan["total"]), ("experiment", 1)):
            d = roles[r]
            lo, hi = want_jobs.get(d.name, (0, 0))
            want_jobs[d.name] = (lo + k * n_strings, hi + k * (n_strings + n_id))
        for d in devs:
            lo, hi = want_jobs.get(d.name, (0, 0))
            ctx.check(lo <= len(new[d.name]) <= hi, "role",
                      lambda: f"{d.name} ran {len(new[d.name])} circuits, expected {lo}..{hi}; sub-workflows {plan['sub']}")
        spent = {d.name: exps.Spent() for d in devs}
        for e in call["exps"]:
            for r, k in (("sim", plan["total"]), ("states", plan["total"]), ("experiment", 1)):
                spent[roles[r].name].allow(SHOTS * e["shots"], k * sum(exps.n_qubits_of(s) > 0 for s, _ in e["terms"]),
                                           k * len(e["terms"]))
        for d in devs:
            spent[d.name].check(ctx, new[d.name], d.name)
        check_training(plan, ctx, call, circs, roles, new)
        for i, (r, e) in enumerate(zip(res, call["exps"])):
            spec = plan["specs"][e["c"]]
            ctx.check(len(r._dict) == len(e["terms"]), "strings", lambda: f"experiment {i}: {r}")
            for s, coeff in e["terms"]:
                got = exps.lookup(r, s, spec["reg"])
                ctx.check(len(got) == 1, "strings", lambda: f"experiment {i}: {s} appears {len(got)} times in {r}")
                if not exps.n_qubits_of(s):
                    ctx.probe("identity_string")
                    if plan["model"] == "default":
                        ctx.close(got[0], coeff, 1e-3, "identity", f"experiment {i}")
                    continue
                # wires are named by where they start
                inv = {b.index[0]: a.index[0] for a, b in circs[e["c"]].implicit_qubit_permutation().items()}
                support = tuple(sorted(inv[int(q)] for q, v in s.items() if v != "I"))
                c = build_exact(spec, e["vals"])
                want = qexec.pauli_expectation(c, {q: p for q, p in exps.qps(s, spec["reg"]).map.items()})
                if plan["like"] and abs(want) < 1e-3:
                    continue
                ys = sorted(qexec.parity_expectation(j) for _, j, _ in new[roles["sim"].name]
                            if where(j) == (spec["reg"], support))
                if plan["like"]:
                    ys = [y for y in ys if abs(y) > 1e-6]
                if seen.count(e["c"]) > 1:
                    # the model itself knows
                    if abs(got[0]) > 1e5:
                        ctx.probe("fit_undetermined")
                        continue
                    if plan["like"] or not enough(ys, deg):
                        continue
                elif not enough(ys, deg):
                    ctx.probe("fit_undetermined")
                    continue
                ctx.probe("judged")
                ctx.close(got[0], coeff * want, 2e-3 * abs(coeff), "corrected",
                          lambda: f"experiment {i} of {len(wires)}, string {s}, {plan['total']} training circuits")
    for c, k in zip(circs, keys):
        ctx.check(circuit_key(c) == k, "input-mutated", "a caller's circuit was altered")


def check_training(plan, ctx, call, circs, roles, new):
    """training circuits: the circuit itself, other angles, at most n_non rotations left"""
    from pytket.circuit import OpType

    # jobs of one device in two roles are told apart by their structure only; judge simulator jobs
    jobs = new[roles["sim"].name]
    noisy = new[roles["states"].name]
    pool = {}
    for _, j, _ in noisy:
        k = job_key(j)
        pool[k] = pool.get(k, 0) + 1
    for _, j, _ in jobs:
        k = job_key(j)
        pool[k] = pool.get(k, 0) - 1
        ctx.check(pool[k] >= 0, "training-pairs", "a training circuit was simulated but not measured on the device")
    for ci in {e["c"] for e in call["exps"]}:
        spec = plan["specs"][ci]
        if not spec["base"] or spec["swap"] or exps.used_syms(spec["ops"]):
            continue
        ref = per_qubit(circs[ci])
        rz = sum(o[0] == "Rz" and not clifford(o[1]) for o in spec["ops"])
        if rz == 1:
            ctx.probe("one_rotation")
        ctx.probe("strict_training")
        for _, j, _ in jobs:
            if where(j)[0] != spec["reg"]:
                continue
            got = per_qubit(j)
            left = 0
            for q, seq in ref.items():
                g = got.get(q, [])
                ctx.check(len(g) >= len(seq), "training-structure", lambda: f"{q}: {g} does not start like {seq}")
                for (t, p, a), (gt, gp, ga) in zip(seq, g):
                    ctx.check(t == gt and a == ga and (t == OpType.Rz or p == gp), "training-structure",
                              lambda: f"{(gt, gp, ga)} in a training circuit where the circuit has {(t, p, a)}")
                    if t == OpType.Rz and not clifford(gp[0]):
                        left += 1
                        ctx.check(abs(gp[0] - p[0]) < 1e-9, "training-angle",
                                  lambda: f"rotation by {gp[0]}, the circuit has {p[0]}")
                    if t == OpType.Rz and clifford(p[0]):
                        ctx.check(abs(gp[0] - p[0]) < 1e-9, "training-angle",
                                  lambda: f"Clifford rotation {p[0]} replaced by {gp[0]}")
            if left:
                ctx.probe("non_cliffords_kept")
            ctx.check(rz == 0 or left <= plan["n_non"], "training-non-clifford",
                      lambda: f"{left} non-Clifford rotations left, {plan['n_non']} requested")


def job_key(j):
    u = [(c.op.type.name, tuple(round(float(p), 9) for p in c.op.params) if c.op.type not in (qexec.OpType.Barrier, qexec.OpType.Measure) else (), tuple(map(repr, c.args)))
         for c in j.get_commands()]
    return repr(u)
