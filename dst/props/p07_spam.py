"""P07: readout mitigation undoes exactly the readout errors it characterised."""

from ..common import (PlanInvalid, SimFault, apply_ops, build, circuit_key, counts_of, dist_of, new_circuit,
                      rand_ops, tv)
from .. import qexec
from ..device import SimDevice

ID = "P07"
RUNS = {"quick": 1600, "thorough": 20000}
LEVEL = "exploration"
RULE = ("distinct (group size order, noise kinds, measured subsets, mid-circuit use, compiler placement, "
        "correction method, fault call class, call number) tuples")
REAL = ["gen_FullyCorrelated_SPAM_MitRes", "gen_UnCorrelated_SPAM_MitRes", "full_transition_tomography",
        "full_spam_correction", "TaskGraph", "MitRes"]
STUB = ["device: queue, latency, failures, readout noise, qubit placement"]
ASSUMPTIONS = ["state preparation and gates are perfect; only readout is noisy",
               "qubits with joint errors are measured together, at the end of the circuit (the library documents "
               "that it assumes state 0 for unmeasured members of a group)",
               "the error-free distribution is only demanded when noise does not drift between calibration and use"]
SHRINK_LISTS = ("calls", "circuits", "ops", "list")
PROBES = ["ascending_groups", "joint_errors", "independent_errors", "partial_measure", "mid_circuit", "placed_by_compiler",
          "bayesian", "uncorrelated", "fault_surfaced", "retry_ok", "reused", "recharacterised_after_failure",
          "fault_in_calibration", "crosstalk_errors", "crosstalk_partial", "bit_reused", "second_object",
          "characterisation_handed_over", "drift", "negative_entries"]


def gen(rng, tier, index):
    nn = rng.choice([1, 2, 3, 3, 4, 4])
    nodes = list(range(nn))
    rng.shuffle(nodes)
    groups, left = [], list(nodes)
    while left:
        k = rng.randint(1, min(3, len(left)))
        groups.append(left[:k])
        left = left[k:]
    uncorrelated = rng.random() < 0.2
    if uncorrelated:
        groups = [[i] for i in range(nn)]
    noise = []
    for g in groups:
        if len(g) > 1 and rng.random() < 0.25:
            # each member is flipped on its own, more or less often depending on the state of the others
            d = 2 ** len(g)
            cols = []
            for j in range(d):
                f = [rng.choice([0.0, 0.05, 0.1, 0.16]) for _ in g]
                col = []
                for i in range(d):
                    x = 1.0
                    for m in range(len(g)):
                        flip = (i >> (len(g) - 1 - m) & 1) != (j >> (len(g) - 1 - m) & 1)
                        x *= f[m] if flip else 1 - f[m]
                    col.append(x)
                cols.append(col)
            noise.append({"kind": "joint", "cols": cols, "xtalk": True})
        elif len(g) > 1 and rng.random() < 0.5:
            d = 2 ** len(g)
            cols = []
            e = rng.choice([0.05, 0.12, 0.2])
            for j in range(d):
                w = [rng.random() if rng.random() < 0.6 else 0.0 for _ in range(d)]
                t = sum(w) or 1.0
                col = [e * x / t for x in w]
                col[j] += 1 - sum(col)
                cols.append(col)
            noise.append({"kind": "joint", "cols": cols})
        else:
            noise.append({"kind": "indep", "flips": [[round(rng.uniform(0, 0.18), 3), round(rng.uniform(0, 0.22), 3)]
                                                    for _ in g]})
    drift = rng.random() < 0.2
    any_joint = any(x["kind"] == "joint" for x in noise)
    circuits = []
    for _ in range(rng.randint(1, 4)):
        place = (not any_joint) and rng.random() < 0.5
        if place:
            n = rng.randint(1, nn)
            qs = list(range(n))
            may = list(qs)
        else:
            qs = list(range(nn))
            n = nn
            may = []
        meas, mid, untouched = [], [], set()
        if place:
            rng.shuffle(may)
            meas = may[: rng.randint(1, n)]
        else:
            order = list(range(len(groups)))
            rng.shuffle(order)
            for gi in order:
                if noise[gi].get("xtalk"):
                    # members which are not measured stay in state 0, as the library documents that it assumes
                    some = [q for q in groups[gi] if rng.random() < 0.65]
                    meas += some
                    untouched |= set(groups[gi]) - set(some)
                elif noise[gi]["kind"] == "joint":
                    if rng.random() < 0.75:
                        meas += groups[gi]
                else:
                    meas += [q for q in groups[gi] if rng.random() < 0.7]
            if not meas:
                meas = list(groups[0])
                untouched -= set(meas)
            rng.shuffle(meas)
        if rng.random() < 0.3:
            ok = [q for q in qs if not any(noise[gi]["kind"] == "joint" and q in g for gi, g in enumerate(groups))]
            if ok:
                mid = [[rng.choice(ok), 0]]
                if rng.random() < 0.25:
                    # a second measurement into the same bit
                    mid.append([rng.choice(ok), 0])
        nb = len(meas) + bool(mid) + rng.choice([0, 0, 1])
        bits = list(range(nb))
        rng.shuffle(bits)
        def gates(k):
            return [op for op in rand_ops(rng, n, k)
                    if not any(isinstance(a, int) and a in untouched for a in (op[2:] if isinstance(op[1], float) else op[1:]))]

        # the bit of a mid-circuit measurement may be written again at the end
        midbit = None if not mid else bits[len(meas)] if rng.random() < 0.8 else bits[0]
        circuits.append({"place": place, "n": n, "ops": gates(rng.randint(1, 6)),
                         "ops0": gates(rng.randint(0, 4)), "untouched": sorted(untouched),
                         "meas": [[q, bits[i]] for i, q in enumerate(meas)],
                         "mid": [[q, midbit] for q, _ in mid], "nb": nb})
    calls = []
    for _ in range(rng.randint(1, 3)):
        calls.append({"list": [[rng.randrange(len(circuits)), rng.choice([20000, 40000])]
                               for _ in range(rng.randint(1, 4))],
                      "fault": [rng.choice(["error", "timeout", "after_submit"]), rng.randint(0, 26)]
                      if rng.random() < 0.4 else None,
                      "obj": rng.randrange(2), "hand": rng.random() < 0.5})
    second = None
    if not any_joint and rng.random() < 0.35:
        second = [list(g) for g in groups]
        if rng.random() < 0.7:
            second, left = [], rng.sample(nodes, nn)
            while left:
                k = rng.randint(1, min(3, len(left)))
                second.append(left[:k])
                left = left[k:]
    return {"nn": nn, "groups": groups, "noise": noise, "circuits": circuits, "calls": calls,
            "uncorrelated": uncorrelated, "method": rng.choice(["Invert", "Invert", "Bayesian", None]),
            "form": "counts", "dev_seed": rng.getrandbits(30), "user_mitres": rng.random() < 0.3, "second": second, "drift": drift}


def node_placement(dev, level):
    """rebase; qubits which are not device nodes yet are placed on free nodes"""
    from pytket.circuit import Node
    from pytket.passes import CustomPass

    from ..device import AutoRebase, DecomposeBoxes

    def tr(c):
        c = c.copy()
        DecomposeBoxes().apply(c)
        AutoRebase(dev.gates).apply(c)
        taken = {q for q in c.qubits if q.reg_name == "node"}
        free = [n for n in sorted(dev._arch.nodes) if n not in taken]
        dev._session_random.shuffle(free)
        c.rename_units({q: free.pop() for q in c.qubits if q.reg_name != "node"})
        return c

    return CustomPass(tr)


def confusion(jobs, groups):
    """{node: group}, {group: matrix[read, prepared]} as the calibration jobs measured it"""
    import numpy as np

    out = {}
    for g in groups:
        mat = np.zeros((2 ** len(g),) * 2)
        for j in jobs:
            (state, p), = [x for x in qexec.distribution(j.circuit).items() if x[1] > 0.5]
            bit = {q: b for q, b in j.circuit.qubit_to_bit_map.items()}
            prepared = dict(zip(j.circuit.bits, state))
            col = int("".join(str(prepared[bit[q]]) for q in g), 2)
            for o, c in counts_of(j.result, [bit[q] for q in g]).items():
                mat[int("".join(map(str, o)), 2), col] += c
        out[tuple(g)] = mat / mat.sum(axis=0)
    return out


def inverted(job, conf, bits):
    """distribution over bits: inverse of the confusion applied to what the job measured"""
    import numpy as np

    bit = job.circuit.qubit_to_bit_map
    order, mats = [], []
    for g, mat in conf.items():
        keep = [m for m, q in enumerate(g) if q in bit]
        if not keep:
            continue
        order += [bit[g[m]] for m in keep]
        idx = [sum((v >> (len(keep) - 1 - a) & 1) << (len(g) - 1 - m) for a, m in enumerate(keep))
               for v in range(2 ** len(keep))]
        sub = mat[np.ix_(idx, idx)]
        mats.append(np.linalg.inv(sub / sub.sum(axis=0)))
    vec = np.zeros(2 ** len(order))
    for o, c in counts_of(job.result, order).items():
        vec[int("".join(map(str, o)), 2)] += c
    full = np.eye(1)
    for m in mats:
        full = np.kron(full, m)
    v = full @ (vec / vec.sum())
    neg = bool((v < -1e-4).any())
    v[v < 0] = 0
    v /= v.sum()
    pos = [order.index(b) for b in bits]
    out = {}
    for i, x in enumerate(v):
        o = tuple(i >> (len(order) - 1 - p) & 1 for p in pos)
        out[o] = out.get(o, 0) + x
    return out, neg


def make(spec):
    from pytket.circuit import Bit, Node, Qubit

    c = new_circuit(spec["ops"])
    qs = [Qubit("q", i) if spec["place"] else Node("node", i) for i in range(spec["n"])]
    for q in qs:
        c.add_qubit(q)
    for b in range(spec["nb"]):
        c.add_bit(Bit("c", b))
    apply_ops(c, spec["ops0"], qs)
    for q, b in spec["mid"]:
        c.Measure(qs[q], Bit("c", b))
    apply_ops(c, spec["ops"], qs)
    for q, b in spec["mid"]:
        # the qubit is used again, so the measurement above is mid-circuit
        c.H(qs[q])
    for q, b in spec["meas"]:
        c.Measure(qs[q], Bit("c", b))
    return c


def run(plan, ctx):
    import numpy as np
    from pytket.architecture import Architecture
    from pytket.circuit import Bit, Node

    from qermit import CircuitShots, MitRes
    from qermit.spam import CorrectionMethod, gen_FullyCorrelated_SPAM_MitRes, gen_UnCorrelated_SPAM_MitRes

    nn = plan["nn"]
    nodes = [Node("node", i) for i in range(nn)]
    readout, joint = {}, []
    for g, x in zip(plan["groups"], plan["noise"]):
        if x["kind"] == "joint":
            joint.append(([nodes[i] for i in g], np.array(x["cols"]).T))
            ctx.probe("joint_errors")
        else:
            ctx.probe("independent_errors")
            for i, (a, b) in zip(g, x["flips"]):
                readout[repr(nodes[i])] = (a, b)
    arch = Architecture([(nodes[i], nodes[i + 1]) for i in range(nn - 1)]) if nn > 1 else None
    if arch is None:
        from pytket.architecture import FullyConnected

        arch = FullyConnected(1, "node")
    dev = SimDevice(ctx, seed=plan["dev_seed"], form=plan["form"], noise=qexec.Noise(readout=readout, joint=joint),
                    architecture=arch, compile_pass=node_placement, mode="sampled" if plan.get("drift") else "exact")
    sizes = [len(g) for g in plan["groups"]]
    if sizes != sorted(sizes, reverse=True):
        ctx.probe("ascending_groups")
    kw = {}
    if plan["method"]:
        kw["correction_method"] = getattr(CorrectionMethod, plan["method"])
        if plan["method"] == "Bayesian":
            ctx.probe("bayesian")
    if plan["user_mitres"]:
        kw["calibration_mitres"] = MitRes(dev, _label="mycal")
        kw["correction_mitres"] = MitRes(dev, _label="mycorr")
    cal_shots = 39999
    if plan["uncorrelated"]:
        ctx.probe("uncorrelated")
        mr = gen_UnCorrelated_SPAM_MitRes(dev, cal_shots, **kw)
    else:
        mr = gen_FullyCorrelated_SPAM_MitRes(dev, cal_shots, [[nodes[i] for i in g] for g in plan["groups"]], **kw)
    objects = [[mr, plan["groups"], False, False]]
    if plan.get("second"):
        objects.append([gen_FullyCorrelated_SPAM_MitRes(dev, cal_shots, [[nodes[i] for i in g] for g in plan["second"]],
                                                        **kw), plan["second"], False, False])
    circuits = [make(s) for s in plan["circuits"]]
    keys = [circuit_key(c) for c in circuits]
    ideal = [qexec.distribution(c) for c in circuits]
    conf = [None] * len(objects)
    for ci, call in enumerate(plan["calls"]):
        lst = call["list"]
        if not lst or any(i >= len(circuits) for i, _ in lst):
            raise PlanInvalid()
        oi = call.get("obj", 0) % len(objects)
        mr, groups, succeeded, failed = objects[oi]
        if oi:
            ctx.probe("second_object")
        extra = {}
        if len(objects) > 1 and call.get("hand") and objects[1 - oi][2]:
            # what was measured for one object is handed to the other
            ctx.probe("characterisation_handed_over")
            extra = {"characterisation": dict(objects[1 - oi][0].get_characterisation())}
            succeeded = groups == objects[1 - oi][1]
            if succeeded:
                conf[oi] = conf[1 - oi]
        if plan.get("drift") and ci:
            ctx.probe("drift")
            dev.noise = qexec.Noise(readout={k: (b, a) for k, (a, b) in readout.items()}, joint=[
                (g, np.eye(len(m)) * 0.9 + m * 0.1) for g, m in joint])
        nf, j0 = len(dev.fired), dev.serial
        dev.faults = {dev.calls + call["fault"][1]: call["fault"][0]} if call["fault"] else {}
        try:
            res = mr.run([CircuitShots(circuits[i], s) for i, s in lst], **extra)
            err = None
        except SimFault as e:
            err = e
        dev.faults = {}
        fired = dev.fired[nf:]
        njobs = dev.serial - j0
        ctx.state(tuple(sizes), tuple(x["kind"] for x in plan["noise"]),
                  tuple(sorted((len(plan["circuits"][i]["meas"]), bool(plan["circuits"][i]["mid"]),
                                plan["circuits"][i]["place"]) for i, _ in lst)), plan["method"],
                  tuple((w, k) for _, k, w in fired), min(ci, 2), succeeded)
        if err is not None:
            ctx.check(bool(fired), "phantom-failure", f"{err}")
            ctx.probe("fault_surfaced")
            if succeeded is False:
                ctx.probe("fault_in_calibration")
            objects[oi][3] = True
            # whatever it holds now, the next run of it need not calibrate if it did
            if extra:
                objects[oi][2] = None
            continue
        ctx.check(not fired, "fault-swallowed", lambda: f"{fired}")
        ctx.check(len(res) == len(lst), "result-count", lambda: f"{len(res)} for {len(lst)}")
        if succeeded is None:
            pass
        elif succeeded:
            ctx.probe("reused")
            ctx.check(njobs == len(lst), "recharacterised",
                      lambda: f"{njobs} jobs for {len(lst)} circuits although characterised before")
        elif not failed:
            ctx.check(njobs > len(lst), "not-characterised", lambda: f"{njobs} jobs for {len(lst)} circuits")
        if failed:
            ctx.probe("retry_ok")
            if succeeded is False and njobs > len(lst):
                ctx.probe("recharacterised_after_failure")
        objects[oi][2] = True
        ran = [j for j in (dev.by_serial(x) for x in range(j0, dev.serial))]
        cal = [j for j in ran if j.shots == cal_shots]
        ctx.check(len(ran) - len(cal) == len(lst) and sorted(j.shots for j in ran if j.shots != cal_shots)
                  == sorted(s for _, s in lst), "jobs", lambda: f"jobs of {[j.shots for j in ran]} shots for "
                  f"{lst} and calibration with {cal_shots}")
        if cal:
            conf[oi] = confusion(cal, [[nodes[q] for q in g] for g in groups])
        jobs = [j for j in ran if j.shots != cal_shots]
        for k, ((i, s), r) in enumerate(zip(lst, res)):
            spec = plan["circuits"][i]
            if spec["mid"]:
                ctx.probe("mid_circuit")
            if len(spec["meas"]) < nn:
                ctx.probe("partial_measure")
            if len({b for _, b in spec["meas"] + spec["mid"]}) < len(spec["meas"] + spec["mid"]):
                ctx.probe("bit_reused")
            if any(x.get("xtalk") for x in plan["noise"]):
                ctx.probe("crosstalk_errors")
                if spec["untouched"]:
                    ctx.probe("crosstalk_partial")
            if spec["place"]:
                ctx.probe("placed_by_compiler")
            written = sorted({b for _, b in spec["meas"] + spec["mid"]})
            bits = [Bit("c", b) for b in written]
            ctx.check(set(bits) <= set(r.c_bits), "bits", lambda: f"result {k} lacks bits: {list(r.c_bits)}, wanted {bits}")
            got = counts_of(r, bits)
            tot = sum(got.values())
            ctx.check(abs(tot - s) <= 2 ** len(written) + 1, "shots", lambda: f"result {k}: {tot} of {s} shots")
            if plan["method"] != "Bayesian" and not spec["mid"] and conf[oi] is not None and jobs[k].shots == s:
                # exactly the inverse of what was measured, negative entries set to zero, scaled to the shots taken
                ref, neg = inverted(jobs[k], conf[oi], bits)
                if neg:
                    ctx.probe("negative_entries")
                for o in set(ref) | set(got):
                    ctx.check(-0.01 <= got.get(o, 0) - ref.get(o, 0) * s <= 1.01, "inversion",
                              lambda: f"result {k}: {got.get(o, 0)} times {o}, inverting the measured confusion gives "
                              f"{ref.get(o, 0) * s}")
            if plan.get("drift"):
                continue
            want = {}
            pos = [circuits[i].bits.index(b) for b in bits]
            for o, p in ideal[i].items():
                kk = tuple(o[j] for j in pos)
                want[kk] = want.get(kk, 0) + p
            d = tv(dist_of(got), want)
            tol = 0.06 if plan["method"] == "Bayesian" else 0.015
            ctx.check(d <= tol, "distribution",
                      lambda: f"result {k}: corrected {dist_of(got)} ideal {want} (distance {d:.4f}), groups {groups}")
    for c, k in zip(circuits, keys):
        ctx.check(circuit_key(c) == k, "input-mutated", "a caller's circuit was altered")
