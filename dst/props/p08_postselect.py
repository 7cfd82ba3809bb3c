"""P08: postselection and leakage detection drop exactly the flagged shots."""

import random
from collections import Counter

from ..common import (PlanInvalid, SimFault, apply_ops, circuit_key, counts_of, dist_of, new_circuit, qubit_list,
                      rand_ops, tv)
from .. import qexec
from ..device import SimDevice, result_from_counts
from .p03_results import placing_pass

ID = "P08"
RUNS = {"quick": 1400, "thorough": 30000}
LEVEL = "fault_enumeration"
RULE = ("distinct (mode, batch size, bit roles, leak sites by qubit/time class, spare qubits, completion order, "
        "device fault) tuples")
REAL = ["PostselectMgr", "gen_postselect_mitres", "get_leakage_detection_mitres", "MitRes", "TaskGraph",
        "pytket-quantinuum get_detection_circuit"]
STUB = ["device: queue, latency, failures, leakage of qubits"]
ASSUMPTIONS = ["a leaked qubit takes part in no gate, reads 1, and is brought back by reset",
               "leakage strikes before a qubit's check or after it, not between the two gates of the check",
               "the required value of postselection bits is 0 (the only one the library offers)"]
SHRINK_LISTS = ("calls", "circuits", "ops", "list", "leaks", "meas", "mid", "compute", "post")
PROBES = ["nothing_survives", "all_survive", "merge", "leak_detected", "leak_after_check", "leak_unchecked",
          "no_spare_qubits", "batch_of_different_sizes", "fault_surfaced", "retry_ok", "unused_bit", "mid_circuit",
          "compiled", "refused_overlap"]

CREGS = ["c", "d"]


def gen(rng, tier, index):
    mode = rng.choice(["post", "post", "leak", "leak", "leak"])
    circuits = []
    nb = rng.randint(1, 4)
    for _ in range(rng.randint(1, 3)):
        n = rng.randint(1, 4)
        if mode == "leak":
            nb = n + rng.choice([0, 0, 0, 1])
        bits = list(range(nb))
        rng.shuffle(bits)
        qs = list(range(n))
        rng.shuffle(qs)
        k = rng.randint(1, min(n, nb))
        mid = []
        if nb > k and rng.random() < 0.3:
            mid = [[rng.randrange(n), bits[k]]]
        circuits.append({"n": n, "nb": nb, "ops": rand_ops(rng, n, rng.randint(0, 7)),
                         "ops0": rand_ops(rng, n, rng.randint(0, 4)), "mid": mid,
                         "breg": rng.choice(CREGS) if mode == "leak" else "c",
                         "meas": [[qs[i], bits[i]] for i in range(k)]})
    roles = list(range(nb))
    rng.shuffle(roles)
    a = rng.randint(0, nb)
    b = rng.randint(max(a, 1), nb)
    calls = []
    for _ in range(rng.randint(1, 2)):
        lst = []
        for _ in range(rng.randint(1, 4)):
            i = rng.randrange(len(circuits))
            leaks = []
            if mode == "leak":
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    sites = []
                    for _ in range(rng.choice([1, 1, 2])):
                        sites.append([rng.choice(circuits[i]["meas"])[1], rng.choice(["early", "early", "late"]),
                                      rng.randrange(12)])
                    leaks.append({"shots": rng.randint(1, 40), "sites": sites})
            lst.append({"c": i, "shots": rng.choice([1, 3, 50, 200, 333]), "leaks": leaks})
        calls.append({"list": lst, "fault": [rng.choice(["error", "timeout", "after_submit"]), rng.randint(0, 9)]
                      if rng.random() < 0.3 else None})
    return {"mode": mode, "circuits": circuits, "calls": calls, "compute": roles[:a], "post": roles[a:b],
            "runner": rng.choice(["default", "default", "compiled", "place"]),
            "spare": rng.choice([0, 0, 1, 2, 4]), "exact": rng.random() < 0.5,
            "form": rng.choice(["counts", "shots"]), "dev_seed": rng.getrandbits(30)}


def make(spec):
    from pytket.circuit import Bit

    c = new_circuit(spec["ops"])
    reg = spec["breg"]
    qs = qubit_list(spec["n"])
    for q in qs:
        c.add_qubit(q)
    for b in range(spec["nb"]):
        c.add_bit(Bit(reg, b))
    apply_ops(c, spec["ops0"], qs)
    for q, b in spec["mid"]:
        c.Measure(qs[q], Bit(reg, b))
    apply_ops(c, spec["ops"], qs)
    for q, b in spec["mid"]:
        c.X(qs[q])
    for q, b in spec["meas"]:
        c.Measure(qs[q], Bit(reg, b))
    if not spec["meas"]:
        raise PlanInvalid()
    return c


def leak_circuit(circ, sites, ctx):
    """the circuit as executed when the given qubits leak; returns (circuit, any checked leak)"""
    from pytket.circuit import Bit, Circuit, OpType

    cmds = circ.get_commands()
    reg = next(b.reg_name for b in circ.bits if b.reg_name in CREGS)
    at = {}  # command index -> qubits leaking just before it
    detected = False
    for bit, when, k in sites:
        b = Bit(reg, bit)
        final = [i for i, c in enumerate(cmds) if c.op.type == OpType.Measure and c.bits[0] == b]
        if not final:
            continue
        fin = final[-1]
        q = cmds[fin].qubits[0]
        on_q = [i for i, c in enumerate(cmds[: fin + 1]) if q in c.qubits]
        zz = [i for i in on_q if cmds[i].op.type == OpType.ZZMax]
        if when == "late":
            t = fin
            ctx.probe("leak_after_check")
        else:
            before = [i for i in on_q if not zz or i <= zz[0]]
            t = before[k % len(before)]
            if zz:
                detected = True
                ctx.probe("leak_detected")
            else:
                ctx.probe("leak_unchecked")
        at.setdefault(t, set()).add(q)
    out = Circuit()
    for q in circ.qubits:
        out.add_qubit(q)
    for b in circ.bits:
        out.add_bit(b)
    leaked = set()
    for i, c in enumerate(cmds):
        leaked |= at.get(i, set())
        hit = leaked & set(c.qubits)
        t = c.op.type
        if t == OpType.Barrier:
            continue
        if t == OpType.Reset:
            leaked -= hit
            out.add_gate(OpType.Reset, [c.qubits[0]])
        elif not hit:
            out.add_gate(c.op, c.args)
        elif t == OpType.Measure:
            out.add_c_setbits([True], [c.bits[0]])
    return out, detected


def run(plan, ctx):
    from pytket.architecture import FullyConnected
    from pytket.circuit import Bit

    from qermit import CircuitShots, MitRes
    from qermit.leakage_detection import get_leakage_detection_mitres
    from qermit.postselection import PostselectMgr, gen_postselect_mitres
    from qermit.taskgraph import gen_compiled_MitRes

    mode = plan["mode"]
    circuits = [make(s) for s in plan["circuits"]]
    keys = [circuit_key(c) for c in circuits]
    nmax = max(s["n"] for s in plan["circuits"])
    current = {"base": 0, "list": []}
    expected_drop = {}

    def executor(dev, j):
        k = j.serial - current["base"]
        if mode != "leak" or not 0 <= k < len(current["list"]):
            return None
        item = current["list"][k]
        left = item["shots"]
        total = Counter()
        drop = 0
        for lk in item["leaks"]:
            m = min(lk["shots"], left)
            if not m:
                continue
            left -= m
            c2, det = leak_circuit(j.circuit, lk["sites"], ctx)
            ctx.fault("leakage", m)
            drop += m if det else 0
            total += Counter(sampled(c2, m, dev, j))
        if left:
            total += Counter(sampled(j.circuit, left, dev, j))
        expected_drop[k] = drop
        return result_from_counts(total, list(j.circuit.bits), plan["form"], random.Random(j.serial))

    def sampled(c, m, dev, j):
        d = qexec.distribution(c)
        if plan["exact"]:
            return qexec.apportion(d, m)
        from ..seams import harness_rng

        ks = sorted(d)
        g = harness_rng([plan["dev_seed"], j.serial, m])
        return {k: int(v) for k, v in zip(ks, g.multinomial(m, [d[x] for x in ks])) if v}

    nodes = max(nmax + plan["spare"], 2)
    dev = SimDevice(ctx, seed=plan["dev_seed"], mode="exact" if plan["exact"] else "sample", form=plan["form"],
                    architecture=FullyConnected(nodes), executor=executor,
                    compile_pass=placing_pass if plan["runner"] == "place" else None)
    kw = {}
    if plan["runner"] != "default":
        kw["mitres"] = gen_compiled_MitRes(dev, 0)
        ctx.probe("compiled")
    nb = plan["circuits"][0]["nb"]
    if mode == "post":
        if any(s["nb"] != nb for s in plan["circuits"]) or set(plan["compute"]) & set(plan["post"]):
            raise PlanInvalid()
        comp = [Bit("c", b) for b in plan["compute"]]
        post = [Bit("c", b) for b in plan["post"]]
        if any(b >= nb for b in plan["compute"] + plan["post"]) or not comp + post:
            raise PlanInvalid()
        mgr = PostselectMgr(compute_cbits=list(comp), postselect_cbits=list(post))
        mr = gen_postselect_mitres(dev, mgr, **kw)
        if comp and post:
            try:
                PostselectMgr(compute_cbits=comp + post[:1], postselect_cbits=post)
                ctx.check(False, "overlap-accepted", "a bit that is both computed and postselected was accepted")
            except Exception as e:  # noqa: BLE001
                if type(e).__name__ == "Violation":
                    raise
                ctx.probe("refused_overlap")
    else:
        mr = get_leakage_detection_mitres(dev, **kw)
        if plan["spare"] == 0:
            ctx.probe("no_spare_qubits")
    failed = False
    for call in plan["calls"]:
        lst = call["list"]
        if not lst or any(e["c"] >= len(circuits) for e in lst):
            raise PlanInvalid()
        for e in lst:
            bits = {b for _, b in plan["circuits"][e["c"]]["meas"]}
            if any(st[0] not in bits for lk in e["leaks"] for st in lk["sites"]):
                raise PlanInvalid()
        current["base"], current["list"] = dev.serial, lst
        expected_drop.clear()
        nf, j0, c0 = len(dev.fired), dev.serial, len(dev.completion)
        dev.faults = {dev.calls + call["fault"][1]: call["fault"][0]} if call["fault"] else {}
        try:
            res = mr.run([CircuitShots(circuits[e["c"]], e["shots"]) for e in lst])
            err = None
        except SimFault as ex:
            err = ex
        dev.faults = {}
        fired = dev.fired[nf:]
        order = [s - j0 for s in dev.completion[c0:]]
        ctx.state(mode, len(lst), len(plan["compute"]), len(plan["post"]), plan["spare"], plan["runner"],
                  tuple(sorted((st[1], st[2] % 4) for e in lst for lk in e["leaks"] for st in lk["sites"])),
                  order == sorted(order), tuple((w, k) for _, k, w in fired))
        if err is not None:
            ctx.check(bool(fired), "phantom-failure", f"{err}")
            ctx.probe("fault_surfaced")
            failed = True
            continue
        ctx.check(not fired, "fault-swallowed", lambda: f"{fired}")
        if failed:
            ctx.probe("retry_ok")
        ctx.check(len(res) == len(lst), "result-count", lambda: f"{len(res)} for {len(lst)}")
        jobs = dev.log[j0:]
        ctx.check(len(jobs) == len(lst), "job-count", lambda: f"{len(jobs)} jobs for {len(lst)} circuits")
        if len({plan["circuits"][e["c"]]["n"] for e in lst}) > 1:
            ctx.probe("batch_of_different_sizes")
        for k, (e, r, job) in enumerate(zip(lst, res, jobs)):
            spec = plan["circuits"][e["c"]]
            raw = dev.by_serial(job[0]).result
            if spec["mid"]:
                ctx.probe("mid_circuit")
            ctx.check(job[2] == e["shots"], "job-shots", lambda: f"job of {job[2]} shots for {e['shots']}")
            ctx.check(job[1].n_qubits <= nodes, "too-many-qubits",
                      lambda: f"job {k} needs {job[1].n_qubits} qubits, the device has {nodes}")
            if mode == "post":
                keep = comp
                flags = post
            else:
                keep = circuits[e["c"]].bits
                written = {b for _, b in spec["meas"] + spec["mid"]}
                if len(written) < spec["nb"]:
                    ctx.probe("unused_bit")
                flags = [b for b in raw.c_bits if b.reg_name not in CREGS]
                # measured bits must be reported; a bit nothing is written to may be left out
                keep = [b for b in keep if b in raw.c_bits]
                ctx.check({Bit(spec["breg"], b) for b in written} <= set(keep), "bits", lambda: f"{keep} lacks {written}")
            want = Counter()
            n_all = 0
            for o, v in counts_of(raw, keep + flags).items():
                n_all += v
                if not any(o[len(keep):]):
                    want[o[: len(keep)]] += v
            got = reported(r, keep, ctx, k)
            if not want:
                ctx.probe("nothing_survives")
            if sum(want.values()) == n_all:
                ctx.probe("all_survive")
            ctx.check(got == want, "filter", lambda: f"result {k}: {dict(got)}, the flagged shots removed leaves {dict(want)}")
            if mode == "leak":
                ctx.check(sum(got.values()) == e["shots"] - expected_drop[k], "leak-accounting",
                          lambda: f"result {k}: {sum(got.values())} of {e['shots']} kept, {expected_drop[k]} leaked before their check")
                if not e["leaks"] and plan["exact"]:
                    d = qexec.distribution(circuits[e["c"]])
                    pos = [circuits[e["c"]].bits.index(b) for b in keep]
                    ideal = {}
                    for o, p in d.items():
                        ideal[tuple(o[i] for i in pos)] = ideal.get(tuple(o[i] for i in pos), 0) + p
                    worst = max(abs(got.get(o, 0) - ideal.get(o, 0) * e["shots"]) for o in set(got) | set(ideal))
                    ctx.check(worst <= 1 + 2 ** len(flags), "distribution",
                              lambda: f"result {k}: {dict(got)}, ideal {ideal} x {e['shots']}")
            else:
                merged = mgr.merge_result(raw)
                allm = Counter()
                for o, v in counts_of(raw, keep).items():
                    allm[o] += v
                ctx.probe("merge")
                ctx.check(reported(merged, keep, ctx, k) == allm, "merge", lambda: f"merged {merged} want {dict(allm)}")
                direct = reported(mgr.postselect_result(raw), keep, ctx, k)
                ctx.check(direct == want, "filter", lambda: f"postselect_result gives {dict(direct)}, want {dict(want)}")
    for c, k in zip(circuits, keys):
        ctx.check(circuit_key(c) == k, "input-mutated", "a caller's circuit was altered")


def reported(r, keep, ctx, k):
    """counts of a result; a result without any data holds no shots"""
    if not (r.contains_measured_results or r.contains_state_results):
        return Counter()
    ctx.check(set(keep) == set(r.c_bits), "bits", lambda: f"result {k} is over {list(r.c_bits)}, want {keep}")
    return Counter({o: v for o, v in counts_of(r, keep).items() if v})
