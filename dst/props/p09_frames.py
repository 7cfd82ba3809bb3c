"""P09: frame randomisation never changes the ideal outcome."""

import random
from collections import Counter

from .. import qexec
from ..common import PlanInvalid, SimFault, apply_ops, circuit_key, counts_of, new_circuit, qubit_list, rand_ops
from ..device import SimDevice, result_from_counts
from .p03_results import placing_pass

ID = "P09"
RUNS = {"quick": 1200, "thorough": 25000}
LEVEL = "exploration"
RULE = "distinct (frame kind, samples, batch, frames drawn, completion order, device fault, runner) tuples"
REAL = ["gen_Frame_Randomisation_MitRes", "FrameRandomisation", "MitRes", "TaskGraph",
        "pytket frame instances (get_all_circuits)"]
STUB = ["device: queue, latency, failures, execution", "choice among the frame instances (simulated entropy)"]
ASSUMPTIONS = ["pytket enumerates the frame instances it would sample from"]
SHRINK_LISTS = ("calls", "circuits", "ops", "list", "meas")
SHRINK_INTS = ("samples",)
PROBES = ["out_of_order", "fault_surfaced", "retry_ok", "pauli", "universal", "one_sample", "uneven_shots",
          "supplied_runner", "placed", "unused_bit", "batch", "noisy", "split_runner", "multi_register", "repeated_entry"]


def n_frames(kind, spec):
    """how many different circuits the frames make of this one"""
    return len({circuit_key(c) for c in all_frames(spec, kind)})


def coincide(kind, spec):
    """chance that two independent draws of a frame make the same circuit"""
    n = Counter(circuit_key(c) for c in all_frames(spec, kind))
    return sum(v * v for v in n.values()) / sum(n.values()) ** 2


def frames_ok(spec, kind):
    """pytket can put frames around this circuit, and they are few enough to enumerate"""
    return 0 < len(all_frames(spec, kind)) <= 4096


def all_frames(spec, kind):
    from pytket.circuit import OpType
    from pytket.passes import AutoRebase
    from pytket.tailoring import PauliFrameRandomisation, UniversalFrameRandomisation

    c = make(0, spec)
    if kind == "universal":
        AutoRebase({OpType.CX, OpType.Rz, OpType.H}).apply(c)
        fr = UniversalFrameRandomisation
    else:
        AutoRebase({OpType.CX, OpType.Rz, OpType.H, OpType.S}).apply(c)
        fr = PauliFrameRandomisation
        if spec["n"] * (c.n_gates_of_type(OpType.Rz) + 1) > 6:
            return []
    try:
        return fr().get_all_circuits(c)
    except RuntimeError:
        return []


def gen(rng, tier, index):
    plan = gen1(rng, tier, index)
    plan["circuits"] = [c for c in plan["circuits"] if frames_ok(c, plan["kind"])]
    n = len(plan["circuits"])
    if n == 0:
        return gen(rng, tier, index)
    if plan["runner"] == "split":
        plan["form"] = "shots"
    for call in plan["calls"]:
        call["list"] = [x for x in call["list"] if x[0] < n] or [[rng.randrange(n), 10]]
    wide = 0
    if plan["kind"] == "universal" and rng.random() < 0.25:
        # one frame for the whole circuit: wider circuits have more of them
        wide = rng.choice([4, 4, 5])
        ops = [["H", 0]] + [["CX", q, q + 1] for q in range(wide - 1)]
        plan["circuits"] = [{"n": wide, "nb": wide, "ops": ops, "meas": [[q, wide - 1 - q] for q in range(wide)], "two": False}]
        n = 1
    many = [k for k, c in enumerate(plan["circuits"]) if coincide(plan["kind"], c) < 1 / 200]
    if many and (wide or rng.random() < 0.4):
        # the draws themselves: many frames to draw from, the same circuit more than once in a batch
        plan.update(samples=rng.choice([2, 3, 7]), runner="default", noisy=False)
        plan["calls"] = []
        twice = rng.random() < 0.5 and plan["samples"] < 7
        for _ in range(16 if plan["samples"] == 7 else 10):
            lst = [[rng.choice(many), 6]] * (2 if twice else 1)
            plan["calls"].append({"list": lst, "fault": None})
    return plan


def gen1(rng, tier, index):
    kind = rng.choice(["pauli", "universal"])
    circuits = []
    for _ in range(rng.randint(1, 3)):
        n = rng.randint(1, 3)
        nb = rng.randint(1, 4)
        ops = rand_ops(rng, n, rng.randint(0, 7), one=["H", "S"], rot=[], two=["CX", "CX", "CZ"])
        rots = 3 if kind == "universal" else {1: 3, 2: 2, 3: 1}[n]
        for _ in range(rng.randint(0, rots)):
            ops.insert(rng.randint(0, len(ops)), rng.choice(
                [["X", rng.randrange(n)], ["Rz", rng.choice([0.25, 0.3, 0.7, 1.3]), rng.randrange(n)],
                 ["Rx", rng.choice([0.25, 0.3, 1.0]), rng.randrange(n)], ["Sdg", rng.randrange(n)]]))
        if not any(o[0] in ("H", "CX") for o in ops):
            ops.append(["H", rng.randrange(n)])  # frames go around at least one gate
        bits = list(range(nb))
        rng.shuffle(bits)
        qs = list(range(n))
        rng.shuffle(qs)
        k = rng.randint(1, min(n, nb))
        circuits.append({"n": n, "nb": nb, "ops": ops, "meas": [[qs[i], bits[i]] for i in range(k)],
                         "two": rng.random() < 0.25})
    calls = []
    for _ in range(rng.randint(1, 2)):
        lst = rng.sample(range(len(circuits)), rng.randint(1, len(circuits)))
        calls.append({"list": [[i, rng.choice([1, 2, 7, 40, 100, 333])] for i in lst],
                      "fault": [rng.choice(["error", "timeout", "after_submit"]), rng.randint(0, 20)]
                      if rng.random() < 0.25 else None})
    return {"kind": kind, "circuits": circuits, "calls": calls, "samples": rng.choice([1, 2, 3, 4, 5, 7]),
            "runner": rng.choice(["default", "default", "compiled", "place", "split"]),
            "noisy": rng.random() < 0.4, "form": rng.choice(["counts", "shots"]), "dev_seed": rng.getrandbits(30)}


def make(i, spec):
    from pytket.circuit import Bit

    c = new_circuit(spec["ops"])
    qs = qubit_list(spec["n"])
    for q in qs:
        c.add_qubit(q)

    # the register name tells which entry of the batch a job belongs to
    def bit(b):
        return Bit(f"b{i}x", b) if spec["two"] and b % 2 else Bit(f"b{i}", b)

    for b in range(spec["nb"]):
        c.add_bit(bit(b))
    apply_ops(c, spec["ops"], qs)
    if not spec["meas"] or not any(o[0] in ("H", "CX") for o in spec["ops"]):
        raise PlanInvalid()
    for q, b in spec["meas"]:
        c.Measure(qs[q], bit(b))
    return c


def origin(bits):
    return {int(b.reg_name.rstrip("x")[1:]) for b in bits}


def run(plan, ctx):
    from qermit import CircuitShots, MitRes
    from qermit.frame_randomisation import FrameRandomisation, gen_Frame_Randomisation_MitRes
    from qermit.taskgraph import gen_compiled_MitRes, gen_shot_split_MitRes

    circuits = [make(i, s) for i, s in enumerate(plan["circuits"])]
    keys = [circuit_key(c) for c in circuits]
    dists = [qexec.distribution(c) for c in circuits]
    samples = plan["samples"]
    runner = plan["runner"]

    def executor(dev, j):
        if not plan["noisy"]:
            return None
        ctx.fault("noise")
        r = random.Random(plan["dev_seed"] ^ (j.serial * 7919 + 13))
        counts = Counter(tuple(r.randint(0, 1) for _ in j.circuit.bits) for _ in range(j.shots))
        return result_from_counts(counts, list(j.circuit.bits), plan["form"], r)

    dev = SimDevice(ctx, seed=plan["dev_seed"], form=plan["form"], executor=executor,
                    compile_pass=placing_pass if runner == "place" else None)
    kw = {"frame_randomisation": getattr(FrameRandomisation, "PauliFrameRandomisation" if plan["kind"] == "pauli"
                                         else "UniversalFrameRandomisation")}
    inner = samples
    limit = None
    user = None
    chance = 1.0  # of independent draws giving what was seen, while every draw of an entry was the same
    varied = False
    # chance of two instances of an entry being equal, over the entries where that was seen
    repeats, entries = 1.0, 0
    if runner == "compiled":
        user = gen_compiled_MitRes(dev, 0)
    elif runner == "split":
        # a workflow of the user's own
        limit = 4
        user = gen_shot_split_MitRes(dev, limit)
    if user is not None:
        kw["mitres"] = user
        shape = (len(list(user.tasks)), sorted(t._label for t in user.tasks))
        ctx.probe("supplied_runner")
    if runner == "place":
        ctx.probe("placed")
    ctx.probe(plan["kind"])
    if samples == 1:
        ctx.probe("one_sample")
    if plan["noisy"]:
        ctx.probe("noisy")
    mr = gen_Frame_Randomisation_MitRes(dev, samples, **kw)
    if user is not None:
        now = (len(list(user.tasks)), sorted(t._label for t in user.tasks))
        ctx.check(now == shape, "supplied-runner-changed", lambda: f"the workflow supplied was {shape}, is now {now}")
    failed = False
    for call in plan["calls"]:
        lst = call["list"]
        if not lst or any(i >= len(circuits) for i, _ in lst) or len({tuple(x) for x in lst}) > len({i for i, _ in lst}):
            raise PlanInvalid()
        times = Counter(i for i, _ in lst)
        if len(times) < len(lst):
            ctx.probe("repeated_entry")
        nf, j0, c0 = len(dev.fired), dev.serial, len(dev.completion)
        dev.faults = {dev.calls + call["fault"][1]: call["fault"][0]} if call["fault"] else {}
        try:
            res = mr.run([CircuitShots(circuits[i], s) for i, s in lst])
            err = None
        except SimFault as ex:
            err = ex
        dev.faults = {}
        fired = dev.fired[nf:]
        order = [s - j0 for s in dev.completion[c0:]]
        jobs = dev.log[j0:]
        ctx.state(plan["kind"], samples, len(lst), runner, order == sorted(order), tuple((w, k) for _, k, w in fired),
                  tuple(circuit_key(c) for _, c, _ in jobs[:3]))
        if order != sorted(order):
            ctx.probe("out_of_order")
        for c, k in zip(circuits, keys):
            ctx.check(circuit_key(c) == k, "input-mutated", "a caller's circuit was altered")
        if err is not None:
            ctx.check(bool(fired), "phantom-failure", f"{err}")
            ctx.probe("fault_surfaced")
            failed = True
            continue
        ctx.check(not fired, "fault-swallowed", lambda: f"{fired}")
        if failed:
            ctx.probe("retry_ok")
        if len(lst) > 1:
            ctx.probe("batch")
        ctx.check(len(res) == len(lst), "result-count", lambda: f"{len(res)} for {len(lst)}")
        mine = {}
        for ser, c, s in jobs:
            o = origin(c.bits)
            ctx.check(len(o) == 1, "bits", lambda: f"job over {c.bits}")
            mine.setdefault(o.pop(), []).append((ser, c, s))
        judged = set()
        for k, ((i, s), r) in enumerate(zip(lst, res)):
            spec, c = plan["circuits"][i], circuits[i]
            per = -(-s // samples)
            if s % samples:
                ctx.probe("uneven_shots")
            if len(spec["meas"]) < spec["nb"]:
                ctx.probe("unused_bit")
            if len({b.reg_name for b in c.bits}) > 1:
                ctx.probe("multi_register")
            own = mine.get(i, [])
            if limit:
                ctx.probe("split_runner")
                # each instance is cut into jobs of at most `limit` shots
                ctx.check(len(own) == times[i] * samples * -(-per // limit)
                          and sum(x[2] for x in own) == times[i] * samples * per,
                          "sample-count", lambda: f"entry {k}: {[x[2] for x in own]} for {samples} x {per}")
            else:
                ctx.check(len(own) == inner * times[i], "sample-count",
                          lambda: f"entry {k}: {len(own)} frame jobs, want {inner * times[i]}")
                ctx.check(all(x[2] == per for x in own), "sample-shots",
                          lambda: f"entry {k}: jobs of {[x[2] for x in own]} shots, want {per} each")
            total = sum(x[2] for x in own)
            if len({circuit_key(x[1]) for x in own}) > 1:
                varied = True
            elif runner in ("default", "split"):
                chance *= float(n_frames(plan["kind"], spec)) ** -(samples - 1)
            ctx.check(set(r.c_bits) == set(c.bits), "bits", lambda: f"result {k} over {list(r.c_bits)}, circuit {c.bits}")
            got = Counter()
            for (i2, _), r2 in zip(lst, res):
                if i2 == i:  # which job serves which of two equal entries is left open
                    got += counts_of(r2, c.bits)
                    ctx.check(sum(counts_of(r2, c.bits).values()) * times[i] == total, "shots",
                              lambda: f"entry {k}: {r2.get_counts()} of {total} over {times[i]} equal entries")
            if samples * times[i] > 1 and runner == "default" and i not in judged:
                judged.add(i)
                pairs = len(own) * (len(own) - 1) / 2
                entries += 1
                if len({circuit_key(x[1]) for x in own}) < len(own):
                    repeats *= min(1.0, pairs * coincide(plan["kind"], spec))
            want = Counter()
            for ser, jc, _ in own:
                want += counts_of(dev.by_serial(ser).result, c.bits)
                # every instance computes what the circuit computes
                d = qexec.distribution(jc)
                at = [jc.bits.index(b) for b in c.bits]
                d = {tuple(o[x] for x in at): p for o, p in d.items()}
                worst = max(abs(d.get(o, 0) - dists[i].get(o, 0)) for o in set(d) | set(dists[i]))
                ctx.check(worst < 1e-6, "frame-changes-outcome",
                          lambda: f"entry {k}: an instance yields {d}, the circuit {dists[i]}")
            ctx.check(got == want, "collation", lambda: f"entry {k}: {dict(got)}, its own jobs measured {dict(want)}")
            ctx.check(sum(got.values()) == total, "shots", lambda: f"entry {k}: {sum(got.values())} of {total}")
            if not plan["noisy"]:
                worst = max(abs(got.get(o, 0) - dists[i].get(o, 0) * total) for o in set(got) | set(dists[i]))
                ctx.check(worst <= len(own) + 1e-6, "distribution", lambda: f"entry {k}: {dict(got)} vs {dists[i]} x {total}")
    ctx.check(repeats * 2.0**entries > 1e-10, "frames-not-independent",
              lambda: f"instances repeat in entry after entry, chance {repeats}, {entries} entries")
    # the instances of one entry are drawn one by one, not one draw repeated
    ctx.check(varied or chance > 1e-12, "frames-not-drawn", lambda: f"every entry repeats a single frame, chance {chance}")
