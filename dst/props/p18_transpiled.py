"""P18: randomised-circuit sampling returns exactly the shots asked for."""

import random
from collections import Counter

import numpy as np

from .. import pool, qexec
from ..common import PlanInvalid, SimFault, apply_ops, circuit_key, counts_of, new_circuit
from ..device import SimAer
from .p16_faults import LETTERS, model_of

ID = "P18"
RUNS = {"quick": 700, "thorough": 30000}
LEVEL = "schedule_exploration"
RULE = ("distinct (workers, batch size, shots, bits asked for, call, completion order, worker crash, simulator fault, "
        "number of backends, retrieval order) tuples")
REAL = ["TranspilerBackend", "MockQuantinuumBackend", "NoisyAerBackend", "PauliErrorTranspile", "MitRes", "TaskGraph"]
STUB = ["multiprocessing.Pool: arguments and results pickled, completion order and worker deaths chosen by the simulator",
        "AerBackend: exact distributions sampled with a seed, submission and retrieval may fail"]
ASSUMPTIONS = ["worker processes start from the state of the parent (fork)", "the noise Qiskit Aer adds is not simulated"]
SHRINK_LISTS = ("circuits", "ops", "meas", "steps", "subs")
SHRINK_INTS = ("shots", "batch", "cores")
PROBES = ["sequential", "workers", "several_batches", "exact_batches", "one_batch", "out_of_order", "worker_crash",
          "simulator_fault", "retry_ok", "subset_of_bits", "reordered_bits", "all_bits", "unwritten_bit", "no_shots",
          "interleaved", "two_backends", "own_store", "batch_call", "run_circuit", "get_counts", "mitres", "noise_model",
          "quantum_outcomes", "mock", "foreign_handle", "frequency"]


def gen(rng, tier, index):
    mode = rng.choice(["backend"] * 6 + ["mock", "noise"])
    circuits = []
    for _ in range(rng.randint(1, 3)):
        n = rng.randint(2, 5)
        nb = n + rng.choice([0, 0, 1])
        bits = list(range(nb))
        rng.shuffle(bits)
        classical = rng.random() < 0.75
        ops = []
        for _ in range(rng.randint(0, 6)):
            if rng.random() < 0.4:
                ops.append(["X", rng.randrange(n)])
            elif rng.random() < 0.6 or classical:
                ops.append(["CX"] + rng.sample(range(n), 2))
            else:
                ops.append([rng.choice(["H", "V"]), rng.randrange(n)])
        if not classical:
            ops.insert(0, ["H", rng.randrange(n)])
        circuits.append({"n": n, "nb": nb, "ops": ops, "meas": [[q, bits[q]] for q in range(n)][: rng.randint(1, n)],
                         "reg": rng.choice(["q", "q", "node"]), "breg": rng.choice(["c", "c", "out", "m_2"]),
                         "two": rng.random() < 0.3})
    backends = [{"cores": rng.choice([1, 1, 2, 3, 4]), "batch": rng.choice([1, 2, 3, 4, 5, 7, 1000]),
                 "store": rng.random() < 0.3} for _ in range(rng.choice([1, 1, 2, 3]))]
    steps = []
    for _ in range(rng.randint(1, 5)):
        kind = rng.choice(["submit", "submit", "counts", "run", "batch", "mitres"])
        b = rng.randrange(len(backends))
        m = backends[b]["batch"]
        subs = []
        for _ in range(rng.randint(1, 3) if kind in ("batch", "mitres") else 1):
            s = rng.choice([1, 2, 3, 5, 8, 12, m, 2 * m, m + 1, max(1, m - 1)])
            subs.append({"c": rng.randrange(len(circuits)), "shots": min(s, 15)})
        steps.append({"kind": kind, "b": b, "subs": subs, "pick": rng.getrandbits(20),
                      "bits": rng.choice(["all", "none", "subset", "reversed"]), "crash": rng.randint(0, 4)
                      if rng.random() < 0.2 else None, "fault": rng.randint(0, 6) if rng.random() < 0.12 else None,
                      "fetch": rng.random() < 0.5})
        if kind == "counts" and rng.random() < 0.08:
            steps[-1]["subs"][0]["shots"] = 0
    return {"mode": mode, "circuits": circuits, "backends": backends, "steps": steps, "seed": rng.getrandbits(40),
            "clifford": [rng.choice("XYZ"), rng.choice([0.3, 0.5, 1.0])]}


def make(spec):
    from pytket.circuit import Bit, Qubit

    if not spec["meas"]:
        raise PlanInvalid()
    c = new_circuit(spec["ops"])
    qs = [Qubit(spec["reg"], i) for i in range(spec["n"])]
    for q in qs:
        c.add_qubit(q)
    bits = [Bit(spec["breg"] if not spec["two"] or i % 2 else "aux", i) for i in range(spec["nb"])]
    for b in bits:
        c.add_bit(b)
    apply_ops(c, spec["ops"], qs)
    for q, b in spec["meas"]:
        c.Measure(qs[q], bits[b])
    return c


def randomiser(made, rng):
    """a compiler pass that flips qubits at random just before they are measured and remembers what it did"""
    from pytket.circuit import OpType
    from pytket.passes import CustomPass

    def transform(circuit):
        out = qexec.new_like(circuit)
        flips = {}
        for c in circuit.get_commands():
            if c.op.type == OpType.Measure:
                q = c.qubits[0]
                flips[q] = rng.randrange(2)
                if flips[q]:
                    out.X(q)
            out.add_gate(c.op, c.args)
        made.append(qexec.distribution(out))
        return out

    return CustomPass(transform)


def run(plan, ctx):
    if not plan["circuits"] or not plan["backends"] or not plan["steps"]:
        raise PlanInvalid()
    if any(b["cores"] < 1 or b["batch"] < 1 for b in plan["backends"]):
        raise PlanInvalid()
    for s in plan["steps"]:
        if s["b"] >= len(plan["backends"]) or not s["subs"] or any(
                x["c"] >= len(plan["circuits"]) or (x["shots"] < 1 and s["kind"] != "counts") for x in s["subs"]):
            raise PlanInvalid()
    SimAer.CTX, SimAer.LOG, SimAer.FAULTS = ctx, [], {}
    pool.reset(plan["seed"])
    {"backend": backend, "mock": mock, "noise": noise}[plan["mode"]](plan, ctx)


def bits_for(step, circ):
    bits = list(circ.bits)
    r = random.Random(step["pick"])
    if step["bits"] == "all":
        return bits
    if step["bits"] == "none":
        return None
    if step["bits"] == "reversed":
        return bits[::-1]
    return r.sample(bits, r.randint(1, len(bits)))


def contained(counts, dists, bits, order):
    """can the shots be the outcomes of distinct instances?  (exact matching of shots to instances)"""
    left = list(range(len(dists)))
    ix = [bits.index(b) for b in order]
    opts = [{tuple(k[i] for i in ix) for k, v in d.items() if v > 1e-9} for d in dists]
    shots = [k for k, v in counts.items() for _ in range(v)]
    owner = {}

    def place(s, seen):
        for i in left:
            if shots[s] in opts[i] and i not in seen:
                seen.add(i)
                if i not in owner or place(owner[i], seen):
                    owner[i] = s
                    return True
        return False

    return all(place(s, set()) for s in range(len(shots)))


def ordered(result, bits):
    return counts_of(result, bits)


def backend(plan, ctx):
    from qermit import CircuitShots, MitRes
    from qermit.noise_model import TranspilerBackend

    circuits = [make(s) for s in plan["circuits"]]
    keys = [circuit_key(c) for c in circuits]
    rng = random.Random(plan["seed"])
    made, backs, stores = [], [], []
    for b in plan["backends"]:
        ms = []
        kw = {}
        store = {} if b["store"] else None
        if store is not None:
            kw["result_dict"] = store
            ctx.probe("own_store")
        made.append(ms)
        stores.append(store)
        backs.append(TranspilerBackend(randomiser(ms, rng), max_batch_size=b["batch"], n_cores=b["cores"], **kw))
    if len(backs) > 1:
        ctx.probe("two_backends")
    kept = []  # (backend, handle, circuit, counts at first retrieval, instances)
    for step in plan["steps"]:
        b = step["b"]
        spec, back, ms = plan["backends"][b], backs[b], made[b]
        cs = [circuits[x["c"]] for x in step["subs"]]
        shots = [x["shots"] for x in step["subs"]]
        kind = step["kind"]
        ctx.probe("workers" if spec["cores"] > 1 else "sequential")
        s0, m = shots[0], spec["batch"]
        ctx.probe("no_shots" if not s0 else "one_batch" if s0 < m else "exact_batches" if s0 % m == 0 else "several_batches")
        order = bits_for(step, cs[0]) if kind == "counts" else list(cs[0].bits)

        def call():
            if kind == "counts":
                if order is None:
                    return [back.get_counts(cs[0], s0)]
                return [back.get_counts(cs[0], s0, cbits=order)]
            if kind == "run":
                return [back.run_circuit(cs[0], s0)]
            if kind == "submit":
                return [back.process_circuit(cs[0], s0)]
            if kind == "batch":
                return back.process_circuits(cs, shots)
            return MitRes(back).run([CircuitShots(c, s) for c, s in zip(cs, shots)])

        del ms[:]
        start = len(pool.SCHED["order"])
        if step["crash"] is not None and spec["cores"] > 1:
            pool.SCHED["crash"] = {pool.SCHED["serial"] + step["crash"]}
        if step["fault"] is not None:
            SimAer.FAULTS.clear()
            for x in (TranspilerBackend.backend,):
                x.faults = {x.calls + step["fault"]: "error"} if spec["cores"] == 1 else {}
            if spec["cores"] > 1:
                SimAer.FAULTS[step["fault"] % 2] = "error"  # hits the workers' simulators
                ctx.event("worker simulators fail")
        fired0 = pool.SCHED["fired"]
        try:
            out = call()
            ctx.check(pool.SCHED["fired"] == fired0, "lost-worker", "a worker died and the call reported success")
        except SimFault as e:
            ctx.probe("worker_crash" if e.kind == "worker_crash" else "simulator_fault")
            if e.kind == "worker_crash":
                ctx.fault("worker_crash")
            pool.SCHED["crash"] = set()
            SimAer.FAULTS.clear()
            TranspilerBackend.backend.faults = {}
            del ms[:]
            start = len(pool.SCHED["order"])
            out = call()
            ctx.probe("retry_ok")
        pool.SCHED["crash"] = set()
        SimAer.FAULTS.clear()
        TranspilerBackend.backend.faults = {}
        done = pool.SCHED["order"][start:]
        if done != sorted(done):
            ctx.probe("out_of_order")
        ctx.state(kind, spec["cores"], spec["batch"], tuple(shots), step["bits"] if kind == "counts" else "",
                  tuple(x - min(done) for x in done) if done else (), step["crash"], step["fault"], len(backs))
        ctx.check(len(out) == len(cs), "result-count", lambda: f"{len(cs)} circuits, {len(out)} results")
        at = 0
        for c, s, o in zip(cs, shots, out):
            # the instances of a circuit are made for that circuit alone, one after the other
            inst = ms[at: at + s]
            at += s
            if kind in ("submit", "batch"):
                r = back.get_result(o) if step["fetch"] else None
                kept.append([b, o, c, None if r is None else counts_of(r, list(c.bits)), s, inst])
                continue
            if kind == "counts":
                got = Counter({tuple(int(x) for x in k): int(v) for k, v in o.items()})
                bits = list(c.bits) if order is None else order
                ctx.probe("get_counts")
                ctx.probe({"all": "all_bits", "none": "all_bits", "subset": "subset_of_bits",
                           "reversed": "reordered_bits"}[step["bits"]])
            else:
                got, bits = counts_of(o, list(c.bits)), list(c.bits)
                ctx.check(sorted(o.c_bits, key=repr) == sorted(c.bits, key=repr), "bits", lambda: f"{o.c_bits}, {c.bits}")
                ctx.probe({"run": "run_circuit", "mitres": "mitres"}[kind])
            shots_ok(ctx, c, s, got, bits, inst, step)
        if kind == "batch":
            ctx.probe("batch_call")
        if len(kept) > 1:
            ctx.probe("interleaved")
    # results kept so far, fetched in another order, together or one by one
    rng.shuffle(kept)
    for b, h, c, seen, s, inst in kept:
        r = backs[b].get_results([h])[0]
        got = counts_of(r, list(c.bits))
        ctx.check(seen is None or got == seen, "result-changed", lambda: f"{seen} became {got}")
        shots_ok(ctx, c, s, got, list(c.bits), inst, None)
    for b in range(len(backs)):
        mine = [k for k in kept if k[0] == b]
        rs = backs[b].get_results([k[1] for k in mine])
        ctx.check([counts_of(r, list(k[2].bits)) for r, k in zip(rs, mine)]
                  == [counts_of(backs[b].get_result(k[1]), list(k[2].bits)) for k in mine] and len(rs) == len(mine),
                  "result-order", "results do not follow the handles")
    ctx.check(len({k[1] for k in kept}) == len(kept), "handles", "two submissions have the same handle")
    # a result belongs to the backend that produced it
    for b, h, *_ in kept:
        for other in range(len(backs)):
            if other == b:
                continue
            ctx.probe("foreign_handle")
            try:
                backs[other].get_result(h)
            except Exception:  # noqa: BLE001
                continue
            ctx.check(False, "foreign-result", "a backend returned the result of another backend's submission")
    for c in plan["circuits"]:
        if any(b not in [m[1] for m in c["meas"]] for b in range(c["nb"])):
            ctx.probe("unwritten_bit")
    ctx.check([circuit_key(c) for c in circuits] == keys, "input-mutated", "a circuit was altered")


def shots_ok(ctx, c, s, got, bits, inst, step):
    ctx.check(sum(got.values()) == s, "shot-count", lambda: f"{s} shots asked for, {dict(got)} returned")
    ctx.check(all(len(k) == len(bits) for k in got), "bits", lambda: f"{bits}, {dict(got)}")
    if any(len(d) > 1 for d in inst):
        ctx.probe("quantum_outcomes")
    ctx.check(contained(got, inst, list(c.bits), bits), "one-shot-per-instance",
              lambda: f"{c.get_commands()}: instances yield {[list(d) for d in inst]} ({c.bits}), returned {dict(got)} ({bits})")


def noise(plan, ctx):
    """errors of the noise model are drawn anew for every shot"""
    from pytket.circuit import Bit, Circuit

    from qermit.noise_model import PauliErrorTranspile, TranspilerBackend

    p, rate = plan["clifford"]
    ctx.probe("noise_model")
    spec = plan["backends"][0]
    model = model_of([["S", [[p, rate]]]], np.random.default_rng(plan["seed"]))
    back = TranspilerBackend(PauliErrorTranspile(model), max_batch_size=min(spec["batch"], 40), n_cores=spec["cores"])
    k = len(plan["circuits"][0]["ops"]) % 3 + 1
    shots = 60
    c = Circuit(k, k)
    for q in range(k):
        c.H(q).S(q).Sdg(q).H(q).Measure(q, q) if p == "Z" else c.S(q).Sdg(q).Measure(q, q)
    if plan["steps"][0]["crash"] is not None and spec["cores"] > 1:
        pool.SCHED["crash"] = {plan["steps"][0]["crash"]}
    try:
        got = back.get_counts(c, shots)
    except SimFault:
        ctx.fault("worker_crash")
        ctx.probe("worker_crash")
        pool.SCHED["crash"] = set()
        got = back.get_counts(c, shots)
    ctx.check(sum(got.values()) == shots, "shot-count", lambda: f"{shots} asked, {dict(got)}")
    ctx.state("noise", p, rate, k, spec["cores"], spec["batch"])
    # each qubit flips with the rate of the model, qubits and shots independently
    tol = lambda r: 6.5 * (shots * r * (1 - r)) ** 0.5 + (2 if 0 < r < 1 else 0)
    ctx.probe("frequency")
    for q in range(k):
        ones = sum(v for key, v in got.items() if key[q])
        ctx.check(abs(ones - shots * rate) <= tol(rate), "frequency",
                  lambda: f"qubit {q} flipped in {ones} of {shots} shots, rate {rate}; {dict(got)}")
    for a in range(k):
        for b in range(a):
            both = sum(v for key, v in got.items() if key[a] != key[b])
            r = 2 * rate * (1 - rate)
            ctx.check(abs(both - shots * r) <= tol(r), "frequency",
                      lambda: f"qubits {a}, {b} differ in {both} of {shots} shots, expected {r}; {dict(got)}")


def mock(plan, ctx):
    """the mock device: every handle yields the shots of its own circuit"""
    from qermit import CircuitShots, MitRes
    from qermit.noise_model import MockQuantinuumBackend

    ctx.probe("mock")
    backs = [MockQuantinuumBackend() for _ in range(min(2, len(plan["backends"])))]
    circuits = [make(dict(s, reg="q", breg="c", two=False)) for s in plan["circuits"]]
    keys = [circuit_key(c) for c in circuits]
    kept = []
    for step in plan["steps"]:
        back = backs[step["b"] % len(backs)]
        cs = [circuits[x["c"]] for x in step["subs"]]
        shots = [max(1, x["shots"]) for x in step["subs"]]
        comp = back.get_compiled_circuits(cs)
        if step["kind"] == "mitres":
            rs = MitRes(back).run([CircuitShots(c, s) for c, s in zip(comp, shots)])
            for c, d, s, r in zip(cs, comp, shots, rs):
                mock_ok(ctx, c, d, s, r)
            continue
        if step["kind"] == "counts":
            hs = back.process_circuits(comp, n_shots=shots[0])
            shots = [shots[0]] * len(cs)
        elif step["kind"] == "batch":
            hs = back.process_circuits(comp, n_shots=shots)
        else:
            hs = [back.process_circuit(c, s) for c, s in zip(comp, shots)]
        ctx.check(len(hs) == len(cs), "result-count", f"{len(cs)} circuits, {len(hs)} handles")
        kept += [(back, h, c, d, s) for h, c, d, s in zip(hs, cs, comp, shots)]
        ctx.state("mock", step["kind"], tuple(shots), len(backs))
    random.Random(plan["seed"]).shuffle(kept)
    for i, (back, h, c, d, s) in enumerate(kept):
        r = back.get_result(h, timeout=30) if i % 2 else back.get_results([h])[0]
        mock_ok(ctx, c, d, s, r)
    ctx.check([circuit_key(c) for c in circuits] == keys, "input-mutated", "a circuit was altered")


def mock_ok(ctx, c, comp, s, r):
    """(compilation for the device, outside the package, drops bits of the circuit that are never written)"""
    bits = list(comp.bits)
    ctx.check(set(r.c_bits) == set(bits), "bits", lambda: f"{r.c_bits} for {bits}")
    got = counts_of(r, bits)
    ctx.check(sum(got.values()) == s, "shot-count", lambda: f"{s} shots asked for, {dict(got)} returned")
    ix = [list(c.bits).index(b) for b in bits]
    want = {tuple(k[i] for i in ix) for k, v in qexec.distribution(c).items() if v > 1e-9}
    ctx.check(all(k in want for k in got), "own-result", lambda: f"{c.get_commands()} returned {dict(got)} ({bits})")
