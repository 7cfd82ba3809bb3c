"""P21: workflows nest, and leave the answers of an ideal device alone."""

import random

from .. import exps, flows, qexec
from ..common import PlanInvalid, SimFault, counts_of, dist_of, tv
from ..device import SimAer
from .p02_retry import tree

ID = "P21"
RUNS = {"quick": 500, "thorough": 12000}
LEVEL = "exploration"
RULE = "distinct (workflow tree, readout errors, placement, shared sub-workflow, batch sizes, device failure, completion order class) tuples"
REAL = ["all mitigation generators of the library but CDR and PEC, nested in each other's slots", "TaskGraph, MitRes, MitEx",
        "pytket passes, Backend base class"]
STUB = ["device: queue, latency, failures; exact distributions, with independent readout errors where a SPAM workflow "
        "corrects them", "Aer simulator used by DFSC: exact stand-in"]
ASSUMPTIONS = ["CDR and PEC are not judged here: on an ideal device their fits need training data that determine them (P12, P14)",
               "spectral filtering removes nothing and is asked for grid points",
               "the circuits are small: the number of frames of a circuit is exponential in its two-qubit gates"]
SHRINK_LISTS = ("calls", "inputs", "terms")
PROBES = ["two_levels", "three_levels", "readout_corrected", "placed", "out_of_order", "fault_surfaced", "retry_ok",
          "several_experiments", "shared_object", "distribution", "expectation", "second_run", "nothing_to_randomise"] + [
          k for k in flows.RES + flows.EX if k not in ("cdr", "pec")]
PLACED = {"plain", "compiled", "split", "csplit", "fr", "post", "leak", "checks", "mitex", "mr"}
EX_IN = {"mr": ["mitex", "mr", "zne", "dfsc"], "zne": ["mitex", "mr", "zne", "dfsc"], "dfsc": ["mitex", "mr", "zne", "dfsc"],
         "spectral": ["mitex", "mr", "zne", "dfsc"]}
RES_IN = ["plain", "compiled", "split", "csplit", "fr", "spam", "uspam", "leak", "checks"]


def gen_tree(rng, kinds, depth, anc=False, frames=True, checks=True):
    """anc: circuits that arrive here may have qubits of the library's own (no readout calibration is known for them)"""
    kind = rng.choice([k for k in kinds if (k not in ("spam", "uspam") or not anc) and (k != "fr" or frames)
                       and (k != "leak" or not anc) and (k != "checks" or checks)])
    f = {"kind": kind, "base": {}, "p": flows.gen_params(rng, kind)}
    if "max" in f["p"]:
        f["p"]["max"] = rng.choice([7000, 20000, 50000])
    if kind in ("spam", "uspam"):
        f["p"].update(shots=20000, method="Invert")
    if kind == "spectral":
        f["p"]["tol"] = 0
    if kind == "zne":
        f["p"]["scales"] = rng.choice([[1, 3], [3, 1], [1, 3, 5]])
    anc = anc or kind in ("leak", "checks", "post")
    frames = frames and kind not in ("mr", "zne", "dfsc", "leak", "checks", "fr")
    checks = checks and kind not in ("spam", "uspam", "zne", "leak", "checks", "post")  # every check costs a qubit
    slots = flows.SLOTS.get(kind, [])
    if kind in ("zne", "spectral") and slots:
        slots = [rng.choice(slots)]
    if depth > 0:
        for slot in slots:
            if rng.random() < 0.75:
                f["base"][slot] = gen_tree(rng, RES_IN if slot.endswith("mitres") else EX_IN[kind], depth - 1, anc, frames, checks)
    return f


def depth_of(f):
    return 1 + max((depth_of(b) for b in f["base"].values()), default=0)


def corrected(f):
    """is every measurement of the flow corrected for readout errors?"""
    if f["kind"] in ("spam", "uspam"):
        # the calibration is made on the device as it is
        return not any(flows.kinds_of(b) & {"spam", "uspam", "leak", "checks"} for b in f["base"].values())
    slots = {"zne": 1, "spectral": 1, "dfsc": 2, "mr": 1, "mitex": 1, "fr": 1}.get(f["kind"], 9)
    return len(f["base"]) == slots and all(corrected(b) for b in f["base"].values())


def gen(rng, tier, index):
    depth = rng.choice([1, 2, 2, 3, 3])
    for _ in range(400):
        flow = gen_tree(rng, rng.choice([["fr", "spam", "uspam", "leak", "post", "checks"], ["mitex", "mr", "zne", "dfsc", "spectral"]]), depth)
        want = rng.random()
        if want < 0.35 and not corrected(flow):
            continue
        break
    calls = []
    for _ in range(rng.choice([1, 1, 2])):
        inputs = flows.gen_inputs(rng, flow)
        for e in inputs:
            e["shots"] = rng.choice([20000, 30000])
            if flows.kinds_of(flow) & {"spam", "uspam"} and flow["kind"] in flows.RES:
                e["nb"] = e["n"]  # readout correction returns the bits that are measured
                e["meas"] = [[q, e["n"] - 1 - q if e["name"] else q] for q in range(e["n"])]
            if flow["kind"] == "spectral":
                e["vals"] = {s: rng.randrange(flow["p"]["n_vals"]) * 2 / flow["p"]["n_vals"] for s in e["vals"]}
        calls.append({"inputs": inputs, "fault": [rng.choice(["error", "timeout", "after_submit"]), rng.randint(0, 30)]
                      if rng.random() < 0.2 else None})
    return {"flow": flow, "calls": calls, "readout": corrected(flow) and rng.random() < 0.8, "place": rng.random() < 0.4,
            "same": rng.random() < 0.3, "dev_seed": rng.getrandbits(30)}


class Shared(dict):
    """one object of the user's own for all slots that take the same workflow"""

    def __init__(self, flow):
        self.trees, self.made, self.hits = {}, {}, 0
        self.walk(flow, "")

    def walk(self, f, path):
        for s, b in f["base"].items():
            self.trees[f"{path}/{s}"] = repr(b)
            self.walk(b, f"{path}/{s}")

    def __contains__(self, key):
        return self.trees[key] in self.made

    def __getitem__(self, key):
        self.hits += 1
        return self.made[self.trees[key]]

    def __setitem__(self, key, obj):
        self.hits -= 1
        self.made[self.trees[key]] = obj




def run(plan, ctx):
    flow = plan["flow"]
    kinds = flows.kinds_of(flow)
    SimAer.CTX = ctx
    d = depth_of(flow)
    if d >= 2:
        ctx.probe("two_levels")
    if d >= 3:
        ctx.probe("three_levels")
    for k in kinds:
        ctx.probe(k)
    place = plan["place"] and kinds <= PLACED
    if place:
        ctx.probe("placed")
    env = flows.Env(ctx, plan["dev_seed"], place, noisy=False)
    dev = env.dev
    if plan["readout"]:
        if not corrected(flow):
            raise PlanInvalid()
        ctx.probe("readout_corrected")
        r = random.Random(plan["dev_seed"])
        dev.noise = qexec.Noise(readout={f"node[{i}]": (r.choice([0.02, 0.05, 0.1]), r.choice([0.04, 0.1])) for i in range(flows.NODES)})
        ctx.fault("readout")
    if plan["same"]:
        for f in walk(flow):
            if f["kind"] == "dfsc" and len(f["base"]) == 2:
                f["base"]["characterisation_mitex"] = f["base"]["experiment_mitex"]
    bases = Shared(flow) if plan["same"] else {}
    obj = flows.build(flow, env, bases)
    if plan["same"] and bases.hits > 0:
        ctx.probe("shared_object")
    reg = flows.register(flow)
    failed = False
    for n, call in enumerate(plan["calls"]):
        inputs = flows.Inputs(flow, call["inputs"])
        if not call["inputs"]:
            raise PlanInvalid()
        mark, done = len(dev.fired), len(dev.completion)
        dev.faults.clear()
        if call["fault"]:
            dev.faults[dev.calls + call["fault"][1]] = call["fault"][0]
        tries = 0
        while True:
            try:
                res = obj.run(inputs.wires)
                break
            except SimFault as ex:
                ctx.check(len(dev.fired) > mark and not tries, "phantom-failure", f"{ex}")
                ctx.probe("fault_surfaced")
                tries += 1
            except RuntimeError as ex:
                if "fr" in kinds and "no gates" in str(ex):
                    ctx.probe("nothing_to_randomise")  # frames go around at least one gate
                    return
                raise
        fired = dev.fired[mark:]
        dev.faults.clear()
        ctx.check(len(fired) == tries, "fault-swallowed", lambda: f"{fired}")
        if tries:
            ctx.probe("retry_ok")
        order = dev.completion[done:]
        ooo = order != sorted(order)
        if ooo:
            ctx.probe("out_of_order")
        ctx.state(tree(flow), plan["readout"], place, plan["same"], len(call["inputs"]), [k for _, k, _ in fired], ooo)
        ctx.check(len(res) == len(inputs.wires), "result-count", lambda: f"{len(res)} for {len(inputs.wires)}")
        if len(res) > 1:
            ctx.probe("several_experiments")
        if n:
            ctx.probe("second_run")
        tol = 4e-3 * (4 if plan["readout"] else 1) * (3 if "zne" in kinds else 1)
        for i, (r, e, c) in enumerate(zip(res, call["inputs"], inputs.circuits)):
            what = f"experiment {i} of {len(res)}, {tree(flow)}"
            if inputs.res:
                ctx.probe("distribution")
                bits = sorted(c.bits)
                dist = qexec.distribution(c, None)
                want = {}
                for k, v in dist.items():
                    o = dict(zip(c.bits, k))
                    o = tuple(o[b] for b in bits)
                    want[o] = want.get(o, 0) + v
                if flow["kind"] == "post":
                    keep = [j for j, b in enumerate(bits) if b.reg_name == "c"]
                    drop = [j for j, b in enumerate(bits) if b.reg_name == "p"]
                    bits = [bits[j] for j in keep]
                    kept = {}
                    for k, v in want.items():
                        if not any(k[j] for j in drop):
                            o = tuple(k[j] for j in keep)
                            kept[o] = kept.get(o, 0) + v
                    mass = sum(kept.values())
                    if mass < 0.05:
                        continue
                    want = {k: v / mass for k, v in kept.items()}
                ctx.check(sorted(r.c_bits) == bits, "bits", lambda: f"{what}: {r.c_bits} instead of {bits}")
                got = dist_of(counts_of(r, bits))
                ctx.check(tv(got, want) < 2 * tol, "distribution", lambda: f"{what}: {got}, exactly {want}"[:900])
            else:
                ctx.probe("expectation")
                ctx.check(len(r._dict) == len(e["terms"]), "strings", lambda: f"{what}: {r}")
                for s, coeff in e["terms"]:
                    got = exps.lookup(r, s, reg)
                    ctx.check(len(got) == 1, "strings", lambda: f"{what}: {s} appears {len(got)} times in {r}")
                    want = coeff * exps.exact_value({"ops": e["ops"], "n": e["n"], "reg": reg}, e["vals"], s)
                    ctx.close(got[0], want, tol * max(1, abs(coeff)) * 2, "expectation", lambda: f"{what}, string {s}")


def walk(f):
    yield f
    for b in f["base"].values():
        yield from walk(b)
