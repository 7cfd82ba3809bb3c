"""Every mitigation workflow of the library, built from a plan: used by the properties that quantify over workflows
(P02 retry, P19 isolation, P20 seeds)."""

import math
import random

from pytket.backends.backend_exceptions import InvalidResultType
from pytket.circuit import Bit, Node, Qubit

from . import exps, pool, qexec, seams
from .common import PlanInvalid, SimFault, apply_ops, circuit_key, counts_of, new_circuit, rand_observable, rand_ops
from .device import AutoRebase, DecomposeBoxes, SimAer, SimDevice, SequencePass

RES = ["plain", "compiled", "split", "csplit", "fr", "spam", "uspam", "post", "leak", "checks"]
EX = ["mitex", "mr", "zne", "cdr", "dfsc", "pec", "spectral"]
# base workflows of the user's own that a slot accepts
RES_BASE = ["plain", "compiled", "split", "csplit", "fr", "spam", "uspam"]
EX_BASE = ["mitex", "mr", "dfsc", "zne"]
MIXED = ["mitex", "mr", "zne"]  # observable workflows that accept a SPAM-correcting base
SLOTS = {"fr": ["mitres"], "spam": ["calibration_mitres", "correction_mitres"],
         "uspam": ["calibration_mitres", "correction_mitres"], "leak": ["mitres"], "post": ["mitres"],
         "mitex": ["mitres"], "mr": ["mitex"], "zne": ["experiment_mitres", "experiment_mitex"],
         "cdr": ["states_simulator_mitex", "states_device_mitex", "experiment_mitex"],
         "dfsc": ["experiment_mitex", "characterisation_mitex"], "pec": ["simulator_mitex", "device_mitex"],
         "spectral": ["experiment_mitres", "experiment_mitex"]}
NODES = 6
SYM_KINDS = ("spectral",)


def is_res(kind):
    return kind in RES


def gen_flow(rng, kinds, depth=1, bases=True):
    f = _gen_flow(rng, kinds, depth, bases)
    if kinds_of(f) & {"mr", "zne", "cdr", "dfsc", "pec"}:
        no_frames(f)  # frames of circuits with several two-qubit gates are too many to list
    return f


def no_frames(f):
    for b in f["base"].values():
        if b["kind"] == "fr":
            b.update(kind="plain", base={}, p={})
        no_frames(b)


def _gen_flow(rng, kinds, depth, bases):
    kind = rng.choice(kinds)
    f = {"kind": kind, "base": {}, "p": gen_params(rng, kind)}
    if bases and depth > 0:
        for slot in SLOTS.get(kind, []):
            if rng.random() < 0.4:
                if slot.endswith("mitres"):
                    pick = ["plain", "compiled", "split", "csplit"]
                    if kind in MIXED:
                        pick = RES_BASE if kind != "zne" else [k for k in RES_BASE if k != "fr"]
                    elif kind in ("spam", "uspam"):
                        pick = ["plain", "compiled", "split", "csplit"]
                    elif kind in ("leak", "post"):
                        pick = ["plain", "compiled", "split"]
                else:
                    pick = EX_BASE
                    if kind == "pec" or slot == "states_simulator_mitex":
                        pick = ["mitex"]
                    elif kind in ("zne", "dfsc", "cdr"):
                        pick = ["mitex", "mr"]
                f["base"][slot] = _gen_flow(rng, pick, depth - 1 if kind != "cdr" else 0, bases)
    return f


def kinds_of(flow):
    out = {flow["kind"]}
    for b in flow["base"].values():
        out |= kinds_of(b)
    return out


def register(flow):
    """the register the circuits of a flow are written in"""
    return "node" if kinds_of(flow) & {"spam", "uspam"} else "q"


def gen_params(rng, kind):
    if kind in ("split", "csplit"):
        return {"max": rng.choice([30, 100, 1000])}
    if kind in ("compiled",):
        return {"level": rng.choice([0, 1])}
    if kind == "fr":
        return {"samples": rng.choice([1, 2, 3]), "type": rng.choice(["PauliFrameRandomisation",
                                                                      "UniversalFrameRandomisation"])}  # few gates only
    if kind in ("spam", "uspam"):
        nodes = list(range(NODES))
        rng.shuffle(nodes)
        groups = []
        while nodes:
            k = min(rng.choice([1, 1, 2]), len(nodes))
            groups.append(nodes[:k])
            nodes = nodes[k:]
        return {"shots": rng.choice([1000, 3000]), "groups": groups,
                "method": rng.choice(["Invert", "Bayesian"])}
    if kind == "checks":
        return {"sampler": rng.choice(["Z", "X"])}
    if kind == "post":
        return {"keep": rng.randint(1, 2)}
    if kind == "zne":
        return {"scales": rng.choice([[1, 3], [1, 3, 5]]),
                "fold": rng.choice(["circuit", "gate", "odd_gate"]),
                "fit": rng.choice(["linear", "richardson", "polynomial"]), "seed": rng.choice([None, rng.randint(0, 99)])}
    if kind == "cdr":
        return {"n_non": rng.randint(1, 3), "n_pairs": 1, "total": rng.randint(4, 7),
                "tol": rng.choice([0.01, 0.1]), "attempts": rng.choice([1, 3])}
    if kind == "pec":
        return {"num": rng.choice([1, 2, 3]), "seed": rng.choice([None, rng.randint(0, 99)])}
    if kind == "spectral":
        return {"n_vals": rng.choice([3, 4, 5]), "tol": rng.choice([0, 0.5, 5])}
    return {}


def gen_inputs(rng, flow):
    """a list of experiments for one call"""
    out = []
    kind = flow["kind"]
    clifford = "dfsc" in kinds_of(flow)
    frames = "fr" in kinds_of(flow)  # the number of frames is exponential in the number of gates
    small = kind in ("pec", "spectral")
    for _ in range(rng.choice([1, 1, 2]) if small else rng.randint(1, 3)):
        n = 1 if frames and not is_res(kind) else rng.randint(1, 2) if small or frames else rng.randint(1, 3)
        if kind == "pec":
            n = 2
            ops = [["H", 0], [rng.choice(["H", "S"]), 1], ["CX", 0, 1]]
            ops += [[rng.choice(["S", "H", "Rz"]), rng.randrange(2)] for _ in range(rng.randint(0, 2))]
            ops = [o if o[0] != "Rz" else ["Rz", 0.3, o[1]] for o in ops]
        elif is_res(kind):
            ops = rand_ops(rng, n, rng.randint(1, 2 if frames else 6), one=["H", "S", "X"], rot=["Rz"],
                           two=[] if frames else ["CX"])
            if frames and n > 1:
                ops.append(["CX"] + rng.sample(range(n), 2))
            ops.append(["H", rng.randrange(n)])
        else:
            ops = rand_ops(rng, n, rng.randint(1, 1) if frames else rng.randint(2, 7), two=[] if frames else ["CX", "CZ"], one=["H", "S", "V"], p_rot=0.4, rot=[] if clifford else ["Rx", "Ry", "Rz"])
            ops.append(["Ry", "beta" if clifford else rng.choice([0.15, 0.3]), rng.randrange(n)])
        e = {"n": n, "ops": ops, "name": rng.random() < 0.5}
        if is_res(kind):
            nb = n + rng.choice([0, 1])
            bits = list(range(nb))
            rng.shuffle(bits)
            e.update(meas=[[q, bits[q]] for q in range(n)][: rng.randint(1, n)], nb=nb,
                     shots=rng.choice([20, 100, 1000]))
        else:
            if kind == "spectral":
                e["ops"] = [["H", q] for q in range(n)] + [[rng.choice(["Rz", "Ry"]), "alpha", rng.randrange(n)]] + (
                    [] if clifford else ops[:3])
            elif rng.random() < 0.3 and kind != "pec":
                e["ops"] = ops + [["Rx", "alpha", rng.randrange(n)]]
            e["vals"] = {"alpha": rng.choice([0.25, 0.4, 1.1]), "beta": rng.choice([0.15, 0.3])}
            e["terms"] = rand_observable(rng, n, rng.randint(1, 1 if small else 2), p_i=0.2)
            e["shots"] = rng.choice([100, 500])
        out.append(e)
    return out


def rename_pass(dev, level=0):
    """a device that compiles onto its own nodes"""
    from pytket.passes import CustomPass

    def tr(c):
        c = c.copy()
        DecomposeBoxes().apply(c)
        AutoRebase(dev.gates).apply(c)
        taken = {q for q in c.qubits if q.reg_name == "node"}
        free = [x for x in (Node("node", i) for i in range(NODES)) if x not in taken]
        c.rename_units({q: free.pop(0) for q in sorted(c.qubits) if q.reg_name != "node"})
        return c

    return CustomPass(tr)


def parity(circ, e):
    """deterministic noise of a measured parity (a function of what is measured only)"""
    q = sum(c.qubits[0].index[0] for c in circ.get_commands() if c.op.type == qexec.OpType.Measure)
    return 0.8 * e + 0.04 + 0.02 * (q % 3)


class Env:
    """the devices of a client (may be shared between clients)"""

    def __init__(self, ctx, seed, place=False, noisy=True, **kw):
        self.ctx = ctx
        self.noisy = noisy
        cp = rename_pass if place else None
        self.epoch = 0  # the device drifts: its noise is a function of what is measured and of the epoch
        noise = qexec.Noise(parity=lambda c, e: parity(c, e) + 0.03 * self.epoch) if noisy else None
        from pytket.architecture import Architecture

        kw = dict({"form": "shots", "architecture": Architecture(
            [(Node("node", i), Node("node", j)) for i in range(NODES) for j in range(NODES) if i != j])}, **kw)
        self.dev = SimDevice(ctx, seed=seed, noise=noise, compile_pass=cp, n_nodes=NODES, name="dev", max_calls=60000, **kw)
        self.sim = SimDevice(ctx, seed=seed + 1, n_nodes=NODES, name="sim", max_calls=60000, expectation=True, **kw)
        self.devs = [self.dev, self.sim]


def build(flow, env, bases=None):
    """-> workflow object.  bases: dict receiving the user's own workflow objects, {slot path: object}; or None"""
    return _build(flow, env, env.dev, bases if bases is not None else {}, "")


def _build(flow, env, dev, bases, path):
    from qermit import MitEx, MitRes
    from qermit.taskgraph import gen_compiled_MitRes, gen_MeasurementReduction_MitEx, gen_shot_split_MitRes
    from qermit.taskgraph.mitex import gen_compiled_shot_split_MitRes

    kind, p = flow["kind"], flow["p"]
    kw = {}
    for slot, b in flow["base"].items():
        d = env.sim if slot in ("states_simulator_mitex", "simulator_mitex") else dev
        key = path + "/" + slot
        if key not in bases:
            bases[key] = _build(b, env, d, bases, key)
        kw[slot] = bases[key]
    if kind == "plain":
        return MitRes(dev)
    if kind == "compiled":
        return gen_compiled_MitRes(dev, p["level"])
    if kind == "split":
        return gen_shot_split_MitRes(dev, p["max"])
    if kind == "csplit":
        return gen_compiled_shot_split_MitRes(dev, p["max"])
    if kind == "fr":
        from qermit.frame_randomisation import FrameRandomisation, gen_Frame_Randomisation_MitRes

        return gen_Frame_Randomisation_MitRes(dev, p["samples"], frame_randomisation=getattr(FrameRandomisation, p["type"]),
                                              **kw)
    if kind in ("spam", "uspam"):
        from qermit.spam import CorrectionMethod, gen_FullyCorrelated_SPAM_MitRes, gen_UnCorrelated_SPAM_MitRes

        kw["correction_method"] = getattr(CorrectionMethod, p["method"])
        if kind == "uspam":
            return gen_UnCorrelated_SPAM_MitRes(dev, p["shots"], **kw)
        return gen_FullyCorrelated_SPAM_MitRes(dev, p["shots"], [[Node("node", i) for i in g] for g in p["groups"]], **kw)
    if kind == "post":
        from qermit.postselection import PostselectMgr, gen_postselect_mitres

        mgr = PostselectMgr(compute_cbits=[Bit("c", i) for i in range(4)], postselect_cbits=[Bit("p", i) for i in range(2)])
        return gen_postselect_mitres(dev, mgr, **kw)
    if kind == "leak":
        from qermit.leakage_detection import get_leakage_detection_mitres

        return get_leakage_detection_mitres(dev, **kw)
    if kind == "checks":
        from qermit.coherent_pauli_checks import DeterministicXPauliSampler, DeterministicZPauliSampler
        from qermit.coherent_pauli_checks import gen_coherent_pauli_check_mitres

        return gen_coherent_pauli_check_mitres(dev, {"Z": DeterministicZPauliSampler, "X": DeterministicXPauliSampler}[p["sampler"]]())
    if kind == "mitex":
        return MitEx(dev, **kw)
    if kind == "mr":
        return gen_MeasurementReduction_MitEx(dev, **kw)
    if kind == "zne":
        from qermit.zero_noise_extrapolation import Fit, Folding, gen_ZNE_MitEx

        if p["seed"] is not None:
            kw["seed"] = p["seed"]
        return gen_ZNE_MitEx(dev, list(p["scales"]), folding_type=getattr(Folding, p["fold"]), fit_type=getattr(Fit, p["fit"]),
                             deg=1, **kw)
    if kind == "cdr":
        from qermit.clifford_noise_characterisation import gen_CDR_MitEx

        return gen_CDR_MitEx(dev, env.sim, p["n_non"], p["n_pairs"], p["total"], tolerance=p["tol"],
                             max_state_circuits_attempts=p["attempts"], **kw)
    if kind == "dfsc":
        from qermit.clifford_noise_characterisation import gen_DFSC_MitEx

        return gen_DFSC_MitEx(dev, **kw)
    if kind == "pec":
        from qermit.probabilistic_error_cancellation import gen_PEC_learning_based_MitEx

        if p["seed"] is not None:
            kw["seed"] = p["seed"]
        return gen_PEC_learning_based_MitEx(dev, env.sim, num_cliff=p["num"], **kw)
    if kind == "spectral":
        from qermit.spectral_filtering import SmallCoefficientSignalFilter, gen_spectral_filtering_MitEx

        return gen_spectral_filtering_MitEx(dev, p["n_vals"], signal_filter=SmallCoefficientSignalFilter(tol=p["tol"]), **kw)
    raise PlanInvalid(kind)


def vary(rng, flow, specs):
    """the same circuits with other parameter values, shots and observables (a variational loop)"""
    import copy

    out = copy.deepcopy(specs)
    for e in out:
        if is_res(flow["kind"]):
            e["shots"] = rng.choice([20, 100, 1000])
        else:
            e["vals"] = {"alpha": rng.choice([0.25, 0.4, 1.1]), "beta": rng.choice([0.15, 0.3])}
            if rng.random() < 0.5:
                e["terms"] = rand_observable(rng, e["n"], 1, p_i=0.2)
    return out


class Inputs:
    """the objects a caller passes to run(); share: Inputs whose circuit, symbol and operator objects are used again"""

    def __init__(self, flow, specs, share=None):
        from qermit import AnsatzCircuit, CircuitShots, ObservableExperiment
        from qermit.taskgraph.utils import ObservableTracker

        kind = flow["kind"]
        reg = register(flow)
        self.kind = kind
        self.res = is_res(kind)
        self.circuits, self.wires, self.ops, self.symbols = [], [], [], []
        self.specs = specs
        for k, e in enumerate(specs):
            old = share.specs[k] if share is not None and k < len(share.specs) else None
            if old is not None and (old["ops"], old["n"], old.get("meas"), old.get("nb")) == (
                    e["ops"], e["n"], e.get("meas"), e.get("nb")):
                self.circuits.append(share.circuits[k])
                if self.res:
                    self.wires.append(CircuitShots(share.circuits[k], e["shots"]))
                    continue
                exps.set_symbols(share.symbols[k], e["vals"])
                self.symbols.append(share.symbols[k])
                self.ops.append(share.ops[k] if old["terms"] == e["terms"] else exps.make_qpo(e["terms"], reg))
                self.wires.append(ObservableExperiment(AnsatzCircuit(self.circuits[k], e["shots"], self.symbols[k]),
                                                       ObservableTracker(self.ops[k])))
                continue
            if self.res:
                c = new_circuit(e["ops"])
                qs = [Node("node", i) if reg == "node" else Qubit("q", i) for i in range(e["n"])]
                for q in qs:
                    c.add_qubit(q)
                bits = self.bits(e)
                for b in bits:
                    c.add_bit(b)
                apply_ops(c, e["ops"], qs)
                for q, b in e["meas"]:
                    c.Measure(qs[q], bits[b])
                self.circuits.append(c)
                self.wires.append(CircuitShots(c, e["shots"]))
            else:
                if any(int(q) >= e["n"] for s, _ in e["terms"] for q in s):
                    raise PlanInvalid()
                c = exps.build(e["ops"], e["n"], reg)
                sd = exps.symbols_dict({"ops": e["ops"], "n": e["n"], "reg": reg}, e["vals"], "dict")
                op = exps.make_qpo(e["terms"], reg)
                self.circuits.append(c)
                self.ops.append(op)
                self.symbols.append(sd)
                self.wires.append(ObservableExperiment(AnsatzCircuit(c, e["shots"], sd), ObservableTracker(op)))

    def bits(self, e):
        if self.kind == "post":
            return [Bit("p", 0), Bit("p", 1)] + [Bit("c", i) for i in range(4)]
        return [Bit("c", i) for i in range(e["nb"])]

    def snapshot(self):
        """everything of the caller's that a run might alter"""
        return ([circuit_key(c) for c in self.circuits], [exps.op_snapshot(o) for o in self.ops],
                [str(s._symbolic_map) for s in self.symbols],
                [exps.tracker_snapshot(w.ObservableTracker) for w in self.wires] if not self.res else [],
                len(self.wires), [repr(w[-1]) if self.res else repr(w[0][1]) for w in self.wires])


def canonical(inputs, results):
    """results in a form that can be compared"""
    out = []
    if inputs.res:
        for r in results:
            bits = sorted(r.c_bits)
            try:
                counts = counts_of(r, bits)
            except InvalidResultType:
                counts = {}  # no shot was kept
            out.append((tuple(map(repr, bits)), tuple(sorted(counts.items()))))
    else:
        for r in results:
            out.append(tuple(sorted((" ".join(sorted(f"{q}{p.name}" for q, p in k.map.items() if p != qexec.Pauli.I)),
                                     complex(v)) for k, v in r._dict.items())))
    return out


def same(a, b, tol=1e-7):
    if a[0] != b[0]:
        return False
    if a[0] != "ok":
        return a[1] == b[1]
    if len(a[1]) != len(b[1]):
        return False
    for x, y in zip(a[1], b[1]):
        if len(x) and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][1], complex):
            if len(x) != len(y) or any(k[0] != m[0] or not close(k[1], m[1], tol) for k, m in zip(x, y)):
                return False
        elif x != y:
            return False
    return True


def close(a, b, tol):
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= tol * max(1.0, abs(a))


def call(obj, inputs):
    return call_raw(obj, inputs)[0]


def call_raw(obj, inputs, **kw):
    """-> (('ok', canonical results) | ('fault', kind) | ('error', type and message), raw results)"""
    from .errors import PlanInvalid as Invalid
    from .errors import Violation

    try:
        res = obj.run(inputs.wires, **kw)
    except (Violation, Invalid, MemoryError, OSError):
        raise
    except SimFault as e:
        return (("error", "refused") if e.kind == "refused" else ("fault", str(e))), None
    except Exception as e:  # noqa: BLE001
        return ("error", type(e).__name__), None
    return ("ok", canonical(inputs, res)), res


# ---- the library's randomness

def reseed(seed):
    """all randomness the library can see becomes a function of seed (the clock goes on)"""
    import numpy as np

    r = random.Random(seed)
    seams.ENTROPY.reset(r.getrandbits(63))
    seams._real_np_seed(r.getrandbits(32))
    seams._real_random_seed(r.getrandbits(63))
    pool.SCHED["rng"] = random.Random(r.getrandbits(32))
    SimAer.SEED[0] = 0


def save():
    import numpy as np

    return (np.random.get_state(), random.getstate(), seams.ENTROPY.rng.getstate(), pool.SCHED["rng"].getstate(),
            SimAer.SEED[0])


def restore(s):
    import numpy as np

    np.random.set_state(s[0])
    random.setstate(s[1])
    seams.ENTROPY.rng.setstate(s[2])
    pool.SCHED["rng"].setstate(s[3])
    SimAer.SEED[0] = s[4]
