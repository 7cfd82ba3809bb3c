"""P16: injected Pauli faults propagate exactly as the circuit dictates."""

import itertools
import json
import math

import numpy as np

from .. import exps, qexec
from ..common import PlanInvalid, circuit_key, new_circuit
from ..device import SimDevice

ID = "P16"
RUNS = {"quick": 1500, "thorough": 60000}
LEVEL = "exploration"
RULE = "distinct (mode, gate types, fault location, fault, direction, registers, wire swap, outcome class) tuples"
REAL = ["QermitPauli", "NoiseModel", "ErrorDistribution", "LogicalErrorDistribution", "PauliErrorTranspile",
        "Folding.noise_aware", "gen_ZNE_MitEx", "MitEx", "MitRes", "TaskGraph"]
STUB = ["device of the noise-aware extrapolation: queue, latency, exact outcome distributions",
        "source of randomness: the generator handed to the noise models is seeded by the simulator"]
ASSUMPTIONS = ["gates of the documented Clifford set; other Clifford gates are refused by the library",
               "frequencies are judged at six standard deviations",
               "error rates stay within what a Pauli channel of the scaled strength can express"]
SHRINK_LISTS = ("ops", "errors", "model", "channels")
PROBES = ["propagate", "certain", "transpile", "sampled", "algebra", "postselect", "zne", "forward", "backward",
          "negative_sign", "phase_coefficient", "wire_swap", "barrier", "measured", "conditional", "sparse_register",
          "identity_fault", "effective_model", "scaled", "mixture", "json", "controlled", "both_sites",
          "noiseless_gate"]

ONE = ["X", "Y", "Z", "S", "Sdg", "V", "Vdg", "H", "SX", "SXdg"]
TWO = ["CX", "CX", "CZ", "CY", "SWAP", "ZZMax"]
PAR = ["Rz", "Rx", "ZZPhase", "PhasedX"]
LETTERS = "IXYZ"


def gen_ops(rng, n, depth):
    ops = []
    for _ in range(depth):
        r = rng.random()
        if n > 1 and r < 0.4:
            ops.append([rng.choice(TWO)] + rng.sample(range(n), 2))
        elif r < 0.75:
            ops.append([rng.choice(ONE), rng.randrange(n)])
        elif r < 0.95:
            t = rng.choice(PAR)
            a = rng.choice([0.5, 1.0, 1.5, -0.5, 2.5, 3.5, 0.0, -1.5])
            if t == "ZZPhase":
                if n > 1:
                    ops.append([t, a] + rng.sample(range(n), 2))
            elif t == "PhasedX":
                ops.append([t, a, rng.choice([0.5, 1.0, 1.5, 0.0]), rng.randrange(n)])
            else:
                ops.append([t, a, rng.randrange(n)])
        else:
            ops.append(["Barrier"] + rng.sample(range(n), rng.randint(1, n)))
    return ops or [["H", 0]]


def types_of(ops):
    return sorted({o[0] for o in ops if o[0] != "Barrier"})


def arity(t):
    return 2 if t in TWO or t == "ZZPhase" else 1


def gen(rng, tier, index):
    mode = rng.choice(["propagate", "propagate", "certain", "certain", "transpile", "transpile", "sampled", "algebra",
                       "zne"])
    n = rng.randint(1, 3)
    plan = {"mode": mode, "n": n, "reg": rng.choice(["q", "q", "node", "z"]), "seed": rng.getrandbits(40),
            "sparse": rng.random() < 0.25, "swap": rng.random() < 0.15}
    if mode == "propagate":
        ops = gen_ops(rng, n, rng.randint(1, 12))
        plan.update(ops=ops, at=rng.randint(0, len(ops)), fault="".join(rng.choice(LETTERS) for _ in range(n)),
                    coeff=rng.randrange(4), steps=rng.random() < 0.5, shuffle=rng.random() < 0.3)
    elif mode in ("certain", "transpile"):
        ops = gen_ops(rng, n, rng.randint(1, 10))
        ts = types_of(ops) or ["H"]
        model = {}
        for t in rng.sample(ts, rng.randint(1, min(3, len(ts)))):
            e = "I" * arity(t)
            while e == "I" * arity(t) and rng.random() < 0.97:
                e = "".join(rng.choice(LETTERS) for _ in range(arity(t)))
            model[t] = e
        plan.update(ops=ops, model=[[t, e] for t, e in model.items()], direction=rng.choice(["forward", "backward"]),
                    measure=rng.random() < 0.5, cond=rng.random() < 0.3)
    elif mode == "sampled":
        plan["n"] = n = rng.randint(1, 3)
        ops = gen_ops(rng, n, rng.randint(1, 5))
        ts = types_of(ops) or ["H"]
        model = []
        for t in rng.sample(ts, min(2, len(ts))):
            es = []
            left = 0.95
            for _ in range(rng.randint(1, 3)):
                e = "".join(rng.choice(LETTERS) for _ in range(arity(t)))
                if e in [x for x, _ in es]:
                    continue
                p = round(rng.uniform(0.05, 0.45), 3)
                if p < left:
                    es.append([e, p])
                    left -= p
            model.append([t, es])
        noisy = [i for i, o in enumerate(ops) if o[0] in [t for t, _ in model]]
        ops = [o for i, o in enumerate(ops) if i not in noisy[3:]]
        plan.update(ops=ops, model=model, what=rng.choice(["effective", "counter", "transpile"]))
    elif mode == "algebra":
        m = rng.randint(1, 2)
        channels = []
        for _ in range(rng.randint(1, 3)):
            ch, left = [], 0.3
            for _ in range(rng.randint(1, 4)):
                e = "".join(rng.choice(LETTERS) for _ in range(m))
                p = round(rng.uniform(0.001, 0.12), 4)
                if e != "I" * m and e not in [x for x, _ in ch] and p < left:
                    ch.append([e, p])
                    left -= p
            if ch:
                channels.append(ch)
        plan.update(m=m, channels=channels or [[["X" * m, 0.05]]], empty=rng.random() < 0.3, k=rng.choice([1, 2, 3, 2.5]),
                    errors=[["".join(rng.choice(LETTERS) for _ in range(3)), rng.randint(1, 40), rng.randrange(4)]
                            for _ in range(rng.randint(1, 6))], extra=rng.randint(0, 50),
                    post=sorted(rng.sample(range(3), rng.randint(1, 2))))
    else:
        n = plan["n"] = rng.randint(1, 2)
        ops = [[rng.choice(["Ry", "Rx"]), rng.choice([0.25, 0.4, 0.7]), q] for q in range(n)]
        for _ in range(rng.randint(1, 4)):
            ops.append(["CX"] + rng.sample(range(n), 2) if n > 1 and rng.random() < 0.6
                       else [rng.choice(["Ry", "H", "Z"]), *([0.3] if False else []), rng.randrange(n)])
        ops = [o if len(o) > 2 or o[0] != "Ry" else ["Ry", 0.3, o[1]] for o in ops]
        model = []
        for t in rng.sample(sorted({o[0] for o in ops}), 1):
            e = "".join(rng.choice("XYZ") for _ in range(2 if t == "CX" else 1))
            model.append([t, [[e, round(rng.uniform(0.1, 0.3), 3)]]])
        support = {str(q): rng.choice("XYZ") for q in rng.sample(range(n), rng.randint(1, n))}
        plan.update(ops=ops, model=model, samples=rng.randint(1, 6), scale=rng.choice([2, 3, 5]), obs=support,
                    sparse=False, swap=False)
    return plan


def pauli_matrix(string):
    m = np.eye(1)
    for x in string:
        m = np.kron(m, qexec.PMAT[x])
    return m


def matrix_of(qpt, qubits):
    from pytket.pauli import Pauli

    return complex(qpt.coeff) * pauli_matrix([qpt.string.map.get(q, Pauli.I).name for q in qubits])


def qubits_of(plan):
    from pytket.circuit import Qubit

    step = 3 if plan["sparse"] else 1
    return [Qubit(plan["reg"], i * step + (2 if plan["sparse"] else 0)) for i in range(plan["n"])]


def make(ops, qubits, swap=False, bits=False, cond=False, rename=None):
    from pytket.circuit import Bit, OpType

    from ..common import apply_ops

    c = new_circuit(ops)
    for q in qubits:
        c.add_qubit(q)
    if bits:
        for i in range(len(qubits)):
            c.add_bit(Bit("out", i))
    if cond:
        c.add_bit(Bit("flag", 0))
        c.add_gate(OpType.Measure, [qubits[0], Bit("flag", 0)])
    apply_ops(c, ops, qubits)
    if cond:
        c.X(qubits[-1], condition_bits=[Bit("flag", 0)], condition_value=1)
    if swap and len(qubits) > 1:
        c.SWAP(qubits[0], qubits[1])
        c.replace_SWAPs()
    if bits:
        for i, q in enumerate(qubits):
            c.Measure(q, Bit("out", i))
    return c


def insert_errors(circ, errors):
    """copy of circ with errors (command index -> string); the permutation of wires is not included"""
    from pytket.circuit import OpType

    out = qexec.new_like(circ)
    for i, c in enumerate(circ.get_commands()):
        if c.op.type == OpType.Barrier:
            continue
        out.add_gate(c.op, c.args)
        for q, p in zip(c.qubits, errors.get(i, "")):
            qexec.put_pauli(out, q, p)
    return out


def distribution_of(pairs, rng):
    from pytket.pauli import Pauli

    from qermit.noise_model.noise_model import ErrorDistribution

    return ErrorDistribution({tuple(getattr(Pauli, x) for x in e): p for e, p in pairs}, rng=rng)


def model_of(entries, rng):
    from pytket.circuit import OpType

    from qermit.noise_model import NoiseModel

    return NoiseModel({getattr(OpType, t): distribution_of(es, rng) for t, es in entries})


def start(string, qubits, coeff=1):
    from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor

    from qermit.noise_model.qermit_pauli import QermitPauli

    return QermitPauli(QubitPauliTensor(string=QubitPauliString(map={q: getattr(Pauli, x) for q, x in zip(qubits, string)}),
                                        coeff=coeff))


def run(plan, ctx):
    ctx.probe(plan["mode"])
    if plan["mode"] != "algebra" and not plan.get("ops"):
        raise PlanInvalid()
    if plan["sparse"]:
        ctx.probe("sparse_register")
    {"propagate": propagate, "certain": certain, "transpile": transpile, "sampled": sampled, "algebra": algebra,
     "zne": zne}[plan["mode"]](plan, ctx)


def same(a, b):
    return np.allclose(a, b, atol=1e-7)


def propagate(plan, ctx):
    """a fault at one location, pushed to the end of the circuit and multiplied onto other faults"""
    from pytket.circuit import Qubit
    from pytket.pauli import Pauli

    qubits = qubits_of(plan)
    n = len(qubits)
    at = min(plan["at"], len(plan["ops"]))
    coeff = [1, 1j, -1, -1j][plan["coeff"]]
    rest = make(plan["ops"][at:], qubits, swap=plan["swap"])
    key = circuit_key(rest)
    order = list(range(n))
    if plan["shuffle"]:
        order.reverse()
    f = start([plan["fault"][i] for i in order], [qubits[i] for i in order], coeff)
    fault = coeff * pauli_matrix(plan["fault"])
    ctx.fault("pauli")
    if set(plan["fault"]) == {"I"}:
        ctx.probe("identity_fault")
    if coeff != 1:
        ctx.probe("phase_coefficient")
    u = qexec.unitary(rest, qubits)
    if plan["swap"] and n > 1:
        ctx.probe("wire_swap")
    if plan["steps"] and not plan["swap"]:
        for c in rest.get_commands():
            if c.op.type != qexec.OpType.Barrier:
                f.apply_gate(c.op, c.qubits)
    else:
        f.apply_circuit(rest)
    ctx.probe("forward")
    ctx.check(circuit_key(rest) == key, "input-mutated", "the circuit was altered")
    got = f.qubit_pauli_tensor
    q = matrix_of(got, qubits)
    if same(complex(got.coeff), -1):
        ctx.probe("negative_sign")
    what = f"fault {coeff}*{plan['fault']} before {rest.get_commands()} reported as {got}"
    ctx.check(same(u @ fault, q @ u), "propagated", what)
    ctx.state("propagate", tuple(types_of(plan["ops"][at:])), plan["fault"], plan["coeff"], plan["swap"])
    # faults that are the same are equal, whatever their history
    ctx.check(f == start([got.string.map.get(x, Pauli.I).name for x in qubits], qubits, got.coeff), "equality", what)
    ctx.check(hash(f) == hash(start([got.string.map.get(x, Pauli.I).name for x in reversed(qubits)], qubits[::-1],
                                    got.coeff)), "equality", what)
    d = f.dagger
    ctx.check(same(matrix_of(d.qubit_pauli_tensor, qubits), q.conj().T), "dagger", what)
    # as circuits
    c = f.circuit
    for x in qubits:
        if x not in c.qubits:
            c.add_qubit(x)
    ctx.check(same(qexec.unitary(c, qubits) * np.exp(1j * math.pi * float(c.phase)), q), "fault-circuit", what)
    control = Qubit("control", 0)
    c = f.get_control_circuit(control)
    for x in qubits:
        if x not in c.qubits:
            c.add_qubit(x)
    ctx.probe("controlled")
    want = np.kron(np.diag([1, 0]), np.eye(2**n)) + np.kron(np.diag([0, 1]), q)
    ctx.check(same(qexec.unitary(c, [control] + qubits), want), "controlled-fault", what)
    # queries
    for k in range(1, 2**n):
        sub = [x for i, x in enumerate(qubits) if k >> i & 1]
        want = any(got.string.map.get(x, Pauli.I) in (Pauli.X, Pauli.Y) for x in sub)
        ctx.check(f.is_measureable(sub) == want, "measurable", lambda: f"{got} on {sub}")
        if len(sub) < n:
            r = f.reduce_qubits(sub).qubit_pauli_tensor
            left = [x for x in qubits if x not in sub]
            ctx.check(all(r.string.map.get(x, Pauli.I) == got.string.map.get(x, Pauli.I) for x in left)
                      and not any(r.string.map.get(x, Pauli.I) != Pauli.I for x in sub) and r.coeff == got.coeff,
                      "reduced", lambda: f"{got} without {sub}: {r}")
    # further faults at the start or the end, then through the circuit again
    x = qubits[plan["seed"] % n]
    p = "XYZI"[plan["seed"] // 7 % 4]
    m = pauli_matrix([p if y == x else "I" for y in qubits])
    (f.pre_apply_pauli if plan["seed"] // 31 % 2 else f.post_apply_pauli)(getattr(Pauli, p), x)
    q = q @ m if plan["seed"] // 31 % 2 else m @ q
    ctx.probe("both_sites")
    ctx.check(same(matrix_of(f.qubit_pauli_tensor, qubits), q), "multiplied", lambda: f"{what}, then {p} at {x}")
    f.apply_circuit(rest)
    ctx.check(same(u @ q, matrix_of(f.qubit_pauli_tensor, qubits) @ u), "propagated", lambda: f"{what}, then {p} at {x}")


def certain(plan, ctx):
    """gates that fail in a known way each time"""
    from qermit.noise_model.noise_model import Direction

    qubits = qubits_of(plan)
    if not plan["model"]:
        raise PlanInvalid()
    model = model_of([[t, [[e, 1.0]]] for t, e in plan["model"]], np.random.default_rng(plan["seed"]))
    circ = make(plan["ops"], qubits, swap=plan["swap"])
    full = make(plan["ops"], qubits, swap=plan["swap"], bits=plan["measure"])
    key = circuit_key(full)
    err = dict(plan["model"])
    errors = {i: err[c.op.type.name] for i, c in enumerate(circ.get_commands()) if c.op.type.name in err}
    ctx.fault("pauli", len(errors))
    u = qexec.unitary(circ, qubits)
    bare = qexec.unitary(insert_errors(circ, {}), qubits)
    uf = u @ bare.conj().T @ qexec.unitary(insert_errors(circ, errors), qubits)
    d = plan["direction"]
    ctx.probe(d)
    if plan["measure"]:
        ctx.probe("measured")
    if plan["swap"] and len(qubits) > 1:
        ctx.probe("wire_swap")
    if any(o[0] == "Barrier" for o in plan["ops"]):
        ctx.probe("barrier")
    ctx.state("certain", d, tuple(types_of(plan["ops"])), tuple(map(tuple, plan["model"])), plan["swap"], plan["measure"])
    got = model.random_propagate(full, direction=getattr(Direction, d))
    q = matrix_of(got.qubit_pauli_tensor, qubits)
    what = f"errors {plan['model']} in {circ.get_commands()} reported as {got} ({d})"
    ctx.check(same(uf, q @ u if d == "forward" else u @ q), "propagated", what)
    ident = same(abs(q), np.eye(len(q)))
    counts = model.counter_propagate(full, n_counts=5, direction=getattr(Direction, d))
    ctx.check(dict(counts) == ({} if ident and set(got.qubit_pauli_tensor.string.map.values()) <= {ident_pauli()}
                               else {got: 5}), "counted", lambda: f"{what}; {counts}")
    if d == "backward":
        ctx.probe("effective_model")
        e = model.get_effective_pre_error_distribution(full, n_rand=4)
        ctx.check(sum(e.distribution.values()) <= 1 + 1e-9 and e.total == 4
                  and sum(e.pauli_error_counter.values()) == (0 if not counts else 4), "counted",
                  lambda: f"{what}; {e.distribution}")
    ctx.check(circuit_key(full) == key, "input-mutated", "the circuit was altered")


def ident_pauli():
    from pytket.pauli import Pauli

    return Pauli.I


def transpile(plan, ctx):
    """the compiler pass inserts the errors of the model and nothing else"""
    from qermit.noise_model import PauliErrorTranspile

    qubits = qubits_of(plan)
    if not plan["model"]:
        raise PlanInvalid()
    err = dict(plan["model"])
    model = model_of([[t, [[e, 1.0]]] for t, e in plan["model"]], np.random.default_rng(plan["seed"]))
    cond = plan["cond"] and plan["measure"]
    circ = make(plan["ops"], qubits, swap=plan["swap"], bits=plan["measure"], cond=cond)
    given = circ.copy()
    PauliErrorTranspile(model).apply(given)
    errors = {i: err[c.op.type.name] for i, c in enumerate(circ.get_commands()) if c.op.type.name in err}
    ctx.fault("pauli", len(errors))
    if plan["measure"]:
        ctx.probe("measured")
    if cond:
        ctx.probe("conditional")
    if plan["swap"] and len(qubits) > 1:
        ctx.probe("wire_swap")
    ctx.state("transpile", tuple(types_of(plan["ops"])), tuple(map(tuple, plan["model"])), plan["swap"],
              plan["measure"], cond, plan["sparse"])
    what = f"errors {plan['model']} in {circ.get_commands()} gave {given.get_commands()}"
    ctx.check(sorted(given.qubits) == sorted(circ.qubits) and sorted(given.bits) == sorted(circ.bits), "registers",
              lambda: f"{circ.qubits}, {circ.bits} became {given.qubits}, {given.bits}")
    want = insert_errors(circ, errors)
    if plan["measure"]:
        a, b = qexec.distribution(given), qexec.distribution(want)
        fix = [given.bits.index(x) for x in want.bits]
        a = {tuple(k[i] for i in fix): v for k, v in a.items()}
        ctx.check(all(abs(a.get(k, 0) - b.get(k, 0)) < 1e-7 for k in set(a) | set(b)), "noisy-circuit", what)
    else:
        u = qexec.unitary(circ, qubits)
        bare = qexec.unitary(insert_errors(circ, {}), qubits)
        ctx.check(qexec.same_up_to_phase(qexec.unitary(given, qubits), u @ bare.conj().T @ qexec.unitary(want, qubits)),
                  "noisy-circuit", what)


def sampled(plan, ctx):
    """random errors occur as often as the model says"""
    from pytket.pauli import Pauli

    from qermit.noise_model import PauliErrorTranspile
    from qermit.noise_model.noise_model import Direction

    qubits = qubits_of(plan)
    n = len(qubits)
    if any(not es for _, es in plan["model"]) or not plan["model"]:
        raise PlanInvalid()
    model = model_of(plan["model"], np.random.default_rng(plan["seed"]))
    circ = make(plan["ops"], qubits, swap=plan["swap"] and plan["what"] != "counter")
    table = {t: es + [["", 1 - sum(p for _, p in es)]] for t, es in plan["model"]}
    sites = [(i, table[c.op.type.name]) for i, c in enumerate(circ.get_commands()) if c.op.type.name in table]
    if len(sites) > 3:
        raise PlanInvalid()
    u = qexec.unitary(circ, qubits)
    bare = qexec.unitary(insert_errors(circ, {}), qubits)
    strings = ["".join(x) for x in itertools.product(LETTERS, repeat=n)]
    mats = [pauli_matrix(s) for s in strings]
    want = {}
    for combo in itertools.product(*[es for _, es in sites]):
        uf = u @ bare.conj().T @ qexec.unitary(insert_errors(circ, {i: e for (i, _), (e, _) in zip(sites, combo)}), qubits)
        q = u.conj().T @ uf if plan["what"] != "counter" else uf @ u.conj().T
        s = strings[max(range(len(mats)), key=lambda j: abs(np.trace(mats[j].conj().T @ q)))]
        want[s] = want.get(s, 0) + math.prod(p for _, p in combo)
    total = 400
    got = {}
    name = lambda qps: "".join(qps.map.get(x, Pauli.I).name for x in qubits)
    if plan["what"] == "transpile":
        total = 150
        pas = PauliErrorTranspile(model)
        for _ in range(total):
            c = circ.copy()
            pas.apply(c)
            q = u.conj().T @ qexec.unitary(c, qubits)
            j = max(range(len(mats)), key=lambda j: abs(np.trace(mats[j].conj().T @ q)))
            ctx.check(abs(abs(np.trace(mats[j].conj().T @ q)) - len(q)) < 1e-6, "noisy-circuit",
                      lambda: f"{c.get_commands()} differs from {circ.get_commands()} by more than Pauli errors")
            got[strings[j]] = got.get(strings[j], 0) + 1
    elif plan["what"] == "effective":
        ctx.probe("effective_model")
        e = model.get_effective_pre_error_distribution(circ, n_rand=total)
        for qps, p in e.distribution.items():
            got[name(qps)] = got.get(name(qps), 0) + p * total
        got["I" * n] = total - sum(v for k, v in got.items() if k != "I" * n)
    else:
        for f, k in model.counter_propagate(circ, n_counts=total, direction=Direction.forward).items():
            s = name(f.qubit_pauli_tensor.string)
            got[s] = got.get(s, 0) + k
        got["I" * n] = total - sum(v for k, v in got.items() if k != "I" * n)
    ctx.fault("pauli", int(total - got.get("I" * n, 0)))
    ctx.state("sampled", plan["what"], tuple(types_of(plan["ops"])), len(sites), len(want))
    for s in set(got) | set(want):
        p, k = want.get(s, 0), got.get(s, 0)
        ctx.check(abs(k - total * p) <= 6 * math.sqrt(total * p * (1 - p)) + (3 if p > 1e-9 else 1e-6), "frequency",
                  lambda: f"{plan['what']}: error {s} occurred {k} of {total} times, expected a rate of {p:.4f}; "
                  f"{plan['model']} in {circ.get_commands()}")


def eigenvalues(pairs, m):
    """how a Pauli channel shrinks every Pauli"""
    anti = lambda a, b: sum(x != y and "I" not in (x, y) for x, y in zip(a, b)) % 2
    return {"".join(s): 1 - 2 * sum(p for e, p in pairs if anti(s, e)) for s in itertools.product(LETTERS, repeat=m)}


def algebra(plan, ctx):
    from collections import Counter

    from pytket.circuit import OpType, Qubit
    from pytket.pauli import Pauli

    from qermit.noise_model import NoiseModel
    from qermit.noise_model.noise_model import ErrorDistribution, LogicalErrorDistribution

    m, chans = plan["m"], plan["channels"]
    if not chans or not all(chans):
        raise PlanInvalid()
    rng = np.random.default_rng(plan["seed"])
    dists = [distribution_of(c, rng) for c in chans]
    back = lambda d: [["".join(p.name for p in e), float(np.real(v))] for e, v in d.distribution.items()]
    close = lambda a, b, tol: all(abs(a[s] - b[s]) <= tol for s in a)
    tol = 2e-6 * 4**m + 1e-9
    ctx.state("algebra", m, len(chans), tuple(len(c) for c in chans), plan["k"])
    for c, d in zip(chans, dists):
        lam = eigenvalues(c, m)
        ptm, index = d.to_ptm()
        ctx.check(same(ptm, np.diag(np.diag(ptm))), "transfer-matrix", lambda: f"{c}: not diagonal")
        for e, i in index.items():
            ctx.close(ptm[i][i], lam["".join(p.name for p in e)], 1e-9, "transfer-matrix", lambda: f"{c} at {e}")
        ctx.check(close(eigenvalues(back(ErrorDistribution.from_ptm(ptm, index)), m), lam, tol), "transfer-matrix",
                  lambda: f"{c} came back as {back(ErrorDistribution.from_ptm(ptm, index))}")
        ctx.close(d.identity_error_rate, 1 - sum(p for _, p in c), 1e-12, "identity-rate", f"{c}")
        k = plan["k"]
        if k == 2.5 and len(c) > 1:
            k = 2
        if min(lam.values()) > 0:
            s = d.scale(k)
            ctx.probe("scaled")
            ctx.check(close(eigenvalues(back(s), m), {x: v**k for x, v in lam.items()}, tol), "scaled",
                      lambda: f"{c} scaled by {k} gave {back(s)}")
            ctx.check(back(d) == [[e, float(p)] for e, p in c], "scaled", "scaling altered the distribution")
        j = ErrorDistribution.from_dict(json.loads(json.dumps(d.to_dict())))
        ctx.probe("json")
        ctx.check(back(j) == back(d) and j == d, "json", lambda: f"{c} came back as {back(j)}")
        d2 = distribution_of(c, rng)
        d2.order(reverse=bool(plan["seed"] % 2))
        vals = [p for _, p in back(d2)]
        ctx.check(sorted(back(d2)) == sorted(back(d)) and vals == sorted(vals, reverse=bool(plan["seed"] % 2)), "ordered",
                  lambda: f"{c} ordered as {back(d2)}")
    mix = ErrorDistribution.mixture(dists)
    ctx.probe("mixture")
    each = [dict((e, p) for e, p in c) for c in chans]
    want = {e: sum(x.get(e, 0) for x in each) / len(each) for x in each for e in x}
    got = dict((e, p) for e, p in back(mix))
    ctx.check(set(got) == set(want) and all(abs(got[e] - want[e]) < 1e-12 for e in want), "mixture",
              lambda: f"{chans} gave {got}")
    types = [OpType.H, OpType.S, OpType.X] if m == 1 else [OpType.CX, OpType.CZ, OpType.ZZMax]
    nm = NoiseModel(dict(zip(types, dists)))
    j = NoiseModel.from_dict(json.loads(json.dumps(nm.to_dict())))
    ctx.check({t: back(j.get_error_distribution(t)) for t in j.noisy_gates}
              == {t: back(d) for t, d in zip(types, dists)} and j == nm, "json", lambda: f"{nm.to_dict()}")
    if plan["empty"]:
        ctx.probe("noiseless_gate")
        nm = NoiseModel({**nm.noise_model, OpType.T: ErrorDistribution({}, rng=rng)})
        ctx.check(nm.get_error_distribution(OpType.T).sample() is None, "noiseless", "an error was drawn")
    if all(min(eigenvalues(c, m).values()) > 0 for c in chans):
        s = nm.scale(2)
        ctx.check(not plan["empty"] or back(s.get_error_distribution(OpType.T)) == [], "noiseless", "an error appeared")
        for t, c in zip(types, chans):
            ctx.check(close(eigenvalues(back(s.get_error_distribution(t)), m),
                            {x: v**2 for x, v in eigenvalues(c, m).items()}, tol), "scaled", lambda: f"{t}: {c}")
        ctx.check(sorted(map(str, s.noisy_gates)) == sorted(map(str, nm.noisy_gates)), "scaled", "gates changed")
    # post-selection of logical errors
    ctx.probe("postselect")
    qs = [Qubit(plan["reg"], i) for i in range(3)]
    errs = Counter()
    for s, k, ph in plan["errors"]:
        if s != "III":
            errs[start(s, qs, [1, 1j, -1, -1j][ph])] += k
    total = sum(errs.values()) + plan["extra"]
    if not total:
        raise PlanInvalid()
    led = LogicalErrorDistribution(errs, total=total)
    post = [qs[i] for i in plan["post"]]
    left = [i for i in range(3) if i not in plan["post"]]
    keep, kept = {}, plan["extra"]
    for s, k, _ in plan["errors"]:
        if s == "III" or any(s[i] in "XY" for i in plan["post"]):
            continue
        kept += k
        t = "".join(s[i] for i in left)
        keep[t] = keep.get(t, 0) + k
    if not kept:
        return
    res = led.post_select(post)
    got = {}
    for qps, p in res.distribution.items():
        t = "".join(qps.map.get(qs[i], Pauli.I).name for i in left)
        got[t] = got.get(t, 0) + p
    for t in set(got) | set(keep):
        if t == "I" * len(left):
            continue
        ctx.close(got.get(t, 0), keep.get(t, 0) / kept, 1e-9, "post-selected",
                  lambda: f"{plan['errors']} + {plan['extra']} clean, keeping {post}: {t}")
    full = {}
    for s, k, _ in plan["errors"]:
        if s != "III":
            full[s] = full.get(s, 0) + k / total
    seen = {}
    for qps, p in led.distribution.items():
        t = "".join(qps.map.get(x, Pauli.I).name for x in qs)
        seen[t] = seen.get(t, 0) + p
    ctx.check(set(seen) == set(full) and all(abs(seen[t] - full[t]) < 1e-9 for t in full), "distribution",
              lambda: f"{plan['errors']}: {seen}")


def zne(plan, ctx):
    """noise-aware extrapolation: the circuits that ran are the noisy samples, each counted once"""
    from qermit import AnsatzCircuit, ObservableExperiment
    from qermit.taskgraph.utils import ObservableTracker, SymbolsDict
    from qermit.zero_noise_extrapolation import Fit, Folding, gen_ZNE_MitEx

    qubits = qubits_of(plan)
    if not plan["obs"] or not plan["model"] or any(int(k) >= len(qubits) for k in plan["obs"]):
        raise PlanInvalid()
    model = model_of(plan["model"], np.random.default_rng(plan["seed"]))
    dev = SimDevice(ctx, seed=plan["seed"])
    s, k = plan["scale"], plan["samples"]
    mx = gen_ZNE_MitEx(dev, [1, s], folding_type=Folding.noise_aware, fit_type=Fit.linear, noise_model=model,
                       n_noisy_circuit_samples=k)
    circ = make(plan["ops"], qubits)
    key = circuit_key(circ)
    # the samples by themselves: one draw of errors each
    direct = Folding.noise_aware(circ, s, noise_model=model, n_noisy_circuit_samples=k)
    ctx.check(len(direct) == k and len({id(x) for x in direct}) == k, "sample-count", lambda: f"{len(direct)} samples for {k}")
    ctx.check(circuit_key(circ) == key, "input-mutated", "the circuit was altered")
    (gate, ((error, _),)), = plan["model"]
    most = sum(o[0] == gate for o in plan["ops"]) * sum(x != "I" for x in error)
    for x in direct:
        extra = x.n_gates - circ.n_gates
        ctx.check(0 <= extra <= most, "sample-errors", lambda: f"{extra} errors in one sample, at most {most} can happen: "
                  f"{x.get_commands()}")
    res = mx.run([ObservableExperiment(AnsatzCircuit(circ, 10**9, SymbolsDict()),
                                       ObservableTracker(exps.make_qpo([[plan["obs"], 1.0]], plan["reg"])))])
    jobs = [j for _, j, _ in dev.log]
    # circuits without additional noise run as often as samples at scale one
    ctx.check(len(jobs) == 2 * k, "sample-count", lambda: f"{len(jobs)} circuits for {k} samples at two noise levels")
    v0 = exps.exact_value({"ops": plan["ops"], "n": plan["n"], "reg": plan["reg"]}, {}, plan["obs"])
    vals = [qexec.parity_expectation(j) for j in jobs]
    mean = (sum(vals) - k * v0) / k
    ctx.fault("pauli", sum(abs(v - v0) > 1e-6 for v in vals))
    ctx.state("zne", s, k, len(plan["ops"]), sum(abs(v - v0) > 1e-6 for v in vals))
    got = exps.lookup(res[0], plan["obs"], plan["reg"])
    ctx.check(len(got) == 1, "strings", lambda: f"{res}")
    ctx.close(got[0], v0 - (mean - v0) / (s - 1), 1e-5 * k, "noise-aware",
              lambda: f"{plan['ops']}, {plan['model']} scaled by {s}, values {vals}")
