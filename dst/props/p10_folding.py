"""P10: folding scales the gate count and leaves the unitary alone."""

import numpy as np

from .. import qexec
from ..common import PlanInvalid, apply_ops, circuit_key, qubit_list
from ..device import DEFAULT_GATES, SimDevice

ID = "P10"
RUNS = {"quick": 2200, "thorough": 60000}
LEVEL = "exploration"
RULE = "distinct (folding type, scaling, gates, gates folded, exactness, device gate set) tuples"
REAL = ["Folding.circuit/gate/odd_gate/two_qubit_gate", "digital_folding_task_gen", "pytket rebase and RemoveRedundancies"]
STUB = ["numpy global generator seeded by the simulated entropy source", "device gate set"]
ASSUMPTIONS = ["circuits are measurement free, over pytket's one-, two- and three-qubit gates",
               "odd_gate counts one fold of the last gate as rounding when the gate count is odd"]
SHRINK_LISTS = ("ops", "calls")
PROBES = ["circuit", "gate", "odd_gate", "two_qubit_gate", "fractional", "exact_fractional", "refused",
          "refused_not_exact", "symbolic", "barrier", "wire_swap", "three_qubit", "box_refused", "box_folded",
          "task", "rebased", "no_redundancy", "reference_exact", "bits", "no_gates"]

G1 = ["H", "X", "Y", "Z", "S", "Sdg", "V", "Vdg", "T", "Tdg", "SX", "SXdg"]
P1 = {"Rx": 1, "Ry": 1, "Rz": 1, "U1": 1, "U2": 2, "U3": 3, "TK1": 3, "PhasedX": 2}
G2 = ["CX", "CY", "CZ", "CH", "SWAP", "ZZMax", "ECR", "CV", "CSX", "ISWAPMax"]
P2 = {"CRz": 1, "CU1": 1, "ZZPhase": 1, "XXPhase": 1, "YYPhase": 1, "ISWAP": 1, "TK2": 3, "CRx": 1}
G3 = ["CCX", "CSWAP"]
ANG = [0.1, 0.25, 0.37, 0.5, 0.8, 1.0, 1.3, 1.75, 2.0, 3.1]
TYPES = ["circuit", "gate", "odd_gate", "two_qubit_gate"]


def gen(rng, tier, index):
    n = rng.randint(1, 4)
    ops = []
    syms = rng.random() < 0.2
    easy = rng.random() < 0.4  # only gates every pass leaves alone
    for _ in range(rng.randint(1, 11) if rng.random() < 0.98 else 0):
        r = rng.random()

        def ang():
            return "a" if syms and rng.random() < 0.4 else rng.choice(ANG)

        if r < 0.08:
            k = rng.randint(1, n)
            ops.append(["Barrier", [], rng.sample(range(n), k)])
        elif n > 2 and r < 0.14 and not easy:
            ops.append([rng.choice(G3), [], rng.sample(range(n), 3)])
        elif n > 1 and r < 0.5:
            if easy:
                ops.append(["CX", [], rng.sample(range(n), 2)])
            elif rng.random() < 0.5:
                ops.append([rng.choice(G2), [], rng.sample(range(n), 2)])
            else:
                g = rng.choice(sorted(P2))
                ops.append([g, [ang() for _ in range(P2[g])], rng.sample(range(n), 2)])
        elif easy:
            g = rng.choice(["H", "Rz", "S", "X"])
            ops.append([g, [ang()] if g == "Rz" else [], [rng.randrange(n)]])
        elif rng.random() < 0.5:
            ops.append([rng.choice(G1), [], [rng.randrange(n)]])
        else:
            g = rng.choice(sorted(P1))
            ops.append([g, [ang() for _ in range(P1[g])], [rng.randrange(n)]])
    if all(o[0] == "Barrier" for o in ops):
        ops = ops + [["H", [], [rng.randrange(n)]]] if rng.random() < 0.7 else ops
    box = rng.random() < 0.08
    if box:
        ops.insert(rng.randint(0, len(ops)), ["Box", [], rng.sample(range(n), min(n, 2))])
    calls = []
    for _ in range(rng.randint(1, 5)):
        t = rng.choice(TYPES)
        m = rng.choice(["odd", "odd", "frac", "grid", "grid", "even"])
        if m == "odd":
            s = rng.choice([1, 3, 5, 7, 9])
        elif m == "even":
            s = rng.choice([2, 4, 6])
        elif m == "frac":
            s = rng.choice([1.1, 1.4, 1.5, 1.7, 2.2, 2.5, 3.3, 4.7, 6.5, 8.9])
        else:
            s = ["grid", rng.randint(0, 12)]  # (#gates + 2 i) / #gates
        calls.append({"type": t, "s": s, "approx": rng.random() < 0.6, "task": rng.random() < 0.3})
    return {"n": n, "ops": ops, "calls": calls, "wire_swap": rng.random() < 0.15 and n > 1, "bits": rng.random() < 0.1,
            "phase": rng.choice([0, 0, 0.3]), "reg": rng.choice(["q", "q", "node", "w"]),
            "gates": rng.choice(["full", "full", "noinv", "rebase"])}


def make(plan):
    from pytket.circuit import Bit, CircBox, Circuit, OpType
    from sympy import Symbol

    n = plan["n"]
    qs = qubit_list(n, plan["reg"])
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    if plan["bits"]:
        c.add_bit(Bit("c", 0))
    for g, ps, args in plan["ops"]:
        if any(a >= n for a in args) or len(set(args)) != len(args):
            raise PlanInvalid()
        a = [qs[x] for x in args]
        if g == "Barrier":
            c.add_barrier(a)
        elif g == "Box":
            b = Circuit(len(a)).H(0)
            if len(a) > 1:
                b.CX(0, 1).T(1)
            c.add_circbox(CircBox(b), a)
        elif ps:
            c.add_gate(getattr(OpType, g), [Symbol(p) if isinstance(p, str) else p for p in ps], a)
        else:
            c.add_gate(getattr(OpType, g), a)
    if plan["wire_swap"]:
        # swaps at the end held as a permutation of the wires, as compilers leave them
        c.SWAP(qs[0], qs[1])
        if n > 2:
            c.SWAP(qs[1], qs[2])
        c.replace_SWAPs()
    c.add_phase(plan["phase"])
    return c


def gates_of(c):
    from pytket.circuit import OpType

    return [x for x in c.get_commands() if x.op.type not in (OpType.Barrier,)]


def run(plan, ctx):
    from pytket.circuit import OpType
    from pytket.passes import AutoRebase, DecomposeBoxes, RemoveRedundancies

    from qermit import AnsatzCircuit, ObservableExperiment
    from qermit.taskgraph.utils import ObservableTracker, SymbolsDict
    from qermit.zero_noise_extrapolation import Folding
    from qermit.zero_noise_extrapolation.zne import digital_folding_task_gen

    if not any(o[0] != "Barrier" for o in plan["ops"]):
        ctx.probe("no_gates")
    gates = set(DEFAULT_GATES)
    if plan["gates"] == "noinv":  # gates whose inverse is not available
        gates = {OpType.CX, OpType.Rz, OpType.H, OpType.S, OpType.V, OpType.T, OpType.SX, OpType.Measure}
    if plan["gates"] == "rebase":
        gates = {OpType.CX, OpType.Rz, OpType.Rx, OpType.Measure}
    dev = SimDevice(ctx, gates=gates)
    c = make(plan)
    qs = c.qubits
    if c.is_symbolic():
        ctx.probe("symbolic")
    if plan["bits"]:
        ctx.probe("bits")
    boxed = any(o[0] == "Box" for o in plan["ops"])
    swapped = any(a != b for a, b in c.implicit_qubit_permutation().items())
    if swapped:
        ctx.probe("wire_swap")
    if any(o[0] == "Barrier" for o in plan["ops"]):
        ctx.probe("barrier")
    if any(len(o[2]) == 3 and o[0] != "Barrier" for o in plan["ops"]):
        ctx.probe("three_qubit")

    def ground(circ):
        circ = circ.copy()
        circ.symbol_substitution({s: 0.4321 for s in circ.free_symbols()})
        DecomposeBoxes().apply(circ)
        return circ

    u = qexec.unitary(ground(c), qs)
    key = circuit_key(c)
    base = gates_of(c)
    n_all = len(base)
    n_two = len([x for x in base if len(x.qubits) == 2])
    for call in plan["calls"]:
        t, s, approx = call["type"], call["s"], call["approx"]
        per = n_two if t == "two_qubit_gate" else n_all
        if isinstance(s, list):
            if not per:
                continue
            s = (per + 2 * s[1]) / per
        ctx.probe(t)
        if s % 1:
            ctx.probe("fractional")
        # what the request asks for
        can = True
        exact = per > 0 and abs(per * (s - 1) / 2 - round(per * (s - 1) / 2)) < 1e-9
        if t == "circuit":
            can = s % 2 == 1
        elif t == "odd_gate":
            can = s % 1 == 0
        elif t == "two_qubit_gate":
            can = per > 0 and (approx or exact)
        else:
            can = approx or exact or per == 0
        if exact and s % 1:
            ctx.probe("exact_fractional")
        in_task = call["task"] and not plan["bits"]
        try:
            arg = s
            if t in ("circuit", "odd_gate") and s % 1 == 0:
                arg = int(s)
            if in_task:
                ctx.probe("task")
                sd = SymbolsDict.symbols_from_circuit(c) if c.is_symbolic() else SymbolsDict()
                task = digital_folding_task_gen(dev, arg, getattr(Folding, t), approx)
                from pytket.utils import QubitPauliOperator

                exp = ObservableExperiment(AnsatzCircuit(c, 100, sd), ObservableTracker(QubitPauliOperator({})))
                out = task([[exp]])
                ctx.check(len(out[0]) == 1 and out[1] == [0], "task-shape", lambda: f"{out}")
                f = out[0][0].AnsatzCircuit.Circuit
                ctx.check(out[0][0].AnsatzCircuit.Shots == 100, "task-shots", lambda: f"{out[0][0].AnsatzCircuit.Shots}")
            else:
                r = getattr(Folding, t)(c, arg, _allow_approx_fold=approx)
                ctx.check(len(r) == 1, "fold-count", lambda: f"{len(r)} circuits")
                f = r[0]
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ == "Violation":
                raise
            ctx.check(circuit_key(c) == key, "input-mutated", "the circuit handed in was altered")
            if boxed and t in ("circuit", "two_qubit_gate"):
                ctx.probe("box_refused")
                continue
            if plan["bits"] or swapped:
                continue
            ctx.state(t, s, "refused", per)
            if can and in_task and plan["gates"] != "full":
                # pytket cannot rebase every gate symbolically
                if not can_rebase(c, dev):
                    continue
            if boxed and in_task:
                continue
            ctx.check(not can, "refused", lambda: f"{t} by {s} (approx={approx}) of {per} gates refused: "
                      f"{type(e).__name__}: {e}")
            ctx.probe("refused")
            if t in ("gate", "two_qubit_gate"):
                ctx.probe("refused_not_exact")
            continue
        ctx.check(circuit_key(c) == key, "input-mutated", "the circuit handed in was altered")
        ctx.check(can or swapped or not per, "not-refused", lambda: f"{t} by {s} (approx={approx}) of {per} gates cannot be honoured, not refused")
        if boxed:
            ctx.probe("box_folded")
        ctx.check(set(f.qubits) == set(qs), "qubits", lambda: f"{f.qubits} for {qs}")
        v = qexec.unitary(ground(f), qs)
        ctx.check(qexec.same_up_to_phase(v, u), "unitary", lambda: f"{t} by {s}: {f.get_commands()} of {c.get_commands()}")
        ctx.evals += 1
        if in_task:
            # the folding survives the rebase: count in units of the original's rebased gates
            ref = c.copy()
            dev.rebase_pass().apply(ref)
            ctx.probe("rebased")
            if plan["gates"] != "full" or circuit_key(ref) != key or swapped:
                continue
            # inverse gates may be written with other gates of the device
            fg = gates_of(f)
            ctx.check(bool(fg) == bool(base), "count", "")
            if {x.op.type for x in base} - {OpType.CX, OpType.CZ, OpType.H, OpType.Rz, OpType.Rx, OpType.Ry, OpType.X,
                                            OpType.Y, OpType.Z, OpType.S, OpType.V, OpType.T, OpType.SWAP}:
                continue
        if swapped or not per:
            continue  # the permutation is an operation of its own
        fg = gates_of(f)
        cnt = len([x for x in fg if len(x.qubits) == 2]) if t == "two_qubit_gate" else len(fg)
        if t == "two_qubit_gate":
            ctx.check(len(fg) - cnt == n_all - n_two, "count", "gates on one or three qubits were folded")
        got = cnt / per
        ctx.state(t, s, tuple(x.op.type.name for x in base), tuple(len(x.qubits) for x in fg)[:20], approx, plan["gates"])
        if t == "circuit" or exact and t in ("gate", "two_qubit_gate"):
            ctx.close(got, s, 1e-6, "scaling", lambda: f"{t} of {per} gates (approx={approx}): {cnt}")
            ctx.probe("reference_exact")
        elif t == "odd_gate":
            ctx.check(per * s <= cnt <= per * s + (s - 1), "scaling", lambda: f"{t} by {s}: {cnt} gates of {per}")
        else:
            ctx.check(s - 2 / per - 1e-6 <= got <= s + 1e-6, "scaling",
                      lambda: f"{t} by {s}: {cnt} gates of {per}, one more fold fits")
        # a compiler that removes redundant gates does not undo the folding
        if not boxed and not plan["bits"]:
            one = c.copy()
            RemoveRedundancies().apply(one)
            inv = c.dagger()
            n_inv = len(gates_of(inv))
            RemoveRedundancies().apply(inv)
            if circuit_key(one) == key and len(gates_of(inv)) == n_inv:
                two = f.copy()
                RemoveRedundancies().apply(two)
                lost = len(gates_of(f)) - len(gates_of(two))
                ctx.check(lost == 0, "fold-undone", lambda: f"{t} by {s}: {lost} of {len(fg)} gates are redundant to the compiler")
                ctx.probe("no_redundancy")


def can_rebase(c, dev):
    try:
        for d in (c, c.dagger()):
            d = d.copy()
            dev.rebase_pass().apply(d)
        return True
    except Exception:  # noqa: BLE001
        return False
