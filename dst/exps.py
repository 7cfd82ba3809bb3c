"""Observable experiments: generation, construction, reference values."""

from pytket.circuit import Bit, Circuit, OpType, Qubit
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator
from sympy import Symbol

from . import qexec
from .common import (PAULIS, ROT, PlanInvalid, apply_ops, build, circuit_key, qps,
                     qubit_list, rand_observable, rand_ops, rand_pauli)

SYMS = ["alpha", "beta", "gamma"]
ANGLES = [0.0, 0.15, 0.25, 0.4, 0.5, 0.8, 1.0, 1.1, 1.5, 1.9]


def gen_ansatz(rng, nmax=4, depth=10, syms=True, reg=None, nmin=1, **kw):
    n = rng.randint(nmin, nmax)
    use = rng.sample(SYMS, rng.randint(0, 2)) if syms and rng.random() < 0.5 else []
    ops = rand_ops(rng, n, rng.randint(1, depth), syms=use, **kw)
    return {"n": n, "ops": ops, "reg": reg or rng.choice(["q", "q", "q", "node", "z"])}


def used_syms(ops):
    return sorted({op[1] for op in ops if isinstance(op[1], str)})


def substituted(ops, vals):
    out = []
    for op in ops:
        if isinstance(op[1], str):
            if op[1] not in vals:
                raise PlanInvalid("symbol")
            op = [op[0], vals[op[1]]] + list(op[2:])
        out.append(list(op))
    return out


def make_ansatz(spec):
    return build(spec["ops"], spec["n"], spec["reg"])


def exact_value(spec, vals, string):
    c = build(substituted(spec["ops"], vals), spec["n"], spec["reg"])
    m = {Qubit(spec["reg"], int(k)): PAULIS[v] for k, v in string.items() if v != "I"}
    if any(q.index[0] >= spec["n"] for q in m):
        raise PlanInvalid("qubit")
    return qexec.pauli_expectation(c, m)


def n_qubits_of(string):
    return sum(v != "I" for v in string.values())


def make_qpo(terms, reg):
    return QubitPauliOperator({qps(s, reg): c for s, c in terms})


def symbols_dict(spec, vals, how):
    """a SymbolsDict for the circuit, built in one of the supported ways"""
    from qermit.taskgraph.utils import SymbolsDict

    names = used_syms(spec["ops"])
    if not names:
        return SymbolsDict()
    if how == "dict":
        return SymbolsDict.symbols_from_dict({Symbol(k): vals[k] for k in names})
    if how == "list":
        sd = SymbolsDict.symbols_from_list(names)
        sd.set_values([vals[k] for k in names])
        return sd
    sd = SymbolsDict.symbols_from_circuit(make_ansatz(spec))
    sd.set_values([vals[str(s)] for s in sd.symbols_list])
    return sd


def set_symbols(sd, vals):
    names = [str(s) for s in sd.symbols_list]
    if names:
        sd.set_values([vals[k] for k in names])


def op_snapshot(op):
    return sorted((repr(k), str(v)) for k, v in op._dict.items())


def tracker_snapshot(t):
    """what the caller can see of a tracker"""
    return (op_snapshot(t.qubit_pauli_operator), len(t.measurement_circuits),
            sorted((repr(k), repr(v)) for k, v in t._qps_to_indices.items()))


def lookup(op, string, reg):
    """value of a string in a returned operator (I factors explicit or not)"""
    want = {Qubit(reg, int(k)): PAULIS[v] for k, v in string.items() if v != "I"}
    found = []
    for k, v in op._dict.items():
        if {q: p for q, p in k.map.items() if p != Pauli.I} == want:
            found.append(complex(v))
    return found


def reordering(mitex, yes=True):
    """a workflow of the user's own, which lists the strings of each operator in another order"""
    from typing import List, Tuple

    from qermit import MitTask

    def turn(obj, ops: List[QubitPauliOperator]) -> Tuple[List[QubitPauliOperator]]:
        return ([QubitPauliOperator({k: o._dict[k] for k in reversed(list(o._dict))}) for o in ops],)

    if yes:
        mitex.append(MitTask(_label="turn", _n_in_wires=1, _n_out_wires=1, _method=turn))
    return mitex


def nothing(ctx, workflow, plan):
    """a run without experiments gives no results"""
    if plan["dev_seed"] % 4 == 0:
        ctx.probe("nothing")
        ctx.check(list(workflow.run([])) == [], "nothing", "a run of no experiments gives results")


class Spent:
    """circuits run with each number of shots, between what is needed and what is allowed"""

    def __init__(self):
        self.least, self.most = {}, {}

    def allow(self, shots, lo, hi):
        self.least[shots] = self.least.get(shots, 0) + lo
        self.most[shots] = self.most.get(shots, 0) + hi

    def check(self, ctx, log, what=""):
        n = {}
        for _, _, v in log:
            n[v] = n.get(v, 0) + 1
        ctx.probe("shots_counted")
        ctx.check(all(self.least.get(v, 0) <= n.get(v, 0) <= self.most.get(v, 0) for v in {*self.least, *n}), "shots",
                  lambda: f"{what} circuits by shots {n}, expected {self.least} to {self.most}")
