"""workload pieces shared by the property modules"""

from collections import Counter

from pytket.circuit import Bit, Circuit, OpType, Qubit
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator
from sympy import Symbol

from . import qexec
from .errors import PlanInvalid, SimFault

ONE = ["H", "X", "Y", "Z", "S", "Sdg", "V", "Vdg"]
ROT = ["Rx", "Ry", "Rz"]
TWO = ["CX", "CZ"]
PAULIS = {"I": Pauli.I, "X": Pauli.X, "Y": Pauli.Y, "Z": Pauli.Z}


def rand_ops(rng, n, depth, one=ONE, rot=ROT, two=TWO, p_two=0.35, p_rot=0.3, syms=()):
    ops = []
    for _ in range(depth):
        r = rng.random()
        if n > 1 and r < p_two and two:
            a, b = rng.sample(range(n), 2)
            ops.append([rng.choice(two), a, b])
        elif r < p_two + p_rot and rot:
            ang = rng.choice([0.25, 0.3, 0.5, 0.7, 1.0, 1.3, 1.75])
            if syms and rng.random() < 0.5:
                ang = rng.choice(list(syms))
            ops.append([rng.choice(rot), ang, rng.randrange(n)])
        elif one:
            ops.append([rng.choice(one), rng.randrange(n)])
    return put_barriers(rng, ops, n)


def put_barriers(rng, ops, n, p=0.1):
    """some circuits of users have barriers"""
    if ops and rng.random() < p:
        for _ in range(rng.choice([1, 1, 2])):
            ops.insert(rng.randint(0, len(ops)), ["Barrier"] + rng.sample(range(n), rng.randint(1, n)))
    return ops


def qubit_list(n, reg="q"):
    return [Qubit(reg, i) for i in range(n)]


def new_circuit(ops, name="ansatz"):
    """an empty circuit; half of the circuits carry a name, the same for all of them (names identify nothing)"""
    return Circuit(name=name) if len(ops) % 2 else Circuit()


def build(ops, n, reg="q"):
    c = new_circuit(ops)
    qs = qubit_list(n, reg)
    for q in qs:
        c.add_qubit(q)
    apply_ops(c, ops, qs)
    return c


def apply_ops(c, ops, qs):
    for op in ops:
        g = op[0]
        t = getattr(OpType, g)
        if g in ROT or g in ("U1", "PhasedX", "ZZPhase"):
            k = 2 if g == "PhasedX" else 1
            params = [Symbol(p) if isinstance(p, str) else p for p in op[1 : 1 + k]]
            args = op[1 + k :]
        else:
            params, args = [], op[1:]
        if any(a >= len(qs) for a in args) or len(set(args)) != len(args):
            raise PlanInvalid("qubit")
        if g == "Barrier":
            c.add_barrier([qs[a] for a in args])
        elif params:
            c.add_gate(t, params, [qs[a] for a in args])
        else:
            c.add_gate(t, [qs[a] for a in args])
    return c


def qps(s, reg="q"):
    """{"0": "X", "2": "Z"} -> QubitPauliString"""
    return QubitPauliString({Qubit(reg, int(k)): PAULIS[v] for k, v in s.items()})


def rand_pauli(rng, n, p_i=0.35, explicit_i=0.1):
    s = {}
    for q in range(n):
        if rng.random() < p_i:
            if rng.random() < explicit_i:
                s[str(q)] = "I"
            continue
        s[str(q)] = rng.choice("XYZ")
    if not any(v != "I" for v in s.values()):
        s[str(rng.randrange(n))] = rng.choice("XYZ")
    return s


def rand_observable(rng, n, k, **kw):
    """[[string, coeff]...] with distinct strings"""
    out, seen = [], set()
    for _ in range(k):
        s = rand_pauli(rng, n, **kw)
        key = tuple(sorted((a, b) for a, b in s.items() if b != "I"))
        if key in seen:
            continue
        seen.add(key)
        out.append([s, rng.choice([1.0, 1.0, -1.0, 0.5, 2.0, -0.25, 3.5])])
    return out


def qpo(terms, reg="q"):
    return QubitPauliOperator({qps(s, reg): c for s, c in terms})


def exact(c, s, reg="q"):
    """exact <P> of a measurement-free circuit"""
    return qexec.pauli_expectation(
        c, {Qubit(reg, int(k)): PAULIS[v] for k, v in s.items() if v != "I"}
    )


def counts_of(result, bits=None):
    return Counter(
        {tuple(int(x) for x in k): int(v) for k, v in result.get_counts(bits).items()}
    )


def total(counts):
    return sum(counts.values())


def dist_of(counts):
    n = sum(counts.values())
    return {k: v / n for k, v in counts.items()}


def tv(p, q):
    return 0.5 * sum(abs(p.get(k, 0) - q.get(k, 0)) for k in set(p) | set(q))


def circuit_key(c):
    """canonical form of a circuit (for before/after comparison)"""
    return repr((c.to_dict()["commands"], str(c.phase), str(c.qubits), str(c.bits)))


def op_terms(op):
    """{frozenset((qubit repr, pauli)) without I: float}"""
    out = {}
    for s, c in op._dict.items():
        k = tuple(sorted((repr(q), p.name) for q, p in s.map.items() if p != Pauli.I))
        out[k] = out.get(k, 0) + complex(c)
    return out


def term_key(s, reg="q"):
    return tuple(sorted((repr(Qubit(reg, int(k))), v) for k, v in s.items() if v != "I"))


def fault_schedule(rng, n_calls, p=0.5, kinds=("error", "timeout")):
    """{call: kind}"""
    if rng.random() > p or n_calls == 0:
        return {}
    k = 1 if rng.random() < 0.8 else 2
    return {str(rng.randrange(n_calls)): rng.choice(kinds) for _ in range(k)}
