"""Small, independent quantum executor (numpy).  Given a circuit and an optional noise spec
it returns the exact joint distribution of the classical register.  Independent of qermit and
of pytket's own simulators: only Op.get_unitary() of individual gates is taken from pytket."""

import itertools
import math

import numpy as np
from pytket.circuit import OpType, Pauli

_ucache = {}

I2 = np.eye(2, dtype=complex)
PX = np.array([[0, 1], [1, 0]], dtype=complex)
PY = np.array([[0, -1j], [1j, 0]], dtype=complex)
PZ = np.array([[1, 0], [0, -1]], dtype=complex)
PMAT = {"I": I2, "X": PX, "Y": PY, "Z": PZ}
PAULI = {Pauli.I: I2, Pauli.X: PX, Pauli.Y: PY, Pauli.Z: PZ}

SKIP = {OpType.Barrier, OpType.noop, OpType.Phase}


def op_unitary(op):
    try:
        key = (op.type, tuple(float(p) for p in op.params))
        hash(key)
        simple = not hasattr(op, "get_circuit")
    except Exception:
        simple = False
        key = None
    if simple and key in _ucache:
        return _ucache[key]
    u = np.asarray(op.get_unitary())
    if simple:
        if len(_ucache) > 20000:
            _ucache.clear()
        _ucache[key] = u
    return u


def apply_u(psi, u, qs, n):
    """psi: array of shape (2,)*n + batch"""
    k = len(qs)
    if k == 1:
        return np.matmul(u, psi.reshape(2 ** qs[0], 2, -1)).reshape(psi.shape)
    t = u.reshape((2,) * (2 * k))
    out = np.tensordot(t, psi, axes=(list(range(k, 2 * k)), list(qs)))
    return np.moveaxis(out, list(range(k)), list(qs))


def flat_commands(circ):
    """(op, qubits, bits, condition) with boxes that have no unitary decomposed"""
    out = []
    for cmd in circ.get_commands():
        out.append((cmd.op, list(cmd.qubits), list(cmd.bits), cmd.args))
    return out


def strip(circ):
    types = {c.op.type for c in circ.get_commands()}
    if any(
        t
        in (
            OpType.CircBox,
            OpType.PauliExpBox,
            OpType.ConjugationBox,
        )
        for t in types
    ):
        from pytket.passes import DecomposeBoxes

        circ = circ.copy()
        DecomposeBoxes().apply(circ)
    return circ


class Noise:
    """noise spec (all optional)

    readout: {qubit repr: (p01, p10)}      p01 = P(read 1 | 0)
    joint:   [( [qubit reprs], matrix )]   columns = true state, applied on the joint
                                           state of those qubits (first = most significant)
                                           at every measurement of the set
    pauli:   fn(op, qubits) -> list of (prob, {qubit: 'X'...})  (probabilities of faults
             after the op; the remainder is no fault)
    fixed:   {command index: [(qubit, 'X'|'Y'|'Z'), ...]} faults after that command
    mix:     fn(circ) -> lambda, final distribution = lambda p + (1-lambda) uniform
    """

    #  parity: fn(circ, e) -> y, the distribution is tilted so that the parity of all measured
    #          bits has expectation y instead of e
    def __init__(self, readout=None, joint=None, pauli=None, fixed=None, mix=None, parity=None):
        self.parity = parity
        self.readout = readout or {}
        self.joint = joint or []
        self.pauli = pauli
        self.fixed = fixed or {}
        self.mix = mix


def statevector(circ, qubits=None):
    """pure state of a measurement-free circuit over `qubits` (default circ.qubits)"""
    circ = strip(circ)
    qubits = list(qubits if qubits is not None else circ.qubits)
    n = len(qubits)
    idx = {q: i for i, q in enumerate(qubits)}
    psi = np.zeros((2,) * n, dtype=complex)
    psi[(0,) * n] = 1.0
    for cmd in circ.get_commands():
        op = cmd.op
        if op.type in SKIP:
            continue
        psi = apply_u(psi, op_unitary(op), [idx[q] for q in cmd.qubits], n)
    # implicit permutation: output on wire: value of q appears at perm[q]
    perm = circ.implicit_qubit_permutation()
    if any(a != b for a, b in perm.items()):
        src = list(range(n))
        for a, b in perm.items():
            src[idx[b]] = idx[a]
        psi = np.transpose(psi, src)
    return psi * np.exp(1j * math.pi * float(circ.phase))


def unitary(circ, qubits=None):
    circ = strip(circ)
    qubits = list(qubits if qubits is not None else circ.qubits)
    n = len(qubits)
    idx = {q: i for i, q in enumerate(qubits)}
    psi = np.eye(2**n, dtype=complex).reshape((2,) * n + (2**n,))
    for cmd in circ.get_commands():
        op = cmd.op
        if op.type in SKIP:
            continue
        psi = apply_u(psi, op_unitary(op), [idx[q] for q in cmd.qubits], n)
    perm = circ.implicit_qubit_permutation()
    if any(a != b for a, b in perm.items()):
        src = list(range(n))
        for a, b in perm.items():
            src[idx[b]] = idx[a]
        psi = np.transpose(psi, src + [n])
    return psi.reshape(2**n, 2**n)


def same_up_to_phase(u, v, tol=1e-6):
    if u.shape != v.shape:
        return False
    i = np.unravel_index(np.argmax(np.abs(v)), v.shape)
    if abs(v[i]) < 1e-12:
        return np.allclose(u, v, atol=tol)
    ph = u[i] / v[i]
    return abs(abs(ph) - 1) < 1e-5 and np.allclose(u, ph * v, atol=tol)


def _mask_shape(n, q):
    return tuple([slice(None)] * q)


def distribution(circ, noise=None, tol=1e-12):
    """exact joint distribution {tuple of bit values in circ.bits order: prob}"""
    circ = strip(circ)
    noise = noise or Noise()
    qubits = list(circ.qubits)
    bits = list(circ.bits)
    n = len(qubits)
    qi = {q: i for i, q in enumerate(qubits)}
    bi = {b: i for i, b in enumerate(bits)}
    cmds = circ.get_commands()
    use_dm = noise.pauli is not None
    # position of last non-trivial use of each qubit / bit
    last_q, last_b = {}, {}
    for pos, cmd in enumerate(cmds):
        if cmd.op.type == OpType.Barrier:
            continue
        for a in cmd.args:
            last_q[a] = pos
    joint_qubits = {q for grp, _ in noise.joint for q in grp}

    dim_axes = 2 * n if use_dm else n
    st = np.zeros((2,) * dim_axes, dtype=complex)
    st[(0,) * dim_axes] = 1.0
    branches = [(1.0, st, (0,) * len(bits))]
    deferred = []  # (qubit index, bit index, qubit)

    def gate(s, u, qs):
        s = apply_u(s, u, qs, dim_axes)
        if use_dm:
            s = apply_u(s, u.conj(), [q + n for q in qs], dim_axes)
        return s

    def probs_diag(s):
        if use_dm:
            return np.real(np.diagonal(s.reshape(2**n, 2**n))).reshape((2,) * n)
        return np.abs(s) ** 2

    def project(s, q, v):
        s = s.copy()
        sl = [slice(None)] * dim_axes
        sl[q] = 1 - v
        s[tuple(sl)] = 0
        if use_dm:
            sl = [slice(None)] * dim_axes
            sl[q + n] = 1 - v
            s[tuple(sl)] = 0
        return s

    def weight(s):
        return float(np.sum(probs_diag(s)))

    def flip_channel(q, outcome_true):
        p01, p10 = noise.readout.get(repr(q), (0.0, 0.0))
        if outcome_true == 0:
            return [(1 - p01, 0), (p01, 1)]
        return [(1 - p10, 1), (p10, 0)]

    for pos, cmd in enumerate(cmds):
        op = cmd.op
        cond = None
        qargs, bargs = list(cmd.qubits), list(cmd.bits)
        if op.type == OpType.Conditional:
            cond = (cmd.args[: op.width], op.value)
            inner = op.op
            rest = cmd.args[op.width :]
            qargs = [a for a in rest if a in qi]
            bargs = [a for a in rest if a in bi]
            op = inner
        if op.type in SKIP:
            continue

        def active(bv):
            if cond is None:
                return True
            val = sum(bv[bi[b]] << k for k, b in enumerate(cond[0]))
            return val == cond[1]

        if op.type == OpType.Measure:
            q, b = qargs[0], bargs[0]
            if (
                cond is None
                and last_q.get(q) == pos
                and last_q.get(b) == pos
            ):
                deferred.append((qi[q], bi[b], q))
                continue
            new = []
            for w, s, bv in branches:
                if not active(bv):
                    new.append((w, s, bv))
                    continue
                for v in (0, 1):
                    ps = project(s, qi[q], v)
                    pw = weight(ps)
                    if pw < tol:
                        continue
                    for pr, seen in flip_channel(q, v):
                        if pr * pw < tol:
                            continue
                        nb = list(bv)
                        nb[bi[b]] = seen
                        new.append((w * pr, ps, tuple(nb)))
            branches = _merge(new)
        elif op.type == OpType.Reset:
            new = []
            for w, s, bv in branches:
                for v in (0, 1):
                    ps = project(s, qi[qargs[0]], v)
                    if weight(ps) < tol:
                        continue
                    if v:
                        ps = gate(ps, PX, [qi[qargs[0]]])
                    new.append((w, ps, bv))
            branches = new
        elif op.type == OpType.SetBits:
            new = []
            for w, s, bv in branches:
                nb = list(bv)
                if active(bv):
                    for b, v in zip(bargs, op.values):
                        nb[bi[b]] = int(v)
                new.append((w, s, tuple(nb)))
            branches = new
        else:
            u = op_unitary(op)
            qs = [qi[q] for q in qargs]
            new = []
            for w, s, bv in branches:
                if active(bv):
                    s = gate(s, u, qs)
                    if noise.pauli is not None:
                        faults = noise.pauli(op, qargs)
                        if faults:
                            tot = sum(p for p, _ in faults)
                            acc = (1 - tot) * s
                            for p, f in faults:
                                t = s
                                for fq, fp in f.items():
                                    t = gate(t, PMAT[fp], [qi[fq]])
                                acc = acc + p * t
                            s = acc
                new.append((w, s, bv))
            branches = new
        for fq, fp in noise.fixed.get(pos, ()):
            branches = [
                (w, gate(s, PMAT[fp], [qi[fq]]), bv) for w, s, bv in branches
            ]

    out = {}
    dq = [d[0] for d in deferred]
    for w, s, bv in branches:
        p = probs_diag(s)
        # keep joint qubits too: correlated readout acts on the whole group
        keep = sorted(set(dq) | {qi[q] for q in joint_qubits if q in qi})
        others = tuple(i for i in range(n) if i not in keep)
        p = p.sum(axis=others) if others else p
        pos_of = {q: i for i, q in enumerate(keep)}
        for grp, mat in noise.joint:
            k = len(grp)
            t = np.asarray(mat).reshape((2,) * (2 * k))
            # qubits the circuit does not use are in state 0; their readout is ignored
            for a in reversed([i for i, q in enumerate(grp) if q not in qi]):
                t = np.take(t, 0, axis=t.ndim // 2 + a).sum(axis=a)
            axes = [pos_of[qi[q]] for q in grp if q in qi]
            k = len(axes)
            if k == 0:
                continue
            p = np.moveaxis(
                np.tensordot(t, p, axes=(list(range(k, 2 * k)), axes)),
                list(range(k)),
                axes,
            )
        for q_i, b_i, q in deferred:
            p01, p10 = noise.readout.get(repr(q), (0.0, 0.0))
            if p01 or p10:
                m = np.array([[1 - p01, p10], [p01, 1 - p10]])
                p = np.moveaxis(
                    np.tensordot(m, p, axes=([1], [pos_of[q_i]])), 0, pos_of[q_i]
                )
        extra = tuple(i for i, q in enumerate(keep) if q not in dq)
        if extra:
            p = p.sum(axis=extra)
        keep = [q for q in keep if q in dq]
        pos_of = {q: i for i, q in enumerate(keep)}
        flat = p.reshape(-1)
        for ix in np.nonzero(flat > tol)[0]:
            vals = np.unravel_index(ix, p.shape) if p.ndim else ()
            nb = list(bv)
            for q_i, b_i, _ in deferred:
                nb[b_i] = int(vals[pos_of[q_i]])
            nb = tuple(nb)
            out[nb] = out.get(nb, 0.0) + w * float(flat[ix])
    if noise.mix is not None:
        lam = noise.mix(circ)
        written = sorted(
            {bi[b] for c in cmds for b in c.bits if c.op.type == OpType.Measure}
        )
        mixed = {k: lam * v for k, v in out.items()}
        m = len(written)
        for vals in itertools.product((0, 1), repeat=m):
            nb = [0] * len(bits)
            for b, v in zip(written, vals):
                nb[b] = v
            nb = tuple(nb)
            mixed[nb] = mixed.get(nb, 0.0) + (1 - lam) / 2**m
        out = mixed
    if noise.parity is not None:
        out = _tilt(circ, out, noise.parity, cmds, bi, len(bits))
    tot = sum(out.values())
    return {k: v / tot for k, v in sorted(out.items())}


def parity_expectation(circ, dist=None):
    """expectation of the parity of the bits the circuit measures"""
    dist = distribution(circ) if dist is None else dist
    w = {b for c in circ.get_commands() if c.op.type == OpType.Measure for b in c.bits}
    ix = [i for i, b in enumerate(circ.bits) if b in w]
    return sum(p * (-1) ** sum(k[i] for i in ix) for k, p in dist.items())


def _tilt(circ, out, fn, cmds, bi, nbits):
    written = sorted({bi[b] for c in cmds for b in c.bits if c.op.type == OpType.Measure})
    if not written:
        return out
    e = sum(p * (-1) ** sum(k[i] for i in written) for k, p in out.items())
    y = fn(circ, e)
    sign = 1 if y > e else -1
    t = (y - e) / (sign - e) if abs(sign - e) > 1e-12 else 0.0
    new = {k: (1 - t) * v for k, v in out.items()}
    m = len(written)
    for vals in itertools.product((0, 1), repeat=m):
        if (-1) ** sum(vals) != sign:
            continue
        nb = [0] * nbits
        for b, v in zip(written, vals):
            nb[b] = v
        nb = tuple(nb)
        new[nb] = new.get(nb, 0.0) + t / 2 ** (m - 1)
    return new


def _merge(branches):
    return branches


def apportion(dist, n):
    """deterministic integer counts closest to n * dist (largest remainder)"""
    keys = sorted(dist)
    raw = [dist[k] * n for k in keys]
    base = [int(math.floor(r + 1e-9)) for r in raw]
    left = n - sum(base)
    order = sorted(range(len(keys)), key=lambda i: (-(raw[i] - base[i]), i))
    for i in order[: max(left, 0)]:
        base[i] += 1
    return {k: c for k, c in zip(keys, base) if c > 0}


def pauli_expectation(circ, qps_map, coeff=1.0):
    """<psi| P |psi> for a measurement-free circuit; qps_map {Qubit: Pauli}"""
    qubits = list(circ.qubits)
    psi = statevector(circ, qubits)
    n = len(qubits)
    phi = psi
    for q, p in qps_map.items():
        phi = apply_u(phi, PAULI[p], [qubits.index(q)], n)
    return float(np.real(np.vdot(psi.reshape(-1), phi.reshape(-1)))) * coeff


def new_like(circ, bits=True):
    """an empty circuit over the same units"""
    from pytket.circuit import Circuit

    out = Circuit()
    for q in circ.qubits:
        out.add_qubit(q)
    if bits:
        for b in circ.bits:
            out.add_bit(b)
    return out


def put_pauli(circ, q, p):
    if p != "I":
        circ.add_gate(getattr(OpType, p), [q])


def new_like_units(units):
    from pytket.circuit import Circuit

    out = Circuit()
    for q in units:
        out.add_qubit(q)
    return out


def without_measures(circ):
    """the circuit without its measurements (the permutation of wires is kept)"""
    from pytket.circuit import Circuit

    out = new_like(circ)
    for c in circ.get_commands():
        if c.op.type not in (OpType.Measure, OpType.Barrier):
            out.add_gate(c.op, c.args)
    perm = circ.implicit_qubit_permutation()
    p = new_like_units(circ.qubits)
    at = {q: q for q in perm}
    for a, b in perm.items():
        if at[a] != b:
            p.SWAP(at[a], b)
            other = next(q for q in at if at[q] == b)
            at[a], at[other] = b, at[a]
    out.append(p)
    return out
