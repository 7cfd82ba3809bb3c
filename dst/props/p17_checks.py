"""P17: coherent Pauli checks catch every detectable fault and nothing else."""

import itertools
import random
from collections import Counter

import numpy as np

from .. import qexec
from ..common import PlanInvalid, SimFault, circuit_key, counts_of, new_circuit
from ..device import SimDevice, result_from_counts
from .p16_faults import LETTERS, insert_errors, matrix_of, model_of, pauli_matrix, start

ID = "P17"
RUNS = {"quick": 1000, "thorough": 30000}
LEVEL = "fault_enumeration"
RULE = ("distinct (sampler, gates, sections, registers, fault, flagged or not, checks involved, mid-circuit measurement, "
        "device fault) tuples")
REAL = ["gen_coherent_pauli_check_mitres", "BoxClifford", "get_monochromatic_convex_subdag", "PauliSampler and its subclasses",
        "QermitPauli", "NoiseModel", "PostselectMgr", "MitRes", "TaskGraph"]
STUB = ["device: queue, latency, failures, a Pauli fault of the plan in each group of shots"]
ASSUMPTIONS = ["checked circuits use no register called ancilla or ancilla_measure",
               "faults strike between the gates of the user's circuit, not those of the checks",
               "at most 16 qubits including ancillas"]
SHRINK_LISTS = ("calls", "circuits", "parts", "ops", "list", "faults")
PROBES = ["flagged", "not_flagged", "fault_in_section", "fault_outside", "flagged_by_inner", "flagged_by_outer",
          "several_sections", "no_section", "anticommuting_checks", "negative_check", "phase_check", "identity_check",
          "user_box", "named_box", "permuted_box", "wire_swap", "mid_circuit", "conditional", "optimal", "random",
          "custom", "fixed_z", "fixed_x", "nothing_survives", "fault_surfaced", "retry_ok", "user_circuits_unchanged",
          "barrier", "clifford_circuit", "unmeasured", "certain_errors", "mixed_errors"]

CLIFF1 = ["X", "Y", "Z", "S", "Sdg", "V", "Vdg", "H", "SX", "SXdg"]
CLIFF2 = ["CX", "CX", "CZ", "CY", "SWAP", "ZZMax"]
OTHER = ["Rx", "Ry", "Rz", "T", "CH"]


def gen_part(rng, n, kind):
    ops = []
    if kind == "cliff":
        for _ in range(rng.randint(1, 6)):
            if n > 1 and rng.random() < 0.45:
                ops.append([rng.choice(CLIFF2)] + rng.sample(range(n), 2))
            elif rng.random() < 0.12:
                ops.append(rng.choice([["Rz", 0.5], ["PhasedX", 0.5, 0.5], ["Rz", 1.0]]) + [rng.randrange(n)])
            else:
                ops.append([rng.choice(CLIFF1), rng.randrange(n)])
    elif kind == "other":
        for _ in range(rng.randint(1, 2)):
            t = rng.choice(OTHER)
            if t == "CH":
                if n > 1:
                    ops.append([t] + rng.sample(range(n), 2))
            elif t == "T":
                ops.append([t, rng.randrange(n)])
            else:
                ops.append([t, rng.choice([0.3, 0.7, 1.2, 0.25, 0.75, 1.25]), rng.randrange(n)])
    elif kind == "barrier":
        ops.append(["Barrier"] + rng.sample(range(n), rng.randint(1, n)))
    return ops


def gen(rng, tier, index):
    circuits = []
    for _ in range(rng.randint(1, 2)):
        n = rng.randint(1, 3)
        parts = []
        nb = n
        for _ in range(rng.randint(1, 4)):
            kind = rng.choice(["cliff"] * 4 + ["other"] * 3 + ["barrier", "mid", "cond", "box"])
            if len(circuits) % 2 == 0 and not parts:
                kind = rng.choice(["cliff", "cliff", "other"])
            p = {"kind": kind}
            if kind in ("cliff", "other", "barrier"):
                p["ops"] = gen_part(rng, n, kind)
            elif kind == "box":
                m = rng.randint(1, n)
                p.update(ops=gen_part(rng, m, "cliff"), qubits=rng.sample(range(n), m),
                         name=rng.choice(["Clifford Subcircuit", "Clifford Subcircuit", "Clifford Subcircuit 2", "mine", None]),
                         swap=rng.random() < 0.2)
            elif kind == "mid":
                p.update(q=rng.randrange(n), bit=nb)
                nb += 1
            elif kind == "cond":
                if nb == n:
                    parts.append({"kind": "mid", "q": rng.randrange(n), "bit": nb})
                    nb += 1
                p.update(q=rng.randrange(n), bit=rng.randrange(n, nb), gate=rng.choice(["X", "Z", "H"]))
            parts.append(p)
        bits = list(range(n))
        rng.shuffle(bits)
        circuits.append({"n": n, "nb": nb, "parts": parts, "bits": bits, "reg": rng.choice(["q", "q", "node"]),
                         "sparse": rng.random() < 0.2, "swap": rng.random() < 0.15})
    sampler = rng.choice(["z", "x", "random", "random", "custom", "custom", "optimal"])
    plan = {"circuits": circuits, "sampler": sampler, "checks": rng.randint(1, 2), "seed": rng.getrandbits(40),
            "custom": [["".join(rng.choice(LETTERS) for _ in range(3)), rng.choice([0, 0, 1, 2, 3])]
                       for _ in range(rng.randint(1, 3))],
            "direct": rng.random() < 0.4, "form": rng.choice(["counts", "shots"]), "dev_seed": rng.getrandbits(30)}
    if sampler == "optimal":
        plan["certain"] = rng.random() < 0.5
        plan["checks"] = 1 if rng.random() < 0.8 else 2
        plan["circuits"] = plan["circuits"][:1]
    calls = []
    for _ in range(rng.choice([1, 1, 2])):
        lst = []
        for _ in range(1 if sampler == "optimal" else rng.randint(1, 3)):
            faults = [{"shots": rng.randint(1, 30), "at": rng.randrange(40), "pauli": rng.choice("XYZXYZ") + rng.choice(LETTERS),
                       "flip": rng.random() < 0.5} for _ in range(rng.choice([0, 1, 2, 3]))]
            lst.append({"c": rng.randrange(len(plan["circuits"])), "clean": rng.choice([0, 0, 7, 60]), "faults": faults})
        for x in lst:
            if not x["clean"] and not x["faults"]:
                x["clean"] = 20
        calls.append({"list": lst, "fault": [rng.choice(["error", "timeout", "after_submit"]), rng.randint(0, 3)]
                      if rng.random() < 0.25 else None})
    plan["calls"] = calls
    return plan


def make(spec, ctx, measure=True):
    from pytket.circuit import Bit, CircBox, Circuit, OpType, Qubit

    from ..common import apply_ops

    step = 3 if spec["sparse"] else 1
    qs = [Qubit(spec["reg"], i * step) for i in range(spec["n"])]
    c = new_circuit(spec["parts"])
    for q in qs:
        c.add_qubit(q)
    for b in range(spec["nb"]):
        c.add_bit(Bit("c", b))
    for p in spec["parts"]:
        k = p["kind"]
        if k in ("cliff", "other", "barrier"):
            apply_ops(c, p["ops"], qs)
            if k == "barrier":
                ctx.probe("barrier")
        elif k == "box":
            ctx.probe("user_box")
            m = len(p["qubits"])
            b = Circuit(m, name=p["name"]) if p["name"] else Circuit(m)
            apply_ops(b, p["ops"], b.qubits)
            if p["swap"] and m > 1:
                b.SWAP(0, 1)
                b.replace_SWAPs()
                ctx.probe("permuted_box")
            if p["name"] and p["name"].startswith("Clifford"):
                ctx.probe("named_box")
            c.add_circbox(CircBox(b), [qs[i] for i in p["qubits"]])
        elif not measure:
            continue
        elif k == "mid":
            ctx.probe("mid_circuit")
            c.Measure(qs[p["q"]], Bit("c", p["bit"]))
        else:
            if p["bit"] not in [x["bit"] for x in spec["parts"] if x["kind"] == "mid"]:
                raise PlanInvalid()
            ctx.probe("conditional")
            c.add_gate(getattr(OpType, p["gate"]), [qs[p["q"]]], condition_bits=[Bit("c", p["bit"])], condition_value=1)
    if spec["swap"] and len(qs) > 1:
        ctx.probe("wire_swap")
        c.SWAP(qs[0], qs[1])
        c.replace_SWAPs()
    if not any(p["kind"] not in ("cliff", "barrier") for p in spec["parts"]):
        ctx.probe("clifford_circuit")
    for i, q in enumerate(qs if measure else []):
        c.Measure(q, Bit("c", spec["bits"][i]))
    return c


def symplectic(m, qubits):
    """which X and Z operators on single qubits a Pauli (as a matrix) anticommutes with"""
    n = len(qubits)
    out = 0
    for k in range(2 * n):
        g = np.eye(1)
        for q in range(n):
            g = np.kron(g, np.array([[1, 0], [0, -1]]) if k == 2 * q else np.array([[0, 1], [1, 0]]) if k == 2 * q + 1
                        else np.eye(2))
        if np.allclose(m @ g, -g @ m, atol=1e-6):
            out |= 1 << k
        elif not np.allclose(m @ g, g @ m, atol=1e-6):
            return None
    return out


def clash(a, b, n):
    """whether two Paulis anticommute: bit 2q is the X part at qubit q, bit 2q + 1 the Z part"""
    t = 0
    for q in range(n):
        t ^= (a >> 2 * q & 1) & (b >> 2 * q + 1 & 1)
        t ^= (b >> 2 * q & 1) & (a >> 2 * q + 1 & 1)
    return bool(t)


def judge_optimal(ctx, circ, qubits, errs, mats, plan, out):
    """no other choice of as many checks leaves clearly less of the noise undetected"""
    n = len(qubits)
    noisy = [(i, errs[c.op.type.name]) for i, c in enumerate(circ.get_commands()) if c.op.type.name in errs]
    combos = 1
    for _, es in noisy:
        combos *= len(es) + 1
    if combos > 400:
        return
    ideal = qexec.unitary(insert_errors(circ, {}), qubits).conj().T
    dist = Counter()
    for pick in itertools.product(*[[None] + es for _, es in noisy]):
        prob = 1.0
        faults = {}
        for (i, es), x in zip(noisy, pick):
            if x is None:
                prob *= 1 - sum(p for _, p in es)
            else:
                prob *= x[1]
                faults[i] = x[0]
        if prob > 1e-12:
            v = symplectic(ideal @ qexec.unitary(insert_errors(circ, faults), qubits), qubits)
            if v is None:
                raise PlanInvalid()
            dist[v] += prob

    def undetected(checks):
        return sum(p for v, p in dist.items() if not any(clash(v, c, n) for c in checks))

    got = undetected([symplectic(m, qubits) for m in mats])
    best = min(undetected(c) for c in itertools.combinations(range(1, 4**n), len(mats)))
    ctx.probe("certain_errors" if plan["certain"] else "mixed_errors")
    # the sampler estimates from a thousand random instances
    ctx.check(got <= best + (1e-6 if plan["certain"] else 0.13), "optimal-check",
              lambda: f"errors {errs} in {circ.get_commands()}: checks {out} leave {got} undetected, the best leave {best}")


def make_sampler(plan, ctx):
    """the sampler of the plan, wrapped so that what it was asked and what it answered is known"""
    from qermit.coherent_pauli_checks import (DeterministicXPauliSampler, DeterministicZPauliSampler, OptimalPauliSampler,
                                              PauliSampler, RandomPauliSampler)

    kind = plan["sampler"]
    seen = []
    if kind == "z":
        inner = DeterministicZPauliSampler()
        ctx.probe("fixed_z")
    elif kind == "x":
        inner = DeterministicXPauliSampler()
        ctx.probe("fixed_x")
    elif kind == "random":
        inner = RandomPauliSampler(n_checks=plan["checks"], rng=np.random.default_rng(plan["seed"]))
        ctx.probe("random")
    elif kind == "optimal":
        r = random.Random(plan["seed"])
        errs = {"CX": r.choice("XYZ") + r.choice(LETTERS), "H": r.choice("XYZ"), "CZ": r.choice(LETTERS) + r.choice("XYZ")}
        if plan["certain"]:
            errs = {t: [[e, 1.0]] for t, e in errs.items()}
        else:
            # several errors for a gate, with different rates
            errs = {t: [["".join(e), r.choice([0.05, 0.1, 0.2, 0.3])]
                        for e in r.sample(list(itertools.product(LETTERS, repeat=len(e0)))[:-1], r.randint(1, 3))]
                    for t, e0 in errs.items()}
            errs = {t: [x for x in v if set(x[0]) != {"I"}] for t, v in errs.items()}
            errs = {t: v for t, v in errs.items() if v}
        model = model_of([[t, v] for t, v in errs.items()], np.random.default_rng(plan["seed"]))
        inner = OptimalPauliSampler(model, n_checks=plan["checks"])
        ctx.probe("optimal")
    else:
        inner = None
        ctx.probe("custom")

    class Recording(PauliSampler):
        def sample(self, circ):
            qubits = list(circ.qubits)
            if inner is not None:
                out = inner.sample(circ)
            else:
                out = [start(s[: len(qubits)], qubits, [1, 1j, -1, -1j][k]) for s, k in plan["custom"]]
            mats = [matrix_of(f.qubit_pauli_tensor, qubits) for f in out]
            seen.append((qubits, mats))
            if kind == "optimal":
                judge_optimal(ctx, circ, qubits, errs, mats, plan, out)
            return out

    return Recording(), seen


def run(plan, ctx):
    from pytket.circuit import OpType

    from qermit import CircuitShots
    from qermit.coherent_pauli_checks import gen_coherent_pauli_check_mitres

    if not plan["circuits"] or not plan["calls"] or not plan["custom"]:
        raise PlanInvalid()
    for s in plan["circuits"]:
        if len(s["bits"]) != s["n"] or not s["parts"]:
            raise PlanInvalid()
    circuits = [make(s, ctx) for s in plan["circuits"]]
    keys = [circuit_key(c) for c in circuits]
    sampler, seen = make_sampler(plan, ctx)
    if plan["direct"]:
        for s in plan["circuits"]:
            unmeasured(ctx, make(s, ctx, measure=False), sampler)
        del seen[:]
    current = {"list": [], "serial": 0}
    executed = {}

    def executor(dev, job):
        i = job.serial - current["serial"]
        if not 0 <= i < len(current["list"]):
            return None  # submitted in a run that failed
        item = current["list"][i]
        cmds = job.circuit.get_commands()
        own = set(circuits[item["c"]].qubits)
        sites = [k for k, c in enumerate(cmds) if c.op.type not in (OpType.Barrier, OpType.Measure, OpType.Conditional)
                 and set(c.qubits) <= own]
        counts, parts = Counter(), []
        groups = [(item["clean"], None)] if item["clean"] else []
        for f in item["faults"]:
            if not sites:
                groups.append((f["shots"], None))
                continue
            at = sites[f["at"] % len(sites)]
            qs = list(cmds[at].qubits)
            p = list(zip(qs[::-1] if f["flip"] else qs, f["pauli"]))
            groups.append((f["shots"], (at, [(q, x) for q, x in p if x != "I"])))
            ctx.fault("pauli")
        for shots, fault in groups:
            dist = qexec.distribution(job.circuit, qexec.Noise(fixed={fault[0]: fault[1]}) if fault else None)
            got = qexec.apportion(dist, shots)
            counts.update(got)
            parts.append((shots, fault, dist, got))
        executed[job.serial] = (job.circuit, parts)
        return result_from_counts(dict(counts), list(job.circuit.bits), dev.form, random.Random(job.serial))

    dev = SimDevice(ctx, seed=plan["dev_seed"], form=plan["form"], executor=executor, latency=(0.1, 5.0))
    mr = gen_coherent_pauli_check_mitres(dev, sampler)
    for call in plan["calls"]:
        lst = [x for x in call["list"] if x["c"] < len(circuits)]
        if not lst or any(not x["clean"] and not x["faults"] for x in lst):
            raise PlanInvalid()
        cs = [CircuitShots(circuits[x["c"]], x["clean"] + sum(f["shots"] for f in x["faults"])) for x in lst]
        if call["fault"]:
            dev.faults = {dev.calls + call["fault"][1]: call["fault"][0]}
        current.update(list=lst, serial=dev.serial)
        del seen[:]
        surfaced = False
        try:
            res = mr.run(cs)
        except SimFault:
            ctx.probe("fault_surfaced")
            surfaced = True
            dev.faults = {}
            current.update(serial=dev.serial)
            del seen[:]
            res = mr.run(cs)
            ctx.probe("retry_ok")
        fired = bool(dev.fired)
        dev.faults = {}
        ctx.check(len(res) == len(lst), "result-count", f"{len(lst)} circuits, results {res}")
        at = 0
        for i, x in enumerate(lst):
            job, parts = executed[current["serial"] + i]
            at = judge(plan, ctx, circuits[x["c"]], plan["circuits"][x["c"]], job, parts, seen, at, res[i],
                       fired and surfaced)
        ctx.check(at == len(seen), "checks-unused", lambda: f"{len(seen)} sections were sampled, {at} were checked")
        ctx.check([circuit_key(c) for c in circuits] == keys, "input-mutated", "a circuit of the user was altered")
        ctx.probe("user_circuits_unchanged")


def unmeasured(ctx, circ, sampler):
    """the passes on their own, for circuits that are not measured"""
    from pytket.circuit import OpType
    from pytket.passes import DecomposeBoxes

    from qermit.coherent_pauli_checks.box_clifford_subcircuits import BoxClifford

    ctx.probe("unmeasured")
    own = list(circ.qubits)
    u = qexec.unitary(circ, own)
    boxed = circ.copy()
    BoxClifford().apply(boxed)
    ctx.check(boxed.qubits == own and qexec.same_up_to_phase(qexec.unitary(boxed, own), u), "circuit-altered",
              lambda: f"{circ.get_commands()} boxed as {qexec.strip(boxed).get_commands()}, wires "
              f"{circ.implicit_qubit_permutation()} became {boxed.implicit_qubit_permutation()}")
    key = circuit_key(boxed)
    checked, flags = sampler.add_pauli_checks_to_circbox(boxed)
    ctx.check(circuit_key(boxed) == key, "input-mutated", "the circuit given was altered")
    ancillas = sorted(q for q in checked.qubits if q not in own)
    ctx.check(set(checked.bits) - set(circ.bits) == set(flags) and len(flags) == len(ancillas), "registers",
              lambda: f"{checked.bits}, {flags}, {ancillas}")
    if len(checked.qubits) > 7:
        return
    DecomposeBoxes().apply(checked)
    bare = checked.copy()
    # the ancillas are read last
    read = {c.bits[0]: c.qubits[0] for c in checked.get_commands() if c.op.type == OpType.Measure}
    ctx.check(set(read) == set(flags) and sorted(read.values()) == ancillas, "registers", lambda: f"{read}")
    bare = qexec.without_measures(checked)
    v = qexec.unitary(bare, ancillas + own)
    n, k = 2 ** len(own), 2 ** len(ancillas)
    v = v.reshape(k, n, k, n)
    ctx.check(np.allclose(v[1:, :, 0, :], 0, atol=1e-7), "false-alarm",
              lambda: f"{circ.get_commands()} checked as {checked.get_commands()}")
    ctx.check(qexec.same_up_to_phase(v[0, :, 0, :], u), "circuit-altered",
              lambda: f"{circ.get_commands()} checked as {checked.get_commands()}, wires "
              f"{circ.implicit_qubit_permutation()} became {checked.implicit_qubit_permutation()}")


def marginal(dist, bits, keep):
    ix = [bits.index(b) for b in keep]
    out = {}
    for k, v in dist.items():
        kk = tuple(k[i] for i in ix)
        out[kk] = out.get(kk, 0) + v
    return out


def returned(result, bits):
    """a result without any shots holds no counts"""
    return counts_of(result, bits) if result.contains_state_results or result.contains_measured_results else Counter()


def judge(plan, ctx, circ, spec, job, parts, seen, at, result, faulty):
    from pytket.circuit import OpType

    own, bits = list(circ.qubits), list(circ.bits)
    cmds = job.get_commands()
    jbits = list(job.bits)
    flags = [b for b in jbits if b not in bits]
    ancillas = sorted(q for q in job.qubits if q not in own)
    if len(job.qubits) > 16:
        raise PlanInvalid("size")
    ctx.check(set(own) <= set(job.qubits) and set(bits) <= set(jbits), "registers",
              lambda: f"{own}, {bits} became {job.qubits}, {jbits}")
    # the sections of this circuit: each ancilla belongs to one check
    checks = []
    n_sections = 0
    while len(checks) < len(ancillas):
        ctx.check(at < len(seen), "checks-missing", lambda: f"{len(ancillas)} ancillas, checks {checks}")
        qubits, mats = seen[at]
        checks.extend((qubits, m, n_sections) for m in mats)
        n_sections += 1
        at += 1
    ctx.check(len(checks) == len(ancillas) == len(flags), "checks-missing",
              lambda: f"{len(checks)} checks sampled, ancillas {ancillas}, flags {flags} for {circ.get_commands()}")
    ctx.probe("no_section" if not n_sections else "several_sections" if n_sections > 1 else "one_section")
    for a in range(len(checks)):
        for b in range(a):
            if checks[a][2] == checks[b][2] and not np.allclose(checks[a][1] @ checks[b][1], checks[b][1] @ checks[a][1]):
                ctx.probe("anticommuting_checks")
    for _, m, _ in checks:
        big = m.ravel()[np.argmax(np.abs(m.ravel()))]
        ctx.probe("identity_check" if np.allclose(m, m[0, 0] * np.eye(len(m))) else "check")
        if plan["sampler"] == "custom":
            if abs(m[np.nonzero(abs(m) > 1e-9)][0].real) < 1e-9 and not np.allclose(m, m.conj().T):
                ctx.probe("phase_check")
            elif big.real < 0:
                ctx.probe("negative_check")
    # without faults: as the original, and nothing is discarded
    clean = qexec.distribution(job)
    want = qexec.distribution(circ)
    what = lambda: f"circuit {circ.get_commands()} checked as {cmds}"
    lost = sum(v for k, v in marginal(clean, jbits, flags).items() if any(k)) if flags else 0
    ctx.check(lost < 1e-9, "false-alarm", lambda: f"{lost:.3f} of the shots flagged without a fault; {what()}")
    got = marginal(clean, jbits, bits)
    ctx.check(all(abs(got.get(k, 0) - want.get(k, 0)) < 1e-7 for k in set(got) | set(want)), "circuit-altered",
              lambda: f"outcomes {want} became {got}; {what()}")
    unitary_part(ctx, circ, job, ancillas, what)
    # every group of shots with a fault
    permuted = any(p["kind"] == "box" and p["swap"] and len(p["qubits"]) > 1 for p in spec["parts"])
    expect = Counter()
    for shots, fault, dist, counts in parts:
        flagged = []
        if fault is not None and not permuted:
            flagged = predict(ctx, cmds, own, ancillas, checks, fault)
            p = sum(v for k, v in marginal(dist, jbits, flags).items() if any(k)) if flags else 0
            ctx.check(abs(p - bool(flagged)) < 1e-9, "missed-fault" if flagged else "false-alarm",
                      lambda: f"fault {fault[1]} after command {fault[0]} ({cmds[fault[0]]}): {p:.3f} of the shots are "
                      f"flagged, checks {flagged} anticommute; {what()}")
            ctx.probe("flagged" if flagged else "not_flagged")
            ctx.state(plan["sampler"], cmds[fault[0]].op.type.name, "".join(x for _, x in fault[1]), n_sections,
                      tuple(flagged), len(own), spec["reg"], len(bits) - len(own))
            if not flagged:
                # undiscarded shots are those of the original circuit with this fault
                bare, pos = qexec.new_like(circ), None
                for i, c in enumerate(cmds):
                    if set(c.qubits) <= set(own) and c.op.type != OpType.Barrier:
                        bare.add_gate(c.op, c.args)
                        if i == fault[0]:
                            for q, x in fault[1]:
                                qexec.put_pauli(bare, q, x)
                a, b = marginal(dist, jbits, bits), qexec.distribution(bare)
                ctx.check(all(abs(a.get(k, 0) - b.get(k, 0)) < 1e-7 for k in set(a) | set(b)), "circuit-altered",
                          lambda: f"with fault {fault}: {b} became {a}; {what()}")
        ix, fx = [jbits.index(b) for b in bits], [jbits.index(b) for b in flags]
        for k, v in counts.items():
            if not any(k[i] for i in fx):
                expect[tuple(k[i] for i in ix)] += v
    if not expect:
        ctx.probe("nothing_survives")
    got = returned(result, bits)
    ctx.check(got == expect, "kept-shots", lambda: f"{dict(expect)} survive, {dict(got)} returned; {what()}")
    ctx.check(not expect or sorted(result.c_bits, key=repr) == sorted(bits, key=repr), "registers", lambda: f"{result.c_bits} {bits}")
    ctx.state("clean", plan["sampler"], n_sections, len(own), spec["reg"], spec["sparse"], spec["swap"], permuted, faulty,
              tuple(p["kind"] for p in spec["parts"]))
    return at


def unitary_part(ctx, circ, job, ancillas, what):
    """on ancillas in state 0 the checked circuit is the original"""
    from pytket.circuit import OpType

    if len(job.qubits) > 5:
        return
    for c in circ.get_commands():
        if c.op.type == OpType.Conditional:
            return
    last = {}
    bare = qexec.strip(circ)
    for c in (bare, job):
        seen = set()
        for x in c.get_commands():
            if x.op.type == OpType.Measure:
                seen.add(x.qubits[0])
            elif x.op.type != OpType.Barrier and seen & set(x.qubits):
                return

    def gates(c, units):
        out = qexec.new_like(c, bits=False)
        read = {}
        for x in c.get_commands():
            if x.op.type == OpType.Measure:
                read[x.bits[0]] = x.qubits[0]
            elif x.op.type != OpType.Barrier:
                out.add_gate(x.op, x.args)
        return qexec.unitary(out, units), [read.get(b) for b in circ.bits]

    own = list(circ.qubits)
    u, ru = gates(bare, own)
    v, rv = gates(job, ancillas + own)
    n = len(own)
    v = v.reshape(2 ** len(ancillas), 2**n, 2 ** len(ancillas), 2**n)[0, :, 0, :]
    # the wire each bit is read from may be named differently
    if ru == rv:
        ctx.check(qexec.same_up_to_phase(v, u), "circuit-altered", what)


def predict(ctx, cmds, own, ancillas, checks, fault):
    """which checks the fault anticommutes with"""
    from pytket.circuit import OpType

    i, paulis = fault
    out = []
    inside = False
    for k, (qubits, m, section) in enumerate(checks):
        touch = [j for j, c in enumerate(cmds) if ancillas[k] in c.qubits and len(c.qubits) > 1
                 and c.op.type != OpType.Barrier]
        if not touch or not touch[0] < i < touch[-1] or not {q for q, _ in paulis} <= set(qubits):
            continue
        inside = True
        v = qexec.new_like_units(qubits)
        for j in range(touch[0], i + 1):
            c = cmds[j]
            if set(c.qubits) <= set(qubits) and c.op.type != OpType.Barrier:
                v.add_gate(c.op, c.args)
        v = qexec.unitary(v, qubits)
        d = dict(paulis)
        f = v.conj().T @ pauli_matrix([d.get(q, "I") for q in qubits]) @ v
        if np.allclose(f @ m, -m @ f):
            out.append(k)
    ctx.probe("fault_in_section" if inside else "fault_outside")
    if len(checks) > 1 and out:
        ctx.probe("flagged_by_inner" if checks[out[-1]][2] == checks[out[-1] - 1][2] else "flagged_by_outer")
        if len(out) > 1 or out[0] == 0:
            ctx.probe("flagged_by_outer")
    return out
