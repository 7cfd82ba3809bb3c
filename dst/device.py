"""Simulated quantum device: an asynchronous job queue behind pytket's Backend interface.

Real: pytket Backend base class semantics (handles, caches, status).
Stub: execution (qexec), queueing, latency, failures, compilation placement.
"""

import random
from collections import Counter

import numpy as np
from pytket.backends import Backend, CircuitStatus, ResultHandle, StatusEnum
from pytket.backends.backend_exceptions import CircuitNotRunError
from pytket.backends.backendinfo import BackendInfo
from pytket.backends.backendresult import BackendResult
from pytket.architecture import Architecture, FullyConnected
from pytket.circuit import Bit, Circuit, OpType
from pytket.passes import AutoRebase, DecomposeBoxes, SequencePass
from pytket.predicates import GateSetPredicate
from pytket.utils.outcomearray import OutcomeArray

from . import qexec
from .errors import SimFault
from .seams import CLOCK, harness_rng

DEFAULT_GATES = {
    OpType.H,
    OpType.X,
    OpType.Y,
    OpType.Z,
    OpType.S,
    OpType.Sdg,
    OpType.V,
    OpType.Vdg,
    OpType.T,
    OpType.Tdg,
    OpType.SX,
    OpType.SXdg,
    OpType.Rx,
    OpType.Ry,
    OpType.Rz,
    OpType.U1,
    OpType.U3,
    OpType.CX,
    OpType.CZ,
    OpType.ZZMax,
    OpType.ZZPhase,
    OpType.SWAP,
    OpType.CY,
    OpType.CH,
    OpType.PhasedX,
    OpType.TK1,
    OpType.Measure,
    OpType.Barrier,
    OpType.Reset,
    OpType.noop,
    OpType.Conditional,
    OpType.SetBits,
    OpType.CopyBits,
    OpType.ClassicalTransform,
    OpType.Phase,
}


class Job:
    __slots__ = ("serial", "circuit", "shots", "done_at", "handle", "result", "batch")


class SimDevice(Backend):
    """
    ctx     : run context (event log, fault counters) or None
    mode    : "exact" -> counts apportioned from the exact distribution
              "sample" -> seeded shots
    form    : "shots" | "counts" (how results are delivered)
    faults  : {call number: kind}; calls are numbered over submit/retrieve/compile
    """

    _supports_shots = True
    _supports_counts = True
    _persistent_handles = False

    def __init__(
        self,
        ctx=None,
        seed=0,
        mode="exact",
        form="counts",
        noise=None,
        gates=None,
        faults=None,
        latency=(0.1, 5.0),
        compile_pass=None,
        n_nodes=8,
        architecture=None,
        max_shots=None,
        max_calls=5000,
        executor=None,
        name="dev",
        yield_point=None,
        expectation=False,
        fault_hook=None,
    ):
        super().__init__()
        self.ctx = ctx
        self.seed = seed
        self.rng = random.Random(seed)
        self.mode = mode
        self.form = form
        self.noise = noise
        self.gates = set(gates) if gates else set(DEFAULT_GATES)
        self.faults = dict(faults or {})
        self.latency = latency
        self.jobs = {}
        self.calls = 0
        self.serial = 0
        self.log = []  # (serial, circuit, shots)
        self.batches = []
        self.completion = []
        self.max_shots = max_shots
        self.max_calls = max_calls
        self.executor = executor
        self.compile_pass = compile_pass
        self.name = name
        self.yield_point = yield_point
        self._exp = expectation
        self.fault_hook = fault_hook
        self.exp_calls = 0
        self._arch = architecture or FullyConnected(n_nodes)
        self.fired = []
        self._session_random = random.Random(seed ^ 0x5EED)
        self.scramble_bits = random.Random(seed ^ 0xB175).random() < 0.3

    def __deepcopy__(self, memo):
        # a device is a remote entity: copying a client must not clone it
        return self

    def __copy__(self):
        return self

    # ---- pytket Backend interface
    @property
    def required_predicates(self):
        return [GateSetPredicate(self.gates)]

    def rebase_pass(self):
        return AutoRebase(self.gates - {OpType.Conditional})

    def default_compilation_pass(self, optimisation_level=2):
        kind = self._call("compile")
        if kind is not None:
            raise SimFault(kind, "compile")
        if self.compile_pass is not None:
            return self.compile_pass(self, optimisation_level)
        return SequencePass([DecomposeBoxes(), self.rebase_pass()])

    @property
    def backend_info(self):
        return BackendInfo(
            name=self.name,
            device_name="sim",
            version="1",
            architecture=self._arch,
            gate_set=self.gates,
        )

    # ---- exact expectation values (simulator backends only)
    @property
    def supports_expectation(self):
        return self._exp

    @property
    def expectation_allows_nonhermitian(self):
        return True

    def get_operator_expectation_value(self, state_circuit, operator, **kw):
        kind = self._call("expectation")
        if kind is not None:
            raise SimFault(kind, "expectation")
        self.exp_calls += 1
        if sorted(map(repr, state_circuit.qubits)) != sorted(
            f"q[{i}]" for i in range(state_circuit.n_qubits)
        ):
            raise SimFault("refused", "circuit is not over the default register")
        return sum(
            complex(c) * qexec.pauli_expectation(state_circuit, dict(s.map.items()))
            for s, c in operator._dict.items()
        )

    @property
    def _result_id_type(self):
        return (int, int)

    def _call(self, what):
        k = self.calls
        self.calls += 1
        if self.calls > self.max_calls:
            from .errors import Violation

            raise Violation(
                "runaway", f"more than {self.max_calls} device calls in one run"
            )
        if self.yield_point is not None:
            self.yield_point(f"{self.name}:{what}:{k}")
        if self.ctx is not None:
            self.ctx.event(f"{self.name}.{what}#{k}")
        kind = self.faults.pop(k, None)
        if kind is None and self.fault_hook is not None:
            kind = self.fault_hook(self.name, what)
        if kind is not None:
            self.fired.append((k, kind, what))
            if self.ctx is not None:
                self.ctx.fault(f"{what}_{kind}")
            return kind
        return None

    def _maybe_raise(self, kind, what):
        if kind is not None:
            raise SimFault(kind, what)

    def process_circuits(self, circuits, n_shots=None, valid_check=True, **kwargs):
        kind = self._call("submit")
        self._maybe_raise(kind if kind in ("error", "timeout") else None, "submit")
        circuits = list(circuits)
        shots = self._get_n_shots_as_list(n_shots, len(circuits), optional=False)
        if valid_check:
            self._check_all_circuits(circuits, nomeasure_warn=False)
        if self.max_shots is not None:
            for s in shots:
                if s > self.max_shots:
                    raise SimFault("quota", f"{s} shots > {self.max_shots}")
        handles = []
        batch = []
        for c, s in zip(circuits, shots):
            j = Job()
            j.serial = self.serial
            self.serial += 1
            j.circuit = c.copy()
            j.shots = int(s)
            lat = self.latency[0] + self.rng.random() * (
                self.latency[1] - self.latency[0]
            )
            j.done_at = CLOCK.now + lat
            j.result = None
            j.handle = ResultHandle(j.serial, self.rng.getrandbits(30))
            self.jobs[j.handle] = j
            self._cache[j.handle] = {}
            handles.append(j.handle)
            batch.append(j.serial)
            self.log.append((j.serial, j.circuit, j.shots))
            if self.ctx is not None:
                self.ctx.event(f"{self.name}.job {j.serial} shots={j.shots}")
        self.batches.append(batch)
        if kind in ("after_submit",):
            # the connection drops after the jobs were accepted
            raise SimFault("after_submit", "submit")
        return handles

    def circuit_status(self, handle):
        j = self.jobs.get(handle)
        if j is None:
            return CircuitStatus(StatusEnum.ERROR, "unknown")
        if j.done_at <= CLOCK.now:
            return CircuitStatus(StatusEnum.COMPLETED)
        return CircuitStatus(StatusEnum.QUEUED)

    def by_serial(self, serial):
        for j in self.jobs.values():
            if j.serial == serial:
                return j
        raise KeyError(serial)

    def _advance(self, until):
        """run the queue up to simulated time `until` (completions in time order)"""
        pend = sorted(
            (j for j in self.jobs.values() if j.result is None and j.done_at <= until),
            key=lambda j: (j.done_at, j.serial),
        )
        for j in pend:
            CLOCK.now = max(CLOCK.now, j.done_at)
            j.result = self._execute(j)
            self.completion.append(j.serial)
            if self.ctx is not None:
                self.ctx.event(f"{self.name}.done {j.serial}")
            self._cache.setdefault(j.handle, {})["result"] = j.result
        CLOCK.now = max(CLOCK.now, until)

    def get_result(self, handle, **kwargs):
        self._check_handle_type(handle)
        kind = self._call("retrieve")
        if kind is not None:
            raise SimFault(kind, "retrieve")
        j = self.jobs.get(handle)
        if j is None:
            raise CircuitNotRunError(handle)
        if j.result is None:
            self._advance(j.done_at)
        self._cache.setdefault(handle, {})["result"] = j.result
        return j.result

    # ---- execution (stub of the physical device)
    def _execute(self, j):
        if self.executor is not None:
            r = self.executor(self, j)
            if r is not None:
                return r
        dist = qexec.distribution(j.circuit, self.noise)
        return self.make_result(j, dist)

    def make_result(self, j, dist):
        bits = list(j.circuit.bits)
        if self.mode == "exact":
            counts = qexec.apportion(dist, j.shots)
        else:
            g = harness_rng([self.seed & 0xFFFFFFFF, j.serial])
            keys = sorted(dist)
            draw = g.multinomial(j.shots, [dist[k] for k in keys])
            counts = {k: int(c) for k, c in zip(keys, draw) if c}
        if self.scramble_bits:
            # a result names its bits; the order in which it lists them is the device's own
            perm = list(range(len(bits)))
            self._session_random.shuffle(perm)
            bits = [bits[i] for i in perm]
            counts = {tuple(k[i] for i in perm): c for k, c in counts.items()}
        return result_from_counts(
            counts, bits, self.form, random.Random(self.seed * 7919 + j.serial)
        )


def result_from_counts(counts, bits, form="counts", shuffle=None):
    if form == "shots":
        rows = []
        for k, c in sorted(counts.items()):
            rows.extend([list(k)] * c)
        if shuffle is not None:
            shuffle.shuffle(rows)
        return BackendResult(shots=OutcomeArray.from_readouts(rows), c_bits=bits)
    return BackendResult(
        counts=Counter(
            {OutcomeArray.from_readouts([list(k)]): int(c) for k, c in counts.items()}
        ),
        c_bits=bits,
    )


class SimAer(SimDevice):
    """stands in for pytket.extensions.qiskit.AerBackend (noiseless sampling)"""

    CTX = None
    SEED = [0]
    FAULTS = {}
    LOG = None  # list: (circuit, shots, counts) of everything that ran on any instance

    def _execute(self, j):
        if self.ctx is not SimAer.CTX:
            self.ctx = SimAer.CTX
        r = super()._execute(j)
        if SimAer.LOG is not None:
            SimAer.LOG.append((j.circuit, j.shots, r.get_counts(list(j.circuit.bits))))
        return r

    def __init__(self, *a, **k):
        SimAer.SEED[0] += 1
        super().__init__(
            ctx=SimAer.CTX,
            seed=SimAer.SEED[0],
            mode="sample",
            form="shots",
            name=f"aer{SimAer.SEED[0]}",
            max_calls=100000,
        )
        self.faults = SimAer.FAULTS  # shared: numbered over all instances is not needed

    def __reduce__(self):
        return (SimAer, ())
