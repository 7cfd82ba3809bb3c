"""Seams: every source of nondeterminism the library can reach is put behind the
simulator here, *before* qermit is imported.

  numpy.random.default_rng()   unseeded -> PCG64 seeded from the simulated entropy source
  numpy.random.seed(None)      -> reseeded from the simulated entropy source
  random.seed(None)            -> same
  uuid.uuid4()                 -> simulated entropy source
  os.urandom / secrets         -> simulated entropy source
  multiprocessing.Pool         -> SimPool (see pool.py), cooperative, seeded completion order
  pytket.tailoring.*           -> seeded choice among the real get_all_circuits() instances
  time.sleep / time.time       -> simulated clock

The simulated entropy source is a PRNG re-seeded at the start of each run from the run's
plan, so that one seed is one repeatable execution.
"""

import os

for _v in (
    "OMP_NUM_THREADS",
    "OPENBLAS_NUM_THREADS",
    "MKL_NUM_THREADS",
    "RAYON_NUM_THREADS",
    "QISKIT_NUM_PROCS",
):
    os.environ[_v] = "1"
os.environ["QISKIT_PARALLEL"] = "FALSE"

import random
import uuid

import numpy as np

# real ones, for the harness itself
_real_default_rng = np.random.default_rng
_real_np_seed = np.random.seed
_real_random_seed = random.seed


class Entropy:
    """the simulated operating-system entropy source"""

    def __init__(self):
        self.rng = random.Random(12345)
        self.draws = {}

    def reset(self, seed):
        self.rng = random.Random(seed)
        self.draws = {}

    def bits(self, n, who):
        self.draws[who] = self.draws.get(who, 0) + 1
        return self.rng.getrandbits(n)


ENTROPY = Entropy()


class SimClock:
    def __init__(self):
        self.now = 0.0

    def reset(self):
        self.now = 0.0


CLOCK = SimClock()


def harness_rng(seed):
    """numpy generator for the harness (never goes through the patched default_rng)"""
    return np.random.Generator(np.random.PCG64(seed))


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True

    def default_rng(seed=None):
        if seed is None:
            seed = ENTROPY.bits(63, "default_rng")
        return _real_default_rng(seed)

    def np_seed(seed=None):
        if seed is None:
            seed = ENTROPY.bits(32, "np.random.seed")
        return _real_np_seed(seed)

    def py_seed(a=None, version=2):
        if a is None:
            a = ENTROPY.bits(63, "random.seed")
        return _real_random_seed(a, version)

    def uuid4():
        return uuid.UUID(int=ENTROPY.bits(128, "uuid4"), version=4)

    np.random.default_rng = default_rng
    np.random.seed = np_seed
    random.seed = py_seed
    uuid.uuid4 = uuid4
    uuid.uuid1 = lambda *a, **k: uuid4()

    import multiprocessing

    from . import pool

    multiprocessing.Pool = pool.SimPool
    import concurrent.futures as cf

    cf.ProcessPoolExecutor = pool.SimExecutor
    cf.ThreadPoolExecutor = pool.SimExecutor
    import multiprocessing.pool as mpp

    mpp.Pool = pool.SimPool
    mpp.ThreadPool = pool.SimPool

    import pytket.tailoring as tl

    def wrap(real_cls):
        class Seeded:
            """real frames (get_all_circuits of the real class), seeded choice"""

            def __init__(self, *a, **k):
                self._real = real_cls(*a, **k)

            def get_all_circuits(self, circuit):
                return self._real.get_all_circuits(circuit)

            def sample_circuits(self, circuit, samples):
                all_c = self._real.get_all_circuits(circuit)
                return [
                    all_c[ENTROPY.bits(32, "tailoring") % len(all_c)].copy()
                    for _ in range(samples)
                ]

        Seeded.__name__ = real_cls.__name__
        return Seeded

    tl.PauliFrameRandomisation = wrap(tl.PauliFrameRandomisation)
    tl.UniversalFrameRandomisation = wrap(tl.UniversalFrameRandomisation)

    import time

    def sleep(s):
        CLOCK.now += s

    time.sleep = sleep


def reset(seed):
    """start of a run: all library-visible randomness becomes a function of seed"""
    r = random.Random(seed)
    ENTROPY.reset(r.getrandbits(63))
    _real_np_seed(r.getrandbits(32))
    _real_random_seed(r.getrandbits(63))
    CLOCK.reset()


def preload():
    """import the library once per interpreter, with every seam in place"""
    reset(0)
    import pytket.extensions.qiskit as pq

    from .device import SimAer

    pq.AerBackend = SimAer
    import importlib
    import pkgutil

    import qermit

    for m in pkgutil.walk_packages(qermit.__path__, "qermit."):
        importlib.import_module(m.name)
