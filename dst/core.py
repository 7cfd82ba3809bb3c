"""Run context, deterministic execution of one plan, minimiser."""

import copy
import hashlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback
from collections import Counter

from . import pool, seams
from .errors import PlanInvalid, SimFault, Violation

REPO = os.environ.get("QERMIT_REPO", "/repo")


class Ctx:
    def __init__(self, plan):
        self.plan = plan
        self.events = []
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.evals = 0
        self.notes = {}

    def event(self, s):
        self.events.append(s)

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.events.append(f"FAULT {kind}")

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *key):
        self.states.add(
            hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest()
        )

    def check(self, cond, kind, detail="", sig=None):
        """one oracle evaluation"""
        self.evals += 1
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail, sig)

    def close(self, got, want, tol, kind, detail="", sig=None):
        self.evals += 1
        ok = False
        try:
            ok = abs(complex(got) - complex(want)) <= tol
        except Exception:  # noqa: BLE001
            ok = False
        if not ok:
            d = detail() if callable(detail) else detail
            raise Violation(kind, f"got {got}, want {want} (tol {tol}) {d}", sig)

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(e.encode())
            h.update(b"\n")
        for s in sorted(self.states):
            h.update(s.encode())
        return h.hexdigest()[:24]


def _in_repo(tb):
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(REPO + "/qermit"):
            return f
    return None


def last_repo_frame(tb):
    last = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(REPO + "/qermit"):
            last = f
    return last


def execute(prop, plan):
    """pure function of (plan, code): one simulated run"""
    ctx = Ctx(plan)
    seams.reset(plan.get("env_seed", 0))
    pool.reset(plan.get("env_seed", 0))
    res = {"outcome": "ok", "kind": None, "detail": None, "sig": None}
    import warnings

    warnings.simplefilter("ignore")
    try:
        prop.run(plan, ctx)
    except PlanInvalid as e:
        res.update(outcome="invalid", detail=str(e))
    except Violation as v:
        res.update(outcome="violation", kind=v.kind, detail=v.detail[:1500], sig=v.sig)
    except (MemoryError, OSError) as e:
        res.update(outcome="harness_error", detail=traceback.format_exc()[-3000:])
    except Exception as e:  # noqa: BLE001
        fr = last_repo_frame(e.__traceback__)
        kind = f"exception:{type(e).__name__}"
        where = f"{os.path.relpath(fr.filename, REPO)}:{fr.name}" if fr else "oracle"
        res.update(
            outcome="violation",
            kind=kind,
            sig=f"{kind}@{where}",
            detail=f"unexpected {type(e).__name__}: {e} in {where}\n"
            + traceback.format_exc()[-1800:],
        )
    res.update(
        digest=ctx.digest(),
        n_events=len(ctx.events),
        faults=dict(ctx.faults),
        probes=dict(ctx.probes),
        states=sorted(ctx.states),
        evals=ctx.evals,
        sim_time=seams.CLOCK.now,
        notes=ctx.notes,
        tail=ctx.events[-60:] if res["outcome"] == "violation" else [],
    )
    return res


def _cpu(pid):
    """seconds of processor time a process and its reaped children have used"""
    try:
        f = open(f"/proc/{pid}/stat").read().rpartition(")")[2].split()
        return sum(int(v) for v in f[11:15]) / os.sysconf("SC_CLK_TCK"), f[0]
    except (OSError, ValueError, IndexError):
        return None, "?"


STALLED = 150.0  # wall seconds asleep without using any processor time


def execute_isolated(prop, plan, timeout=150.0):
    """execute() in a forked child: no state survives from one run to the next

    A run makes no progress when it uses up ``timeout`` seconds of processor
    time, or sleeps for STALLED seconds without using any: how busy the machine
    is decides nothing.
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            out = pickle.dumps(execute(prop, plan))
            with os.fdopen(w, "wb") as f:
                f.write(out)
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    hung = None
    used, since = 0.0, time.monotonic()
    while True:
        rd, _, _ = select.select([r], [], [], 1.0)
        if rd:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            buf.extend(chunk)
            continue
        cpu, state = _cpu(pid)
        if cpu is None:
            continue
        if cpu > timeout:
            hung = f"run used {timeout:.0f} s of processor time without finishing"
            break
        if cpu > used + 0.02 or state == "R":
            used, since = cpu, time.monotonic()
        elif time.monotonic() - since > STALLED:
            hung = f"run slept {STALLED:.0f} s without doing anything"
            break
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    base = dict(
        digest="-",
        n_events=0,
        faults={},
        probes={},
        states=[],
        evals=0,
        sim_time=0.0,
        notes={},
        tail=[],
    )
    if hung:
        return dict(
            base,
            outcome="violation",
            kind="no-progress",
            sig="no-progress",
            detail=hung + " (bounded work expected)",
        )
    if status != 0 or not buf:
        return dict(
            base,
            outcome="harness_error",
            kind=None,
            sig=None,
            detail=f"child ended with status {status}",
        )
    return pickle.loads(bytes(buf))


def make_plan(prop, seed, index, tier):
    rng = random.Random(f"{prop.ID}:{seed}:{index}")
    plan = prop.gen(rng, tier, index)
    plan.setdefault("env_seed", rng.getrandbits(48))
    # plans are JSON: normalise so that a replayed plan is identical
    return json.loads(json.dumps(plan))


# ---------------------------------------------------------------- minimiser
def _paths(obj, keys, path=()):
    if isinstance(obj, dict):
        for k in obj:
            if isinstance(obj[k], list) and k in keys:
                yield path + (k,)
            yield from _paths(obj[k], keys, path + (k,))
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            yield from _paths(v, keys, path + (i,))


def _int_paths(obj, keys, path=()):
    if isinstance(obj, dict):
        for k, v in obj.items():
            if k in keys and isinstance(v, int) and not isinstance(v, bool):
                yield path + (k,)
            yield from _int_paths(v, keys, path + (k,))
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            yield from _int_paths(v, keys, path + (i,))


def _get(o, p):
    for k in p:
        o = o[k]
    return o


def _set(o, p, v):
    for k in p[:-1]:
        o = o[k]
    o[p[-1]] = v


def generic_candidates(plan, list_keys, int_keys):
    for p in list(_paths(plan, list_keys)):
        lst = _get(plan, p)
        n = len(lst)
        size = n
        while size >= 1:
            for s in range(0, n, size):
                c = copy.deepcopy(plan)
                _set(c, p, lst[:s] + lst[s + size :])
                yield c
            size //= 2
    for p in list(_int_paths(plan, int_keys)):
        v = _get(plan, p)
        for nv in sorted({0, 1, v // 2, v - 1}):
            if 0 <= nv < v:
                c = copy.deepcopy(plan)
                _set(c, p, nv)
                yield c


def minimise(prop, plan, res, budget=25.0, timeout=60.0):
    end = time.monotonic() + budget
    best, best_res = plan, res
    tried = 0
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        if hasattr(prop, "shrink"):
            cands = prop.shrink(best)
        else:
            cands = generic_candidates(
                best,
                getattr(prop, "SHRINK_LISTS", ("ops",)),
                getattr(prop, "SHRINK_INTS", ()),
            )
        for c in cands:
            if time.monotonic() > end:
                break
            tried += 1
            try:
                r = execute_isolated(prop, c, timeout)
            except Exception:  # noqa: BLE001
                continue
            if r["outcome"] == "violation" and r["kind"] == res["kind"] and r["sig"] == res["sig"]:
                best, best_res = c, r
                improved = True
                break
    return best, best_res, tried
