"""P15: spectral filtering evaluates every grid point with its own parameters."""

import itertools

from .. import exps, qexec
from ..common import put_barriers, PlanInvalid, SimFault, circuit_key, rand_observable
from ..device import SimDevice
from .p06_reduction import placing_pass
from .p12_cdr import hash_int

ID = "P15"
RUNS = {"quick": 420, "thorough": 14000}
LEVEL = "exploration"
RULE = ("distinct (grid size, symbols, experiments, strings, filter, sub-workflow, placement, completion order class, "
        "device fault) tuples")
REAL = ["gen_spectral_filtering_MitEx", "all its tasks", "SmallCoefficientSignalFilter", "MitEx", "MitRes", "TaskGraph",
        "SymbolsDict", "scipy fft and interpolation"]
STUB = ["device: queue, latency, failures, optional contraction of measured parities; exact outcome distributions",
        "filters of a user"]
ASSUMPTIONS = ["parameter values lie within the evaluated grid (the library refuses to extrapolate)",
               "between grid points the value is the multilinear interpolation the library documents",
               "a run is not judged when a Fourier coefficient lies within rounding of the threshold"]
SHRINK_LISTS = ("calls", "exps", "ops", "terms", "specs")
SHRINK_INTS = ("n_vals",)
PROBES = ["out_of_order", "fault_surfaced", "retry_ok", "several_experiments", "several_strings", "two_symbols",
          "three_symbols", "mixed_symbols", "on_grid", "between", "no_filter", "default_filter", "threshold", "lowpass",
          "removed", "kept", "contraction", "own_mitres", "own_mitex", "rename", "identity_string", "extra_symbol",
          "symbols_reordered", "shared_tracker", "reordered_strings", "scaled_sub", "supplied_rerun", "shots_counted", "nothing"]
SHOTS = 10**8


def gen_spec(rng, reg, nsym):
    n = rng.randint(1, 3)
    syms = rng.sample(exps.SYMS, nsym)
    ops = []
    for s in syms:
        for _ in range(rng.choice([1, 1, 2])):
            ops.append([rng.choice(["Rx", "Ry", "Ry"]), s, rng.randrange(n)])
    for _ in range(rng.randint(1, 4)):
        if n > 1 and rng.random() < 0.6:
            ops.append([rng.choice(["CX", "CZ"])] + rng.sample(range(n), 2))
        else:
            ops.append([rng.choice(["Ry", "Rz", "Rx"]), rng.choice([0.15, 0.25, 0.4, 1.1]), rng.randrange(n)])
    rng.shuffle(ops)
    put_barriers(rng, ops, n)
    return {"n": n, "ops": ops, "reg": reg}


def gen(rng, tier, index):
    reg = rng.choice(["q", "q", "node", "z"])
    deep = tier == "thorough"
    n_vals = rng.choice([2, 3, 4, 5, 6, 8])
    top = 3 if n_vals <= 3 else 2 if n_vals <= 6 or deep else 1
    specs = [gen_spec(rng, reg, rng.randint(1, top)) for _ in range(rng.choice([1, 2, 2, 3]))]
    calls = []
    for _ in range(rng.choice([1, 1, 2])):
        es = []
        for _ in range(rng.randint(1, 3)):
            c = rng.randrange(len(specs))
            terms = rand_observable(rng, specs[c]["n"], rng.choice([1, 1, 2, 3]))
            if rng.random() < 0.1:
                terms.append([{}, 0.7])
            # position along each axis in steps of the grid
            at = {s: (rng.randrange(n_vals) if rng.random() < 0.6 else round(rng.uniform(0, n_vals - 1), 3))
                  for s in exps.SYMS}
            es.append({"c": c, "terms": terms, "at": at, "rev": rng.random() < 0.3, "shots": rng.choice([1, 1, 2, 3]), "extra": rng.random() < 0.1})
        calls.append({"exps": es, "share": rng.random() < 0.3,
                      "fault": [rng.choice(["error", "timeout", "after_submit"]), rng.randint(0, 40)]
                      if rng.random() < 0.25 else None})
    return {"reg": reg, "specs": specs, "calls": calls, "n_vals": n_vals, "noisy": rng.random() < 0.5,
            "filter": rng.choice([["none"], ["none"], ["default"], ["tol", rng.choice([0.05, 0.3, 0.8, 1.5, 3.0])],
                                  ["low", rng.randint(0, 2)]]),
            "sub": rng.choice(["none", "none", "mitres", "mitex", "mitex"]),
            "reorder": rng.random() < 0.4, "scale": rng.choice([1.0, 0.5, -0.8]), "rerun": rng.random() < 0.5, "place": rng.random() < 0.4,
            "dev_seed": rng.getrandbits(30)}


def keep_mask(plan, coeffs):
    """which Fourier modes stay"""
    import numpy as np

    f = plan["filter"]
    if f[0] == "none":
        return np.ones(coeffs.shape, bool)
    if f[0] == "low":
        m = np.zeros(coeffs.shape, bool)
        for ix in itertools.product(*[range(k) for k in coeffs.shape]):
            m[ix] = all(min(i, coeffs.shape[0] - i) <= f[1] for i in ix[:1]) and sum(ix[1:]) <= f[1] + 1
        return m
    tol = 5 if f[0] == "default" else f[1]
    if np.any(np.abs(np.abs(coeffs) - tol) < 1e-4):
        return None
    return np.abs(coeffs) >= tol


def multilinear(grid, pos):
    import numpy as np

    for p in pos:
        i = min(int(p), grid.shape[0] - 2)
        grid = grid[i] + (grid[i + 1] - grid[i]) * (p - i)
    return complex(np.asarray(grid))


def run(plan, ctx):
    import numpy as np

    from typing import List, Tuple

    from pytket.utils import QubitPauliOperator
    from qermit import AnsatzCircuit, MitEx, MitTask, ObservableExperiment, SymbolsDict
    from qermit.spectral_filtering import SmallCoefficientSignalFilter, gen_spectral_filtering_MitEx
    from qermit.spectral_filtering.signal_filter import SignalFilter
    from qermit.taskgraph import gen_compiled_MitRes
    from qermit.taskgraph.utils import ObservableTracker
    from sympy import Symbol

    n_vals = plan["n_vals"]
    if n_vals < 2:
        raise PlanInvalid()
    reg = plan["reg"]

    def factor(support):
        return 0.5 + hash_int(plan["dev_seed"], tuple(sorted(support))) % 41 / 100 if plan["noisy"] else 1.0

    def parity(circ, e):
        ctx.fault("noise")
        return e * factor(len([c for c in circ.get_commands() if c.op.type == qexec.OpType.Measure]) * [0])

    def axis(p):
        """parameter value at a position counted in grid steps"""
        return float(np.linspace(0, 2, n_vals, endpoint=False)[int(p)]) if p == int(p) else p * 2 / n_vals

    class Keep(SignalFilter):
        def filter(self, grid):
            return np.where(keep_mask(plan, grid), grid, 0)

    dev = SimDevice(ctx, seed=plan["dev_seed"], noise=qexec.Noise(parity=parity) if plan["noisy"] else None,
                    compile_pass=placing_pass if plan["place"] else None, max_calls=60000)
    if plan["place"]:
        ctx.probe("rename")
    if plan["noisy"]:
        ctx.probe("contraction")
    kw = {}
    scale, own = 1.0, None
    f = plan["filter"]
    if f[0] == "tol":
        kw["signal_filter"] = SmallCoefficientSignalFilter(tol=f[1])
    elif f[0] in ("none", "low"):
        kw["signal_filter"] = Keep()
    ctx.probe({"none": "no_filter", "default": "default_filter", "tol": "threshold", "low": "lowpass"}[f[0]])
    if plan["sub"] == "mitres":
        kw["experiment_mitres"] = gen_compiled_MitRes(dev, 0)
        ctx.probe("own_mitres")
    elif plan["sub"] == "mitex":
        own = exps.reordering(MitEx(dev, mitres=gen_compiled_MitRes(dev, 0)), plan["reorder"])
        if plan["reorder"]:
            ctx.probe("reordered_strings")
        scale = plan["scale"]
        if scale != 1:
            ctx.probe("scaled_sub")

            def scaled(obj, ops: List[QubitPauliOperator]) -> Tuple[List[QubitPauliOperator]]:
                return ([QubitPauliOperator({k: scale * v for k, v in o._dict.items()}) for o in ops],)

            own.append(MitTask(_label="scale", _n_in_wires=1, _n_out_wires=1, _method=scaled))
        kw["experiment_mitex"] = own
        ctx.probe("own_mitex")
    mx = gen_spectral_filtering_MitEx(dev, n_vals, **kw)
    exps.nothing(ctx, mx, plan)
    circs = [exps.make_ansatz(s) for s in plan["specs"]]
    keys = [circuit_key(c) for c in circs]
    failed = False
    for call in plan["calls"]:
        wires, meta, trackers = [], [], {}
        for e in call["exps"]:
            if e["c"] >= len(circs) or not e["terms"]:
                raise PlanInvalid()
            spec = plan["specs"][e["c"]]
            names = exps.used_syms(spec["ops"])
            if not names:
                raise PlanInvalid()
            if any(e["at"][s] > n_vals - 1 for s in names):
                raise PlanInvalid()
            if e["extra"] and len(names) == 1:
                names = names + [next(s for s in exps.SYMS if s not in names)]
                if e["at"][names[-1]] > n_vals - 1:
                    raise PlanInvalid()
                ctx.probe("extra_symbol")
            if e["rev"] and len(names) > 1:
                names = names[::-1]
                ctx.probe("symbols_reordered")
            sd = SymbolsDict.symbols_from_dict({Symbol(s): axis(e["at"][s]) for s in names})
            key = repr(sorted(map(repr, e["terms"])))
            t = ObservableTracker(exps.make_qpo(e["terms"], reg))
            if call["share"]:
                if key in trackers:
                    ctx.probe("shared_tracker")
                t = trackers.setdefault(key, t)
            wires.append(ObservableExperiment(AnsatzCircuit(circs[e["c"]], SHOTS * e["shots"], sd), t))
            meta.append((spec, e, names))
        nf, d0, l0 = len(dev.fired), len(dev.completion), len(dev.log)
        dev.faults = {dev.calls + call["fault"][1]: call["fault"][0]} if call["fault"] else {}
        try:
            res = mx.run(wires)
            err = None
        except SimFault as ex:
            err = ex
        dev.faults = {}
        fired = dev.fired[nf:]
        order = dev.completion[d0:]
        ctx.state(n_vals, f[0], plan["sub"], plan["place"], order != sorted(order),
                  tuple((len(n), len(e["terms"])) for _, e, n in meta), tuple((w, k) for _, k, w in fired))
        if order != sorted(order):
            ctx.probe("out_of_order")
        if err is not None:
            ctx.check(bool(fired), "phantom-failure", f"{err}")
            ctx.probe("fault_surfaced")
            failed = True
            continue
        ctx.check(not fired, "fault-swallowed", lambda: f"{fired}")
        if failed:
            ctx.probe("retry_ok")
        ctx.check(len(res) == len(meta), "result-count", lambda: f"{len(res)} for {len(meta)} experiments")
        if len(meta) > 1:
            ctx.probe("several_experiments")
        # every grid point is measured with the shots of its own experiment
        spent = exps.Spent()
        for spec, e, names in meta:
            points = n_vals ** len(names)
            spent.allow(SHOTS * e["shots"], points if any(exps.n_qubits_of(s) for s, _ in e["terms"]) else 0,
                        points * len(e["terms"]))
        spent.check(ctx, dev.log[l0:])
        if len({len(n) for _, _, n in meta}) > 1:
            ctx.probe("mixed_symbols")
        for i, (r, (spec, e, names)) in enumerate(zip(res, meta)):
            if len(names) > 1:
                ctx.probe({2: "two_symbols", 3: "three_symbols"}[len(names)])
            if len(e["terms"]) > 1:
                ctx.probe("several_strings")
            pos = [e["at"][s] for s in names]
            ctx.probe("on_grid" if all(p == int(p) for p in pos) else "between")
            ctx.check(len(r._dict) == len(e["terms"]), "strings",
                      lambda: f"experiment {i}: {len(r._dict)} strings of {len(e['terms'])}")
            for s, coeff in e["terms"]:
                got = exps.lookup(r, s, reg)
                ctx.check(len(got) == 1, "strings", lambda: f"experiment {i}: {s} appears {len(got)} times")
                k = exps.n_qubits_of(s)
                if not k:
                    ctx.probe("identity_string")
                grid = np.empty((n_vals,) * len(names))
                for ix in itertools.product(range(n_vals), repeat=len(names)):
                    v = {nm: j * 2 / n_vals for nm, j in zip(names, ix)}
                    grid[ix] = scale * coeff * exps.exact_value(spec, v, s) * (factor(k * [0]) if k else 1.0)
                modes = np.fft.fftn(grid)
                mask = keep_mask(plan, modes)
                if mask is None:
                    continue
                ctx.probe("kept" if mask.all() else "removed")
                want = multilinear(np.fft.ifftn(np.where(mask, modes, 0)), pos)
                ctx.close(got[0], want, 1e-4 * max(1, abs(coeff)), "filtered",
                          lambda: f"experiment {i} of {len(meta)}, string {s}, at {dict(zip(names, pos))} of {n_vals}")
    if own is not None and plan["rerun"] and not failed:
        # the workflow which was handed over is still usable by itself
        ctx.probe("supplied_rerun")
        for (spec, e, names), r in zip(meta, own.run(wires)):
            v = {nm: axis(e["at"][nm]) for nm in names}
            for s, coeff in e["terms"]:
                k = exps.n_qubits_of(s)
                want = scale * coeff * exps.exact_value(spec, v, s) * (factor(k * [0]) if k else 1.0)
                got = exps.lookup(r, s, reg)
                ctx.check(len(got) == 1, "supplied-workflow", "other strings")
                ctx.close(got[0], want, 1e-4 * max(1, abs(coeff)), "supplied-workflow", "the supplied workflow afterwards")
    for c, k in zip(circs, keys):
        ctx.check(circuit_key(c) == k, "input-mutated", "a caller's circuit was altered")
