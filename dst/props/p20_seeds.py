"""P20: the same seed gives the same experiment."""

import json
import random

import numpy as np

from .. import flows, pool, qexec, seams, twin
from ..common import PlanInvalid, circuit_key, new_circuit, apply_ops, rand_ops
from ..device import SimAer

ID = "P20"
RUNS = {"quick": 500, "thorough": 20000}
LEVEL = "exploration"
RULE = ("distinct (entry point, parameters of it, what the process did before, what was generated in between, number of "
        "outputs) tuples")
REAL = ["gen_ZNE_MitEx, gen_PEC_learning_based_MitEx with a seed, every workflow in a seeded process", "random_clifford_circ, gen_state_circuits, "
        "sample_weighted_clifford_angle, ccl_likelihood_filtering_task_gen", "ErrorDistribution, NoiseModel, PauliErrorTranspile, "
        "Folding.noise_aware, TranspilerBackend, RandomPauliSampler, OptimalPauliSampler with a generator", "SymbolsDict",
        "two CPython interpreters with different hash seeds"]
STUB = ["devices: exact distributions plus a deterministic parity noise", "operating-system entropy, process pool"]
ASSUMPTIONS = ["seeds of the workflows seed the process-wide generators: nothing else draws numbers between generating a "
               "workflow and running it", "the random choices of pytket's frame randomisation cannot be seeded",
               "measurement outcomes are the device's: only circuits without branching are sampled"]
SHRINK_LISTS = ("ops", "before", "between", "model", "chain", "specs")
SHRINK_INTS = ("k",)
PROBES = ["zne", "pec", "cdr", "clifford", "states", "angle", "likelihood", "distribution", "model", "transpile", "aware",
          "backend", "checks", "optimal", "symbols", "whole", "seed_zero", "entropy_used", "other_hash", "other_history",
          "other_seed_differs", "between", "workers", "scaled", "own_generators"]
BEFORE = ["np", "py", "clifford", "zne", "pec", "noise", "npseed", "pyseed", "other", "same", "unseeded"]
BETWEEN = ["zne", "pec", "cdr", "symbols"]
PAIRS = ["XX", "YZ", "IX", "ZI", "ZZ", "XY", "IZ", "YI"]
ONES = ["X", "Y", "Z"]


def start_worker():
    twin.start()


def gen_model(rng, small=False):
    """[[gate, [[error, rate]...]]...]"""
    out = []
    for t in rng.sample(["H", "S", "X", "CX", "CZ"], rng.randint(1, 3)):
        names = rng.sample(PAIRS if t in ("CX", "CZ") else ONES, rng.randint(1, 3))
        out.append([t, [[e, rng.choice([0.02, 0.05, 0.08] if small else [0.05, 0.1, 0.12, 0.15])] for e in names]])
    return out


def gen(rng, tier, index):
    mode = rng.choice(["zne", "zne", "pec", "cdr", "clifford", "clifford", "states", "states", "angle", "likelihood",
                       "distribution", "distribution", "model", "transpile", "aware", "backend", "checks", "optimal",
                       "symbols", "whole", "whole"])
    plan = {"mode": mode, "seed": rng.choice([0, 1, rng.getrandbits(20), rng.getrandbits(31)]), "env": rng.getrandbits(40),
            "env2": rng.getrandbits(40), "before": [rng.choice(BEFORE) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
            "between": [rng.choice(BETWEEN) for _ in range(rng.choice([0, 0, 1, 2]))], "k": rng.randint(1, 8)}
    n = rng.randint(1, 3)
    plan["n"] = n
    if mode in ("zne", "pec", "cdr", "whole"):
        kinds = [k for k in flows.RES + flows.EX if k not in ("fr",)] if mode == "whole" else [mode]
        flow = flows.gen_flow(rng, kinds, depth=rng.choice([0, 0, 1]))
        if "fr" in flows.kinds_of(flow):
            flows.no_frames(flow)
        if mode == "zne":
            flow["p"]["fold"] = rng.choice(["gate", "two_qubit_gate", "odd_gate", "circuit"])
            flow["p"]["scales"] = rng.choice([[1, 3], [1, 1.5], [1.2, 2, 3], [1, 1.8, 2.7]]) if flow["p"]["fold"] in (
                "two_qubit_gate",) else [1, rng.choice([1.5, 2, 3]), rng.choice([3, 5, 2.5])]
        if mode != "whole":
            flow["p"]["seed"] = None
        plan.update(flow=flow, specs=flows.gen_inputs(rng, flow), dev_seed=rng.getrandbits(30))
        if mode == "cdr":
            for e in plan["specs"]:
                e["ops"] += [["Rz", rng.choice([0.3, 0.7]), rng.randrange(e["n"])] for _ in range(3)]
    elif mode == "states":
        plan.update(ops=rand_ops(rng, n, rng.randint(2, 12), one=["H", "S"], two=["CX"], p_rot=0.5),
                    non=rng.randint(1, 4), total=rng.randint(1, 5))
    elif mode == "angle":
        plan["angles"] = [rng.choice([0.1, 0.25, 0.3, 0.7, 1.3]) for _ in range(rng.randint(4, 10))]
    elif mode == "likelihood":
        plan["sets"] = rng.randint(1, 3)
    elif mode == "clifford":
        plan["n"] = rng.randint(1, 5)
    elif mode == "symbols":
        names = ["alpha", "beta", "gamma", "x", "y", "z1", "z10", "z2", "theta", "a", "b"]
        rng.shuffle(names)
        plan.update(names=names[:rng.randint(2, 8)])
    elif mode in ("distribution",):
        two = rng.random() < 0.5
        errs = rng.sample(PAIRS if two else ONES, rng.randint(1, 3))
        plan["channels"] = [[[e, rng.choice([0.02, 0.05, 0.1])] for e in rng.sample(errs, rng.randint(1, len(errs)))]
                            for _ in range(rng.randint(1, 3))]
        plan["chain"] = [rng.choice(["sample", "sample", "scale", "mixture", "json", "ptm", "order"])
                         for _ in range(rng.randint(1, 4))] + ["sample"]
    elif mode in ("model", "transpile", "aware", "backend", "optimal"):
        plan["model"] = gen_model(rng, small=mode in ("aware", "model") or rng.random() < 0.3)
        plan["n"] = n = 2 if mode == "optimal" else rng.randint(2, 3)
        gates = [t for t, _ in plan["model"]]
        ops = []
        for _ in range(rng.randint(3, 8)):
            t = rng.choice(gates + ["H", "CX", "S"])
            ops.append([t] + rng.sample(range(n), 2 if t in ("CX", "CZ") else 1))
        plan["ops"] = ops
        plan["chain"] = [rng.choice(["scale", "json", "json_reset", "use", "use"]) for _ in range(rng.randint(1, 3))] + ["use"]
        plan["own"] = rng.random() < 0.4
        plan["cores"] = rng.choice([1, 2, 3])
        if mode == "backend":
            plan["ops"] = [o if o[0] not in ("H", "S") else ["X", o[1]] for o in ops]
            plan["model"] = [[t, es] for t, es in plan["model"] if t in ("X", "CX")] or [["X", [["X", 0.25], ["Y", 0.15]]]]
            plan["ops"] += [["X", 0], ["X", n - 1]]
    elif mode == "checks":
        plan.update(ops=rand_ops(rng, n, rng.randint(2, 8), one=["H", "S", "X"], two=["CX"], rot=["Rz"], p_rot=0.2),
                    checks=rng.randint(1, 2))
    if mode == "symbols":
        plan["ops"] = [["Rz", s, rng.randrange(n)] for s in plan["names"]]
    return plan


# ---- what a plan produces

def key(c):
    d = json.loads(json.dumps(c.to_dict()))

    def strip(o):
        if isinstance(o, dict):
            return {k: strip(v) for k, v in o.items() if k not in ("id", "name", "created_qubits", "discarded_qubits")}
        return [strip(x) for x in o] if isinstance(o, list) else o

    return json.dumps(strip(d), sort_keys=True)


def circuit(plan):
    if not plan["ops"]:
        raise PlanInvalid()
    c = new_circuit(plan["ops"])
    from pytket.circuit import Qubit

    qs = [Qubit("q", i) for i in range(plan["n"])]
    for q in qs:
        c.add_qubit(q)
    return apply_ops(c, plan["ops"], qs)


def history(plan, variant, ctx):
    """what the process did before"""
    from pytket.circuit import Circuit

    for k, h in enumerate(variant["before"]):
        if h == "np":
            np.random.uniform(size=3 + k)
        elif h == "py":
            random.random()
        elif h == "npseed":
            np.random.seed(11 + k)
        elif h == "pyseed":
            random.seed(5 + k)
        elif h == "clifford":
            from qermit.probabilistic_error_cancellation.cliff_circuit_gen import random_clifford_circ

            random_clifford_circ(2, seed=4)
        elif h == "unseeded":
            from qermit.probabilistic_error_cancellation.cliff_circuit_gen import random_clifford_circ

            random_clifford_circ(2)
        elif h == "zne":
            generate("zne", ctx, 99)
        elif h == "pec":
            generate("pec", ctx, None)
        elif h == "noise":
            from .p16_faults import distribution_of
            from qermit.noise_model.noise_model import ErrorDistribution
            from pytket.pauli import Pauli

            ErrorDistribution({(Pauli.X,): 0.5}).sample()
        elif h in ("other", "same"):
            sub = dict(variant, before=[], seed=plan["seed"] if h == "same" else plan["seed"] + 1)
            body(plan, sub, ctx)


def generate(kind, ctx, seed=None):
    from qermit.clifford_noise_characterisation import gen_CDR_MitEx
    from qermit.probabilistic_error_cancellation import gen_PEC_learning_based_MitEx
    from qermit.zero_noise_extrapolation import gen_ZNE_MitEx

    env = flows.Env(ctx, 1)
    kw = {} if seed is None else {"seed": seed}
    if kind == "zne":
        gen_ZNE_MitEx(env.dev, [1, 3], **kw)
    elif kind == "pec":
        gen_PEC_learning_based_MitEx(env.dev, env.sim, num_cliff=1, **kw)
    elif kind == "cdr":
        gen_CDR_MitEx(env.dev, env.sim, 1, 1, 2)
    elif kind == "symbols":
        from qermit.taskgraph import SymbolsDict

        SymbolsDict.symbols_from_list(["a", "b"])


def produce(plan, variant, ctx):
    """a list of strings: everything random that came out"""
    flows.reseed(variant["env"])
    history(plan, variant, ctx)
    return body(plan, variant, ctx)


def short(xs):
    import hashlib

    return [x if isinstance(x, float) or len(x) < 400 else x[:300] + "#" + hashlib.sha256(x.encode()).hexdigest()[:16]
            for x in xs]


def equal(x, y):
    if isinstance(x, float) and isinstance(y, float):
        return x == y or (x != x and y != y) or abs(x - y) <= 1e-7 * max(1.0, abs(x))
    return x == y


def body(plan, variant, ctx):
    return short(globals()["m_" + plan["mode"]](plan, variant, ctx, variant["seed"]))


def between(plan, ctx):
    for b in plan["between"]:
        generate(b, ctx)


def workflow(plan, variant, ctx, seed):
    flow = dict(plan["flow"], p=dict(plan["flow"]["p"], seed=seed))
    env = flows.Env(ctx, plan["dev_seed"])
    if plan["mode"] == "cdr":  # has no seed of its own: the caller seeds the process
        np.random.seed(seed)
        random.seed(seed)
    obj = flows.build(flow, env)
    between(plan, ctx)
    res = flows.call(obj, flows.Inputs(flow, plan["specs"]))
    out = [res[0]] if res[0] == "ok" else [str(res)]
    for d in env.devs:
        # in what order the parts of a workflow submit is not part of what was generated
        out += sorted(key(c) + f" {s}" for _, c, s in d.log)
    for r in res[1] if res[0] == "ok" else []:
        if flows.is_res(flow["kind"]):
            out.append(str(r))
        else:
            for k, v in r:
                out += [str(k), float(np.real(v)), float(np.imag(v))]
    return out


def m_zne(plan, variant, ctx, seed):
    if plan["flow"]["kind"] != "zne":
        raise PlanInvalid()
    return workflow(plan, variant, ctx, seed)


m_pec = m_cdr = lambda plan, variant, ctx, seed: workflow(plan, variant, ctx, seed)


def m_whole(plan, variant, ctx, seed):
    """any workflow: all process-wide generators in a known state"""
    np.random.seed(seed)
    random.seed(seed)
    seams.ENTROPY.reset(seed)
    return workflow(dict(plan, between=[]), variant, ctx, None if plan["k"] % 2 else seed)


def m_clifford(plan, variant, ctx, seed):
    from qermit.probabilistic_error_cancellation.cliff_circuit_gen import random_clifford_circ

    out = [key(random_clifford_circ(plan["n"], seed=seed))]
    # circuits that follow belong to the same stream
    out += [key(random_clifford_circ(plan["n"])) for _ in range(plan["k"] % 4)]
    return out


def m_states(plan, variant, ctx, seed):
    from qermit.clifford_noise_characterisation.ccl import gen_state_circuits

    return [key(c) for c in gen_state_circuits(circuit(plan), plan["non"], 1, plan["total"], seed=seed)]


def m_angle(plan, variant, ctx, seed):
    from qermit.clifford_noise_characterisation.ccl import sample_weighted_clifford_angle

    if not plan["angles"]:
        raise PlanInvalid()
    return [f"{sample_weighted_clifford_angle(a, **({'seed': seed} if k == 0 else {}))}" for k, a in enumerate(plan["angles"])]


def m_likelihood(plan, variant, ctx, seed):
    from pytket.circuit import Qubit
    from pytket.pauli import Pauli, QubitPauliString
    from pytket.utils import QubitPauliOperator

    from qermit.clifford_noise_characterisation.ccl import ccl_likelihood_filtering_task_gen

    half = lambda noisy, exact: 0.5
    q = lambda x: QubitPauliOperator({QubitPauliString(Qubit(0), Pauli.Z): x})
    sets = [[(q(0.01 * i + k), q(0.02 * i)) for i in range(16)] for k in range(plan["sets"])]
    task = ccl_likelihood_filtering_task_gen(half, seed=seed)
    between(plan, ctx)
    out = task(([sets]))[0]
    return [str([[f"{v}" for p in e for v in p[0]._dict.values()] for e in out])]


def m_distribution(plan, variant, ctx, seed):
    from qermit.noise_model.noise_model import ErrorDistribution

    from .p16_faults import distribution_of

    if not plan["channels"] or not all(plan["channels"]):
        raise PlanInvalid()
    rng = np.random.default_rng(seed)
    ds = [distribution_of(c, rng) for c in plan["channels"]]
    d = ds[0]
    out = []
    for op in plan["chain"]:
        if op == "sample":
            out += [str(d.sample()) for _ in range(24)]
        elif op == "scale":
            d = d.scale(1.5 if len(out) % 2 else 0.5)  # keeps the generator
        elif op == "order":
            d.order()
        elif op == "mixture":
            d = ErrorDistribution.mixture([d] + ds)
            d.reset_rng(rng)
        elif op == "json":
            d = ErrorDistribution.from_dict(json.loads(json.dumps(d.to_dict())))
            d.reset_rng(rng)
        elif op == "ptm":
            d = ErrorDistribution.from_ptm(*d.to_ptm())
            d.reset_rng(rng)
        out.append(str([(str(k), f"{v:.9g}") for k, v in d.distribution.items()]))
    return out


def models(plan, seed):
    """the noise models of a plan, one after the other"""
    from pytket.circuit import OpType

    from qermit.noise_model import NoiseModel

    from .p16_faults import distribution_of, model_of

    if not plan["model"] or not all(es for _, es in plan["model"]):
        raise PlanInvalid()
    rng = np.random.default_rng(seed)
    if plan["own"]:
        m = NoiseModel({getattr(OpType, t): distribution_of(es, np.random.default_rng(seed + k))
                        for k, (t, es) in enumerate(plan["model"])})
    else:
        m = model_of(plan["model"], rng)
    for op in plan["chain"]:
        if op == "scale":
            m = m.scale(0.7)
        elif op in ("json", "json_reset"):
            m = NoiseModel.from_dict(json.loads(json.dumps(m.to_dict())))
            m.reset_rng(rng)
        else:
            yield m


def m_model(plan, variant, ctx, seed):
    from qermit.noise_model.noise_model import Direction

    c = circuit(plan)
    out = []
    for m in models(plan, seed):
        for d in (Direction.forward, Direction.backward):
            out += [str(m.random_propagate(c, d)) for _ in range(6)]
            out.append(str([(str(k), v) for k, v in m.counter_propagate(c, 20, direction=d).items()]))
        e = m.get_effective_pre_error_distribution(c, n_rand=20)
        out.append(str([(str(k), f"{v:.9g}") for k, v in e.distribution.items()]))
        out.append(str(e.post_select([]).distribution))
    return out


def m_transpile(plan, variant, ctx, seed):
    from qermit.noise_model import PauliErrorTranspile

    out = []
    for m in models(plan, seed):
        p = PauliErrorTranspile(m)
        for _ in range(4 + plan["k"]):
            c = circuit(plan)
            p.apply(c)
            out.append(key(c))
    return out


def m_aware(plan, variant, ctx, seed):
    from qermit.zero_noise_extrapolation import Folding

    out = []
    for m in models(plan, seed):
        out += [key(x) for x in Folding.noise_aware(circuit(plan), 1.5 + 0.5 * (plan["k"] % 3), noise_model=m,
                                                    n_noisy_circuit_samples=6 + plan["k"])]
    return out


def m_backend(plan, variant, ctx, seed):
    from qermit.noise_model import PauliErrorTranspile, TranspilerBackend

    out = []
    SimAer.CTX = ctx
    for m in models(plan, seed):
        b = TranspilerBackend(PauliErrorTranspile(m), max_batch_size=plan["k"], n_cores=plan["cores"])
        c = circuit(plan)
        c.measure_all()
        out.append(str(sorted(b.get_counts(c, 15).items())))
        out.append(str(sorted(b.run_circuit(c, 9).get_counts().items())))
    return out


def m_checks(plan, variant, ctx, seed):
    from qermit.coherent_pauli_checks import RandomPauliSampler
    from qermit.coherent_pauli_checks.box_clifford_subcircuits import BoxClifford

    c = circuit(plan)
    BoxClifford().apply(c)
    sampler = RandomPauliSampler(plan["checks"], rng=np.random.default_rng(seed))
    out = [key(c)]
    for _ in range(3):
        d, flags = sampler.add_pauli_checks_to_circbox(c)
        out += [key(d), str(sorted(flags))]
    return out


def m_optimal(plan, variant, ctx, seed):
    from qermit.coherent_pauli_checks import OptimalPauliSampler

    c = circuit(plan)
    out = []
    for m in models(plan, seed):
        out.append(str([str(p) for p in OptimalPauliSampler(m, 1).sample(c)]))
    return out


def m_symbols(plan, variant, ctx, seed):
    """values given by position go to the same symbols everywhere"""
    from qermit.taskgraph import SymbolsDict

    c = circuit(plan)
    sd = SymbolsDict.symbols_from_circuit(c)
    names = [str(s) for s in sd.symbols_list]
    sd.set_values(np.random.default_rng(seed).uniform(0, 2, len(names)))
    c.symbol_substitution(sd._symbolic_map)
    return [str(names), str([str(s) for s in sd.symbols_list]), key(c)]


# ---- the run

def others(plan):
    """(seeds to compare with, whether they must not all agree)"""
    m = plan["mode"]
    if m == "clifford":
        return 24, plan["n"] >= 2
    if m == "angle":
        return 60, len(plan["angles"]) >= 4
    if m == "likelihood":
        return 8, True
    if m == "distribution":
        return 24, plan["chain"].count("sample") >= 1
    if m == "transpile":
        rates = dict((t, sum(r for _, r in es)) for t, es in plan["model"])
        return 60, sum(rates.get(o[0], 0) for o in plan["ops"]) >= 0.2
    if m == "checks":
        return 24, len(set(o[0] for o in plan["ops"]) & {"H", "S", "X", "CX"}) > 0
    if m == "states":
        return 24, sum(o[0] in ("Rx", "Ry", "Rz") and o[1] not in (0.5, 1.0) for o in plan["ops"]) >= 4 and plan["total"] >= 2
    if m == "zne" and plan["k"] <= 4 and plan["flow"]["p"]["fold"] == "gate" and not plan["flow"]["base"]:
        big = [e for e in plan["specs"] if len(e["ops"]) >= 6]
        return 12, bool(big) and 2 in plan["flow"]["p"]["scales"]
    if m == "pec" and plan["k"] <= 3:
        return 6, True
    return 0, False


def run(plan, ctx):
    mode = plan["mode"]
    if plan["k"] < 1:
        raise PlanInvalid()
    ctx.probe(mode)
    if plan["seed"] == 0:
        ctx.probe("seed_zero")
    if plan["between"] and mode in ("zne", "pec", "cdr", "likelihood"):
        ctx.probe("between")
    if mode == "backend" and plan["cores"] > 1:
        ctx.probe("workers")
    if "scale" in plan.get("chain", []):
        ctx.probe("scaled")
    if plan.get("own"):
        ctx.probe("own_generators")
    ctx.notes["mode"] = mode
    a = {"env": plan["env"], "before": [], "seed": plan["seed"]}
    b = {"env": plan["env2"], "before": plan["before"], "seed": plan["seed"]}
    out_a = produce(plan, a, ctx)
    if seams.ENTROPY.draws:
        ctx.probe("entropy_used")
    out_b = produce(plan, b, ctx)
    if plan["before"]:
        ctx.probe("other_history")
    ctx.fault("other_entropy")
    if plan["before"]:
        ctx.fault("other_history", len(plan["before"]))
    compare(ctx, plan, out_a, out_b, "history" if plan["before"] else "entropy")
    out_c = twin.ask(ID, plan, b if plan["k"] % 2 else a)
    ctx.probe("other_hash")
    ctx.fault("other_process")
    compare(ctx, plan, out_a, out_c, "process")
    n, must = others(plan)
    if n:
        outs = {json.dumps(body(plan, dict(a, seed=plan["seed"] + 1 + i), ctx)) for i in range(n)}
        if len(outs | {json.dumps(out_a)}) > 1:
            ctx.probe("other_seed_differs")
        elif must:
            ctx.check(False, "seed-ignored", lambda: f"{mode}: {n + 1} seeds all gave {out_a[:3]}")
        ctx.evals += 1
    ctx.state(mode, plan["k"], plan["n"], tuple(plan["before"]), tuple(plan["between"]), len(out_a),
              str(plan.get("flow", {}).get("p")), str(plan.get("chain")), str(plan.get("names")))


def compare(ctx, plan, x, y, why):
    same = len(x) == len(y) and all(map(equal, x, y))
    ctx.event(f"{why} {same} {len(x)}")
    if same:
        ctx.evals += len(x)
        return
    k = next((i for i, (p, q) in enumerate(zip(x, y)) if not equal(p, q)), min(len(x), len(y)))
    ctx.check(False, f"seed-not-reproducible:{plan['mode']}",
              lambda: f"seed {plan['seed']}, {why}: output {k} of {len(x)}/{len(y)}: {x[k:k + 1]} against {y[k:k + 1]}")
