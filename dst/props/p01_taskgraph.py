"""P01: task-graph programs execute as the function composition they describe."""

import hashlib

from ..errors import PlanInvalid, SimFault, Violation

ID = "P01"
RUNS = {"quick": 3200, "thorough": 60000}
LEVEL = "exploration"
RULE = (
    "distinct (graph topology, run kind, crash point, retry) tuples: the reference graph's "
    "node list with its wiring, hashed together with the fault position"
)
REAL = ["qermit.taskgraph.TaskGraph", "qermit.taskgraph.MitTask", "networkx"]
STUB = ["task bodies (pure term-building functions, may fail on demand)"]
ASSUMPTIONS = ["task bodies are pure functions of their arguments"]
SHRINK_LISTS = ("ops",)
SHRINK_INTS = ("crash",)
PROBES = ["crash_fired", "retry_after_crash", "nested_run", "decomposed_run", "short_wires",
          "long_wires", "cache_run", "prepend_after_parallel", "reused_child", "fromtg",
          "characterisation_given", "characterisation_renewed", "characterisation_stored", "cache_nested",
          "cache_decomposed"]


# --------------------------------------------------------------- reference model
class Model:
    def __init__(self):
        self.n_in = 1
        self.outs = [("in", 0)]
        self.nodes = []  # (label or Model, n_out, srcs)
        self.char = {}  # characterisation data given by the caller

    def clone(self):
        m = Model()
        m.n_in, m.outs, m.char = self.n_in, list(self.outs), dict(self.char)
        m.nodes = [
            (t.clone() if isinstance(t, Model) else t, n, list(s))
            for t, n, s in self.nodes
        ]
        return m

    @property
    def n_out(self):
        return len(self.outs)

    def wire(self, n):
        for _ in range(n):
            self.outs.append(("in", self.n_in))
            self.n_in += 1

    def append(self, t, k, n):
        self.nodes.append((t, n, list(self.outs)))
        i = len(self.nodes) - 1
        self.outs = [(i, p) for p in range(n)]

    def parallel(self, t, k, n):
        self.nodes.append((t, n, [("in", self.n_in + p) for p in range(k)]))
        i = len(self.nodes) - 1
        self.n_in += k
        self.outs += [(i, p) for p in range(n)]

    def prepend(self, t, k, n):
        i = len(self.nodes)

        def remap(s):
            return (i, s[1]) if s[0] == "in" else s

        self.nodes = [(a, b, [remap(s) for s in c]) for a, b, c in self.nodes]
        self.outs = [remap(s) for s in self.outs]
        self.nodes.append((t, n, [("in", p) for p in range(k)]))
        self.n_in = k

    def passthrough(self):
        return any(o[0] == "in" for o in self.outs)

    def deep_passthrough(self):
        """some nested graph passes a wire straight through (decomposition is refused)"""
        for t, _, _ in self.nodes:
            if isinstance(t, Model) and (t.passthrough() or t.deep_passthrough()):
                return True
        return False

    def labels(self):
        return [t if not isinstance(t, Model) else None for t, _, _ in self.nodes]

    def n_calls(self):
        return sum(t.n_calls() if isinstance(t, Model) else 1 for t, _, _ in self.nodes)

    def eval(self, ins, calls, vals=None):
        vals = {} if vals is None else vals

        def get(s):
            if s[0] == "in":
                return ins[s[1]]
            return node(s[0])[s[1]]

        def node(i):
            if i not in vals:
                t, n, srcs = self.nodes[i]
                args = [get(s) for s in srcs]
                if any(a is None for a in args):
                    raise _Missing()
                if isinstance(t, Model):
                    vals[i] = t.eval(args, calls)
                else:
                    calls.append((t, tuple(args)))
                    vals[i] = [term(t, p, args) for p in range(n)]
            return vals[i]

        for i in range(len(self.nodes)):
            node(i)
        return [get(s) for s in self.outs]

    def shape(self):
        return (
            self.n_in,
            tuple(self.outs),
            tuple(
                (t.shape() if isinstance(t, Model) else "t", n, tuple(s))
                for t, n, s in self.nodes
            ),
        )


class _Missing(Exception):
    pass


def term(label, port, args):
    return hashlib.blake2b(
        repr((label, port, tuple(args))).encode(), digest_size=8
    ).hexdigest()


# --------------------------------------------------------------- plan
def gen(rng, tier, index):
    ops = []
    models = {"g0": Model()}
    ntask = [0]
    big = tier == "thorough"

    def newtask(k, n):
        ntask[0] += 1
        return f"t{ntask[0]}"

    ops.append(["new", "g0"])
    names = ["g0"]
    n_ops = rng.randint(3, 16 if not big else 26)
    p_fault = rng.choice([0, 0.3, 0.6])
    for _ in range(n_ops):
        r = rng.random()
        g = rng.choice(names[-2:] if rng.random() < 0.6 else names)
        m = models[g]
        if r < 0.08 and len(names) < 4:
            nm = f"g{len(names)}"
            models[nm] = Model()
            names.append(nm)
            ops.append(["new", nm])
        elif r < 0.12 and len(names) < 5:
            nm = f"g{len(names)}"
            models[nm] = m.clone()
            names.append(nm)
            ops.append(["from", nm, g])
        elif r < 0.62:
            kind = rng.choice(["append", "prepend", "parallel", "wire"])
            if kind == "wire":
                n = rng.randint(1, 2)
                if m.n_in + n <= 7 and m.n_out + n <= 7:
                    m.wire(n)
                    ops.append(["wire", g, n])
                continue
            # child graph or task?
            cands = [
                h
                for h in names
                if h != g and not contains(models, h, g, ops)
                and (
                    (kind == "append" and models[h].n_in == m.n_out)
                    or (kind == "prepend" and models[h].n_out == m.n_in)
                    or (kind == "parallel" and m.n_in + models[h].n_in <= 7)
                )
            ]
            if cands and rng.random() < 0.45:
                h = rng.choice(cands)
                c = models[h].clone()
                getattr(m, kind)(c, c.n_in, c.n_out)
                ops.append([kind, g, "graph", h])
            else:
                if kind == "append":
                    k, n = m.n_out, rng.randint(1, 3)
                elif kind == "prepend":
                    k, n = rng.randint(1, 3), m.n_in
                else:
                    k, n = rng.randint(1, 3), rng.randint(1, 3)
                if kind == "parallel" and (m.n_in + k > 7 or m.n_out + n > 7):
                    continue
                same = [o for o in ops if o[0] in ("append", "prepend", "parallel")
                        and o[2] == "task" and (o[4], o[5]) == (k, n)]
                t = rng.choice(same)[3] if same and rng.random() < 0.2 else newtask(k, n)
                getattr(m, kind)(t, k, n)
                ops.append([kind, g, "task", t, k, n])
        elif r < 0.66:
            around = rng.random() < 0.4
            for part in range(2):
                if around:
                    ops.append(run_op(rng, g, m, 0))
                    ops[-1][2]["cache"] = True
                if not part:
                    ops.append(["decompose", g])
        elif r < 0.68:
            ops.append(["char", g, rand_char(rng)])
        elif r < 0.70:
            ops.append(["bad", g, rng.choice(["append", "prepend"]), rng.randint(1, 2)])
        else:
            ops.append(run_op(rng, g, m, p_fault))
    for g in names:
        ops.append(run_op(rng, g, models[g], p_fault))
        ops.append(run_op(rng, g, models[g], 0))
    return {"ops": ops}


def rand_char(rng):
    return {k: rng.randrange(1000) for k in ("c0", "c1", "c2") if rng.random() < 0.6}


def contains(models, h, g, ops):
    # h already (transitively) nested in g's history is fine; g nested in h would be a cycle
    seen, todo = set(), [h]
    while todo:
        x = todo.pop()
        if x == g:
            return True
        for o in ops:
            if o[0] in ("append", "prepend", "parallel") and o[1] == x and o[2] == "graph":
                if o[3] not in seen:
                    seen.add(o[3])
                    todo.append(o[3])
    return False


def run_op(rng, g, m, p_fault):
    calls = m.n_calls()
    crash = -1
    if rng.random() < p_fault and calls:
        crash = rng.randrange(calls)
    n = m.n_in
    r = rng.random()
    give = n
    if r < 0.08 and n > 1:
        give = rng.randint(0, n - 1)
    elif r < 0.14:
        give = n + rng.randint(1, 2)
    return [
        "run", g,
        {"salt": rng.randrange(1000), "give": give, "crash": crash, "cache": rng.random() < 0.25,
         "char": rand_char(rng) if rng.random() < 0.4 else {}},
    ]


# --------------------------------------------------------------- execution
def run(plan, ctx):
    from qermit.taskgraph import MitTask, TaskGraph

    state = {"n": 0, "crash": -1, "calls": [], "seen": [], "run": 0}

    made = {}

    def make(label, k, n):
        # the same label is the same MitTask object, possibly used in several graphs
        if (label, k, n) in made:
            ctx.probe("task_object_reused")
            return made[(label, k, n)]
        made[(label, k, n)] = _make(label, k, n)
        return made[(label, k, n)]

    def _make(label, k, n):
        def body(obj, *args):
            me = state["n"]
            state["n"] += 1
            if me == state["crash"]:
                ctx.fault("task_exception")
                ctx.event(f"{label} raises")
                raise SimFault("task", label)
            state["calls"].append((label, tuple(args)))
            state["seen"].append((label, tuple(args), dict(obj.characterisation)))
            obj.characterisation["by:" + label] = state["run"]
            ctx.event(f"{label}{args}")
            return tuple(term(label, p, args) for p in range(n))

        return MitTask(_label=label, _n_in_wires=k, _n_out_wires=n, _method=body)

    real, model, decomposed, crashed, nested_in = {}, {}, set(), set(), {}
    last_par = set()
    for op in plan["ops"]:
        kind, g = op[0], op[1]
        if kind == "new":
            real[g], model[g] = TaskGraph(_label=f"<{g}>"), Model()
            continue
        if kind == "from":
            if op[2] not in real:
                raise PlanInvalid()
            real[g] = TaskGraph().from_TaskGraph(real[op[2]])
            model[g] = model[op[2]].clone()
            if op[2] in decomposed:
                decomposed.add(g)
            ctx.probe("fromtg")
            continue
        if g not in real:
            raise PlanInvalid()
        R, M = real[g], model[g]
        if kind == "wire":
            R.add_n_wires(op[2])
            M.wire(op[2])
        elif kind in ("append", "prepend", "parallel"):
            if op[2] == "graph":
                if op[3] not in real:
                    raise PlanInvalid()
                child, cm = real[op[3]], model[op[3]].clone()
                k, n, t = cm.n_in, cm.n_out, cm
                nested_in[op[3]] = nested_in.get(op[3], 0) + 1
                if nested_in[op[3]] > 1:
                    ctx.probe("reused_child")
            else:
                t, k, n = op[3], op[4], op[5]
                child = make(t, k, n)
            if (kind == "append" and k != M.n_out) or (kind == "prepend" and n != M.n_in):
                raise PlanInvalid()
            getattr(R, kind)(child)
            getattr(M, kind)(t, k, n)
            if kind == "parallel":
                last_par.add(g)
            if kind == "prepend" and g in last_par:
                ctx.probe("prepend_after_parallel")
        elif kind == "decompose":
            ctx.event(f"decompose {g}")
            try:
                R.decompose_TaskGraph_nodes()
                refused = False
            except ValueError:
                refused = True
            ctx.check(
                refused == M.deep_passthrough(),
                "decompose-refusal",
                lambda: f"{g}: refused={refused}, pass-through child={M.deep_passthrough()}",
            )
            if refused:
                ctx.probe("decompose_refused")
            decomposed.add(g)
        elif kind == "bad":
            off = op[3]
            t = make("tbad", M.n_out + off, 1) if op[2] == "append" else make("tbad", 1, M.n_in + off)
            try:
                getattr(R, op[2])(t)
                refused = False
            except Exception:
                refused = True
            ctx.check(refused, "arity-mismatch-accepted", f"{op[2]} with {off} wires too many")
            ctx.probe("mismatch_refused")
        elif kind == "char":
            R.update_characterisation(dict(op[2]))
            M.char.update(op[2])
        elif kind == "run":
            do_run(ctx, state, R, M, g, op[2], decomposed, crashed)
        ctx.check(
            (R.n_in_wires, R.n_out_wires) == (M.n_in, M.n_out),
            "arity",
            f"{g} has {(R.n_in_wires, R.n_out_wires)} wires, composition has {(M.n_in, M.n_out)}",
        )
        if g not in decomposed:
            ctx.check(sorted(t._label for t in R.tasks if not hasattr(t, "tasks"))
                      == sorted(x for x in M.labels() if x is not None) and len(R.tasks) == len(M.nodes), "tasks",
                      lambda: f"{g} lists {[t._label for t in R.tasks]}, composition has {M.labels()}")


def do_run(ctx, state, R, M, g, spec, decomposed, crashed):
    give = spec["give"]
    ins = [f"{g}:{spec['salt']}:{i}" for i in range(give)]
    want_calls = []
    try:
        full = (ins + [None] * M.n_in)[: M.n_in]
        want = M.eval(full, want_calls)
    except _Missing:
        want = None
    total = M.n_calls()
    state["run"] += 1
    state.update(n=0, crash=spec["crash"], calls=[], seen=[])
    labels = M.labels()
    uniq = all(x is not None for x in labels) and len(set(labels)) == len(labels)
    held_labels = [t._label for t in R.tasks]
    nested = any(hasattr(t, "_task_graph") for t in R.tasks)
    cache = spec["cache"] and len(set(held_labels)) == len(held_labels) and not (g in decomposed and nested)
    tasks_only = all(x is not None for x in labels)
    if spec["cache"] and tasks_only and not uniq:
        try:
            R.run(ins, cache=True)
            refused = False
        except ValueError:
            refused = True
        ctx.check(refused, "cache-duplicate-labels", f"{g}: labels {labels} cached silently")
        ctx.check(not state["calls"], "cache-duplicate-labels", "tasks ran before the refusal")
        ctx.probe("cache_refused")
        state.update(n=0, crash=spec["crash"], calls=[], seen=[])
    ctx.state(M.shape(), g in decomposed, spec["crash"], give - M.n_in, cache, g in crashed)
    ctx.event(f"run {g} give={give} crash={spec['crash']}")
    if any(isinstance(t, Model) for t, _, _ in M.nodes):
        ctx.probe("decomposed_run" if g in decomposed else "nested_run")
    if give < M.n_in:
        ctx.probe("short_wires")
    if give > M.n_in:
        ctx.probe("long_wires")
    give_char = dict(spec.get("char", {}))
    if give_char:
        ctx.probe("characterisation_given")
        if any(k in M.char for k in give_char):
            ctx.probe("characterisation_renewed")
    M.char.update(give_char)
    kw = {"characterisation": give_char} if give_char or spec["salt"] % 2 else {}
    try:
        got = R.run(ins, cache=cache, **kw)
    except SimFault:
        ctx.probe("crash_fired")
        crashed.add(g)
        check_calls(ctx, g, state["calls"], want_calls, partial=True, missing=want is None)
        check_char(ctx, g, state, M, R, want_calls, spec, give_char, None)
        ctx.check(0 <= spec["crash"] < total, "phantom-fault", "")
        return
    except Exception as e:
        if want is None:
            # documented: too few wires -> computation fails
            ctx.event(f"short run refused: {type(e).__name__}")
            check_calls(ctx, g, state["calls"], None, partial=True, missing=True, ins=ins)
            return
        raise
    ctx.check(
        want is not None,
        "stale-input",
        lambda: f"{g} ran on {give} of {M.n_in} inputs and returned {got}: a task consumed data "
        "this call never supplied",
    )
    ctx.check(
        not (0 <= spec["crash"] < total),
        "task-not-run-or-fault-swallowed",
        lambda: f"{g}: task call {spec['crash']} of {total} should have failed, run returned {got}",
    )
    if g in crashed:
        ctx.probe("retry_after_crash")
    check_calls(ctx, g, state["calls"], want_calls, partial=False)
    check_char(ctx, g, state, M, R, want_calls, spec, give_char, R.get_characterisation())
    ctx.check(
        list(got) == list(want),
        "outputs",
        lambda: f"{g}: outputs {got} differ from composition {want}",
    )
    if cache:
        ctx.probe("cache_run")
        held = R.get_cache()
        ctx.check(
            set(held.keys()) == set(held_labels),
            "cache-keys",
            lambda: f"cache has {sorted(held)} expected {sorted(held_labels)}",
        )
        if g in decomposed:
            ctx.probe("cache_decomposed")
            n_outs = all_n_out(M, {})
            exp = [[term(lab, p, args) for p in range(n_outs[lab])] for lab, args in want_calls]
        else:
            if nested:
                ctx.probe("cache_nested")
            vals = {}
            M.eval(full, [], vals)
            exp = list(vals.values())
            for i, (t, _, _) in enumerate(M.nodes):
                if not isinstance(t, Model):
                    ctx.check(list(held[t][1]) == vals[i], "cache-values", lambda: f"cache entry {t} = {held[t][1]}")
        ctx.check(sorted(list(o) for _, o in held.values()) == sorted(exp), "cache-values",
                  lambda: f"cache holds {[list(o) for _, o in held.values()]}, tasks produced {exp}")
        for lab, (task, _) in held.items():
            ctx.check(task._label == lab, "cache-values", lambda: f"cache entry {lab} is task {task._label}")


def all_n_out(M, out):
    for t, n, _ in M.nodes:
        if isinstance(t, Model):
            all_n_out(t, out)
        else:
            out[t] = n
    return out


def check_char(ctx, g, state, M, R, want_calls, spec, give_char, final):
    """characterisation data: what the caller gave most recently, and what producers stored, reaches every task"""
    ctx.check(give_char == dict(spec.get("char", {})), "characterisation-altered",
              lambda: f"{g}: the dictionary given to run became {give_char}")
    for lab, _, seen in state["seen"]:
        for k, v in M.char.items():
            ctx.check(seen.get(k) == v, "characterisation",
                      lambda: f"{g}: task {lab} works with {k} = {seen.get(k)}, the caller gave {v} last")
    n_outs = all_n_out(M, {})
    count, above = {}, {}
    for lab, args in want_calls:
        count[lab] = count.get(lab, 0) + 1
        anc = frozenset().union(*(above.get(a, frozenset()) for a in args)) | {lab}
        for p in range(n_outs[lab]):
            above[term(lab, p, args)] = anc
    for lab, args, seen in state["seen"]:
        for a in sorted(frozenset().union(*(above.get(x, frozenset()) for x in args))):
            if count[a] == 1:
                ctx.probe("characterisation_stored")
                ctx.check(seen.get("by:" + a) == state["run"], "characterisation-not-passed-on",
                          lambda: f"{g}: task {lab} depends on {a}, which stored {state['run']}, but sees "
                          f"{seen.get('by:' + a)}")
    if final is not None:
        for k, v in M.char.items():
            ctx.check(final.get(k) == v, "characterisation", lambda: f"{g} ends with {k} = {final.get(k)}, given {v}")
        for lab, n in count.items():
            if n == 1:
                ctx.check(final.get("by:" + lab) == state["run"], "characterisation-not-kept",
                          lambda: f"{g}: {lab} stored {state['run']}, the graph holds {final.get('by:' + lab)}")


def check_calls(ctx, g, got, want, partial, missing=False, ins=()):
    if want is None or missing:
        return
    if partial:
        pool = list(want)
        for c in got:
            ctx.check(c in pool, "call", lambda: f"{g}: unexpected task call {c}; allowed {want}")
            pool.remove(c)
    else:
        ctx.check(
            sorted(got) == sorted(want),
            "calls",
            lambda: f"{g}: task calls {sorted(got)} expected exactly {sorted(want)}",
        )
