"""C14: iterative algorithms stop within the configured budget and say so."""
from ..core import Result, Anchor
from ..paths import TooMany
from ..init import Fn, callee, dbg, natural_loops
from ..budget import analyse, depends, Counters, Iter, CExplorer, Sum, top_loops

MAXITER = -1     # C3OPT_MAXITER_REACHED
# algorithm, where its budget comes from, what it reports when the budget is used up: ("ret", value) or ("info", argument, value)
TABLE = [
    ("c3opt_ls_box", ("field", "c3LS", "maxiter"), ("info", 7, 1)),
    ("c3opt_ls_wolfe_bisect", ("field", "c3LS", "maxiter"), ("info", 7, 1)),
    ("c3opt_ls_zoom", ("field", "c3LS", "maxiter"), None),
    ("c3opt_ls_strong_wolfe", ("field", "c3LS", "maxiter"), ("info", 7, 1)),
    ("c3_opt_sgd", ("field", "c3Opt", "maxiter"), ("ret", MAXITER)),
    ("c3_opt_damp_bfgs", ("field", "c3Opt", "maxiter"), ("ret", MAXITER)),
    ("c3_opt_lbfgs", ("field", "c3Opt", "maxiter"), ("ret", MAXITER)),
    ("c3_opt_gradient", ("field", "c3Opt", "maxiter"), ("ret", MAXITER)),
    ("box_damp_bfgs", ("param", "maxiter"), ("ret", 1)),
    ("box_damp_newton", ("param", "maxiter"), ("ret", 1)),
    ("gradient_descent", ("param", "maxiter"), ("ret", 1)),
    ("box_pg_descent", ("param", "maxiter"), ("ret", 1)),
    ("backtrack_line_search", ("param", "maxiter"), ("info", "info", 1)),
    ("backtrack_line_search_bc", ("param", "maxiter"), ("info", "info", 1)),
    ("ftapprox_cross", ("field", "FtCrossArgs", "maxiter"), None),
    ("c3_regression_run_als", ("field", "RegressOpts", "max_als_sweeps"), None),
    ("dmrg_approx", ("param", "max_sweeps"), None),
    ("tt_cross", ("field", "tt_cross_opts", "maxiter"), None),
    ("tt_cross_adapt", ("param", "maxiter"), None),
]


def getters(prog, struct, field):
    """functions that return the field"""
    out = set()
    for f in prog.functions.values():
        rets = [b.term for b in f.blocks.values() if b.term is not None and b.term.op == "ret" and b.term.ops]
        if len(rets) != 1 or len(f.blocks) > 6:
            continue
        d = {i.dest: i for b in f.blocks.values() for i in b.instrs if i.dest}
        i = d.get(rets[0].ops[0])
        if i is not None and i.op == "load" and isfield(prog, d, i.ops[0], struct, field):
            out.add(f.name)
        elif i is not None and i.op == "call" and isinstance(i.extra, str) and i.extra[1:] in out:
            out.add(f.name)
    return out


def isfield(prog, d, addr, struct, field):
    g = d.get(addr)
    if g is None or g.op != "gep" or len(g.ops) < 3:
        return False
    s = str(g.type).lstrip("%")
    fs = prog.fields.get(s)
    return s == "struct." + struct and fs is not None and g.ops[2].isdigit() and fs[int(g.ops[2])][0] == field


def sources(prog, F, src, gets):
    out = set()
    if src[0] == "param":
        for n, p in enumerate(F.f.params):
            if p[0].lstrip("%") == src[1]:
                out.add("%" + p[0].lstrip("%"))
        return out
    if src[0] == "arg":
        p = F.f.params[src[1]][0]
        return {p if p.startswith("%") else "%" + p}
    for b in F.f.blocks.values():
        for i in b.instrs:
            if i.op == "load" and isfield(prog, F.dfn, i.ops[0], src[1], src[2]):
                out.add(i.dest)
            elif i.op == "call" and i.dest and callee(i) in gets:
                out.add(i.dest)
    return out


def working(prog):
    """calls that lead to an evaluation of a user's function"""
    ind = set()
    for f in prog.functions.values():
        if any(i.op == "call" and callee(i) is None for b in f.blocks.values() for i in b.instrs):
            ind.add(f.name)
    rev = {}
    for f in prog.functions.values():
        for b in f.blocks.values():
            for i in b.instrs:
                c = callee(i) if i.op == "call" else None
                if c:
                    rev.setdefault(c, set()).add(f.name)
    todo = list(ind)
    while todo:
        for n in rev.get(todo.pop(), ()):
            if n not in ind:
                ind.add(n)
                todo.append(n)

    def f(i):
        c = callee(i)
        return c is None or c in ind
    return f


def check(ctx, res, prog, name, F, src, status, work, gets, via=()):
    srcs = sources(prog, F, src, gets)
    infop = None
    if status is not None and status[0] == "info":
        k = status[1]
        if isinstance(k, str):
            k = next((n for n, p in enumerate(F.f.params) if p[0].lstrip("%") == k), None)
        if k is not None and k < len(F.f.params):
            infop = "%" + F.f.params[k][0].lstrip("%")
    loops = natural_loops(F)
    has = [h for h, b in loops.items() if any(i.op == "call" and work(i) for x in b for i in F.f.blocks[x].instrs)]
    if not has:
        # the loop may have moved into a helper that is handed the budget
        for b in F.f.blocks.values():
            for i in b.instrs:
                c = callee(i) if i.op == "call" else None
                G = Fn(prog.functions[c]) if c in prog.functions and prog.functions[c].blocks else None
                if G is None or c in via:
                    continue
                for n, o in enumerate(i.ops):
                    if o in srcs and len(via) < 3:
                        return check(ctx, res, prog, name, G, ("arg", n), None, work, gets, via + (c,))
        res.skip(name, "no loop that evaluates anything was found")
        return
    if not srcs:
        res.bad(f"{name}:budget", f"{name} iterates without looking at its budget ({src[-1]})", F.f.where())
        return
    for m in (1, 2, 3):
        allowed = m
        try:
            outs = analyse(prog, F, srcs, work, m, allowed, infop)
        except TooMany:
            res.skip(f"{name}:{m}", "too many paths")
            continue
        if not outs:
            res.bad(f"{name}:budget", f"no loop of {F.f.name} that evaluates anything looks at its budget ({src[-1]})", F.f.where())
            break
        for loop, cl, ex in outs:
            key = f"{name}:{m}"
            if cl.maybe and not cl.over:
                res.skip(key, "the test of the budget could not be evaluated")
                continue
            if cl.over:
                i, trail = cl.over[0]
                res.bad(f"{name}:count", f"{F.f.name} can make more than {m} iterations when {src[-1]} is {m}", F.f.where(i.line),
                        ["lines " + " ".join(str(x) for x in trail if x)])
                continue
            res.ok(f"{name}: at most {cl.most} iterations when {src[-1]} is {m}")
            if status is None:
                continue
            bad = []
            unk = False
            for v, info, line in cl.rets:
                got = v if status[0] == "ret" else info
                if got == "?":
                    unk = True
                elif int(got) != status[-1]:
                    bad.append((got, line))
            if bad:
                res.bad(f"{name}:status", f"{F.f.name} reports {bad[0][0]} instead of {status[-1]} when the budget is used up", F.f.where(bad[0][1]))
            elif unk or not cl.rets:
                res.skip(f"{name}:status:{m}", "the value reported could not be evaluated")
            else:
                res.ok(f"{name}: reports {status[-1]} when {src[-1]}={m} is used up")


EVALS = [("c3opt_eval", 2), ("c3opt_eval_stoch", 3)]
RUNS = ["c3_opt_sgd", "c3_opt_damp_bfgs", "c3_opt_lbfgs", "c3_opt_gradient"]


def evaluations(res, prog):
    """the evaluation counters follow the calls of the objective"""
    C = Counters(prog, "c3Opt", ["nevals", "ngvals"], ["f", "fsgd"])
    callers = {}
    for f in prog.functions.values():
        for b in f.blocks.values():
            for i in b.instrs:
                if i.op == "call" and callee(i):
                    callers.setdefault(callee(i), set()).add(f.name)
    done = set()
    for name, gpos in EVALS:
        f = prog.functions.get(name)
        if f is None or not f.blocks:
            continue
        done.add(name)
        for what, g, want in (("without a gradient", ("p0",), 0), ("with a gradient", ("pn", "grad"), 1)):
            args = [("pn", "arg") if n != gpos else g for n in range(len(f.params))]
            outs = C.summary(name, args)
            if outs is None or not outs:
                res.skip(f"{name}:{what}", "the paths could not be summed up")
                continue
            bad = None
            unk = False
            for ne, ng, calls in outs:
                if ne is None or ng is None:
                    unk = True
                elif ne != calls or calls != 1:
                    bad = f"{calls} evaluation(s) of the objective change nevals by {ne}"
                elif ng != want:
                    bad = f"an evaluation {what} changes ngvals by {ng}"
            if bad:
                res.bad(f"{name}:{what}", f"{name} called {what}: on some path {bad}", f.where())
            elif unk:
                res.skip(f"{name}:{what}", "a counter is set to a value that is not understood")
            else:
                res.ok(f"{name} {what}: one evaluation, nevals +1, ngvals +{want} on every path")

    def look(n, seen):
        if n in done or n in seen:
            return
        seen.add(n)
        outs = C.summary(n, [None] * len(prog.functions[n].params))
        if outs is None or any(x is None for o in outs for x in o):
            res.skip(f"{n}:evaluations", "the paths could not be summed up")
        elif any(o[0] != o[2] for o in outs):
            if callers.get(n):
                for c in callers[n]:
                    look(c, seen)
            else:
                res.bad(f"{n}:evaluations", f"{n} evaluates the objective of an optimizer without counting it", prog.functions[n].where())
        else:
            res.ok(f"{n}: every evaluation is counted")
    for n in sorted(C.direct):
        F = C.fn(n)
        if any(C.isobj(F.dfn, i) for b in F.f.blocks.values() for i in b.instrs):
            look(n, set())


class Prefix(Sum):
    """what has been reset when the first evaluation happens"""

    def __init__(self, C, F, work):
        Sum.__init__(self, C, F)
        self.work, self.first = work, {}

    def call(self, ex, i, c, env, state, trail):
        if self.work(i):
            self.first.setdefault(state, i.line)
            return None
        return Sum.call(self, ex, i, c, env, state, trail)


def iterations(res, prog, work):
    C = Counters(prog, "c3Opt", ["niters"])
    R = Counters(prog, "c3Opt", ["niters", "nevals", "ngvals"])
    for name in RUNS:
        f = prog.functions.get(name)
        if f is None or not f.blocks:
            continue
        F = C.fn(name)
        loops = natural_loops(F)
        found = 0
        for h, body in top_loops(F, loops):
            ins = [i for x in body for i in F.f.blocks[x].instrs]
            if not any(i.op == "call" and work(i) for i in ins):
                continue
            if not any((i.op == "store" and C.field(F.dfn, i.ops[1])) or (i.op == "call" and callee(i) in C.touch) for i in ins):
                continue
            found += 1
            cl = Iter(C, F, (h, body))
            ex = CExplorer(prog, F.f)
            try:
                ex.run(h, 0, {}, C.zero(), cl)
            except TooMany:
                res.skip(f"{name}:niters", "too many paths")
                continue
            vals = {s[0] for s in cl.backs}
            if cl.unknown or None in vals or not vals:
                res.skip(f"{name}:niters", "the paths of an iteration could not be summed up")
            elif vals != {1}:
                w = sorted(vals - {1}, key=str)[0]
                line = next(l for s, l in cl.backs.items() if s[0] == w)
                res.bad(f"{name}:niters", f"an iteration of {name} can change niters by {w} instead of 1", f.where(line))
            else:
                res.ok(f"{name}: niters +1 on every path through an iteration")
        if not found:
            res.bad(f"{name}:niters", f"no iteration of {name} advances niters", f.where())
        cl = Prefix(R, R.fn(name), work)
        ex = CExplorer(prog, f)
        try:
            ex.run(R.fn(name).rpo[0], 0, {}, R.zero(), cl)
        except TooMany:
            res.skip(f"{name}:reset", "too many paths")
            continue
        if cl.unknown or not cl.first:
            res.skip(f"{name}:reset", "the paths to the first evaluation could not be summed up")
            continue
        for k, fld in enumerate(R.fields):
            vs = {(s[k], l) for s, l in cl.first.items()}
            if any(v == 0 or isinstance(v, int) for v, l in vs):
                l = next(l for v, l in vs if isinstance(v, int))
                res.bad(f"{name}:reset:{fld}", f"{name} can start evaluating with the {fld} of an earlier run", f.where(l))
            elif any(v is None for v, l in vs):
                res.skip(f"{name}:reset:{fld}", "set to a value that is not understood")
            else:
                res.ok(f"{name}: {fld} is set before the first evaluation")


def run(ctx):
    res = Result()
    res.rule = ("constant propagation of counters, flags and return codes along all paths of every iterative algorithm with its budget set to 1, 2 and 3 "
                "(all other conditions both ways): the loop that evaluates the objective makes at most that many iterations, and ending at the limit is reported; "
                "evaluation and iteration counters advance exactly once per evaluation and iteration on every path")
    prog = ctx.prog
    work = working(prog)
    n = 0
    for name, src, status in TABLE:
        f = prog.functions.get(name)
        if f is None or not f.blocks:
            continue
        n += 1
        F = Fn(f)
        gets = getters(prog, src[1], src[2]) if src[0] == "field" else set()
        check(ctx, res, prog, name, F, src, status, work, gets)
    evaluations(res, prog)
    iterations(res, prog, work)
    if n < 8:
        raise Anchor("the iterative algorithms are gone")
    res.minimum = 30
    return res
