"""C15: box-constrained optimizers and line searches evaluate and return points inside the box only."""
from ..core import Result, Anchor
from ..box import Box, IN, OUT, UNK

O = (("a0", "OPT"),)
# routine, what its parameters stand for, the starting point (inside the box), the arrays that hold the answer
TABLE = [
    ("c3_opt_damp_bfgs", O, ["a1"], ["a1"]),
    ("c3_opt_lbfgs", O, ["a1"], ["a1"]),
    ("c3_opt_gradient", O, ["a1"], ["a1"]),
    ("c3opt_ls_box", O, ["a1"], ["a5"]),
    ("c3opt_ls_wolfe_bisect", O, ["a1"], ["a5"]),
    ("c3opt_ls_strong_wolfe", O, ["a1"], ["a5"]),
    ("c3opt_ls_zoom", O, ["a4"], ["a6"]),
    ("c3opt_ls_x_move", (("a0", "DIM"), ("a5", "LB"), ("a6", "UB")), [], ["a4"]),
    ("box_damp_bfgs", (("a0", "DIM"), ("a1", "LB"), ("a2", "UB")), ["a3"], ["a3"]),
    ("box_damp_newton", (("a0", "DIM"), ("a1", "LB"), ("a2", "UB")), ["a3"], ["a3"]),
    ("box_pg_descent", (("a0", "DIM"), ("a1", "LB"), ("a2", "UB")), ["a3"], ["a3"]),
    ("backtrack_line_search_bc", (("a0", "DIM"), ("a1", "LB"), ("a2", "UB")), ["a3"], ["a6"]),
]


def run(ctx):
    res = Result()
    res.rule = ("forward dataflow over LLVM IR: every array holding a point is in the box (the starting point, a copy of such a point, or the result of a loop "
                "whose stores leave every component between its bounds for every order of value and bounds), outside (last written without regard to the bounds) "
                "or unknown; no evaluation and no result may use a point of the second kind")
    prog = ctx.prog
    names = [t[0] for t in TABLE if t[0] in prog.functions and prog.functions[t[0]].blocks]
    if len(names) < 5:
        raise Anchor("the optimizers are gone")
    eng = ctx.need(names)
    B = Box(eng, prog)
    for name, roles, start, result in TABLE:
        if name not in names:
            continue
        f = prog.functions[name]
        st = frozenset([(a, frozenset([IN])) for a in start] + [(a, frozenset(["unset"])) for a in result if a not in start])
        out = B.analyse(name, roles, st)
        if out is None:
            res.skip(name, "the routine could not be followed")
            continue
        for a in result:
            v = out.get(a, frozenset([UNK]))
            if OUT in v and UNK not in v:
                res.bad(f"{name}:result", f"{name} can return a point that was not kept inside the box", f.where())
            elif UNK in v or v == {"unset"}:
                res.skip(f"{name}:result", "where the returned point comes from is not known")
            else:
                res.ok(f"{name}: the returned point is in the box")
    for (fn, line), v in sorted(B.evals.items()):
        if OUT in v and (fn, line) in B.bad:
            k, ch = B.bad[(fn, line)]
            res.bad(f"{fn}:evaluation", f"{fn} evaluates the objective at a point that was not kept inside the box", prog.functions[fn].where(line),
                    [f"{a} line {b}" for a, b in ch])
        elif v == {IN}:
            res.ok(f"{fn}: the point evaluated in line {line} is in the box")
        else:
            res.skip(f"{fn}:{line}", "where the point comes from is not known")
    res.functions = sorted(B.visited)
    res.minimum = 15
    return res
