"""C10: operations that compute a value or build a new object do not modify their inputs."""
import json, os
from ..core import Result, Anchor, ROOT
from ..sym import *
from ..writes import Writes

SPEC = os.path.join(ROOT, "spec", "readonly.json")


def run(ctx):
    res = Result()
    res.rule = ("interprocedural effect analysis: no store, memory copy, free or BLAS/LAPACK output reachable from a read-only parameter "
                "(spec/readonly.json: function, parameter) may land in storage hanging off that parameter; internal work space is exempt; "
                "a write counts when its destination resolves to the parameter's own access path under satisfiable path conditions")
    res.assumptions = ["distinct pointer arguments of one call do not alias", "user callbacks do not modify the library's objects"]
    with open(SPEC) as fh:
        spec = json.load(fh)
    eng = ctx.full()
    prog = ctx.prog
    w = Writes(eng)
    miss = 0
    for n, i, ty in spec:
        f = prog.functions.get(n)
        if f is None or i >= len(f.ptypes) or str(f.ptypes[i]).replace("const ", "") != ty.replace("const ", ""):
            miss += 1
            continue
        pname = f.params[i][0].lstrip("%") if i < len(f.params) else str(i)
        bad = list(w.of_param(n, i))
        if not bad:
            res.ok(f"{n}({i}:{pname}) unmodified")
            continue
        b, cl, why = min(bad, key=lambda x: len(x[2]))
        last = why[-1]
        res.bad(f"{n}.{i}", f"{n} modifies its input argument {i} ({pname}): {last[2]} in {last[0]}", prog.functions[last[0]].where(last[1]),
                [f"{prog.functions[a].where(l)}: in {a}: {t}" for a, l, t in why])
    if miss > 0.4 * len(spec):
        raise Anchor(f"{miss} of {len(spec)} read-only parameters are gone")
    res.stats["parameters_listed"] = len(spec)
    res.stats["parameters_missing"] = miss
    res.stats["definite_write_entries"] = sum(len(v) for v in w.W.values())
    res.minimum = 400
    return res
