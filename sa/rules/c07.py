"""C07: no use after free and no double free."""
from ..core import Result, Anchor
from ..own import Own, dangling, emptied, moved


def run(ctx):
    res = Result()
    res.rule = ("every call that certainly releases what it is passed (free, fclose, realloc, and every function found to release a parameter on all its paths): on every path after it the pointer is not read through, "
                "written through, passed to a function that looks at it, released again, returned, or left in an object that lives on; null is not passed to a function that certainly accesses it, and a variable or field set to null after a release is not accessed; a pointer copied into another object is not released together with the object it came from")
    res.assumptions = ["realloc moves the block", "objects whose every caller releases them afterwards may hold stale pointers in between", "two field addresses of the same shape may be the same field"]
    own = Own(ctx.prog)
    seen_fns = set()
    n = 0
    for name, i, c, o, bad in dangling(ctx, own):
        n += 1
        F = ctx.prog.functions[name]
        seen_fns.add(name)
        if bad is None:
            res.ok(f"{name}:{i.line}: nothing uses the pointer after {c}")
        elif bad == "too many":
            res.skip(f"{name}:{c}", "too many paths")
        else:
            line, why, trail = bad
            res.bad(f"{name}:{c}:{why}", f"{name}: the pointer released by {c} (line {i.line}) {why} at line {line}", F.where(i.line), [f"line {x}" for x in trail])
    m = 0
    for name, i, c, bad in emptied(ctx, own):
        m += 1
        F = ctx.prog.functions[name]
        if bad is None:
            res.ok(f"{name}:{i.line}: null is not accessed after {c}")
        elif bad == "too many":
            res.skip(f"{name}:{c}:null", "too many paths")
        else:
            line, why, trail = bad
            res.bad(f"{name}:{c}:null {why}", f"{name}: a pointer that was released and set to null {why} at line {line}", F.where(i.line), [f"line {x}" for x in trail])
    for name, i, c, j, bad in moved(own):
        F = ctx.prog.functions[name]
        if bad is None:
            res.ok(f"{name}:{i.line}: the pointer copied is not released by {c}")
        else:
            res.bad(f"{name}:{c}:moved", f"{name}: a pointer stored elsewhere at line {i.line} is released with the {bad} by {c} (line {j.line})", F.where(i.line))
    if n < 600:
        raise Anchor(f"only {n} places that release storage were found")
    res.stats.update(functions=len(seen_fns), released=n, nulls=m, functions_releasing=sum(1 for v in own.ps.values() if v.frees == "must"))
    res.minimum = 600
    return res
