"""C13: setting an option changes exactly that option, reading it returns what was set."""
import json, os, re
from ..core import Result, Anchor, ROOT
from ..sym import *
from ..util import *
from ..spec import K, Run
from ..contract import strip

SPEC = os.path.join(ROOT, "spec", "options.json")


READERS = os.path.join(ROOT, "spec", "option_readers.json")
# options whose storage is an array filled by the setter, or that are passed on
ENTS = [
 K("c3opt_set_brute_force_vals", "opt nvals loc", "nvals opt.d", maps=[("exit:opt.workspace", [("i", ["val", "loc[i]"], "i<nvals*opt.d")])]),
 K("lin_elem_exp_aopts_set_nodes_copy", "o n x", "n", maps=[("exit:o.nodes", [("i", ["val", "x[i]"], "i<n")])]),
 K("c3opt_add_lb", "opt lb", "opt.d", maps=[("opt.lb", [("i", ["val", "lb[i]"], "i<opt.d")])]),
 K("c3opt_add_ub", "opt ub", "opt.d", maps=[("opt.ub", [("i", ["val", "ub[i]"], "i<opt.d")])]),
 K("ft_regress_set_alg_and_obj", "ftr type obj", calls=[("regress_opts_create", ["ftr.dim", "type", "obj"], "")]),
]
# option handed to the routine that applies it: caller, callee, argument, option
USES = [
 ("lin_elem_exp_approx", "lin_elem_adapt", 5, "struct.LinElemExpAopts.delta"),
 ("lin_elem_exp_approx", "lin_elem_adapt", 6, "struct.LinElemExpAopts.hmin"),
 ("ft_regress_run", "ft_regress_run_rankadapt", 1, "struct.FTRegress.roundtol"),
 ("ft_regress_run", "ft_regress_run_rankadapt", 2, "struct.FTRegress.maxrank"),
 ("ft_regress_run", "ft_regress_run_rankadapt", 3, "struct.FTRegress.kickrank"),
 ("ft_regress_run", "ft_regress_run_rankadapt", 5, "struct.FTRegress.opt_restricted"),
 ("ft_regress_run", "ft_regress_run_rankadapt", 9, "struct.FTRegress.finalize"),
 ("ftapprox_cross_rankadapt", "function_train_round", 1, "struct.FtCrossArgs.epsround"),
]


def uses(ctx, eng, res):
    """the option applied is the one that was set"""
    prog = ctx.prog
    for caller, callee, k, opt in USES:
        if caller not in eng.an or callee not in prog.functions:
            continue
        st, fld = opt.rsplit(".", 1)
        n = 0
        for f in flat(eng, caller, depth=3, kinds=("call",)):
            if f.callee != callee or len(f.args) <= k:
                continue
            n += 1
            key = f"{caller}:{callee}:{k}"
            v = strip(f.args[k])
            a = atom_of(v)
            if const_of(v) is not None:
                res.bad(key, f"{caller} passes {show(v)} to {callee} where option {fld} belongs", ctx.where(caller, f.line))
            elif a is not None and a.kind == "ld" and a.a[0].kind == "ptr" and a.a[0].a[1] and a.a[0].a[1][-1][0] == "F":
                s = a.a[0].a[1][-1]
                got = prog.fieldname(s[1], s[2])
                if (s[1], got) == (st, fld):
                    res.ok(f"{caller} passes option {fld} to {callee}, line {f.line}")
                elif s[1] == st:
                    res.bad(key, f"{caller} passes option {got} to {callee} where option {fld} belongs", ctx.where(caller, f.line))
                else:
                    res.skip(key, f"passes {show(v)[:60]}")
            else:
                res.skip(key, f"passes {show(v)[:60]}")
        if not n:
            res.skip(f"{caller}:{callee}", "not called any more")


def direct_reads(eng, prog):
    """function -> fields it reads itself"""
    out = {}
    for name, an in eng.an.items():
        s = out.setdefault(name, set())
        for e in an.effects:
            if e.kind == "load":
                fs = [x for x in e.loc.a[1] if x[0] == "F"]
                if fs:
                    s.add(f"{fs[-1][1]}.{prog.fieldname(fs[-1][1], fs[-1][2])}")
    return out


def callees(eng):
    return {n: {e.callee for e in an.effects if e.kind == "call" and isinstance(e.callee, str)} for n, an in eng.an.items()}


def relpath(loc, names, ai=0):
    """text of a location/value relative to argument 0, loop counters removed; None if not rooted there"""
    if deep_root(loc.a[0]).kind != "arg" or deep_root(loc.a[0]).a[0] != ai:
        return None
    return show(loc, ["o"] + list(names[1:]))


def describe(eng, name):
    """sets: path -> text of value at exit (arguments by position); rets: text"""
    an = eng.an[name]
    prog = eng.prog
    names = ["o"] + ["$%d" % i for i in range(1, len(an.names))]
    sets, unknown = {}, set()
    s = eng.sum[name]
    for loc, v, ty in s.writes:
        r = deep_root(loc.a[0])
        if r.kind == "arg" and r.a[0] == 0:
            sets[show(loc, names)] = "?" if (v.fl & FL_NEW or opaque(v)) else show(v, names)
    # element-wise writes in loops (possibly in a helper)
    for f in flat(eng, name, inline=lambda c: True, depth=3, kinds=("store",)):
        if not f.loops:
            continue
        r = deep_root(f.loc.a[0])
        if r.kind != "arg" or r.a[0] != 0:
            continue
        w = array_write(f)
        if w is None or f.guards:
            unknown.add(show(strip_last_index(f.loc)[0], names))
            continue
        base, lo, cnt, val = w
        sets[f"{show(base, names)}[{show(lo, names)} +{show(cnt, names)}]"] = "?" if (val.fl & FL_NEW or opaque(val)) else show(val, names)
    fields = set()
    allmods = False
    for root, cl in s.mods or ():
        if cl == "ALL" or root.kind == "star":
            allmods = True
        elif root.kind == "arg" and root.a[0] == 0 and cl[0] == "F":
            fields.add(f"{cl[1]}.{prog.fieldname(cl[1], cl[2])}")
        elif root.kind == "arg" and root.a[0] == 0:
            fields.add("elem:" + cl[1])
    ret = None
    if an.ret is not None:
        ret = "?" if opaque(an.ret) else show(an.ret, names)
    return {"sets": sets, "fields": sorted(fields), "ret": ret, "star": allmods, "unknown": unknown}


def candidates(prog):
    return sorted(n for n in prog.functions if re.search(r"_(set|get)_", n) and prog.functions[n].params
                  and param_struct(prog, prog.functions[n], 0))


def run(ctx):
    res = Result()
    res.rule = ("exit-state summary of every option setter/getter compared with the option contract (spec/options.json): the value argument "
                "must be the final value of the option's own storage on every returning path, no other field may be modified, and the getter "
                "must return that storage; every settable option must be read by some library routine other than its accessors")
    res.assumptions = ["pointer arguments of one call do not alias each other"]
    with open(SPEC) as fh:
        spec = json.load(fh)
    prog = ctx.prog
    present = [n for n in spec["functions"] if n in prog.functions]
    if len(present) < 0.6 * len(spec["functions"]):
        raise Anchor(f"only {len(present)} of {len(spec['functions'])} option accessors exist")
    eng = ctx.full()
    res.minimum = 100
    allfields = {f"{s}.{f[0]}" for s, fs in prog.fields.items() for f in fs}
    words = {f[0] for fs in prog.fields.values() for f in fs}
    for n in present:
        sp = spec["functions"][n]
        fn = prog.functions[n]
        if len(fn.params) != sp["nparams"]:
            res.skip(n, "signature changed")
            continue
        d = describe(eng, n)
        bad = False
        for path, val in sp.get("sets", {}).items():
            toks = re.findall(r"->(\w+)", path)
            if any(t not in words for t in toks):
                res.skip(n, f"field of {path} no longer exists under that name")
                bad = True
                continue
            got = d["sets"].get(path)
            if got is None:
                last = toks[-1] if toks else None
                m = re.fullmatch(r"(.*)\[(\$\d+)\]", path)
                oth = [p for p in d["sets"] if m and p != path and p.startswith(m[1] + "[") and re.fullmatch(r"\[[$\d+*-]+\]", p[len(m[1]):])]
                if m and m[1] in d["sets"] and not any(f.endswith("." + last) for f in d["fields"]):
                    oth.append(m[1])    # element 0
                if len(oth) == 1 and d["sets"][oth[0]] == val and not d["star"] and not d["unknown"]:
                    res.bad(f"{n}:{path}:index", f"{n} stores its argument in {oth[0].replace('o->', '') + ('[0]' if oth[0] == m[1] else '')} instead of {path.replace('o->', '')}", ctx.where(fn))
                    bad = True
                    continue
                touched = any(f.endswith("." + last) for f in d["fields"]) if "[" not in path.split("->")[-1] else \
                    any(f.startswith("elem:") for f in d["fields"])
                if d["star"] or touched or d["unknown"]:
                    # written, but not with the contracted value on every path?
                    res.skip(n, f"{path}: final value not resolved")
                    bad = True
                else:
                    res.bad(f"{n}:{path}:unset", f"{n} does not store its argument in {path.replace('o->', '')}", ctx.where(fn))
                    bad = True
            elif got == "?" and val != "?":
                res.skip(n, f"{path}: value not resolved")
                bad = True
            elif val != "?" and got != val:
                res.bad(f"{n}:{path}:value", f"{n} leaves {path.replace('o->', '')} = {got} instead of {val}", ctx.where(fn))
                bad = True
        extra = [f for f in d["fields"] if f not in sp["fields"] and not f.startswith("elem:")]
        if "elem:double" in d["fields"] and "elem:double" not in sp["fields"]:
            extra.append("array contents")
        extra = [f for f in extra if f in allfields or f == "array contents"]
        if extra:
            res.bad(f"{n}:extra:{','.join(extra)}", f"{n} also modifies {', '.join(extra)}", ctx.where(fn))
            bad = True
        if sp.get("ret") not in (None, "?"):
            toks = re.findall(r"->(\w+)", sp["ret"])
            if any(t not in words for t in toks) or d["ret"] in ("?", None):
                res.skip(n, "return value not resolved")
                bad = True
            elif d["ret"] != sp["ret"]:
                res.bad(f"{n}:ret", f"{n} returns {d['ret']} instead of {sp['ret']}", ctx.where(fn))
                bad = True
        if not bad:
            res.ok(f"{n}: sets {sp.get('sets')} returns {sp.get('ret')}")
    # every settable option is consumed
    setf = {}
    for n in present:
        for p in spec["functions"][n].get("sets", {}):
            m = re.findall(r"->(\w+)", p)
            if m:
                for f in spec["functions"][n]["fields"]:
                    if f.endswith("." + m[-1]):
                        setf[f] = n
    readers = {}
    for name, an in eng.an.items():
        if re.search(r"_(set|get|copy|print|free)(_|$)", name):
            continue
        for e in an.effects:
            if e.kind == "load":
                st = e.loc.a[1]
                fs = [s for s in st if s[0] == "F"]
                if fs:
                    readers.setdefault(f"{fs[-1][1]}.{prog.fieldname(fs[-1][1], fs[-1][2])}", set()).add(name)
            elif e.kind == "call" and isinstance(e.callee, str) and re.search(r"_get_", e.callee):
                g = spec["functions"].get(e.callee)
                if g and g.get("ret") and g["ret"] != "?":
                    m = re.findall(r"->(\w+)", g["ret"])
                    for f in setf:
                        if m and f.endswith("." + m[-1]):
                            readers.setdefault(f, set()).add(name)
    for f, n in sorted(setf.items()):
        if f in spec["unread"]:
            continue
        if f in readers:
            res.ok(f"option {f} consumed by {len(readers[f])} routines, e.g. {sorted(readers[f])[0]}")
        elif f in allfields:
            res.bad(f"unread:{f}", f"the option stored by {n} in {f} is never read by the library", ctx.where(n))
    # the routines that act on an option (themselves, through a helper or an accessor) still do
    with open(READERS) as fh:
        want = json.load(fh)
    direct, cal = direct_reads(eng, prog), callees(eng)
    memo = {}

    def closure(n):
        if n not in memo:
            seen, todo, out = {n}, [n], set()
            while todo:
                x = todo.pop()
                out |= direct.get(x, set())
                for c in cal.get(x, ()):
                    if c not in seen:
                        seen.add(c)
                        todo.append(c)
            memo[n] = out
        return memo[n]
    nr = 0
    for f, fns in sorted(want.items()):
        if f not in allfields:
            continue
        for n in fns:
            if n not in eng.an:
                continue
            nr += 1
            if f in closure(n):
                continue
            res.bad(f"ignored:{f}:{n}", f"{n} does not act on option {f.split('.', 1)[1]} any more", ctx.where(n))
    res.ok(f"{nr} uses of options by the routines that act on them")
    for e in ENTS:
        Run(ctx, eng, res, e).go()
    uses(ctx, eng, res)
    res.stats["accessors"] = len(present)
    res.stats["options_with_consumers"] = len(setf)
    return res


def gen(ctx):
    """(development) print a contract skeleton from the current tree, to be reviewed by hand"""
    eng = ctx.full()
    out = {"functions": {}, "unread": []}
    for n in candidates(ctx.prog):
        d = describe(eng, n)
        if d["star"]:
            continue
        d["sets"] = {k: v for k, v in d["sets"].items() if re.match(r"^(\$\d+|-?\d+|NULL|[\w\->.\[\]$+* ]+)$", v) and "?" not in k and "(" not in k and "new" not in k}
        if d["ret"] and ("(" in d["ret"] or "new" in d["ret"]):
            d["ret"] = "?"
        if len(d["fields"]) > 8:
            continue
        if not d["sets"] and d["ret"] in ("?", None):
            continue
        ent = {"nparams": len(ctx.prog.functions[n].params), "sets": d["sets"], "fields": d["fields"], "ret": d["ret"]}
        out["functions"][n] = ent
    return out


def genreaders(ctx):
    """(development) which routines outside the accessors act on which option"""
    eng, prog = ctx.full(), ctx.prog
    with open(SPEC) as fh:
        spec = json.load(fh)
    opts = set()
    for n, sp in spec["functions"].items():
        for p in sp.get("sets", {}):
            m = re.findall(r"->(\w+)", p)
            if m:
                opts |= {f for f in sp["fields"] if f.endswith("." + m[-1])}
                opts |= {f"struct.{s}.{m[-1]}" for s in ()}
    direct, cal = direct_reads(eng, prog), callees(eng)
    opts |= {"struct.FtCrossArgs.maxranks", "struct.FtCrossArgs.ranks", "struct.RegressOpts.restrict_rank_opt", "struct.ConstElemExpAopts.nodes", "struct.LinElemExpAopts.nodes", "struct.LinElemExpAopts.lb", "struct.LinElemExpAopts.ub", "struct.c3Opt.lb", "struct.c3Opt.ub"}
    opts = {o for o in opts if not re.search(r"struct\.(Data|Fwrap|Pivot|Quasimatrix|KernelExpansion)\.", o)}
    small = {n for n in direct if re.search(r"_get_|_is_|_grad_status$", n)}
    out = {}
    for n in sorted(direct):
        if re.search(r"(_set_|_get_|copy|print|free|serialize|save|load)", n):
            continue
        r = set(direct[n])
        todo, seen = [c for c in cal[n] if c in small], set()
        while todo:
            c = todo.pop()
            if c not in seen:
                seen.add(c)
                r |= direct[c]
                todo += [x for x in cal[c] if x in small]
        for f in r & opts:
            out.setdefault(f, []).append(n)
    return out
