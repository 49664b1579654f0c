"""C04: copies are complete and independent."""
from ..core import Result, Anchor
from ..sym import *
from ..util import *
from ..shapes import shape, SHAPES

# fields of a copy that legitimately differ from the original, with the reason
DERIVED = {
    ("c3Opt", "grad"): "determined by the algorithm, which is copied",
    ("c3Opt", "workspace"): "scratch sized by the algorithm; brute-force points copied through a setter",
    ("OrthPolyExpansion", "nalloc"): "allocation size may be rounded up by the copy",
    ("FTparam", "nparams_per_core"): "recomputed from the approximation options, which are shared by reference",
    ("FTparam", "nparams_per_uni"): "recomputed from the approximation options",
    ("FTparam", "max_param_uni"): "recomputed from the approximation options",
    ("FTparam", "nparams"): "recomputed from the approximation options",
    ("GenericFunction", "fargs"): "never set or read by the library",
}
# fields that carry meaning only in some states of the object
WHEN = {
    ("LinearTransform", "detinv"): ("Ainv", "nonnull"), ("LinearTransform", "binv"): ("Ainv", "nonnull"),
    ("PiecewisePoly", "leaf"): ("leaf", 1), ("PiecewisePoly", "nbranches"): ("leaf", 0), ("PiecewisePoly", "branches"): ("leaf", 0), ("PiecewisePoly", "ope"): ("leaf", 1),
    ("c3Opt", "stored_grad"): ("store_grad", 1), ("c3Opt", "stored_x"): ("store_x", 1), ("c3Opt", "stored_func"): ("store_func", 1),
}
# fields a copy into an existing object leaves to the caller
PRESET = {("generic_function_copy_pa", "dim"), ("generic_function_copy_pa", "fargs")}
SIZEOF = {"d": 8, "u": 8, "c": 1, "z": 16}


def copyfns(prog):
    """functions that return a copy: one struct pointer in, the same struct pointer out"""
    out = {}
    for n, f in prog.functions.items():
        low = n.lower()
        if "copy" not in low:
            continue
        if f.rtype is None or f.rtype.kind != "ptr" or f.rtype.to is None or f.rtype.to.kind != "struct":
            continue
        for i in range(len(f.ptypes)):
            s = param_struct(prog, f, i)
            if s == "struct." + f.rtype.to.name:
                out[n] = (s, i, None)
                break
    for n, f in prog.functions.items():
        if "copy" in n.lower() and n not in out and f.rtype is not None and f.rtype.kind == "void" and len(f.ptypes) == 2 and n.endswith("_pa"):
            a, b = param_struct(prog, f, 0), param_struct(prog, f, 1)
            if a and a == b:
                out[n] = (a, 0, 1)
    return out


def arraycopies(prog):
    """functions that return a copy of an array of objects: a number, an array of pointers to a structure, and such an array out"""
    out = {}
    two = lambda t: t is not None and t.kind == "ptr" and t.to is not None and t.to.kind == "ptr" and t.to.to is not None and t.to.to.kind == "struct"
    for n, f in prog.functions.items():
        if "copy" in n.lower() and two(f.rtype) and len(f.params) == 2 and f.params[0][1] == "i64" and two(f.ptypes[1]) and f.ptypes[1].to.to.name == f.rtype.to.to.name:
            out[n] = (1, 0)
    return out


def lists(ctx, res, fns):
    """copies that append what they get from a container element by element: every element is visited"""
    eng, prog = ctx.eng, ctx.prog
    for n, (s, src, dst) in sorted(fns.items()):
        if dst is not None or "n" not in [f for f, t in prog.fields[s]]:
            continue
        an = eng.an[n]
        S = PTR(N("arg", src))
        cnt = an.fa.wrap(N("ld", fieldptr(prog, S, s, "n"), 0), "i64")
        for e in flat(eng, n, inline=lambda c: False, depth=1, kinds=("call",)):
            if not (isinstance(e.callee, str) and "get" in e.callee and len(e.args) == 2 and e.args[0] is S and len(e.loops) == 1):
                continue
            k, t, ex = e.loops[0]
            ka = katom(k)
            if ka is None or t is None or not ex or not contains(e.args[1], lambda y: y is ka):
                continue
            key = f"{n}:{e.callee}"
            lo = sub(e.args[1], A(ka))
            up = add(lo, t)
            if contains(lo, lambda y: y is ka):
                rv = add(e.args[1], A(ka))      # downwards
                if contains(rv, lambda y: y is ka):
                    res.skip(key, "order of the elements not resolved")
                    continue
                lo, up = sub(add(rv, ONE), t), add(rv, ONE)
            a, b = const_of(lo), const_of(sub(up, cnt))
            if a == 0 and b == 0:
                res.ok(key)
            elif a is not None and b is not None:
                res.bad(key, f"the copy takes elements {nm(an, lo)} to {nm(an, up)} (exclusive) of {nm(an, cnt)} (line {e.line})", prog.functions[n].where(e.line))
            else:
                res.skip(key, "range of elements not resolved")


def alts(v, out=None):
    """leaves of nested conditionals of a pointer or scalar"""
    if out is None:
        out = []
    if v.kind == "ptr" and v.a[0].kind == "ite" and not v.a[1]:
        for x in v.a[0].a[1:]:
            alts(x, out)
    elif v.kind == "ite":
        for x in v.a[1:]:
            alts(x, out)
    elif v.kind == "poly" and atom_of(v) is not None and atom_of(v).kind == "ite":
        for x in atom_of(v).a[1:]:
            alts(x, out)
    else:
        out.append(v)
    return out


class Copy:
    def __init__(self, ctx, res, name, struct, src, dst, fns):
        self.ctx, self.res, self.name, self.struct, self.fns = ctx, res, name, struct, fns
        self.eng, self.prog = ctx.eng, ctx.prog
        self.an = self.eng.an[name]
        self.fn = self.prog.functions[name]
        self.S = PTR(N("arg", src))
        self.facts = [nonnull(self.S)]
        self.dst = dst
        self.where = self.fn.where()

    def path(self, f):
        return f"{self.name}:{f}"

    def run(self):
        an, fa = self.an, self.an.fa
        if an.ret is None and self.dst is None:
            self.res.skip(self.name, "does not return")
            return
        fs = an.retfacts
        for c in self.facts:
            fs = fa.addfact(fs, c)
        if self.dst is None:
            D = assume(fa, an.ret, fs)
            # the other outcome (e.g. a NULL return guarded by something else)
            ds = [x for x in alts(D) if x is not NULL]
            if len(ds) != 1:
                self.res.skip(self.name, f"result not resolved: {show(D)[:80]}")
                return
            D = ds[0]
            if D is self.S or (D.kind == "ptr" and deep_root(D.a[0]) is self.S.a[0]):
                self.res.bad(f"{self.name}:result", f"returns (part of) the original instead of a copy: {nm(an, D)}", self.where)
                return
            if D.kind != "ptr" or D.a[0].kind != "new" or D.a[1]:
                self.res.skip(self.name, f"result not resolved: {show(D)[:80]}")
                return
        else:
            D = PTR(N("arg", self.dst))
        self.D = D
        self.fs = fs
        self.collect()
        short = self.struct.replace("struct.", "")
        for f, ty in self.prog.fields[self.struct]:
            loc = fieldptr(self.prog, D, self.struct, f)
            sloc = fieldptr(self.prog, self.S, self.struct, f)
            ity = irtype(self.prog, self.struct, f)
            if ity not in ("i64", "i32", "double", "ptr", "i8"):
                self.res.skip(self.path(f), "aggregate field")
                continue
            self.fs = fs
            facts = list(self.facts)
            if (short, f) in WHEN:
                g, c = WHEN[(short, f)]
                gl = fa.wrap(N("ld", fieldptr(self.prog, self.S, self.struct, g), 0), irtype(self.prog, self.struct, g))
                facts.append(nonnull(gl) if c == "nonnull" else eq0(sub(gl, C(c))))
                self.fs = fa.addfact(fs, facts[-1])
            v = exit_load(an, loc, ity, facts)
            orig = fa.wrap(N("ld", sloc, 0), ity)
            if (self.name, f) in PRESET:
                continue
            if (short, f) in DERIVED:
                if ity == "ptr":
                    self.shared(f, v)
                continue
            if ity != "ptr":
                self.scalar(f, v, orig)
                continue
            sh = shape(self.struct, f)
            if sh is None:
                self.res.skip(self.path(f), "no ownership recorded")
                continue
            kind, elt, cnt, scratch = sh
            if kind == "ref":
                self.scalar(f, v, orig)
                continue
            if self.shared(f, v):
                continue
            if scratch:
                self.res.ok(self.path(f))
                continue
            if kind in ("obj", "any"):
                self.obj(f, v, orig, kind)
            elif kind in ("own", "objs"):
                n = extent(self.prog, cnt, self.S, self.struct,
                           lambda g: fa.wrap(N("ld", fieldptr(self.prog, self.S, self.struct, g), 0), irtype(self.prog, self.struct, g)))
                self.array(f, v, orig, kind, elt, n)
            else:
                self.res.skip(self.path(f), "shape not handled")

    def resolved(self, v):
        return not opaque(v)

    def scalar(self, f, v, orig):
        if v is orig:
            self.res.ok(self.path(f))
            return
        a = alts(v)
        if all(x is orig for x in a):
            self.res.ok(self.path(f))
            return
        if contains(v, lambda n: n.kind == "uninit"):
            self.res.bad(self.path(f), f"the copy's {f} is left uninitialised (original's {f} not carried over)", self.where)
            return
        if not self.resolved(v):
            self.res.skip(self.path(f), f"value not resolved: {show(v)[:80]}")
            return
        if is_null(v) and orig.kind == "ptr" or True:
            # conditionally carried over: a leaf guarded by the original being NULL/zero is equal
            if self.equal_cases(v, orig):
                self.res.ok(self.path(f))
                return
            self.res.bad(self.path(f), f"the copy's {f} is {nm(self.an, v)[:120]}, not the original's {f}", self.where)

    def equal_cases(self, v, orig, facts=None):
        """every leaf equals orig under the conditions on the way to it"""
        fa = self.an.fa
        facts = facts if facts is not None else self.fs
        it = v.a[0] if v.kind == "ptr" and not v.a[1] else (atom_of(v) if v.kind == "poly" else v)
        if it is not None and it.kind == "ite":
            c, x, y = it.a
            return self.equal_cases(x, orig, fa.addfact(facts, c)) and self.equal_cases(y, orig, fa.addfact(facts, Not(c)))
        if v is orig:
            return True
        if v.kind == "ptr" and orig.kind == "ptr":
            return fa.implied(peq(v, orig), facts) is TRUE
        if v.kind == "poly" and orig.kind == "poly":
            return fa.implied(eq0(sub(v, orig)), facts) is TRUE
        return False

    def shared(self, f, v):
        """the copy's pointer leads into storage of the original"""
        for x in alts(v):
            if x.kind == "ptr" and x.a[0].kind == "ld" and deep_root(x.a[0]) is self.S.a[0]:
                self.res.bad(self.path(f) + ":shared", f"the copy's {f} is the original's storage {nm(self.an, x)}: both own it", self.where)
                return True
        return False

    def collect(self):
        """flattened writes of the function; copy calls kept as units"""
        keep = self.fns
        self.flat = flat(self.eng, self.name, inline=lambda c: c not in keep and len(self.eng.an[c].effects) < 400, depth=5,
                         kinds=("store", "call", "icall"))
        self.rets = {}
        fa = self.an.fa
        for e in self.flat:
            if e.kind == "call" and isinstance(e.callee, str) and (e.callee in keep) and e.ret is not None:
                st, src, dst = keep[e.callee]
                if dst is None:
                    self.rets[e.ret] = e.args[src]
                    self.rets[assume(fa, e.ret, self.fs)] = e.args[src]
            elif e.kind == "call" and isinstance(e.callee, str) and e.ret is not None and e.callee.startswith("orth_poly") and e.callee.endswith("_copy"):
                self.rets[e.ret] = e.args[0]

    def obj(self, f, v, orig, kind):
        leaves = alts(v)
        vs = [v] if v in self.rets else leaves
        bad = None
        for x in vs:
            if x is NULL:
                continue
            src = self.rets.get(x)
            if src is None:
                # ret may be a conditional that collapsed
                cands = [s for r, s in self.rets.items() if x in alts(r)]
                src = cands[0] if cands else None
            if src is None:
                if x.kind == "ptr" and x.a[0].kind == "new" and not opaque(x):
                    # built in place: check it is filled from the original at all
                    self.res.skip(self.path(f), "nested object built in place")
                    return
                self.res.skip(self.path(f), f"value not resolved: {show(x)[:80]}")
                return
            if self.strip(src) is not self.strip(orig):
                bad = src
        if all(x is NULL for x in vs):
            self.res.bad(self.path(f), f"the copy's {f} is never set (stays NULL)", self.where)
            return
        if bad is not None:
            if opaque(bad):
                self.res.skip(self.path(f), "argument of the copy not resolved")
            else:
                self.res.bad(self.path(f), f"the copy's {f} is a copy of {nm(self.an, bad)}, not of the original's {f}", self.where)
            return
        if any(x is NULL for x in vs) and kind == "obj" and not self.null_ok(v, orig):
            self.res.skip(self.path(f), "left NULL on some path")
            return
        self.res.ok(self.path(f))

    def strip(self, p):
        return p

    def null_ok(self, v, orig, facts=None):
        """NULL leaves only where the original is NULL"""
        fa = self.an.fa
        facts = facts if facts is not None else self.fs
        if v.kind == "ptr" and v.a[0].kind == "ite" and not v.a[1]:
            c, x, y = v.a[0].a
            return self.null_ok(x, orig, fa.addfact(facts, c)) and self.null_ok(y, orig, fa.addfact(facts, Not(c)))
        if v is NULL:
            return fa.implied(peq(orig, NULL), facts) is TRUE
        return True

    def array(self, f, v, orig, kind, elt, n):
        leaves = [x for x in alts(v) if x is not NULL]
        if not leaves:
            self.res.bad(self.path(f), f"the copy's {f} is never allocated (stays NULL)", self.where)
            return
        fa = self.an.fa
        for x in leaves:
            if x in self.rets and self.rets[x] is orig:
                self.res.ok(self.path(f))
                return
            if x.kind != "ptr" or x.a[0].kind != "new" or x.a[1]:
                self.res.skip(self.path(f), f"storage not resolved: {show(x)[:80]}")
                return
        if len(leaves) > 1:
            self.res.skip(self.path(f), "several allocations")
            return
        if any(x is NULL for x in alts(v)) and not self.null_ok(v, orig):
            self.res.skip(self.path(f), "left NULL on some path")
        x = leaves[0]
        esz = SIZEOF[elt] if kind == "own" else 8
        facts2 = fa.addfact(self.fs, nonnull(orig))
        # contents
        cover = []
        unknown = []
        for e in self.flat:
            if e.kind == "store":
                if e.loc.kind == "ptr" and self.base_is(e.loc, x):
                    val = e.val
                    if val in self.rets:
                        val = PTR(N("copyof", self.rets[val]))
                    else:
                        va = assume(fa, val, facts2)
                        if va in self.rets:
                            val = PTR(N("copyof", self.rets[va]))
                        else:
                            val = va
                    g = FEff()
                    g.loc, g.val, g.loops = e.loc, val, [(k, assume(fa, t, facts2) if t is not None else None, ex) for k, t, ex in e.loops]
                    aw = array_write(g)
                    if aw is None or not all(ex for _, t, ex in e.loops):
                        unknown.append(e)
                    else:
                        cover.append((aw, e))
            elif e.kind == "call" and isinstance(e.callee, str):
                if "memmove" in e.callee or "memcpy" in e.callee or e.callee in ("strcpy", "strncpy"):
                    if self.base_is(e.args[0], x):
                        if e.callee in ("strcpy",):
                            unknown.append(e)
                        else:
                            cover.append((("mem", e.args[0], e.args[1], assume(fa, e.args[2], facts2)), e))
                elif any(isinstance(a, Node) and a.kind == "ptr" and self.base_is(a, x) for a in e.args) and e.callee not in ("free",):
                    unknown.append(e)
            elif e.kind == "call" and any(isinstance(a, Node) and a.kind == "ptr" and self.base_is(a, x) for a in e.args):
                unknown.append(e)
        if elt == "c":
            self.res.skip(self.path(f), "text: contents not compared")
            return
        if n is None and kind == "own":
            # extent not recorded: the copied bytes must be the allocated bytes
            info = self.an.news.get(x.a[0])
            n_bytes = assume(fa, info.size, facts2) if info is not None and info.size is not None else None
        else:
            n_bytes = mul(C(esz), n) if n is not None else None
        if n_bytes is None:
            self.res.skip(self.path(f), "extent unknown")
            return
        info = self.an.news.get(x.a[0])
        if info is not None and info.size is not None:
            d = const_of(sub(assume(fa, info.size, facts2), n_bytes))
            if d is not None and d < 0:
                self.res.bad(self.path(f) + ":size", f"storage of the copy's {f} has {nm(self.an, info.size)} bytes, the original's has {nm(self.an, n_bytes)}", self.where)
                return
        full = False
        why = None
        pieces = []
        # zero initialisation and then partial loops do not count
        for c, e in cover:
            if e.guards and not self.guards_ok(e.guards, orig, facts2):
                unknown.append(e)
                continue
            if c[0] == "mem":
                _, dp, sp, nb = c
                if dp is not PTR(x.a[0]) and dp is not x:
                    unknown.append(e)
                    continue
                if sp is not orig:
                    if not opaque(sp):
                        why = f"contents of the copy's {f} come from {nm(self.an, sp)} (line {e.line})"
                    else:
                        unknown.append(e)
                    continue
                d = const_of(sub(nb, n_bytes))
                if d is not None and d >= 0:
                    full = True
                elif d is not None:
                    why = f"only {nm(self.an, nb)} of {nm(self.an, n_bytes)} bytes of {f} are copied (line {e.line})"
                elif nb is not n_bytes and not opaque(nb):
                    why = f"{nm(self.an, nb)} bytes of {f} are copied, the object has {nm(self.an, n_bytes)} (line {e.line})"
                else:
                    unknown.append(e)
            else:
                base, lo, cn, val = c
                want = PTR(N("ld", addstep(orig, ("I", add(lo, A(J)) if not (const_of(cn) == 1) else lo, "ptr")), 0)) if kind == "objs" else None
                if kind == "objs":
                    want = PTR(N("copyof", want))
                    okv = val is want
                else:
                    okv = any(val is A(N("ld", addstep(orig, ("I", add(lo, A(J)) if not (const_of(cn) == 1) else lo, ty)), 0))
                              for ty in ("double", "i64", "i8", "i32"))
                if not okv:
                    if opaque(val) or (kind == "objs" and not self.is_wrong_obj(val)):
                        unknown.append(e)
                    else:
                        why = f"element J of the copy's {f} is {nm(self.an, val)[:100]} (line {e.line})"
                    continue
                nel = n if n is not None else None
                if nel is None:
                    unknown.append(e)
                    continue
                pieces.append((lo, cn, e))
                if const_of(lo) != 0:
                    continue
                d = const_of(sub(cn, nel))
                if d is not None and d >= 0:
                    full = True
                elif d is not None:
                    why = f"only {nm(self.an, cn)} of {nm(self.an, nel)} elements of {f} are copied (line {e.line})"
                elif not opaque(cn):
                    why = f"{nm(self.an, cn)} elements of {f} are copied, the object has {nm(self.an, nel)} (line {e.line})"
                else:
                    unknown.append(e)
        # consecutive pieces may cover the extent together
        cur, more = ZERO, True
        while more and not full and n is not None:
            more = False
            for lo, cn, e in pieces:
                if lo is cur and cn is not ZERO:
                    cur = add(cur, cn)
                    more = True
                    break
            d = const_of(sub(cur, n))
            if d is not None and d >= 0:
                full = True
        if full:
            self.res.ok(self.path(f))
        elif unknown:
            self.res.skip(self.path(f), "contents written in a form not resolved")
        elif why:
            self.res.bad(self.path(f) + ":contents", why, self.where)
        else:
            self.res.bad(self.path(f) + ":contents", f"storage of the copy's {f} is never filled from the original", self.where)

    def is_wrong_obj(self, val):
        if val.kind == "ptr" and val.a[0].kind == "copyof":
            return True
        if val.kind == "ptr" and val.a[0].kind == "ld":
            return True
        return val is NULL

    def base_is(self, p, x):
        if p.kind != "ptr":
            return False
        for b in ptr_alts(PTR(p.a[0]) if p.a[0].kind == "ite" else p):
            if b is x.a[0]:
                return True
        return p.a[0] is x.a[0]

    def guards_ok(self, guards, orig, facts):
        """guards that merely say the original or its field is there"""
        fa = self.an.fa
        for g in guards:
            if fa.implied(g, facts) is TRUE:
                continue
            return False
        return True


def run(ctx):
    res = Result()
    res.rule = ("For every copy function (structure in, same structure out) the memory at exit is computed by the value-numbering analysis: each scalar or borrowed field of the "
                "result must equal the original's field, each owned pointer must lead to storage allocated by the copy (never into the original), of the recorded extent, "
                "and its contents must be written from the original's array over the whole extent (memmove, loop or element copy).")
    res.assumptions = ["ownership and extents of pointer fields as recorded in sa/shapes.py", "allocation does not fail", "distinct pointer arguments do not alias"]
    fns = copyfns(ctx.prog)
    ctx.need(list(fns))
    if len(fns) < 15:
        raise Anchor(f"only {len(fns)} copy functions found")
    for n, (s, src, dst) in sorted(fns.items()):
        Copy(ctx, res, n, s, src, dst, fns).run()
    arrs = arraycopies(ctx.prog)
    ctx.need(list(arrs))
    for n, (src, cnt) in sorted(arrs.items()):
        K = Copy(ctx, res, n, None, src, None, fns)
        an = K.an
        if an.ret is None:
            res.skip(n, "does not return")
            continue
        ds = [x for x in alts(an.ret) if x is not NULL]
        if len(ds) != 1 or ds[0].kind != "ptr" or ds[0].a[0].kind != "new" or ds[0].a[1]:
            res.skip(n, "result not resolved")
            continue
        K.fs = an.retfacts
        K.collect()
        # later writes of an element replace the null it starts with
        K.flat = [e for e in K.flat if not (e.kind == "store" and e.val is NULL)]
        K.array("elements", ds[0], K.S, "objs", None, A(N("arg", cnt)))
    lists(ctx, res, fns)
    res.minimum = 60
    res.stats = {"copy_functions": sorted(fns)}
    return res
