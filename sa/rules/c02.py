"""C02: binary serialization: the reader mirrors the writer, sizes are exact."""
import os
from ..core import Result, Anchor
from ..serial import *
from ..shapes import shape
from ..contract import strip

PRIMW = {"serialize_int": "int", "serialize_size_t": "size_t", "serialize_double": "double", "serialize_doublep": "double array"}
PRIMR = {"de" + k: v for k, v in PRIMW.items()}
SZ = {"int": 4, "size_t": 8, "double": 8}


def P2(kind, struct, state, variants=({},), w=None, r=None, null=(), skip=()):
    return dict(kind=kind, struct=struct, state=state.split(), variants=variants, null=null,
                w=w or "serialize_" + kind, r=r or "deserialize_" + kind, skip=skip)


def V(key, *vals):
    return tuple({key: C(v)} for v in vals)


PAIRS = [
    P2("lin_elem_exp", "LinElemExp", "num_nodes nodes coeff"),
    P2("const_elem_exp", "ConstElemExp", "num_nodes nodes coeff"),
    P2("kernel", "Kernel", "type nparams params"),
    P2("kernel_expansion", "KernelExpansion", "nkernels coeff kernels lb ub include_kernel_param"),
    P2("space_mapping", "SpaceMapping", "map set lin_slope lin_offset inv_lin_slope inv_lin_offset", V("SpaceMapping.map", 0, 1, 2)),
    P2("orth_poly_expansion", "OrthPolyExpansion", "p.ptype num_poly lower_bound upper_bound coeff space_transform kristoffel_eval",
       V("OrthPoly.ptype", 0, 1, 2)),
    P2("orth_poly_expansion", "OrthPolyExpansion", "p.ptype num_poly lower_bound upper_bound ccoeff space_transform kristoffel_eval",
       V("OrthPoly.ptype", 4)),
    P2("piecewise_poly", "PiecewisePoly", "leaf ope", V("PiecewisePoly.leaf", 1)),
    P2("piecewise_poly", "PiecewisePoly", "leaf nbranches branches", V("PiecewisePoly.leaf", 0)),
    P2("generic_function", "GenericFunction", "dim fc f", V("GenericFunction.fc", 0, 1, 2, 3, 4)),
    P2("quasimatrix", "Quasimatrix", "n funcs", w="quasimatrix_serialize", r="quasimatrix_deserialize"),
    P2("qmarray", "Qmarray", "nrows ncols funcs", w="qmarray_serialize", r="qmarray_deserialize"),
    P2("function_train", "FunctionTrain", "dim ranks cores", w="function_train_serialize", r="function_train_deserialize"),
    P2("ft1d_array", "FT1DArray", "size ft", w="ft1d_array_serialize", r="ft1d_array_deserialize"),
    P2("linear_transform", "LinearTransform", "A b det Ainv binv detinv dimin dimout mt mti", w="linear_transform_serialize", r="linear_transform_deserialize"),
    P2("linear_transform", "LinearTransform", "A b det Ainv dimin dimout mt", w="linear_transform_serialize", r="linear_transform_deserialize", null=("Ainv",)),
    P2("probability_density", "ProbabilityDensity", "transform type pdf lt", w="probability_density_serialize", r="probability_density_deserialize",
       skip=("extra",)),
]
EXTENT = {("KernelExpansion", "coeff"): "nkernels", ("KernelExpansion", "kernels"): "nkernels", ("OrthPolyExpansion", "coeff"): "num_poly",
          ("OrthPolyExpansion", "ccoeff"): "num_poly"}


def lengths(prog, m, struct, field, base):
    """extent of an array field under the model"""
    e = EXTENT.get((struct, field))
    if e is None:
        s = shape(struct, field)
        if s is None or s[2] in (None, "*"):
            return None
        e = s[2]
    env = {}
    for n, _ in prog.fields["struct." + struct]:
        if n in e:
            v = cint(inst(A(N("ld", fieldptr(prog, base, "struct." + struct, n), 0)), m))
            if v is not None:
                env[n] = v
    try:
        return eval(e, {}, env)
    except Exception:
        return None


class Pair:
    def __init__(self, ctx, eng, res, p, wkinds, rkinds, variant):
        self.ctx, self.eng, self.res, self.p, self.wk, self.rk = ctx, eng, res, p, wkinds, rkinds
        self.prog = ctx.prog
        self.variant = dict(variant)
        self.name = p["kind"] + "".join(f"[{k.split('.')[1]}={cint(v)}]" for k, v in variant.items()) + "".join(f"[{n}=NULL]" for n in p["null"])

    def model(self, ints=True):
        m = Mem(self.prog, self.variant, ints)
        return m

    def key(self, what):
        return f"C02:{self.name}:{what}"

    def items(self, name, kinds, m, obj):
        """items laid out; a reader (obj None) also replays its stores"""
        eng, prog = self.eng, self.prog
        items = set(kinds)
        an = eng.an[name]
        effs = flat(eng, name, inline=inliner(items, prog), depth=4, kinds=("store", "call", "ret"))
        out = []
        cfg = eng.cfg(name)
        self.ret = None
        for f in iterate(effs, m):
            if f.kind == "ret":
                if f.val is not None:
                    self.ret = inst(f.val, m)
                continue
            if f.kind == "store":
                if obj is None:
                    loc = inst(f.loc, m)
                    self.inloop(an, cfg, loc)
                    m.put(loc, inst(f.val, m), ("s", f.fn, f.ins.idx))
                continue
            c = f.callee if isinstance(f.callee, str) else None
            if c not in kinds:
                if obj is None and not self.harmless(c, f, m):
                    self.other.append(c or "an indirect call")
                continue
            if obj is not None and c in self.nested_w and len(f.args) > 2 and f.args[2] is not NULL:
                continue            # only asks for the size
            it = Item()
            it.no, it.kind, it.line, it.fn = len(out), kinds[c], f.line, f.fn
            it.pos = inst(f.args[0], m)
            it.vals = [(a, inst(a, m)) for a in f.args[1:]]
            it.dests = None
            it.src = self.src(f.args[1], m)
            if obj is None:
                tag = ("c", f.fn, f.ins.idx)
                w = self.witems[it.no] if it.no < len(self.witems) else None
                it.dests = [inst(a, m) for a in f.args[1:]]
                for d in it.dests:
                    self.inloop(an, cfg, d)
                if w is not None and w.kind == it.kind:
                    if it.kind in ("int", "size_t"):
                        v = w.vals[0][1]
                        m.put(it.dests[0], v if cint(v) is not None else A(N("item", it.no)), tag)
                    elif it.kind == "double":
                        m.put(it.dests[0], A(N("item", it.no)), tag)
                    else:
                        m.put(it.dests[0], PTR(N("item", it.no)), tag)
                        if it.kind == "double array":
                            m.put(it.dests[1], w.vals[1][1], tag)
                else:
                    for d in it.dests:
                        m.put(d, A(N("item", it.no)), tag)
            it.end = inst(f.ret, m) if isinstance(f.ret, Node) else None
            out.append(it)
            if len(out) > 400:
                raise Unresolved("too many items")
        return out

    def harmless(self, c, f, m):
        """a call of the reader that cannot set the object; copies are replayed"""
        if c is None:
            return False
        if c in ("malloc", "calloc", "free", "printf", "fprintf", "exit", "abort", "__assert_fail") or c.startswith("llvm.dbg") or c.startswith("llvm.lifetime"):
            return True
        if "memcpy" in c or "memmove" in c:
            n = cint(inst(topoly(f.args[2]), m))
            d, s = inst(f.args[0], m), inst(f.args[1], m)
            if n is None or n % 8 or n > 800 or d.kind != "ptr" or s.kind != "ptr":
                return False
            elt = next((p.a[1][-1][2] for p in (d, s) if p.a[1] and p.a[1][-1][0] == "I"), None)
            for j in range(n // 8):
                for e in ([elt] if elt else ["i64", "double", "ptr"]):
                    v = m.cur(addstep(s, ("I", C(j), e)))
                    if v is not None:
                        m.put(addstep(d, ("I", C(j), e)), v, ("c", f.fn, f.ins.idx))
            return True
        sm = self.eng.sum.get(c)
        return sm is not None and not sm.opaque and not sm.mods

    def inloop(self, an, cfg, loc):
        b = loc.a[0] if loc.kind == "ptr" else loc
        if b.kind == "new":
            bl = an.fa.newblock.get(b)
            if bl is not None and cfg.loopsof.get(bl):
                raise Unresolved("object allocated inside a loop")

    def src(self, raw, m):
        a = raw
        if a.kind == "ptr" and not a.a[1]:
            a = a.a[0]
        elif a.kind == "poly":
            a = atom_of(a)
        while a is not None and a.kind == "ite":
            c = inst(a.a[0], m)
            if c is TRUE or c is FALSE:
                a = a.a[1 if c is TRUE else 2]
                a = atom_of(a) if a.kind == "poly" else (a.a[0] if a.kind == "ptr" and not a.a[1] else a)
            else:
                return None
        if a is not None and a.kind == "ld":
            return norm(inst(a.a[0], m))
        return None

    def go(self):
        p, res = self.p, self.res
        w, r = p["w"], p["r"]
        A1 = PTR(N("arg", 1))
        wm = self.model()
        for n in p["null"]:
            wm.fixed[p["struct"] + "." + n] = NULL
        # write mode: no size asked for
        for q in self.nulltests(w, 2):
            wm.d[q] = TRUE
        self.witems = wi = self.items(w, self.wk, wm, A1)
        wret = self.ret
        # size mode
        sm = self.model()
        sm.auto = wm.auto
        sm.fixed = wm.fixed
        size = sline = None
        for f in iterate(flat(self.eng, w, inline=inliner(set(self.wk), self.prog), kinds=("store", "call")), sm):
            if f.kind == "store":
                loc, v = inst(f.loc, sm), inst(f.val, sm)
                sm.put(loc, v, ("s", f.fn, f.ins.idx))
                if norm(loc) is PTR(N("arg", 2)):
                    size, sline = topoly(v), f.line
            elif f.callee in self.nested_w and f.args[2] is not NULL:
                sm.put(inst(f.args[2], sm), A(N("call", "$size_" + self.wk[f.callee], inst(f.args[1], sm))), ("c", f.fn, f.ins.idx))
        where = self.ctx.where(w)
        self.positions(w, wi, wret, "written")
        if wret is not None and size is not None:
            b, off = offset(wret)
            if b is N("arg", 0):
                d = const_of(sub(off, size))
                if d == 0:
                    res.ok(f"{self.name}: announced size {show(size)[:60]} is what {w} writes")
                elif d is not None:
                    res.bad(self.key("size"), f"{w} announces a size that is {abs(d)} bytes {'too small' if d > 0 else 'too large'} "
                            f"for what it writes ({self.setting(wm)})", self.ctx.where(w, sline))
                else:
                    res.skip(self.name + " size", f"{show(size)[:60]} vs {show(off)[:60]}")
            else:
                res.skip(self.name + " size", f"end of data {show(wret)[:60]}")
        else:
            res.skip(self.name + " size", "announced size not resolved")
        # reader
        rm = self.model(ints=False)
        self.other = []
        rm.fixed = {}
        ri = self.items(r, self.rk, rm, None)
        for a, b in zip(wi, ri):
            if a.kind != b.kind:
                res.bad(self.key("sequence"), f"item {a.no + 1} is written as {a.kind} ({w} line {a.line}) and read as {b.kind} ({self.setting(wm)})",
                        self.ctx.where(b.fn, b.line))
                return
        if len(wi) != len(ri):
            res.bad(self.key("sequence"), f"{w} writes {len(wi)} items, {r} reads {len(ri)} ({self.setting(wm)})", self.ctx.where(r))
            return
        if len(wi) == 0:
            raise Unresolved("no items")
        res.ok(f"{self.name}: {len(wi)} items, same kinds in the same order ({', '.join(i.kind for i in wi)[:100]})")
        self.positions(r, ri, self.ret, "read")
        obj = rm.cur(PTR(N("arg", 1)))
        if obj is None:
            res.skip(self.name, "object handed out by the reader not resolved")
            return
        bysrc = {}
        for it in wi:
            s = it.src
            if s is not None:
                bysrc.setdefault(s, []).append(it)
        for fld in p["state"]:
            self.field(fld, A1, obj, wm, rm, bysrc, wi, ri)

    def setting(self, m):
        return ", ".join(f"{show(k, self.eng.an[self.p['w']].names)}={v}" for k, v in list(m.auto.items())[:6]) or "any object"

    def nulltests(self, name, arg):
        out = set()
        t = N("arg", arg)
        an = self.eng.an[name]

        def scan(n):
            for y in subnodes(n):
                if y.kind == "peq" and any(z is NULL for z in y.a) and any(z.kind == "ptr" and z.a[0] is t and not z.a[1] for z in y.a):
                    out.add(y)
        for f in flat(self.eng, name, inline=inliner(set(self.wk), self.prog), kinds=("store", "call", "ret")):
            for g in f.guards:
                scan(g)
            for x in [f.val, f.loc] + list(f.args or ()):
                if isinstance(x, Node):
                    scan(x)
        return out

    def positions(self, name, its, ret, verb):
        """every item starts where the previous one ends"""
        res = self.res
        prev, und = ZERO, None
        for it in its:
            b, off = offset(it.pos)
            if b is not N("arg", 0):
                und = f"position {show(it.pos)[:60]}"
                break
            d = const_of(sub(off, prev))
            if d is None:
                und = f"position {show(off)[:60]} vs {show(prev)[:60]}"
                break
            if d != 0:
                res.bad(self.key("position:" + verb), f"item {it.no + 1} ({it.kind}) is {verb} {d:+d} bytes from the end of the item before it",
                        self.ctx.where(it.fn, it.line))
                return
            b, prev = offset(it.end) if it.end is not None else (None, None)
            if it.kind in SZ:
                prev = add(off, C(SZ[it.kind]))
            elif it.kind == "double array" and verb == "written":
                prev = add(off, add(C(8), mul(C(8), topoly(it.vals[1][1]))))
            elif b is not N("arg", 0):
                und = "end not resolved"
                break
        if und is None:
            b, off = offset(ret) if ret is not None else (None, None)
            if b is not N("arg", 0):
                und = f"returned position {show(ret)[:60] if ret is not None else ''}"
            else:
                d = const_of(sub(off, prev))
                if d is None:
                    und = f"returned position {show(off)[:60]} vs {show(prev)[:60]}"
                elif d != 0:
                    res.bad(self.key("end:" + verb), f"{name} returns a position {d:+d} bytes from the end of its last item", self.ctx.where(name))
                    return
        if und is not None:
            got = thread(self.eng, self.prog, name, set(self.wk if verb == "written" else self.rk), self.nested_w)
            if got is True:
                res.ok(f"{self.name}: every item is {verb} where the one before it ends (pointer handed from item to item)")
            elif isinstance(got, tuple):
                res.bad(self.key("thread:" + verb), got[0], self.ctx.where(name, got[1]))
            else:
                res.skip(f"{self.name} {verb} positions", und)
        else:
            res.ok(f"{self.name}: {len(its)} items {verb} back to back")

    def cell(self, wloc, rval, what, wm, bysrc, wi, ri):
        """wloc: where the writer takes it from; rval: what the reader leaves"""
        res, p = self.res, self.p
        its = bysrc.get(norm(wloc), [])
        want = inst(A(N("ld", wloc, 0)), wm)
        line = its[0].line if its else None
        if rval is None:
            if self.other:
                res.skip(f"{self.name} {what}", f"not followed through {self.other[0]}")
            elif not its:
                res.bad(self.key(what), f"{what} is neither written nor restored", self.ctx.where(p["w"]))
            else:
                res.bad(self.key(what), f"{what} is written but the reader never sets it", self.ctx.where(p["r"]))
            return
        a = rval.a[0] if rval.kind == "ptr" and not rval.a[1] else (atom_of(rval) if rval.kind == "poly" else None)
        if a is not None and a.kind == "item":
            it = wi[a.a[0]]
            if it in its:
                res.ok(f"{self.name}: {what} written as item {it.no + 1}, read back into the same place")
                return
            s = it.src
            if s is not None:
                res.bad(self.key(what), f"{what} is restored from item {it.no + 1}, which holds {show(s, self.eng.an[p['w']].names)}",
                        self.ctx.where(ri[it.no].fn, ri[it.no].line))
            else:
                res.skip(f"{self.name} {what}", f"written value {show(it.vals[0][1])[:60]}")
            return
        c, w = cint(rval), cint(want)
        if c is not None and w is not None:
            if c == w:
                res.ok(f"{self.name}: {what} comes back as written")
            else:
                res.bad(self.key(what), f"{what} is {w} in the saved object and {c} in the loaded one ({self.setting(wm)})", self.ctx.where(p["r"]))
            return
        if rval.kind == "ptr":
            want = inst(PTR(N("ld", wloc, 0)), wm)
        if want is NULL and rval is NULL:
            res.ok(f"{self.name}: {what} stays null")
            return
        if want is NULL or rval is NULL or (c is not None and its):
            res.bad(self.key(what), f"{what} of the loaded object is {show(rval)[:40]}", self.ctx.where(p["r"]))
            return
        res.skip(f"{self.name} {what}", f"loaded value {show(rval)[:60]}")

    def field(self, fld, A1, obj, wm, rm, bysrc, wi, ri):
        prog, p = self.prog, self.p
        st = p["struct"]
        wl, rl = A1, obj
        parts = fld.split(".")
        for i, f in enumerate(parts):
            wl, rl = fieldptr(prog, wl, "struct." + st, f), fieldptr(prog, rl, "struct." + st, f)
            if i + 1 < len(parts):
                s = shape(st, f)
                st = s[1]
                wl = PTR(N("ld", wl, 0))
                rl = rm.cur(rl)
                if rl is None:
                    self.res.skip(f"{self.name} {fld}", "not resolved")
                    return
        f = parts[-1]
        s = shape(st, f)
        rv = rm.cur(rl)
        wv = inst(PTR(N("ld", wl, 0)), wm)
        if s is None or s[0] in ("obj", "any", "ref") or wv is NULL:
            self.cell(wl, rv, f"{st}.{fld}", wm, bysrc, wi, ri)
            return
        n = lengths(prog, wm, st, f, A1)
        a = rv.a[0] if rv is not None and rv.kind == "ptr" and not rv.a[1] else None
        if rv is None or rv is NULL or (a is not None and a.kind == "item"):
            self.cell(wl, rv, f"{st}.{fld}", wm, bysrc, wi, ri)
            if a is not None and a.kind == "item" and wi[a.a[0]].kind == "double array" and n is not None:
                c = cint(wi[a.a[0]].vals[1][1])
                if c is not None and c != n:
                    self.res.bad(self.key(f"{st}.{fld}:length"), f"{st}.{fld} has {n} elements, {c} are written ({self.setting(wm)})",
                                 self.ctx.where(wi[a.a[0]].fn, wi[a.a[0]].line))
                elif c is not None:
                    self.res.ok(f"{self.name}: all {n} elements of {st}.{fld} are written")
            return
        if n is None or rv.kind != "ptr":
            self.res.skip(f"{self.name} {fld}", "extent not resolved")
            return
        elt = {"u": "i64", "d": "double"}.get(s[1], "ptr")
        src = PTR(N("ld", wl, 0))
        for j in range(n):
            if s[1] == "z":
                subs = [(("I", C(j), "{ double, double }"), ("F", "{ double, double }", q)) for q in (0, 1)]
            else:
                subs = [(("I", C(j), elt),)]
            for sb in subs:
                a, b = src, rv
                for x in sb:
                    a, b = addstep(a, x), addstep(b, x)
                self.cell(inst(a, wm), rm.cur(b), f"{st}.{fld}[{j}]" + ("" if len(subs) == 1 else ".ri"[sb[1][2] + 1]), wm, bysrc, wi, ri)


def thread(eng, prog, name, items, nested_w):
    """True if the buffer operand of every item is the result of the items that can run just before it;
    (message, line) if not; None if not understood"""
    fn = prog.functions[name]
    cfg = eng.cfg(name)
    sites = {}
    for l, b in fn.blocks.items():
        if l not in cfg.live:
            continue
        for i in b.ins:
            if i.op == "call" and isinstance(i.extra, str) and i.extra[1:] in items:
                if i.extra[1:] in nested_w and len(i.ops) > 2 and i.ops[2] != "null":
                    continue
                sites[i.dest] = (l, i)
    if not sites:
        return None
    defs = {}
    for l, b in fn.blocks.items():
        for i in b.ins:
            if i.dest:
                defs[i.dest] = (l, i)
    params = fn.params if hasattr(fn, "params") else None

    def ssa(op, seen):
        if op in sites:
            return {op}
        if op in seen:
            return set()
        seen.add(op)
        if op not in defs:
            return {"START"} if op == fn.params[0] else None
        l, i = defs[op]
        if i.op == "phi":
            out = set()
            for o, pl in zip(i.ops, i.extra):
                if pl not in cfg.live:
                    continue
                r = ssa(o, seen)
                if r is None:
                    return None
                out |= r
            return out
        return None

    def before(l, upto, seen):
        """items that can run immediately before this point"""
        b = fn.blocks[l]
        last = None
        for i in b.ins:
            if i is upto:
                break
            if i.dest in sites:
                last = i.dest
        if last is not None:
            return {last}
        if l == fn.entry:
            return {"START"}
        out = set()
        for p in b.preds:
            if p in cfg.live and p not in seen:
                seen.add(p)
                out |= before(p, None, seen)
        return out
    rets = [(l, i) for l, b in fn.blocks.items() if l in cfg.live for i in b.ins if i.op == "ret"]
    todo = [(l, i, i.ops[0], "item") for l, i in sites.values()] + [(l, i, i.ops[0], "ret") for l, i in rets if i.ops]
    for l, i, op, what in todo:
        s = ssa(op, set())
        if s is None:
            return None
        c = before(l, i, set())
        if what == "ret":
            s.discard("START"), c.discard("START")
        if s != c:
            miss = [x for x in c - s if x != "START"]
            if not miss:
                return None
            return (f"the position passed on at line {i.line} does not follow the item at line {sites[miss[0]][1].line}", i.line)
    return True


def prims(ctx, eng, res):
    """the primitive items themselves: bytes copied and bytes advanced"""
    for k, n in (("int", 4), ("size_t", 8), ("double", 8)):
        for d in ("serialize_", "deserialize_"):
            fn = d + k
            if fn not in ctx.prog.functions:
                continue
            an = eng.an[fn]
            cps = [f for f in flat(eng, fn, inline=lambda c: True, kinds=("call",)) if isinstance(f.callee, str) and "mem" in f.callee and ("cpy" in f.callee or "move" in f.callee)]
            b, off = offset(an.fa.closed(an.ret)) if an.ret is not None else (None, None)
            o = const_of(off) if b is N("arg", 0) else None
            if o is not None and o != n:
                res.bad(f"C02:{fn}:advance", f"{fn} advances by {o} bytes, a value has {n}", ctx.where(fn))
            elif o == n:
                res.ok(f"{fn} advances by {n} bytes")
            else:
                res.skip(fn, "returned position")
            if len(cps) == 1:
                c = const_of(topoly(cps[0].args[2]))
                side = cps[0].args[1 if d == "deserialize_" else 0]
                if c is not None and c != n:
                    res.bad(f"C02:{fn}:bytes", f"{fn} copies {c} bytes, a value has {n}", ctx.where(fn, cps[0].line))
                elif c == n and side is PTR(N("arg", 0)):
                    res.ok(f"{fn} copies {n} bytes at the current position")
                else:
                    res.skip(fn, "copy")
            else:
                res.skip(fn, "no single copy")
    an2 = eng.an
    for fn in ("serialize_doublep", "deserialize_doublep"):
        if fn not in ctx.prog.functions:
            continue
        an = an2[fn]
        cnt = topoly(N("arg", 2)) if fn[0] == "s" else None
        b, off = offset(an.fa.closed(an.ret))
        cps = [f for f in flat(eng, fn, kinds=("call",)) if isinstance(f.callee, str) and "mem" in f.callee and ("cpy" in f.callee or "move" in f.callee)]
        if b is not N("arg", 0) or len(cps) != 1:
            res.skip(fn, "not understood")
            continue
        nb = topoly(cps[0].args[2])
        bb, at = offset(cps[0].args[0 if fn[0] == "s" else 1])
        m = {N("arg", 2): C(3)}
        if fn[0] == "d":
            m = Mem(ctx.prog)
            m.put(PTR(N("arg", 2)), C(3))
        got = tuple(const_of(inst(x, m)) for x in (off, nb, at))
        if None in got or bb is not N("arg", 0):
            res.skip(fn, f"advance {got}")
        elif got != (32, 24, 8):
            res.bad(f"C02:{fn}:layout", f"{fn} with 3 values copies {got[1]} bytes at +{got[2]} and advances by {got[0]} (24 at +8, 32 expected)", ctx.where(fn, cps[0].line))
        else:
            res.ok(f"{fn}: count, then 8 bytes per value, advance 8+8n")


def wrappers(ctx, eng, res, pairs):
    """files: what is written is the size and the object, what is read is the same"""
    for stem, kind, st in (("function_train", "function_train", "FunctionTrain"), ("ft1d_array", "ft1d_array", "FT1DArray"), ("probability_density", "probability_density", "ProbabilityDensity")):
        sv, ld = stem + "_save", stem + "_load"
        w, r = kind + "_serialize", kind + "_deserialize"
        if sv in ctx.prog.functions:
            effs = flat(eng, sv, inline=inliner({w, "serialize_size_t"}, ctx.prog), kinds=("call", "store"))
            size = A(N("call", "$size_" + kind, PTR(N("arg", 0))))
            al = [f for f in effs if f.callee == "malloc"]
            wr = [f for f in effs if f.callee == "fwrite"]
            ser = [f for f in effs if f.callee == w and f.args[2] is NULL]
            hd = [f for f in effs if f.callee == "serialize_size_t"]
            if len(wr) == 1 and len(ser) == 1 and len(hd) == 1 and len(al) == 1:
                n = mul(topoly(wr[0].args[1]), topoly(wr[0].args[2]))
                for what, got, want in (("bytes written", n, add(size, C(8))), ("buffer size", topoly(al[0].args[0]), add(size, C(8))), ("announced size", topoly(hd[0].args[1]), size)):
                    d = const_of(sub(got, want))
                    if d is None:
                        res.skip(sv, f"{what}: {show(got)[:60]}")
                    elif d == 0 or (what == "buffer size" and d > 0):
                        res.ok(f"{sv}: {what} agree with the serialized size")
                    else:
                        res.bad(f"C02:{sv}:{what}", f"{what} in {sv} are {d:+d} bytes from the size of the object plus its header", ctx.where(sv, wr[0].line))
                base, off = offset(ser[0].args[0])
                b0, o0 = offset(hd[0].args[0])
                d = const_of(sub(off, o0)) if base is b0 and base is not None else None
                if d is not None and (d != 8 or const_of(o0) != 0):
                    res.bad(f"C02:{sv}:header", f"{sv} puts the object {d} bytes after the size", ctx.where(sv, ser[0].line))
                elif d is not None:
                    res.ok(f"{sv}: size first, object right after it")
                if wr[0].args[0] is not PTR(base):
                    res.skip(sv, "buffer written")
            else:
                res.skip(sv, "calls not recognised")
        if ld in ctx.prog.functions:
            effs = flat(eng, ld, inline=inliner({r, "deserialize_size_t"}, ctx.prog), kinds=("call", "store"))
            rd = [f for f in effs if f.callee == "fread"]
            al = [f for f in effs if f.callee == "malloc"]
            de = [f for f in effs if f.callee == r]
            if len(rd) == 2 and len(al) == 1 and len(de) == 1:
                n0 = const_of(mul(topoly(rd[0].args[1]), topoly(rd[0].args[2])))
                if n0 is not None and n0 != 8:
                    res.bad(f"C02:{ld}:header", f"{ld} reads {n0} bytes for the size, 8 are written", ctx.where(ld, rd[0].line))
                elif n0 == 8:
                    res.ok(f"{ld}: reads the 8-byte size")
                m = Mem(ctx.prog)
                m.put(rd[0].args[0], C(1000))
                n1 = const_of(inst(mul(topoly(rd[1].args[1]), topoly(rd[1].args[2])), m))
                n2 = const_of(inst(topoly(al[0].args[0]), m))
                if n1 is None or n2 is None:
                    res.skip(ld, "sizes not resolved")
                elif n1 != 1000 or n2 < 1000:
                    res.bad(f"C02:{ld}:bytes", f"{ld} reads {n1} bytes into {n2} for an object of 1000", ctx.where(ld, rd[1].line))
                else:
                    res.ok(f"{ld}: reads as many bytes as the size says")
                b, off = offset(de[0].args[0])
                bb, o2 = offset(rd[1].args[0])
                if b is bb and b is not None and const_of(sub(off, o2)) not in (0, None):
                    res.bad(f"C02:{ld}:start", f"{ld} starts reading the object {const_of(sub(off, o2))} bytes into the data", ctx.where(ld, de[0].line))
            else:
                res.skip(ld, "calls not recognised")


def run(ctx):
    res = Result()
    res.rule = ("writers and readers of binary data are reduced to item sequences (kind, position, source or destination) by dataflow; "
                "the sequences, the positions, the announced size and the fields restored are compared")
    res.minimum = 60
    res.assumptions = ["nested objects are items of their own: their size is what their own writer announces (checked for each writer)",
                       "extents of arrays are taken as distinct small numbers"]
    prog = ctx.prog
    pairs = [p for p in PAIRS if p["w"] in prog.functions and p["r"] in prog.functions]
    kinds = {p["kind"] for p in pairs}
    if len(kinds) < 8:
        raise Anchor("serializers not found")
    nw = {p["kind"]: p["w"] for p in pairs}
    nr = {p["kind"]: p["r"] for p in pairs}
    wk = dict(PRIMW, **{v: k for k, v in nw.items()})
    rk = dict(PRIMR, **{v: k for k, v in nr.items()})
    eng = engine(prog, nw, nr)
    Pair.nested_w = set(nw.values())
    eng.run([p["w"] for p in pairs] + [p["r"] for p in pairs] + [s + e for s in ("function_train", "ft1d_array", "probability_density") for e in ("_save", "_load") if s + e in prog.functions])
    for p in pairs:
        for v in p["variants"]:
            q = Pair(ctx, eng, res, p, wk, rk, v)
            try:
                q.go()
            except Unresolved as e:
                res.skip(q.name, str(e))
            except Exception as e:
                if os.environ.get("C3_DEBUG"):
                    raise
                res.skip(q.name, f"internal: {type(e).__name__} {e}")
    e2 = ctx.need(["serialize_int", "serialize_size_t", "serialize_double", "serialize_doublep", "deserialize_int", "deserialize_size_t",
                   "deserialize_double", "deserialize_doublep"])
    prims(ctx, e2, res)
    wrappers(ctx, eng, res, pairs)
    return res
