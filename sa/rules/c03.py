"""C03: text save and load agree item by item."""
import os, re
from ..core import Result, Anchor
from ..serial import *
from .. import sym
from .c02 import Pair, P2, V

T = lambda kind, struct, state, variants=({},): P2(kind, struct, state, variants, w=kind + "_savetxt", r=kind + "_loadtxt")
PAIRS = [
    T("lin_elem_exp", "LinElemExp", "num_nodes nodes coeff"),
    T("const_elem_exp", "ConstElemExp", "num_nodes nodes coeff"),
    T("space_mapping", "SpaceMapping", "map set lin_slope lin_offset inv_lin_slope inv_lin_offset", V("SpaceMapping.map", 0, 1, 2)),
    T("orth_poly_expansion", "OrthPolyExpansion", "p.ptype num_poly lower_bound upper_bound coeff space_transform kristoffel_eval", V("OrthPoly.ptype", 0, 1, 2)),
    T("piecewise_poly", "PiecewisePoly", "leaf ope", V("PiecewisePoly.leaf", 1)),
    T("piecewise_poly", "PiecewisePoly", "leaf nbranches branches", V("PiecewisePoly.leaf", 0)),
    T("generic_function", "GenericFunction", "dim fc f", V("GenericFunction.fc", 0, 1, 2, 3)),
    T("qmarray", "Qmarray", "nrows ncols funcs"),
    T("function_train", "FunctionTrain", "dim ranks cores"),
]
CONV = re.compile(r"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L)?([diouxXeEfFgGaAcsp%])")
PRECS = (17, 3, 40, 1, 120)
SCAN = ("fscanf", "__isoc99_fscanf", "__isoc23_fscanf")


def cstring(prog, node):
    """text of a constant string operand"""
    if node.kind != "ptr" or node.a[1] or node.a[0].kind != "glob":
        return None
    name = node.a[0].a[0]
    for k, g in prog.globals.items():
        if isinstance(k, tuple) and k[0].split("/")[-1] + ":" + k[1] == name:
            m = re.match(r'^c"(.*)"$', g["init"].strip())
            if not m:
                return None
            return re.sub(r"\\([0-9A-Fa-f]{2})", lambda x: chr(int(x.group(1), 16)), m.group(1)).rstrip("\0")
    return None


def split(fmt):
    """[(literal before, conversion)], trailing literal"""
    out, at = [], 0
    for m in CONV.finditer(fmt):
        if m.group(5) == "%":
            continue
        out.append((fmt[at:m.start()], m))
        at = m.end()
    return out, fmt[at:]


def kind_of(m):
    c, l = m.group(5), m.group(4) or ""
    if c in "diu" and l == "":
        return "int"
    if c in "diu" and l in ("z", "l", "j", "ll"):
        return "size_t"
    if c in "eEfFgGaA":
        return "double"
    return "%" + l + c


class Text(Pair):
    def key(self, what):
        return f"C03:{self.name}:{what}"

    def emit(self, out, f, kind, m):
        it = Item()
        it.no, it.kind, it.line, it.fn = len(out), kind, f.line, f.fn
        it.pos = it.end = it.dests = it.src = it.vals = None
        out.append(it)
        return it

    def write(self, m):
        prog, eng, w = self.prog, self.eng, self.p["w"]
        out, gap, self.gaps = [], "", []
        for f in iterate(flat(eng, w, inline=inliner(set(self.wk), prog), kinds=("call",)), m):
            c = f.callee if isinstance(f.callee, str) else None
            if c in self.wk:
                it = self.emit(out, f, self.wk[c], m)
                it.vals = [(f.args[0], inst(f.args[0], m))]
                it.src = self.src(f.args[0], m)
                self.gaps.append(gap)
                gap = " "
                self.precs.append((it, inst(f.args[2], m) if len(f.args) > 2 else None, None))
            elif c in ("fputc", "fputs", "putc") and inst(f.args[-1], m) is PTR(N("arg", 1)):
                gap += cstring(prog, f.args[0]) or " " if c == "fputs" else chr(cint(f.args[0]) or 32)
            elif c == "fwrite" and inst(f.args[3], m) is PTR(N("arg", 1)):
                gap += cstring(prog, f.args[0]) or " "
            elif c == "fprintf":
                if inst(f.args[0], m) is not PTR(N("arg", 1)):
                    continue
                fmt = cstring(prog, f.args[1])
                if fmt is None:
                    raise Unresolved(f"line {f.line}: format not constant")
                cs, tail = split(fmt)
                args = list(f.args[2:])
                for lit, cv in cs:
                    it = self.emit(out, f, kind_of(cv), m)
                    self.gaps.append(gap + lit)
                    gap = ""
                    if cv.group(2) == "*":
                        args.pop(0)
                    pr = inst(args.pop(0), m) if cv.group(3) == "*" else (C(int(cv.group(3))) if cv.group(3) else None)
                    if not args:
                        raise Unresolved(f"line {f.line}: missing argument")
                    a = args.pop(0)
                    it.vals = [(a, inst(a, m))]
                    it.src = self.src(a, m)
                    if it.kind == "double":
                        self.precs.append((it, pr, cv.group(5)))
                gap += tail
        return out

    def read(self, m):
        prog, eng, r = self.prog, self.eng, self.p["r"]
        an, cfg = eng.an[r], eng.cfg(r)
        base = inliner(set(self.rk), prog)
        out, self.ret = [], None
        effs = flat(eng, r, inline=lambda c: base(c) or (c not in self.rk and c.endswith("_init")), kinds=("store", "call", "ret"))
        for f in iterate(effs, m):
            tag = ("c", f.fn, f.ins.idx)
            if f.kind == "ret":
                self.ret = inst(f.val, m) if f.val is not None else None
            elif f.kind == "store":
                loc = inst(f.loc, m)
                self.inloop(an, cfg, loc)
                m.put(loc, inst(f.val, m), ("s", f.fn, f.ins.idx))
            else:
                c = f.callee if isinstance(f.callee, str) else None
                if c in self.rk:
                    it = self.emit(out, f, self.rk[c], m)
                    if isinstance(f.ret, Node) and f.ret.kind == "ptr":
                        m.env[f.ret.a[0]] = PTR(N("item", it.no))
                elif c in SCAN:
                    if inst(f.args[0], m) is not PTR(N("arg", 0)):
                        raise Unresolved(f"line {f.line}: another stream")
                    fmt = cstring(prog, f.args[1])
                    if fmt is None:
                        raise Unresolved(f"line {f.line}: format not constant")
                    cs, tail = split(fmt)
                    dests = list(f.args[2:])
                    n = 0
                    for lit, cv in cs:
                        if "*" in cv.group(0):
                            raise Unresolved(f"line {f.line}: suppressed item")
                        k = kind_of(cv)
                        if k == "double" and cv.group(4) != "l":
                            k = "float"
                        it = self.emit(out, f, k, m)
                        it.src = lit
                        if not dests:
                            raise Unresolved(f"line {f.line}: missing argument")
                        d = inst(dests.pop(0), m)
                        self.inloop(an, cfg, d)
                        w = self.witems[it.no] if it.no < len(self.witems) else None
                        v = w.vals[0][1] if w is not None and w.kind == k and k in ("int", "size_t") else None
                        m.put(d, v if v is not None and cint(v) is not None else A(N("item", it.no)), tag)
                        n += 1
                    if isinstance(f.ret, Node):
                        a = atom_of(f.ret) if f.ret.kind == "poly" else None
                        if a is not None:
                            m.env[a] = C(n)
                elif not self.harmless(c, f, m):
                    self.other.append(c or "an indirect call")
            if len(out) > 400:
                raise Unresolved("too many items")
        return out

    def precision(self, prec):
        res = self.res
        bad = False
        for it, pr, cv in self.precs:
            c = cint(pr) if pr is not None else None
            if cv in ("f", "F", "a", "A") and c is not None:
                res.bad(self.key(f"format:{it.line}"), f"item {it.no + 1} is printed with %{cv}: the digits asked for are not significant digits", self.ctx.where(it.fn, it.line))
                bad = True
            elif pr is None:
                res.bad(self.key(f"precision:{it.line}"), f"item {it.no + 1} is printed without the precision asked for", self.ctx.where(it.fn, it.line))
                bad = True
            elif c is None:
                res.skip(self.name, f"line {it.line}: precision {show(pr)[:40]}")
            elif c != prec:
                res.bad(self.key(f"precision:{it.line}"), f"item {it.no + 1} is printed with {c} digits when {prec} are asked for", self.ctx.where(it.fn, it.line))
                bad = True
        if self.precs and not bad and prec == PRECS[0]:
            res.ok(f"{self.name}: {len(self.precs)} real or nested items carry the precision asked for")
        return not bad

    def go(self):
        p, res = self.p, self.res
        w, r = p["w"], p["r"]
        A0 = PTR(N("arg", 0))
        for prec in PRECS[1:]:
            wm = self.model()
            wm.d[N("arg", 2)] = C(prec)
            self.precs, self.other = [], []
            n = len(self.write(wm))
            if not self.precision(prec):
                return
        prec = PRECS[0]
        wm = self.model()
        wm.d[N("arg", 2)] = C(prec)
        self.precs, self.other = [], []
        self.witems = wi = self.write(wm)
        if n != len(wi):
            res.bad(self.key("items"), f"{len(wi)} items are written at {prec} digits, {n} at {PRECS[-1]}", self.ctx.where(w))
            return
        if not wi:
            raise Unresolved("nothing is written")
        if not self.precision(prec):
            return
        for it, g in list(zip(wi, self.gaps))[1:]:
            if not re.search(r"\s", g):
                res.bad(self.key("separator"), f"no white space between items {it.no} and {it.no + 1}", self.ctx.where(it.fn, it.line))
                return
        rm = self.model(ints=False)
        rm.fixed = {}
        ri = self.read(rm)
        for a, b in zip(wi, ri):
            if a.kind != b.kind:
                res.bad(self.key("sequence"), f"item {a.no + 1} is written as {a.kind} ({w} line {a.line}) and read as {b.kind} ({self.setting(wm)})",
                        self.ctx.where(b.fn, b.line))
                return
        if len(wi) != len(ri):
            res.bad(self.key("sequence"), f"{w} writes {len(wi)} items, {r} reads {len(ri)} ({self.setting(wm)})", self.ctx.where(r))
            return
        res.ok(f"{self.name}: {len(wi)} items, same kinds in the same order ({', '.join(i.kind for i in wi)[:100]})")
        lits = ["".join(g.split()) for g in self.gaps]
        rl = ["".join((i.src or "").split()) if isinstance(i.src, str) else "" for i in ri]
        if any(lits) and lits != rl:
            res.skip(self.name + " literal text", f"{lits} vs {rl}")
        obj = self.ret
        if obj is None or obj.kind != "ptr":
            res.skip(self.name, "object handed out by the loader not resolved")
            return
        bysrc = {}
        for it in wi:
            if it.src is not None:
                bysrc.setdefault(it.src, []).append(it)
        for fld in p["state"]:
            self.field(fld, A0, obj, wm, rm, bysrc, wi, ri)


def run(ctx):
    res = Result()
    res.rule = ("text savers and loaders are reduced to item sequences by dataflow: constant format strings are split into conversions, each with its "
                "source or destination; sequence, types, precision, separators and the fields restored are compared")
    res.minimum = 40
    res.assumptions = ["nested objects are items of their own, checked by their own pair"]
    prog = ctx.prog
    pairs = [p for p in PAIRS if p["w"] in prog.functions and p["r"] in prog.functions]
    if len({p["kind"] for p in pairs}) < 5:
        raise Anchor("text savers not found")
    wk = {p["w"]: p["kind"] for p in pairs}
    rk = {p["r"]: p["kind"] for p in pairs}
    eng = sym.Engine(prog)

    def loader(fa, st, ins, args, tag):
        return PTR(N("ret", fa.uid, ins.idx, "nested"))
    for r in rk:
        eng.intercept[r] = loader
    for w in wk:
        eng.intercept[w] = lambda fa, st, ins, args, tag: None
    eng.run(list(wk) + list(rk))
    for p in pairs:
        for v in p["variants"]:
            q = Text(ctx, eng, res, p, wk, rk, v)
            try:
                q.go()
            except Unresolved as e:
                res.skip(q.name, str(e))
            except Exception as e:
                if os.environ.get("C3_DEBUG"):
                    raise
                res.skip(q.name, f"internal: {type(e).__name__} {e}")
    return res
