"""Data-placement contracts: what a routine writes into an array, element by element.

A contract states dest[index(i,j,..)] = value(i,j,..) for 0<=i<I, 0<=j<J.  The routine's loops (helpers
expanded) are brought into the same form; both are compared as sets of (index, value) pairs by matching
their loop counters, so that loop order, fusion of nested loops into one, counting down, running
offsets, splitting a loop in two or moving code into helpers make no difference."""
import ast, itertools, json, os
from .sym import *
from .util import *
from .core import ROOT
from .ir import CType

I = [N("J", i) for i in range(6)]


def strip(n, memo=None):
    """forget versions of memory: ld(loc, v) -> ld(loc, 0)"""
    memo = {} if memo is None else memo

    def f(x):
        if x.kind == "ld" and x.a[1] != 0:
            return None if False else _wrapld(N("ld", strip(x.a[0], memo), 0))
        return None
    return subst(n, f, memo, FL_LD)


def _wrapld(x):
    return x


class Expr:
    """expressions over parameters: a.nrows, a.funcs[i+j*a.nrows], a.funcs + i, ret.nrows ..."""

    def __init__(self, prog, fn, names, env=None, eng=None):
        self.prog, self.fn, self.eng = prog, fn, eng
        self.env = dict(env or {})
        for i, n in enumerate(names):
            t = fn.ptypes[i]
            if t.kind == "ptr":
                self.env[n] = (PTR(N("arg", i)), t.to)
            else:
                self.env[n] = (A(N("arg", i)), t)
        for k, s in enumerate(("i", "j", "k", "l")):
            self.env.setdefault(s, (A(I[k]), None))

    def ev(self, s):
        return self.e(ast.parse(s, mode="eval").body)[0]

    def e(self, x):
        if isinstance(x, ast.Constant):
            if x.value is None:
                return NULL, None
            return C(x.value), None
        if isinstance(x, ast.Name):
            return self.env[x.id]
        if isinstance(x, ast.Attribute):
            p, t = self.e(x.value)
            return self.load(addstep(p, self.fstep(t, x.attr)), self.ftype(t, x.attr))
        if isinstance(x, ast.Subscript):
            p, t = self.e(x.value)
            i, _ = self.e(x.slice)
            return self.load(addstep(p, ("I", topoly(i), self.elt(t))), t)
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
            return neg(self.e(x.operand)[0]), None
        if isinstance(x, ast.BinOp):
            (a, ta), (b, tb) = self.e(x.left), self.e(x.right)
            if a.kind == "ptr":
                return addstep(a, ("I", topoly(b), self.elt(ta))), ta
            op = {ast.Add: add, ast.Sub: sub, ast.Mult: mul}[type(x.op)]
            return op(topoly(a), topoly(b)), None
        if isinstance(x, ast.Call):
            return self.call(x)
        raise ValueError(ast.dump(x))

    def call(self, x):
        """sum(t, n, body), cast(x, Struct), fn(args): value the summary of fn says it returns"""
        f = x.func.id
        if f == "sum":
            t = x.args[0].id
            h = N("Jt", t)
            old = self.env.get(t)
            self.env[t] = (A(h), None)
            body = topoly(self.e(x.args[2])[0])
            if old is None:
                del self.env[t]
            else:
                self.env[t] = old
            d = 1 + max([y.a[0] for y in subnodes(body) if y.kind == "sk"], default=0)
            sk = N("sk", d)
            body = subst(body, lambda y: A(sk) if y is h else None, {})
            return A(N("sum", topoly(self.e(x.args[1])[0]), body)), None
        if f == "cast":
            t = CType("struct", x.args[1].id)
            return self.e(x.args[0])[0], t
        if f == "inv":
            return A(N("inv", topoly(self.e(x.args[0])[0]))), None
        an = self.eng.an[f]
        args = [self.e(a)[0] for a in x.args]

        def g(n):
            if n.kind == "arg":
                v = args[n.a[0]]
                return v
            return None
        r = subst(an.fa.closed(an.ret), g, {})
        rt = self.prog.functions[f].rtype
        return r, rt.to if rt.kind == "ptr" else rt

    def sname(self, t):
        return "struct." + t.name

    def fstep(self, t, f):
        s = self.sname(t)
        names = [n for n, _ in self.prog.fields[s]]
        return ("F", s, names.index(f))

    def ftype(self, t, f):
        return dict(self.prog.fields[self.sname(t)])[f]

    def elt(self, t):
        """IR element type of an array whose pointee type is t"""
        if t.kind == "ptr":
            return "ptr"
        return {"double": "double", "unsigned long": "i64", "size_t": "i64", "int": "i32", "char": "i8", "unsigned char": "i8"}.get(str(t).replace("const ", ""), str(t))

    def load(self, loc, t):
        n = N("ld", loc, 0)
        if t.kind == "ptr":
            return PTR(n), t.to
        return A(n), t


class Rec:
    """dest[idx] = val for all counter values; counters: {k: trip}"""
    __slots__ = ("idx", "val", "ks", "line", "fn", "guards")

    def __init__(self, idx, val, ks, line=0, fn=""):
        self.idx, self.val, self.ks, self.line, self.fn = idx, val, ks, line, fn

    def parts(self):
        return [self.idx] + self.val

    def sub(self, m):
        f = lambda n: m.get(n)
        self.idx = subst(self.idx, f, {})
        self.val = [subst(v, f, {}) if isinstance(v, Node) else v for v in self.val]

    def clone(self):
        return Rec(self.idx, list(self.val), dict(self.ks), self.line, self.fn)

    def show(self, names=None):
        v = ", ".join(show(x, names) if isinstance(x, Node) else str(x) for x in self.val)
        r = ", ".join(f"{show(k)}<{show(t, names)}" for k, t in self.ks.items())
        return f"[{show(self.idx, names)}] = {v} for {r or 'one element'}"


def uses(n, k):
    return isinstance(n, Node) and contains(n, lambda x: x is k)


def normalise(r):
    """drop unused counters, unroll single iterations, reverse descending ones, fuse nested loops"""
    for k, t in list(r.ks.items()):
        if const_of(t) == 1:
            r.sub({k: ZERO})
            del r.ks[k]
    for k, t in list(r.ks.items()):
        co = coef(r.idx, k)
        if co is not None and co.a and all(c < 0 for _, c in co.a):
            r.sub({k: sub(sub(t, ONE), A(k))})
    again = True
    while again:
        again = False
        for p, q in itertools.permutations(list(r.ks), 2):
            tp = r.ks[p]
            if uses(tp, q) or uses(r.ks[q], p):
                continue
            # p inner, q outer: everything depends on p + tp*q only?
            repl = sub(A(p), mul(tp, A(q)))
            r2 = r.clone()
            r2.sub({p: repl})
            if any(uses(x, q) for x in r2.parts()):
                continue
            if any(uses(t, q) or uses(t, p) for k, t in r.ks.items() if k is not p and k is not q):
                continue
            r.idx, r.val = r2.idx, r2.val
            r.ks[p] = mul(tp, r.ks[q])
            del r.ks[q]
            again = True
            break
    return r


def coef(p, k):
    """coefficient of counter k in a polynomial linear in it; None otherwise"""
    if not isinstance(p, Node) or p.kind != "poly":
        return None
    co = {}
    for m, c in p.a:
        n = m.count(k)
        if n == 0:
            if any(contains(x, lambda y: y is k) for x in m):
                return None
        elif n == 1:
            mm = list(m)
            mm.remove(k)
            if any(contains(x, lambda y: y is k) for x in mm):
                return None
            co[tuple(mm)] = co.get(tuple(mm), 0) + c
        else:
            return None
    return P(co)


def same(a, b):
    """do two records describe the same set of (index, value) pairs?"""
    if len(a.val) != len(b.val) or len(a.ks) != len(b.ks):
        return False
    ka, kb = list(a.ks), list(b.ks)
    tmp = [N("Jc", i) for i in range(len(ka))]
    for perm in itertools.permutations(kb):
        m = {x: A(y) for x, y in zip(ka, tmp)}
        n = {x: A(y) for x, y in zip(perm, tmp)}
        fa, fb = (lambda z: m.get(z)), (lambda z: n.get(z))
        if any(subst(a.ks[x], fa, {}) is not subst(b.ks[y], fb, {}) for x, y in zip(ka, perm)):
            continue
        if subst(a.idx, fa, {}) is not subst(b.idx, fb, {}):
            continue
        ok = True
        for u, v in zip(a.val, b.val):
            if isinstance(u, Node) and isinstance(v, Node):
                if subst(u, fa, {}) is not subst(v, fb, {}):
                    ok = False
            elif u != v:
                ok = False
        if ok:
            return True
    return False


def join_split(recs):
    """merge records that continue one another along one counter"""
    recs = list(recs)
    again = True
    while again:
        again = False
        for a, b in itertools.permutations(recs, 2):
            if len(a.ks) == 0 and len(b.ks) == 0:
                continue
            # b continues a along counter k of a
            ks = list(a.ks) if len(a.ks) >= len(b.ks) else list(b.ks)
            longer, shorter = (a, b) if len(a.ks) >= len(b.ks) else (b, a)
            if len(longer.ks) - len(shorter.ks) not in (0, 1):
                continue
            for k in ks:
                if len(longer.ks) == len(shorter.ks):
                    # same trips apart from k; b shifted by a's trip
                    for k2 in list(b.ks):
                        sh = b.clone()
                        t2 = sh.ks.pop(k2)
                        tmp = N("Jt", 0)
                        sh.sub({k2: sub(A(tmp), a.ks[k])})
                        sh.ks[tmp] = ONE
                        aa = a.clone()
                        ta = aa.ks.pop(k)
                        aa.sub({k: A(tmp)})
                        aa.ks[tmp] = ONE
                        if same(aa, sh):
                            n = a.clone()
                            n.ks[k] = add(ta, t2)
                            recs = [x for x in recs if x is not a and x is not b] + [normalise(n)]
                            again = True
                            break
                else:
                    # shorter is one more iteration, after the last or before the first
                    for at, grow in ((longer.ks[k], 0), (neg(ONE), 1)):
                        aa = longer.clone()
                        t = aa.ks.pop(k)
                        aa.sub({k: at})
                        if same(aa, shorter):
                            n = longer.clone()
                            if grow:
                                n.sub({k: sub(A(k), ONE)})
                            n.ks[k] = add(t, ONE)
                            recs = [x for x in recs if x is not a and x is not b] + [normalise(n)]
                            again = True
                            break
                if again:
                    break
            if again:
                break
    return recs


_BASE = None


def baseline_functions():
    global _BASE
    if _BASE is None:
        with open(os.path.join(ROOT, "spec", "functions.json")) as fh:
            _BASE = set(json.load(fh))
    return _BASE


def equalities(facts):
    """rewrites x -> y for facts x - y == 0 between single atoms"""
    m = {}
    for f in facts:
        if f.kind == "eq0" or f.kind == "eq":
            p = f.a[0]
            if isinstance(p, Node) and p.kind == "poly" and len(p.a) == 2:
                (m1, c1), (m2, c2) = p.a
                if len(m1) == 1 and len(m2) == 1 and c1 == -c2 and abs(c1) == 1:
                    a, b = m1[0], m2[0]
                    if a.id < b.id:
                        a, b = b, a
                    m.setdefault(a, b)
    return m


COPYLIKE = {"generic_function_copy": 0, "qmarray_copy": 0, "kernel_copy": 0, "quasimatrix_copy": 0, "function_train_copy": 0}


class Placement:
    """records of what a routine writes into the array at `base`"""

    def __init__(self, eng, name, extra_inline=()):
        self.eng, self.name = eng, name
        base = baseline_functions()
        self.an = eng.an[name]
        inl = lambda c: c in extra_inline or c not in base
        self.effs = flat(eng, name, inline=inl, depth=4, kinds=("store", "call", "ret"))
        self.eq = {strip(k): strip(v) for k, v in equalities(self.an.retfacts).items()}
        self.calls = {}
        for f in self.effs:
            if f.kind == "call" and isinstance(f.ret, Node):
                self.calls[f.ret] = f
                for b in ptr_alts(f.ret) if f.ret.kind == "ptr" else ():
                    if b.kind == "new":
                        self.calls.setdefault(b, f)

    def canon(self, n):
        if not isinstance(n, Node):
            return n
        n = strip(n)
        if self.eq:
            n = subst(n, lambda x: A(self.eq[x]) if x in self.eq and x.kind != "poly" else None, {})
        return n

    def value(self, v):
        """value as a list [op, args...]"""
        f = self.calls.get(v)
        if f is None and v.kind == "ptr":
            fs = {id(self.calls[b]): self.calls[b] for b in ptr_alts(v) if b in self.calls}
            alts = [b for b in ptr_alts(v) if b.kind != "null"]
            if len(fs) == 1 and all(b in self.calls for b in alts):
                f = list(fs.values())[0]
        if f is not None:
            c = f.callee if isinstance(f.callee, str) else ("*", show(f.callee[1]))
            if c in COPYLIKE:
                return ["copy", self.canon(f.args[COPYLIKE[c]])]
            return [c] + [self.canon(a) for a in f.args]
        return ["copy" if v.kind == "ptr" else "val", self.canon(v)]

    def records(self, base):
        """-> (records, reasons why some write was not understood)"""
        recs, why = [], []
        base = self.canon(base)
        for f in self.effs:
            if f.kind == "store":
                b, idx, elt = strip_last_index(f.loc)
                if self.canon(b) is not base:
                    if deep_root(f.loc.a[0]) is deep_root(base.a[0]) and elt is not None and elt == "?":
                        why.append(f"line {f.line}: {show(f.loc)}")
                    continue
                vals = self.value(f.val)
            elif f.kind == "call" and isinstance(f.callee, str) and (f.callee.startswith("llvm.mem") or f.callee in ("memcpy", "memmove", "memset")):
                d = f.args[0]
                if d.kind != "ptr":
                    continue
                b, idx, elt = strip_last_index(d)
                if self.canon(b) is not base:
                    continue
                if "memset" in f.callee:
                    why.append(f"line {f.line}: memset")
                    continue
                n = f.args[2]
                es = 8
                k = N("Jm", f.ins.idx, f.fn)
                cnt = P({m: Fraction(c, es) for m, c in n.a}) if n.kind == "poly" else None
                if cnt is None or any(Fraction(c).denominator != 1 for _, c in cnt.a):
                    why.append(f"line {f.line}: copy of {show(n)} bytes")
                    continue
                cnt = P({m: int(c) for m, c in cnt.a})
                src = addstep(f.args[1], ("I", A(k), elt or "double"))
                r = Rec(self.canon(add(idx, A(k))), ["val", self.canon(A(N("ld", self.canon(src), 0)))], {k: self.canon(cnt)}, f.line, f.fn)
                if f.guards or f.loops:
                    why.append(f"line {f.line}: conditional or repeated block copy")
                    continue
                recs.append(normalise(r))
                continue
            elif f.kind == "call" and not isinstance(f.callee, str):
                continue
            else:
                continue
            if f.guards:
                why.append(f"line {f.line}: written under a condition {', '.join(show(g) for g in f.guards)}")
                continue
            ks = {}
            ok = True
            for k, t, ex in f.loops:
                ka = katom(k)
                if ka is None or t is None or not ex:
                    ok = False
                    break
                ks[ka] = self.canon(t)
            if not ok:
                why.append(f"line {f.line}: inside a loop of unknown length")
                continue
            r = Rec(self.canon(idx), vals, ks, f.line, f.fn)
            bad = [x for x in r.parts() + list(ks.values()) if isinstance(x, Node) and unclear(x)]
            if bad:
                why.append(f"line {f.line}: {show(bad[0])[:80]} not resolved")
                continue
            # counters that do not matter: repeated identical writes
            for k in list(r.ks):
                if not any(uses(x, k) for x in r.parts()) and not any(uses(t, k) for t in r.ks.values()):
                    del r.ks[k]
            recs.append(normalise(r))
        return recs, why


def unclear(n):
    return contains(n, lambda m: m.kind in ("x", "cut", "big", "phi", "rphi", "unk", "kx", "op"))


ACC = ("quasimatrix_set_func", "quasimatrix_get_func", "quasimatrix_get_size", "qmarray_get_func_base", "qmarray_get_ncols", "qmarray_get_nrows",
       "quasimatrix_get_funcs", "quasimatrix_set_size")
