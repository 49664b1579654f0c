"""C12: quadrature rules are the rules they claim to be (tables against computed rules, formulas against closed forms)."""
import math, re, struct
from ..core import Result, Anchor
from ..spec import *

TOL = 5e-14


def legendre(n):
    """nodes and weights (for the weight function 1/2) of the n-point Gauss-Legendre rule"""
    xs, ws = [], []
    for i in range(n):
        x = math.cos(math.pi * (i + 0.75) / (n + 0.5))
        for _ in range(100):
            p0, p1 = 1.0, x
            for k in range(2, n + 1):
                p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            if n == 1:
                p0, p1 = 1.0, x
            d = n * (x * p1 - p0) / (x * x - 1)
            dx = p1 / d
            x -= dx
            if abs(dx) < 1e-16:
                break
        p0, p1 = 1.0, x
        for k in range(2, n + 1):
            p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
        d = n * (x * p1 - p0) / (x * x - 1)
        xs.append(x)
        ws.append(1.0 / ((1 - x * x) * d * d))
    o = sorted(range(n), key=lambda i: xs[i])
    return [xs[i] for i in o], [ws[i] for i in o]


class Tables:
    def __init__(self, prog):
        self.g = {}
        for k, v in prog.globals.items():
            nm = k[1] if isinstance(k, tuple) else k
            src = (k[0] if isinstance(k, tuple) else v["src"])
            self.g[src.split("/")[-1] + ":" + nm] = v
            self.g.setdefault(nm, v)

    def raw(self, name):
        return self.g.get(name) or self.g.get(name.split(":")[-1])

    def doubles(self, name):
        v = self.raw(name)
        if v is None or v["ext"] or not v["init"]:
            return None
        m = re.match(r"\[(\d+) x double\]", v["type"])
        if not m:
            return None
        n = int(m.group(1))
        s = v["init"].strip()
        if s == "zeroinitializer":
            return [0.0] * n
        out = []
        for t in re.findall(r"double ([^,\]]+)", s):
            t = t.strip()
            out.append(struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0] if t.startswith("0x") else float(t))
        return out if len(out) == n else None

    def pointers(self, name):
        v = self.raw(name)
        if v is None or v["ext"] or not v["init"]:
            return None
        m = re.match(r"\[(\d+) x ptr\]", v["type"])
        if not m:
            return None
        src = v["src"].split("/")[-1]
        out = []
        for t in re.findall(r"ptr ([^,\]]+)", v["init"]):
            t = t.strip()
            out.append(src + ":" + t[1:] if t.startswith("@") and src + ":" + t[1:] in self.g else (t[1:] if t.startswith("@") else None))
        return out if len(out) == int(m.group(1)) else None

    def written(self, prog, eng):
        """names of globals some function stores to"""
        return set()


def gname(p):
    """global a pointer points to -> (name, offset) or None"""
    if p.kind == "ptr" and p.a[0].kind == "glob":
        if not p.a[1]:
            return p.a[0].a[0], ZERO
        b, i, _ = strip_last_index(p)
        if b.kind == "ptr" and b.a[0].kind == "glob" and not b.a[1]:
            return b.a[0].a[0], i
    return None


class Leg:
    """every request for order n delivers the n-point rule"""

    def __init__(self, ctx, eng, res):
        self.ctx, self.eng, self.res = ctx, eng, res
        self.T = Tables(ctx.prog)
        self.rule = {}

    def want(self, n):
        if n not in self.rule:
            self.rule[n] = legendre(n)
        return self.rule[n]

    def compare(self, got, n, what, fn, line, tab):
        want = self.want(n)[what]
        for i, (a, b) in enumerate(zip(got, want)):
            if not abs(a - b) <= TOL:
                raise Mismatch(f"{('node', 'weight')[what]} {i} of the {n}-point rule is {a!r} instead of {b!r}" + (f" (table {tab})" if tab else ""), line)

    def source(self, p, S, m):
        """doubles a pointer value points to"""
        p = S.pick(p, m)
        p = inst(p, m)
        g = gname(p)
        if g is None and p.kind == "ptr" and not p.a[1] and p.a[0].kind == "ld":
            g2 = gname(p.a[0].a[0])
            if g2 is None:
                raise Unresolved(f"source {show(p)[:60]}")
            ptrs = self.T.pointers(g2[0])
            i = cint(inst(g2[1], m))
            if ptrs is None or i is None:
                raise Unresolved(f"source {show(p)[:60]}")
            if not 0 <= i < len(ptrs):
                raise Mismatch(f"element {i} of the {len(ptrs)}-element table {g2[0]} is used")
            g = (ptrs[i], ZERO)
        if g is None or g[0] is None:
            raise Unresolved(f"source {show(p)[:60]}")
        d = self.T.doubles(g[0])
        o = cint(inst(g[1], m))
        if d is None or o is None:
            raise Unresolved(f"table {g[0]}")
        return d[o:], g[0]

    def value(self, v, S, m):
        """a double value at m"""
        v = inst(S.pick(v, m), m)
        c = const_of(v)
        if c is not None:
            return float(c), None
        a = atom_of(v)
        if a is not None and a.kind == "ld":
            b, i, _ = strip_last_index(a.a[0])
            d, nm = self.source(b, S, m)
            i = cint(inst(i, m))
            if i is None:
                raise Unresolved(f"value {show(v)[:60]}")
            if not 0 <= i < len(d):
                raise Mismatch(f"element {i} of the {len(d)}-element table {nm} is used")
            return d[i], nm
        raise Unresolved(f"value {show(v)[:60]}")

    def by_copy(self, name, orders):
        """routine (n, pts, wts) filling the caller's arrays"""
        fn = self.ctx.prog.functions.get(name)
        if fn is None:
            return
        S = Summary1(self.eng, name, inline=("getLegPtsWts", "getLegPtsWts2"))
        szs = N("arg", 0)
        recs = []
        for k in (1, 2):
            r, why = S.records(PTR(N("arg", k)))
            recs.append((r, why))
        n0 = 0
        for n in orders:
            key = f"{name}:{n}"
            m = Model({atom_of(A(szs)): C(n)})
            try:
                for what in (0, 1):
                    rs, why = recs[what]
                    if why and not n0:
                        why = [w for w in why if "dstev" not in w and "gauss" not in w]
                        if why:
                            raise Unresolved("; ".join(why))
                    got = {}
                    for idx, val, loops, guards, line, f2 in rs:
                        g = inst(And(*guards), m) if guards else TRUE
                        if g is FALSE:
                            continue
                        if g is not TRUE and not loops:
                            raise Unresolved(f"line {line}: condition {show(g)[:60]}")
                        for env in iterations(loops, m, line):
                            mm = ext(m, env)
                            g = inst(And(*guards), mm) if guards else TRUE
                            if g is FALSE:
                                continue
                            if g is not TRUE:
                                raise Unresolved(f"line {line}: condition {show(g)[:60]}")
                            i = cint(inst(idx, mm))
                            if i is None:
                                raise Unresolved(f"line {line}: index")
                            got[i] = self.value(val, S, mm) + (line,)
                    for i in range(n):
                        if i not in got:
                            raise Mismatch(f"{('node', 'weight')[what]} {i} of the {n}-point rule is not set")
                    for i in got:
                        if not 0 <= i < n:
                            raise Mismatch(f"element {i} is written for the {n}-point rule", got[i][2])
                    self.compare([got[i][0] for i in range(n)], n, what, fn, got[0][2], got[0][1])
                self.res.ok(f"{key}: {n} nodes and weights are those of the Gauss-Legendre rule")
            except Unresolved as e:
                self.res.skip(key, str(e))
            except Mismatch as e:
                self.res.bad(key, f"{name}: {e.args[0]}", self.ctx.where(fn, e.args[1] if len(e.args) > 1 else None))

    def by_reference(self, name, orders):
        """routine (n, &pts, &wts) handing out the tables; nonzero result: not available"""
        fn = self.ctx.prog.functions.get(name)
        if fn is None:
            return
        S = Summary1(self.eng, name)
        for n in orders:
            key = f"{name}:{n}"
            m = Model({N("arg", 0): C(n)})
            try:
                r = inst(S.ret, m) if S.ret is not None else None
                rc = cint(r) if r is not None else None
                if rc is None:
                    raise Unresolved("result not resolved")
                if rc != 0:
                    self.res.ok(f"{key}: refused")
                    continue
                for what in (0, 1):
                    rs, why = S.records(PTR(N("arg", what + 1)))
                    if why:
                        raise Unresolved("; ".join(why))
                    got = None
                    for idx, val, loops, guards, line, f2 in rs:
                        g = inst(And(*guards), m) if guards else TRUE
                        if g is FALSE:
                            continue
                        if g is not TRUE or loops:
                            raise Unresolved(f"line {line}: condition")
                        got = self.source(val, S, m) + (line,)
                    if got is None:
                        raise Mismatch(f"no {('nodes', 'weights')[what]} are returned for order {n}")
                    d, nm, line = got
                    if len(d) < n:
                        raise Mismatch(f"the table {nm} has {len(d)} entries but order {n} is returned", line)
                    self.compare(d[:n], n, what, fn, line, nm)
                self.res.ok(f"{key}: {n} nodes and weights are those of the Gauss-Legendre rule")
            except Unresolved as e:
                self.res.skip(key, str(e))
            except Mismatch as e:
                self.res.bad(key, f"{name}: {e.args[0]}", self.ctx.where(fn, e.args[1] if len(e.args) > 1 else None))


def ccw(N_, i):
    """Clenshaw-Curtis weight i of N points"""
    if N_ == 1:
        return 2.0
    n = N_ - 1
    t = i * math.pi / n
    w = 1.0
    for j in range(1, n // 2 + 1):
        b = 1.0 if 2 * j == n else 2.0
        w -= b * math.cos(2 * j * t) / (4 * j * j - 1)
    return w * (1.0 if i in (0, n) else 2.0) / n


def simpson(n, i):
    """Simpson weight i of n uniform points; an even number of points: trapezoidal rule for the last interval"""
    if n % 2 == 0:
        return 0.5 if i == n - 1 else simpson(n - 1, i) + (0.5 if i == n - 2 else 0.0)
    return (1 if i in (0, n - 1) else 4 if i % 2 else 2) / 3.0


PI = repr(math.pi)
ENTS = [
 K("cheb_gauss", "N pts w", "N", vals=(1, 2, 3, 4, 5, 6), maps=[("w", [("i", ["val", PI + "*inv(N)"], "i<N")]), ("pts", [("i", ["cos", "(2*(i+1)-1)*" + repr(math.pi / 2) + "*inv(N)"], "i<N")])]),
 K("rescale_cc", "N pts w a b", "N", maps=[("pts", [("i", ["val", "0.5*((pts[i]+1)*b-(pts[i]-1)*a)"], "i<N")]), ("w", [("i", ["val", "0.5*(b-a)*w[i]"], "i<N")])]),
 K("trap_w", "N h", "N", vals=(2, 3, 4, 5), maps=[("ret", lambda v: {i: ["val", "0.5*h" if i in (0, v("N") - 1) else "h"] for i in range(v("N"))})]),
 K("simpson_w", "N h", "N", vals=(3, 4, 5, 6, 7, 8, 9), maps=[("ret", lambda v: {i: ["val", f"{simpson(v('N'), i)!r}*h"] for i in range(v("N"))})]),
]


class Jacobi:
    """Gauss rules from the eigenvalues of the Jacobi matrix: zero diagonal, documented off-diagonal, weights = squared first components"""

    def __init__(self, ctx, eng, res, name, off, sizes, other=None):
        self.ctx, self.eng, self.res, self.name, self.off, self.sizes, self.other = ctx, eng, res, name, off, sizes, other

    def go(self):
        fn = self.ctx.prog.functions.get(self.name)
        if fn is None:
            return
        key = self.name + ":eig"
        try:
            S = Summary1(self.eng, self.name)
            cs = [f for f in S.effs if f.kind == "call" and f.callee == "dstev_"]
            if len(cs) != 1 or cs[0].loops:
                raise Unresolved("eigenvalue solver not called once")
            c = cs[0]
            n0 = N("arg", 0)
            for n in self.sizes:
                m = Model({n0: C(n)})
                g = inst(And(*c.guards), m) if c.guards else TRUE
                if g is FALSE and self.other:
                    self.other(n)
                    continue
                if g is not TRUE:
                    raise Unresolved("solver called conditionally")
                def local(p):
                    v = [f for f in S.effs if f.kind == "store" and f.loc is p]
                    if len(v) != 1:
                        return None
                    return cint(inst(v[0].val, m))
                for k, nm in ((1, "order"), (5, "leading dimension")):
                    v = local(c.args[k])
                    if v is None:
                        raise Unresolved(nm)
                    if v != n:
                        raise Mismatch(f"the {nm} of the Jacobi matrix is {v} for {n} points", c.line)
                if c.args[2] is not PTR(N("arg", 1)):
                    raise Unresolved("diagonal")
                for arr, what, f in ((c.args[2], "diagonal", lambda i: 0.0), (c.args[3], "off-diagonal", self.off)):
                    recs, why = S.records(arr)
                    el = unroll(S, [r for r in recs if r[4] <= c.line or True], m)
                    for i in range(n if what == "diagonal" else n - 1):
                        if i not in el:
                            raise Unresolved(f"{what} {i} not set")
                        x = el[i][0]
                        v = call_value(x)
                        if v is None:
                            raise Unresolved(f"{what} {i}: {showval(x, S.an.names)[:60]}")
                        if not abs(v - f(i)) <= 1e-12:
                            raise Mismatch(f"{what} element {i} of the Jacobi matrix is {v!r} instead of {f(i)!r}", el[i][1])
                recs, why = S.records(PTR(N("arg", 2)))
                for idx, val, loops, guards, line, f2 in recs:
                    for env in iterations(loops, m, line):
                        mm = ext(m, env)
                        if inst(And(*[g for g in guards if not contains(g, lambda y: y.kind == "ld" or y.kind == "alloca")]), mm) is FALSE:
                            continue
                        i = cint(inst(idx, mm))
                        v = strip(inst(val, mm))
                        e = strip(A(N("ld", addstep(c.args[4], ("I", C(i * n), "double")) if i else c.args[4], 0)))
                        if i is None or v.kind != "poly" or not all(a.kind == "ld" for mo, _ in v.a for a in mo):
                            raise Unresolved(f"line {line}: weight {show(v)[:60]}")
                        if not sameval(v, strip(mul(e, e))):
                            raise Mismatch(f"weight {i} of {n} points is {show(v, S.an.names)[:80]}, not the squared first component of eigenvector {i}", line)
            self.res.ok(f"{self.name}: Jacobi matrix and weights, {len(self.sizes)} sizes")
        except Unresolved as e:
            self.res.skip(key, str(e))
        except Mismatch as e:
            self.res.bad(key, f"{self.name}: {e.args[0]}", self.ctx.where(fn, e.args[1] if len(e.args) > 1 else None))


def call_value(v):
    """number denoted by a resolved closed value"""
    if v[0] == "val":
        n = v[1]
    elif isinstance(v[0], str) and all(isinstance(x, Node) and x.kind == "poly" for x in v[1:]):
        n = A(N("call", v[0], *v[1:]))
    else:
        return None
    if contains(n, lambda y: y.kind in ("arg", "ld", "new", "k", "x", "cut", "unk", "phi", "rphi", "uninit", "alloca")):
        return None
    try:
        return numeric(n, 1)
    except (OverflowError, ValueError, ZeroDivisionError):
        return None


def f2w(N_, i):
    """Fejer (second rule) weight i of N points"""
    n = N_ + 1
    t = math.pi * (N_ - i) / n
    return 4 * math.sin(t) / n * sum(math.sin((2 * j - 1) * t) / (2 * j - 1) for j in range(1, n // 2 + 1))


class Closed:
    """nodes and weights of a rule with textbook formulas, from the routine's own update sequence"""

    def __init__(self, ctx, eng, res, sizes, node, weight):
        self.ctx, self.eng, self.res, self.sizes, self.node, self.weight = ctx, eng, res, sizes, node, weight

    def go(self, name):
        fn = self.ctx.prog.functions.get(name)
        if fn is None:
            return
        try:
            S = Summary1(self.eng, name)
            for n in self.sizes:
                m = Model({N("arg", 0): C(n)})
                for k, what in ((1, "node"), (2, "weight")):
                    base = PTR(N("arg", k))
                    recs, why = S.records(base)
                    if why:
                        raise Unresolved("; ".join(why))
                    mem = replay(S, recs, base, m)
                    for i in range(n):
                        w = (self.weight if k == 2 else self.node)(n, i)
                        if i not in mem:
                            raise Mismatch(f"{what} {i} of {n} is not set")
                        v, line = mem[i]
                        if not abs(v - w) <= 1e-12:
                            raise Mismatch(f"{what} {i} of {n} is {v!r} instead of {w!r}", line)
            self.res.ok(f"{name}: nodes and weights for {len(self.sizes)} sizes")
        except Unresolved as e:
            self.res.skip(name, str(e))
        except Mismatch as e:
            self.res.bad(name, f"{name}: {e.args[0]}", self.ctx.where(fn, e.args[1] if len(e.args) > 1 else None))


def replay(S, recs, base, m):
    """final numeric contents of the array at base: the updates in program order, loads of the array itself resolved to the current contents"""
    mem = {}

    def step(r, mm):
        idx, val, loops, guards, line, fn = r
        g = inst(And(*guards), mm) if guards else TRUE
        if g is FALSE:
            return
        if g is not TRUE:
            raise Unresolved(f"line {line}: condition {show(g)[:60]}")
        i = cint(inst(idx, mm))
        if i is None:
            raise Unresolved(f"line {line}: index")
        v = inst(val, mm)
        used = {}

        def f(x):
            if x.kind == "ld":
                b, j, _ = strip_last_index(x.a[0])
                if strip(b) is strip(base):
                    jj = cint(inst(j, mm))
                    if jj is None or jj not in mem:
                        raise Unresolved(f"line {line}: reads element {show(j)}")
                    if jj != i:
                        raise Unresolved(f"line {line}: update from another element")
                    return mem[jj][2]
            return None
        v = subst(v, f, {})
        x = call_value(S.resolved(v, mm)) if S.call_of(val) is None else call_value(canonval(S.value(val), mm))
        if x is None:
            raise Unresolved(f"line {line}: value {show(v)[:60]}")
        mem[i] = (x, line, P({(): x}))

    def run(rs, depth, mm):
        j = 0
        while j < len(rs):
            r = rs[j]
            if len(r[2]) <= depth:
                step(r, mm)
                j += 1
                continue
            k, t, ex = r[2][depth]
            grp = [r]
            while j + len(grp) < len(rs) and len(rs[j + len(grp)][2]) > depth and rs[j + len(grp)][2][depth][0] is k:
                grp.append(rs[j + len(grp)])
            for env in iterations([r[2][depth]], mm, r[4]):
                run(grp, depth + 1, ext(mm, env))
            j += len(grp)
    run(recs, 0, m)
    return {i: (v[0], v[1]) for i, v in mem.items()}


def run(ctx):
    res = Result()
    prog = ctx.prog
    eng = ctx.need(["getLegPtsWts", "getLegPtsWts2", "gauss_legendre", "gauss_hermite", "clenshaw_curtis", "fejer2"] + [e["fn"] for e in ENTS])
    L = Leg(ctx, eng, res)
    L.by_copy("gauss_legendre", range(1, 200))
    L.by_copy("getLegPtsWts", range(2, 200))
    L.by_reference("getLegPtsWts2", range(0, 206))
    for e in ENTS:
        Run(ctx, eng, res, e).go()
    Jacobi(ctx, eng, res, "gauss_hermite", lambda i: math.sqrt(i + 1.0), (2, 3, 4, 5)).go()
    Jacobi(ctx, eng, res, "gauss_legendre", lambda i: (i + 1.0) / math.sqrt((2 * i + 3.0) * (2 * i + 1.0)), (200, 201), lambda n: L.by_copy("gauss_legendre", [n])).go()
    Closed(ctx, eng, res, range(1, 13), lambda n, i: -math.cos(math.pi * i / (n - 1)) if n > 1 else 0.0, ccw).go("clenshaw_curtis")
    Closed(ctx, eng, res, range(1, 13), lambda n, i: math.cos(math.pi * (n - i) / (n + 1)), f2w).go("fejer2")
    res.minimum = 200
    res.rule = "nodes and weights delivered for each order, resolved to the initialisers of the constant tables in the compiled program, equal the computed Gauss-Legendre rule; formulas of the other rules equal the documented closed forms"
    return res
