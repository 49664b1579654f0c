"""C22: trains of special functions represent the function they are documented to represent."""
import math, os
from ..core import Result, Anchor
from ..spec import *
from .c19 import Train, arrays, retshape, Builder


def X(k):
    return A(N("call", "x", C(k)))


def scalar(val, k, tab):
    """value of a univariate function element at x_k"""
    op = val[0]
    if op == "zero":
        return ZERO
    if op == "generic_function_constant":
        return topoly(val[1])
    if op == "generic_function_linear":
        return add(mul(topoly(val[1]), X(k)), topoly(val[2]))
    if op == "generic_function_quadratic":
        d = sub(X(k), topoly(val[2]))
        return mul(topoly(val[1]), mul(d, d))
    if op == "generic_function_approximate1d":
        return A(N("call", "f", C(k)))
    return None


OPTS = {"generic_function_constant": 2, "generic_function_linear": 3, "generic_function_quadratic": 3, "generic_function_approximate1d": 1, "generic_function_zero": 1}


class Special:
    def __init__(self, ctx, eng, res, name, params, opts, want):
        self.ctx, self.eng, self.res, self.name = ctx, eng, res, name
        self.params, self.opts, self.want = params.split(), opts, want

    def elements(self, S, call, base, m, shapes):
        """{(core, position): value} of the functions stored in the cores"""
        prog = self.ctx.prog
        cb = strip(base["cores"])
        fi = ("F", "struct.Qmarray", [n for n, _ in prog.fields["struct.Qmarray"]].index("funcs"))
        qa = self.eng.an["qmarray_alloc"]
        fa = qa.fa.closed(exit_load(qa, fieldptr(prog, qa.ret, "struct.Qmarray", "funcs"), "ptr"))
        own = {}
        for f in S.effs:
            if f.kind == "store":
                b, idx, _ = strip_last_index(f.loc)
                if strip(b) is cb:
                    c = S.call_of(f.val)
                    if c is not None and c.callee == "qmarray_alloc" and c.ret.kind == "ptr" and c.ret.a[0].kind == "new" and fa.kind == "ptr" and fa.a[0].kind == "new":
                        n = len(c.ret.a[0].a[0]) - len(qa.ret.a[0].a[0])
                        own[N("new", c.ret.a[0].a[0][:n] + fa.a[0].a[0])] = idx
        out = {}
        for f in S.effs:
            if f.kind != "store":
                continue
            b0, j, _ = strip_last_index(f.loc)
            if not contains(strip(b0), lambda x: x is cb.a[0] or x in own):
                if S.may(strip(b0), cb):
                    raise Unresolved(f"line {f.line}: write to {show(f.loc)[:60]}")
                continue
            if strip(b0) is cb:
                continue
            for env in iterations(f.loops, m, f.line):
                mm = ext(m, env)
                g = inst(And(*f.guards), mm) if f.guards else TRUE
                if g is FALSE:
                    continue
                if g is not TRUE:
                    raise Unresolved(f"line {f.line}: condition {show(g)[:60]}")
                k = None
                b = inst(b0, mm)
                if b.kind == "ptr" and not b.a[1] and b.a[0] in own:
                    k = own[b.a[0]]
                elif b.kind == "ptr" and not b.a[1] and b.a[0].kind == "ld":
                    q = b.a[0].a[0]
                    if q.kind == "ptr" and q.a[1] and q.a[1][-1] == fi and len(q.a[1]) == 1 and q.a[0].kind == "ld":
                        c, k, _ = strip_last_index(q.a[0].a[0])
                        if strip(c) is not cb:
                            k = None
                if k is None:
                    raise Unresolved(f"line {f.line}: write to {show(b)[:60]}")
                ki = cint(inst(k, mm))
                ji = self.pos(j, mm, shapes)
                if ki is None or ji is None:
                    raise Unresolved(f"line {f.line}: position {show(inst(j, mm))[:60]}")
                out[(ki, ji)] = (S.resolved(f.val, mm), f.line)
        return out

    def pos(self, j, mm, shapes):
        return cint(inst(j, mm))

    def go(self):
        prog, eng, res, name = self.ctx.prog, self.eng, self.res, self.name
        fn = prog.functions.get(name)
        if fn is None:
            return False
        if len(fn.ptypes) != len(self.params):
            res.skip(name, "signature changed")
            return True
        try:
            n = self.check(prog, eng, fn)
            if not n:
                raise Unresolved("no admissible dimension")
            res.ok(f"{name}: product of the cores is the documented function, dimensions {n}")
        except Unresolved as e:
            res.skip(name, str(e))
        except Mismatch as e:
            res.bad(name, f"{name}: {e.args[0]}", self.ctx.where(fn, e.args[1] if len(e.args) > 1 else None))
        except (KeyError, ValueError, AttributeError, TypeError, IndexError) as e:
            if os.environ.get("C3_DEBUG"):
                raise
            res.skip(name, f"contract does not apply any more ({type(e).__name__} {e})")
        return True

    def check(self, prog, eng, fn):
        S = Summary1(eng, fn.name, noinline=("function_train_alloc", "qmarray_alloc"))
        cs = [f for f in S.effs if f.kind == "call" and f.callee == "function_train_alloc"]
        if len(cs) != 1 or cs[0].loops or cs[0].guards:
            raise Unresolved("train created conditionally")
        call = cs[0]
        base = arrays(eng, prog, S, call)
        E = Expr(prog, fn, self.params, eng=eng)
        recs, why = S.records(base["cores"])
        if why:
            raise Unresolved("; ".join(why))
        B = Builder(self.ctx, eng, self.res, fn.name, {})
        done = []
        for D in (1, 2, 3, 4):
            tr = Train(prog, D, (), S, B.shape)
            m = Model({}, [tr])
            tr.env = m
            for e, v in (("ldc", 2), ("lda", 3)):
                if e in self.params:
                    m.d[strip(atom_of(E.ev(e)))] = C(v)
            if any(inst(f, m) is FALSE for f in S.facts()):
                continue
            nd = cint(inst(call.args[0], m))
            if nd != D:
                raise Unresolved("dimension not resolved")
            cores = unroll(S, recs, m)
            shp = {}
            for k in range(D):
                if k not in cores:
                    raise Mismatch(f"core {k} is never set for dimension {D}")
                shp[k] = B.shapeof(S, cores[k][4], cores[k][5])
                if shp[k] is None or None in shp[k]:
                    raise Unresolved(f"shape of core {k}")
            # rows and columns of the cores themselves appear in positions
            kn = {}
            for k in range(D):
                p = N("ld", addstep(base["cores"], ("I", C(k), "ptr")) if k else base["cores"], 0)
                for x, y in zip(("nrows", "ncols"), shp[k]):
                    kn[N("ld", fieldptr(prog, PTR(p), "struct.Qmarray", x), 0)] = C(y)
            m = ext(m, kn)
            els = self.elements(S, call, base, m, shp)
            mats = []
            for k in range(D):
                r, c = shp[k]
                for (kk, j) in els:
                    if kk == k and not 0 <= j < r * c:
                        raise Mismatch(f"function {j} of core {k} is written, but the core is {r} x {c}, for dimension {D}", els[(kk, j)][1])
                M = {}
                for j in range(r * c):
                    if (k, j) not in els:
                        raise Mismatch(f"function ({j % r},{j // r}) of core {k} is never set, for dimension {D}")
                    v, line = els[(k, j)]
                    s = scalar(v, k, None)
                    if s is None or unclear(s):
                        raise Unresolved(f"line {line}: value {showval(v, S.an.names)[:60]}")
                    if v[0] in OPTS:
                        i = OPTS[v[0]]
                        want = strip(inst(E.ev(f"{self.opts}.aopts[{k}].aopts"), m))
                        got = strip(v[i + 1] if v[0] == "generic_function_approximate1d" else v[i + 1]) if len(v) > i + 1 else None
                        if got is not None and got is not want and not unclear(got):
                            raise Mismatch(f"function ({j % r},{j // r}) of core {k} is built with the options {show(got, S.an.names)[:60]}, for dimension {D}", line)
                    M[(j % r, j // r)] = s
                mats.append(([[M[(i, jj)] for jj in range(c)] for i in range(r)], r, c))
                if k and mats[k - 1][2] != r:
                    raise Mismatch(f"core {k - 1} has {mats[k - 1][2]} columns but core {k} has {r} rows, for dimension {D}")
            if mats[0][1] != 1 or mats[-1][2] != 1:
                raise Mismatch(f"the product of the cores is a {mats[0][1]} x {mats[-1][2]} matrix, for dimension {D}")
            for seed in (1, 2, 3):
                vec = [1.0]
                for M, r, c in mats:
                    nm = [[numeric(strip(M[i][j]), seed) for j in range(c)] for i in range(r)]
                    vec = [sum(vec[i] * nm[i][j] for i in range(r)) for j in range(c)]
                w = self.want(lambda e: strip(topoly(inst(E.ev(e), m))), D, seed)
                if not abs(vec[0] - w) <= 1e-9 * max(1.0, abs(w)):
                    raise Mismatch(f"the product of the cores is not the documented function for dimension {D}: cores {' * '.join(showmat(M, S.an.names) for M, _, _ in mats)[:300]}")
            done.append(D)
        return done


def showmat(M, names):
    return "[" + "; ".join(", ".join(show(x, names) for x in r) for r in M) + "]"


def xv(k, seed):
    return numeric(X(k), seed)


def total(f):
    return lambda e, D, s: sum(f(lambda x: numeric(e(x), s), k, s) for k in range(D))


def prod(f):
    return lambda e, D, s: math.prod(f(lambda x: numeric(e(x), s), k, s) for k in range(D))


def quad(e, D, s):
    v = lambda x: numeric(e(x), s)
    return sum(v(f"q[{i}+{j}*{D}]") * (xv(i, s) - v(f"m[{i}]")) * (xv(j, s) - v(f"m[{j}]")) for i in range(D) for j in range(D))


def fv(e, k, s):
    return numeric(A(N("call", "f", C(k))), s)


SPECIAL = [
 ("function_train_constant", "a o", "o", lambda e, D, s: numeric(e("a"), s)),
 ("function_train_linear", "c ldc a lda o", "o", total(lambda e, k, s: e(f"c[{k}*ldc]") * xv(k, s) + e(f"a[{k}*lda]"))),
 ("function_train_rankone_prod", "q o", "o", prod(lambda e, k, s: e(f"q[{k}]") * xv(k, s))),
 ("function_train_rankone", "o fw", "o", prod(fv)),
 ("function_train_initsum", "o fw", "o", total(fv)),
 ("function_train_quadratic", "q m o", "o", quad),
 ("function_train_quadratic_aligned", "q m o", "o", total(lambda e, k, s: e(f"q[{k}]") * (xv(k, s) - e(f"m[{k}]")) ** 2)),
]
F = "generic_function_linear_update"
ENTS = [
 K("function_train_rankone", "o fw", "o.dim", vals=(1, 2, 3), calls=[("fwrap_set_which_eval", ["fw", "i"], "i<o.dim")]),
 K("ft1d_array_scale", "f n inc s", "n inc", calls=[("function_train_scale", ["f.ft[i*inc]", "s"], "i<n")]),
 K("ft1d_array_eval", "f x", "f.size", maps=[("ret", [("i", ["function_train_eval", "f.ft[i]", "x"], "i<f.size")])]),
 K("ft1d_array_eval2", "f x out", "f.size", maps=[("out", [("i", ["function_train_eval", "f.ft[i]", "x"], "i<f.size")])]),
 K("c3dot", "x y", calls=[("function_train_inner", ["x", "y"], "")]),
 K("c3axpy:0", "a x y e o", fix={"e": 0}, calls=[("function_train_copy", ["x"], ""), ("function_train_scale", [None, "a"], ""), ("function_train_sum", [None, "y[0]"], "")]),
 K("c3vaxpy", "n a x incx y incy e o", "n incx incy", calls=[("c3axpy", ["a", "x.ft[i*incx]", "y[0].ft+i*incy", "e", "o"], "i<n")]),
 K("c3vaxpy_arr", "n alpha x incx y incy beta z e o", "n incx incy", calls=[("function_train_scale", ["z[0]", "beta"], ""), ("c3axpy", ["alpha*y[i*incy]", "x.ft[i*incx]", "z", "e", "o"], "i<n")]),
 K("c3vprodsum:0", "n a x incx y incy beta z e o", "n incx incy", fix={"e": 0}, calls=[("function_train_scale", ["z[0]", "beta"], ""), ("function_train_product", ["x.ft[i*incx]", "y.ft[i*incy]"], "i<n")]),
 K("c3vprodsum:1", "n a x incx y incy beta z e o", "n incx incy", fix={"e": 1}, calls=[("function_train_scale", ["z[0]", "beta"], ""), ("function_train_product", ["x.ft[i*incx]", "y.ft[i*incy]"], "i<n")]),
 K("c3gemv:0", "alpha n A inca x beta y e o", "n inca", fix={"e": 0}, calls=[("function_train_product", ["A.ft[i*inca]", "x"], "i<n")]),
 K("c3gemv:1", "alpha n A inca x beta y e o", "n inca", fix={"e": 1}, calls=[("function_train_product", ["A.ft[i*inca]", "x"], "i<n")]),
 K("c3vgemv", "m n alpha A lda x incx beta y incy e o", "m incy", calls=[("c3vprodsum", ["n", "alpha", None, "lda", "x", "incx", None, "y[0].ft+i*incy", "e", "o"], "i<m")]),
 K("c3vgemv_arr:0", "trans m n alpha A lda B incb beta y incy e o", "m incy lda", fix={"trans": 0}, calls=[("c3vaxpy_arr", ["n", "alpha", "B", "incb", "A+i", "lda", None, "y[0].ft+i*incy", "e", "o"], "i<m")]),
 K("c3vgemv_arr:1", "trans m n alpha A lda B incb beta y incy e o", "m incy lda", fix={"trans": 1}, calls=[("c3vaxpy_arr", ["n", "alpha", "B", "incb", "A+i*lda", "1", None, "y[0].ft+i*incy", "e", "o"], "i<m")]),
 K("function_train_gradient:copy", "f", "f.dim", calls=[("function_train_copy", ["f"], "i<f.dim")]),
 K("function_train_hessian_diag:copy", "f", "f.dim", calls=[("function_train_copy", ["f"], "i<f.dim")]),
 K("function_train_hessian_diag_periodic:copy", "f", "f.dim", calls=[("function_train_copy", ["f"], "i<f.dim")]),
 K("function_train_initsum", "o fw", "o.dim", vals=(1, 2, 3), calls=[("fwrap_set_which_eval", ["fw", "i"], "i<o.dim")]),
]


# ---- trains built from trains: cores as matrices of unknowns ------------------------------------------------
import random, zlib


class Algebra:
    """numeric value, at unknown matrices of univariate values, of the cores a routine builds"""
    DER = {"qmarray_deriv": "D", "qmarray_dderiv": "DD", "qmarray_dderiv_periodic": "DP"}

    def __init__(self, ctx, eng, S, tr, m):
        self.ctx, self.eng, self.S, self.tr, self.m = ctx, eng, S, tr, m
        self.order = {id(f): i for i, f in enumerate(S.effs)}
        self.memo = {}

    def leaf(self, key, r, c):
        rnd = random.Random(zlib.crc32(str(key).encode()))
        return [[rnd.uniform(0.5, 1.5) for _ in range(c)] for _ in range(r)]

    def base(self, p):
        """X.cores[k] of a train given to the routine"""
        if p.kind == "ptr" and not p.a[1] and p.a[0].kind == "ld":
            return self.tr.elem(p.a[0].a[0], self.tr.CO)
        return None

    def sym(self, v, mm, use):
        """the matrix as an expression over cores of the arguments"""
        S = self.S
        f = S.call_of(v)
        if f is None:
            v = S.pick(v, mm)
            f = S.call_of(v)
        if f is None:
            p = inst(v, mm)
            e = self.base(p)
            if e is not None:
                return ("core", show(e[0]), e[1], self.tr.rank(*e), self.tr.rank(e[0], e[1] + 1))
            return self.local(p, use)
        return self.inplace(f, self.result(f, mm), mm, use)

    def result(self, f, mm):
        use = self.order[id(f)]
        c = f.callee
        M = lambda i: self.sym(f.args[i], mm, use)
        if c == "qmarray_copy":
            return M(0)
        if c in self.DER:
            x = M(0)
            if c == "qmarray_dderiv":
                return ("D", ("D", x))
            return (self.DER[c], x)
        if c == "qmarray_operate_elements":
            return ("op", show(inst(f.args[1], mm)), M(0))
        if c in ("qmarray_stackh", "qmarray_stackv", "qmarray_blockdiag", "qmarray_kron"):
            return (c[8:], M(0), M(1))
        if c == "qmarray_zeros":
            r, k = cint(inst(f.args[0], mm)), cint(inst(f.args[1], mm))
            if r is None or k is None:
                raise Unresolved(f"line {f.line}: shape of a zero block")
            return ("zero", r, k)
        raise Unresolved(f"line {f.line}: matrix built by {c}")

    def inplace(self, f, x, mm, use):
        for g in self.S.effs:
            if g.kind == "call" and g.callee == "qmarray_axpy" and self.S.call_of(g.args[2]) is f and self.order[id(f)] < self.order[id(g)] < use:
                gd = inst(And(*g.guards), mm) if g.guards else TRUE
                if gd is FALSE:
                    continue
                a = const_of(inst(topoly(g.args[0]), mm))
                if gd is not TRUE or a is None or [l[0] for l in g.loops] != [l[0] for l in f.loops]:
                    raise Unresolved(f"line {g.line}: combination in place")
                x = ("axpy", float(a), self.sym(g.args[1], mm, self.order[id(g)]), x)
        return x

    def local(self, p, use):
        """element of a local array of matrices"""
        if p.kind == "ptr" and not p.a[1] and p.a[0].kind == "ld":
            loc = p.a[0].a[0]
            b, i, _ = strip_last_index(loc)
            i = cint(inst(i, self.m))
            if b.kind == "ptr" and b.a[0].kind == "new" and i is not None:
                recs, why = self.S.records(b)
                vals = []
                for r in recs:
                    if r[1] is NULL:
                        continue
                    for env in iterations(r[2], self.m, r[4]):
                        mm = ext(self.m, env)
                        g = inst(And(*r[3]), mm) if r[3] else TRUE
                        if g is FALSE:
                            continue
                        if g is not TRUE:
                            raise Unresolved(f"line {r[4]}: condition")
                        if cint(inst(r[0], mm)) == i:
                            vals.append((r[1], mm))
                if len(vals) == 1 and not why:
                    return self.sym(vals[0][0], vals[0][1], use)
        raise Unresolved(f"matrix {show(p)[:60]} not resolved")

    def num(self, e):
        if e in self.memo:
            return self.memo[e]
        r = self.memo[e] = self._num(e)
        return r

    def shape(self, e):
        k = e[0]
        if k == "core":
            return e[3], e[4]
        if k == "zero":
            return e[1], e[2]
        if k in ("D", "DP"):
            return self.shape(e[1])
        if k == "op":
            return self.shape(e[2])
        a = self.num(e)
        return len(a), len(a[0])

    def _num(self, e):
        k = e[0]
        if k == "core":
            return self.leaf(e[1:3], e[3], e[4])
        if k == "zero":
            return [[0.0] * e[2] for _ in range(e[1])]
        if k in ("D", "DP", "op"):
            return self.leaf(e, *self.shape(e))
        if k == "axpy":
            a, b = self.num(e[2]), self.num(e[3])
            if len(a) != len(b) or len(a[0]) != len(b[0]):
                raise Mismatch(f"adds a {len(a)} x {len(a[0])} matrix to a {len(b)} x {len(b[0])} one")
            return [[e[1] * x + y for x, y in zip(r, s)] for r, s in zip(a, b)]
        a, b = self.num(e[1]), self.num(e[2])
        if k == "stackh":
            if len(a) != len(b):
                raise Mismatch(f"stacks matrices of {len(a)} and {len(b)} rows side by side")
            return [r + s for r, s in zip(a, b)]
        if k == "stackv":
            if len(a[0]) != len(b[0]):
                raise Mismatch(f"stacks matrices of {len(a[0])} and {len(b[0])} columns on top of each other")
            return a + b
        if k == "blockdiag":
            return [r + [0.0] * len(b[0]) for r in a] + [[0.0] * len(a[0]) + r for r in b]
        if k == "kron":
            return [[x * y for x in r for y in s] for r in a for s in b]
        raise Unresolved(k)


def chain(ms):
    v = [[1.0]]
    for m in ms:
        if len(v[0]) != len(m):
            raise Mismatch(f"a core with {len(v[0])} columns is followed by one with {len(m)} rows")
        v = [[sum(r[i] * m[i][j] for i in range(len(m))) for j in range(len(m[0]))] for r in v]
    if len(v) != 1 or len(v[0]) != 1:
        raise Mismatch(f"the product of the cores is {len(v)} x {len(v[0])}")
    return v[0][0]


class Built:
    def __init__(self, ctx, eng, res, name, params, want, dims=(1, 2, 3, 4)):
        self.ctx, self.eng, self.res, self.name, self.params, self.want, self.dims = ctx, eng, res, name, params.split(), want, dims

    def go(self):
        ctx, eng, res, name = self.ctx, self.eng, self.res, self.name
        fn = ctx.prog.functions.get(name)
        if fn is None:
            return False
        if len(fn.ptypes) != len(self.params):
            res.skip(name, "signature changed")
            return True
        D = None
        try:
            S = Summary1(eng, name, noinline=("function_train_alloc", "qmarray_alloc"))
            S.allow_new = True
            cs = [f for f in S.effs if f.kind == "call" and f.callee == "function_train_alloc"]
            if len(cs) != 1 or cs[0].loops:
                raise Unresolved(f"{len(cs)} trains created")
            base = arrays(eng, ctx.prog, S, cs[0])
            recs, why = S.records(base["cores"])
            if why:
                raise Unresolved("; ".join(why))
            E = Expr(ctx.prog, fn, self.params, eng=eng)
            B = Builder(ctx, eng, res, name, {})
            done = []
            for D in self.dims:
                tr = Train(ctx.prog, D, (), S, B.shape)
                m = Model({}, [tr])
                tr.env = m
                for g in cs[0].guards:
                    for h in (g.a if g.kind == "and" else (g,)):
                        if inst(h, m) not in (TRUE, FALSE):
                            m.d[h] = TRUE
                if any(inst(f, m) is FALSE for f in S.facts()):
                    continue
                al = Algebra(ctx, eng, S, tr, m)
                cores = {}
                for rec in recs:
                    for env in iterations(rec[2], m, rec[4]):
                        mm = ext(m, env)
                        g = inst(And(*rec[3]), mm) if rec[3] else TRUE
                        if g is FALSE:
                            continue
                        if g is not TRUE:
                            raise Unresolved(f"line {rec[4]}: condition {show(g)[:60]}")
                        i = cint(inst(rec[0], mm))
                        if i is None:
                            raise Unresolved(f"line {rec[4]}: index")
                        cores[i] = (rec[1], mm, rec[4])
                if sorted(cores) != list(range(D)):
                    raise Mismatch(f"sets cores {sorted(cores)} of a train of dimension {D}")
                got = chain([al.num(al.sym(cores[k][0], cores[k][1], 10 ** 9)) for k in range(D)])

                def core(x, k, *ops):
                    X_ = E.ev(x)
                    e = ("core", show(X_), k, tr.rank(X_, k), tr.rank(X_, k + 1))
                    for o in ops:
                        e = (o, e) if isinstance(o, str) else o + (e,)
                    return al.num(e)
                w = self.want(core, D, lambda e: show(inst(E.ev(e), m)))
                if not abs(got - w) <= 1e-9 * max(1.0, abs(w)):
                    raise Mismatch(f"the product of the cores is not the documented combination for dimension {D}")
                done.append(D)
            if not done:
                raise Unresolved("no admissible dimension")
            res.ok(f"{name}: product of the cores is the documented combination of the arguments, dimensions {done}")
        except Unresolved as e:
            res.skip(name, str(e))
        except Mismatch as e:
            res.bad(name, f"{name}: {e.args[0]}" + (f" (dimension {D})" if "dimension" not in e.args[0] else ""), ctx.where(fn, e.args[1] if len(e.args) > 1 else None))
        except (KeyError, ValueError, AttributeError, TypeError, IndexError) as e:
            if os.environ.get("C3_DEBUG"):
                raise
            res.skip(name, f"contract does not apply any more ({type(e).__name__} {e})")
        return True


def laplace(*ops):
    return lambda core, D, sh: sum(chain([core("f", j, *(ops if j == k else ())) for j in range(D)]) for k in range(D))


def kr(a, b):
    return [[x * y for x in r for y in s] for r in a for s in b]


def plus(a, b):
    return [[x + y for x, y in zip(r, s)] for r, s in zip(a, b)]


def diffusion(core, D, sh):
    t = 0.0
    for k in range(D):
        ms = []
        for j in range(D):
            if j == k:
                ms.append(plus(kr(core("a", j), core("f", j, "D", "D")), kr(core("a", j, "D"), core("f", j, "D"))))
            else:
                ms.append(kr(core("a", j), core("f", j)))
        t += chain(ms)
    return t


BUILT = [
 ("function_train_sum", "a b", lambda core, D, sh: chain([core("a", k) for k in range(D)]) + chain([core("b", k) for k in range(D)])),
 ("function_train_product", "a b", lambda core, D, sh: chain([core("a", k) for k in range(D)]) * chain([core("b", k) for k in range(D)])),
 ("function_train_copy", "a", lambda core, D, sh: chain([core("a", k) for k in range(D)])),
 ("function_train_operate", "a op", lambda core, D, sh: chain([core("a", k, ("op", sh(f"op[{k}]"))) for k in range(D)])),
 ("exact_laplace", "f o", laplace("D", "D")),
 ("exact_laplace_periodic", "f o", laplace("DP")),
 ("exact_laplace_op", "f op o", lambda core, D, sh: sum(chain([core("f", j, *((("op", sh(f"op[{k}]")),) if j == k else ())) for j in range(D)]) for k in range(D))),
 ("exact_diffusion", "a f o", diffusion),
]


FAMILY = {"qmarray_deriv", "qmarray_dderiv", "qmarray_dderiv_periodic", "qmarray_copy"}


class Derivs:
    """arrays of trains that are copies of a train with one core replaced by its derivative"""

    def __init__(self, ctx, eng, res, name, params, sizes, op, want):
        self.ctx, self.eng, self.res = ctx, eng, res
        self.name, self.params, self.sizes, self.op, self.want = name, params, sizes, op, want

    def go(self):
        name, res = self.name, self.res
        fn = self.ctx.prog.functions.get(name)
        if fn is None:
            return False
        try:
            S = Summary1(self.eng, name)
            E = Expr(self.ctx.prog, fn, self.params.split(), eng=self.eng)
            if S.ret is None or S.ret.kind != "ptr":
                raise Unresolved("result not resolved")
            arr = S.an.fa.closed(exit_load(S.an, addstep(S.ret, E.fstep(fn.rtype.to, "ft")), "ptr"))
            recs = []
            for f in S.effs:
                if f.kind != "store" or f.val.kind != "ptr" or f.val is NULL:
                    continue
                b, j, _ = strip_last_index(f.loc)
                a = b.a[0] if b.kind == "ptr" and not b.a[1] else None
                if a is None or a.kind != "ld" or a.a[0].kind != "ptr" or not a.a[0].a[1]:
                    continue
                st = a.a[0].a[1][-1]
                if st[0] != "F" or self.ctx.prog.fieldname(st[1], st[2]) != "cores":
                    continue
                t = a.a[0].a[0]
                if t.kind != "ld" or len(a.a[0].a[1]) != 1:
                    raise Unresolved(f"line {f.line}: core of {show(a.a[0])[:60]}")
                base, i, _ = strip_last_index(t.a[0])
                if strip(base) is not strip(arr):
                    raise Unresolved(f"line {f.line}: core of {show(base)[:60]}")
                c = S.call_of(f.val)
                if c is None or c.callee not in FAMILY:
                    raise Unresolved(f"line {f.line}: value {show(f.val)[:60]}")
                recs.append((i, j, c.callee, c.args[0], f.loops, f.guards, f.line))
            if not recs:
                raise Unresolved("no core is replaced")
            szs = [strip(atom_of(E.ev(x))) for x in self.sizes.split()]
            n = 0
            for m in assignments(szs, S.facts(), [], (2, 3, 1), 40):
                m = Model(m)
                got = {}
                for i, j, op, a, loops, guards, line in recs:
                    for env in iterations(loops, m, line):
                        mm = ext(m, env)
                        g = inst(And(*guards), mm) if guards else TRUE
                        if g is FALSE:
                            continue
                        ii, jj = cint(inst(i, mm)), cint(inst(j, mm))
                        if g is not TRUE or ii is None or jj is None:
                            raise Unresolved(f"line {line}: index")
                        got[ii, jj] = (op, strip(inst(a, mm)), line)
                exp = self.want(lambda e: cint(inst(E.ev(e), m)))
                for k, a in exp.items():
                    a = strip(inst(E.ev(a), m))
                    if k not in got:
                        raise Mismatch(f"core {k[1]} of element {k[0]} is not replaced by its derivative for {describe(m, S.an.names)}")
                    op, x, line = got[k]
                    if op != self.op:
                        raise Mismatch(f"core {k[1]} of element {k[0]} is built by {op} instead of {self.op}", line)
                    if unclear(x) or x.kind != a.kind:
                        raise Unresolved(f"line {line}: {show(x)[:60]}")
                    if x is not a:
                        raise Mismatch(f"core {k[1]} of element {k[0]} is built from {show(x, S.an.names)[:60]} instead of {show(a, S.an.names)[:60]}", line)
                for k in got:
                    if k not in exp:
                        raise Mismatch(f"core {k[1]} of element {k[0]} is replaced for {describe(m, S.an.names)}", got[k][2])
                n += 1
            if not n:
                raise Unresolved("no admissible sizes")
            res.ok(f"{name}: core k of element k is the derivative of core k, {n} sizes")
        except Unresolved as e:
            res.skip(name, str(e))
        except Mismatch as e:
            res.bad(name, f"{name}: {e.args[0]}", self.ctx.where(fn, e.args[1] if len(e.args) > 1 else None))
        except (KeyError, ValueError, AttributeError, TypeError, IndexError) as e:
            if os.environ.get("C3_DEBUG"):
                raise
            res.skip(name, f"contract does not apply any more ({type(e).__name__} {e})")
        return True


def beta_once(ctx, eng, res, name, callee, k, kb):
    """y <- ... + beta*y: the scalings y undergoes (before, and inside the routine that adds) amount to beta once"""
    fn = ctx.prog.functions.get(name)
    if fn is None:
        return
    key = name + ":beta"
    try:
        S = Summary1(eng, name)
        b = A(N("arg", kb))
        pre = ONE = C(1)
        for f in S.effs:
            if f.kind == "call" and f.callee in ("ft1d_array_scale", "function_train_scale"):
                if f.guards or f.callee == "function_train_scale":
                    raise Unresolved(f"line {f.line}: scaling")
                pre = mul(pre, topoly(f.args[3]))
        n = 0
        for f in S.effs:
            if f.kind == "call" and f.callee == callee:
                n += 1
                t = strip(mul(pre, topoly(f.args[k])))
                if contains(t, lambda x: x.kind not in ("poly", "arg")):
                    raise Unresolved(f"line {f.line}: factor {show(t)[:60]}")
                if not sameval(t, b):
                    raise Mismatch(f"y is scaled by {show(t, S.an.names)} instead of {show(b, S.an.names)}", f.line)
        if not n:
            raise Unresolved(f"{callee} is not called")
        res.ok(f"{key}: y is scaled by beta once")
    except Unresolved as e:
        res.skip(key, str(e))
    except Mismatch as e:
        res.bad(key, f"{name}: {e.args[0]}", ctx.where(fn, e.args[1] if len(e.args) > 1 else None))


DIAG = lambda v: {(k, k): f"f.cores[{k}]" for k in range(v("f.dim"))}
DERIVS = [
 ("function_train_gradient", "f", "f.dim", "qmarray_deriv", DIAG),
 ("function_train_hessian_diag", "f", "f.dim", "qmarray_dderiv", DIAG),
 ("function_train_hessian_diag_periodic", "f", "f.dim", "qmarray_dderiv_periodic", DIAG),
 ("ft1d_array_jacobian", "f", "f.size f.ft[0].dim", "qmarray_deriv",
  lambda v: {(i * v("f.size") + j, i): f"f.ft[{j}].cores[{i}]" for i in range(v("f.ft[0].dim")) for j in range(v("f.size"))}),
]


def run(ctx):
    res = Result()
    res.rule = ("for every constructor of a special function train, the univariate functions it stores are extracted from the compiled code as closed forms of the loop "
                "counters; at dimensions 1..4 every position of every core must be set exactly within its shape and built with the options of its own dimension, and the "
                "matrix product of the cores, with constants, linear and quadratic elements written out as polynomials in x_1..x_d, must equal the documented function")
    res.assumptions = ["generic_function_constant/linear/quadratic build the functions they are named after", "polynomials are compared as real functions at pseudo-random points"]
    eng = ctx.full()
    n = 0
    for t in SPECIAL:
        n += bool(Special(ctx, eng, res, *t).go())
    for t in BUILT:
        n += bool(Built(ctx, eng, res, *t).go())
    for t in DERIVS:
        n += bool(Derivs(ctx, eng, res, *t).go())
    beta_once(ctx, eng, res, "c3vgemv", "c3vprodsum", 6, 7)
    beta_once(ctx, eng, res, "c3vgemv_arr", "c3vaxpy_arr", 6, 8)
    n += run_all(ctx, eng, res, ENTS)
    if n < 3:
        raise Anchor(f"only {n} constructors of special trains exist")
    res.minimum = 3
    return res
