"""Extents: does an access stay inside the storage it is made in?

An access is (pointer, bytes), under guards and inside counted loops.  Its storage is an allocation of the
function (size known symbolically), an array field of an object (extent recorded by the object, sa/shapes.py),
a local or global array, or an array parameter (then the access becomes a requirement on the callers).
`prove` shows needed <= size for all values (linear combination of the guards, loop ranges and products of them
with non-negative sizes); `witness` looks for small well-formed extents at which guards hold and the access
leaves the storage."""
import random
from fractions import Fraction
import re
from . import ir, blas
from .sym import *
from .util import *
from .shapes import SHAPES, EXTENTS
from .shapes import shape_ext as shape
from .maps import fold_op
from .arrays import PARAMS
from .contract import Expr

ESZ = {"i8": 1, "i1": 1, "i16": 2, "i32": 4, "i64": 8, "double": 8, "float": 4, "ptr": 8}
SHZ = {"d": 8, "u": 8, "z": 16, "c": 1, "p": 8, "i": 4}


# fields that are sizes: those the extents of other fields are expressed in
COUNTS = set()
for _s, _d in list(SHAPES.items()) + list(EXTENTS.items()):
    for _t in _d.values():
        _w = _t.split()
        if _w[-1] not in ("*",) and _w[0] not in ("ref", "any", "obj"):
            for _x in re.findall(r"[A-Za-z_]\w*", _w[-1]):
                if len(_w) > 2:
                    COUNTS.add((_s, _x))
COUNTS |= {("KernelExpansion", "nkernels"), ("OrthPolyExpansion", "num_poly"), ("tensor", "dim")}
COUNTS -= {("FTparam", "nparams"), ("DblMemArray", "ndata"), ("DblMemArray", "one_data_size"), ("c3Opt", "maxiter")}
# the only kind of kernel has three parameters; a fiber cut is a cut of a function of two or more variables
FIXED = {("Kernel", "nparams"): 3, ("KernelApproxOpts", "nother_params"): 2, ("FiberCut", "totdim"): 2}
FLAGS = {("Fwrap", "ftype"), ("GenericFunction", "fc"), ("LinearTransform", "mt"), ("ProbabilityDensity", "transform")}
# objects that are used together and describe functions of the same number of variables
DIMS = {"FunctionTrain", "tt", "MultiApproxOpts", "C3Approx", "FTRegress", "RegressOpts", "FtCrossArgs", "OperatorForLaplace", "SLMemManager", "Data", "CrossValidate"}
# the work space of an optimizer, in multiples of the number of variables: {optimizer: (algorithm, multiple)}
WORK = {"c3_opt_damp_bfgs": (0, 4), "c3_opt_lbfgs": (1, 3), "c3_opt_gradient": (2, 2), "c3_opt_sgd": (4, 1)}
# arrays that hold sizes
SIZEARR = {("FunctionTrain", "ranks"), ("tt", "ranks"), ("tt", "nvals"), ("tensor", "nvals")}
STRUCTURAL = SIZEARR | {("FunctionTrain", "cores"), ("tt", "cores"), ("Qmarray", "funcs"), ("Quasimatrix", "funcs"), ("FTparam", "nparams_per_uni"), ("FTparam", "nparams_per_core"),
                        ("FT1DArray", "ft"), ("KernelExpansion", "kernels"), ("PiecewisePoly", "branches"), ("index_set", "indices")}


class Opaque(Exception):
    pass


def tysize(prog, ty):
    ty = ty.strip()
    if ty in ESZ:
        return ESZ[ty]
    m = re.match(r"^\[(\d+) x (.*)\]$", ty)
    if m:
        s = tysize(prog, m.group(2))
        return None if s is None else int(m.group(1)) * s
    if ty.startswith("%"):
        el = prog.structs.get(ty[1:])
    elif ty.startswith("{"):
        el = ir.split_top(ty[1:-1].strip())
    else:
        return None
    if el is None:
        return None
    off = 0
    big = 1
    for t in el:
        s, al = tysize(prog, t), talign(prog, t)
        if s is None:
            return None
        off = (off + al - 1) // al * al + s
        big = max(big, al)
    return (off + big - 1) // big * big


def talign(prog, ty):
    if ty in ESZ:
        return ESZ[ty]
    m = re.match(r"^\[(\d+) x (.*)\]$", ty)
    if m:
        return talign(prog, m.group(2))
    el = prog.structs.get(ty[1:]) if ty.startswith("%") else None
    return max([talign(prog, t) for t in el] or [1]) if el else 8


def offset(prog, p):
    """(base node, byte offset poly) of an element pointer, or None when a field step intervenes"""
    if p.kind != "ptr":
        return None
    b, st = p.a
    off = ZERO
    for s in st:
        if s[0] != "I":
            return None
        z = tysize(prog, s[2])
        if z is None:
            return None
        off = add(off, mul(s[1], C(z)))
    return b, off


# ------------------------------------------------------------------ facts and proof
def facts_of(guards, loops):
    """polys known to be >= 0"""
    out = []
    seen = set()

    def c(g):
        if g.kind == "and":
            for x in g.a:
                c(x)
        elif g.kind == "le0":
            put(neg(g.a[0]))
        elif g.kind == "eq0":
            put(g.a[0])
            put(neg(g.a[0]))
        elif g.kind == "not":
            if g.a[0].kind == "le0":
                put(add(g.a[0].a[0], C(-1)))
            elif g.a[0].kind == "eq0":
                p = g.a[0].a[0]
                d = dict(p.a)
                k = d.pop((), 0)
                # x != 0 with x a product of sizes: x >= 1
                if k == 0 and all(v > 0 for v in d.values()):
                    put(add(p, C(-1)))
                elif k == 0 and all(v < 0 for v in d.values()):
                    put(add(neg(p), C(-1)))
            elif g.a[0].kind == "or":
                for x in g.a[0].a:
                    c(Not(x))

    def put(p):
        if p not in seen and p.kind == "poly":
            seen.add(p)
            out.append(p)
    for g in guards:
        c(g)
    for k, t, ex in loops:
        if t is not None:
            kp = k if k.kind == "poly" else A(k)
            put(sub(sub(t, ONE), kp))
    return out


def nonneg(p):
    return all(c >= 0 for m, c in p.a)


def prove(d, facts, deg=2):
    """d >= 0 given facts >= 0 and all atoms >= 0"""
    if nonneg(d):
        return True
    rel = set()
    for m, c in d.a:
        rel.update(m)
    fs = []
    grow = True
    pool = list(facts)
    while grow:
        grow = False
        for f in list(pool):
            at = atoms_in(f)
            if at & rel:
                pool.remove(f)
                fs.append(f)
                if not at <= rel:
                    rel |= at
                    grow = True
    fs = fs[:10]
    gens = list(fs)
    mons = {m for m, c in d.a}
    dd = max(len(m) for m in mons) if mons else 0
    if dd > 1:
        ats = sorted(atoms_in(d), key=lambda n: n.id)[:8]
        for f in fs:
            fd = max((len(m) for m, c in f.a), default=0)
            for a in ats:
                if fd + 1 <= dd:
                    gens.append(mul(f, A(a)))
            if fd + 2 <= dd:
                for i, a in enumerate(ats):
                    for b in ats[i:]:
                        gens.append(mul(f, mul(A(a), A(b))))
        for i, f in enumerate(fs):
            for g in fs[i:]:
                if sum(max((len(m) for m, c in x.a), default=0) for x in (f, g)) <= max(dd, 2):
                    gens.append(mul(f, g))
    gens = [g for g in gens if g.kind == "poly" and g.a]
    gens = list(dict.fromkeys(gens))[:120]
    return farkas(d, gens)


def farkas(d, gens):
    """lambda >= 0 with d - sum lambda_i g_i having non-negative coefficients"""
    mons = {}
    for p in [d] + gens:
        for m, c in p.a:
            mons.setdefault(m, len(mons))
    nm_ = len(mons)
    # constraints: sum_i lambda_i g_i[m] + s_m = d[m], s >= 0, lambda >= 0
    rows = [[Fraction(0)] * (len(gens) + nm_ + 1) for _ in range(nm_)]
    for i, g in enumerate(gens):
        for m, c in g.a:
            rows[mons[m]][i] = Fraction(c)
    for r in range(nm_):
        rows[r][len(gens) + r] = Fraction(1)
    for m, c in d.a:
        rows[mons[m]][-1] = Fraction(c)
    return feasible(rows)


def feasible(rows):
    """rows: [A | s-identity | b]; x >= 0; dual-simplex style feasibility from the slack basis (Bland)"""
    nr = len(rows)
    nc = len(rows[0]) - 1
    basis = [nc - nr + r for r in range(nr)]
    for _ in range(400):
        r = None
        for i in range(nr):
            if rows[i][-1] < 0 and (r is None or basis[i] < basis[r]):
                r = i
        if r is None:
            return True
        c = None
        for j in range(nc):
            if rows[r][j] < 0:
                c = j
                break
        if c is None:
            return False
        p = rows[r][c]
        rows[r] = [x / p for x in rows[r]]
        pr = rows[r]
        for i in range(nr):
            if i != r and rows[i][c]:
                f = rows[i][c]
                rows[i] = [x - f * y if y else x for x, y in zip(rows[i], pr)]
        basis[r] = c
    return False


# ------------------------------------------------------------------ small models
class World:
    """values for sizes, consistent with the invariants of the library's objects"""

    def __init__(self, prog, rnd, hi=4):
        self.prog, self.rnd, self.hi = prog, rnd, hi
        self.v = {}
        self.memo = {}
        self.env = {}

    def fresh(self, key, lo=1):
        if key not in self.v:
            self.v[key] = self.rnd.randint(lo, self.hi)
        return self.v[key]

    def ptr(self, p):
        """canonical address: nested tuples"""
        if p.kind != "ptr":
            raise Opaque(p.kind)
        b, st = p.a
        k = b.kind
        if k in ("arg", "new", "glob"):
            r = (b,)
        elif k == "ld":
            r = ("*", self.ptr(b.a[0]))
        elif k == "ite":
            r = self.ptr(b.a[1] if self.cond(b.a[0]) else b.a[2])
        elif k == "ptr":
            r = self.ptr(b)
        else:
            raise Opaque(k)
        out = list(r)
        for s in st:
            if s[0] == "I":
                i = self.num(s[1])
                if i:
                    if out and isinstance(out[-1], tuple) and out[-1][0] == "I":
                        j = out.pop()[1] + i
                        if j:
                            out.append(("I", j))
                    else:
                        out.append(("I", i))
            else:
                out.append(("F", s[1], s[2]))
        return tuple(out)

    def ld(self, x):
        a = self.ptr(x.a[0])
        return self.cell(a)

    def fname(self, s):
        fs = self.prog.fields.get(s[1])
        if fs is None or s[2] >= len(fs):
            return None
        return s[1].replace("struct.", ""), fs[s[2]][0]

    def field(self, a, struct, name):
        """value of an integer field of the object at address a"""
        s = struct if struct in self.prog.fields else "struct." + struct
        names = [n for n, _ in self.prog.fields[s]]
        return self.cell(a + (("F", s, names.index(name)),))

    def sub(self, a, struct, name):
        s = struct if struct in self.prog.fields else "struct." + struct
        names = [n for n, _ in self.prog.fields[s]]
        return ("*", a + (("F", s, names.index(name)),))

    def cell(self, a):
        if a in self.v:
            return self.v[a]
        x = a
        while x[0] == "*":
            x = x[1]
        if x[0].kind == "new":
            raise Opaque("new")
        r = self.derive(a)
        if r is None:
            if not self.issize(a):
                raise Opaque("data")
            r = self.rnd.randint(1, self.hi)
        self.v[a] = r
        return r

    def issize(self, a):
        """does the cell hold a size (as opposed to data, an index or a flag)?"""
        last = a[-1]
        if isinstance(last, tuple) and last[0] == "F":
            return self.fname(last) in COUNTS or self.fname(last) in FLAGS
        arr = a[:-1] if isinstance(last, tuple) and last[0] == "I" else a
        if len(arr) == 2 and arr[0] == "*":
            loc = arr[1]
            if loc and isinstance(loc[-1], tuple) and loc[-1][0] == "F":
                return self.fname(loc[-1]) in SIZEARR
        return False

    def derive(self, a):
        last = a[-1]
        if isinstance(last, tuple) and last[0] == "F":
            f = self.fname(last)
            obj = a[:-1]
            if f is None:
                return None
            # object held in an array of a train
            if f in (("Qmarray", "nrows"), ("Qmarray", "ncols")):
                h = self.held(obj, "FunctionTrain", "cores")
                if h:
                    o, i = h
                    return self.rank(o, "FunctionTrain", i + (f[1] == "ncols"))
            if f in (("KernelExpansion", "nalloc"),):
                return self.field(obj, "KernelExpansion", "nkernels") + self.rnd.randint(0, 2)
            if f == ("OrthPolyExpansion", "nalloc"):
                return self.field(obj, "OrthPolyExpansion", "num_poly") + self.rnd.randint(0, 2)
            if f == ("FTparam", "dim"):
                return self.field(self.sub(obj, "FTparam", "ft"), "FunctionTrain", "dim")
            if f[1] == "dim" and f[0] in DIMS:
                # trains that are combined have the same dimension
                return self.fresh("dim", 2)
            if f == ("tensor", "dim"):
                return 3 if self.held(obj, "tt", "cores") else self.rnd.randint(3, self.hi)
            if f[1] == "num_nodes":
                return self.rnd.randint(2, self.hi)
            if f == ("LinearTransform", "dimout"):
                return self.field(obj, "LinearTransform", "dimin")
            if f == ("LinearTransform", "dimin"):
                # the transform of a density acts on the density's variables
                if len(obj) == 2 and obj[0] == "*" and isinstance(obj[1][-1], tuple) and obj[1][-1][0] == "F" and self.fname(obj[1][-1]) == ("ProbabilityDensity", "lt"):
                    return self.fresh("dim", 2)
            if f in FIXED:
                return FIXED[f] + self.rnd.randint(0, 1)
            return None
        i = last[1] if isinstance(last, tuple) and last[0] == "I" else 0
        arr = a[:-1] if i or (isinstance(last, tuple) and last[0] == "I") else a
        if arr and arr[0] == "*" and len(arr) == 2:
            loc = arr[1]
            if loc and isinstance(loc[-1], tuple) and loc[-1][0] == "F":
                f = self.fname(loc[-1])
                o = loc[:-1]
                if f == ("FunctionTrain", "ranks") or f == ("tt", "ranks"):
                    d = self.field(o, f[0], "dim")
                    if i == 0 or i == d:
                        return 1
                if f == ("tensor", "nvals"):
                    h = self.held(o, "tt", "cores")
                    if h:
                        t, k = h
                        if i == 1:
                            return self.cell(self.sub(t, "tt", "nvals") + ((("I", k),) if k else ()))
                        return self.rank(t, "tt", k + (i == 2))
        return None

    def rank(self, o, struct, i):
        return self.cell(self.sub(o, struct, "ranks") + ((("I", i),) if i else ()))

    def held(self, obj, struct, name):
        """obj = *(o->name + i): (o, i)"""
        if len(obj) == 2 and obj[0] == "*":
            loc = obj[1]
            i = 0
            if loc and isinstance(loc[-1], tuple) and loc[-1][0] == "I":
                i = loc[-1][1]
                loc = loc[:-1]
            if len(loc) == 2 and loc[0] == "*":
                q = loc[1]
                if q and isinstance(q[-1], tuple) and q[-1][0] == "F" and self.fname(q[-1]) == (struct, name):
                    return q[:-1], i
        return None

    # ---------------------------------------------------------------- values
    def num(self, n):
        if n in self.env:
            return self.env[n]
        k = n.kind
        if k == "poly":
            t = 0
            for m, c in n.a:
                p = c
                for x in m:
                    p *= self.num(x)
                t += p
            if isinstance(t, Fraction):
                if t.denominator != 1:
                    raise Opaque("fraction")
                t = int(t)
            return t
        if k == "arg":
            return self.fresh(n)
        if k == "ld":
            return self.ld(n)
        if k == "ite":
            return self.num(n.a[1] if self.cond(n.a[0]) else n.a[2])
        if k == "b2i":
            return int(self.cond(n.a[0]))
        if k == "op" and len(n.a) == 3:
            if n.a[0] == "mul":
                return self.num(n.a[1]) * self.num(n.a[2])
            r = fold_op(n.a[0], self.num(n.a[1]), self.num(n.a[2]))
            if r is None:
                raise Opaque("op")
            return r
        if k == "sum":
            t = self.num(n.a[0])
            if t > 60:
                raise Opaque("sum")
            d = max([x.a[0] for x in subnodes(n.a[1]) if x.kind == "sk"] + [0])
            # the summation index is the outermost one of the summand
            sk = N("sk", d)
            old = self.env.get(sk)
            tot = 0
            for i in range(max(t, 0)):
                self.env[sk] = i
                tot += self.num(n.a[1])
            if old is None:
                self.env.pop(sk, None)
            else:
                self.env[sk] = old
            return tot
        raise Opaque(k)

    def cond(self, c):
        k = c.kind
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "and":
            return all(self.cond(x) for x in c.a)
        if k == "or":
            return any(self.cond(x) for x in c.a)
        if k == "not":
            return not self.cond(c.a[0])
        if k == "le0":
            return self.num(c.a[0]) <= 0
        if k == "eq0":
            return self.num(c.a[0]) == 0
        if k == "peq":
            key = ("peq", self.ptr(c.a[0]) if c.a[0] is not NULL else 0, self.ptr(c.a[1]) if c.a[1] is not NULL else 0)
            if key not in self.v:
                self.v[key] = self.rnd.random() < 0.5
            return self.v[key]
        if k in ("flt", "fle", "feq"):
            # a comparison of data values can come out either way
            key = ("f", k, c.a[0], tuple(sorted(((x.id, v) for x, v in self.env.items()))))
            if key not in self.v:
                self.v[key] = self.rnd.random() < 0.5
            return self.v[key]
        if k == "bool":
            return self.num(c.a[0]) != 0
        raise Opaque(k)


def ld_(prog, obj, struct, name):
    names = [n for n, _ in prog.fields[struct]]
    return PTR(N("ld", addstep(obj, ("F", struct, names.index(name))), 0))


def kids(n):
    if n.kind == "poly":
        return [x for m, c in n.a for x in m]
    if n.kind == "ptr":
        return [n.a[0]] + [s[1] for s in n.a[1] if s[0] == "I"]
    return list(n.a)


def is_base(x, p):
    """is the argument only the base of addresses in p?"""
    for y in subnodes(p):
        if y.kind == "poly" and any(x in m for m, c in y.a):
            return False
        if y.kind in ("op", "ite", "sum") and x in y.a:
            return False
    return True


# documented preconditions
PRE = {
    # the variable is one of the dimensions
    "tt_x": lambda X: [le0(sub(add(A(N("arg", 1)), ONE), A(N("arg", 2))))],
    # not all of the dimensions are integrated out twice
    "function_train_integrate_weighted_subset": lambda X: [le0(sub(A(N("arg", 1)), X.of(0, "FunctionTrain", "dim")))],
    # at least as many rows as columns
    "maxvol_rhs": lambda X: [le0(sub(A(N("arg", 2)), A(N("arg", 1))))],
    # the nested coordinate is a double
    "cross_node_add_nested": lambda X: [eq0(sub(A(N("arg", 6)), C(8)))],
    # a grid has two nodes or more
    "compute_Lp": lambda X: [le0(sub(C(2), A(N("arg", 0))))],
    "const_elem_exp_inner_same": lambda X: [le0(sub(C(2), A(N("arg", 0))))],
    "lin_elem_exp_inner_same": lambda X: [le0(sub(C(2), A(N("arg", 0))))],
    # acts on a train built by function_train_linear, whose inner ranks are two
    "function_train_linear_update": lambda X: None,
    # acts on an expansion built by orth_poly_expansion_linear
    "orth_poly_expansion_linear_update": lambda X: None,
}


class Access:
    __slots__ = ("fn", "line", "ptr", "bytes", "loops", "guards", "exact", "what", "chain", "top", "kind", "hard")

    def text(self):
        return f"{self.what} in {self.fn}"


class Extents:
    """all accesses of a function, those of its callees through pointer parameters included"""

    def __init__(self, eng, prog, tries=150):
        self.eng, self.prog, self.tries = eng, prog, tries
        self.own = {}
        self.par = {}
        self.wr = {}
        self.memo = {}
        self.st = {}
        self.lits = None

    # ---- element stores through an object's arrays (closure over the calls)
    def writes_through(self, n, seen=None):
        if n in self.wr:
            return self.wr[n]
        top = seen is None
        seen = set() if seen is None else seen
        out, todo, done = set(), [n], set()
        while todo:
            x = todo.pop()
            if x in done or x not in self.eng.an:
                continue
            done.add(x)
            for e in self.eng.an[x].effects:
                if e.kind == "store" and e.loc is not None and e.loc.kind == "ptr":
                    b = e.loc.a[0]
                    if b.kind == "ld" and deep_root(b).kind != "new":
                        l = b.a[0]
                        if l.kind == "ptr" and l.a[1] and l.a[1][-1][0] == "F":
                            out.add(self.fld(l.a[1][-1]))
                elif e.kind == "call" and isinstance(e.callee, str):
                    todo.append(e.callee)
        self.wr[n] = out
        return out

    def fld(self, s):
        fs = self.prog.fields.get(s[1])
        return (s[1].replace("struct.", ""), fs[s[2]][0]) if fs and s[2] < len(fs) else None

    def strip(self, n, name):
        """loads of an object's structural arrays, which the function does not write, without their memory version"""
        if not isinstance(n, Node):
            return n
        w = self.writes_through(name)

        def f(x):
            if x.kind == "ld" and x.a[1] != 0:
                l = x.a[0]
                if l.kind == "ptr" and not (l.a[1] and l.a[1][-1][0] == "F"):
                    b = l.a[0]
                    if b.kind == "ld" and b.a[0].kind == "ptr" and b.a[0].a[1] and b.a[0].a[1][-1][0] == "F":
                        q = self.fld(b.a[0].a[1][-1])
                        if q in STRUCTURAL and q not in w and deep_root(b).kind in ("arg", "glob"):
                            y = subst(l, f, {})
                            return (A(N("ld", y, 0)) if False else N("ld", y, 0))
            return None
        return subst(n, f, {})

    def literal(self, p):
        """text of a string constant"""
        if p.kind != "ptr" or p.a[1] or p.a[0].kind != "glob":
            return None
        if self.lits is None:
            self.lits = {}
            for k, g in self.prog.globals.items():
                if isinstance(k, tuple) and g.get("const") and str(g.get("init", "")).startswith('c"'):
                    self.lits[k[0].split("/")[-1] + ":" + k[1]] = g["init"]
        return self.lits.get(p.a[0].a[0])

    def fold(self, g):
        """comparisons of string constants"""
        if g.kind == "not":
            return Not(self.fold(g.a[0]))
        if g.kind == "and":
            return And(*[self.fold(x) for x in g.a])
        if g.kind == "or":
            return Or(*[self.fold(x) for x in g.a])
        if g.kind == "eq0":
            x = atom_of(g.a[0])
            if x is not None and x.kind == "call" and x.a[0] == "strcmp":
                q = [self.literal(y) for y in x.a[1:] if isinstance(y, Node) and y.kind == "ptr"]
                if len(q) == 2 and None not in q:
                    return TRUE if q[0] == q[1] else FALSE
        return g

    def full_guards(self, an, e):
        cl = an.fa.closed
        gs = set()
        for g in an.facts.get(e.block, frozenset()):
            gs.add(cl(g))
        for g in block_guards(an, self.eng.cfg(an.fn.name), e):
            gs.add(cl(g))
        return frozenset(gs)

    # ---- the accesses
    def lead(self, p):
        """leading index steps of a pointer (into an array, possibly of structures)"""
        if p.kind != "ptr":
            return None
        b, st = p.a
        k = 0
        while k < len(st) and st[k][0] == "I":
            k += 1
        if k == len(st):
            return p, None
        if k == 0:
            return None
        z = tysize(self.prog, st[k - 1][2])
        return PTR(b, st[:k]), z

    def accesses(self, name):
        if name in self.own:
            return self.own[name]
        eng = self.eng
        an = eng.an[name]
        cfg = eng.cfg(name)
        cl = an.fa.closed
        out = []

        def mk(e, ptr, nb, what, kind="element", hard=True):
            a = Access()
            a.hard = hard
            a.fn, a.line, a.what, a.kind, a.chain, a.top = name, e.ins.line, what, kind, (), name
            a.ptr = self.strip(cl(ptr), name) if ptr is not None else None
            a.bytes = [self.strip(cl(x), name) for x in (nb if isinstance(nb, list) else [nb])]
            a.loops = tuple((an.loopinfo[h].k, self.strip(cl(an.loopinfo[h].trip), name) if an.loopinfo[h].trip is not None else None, an.loopinfo[h].exact) for h in e.loops)
            a.guards = frozenset(self.strip(g, name) for g in self.full_guards(an, e))
            out.append(a)
        for e in an.effects:
            if e.block not in cfg.live:
                continue
            if e.kind in ("store", "load") and e.loc is not None:
                r = self.lead(e.loc)
                if r is None:
                    continue
                p, z = r
                z = z if z is not None else tysize(self.prog, e.type)
                if z is None or (p.a[0].kind == "alloca" and not p.a[1]):
                    continue
                mk(e, p, C(z), "write" if e.kind == "store" else "read")
            elif e.kind == "call" and isinstance(e.callee, str):
                c = e.callee
                if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or c in ("memcpy", "memmove", "memset"):
                    for k in (0, 1):
                        if k == 1 and "memset" in c:
                            continue
                        p = e.args[k]
                        if p.kind == "ptr" and (not p.a[1] or p.a[1][-1][0] == "I") and p.a[0].kind != "alloca":
                            mk(e, p, topoly(e.args[2]), "copy to" if k == 0 else "copy from", "copy")
                else:
                    for ptr, nb, what, kind, hard in self.external(e, c):
                        if ptr is None or ptr.kind == "ptr" and ptr is not NULL:
                            mk(e, ptr, nb, what, kind, hard)
        self.own[name] = out
        return out

    def external(self, e, c):
        return blas.needs(e, c, lambda p: (self.literal(p) or "c\"?")[2:3]) if blas.known(c) else ()

    def params(self, name, depth=0):
        """accesses through array parameters, those of callees included"""
        if name in self.par:
            return self.par[name]
        self.par[name] = []
        out = []
        for a in self.accesses(name) + self.through_calls(name):
            if self.exported(a) and a.ptr is not None or self.status(name, a)[0] == "contract":
                out.append(a)
        # one representative per place and extent
        seen, keep = {}, []
        for a in sorted(out, key=lambda a: len(a.guards)):
            k = (a.ptr, tuple(a.bytes), a.loops)
            q = seen.get(k)
            if q is not None and any(b <= a.guards for b in q):
                continue
            seen.setdefault(k, []).append(a.guards)
            keep.append(a)
        self.par[name] = keep[:150]
        return self.par[name]

    def exported(self, a):
        if a.ptr is None:
            ats = [x for b in a.bytes for x in subnodes(b) if x.kind in ("arg", "ld", "phi", "x", "ret", "unk", "alloca", "new")]
            return bool(ats) and all(x.kind == "arg" for x in ats)
        b = a.ptr.a[0]
        if b.kind != "arg":
            return False
        if not a.ptr.a[1] and const_of(a.bytes[0]) is not None:
            return False
        return True

    def through_calls(self, name):
        if ("t", name) in self.memo:
            return self.memo[("t", name)]
        self.memo[("t", name)] = []
        eng = self.eng
        an = eng.an[name]
        cfg = eng.cfg(name)
        cl = an.fa.closed
        out = []
        for e in an.effects:
            if e.kind != "call" or not isinstance(e.callee, str) or e.callee not in eng.an or e.inst is None or e.block not in cfg.live or e.callee == name:
                continue
            ps = self.params(e.callee)
            if not ps:
                continue
            loops = tuple((an.loopinfo[h].k, self.strip(cl(an.loopinfo[h].trip), name) if an.loopinfo[h].trip is not None else None, an.loopinfo[h].exact) for h in e.loops)
            gs = frozenset(self.strip(g, name) for g in self.full_guards(an, e))
            memo = {}

            def ii(n):
                if n not in memo:
                    memo[n] = self.strip(cl(e.inst(n)), name)
                return memo[n]
            for a in ps:
                if len(a.chain) >= 3:
                    continue
                h = Access()
                h.fn, h.line, h.what, h.kind, h.top, h.hard = a.fn, a.line, a.what, a.kind, name, True
                h.chain = ((name, e.ins.line),) + a.chain
                h.ptr = ii(a.ptr) if a.ptr is not None else None
                if h.ptr is not None and h.ptr.kind != "ptr":
                    h.ptr = PTR(h.ptr)
                h.bytes = [ii(b) for b in a.bytes]
                h.loops = loops + tuple((ii(k), ii(t) if t is not None else None, x) for k, t, x in a.loops)
                h.guards = gs | frozenset(self.fold(ii(g)) for g in a.guards)
                if any(g is FALSE for g in h.guards):
                    continue
                # a leading dimension handed through as a parameter stays the caller's business
                h.hard = a.hard or len({x for b in h.bytes for x in subnodes(b) if x.kind == "arg" and not is_base(x, b)}) <= 1
                out.append(h)
        self.memo[("t", name)] = out
        return out

    # ---- objects as they are handed out
    def established(self, name):
        """the arrays of the objects a function returns or changes, against the extents the objects record at exit"""
        eng, prog = self.eng, self.prog
        an = eng.an[name]
        f = prog.functions[name]
        objs = []
        if an.ret is not None and isinstance(an.ret, Node) and an.ret.kind == "ptr" and f.rtype is not None and f.rtype.kind == "ptr":
            s = str(f.rtype.to).replace("const ", "").replace("struct ", "").strip()
            for b in ptr_alts(an.ret):
                if b.kind == "new":
                    objs.append(("struct." + s, PTR(b), None))
        for k, t in enumerate(f.ptypes):
            if t is None or t.kind != "ptr" or t.to is None or t.to.kind == "ptr":
                continue
            s = "struct." + str(t.to).replace("const ", "").replace("struct ", "").strip()
            touched = {e.loc.a[1][0][2] for e in an.effects if e.kind == "store" and e.loc is not None and e.loc.kind == "ptr" and e.loc.a[0].kind == "arg" and e.loc.a[0].a[0] == k
                       and len(e.loc.a[1]) == 1 and e.loc.a[1][0][:2] == ("F", s)}
            if touched:
                objs.append((s, PTR(N("arg", k)), touched))
        out = []
        cl = an.fa.closed
        for s, obj, touched in objs:
            if s not in prog.fields:
                continue
            names = [n for n, _ in prog.fields[s]]
            for fld in names:
                sh = shape(s, fld)
                if (s, fld) == ("struct.c3Opt", "workspace"):
                    self.workspaces(name, an, obj, out)
                    continue
                if sh is None or sh[0] not in ("own", "objs", "arrs") or sh[2] in (None, "*"):
                    continue
                z = SHZ.get(sh[1]) if sh[0] == "own" else 8
                used = [x for x in re.findall(r"[A-Za-z_]\w*", sh[2])]
                if z is None or any(u not in names for u in used):
                    continue
                if touched is not None and not touched & {names.index(u) for u in used + [fld]}:
                    continue
                try:
                    v = exit_load(an, fieldptr(prog, obj, s, fld), "ptr")
                    n = extent(prog, sh[2], obj, s, lambda q: exit_load(an, fieldptr(prog, obj, s, q), irtype(prog, s, q)))
                except (ValueError, KeyError, AttributeError):
                    continue
                if v is None or v is NULL or n is None:
                    continue
                v, n = self.strip(cl(v), name), self.strip(cl(n), name)
                if v.kind != "ptr":
                    continue
                a = Access()
                a.hard, a.fn, a.line, a.what, a.kind, a.chain, a.top = True, name, f.line or 0, f"{fld} of the {s[7:]} handed out", "object", (), name
                a.ptr, a.bytes, a.loops = v, [mul(C(z), n)], ()
                a.guards = frozenset(self.strip(cl(g), name) for g in an.retfacts)
                out.append(a)
        return out

    def workspaces(self, name, an, obj, out):
        """the work space of an optimizer object suffices for its algorithm"""
        prog, cl, s = self.prog, an.fa.closed, "struct.c3Opt"
        alg = exit_load(an, fieldptr(prog, obj, s, "alg"), "i32")
        if not isinstance(alg, Node):
            return
        for k, mult in sorted(set(WORK.values())):
            g = eq0(sub(topoly(alg), C(k)))
            if g is FALSE:
                continue
            v = exit_load(an, fieldptr(prog, obj, s, "workspace"), "ptr", [g] if g is not TRUE else [])
            d = exit_load(an, fieldptr(prog, obj, s, "d"), "i64")
            if v is None or v is NULL or v.kind != "ptr" or v.a[0].kind == "ld":
                continue
            a = Access()
            a.hard, a.fn, a.line, a.what, a.kind, a.chain, a.top = True, name, prog.functions[name].line or 0, f"work space of the optimizer with algorithm {k}", "object", (), name
            a.ptr, a.bytes, a.loops = self.strip(cl(v), name), [mul(C(8 * mult), self.strip(cl(topoly(d)), name))], ()
            a.guards = frozenset(self.strip(cl(x), name) for x in an.retfacts) | {cl(g)}
            out.append(a)

    # ---- storage
    def capacity(self, name, b):
        """bytes of the storage at a base, as a poly in the function's terms; None when it is not known"""
        an = self.eng.an[name]
        k = b.kind
        if k == "arg":
            t = PARAMS.get(name, {}).get(b.a[0])
            if t is None:
                return None
            z = 8
            if t[1] == ":":
                z, t = {"z": 16, "c": 1}[t[0]], t[2:]
            f = self.prog.functions[name]
            try:
                return mul(C(z), topoly(Expr(self.prog, f, [f"a{i}" for i in range(len(f.params))]).ev(t)))
            except (KeyError, IndexError, AttributeError, TypeError):
                return None
        if k == "new":
            ni = an.news.get(b)
            if ni is None or ni.size is None:
                return None
            return self.strip(an.fa.closed(ni.size), name)
        if k == "alloca":
            for blk in an.fn.blocks.values():
                for i in blk.instrs:
                    if i.op == "alloca" and i.dest == b.a[-1]:
                        z = tysize(self.prog, i.type if i.type != "ptr" else str(i.extra))
                        return C(z) if z and not i.ops else None
            return None
        if k == "glob":
            g = None
            for key in self.prog.globals:
                if key == b.a[0] or isinstance(key, tuple) and key[0].split("/")[-1] + ":" + key[1] == b.a[0]:
                    g = self.prog.globals[key]
                    break
            t = g.get("type") if g is not None else None
            z = tysize(self.prog, t) if isinstance(t, str) and t != "ptr" else None
            return C(z) if z else None
        if k == "ld":
            l = b.a[0]
            if l.kind != "ptr" or not l.a[1] or l.a[1][-1][0] != "F":
                return None
            q = self.fld(l.a[1][-1])
            if q is None or b.a[1] != 0:
                return None
            sh = shape(*q)
            if q == ("c3Opt", "workspace") and name in WORK:
                sh = ("own", "d", f"{WORK[name][1]}*d")
            if sh is None or sh[0] not in ("own", "objs", "arrs") or sh[2] in (None, "*"):
                return None
            if sh[0] == "own":
                z = SHZ.get(sh[1])
            else:
                z = 8
            if z is None:
                return None
            struct = l.a[1][-1][1]
            obj = PTR(l.a[0], l.a[1][:-1])
            names = [n for n, _ in self.prog.fields[struct]]

            def ld(fn):
                return N("ld", addstep(obj, ("F", struct, names.index(fn))), 0)
            try:
                p = extent(self.prog, sh[2], obj, struct, ld)
            except ValueError:
                return None
            return mul(C(z), p) if p is not None else None
        return None

    # ---- decision
    def sizes(self, polys):
        """sizes are at least one"""
        out = []
        seen = set()
        for p in polys:
            for x in subnodes(p):
                if x in seen:
                    continue
                seen.add(x)
                if x.kind == "ld" and x.a[0].kind == "ptr" and x.a[0].a[1] and x.a[0].a[1][-1][0] == "F":
                    q = self.fld(x.a[0].a[1][-1])
                    if q in COUNTS:
                        out.append(sub(A(x), C(2 if q[1] == "dim" and q[0] in DIMS or q[1] == "num_nodes" else FIXED.get(q, 1))))
                        if q[1] == "nalloc" and x.a[1] == 0:
                            st = x.a[0].a[1][-1]
                            obj = PTR(x.a[0].a[0], x.a[0].a[1][:-1])
                            out.append(sub(A(x), A(ld_(self.prog, obj, st[1], {"KernelExpansion": "nkernels", "OrthPolyExpansion": "num_poly"}[q[0]]).a[0])))
                elif x.kind == "ld" and x.a[0].kind == "ptr" and x.a[0].a[0].kind == "ld":
                    l = x.a[0].a[0].a[0]
                    if l.kind == "ptr" and l.a[1] and l.a[1][-1][0] == "F" and self.fld(l.a[1][-1]) in SIZEARR:
                        out.append(sub(A(x), C(1)))
                elif x.kind == "arg":
                    out.append(sub(A(x), C(1)))
        # the number of terms or kernels in use does not exceed the number allocated
        return out

    def invariants(self, p, name):
        """rewrite cores[k]->nrows to ranks[k] and the like"""
        prog = self.prog

        def f(x):
            if x.kind != "ld" or x.a[0].kind != "ptr":
                return None
            l = x.a[0]
            if not (len(l.a[1]) == 1 and l.a[1][0][0] == "F"):
                return None
            q = self.fld(l.a[1][0])
            if q in (("Qmarray", "nrows"), ("Qmarray", "ncols")) and x.a[1] == 0:
                b = l.a[0]
                if b.kind == "ld" and b.a[1] == 0 and b.a[0].kind == "ptr" and b.a[0].a[0].kind == "ld":
                    arr = b.a[0]
                    h = arr.a[0].a[0]
                    if h.kind == "ptr" and h.a[1] and h.a[1][-1][0] == "F" and self.fld(h.a[1][-1]) == ("FunctionTrain", "cores"):
                        i = ZERO
                        for s in arr.a[1]:
                            if s[0] != "I":
                                return None
                            i = add(i, s[1])
                        struct = h.a[1][-1][1]
                        names = [n for n, _ in prog.fields[struct]]
                        obj = PTR(h.a[0], h.a[1][:-1])
                        r = N("ld", addstep(obj, ("F", struct, names.index("ranks"))), 0)
                        if q[1] == "ncols":
                            i = add(i, ONE)
                        return N("ld", addstep(PTR(r), ("I", subst(i, f, {}), "i64")), 0)
            return None
        return subst(p, f, {})

    def status(self, name, a):
        if a not in self.st:
            self.st[a] = self.decide(name, a, self.pre(name))
        return self.st[a]

    def pre(self, name):
        return PRE[name](self) if name in PRE else ()

    def of(self, i, struct, name):
        s = "struct." + struct
        return A(ld_(self.prog, PTR(N("arg", i)), s, name).a[0])

    def decide(self, name, a, pre=()):
        """(status, detail): ok / bad / unknown"""
        if pre is None:
            return "unknown", "precondition on the structure of the argument"
        if a.ptr is not None:
            o = offset(self.prog, a.ptr)
            if o is None:
                return "unknown", "address"
            b, off = o
            if b.kind == "ite":
                return self.decide_ite(name, a, b, pre)
            if b.kind == "null" or b.kind == "arg" and b.a[0] not in PARAMS.get(name, {}):
                return "param", ""
            cap = self.capacity(name, b)
            if cap is None:
                return "unknown", "storage of unknown extent (" + b.kind + ")"
            ds = [sub(sub(cap, off), x) for x in a.bytes]
        else:
            off = None
            ds = list(a.bytes)
        inv = lambda n: self.invariants(n, name)
        ds = [inv(d) for d in ds]
        guards = [inv(g) for g in a.guards] + [inv(g) for g in pre]
        loops = [(k, inv(t) if t is not None else None, x) for k, t, x in a.loops]
        fs = facts_of(guards, loops)
        hi = any(self.proves(d, fs) for d in ds)
        lo = off is None or self.proves(inv(off), fs)
        if hi and lo:
            return "ok", ""
        if not hi and self.always(ds, fs, loops, guards) and (a.ptr is not None or a.hard):
            return "bad", World(self.prog, random.Random(7))
        w = self.witness(name, ds if not hi else None, inv(off) if off is not None and not lo else None, guards, loops)
        if isinstance(w, World):
            if a.ptr is not None and not self.definite(a, b, cap, off):
                return "contract", w
            if a.ptr is None and not self.definite_req(a):
                return "contract", w
            return "bad", w
        return "unknown", w

    def always(self, ds, fs, loops, guards):
        """too small by a constant in the last pass (in the first, for loops that may end early), whatever the sizes are"""
        m, use = {}, set()
        for k, t, ex in loops:
            m[atom_of(k) if k.kind == "poly" else k] = sub(t, C(1)) if ex and t is not None else ZERO
        # conditions on the counters must hold in that pass
        while True:
            need = {k for k in m if any(contains(d, lambda x: x is k) for d in ds) or any(j is not k and j in use and contains(m[j], lambda x: x is k) for j in m)}
            if need == use:
                break
            use = need
        m = {k: v for k, v in m.items() if k in use}
        if any(contains(g, lambda x: x in m) and subst(g, lambda x: m.get(x), {}) is not TRUE for g in guards):
            return False
        for _ in range(len(m) + 1):
            ds = [topoly(subst(d, lambda x: m.get(x), {})) for d in ds]
        cs = [const_of(d) for d in ds]
        return bool(cs) and all(c is not None and c < 0 for c in cs) and not self.proves(C(-1), fs)

    # ---- whose sizes an access depends on
    def owner(self, l):
        """the object whose description contains the cell at l"""
        prog = self.prog
        while True:
            if l.kind != "ptr":
                return ("?", l)
            b, st = l.a
            # an element of an array of an object, or a field of the object at l
            if st and st[-1][0] == "F":
                obj = PTR(b, st[:-1])
                q = self.fld(st[-1])
                if q and q[0] in DIMS and q[1] == "dim":
                    return ("dim",)
                if q and q[0] == "FTparam":
                    return ("obj", "FunctionTrain", ld_(prog, obj, st[-1][1], "ft"))
                up = self.holder(obj)
                if up is not None:
                    l = up
                    continue
                return ("obj", q[0] if q else None, obj)
            if b.kind == "ld" and all(s[0] == "I" for s in st):
                l = b.a[0]
                continue
            return ("?", l)

    def holder(self, obj):
        """obj is a core of a train: the train's field"""
        if obj.kind == "ptr" and not obj.a[1] and obj.a[0].kind == "ld":
            l = obj.a[0].a[0]
            if l.kind == "ptr" and l.a[0].kind == "ld" and all(s[0] == "I" for s in l.a[1]):
                h = l.a[0].a[0]
                if h.kind == "ptr" and h.a[1] and h.a[1][-1][0] == "F" and self.fld(h.a[1][-1]) in (("FunctionTrain", "cores"), ("tt", "cores")):
                    return h
        return None

    def owners(self, polys, loops):
        """({owner}, {int args}) of the sizes the polys depend on, loop ranges included"""
        own, args = set(), set()
        seen, todo = set(), list(polys)
        ks = {(atom_of(k) if k.kind == "poly" else k): t for k, t, x in loops}
        while todo:
            n = todo.pop()
            if n in seen or not isinstance(n, Node):
                continue
            seen.add(n)
            if n.kind == "arg":
                args.add(n)
                continue
            if n.kind == "ld":
                own.add(self.owner(n.a[0]))
                # the indices inside the address count as well
                l = n.a[0]
                while l.kind == "ptr":
                    for s in l.a[1]:
                        if s[0] == "I":
                            todo.append(s[1])
                    if l.a[0].kind != "ld":
                        break
                    l = l.a[0].a[0]
                continue
            if n in ks:
                if ks[n] is not None:
                    todo.append(ks[n])
                continue
            todo.extend(x for x in kids(n) if isinstance(x, Node))
        return own, args

    def definite(self, a, b, cap, off):
        """is the relation between storage and access one the function itself is responsible for?"""
        loops = a.loops
        cap, off = self.invariants(cap, None), self.invariants(off, None)
        lp = [(k, self.invariants(t, None) if t is not None else None, x) for k, t, x in loops]
        own, args = self.owners([cap, off] + list(a.bytes), lp)
        own.discard(("dim",))
        if any(o[0] == "?" for o in own):
            return False
        if b.kind == "ld":
            o = self.owner(b.a[0])
            if o == ("dim",):
                return not own and not args
            return not args and own <= {o}
        if b.kind in ("alloca", "glob"):
            return not args and not own
        if b.kind == "arg":
            o1, a1 = self.owners([cap], [])
            return own <= o1 and args <= a1
        if b.kind == "new":
            direct = {x for x in subnodes(off) if x.kind == "arg" and not is_base(x, off)} - set(subnodes(cap))
            if direct & args:
                return False
            if args and own:
                return False
            if len(own) > 1 and not all(o[1] in ("FunctionTrain", "tt") for o in own):
                return False
            return True
        return False

    def definite_req(self, a):
        """a requirement between sizes: is it the function's own business?"""
        if not a.hard:
            return False
        own, args = self.owners([self.invariants(b, None) for b in a.bytes], [(k, self.invariants(t, None) if t is not None else None, x) for k, t, x in a.loops])
        own.discard(("dim",))
        if any(o[0] == "?" for o in own) or args and own:
            return False
        return len(own) <= 1 or all(o[1] in ("FunctionTrain", "tt") for o in own)

    def decide_ite(self, name, a, b, pre):
        c, x, y = b.a
        out = []
        for br, g in ((x, c), (y, Not(c))):
            if br is NULL or g is FALSE:
                continue
            if br.kind != "ptr":
                return "unknown", "address"
            h = Access()
            for s in Access.__slots__:
                if s != "exact":
                    setattr(h, s, getattr(a, s))
            h.ptr = rebase(br, a.ptr.a[1])
            h.guards = a.guards | {g}
            out.append(self.decide(name, h, pre))
        for s in ("bad", "contract", "unknown", "param"):
            for r in out:
                if r[0] == s:
                    return r
        return ("ok", "") if out else ("unknown", "null")

    def proves(self, d, fs, depth=0):
        if d.kind != "poly":
            return False
        its = [x for x in atoms_in(d) if x.kind == "ite"]
        if its and depth < 3:
            x = its[0]
            res = True
            for v, g in ((x.a[1], x.a[0]), (x.a[2], Not(x.a[0]))):
                d2 = subst(d, lambda n: v if n is x else None, {})
                if not self.proves(d2, fs + facts_of([g], []), depth + 1):
                    res = False
                    break
            return res
        fs = fs + self.sizes([d] + fs)
        fs = tighten(fs)
        return prove(d, fs)

    def free_guards(self, ds, off, guards, loops):
        """guards on data that have nothing to do with the sizes of the access: either way is possible"""
        used = set()
        for p in (ds or []) + ([off] if off is not None else []) + [t for k, t, x in loops]:
            used.update(x for x in subnodes(p) if x.kind in ("ld", "arg", "phi", "x", "ret", "call", "unk"))
        out = set()
        for g in guards:
            W = World(self.prog, random.Random(3))
            for k, t, x in loops:
                W.env[atom_of(k) if k.kind == "poly" else k] = 0
            try:
                W.cond(g)
                if any(x.kind in ("flt", "fle", "feq") for x in subnodes(g)):
                    raise Opaque("data")
            except Opaque:
                for x in subnodes(g):
                    if x.kind in ("ld", "arg", "phi", "x", "ret", "call", "unk") and x in used and x.kind != "arg":
                        return None
                    if x.kind == "arg" and x in used and not is_base(x, g):
                        return None
                    if x.kind == "ld" and x.a[1] != 0 and self.counts(x):
                        return None
                    if x.kind in ("phi", "x", "cut"):
                        return None
                out.add(g)
        if out and And(*out) is FALSE:
            return None
        return out

    def counts(self, x):
        l = x.a[0]
        if l.kind != "ptr":
            return True
        if l.a[1] and l.a[1][-1][0] == "F":
            return self.fld(l.a[1][-1]) in COUNTS
        return l.a[0].kind == "ld" and self.counts_arr(l.a[0])

    def counts_arr(self, b):
        l = b.a[0]
        return l.kind == "ptr" and bool(l.a[1]) and l.a[1][-1][0] == "F" and self.fld(l.a[1][-1]) in SIZEARR

    def witness(self, name, ds, off, guards, loops):
        if any(not ex or t is None for k, t, ex in loops):
            return "loop of unknown length"
        # a parameter used as an index is the caller's responsibility
        pos = set()
        free = self.free_guards(ds, off, guards, loops)
        if free is None:
            return "value not known (data)"
        rnd = random.Random(7)
        tried = 0
        for _ in range(self.tries):
            W = World(self.prog, rnd)
            try:
                ok = True
                for k, t, ex in loops:
                    T = W.num(t)
                    if T <= 0:
                        ok = False
                        break
                    ka = atom_of(k) if k.kind == "poly" else k
                    W.env[ka] = rnd.randrange(T) if rnd.random() < .4 else T - 1
                if not ok or not all(W.cond(g) for g in guards if g not in free):
                    continue
                tried += 1
                if ds is not None and all(W.num(d) < 0 for d in ds) or off is not None and W.num(off) < 0:
                    return W
            except Opaque as e:
                return f"value not known ({e})"
        return "no proof" if tried else "not reached in small models"


def tighten(fs):
    """x - c >= 0 together with x != c gives x - c - 1 >= 0 (the != facts come as pairs of nothing: left to facts_of)"""
    return fs


def describe(W):
    """the extents of a counterexample"""
    out = []
    for k, v in W.v.items():
        if isinstance(v, bool) or isinstance(k, tuple) and k and k[0] in ("peq", "f"):
            continue
        out.append(f"{name_of(W, k)}={v}")
    for k, v in W.env.items():
        out.append(f"{show(k)}={v}")
    return ", ".join(out[:14])


def name_of(W, k):
    if isinstance(k, Node):
        return show(k)
    if isinstance(k, str):
        return k
    s = ""
    for x in k:
        if x == "*":
            continue
        if isinstance(x, Node):
            s += show(x)
        elif isinstance(x, tuple) and x and x[0] == "F":
            f = W.fname(x)
            s += "->" + (f[1] if f else str(x[2]))
        elif isinstance(x, tuple) and x and x[0] == "I":
            s += f"[{x[1]}]"
        elif isinstance(x, tuple):
            s += name_of(W, x)
    return s


def report(ctx, res, kinds):
    """all accesses of the given kinds, decided"""
    import collections
    eng, prog = ctx.full(), ctx.prog
    X = Extents(eng, prog, 150 if ctx.tier == "quick" else 2000)
    done = set()
    why = collections.Counter()
    bad = {}
    for n in sorted(eng.an):
        f = prog.functions[n]
        for via, lst in (("", X.accesses(n)), ("call", X.through_calls(n)), ("exit", X.established(n) if "object" in kinds else ())):
            for a in lst:
                if a.kind not in kinds:
                    continue
                s, d = X.status(n, a)
                if s == "ok":
                    res.ok(f"{n}:{a.line if not a.chain else a.chain[0][1]} {a.text()} stays inside" if a.ptr is not None else f"{n}:{a.line} {a.what} is sufficient")
                elif s == "bad":
                    key = f"{n}:{a.what}" + (f":{a.fn}" if a.fn != n else "") + ":" + base_name(a)
                    if key not in bad:
                        bad[key] = True
                        line = a.chain[0][1] if a.chain else a.line
                        if a.ptr is not None:
                            t = f"{a.what} at {show(a.ptr)[:120]} in {a.fn} leaves its storage of {show(X.capacity(n, a.ptr.a[0]) or ZERO)[:80]} bytes, for example when {describe(d)}"
                        else:
                            t = f"{a.what} in {a.fn} is too small, for example when {describe(d)}"
                        res.bad(key, t, f.where(line), [f"{x} line {l}" for x, l in a.chain])
                else:
                    why[(s, d if isinstance(d, str) else "depends on the caller")] += 1
    for (s, d), c in sorted(why.items()):
        res.skip({"param": "accesses through array parameters without a documented extent", "contract": "relations between sizes of different arguments"}.get(s, "accesses"), f"{d or 'left to the call sites'} ({c})")
    res.stats["undecided_accesses"] = sum(why.values())
    return X


def base_name(a):
    if a.ptr is None:
        return ""
    b = a.ptr.a[0]
    if b.kind == "new":
        return "new"
    s = show(b)
    return re.sub(r"\[[^\]]*\]", "[]", s)[:60]
