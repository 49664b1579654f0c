"""Writers and readers of objects as sequences of items.

A writer's (reader's) items are its calls of item functions, taken from the dataflow summary with loops,
guards and closed-form operands; nested objects are items of their own whose size is an uninterpreted
function of the object.  The closed forms are laid out at small extents; what the reader leaves in each
field is compared with what the writer took from it."""
from .sym import *
from .util import *
from .maps import Model, Unresolved, inst, cint
from .contract import baseline_functions
from . import sym


class Item:
    __slots__ = ("no", "kind", "pos", "end", "vals", "dests", "line", "fn", "src")

    def __repr__(self):
        return f"{self.kind}@{self.line}"


class Mem(Model):
    """model whose loads see the items and stores replayed so far"""

    def __init__(self, prog, fixed=(), ints=True):
        super().__init__()
        self.prog, self.ints = prog, ints
        self.hist = {}
        self.fixed = dict(fixed)
        self.auto = {}
        self.env = {}
        self.clock, self.marks = 0, {}

    def get(self, x, default=None):
        r = self.env.get(x)
        if r is not None:
            return r
        r = self.d.get(x)
        if r is not None:
            return r
        if x.kind == "ld":
            loc = inst(x.a[0], self)
            h = self.hist.get(norm(loc))
            if h:
                tags = set()
                flat_tags(x.a[1], tags)
                ts = [self.marks[t] for t in tags if t in self.marks]
                if ts:
                    for t, v in reversed(h):
                        if t <= max(ts):
                            return v
                    return default
                return h[-1][1]
        if x.kind == "x" and len(x.a) == 2 and isinstance(x.a[1], Node):
            y = x.a[1]
            while y.kind == "x" and len(y.a) == 2 and isinstance(y.a[1], Node):
                y = y.a[1]
            if y.kind == "ldx":
                h = self.hist.get(norm(inst(y.a[0], self)))
                if h:
                    return h[-1][1]
        return default

    def put(self, loc, v, tag=None):
        self.clock += 1
        self.hist.setdefault(norm(loc), []).append((self.clock, v))
        if tag is not None:
            self.marks[tag] = self.clock

    def mark(self, tag):
        """memory as it is now is what loads tagged so see"""
        self.marks[tag] = self.clock

    def cur(self, loc):
        h = self.hist.get(norm(loc))
        return h[-1][1] if h else None

    def rule(self, x):
        r = self.d.get(x)
        if r is not None:
            return r
        loc = x.a[0]
        if contains(loc, lambda y: y.kind in ("k", "sk", "J", "Jt")):
            return None
        if loc.kind != "ptr" or not loc.a[1] or loc.a[1][-1][0] != "F":
            return None
        st = loc.a[1][-1]
        fs = self.prog.fields.get(st[1])
        if fs is None or st[2] >= len(fs):
            return None
        name, ct = fs[st[2]]
        key = st[1].replace("struct.", "") + "." + name
        if key in self.fixed:
            return self.fixed[key]
        if not self.ints or deep_root(loc.a[0]).kind != "arg":
            return None
        el = self.prog.structs.get(st[1])
        if el is None or el[st[2]] not in ("i64", "i32"):
            return None
        loc = norm(loc)
        if loc not in self.auto:
            self.auto[loc] = 2 + len(self.auto)
        return C(self.auto[loc])


def flat_tags(v, out):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] in ("c", "s", "l"):
            out.add(v)
            return
        for x in v:
            flat_tags(x, out)


def norm(loc):
    """location without a trailing [0]"""
    if loc.kind == "ptr" and loc.a[1] and loc.a[1][-1][0] == "I" and not loc.a[1][-1][1].a:
        return PTR(loc.a[0], loc.a[1][:-1])
    return loc


def stride(p):
    return p


def offset(p):
    """(base, byte offset poly) of a byte pointer"""
    if p.kind != "ptr":
        return None, None
    off = ZERO
    b, st = p.a
    while True:
        for s in st:
            if s[0] != "I":
                return None, None
            off = add(off, mul(s[1], C({"i8": 1, "i32": 4, "i64": 8, "double": 8, "ptr": 8}.get(s[2], 1))))
        if b.kind == "ptr":
            b, st = b.a
            continue
        return b, off


def iterate(effs, m, depth=0):
    """effects in execution order at the extents of m; m.env holds the loop counters"""
    i = 0
    while i < len(effs):
        f = effs[i]
        if len(f.loops) <= depth:
            i += 1
            g = inst(And(*f.guards), m) if f.guards else TRUE
            if g is FALSE:
                continue
            if g is not TRUE:
                raise Unresolved(f"line {f.line}: condition {show(g)[:90]}")
            yield f
            continue
        k = f.loops[depth][0]
        j = i
        while j < len(effs) and len(effs[j].loops) > depth and effs[j].loops[depth][0] is k:
            j += 1
        ka = atom_of(k) if k.kind == "poly" else k
        # a loop under a condition that fails is not entered
        com = frozenset.intersection(*[frozenset(e.guards) for e in effs[i:j]])
        dead = any(inst(c, m) is FALSE for c in com if not contains(c, lambda y: y is ka))
        if not dead:
            t, ex = f.loops[depth][1], f.loops[depth][2]
            if ka is None or t is None or not ex:
                raise Unresolved(f"line {f.line}: loop of unknown length")
            n = cint(inst(t, m))
            if n is None or n > 200:
                raise Unresolved(f"line {f.line}: loop length {show(inst(t, m))[:60]}")
            for v in range(max(n, 0)):
                m.env[ka] = C(v)
                if ka.kind == "k":
                    m.mark(("l",) + tuple(ka.a))
                yield from iterate(effs[i:j], m, depth + 1)
            m.env.pop(ka, None)
            if ka.kind == "k":
                m.mark(("l",) + tuple(ka.a))
        i = j


def engine(prog, nested_w, nested_r, prims=True):
    """engine in which nested writers and readers are opaque items"""
    eng = sym.Engine(prog)

    def wr(kind):
        def f(fa, st, ins, args, tag):
            size = A(N("call", "$size_" + kind, args[1]))
            if len(args) > 2 and args[2] is not NULL:
                if args[2].kind == "ptr":
                    fa.store(st, args[2], size, "i64", tag)
                return args[0]
            return addstep(args[0], ("I", size, "i8"))
        return f

    def kill(fa, st, loc, tag):
        if loc.kind == "ptr":
            r = deep_root(loc.a[0])
            for ty in ("ptr", "i64", "i32", "double"):
                fa.killcall(st, r, klass(loc, ty), tag)

    def rd(kind):
        def f(fa, st, ins, args, tag):
            kill(fa, st, args[1], tag)
            return addstep(args[0], ("I", A(N("call", "$size_" + kind, args[1])), "i8"))
        return f

    def prim(n):
        def f(fa, st, ins, args, tag):
            kill(fa, st, args[1], tag)
            return addstep(args[0], ("I", C(n), "i8"))
        return f

    def dp(fa, st, ins, args, tag):
        kill(fa, st, args[1], tag)
        kill(fa, st, args[2], tag)
        n = fa.load(st, args[2], "i64")
        return addstep(args[0], ("I", add(C(8), mul(C(8), n)), "i8"))
    for k, fn in nested_w.items():
        eng.intercept[fn] = wr(k)
    for k, fn in nested_r.items():
        eng.intercept[fn] = rd(k)
    if prims:
        eng.intercept.update(deserialize_int=prim(4), deserialize_size_t=prim(8), deserialize_double=prim(8), deserialize_doublep=dp)
    return eng


def inliner(items, prog):
    base = baseline_functions()

    def f(c):
        if c in items:
            return False
        fn = prog.functions.get(c)
        if fn is None:
            return False
        return c not in base or "alloc" in c or "create" in c or c.startswith("init_") or c in ("deserialize_orth_poly",)
    return f
