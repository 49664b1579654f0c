"""Access maps: which element of a destination array receives which value, for all loop counters.

The map is read off the dataflow summary of a routine (stores with closed-form indices, values, loop
extents and guards; helpers expanded).  Two maps are compared by instantiating their closed forms at
small extents: equal everywhere => the routine places its data as the contract says; different at an
extent admitted by the routine's own preconditions => that extent is the witness."""
import itertools, math, zlib
from .sym import *
from .util import *
from .contract import Expr, strip, baseline_functions, COPYLIKE, ACC, I

BIG = 4000


class Unresolved(Exception):
    pass


class Model:
    """values of the atoms at small extents: explicit ones, and by field for whole families of objects"""

    def __init__(self, d=(), rules=(), alias=None):
        self.d, self.rules, self.alias = dict(d), rules, alias or {}

    def get(self, x, default=None):
        return self.d.get(x, default)

    def rule(self, x):
        """x: an instantiated load"""
        r = self.d.get(x)
        if r is None and not contains(x, lambda y: y.kind in ("k", "sk", "J", "Jt")):
            for f in self.rules:
                r = f(x)
                if r is not None:
                    return r
        return r

    def items(self):
        return self.d.items()

    def __contains__(self, x):
        return x in self.d


def ext(m, d):
    if isinstance(m, Model):
        n = Model(m.d, m.rules, m.alias)
        n.d.update(d)
        return n
    n = dict(m)
    n.update(d)
    return n


def fold_op(o, a, b):
    if o in ("udiv", "sdiv") and b:
        return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    if o in ("urem", "srem") and b:
        return a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
    if o == "shl":
        return a << b
    if o in ("lshr", "ashr"):
        return a >> b
    if o == "and":
        return a & b
    if o == "or":
        return a | b
    if o == "xor":
        return a ^ b
    if o == "ceildiv" and b:
        return -((-a) // b)
    return None


def inst(n, m, null=True):
    """instantiate: atoms of m replaced by constants, foldable parts folded, memory versions dropped"""
    if not isinstance(n, Node):
        return n
    memo = {}

    def f(x):
        r = m.get(x)
        if r is not None:
            return r
        if x.kind == "ld":
            y = N("ld", go(x.a[0]), 0)
            r = m.rule(y) if isinstance(m, Model) else m.get(y)
            return r if r is not None else y
        if x.kind == "op" and len(x.a) == 3:
            a, b = go(x.a[1]), go(x.a[2])
            ca, cb = cint(a), cint(b)
            if ca is not None and cb is not None:
                r = fold_op(x.a[0], ca, cb)
                if r is not None:
                    return C(r)
            return N("op", x.a[0], topoly(a), topoly(b))
        if x.kind == "sum":
            t = go(x.a[0])
            c = cint(t)
            if c is not None and c <= 64:
                sks = [y for y in subnodes(x.a[1]) if y.kind == "sk"]
                top = max(sks, key=lambda y: y.a[0]) if sks else None
                s = ZERO
                for v in range(c):
                    body = x.a[1]
                    if top is not None:
                        body = subst(body, lambda y: C(v) if y is top else None, {})
                    s = add(s, topoly(go(body)))
                return s
            return None
        if x.kind == "peq" and null:
            a, b = go(x.a[0]), go(x.a[1])
            for p, q in ((a, b), (b, a)):
                if q is NULL and p.kind == "ptr" and deep_root(p.a[0]).kind in ("arg", "new"):
                    return TRUE if p is NULL else FALSE
        return None

    def go(x):
        return subst(x, f, memo) if isinstance(x, Node) else x
    r = go(n)
    return r


def cint(n):
    c = const_of(n) if isinstance(n, Node) and n.kind == "poly" else None
    return c if isinstance(c, int) else (int(c) if c is not None and c == int(c) else None)


ZEROFN = {"generic_function_zero"}
COMM = {"generic_function_prod", "generic_function_inner", "generic_function_inner_weighted"}


class Summary1:
    """effects of one routine with unknown helpers and accessors expanded"""
    allow_new = False

    def __init__(self, eng, name, inline=(), noinline=()):
        self.eng, self.name = eng, name
        base = baseline_functions()
        self.an = eng.an[name]
        self.effs = flat(eng, name, inline=lambda c: c not in noinline and (c in inline or c in ACC or c not in base), depth=4, kinds=("store", "call", "ret"))
        self.calls = {}
        for f in self.effs:
            if f.kind == "call" and isinstance(f.ret, Node):
                self.calls.setdefault(f.ret, f)
                for b in ptr_alts(f.ret) if f.ret.kind == "ptr" else ():
                    if b.kind in ("new", "ret"):
                        self.calls.setdefault(b, f)
        self.ret = self.an.fa.closed(self.an.ret) if self.an.ret is not None else None

    def facts(self):
        return self.an.retfacts

    def call_of(self, v):
        f = self.calls.get(v)
        if f is None and v.kind == "ptr" and not v.a[1]:
            alts = [b for b in ptr_alts(v) if b.kind != "null"]
            fs = {id(self.calls[b]): self.calls[b] for b in alts if b in self.calls}
            if len(fs) == 1 and all(b in self.calls for b in alts):
                f = list(fs.values())[0]
        if f is None and v.kind == "poly":
            a = atom_of(v)
            if a is not None and a in self.calls:
                f = self.calls[a]
        return f

    def value(self, v):
        """[op, args...]"""
        f = self.call_of(v)
        if f is not None:
            return callvalue(f.callee, f.args)
        if v.kind == "ptr":
            return ["copy", v]
        return ["val", v]

    def may(self, b, b0):
        """could a store through b (not syntactically the destination) reach the destination?"""
        r, r0 = deep_root(b.a[0]), deep_root(b0.a[0])
        if r.kind in ("alloca", "glob", "null") or (r.kind == "arg" and r0.kind == "new") or (r.kind == "new" and r0.kind == "arg"):
            return False
        if not unclear(b):
            return False
        if r is r0 and r.kind == "new" and b0.a[0].kind == "new" and b.kind == "ptr" and b.a[0].kind == "ld":
            return False        # storage pointed to by an element, not the array itself
        return r is STAR or r is r0

    def pick(self, v, m):
        """the branch of a conditional value taken under m, unchanged otherwise"""
        while True:
            a = v.a[0] if v.kind == "ptr" and not v.a[1] else (atom_of(v) if v.kind == "poly" else None)
            if a is None or a.kind != "ite":
                return v
            c = inst(a.a[0], m)
            if c is TRUE:
                v = a.a[1]
            elif c is FALSE:
                v = a.a[2]
            else:
                return v

    def resolved(self, v, m):
        """value under the instantiation m, calls recognised"""
        if self.call_of(v) is None:
            v = self.pick(v, m)
        out = canonval(self.value(v), m)
        if not self.allow_new and out[0] == "copy" and out[1].kind == "ptr" and contains(out[1], lambda x: x.kind == "new"):
            raise Unresolved(f"value {show(out[1])[:80]}")
        return out

    def records(self, base, whole=None):
        """stores into the array at base -> ([(idx, value list, loops, guards, line)], writes not understood)"""
        recs, why = [], []
        b0 = strip(base)
        for f in self.effs:
            if f.kind == "store":
                b, idx, elt = strip_last_index(f.loc)
                if strip(b) is not b0:
                    if self.may(b, b0):
                        why.append(f"line {f.line}: write to {show(f.loc)[:60]}")
                    continue
                recs.append((idx, f.val, f.loops, f.guards, f.line, f.fn))
            elif f.kind == "call":
                c = f.callee if isinstance(f.callee, str) else None
                if c and (c.startswith("llvm.memcpy") or c.startswith("llvm.memmove") or c in ("memcpy", "memmove")):
                    if f.args[0].kind != "ptr":
                        continue
                    b, idx, elt = strip_last_index(f.args[0])
                    if strip(b) is not b0:
                        continue
                    n = topoly(f.args[2])
                    k = N("k", "memcpy", f.ins.idx, f.fn)
                    src = f.args[1]
                    cnt = A(N("op", "udiv", n, C(8)))
                    if all(c % 8 == 0 for _, c in n.a):
                        cnt = P({m: c // 8 for m, c in n.a})
                    e = elt or (src.a[1][-1][2] if src.kind == "ptr" and src.a[1] and src.a[1][-1][0] == "I" else "double")
                    v = A(N("ld", addstep(src, ("I", A(k), e)), 0))
                    recs.append((add(idx, A(k)), v, f.loops + [(k, cnt, True)], f.guards, f.line, f.fn))
                elif c and ("memset" in c):
                    if f.args[0].kind == "ptr" and strip(strip_last_index(f.args[0])[0]) is b0:
                        why.append(f"line {f.line}: memset")
                elif c in ("free", "calloc_double", "malloc", "calloc"):
                    continue
                else:
                    for ai, a in enumerate(f.args or ()):
                        if isinstance(a, Node) and a.kind == "ptr" and strip(strip_last_index(a)[0]) is b0 and writes_arg(self.eng, c, ai):
                            why.append(f"line {f.line}: filled by {c or 'a callback'}")
        return recs, why


def writes_arg(eng, callee, ai):
    """may the callee write the array passed as argument ai (first level)?"""
    if callee is None:
        return True
    s = eng.sum.get(callee)
    if s is None:
        from .sym import EXTW
        w = EXTW.get(callee)
        return True if w is None else ai in w
    for root, cl in s.mods or ():
        if root.kind == "star" or cl == "ALL":
            return True
        if root.kind == "arg" and root.a[0] == ai and cl[0] == "E":
            return True
    return False


def callvalue(callee, args):
    c = callee if isinstance(callee, str) else ("*", callee[1])
    args = list(args)
    if c in COPYLIKE:
        return ["copy", args[COPYLIKE[c]]]
    if c == "generic_function_daxpby" and args[0] is ZERO and args[2] is ZERO:
        return ["zero"]
    if c == "generic_function_constant" and args[0] is ZERO:
        return ["zero"]
    if c in ZEROFN:
        return ["zero"]
    return [c] + args


def canonval(v, m):
    out = []
    for x in v:
        if isinstance(x, Node):
            out.append(inst(x, m))
        elif isinstance(x, tuple) and len(x) == 2 and x[0] == "*":
            out.append(("*", inst(x[1], m)))
        else:
            out.append(x)
    if out[0] in COMM and len(out) == 3:
        out[1:] = sorted(out[1:], key=lambda n: n.id)
    return tuple(out)


def unclear(n):
    return isinstance(n, Node) and contains(n, lambda x: x.kind in ("x", "cut", "big", "phi", "rphi", "unk", "kx", "k", "sk", "uninit"))


def unroll(S, recs, m):
    """-> {index: (value, line, fn)} at the extents m; raises Unresolved"""
    out = {}
    for no, (idx, val, loops, guards, line, fn) in enumerate(recs):
        for env in iterations(loops, m, line):
            mm = ext(m, env)
            g = inst(And(*guards), mm) if guards else TRUE
            if g is FALSE:
                continue
            if g is not TRUE:
                raise Unresolved(f"line {line}: condition {show(g)[:80]}")
            i = cint(inst(idx, mm))
            if i is None:
                raise Unresolved(f"line {line}: index {show(inst(idx, mm))[:80]}")
            v = S.resolved(val, mm)
            if i in out and out[i][0] != v:
                if out[i][3] != no and loops and recs[out[i][3]][2] and loops[0][0] is recs[out[i][3]][2][0][0]:
                    raise Unresolved(f"line {line}: element {i} written twice inside one loop")
            out[i] = (v, line, fn, no, val, mm)
            if len(out) > BIG:
                raise Unresolved("too many elements")
    return out


def iterations(loops, m, line):
    if not loops:
        yield {}
        return
    (k, t, ex), rest = loops[0], loops[1:]
    ka = atom_of(k) if k.kind == "poly" else k
    if ka is None or t is None or not ex:
        raise Unresolved(f"line {line}: loop of unknown length")
    n = cint(inst(t, m))
    if n is None:
        raise Unresolved(f"line {line}: loop length {show(inst(t, m))[:60]}")
    if n > 500:
        raise Unresolved("too many iterations")
    for v in range(max(n, 0)):
        mm = ext(m, {ka: C(v)})
        for e in iterations(rest, mm, line):
            e2 = {ka: C(v)}
            e2.update(e)
            yield e2


def assignments(sizes, facts, pre=(), vals=(2, 3, 1), limit=100):
    """assignments of small extents to the size atoms that violate no fact"""
    n = 0
    for combo in sorted(itertools.product(range(len(vals)), repeat=len(sizes)), key=lambda c: (len(set(c)) == 1, sum(c))):
        m = {a: C(vals[i]) for a, i in zip(sizes, combo)}
        if any(inst(f, m) is FALSE for f in facts):
            continue
        if any(cint(inst(p, m)) not in (0, None) for p in pre):
            continue
        n += 1
        if n > limit:
            return
        yield m


def describe(m, names):
    al = getattr(m, "alias", {})
    return ", ".join(f"{al.get(a) or show(a, names)}={show(v)}" for a, v in m.items())


def showval(v, names):
    def s(x):
        return show(x, names) if isinstance(x, Node) else (("*" + show(x[1], names)) if isinstance(x, tuple) else str(x))
    if v[0] in ("copy", "val"):
        return s(v[1])
    return f"{s(v[0])}({', '.join(s(x) for x in v[1:])})"


# ---- identity of real-valued closed forms ---------------------------------------------------
FUNS = {"exp": math.exp, "sqrt": lambda x: math.sqrt(abs(x)), "fabs": abs, "log": lambda x: math.log(abs(x) + 1e-300), "sin": math.sin, "cos": math.cos,
        "tan": math.tan, "atan": math.atan, "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh, "floor": math.floor, "ceil": math.ceil,
        "llvm.fabs.f64": abs, "llvm.exp.f64": math.exp}


def numeric(n, seed, memo=None):
    """value of a closed form when its atoms take pseudo-random values (identity test for real expressions)"""
    memo = {} if memo is None else memo

    def h(x):
        u = zlib.crc32((str(seed) + show(x)).encode())
        return 0.37 + (u % 100003) / 61013.7

    def go(x):
        if not isinstance(x, Node):
            return x
        r = memo.get(x)
        if r is None:
            r = memo[x] = ev(x)
        return r

    def ev(x):
        k = x.kind
        if k == "poly":
            s = 0.0
            for m, c in x.a:
                t = float(c)
                for y in m:
                    t *= go(y)
                s += t
            return s
        if k == "inv":
            d = go(x.a[0])
            return 1.0 / d if d else 1e300
        if k == "call" and x.a[0] in FUNS and len(x.a) == 2:
            return float(FUNS[x.a[0]](go(x.a[1])))
        if k == "call" and x.a[0] == "pow" and len(x.a) == 3:
            return abs(go(x.a[1])) ** go(x.a[2])
        if k == "call" and x.a[0] in ("fmax", "fmin", "llvm.maxnum.f64", "llvm.minnum.f64"):
            return (max if "max" in x.a[0] else min)(go(x.a[1]), go(x.a[2]))
        if k == "ite":
            return go(x.a[1]) if truthy(x.a[0]) else go(x.a[2])
        if k == "b2i":
            return 1.0 if truthy(x.a[0]) else 0.0
        return h(strip(x))

    def truthy(c):
        k = c.kind
        if c is TRUE or c is FALSE:
            return c is TRUE
        if k in ("le0", "fle"):
            return go(c.a[0]) <= 0
        if k == "flt":
            return go(c.a[0]) < 0
        if k in ("eq0", "feq"):
            return go(c.a[0]) == 0
        if k == "not":
            return not truthy(c.a[0])
        if k == "and":
            return all(truthy(y) for y in c.a)
        if k == "or":
            return any(truthy(y) for y in c.a)
        return h(c) < 1.0
    return go(n)


def sameval(a, b):
    """equal as values: same closed form, or equal real functions of their atoms"""
    if a is b or a == b:
        return True
    if not (isinstance(a, Node) and isinstance(b, Node)) or a.kind != "poly" or b.kind != "poly":
        return False
    try:
        for seed in (1, 2, 3, 4):
            x, y = numeric(a, seed), numeric(b, seed)
            if not abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)):
                return False
        return True
    except (OverflowError, ValueError, ZeroDivisionError):
        return False
