"""Symbolic value numbering over the SSA form.

One forward pass per function in reverse post order.  Every SSA value gets a
hash-consed expression (polynomials over atoms; pointers as base + access path).
Memory is value-numbered per access path; stores invalidate may-aliasing paths of
the same field / element class; calls apply the callee's summary (what it returns,
writes, allocates).  Control-flow joins merge values (gated where the branch
condition is known); loops are summarised by their induction variables.  No path
enumeration, no solver, nothing is executed.
"""
import re, struct, sys
from fractions import Fraction
from . import ir

# ------------------------------------------------------------------ hash-consed nodes


class Node:
    __slots__ = ("kind", "a", "id", "w", "fl")

    def __repr__(self):
        return show(self)


FL_K, FL_LOCAL, FL_LD, FL_ARG, FL_NEW, FL_X = 1, 2, 4, 8, 16, 32
FLAGS = {"k": FL_K | FL_LOCAL, "alloca": FL_LOCAL, "phi": FL_LOCAL, "unk": FL_LOCAL, "x": FL_LOCAL | FL_X, "kx": FL_LOCAL, "ret": FL_LOCAL,
         "rphi": FL_LOCAL, "sum": FL_X, "ld": FL_LD, "arg": FL_ARG, "new": FL_NEW, "uninit": FL_X, "cut": FL_X, "big": FL_X,
         "J": FL_X, "Jc": FL_X, "Jt": FL_X, "Jm": FL_X, "sk": FL_X}


_T = {}
_cnt = [0]
MAXW = 400


def N(kind, *a):
    k = (kind, a)
    n = _T.get(k)
    if n is None:
        n = Node()
        n.kind = kind
        n.a = a
        n.id = _cnt[0]
        _cnt[0] += 1
        w = 1
        fl = FLAGS.get(kind, 0)
        st = list(a)
        while st:
            x = st.pop()
            if x.__class__ is Node:
                w += x.w
                fl |= x.fl
            elif x.__class__ is tuple:
                st.extend(x)
        n.w = w
        n.fl = fl
        _T[k] = n
    return n


# ------------------------------------------------------------------ polynomials
def P(terms):
    """dict mono->coef  -> node"""
    it = [(m, c) for m, c in terms.items() if c != 0]
    if len(it) > 40:
        it.sort(key=lambda t: [x.id for x in t[0]])
        return P({(N("big", tuple(it)),): 1})
    it.sort(key=lambda t: [x.id for x in t[0]])
    n = N("poly", *it)
    if n.w > MAXW:
        return N("poly", ((N("cut", n.id),), 1))
    return n


def C(v):
    if v == 0:
        return N("poly")
    return N("poly", ((), v))


ZERO = C(0)
ONE = C(1)


def A(atom):
    """poly made of one atom"""
    return N("poly", ((atom,), 1))


def is_poly(n):
    return n.kind == "poly"


def const_of(n):
    if n.kind != "poly":
        return None
    if not n.a:
        return 0
    if len(n.a) == 1 and n.a[0][0] == ():
        return n.a[0][1]
    return None


def atom_of(n):
    """single atom of a poly, or None"""
    if n.kind == "poly" and len(n.a) == 1 and n.a[0][1] == 1 and len(n.a[0][0]) == 1:
        return n.a[0][0][0]
    return None


def topoly(n):
    if n.kind == "poly":
        return n
    if n.kind in COND:
        return b2i(n)
    return A(n)


def add(a, b, s=1):
    a, b = topoly(a), topoly(b)
    if not b.a:
        return a
    d = dict(a.a)
    for m, c in b.a:
        d[m] = d.get(m, 0) + s * c
    return P(d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    a, b = topoly(a), topoly(b)
    if not a.a or not b.a:
        return ZERO
    if len(a.a) * len(b.a) > 120:
        x, y = sorted((a, b), key=lambda n: n.id)
        return A(N("op", "mul", x, y))
    d = {}
    for m1, c1 in a.a:
        for m2, c2 in b.a:
            m = tuple(sorted(m1 + m2, key=lambda n: n.id))
            d[m] = d.get(m, 0) + c1 * c2
    return P(d)


def neg(a):
    return mul(C(-1), a)


def atoms_in(n, out=None):
    """all top-level atoms of a poly"""
    s = set()
    for m, c in n.a:
        s.update(m)
    return s


# ------------------------------------------------------------------ conditions
COND = {"true", "false", "le0", "eq0", "flt", "fle", "feq", "peq", "not", "and", "or", "bool"}
TRUE = N("true")
FALSE = N("false")
UNDEF = N("undef")


def b2i(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    return A(N("b2i", c))


def Not(c):
    k = c.kind
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if k == "not":
        return c.a[0]
    if k == "le0":
        return le0(sub(ONE, c.a[0]))
    if k == "flt":
        return cond_f("fle", neg(c.a[0]))
    if k == "fle":
        return cond_f("flt", neg(c.a[0]))
    if k == "and":
        return Or(*[Not(x) for x in c.a])
    if k == "or":
        return And(*[Not(x) for x in c.a])
    return N("not", c)


def And(*cs):
    s = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.kind == "and":
            s += list(c.a)
        else:
            s.append(c)
    s = sorted(set(s), key=lambda n: n.id)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return N("and", *s)


def Or(*cs):
    s = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.kind == "or":
            s += list(c.a)
        else:
            s.append(c)
    s = sorted(set(s), key=lambda n: n.id)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return N("or", *s)


def le0(p):
    c = const_of(p)
    if c is not None:
        return TRUE if c <= 0 else FALSE
    # single boolean atom:  1 - b <= 0  <=> b
    if len(p.a) <= 2:
        d = dict(p.a)
        k = d.pop((), 0)
        if len(d) == 1:
            (m, co), = d.items()
            if len(m) == 1 and m[0].kind == "b2i":
                if co == -1 and k == 1:
                    return m[0].a[0]
                if co == 1 and k == 0:
                    return Not(m[0].a[0])
            if len(m) == 1 and m[0].kind == "ite":
                r = _fold(le0, m[0], co, k)
                if r is not None:
                    return r
    return N("le0", p)


def _fold(f, it, co, k):
    """comparison of a conditional with a constant, when a branch decides it"""
    c, a, b = it.a
    if a.kind != "poly" or b.kind != "poly":
        return None
    x = f(add(mul(C(co), a), C(k)))
    y = f(add(mul(C(co), b), C(k)))
    if x in (TRUE, FALSE) or y in (TRUE, FALSE) or (_constleaves(a) and _constleaves(b)):
        return ite(c, x, y)
    return None


def _constleaves(p, depth=0):
    if depth > 8 or p.kind != "poly":
        return False
    if const_of(p) is not None:
        return True
    x = atom_of(p)
    return x is not None and x.kind == "ite" and _constleaves(x.a[1], depth + 1) and _constleaves(x.a[2], depth + 1)


def eq0(p):
    c = const_of(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    if p.a[-1][1] < 0 if p.a[0][0] == () else p.a[0][1] < 0:
        p = neg(p)
    d = dict(p.a)
    k = d.pop((), 0)
    if len(d) == 1:
        (m, co), = d.items()
        if len(m) == 1 and m[0].kind == "b2i" and co == 1:
            if k == 0:
                return Not(m[0].a[0])
            if k == -1:
                return m[0].a[0]
            return FALSE
        if len(m) == 1 and m[0].kind == "ite":
            r = _fold(eq0, m[0], co, k)
            if r is not None:
                return r
    if len(p.a) == 1 and abs(p.a[0][1]) != 1 and len(p.a[0][0]) >= 1:
        p = P({p.a[0][0]: 1})
    return N("eq0", p)


def cond_f(k, p):
    c = const_of(p)
    if c is not None:
        r = {"flt": c < 0, "fle": c <= 0, "feq": c == 0}[k]
        return TRUE if r else FALSE
    if k == "feq":
        if (p.a[-1][1] if p.a[0][0] == () else p.a[0][1]) < 0:
            p = neg(p)
    return N(k, p)


def truth(v):
    """value -> condition (v != 0)"""
    if v.kind in COND:
        return v
    if v.kind == "poly":
        return Not(eq0(v))
    return N("bool", v)


# ------------------------------------------------------------------ pointers
def PTR(base, steps=()):
    return N("ptr", base, tuple(steps))


NULLB = N("null")
NULL = PTR(NULLB)


def is_null(v):
    return v is NULL


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.kind == "not":
        c, a, b = c.a[0], b, a
    if a.kind in COND and b.kind in COND:
        if a is TRUE:
            return Or(c, b)
        if b is FALSE:
            return And(c, a)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        return Or(And(c, a), And(Not(c), b))
    # canonical polarity
    nc = Not(c)
    if nc.id < c.id:
        c, a, b = nc, b, a
    if c.w + a.w + b.w > MAXW:
        n = N("cut", "ite", c.id, a.id, b.id)
    else:
        n = N("ite", c, a, b)
    if a.kind == "ptr" or b.kind == "ptr":
        return PTR(n)
    if a.kind == "poly" or b.kind == "poly":
        return A(n)
    return n


def peq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if y is NULL:
            if x.kind == "ptr" and (x.a[0].kind in ("new", "alloca", "glob") or x.a[1]):
                return FALSE
            if x.kind == "ptr" and x.a[0].kind == "ite" and not x.a[1]:
                c, t, e = x.a[0].a
                ct, ce = peq(t, NULL), peq(e, NULL)
                return ite(c, ct, ce)
    if a.kind == "ptr" and b.kind == "ptr":
        ka, kb = a.a[0].kind, b.a[0].kind
        if ka in ("new", "alloca") and kb in ("new", "alloca", "arg", "glob") and a.a[0] is not b.a[0]:
            return FALSE
        if kb in ("new", "alloca") and ka in ("new", "alloca", "arg", "glob") and a.a[0] is not b.a[0]:
            return FALSE
    x, y = sorted((a, b), key=lambda n: n.id)
    return N("peq", x, y)


def addstep(p, step):
    """extend a pointer by a step"""
    if p.kind != "ptr":
        p = PTR(p)
    base, st = p.a
    if step[0] == "I":
        if not step[1].a:
            return p
        if st and st[-1][0] == "I":
            if st[-1][2] == step[2]:
                s = add(st[-1][1], step[1])
                if not s.a:
                    return PTR(base, st[:-1])
                return PTR(base, st[:-1] + (("I", s, step[2]),))
    if len(st) > 7:
        return PTR(N("cut", p.id, step))
    return PTR(base, st + (step,))


def klass(loc, ty):
    st = loc.a[1]
    if st and st[-1][0] == "F":
        return ("F", st[-1][1], st[-1][2])
    return ("E", ty)


def deep_root(b):
    """b: base node -> the root node it hangs off (arg/new/alloca/glob) or STAR"""
    k = b.kind
    if k in ("arg", "new", "alloca", "glob", "null"):
        return b
    if k == "ld":
        return deep_root(b.a[0].a[0])
    if k == "ite":
        x = [y for y in (b.a[1], b.a[2]) if y.kind == "ptr" and y is not NULL]
        rs = {deep_root(y.a[0]) for y in x}
        if len(rs) == 1:
            return rs.pop()
        return STAR
    if k == "rphi":
        return b.a[-1]
    return STAR


STAR = N("star")


# ------------------------------------------------------------------ substitution
def subst(n, f, memo, mask=0xff):
    """rebuild node bottom-up; f(node) may return a replacement (not recursed) or None"""
    if not n.fl & mask:
        return n
    r = memo.get(n)
    if r is not None:
        return r
    r = f(n)
    if r is None:
        k = n.kind
        if k == "poly":
            r = ZERO
            acc = {}
            simple = True
            parts = []
            for m, c in n.a:
                ms = [subst(x, f, memo, mask) for x in m]
                if simple and all(x is y for x, y in zip(ms, m)):
                    acc[m] = acc.get(m, 0) + c
                else:
                    t = C(c)
                    for x in ms:
                        t = mul(t, x if x.kind == "poly" else topoly(x))
                    parts.append(t)
            r = P(acc)
            for t in parts:
                r = add(r, t)
        elif k == "ptr":
            b = subst(n.a[0], f, memo, mask)
            if b.kind == "ptr":
                p = b
            elif b.kind == "poly":
                p = PTR(b)
            else:
                p = PTR(b)
            for s in n.a[1]:
                if s[0] == "I":
                    ix = subst(s[1], f, memo, mask)
                    p = addstep(p, ("I", ix if ix.kind == "poly" else topoly(ix), s[2]))
                else:
                    p = addstep(p, s)
            r = p
        elif k == "ite":
            r = ite(subst(n.a[0], f, memo, mask), subst(n.a[1], f, memo, mask), subst(n.a[2], f, memo, mask))
        elif k == "le0":
            x = subst(n.a[0], f, memo, mask)
            r = le0(x)
        elif k == "eq0":
            r = eq0(subst(n.a[0], f, memo, mask))
        elif k in ("flt", "fle", "feq"):
            r = cond_f(k, subst(n.a[0], f, memo, mask))
        elif k == "peq":
            x, y = subst(n.a[0], f, memo, mask), subst(n.a[1], f, memo, mask)
            if x.kind != "ptr":
                x = PTR(x)
            if y.kind != "ptr":
                y = PTR(y)
            r = peq(x, y)
        elif k == "not":
            r = Not(subst(n.a[0], f, memo, mask))
        elif k == "and":
            r = And(*[subst(x, f, memo, mask) for x in n.a])
        elif k == "or":
            r = Or(*[subst(x, f, memo, mask) for x in n.a])
        elif k == "b2i":
            r = b2i(subst(n.a[0], f, memo, mask))
            # b2i yields poly; return atom form
        elif k == "bool":
            r = truth(subst(n.a[0], f, memo, mask))
        else:
            na = tuple(_ss(x, f, memo, mask) for x in n.a)
            r = n if all(x is y for x, y in zip(na, n.a)) else N(k, *na)
    memo[n] = r
    return r


def _ss(x, f, memo, mask):
    if isinstance(x, Node):
        return subst(x, f, memo, mask)
    if isinstance(x, tuple):
        t = tuple(_ss(y, f, memo, mask) for y in x)
        return x if all(p is q for p, q in zip(t, x)) else t
    return x


def contains(n, pred, memo=None):
    """does any sub-node satisfy pred"""
    if memo is None:
        memo = set()
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Node) or x in memo:
            continue
        memo.add(x)
        if pred(x):
            return True
        st.extend(x.a)
    return False


def subnodes(n):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Node) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.a)


# ------------------------------------------------------------------ printing
_prog = [None]


def show(n, names=None):
    if isinstance(n, tuple):
        return "(" + ",".join(show(x, names) for x in n) + ")"
    if not isinstance(n, Node):
        return str(n)
    k = n.kind
    if k == "poly":
        if not n.a:
            return "0"
        out = []
        for m, c in n.a:
            s = "*".join(sorted(show(x, names) for x in m))
            if not m:
                s = fstr(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = fstr(c) + "*" + s
            out.append(s)
        out.sort()
        return "+".join(out).replace("+-", "-")
    if k == "ptr":
        s = show(n.a[0], names)
        for st in n.a[1]:
            if st[0] == "F":
                f = _prog[0].fieldname(st[1], st[2]) if _prog[0] else str(st[2])
                s += "->" + f
            else:
                s += "[" + show(st[1], names) + "]"
        return s
    if k == "arg":
        if names and n.a[0] < len(names):
            return names[n.a[0]]
        return f"a{n.a[0]}"
    if k == "ld":
        v = "" if n.a[1] == 0 else "'"
        return show(n.a[0], names) + v
    if k == "null":
        return "NULL"
    if k == "k":
        return f"k:{n.a[1]}"
    if k == "kx":
        return f"K:{n.a[1]}"
    if k == "new":
        return "new" + ".".join(str(x) for x in n.a[0])
    if k == "ite":
        return "(" + show(n.a[0], names) + "?" + show(n.a[1], names) + ":" + show(n.a[2], names) + ")"
    if k == "le0":
        return "(" + show(n.a[0], names) + "<=0)"
    if k == "eq0":
        return "(" + show(n.a[0], names) + "==0)"
    if k == "flt":
        return "(" + show(n.a[0], names) + "<0.)"
    if k == "fle":
        return "(" + show(n.a[0], names) + "<=0.)"
    if k == "peq":
        return "(" + "==".join(sorted((show(n.a[0], names), show(n.a[1], names)))) + ")"
    if k == "not":
        return "!" + show(n.a[0], names)
    if k in ("and", "or"):
        return "(" + (" && " if k == "and" else " || ").join(sorted(show(x, names) for x in n.a)) + ")"
    if k == "b2i":
        return show(n.a[0], names)
    if k == "call":
        return n.a[0] + "(" + ",".join(show(x, names) for x in n.a[1:]) + ")"
    if k == "glob":
        return "&" + n.a[0]
    if k == "alloca":
        return "&" + n.a[1]
    return k + "(" + ",".join(show(x, names) for x in n.a) + ")"


def fstr(c):
    if isinstance(c, Fraction):
        if c.denominator == 1:
            return str(c.numerator)
        return repr(float(c))
    return str(c)


# ------------------------------------------------------------------ CFG utilities
class CFG:
    def __init__(self, fn):
        self.fn = fn
        b = fn.blocks
        # blocks that can reach a ret
        live = set()
        st = [l for l, x in b.items() if x.term.op == "ret"]
        while st:
            x = st.pop()
            if x in live:
                continue
            live.add(x)
            st.extend(b[x].preds)
        self.live = live
        # infinite loops w/o return: treat as live everything reachable then
        order, seen = [], set()
        stack = [(fn.entry, iter(b[fn.entry].succs))]
        seen.add(fn.entry)
        while stack:
            l, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(b[s].succs)))
                    break
            else:
                order.append(l)
                stack.pop()
        self.rpo = order[::-1]
        self.num = {l: i for i, l in enumerate(self.rpo)}
        self.idom = self._dom()
        self._loops()
        # second numbering: loop bodies before the code after the loop
        order, seen = [], {fn.entry}

        def succs(l):
            hs = self.loopsof.get(l, ())
            ss = b[l].succs
            # leave outermost loops first so that they come last in the final order
            return sorted(ss, key=lambda s: len([h for h in hs if s in self.loops[h]]))
        stack = [(fn.entry, iter(succs(fn.entry)))]
        while stack:
            l, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succs(s))))
                    break
            else:
                order.append(l)
                stack.pop()
        self.rpo = order[::-1]
        self.num = {l: i for i, l in enumerate(self.rpo)}

    def _dom(self):
        b = self.fn.blocks
        idom = {self.fn.entry: self.fn.entry}
        ch = True
        while ch:
            ch = False
            for l in self.rpo[1:]:
                ps = [p for p in b[l].preds if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while self.num[x] > self.num[y]:
                            x = idom[x]
                        while self.num[y] > self.num[x]:
                            y = idom[y]
                    n = x
                if idom.get(l) != n:
                    idom[l] = n
                    ch = True
        return idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n

    def _loops(self):
        b = self.fn.blocks
        self.loops = {}     # header -> set of blocks
        self.back = set()
        for l in self.rpo:
            for s in b[l].succs:
                if self.dominates(s, l):
                    self.back.add((l, s))
                    body = self.loops.setdefault(s, {s})
                    st = [l]
                    while st:
                        x = st.pop()
                        if x in body or x not in self.num:
                            continue
                        body.add(x)
                        st.extend(b[x].preds)
        self.loopsof = {l: () for l in self.rpo}
        for l in self.rpo:
            hs = [h for h, body in self.loops.items() if l in body]
            hs.sort(key=lambda h: self.num[h])
            self.loopsof[l] = tuple(hs)
        self.reach = None

    def reaches_without(self, start, target, avoid):
        """is target reachable from start in forward edges not passing through avoid"""
        b = self.fn.blocks
        seen = {start}
        st = [start]
        while st:
            x = st.pop()
            if x == target:
                return True
            if x == avoid:
                continue
            for s in b[x].succs:
                if s not in seen and (x, s) not in self.back:
                    seen.add(s)
                    st.append(s)
        return False


# ------------------------------------------------------------------ effects
class Eff:
    __slots__ = ("kind", "loc", "val", "type", "block", "ins", "loops", "callee", "args", "ret", "seq", "inst", "deref")

    def __init__(self, kind, block, ins, loops):
        self.kind = kind
        self.block = block
        self.ins = ins
        self.loops = loops
        self.loc = self.val = self.type = self.callee = self.args = self.ret = None
        self.inst = self.deref = None

    def __repr__(self):
        if self.kind == "store":
            return f"[{self.ins.line}] {show(self.loc)} := {show(self.val)} loops={self.loops}"
        if self.kind == "load":
            return f"[{self.ins.line}] read {show(self.loc)}"
        if self.kind == "call":
            return f"[{self.ins.line}] {self.callee}({', '.join(show(x) for x in self.args)}) -> {self.ret} loops={self.loops}"
        if self.kind == "ret":
            return f"[{self.ins.line}] ret {show(self.val) if self.val else ''}"
        return self.kind


class NewInfo:
    __slots__ = ("size", "zero", "line", "fn", "kind")

    def __init__(self, size, zero, line, fn, kind):
        self.size = size
        self.zero = zero
        self.line = line
        self.fn = fn
        self.kind = kind


class Summary:
    def __init__(self):
        self.ret = None
        self.mods = set()       # (root node or STAR, class)
        self.writes = []        # (loc, val, type)
        self.news = {}
        self.opaque = False
        self.noreturn = False


PURE = {"sqrt", "fabs", "pow", "exp", "log", "sin", "cos", "tan", "atan", "acos", "asin", "sinh", "cosh", "tanh", "floor", "ceil",
        "fmin", "fmax", "log2", "log10", "erf", "tgamma", "lgamma", "abs", "labs", "round", "trunc", "fmod", "strlen", "strcmp",
        "isnan", "llvm.fabs.f64", "llvm.fmuladd.f64", "log1p", "expm1", "hypot", "atan2", "j0", "strncmp", "lrint", "ldexp", "cexp", "erfc", "__muldc3", "__divdc3", "carg", "cabs", "creal", "cimag"}
# external routines: which pointer args they write
EXTW = {
    "cblas_daxpy": [4], "cblas_dgemm": [12], "cblas_dgemv": [10], "cblas_dger": [8], "cblas_dscal": [2],
    "cblas_dsymv": [9], "cblas_dsyr": [6], "cblas_dsyr2": [8], "cblas_dtrmm": [10], "cblas_dtrmv": [7], "cblas_ddot": [],
    "cblas_dnrm2": [], "cblas_dcopy": [3],
    "fread": [0], "fwrite": [], "printf": [], "fprintf": [], "fputs": [], "puts": [], "putchar": [], "fclose": [], "fflush": [], "fopen": [],
    "fputc": [], "ftell": [], "fseek": [], "rewind": [], "rand": [], "srand": [], "time": [0], "qsort": [0], "exit": [], "free": [],
    "strtok": [0], "strdup": [], "atof": [], "atoi": [], "strtod": [1], "strtol": [1], "fgets": [0], "feof": [], "getenv": [], "perror": [],
    "clock": [], "isspace": [], "__ctype_b_loc": [], "__errno_location": [], "strstr": [], "strchr": [], "strrchr": [], "fgetc": [], "getc": [],
    "dgetrf_": [2, 4, 5], "dgetri_": [1, 4, 6], "dgeev_": [3, 5, 6, 7, 9, 11, 13], "dgebal_": [2, 4, 5, 6, 7], "dhseqr_": [5, 7, 8, 9, 11, 13],
    "dgeqrf_": [2, 4, 5, 7], "dorgqr_": [3, 6, 8], "dgerqf_": [2, 4, 5, 7], "dorgrq_": [3, 6, 8], "dgesdd_": [3, 5, 6, 8, 10, 12, 13],
    "dgelsd_": [3, 5, 7, 9, 10, 12, 13], "dgesv_": [2, 4, 5, 7], "dtrtri_": [3, 5], "dpotrf_": [2, 4], "dstev_": [2, 3, 4, 6, 7], "frexp": [1],
    "malloc": [], "calloc": [], "__assert_fail": [], "snprintf": [0], "sprintf": [0], "strcpy": [0], "strncpy": [0], "strcat": [0], "nanosleep": [],
}
MODS_STRTYPES = ("double", "i64", "i32", "ptr", "i8")


class Analysis:
    """result of analysing one function"""

    def __init__(self, fn):
        self.fn = fn
        self.effects = []
        self.env = {}
        self.facts = {}        # block -> frozenset(cond)
        self.mem_out = {}
        self.phis = {}
        self.loopinfo = {}
        self.news = {}
        self.ret = None
        self.retfacts = frozenset()
        self.unreachable = set()
        self.escaped = set()
        self.names = [p[0].lstrip("%") for p in fn.params]


class Loop:
    __slots__ = ("header", "trip", "exits", "k", "exact", "stay", "bounded", "conds", "accs", "pend", "ivs")

    def __init__(self, header, k):
        self.header = header
        self.k = k
        self.trip = None       # poly: number of times the stay condition holds
        self.exact = False
        self.exits = []
        self.bounded = False
        self.conds = []
        self.accs = None       # accumulator phi -> (init, increment)
        self.pend = []
        self.ivs = []


def float_const(s):
    if s.startswith("0x"):
        h = s[2:]
        if h[0] in "KLMHR":
            return None
        v = struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]
    else:
        v = float(s)
    if v != v or v in (float("inf"), float("-inf")):
        return None
    return Fraction(v)


class State:
    __slots__ = ("mem", "ver", "facts")

    def __init__(self, mem, ver, facts):
        self.mem = mem      # loc -> (val, type)
        self.ver = ver      # (class, root) -> version
        self.facts = facts


class Engine:
    def __init__(self, prog):
        self.prog = prog
        _prog[0] = prog
        self.sum = {}
        self.an = {}
        self.cfgs = {}
        self.intercept = {}     # callee -> f(fa, st, ins, args, tag) -> (handled, ret)

    # ---- driver -----------------------------------------------------------
    def run(self, only=None):
        """analyse every function bottom-up (or only those `only` depends on)"""
        want = None
        order = self.sccs()
        if only is not None:
            want = set()
            st = list(only)
            while st:
                x = st.pop()
                if x in want or x not in self.callgraph:
                    continue
                want.add(x)
                st.extend(self.callgraph[x])
        for scc in order:
            if want is not None and not any(n in want for n in scc):
                continue
            if all(n in self.an for n in scc):
                continue
            rec = len(scc) > 1 or scc[0] in self.callgraph[scc[0]]
            if not rec:
                self.analyse(scc[0])
                continue
            for name in scc:
                self.sum[name] = self._bottom()
            for rnd in range(6):
                before = {n: self.sum[n].mods for n in scc}
                for name in scc:
                    self.analyse(name)
                    s = self.sum[name]
                    s.ret = s.ret if s.ret is not None and s.ret.w < 30 and s.ret.kind == "ptr" and s.ret.a[0].kind == "new" else None
                    s.mods = frozenset(s.mods)
                if all(before[n] == self.sum[n].mods for n in scc):
                    break
        return self

    def _bottom(self):
        s = Summary()
        s.loadty = {}
        s.newmods = set()
        return s

    def _opaque(self, fn):
        s = Summary()
        s.opaque = True
        s.mods = None
        return s

    def sccs(self):
        """bottom-up strongly connected components of the direct call graph"""
        F = self.prog.functions
        idx, low, onst, st, out = {}, {}, set(), [], []
        g = {n: sorted({c for c, _ in self.prog.callees(f) if c in F}) for n, f in F.items()}
        self.callgraph = g
        ctr = [0]
        for r in F:
            if r in idx:
                continue
            work = [(r, 0)]
            while work:
                v, i = work.pop()
                if i == 0:
                    idx[v] = low[v] = ctr[0]
                    ctr[0] += 1
                    st.append(v)
                    onst.add(v)
                rec = False
                for j in range(i, len(g[v])):
                    w = g[v][j]
                    if w not in idx:
                        work.append((v, j + 1))
                        work.append((w, 0))
                        rec = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], idx[w])
                if rec:
                    continue
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
        return out

    def cfg(self, name):
        c = self.cfgs.get(name)
        if c is None:
            c = self.cfgs[name] = CFG(self.prog.functions[name])
        return c

    def analyse(self, name):
        fn = self.prog.functions[name]
        fa = FnAnalysis(self, fn)
        an = fa.go()
        an.fa = fa
        self.an[name] = an
        self.sum[name] = fa.summary()
        return an


class FnAnalysis:
    def __init__(self, eng, fn):
        self.eng = eng
        self.prog = eng.prog
        self.fn = fn
        self.cfg = eng.cfg(fn.name)
        self.an = Analysis(fn)
        self.env = self.an.env
        self.out = {}
        self.opcache = {}
        self.uid = fn.name

    # -- operands ------------------------------------------------------------
    def const(self, op, ty):
        if isinstance(op, tuple):
            return self.cgep(op)
        if op in ("null",):
            return NULL
        if op in ("undef", "poison"):
            return UNDEF
        if op == "true":
            return TRUE
        if op == "false":
            return FALSE
        if op == "zeroinitializer":
            return ZERO
        if op.startswith("@"):
            return PTR(N("glob", self.gname(op[1:])))
        if ty in ("double", "float", "x86_fp80"):
            v = float_const(op)
            if v is None:
                return A(N("fconst", op))
            if v.denominator == 1:
                return C(int(v))
            return C(v)
        try:
            return C(int(op))
        except ValueError:
            return A(N("const", op))

    def gname(self, g):
        if (self.fn.src, g) in self.prog.globals:
            return self.fn.src.split("/")[-1] + ":" + g
        return g

    def cgep(self, op):
        _, ty, base, idx = op
        p = self.const(base, "ptr")
        return self.gep(p, ty, [C(int(i)) if re.match(r"^-?\d+$", i) else A(N("const", i)) for i in idx])

    def gep(self, p, ty, idx):
        if p.kind != "ptr":
            p = PTR(p)
        # first index: over ty
        p = addstep(p, ("I", idx[0], ty))
        cur = ty
        for ix in idx[1:]:
            m = re.match(r"^\[(\d+) x (.*)\]$", cur)
            if m:
                cur = m.group(2)
                p = addstep(p, ("I", ix, cur))
            else:
                k = const_of(ix)
                if cur.startswith("%"):
                    s = cur[1:]
                    el = self.prog.structs.get(s) or []
                else:
                    s = cur
                    el = ir.split_top(cur[1:-1].strip())
                p = addstep(p, ("F", s, k))
                cur = el[k] if k is not None and k < len(el) else "i8"
        return p

    def val(self, op, ty, block):
        if isinstance(op, str) and op.startswith("%"):
            v = self.env.get(op)
            if v is None:
                return self.unknown(op, ty)
            d = self.fn.defs.get(op)
            if d is None:
                return v
            la, lb = self.cfg.loopsof.get(d.block, ()), self.cfg.loopsof.get(block, ())
            for h in reversed(la):
                if h not in lb:
                    v = self.leave(v, h)
            return v
        return self.const(op, ty)

    def leave(self, v, h):
        """value of v after loop h has been left"""
        L = self.an.loopinfo.get(h)
        if L is None or not v.fl & (FL_K | FL_LOCAL):
            return v
        key = (v, h)
        r = self.opcache.get(key)
        if r is None:
            if L.exact and L.trip is not None:
                ex = L.trip
            else:
                ex = A(N("kx", self.uid, h))
            k = L.k
            acc = self.accs(L)
            if acc:
                r = subst(v, lambda n: ex if n is k else acc.get(n), {}, FL_K | FL_LOCAL)
            else:
                r = subst(v, lambda n: ex if n is k else None, {}, FL_K)
            self.opcache[key] = r
        return r

    def accs(self, L):
        """exit values of additive accumulators of a loop"""
        if L.accs is not None:
            return L.accs
        L.accs = {}
        if not L.exact or L.trip is None:
            return L.accs
        body = self.cfg.loops[L.header]
        incs = {}
        for node, ins, init in L.pend:
            inc = None
            ok = True
            for o, p in zip(ins.ops, ins.extra):
                if p not in body:
                    continue
                if p not in self.out:
                    if p in self.cfg.live:
                        ok = False
                    continue
                v = self.val(o, ins.type, p)
                i = self.increment(v, node)
                if i is None or (inc is not None and i != inc):
                    ok = False
                    break
                inc = i
            if not ok or inc is None:
                continue
            incs[node] = (init, inc)
        # increments that use other accumulators of the same loop: those first, in closed form
        local = lambda n: n.kind in ("phi", "rphi") and n.a[0] == self.uid and n.a[1] in body
        cl = {}
        while incs:
            done = []
            for node, (init, inc) in incs.items():
                step = inc[0] if isinstance(inc, tuple) else inc
                if step.fl & FL_LOCAL:
                    step = subst(step, lambda n: cl.get(n), {}, FL_LOCAL)
                    if contains(step, local):
                        continue
                    inc = (step, inc[1]) if isinstance(inc, tuple) else step
                cl[node] = self.total(init, inc, L, A(L.k), body)
                L.accs[node] = self.total(init, inc, L, L.trip, body)
                done.append(node)
            if not done:
                break
            for n in done:
                del incs[n]
        return L.accs

    def total(self, init, inc, L, trip, body):
        """init plus the increments of `trip` iterations; pointer increments are (index, element type)"""
        ptr = isinstance(inc, tuple)
        step = inc[0] if ptr else inc
        if not contains(step, lambda n: n is L.k or self.loopvarying(n, body)):
            t = mul(step, trip)
        else:
            d = 1 + max([n.a[0] for n in subnodes(step) if n.kind == "sk"] + [0])
            sk = N("sk", d)
            t = A(N("sum", trip, subst(step, lambda n: A(sk) if n is L.k else None, {})))
        if ptr:
            return addstep(init, ("I", t, inc[1]))
        return add(topoly(init), t)

    def accinc(self):
        """loop-carried additive phis: node -> (loop, init, increment per iteration)"""
        r = self.__dict__.get("_accinc")
        if r is not None:
            return r
        r = self._accinc = {}
        for L in self.an.loopinfo.values():
            body = self.cfg.loops[L.header]
            for node, ins, init in L.pend:
                inc, ok = None, True
                for o, p in zip(ins.ops, ins.extra):
                    if p not in body:
                        continue
                    if p not in self.out:
                        if p in self.cfg.live:
                            ok = False
                        continue
                    i = self.increment(self.val(o, ins.type, p), node)
                    if i is None or (inc is not None and i != inc):
                        ok = False
                        break
                    inc = i
                if ok and inc is not None:
                    r[node] = (L, init if isinstance(inc, tuple) else topoly(init), inc)
        return r

    def closed(self, v):
        """replace loop-carried accumulators in v by their closed forms in the loop counters"""
        if not isinstance(v, Node) or not v.fl & FL_LOCAL:
            return v
        acc = self.accinc()
        if not acc:
            return v
        memo = self.__dict__.setdefault("_clmemo", {})
        busy = self.__dict__.setdefault("_clbusy", set())

        def f(n):
            if n.kind in ("phi", "rphi") and n in acc and n not in busy:
                L, init, inc = acc[n]
                busy.add(n)
                init = self.closed(init)
                inc = (self.closed(inc[0]), inc[1]) if isinstance(inc, tuple) else self.closed(inc)
                busy.discard(n)
                body = self.cfg.loops[L.header]
                step = inc[0] if isinstance(inc, tuple) else inc
                if contains(step, lambda x: x is n or (x.kind in ("phi", "rphi") and x.a[0] == self.uid and x.a[1] in body)):
                    return None
                return self.total(init, inc, L, A(L.k), body)
            return None
        key = v
        r = memo.get(key)
        if r is None:
            r = subst(v, f, {}, FL_LOCAL)
            if not busy:
                memo[key] = r
        return r

    def increment(self, v, node):
        if v.kind == "ptr":
            b, st = v.a
            if b is node and len(st) == 1 and st[0][0] == "I" and not contains(st[0][1], lambda n: n is node):
                return (st[0][1], st[0][2])
            if b is node and not st:
                return (ZERO, "i8")
            return None
        if v.kind != "poly":
            return None
        x = atom_of(v)
        if x is not None and x.kind == "ite" and contains(x, lambda n: n is node):
            c, a, b = x.a
            if contains(c, lambda n: n is node):
                return None
            ia, ib = self.increment(topoly(a), node), self.increment(topoly(b), node)
            if ia is None or ib is None:
                return None
            return topoly(ite(c, ia, ib))
        d = sub(v, A(node))
        if contains(d, lambda n: n is node):
            return None
        return d

    def loopvarying(self, n, body):
        if n.kind == "ld":
            return self.vary_ver(n.a[1], body)
        if n.kind in ("phi", "rphi") and n.a[0] == self.uid and n.a[1] in body:
            return True
        if n.kind == "ret" and n.a[0] == self.uid:
            return self.idxblock(n.a[1]) in body
        if n.kind == "x" and isinstance(n.a[0], tuple) and n.a[0][0] == self.uid:
            return self.idxblock(n.a[0][1]) in body
        if n.kind == "new":
            t = n.a[0][0]
            return t[0] == self.uid and self.idxblock(t[1]) in body
        return False

    def vary_ver(self, v, body):
        if v == 0 or not isinstance(v, tuple):
            return v != 0
        if len(v) == 3 and v[0] in ("s", "c") and v[1] == self.uid:
            return self.idxblock(v[2]) in body
        if len(v) == 3 and v[0] in ("j", "l") and v[1] == self.uid:
            return v[2] in body
        return any(self.vary_ver(x, body) for x in v if isinstance(x, tuple)) or any(isinstance(x, int) and x != 0 for x in v)

    def idxblock(self, i):
        m = self.__dict__.get("_idxb")
        if m is None:
            m = self._idxb = {ins.idx: ins.block for b in self.fn.blocks.values() for ins in b.instrs}
        return m.get(i)

    def unknown(self, op, ty):
        n = N("unk", self.uid, op)
        return self.wrap(n, ty)

    def wrap(self, n, ty):
        if ty == "ptr":
            return PTR(n)
        if ty == "i1":
            return N("bool", n)
        return A(n)

    # -- loops: syntactic induction variables -------------------------------
    def prepare_loops(self):
        fn, cfg = self.fn, self.cfg
        self.iv = {}
        for h, body in cfg.loops.items():
            self.an.loopinfo[h] = Loop(h, N("k", self.uid, h))
            for ins in fn.blocks[h].instrs:
                if ins.op != "phi":
                    break
                init = [o for o, p in zip(ins.ops, ins.extra) if p not in body]
                latch = [o for o, p in zip(ins.ops, ins.extra) if p in body]
                if not init or not latch:
                    continue
                steps = [self.stepof(l, ins.dest, body) for l in latch]
                if all(s is not None for s in steps) and len(set(steps)) == 1:
                    self.iv[ins.dest] = (h, steps[0])

    def stepof(self, op, phi, body, depth=0):
        """op == phi + c ?  -> (kind, c)"""
        if op == phi:
            return ("int", 0)
        d = self.fn.defs.get(op) if isinstance(op, str) else None
        if d is None or d.block not in body or depth > 6:
            return None
        if d.op == "bin" and d.extra in ("add", "sub"):
            for x, y in ((d.ops[0], d.ops[1]), (d.ops[1], d.ops[0])):
                if re.match(r"^-?\d+$", str(y)):
                    if d.extra == "sub" and x is not d.ops[0]:
                        continue
                    s = self.stepof(x, phi, body, depth + 1)
                    if s is not None and s[0] == "int":
                        c = int(y)
                        return ("int", s[1] + (c if d.extra == "add" else -c))
            return None
        if d.op == "gep" and len(d.ops) == 2 and re.match(r"^-?\d+$", str(d.ops[1])):
            s = self.stepof(d.ops[0], phi, body, depth + 1)
            if s is not None:
                if s == ("int", 0):
                    return ("gep", int(d.ops[1]), d.type)
                if s[0] == "gep" and s[2] == d.type:
                    return ("gep", s[1] + int(d.ops[1]), d.type)
            return None
        if d.op == "phi" and d.block in self.cfg.loops and d.block != None:
            # inner loop header not changing it
            return None
        if d.op == "phi":
            ss = [self.stepof(o, phi, body, depth + 1) for o in d.ops]
            if all(s is not None for s in ss) and len(set(ss)) == 1:
                return ss[0]
            return None
        if d.op == "cast" and d.extra[0] in ("zext", "sext", "trunc", "bitcast"):
            return self.stepof(d.ops[0], phi, body, depth + 1)
        return None

    def loop_mods(self):
        """classes stored to inside each loop: header -> set of (root or None, class)"""
        self.lmods = {}

    # -- main ------------------------------------------------------------------
    def go(self):
        fn, cfg, an = self.fn, self.cfg, self.an
        for i, (n, t) in enumerate(fn.params):
            if n.startswith("%"):
                self.env[n] = self.wrap(N("arg", i), t)
        self.escaped_allocas()
        self.prepare_loops()
        self.rootphi = {}
        self.newblock = {}
        init = State({}, {}, frozenset())
        self.instate = {}
        self.pending_exit = []
        for l in cfg.rpo:
            if l != fn.entry and l not in cfg.live and not self.keepdead(l):
                # dead-end block (assert/exit): still record calls for completeness
                self.deadend(l)
                continue
            st = init if l == fn.entry else self.join(l)
            if st is None:
                an.unreachable.add(l)
                continue
            an.facts[l] = st.facts
            self.block(l, st)
        return an

    def keepdead(self, l):
        return False

    def deadend(self, l):
        st = self.join(l)
        if st is None:
            return
        self.an.facts[l] = st.facts
        self.indead = True
        self.block(l, st)
        self.indead = False

    indead = False

    def escaped_allocas(self):
        esc = set()
        for b in self.fn.blocks.values():
            for i in b.instrs:
                if i.op == "store" and isinstance(i.ops[0], str):
                    d = self.fn.defs.get(i.ops[0])
                    if d is not None and d.op == "alloca":
                        esc.add(i.ops[0])
        self.esc = esc
        self.storednew = set()
        self._held = None

    # -- edge conditions -------------------------------------------------------
    def edgecond(self, p, l):
        b = self.fn.blocks[p]
        t = b.term
        if t.op == "br" and t.ops:
            c = truth(self.val(t.ops[0], "i1", p))
            a, e = t.extra
            if a == e:
                return TRUE
            return c if a == l else Not(c)
        if t.op == "switch":
            v = self.val(t.ops[0], t.type, p)
            labs, cases = t.extra
            cs = []
            for lb, cv in zip(labs[1:], cases):
                if lb == l:
                    cs.append(eq0(sub(v, C(cv))))
            if labs[0] == l:
                dn = And(*[Not(eq0(sub(v, C(cv)))) for lb, cv in zip(labs[1:], cases) if lb != l])
                if not cs:
                    return dn
                return Or(dn, *cs) if dn is not TRUE else TRUE
            return Or(*cs)
        return TRUE

    def implied(self, c, facts):
        """does facts (set) imply / refute c? returns TRUE/FALSE/None"""
        if c is TRUE or c is FALSE:
            return c
        if c in facts:
            return TRUE
        if Not(c) in facts:
            return FALSE
        if c.kind == "and":
            rs = [self.implied(x, facts) for x in c.a]
            if any(r is FALSE for r in rs):
                return FALSE
            if all(r is TRUE for r in rs):
                return TRUE
        if c.kind == "or":
            rs = [self.implied(x, facts) for x in c.a]
            if any(r is TRUE for r in rs):
                return TRUE
            if all(r is FALSE for r in rs):
                return FALSE
        if c.kind == "eq0":
            # other equalities on the same non-constant part
            d = dict(c.a[0].a)
            k = d.pop((), 0)
            for f in facts:
                if f.kind == "eq0":
                    e = dict(f.a[0].a)
                    kk = e.pop((), 0)
                    if e == d and kk != k:
                        return FALSE
        return None

    def addfact(self, facts, c):
        if c is TRUE:
            return facts
        if c.kind == "and":
            return facts | frozenset(c.a) | {c}
        return facts | {c}

    # -- join ----------------------------------------------------------------------
    def join(self, l):
        fn, cfg = self.fn, self.cfg
        preds = []
        conds = {}
        for p in fn.blocks[l].preds:
            if (p, l) in cfg.back:
                continue
            if p not in self.out:
                continue
            st = self.out[p]
            c = self.edgecond(p, l)
            r = self.implied(c, st.facts)
            if r is FALSE:
                continue
            conds[p] = c
            preds.append(p)
        if not preds:
            return None
        lheads = cfg.loopsof[l]
        ins = []
        for p in preds:
            st = self.out[p]
            facts = self.addfact(st.facts, conds[p])
            mem, ver = st.mem, st.ver
            left = [h for h in cfg.loopsof[p] if h not in lheads]
            for h in reversed(left):
                mem, facts = self.leave_state(mem, facts, h)
            ins.append(State(mem, ver, facts))
        self.livepreds = getattr(self, "livepreds", {})
        self.livepreds[l] = preds
        if len(ins) == 1:
            st = State(dict(ins[0].mem), dict(ins[0].ver), ins[0].facts)
        else:
            facts = frozenset.intersection(*[s.facts for s in ins])
            # keep disjunction for two preds
            ver = {}
            keys = set()
            for s in ins:
                keys.update(s.ver)
            for k in keys:
                vs = {s.ver.get(k, 0) for s in ins}
                ver[k] = vs.pop() if len(vs) == 1 else ("j", self.uid, l)
            mem = {}
            keys = set()
            for s in ins:
                keys.update(s.mem)
            for k in keys:
                vals = []
                ty = None
                for s in ins:
                    e = s.mem.get(k)
                    if e is not None:
                        ty = e[1]
                for s in ins:
                    e = s.mem.get(k)
                    vals.append(e[0] if e is not None else self.fresh_load(k, ty, s.ver))
                r = k.a[0]
                pp = preds
                if r.kind == "new":
                    ab = self.newblock.get(r)
                    sel = [i for i, p in enumerate(preds) if ab is None or cfg.dominates(ab, p) or k in ins[i].mem]
                    if sel and len(sel) < len(preds):
                        vals = [vals[i] for i in sel]
                        pp = [preds[i] for i in sel]
                v = self.merge(l, pp, vals, ("m", k), ty)
                mem[k] = (v, ty)
            st = State(mem, ver, facts)
        if l in cfg.loops:
            st = self.enter_loop(l, st)
        return st

    def leave_state(self, mem, facts, h):
        L = self.an.loopinfo[h]
        k = L.k
        nm = {}
        for loc, (v, ty) in mem.items():
            if (loc.fl | v.fl) & (FL_K | FL_LOCAL):
                l2 = self.leave(loc, h)
                v2 = self.leave(v, h)
                if l2.kind == "ptr":
                    nm[l2] = (v2, ty)
            else:
                nm[loc] = (v, ty)
        nf = frozenset(f for f in facts if not (f.fl & FL_K and contains(f, lambda n: n is k)))
        return nm, nf

    def side(self, d, l, p, avoid_back=True):
        """which successors of d lead to l via last edge p->l"""
        res = set()
        for s in self.fn.blocks[d].succs:
            if (d, s) in self.cfg.back:
                continue
            if s == l and p == d:
                res.add(s)
            elif s != l and self.cfg.reaches_without(s, p, l):
                res.add(s)
        return res

    def merge(self, l, preds, vals, key, ty):
        v0 = vals[0]
        if all(v is v0 for v in vals):
            return v0
        live = [v for v in vals if v is not UNDEF]
        if live and all(v is live[0] for v in live) and len(live) < len(vals):
            pass
        tr = self.jtree(l)
        if tr is not None:
            r = self.jeval(tr, dict(zip(preds, vals)))
            if r is not None and r.w <= 400:
                return r
        # opaque merge; remember the alternatives
        rs = {deep_root(v.a[0]) for v in vals if v.kind == "ptr" and v is not NULL}
        node = N("phi", self.uid, l, key if isinstance(key, str) else ("m", key[1]))
        if len(rs) == 1 and ty == "ptr":
            node = N("rphi", self.uid, l, node.id, rs.pop())
        self.an.phis[node] = list(zip(preds, vals))
        if ty == "i1" or any(v.kind in COND for v in vals):
            return N("bool", node)
        if ty == "ptr" or any(v.kind == "ptr" for v in vals):
            return PTR(node)
        return A(node)

    def jtree(self, l):
        """decision tree over the branches between idom(l) and l: leaf = predecessor label,
        inner = (cond, left, right); None when the region does not allow one"""
        m = self.__dict__.setdefault("jtrees", {})
        if l in m:
            return m[l]
        cfg, fn = self.cfg, self.fn
        d = cfg.idom[l]
        lb = set(cfg.loopsof[l])
        memo = {}
        FAIL = "fail"
        budget = [400]

        def go(b):
            if b in memo:
                return memo[b]
            budget[0] -= 1
            if budget[0] < 0:
                return FAIL
            memo[b] = FAIL
            if b not in self.out:
                memo[b] = None
                return None
            t = fn.blocks[b].term
            rs = []
            for s in dict.fromkeys(fn.blocks[b].succs):
                if (b, s) in cfg.back:
                    continue
                if s not in cfg.live:
                    continue
                if s == l:
                    r = b if b in self.livepreds.get(l, ()) else None
                else:
                    r = go(s)
                if r == FAIL:
                    return FAIL
                if r is not None:
                    rs.append((s, r))
            if not rs:
                r = None
            elif all(x[1] == rs[0][1] for x in rs):
                r = rs[0][1]
            elif any(h not in lb for h in cfg.loopsof[b]):
                return FAIL
            elif t.op == "br" and t.ops and len(rs) == 2:
                c = truth(self.val(t.ops[0], "i1", b))
                a, e = t.extra
                dd = dict(rs)
                r = (c, dd[a], dd[e])
            elif t.op == "switch":
                r = rs[-1][1]
                df = t.extra[0][0]
                rr = [x for x in rs if x[0] != df]
                if len(rr) < len(rs):
                    r = [x for x in rs if x[0] == df][0][1]
                else:
                    r = rr.pop()[1]
                for s, x in reversed(rr):
                    c = self.edgecond(b, s)
                    r = (c, x, r)
            else:
                return FAIL
            memo[b] = r
            return r
        r = go(d) if d in self.out else FAIL
        m[l] = None if r == FAIL else r
        return m[l]

    def jeval(self, tr, vals):
        """value of a decision tree; predecessors without a value do not count"""
        memo = {}
        NOV = "nov"

        def go(t):
            if isinstance(t, str):
                return vals.get(t, NOV)
            k = id(t)
            if k in memo:
                return memo[k]
            a, b = go(t[1]), go(t[2])
            if a is None or b is None:
                r = None
            elif a is b or b is NOV:
                r = a
            elif a is NOV:
                r = b
            else:
                r = ite(t[0], a, b)
                if r.w > 400:
                    r = None
            memo[k] = r
            return r
        r = go(tr) if tr is not None else None
        return None if r is NOV else r

    def leave_to(self, v, d, l):
        lb = self.cfg.loopsof[l]
        for h in reversed(self.cfg.loopsof[d]):
            if h not in lb:
                v = self.leave(v, h)
        return v

    # -- loop entry: havoc what the loop may modify -----------------------------------
    def enter_loop(self, h, st):
        mods = self.collect_mods(h, st)
        ver = st.ver
        mem = st.mem
        tag = ("l", self.uid, h)
        for root, cl in mods:
            self.kill(mem, ver, root, cl, tag)
        return State(mem, ver, st.facts)

    def collect_mods(self, h, st):
        """syntactic may-modify set of a loop: (root or None, class)"""
        res = set()
        self.cur_entry = st
        self.cur_ptrstores = set()
        for l in self.cfg.loops[h]:
            for i in self.fn.blocks[l].instrs:
                if i.op == "store" and i.type == "ptr":
                    self.cur_ptrstores.add(self.static_loc(i.ops[1], "ptr")[1])
                elif i.op == "call" and isinstance(i.extra, str):
                    s = self.eng.sum.get(i.extra[1:])
                    if s is not None and s.mods:
                        self.cur_ptrstores.update(cl for _, cl in s.mods)
        for l in self.cfg.loops[h]:
            if l not in self.cfg.live:
                continue
            for i in self.fn.blocks[l].instrs:
                if i.op == "store":
                    res.add(self.static_loc(i.ops[1], i.type))
                elif i.op == "call":
                    for m in self.call_mods_static(i):
                        res.add(m)
        return res

    def static_root(self, op, depth=0):
        """root of a pointer operand before symbolic evaluation (may be None=unknown)"""
        if isinstance(op, tuple):
            return N("glob", self.gname(op[2][1:])) if op[2].startswith("@") else None
        if not isinstance(op, str):
            return None
        if op == "null":
            return NULLB
        if op.startswith("@"):
            return N("glob", self.gname(op[1:]))
        if op in self.env:
            v = self.env[op]
            if v.kind == "ptr":
                r = deep_root(v.a[0])
                return None if r is STAR else r
            return None
        d = self.fn.defs.get(op)
        if d is None or depth > 12:
            return None
        if d.op == "gep":
            return self.static_root(d.ops[0], depth + 1)
        if d.op == "load":
            return self.static_root_load(d.ops[0], depth + 1)
        if d.op == "alloca":
            return N("alloca", self.uid, d.dest)
        if d.op == "call":
            if self.returns_new(d):
                return N("loopnew", self.uid, d.idx)
            return None
        if d.op == "cast":
            return self.static_root(d.ops[0], depth + 1)
        if d.op == "phi":
            rs = set()
            for o in d.ops:
                if o == d.dest:
                    continue
                if o == "null":
                    continue
                if isinstance(o, str) and o in self.fn.defs and self.fn.defs[o].op == "phi" and depth > 3:
                    return None
                rs.add(self.static_root(o, depth + 1))
            if len(rs) == 1:
                return rs.pop()
        return None

    def static_root_load(self, op, depth):
        r = self.static_root(op, depth)
        if r is None:
            return None
        if r.kind == "arg" or r.kind == "glob":
            return r
        # pointer read from an object allocated here: look it up in the state at loop entry
        loc = self.static_eval(op, depth)
        if loc is not None and loc.kind == "ptr" and self.cur_entry is not None:
            cl = klass(loc, "ptr")
            if cl in self.cur_ptrstores:
                return None
            e = self.cur_entry.mem.get(loc)
            if e is not None and e[0].kind == "ptr":
                rs = {deep_root(PTR(b).a[0]) for b in ptr_alts(e[0]) if b is not NULLB}
                if len(rs) == 1:
                    q = rs.pop()
                    return None if q is STAR else q
        return None

    cur_entry = None
    cur_ptrstores = ()

    def static_eval(self, op, depth=0):
        """value of a pointer operand at loop entry when it only needs loop-invariant data"""
        if not isinstance(op, str) or depth > 16:
            return None
        if op in self.env:
            return self.env[op]
        d = self.fn.defs.get(op)
        if d is None:
            return None
        if d.op == "gep":
            p = self.static_eval(d.ops[0], depth + 1)
            if p is None or p.kind != "ptr":
                return None
            idx = []
            for o in d.ops[1:]:
                if re.match(r"^-?\d+$", str(o)):
                    idx.append(C(int(o)))
                elif o in self.env and self.env[o].kind == "poly":
                    idx.append(self.env[o])
                else:
                    idx.append(A(N("any")))
            return self.gep(p, d.type, idx)
        if d.op == "load" and d.type == "ptr":
            loc = self.static_eval(d.ops[0], depth + 1)
            if loc is None or loc.kind != "ptr" or self.cur_entry is None or klass(loc, "ptr") in self.cur_ptrstores:
                return None
            e = self.cur_entry.mem.get(loc)
            return e[0] if e is not None else None
        return None

    def returns_new(self, d):
        c = d.extra[1:] if isinstance(d.extra, str) else ""
        if c in ("malloc", "calloc", "realloc", "strdup"):
            return True
        s = self.eng.sum.get(c)
        return bool(s and s.ret is not None and s.ret.kind == "ptr" and s.ret.a[0].kind == "new")

    def static_loc(self, op, ty):
        d = self.fn.defs.get(op) if isinstance(op, str) else None
        cl = ("E", ty)
        if d is not None and d.op == "gep":
            cur = d.type
            lastF = None
            for ix in d.ops[2:]:
                m = re.match(r"^\[(\d+) x (.*)\]$", cur)
                if m:
                    cur = m.group(2)
                    lastF = None
                else:
                    s = cur[1:]
                    el = self.prog.structs.get(s) or []
                    k = int(ix)
                    lastF = ("F", s, k)
                    cur = el[k] if k < len(el) else "i8"
            if lastF:
                cl = lastF
        elif d is not None and d.op == "phi":
            pass
        return (self.static_root(op), cl)

    def call_mods_static(self, i):
        c = i.extra
        if not isinstance(c, str) or not c.startswith("@"):
            # indirect call: callbacks write only through their pointer arguments' elements
            for a, t in zip(i.ops, i.fline):
                if t == "ptr":
                    r = self.static_root(a)
                    for ty in MODS_STRTYPES:
                        yield (r, ("E", ty))
                    fc = self.static_loc(a, None)[1]
                    if fc[0] == "F":
                        yield (r, fc)
            return
        c = c[1:]
        if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove") or c.startswith("llvm.memset") or c in ("memcpy", "memmove", "memset"):
            r = self.static_root(i.ops[0])
            for cl in self.memcpy_classes(i):
                yield (r, cl)
            return
        s = self.eng.sum.get(c)
        if s is None:
            if c in PURE:
                return
            ws = EXTW.get(c)
            for k, (a, t) in enumerate(zip(i.ops, i.fline)):
                if t == "ptr" and (ws is None or k in ws):
                    if c.startswith("llvm."):
                        continue
                    r = self.static_root(a)
                    for ty in MODS_STRTYPES:
                        yield (r, ("E", ty))
                    fc = self.static_loc(a, None)[1]
                    if fc[0] == "F":
                        yield (r, fc)
            return
        if s.opaque:
            yield (None, "ALL")
            return
        for root, cl in s.mods:
            if root.kind == "arg":
                k = root.a[0]
                if k < len(i.ops):
                    r = self.static_root(i.ops[k])
                    if r is NULLB:
                        continue
                    yield (r, cl)
                    if cl[0] == "E":
                        fc = self.static_loc(i.ops[k], None)[1]
                        if fc[0] == "F":
                            yield (r, fc)
            elif root.kind == "glob":
                yield (root, cl)
            else:
                yield (None, cl)

    def memcpy_classes(self, i):
        out = [("E", t) for t in MODS_STRTYPES]
        n = i.ops[2] if len(i.ops) > 2 else None
        if isinstance(n, str) and re.match(r"^\d+$", n):
            n = int(n)
            for s, el in self.prog.structs.items():
                if el and self.prog.sizeof("%" + s) == n:
                    out += [("F", s, k) for k in range(len(el))]
        return out

    # -- kill -------------------------------------------------------------------------
    def mayalias_root(self, r, q):
        """r: root being written (None unknown), q: root of an existing entry"""
        if r is q:
            return True
        if r is None or r is STAR:
            if q.kind == "alloca":
                return q.a[1] in self.esc
            if q.kind == "new":
                return q in self.storednew
            return True
        if q is STAR:
            return self.mayalias_root(None, r) if r.kind in ("alloca", "new") else True
        if r.kind == "loopnew" or q.kind == "loopnew":
            return r.kind == "loopnew" and q.kind == "new" and False
        return False

    def kill(self, mem, ver, root, cl, tag):
        """invalidate class cl reached from root (None: unknown)"""
        if cl == "ALL":
            classes = None
        else:
            classes = {cl}
        if root is not None and root.kind == "loopnew":
            # objects allocated in the loop: only entries of that very allocation site
            return
        for loc in list(mem):
            v, ty = mem[loc]
            k = klass(loc, ty)
            if classes is not None and k not in classes:
                continue
            q = deep_root(loc.a[0])
            if self.mayalias_root(root, q) or (root is not None and root.kind in ("arg", "new") and q.kind == "new" and q in self.storednew and not self.isfresh(q, root)):
                del mem[loc]
        if classes is None:
            ver["ALL"] = tag
            return
        r = STAR if root is None else root
        ver[(cl, r)] = tag
        if root is None:
            for q in list(self.storednew):
                ver[(cl, q)] = tag

    def isfresh(self, q, root):
        # q: an object allocated here; root: the root a callee/loop writes through
        return q is not root and root.kind == "arg" and False

    def version(self, loc, ty, ver):
        cl = klass(loc, ty)
        r = deep_root(loc.a[0])
        v = ver.get((cl, r), 0)
        if r is not STAR and r.kind in ("arg", "glob"):
            s = ver.get((cl, STAR), 0)
            if s != 0:
                v = (v, s)
        elif r is STAR:
            # any non-local store may matter
            o = tuple(sorted((str(k[1].id), str(x)) for k, x in ver.items()
                             if k != "ALL" and k[0] == cl and k[1] is not STAR and x != 0 and
                             not (k[1].kind == "alloca") and not (k[1].kind == "new" and k[1] not in self.storednew)))
            if o:
                v = (v, hash(o))
        a = ver.get("ALL", 0)
        if a != 0 and not (r.kind == "alloca" and r.a[1] not in self.esc) and not (r.kind == "new" and r not in self.storednew):
            v = (v, a)
        return v

    def fresh_load(self, loc, ty, ver):
        v = self.version(loc, ty, ver)
        b = loc.a[0]
        if b.kind == "new" and v == 0:
            info = self.an.news.get(b)
            if info is not None:
                if info.zero:
                    if ty == "ptr":
                        return NULL
                    return ZERO
                return self.wrap(N("uninit", loc), ty)
        if b.kind == "alloca" and v == 0:
            return self.wrap(N("uninit", loc), ty)
        if b.kind == "glob":
            g = self.constglob(loc, ty)
            if g is not None:
                return g
        return self.wrap(N("ld", loc, v), ty)

    def constglob(self, loc, ty):
        return None

    def load(self, st, loc, ty):
        if loc.kind != "ptr":
            loc = PTR(loc)
        b, s = loc.a
        # load through a gated pointer
        if b.kind == "ite" and loc.w < 200:
            c, x, y = b.a
            r = self.implied(c, st.facts)
            if r is TRUE or r is FALSE:
                return self.load(st, rebase(x if r is TRUE else y, s), ty)
            if x.kind == "ptr" and y.kind == "ptr":
                if y is NULL:
                    return self.load(st, rebase(x, s), ty)
                if x is NULL:
                    return self.load(st, rebase(y, s), ty)
                return ite(c, self.load(st, rebase(x, s), ty), self.load(st, rebase(y, s), ty))
        e = st.mem.get(loc)
        if e is not None:
            v = e[0]
            if v.kind == "ptr" and ty != "ptr" or v.kind != "ptr" and ty == "ptr":
                if v.kind == "poly" and const_of(v) == 0 and ty == "ptr":
                    return NULL
                return self.wrap(N("cast", v, ty), ty)
            # simplify gated values by current facts
            return self.simp(v, st.facts)
        v = self.fresh_load(loc, ty, st.ver)
        if ty in ("i64", "i32", "double", "ptr", "i8"):
            # same symbolic address, may have pending weak update: handled through kill
            st.mem[loc] = (v, ty)
        return v

    def simp(self, v, facts):
        n = v
        for _ in range(4):
            a = None
            if n.kind == "ptr" and n.a[0].kind == "ite" and not n.a[1]:
                a = n.a[0]
            elif n.kind == "poly":
                x = atom_of(n)
                if x is not None and x.kind == "ite":
                    a = x
            if a is None:
                return n
            r = self.implied(a.a[0], facts)
            if r is TRUE:
                n = a.a[1]
            elif r is FALSE:
                n = a.a[2]
            else:
                return n
        return n

    def store(self, st, loc, v, ty, tag):
        if loc.kind != "ptr":
            loc = PTR(loc)
        if loc.a[0].kind == "ite":
            c, x, y = loc.a[0].a
            r = self.implied(c, st.facts)
            if r is TRUE:
                return self.store(st, rebase(x, loc.a[1]), v, ty, tag)
            if r is FALSE:
                return self.store(st, rebase(y, loc.a[1]), v, ty, tag)
            if y is NULL and x.kind == "ptr":
                return self.store(st, rebase(x, loc.a[1]), v, ty, tag)
            if x is NULL and y.kind == "ptr":
                return self.store(st, rebase(y, loc.a[1]), v, ty, tag)
        cl = klass(loc, ty)
        root = deep_root(loc.a[0])
        if v.kind == "ptr":
            for b in ptr_alts(v):
                if b.kind == "new":
                    self.storednew.add(b)
        for k in list(st.mem):
            if k is loc:
                continue
            ov, oty = st.mem[k]
            if klass(k, oty) != cl and not (cl[0] == "E" and oty == ty and klass(k, oty)[0] == "E"):
                continue
            q = deep_root(k.a[0])
            if not self.mayalias_root(None if root is STAR else root, q):
                continue
            if not may_same(loc, k):
                continue
            del st.mem[k]
        st.ver[(cl, root)] = tag
        if root is STAR:
            for q in self.storednew:
                st.ver[(cl, q)] = tag
        st.mem[loc] = (v, ty)

    # -- block ----------------------------------------------------------------------------
    def block(self, l, st):
        fn = self.fn
        loops = self.cfg.loopsof[l]
        b = fn.blocks[l]
        for ins in b.instrs:
            op = ins.op
            if op == "phi":
                self.env[ins.dest] = self.phi(l, ins, st)
            elif op == "load":
                p = self.val(ins.ops[0], "ptr", l)
                if p.kind != "ptr":
                    p = PTR(p)
                e = Eff("load", l, ins, loops)
                e.loc = p
                e.type = ins.type
                v = self.load(st, p, ins.type)
                if ins.type == "i1":
                    v = truth(v)
                e.val = v
                self.an.effects.append(e)
                self.env[ins.dest] = v
            elif op == "store":
                p = self.val(ins.ops[1], "ptr", l)
                if p.kind != "ptr":
                    p = PTR(p)
                v = self.val(ins.ops[0], ins.type, l)
                v = self.simp(v, st.facts)
                e = Eff("store", l, ins, loops)
                e.loc, e.val, e.type = p, v, ins.type
                self.an.effects.append(e)
                self.store(st, p, v, ins.type, ("s", self.uid, ins.idx))
            elif op == "gep":
                p = self.val(ins.ops[0], "ptr", l)
                idx = [self.val(o, "i64", l) for o in ins.ops[1:]]
                idx = [x if x.kind == "poly" else topoly(x) for x in idx]
                self.env[ins.dest] = self.gep(p, ins.type, idx)
            elif op == "call":
                self.call(l, ins, st, loops)
            elif op == "bin":
                self.env[ins.dest] = self.binop(ins, l)
            elif op == "icmp":
                self.env[ins.dest] = self.icmp(ins, l, st)
            elif op == "fcmp":
                self.env[ins.dest] = self.fcmp(ins, l)
            elif op == "cast":
                self.env[ins.dest] = self.cast(ins, l)
            elif op == "fneg":
                self.env[ins.dest] = neg(topoly(self.val(ins.ops[0], ins.type, l)))
            elif op == "select":
                c = truth(self.val(ins.ops[0], "i1", l))
                self.env[ins.dest] = ite(c, self.val(ins.ops[1], ins.type, l), self.val(ins.ops[2], ins.type, l))
            elif op == "alloca":
                n = N("alloca", self.uid, ins.dest)
                self.env[ins.dest] = PTR(n)
                sz = C(self.prog.sizeof(ins.type))
                if ins.ops:
                    sz = mul(sz, topoly(self.val(ins.ops[0], "i64", l)))
                self.an.news[n] = NewInfo(sz, False, ins.line, self.fn.name, "alloca")
            elif op == "ret":
                e = Eff("ret", l, ins, loops)
                if ins.ops:
                    v = self.val(ins.ops[0], ins.type, l)
                    e.val = v
                self.an.effects.append(e)
                self.an.ret = e.val
                self.an.retfacts = st.facts
                self.an.mem_out = st.mem
                self.an.ver_out = st.ver
            elif op == "freeze":
                self.env[ins.dest] = self.val(ins.ops[0], ins.type, l)
            elif op == "extractvalue":
                a = self.val(ins.ops[0], ins.type, l)
                self.env[ins.dest] = A(N("ev", a, ins.extra))
            elif op in ("br", "switch"):
                pass
            elif op == "unreachable":
                pass
            elif ins.dest:
                self.env[ins.dest] = self.unknown(ins.dest, ins.type or "i64")
        self.out[l] = st
        self.an_loop_exit(l, st)

    def an_loop_exit(self, l, st):
        """derive loop bounds from exiting branches"""
        for h in self.cfg.loopsof[l]:
            body = self.cfg.loops[h]
            L = self.an.loopinfo[h]
            b = self.fn.blocks[l]
            outs = [s for s in b.succs if s not in body]
            if not outs:
                continue
            outs_live = [s for s in outs if s in self.cfg.live]
            if not outs_live:
                continue
            L.exits.append(l)
            if b.term.op == "br" and b.term.ops:
                stay = self.edgecond(l, [s for s in b.succs if s in body][0]) if any(s in body for s in b.succs) else FALSE
                # innermost loop counter only
                t = trip_of(stay, L.k)
                L.conds.append((l, stay, t))
                if t is not None:
                    L.bounded = True
            else:
                L.conds.append((l, None, None))
            if len(L.exits) == 1 and L.conds[0][2] is not None:
                L.trip = L.conds[0][2]
                L.exact = not self.other_exits(h, l)
            elif len(L.exits) > 1:
                L.exact = False
                if L.trip is None:
                    for c in L.conds:
                        if c[2] is not None:
                            L.trip = c[2]

    def other_exits(self, h, l):
        body = self.cfg.loops[h]
        for x in body:
            if x == l:
                continue
            if x not in self.cfg.live:
                continue
            for s in self.fn.blocks[x].succs:
                if s not in body and s in self.cfg.live:
                    return True
            if self.fn.blocks[x].term.op == "ret":
                return True
        return False

    def phi(self, l, ins, st):
        if ins.dest in self.iv and self.iv[ins.dest][0] == l:
            h, stp = self.iv[ins.dest]
            body = self.cfg.loops[h]
            inits = [(o, p) for o, p in zip(ins.ops, ins.extra) if p not in body and p in self.out]
            if inits:
                v0 = self.val(inits[0][0], ins.type, inits[0][1])
                k = A(self.an.loopinfo[h].k)
                if stp[0] == "int":
                    if stp[1] == 0:
                        return v0
                    if ins.type == "ptr":
                        pass
                    elif v0.kind in ("poly",) or v0.kind in COND:
                        return add(topoly(v0), mul(C(stp[1]), k))
                    else:
                        return add(topoly(v0), mul(C(stp[1]), k))
                else:
                    return addstep(v0 if v0.kind == "ptr" else PTR(v0), ("I", mul(C(stp[1]), k), stp[2]))
        if l in self.cfg.loops:
            body = self.cfg.loops[l]
            inits = [self.val(o, ins.type, p) for o, p in zip(ins.ops, ins.extra) if p not in body and p in self.out]
            node = N("phi", self.uid, l, ins.dest)
            if ins.type == "ptr" and len(inits) == 1 and inits[0].kind == "ptr":
                r = deep_root(inits[0].a[0])
                if r is not STAR and r.kind in ("arg",) and self.latch_same_root(ins, body):
                    node = N("rphi", self.uid, l, ins.dest, r)
            if len(inits) == 1 and ins.type != "i1" and (ins.type != "ptr" or inits[0].kind == "ptr"):
                self.an.loopinfo[l].pend.append((node, ins, inits[0]))
            self.an.phis[node] = [("init", v) for v in inits] + [("latch", (o, p)) for o, p in zip(ins.ops, ins.extra) if p in body]
            return self.wrap(node, ins.type)
        preds = self.livepreds.get(l, [])
        vals = []
        ps = []
        for o, p in zip(ins.ops, ins.extra):
            if p in preds and p not in ps:
                ps.append(p)
                v = self.val(o, ins.type, p)
                v = self.leave_to(v, p, l)
                vals.append(v)
        if not vals:
            return self.unknown(ins.dest, ins.type)
        # undefined operands: keep the defined one
        return self.merge(l, ps, vals, ins.dest, ins.type)

    def latch_same_root(self, ins, body):
        for o, p in zip(ins.ops, ins.extra):
            if p in body:
                # pointer obtained by load/gep chain from the phi itself
                d = self.fn.defs.get(o)
                n = 0
                while d is not None and n < 8:
                    if d is ins:
                        break
                    if d.op in ("gep", "load", "cast"):
                        d = self.fn.defs.get(d.ops[0]) if isinstance(d.ops[0], str) else None
                    else:
                        d = None
                    n += 1
                if d is not ins:
                    return False
        return True

    def binop(self, ins, l):
        t = ins.type
        a = self.val(ins.ops[0], t, l)
        b = self.val(ins.ops[1], t, l)
        o = ins.extra
        if t == "i1":
            if o == "and":
                return And(truth(a), truth(b))
            if o == "or":
                return Or(truth(a), truth(b))
            if o == "xor":
                if b is TRUE:
                    return Not(truth(a))
                if a is TRUE:
                    return Not(truth(b))
        if a is UNDEF or b is UNDEF:
            return A(N("op", o, topoly(a), topoly(b)))
        a, b = topoly(a), topoly(b)
        if o in ("add", "fadd"):
            return add(a, b)
        if o in ("sub", "fsub"):
            return sub(a, b)
        if o in ("mul", "fmul"):
            return mul(a, b)
        if o == "fdiv":
            c = const_of(b)
            if c:
                return mul(a, C(Fraction(1) / Fraction(c)))
            x = atom_of(b)
            if x is not None and x.kind == "inv":
                return mul(a, x.a[0])
            if a.a and a is b:
                return ONE
            return mul(a, A(N("inv", b)))
        ca, cb = const_of(a), const_of(b)
        if ca is not None and cb is not None and isinstance(ca, int) and isinstance(cb, int):
            if o in ("udiv", "sdiv") and cb:
                return C(int(Fraction(ca, cb)))
            if o in ("urem", "srem") and cb:
                return C(ca - cb * int(Fraction(ca, cb)))
            if o == "shl":
                return C(ca << cb)
        if o == "shl" and cb is not None:
            return mul(a, C(2 ** int(cb)))
        if o in ("udiv", "sdiv"):
            if cb == 1:
                return a
            if cb and all(c % cb == 0 for _, c in a.a):
                return P({m: c // cb for m, c in a.a})
        if o in ("and", "or", "xor"):
            a, b = sorted((a, b), key=lambda n: n.id)
        return A(N("op", o, a, b))

    def icmp(self, ins, l, st):
        t = ins.type
        a = self.val(ins.ops[0], t, l)
        b = self.val(ins.ops[1], t, l)
        p = ins.extra
        if t == "ptr":
            a = a if a.kind == "ptr" else PTR(a)
            b = b if b.kind == "ptr" else PTR(b)
            if p == "eq":
                return peq(a, b)
            if p == "ne":
                return Not(peq(a, b))
            return N("bool", N("pcmp", p, a, b))
        if t == "i1":
            a, b = truth(a), truth(b)
            if b in (TRUE, FALSE):
                r = a if b is TRUE else Not(a)
                return r if p == "eq" else Not(r)
        a, b = topoly(a), topoly(b)
        d = sub(a, b)
        if p == "eq":
            return eq0(d)
        if p == "ne":
            return Not(eq0(d))
        if p in ("slt", "ult"):
            if p == "ult" and const_of(b) == 0:
                return FALSE
            return le0(add(d, ONE))
        if p in ("sle", "ule"):
            return le0(d)
        if p in ("sgt", "ugt"):
            if p == "ugt" and const_of(b) == 0 and const_of(a) is None:
                return Not(eq0(a))
            return le0(add(neg(d), ONE))
        if p == "uge" and const_of(b) == 0:
            return TRUE
        return le0(neg(d))

    def fcmp(self, ins, l):
        a = topoly(self.val(ins.ops[0], ins.type, l))
        b = topoly(self.val(ins.ops[1], ins.type, l))
        p = ins.extra
        d = sub(a, b)
        if p in ("olt", "ult"):
            return cond_f("flt", d)
        if p in ("ole", "ule"):
            return cond_f("fle", d)
        if p in ("ogt", "ugt"):
            return cond_f("flt", neg(d))
        if p in ("oge", "uge"):
            return cond_f("fle", neg(d))
        if p in ("oeq", "ueq"):
            return cond_f("feq", d)
        if p in ("one", "une"):
            return Not(cond_f("feq", d))
        return N("bool", N("fcmp", p, a, b))

    def cast(self, ins, l):
        k, fromt = ins.extra
        v = self.val(ins.ops[0], fromt, l)
        to = ins.type
        if to == "i1":
            return truth(v)
        if fromt == "i1":
            r = b2i(truth(v))
            if k == "sext":
                return neg(r)
            return r
        if k in ("zext", "sext", "bitcast", "sitofp", "uitofp", "fpext"):
            return v
        if k in ("trunc",):
            c = const_of(v) if v.kind == "poly" else None
            if c is not None and isinstance(c, int):
                bits = int(to[1:])
                c &= (1 << bits) - 1
                if c >= 1 << (bits - 1):
                    c -= 1 << bits
                return C(c)
            return v
        if k == "fptrunc":
            return A(N("op", "fptrunc", topoly(v)))
        if k in ("fptosi", "fptoui"):
            c = const_of(v) if v.kind == "poly" else None
            if c is not None:
                return C(int(c))
            return A(N("op", "fptoi", topoly(v)))
        if k == "ptrtoint":
            return A(v)
        if k == "inttoptr":
            x = atom_of(v) if v.kind == "poly" else None
            if x is not None and x.kind == "ptr":
                return x
            return PTR(N("op", "inttoptr", v))
        return v

    # -- calls ---------------------------------------------------------------------------------
    def newobj(self, ins, size, zero, kind):
        n = N("new", ((self.uid, ins.idx),))
        self.newblock[n] = ins.block
        self.an.news[n] = NewInfo(size, zero, ins.line, self.fn.name, kind)
        return PTR(n)

    def call(self, l, ins, st, loops):
        args = [self.val(a, t, l) for a, t in zip(ins.ops, ins.fline)]
        args = [self.simp(a, st.facts) if isinstance(a, Node) else a for a in args]
        e = Eff("call", l, ins, loops)
        e.args = args
        c = ins.extra
        tag = ("c", self.uid, ins.idx)
        if not (isinstance(c, str) and c.startswith("@")):
            fp = self.val(c, "ptr", l) if isinstance(c, str) else UNDEF
            # resolve a known function address
            if fp.kind == "ptr" and fp.a[0].kind == "glob" and fp.a[0].a[0] in self.prog.functions:
                c = "@" + fp.a[0].a[0]
            else:
                e.callee = ("ind", fp)
                for a, t in zip(args, ins.fline):
                    if t == "ptr" and a.kind == "ptr":
                        r = deep_root(a.a[0])
                        for ty in MODS_STRTYPES:
                            self.killcall(st, r, ("E", ty), tag)
                        if klass(a, None)[0] == "F":
                            self.killcall(st, r, klass(a, None), tag)
                r = self.wrap(N("ret", self.uid, ins.idx, "ind"), ins.type) if ins.dest else None
                e.ret = r
                self.an.effects.append(e)
                if ins.dest:
                    self.env[ins.dest] = r
                return
        c = c[1:]
        e.callee = c
        ret = None
        if c in self.eng.intercept:
            ret = self.eng.intercept[c](self, st, ins, args, tag)
            if ins.type == "ptr" and ret is not None and ret.kind != "ptr":
                ret = PTR(ret)
        elif c in ("malloc", "llvm.malloc"):
            ret = self.newobj(ins, topoly(args[0]), False, "malloc")
        elif c == "calloc":
            ret = self.newobj(ins, mul(topoly(args[0]), topoly(args[1])), True, "calloc")
        elif c == "realloc":
            ret = self.newobj(ins, topoly(args[1]), False, "realloc")
            # contents unknown: mark classes as loaded opaque
            b = ret.a[0]
            self.an.news[b].zero = False
            for ty in MODS_STRTYPES:
                st.ver[(("E", ty), b)] = tag
        elif c == "free":
            pass
        elif c in self.eng.sum:
            ret = self.apply(l, ins, st, args, self.eng.sum[c], c, tag, e)
        elif c.startswith("llvm.memcpy") or c.startswith("llvm.memmove") or c in ("memcpy", "memmove"):
            d = args[0]
            if d.kind == "ptr":
                r = deep_root(d.a[0])
                self.copywhole(st, ins, args, r, tag)
            ret = args[0]
        elif c.startswith("llvm.memset") or c == "memset":
            d = args[0]
            if d.kind == "ptr":
                for cl in self.memcpy_classes(ins):
                    self.killcall(st, deep_root(d.a[0]), cl, tag)
            ret = args[0]
        elif c.startswith("llvm."):
            ret = self.wrap(N("call", c, *args), ins.type) if ins.dest else None
        elif c in PURE:
            ret = self.wrap(N("call", c, *args), ins.type) if ins.dest else None
        else:
            ws = EXTW.get(c)
            if c.endswith("_"):
                e.deref = {}
                for k, (a, t) in enumerate(zip(args, ins.fline)):
                    if t == "ptr" and a.kind == "ptr" and (a.a[0].kind == "alloca" and not a.a[1] or a.a[1] and a.a[1][-1][0] == "F"):
                        v = st.mem.get(a)
                        e.deref[k] = v[0] if v is not None else self.fresh_load(a, "i64" if klass(a, None)[0] == "F" else "i32", st.ver)
            for k, (a, t) in enumerate(zip(args, ins.fline)):
                if t == "ptr" and a.kind == "ptr" and (ws is None or k in ws):
                    r = deep_root(a.a[0])
                    for ty in MODS_STRTYPES:
                        self.killcall(st, r, ("E", ty), tag)
                    if klass(a, None)[0] == "F":
                        self.killcall(st, r, klass(a, None), tag)
            if ins.dest:
                ret = self.wrap(N("ret", self.uid, ins.idx, c), ins.type)
        if ins.dest and ret is None:
            ret = self.wrap(N("ret", self.uid, ins.idx, c), ins.type)
        e.ret = ret
        self.an.effects.append(e)
        if ins.dest:
            if ins.type == "i1":
                ret = truth(ret)
            self.env[ins.dest] = ret

    def copywhole(self, st, ins, args, root, tag):
        """memcpy / memmove; whole-struct copies transfer the known fields"""
        d, s = args[0], args[1]
        n = const_of(args[2]) if args[2].kind == "poly" else None
        todo = []
        if n is not None and s.kind == "ptr":
            for sn, el in self.prog.structs.items():
                if el and self.prog.sizeof("%" + sn) == n:
                    cands = [k for k in st.mem if k.a[0] is s.a[0] and k.a[1][:len(s.a[1])] == s.a[1] and
                             len(k.a[1]) == len(s.a[1]) + 1 and k.a[1][-1][0] == "F" and k.a[1][-1][1] == sn]
                    for k in cands:
                        todo.append((addstep(d, k.a[1][-1]), st.mem[k]))
        for cl in self.memcpy_classes(ins):
            self.killcall(st, root, cl, tag)
        for loc, (v, ty) in todo:
            st.mem[loc] = (v, ty)

    def killcall(self, st, root, cl, tag):
        if root is STAR:
            self.kill(st.mem, st.ver, None, cl, tag)
            return
        if root.kind == "null":
            return
        self.kill(st.mem, st.ver, root, cl, tag)
        # objects hanging off the root that were allocated here
        if self.storednew:
            for q in self.storednew:
                if q is root:
                    continue
                hit = False
                for loc in list(st.mem):
                    if deep_root(loc.a[0]) is q:
                        v, ty = st.mem[loc]
                        if cl == "ALL" or klass(loc, ty) == cl:
                            if self.reach_obj(st, root, q):
                                del st.mem[loc]
                                hit = True
                if hit or self.reach_obj(st, root, q):
                    st.ver[(cl, q)] = tag

    def reach_obj(self, st, root, q, depth=0, seen=None):
        """may object q be reachable from root through stored pointers"""
        seen = seen or set()
        if root in seen or depth > 6:
            return True
        seen.add(root)
        for loc, (v, ty) in st.mem.items():
            if v.kind == "ptr" and deep_root(loc.a[0]) is root:
                for b in ptr_alts(v):
                    if b is q:
                        return True
                    if b.kind == "new" and b not in seen and self.reach_obj(st, b, q, depth + 1, seen):
                        return True
        return False

    def apply(self, l, ins, st, args, s, cname, tag, eff=None):
        if s.opaque:
            self.kill(st.mem, st.ver, None, "ALL", tag)
            return None
        site = (self.uid, ins.idx)
        pre_mem, pre_ver = st.mem, st.ver
        memo = {}
        callst = State(dict(pre_mem), dict(pre_ver), st.facts)
        uid = self.uid

        def f(n):
            k = n.kind
            if k == "arg":
                i = n.a[0]
                if i < len(args):
                    return args[i]
                return N("x", site, n)
            if k == "ld":
                if n.a[1] == 0:
                    loc = subst(n.a[0], f, memo)
                    if loc.kind != "ptr":
                        return N("x", site, n)
                    ty = loadty.get(n)
                    v = self.load(callst, loc, ty or self.guess_ty(n))
                    return v
                return N("x", site, N("ldx", subst(n.a[0], f, memo), n.id))
            if k == "new":
                if len(n.a[0]) > 5:
                    m = N("new", (site, ("*", n.id)))
                else:
                    m = N("new", (site,) + n.a[0])
                self.newblock[m] = ins.block
                if m not in self.an.news and n in s.news:
                    i0 = s.news[n]
                    sz = subst(i0.size, f, memo) if i0.size is not None else None
                    self.an.news[m] = NewInfo(sz, i0.zero, i0.line, i0.fn, i0.kind)
                return m
            if k in ("phi", "unk", "ret", "k", "kx", "uninit", "cut", "big"):
                return N("x", site, n)
            if k == "rphi":
                return N("x", site, n)
            if k == "alloca":
                return N("x", site, n)
            if k == "x":
                if len(n.a) == 2 and isinstance(n.a[0], tuple) and n.w > 60:
                    return N("x", site, n.id)
                return N("x", site, n)
            return None

        loadty = s.loadty
        if eff is not None:
            eff.inst = lambda n: subst(n, f, memo)
        ret = None
        if s.ret is not None:
            ret = subst(s.ret, f, memo)
            if ret.w > MAXW:
                ret = None
            elif ins.type == "ptr" and ret.kind != "ptr":
                ret = PTR(ret)
            elif ins.type in ("i64", "i32", "double", "i8") and ret.kind != "poly":
                ret = topoly(ret)
        wr = []
        for loc, v, ty in s.writes:
            l2 = subst(loc, f, memo)
            v2 = subst(v, f, memo)
            if l2.kind == "ptr" and l2.a[0].kind != "null":
                if ty == "ptr" and v2.kind != "ptr":
                    v2 = PTR(v2) if v2.kind != "poly" else (NULL if const_of(v2) == 0 else PTR(v2))
                wr.append((l2, v2, ty))
        done = set()
        for root, cl in s.mods:
            if root.kind == "arg":
                i = root.a[0]
                if i < len(args) and args[i].kind == "ptr":
                    r = deep_root(args[i].a[0])
                else:
                    r = STAR
            elif root.kind == "glob":
                r = root
            else:
                r = STAR
            if r.kind == "alloca":
                for loc, (v, ty) in list(st.mem.items()):
                    if v.kind == "ptr" and loc.a[0] is r:
                        for b in ptr_alts(v):
                            q = deep_root(b)
                            if q.kind not in ("null", "alloca") and (q, cl) not in done:
                                done.add((q, cl))
                                self.killcall(st, q, cl, tag)
            if cl[0] == "E" and root.kind == "arg" and root.a[0] < len(args) and args[root.a[0]].kind == "ptr":
                fc = klass(args[root.a[0]], None)
                if fc[0] == "F" and (r, fc) not in done:
                    done.add((r, fc))
                    self.killcall(st, r, fc, tag)
            if (r, cl) in done:
                continue
            done.add((r, cl))
            self.killcall(st, r, cl, tag)
        for loc, v, ty in wr:
            if v.kind == "ptr":
                for b in ptr_alts(v):
                    if b.kind == "new":
                        self.storednew.add(b)
            if loc.a[0].kind == "ite":
                continue
            st.mem[loc] = (v, ty)
            st.ver.setdefault((klass(loc, ty), deep_root(loc.a[0])), tag)
            if st.ver[(klass(loc, ty), deep_root(loc.a[0]))] == 0:
                st.ver[(klass(loc, ty), deep_root(loc.a[0]))] = tag
        # classes written in new objects but not precisely known
        for n2, cl in s.newmods:
            m = subst(n2, f, memo)
            if m.kind == "new":
                st.ver.setdefault((cl, m), tag)
        return ret

    # -- summary -----------------------------------------------------------------------------
    def summary(self):
        an = self.an
        s = Summary()
        s.loadty = {}
        s.newmods = set()
        rets = [e for e in an.effects if e.kind == "ret"]
        if not rets:
            s.noreturn = True
        s.ret = an.ret
        s.news = {n: i for n, i in an.news.items() if n.kind == "new"}
        for e in an.effects:
            if e.block not in self.cfg.live:
                continue
            if e.kind == "load":
                v = e.val
                a = v.a[0] if v.kind == "ptr" else (atom_of(v) if v.kind == "poly" else None)
                if a is not None and a.kind == "ld":
                    s.loadty[a] = e.type
            elif e.kind == "store":
                self.addmod(s, e.loc, klass(e.loc, e.type))
            elif e.kind == "call":
                self.callmods(s, e)
        # types for loads inherited through summaries
        for e in an.effects:
            if e.kind == "call" and isinstance(e.callee, str):
                cs = self.eng.sum.get(e.callee)
                if cs is not None and not cs.opaque:
                    for k, t in cs.loadty.items():
                        pass
        out = getattr(an, "mem_out", {})
        keep = self.exported(out, s.ret)
        s.news = {n: i for n, i in s.news.items() if n in keep}
        cnt = 0
        for loc, (v, ty) in out.items():
            r = deep_root(loc.a[0])
            if r.kind == "alloca" or r is STAR or loc.a[0].kind in ("cut",):
                continue
            if v.kind == "poly":
                a = atom_of(v)
                if a is not None and a.kind == "ld" and a.a[0] is loc:
                    s.loadty[a] = ty
                    continue
            if v.kind == "ptr" and v.a[0].kind == "ld" and v.a[0].a[0] is loc and not v.a[1]:
                s.loadty[v.a[0]] = ty
                continue
            if loc.fl & FL_LOCAL:
                continue
            if r.kind == "new" and r not in keep:
                continue
            if loc.w + v.w > 150:
                v = self.wrap(N("cut", "w", self.uid, loc.id), ty)
            s.writes.append((loc, v, ty))
            cnt += 1
            if cnt > 160:
                break
        for (key, tag) in getattr(an, "ver_out", {}).items():
            if key == "ALL":
                continue
            cl, r = key
            if r.kind == "new" and r in keep:
                s.newmods.add((r, cl))
        # types of all ld atoms in ret/writes
        need = set()
        for x in [s.ret] + [y for w in s.writes for y in w[:2]] + [i.size for i in s.news.values() if i.size is not None]:
            if x is not None:
                for n in subnodes(x):
                    if n.kind == "ld":
                        need.add(n)
        for n in need:
            if n not in s.loadty:
                s.loadty[n] = self.guess_ty(n)
        return s

    def exported(self, out, ret):
        """objects allocated here that stay reachable for the caller"""
        edges = {}
        seen = set()
        work = []

        def news_in(v):
            if not v.fl & FL_NEW:
                return ()
            return [n for n in subnodes(v) if n.kind == "new"]
        for loc, (v, ty) in out.items():
            if v.kind != "ptr" or not v.fl & FL_NEW:
                continue
            r = deep_root(loc.a[0])
            if r.kind == "new":
                edges.setdefault(r, []).extend(news_in(v))
            elif r.kind != "alloca":
                work += news_in(v)
        for e in self.an.effects:
            if e.kind == "store" and e.val.kind == "ptr" and e.val.fl & FL_NEW:
                r = deep_root(e.loc.a[0])
                if r.kind == "new":
                    edges.setdefault(r, []).extend(news_in(e.val))
                elif r.kind != "alloca":
                    work += news_in(e.val)
        if ret is not None:
            work += news_in(ret)
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            work += edges.get(n, [])
        return seen

    def guess_ty(self, n):
        st = n.a[0].a[1]
        if st and st[-1][0] == "F":
            el = self.prog.structs.get(st[-1][1])
            if el and st[-1][2] < len(el):
                return el[st[-1][2]]
        if st and st[-1][0] == "I":
            t = st[-1][2]
            if t in ("double", "i64", "i32", "ptr", "i8"):
                return t
        return "i64"

    def addmod(self, s, loc, cl):
        r = deep_root(loc.a[0])
        if r.kind in ("new", "alloca", "null"):
            return
        s.mods.add((r if r.kind in ("arg", "glob") else STAR, cl))

    def heldroots(self, p):
        """objects reachable through pointers stored in a local variable whose address is passed on"""
        r = deep_root(p.a[0])
        if r.kind != "alloca":
            return ()
        if self._held is None:
            self._held = {}
            for e in self.an.effects:
                if e.kind == "store" and e.val.kind == "ptr" and deep_root(e.loc.a[0]).kind == "alloca":
                    for b in ptr_alts(e.val):
                        q = deep_root(b)
                        if q.kind in ("arg", "glob"):
                            self._held.setdefault(deep_root(e.loc.a[0]), {})[q] = 1
        return self._held.get(r, ())

    def callmods(self, s, e):
        ins = e.ins
        c = e.callee
        if not isinstance(c, str):
            for a, t in zip(e.args, ins.fline):
                if t == "ptr" and a.kind == "ptr":
                    for ty in MODS_STRTYPES:
                        self.addmod(s, a, ("E", ty))
                    if klass(a, None)[0] == "F":
                        self.addmod(s, a, klass(a, None))
            return
        cs = self.eng.sum.get(c)
        if cs is not None:
            if cs.opaque:
                s.mods.add((STAR, "ALL"))
                return
            for root, cl in cs.mods:
                if root.kind == "arg":
                    i = root.a[0]
                    if i < len(e.args) and e.args[i].kind == "ptr":
                        self.addmod(s, e.args[i], cl)
                        for q in self.heldroots(e.args[i]):
                            self.addmod(s, PTR(q), cl)
                        if cl[0] == "E" and klass(e.args[i], None)[0] == "F":
                            self.addmod(s, e.args[i], klass(e.args[i], None))
                    else:
                        s.mods.add((STAR, cl))
                else:
                    s.mods.add((root, cl))
            return
        if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove") or c.startswith("llvm.memset") or c in ("memcpy", "memmove", "memset"):
            for cl in self.memcpy_classes(ins):
                if e.args[0].kind == "ptr":
                    self.addmod(s, e.args[0], cl)
            return
        if c.startswith("llvm.") or c in PURE:
            return
        ws = EXTW.get(c)
        for k, (a, t) in enumerate(zip(e.args, ins.fline)):
            if t == "ptr" and a.kind == "ptr" and (ws is None or k in ws):
                for ty in MODS_STRTYPES:
                    self.addmod(s, a, ("E", ty))
                if klass(a, None)[0] == "F":
                    self.addmod(s, a, klass(a, None))


def rebase(p, steps):
    if p.kind != "ptr":
        p = PTR(p)
    for s in steps:
        p = addstep(p, s)
    return p


def ptr_alts(v, depth=0):
    """base nodes a pointer value may denote"""
    if v.kind != "ptr":
        return []
    b = v.a[0]
    if b.kind == "ite" and depth < 6:
        out = []
        for x in b.a[1:]:
            out += ptr_alts(x, depth + 1)
        return out
    return [b]


def may_same(a, b):
    """may the two access paths denote the same cell (roots already may-alias)?"""
    if a is b:
        return True
    sa, sb = a.a[1], b.a[1]
    if a.a[0] is b.a[0] and len(sa) == len(sb):
        for x, y in zip(sa, sb):
            if x == y:
                continue
            if x[0] == "I" and y[0] == "I":
                d = const_of(sub(x[1], y[1]))
                if d is not None and d != 0:
                    return False
                return True
            if x[0] == "F" and y[0] == "F" and x[1] == y[1] and x[2] != y[2]:
                return False
            return True
        return True
    if a.a[0] is b.a[0]:
        n = min(len(sa), len(sb))
        for x, y in zip(sa[:n], sb[:n]):
            if x != y and x[0] == "F" and y[0] == "F" and x[1] == y[1]:
                return False
        # p vs p[i]: i != 0 const
        longer = sa if len(sa) > len(sb) else sb
        if sa[:n] == sb[:n] and len(longer) == n + 1 and longer[n][0] == "I":
            d = const_of(longer[n][1])
            if d is not None and d != 0:
                return False
        return True
    # arrays reached through different fields are distinct storage
    la, lb = lastfield(a), lastfield(b)
    if la and lb and la != lb:
        return False
    return True


def lastfield(p):
    """the struct field through which the storage of p is reached"""
    for s in reversed(p.a[1]):
        if s[0] == "F":
            return (s[1], s[2])
    b = p.a[0]
    if b.kind == "ld":
        return lastfield(b.a[0])
    return None


def trip_of(stay, k):
    """stay condition as le0(c*k + rest): number of iterations for which it holds"""
    if stay.kind == "and":
        ts = [trip_of(x, k) for x in stay.a]
        ts = [t for t in ts if t is not None]
        if ts:
            return ts[0]
        return None
    if stay.kind == "not" and stay.a[0].kind == "eq0":
        # i != n
        p = stay.a[0].a[0]
        co, rest = linear(p, k)
        if co in (1, -1):
            return mul(C(-co), rest)
        return None
    if stay.kind != "le0":
        return None
    p = stay.a[0]
    co, rest = linear(p, k)
    if co is None or co <= 0:
        return None
    # co*k + rest <= 0  ->  k <= -rest/co ; count = floor(-rest/co)+1
    if co == 1:
        return add(neg(rest), ONE)
    c = const_of(rest)
    if c is not None:
        return C(int(Fraction(-c, co).__floor__()) + 1)
    return A(N("op", "ceildiv", add(neg(rest), ONE), C(co)))


def linear(p, k):
    """p = co*k + rest with rest free of k, co integer"""
    co = 0
    rest = {}
    for m, c in p.a:
        n = m.count(k)
        if n == 0:
            for x in m:
                if contains(x, lambda y: y is k):
                    return None, None
            rest[m] = c
        elif n == 1 and len(m) == 1:
            co += c
        else:
            return None, None
    return co, P(rest)
