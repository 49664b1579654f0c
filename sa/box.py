"""Where the points handed to the objective come from: IN (projected onto the box, or the checked starting point), OUT (last
written without regard to the bounds) or unknown, as a forward dataflow over the arrays of a function and of the routines it calls."""
import random
from .sym import *
from .util import flat, strip_last_index, contains
from . import maps

IN, OUT, UNK = "in", "out", "?"
READERS = {"cblas_ddot", "cblas_dnrm2", "printf", "fprintf", "puts", "free", "putchar", "fputs", "sqrt", "pow", "fabs", "exit", "__assert_fail", "memset", "perror", "fflush",
           "cblas_idamax", "cblas_dasum", "isnan", "isinf"}


EVAL = {"c3opt_eval", "c3opt_eval_stoch"}


class BoxEval(Exception):
    pass


class Loc:
    pass


def key(n, env):
    """text of a location with the optimizer's fields named alike in every function"""
    s = show(n).replace("'", "")
    for a, b in env:
        if s == a or s.startswith(a + "->") or s.startswith(a + "["):
            s = b + s[len(a):]
        s = s.replace("(" + a + "->", "(" + b + "->").replace("[" + a + "->", "[" + b + "->").replace("*" + a + "->", "*" + b + "->").replace("+" + a + "->", "+" + b + "->")
    return s


def norm0(s):
    return s[:-3] if s.endswith("[0]") else s


class Box:
    def __init__(self, eng, prog):
        self.eng, self.prog = eng, prog
        self.memo = {}
        self.bad = {}
        self.evals = {}
        self.unsure = {}
        self.flats = {}
        self.visited = set()

    def flat(self, name):
        if name not in self.flats:
            effs = flat(self.eng, name, kinds=("store", "call", "ret"))
            by = {}
            for f in effs:
                by.setdefault(f.eff.block, []).append(f)
            self.flats[name] = (effs, by)
        return self.flats[name]

    # ---- roles: which array is the lower and which the upper bound
    def role(self, n, roles):
        """roles: location text -> 'lb'/'ub'/'d'"""
        return roles.get(norm0(n))

    def analyse(self, name, names, state, chain=()):
        """names: ((callee text, common text)...) for parameters; state: frozenset of (location, frozenset of values).
        Returns the state at return."""
        k = (name, names, state)
        if k in self.memo and name not in EVAL:
            return self.memo[k]
        self.memo[k] = None
        r = Run(self, name, names, dict(state), chain).go()
        self.memo[k] = r
        return r


class Run:
    def __init__(self, B, name, names, st0, chain):
        self.B, self.name, self.names, self.chain, self.depth = B, name, names, chain, len(chain)
        self.dfn = {i.dest: i for b in B.prog.functions[name].blocks.values() for i in b.instrs if i.dest}
        self.st0 = st0
        self.an = B.eng.an[name]
        self.cfg = B.eng.cfg(name)
        self.effs, self.by = B.flat(name)
        B.visited.add(name)
        self.groups = self.loop_stores()

    def key(self, n):
        return norm0(key(n, self.names))

    def isbound(self, s):
        """LB / UB for the text of a location"""
        return {"LB": "lb", "UB": "ub", "OPT->lb": "lb", "OPT->ub": "ub"}.get(norm0(s))

    # ---- element stores, grouped by (loop header, array)
    def loop_stores(self):
        g = {}
        for f in self.effs:
            if f.kind != "store" or f.type != "double":
                continue
            if f.loc.kind != "ptr" or not f.loc.a[1] or f.loc.a[1][-1][0] != "I":
                continue
            base, idx, elt = strip_last_index(f.loc)
            hs = f.eff.loops
            if not hs:
                continue
            h = None
            for x, (kk, trip, ex) in zip(hs, f.loops):
                ka = atom_of(kk) if kk.kind == "poly" else kk
                if ka is not None and contains(idx, lambda n: n is ka):
                    h = (x, kk, trip, ka)
            if h is None:
                continue
            off = sub(idx, h[1] if h[1].kind == "poly" else A(h[1]))
            if contains(off, lambda n: n is h[3]):
                off = None
            loc = None if off is None else self.key(addstep(base, ("I", off, elt)) if const_of(off) != 0 else base)
            g.setdefault(h[0], {}).setdefault(loc if loc is not None else self.key(base), []).append((f, h, off))
        out = {}
        for h, arrs in g.items():
            for loc, items in arrs.items():
                out.setdefault(h, {})[loc] = self.classify(loc, items)
        return out

    def classify(self, loc, items):
        mention = short = False
        ok = True
        for f, h, off in items:
            if off is None:
                ok = False
            if h[2] is None:
                ok = False
            elif self.key(h[2]) not in ("OPT->d", "DIM"):
                c = sub(h[2], self.dim()) if self.dim() is not None else None
                c = const_of(c) if c is not None else None
                if c is not None and c < 0:
                    short = True
                else:
                    ok = False
            for n in [f.val] + list(f.guards):
                if isinstance(n, Node):
                    for a in self.loads(n):
                        if self.isbound(a) or any(self.isbound(a.split("[")[0]) for _ in (0,)):
                            mention = True
                    if self.opaque(n, h):
                        mention = mention or self.opaque(n, h)
        if ok:
            src = [self.copied(f, h) for f, h, off in items]
            if any(a and not self.isbound(a) and a != loc for a in src):
                if len(src) == 1:
                    f, h, off = items[0]
                    return (("copy", src[0]), short or any(self.relevant(g, h) and contains(g, lambda n: n is h[3]) for g in f.guards))
                if not mention:
                    return (UNK, False)
        if not mention:
            return (OUT, short) if ok else (UNK, False)
        if not ok:
            return (UNK, False)
        try:
            return (self.cases(loc, items), short)
        except BoxEval:
            return (UNK, False)

    def copied(self, f, h):
        """the array whose element of this index is stored, when the store copies an element"""
        v = f.val
        if isinstance(v, Node) and v.kind == "poly":
            v = atom_of(v)
        if not isinstance(v, Node) or v.kind != "ld" or v.a[0].kind != "ptr" or not v.a[0].a[1] or v.a[0].a[1][-1][0] != "I":
            return None
        base, idx, elt = strip_last_index(v.a[0])
        off = sub(idx, h[1] if h[1].kind == "poly" else A(h[1]))
        if contains(off, lambda n: n is h[3]):
            return None
        return self.key(addstep(base, ("I", off, elt)) if const_of(off) != 0 else base)

    def dim(self):
        """the dimension, as this function writes it"""
        for f in self.effs:
            for kk, trip, ex in f.loops:
                if trip is not None:
                    for x in walk(trip):
                        if x.kind in ("ld", "arg") and self.key(x) in ("OPT->d", "DIM"):
                            return A(x)
        return None

    def loads(self, n, out=None):
        out = set() if out is None else out
        for x in walk(n):
            if x.kind == "ld":
                p = x.a[0]
                out.add(self.key(p))
                if p.kind == "ptr" and p.a[1] and p.a[1][-1][0] == "I":
                    out.add(self.key(strip_last_index(p)[0]))
        return out

    def opaque(self, n, h):
        """a value of this iteration the engine could not close (it may hide the projection)"""
        for x in walk(n):
            if x.kind in ("phi", "ret", "rphi", "x", "unk", "cut", "big", "sum"):
                if x.kind == "unk" and x.a and x.a[0] == "reach":
                    continue
                if x.kind == "phi" and x.a[0] == self.name and x.a[1] not in self.cfg.loops.get(h[0], ()) and x.a[1] != h[0] and not self.hides(x.a[2]):
                    continue
                return True
        return False

    def store_loops(self):
        return {h for f in self.effs if f.kind == "store" and f.type == "double" for h in f.eff.loops[-1:]}

    def preds(self, b):
        return [l for l, blk in self.cfg.fn.blocks.items() if b in blk.succs]

    def controls(self, b):
        """blocks whose branch decides what a phi of block b takes"""
        cfg = self.cfg
        if b in cfg.loops:
            body = set(cfg.loops[b])
            for h in self.store_loops():
                if h != b:
                    body -= set(cfg.loops.get(h, ()))
            return body | {b}
        d = cfg.idom.get(b)
        out, st = set(), [p for p in self.preds(b)]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            if x != d:
                st.extend(self.preds(x))
        return out

    def hides(self, v, seen=None):
        """a scalar of an outer loop whose computation may involve the bounds"""
        seen = set() if seen is None else seen
        if v in seen or not isinstance(v, str) or not v.startswith("%"):
            return False
        seen.add(v)
        i = self.dfn.get(v)
        if i is None:
            return False
        if i.op == "call":
            c = i.extra
            c = c[1:] if isinstance(c, str) and c.startswith("@") else None
            if c is None or c in EVAL or c in READERS or c.startswith("llvm."):
                return False
            for a, t in zip(i.ops, i.fline):
                n = self.an.env.get(a)
                if t == "ptr" and isinstance(n, Node) and self.isbound(self.key(n)):
                    return True
            return False
        if i.op == "load":
            n = self.an.env.get(i.ops[0])
            if isinstance(n, Node) and n.kind == "ptr" and n.a[1] and n.a[1][-1][0] == "I" and self.isbound(self.key(strip_last_index(n)[0])):
                return True
            return isinstance(n, Node) and self.isbound(self.key(n)) is not None and i.type == "double"
        ops = list(i.ops)
        if i.op == "phi":
            b = next((l for l, blk in self.cfg.fn.blocks.items() if i in blk.instrs), None)
            for x in self.controls(b):
                t = self.cfg.fn.blocks[x].term
                if t.op in ("br", "switch") and t.ops:
                    ops.append(t.ops[0])
        return any(self.hides(o, seen) for o in ops)

    def cases(self, loc, items):
        """the value an element ends up with, for every order of the old value and the bounds"""
        items = sorted(items, key=lambda t: (self.cfg.rpo.index(t[0].eff.block), self.order(t[0])))
        rnd = random.Random(7)
        trials = [(v, l, u) for l, u in ((0.0, 1.0), (0.5, 0.5)) for v in (-2.0, 0.0, 0.25, 0.5, 0.75, 1.0, 3.0)]
        trials += [(rnd.uniform(-3, 3), 0.0, 1.0) for _ in range(40)]
        for v, l, u in trials:
            cur = v
            free = {}
            for f, h, off in items:
                ev = lambda n: self.value(n, loc, v, l, u, h, free, rnd)
                if all(ev_cond(g, ev) for g in f.guards if self.relevant(g, h)):
                    cur = ev(f.val)
            if not (l <= cur <= u):
                return OUT
        return IN

    def order(self, f):
        b = self.cfg.fn.blocks[f.eff.block]
        return next((n for n, i in enumerate(b.instrs) if i is f.ins), 0)

    def relevant(self, g, h):
        return contains(g, lambda n: n is h[3])

    def value(self, n, loc, v, l, u, h, free, rnd):
        if not isinstance(n, Node):
            return float(n)
        k = n.kind
        if k == "poly":
            s = 0.0
            for m, c in n.a:
                t = float(c)
                for y in m:
                    t *= self.value(y, loc, v, l, u, h, free, rnd)
                s += t
            return s
        if k == "ld":
            p = n.a[0]
            if p.kind == "ptr" and p.a[1] and p.a[1][-1][0] == "I" and contains(p.a[1][-1][1], lambda x: x is h[3]):
                base, idx, elt = strip_last_index(p)
                off = sub(idx, h[1] if h[1].kind == "poly" else A(h[1]))
                if contains(off, lambda x: x is h[3]):
                    raise BoxEval
                q = self.key(addstep(base, ("I", off, elt)) if const_of(off) != 0 else base)
                if q == loc:
                    return v
                r = self.isbound(q)
                if r:
                    return l if r == "lb" else u
            s = show(n)
            if s not in free:
                free[s] = rnd.uniform(-2, 2)
            return free[s]
        if k == "arg":
            s = show(n)
            if s not in free:
                free[s] = rnd.uniform(-2, 2)
            return free[s]
        if k == "ite":
            return self.value(n.a[1] if ev_cond(n.a[0], lambda x: self.value(x, loc, v, l, u, h, free, rnd)) else n.a[2], loc, v, l, u, h, free, rnd)
        if k == "call" and n.a[0] in ("fmax", "fmin", "llvm.maxnum.f64", "llvm.minnum.f64"):
            return (max if "max" in n.a[0] else min)(*(self.value(x, loc, v, l, u, h, free, rnd) for x in n.a[1:3]))
        if k == "call" and n.a[0] in maps.FUNS:
            return maps.FUNS[n.a[0]](self.value(n.a[1], loc, v, l, u, h, free, rnd))
        raise BoxEval

    # ---- dataflow
    def go(self):
        cfg = self.cfg
        b0 = cfg.rpo[0]
        ins = {b0: dict(self.st0)}
        todo = [b0]
        rets = None
        n = 0
        pos = {b: k for k, b in enumerate(cfg.rpo)}
        while todo:
            n += 1
            if n > 4000:
                return None
            todo.sort(key=lambda b: -pos.get(b, 0))
            b = todo.pop()
            st = dict(ins[b])
            ret = False
            for f in self.by.get(b, ()):
                if f.kind == "call":
                    st = self.call(f, st)
                    if st is None:
                        break
                elif f.kind == "store":
                    self.store(f, st)
                elif f.kind == "ret":
                    ret = True
            if st is None:
                continue
            if self.cfg.fn.blocks[b].term.op == "ret":
                rets = join(rets, st)
                continue
            for s in self.feasible(b):
                if s not in pos or s not in cfg.live:
                    continue
                t = dict(st)
                if s in self.groups and b not in cfg.loops.get(s, ()):
                    for loc, (v, short) in self.groups[s].items():
                        # a loop that stops short leaves the last components as they were
                        if isinstance(v, tuple):
                            self.put(t, loc, self.get(st, v[1]) | (self.get(t, loc) if short else frozenset()))
                            continue
                        self.put(t, loc, frozenset([v]) | (self.get(t, loc) if short else frozenset()))
                old = ins.get(s)
                new = join(old, t)
                if new != old:
                    ins[s] = new
                    if s not in todo:
                        todo.append(s)
        return rets

    def feasible(self, b):
        """successors, the bounds being given"""
        blk = self.cfg.fn.blocks[b]
        t = blk.term
        if t.op == "br" and t.ops:
            i = self.dfn.get(t.ops[0])
            if i is not None and i.op == "icmp" and i.extra in ("eq", "ne") and "null" in i.ops:
                x = i.ops[0] if i.ops[1] == "null" else i.ops[1]
                n = self.an.env.get(x)
                if isinstance(n, Node) and self.isbound(self.key(n)):
                    return [t.extra[1 if i.extra == "eq" else 0]]
        return blk.succs

    def put(self, st, loc, v):
        st[loc] = v

    def get(self, st, loc):
        return st.get(loc, frozenset([UNK]))

    def store(self, f, st):
        # element stores are applied at their loop's head; a store of the pointer itself forgets
        if f.type != "double":
            return
        if f.loc.kind == "ptr" and f.loc.a[1] and f.loc.a[1][-1][0] == "I":
            base = self.key(strip_last_index(f.loc)[0])
            if not f.eff.loops or not any(base == l or l.startswith(base + "[") or base.startswith(l + "[") for g in self.groups.values() for l in g):
                for l in list(st):
                    if l == base or l.startswith(base + "["):
                        st[l] = st[l] | {UNK}
        else:
            k = self.key(f.loc)
            if k in st:
                st[k] = st[k] | {UNK}

    def call(self, f, st):
        B = self.B
        c = f.callee
        args = f.args
        if isinstance(c, tuple):
            fp = self.key(c[1])
            pt = 1 if fp.startswith("OPT->") else 0
            if fp in ("OPT->f", "OPT->fsgd") or not fp.startswith("OPT"):
                self.evaluate(f, args[pt] if pt < len(args) else None, st)
            # the objective may write its gradient argument
            for n, a in enumerate(args):
                if n != pt:
                    k = self.key(a)
                    if k in st:
                        st[k] = frozenset([UNK])
            return st
        if c in ("exit", "__assert_fail", "abort"):
            return None
        if c.startswith("llvm.memmove") or c.startswith("llvm.memcpy") or c in ("memmove", "memcpy"):
            dst, src = self.key(args[0]), self.key(args[1])
            n = self.key(args[2])
            if n in ("8*OPT->d", "8*DIM"):
                v = self.get(st, src)
            else:
                v = frozenset([UNK])
            self.put(st, dst, v)
            return st
        if c == "cblas_dcopy":
            self.put(st, self.key(args[3]), self.get(st, self.key(args[1])))
            return st
        if c == "cblas_daxpy":
            self.put(st, self.key(args[4]), frozenset([UNK if self.hides(f.ins.ops[1]) else OUT]))
            return st
        if c == "cblas_dscal":
            self.put(st, self.key(args[2]), frozenset([UNK if self.hides(f.ins.ops[1]) else OUT]))
            return st
        w = EXTW.get(c)
        if w is not None:
            for n in w:
                if n < len(args):
                    k = self.key(args[n])
                    if k in st:
                        st[k] = frozenset([UNK])
            return st
        if c in READERS or c.startswith("llvm."):
            return st
        if c in B.eng.an and c in B.prog.functions and B.prog.functions[c].blocks and self.depth < 6:
            names, sub_, back = [], {}, {}
            for n, a in enumerate(args):
                k = self.key(a)
                p = f"a{n}"
                if k == "OPT" or self.isbound(k) or k in ("OPT->d", "DIM"):
                    names.append((p, {"lb": "LB", "ub": "UB"}.get(self.isbound(k), "DIM" if k in ("OPT->d", "DIM") else k)))
                elif k in st:
                    names.append((p, p))
                    sub_[p] = st[k]
                    back[p] = k
                elif k.startswith("OPT->"):
                    names.append((p, p))
                    sub_[p] = self.get(st, k)
                    back[p] = k
            for l, v in st.items():
                if l.startswith("OPT->"):
                    sub_[l] = v
            # the bounds swapped or foreign bounds are visible in the callee's own names
            out = B.analyse(c, tuple(names), frozenset(sub_.items()), self.chain + ((self.name, f.line),))
            if out is None:
                if c not in B.eng.an or self.writes(c):
                    for p, k in back.items():
                        st[k] = st.get(k, frozenset()) | {UNK}
                return st
            for p, k in back.items():
                if p in out:
                    st[k] = out[p]
            for l, v in out.items():
                if l.startswith("OPT->"):
                    st[l] = v
            return st
        for a in args:
            k = self.key(a)
            if k in st:
                st[k] = st[k] | {UNK}
        return st

    def writes(self, c):
        return True

    def evaluate(self, f, a, st):
        B = self.B
        if a is None:
            return
        k = self.key(a)
        v = self.get(st, k)
        ch = self.chain + ((self.name, f.line),)
        site = ch[-2] if len(ch) > 1 and self.name in EVAL else ch[-1]
        B.evals.setdefault(site, set()).update(v)
        if OUT in v and UNK not in v:
            B.bad.setdefault(site, (k, ch))


def ev_cond(c, ev):
    k = c.kind
    if c is TRUE or c is FALSE:
        return c is TRUE
    if k in ("le0", "fle"):
        return ev(c.a[0]) <= 0
    if k == "flt":
        return ev(c.a[0]) < 0
    if k in ("eq0", "feq"):
        return ev(c.a[0]) == 0
    if k == "not":
        return not ev_cond(c.a[0], ev)
    if k == "and":
        return all(ev_cond(y, ev) for y in c.a)
    if k == "or":
        return any(ev_cond(y, ev) for y in c.a)
    raise BoxEval


def walk(n):
    st, seen = [n], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, Node):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.a)


def join(a, b):
    if a is None:
        return dict(b)
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, v) | v
    return out
