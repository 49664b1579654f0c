"""How often a loop can do its work when the configured budget is a small number: constant propagation of the
loop counters, flags and return codes along all paths, every other condition taken both ways."""
from .paths import *
from . import paths
from .init import Fn, natural_loops, callee, dbg


def closure(dfn, roots):
    """the integers the roots are computed from, through arithmetic, comparisons, selections and phis"""
    out, todo = set(), list(roots)
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        i = dfn.get(x)
        if i is not None and i.op in ("bin", "icmp", "cast", "select", "phi", "freeze"):
            todo += i.ops
    return out


def liveness(f):
    """values live at the entry of every block (phi operands count at the end of their predecessor)"""
    use, dfs, live = {}, {}, {}
    phiuse = {}
    for n, b in f.blocks.items():
        u, d = set(), set()
        for i in b.instrs:
            if i.op == "phi":
                d.add(i.dest)
                for o, p in zip(i.ops, i.extra):
                    phiuse.setdefault(p, set()).add(o)
                continue
            u |= {o for o in i.ops if o not in d}
            if i.dest:
                d.add(i.dest)
        if b.term is not None and b.term not in b.instrs:
            u |= {o for o in b.term.ops if o not in d}
        use[n], dfs[n], live[n] = u, d, set()
    ch = True
    succ = {n: succs(b.term) for n, b in f.blocks.items()}
    while ch:
        ch = False
        for n in f.blocks:
            out = set(phiuse.get(n, ()))
            for s in succ[n]:
                out |= live[s]
            new = use[n] | (out - dfs[n])
            if new != live[n]:
                live[n] = new
                ch = True
    for n, b in f.blocks.items():
        live[n] = live[n] | {i.dest for i in b.instrs if i.op == "phi"}
    return live


def succs(t):
    if t is None:
        return []
    if t.op == "br":
        return list(t.extra)
    if t.op == "switch":
        return list(t.extra[0])
    return []


class BExplorer(Explorer):
    def __init__(self, prog, fn, src, m, infop=None, keep=None):
        Explorer.__init__(self, prog, fn)
        self.src, self.m, self.infop, self.keep = src, m, infop, keep
        self.live = liveness(fn)

    def bind(self, i, v, env):
        if v is not None and self.keep is not None and (i.dest not in self.keep or v[0] != "c" or abs(v[1]) > 64):
            v = None
        Explorer.bind(self, i, v, env)

    def prune(self, env, s):
        for k in list(env):
            v = env[k]
            if k.startswith("*"):
                continue
            if k not in self.live[s] or (self.keep is not None and (k not in self.keep or v[0] != "c" or abs(v[1]) > 64)):
                del env[k]
        return env

    def val(self, x, env):
        if x in self.src:
            return ("c", self.m)
        return Explorer.val(self, x, env)

    def step(self, i, env):
        if i.dest in self.src:
            return ("c", self.m)
        if i.op == "bin" and i.type != "i1" and str(i.type).startswith("i"):
            a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
            if a is not None and b is not None and a[0] == "c" and b[0] == "c":
                w = int(str(i.type)[1:])
                x, y = a[1], b[1]
                r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
                     "xor": lambda: x ^ y, "shl": lambda: x << y if 0 <= y < 64 else None}.get(i.extra, lambda: None)()
                if r is None:
                    return None
                r %= 1 << w
                if r >= 1 << (w - 1):
                    r -= 1 << w
                return ("c", r)
            return None
        if i.op == "cast":
            v = self.val(i.ops[0], env)
            return v if v is None or v[0] == "c" else None
        if i.op == "gep":
            return None
        return Explorer.step(self, i, env)

    def learn(self, c, truth, env):
        return None

    def larger(self, x, env):
        """the value of a condition had the budget been large"""
        m, self.m = self.m, 10 ** 6
        try:
            return self.reeval(x, env, {})
        finally:
            self.m = m

    def reeval(self, x, env, e2, depth=0):
        if x in self.src:
            return self.m
        i = self.dfn.get(x)
        if i is not None and i.op in ("bin", "icmp", "cast", "select", "freeze") and depth < 12:
            for o in i.ops:
                v = self.reeval(o, env, e2, depth + 1)
                if v is not None:
                    e2[o] = ("c", v)
                else:
                    e2.pop(o, None)
            keep, self.keep = self.keep, None
            try:
                r = self.step(i, e2)
            finally:
                self.keep = keep
            return r[1] if r is not None and r[0] == "c" else None
        v = self.val(x, env)
        return v[1] if v is not None and v[0] == "c" else None


class Work(Client):
    """state: (iterations with work, worked in this one, limit reached, info, a test of the budget was not decided)"""

    def __init__(self, F, loop, works, allowed, mdep, again=False):
        self.again = again
        self.F, self.loop, self.works, self.allowed, self.mdep = F, loop, works, allowed, mdep
        self.head, self.body = loop
        self.over = []
        self.rets = set()
        self.maybe = False
        self.most = 0

    def call(self, ex, i, c, env, state, trail):
        if c in NORETURN:
            return None
        n, w, lim, info, unk = state
        if id(i) in self.works and not w:
            n, w = n + 1, True
            self.most = max(self.most, n)
            if n > self.allowed:
                if not unk:
                    self.over.append((i, trail))
                else:
                    self.maybe = True
                return None
        return [(None, (n, w, lim, info, unk))]

    def store(self, ex, i, env, state, trail):
        if ex.infop is not None and i.ops[1] == ex.infop:
            v = ex.val(i.ops[0], env)
            return state[:3] + (v[1] if v is not None and v[0] == "c" else "?",) + state[4:]
        return None

    def edge(self, ex, a, b, phis, env, state):
        n, w, lim, info, unk = state
        t = self.F.f.blocks[a].term
        if a in self.body and t.op == "br" and t.ops and t.ops[0] in self.mdep:
            v = ex.val(t.ops[0], env)
            if v is None:
                if not self.independent(ex, a, t.ops[0], env):
                    unk = True
            else:
                # the test would have gone the other way with a large budget
                o = ex.larger(t.ops[0], env)
                lim = lim or (o is not None and (o & 1) != (v[1] & 1))
        if b == self.head and a in self.body:
            w = False
        if b == self.head and a not in self.body and self.again:
            n, w = 0, False
        return (n, w, lim, info, unk)

    def independent(self, ex, a, c, env):
        """the part of the test that looks at the budget is decided, the rest looks at something no other way out of the loop looks at"""
        dfn = self.F.dfn
        leaves, todo, seen = [], [c], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            i = dfn.get(x)
            if i is not None and (i.op in ("select", "freeze") and str(i.type) == "i1" or i.op == "bin" and str(i.type) == "i1"):
                todo += i.ops
            elif i is not None:
                leaves.append(x)
        rest = [x for x in leaves if x not in self.mdep]
        if not rest or len(rest) == len(leaves) or any(ex.val(x, env) is None for x in leaves if x in self.mdep):
            return False
        if any(dfn[x].op not in ("icmp", "fcmp") for x in rest):
            return False
        mine = closure(dfn, rest)
        for b in self.body:
            t = self.F.f.blocks[b].term
            if b != a and t.ops and any(x not in self.body for x in succs(t)):
                if any(x in dfn for x in mine & closure(dfn, [t.ops[0]])):
                    return False
        return True

    def ret(self, ex, t, v, env, state, trail):
        n, w, lim, info, unk = state
        if lim:
            self.rets.add((v[1] if v is not None and v[0] == "c" else "?", info, t.line))


def depends(F, srcs):
    """values that depend on the budget through arithmetic, comparisons and selections"""
    dep = set(srcs)
    ch = True
    while ch:
        ch = False
        for b in F.rpo:
            for i in F.f.blocks[b].instrs:
                if i.dest and i.dest not in dep and i.op in ("bin", "icmp", "cast", "select", "fcmp", "phi", "freeze") and any(o in dep for o in i.ops):
                    dep.add(i.dest)
                    ch = True
    return dep


def top_loops(F, loops):
    return [(h, b) for h, b in loops.items() if not any(h in b2 and h2 != h for h2, b2 in loops.items())]


def analyse(prog, F, srcs, isworking, m, allowed, infop=None):
    """for every outermost loop that does work: (loop, client)"""
    loops = natural_loops(F)
    dep = depends(F, srcs)
    out = []
    tests = [b for b in F.rpo if F.f.blocks[b].term.op == "br" and F.f.blocks[b].term.ops and F.f.blocks[b].term.ops[0] in dep]
    iswork = lambda body: {id(i) for b in body for i in F.f.blocks[b].instrs if i.op == "call" and isworking(i)}
    cands = [(l, False) for l in top_loops(F, loops) if any(b in l[1] for b in tests)]
    for t in tests:
        # the innermost loop around a test of the budget: a loop with two ways round appears as two nested loops
        inner = sorted((l for l in loops.items() if t in l[1] and iswork(l[1])), key=lambda l: len(l[1]))
        if inner and not any(inner[0][0] == c[0][0] for c in cands):
            cands.append((inner[0], True))
    for loop, again in cands:
        works = iswork(loop[1])
        if not works:
            continue
        cl = Work(F, loop, works, allowed, dep, again)
        roots = set(dep)
        for b in loop[1]:
            t = F.f.blocks[b].term
            if t.ops and any(x not in loop[1] for x in succs(t)):
                roots.add(t.ops[0])
        for b in F.f.blocks.values():
            if b.term is not None and b.term.op == "ret":
                roots |= set(b.term.ops)
            if infop is not None:
                roots |= {i.ops[0] for i in b.instrs if i.op == "store" and i.ops[1] == infop}
        ex = BExplorer(prog, F.f, srcs, m, infop, closure(F.dfn, roots))
        try:
            ex.run(F.rpo[0], 0, {}, (0, False, False, "0", False), cl)
        except TooMany:
            if not cl.over:
                raise
        out.append((loop, cl, ex))
    return out


class Counters:
    """how much a function adds to fields of a struct, per path: a set of tuples (delta per field, objective calls), a
    delta being an integer, ("=", constant) after a constant was stored, or None when the value stored is not understood"""

    def __init__(self, prog, struct, fields, objs=()):
        self.prog, self.struct, self.fields, self.objs = prog, "struct." + struct, list(fields), set(objs)
        fs = prog.fields[self.struct]
        self.index = {n: k for k, (n, *_) in enumerate(fs) if n in self.fields}
        self.byidx = {str(k): n for n, k in self.index.items()}
        self.objidx = {str(k) for k, (n, *_) in enumerate(fs) if n in self.objs}
        self.fns = {}
        self.touch = self.touching()
        self.memo = {}

    def fn(self, name):
        if name not in self.fns:
            self.fns[name] = Fn(self.prog.functions[name])
        return self.fns[name]

    def field(self, dfn, addr):
        g = dfn.get(addr)
        if g is None or g.op != "gep" or len(g.ops) < 3 or str(g.type).lstrip("%") != self.struct:
            return None
        return self.byidx.get(g.ops[2])

    def isobj(self, dfn, i):
        """an indirect call of the struct's function pointer"""
        if i.op != "call" or callee(i) is not None:
            return False
        p = i.extra if isinstance(i.extra, str) else None
        d = dfn.get(p)
        if d is None or d.op != "load":
            return False
        g = dfn.get(d.ops[0])
        return g is not None and g.op == "gep" and len(g.ops) > 2 and str(g.type).lstrip("%") == self.struct and g.ops[2] in self.objidx

    def touching(self):
        direct, rev = set(), {}
        for f in self.prog.functions.values():
            d = {i.dest: i for b in f.blocks.values() for i in b.instrs if i.dest}
            for b in f.blocks.values():
                for i in b.instrs:
                    if (i.op == "store" and self.field(d, i.ops[1])) or self.isobj(d, i):
                        direct.add(f.name)
                    elif i.op == "call" and callee(i):
                        rev.setdefault(callee(i), set()).add(f.name)
        self.direct = set(direct)
        todo = list(direct)
        while todo:
            for n in rev.get(todo.pop(), ()):
                if n not in direct:
                    direct.add(n)
                    todo.append(n)
        return direct

    def delta(self, F, i):
        n = self.field(F.dfn, i.ops[1])
        if n is None:
            return None
        v = i.ops[0]
        if paths.isint(v):
            return n, ("=", int(v))
        d = F.dfn.get(v)
        if d is not None and d.op == "bin" and d.extra in ("add", "sub"):
            for a, b in (d.ops, d.ops[::-1]):
                l = F.dfn.get(a)
                if l is not None and l.op == "load" and self.field(F.dfn, l.ops[0]) == n and paths.isint(b) and (d.extra == "add" or a == d.ops[0]):
                    k = int(b)
                    return n, k if d.extra == "add" else -k
        return n, None

    def add(self, st, n, d):
        k = self.fields.index(n)
        o = st[k]
        if d is None or isinstance(d, tuple):
            v = d
        elif o is None:
            v = None
        elif isinstance(o, tuple):
            v = ("=", o[1] + d)
        else:
            v = o + d
        return st[:k] + (v,) + st[k + 1:]

    def zero(self):
        return (0,) * (len(self.fields) + 1)

    def join(self, st, s2):
        for n, d in zip(self.fields, s2):
            if d != 0:
                st = self.add(st, n, d)
        return st[:-1] + (st[-1] + s2[-1],)

    def summary(self, name, args, depth=0):
        """args: known null/non-null/constant values per parameter"""
        key = (name, tuple(args))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None                 # recursion: unknown
        if depth > 5:
            return None
        F = self.fn(name)
        ex = CExplorer(self.prog, F.f)
        env = {}
        for p, a in zip(F.f.params, args):
            if a is not None:
                env["%" + p[0].lstrip("%")] = a
        cl = Sum(self, F, depth)
        try:
            ex.run(F.rpo[0], 0, env, self.zero(), cl)
            r = None if cl.unknown else frozenset(cl.rets)
        except TooMany:
            r = None
        self.memo[key] = r
        return r


class CExplorer(Explorer):
    def __init__(self, prog, fn):
        Explorer.__init__(self, prog, fn)
        self.live = liveness(fn)

    def prune(self, env, s):
        for k in list(env):
            if not k.startswith("*") and (k not in self.live[s] or (env[k][0] == "c" and abs(env[k][1]) > 8)):
                del env[k]
        return env

    def step(self, i, env):
        if i.op in ("bin", "cast") and i.type != "i1":
            return self.val(i.ops[0], env) if i.op == "cast" else None
        return Explorer.step(self, i, env)


class Sum(Client):
    def __init__(self, C, F, depth=0):
        self.C, self.F, self.depth = C, F, depth
        self.rets, self.unknown = set(), None

    def call(self, ex, i, c, env, state, trail):
        if c in NORETURN:
            return None
        if c is None:
            if self.C.isobj(self.F.dfn, i):
                state = state[:-1] + (state[-1] + 1,)
            return [(None, state)]
        if c not in self.C.touch or c not in self.C.prog.functions:
            return [(None, state)]
        args = []
        for o in i.ops:
            v = ex.val(o, env)
            args.append(v if v is not None and (v[0] == "p0" or v[0] == "c") else (("pn", "arg") if v is not None and v[0] == "pn" else None))
        outs = self.C.summary(c, args, self.depth + 1)
        if outs is None:
            self.unknown = c
            return None
        return [(None, self.C.join(state, s)) for s in outs] or None

    def store(self, ex, i, env, state, trail):
        d = self.C.delta(self.F, i)
        return None if d is None else self.C.add(state, *d)

    def ret(self, ex, t, v, env, state, trail):
        self.rets.add(state)


class Iter(Sum):
    """one iteration of a loop: from its head back to it"""

    def __init__(self, C, F, loop):
        Sum.__init__(self, C, F)
        self.head, self.body = loop
        self.backs = {}
        # a loop with two ways round appears as two nested loops: both ways end an iteration
        self.heads = {}
        for h, b in natural_loops(F).items():
            if h in self.body and any((i.op == "store" and C.field(F.dfn, i.ops[1])) or (i.op == "call" and callee(i) in C.touch)
                                      for x in b for i in F.f.blocks[x].instrs):
                self.heads[h] = b

    def edge(self, ex, a, b, phis, env, state):
        if b == self.head and a in self.body:
            self.backs.setdefault(state, self.F.f.blocks[a].term.line)
            return ("done",)
        if b not in self.body:
            return ("done",)
        if b in self.heads and a in self.heads[b] and state != ("done",):
            self.backs.setdefault(state, self.F.f.blocks[a].term.line)
            return self.C.zero()
        return state

    def call(self, ex, i, c, env, state, trail):
        return None if state == ("done",) else Sum.call(self, ex, i, c, env, state, trail)

    def store(self, ex, i, env, state, trail):
        return None if state == ("done",) else Sum.store(self, ex, i, env, state, trail)

    def ret(self, ex, t, v, env, state, trail):
        pass
