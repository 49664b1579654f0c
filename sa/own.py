"""Ownership typestate: what happens to a pointer from the moment it is obtained (or released) on every path.

Per function and pointer parameter a summary says whether the callee may keep the pointer (store it where it
outlives the call, or hand it back), whether it releases it, and whether it looks at the storage; per function whether
the result is storage the caller has to release.  Paths are explored with the values of flags and null pointers, the
outcome of conditions that are asked again, and pointers followed through copies, merges and local variables."""
import re
from .paths import Explorer, TooMany, NORETURN, NULLP, SWAP
from .init import Fn, callee, dbg

ALLOC = {"malloc", "calloc", "realloc", "fopen", "strdup", "popen", "valloc", "aligned_alloc"}
FREE = {"free": 0, "fclose": 0, "realloc": 0, "pclose": 0, "cfree": 0}
# library routines that only look at or fill the storage they are handed
LOOK = {"memcpy", "memmove", "memset", "strcmp", "strncmp", "strlen", "strncpy", "strcpy", "snprintf", "sprintf", "fscanf", "sscanf", "fread", "fwrite", "fgets", "fputs", "feof", "fseek", "ftell",
        "rewind", "fflush", "atoi", "atof", "strtod", "strtol", "strtoul", "qsort", "fputc", "fgetc", "ungetc", "ferror", "getline", "fprintf", "printf", "vfprintf", "fileno", "strcat", "strncat",
        "perror", "puts", "time", "clock", "srand", "rand", "memcmp", "sincos", "modf", "frexp", "vsnprintf", "getc", "putc", "__isoc99_fscanf", "__isoc99_sscanf", "__isoc99_strtod", "bzero"}
HANDBACK = {"strtok": 0, "strchr": 0, "strrchr": 0, "strstr": 0, "memchr": 0, "memcpy": 0, "memmove": 0, "strcpy": 0, "strncpy": 0, "strcat": 0, "fgets": 0}
Q, H = ("pn", "q"), ("pn", "h")
STOP = "stop"


def numeric(c):
    return c.startswith("cblas_") or re.fullmatch(r"[dz][a-z0-9]+_", c) is not None or c.startswith("llvm.")


def tag(v):
    return v[1] if v is not None and v[0] == "pn" and len(v) > 1 and v[1] in ("q", "h") else None


class Walk(Explorer):
    """explorer that remembers the outcome of conditions, by what they ask"""

    def __init__(self, prog, fn, F, info):
        Explorer.__init__(self, prog, fn)
        self.F, self.info, self.own = F, info, None

    def val(self, x, env):
        v = Explorer.val(self, x, env)
        if v is None and isinstance(x, str):
            i = self.dfn.get(x)
            if i is not None and i.op == "alloca":
                return ("pn", x)
            if i is not None and i.op == "call" and self.own is not None and callee(i) and self.own.solid(callee(i)):
                return ("pn", x)
        return v

    def opaque(self, x):
        return set(re.findall(r"%[\w.\-]+", str(self.expr(x))))

    def key(self, i):
        if i.op == "icmp":
            a, b, p = str(self.expr(i.ops[0])), str(self.expr(i.ops[1])), i.extra
            if p in ("eq", "ne"):
                a, b = sorted((a, b))
                return f"?{a} == {b}", p == "eq"
            s = "u" if p[0] == "u" else "s"
            q = p[1:]
            if q in ("gt", "le"):
                return f"?{b} <{s} {a}", q == "gt"
            return f"?{a} <{s} {b}", q == "lt"
        if i.op == "fcmp":
            return f"?{self.expr(i.ops[0])} {i.extra} {self.expr(i.ops[1])}", True
        return None

    def cmp(self, i, env):
        r = Explorer.cmp(self, i, env)
        if r is not None:
            return r
        k = self.key(i)
        if k is not None and k[0] in env:
            return int((env[k[0]] == ("c", 1)) == k[1])
        if i.extra in ("eq", "ne"):
            for x, y in (i.ops, i.ops[::-1]):
                v = env.get("=" + str(self.expr(x)))
                w = self.val(y, env)
                if v is not None and w is not None and w[0] == "c":
                    return int((v == w) == (i.extra == "eq"))
        return None

    def step(self, i, env):
        if i.op == "fcmp":
            k = self.key(i)
            return env.get(k[0])
        if i.op == "bin" and i.type != "i1":
            a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
            if b is not None and b[0] == "c" and a is not None:
                if i.extra == "add" and a[0] in ("c", "m2"):
                    # counters are followed modulo two only
                    return ("m2", (a[1] + b[1]) % 2)
                if i.extra == "sub" and a[0] == "m2":
                    return ("m2", (a[1] - b[1]) % 2)
                if i.extra in ("urem", "srem") and b[1] == 2 and a[0] in ("c", "m2") or i.extra == "and" and b[1] == 1 and a[0] in ("c", "m2"):
                    return ("c", a[1] % 2)
            return None
        if i.op == "load":
            v = Explorer.step(self, i, env)
            if v is None and ("K" in env or "N" in env):
                e = str(self.expr(i.dest))
                if env.get("K") == e:
                    return Q
                if env.get("N") == e:
                    return NULLP
            return v
        return Explorer.step(self, i, env)

    def learn(self, c, truth, env):
        out = Explorer.learn(self, c, truth, env)
        i = self.dfn.get(c)
        if i is not None and i.op in ("icmp", "fcmp"):
            k = self.key(i)
            out[k[0]] = ("c", int(truth == k[1]))
            if i.op == "icmp" and i.extra in ("eq", "ne"):
                d = self.dfn.get(i.ops[0])
                w = self.val(i.ops[1], env)
                if d is not None and d.op == "bin" and d.extra in ("urem", "srem", "and") and d.ops[1] == ("1" if d.extra == "and" else "2") and w in (("c", 0), ("c", 1)) and d.ops[0] not in env:
                    out[d.ops[0]] = ("m2", w[1] if truth == (i.extra == "eq") else 1 - w[1])
            if i.op == "icmp" and i.extra in ("eq", "ne") and truth == (i.extra == "eq"):
                for x, y in (i.ops, i.ops[::-1]):
                    w = self.val(y, env)
                    if w is not None and w[0] == "c":
                        out["=" + str(self.expr(x))] = w
        return out

    def targets(self, t, env):
        out = Explorer.targets(self, t, env)
        h = self.info.exits.get(id(t))
        if h is not None and len(out) == 2 and env.get("@" + h[0]) == ("c", 1):
            # a loop that may run is taken to run at least once
            out = [x for x in out if x[0] in h[1]]
        return out

    def forget(self, env, names):
        for k in [k for k in env if k[0] in "?=" and any(n in names for n in re.findall(r"%[\w.\-]+", k))]:
            del env[k]
        for k in ("K", "N"):
            if k in env and any(n in names for n in re.findall(r"%[\w.\-]+", env[k])):
                del env[k]

    def prune(self, env, s):
        live, asked = self.info.live[s], self.info.asked
        out = {}
        for k, v in env.items():
            if k[0] == "%":
                if k in live:
                    out[k] = v
            elif k[0] == "?":
                if asked.get(k, 0) > 1:
                    out[k] = v
            elif k[0] == "=":
                if asked.get(k, 0) > 1:
                    out[k] = v
            else:
                out[k] = v
        return out


class Info:
    """liveness of names and how often a condition is asked, per function"""

    def __init__(self, F, W):
        f = F.f
        use, dfn, phiuse = {}, {}, {}
        for l, b in f.blocks.items():
            u, d = set(), set()
            for i in b.instrs:
                if i.op == "phi":
                    d.add(i.dest)
                    for o, p in zip(i.ops, i.extra):
                        if o.startswith("%"):
                            phiuse.setdefault((p, l), set()).add(o)
                    continue
                for o in i.ops or ():
                    if isinstance(o, str) and o.startswith("%") and o not in d:
                        u.add(o)
                if i.dest:
                    d.add(i.dest)
            use[l], dfn[l] = u, d
        live = {l: set() for l in f.blocks}
        ch = True
        rpo = F.rpo[::-1]
        while ch:
            ch = False
            for l in rpo:
                o = set()
                for s in F.succ(l):
                    o |= live[s] | phiuse.get((l, s), set())
                n = use[l] | (o - dfn[l])
                if n != live[l]:
                    live[l] = n
                    ch = True
        for l, b in f.blocks.items():
            for i in b.instrs:
                if i.op == "phi":
                    live[l].add(i.dest)
        self.live = live
        self.defs = {l: {i.dest for i in b.instrs if i.dest and i.op in ("phi", "call", "load", "freeze", "select")} for l, b in f.blocks.items()}
        # loops whose first block decides whether to go on
        self.exits, self.loops = {}, {}
        idom = dominators(F)
        for l in f.blocks:
            for s in F.succ(l):
                x = l
                while x is not None and x != s:
                    x = idom.get(x)
                if x == s:
                    body = self.loops.setdefault(s, {s})
                    todo = [l]
                    while todo:
                        y = todo.pop()
                        if y not in body:
                            body.add(y)
                            todo.extend(f.blocks[y].preds)
        for h, body in self.loops.items():
            t = f.blocks[h].term
            if t.op == "br" and t.ops and (t.extra[0] in body) != (t.extra[1] in body):
                self.exits[id(t)] = (h, body)
        self.asked = {}
        for b in f.blocks.values():
            for i in b.instrs:
                if i.op in ("icmp", "fcmp"):
                    k = W.key(i)
                    self.asked[k[0]] = self.asked.get(k[0], 0) + 1
                    if i.op == "icmp":
                        for o in i.ops:
                            if o.startswith("%"):
                                e = "=" + str(W.expr(o))
                                self.asked[e] = self.asked.get(e, 0) + 1


def dominators(F):
    """immediate dominators"""
    rpo = F.rpo
    num = {b: n for n, b in enumerate(rpo)}
    preds = {}
    for b in rpo:
        for s in F.succ(b):
            preds.setdefault(s, []).append(b)
    idom = {rpo[0]: None}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds.get(b, ()):
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = new, p
                        while x != y:
                            if num[x] > num[y]:
                                x = idom[x]
                            else:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b, "?") != new:
                idom[b] = new
                ch = True
    return idom


class Param:
    __slots__ = ("keeps", "frees", "looks", "returns")

    def __init__(self, keeps=False, frees="no", looks=False, returns=False):
        self.keeps, self.frees, self.looks, self.returns = keeps, frees, looks, returns


class Own:
    def __init__(self, prog):
        self.prog = prog
        self.fns, self.infos, self.ps, self.fr, self.of, self.nn, self.lg, self.ty, self.bl, self.nd = {}, {}, {}, {}, {}, {}, {}, {}, {}, {}
        self.busy = set()
        self.paths = 0
        self.gave_up = []

    def fn(self, name):
        if name not in self.fns:
            f = self.prog.functions.get(name)
            self.fns[name] = Fn(f) if f is not None and f.blocks else None
        return self.fns[name]

    def walk(self, name):
        F = self.fn(name)
        W = Walk(self.prog, F.f, F, None)
        W.own = self
        if name not in self.infos:
            self.infos[name] = Info(F, W)
        W.info = self.infos[name]
        return W

    # ---- copies of a name inside a function (flow-insensitive)
    def copies(self, F, start):
        """(names that may hold the pointer or point into its storage, local variables that may hold it)"""
        al, slots = set(start), set()
        slotset = self.slots(F)
        todo = list(start)
        while todo:
            x = todo.pop()
            for i, n in F.users.get(x, ()):
                y = None
                if i.op in ("cast", "phi", "freeze") or i.op == "gep" and n == 0 or i.op == "select" and n > 0:
                    if i.type is not None or True:
                        y = i.dest
                elif i.op == "store" and n == 0 and i.ops[1] in slotset:
                    if i.ops[1] not in slots:
                        slots.add(i.ops[1])
                        for j, m in F.users.get(i.ops[1], ()):
                            if j.op == "load" and j.dest not in al:
                                al.add(j.dest)
                                todo.append(j.dest)
                elif i.op == "call":
                    c = callee(i)
                    if c in HANDBACK and n == HANDBACK[c]:
                        y = i.dest
                    elif c is not None and self.fn(c) is not None and self.param(c, n).returns:
                        y = i.dest
                if y is not None and y not in al:
                    al.add(y)
                    todo.append(y)
        return al, slots

    def slots(self, F):
        """local pointer variables whose address is only used to read and write them, or passed to calls"""
        if not hasattr(F, "slotset"):
            out = set()
            for b in F.f.blocks.values():
                for i in b.instrs:
                    if i.op == "alloca" and all(j.op == "load" or j.op == "store" and n == 1 or j.op == "call" for j, n in F.users.get(i.dest, ())):
                        out.add(i.dest)
            F.slotset = out
        return F.slotset

    # ---- what a callee does with a pointer parameter
    def param(self, name, k):
        if (name, k) in self.ps:
            return self.ps[(name, k)]
        F = self.fn(name)
        if F is None:
            if name in FREE and k == FREE[name]:
                return Param(frees="must", looks=True)
            if name in HANDBACK and k == HANDBACK[name]:
                return Param(looks=True, returns=True)
            if name in LOOK or numeric(name):
                return Param(looks=True)
            return Param(keeps=True)
        if k >= len(F.f.params):
            return Param()
        if (name, k) in self.busy:
            return Param()
        self.busy.add((name, k))
        p = F.f.params[k][0]
        p = p if p.startswith("%") else "%" + p
        r = Param()
        al, slots = self.copies(F, [p])
        may = False
        for x in al:
            for i, n in F.users.get(x, ()):
                if i.op in ("load",) or i.op == "store" and n == 1:
                    r.looks = True
                elif i.op == "store":
                    if i.ops[1] not in slots:
                        r.keeps = True
                elif i.op == "ret":
                    r.returns = True
                elif i.op == "call":
                    c = callee(i)
                    if c is None or dbg(c):
                        continue
                    if n >= len(i.ops):
                        continue
                    q = self.param(c, n)
                    r.keeps |= q.keeps
                    r.looks |= q.looks
                    if q.frees != "no":
                        may = True
                elif i.op not in ("icmp", "cast", "phi", "select", "gep", "freeze"):
                    r.keeps = True
        for s in slots:
            for i, n in F.users.get(s, ()):
                if i.op == "call" and not dbg(callee(i) or "x"):
                    r.keeps = True
        if may:
            r.frees = "may"
            try:
                W = self.walk(name)
                c = Released(self)
                W.run(F.f.entry, 0, {p: Q}, "own", c)
                if c.ends == {True}:
                    r.frees = "must"
            except TooMany:
                pass
        self.busy.discard((name, k))
        self.ps[(name, k)] = r
        return r

    # ---- results
    def solid(self, name):
        """does the function hand out storage whenever it returns (allocations are taken to succeed)?"""
        if name in ("malloc", "calloc", "realloc"):
            return True
        if name not in self.nn:
            self.nn[name] = False
            F = self.fn(name)
            if F is not None and str(F.f.ret) == "ptr" and self.fresh(name):
                seen, ok = set(), True
                todo = [b.term.ops[0] for b in F.f.blocks.values() if b.term is not None and b.term.op == "ret"]
                while todo and ok:
                    x = todo.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    i = F.dfn.get(x)
                    if i is not None and i.op in ("phi", "cast", "freeze"):
                        todo.extend(i.ops)
                    else:
                        ok = i is not None and i.op == "call" and callee(i) is not None and self.solid(callee(i))
                self.nn[name] = ok and bool(seen)
        return self.nn[name]

    def fresh(self, name):
        """does the function hand out storage its caller has to release (or null)?"""
        if name in ALLOC:
            return True
        if name in self.fr:
            return self.fr[name]
        self.fr[name] = False
        F = self.fn(name)
        if F is None or str(F.f.ret) != "ptr":
            return False
        leaves, seen, todo = [], set(), []
        for b in F.f.blocks.values():
            if b.term is not None and b.term.op == "ret":
                todo.append(b.term.ops[0])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            i = F.dfn.get(x)
            if i is not None and i.op in ("phi", "cast", "freeze"):
                todo.extend(i.ops)
            elif i is not None and i.op == "select":
                todo.extend(i.ops[1:])
            elif x in ("null", "undef", "poison"):
                continue
            elif i is not None and i.op == "load" and i.ops[0] in self.slots(F):
                s = i.ops[0]
                for j, n in F.users.get(s, ()):
                    if j.op == "store":
                        todo.append(j.ops[0])
                    elif j.op == "call" and not dbg(callee(j) or "x"):
                        if not (callee(j) and self.fn(callee(j)) and self.outfresh(callee(j), n)):
                            return False
                        leaves.append(None)
            elif i is None:
                return False
            else:
                leaves.append(i)
        if not leaves:
            return False
        for i in leaves:
            if i is None:
                continue
            if i.op != "call":
                return False
            c = callee(i)
            if c is None or not self.fresh(c):
                return False
            # also stored somewhere else: shared, not handed over
            al, slots = self.copies(F, [i.dest])
            for x in al:
                for j, n in F.users.get(x, ()):
                    if j.op == "store" and n == 0 and j.ops[1] not in slots:
                        b = self.root(F, j.ops[1])
                        if b not in al:
                            return False
                    elif j.op == "call" and callee(j) and not dbg(callee(j)) and self.param(callee(j), n).keeps and j is not i:
                        return False
        self.fr[name] = True
        return True

    def outfresh(self, name, k):
        """does the function store storage it hands over in *param on every path?"""
        if (name, k) in self.of:
            return self.of[(name, k)]
        self.of[(name, k)] = False
        F = self.fn(name)
        if F is None or k >= len(F.f.params):
            return False
        p = F.f.params[k][0]
        p = p if p.startswith("%") else "%" + p
        st = []
        for i, n in F.users.get(p, ()):
            if i.op == "store" and n == 1:
                st.append(i)
            elif i.op == "store" or i.op in ("gep", "phi", "select"):
                return False
            elif i.op == "call":
                c = callee(i)
                if dbg(c or ""):
                    continue
                if c is None or self.fn(c) is None or not self.outfresh(c, n):
                    return False
                st.append(i)
        if not st:
            return False
        for i in st:
            if i.op == "call" or i.ops[0] == "null":
                continue
            d = F.dfn.get(i.ops[0])
            while d is not None and d.op == "cast":
                d = F.dfn.get(d.ops[0])
            if d is None or d.op != "call" or callee(d) is None or not self.fresh(callee(d)):
                return False
        # on every path
        blocks = {i.block for i in st if not (i.op == "store" and i.ops[0] == "null")}
        seen, todo = set(), [F.f.entry]
        while todo:
            b = todo.pop()
            if b in seen or b in blocks:
                continue
            seen.add(b)
            if F.f.blocks[b].term.op == "ret":
                return False
            todo.extend(F.succ(b))
        self.of[(name, k)] = True
        return True

    # ---- callers that release the object afterwards
    def disposed(self, name, base, depth=0):
        """is the object, a parameter of the function, released by every caller?"""
        if depth > 3:
            return False
        F = self.fn(name)
        ps = ["%" + p[0].lstrip("%") for p in F.f.params]
        base = self.origin(F, base)
        if base not in ps:
            return False
        k = ps.index(base)
        n = 0
        for m in self.callers().get(name, ()):
            G = self.fn(m)
            for b in G.f.blocks.values():
                for i in b.instrs:
                    if i.op == "call" and callee(i) == name and k < len(i.ops):
                        n += 1
                        al = self.same(G, i.ops[k]) if i.ops[k].startswith("%") else set()
                        al |= {j.dest for b2 in G.f.blocks.values() for j in b2.instrs if j.op == "load" and G.dfn.get(i.ops[k]) is not None and G.dfn[i.ops[k]].op == "load" and j.ops[0] == G.dfn[i.ops[k]].ops[0]}
                        if not any(j is not i and j.op == "call" and callee(j) and not dbg(callee(j)) and self.param(callee(j), q).frees != "no" for y in al for j, q in G.users.get(y, ())):
                            if not self.disposed(m, i.ops[k], depth + 1):
                                return False
        return n > 0

    def origin(self, F, x):
        d = F.dfn.get(x)
        while d is not None and d.op in ("load", "gep", "cast"):
            x = d.ops[0]
            d = F.dfn.get(x)
        return x

    def callers(self):
        if not hasattr(self, "ca"):
            self.ca = {}
            for m, f in self.prog.functions.items():
                for b in f.blocks.values():
                    for i in b.instrs:
                        if i.op == "call" and callee(i):
                            self.ca.setdefault(callee(i), set()).add(m)
        return self.ca

    # ---- what objects own
    def source(self, F, x):
        """what a pointer that is stored may be: fresh, null, other"""
        out, todo, seen = set(), [x], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            i = F.dfn.get(x)
            if x in ("null", "undef", "poison"):
                out.add("null")
            elif i is None:
                out.add("other")
            elif i.op in ("phi", "cast", "freeze"):
                todo += i.ops
            elif i.op == "select":
                todo += i.ops[1:]
            elif i.op == "call" and callee(i) and self.fresh(callee(i)):
                out.add("fresh")
            elif i.op == "load" and i.ops[0] in self.slots(F):
                for j, n in F.users.get(i.ops[0], ()):
                    if j.op == "store":
                        todo.append(j.ops[0])
                    elif j.op == "call" and not dbg(callee(j) or "x"):
                        out.add("fresh" if callee(j) and self.fn(callee(j)) and self.outfresh(callee(j), n) else "other")
            else:
                out.add("other")
        return out

    def field(self, F, a):
        """(structure, index, object) of a field address"""
        i = F.dfn.get(a)
        if i is not None and i.op == "gep" and str(i.type).startswith("%struct.") and len(i.ops) == 3 and i.ops[2].isdigit():
            return str(i.type)[8:].split(".")[0], int(i.ops[2]), i.ops[0]
        return None

    def place(self, F, a):
        """(structure, index, level, object): a field holding a pointer (1) or an element of the array a field points to (2)"""
        f = self.field(F, a)
        if f is not None:
            return f[0], f[1], 1, f[2]
        d = F.dfn.get(self.root(F, a))
        if d is not None and d.op == "load":
            f = self.field(F, d.ops[0])
            if f is not None:
                return f[0], f[1], 2, f[2]
        return None

    def owned(self):
        """fields (and elements of arrays in fields) that hold storage obtained for them: kind -> where"""
        if not hasattr(self, "own"):
            self.own = {}
            for name in sorted(self.prog.functions):
                F = self.fn(name)
                if F is None:
                    continue
                for b in F.f.blocks.values():
                    for i in b.instrs:
                        if i.op != "store" or not isinstance(i.ops[0], str) or not i.ops[0].startswith(("%", "@")) or not self.pointer(F, i.ops[0]):
                            continue
                        p = self.place(F, i.ops[1])
                        if p is not None:
                            for s in self.source(F, i.ops[0]):
                                self.own.setdefault(p[:3], {}).setdefault(s, []).append((name, i.line))
        return self.own

    def pointer(self, F, v):
        if v.startswith("@"):
            return True
        d = F.dfn.get(v)
        if d is None:
            return any(("%" + p[0].lstrip("%")) == v and str(p[1]) == "ptr" for p in F.f.params)
        return d.op in ("gep", "alloca") or str(d.type) == "ptr"

    def same(self, F, x):
        """names that hold the object, through copies and merges in either direction"""
        al, todo = set(), [x]
        while todo:
            y = todo.pop()
            if y in al or not y.startswith("%"):
                continue
            al.add(y)
            d = F.dfn.get(y)
            if d is not None and d.op in ("phi", "cast", "freeze"):
                todo += d.ops
            todo += [j.dest for j, n in F.users.get(y, ()) if j.op in ("phi", "cast", "freeze")]
        return al

    def releases(self):
        """(function, call, structure): objects released with free where they are used as structures"""
        for name in sorted(self.prog.functions):
            F = self.fn(name)
            if F is None:
                continue
            for b in F.f.blocks.values():
                for i in b.instrs:
                    if i.op != "call" or callee(i) != "free" or not i.ops[0].startswith("%"):
                        continue
                    al = self.same(F, i.ops[0])
                    d = F.dfn.get(i.ops[0])
                    if d is not None and d.op == "load" and F.dfn.get(d.ops[0]) is None:
                        # *p, read again and again
                        for j, n in F.users.get(d.ops[0], ()):
                            if j.op == "load":
                                al |= self.same(F, j.dest)
                    if any(F.dfn.get(y) is not None and F.dfn[y].op == "call" for y in al):
                        continue
                    ts = {str(j.type)[8:].split(".")[0] for y in al for j, n in F.users.get(y, ()) if j.op == "gep" and n == 0 and str(j.type).startswith("%struct.") and len(j.ops) == 3}
                    ts |= {t for y in al for j, n in F.users.get(y, ()) if j.op == "call" and callee(j) and self.fn(callee(j)) is not None for t in self.types(callee(j), n)}
                    for t in ts:
                        yield name, i, t, al

    def types(self, name, k, depth=0):
        """structures a parameter is used as"""
        F = self.fn(name)
        if F is None or k >= len(F.f.params):
            return set()
        if (name, k) not in self.ty:
            self.ty[(name, k)] = set()
            al = self.copies(F, ["%" + F.f.params[k][0].lstrip("%")])[0]
            r = {str(j.type)[8:].split(".")[0] for y in al for j, n in F.users.get(y, ()) if j.op == "gep" and n == 0 and str(j.type).startswith("%struct.") and len(j.ops) == 3}
            if not r and depth < 4:
                for y in al:
                    for j, n in F.users.get(y, ()):
                        if j.op == "call" and callee(j) and not dbg(callee(j)):
                            r |= self.types(callee(j), n, depth + 1)
            self.ty[(name, k)] = r
        return self.ty[(name, k)]

    def cleaned(self):
        """fields that a function other than a destructor releases for good: they live shorter than the object"""
        if not hasattr(self, "cl"):
            self.cl = {}
            gone = {}
            for name, i, t, al in self.releases():
                gone.setdefault(t, set()).add(name)
            # helpers of destructors count as destructors
            todo = [(t, n) for t, ns in gone.items() for n in ns]
            while todo:
                t, n = todo.pop()
                F = self.fn(n)
                for b in F.f.blocks.values():
                    for i in b.instrs:
                        c = callee(i) if i.op == "call" else None
                        if c and self.fn(c) is not None and c not in gone[t] and any(t in self.types(c, k) for k in range(len(self.fn(c).f.params))):
                            gone[t].add(c)
                            todo.append((t, c))
            for name in sorted(self.prog.functions):
                F = self.fn(name)
                if F is None:
                    continue
                rel, new, reset = set(), set(), set()
                ps = {"%" + p[0].lstrip("%") for p in F.f.params}
                for b in F.f.blocks.values():
                    for i in b.instrs:
                        if i.op == "load" and str(i.type) == "ptr":
                            p = self.place(F, i.ops[0])
                            if p is not None and p[2] == 1 and p[3] in ps and name not in gone.get(p[0], ()) and self.freed(F, i.dest):
                                rel.add(p[:2])
                        elif i.op == "store" and isinstance(i.ops[0], str):
                            p = self.place(F, i.ops[1])
                            if p is not None:
                                (reset if i.ops[0] == "null" else new).add(p[:2])
                for w in (rel & reset) - new:
                    self.cl.setdefault(w, []).append(name)
        return self.cl

    def freed(self, F, x):
        return any(j.op == "call" and callee(j) and not dbg(callee(j)) and self.param(callee(j), n).frees != "no" for y in self.copies(F, [x])[0] for j, n in F.users.get(y, ()))

    def lets_go(self, F, names, what, strict=False):
        """does the function release (strict) or release, keep or hand on the field of the object anywhere?"""
        key = (F.f.name, frozenset(names), what, strict)
        given = self.given if not strict else lambda F, x, elements=False: self.freed(F, x) if not elements else self.given(F, x, True, True)
        if key in self.lg:
            return self.lg[key]
        self.lg[key] = False
        r = False
        for b in F.f.blocks.values():
            for i in b.instrs:
                if i.op == "load" and str(i.type) == "ptr":
                    p = self.place(F, i.ops[0])
                    if p is not None and p[0:2] == what[0:2] and p[3] in names:
                        if p[2] == what[2] and given(F, i.dest) or p[2] == 1 and what[2] == 2 and given(F, i.dest, True):
                            r = True
                elif i.op == "call" and callee(i) and not dbg(callee(i)):
                    c = callee(i)
                    G = self.fn(c)
                    for n, o in enumerate(i.ops):
                        fa = self.field(F, o) if what[2] == 1 and isinstance(o, str) else None
                        if fa is not None and fa[:2] == what[:2] and fa[2] in names and (G is None and not strict or self.disposes(c, n)):
                            r = True
                        if o in names and G is not None and n < len(G.f.params):
                            q = "%" + G.f.params[n][0].lstrip("%")
                            if self.lets_go(G, self.copies(G, [q])[0], what, strict):
                                r = True
        self.lg[key] = r
        return r

    def given(self, F, x, elements=False, strict=False):
        al, slots = self.copies(F, [x])
        if not strict and any(j.op == "call" and not dbg(callee(j) or "") and callee(j) not in LOOK for y in slots for j, n in F.users.get(y, ())):
            return True
        for y in al:
            for j, n in F.users.get(y, ()):
                if not strict and (j.op == "ret" or j.op == "store" and n == 0 and j.ops[1] not in slots):
                    return True
                if j.op == "call" and not dbg(callee(j) or ""):
                    c = callee(j)
                    if c is None:
                        if strict:
                            continue
                        return True
                    q = self.param(c, n)
                    if q.keeps and not strict:
                        return True
                    if not elements and q.frees != "no":
                        return True
                    if elements and self.fn(c) is not None:
                        G = self.fn(c)
                        al2 = self.copies(G, ["%" + G.f.params[n][0].lstrip("%")])[0] if n < len(G.f.params) else ()
                        for b in G.f.blocks.values():
                            for k in b.instrs:
                                if k.op == "load" and str(k.type) == "ptr" and self.root(G, k.ops[0]) in al2 and (self.freed(G, k.dest) if strict else self.given(G, k.dest)):
                                    return True
        return False

    def blind(self, name, k):
        """is the variable behind a parameter written before anything looks at it?"""
        if (name, k) in self.bl:
            return self.bl[(name, k)]
        self.bl[(name, k)] = False
        F = self.fn(name)
        if F is None or k >= len(F.f.params):
            return False
        p = "%" + F.f.params[k][0].lstrip("%")
        idom = dominators(F)
        uses = {}
        for i, n in F.users.get(p, ()):
            if not (i.op == "call" and dbg(callee(i) or "")):
                uses.setdefault(id(i), (i, n))
        sets = {}
        order = {id(i): x for b in F.f.blocks.values() for x, i in enumerate(b.instrs)}
        for i, n in uses.values():
            if i.op == "store" and n == 1 or i.op == "call" and callee(i) and self.fn(callee(i)) is not None and self.outfresh(callee(i), n) and self.blind(callee(i), n):
                sets[i.block] = min(sets.get(i.block, 1 << 30), order[id(i)])
        ok = True
        for i, n in uses.values():
            if i.op == "store" and n == 0 or i.op in ("gep", "phi", "select", "cast", "ret"):
                ok = False
            if i.block in sets and sets[i.block] <= order[id(i)]:
                continue
            b = idom.get(i.block)
            while b is not None and b not in sets:
                b = idom.get(b)
            if b is None:
                ok = False
        self.bl[(name, k)] = ok
        return ok

    def needs(self, name, k):
        """is storage passed here certainly accessed, so that null ends the program?"""
        if name.startswith("llvm.mem"):
            name = name.split(".")[1]
        if name in ("memcpy", "memmove", "strcmp", "strncmp", "strlen", "strcpy", "strncpy", "fclose", "fread", "fwrite", "fprintf", "fgets", "qsort", "memset"):
            return k < (1 if name in ("strlen", "fclose", "fprintf", "memset", "fgets", "qsort") else 2)
        if name.startswith("cblas_") or name in ("dgesv_", "dgetrf_", "dgetri_", "dgeqrf_", "dorgqr_", "dgelsd_", "dpotrf_"):
            return True
        if (name, k) not in self.nd:
            self.nd[(name, k)] = False
            F = self.fn(name)
            if F is not None and k < len(F.f.params) and str(F.f.params[k][1]) == "ptr":
                W = self.walk(name)
                cl = NullUse(self, True)
                try:
                    W.run(F.f.entry, 0, {"%" + F.f.params[k][0].lstrip("%"): NULLP}, "go", cl)
                    self.nd[(name, k)] = bool(cl.found) and not cl.through
                except TooMany:
                    pass
        return self.nd[(name, k)]

    def enders(self, F):
        """calls that certainly release an argument: (block, callee, argument, call)"""
        if not hasattr(F, "ends"):
            F.ends = [(b.label, callee(i), k, i) for b in F.f.blocks.values() for i in b.instrs if i.op == "call" and callee(i) and not dbg(callee(i)) and self.fn(callee(i)) is not None
                      for k, o in enumerate(i.ops) if isinstance(o, str) and o.startswith("%") and self.param(callee(i), k).frees == "must"]
        return F.ends

    def reaches(self, F, a, b):
        seen, todo = set(), list(F.succ(a))
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x not in seen:
                seen.add(x)
                todo += F.succ(x)
        return False

    def sameplace(self, F, W, a, b):
        if a == b:
            return True
        p, q = self.place(F, a), self.place(F, b)
        if p is not None and q is not None:
            return p[:3] == q[:3] and (p[3] in self.same(F, q[3]) or str(W.expr(p[3])) == str(W.expr(q[3])))
        if p is None and q is None:
            x, y = self.root(F, a), self.root(F, b)
            return x in self.same(F, y) or str(W.expr(x)) == str(W.expr(y))
        return False

    def getter(self, name):
        """(parameter, place) when a function hands out a field (or an element) of an argument as it is"""
        if not hasattr(self, "getters"):
            self.getters = {}
        if name not in self.getters:
            self.getters[name] = None
            F = self.fn(name) if name else None
            if F is not None:
                rets = [i for b in F.f.blocks.values() for i in b.instrs if i.op == "ret"]
                d = F.dfn.get(rets[0].ops[0]) if len(rets) == 1 and rets[0].ops and isinstance(rets[0].ops[0], str) else None
                if d is not None and d.op == "load" and str(d.type) == "ptr":
                    p = self.place(F, d.ops[0])
                    ks = [k for k, q in enumerate(F.f.params) if "%" + q[0].lstrip("%") == (p or [0] * 4)[3]]
                    if p is not None and ks:
                        self.getters[name] = ks[0], p
        return self.getters[name]

    def disposes(self, name, k):
        """what of a parameter the function releases: itself, what it points to, the elements of the array it points to"""
        F = self.fn(name)
        out = set()
        if F is None or k >= len(F.f.params) or str(F.f.params[k][1]) != "ptr":
            return out
        p = "%" + F.f.params[k][0].lstrip("%")
        if self.param(name, k).frees == "must":
            out.add("self")
        elif self.param(name, k).frees == "may":
            out.add("self?")
        al = self.copies(F, [p])[0]
        for b in F.f.blocks.values():
            for i in b.instrs:
                if i.op == "load" and str(i.type) == "ptr" and self.freed(F, i.dest):
                    if i.ops[0] in al and (F.dfn.get(i.ops[0]) is None or F.dfn[i.ops[0]].op != "gep"):
                        out.add("target")
                    elif i.ops[0] in al and F.dfn[i.ops[0]].op == "gep" and not str(F.dfn[i.ops[0]].type).startswith("%struct."):
                        out.add("elements")
                if i.op == "call" and callee(i) and self.fn(callee(i)) is not None and callee(i) != name:
                    for n, o in enumerate(i.ops):
                        if o in al:
                            out |= self.disposes(callee(i), n) & {"target", "elements"}
        return out

    def root(self, F, x):
        while True:
            i = F.dfn.get(x)
            if i is not None and i.op in ("gep", "cast"):
                x = i.ops[0]
            else:
                return x

    # ---- starting facts
    def dominating(self, W, F, cfg, block):
        env = {}
        b = block
        n = 0
        while n < 60:
            n += 1
            d = cfg.idom.get(b)
            if d is None or d == b:
                break
            t = F.f.blocks[d].term
            if t.op == "br" and t.ops and t.extra[0] != t.extra[1]:
                for k, s in enumerate(t.extra):
                    if s == b and len(F.f.blocks[s].preds) == 1:
                        for x, v in W.learn(t.ops[0], k == 0, env).items():
                            env.setdefault(x, v)
            b = d
        return env


class Base:
    def __init__(self, own):
        self.own = own

    def edge(self, W, a, b, phis, env, state):
        W.forget(env, W.info.defs[b])
        body = W.info.loops.get(b)
        if body is not None:
            env["@" + b] = ("c", 0 if a in body else 1)
        for h, bd in W.info.loops.items():
            if a in bd and b not in bd:
                env.pop("@" + h, None)
        return state

    def ok(self, c, i):
        """the value of an allocation: taken to succeed"""
        return ("pn", i.dest) if c is not None and i.dest and self.own.solid(c) else None

    def store(self, W, i, env, state, trail):
        return None

    def use(self, W, i, env, state, trail):
        return None

    def ret(self, W, t, v, env, state, trail):
        pass

    def args(self, W, i, env):
        for n, o in enumerate(i.ops):
            if isinstance(o, str) and o.startswith("%"):
                t = tag(W.val(o, env))
                if t:
                    yield n, o, t, len(W.val(o, env)) > 2, False
                if o in W.allocas:
                    t = tag(env.get("*" + o))
                    if t:
                        yield n, o, t, False, True


class Released(Base):
    """is the pointer released on every path to a return?"""

    def __init__(self, own):
        Base.__init__(self, own)
        self.ends = set()

    def call(self, W, i, c, env, state, trail):
        if c in NORETURN:
            return None
        for n, o, t, off, slot in self.args(W, i, env):
            if not slot and not off and c is not None and t == "q" and self.own.param(c, n).frees == "must":
                state = "done"
        return [(self.ok(c, i), state)]

    def ret(self, W, t, v, env, state, trail):
        self.ends.add(state == "done")


class Leak(Base):
    """follows storage from where it is obtained"""

    def __init__(self, own, site):
        Base.__init__(self, own)
        self.site = site
        self.found, self.given, self.names = [], {}, None

    def edge(self, W, a, b, phis, env, state):
        Base.edge(self, W, a, b, phis, env, state)
        if state == "done":
            return STOP
        h = W.info.exits.get(id(W.F.f.blocks[a].term))
        if h is not None and b not in h[1] and self.site.block not in h[1] and self.passed(W, h):
            # a loop that releases it in one of its rounds is taken to do so
            return STOP
        return state

    def passed(self, W, h):
        if h[0] not in self.given:
            F = W.F
            if self.names is None:
                if self.site.dest and self.own.fresh(callee(self.site) or ""):
                    self.names = self.own.copies(F, [self.site.dest])[0]
                else:
                    self.names = set()
            self.given[h[0]] = any(i.op == "call" and callee(i) and not dbg(callee(i)) and any(o in self.names and self.own.param(callee(i), n).frees != "no" for n, o in enumerate(i.ops))
                                   or i.op == "store" and i.ops[0] in self.names and i.ops[1] not in W.allocas and self.own.root(F, i.ops[1]) not in self.names
                                   for l in h[1] for i in F.f.blocks[l].instrs)
        return self.given[h[0]]

    def call(self, W, i, c, env, state, trail):
        if c in NORETURN:
            return None
        if state == "done":
            return None
        own = self.own
        res = None
        for n, o, t, off, slot in self.args(W, i, env):
            if slot:
                if c is not None and (c in LOOK or numeric(c)):
                    continue
                if t == "q" and c is not None and own.outfresh(c, n) and own.blind(c, n):
                    # the variable gets a new value without its old one being looked at
                    del env["*" + o]
                    if not any(tag(v) for k, v in env.items() if k[0] == "*" or k in W.info.live[i.block] or k in self.recent(W, i)):
                        self.report(W, i, trail, f"the variable that holds it is overwritten by {c}")
                        return None
                    continue
                return None
            if c is None:
                if t == "h":
                    return None
                continue
            p = own.param(c, n)
            if t == "h":
                if own.fn(c) is not None or p.keeps:
                    return None
                if p.frees != "no":
                    self.report(W, i, trail, "the array or object that holds it is released without it")
                    return None
                continue
            if off:
                if p.keeps:
                    return None
                if p.returns:
                    res = ("pn", "q", "off")
                continue
            if p.keeps or p.frees != "no":
                return None
            if p.returns:
                res = Q
        return [(res if res is not None else self.ok(c, i), state)]

    def store(self, W, i, env, state, trail):
        v = W.val(i.ops[0], env)
        t = tag(v)
        a = tag(W.val(i.ops[1], env))
        if t is None:
            return None
        if len(v) > 2:
            return "done" if i.ops[1] not in W.allocas else None
        if i.ops[1] in W.allocas:
            return None
        F = W.F
        b = self.own.root(F, i.ops[1])
        if t == "q":
            if a == "q":
                return None
            d = F.dfn.get(b)
            if d is not None and d.op == "call" and callee(d) and self.own.fresh(callee(d)) and state == "own" and not self.escaped(F, b):
                for k in [k for k, x in env.items() if x == Q or tag(x) == "q"]:
                    del env[k]
                env[b] = H
                return "held"
        return "done"

    def recent(self, W, i):
        return {j.dest for j in W.F.f.blocks[i.block].instrs if j.dest}

    def escaped(self, F, b):
        """is the container ever handed on?  then what it holds is somebody else's"""
        al, slots = self.own.copies(F, [b])
        for x in al:
            for j, n in F.users.get(x, ()):
                if j.op == "ret" or j.op == "store" and n == 0 and j.ops[1] not in slots:
                    return True
                if j.op == "call" and callee(j) and not dbg(callee(j)):
                    p = self.own.param(callee(j), n)
                    if p.keeps or self.own.fn(callee(j)) is not None:
                        return True
                if j.op == "call" and callee(j) is None:
                    return True
        return bool(slots)

    def use(self, W, i, env, state, trail):
        if state == "held" and i.op == "load" and str(i.type) == "ptr" and tag(W.val(i.ops[0], env)) == "h":
            return "done"
        return None

    def ret(self, W, t, v, env, state, trail):
        if state == "done" or tag(v):
            return
        self.report(W, t, trail, "it is neither released nor handed on")

    def report(self, W, i, trail, why):
        self.found.append((i.line, why, trail))


class Dangling(Base):
    """follows a pointer after its storage was released"""

    def __init__(self, own, site, stale=False, base=None, bases=()):
        Base.__init__(self, own)
        self.site, self.stale, self.base, self.bases = site, stale, base, bases
        self.found = []

    def edge(self, W, a, b, phis, env, state):
        Base.edge(self, W, a, b, phis, env, state)
        if "K" not in env and not any(tag(v) for v in env.values()):
            return STOP
        return state

    def call(self, W, i, c, env, state, trail):
        if c in NORETURN:
            return None
        own = self.own
        for n, o, t, off, slot in self.args(W, i, env):
            if c is None:
                self.found.append((i.line, "is passed to a function", trail))
                return None
            if slot:
                env.pop("*" + o, None)
                continue
            p = own.param(c, n)
            if p.frees == "must" and not off:
                self.found.append((i.line, f"is released again by {c}", trail))
                return None
            if p.looks:
                self.found.append((i.line, f"is used by {c}", trail))
                return None
        K = env.get("K")
        if K is not None and self.base is not None and c is not None and any((o in self.bases or str(W.expr(o)) == str(W.expr(self.base))) and own.param(c, n).frees != "no"
                                                                                for n, o in enumerate(i.ops) if isinstance(o, str) and o.startswith("%")):
            env.pop("K", None)
            K = None
        if K is not None and c not in ("free", "printf", "fprintf") and not (c and (numeric(c) or c in LOOK)):
            names = set(re.findall(r"%[\w.\-]+", K))
            for o in i.ops:
                if isinstance(o, str) and o.startswith("%") and (names & set(re.findall(r"%[\w.\-]+", str(W.expr(o)))) or o in W.allocas):
                    env.pop("K", None)
                    break
        return [(self.ok(c, i), state)]

    def store(self, W, i, env, state, trail):
        if tag(W.val(i.ops[1], env)):
            self.found.append((i.line, "is written to", trail))
            return STOP
        K = env.get("K")
        if K is not None:
            a = "*" + str(W.expr(i.ops[1]))
            if a == K or last(a) == last(K):
                env.pop("K", None)
        return None

    def use(self, W, i, env, state, trail):
        if i.op == "load" and tag(W.val(i.ops[0], env)):
            self.found.append((i.line, "is read", trail))
            return STOP
        return None

    def ret(self, W, t, v, env, state, trail):
        if state == STOP:
            return
        if tag(v) and len(v) == 2:
            self.found.append((t.line, "is returned", trail))
        elif self.stale and "K" in env and self.base not in W.allocas:
            self.found.append((t.line, "stays in the object it was read from", trail))


class NullUse(Base):
    """follows a variable or field that was set to null after its storage was released"""

    def __init__(self, own, must=False):
        Base.__init__(self, own)
        self.must = must
        self.found = []
        self.through = False

    def edge(self, W, a, b, phis, env, state):
        Base.edge(self, W, a, b, phis, env, state)
        if not self.must and "N" not in env and not any(v == NULLP for k, v in env.items() if k[0] in "%*"):
            return STOP
        return state

    def null(self, W, x, env):
        return isinstance(x, str) and x != "null" and W.val(self.own.root(W.F, x), env) == NULLP or x == "null"

    def call(self, W, i, c, env, state, trail):
        if c in NORETURN:
            return None
        own = self.own
        for n, o in enumerate(i.ops):
            if c is not None and self.null(W, o, env) and (not self.must or o != "null") and own.needs(c, n):
                self.found.append((i.line, f"is used by {c}", trail))
                return None
        N = env.get("N")
        if N is not None and c not in ("free", "printf", "fprintf") and not (c and (numeric(c) or c in LOOK)):
            names = set(re.findall(r"%[\w.\-]+", N))
            for o in i.ops:
                if isinstance(o, str) and o.startswith("%") and (names & set(re.findall(r"%[\w.\-]+", str(W.expr(o)))) or o in W.allocas):
                    env.pop("N", None)
                    break
        return [(self.ok(c, i), state)]

    def store(self, W, i, env, state, trail):
        if self.null(W, i.ops[1], env):
            self.found.append((i.line, "is written through", trail))
            return STOP
        N = env.get("N")
        if N is not None:
            a = "*" + str(W.expr(i.ops[1]))
            if a == N or last(a) == last(N):
                env.pop("N", None)
        return None

    def use(self, W, i, env, state, trail):
        if i.op == "load" and self.null(W, i.ops[0], env):
            self.found.append((i.line, "is read through", trail))
            return STOP
        return None

    def ret(self, W, t, v, env, state, trail):
        if state != STOP:
            self.through = True


def last(e):
    """type and last index of an address expression"""
    m = re.search(r"([^,()]+);([^;()]*)\)+$", e)
    return m.groups() if m else e


# ---- the obligations

def obtained(own):
    """(function, call, what is tracked at the start): every place where storage or a file is obtained"""
    for n in sorted(own.prog.functions):
        F = own.fn(n)
        if F is None:
            continue
        for b in F.f.blocks.values():
            for x, i in enumerate(b.instrs):
                c = callee(i) if i.op == "call" else None
                if c is None or dbg(c):
                    continue
                if own.fresh(c):
                    yield n, b.label, x, i, c, "the result of " + c, {i.dest: Q} if i.dest else {}
                for k, o in enumerate(i.ops):
                    if o in own.slots(F) and own.fn(c) and own.outfresh(c, k):
                        yield n, b.label, x, i, c, f"what {c} stores through argument {k + 1}", {"*" + o: Q}


def leaks(ctx, own):
    """yields (function, call, text, None | 'too many' | (line, why, trail))"""
    for n, lab, x, i, c, text, e0 in obtained(own):
        F = own.fn(n)
        W = own.walk(n)
        env = own.dominating(W, F, ctx.eng.cfg(n), lab)
        env.update(e0)
        cl = Leak(own, i)
        try:
            W.run(lab, x + 1, env, "own", cl)
        except TooMany:
            yield n, i, text, "too many"
            continue
        yield n, i, text, cl.found[0] if cl.found else None


def released(own):
    for n in sorted(own.prog.functions):
        F = own.fn(n)
        if F is None:
            continue
        for b in F.f.blocks.values():
            for x, i in enumerate(b.instrs):
                c = callee(i) if i.op == "call" else None
                if c is None or dbg(c):
                    continue
                for k, o in enumerate(i.ops):
                    if isinstance(o, str) and o.startswith("%") and own.param(c, k).frees == "must":
                        yield n, b.label, x, i, c, k, o


def dangling(ctx, own):
    for n, lab, x, i, c, k, o in released(own):
        F = own.fn(n)
        W = own.walk(n)
        env = own.dominating(W, F, ctx.eng.cfg(n), lab)
        d, r = F.dfn.get(o), o
        while d is not None and d.op == "cast":
            env[r] = Q
            r = d.ops[0]
            d = F.dfn.get(r)
        env[r] = env[o] = Q
        base = None
        if d is not None and d.op == "load":
            env["K"] = str(W.expr(r))
            if F.dfn.get(d.ops[0]) is not None:
                base = own.root(F, d.ops[0])
        cl = Dangling(own, i, base is not None and not own.disposed(n, base), base, own.same(F, base) if base else ())
        try:
            W.run(lab, x + 1, env, "freed", cl)
        except TooMany:
            yield n, i, c, o, "too many"
            continue
        yield n, i, c, o, cl.found[0] if cl.found else None


def constant_reach(own, n, F):
    """blocks of a function that conditions on constants and addresses of locals do not rule out"""
    W = own.walk(n)
    seen, todo = set(), [F.rpo[0]]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        t = F.f.blocks[b].term
        env = {}
        if t.op == "br" and t.ops:
            i = W.dfn.get(t.ops[0])
            r = Explorer.cmp(W, i, {}) if i is not None and i.op == "icmp" else None
            if r is not None:
                env[t.ops[0]] = ("c", r)
        todo.extend(x[0] for x in Explorer.targets(W, t, env))
    return seen


def emptied(ctx, own):
    """uses of null: constants passed on, and variables and fields set to null right after their release"""
    for n in sorted(own.prog.functions):
        F = own.fn(n)
        if F is None:
            continue
        for b in F.f.blocks.values():
            gone = []
            for x, i in enumerate(b.instrs):
                c = callee(i) if i.op == "call" else None
                if c is not None and not dbg(c) and c not in NORETURN:
                    for k, o in enumerate(i.ops):
                        if o == "null":
                            bad = own.needs(c, k) and b.label in constant_reach(own, n, F)
                            yield n, i, c, (i.line, f"is used by {c}", ()) if bad else None
                        elif isinstance(o, str) and o.startswith("%") and own.param(c, k).frees == "must":
                            d = F.dfn.get(o)
                            while d is not None and d.op == "cast":
                                d = F.dfn.get(d.ops[0])
                            if d is not None and d.op == "load":
                                gone.append(d.ops[0])
                if i.op == "store" and i.ops[0] == "null" and gone:
                    W = own.walk(n)
                    a = i.ops[1]
                    if not any(g == a or str(W.expr(g)) == str(W.expr(a)) for g in gone):
                        continue
                    env = own.dominating(W, F, ctx.eng.cfg(n), b.label)
                    if a in W.allocas:
                        env["*" + a] = NULLP
                    else:
                        env["N"] = "*" + str(W.expr(a))
                    cl = NullUse(own)
                    try:
                        W.run(b.label, x + 1, env, "null", cl)
                    except TooMany:
                        yield n, i, "free", "too many"
                        continue
                    yield n, i, "free", cl.found[0] if cl.found else None


def moved(own):
    """a pointer is copied from one object to another and the first object is then released with what it holds"""
    for n in sorted(own.prog.functions):
        F = own.fn(n)
        if F is None:
            continue
        W = None
        for b in F.f.blocks.values():
            for i in b.instrs:
                if i.op != "store" or not isinstance(i.ops[0], str) or i.ops[1] in own.slots(F):
                    continue
                d = F.dfn.get(i.ops[0])
                while d is not None and d.op == "cast":
                    d = F.dfn.get(d.ops[0])
                if d is None or d.op != "load" or str(d.type) != "ptr":
                    continue
                W = W or own.walk(n)
                src = own.place(F, d.ops[0])
                r = own.root(F, d.ops[0])
                to = own.root(F, i.ops[1])
                obj = src[3] if src is not None else r
                if src is None and not str(F.dfn[d.ops[0]].type if F.dfn.get(d.ops[0]) is not None else "") == "ptr":
                    continue
                # where the object (or the array) is released
                for cb, c, k, j in own.enders(F):
                    o = j.ops[k]
                    hit = None
                    if src is not None and (o in own.same(F, obj) or str(W.expr(o)) == str(W.expr(obj))):
                        G = own.fn(c)
                        if G is not None and own.lets_go(G, own.copies(G, ["%" + G.f.params[k][0].lstrip("%")])[0], src[:3], True):
                            hit = f"{src[0]} it was read from"
                    if hit is None and (src is None or src[2] == 2) and (o in own.same(F, r) or str(W.expr(o)) == str(W.expr(r))) and "elements" in own.disposes(c, k):
                        hit = "array it was read from"
                    if hit is None or str(W.expr(to)) == str(W.expr(r)):
                        continue
                    if i.block != cb and not own.reaches(F, i.block, cb):
                        continue
                    # the place is given another value, or the destination does not outlive the call
                    if any(x.op == "store" and x is not i and own.sameplace(F, W, x.ops[1], d.ops[0])
                           and (bb.label in (i.block, cb) or own.reaches(F, i.block, bb.label) and own.reaches(F, bb.label, cb)) for bb in F.f.blocks.values() for x in bb.instrs):
                        yield n, i, c, j, None
                        continue
                    t = F.dfn.get(to)
                    al, slots = own.copies(F, [to])
                    if t is not None and (t.op == "alloca" or t.op == "call" and not any(u.op == "ret" or u.op == "store" and m == 0 and u.ops[1] not in slots for y in al for u, m in F.users.get(y, ()))):
                        yield n, i, c, j, None
                        continue
                    yield n, i, c, j, hit


def above(idom, a, b):
    while b is not None and b != a:
        b = idom.get(b)
    return b == a


def sharing(own, owns, readonly):
    """one pointer, two owners: (function, store, what, bad)

    owns: (structure, field name, level) the destructors release; readonly: (function, parameter number) that stay the caller's"""
    for n in sorted(own.prog.functions):
        F = own.fn(n)
        if F is None:
            continue
        W = dom = None
        params = {"%" + p[0].lstrip("%"): k for k, p in enumerate(F.f.params)}

        def owned(p):
            return p is not None and (p[0], own.prog.fieldname("struct." + p[0], p[1]), p[2]) in owns

        def outlives(x, depth=0):
            """does the object stay with the caller?"""
            x = own.root(F, x)
            if x in params:
                return True
            d = F.dfn.get(x)
            if d is None or depth > 6:
                return False
            if d.op == "load":
                return d.ops[0] not in own.slots(F) and outlives(d.ops[0], depth + 1)
            if d.op != "call":
                return False
            al, slots = own.copies(F, [x])
            for y in al:
                for j, m in F.users.get(y, ()):
                    if j.op == "ret" or j.op == "store" and m == 0 and j.ops[1] not in slots and outlives(j.ops[1], depth + 1):
                        return True
            return False

        def borrowed(x, depth=0):
            """does the object belong to the caller and stay so?"""
            x = own.root(F, x)
            if x in params:
                return params[x]
            d = F.dfn.get(x)
            if d is None or depth > 6 or d.op != "load" or d.ops[0] in own.slots(F):
                return None
            return borrowed(d.ops[0], depth + 1)

        def released(x):
            return any(j.op == "call" and callee(j) and not dbg(callee(j)) and own.param(callee(j), m).frees != "no" for y in own.same(F, x) for j, m in F.users.get(y, ()))

        for b in F.f.blocks.values():
            for i in b.instrs:
                if i.op != "store" or not isinstance(i.ops[0], str) or i.ops[1] in own.slots(F) or not own.pointer(F, i.ops[0]):
                    continue
                to = own.place(F, i.ops[1])
                if not owned(to) or not outlives(to[3]):
                    continue
                d, v = F.dfn.get(i.ops[0]), i.ops[0]
                while d is not None and d.op in ("cast", "freeze"):
                    v = d.ops[0]
                    d = F.dfn.get(v)
                W = W or own.walk(n)

                def again(a, me):
                    return any(x.op == "store" and x is not me and own.sameplace(F, W, x.ops[1], a) for bb in F.f.blocks.values() for x in bb.instrs)

                def over():
                    """the place is given something else later on"""
                    if to[2] == 1:
                        return again(i.ops[1], i)
                    return any(x.op == "store" and x is not i and not (x.block == i.block and bb.instrs.index(x) < bb.instrs.index(i)) and own.sameplace(F, W, x.ops[1], i.ops[1]) and (x.ops[0] == "null" or str(W.expr(x.ops[1])) == str(W.expr(i.ops[1])))
                               for bb in F.f.blocks.values() for x in bb.instrs)
                what = f"{to[0]}.{own.prog.fieldname('struct.' + to[0], to[1])}"
                if d is not None and d.op in ("call", "load") and d.block is not None:
                    dom = dom or dominators(F)
                    late = [j for y in own.same(F, v) if y == v or F.dfn[y].op != "phi" for j, m in F.users.get(y, ()) if j.op == "call" and callee(j) and own.param(callee(j), m).frees == "must"
                            and (j.block == i.block and b.instrs.index(j) > b.instrs.index(i) or j.block != i.block and above(dom, i.block, j.block))]
                    if late and not over() and not (d.op == "load" and again(d.ops[0], i)):
                        yield n, i, what, f"a pointer that {callee(late[0])} releases at line {late[0].line}"
                        continue
                if d is not None and d.op == "load" and str(d.type) == "ptr":
                    src = own.place(F, d.ops[0])
                    r = own.root(F, d.ops[0])
                    q = F.dfn.get(r)
                    if src is None and to[2] == 2 and q is not None and q.op in ("call", "alloca") and r not in own.slots(F):
                        # an element of a local array, and the elements of the array are then released one by one
                        els = [x for bb in F.f.blocks.values() for x in bb.instrs if x.op == "load" and str(x.type) == "ptr" and x is not d and x.block != d.block and own.root(F, x.ops[0]) == r
                               and own.reaches(F, i.block, x.block) and not own.reaches(F, x.block, i.block)]
                        fr = [(x, j) for x in els for j, m in F.users.get(x.dest, ()) if j.op == "call" and callee(j) and own.param(callee(j), m).frees == "must"]
                        sts = [x for bb in F.f.blocks.values() for x in bb.instrs if x.op == "store" and own.root(F, x.ops[1]) == r and (x.block == i.block or own.reaches(F, i.block, x.block))]
                        if fr and not over() and not [x for x in sts if not any(j.block == x.block and F.f.blocks[x.block].instrs.index(j) < F.f.blocks[x.block].instrs.index(x) for e, j in fr)]:
                            yield n, i, what, f"an element of a local array whose elements {callee(fr[0][1])} releases at line {fr[0][1].line}"
                        else:
                            yield n, i, what, None
                        continue
                    if not owned(src) or borrowed(src[3]) is None:
                        continue
                    sw = f"{src[0]}.{own.prog.fieldname('struct.' + src[0], src[1])}"
                    if own.sameplace(F, W, d.ops[0], i.ops[1]) or again(d.ops[0], i) or over() or released(src[3]) or released(d.dest):
                        yield n, i, what, None
                        continue
                    yield n, i, what, f"{sw} of an object the caller keeps"
                elif v in params:
                    if (n, params[v]) in readonly and not over():
                        yield n, i, what, f"argument {v.lstrip('%')}, which the caller keeps"
                    else:
                        yield n, i, what, None
                elif d is not None and d.op == "call" and own.getter(callee(d)) is not None:
                    k, src = own.getter(callee(d))
                    if not owned(src) or k >= len(d.ops) or borrowed(d.ops[k]) is None:
                        continue
                    if over() or released(d.ops[k]) or released(d.dest):
                        yield n, i, what, None
                    else:
                        yield n, i, what, f"{src[0]}.{own.prog.fieldname('struct.' + src[0], src[1])} of an object the caller keeps"
                elif d is not None and d.op == "call" and to[2] == 2 and own.fresh(callee(d) or ""):
                    # one new object put into many places
                    loop = own.reaches(F, i.block, i.block)
                    if loop and not own.reaches(F, i.block, d.block) and not over() and F.dfn.get(i.ops[1]) is not None and F.dfn[i.ops[1]].op == "gep" \
                            and any(isinstance(o, str) and F.dfn.get(o) is not None and own.reaches(F, i.block, F.dfn[o].block) for o in F.dfn[i.ops[1]].ops[1:]):
                        yield n, i, what, "one new object, stored in every pass of a loop"
                    else:
                        yield n, i, what, None
