"""Definite initialisation of freshly allocated memory.

For every allocation site of uninitialised memory (malloc, or a function that hands out such memory) a forward
must-analysis over the control-flow graph records which fields of the object have been set, through
callees too.  A pointer the analysis loses track of counts as fully initialised, so that only fields
that certainly were not written are reported."""
import re

ZERO = {"calloc"}
RAW = {"malloc", "aligned_alloc", "valloc"}
NORETURN = {"exit", "abort", "__assert_fail", "_exit", "longjmp"}
ALL = "ALL"
# external routines that neither write nor keep what they are handed
READONLY = {"free", "fprintf", "printf", "fwrite", "cblas_ddot", "cblas_dnrm2", "cblas_dasum", "cblas_idamax", "strlen", "strcmp", "puts"}


def callee(i):
    if isinstance(i.extra, str) and i.extra.startswith("@"):
        c = i.extra[1:]
        if c.startswith("llvm.mem"):
            return c.split(".")[1]
        return c
    return None


def dbg(c):
    return c is not None and (c.startswith("llvm.dbg") or c.startswith("llvm.lifetime"))


class Fn:
    """per-function facts: users, derived pointers, reverse post-order"""

    def __init__(self, f):
        self.f = f
        self.dfn, self.users = {}, {}
        for b in f.blocks.values():
            for i in b.instrs:
                if i.dest:
                    self.dfn[i.dest] = i
                i.block = b.label
                for n, o in enumerate(i.ops or ()):
                    if isinstance(o, str) and o.startswith("%"):
                        self.users.setdefault(o, []).append((i, n))
        self.rpo = self.order()

    def order(self):
        seen, out = set(), []
        ent = next(iter(self.f.blocks))
        stack = [(ent, iter(self.succ(ent)))]
        seen.add(ent)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ(s))))
                    break
            else:
                out.append(b)
                stack.pop()
        return out[::-1]

    def succ(self, b):
        t = self.f.blocks[b].term
        if any(i.op == "call" and callee(i) in NORETURN for i in self.f.blocks[b].instrs):
            return []
        if t.op == "br":
            return list(t.extra)
        if t.op == "switch":
            return list(dict.fromkeys(t.extra[0]))
        return []


class Init:
    def __init__(self, prog):
        self.prog = prog
        self.fns = {}
        self.pmemo, self.rmemo = {}, {}
        self.active = set()

    def fn(self, name):
        if name not in self.fns:
            f = self.prog.functions.get(name)
            self.fns[name] = Fn(f) if f is not None and f.blocks else None
        return self.fns[name]

    # ---- what a callee does to a parameter: the set of fields it certainly sets, or ALL
    def param(self, name, k):
        key = (name, k)
        if key in self.pmemo:
            return self.pmemo[key]
        F = self.fn(name)
        if F is None or k >= len(F.f.params) or key in self.active or len(self.active) > 12:
            return ALL
        p = F.f.params[k][0]
        p = p if p.startswith("%") else "%" + p
        self.active.add(key)
        exits = self.flow(F, p, None, frozenset())
        self.active.discard(key)
        r = None
        for t, st in exits:
            if st is None:
                continue
            r = st if r is None else meet(r, st)
        self.pmemo[key] = ALL if r is None else r
        return self.pmemo[key]

    # ---- what a function hands out: None (not fresh), or the fields certainly set in the new object
    def result(self, name):
        if name in self.rmemo:
            return self.rmemo[name]
        if ("r", name) in self.active:
            return None
        F = self.fn(name)
        self.rmemo[name] = None
        if F is None or str(F.f.ret) != "ptr":
            return None
        self.active.add(("r", name))
        out = None
        for site, st0 in self.sites(F):
            for t, st in self.flow(F, site.dest, site, st0):
                if st is None or t is None:
                    continue
                # is this the value returned?
                if not t.ops:
                    continue
                if t.ops[0] == site.dest:
                    r = st
                else:
                    continue
                out = r if out is None else meet(out, r)
            for st in self.phis(F, site, st0):
                out = st if out is None else meet(out, st)
        self.active.discard(("r", name))
        self.rmemo[name] = out
        return out

    def sites(self, F):
        """calls that hand out memory with unset content: (instruction, fields already set)"""
        for b in F.rpo:
            for i in F.f.blocks[b].instrs:
                if i.op == "call" and i.dest and str(i.type) == "ptr":
                    c = callee(i)
                    if c in RAW:
                        yield i, frozenset()
                    elif c in self.prog.functions:
                        r = self.result(c)
                        if r is not None and r != ALL:
                            yield i, r

    def phis(self, F, site, st0):
        """states in which the object reaches a return through a phi"""
        out = []
        for b in F.rpo:
            t = F.f.blocks[b].term
            if t.op != "ret" or not t.ops:
                continue
            i = F.dfn.get(t.ops[0])
            if i is None or i.op != "phi" or i.block != b:
                continue
            self.flow(F, site.dest, site, st0)
            for o, pb in zip(i.ops, i.extra):
                if o == site.dest and pb in self.last_out and self.last_out[pb] is not None:
                    st = self.last_out[pb]
                    for j in F.f.blocks[b].instrs:
                        if j.op == "phi":
                            continue
                        if j.op in ("call", "store"):
                            st = self.transfer(F, j, i.dest, st, {i.dest: ()})
                    out.append(st)
        return out

    def derived(self, F, p):
        """pointer -> () for the object itself, (struct, field) for a field address, None for anything else"""
        d = {p: ()}
        todo = [p]
        while todo:
            x = todo.pop()
            for i, n in F.users.get(x, ()):
                if i.op == "gep" and n == 0:
                    if d[x] == () and len(i.ops) >= 3 and i.ops[1] == "0" and re.fullmatch(r"\d+", i.ops[2]) and str(i.type).lstrip("%").startswith("struct."):
                        v = (str(i.type).lstrip("%"), int(i.ops[2]))
                    elif d[x] is not None and d[x] != () and all(o == "0" for o in i.ops[1:]):
                        v = d[x]
                    else:
                        v = None
                elif i.op in ("cast", "phi", "select", "freeze"):
                    v = d[x] if i.op in ("cast", "freeze") else None
                    if i.op == "phi" and i.dest in d:
                        continue
                else:
                    continue
                if i.dest and i.dest not in d:
                    d[i.dest] = v
                    todo.append(i.dest)
        return d

    def flow(self, F, p, site, st0, aliases=()):
        """forward analysis; the states at the returns reached with the object alive"""
        d = self.derived(F, p)
        for x in aliases:
            for k, v in self.derived(F, x).items():
                d.setdefault(k, v)
        outs, exits = {}, []
        ent = next(iter(F.f.blocks))
        ins = {}
        if site is None:
            ins[ent] = st0
            start = ent
        else:
            start = site.block
        changed = True
        preds = {}
        for b in F.rpo:
            for s in F.succ(b):
                preds.setdefault(s, []).append(b)
        rounds = 0
        while changed and rounds < 30:
            changed = False
            rounds += 1
            for b in F.rpo:
                st = None
                for q in preds.get(b, ()):
                    if outs.get(q) is not None and not self.nulledge(F, q, b, p):
                        st = outs[q] if st is None else meet(st, outs[q])
                if b == ent and site is None:
                    st = st0 if st is None else meet(st, st0)
                live = st is not None
                for i in F.f.blocks[b].instrs:
                    if i is site:
                        st, live = st0, True
                        continue
                    if not live:
                        continue
                    st = self.transfer(F, i, p, st, d)
                o = st if live else None
                if outs.get(b, "?") != o:
                    outs[b] = o
                    changed = True
        self.last_out = outs
        for b in F.rpo:
            t = F.f.blocks[b].term
            if t.op == "ret" and outs.get(b) is not None:
                exits.append((t, outs[b]))
        return exits

    def nulledge(self, F, q, b, p):
        """the edge taken when the object is null"""
        t = F.f.blocks[q].term
        if t.op != "br" or not t.ops:
            return False
        c = F.dfn.get(t.ops[0])
        if c is None or c.op != "icmp" or not ({c.ops[0], c.ops[1]} == {p, "null"}):
            return False
        k = 0 if c.extra == "eq" else 1 if c.extra == "ne" else None
        return k is not None and t.extra[k] == b and t.extra[0] != t.extra[1]

    def transfer(self, F, i, p, st, d):
        if st == ALL:
            return st
        if i.op == "store":
            v, a = i.ops
            if a in d:
                x = d[a]
                if x is None:
                    return ALL
                if x == ():
                    return st | {0}
                return st | {x[1]}
            if v in d and d[v] == ():
                # kept somewhere: the object can be written from there
                return st | {"kept"}
            return st
        if i.op == "call":
            c = callee(i)
            if dbg(c):
                return st
            for n, o in enumerate(i.ops):
                if o not in d or not isinstance(o, str):
                    continue
                x = d[o]
                if c in ("memcpy", "memmove", "memset"):
                    if n == 0:
                        if x == ():
                            return ALL
                        if x is not None:
                            st = st | {x[1]}
                    continue
                if c in READONLY:
                    continue
                if c in self.prog.functions:
                    if x == ():
                        r = self.param(c, n)
                        if r == ALL:
                            return ALL
                        st = st | r
                    elif x is not None:
                        st = st | {x[1]}
                    continue
                if x == ():
                    return ALL
                if x is not None:
                    st = st | {x[1]}
            return st
        return st


def meet(a, b):
    if a == ALL:
        return b
    if b == ALL:
        return a
    return a & b


# ------------------------------------------------------------------ memory read before anything was written to it
READ_EXT = {"cblas_daxpy": (2, 4), "cblas_dscal": (2,), "cblas_ddot": (1, 3), "cblas_dnrm2": (1,), "cblas_dasum": (1,), "cblas_idamax": (1,),
            "cblas_dcopy": (1,), "memcpy": (1,), "memmove": (1,), "cblas_dgemv": (5, 7), "cblas_dgemm": (7, 9), "cblas_dger": (4, 6), "fwrite": (0,)}
BETA = {"cblas_dgemv": (9, 10), "cblas_dgemm": (11, 12)}
NOWRITE_EXT = READONLY | {"qsort_r"}


def isconst(x):
    try:
        return float.fromhex(x) if x.lower().startswith("0x") is False else None
    except (ValueError, AttributeError):
        return None


class Reads:
    """reads of memory that nothing has been written to since it was allocated"""

    def __init__(self, init):
        self.I, self.prog = init, init.prog
        self.memo, self.wmemo = {}, {}
        self.nsites = self.nreads = 0
        self.depth = 0

    def maywrite(self, c, n):
        """could function c write through its argument n?  (conservative: yes unless shown otherwise)"""
        key = (c, n)
        if key in self.wmemo:
            return self.wmemo[key]
        F = self.I.fn(c)
        if F is None or n >= len(F.f.params):
            return True
        self.wmemo[key] = True
        p = F.f.params[n][0]
        p = p if p.startswith("%") else "%" + p
        d = self.derived(F, p)
        r = False
        for b in F.f.blocks.values():
            for i in b.instrs:
                if i.op == "store" and (i.ops[1] in d or i.ops[0] in d):
                    r = True
                elif i.op == "ret" and i.ops and i.ops[0] in d:
                    r = True
                elif i.op == "call":
                    cc = callee(i)
                    if dbg(cc):
                        continue
                    for k, o in enumerate(i.ops):
                        if o in d and self.callwrites(cc, k, i):
                            r = True
                if r:
                    break
            if r:
                break
        self.wmemo[key] = r
        return r

    def callwrites(self, c, k, i):
        if c in NOWRITE_EXT:
            return False
        if c in READ_EXT:
            w = {"cblas_daxpy": (4,), "cblas_dscal": (2,), "cblas_dcopy": (3,), "memcpy": (0,), "memmove": (0,), "cblas_dgemv": (10,),
                 "cblas_dgemm": (12,), "cblas_dger": (7,)}.get(c, ())
            return k in w
        if c in self.prog.functions:
            return self.maywrite(c, k)
        return True

    def derived(self, F, p):
        """every pointer that can point into the object -> field class ('*' when not a single field)"""
        d = {p: ""}
        todo = [p]
        while todo:
            x = todo.pop()
            for i, n in F.users.get(x, ()):
                v = "*"
                if i.op == "gep" and n == 0:
                    if d[x] == "" and len(i.ops) >= 3 and i.ops[1] == "0" and re.fullmatch(r"\d+", i.ops[2]) and str(i.type).lstrip("%").startswith("struct."):
                        v = (str(i.type).lstrip("%"), int(i.ops[2]))
                    elif d[x] not in ("", "*"):
                        v = d[x]
                elif i.op in ("cast", "freeze"):
                    v = d[x]
                elif i.op not in ("phi", "select"):
                    continue
                if i.dest and i.dest not in d:
                    d[i.dest] = v
                    todo.append(i.dest)
        return d

    def exact(self, F, p):
        """pointers that certainly point into the object"""
        d = {p}
        todo = [p]
        while todo:
            x = todo.pop()
            for i, n in F.users.get(x, ()):
                if (i.op == "gep" and n == 0 or i.op in ("cast", "freeze")) and i.dest and i.dest not in d:
                    d.add(i.dest)
                    todo.append(i.dest)
        return d

    def firstread(self, F, p, site):
        """(instruction, what) of a read that comes before every write"""
        d = self.derived(F, p)
        ex = self.exact(F, p)
        reads, writes = [], []
        for b in F.rpo:
            for k, i in enumerate(F.f.blocks[b].instrs):
                pos = (b, k)
                if i.op == "load" and i.ops[0] in ex:
                    reads.append((pos, i, d[i.ops[0]], "is read"))
                elif i.op == "store":
                    if i.ops[1] in d:
                        writes.append((pos, d[i.ops[1]]))
                    if i.ops[0] in d:
                        writes.append((pos, "*"))      # kept elsewhere
                elif i.op == "call":
                    c = callee(i)
                    if dbg(c) or i is site:
                        continue
                    for n, o in enumerate(i.ops):
                        if o not in d:
                            continue
                        if c in READ_EXT and o in ex and (n in READ_EXT[c]):
                            reads.append((pos, i, "*", f"is read by {c}"))
                        elif c in BETA and o in ex and n == BETA[c][1]:
                            z = i.ops[BETA[c][0]]
                            if z in ("1.000000e+00", "-1.000000e+00"):
                                reads.append((pos, i, "*", f"is updated by {c}"))
                        elif c in self.prog.functions and o in ex and c not in RAW:
                            w = self.paramread(c, n)
                            if w:
                                reads.append((pos, i, "*", f"is read by {c} ({w})"))
                        if self.callwrites(c, n, i):
                            writes.append((pos, "*"))
        if not reads:
            return
        start = None
        if site is not None:
            for b in F.rpo:
                for k, i in enumerate(F.f.blocks[b].instrs):
                    if i is site:
                        start = (b, k + 1)
        else:
            start = (F.rpo[0], 0)
        if start is None:
            return
        for pos, i, cls, what in reads:
            if site is None and not self.always(F, pos[0]):
                continue
            self.nreads += 1
            reach = self.reach(F, start, {pos} | ({(start[0], start[1] - 1)} if site is not None else set()))
            if pos not in reach:
                continue
            ok = False
            for w, wc in writes:
                if w == pos or w not in reach:
                    continue
                if not (wc == "*" or cls in ("*", "") or wc == cls or wc == ""):
                    continue
                r2 = self.reach(F, (w[0], w[1] + 1), {(start[0], start[1] - 1)} if site is not None else set())
                if pos in r2:
                    ok = True
                    break
            if not ok:
                yield i, what

    def reach(self, F, start, stop):
        """positions reachable from a position, not going past those in stop (which are included)"""
        out = set()
        todo = [start]
        seen = set()
        while todo:
            b, k = todo.pop()
            if (b, k) in seen:
                continue
            seen.add((b, k))
            ins = F.f.blocks[b].instrs
            dead = False
            for j in range(k, len(ins)):
                out.add((b, j))
                if (b, j) in stop:
                    dead = True
                    break
                if ins[j].op == "call" and callee(ins[j]) in NORETURN:
                    dead = True
                    break
            if not dead:
                for s in F.succ(b):
                    todo.append((s, 0))
        return out

    def always(self, F, blk):
        """the block runs on every normal execution, up to loops that make no iteration"""
        if not hasattr(F, "loops"):
            F.loops = natural_loops(F)
        # follow the entry; every branch that can avoid blk must be a loop condition around it or lead nowhere
        can = set()
        rev = {}
        for b in F.rpo:
            for s in F.succ(b):
                rev.setdefault(s, []).append(b)
        todo = [blk]
        while todo:
            x = todo.pop()
            if x in can:
                continue
            can.add(x)
            todo += rev.get(x, [])
        ends = {b for b in F.rpo if F.f.blocks[b].term.op == "ret"}
        live = set()
        todo = list(ends)
        while todo:
            x = todo.pop()
            if x in live:
                continue
            live.add(x)
            todo += rev.get(x, [])
        seen, todo = set(), [F.rpo[0]]
        while todo:
            x = todo.pop()
            if x in seen or x == blk:
                continue
            seen.add(x)
            for s in F.succ(x):
                if s in can:
                    todo.append(s)
                elif s in live:
                    if not (x in F.loops and blk in F.loops[x]):
                        return False
            if x in ends:
                return False
        return True

    def paramread(self, c, n):
        key = (c, n)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        F = self.I.fn(c)
        if F is None or n >= len(F.f.params) or self.depth > 5:
            return None
        p = F.f.params[n][0]
        p = p if p.startswith("%") else "%" + p
        self.depth += 1
        for i, what in self.firstread(F, p, None):
            self.memo[key] = f"{F.f.name} line {i.line}"
            break
        self.depth -= 1
        return self.memo[key]

    def raw_sites(self, F):
        for b in F.rpo:
            for i in F.f.blocks[b].instrs:
                if i.op == "call" and i.dest and str(i.type) == "ptr":
                    c = callee(i)
                    if c in RAW:
                        yield i
                    elif c in self.prog.functions and self.rawresult(c):
                        yield i

    def rawresult(self, c):
        """the function hands out memory it has written nothing to"""
        key = ("raw", c)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        F = self.I.fn(c)
        if F is None or str(F.f.ret) != "ptr" or self.depth > 5:
            return False
        rets = [F.f.blocks[b].term for b in F.rpo if F.f.blocks[b].term.op == "ret"]
        self.depth += 1
        out = False
        for site in self.raw_sites(F):
            d = self.derived(F, site.dest)
            if not any(t.ops and d.get(t.ops[0]) == "" for t in rets):
                continue
            touched = False
            for b in F.rpo:
                for i in F.f.blocks[b].instrs:
                    if i is site:
                        continue
                    if i.op == "store" and (i.ops[0] in d or i.ops[1] in d):
                        touched = True
                    elif i.op == "call" and not dbg(callee(i)) and any(o in d and self.callwrites(callee(i), n, i) for n, o in enumerate(i.ops)):
                        touched = True
            if not touched:
                out = True
        self.depth -= 1
        self.memo[key] = out
        return out


def natural_loops(F):
    """header -> blocks of the loop"""
    idx = {b: n for n, b in enumerate(F.rpo)}
    dom = {b: None for b in F.rpo}
    preds = {}
    for b in F.rpo:
        for s in F.succ(b):
            preds.setdefault(s, []).append(b)
    ent = F.rpo[0]
    dom = {b: set(F.rpo) for b in F.rpo}
    dom[ent] = {ent}
    ch = True
    while ch:
        ch = False
        for b in F.rpo[1:]:
            ps = [dom[q] for q in preds.get(b, ()) if q in idx]
            new = set.intersection(*ps) | {b} if ps else {b}
            if new != dom[b]:
                dom[b] = new
                ch = True
    loops = {}
    for b in F.rpo:
        for s in F.succ(b):
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                todo = [b]
                while todo:
                    x = todo.pop()
                    if x in body:
                        continue
                    body.add(x)
                    todo += preds.get(x, [])
    return loops
