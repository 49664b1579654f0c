"""Path-sensitive exploration of one function's control-flow graph over a small abstract domain:
known integers, null and non-null pointers (tagged by where they came from), and "fewer than
asked for" counts.  Everything else is unknown, and a branch on it is taken both ways.  States that
repeat are not explored again, so loops terminate."""
import re

NORETURN = {"exit", "abort", "__assert_fail", "_exit", "longjmp", "__stack_chk_fail"}
NULLP = ("p0",)
LIMIT = 60000


class TooMany(Exception):
    pass


def isint(x):
    return re.fullmatch(r"-?\d+", x) is not None


class Explorer:
    def __init__(self, prog, fn):
        self.prog, self.fn = prog, fn
        self.allocas = {i.dest for b in fn.blocks.values() for i in b.instrs if i.op == "alloca"}
        self.exprs = {}
        self.steps = 0
        self.dfn = {i.dest: i for b in fn.blocks.values() for i in b.instrs if i.dest}

    # expressions, for comparing a count with the count asked for
    def expr(self, x, depth=0):
        if x in self.exprs:
            return self.exprs[x]
        r = x
        i = self.dfn.get(x)
        if i is not None and depth < 8:
            if i.op == "load":
                r = "*" + str(self.expr(i.ops[0], depth + 1))
            elif i.op == "cast":
                r = self.expr(i.ops[0], depth + 1)
            elif i.op == "bin" and i.extra in ("add", "mul"):
                a, b = sorted([str(self.expr(o, depth + 1)) for o in i.ops])
                r = f"({a} {i.extra} {b})"
            elif i.op == "bin":
                r = f"({self.expr(i.ops[0], depth + 1)} {i.extra} {self.expr(i.ops[1], depth + 1)})"
            elif i.op == "gep":
                r = "gep(" + ",".join(str(self.expr(o, depth + 1)) for o in i.ops) + f";{i.type})"
        self.exprs[x] = r
        return r

    def val(self, x, env):
        if x in env:
            return env[x]
        if x in ("null",):
            return NULLP
        if x in ("true", "false"):
            return ("c", 1 if x == "true" else 0)
        if isint(x):
            return ("c", int(x))
        if x.startswith("@") or x in self.allocas:
            return ("pn", x)
        return None

    def cmp(self, i, env):
        p = i.extra
        a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
        for x, y, o, q in ((a, b, i.ops[1], p), (b, a, i.ops[0], SWAP.get(p, p))):
            if x is not None and x[0] == "short":
                if self.expr(o) == x[1] or (x[1].startswith("=") and y is not None and y == ("c", int(x[1][1:]))):
                    return {"eq": 0, "ne": 1, "ult": 1, "ule": 1, "ugt": 0, "uge": 0, "slt": 1, "sle": 1, "sgt": 0, "sge": 0}.get(q)
                return None
        if a is None or b is None:
            if i.ops[0] == i.ops[1]:
                return {"eq": 1, "ne": 0}.get(p)
            return None
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            w = 1 << 64
            ux, uy = x % w, y % w
            return int({"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y,
                        "ult": ux < uy, "ule": ux <= uy, "ugt": ux > uy, "uge": ux >= uy}[p])
        ka, kb = a[0], b[0]
        if p in ("eq", "ne") and {ka, kb} <= {"p0", "pn"}:
            if ka == kb == "p0":
                return int(p == "eq")
            if ka != kb:
                return int(p == "ne")
            if a == b:
                return int(p == "eq")
        return None

    def step(self, i, env):
        """abstract value of a plain instruction"""
        op = i.op
        if op == "icmp":
            r = self.cmp(i, env)
            return None if r is None else ("c", r)
        if op == "cast":
            v = self.val(i.ops[0], env)
            return v
        if op == "freeze":
            return self.val(i.ops[0], env)
        if op == "select":
            c = self.val(i.ops[0], env)
            if c is not None and c[0] == "c":
                return self.val(i.ops[1] if c[1] else i.ops[2], env)
            a, b = self.val(i.ops[1], env), self.val(i.ops[2], env)
            return a if a == b else None
        if op == "bin" and i.type == "i1":
            a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
            ca = a[1] & 1 if a is not None and a[0] == "c" else None
            cb = b[1] & 1 if b is not None and b[0] == "c" else None
            if i.extra == "and":
                if ca == 0 or cb == 0:
                    return ("c", 0)
                return ("c", 1) if ca == 1 and cb == 1 else None
            if i.extra == "or":
                if ca == 1 or cb == 1:
                    return ("c", 1)
                return ("c", 0) if ca == 0 and cb == 0 else None
            if i.extra == "xor" and ca is not None and cb is not None:
                return ("c", ca ^ cb)
            return None
        if op == "gep":
            v = self.val(i.ops[0], env)
            if v is not None and v[0] == "pn":
                return ("pn", v[1], "off") if len(v) == 2 and any(o != "0" for o in i.ops[1:]) else v
            return None
        if op == "load":
            return env.get("*" + self.cell(i.ops[0]))
        return None

    def cell(self, p):
        return p

    def run(self, block, index, env, state, client):
        """explore from an instruction on; client callbacks: call, store, ret, dead"""
        todo = [(block, index, env, state, ())]
        seen = set()
        while todo:
            blk, idx, env, state, trail = todo.pop()
            b = self.fn.blocks[blk]
            env = dict(env)
            stop = False
            for n in range(idx, len(b.instrs)):
                i = b.instrs[n]
                if i.op == "phi":
                    continue
                if i is b.term:
                    break
                if i.op == "call":
                    c = i.extra[1:] if isinstance(i.extra, str) and i.extra.startswith("@") else None
                    if c and (c.startswith("llvm.dbg") or c.startswith("llvm.lifetime")):
                        continue
                    alts = client.call(self, i, c, env, state, trail)
                    if alts is None:
                        stop = True
                        break
                    if len(alts) > 1:
                        for v, st in alts[1:]:
                            e2 = dict(env)
                            self.bind(i, v, e2)
                            self.clobber(i, c, e2)
                            todo.append((blk, n + 1, e2, st, trail + (i.line,)))
                    v, state = alts[0]
                    self.bind(i, v, env)
                    self.clobber(i, c, env)
                    continue
                if i.op == "store":
                    r = client.store(self, i, env, state, trail)
                    if r is not None:
                        state = r
                    k = "*" + self.cell(i.ops[1])
                    v = self.val(i.ops[0], env)
                    if i.ops[1] in self.allocas and v is not None:
                        env[k] = v
                    else:
                        env.pop(k, None)
                    continue
                r = self.use(i, env, state, client, trail)
                if r is not None:
                    state = r
                if i.dest:
                    self.bind(i, self.step(i, env), env)
            if stop:
                continue
            t = b.term
            if t.op == "ret":
                client.ret(self, t, self.val(t.ops[0], env) if t.ops else None, env, state, trail)
                continue
            if t.op == "unreachable":
                continue
            for s, extra in self.targets(t, env):
                e2 = dict(env)
                if extra:
                    e2.update(extra)
                ph = {}
                for i in self.fn.blocks[s].instrs:
                    if i.op != "phi":
                        break
                    src = i.ops[i.extra.index(blk)]
                    v = self.val(src, e2)
                    ph[i.dest] = v
                for k, v in ph.items():
                    if v is None:
                        e2.pop(k, None)
                    else:
                        e2[k] = v
                st2 = client.edge(self, blk, s, {i.dest: i.ops[i.extra.index(blk)] for i in self.fn.blocks[s].instrs if i.op == "phi"}, e2, state)
                if st2 == "stop":
                    continue
                key = (s, frozenset(self.prune(e2, s).items()), st2)
                if key in seen:
                    continue
                seen.add(key)
                self.steps += 1
                if self.steps > LIMIT:
                    raise TooMany(self.fn.name)
                todo.append((s, 0, e2, st2, trail + (t.line,) if len(trail) < 40 else trail))

    def use(self, i, env, state, client, trail):
        f = getattr(client, "use", None)
        return f(self, i, env, state, trail) if f is not None else None

    def prune(self, env, s):
        return env

    def bind(self, i, v, env):
        if i.dest:
            if v is None:
                env.pop(i.dest, None)
            else:
                env[i.dest] = v

    def clobber(self, i, c, env):
        for o in i.ops:
            if o in self.allocas:
                if c in ("free", "printf", "fprintf"):
                    continue
                env.pop("*" + o, None)

    def targets(self, t, env):
        if t.op == "br":
            if not t.ops:
                return [(t.extra[0], None)]
            c = self.val(t.ops[0], env)
            if c is not None and c[0] == "c":
                return [(t.extra[0 if c[1] & 1 else 1], None)]
            return [(t.extra[0], self.learn(t.ops[0], True, env)), (t.extra[1], self.learn(t.ops[0], False, env))]
        if t.op == "switch":
            v = self.val(t.ops[0], env)
            labels, vals = t.extra
            if v is not None and v[0] == "c":
                for l, x in zip(labels[1:], vals):
                    if x == v[1]:
                        return [(l, None)]
                return [(labels[0], None)]
            return [(l, None) for l in dict.fromkeys(labels)]
        return []

    def learn(self, c, truth, env):
        """what taking a branch tells about pointers"""
        i = self.dfn.get(c)
        out = {c: ("c", int(truth))}
        if i is None:
            return out
        if i.op == "icmp" and i.extra in ("eq", "ne"):
            a, b = i.ops
            for x, y in ((a, b), (b, a)):
                if y == "null" and x not in env:
                    out[x] = NULLP if truth == (i.extra == "eq") else ("pn", x)
                    d = self.dfn.get(x)
                    if d is not None and d.op == "load" and d.ops[0] in self.allocas and ("*" + d.ops[0]) not in env:
                        out["*" + d.ops[0]] = out[x]
        elif i.op == "bin" and i.type == "i1" and ((i.extra == "and" and truth) or (i.extra == "or" and not truth)):
            for o in i.ops:
                out.update(self.learn(o, truth, env))
        elif i.op == "bin" and i.type == "i1" and i.extra == "xor" and "true" in i.ops:
            o = i.ops[0] if i.ops[1] == "true" else i.ops[1]
            out.update(self.learn(o, not truth, env))
        return out


SWAP = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}


class Client:
    def call(self, ex, i, c, env, state, trail):
        return None if c in NORETURN else [(None, state)]

    def store(self, ex, i, env, state, trail):
        return None

    def edge(self, ex, a, b, phis, env, state):
        return state

    def ret(self, ex, t, v, env, state, trail):
        pass
