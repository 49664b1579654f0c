"""C08: constructors set every field; nothing is read before it is written."""
import json, os
from ..core import Result, Anchor, ROOT
from ..paths import *
from .. import init as ini
from ..init import Init, Reads, ALL, callee, dbg

SPEC = os.path.join(ROOT, "spec", "init.json")
INV = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}


def struct_of(prog, t):
    t = str(t).replace("const ", "").replace("struct ", "").strip()
    return prog.fields.get("struct." + t)


def outparams(prog, I, name):
    """objects handed out through a pointer argument: {argument: (struct, fields certainly set)}"""
    f = prog.functions[name]
    out = {}
    F = I.fn(name)
    if F is None:
        return out
    for k, t in enumerate(f.ptypes):
        if t is None or t.kind != "ptr" or t.to is None or t.to.kind != "ptr":
            continue
        fs = struct_of(prog, t.to.to)
        if not fs:
            continue
        p = f.params[k][0]
        p = p if p.startswith("%") else "%" + p
        for site, st0 in I.sites(F):
            stores = [i for i, n in F.users.get(site.dest, ()) if i.op == "store" and n == 0 and i.ops[1] == p]
            if not stores:
                continue
            # writes made through *arg count as writes to the object
            loads = [i.dest for i, n in F.users.get(p, ()) if i.op == "load"]
            r = None
            for t2, st in I.flow(F, site.dest, site, st0, aliases=loads):
                if st is not None and (st == ALL or "kept" in st):
                    r = st if r is None else ini.meet(r, st)
            if r is not None:
                out[k] = (str(t.to.to), r if k not in out else ini.meet(out[k][1], r))
    return out


def table(prog, I):
    out = {}
    for name, f in sorted(prog.functions.items()):
        if f.rtype is not None and f.rtype.kind == "ptr":
            fs = struct_of(prog, f.rtype.to)
            if fs:
                r = I.result(name)
                if r is not None and r != ALL:
                    out[name + ":ret"] = (str(f.rtype.to), [x[0] for k, x in enumerate(fs) if k in r])
                elif r == ALL:
                    out[name + ":ret"] = (str(f.rtype.to), [x[0] for x in fs])
        for k, (s, r) in outparams(prog, I, name).items():
            fs = struct_of(prog, s)
            out[f"{name}:{k}"] = (s, [x[0] for n, x in enumerate(fs) if r == ALL or n in r])
    return out


class UExplorer(Explorer):
    """follows values that were never set"""

    def val(self, x, env):
        if x in ("undef", "poison"):
            return ("u", "")
        return Explorer.val(self, x, env)

    def edge_phi(self, phis, env):
        for d, src in phis.items():
            if src in ("undef", "poison"):
                env[d] = ("u", d)

    def ckey(self, i):
        a, b = str(self.expr(i.ops[0])), str(self.expr(i.ops[1]))
        return (i.extra, a, b) if "*" not in a and "*" not in b else None

    def step(self, i, env):
        if i.op == "icmp":
            k = self.ckey(i)
            if k is not None:
                v = env.get(("?",) + k)
                if v is None:
                    v2 = env.get(("?", INV[k[0]]) + k[1:])
                    v = None if v2 is None else ("c", 1 - v2[1])
                if v is not None:
                    return v
        v = Explorer.step(self, i, env)
        return v

    def learn(self, c, truth, env):
        out = Explorer.learn(self, c, truth, env)
        i = self.dfn.get(c)
        if i is not None and i.op == "icmp":
            k = self.ckey(i)
            if k is not None:
                out[("?",) + k] = ("c", int(truth))
        return out


def atoms(F, x, seen):
    """what a condition depends on: parameters, memory cells, call results"""
    if x in seen or not isinstance(x, str) or not x.startswith("%"):
        return set()
    seen.add(x)
    i = F.dfn.get(x)
    if i is None:
        return {x}
    if i.op == "load":
        return {"*" + address(F, i.ops[0])}
    if i.op == "call":
        return {x} | {y for o in i.ops for y in atoms(F, o, seen)}
    out = set() if i.op != "phi" else {x}
    for o in i.ops or ():
        out |= atoms(F, o, seen)
    return out


def address(F, x, depth=0):
    i = F.dfn.get(x)
    if i is None or depth > 6:
        return x
    if i.op == "gep":
        return address(F, i.ops[0], depth + 1) + "".join("." + o for o in i.ops[1:])
    if i.op == "load":
        return "*" + address(F, i.ops[0], depth + 1)
    return x


def reachable(F, start, back=False):
    if not hasattr(F, "rev"):
        F.rev = {}
        for b in F.rpo:
            for q in F.succ(b):
                F.rev.setdefault(q, []).append(b)
    seen, todo = set(), [start]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        todo += F.rev.get(b, []) if back else F.succ(b)
    return seen


def related(F, phi, use):
    """the conditions under which the value is unset and those under which it is used speak about the same things"""
    if phi == "":
        return False
    src = F.dfn[phi].block
    up = reachable(F, src, back=True) - {src}
    down = reachable(F, src) & reachable(F, use.block, back=True) - {use.block}

    def conds(blocks):
        out = set()
        for b in blocks:
            t = F.f.blocks[b].term
            if t.op in ("br", "switch") and t.ops and len(F.succ(b)) > 1:
                out |= atoms(F, t.ops[0], set())
        return out
    return bool(conds(up) & conds(down))


class UClient(Client):
    def __init__(self, F):
        self.hits = {}
        self.F = F

    def edge(self, ex, a, b, phis, env, state):
        ex.edge_phi(phis, env)
        return state

    def look(self, ex, i, env, what):
        for o in i.ops or ():
            if isinstance(o, str):
                v = ex.val(o, env)
                if v is not None and v[0] == "u" and not related(self.F, v[1], i):
                    self.hits.setdefault((i.line, what), i)

    def use(self, ex, i, env, state, trail):
        if i.op in ("cast", "phi", "freeze"):
            return
        if i.op == "select":
            return
        self.look(ex, i, env, "is used")

    def call(self, ex, i, c, env, state, trail):
        if c in NORETURN:
            return None
        self.look(ex, i, env, f"is handed to {c}")
        return [(None, state)]

    def store(self, ex, i, env, state, trail):
        self.look(ex, i, env, "is stored")

    def ret(self, ex, t, v, env, state, trail):
        if v is not None and v[0] == "u" and not related(self.F, v[1], t):
            self.hits.setdefault((t.line, "is returned"), t)


def run(ctx):
    res = Result()
    res.rule = ("definite-initialisation dataflow over LLVM IR: (1) every constructor, copy and loader sets, on every path that hands out the object, the fields "
                "recorded for it in spec/init.json (writes by callees counted); (2) memory from malloc and local arrays or structures are never read "
                "before anything was written to them; (3) no value of a variable that was not set reaches an operation, a call, a store or a return")
    res.assumptions = ["an object whose address the analysis loses track of counts as initialised", "an array counts as initialised once an element was written"]
    prog = ctx.prog
    I = Init(prog)
    with open(SPEC) as fh:
        spec = json.load(fh)
    now = table(prog, I)
    for key, (s, fields) in sorted(spec.items()):
        fn, slot = key.split(":")
        if fn not in prog.functions:
            continue
        fs = struct_of(prog, s)
        if fs is None:
            continue
        have = {x[0] for x in fs}
        if key not in now:
            res.skip(key, "the object handed out is no longer traced to an allocation")
            continue
        unset = [f for f in fields if f in have and f not in now[key][1]]
        for f in unset:
            res.bad(f"{key}.{f}", f"{fn} hands out a {s} whose field {f} is not set on some path", prog.functions[fn].where())
        if not unset:
            res.ok(f"{key} sets {len(fields)} fields of {s}")
    R = Reads(I)
    nsite = 0
    for name in sorted(prog.functions):
        F = I.fn(name)
        if F is None:
            continue
        sites = list(R.raw_sites(F))
        for b in F.rpo:
            sites += [i for i in F.f.blocks[b].instrs if i.op == "alloca"]
        bad = False
        for s in sites:
            nsite += 1
            for i, what in R.firstread(F, s.dest, s):
                bad = True
                kind = "a local variable" if s.op == "alloca" else f"memory allocated in line {s.line}"
                res.bad(f"{name}:unset:{ordinal(F, s)}", f"{name}: {kind} {what} before anything was written to it", F.f.where(i.line))
                break
        if not bad and sites:
            res.ok(f"{name}: {len(sites)} raw allocations and local arrays written before they are read")
        und = [i for b in F.f.blocks.values() for i in b.instrs if any(o in ("undef", "poison") for o in (i.ops or ()))]
        if und:
            ex, cl = UExplorer(prog, F.f), UClient(F)
            try:
                ex.run(F.rpo[0], 0, {}, 0, cl)
            except TooMany:
                res.skip(f"{name}:values", "too many paths")
                continue
            for (line, what), i in sorted(cl.hits.items(), key=lambda x: x[0][0] or 0):
                res.bad(f"{name}:value", f"{name}: a value that was never set {what}", F.f.where(line))
                break
            else:
                res.ok(f"{name}: unset values are not used")
        else:
            res.ok(f"{name}: every variable is set before it is used")
    res.stats["allocation_sites"] = nsite
    res.stats["reads_checked"] = R.nreads
    res.minimum = 900
    return res


def ordinal(F, s):
    k = 0
    for b in F.rpo:
        for i in F.f.blocks[b].instrs:
            if i.op in ("alloca", "call") and i.dest:
                if i is s:
                    return k
                k += 1
    return k
