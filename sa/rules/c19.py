"""C19: ranks recorded for a function train match its cores."""
import os, zlib
from ..core import Result, Anchor
from ..spec import *
from ..contract import baseline_functions


class Train:
    """values of the ranks and core shapes of the trains a routine is given"""

    def __init__(self, prog, D, intargs=(), S=None, shape=None, env=None):
        self.D = D
        self.intargs = intargs
        self.S, self.shp, self.env = S, shape, env
        self.local = {}
        self.copied = copies(S.eng, prog, S) if S is not None else {}
        self.prog = prog
        f = lambda s, x: [n for n, _ in prog.fields["struct." + s]].index(x)
        self.FT = ("F", "struct.FunctionTrain", f("FunctionTrain", "ranks"))
        self.CO = ("F", "struct.FunctionTrain", f("FunctionTrain", "cores"))
        self.NR = ("F", "struct.Qmarray", f("Qmarray", "nrows"))
        self.NC = ("F", "struct.Qmarray", f("Qmarray", "ncols"))

    def rank(self, X, i):
        if i == 0 or i == self.D:
            return 1
        if not 0 < i < self.D:
            return None
        return 2 + zlib.crc32(f"{show(X)}/{i}".encode()) % 5

    def elem(self, loc, step):
        """loc = X.field[i] with that field -> (X, i)"""
        if loc.kind != "ptr" or len(loc.a[1]) > 1:
            return None
        i = ZERO
        if loc.a[1]:
            if loc.a[1][-1][0] != "I":
                return None
            i = loc.a[1][-1][1]
        b = loc.a[0]
        if b in self.copied and self.copied[b][0] == ("ranks" if step == self.FT else "cores"):
            i = cint(i)
            return None if i is None else (self.copied[b][1], i)
        if b.kind != "ld" or b.a[0].kind != "ptr" or not b.a[0].a[1]:
            return None
        t = b.a[0].a[1][-1]
        if t != step and not (step == self.FT and t[0] == "F" and [n for n, _ in self.prog.fields.get(t[1], ((None, 0),) * 99)][t[2]] == "ranks"):
            return None
        i = cint(i)
        return None if i is None else (N("ptr", b.a[0].a[0], b.a[0].a[1][:-1]), i)

    def __call__(self, x):
        loc = x.a[0]
        e = self.elem(loc, self.FT)
        if e is None and loc.kind == "ptr" and loc.a[0].kind == "arg" and loc.a[0].a[0] in self.intargs and len(loc.a[1]) < 2 and (not loc.a[1] or loc.a[1][0][0] == "I"):
            i = cint(loc.a[1][0][1]) if loc.a[1] else 0
            e = None if i is None else (loc.a[0], i)
        if e is not None:
            r = self.rank(*e)
            return None if r is None else C(r)
        if loc.kind == "ptr" and loc.a[1] and loc.a[1][-1][0] == "F":
            st = loc.a[1][-1]
            names = [n for n, _ in self.prog.fields.get(st[1], ())]
            if names and names[st[2]] in ("dim", "mindim") and st[1] != "struct.CrossIndex":
                return C(self.D)
            if st in (self.NR, self.NC):
                b = loc.a[0]
                if b.kind == "ld":
                    e = self.elem(b.a[0], self.CO)
                    if e is not None:
                        r = self.rank(e[0], e[1] + (st == self.NC))
                        return None if r is None else C(r)
                    r = self.stored(b.a[0], st == self.NC)
                    return None if r is None else C(r)
        return None

    def stored(self, loc, col):
        """shape of the matrix kept in element i of a local array"""
        i = 0
        if loc.a[1]:
            if len(loc.a[1]) > 1 or loc.a[1][0][0] != "I":
                return None
            i = cint(loc.a[1][0][1])
        if loc.a[0].kind != "new" or i is None or self.env is None:
            return None
        key = loc.a[0]
        if key not in self.local:
            self.local[key] = None
            recs, why = self.S.records(PTR(key))
            recs = [r for r in recs if r[1] is not NULL]
            if not why and recs:
                try:
                    got = {}
                    for r in recs:
                        for k, v in unroll(self.S, [r], self.env).items():
                            if k in got and got[k][0] != v[0]:
                                raise Unresolved("")
                            got[k] = v
                    self.local[key] = got
                except Unresolved:
                    pass
        got = self.local[key]
        if not got or i not in got:
            return None
        s = self.shp(self.S, got[i], self, self.env)
        return None if s is None else s[col]


def retshape(eng, prog, callee, memo):
    """shape of the matrix of functions a routine returns, over its arguments"""
    if callee in memo:
        return memo[callee]
    memo[callee] = None
    an = eng.an.get(callee) if isinstance(callee, str) else None
    if an is not None and an.ret is not None and an.ret.kind == "ptr":
        out = []
        for f in ("nrows", "ncols"):
            v = exit_load(an, fieldptr(prog, an.ret, "struct.Qmarray", f), "i64")
            out.append(an.fa.closed(v))
        memo[callee] = tuple(out)
    return memo[callee]


def fresh(v):
    """results of calls the value is made of"""
    return {x for x in subnodes(v) if x.kind == "x"} if isinstance(v, Node) else set()


OUT = {"qmarray_truncated_svd": 1}


def arrays(eng, prog, S, call):
    """the ranks and cores arrays of the train a call of the allocator returns"""
    an = eng.an["function_train_alloc"]
    out = {}
    for f in ("ranks", "cores"):
        b = an.fa.closed(exit_load(an, fieldptr(prog, an.ret, "struct.FunctionTrain", f), "ptr"))
        r, r0 = call.ret, an.ret
        if b.kind == "ptr" and b.a[0].kind == "new" and r.kind == "ptr" and r.a[0].kind == "new" and r0.a[0].kind == "new":
            n = len(r.a[0].a[0]) - len(r0.a[0].a[0])
            if n > 0 and r.a[0].a[0][n:] == r0.a[0].a[0]:
                out[f] = PTR(N("new", r.a[0].a[0][:n] + b.a[0].a[0]), b.a[1])
                continue
        b = S.an.fa.closed(exit_load(S.an, fieldptr(prog, call.ret, "struct.FunctionTrain", f), "ptr"))
        if b.kind != "ptr" or unclear(b):
            raise Unresolved(f"{f} array not resolved")
        out[f] = b
    return out


def copies(eng, prog, S):
    """{core or rank array of a local copy of a train: (field, the train copied)}"""
    out = {}
    an = eng.an.get("function_train_copy")
    if an is None or an.ret is None:
        return out
    obj = [b for b in ptr_alts(an.ret) if b.kind == "new"]
    if len(obj) != 1:
        return out
    for f in S.effs:
        if f.kind != "call" or f.callee != "function_train_copy" or f.loops:
            continue
        r = [b for b in ptr_alts(f.ret) if b.kind == "new"] if isinstance(f.ret, Node) and f.ret.kind == "ptr" else []
        if len(r) != 1:
            continue
        n = len(r[0].a[0]) - len(obj[0].a[0])
        if n < 1 or r[0].a[0][n:] != obj[0].a[0]:
            continue
        for fld in ("ranks", "cores"):
            b = an.fa.closed(exit_load(an, fieldptr(prog, PTR(obj[0]), "struct.FunctionTrain", fld), "ptr"))
            if b.kind == "ptr" and b.a[0].kind == "new" and not b.a[1]:
                out[N("new", r[0].a[0][:n] + b.a[0].a[0])] = (fld, f.args[0])
    return out


class Builder:
    def __init__(self, ctx, eng, res, name, memo):
        self.ctx, self.eng, self.res, self.name, self.memo = ctx, eng, res, name, memo
        self.prog = ctx.prog

    def shape(self, S, rec, tr, m):
        """(nrows, ncols) of a stored core"""
        return self.shapeof(S, rec[4], rec[5])

    def shapeof(self, S, v, mm, depth=0):
        if depth > 4:
            return None
        f = S.call_of(v)
        if f is None:
            v = S.pick(v, mm)
            f = S.call_of(v)
        if f is not None and f.callee == "qmarray_alloc":
            return [cint(inst(f.args[0], mm)), cint(inst(f.args[1], mm))]
        sh = retshape(self.eng, self.prog, f.callee, self.memo) if f is not None else None
        if sh is None:
            if v.kind != "ptr":
                return None
            return [cint(inst(A(N("ld", fieldptr(self.prog, v, "struct.Qmarray", x), 0)), mm)) for x in ("nrows", "ncols")]
        args, known = [], {}
        for a in f.args:
            i = inst(a, mm)
            args.append(i)
            if a.kind == "ptr" and S.call_of(a) is not None:
                s2 = self.shapeof(S, a, mm, depth + 1)
                if s2:
                    for x, y in zip(("nrows", "ncols"), s2):
                        if y is not None:
                            known[N("ld", fieldptr(self.prog, i, "struct.Qmarray", x), 0)] = C(y)
        g = lambda n: args[n.a[0]] if n.kind == "arg" and n.a[0] < len(args) else None
        return [cint(inst(subst(x, g, {}), ext(mm, known))) for x in sh]

    def pairs(self, S, call):
        """ranks found by a decomposition are recorded next to the core it produced"""
        prog = self.prog
        base = arrays(self.eng, prog, S, call)
        rb, cb = strip(base["ranks"]), strip(base["cores"])
        rk, cs = [], []
        for f in S.effs:
            if f.kind == "store":
                b, idx, _ = strip_last_index(f.loc)
                if strip(b) is rb:
                    if fresh(f.val):
                        rk.append((idx, f.val, f))
                elif strip(b) is cb:
                    c = S.call_of(f.val)
                    sh = retshape(self.eng, prog, c.callee, self.memo) if c is not None else None
                    if sh is None:
                        continue
                    g = lambda n: c.args[n.a[0]] if n.kind == "arg" and n.a[0] < len(c.args) else None
                    r, k = (strip(S.an.fa.closed(subst(x, g, {}))) for x in sh)
                    cs.append((idx, r, k, f))
            elif f.kind == "call" and f.callee in OUT and isinstance(f.ret, Node):
                b, idx, _ = strip_last_index(f.args[OUT[f.callee]])
                if strip(b) is cb:
                    cs.append((idx, None, strip(f.ret), f))
        n = 0
        for idx, v, f in rk:
            v = strip(v)
            fv = fresh(v)
            for ci, r, k, g in cs:
                if [x[0] for x in g.loops] != [x[0] for x in f.loops]:
                    continue
                fr, fk = fresh(r), fresh(k)
                side = None
                if k is v or g.kind == "call" and fk & fv:
                    side = 1
                elif r is v and not (fk & fv):
                    side = 0
                if side is None or (r is k):
                    continue
                d = sub(topoly(idx), add(topoly(ci), C(side)))
                d = const_of(S.an.fa.closed(d))
                if d is None:
                    continue
                if d != 0:
                    raise Mismatch(f"the number of {'columns' if side else 'rows'} of core {show(ci, S.an.names)} is recorded as rank {show(idx, S.an.names)}", f.line)
                n += 1
        return n

    def go(self, S, call):
        """one train created by the routine"""
        prog, res = self.prog, self.res
        base = arrays(self.eng, prog, S, call)
        recs = {}
        for f, b in base.items():
            recs[f], why = S.records(b)
            if why and f == "ranks":
                raise Unresolved("; ".join(why))
            if why:
                recs["partial"] = True
        n = 0
        why = set()
        argat = [x for mono, _ in call.args[0].a for x in mono if x.kind == "arg"] if call.args[0].kind == "poly" else []
        for D in (1, 2, 3, 4):
            fn = prog.functions[self.name]
            ints = {i for i, t in enumerate(fn.ptypes) if str(t).replace("const ", "") in ("size_t*", "unsigned long*")}
            tr = Train(prog, D, ints, S, self.shape)
            m = Model({a: C(D) for a in argat}, [tr])
            tr.env = m
            for g in call.guards:
                for h in (g.a if g.kind == "and" else (g,)):
                    if contains(h, lambda x: x.kind in ("x", "phi", "rphi")):
                        m.d[h] = TRUE
            nd = cint(inst(call.args[0], m))
            if nd is None:
                raise Unresolved("dimension not resolved")
            if any(inst(f, m) is FALSE for f in S.facts()) or any(inst(g, m) is FALSE for g in call.guards):
                continue
            if nd < 1:
                continue
            tr.D = D
            ranks = unroll(S, recs["ranks"], m)
            try:
                cores = unroll(S, recs["cores"], m)
            except Unresolved as e:
                cores = {}
                why.add(str(e))
            part = recs.get("partial") or bool(why)
            if not cores and not part:
                # the caller of an allocator fills it in
                raise Unresolved("cores are not set here")
            shp = {}
            for k in range(nd):
                if k in cores:
                    s = self.shape(S, cores[k], tr, m)
                    if s is None or None in s:
                        why.add(f"line {cores[k][1]}: shape of core {k}: {showval(cores[k][0], S.an.names)[:60]}")
                    else:
                        shp[k] = s
                elif not part and not why:
                    raise Mismatch(f"core {k} of a train of dimension {nd} is never set")
            rk = {}
            for k in range(nd + 1):
                if k in ranks:
                    v = ranks[k]
                    c = cint(v[0][1]) if v[0][0] == "val" else cint(inst(v[4], v[5]))
                    if c is None:
                        why.add(f"line {v[1]}: rank {k}: {showval(v[0], S.an.names)[:60]}")
                    else:
                        rk[k] = c
                else:
                    rk[k] = 0
            for k, (r, c) in shp.items():
                for i, got, w in ((k, r, "rows"), (k + 1, c, "columns")):
                    if i in rk and rk[i] != got:
                        line = ranks[i][1] if i in ranks else cores[k][1]
                        raise Mismatch(f"rank {i} is recorded as {rk[i]} {'(never set) ' if i not in ranks else ''}but core {k} has {got} {w}, for dimension {nd}", line)
                if k + 1 in shp and shp[k + 1][0] != c:
                    raise Mismatch(f"core {k} has {c} columns but core {k + 1} has {shp[k + 1][0]} rows, for dimension {nd}", cores[k][1])
                if k + 1 < nd + 1 and k in rk and k + 1 in rk:
                    n += 1
            if any(k not in range(nd) for k in cores):
                raise Mismatch(f"writes core {max(cores)} of a train of dimension {nd}")
        return n, why


DIM = dict(vals=(2, 3, 4, 1))
ENTS = [
 K("function_train_sum", "a b", "a.dim b.dim", vals=(2, 3, 4), pre=["a.dim-b.dim"], maps=[
     ("ret.ranks", lambda v: dict([(0, ["val", "a.ranks[0]"]), (v("a.dim"), ["val", "a.ranks[a.dim]"])] + [(i, ["val", f"a.ranks[{i}]+b.ranks[{i}]"]) for i in range(1, v("a.dim"))])),
     ("ret.cores", lambda v: dict([(0, ["qmarray_stackh", "a.cores[0]", "b.cores[0]"]), (v("a.dim") - 1, ["qmarray_stackv", "a.cores[a.dim-1]", "b.cores[a.dim-1]"])]
                                  + [(i, ["qmarray_blockdiag", f"a.cores[{i}]", f"b.cores[{i}]"]) for i in range(1, v("a.dim") - 1)]))]),
 K("function_train_product", "a b", "a.dim b.dim", pre=["a.dim-b.dim"], maps=[
     ("ret.ranks", [("i", ["val", "a.ranks[i]*b.ranks[i]"], "i<a.dim+1")]),
     ("ret.cores", [("i", ["qmarray_kron", "a.cores[i]", "b.cores[i]"], "i<a.dim")])], **DIM),
 K("function_train_copy", "a", "a.dim", maps=[
     ("ret.ranks", [("i", ["val", "a.ranks[i]"], "i<a.dim+1")]),
     ("ret.cores", [("i", ["copy", "a.cores[i]"], "i<a.dim")])], **DIM),
 K("function_train_operate", "a op", "a.dim", maps=[
     ("ret.ranks", [("i", ["val", "a.ranks[i]"], "i<a.dim+1")]),
     ("ret.cores", [("i", ["qmarray_operate_elements", "a.cores[i]", "op[i]"], "i<a.dim")])], **DIM),
 K("function_train_create_nodal", "a N x", "a.dim", maps=[
     ("ret.ranks", [("i", ["val", "a.ranks[i]"], "i<a.dim+1")]),
     ("ret.cores", [("i", ["qmarray_create_nodal", "a.cores[i]", "N[i]", "x[i]"], "i<a.dim")])], **DIM),
 K("function_train_orthor", "a o", "a.dim", maps=[("ret.ranks", [("i", ["val", "a.ranks[i]"], "i<a.dim+1")])], vals=(2, 3, 4)),
 K("function_train_get_rank", "a i0", "i0", ret="a.ranks[i0]", **DIM),
 K("function_train_get_core", "a i0", "i0", ret="a.cores[i0]", **DIM),
 K("function_train_get_ranks", "a", "", ret="a.ranks"),
 K("function_train_get_dim", "a", "", ret="a.dim"),
]


def run(ctx):
    res = Result()
    res.rule = ("for every routine that creates a function train, the ranks and the cores it stores are extracted from the compiled code as closed forms of the "
                "loop counters, and at dimensions 1..4, with symbolic ranks of the trains it is given, rank k must equal the rows of core k and rank k+1 its columns; "
                "sums, products, copies and scalings must combine ranks and cores as documented")
    res.assumptions = ["the trains a routine is given are consistent and have outer ranks 1", "trains combined have the same dimension"]
    eng = ctx.full()
    memo = {}
    nb = 0
    for name in sorted(eng.an):
        an = eng.an[name]
        if name == "function_train_alloc" or not any(e.kind == "call" and e.callee == "function_train_alloc" for e in an.effects):
            continue
        S = Summary1(eng, name, noinline=("function_train_alloc", "qmarray_alloc"))
        S.allow_new = True
        B = Builder(ctx, eng, res, name, memo)
        cs = [f for f in S.effs if f.kind == "call" and f.callee == "function_train_alloc"]
        for no, c in enumerate(cs):
            nb += 1
            key = name + (f":{no}" if len(cs) > 1 else "")
            try:
                if c.loops:
                    raise Unresolved("train created in a loop")
                p = B.pairs(S, c)
                if p:
                    res.ok(f"{key}: {p} ranks found by decompositions are recorded beside their cores")
                n, why = B.go(S, c)
                if n:
                    res.ok(f"{key}: {n} cores against {n} pairs of ranks")
                if why:
                    res.skip(key, "; ".join(sorted(why))[:200])
                elif not n:
                    res.skip(key, "no core resolved")
            except Unresolved as e:
                res.skip(key, str(e))
            except Mismatch as e:
                res.bad(key, f"{name}: {e.args[0]}", ctx.where(name, e.args[1] if len(e.args) > 1 else None))
            except (KeyError, ValueError, AttributeError, TypeError, IndexError) as e:
                if os.environ.get("C3_DEBUG"):
                    raise
                res.skip(key, f"not applicable ({type(e).__name__} {e})")
    n = run_all(ctx, eng, res, ENTS)
    if nb < 5:
        raise Anchor(f"only {nb} routines create function trains")
    res.minimum = 6
    return res
