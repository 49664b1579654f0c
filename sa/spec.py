"""Contracts of routines, decided on their dataflow summaries.

A contract says, over the routine's own parameters: which element of which array receives which value
(maps), which operation is applied to which operands how often (calls), what is returned (ret), what
fields hold on return (fields).  Routine and contract are closed forms; they are compared at the small
extents the routine's own assertions admit.  Anything the summary does not resolve is 'undecided'."""
import os, zlib
from .core import Result, Anchor
from .sym import *
from .util import *
from .contract import Expr, strip
from .maps import *

SHAPE = {"Qmarray": ("nrows", "ncols"), "Quasimatrix": ("n",), "mat": ("nrows", "ncols")}
STRIDED = {"generic_function_lin_comb2", "generic_function_lin_comb", "generic_function_sum_prod", "generic_function_inner_sum", "generic_function_inner_weighted_sum"}


class Mismatch(Exception):
    pass


def K(fn, params, sizes="", **kw):
    return dict(fn=fn.split(":")[0], key=fn, params=params, sizes=sizes, **kw)


def field_rule(prog, table):
    """{'Struct.field': value | callable(location text hash)} -> rule for loads"""
    idx = {}
    for k, v in table.items():
        s, f = k.split(".")
        names = [n for n, _ in prog.fields.get("struct." + s, ())]
        if f in names:
            idx[("struct." + s, names.index(f))] = v

    def rule(x):
        loc = x.a[0]
        if loc.kind == "ptr" and loc.a[1] and loc.a[1][-1][0] == "F":
            v = idx.get((loc.a[1][-1][1], loc.a[1][-1][2]))
        elif loc.kind == "ptr" and not loc.a[1]:
            v = None
        else:
            v = None
        if v is None:
            return None
        return C(v(zlib.crc32(show(loc).encode())) if callable(v) else v)
    return rule


def array_rule(**table):
    """values of the elements of integer arrays: expression for the array -> f(index)"""
    def mk(prog, E, m=None):
        ps = [(strip(E.ev(k.replace("__", "."))), f) for k, f in table.items()]

        def rule(x):
            loc = x.a[0]
            if loc.kind != "ptr":
                return None
            for p, f in ps:
                i = None
                if loc is p:
                    i = 0
                elif loc.a[0] is p.a[0] and loc.a[1][:-1] == p.a[1] and loc.a[1][-1][0] == "I":
                    i = cint(loc.a[1][-1][1])
                if i is not None:
                    v = f(i)
                    return C(v) if isinstance(v, int) else v
            return None
        return rule
    return mk


class Run:
    def __init__(self, ctx, eng, res, ent):
        self.ctx, self.eng, self.res, self.ent = ctx, eng, res, ent
        self.prog = ctx.prog
        self.key = ent["key"]
        self.fn = self.prog.functions.get(ent["fn"])

    def go(self):
        if self.fn is None:
            return False
        ent, res, key = self.ent, self.res, self.key
        names = ent["params"].split()
        if len(self.fn.ptypes) != len(names):
            res.skip(key, "signature changed")
            return True
        try:
            self.prepare(names)
            n = self.check()
            if not n:
                raise Unresolved("no admissible extents")
            what = [f"{d} element by element" for d, b in ent.get("maps", ())] + [c[0] for c in ent.get("calls", ())]
            what += [f"returns {ent['ret']}"] if "ret" in ent else []
            what += list(ent.get("fields", {}))
            res.ok(f"{key}: {', '.join(what)}; {n} extent combinations")
        except (KeyError, ValueError, AttributeError, TypeError, IndexError) as e:
            if os.environ.get("C3_DEBUG"):
                raise
            res.skip(key, f"contract does not apply any more ({type(e).__name__} {e})")
        except Unresolved as e:
            res.skip(key, str(e))
        except Mismatch as e:
            res.bad(key, f"{self.fn.name}: {e.args[0]}", self.ctx.where(self.fn, e.args[1] if len(e.args) > 1 else None))
        return True

    def prepare(self, names):
        ent = self.ent
        self.S = S = Summary1(self.eng, self.fn.name, inline=ent.get("inline", ()), noinline=ent.get("noinline", ()))
        self.names = S.an.names
        self.E = E = Expr(self.prog, self.fn, names, eng=self.eng)
        if S.ret is not None and S.ret.kind == "ptr":
            rt = self.fn.rtype
            E.env["ret"] = (S.ret, rt.to if rt.kind == "ptr" else rt)
        self.szs = []
        for s in ent["sizes"].split():
            self.szs.append(strip(atom_of(E.ev(s))))
        self.fix = {}
        for p, v in ent.get("fix", {}).items():
            self.fix[strip(atom_of(E.ev(p)))] = C(v)
        for p in ent.get("null", ()):
            self.fix[peq(E.ev(p), NULL)] = TRUE
        self.alias = {}
        for nm_, callee in ent.get("opq", {}).items():
            at = set()
            for f in S.effs:
                if f.kind in ("call", "icall") and f.callee == callee and isinstance(f.ret, Node):
                    a = atom_of(f.ret)
                    if a is None:
                        raise Unresolved(f"result of {callee} not resolved")
                    at.add(a)
            if len(at) != 1:
                raise Unresolved(f"{callee} called {len(at)} times")
            a = at.pop()
            E.env[nm_] = (A(a), None)
            self.alias[a] = f"{callee}()"
            self.szs.append(a)
        self.rules = []
        if ent.get("model"):
            self.rules.append(field_rule(self.prog, ent["model"]))
        for r in ent.get("rules", ()):
            self.rules.append(r(self.prog, E))
        self.pres = [strip(E.ev(p)) for p in ent.get("pre", ())]
        self.dest = []
        for dest, blocks in ent.get("maps", ()):
            self.dest.append((dest, blocks) + self.base(dest))

    def base(self, dest):
        S, E = self.S, self.E
        if dest.startswith("ret"):
            if S.ret is None or S.ret.kind != "ptr":
                raise Unresolved("result not resolved")
            if dest == "ret":
                b = S.ret
            else:
                st = E.env["ret"][1]
                b = exit_load(S.an, addstep(S.ret, E.fstep(st, dest.split(".")[1])), "ptr")
                b = S.an.fa.closed(b)
        elif dest.startswith("exit:"):
            # array a field of a parameter refers to on return
            a, f = dest[5:].rsplit(".", 1)
            p, t = E.e(__import__("ast").parse(a, mode="eval").body)
            b = S.an.fa.closed(exit_load(S.an, addstep(p, E.fstep(t, f)), "ptr"))
        else:
            b = E.ev(dest)
        if b.kind != "ptr" or unclear(b) and not b.fl & FL_NEW:
            raise Unresolved("destination not resolved")
        if self.fix:
            b = inst(b, self.fix)
        recs, why = S.records(b)
        if why:
            raise Unresolved("; ".join(why))
        return b, recs

    def ivl(self, e, m):
        return cint(inst(self.E.ev(e), m))

    def models(self):
        ent = self.ent
        blocks = [b for _, bs in ent.get("maps", ()) if not callable(bs) for b in bs]
        vals = ent.get("vals", (2, 3) if any(b[1][0] in STRIDED for b in blocks) else (2, 3, 1))
        if ent.get("opq"):
            vals = tuple(sorted(set(vals) | {0}))
        for m in assignments(self.szs, self.S.facts(), self.pres, vals, ent.get("limit", 60) if self.ctx.tier == "quick" else 400):
            m = Model(m, self.rules, self.alias)
            m.d.update(self.fix)
            if any(inst(f, m) is FALSE for f in self.S.facts()):
                continue
            if any(self.ivl(a, m) >= self.ivl(b, m) for a, b in ent.get("lt", ())):
                continue
            if any(self.ivl(a, m) < self.ivl(b, m) for a, b in ent.get("strides", ())):
                continue
            yield m

    def check(self):
        ent, S, E = self.ent, self.S, self.E
        n = 0
        for m in self.models():
            n += 1
            if ent.get("shape"):
                st = E.env["ret"][1]
                for f, sx in zip(SHAPE[st.name], ent["shape"]):
                    got = inst(exit_load(S.an, addstep(S.ret, E.fstep(st, f)), "i64"), m)
                    want = inst(E.ev(sx), m)
                    if cint(got) is None:
                        raise Unresolved(f"{f} of the result: {show(got)[:60]}")
                    if cint(got) != cint(want):
                        raise Mismatch(f"the result records {f} = {show(got)} instead of {show(want)} for {describe(m, self.names)}")
            if ent.get("nvals"):
                extents(S, E, ent["nvals"], m, self.names)
            for d, want in ent.get("fields", {}).items():
                self.field(d, want, m)
            for dest, blocks, b, recs in self.dest:
                compare(expected(E, blocks, m), unroll(S, recs, m), m, self.names, ent.get("partial", False), dest)
            if "ret" in ent:
                self.returned(m)
            for c in ent.get("calls", ()):
                self.calls(c, m)
        return n

    def field(self, d, want, m):
        import ast as _ast
        x = _ast.parse(d, mode="eval").body
        if not isinstance(x, _ast.Attribute):
            raise ValueError(d)
        p, t = self.E.e(x.value)
        ft = self.E.ftype(t, x.attr)
        got = exit_load(self.S.an, addstep(p, self.E.fstep(t, x.attr)), irtype(self.prog, "struct." + t.name, x.attr))
        got = strip(inst(self.S.an.fa.closed(got), m))
        w = strip(inst(self.E.ev(want), m))
        self.same(f"{d} on return", got, w, m)

    def same(self, what, got, w, m):
        if sameval(got, w):
            return
        if unclear(got) or got.kind != w.kind or contains(got, lambda x: x.kind in ("ite", "sum", "new") or x.kind == "op"):
            raise Unresolved(f"{what}: {show(got)[:80]}")
        raise Mismatch(f"{what} is {show(got, self.names)[:120]} instead of {show(w, self.names)[:120]} for {describe(m, self.names)}")

    def returned(self, m):
        if self.S.ret is None:
            raise Unresolved("result not resolved")
        r = self.ent["ret"]
        w = C(r(lambda e: self.ivl(e, m))) if callable(r) else strip(inst(self.E.ev(r), m))
        self.same("the value returned", strip(inst(self.S.pick(self.S.ret, m), m)), w, m)

    def calls(self, c, m):
        callee, args, rng = c[:3]
        S, E = self.S, self.E
        for f in S.effs if len(c) > 3 else ():
            if f.kind == "call" and f.callee in c[3] and f.callee != callee:
                g = inst(And(*f.guards), m) if f.guards else TRUE
                if g is TRUE:
                    raise Mismatch(f"calls {f.callee} instead of {callee} for {describe(m, self.names)}", f.line)
        exp, got, lines = [], [], {}
        loops = []
        for r in rng.split():
            v, n = r.split("<", 1)
            loops.append((E.env[v][0], E.ev(n), True))
        for env in iterations(loops, m, 0):
            mm = ext(m, env)
            exp.append(tuple(inst(E.ev(a), mm) if a is not None else None for a in args))
        n = 0
        for f in S.effs:
            if f.kind == "call" and f.callee == callee:
                n += 1
                for env in iterations(f.loops, m, f.line):
                    mm = ext(m, env)
                    g = inst(And(*f.guards), mm) if f.guards else TRUE
                    if g is FALSE:
                        continue
                    if g is not TRUE:
                        raise Unresolved(f"line {f.line}: condition {show(g)[:80]}")
                    t = tuple(inst(a, mm) if w is not None else None for a, w in zip(f.args, args))
                    if any(unclear(x) for x in t if x is not None):
                        raise Unresolved(f"line {f.line}: arguments not resolved")
                    got.append(t)
                    lines[t] = f.line
        if n == 0:
            raise Unresolved(f"{callee} is not called any more")
        names = self.names
        sx = lambda t: f"{callee}({', '.join(show(x, names) if x is not None else '_' for x in t)})"
        for t in got:
            if t not in exp:
                if any(not isinstance(x, Node) or contains(x, lambda y: y.kind in ("ite", "sum", "op")) for x in t if x is not None):
                    raise Unresolved(f"line {lines[t]}: arguments of {callee} not resolved: {sx(t)[:100]}")
                raise Mismatch(f"calls {sx(t)}, expected {sx(exp[0]) if len(exp) == 1 else 'one call per element, e.g. ' + sx(exp[-1]) if exp else 'none'} for {describe(m, names)}", lines[t])
        for t in exp:
            if got.count(t) != exp.count(t):
                raise Mismatch(f"calls {sx(t)} {got.count(t)} times instead of {exp.count(t)} for {describe(m, names)}")


def expected(E, blocks, m):
    out = {}
    if callable(blocks):
        for i, val in blocks(lambda e: cint(inst(E.ev(e), m))).items():
            vals = [val[0]] + [E.ev(x) for x in val[1:]]
            out[i] = canonval(callvalue(vals[0], vals[1:]) if val[0] in COPYLIKE else vals, m)
        return out
    for idx, val, rng in blocks:
        loops = []
        for r in rng.split():
            v, n = r.split("<", 1)
            loops.append((E.env[v][0], E.ev(n), True))
        vals = [val[0]] + [E.ev(x) for x in val[1:]]
        if val[0] in COPYLIKE or val[0] == "generic_function_daxpby":
            vals = callvalue(vals[0], vals[1:])
        for env in iterations(loops, m, 0):
            mm = ext(m, env)
            i = cint(inst(E.ev(idx), mm))
            if i is None:
                raise Unresolved(f"contract index {show(inst(E.ev(idx), mm))}")
            out[i] = canonval(vals, mm)
    return out


def compare(exp, got, m, names, partial=False, dest="the result"):
    for i in sorted(set(exp) | set(got)):
        if i not in got:
            raise Mismatch(f"element {i} of {dest} is never set (should be {showval(exp[i], names)}) for {describe(m, names)}")
        v, line = got[i][:2]
        if i not in exp:
            if v[0] == "val" and v[1] is ZERO or v[0] == "zero" or partial:
                continue
            raise Mismatch(f"element {i} of {dest}, which is outside the documented positions, is set to {showval(v, names)} for {describe(m, names)}", line)
        if v == exp[i]:
            continue
        if exp[i][0] == "val" and v[0] != "val":
            v = ("val", inst(got[i][4], got[i][5]))
        if v[0] != exp[i][0] or len(v) != len(exp[i]):
            raise Unresolved(f"line {line}: element computed by {v[0]} rather than {exp[i][0]}")
        if all(sameval(x, y) for x, y in zip(v[1:], exp[i][1:])):
            continue
        if any(unclear(x) for x in v[1:]):
            raise Unresolved(f"line {line}: value {showval(v, names)[:80]}")
        raise Mismatch(f"element {i} of {dest} is {showval(v, names)} instead of {showval(exp[i], names)} for {describe(m, names)}", line)


def extents(S, E, want, m, names):
    """the extents a new tensor is created with"""
    cs = []
    for f in S.effs:
        if f.kind == "call" and f.callee == "init_tensor" and not f.loops:
            g = inst(And(*f.guards), m) if f.guards else TRUE
            if g is TRUE:
                cs.append(f)
            elif g is not FALSE:
                return
    if len(cs) != 1:
        return
    nv = cs[0].args[2]
    for d, sx in enumerate(want):
        got = cint(inst(exit_load(S.an, addstep(nv, ("I", C(d), "i64")), "i64"), m))
        w = cint(inst(E.ev(sx), m))
        if got is not None and got != w:
            raise Mismatch(f"extent {d} of the result is {got} instead of {w} for {describe(m, names)}", cs[0].line)


def run_all(ctx, eng, res, ents):
    return sum(bool(Run(ctx, eng, res, e).go()) for e in ents)
