"""Which inputs a function definitely writes (stores, known library routines, frees), transitively.
Writes a callback might make are not counted; locations keep their access path so that work space
hanging off an object can be told apart from its value."""
from .sym import *
from . import sym
from .shapes import SHAPES

EXTRA_SCRATCH = {("LinElemExp", "Lp"): "derivative matrix computed on demand"}
SCRATCH_STRUCTS = {"FTMemSpace"}


def scratch_fields():
    out = set(EXTRA_SCRATCH)
    for s, fs in SHAPES.items():
        for f, t in fs.items():
            if t.startswith("scratch"):
                out.add((s, f))
    return out


def plain(p):
    """cells of an input read after something else was written count as cells of that input"""
    if not p.fl & FL_X:
        return p

    def f(n):
        if not n.fl & FL_X:
            return n
        if n.kind == "x" and len(n.a) == 2 and isinstance(n.a[1], Node) and n.a[1].kind == "ldx":
            loc = plain(n.a[1].a[0])
            if loc.kind == "ptr" and deep_root(loc.a[0]).kind == "arg":
                return N("ld", loc, -1)
        return None
    return subst(p, f, MEMO)


MEMO = {}


class Writes:
    CAP = 150

    def __init__(self, eng):
        self.eng, self.prog = eng, eng.prog
        self.scr = scratch_fields()
        self.W = {}
        order = eng.sccs()
        for scc in order:
            for n in scc:
                self.W.setdefault(n, {})
            rounds = 3 if len(scc) > 1 or scc[0] in eng.callgraph[scc[0]] else 1
            for _ in range(rounds):
                for n in scc:
                    if n in eng.an:
                        self.W[n] = self.function(n)

    def is_scratch(self, node, cl):
        p = self.prog

        def fname(st):
            s = st[1]
            fs = p.fields.get(s)
            return (s.replace("struct.", ""), fs[st[2]][0]) if fs and st[2] < len(fs) else None
        if cl[0] == "F":
            if cl[1].replace("struct.", "") in SCRATCH_STRUCTS or fname(cl) in self.scr:
                return True

        def hit(n):
            if n.kind == "ld" and n.a[0].kind == "ptr":
                for st in n.a[0].a[1]:
                    if st[0] == "F" and fname(st) in self.scr:
                        return True
            return False
        return contains(node, hit)

    def guards(self, an, facts):
        """conditions on the way to the write that a caller may refute"""
        return tuple(c for c in facts if c not in an.retfacts and c.w < 40 and not c.fl & (FL_K | FL_X))[:6]

    def refuted(self, an, e, gs, facts):
        for g in gs:
            g2 = e.inst(g)
            if g2 is FALSE or an.fa.implied(g2, facts) is FALSE:
                return True
        return False

    def cases(self, fa, facts):
        """split the first few disjunctive facts; inconsistent cases drop out"""
        out = [facts]
        for c in [f for f in facts if f.kind == "or" and len(f.a) <= 4][:2]:
            nxt = []
            for fs in out:
                for d in c.a:
                    if fa.implied(d, fs - {c}) is FALSE:
                        continue
                    g = fa.addfact(fs, d)
                    ds = d.a if d.kind == "and" else (d,)
                    if any(fa.implied(x, g - {x, d}) is FALSE for x in ds):
                        continue
                    nxt.append(g)
            out = nxt
        return out

    def bases(self, an, p, facts, depth=0, seen=None):
        if depth == 0 and p.kind == "ptr" and p.a[0].kind == "ite":
            got = {}
            for fs in self.cases(an.fa, facts):
                for b in self.bases1(an, p, fs):
                    got[b] = 1
            yield from got
            return
        yield from self.bases1(an, p, facts, depth, seen)

    def bases1(self, an, p, facts, depth=0, seen=None):
        """objects a pointer may denote: base nodes with conditionals and merges resolved"""
        if p.kind != "ptr":
            return
        b = p.a[0]
        seen = seen if seen is not None else set()
        if b in seen or depth > 6:
            return
        seen.add(b)
        if b.kind == "ite":
            r = an.fa.implied(b.a[0], facts)
            xs = [b.a[1]] if r is TRUE else [b.a[2]] if r is FALSE else list(b.a[1:])
            for x in xs:
                if x.kind == "ptr":
                    yield from self.bases1(an, x, facts, depth + 1, seen)
            return
        if b.kind in ("phi", "rphi") and b in an.phis:
            for _, v in an.phis[b]:
                if isinstance(v, Node) and v.kind == "ptr":
                    yield from self.bases1(an, v, facts, depth + 1, seen)
            if b.kind == "rphi":
                yield b
            return
        yield b

    def add(self, out, an, facts, p, cl, why, gs=()):
        gs = tuple(dict.fromkeys(self.guards(an, facts) + tuple(g for g in gs if not g.fl & FL_LOCAL and g.w < 40)))
        for b in self.bases(an, p, facts):
            r = deep_root(b)
            if r.kind not in ("arg", "glob"):
                continue
            if self.is_scratch(b, cl):
                continue
            if b.w > 60:
                b = r
            if (b, cl) not in out:
                if len(out) < self.CAP:
                    out[(b, cl)] = (why, gs)
            elif len(gs) < len(out[(b, cl)][1]):
                out[(b, cl)] = (why, gs)

    def function(self, n):
        an = self.eng.an[n]
        cfg = self.eng.cfg(n)
        out = {}
        for e in an.effects:
            if e.block not in cfg.live:
                continue
            facts = an.facts.get(e.block, frozenset())
            if e.kind == "store":
                cl = klass(e.loc, e.type)
                if e.loc.a[0].kind == "alloca":
                    continue
                self.add(out, an, facts, e.loc, cl, [(n, e.ins.line, "stores to " + show(e.loc, an.names)[:90])])
            elif e.kind == "call" and isinstance(e.callee, str):
                c = e.callee
                if c in self.W:
                    if e.inst is None:
                        continue
                    for (b, cl), (why, gs) in self.W[c].items():
                        if self.refuted(an, e, gs, facts):
                            continue
                        p = plain(e.inst(PTR(b)))
                        if p.kind != "ptr":
                            continue
                        # a write through the address of a field
                        c2 = cl
                        if cl[0] in ("E", "free") and b.kind == "arg" and p.a[1] and p.a[1][-1][0] == "F" and cl[0] == "E":
                            c2 = klass(p, None)
                        self.add(out, an, facts, p, c2, [(n, e.ins.line, f"calls {c}")] + why[:6], [e.inst(g) for g in gs])
                elif c == "free":
                    p = e.args[0]
                    if p.kind == "ptr" and not p.a[1]:
                        self.add(out, an, facts, p, ("free",), [(n, e.ins.line, "frees " + show(p, an.names)[:90])])
                elif c.startswith("llvm.mem") or c in ("memcpy", "memmove", "memset"):
                    self.add(out, an, facts, e.args[0], klass(e.args[0], "bytes") if e.args[0].kind == "ptr" else ("E", "bytes"),
                             [(n, e.ins.line, f"{c.split('.')[1] if '.' in c else c} into {show(e.args[0], an.names)[:90]}")])
                elif c in EXTW:
                    for k in EXTW[c]:
                        if k < len(e.args) and e.args[k].kind == "ptr":
                            self.add(out, an, facts, e.args[k], klass(e.args[k], "ext"), [(n, e.ins.line, f"{c} writes {show(e.args[k], an.names)[:90]}")])
        return out

    def of_param(self, n, i):
        for (b, cl), (why, gs) in self.W.get(n, {}).items():
            r = deep_root(b)
            if r.kind == "arg" and r.a[0] == i:
                yield b, cl, why
