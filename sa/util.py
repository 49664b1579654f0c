"""Helpers shared by the rules: normalising array effects of loops, expanding helpers, ranges."""
import re
from .sym import *
from . import sym

J = N("J")      # canonical element index


def strip_last_index(p):
    """p = base[idx] -> (base, idx poly, elt)   (idx 0 if none)"""
    b, st = p.a
    if st and st[-1][0] == "I":
        return PTR(b, st[:-1]), st[-1][1], st[-1][2]
    return p, ZERO, None


class LoopCtx:
    """loops around an effect, innermost last: list of (k node, trip poly, exact)"""
    __slots__ = ("k", "trip", "exact", "stay", "L")


class FEff:
    """flattened effect (possibly from an inlined helper)"""
    __slots__ = ("kind", "loc", "val", "type", "callee", "args", "ret", "loops", "guards", "line", "fn", "chain", "ins", "root_ins", "eff", "dead")

    def __repr__(self):
        s = f"{self.fn}:{self.line} {self.kind} "
        if self.kind in ("store", "load"):
            s += f"{show(self.loc)} := {show(self.val)}"
        elif self.kind == "call":
            s += f"{self.callee}({', '.join(show(a) for a in self.args)})"
        elif self.kind == "ret":
            s += show(self.val) if self.val else ""
        if self.loops:
            s += " for " + ",".join(f"{show(k)}<{show(t)}" for k, t, _ in self.loops)
        if self.guards:
            s += " if " + " && ".join(show(g) for g in self.guards)
        return s


def block_guards(an, cfg, e):
    """conditions under which the block of e runs, without the loops' own stay conditions"""
    facts = an.facts.get(e.block, frozenset())
    stays = set()
    for h in e.loops:
        for (_, stay, _) in an.loopinfo[h].conds:
            if stay is not None:
                stays.add(stay)
                if stay.kind == "and":
                    stays.update(stay.a)
    base = assert_facts(an, cfg)
    gs = frozenset(f for f in facts if f not in stays and f not in base)
    # facts hold on every path into the block; joins of several paths need the disjunction as well
    r = reach(an, cfg, e.block)
    if r is not TRUE:
        extra = []
        for c in (r.a if r.kind == "and" else (r,)):
            if c not in facts and an.fa.implied(c, facts) is not TRUE:
                extra.append(c)
        if extra:
            gs |= frozenset(extra)
    return gs


def reach(an, cfg, b):
    """exact condition under which a block runs, per iteration of the loops around it (their own tests aside)"""
    memo = an.__dict__.setdefault("_reach", {}) if hasattr(an, "__dict__") else an.fa.__dict__.setdefault("_reach", {})
    if b in memo:
        return memo[b]
    fa = an.fa
    bl = cfg.fn.blocks
    memo[b] = N("unk", "reach", b)
    if b == cfg.fn.entry:
        memo[b] = TRUE
        return TRUE
    hs = cfg.loopsof.get(b, ())
    d = inevitable(cfg, b, hs)
    if d is not None:
        memo[b] = reach(an, cfg, d)
        return memo[b]
    alts = []
    for p in bl[b].preds:
        if p not in cfg.live or p not in cfg.num or (p, b) in cfg.back or p not in fa.out:
            continue
        ph = cfg.loopsof.get(p, ())
        left = [h for h in ph if h not in hs]
        if left:
            # leaving loops: reached whenever the outermost of them is entered, if that loop has a single exit
            h = left[0]
            body = cfg.loops[h]
            exits = [(x, y) for x in body if x in cfg.live for y in bl[x].succs if y not in body and y in cfg.live]
            c = reach(an, cfg, h)
            if len(set(y for _, y in exits)) > 1:
                c = N("unk", "reach", b)
            alts.append(c)
            continue
        c = reach(an, cfg, p)
        livesucc = [x for x in dict.fromkeys(bl[p].succs) if x in cfg.live]
        isstay = p in an.loopinfo and p in hs and any(x not in cfg.loops[p] for x in bl[p].succs)
        if len(livesucc) > 1 and not isstay:
            c = And(c, fa.edgecond(p, b))
        alts.append(c)
    r = alts[0] if len(alts) == 1 else disj(alts)
    if b in cfg.loops and len(hs) > 1 and hs[-1] == b:
        pass
    memo[b] = r
    return r


def inevitable(cfg, b, hs):
    """the block b must follow, if b is a join that every live path from its dominator runs into"""
    bl = cfg.fn.blocks
    if len([p for p in bl[b].preds if p in cfg.live and (p, b) not in cfg.back]) < 2:
        return None
    d = cfg.idom.get(b)
    while d is not None and d != cfg.idom.get(d) and not all(h in hs or h == d for h in cfg.loopsof.get(d, ())):
        d = cfg.idom.get(d)
    if d is None or d == b:
        return None
    outer = [h for h in hs if h in cfg.loopsof.get(d, ()) and h != b]
    if [h for h in hs if h not in cfg.loopsof.get(d, ()) and h != b]:
        return None
    seen, st = set(), [d]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        nx = [y for y in bl[x].succs if y in cfg.live]
        if not nx:
            return None
        for y in nx:
            if y == b:
                continue
            if (x, y) in cfg.back:
                if y in outer:
                    return None
                continue
            if any(y not in cfg.loops[h] for h in outer):
                return None
            st.append(y)
    return d


def disj(alts):
    """or of path conditions with complementary branches merged"""
    alts = list(dict.fromkeys(alts))
    if any(a is TRUE for a in alts):
        return TRUE
    again = True
    while again and len(alts) > 1:
        again = False
        for i in range(len(alts)):
            for j in range(i + 1, len(alts)):
                a = set(alts[i].a) if alts[i].kind == "and" else {alts[i]}
                c = set(alts[j].a) if alts[j].kind == "and" else {alts[j]}
                if a <= c or c <= a:
                    alts = alts[:j] + alts[j + 1:] if a <= c else alts[:i] + alts[i + 1:]
                    again = True
                    break
                da, dc = a - c, c - a
                if len(da) == 1 and len(dc) == 1 and Not(next(iter(da))) is next(iter(dc)):
                    m = And(*(a & c)) if a & c else TRUE
                    alts = [x for t, x in enumerate(alts) if t not in (i, j)] + [m]
                    if m is TRUE:
                        return TRUE
                    again = True
                    break
            if again:
                break
    if len(alts) == 1:
        return alts[0]
    com = None
    for a in alts:
        t = set(a.a) if a.kind == "and" else {a}
        com = t if com is None else com & t
    rest = []
    for a in alts:
        t = [x for x in (a.a if a.kind == "and" else (a,)) if x not in com]
        rest.append(And(*t) if t else TRUE)
    return And(*com, Or(*rest)) if com else Or(*rest)


def assert_facts(an, cfg):
    """facts at the return block: hold on every completed run"""
    return an.retfacts


def flat(eng, name, inline=None, depth=4, kinds=("store", "call", "ret", "load"), _chain=(), dead=False):
    """effects of function `name` with helper calls expanded where inline(callee) is true.
    Values are expressed in terms of name's arguments."""
    an = eng.an[name]
    cfg = eng.cfg(name)
    out = []
    for e in an.effects:
        isdead = e.block not in cfg.live
        if isdead and not dead:
            continue
        if e.kind not in kinds and e.kind != "call":
            continue
        f = FEff()
        cl = an.fa.closed
        f.kind, f.loc, f.val, f.type = e.kind, cl(e.loc), cl(e.val), e.type
        f.callee, f.args, f.ret = e.callee, [cl(a) for a in e.args] if e.args is not None else None, cl(e.ret)
        f.loops = [(an.loopinfo[h].k, cl(an.loopinfo[h].trip), an.loopinfo[h].exact) for h in e.loops]
        f.guards = frozenset(cl(g) for g in block_guards(an, cfg, e))
        f.line, f.fn, f.chain, f.ins = e.ins.line, name, _chain, e.ins
        f.eff = e
        f.dead = isdead
        if e.kind == "call" and isinstance(e.callee, str) and e.callee in eng.an and e.inst is not None and depth > 0 and e.callee not in _chain \
                and inline is not None and inline(e.callee):
            sub = flat(eng, e.callee, inline, depth - 1, kinds, _chain + (name,))
            for g in sub:
                h = FEff()
                h.kind = g.kind
                h.type = g.type
                h.loc = e.inst(g.loc) if g.loc is not None else None
                h.val = e.inst(g.val) if isinstance(g.val, Node) else None
                h.callee = ("ind", e.inst(g.callee[1])) if isinstance(g.callee, tuple) else g.callee
                h.args = [e.inst(a) for a in g.args] if g.args is not None else None
                h.ret = e.inst(g.ret) if isinstance(g.ret, Node) else None
                h.loops = f.loops + [(e.inst(k), e.inst(t) if t is not None else None, x) for k, t, x in g.loops]
                h.guards = f.guards | frozenset(e.inst(c) for c in g.guards)
                h.line, h.fn, h.chain, h.ins = g.line, g.fn, g.chain, g.ins
                h.eff = g.eff
                h.dead = g.dead
                if h.kind == "ret":
                    continue
                if h.loc is not None and h.loc.kind != "ptr":
                    h.loc = PTR(h.loc)
                out.append(h)
            f.kind = "icall"
            if "icall" in kinds:
                out.append(f)
            continue
        if e.kind in kinds:
            out.append(f)
    return out


def katom(k):
    a = atom_of(k) if k.kind == "poly" else k
    return a


def array_write(f):
    """normalise a store inside loops:  -> (base, lo, count, value in J) meaning
    base[lo+J] := value for J in [0,count); None when not of that form"""
    base, idx, elt = strip_last_index(f.loc)
    ks = []
    for k, t, ex in f.loops:
        ka = katom(k)
        if ka is None:
            return None
        if contains(idx, lambda n: n is ka):
            if t is None:
                return None
            ks.append((ka, t, ex))
        else:
            if contains(base, lambda n: n is ka) or (isinstance(f.val, Node) and contains(f.val, lambda n: n is ka)):
                return None
    if any(contains(base, lambda n, ka=ka: n is ka) for ka, _, _ in ks):
        return None
    if not ks:
        return base, idx, ONE, f.val
    # mixed radix flattening
    coefs = []
    rest = idx
    for ka, t, ex in ks:
        co = {}
        r2 = {}
        for m, c in rest.a:
            n = m.count(ka)
            if n == 0:
                if any(contains(x, lambda y: y is ka) for x in m):
                    return None
                r2[m] = c
            elif n == 1:
                mm = list(m)
                mm.remove(ka)
                if any(contains(x, lambda y: y is ka) for x in mm):
                    return None
                co[tuple(mm)] = co.get(tuple(mm), 0) + c
            else:
                return None
        coefs.append([P(co), ka, t])
        rest = P(r2)
    # reversed loops: k -> trip-1-k
    subs = {}
    for ent in coefs:
        c = const_of(ent[0])
        if c is not None and c < 0 or (c is None and all(x < 0 for _, x in ent[0].a)):
            newk = N("rev", ent[1])
            subs[ent[1]] = sub(sub(ent[2], ONE), A(newk))
            rest = add(rest, mul(ent[0], sub(ent[2], ONE)))
            ent[0] = neg(ent[0])
            ent[1] = newk
    val = f.val
    if subs:
        val = subst(val, lambda n: subs.get(n), {}, 0xff)
    # order by radix
    todo = list(coefs)
    cur = ONE
    order = []
    while todo:
        hit = [x for x in todo if x[0] is cur]
        if not hit:
            return None
        x = hit[0]
        todo.remove(x)
        order.append(x)
        cur = mul(cur, x[2])
    count = cur
    if len(order) == 1:
        ka = order[0][1]
        val = subst(val, lambda n: A(J) if n is ka else None, {})
        return base, rest, count, val
    # combined index: value may depend on the ks only through the combination
    comb = ZERO
    for c, ka, t in order:
        comb = add(comb, mul(c, A(ka)))
    k0 = order[0][1]
    # substitute k0 := J - (comb - k0)
    repl = sub(A(J), sub(comb, A(k0)))
    v2 = subst(val, lambda n: repl if n is k0 else None, {})
    for c, ka, t in order[1:]:
        if contains(v2, lambda n, ka=ka: n is ka):
            return None
    return base, rest, count, v2


OPAQUE = {"x", "cut", "big", "phi", "rphi", "unk", "ret", "kx", "op", "cast", "bool"}


def opaque(n):
    return contains(n, lambda m: m.kind in ("x", "cut", "big", "phi", "rphi", "unk", "ret", "kx") or (m.kind == "ld" and m.a[1] != 0))


def nm(an_or_names, node):
    names = an_or_names.names if hasattr(an_or_names, "names") else an_or_names
    return show(node, names)


def fieldpath(prog, loc):
    """access path of a location as text rooted at its base: e.g. ls->alpha"""
    return show(loc)


def param_struct(prog, fn, i):
    """struct name if parameter i is a pointer to a struct"""
    if i < len(fn.ptypes):
        t = fn.ptypes[i]
        if t.kind == "ptr" and t.to is not None and t.to.kind == "struct":
            return "struct." + (t.to.name or "")
    return None


# ---- values at exit ----------------------------------------------------------------------
def assume(fa, v, facts, memo=None):
    """rewrite v under extra facts: conditionals whose condition is decided are resolved"""
    if not isinstance(v, Node):
        return v

    def f(n):
        if n.kind == "ite":
            r = fa.implied(n.a[0], facts)
            if r is TRUE:
                return assume(fa, n.a[1], facts)
            if r is FALSE:
                return assume(fa, n.a[2], facts)
        return None
    return subst(v, f, {})


def exit_load(an, loc, ty, facts=()):
    """value of a location when the function returns, under extra facts"""
    fa = an.fa
    fs = an.retfacts
    for c in facts:
        fs = fa.addfact(fs, c)
    st = State(dict(an.mem_out), dict(an.ver_out), fs)
    if loc.kind != "ptr":
        loc = PTR(loc)
    v = fa.load(st, loc, ty)
    return assume(fa, v, fs)


def nonnull(p):
    return Not(peq(p, NULL))


def fieldptr(prog, base, struct, field):
    """pointer to a named field of the object at base"""
    names = [n for n, _ in prog.fields[struct]]
    i = names.index(field)
    return addstep(base, ("F", struct, i))


def irtype(prog, struct, field):
    names = [n for n, _ in prog.fields[struct]]
    return prog.structs[struct][names.index(field)]


def extent(prog, expr, base, struct, ld):
    """polynomial for a count expression such as 'nrows*ncols' or 'dim+1' over the fields of the
    object; ld(field) gives the field's value.  None for '*' (unspecified)"""
    if expr is None or expr == "*":
        return None
    tot = ZERO
    for term in re.split(r"(?=[+-])", expr.replace(" ", "")):
        if not term:
            continue
        s = 1
        if term[0] in "+-":
            s = -1 if term[0] == "-" else 1
            term = term[1:]
        m = ONE
        for fct in term.split("*"):
            m = mul(m, C(int(fct)) if fct.isdigit() else topoly(ld(fct)))
        tot = add(tot, m) if s > 0 else sub(tot, m)
    return tot
