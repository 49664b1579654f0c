"""C01: generic operations reach the matching operation of the right representation."""
import itertools
from ..core import Result, Anchor
from ..spec import *

PW, POLY, CONST, LIN, KER = 0, 1, 2, 3, 4
CLS = {PW: "piecewise_poly", POLY: "orth_poly_expansion", CONST: "const_elem_exp", LIN: "lin_elem_exp", KER: "kernel_expansion"}
OPT = {PW: "pw_poly_opts", POLY: "ope_opts", CONST: "const_elem_exp_aopts", LIN: "lin_elem_exp_aopts", KER: "kernel_approx_opts"}
STRUCT = {"PiecewisePoly": PW, "OrthPolyExpansion": POLY, "ConstElemExp": CONST, "LinElemExp": LIN, "KernelExpansion": KER,
          "PwPolyOpts": PW, "OpeOpts": POLY, "ConstElemExpAopts": CONST, "LinElemExpAopts": LIN, "KernelApproxOpts": KER}
NAME = {PW: "PIECEWISE", POLY: "POLYNOMIAL", CONST: "CONSTELM", LIN: "LINELM", KER: "KERNEL"}
ALL = (PW, POLY, CONST, LIN, KER)


def D(fn, params, tag, args, op=None, res=None, classes=ALL, per=None, opts=False, front=None, fix=None, key=None, also=()):
    """fn dispatches on `tag`; under class c it calls <c>_<op>(args) once; res: where the result goes
    ('ret': returned, 'X.f': stored there); per: {class: (callee, args)} exceptions"""
    op = op or fn.replace("generic_function_", "").replace("one_approx_opts_", "")
    return dict(fn=fn, params=params, tag=tag, args=args, op=op, res=res, classes=classes, per=per or {}, opts=opts, front=front, fix=fix or {}, key=key or fn, also=also)


G = "generic_function_"
TABLE = [
 D(G + "free", "g", "g.fc", ["g.f"]),
 D(G + "copy", "g", "g.fc", ["g.f"], res="ret.f"),
 D(G + "copy_pa", "g o", "g.fc", ["g.f"], op="copy", res="o.f"),
 D("serialize_generic_function", "s g t", "g.fc", [None, "g.f", None], front="serialize"),
 D("deserialize_generic_function", "s g", None, [None, None], front="deserialize"),
 D(G + "savetxt", "g st pr", "g.fc", ["g.f", "st", "pr"]),
 D(G + "loadtxt", "st", None, ["st"]),
 D("print_generic_function", "g pr a fp", "g.fc", ["g.f", "pr", "a", "fp"], front="print"),
 D(G + "linear_update", "g a o", "g.fc", ["g.f", "a", "o"]),
 D(G + "create_with_params", "fc ao dim p", "fc", ["ao", "dim", "p"], res="ret.f"),
 D(G + "pad_params", "g n", "g.fc", ["g.f", "n"]),
 D(G + "zero", "fc ao force", "fc", ["0", "ao"], op="constant", res="ret.f", fix={"force": 0}, key=G + "zero:0"),
 D(G + "zero", "fc ao force", "fc", ["ao", "1"], op="zero", res="ret.f", fix={"force": 1}, key=G + "zero:1"),
 D(G + "constant", "a fc ao", "fc", ["a", "ao"], res="ret.f"),
 D(G + "linear", "a o fc ao", "fc", ["a", "o", "ao"], res="ret.f"),
 D(G + "quadratic", "a o fc ao", "fc", ["a", "o", "ao"], res="ret.f"),
 D(G + "deriv", "g", "g.fc", ["g.f"], res="ret.f"),
 D(G + "dderiv", "g", "g.fc", ["g.f"], res="ret.f"),
 D(G + "dderiv_periodic", "g", "g.fc", ["g.f"], res="ret.f"),
 D(G + "create_nodal", "f n x", "f.fc", ["n", "x", None], op="init", res="ret.f", classes=(CONST, LIN)),
 D(G + "get_num_params", "g", "g.fc", ["g.f"], res="ret"),
 D(G + "get_lb", "g", "g.fc", ["g.f"], res="ret"),
 D(G + "get_ub", "g", "g.fc", ["g.f"], res="ret"),
 D(G + "get_params", "g p", "g.fc", ["g.f", "p"], res="ret"),
 D(G + "get_params_ref", "g p", "g.fc", ["g.f", "p"], res="ret"),
 D(G + "update_params", "g dim p", "g.fc", ["g.f", "dim", "p"], res="ret"),
 D(G + "onezero2", "fc n z o", "fc", ["n", "z", "o"], op="onezero", res="ret.f", classes=(CONST, LIN)),
 D(G + "flip_sign", "g", "g.fc", ["g.f"]),
 D(G + "sum3_up", "a x b y c z", "x.fc", ["a", "x.f", "b", "y.f", "c", "z.f"], classes=(POLY,)),
 D(G + "axpy", "a x y", "x.fc", ["a", "x.f", "y.f"], res="ret"),
 D(G + "scale", "a g", "g.fc", ["a", "g.f"]),
 D(G + "1d_eval", "f x", "f.fc", ["f.f", "x"], op="eval", res="ret"),
 D(G + "deriv_eval", "g x", "g.fc", ["g.f", "x"], res="ret"),
 D(G + "1d_evalN", "f n x ix y iy", "f.fc", ["f.f", "n", "x", "ix", "y", "iy"], op="evalN"),
 D(G + "1d_eval_ind", "f i0", "f.fc", ["f.f", "i0"], op="get_nodal_val", res="ret", classes=(CONST, LIN)),
 D(G + "param_grad_eval", "g nx x gr", "g.fc", ["g.f", "nx", "x", "gr"], res="ret"),
 D(G + "param_grad_eval2", "g x gr", "g.fc", ["g.f", "x", "gr"], res="ret"),
 D(G + "integrate", "g", "g.fc", ["g.f"], res="ret"),
 D(G + "integrate_weighted", "g", "g.fc", ["g.f"], res="ret"),
 D(G + "param_grad_inner", "f g gr", "f.fc", ["f.f", "g.f", "gr"], res="ret"),
 D(G + "squared_norm_param_grad", "g s gr", "g.fc", ["g.f", "s", "gr"], res="ret"),
 D(G + "approximate1d", "fc ao f", "fc", ["ao", "f"], res="ret.f", classes=(PW, POLY, CONST, LIN), op="approx", per={PW: ("piecewise_poly_approx1_adapt", ["ao", "f"]), POLY: ("orth_poly_expansion_approx_adapt", ["ao", "f"])}),
 D(G + "absmax", "f x o", "f.fc", ["f.f", "x", "o"], res="ret", per={LIN: ("lin_elem_exp_absmax", ["f.f", "x", "8", "o"]), CONST: ("const_elem_exp_absmax", ["f.f", "x", "8", "o"])}),
 D(G + "absmax_gen", "f x s o", "f.fc", ["f.f", "x", "o"], op="absmax", res="ret", per={LIN: ("lin_elem_exp_absmax", ["f.f", "x", "s", "o"]), CONST: ("const_elem_exp_absmax", ["f.f", "x", "s", "o"])}),
 D(G + "array_orth", "n ga fc ao", "fc", ["n", None, "ao"], op="orth_basis", classes=(POLY, CONST, LIN, KER)),
 D(G + "inner", "a b", "a.fc", ["a.f", "b.f"], also=("b.fc",), classes=(POLY, CONST, LIN, KER)),
 D(G + "prod", "a b", "a.fc", ["a.f", "b.f"], also=("b.fc",), res="ret.f", classes=(POLY, CONST, LIN, KER)),
 D(G + "inner_weighted", "a b", "a.fc", ["a.f", "b.f"], op="inner_w", also=("b.fc",), classes=(POLY,)),
 D(G + "integral_weighted", "f", "f.fc", ["f.f"], op="integrate_weighted", res="ret", classes=(POLY,)),
 D(G + "get_kristoffel_weight", "g x", "g.fc", ["g.f", "x"], op="get_kristoffel_weight", res="ret", classes=(POLY,)),
 D(G + "rkhs_squared_norm", "g t dt", "g.fc", ["g.f", "t", "dt"], op="rkhs_squared_norm", res="ret", classes=(POLY,)),
 D(G + "rkhs_squared_norm_param_grad", "g s t dt gr", "g.fc", ["g.f", "s", "t", "dt", "gr"], op="rkhs_squared_norm_param_grad", res="ret", classes=(POLY,)),
 # options
 D("one_approx_opts_get_nparams", "o", "o.fc", ["o.aopts"], opts=True, res="ret"),
 D("one_approx_opts_get_lb", "o", "o.fc", ["o.aopts"], opts=True, res="ret"),
 D("one_approx_opts_get_ub", "o", "o.fc", ["o.aopts"], opts=True, res="ret"),
 D("one_approx_opts_set_nparams", "o n", "o.fc", ["o.aopts", "n"], opts=True),
 D("one_approx_opts_set_maxnum", "o n", "o.fc", ["o.aopts", "n"], opts=True, classes=(POLY,)),
 D("one_approx_opts_linear_p", "o", "o.fc", ["o.aopts"], opts=True, op="linear_p", classes=(KER,), res="ret"),
 D("regress_1d_opts_set_parametric_form", "o fc ao", "fc", ["ao"], opts=True, op="get_nparams"),
]


def families(prog):
    """functions that operate on one representation: by the structure they take or return"""
    fam = {}
    for n, f in prog.functions.items():
        if n.startswith("generic_function_") or n.startswith("one_approx") or n.startswith("multi_approx"):
            continue
        for t in list(f.ptypes) + [f.rtype]:
            d = 0
            while t is not None and t.kind == "ptr" and d < 3:
                t, d = t.to, d + 1
            if t is not None and t.kind == "struct" and t.name in STRUCT and d:
                fam[n] = STRUCT[t.name]
                break
        for c, p in list(CLS.items()) + list(OPT.items()):
            if n.startswith(p + "_"):
                fam[n] = c
    return fam


def typed(t):
    d = 0
    while t is not None and t.kind == "ptr" and d < 1:
        t, d = t.to, d + 1
    return STRUCT.get(t.name) if d and t is not None and t.kind == "struct" else None


class Tags:
    """no operand built for one class is handed to the implementation of another"""

    def __init__(self, ctx, eng, res):
        self.ctx, self.eng, self.res, self.prog = ctx, eng, res, ctx.prog
        self.slots = {}
        for st, fld in (("GenericFunction", "f"), ("OneApproxOpts", "aopts")):
            fs = [n for n, _ in self.prog.fields.get("struct." + st, ())]
            if fld in fs and "fc" in fs:
                self.slots[("struct." + st, fs.index(fld))] = fs.index("fc")
        if not self.slots:
            raise Anchor("no tagged structures")

    def owner_tag(self, a):
        """pointer loaded from a tagged slot -> atom of the tag"""
        if a.kind != "ptr" or a.a[1] or a.a[0].kind != "ld":
            return None
        return self.tag_of(a.a[0].a[0])

    def tag_of(self, l):
        if l.kind == "ptr" and l.a[1] and l.a[1][-1][0] == "F":
            s = l.a[1][-1]
            fi = self.slots.get((s[1], s[2]))
            if fi is not None:
                return N("ld", strip(PTR(l.a[0], l.a[1][:-1] + (("F", s[1], fi),))), 0)
        return None

    def run(self):
        n = 0
        for name, fn in sorted(self.prog.functions.items()):
            an = self.eng.an.get(name)
            if an is None:
                continue
            S = None
            seen = set()
            for e in an.effects:
                if e.block not in self.eng.cfg(name).live:
                    continue
                if e.kind == "call" and isinstance(e.callee, str) and e.callee in self.prog.functions:
                    cf = self.prog.functions[e.callee]
                    for i, a in enumerate(e.args):
                        if i >= len(cf.ptypes):
                            continue
                        c = typed(cf.ptypes[i])
                        if c is None and isinstance(a, Node) and cf.ptypes[i].kind == "ptr" and cf.ptypes[i].to is not None and typed(cf.ptypes[i].to) is not None:
                            n += self.arrays(fn, an, e, i, strip(an.fa.closed(a)), typed(cf.ptypes[i].to))
                        if c is None or not isinstance(a, Node):
                            continue
                        for v, cond in alternatives(strip(an.fa.closed(a))):
                            tag = self.owner_tag(v)
                            if tag is not None:
                                n += 1
                                self.judge(fn, an, e, tag, c, cond, f"{e.callee} operand {i + 1}")
                if e.kind in ("load", "store") and isinstance(e.loc, Node):
                    l = strip(an.fa.closed(e.loc))
                    if l.kind == "ptr" and l.a[0].kind == "ld" and l.a[1] and l.a[1][0][0] == "F":
                        c = STRUCT.get(l.a[1][0][1].replace("struct.", ""))
                        tag = self.owner_tag(PTR(l.a[0])) if c is not None else None
                        if tag is not None and (e.block, tag, c) not in seen:
                            seen.add((e.block, tag, c))
                            n += 1
                            self.judge(fn, an, e, tag, c, TRUE, f"field of {l.a[1][0][1].replace('struct.', '')}")
                if e.kind == "store":
                    loc = strip(an.fa.closed(e.loc))
                    tag = self.tag_of(loc)
                    if tag is None:
                        continue
                    S = S or Summary1(self.eng, name)
                    val = an.fa.closed(e.val)
                    f = [x for x in S.effs if x.kind == "call" and isinstance(x.ret, Node) and val is not NULL and val is x.ret and isinstance(x.callee, str)]
                    if not f or f[0].callee not in self.prog.functions:
                        continue
                    c = typed(self.prog.functions[f[0].callee].rtype)
                    if c is None:
                        continue
                    n += 1
                    got = exit_load(an, tag.a[0], "i32")
                    self.judge(fn, an, e, strip(an.fa.closed(got)), c, TRUE, f"result of {f[0].callee} stored")
        return n

    def arrays(self, fn, an, e, i, a, c):
        """an array of pointers gathered from tagged objects and handed to the implementation of class c"""
        b0 = strip(strip_last_index(a)[0]) if a.kind == "ptr" else None
        if b0 is None or b0.a[0].kind not in ("new", "alloca"):
            return 0
        cfg = self.eng.cfg(fn.name)
        n = 0
        for s in an.effects:
            if s.kind != "store" or s.block not in cfg.live or not isinstance(s.val, Node):
                continue
            loc = strip(an.fa.closed(s.loc))
            b, idx, _ = strip_last_index(loc)
            if strip(b) is not b0:
                continue
            tag = self.owner_tag(strip(an.fa.closed(s.val)))
            if tag is None:
                continue
            n += 1
            key = f"tags:{fn.name}:{e.callee} operand {i + 1}"
            here = [strip(an.fa.closed(x)) for x in an.facts.get(s.block, ())]
            v = known_class(here, tag)
            if v is None:
                v = self.completed(fn, an, cfg, e, tag, s)
            if v is None:
                self.res.skip(key, "class of the elements not resolved")
            elif v == c:
                self.res.ok(f"{key}: every element has been found to be {NAME[c]}")
            else:
                what = f"of class {NAME[v]}" if v in NAME else "whose class has not been tested"
                self.res.bad(key, f"{fn.name}: hands functions {what} to {e.callee}, which reads them as {NAME[c]}", self.ctx.where(fn, e.ins.line))
        return n

    def completed(self, fn, an, cfg, e, tag, s):
        """class established for every element by a loop that must have run to its end before the call; -1: loop tests other elements only"""
        guards = [strip(an.fa.closed(g)) for g in block_guards(an, cfg, e)]
        found = None
        for g in guards:
            ph = [y for y in subnodes(g) if y.kind == "phi" and y.a[0] == fn.name]
            if len(ph) != 1:
                continue
            blk, var = ph[0].a[1], ph[0].a[2]
            d = [x for x in fn.blocks[blk].instrs if x.op == "phi" and x.dest == var]
            if len(d) != 1:
                continue
            ok = []
            for v, p in zip(d[0].ops, d[0].extra):
                if p not in cfg.live:
                    continue
                cv = self.flag(fn, cfg, v, p)
                if cv is None:
                    return None
                r = inst(g, Model({ph[0]: C(cv)}))
                if r is TRUE:
                    ok.append(p)
                elif r is not FALSE:
                    return None
            if len(ok) != 1:
                continue
            h = ok[0]
            while h not in cfg.loops and len(fn.blocks[h].preds) == 1 and len(fn.blocks[h].succs) == 1:
                h = fn.blocks[h].preds[0]
            if h not in cfg.loops:
                continue
            latches = [x for x, y in cfg.back if y == h]
            k = an.loopinfo[h].k
            ks = [an.loopinfo[x].k for x in s.loops]
            if len(ks) != 1:
                return None
            ka, kb = katom(k), katom(ks[0])
            facts = None
            for l in latches:
                fs = {strip(an.fa.closed(x)) for x in an.facts.get(l, ())}
                facts = fs if facts is None else facts & fs
            facts = [subst(x, lambda y: A(kb) if y is ka else None, {}) for x in facts or ()]
            v = known_class(facts, tag)
            if v is not None:
                return v
            if any(contains(x, lambda y: y.kind == "ld" and self.is_tag(y)) for x in facts):
                found = -1
        return found

    def is_tag(self, x):
        l = x.a[0]
        return l.kind == "ptr" and l.a[1] and l.a[1][-1][0] == "F" and any(s == l.a[1][-1][1] and v == l.a[1][-1][2] for (s, _), v in self.slots.items())

    def flag(self, fn, cfg, v, p):
        """constant carried by a flag along an edge"""
        for _ in range(5):
            if isinstance(v, str) and v.lstrip("-").isdigit():
                return int(v)
            d = [x for b in fn.blocks.values() for x in b.instrs if x.dest == v]
            if len(d) != 1 or d[0].op != "phi":
                return None
            vs = {x for x, q in zip(d[0].ops, d[0].extra) if x != v and q in cfg.live}
            if len(vs) != 1:
                return None
            v = vs.pop()
        return None

    def judge(self, fn, an, e, tag, c, cond, what):
        facts = set(an.facts.get(e.block, ())) | set(block_guards(an, self.eng.cfg(fn.name), e)) | {cond}
        facts = [strip(an.fa.closed(x)) for x in facts]
        tag = strip(tag)
        key = f"tag:{fn.name}:{what}"
        istag = lambda x: x.kind == "ld" and x.a[0].kind == "ptr" and x.a[0].a[1] and x.a[0].a[1][-1][0] == "F" and x.a[0].a[1][-1][2] in [v for (s, _), v in self.slots.items() if s == x.a[0].a[1][-1][1]]
        isfc = lambda x: istag(x) or (x.kind == "arg" and x.a[0] < len(fn.ptypes) and getattr(fn.ptypes[x.a[0]], "name", None) == "function_class")
        atoms = []
        for x in facts + [tag]:
            for y in subnodes(x):
                if isfc(y) and y not in atoms:
                    atoms.append(y)
        rel = [y for y in subnodes(tag) if y in atoms] if isinstance(tag, Node) else []
        ck = cint(tag) if tag.kind == "poly" else None
        if ck is None and not rel:
            self.res.skip(key, f"tag {show(tag)[:60]}")
            return
        # tags connected to the operand's through equalities
        con = set(rel)
        while True:
            k = len(con)
            for x in facts:
                ys = [y for y in atoms if contains(x, lambda z, y=y: z is y)]
                if any(y in con for y in ys):
                    con.update(ys)
            if len(con) == k:
                break
        con = sorted(con, key=lambda n: n.id)
        if len(con) > 3:
            self.res.skip(key, "many tags")
            return
        mentioned = any(contains(x, lambda z: z in con) for x in facts)
        if ck is None and not mentioned:
            self.res.ok(f"{key} line {e.ins.line}: class established by the caller")
            return
        for combo in itertools.product(ALL, repeat=len(con)):
            m = Model(dict(zip(con, map(C, combo))))
            vals = [inst(x, m) for x in facts]
            if any(v is FALSE for v in vals):
                continue
            t = cint(inst(A(tag) if tag.kind != "poly" else tag, m))
            if t is None:
                self.res.skip(key, f"tag {show(tag)[:60]}")
                return
            if t != c:
                if any(contains(v, lambda z: z.kind in ("unk", "phi", "rphi", "big", "cut", "x")) for v in vals if v is not TRUE):
                    self.res.skip(key, f"line {e.ins.line}: condition not resolved")
                    return
                d = ", ".join(f"{show(a, an.names)} = {NAME[v]}" for a, v in zip(con, combo))
                self.res.bad(key, f"{fn.name}: {what} of an object of class {NAME.get(t, t)} is treated as {NAME[c]}" + (f" when {d}" if d else ""), self.ctx.where(fn, e.ins.line))
                return
        self.res.ok(f"{key} line {e.ins.line}: always {NAME[c]}")


def known_class(facts, tag):
    """the class the facts pin the tag to"""
    for x in facts:
        if x.kind == "eq0" and contains(x, lambda y: y is tag):
            vs = [c for c in ALL if inst(x, Model({tag: C(c)})) is TRUE]
            if len(vs) == 1:
                return vs[0]
    return None


class Pairs:
    """a class tag and the options handed over together belong to the same options object"""

    def __init__(self, ctx, eng, res):
        self.ctx, self.eng, self.res, self.prog = ctx, eng, res, ctx.prog
        fs = [n for n, _ in self.prog.fields.get("struct.OneApproxOpts", ())]
        self.fc, self.ao = ("struct.OneApproxOpts", fs.index("fc")), ("struct.OneApproxOpts", fs.index("aopts"))

    def run(self):
        n = 0
        for name, fn in sorted(self.prog.functions.items()):
            an = self.eng.an.get(name)
            if an is None:
                continue
            for e in an.effects:
                if e.kind != "call" or not isinstance(e.callee, str) or e.callee not in self.prog.functions or e.block not in self.eng.cfg(name).live:
                    continue
                pts = self.prog.functions[e.callee].ptypes
                fi = [i for i, t in enumerate(pts) if getattr(t, "name", None) == "function_class" and t.kind != "ptr"]
                vi = [i for i, t in enumerate(pts) if t.kind == "ptr" and i in [j + 1 for j in fi] and str(t).replace("const ", "") == "void*"]
                if len(fi) != 1 or len(vi) != 1 or fi[0] >= len(e.args) or vi[0] >= len(e.args):
                    continue
                f, v = strip(an.fa.closed(e.args[fi[0]])), strip(an.fa.closed(e.args[vi[0]]))
                a = self.owner(f, self.fc)
                b = self.owner(v, self.ao)
                key = f"pair:{name}:{e.callee}"
                if a is None or b is None:
                    continue
                n += 1
                if a is b:
                    self.res.ok(f"{key} line {e.ins.line}: {show(a, an.names)[:60]}")
                elif unclear_obj(a) or unclear_obj(b):
                    self.res.skip(key, f"line {e.ins.line}: {show(a)[:40]} / {show(b)[:40]}")
                else:
                    self.res.bad(key, f"{name}: passes the class of {show(a, an.names)[:80]} with the options of {show(b, an.names)[:80]} to {e.callee}", self.ctx.where(fn, e.ins.line))
        return n

    def owner(self, x, slot):
        y = atom_of(x) if x.kind == "poly" else (x.a[0] if x.kind == "ptr" and not x.a[1] else None)
        if y is None or y.kind != "ld":
            return None
        l = y.a[0]
        if l.kind == "ptr" and l.a[1] and l.a[1][-1][0] == "F" and l.a[1][-1][1:] == slot:
            return strip(PTR(l.a[0], l.a[1][:-1]))
        return None


def unclear_obj(n):
    return contains(n, lambda x: x.kind in ("x", "cut", "big", "phi", "rphi", "unk", "kx", "uninit", "ite"))


def alternatives(v, cond=TRUE, depth=4):
    """[(value, condition)] of a conditional pointer"""
    if v.kind == "ptr" and not v.a[1] and v.a[0].kind == "ite" and depth:
        c, a, b = v.a[0].a
        return alternatives(a, And(cond, c), depth - 1) + alternatives(b, And(cond, Not(c)), depth - 1)
    return [(v, cond)]


class Dispatch:
    def __init__(self, ctx, eng, res, fam):
        self.ctx, self.eng, self.res, self.fam = ctx, eng, res, fam
        self.prog = ctx.prog

    def go(self, ent):
        fn = self.prog.functions.get(ent["fn"])
        if fn is None:
            return 0
        names = ent["params"].split()
        if len(names) != len(fn.ptypes):
            self.res.skip(ent["key"], "signature changed")
            return 1
        fam = self.fam
        S = Summary1(self.eng, fn.name, noinline=set(fam))
        E = Expr(self.prog, fn, names, eng=self.eng)
        for c in ent["classes"]:
            key = f"{ent['key']}:{NAME[c]}"
            try:
                self.one(ent, c, fn, S, E)
                self.res.ok(f"{key} -> {self.callee(ent, c)[0]}")
            except (KeyError, ValueError, AttributeError, TypeError, IndexError) as e:
                if os.environ.get("C3_DEBUG"):
                    raise
                self.res.skip(key, f"contract does not apply any more ({type(e).__name__} {e})")
            except Unresolved as e:
                self.res.skip(key, str(e))
            except Mismatch as e:
                self.res.bad(key, f"{fn.name}: {e.args[0]}", self.ctx.where(fn, e.args[1] if len(e.args) > 1 else None))
        return 1

    def callee(self, ent, c):
        if c in ent["per"]:
            return ent["per"][c]
        if ent["front"]:
            return ent["front"] + "_" + CLS[c], ent["args"]
        return (OPT if ent["opts"] else CLS)[c] + "_" + ent["op"], ent["args"]

    def one(self, ent, c, fn, S, E):
        want, args = self.callee(ent, c)
        d = {}
        if ent["tag"] is None:      # the class is read from a stream: the tag of the object allocated
            tags = [f.args[1] for f in S.effs if f.kind in ("call", "icall") and f.callee == "generic_function_alloc"]
            tags += [f.val for f in S.effs if f.kind == "store" and f.loc.kind == "ptr" and f.loc.a[1] and f.loc.a[1][-1][:2] == ("F", "struct.GenericFunction")
                     and self.prog.fields["struct.GenericFunction"][f.loc.a[1][-1][2]][0] == "fc"]
            at = {strip(atom_of(t)) for t in tags if t.kind == "poly" and atom_of(t) is not None}
            if len(at) != 1:
                raise Unresolved("class read from the stream not resolved")
            d[at.pop()] = C(c)
        else:
            for t in (ent["tag"],) + ent["also"]:
                d[strip(atom_of(E.ev(t)))] = C(c)
        for k, v in ent["fix"].items():
            d[strip(atom_of(E.ev(k)))] = C(v)
        m = Model(d)
        if any(inst(strip(f), m) is FALSE for f in S.facts()):
            raise Unresolved("refused")
        hit = []
        for f in S.effs:
            if f.kind != "call" or not isinstance(f.callee, str) or f.callee not in self.fam:
                if f.kind == "call" and not isinstance(f.callee, str):
                    raise Unresolved(f"line {f.line}: indirect call")
                continue
            g = inst(strip(And(*f.guards)), m) if f.guards else TRUE
            if g is FALSE:
                continue
            hit.append((f, g))
        good = [(f, g) for f, g in hit if f.callee == want]
        for f, g in hit:
            if self.fam[f.callee] != c and f.callee != want:
                if contains(g, lambda x: x in d or x.kind in ("unk", "phi", "rphi", "cut", "big", "x")):
                    raise Unresolved(f"line {f.line}: condition {show(g)[:60]}")
                raise Mismatch(f"under class {NAME[c]} calls {f.callee}", f.line)
        if not good:
            if len(hit) == 1 and hit[0][1] is TRUE and opname(hit[0][0].callee) != opname(want):
                raise Mismatch(f"under class {NAME[c]} calls {hit[0][0].callee} instead of {want}", hit[0][0].line)
            if hit:
                raise Unresolved(f"calls {', '.join(f.callee for f, _ in hit)}")
            if any(f.kind in ("call", "icall") and f.callee not in self.prog.functions and not str(f.callee).startswith("llvm") for f in S.effs if False):
                raise Unresolved("unknown callees")
            raise Mismatch(f"under class {NAME[c]} calls no operation (expected {want})")
        for f, g in good:
            if len(f.args) != len(args):
                raise Unresolved("number of arguments")
            for i, (a, w) in enumerate(zip(f.args, args)):
                if w is None:
                    continue
                a, w = strip(inst(a, m)), strip(inst(E.ev(w), m))
                if a is w or sameval(a, w):
                    continue
                if unclear(a) or contains(a, lambda x: x.kind in ("ite", "sum", "new", "op")):
                    raise Unresolved(f"argument {i + 1} of {f.callee}: {show(a)[:60]}")
                raise Mismatch(f"passes {show(a, S.an.names)} as argument {i + 1} of {f.callee} instead of {show(w, S.an.names)}", f.line)
        if ent["res"]:
            self.result(ent, good, S, E, m)

    def result(self, ent, good, S, E, m):
        rets = [f.ret for f, _ in good]
        leaves = self.leaves(ent, S, m)
        if leaves and all(f.fn == S.name for f, _ in good):
            dests = {f.ins.dest for f, _ in good}
            if leaves <= dests:
                return
            calls = {f.ins.dest: f.callee for f in S.effs if f.kind == "call" and f.fn == S.name and isinstance(f.callee, str)}
            alld = {i.dest: i for b in S.an.fa.fn.blocks.values() for i in b.instrs if i.dest}
            for l in leaves - dests:
                if l in alld and alld[l].op in ("fneg", "fadd", "fsub", "fmul", "add", "sub", "mul") and any(o in dests for o in alld[l].ops):
                    raise Mismatch(f"the result of {good[0][0].callee} is altered before it is passed on", alld[l].line)
                if not leaves & dests and (l not in alld or l in calls and calls[l] in self.fam):
                    raise Mismatch(f"the result of {good[0][0].callee} is not passed on", good[0][0].line)
        if all(g is TRUE and not f.loops for f, g in good) and len(good) > 1 and not ent["front"]:
            raise Mismatch(f"under class {NAME[self.fam[good[0][0].callee]]} calls {good[0][0].callee} {len(good)} times", good[1][0].line)
        if ent["res"] == "ret":
            v = S.an.fa.closed(S.an.ret)
        else:
            o, fld = ent["res"].split(".")
            if o == "ret":
                base = S.ret
                if base is None or base.kind != "ptr":
                    raise Unresolved("result not resolved")
            else:
                base = E.ev(o)
            v = S.an.fa.closed(exit_load(S.an, fieldptr(self.prog, base, "struct.GenericFunction", fld), "ptr"))
        v = self.pick(v, m)
        if any(v is self.pick(r, m) or same(v, r) or same(inst(v, m), inst(r, m)) for r in rets if isinstance(r, Node)):
            return
        if v.kind == "poly" and const_of(v) is not None and all(isinstance(r, Node) and not unclear(r) and const_of(inst(r, m)) is None for r in rets):
            raise Mismatch(f"the result of {good[0][0].callee} is not passed on ({show(v, S.an.names)[:60]})", good[0][0].line)
        if v is NULL:
            raise Mismatch(f"the result of {good[0][0].callee} is not stored", good[0][0].line)
        raise Unresolved(f"result {show(v)[:80]}")

    def leaves(self, ent, S, m):
        """definitions that reach the returned or stored value on the paths the class leaves open"""
        fn = S.an.fa.fn
        cfg = self.eng.cfg(fn.name)
        defs = {i.dest: (i, b) for b, bl in fn.blocks.items() for i in bl.instrs if i.dest}
        roots = []
        if ent["res"] == "ret":
            for b, bl in fn.blocks.items():
                if b in cfg.live and bl.term.op == "ret" and bl.term.ops:
                    roots.append((bl.term.ops[0], b))
        else:
            for f in S.effs:
                if f.kind == "store" and f.fn == fn.name and f.ins.op == "store":
                    l = f.loc
                    if l.kind == "ptr" and l.a[1] and l.a[1][-1][0] == "F" and l.a[1][-1][1] == "struct.GenericFunction" and self.prog.fields["struct.GenericFunction"][l.a[1][-1][2]][0] == "f":
                        g = inst(strip(And(*f.guards)), m) if f.guards else TRUE
                        if g is not FALSE:
                            roots.append((f.ins.ops[0], f.eff.block))
        out, seen = set(), set()
        fa = S.an.fa

        def ok(p, b):
            c = And(reach(S.an, cfg, p), fa.edgecond(p, b) if len(set(fn.blocks[p].succs)) > 1 else TRUE)
            return inst(strip(fa.closed(c)), m) is not FALSE

        def walk(v, b):
            if (v, b) in seen:
                return
            seen.add((v, b))
            d = defs.get(v)
            if d is not None and d[0].op == "phi" and not (d[1] in cfg.loops):
                for x, p in zip(d[0].ops, d[0].extra):
                    if p in cfg.live and ok(p, d[1]):
                        walk(x, p)
            elif d is not None and d[0].op in ("bitcast",):
                walk(d[0].ops[0], b)
            else:
                out.add(v)
        for v, b in roots:
            walk(v, b)
        return out

    def pick(self, v, m):
        while True:
            a = v.a[0] if v.kind == "ptr" and not v.a[1] else (atom_of(v) if v.kind == "poly" else None)
            if a is None or a.kind != "ite":
                return v
            c = inst(strip(a.a[0]), m)
            if c is TRUE:
                v = a.a[1]
            elif c is FALSE:
                v = a.a[2]
            else:
                return v


def same(a, b):
    return strip(a) is strip(b)


def opname(n):
    for p in sorted(list(CLS.values()) + list(OPT.values()), key=len, reverse=True):
        if n.startswith(p + "_"):
            return n[len(p) + 1:]
        if n.endswith("_" + p):
            return n[:-len(p) - 1]
    return n


GENERIC = [
 K(G + "daxpby:same", "a x b y", "", fix={"x.fc": 3, "y.fc": 3}, calls=[(G + "copy", ["x"], ""), (G + "scale", ["a", None], ""), (G + "axpy", ["b", "y", None], "")]),
 K(G + "daxpby:onlyy", "a x b y", "", null=("x",), calls=[(G + "copy", ["y"], ""), (G + "scale", ["b", None], "")]),
 K(G + "daxpby:onlyx", "a x b y", "", null=("y",), calls=[(G + "copy", ["x"], ""), (G + "scale", ["a", None], "")]),
 K(G + "daxpby:mixed", "a x b y", "", fix={"x.fc": 0, "y.fc": 1}, calls=[("piecewise_poly_daxpby", ["a", "x.f", "b", None], "")]),
 K(G + "daxpby:mixed2", "a x b y", "", fix={"x.fc": 1, "y.fc": 0}, calls=[("piecewise_poly_daxpby", ["a", None, "b", "y.f"], "")]),
]
for c, p in ((LIN, "lin_elem_exp"), (CONST, "const_elem_exp")):
    fam = [q + o for q in CLS.values() if q != p for o in ("_copy", "_scale", "_axpy", "_daxpby")]
    GENERIC.append(K(f"{G}weighted_sum_pa:{p}", "a x b y z", "", fix={"x.fc": c, "y.fc": c}, noinline=fam + [p + "_copy", p + "_scale", p + "_axpy"], rules=[lambda prog, E: null_rule(E, "z[0].f")], calls=[(p + "_copy", ["y.f"], "", fam), (p + "_scale", ["b", None], ""), (p + "_axpy", ["a", "x.f", None], "")]))
GENERIC.append(K(G + "weighted_sum_pa:orth_poly_expansion", "a x b y z", "", fix={"x.fc": POLY, "y.fc": POLY}, rules=[lambda prog, E: null_rule(E, "z[0].f")], calls=[("orth_poly_expansion_daxpby", ["a", "x.f", "b", "y.f"], "")]))
GENERIC.append(K(G + "weighted_sum_pa:kernel_expansion", "a x b y z", "", fix={"x.fc": KER, "y.fc": KER}, calls=[(G + "daxpby", ["a", "x", "b", "y"], "")]))
GENERIC.append(K(G + "weighted_sum_pa:mixed", "a x b y z", "", fix={"x.fc": PW, "y.fc": POLY}, calls=[(G + "daxpby", ["a", "x", "b", "y"], "")]))
GENERIC.append(K(G + "weighted_sum", "a x b y", "", calls=[(G + "daxpby", ["a", "x", "b", "y"], "")]))


def null_rule(E, e):
    p = strip(E.ev(e))

    def rule(x):
        return NULL if p.kind == "ptr" and x is p.a[0] else None
    return rule


def run(ctx):
    res = Result()
    res.rule = ("for every generic operation and every representation, the calls that remain when the class tag is fixed are extracted from the compiled code: exactly the "
                "implementation of the same operation for that representation is reached, with the operands in their documented roles, and its result is what is returned or stored; "
                "for every operand taken from a tagged slot the conditions on the path imply the class whose implementation receives it; results are stored under the tag of their class")
    res.assumptions = ["where a function does not test the class at all, its caller has established it", "the tag of an object is not changed by another thread"]
    eng = ctx.full()
    fam = families(ctx.prog)
    d = Dispatch(ctx, eng, res, fam)
    n = sum(d.go(e) for e in TABLE)
    n += run_all(ctx, eng, res, GENERIC)
    k = Tags(ctx, eng, res).run()
    k += Pairs(ctx, eng, res).run()
    if n < 10 or k < 20:
        raise Anchor(f"only {n} generic operations and {k} tagged operands found")
    res.minimum = 60
    return res
