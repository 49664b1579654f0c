"""C05: destructors release everything the object owns, once."""
import os
from ..core import Result, Anchor
from ..serial import *
from ..shapes import SHAPES
from .. import sym
from ..maps import baseline_functions
from ..own import Own, sharing

# ownership as far as release is concerned (see sa/shapes.py for the notation)
OWN = dict(SHAPES)
OWN.update({
    "LinElemExp": {"nodes": "own d", "coeff": "own d", "diff": "own d", "Lp": "own d"},
    "ConstElemExp": {"nodes": "own d", "coeff": "own d", "diff": "own d"},
    "FunctionTrain": {"ranks": "own u", "cores": "objs Qmarray dim", "evalspace1": "obj FTMemSpace", "evalspace2": "obj FTMemSpace",
                      "evalspace3": "obj FTMemSpace", "evalspace4": "objs FTMemSpace dim", "evaldd1": "arrs d dim", "evaldd3": "arrs d dim", "evaldd4": "arrs d dim"},
    "FiberOptArgs": {"opts": "own p"},
    "MultiApproxOpts": {"aopts": "own p"},
    "C3SobolSensitivity": {"total_effects": "own d", "interactions": "objs SInteract dim"},
    "SInteract": {"label": "own u", "leaves": "objs SInteract nleaves"},
    "SLMemManager": {"running_eval": "own d", "running_grad": "own d", "running_lr": "arrs2 dim N", "running_rl": "arrs2 dim N", "evals": "obj DblMemArray",
                     "grad": "obj DblMemArray", "lin_structure_vals": "own d"},
    "C3Approx": {"fapp": "obj MultiApproxOpts", "fopt": "obj FiberOptArgs", "isl": "objs CrossIndex dim", "isr": "objs CrossIndex dim", "fca": "obj FtCrossArgs",
                 "reg": "obj FTRegress", "ftref": "obj FunctionTrain"},
    "ConstElemExpAopts": {"nodes": "own d"}, "LinElemExpAopts": {"nodes": "own d"},
    "OpeOpts": {}, "PwPolyOpts": {"pts": "own d", "opeopts": "obj OpeOpts"}, "QR": {"mat": "own d", "Q": "obj Qmarray"},
    "Fwrap": {"arrfuncs": "own p", "farrargs": "own p", "f": "ref", "fargs": "ref", "mofvec": "ref", "fvec": "ref", "intf": "ref", "fiber_vals": "ref"},
    "RegressOpts": {"restrict_rank_opt": "own u", "stored_fvals": "own d", "sample_weights": "ref"},
    "FTRegress": {"ftp": "obj FTparam", "regopts": "obj RegressOpts", "approx_opts": "ref"},
    "CrossValidate": {"x": "ref", "y": "ref"}, "RegParameter": {}, "CVCase": {"params": "objs RegParameter nparam"},
    "CVCList": {"cv": "obj CVCase", "next": "obj CVCList"}, "CVOptGrid": {"types": "own u", "nvals": "own u", "params": "arrs v ncvparam"},
    "Data": {"xpointer": "own d", "x": "ref", "y": "ref"}, "LinElemXY": {"next": "obj LinElemXY"},
    "ObjectiveFunction": {"next": "obj ObjectiveFunction", "arg": "ref", "func": "ref"},
    "Regress1DOpts": {"gf": "obj GenericFunction", "eval": "own d", "grad": "own d", "resid": "own d", "x": "ref", "y": "ref", "aopts": "ref", "init_param": "ref"},
    "OneApproxOpts": {"aopts": "any"}, "c3opt_lbfgs_data": {"s": "own d", "y": "own d", "next": "ref", "prev": "ref"},
    "HashtableCpair": {"table": "objs PairList size"},
    "OperatorForLaplace": {"op": "arrs p dim", "opLP": "arrs d dim"},
    "tt_cross_opts": {"ranks": "own u", "nvals": "own u", "right": "objs index_set dim", "left": "objs index_set dim", "fibers": "objs cross_fiber_info dim"},
})
CLASSES = {"PIECEWISE": 0, "POLYNOMIAL": 1, "CONSTELM": 2, "LINELM": 3, "KERNEL": 4}
FOBJ = {0: "PiecewisePoly", 1: "OrthPolyExpansion", 2: "ConstElemExp", 3: "LinElemExp", 4: "KernelExpansion"}
AOBJ = {0: "PwPolyOpts", 1: "OpeOpts", 2: "ConstElemExpAopts", 3: "LinElemExpAopts", 4: "KernelApproxOpts"}


class D:
    """what a destructor releases: form in one, deep (pointer to the pointer), inside (contents only), arr"""
    def __init__(self, struct, form="one", arg=0, count=None, null=True, variants=({},)):
        self.struct, self.form, self.arg, self.count, self.null, self.variants = struct, form, arg, count, null, variants


def V(key, *vals):
    return tuple({key: v} for v in vals)


# fields not owned under a setting: (struct, field) -> condition on the setting
UNLESS = {
    ("ConstElemExpAopts", "nodes"): ("ConstElemExpAopts.node_alloc", (1,)), ("LinElemExpAopts", "nodes"): ("LinElemExpAopts.node_alloc", (1,)),
    ("PwPolyOpts", "pts"): ("PwPolyOpts.pts_alloc", (1,)), ("PiecewisePoly", "branches"): ("PiecewisePoly.leaf", (0,)), ("PiecewisePoly", "ope"): ("PiecewisePoly.leaf", (1,)),
    ("OrthPolyExpansion", "ccoeff"): ("OrthPoly.ptype", (4,)), ("Fwrap", "arrfuncs"): ("Fwrap.ftype", (4,)), ("Fwrap", "farrargs"): ("Fwrap.ftype", (4,)),
    ("C3Approx", "isl"): ("C3Approx.type", (0,)), ("C3Approx", "isr"): ("C3Approx.type", (0,)), ("C3Approx", "fca"): ("C3Approx.type", (0,)), ("C3Approx", "reg"): ("C3Approx.type", (1,)),
}
FCV = V("GenericFunction.fc", 0, 1, 2, 3, 4)
AOV = V("OneApproxOpts.fc", 0, 1, 2, 3, 4)
LEAF = V("PiecewisePoly.leaf", 0, 1)
DTORS = {
    "bounding_box_free": D("BoundingBox"), "c3_sobol_sensitivity_free": D("C3SobolSensitivity"), "c3approx_destroy": D("C3Approx", variants=V("C3Approx.type", 0, 1)),
    "c3ls_free": D("c3LS"), "c3sgd_free": D("c3SGD"), "c3opt_free": D("c3Opt"), "c3opt_lbfgs_data_free_contents": D("c3opt_lbfgs_data", "inside"),
    "c3vector_free": D("c3Vector"), "c3vector_array_free": D("c3Vector", "arr", 1, 0),
    "const_elem_exp_aopts_free": D("ConstElemExpAopts", variants=V("ConstElemExpAopts.node_alloc", 0, 1)),
    "const_elem_exp_aopts_free_deep": D("ConstElemExpAopts", "deep", variants=V("ConstElemExpAopts.node_alloc", 0, 1)),
    "lin_elem_exp_aopts_free": D("LinElemExpAopts", variants=V("LinElemExpAopts.node_alloc", 0, 1)),
    "lin_elem_exp_aopts_free_deep": D("LinElemExpAopts", "deep", variants=V("LinElemExpAopts.node_alloc", 0, 1)),
    "const_elem_exp_free": D("ConstElemExp"), "lin_elem_exp_free": D("LinElemExp"), "cpair_free": D("Cpair", null=False),
    "cross_index_free": D("CrossIndex"), "cross_node_free": D("CrossNode"), "cross_validate_free": D("CrossValidate"), "cv_case_free": D("CVCase"),
    "cv_opt_grid_free": D("CVOptGrid"), "cvc_list_free": D("CVCList"), "data_free": D("Data"), "dbl_mem_array_free": D("DblMemArray"),
    "dbl_mem_array_arr_free": D("DblMemArray", "arr", 1, 0), "destroy_operator_for_laplace": D("OperatorForLaplace"),
    "fiber_cut_free": D("FiberCut", null=False), "fiber_cut_array_free": D("FiberCut", "arr", 1, 0, null=False), "fiber_opt_args_free": D("FiberOptArgs"),
    "free_cross_opts": D("tt_cross_opts", "deep", null=False), "free_dd": D(None, "arr", 1, 0), "free_hashtable_cp": D("HashtableCpair"),
    "free_index_set": D("index_set", "deep", null=False), "free_orth_poly": D("OrthPoly"), "free_skf": D("sk_decomp", "deep", null=False),
    "free_tensor": D("tensor", "deep", null=False), "freemat": D("mat", null=False), "freett": D("tt", null=False), "ft1d_array_free": D("FT1DArray"),
    "ft_cross_args_free": D("FtCrossArgs"), "ft_mem_space_free": D("FTMemSpace"), "ft_mem_space_arr_free": D("FTMemSpace", "arr", 1, 0), "ft_param_free": D("FTparam"),
    "ft_regress_free": D("FTRegress"), "function_monitor_free": D("FunctionMonitor"), "function_train_free": D("FunctionTrain"),
    "fwrap_destroy": D("Fwrap", variants=V("Fwrap.ftype", 0, 1, 2, 4)), "generic_function_free": D("GenericFunction", variants=FCV),
    "generic_function_array_free": D("GenericFunction", "arr", 0, 1), "index_list_destroy": D("IndexList"), "kernel_approx_opts_free": D("KernelApproxOpts"),
    "kernel_free": D("Kernel"), "kernel_array_free": D("Kernel", "arr", 1, 0), "kernel_expansion_free": D("KernelExpansion"), "likelihood_free": D("Likelihood"),
    "lin_elem_xy_free": D("LinElemXY"), "linear_transform_free": D("LinearTransform"), "multi_approx_opts_free": D("MultiApproxOpts"),
    "objective_function_free": D("ObjectiveFunction", "deep"), "one_approx_opts_free_deep": D("OneApproxOpts", "deep", variants=AOV),
    "ope_opts_free": D("OpeOpts"), "ope_opts_free_deep": D("OpeOpts", "deep"), "orth_poly_expansion_free": D("OrthPolyExpansion", variants=V("OrthPoly.ptype", 0, 1, 2, 4)),
    "pair_list_delete": D("PairList", "deep", null=False), "piecewise_poly_free": D("PiecewisePoly", variants=LEAF), "piecewise_poly_array_free": D("PiecewisePoly", "arr", 0, 1),
    "piecewise_poly_free_inside": D("PiecewisePoly", "inside", variants=LEAF, null=False), "pivot_free": D("Pivot"), "pivot_set_destroy": D("PivotSet"),
    "probability_density_free": D("ProbabilityDensity", variants=({"ProbabilityDensity.extra": None},)), "pw_poly_opts_free": D("PwPolyOpts", variants=V("PwPolyOpts.pts_alloc", 0, 1)),
    "qmarray_free": D("Qmarray"), "qr_free": D("QR"), "qr_array_free": D("QR", "arr", 0, 1), "quasimatrix_free": D("Quasimatrix"),
    "quasimatrix_free_funcs": D("Quasimatrix", "inside", null=False), "reg_parameter_free": D("RegParameter"), "regress_1d_opts_destroy": D("Regress1DOpts"),
    "regress_opts_free": D("RegressOpts"), "sinteract_free": D("SInteract"), "sl_mem_manager_free": D("SLMemManager"), "space_mapping_free": D("SpaceMapping"),
    "standard_poly_free": D("StandardPoly", null=False),
    "DeleteFiberList": D("fiber_list", "deep", null=False), "DeleteCrossFiberList": D("cross_fiber_list", "deep", null=False),
}
# fields that come and go independently of the others
LAZY = {"FunctionTrain": "evalspace1 evalspace2 evalspace3 evalspace4 evaldd1 evaldd3 evaldd4", "c3Opt": "stored_grad stored_func stored_x workspace ls sgd lb ub",
        "RegressOpts": "stored_fvals", "LinElemExp": "diff Lp", "ConstElemExp": "diff", "C3Approx": "ftref fopt fapp fca reg", "FTparam": "ft params",
        "SLMemManager": "evals grad lin_structure_vals", "ProbabilityDensity": "pdf lt", "GenericFunction": "f", "FTRegress": "ftp regopts", "Data": "xpointer",
        "KernelApproxOpts": "centers other_params"}
VOIDOBJ = {"GenericFunction.f": ("GenericFunction.fc", FOBJ), "OneApproxOpts.aopts": ("OneApproxOpts.fc", AOBJ)}


class Entry(Mem):
    """loads that no write precedes see the memory at entry"""

    def get(self, x, default=None):
        if x.kind == "ld":
            tags = set()
            flat_tags(x.a[1], tags)
            if not tags:
                r = self.env.get(x)
                return r if r is not None else self.d.get(x, default)
        return super().get(x, default)


class One:
    def __init__(self, ctx, eng, res, name, d, variant, ones):
        self.ctx, self.eng, self.res, self.name, self.d = ctx, eng, res, name, d
        self.prog = ctx.prog
        self.variant = {k: (NULL if v is None else C(v)) for k, v in variant.items()}
        self.setv = variant
        self.m = Entry(self.prog, self.variant)
        if ones:
            self.m.auto = Ones()
        self.label = name + "".join(f"[{k.split('.')[1]}={v}]" for k, v in variant.items())

    def key(self, what):
        return f"C05:{self.name}:{what}"

    def tokens(self):
        """releases in execution order: (kind, struct, pointer)"""
        out = []
        prog, eng, m = self.prog, self.eng, self.m
        base = baseline_functions()
        keep = set(DTORS)
        effs = flat(eng, self.name, inline=lambda c: c not in keep and c in prog.functions and (c not in base or c.startswith(("free", "delete"))), depth=4, kinds=("store", "call"))
        for f in iterate(effs, m):
            if f.kind == "store":
                m.put(inst(f.loc, m), inst(f.val, m), ("s", f.fn, f.ins.idx))
                continue
            c = f.callee if isinstance(f.callee, str) else None
            if c == "free":
                self.emit(out, "free", None, inst(f.args[0], m), f)
            elif c in DTORS:
                d = DTORS[c]
                p = inst(f.args[d.arg], m)
                if p is NULL and d.null:
                    continue
                if d.form == "arr":
                    n = cint(inst(f.args[d.count], m))
                    if n is None or p.kind != "ptr":
                        raise Unresolved(f"line {f.line}: array of unknown length")
                    for i in range(n):
                        el = self.deref(addstep(p, ("I", C(i), "ptr")))
                        self.emit(out, "obj" if d.struct else "free", d.struct, el, f)
                    self.emit(out, "free", None, p, f)
                elif d.form == "deep":
                    v = self.m.cur(p)
                    self.emit(out, "obj", d.struct, v if v is not None else self.deref(p), f)
                    m.put(p, NULL, ("c", f.fn, f.ins.idx))
                else:
                    self.emit(out, "obj" if d.form == "one" else "inside", d.struct, p, f)
            elif c in ("printf", "fprintf", "exit", "puts", "fwrite", "fputc", "abort", "__assert_fail") or (c or "").startswith("llvm."):
                pass
            else:
                raise Unresolved(f"line {f.line}: calls {c or 'an unknown function'}")
        return out

    def deref(self, loc):
        return inst(PTR(N("ld", norm(loc), 0)), self.m)

    def emit(self, out, kind, struct, p, f):
        if p is NULL:
            return
        if p.kind != "ptr":
            raise Unresolved(f"line {f.line}: releases {show(p)[:60]}")
        out.append((kind, struct, canon(p), f))

    def need(self, struct, p, depth=0, inside=False):
        """obligations: (kind, struct, pointer, description)"""
        out = []
        for f, spec in OWN[struct].items():
            w = spec.split()
            if w[0] == "scratch":
                w = w[1:]
            if w[0] == "ref":
                continue
            u = UNLESS.get((struct, f))
            if u is not None:
                v = self.setv.get(u[0])
                if v is None or v not in u[1]:
                    continue
            loc = fieldptr(self.prog, p, "struct." + struct, f)
            val = self.deref(loc)
            if val is NULL:
                continue
            what = f"{struct}.{f}"
            if w[0] in ("own", "objs", "arrs", "arrs2"):
                out.append(("free", None, canon(val), what))
            if w[0] == "obj":
                out.append(("obj", w[1], canon(val), what))
            elif w[0] == "any":
                t = VOIDOBJ.get(what)
                if t is None or t[0] not in self.setv:
                    continue
                out.append(("obj", t[1][self.setv[t[0]]], canon(val), what))
            elif w[0] in ("objs", "arrs"):
                n = self.count(struct, w[2], p)
                if n is None:
                    self.res.skip(f"{self.label} {what}", "number of elements")
                    continue
                for i in range(n):
                    el = self.deref(addstep(val, ("I", C(i), "ptr")))
                    out.append(("obj" if w[0] == "objs" else "free", w[1] if w[0] == "objs" else None, canon(el), f"{what}[{i}]"))
            elif w[0] == "arrs2":
                n, k = self.count(struct, w[1], p), self.count(struct, w[2], p)
                for i in range(n):
                    row = self.deref(addstep(val, ("I", C(i), "ptr")))
                    out.append(("free", None, canon(row), f"{what}[{i}]"))
                    for j in range(k):
                        out.append(("free", None, canon(self.deref(addstep(row, ("I", C(j), "ptr")))), f"{what}[{i}][{j}]"))
        if not inside:
            out.append(("free", None, canon(p), "the object itself"))
        return out

    def count(self, struct, e, p):
        env = {}
        for n, _ in self.prog.fields["struct." + struct]:
            if n in e:
                v = cint(inst(A(N("ld", fieldptr(self.prog, p, "struct." + struct, n), 0)), self.m))
                if v is not None:
                    env[n] = v
        try:
            return eval(e, {}, env)
        except Exception:
            return None

    def satisfied(self, o, have, used, depth=0):
        kind, struct, p, what = o
        if ("free", p) in have and kind == "free":
            used.add(("free", p))
            return None
        if kind == "obj":
            if ("obj", p) in have:
                s = have[("obj", p)][1]
                if s != struct:
                    return f"is released as a {s}, it is a {struct}"
                used.add(("obj", p))
                return None
            if ("free", p) in have:
                used.add(("free", p))
                sub = self.need(struct, p, depth + 1, inside=True)
                if ("inside", p) in have:
                    used.add(("inside", p))
                    return None
                for s in sub:
                    if depth > 4:
                        raise Unresolved("deeply nested")
                    r = self.satisfied(s, have, used, depth + 1)
                    if r:
                        return f"is released but its {s[3]} {r}"
                return None
        return "is never released"

    def go(self):
        d, res = self.d, self.res
        toks = self.tokens()
        have = {}
        for k, s, p, f in toks:
            if (k, p) in have or (k == "free" and ("obj", p) in have) or (k == "obj" and ("free", p) in have):
                g = (have.get((k, p)) or have.get(("obj", p)) or have.get(("free", p)))[2]
                res.bad(self.key("twice"), f"{show(p, self.eng.an[self.name].names)[:60]} is released twice (also at line {g.line})", self.ctx.where(f.fn, f.line))
                return
            have[(k, p)] = (k, s, f)
        A0 = PTR(N("arg", d.arg))
        used = set()
        if d.form == "arr":
            n = cint(inst(A(N("arg", d.count)), self.m))
            need = [("free", None, canon(A0), "the array itself")]
            for i in range(n):
                el = self.orig(addstep(A0, ("I", C(i), "ptr")))
                need.append(("obj" if d.struct else "free", d.struct, canon(el), f"element {i}"))
        else:
            obj = A0 if d.form != "deep" else self.orig(A0)
            if ("inside", canon(obj)) in have:
                used.add(("inside", canon(obj)))
                need = [("free", None, canon(obj), "the object itself")]
            else:
                self.fresh()
                need = self.need(d.struct, obj, inside=d.form == "inside")
        ok = 0
        for o in need:
            self.fresh()
            r = self.satisfied(o, have, used)
            if r:
                res.bad(self.key(o[3]), f"{o[3]} {r} ({self.label})", self.ctx.where(self.name))
            else:
                ok += 1
        for t in have:
            if t not in used:
                f = have[t][2]
                w = self.reffield(t[1])
                if w:
                    res.bad(self.key("foreign:" + w), f"{w} is supplied by the caller and must not be released ({self.label})", self.ctx.where(f.fn, f.line))
                else:
                    res.skip(self.label, f"also releases {show(t[1], self.eng.an[self.name].names)[:60]}")
        res.ok(f"{self.label}: {ok} of {len(need)} owned items released once ({', '.join(o[3] for o in need)[:120]})")

    def walk(self):
        """a loop down a linked list: every node and what it owns is released in each round"""
        d, res = self.d, self.res
        effs = [f for f in flat(self.eng, self.name, inline=lambda c: False, kinds=("call",)) if f.loops and isinstance(f.callee, str) and (f.callee == "free" or f.callee in DTORS)]
        node = next((f.args[0].a[0] for f in effs if f.callee == "free" and f.args[0].kind == "ptr" and not f.args[0].a[1] and f.args[0].a[0].kind == "rphi"), None)
        if node is None:
            raise Unresolved("list not recognised")
        P0 = PTR(node)
        have = {}
        for f in effs:
            p = f.args[DTORS[f.callee].arg] if f.callee in DTORS else f.args[0]
            if f.guards and any(contains(g, lambda y: y.kind == "rphi") and not self.nullguard(g, node) for g in f.guards):
                raise Unresolved(f"line {f.line}: conditional release")
            k = (DTORS[f.callee].struct if f.callee in DTORS else None, canon(p))
            if k in have:
                res.bad(self.key("twice"), f"{show(p)[:50]} is released twice in one round", self.ctx.where(f.fn, f.line))
                return
            have[k] = f
        need = [("the node itself", None, P0)]
        for f, spec in OWN[d.struct].items():
            if f == "next" or spec == "ref":
                continue
            loc = fieldptr(self.prog, P0, "struct." + d.struct, f)
            need.append((f"{d.struct}.{f}", spec.split()[1] if spec.startswith("obj ") else None, PTR(N("ld", norm(loc), 0))))
        for what, st, p in need:
            if (st, canon(p)) not in have:
                res.bad(self.key(what), f"{what} of the list nodes is not released", self.ctx.where(self.name))
                return
        res.ok(f"{self.label}: every node of the list releases {', '.join(n[0] for n in need)}")

    def nullguard(self, g, node):
        x = g.a[0] if g.kind == "not" else g
        return x.kind == "peq" and NULL in x.a

    def fresh(self):
        """forget what the destructor stored"""
        self.m.hist = {}

    def orig(self, loc):
        self.fresh()
        return self.deref(loc)

    def reffield(self, p):
        """a field documented as the caller's, or not owned under this setting"""
        b = p.a[0]
        if p.a[1] or b.kind != "ld":
            return None
        loc = b.a[0]
        if loc.kind != "ptr" or not loc.a[1] or loc.a[1][-1][0] != "F":
            return None
        st = loc.a[1][-1]
        s = st[1].replace("struct.", "")
        fs = self.prog.fields.get(st[1])
        if fs is None or s not in OWN:
            return None
        f = fs[st[2]][0]
        if OWN[s].get(f) == "ref":
            return f"{s}.{f}"
        u = UNLESS.get((s, f))
        if u is not None and u[0] in self.setv and self.setv[u[0]] not in u[1] and u[0].endswith("alloc"):
            return f"{s}.{f}"
        return None

    def nulls(self):
        """a null object: nothing is dereferenced or released"""
        d, res = self.d, self.res
        m = Mem(self.prog, self.variant)
        A0 = PTR(N("arg", d.arg))
        if d.form == "deep":
            m.hist[norm(A0)] = [(0, NULL)]
        else:
            m.env[N("arg", d.arg)] = NULL
        for f in flat(self.eng, self.name, inline=lambda c: False, kinds=("store", "call")):
            g = inst(And(*f.guards), m) if f.guards else TRUE
            if g is FALSE:
                continue
            if f.kind == "call":
                c = f.callee if isinstance(f.callee, str) else ""
                if f.loops or c.startswith("llvm.") or all(inst(a, m) is NULL for a in f.args if a.kind == "ptr"):
                    continue
            if g is not TRUE:
                continue
            p = f.loc if f.kind == "store" else next((a for a in f.args if isinstance(a, Node) and a.kind == "ptr"), None)
            if p is None or not contains(p, lambda y: y.kind == "arg" and y.a[0] == d.arg) or f.loops:
                continue
            if d.form == "deep" and f.kind == "store" and norm(f.loc) is norm(A0):
                continue
            if not contains(p, lambda y: y.kind == "ld"):
                continue
            res.bad(self.key("null"), f"a null object is dereferenced ({self.label})", self.ctx.where(f.fn, f.line))
            return
        res.ok(f"{self.label}: a null object is accepted")


class Ones(dict):
    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return 1


def canon(p):
    return subst(norm(p), lambda x: N("ld", canon(x.a[0]), 0) if x.kind == "ld" else None, {}) if p.kind == "ptr" else p


def run(ctx):
    res = Result()
    res.rule = ("dataflow summary of every destructor: the storage released on the way through it, as access paths from the object at small distinct extents and for every "
                "class tag, is compared with what the ownership table says the object owns; nothing may be missing, released twice, or belong to the caller; and no pointer the caller's object owns, no const argument and no single new object is "
                "stored into (several) places whose destructors release it")
    res.minimum = 80
    res.assumptions = ["nested objects are released by their own destructor, which is checked by itself", "linked lists walked by a loop are undecided"]
    prog = ctx.prog
    names = [n for n in DTORS if n in prog.functions]
    if len(names) < 50:
        raise Anchor("destructors not found")
    for n in DTORS:
        if n not in prog.functions:
            res.skip(n, "not in the tree")
    eng = ctx.need(names)
    for n in names:
        d = DTORS[n]
        vs = [(v, o) for v in d.variants for o in (False, True)]
        if d.form in ("one", "deep"):
            vs += [(dict(v, **{f"{d.struct}.{f}": None}), False) for v in d.variants for f in LAZY.get(d.struct, "").split()]
        for v, ones in vs:
            q = One(ctx, eng, res, n, d, v, ones)
            try:
                if d.form == "arr":
                    q.m.d[N("arg", d.count)] = C(1 if ones else 3)
                q.go()
            except Unresolved as e:
                try:
                    if "unknown length" not in str(e) or "next" not in OWN.get(d.struct, {}):
                        raise
                    q.walk()
                except Unresolved as e:
                    res.skip(q.label, str(e))
            except Exception as e:
                if os.environ.get("C3_DEBUG"):
                    raise
                res.skip(q.label, f"internal: {type(e).__name__} {e}")
        if d.null:
            try:
                One(ctx, eng, res, n, d, d.variants[0], False).nulls()
            except Exception as e:
                if os.environ.get("C3_DEBUG"):
                    raise
                res.skip(n + " null", f"internal: {type(e).__name__} {e}")
    owners(ctx, res)
    return res


def owners(ctx, res):
    """storage a destructor releases belongs to one object: no pointer of an object the caller keeps is put into another"""
    owns = set()
    for s, fs in OWN.items():
        for f, k in fs.items():
            w = k.replace("scratch ", "").split()[0]
            if w == "ref" or (s, f) in UNLESS:
                continue
            owns.add((s, f, 1))
            if w in ("objs", "arrs", "arrs2"):
                owns.add((s, f, 2))
    keep = {(n, k) for n, f in ctx.prog.functions.items() for k, t in enumerate(f.ptypes) if t.kind == "ptr" and t.to is not None and t.to.const}
    m = 0
    for n, i, what, bad in sharing(Own(ctx.prog), owns, keep):
        m += 1
        if bad is None:
            res.ok(f"{n}:{i.line}: what is stored in {what} belongs to it")
        else:
            res.bad(f"{n}:{what}:shared", f"{n}: {what} is given {bad}, so two owners release it", ctx.prog.functions[n].where(i.line))
    res.stats["stores_into_owned_places"] = m
