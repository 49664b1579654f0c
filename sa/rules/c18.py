"""C18: the Python interface calls the C library correctly."""
import ast
import os
import re
from ..core import Result, Anchor
from .. import ir
from ..own import Own
from ..pyapi import World, V, Handle, Enum, Obj, Undecided, Raised, labels_of, struct_of, norm, refs, calls_in, txt, Mod, atom, val, size

PY = "wrappers/python/c3py/c3py.py"
SWIG = "wrappers/python/c3swig/c3.i"

# what each argument of a setter stands for: setter -> (position among the Python arguments -> accepted options)
OPT = {
    "ope_opts_set_lb": {1: [{"lb"}]}, "ope_opts_set_ub": {1: [{"ub"}]}, "ope_opts_set_nparams": {1: [{"nparam"}]},
    "ope_opts_set_coeffs_check": {1: [{"coeff_check"}]}, "ope_opts_set_start": {1: [{"nparam"}]}, "ope_opts_set_maxnum": {1: [{"maxnum"}]},
    "ope_opts_set_tol": {1: [{"tol"}]},
    "lin_elem_exp_aopts_alloc": {0: [{"lin_elem_nodes"}, {"lb", "ub", "nparam"}]},
    "kernel_approx_opts_gauss": {1: [{"kernel_nodes"}, {"lb", "ub", "nparam"}], 2: [{"kernel_height_scale"}], 3: [{"kernel_width_scale"}]},
    "kernel_approx_opts_set_center_adapt": {1: [{"kernel_adapt_center"}]},
    "pw_poly_opts_alloc": {1: [{"lb"}], 2: [{"ub"}]}, "pw_poly_opts_set_maxorder": {1: [{"nparam"}]}, "pw_poly_opts_set_coeffs_check": {1: [{"coeff_check"}]},
    "pw_poly_opts_set_tol": {1: [{"tol"}]}, "pw_poly_opts_set_minsize": {1: [{"lb", "ub", "nregions"}]}, "pw_poly_opts_set_nregions": {1: [{"nregions"}]},
    "c3approx_set_verbose": {1: [{"verbose"}]}, "c3approx_set_cross_tol": {1: [{"cross_tol"}]}, "c3approx_set_cross_maxiter": {1: [{"maxiter"}]},
    "c3approx_set_round_tol": {1: [{"round_tol"}]}, "c3approx_set_adapt_maxrank_all": {1: [{"maxrank"}]}, "c3approx_set_adapt_kickrank": {1: [{"kickrank"}]},
    "c3approx_do_cross": {2: [{"adapt"}]}, "fwrap_set_pyfunc": {1: [{"f"}], 2: [{"fargs"}]}, "c3approx_init_cross_het": {2: [{"verbose"}]},
    "ft_regress_set_regularization_weight": {1: [{"regweight"}]}, "ft_regress_set_max_als_sweep": {1: [{"als_max_sweep"}]},
    "ft_regress_set_als_conv_tol": {1: [{"opt_relftol"}]}, "ft_regress_set_adapt": {1: [{"adaptrank"}]}, "ft_regress_set_roundtol": {1: [{"roundtol"}]},
    "ft_regress_set_maxrank": {1: [{"maxrank"}]}, "ft_regress_set_kickrank": {1: [{"kickrank"}]}, "ft_regress_set_kfold": {1: [{"kfold"}]},
    "ft_regress_set_verbose": {1: [{"verbose"}]}, "ft_regress_set_seed": {1: [{"seed"}]},
    "ft_regress_run": {2: [{"xdata"}]},
    "cross_validate_init": {1: [{"xdata"}], 3: [{"kfold"}], 4: [{"cvverbose"}]}, "cv_opt_grid_set_verbose": {1: [{"cvverbose"}]},
    "c3opt_set_gtol": {1: [{"opt_gtol"}]}, "c3opt_set_relftol": {1: [{"opt_relftol"}]}, "c3opt_set_absxtol": {1: [{"opt_absxtol"}]},
    "c3opt_set_maxiter": {1: [{"opt_maxiter"}]}, "c3opt_set_sgd_learn_rate": {1: [{"opt_sgd_learn_rate"}]}, "c3opt_set_sgd_nsamples": {1: [{"xdata"}]},
    "function_train_round_maxrank_all": {1: [{"eps"}], 3: [{"maxrank_all"}]},
    "function_train_save": {1: [{"filename"}]}, "function_train_load": {0: [{"filename"}]},
    "function_train_get_gfuni": {1: [{"dim"}], 2: [{"row"}], 3: [{"col"}]},
    "c3_sobol_sensitivity_get_total": {1: [{"index"}]}, "c3_sobol_sensitivity_get_main": {1: [{"index"}]},
    "c3_sobol_sensitivity_get_interaction": {1: [{"variables"}]},
    "ft_param_get_param": {1: [{"param_idx"}]}, "ft_param_update_params": {1: [{"new_params"}]},
    "function_train_poly_randu": {2: [{"ranks"}], 3: [{"maxorder"}]}, "bounding_box_init_std": {0: [{"dim"}]},
}
GRID = {"num_param": "cvnparam", "reg_weight": "cvregweight", "rank": "cvrank"}
TYPES = {"legendre": ("POLYNOMIAL", "OpeOpts", "LEGENDRE"), "hermite": ("POLYNOMIAL", "OpeOpts", "HERMITE"), "fourier": ("POLYNOMIAL", "OpeOpts", "FOURIER"),
         "linelm": ("LINELM", "LinElemExpAopts", None), "kernel": ("KERNEL", "KernelApproxOpts", None), "piecewise": ("PIECEWISE", "PwPolyOpts", "LEGENDRE")}
# options of a function type that have to reach its setter
NEED = {
    "legendre": ["ope_opts_set_lb", "ope_opts_set_ub", "ope_opts_set_nparams", "ope_opts_set_coeffs_check", "ope_opts_set_tol"],
    "hermite": ["ope_opts_set_nparams", "ope_opts_set_coeffs_check", "ope_opts_set_tol"],
    "fourier": ["ope_opts_set_lb", "ope_opts_set_ub", "ope_opts_set_nparams", "ope_opts_set_coeffs_check", "ope_opts_set_tol"],
    "linelm": ["lin_elem_exp_aopts_alloc"],
    "kernel": ["kernel_approx_opts_gauss"],
    "piecewise": ["pw_poly_opts_set_maxorder", "pw_poly_opts_set_coeffs_check", "pw_poly_opts_set_tol", "pw_poly_opts_set_nregions"],
}
NEEDCROSS = ["c3approx_set_verbose", "c3approx_set_cross_tol", "c3approx_set_cross_maxiter", "c3approx_set_round_tol", "c3approx_set_adapt_maxrank_all",
             "c3approx_set_adapt_kickrank", "c3approx_init_cross_het", "fwrap_set_pyfunc"]
NEEDFIT = ["c3opt_set_gtol", "c3opt_set_relftol", "c3opt_set_maxiter", "c3opt_set_absxtol", "ft_regress_set_verbose", "ft_regress_set_alg_and_obj"]
NEEDADAPT = ["ft_regress_set_adapt", "ft_regress_set_roundtol", "ft_regress_set_maxrank", "ft_regress_set_kickrank", "ft_regress_set_kfold"]
DIMOPTS = ["lb", "ub", "nparam", "kernel_height_scale", "kernel_width_scale", "kernel_adapt_center", "lin_elem_nodes", "kernel_nodes", "maxnum", "coeff_check", "tol", "nregions"]

# lengths the wrappers in the interface file have to have checked before they call the library: wrapper -> list of polynomials that are zero
LEN = {
    "function_train_eval": [{("len:evalnd_pt",): 1, ("dim",): -1}],
    "function_train_gradient_eval": [{("len:evalnd_pt",): 1, ("dim",): -1}, {("len:evalnd_out",): 1, ("len:evalnd_pt",): -1}],
    "ft1d_array_eval2": [{("len:evalnd_pt",): 1, ("dim",): -1}, {("len:evalnd_out",): 1, ("len:evalnd_pt", "len:evalnd_pt"): -1}],
    "ft_regress_run": [{("len:xdata",): 1, ("dim", "len:ydata"): -1}],
    "cross_validate_init": [{("len:xdata",): 1, ("dim", "len:ydata"): -1}],
    "c3approx_init_cross_het": [{("len:init_ranks",): 1, ("dim",): -1, (): -1}],
}
ROWS = {"ft_regress_run": 2, "cross_validate_init": 0}      # position of the number of samples among the C parameters
DIMFNS = {"function_train_get_dim", "ft_regress_get_dim", "c3approx_get_dim"}


# --------------------------------------------------------------------------- wrappers of the interface file
def strip(x):
    while x["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr") and x.get("inner"):
        x = x["inner"][-1]
    return x


def poly(x, env):
    x = strip(x)
    k = x["kind"]
    if k == "IntegerLiteral":
        v = int(x["value"])
        return {(): v} if v else {}
    if k == "DeclRefExpr":
        return dict(env.get(x["referencedDecl"]["id"]) or {}) or None
    if k == "CallExpr":
        c = refs(x["inner"][0])
        if c and c[1] in DIMFNS:
            return {("dim",): 1}
        return None
    if k == "BinaryOperator" and x.get("opcode") in ("+", "-", "*"):
        a, b = (poly(y, env) for y in x["inner"])
        if a is None or b is None:
            return None
        out = {}
        if x["opcode"] == "*":
            for m, c in a.items():
                for n, d in b.items():
                    t = tuple(sorted(m + n))
                    out[t] = out.get(t, 0) + c * d
        else:
            s = 1 if x["opcode"] == "+" else -1
            for m, c in a.items():
                out[m] = out.get(m, 0) + c
            for m, c in b.items():
                out[m] = out.get(m, 0) + s * c
        return {m: c for m, c in out.items() if c}
    return None


def unit(p):
    if not p:
        return None
    k = min(p)
    s = 1 if p[k] > 0 else -1
    return tuple(sorted((m, c * s) for m, c in p.items()))


class Opaque(Exception):
    pass


def facts_of(x, env, sense):
    """the equalities that hold where the condition is `sense`"""
    x = strip(x)
    if x["kind"] == "BinaryOperator":
        op = x["opcode"]
        if op in ("||", "&&"):
            if (op == "||") == (not sense):
                return facts_of(x["inner"][0], env, sense) | facts_of(x["inner"][1], env, sense)
            return set()
        if (op == "!=" and not sense) or (op == "==" and sense):
            a, b = (poly(y, env) for y in x["inner"])
            if a is None or b is None:
                return {None}
            d = dict(a)
            for m, c in b.items():
                d[m] = d.get(m, 0) - c
            return {unit({m: c for m, c in d.items() if c})}
        if op in ("==", "!="):
            return set()
        return {None}
    if x["kind"] == "UnaryOperator" and x["opcode"] == "!":
        return facts_of(x["inner"][0], env, not sense)
    return {None}


def wrapper(D):
    """calls of a wrapper with what was checked before: list of (call, facts, after an error was set)"""
    env, names = {}, {}
    for i, p in enumerate(y for y in D.ast["inner"] if y["kind"] == "ParmVarDecl"):
        names[p["id"]] = p.get("name")
    par = [y for y in D.ast["inner"] if y["kind"] == "ParmVarDecl"]
    for s, w in D.slots:
        if w == 2:
            env[par[s]["id"]] = {("len:" + par[s + 1]["name"],): 1}
    for p in par:
        if p["id"] not in env:
            env[p["id"]] = {("dim" if p.get("name") == "dim" else p.get("name", "?"),): 1}
    body = next(y for y in D.ast["inner"] if y["kind"] == "CompoundStmt")
    out = []

    def seterr(x):
        return any((refs(c["inner"][0]) or (0, ""))[1].startswith("PyErr_") for c in calls_in(x, []))

    def go(ss, facts, err):
        """returns (facts, err) at the end or None when control does not get there"""
        for s in ss:
            k = s["kind"]
            if k == "CompoundStmt":
                r = go(s.get("inner", ()), facts, err)
                if r is None:
                    return None
                facts, err = r
            elif k == "IfStmt":
                inn = s["inner"]
                c = inn[0]
                for y in calls_in(c, []):
                    out.append((y, facts, err))
                a = go([inn[1]], facts | facts_of(c, env, True), err)
                f2 = facts | facts_of(c, env, False)
                b = go([inn[2]], f2, err) if len(inn) > 2 else (f2, err)
                if a is None and b is None:
                    return None
                if a is None:
                    facts, err = b
                elif b is None:
                    facts, err = a
                else:
                    facts, err = a[0] & b[0], a[1] or b[1]
            elif k == "ReturnStmt":
                for y in calls_in(s, []):
                    out.append((y, facts, err))
                return None
            elif k == "DeclStmt":
                for y in calls_in(s, []):
                    out.append((y, facts, err))
                for v in s.get("inner", ()):
                    if v["kind"] == "VarDecl" and v.get("inner"):
                        p = poly(v["inner"][-1], env)
                        if p is not None:
                            env[v["id"]] = p
                        r = refs(v["inner"][-1])
                        if r and r[0] in names:
                            names[v["id"]] = names[r[0]]
            elif k in ("WhileStmt", "ForStmt", "DoStmt", "SwitchStmt", "GotoStmt", "LabelStmt"):
                raise Opaque()
            else:
                for y in calls_in(s, []):
                    out.append((y, facts, err))
                if seterr(s):
                    err = True
                if s["kind"] == "BinaryOperator" and s.get("opcode") == "=":
                    t = strip(s["inner"][0])
                    if t["kind"] == "DeclRefExpr":
                        env.pop(t["referencedDecl"]["id"], None)
        return facts, err
    go(body.get("inner", ()), frozenset(), False)
    return [(c, f, e) for c, f, e in out], names, env


def wrappers(ctx, W, res):
    A = W.api
    n = 0
    W.fwd = {}
    for pub, D in sorted(A.wrappers.items()):
        key = f"wrapper {pub}"
        try:
            calls, names, env = wrapper(D)
        except Opaque:
            res.skip(key, "the wrapper is not a sequence of checks and calls")
            continue
        main = [(c, f, e) for c, f, e in calls if (refs(c["inner"][0]) or (0, ""))[1] == pub]
        if not main:
            if not any((refs(c["inner"][0]) or (0, "PyErr_"))[1].startswith("PyErr_") is False and (refs(c["inner"][0]) or (0, ""))[1] not in DIMFNS for c, f, e in calls):
                res.bad(key + ":none", f"the wrapper of {pub} never calls {pub}", SWIG)
            else:
                res.skip(key, "the wrapper calls another function")
            continue
        cd = next((q for q in A.raw.get(pub, ()) if q.ast is None), None)
        F = ctx.prog.functions.get(pub)
        cn = [q for t, q in cd.params] if cd else []
        if F is not None and len(F.params) == len(cd.params if cd else ()):
            nm = param_names(ctx, pub)
            if nm and len(nm) == len(cn):
                cn = [a or b for a, b in zip(nm, cn)]
        for c, facts, err in main:
            n += 1
            args = c["inner"][1:]
            got = []
            for a in args:
                r = refs(a)
                got.append(names.get(r[0]) if r else None)
            W.fwd[pub] = got
            later = [d for d, f, e in calls[[k for k, t in enumerate(calls) if t[0] is c][0] + 1:]]
            W.copied = getattr(W, "copied", set())
            if any(names.get((refs(y) or (0,))[0]) in got for d in later for y in d["inner"][1:] if names.get((refs(y) or (0,))[0])):
                W.copied.add(pub)
            bad = False
            for j, g in enumerate(got):
                if g is None or j >= len(cn):
                    continue
                if cn[j] and cn[j] != g and g in cn:
                    res.bad(f"{key}:{g}", f"the wrapper of {pub} passes its parameter {g} as {cn[j]} (argument {j + 1}) of {pub}, whose argument {cn.index(g) + 1} is {g}", SWIG)
                    bad = True
                t = dict((q, t) for t, q in D.params).get(g, "")
                ct = cd.params[j][0] if cd else ""
                if not bad and re.match(r"^const (double|size_t) \*$", t) and re.match(r"^(double|size_t) \*$", ct) and strip(a := args[j])["kind"] == "DeclRefExpr" and not cast(args[j]):
                    res.bad(f"{key}:{g}:const", f"the wrapper of {pub} passes its read-only parameter {g} as argument {j + 1} of {pub}, which writes to it", SWIG)
                    bad = True
            ptr = [q for t, q in D.params if "*" in t]
            for q in ptr:
                if got.count(q) > 1:
                    res.bad(f"{key}:{q}:twice", f"the wrapper of {pub} passes its parameter {q} {got.count(q)} times", SWIG)
                    bad = True
                elif None not in got and q not in got:
                    res.bad(f"{key}:{q}:lost", f"the wrapper of {pub} does not pass its parameter {q} on", SWIG)
                    bad = True
            if pub in ROWS and len(args) > ROWS[pub]:
                p = poly(args[ROWS[pub]], env)
                if p is not None and p != {("len:ydata",): 1}:
                    if unit({("len:xdata",): 1, ("dim", "len:ydata"): -1}) not in facts or p != {("len:ydata",): 1}:
                        res.bad(f"{key}:rows", f"the wrapper of {pub} passes something else than the number of outputs as the number of samples", SWIG)
                        bad = True
            if err:
                res.bad(f"{key}:error", f"the wrapper of {pub} calls the library after it has reported wrong array lengths", SWIG)
                bad = True
            elif pub in LEN and None not in facts:
                for p in LEN[pub]:
                    if unit(p) not in facts and not implied(p, facts):
                        res.bad(f"{key}:length", f"the wrapper of {pub} calls the library without having checked that {show(p)}", SWIG)
                        bad = True
                        break
            if not bad:
                res.ok(f"{key}: arguments forwarded in order, array lengths checked")
    return n


def cast(x):
    while x["kind"] in ("ImplicitCastExpr", "ParenExpr") and x.get("inner"):
        x = x["inner"][-1]
    return x["kind"] == "CStyleCastExpr"


def implied(p, facts):
    """through dim = len(x)"""
    for f in facts:
        if f is None:
            continue
        d = dict(f)
        if len(d) == 2 and ("dim",) in d:
            o = next(m for m in d if m != ("dim",))
            if d[o] == -d[("dim",)]:
                q = {}
                for g in facts:
                    if g is None:
                        continue
                    s = {}
                    for m, c in g:
                        t = tuple(sorted(sum(((o if y == "dim" else (y,)) for y in m), ())))
                        s[t] = s.get(t, 0) + c
                    r = {}
                    for m, c in p.items():
                        t = tuple(sorted(sum(((o if y == "dim" else (y,)) for y in m), ())))
                        r[t] = r.get(t, 0) + c
                    s, r = ({m: c for m, c in z.items() if c} for z in (s, r))
                    if r and unit(s) == unit(r):
                        return True
    return False


def show(p):
    f = lambda m: "*".join("the dimension" if y == "dim" else "the length of " + y[4:] if y.startswith("len:") else y for y in m) or "1"
    l = [f(m) for m, c in p.items() if c > 0]
    r = [f(m) for m, c in p.items() if c < 0]
    return " + ".join(l) + " is " + " + ".join(r)


def param_names(ctx, name):
    F = ctx.prog.functions.get(name)
    ns = [p[0].lstrip("%") for p in F.params]
    return [None if n.isdigit() else n for n in ns]


# --------------------------------------------------------------------------- every call site
def sites(ctx, W, res):
    alias = {"c3"}
    direct = {}
    for x in ast.walk(W.tree):
        if isinstance(x, ast.Import):
            for a in x.names:
                if a.name == "_c3":
                    alias.add(a.asname or a.name)
        elif isinstance(x, ast.ImportFrom) and x.module == "_c3":
            for a in x.names:
                direct[a.asname or a.name] = a.name
    A = W.api
    defined = set(ctx.prog.functions) | set(A.wrappers) | set(re.findall(r"(?m)^\w[\w\s\*]*?\b(\w+)\s*\([^;{}]*\)\s*\{", A.clean))
    owner = {}
    for f in ast.walk(W.tree):
        if isinstance(f, ast.FunctionDef):
            for x in ast.walk(f):
                owner[id(x)] = f.name
    n = 0
    seen = set()
    called = {}
    for x in ast.walk(W.tree):
        if isinstance(x, ast.Call):
            called[id(x.func)] = x
    for x in ast.walk(W.tree):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in alias:
            name = x.attr
        elif isinstance(x, ast.Name) and x.id in direct and isinstance(x.ctx, ast.Load):
            name = direct[x.id]
        else:
            continue
        n += 1
        where = f"{PY}:{x.lineno}"
        fn = owner.get(id(x), "module")
        c = called.get(id(x))
        if name in A.consts:
            if c is not None:
                res.bad(f"{fn}:{name}:constant", f"{fn} calls the constant {name}", where)
            else:
                seen.add(name)
            continue
        D = A.decls.get(name)
        if D is None:
            res.bad(f"{fn}:{name}", f"{fn} uses {name}, which the interface file does not wrap", where)
            continue
        if D.target in defined or name in defined:
            pass
        else:
            res.bad(f"{fn}:{name}:undefined", f"{fn} calls {name}, which no source file defines", where)
            continue
        if c is None:
            continue
        seen.add(name)
        if c.keywords:
            res.bad(f"{fn}:{name}:keywords", f"{fn} calls {name} with keyword arguments, which the wrapped function does not take", where)
            continue
        if any(isinstance(a, ast.Starred) for a in c.args):
            res.skip(f"{fn}:{name}", "arguments unpacked from a sequence")
            continue
        if len(c.args) != len(D.slots):
            res.bad(f"{fn}:{name}:count", f"{fn} calls {name} with {len(c.args)} arguments; it takes {len(D.slots)}: {D}", where)
        else:
            res.ok(f"{fn}:{x.lineno}: {name} takes {len(D.slots)} arguments")
    if n < 100:
        raise Anchor(f"only {n} uses of the C library in {PY}")
    return n, seen


def temporaries(ctx, W, res):
    """an array whose address a C object keeps has to live as long as the object: it must not be an unnamed temporary"""
    n = 0
    for f in ast.walk(W.tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        for x in ast.walk(f):
            if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "c3"):
                continue
            name = x.func.attr
            D = W.api.decls.get(name)
            if D is None or name in getattr(W, "copied", ()) or len(x.args) != len(D.slots):
                continue
            for i in W.retained(name):
                got = W.fwd.get(name)
                if got is not None:
                    pn = got[i] if i < len(got) else None
                    slot = next((k for k, (a, w) in enumerate(D.slots) if pn and any(D.params[a + t][1] == pn for t in range(w))), None)
                    folded = slot is not None and D.slots[slot][1] == 2
                else:
                    slot = next((k for k, (a, w) in enumerate(D.slots) if a <= i < a + w), None)
                    folded = slot is not None and D.slots[slot][1] == 2
                if slot is None or not folded:
                    continue
                n += 1
                a = x.args[slot]
                used = [y for y in ast.walk(f) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.lineno > x.lineno]
                if isinstance(a, ast.Call) and used:
                    res.bad(f"{f.name}:{name}:temporary {slot}", f"{f.name} passes a temporary array as argument {slot + 1} of {name}, whose result keeps a pointer to it after the array is gone", f"{PY}:{x.lineno}")
                else:
                    res.ok(f"{f.name}:{x.lineno}: the array kept by {name} has a name")
    return n


# --------------------------------------------------------------------------- scenarios
def lab(name, k=None):
    t = f"{name}{'' if k is None else k}"
    return V([(name, k)], t, val=atom(t))


def train(I, name):
    h = Handle("FunctionTrain", name, True, 0)
    h.term = (atom(name), name)
    I.handles.append(h)
    return h


def ftobj(I, env, dims=2, ft=None, types=("legendre", "legendre"), order=(0, 1), given=DIMOPTS, nodes=()):
    o = I.call(env.get("FunctionTrain"), [dims], {} if ft is None else {"ft": ft}, 0)
    for k in order:
        kw = {}
        for n in given:
            if n in ("lin_elem_nodes", "kernel_nodes") and n not in nodes:
                continue
            kw[n] = lab(n, k)
        if types[k] == "kernel" and "kernel_adapt_center" in kw and "adapt" not in nodes:
            kw["kernel_adapt_center"] = 0
        I.call(I.member(o, "set_dim_opts", 0), [k, types[k]], kw, 0)
    return o


F, G = "<FunctionTrain from f>", "<FunctionTrain from g>"


def call(name, *args):
    return f"{name}({','.join(args)})"


def one(t):
    return atom(t), t


QUERY = {
    "integrate": one(call("function_train_integrate", F)), "norm2": one(call("function_train_norm2", F)), "expectation": one(call("function_train_integrate_weighted", F)),
    "variance": (atom(call("function_train_inner_weighted", F, F)) - atom(call("function_train_integrate_weighted", F)) ** 2, "the second moment minus the square of the mean"),
}


def close(I, o):
    """explicit release, before the one at the end of the object's life"""
    for m in ("close", "free"):
        if o.cls.find(m) is not None:
            I.call(I.member(o, m, 0), [], {}, 0)


def arr(name):
    return lab(name)


def scenarios():
    """name -> function of (I, env) returning what the caller keeps"""
    S = {}

    def method(cls, name, **kw):
        pass

    for t in TYPES:
        for order in ((0, 1), (1, 0)):
            for nodes in ((), ("lin_elem_nodes",) if t == "linelm" else ("kernel_nodes",) if t == "kernel" else ("adapt",)):
                for ad in ((), ("adapt",)) if t == "kernel" else ((),):
                    def sc(I, env, t=t, order=order, nodes=nodes + ad):
                        types = [t, t]
                        o = ftobj(I, env, types=types, order=order, nodes=nodes)
                        o.attrs["ft"] = train(I, "f")
                        I.call(I.member(o, "round", 0), [lab("eps")], {}, 0)
                        return None
                    if order == (0, 1) or not nodes:
                        S[f"round {t} {order} {nodes + ad}"] = (sc, t)
    for fb in (False, True):
        for kept in (False, True):
            def sc(I, env, fb=fb, kept=kept):
                o = ftobj(I, env, types=("legendre", "linelm"), nodes=("lin_elem_nodes",) if kept else ())
                if kept:
                    o.attrs["ft"] = train(I, "f")
                kw = {n: lab(n) for n in ("maxrank", "cross_tol", "round_tol", "kickrank", "maxiter")}
                if fb:
                    kw["fiber_bounds"] = [[lab("flb", 0), lab("fub", 0)], [lab("flb", 1), lab("fub", 1)]]
                I.call(I.member(o, "build_approximation", 0), [lab("f"), lab("fargs"), lab("init_rank"), lab("verbose"), lab("adapt")], kw, 0)
                return None
            S[f"build_approximation fiber_bounds={fb} built={kept}"] = (sc, "cross")
    base = dict(alg="AIO", obj="LS", opt_type="BFGS")
    fit = []
    for alg in ("AIO", "ALS"):
        for obj in ("LS", "LS_SPARSECORE"):
            for ot in ("BFGS", "SGD"):
                fit.append((dict(alg=alg, obj=obj, opt_type=ot), (), False))
    fit += [(base, ("adaptrank",), False), (base, ("adaptrank",), True), (base, ("norm_ydata",), False), (base, ("norm_ydata",), True), (base, ("store_opt_info",), True),
            (dict(base, alg="ALS"), ("store_opt_info",), False), (base, ("kristoffel",), False), (base, ("seed",), True),
            (base, ("cvnparam",), False), (base, ("cvregweight",), False), (base, ("cvnparam", "cvregweight"), True), (base, ("cvnparam", "cvrank"), False)]
    for conf, extra, kept in fit:
        def sc(I, env, conf=conf, extra=extra, kept=kept):
            o = ftobj(I, env, types=("legendre", "linelm"))
            if kept:
                o.attrs["ft"] = train(I, "f")
            kw = {n: lab(n) for n in ("verbose", "opt_gtol", "opt_relftol", "opt_absxtol", "opt_maxiter", "opt_sgd_learn_rate", "roundtol", "maxrank", "kickrank",
                                      "regweight", "kfold", "cvverbose", "als_max_sweep")}
            kw.update(conf)
            kw["adaptrank"] = 0
            for e in extra:
                kw[e] = True if e in ("norm_ydata", "store_opt_info", "kristoffel") else 1 if e == "adaptrank" else lab(e)
            I.call(I.member(o, "build_data_model", 0), [lab("ndata"), lab("xdata"), lab("ydata")], kw, 0)
            I.want = (o, (atom("ydata"), "the data"), None, None)
            return None
        S[f"build_data_model {' '.join(conf.values())} {extra} built={kept}"] = (sc, "fit")
    for alg in ("AIO", "ALS"):
        for kept in (False, True):
            def sc(I, env, alg=alg, kept=kept):
                o = ftobj(I, env, types=("legendre", "kernel"))
                if kept:
                    o.attrs["ft"] = train(I, "f")
                kw = {n: lab(n) for n in ("maxrank", "kickrank", "regweight", "roundtol", "als_max_sweep", "opt_relftol", "kfold", "verbose")}
                p = I.call(I.member(o, "build_param_model", 0), [], dict(kw, alg=alg, obj="LS", adaptrank=1), 0)
                for m, a in (("get_params", []), ("get_param", [lab("param_idx")]), ("get_nparams", []), ("update_params", [arr("new_params")]), ("ft_eval", [arr("pt")]), ("grad_eval", [arr("x")])):
                    I.call(I.member(p, m, 0), a, {}, 0)
                close(I, p)
                return None
            S[f"build_param_model {alg} built={kept}"] = (sc, "param")

    def binary(name, want):
        def sc(I, env):
            o = ftobj(I, env, ft=train(I, "f"))
            p = ftobj(I, env, ft=train(I, "g"))
            r = I.call(I.member(o, name, 0), [p], {}, 0)
            I.want = (r, want, o, p)
            return None
        S[name] = (sc, "alg")
    binary("__add__", (atom("f") + atom("g"), "f + g"))
    binary("__sub__", (atom("f") - atom("g"), "f - g"))
    binary("__mul__", (atom("f") * atom("g"), "f*g"))

    def shift(raw):
        def sc(I, env):
            o = ftobj(I, env, ft=train(I, "f"))
            r = I.call(I.member(o, "scale_and_shift", 0), [lab("scale"), lab("shift")], {"c3_pointer": raw}, 0)
            I.want = (r, (atom("scale") * atom("f") + atom("shift"), "scale*f + shift"), o, None)
            return r
        S[f"scale_and_shift raw={raw}"] = (sc, "alg")
    shift(False)
    shift(True)

    def sc(I, env):
        o = ftobj(I, env, ft=train(I, "f"))
        r = I.call(I.member(o, "scale", 0), [lab("a")], {}, 0)
        I.want = (o, (atom("a") * atom("f"), "a*f"), None, None)
        return None
    S["scale"] = (sc, "alg")

    def sc(I, env):
        o = ftobj(I, env, ft=train(I, "f"))
        r = I.call(I.member(o, "copy", 0), [], {}, 0)
        I.want = (r, (atom("f"), "f"), o, None)
        I.call(I.member(r, "round", 0), [], {}, 0)
        return None
    S["copy"] = (sc, "alg")
    for mr in (False, True):
        def sc(I, env, mr=mr):
            o = ftobj(I, env, ft=train(I, "f"))
            I.call(I.member(o, "round", 0), [lab("eps")] + ([lab("maxrank_all")] if mr else []), {}, 0)
            I.want = (o, (atom("f"), "f"), None, None)
            return None
        S[f"round maxrank={mr}"] = (sc, "alg")
    for name, args in (("eval", ["pt"]), ("grad_eval", ["pt"]), ("hess_eval", ["pt"]), ("integrate", []), ("get_ranks", []), ("norm2", []), ("expectation", []), ("variance", []),
                       ("get_uni_func", ["dim", "row", "col"]), ("laplace", ["eps"]), ("save", ["filename"])):
        def sc(I, env, name=name, args=args):
            o = ftobj(I, env, ft=train(I, "f"))
            r = I.call(I.member(o, name, 0), [lab(a) for a in args], {}, 0)
            if name in QUERY:
                I.want = (r, QUERY[name], o, None)
            if isinstance(r, Obj) and r.cls.find("eval") is not None and name == "get_uni_func":
                I.call(I.member(r, "eval", 0), [lab("x")], {}, 0)
                close(I, r)
            return None
        S[name] = (sc, "use")

    def sc(I, env):
        o = ftobj(I, env, ft=train(I, "f"))
        p = ftobj(I, env, ft=train(I, "g"))
        r = I.call(I.member(o, "inner", 0), [p], {}, 0)
        I.want = (r, one(call("function_train_inner", F, G)), o, p)
        return None
    S["inner"] = (sc, "use")

    def sc(I, env):
        o = ftobj(I, env, ft=train(I, "f"))
        op = Handle("OperatorForLaplace", "build_lp_operator", None, 0)
        I.call(I.member(o, "laplace_op", 0), [op, lab("eps")], {}, 0)
        return None
    S["laplace_op"] = (sc, "use")
    for kept in (False, True):
        def sc(I, env, kept=kept):
            o = I.call(env.get("FunctionTrain"), [2], {}, 0)
            if kept:
                o.attrs["ft"] = train(I, "f")
            I.call(I.member(o, "load", 0), [lab("filename")], {}, 0)
            I.call(I.member(o, "eval", 0), [lab("pt")], {}, 0)
            return None
        S[f"load built={kept}"] = (sc, "use")

    def sc(I, env):
        o = I.call(env.get("poly_randu"), [lab("dim"), lab("ranks"), lab("maxorder")], {}, 0)
        return None
    S["poly_randu"] = (sc, "use")

    def sc(I, env):
        o = ftobj(I, env, ft=train(I, "f"))
        s = I.call(env.get("SobolIndices"), [o], {}, 0)
        for m, a, c in (("get_total_sensitivity", "index", "total"), ("get_main_sensitivity", "index", "main"), ("get_interaction", "variables", "interaction"), ("get_variance", None, "variance")):
            r = I.call(I.member(s, m, 0), [lab(a)] if a else [], {}, 0)
            I.wants.append((m, r, one(call("c3_sobol_sensitivity_get_" + c, "<C3SobolSensitivity from c3_sobol_sensitivity_calculate>", *([a] if a else [])))))
        close(I, s)
        return None
    S["SobolIndices"] = (sc, "use")

    def sc(I, env):
        o = ftobj(I, env, ft=train(I, "f"))
        I.call(I.member(o, "close", 0), [], {}, 0)
        return None
    S["close twice"] = (sc, "use")

    def sc(I, env):
        o = ftobj(I, env, ft=train(I, "f"))
        I.call(I.member(o, "set_ranks", 0), [lab("ranks")], {}, 0)
        return None
    S["set_ranks"] = (sc, "use")

    def sc(I, env):
        c = env.get("TensorTrain")
        I.call(I.member(c, "cross_from_numpy_tensor", 0), [lab("tens"), lab("init_rank"), lab("verbose"), lab("adapt")], {}, 0)
        return None
    S["TensorTrain.cross_from_numpy_tensor"] = (sc, "use")
    return S


def sv(v):
    return (val(v), txt(v).replace("'", "")) if val(v) is not None else None


def terms(I):
    """what each train stands for (as a value at the point where identities are decided, and as text), in the order of the calls"""
    T = {}
    for h in I.handles:
        if h.term is not None:
            T[h.id] = h.term
    g = lambda x: T.get(x.id) if isinstance(x, Handle) else None
    for e in I.events:
        a, r = e.args, e.ret
        v = None
        if e.name == "function_train_scale" and len(a) == 2 and isinstance(a[0], Handle):
            s, t = sv(a[1]), g(a[0])
            T[a[0].id] = (s[0] * t[0], f"{s[1]}*({t[1]})") if s is not None and t is not None else None
            continue
        if not isinstance(r, Handle):
            continue
        if e.name in ("function_train_copy", "function_train_round", "function_train_round_maxrank_all") and a:
            v = g(a[0])
        elif e.name in ("function_train_sum", "function_train_product") and len(a) == 2:
            x, y = g(a[0]), g(a[1])
            if x is not None and y is not None:
                v = (x[0] + y[0], f"({x[1]} + {y[1]})") if e.name.endswith("sum") else (x[0] * y[0], f"({x[1]})*({y[1]})")
        elif e.name == "function_train_constant" and a:
            v = sv(a[0])
        elif e.name == "ft_regress_run" and len(a) == 4:
            v = sv(a[3])
        T[r.id] = v
    return T


def holders(v, out, seen):
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, Handle):
        out.add(v.id)
    elif isinstance(v, (list, tuple)):
        for x in v:
            holders(x, out, seen)
    elif isinstance(v, dict):
        for x in v.values():
            holders(x, out, seen)
    elif isinstance(v, Obj):
        for x in v.attrs.values():
            holders(x, out, seen)


class Report:
    def __init__(self):
        self.bad = {}
        self.good = set()

    def add(self, key, text, line):
        self.bad.setdefault(key, (text, line))


def judge(W, name, kind, I, status, R, counts):
    A = W.api
    evs = I.events
    # arguments: structure types
    for e in evs:
        D = A.decls.get(e.name)
        if D is None:
            continue
        for k, (i, w) in enumerate(D.slots):
            if k >= len(e.args):
                break
            st = struct_of(D.params[i][0])
            x = e.args[k]
            if st is None:
                if isinstance(x, Handle) and struct_of("struct " + x.ctype + " *") and D.params[i][0] in ("double", "size_t", "int") and x.ctype != "double**":
                    R.add(f"{e.fn}:{e.name}:{k}", f"{e.fn} passes the {x.ctype} from {x.origin} as argument {k + 1} of {e.name}, which is a number", e.line)
                continue
            counts["typed"] += 1
            if isinstance(x, Handle) and x.ctype != st:
                R.add(f"{e.fn}:{e.name}:{k}", f"{e.fn} passes the {x.ctype} from {x.origin} as argument {k + 1} of {e.name}, which takes a {st}", e.line)
            elif x is None or isinstance(x, (int, float, str)) and not isinstance(x, bool):
                R.add(f"{e.fn}:{e.name}:{k}", f"{e.fn} passes {x!r} as argument {k + 1} of {e.name}, which takes a {st}", e.line)
            elif isinstance(x, Handle):
                R.good.add(f"{e.fn}:{e.line}:{e.name}:{k}: {st}")
    # options
    for e in evs:
        for k, want in OPT.get(e.name, {}).items():
            if k >= len(e.args):
                continue
            x = e.args[k]
            ls = labels_of(x)
            if isinstance(x, (Handle, Obj)) or not ls:
                continue
            names = {n for n, d in ls}
            if not any(names <= w and (names == w or len(w) > 1) for w in want) and not any(names == w for w in want) and not overridden(names):
                R.add(f"{e.fn}:{e.name}:option {k}", f"{e.fn} passes {' and '.join(sorted(names))} as argument {k + 1} of {e.name}, which is {' or '.join(' and '.join(sorted(w)) for w in want)}", e.line)
            else:
                R.good.add(f"{e.fn}:{e.line}:{e.name}: {' '.join(sorted(names))}")
            for h in e.args[:k]:
                if isinstance(h, Handle):
                    h.labels |= ls
            if isinstance(e.ret, Handle):
                e.ret.labels |= ls
        if e.name == "cv_opt_grid_add_param" and len(e.args) == 4 and isinstance(e.args[1], str):
            want = GRID.get(e.args[1])
            for k in (2, 3):
                ns = {n for n, d in labels_of(e.args[k])}
                if want and ns and ns != {want}:
                    R.add(f"{e.fn}:grid {e.args[1]}:{k}", f"{e.fn} passes {' and '.join(sorted(ns))} for the cross-validation parameter {e.args[1]}, which is {want}", e.line)
                elif want and ns:
                    R.good.add(f"{e.fn}:{e.line}: cross validation of {e.args[1]}")
        for c, i, j in (("kernel_approx_opts_gauss", 0, 1), ("cv_opt_grid_add_param", 2, 3)):
            if e.name == c and len(e.args) > j:
                x, y = val(e.args[i]), size(e.args[j])
                if x is not None and y is not None and x != y:
                    R.add(f"{e.fn}:{c}:length", f"{e.fn} passes {txt(e.args[i])} as the number of elements of {txt(e.args[j])} to {c}", e.line)
                elif x is not None and y is not None:
                    R.good.add(f"{e.fn}:{e.line}: length of the array for {c}")
        if e.name == "one_approx_opts_alloc" and len(e.args) == 2 and isinstance(e.args[0], Enum) and isinstance(e.args[1], Handle) and isinstance(e.ret, Handle):
            e.ret.wraps.append(e.args[1])
            tag = next((v[1] for v in TYPES.values() if v[0] == e.args[0].name), None)
            if tag and tag != e.args[1].ctype:
                R.add(f"{e.fn}:class {e.args[0].name}", f"{e.fn} gives options of type {e.args[1].ctype} the class {e.args[0].name}", e.line)
            else:
                R.good.add(f"{e.fn}:{e.line}: class {e.args[0].name} for {e.args[1].ctype}")
            if kind in TYPES and e.args[0].name != TYPES[kind][0] and tag == e.args[1].ctype:
                R.add(f"{e.fn}:type {kind}", f"{e.fn} builds options of class {e.args[0].name} for the function type {kind}", e.line)
        if e.name in ("ope_opts_alloc", "pw_poly_opts_alloc") and e.args and isinstance(e.args[0], Enum) and kind in TYPES and TYPES[kind][2] and e.args[0].name != TYPES[kind][2]:
            R.add(f"{e.fn}:family {kind}", f"{e.fn} builds {e.args[0].name} options for the function type {kind}", e.line)
        if e.name == "c3approx_set_approx_opts_dim" and len(e.args) == 3 and isinstance(e.args[1], int) and isinstance(e.args[2], Handle):
            ds = {d for h in [e.args[2]] + e.args[2].wraps for n, d in h.labels if d is not None}
            if ds and ds != {e.args[1]}:
                R.add(f"{e.fn}:dimension", f"{e.fn} gives dimension {e.args[1]} the options of dimension {sorted(ds)}", e.line)
            elif ds:
                R.good.add(f"{e.fn}:{e.line}: options of dimension {e.args[1]}")
        if e.name == "dd_row_linspace" and len(e.args) == 5 and isinstance(e.args[1], int):
            for k, want in ((2, {"lb", "flb"}), (3, {"ub", "fub"})):
                ls = labels_of(e.args[k])
                ns = {n for n, d in ls}
                if ns and not ns <= want and not overridden(ns):
                    R.add(f"{e.fn}:fibers {k}", f"{e.fn} starts the fibers at {' and '.join(sorted(ns))} instead of {sorted(want)[-1]}", e.line)
                elif any(d is not None and d != e.args[1] for n, d in ls):
                    R.add(f"{e.fn}:fibers dimension", f"{e.fn} starts the fibers of dimension {e.args[1]} within the bounds of another", e.line)
                elif ns:
                    R.good.add(f"{e.fn}:{e.line}: fibers of dimension {e.args[1]}")
        if e.name == "dd_row_linspace" and len(e.args) == 5 and isinstance(e.args[2], V) and isinstance(e.args[3], V) and e.args[2].val is not None and e.args[2].val == e.args[3].val:
            R.add(f"{e.fn}:fibers empty", f"{e.fn} starts all fibers at {txt(e.args[2])}", e.line)
        if e.name == "linspace" and len(e.args) == 3:
            for k, want in ((0, "lb"), (1, "ub")):
                ns = {n for n, d in labels_of(e.args[k])}
                if ns and ns != {want} and not overridden(ns):
                    R.add(f"{e.fn}:nodes {k}", f"{e.fn} places the nodes from {' '.join(sorted(ns))} instead of {want}", e.line)
    if status == "ok":
        called = {e.name for e in evs}
        need = []
        if kind in NEED:
            need = list(NEED[kind])
        elif kind == "cross":
            need = NEEDCROSS
        elif kind == "fit":
            need = NEEDFIT + (NEEDADAPT if "adaptrank" in name else [])
            if "LS_SPARSECORE" in name:
                need = need + ["ft_regress_set_regularization_weight"]
            if " ALS" in name or "ALS " in name:
                need = need + ["ft_regress_set_max_als_sweep", "ft_regress_set_als_conv_tol"]
            if "SGD" in name:
                need = need + ["c3opt_set_sgd_learn_rate", "c3opt_set_sgd_nsamples"]
            if "seed" in name:
                need = need + ["ft_regress_set_seed"]
            if "cvnparam" in name or "cvregweight" in name:
                need = need + ["cross_validate_grid_opt"]
            got = {e.args[1] for e in evs if e.name == "cv_opt_grid_add_param" and len(e.args) == 4 and isinstance(e.args[1], str)}
            for c, o in GRID.items():
                if o in name and c not in got:
                    R.add(f"build_data_model:grid {c}", f"with {o} given, build_data_model never adds {c} to the cross-validation grid", 0)
            sz = [e for e in evs if e.name == "cv_opt_grid_init" and e.args and isinstance(e.args[0], int)]
            if sz and got and sz[0].args[0] != len([e for e in evs if e.name == "cv_opt_grid_add_param"]):
                R.add("build_data_model:grid size", f"a cross-validation grid for {sz[0].args[0]} parameters gets {len(got)}", sz[0].line)
            tags = [tuple(a.name for a in e.args[1:] if isinstance(a, Enum)) for e in evs if e.name == "ft_regress_set_alg_and_obj"]
            wa = ("ALS" if " ALS" in name else "AIO", "FTLS_SPARSEL2" if "LS_SPARSECORE" in name else "FTLS")
            if tags and any(len(t) == 2 and t != wa for t in tags):
                R.add(f"build_reg:{wa[0]} {wa[1]}", f"for {' '.join(wa)} the regression is set up as {' '.join(tags[0])}", 0)
            oc = [e for e in evs if e.name == "c3opt_create" and e.args and isinstance(e.args[0], Enum)]
            if oc and oc[0].args[0].name != ("SGD" if "SGD" in name else "BFGS"):
                R.add(f"build_data_model:optimizer", f"the optimizer created is {oc[0].args[0].name}", oc[0].line)
        for s in need:
            if s not in called:
                R.add(f"{kind}:{s} missing", f"{name}: an option given by the caller never reaches {s}", 0)
            else:
                R.good.add(f"{name}: {s} reached")
    for k, line, t in I.problems:
        if k in ("py-arity", "py-name"):
            R.add(f"python:{t}", t, line)
        elif k == "py-none":
            R.add(f"python:{t}", f"{name}: Python fails here ({t})", line)
    return


def overridden(names):
    """bounds and number of parameters taken from nodes given by the caller"""
    return names <= {"lin_elem_nodes", "kernel_nodes"}


def finish(W, name, I, status, result, R, counts):
    """release of everything at the end"""
    want = getattr(I, "want", None)
    if want is not None and status == "ok":
        T = terms(I)
        r, w, o, p = want
        h = r.attrs.get("ft") if isinstance(r, Obj) else r
        if isinstance(h, Handle):
            v = T.get(h.id)
            if v is not None and v[0] != w[0]:
                R.add(f"{name}:value", f"{name} gives {v[1]} instead of {w[1]}", h.line)
            elif v is not None:
                R.good.add(f"{name}: gives {w[1]}")
        elif isinstance(h, V) or isinstance(h, (int, float)):
            if val(h) is None:
                pass
            elif val(h) != w[0]:
                R.add(f"{name}:value", f"{name} returns {txt(h)} instead of {w[1]}", 0)
            else:
                R.good.add(f"{name}: returns {w[1]}")
        elif h is None:
            R.add(f"{name}:value", f"{name} leaves no train", 0)
        for z, s in ((o, "f"), (p, "g")):
            if z is not None and isinstance(z.attrs.get("ft"), Handle):
                v = T.get(z.attrs["ft"].id)
                if v is not None and v[0] != atom(s):
                    R.add(f"{name}:operand", f"{name} changes an operand to {v[1]}", 0)
    if status == "ok":
        for m, r, w in I.wants:
            if isinstance(r, V) and r.val is not None and r.val != w[0]:
                R.add(f"{m}:value", f"{m} returns {r.text} instead of {w[1]}", 0)
            elif isinstance(r, V) and r.val is not None:
                R.good.add(f"{m}: returns {w[1]}")
    kept = set()
    holders(result, kept, set())
    n0 = len(I.events)
    for o in list(I.objs):
        m = o.cls.find("__del__")
        if m is not None:
            try:
                I.call(m, [o], {}, 0)
            except Raised:
                pass
    objs = set()
    for k, line, t in I.problems:
        if k in ("double", "after"):
            R.add(f"{'released twice' if k == 'double' else 'used after release'}:{re.sub(r'[0-9]+', '', t)}", t + ("" if status == "ok" else " (after an exception)") + f" [{name}]", line)
    for e in I.events:
        for k in I.slots_freed(W.api.decls.get(e.name), W.frees(e.name), len(e.args)):
            h = e.args[k]
            if isinstance(h, Handle):
                counts["released"] += 1
                if h.owned is False and W.borrowed(h.origin):
                    R.add(f"{e.fn}:{e.name}:borrowed {h.origin}", f"{e.fn} releases the {h.ctype} from {h.origin}, which belongs to another object", e.line)
    if status != "ok":
        return
    for h in I.handles:
        if h.owned:
            counts["owned"] += 1
            if h.freed is None and h.id not in kept:
                R.add(f"leak:{h.origin}:{h.fn}" + (":" + name.split()[0] if not h.line else ""), f"the {h.ctype} from {h.origin} in {h.fn} is never released [{name}]", h.line)
            elif h.freed is not None:
                R.good.add(f"{h.fn}:{h.line}: {h.ctype} from {h.origin} released once")


def run(ctx):
    res = Result()
    res.rule = ("every use of the wrapped module in c3py.py names a function or constant that the interface file wraps and a source file defines, with the number of arguments left after the typemaps fold lengths into arrays; "
                "the wrappers written in the interface file pass each parameter on as the C parameter it stands for, after checking array lengths; on every path of an abstract run of every public method, C objects have the structure "
                "type their parameter takes, each option reaches the setter of that option and the dimension it was given for, each owned C object is released exactly once and not used afterwards, and operators combine their operands as they say")
    res.assumptions = ["a C object is owned when the function that returns it hands out fresh storage (from the ownership analysis of the C code)", "SWIG folds the argument pairs named in %apply", "arrays returned as plain double * are not tracked"]
    own = Own(ctx.prog)
    try:
        W = World(ir.REPO, own)
    except (OSError, SyntaxError) as e:
        raise Anchor(f"the Python interface cannot be read: {e}")
    n, seen = sites(ctx, W, res)
    nw = wrappers(ctx, W, res)
    if nw < 10:
        raise Anchor(f"only {nw} wrappers in {SWIG}")
    kept = temporaries(ctx, W, res)
    counts = dict(typed=0, released=0, owned=0)
    R = Report()
    paths = 0
    S = scenarios()
    und = 0
    for name, (sc, kind) in S.items():
        called, ended = set(), 0
        try:
            for I, status, result in W.runs(sc):
                paths += 1
                called |= {e.name for e in I.events}
                ended += status == "ok"
                judge(W, name, kind, I, status, R, counts)
                finish(W, name, I, status, result, R, counts)
        except Undecided as e:
            und += 1
            res.skip(name, str(e))
            continue
        some = ["ope_opts_set_maxnum"] if kind in ("legendre", "hermite", "fourier") else ["kernel_approx_opts_set_center_adapt"] if kind == "kernel" and "adapt" in name else []
        for s in some:
            if s not in called:
                R.add(f"{kind}:{s} missing", f"{name}: an option given by the caller never reaches {s} on any path", 0)
            else:
                R.good.add(f"{name}: {s} reached")
        if not ended:
            res.skip(name, "every path ends in an exception")
    for g in sorted(R.good):
        res.ok(g)
    for k, (t, line) in R.bad.items():
        res.bad(k, t, f"{PY}:{line}" if line else PY)
    if und > len(S) * 2 // 3:
        raise Anchor(f"{und} of {len(S)} uses of the Python interface cannot be followed")
    res.stats.update(functions=len(seen), uses=n, wrappers=nw, kept_arrays=kept, scenarios=len(S), paths=paths, **counts)
    res.minimum = 120
    return res
