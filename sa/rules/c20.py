"""C20: parameters read from a function are the parameters written to it."""
from ..core import Result, Anchor
from ..spec import *

def elem(p):
    """piecewise constant / linear elements"""
    n = "f.num_nodes"
    return [
     K(p + "_get_num_params", "f", n, ret=n),
     K(p + "_get_params", "f param", n, maps=[("param", [("i", ["val", "f.coeff[i]"], "i<" + n)])], ret=n),
     K(p + "_get_params_ref", "f np", n, ret="f.coeff", maps=[("np", [("0", ["val", n], "")])]),
     K(p + "_update_params", "f dim param", n + " dim", pre=[n + "-dim"], maps=[("f.coeff", [("i", ["val", "param[i]"], "i<dim")])], fields={n: n}),
     K(p + "_create_with_params", "o dim param", "o.num_nodes dim", pre=["o.num_nodes-dim"],
       maps=[("ret.coeff", [("i", ["val", "param[i]"], "i<dim")]), ("ret.nodes", [("i", ["val", "o.nodes[i]"], "i<dim")])], fields={"ret.num_nodes": "dim"}),
     K(p + "_scale", "a f", n, maps=[("f.coeff", [("i", ["val", "a*f.coeff[i]"], "i<" + n)])], fields={n: n}),
     K(p + "_flip_sign", "f", n, maps=[("f.coeff", [("i", ["val", "-f.coeff[i]"], "i<" + n)])], fields={n: n}),
    ]


LIN = "f.nodes[q+1]"
T = "((f.nodes[q+1]-{x})*inv(f.nodes[q+1]-f.nodes[q]))"
ENTS = elem("lin_elem_exp") + elem("const_elem_exp") + [
 K("lin_elem_exp_param_grad_eval", "f nx x g", "f.num_nodes nx", opq={"q": "lin_elem_exp_find_interval"}, lt=[("q+1", "f.num_nodes")], maps=[("g", [
     ("i+j*f.num_nodes", ["val", "0"], "i<f.num_nodes j<nx"),
     ("q+j*f.num_nodes", ["val", T.format(x="x[j]")], "j<nx"),
     ("q+1+j*f.num_nodes", ["val", "1-" + T.format(x="x[j]")], "j<nx")])]),
 K("lin_elem_exp_param_grad_eval2", "f x g", "f.num_nodes", opq={"q": "lin_elem_exp_find_interval"}, lt=[("q+1", "f.num_nodes")], maps=[("g", [
     ("i", ["val", "0"], "i<f.num_nodes"),
     ("q", ["val", T.format(x="x")], ""),
     ("q+1", ["val", "1-" + T.format(x="x")], "")])], ret="f.coeff[q]*T+f.coeff[q+1]*(1-T)".replace("T", T.format(x="x"))),
 K("const_elem_exp_param_grad_eval", "f nx x g", "f.num_nodes nx", opq={"q": "const_elem_exp_find_node"}, lt=[("q", "f.num_nodes")], maps=[("g", [
     ("i+j*f.num_nodes", ["val", "0"], "i<f.num_nodes j<nx"), ("q+j*f.num_nodes", ["val", "1"], "j<nx")])]),
 K("const_elem_exp_param_grad_eval2", "f x g", "f.num_nodes", opq={"q": "const_elem_exp_find_node"}, lt=[("q", "f.num_nodes")], maps=[("g", [
     ("i", ["val", "0"], "i<f.num_nodes"), ("q", ["val", "1"], "")])], ret="f.coeff[q]"),
]



CLS = {1: "orth_poly_expansion", 2: "const_elem_exp", 3: "lin_elem_exp", 4: "kernel_expansion"}


def dispatch(op, params, args, gf="g", **kw):
    """generic_function_<op> under each function class calls that class's <op> on the wrapped function"""
    out = []
    for c, p in CLS.items():
        alts = [q + "_" + op for q in CLS.values()]
        out.append(K(f"generic_function_{op}:{p}", params, kw.get("sizes", ""), fix={gf + ".fc": c}, calls=[(p + "_" + op, args, "", alts)], noinline=alts))
    return out


KE = "ke.nkernels"
ENTS += [
 # kernels: coefficients first, then centers
 K("kernel_expansion_get_num_params:0", "ke", KE, fix={"ke.include_kernel_param": 0}, ret=KE),
 K("kernel_expansion_get_num_params:1", "ke", KE, fix={"ke.include_kernel_param": 1}, ret="2*" + KE),
 K("kernel_expansion_get_params:0", "ke p", KE, fix={"ke.include_kernel_param": 0}, maps=[("p", [("i", ["val", "ke.coeff[i]"], "i<" + KE)])], ret=KE),
 K("kernel_expansion_get_params:1", "ke p", KE, fix={"ke.include_kernel_param": 1}, maps=[("p", [("i", ["val", "ke.coeff[i]"], "i<" + KE), (KE + "+i", ["kernel_get_center", "ke.kernels[i]"], "i<" + KE)])], ret="2*" + KE),
 K("kernel_expansion_get_params_ref", "ke np", KE, fix={"ke.include_kernel_param": 0}, ret="ke.coeff", maps=[("np", [("0", ["val", KE], "")])]),
 K("kernel_expansion_update_params:0", "ke dim p", KE + " dim", pre=[KE + "-dim"], fix={"ke.include_kernel_param": 0}, maps=[("ke.coeff", [("i", ["val", "p[i]"], "i<dim")])], calls=[("kernel_update_center", ["ke.kernels[i]", "p[i]"], "i<0")], fields={KE: KE}),
 K("kernel_expansion_update_params:1", "ke dim p", KE + " dim", vals=(2, 4, 3, 6, 1), pre=["2*" + KE + "-dim"], fix={"ke.include_kernel_param": 1}, maps=[("ke.coeff", [("i", ["val", "p[i]"], "i<" + KE)])], calls=[("kernel_update_center", ["ke.kernels[i]", "p[" + KE + "+i]"], "i<" + KE)], fields={KE: KE}),
 K("kernel_expansion_scale", "a ke", KE, maps=[("ke.coeff", [("i", ["val", "a*ke.coeff[i]"], "i<" + KE)])], fields={KE: KE}),
 K("kernel_expansion_flip_sign", "ke", KE, calls=[("kernel_expansion_scale", ["-1", "ke"], "")]),
 K("kernel_expansion_create_with_params", "o dim p", "dim", calls=[("kernel_expansion_update_params", [None, "dim", "p"], "")]),
 K("kernel_get_center", "k", "", fix={"k.type": 0}, ret="k.params[2]"),
 K("kernel_update_center", "k c", "", fix={"k.type": 0}, maps=[("k.params", [("2", ["val", "c"], "")])]),
 K("kernel_expansion_param_grad_eval:0", "ke nx x g", KE + " nx", fix={"ke.include_kernel_param": 0}, maps=[("g", [("j*" + KE + "+i", ["kernel_eval", "ke.kernels[i]", "x[j]"], f"i<{KE} j<nx")])]),
 K("kernel_expansion_param_grad_eval:1", "ke nx x g", KE + " nx", fix={"ke.include_kernel_param": 1}, maps=[("g", [("2*j*" + KE + "+i", ["kernel_eval", "ke.kernels[i]", "x[j]"], f"i<{KE} j<nx"),
     (f"2*j*{KE}+{KE}+i", ["val", "ke.coeff[i]*kernel_grad_center(ke.kernels[i],x[j])"], f"i<{KE} j<nx")])]),
 K("kernel_expansion_param_grad_eval2:0", "ke x g", KE, fix={"ke.include_kernel_param": 0}, maps=[("g", [("i", ["kernel_eval", "ke.kernels[i]", "x"], f"i<{KE}")])]),
 K("kernel_expansion_param_grad_eval2:1", "ke x g", KE, fix={"ke.include_kernel_param": 1}, maps=[("g", [("i", ["kernel_eval", "ke.kernels[i]", "x"], f"i<{KE}"),
     (f"{KE}+i", ["val", "ke.coeff[i]*kernel_grad_center(ke.kernels[i],x)"], f"i<{KE}")])]),
 # polynomials
 K("orth_poly_expansion_get_num_params", "p", "p.num_poly", ret="p.num_poly"),
 K("orth_poly_expansion_get_params", "p o", "p.num_poly", maps=[("o", [("i", ["val", "p.coeff[i]"], "i<p.num_poly")])], ret="p.num_poly"),
 K("orth_poly_expansion_get_params_ref", "p n", "p.num_poly", ret="p.coeff", maps=[("n", [("0", ["val", "p.num_poly"], "")])]),
 K("orth_poly_expansion_update_params", "p dim c", "dim p.nalloc p.num_poly", pre=["p.nalloc-dim-1"], vals=(2, 3, 1, 4), maps=[("p.coeff", [("i", ["val", "c[i]"], "i<dim")])], fields={"p.num_poly": "dim"}),
 K("orth_poly_expansion_scale", "a p", "p.num_poly", maps=[("p.coeff", [("i", ["val", "a*p.coeff[i]"], "i<p.num_poly")])]),
 K("orth_poly_expansion_flip_sign", "p", "p.num_poly", maps=[("p.coeff", [("i", ["val", "-p.coeff[i]"], "i<p.num_poly")])]),
]
ENTS += dispatch("get_params", "g p", ["g.f", "p"]) + dispatch("get_params_ref", "g p", ["g.f", "p"]) + dispatch("update_params", "g dim p", ["g.f", "dim", "p"], sizes="dim")
ENTS += dispatch("get_num_params", "g", ["g.f"]) + dispatch("param_grad_eval", "g nx x gr", ["g.f", "nx", "x", "gr"], sizes="nx") + dispatch("param_grad_eval2", "g x gr", ["g.f", "x", "gr"])
ENTS += dispatch("squared_norm_param_grad", "g s gr", ["g.f", "s", "gr"]) + dispatch("scale", "a g", ["a", "g.f"]) + dispatch("flip_sign", "g", ["g.f"]) + dispatch("param_grad_inner", "g h o", ["g.f", "h.f", "o"])

NP = "generic_function_get_num_params"
M = {"GenericFunction.fc": 3, "LinElemExp.num_nodes": lambda h: 2 + h % 2}
QN = "q.nrows*q.ncols"
OFF = f"sum(t,i,{NP}(q.funcs[t]))"
ENTS += [
 K("qmarray_get_nparams", "q n", "q.nrows q.ncols", model=M, ret=f"sum(t,{QN},{NP}(q.funcs[t]))"),
 K("qmarray_get_params", "q p", "q.nrows q.ncols", model=M, calls=[("generic_function_get_params", ["q.funcs[i]", "p+" + OFF], "i<" + QN)], ret=f"sum(t,{QN},{NP}(q.funcs[t]))"),
 K("qmarray_update_params", "q n p", "q.nrows q.ncols", model=M, calls=[("generic_function_update_params", ["q.funcs[i]", NP + "(q.funcs[i])", "p+" + OFF], "i<" + QN)]),
 K("qmarray_uni_update_params", "q r c n p", "q.nrows q.ncols r c", lt=[("r", "q.nrows"), ("c", "q.ncols")], vals=(2, 3, 1, 0), limit=200, calls=[("generic_function_update_params", ["q.funcs[r+c*q.nrows]", "n", "p"], "")]),
 K("qmarray_uni_pad_params", "q r c n", "q.nrows q.ncols r c", lt=[("r", "q.nrows"), ("c", "q.ncols")], vals=(2, 3, 1, 0), limit=200, calls=[("generic_function_pad_params", ["q.funcs[r+c*q.nrows]", "n"], "")]),
 K("qmarray_func_get_nparams", "q r c", "q.nrows q.ncols r c", lt=[("r", "q.nrows"), ("c", "q.ncols")], vals=(2, 3, 1, 0), limit=200, calls=[(NP, ["q.funcs[r+c*q.nrows]"], "")]),
 K("qmarray_param_grad_sqnorm", "q s g", "q.nrows q.ncols", model=M, calls=[("generic_function_squared_norm_param_grad", ["q.funcs[i]", "s", "g+" + OFF], "i<" + QN)]),
 K("qmarray_param_grad_eval", "q n x ix o io g ig w", "q.nrows q.ncols n ix ig", vals=(2, 3), model=M, calls=[("generic_function_param_grad_eval", ["q.funcs[i]", "1", "x+j*ix", "w"], f"i<{QN} j<n"),
     ("generic_function_1darray_eval2N", [QN, "q.funcs", "n", "x", "ix", "o", "io"], "")]),
 K("qmarray_param_grad_eval_sparse_mult", "q n x ix o io g ig l mo np", "q.nrows q.ncols n ix ig", vals=(2, 3), model=M, calls=[("generic_function_param_grad_eval", ["q.funcs[i]", "1", "x+j*ix", "g+j*ig+" + OFF], f"i<{QN} j<n"),
     ("generic_function_1darray_eval2N", [QN, "q.funcs", "n", "x", "ix", "o", "io"], "")]),
 K("qmarray_linparam_eval", "q n o io g ig", "q.nrows q.ncols n io ig", vals=(2, 3), model=M, calls=[("generic_function_get_params_ref", ["q.funcs[i]", None], f"i<{QN} j<n")]),
]
FTM = dict(M)
FTM.update({"Qmarray.nrows": lambda h: 1 + h % 2, "Qmarray.ncols": lambda h: 1 + (h // 7) % 3})
QP = "qmarray_get_nparams"
TOFF = f"sum(t,i,{QP}(f.cores[t],None))"
ENTS += [
 K("function_train_get_nparams", "f", "f.dim", model=FTM, ret=f"sum(t,f.dim,{QP}(f.cores[t],None))"),
 K("function_train_get_params", "f p", "f.dim", model=FTM, calls=[("qmarray_get_params", ["f.cores[i]", "p+" + TOFF], "i<f.dim")], ret=f"sum(t,f.dim,{QP}(f.cores[t],None))"),
 K("function_train_update_params", "f p", "f.dim", model=FTM, calls=[("qmarray_update_params", ["f.cores[i]", f"{QP}(f.cores[i],None)", "p+" + TOFF], "i<f.dim")], ret=f"sum(t,f.dim,{QP}(f.cores[t],None))"),
 K("function_train_param_grad_sqnorm", "f w g", "f.dim", model=FTM, calls=[("qmarray_param_grad_sqnorm", ["f.cores[i]", "w[i]", "g+" + TOFF], "i<f.dim")]),
 K("function_train_core_get_params", "f c p", "c", calls=[("qmarray_get_params", ["f.cores[c]", "p"], "")]),
 K("function_train_core_update_params", "f c n p", "c", calls=[("qmarray_update_params", ["f.cores[c]", "n", "p"], "")]),
 K("function_train_core_get_nparams", "f c m", "c", calls=[("qmarray_get_nparams", ["f.cores[c]", "m"], "")]),
 K("function_train_func_get_nparams", "f c i0 j0", "c", calls=[("qmarray_func_get_nparams", ["f.cores[c]", "i0", "j0"], "")]),
 K("function_train_uni_update_params", "f c i0 j0 n p", "c", calls=[("qmarray_uni_update_params", ["f.cores[c]", "i0", "j0", "n", "p"], "")]),
 K("function_train_scale", "f a", "f.dim f.cores[0].nrows f.cores[0].ncols", calls=[("generic_function_array_daxpby", ["f.cores[0].nrows*f.cores[0].ncols", "a", "1", "f.cores[0].funcs", "0", "1", "None"], "")]),
 # parameterised trains
 K("ft_param_get_params", "f n p", "f.nparams n", maps=[("p", lambda v: {i: ["val", f"f.params[{i}]"] for i in range(min(v("n"), v("f.nparams")))})], ret=lambda v: min(v("n"), v("f.nparams"))),
 K("ft_param_get_nparams", "f", "", ret="f.nparams"),
 K("ft_param_update_params", "f p", "f.nparams", maps=[("f.params", [("i", ["val", "p[i]"], "i<f.nparams")])], calls=[("function_train_update_params", ["f.ft", "f.params"], "")]),
 K("ft_param_self_update_params", "f", "", calls=[("function_train_update_params", ["f.ft", "f.params"], "")]),
 K("ft_param_update_core_params", "f c p", "c", vals=(2, 1, 0), rules=[array_rule(f__nparams_per_core=lambda i: (2, 3, 4)[i] if i < 3 else 2)],
   maps=[("f.params", [("i+sum(t,c,f.nparams_per_core[t])", ["val", "p[i]"], "i<f.nparams_per_core[c]")])],
   calls=[("function_train_core_update_params", ["f.ft", "c", "f.nparams_per_core[c]", "p"], "")]),
]

RK = (1, 2, 3, 1)
NPU = lambda i: 1 + i % 2


def unis(dim):
    ind = 0
    for kk in range(dim):
        for jj in range(RK[kk + 1]):
            for ii in range(RK[kk]):
                yield kk, jj, ii, ind
                ind += 1


START = (1, 2, 1)


def outside(kk, jj, ii):
    return (kk > 0 and ii >= START[kk - 1]) or (jj >= START[kk] if kk < 2 else jj >= START[2])


def restricted(want):
    def f(v):
        out, gen, new = {}, 0, 0
        for kk, jj, ii, ind in unis(v("f.dim")):
            for ll in range(NPU(ind)):
                if outside(kk, jj, ii) == want:
                    out[gen] = ["val", f"p[{new}]"]
                    new += 1
                gen += 1
        return out
    return f


RR = [array_rule(f__ft__ranks=lambda i: RK[i], f__nparams_per_uni=NPU, rs=lambda i: START[i])]
ENTS += [
 K("ft_param_get_nparams_restrict", "f rs", "f.dim", vals=(3,), rules=RR, ret=lambda v: sum(NPU(ind) for kk, jj, ii, ind in unis(3) if outside(kk, jj, ii))),
 K("ft_param_update_restricted_ranks", "f p rs", "f.dim", vals=(3,), rules=RR, maps=[("f.params", restricted(True))], calls=[("function_train_update_params", ["f.ft", "f.params"], "")]),
 K("ft_param_update_inside_restricted_ranks", "f p rs", "f.dim", vals=(3,), rules=RR, maps=[("f.params", restricted(False))], calls=[("function_train_update_params", ["f.ft", "f.params"], "")]),
]


def run(ctx):
    res = Result()
    res.rule = ("for every parameter routine the destination and the value of every write (or the arguments of every delegated call) are extracted from the "
                "compiled code as closed forms of the loop counters and compared, at every small size, with the documented layout: parameter i is coefficient i "
                "(kernels: coefficients, then centers; matrices: functions column by column; trains: core by core), the count returned is the length of that "
                "vector, gradients use the same slots, scaling touches each coefficient once, and each generic routine reaches the routine of its function class")
    res.assumptions = ["sizes 1..3 per dimension and mixed parameter counts stand for all sizes: the maps are affine in the loop counters",
                       "distinct arguments do not alias", "functions wrapped by a generic function have the class recorded in fc"]
    eng = ctx.full()
    n = run_all(ctx, eng, res, ENTS)
    if n < 10:
        raise Anchor(f"only {n} of {len(ENTS)} parameter routines exist")
    res.minimum = 8
    return res
