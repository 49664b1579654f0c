"""C06: no memory or file handle is leaked on a returning path."""
from ..core import Result, Anchor
from .. import paths
from ..own import Own, leaks

# what the destructors of the library release of an argument: itself, the object it points to, the elements of the array it points to
DESTROY = {
    ("DeleteCrossFiberList", 0): "target", ("DeleteFiberList", 0): "target", ("DeleteStoredVals", 0): "target", ("bounding_box_free", 0): "self",
    ("c3_sobol_sensitivity_free", 0): "self", ("c3approx_destroy", 0): "self", ("c3ls_free", 0): "self", ("c3opt_free", 0): "self",
    ("c3opt_lbfgs_list_free", 0): "self", ("c3sgd_free", 0): "self", ("c3vector_array_free", 1): "elements self", ("c3vector_free", 0): "self",
    ("const_elem_exp_aopts_free", 0): "self", ("const_elem_exp_aopts_free_deep", 0): "target", ("const_elem_exp_free", 0): "self",
    ("cpair_free", 0): "self", ("cross_index_free", 0): "self", ("cross_node_free", 0): "self", ("cross_validate_free", 0): "self",
    ("cv_case_free", 0): "self", ("cv_opt_grid_free", 0): "self", ("cvc_list_free", 0): "self", ("data_free", 0): "self",
    ("dbl_mem_array_arr_free", 1): "elements self", ("dbl_mem_array_free", 0): "self", ("destroy_operator_for_laplace", 0): "self",
    ("fiber_cut_array_free", 1): "elements self", ("fiber_cut_free", 0): "self", ("fiber_opt_args_free", 0): "self", ("free_cross_opts", 0): "target",
    ("free_dd", 1): "elements self", ("free_hashtable_cp", 0): "self", ("free_index_set", 0): "target", ("free_orth_poly", 0): "self",
    ("free_skf", 0): "target", ("free_tensor", 0): "target", ("freemat", 0): "self", ("freett", 0): "self", ("ft1d_array_free", 0): "self",
    ("ft_cross_args_free", 0): "self", ("ft_mem_space_arr_free", 1): "elements self", ("ft_mem_space_free", 0): "self", ("ft_param_free", 0): "self",
    ("ft_regress_free", 0): "self", ("function_monitor_free", 0): "self", ("function_train_free", 0): "self", ("fwrap_destroy", 0): "self",
    ("generic_function_array_free", 0): "elements self", ("generic_function_free", 0): "self", ("index_list_destroy", 0): "self",
    ("kernel_approx_opts_free", 0): "self", ("kernel_array_free", 1): "elements self", ("kernel_expansion_free", 0): "self",
    ("kernel_free", 0): "self", ("likelihood_free", 0): "self", ("lin_elem_exp_aopts_free", 0): "self", ("lin_elem_exp_aopts_free_deep", 0): "target",
    ("lin_elem_exp_free", 0): "self", ("lin_elem_xy_free", 0): "self", ("linear_transform_free", 0): "self", ("multi_approx_opts_free", 0): "self",
    ("multi_approx_opts_free_deep", 0): "target", ("objective_function_free", 0): "target", ("one_approx_opts_free", 0): "self",
    ("one_approx_opts_free_deep", 0): "target", ("ope_opts_free", 0): "self", ("ope_opts_free_deep", 0): "target",
    ("orth_poly_expansion_free", 0): "self", ("pair_list_delete", 0): "target", ("piecewise_poly_array_free", 0): "elements self",
    ("piecewise_poly_free", 0): "self", ("pivot_free", 0): "self", ("pivot_set_destroy", 0): "self", ("probability_density_free", 0): "self",
    ("pw_poly_opts_free", 0): "self", ("qmarray_free", 0): "self", ("qr_array_free", 0): "elements self", ("qr_free", 0): "self",
    ("quasimatrix_free", 0): "self", ("reg_parameter_free", 0): "self", ("regress_1d_opts_destroy", 0): "self", ("regress_opts_free", 0): "self",
    ("sinteract_free", 0): "self", ("sl_mem_manager_free", 0): "self", ("space_mapping_free", 0): "self", ("standard_poly_free", 0): "self",
}


def run(ctx):
    res = Result()
    res.rule = ("every place where storage or a file is obtained (malloc family, fopen, and every function found to hand out such storage, by result or through an argument): on every path to a return it is "
                "released, handed back, or stored where it outlives the call; every structure: what its fields (and arrays of its fields) hold by construction is released where the structure is")
    res.assumptions = ["malloc, calloc and realloc succeed (running out of memory ends the program almost everywhere)", "a loop that may run does run once", "a loop that releases storage in some round is taken to release it",
                       "library routines do what their documentation says with pointers (sa/own.py)"]
    if ctx.tier == "thorough":
        paths.LIMIT *= 20
    own = Own(ctx.prog)
    seen_fns = set()
    n = 0
    for name, i, text, bad in leaks(ctx, own):
        n += 1
        F = ctx.prog.functions[name]
        seen_fns.add(name)
        if bad is None:
            res.ok(f"{name}:{i.line}: {text} is released or handed on on every path")
        elif bad == "too many":
            res.skip(f"{name}:{text}", "too many paths")
        else:
            line, why, trail = bad
            if why.startswith("it is"):
                res.bad(f"{name}:{text}", f"{name}: {text} (line {i.line}) is neither released nor handed on when the function returns at line {line}", F.where(i.line), [f"line {x}" for x in trail])
            else:
                res.bad(f"{name}:{text}", f"{name}: {text} (line {i.line}) is lost at line {line}: {why}", F.where(i.line), [f"line {x}" for x in trail])
    m = 0
    clean = own.cleaned()
    seen = set()
    for name, i, t, al in own.releases():
        F = own.fn(name)
        for w, k in sorted(own.owned().items()):
            if w[0] != t or not k.get("fresh") or len(k["fresh"]) < 2 * len(k.get("other", ())):
                continue
            if w[:2] in clean:
                res.skip(f"{name}:{w}", f"released earlier by {clean[w[:2]][0]}")
                continue
            fields = [x for x, _ in ctx.prog.fields.get("struct." + t, ())]
            fname = fields[w[1]] if fields and w[1] < len(fields) else f"field {w[1]}"
            what = f"{t}.{fname}" if w[2] == 1 else f"the elements of {t}.{fname}"
            m += 1
            seen_fns.add(name)
            if own.lets_go(F, al, w):
                res.ok(f"{name}: {what} released with the {t}")
            elif (name, what) not in seen:
                seen.add((name, what))
                src = k["fresh"][0]
                res.bad(f"{name}:{what}", f"{name}: releases a {t} without {what}, which holds storage obtained in {src[0]}", F.f.where(i.line))
    d = 0
    WORDS = {"self": "what it is passed", "target": "the object its argument points to", "elements": "the elements of the array it is passed"}
    for (name, k), what in sorted(DESTROY.items()):
        F = own.fn(name)
        if F is None or k >= len(F.f.params):
            continue
        got = own.disposes(name, k)
        for w in what.split():
            d += 1
            if w in got:
                res.ok(f"{name} releases {WORDS[w]}")
            elif w + "?" in got:
                res.skip(f"{name}:{w}", "released on some paths")
            else:
                res.bad(f"{name}:{w}", f"{name}: does not release {WORDS[w]}", F.f.where(F.f.line or 0))
    if n < 1000 or m < 60 or d < 50:
        raise Anchor(f"only {n} places that obtain storage, {m} owned fields and {d} destructors were found")
    res.stats.update(functions=len(seen_fns), obtained=n, owned_fields=m, destructors=len({x[0] for x in own.releases()}), functions_handing_out=sum(1 for v in own.fr.values() if v))
    res.minimum = 1000
    return res
