"""Documented extents of array parameters (number of elements), as stated in the comments above the functions
and used by all their callers.  a0, a1, ... are the parameters; a0.dim is a field of the object a0 points to.
An element has eight bytes unless 'z:' (sixteen) or 'c:' (one) precedes the count."""
PARAMS = {}


def p(names, **kw):
    for n in names.split():
        PARAMS.setdefault(n, {}).update({int(k[1:]): v for k, v in kw.items()})


# optimization
p("backtrack_line_search", a1="a0", a3="a0", a4="a0", a6="a0")
p("backtrack_line_search_bc", a1="a0", a2="a0", a3="a0", a5="a0", a6="a0", a8="a0")
p("box_damp_bfgs", a1="a0", a2="a0", a3="a0", a5="a0", a6="a0*a0", a7="4*a0")
p("box_damp_newton", a1="a0", a2="a0", a3="a0", a5="a0", a6="a0*a0", a7="2*a0")
p("box_pg_descent", a1="a0", a2="a0", a3="a0", a5="a0", a6="2*a0")
p("c3_opt_damp_bfgs", a1="a0.d", a3="a0.d", a4="a0.d*a0.d")
p("c3_opt_gradient c3_opt_lbfgs", a1="a0.d", a3="a0.d")
p("c3_opt_sgd c3opt_add_lb c3opt_add_ub c3opt_check_deriv c3opt_minimize", a1="a0.d")
p("c3opt_check_deriv_each", a1="a0.d", a3="a0.d")
p("c3opt_set_brute_force_vals", a2="a0.d*a1")
p("c3opt_ls_box c3opt_ls_strong_wolfe c3opt_ls_wolfe_bisect", a1="a0.d", a3="a0.d", a4="a0.d", a5="a0.d")
p("c3opt_ls_zoom", a4="a0.d", a5="a0.d", a6="a0.d", a9="a0.d")
p("c3opt_ls_x_move", a2="a0", a3="a0", a4="a0", a5="a0", a6="a0")
p("c3opt_lbfgs_list_insert", a2="a0.d", a3="a0.d", a4="a0.d", a5="a0.d")
# regression
p("c3_regression_run c3_regression_run_aio c3_regression_run_als", a4="a0.dim*a3", a5="a3")
p("ft_param_create_from_lin_ls", a2="a0.dim*a1", a3="a1")
p("c3_objective_function_least_squares", a1="a0", a2="a0", a4="a3")
p("ft_param_update_params", a1="a0.nparams")
p("ft_param_gradeval", a1="a0.dim")
p("ft_param_hessvec", a1="a0.dim", a2="a0.nparams", a3="a0.nparams")
p("ft_param_get_nparams_restrict", a1="a0.dim")
p("ft_param_update_restricted_ranks ft_param_update_inside_restricted_ranks", a2="a0.dim")
# univariate functions
p("const_elem_exp_evalN lin_elem_exp_evalN kernel_expansion_evalN orth_poly_expansion_evalN piecewise_poly_evalN generic_function_1d_evalN", a2="(a1-1)*a3+1", a4="(a1-1)*a5+1")
p("const_elem_exp_get_params lin_elem_exp_get_params", a1="a0.num_nodes")
p("orth_poly_expansion_get_params", a1="a0.num_poly")
p("const_elem_exp_init lin_elem_exp_init", a1="a0", a2="a0")
p("const_elem_exp_create_with_params lin_elem_exp_create_with_params const_elem_exp_update_params lin_elem_exp_update_params kernel_expansion_update_params "
  "orth_poly_expansion_update_params orth_poly_expansion_create_with_params kernel_expansion_create_with_params", a2="a1")
p("const_elem_exp_inner_same lin_elem_exp_inner_same", a1="a0", a2="a0", a3="a0")
p("const_elem_exp_onezero lin_elem_exp_onezero", a1="a0")
p("const_elem_exp_orth_basis lin_elem_exp_orth_basis kernel_expansion_orth_basis orth_poly_expansion_orth_basis", a1="a0")
p("const_elem_exp_param_grad_eval lin_elem_exp_param_grad_eval", a2="a1", a3="a1*a0.num_nodes")
p("const_elem_exp_param_grad_eval2 lin_elem_exp_param_grad_eval2", a2="a0.num_nodes")
p("const_elem_exp_squared_norm_param_grad lin_elem_exp_squared_norm_param_grad", a2="a0.num_nodes")
p("orth_poly_expansion_param_grad_eval", a2="a1", a3="a1*a0.num_poly")
p("orth_poly_expansion_param_grad_eval2", a2="a0.num_poly")
p("orth_poly_expansion_squared_norm_param_grad orth_poly_expansion_rkhs_squared_norm_param_grad", a2="a0.num_poly")
p("const_elem_exp_aopts_alloc lin_elem_exp_aopts_alloc", a1="a0")
p("compute_Lp", a1="a0")
p("generic_function_1darray_eval", a1="a0")
p("generic_function_1darray_eval2 generic_function_1darray_eval2_ind", a1="a0", a3="a0")
p("generic_function_1darray_eval2N", a1="a0", a3="(a2-1)*a4+1", a5="(a2-1)*a6+a0")
p("generic_function_array_absmax generic_function_array_absmax_piv generic_function_array_flip_sign generic_function_array_norm generic_function_integral_array", a2="(a0-1)*a1+1")
p("generic_function_array_axpy", a2="a0", a3="a0")
p("generic_function_array_daxpby", a3="(a0-1)*a2+1", a6="(a0-1)*a5+1")
p("generic_function_array_daxpby2", a3="(a0-1)*a2+1", a6="(a0-1)*a5+1", a8="(a0-1)*a7+1")
p("generic_function_array_norm2diff", a1="(a0-1)*a2+1", a3="(a0-1)*a4+1")
p("generic_function_array_orth", a1="a0")
p("generic_function_array_scale", a1="a2")
p("generic_function_create_nodal", a2="a1")
p("generic_function_create_with_params", a3="a2")
p("generic_function_inner_sum generic_function_inner_weighted_sum", a2="(a0-1)*a1+1", a4="(a0-1)*a3+1")
p("generic_function_onezero", a3="a2")
p("generic_function_lin_comb", a1="a0", a2="a0")
p("generic_function_lin_comb2", a2="(a0-1)*a1+1", a4="(a0-1)*a3+1")
p("generic_function_sum_prod", a2="(a0-1)*a1+1", a4="(a0-1)*a3+1")
p("generic_function_update_params", a2="a1")
# quadrature and transforms
p("cheb_gauss clenshaw_curtis gauss_legendre gauss_hermite fejer2 rescale_cc", a1="a0", a2="a0")
p("cheb_vals_to_coeff", a1="z:a0", a2="z:a0")
p("fft fft_base fft_slow ifft ifft_base ifft_slow", a1="z:(a0-1)*a2+1", a3="z:(a0-1)*a4+1")
# function trains
p("function_train_eval function_train_eval_ind function_train_get_kristoffel_weight", a1="a0.dim")
p("function_train_evals", a2="a0.dim*a1", a3="a1")
p("function_train_gradient_eval", a1="a0.dim", a2="a0.dim")
p("function_train_eval_co_perturb function_train_eval_co_perturb_ind", a1="a0.dim", a2="2*a0.dim", a3="2*a0.dim")
p("function_train_linear", a0="(a4.dim-1)*a1+1", a2="(a4.dim-1)*a3+1")
p("function_train_linear_update", a1="(a0.dim-1)*a2+1", a3="(a0.dim-1)*a4+1")
p("function_train_quadratic", a0="a2.dim*a2.dim", a1="a2.dim")
p("function_train_quadratic_aligned", a0="a2.dim", a1="a2.dim")
p("function_train_rankone_prod", a0="a1.dim")
p("function_train_zeros", a1="a0.dim+1")
p("function_train_poly_randu", a2="a1.dim+1")
p("function_train_operate", a1="a0.dim")
p("function_train_create_nodal", a1="a0.dim", a2="a0.dim")
p("function_train_init_from_fibers", a1="a4.dim+1", a2="a4.dim", a3="a4.dim")
p("function_train_integrate_weighted_subset", a2="a1")
p("function_train_sobol_interact_var", a2="a1")
p("ft1d_array_eval2", a2="a0.size")
p("exact_laplace_op", a1="a0.dim")
p("bounding_box_vec", a1="a0", a2="a0")
p("linear_transform_alloc", a2="a0*a1")
p("c3vector_alloc", a1="a0")
p("fwrap_add_fiber", a3="a2", a5="a4")
# dense algebra and arrays
p("c3linalg_multiple_mat_vec", a3="(a0-1)*a4+a2", a5="(a0-1)*a6+a1*a2", a7="(a0-1)*a8+a1")
p("c3linalg_multiple_vec_mat", a3="(a0-1)*a4+a1", a5="(a0-1)*a6+a1*a2", a7="(a0-1)*a8+a2")
p("darray_save", a2="a0*a1")
p("diag diagv2m dprint dprod", a1="a0")
p("dprint2d dprint2d_col", a2="a0*a1")
p("norm2diff", a0="a2", a1="a2")
p("vec_kron", a2="(a1-1)*a3+a0", a6="(a5-1)*a7+a4", a8="a0*a4", a10="a1*a5")
p("AddCrossFiber", a3="a1", a4="a2", a5="a6")
p("AddFiber", a2="a3")
p("block_diag", a0="a1")
p("cdelem", a1="a0.dim")
p("ttelem", a1="a0.dim")
p("tt_ones", a1="a0")
p("qr svd", a2="(a1-1)*a3+a0")
