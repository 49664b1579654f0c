"""Who owns what: the meaning of the pointer fields of the library's structures, read off the
headers, constructors and destructors and confirmed by hand.

  own  <elt> <count>    array of <count> plain elements owned by the object
  obj  <Struct>         one nested object, owned
  objs <Struct> <count> array of owned objects (array owned as well)
  arrs <elt> <count>    array of owned arrays (inner extents vary)
  any                   owned storage of a type that depends on a class tag
  ref                   supplied and kept by the caller
  scratch ...           owned work space, not part of the object's value
Counts are expressions over the fields of the same object.
"""
SHAPES = {
    "ConstElemExp": {"nodes": "own d num_nodes", "coeff": "own d num_nodes", "diff": "scratch own d num_nodes"},
    "LinElemExp": {"nodes": "own d num_nodes", "coeff": "own d num_nodes", "diff": "scratch own d num_nodes",
                   "inner": "scratch own d num_nodes", "Lp": "own d num_nodes*num_nodes"},
    "Kernel": {"params": "own d nparams"},
    "KernelExpansion": {"coeff": "own d nalloc", "kernels": "objs Kernel nalloc"},
    "KernelApproxOpts": {"centers": "own d nnodes", "other_params": "own d nother_params"},
    "OrthPolyExpansion": {"p": "obj OrthPoly", "coeff": "own d nalloc", "ccoeff": "own z nalloc", "space_transform": "obj SpaceMapping"},
    "SpaceMapping": {},
    "OrthPoly": {"an": "ref", "bn": "ref", "cn": "ref", "norm": "ref"},
    "StandardPoly": {"coeff": "own d num_poly"},
    "PiecewisePoly": {"branches": "objs PiecewisePoly nbranches", "ope": "obj OrthPolyExpansion"},
    "GenericFunction": {"f": "any", "fargs": "ref"},
    "Qmarray": {"funcs": "objs GenericFunction nrows*ncols"},
    "Quasimatrix": {"funcs": "objs GenericFunction n"},
    "FunctionTrain": {"ranks": "own u dim+1", "cores": "objs Qmarray dim", "evalspace1": "scratch obj FTMemSpace", "evalspace2": "scratch obj FTMemSpace",
                      "evalspace3": "scratch obj FTMemSpace", "evalspace4": "scratch objs FTMemSpace dim", "evaldd1": "scratch arrs d dim", "evaldd2": "scratch arrs d 2*dim",
                      "evaldd3": "scratch arrs d dim", "evaldd4": "scratch arrs d dim"},
    "FTMemSpace": {"vals": "own d num_spaces*space_size"},
    "FT1DArray": {"ft": "objs FunctionTrain size"},
    "FtCrossArgs": {"ranks": "own u dim+1", "maxranks": "own u dim-1"},
    "FTparam": {"ft": "obj FunctionTrain", "nparams_per_uni": "own u *", "nparams_per_core": "own u dim", "params": "own d nparams", "approx_opts": "ref"},
    "LinearTransform": {"A": "own d dimin*dimout", "b": "own d dimout", "Ainv": "own d dimin*dimout", "binv": "own d dimin"},
    "ProbabilityDensity": {"pdf": "obj FunctionTrain", "lt": "obj LinearTransform", "extra": "any"},
    "Likelihood": {"like": "obj FunctionTrain"},
    "BayesRule": {"like": "obj Likelihood", "prior": "obj ProbabilityDensity"},
    "c3Vector": {"elem": "own d size"},
    "Cpair": {"a": "own c *", "b": "own c *"},
    "PairList": {"data": "obj Cpair", "next": "obj PairList"},
    "HashtableCpair": {"table": "objs PairList size"},
    "FunctionMonitor": {"evals": "obj HashtableCpair", "args": "ref", "f": "ref"},
    "CrossIndex": {"nodes": "obj CrossNode"},
    "CrossNode": {"x": "own c n*size_elem", "next": "obj CrossNode"},
    "tensor": {"nvals": "own u dim", "vals": "own d *"},
    "tt": {"nvals": "own u dim", "ranks": "own u dim+1", "cores": "objs tensor dim"},
    "mat": {"vals": "own d nrows*ncols"},
    "candecomp": {"cores": "objs mat dim"},
    "index_set": {"indices": "arrs u N"},
    "fiber_list": {"vals": "own d *", "next": "obj fiber_list"},
    "fiber_info": {"head": "obj fiber_list"},
    "cross_fiber_list": {"pre_index": "own u pre_length", "post_index": "own u post_length", "vals": "own d *", "next": "obj cross_fiber_list"},
    "cross_fiber_info": {"head": "obj cross_fiber_list"},
    "sk_decomp": {"rows_kept": "own u rank", "cols_kept": "own u rank", "cross_inv": "own d *", "row_vals": "obj fiber_info", "col_vals": "obj fiber_info"},
    "tt_cross_opts": {"ranks": "own u dim+1", "nvals": "own u dim", "right": "objs index_set *", "left": "objs index_set *", "fibers": "objs cross_fiber_info *"},
    "c3LS": {}, "c3SGD": {},
    "c3Opt": {"f": "ref", "fsgd": "ref", "farg": "ref", "lb": "own d d", "ub": "own d d", "ls": "obj c3LS", "workspace": "own d *", "sgd": "obj c3SGD",
              "stored_grad": "own d d*maxiter", "stored_func": "own d maxiter", "stored_x": "own d d*maxiter"},
    "BoundingBox": {"lb": "own d dim", "ub": "own d dim"},
    "Pivot": {"loc": "own c n*elem_size"},
    "PivotSet": {"pivots": "objs Pivot npivs"},
    "FiberCut": {"vals": "own d totdim", "args": "ref", "fpoint": "ref"},
    "FiberOptArgs": {"opts": "ref"},
    "Zeros": {"zeros": "own d *"},
    "DblMemArray": {"vals": "own d ndata*one_data_size"},
    "IndexList": {"vals": "own u nelem", "next": "obj IndexList"},
}

# extents of arrays the ownership rules do not cover (kept for the caller, or options)
EXTENTS = {
    "C3SobolSensitivity": {"total_effects": "own d dim"},
    "ConstElemExpAopts": {"nodes": "own d num_nodes"}, "LinElemExpAopts": {"nodes": "own d num_nodes"},
    "CrossValidate": {"x": "own d N*dim", "y": "own d N"}, "Data": {"x": "own d N*dim", "y": "own d N"},
    "MultiApproxOpts": {"aopts": "objs OneApproxOpts dim"},
    "OperatorForLaplace": {"op": "objs Operator dim"},
    "PwPolyOpts": {"pts": "own d npts"},
    "QR": {"mat": "own d mr*mc"},
    "RegressOpts": {"restrict_rank_opt": "own u dim"},
    "SInteract": {"label": "own u nlabels", "leaves": "objs SInteract nleaves"},
    "storevals": {"x": "own d dim"},
    "Regress1DOpts": {"x": "own d N", "y": "own d N", "init_param": "own d nparam", "eval": "own d N", "grad": "own d nparam*N", "resid": "own d N"},
    "CVCase": {"params": "objs RegParameter nparam"},
    "SLMemManager": {"running_lr": "arrs d dim", "running_rl": "arrs d dim"},
}


def shape_ext(struct, field):
    s = EXTENTS.get(struct.replace("struct.", ""))
    if s is None or field not in s:
        return shape(struct, field)
    w = s[field].split()
    return (w[0], w[1], w[2], False)


def shape(struct, field):
    s = SHAPES.get(struct.replace("struct.", ""))
    if s is None:
        return None
    t = s.get(field)
    if t is None:
        return None
    w = t.split()
    scratch = w[0] == "scratch"
    if scratch:
        w = w[1:]
    return (w[0], w[1] if len(w) > 1 else None, w[2] if len(w) > 2 else None, scratch)
