"""C21: every block of an assembled or combined matrix of functions lands where it belongs."""
from ..core import Result, Anchor
from ..sym import *
from ..util import *
from ..contract import Expr, strip
from ..maps import *

# name: (parameters, size atoms, preconditions (==0), shape or None, destination, blocks, options)
# block: (index, [op, args...], "i<n j<m ...")


def gf(x):
    return ["copy", x]


QS = "a.nrows a.ncols"
QS2 = "a.nrows a.ncols b.nrows b.ncols"
F = "ret.funcs"

T = {
 "qmarray_copy": ("a", QS, [], ("a.nrows", "a.ncols"), F, [("i+j*a.nrows", gf("a.funcs[i+j*a.nrows]"), "i<a.nrows j<a.ncols")]),
 "qmarray_first_cols": ("a n", QS + " n", [], ("a.nrows", "n"), F, [("i+j*a.nrows", gf("a.funcs[i+j*a.nrows]"), "i<a.nrows j<n")]),
 "qmarray_stackh": ("a b", QS2, ["a.nrows-b.nrows"], ("a.nrows", "a.ncols+b.ncols"), F, [
     ("i+j*a.nrows", gf("a.funcs[i+j*a.nrows]"), "i<a.nrows j<a.ncols"),
     ("i+(j+a.ncols)*a.nrows", gf("b.funcs[i+j*b.nrows]"), "i<b.nrows j<b.ncols")]),
 "qmarray_stackv": ("a b", QS2, ["a.ncols-b.ncols"], ("a.nrows+b.nrows", "a.ncols"), F, [
     ("i+j*(a.nrows+b.nrows)", gf("a.funcs[i+j*a.nrows]"), "i<a.nrows j<a.ncols"),
     ("a.nrows+i+j*(a.nrows+b.nrows)", gf("b.funcs[i+j*b.nrows]"), "i<b.nrows j<b.ncols")]),
 "qmarray_blockdiag": ("a b", QS2, [], ("a.nrows+b.nrows", "a.ncols+b.ncols"), F, [
     ("i+j*(a.nrows+b.nrows)", gf("a.funcs[i+j*a.nrows]"), "i<a.nrows j<a.ncols"),
     ("a.nrows+i+j*(a.nrows+b.nrows)", ["zero"], "i<b.nrows j<a.ncols"),
     ("i+(a.ncols+j)*(a.nrows+b.nrows)", ["zero"], "i<a.nrows j<b.ncols"),
     ("a.nrows+i+(a.ncols+j)*(a.nrows+b.nrows)", gf("b.funcs[i+j*b.nrows]"), "i<b.nrows j<b.ncols")]),
 "qmarray_transpose": ("a", QS, [], ("a.ncols", "a.nrows"), F, [("j+i*a.ncols", gf("a.funcs[i+j*a.nrows]"), "i<a.nrows j<a.ncols")]),
 "qmarray_set_row": ("a r q", QS + " r", [], None, "a.funcs", [("r+j*a.nrows", gf("q.funcs[j]"), "j<a.ncols")], {"lt": [("r", "a.nrows")]}),
 "qmarray_set_column": ("a c q", QS + " c", [], None, "a.funcs", [("i+c*a.nrows", gf("q.funcs[i]"), "i<a.nrows")], {"lt": [("c", "a.ncols")]}),
 "qmarray_set_column_gf": ("a c q", QS + " c", [], None, "a.funcs", [("i+c*a.nrows", gf("q[i]"), "i<a.nrows")], {"lt": [("c", "a.ncols")]}),
 "qmarray_extract_row": ("a r", QS + " r", [], ("a.ncols",), F, [("j", gf("a.funcs[r+j*a.nrows]"), "j<a.ncols")], {"lt": [("r", "a.nrows")]}),
 "qmarray_extract_column": ("a c", QS + " c", [], ("a.nrows",), F, [("i", gf("a.funcs[i+c*a.nrows]"), "i<a.nrows")], {"lt": [("c", "a.ncols")]}),
 "qmarray_zeros": ("n m o", "n m", [], ("n", "m"), F, [("i", ["zero"], "i<n*m")]),
 "qmarray_deriv": ("a", QS, [], ("a.nrows", "a.ncols"), F, [("i", ["generic_function_deriv", "a.funcs[i]"], "i<a.nrows*a.ncols")]),
 "qmarray_dderiv": ("a", QS, [], ("a.nrows", "a.ncols"), F, [("i", ["generic_function_dderiv", "a.funcs[i]"], "i<a.nrows*a.ncols")]),
 "qmarray_dderiv_periodic": ("a", QS, [], ("a.nrows", "a.ncols"), F, [("i", ["generic_function_dderiv_periodic", "a.funcs[i]"], "i<a.nrows*a.ncols")]),
 "qmarray_create_nodal": ("a n x", QS, [], ("a.nrows", "a.ncols"), F, [("i", ["generic_function_create_nodal", "a.funcs[i]", "n", "x"], "i<a.nrows*a.ncols")]),
 "qmarray_deriv_eval": ("a x o", QS, [], None, "o", [("i", ["generic_function_deriv_eval", "a.funcs[i]", "x"], "i<a.nrows*a.ncols")]),
 "qmarray_eval": ("a x o", QS, [], None, "o", [("i", ["generic_function_1d_eval", "a.funcs[i]", "x"], "i<a.nrows*a.ncols")]),
 "qmarray_integrate": ("a", QS, [], None, "ret", [("i", ["generic_function_integrate", "a.funcs[i]"], "i<a.nrows*a.ncols")]),
 "qmarray_integrate_weighted": ("a", QS, [], None, "ret", [("i", ["generic_function_integrate_weighted", "a.funcs[i]"], "i<a.nrows*a.ncols")]),
 # products
 "qmam": ("a r b", QS + " b", [], ("a.nrows", "b"), F, [("i+j*a.nrows", ["generic_function_lin_comb2", "a.ncols", "a.nrows", "a.funcs+i", "1", "r+j*a.ncols"], "i<a.nrows j<b")]),
 "qmatm": ("a r b", QS + " b", [], ("a.ncols", "b"), F, [("i+j*a.ncols", ["generic_function_lin_comb2", "a.nrows", "1", "a.funcs+i*a.nrows", "1", "r+j*a.nrows"], "i<a.ncols j<b")]),
 "mqma": ("r a b", QS + " b", [], ("b", "a.ncols"), F, [("i+j*b", ["generic_function_lin_comb2", "a.nrows", "1", "a.funcs+j*a.nrows", "b", "r+i"], "i<b j<a.ncols")]),
 "qmaqma": ("a b", QS2, ["a.ncols-b.nrows"], ("a.nrows", "b.ncols"), F, [("i+j*a.nrows", ["generic_function_sum_prod", "a.ncols", "a.nrows", "a.funcs+i", "1", "b.funcs+j*b.nrows"], "i<a.nrows j<b.ncols")]),
 "qmatqma": ("a b", QS2, ["a.nrows-b.nrows"], ("a.ncols", "b.ncols"), F, [("i+j*a.ncols", ["generic_function_sum_prod", "a.nrows", "1", "a.funcs+i*a.nrows", "1", "b.funcs+j*b.nrows"], "i<a.ncols j<b.ncols")]),
 "qmaqmat": ("a b", QS2, ["a.ncols-b.ncols"], ("a.nrows", "b.nrows"), F, [("i+j*a.nrows", ["generic_function_sum_prod", "a.ncols", "a.nrows", "a.funcs+i", "b.nrows", "b.funcs+j"], "i<a.nrows j<b.nrows")]),
 "qmatqmat": ("a b", QS2, ["a.nrows-b.ncols"], ("a.ncols", "b.nrows"), F, [("i+j*a.ncols", ["generic_function_sum_prod", "a.nrows", "1", "a.funcs+i*a.nrows", "b.nrows", "b.funcs+j"], "i<a.ncols j<b.nrows")]),
 "qmatqma_integrate": ("a b", QS2, ["a.nrows-b.nrows"], None, "ret", [("i+j*a.ncols", ["generic_function_inner_sum", "a.nrows", "1", "a.funcs+i*a.nrows", "1", "b.funcs+j*b.nrows"], "i<a.ncols j<b.ncols")]),
 "qmaqma_integrate": ("a b", QS2, ["a.ncols-b.nrows"], None, "ret", [("i+j*a.nrows", ["generic_function_inner_sum", "a.ncols", "a.nrows", "a.funcs+i", "1", "b.funcs+j*b.nrows"], "i<a.nrows j<b.ncols")]),
 "qmaqmat_integrate": ("a b", QS2, ["a.ncols-b.ncols"], None, "ret", [("i+j*a.nrows", ["generic_function_inner_sum", "a.ncols", "a.nrows", "a.funcs+i", "b.nrows", "b.funcs+j"], "i<a.nrows j<b.nrows")]),
 "qmatqmat_integrate": ("a b", QS2, ["a.nrows-b.ncols"], None, "ret", [("j+i*b.nrows", ["generic_function_inner_sum", "a.nrows", "1", "a.funcs+i*a.nrows", "b.nrows", "b.funcs+j"], "i<a.ncols j<b.nrows")]),
 "qmatqmat_integrate_weighted": ("a b", QS2, ["a.nrows-b.ncols"], None, "ret", [("j+i*b.nrows", ["generic_function_inner_weighted_sum", "a.nrows", "1", "a.funcs+i*a.nrows", "b.nrows", "b.funcs+j"], "i<a.ncols j<b.nrows")]),
 "qmarray_kron": ("a b", QS2, [], ("a.nrows*b.nrows", "a.ncols*b.ncols"), F, [("(j*b.ncols+l)*a.nrows*b.nrows+i*b.nrows+k", ["generic_function_prod", "a.funcs[i+j*a.nrows]", "b.funcs[k+l*b.nrows]"], "i<a.nrows j<a.ncols k<b.nrows l<b.ncols")]),
 "qmarray_kron_integrate": ("a b", QS2, [], None, "ret", [("(j*b.ncols+l)*a.nrows*b.nrows+i*b.nrows+k", ["generic_function_inner", "a.funcs[i+j*a.nrows]", "b.funcs[k+l*b.nrows]"], "i<a.nrows j<a.ncols k<b.nrows l<b.ncols")]),
 "qmarray_kron_integrate_weighted": ("a b", QS2, [], None, "ret", [("(j*b.ncols+l)*a.nrows*b.nrows+i*b.nrows+k", ["generic_function_inner_weighted", "a.funcs[i+j*a.nrows]", "b.funcs[k+l*b.nrows]"], "i<a.nrows j<a.ncols k<b.nrows l<b.ncols")]),
 # quasimatrices
 "quasimatrix_copy": ("a", "a.n", [], ("a.n",), F, [("i", gf("a.funcs[i]"), "i<a.n")]),
 "qmm": ("q r b", "q.n b", [], ("b",), F, [("j", ["generic_function_lin_comb", "q.n", "q.funcs", "r+j*q.n"], "j<b")]),
 # arrays of functions
 "generic_function_kronh:1": ("left r m n l a c d", "r m n l", [], None, "d", [("k*r*m+j*r+i", ["generic_function_lin_comb2", "n", "1", "c+n*k", "r", "a+i+j*n*r"], "i<r j<m k<l")], {"fix": {"left": 1}}),
 "generic_function_kronh:0": ("left r m n l a c d", "r m n l", [], None, "d", [("j+k*n+i*n*m", ["generic_function_lin_comb2", "l", "n", "c+j", "1", "a+k*l+i*l*m"], "i<r j<n k<m")], {"fix": {"left": 0}}),
 "generic_function_kronh2:1": ("left r m n l b t o", "r m n l", [], None, "o", [("i+k*r+j*r*m", ["generic_function_sum_prod", "n", "1", "b+j*n", "r", "t+i+k*r*n"], "i<r j<l k<m")], {"fix": {"left": 1}}),
 "generic_function_kronh2:0": ("left r m n l b t o", "r m n l", [], None, "o", [("k+j*m+i*n*m", ["generic_function_sum_prod", "l", "n", "b+j", "m", "t+k+i*l*m"], "i<r j<n k<m")], {"fix": {"left": 0}}),
 "generic_function_array_daxpby": ("n a ldx x b ldy y", "n ldx ldy", [], None, "ret", [("i", ["generic_function_daxpby", "a", "x[i*ldx]", "b", "y[i*ldy]"], "i<n")]),
 "generic_function_1darray_eval": ("n f x", "n", [], None, "ret", [("i", ["generic_function_1d_eval", "f[i]", "x"], "i<n")]),
 # dense matrices and tensors
 "dconcat_cols": ("r m n a b", "r m n", [], None, "ret", [("i", ["val", "a[i]"], "i<r*m"), ("i+r*m", ["val", "b[i]"], "i<r*n")]),
 "diag": ("n a", "n", [], None, "ret", [("i*n+i", ["val", "a[i]"], "i<n")]),
 "diagv2m": ("n a", "n", [], ("n", "n"), "ret.vals", [("i*n+i", ["val", "a[i]"], "i<n")]),
 "horizcat": ("a b", QS2, ["a.nrows-b.nrows"], ("a.nrows", "a.ncols+b.ncols"), "ret.vals", [
     ("j+i*(a.ncols+b.ncols)", ["val", "a.vals[j+i*a.ncols]"], "i<a.nrows j<a.ncols"),
     ("a.ncols+j+i*(a.ncols+b.ncols)", ["val", "b.vals[j+i*b.ncols]"], "i<a.nrows j<b.ncols")]),
 "kron": ("a b", QS2, [], ("a.nrows*b.nrows", "a.ncols*b.ncols"), "ret.vals", [
     ("(i*b.nrows+k)*a.ncols*b.ncols+j*b.ncols+l", ["val", "a.vals[i*a.ncols+j]*b.vals[k*b.ncols+l]"], "i<a.nrows j<a.ncols k<b.nrows l<b.ncols")]),
 "kron_col": ("n m a lda k0 l0 b ldb o ldc", "n m lda k0 l0 ldb ldc", [], None, "o", [
     ("(j*l0+l)*ldc+i*k0+k", ["val", "a[j*lda+i]*b[l*ldb+k]"], "i<n j<m k<k0 l<l0")], {"strides": [("lda", "n"), ("ldb", "k0"), ("ldc", "n*k0")], "vals": (4, 2, 1)}),
 "getrows": ("a t r n m", "n m", [], None, "t", [("j*m+i", ["val", "a[j*n+r[i]]"], "i<m j<m")]),
 "tensor_stack2h_3d": ("a b", "a.nvals[0] a.nvals[1] a.nvals[2] b.nvals[0] b.nvals[1] b.nvals[2]", ["a.nvals[0]-b.nvals[0]", "a.nvals[1]-b.nvals[1]"], None, "ret.vals", [
     ("i+j*a.nvals[0]+k*a.nvals[0]*a.nvals[1]", ["val", "a.vals[i+j*a.nvals[0]+k*a.nvals[0]*a.nvals[1]]"], "i<a.nvals[0] j<a.nvals[1] k<a.nvals[2]"),
     ("i+j*a.nvals[0]+(k+a.nvals[2])*a.nvals[0]*a.nvals[1]", ["val", "b.vals[i+j*b.nvals[0]+k*b.nvals[0]*b.nvals[1]]"], "i<b.nvals[0] j<b.nvals[1] k<b.nvals[2]")], {"nvals": ["a.nvals[0]", "a.nvals[1]", "a.nvals[2]+b.nvals[2]"]}),
 "tensor_stack2v_3d": ("a b", "a.nvals[0] a.nvals[1] a.nvals[2] b.nvals[0] b.nvals[1] b.nvals[2]", ["a.nvals[2]-b.nvals[2]", "a.nvals[1]-b.nvals[1]"], None, "ret.vals", [
     ("i+j*(a.nvals[0]+b.nvals[0])+k*(a.nvals[0]+b.nvals[0])*a.nvals[1]", ["val", "a.vals[i+j*a.nvals[0]+k*a.nvals[0]*a.nvals[1]]"], "i<a.nvals[0] j<a.nvals[1] k<a.nvals[2]"),
     ("a.nvals[0]+i+j*(a.nvals[0]+b.nvals[0])+k*(a.nvals[0]+b.nvals[0])*a.nvals[1]", ["val", "b.vals[i+j*b.nvals[0]+k*b.nvals[0]*b.nvals[1]]"], "i<b.nvals[0] j<b.nvals[1] k<b.nvals[2]")], {"nvals": ["a.nvals[0]+b.nvals[0]", "a.nvals[1]", "a.nvals[2]"]}),
 "tensor_copy_3d:1": ("t tr", "t.nvals[0] t.nvals[1] t.nvals[2]", [], None, "ret.vals", [
     ("k+j*t.nvals[2]+i*t.nvals[2]*t.nvals[1]", ["val", "t.vals[i+j*t.nvals[0]+k*t.nvals[0]*t.nvals[1]]"], "i<t.nvals[0] j<t.nvals[1] k<t.nvals[2]")], {"fix": {"tr": 1}, "nvals": ["t.nvals[2]", "t.nvals[1]", "t.nvals[0]"]}),
 "tensor_copy_3d:0": ("t tr", "t.nvals[0] t.nvals[1] t.nvals[2]", [], None, "ret.vals", [
     ("i", ["val", "t.vals[i]"], "i<t.nvals[0]*t.nvals[1]*t.nvals[2]")], {"fix": {"tr": 0}, "nvals": ["t.nvals[0]", "t.nvals[1]", "t.nvals[2]"]}),
 "tensor_x_3d": ("n x", "n", [], None, "ret.vals", [("i", ["val", "x[i]"], "i<n")]),
}

# operations applied element by element: name -> (parameters, sizes, preconditions, [(callee, [args], ranges)])
CALLS = {
 "qmarray_axpy": ("al x y", "x.nrows x.ncols y.nrows y.ncols", ["x.nrows-y.nrows", "x.ncols-y.ncols"], [("generic_function_axpy", ["al", "x.funcs[i]", "y.funcs[i]"], "i<x.nrows*x.ncols")]),
 "generic_function_array_flip_sign": ("n lda a", "n lda", [], [("generic_function_flip_sign", ["a[i*lda]"], "i<n")]),
 "generic_function_array_scale": ("al a n", "n", [], [("generic_function_scale", ["al", "a[i]"], "i<n")]),
 "qmarray_mat_kron": ("r a b c", "r b.nrows b.ncols c.nrows c.ncols", [], [("generic_function_kronh", ["1", "r", "b.nrows", "c.nrows", "c.ncols", "a", "c.funcs", None], ""),
                                                                          ("generic_function_kronh2", ["1", "r", "c.ncols", "b.nrows", "b.ncols", "b.funcs", None, None], "")]),
 "qmarray_kron_mat": ("r a b c", "r b.nrows b.ncols c.nrows c.ncols", [], [("generic_function_kronh", ["0", "r", "b.ncols", "c.nrows", "c.ncols", "a", "c.funcs", None], ""),
                                                                          ("generic_function_kronh2", ["0", "r", "c.nrows", "b.nrows", "b.ncols", "b.funcs", None, None], "")]),
 "qmarray_vec_kron_integrate": ("a b c", "b.nrows b.ncols c.nrows c.ncols", [], [("qmatm", ["b", "a", "c.nrows"], ""), ("qmatqmat_integrate", ["c", None], "")]),
 "qmarray_vec_kron_integrate_weighted": ("a b c", "b.nrows b.ncols c.nrows c.ncols", [], [("qmatm", ["b", "a", "c.nrows"], ""), ("qmatqmat_integrate_weighted", ["c", None], "")]),
}

# values returned
RET = {
 "qmarray_get_func_base": ("a r c", gf("a.funcs[r+c*a.nrows].f")),
 "qmarray_get_func": ("a r c", gf("a.funcs[r+c*a.nrows]")),
 "quasimatrix_get_func": ("q i0", gf("q.funcs[i0]")),
}

SHAPE = {"Qmarray": ("nrows", "ncols"), "Quasimatrix": ("n",), "mat": ("nrows", "ncols")}
INL = ("qmarray_alloc", "quasimatrix_alloc", "init_tensor")


class Mismatch(Exception):
    pass


def expected(E, blocks, m):
    out = {}
    for idx, val, rng in blocks:
        loops = []
        for r in rng.split():
            v, n = r.split("<", 1)
            loops.append((E.env[v][0], E.ev(n), True))
        vals = [val[0]] + [E.ev(x) for x in val[1:]]
        if val[0] in COPYLIKE or val[0] == "generic_function_daxpby":
            vals = callvalue(vals[0], vals[1:])
        for env in iterations(loops, m, 0):
            mm = ext(m, env)
            i = cint(inst(E.ev(idx), mm))
            if i is None:
                raise Unresolved(f"contract index {show(inst(E.ev(idx), mm))}")
            out[i] = canonval(vals, mm)
    return out


def one(ctx, eng, res, key, ent):
    name = key.split(":")[0]
    params, sizes, pre, shape, dest, blocks = ent[:6]
    opt = ent[6] if len(ent) > 6 else {}
    prog = ctx.prog
    fn = prog.functions.get(name)
    if fn is None:
        return False
    names = params.split()
    if len(fn.ptypes) != len(names):
        res.skip(key, "signature changed")
        return True
    S = Summary1(eng, name)
    fnames = S.an.names
    env = {}
    try:
        E = Expr(prog, fn, names)
        if S.ret is not None and S.ret.kind == "ptr":
            rt = fn.rtype
            E.env["ret"] = (S.ret, rt.to if rt.kind == "ptr" else rt)
        szs = []
        for s in sizes.split():
            a = atom_of(E.ev(s))
            szs.append(strip(a))
        fix = {}
        for p, v in opt.get("fix", {}).items():
            fix[atom_of(E.ev(p))] = C(v)
        facts = [f for f in S.facts()]
        pres = [E.ev(p) for p in pre]
        pres = [strip(p) for p in pres]
        if dest.startswith("ret"):
            if S.ret is None or S.ret.kind != "ptr":
                raise Unresolved("result not resolved")
            if dest == "ret":
                base = S.ret
            else:
                st = E.env["ret"][1]
                base = exit_load(S.an, addstep(S.ret, E.fstep(st, dest.split(".")[1])), "ptr")
                base = S.an.fa.closed(base)
        else:
            base = E.ev(dest)
        if base.kind != "ptr" or unclear(base) and not base.fl & FL_NEW:
            raise Unresolved("destination not resolved")
        if fix:
            base = inst(base, fix)
        recs, why = S.records(base)
    except (KeyError, ValueError, AttributeError) as e:
        res.skip(key, f"contract does not apply any more ({type(e).__name__} {e})")
        return True
    except Unresolved as e:
        res.skip(key, str(e))
        return True
    try:
        if why:
            raise Unresolved("; ".join(why))
        cnt = 0
        vals = opt.get("vals", (2, 3) if any(b[1][0] in STRIDED for b in blocks) else (2, 3, 1))
        for m in assignments(szs, facts, pres, vals, 60 if ctx.tier == "quick" else 400):
            if any(cint(inst(E.ev(a), m)) >= cint(inst(E.ev(b), m)) for a, b in opt.get("lt", ())):
                continue
            if any(cint(inst(E.ev(a), m)) < cint(inst(E.ev(b), m)) for a, b in opt.get("strides", ())):
                continue
            cnt += 1
            m = dict(m)
            m.update(fix)
            if shape:
                st = E.env["ret"][1]
                for f, sx in zip(SHAPE[st.name], shape):
                    got = inst(exit_load(S.an, addstep(S.ret, E.fstep(st, f)), "i64"), m)
                    want = inst(E.ev(sx), m)
                    if cint(got) is None:
                        raise Unresolved(f"{f} of the result: {show(got)[:60]}")
                    if cint(got) != cint(want):
                        raise Mismatch(f"the result records {f} = {show(got)} instead of {show(want)} for {describe(m, fnames)}")
            if opt.get("nvals"):
                extents(S, E, opt["nvals"], m, fnames)
            exp = expected(E, blocks, m)
            got = unroll(S, recs, m)
            compare(exp, got, m, fnames)
        if cnt == 0:
            raise Unresolved("no admissible extents")
        res.ok(f"{key}: {len(blocks)} block(s), destination {dest}, {cnt} extent combinations, {len(recs)} writes")
    except Unresolved as e:
        res.skip(key, str(e))
    except Mismatch as e:
        line = e.args[1] if len(e.args) > 1 else None
        res.bad(key, f"{name}: {e.args[0]}", ctx.where(fn, line))
    return True


STRIDED = {"generic_function_lin_comb2", "generic_function_lin_comb", "generic_function_sum_prod", "generic_function_inner_sum", "generic_function_inner_weighted_sum"}


# operations of one family with documented different results
DISTINCT = [{"generic_function_inner_sum", "generic_function_inner_weighted_sum"}, {"generic_function_inner", "generic_function_inner_weighted"},
            {"generic_function_integrate", "generic_function_integrate_weighted"}, {"generic_function_deriv", "generic_function_dderiv", "generic_function_dderiv_periodic"},
            {"generic_function_1d_eval", "generic_function_deriv_eval"}, {"generic_function_prod", "generic_function_daxpby"},
            {"qmatqmat_integrate", "qmatqmat_integrate_weighted"}, {"generic_function_lin_comb2", "generic_function_sum_prod"}]


def compare(exp, got, m, names):
    for i in sorted(set(exp) | set(got)):
        if i not in got:
            raise Mismatch(f"element {i} of the result is never set (should be {showval(exp[i], names)}) for {describe(m, names)}")
        v, line = got[i][:2]
        if i not in exp:
            if v[0] == "val" and v[1] is ZERO or v[0] == "zero":
                continue
            raise Mismatch(f"element {i}, which is outside the documented positions, is set to {showval(v, names)} for {describe(m, names)}", line)
        if v == exp[i]:
            continue
        if v[0] != exp[i][0] and any(v[0] in s and exp[i][0] in s for s in DISTINCT):
            raise Mismatch(f"element {i} is computed by {v[0]}, a different operation than the documented {exp[i][0]}", line)
        if v[0] != exp[i][0] or len(v) != len(exp[i]):
            raise Unresolved(f"line {line}: element computed by {v[0]} rather than {exp[i][0]}")
        if any(unclear(x) for x in v[1:]):
            raise Unresolved(f"line {line}: value {showval(v, names)[:80]}")
        raise Mismatch(f"element {i} is {showval(v, names)} instead of {showval(exp[i], names)} for {describe(m, names)}", line)


def extents(S, E, want, m, names):
    """the extents a new tensor is created with"""
    cs = []
    for f in S.effs:
        if f.kind == "call" and f.callee == "init_tensor" and not f.loops:
            g = inst(And(*f.guards), m) if f.guards else TRUE
            if g is TRUE:
                cs.append(f)
            elif g is not FALSE:
                return
    if len(cs) != 1:
        return
    nv = cs[0].args[2]
    for d, sx in enumerate(want):
        got = cint(inst(exit_load(S.an, addstep(nv, ("I", C(d), "i64")), "i64"), m))
        w = cint(inst(E.ev(sx), m))
        if got is not None and got != w:
            raise Mismatch(f"extent {d} of the result is {got} instead of {w} for {describe(m, names)}", cs[0].line)


def calls(ctx, eng, res, name, ent):
    params, sizes, pre, want = ent
    fn = ctx.prog.functions.get(name)
    if fn is None:
        return False
    if len(fn.ptypes) != len(params.split()):
        res.skip(name, "signature changed")
        return True
    S = Summary1(eng, name)
    try:
        E = Expr(ctx.prog, fn, params.split())
        szs = [strip(atom_of(E.ev(s))) for s in sizes.split()]
        pres = [strip(E.ev(p)) for p in pre]
        cnt = 0
        for m in assignments(szs, S.facts(), pres, (2, 3, 1), 30):
            cnt += 1
            for callee, args, rng in want:
                exp, got, lines = [], [], {}
                loops = []
                for r in rng.split():
                    v, n = r.split("<", 1)
                    loops.append((E.env[v][0], E.ev(n), True))
                for env in iterations(loops, m, 0):
                    mm = ext(m, env)
                    exp.append(tuple(inst(E.ev(a), mm) if a is not None else None for a in args))
                n = 0
                for f in S.effs:
                    if f.kind == "call" and f.callee == callee:
                        n += 1
                        for env in iterations(f.loops, m, f.line):
                            mm = ext(m, env)
                            g = inst(And(*f.guards), mm) if f.guards else TRUE
                            if g is FALSE:
                                continue
                            if g is not TRUE:
                                raise Unresolved(f"line {f.line}: condition {show(g)[:80]}")
                            t = tuple(inst(a, mm) if w is not None else None for a, w in zip(f.args, args))
                            if any(unclear(x) for x in t if x is not None):
                                raise Unresolved(f"line {f.line}: arguments not resolved")
                            got.append(t)
                            lines[t] = f.line
                if n == 0:
                    for f in S.effs:
                        if f.kind == "call" and any(f.callee in s and callee in s for s in DISTINCT):
                            raise Mismatch(f"calls {f.callee}, a different operation than the documented {callee}", f.line)
                    raise Unresolved(f"{callee} is not called any more")
                sx = lambda t: f"{callee}({', '.join(show(x, S.an.names) if x is not None else '_' for x in t)})"
                for t in got:
                    if t not in exp:
                        raise Mismatch(f"calls {sx(t)}, expected {sx(exp[0]) if len(exp) == 1 else 'one call per element, e.g. ' + sx(exp[-1]) if exp else 'none'} for {describe(m, S.an.names)}", lines[t])
                for t in exp:
                    if got.count(t) != exp.count(t):
                        raise Mismatch(f"calls {sx(t)} {got.count(t)} times instead of {exp.count(t)} for {describe(m, S.an.names)}")
        if not cnt:
            raise Unresolved("no admissible extents")
        res.ok(f"{name}: {', '.join(c for c, _, _ in want)} applied to every element once, {cnt} extent combinations")
    except (KeyError, ValueError, AttributeError, TypeError) as e:
        res.skip(name, f"contract does not apply any more ({type(e).__name__} {e})")
    except Unresolved as e:
        res.skip(name, str(e))
    except Mismatch as e:
        res.bad(name, f"{name} {e.args[0]}", ctx.where(fn, e.args[1] if len(e.args) > 1 else None))
    return True


def run(ctx):
    res = Result()
    res.rule = ("access maps of every routine that assembles or combines matrices of functions (destination index and source expression of every write as "
                "closed forms in the loop counters, unknown helpers expanded) equal the documented map, including the recorded shape; compared at small extents "
                "admitted by the routine's own assertions")
    res.assumptions = ["copies made by the copy routines are faithful (C04)", "distinct arguments do not alias"]
    eng = ctx.full()
    n = 0
    for key, ent in T.items():
        n += bool(one(ctx, eng, res, key, ent))
    for key, ent in CALLS.items():
        n += bool(calls(ctx, eng, res, key, ent))
    for name, (params, val) in RET.items():
        fn = ctx.prog.functions.get(name)
        if fn is None:
            continue
        n += 1
        an = eng.an[name]
        try:
            E = Expr(ctx.prog, fn, params.split())
            want = strip(E.ev(val[1]))
        except (KeyError, ValueError, AttributeError):
            res.skip(name, "contract does not apply any more")
            continue
        got = strip(an.ret) if an.ret is not None else None
        if got is want:
            res.ok(f"{name} returns {show(want, an.names)}")
        elif got is None or opaque(got) or got.a[0].kind == "ite":
            res.skip(name, "returned value not resolved")
        else:
            res.bad(name, f"{name} returns {show(got, an.names)} instead of {show(want, an.names)}", ctx.where(fn))
    if n < 20:
        raise Anchor(f"only {n} of {len(T) + len(RET)} assembling routines exist")
    res.minimum = 15
    return res
