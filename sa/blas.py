"""What BLAS and LAPACK routines access and require of their arguments.

`needs(e, literal)` yields, for a call effect, tuples (pointer, bytes, text, kind[, hard]):
 pointer and bytes   the storage the routine touches (bytes from pointer on)
 None and expression a requirement expression >= 0 (leading dimension, workspace length)
`hard` marks requirements between quantities that all are dimensions of the call itself."""
from .sym import *
from .util import *

COL, ROW, NOTR, TR, LEFT = 102, 101, 111, (112, 113), 141


def num(x):
    return const_of(topoly(x)) if isinstance(x, Node) and x.kind != "ptr" else None


def lt(x):
    return x if x.kind == "poly" else topoly(x)


def atoms(*ps):
    s = set()
    for p in ps:
        s |= {x for x in subnodes(p) if x.kind in ("arg", "ld")}
    return s


class Call:
    def __init__(self, name, args, dims):
        self.name, self.args, self.dims = name, args, dims
        self.out = []

    def vec(self, p, n, inc, what):
        if inc is None:
            inc = ONE
        c = const_of(inc)
        if c is not None and c <= 0:
            self.out.append((None, sub(inc, ONE), f"the increment of {what} of {self.name}", "lapack", True))
            return
        self.out.append((p, add(C(8), mul(C(8), mul(sub(n, ONE), inc))), f"{what} of {self.name}", "lapack", True))

    def arr(self, p, n, z, what):
        self.out.append((p, mul(C(z), n), f"{what} of {self.name}", "lapack", True))

    def mat(self, p, lead, trail, ld, what):
        self.out.append((p, mul(C(8), add(mul(sub(trail, ONE), ld), lead)), f"{what} of {self.name}", "lapack", True))
        hard = const_of(ld) is not None or atoms(ld) <= atoms(*self.dims)
        self.out.append((None, sub(ld, lead), f"the leading dimension of {what} of {self.name}", "lapack", hard))

    def req(self, d, what):
        self.out.append((None, d, f"{what} of {self.name}", "lapack", True))


def blas(c, a):
    if c in ("ddot", "daxpy", "dscal", "dcopy", "dnrm2"):
        n = lt(a[0])
        k = Call("cblas_" + c, a, [n])
        if c in ("ddot", "dcopy"):
            k.vec(a[1], n, lt(a[2]), "the first vector")
            k.vec(a[3], n, lt(a[4]), "the second vector")
        elif c == "daxpy":
            k.vec(a[2], n, lt(a[3]), "the first vector")
            k.vec(a[4], n, lt(a[5]), "the second vector")
        elif c == "dscal":
            k.vec(a[2], n, lt(a[3]), "the vector")
        else:
            k.vec(a[1], n, lt(a[2]), "the vector")
        return k.out
    o = num(a[0])
    if o not in (COL, ROW):
        return ()

    def lm(r, cc):
        return (r, cc) if o == COL else (cc, r)
    if c == "dgemm":
        ta, tb = num(a[1]), num(a[2])
        if ta is None or tb is None:
            return ()
        M, NN, K = lt(a[3]), lt(a[4]), lt(a[5])
        k = Call("cblas_dgemm", a, [M, NN, K])
        k.mat(a[7], *lm(*((M, K) if ta == NOTR else (K, M))), lt(a[8]), "the first matrix")
        k.mat(a[9], *lm(*((K, NN) if tb == NOTR else (NN, K))), lt(a[10]), "the second matrix")
        k.mat(a[12], *lm(M, NN), lt(a[13]), "the result matrix")
        return k.out
    if c == "dgemv":
        t = num(a[1])
        if t is None:
            return ()
        M, NN = lt(a[2]), lt(a[3])
        k = Call("cblas_dgemv", a, [M, NN])
        k.mat(a[5], *lm(M, NN), lt(a[6]), "the matrix")
        k.vec(a[7], NN if t == NOTR else M, lt(a[8]), "the vector")
        k.vec(a[10], M if t == NOTR else NN, lt(a[11]), "the result vector")
        return k.out
    if c == "dger":
        M, NN = lt(a[1]), lt(a[2])
        k = Call("cblas_dger", a, [M, NN])
        k.vec(a[4], M, lt(a[5]), "the first vector")
        k.vec(a[6], NN, lt(a[7]), "the second vector")
        k.mat(a[8], *lm(M, NN), lt(a[9]), "the matrix")
        return k.out
    if c == "dsymv":
        n = lt(a[2])
        k = Call("cblas_dsymv", a, [n])
        k.mat(a[4], n, n, lt(a[5]), "the matrix")
        k.vec(a[6], n, lt(a[7]), "the vector")
        k.vec(a[9], n, lt(a[10]), "the result vector")
        return k.out
    if c in ("dsyr", "dsyr2"):
        n = lt(a[2])
        k = Call("cblas_" + c, a, [n])
        k.vec(a[4], n, lt(a[5]), "the vector")
        if c == "dsyr":
            k.mat(a[6], n, n, lt(a[7]), "the matrix")
        else:
            k.vec(a[6], n, lt(a[7]), "the second vector")
            k.mat(a[8], n, n, lt(a[9]), "the matrix")
        return k.out
    if c == "dtrmm":
        s = num(a[1])
        if s is None:
            return ()
        M, NN = lt(a[5]), lt(a[6])
        k = Call("cblas_dtrmm", a, [M, NN])
        n = M if s == LEFT else NN
        k.mat(a[8], n, n, lt(a[9]), "the triangular matrix")
        k.mat(a[10], *lm(M, NN), lt(a[11]), "the matrix")
        return k.out
    if c == "dtrmv":
        n = lt(a[4])
        k = Call("cblas_dtrmv", a, [n])
        k.mat(a[5], n, n, lt(a[6]), "the matrix")
        k.vec(a[7], n, lt(a[8]), "the vector")
        return k.out
    return ()


def lapack(c, a, v, letter):
    """v: argument index -> value behind the pointer"""
    def g(i):
        x = v.get(i)
        return lt(x) if isinstance(x, Node) and x.kind != "ptr" else None

    def work(k, w, l, least):
        """workspace of length l at w; least: the shortest allowed"""
        n = g(l)
        if n is None:
            return
        c0 = const_of(n)
        if c0 == -1:
            k.arr(a[w], ONE, 8, "the workspace")
            return
        k.arr(a[w], n, 8, "the workspace")
        if least is not None:
            k.req(sub(n, least), "the workspace length")

    def call(*dims):
        return None if any(d is None for d in dims) else Call(c, a, list(dims))
    if c in ("dgeqrf_", "dgerqf_"):
        m, n, ld = g(0), g(1), g(3)
        k = call(m, n, ld)
        if k is None:
            return ()
        k.dims = [m, n]
        k.mat(a[2], m, n, ld, "the matrix")
        k.out.append((a[4], [mul(C(8), m), mul(C(8), n)], f"the reflector factors of {c}", "lapack", True))
        work(k, 5, 6, n if c == "dgeqrf_" else m)
        return k.out
    if c in ("dorgqr_", "dorgrq_"):
        m, n, q, ld = g(0), g(1), g(2), g(4)
        k = call(m, n, q, ld)
        if k is None:
            return ()
        k.dims = [m, n, q]
        k.mat(a[3], m, n, ld, "the matrix")
        k.arr(a[5], q, 8, "the reflector factors")
        work(k, 6, 7, n if c == "dorgqr_" else m)
        return k.out
    if c == "dgetrf_":
        m, n, ld = g(0), g(1), g(3)
        k = call(m, n, ld)
        if k is None:
            return ()
        k.dims = [m, n]
        k.mat(a[2], m, n, ld, "the matrix")
        k.out.append((a[4], [mul(C(4), m), mul(C(4), n)], f"the pivots of {c}", "lapack", True))
        return k.out
    if c == "dgetri_":
        n, ld = g(0), g(2)
        k = call(n, ld)
        if k is None:
            return ()
        k.dims = [n]
        k.mat(a[1], n, n, ld, "the matrix")
        k.arr(a[3], n, 4, "the pivots")
        work(k, 4, 5, n)
        return k.out
    if c == "dgesv_":
        n, r, ld, lb = g(0), g(1), g(3), g(6)
        k = call(n, r, ld, lb)
        if k is None:
            return ()
        k.dims = [n, r]
        k.mat(a[2], n, n, ld, "the matrix")
        k.arr(a[4], n, 4, "the pivots")
        k.mat(a[5], n, r, lb, "the right-hand sides")
        return k.out
    if c == "dgesdd_":
        j = letter(a[0])
        m, n, ld, lu, lv = g(1), g(2), g(4), g(7), g(9)
        k = call(m, n, ld, lu, lv)
        if k is None or j not in ("A", "S"):
            return ()
        k.dims = [m, n]
        k.mat(a[3], m, n, ld, "the matrix")
        k.out.append((a[5], [mul(C(8), m), mul(C(8), n)], f"the singular values of {c}", "lapack", True))
        if j == "A":
            k.mat(a[6], m, m, lu, "the left factor")
            k.mat(a[8], n, n, lv, "the right factor")
        else:
            # m x min(m,n) and min(m,n) x n
            q = [add(mul(sub(x, ONE), lu), m) for x in (m, n)]
            k.out.append((a[6], [mul(C(8), x) for x in q], f"the left factor of {c}", "lapack", True))
            k.out.append((None, sub(lu, m), f"the leading dimension of the left factor of {c}", "lapack", True))
            k.out.append((None, [sub(lv, m), sub(lv, n)], f"the leading dimension of the right factor of {c}", "lapack", True))
            q = [add(mul(sub(n, ONE), lv), x) for x in (m, n)]
            k.out.append((a[8], [mul(C(8), x) for x in q], f"the right factor of {c}", "lapack", True))
        work(k, 10, 11, None)
        k.out.append((a[12], [mul(C(32), m), mul(C(32), n)], f"the integer workspace of {c}", "lapack", True))
        return k.out
    if c == "dgelsd_":
        m, n, r, ld, lb = g(0), g(1), g(2), g(4), g(6)
        k = call(m, n, r, ld, lb)
        if k is None:
            return ()
        k.dims = [m, n, r]
        k.mat(a[3], m, n, ld, "the matrix")
        k.mat(a[5], m, r, lb, "the right-hand sides")
        k.mat(a[5], n, r, lb, "the right-hand sides")
        k.out.append((a[7], [mul(C(8), m), mul(C(8), n)], f"the singular values of {c}", "lapack", True))
        work(k, 10, 11, None)
        return k.out
    if c == "dgebal_":
        n, ld = g(1), g(3)
        k = call(n, ld)
        if k is None:
            return ()
        k.dims = [n]
        k.mat(a[2], n, n, ld, "the matrix")
        k.arr(a[6], n, 8, "the scale factors")
        return k.out
    if c == "dhseqr_":
        cz = letter(a[1])
        n, ld, lz = g(2), g(6), g(10)
        k = call(n, ld)
        if k is None:
            return ()
        k.dims = [n]
        k.mat(a[5], n, n, ld, "the matrix")
        k.arr(a[7], n, 8, "the real parts")
        k.arr(a[8], n, 8, "the imaginary parts")
        if cz in ("I", "V") and lz is not None:
            k.mat(a[9], n, n, lz, "the vectors")
        work(k, 11, 12, n)
        return k.out
    if c == "dgeev_":
        jl, jr = letter(a[0]), letter(a[1])
        n, ld = g(2), g(4)
        k = call(n, ld)
        if k is None:
            return ()
        k.dims = [n]
        k.mat(a[3], n, n, ld, "the matrix")
        k.arr(a[5], n, 8, "the real parts")
        k.arr(a[6], n, 8, "the imaginary parts")
        if jl == "V" and g(8) is not None:
            k.mat(a[7], n, n, g(8), "the left vectors")
        if jr == "V" and g(10) is not None:
            k.mat(a[9], n, n, g(10), "the right vectors")
        work(k, 11, 12, mul(C(4 if "V" in (jl, jr) else 3), n))
        return k.out
    if c == "dstev_":
        j = letter(a[0])
        n, lz = g(1), g(5)
        k = call(n)
        if k is None:
            return ()
        k.arr(a[2], n, 8, "the diagonal")
        k.arr(a[3], sub(n, ONE), 8, "the off-diagonal")
        if j == "V" and lz is not None:
            k.mat(a[4], n, n, lz, "the vectors")
            k.arr(a[6], sub(mul(C(2), n), C(2)), 8, "the workspace")
        return k.out
    if c in ("dtrtri_", "dpotrf_"):
        o = 1 if c == "dtrtri_" else 0
        n, ld = g(1 + o), g(3 + o)
        k = call(n, ld)
        if k is None:
            return ()
        k.dims = [n]
        k.mat(a[2 + o], n, n, ld, "the matrix")
        return k.out
    return ()


def needs(e, c, letter):
    if c.startswith("cblas_"):
        return blas(c[6:], e.args)
    if c.endswith("_") and e.deref is not None:
        return lapack(c, e.args, e.deref, letter)
    return ()


def known(c):
    return c.startswith("cblas_") or c.endswith("_") and c[0] == "d"
