"""C16: calls into BLAS and LAPACK have consistent shapes."""
from ..core import Result
from ..extent import report
from .. import blas
from ..init import callee


def run(ctx):
    res = Result()
    res.rule = ("every call of BLAS or LAPACK: the storage the routine touches for the dimensions, leading dimensions and increments passed (their values followed through the "
                "pointers for LAPACK) lies inside the arrays passed, leading dimensions are at least the leading extents, workspaces at least the required length")
    res.assumptions = ["the routines access what their reference documentation says (sa/blas.py)",
                       "objects satisfy the extents recorded in sa/shapes.py", "array parameters of the public interface have the extents of sa/arrays.py"]
    report(ctx, res, ("lapack",))
    n = sum(1 for f in ctx.prog.functions.values() for b in f.blocks.values() for i in b.instrs if i.op == "call" and blas.known(callee(i) or "?"))
    res.stats["calls_of_blas_and_lapack"] = n
    res.minimum = 150
    return res
