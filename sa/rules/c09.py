"""C09: element accesses stay inside the arrays they are made in."""
from ..core import Result
from ..extent import report


def run(ctx):
    res = Result()
    res.rule = ("for every element read, write and block copy, in every function and through the array parameters of callees: the byte offset plus the size accessed does not "
                "exceed the allocation, the extent the object records for the array, or the documented extent of the parameter (linear inequalities over loop ranges, guards and "
                "object invariants), and the arrays of every object handed out or changed are as long as the object says; a violation needs small well-formed extents at which the guards hold and the access leaves the storage")
    res.assumptions = ["objects satisfy the extents recorded in sa/shapes.py (arrays have as many elements as the count fields say, cores of a train match its ranks)",
                       "array parameters of the public interface have the extents of sa/arrays.py",
                       "relations between the sizes of different arguments are the callers' business unless they are constant at the call site"]
    report(ctx, res, ("element", "copy", "object"))
    res.minimum = 2000
    return res
