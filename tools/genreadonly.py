"""Proposes spec/readonly.json: (function, parameter) pairs that no path modifies today.  Run by hand and reviewed."""
import sys, json, re, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
sys.setrecursionlimit(100000)
from sa import ir, sym, writes
p = ir.load()
e = sym.Engine(p)
e.run(None)
w = writes.Writes(e)
hdr = ""
for h in glob.glob("/repo/c3/**/*.h", recursive=True) + glob.glob("/repo/include/**/*.h", recursive=True):
    if "backup" not in h:
        hdr += open(h).read()
public = set(re.findall(r"\b(\w+)\s*\(", hdr))
# stubs whose output or in-place argument happens not to be written yet, and one setter with a const object
EX = {("ft_regress_set_sample_weights", 0), ("piecewise_poly_update_params", 0), ("piecewise_poly_get_params", 1),
      ("piecewise_poly_get_params_ref", 1), ("piecewise_poly_param_grad_eval", 3), ("piecewise_poly_param_grad_eval2", 2),
      ("pw_poly_opts_set_nparams", 0)}
EXR = re.compile(r"_(param_grad_inner|squared_norm_param_grad)\.2$|_(linear_update|pad_params)\.0$|_get_params_ref\.0$")
out = []
for n, f in sorted(p.functions.items()):
    if n not in public:
        continue
    s = e.sum[n]
    star = s.mods is None or any(r is sym.STAR for r, c in s.mods)
    for i, t in enumerate(f.ptypes):
        if t.kind != "ptr" or (n, i) in EX or EXR.search(f"{n}.{i}"):
            continue
        to = str(t.to) if t.to is not None else "void"
        if to in ("FILE", "_IO_FILE") or (t.to is not None and t.to.kind in ("func",)):
            continue
        const = t.to is not None and t.to.const
        if not const:
            if star or any(r.kind == "arg" and r.a[0] == i for r, c in s.mods) or list(w.of_param(n, i)):
                continue
        out.append([n, i, str(t)])
json.dump(out, open(os.path.join(R, "spec", "readonly.json"), "w"), indent=0)
print(len(out), sum("const" in x[2] for x in out))
