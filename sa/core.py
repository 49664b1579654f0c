"""Context, results, known findings and evidence for the checks."""
import json, os, sys, time
from . import ir, sym

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation:
    def __init__(self, key, msg, where, trace=None):
        self.key = key          # stable identity: names the construct, not the line
        self.msg = msg
        self.where = where
        self.trace = trace or []


class Result:
    def __init__(self):
        self.violations = []
        self.checked = []       # obligations decided (strings / tuples)
        self.undecided = []     # (obligation, reason)
        self.stats = {}
        self.rule = ""
        self.assumptions = []
        self.minimum = 1        # fewer obligations than this: the anchor vanished

    def ok(self, what):
        self.checked.append(what)

    def bad(self, key, msg, where, trace=None):
        self.violations.append(Violation(key, msg, where, trace))

    def skip(self, what, why):
        self.undecided.append((what, why))


class Anchor(Exception):
    """the constructs a rule is about are gone: no verdict"""


class Ctx:
    def __init__(self, tier="quick"):
        self.tier = tier
        self.prog = ir.load()
        self.eng = sym.Engine(self.prog)
        self.ran = False

    def full(self):
        if not self.ran:
            self.eng.run()
            self.ran = True
        return self.eng

    def need(self, names):
        self.eng.run(names)
        return self.eng

    def fn(self, name):
        return self.prog.functions.get(name)

    def where(self, fn, line=None):
        f = self.prog.functions[fn] if isinstance(fn, str) else fn
        return f.where(line)


def load_known():
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as fh:
            for ln in fh:
                ln = ln.strip()
                if ln:
                    out.append(json.loads(ln))
    return out


def finish(prop, res, ctx, t0, tier, seed):
    known = {k["key"]: k for k in load_known() if k["property"] == prop and k["status"] == "known"}
    new, old = [], []
    for v in res.violations:
        (old if v.key in known else new).append(v)
    nob = len(res.checked) + len(res.violations)
    outdir = os.path.join(ROOT, "out")
    os.makedirs(outdir, exist_ok=True)
    rep = os.path.join(outdir, prop + ".report.txt")
    with open(rep, "w") as fh:
        fh.write(f"property {prop}\nrule: {res.rule}\n")
        for v in new:
            fh.write(f"\nVIOLATION {v.where}: {v.msg}\n  key: {v.key}\n")
            for t in v.trace:
                fh.write(f"    {t}\n")
        for v in old:
            fh.write(f"\nKNOWN {v.where}: {v.msg}\n  key: {v.key}\n")
        fh.write(f"\nobligations decided: {nob}\nundecided: {len(res.undecided)}\n")
        for o, w in res.undecided:
            fh.write(f"  undecided {o}: {w}\n")
        for o in res.checked:
            fh.write(f"  ok {o}\n")
    evd = os.path.join(ROOT, "evidence")
    os.makedirs(evd, exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": res.rule,
            "files_analysed": len(ctx.prog.files), "functions_in_program": len(ctx.prog.functions),
            "functions_analysed": res.stats.get("functions", len(ctx.eng.an)), "source_lines": ctx.prog.nlines,
            "obligations": nob, "discharged": len(res.checked), "known_findings": len(old),
            "undecided": len(res.undecided),
            "samples": [str(x) for x in res.checked[:25]],
            "undecided_samples": [f"{a}: {b}" for a, b in res.undecided[:25]],
            **res.stats,
        },
        "assumptions": res.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(evd, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{prop}: {nob} obligations, {len(res.checked)} discharged, {len(res.undecided)} undecided, "
          f"{len(old)} known, {len(new)} violations; {res.stats.get("functions", len(ctx.eng.an))} functions analysed in {ev['wall_s']} s")
    for v in old:
        print(f"KNOWN-FINDING: property={prop} {v.key}: {v.msg} ({v.where})")
    if nob < res.minimum:
        print(f"ERROR {prop}: only {nob} obligations found, expected at least {res.minimum}; the anchor of the rule is gone")
        return 3
    if new:
        for v in new[:20]:
            print(f"{v.where}: {v.msg}  [{v.key}]")
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    return 0
