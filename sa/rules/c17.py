"""C17: failures of reading, writing and opening files are reported."""
from ..core import Result, Anchor
from ..paths import *
from ..contract import baseline_functions
from .. import ir

READ = {"fread": "count", "fscanf": "scan", "__isoc99_fscanf": "scan", "__isoc23_fscanf": "scan", "fgets": "null", "fgetc": "eof", "getc": "eof", "getline": "eof",
        "fseek": "neg", "ftell": "neg"}
WRITE = {"fwrite": "count", "ferror": "one"}
STREAM = {"fread": 3, "fwrite": 3, "fscanf": 0, "__isoc99_fscanf": 0, "__isoc23_fscanf": 0, "fgets": 2, "fgetc": 0, "getc": 0, "fclose": 0, "fprintf": 0, "fputs": 1, "fputc": 1,
          "putc": 1, "ferror": 0, "feof": 0, "rewind": 0, "fseek": 0, "ftell": 0, "fflush": 0, "getline": 2}
BUFFER = {"fread": 0, "fgets": 0}
# what the documentation says a caller sees on failure (pointers: null)
FAILURE = {"darray_save": 0, "function_train_save": 0, "ft1d_array_save": 0, "probability_density_save": 0}
HARMLESS = {"free", "printf", "fprintf", "puts", "perror", "fclose", "fputs", "fputc", "fwrite", "ferror", "feof", "clearerr", "strerror"}


def failures(kind, ins, ex):
    """abstract results of a failing call"""
    if kind == "null":
        return [NULLP]
    if kind == "count":
        n = ins.ops[2]
        if n == "1":
            return [("c", 0)]
        return [("short", ex.expr(n) if not isint(n) else "=" + n)]
    if kind == "scan":
        return [("c", 0), ("c", -1)]
    if kind == "eof":
        return [("c", -1)]
    if kind == "neg":
        return [("c", -1)]
    if kind == "one":
        return [("c", 1)]
    return []


class Fail(Client):
    """explores the paths after a failing call"""

    def __init__(self, rule, fn, site, kind, v):
        self.rule, self.fn, self.site, self.kind, self.v = rule, fn, site, kind, v
        self.rets, self.problems = [], []

    def call(self, ex, i, c, env, state, trail):
        if c in NORETURN:
            return None
        if i is self.site:
            return [(self.v, state)]
        if self.kind == "open":
            k = STREAM.get(c)
            if k is not None and k < len(i.ops):
                a = i.ops[k]
                if a == self.site.dest or env.get(a) == NULLP:
                    self.problems.append((i.line, f"{c} is called on the null stream"))
                    return None
            elif c not in HARMLESS and self.site.dest in i.ops:
                self.problems.append((i.line, f"the null stream is handed to {c}"))
                return None
        else:
            b = BUFFER.get(self.site.extra[1:])
            if b is not None and c not in HARMLESS and c not in STREAM and self.site.ops[b] in i.ops and not (c or "").startswith("llvm."):
                if self.site.ops[b] not in ex.allocas:
                    self.problems.append((i.line, f"the incomplete data is handed to {c}"))
                    return None
        if c in NORETURN:
            return None
        return [(None, state)]

    def ret(self, ex, t, v, env, state, trail):
        self.rets.append((v, t, trail))


class Rule:
    def __init__(self, ctx, res):
        self.ctx, self.res, self.prog = ctx, res, ctx.prog
        self.base = baseline_functions()
        self.memo = {}

    def visible(self, fn, v):
        """does this return value tell the caller that something failed?"""
        if fn.ret == "ptr":
            return v == NULLP if v is not None else None
        want = FAILURE.get(fn.name)
        if want is not None:
            return v == ("c", want) if v is not None else None
        return None

    def after(self, fn, ins, kind, v):
        ex = Explorer(self.prog, fn)
        cl = Fail(self, fn, ins, kind, v)
        b = next(b for b in fn.blocks.values() if ins in b.instrs)
        env = {}
        if ins.dest and v is not None:
            env[ins.dest] = v
        ex.run(b.label, b.instrs.index(ins) + 1, env, 0, cl)
        return cl

    def site(self, fn, ins, what, kind, depth=0):
        """verdict for one fallible call: True reported, None undecided, or a message"""
        ex = Explorer(self.prog, fn)
        vals = [NULLP] if kind == "open" else failures(kind, ins, ex)
        for v in vals:
            try:
                cl = self.after(fn, ins, kind, v)
            except TooMany:
                return None, "too many paths"
            if cl.problems:
                l, m = cl.problems[0]
                return False, (l, f"after {what} at line {ins.line} fails, {m}")
            for rv, t, trail in cl.rets:
                r = self.report(fn, rv, depth)
                if r is None:
                    return None, f"return value at line {t.line} not resolved"
                if r is False:
                    return False, (ins.line, f"when {what} fails {fn.name} goes on and returns as if it had worked")
        return True, None

    def report(self, fn, rv, depth):
        """is a return value visible as a failure, directly or through every caller?"""
        if fn.ret != "ptr" and fn.name not in FAILURE:
            # a helper: the failure must be visible in what its callers make of the value
            if depth > 2:
                return None
            if fn.ret == "void":
                return None if fn.name not in self.base else False
            if rv is None:
                return None
            calls = [(g, i) for g in self.prog.functions.values() for b in g.blocks.values() for i in b.instrs if i.op == "call" and i.extra == "@" + fn.name]
            if not calls:
                return None
            for g, i in calls:
                try:
                    cl = self.after(g, i, "helper", rv)
                except TooMany:
                    return None
                for v2, t, trail in cl.rets:
                    r = self.report(g, v2, depth + 1)
                    if r is not True:
                        return r
            return True
        if rv is None:
            # the value returned was not decided by the failure at all
            return False
        return self.visible(fn, rv)


def mode(prog, fn, ins):
    g = prog.globals.get((fn.file, ins.ops[1][1:])) or prog.globals.get(ins.ops[1][1:])
    if g is None:
        for k, x in prog.globals.items():
            if isinstance(k, tuple) and k[1] == ins.ops[1][1:] and k[0].split("/")[-1] == fn.file.split("/")[-1]:
                g = x
    t = (g or {}).get("init", "") or ""
    return t


def run(ctx):
    res = Result()
    res.rule = ("failure injection by path-sensitive constant propagation over LLVM IR: for every call that opens, reads or writes a file, the paths on which it failed are followed; "
                "each must end in a reported failure (null, the documented error code, or termination) without touching the null stream or handing on the incomplete buffer")
    res.minimum = 30
    res.assumptions = ["an assertion or exit counts as a report", "writes to streams supplied by the caller are the caller's to check"]
    prog = ctx.prog
    rule = Rule(ctx, res)
    n = 0
    for name, fn in sorted(prog.functions.items(), key=lambda kv: str(kv[0])):
        sites = [i for b in fn.blocks.values() for i in b.instrs if i.op == "call" and isinstance(i.extra, str)]
        opened = [i for i in sites if i.extra == "@fopen"]
        writes = [i for i in opened if '"w' in mode(prog, fn, i) or '"a' in mode(prog, fn, i)]
        todo = [(i, "opening the file", "open") for i in opened]
        for i in sites:
            c = i.extra[1:]
            if c in READ:
                todo.append((i, f"{c.replace('__isoc99_', '')} (item)" if READ[c] == "scan" else c, READ[c]))
            elif c == "fwrite" and writes:
                todo.append((i, c, "count"))
            elif c == "ferror":
                todo.append((i, c, "one"))
            elif c == "fclose" and writes:
                # on a path that has already failed the outcome does not matter
                todo.append((i, "closing the written file", "close"))
        if not todo:
            continue
        bylabel = {}
        for i, what, kind in todo:
            n += 1
            key = f"C17:{name}:{i.extra[1:].replace('__isoc99_', '')}"
            if kind == "close":
                r = closing(rule, fn, i)
            else:
                r = rule.site(fn, i, what, kind)
            if r[0] is True:
                res.ok(f"{name}: failure of {i.extra[1:]} at line {i.line} is reported")
            elif r[0] is None:
                res.skip(f"{name}: {i.extra[1:]} at line {i.line}", r[1])
            else:
                res.bad(key, r[1][1], ctx.where(fn, r[1][0]))
        # text written without looking at the results needs ferror
        if writes and any(i.extra in ("@fprintf", "@fputs", "@fputc") and i.ops and i.ops[STREAM[i.extra[1:]]] in {w.dest for w in writes} for i in sites):
            if any(i.extra == "@ferror" for i in sites) or all_checked(fn, sites, writes):
                res.ok(f"{name}: text output is followed by a check for errors")
            else:
                res.bad(f"C17:{name}:fprintf", f"{name} prints to the file and never checks whether that worked", ctx.where(fn))
    if n < 20:
        raise Anchor("no file access found")
    return res


def all_checked(fn, sites, writes):
    return False


def closing(rule, fn, ins):
    """fclose of a written file failing must be reported, unless the path reports a failure anyway"""
    r = rule.site(fn, ins, "closing the written file", "eof")
    return r
