"""C11: no hidden state, no clock, no environment; only documented operations are random."""
import json, os, re
from ..core import Result, Anchor, ROOT
from ..contract import baseline_functions

SPEC = os.path.join(ROOT, "spec", "random.json")
OUTSIDE = {"time", "clock", "gettimeofday", "clock_gettime", "getenv", "secure_getenv", "getpid", "getppid", "gettid", "random", "drand48",
           "lrand48", "mrand48", "arc4random", "arc4random_uniform", "getrandom", "getentropy", "ctime", "timespec_get", "times", "getrusage",
           "sysconf", "get_nprocs", "gethostname", "getcwd", "setenv", "putenv", "srandom", "srand48", "setlocale", "fesetround"}
RAND = {"rand"}
SEED = {"srand": {"ft_param_create_from_lin_ls"}}
PRINT = {"printf", "fprintf", "puts", "fputs", "putchar", "perror", "fflush", "vprintf", "putc", "fputc"}
WRITERS = {"memcpy": (0,), "memmove": (0,), "memset": (0,), "strcpy": (0,), "strncpy": (0,), "strcat": (0,), "sprintf": (0,), "snprintf": (0,),
           "fread": (0,), "fgets": (0,), "bcopy": (1,), "bzero": (0,), "qsort": (0,),
           "cblas_dcopy": (3,), "cblas_daxpy": (4,), "cblas_dscal": (2,), "cblas_dgemm": (12,), "cblas_dgemv": (10,), "cblas_dger": (7,),
           "dgesdd_": (5, 7, 9), "dgeqrf_": (2,), "dorgqr_": (3,), "dgetrf_": (2,), "dgetri_": (1,), "dsteqr_": (2, 3, 4), "dstegr_": (14,)}
READERS_OK = {"free"}
NAME = re.compile(r"@(\"[^\"]+\"|[\w.$]+)")


def intr(c):
    if c and c.startswith("llvm.mem"):
        return c.split(".")[1]
    return c


class Globals:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def glob(self, fn, name):
        g = self.prog.globals.get((fn.src, name)) if hasattr(fn, "src") else None
        if g is None:
            g = self.prog.globals.get((fn.file, name))
        if g is None:
            g = self.prog.globals.get(name)
        if g is None:
            for k, v in self.prog.globals.items():
                if isinstance(k, tuple) and k[1] == name and same_file(k[0], fn.file):
                    return k, v
            return None, None
        return name, g

    def users(self, fn):
        u = {}
        for b in fn.blocks.values():
            for i in b.instrs:
                for n, o in enumerate(i.ops or ()):
                    if isinstance(o, str) and (o.startswith("%") or "@" in o):
                        u.setdefault(o, []).append((i, n))
        return u

    def writes(self, fn, start, depth=0):
        """stores (fn, line, what) through pointers derived from the given operand strings of this function"""
        key = (fn.name, start)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        u = self.users(fn)
        out, seen, todo = [], set(), [start]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for i, n in u.get(x, ()):
                if i.op == "store":
                    if n == 1:
                        out.append((fn, i.line, "is assigned"))
                elif i.op == "gep" and n == 0 or i.op in ("cast", "phi", "select", "freeze"):
                    if i.dest:
                        todo.append(i.dest)
                elif i.op == "call":
                    c = intr(i.extra[1:] if isinstance(i.extra, str) and i.extra.startswith("@") else None)
                    if c in WRITERS and n in WRITERS[c]:
                        out.append((fn, i.line, f"is written by {c}"))
                    f = self.prog.functions.get(c)
                    if f is not None and depth < 6 and n < len(f.params):
                        p = f.params[n][0]
                        p = p if p.startswith("%") else "%" + p
                        for w in self.writes(f, p, depth + 1)[:1]:
                            out.append((fn, i.line, f"is written by {c} ({w[0].name}, line {w[1]})"))
        self.memo[key] = out
        return out


def same_file(a, b):
    return os.path.basename(str(a)) == os.path.basename(str(b))


def flows(fn, users, start):
    """does a value reach anything but the printing functions?"""
    seen, todo = set(), list(start)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for i, n in users.get(x, ()):
            if i.op == "call":
                c = i.extra[1:] if isinstance(i.extra, str) and i.extra.startswith("@") else None
                if c in PRINT or (c or "").startswith("llvm.dbg") or (c or "").startswith("llvm.lifetime") or c == "difftime":
                    if c == "difftime" and i.dest:
                        todo.append(i.dest)
                    continue
                if c in OUTSIDE:
                    continue
                return i
            if i.op == "store":
                if n == 0:
                    if any(j.op == "alloca" and j.dest == i.ops[1] for b in fn.blocks.values() for j in b.instrs):
                        todo.append(i.ops[1])
                        continue
                    return i
                continue
            if i.op in ("ret", "br", "switch"):
                return i
            if i.dest:
                todo.append(i.dest)
    return None


def selfonly(prog, gl, name, key):
    """the value kept in the variable only serves to compute its own next value"""
    for fn in prog.functions.values():
        if not any(name in NAME.findall(o) for b in fn.blocks.values() for i in b.instrs for o in (i.ops or ()) if isinstance(o, str)):
            continue
        if gl.glob(fn, name)[0] != key:
            continue
        u = gl.users(fn)
        ops = [o for o in u if name in NAME.findall(o)]
        if any(o != "@" + name for o in ops):
            return False
        todo, seen = [], set()
        for i, n in u["@" + name]:
            if i.op == "load":
                todo.append(i.dest)
            elif not (i.op == "store" and n == 1):
                return False
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for i, n in u.get(x, ()):
                if i.op in ("bin", "cast", "fneg"):
                    todo.append(i.dest)
                elif i.op == "store" and n == 0 and i.ops[1] == "@" + name:
                    continue
                elif i.op == "call" and isinstance(i.extra, str) and i.extra[1:] in PRINT:
                    continue
                else:
                    return False
    return True


def callees(f):
    for b in f.blocks.values():
        for i in b.instrs:
            if i.op == "call" and isinstance(i.extra, str) and i.extra.startswith("@"):
                yield i.extra[1:], i


def reaching(prog, targets):
    """functions from which direct calls lead to one of the targets: name -> (callee, line)"""
    out = {}
    rev = {}
    for f in prog.functions.values():
        for c, i in callees(f):
            rev.setdefault(c, []).append((f.name, i.line))
    todo = list(targets)
    while todo:
        x = todo.pop()
        for n, l in rev.get(x, ()):
            if n not in out:
                out[n] = (x, l)
                todo.append(n)
    return out


def run(ctx):
    res = Result()
    res.rule = ("effect analysis over the whole program: (1) no global or function-local static variable whose value can influence a later result "
                "is written, directly, through derived pointers or by a callee; (2) no function reads the clock, the environment or another outside source "
                "into anything but a message; (3) the generator is only reached from the operations documented as random (spec/random.json), and only "
                "the operation that takes a seed re-seeds it")
    res.assumptions = ["user callbacks are outside the library", "indirect calls do not lead to the random generator"]
    prog = ctx.prog
    gl = Globals(prog)
    refs = {}
    for fn in prog.functions.values():
        for b in fn.blocks.values():
            for i in b.instrs:
                for o in i.ops or ():
                    if isinstance(o, str) and "@" in o:
                        for n in NAME.findall(o):
                            refs.setdefault((fn.name, n), set()).add(o)
    nvar = set()
    for (fname, n), ops in sorted(refs.items()):
        fn = prog.functions[fname]
        if n in prog.functions:
            continue
        k, g = gl.glob(fn, n)
        if g is None or g.get("const") or g.get("private") or (g.get("ext") and g.get("init") is None):
            continue
        nvar.add(k)
        ws = [w for o in sorted(ops) for w in gl.writes(fn, o)]
        if ws and not selfonly(prog, gl, n, k):
            w = ws[0]
            res.bad(f"{fname}:{n}", f"the variable {n} keeps state between calls: it {w[2]} in {fname}", w[0].where(w[1]))
        else:
            res.ok(f"{fname} leaves the static variable {n} unchanged")
    for fn in prog.functions.values():
        u = None
        bad = False
        for c, i in callees(fn):
            if c in OUTSIDE:
                if u is None:
                    u = gl.users(fn)
                start = [i.dest] if i.dest else []
                start += [o for o in i.ops if isinstance(o, str) and o.startswith("%")]
                sink = flows(fn, u, start)
                if sink is not None or c in ("setenv", "putenv", "srandom", "srand48", "setlocale", "fesetround"):
                    bad = True
                    res.bad(f"{fn.name}:{c}", f"{fn.name} uses {c}: its result depends on more than its arguments", fn.where(i.line))
            elif c in SEED and fn.name not in SEED[c]:
                # an operation that is handed the seed may set it
                p = {("%" + x[0].lstrip("%")) for x in fn.params}
                if i.ops and i.ops[0] in p:
                    continue
                bad = True
                res.bad(f"{fn.name}:{c}", f"{fn.name} re-seeds the random generator", fn.where(i.line))
            elif c == "fopen" and i.ops and isinstance(i.ops[0], str) and i.ops[0].startswith("@"):
                g = gl.glob(fn, i.ops[0][1:])[1]
                if g and "/dev/" in str(g.get("init")):
                    bad = True
                    res.bad(f"{fn.name}:{c}", f"{fn.name} reads a system device", fn.where(i.line))
        if not bad:
            res.ok(f"{fn.name} reads no outside source")
    with open(SPEC) as fh:
        allowed = set(json.load(fh))
    base = set(baseline_functions())
    reach = reaching(prog, RAND)
    if not any(a in prog.functions for a in allowed):
        raise Anchor("none of the random operations is left")
    for fn in prog.functions.values():
        if fn.name in reach and fn.name in base and fn.name not in allowed:
            trace, x = [], fn.name
            while x in reach:
                trace.append(f"{prog.functions[x].where(reach[x][1])}: {x} calls {reach[x][0]}")
                x = reach[x][0]
            res.bad(f"{fn.name}:rand", f"{fn.name} is not a random operation but draws random numbers", fn.where(reach[fn.name][1]), trace)
        else:
            res.ok(f"{fn.name}: {'documented as random' if fn.name in reach else 'draws no random number'}")
    res.stats["variables"] = len(nvar)
    res.stats["functions_reaching_rand"] = len(reach)
    res.minimum = 1500
    return res


def spec(prog):
    return sorted(n for n in reaching(prog, RAND))
