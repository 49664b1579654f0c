"""The Python interface against the C library: declarations wrapped by SWIG (from the interface file and the headers it lists, through
clang's syntax tree), and an abstract interpreter for the Python side that follows where option values and C objects go."""
import ast, hashlib, json, os, re, subprocess, tempfile, shutil, copy as _copy
from fractions import Fraction
from . import ir

PYSTUB = """
typedef struct PyObjectS PyObject;
extern PyObject *PyExc_ValueError, *PyExc_TypeError;
extern void PyErr_Format(PyObject *, const char *, ...);
extern void PyErr_SetString(PyObject *, const char *);
"""


class Decl:
    """a function as Python sees it"""

    def __init__(self, name, target, ret, params, where):
        self.name, self.target, self.ret, self.params, self.where = name, target, ret, params, where
        self.slots = []          # indices of C parameters (first of a folded pair) in the order of the Python arguments

    def __repr__(self):
        return f"{self.ret} {self.name}({', '.join(t + ' ' + n for t, n in self.params)})"


def norm(t):
    t = re.sub(r"\b(const|volatile|struct|enum|extern|long unsigned int)\b", lambda m: "size_t" if m.group(0).startswith("long") else "", t)
    return re.sub(r"\s+", "", t)


def struct_of(t):
    m = re.match(r"^(?:const )?struct (\w+) (?:const )?\*$", t.strip())
    return m.group(1) if m else None


class Api:
    def __init__(self, repo):
        self.repo = repo
        self.file = os.path.join(repo, "wrappers/python/c3swig/c3.i")
        self.text = open(self.file).read()
        t = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), self.text, flags=re.S)
        t = re.sub(r"(?m)^\s*//.*$", "", t)
        self.clean = t
        self.headers = [h for h in re.findall(r'(?m)^\s*%include\s+"([^"]+\.h)"', t)]
        self.renames = {}
        for pub, inner in re.findall(r"%rename\s*\(\s*\"?(\w+)\"?\s*\)\s*(\w+)\s*;", t):
            self.renames[inner] = pub
        self.ignored = set(re.findall(r"%ignore\s+(\w+)\s*;", t))
        self.pairs = []
        for body in re.findall(r"%apply\s*\([^)]*\)\s*\{(.*?)\}", t, re.S):
            for a in re.findall(r"\(([^()]*)\)", body):
                self.pairs.append([self.typed(x) for x in a.split(",")])
        self.single = []
        for a in re.findall(r"%typemap\s*\(\s*in\s*\)\s*\(?([^({]*?)\)?\s*\{", t):
            self.single.append(self.typed(a))
        self.decls = {}
        self.consts = set()
        self.wrappers = {}
        self.read()

    def typed(self, s):
        s = s.strip()
        m = re.match(r"^(.*?[\s\*])(\w+)$", s, re.S)
        return (norm(m.group(1)), m.group(2)) if m else (norm(s), "")

    def read(self):
        inl = re.findall(r"%inline\s*%\{(.*?)%\}", self.clean, re.S)
        ext = re.findall(r"(?m)^\s*extern\s+[^;{]*;", self.clean)
        plain = re.findall(r"(?m)^(?:struct \w+ \*|void|double|int|size_t)\s*\w+\s*\([^;{}]*\)\s*;", re.sub(r"%(?:inline\s*)?%?\{.*?%\}", "", self.clean, flags=re.S))
        d = tempfile.mkdtemp(prefix="c3api-")
        try:
            for n, s in ir.STUBS.items():
                os.makedirs(os.path.join(d, "lib_funcs"), exist_ok=True)
                for p in (os.path.join(d, n), os.path.join(d, "lib_funcs", n)):
                    open(p, "w").write(s)
            src = ["#include <stddef.h>", "#include <stdio.h>"]
            src += [f'#include "{h}"' for h in self.headers]
            src += [PYSTUB] + ext + ["int c3_api_marker;"] + inl
            open(os.path.join(d, "api.c"), "w").write("\n".join(src) + "\n")
            incs = []
            for p in ir.include_dirs(self.repo) + [d]:
                incs += ["-I", p]
            r = subprocess.run(["clang", "-std=gnu99", "-w", "-fsyntax-only"] + incs + ["-Xclang", "-ast-dump=json", os.path.join(d, "api.c")],
                               capture_output=True, text=True)
            if not r.stdout or r.returncode:
                raise ir.FrontendError("the declarations wrapped by c3.i do not compile: " + r.stderr[:600])
            tree = json.loads(r.stdout)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        heads = {os.path.realpath(os.path.join(self.repo, "c3", h)) for h in self.headers}
        self.cur = None
        self.missing_headers = [h for h in self.headers if not os.path.exists(os.path.join(self.repo, "c3", h)) and os.path.basename(h) not in ir.STUBS]
        inline = False
        all_ = {}
        for x in tree["inner"]:
            f0 = self.locate(x)
            if x.get("name") == "c3_api_marker":
                inline = True
            if x["kind"] == "FunctionDecl":
                body = next((y for y in x.get("inner", ()) if y["kind"] == "CompoundStmt"), None)
                ps = [(y["type"].get("qualType", ""), y.get("name", "")) for y in x.get("inner", ()) if y["kind"] == "ParmVarDecl"]
                rt = x["type"]["qualType"].split("(")[0].strip()
                here = f0 and os.path.realpath(f0) in heads
                ours = f0 and f0.endswith("api.c")
                if not (here or ours):
                    continue
                if ours and body is not None:
                    name = x["name"]
                    pub = self.renames.get(name, name)
                    D = Decl(pub, name, rt, ps, "c3.i")
                    D.ast = x
                    self.wrappers[pub] = D
                    all_.setdefault(pub, []).append(D)
                elif x["name"] not in self.ignored or True:
                    D = Decl(x["name"], x["name"], rt, ps, ir.rel(f0) if here else "c3.i")
                    D.ast = None
                    all_.setdefault(x["name"], []).append(D)
            elif x["kind"] == "EnumDecl" and (f0 and (os.path.realpath(f0) in heads)):
                for y in x.get("inner", ()):
                    if y["kind"] == "EnumConstantDecl":
                        self.consts.add(y["name"])
        self.raw = all_
        for n, ds in all_.items():
            w = self.wrappers.get(n)
            if w is not None:
                D = w
            else:
                if n in self.ignored:
                    continue
                # SWIG wraps the first declaration it sees
                D = next((q for q in ds), None)
            self.fold(D)
            self.decls[n] = D

    def locate(self, x):
        """file of a declaration: clang prints it only when it changes"""
        first = [None]

        def walk(o, key=None):
            if isinstance(o, dict):
                if key in ("includedFrom",):
                    return
                if "offset" in o and "file" in o:
                    self.cur = o["file"]
                if "offset" in o and first[0] is None:
                    first[0] = self.cur
                for k, v in o.items():
                    if isinstance(v, (dict, list)):
                        walk(v, k)
            elif isinstance(o, list):
                for v in o:
                    walk(v)
        walk(x)
        return first[0]

    def fold(self, D):
        i = 0
        P = [(norm(t), n) for t, n in D.params]
        while i < len(P):
            hit = 0
            for pr in self.pairs:
                if len(pr) > 1 and P[i:i + len(pr)] == pr:
                    hit = len(pr)
            D.slots.append((i, hit or 1))
            i += hit or 1
        if [t for t, n in P] == ["void"]:
            D.slots = []


# ----------------------------------------------------------------------------- forwarding of the inline wrappers
def refs(x):
    """the parameter a C expression is, through casts and parentheses"""
    while x["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr"):
        x = x["inner"][-1]
    if x["kind"] == "DeclRefExpr":
        return x["referencedDecl"].get("id"), x["referencedDecl"].get("name"), x["referencedDecl"].get("kind")
    return None


def calls_in(x, out):
    if x.get("kind") == "CallExpr":
        out.append(x)
    for y in x.get("inner", ()):
        calls_in(y, out)
    return out


# ----------------------------------------------------------------------------- values of the Python interpreter
class Undecided(Exception):
    pass


class Raised(Exception):
    pass


def atom(name):
    """identities between values are decided at one fixed pseudo-random point: every value without structure gets its own coordinate"""
    return Fraction(int.from_bytes(hashlib.sha256(name.encode()).digest()[:6], "big") | 1, 1000003)


def val(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, float)):
        return Fraction(v) if v == v and abs(v) != float("inf") else None
    return v.val if isinstance(v, V) else None


def size(v):
    """number of elements of a sequence"""
    if isinstance(v, (list, tuple)):
        return Fraction(len(v))
    if isinstance(v, V):
        return v.length if v.length is not None else atom(f"len({v.text})") if v.val is not None else None
    return None


class V:
    """value computed from options: labels are (option, dimension)"""
    __slots__ = ("labels", "text", "num", "val", "length")

    def __init__(self, labels=(), text="?", num=False, val=None, length=None):
        self.labels, self.text, self.num, self.val, self.length = frozenset(labels), text, num, val, length

    def __repr__(self):
        return self.text


class Handle:
    n = 0

    def __init__(self, ctype, origin, owned, line, parent=None):
        Handle.n += 1
        self.id, self.ctype, self.origin, self.owned, self.line, self.parent = Handle.n, ctype, origin, owned, line, parent
        self.freed = None
        self.term = None
        self.labels = set()
        self.wraps = []
        self.fn = "the caller"

    def __repr__(self):
        return f"<{self.ctype} from {self.origin}>"


class Enum:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Enum) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class CFn:
    def __init__(self, name):
        self.name = name


class Obj:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}
        self.dead = False


class Cls:
    def __init__(self, node, bases, env):
        self.node, self.name, self.bases, self.env = node, node.name, bases, env
        self.members = {}

    def find(self, n):
        if n in self.members:
            return self.members[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.find(n)
                if r is not None:
                    return r
        return None


class Fn:
    def __init__(self, node, env, cls=None, kind=None):
        self.node, self.env, self.cls, self.kind = node, env, cls, kind
        self.name = getattr(node, "name", "<lambda>")


class Bound:
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn


class Mod:
    def __init__(self, name):
        self.name = name


class Builtin:
    def __init__(self, name, self_=None):
        self.name, self.self_ = name, self_


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


def labels_of(v, out=None):
    out = set() if out is None else out
    if isinstance(v, V):
        out |= v.labels
    elif isinstance(v, (list, tuple)):
        for x in v:
            labels_of(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            labels_of(x, out)
    return out


def txt(v):
    if isinstance(v, (V, Enum, Handle)):
        return repr(v)
    if isinstance(v, (Obj, Fn, Bound, Cls, Builtin, Mod, CFn)):
        return type(v).__name__
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(txt(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(f"{txt(k)}:{txt(x)}" for k, x in v.items()) + "}"
    return repr(v)


class Env:
    def __init__(self, up=None):
        self.v, self.up = {}, up

    def get(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e.v[n]
            e = e.up
        return None

    def has(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return True
            e = e.up
        return False


class Event:
    __slots__ = ("name", "args", "line", "fn", "ret", "kw")

    def __init__(self, name, args, line, fn):
        self.name, self.args, self.line, self.fn, self.ret = name, args, line, fn, None


class Interp:
    """one run of one scenario with a given list of decisions for the questions it cannot answer"""

    def __init__(self, world, decisions):
        self.W = world
        self.decisions = decisions       # list of (key, bool)
        self.asked = []
        self.known = {}
        self.events = []
        self.handles = []
        self.objs = []
        self.steps = 0
        self.stack = []
        self.wants = []
        self.problems = []               # (kind, line, text)

    # ---- decisions
    def ask(self, key):
        if key in self.known:
            return self.known[key]
        n = len(self.asked)
        r = self.decisions[n][1] if n < len(self.decisions) else True
        self.asked.append((key, r))
        self.known[key] = r
        return r

    # ---- running functions
    def call(self, f, args, kw, line):
        self.steps += 1
        if self.steps > 20000 or len(self.stack) > 30:
            raise Undecided("too long")
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + list(args), kw, line)
        if isinstance(f, CFn):
            if kw:
                raise Undecided("keyword arguments for a C function")
            return self.ccall(f.name, list(args), line)
        if isinstance(f, Cls):
            o = Obj(f)
            self.objs.append(o)
            init = f.find("__init__")
            if init is not None:
                self.call(init, [o] + list(args), kw, line)
            return o
        if isinstance(f, Builtin):
            return self.builtin(f, list(args), kw, line)
        if isinstance(f, Mod) and f.name == "np.linspace" and len(args) == 3 and not kw:
            return V(labels_of(list(args)), f"np.linspace({','.join(map(txt, args))})", length=val(args[2]))
        if isinstance(f, Mod) and f.name in ("np.min", "np.max", "np.amin", "np.amax") and len(args) == 1 and not kw and val(args[0]) is not None:
            t = f"np.{f.name[-3:]}({txt(args[0])})"
            return V(labels_of(list(args)), t, val=atom(t))
        if isinstance(f, V) and re.search(r"\.(min|max)$", f.text) and not args and not kw and f.val is not None:
            t = f"np.{f.text[-3:]}({f.text[:-4]})"
            return V(f.labels, t, val=atom(t))
        if isinstance(f, V) and f.text.endswith(".round") and f.val is not None:
            return V(f.labels, f.text + "()", val=atom(f.text))
        if isinstance(f, Mod) and f.name == "np.unique" and len(args) == 1 and not kw and val(args[0]) is not None:
            t = f"np.unique({txt(args[0])})"
            return V(labels_of(list(args)), t, val=atom(t))
        if isinstance(f, Mod) and f.name in ("np.array", "np.asarray", "np.copy", "np.ascontiguousarray") and len(args) == 1 and set(kw) <= {"dtype", "copy", "order"} and isinstance(args[0], V):
            return V(args[0].labels, args[0].text, val=args[0].val, length=args[0].length)
        if isinstance(f, Mod):
            return V(labels_of(list(args)) | labels_of(kw), f"{f.name}({','.join(map(txt, args))})", f.name in ("np.isinf", "np.isnan", "np.isfinite", "np.any", "np.all", "np.allclose"))
        if isinstance(f, Fn):
            return self.run(f, args, kw, line)
        if isinstance(f, V):
            return V(f.labels | labels_of(list(args)) | labels_of(kw), f"{f.text}(...)")
        raise Undecided(f"call of {txt(f)}")

    def run(self, f, args, kw, line):
        env = Env(f.env)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        dflt = a.defaults
        for i, n in enumerate(names):
            if i < len(args):
                env.v[n] = args[i]
        extra = list(args[len(names):])
        if a.vararg:
            env.v[a.vararg.arg] = tuple(extra)
        elif extra:
            self.problems.append(("py-arity", line, f"{f.name} is called with {len(args)} arguments and takes {len(names)}"))
            raise Raised()
        kw = dict(kw)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in env.v:
                    self.problems.append(("py-arity", line, f"{f.name} gets its argument {n} twice"))
                    raise Raised()
                env.v[n] = kw.pop(n)
        for n, d in zip(names[len(names) - len(dflt):], dflt):
            if n not in env.v:
                env.v[n] = self.ev(d, f.env)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env.v and d is not None:
                env.v[x.arg] = self.ev(d, f.env)
        if a.kwarg:
            env.v[a.kwarg.arg] = kw
        elif kw:
            self.problems.append(("py-arity", line, f"{f.name} has no argument {sorted(kw)[0]}"))
            raise Raised()
        for n in names:
            if n not in env.v:
                self.problems.append(("py-arity", line, f"{f.name} is called without its argument {n}"))
                raise Raised()
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        self.stack.append(f.name)
        try:
            self.block(f.node.body, env)
            return None
        except Ret as r:
            return r.v
        finally:
            self.stack.pop()

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 20000:
            raise Undecided("too long")
        k = type(s).__name__
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Undecided(f"statement {k}")
        return m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        v = self.ev(s.value, env)
        if isinstance(v, Handle) and v.owned and v.freed is None and isinstance(s.value, ast.Call):
            pass

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        raise Undecided("global")

    def s_Import(self, s, env):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            env.v[n] = Mod("c3") if a.name == "_c3" else Mod({"numpy": "np"}.get(a.name, a.name))

    def s_ImportFrom(self, s, env):
        for a in s.names:
            if s.module == "_c3":
                env.v[a.asname or a.name] = self.member(Mod("c3"), a.name, s.lineno)
            else:
                env.v[a.asname or a.name] = Builtin("deepcopy") if (s.module, a.name) == ("copy", "deepcopy") else Mod(f"{s.module}.{a.name}")

    def s_FunctionDef(self, s, env):
        env.v[s.name] = Fn(s, env)

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        c = Cls(s, bases, env)
        ce = Env(env)
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                kind = None
                for d in x.decorator_list:
                    if isinstance(d, ast.Name):
                        kind = d.id
                    else:
                        kind = "?"
                c.members[x.name] = Fn(x, env, c, kind)
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                c.members[x.targets[0].id] = self.ev(x.value, ce)
                ce.v[x.targets[0].id] = c.members[x.targets[0].id]
        env.v[s.name] = c

    def s_Return(self, s, env):
        raise Ret(self.ev(s.value, env) if s.value is not None else None)

    def s_Raise(self, s, env):
        raise Raised()

    def s_Assert(self, s, env):
        c = self.truth(s.test, env)
        if not c:
            raise Raised()

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.v.pop(t.id, None)
            else:
                raise Undecided("del")

    def s_If(self, s, env):
        if self.truth(s.test, env):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        a = self.ev(_load(s.target), env)
        b = self.ev(s.value, env)
        if isinstance(a, list) and isinstance(s.op, ast.Add) and isinstance(b, (list, tuple)):
            a.extend(b)
            return
        self.assign(s.target, self.binop(s.op, a, b), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.v[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (list, tuple)):
                if len(v) != len(t.elts):
                    raise Undecided("unpacking")
                for a, b in zip(t.elts, v):
                    self.assign(a, b, env)
            elif isinstance(v, V):
                for a in t.elts:
                    self.assign(a, v, env)
            else:
                raise Undecided("unpacking")
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Obj):
                o.attrs[t.attr] = v
            elif isinstance(o, (V, Mod)):
                pass
            else:
                raise Undecided("attribute store")
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            if isinstance(o, list):
                if isinstance(i, int):
                    if not -len(o) <= i < len(o):
                        raise Raised()
                    o[i] = v
                elif labels_of(v) or isinstance(v, Handle):
                    raise Undecided("element store")
            elif isinstance(o, dict):
                if isinstance(i, V):
                    raise Undecided("key")
                o[i] = v
            elif isinstance(o, V):
                pass
            else:
                raise Undecided("element store")
        else:
            raise Undecided("target")

    def items(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, V):
            return [V(v.labels, f"{v.text}[i]")]
        raise Undecided("iteration")

    def s_For(self, s, env):
        it = self.items(self.ev(s.iter, env))
        broke = False
        for x in it:
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except Brk:
                broke = True
                break
            except Cont:
                continue
        if not broke:
            self.block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while self.truth(s.test, env):
            n += 1
            if n > 8:
                raise Undecided("loop")
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cont:
                continue

    def s_Break(self, s, env):
        raise Brk()

    def s_Continue(self, s, env):
        raise Cont()

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except Raised:
                if not s.handlers:
                    raise
                self.block(s.handlers[0].body, env)
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def s_With(self, s, env):
        raise Undecided("with")

    # ---- expressions
    def truth(self, e, env):
        return self.decide(self.ev_cond(e, env))

    def decide(self, c):
        """c: bool or ('?', key) or value"""
        if isinstance(c, tuple) and len(c) == 3 and c[0] == "?":
            r = self.ask(c[1])
            return r == c[2]
        if isinstance(c, V):
            return self.ask("truth of " + c.text)
        if isinstance(c, (Handle, Obj, Fn, Cls, Bound)):
            return True
        return bool(c)

    def ev_cond(self, e, env):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.truth(e.operand, env)
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                r = self.truth(x, env)
                if isinstance(e.op, ast.And) and not r:
                    return False
                if isinstance(e.op, ast.Or) and r:
                    return True
            return isinstance(e.op, ast.And)
        return self.ev(e, env)

    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        if env.has(e.id):
            return env.get(e.id)
        if e.id in BUILTINS:
            return Builtin(e.id)
        if e.id in ("AttributeError", "ValueError", "TypeError", "Exception", "RuntimeError", "NotImplementedError", "object", "IndexError", "KeyError"):
            return Mod(e.id)
        raise Raised() if e.id in self.W.assigned else Undecided(f"name {e.id}")

    def member(self, o, a, line):
        if isinstance(o, Mod):
            if o.name == "c3":
                if a in self.W.api.consts:
                    return Enum(a)
                return CFn(a)
            if o.name == "np" and a in ("inf", "nan", "pi"):
                return V((), "np." + a)
            if o.name == "copy" and a in ("deepcopy", "copy"):
                return Builtin("deepcopy")
            return Mod(o.name + "." + a)
        if isinstance(o, Obj):
            if a in o.attrs:
                return o.attrs[a]
            m = o.cls.find(a)
            if m is None:
                self.problems.append(("py-name", line, f"{o.cls.name} has no attribute {a}"))
                raise Raised()
            if isinstance(m, Fn):
                if m.kind == "staticmethod":
                    return m
                if m.kind == "classmethod":
                    return Bound(o.cls, m)
                if m.kind == "property":
                    return self.call(m, [o], {}, line)
                if m.kind is not None:
                    raise Undecided("decorator")
                return Bound(o, m)
            return m
        if isinstance(o, Cls):
            m = o.find(a)
            if isinstance(m, Fn) and m.kind == "classmethod":
                return Bound(o, m)
            if m is None:
                if a in ("__name__",):
                    return o.name
                raise Undecided("class attribute")
            return m
        if isinstance(o, (list, dict, str, tuple)):
            return Builtin("." + a, o)
        if isinstance(o, V):
            return V(o.labels, f"{o.text}.{a}", val=atom(f"{o.text}.{a}") if o.val is not None and a in ("min", "max", "round") else None)
        if o is None:
            self.problems.append(("py-none", line, f"attribute {a} of None"))
            raise Raised()
        raise Undecided(f"attribute {a} of {txt(o)}")

    def e_Attribute(self, e, env):
        return self.member(self.ev(e.value, env), e.attr, e.lineno)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        i = self.ev(e.slice, env)
        if isinstance(o, dict):
            if isinstance(i, V):
                raise Undecided("key")
            if i not in o:
                self.problems.append(("py-none", e.lineno, f"no entry {i}"))
                raise Raised()
            return o[i]
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, int):
                if not -len(o) <= i < len(o):
                    self.problems.append(("py-none", e.lineno, f"element {i} of a sequence of {len(o)}"))
                    raise Raised()
                return o[i]
            if isinstance(i, slice):
                try:
                    return o[i]
                except TypeError:
                    raise Undecided("slice")
            if isinstance(i, V) and o and all(isinstance(x, type(o[0])) for x in o) and not isinstance(o[0], (Handle, Obj)):
                return V(labels_of(list(o)) | i.labels, f"{txt(o)}[{i.text}]")
            raise Undecided("index")
        if isinstance(o, V):
            return V(o.labels | labels_of(i if not isinstance(i, slice) else []), f"{o.text}[{txt(i)}]", val=atom(f"{o.text}[{i}]") if isinstance(i, int) and o.val is not None else None)
        if o is None:
            self.problems.append(("py-none", e.lineno, "element of None"))
            raise Raised()
        raise Undecided("subscript")

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.ev(x, env)
        a = [f(e.lower), f(e.upper), f(e.step)]
        if any(isinstance(x, V) for x in a):
            return V(labels_of(a), "slice")
        return slice(*a)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e, env))

    def elts(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                if not isinstance(v, (list, tuple)):
                    raise Undecided("star")
                out += list(v)
            else:
                out.append(self.ev(x, env))
        return out

    def e_List(self, e, env):
        return list(self.elts(e, env))

    def e_Dict(self, e, env):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, env)
                if not isinstance(d, dict):
                    raise Undecided("**")
                out.update(d)
            else:
                kk = self.ev(k, env)
                if isinstance(kk, V):
                    raise Undecided("key")
                out[kk] = self.ev(v, env)
        return out

    def e_JoinedStr(self, e, env):
        return V((), "fstring")

    def e_Lambda(self, e, env):
        return Fn(e, env)

    def comp(self, e, env):
        if len(e.generators) != 1:
            raise Undecided("comprehension")
        g = e.generators[0]
        v = self.ev(g.iter, env)
        sub = Env(env)
        for x in self.items(v):
            self.assign(g.target, x, sub)
            if all(self.truth(c, sub) for c in g.ifs):
                yield sub
        if isinstance(v, V):
            self.sym = True

    def e_ListComp(self, e, env):
        v = [self.ev(e.elt, s) for s in self.comp(e, env)]
        return v

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        out = {}
        for s in self.comp(e, env):
            out[self.ev(e.key, s)] = self.ev(e.value, s)
        return out

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(e.test, env) else e.orelse, env)

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.ev(x, env)
            t = self.decide(v)
            if isinstance(e.op, ast.And) and not t or isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e, env):
        if isinstance(e.op, ast.Not):
            return not self.truth(e.operand, env)
        v = self.ev(e.operand, env)
        if isinstance(v, (int, float)):
            return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
        x = val(v)
        return V(labels_of(v), f"-{txt(v)}" if isinstance(e.op, ast.USub) else txt(v), val=None if x is None else -x if isinstance(e.op, ast.USub) else x)

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        num = (int, float)
        try:
            if isinstance(a, num) and isinstance(b, num):
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b,
                        ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b}[type(op)]()
            if isinstance(op, ast.Mult) and isinstance(a, list) and isinstance(b, int):
                return a * b
            if isinstance(op, ast.Mult) and isinstance(b, list) and isinstance(a, int):
                return b * a
            if isinstance(op, ast.Add) and type(a) is type(b) and isinstance(a, (list, tuple, str)):
                return a + b
        except (KeyError, ZeroDivisionError, ArithmeticError):
            raise Undecided("arithmetic")
        if isinstance(a, Obj):
            m = a.cls.find({ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__"}.get(type(op), "?"))
            if m is not None:
                return self.call(m, [a, b], {}, 0)
        if isinstance(a, (Handle, Obj)) or isinstance(b, (Handle, Obj)):
            raise Undecided("arithmetic on objects")
        o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**"}.get(type(op), "?")
        x, y, z = val(a), val(b), None
        if x is not None and y is not None:
            if o in "+-*" and len(o) == 1:
                z = x + y if o == "+" else x - y if o == "-" else x * y
            elif o == "/" and y:
                z = x / y
            elif o == "**" and isinstance(b, int) and 0 <= b <= 4:
                z = x ** b
        return V(labels_of([a, b]), f"({txt(a)}{o}{txt(b)})", val=z)

    def e_Compare(self, e, env):
        if len(e.ops) != 1:
            l = self.ev(e.left, env)
            rs = [self.ev(x, env) for x in e.comparators]
            if all(isinstance(x, (int, float)) for x in [l] + rs):
                ok = True
                for op, a, b in zip(e.ops, [l] + rs, rs):
                    ok = ok and _cmp(op, a, b)
                return ok
            return V(labels_of([l] + rs), "compare " + " ".join(map(txt, [l] + rs)))
        op, a, b = e.ops[0], self.ev(e.left, env), self.ev(e.comparators[0], env)
        if isinstance(op, (ast.Is, ast.IsNot)):
            pos = isinstance(op, ast.Is)
            if b is None:
                return (a is None) == pos       # what a scenario passes is given: it leaves out what is to be None
            if b in (True, False) and isinstance(b, bool):
                if isinstance(a, V):
                    if a.num:                    # numpy's truth values are not Python's
                        return not pos
                    return ("?", f"{a.text} is {b}", pos)
                return (a is b) == pos
            if isinstance(a, V) or isinstance(b, V):
                return ("?", f"{txt(a)} is {txt(b)}", pos)
            return (a is b) == pos
        if isinstance(op, (ast.In, ast.NotIn)):
            pos = isinstance(op, ast.In)
            if isinstance(b, (list, tuple, dict)) and not isinstance(a, V) and not any(isinstance(x, V) for x in b):
                return (a in b) == pos
            return ("?", f"{txt(a)} in {txt(b)}", pos)
        if isinstance(a, (Enum, str, int, float, bool, type(None))) and isinstance(b, (Enum, str, int, float, bool, type(None))):
            try:
                return _cmp(op, a, b)
            except TypeError:
                raise Undecided("comparison")
        if isinstance(op, (ast.Eq, ast.NotEq)):
            x, y = sorted((txt(a), txt(b)))
            return ("?", f"{x} == {y}", isinstance(op, ast.Eq))
        if isinstance(op, (ast.Gt, ast.LtE)):
            return ("?", f"{txt(a)} > {txt(b)}", isinstance(op, ast.Gt))
        return ("?", f"{txt(b)} > {txt(a)}" if isinstance(op, ast.Lt) else f"{txt(a)} >= {txt(b)}", True)

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                if not isinstance(v, (list, tuple)):
                    if isinstance(f, Mod):
                        v = [v]
                    else:
                        raise Undecided("star")
                args += list(v)
            else:
                v = self.ev(x, env)
                args.append(self.resolve(v))
        kw = {}
        for k in e.keywords:
            v = self.resolve(self.ev(k.value, env))
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Undecided("**")
                kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e.lineno)

    def resolve(self, v):
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "?":
            return self.decide(v)
        return v

    # ---- builtins
    def builtin(self, f, a, kw, line):
        n = f.name
        if n == "super":
            raise Undecided("super")
        if n.startswith("."):
            return self.method(f.self_, n[1:], a, kw)
        if n == "range":
            if all(isinstance(x, int) for x in a):
                return list(range(*a))
            return V(labels_of(a), f"range({txt(a)})")
        if n == "len":
            if isinstance(a[0], (list, tuple, dict, str)):
                return len(a[0])
            return V(labels_of(a), f"len({txt(a[0])})", val=size(a[0]))
        if n == "list":
            if not a:
                return []
            if isinstance(a[0], (list, tuple, dict)):
                return list(a[0])
            return V(labels_of(a), f"list({txt(a[0])})", length=size(a[0]))
        if n == "tuple":
            return tuple(a[0]) if a and isinstance(a[0], (list, tuple)) else V(labels_of(a), "tuple")
        if n == "dict":
            d = {}
            if a:
                if not isinstance(a[0], dict):
                    raise Undecided("dict()")
                d.update(a[0])
            d.update(kw)
            return d
        if n in ("int", "float", "abs", "round", "str", "bool", "max", "min", "sum"):
            if n in ("int", "float") and len(a) == 1 and isinstance(a[0], (int, float)):
                return {"int": int, "float": float}[n](a[0])
            if n in ("max", "min") and all(isinstance(x, (int, float)) for x in a):
                return {"max": max, "min": min}[n](*a)
            if len(a) == 1 and isinstance(a[0], V) and n in ("int", "float"):
                return a[0]
            return V(labels_of(a), f"{n}({txt(a)})")
        if n == "print":
            return None
        if n == "isinstance":
            if isinstance(a[0], V):
                return ("?", f"isinstance({txt(a[0])},{txt(a[1]) if not isinstance(a[1], (Builtin, Mod)) else a[1].name})", True)
            t = a[1]
            if isinstance(t, Builtin):
                return isinstance(a[0], {"int": int, "float": float, "list": list, "str": str, "dict": dict, "tuple": tuple}.get(t.name, ()))
            if isinstance(t, Cls):
                return isinstance(a[0], Obj) and (a[0].cls is t or t in a[0].cls.bases)
            return False
        if n == "enumerate":
            return [(i, x) for i, x in enumerate(self.items(a[0]))] if not isinstance(a[0], V) else [(V(a[0].labels, "i"), V(a[0].labels, f"{a[0].text}[i]"))]
        if n == "zip":
            if all(isinstance(x, (list, tuple)) for x in a):
                return [tuple(x) for x in zip(*a)]
            return [tuple(self.items(x)[0] for x in a)]
        if n == "reversed":
            return list(reversed(self.items(a[0])))
        if n == "deepcopy":
            return deep(a[0])
        if n == "type":
            return V((), f"type({txt(a[0])})")
        if n == "getattr":
            if isinstance(a[1], str):
                return self.member(a[0], a[1], line)
            raise Undecided("getattr")
        if n == "hasattr":
            return V((), "hasattr")
        if n == "setattr":
            if isinstance(a[0], Obj) and isinstance(a[1], str):
                a[0].attrs[a[1]] = a[2]
                return None
            raise Undecided("setattr")
        raise Undecided(n)

    def method(self, o, n, a, kw):
        if isinstance(o, list):
            if n == "append":
                o.append(a[0])
                return None
            if n == "extend":
                o.extend(self.items(a[0]))
                return None
            if n == "insert":
                if not isinstance(a[0], int):
                    raise Undecided("insert")
                o.insert(a[0], a[1])
                return None
            if n == "pop":
                if not o:
                    raise Raised()
                return o.pop(*[x for x in a if isinstance(x, int)])
            if n == "copy":
                return list(o)
            if n == "clear":
                o.clear()
                return None
        if isinstance(o, dict):
            if n == "get":
                if isinstance(a[0], V):
                    raise Undecided("key")
                return o.get(a[0], a[1] if len(a) > 1 else None)
            if n == "items":
                return [(k, v) for k, v in o.items()]
            if n == "values":
                return list(o.values())
            if n == "keys":
                return list(o)
            if n == "update":
                for x in a:
                    if not isinstance(x, dict):
                        raise Undecided("update")
                    o.update(x)
                o.update(kw)
                return None
            if n == "copy":
                return dict(o)
            if n == "pop":
                return o.pop(a[0], a[1] if len(a) > 1 else None)
            if n == "setdefault":
                return o.setdefault(a[0], a[1] if len(a) > 1 else None)
        if isinstance(o, str):
            if n in ("lower", "upper", "strip") and not a:
                return getattr(o, n)()
            if n in ("startswith", "endswith") and a and isinstance(a[0], str):
                return getattr(o, n)(a[0])
            if n == "format":
                return V(labels_of(a), "format")
        raise Undecided(f"method {n}")

    # ---- calls into the library
    def ccall(self, name, args, line):
        ev = Event(name, list(args), line, self.stack[-1] if self.stack else "<module>")
        self.events.append(ev)
        W = self.W
        D = W.api.decls.get(name)
        for x in args:
            h = x
            while isinstance(h, Handle):
                if h.freed is not None:
                    fr = W.frees(name)
                    again = h is x and any(x is args[k] for k in self.slots_freed(D, fr, len(args)))
                    self.problems.append(("double" if again else "after", line, f"{name} " + ("releases again" if again else "is given") +
                                          f" the {h.ctype} from {h.origin} (line {h.line}) that was released at line {h.freed}" + ("" if h is x else f", through what {x.origin} returned")))
                    break
                h = h.parent
        if D is None:
            ev.ret = V((), f"{name}()")
            return ev.ret
        for k in self.slots_freed(D, W.frees(name), len(args)):
            if isinstance(args[k], Handle) and args[k].freed is None:
                args[k].freed = line
        if name in ("function_train_get_dim", "ft_param_get_dim", "c3approx_get_dim") and args and isinstance(args[0], Handle):
            ev.ret = 2
            return 2
        st = struct_of(D.ret) or ("double**" if norm(D.ret) == "double**" else None)
        if st is not None:
            own = W.fresh(name)
            parent = None
            if not own:
                hs = [x for x in args if isinstance(x, Handle)]
                parent = hs[0] if hs else None
            h = Handle(st, name, own, line, parent)
            h.fn = ev.fn
            h.args = list(args)
            self.handles.append(h)
            ev.ret = h
            return h
        lab = set()
        if D.ret != "void":
            lab = labels_of([x for x in args if not isinstance(x, Handle)])
        known = all(isinstance(x, (Handle, Enum, str)) or val(x) is not None for x in args)
        t = f"{name}({','.join(map(txt, args))})"
        ev.ret = V(lab, t, val=atom(t) if known else None) if D.ret != "void" else None
        return ev.ret

    def slots_freed(self, D, fr, n):
        """Python argument positions a function releases"""
        if D is None or not fr:
            return []
        return [k for k, (i, w) in enumerate(D.slots) if i in fr and k < n]


def deep(v):
    if isinstance(v, list):
        return [deep(x) for x in v]
    if isinstance(v, tuple):
        return tuple(deep(x) for x in v)
    if isinstance(v, dict):
        return {k: deep(x) for k, x in v.items()}
    return v


def _cmp(op, a, b):
    return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()


def _load(t):
    t = _copy.deepcopy(t)
    t.ctx = ast.Load()
    return t


BUILTINS = {"range", "len", "list", "dict", "tuple", "int", "float", "abs", "str", "bool", "print", "isinstance", "enumerate", "zip", "max", "min", "sum",
            "reversed", "super", "type", "getattr", "hasattr", "setattr", "round"}


# functions documented to hand their result to the caller although the analysis of their many paths cannot tell
TRANSFER = {"ft_regress_run"}


class World:
    """the module under analysis, and what is known about the C functions"""

    def __init__(self, repo, own):
        self.repo = repo
        self.own = own
        self.api = Api(repo)
        self.path = os.path.join(repo, "wrappers/python/c3py/c3py.py")
        self.text = open(self.path).read()
        self.tree = ast.parse(self.text)
        self.assigned = {n.id for n in ast.walk(self.tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        self._fr = {}
        self._ow = {}

    def cname(self, name):
        D = self.api.decls.get(name)
        return name

    def frees(self, name):
        """indices of the C parameters a function releases on all paths"""
        if name not in self._fr:
            c = self.cname(name)
            f = self.own.prog.functions.get(c)
            self._fr[name] = {k for k in range(len(f.params)) if self.own.param(c, k).frees == "must"} if f is not None and name not in self.api.wrappers else set()
        return self._fr[name]

    def fresh(self, name):
        """whether the function hands out an object that the caller has to release"""
        if name not in self._ow:
            f = self.own.prog.functions.get(name)
            self._ow[name] = bool(f is not None and (name in TRANSFER or self.own.fresh(name)))
        return self._ow[name]

    def retained(self, name):
        """indices of the C parameters whose pointer is stored into the object the function returns"""
        F = self.own.fn(name)
        if F is None or str(F.f.ret) != "ptr":
            return set()
        rets = {b.term.ops[0] for b in F.f.blocks.values() if b.term is not None and b.term.op == "ret" and b.term.ops}
        if len(rets) != 1:
            return set()
        out = set()
        pars = [p[0] for p in F.f.params]
        for b in F.f.blocks.values():
            for i in b.instrs:
                if i.op == "store" and i.ops[0] in pars:
                    x = i.ops[1]
                    while F.dfn.get(x) is not None and F.dfn[x].op in ("gep", "cast"):
                        x = F.dfn[x].ops[0]
                    if x in rets:
                        out.add(pars.index(i.ops[0]))
        return out

    def borrowed(self, name):
        """whether the function certainly returns a part of something else: every result is read from memory it did not write"""
        F = self.own.fn(name)
        if F is None or name in TRANSFER:
            return False
        slots = self.own.slots(F)
        todo, seen, some = [b.term.ops[0] for b in F.f.blocks.values() if b.term is not None and b.term.op == "ret" and b.term.ops], set(), False
        while todo:
            x = todo.pop()
            if x in seen or x in ("null", "undef", "poison"):
                continue
            seen.add(x)
            i = F.dfn.get(x)
            if i is None:
                return False
            if i.op in ("phi", "cast", "freeze"):
                todo.extend(i.ops)
            elif i.op == "select":
                todo.extend(i.ops[1:])
            elif i.op == "load" and i.ops[0] not in slots:
                some = True
            else:
                return False
        return some

    def runs(self, scenario, limit=400):
        """all runs of a scenario: a function of (interpreter, module environment)"""
        decisions, n = [], 0
        while True:
            n += 1
            if n > limit:
                raise Undecided("too many paths")
            I = Interp(self, decisions)
            env = Env()
            I.block(self.tree.body, env)
            I.events.clear()
            ended = None
            try:
                ended = scenario(I, env)
                status = "ok"
            except Raised:
                status = "raised"
            yield I, status, ended
            # next combination
            d = list(I.asked)
            while d and d[-1][1] is False:
                d.pop()
            if not d:
                return
            d[-1] = (d[-1][0], False)
            decisions = d
