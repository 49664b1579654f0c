"""Front end: compiles every library translation unit of /repo to LLVM IR with the
repository's own headers, parses the IR text and builds a whole-program model:
functions, CFGs, SSA instructions, source lines, struct layouts with field names,
parameter types with const-ness, enums and constant tables.

Nothing is executed; the IR is only read.
"""
import os, re, subprocess, sys, glob, hashlib, pickle, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from .inline import inline_helpers

REPO = os.environ.get("C3_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), ".cache")

STUBS = {
    "legtens.h": "extern const double lpolycoeffs[];\n",
    "hermtens.h": "extern const double hermpolycoeffs[];\n",
}


class FrontendError(Exception):
    pass


# ----------------------------------------------------------------------------- model
class Instr:
    __slots__ = ("op", "dest", "type", "ops", "extra", "line", "idx", "block", "fn", "fline")

    def __init__(self, op, dest, type_, ops, extra, line):
        self.op = op
        self.dest = dest
        self.type = type_
        self.ops = ops
        self.extra = extra
        self.line = line
        self.idx = None
        self.block = None

    def __repr__(self):
        return f"<{self.dest}={self.op} {self.type} {self.ops} {self.extra} @{self.line}>"


class Block:
    __slots__ = ("label", "instrs", "preds", "succs", "term")

    def __init__(self, label):
        self.label = label
        self.instrs = []
        self.preds = []
        self.succs = []


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []      # [(name, irtype)]
        self.ret = None
        self.blocks = {}
        self.static = False
        self.file = None
        self.line = 0
        self.ptypes = []      # DI types of params
        self.rtype = None
        self.defs = {}
        self.entry = None
        self.varnames = {}

    def __repr__(self):
        return f"<fn {self.name}>"

    def where(self, line=None):
        return f"{rel(self.file)}:{line or self.line}"


class CType:
    """A C type recovered from debug info: kind in base, ptr, struct, enum, array, func, void."""
    __slots__ = ("kind", "name", "to", "const", "count", "typedef")

    def __init__(self, kind, name=None, to=None, const=False, count=None):
        self.kind = kind
        self.name = name
        self.to = to
        self.const = const
        self.count = count
        self.typedef = None

    def __repr__(self):
        c = "const " if self.const else ""
        if self.kind == "ptr":
            return f"{self.to!r}*{' const' if self.const else ''}"
        if self.kind == "array":
            return f"{self.to!r}[{self.count}]"
        return f"{c}{self.name or self.kind}"

    def strip(self):
        return self


def rel(p):
    if p and p.startswith(REPO + "/"):
        return p[len(REPO) + 1:]
    return p


# ----------------------------------------------------------------------------- sources
def library_sources(repo=REPO):
    """The translation units of the library: c3/lib_*/*.c, as CMake globs them."""
    out = sorted(glob.glob(os.path.join(repo, "c3", "lib_*", "*.c")))
    return out


def include_dirs(repo=REPO):
    d = [os.path.join(repo, "include"), os.path.join(repo, "c3")]
    d += sorted(p for p in glob.glob(os.path.join(repo, "c3", "lib_*")) if os.path.isdir(p))
    return d


def tree_hash(repo=REPO):
    h = hashlib.sha256(os.environ.get("C3_INLINE", "").encode())
    files = []
    for d in include_dirs(repo):
        for f in sorted(os.listdir(d)):
            if f.endswith((".c", ".h")):
                files.append(os.path.join(d, f))
    for f in sorted(set(files)):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    for p in (os.path.abspath(__file__), os.path.join(HERE, "inline.py"), os.path.join(HERE, "names.txt")):
        if os.path.exists(p):
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def known_names():
    """Names of the functions the library has; helpers extracted from them later are inlined."""
    try:
        with open(os.path.join(HERE, "names.txt")) as fh:
            k = set(fh.read().split())
        if os.environ.get("C3_INLINE"):            # test of the rules: these count as helpers too
            k -= set(open(os.environ["C3_INLINE"]).read().split())
        return k
    except OSError:
        return None


def compile_all(repo, outdir):
    stub = os.path.join(outdir, "stub")
    os.makedirs(stub, exist_ok=True)
    for n, t in STUBS.items():
        with open(os.path.join(stub, n), "w") as fh:
            fh.write(t)
    incs = []
    for d in include_dirs(repo):
        incs += ["-I", d]
    incs += ["-I", stub]
    srcs = library_sources(repo)
    if len(srcs) < 20:
        raise FrontendError(f"only {len(srcs)} library sources found under {repo}/c3")

    known = known_names()

    def one(src):
        base = os.path.join(outdir, os.path.basename(src)[:-2])
        raw, ll = base + ".raw.ll", base + ".ll"
        cmd = ["clang", "-std=gnu99", "-w", "-O0", "-g", "-Xclang", "-disable-O0-optnone",
               "-ffp-contract=off", "-fno-discard-value-names", "-S", "-emit-llvm"] + incs + ["-o", raw, src]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return src, None, r.stderr
        inline_helpers(raw, known)
        r = subprocess.run(["opt", "-S", "-passes=sroa,loop-simplify", "-o", ll, raw], capture_output=True, text=True)
        if r.returncode or "invalid debug info" in r.stderr:
            return src, None, r.stderr
        return src, ll, ""

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, srcs))
    bad = [(s, e) for s, l, e in res if l is None]
    if bad:
        raise FrontendError("does not compile: " + "; ".join(f"{s}: {e[:400]}" for s, e in bad))
    return [(s, l) for s, l, _ in res]


# ----------------------------------------------------------------------------- metadata
_md_line = re.compile(r"^!(\d+) = (distinct )?(.*)$")


class Metadata:
    def __init__(self):
        self.raw = {}
        self.cache = {}
        self.types = {}

    def add(self, n, text):
        self.raw[n] = text

    def node(self, n):
        if n in self.cache:
            return self.cache[n]
        t = self.raw.get(n)
        if t is None:
            return None
        r = self._parse(t)
        self.cache[n] = r
        return r

    _kv = re.compile(r'(\w+): ("(?:[^"\\]|\\.)*"|!\{[^}]*\}|!DIExpression\([^)]*\)|[^,()]+)')

    def _parse(self, t):
        if t.startswith("!{"):
            return ("list", [None if x.strip() == "null" else (int(x.strip()[1:]) if re.match(r"^!\d+$", x.strip()) else x.strip())
                             for x in t[2:-1].split(",")] if t != "!{}" else [])
        m = re.match(r"!(DI\w+)\((.*)\)$", t)
        if not m:
            return ("other", t)
        d = {}
        for k, v in self._kv.findall(m.group(2)):
            v = v.strip()
            if v.startswith('"'):
                v = v[1:-1]
            elif re.match(r"^!\d+$", v):
                v = ("md", int(v[1:]))
            d[k] = v
        return (m.group(1), d)

    def ctype(self, n, depth=0):
        if n is None:
            return CType("void", "void")
        if isinstance(n, tuple):
            n = n[1]
        if n in self.types:
            return self.types[n]
        nd = self.node(n)
        k, d = nd
        if k == "DIBasicType":
            r = CType("base", d.get("name"))
        elif k == "DIDerivedType":
            tag = d.get("tag")
            base = d.get("baseType")
            if tag == "DW_TAG_pointer_type":
                r = CType("ptr")
                self.types[n] = r
                r.to = self.ctype(base[1] if isinstance(base, tuple) else None)
                return r
            b = self.ctype(base[1] if isinstance(base, tuple) else None)
            if tag == "DW_TAG_const_type":
                r = CType(b.kind, b.name, b.to, True, b.count)
                r.typedef = b.typedef
            elif tag == "DW_TAG_typedef":
                r = CType(b.kind, b.name or d.get("name"), b.to, b.const, b.count)
                r.typedef = d.get("name")
                if b.kind == "base":
                    r.name = d.get("name")
            else:
                r = b
        elif k == "DICompositeType":
            tag = d.get("tag")
            if tag == "DW_TAG_array_type":
                cnt = None
                el = d.get("elements")
                if isinstance(el, tuple):
                    _, l = self.node(el[1])
                    tot = 1
                    for e in l:
                        kk, dd = self.node(e)
                        c = dd.get("count")
                        try:
                            tot *= int(c)
                        except (TypeError, ValueError):
                            tot = None
                            break
                    cnt = tot
                r = CType("array", None, self.ctype(d["baseType"][1]), False, cnt)
            elif tag == "DW_TAG_enumeration_type":
                r = CType("enum", d.get("name"))
            elif tag == "DW_TAG_union_type":
                r = CType("struct", d.get("name"))
            else:
                r = CType("struct", d.get("name"))
        elif k == "DISubroutineType":
            r = CType("func")
        else:
            r = CType("other", k)
        self.types[n] = r
        return r


# ----------------------------------------------------------------------------- lexing helpers
def split_top(s, sep=","):
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    inq = False
    while i < n:
        c = s[i]
        if inq:
            cur.append(c)
            if c == '"':
                inq = False
        elif c == '"':
            inq = True
            cur.append(c)
        elif c in "([{<":
            depth += 1
            cur.append(c)
        elif c in ")]}>":
            depth -= 1
            cur.append(c)
        elif c == sep and depth == 0:
            out.append("".join(cur).strip())
            cur = []
        else:
            cur.append(c)
        i += 1
    last = "".join(cur).strip()
    if last:
        out.append(last)
    return out


_ATTR = re.compile(r"\b(noundef|nonnull|nocapture|readonly|writeonly|signext|zeroext|noalias|immarg|"
                   r"align \d+|returned|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|"
                   r"byval\([^)]*\)|sret\([^)]*\)|range\([^)]*\))\s*")


def strip_attrs(s):
    return _ATTR.sub("", s).strip()


def split_type(s):
    """'i64 %x' -> ('i64', '%x');  '[2 x double] zeroinitializer' etc."""
    s = s.strip()
    depth = 0
    for i, c in enumerate(s):
        if c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
        elif c == " " and depth == 0:
            return s[:i], s[i + 1:].strip()
    return s, ""


_dbg = re.compile(r", !dbg !(\d+)")
_loop = re.compile(r", !llvm\.loop !\d+")
_align = re.compile(r", align \d+")
_callre = re.compile(r"^(?:tail |musttail |notail )?call (?:fast |nnan |ninf |nsz |arcp |contract |afn |reassoc )*(.*)$")


def parse_const_gep(s):
    """constant expression getelementptr inbounds (T, ptr @g, i64 0, i64 3)"""
    m = re.match(r"getelementptr (?:inbounds )?\((.*)\)$", s)
    if not m:
        return None
    parts = split_top(m.group(1))
    ty = parts[0]
    bt, bv = split_type(parts[1])
    idx = [split_type(p)[1] for p in parts[2:]]
    return ("cgep", ty, bv, tuple(idx))


def operand(s):
    s = s.strip()
    if s.startswith("getelementptr"):
        g = parse_const_gep(s)
        if g:
            return g
    return s


# ----------------------------------------------------------------------------- parser
class Module:
    def __init__(self, src):
        self.src = src
        self.functions = {}
        self.structs = {}
        self.globals = {}
        self.decls = {}
        self.md = Metadata()


def parse_module(src, path):
    mod = Module(src)
    md = mod.md
    with open(path) as fh:
        lines = fh.read().split("\n")
    # metadata first
    fl = []
    for ln in lines:
        if ln.startswith("!"):
            m = _md_line.match(ln)
            if m:
                md.add(int(m.group(1)), m.group(3))
        else:
            fl.append(ln)
    linecache = {}

    def dbgline(n):
        if n in linecache:
            return linecache[n]
        t = md.raw.get(n, "")
        m = re.search(r"line: (\d+)", t)
        r = int(m.group(1)) if m else 0
        linecache[n] = r
        return r

    i = 0
    n = len(fl)
    pend = {}
    while i < n:
        ln = fl[i]
        if ln.startswith("define "):
            m = re.match(r"define (.*?)@([\w.$\"]+)\((.*)\)([^()]*)\{$", ln)
            if not m:
                raise FrontendError(f"cannot parse: {ln}")
            pre, name, params, post = m.groups()
            fn = Function(name)
            fn.static = "internal" in pre.split()
            fn.ret = split_ret(pre)
            for p in split_top(params):
                if p == "...":
                    fn.params.append(("...", "..."))
                    continue
                p = strip_attrs(p)
                t, v = split_type(p)
                fn.params.append((v, t))
            fn.file = src
            mm = re.search(r"!dbg !(\d+)", post)
            if mm:
                sp = md.node(int(mm.group(1)))
                fn.line = int(sp[1].get("line", 0))
                fnode = sp[1].get("file")
                if isinstance(fnode, tuple):
                    fd = md.node(fnode[1])
                    f = fd[1].get("filename", src)
                    if not os.path.isabs(f):
                        f = os.path.join(fd[1].get("directory", ""), f)
                    fn.file = f
                st = md.node(sp[1]["type"][1])
                tl = md.node(st[1]["types"][1])[1]
                tys = [md.ctype(x) for x in tl]
                if tys:
                    fn.rtype = tys[0]
                    fn.ptypes = tys[1:]
            i += 1
            cur = Block("entry")
            # first block label may be explicit
            first = True
            while fl[i] != "}":
                l = fl[i]
                i += 1
                if not l:
                    continue
                if l[0] != " ":
                    lab = l.split(":")[0]
                    if lab.startswith('"'):
                        lab = lab.strip('"')
                    if first:
                        cur = Block(lab)
                    else:
                        cur = Block(lab)
                    fn.blocks[lab] = cur
                    first = False
                    continue
                if first:
                    fn.blocks[cur.label] = cur
                    first = False
                s = l.strip()
                # multi-line switch
                if s.startswith("switch ") and s.endswith("["):
                    while True:
                        l2 = fl[i].strip()
                        i += 1
                        s += " " + l2
                        if l2.startswith("]"):
                            break
                if "@llvm.dbg." in s:
                    mm = re.search(r"metadata (\S+) (%[\w.\-]+), metadata !(\d+)", s)
                    if mm:
                        lv = md.node(int(mm.group(3)))
                        if lv and lv[0] == "DILocalVariable":
                            fn.varnames.setdefault(mm.group(2), lv[1].get("name"))
                    continue
                ins = parse_instr(s, dbgline)
                if ins:
                    ins.block = cur.label
                    cur.instrs.append(ins)
            finish(fn)
            mod.functions[name] = fn
        elif ln.startswith("%") and " = type " in ln:
            nm, body = ln.split(" = type ", 1)
            nm = nm[1:]
            if body.strip() == "opaque":
                mod.structs.setdefault(nm, None)
            else:
                b = body.strip().lstrip("<").rstrip(">").strip()
                mod.structs[nm] = split_top(b[1:-1].strip())
        elif ln.startswith("@"):
            m = re.match(r"@([\w.$\"]+) = (.*)$", ln)
            if m:
                gname, rest = m.groups()
                isconst = bool(re.search(r"\bconstant\b", rest))
                isext = bool(re.match(r"^(external|extern_weak)\b", rest))
                private = rest.startswith("private")
                internal = rest.startswith("internal")
                rest2 = re.sub(r"^.*?\b(global|constant) ", "", rest, count=1)
                rest2 = re.sub(r"(, align \d+)?(, !dbg !\d+)?\s*$", "", rest2)
                rest2 = re.sub(r", align \d+$", "", rest2)
                ty, init = split_type(rest2)
                dl = None
                dm = re.search(r"!dbg !(\d+)", rest)
                mod.globals[gname] = dict(const=isconst, ext=isext, private=private, internal=internal,
                                          type=ty, init=init, src=src, dbg=int(dm.group(1)) if dm else None)
        elif ln.startswith("declare "):
            m = re.match(r"declare (.*?)@([\w.$]+)\((.*)\)", ln)
            if m:
                mod.decls[m.group(2)] = (m.group(1), m.group(3))
        i += 1
    return mod


def split_ret(pre):
    toks = strip_attrs(pre)
    toks = re.sub(r"\b(dso_local|internal|hidden|local_unnamed_addr|weak|linkonce_odr)\b", "", toks).strip()
    return toks or "void"


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint",
         "inttoptr", "bitcast"}


def parse_instr(s, dbgline):
    m = _dbg.search(s)
    line = 0
    if m:
        line = dbgline(int(m.group(1)))
        s = _dbg.sub("", s)
    s = _loop.sub("", s)
    dest = None
    m = re.match(r"^(%[\w.$\-\"]+) = (.*)$", s)
    if m:
        dest, s = m.groups()
    op = s.split(" ", 1)[0]
    rest = s[len(op):].strip()
    if op in ("tail", "musttail", "notail"):
        op = "call"
        rest = rest[5:].strip() if rest.startswith("call ") else rest
    if op == "load":
        rest = _align.sub("", rest)
        if rest.startswith("volatile "):
            rest = rest[9:]
        p = split_top(rest)
        return Instr("load", dest, p[0], [operand(split_type(p[1])[1])], None, line)
    if op == "store":
        rest = _align.sub("", rest)
        if rest.startswith("volatile "):
            rest = rest[9:]
        p = split_top(rest)
        t, v = split_type(p[0])
        return Instr("store", None, t, [operand(v), operand(split_type(p[1])[1])], None, line)
    if op == "getelementptr":
        rest = re.sub(r"^inbounds ", "", rest)
        p = split_top(rest)
        return Instr("gep", dest, p[0], [operand(split_type(x)[1]) for x in p[1:]], None, line)
    if op == "call":
        rest = re.sub(r"^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )+", "", rest)
        # strip trailing attribute refs
        # find callee: last '(' matching at top-level
        m = re.search(r"([@%][\w.$\"\-]+)\(", rest)
        if not m:
            if "asm" in rest:
                return Instr("call", dest, "void", [], "asm", line)
            raise FrontendError("cannot parse call: " + rest)
        callee = m.group(1)
        rty = strip_attrs(rest[:m.start()])
        # function type for varargs:  i32 (ptr, ptr, ...)
        mm = re.match(r"^(.*?)\s*\(.*\)$", rty)
        if mm:
            rty = mm.group(1)
        depth = 0
        j = m.end() - 1
        for k in range(j, len(rest)):
            c = rest[k]
            if c == "(":
                depth += 1
            elif c == ")":
                depth -= 1
                if depth == 0:
                    break
        args = []
        atys = []
        for a in split_top(rest[j + 1:k]):
            a = strip_attrs(a)
            t, v = split_type(a)
            if t == "metadata":
                continue
            args.append(operand(v))
            atys.append(t)
        ins = Instr("call", dest, rty, args, callee, line)
        ins.fline = atys
        return ins
    if op == "br":
        if rest.startswith("label"):
            return Instr("br", None, None, [], [lab(rest)], line)
        p = split_top(rest)
        return Instr("br", None, "i1", [split_type(p[0])[1]], [lab(p[1]), lab(p[2])], line)
    if op == "switch":
        m = re.match(r"(\S+) (\S+), label %([\w.\-\"]+) \[(.*)\]$", rest)
        t, v, d, cases = m.groups()
        cs = re.findall(r"\S+ (-?\d+), label %([\w.\-]+)", cases)
        return Instr("switch", None, t, [v], ([d] + [c[1] for c in cs], [int(c[0]) for c in cs]), line)
    if op == "ret":
        if rest == "void":
            return Instr("ret", None, "void", [], None, line)
        t, v = split_type(rest)
        return Instr("ret", None, t, [operand(v)], None, line)
    if op == "phi":
        t, v = split_type(rest)
        inc = []
        for a in split_top(v):
            a = a.strip()[1:-1].strip()
            val, bl = [x.strip() for x in split_top(a)]
            inc.append((operand(val), bl.lstrip("%").strip('"')))
        return Instr("phi", dest, t, [x[0] for x in inc], [x[1] for x in inc], line)
    if op in ("icmp", "fcmp"):
        rest = re.sub(r"^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|samesign) )+", "", rest)
        pred, r2 = rest.split(" ", 1)
        p = split_top(r2)
        t, a = split_type(p[0])
        return Instr(op, dest, t, [operand(a), operand(p[1])], pred, line)
    if op in BINOPS:
        rest = re.sub(r"^((nuw|nsw|exact|fast|disjoint|nnan|ninf|nsz|arcp|contract|afn|reassoc) )+", "", rest)
        p = split_top(rest)
        t, a = split_type(p[0])
        return Instr("bin", dest, t, [operand(a), operand(p[1])], op, line)
    if op == "fneg":
        t, a = split_type(rest)
        return Instr("fneg", dest, t, [operand(a)], None, line)
    if op in CASTS:
        rest = re.sub(r"^((nneg|nuw|nsw) )+", "", rest)
        m = re.match(r"(.*) to (\S.*)$", rest)
        t, a = split_type(m.group(1))
        return Instr("cast", dest, m.group(2), [operand(a)], (op, t), line)
    if op == "select":
        p = split_top(rest)
        return Instr("select", dest, split_type(p[1])[0], [operand(split_type(x)[1]) for x in p], None, line)
    if op == "alloca":
        rest = _align.sub("", rest)
        p = split_top(rest)
        cnt = None
        if len(p) > 1:
            cnt = operand(split_type(p[1])[1])
        return Instr("alloca", dest, p[0], [cnt] if cnt else [], None, line)
    if op == "unreachable":
        return Instr("unreachable", None, None, [], None, line)
    if op == "extractvalue":
        p = split_top(rest)
        t, a = split_type(p[0])
        return Instr("extractvalue", dest, t, [operand(a)], int(p[1]), line)
    if op == "insertvalue":
        p = split_top(rest)
        return Instr("insertvalue", dest, split_type(p[0])[0], [operand(split_type(p[0])[1]), operand(split_type(p[1])[1])], int(p[2]), line)
    if op == "freeze":
        t, a = split_type(rest)
        return Instr("freeze", dest, t, [operand(a)], None, line)
    if op in ("va_arg", "fence"):
        return Instr(op, dest, None, [], None, line)
    return Instr("other:" + op, dest, None, [], rest, line)


def lab(s):
    return s.replace("label", "", 1).strip().lstrip("%").strip('"')


def finish(fn):
    k = 0
    for b in fn.blocks.values():
        for ins in b.instrs:
            ins.idx = k
            k += 1
            if ins.dest:
                fn.defs[ins.dest] = ins
        t = b.instrs[-1]
        b.term = t
        if t.op == "br":
            b.succs = list(dict.fromkeys(t.extra))
        elif t.op == "switch":
            b.succs = list(dict.fromkeys(t.extra[0]))
    for b in fn.blocks.values():
        for s in b.succs:
            fn.blocks[s].preds.append(b.label)
    fn.entry = next(iter(fn.blocks))


class Program:
    def __init__(self):
        self.functions = {}
        self.structs = {}        # name -> list of ir types
        self.fields = {}         # name -> [(fieldname, CType)]
        self.globals = {}
        self.enums = {}
        self.decls = {}
        self.dups = {}
        self.files = []
        self.nlines = 0
        self.sizes = {}

    # -- sizes -------------------------------------------------------------
    def sizeof(self, ty):
        if ty in self.sizes:
            return self.sizes[ty]
        r = self._sizeof(ty)[0]
        self.sizes[ty] = r
        return r

    def _sizeof(self, ty):
        ty = ty.strip()
        if ty in ("ptr", "i64", "double"):
            return 8, 8
        if ty in ("i32", "float"):
            return 4, 4
        if ty == "i16":
            return 2, 2
        if ty in ("i8", "i1"):
            return 1, 1
        if ty == "void":
            return 1, 1
        if ty == "x86_fp80":
            return 16, 16
        m = re.match(r"^\[(\d+) x (.*)\]$", ty)
        if m:
            s, a = self._sizeof(m.group(2))
            return int(m.group(1)) * s, a
        if ty.startswith("%"):
            el = self.structs.get(ty[1:])
            if el is None:
                return 8, 8
            return self._structsize(el)
        if ty.startswith("{"):
            return self._structsize(split_top(ty[1:-1].strip()))
        return 8, 8

    def _structsize(self, el):
        off, al = 0, 1
        for e in el:
            s, a = self._sizeof(e)
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al

    def field_offset(self, sname, idx):
        off = 0
        el = self.structs[sname]
        for k, e in enumerate(el):
            s, a = self._sizeof(e)
            off = (off + a - 1) // a * a
            if k == idx:
                return off
            off += s
        return off

    def field_at(self, sname, off):
        el = self.structs.get(sname)
        if not el:
            return None
        o = 0
        for k, e in enumerate(el):
            s, a = self._sizeof(e)
            o = (o + a - 1) // a * a
            if o == off:
                return k
            o += s
        return None

    def fieldname(self, sname, idx):
        f = self.fields.get(sname)
        if f and idx < len(f):
            return f[idx][0]
        return str(idx)

    def callees(self, fn):
        for b in fn.blocks.values():
            for i in b.instrs:
                if i.op == "call" and isinstance(i.extra, str) and i.extra.startswith("@"):
                    yield i.extra[1:], i


def collect_types(prog, mod):
    md = mod.md
    for n, t in md.raw.items():
        if t.startswith("!DICompositeType("):
            k, d = md.node(n)
            tag = d.get("tag")
            if tag in ("DW_TAG_structure_type", "DW_TAG_union_type") and "elements" in d and isinstance(d["elements"], tuple):
                name = d.get("name")
                if not name:
                    continue
                key = ("struct." if tag == "DW_TAG_structure_type" else "union.") + name
                if key in prog.fields:
                    continue
                _, l = md.node(d["elements"][1])
                fs = []
                for e in l:
                    kk, dd = md.node(e)
                    bt = dd.get("baseType")
                    fs.append((dd.get("name", "?"), md.ctype(bt[1] if isinstance(bt, tuple) else None)))
                prog.fields[key] = fs
            elif tag == "DW_TAG_enumeration_type" and isinstance(d.get("elements"), tuple):
                name = d.get("name") or f"anon{n}"
                _, l = md.node(d["elements"][1])
                prog.enums.setdefault(name, [(md.node(e)[1]["name"], int(md.node(e)[1]["value"])) for e in l])


def load(repo=None, use_cache=True):
    repo = repo or REPO
    h = tree_hash(repo)
    cpath = os.path.join(CACHE, "ir-" + h[:24] + ".pkl")
    sys.setrecursionlimit(100000)
    if use_cache and os.path.exists(cpath):
        try:
            with open(cpath, "rb") as fh:
                return pickle.load(fh)
        except Exception:
            pass
    tmp = tempfile.mkdtemp(prefix="c3ir-")
    try:
        lls = compile_all(repo, tmp)
        from multiprocessing import Pool
        prog = Program()
        prog.files = [s for s, _ in lls]
        with Pool(8) as pool:
            parts = pool.starmap(parse_module_light, lls)
        for (src, _), (mod, pt) in zip(lls, parts):
            for k, v in pt.fields.items():
                prog.fields.setdefault(k, v)
            for k, v in pt.enums.items():
                prog.enums.setdefault(k, v)
            for k, v in mod.structs.items():
                if prog.structs.get(k) is None:
                    prog.structs[k] = v
            for k, v in mod.globals.items():
                if v["private"]:
                    prog.globals[(src, k)] = v
                else:
                    kk = k
                    if v["internal"]:
                        prog.globals[(src, k)] = v
                    elif not v["ext"] or k not in prog.globals:
                        prog.globals[kk] = v
            prog.decls.update(mod.decls)
            for k, f in mod.functions.items():
                f.src = src
                if k in prog.functions:
                    prog.dups.setdefault(k, []).append(f)
                    nk = k + "@" + os.path.basename(src)
                    f.name = nk
                    prog.functions[nk] = f
                else:
                    prog.functions[k] = f
        # redirect calls to duplicate statics
        for k, fs in prog.dups.items():
            for f in fs:
                for g in prog.functions.values():
                    if g.src == f.src:
                        for b in g.blocks.values():
                            for ins in b.instrs:
                                if ins.op == "call" and ins.extra == "@" + k:
                                    ins.extra = "@" + f.name
        for s in prog.files:
            with open(s, errors="replace") as fh:
                prog.nlines += sum(1 for _ in fh)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if use_cache:
        os.makedirs(CACHE, exist_ok=True)
        for old in glob.glob(os.path.join(CACHE, "ir-*.pkl")):
            try:
                os.unlink(old)
            except OSError:
                pass
        t = cpath + f".{os.getpid()}"
        with open(t, "wb") as fh:
            pickle.dump(prog, fh, protocol=4)
        os.replace(t, cpath)
    return prog


def parse_module_light(src, path):
    sys.setrecursionlimit(100000)
    mod = parse_module(src, path)
    p = Program()
    collect_types(p, mod)
    for v in mod.globals.values():
        v["line"] = 0
        if v.get("dbg") is not None:
            ge = mod.md.node(v["dbg"])
            if ge and ge[0] == "DIGlobalVariableExpression":
                gv = mod.md.node(ge[1]["var"][1])
                v["line"] = int(gv[1].get("line", 0))
                v["cname"] = gv[1].get("name")
                ct = gv[1].get("type")
                v["ctype"] = mod.md.ctype(ct[1]) if isinstance(ct, tuple) else None
    mod.md = None
    return mod, p


if __name__ == "__main__":
    import time
    t = time.time()
    p = load(use_cache="-n" not in sys.argv)
    print(len(p.functions), "functions", len(p.structs), "structs", len(p.fields), "with fields", round(time.time() - t, 2), "s")
