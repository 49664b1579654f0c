"""Inlines extracted helpers in the IR text of one translation unit.

A function the library did not have (sa/names.txt) is a helper that was extracted from one it had.  It is put back
into its callers before the IR is simplified, so that a rule sees each operation as a whole however it is divided.
This is done on the text clang produces, before any pass runs: `opt`'s own inliner folds the address of the first
field of an object into the address of the object, and the field accessed could no longer be told.
"""
import re

_define = re.compile(r"^define ([^@]*)@([\w.]+)\((.*)\)([^()]*)\{$")
_label = re.compile(r"^([\w.$-]+):")
_local = re.compile(r"%([\w.$-]+|\"[^\"]*\")")
_mdloc = re.compile(r"^!(\d+) = (distinct )?!DILocation\((.*)\)$")
_attr = re.compile(r"\b(noundef|nonnull|nocapture|readonly|writeonly|signext|zeroext|noalias|returned|inreg|"
                   r"align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\))\s*")


def split_top(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def last_word(a):
    """the value of a typed operand, and its type"""
    a = _attr.sub("", a).strip()
    depth = 0
    for i, c in enumerate(a):
        if c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
        elif c == " " and depth == 0:
            return a[:i], a[i + 1:].strip()
    return a, None


class Unit:
    def __init__(self, text):
        self.head, self.fns, self.order, self.tail = [], {}, [], []
        cur = None
        self.items = []                     # lines, or ("fn", name)
        for l in text.split("\n"):
            m = _define.match(l) if cur is None else None
            if m:
                cur = m.group(2)
                self.fns[cur] = [l]
                self.items.append(("fn", cur))
            elif cur is not None:
                self.fns[cur].append(l)
                if l == "}":
                    cur = None
            else:
                self.items.append(l)
        self.md = {}
        self.maxmd = 0
        for l in self.items:
            if isinstance(l, str) and l.startswith("!"):
                m = re.match(r"^!(\d+) = ", l)
                if m:
                    self.maxmd = max(self.maxmd, int(m.group(1)))
                    m = _mdloc.match(l)
                    if m:
                        self.md[int(m.group(1))] = m.group(3)
        self.newmd = []
        self.k = 0

    def fresh_loc(self, n, at, memo):
        """location n, inlined at location `at`"""
        if n in memo:
            return memo[n]
        body = self.md.get(n)
        if body is None:
            return None
        m = re.search(r", inlinedAt: !(\d+)", body)
        if m:
            inner = self.fresh_loc(int(m.group(1)), at, memo)
            body = body[:m.start()] + f", inlinedAt: !{inner}"
        else:
            body += f", inlinedAt: !{at}"
        self.maxmd += 1
        self.md[self.maxmd] = body
        self.newmd.append(f"!{self.maxmd} = distinct !DILocation({body})")
        memo[n] = self.maxmd
        return self.maxmd

    def inline_at(self, caller, i, helper):
        lines = self.fns[caller]
        l = lines[i]
        m = re.match(r"^\s*(?:%([\w.$-]+) = )?(?:tail |notail )?call (.*?)@" + re.escape(helper) + r"\((.*)\)([^()]*)$", l)
        if not m:
            return False
        dest, rt, args, post = m.groups()
        if "..." in rt:
            return False
        at = re.search(r"!dbg !(\d+)", post)
        if not at:
            return False
        at = int(at.group(1))
        hd = _define.match(self.fns[helper][0])
        params = [last_word(p)[1] for p in split_top(hd.group(3))]
        args = split_top(args)
        if len(params) != len(args) or any(p is None or not p.startswith("%") for p in params):
            return False
        vals = [last_word(a)[1] for a in args]
        if any(v is None for v in vals) or "byval" in hd.group(3) or "sret" in hd.group(3):
            return False
        self.k += 1
        suf = f".h{self.k}"
        sub = {p[1:]: v for p, v in zip(params, vals)}
        rty = None
        if dest:
            rty = _attr.sub("", rt).strip()
            rty = re.sub(r"\s*\(.*\)$", "", rty)

        def ren(mm):
            n = mm.group(1)
            if n in sub:
                return sub[n]
            if n in self.typenames:
                return mm.group(0)
            return "%" + ("tmp.v" + n if n.isdigit() else n) + suf
        memo, body, allocas = {}, [], []
        ret = f"%retval{suf}.slot"
        for h in self.fns[helper][1:-1]:
            if not h.strip():
                continue
            h = re.sub(r"^([\w.$-]+):(.*)$", lambda q: ("tmp.v" if q.group(1).isdigit() else "") + f"{q.group(1)}{suf}:" + re.sub(r"; preds = .*", "", q.group(2)), h)
            cut = h.find(" ; preds")
            if cut >= 0:
                h = h[:cut]
            h = re.sub(r", !llvm\.loop !\d+", "", h)
            h = _local.sub(ren, h)
            h = re.sub(r"!dbg !(\d+)", lambda q: f"!dbg !{self.fresh_loc(int(q.group(1)), at, memo) or q.group(1)}", h)
            r = re.match(r"^\s*ret (.*?)(, !dbg !\d+)?$", h)
            if r:
                v = r.group(1)
                d = r.group(2) or ""
                if v != "void":
                    t, x = last_word(v)
                    if dest:
                        body.append(f"  store {t} {x}, ptr {ret}{d}")
                body.append(f"  br label %exit{suf}{d}")
            elif re.match(r"^\s*%[\w.$-]+ = alloca ", h):
                if re.search(r"alloca [^,]+, i(32|64) %", h):
                    return False                       # variable length array
                allocas.append(h)
            else:
                body.append(h)
        # the block of the call is cut in two
        lab = None
        for j in range(i, 0, -1):
            q = _label.match(lines[j])
            if q:
                lab = q.group(1)
                break
        entry = lines[1] if _label.match(lines[1]) else None
        if entry is None or lab is None:
            return False
        first = None
        for h in self.fns[helper][1:]:
            q = _label.match(h)
            if q:
                first = q.group(1)
                break
        if first is None or first.isdigit():
            return False
        new = lines[:i] + [f"  br label %{first}{suf}, !dbg !{at}"] + body + [f"exit{suf}:"]
        if dest:
            new.append(f"  %{dest} = load {rty}, ptr {ret}, !dbg !{at}")
            allocas.append(f"  {ret} = alloca {rty}")
        rest = lines[i + 1:]
        rest = [re.sub(r", %" + re.escape(lab) + r" \]", f", %exit{suf} ]", x) if " = phi " in x else x for x in rest]
        new += rest
        pre = [re.sub(r", %" + re.escape(lab) + r" \]", f", %exit{suf} ]", x) if " = phi " in x else x for x in new[2:len(lines[:i])]]
        new = new[:2] + allocas + pre + new[len(lines[:i]):]
        self.fns[caller] = new
        return True

    def text(self, drop):
        out = []
        for it in self.items:
            if isinstance(it, tuple):
                if it[1] not in drop:
                    out += self.fns[it[1]]
            else:
                out.append(it)
        return "\n".join(out + self.newmd) + "\n"


def inline_helpers(path, known):
    """Rewrites the IR file; returns the helpers that were inlined."""
    if known is None:
        return []
    with open(path) as fh:
        text = fh.read()
    names = set(re.findall(r"(?m)^define [^@]*@([\w.]+)\(", text))
    new = {n for n in names if n.split(".")[0] not in known}
    if not new:
        return []
    u = Unit(text)
    u.typenames = {m for m in re.findall(r"(?m)^%([\w.]+) = type ", text)}
    def calls_of(n):
        return {m for l in u.fns[n] if " call " in l for m in re.findall(r"@([\w.]+)\(", l)}
    calls = {n: calls_of(n) & new for n in new}

    def reach(n):
        seen, todo = set(), [n]
        while todo:
            for k in calls[todo.pop()]:
                if k not in seen:
                    seen.add(k)
                    todo.append(k)
        return seen
    new = {n for n in new if n not in reach(n)}
    order, done = [], set()

    def visit(n):
        if n in done:
            return
        done.add(n)
        for k in sorted(calls[n] & new):
            visit(k)
        order.append(n)
    for n in sorted(new):
        visit(n)
    used = []
    for h in order:
        pat = f"@{h}("
        for c in list(u.fns):
            if c == h:
                continue
            skip = set()
            while True:
                hit = None
                for i, l in enumerate(u.fns[c]):
                    if i and pat in l and " call " in l and l not in skip:
                        hit = i
                        break
                if hit is None:
                    break
                l = u.fns[c][hit]
                if not u.inline_at(c, hit, h):
                    skip.add(l)
                else:
                    used.append(h)
    drop = set()
    for h in used:
        if "internal" in u.fns[h][0].split("@")[0].split() and not any(
                re.search("@" + re.escape(h) + r"\b(?!\.)", l) for c in u.fns if c != h and c not in drop for l in u.fns[c]):
            if not any(isinstance(x, str) and re.search("@" + re.escape(h) + r"\b(?!\.)", x) for x in u.items):
                drop.add(h)
    with open(path, "w") as fh:
        fh.write(u.text(drop))
    return sorted(set(used))
