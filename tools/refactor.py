#!/usr/bin/env python3
"""Mechanical behaviour-preserving rewrites of a copy of the library, used to test that the checks stay quiet.
usage: refactor.py DIR KIND [fraction seed]   KIND: while | invert | wrap | memloop | ifchain | temps | split | reverse | fission | guard | swap | alloc | getters"""
import sys, re, glob, os, random

def mask(s):
    """same length text with comments, strings, chars and preprocessor lines blanked"""
    out = list(s); i = 0; n = len(s); bol = True
    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n': out[k] = ' '
    while i < n:
        c = s[i]
        if s.startswith('//', i):
            j = s.find('\n', i); j = n if j < 0 else j; blank(i, j); i = j
        elif s.startswith('/*', i):
            j = s.find('*/', i); j = n if j < 0 else j + 2; blank(i, j); i = j
        elif c == '"' or c == "'":
            j = i + 1
            while j < n and s[j] != c:
                j += 2 if s[j] == '\\' else 1
            blank(i + 1, j); i = j + 1; bol = False
        elif c == '#' and bol:
            j = i
            while True:
                k = s.find('\n', j); k = n if k < 0 else k
                if k > 0 and s[k - 1] == '\\' and k < n: j = k + 1
                else: break
            blank(i, k); i = k
        else:
            if c == '\n': bol = True
            elif not c.isspace(): bol = False
            i += 1
    return ''.join(out)

def match(m, i, a='(', b=')'):
    d = 0
    while i < len(m):
        if m[i] == a: d += 1
        elif m[i] == b:
            d -= 1
            if d == 0: return i
        i += 1
    return -1

def functions(m):
    """(start of header, name, params start, params end, body start, body end) of function definitions"""
    for x in re.finditer(r'(?m)^(?!typedef|struct\s+\w+\s*\{|enum|else|if|for|while|return|switch)([A-Za-z_][\w\s\*]*?[\s\*])(\w+)\s*\(', m):
        p0 = x.end() - 1; p1 = match(m, p0)
        if p1 < 0: continue
        y = re.match(r'\s*\{', m[p1 + 1:])
        if not y: continue
        b0 = p1 + 1 + y.end() - 1; b1 = match(m, b0, '{', '}')
        if b1 > 0: yield x.start(), x.group(1), x.group(2), p0, p1, b0, b1

def pick(): return R.random() < FR

def do_while(s):
    k = 0
    while True:
        m = mask(s); done = True
        for x in reversed(list(re.finditer(r'\bfor\s*\(', m))):
            p0 = x.end() - 1; p1 = match(m, p0)
            if p1 < 0 or s[x.start() - 1] == '\x00': continue
            y = re.match(r'\s*\{', m[p1 + 1:])
            if not y: continue
            b0 = p1 + 1 + y.end() - 1; b1 = match(m, b0, '{', '}')
            head = m[p0 + 1:p1]
            if head.count(';') != 2 or '(' in head.split(';')[0]: continue
            a, c = head.find(';'), head.rfind(';')
            init, cond, inc = s[p0 + 1:p0 + 1 + a], s[p0 + 2 + a:p0 + 1 + c], s[p0 + 2 + c:p1]
            body = s[b0 + 1:b1]
            if re.search(r'\bcontinue\b', mask(body)) or not cond.strip() or not inc.strip(): continue
            pre = m[:x.start()].rstrip()
            if not pre or pre[-1] not in '{};': continue   # single statement of an if, a label
            if re.search(r'\bpragma\b', s[s.rfind('\n', 0, max(0, s.rfind('\n', 0, x.start()))) + 1:x.start()]): continue
            if not pick():
                continue
            s = s[:x.start()] + '{ ' + init + '; while (' + cond.strip() + '){' + body + ' ' + inc.strip() + '; } }' + s[b1 + 1:]
            k += 1; done = False
            break
        if done or k > 4000: break
        if FR < 1 and k > 60: break
    return s

def do_invert(s):
    m = mask(s)
    # innermost first: repeated passes over if (c) { A } else { B } with no else-if
    seen = 0
    pos = len(m)
    while True:
        x = None
        for y in re.finditer(r'\bif\s*\(', m[:pos]): x = y
        if x is None: break
        pos = x.start()
        p0 = x.end() - 1; p1 = match(m, p0)
        y = re.match(r'\s*\{', m[p1 + 1:])
        if not y: continue
        b0 = p1 + 1 + y.end() - 1; b1 = match(m, b0, '{', '}')
        z = re.match(r'\s*else\s*\{', m[b1 + 1:])
        if not z: continue
        if re.search(r'else\s*$', m[:x.start()]): continue
        e0 = b1 + 1 + z.end() - 1; e1 = match(m, e0, '{', '}')
        if '#' in s[b1:e0]: continue
        if not pick(): continue
        new = 'if (!(' + s[p0 + 1:p1] + ')) ' + s[e0:e1 + 1] + ' else ' + s[b0:b1 + 1]
        s = s[:x.start()] + new + s[e1 + 1:]
        m = mask(s)
    return s

def do_wrap(s):
    m = mask(s)
    for h, rt, name, p0, p1, b0, b1 in reversed(list(functions(m))):
        if '...' in m[p0:p1] or name == 'main' or 'inline' in rt: continue
        if not pick(): continue
        ps = m[p0 + 1:p1]
        depth = 0; parts = ['']
        for c in ps:
            if c in '([': depth += 1
            if c in ')]': depth -= 1
            if c == ',' and depth == 0: parts.append('')
            else: parts[-1] += c
        names = []
        ok = True
        for p in parts:
            p = p.strip()
            if p in ('void', ''): continue
            y = re.search(r'\(\s*\*\s*(\w+)\s*\)\s*\(', p) or re.search(r'(\w+)\s*(\[[^\]]*\]\s*)*$', p)
            if not y: ok = False; break
            names.append(y.group(1))
        if not ok: continue
        rts = rt.replace('static', '').strip()
        impl = name + '_body'
        ret = '' if rts == 'void' else 'return '
        s = (s[:h] + s[h:p1 + 1] + ';\nstatic ' + rts + ' ' + impl + s[p0:p1 + 1] + s[p1 + 1:b1 + 1] + '\n\n' +
             s[h:p1 + 1] + '\n{\n    ' + ret + impl + '(' + ', '.join(names) + ');\n}\n' + s[b1 + 1:])
    return s

def do_memloop(s):
    m = mask(s)
    for x in reversed(list(re.finditer(r'\b(memmove|memcpy)\s*\(', m))):
        p0 = x.end() - 1; p1 = match(m, p0)
        if not re.match(r'\s*;', m[p1 + 1:]): continue
        pre = m[:x.start()].rstrip()
        if pre[-1] not in '{};': continue
        depth = 0; cut = [p0]
        for i in range(p0 + 1, p1):
            if m[i] in '([': depth += 1
            if m[i] in ')]': depth -= 1
            if m[i] == ',' and depth == 0: cut.append(i)
        cut.append(p1)
        if len(cut) != 4: continue
        a, b, c = [s[cut[i] + 1:cut[i + 1]].strip() for i in range(3)]
        y = re.search(r'\*?\s*sizeof\s*\(\s*(double|size_t)\s*\)\s*\*?', c)
        if not y: continue
        y = re.search(r'sizeof\s*\(\s*(double|size_t)\s*\)', c); cnt = (c[:y.start()] + '1' + c[y.end():]).strip()
        if 'sizeof' in cnt or not pick(): continue
        t = y.group(1)
        s = (s[:x.start()] + f'{{ {t} * mv_to = {a}; const {t} * mv_from = {b}; for (size_t mv_i = 0; mv_i < (size_t)({cnt}); mv_i++){{ mv_to[mv_i] = mv_from[mv_i]; }} }}' + s[p1 + 1:])
        m = mask(s)
    return s

def do_ifchain(s):
    m = mask(s); pos = len(m)
    while True:
        x = None
        for y in re.finditer(r'\bswitch\s*\(', m[:pos]): x = y
        if x is None: break
        pos = x.start()
        p0 = x.end() - 1; p1 = match(m, p0)
        y = re.match(r'\s*\{', m[p1 + 1:])
        if not y: continue
        b0 = p1 + 1 + y.end() - 1; b1 = match(m, b0, '{', '}')
        body = m[b0 + 1:b1]
        # labels at depth 0
        labs = []; d = 0
        for t in re.finditer(r'[{}]|\bcase\b[^:]*:|\bdefault\s*:', body):
            g = t.group(0)
            if g == '{': d += 1
            elif g == '}': d -= 1
            elif d == 0: labs.append((t.start(), t.end(), g))
        if not labs: continue
        arms = []; ok = True; pend = []
        for i, (a, e, g) in enumerate(labs):
            end = labs[i + 1][0] if i + 1 < len(labs) else len(body)
            code = body[e:end]; orig = s[b0 + 1 + e:b0 + 1 + end]
            lab = 'default' if g.startswith('default') else g[4:-1].strip()
            pend.append(lab)
            if not code.strip(): continue
            z = re.search(r'(\bbreak\s*;)\s*$', code)
            if z: orig = orig[:z.start()]; code = code[:z.start()]
            elif not re.search(r'(\breturn\b[^;]*;|exit\s*\([^;]*;)\s*\}?\s*$', code) and i + 1 < len(labs): ok = False
            if re.search(r'\bbreak\b', code) : ok = False
            arms.append((pend, orig)); pend = []
        if not ok or pend: continue
        if any('default' in l for l, _ in arms[:-1]): continue
        if not pick(): continue
        v = s[p0 + 1:p1]; out = ''
        for l, code in arms:
            if 'default' in l: out += (' else ' if out else '') + '{' + code + '}'
            else: out += (' else ' if out else '') + 'if (' + ' || '.join(f'({v}) == {q}' for q in l) + '){' + code + '}'
        s = s[:x.start()] + out + s[b1 + 1:]; m = mask(s)
    return s

def do_temps(s):
    """double/int/size_t assignments through a temporary:  a[i] = e;  ->  { const T t = e; a[i] = t; }  for element stores of doubles is type dependent: uses __typeof__"""
    m = mask(s)
    for x in reversed(list(re.finditer(r'(?m)^[ \t]*([A-Za-z_][\w\->\.\[\]\+\*\s]*?\])[ \t]*=(?!=)([^;{}]*);[ \t]*$', m))):
        lhs = s[x.start(1):x.end(1)]; rhs = s[x.start(2):x.end(2)]
        if re.match(r'\s*(const|double|size_t|int|struct|char|long|unsigned)\b', lhs) or ' ' in lhs.strip().split('[')[0]: continue
        pre = m[:x.start()].rstrip()
        if pre[-1] not in '{};': continue
        if not pick(): continue
        s = s[:x.start()] + '{ __typeof__(' + lhs + ') tmp_value = ' + rhs + '; ' + lhs + ' = tmp_value; }' + s[x.end():]
    return s

def do_split(s):
    """for loops over [0,n) run over a copy of the bound taken before the loop and index counted from one"""
    m = mask(s)
    for x in reversed(list(re.finditer(r'\bfor\s*\(\s*size_t\s+(\w+)\s*=\s*0\s*;\s*\1\s*<\s*(\w+)\s*;\s*(\1\s*\+\+|\+\+\s*\1)\s*\)', m))):
        v, n = x.group(1), x.group(2)
        pre = m[:x.start()].rstrip()
        if pre[-1] not in '{};': continue
        y = re.match(r'\s*\{', m[x.end():])
        if not y: continue
        b0 = x.end() + y.end() - 1; b1 = match(m, b0, '{', '}')
        body = m[b0:b1]
        if re.search(r'\b%s\s*(=[^=]|\+\+|--|[-+*/]=)' % n, body) or re.search(r'(\+\+|--|&)\s*%s\b' % n, body) or re.search(r'\b%s\s*(=[^=]|\+\+|--|[-+*/]=)' % v, body): continue
        if re.search(r'\bcontinue\b', body): continue
        if not pick(): continue
        s = s[:x.start()] + f'for (size_t {v}_1 = 1; {v}_1 <= {n}; {v}_1++)' + s[x.end():b0] + '{ const size_t ' + v + ' = ' + v + '_1 - 1;' + s[b0 + 1:]
    return s

def simple_assign(st):
    """(base text, lhs, rhs) of a statement that stores one element or field and calls nothing"""
    y = re.match(r'^\s*([A-Za-z_][\w]*(?:(?:->|\.)\w+|\[[^\]]*\])+)\s*=(?!=)\s*(.*)$', st, re.S)
    if not y or '(' in re.sub(r'\bsizeof\s*\([^)]*\)', '', y.group(2)) or '(' in y.group(1): return None
    if '++' in st or '--' in st or '=' in y.group(2): return None
    return re.split(r'\[', y.group(1))[0], y.group(1), y.group(2)

LOOP0 = r'\bfor\s*\(\s*size_t\s+(\w+)\s*=\s*0\s*;\s*\1\s*<\s*([\w\->\.]+)\s*;\s*(\1\s*\+\+|\+\+\s*\1)\s*\)'

def loops0(s, m):
    for x in reversed(list(re.finditer(LOOP0, m))):
        y = re.match(r'\s*\{', m[x.end():])
        if not y: continue
        b0 = x.end() + y.end() - 1; b1 = match(m, b0, '{', '}')
        if '{' in m[b0 + 1:b1] or '/' + '*' in s[b0:b1] or '//' in s[b0:b1]: continue
        sts = [t for t in s[b0 + 1:b1].split(';') if t.strip()]
        yield x, b0, b1, sts

def do_reverse(s):
    m = mask(s)
    for x, b0, b1, sts in loops0(s, m):
        a = [simple_assign(t) for t in sts]
        if not a or None in a: continue
        v = x.group(1)
        if any(v not in re.findall(r'\w+', q[1]) or any(re.split(r'->|\.', r[0])[-1] in re.findall(r'\w+', q[2]) for r in a) for q in a): continue
        if not pick(): continue
        s = s[:x.start()] + f'for (size_t {v} = {x.group(2)}; {v}-- > 0; )' + s[x.end():]
    return s

def do_fission(s):
    m = mask(s)
    for x, b0, b1, sts in loops0(s, m):
        a = [simple_assign(t) for t in sts]
        if len(a) < 2 or None in a: continue
        names = [re.split(r'->|\.', q[0])[-1] for q in a]
        if len(set(q[0] for q in a)) != len(a) or any(n in re.findall(r'\w+', q[2]) for n in names for q in a): continue
        pre = m[:x.start()].rstrip()
        if pre[-1] not in '{};' or not pick(): continue
        s = s[:x.start()] + '\n'.join(s[x.start():x.end()] + '{' + t + '; }' for t in sts) + s[b1 + 1:]
    return s

def do_guard(s):
    m = mask(s)
    for h, rt, name, p0, p1, b0, b1 in reversed(list(functions(m))):
        if rt.replace('static', '').strip() != 'void': continue
        body = m[b0 + 1:b1]
        y = re.match(r'\s*if\s*\(', body)
        if not y: continue
        q0 = b0 + 1 + y.end() - 1; q1 = match(m, q0)
        z = re.match(r'\s*\{', m[q1 + 1:])
        if not z: continue
        c0 = q1 + 1 + z.end() - 1; c1 = match(m, c0, '{', '}')
        if m[c1 + 1:b1].strip() or not pick(): continue
        s = s[:b0 + 1] + '\n    if (!(' + s[q0 + 1:q1] + ')){ return; }\n' + s[c0 + 1:c1] + s[b1:]
    return s

def do_swap(s):
    m = mask(s)
    L = s.split('\n'); M = m.split('\n')
    i = 0
    while i + 1 < len(L):
        ok = False
        if M[i].strip().endswith(';') and M[i + 1].strip().endswith(';') and M[i].count(';') == 1 and M[i + 1].count(';') == 1 and i and M[i - 1].strip()[-1:] in ('{', '}', ';', ''):
            a, b = simple_assign(M[i].strip()[:-1]), simple_assign(M[i + 1].strip()[:-1])
            if a and b:
                fa, fb = re.findall(r'\w+', a[1])[-1], re.findall(r'\w+', b[1])[-1]
                wa, wb = set(re.findall(r'\w+', a[0])), set(re.findall(r'\w+', b[0]))
                la, lb = re.findall(r'\w+', a[0])[-1], re.findall(r'\w+', b[0])[-1]
                if a[0] != b[0] and la != lb and la not in re.findall(r'\w+', b[1] + ' ' + b[2]) and lb not in re.findall(r'\w+', a[1] + ' ' + a[2]) and pick():
                    L[i], L[i + 1] = L[i + 1], L[i]; ok = True
        i += 2 if ok else 1
    return '\n'.join(L)

def do_alloc(s):
    m = mask(s)
    for x in reversed(list(re.finditer(r'\b(calloc_double|calloc_size_t|calloc_int|malloc)\s*\(', m))):
        p0 = x.end() - 1; p1 = match(m, p0)
        if re.search(r'(double|size_t|int|void)\s*\**\s*$', m[:x.start()]): continue
        a = s[p0 + 1:p1]; k = x.group(1)
        if k == 'malloc':
            y = re.search(r'\*\s*sizeof\s*\(\s*(double|size_t|int)\s*\)\s*$', a)
            if not y or 'sizeof' in a[:y.start()]: continue
            new = f'calloc({a[:y.start()]}, sizeof({y.group(1)}))'
        else:
            t = k[7:]; new = f'({t} *)calloc({a}, sizeof({t}))'
        if pick(): s = s[:x.start()] + new + s[p1 + 1:]
    return s

def getters(d):
    """(struct type, field) -> getter for functions whose body only returns a field of their argument"""
    out = {}
    for f in sorted(glob.glob(os.path.join(d, 'c3/lib_*/*.c'))):
        if os.path.getsize(f) > 2000000: continue
        m = mask(open(f, errors='surrogateescape').read())
        for h, rt, name, p0, p1, b0, b1 in functions(m):
            y = re.match(r'^\s*(?:const\s+)?struct\s+(\w+)\s*\*\s*(\w+)\s*$', m[p0 + 1:p1])
            if not y or 'static' in rt: continue
            body = re.sub(r'\bassert\s*\([^;]*;', '', m[b0 + 1:b1]).strip()
            z = re.match(r'^return\s+%s->(\w+)\s*;$' % y.group(2), body)
            if z: out[(y.group(1), z.group(1))] = (name, os.path.basename(f))
    return out

G = None
def do_getters(s):
    """reads of a field through the accessor the library has for it, in the file that defines the accessor"""
    m = mask(s)
    edits = []
    for h, rt, name, p0, p1, b0, b1 in functions(m):
        types = dict((v, t) for t, v in re.findall(r'struct\s+(\w+)\s*\*\s*(\w+)', m[p0:b1]))
        for x in re.finditer(r'(?<![\w>.\-&])(\w+)->(\w+)\b(?!\s*(=[^=]|\+\+|--|[-+*/]=|->|\.))', m[b0:b1]):
            g = G.get((types.get(x.group(1)), x.group(2)))
            if not g or g[0] == name or g[1] != FILE: continue
            pre = m[:b0 + x.start()].rstrip()
            if pre.endswith('&') or pre.endswith('++') or pre.endswith('--'): continue
            if not re.search(r'(?m)^[\w \*]*\b%s\s*\([^;{)]*\)\s*\{' % g[0], m[:b0]) and not re.search(r'\b%s\s*\(' % g[0], HEADERS): continue
            if pick(): edits.append((b0 + x.start(), b0 + x.end(), f'{g[0]}({x.group(1)})'))
    for a, b, t in reversed(edits): s = s[:a] + t + s[b:]
    return s

if __name__ == '__main__':
    d, kind = sys.argv[1:3]
    FR = float(sys.argv[3]) if len(sys.argv) > 3 else 1.0
    R = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    if kind == 'getters':
        G = getters(d); HEADERS = ' '.join(re.sub(r'[*]', ' ', open(h).read()) for h in glob.glob(os.path.join(d, 'c3/lib_*/*.h')) if os.path.getsize(h) < 2000000)
    for f in sorted(glob.glob(os.path.join(d, 'c3/lib_*/*.c'))):
        s = open(f, errors='surrogateescape').read()
        if os.path.getsize(f) > 2000000: continue
        FILE = os.path.basename(f)
        t = globals()['do_' + kind](s)
        if t != s: open(f, 'w', errors='surrogateescape').write(t)
