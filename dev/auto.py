"""automatic behaviour-preserving rewrites over all sources. auto.py MDLIBDIR kind..."""
import sys, re, os
D = sys.argv[1]; kinds = sys.argv[2:]

def close(s, i, o='{', c='}'):
    d = 0
    while i < len(s):
        if s[i] == '"':
            i += 1
            while s[i] != '"':
                if s[i] == '\\': i += 1
                i += 1
        elif s[i] == "'":
            i += 1
            while s[i] != "'":
                if s[i] == '\\': i += 1
                i += 1
        elif s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    raise ValueError

def strip(s):
    """blank out comments (same length)"""
    def f(m): return re.sub(r'[^\n]', ' ', m.group(0)) if m.group(0)[0] == '/' else m.group(0)
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', f, s, flags=re.S)

def t1(s):
    n = 0; pos = 0
    while True:
        m = re.compile(r'\bfor\s*\(').search(s, pos)
        if not m: return s, n
        pos = m.end()
        e = close(s, m.end() - 1, '(', ')')
        hd = s[m.end():e]
        if hd.count(';') != 2: continue
        a, b, c = hd.split(';')
        m2 = re.compile(r'\s*\{').match(s, e + 1)
        if not m2: continue
        z = close(s, m2.end() - 1)
        body = s[m2.end():z]
        if re.search(r'\bcontinue\b|#', body): continue
        before = s[:m.start()].rstrip()
        if re.search(r'#pragma[^\n]*(\\\n[^\n]*)*$', before): continue
        if not before.endswith((';', '{', '}')): continue
        s = s[:m.start()] + '{ %s; while (%s) {' % (a, b.strip() or '1') + body + ' %s; } }' % c + s[z + 1:]
        n += 1

def t2(s):
    n = 0; pos = 0
    while True:
        m = re.compile(r'\bif\s*\(').search(s, pos)
        if not m: return s, n
        pos = m.end()
        e = close(s, m.end() - 1, '(', ')')
        c = s[m.end():e]
        m2 = re.compile(r'\s*\{').match(s, e + 1)
        if not m2: continue
        z = close(s, m2.end() - 1)
        m3 = re.compile(r'\s*else\s*\{').match(s, z + 1)
        if not m3: continue
        y = close(s, m3.end() - 1)
        A = s[m2.end():z]; B = s[m3.end():y]
        if '#' in A + B: continue
        s = s[:m.start()] + 'if (!(%s)) {%s} else {%s}' % (c, B, A) + s[y + 1:]
        n += 1

def t3(s):
    k = [0]
    def f(m):
        if m.group(2).count('(') != m.group(2).count(')'): return m.group(0)
        k[0] += 1
        return m.group(1) + m.group(3).strip() + ' = ' + m.group(3).strip() + ' ' + m.group(4) + ' (' + m.group(5).strip() + ');'
    out = re.sub(r'((?:^|[;{}])\s*)((?P<l>[A-Za-z_][\w\.\[\]\+\-\*>]*(?: *\[[^\];=]*\])*) *(?P<o>[\+\-\*/])= *(?P<r>[^;{}]*);)', lambda m: g(m, k), s, flags=re.M)
    return out, k[0]

def g(m, k):
    r = m.group('r'); l = m.group('l')
    if r.count('(') != r.count(')') or '=' in r or ',' in r and r.count('(') == 0: return m.group(0)
    k[0] += 1
    return '%s%s = %s %s (%s);' % (m.group(1), l, l, m.group('o'), r.strip())

def t4(s):
    """if (c) { body }  at the end of a loop body -> if (!(c)) continue; body"""
    n = 0; pos = 0
    while True:
        m = re.compile(r'\bif\s*\(').search(s, pos)
        if not m: return s, n
        pos = m.end()
        e = close(s, m.end() - 1, '(', ')')
        c = s[m.end():e]
        m2 = re.compile(r'\s*\{').match(s, e + 1)
        if not m2: continue
        z = close(s, m2.end() - 1)
        if not re.compile(r'\s*\}').match(s, z + 1): continue
        # enclosing brace must be a loop body
        d = 0; i = m.start() - 1; ok = False
        while i >= 0:
            if s[i] == '}': d += 1
            elif s[i] == '{':
                if d == 0: break
                d -= 1
            i -= 1
        hd = s[:i].rstrip()
        if not hd.endswith(')'): continue
        # matching (
        d = 0; j = len(hd) - 1
        while j >= 0:
            if hd[j] == ')': d += 1
            elif hd[j] == '(':
                d -= 1
                if d == 0: break
            j -= 1
        if not re.search(r'\bfor\s*$', hd[:j]): continue
        if s[:m.start()].rstrip().endswith('else'): continue
        A = s[m2.end():z]
        if '#' in A: continue
        s = s[:m.start()] + 'if (!(%s)) continue; {%s}' % (c, A) + s[z + 1:]
        n += 1

def t5(s):
    """wrap every function: body in a static helper"""
    n = 0; pos = 0; ends = []
    while True:
        m = re.compile(r'^((?:[A-Za-z_]\w*[ \*]+)+)([A-Za-z_]\w*)\s*\(', re.M).search(s, pos)
        if not m: return s, n
        pos = m.end()
        if m.group(1).split()[0] in ('else', 'return', 'typedef', 'struct', 'static', 'extern', 'inline'): continue
        e = close(s, m.end() - 1, '(', ')')
        m2 = re.compile(r'\s*\{').match(s, e + 1)
        if not m2: continue
        ps = s[m.end():e]
        z = close(s, m2.end() - 1)
        names = []
        ok = '(' not in ps and '...' not in ps
        if ps.strip() not in ('', 'void'):
            for q in ps.split(','):
                mm = re.search(r'([A-Za-z_]\w*)\s*(\[[^\]]*\])*\s*$', q)
                if not mm: ok = False; break
                names.append(mm.group(1))
        if not ok: pos = z; continue
        ret = m.group(1).strip()
        name = m.group(2)
        w = '\n%s %s(%s) { %s%s__impl(%s); }\n' % (ret, name, ps, '' if ret == 'void' else 'return ', name, ', '.join(names))
        s = s[:m.start()] + 'static ' + m.group(1) + name + '__impl(' + s[m.end():z + 1] + w + s[z + 1:]
        pos = z + len(w); n += 1

def t8(s):
    n = 0; pos = 0
    ST = r'([ \t]*)([A-Za-z_][\w\.\[\]\+\-\*>]*) *= *([^;{}=]*);[ \t]*\n'
    rx = re.compile(r'(?<=[;{}]\n)' + ST + ST)
    def root(l): return re.split(r'\.|->|\[', l)[0], re.findall(r'[A-Za-z_]\w*', re.sub(r'\[.*', '', l))[-1]
    PURE = {'pow','exp','log','sqrt','fabs','sin','cos','tan','atan','ceil','sizeof','MINV','MAXV'}
    while True:
        m = rx.search(s, pos)
        if not m: return s, n
        pos = m.start() + 1
        l1, r1, l2, r2 = m.group(2), m.group(3), m.group(5), m.group(6)
        t1_, t2_ = l1 + ' ' + r1, l2 + ' ' + r2
        if re.search(r"[-+*/]$", l1) or re.search(r"[-+*/]$", l2): continue
        calls = set(re.findall(r'([A-Za-z_]\w*)\s*\(', t1_ + t2_)) - PURE
        if calls or '++' in t1_ + t2_ or '--' in t1_ + t2_ or '"' in t1_ + t2_: continue
        a, b = root(l1)[1], root(l2)[1]
        if re.search(r'\b%s\b' % a, t2_) or re.search(r'\b%s\b' % b, t1_) or re.search(r'\b(return|else|case)\b', t1_ + t2_): continue
        s = s[:m.start()] + '%s%s = %s;\n%s%s = %s;\n' % (m.group(4), l2, r2, m.group(1), l1, r1) + s[m.end():]
        pos = m.end(); n += 1

T = {'wrap': t5, 'reorder': t8, 'while': t1, 'swap': t2, 'assign': t3, 'cont': t4}
for f in sorted(os.listdir(D)):
    if not f.endswith('.c'): continue
    s = strip(open(D + '/' + f).read())
    for k in kinds:
        s, n = T[k](s)
        print(f, k, n)
    open(D + '/' + f, 'w').write(s)
