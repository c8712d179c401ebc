from checks.common import *
from interp import Rule, T, I, ZERO, mkcmp, simp
import re

EXPLAIN = ('Every integer division and remainder of the program is enumerated, including compound assignments, the instantiated arithmetic templates and the standard function objects. '
           'On every path that reaches one, the branch conditions known at that point must exclude a zero divisor and, for signed operands as wide as the result, the quotient of the most negative value and -1.')
TECH = 'path-sensitive guard analysis of every integer division'
NOTE = 'Floating-point division does not trap and is not constrained.'
RULE = 'D1 at every integer / or % the divisor is a non-zero constant or known non-zero on the path; D2 for signed operands min/-1 is excluded on the path; D3 no call of a division routine without these guards.'
ASSUME = ['conditions are compared on the symbolic values of the operands, so a guard on a different variable does not count']

INT = {'int': 32, 'long': 64, 'long long': 64, 'short': 16, 'signed char': 8, 'char': 8, 'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64, 'unsigned short': 16, 'unsigned char': 8, 'bool': 1, '__int128': 128, 'unsigned __int128': 128}
CALLS = {'div', 'ldiv', 'lldiv', 'imaxdiv', 'std::div', 'std::ldiv', 'std::lldiv'}


def base(t): return t.replace('const ', '').replace('volatile ', '').strip()


def is_div(n):
    return n['k'] in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op') in ('/', '%', '/=', '%=')


class Div(Rule):
    inline_depth = 4
    def __init__(self, cx, hot): self.cx = cx; self.hot = hot; self.done = set(); self.bad = {}

    def inline(self, eng, st, fr, nid, n, g):
        if g.id in self.hot: return True
        return len(g.nodes) < 200 and not g.virt and any(m and m['k'] == 'CXXThrowExpr' for m in g.nodes)

    def elem(self, eng, st, fr, nid, n):
        f = fr.f
        if is_div(n):
            l, r = n['c'][0], n['c'][1]
            lv = eng.ev(st, fr, l) if n['k'] == 'BinaryOperator' else eng.value_of(st, eng.lv(st, fr, l))
            self.judge(st, fr, nid, n['op'].rstrip('='), lv, eng.ev(st, fr, r), base(n.get('ct') or n['t']), f, l, r)
        elif 'args' in n and n.get('fq') in CALLS and len(n['args']) == 2:
            self.judge(st, fr, nid, n['fq'], eng.ev(st, fr, n['args'][0]), eng.ev(st, fr, n['args'][1]), 'long', f, n['args'][0], n['args'][1])
        elif 'args' in n and functor(f, n):
            self.bad.setdefault(('functor', f.id, nid), (f, nid, 'std::%s on integers is applied without any guard' % functor(f, n)))

    def judge(self, st, fr, nid, op, lv, rv, ty, f, l, r):
        if ty not in INT: return
        key = (f.id, nid)
        if key not in self.done: self.done.add(key); self.cx.count('integer divisions')
        z = simp(mkcmp('==', rv, ZERO), st.conds)
        nz = z == 0 or st.conds.get(T('<', ZERO, rv)) is True or st.conds.get(T('<', rv, ZERO)) is True or simp(T('<', ZERO, rv), st.conds) == 1
        if not nz:
            self.bad.setdefault(('zero',) + key, (f, nid, 'the divisor of %s can be zero here (%s)' % (op, text(f, r))))
        if ty.startswith('unsigned') or ty == 'bool': return
        w = INT[ty]
        if self.narrow(f, l, w) or rv.k == 'i' and rv.a[0] != -1: return
        mn = -(1 << (w - 1))
        ok = simp(mkcmp('==', rv, I(-1)), st.conds) == 0 or simp(mkcmp('==', lv, I(mn)), st.conds) == 0
        ok = ok or simp(T('<', ZERO, rv), st.conds) == 1 or simp(T('<', rv, ZERO), st.conds) == 0 or simp(T('<', lv, ZERO), st.conds) == 0 or lv.k == 'i' and lv.a[0] != mn
        if not ok: self.bad.setdefault(('over',) + key, (f, nid, 'the most negative value %s -1 is not excluded here' % op))

    def narrow(self, f, i, w):
        t = INT.get(base(f.nodes[f.strip(i)].get('t', '')))
        m = f.nodes[f.strip(i)]
        return t is not None and t < w or m['k'] == 'CallExpr' and m.get('fq') in ('rand', 'std::rand')


def functor(f, n):
    m = re.match(r'std::(divides|modulus)', n.get('fq', ''))
    if m and (n.get('oop') == '()' or n['fq'].endswith('operator()')):
        if any(base(p.replace('&', '')) in INT for p in n.get('pt', [])): return m.group(1)
    return None


def check(cx):
    prog = cx.prog
    hot = set()
    for f in prog.funcs.values():
        for i, n in enumerate(f.nodes):
            if n and (is_div(n) and base(n.get('ct') or n['t']) in INT or 'args' in n and (n.get('fq') in CALLS or functor(f, n))): hot.add(f.id); break
    cx.need(hot, 'functions with an integer division', 3)
    # the arithmetic entry points of the value type have to be among the functions seen
    names = {'my': [f for f in prog.funcs.values() if f.id in hot and f.file.endswith('Variant.cc')]}
    cx.count('functions with an integer division', len(hot))
    todo = set(hot)
    dc = direct_callers(cx)
    for fid in hot:
        if is_helper(cx, prog.funcs[fid]): todo |= dc.get(fid, set())
    res = {}
    rule = Div(cx, hot)
    for f in sorted((prog.funcs[i] for i in todo), key=lambda f: (f.file, f.line, f.id)):
        if not f.cfg: continue
        if f.id in hot and is_helper(cx, f):
            # a helper may rely on its callers
            r = Div(cx, hot); e = cx.engine(r); e.run(f)
            if r.bad: res[f.id] = r.bad
            continue
        eng = cx.engine(rule); eng.run(f)
    # helpers that are not safe alone must have been safe in every caller
    for fid, bad in res.items():
        cs = [c for c in dc.get(fid, ()) if prog.funcs[c].cfg]
        for k, v in bad.items():
            r = Div(cx, hot)
            seen = False
            for c in cs:
                e = cx.engine(r); e.run(prog.funcs[c]); seen = True
            if k in r.bad or not seen or (k[1], k[2]) not in r.done: rule.bad.setdefault(k, v)
    for (kind, fid, nid), (f, i, m) in sorted(rule.bad.items(), key=lambda x: (x[1][0].file, x[1][0].line, x[0][2])):
        cx.bad('%s|%s' % (kind, fn_key(f)), f.loc(i), '%s: %s' % (short(f.q), m))
    for f in list(names['my'])[:4]: cx.sample('division in %s' % fn_key(f))
    # arithmetic of values goes through guarded divisions only
    ar = [f for f in prog.funcs.values() if f.cls and f.cls.startswith(NS) and f.q.split('::')[-1] in ('Divide', 'Modulus', 'OpDivide', 'OpModulus') or re.search(r'operator[/%]=?$', f.q) and f.q.startswith(NS)]
    cx.count('value arithmetic operations', len(ar))
