"""vocabulary shared by the rules: the value representation, its operation
table, helper classification"""
from interp import *
from facts import AnalysisBroken, rel

NS = 'libvariant::'
DATA = 'libvariant::Internal::Data'
VT = 'libvariant::Internal::VTable'
VARIANT = 'libvariant::Variant'


def vt_classes(cx):
    """the operation-table class and its concrete subclasses"""
    if VT not in cx.prog.classes: raise AnalysisBroken('operation table class not found')
    subs = sorted(cx.prog.subclasses(VT))
    cx.need(subs, 'operation table subclasses', 8)
    return subs


def slots(cx):
    """virtual operations: id -> method record"""
    out = {m['id']: m for m in cx.prog.classes[VT]['methods'] if m.get('virt') and m.get('kind') != 'dtor'}
    cx.need(out, 'virtual value operations', 30)
    return out


def base_slot(prog, mid, sl):
    """the operation-table slot a method (id) implements"""
    if mid in sl: return mid
    d = prog.method_decl.get(mid)
    if not d: return None
    for o in d[1].get('over', []):
        r = base_slot(prog, o, sl)
        if r: return r
    return None


def effective(prog, cls, slot):
    """method id that runs for slot in class cls"""
    c = cls
    while c:
        rec = prog.classes.get(c)
        if rec is None: return None
        for m in rec['methods']:
            if m['id'] == slot or slot in m.get('over', []): return m['id']
            st = list(m.get('over', []))
            while st:
                o = st.pop()
                if o == slot: return m['id']
                d = prog.method_decl.get(o)
                if d: st.extend(d[1].get('over', []))
        c = rec['bases'][0] if rec['bases'] else None
    return None


def public_header(cx, f):
    """is the function a public entry point of an installed header"""
    if f.kind in ('method', 'ctor', 'dtor', 'conv'):
        c = cx.prog.classes.get(f.cls)
        return c is not None and '/include/Variant/' in c['file'] and f.access in ('public', None)
    return f.pub


def direct_callers(cx):
    """function id -> set of ids calling it directly (non-virtually)"""
    dc = getattr(cx, '_dc', None)
    if dc is None:
        dc = {}
        for f in cx.prog.funcs.values():
            for i, n in cx.eff.callees[f.id]:
                if n.get('virt'): continue
                t = n.get('fn')
                if t in cx.prog.funcs and t != f.id: dc.setdefault(t, set()).add(f.id)
        cx._dc = dc
    return dc


def is_helper(cx, f):
    """only ever reached through direct calls inside the library, so it is
    judged in the context of its callers"""
    if f.virt or f.over or public_header(cx, f) or f.kind == 'dtor': return False
    if f.id not in direct_callers(cx): return False
    return True


def roots(cx, pred=lambda f: True):
    return [f for f in sorted(cx.prog.funcs.values(), key=lambda f: (f.file, f.line, f.id)) if f.cfg and pred(f) and not is_helper(cx, f)]


def run_all(cx, rule, pred, label):
    """analyse every root satisfying pred, then helpers no root spliced in"""
    eng = cx.engine(rule)
    for f in roots(cx, pred):
        eng.run(f)
    for f in sorted(cx.prog.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        if f.cfg and pred(f) and f.id not in eng.covered: eng.run(f)
    cx.finish_engine(eng, label)
    return eng


def short(q):
    return q.replace('libvariant::Internal::', '').replace('libvariant::', '')


def fn_key(f):
    """stable name of a function for finding keys"""
    return short(f.q) + '(' + ','.join(short(p['t']).replace('const ', '').replace(' ', '') for p in f.params) + ')'


def only_reached_from(cx, fid, allowed):
    """does every direct call chain into fid start in a function satisfying
    allowed?  returns None or the offending chain (list of funcs)"""
    dc = direct_callers(cx)
    seen = set()
    st = [(fid, (fid,))]
    while st:
        x, chain = st.pop()
        if x in seen: continue
        seen.add(x)
        f = cx.prog.funcs[x]
        if allowed(f): continue
        cs = dc.get(x, set())
        if not cs or f.virt or public_header(cx, f):
            return [cx.prog.funcs[y] for y in reversed(chain)]
        for c in sorted(cs): st.append((c, chain + (c,)))
    return None


# ---- linear forms over the syntax tree --------------------------------------
CASTS = ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr')


def defs_of(f):
    """local key -> list of defining nodes: ('init', expr) or ('set', node)"""
    d = getattr(f, '_defs', None)
    if d is not None: return d
    d = {}
    for i, n in enumerate(f.nodes):
        if n is None: continue
        if n['k'] == 'DeclStmt':
            for v in n['vars']:
                if v.get('init') is not None and v['init'] >= 0: d.setdefault(v['d'], []).append(('init', v['init']))
                else: d.setdefault(v['d'], [])
        elif n['k'] in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            l = f.nodes[f.strip(n['c'][0])]
            if l['k'] == 'DeclRefExpr': d.setdefault(l['d'], []).append(('set', i))
        elif n['k'] == 'UnaryOperator' and n['op'] in ('++', '--', 'post++', 'post--', '&'):
            l = f.nodes[f.strip(n['c'][0])]
            if l['k'] == 'DeclRefExpr': d.setdefault(l['d'], []).append(('set', i))
        elif 'args' in n and n.get('pt'):
            for a, t in zip(n['args'], n['pt']):
                if t.endswith('&') and not t.startswith('const'):
                    l = f.nodes[f.strip(a)]
                    if l['k'] == 'DeclRefExpr': d.setdefault(l['d'], []).append(('set', i))
    f._defs = d
    return d


def text(f, i):
    """canonical spelling of an expression, independent of formatting"""
    i = f.strip(i)
    n = f.nodes[i]
    k = n['k']
    if n.get('cv') is not None: return str(n['cv'])
    if k == 'DeclRefExpr': return n['d'] or n['dn']
    if k == 'MemberExpr': return (text(f, n['c'][0]) if n.get('c') else 'this') + '.' + n['m']
    if k == 'CXXThisExpr': return 'this'
    if 'v' in n: return repr(n['v'])
    if 'args' in n:
        return '%s%s(%s)' % ((text(f, n['obj']) + '.') if n.get('obj') is not None and n['obj'] >= 0 else '', n.get('fq', '?'), ','.join(text(f, a) for a in n['args'] if a is not None and a >= 0))
    return '%s%s(%s)' % (k, n.get('op', ''), ','.join(text(f, c) for c in n.get('c', []) if c is not None and c >= 0))


def lin(f, i, depth=6):
    """linear form {atom: coefficient} of an integer or pointer expression;
    the constant part has atom 1; locals defined exactly once are replaced by
    their definition"""
    i = f.strip(i)
    n = f.nodes[i]
    k = n['k']
    if n.get('cv') is not None:
        try: return {1: int(n['cv'])} if int(n['cv']) else {}
        except ValueError: pass
    if k == 'BinaryOperator' and n['op'] in ('+', '-'):
        return ladd(lin(f, n['c'][0], depth), lin(f, n['c'][1], depth), 1 if n['op'] == '+' else -1)
    if k == 'BinaryOperator' and n['op'] == '*':
        a, b = lin(f, n['c'][0], depth), lin(f, n['c'][1], depth)
        if set(a) <= {1}: a, b = b, a
        if set(b) <= {1}: return {x: c * b.get(1, 0) for x, c in a.items() if c * b.get(1, 0)}
    if k == 'UnaryOperator' and n['op'] == '-':
        return {a: -c for a, c in lin(f, n['c'][0], depth).items()}
    if k == 'UnaryOperator' and n['op'] == '&':
        m = f.nodes[f.strip(n['c'][0])]
        if m['k'] == 'ArraySubscriptExpr': return ladd(lin(f, m['c'][0], depth), lin(f, m['c'][1], depth), 1)
        if 'args' in m and m.get('fq', '').endswith('::operator[]'):
            o = m.get('obj'); a = m['args']
            if o is None or o < 0: o, a = a[0], a[1:]
            return ladd({'@' + text(f, o): 1}, lin(f, a[0], depth), 1)
    if k == 'DeclRefExpr' and depth and n.get('d'):
        ds = defs_of(f).get(n['d'])
        if ds is not None and len(ds) == 1 and n['d'] not in f.pidx:
            kind, e = ds[0]
            if kind == 'set':
                m = f.nodes[e]
                if m['k'] == 'BinaryOperator' and m['op'] == '=': return lin(f, m['c'][1], depth - 1)
            else: return lin(f, e, depth - 1)
        return {n['d']: 1}
    if 'args' in n and k != 'CXXConstructExpr': 
        return {('call', i) if not n.get('cm') else text(f, i): 1}
    return {text(f, i): 1}


def ladd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]: del r[k]
    return r


def lneg(a): return {k: -v for k, v in a.items()}


def ats(f, i, val, depth=3):
    """(kind, form) facts a condition with this outcome establishes:
    ('==', L) means L = 0, ('!=', L) L != 0, ('<=', L) L <= 0, ('<', L) L < 0"""
    i = f.strip(i)
    n = f.nodes[i]
    if n['k'] == 'UnaryOperator' and n['op'] == '!': return ats(f, n['c'][0], not val, depth)
    if n['k'] == 'BinaryOperator' and n['op'] in ('&&', '||'):
        if (n['op'] == '&&') == val: return ats(f, n['c'][0], val, depth) + ats(f, n['c'][1], val, depth)
        return []
    if n['k'] == 'BinaryOperator' and n['op'] in ('<', '>', '<=', '>=', '==', '!='):
        d = ladd(lin(f, n['c'][0]), lin(f, n['c'][1]), -1)
        op = n['op']
        if not val: op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}[op]
        if op in ('>', '>='): d = lneg(d); op = {'>': '<', '>=': '<='}[op]
        return [(op, d)]
    if n['k'] == 'DeclRefExpr' and depth and n.get('t') == 'bool':
        ds = defs_of(f).get(n.get('d'))
        if ds and len(ds) == 1 and ds[0][0] == 'init': return ats(f, ds[0][1], val, depth - 1)
    return [('!=' if val else '==', lin(f, i))]


class Opened(Rule):
    """a constructor that opens a file returns normally only if that worked"""
    inline_depth = 3
    def __init__(self, base): self.base = base
    def inline(self, eng, st, fr, nid, n, g): return g.kind == 'ctor' or is_helper(self.cx, g)
    def after(self, eng, st, fr, nid, n, obj, args, res):
        if n.get('fq') in ('fopen', 'fdopen', 'fopen64', 'tmpfile', 'freopen'):
            self.cx.count('files opened')
            st.add(('opened', res, fr.f.loc(nid)))
    def exit(self, eng, st):
        f = eng.root_func
        for t in st.facts:
            if t[0] != 'opened': continue
            # the base class keeps it in a member of the object under construction
            kept = {l.a[1] for l, v in st.mem.items() if v is t[1] and l.k == 'fld'}
            if st.conds.get(t[1]) is not True and not any(st.conds.get(T('fld', deref(THIS), m)) is True for m in kept):
                self.cx.bad('open|%s' % fn_key(f), t[2], '%s finishes although the file may not have been opened' % short(f.q))


def opened(cx, base):
    p = cx.prog
    r = Opened(base)
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.kind == 'ctor' and f.cfg and not f.implicit and f.cls and base in p.bases(f.cls):
            e = cx.engine(r); e.run(f)
