from checks.common import *

EXPLAIN = ('For every value class and every operation of its table the analysis follows all paths of the operation that runs (own or inherited), '
           'with helpers spliced in, and records what table its operand has at each normal return. The outcome is compared with a matrix: '
           'only a null may become a list or a map, only through the operations that ask for it and only when creation was requested; '
           'operations a class does not support have no normal return (other than the unchecked lookups, which return nothing).')
TECH = 'per-class outcome matrix from path-sensitive dataflow over the operation tables'
NOTE = 'All classes x all operations, plus the path helpers and every public operation of the value class.'
RULE = ('N1 a non-null operand keeps its table, except explicit Clear and numeric arithmetic (numeric to numeric); N2 a null operand becomes a list (map) exactly '
        'in the list (map) writing operations and lookups with creation; N3 unsupported list, map, blob, size and arithmetic operations always throw; '
        'N4 no public operation besides assignment replaces the representation of the object it is called on.')

LISTW = {'AsList', 'SetIndex', 'GetRefIndex'}
MAPW = {'AsMap', 'SetKey', 'GetRefKey'}
LIST = {'AsList', 'AsListConst', 'Index', 'EraseIndex', 'GetRefIndex', 'SetIndex', 'GetConstIndex', 'GetIndex'}
MAP = {'AsMap', 'AsMapConst', 'EraseKey', 'GetRefKey', 'SetKey', 'GetConstKey', 'GetKey'}
UNCHECKED = {'GetConstIndex', 'GetIndex', 'GetConstKey', 'GetKey'}
ARITH = {'Incr', 'Decr', 'Neg', 'Add', 'Sub', 'Mul', 'Div', 'Rem'}
NUM = {'Integer', 'Unsigned', 'Float'}
SUPPORT = [({'List', 'Null'}, {'AsList', 'EraseIndex', 'GetRefIndex', 'SetIndex', 'GetConstIndex', 'GetIndex'}), ({'List'}, {'AsListConst', 'Index'}),
           ({'Map', 'Null'}, {'AsMap', 'EraseKey', 'GetRefKey', 'SetKey', 'GetConstKey', 'GetKey'}), ({'Map'}, {'AsMapConst'}),
           ({'Blob'}, {'AsBlob', 'AsBlobConst'}), (NUM, ARITH), ({'String', 'List', 'Map', 'Blob', 'Null'}, {'Size'}), ({'String', 'List', 'Map', 'Blob', 'Null'}, {'Empty'})]
OK_METHODS = {'operator=', 'Assign', 'ReassignRef', 'Clear', 'operator++', 'operator--', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator%=',
              'SetPath', 'Incr', 'Decr', 'Add', 'Sub', 'Mul', 'Div', 'Rem', 'swap', 'Swap', 'Resolve'}


class Keep(Rule):
    inline_depth = 5
    def __init__(self, cx, sl, tabs, acc):
        self.sl = sl; self.tabs = tabs; self.acc = acc
    def inline(self, eng, st, fr, nid, n, g):
        return g.q.startswith('libvariant::Internal::') or g.cls == VARIANT
    def table_of(self, eng, val):
        for t in subterms(val):
            if t.k == 'glob':
                v = eng.prog.vars.get(t.a[0])
                if v and v['t'].replace('const ', '') in self.tabs: return short(v['t'].replace('const ', ''))
            elif t.k == 'call' and t.a[0] in self.acc: return short(self.acc[t.a[0]])
        return '?'
    def set(self, st, x, k, where):
        y = addr(x)
        while y.k == 'call' and y.a[0].split('::')[-1] in ('Resolve', 'ResolveConst') and y.a[2]: y = y.a[2][0]
        x = deref(y)
        st.drop(lambda t: t[0] == 'vt' and t[1] is x)
        st.add(('vt', x, k, where))
    def assign(self, eng, st, fr, nid, loc, val):
        if loc.k == 'fld' and loc.a[1] == 'vtable':
            self.set(st, loc.a[0], 'none' if val is ZERO else self.table_of(eng, val), fr.f.loc(nid))
    def call(self, eng, st, fr, nid, n, obj, args):
        if n.get('virt') and n.get('fn') in self.sl:
            sn = self.sl[n['fn']]['n']
            if sn in ('Destroy', 'Destruct') and args: self.set(st, deref(args[0]), 'none', fr.f.loc(nid))
            elif sn in ('Assign', 'Copy') and len(args) > 1: self.set(st, deref(args[1]), '?', fr.f.loc(nid))
            elif sn in ('MakeRef', 'MakeProxy') and len(args) > 1: self.set(st, deref(args[1]), '?', fr.f.loc(nid))
            elif sn in ('Clear',) and args:
                if not any(t[0] == 'vt' and t[1] is deref(args[0]) for t in st.facts): self.set(st, deref(args[0]), 'Null', fr.f.loc(nid))
            elif sn in LISTW | MAPW and args and not (sn.startswith('GetRef') and args[2] is ZERO):
                # dispatch on the same operand: by induction the matrix holds for it
                pass
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is None:
            st.drop(lambda t: t[0] == 'rv'); st.add(('rv', val))
    def exit(self, eng, st):
        rv = [t[1] for t in st.facts if t[0] == 'rv']
        self.outs.append((dict(st.conds), [(t[1], t[2], t[3]) for t in st.facts if t[0] == 'vt'], rv[0] if rv else None))


def accessors(p, tabs):
    acc = {}
    for f in p.funcs.values():
        if f.ret.endswith('VTable *') and not f.params and not f.cls:
            cs = {n['dt'].replace('const ', '') for n in f.nodes if n and n['k'] == 'DeclRefExpr' and n.get('dt', '').replace('const ', '') in tabs}
            if len(cs) == 1: acc[f.q] = cs.pop()
    return acc


def check(cx):
    p = cx.prog
    sl = slots(cx)
    subs = vt_classes(cx)
    tabs = [c for c in subs if not any(True for x in p.subclasses(c))]
    cx.need(tabs, 'value classes', 11)
    acc = accessors(p, set(tabs))
    rule = Keep(cx, sl, set(tabs), acc)
    eng = cx.engine(rule)
    memo = {}
    for c in tabs:
        C = short(c)
        if C in ('Ref', 'Proxy'): continue
        for sid, m in sorted(sl.items(), key=lambda x: x[1]['n']):
            S = m['n']
            e = effective(p, c, sid)
            f = p.funcs.get(e)
            if f is None or not f.cfg: continue
            if e not in memo:
                rule.outs = []
                eng.run(f)
                memo[e] = rule.outs
            outs = memo[e]
            cx.count('class/operation pairs judged')
            P = [T('p', i, q['n'] or 'arg%d' % i) for i, q in enumerate(f.params)]
            that = deref(P[0]) if P else None
            name = '%s::%s' % (C, S) + ('' if f.cls == c else ' (inherited from %s)' % short(f.cls))
            # N1 / N2
            if S not in ('Destroy', 'Destruct'):
                for conds, vts, rv in outs:
                    ch = [(k, w) for x, k, w in vts if x is that]
                    for k, w in ch:
                        if C == 'Null':
                            want = 'List' if S in LISTW else 'Map' if S in MAPW else None
                            if S == 'ResolveDefault': continue
                            if S == 'Clear' and k == 'Null': continue
                            if want is None:
                                cx.bad('null|%s' % S, w, '%s changes the type of a null value' % name)
                            elif k != want:
                                cx.bad('null|%s' % S, w, '%s turns a null value into %s instead of %s' % (name, k, want))
                            elif S.startswith('GetRef') and simp(P[2], conds) != 1:
                                cx.bad('null|%s' % S, w, '%s turns a null value into a %s although no creation was requested' % (name, want))
                        elif S in ARITH and C in NUM and k in NUM: pass
                        elif S == 'Clear' and k == 'Null': pass
                        else:
                            cx.bad('retype|%s|%s' % (fn_key(f), S), w, '%s changes the type of its operand (to %s)' % (name, k))
                    if C == 'Null' and S in LISTW | MAPW and not ch:
                        if S.startswith('GetRef') and simp(P[2], conds) != 1: continue
                        cx.bad('null-keeps|%s' % S, f.loc(), '%s can return without making the null value a container' % name)
            # N3
            for who, ops in SUPPORT:
                if S not in ops: continue
                if C in who:
                    if C == 'Null' and S in UNCHECKED:
                        pass
                    else: continue
                for conds, vts, rv in outs:
                    if S in UNCHECKED and rv is ZERO and simp(P[2], conds) == 0: continue
                    cx.bad('unsupported|%s|%s' % (fn_key(f), S), f.loc(), '%s can return normally, but a %s value does not support it%s' % (
                        name, C, ' (a checked lookup must throw)' if S in UNCHECKED else ''))
                    break
                cx.count('unsupported operations judged')
    cx.need(cx.counts.get('unsupported operations judged', 0), 'unsupported operations', 100)
    # path helpers and public operations
    for f in roots(cx, lambda f: f.cls == VARIANT and f.kind in ('method', 'conv') and f.name not in OK_METHODS):
        rule.outs = []
        eng.run(f)
        cx.count('public operations judged')
        for conds, vts, rv in rule.outs:
            for x, k, w in vts:
                if x is deref(THIS):
                    cx.bad('public|%s' % fn_key(f), w, '%s replaces the representation of its object' % short(f.q))
    for f in p.funcs.values():
        if f.cls == VT and f.cfg and f.id not in sl and f.kind == 'method' and f.params and f.params[0]['t'] == DATA + ' *':
            rule.outs = []
            eng.run(f)
            cx.count('path helpers judged')
            that = deref(T('p', 0, f.params[0]['n']))
            for conds, vts, rv in rule.outs:
                for x, k, w in vts:
                    if x is that and not (f.name == 'SetPath' and k == '?'):
                        cx.bad('path|%s' % fn_key(f), w, '%s changes the type of the value it walks through' % short(f.q))
    cx.need(cx.counts.get('public operations judged', 0), 'public operations', 60)
    cx.need(cx.counts.get('path helpers judged', 0), 'path helpers', 3)
    cx.finish_engine(eng, 'operations')
