from checks.common import *

EXPLAIN = ('Release-before-use analysis of the value representation: the points where a value gives up its old contents (the '
           'table operations Destroy/Destruct/Clear/Copy/Assign, and the element-invalidating calls on its containers) are release '
           'events; from then on a path may no longer read through any caller-supplied reference, pointer or iterator that could lie '
           'inside those contents. Parameters that are only ever given fresh copies are computed by a fixpoint over all call sites.')
TECH = 'release-before-use dataflow with helper splicing and an interprocedural fresh-argument fixpoint'
NOTE = 'All paths of every function of the value core that releases contents are covered; aliasing is over-approximated by "any by-reference argument may lie inside". Trusts the standard containers\' own aliasing guarantees.'
RULE = ('R1 after releasing contents no by-reference argument is read, unless every call site passes a fresh object; R2 between releasing '
        'the old contents and storing the new payload nothing allocates, throws or dispatches; R3 range-assigning into a container never takes '
        'its range from a by-reference argument; R4 a destination whose source is read while it is filled is always a fresh object.')

REL0 = {'Destroy', 'Destruct', 'Clear'}
REL1 = {'Copy', 'Assign'}
REL2 = {'SetKey', 'SetIndex', 'EraseKey', 'EraseIndex'}      # give up one element
PAY = {'b', 'f', 'i', 'u', 's', 'm', 'l', 'blob', 'ref', 'proxy'}
VEC_INV = {'clear', 'assign', 'swap', 'erase', 'resize', 'push_back', 'insert', 'reserve', 'pop_back', 'operator=', 'emplace_back', 'emplace', 'shrink_to_fit'}
MAP_INV = {'clear', 'swap', 'erase', 'operator='}


def container_kind(n):
    c = n.get('fq', '')
    if c.startswith('std::vector<libvariant::Variant>') or c.startswith('std::vector<libvariant::Variant,'): return 'v'
    if c.startswith('std::map<') and 'libvariant::Variant' in c: return 'm'
    return None


class Fresh:
    """greatest fixpoint: is parameter idx of function fid only ever given a fresh object"""
    def __init__(self, cx, sl):
        self.cx = cx; self.p = cx.prog; self.sl = sl
        self.sites = {}
        for f in self.p.funcs.values():
            for i, n in enumerate(f.nodes):
                if n and 'args' in n and n.get('fn'):
                    for t in set(self.p.targets(n)) | {n['fn']}:
                        self.sites.setdefault(t, []).append((f, n))
        self.val = {}
        self.open = set()

    def entry(self, f):
        return f.access in ('public', None) and '/include/Variant/' in (self.p.classes.get(f.cls) or {}).get('file', '') if f.cls else False

    def fresh(self, fid, idx, seen=frozenset()):
        k = (fid, idx)
        if k in seen: return True
        f = self.p.funcs.get(fid)
        if f is None or idx >= len(f.params): return False
        if self.entry(f): return False
        ss = self.sites.get(fid, [])
        if not ss: return True
        for g, n in ss:
            # a default operation that this class replaces never runs on values of this class
            if g.cls == VT and f.cls != VT and g.virt and VT in self.p.bases(f.cls) and effective(self.p, f.cls, g.id) != g.id: continue
            if idx >= len(n['args']): continue
            if not self.arg(g, n['args'][idx], seen | {k}): return False
        return True

    def arg(self, g, nid, seen):
        nid = g.strip(nid)
        n = g.nodes[nid]
        k = n['k']
        if n['k'] == 'IntegerLiteral' or k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'): return True
        if k == 'UnaryOperator' and n['op'] == '&': return self.obj(g, n['c'][0], seen)
        if k.endswith('CastExpr') and n.get('c'): return self.arg(g, n['c'][0], seen)
        if k == 'ConditionalOperator': return self.arg(g, n['c'][1], seen) and self.arg(g, n['c'][2], seen)
        if 'args' in n and n.get('fq', '').split('::')[-1] in ('GetData', 'GetVar') and len(n['args']) == 1:
            return self.arg(g, n['args'][0], seen)
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): return True
        return self.obj(g, nid, seen)

    def obj(self, g, nid, seen):
        nid = g.strip(nid)
        n = g.nodes[nid]
        if n['k'] == 'DeclRefExpr':
            d = n['d']
            if d in g.pidx:
                i = g.pidx[d]
                t = g.params[i]['t']
                if not (t.endswith('&') or t.endswith('*') or 'iterator' in t): return True
                return self.fresh(g.id, i, seen)
            for m in g.nodes:
                if m and m['k'] == 'DeclStmt':
                    for v in m['vars']:
                        if v['d'] == d:
                            if v['t'].endswith('*') or v['t'].endswith('&'):
                                return 'init' in v and self.arg(g, v['init'], seen)
                            return not v.get('static')
            return False
        if n['k'] == 'UnaryOperator' and n['op'] == '*': return self.arg(g, n['c'][0], seen)
        if n['k'] in ('MaterializeTemporaryExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'StringLiteral'): return True
        return False


class Rel(Rule):
    inline_depth = 5
    def __init__(self, cx, sl, fresh):
        self.sl = sl; self.fr_ = fresh

    def inline(self, eng, st, fr, nid, n, g):
        return g.file.endswith('.h') or g.q.startswith('libvariant::Internal::') or g.cls in (VARIANT, VT)

    def init(self, eng, st):
        f = eng.root_func
        self.P = []
        for i, p in enumerate(f.params):
            t = p['t']
            if t.endswith('&') or t.endswith('*') or 'iterator' in t:
                self.P.append((i, T('p', i, p['n'] or 'arg%d' % i)))

    def release(self, eng, st, fr, nid, what):
        self.cx.count('release events')
        st.add(('rel', what))
        if what.k == '&': what = what.a[0]
        own = tuple(i for i, p in self.P if mentions(what, lambda t: t is p))
        for i, p in self.P:
            if i not in own: st.add(('taint', i, fr.f.loc(nid), own))
        # this object read after something else was released is not aliasing

    def taint(self, eng, st, fr, nid, what):
        """one element of a value is replaced or removed: arguments stored in that element are gone"""
        if what.k == '&': what = what.a[0]
        if root(what).k in ('var', 'obj'): return
        self.cx.count('element replacements')
        own = tuple(i for i, p in self.P if mentions(what, lambda t: t is p))
        for i, p in self.P:
            if i not in own and 'Variant' in eng.root_func.params[i]['t']: st.add(('taint', i, fr.f.loc(nid), own))

    def use(self, eng, st, fr, nid, t):
        for i, p in self.P:
            for fct in st.facts:
                if fct[0] == 'taint' and fct[1] == i and mentions(t, lambda x: x is p):
                    f = eng.root_func
                    if self.fr_.fresh(f.id, i) or any(self.fr_.fresh(f.id, j) for j in fct[3]):
                        self.cx.count('reads of arguments that are always fresh objects')
                        return
                    self.cx.bad('use-after-release|%s|%s' % (fn_key(f), f.params[i]['n']), fr.f.loc(nid),
                                '%s: reads %s after the old contents were released at %s; %s may be stored inside them' % (short(f.q), tstr(t), fct[2], f.params[i]['n']))
                    return

    def pending(self, st):
        return [t for t in st.facts if t[0] == 'rel' and ('set', t[1]) not in st.facts]

    def call(self, eng, st, fr, nid, n, obj, args):
        name = n.get('fq', '').split('::')[-1]
        if any(x[0] == 'taint' for x in st.facts):
            for a in args + ((obj,) if obj is not None else ()): self.use(eng, st, fr, nid, a)
        if n.get('virt') and n.get('fn') in self.sl:
            sn = self.sl[n['fn']]['n']
            for t in self.pending(st):
                if t[2:] == () and sn not in REL0:
                    self.cx.bad('half-built|%s' % fn_key(eng.root_func), fr.f.loc(nid), '%s: dispatches %s after releasing the old contents and before the new ones are in place' % (short(eng.root_func.q), sn))
            if sn in REL0 and args: self.release_virtual(eng, st, fr, nid, args[0], sn)
            elif sn in REL2 and args: self.taint(eng, st, fr, nid, args[0])
            elif sn in REL1 and len(args) > 1: self.release_virtual(eng, st, fr, nid, args[1], sn)
            return
        ck = container_kind(n)
        if ck and obj is not None and (name in (VEC_INV if ck == 'v' else MAP_INV)):
            if name in ('assign',) or name == 'insert' and len(args) > 1 and ck == 'v' and len(args) == 3:
                for a in args:
                    for i, p in self.P:
                        if mentions(a, lambda x: x is p) and mentions(a, lambda x: x.k == 'call' and x.a[0].split('::')[-1] in ('begin', 'end', 'cbegin', 'cend')):
                            f = eng.root_func
                            if not mentions(obj, lambda x: x.k == 'var' or x.k == 'obj' ) and not self.fr_.fresh(f.id, i):
                                self.cx.bad('range-alias|%s|%s' % (fn_key(f), f.params[i]['n']), fr.f.loc(nid), '%s: fills a stored container from a range of %s, which may be that container' % (short(f.q), f.params[i]['n']))
            if root(obj).k in ('var', 'obj', 'ctor', 'copy'): return
            self.cx.count('container invalidations')
            for i, p in self.P:
                if not mentions(obj, lambda t: t is p): st.add(('taint', i, fr.f.loc(nid), ()))
        elif n.get('sys') and not n.get('nt') and n['k'] != 'CXXOperatorCallExpr':
            if any(n.get('cls', '').startswith(x) for x in ('std::basic_string', 'std::vector', 'std::map', 'std::deque')) and not n.get('cm'):
                for t in self.pending(st):
                    self.cx.bad('half-built|%s' % fn_key(eng.root_func), fr.f.loc(nid), '%s: %s can fail after the old contents were released and before the new ones are in place' % (short(eng.root_func.q), name))

    def release_virtual(self, eng, st, fr, nid, x, sn):
        loc = x.a[0] if x.k == '&' else deref(x)
        y = x
        while True:
            if y.k == 'call' and y.a[0].split('::')[-1] in ('Resolve', 'ResolveConst', 'ResolveDefault', 'GetData', 'GetVar') and y.a[2]: y = y.a[2][0]
            elif y.k == '&' and y.a[0].k == '*': y = y.a[0].a[0]
            else: break
        # a local object's old contents belong to this function
        if y.k == '&' and root(y.a[0]).k in ('var', 'obj'): return
        # null values have no contents
        if (eng.root_func.cls or '').endswith('::Null') and y.k == 'p' and y.a[0] == 0 and not any(t[0] == 'taint' for t in st.facts):
            return
        if sn == 'Destroy': st.add(('rel', loc)); st.drop(lambda t: t == ('set', loc))
        self.release(eng, st, fr, nid, x)
        if sn != 'Destroy': st.drop(lambda t: t == ('rel', x))
        else: st.drop(lambda t: t == ('rel', x))

    def load(self, eng, st, fr, nid, loc):
        if any(x[0] == 'taint' for x in st.facts) and loc.k not in ('p', 'var'):
            self.use(eng, st, fr, nid, loc)

    def elem(self, eng, st, fr, nid, n):
        if n['k'] in ('CXXNewExpr', 'CXXThrowExpr'):
            for t in self.pending(st):
                self.cx.bad('half-built|%s' % fn_key(eng.root_func), fr.f.loc(nid), '%s: can fail after the old contents were released and before the new ones are in place' % short(eng.root_func.q))

    def assign(self, eng, st, fr, nid, loc, val):
        if loc.k == 'fld' and loc.a[1] in PAY | {'vtable'}:
            b = loc.a[0]
            if loc.a[1] == 'vtable':
                st.add(('vt', b))
                # tables without a payload
                if mentions(val, lambda t: t.k == 'glob' and 'ull' in str(t.a[0])): st.add(('set', b))
            else: st.add(('set', b))


def check(cx):
    p = cx.prog
    sl = slots(cx)
    vt_classes(cx)
    fresh = Fresh(cx, sl)
    def pred(f):
        if f.q.startswith('libvariant::Internal::'): return f.file.endswith('Variant.cc') or f.file.endswith('Variant.h') or 'Data *' in ''.join(q['t'] for q in f.params)
        return f.cls == VARIANT or (f.cls or '').startswith('libvariant::VariantRefImpl')
    run_all(cx, Rel(cx, sl, fresh), pred, 'value core')
    cx.need(cx.counts.get('release events', 0), 'release events', 15)
    cx.need(cx.counts.get('container invalidations', 0), 'container invalidations', 3)
    for f in p.funcs.values():
        if f.cls == VARIANT and f.name == 'Assign': cx.sample(fn_key(f))
