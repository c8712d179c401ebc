from checks.common import *

EXPLAIN = ('Each operation of the reference and proxy tables is analysed path by path: on every normal return it must have '
           'dispatched the same operation, with its own arguments in order, to the target, and return that result. Proxy '
           'operations on missing targets may return without dispatch only where the non-creating lookup is known to have '
           'failed; the creating lookup is confined to writing operations. Public value operations must dispatch rather than '
           'touch the payload.')
TECH = 'path-sensitive forwarding (delegation) analysis of the reference and proxy operation tables'
NOTE = 'Every path of every forwarding operation is covered. Trusts the clang front end; the meaning of the forwarded operations is left to the target types.'
RULE = ('R1 every table operation is implemented by both reference tables; R2 same operation, same arguments, result returned; '
        'R3 only writing operations resolve with creation; R4 a miss answers without dispatch only after a failed non-creating lookup; '
        'R5 public value methods never read the payload union directly; R6 resolution walks the whole stored path from the stored root.')
ASSUME = ['target lookup itself (walking a path) is the subject of the container operations']

PAY = {'b', 'f', 'i', 'u', 's', 'm', 'l', 'blob', 'ref', 'proxy'}
# operations that may create a missing proxy target: they store something there or hand out something to store into
WRITES = {'AsList', 'AsMap', 'SetIndex', 'SetKey', 'Resolve', 'ResolveDefault', 'Clear', 'Incr', 'Decr', 'Add', 'Sub', 'Mul', 'Div', 'Rem', 'Assign'}
NODELEG = {'Destroy', 'Destruct', 'Exists'}
# lookups that report absence in their answer: a proxy without a target may answer them itself
LOOKUPS = {'GetRefIndex', 'GetRefKey', 'GetIndex', 'GetKey', 'GetConstIndex', 'GetConstKey', 'ContainsIndex', 'ContainsKey'}


def bare(a):
    while a.k == 'copy' or (a.k == 'ctor' and len(a.a[1]) == 1): a = a.a[0] if a.k == 'copy' else a.a[1][0]
    return a


class Seq(Rule):
    """contents of local paths: what they were copied from and what was appended since"""
    def stored(self, eng):
        q = eng.root_func.params[0]
        return T('fld', T('*', T('fld', T('*', T('p', 0, q['n'] or 'arg0')), 'proxy')), 'path')

    def declare(self, eng, st, fr, v, loc, val):
        if 'PathElement' not in (v.get('t') or '') and 'Path' not in (v.get('t') or ''): return
        st.drop(lambda t: t[0] == 'seq' and t[1] is loc)
        if val is not None and val.k in ('copy', 'ctor', 'fld'):
            st.add(('seq', loc, self.contents(eng, st, val)))

    def contents(self, eng, st, v):
        """the sequence a path-valued term stands for"""
        if v.k == 'copy': return self.contents(eng, st, v.a[0])
        if v is self.stored(eng): return ('stored',)
        if v.k == 'ctor':
            a = [bare(x) for x in v.a[1] if not (x.k == 'ctor' and 'allocator' in str(x.a[0]))]
            if not a: return ()
            if len(a) == 1: return self.contents(eng, st, a[0])
            r = self.range(eng, st, a[0], a[1])
            return (r,) if isinstance(r, str) else r
        for t in st.facts:
            if t[0] == 'seq' and t[1] is v: return t[2]
        return ('other', tstr(v))

    def range(self, eng, st, b, e):
        b, e = bare(b), bare(e)
        if b.k == 'call' and e.k == 'call' and b.a[1] is e.a[1] and b.a[0].split('::')[-1] in ('begin', 'cbegin') and e.a[0].split('::')[-1] in ('end', 'cend'):
            return self.contents(eng, st, b.a[1])
        return (tstr(b) + '..' + tstr(e),)

    def seqcall(self, eng, st, fr, nid, n, obj, args):
        nm = n.get('fq', '').split('::')[-1]
        if n['k'] not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            for a, t in zip(args, n.get('pt') or ()):
                if t.endswith('&') and not t.startswith('const ') or t.endswith('&&'):
                    for c in [c for c in st.facts if c[0] == 'seq' and (c[1] is a)]:
                        st.drop(lambda t: t is c)
                        st.add(('seq', c[1], ('other', 'passed to ' + nm)))
        if obj is None: return
        cur = [t for t in st.facts if t[0] == 'seq' and t[1] is obj]
        if not cur: return
        c = cur[0][2]
        if nm in ('push_back', 'emplace_back') and len(args) == 1: c = c + (tstr(bare(args[0])),)
        elif nm == 'push_front' and len(args) == 1: c = (tstr(bare(args[0])),) + c
        elif nm == 'insert' and len(args) == 3:
            at = bare(args[0]); r = self.range(eng, st, args[1], args[2])
            if at.k == 'call' and at.a[1] is obj and at.a[0].split('::')[-1] in ('end', 'cend'): c = c + r
            elif at.k == 'call' and at.a[1] is obj and at.a[0].split('::')[-1] in ('begin', 'cbegin'): c = r + c
            else: c = ('other', 'inserted')
        elif nm in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'deque', 'max_size', 'get_allocator', 'at', 'operator[]', 'front', 'back'): return
        else: c = ('other', nm)
        st.drop(lambda t: t[0] == 'seq' and t[1] is obj)
        st.add(('seq', obj, c))


class Deleg(Seq):
    inline_depth = 5
    def __init__(self, cx, sl, slot, cls, proxy, getters):
        self.sl = sl; self.slot = slot; self.cls = cls; self.proxy = proxy
        self.name = sl[slot]['n']; self.getters = getters

    def inline(self, eng, st, fr, nid, n, g):
        return g.id not in self.getters

    def params(self, eng):
        return tuple(T('p', i, p['n'] or 'arg%d' % i) for i, p in enumerate(eng.root_func.params))

    def call(self, eng, st, fr, nid, n, obj, args):
        self.seqcall(eng, st, fr, nid, n, obj, args)
        if n.get('virt') and n.get('fn') in self.sl:
            name = self.sl[n['fn']]['n']
            P = self.params(eng)
            that = P[0]
            self.cx.count('dispatches seen')
            if n['fn'] == self.slot:
                good = True
                if len(args) != len(P): good = False
                else:
                    for a, b in zip(args[1:], P[1:]):
                        a = eng.value_of(st, a)
                        while a.k == 'copy': a = a.a[0]
                        if a is not b:
                            good = False
                            self.cx.bad('args|%s' % fn_key(eng.root_func), fr.f.loc(nid),
                                        '%s forwards %s where the caller passed %s' % (short(eng.root_func.q), tstr(a), tstr(b)))
                if args and obj is not None and self.dispatch_base(obj) is not args[0] and self.dispatch_base(obj) is not None:
                    self.cx.bad('base|%s' % fn_key(eng.root_func), fr.f.loc(nid),
                                '%s dispatches on %s but operates on %s' % (short(eng.root_func.q), tstr(obj), tstr(args[0])))
                if not self.proxy and args:
                    if args[0] is not T('fld', T('*', that), 'ref'):
                        self.cx.bad('target|%s' % fn_key(eng.root_func), fr.f.loc(nid), '%s operates on %s, not on its target' % (short(eng.root_func.q), tstr(args[0])))
                if self.proxy and args and args[0] is that and 'rebound' not in st.facts:
                    self.cx.bad('unresolved|%s' % fn_key(eng.root_func), fr.f.loc(nid), '%s dispatches to itself before being resolved to its target' % short(eng.root_func.q))
                if good: st.add(('deleg', (fr.uid, nid)))
            elif name == 'MakeRef' and len(args) == 2 and args[1] is that:
                st.add('rebound')
                if not (mentions(args[0], lambda t: t.k == 'call' and t.a[0].split('::')[-1] in ('GetPathConst', 'GetPathRef'))
                        or args[0].k in ('&', 'call', 'var', 'hv') ):
                    self.cx.bad('rebind|%s' % fn_key(eng.root_func), fr.f.loc(nid), '%s binds the proxy to %s' % (short(eng.root_func.q), tstr(args[0])))
        if n.get('fn') in self.getters:
            nm = n['fq'].split('::')[-1]
            that = self.params(eng)[0]
            px = T('*', T('fld', T('*', that), 'proxy'))
            if self.proxy and len(args) >= 4 and self.name not in ('MakeRef', 'MakeProxy'):
                self.cx.count('path resolutions seen')
                want = (T('fld', px, 'ref'), T('fld', px, 'path'))
                a0 = args[0]
                if a0 is not want[0]:
                    self.cx.bad('root|%s' % fn_key(eng.root_func), fr.f.loc(nid), '%s resolves from %s instead of the stored root' % (short(eng.root_func.q), tstr(a0)))
                for k, which in ((1, 'begin'), (2, 'end')):
                    a = args[k]
                    while a.k in ('copy',) or (a.k == 'ctor' and len(a.a[1]) == 1): a = a.a[0] if a.k == 'copy' else a.a[1][0]
                    if not (a.k == 'call' and a.a[1] is want[1] and a.a[0].split('::')[-1] in (which, 'c' + which)):
                        self.cx.bad('path|%s' % fn_key(eng.root_func), fr.f.loc(nid), '%s resolves only part of the stored path (%s)' % (short(eng.root_func.q), tstr(a)))
            flag = self.flag(eng)
            if nm == 'GetPathConst' and len(args) >= 4 and self.proxy and flag is not None:
                want = st.conds.get(flag)
                if args[3] is not flag and not (args[3] is ZERO) and want is not True:
                    self.cx.bad('raises|%s' % fn_key(eng.root_func), fr.f.loc(nid),
                                '%s raises for a missing target although the caller asked for an unchecked lookup' % short(eng.root_func.q))
            if nm == 'GetPathRef' and len(args) >= 4 and args[3] is not ZERO:
                self.cx.count('creating resolutions')
                if not self.may_create(eng, st):
                    self.cx.bad('creates|%s' % fn_key(eng.root_func), fr.f.loc(nid), '%s creates the missing target although it only reads' % short(eng.root_func.q))

    def flag(self, eng):
        """the caller's choice between raising and answering nothing"""
        q = eng.root_func.params[-1]
        if self.name in LOOKUPS and q['t'] in ('bool', '_Bool'): return T('p', len(eng.root_func.params) - 1, q['n'] or 'arg%d' % (len(eng.root_func.params) - 1))
        return None

    def exc_exit(self, eng, st, site, ty):
        f = eng.root_func
        if not self.proxy or ('missed',) not in st.facts or any(isinstance(t, tuple) and t[0] == 'deleg' for t in st.facts): return
        flag = self.flag(eng)
        if flag is not None and ty and ('KeyError' in ty or 'out_of_range' in ty) and st.conds.get(flag) is not True:
            self.cx.bad('raises|%s' % fn_key(f), f.loc(), '%s raises %s for a missing target although the lookup is unchecked' % (short(f.q), short(ty)))

    def may_create(self, eng, st):
        if self.name in WRITES: return True
        if self.name in ('GetRefIndex', 'GetRefKey'):
            P = self.params(eng)
            return st.conds.get(P[-1]) is True
        return False

    def dispatch_base(self, obj):
        # obj is *(X->vtable): X
        if obj.k == '*' and obj.a[0].k == 'fld' and obj.a[0].a[1] == 'vtable':
            return addr(obj.a[0].a[0])
        return None

    def after(self, eng, st, fr, nid, n, obj, args, res):
        if n.get('virt') and n.get('fn') == self.slot and ('deleg', (fr.uid, nid)) in st.facts:
            st.add(('res', res))

    def ret(self, eng, st, fr, nid, val):
        if fr.parent is not None: return
        f = eng.root_func
        if f.ret == 'void' or val is None: return
        v = val
        if self.proxy and ('missed',) in st.facts and not any(isinstance(t, tuple) and t[0] == 'deleg' for t in st.facts):
            flag = self.flag(eng)
            if flag is not None and st.conds.get(flag) is not False:
                self.cx.bad('silent|%s' % fn_key(f), f.loc(nid), '%s can answer nothing for a missing target although the caller asked for an error' % short(f.q))
            if 'VariantRef' in f.ret:
                self.miss_ref(eng, st, f, nid, v)
        while v.k in ('copy',): v = v.a[0]
        if any(isinstance(t, tuple) and t[0] == 'deleg' for t in st.facts):
            if not any(isinstance(t, tuple) and t[0] == 'res' and t[1] is v for t in st.facts):
                if f.ret.endswith('VariantRef') or 'VariantRefImpl' in f.ret:
                    if mentions(v, lambda t: any(isinstance(x, tuple) and x[0] == 'res' and x[1] is t for x in st.facts)): return
                self.cx.bad('result|%s' % fn_key(f), f.loc(nid), '%s returns %s instead of the target\'s answer' % (short(f.q), tstr(v)))

    def miss_ref(self, eng, st, f, nid, v):
        """the answer for a missing target is a proxy for the stored path extended by the key asked for"""
        while v.k == 'copy': v = v.a[0]
        self.cx.count('references to missing elements')
        px = T('*', T('fld', T('*', T('p', 0, f.params[0]['n'] or 'arg0')), 'proxy'))
        if v.k != 'ctor' or not v.a[1]: return
        a = v.a[1]
        root = a[0]
        while root.k in ('copy', '*', '&'): root = root.a[0]
        if root is not T('fld', px, 'ref'):
            self.cx.bad('miss-root|%s' % fn_key(f), f.loc(nid), '%s answers with a reference rooted at %s' % (short(f.q), tstr(a[0])))
        if len(a) == 1: c = ()
        elif len(a) == 2: c = self.contents(eng, st, a[1])
        else: c = self.range(eng, st, a[1], a[2])
        key = tstr(T('p', 1, f.params[1]['n'] or 'arg1'))
        if c[:1] == ('other',): return
        if not (len(c) == 2 and c[0] == 'stored' and key in (c[1], c[1].partition('(')[2].rstrip(')'))):
            self.cx.bad('miss-path|%s' % fn_key(f), f.loc(nid), '%s answers with a reference to [%s], not to the stored path followed by %s' % (short(f.q), ', '.join(c), key))

    def exit(self, eng, st):
        f = eng.root_func
        if any(isinstance(t, tuple) and t[0] == 'deleg' for t in st.facts): return
        if self.proxy and self.name in LOOKUPS:
            # a miss: non-creating unchecked lookup known to have failed
            for c, v in st.conds.items():
                if not v and c.k == 'call' and c.a[0].split('::')[-1] == 'GetPathConst': return
            if ('missed',) in st.facts: return
        self.cx.bad('no-dispatch|%s' % fn_key(f), f.loc(), '%s can return without performing %s on its target' % (short(f.q), self.name))

    def branch(self, eng, st, fr, cond, val, term, nid):
        for c, v in st.conds.items():
            if not v and c.k == 'call' and c.a[0].split('::')[-1] == 'GetPathConst': st.add(('missed',))


def check(cx):
    p = cx.prog
    sl = slots(cx)
    vt_classes(cx)
    byname = {}
    for i, m in sl.items(): byname.setdefault(m['n'], []).append(i)
    getters = {f.id for f in p.funcs.values() if f.cls == VT and f.name in ('GetPathConst', 'GetPathRef')}
    cx.need(getters, 'path lookup operations', 2)
    ref, proxy = 'libvariant::Internal::Ref', 'libvariant::Internal::Proxy'
    for cls in (ref, proxy):
        if cls not in p.classes: raise AnalysisBroken('reference table %s not found' % cls)
        for s, m in sorted(sl.items(), key=lambda x: x[1]['n']):
            e = effective(p, cls, s)
            if e not in p.funcs or p.funcs[e].cls != cls:
                cx.bad('missing|%s|%s' % (short(cls), m['n']), p.classes[cls]['file'],
                       '%s does not forward %s to its target' % (short(cls), m['n']))
                continue
            if m['n'] in NODELEG: continue
            if cls == proxy and m['n'] in ('MakeRef', 'MakeProxy'): continue
            r = Deleg(cx, sl, s, cls, cls == proxy, getters)
            eng = cx.engine(r)
            eng.run(p.funcs[e])
            cx.finish_engine(eng, 'forwarding operations')
            cx.sample('%s::%s' % (short(cls), m['n']))
    cx.need(cx.counts.get('dispatches seen', 0), 'dispatches', 60)

    # R7 a proxy made from a proxy keeps root and path (and appends the rest)
    class Mk(Seq):
        inline_depth = 4
        def call(self, eng, st, fr, nid, n, obj, args): self.seqcall(eng, st, fr, nid, n, obj, args)
        def inline(self, eng, st, fr, nid, n, g): return g.name != 'ProxyInit'
        def after(self, eng, st, fr, nid, n, obj, args, res):
            nm = n.get('fq', '').split('::')[-1]
            f = eng.root_func
            P = tuple(T('p', i, q['n'] or 'arg%d' % i) for i, q in enumerate(f.params))
            px = T('*', T('fld', T('*', P[0]), 'proxy'))
            if nm in ('ProxyInit',) and len(args) == 4:
                cx.count('proxy constructions')
                if args[0] is not P[1]: cx.bad('mk-dst|' + fn_key(f), fr.f.loc(nid), '%s builds the proxy in %s' % (short(f.q), tstr(args[0])))
                if args[1] is not T('fld', px, 'ref'): cx.bad('mk-root|' + fn_key(f), fr.f.loc(nid), '%s roots the new proxy at %s' % (short(f.q), tstr(args[1])))
                st.add('made')
                c = self.range(eng, st, args[2], args[3])
                want = ('stored',) if len(P) < 4 else ('stored', tstr(P[2]) + '..' + tstr(P[3]))
                loops = any(x and x['k'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt') for x in fr.f.nodes)
                if c != want and c[:1] != ('other',) and not loops:
                    cx.bad('mk-path|' + fn_key(f), fr.f.loc(nid), '%s gives the new proxy the path [%s] instead of [%s]' % (short(f.q), ', '.join(c), ', '.join(want)))
        def exit(self, eng, st):
            f = eng.root_func
            if 'made' not in st.facts:
                cx.bad('mk-none|' + fn_key(f), f.loc(), '%s can return without producing a proxy' % short(f.q))
    if p.fq('libvariant::Internal::ProxyInit'):
        for s in byname.get('MakeRef', []) + byname.get('MakeProxy', []):
            e = effective(p, proxy, s)
            if e in p.funcs:
                eng = cx.engine(Mk()); eng.run(p.funcs[e]); cx.finish_engine(eng, 'proxy construction')

    # R5 public methods and free functions dispatch; they never look into the payload
    n = 0
    for f in p.funcs.values():
        if f.cls and (f.cls == VT or VT in p.bases(f.cls)): continue
        base = f.cls == VARIANT or (f.cls or '').startswith('libvariant::VariantRefImpl')
        if not base: continue
        n += 1
        for i, nd in enumerate(f.nodes):
            if nd and nd['k'] == 'MemberExpr' and nd.get('m') in PAY and nd.get('mq', '').startswith(DATA):
                cx.bad('payload|%s' % fn_key(f), f.loc(i), '%s reads the payload member %s directly, bypassing references' % (short(f.q), nd['m']))
    cx.count('public value methods', n)
    cx.need(n, 'public value methods', 60)
    # each public value method dispatches on this value's table with this value as operand
    class Pub(Rule):
        inline_depth = 1
        def inline(self, eng, st, fr, nid, n, g): return g.cls in (VT,) and not g.virt and g.name in ('GetData', 'GetVar')
        def call(self, eng, st, fr, nid, n, obj, args):
            if n.get('virt') and n.get('fn') in sl and obj is not None:
                b = None
                if obj.k == '*' and obj.a[0].k == 'fld' and obj.a[0].a[1] == 'vtable': b = addr(obj.a[0].a[0])
                cx.count('public dispatch sites')
                if b is not None and args and args[0] is not b:
                    cx.bad('pubbase|%s' % fn_key(eng.root_func), fr.f.loc(nid), '%s dispatches on the table of %s but operates on %s' % (short(eng.root_func.q), tstr(b), tstr(args[0])))
    eng = cx.engine(Pub())
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.cls == VARIANT and f.cfg: eng.run(f)
    cx.finish_engine(eng, 'public methods')

    # R9 the path walkers step through one element per level and finish at the last one
    class Walk(Rule):
        inline_depth = 3
        def __init__(self, f):
            self.P = tuple(T('p', i, q['n'] or 'arg%d' % i) for i, q in enumerate(f.params))
        def inline(self, eng, st, fr, nid, n, g): return g.id not in getters and g.kind != 'ctor'
        def last(self, st):
            """True / False / None: is the element being looked up the last one"""
            that, b, e = self.P[:3]
            for c, v in st.conds.items():
                if c.k not in ('==', 'call') or not (mentions(c, lambda t: t is b) and mentions(c, lambda t: t is e) and mentions(c, lambda t: t.k == 'i' and t.a[0] == 1)): continue
                if c.k == '==' or c.a[0].split('::')[-1] == 'operator==': return v
                if c.a[0].split('::')[-1] == 'operator!=': return not v
            return None
        def lookup(self, v):
            that = self.P[0]
            return mentions(v, lambda t: t.k == 'call' and len(t.a[2]) >= 2 and t.a[2][0] is that and
                            t.a[0].split('::')[-1] in ('GetKey', 'GetIndex', 'GetConstKey', 'GetConstIndex', 'GetRefKey', 'GetRefIndex'))
        def ret(self, eng, st, fr, nid, val):
            if fr.parent is not None or val is None: return
            f = eng.root_func
            hit = any(v and self.lookup(c) and c.k == 'call' for c, v in st.conds.items())
            if not hit: return
            cx.count('walk steps')
            if not self.lookup(val):
                cx.bad('walk|' + fn_key(f), f.loc(nid), '%s found the next element of the path but answers with %s' % (short(f.q), tstr(val)))
            last = self.last(st)
            rec = mentions(val, lambda t: t.k == 'call' and t.a[0].split('::')[-1] == f.name)
            if last is False and not rec:
                cx.bad('walk-short|' + fn_key(f), f.loc(nid), '%s stops before the end of the path' % short(f.q))
            if last is True and rec:
                cx.bad('walk-long|' + fn_key(f), f.loc(nid), '%s goes on past the end of the path' % short(f.q))
    for g in sorted(getters):
        f = p.funcs[g]
        if len(f.params) == 4 and f.cfg:
            eng = cx.engine(Walk(f)); eng.run(f); cx.finish_engine(eng, 'path walkers')

    # R10 a public method uses every argument, and writes a new content only where the value resolves to
    inits = {f.id for f in p.funcs.values() if f.cls is None and f.q.startswith(NS) and f.params and 'Data *' in f.params[0]['t'] and not f.params[0]['t'].startswith('const')
             and 'vtable' in cx.eff.direct.get(f.id, ())}
    cx.need(inits, 'payload initialisers', 5)
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.cls != VARIANT or not f.cfg or f.kind in ('ctor', 'dtor'): continue
        used = {n.get('d') for n in f.nodes if n and n['k'] == 'DeclRefExpr'}
        for q in f.params:
            if q['n'] and q['d'] not in used:
                cx.bad('ignored|%s|%d' % (fn_key(f), f.params.index(q)), f.loc(), '%s ignores its argument %s' % (short(f.q), q['n']))
        cx.count('public methods with all arguments used')
    class Init(Rule):
        inline_depth = 2
        def inline(self, eng, st, fr, nid, n, g): return g.id not in inits and g.cls == VARIANT
        def call(self, eng, st, fr, nid, n, obj, args):
            if n.get('fn') in inits and args:
                cx.count('content replacements')
                a = args[0]
                while a.k in ('copy', '*', '&'): a = a.a[0]
                if a.k == 'this':
                    cx.bad('init-self|' + fn_key(eng.root_func), fr.f.loc(nid), '%s replaces the content of the handle itself; through a reference the target would stay unchanged' % short(eng.root_func.q))
    eng = cx.engine(Init())
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.cls == VARIANT and f.cfg and f.kind not in ('ctor', 'dtor') and not f.name.startswith('Make'): eng.run(f)
    cx.finish_engine(eng, 'content replacement')
