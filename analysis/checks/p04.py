from checks.common import *

EXPLAIN = ('The pairing of operation table and payload is tracked along every path of the value core: which table singleton a value '
           'was given, which union member and which owner were stored with it. Every read of a union member must be of the member '
           'belonging to the table the value is known to have on that path (own operand of a table operation, a value just given that '
           'table, or a resolved operand whose reported type was compared).')
TECH = 'typestate dataflow pairing table pointer, union member and owner, with type-test refinement'
NOTE = 'All paths of the value core and every access to a union member are covered; helpers are spliced into their callers. Trusts the clang front end.'
RULE = ('R1 a path that installs a table also stores its payload member and, for shared payloads, the owner the payload points into; '
        'R2 a table operation reads and writes only its own member of its operand; R3 another value\'s member is read only after resolving it and '
        'comparing its type; R4 every type constant is initialised to the table reporting that type; R5 no value is left without a table.')
# table class -> (payload member, payload lives in shared storage)
PAYLOAD = {'Null': (None, False), 'Bool': ('b', False), 'Integer': ('i', False), 'Unsigned': ('u', False), 'Float': ('f', False),
           'String': ('s', True), 'List': ('l', True), 'Map': ('m', True), 'Blob': ('blob', True), 'Ref': ('ref', False), 'Proxy': ('proxy', True)}
MEM = {v[0] for v in PAYLOAD.values() if v[0]}
RES = ('Resolve', 'ResolveConst', 'ResolveDefault')


class Pair(Rule):
    inline_depth = 5
    def __init__(self, cx, sl, tabs, types, tenum):
        self.sl = sl; self.tabs = tabs; self.types = types; self.tenum = tenum
    def inline(self, eng, st, fr, nid, n, g):
        return g.q.startswith('libvariant::') and (g.q.startswith('libvariant::Internal::') or g.cls in (VARIANT,) or g.file.endswith('.h'))

    def table_of(self, eng, val):
        for t in subterms(val):
            if t.k == 'glob':
                v = eng.prog.vars.get(t.a[0])
                if v:
                    c = v['t'].replace('const ', '')
                    if c in self.tabs: return c
            elif t.k == 'call' and t.a[0] in self.acc: return self.acc[t.a[0]]
        return None

    def init(self, eng, st):
        f = eng.root_func
        self.own = T('*', T('p', 0, f.params[0]['n'] or 'arg0')) if f.params else None
        self.cls = f.cls if f.cls in eng.prog.classes and VT in eng.prog.bases(f.cls) else None

    def kinds(self, eng, st, x):
        for t in st.facts:
            if t[0] == 'kind' and t[1] is x: return t[2]
        if self.cls and x is self.own and ('gone', x) not in st.facts: return self.cls
        return None

    def tested(self, eng, st, x):
        """table classes compatible with the type tests on this path"""
        y = addr(x)
        res = False
        while y.k == 'call' and y.a[0].split('::')[-1] in RES and y.a[2]:
            res = True
            y = y.a[2][0]
        if not res: return None
        return next((set(t[2]) for t in st.facts if t[0] == 'ty' and t[1] is y), None)

    def branch(self, eng, st, fr, cond, val, term, nid):
        gt = {c for t in st.conds for c in subterms(t) if orig(c).k == 'call' and orig(c).a[0].split('::')[-1] == 'GetType' and orig(c).a[2]}
        for y in {orig(c).a[2][0] for c in gt}:
            ts = self.possible(st, gt, y)
            old = [t for t in st.facts if t[0] == 'ty' and t[1] is y]
            for t in old: ts &= set(t[2])
            st.drop(lambda t: t[0] == 'ty' and t[1] is y)
            if len(ts) < len(self.tenum): st.add(('ty', y, frozenset(ts)))

    def eq(self, cs, t, j, val):
        c = mkcmp('==', t, I(j))
        if c.k == '!': cs[c.a[0]] = not val
        else: cs[c] = val

    def possible(self, st, gt, y):
        mine = [c for c in gt if orig(c).a[2][0] is y]
        own = [c for c in gt if self.own is not None and orig(c).a[2][0] is addr(self.own)]
        out = set()
        k0 = self.types.get(self.cls)
        for k, name in self.tenum.items():
            cs = {}
            for m in mine:
                for j in self.tenum: self.eq(cs, m, j, j == k)
            for o in own:
                if k0 is None: continue
                for j in self.tenum: self.eq(cs, o, j, j == k0)
                for m in mine: cs[mkcmp('==', m, o)] = (k == k0); cs[mkcmp('==', o, m)] = (k == k0)
            ok = True
            for c, v in st.conds.items():
                r = simp(c, cs)
                if r is not None and bool(r) != v: ok = False; break
            if ok: out.add(k)
        return out

    def access(self, eng, st, fr, nid, n):
        m = n['m']
        base = deref(eng.ev(st, fr, n['c'][0])) if n.get('arrow') else eng.lv(st, fr, n['c'][0])
        if n['c']:
            b = fr.f.nodes[n['c'][0]]
            if b['k'] == 'MemberExpr' and not b.get('m'):
                base = eng.lv(st, fr, n['c'][0])
        self.cx.count('union member accesses')
        k = self.kinds(eng, st, base)
        f = eng.root_func
        if k is not None:
            if PAYLOAD[short(k)][0] != m:
                self.cx.bad('wrong-member|%s|%s' % (fn_key(f), m), fr.f.loc(nid), '%s uses the member %s of a %s value' % (short(f.q), m, short(k)))
            return
        # a value just given up but not yet given a table: only stores, judged at the table store
        if self.is_store(fr.f, nid): return
        ts = self.tested(eng, st, base)
        want = [kk for kk, c in ((self.types.get(c), c) for c in self.tabs) if PAYLOAD[short(c)][0] == m]
        if ts is not None and ts <= set(want): return
        if base.k in ('obj',): return
        self.cx.bad('unproven|%s|%s' % (fn_key(f), m), fr.f.loc(nid), '%s reads member %s of %s without knowing that it holds that type%s' % (
            short(f.q), m, tstr(base), '' if ts is None else ' (possible: %s)' % ', '.join(self.tenum[x] for x in sorted(ts - set(want)))))

    def is_store(self, f, nid):
        par = f.par[nid]
        cur = nid
        while par is not None and par >= 0:
            n = f.nodes[par]
            if n['k'] in ('ParenExpr',): cur = par; par = f.par[par]; continue
            return n['k'] == 'BinaryOperator' and n['op'] == '=' and n['c'][0] == cur
        return False

    def elem(self, eng, st, fr, nid, n):
        if n['k'] == 'MemberExpr' and n.get('m') in MEM and n.get('mq', '').startswith(DATA + '::') and n.get('c'):
            self.access(eng, st, fr, nid, n)

    def assign(self, eng, st, fr, nid, loc, val):
        if loc.k != 'fld': return
        x, m = loc.a
        if m == 'vtable':
            st.drop(lambda t: t[0] in ('kind', 'none') and t[1] is x)
            if val is ZERO:
                st.add(('none', x, fr.f.loc(nid))); st.add(('gone', x)); return
            st.add(('gone', x))
            c = self.table_of(eng, val)
            if c is None:
                if val.k == 'fld' and val.a[1] == 'vtable': return
                self.cx.bad('unknown-table|%s' % fn_key(eng.root_func), fr.f.loc(nid), '%s installs a table that cannot be identified: %s' % (short(eng.root_func.q), tstr(val)))
                return
            self.cx.count('table installations')
            st.add(('kind', x, c))
            st.add(('inst', x, c, fr.f.loc(nid)))
        elif m in MEM:
            st.drop(lambda t: t[0] == 'pay' and t[1] is x)
            st.add(('pay', x, m, val))
        elif m == 'storage':
            st.drop(lambda t: t[0] == 'stor' and t[1] is x)
            st.add(('stor', x, val))

    def call(self, eng, st, fr, nid, n, obj, args):
        if n.get('virt') and n.get('fn') in self.sl:
            sn = self.sl[n['fn']]['n']
            if sn == 'Destroy' and args:
                x = deref(args[0])
                st.drop(lambda t: t[0] in ('kind', 'pay', 'stor', 'inst') and t[1] is x)
                st.add(('none', x, fr.f.loc(nid))); st.add(('gone', x))
            elif sn not in ('GetType', 'Resolve', 'ResolveConst', 'Exists', 'Destruct'):
                # an operation may change the table of a value it is handed for writing
                pts = n.get('pt', [])
                for a, t in zip(args, pts):
                    if t.endswith('*') and not t.startswith('const '):
                        x = deref(a)
                        # it re-establishes the pairing itself (same rule, analysed there)
                        st.drop(lambda q: q[0] in ('kind', 'pay', 'stor', 'inst', 'none') and q[1] is x)
                        st.add(('gone', x))

    def linked(self, pv, sv):
        pv, sv = orig(pv), orig(sv)
        if pv.k == 'fld' and sv.k == 'fld' and sv.a[1] == 'storage' and pv.a[0] is sv.a[0]: return True
        while sv.k == 'copy': sv = orig(sv.a[0])
        if pv.k == 'fld' and sv.k == 'fld' and sv.a[1] == 'storage' and pv.a[0] is sv.a[0]: return True
        ids = {t for t in subterms(sv) if t.k in ('new', 'obj') or t.k in ('ctor', 'call') and t.a[-1] is not None}
        return any(t in ids for t in subterms(pv))

    def exit(self, eng, st):
        f = eng.root_func
        for t in sorted(st.facts, key=str):
            if t[0] == 'inst':
                x, c = t[1], t[2]
                if ('kind', x, c) not in st.facts: continue
                m, shared = PAYLOAD[short(c)]
                if m is None: continue
                pay = [u for u in st.facts if u[0] == 'pay' and u[1] is x]
                if not pay or pay[0][2] != m:
                    self.cx.bad('no-payload|%s' % fn_key(f), t[3], '%s makes a value a %s but %s' % (short(f.q), short(c), 'stores no payload' if not pay else 'stores the member ' + pay[0][2]))
                    continue
                if pay[0][3] is ZERO and shared:
                    self.cx.bad('null-payload|%s' % fn_key(f), t[3], '%s makes a value a %s with a null payload' % (short(f.q), short(c)))
                if shared:
                    so = [u for u in st.facts if u[0] == 'stor' and u[1] is x]
                    if not so:
                        self.cx.bad('no-owner|%s' % fn_key(f), t[3], '%s makes a value a %s but does not keep the owner of its payload alive' % (short(f.q), short(c)))
                    elif not self.linked(pay[0][3], so[0][2]):
                        self.cx.bad('owner-mismatch|%s' % fn_key(f), t[3], '%s: payload %s does not belong to owner %s' % (short(f.q), tstr(pay[0][3]), tstr(so[0][2])))
            elif t[0] == 'none':
                slot = base_slot(eng.prog, f.id, self.sl)
                if slot and self.sl[slot]['n'] in ('Destroy', 'Destruct'): continue
                if f.kind == 'dtor': continue
                self.cx.bad('no-table|%s' % fn_key(f), t[2], '%s can return leaving a value without a table' % short(f.q))


def check(cx):
    p = cx.prog
    sl = slots(cx)
    subs = vt_classes(cx)
    te = None
    for q, e in p.enums.items():
        if q.endswith('::Type_t') and any(x['n'] == 'NullType' for x in e['e']): te = e
    if te is None: raise AnalysisBroken('value type enumeration not found')
    tenum = {int(x['v']): x['n'] for x in te['e']}
    tabs = [c for c in subs if short(c) in PAYLOAD]
    for c in subs:
        if short(c) not in PAYLOAD and not any(x for x in p.subclasses(c)):
            raise AnalysisBroken('unknown table class %s' % c)
    cx.need(tabs, 'table classes', 11)
    dm = {f['n'] for f in p.classes[DATA]['fields']}
    # R4a reported types
    types = {}
    gt = [i for i, m in sl.items() if m['n'] == 'GetType'][0]
    for c in tabs:
        if short(c) in ('Ref', 'Proxy'): continue
        e = effective(p, c, gt)
        if e not in p.funcs or p.funcs[e].cls != c:
            cx.bad('no-type|%s' % short(c), p.classes[c]['file'], '%s does not report its type' % short(c)); continue
        class G(Rule):
            inline_depth = 3
            def ret(self, eng, st, fr, nid, val):
                if fr.parent is None:
                    want = [k for k, n in tenum.items() if n == short(c) + 'Type']
                    if val.k != 'i' or val.a[0] not in want:
                        cx.bad('type|%s' % short(c), fr.f.loc(nid), '%s reports %s' % (short(c), tenum.get(val.a[0], '?') if val.k == 'i' else tstr(val)))
                    else: types[c] = val.a[0]
        cx.engine(G()).run(p.funcs[e])
        cx.count('reported types')
    acc = {}
    for f in p.funcs.values():
        if f.ret.endswith('VTable *') and not f.params and not f.cls:
            cs = {n['dt'].replace('const ', '') for n in f.nodes if n and n['k'] == 'DeclRefExpr' and n.get('dt', '').replace('const ', '') in tabs}
            if len(cs) == 1: acc[f.q] = cs.pop()
    Pair.acc = acc
    rule = Pair(cx, sl, set(tabs), types, tenum)
    pred = lambda f: any(n and n['k'] == 'MemberExpr' and n.get('mq', '').startswith(DATA + '::') and (n.get('m') in MEM or n.get('m') in ('vtable', 'storage')) for n in f.nodes) \
        or (f.cls in (VARIANT,)) or (f.q.startswith('libvariant::Internal::') and f.file.endswith('Variant.cc'))
    run_all(cx, rule, pred, 'value core')
    cx.need(cx.counts.get('union member accesses', 0), 'union member accesses', 100)
    cx.need(cx.counts.get('table installations', 0), 'table installations', 11)
    # R4b type constant -> table
    class Df(Pair):
        def exit(self, eng, st):
            f = eng.root_func
            ks = [k for k in tenum if simp(mkcmp('==', T('p', 1, f.params[1]['n'] or 'arg1'), I(k)), st.conds) == 1]
            kinds = [t for t in st.facts if t[0] == 'kind']
            for k in ks:
                cx.count('type constants initialised')
                if not kinds:
                    cx.bad('default|%s' % tenum[k], f.loc(), 'initialising with %s leaves the value unchanged' % tenum[k])
                for t in kinds:
                    if types.get(t[2]) != k:
                        cx.bad('default|%s' % tenum[k], f.loc(), 'initialising with %s makes the value a %s' % (tenum[k], short(t[2])))
            self.seen |= set(ks)
    di = [f for f in p.funcs.values() if f.q.startswith('libvariant::Internal::') and len(f.params) == 2 and f.params[1]['t'].endswith('VariantDefines::Type_t') and f.params[0]['t'].endswith('Data *') and f.ret == 'void']
    cx.need(di, 'initialisation by type constant')
    for f in di:
        r = Df(cx, sl, set(tabs), types, tenum); r.seen = set()
        e = cx.engine(r); e.run(f)
        for k in sorted(set(tenum) - r.seen):
            cx.bad('default|%s' % tenum[k], f.loc(), 'initialising with %s is not handled' % tenum[k])
