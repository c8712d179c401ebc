from checks.common import *

EXPLAIN = ('Flow-sensitive analysis of the value representation: a reference or proxy remembers its target as a raw '
           'pointer next to a shared validity record. Every dereference of such a pointer is an obligation that the '
           'validity flag was tested true on that path; every operation of the reference and proxy tables must test it '
           'before returning; the flag is cleared by exactly the owner-destruction operations.')
TECH = 'path-sensitive typestate analysis of the validity record over the control-flow graphs'
NOTE = 'Sound up to the value abstraction for the operations analysed: every path of every table operation and helper is covered. Trusts the clang front end and the standard library.'
RULE = ('R1 target pointer dereferenced only where validity is known true; R2 every reference/proxy operation tests validity '
        'and the failing branch throws InvalidReferenceError; R3 each owning type\'s Destruct clears validity of an existing '
        'record before dropping it, reference types never do; R4 the flag is cleared only inside Destruct, and Destruct runs only from '
        'the value destructor, which always runs it; R5 a validity record is replaced only while absent, at destruction, or when turning into a reference; R7 a value turned into a reference takes over the validity record of the target it stores.')
ASSUME = ['single-threaded use; a target is not destroyed between the test and the use inside one operation',
          'the representation keeps its field names ref, proxy, ref_data, valid, vtable']


def target_owner(v):
    """v is the value of a stored target pointer: the holder it belongs to"""
    if v.k == 'fld' and v.a[1] == 'ref':
        b = v.a[0]
        if b.k == '*' and b.a[0].k == 'fld' and b.a[0].a[1] == 'proxy':
            return b.a[0].a[0]
        return b
    return None


def valid_of(x):
    return T('fld', T('*', T('fld', x, 'ref_data')), 'valid')


class Use(Rule):
    inline_depth = 5

    def __init__(self, ops):
        self.ops = ops            # function ids of Ref/Proxy operations that must check

    def inline(self, eng, st, fr, nid, n, g):
        return not g.virt or not n.get('virt')

    def branch(self, eng, st, fr, cond, val, term, nid):
        for c, v in st.conds.items():
            if c.k == 'fld' and c.a[1] == 'valid' and c.a[0].k == '*' and c.a[0].a[0].k == 'fld' and c.a[0].a[0].a[1] == 'ref_data':
                x = c.a[0].a[0].a[0]
                if v: st.add(('ok', x))
                else: st.add(('dead', x))

    def use(self, eng, st, fr, nid, v):
        x = target_owner(v)
        if x is None: return
        self.cx.count('target dereferences')
        if ('ok', x) not in st.facts:
            f = fr.f
            self.cx.bad('deref-unchecked|%s' % fn_key(eng.root_func), f.loc(nid),
                        '%s: target pointer %s is used without a validity test of %s on this path' % (short(eng.root_func.q), tstr(v), tstr(x)))

    def elem(self, eng, st, fr, nid, n):
        if n['k'] == 'MemberExpr' and n.get('arrow') and n.get('c'):
            self.use(eng, st, fr, nid, eng.ev(st, fr, n['c'][0]))
        elif n['k'] == 'UnaryOperator' and n['op'] == '*':
            self.use(eng, st, fr, nid, eng.ev(st, fr, n['c'][0]))

    def assign(self, eng, st, fr, nid, loc, val):
        if loc.k == 'fld' and loc.a[1] in ('ref', 'proxy', 'ref_data'):
            st.drop(lambda t: t[1] is loc.a[0])

    def exit(self, eng, st):
        f = eng.root_func
        if f.id in self.ops:
            that = T('*', T('p', 0, f.params[0]['n'] or 'arg0'))
            if ('dead', that) in st.facts:
                self.cx.bad('dead-returns|%s' % fn_key(f), f.loc(), '%s can return normally although the target is known to be gone' % short(f.q))
            elif not any(t[0] in ('ok', 'was') and t[1] is that for t in st.facts):
                self.cx.bad('no-check|%s' % fn_key(f), f.loc(), '%s can return normally without ever testing that the target is alive' % short(f.q))

    def exc_exit(self, eng, st, site, ty):
        f = eng.root_func
        if f.id in self.ops:
            that = T('*', T('p', 0, f.params[0]['n'] or 'arg0'))
            if ('dead', that) in st.facts and ty and not ty.endswith('InvalidReferenceError'):
                self.cx.bad('wrong-error|%s' % fn_key(f), f.loc(), '%s reports %s for a dangling reference' % (short(f.q), ty))


class Sticky(Use):
    # once tested, an operation may rebind the holder to the resolved target
    def assign(self, eng, st, fr, nid, loc, val):
        if loc.k == 'fld' and loc.a[1] in ('ref', 'proxy', 'ref_data'):
            for t in [t for t in st.facts if t[1] is loc.a[0] and t[0] == 'ok']: st.add(('was', t[1]))
            st.drop(lambda t: t[1] is loc.a[0] and t[0] != 'was')


class Marks(Rule):
    """owner destruction clears the flag; reference destruction does not"""
    inline_depth = 5
    def __init__(self, cls, owner):
        self.cls = cls; self.owner = owner
    def devirt(self, eng, st, fr, nid, n, obj):
        # operations on the object being destroyed dispatch to its own class
        return effective(eng.prog, self.cls, n.get('fn'))
    def assign(self, eng, st, fr, nid, loc, val):
        f = eng.root_func
        that = T('*', T('p', 0, f.params[0]['n'] or 'arg0'))
        if loc is valid_of(that):
            if val is ZERO: st.add('marked')
            else: st.drop(lambda x: x == 'marked')
            if not self.owner:
                self.cx.bad('marks|%s' % self.cls, fr.f.loc(nid), 'destroying a %s clears the validity of its target, which is still alive' % short(self.cls))
        if loc is T('fld', that, 'ref_data') and self.owner:
            if 'marked' not in st.facts and simp(T('fld', that, 'ref_data'), st.conds) != 0:
                self.cx.bad('drop-unmarked|%s' % self.cls, fr.f.loc(nid), 'the validity record of a destroyed %s is dropped without being cleared' % short(self.cls))
    def branch(self, eng, st, fr, cond, val, term, nid):
        f = eng.root_func
        that = T('*', T('p', 0, f.params[0]['n'] or 'arg0'))
        if st.conds.get(T('fld', that, 'ref_data')) is False: st.add('none')
    def exit(self, eng, st):
        if self.owner and 'marked' not in st.facts and 'none' not in st.facts:
            f = eng.root_func
            self.cx.bad('unmarked|%s' % self.cls, f.loc(), 'destroying a %s can finish without clearing the validity of existing references' % short(self.cls))


class Records(Rule):
    """who may replace a validity record"""
    inline_depth = 5
    def __init__(self, singles):
        self.singles = singles
    def elem(self, eng, st, fr, nid, n):
        pass
    def branch(self, eng, st, fr, cond, val, term, nid):
        for c, v in st.conds.items():
            if c.k == 'fld' and c.a[1] == 'ref_data' and not v: st.add(('absent', c.a[0]))
    def assign(self, eng, st, fr, nid, loc, val):
        if loc.k != 'fld': return
        x = loc.a[0]
        if loc.a[1] == 'valid' and val is ZERO and x.k == '*' and x.a[0].k == 'fld': st.add(('marked', x.a[0].a[0]))
        if loc.a[1] == 'vtable':
            if mentions(val, lambda t: t.k == 'glob' and t.a[0] in self.singles): st.add(('isref', x))
            else: st.drop(lambda t: t[0] == 'isref' and t[1] is x)
        if loc.a[1] == 'ref_data':
            self.cx.count('validity record writes')
            if eng.prog.classes.get(DATA) and x.k == 'obj': return
            st.add(('wrote', x, (fr.f.id, nid)))
            if ('absent', x) in st.facts or ('marked', x) in st.facts: 
                st.add(('fine', x, (fr.f.id, nid)))
            if not (val is ZERO): st.drop(lambda t: t[0] == 'absent' and t[1] is x)
    def exit(self, eng, st):
        f = eng.root_func
        if f.kind == 'ctor' and f.cls == DATA: return
        for t in st.facts:
            if t[0] == 'wrote' and ('fine', t[1], t[2]) not in st.facts and ('isref', t[1]) not in st.facts:
                if f.id in self.refdestruct: continue
                g = eng.prog.funcs[t[2][0]]
                self.cx.bad('record-replaced|%s' % fn_key(f), g.loc(t[2][1]),
                            '%s replaces or drops the validity record of a value that stays alive, detaching existing references' % short(f.q))
        for t in st.facts:
            if t[0] == 'marked' and f.id not in self.alldestruct:
                pass


class Bind(Rule):
    """a value turned into a reference takes over the validity record of the very target it stores"""
    inline_depth = 4
    def __init__(self, singles, ensure):
        self.singles = singles; self.ensure = ensure
    def inline(self, eng, st, fr, nid, n, g): return g.id not in self.ensure
    def assign(self, eng, st, fr, nid, loc, val):
        if loc.k != 'fld' or val is None: return
        x = loc.a[0]
        if loc.a[1] == 'vtable':
            st.drop(lambda t: t[0] == 'isref' and t[1] is x)
            if mentions(val, lambda t: t.k == 'glob' and t.a[0] in self.singles): st.add(('isref', x))
        elif loc.a[1] == 'ref':
            st.drop(lambda t: t[0] == 'target' and t[1] is x)
            st.add(('target', x, val))
        elif loc.a[1] == 'ref_data':
            st.drop(lambda t: t[0] == 'record' and t[1] is x)
            st.add(('record', x, val))
    def exit(self, eng, st):
        f = eng.root_func
        for t in st.facts:
            if t[0] != 'isref': continue
            self.cx.count('bindings of a reference')
            rec = [u[2] for u in st.facts if u[0] == 'record' and u[1] is t[1]]
            tg = [u[2] for u in st.facts if u[0] == 'target']
            if not tg or rec and rec[0].k == 'swapped': continue
            good = rec and any(mentions(rec[0], lambda v: v is x) for x in tg) and \
                mentions(rec[0], lambda v: v.k == 'fld' and v.a[1] == 'ref_data' or v.k == 'call' and v.a[0].split('::')[-1] in self.names)
            if not good:
                self.cx.bad('bind|%s' % fn_key(f), f.loc(), '%s makes %s refer to %s but gives it the validity record %s' % (
                    short(f.q), tstr(t[1]), tstr(tg[0]), tstr(rec[0]) if rec else 'it had before'))


def check(cx):
    p = cx.prog
    sl = slots(cx)
    subs = vt_classes(cx)
    byname = {m['n']: i for i, m in sl.items()}
    for nm in ('Destruct', 'Destroy', 'Exists', 'MakeRef'):
        if nm not in byname: raise AnalysisBroken('operation %s not found' % nm)
    dfields = {f['n'] for f in p.classes[DATA]['fields']} if DATA in p.classes else set()
    if not {'vtable', 'ref_data'} <= dfields: raise AnalysisBroken('representation fields not found')
    # classes whose payload is the target of another value
    reft = [c for c in subs if c.split('::')[-1] in ('Ref', 'Proxy')]
    cx.need(reft, 'reference tables', 2)
    nocheck = {byname['Destruct'], byname['Destroy'], byname['Exists']}
    ops = set()
    for c in reft:
        for s in sl:
            if s in nocheck: continue
            m = effective(p, c, s)
            if m in p.funcs and p.funcs[m].cls == c: ops.add(m)
            else:
                cx.bad('not-overridden|%s|%s' % (c, sl[s]['n']), p.classes[c]['file'],
                       '%s does not implement %s: the operation would run on the reference itself without a validity test' % (short(c), sl[s]['n']))
    cx.count('reference operations', len(ops))
    touching = lambda f: any(n and n['k'] == 'MemberExpr' and n.get('m') in ('ref', 'proxy', 'ref_data') and
                             n.get('mq', '').startswith(NS) for n in f.nodes)
    run_all(cx, Sticky(ops), lambda f: f.id in ops or touching(f), 'R1/R2')
    cx.need(cx.counts.get('target dereferences', 0), 'dereferences of target pointers', 20)
    # R6: a dangling reference does not claim to exist
    class Ex(Sticky):
        inline_depth = 4
        def use(self, *a): pass
        def exit(self, *a): pass
        def exc_exit(self, *a): pass
        def ret(self, eng, st, fr, nid, val):
            if fr.parent is not None or val is None: return
            f = eng.root_func
            v = valid_of(T('*', T('p', 0, f.params[0]['n'] or 'arg0')))
            cs = dict(st.conds)
            cx.count('existence answers')
            if refine(truth(val), True, cs) and cs.get(v) is not True and ('ok', v.a[0].a[0].a[0]) not in st.facts:
                cx.bad('exists-dead|%s' % fn_key(f), f.loc(nid), '%s can answer true for a target that is gone' % short(f.q))
    for c in reft:
        m = effective(p, c, byname['Exists'])
        if m in p.funcs and p.funcs[m].cls == c:
            e = cx.engine(Ex(set())); e.run(p.funcs[m]); cx.finish_engine(e, 'R6')
        else:
            cx.bad('not-overridden|%s|Exists' % c, p.classes[c]['file'], '%s does not implement Exists' % short(c))
    # R3
    for c in subs + [VT]:
        m = effective(p, c, byname['Destruct'])
        if m not in p.funcs: continue
        r = Marks(c, c not in reft)
        e = cx.engine(r)
        e.run(p.funcs[m])
        cx.finish_engine(e, 'R3')
        cx.count('Destruct operations', 1)
    # R4: stores of the flag and calls of Destruct
    destr = {byname['Destruct']} | p.overriders.get(byname['Destruct'], set())
    vdtor = p.dtor_of(VARIANT)
    if vdtor not in p.funcs: raise AnalysisBroken('value destructor not found')
    nst = 0
    for f in p.funcs.values():
        for i, n in enumerate(f.nodes):
            if n and n['k'] == 'BinaryOperator' and n['op'] == '=':
                l = f.nodes[f.strip(n['c'][0])]
                if l['k'] == 'MemberExpr' and l.get('mq') == 'libvariant::Internal::RefData::valid':
                    nst += 1
                    ch = only_reached_from(cx, f.id, lambda g: g.id in destr)
                    if ch:
                        cx.bad('flag-write|%s' % fn_key(f), f.loc(i), 'validity is written outside destruction, reachable through ' + ' -> '.join(short(g.q) for g in ch))
            if n and 'args' in n and n.get('fn') in destr and f.id not in destr:
                cx.count('Destruct call sites')
                ch = only_reached_from(cx, f.id, lambda g: g.id == vdtor or g.id in destr)
                if ch:
                    cx.bad('destruct-call|%s' % fn_key(f), f.loc(i), 'a live value is destroyed outside its destructor, through ' + ' -> '.join(short(g.q) for g in ch))
    cx.need(nst, 'stores of the validity flag')

    class D(Rule):
        inline_depth = 3
        def call(self, eng, st, fr, nid, n, obj, args):
            if n.get('fn') in destr and args and args[0].k in ('this',): st.add('d')
            elif n.get('fn') in destr and args and mentions(args[0], lambda t: t is THIS): st.add('d')
        def exit(self, eng, st):
            if 'd' not in st.facts and st.conds.get(T('fld', T('*', THIS), 'vtable')) is not False:
                cx.bad('dtor-skips', p.funcs[vdtor].loc(), 'the value destructor can finish without running Destruct')
    e = cx.engine(D()); e.run(p.funcs[vdtor]); cx.finish_engine(e, 'R4')
    # R5
    singles = set()
    for v in p.vars.values():
        if v['t'].replace('const ', '') in reft: singles.add(v['id'])
    cx.need(singles, 'reference table singletons', 2)
    r = Records(singles)
    r.refdestruct = {effective(p, c, byname['Destruct']) for c in reft}
    r.alldestruct = destr
    wr = lambda f: 'ref_data' in cx.eff.direct.get(f.id, ()) or 'ref_data' in cx.eff.writes.get(f.id, ()) and not public_header(cx, f)
    run_all(cx, r, lambda f: 'ref_data' in cx.eff.direct.get(f.id, ()) , 'R5')
    cx.need(cx.counts.get('validity record writes', 0), 'writes of validity records', 3)
    # R7
    ens = {f.id for f in p.funcs.values() if f.cls == VT and 'RefData' in (f.ret or '')}
    r = Bind(singles, ens)
    r.names = {p.funcs[i].name for i in ens}
    uses = lambda f: any(n and n['k'] == 'DeclRefExpr' and n.get('d') in singles for n in f.nodes)
    run_all(cx, r, lambda f: uses(f) or 'vtable' in cx.eff.direct.get(f.id, ()), 'R7')
