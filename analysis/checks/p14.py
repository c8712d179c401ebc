from checks.common import *
from throws import Throws, ANY
from interp import Rule, T, ZERO, THIS, deref, orig, root, simp, mentions

EXPLAIN = ('Ownership typestate over the control-flow graphs, exceptional edges included. Each acquiring call creates an obligation on the value or structure it fills; the obligation ends when the '
           'matching release runs, when a documented consumer takes it over, when it is handed to an owning object or returned, or when a branch shows that the acquisition failed. '
           'Resources kept in members are followed from every constructor and method exit into the destructor of the class.')
TECH = 'path-sensitive ownership typestate with exceptional edges, chained through constructors, methods and destructors'
NOTE = 'Exceptional edges are those of the may-throw effect analysis; pure memory exhaustion inside the standard library is not treated as an edge.'
RULE = ('R1 no obligation of a function is open at a normal or exceptional exit; R2 nothing is released twice or used after its release; R3 a member resource is released by the destructor from every state a constructor or '
        'method leaves behind, exactly once; R4 a constructor that throws has released what its members hold; R5 a member holding a resource is not overwritten; R6 objects that release in their destructor are never copied; '
        'R7 the blob factories pass on the release function their names promise and the blob destructor runs it for every buffer.')
ASSUME = ['release conventions of libc, libyaml, libxml2 and libcurl as documented']

# acquire: function -> (kind, how, success test): how 'ret' = the result, an int = that pointer argument names the structure, ('out', i) = pointer stored through argument i
ACQ = {'fopen': ('file', 'ret', 'nz'), 'fdopen': ('file', 'ret', 'nz'), 'tmpfile': ('file', 'ret', 'nz'),
       'malloc': ('heap', 'ret', 'nz'), 'calloc': ('heap', 'ret', 'nz'), 'realloc': ('heap', 'ret', 'nz'), 'strdup': ('heap', 'ret', 'nz'), 'strndup': ('heap', 'ret', 'nz'), 'aligned_alloc': ('heap', 'ret', 'nz'),
       'backtrace_symbols': ('heap', 'ret', 'nz'), 'posix_memalign': ('heap', ('out', 0), 'zero'),
       'regcomp': ('regex', 0, 'zero'),
       'yaml_emitter_initialize': ('yaml emitter', 0, 'nz'), 'yaml_parser_initialize': ('yaml parser', 0, 'nz'), 'yaml_parser_parse': ('yaml event', 1, 'nz'),
       'xmlReaderForIO': ('xml reader', 'ret', 'nz'), 'xmlReaderForMemory': ('xml reader', 'ret', 'nz'), 'xmlReaderForFile': ('xml reader', 'ret', 'nz'),
       'xmlOutputBufferCreateIO': ('xml output', 'ret', 'nz'), 'xmlNewTextWriter': ('xml writer', 'ret', 'nz'),
       'curl_easy_init': ('transfer handle', 'ret', 'nz'), 'new_JSON_parser': ('json parser', 'ret', 'nz'), 'opendir': ('directory', 'ret', 'nz')}
# release: function -> (kind, argument, releasing twice is harmless)
REL = {'fclose': ('file', 0, False), 'free': ('heap', 0, False), 'regfree': ('regex', 0, False), 'yaml_emitter_delete': ('yaml emitter', 0, True), 'yaml_parser_delete': ('yaml parser', 0, True),
       'yaml_event_delete': ('yaml event', 0, True), 'xmlFreeTextReader': ('xml reader', 0, False), 'xmlOutputBufferClose': ('xml output', 0, False), 'xmlFreeTextWriter': ('xml writer', 0, False),
       'curl_easy_cleanup': ('transfer handle', 0, False), 'delete_JSON_parser': ('json parser', 0, False), 'closedir': ('directory', 0, False)}
# consumers: function -> (kind, argument, result test under which the resource is taken over; None = always)
TAKE = {'yaml_emitter_emit': ('yaml event', 1, None), 'xmlNewTextWriter': ('xml output', 0, 'nz'), 'realloc': ('heap', 0, None)}
BLOB = NS + 'Blob'
QUIETUSE = {'memset', 'memcpy', 'bzero'}


def acq(n):
    q = n.get('fq', '')
    a = ACQ.get(q)
    if a: return a
    if q.startswith('yaml_') and q.endswith('_event_initialize'): return ('yaml event', 0, 'nz')
    return None


def touches(f):
    return any(acq(n) or n.get('fq') in REL or n.get('fq') in TAKE for i, n in f.calls()) or any(n and n['k'] in ('CXXDeleteExpr', 'CXXNewExpr') for n in f.nodes)


KEEP = set()


class Own(Rule):
    exc = True
    inline_depth = 4
    max_states = 20
    max_steps = 9000
    base_init = True

    def __init__(self, cx, th, near):
        self.cx = cx; self.th = th; self.near = near; self.found = {}
        self.keep = KEEP; self.keep_obj = deref(THIS)
        self.exits = []; self.seed = None; self.ctor_exc = []

    def note(self, key, where, msg): self.found.setdefault(key, (where, msg))

    def inline(self, eng, st, fr, nid, n, g):
        if n.get('fq') in REL or acq(n) or n.get('fq') in TAKE: return False
        if g.id in self.near: return True
        if g.virt: return False
        return len(g.nodes) < 220 and any(m and m['k'] == 'CXXThrowExpr' for m in g.nodes)

    def devirt(self, eng, st, fr, nid, n, obj):
        # inside a constructor or destructor, calls on the object itself are not dispatched further down
        f = eng.root_func
        if f.kind in ('ctor', 'dtor') and obj is deref(THIS): return effective(self.cx.prog, f.cls, n['fn'])
        return None

    def may_throw(self, eng, st, fr, nid, n):
        if n['k'] == 'CXXNewExpr' or 'args' not in n: return False
        g = self.cx.prog.funcs.get(n.get('fn')) if not n.get('virt') else None
        if g is None and n.get('virt'):
            fid = self.devirt(eng, st, fr, nid, n, eng.callee_terms(st, fr, nid, n)[0])
            g = self.cx.prog.funcs.get(fid) if fid else None
        if g is not None and g.cfg and eng.can_inline(fr, g) and self.inline(eng, st, fr, nid, n, g): return False
        return bool(set(self.th.callee(fr.f, nid, n)) - {'std::exception', 'std::bad_alloc'})

    def init(self, eng, st):
        if self.seed is not None: self.seed(eng, st)

    # ---- obligations
    def site(self, fr, nid): return fr.f.loc(nid)

    def ident(self, eng, st, args, how, res):
        if how == 'ret': return res
        if isinstance(how, tuple):
            a = args[how[1]] if how[1] < len(args) else None
            return eng.value_of(st, deref(a)) if a is not None else None
        return deref(args[how]) if how < len(args) else None

    def elem(self, eng, st, fr, nid, n):
        f = fr.f
        if n['k'] == 'CXXDeleteExpr':
            self.release(eng, st, fr, nid, 'object', eng.ev(st, fr, n['c'][0]), False, 'delete')
        elif n['k'] == 'BinaryOperator' and n['op'] == '=':
            loc = eng.lv(st, fr, n['c'][0])
            if loc.k == 'fld' and root(loc) is THIS:
                v = orig(eng.value_of(st, loc))
                for x in st.facts:
                    if x[0] == 'own' and x[2] is v and not self.failed(st, x) and x[1] not in ('regex', 'yaml event', 'yaml parser', 'yaml emitter') and not self.held(eng, st, v, loc):
                        nv = orig(eng.ev(st, fr, n['c'][1]))
                        if nv is v: continue
                        self.note('overwrite|%s|%s' % (fn_key(f), loc.a[1]), f.loc(nid), '%s: the %s held in %s (from %s) is overwritten without being released' % (short(f.q), x[1], loc.a[1], x[3]))

    def held(self, eng, st, v, but):
        return any(l is not but and orig(w) is v for l, w in st.mem.items())

    def call(self, eng, st, fr, nid, n, obj, args):
        q = n.get('fq', '')
        r = REL.get(q)
        if r and r[1] < len(args):
            v = args[r[1]]
            if r[0] in ('regex', 'yaml emitter', 'yaml parser', 'yaml event'): v = deref(v)
            self.release(eng, st, fr, nid, r[0], v, r[2], q)
            return
        t = TAKE.get(q)
        if t and t[1] < len(args):
            v = orig(deref(args[t[1]]) if t[0] == 'yaml event' else args[t[1]])
            self.used(eng, st, fr, nid, n, args)
            if t[2] is None:
                st.drop(lambda x: x[0] == 'own' and x[2] is v)
                if t[0] == 'yaml event': st.add(('rel', 'yaml event', v, self.site(fr, nid), 'handed over', q))
            return
        if acq(n): 
            return
        self.used(eng, st, fr, nid, n, args)
        # ownership handed to an owning object
        cls = n.get('cls', '') or ''
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') or q.split('::')[-1] in ('reset', 'push_back', 'insert', 'emplace_back'):
            if 'shared_ptr' in q or 'unique_ptr' in q or 'auto_ptr' in q or cls.startswith('std::'):
                for a in args: self.gone(eng, st, a)
        if q in (BLOB + '::CreateFree', BLOB + '::Create', BLOB + '::Blob'):
            free_ = None
            if q != BLOB + '::CreateFree':
                free_ = args[2] if len(args) > 2 else None
            if q == BLOB + '::CreateFree' or free_ is not None and free_ is not ZERO:
                for a in args[:1]: self.gone(eng, st, a)
        elif n.get('fn') in self.cx.prog.funcs and q not in ACQ:
            # a raw object pointer handed to library code that keeps it
            for i, a in enumerate(args):
                t = (n.get('pt') or [''])[i] if i < len(n.get('pt') or []) else ''
                if t.endswith('*') and not t.startswith('const '):
                    v = orig(a)
                    if any(x[0] == 'own' and x[1] == 'object' and x[2] is v for x in st.facts): self.gone(eng, st, a)

    def used(self, eng, st, fr, nid, n, args):
        q = n.get('fq', '')
        if q.split('::')[-1] in QUIETUSE: return
        for a in args:
            for v in (orig(a), deref(a) if a.k == '&' or a.k in ('p', 'fld', 'var') else None):
                if v is None: continue
                for x in st.facts:
                    if x[0] == 'rel' and x[2] is v and v is not ZERO:
                        self.note('use|%s|%s' % (fn_key(fr.f), q), fr.f.loc(nid), '%s: %s is given a %s that was %s at %s' % (short(fr.f.q), q or 'a call', x[1], x[4], x[3]))

    def gone(self, eng, st, a):
        """the value, or what the aggregate at this address holds, is owned elsewhere now"""
        vs = [orig(a)]
        if a.k == '&': vs.append(eng.value_of(st, a.a[0]))
        for l, v in st.mem.items():
            if a.k == '&' and l.k == 'fld' and l.a[0] is a.a[0]: vs.append(v)
        st.drop(lambda x: x[0] == 'own' and any(v is x[2] or mentions(v, lambda t: t is x[2] or orig(t) is x[2]) for v in vs))

    def release(self, eng, st, fr, nid, kind, v, again, q):
        v = orig(v)
        if v is ZERO or simp(v, st.conds) == 0: return
        if v.k == 'cond': return
        self.cx.count('release sites reached')
        for x in list(st.facts):
            if x[0] == 'rel' and x[2] is v:
                if x[4] == 'released' and again: continue
                self.note('twice|%s|%s' % (fn_key(fr.f), kind), fr.f.loc(nid), '%s: %s releases a %s that was already %s at %s' % (short(fr.f.q), q, kind, x[4], x[3]))
        for x in st.facts:
            if x[0] == 'own' and x[2] is v and x[1] != kind:
                self.note('kind|%s|%s' % (fn_key(fr.f), kind), fr.f.loc(nid), '%s: a %s from %s is released with %s' % (short(fr.f.q), x[1], x[3], q))
        st.drop(lambda x: x[0] == 'own' and x[2] is v or x[0] == 'rel' and x[2] is v)
        st.add(('rel', kind, v, self.site(fr, nid), 'released', q))

    def after(self, eng, st, fr, nid, n, obj, args, res):
        q = n.get('fq', '')
        t = TAKE.get(q)
        if t and t[2] is not None and t[1] < len(args):
            v = orig(args[t[1]])
            for x in list(st.facts):
                if x[0] == 'own' and x[2] is v:
                    st.facts = (st.facts - {x}) | {('own', x[1], x[2], x[3], (res, 'zero', False))}
        a = acq(n)
        if a is None: return
        self.cx.count('acquisitions followed')
        v = self.ident(eng, st, args, a[1], res)
        if v is None: return
        v = orig(v)
        for x in list(st.facts):
            if x[0] == 'own' and x[2] is v and root(v).k != 'obj' and not self.failed(st, x):
                if not isinstance(a[1], int):
                    self.note('lost|%s|%s' % (fn_key(fr.f), a[0]), fr.f.loc(nid), '%s: the %s of the previous round is still held when %s runs again' % (short(fr.f.q), x[1], q))
                elif isinstance(a[1], int) and x[3] != 'entry':
                    self.note('reacquire|%s|%s' % (fn_key(fr.f), a[0]), fr.f.loc(nid), '%s: %s fills a structure that still holds the %s from %s' % (short(fr.f.q), q, x[1], x[3]))
                elif isinstance(a[1], int):
                    self.note('reacquire|%s|%s' % (fn_key(fr.f), a[0]), fr.f.loc(nid), '%s: %s fills a member that still holds its %s' % (short(fr.f.q), q, x[1]))
        st.drop(lambda x: x[0] in ('own', 'rel') and x[2] is v)
        st.add(('own', a[0], v, self.site(fr, nid), (res, a[2], True)))

    def failed(self, st, x):
        """is it known that nothing is held"""
        res, how, dflt = x[4] if x[4] else (None, None, True)
        if res is not None:
            k = simp(res, st.conds)
            if k is not None: return (k == 0) if how == 'nz' else (k == 1)
            if not dflt: return True
        v = x[2]
        return v is ZERO or x[1] not in ('regex', 'yaml emitter', 'yaml parser', 'yaml event') and simp(v, st.conds) == 0

    def branch(self, eng, st, fr, cond, val, term, nid):
        for x in list(st.facts):
            if x[0] == 'own' and not x[4] and self.failed(st, x): st.facts = st.facts - {x}
            if x[0] == 'own' and x[4]:
                k = simp(x[4][0], st.conds)
                if k is None: continue
                ok = (k == 1) if x[4][1] == 'nz' else (k == 0)
                st.facts = st.facts - {x}
                if ok: st.facts = st.facts | {x[:4] + (None,)}

    def assign(self, eng, st, fr, nid, loc, val):
        r = root(loc)
        if r.k in ('var',): return
        if r is THIS and loc.k == 'fld' and loc.a[0] is deref(THIS): return
        # stored where someone else owns it
        v = orig(val)
        if r.k in ('p', 'glob', 'obj', 'call', 'new') or loc.k in ('*', 'idx', 'elem', 'fld') and r is not THIS:
            if any(x[0] == 'own' and x[2] is v for x in st.facts) and not self.local_obj(st, r): self.gone(eng, st, val)

    def local_obj(self, st, r):
        return r.k == 'obj' and any(l[1] is r for l in st.live)

    def ret(self, eng, st, fr, nid, val):
        if fr.parent is None and val is not None:
            self.gone(eng, st, val)

    def dtor(self, eng, st, fr, loc, ty, unwinding):
        if not unwinding: return
        d = self.cx.prog.funcs.get(self.cx.prog.dtor_of(ty)) if self.cx.prog.dtor_of(ty) else None
        if d is not None and d.id in self.near:
            # unwinding runs the destructor of a local owner
            for l, v in list(st.mem.items()):
                if root(l) is root(loc) and l is not loc: self.gone(eng, st, v)
            st.drop(lambda x: x[0] == 'own' and root(x[2]) is root(loc))

    def exit(self, eng, st):
        self.exits.append((st, None))
        self.locals(eng, st, None)

    def exc_exit(self, eng, st, site, ty):
        self.exits.append((st, site))
        self.locals(eng, st, site)

    def is_member(self, eng, st, v):
        if root(v) is THIS or root(v).k == 'obj': return True
        return any((root(l) is THIS or root(l).k == 'obj') and orig(w) is v for l, w in st.mem.items())

    def locals(self, eng, st, site):
        f = eng.root_func
        for x in st.facts:
            if x[0] != 'own' or self.failed(st, x): continue
            v = x[2]
            if self.is_member(eng, st, v): continue
            if root(v).k in ('p', 'glob') and v.k in ('p', 'fld', '*', 'glob'): continue
            how = 'at the end' if site is None else 'when %s throws (%s)' % ((site[0].f.nodes[site[1]].get('fq') or 'the throw').replace(NS, ''), site[0].f.loc(site[1]))
            self.note('leak|%s|%s|%s' % (fn_key(f), x[1], 'normal' if site is None else 'exception'), x[3], '%s: the %s acquired at %s is not released %s' % (short(f.q), x[1], x[3], how))


def member_fact(eng, cx, cls, fields):
    def seed(eng, st):
        for fl, kind in fields:
            st.add(('own', kind, T('fld', deref(THIS), fl), 'entry', None))
    return seed


def check(cx):
    prog = cx.prog
    th = Throws(prog)
    direct = {f.id for f in prog.funcs.values() if f.cfg and touches(f)}
    cx.need(direct, 'functions acquiring or releasing', 20)
    near = set()
    for fid in direct:
        f = prog.funcs[fid]
        if any(acq(n) or n.get('fq') in REL or n.get('fq') in TAKE for i, n in f.calls()) or any(n and n['k'] == 'CXXDeleteExpr' for n in f.nodes): near.add(fid)
    # functions with an owner on the way: callers of helpers
    callers = direct_callers(cx)
    use = set(near)
    for fid in list(near):
        for c in callers.get(fid, ()): use.add(c)
    own_near = set(near)
    for c in list(use):
        g = prog.funcs[c]
        if g.kind in ('ctor', 'dtor') or len(g.nodes) < 150: own_near.add(c)
    # constructors of bases of classes with a touching constructor or destructor
    resc = {prog.funcs[i].cls for i in use if prog.funcs[i].cls}
    fam = set()
    for c in resc:
        fam.add(c); fam |= set(prog.bases(c)); fam |= set(prog.subclasses(c))
    for f in prog.funcs.values():
        if f.kind in ('ctor', 'dtor') and f.cls in fam and f.cfg and not f.implicit: own_near.add(f.id)

    KEEP.clear()
    for m in holders(prog).values(): KEEP.update(m)

    def run(f, seed=None):
        rule = Own(cx, th, own_near - {f.id}); rule.seed = seed
        eng = cx.engine(rule)
        eng.run(f)
        return rule, eng

    for fid in sorted(use, key=lambda i: (prog.funcs[i].file, prog.funcs[i].line)):
        f = prog.funcs[fid]
        if not f.cfg: continue
        if f.kind == 'dtor': continue
        rule, eng = run(f)
        cx.count('functions analysed')
        for k, (w, m) in rule.found.items(): cx.bad(k, w, m)
    members(cx, th, own_near, run)
    copies(cx, own_near)
    deleters(cx, th, own_near)
    blobs(cx)


def dtors(prog, cls):
    """destructors that run for an object of this class, most derived first"""
    out = []
    for c in [cls] + list(prog.bases(cls)):
        d = prog.dtor_of(c)
        if d and d in prog.funcs and prog.funcs[d].cfg and prog.funcs[d].cls == c: out.append(prog.funcs[d])
    return out


def holders(prog):
    # classes with members that hold resources
    res = {}
    for f in prog.funcs.values():
        if not f.cls or not f.cfg: continue
        for i, n in f.calls():
            q = n.get('fq')
            a = acq(n); r = REL.get(q)
            idx = None; kind = None
            if a and isinstance(a[1], int): idx, kind = a[1], a[0]
            elif r: idx, kind = r[1], r[0]
            if idx is not None and idx < len(n.get('args', [])):
                m = f.nodes[f.strip(n['args'][idx])]
                if m['k'] == 'UnaryOperator' and m['op'] == '&': m = f.nodes[f.strip(m['c'][0])]
                if m['k'] == 'MemberExpr' and m['c'] and f.nodes[f.strip(m['c'][0])]['k'] == 'CXXThisExpr': res.setdefault(f.cls, {})[m['m']] = kind
            if a and a[1] == 'ret' and f.kind == 'ctor' and any(i in f.walk(x['e']) for x in f.inits if x.get('e') is not None and x['e'] >= 0 and not x.get('m')):
                res.setdefault(f.cls, {})['(base)'] = a[0]
            if a and a[1] == 'ret':
                p = f.par.get(i)
                while p is not None and p >= 0 and f.nodes[p]['k'] in CASTS: p = f.par.get(p)
                if p is not None and p >= 0 and f.nodes[p]['k'] == 'BinaryOperator' and f.nodes[p]['op'] == '=':
                    m = f.nodes[f.strip(f.nodes[p]['c'][0])]
                    if m['k'] == 'MemberExpr' and m['c'] and f.nodes[f.strip(m['c'][0])]['k'] == 'CXXThisExpr': res.setdefault(f.cls, {})[m['m']] = a[0]
    return res


def members(cx, th, near, run):
    prog = cx.prog
    res = holders(prog)
    cx.need(res, 'classes with members that hold resources', 5)
    for cls in sorted(res):
        fields = sorted(res[cls].items())
        cx.sample('%s: %s' % (short(cls), ', '.join('%s (%s)' % x for x in fields)))
        cx.count('member resources', len(fields))
        family = [cls] + [c for c in prog.subclasses(cls) if c != cls]
        for c in family:
            ds = dtors(prog, c)
            flags = {n['m'] for d in ds for n in d.nodes if n and n['k'] == 'MemberExpr' and n['c'] and d.nodes[d.strip(n['c'][0])]['k'] == 'CXXThisExpr'}
            for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line)):
                if f.cls is None or not f.cfg or f.implicit or f.static: continue
                if f.kind == 'ctor' and f.cls == c: seed = None
                elif f.kind in ('method',) and (f.cls == c or f.cls in prog.bases(c)) and not is_helper(cx, f) and (f.id in near or flags & set(cx.eff.direct.get(f.id, ()))): seed = member_fact(None, cx, c, fields)
                else: continue
                rule, eng = run(f, seed)
                cx.count('member functions followed into the destructor')
                for k, (w, m) in rule.found.items(): cx.bad(k, w, m)
                for st, site in rule.exits:
                    after_exit(cx, th, near, prog, c, ds, f, st, site, dict(fields))


def after_exit(cx, th, near, prog, cls, ds, f, st, site, fields):
    facts = frozenset(x for x in st.facts if x[0] in ('own', 'rel'))
    mem = {l: v for l, v in st.mem.items() if root(l) is THIS}
    conds = {c: v for c, v in st.conds.items()}
    touched = any(x[0] == 'rel' for x in facts) or any(x[0] == 'own' and x[3] != 'entry' for x in facts) or any(l.k == 'fld' and l.a[0] is deref(THIS) for l in mem)
    if not touched: return
    if f.kind == 'ctor' and site is not None:
        ds = [d for d in ds if d.cls != cls]
    states = [(facts, mem, conds)]
    for d in ds:
        nxt = []
        for fa, me, co in states:
            rule = Own(cx, th, near - {d.id})
            def seed(eng, s, fa=fa, me=me, co=co):
                s.facts = fa; s.mem = dict(me); s.conds = dict(co)
            rule.seed = seed
            eng = cx.engine(rule); eng.run(d)
            cx.count('destructor runs from a reachable state')
            for k, (w, m) in rule.found.items():
                if k.startswith('leak|'): continue
                cx.bad(k + '|after ' + f.q.split('::')[-1], w, m + ' (object left by %s)' % short(f.q))
            for s, e in rule.exits:
                nxt.append((frozenset(x for x in s.facts if x[0] in ('own', 'rel')), {l: v for l, v in s.mem.items() if root(l) is THIS}, dict(s.conds), ))
        states = list({(a, frozenset(b.items()), frozenset(c.items())): (a, b, c) for a, b, c in nxt}.values())[:24]
    for fa, me, co in states:
        class S: pass
        s = S(); s.conds = co
        for x in fa:
            if x[0] != 'own': continue
            v = x[2]
            if Own.failed(None, s, x): continue
            if root(v) is not THIS and not any(orig(w) is v for w in mem.values()): continue
            if x[3] == 'entry' and not any(l.k == 'fld' and l.a[0] is deref(THIS) for l in mem): continue
            if x[3] == 'entry' and guarded(cx, prog, cls, co, mem): continue
            what = 'constructor throws' if f.kind == 'ctor' and site is not None else 'object is destroyed after %s' % short(f.q)
            cx.bad('member|%s|%s|%s' % (short(cls), x[1], f.q.split('::')[-1] + ('!' if site is not None else '')), f.loc(), '%s: the %s %s is not released when the %s%s' % (
                short(cls), x[1], 'held since before the call' if x[3] == 'entry' else 'acquired at ' + x[3], what, '' if site is None else ' (exception from %s)' % site[0].f.loc(site[1])))


def guarded(cx, prog, cls, conds, mem):
    """the destructor skips the release because of a flag this function did not set"""
    for c, v in conds.items():
        t = c
        while t.k == '!': t = t.a[0]
        if t.k == 'fld' and t.a[0] is deref(THIS) and t not in mem: return True
    return False


def copies(cx, near):
    prog = cx.prog
    owners = set()
    for f in prog.funcs.values():
        if f.kind == 'dtor' and f.cfg and f.cls and any(n.get('fq') in REL for i, n in f.calls()): owners.add(f.cls)
    owners.add(BLOB)
    cx.count('classes releasing in their destructor', len(owners))
    for f in prog.funcs.values():
        for i, n in f.calls():
            if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and (n.get('copy') or n.get('move')) and not n.get('elide'):
                q = n.get('fq', '').rsplit('::', 1)[0]
                if q in owners: cx.bad('copy|%s|%s' % (short(q), fn_key(f)), f.loc(i), '%s: a %s is copied; both copies release the same resource' % (short(f.q), short(q)))


class Factory(Rule):
    inline_depth = 3
    def __init__(self, cx): self.cx = cx; self.seen = []
    def inline(self, eng, st, fr, nid, n, g): return g.cls == BLOB and g.kind != 'ctor'
    def call(self, eng, st, fr, nid, n, obj, args):
        if n.get('fq') == BLOB + '::Blob' and len(args) >= 3:
            self.seen.append((fr, nid, args, eng.value_of(st, args[0].a[0]) if args[0].k == '&' else args[0]))


def blobs(cx):
    prog = cx.prog
    fs = [f for f in prog.funcs.values() if f.cls == BLOB and f.static and f.cfg]
    cx.need(fs, 'blob factories', 4)
    for f in fs:
        rule = Factory(cx); eng = cx.engine(rule); eng.run(f)
        name = f.q.split('::')[-1]
        cx.count('blob factories')
        for fr, nid, args, iov in rule.seen:
            fp = args[2]
            if name == 'CreateReferenced' and fp is not ZERO:
                cx.bad('blob|%s' % fn_key(f), fr.f.loc(nid), '%s: memory the caller keeps is given a release function' % short(f.q))
            elif name in ('CreateFree', 'CreateCopy') and (fp is ZERO or fp.k == 'p'):
                cx.bad('blob|%s' % fn_key(f), fr.f.loc(nid), '%s: the memory taken over is given no release function' % short(f.q))
            elif name == 'Create':
                k = next((i for i, p in enumerate(f.params) if '(' in p['t'] or 'FreeFunc' in p['t']), None)
                if k is not None and not (fp.k == 'p' and fp.a[0] == k):
                    cx.bad('blob|%s' % fn_key(f), fr.f.loc(nid), '%s: the release function of the caller is not the one used' % short(f.q))
                if k is not None and k + 1 < len(f.params) and len(args) > 3 and not (args[3].k == 'p' and args[3].a[0] == k + 1):
                    cx.bad('blobctx|%s' % fn_key(f), fr.f.loc(nid), '%s: the context of the release function is not the one the caller gave' % short(f.q))
            if name == 'CreateCopy' and mentions(iov, lambda t: t.k == 'p'):
                cx.bad('blobcopy|%s' % fn_key(f), fr.f.loc(nid), '%s: the blob refers to the caller\'s memory instead of its copy' % short(f.q))
    d = prog.funcs.get(prog.dtor_of(BLOB)) if prog.dtor_of(BLOB) else None
    cx.need([d] if d else [], 'blob destructor')
    calls = []
    names = {c['n'] for c in prog.classes[BLOB]['fields'] if '(' in c['t'] or 'FreeFunc' in c['t'] or 'vector' in c['t']}
    for i, n in enumerate(d.nodes):
        if n and 'args' in n and not n.get('fn') and n['k'] == 'CallExpr': calls.append(i)
    if not calls:
        cx.bad('blobdtor', d.loc(), 'the blob destructor never runs the release function')
    for i in calls:
        loop = next((a for a in d.ancestors(i) if d.nodes[a]['k'] in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt')), None)
        if loop is None:
            cx.bad('blobdtor', d.loc(i), 'the blob destructor releases only one buffer'); continue
        l = d.nodes[loop]
        if l['k'] == 'ForStmt' and l.get('init') is not None and l['init'] >= 0:
            dn = d.nodes[l['init']]
            for v in dn.get('vars', []):
                if v.get('init') is not None:
                    fm = lin(d, v['init'])
                    if set(fm) <= {1} and fm.get(1, 0) != 0: cx.bad('blobdtor', d.loc(loop), 'the blob destructor does not start with the first buffer')
        # tests around the call may only concern the function itself and the buffer list
        for a in d.ancestors(i):
            if d.nodes[a]['k'] == 'IfStmt':
                st = [d.nodes[a]['cond']]
                while st:
                    c = d.strip(st.pop()); m = d.nodes[c]
                    if m['k'] == 'BinaryOperator' and m['op'] == '&&': st += m['c']; continue
                    if not any(d.nodes[x]['k'] == 'MemberExpr' and d.nodes[x]['m'] in names for x in d.walk(c)):
                        cx.bad('blobdtor', d.loc(a), 'the blob destructor runs the release function only if %s' % text(d, c))


def deleters(cx, th, near):
    """release functions that are part of the library free what their constructor allocated"""
    prog = cx.prog
    for q in REL:
        for f in prog.fq(q):
            if not f.cfg or not f.params: continue
            p = T('p', 0, f.params[0]['n'])
            flds = set()
            for g in prog.funcs.values():
                if g.file != f.file: continue
                for i, n in g.calls():
                    if n.get('fq') in ('malloc', 'calloc'):
                        x = g.par.get(i)
                        while x is not None and x >= 0 and g.nodes[x]['k'] in CASTS: x = g.par.get(x)
                        if x is not None and x >= 0 and g.nodes[x]['k'] == 'BinaryOperator' and g.nodes[x]['op'] == '=':
                            m = g.nodes[g.strip(g.nodes[x]['c'][0])]
                            if m['k'] == 'MemberExpr': flds.add(m['m'])
            rule = Own(cx, th, near - {f.id})
            def seed(eng, st):
                st.add(('own', 'heap', p, 'entry', None))
                for m in flds: st.add(('own', 'heap', T('fld', deref(p), m), 'entry', None))
            rule.seed = seed
            eng = cx.engine(rule); eng.run(f)
            cx.count('release functions of the library')
            for st, site in rule.exits:
                if simp(p, st.conds) == 0: continue
                for x in st.facts:
                    if x[0] != 'own' or x[3] != 'entry' or rule.failed(st, x): continue
                    if x[2] is not p and any(mentions(c, lambda t: t is x[2]) for c in st.conds): continue
                    cx.bad('deleter|%s|%s' % (q, x[2].a[1]), f.loc(), '%s does not free %s' % (q, x[2]))
