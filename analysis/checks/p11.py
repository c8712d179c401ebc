from checks.common import *

EXPLAIN = ('Every call that hands bytes or a flush to a destination (standard C and C++ streams, the XML and YAML writers, EmitterOutput::Write) starts an '
           'obligation that is followed along all paths: the status must be found good, returned, or turned into an error before the function returns normally. '
           'Write loops are checked for progress (a zero count leaves the loop by an error), for advancing by exactly the accepted count, and for running '
           'until nothing remains. Serialising entry points, Flush and Close are checked to push the data through, handlers not to swallow output errors, and '
           'all loops of the library not to move away from their own bound.')
TECH = 'path-sensitive obligation (typestate) analysis of status values plus linear-form loop analysis'
NOTE = 'All translation units. Destructors have no way to report and are exempt here (see P12).'
RULE = ('O1 a failing status never reaches a normal return; O2 a write that accepts nothing ends in an error; O3 write loops advance by the accepted count and end when nothing '
        'remains; O4 entry points close or flush what they emitted; O5 Flush and Close reach the destination on every path; O6 Write implementations return and '
        'count the accepted amount and stay inside the memory destination; O7 handlers around output do not report success; O8 no loop moves away from its bound; O9 a destination that cannot be opened raises.')

EO = 'libvariant::EmitterOutput'
EI = 'libvariant::EmitterImpl'
# call -> how success shows in the result
def prim(n):
    q = n.get('fq', ''); name = q.split('::')[-1]
    if name == 'fwrite' and len(n.get('args', [])) == 4: return ('full', 2)
    if name == 'sputn' and 'streambuf' in q: return ('full', 1)
    if name == 'write' and '::' not in q and len(n.get('args', [])) == 3: return ('full', 2)
    if name == 'fflush': return ('zero', None)
    if name in ('pubsync', 'sync') and 'streambuf' in q: return ('notm1', None)
    if name.startswith('yaml_') and (name in ('yaml_emitter_emit', 'yaml_emitter_flush', 'yaml_emitter_initialize', 'yaml_emitter_dump', 'yaml_emitter_open', 'yaml_emitter_close') or name.endswith('_event_initialize')):
        return ('nz', None)
    if name.startswith('xmlTextWriter') and name[13:].startswith(('Start', 'End', 'Write', 'Flush', 'FullEnd')): return ('nonneg', None)
    return None


# registration call -> {argument position: predicate on the returned constant meaning "failed"}
CALLBACKS = {'yaml_emitter_set_output': {1: lambda v: v == 0},
             'xmlOutputBufferCreateIO': {0: lambda v: v < 0, 1: lambda v: v < 0}}


def consts(t):
    t = orig(t)
    if t.k == 'i': return t.a[0]
    return None


def good(kind, r, n, c, v):
    """does condition c with outcome v show success for result r"""
    if c.k == '!': return good(kind, r, n, c.a[0], not v)
    if c.k in ('&&', '||') and (c.k == '&&') == v: return good(kind, r, n, c.a[0], v) or good(kind, r, n, c.a[1], v)
    if c is r: return (kind in ('nz', 'pos') and v) or (kind in ('zero', 'nonneg', 'notm1') and not v)
    if c.k == '==':
        a, b = c.a
        if b is r: a, b = b, a
        if a is r:
            k = consts(b)
            if kind == 'full': return v and n is not None and (b is n or orig(b) is orig(n))
            if k is None: return False
            ok = {'nz': lambda x: x != 0, 'zero': lambda x: x == 0, 'notm1': lambda x: x != -1, 'nonneg': lambda x: x >= 0, 'pos': lambda x: x > 0}[kind]
            if v: return ok(k)
            return not ok(k) and kind in ('nz', 'notm1', 'pos') or (kind == 'nonneg' and k == -1) or (kind == 'zero' and k == -1)
        return False
    if c.k == '<':
        a, b = c.a
        if a is r:
            k = consts(b)
            if kind == 'full': return not v and n is not None and (b is n or orig(b) is orig(n))
            if k is None: return False
            if not v: return {'nz': k >= 1, 'zero': False, 'notm1': k >= 0, 'nonneg': k >= 0, 'pos': k >= 1}[kind]   # r >= k
            return False
        if b is r:
            k = consts(a)
            if kind == 'full' or k is None: return False
            if v: return {'nz': k >= 0, 'zero': False, 'notm1': k >= -1, 'nonneg': k >= -1, 'pos': k >= 0}[kind]       # r > k
            return False
    return False


class Out(Rule):
    """obligations of one function; findings are collected in self.found"""
    inline_depth = 3
    max_states = 16

    def __init__(self, cx, writes, force=()):
        self.cx = cx; self.writes = writes; self.found = {}; self.force = set(force); self.fails = {}

    def inline(self, eng, st, fr, nid, n, g):
        if g.id in self.force: return True
        return len(g.nodes) < 220 and any(m and m['k'] == 'CXXThrowExpr' for m in g.nodes) and not g.virt

    def note(self, key, where, msg):
        self.found.setdefault(key, (where, msg))

    def is_write(self, n): return n.get('fn') in self.writes

    def call(self, eng, st, fr, nid, n, obj, args):
        if self.is_write(n):
            for x in st.facts:
                if x[0] == 'prog':
                    self.note('spin|%s' % fn_key(fr.f), fr.f.loc(nid), '%s: a Write that accepted nothing leads to another Write; a full destination is retried forever' % short(fr.f.q))
                if x[0] == 'adv' and x[1] == fr.uid and x[2] == nid:
                    self.note('stuck|%s' % fn_key(fr.f), fr.f.loc(nid), '%s: the loop writes again without having advanced by the accepted count' % short(fr.f.q))

    def after(self, eng, st, fr, nid, n, obj, args, res):
        r = res
        if self.is_write(n):
            self.cx.count('writes to an output followed')
            if n.get('args') and len(n['args']) == 2:
                for k in ('prog', 'full', 'adv', 'data'): st.drop(lambda x: x[0] == k and x[1] == fr.uid and x[2] == nid)
                st.add(('prog', fr.uid, nid, r)); st.add(('full', fr.uid, nid, r, args[1])); st.add(('adv', fr.uid, nid))
                if not self.data_moves(fr.f, n): st.add(('data', fr.uid, nid))
            return
        p = prim(n)
        if p is not None and not self.in_dtor(fr):
            self.cx.count('status values followed')
            st.drop(lambda x: x[0] == 'stat' and x[1] == fr.uid and x[2] == nid)
            st.add(('stat', fr.uid, nid, r, p[0], args[p[1]] if p[1] is not None and p[1] < len(args) else None))

    def in_dtor(self, fr):
        while fr is not None:
            if fr.f.kind == 'dtor': return True
            fr = fr.parent
        return False

    # -- remaining-bytes form of a Write call
    def lens(self, f, n):
        a = f.strip(n['args'][1])
        out = [lin(f, a)]
        st = [a]
        while st:
            i = f.strip(st.pop()); m = f.nodes[i]
            if m['k'] == 'ConditionalOperator': st += m['c'][1:]; out += [lin(f, c) for c in m['c'][1:]]
            elif 'args' in m and m.get('fq', '').split('::')[-1] == 'min': st += m['args']; out += [lin(f, c) for c in m['args']]
            elif m['k'] == 'DeclRefExpr':
                ds = defs_of(f).get(m.get('d'))
                if ds and len(ds) == 1 and ds[0][0] == 'init': st.append(ds[0][1])
        return [o for o in out if any(k != 1 for k in o)]

    def data_moves(self, f, n):
        """is the data position a function of what the length depends on"""
        p = lin(f, n['args'][0])
        for l in self.lens(f, n):
            for k, c in l.items():
                if k != 1 and p.get(k, 0) == -c and c < 0: return True
        # a block filled with one byte value may be sent from the same place again
        roots_ = {k for k in p if isinstance(k, str) and k.startswith('@')}
        for i, m in f.calls():
            if m.get('fq', '').split('::')[-1] in ('memset', 'fill', 'fill_n', 'assign'):
                q = lin(f, m['args'][0])
                if roots_ & set(q): return True
        return False

    def assign(self, eng, st, fr, nid, loc, val):
        f = fr.f; n = f.nodes[nid]
        if n['k'] not in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator'): return
        lhs = f.nodes[f.strip(n['c'][0])]
        if lhs['k'] != 'DeclRefExpr': key = text(f, n['c'][0])
        else: key = lhs['d']
        for x in list(st.facts):
            if x[0] not in ('adv', 'full') or x[1] != fr.uid: continue
            w = f.nodes[x[2]]
            d = self.delta(f, n, key)
            isw = d == {('call', x[2]): 1}
            isn = d == {('call', x[2]): -1}
            for l in self.lens(f, w):
                if l.get(key):
                    if l[key] < 0 and isw or l[key] > 0 and isn: st.drop(lambda y: y == ('adv', fr.uid, x[2]))
                    elif lhs['k'] == 'DeclRefExpr' and x[0] == 'full' and d is not None and self.same_loop(f, nid, x[2]):
                        self.note('advance|%s' % fn_key(f), f.loc(nid), '%s: the write position moves by %s instead of the count the output accepted' % (short(f.q), self.show(f, d)))
            p = lin(f, w['args'][0])
            if p.get(key) and isw: st.drop(lambda y: y == ('data', fr.uid, x[2]))

    def same_loop(self, f, a, b):
        la = [i for i in f.ancestors(a) if f.nodes[i]['k'] in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt')]
        lb = [i for i in f.ancestors(b) if f.nodes[i]['k'] in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt')]
        return bool(la) and bool(lb) and la[0] == lb[0]

    def show(self, f, d):
        return ' + '.join('%s%s' % ('' if c == 1 else '%d*' % c, (k.split(':')[-1] if isinstance(k, str) else 'a call result' if isinstance(k, tuple) else k)) for k, c in sorted(d.items(), key=str)) or 'nothing'

    def delta(self, f, n, key):
        op = n['op']
        if op in ('++', 'post++'): return {1: 1}
        if op in ('--', 'post--'): return {1: -1}
        if op == '+=': return lin(f, n['c'][1])
        if op == '-=': return lneg(lin(f, n['c'][1]))
        if op == '=': return ladd(lin(f, n['c'][1]), {key: 1}, -1)
        return None

    def branch(self, eng, st, fr, cond, val, term, nid):
        for x in list(st.facts):
            if x[0] == 'stat' and good(x[4], x[3], x[5], cond, bool(val)): st.facts = st.facts - {x}
            elif x[0] == 'prog' and (good('pos', x[3], None, cond, bool(val)) or good('nz', x[3], None, cond, bool(val))): st.facts = st.facts - {x}
            elif x[0] == 'full' and good('full', x[3], x[4], cond, bool(val)):
                st.drop(lambda y: y[0] in ('prog', 'full', 'adv', 'data') and y[1:3] == x[1:3])
        if nid is None or nid < 0: return
        fs = None
        for x in list(st.facts):
            if x[0] != 'full' or x[1] != fr.uid: continue
            if fs is None: fs = ats(fr.f, nid, bool(val))
            for l in self.lens(fr.f, fr.f.nodes[x[2]]):
                if any(k in ('==', '<=') and m == l or k == '==' and lneg(m) == l for k, m in fs):
                    if ('adv', fr.uid, x[2]) in st.facts:
                        self.note('stuck|%s' % fn_key(fr.f), fr.f.loc(x[2]), '%s: the loop ends without having advanced by the accepted count' % short(fr.f.q))
                    if ('data', fr.uid, x[2]) in st.facts:
                        self.note('data|%s' % fn_key(fr.f), fr.f.loc(x[2]), '%s: after a partial write the same bytes are sent again' % short(fr.f.q))
                    st.drop(lambda y: y[0] in ('prog', 'full', 'adv', 'data') and y[1:3] == x[1:3])
                    break

    def ret(self, eng, st, fr, nid, val):
        if fr.parent is None: st.add(('rv', val))

    def catch_(self, eng, st, fr, nid, ty):
        if fr.parent is None and nid in self.handlers: st.add(('swallow', fr.uid, nid))

    handlers = ()

    def exit(self, eng, st):
        f = eng.root_func
        if f.kind == 'dtor': return
        rv = next((x[1] for x in st.facts if isinstance(x, tuple) and x[0] == 'rv'), None)
        fail = self.fails.get(f.id)
        k = consts(rv) if rv is not None else None
        failed = fail is not None and k is not None and fail(k)
        for x in st.facts:
            if failed: continue
            if x[0] == 'stat':
                if rv is not None and mentions(rv, lambda t: t is x[3]): continue
                nm = self.nodeof(eng, x)
                self.note('status|%s|%s' % (fn_key(f), nm), f.loc(x[2]) if x[1] == () else f.loc(), '%s returns normally although %s may have failed' % (short(f.q), nm))
            elif x[0] == 'prog':
                if rv is not None and mentions(rv, lambda t: t is x[3]): continue
                self.note('nothing|%s' % fn_key(f), f.loc(x[2]) if x[1] == () else f.loc(), '%s returns normally although the output may have accepted nothing' % short(f.q))
            elif x[0] == 'full':
                if rv is not None and mentions(rv, lambda t: t is x[3]): continue
                self.note('partial|%s' % fn_key(f), f.loc(x[2]) if x[1] == () else f.loc(), '%s returns normally although the output may have accepted only part of the data' % short(f.q))
            elif x[0] == 'swallow':
                self.note('swallow|%s' % fn_key(f), f.loc(x[2]), '%s: a handler around output calls lets the function return as if nothing had failed' % short(f.q))
        if fail is not None and k is not None and fail(k) and not st.conds and len(st.facts) == 1:
            self.note('success|%s' % fn_key(f), f.loc(), '%s reports failure although everything was written' % short(f.q))

    def nodeof(self, eng, x):
        n = None
        if x[3].k == 'call': return x[3].a[0]
        return 'an output call'

    def may_throw(self, eng, st, fr, nid, n): return False


class Caught(Out):
    exc = True
    def may_throw(self, eng, st, fr, nid, n):
        return n.get('fn') in self.throwers or self.is_write(n)


def dests(cx):
    w = set(); fl = set()
    c = cx.prog.classes.get(EO)
    if c is None: raise AnalysisBroken('EmitterOutput not found')
    for m in c['methods']:
        if m['n'] == 'Write': w |= {m['id']} | cx.prog.overriders.get(m['id'], set())
        if m['n'] == 'Flush': fl |= {m['id']} | cx.prog.overriders.get(m['id'], set())
    cx.need(w, 'EmitterOutput::Write implementations', 4)
    return w, fl


def check(cx):
    writes, flushes = dests(cx)
    prog = cx.prog
    fails = {}
    for f in prog.funcs.values():
        for i, n in f.calls():
            reg = CALLBACKS.get(n.get('fq'))
            if not reg: continue
            for p, pred in reg.items():
                m = f.nodes[f.strip(n['args'][p])]
                if m['k'] == 'UnaryOperator': m = f.nodes[f.strip(m['c'][0])]
                for g in prog.fq(m.get('dq') or m.get('mq') or '?'): fails[g.id] = pred
    cx.need(fails, 'output callbacks', 3)
    cx.count('output callbacks', len(fails))

    # O1-O3: functions with direct obligations; a helper that leaves one open is judged inside its callers
    direct = [f for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line)) if f.cfg and any(n.get('fn') in writes or prim(n) for i, n in f.calls())]
    cx.need(direct, 'functions that hand data to a destination', 10)
    work = [(f, ()) for f in direct]
    done = set()
    while work:
        f, force = work.pop(0)
        if (f.id, force) in done: continue
        done.add((f.id, force))
        if f.kind == 'dtor': continue
        rule = Out(cx, writes, force); rule.fails = fails
        eng = cx.engine(rule)
        eng.run(f)
        cx.count('functions analysed for open obligations')
        if eng.truncated: cx.truncated.add(f.q)
        if not rule.found: continue
        helper = is_helper(cx, f) and len(force) < 3 and all(k.split('|')[0] in ('status', 'nothing', 'partial') for k in rule.found)
        callers = [prog.funcs[c] for c in sorted(direct_callers(cx).get(f.id, ()))]
        if helper and f.id not in fails and not f.ret == 'void':
            for g in callers: work.append((g, tuple(sorted(set(force) | {f.id}))))
            continue
        for k, (w, m) in rule.found.items(): cx.bad(k, w, m)

    entries(cx, writes, flushes)
    flushclose(cx, writes, flushes)
    overrides(cx, writes)
    handlers(cx, writes, flushes, fails)
    loops(cx)
    # O9 a destination that could not be opened
    opened(cx, EO)


# ---- O4 -----------------------------------------------------------------------
class Entry(Rule):
    inline_depth = 2
    def __init__(self, cx, writes, flushes): self.cx = cx; self.writes = writes; self.flushes = flushes; self.found = {}
    def inline(self, eng, st, fr, nid, n, g): return is_helper(self.cx, g) and len(g.nodes) < 200 and (not touches_emitter(g) or finishes(g))
    def after(self, eng, st, fr, nid, n, obj, args, res):
        q = n.get('fq', ''); name = q.split('::')[-1]
        g = self.cx.prog.funcs.get(n.get('fn'))
        if g is not None and is_helper(self.cx, g) and finishes(g): return
        if n.get('cls') == 'libvariant::Emitter' and n.get('obj') is not None and not n.get('cm') and name not in ('operator=', 'GetParam', 'GetParams', 'SetParam', 'SetParams', 'Emitter', '~Emitter'):
            if name in ('Flush', 'Close'): st.drop(lambda x: x[0] == 'emit')
            else: st.add(('emit', name))
            return
        if n.get('fn') in self.writes: st.add(('raw', 'Write')); return
        if n.get('fn') in self.flushes: st.drop(lambda x: x[0] == 'raw'); return
        # an emitter handed on by reference or inside an object
        for a, t in zip(n.get('args', []), n.get('pt', [])):
            if 'Emitter' in t and 'Output' not in t and not t.startswith('const') and q.split('::')[-1] not in ('Emitter', 'CreateEmitter', 'operator='): st.add(('emit', name))
            if 'EmitState' in t: st.add(('emit', name))
    def exit(self, eng, st):
        for x in st.facts:
            what = 'emitted data is neither flushed nor closed' if x[0] == 'emit' else 'bytes written to the output are not flushed'
            self.found.setdefault('unflushed|%s|%s' % (fn_key(eng.root_func), x[0]), (eng.root_func.loc(), '%s: on some path %s before returning' % (short(eng.root_func.q), what)))


def touches_emitter(g):
    return any(n.get('cls') == 'libvariant::Emitter' for i, n in g.calls())


def finishes(g):
    return any(n.get('cls') == 'libvariant::Emitter' and n.get('fq', '').split('::')[-1] in ('Close', 'Flush') for i, n in g.calls())


def entries(cx, writes, flushes):
    ents = []
    for f in sorted(cx.prog.funcs.values(), key=lambda f: (f.file, f.line)):
        if not f.cfg or f.kind != 'func': continue
        if any(n.get('fq') == 'libvariant::CreateEmitter' for i, n in f.calls()) and 'Emitter' not in f.ret: ents.append(f)
    cx.need(ents, 'serialising entry points', 3)
    for f in ents:
        rule = Entry(cx, writes, flushes)
        eng = cx.engine(rule); eng.run(f)
        cx.count('serialising entry points')
        for k, (w, m) in rule.found.items(): cx.bad(k, w, m)
    # wrappers: every Serialize* overload must reach an entry point or another overload on each path
    for f in sorted(cx.prog.funcs.values(), key=lambda f: (f.file, f.line)):
        if f.cfg and f.kind == 'func' and f.q.startswith(NS + 'Serialize') and '/src/' in f.file and f not in ents:
            w = Must(lambda n: n.get('fq', '').startswith(NS + 'Serialize') or n.get('fq') == 'libvariant::CreateEmitter' or 'mitter' in (n.get('cls') or ''))
            eng = cx.engine(w); eng.run(f)
            cx.count('serialising entry points')
            if w.missing: cx.bad('noop|%s' % fn_key(f), f.loc(), '%s returns on some path without serialising anything' % short(f.q))


class Must(Rule):
    inline_depth = 1
    def __init__(self, pred): self.pred = pred; self.missing = False
    def inline(self, *a): return False
    def after(self, eng, st, fr, nid, n, obj, args, res):
        if self.pred(n): st.add('did')
    def exit(self, eng, st):
        if 'did' not in st.facts: self.missing = True


# ---- O5 -----------------------------------------------------------------------
SELF = T('&', T('obj', 'emitter', 'self'))


class FC(Rule):
    inline_depth = 4
    keep_obj = SELF.a[0]
    def __init__(self, cx, cls, fl, own, flags, count): self.cx = cx; self.cls = cls; self.fl = fl; self.own = own; self.flags = flags; self.count = count; self.found = []; self.keep = tuple(flags) + ((count,) if count else ())
    def inline(self, eng, st, fr, nid, n, g): return g.cls == self.cls and len(g.nodes) < 400
    def devirt(self, eng, st, fr, nid, n, obj):
        if obj is deref(SELF): 
            for t in self.cx.prog.targets(n):
                g = self.cx.prog.funcs.get(t)
                if g is not None and g.cls == self.cls: return g
        return None
    def after(self, eng, st, fr, nid, n, obj, args, res):
        if n.get('fn') in self.fl: st.add('flushed')
        elif n.get('fn') in self.own: st.add('flushed')
    def exit(self, eng, st):
        if 'flushed' not in st.facts:
            for m, v in self.flags.items():
                t = T('fld', deref(SELF), m)
                for c, val in st.conds.items():
                    if (c is t or c is T('old', t, 0)) and bool(val) == bool(v): return
            self.found.append('flush')
        if self.count:
            loc = T('fld', deref(SELF), self.count)
            v = eng.value_of(st, loc)
            if v is ZERO: return
            for c, val in st.conds.items():
                if c.k == '<' and c.a[0] is ZERO and c.a[1] is v and not val: return
                if c.k == '==' and c.a[0] is v and c.a[1] is ZERO and val: return
                if c is v and not val: return
                if c.k == '<' and c.a[0] is v and c.a[1] is I(1) and val: return
            self.found.append('drain')


def flushclose(cx, writes, flushes):
    prog = cx.prog
    ei = prog.classes.get(EI)
    if ei is None: raise AnalysisBroken('EmitterImpl not found')
    slot = {m['n']: m['id'] for m in ei['methods'] if m['n'] in ('Flush', 'Close')}
    if len(slot) != 2: raise AnalysisBroken('EmitterImpl::Flush and Close not found')
    n_ = 0
    for cls in sorted(prog.subclasses(EI)):
        c = prog.classes[cls]
        if not any('EmitterOutput' in f['t'] for f in c['fields']): continue
        n_ += 1
        ids = {s: effective(prog, cls, slot[s]) for s in slot}
        # own byte buffer: sent by Write from a member, up to a member count
        count = None
        for f in prog.funcs.values():
            if f.cls != cls: continue
            for i, n in f.calls():
                if n.get('fn') in writes and len(n['args']) == 2:
                    p = lin(f, n['args'][0])
                    if any(isinstance(k, str) and k.startswith('@') and 'this.' in k or isinstance(k, str) and k.startswith('this.') for k in p):
                        for x in Out(cx, writes).lens(f, n):
                            for k, v in x.items():
                                if isinstance(k, str) and k.startswith('this.') and v > 0: count = k[5:]
        for s in ('Flush', 'Close'):
            f = prog.funcs.get(ids[s])
            if f is None or not f.cfg: raise AnalysisBroken('%s::%s has no body' % (cls, s))
            flags = {}
            if s == 'Close':
                for i, n in enumerate(f.nodes):
                    if n and n['k'] == 'BinaryOperator' and n['op'] == '=':
                        l = f.nodes[f.strip(n['c'][0])]
                        v = f.nodes[f.strip(n['c'][1])].get('cv')
                        if v is None: v = f.nodes[f.strip(n['c'][1])].get('v')
                        if l['k'] == 'MemberExpr' and l['t'] == 'bool' and v is not None: flags[l['m']] = str(v).lower() in ('1', 'true')
            rule = FC(cx, cls, flushes, {ids['Flush'], slot['Flush']} if s == 'Close' else set(), flags, count if s == 'Flush' else None)
            eng = cx.engine(rule); eng.run(f, SELF)
            cx.count('Flush and Close implementations')
            if 'flush' in rule.found: cx.bad('%s|%s' % (s.lower(), short(cls)), f.loc(), '%s::%s returns normally on some path without flushing the output' % (short(cls), s))
            if 'drain' in rule.found: cx.bad('drain|%s|%s' % (short(cls), s), f.loc(), '%s::%s returns normally while %s may still count unsent bytes' % (short(cls), s, count))
    cx.need(n_, 'emitters that own an output', 4)


# ---- O6 -----------------------------------------------------------------------
class Impl(Rule):
    inline_depth = 2
    def __init__(self, cx, cnt): self.cx = cx; self.cnt = cnt; self.found = []
    def inline(self, eng, st, fr, nid, n, g): return is_helper(self.cx, g) and len(g.nodes) < 150
    def after(self, eng, st, fr, nid, n, obj, args, res):
        p = prim(n)
        if p and p[0] == 'full': st.add(('amount', res)); st.add(('amount', 'len?', res, args[p[1]]))
        if n.get('fq', '').split('::')[-1] in ('memcpy', 'memmove') and len(args) == 3:
            st.add(('amount', args[2])); self.bounds(eng, st, fr, nid, args)
        if n.get('fq', '') == 'std::copy' and len(args) == 3: st.add(('amount', 'any'))
    def bounds(self, eng, st, fr, nid, args):
        ln = args[2]
        if any((c is ln) and not v for c, v in st.conds.items()): return
        for c, v in st.conds.items():
            # len <= capacity - used, written as !(capacity - used < len)
            if c.k == '<' and not v and orig(c.a[1]) is orig(ln) and (c.a[0] is ZERO or mentions(c.a[0], lambda t: t.k == '-')): return
            if c.k == '<' and v and orig(c.a[0]) is orig(ln) and mentions(c.a[1], lambda t: t.k == '-'): return
            if c.k == '<' and not v and c.a[1].k == '+' and mentions(c.a[1], lambda t: t is ln): 
                st.add(('sum', fr.f.id)); 
                self.found.append('wrap'); return
        self.found.append('bounds')
    def assign(self, eng, st, fr, nid, loc, val):
        if self.cnt(loc):
            n = fr.f.nodes[nid]
            if n['k'] == 'CompoundAssignOperator' and n['op'] == '+=': d = eng.ev(st, fr, n['c'][1])
            elif val.k == '+' and len(val.a) == 2: d = val.a[1] if mentions(val.a[0], lambda t: t is loc or t.k == 'old') else val.a[0]
            else: return
            st.add(('by', d))
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is None: st.add(('rv', val))
    def exit(self, eng, st):
        rv = next((x[1] for x in st.facts if isinstance(x, tuple) and x[0] == 'rv'), None)
        am = [x for x in st.facts if isinstance(x, tuple) and x[0] == 'amount']
        if not am: 
            if rv is ZERO: return
            ln = T('p', 1, eng.root_func.params[1]['n'])
            z = [c for c, v in st.conds.items() if (c is ln and not v) or (c.k == '==' and c.a[0] is ln and c.a[1] is ZERO and v)]
            if not z: self.found.append('nothing')
            return
        by = [x[1] for x in st.facts if isinstance(x, tuple) and x[0] == 'by']
        if not any(x[1] == 'any' or any(isinstance(y, Term) and orig(y) is orig(b) for y in x[1:]) for x in am for b in by) or len(by) > 1: self.found.append('count')
        ok = False
        for x in am:
            if x[1] == 'any': ok = True
            elif len(x) == 2 and rv is not None and orig(rv) is orig(x[1]): ok = True
            elif len(x) == 4 and rv is not None and orig(rv) is orig(x[3]):
                ok = any(good('full', x[2], x[3], c, bool(v)) for c, v in st.conds.items())
        if not ok: self.found.append('ret')


MSG = {'wrap': 'computes used + length in a type that can wrap, so an oversized write passes the capacity test', 'bounds': 'copies into the destination without a test against its capacity',
       'nothing': 'returns success on some path without handing the bytes to the destination', 'count': 'does not add the accepted amount to the count NumBytesWritten reports',
       'ret': 'does not return the accepted amount'}


def overrides(cx, writes):
    prog = cx.prog
    for wid in sorted(writes):
        f = prog.funcs.get(wid)
        if f is None or not f.cfg or f.cls == EO: continue
        nb = [g for g in prog.funcs.values() if g.cls in [f.cls] + prog.bases(f.cls) and g.name == 'NumBytesWritten' and g.cfg]
        if not nb: raise AnalysisBroken('%s::NumBytesWritten not found' % f.cls)
        fld = set()
        for g in nb:
            for i in g.walk():
                m = g.nodes[i]
                if m['k'] == 'MemberExpr': fld.add(m['m'])
        rule = Impl(cx, lambda loc: mentions(loc, lambda t: t.k == 'fld' and t.a[1] in fld))
        eng = cx.engine(rule); eng.run(f)
        cx.count('output implementations')
        for w in sorted(set(rule.found)):
            cx.bad('%s|%s' % (w, fn_key(f)), f.loc(), '%s %s' % (short(f.q), MSG[w]))


# ---- O7 -----------------------------------------------------------------------
def outputish(m):
    """a call that sends something to an output or emitter"""
    c = m.get('cls') or ''
    if (c.startswith(NS + 'Emitter') or c.endswith('EmitterImpl')) and not m.get('cm') and m.get('obj') is not None and 'Param' not in m.get('fq', ''): return True
    return any('Emitter' in t or 'EmitState' in t for t in m.get('pt', [])) and 'Create' not in m.get('fq', '') or m.get('fq', '').startswith(NS + 'Serialize')


def handlers(cx, writes, flushes, fails):
    prog = cx.prog
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line)):
        if not f.cfg or f.kind == 'dtor' or f.name.startswith('main'): continue
        hs = set(); throwers = set()
        for i, n in enumerate(f.nodes):
            if not n or n['k'] != 'CXXTryStmt': continue
            hit = False
            for j, m in f.calls(n['c'][0]):
                if outputish(m) or prim(m):
                    hit = True; throwers.add(m.get('fn'))
            if hit: hs |= {c for c in n['c'][1:]}
        if not hs: continue
        cx.count('handlers around output calls', len(hs))
        rule = Caught(cx, writes); rule.handlers = hs; rule.throwers = throwers; rule.fails = fails
        eng = cx.engine(rule); eng.run(f)
        for k, (w, m) in rule.found.items():
            if k.startswith('swallow'): cx.bad(k, w, m)


# ---- O8 -----------------------------------------------------------------------
def loops(cx):
    for f in sorted(cx.prog.funcs.values(), key=lambda f: (f.file, f.line)):
        if not f.cfg or not f.file.startswith('/') or '/usr/' in f.file: continue
        for i, n in enumerate(f.nodes):
            if not n or n['k'] not in ('WhileStmt', 'ForStmt', 'DoStmt'): continue
            cond = n.get('cond')
            if cond is None or cond < 0: continue
            cx.count('loops examined')
            body = [x for x in f.walk(i) if not (n.get('init') is not None and x in set(f.walk(n['init'])))]
            if any(f.nodes[x]['k'] in ('BreakStmt', 'ReturnStmt', 'GotoStmt', 'CXXThrowExpr') for x in body): continue
            c = f.nodes[f.strip(cond)]
            if c['k'] != 'BinaryOperator' or c['op'] not in ('<', '>', '<=', '>=', '!='): continue
            atoms = set(); simple = True
            for x in f.walk(f.strip(cond)):
                m = f.nodes[x]
                if 'args' in m or m['k'] in ('MemberExpr', 'ArraySubscriptExpr') or (m['k'] == 'UnaryOperator' and m['op'] not in ('-', '+', '!')): simple = False
                if m['k'] == 'DeclRefExpr' and m.get('dk') in ('Var', 'ParmVar'): atoms.add(m['d'])
            if not simple:
                # members or calls on one side: only judge the plain counter on the other
                sides = [f.nodes[f.strip(s)] for s in c['c']]
                pl = [s for s in sides if s['k'] == 'DeclRefExpr' and s.get('dk') in ('Var', 'ParmVar')]
                if len(pl) != 1: continue
                side = [k for k, s in enumerate(c['c']) if f.nodes[f.strip(s)] is pl[0]][0]
                moves = moved(f, body, pl[0]['d'])
                if moves is None: continue
                # body may change the other side: any call or member write in the loop
                if any('args' in f.nodes[x] and not f.nodes[x].get('cm') and x not in set(f.walk(cond)) or (f.nodes[x]['k'] in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and f.nodes[x].get('op', '').strip('post') in ('=', '+=', '-=', '++', '--') and f.nodes[f.strip(f.nodes[x]['c'][0])]['k'] != 'DeclRefExpr') for x in body): continue
                want = {'<': 1, '<=': 1, '>': -1, '>=': -1}.get(c['op'])
                if want is None: 
                    if not moves: cx.bad('loop|%s' % fn_key(f), f.loc(i), '%s: nothing in the loop changes its condition' % short(f.q))
                    continue
                if side == 1: want = -want
                if want not in moves: cx.bad('loop|%s' % fn_key(f), f.loc(i), '%s: nothing in the loop moves %s towards its bound' % (short(f.q), pl[0]['dn']))
                continue
            mv = {a: moved(f, body, a) for a in atoms}
            if any(v is None for v in mv.values()): continue
            if not any(mv.values()):
                cx.bad('loop|%s' % fn_key(f), f.loc(i), '%s: nothing in the loop changes its condition' % short(f.q)); continue
            if c['op'] == '!=': continue
            d = ladd(rawlin(f, c['c'][0]), rawlin(f, c['c'][1]), -1)
            if c['op'] in ('>', '>='): d = lneg(d)
            # loop while d < 0: d must be able to grow
            if not any((v > 0) == (s > 0) for a, ms in mv.items() for s in ms for v in [d.get(a, 0)] if v):
                cx.bad('loop|%s' % fn_key(f), f.loc(i), '%s: the loop only moves away from its bound' % short(f.q))


def rawlin(f, i):
    i = f.strip(i); n = f.nodes[i]
    if n['k'] == 'DeclRefExpr' and n.get('dk') in ('Var', 'ParmVar'): return {n['d']: 1}
    if n['k'] == 'BinaryOperator' and n['op'] in '+-': return ladd(rawlin(f, n['c'][0]), rawlin(f, n['c'][1]), 1 if n['op'] == '+' else -1)
    return lin(f, i)


def moved(f, body, key):
    """directions in which the loop moves a variable; None when unknown"""
    out = set()
    for x in body:
        n = f.nodes[x]
        if n['k'] == 'UnaryOperator' and n['op'] in ('++', 'post++', '--', 'post--', '&'):
            l = f.nodes[f.strip(n['c'][0])]
            if l['k'] == 'DeclRefExpr' and l['d'] == key:
                if n['op'] == '&': return None
                out.add(1 if '+' in n['op'] else -1)
        elif n['k'] in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            l = f.nodes[f.strip(n['c'][0])]
            if l['k'] == 'DeclRefExpr' and l['d'] == key:
                if n['op'] not in ('+=', '-='): return None
                v = f.nodes[f.strip(n['c'][1])]
                s = 1 if n['op'] == '+=' else -1
                if v.get('cv') is not None and int(v['cv']) < 0: s = -s
                elif v.get('cv') is None and not v['t'].startswith('unsigned') and v['t'] != 'bool': return None
                out.add(s)
        elif 'args' in n and n.get('pt'):
            for a, t in zip(n['args'], n['pt']):
                if t.endswith('&') and not t.startswith('const'):
                    l = f.nodes[f.strip(a)]
                    if l['k'] == 'DeclRefExpr' and l['d'] == key: return None
            if n.get('oop') or n.get('obj') is not None:
                o = n.get('obj')
                if o is not None and o >= 0:
                    l = f.nodes[f.strip(o)]
                    if l['k'] == 'DeclRefExpr' and l['d'] == key and not n.get('cm'): return None
        elif n['k'] == 'LambdaExpr': return None
    return out
