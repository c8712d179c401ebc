import re
from checks.common import *
from interp import *
from linear import lin, comb
from interval import World, Ranges, CT, INF, isint, trange

EXPLAIN = ('The range of every index into an array of constant size is computed over the control-flow graph (branches, switch labels, table contents, sentinel entries, arguments of helpers over all their call sites) and has to lie inside the array. '
           'The argument of every character classification function has to lie in what those functions accept. For the two growing buffers of the JSON parser the distance between fill level and capacity is followed through every operation: '
           'a write needs room, growing allocates what the new capacity says, and every way out leaves room. Every memory copy into a buffer is covered by a branch that compares its length with the room left.')
TECH = 'interval analysis and difference bounds over the control-flow graphs'
NOTE = 'All subscripts of constant-size arrays, all ctype calls, all memory copies of the built units.'
RULE = ('T1 index range inside the array; T2 ctype argument in [-1, 255]; T3 copy length not above the room left; T4 a write into a growing buffer has room; T5 a growing buffer is as large as its capacity says; T6 a buffer for Base64 text or data is as large as the conversion needs; T7 a block pieces are copied into is as large as their sum.')

COPY = {'memcpy': (0, 2), 'memmove': (0, 2), 'memset': (0, 2), 'strncpy': (0, 2), 'snprintf': (0, 1), 'vsnprintf': (0, 1), 'bcopy': (1, 2)}
BLIND = ('strcpy', 'strcat', 'sprintf', 'vsprintf', 'gets', 'stpcpy')

# growing buffers: class, pointer, fill level, capacity, another bound the capacity is created with
GROW = [('JSON_parser_struct', 'parse_buffer', 'parse_buffer_count', 'parse_buffer_capacity', None),
        ('JSON_parser_struct', 'stack', 'top', 'stack_capacity', 'depth')]


def dims(t):
    return [int(x) for x in re.findall(r'\[(\d+)\]', t or '')]


class Room(Ranges):
    """lower bound of (capacity - level) of the growing buffers"""
    limit = 400
    def __init__(self, w, f, start, out):
        Ranges.__init__(self, w, f)
        self.start = start; self.out = out; self.exits = []; self.depth = 0
        self.void = False
    def entry(self): return dict(self.start)
    def joinenv(self, a, b):
        o = Ranges.joinenv(self, {k: v for k, v in a.items() if k[:2] not in TAGS}, {k: v for k, v in b.items() if k[:2] not in TAGS})
        o.update({k: v for k, v in a.items() if k[:2] in TAGS and b.get(k) == v})
        return o
    def widen(self, a, b):
        o = Ranges.widen(self, {k: v for k, v in a.items() if k[:2] not in TAGS}, {k: v for k, v in b.items() if k[:2] not in TAGS})
        o.update({k: v for k, v in a.items() if k[:2] in TAGS and b.get(k) == v})
        return o
    def assume(self, env, i, val):
        j = self.f.strip(i)
        if val and 'A:%d' % j in env:
            env = dict(env)
            env.update(dict(env['A:%d' % j]))
        return Ranges.assume(self, env, i, val)
    def fld(self, i):
        n = self.f.nodes[self.f.strip(i)]
        if n['k'] == 'MemberExpr': return n['m']
        return None
    def pair(self, name, pos):
        for g in GROW:
            if g[pos] == name: return g
        return None
    def shift(self, env, g, d):
        k = 'S:' + g[2]
        v = env.get(k)
        if v is not None: env[k] = (v[0] + d, INF)
    def recompute(self, env, g):
        """both ends known exactly enough"""
        lv = [v for k, v in env.items() if k.startswith('F:') and k.endswith('.' + g[2])]
        cv = [v for k, v in env.items() if k.startswith('F:') and k.endswith('.' + g[3])]
        if lv and cv and cv[0][0] > -INF and lv[0][1] < INF:
            s = cv[0][0] - lv[0][1]
            k = 'S:' + g[2]
            env[k] = (max(s, env[k][0]) if k in env else s, INF)
    def step(self, env, i):
        f = self.f
        n = f.nodes[i]
        k = n['k']
        lhs = None; d = None
        if k == 'BinaryOperator' and n['op'] == '=': lhs = self.fld(n['c'][0])
        elif k == 'CompoundAssignOperator': lhs = self.fld(n['c'][0])
        elif k == 'UnaryOperator' and n['op'] in ('++', '--', 'post++', 'post--'): lhs = self.fld(n['c'][0])
        pre = None
        if lhs:
            g = self.pair(lhs, 2)
            if g:
                if k == 'UnaryOperator': d = 1 if '+' in n['op'] else -1
                elif k == 'CompoundAssignOperator' and n['op'] in ('+=', '-='):
                    v = self.ev(env, n['c'][1])
                    d = v[1] if n['op'] == '+=' else -v[0]
                elif k == 'BinaryOperator':
                    v = self.ev(env, n['c'][1])
                    cap = [x for y, x in env.items() if y.startswith('F:') and y.endswith('.' + g[3])]
                    if cap: env['S:' + g[2]] = (cap[0][0] - v[1], INF)
                    elif v[1] <= 0: env['S:' + g[2]] = (1 - v[1], INF)      # a capacity is at least one
                    else: env['S:' + g[2]] = (-INF, INF)
                else: d = INF
                if d is not None: self.shift(env, g, -d)
            g = self.pair(lhs, 3)
            if g:
                s = env.get('S:' + g[2])
                env['V:' + g[3]] = (f.id, i)
                if k == 'CompoundAssignOperator' and n['op'] == '*=':
                    v = self.ev(env, n['c'][1])
                    # capacity c becomes c*v: c >= 1 and level <= c
                    if v[0] >= 2 and s is not None: env['S:' + g[2]] = (s[0] + max(1, self.floor(env, g)), INF)
                    elif s is not None: env['S:' + g[2]] = (-INF, INF)
                elif k == 'CompoundAssignOperator' and n['op'] == '+=':
                    v = self.ev(env, n['c'][1])
                    if s is not None: env['S:' + g[2]] = (s[0] + v[0], INF)
                elif s is not None and k == 'BinaryOperator':
                    c = self.ev(env, n['c'][1])
                    lv = [v for y, v in env.items() if y.startswith('F:') and y.endswith('.' + g[2])]
                    env['S:' + g[2]] = (c[0] - lv[0][1] if lv else -INF, INF)
            g = self.pair(lhs, 1)
            if g and k == 'BinaryOperator':
                self.pointer(env, i, g, n['c'][1])
        # a size computed from the capacity
        if k == 'BinaryOperator' and n['op'] == '=' or k == 'DeclStmt':
            for dst, src in ([(f.nodes[f.strip(n['c'][0])].get('d'), n['c'][1])] if k == 'BinaryOperator' else [(v['d'], v['init']) for v in n['vars'] if 'init' in v]):
                if dst is None: continue
                env.pop('B:' + dst, None)
                c = self.from_cap(env, src)
                if c: env['B:' + dst] = c
        Ranges.step(self, env, i)
        if lhs and (self.pair(lhs, 2) or self.pair(lhs, 3)): self.recompute(env, self.pair(lhs, 2) or self.pair(lhs, 3))
        if k == 'ArraySubscriptExpr': self.access(env, i, n)
        if k == 'ReturnStmt' and n.get('c'):
            v = self.ev(env, n['c'][0]) if isint(f.ret, self.prog) else None
            env['R:'] = v if v is not None else (1, 1)
            j = f.strip(n['c'][0])
            if 'A:%d' % j in env: env.update(dict(env['A:%d' % j]))
    def floor(self, env, g):
        c = [v for k, v in env.items() if k.startswith('F:') and k.endswith('.' + g[3])]
        r = self.w.fields.get(g[0] + '::' + g[3])
        return max([1] + [v[0] for v in c if v[0] > 0] + ([r[0]] if r and r[0] > 0 else []))
    def from_cap(self, env, i):
        """(capacity field, its version) if the expression is capacity * size"""
        f = self.f
        for x in f.walk(i):
            n = f.nodes[x]
            if not n: continue
            if n['k'] == 'MemberExpr':
                g = self.pair(n['m'], 3)
                if g:
                    # nothing may be taken off again
                    if any(m and m['k'] == 'BinaryOperator' and m['op'] in ('-', '/', '>>', '%') for m in (f.nodes[y] for y in f.walk(i))): return None
                    return (g[3], env.get('V:' + g[3]))
            if n['k'] == 'DeclRefExpr' and 'B:' + n['d'] in env: return env['B:' + n['d']]
        return None
    def pointer(self, env, i, g, src):
        f = self.f
        s = f.nodes[f.strip(src)]
        if s['k'] == 'UnaryOperator' and s['op'] == '&' or '[' in (s.get('t') or ''):
            for x in f.walk(src):
                m = f.nodes[x]
                if m and m['k'] == 'MemberExpr' and dims(m.get('dt') or m.get('t')):
                    env['P:' + g[1]] = ('static', dims(m.get('dt') or m.get('t'))[0], i); return
        if 'args' in s and (s.get('fq') or '').split('::')[-1] in ('malloc', 'realloc', 'calloc'):
            c = None
            for a in s['args']:
                c = c or self.from_cap(env, a)
            env['P:' + g[1]] = ('alloc', c, i); return
        env['P:' + g[1]] = ('other', None, i)
    def access(self, env, i, n):
        f = self.f
        g = self.pair(self.fld(n['c'][0]) or '', 1)
        if not g: return
        ix = n['c'][1]
        s = env.get('S:' + g[2], (-INF, INF))[0]
        # level + d
        d = self.rel(ix, g[2])
        if d is None:
            v = self.ev(env, ix)
            ok = v[1] <= self.floor(env, g) - 1 and v[0] >= 0
            if v[0] == v[1] == 0: ok = True
        else:
            ok = s - d >= 1 or d < 0 and s >= 0
        self.out.append((f, i, 'T4', ok, 'the access to %s[%s] may lie outside: the room known to be left is %s' % (g[1], text(f, ix), s)))
    def rel(self, i, level):
        f = self.f
        n = f.nodes[f.strip(i)]
        if n['k'] == 'MemberExpr' and n['m'] == level: return 0
        if n['k'] == 'UnaryOperator' and n['op'] in ('++', '--', 'post++', 'post--') and self.rel(n['c'][0], level) == 0:
            return -1 if n['op'] == 'post++' else 1 if n['op'] == 'post--' else 0
        if n['k'] == 'BinaryOperator' and n['op'] in ('+', '-'):
            r = self.rel(n['c'][0], level)
            v = self.ev({}, n['c'][1])
            if r is not None and v[0] == v[1] and abs(v[0]) != INF: return r + (v[0] if n['op'] == '+' else -v[0])
        return None
    def relation(self, env, a, op, b):
        for x, o, y in ((a, op, b), (b, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op), a)):
            for g in GROW:
                d = self.rel(x, g[2])
                m = self.f.nodes[self.f.strip(y)]
                if d is None or m['k'] != 'MemberExpr': continue
                if m['m'] == g[3] or g[4] and m['m'] == g[4] and g[4] in self.w.same:
                    k = 'S:' + g[2]
                    cur = env.get(k, (-INF, INF))[0]
                    # level + d < cap
                    if o == '<': env = dict(env); env[k] = (max(cur, d + 1), INF)
                    elif o == '<=': env = dict(env); env[k] = (max(cur, d), INF)
                    elif o in ('>', '>=') : pass
        return env
    def effect(self, env, i, n):
        f = self.f
        before = dict(env)
        keep = {k: v for k, v in env.items() if k[:2] in ('S:', 'V:', 'P:', 'B:', 'W:')}
        g = self.prog.funcs.get(n.get('fn')) if not n.get('virt') else None
        Ranges.effect(self, env, i, n)
        env.update(keep)
        if g is None or not g.cfg or g.id not in self.w.touch or self.depth >= 5: return
        start = {k: v for k, v in keep.items() if k[0] in 'SVW'}
        names = {}
        for x, a in enumerate(n['args']):
            pa = self.path(a)
            if pa is not None and x < len(g.params): names[pa] = g.params[x]['n']
            if x < len(g.params) and isint(g.params[x]['t'], self.prog): start[g.params[x]['d']] = self.ev(before, a)
        for k, v in before.items():
            if k.startswith('F:'):
                b, m = k[2:].rsplit('.', 1)
                if b in names: start['F:%s.%s' % (names[b], m)] = v
        sub = Room(self.w, g, start, self.out)
        sub.depth = self.depth + 1
        sub.run()
        ex = sub.exits
        if not ex: return
        for k in {k for e in ex for k in e if k[:2] == 'S:'}:
            env[k] = (min(e.get(k, (-INF,))[0] for e in ex), INF)
        good = [e for e in ex if e.get('R:') != (0, 0)]
        if good and len(good) < len(ex):
            env['A:%d' % i] = tuple(sorted((k, (min(e.get(k, (-INF,))[0] for e in good), INF)) for k in {k for e in good for k in e if k[:2] == 'S:'}))
        for gr in GROW:
            k = 'V:' + gr[3]
            ch = [e for e in ex if e.get(k) != keep.get(k)]
            if not ch: continue
            env[k] = (g.id, i)
            # what was allocated for the new capacity has been looked at
            if all('P:' + gr[1] in e or e.get('W:' + gr[3]) == e.get(k) for e in ch): env['W:' + gr[3]] = env[k]; env.pop('P:' + gr[1], None)
        for b, q in names.items():
            for k in {k for e in ex for k in e if k.startswith('F:' + q + '.')}:
                if all(k in e for e in ex):
                    env['F:%s.%s' % (b, k.rsplit('.', 1)[1])] = (min(e[k][0] for e in ex), max(e[k][1] for e in ex))
    def leave(self, env):
        self.exits.append(env)
        f = self.f
        for g in GROW:
            p = env.get('P:' + g[1])
            v = env.get('V:' + g[3])
            if p is None:
                if v is not None and self.depth == 0 and v != env.get('W:' + g[3]):
                    self.out.append((f, v[1] if v[0] == f.id else None, 'T5', False, 'the capacity of %s changes but the buffer does not' % g[1]))
            elif p[0] == 'alloc':
                self.out.append((f, p[2], 'T5', p[1] is not None and p[1][0] == g[3] and p[1][1] == v, 'the size allocated for %s is not computed from its present capacity' % g[1]))
            elif p[0] == 'static':
                c = [x for k, x in env.items() if k.startswith('F:') and k.endswith('.' + g[3])]
                if v is not None: self.out.append((f, p[2], 'T5', bool(c) and c[0][1] <= p[1], 'the capacity of %s may exceed the %d elements of the built-in buffer' % (g[1], p[1])))


TAGS = ('P:', 'V:', 'B:', 'W:', 'A:', '=:')


def check(cx):
    p = cx.prog
    w = World(p, lambda f: is_helper(cx, f), direct_callers(cx))
    # ranges of the integer members that select table rows
    ixm = set()
    for f in p.funcs.values():
        for i, n in enumerate(f.nodes):
            if n and n['k'] == 'ArraySubscriptExpr' and dims(f.nodes[f.strip(n['c'][0])].get('dt') or f.nodes[f.strip(n['c'][0])].get('t')):
                for x in f.walk(n['c'][1]):
                    m = f.nodes[x]
                    if m and m['k'] == 'MemberExpr' and m.get('mk') == 'Field' and isint(m.get('dt') or m.get('t'), p): ixm.add(m.get('mq') or m['m'])
    for g in GROW: ixm.add(g[0] + '::' + g[3])
    def fields_in(f, i):
        for x in f.walk(i):
            m = f.nodes[x]
            if m and m['k'] == 'MemberExpr' and m.get('mk') == 'Field' and isint(m.get('dt') or m.get('t'), p): yield m.get('mq') or m['m']
    def writers(q):
        for f in p.funcs.values():
            if not f.cfg: continue
            for i, n in enumerate(f.nodes):
                if not n: continue
                t = None
                if n['k'] in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='): t = n['c'][0]
                elif n['k'] == 'UnaryOperator' and n['op'] in ('++', '--', 'post++', 'post--', '&'): t = n['c'][0]
                if t is None: continue
                m = f.nodes[f.strip(t)]
                if m['k'] == 'MemberExpr' and (m.get('mq') or m['m']) == q: yield f, i, n
    ws = {}
    todo = set(ixm)
    while todo:
        q = todo.pop()
        ws[q] = list(writers(q))
        if any(n['k'] != 'BinaryOperator' for f, i, n in ws[q]): continue
        # members they are copied from
        for f, i, n in ws[q]: todo |= {x for x in fields_in(f, n['c'][1]) if x not in ws}
    caps = {g[0] + '::' + g[3] for g in GROW}
    for q in sorted(ws):
        if q in caps:
            # only ever grows from the values it is given
            v = [int(f.nodes[n['c'][1]].get('cv', 1)) for f, i, n in ws[q] if n['k'] == 'BinaryOperator']
            if v: w.fields[q] = (min(v), INF)
        elif all(n['k'] == 'BinaryOperator' for f, i, n in ws[q]) and ws[q]: w.fields[q] = (0, 0)
    fix = sorted(q for q in ws if w.fields.get(q) == (0, 0) and q not in caps)
    rounds = 0
    while fix:
        new = {}
        for f in sorted({f.id for q in fix for f, i, n in ws[q]}):
            a = Assigned(w, p.funcs[f], {i: q for q in fix for g, i, n in ws[q] if g.id == f})
            a.run()
            for q, v in a.value.items(): new[q] = v if q not in new else (min(v[0], new[q][0]), max(v[1], new[q][1]))
        grown = False
        for q in fix:
            v = new.get(q, w.fields[q])
            r = (min(v[0], w.fields[q][0]), max(v[1], w.fields[q][1]))
            grown |= r != w.fields[q]
            w.fields[q] = r
        if not grown: break
        w.done.clear(); w.ret.clear(); w.par.clear()
        rounds += 1
        if rounds > 60:
            for q in fix: w.fields.pop(q)
            break
    w.done.clear(); w.ret.clear(); w.par.clear()

    # T1, T2
    arr = ct = copies = 0
    seen = {}
    for f in sorted(p.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        if not f.cfg: continue
        subs = [(i, n) for i, n in enumerate(f.nodes) if n and n['k'] == 'ArraySubscriptExpr']
        want = []
        for i, n in subs:
            b = f.nodes[f.strip(n['c'][0])]
            t = b.get('dt') if b['k'] in ('DeclRefExpr', 'MemberExpr') else b.get('t')
            ds = dims(t)
            if not ds or (t or '').rstrip().endswith('*') or re.search(r'\(\*', t or ''): continue
            want.append((i, n, ds[0], b.get('dn') or b.get('m') or 'table'))
        cts = [(i, n) for i, n in f.calls() if n.get('sys') and (n.get('fq') or '').split('::')[-1] in CT and len(n['args']) == 1 and not (n.get('fq') or '').startswith('std::ctype')]
        if not want and not cts: continue
        a = w.analyse(f)
        for i, n, size, name in want:
            arr += 1
            v = a.at.get(i, {}).get('ix')
            if v is None:
                if i in a.reached: cx.bad('%s:%s:T1' % (fn_key(f), name), f.loc(i), 'T1: nothing is known about the index into %s' % name)
                continue
            # one past the end is an address, not an access
            par = f.nodes[f.par[i]] if i in f.par else None
            lim = size if par is not None and par['k'] == 'UnaryOperator' and par['op'] == '&' else size - 1
            if v[0] < 0 or v[1] > lim:
                cx.bad('%s:%s:T1' % (fn_key(f), name), f.loc(i), 'T1: the index %s into %s can be anything from %s to %s, it has %d elements' % (text(f, n['c'][1]), name, v[0], v[1], size))
        for i, n in cts:
            ct += 1
            v = a.at.get(i, {}).get(('arg', 0))
            if v is None: continue
            if v[0] < -1 or v[1] > 255:
                cx.bad('%s:%s:T2' % (fn_key(f), (n.get('fq') or '').split('::')[-1]), f.loc(i), 'T2: %s is given %s, which ranges from %s to %s; only unsigned char values and EOF are allowed' % ((n.get('fq') or '').split('::')[-1], text(f, n['args'][0]), v[0], v[1]))
    cx.need([1] * arr, 'subscripts of constant-size arrays', 20)
    cx.count('subscripts of constant-size arrays', arr)
    cx.count('character classifications', ct)

    # T4, T5
    names = {g[i] for g in GROW for i in (1, 2, 3)}
    w.touch = set()
    for f in p.funcs.values():
        if not f.cfg: continue
        for n in f.nodes:
            if n and n['k'] == 'MemberExpr' and n['m'] in names and (n.get('mq') or '').startswith('JSON_parser_struct'): w.touch.add(f.id); break
    cx.need(w.touch, 'functions working on the JSON parser buffers', 3)
    # the other bound is as large as the capacity where they are set
    w.same = set()
    for g in GROW:
        if not g[4]: continue
        ok = True
        for f, i, n in writers(g[0] + '::' + g[4]):
            if n['k'] != 'BinaryOperator': ok = False; continue
            x = f.nodes[n['c'][1]]
            if 'cv' in x and int(x['cv']) < 0: continue
            blk = [b for b in f.blocks.values() if i in [e for e in b['e'] if not isinstance(e, dict)]]
            caps = [f.nodes[e]['c'][1] for b in blk for e in b['e'] if not isinstance(e, dict) and f.nodes[e]['k'] == 'BinaryOperator' and f.nodes[e]['op'] == '=' and f.nodes[f.strip(f.nodes[e]['c'][0])].get('m') == g[3]]
            if not caps or text(f, f.strip(caps[-1])) != text(f, f.strip(n['c'][1])):
                ok = False
                cx.bad('%s:%s:T5' % (fn_key(f), g[4]), f.loc(i), 'T5: %s is set without giving %s the same value' % (g[4], g[3]))
        if ok: w.same.add(g[4])
    rooms = 0
    dc = direct_callers(cx)
    for fid in sorted(w.touch):
        f = p.funcs[fid]
        if is_helper(cx, f) and dc.get(fid, set()) <= w.touch | set(p.funcs) and dc.get(fid): 
            if all(c in w.touch or True for c in dc[fid]) and f.file.startswith('lib/'): continue
        out = []
        creates = any(n and n['k'] == 'BinaryOperator' and n['op'] == '=' and f.nodes[f.strip(n['c'][0])].get('m') in {g[3] for g in GROW} for n in f.nodes)
        start = {} if creates else {'S:' + g[2]: (1, INF) for g in GROW}
        r = Room(w, f, start, out)
        r.run()
        for g0, i, rule, ok, msg in out:
            rooms += 1
            if not ok: cx.bad('%s:%s:%s' % (fn_key(g0), rule, msg.split('[')[0][-40:]), g0.loc(i) if i is not None else '%s:%d' % (g0.file, g0.line), rule + ': ' + msg)
        for e in r.exits:
            rv = e.get('R:')
            if rv == (0, 0): continue                # gave up
            for g in GROW:
                s = e.get('S:' + g[2])
                if s is not None and s[0] < 1: cx.bad('%s:T4:exit:%s' % (fn_key(f), g[2]), '%s:%d' % (f.file, f.line), 'T4: the function can return with no room left in %s' % g[1])
    cx.count('accesses and allocations of growing buffers', rooms)
    cx.need([1] * rooms, 'accesses to the growing buffers', 10)

    # T3
    rule = Copies(cx)
    todo = [f for f in sorted(p.funcs.values(), key=lambda f: (f.file, f.line, f.id)) if f.cfg and any(n.get('sys') and (n.get('fq') or '').split('::')[-1] in COPY or n.get('sys') and (n.get('fq') or '').split('::')[-1] in BLIND for _, n in f.calls())]
    ints = {}
    def own_ints(cls):
        """integer members only the class itself writes"""
        if cls not in ints:
            ms, other = set(), set()
            for f in p.funcs.values():
                for i, n in enumerate(f.nodes):
                    if n and n['k'] == 'MemberExpr' and n.get('mk') == 'Field' and isint(n.get('dt') or n.get('t'), p):
                        if n.get('mq', '').startswith(cls + '::'): (ms if f.cls == cls else other).add(n['m'])
            ints[cls] = ms - other
        return ints[cls]
    def judge(f, target, depth):
        """what is wrong with the copies of target, seen from f"""
        rule.found = {}; rule.target = target
        t = p.funcs[target]
        rule.keep = tuple(m for m in own_ints(t.cls)) if t.cls else ()
        eng = cx.engine(rule)
        eng.run(f)
        cx.finish_engine(eng, 'copies')
        found = dict(rule.found)
        # a helper is right if all its callers use it rightly
        if found and depth < 3 and is_helper(cx, f) and dc.get(f.id):
            up = {}
            for c in sorted(dc[f.id]):
                rule.hit = False
                r = judge(p.funcs[c], target, depth + 1)
                if not rule.hit: return found
                up.update(r)
            rule.hit = True
            return up
        return found
    for f in todo:
        for k, (where, msg) in sorted(judge(f, f.id, 0).items()): cx.bad(k, where, msg)
    cx.count('memory copies judged', len(rule.sites))
    for s in sorted(rule.sites)[:8]: cx.sample('copy at ' + s)
    made(cx)


# ---- buffers made for what is written into them ------------------------------
class Made(Rule):
    """Base64 text and data go into buffers made with the size they need"""
    max_states = 60
    max_steps = 30000
    inline_depth = 3
    def __init__(self, cx): self.cx = cx; self.found = {}; self.sites = set()
    def inline(self, eng, st, fr, nid, n, g):
        if g.name in ('Base64EncodeSize', 'Base64DecodeSize'): return True
        return is_helper(self.cx, g) and g.file == eng.root_func.file and not g.name.startswith('Base64')
    def made(self, st, what, size):
        st.drop(lambda x: x[0] == 'room' and x[1] is what)
        st.add(('room', what, size))
    def declare(self, eng, st, fr, v, loc, val):
        if not re.match(r'(const )?std::(vector<(unsigned |signed )?char|unique_ptr<(unsigned )?char\[\]|(__cxx11::)?basic_string|string)', v['t']) or 'init' not in v: return
        for x in fr.f.walk(v['init']):
            m = fr.f.nodes[x]
            if m and 'args' in m and m['args'] and isint(fr.f.nodes[fr.f.strip(m['args'][0])].get('t'), self.cx.prog):
                self.made(st, loc, eng.ev(st, fr, m['args'][0]))
                return
    pend = None
    def elem(self, eng, st, fr, nid, n):
        # sizes are followed through += and the like
        self.pend = None
        if n['k'] == 'CompoundAssignOperator' and n['op'] in ('+=', '-=', '*=', '/=') and not any(m and m['k'] in ('ForStmt', 'WhileStmt', 'DoStmt') for m in fr.f.nodes):
            self.pend = (fr.uid, nid, T(n['op'][0], eng.value_of(st, eng.lv(st, fr, n['c'][0])), eng.ev(st, fr, n['c'][1])))
    def assign(self, eng, st, fr, nid, loc, val):
        if self.pend and self.pend[:2] == (fr.uid, nid): return self.pend[2]
    def call(self, eng, st, fr, nid, n, obj, args):
        nm = (n.get('fq') or '').split('::')[-1]
        if nm in ('resize', 'assign') and obj is not None and args and n.get('sys'): self.made(st, obj, eng.value_of(st, args[0]))
        if nm in ('Base64Encode', 'Base64Decode'): self.judge(eng, st, fr, nid, n, nm, args)
    def after(self, eng, st, fr, nid, n, obj, args, res):
        nm = (n.get('fq') or '').split('::')[-1]
        t = T('block', fr.uid, nid)
        if nm == 'posix_memalign' and len(args) == 3:
            l = args[0].a[0] if args[0].k == '&' else deref(args[0])
            eng.forget(st, t)
            st.mem[l] = t
            self.made(st, t, eng.value_of(st, args[2]))
        elif nm == 'malloc' and args:
            eng.forget(st, t)
            st.res[(fr.uid, nid)] = t
            self.made(st, t, eng.value_of(st, args[0]))
    def judge(self, eng, st, fr, nid, n, nm, args):
        f = fr.f
        d = eng.value_of(st, args[0])
        r = d if d.k == 'block' else root(d)
        size = next((x[2] for x in st.facts if x[0] == 'room' and (x[1] is r or x[1] is d or mentions(d, lambda y: y is x[1], {}))), None)
        if size is None: return
        self.sites.add(f.loc(nid))
        if nm == 'Base64Decode': total = eng.value_of(st, args[2]); cpl = 0
        else:
            if len(args) < 4 or args[3].k != 'i': return
            cpl = args[3].a[0]
            pt = n.get('pt') or []
            total = None if 'iovec' in pt[1] else eng.value_of(st, args[2])
        leaf = self.leaves(size)
        step = cpl // 4
        def need(t):
            if nm == 'Base64Decode': return t // 4 * 3 + max(0, t % 4 - 1)
            return (t + 2) // 3 * 4 + (t // 3 // step if cpl and step else 0) + (1 if cpl else 0) + 1
        key = '%s:T6:%s' % (fn_key(f), nm)
        if len(leaf) != 1:
            if any(x.k in ('hv', 'upd', 'deep', 'old') for x in leaf): return
            # made for one length in particular
            for c, v in st.conds.items():
                x = c if not v else next((y for y in c.a if isinstance(y, Term) and y.k != 'i'), None) if c.k == '==' else None
                k = 0 if not v else next((y.a[0] for y in c.a if isinstance(y, Term) and y.k == 'i'), None) if c.k == '==' else None
                if x is None or k is None or not leaf <= {x}: continue
                if (x is total or total is None and x.k in ('call', 'vcall') and x.a[0].split('::')[-1] == 'GetTotalLength') and size.k == 'i' and size.a[0] >= need(k): return
            self.found[key] = (f.loc(nid), 'T6: %s writes into a buffer of %s bytes, which does not depend on how much is written' % (nm, tstr(size)))
            return
        L = leaf.pop()
        less = 0
        if total is None:
            # the pieces of one blob: its total length
            if L.k in ('call', 'vcall') and L.a[0].split('::')[-1] == 'GetTotalLength': pass
            elif L.k in ('hv', 'upd', 'old', 'deep'): return
            else:
                self.found[key] = (f.loc(nid), 'T6: %s writes all pieces of a blob into a buffer sized by %s, not by their total length' % (nm, tstr(L)))
                return
        else:
            c = comb({L: 1}, lin(total), -1)
            if any(k is not None for k in c):
                self.found[key] = (f.loc(nid), 'T6: %s converts %s bytes into a buffer sized by %s' % (nm, tstr(total), tstr(L)))
                return
            less = c.get(None, 0)
        P = 12 * max(cpl, 1) * max(step, 1)
        more = need(P) - need(0)
        for t in range(P):
            # the length is P*q + t for some q
            try: a, b = self.form(size, L, P, t + less)
            except ValueError: return
            if a < more or b < need(t):
                self.found[key] = (f.loc(nid), 'T6: for %d bytes%s %s needs %d bytes of room, the buffer has %d' % (t, '' if a >= more else ' (and more)', nm, need(t), b))
                return
    def leaves(self, t):
        if t.k == 'i': return set()
        if t.k in ('+', '-', '*', '/', '<<', '>>', 'max', 'cast') and all(isinstance(x, Term) for x in t.a) and len(t.a) == 2: return self.leaves(t.a[0]) | self.leaves(t.a[1])
        return {t}
    def form(self, t, L, P, v):
        """t as a*q + b, where L is P*q + v"""
        if t is L: return P, v
        if t.k == 'i': return 0, t.a[0]
        if len(t.a) != 2: raise ValueError
        (a, b), (c, d) = self.form(t.a[0], L, P, v), self.form(t.a[1], L, P, v)
        if t.k == '+': return a + c, b + d
        if t.k == '-': return a - c, b - d
        if t.k == '*':
            if a and c: raise ValueError
            return (a * d, b * d) if not c else (c * b, d * b)
        if t.k == '/' and not c and d > 0 and a % d == 0: return a // d, b // d
        if t.k == '<<' and not c: return a << d, b << d
        if t.k == '>>' and not c and a % (1 << d) == 0: return a >> d, b >> d
        raise ValueError


def made(cx):
    p = cx.prog
    rule = Made(cx)
    eng = cx.engine(rule)
    for f in sorted(p.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        if f.cfg and not f.name.startswith('Base64') and any((n.get('fq') or '').split('::')[-1] in ('Base64Encode', 'Base64Decode') for _, n in f.calls()): eng.run(f)
    cx.finish_engine(eng, 'Base64 buffers')
    for k, (where, msg) in sorted(rule.found.items()): cx.bad(k, where, msg)
    cx.count('Base64 conversions into buffers', len(rule.sites))
    # pieces put together in a loop: the block is as large as all of them
    pieces = 0
    for f in sorted(p.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        if not f.cfg: continue
        blocks = {}
        for i, n in f.calls():
            nm = (n.get('fq') or '').split('::')[-1]
            if nm == 'posix_memalign' and len(n['args']) == 3:
                v = [f.nodes[x].get('d') for x in f.walk(n['args'][0]) if f.nodes[x] and f.nodes[x]['k'] == 'DeclRefExpr']
                if v: blocks[v[0]] = n['args'][2]
            elif nm == 'malloc' and n['args']:
                for a in f.ancestors(i):
                    m = f.nodes[a]
                    if m['k'] == 'BinaryOperator' and m['op'] == '=': blocks[f.nodes[f.strip(m['c'][0])].get('d')] = n['args'][0]; break
                    if m['k'] == 'DeclStmt': blocks[m['vars'][0]['d']] = n['args'][0]; break
        if not blocks: continue
        for i, n in f.calls():
            nm = (n.get('fq') or '').split('::')[-1]
            if nm not in ('memcpy', 'memmove'): continue
            d = [f.nodes[x].get('d') for x in f.walk(n['args'][0]) if f.nodes[x] and f.nodes[x]['k'] == 'DeclRefExpr']
            d = [x for x in d if x in blocks]
            if not d: continue
            loop = next((a for a in f.ancestors(i) if f.nodes[a]['k'] in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt')), None)
            size = f.strip(blocks[d[0]])
            if loop is None: continue
            pieces += 1
            if any(m and (m['k'].endswith('CallExpr')) and not (m.get('fq') or '').split('::')[-1] in ('max',) for m in (f.nodes[x] for x in f.walk(size))): continue
            vs = {f.nodes[x]['d'] for x in f.walk(size) if f.nodes[x] and f.nodes[x]['k'] == 'DeclRefExpr'}
            grown = [(j, m) for j, m in enumerate(f.nodes) if m and m['k'] in ('CompoundAssignOperator', 'BinaryOperator') and m['op'] in ('+=', '=') and f.nodes[f.strip(m['c'][0])].get('d') in vs]
            given = [v['init'] for m in f.nodes if m and m['k'] == 'DeclStmt' for v in m['vars'] if v['d'] in vs and 'init' in v]
            if any(f.nodes[x] and f.nodes[x]['k'].endswith('CallExpr') for g in given + [m['c'][1] for _, m in grown] for x in f.walk(g)): continue
            key = '%s:T7:%s' % (fn_key(f), nm)
            sums = [(j, next((a for a in f.ancestors(j) if f.nodes[a]['k'] in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt')), None)) for j, m in grown]
            sums = [(j, a) for j, a in sums if a is not None]
            if not sums:
                cx.bad(key, f.loc(i), 'T7: pieces are copied in a loop into a block of %s bytes, which is not the sum of the pieces' % text(f, size))
                continue
            if f.nodes[loop]['k'] == 'ForStmt' and all(f.nodes[a]['k'] == 'ForStmt' for _, a in sums) and not any(bounds(f, a) == bounds(f, loop) for _, a in sums):
                cx.bad(key, f.loc(i), 'T7: the lengths of the pieces are added up over other pieces than those copied')
    cx.count('loops copying pieces into a block', pieces)


def bounds(f, loop):
    """start and limit of a counting loop, whatever its counter is called"""
    n = f.nodes[loop]
    out = set()
    var = None
    for x in n['c']:
        m = f.nodes[x] if x is not None and x >= 0 else None
        if m and m['k'] == 'DeclStmt' and m['vars']:
            var = m['vars'][0]['d']
            out.add(('from', text(f, f.strip(m['vars'][0]['init'])) if 'init' in m['vars'][0] else ''))
        if m and m['k'] == 'BinaryOperator' and m['op'] in ('<', '!=', '>', '<=', '>='):
            a, b = f.strip(m['c'][0]), f.strip(m['c'][1])
            if f.nodes[b].get('d') == var and var: a, b = b, a
            out.add(('to', '<=' if '=' in m['op'] and m['op'] != '!=' else '<', text(f, b), '' if f.nodes[a].get('d') == var else text(f, a)))
    return out


class Assigned(Ranges):
    """the values given to members"""
    def __init__(self, w, f, at): Ranges.__init__(self, w, f); self.sites = at; self.value = {}
    def step(self, env, i):
        if i in self.sites:
            q = self.sites[i]
            v = self.ev(env, self.f.nodes[i]['c'][1])
            self.value[q] = v if q not in self.value else (min(v[0], self.value[q][0]), max(v[1], self.value[q][1]))
        Ranges.step(self, env, i)


# buffers whose size another expression gives: (function or class, how)
class Copies(Rule):
    max_states = 40
    inline_depth = 3
    max_steps = 20000
    apart = deref(THIS)
    def __init__(self, cx): self.cx = cx; self.found = {}; self.sites = set(); self.target = None
    def devirt(self, eng, st, fr, nid, n, obj):
        if obj is deref(THIS):
            ts = [t for t in self.cx.prog.targets(n) if t in self.cx.prog.funcs and self.cx.prog.funcs[t].cls == fr.f.cls]
            if len(ts) == 1: return ts[0]
        return None
    def inline(self, eng, st, fr, nid, n, g): return g.id == self.target or g.file == fr.f.file and (g.cls == fr.f.cls or not g.cls) and len(g.nodes) < 200
    def call(self, eng, st, fr, nid, n, obj, args):
        if not n.get('sys') or fr.f.id != self.target: return
        self.hit = True
        nm = (n.get('fq') or '').split('::')[-1]
        f = fr.f
        if nm in BLIND:
            self.sites.add(f.loc(nid))
            if nm in ('strcpy', 'stpcpy'):
                # a variable-length array made for this very string
                d = f.nodes[f.strip(n['args'][0])]
                t = d.get('dt') or ''
                if d['k'] == 'DeclRefExpr' and '[' in t and not dims(t):
                    # made for the string: its length and the terminator
                    if re.search(r'\[\w+\]$', t) or re.search(r'(size|length|strlen)\(.*\) \+ [1-9]|\[[1-9]\d* \+ .*(size|length|strlen)\(', t): return
                    self.bad(fr, nid, nm, '%s copies into %s: there is no room for the terminator' % (nm, t))
                    return
            self.bad(fr, nid, nm, '%s copies without a limit' % nm)
            return
        if nm not in COPY: return
        di, li = COPY[nm]
        if len(args) <= max(di, li): return
        dst, ln = args[di], args[li]
        self.sites.add(f.loc(nid))
        cap = self.capacity(st, fr, n['args'][di], dst)
        if cap is None: return
        size, off, what = cap
        if self.proved(st, size, off, ln): return

        self.bad(fr, nid, nm, '%s writes %s bytes at offset %s of %s, which has room for %s: no branch compares them' % (nm, tstr(ln), tstr(off), what, tstr(size)))
    def bad(self, fr, nid, nm, msg):
        self.found['%s:%s:T3' % (fn_key(fr.f), nm)] = (fr.f.loc(nid), 'T3: ' + msg)
    def capacity(self, st, fr, nid, dst):
        """(size, offset, name) of the buffer written to, None where it is made for the copy"""
        f = fr.f
        off = ZERO
        d = dst
        if d.k == '+': d, off = d.a[0], d.a[1]
        if d.k == '&' and d.a[0].k == 'idx':
            off = d.a[0].a[1]; d = d.a[0].a[0]
            if d.k == '&': d = d.a[0]
        # arrays of constant size
        for x in f.walk(nid):
            m = f.nodes[x]
            if m and m['k'] in ('DeclRefExpr', 'MemberExpr'):
                t = m.get('dt') or m.get('t') or ''
                ds = dims(t)
                if ds and not t.rstrip().endswith('*'):
                    e = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'int': 4, 'unsigned int': 4}.get(re.sub(r'(const |\[.*)', '', t).strip())
                    if e: return I(ds[0] * e), off, m.get('dn') or m.get('m')
                if t.startswith('std::vector<') and m['k'] == 'MemberExpr':
                    s = self.resized(m['mq'] if m.get('mq') else m['m'], f)
                    if s is not None: return s, off, m['m']
                if m['k'] == 'MemberExpr' and t.endswith('*'):
                    s = self.limit(f, m)
                    if s is not None: return T('fld', T('*', THIS), s) if d.k != 'fld' else T('fld', d.a[0], s), off, m['m']
        # buffer and size handed in together
        if d.k == 'p':
            i = d.a[0]
            fr0 = fr
            for j in range(i + 1, len(self.rootf(fr).params)):
                t = self.rootf(fr).params[j]['t']
                if isint(t): return T('p', j, self.rootf(fr).params[j]['n']), off, d.a[1]
        return None
    def rootf(self, fr):
        while fr.parent is not None: fr = fr.parent
        return fr.f
    def resized(self, q, f):
        """constant size a vector member is given in every constructor"""
        vals = set()
        name = q.split('::')[-1]
        for g in self.cx.prog.funcs.values():
            if g.kind != 'ctor' or g.cls != f.cls or g.implicit: continue
            got = None
            for x in g.inits:
                if x.get('m') == name:
                    for y in g.walk(x['e']):
                        n = g.nodes[y]
                        if n and 'args' in n:
                            for a in n['args']:
                                if 'cv' in g.nodes[a]: got = int(g.nodes[a]['cv']); break
                        if got is not None: break
            for nid, n in g.calls():
                if (n.get('fq') or '').split('::')[-1] in ('resize', 'assign') and 'obj' in n and g.nodes[g.strip(n['obj'])].get('m') == name and n['args'] and 'cv' in g.nodes[n['args'][0]]:
                    got = int(g.nodes[n['args'][0]]['cv'])
            vals.add(got)
        vals.discard(None) if len(vals) > 1 and False else None
        if len(vals) == 1 and None not in vals: return I(vals.pop())
        return None
    def limit(self, f, m):
        """the integer member a constructor sets next to this pointer"""
        for g in self.cx.prog.funcs.values():
            if g.kind != 'ctor' or g.cls != f.cls: continue
            pi = None
            for x in g.inits:
                if x.get('m') == m['m']:
                    for y in g.walk(x['e']):
                        n = g.nodes[y]
                        if n and n['k'] == 'DeclRefExpr' and n['d'] in g.pidx: pi = g.pidx[n['d']]
            if pi is None: continue
            for x in g.inits:
                for y in g.walk(x['e']):
                    n = g.nodes[y]
                    if n and n['k'] == 'DeclRefExpr' and n['d'] in g.pidx and g.pidx[n['d']] == pi + 1 and isint(g.params[pi + 1]['t']): return x.get('m')
        return None
    def lin(self, t):
        if t.k == 'i': return {None: t.a[0]}
        if t.k == '+':
            a, b = self.lin(t.a[0]), self.lin(t.a[1])
            return self.comb(a, b, 1)
        if t.k == '-' and len(t.a) == 2: return self.comb(self.lin(t.a[0]), self.lin(t.a[1]), -1)
        t = orig(t)
        return {t: 1}
    def comb(self, a, b, s):
        r = dict(a)
        for k, v in b.items(): r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v or k is None}
    def atoms(self, st):
        """linear forms known to be >= 0"""
        out = []
        for t, v in st.conds.items():
            if t.k == '<':
                a, b = self.lin(t.a[0]), self.lin(t.a[1])
                x = self.comb(b, a, -1) if v else self.comb(a, b, -1)
                if v: x = self.comb(x, {None: 1}, -1)
                # a sum of two unknowns may wrap around, and so may a difference
                for s in t.a:
                    if s.k == '-' and len(s.a) == 2 and s.a[1].k != 'i':
                        d = self.comb(self.lin(s.a[0]), self.lin(s.a[1]), -1)
                        if not any(self.nonneg(self.comb(d, self.sides(u, w), -1)) for u, w in st.conds.items() if u.k == '<' and not any(y.k == '-' for y in u.a)): x = None; break
                    if s.k == '+' and not any(y.k == 'i' for y in s.a):
                        if not any(self.bounded(st, y) for y in s.a): x = None; break
                if x is not None: out.append(x)
            elif t.k == '==' and v:
                x = self.comb(self.lin(t.a[0]), self.lin(t.a[1]), -1)
                out += [x, {k: -w for k, w in x.items()}]
        return out
    def sides(self, t, v):
        a, b = self.lin(t.a[0]), self.lin(t.a[1])
        return self.comb(self.comb(b, a, -1), {None: 1}, -1) if v else self.comb(a, b, -1)
    def bounded(self, st, y):
        if y.k == 'i': return True
        for t, v in st.conds.items():
            if t.k == '<' and (v and t.a[0] is y and t.a[1].k == 'i' or not v and t.a[1] is y and t.a[0].k == 'i'): return True
        return False
    def proved(self, st, size, off, ln):
        cands = [ln]
        if ln.k == 'call' and ln.a[0].split('::')[-1] == 'min': cands = [ln] + list(ln.a[2])
        cands = [st.mem.get(c, c) for c in cands] + cands
        more = []
        for c in cands:
            if c.k == '&' : more.append(c.a[0])
            if c.k == 'call' and c.a[0].split('::')[-1] == 'min': more += [st.mem.get(x, x) for x in c.a[2]] + list(c.a[2])
            if c.k == 'cond': more += [] 
        ats = self.atoms(st)
        for c in cands + more:
            need = self.comb(self.comb(self.lin(size), self.lin(off), -1), self.lin(c), -1)
            if self.nonneg(need): return True
            for x in ats:
                if self.nonneg(self.comb(need, x, -1)): return True
            for x in ats:
                for y in ats:
                    if self.nonneg(self.comb(self.comb(need, x, -1), y, -1)): return True
        return False
    def nonneg(self, l):
        return all(k is None and v >= 0 for k, v in l.items())
