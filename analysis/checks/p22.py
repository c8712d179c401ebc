from checks.common import *
from interp import Rule, T, I, ZERO, THIS, mkcmp, simp, deref, root, mentions
from throws import Throws
import facts, os, subprocess, tempfile

EXPLAIN = ('The call graph of schema validation and default filling is searched for cycles in which a schema reference is resolved, because only those can follow a schema back into itself. '
           'Each call on such a cycle is classified by what it does to the nesting counter (a parameter, or a field of the context handed down): strictly larger and bounded by a constant, unchanged, or lost. '
           'No call may lose the counter, the calls that leave it unchanged may not form a cycle, exceeding the bound must raise an exception that no handler inside the cycle swallows, and the bound times the stack frames of the cycle must fit a default stack.')
TECH = 'size-change analysis of the recursive call cycles with constant bound'
NOTE = 'Recursion over the nesting of the document text itself (not through references) is bounded by the document and not constrained.'
RULE = 'R1 every reference-resolving cycle has a counter carried by each call and raised under a constant bound; R2 exceeding it throws; R3 the exception leaves the cycle; R4 bound x frames fits the stack; R5 no loop follows references without a bound.'
ASSUME = ['8 MiB of stack, the default on the supported systems', 'user-supplied schema loaders and missing-schema handlers terminate', 'frame sizes are those the compiler reports for an unoptimised build']

RESOLVE = 'libvariant::SchemaLoader::GetSchema'
STACK = 8 << 20
INTS = ('unsigned int', 'int', 'unsigned long', 'long', 'unsigned short', 'short', 'unsigned char', 'size_t', 'unsigned long long', 'long long')


def sccs(g):
    idx, low, on, st, out = {}, {}, set(), [], []
    for r in g:
        if r in idx: continue
        work = [(r, iter(g[r]))]
        idx[r] = low[r] = len(idx); st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx); st.append(w); on.add(w)
                    work.append((w, iter(g[w]))); break
                elif w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    if len(c) > 1 or v in g[v]: out.append(set(c))
    return out


class Depth(Rule):
    """facts: ('c', loc, delta, bounded) the counter at loc is the caller's counter plus delta"""
    inline_depth = 5
    inline_copy = True
    max_states = 24
    max_steps = 30000
    exc = False

    def __init__(self, cx, scc, slots):
        self.cx = cx; self.scc = scc; self.slots = slots    # slots: fid -> list of ('p', k) / ('f', k, field) / ('t', field)
        self.edges = {}     # (f, nid, g, slot of g) -> set of (slot of f, cls)
        self.limits = set(); self.throws = set(); self.silent = set(); self.unbal = set()

    def inline(self, eng, st, fr, nid, n, g):
        if g.id in self.scc: return False
        if nid is not None and nid >= 0 and g.kind == 'ctor':
            for a in fr.f.ancestors(nid):
                k = fr.f.nodes[a]['k']
                if k == 'CXXBindTemporaryExpr':
                    if g.cls in self.tracked_classes and not n.get('copy'): return False
                    break
                if k not in CASTS: break
        return g.id in self.touch

    # -- counter bookkeeping
    def counters(self, st): return [x for x in st.facts if x[0] == 'c']

    def assign(self, eng, st, fr, nid, loc, val):
        n = fr.f.nodes[nid] if nid is not None and nid >= 0 else None
        mine = [x for x in self.counters(st) if x[1] is loc]
        step = None
        if n is not None:
            if n['k'] == 'CompoundAssignOperator' and n['op'] in ('+=', '-='):
                c = fr.f.nodes[fr.f.strip(n['c'][1])].get('cv')
                if c is None: c = fr.f.nodes[n['c'][1]].get('cv')
                if c is not None: step = int(c) if n['op'] == '+=' else -int(c)
            elif n['k'] == 'UnaryOperator' and n['op'] in ('++', 'post++'): step = 1
            elif n['k'] == 'UnaryOperator' and n['op'] in ('--', 'post--'): step = -1
        st.drop(lambda x: x[0] == 'c' and x[1] is loc)
        if step is not None:
            for x in mine: st.add(('c', loc, x[2] + step, x[3] and abs(step) <= 16, x[4]))
            return
        for x in self.derive(eng, st, val, mine): st.add(('c', loc) + x)

    def derive(self, eng, st, val, extra=()):
        out = set()
        for x in self.counters(st) + list(extra):
            cur = eng.value_of(st, x[1])
            k = diff(val, cur)
            if k is not None: out.add((x[2] + k, x[3], x[4]))
        return out

    def declare(self, eng, st, fr, v, loc, val):
        if val is None or v['t'].replace('const ', '') not in INTS: return
        st.drop(lambda x: x[0] == 'c' and x[1] is loc)
        for x in self.derive(eng, st, val): st.add(('c', loc) + x)

    def branch(self, eng, st, fr, cond, val, term, nid):
        for x in self.counters(st):
            if x[3]: continue
            b = self.bound(st, eng.value_of(st, x[1]))
            if b is None: continue
            if b[0] == 'ok':
                st.drop(lambda y: y == x); st.add(x[:3] + (True, x[4])); self.limits.add(b[1])
            else: st.add(('over', fr.f.id, nid))

    def bound(self, st, cur):
        for c, v in st.conds.items():
            if c.k == '<' and len(c.a) == 2:
                if c.a[0].k == 'i' and c.a[0].a[0] > 0:
                    k = diff(c.a[1], cur)
                    if k is not None: return ('over' if v else 'ok', c.a[0].a[0] - k)
                elif c.a[1].k == 'i' and c.a[1].a[0] > 0:
                    k = diff(c.a[0], cur)
                    if k is not None: return ('ok' if v else 'over', c.a[1].a[0] - k)
            elif c.k == '==' and len(c.a) == 2:
                for p, q in ((0, 1), (1, 0)):
                    if c.a[p].k == 'i' and c.a[p].a[0] > 0:
                        k = diff(c.a[q], cur)
                        if k is not None: return ('over' if v else 'ok', c.a[p].a[0] - k)
        return None

    def exc_exit(self, eng, st, nid, ty):
        if any(x[0] == 'over' for x in st.facts): self.throws.add(ty)

    def exit(self, eng, st):
        over = [x for x in st.facts if x[0] == 'over']
        if over: self.silent.add((self.cur.id, over[0][1], over[0][2]))
        for s, l in self.mine:
            if s[0] == 'p': continue
            d = {x[2] for x in self.counters(st) if x[1] is l and x[4] == s}
            if d != {0}: self.unbal.add((self.cur.id, s, 'lost' if not d else 'off by %s' % min(d)))

    def call(self, eng, st, fr, nid, n, obj, args):
        for t in self.cx.prog.targets(n):
            if t not in self.scc: continue
            g = self.cx.prog.funcs[t]
            for s in self.slots.get(t, ()):
                res = set()
                if s[0] == 'p':
                    if s[1] >= len(args): continue
                    for x in self.derive(eng, st, args[s[1]]): res.add((x[2], x[0] >= 1 and x[1]))
                else:
                    if s[0] == 'f':
                        if s[1] >= len(args): continue
                        a = args[s[1]]
                        if g.params[s[1]]['t'].endswith('*'): a = deref(a)
                        l = T('fld', a, s[2])
                    else:
                        if obj is None: continue
                        l = T('fld', obj, s[1])
                    for x in self.counters(st):
                        if x[1] is l and x[2] >= 0: res.add((x[4], x[2] >= 1 and x[3]))
                    if not res:
                        for x in self.derive(eng, st, eng.value_of(st, l)):
                            if x[0] >= 0: res.add((x[2], x[0] >= 1 and x[1]))
                self.edges.setdefault((self.cur.id, fr.f.id, nid, t, s), []).append(frozenset(res))


def diff(a, b):
    """a - b when that is a known constant"""
    if a is b: return 0
    if a.k == '+' and len(a.a) == 2:
        for p, q in ((0, 1), (1, 0)):
            if a.a[p] is b and a.a[q].k == 'i': return a.a[q].a[0]
    if a.k == '-' and len(a.a) == 2 and a.a[0] is b and a.a[1].k == 'i': return -a.a[1].a[0]
    if b.k == '+' and len(b.a) == 2:
        for p, q in ((0, 1), (1, 0)):
            if b.a[p] is a and b.a[q].k == 'i': return -b.a[q].a[0]
    return None


def check(cx):
    prog = cx.prog
    api = [f for f in prog.funcs.values() if f.q in ('libvariant::SchemaValidate', 'libvariant::AddSchemaDefaults')]
    cx.need(api, 'schema entry points', 2)
    res = [f for f in prog.funcs.values() if f.q == RESOLVE]
    cx.need(res, 'reference resolution', 1)
    g = {f.id: sorted({t for i, n in f.calls() for t in prog.targets(n) if t in prog.funcs}) for f in prog.funcs.values()}
    for f in prog.funcs.values():
        for b in f.blocks.values() if f.cfg else ():
            for e in b['e']:
                if isinstance(e, dict) and e.get('fn') in prog.funcs: g[f.id].append(e['fn'])
    th = Throws(prog)
    cyc = []
    for c in sccs(g):
        if any(f in c for f in (x.id for x in res)): continue
        ref = [x for x in c if resolves(prog, g, x, c)]
        if ref: cyc.append(c)
    cx.count('reference-resolving call cycles', len(cyc))
    for c in cyc: cycle(cx, prog, th, g, c)
    # both entry points reach such a cycle, or do not resolve references at all
    for a in api:
        cx.sample('%s reaches %d cycle(s)' % (fn_key(a), sum(1 for c in cyc if reaches(g, a.id, c, set()))))
    chain(cx, prog, g, res)
    loops(cx, prog)


def chain(cx, prog, g, res):
    """looking a reference up may go on in the loader below, never again in the same one"""
    ids = {f.id for f in res}
    for c in sccs(g):
        if not c & ids: continue
        same = {x: [] for x in c}
        for x in c:
            f = prog.funcs[x]
            for i, n in f.calls():
                if n.get('obj') is None: continue
                o = f.nodes[f.strip(n['obj'])]
                cx.count('calls within a lookup', len([t for t in prog.targets(n) if t in c]))
                if o['k'] == 'CXXThisExpr': same[x] += [(t, i) for t in prog.targets(n) if t in c]
        for d in sccs({x: [t for t, _ in l] for x, l in same.items()}):
            if not d & ids: continue
            for x in sorted(d, key=str):
                for t, i in same[x]:
                    if t in d and t in ids: cx.bad('%s:R5:again' % short(prog.funcs[x].q), prog.funcs[x].loc(i), 'R5: looking up a reference starts over in the same loader, with nothing that ends it')


def resolves(prog, g, x, c):
    f = prog.funcs[x]
    seen = set(); st = [x]
    while st:
        y = st.pop()
        if y in seen: continue
        seen.add(y)
        if any(n.get('fq') == RESOLVE for i, n in prog.funcs[y].calls()): return True
        for z in g[y]:
            # helpers of the same source file
            if z not in c and z not in seen and prog.funcs[z].file == f.file: st.append(z)
    return False


def reaches(g, a, goal, skip):
    seen = set(); st = [a]
    while st:
        x = st.pop()
        if x in goal: return True
        if x in seen or x in skip: continue
        seen.add(x); st.extend(g[x])
    return False


def fields(prog, cls):
    c = prog.classes.get(cls)
    return [x['n'] for x in c['fields'] if x['t'].replace('const ', '') in INTS] if c else []


def pcls(t): return t.replace('const ', '').rstrip('&* ').strip()


def cycle(cx, prog, th, g, c):
    fs = sorted((prog.funcs[x] for x in c), key=lambda f: (f.file, f.line))
    name = ', '.join(sorted({short(f.q) for f in fs})[:4])
    cx.count('functions on these cycles', len(fs))
    slots = {}
    for f in fs:
        s = []
        for k, p in enumerate(f.params):
            if p['t'].replace('const ', '').rstrip('& ') in INTS: s.append(('p', k))
            elif p['t'].endswith(('&', '*')):
                for m in fields(prog, pcls(p['t'])): s.append(('f', k, m))
        if f.cls and not f.static:
            for m in fields(prog, f.cls): s.append(('t', m))
        slots[f.id] = s
    names = {s[-1] for l in slots.values() for s in l if s[0] != 'p'}
    classes = {pcls(p['t']) for f in fs for p in f.params} | {f.cls for f in fs if f.cls}
    # functions worth splicing in: they touch one of the candidate fields, copy such an object or throw
    touch = set()
    for f in prog.funcs.values():
        if f.id in c or not f.cfg: continue
        if any(n and n['k'] == 'MemberExpr' and n.get('m') in names for n in f.nodes) or any(i.get('m') in names for i in f.inits): touch.add(f.id)
        elif f.kind == 'ctor' and f.cls in classes: touch.add(f.id)
    for _ in range(3):
        for f in prog.funcs.values():
            if f.id in touch or f.id in c or not f.cfg or len(f.nodes) > 150: continue
            if f.file in {x.file for x in fs} and any(t in touch for t in g[f.id]): touch.add(f.id)
    tracked = {prog.funcs[t].cls for t in touch if prog.funcs[t].kind == 'ctor'}
    rule = Depth(cx, c, slots)
    rule.touch = touch; rule.tracked_classes = tracked
    eng = cx.engine(rule)
    for f in fs:
        rule.cur = f
        rule.mine = []
        def init(eng, st, f=f):
            rule.mine = []
            for s in slots[f.id]:
                l = entry_loc(f, s)
                rule.mine.append((s, l)); st.add(('c', l, 0, False, s))
        rule.init = init
        eng.run(f)
    # intersect over paths
    E = {}
    for (src, ff, nid, t, s), paths in rule.edges.items():
        both = frozenset.intersection(*[frozenset(x[0] for x in p) for p in paths])
        for a in both:
            E.setdefault((src, a), []).append(((t, s), all(any(x[0] == a and x[1] for x in p) for p in paths), ff, nid))
    calls = {}
    for (src, ff, nid, t, s), paths in rule.edges.items():
        calls.setdefault((src, ff, nid, t), {})[s] = (paths)
    allcalls = set(calls)
    for f in fs:
        for i, n in f.calls():
            for t in prog.targets(n):
                if t in c and not slots[t] : allcalls.add((f.id, f.id, i, t))
    cx.count('recursive calls', len(allcalls))
    # greatest assignment: one counter slot per function such that every call carries it
    ok = {f.id: set(slots[f.id]) for f in fs}
    carried = {}
    ch = True
    while ch:
        ch = False
        for k in allcalls:
            src, ff, nid, t = k
            for s in list(ok[t]):
                paths = calls.get(k, {}).get(s)
                if paths is None or not all(any(x[0] in ok[src] for x in p) for p in paths):
                    ok[t].discard(s); ch = True
    live = {x for x in ok if ok[x]}
    best = None
    if all(f.id in live for f in fs):
        # calls that leave the counter unchanged must be acyclic
        for pick in picks(fs, ok):
            flat = {f.id: set() for f in fs}
            where = {}
            good = True
            for k in allcalls:
                src, ff, nid, t = k
                if not all(any(x[0] == pick[src] for x in p) for p in calls[k][pick[t]]): good = False; where = ('lost', ff, nid); break
                if not all(any(x[0] == pick[src] and x[1] for x in p) for p in calls[k][pick[t]]): flat[src].add(t); where[(src, t)] = (ff, nid)
            if not good: best = best or where; continue
            cc = sccs(flat)
            if not cc: best = 'ok'; break
            x = sorted(cc[0])[0]; y = sorted(flat[x] & cc[0])[0]
            best = ('flat',) + where[(x, y)]
    if best != 'ok':
        if best is None:
            # name a call that loses every counter
            cand = [k for k in sorted(allcalls, key=lambda k: (prog.funcs[k[1]].file, prog.funcs[k[1]].line, k[2])) if not any(any(p for p in paths) and all(paths) for paths in calls.get(k, {}).values())]
            k = cand[0] if cand else sorted(allcalls)[0]
            best = ('lost', k[1], k[2])
        f = prog.funcs[best[1]]
        cx.bad('cycle|%s' % fn_key(fs[0] if len(fs) < 3 else [x for x in fs if resolves(prog, g, x.id, c)][0]), f.loc(best[2]),
               '%s: this call closes a cycle that resolves schema references (%s) %s' % (short(f.q), name, 'without a nesting counter that is raised under a constant bound' if best[0] == 'flat' else 'and does not hand the nesting counter on'))
        return
    for src, ff, nid in sorted(rule.silent, key=str):
        f = prog.funcs[ff]
        cx.bad('silent|%s' % fn_key(prog.funcs[src]), f.loc(nid), '%s: a path on which the nesting bound is exceeded returns normally, so alternatives multiply below it' % short(f.q))
    used = {pick[f.id] for f in fs}
    for src, s, why in sorted(rule.unbal, key=str):
        if pick[src] == s: cx.bad('balance|%s' % fn_key(prog.funcs[src]), prog.funcs[src].loc(), '%s: the nesting counter is %s when it returns' % (short(prog.funcs[src].q), why))
    if not rule.throws and not rule.silent: cx.bad('nothrow|%s' % fn_key(fs[0]), fs[0].loc(), 'exceeding the nesting bound of %s raises nothing' % name)
    # handlers
    for f in fs:
        for i, n in enumerate(f.nodes):
            if not n or n['k'] != 'CXXTryStmt': continue
            inside = [j for j, m in f.calls(n['c'][0]) if any(t in c for t in prog.targets(m))]
            if not inside: continue
            cx.count('handlers around recursive calls')
            for ty in sorted(x for x in rule.throws if x):
                for h in n['c'][1:]:
                    if th.catches(f.nodes[h].get('ct'), ty):
                        if not rethrows(f, h): cx.bad('swallow|%s' % fn_key(f), f.loc(h), '%s: this handler swallows %s, raised when the nesting bound is exceeded, and goes on with the next alternative' % (short(f.q), short(ty)))
                        break
    # stack
    lim = max(rule.limits) if rule.limits else 0
    size = frames(fs)
    cx.count('stack bytes of one round of the cycle (upper bound)', size)
    if lim * size > STACK:
        cx.bad('stack|%s' % fn_key(fs[0]), fs[0].loc(), 'the nesting bound %d of %s allows %d bytes of stack, more than the default of %d' % (lim, name, lim * size, STACK))
    cx.sample('cycle of %d functions around %s: counter bounded by %s, %s raised, %d bytes per round' % (len(fs), short(fs[-1].q), sorted(rule.limits), sorted(str(x) for x in rule.throws), size))


def picks(fs, ok):
    """consistent choices: by slot name first"""
    names = []
    for f in fs:
        for s in sorted(ok[f.id], key=str):
            k = s[-1] if s[0] != 'p' else ('p', f.params[s[1]]['n'])
            if k not in names: names.append(k)
    for k in names:
        pick = {}
        for f in fs:
            m = [s for s in ok[f.id] if (s[-1] if s[0] != 'p' else ('p', f.params[s[1]]['n'])) == k]
            pick[f.id] = (sorted(m, key=str) or sorted(ok[f.id], key=str))[0]
        yield pick


def rethrows(f, h):
    body = f.nodes[h]['c'][-1]
    b = f.nodes[body]
    last = b['c'][-1] if b['k'] == 'CompoundStmt' and b.get('c') else None
    while last is not None and f.nodes[last]['k'] in ('ExprWithCleanups',): last = f.nodes[last]['c'][0]
    return last is not None and f.nodes[last]['k'] == 'CXXThrowExpr'


def entry_loc(f, s):
    if s[0] == 't': return T('fld', deref(THIS), s[1])
    p = T('p', s[1], f.params[s[1]]['n'] or 'arg%d' % s[1])
    if s[0] == 'p': return p
    return T('fld', deref(p) if f.params[s[1]]['t'].endswith('*') else p, s[2])


def frames(fs):
    """sum of the frame sizes the compiler reports"""
    tot = 0
    by = {}
    for f in fs: by.setdefault(f.file, []).append(f)
    for file, l in by.items():
        with tempfile.TemporaryDirectory() as d:
            inc = os.path.join(d, 'inc')
            facts.config(inc)
            o = os.path.join(d, 'x.o')
            r = subprocess.run(['clang++', '-O0', '-w', '-c', '-fstack-usage', '-o', o] + facts._flags(file, inc) + [file], capture_output=True, text=True)
            su = os.path.join(d, 'x.su')
            lines = {}
            if r.returncode == 0 and os.path.exists(su):
                for ln in open(su):
                    p = ln.rstrip('\n').split('\t')
                    q = p[0].split(':')
                    if len(q) > 2 and q[1].isdigit(): lines[int(q[1])] = int(p[1])
            for f in l:
                tot += lines.get(f.line, 4096)
    return tot


def loops(cx, prog):
    for f in prog.funcs.values():
        rs = [(i, n) for i, n in f.calls() if n.get('fq') == RESOLVE]
        for i, n in rs:
            cx.count('reference resolutions')
            lp = [a for a in f.ancestors(i) if f.nodes[a]['k'] in ('WhileStmt', 'DoStmt', 'ForStmt')]
            if not lp: continue
            loop = lp[0]
            tgt = target(f, i)
            if tgt is None: continue
            arg = refs(f, n['args'][0], 4)
            if tgt not in arg: continue
            ok = False
            inc = set()
            for j in f.walk(loop):
                m = f.nodes[j]
                if m['k'] == 'UnaryOperator' and m['op'] in ('++', 'post++') or m['k'] == 'CompoundAssignOperator' and m['op'] == '+=':
                    x = f.nodes[f.strip(m['c'][0])]
                    if x['k'] == 'DeclRefExpr': inc.add(x['d'])
            for j in f.walk(loop):
                m = f.nodes[j]
                if m['k'] == 'BinaryOperator' and m['op'] in ('<', '>', '<=', '>=', '==', '!='):
                    a, b = (f.nodes[f.strip(q)] for q in m['c'])
                    if a['k'] == 'DeclRefExpr' and a['d'] in inc and (b.get('cv') is not None or 'v' in b) or b['k'] == 'DeclRefExpr' and b.get('d') in inc and (a.get('cv') is not None or 'v' in a): ok = True
            if not ok: cx.bad('loop|%s' % fn_key(f), f.loc(i), '%s: this loop follows schema references without a bound, so a schema that refers to itself never ends' % short(f.q))


def target(f, i):
    for a in f.ancestors(i):
        m = f.nodes[a]
        if m['k'] == 'DeclStmt': return m['vars'][0]['d'] if m['vars'] else None
        if m['k'] == 'BinaryOperator' and m['op'] == '=' or m.get('oop') == '=':
            l = f.nodes[f.strip(m['c'][0] if m['k'] == 'BinaryOperator' else m.get('obj', m['args'][0]))]
            return l.get('d') if l['k'] == 'DeclRefExpr' else None
        if m['k'].endswith('Stmt'): return None
    return None


def refs(f, i, depth):
    out = set()
    for j in f.walk(i):
        m = f.nodes[j]
        if m['k'] == 'DeclRefExpr' and m.get('d') and m['d'] not in out:
            out.add(m['d'])
            if depth:
                for k, e in defs_of(f).get(m['d'], []):
                    out |= refs(f, e, depth - 1)
    return out
