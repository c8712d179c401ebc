import re
from checks.common import *

EXPLAIN = ('Every public function that takes a format identifier is followed once per identifier (and once for a value that is none) with the dispatch functions spliced in: '
           'exactly the writer or reader class of that format is created on every normal return, an unknown or unavailable format has no normal return, and the options and the data source or destination it was given are the ones that reach it. '
           'Functions with a format in their name are followed the same way. The guesser, the payload functions, the command-line actions and the shell tool are compared with the same table.')
TECH = 'constant propagation of format identifiers through the dispatch, per entry point and identifier'
NOTE = 'All overloads x all format identifiers.'
RULE = ('D1 identifier E creates the writer/reader class of E and nothing else, or raises; D2 a function named after a format does the same for it; D3 the parameters of an entry point reach the call they are forwarded to; '
        'D4 the guesser answers XML exactly for a first non-blank "<"; D5 actions and options named after a format pass that format; D6 payload reading and writing use the same defaults per format.')

FMT = [('XMLPLIST', 'XMLPLIST'), ('XML', 'XMLPLIST'), ('PLIST', 'XMLPLIST'), ('BUNDLEHDR', 'BUNDLEHDR'), ('BUNDLE', 'BUNDLEHDR'), ('MSGPACK', 'MSGPACK'), ('JSON', 'JSON'), ('YAML', 'YAML'), ('GUESS', 'GUESS')]


def named(s):
    s = s.upper()
    for k, v in FMT:
        if k in s: return v
    return None


class Made(Rule):
    inline_depth = 8
    max_states = 40
    max_steps = 4000
    open_enums = True
    def __init__(self, reach, st_type, impls): self.reach = reach; self.st_type = st_type; self.impls = impls; self.assume = None
    def inline(self, eng, st, fr, nid, n, g): return g.id in self.reach or g.ret in (self.st_type, 'libvariant::Emitter', 'libvariant::Parser') and not g.cls
    def init(self, eng, st):
        if self.assume: refine(mkcmp('==', self.assume[0], I(self.assume[1])), True, st.conds)
    def elem(self, eng, st, fr, nid, n):
        if n['k'] == 'CXXConstructExpr' and n.get('cls') in self.impls and not n.get('copy') and not n.get('move'):
            st.add(('made', n['cls'], fr.f.loc(nid)))
    def call(self, eng, st, fr, nid, n, obj, args):
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and n.get('cls') in self.impls and not n.get('copy') and not n.get('move'):
            st.add(('made', n['cls'], fr.f.loc(nid)))
        g = eng.prog.funcs.get(n.get('fn'))
        if g is not None and g.ret == self.st_type and any('ParserInput' in y['t'] for y in g.params): st.add(('guessed',))
        x = fr
        while x is not None and x.f.id != n.get('fn'): x = x.parent
        if x is not None:
            # the dispatch again, for the format guessed: judged on its own
            ti = [i for i, y in enumerate(x.f.params) if y['t'] == self.st_type]
            v = args[ti[0]] if ti and ti[0] < len(args) else None
            c = [c for c, (m, d) in self.impls.items() if v is not None and v.k == 'i' and self.fm.get(m) == v.a[0] and d == 'r']
            st.add(('made', c[0] if c else 'a reader of unknown format', fr.f.loc(nid)))
    def exit(self, eng, st):
        self.outs.append(frozenset((t[1], t[2]) for t in st.facts if t[0] == 'made'))
        self.guessed = self.guessed and ('guessed',) in st.facts


def check(cx):
    p = cx.prog
    en = next((e for q, e in p.enums.items() if q.endswith('::SerializeType')), None)
    cx.need([en] if en else [], 'format identifiers')
    st_type = next(q for q in p.enums if q.endswith('::SerializeType'))
    fm = {x['n'].replace('SERIALIZE_', ''): int(x['v']) for x in en['e']}
    impls = {}
    for base, d in (('libvariant::EmitterImpl', 'w'), ('libvariant::ParserImpl', 'r')):
        for c in p.subclasses(base):
            m = re.match(r'(\w+?)(Emitter|Parser)(Impl)?$', c.split('::')[-1])
            if m and m.group(1).upper() in fm: impls[c] = (m.group(1).upper(), d)
    cx.need(impls, 'writer and reader classes', 6)
    mk = {f.id for f in p.funcs.values() if any(n and n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and n.get('cls') in impls and not n.get('copy') for n in f.nodes) and f.kind != 'ctor'}
    dc = direct_callers(cx)
    reach = set(mk); work = list(mk)
    while work:
        for c in dc.get(work.pop(), ()):
            if c not in reach: reach.add(c); work.append(c)
    rule = Made(reach, st_type, impls)
    rule.fm = fm
    eng = cx.engine(rule)
    built = {d: {impls[c][0] for c in impls if impls[c][1] == d and any(n and n.get('cls') == c and n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and not n.get('copy') for i in mk for n in p.funcs[i].nodes)} for d in 'wr'}
    cx.sample('formats built: writers %s, readers %s' % (sorted(built['w']), sorted(built['r'])))
    roots_ = []
    for f in sorted(p.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        if not f.cfg or not f.q.startswith('libvariant::') or f.cls or not f.pub: continue
        ti = [i for i, x in enumerate(f.params) if x['t'] == st_type]
        nm = f.q.split('::')[-1]
        d = 'r' if re.search('Deserialize|Parse', nm) else 'w' if re.search('Serialize|Emit', nm) else None
        if d is None: continue
        if ti and (f.id in reach): roots_.append((f, d, ti[0], None))
        elif named(nm) and not ti and re.match(r'(Des|S)erialize|\w*(Emitter|Parser)(Guess)?$', nm): roots_.append((f, d, None, named(nm)))
        elif ti and nm.startswith(('Serialize', 'Deserialize', 'Create')): roots_.append((f, d, ti[0], None))
    cx.need(roots_, 'entry points', 60)
    for f, d, ti, fixed in roots_:
        runs = [(fixed, None)] if ti is None else sorted(fm.items(), key=lambda x: x[1]) + [('no format', 0x5a5a5a)]
        for name, val in runs:
            rule.assume = (T('p', ti, f.params[ti]['n'] or 'arg%d' % ti), val) if ti is not None else None
            rule.outs = []; rule.guessed = True
            eng.run(f)
            if name == 'GUESS' and d == 'r' and not rule.guessed: cx.bad('format|%s|GUESS' % fn_key(f), f.loc(), '%s can choose a reader without looking at the input' % fn_key(f))
            cx.count('entry point x format')
            judge(cx, f, d, name, rule.outs, impls, built, ti is not None)
        forwards(cx, f, st_type)
    cx.finish_engine(eng, 'dispatch')
    guesser(cx, p, st_type, fm)
    cases(cx, p, st_type)
    payload(cx, p, st_type)


def judge(cx, f, d, name, outs, impls, built, param):
    what = '%s%s' % (fn_key(f), ' for %s' % name if param else '')
    key = 'format|%s|%s' % (fn_key(f), name)
    if name == 'no format' or d == 'w' and name == 'GUESS' or name not in built[d] and name != 'GUESS':
        for o in outs:
            cx.bad(key, f.loc(), '%s returns normally%s instead of raising an error' % (what, ' after creating %s' % ', '.join(sorted(short(c) for c, w in o)) if o else ''))
            break
        return
    if not outs:
        cx.bad(key, f.loc(), '%s never returns normally although the format is available' % what)
        return
    for o in outs:
        cs = {c for c, w in o}
        if name == 'GUESS':
            if len(cs) == 1 and all(impls.get(c, '??')[1] == d for c in cs): continue
            cx.bad(key, f.loc(), '%s returns having created %s' % (what, ', '.join(sorted(map(short, cs))) or 'no reader'))
            return
        bad = [(c, w) for c, w in o if impls.get(c) != (name, d)]
        if bad:
            cx.bad(key, bad[0][1], '%s creates a %s' % (what, short(bad[0][0])))
            return
        if len(cs) != 1:
            cx.bad(key, f.loc(), '%s can return without having created the %s of the format' % (what, 'writer' if d == 'w' else 'reader'))
            return


def origin(f, i, depth=0):
    """the parameter an argument expression stands for: through casts, copies, locals initialised from it and c_str()/rdbuf()"""
    i = f.strip(i)
    n = f.nodes[i]
    if n['k'] == 'DeclRefExpr':
        if n.get('d') in f.pidx: return n['d']
        if depth < 4:
            ds = defs_of(f).get(n['d'], [])
            if len(ds) == 1 and ds[0][0] == 'init': return origin(f, ds[0][1], depth + 1)
        return None
    if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') and (len(n.get('args', [])) == 1 or len(n.get('c', [])) == 1):
        return origin(f, (n.get('args') or n['c'])[0], depth + 1)
    return None


def forwards(cx, f, st_type):
    """every parameter of an entry point is made use of"""
    used = {n['d'] for n in f.nodes if n and n['k'] == 'DeclRefExpr' and n.get('dk') in ('ParmVar', None, 'Var') and n.get('d')}
    # a function that only raises (format not built) has nothing to forward
    if not any(n and 'args' in n and not n.get('nr') and n['k'] == 'CallExpr' for n in f.nodes): 
        if any(n and n['k'] == 'CXXThrowExpr' for n in f.nodes): return
    for x in f.params:
        cx.count('entry point parameters')
        if x['d'] not in used:
            cx.bad('unused|%s|%d' % (fn_key(f), f.pidx[x['d']]), f.loc(), '%s ignores its parameter %s' % (fn_key(f), x['n'] or f.pidx[x['d']]))
    # forwarding to an overload of the same purpose: parameters of the same type and role keep their place
    for i, n in f.calls():
        g = cx.prog.funcs.get(n.get('fn'))
        if g is None or not n.get('args') or st_type not in [a['t'] for a in g.params]: continue
        got = {}
        for j, a in enumerate(n['args']):
            if j < len(g.params): got[j] = origin(f, a)
        for j, d in got.items():
            if d is None: continue
            for k, e in got.items():
                if k != j and e == d: cx.bad('twice|%s|%s' % (fn_key(f), g.q.split('::')[-1]), f.loc(i), '%s passes one parameter twice' % fn_key(f))
        # the last Variant parameter on both sides is the option set
        fo = [x['d'] for x in f.params if x['t'] == 'libvariant::Variant']; go = [j for j, x in enumerate(g.params) if x['t'] == 'libvariant::Variant']
        nv = sum('EmitterOutput' in x['t'] or True for x in f.params[:0])
        if len(fo) == 2 and len(go) == 2:
            cx.count('value and options forwarded')
            for a, j in zip(fo, go):
                if j in got and got[j] is not None and got[j] != a:
                    cx.bad('swap|%s|%s' % (fn_key(f), g.q.split('::')[-1]), f.loc(i), '%s passes its value and its options in the wrong places' % fn_key(f))
                elif j not in got or defaulted(f, n['args'][j]):
                    cx.bad('options|%s|%s' % (fn_key(f), g.q.split('::')[-1]), f.loc(i), '%s does not pass its %s on' % (fn_key(f), 'value' if a == fo[0] else 'options'))
        elif len(fo) == 1 and len(go) == 1 and len(n['args']) > go[0]:
            cx.count('options forwarded')
            if got.get(go[0]) not in (fo[0],) and defaulted(f, n['args'][go[0]]):
                cx.bad('options|%s|%s' % (fn_key(f), g.q.split('::')[-1]), f.loc(i), '%s does not pass its options on' % fn_key(f))
        pretty(cx, f, i, n, g)


def defaulted(f, a):
    return any(f.nodes[x]['k'] == 'CXXDefaultArgExpr' for x in f.walk(a)) or f.nodes[a]['k'] == 'CXXDefaultArgExpr'


def pretty(cx, f, i, n, g):
    """a bool parameter of a convenience function becomes the option "pretty" of the call"""
    bp = [x for x in f.params if x['t'] == 'bool']
    if not bp or any(x['t'] == 'bool' for x in g.params) or not named(f.q.split('::')[-1]): return
    cx.count('pretty options')
    last = f.nodes[f.strip(n['args'][-1])]
    holder = None
    for x in f.walk(n['args'][-1]):
        m = f.nodes[x]
        if m['k'] == 'DeclRefExpr' and m.get('t', '').endswith('Variant') and m['d'] not in f.pidx: holder = m['d']
    for k, m in enumerate(f.nodes):
        if not m or 'args' not in m: continue
        nm = (m.get('fq') or '').split('::')[-1]
        ops = ([m['obj']] if m.get('obj') is not None and m['obj'] >= 0 else []) + list(m['args'])
        if nm == 'operator=' and len(ops) == 2:
            key = [f.nodes[x].get('v') for x in f.walk(ops[0]) if f.nodes[x]['k'] == 'StringLiteral']
            val = ops[1]; own = ops[0]
        elif nm in ('Set', 'SetKey', 'SetPath') and len(m['args']) >= 2:
            key = [f.nodes[x].get('v') for x in f.walk(m['args'][0]) if f.nodes[x]['k'] == 'StringLiteral']
            val = m['args'][1]; own = m.get('obj')
        else: continue
        if key != ['pretty'] and key != ['"pretty"']: continue
        refs = [f.nodes[x]['d'] for x in f.walk(val) if f.nodes[x]['k'] == 'DeclRefExpr' and f.nodes[x]['d'] in f.pidx]
        neg_ = any(f.nodes[x]['k'] == 'UnaryOperator' and f.nodes[x]['op'] == '!' for x in f.walk(val))
        oth = any(f.nodes[x]['k'] in ('BinaryOperator', 'ConditionalOperator', 'CXXBoolLiteralExpr') for x in f.walk(val))
        if refs == [bp[0]['d']] and not neg_ and not oth:
            o = {f.nodes[x]['d'] for x in f.walk(own) if f.nodes[x]['k'] == 'DeclRefExpr'} if own is not None else set()
            if holder is None or holder in o or k in set(f.walk(n['args'][-1])): return
    cx.bad('pretty|%s' % fn_key(f), f.loc(i), '%s does not pass its %s on as the option "pretty"' % (fn_key(f), bp[0]['n']))


class Guess(Rule):
    inline_depth = 3
    max_states = 60
    def init(self, eng, st): pass
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is None: self.outs.append((val, dict(st.conds), fr.f.loc(nid)))


def guesser(cx, p, st_type, fm):
    gs = [f for f in p.funcs.values() if f.cfg and f.ret == st_type and any('ParserInput' in x['t'] for x in f.params)]
    cx.need(gs, 'format guesser')
    for f in gs:
        rule = Guess(); rule.outs = []
        eng = cx.engine(rule)
        eng.run(f)
        cx.finish_engine(eng, 'guesser')
        xml = False
        for val, conds, w in rule.outs:
            lt = [b for t, b in conds.items() if t.k == '==' and t.a[1].k == 'i' and t.a[1].a[0] == ord('<')]
            cx.count('guesser returns')
            if val.k != 'i':
                cx.bad('guess', w, '%s returns something other than a format identifier' % fn_key(f)); continue
            if val.a[0] == fm['XMLPLIST']:
                xml = True
                if True not in lt: cx.bad('guess', w, '%s answers XML although the first character need not be "<"' % fn_key(f))
            elif True in lt: cx.bad('guess', w, '%s answers something other than XML for a first character "<"' % fn_key(f))
        if not xml: cx.bad('guess', f.loc(), '%s never answers XML' % fn_key(f))


def consts(f, i):
    return [f.nodes[x] for x in f.walk(i) if f.nodes[x]['k'] == 'DeclRefExpr' and 'SERIALIZE_' in (f.nodes[x].get('dn') or f.nodes[x].get('dq') or '')]


def cases(cx, p, st_type):
    """switch cases and option tests named after a format"""
    for f in sorted(p.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        for i, n in enumerate(f.nodes):
            if not n: continue
            if n['k'] == 'CaseStmt':
                lab = [f.nodes[x] for x in f.walk(n['c'][0]) if f.nodes[x]['k'] == 'DeclRefExpr'] if n.get('c') else []
                lab = [x.get('dn') or x.get('dq', '').split('::')[-1] for x in lab]
                if not lab or not named(lab[0]) or lab[0].startswith('SERIALIZE_'): continue
                for e in case_body(f, i):
                    for m in consts(f, e):
                        cx.count('format-named cases')
                        if named(m['dn']) != named(lab[0]): cx.bad('case|%s|%s' % (fn_key(f), lab[0]), f.loc(e), '%s uses %s for %s' % (fn_key(f), m['dn'], lab[0]))
                    for x in f.walk(e):
                        q = (f.nodes[x].get('fq') or '').split('::')[-1]
                        if re.match('(Des|S)erialize', q) and named(q) and named(q) != named(lab[0]): cx.bad('case|%s|%s' % (fn_key(f), lab[0]), f.loc(x), '%s calls %s for %s' % (fn_key(f), q, lab[0]))
            elif n['k'] == 'IfStmt' and n.get('cond') is not None and n['cond'] >= 0:
                lits = [f.nodes[x].get('v', '') for x in f.walk(n['cond']) if f.nodes[x]['k'] == 'StringLiteral']
                lits = [x for x in lits if re.fullmatch(r'"?(guess|json|yaml|plist|xml|xmlplist|bundlehdr|msgpack)(-in|-out)?"?', str(x))]
                if len(lits) != 1 or n.get('then') is None: continue
                for m in consts(f, n['then']):
                    cx.count('format-named options')
                    if named(m['dn']) != named(lits[0]): cx.bad('option|%s|%s' % (fn_key(f), lits[0].strip('"')), f.loc(i), '%s uses %s for the option %s' % (fn_key(f), m['dn'], lits[0]))


def case_body(f, i):
    """the statements a case label governs up to the next break"""
    out = []
    n = f.nodes[i]
    sub = n['c'][-1]
    while f.nodes[sub]['k'] in ('CaseStmt', 'DefaultStmt'): sub = f.nodes[sub]['c'][-1]
    out.append(sub)
    top = i
    while f.nodes[f.par[top]]['k'] == 'CaseStmt': top = f.par[top]
    sib = f.nodes[f.par[top]]['c']
    if top in sib:
        for s in sib[sib.index(top) + 1:]:
            if f.nodes[s]['k'] in ('CaseStmt', 'DefaultStmt', 'BreakStmt', 'ReturnStmt'): break
            out.append(s)
    return out


class Paths(Rule):
    inline_depth = 2
    max_states = 40
    def __init__(self, term): self.term = term; self.got = {}
    def init(self, eng, st):
        refine(mkcmp('==', self.term[0], I(self.term[1])), True, st.conds)
    def call(self, eng, st, fr, nid, n, obj, args):
        if (n.get('fq') or '').split('::')[-1] == 'Get' and len(n['args']) == 2:
            lit = [[fr.f.nodes[x].get('v') for x in fr.f.walk(a) if fr.f.nodes[x]['k'] == 'StringLiteral'] for a in n['args']]
            if lit[0] and lit[0][0].strip('"').endswith('_path') and lit[1]: self.got.setdefault(lit[0][0], set()).add(lit[1][0])


def payload(cx, p, st_type):
    fs = [f for f in p.funcs.values() if f.cfg and f.q in ('libvariant::SerializeWithPayload', 'libvariant::DeserializeWithPayload') and any(x['t'] == st_type for x in f.params)]
    w = [f for f in fs if f.q.endswith('::SerializeWithPayload') and 'EmitterOutput' in f.params[0]['t']]
    r = [f for f in fs if f.q.endswith('::DeserializeWithPayload') and 'ParserInput' in f.params[0]['t']]
    cx.need(w and r, 'payload functions')
    en = p.enums[st_type]
    for x in en['e']:
        got = []
        for f in (w[0], r[0]):
            ti = next(i for i, y in enumerate(f.params) if y['t'] == st_type)
            rule = Paths((T('p', ti, f.params[ti]['n'] or 'arg%d' % ti), int(x['v'])))
            eng = cx.engine(rule)
            eng.run(f)
            got.append({k: frozenset(v) for k, v in rule.got.items()})
        cx.count('payload defaults', len(got[0]))
        if got[0] != got[1]:
            cx.bad('payload|%s' % x['n'], r[0].loc(), 'for %s the payload is written with the defaults %s and read with %s' % (x['n'], show(got[0]), show(got[1])))


def show(d): return ', '.join('%s=%s' % (k, '/'.join(sorted(v))) for k, v in sorted(d.items())) or 'none'
