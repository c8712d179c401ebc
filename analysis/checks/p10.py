from checks.common import *
from checks.p09 import Fam, kind_of_type

EXPLAIN = ('For every output format the transition system of its bookkeeping (state stack, state enumerator, document and closed flags) is extracted from the '
           'event methods by constant propagation over all their paths: for each reachable bookkeeping state and each event, which separators and own bytes are '
           'produced in which order, and which state follows. The extracted system is then compared with what any nested text format needs.')
TECH = 'extraction of the bookkeeping transition system by path-sensitive constant propagation, checked against a structural grammar'
NOTE = ('JSON, bundle header, XML plist and YAML writers and the event buffer. Nesting is explored to depth two below the top level; the bookkeeping of a deeper level is a copy of '
        'the second by construction of the stack. Structural errors inside libyaml are that library\'s.')
RULE = ('S1 in each position every kind of event is preceded by the same separator and leaves the same state; S2 consecutive entries are always separated, key/value and entry '
        'separators alternate; S3 starting opens one level over the state a scalar would leave, ending restores it and writes the closing counterpart; S4 an end that does not match the innermost open '
        'container, or a dangling key, raises before any byte; S5 nothing is written after closing; S6 buffered bytes go out before bytes that bypass the buffer; S7 the event buffer updates level and entry count once per event; S8 every bookkeeping state that is tested for is entered somewhere.')

BASE = 'libvariant::EmitterImpl'
ENDS = {'BeginMap': 'EndMap', 'BeginList': 'EndList'}
SCAL = ['string', 'null', 'true', 'false', 'int', 'uint', 'float', 'blob']
BRACKET = {'{': '}', '[': ']', '(': ')', '<': '>'}
CONT = ('std::deque', 'std::vector', 'std::list', 'std::stack')


SELF = T('&', T('obj', 'emitter', 'self'))


class Sim(Rule):
    """outcomes of one event method from one bookkeeping state"""
    inline_depth = 7
    keep_obj = SELF.a[0]
    max_states = 64
    max_steps = 4000
    def __init__(self, cx, cls):
        self.cx, self.cls = cx, cls
        p = cx.prog
        rec = p.classes[cls]
        enums = set(p.enums)
        self.own = {f.id for f in p.funcs.values() if f.cls == cls}
        self.methods = {}
        fam = Fam(cx)
        for m in rec['methods']:
            if not m.get('over'): continue
            k = fam.method_kind(cls, m['n'], m['pt'])
            if k: self.methods[k] = p.funcs.get(m['id'])
            if m['n'] in ('Close', 'Flush'): self.methods[m['n']] = p.funcs.get(m['id'])
        written = set()
        for k, f in self.methods.items():
            if f is not None: written |= {w for g in self.reach(f.id) for w in cx.eff.direct.get(g, ())}
        self.stack = None
        self.flags = []
        for fl in rec['fields']:
            t = fl['t']
            if t.startswith(CONT) and any(e in t for e in enums) and self.stack is None: self.stack = fl['n']
            elif (t in enums or t == 'bool') and fl['n'] in written: self.flags.append(fl['n'])
        self.cfgfields = set(self.flags) | ({self.stack} if self.stack else set())
        self.touch = {f for f in self.own if any(self.mentions_cfg(g) for g in self.reach(f))}
        self.sink = {f for f in self.own if any(self.has_sink(g) for g in self.reach(f))}
        self.speak = {f for f in self.own if any(self.speaks(g) for g in self.reach(f))}
        self.events = {f.id for f in self.methods.values() if f is not None}
        self.keep = self.cfgfields
        self.accessors = tuple(sorted({p.funcs[f].name for f in self.own - self.touch}))

    def reach(self, fid):
        seen, st = {fid}, [fid]
        while st:
            for y in self.cx.eff.succ.get(st.pop(), ()):
                if y in self.own and y not in seen: seen.add(y); st.append(y)
        return seen

    def mentions_cfg(self, fid):
        return any(n and n['k'] == 'MemberExpr' and n.get('m') in self.cfgfields for n in self.cx.prog.funcs[fid].nodes)

    def has_sink(self, fid):
        for i, n in self.cx.eff.callees[fid]:
            q = n.get('fq', '').split('::')[-1]
            if q in ('memcpy', 'memmove') or q == 'Write' and 'EmitterOutput' in n.get('cls', '') or q.startswith('xmlTextWriterWrite'): return True
        return False

    def speaks(self, fid):
        if any(n and n['k'] == 'CXXThrowExpr' for n in self.cx.prog.funcs[fid].nodes): return True
        return any(n.get('fq', '').startswith(('xmlTextWriter', 'yaml_')) for i, n in self.cx.eff.callees[fid])

    def prim(self, n):
        """own method that writes the text it is given and nothing else"""
        fid = n.get('fn')
        return fid in self.own and fid not in self.events and fid not in self.touch and fid in self.sink and any(t.startswith('const char *') for t in n.get('pt', []))

    def this(self): return deref(SELF)
    def fld(self, m): return T('fld', deref(SELF), m)

    def init(self, eng, st):
        stk, flags = self.cfg0
        if stk is not None:
            for i, v in enumerate(stk):
                if v is not None: st.mem[T('slot', i)] = I(v)
            st.add(('stk', len(stk)))
        elif self.stack: st.add(('stk', 0))
        for m, v in flags:
            if v is not None: st.mem[self.fld(m)] = I(v)
        st.add(('tr', ()))

    def depth(self, st):
        for t in st.facts:
            if t[0] == 'stk': return t[1]
        return 0

    def setdepth(self, st, d):
        st.drop(lambda t: t[0] == 'stk'); st.add(('stk', d))

    def tok(self, st, t):
        for x in list(st.facts):
            if x[0] == 'tr':
                st.drop(lambda y: y[0] == 'tr')
                if t == ('raw',) and x[1][-1:] == (t,): st.add(x)
                elif len(x[1]) < 24: st.add(('tr', x[1] + (t,)))
                else: st.add(x)
                return

    def devirt(self, eng, st, fr, nid, n, obj):
        if obj is self.this():
            for t in self.cx.prog.targets(n):
                if t in self.own: return t
        return None

    def inline(self, eng, st, fr, nid, n, g):
        if g.id in self.own: return not self.prim(n) and (g.id in self.touch or g.id in self.speak)
        return g.q.startswith(NS) and is_helper(self.cx, g) and len(g.nodes) < 200 and not g.cls

    def call(self, eng, st, fr, nid, n, obj, args):
        q = n.get('fq', '').split('::')[-1]
        if self.prim(n) and obj is self.this():
            i = [k for k, t in enumerate(n['pt']) if t.startswith('const char *')][0]
            a = eng.value_of(st, args[i]) if args[i].k == 'var' else args[i]
            if a.k == 'call' and a.a[0].split('::')[-1] in ('c_str', 'data') and a.a[1] is not None: a = eng.value_of(st, a.a[1])
            self.tok(st, ('lit', a.a[0]) if a.k == 's' else ('pay',))
            self.cx.count('writes traced')
        elif q == 'xmlTextWriterStartElement': self.tok(st, ('open', args[1].a[0] if args[1].k == 's' else tstr(args[1])))
        elif q in ('xmlTextWriterEndElement', 'xmlTextWriterFullEndElement'): self.tok(st, ('close',))
        elif q.startswith('xmlTextWriterWrite'): self.tok(st, ('pay',))
        elif q.startswith('yaml_') and q.endswith('_event_initialize'):
            st.drop(lambda t: t[0] == 'yev'); st.add(('yev', q[5:-len('_event_initialize')]))
        elif q == 'yaml_emitter_emit':
            k = [t[1] for t in st.facts if t[0] == 'yev']
            self.tok(st, ('y', k[0] if k else '?'))
        elif q == 'Write' and 'EmitterOutput' in n.get('cls', ''):
            self.tok(st, ('raw',))

    def after(self, eng, st, fr, nid, n, obj, args, res):
        if self.stack and obj is self.fld(self.stack):
            name = n.get('fq', '').split('::')[-1]
            d = self.depth(st)
            r = None
            if name in ('back', 'top'):
                if d == 0: self.flag('empty', fr.f, nid, '%s: looks at the innermost level when none is open' % short(fr.f.q)); r = T('slot', -1)
                else: r = T('slot', d - 1)
            elif name in ('push_back', 'push', 'emplace_back', 'emplace'):
                self.setdepth(st, d + 1)
                st.mem[T('slot', d)] = eng.value_of(st, args[0]) if args else T('?')
            elif name in ('pop_back', 'pop'):
                if d == 0: self.flag('empty', fr.f, nid, '%s: closes a level when none is open' % short(fr.f.q))
                else:
                    self.setdepth(st, d - 1)
                    st.mem.pop(T('slot', d - 1), None)
            elif name == 'empty': r = I(1 if d == 0 else 0)
            elif name == 'size': r = I(d)
            elif name == 'clear': self.setdepth(st, 0)
            if r is not None: st.res[(fr.uid, nid)] = r

    def flag(self, key, f, nid, msg):
        self.cx.bad('%s|%s|%s' % (key, fn_key(f), self.what), f.loc(nid), msg + ' (' + self.what + ')')

    def config(self, st):
        d = self.depth(st)
        def val(t): return t.a[0] if t is not None and t.k == 'i' else None
        stk = tuple(val(st.mem.get(T('slot', i))) for i in range(d)) if self.stack else None
        fl = tuple((m, val(st.mem.get(self.fld(m)))) for m in self.flags)
        return stk, fl

    def trace(self, st):
        for t in st.facts:
            if t[0] == 'tr': return t[1]
        return ()

    def exit(self, eng, st): self.outs.append(('ok', self.trace(st), self.config(st)))
    def exc_exit(self, eng, st, nid, ty): self.outs.append(('raise', self.trace(st), None))


class Machine:
    def __init__(self, cx, cls):
        self.cx, self.cls = cx, cls
        self.rule = Sim(cx, cls)
        self.eng = cx.engine(self.rule)
        self.memo = {}
        self.nm = short(cls)

    def bad(self, key, ev, msg):
        f = self.rule.methods.get(ev)
        self.cx.bad('%s|%s|%s' % (self.nm, key, ev or ''), f.loc() if f is not None else self.cx.prog.classes[self.cls]['file'], '%s: %s' % (self.nm, msg))

    def start(self):
        r = self.rule
        cs = [f for f in self.cx.prog.funcs.values() if f.cls == self.cls and f.kind == 'ctor' and f.cfg and not f.implicit and len(f.params) >= 1]
        cfgs = set()
        for f in cs:
            r.outs, r.cfg0, r.what = [], (None, ()), 'construction'
            self.eng.run(f, SELF)
            cfgs |= {o[2] for o in r.outs if o[0] == 'ok'}
        return cfgs

    def outs(self, ev, cfg):
        k = (ev, cfg)
        if k not in self.memo:
            r = self.rule
            f = r.methods.get(ev)
            if f is None or not f.cfg: self.memo[k] = []; return []
            r.outs, r.cfg0 = [], cfg
            r.what = '%s in state %s' % (ev, self.show(cfg))
            self.eng.run(f, SELF)
            self.cx.count('event/state pairs')
            self.cx.count('transitions', len(set(r.outs)))
            self.memo[k] = sorted(set(r.outs), key=repr)
        return self.memo[k]

    def show(self, cfg):
        out = []
        rec = self.cx.prog.classes[self.cls]
        def nm(field, v):
            for fl in rec['fields']:
                if fl['n'] == field:
                    for q, e in self.cx.prog.enums.items():
                        if q in fl['t']:
                            for x in e['e']:
                                if x['v'] == v: return x['n']
            return str(v)
        if cfg[0] is not None: out.append('[' + ' '.join(nm(self.rule.stack, v) for v in cfg[0]) + ']')
        out += ['%s=%s' % (m, nm(m, v)) for m, v in cfg[1]]
        return ' '.join(out)

    def ok(self, ev, cfg): return [o for o in self.outs(ev, cfg) if o[0] == 'ok']

    def must_raise(self, ev, cfg, why):
        o = self.outs(ev, cfg)
        for x in o:
            if x[0] == 'ok':
                self.bad('accepts|%s' % why, ev, '%s does not raise %s (state %s)' % (ev, why, self.show(cfg))); return
        for x in o:
            if any(t[0] != 'y' for t in x[1]):
                self.bad('late|%s' % why, ev, '%s writes bytes before it raises %s (state %s)' % (ev, why, self.show(cfg))); return

    def nextcfg(self, ev, cfg):
        s = {o[2] for o in self.ok(ev, cfg)}
        if len(s) > 1:
            self.bad('ambiguous', ev, '%s leaves the bookkeeping in different states on different paths (from %s: %s)' % (ev, self.show(cfg), ', '.join(sorted(self.show(c) for c in s))))
        for c in sorted(s, key=repr): return c
        return None


def collapse(strs):
    """one representative of separators that differ only in layout"""
    s = set(strs)
    if len(s) <= 1: return s
    c = {x.replace(' ', '').replace('\n', '') for x in s}
    return c


def text_of(tr):
    return ''.join(t[1] if t[0] == 'lit' else '' for t in tr)


class Check:
    def __init__(self, cx, m):
        self.cx, self.m = cx, m
        self.toks = set()

    def split(self, cfg):
        """separator before and after the payload of a scalar, and the state it leaves"""
        m = self.m
        pres, posts = [], []
        for o in m.ok('string', cfg):
            tr = [t for t in o[1] if t[0] != 'raw']
            pay = [i for i, t in enumerate(tr) if t[0] == 'pay']
            if not pay: m.bad('nopayload', 'string', 'a path of the text event does not write the text (state %s)' % m.show(cfg)); continue
            pres.append(text_of(tr[:pay[0]])); posts.append(text_of(tr[pay[-1] + 1:]))
        return collapse(pres), collapse(posts), m.nextcfg('string', cfg)

    def kinds(self):
        return [k for k in SCAL if self.m.rule.methods.get(k) is not None]

    def position(self, cfg, where, key, allowed_end):
        """every event in one position"""
        m = self.m
        self.cx.count('positions checked')
        pre, post, nxt = self.split(cfg)
        if nxt is None:
            m.bad('notext|%s' % where, 'string', 'text raises %s (state %s)' % (where, m.show(cfg))); return None
        if len(pre) > 1 or len(post) > 1:
            m.bad('sepvaries|%s' % where, 'string', 'the separator %s differs between paths: %s' % (where, sorted(pre | post))); return None
        p0, q0 = next(iter(pre)), next(iter(post))
        for k in self.kinds()[1:] + ['BeginMap', 'BeginList']:
            begin = k.startswith('Begin')
            for o in m.ok(k, cfg):
                tr = [t for t in o[1] if t[0] != 'raw']
                txt = [t for t in tr]
                s = ''.join(t[1] if t[0] == 'lit' else '\0' for t in txt)
                c = s if s.startswith(p0) else s.replace(' ', '').replace('\n', '')
                pp = p0 if s.startswith(p0) else p0.replace(' ', '').replace('\n', '')
                if not c.startswith(pp):
                    m.bad('noseparator|%s|%s' % (where, k), k, '%s %s is not preceded by %r as other values are (writes %r, state %s)' % (k, where, p0, s, m.show(cfg))); continue
                if p0.strip() == '' and not begin and False: continue
                if not begin:
                    body = c[len(pp):]
                    if not body.endswith(q0): m.bad('noseparator|%s|%s' % (where, k), k, '%s %s is not followed by %r as other values are' % (k, where, q0)); continue
                    if o[2] != nxt: m.bad('state|%s|%s' % (where, k), k, '%s %s leaves the state %s, other values leave %s' % (k, where, m.show(o[2]), m.show(nxt)))
            if begin and cfg[0] is not None:
                for o in m.ok(k, cfg):
                    if o[2][0][:-1] != nxt[0] or o[2][1] != nxt[1]:
                        m.bad('level|%s|%s' % (where, k), k, '%s %s does not open exactly one level over the state a value leaves (%s, expected one above %s)' % (k, where, m.show(o[2]), m.show(nxt)))
        for e in ('EndMap', 'EndList'):
            if e != allowed_end: m.must_raise(e, cfg, where)
        return p0, q0, nxt

    def gaps(self, seq, kind):
        m = self.m
        g = [seq[i - 1][1] + seq[i][0] for i in range(1, len(seq))]
        if kind == 'BeginList':
            if len(set(g)) > 1: m.bad('listsep', kind, 'separators between list entries vary: %s' % g)
            if any(not x for x in g): m.bad('listsep', kind, 'nothing is written between two list entries')
        else:
            a, b = g[0::2], g[1::2]
            if len(set(a)) > 1 or len(set(b)) > 1: m.bad('mapsep', kind, 'separators in a map vary: %s' % g)
            if any(not x for x in g): m.bad('mapsep', kind, 'nothing is written between two parts of a map')
            if set(a) & set(b): m.bad('mapsep', kind, 'key/value and entry separators are the same: %s' % g)
        if seq[0][0].strip(): m.bad('firstsep', kind, '%r is written before the first entry of a container' % seq[0][0])

    def walk(self, cfg, depth):
        """positions below a value position"""
        m = self.m
        for beg, end in ENDS.items():
            if m.rule.methods.get(beg) is None: continue
            o = m.ok(beg, cfg)
            if not o: self.cx.count('containers a format refuses'); continue
            c = m.nextcfg(beg, cfg)
            opened = [t[1] for t in o[0][1] if t[0] == 'lit']
            self.cx.count('containers explored')
            start = c
            seq = []
            for i in range(6):
                key = beg == 'BeginMap' and i % 2 == 0
                where = 'inside a list' if beg == 'BeginList' else 'as a map key' if key else 'as a map value'
                r = self.position(c, where, key, end if (beg == 'BeginList' or key) else None)
                if r is None: break
                seq.append(r)
                # ending here
                if beg == 'BeginList' or key:
                    done = m.ok(end, c)
                    if not done: m.bad('noend', end, '%s raises although the container is open (state %s)' % (end, m.show(c)))
                    back = m.nextcfg(end, c)
                    _, _, want = self.after_value(cfg)
                    if back is not None and want is not None and back != want:
                        m.bad('restore', end, '%s leaves the state %s, not %s as after any other value' % (end, m.show(back), m.show(want)))
                    closed = {''.join(t[1] for t in x[1] if t[0] == 'lit').strip() for x in done}
                    if opened and opened[-1] in BRACKET and done and closed != {BRACKET[opened[-1]]}:
                        m.bad('bracket', end, '%s closes %r with %s' % (end, opened[-1], sorted(closed)))
                else:
                    m.must_raise(end, c, 'with a key that has no value')
                if depth > 0 and not key and i < 2: self.walk(c, depth - 1)
                c = r[2]
            if len(seq) >= 4: self.gaps(seq, beg)

    def after_value(self, cfg):
        """state after a value in this position; formats that accept only containers at the top have none"""
        if self.m.ok('string', cfg): return self.split(cfg)
        return None, None, None


class Elements(Check):
    """formats written through an element writer"""
    def split(self, cfg):
        m = self.m
        names = set()
        for o in m.ok('string', cfg):
            names.add(o[1][0][1] if o[1] and o[1][0][0] == 'open' else '?')
        return names, {''}, m.nextcfg('string', cfg)

    def position(self, cfg, where, key, allowed_end):
        m = self.m
        self.cx.count('positions checked')
        names, _, nxt = self.split(cfg)
        if nxt is None: m.bad('notext|%s' % where, 'string', 'text raises %s' % where); return None
        for k in self.kinds():
            os = m.outs(k, cfg)
            oks = [o for o in os if o[0] == 'ok']
            if not oks and not key: m.bad('refused|%s' % k, k, '%s %s always raises' % (k, where))
            if not oks and any(o[1] for o in os): m.bad('late|%s' % k, k, '%s %s writes before it raises' % (k, where))
            if key and k != 'string' and oks: m.bad('key|%s' % k, k, '%s is accepted as a map key, where the format has only text' % k)
            for o in oks:
                kinds = [t[0] for t in o[1] if t[0] != 'raw']
                if kinds[:1] != ['open'] or kinds[-1:] != ['close'] or kinds.count('open') != 1 or kinds.count('close') != 1:
                    m.bad('element|%s' % k, k, '%s %s does not write exactly one complete element (%s)' % (k, where, ' '.join(kinds)))
                if k in ('string', 'int', 'uint', 'float', 'blob') and kinds.count('pay') != 1:
                    m.bad('element|%s' % k, k, '%s %s does not write its text exactly once' % (k, where))
                if o[2] != nxt: m.bad('state|%s|%s' % (where, k), k, '%s %s leaves the state %s, other values leave %s' % (k, where, m.show(o[2]), m.show(nxt)))
        for k in ENDS:
            if key and m.ok(k, cfg): m.bad('key|%s' % k, k, '%s is accepted as a map key, where the format has only text' % k)
            for o in m.ok(k, cfg):
                kinds = [t[0] for t in o[1] if t[0] != 'raw']
                if kinds != ['open']: m.bad('element|%s' % k, k, '%s %s does not open exactly one element' % (k, where))
                if o[2][0][:-1] != nxt[0]: m.bad('level|%s|%s' % (where, k), k, '%s %s does not open exactly one level over the state a value leaves (%s, expected one above %s)' % (k, where, m.show(o[2]), m.show(nxt)))
        for k, e in ENDS.items():
            if e != allowed_end: m.must_raise(e, cfg, where)
            else:
                for o in m.ok(e, cfg):
                    if [t[0] for t in o[1] if t[0] != 'raw'] != ['close']: m.bad('element|%s' % e, e, '%s does not close exactly one element' % e)
        return names, '', nxt

    def gaps(self, seq, kind):
        m = self.m
        if kind == 'BeginMap':
            ks, vs = seq[0::2], seq[1::2]
            if len({frozenset(x[0]) for x in ks}) > 1 or len({frozenset(x[0]) for x in vs}) > 1: m.bad('alternate', kind, 'key and value elements do not alternate')
            if ks[0][0] & vs[0][0]: m.bad('alternate', kind, 'keys and values use the same element %s' % sorted(ks[0][0] & vs[0][0]))
            self.valnames = getattr(self, 'valnames', set()) | vs[0][0]
        else:
            self.valnames = getattr(self, 'valnames', set()) | set().union(*[x[0] for x in seq])
        if len(self.valnames) > 1: m.bad('names', kind, 'text uses different elements in different positions: %s' % sorted(self.valnames))


YEV = {'BeginMap': 'mapping_start', 'EndMap': 'mapping_end', 'BeginList': 'sequence_start', 'EndList': 'sequence_end', 'BeginDocument': 'document_start', 'EndDocument': 'document_end'}


def yaml(cx, m, cfgs):
    """formats delegated to a library with its own structural checks"""
    todo, seen = list(cfgs), set()
    while todo:
        c = todo.pop()
        if c in seen or len(seen) > 12: continue
        seen.add(c)
        for k, f in sorted(m.rule.methods.items()):
            if f is None: continue
            for o in m.outs(k, c):
                toks = [t[1] for t in o[1] if t[0] == 'y']
                if o[0] == 'ok':
                    todo.append(o[2])
                    if k in ('Close', 'Flush'): continue
                    want = YEV.get(k, 'scalar')
                    if toks.count(want) != 1 or toks[-1:] != [want]:
                        m.bad('event|%s' % k, k, '%s does not hand over exactly one %s event as its last (%s; state %s)' % (k, want, toks, m.show(c)))
                    if [t for t in toks if t not in (want, 'document_start', 'document_end', 'stream_start', 'stream_end')]:
                        m.bad('event|%s' % k, k, '%s hands over further events %s (state %s)' % (k, toks, m.show(c)))
                    indoc = dict(c[1])
                    if k not in ('BeginDocument', 'EndDocument'):
                        before = [x for x in toks if x.startswith('document')]
                        # a document is open when the event is handed over
                        key = m.docflag
                        if key and not indoc.get(key) and before != ['document_start']:
                            m.bad('document|%s' % k, k, '%s hands over an event outside a document (state %s)' % (k, m.show(c)))
                        if key and indoc.get(key) and before:
                            m.bad('document|%s' % k, k, '%s opens a second document (state %s)' % (k, m.show(c)))
                    if m.docflag:
                        after = dict(o[2][1]).get(m.docflag)
                        exp = 0 if k == 'EndDocument' else 1
                        if after != exp: m.bad('document|%s' % k, k, '%s leaves the document flag %s' % (k, 'set' if after else 'clear'))


def check(cx):
    p = cx.prog
    if BASE not in p.classes: raise AnalysisBroken('emitter base class not found')
    subs = [c for c in sorted(p.subclasses(BASE))]
    cx.need(subs, 'emitter implementations', 3)
    done = 0
    for cls in subs:
        m = Machine(cx, cls)
        r = m.rule
        if not r.cfgfields: continue
        done += 1
        cx.count('formats')
        cfgs = m.start()
        cfgs = {c for c in cfgs if all(v is not None for _, v in c[1]) and (c[0] is None or None not in c[0])}
        if len(cfgs) != 1: raise AnalysisBroken('%s: initial bookkeeping state not determined (%d)' % (cls, len(cfgs)))
        c0 = next(iter(cfgs))
        uses = {n.get('fq', '').split('::')[-1] for f in r.own for _, n in cx.eff.callees[f]}
        if any(u.startswith('yaml_emitter_emit') for u in uses):
            m.docflag = None
            for b in m.ok('BeginDocument', c0):
                ch = [a[0] for a, z in zip(c0[1], b[2][1]) if a != z]
                if len(ch) == 1: m.docflag = ch[0]
            if m.docflag is None: m.bad('document', 'BeginDocument', 'BeginDocument does not record that a document is open')
            yaml(cx, m, [c0])
        else:
            ck = Elements(cx, m) if any(u.startswith('xmlTextWriterStart') for u in uses) else Check(cx, m)
            top = m.nextcfg('BeginDocument', c0)
            if top is None: raise AnalysisBroken('%s: no state after BeginDocument' % cls)
            for c in sorted({c0, top}, key=repr):
                for e in ENDS.values(): m.must_raise(e, c, 'with no container open')
            before = cx.counts.get('containers explored', 0)
            ck.walk(top, 1)
            if cx.counts.get('containers explored', 0) == before: m.bad('containers', 'BeginMap', 'no container can be started at the top level')
        # nothing after closing
        live = [c0] + [o[2] for o in m.ok('BeginDocument', c0)]
        for c in live:
            for o in m.ok('Close', c):
                ch = [a for a, z in zip(o[2][1], c[1]) if a != z]
                if not ch: continue
                for k in sorted(r.methods):
                    if k in ('Close', 'Flush') or r.methods[k] is None: continue
                    m.must_raise(k, o[2], 'after Close')
                cx.count('closed states checked')
        tested(cx, m)
        cx.finish_engine(m.eng, 'bookkeeping')
    cx.need(range(done), 'formats with bookkeeping', 3)
    bypass(cx, subs)
    buffered(cx)


def tested(cx, m):
    """a bookkeeping state that is tested for is also entered"""
    p, r = cx.prog, m.rule
    asked, entered = {}, set()
    enums = {f['t'] if f['t'] in p.enums else next((e for e in p.enums if e in f['t']), None) for f in p.classes[m.cls]['fields'] if f['n'] in r.cfgfields}
    for fid in r.own:
        f = p.funcs[fid]
        for i, n in enumerate(f.nodes):
            if not n or n['k'] != 'DeclRefExpr' or n.get('dk') != 'EnumConstant': continue
            q = n.get('dq', '').rsplit('::', 1)[0]
            if n.get('t') not in enums and q not in {e.rsplit('::', 1)[0] for e in enums if e}: continue
            cmp_ = False
            for a in f.ancestors(i):
                x = f.nodes[a]
                if x['k'] == 'CaseStmt' or x['k'] == 'BinaryOperator' and x['op'] in ('==', '!='): cmp_ = True; break
                if x['k'] in ('BinaryOperator', 'CallExpr', 'CXXMemberCallExpr', 'ReturnStmt', 'CompoundStmt'): break
            if cmp_: asked.setdefault(n['dn'], (f, i))
            else: entered.add(n['dn'])
    for f in p.funcs.values():
        if f.cls == m.cls and f.kind == 'ctor':
            for n in f.nodes:
                if n and n['k'] == 'DeclRefExpr' and n.get('dk') == 'EnumConstant': entered.add(n['dn'])
    for e, (f, i) in sorted(asked.items()):
        cx.count('tested bookkeeping states')
        if e not in entered: cx.bad('%s|never|%s' % (m.nm, e), f.loc(i), '%s: the state %s is tested for but never entered' % (m.nm, e))


class Order(Rule):
    """S6: text that bypasses the buffer is written with the buffer empty"""
    inline_depth = 6
    keep_obj = SELF.a[0]
    def __init__(self, cx, cls, ln, buf):
        self.cx, self.cls, self.ln, self.buf = cx, cls, ln, buf
        self.keep = (ln,)
    def inline(self, eng, st, fr, nid, n, g):
        return g.cls == self.cls
    def devirt(self, eng, st, fr, nid, n, obj):
        if obj is deref(SELF):
            for t in self.cx.prog.targets(n):
                if t in self.cx.prog.funcs and self.cx.prog.funcs[t].cls == self.cls: return t
    def assign(self, eng, st, fr, nid, loc, val):
        if loc is T('fld', deref(SELF), self.ln):
            st.add(('empty',)) if val is ZERO else st.drop(lambda t: t[0] == 'empty')
    def branch(self, eng, st, fr, cond, val, term, nid):
        v = eng.value_of(st, T('fld', deref(SELF), self.ln))
        if v is ZERO or simp(mkcmp('>', v, ZERO), st.conds) == 0 or simp(truth(v), st.conds) == 0 or simp(mkcmp('==', v, ZERO), st.conds) == 1: st.add(('empty',))
    def call(self, eng, st, fr, nid, n, obj, args):
        if n.get('fq', '').split('::')[-1] != 'Write' or 'EmitterOutput' not in n.get('cls', ''): return
        loc = T('fld', deref(SELF), self.ln)
        pend = lambda x: x.k == 'fld' and x.a[1] == self.ln
        self.cx.count('writes to the destination')
        if len(args) == 2 and mentions(args[0], lambda x: x.k == 'fld' and x.a[1] == self.buf) and mentions(args[1], pend): return
        v = eng.value_of(st, loc)
        if ('empty',) in st.facts: return
        if len(args) == 2 and mentions(args[0], lambda x: x.k == 'fld' and x.a[1] == self.buf) and mentions(args[1], lambda x: x is v): return
        self.cx.bad('bypass|%s' % fn_key(fr.f), fr.f.loc(nid), '%s: writes past the buffer while buffered bytes may still be pending' % short(fr.f.q))


def bypass(cx, subs):
    p = cx.prog
    for cls in subs:
        rec = p.classes[cls]
        bufs = [f['n'] for f in rec['fields'] if f['t'].startswith('std::vector<char') or f['t'].startswith('std::basic_string') or f['t'].startswith('char[')]
        lens = [f['n'] for f in rec['fields'] if f['t'] in ('unsigned int', 'unsigned long', 'int', 'long')]
        for b in bufs:
            # the length counter is the field the buffer is indexed with
            ln = None
            for f in p.funcs.values():
                if f.cls != cls: continue
                for i, n in enumerate(f.nodes):
                    if n and n.get('oop') == '[]' and 'obj' in n and cx.eff.fieldname(f, n['obj']) == b:
                        m = cx.eff.fieldname(f, n['args'][0])
                        if m in lens: ln = m
            if ln is None: continue
            cx.count('buffered writers')
            r = Order(cx, cls, ln, b)
            eng = cx.engine(r)
            for f in sorted(p.funcs.values(), key=lambda f: f.id):
                if f.cls == cls and f.cfg and f.kind == 'method': eng.run(f, SELF)
            cx.finish_engine(eng, 'ordering')


class Buf(Rule):
    """S7: the event buffer"""
    inline_depth = 3
    max_states = 32
    def __init__(self, cx, cls, level): self.cx, self.cls, self.level = cx, cls, level
    def inline(self, eng, st, fr, nid, n, g):
        return g.cls == self.cls and not self.updates(g)
    def updates(self, g):
        return any(m == 'len' for m in self.cx.eff.direct.get(g.id, ())) and g.kind == 'method'
    def bump(self, st, k, d):
        v = sum(t[1] for t in st.facts if t[0] == k)
        st.drop(lambda t: t[0] == k); st.add((k, v + d))
    def init(self, eng, st):
        for k in ('lvl', 'upd', 'push'): st.add((k, 0))
    def call(self, eng, st, fr, nid, n, obj, args):
        g = self.cx.prog.funcs.get(n.get('fn'))
        if g is not None and self.updates(g): self.bump(st, 'upd', 1)
        if n.get('fq', '').split('::')[-1] in ('push_back', 'emplace_back') and obj is not None and obj.k == 'fld': self.bump(st, 'push', 1)
    def elem(self, eng, st, fr, nid, n):
        if n['k'] == 'UnaryOperator' and n['op'] in ('++', '--', 'post++', 'post--') and self.cx.eff.fieldname(fr.f, n['c'][0]) == self.level:
            self.bump(st, 'lvl', 1 if '+' in n['op'] else -1)
        if n['k'] == 'CompoundAssignOperator' and n['op'] in ('+=', '-=') and self.cx.eff.fieldname(fr.f, n['c'][0]) == self.level:
            v = fr.f.nodes[fr.f.strip(n['c'][1])]
            k = v.get('cv', v.get('v'))
            if k is not None: self.bump(st, 'lvl', int(k) if n['op'] == '+=' else -int(k))
        if n['k'] == 'BinaryOperator' and n['op'] == '=' and self.cx.eff.fieldname(fr.f, n['c'][0]) == self.level:
            loc = eng.lv(st, fr, n['c'][0])
            v = eng.ev(st, fr, n['c'][1])
            if v.k in '+-' and v.a[0] is eng.value_of(st, loc) and v.a[1].k == 'i': self.bump(st, 'lvl', v.a[1].a[0] if v.k == '+' else -v.a[1].a[0])
            else: self.bump(st, 'lvl', 99)
    def exit(self, eng, st):
        f = eng.root_func
        got = {t[0]: t[1] for t in st.facts if t[0] in ('lvl', 'upd', 'push')}
        k = self.kind
        want = 1 if k.startswith('Begin') else -1 if k.startswith('End') else 0
        self.cx.count('event buffer paths')
        if got['lvl'] != want: self.cx.bad('buffer|level|%s' % k, f.loc(), '%s: changes the nesting level by %d instead of %d' % (short(f.q), got['lvl'], want))
        if got['push'] != 1: self.cx.bad('buffer|push|%s' % k, f.loc(), '%s: records %d events instead of one' % (short(f.q), got['push']))
        counts = k not in ('BeginDocument', 'EndDocument', 'EndMap', 'EndList')
        parent = any(not v and c.k != '==' for c, v in st.conds.items())
        if got['upd'] > (1 if counts else 0): self.cx.bad('buffer|count|%s' % k, f.loc(), '%s: counts the entry %d times' % (short(f.q), got['upd']))
        self.upd = max(self.upd, got['upd'])


def buffered(cx):
    p = cx.prog
    for cls in sorted(p.subclasses(BASE)):
        rec = p.classes[cls]
        lv = [f['n'] for f in rec['fields'] if f['t'] in ('int', 'unsigned int')]
        if not any(f['t'].startswith(CONT) and 'Event' in f['t'] for f in rec['fields']) or len(lv) != 1: continue
        fam = Fam(cx)
        r = Buf(cx, cls, lv[0])
        eng = cx.engine(r)
        for m in rec['methods']:
            k = fam.method_kind(cls, m['n'], m['pt'])
            f = p.funcs.get(m['id'])
            if k is None or f is None or not f.cfg: continue
            r.kind, r.upd = k, 0
            eng.run(f)
            if k not in ('BeginDocument', 'EndDocument', 'EndMap', 'EndList') and r.upd != 1:
                cx.bad('buffer|count|%s' % k, f.loc(), '%s: no path counts the entry in its container' % short(f.q))
        cx.finish_engine(eng, 'event buffer')
