import re
from checks.common import *

EXPLAIN = ('Writers and readers are compared spelling by spelling. Text functions (JSON strings, path strings, JSON pointers, Base64) are followed for every character value with the cursor\'s position in a periodic '
           'text as abstract state, and what they put out is given to the matching reader function the same way; the JSON reader is followed one character at a time over its control state and its tables. '
           'Element names, tags and the spellings of null, booleans and special numbers are taken from the writer methods by constant propagation and looked up in the reader\'s name table, pattern and switch.')
TECH = 'constant propagation through writer and reader functions per character and per spelling, with table extraction; writer output composed with the reader'
NOTE = 'All 255 characters per text function; all Base64 digits in all positions; every spelling a writer method can produce.'
RULE = ('V1 each character is written in a form the reader turns into that character and nothing else; V2 words, brackets and numbers are accepted and mean what was written; V3 element names and tags select the kind they were written for; '
        'V4 Base64 agrees with RFC 4648 both ways; V5 a string that reads like another scalar is quoted; V6 the blob marker is recognised and skipped exactly; V7 a number keeps a decimal point where its kind depends on it, and enough digits')
ASSUME = ['text handed to a writer has no NUL character', 'libxml2 and libyaml escape and unescape according to their formats']

STRINGS = ('append', 'push_back', 'operator+=', 'operator<<', 'put', 'write', 'sputc', 'sputn', 'assign')


def char(v): return v - 256 if v > 127 else v


def base(t):
    while t.k in ('fld', 'idx', '*', 'elem', '&', '+', '-'): t = t.a[0]
    return t


def named(p, name): return [f for f in p.funcs.values() if f.q.split('::')[-1] == name and f.cfg]


class Fold(Rule):
    """constants through compound assignments, steps and constant tables"""
    inline_depth = 6
    max_states = 60
    max_steps = 20000
    open_enums = True
    def __init__(self): self.pend = {}
    def elem(self, eng, st, fr, nid, n):
        if n['k'] == 'CompoundAssignOperator' or n['k'] == 'UnaryOperator' and n['op'] in ('++', '--', 'post++', 'post--'):
            loc = eng.lv(st, fr, n['c'][0])
            old = eng.value_of(st, loc)
            op = n['op'].replace('post', '')
            rhs = eng.ev(st, fr, n['c'][1]) if n['k'] == 'CompoundAssignOperator' else ONE
            self.pend = {}
            self.step(eng, st, fr, nid, n, loc, old, op[0] if op in ('++', '--') else op[:-1], rhs)
    def step(self, eng, st, fr, nid, n, loc, old, op, rhs):
        if old.k == 'i' and rhs.k == 'i':
            x, y = old.a[0], rhs.a[0]
            if op in '+-*': self.pend[nid] = I(x + y if op == '+' else x - y if op == '-' else x * y)
            elif op in ('&', '|', '^') or op in ('<<', '>>') and 0 <= y < 32:
                if op == '&' and y < 0: y &= 0xffffffff
                self.pend[nid] = I(x & y if op == '&' else x | y if op == '|' else x ^ y if op == '^' else x << y if op == '<<' else x >> y)
    def assign(self, eng, st, fr, nid, loc, val): return self.pend.pop(nid, None)
    def load(self, eng, st, fr, nid, loc):
        v = self.table(eng, fr, loc)
        if v is not None: st.mem[loc] = I(v)
    def table(self, eng, fr, loc):
        idx = []
        while loc.k == 'idx' and loc.a[1].k == 'i':
            idx.insert(0, loc.a[1].a[0])
            loc = loc.a[0]
            if loc.k == '&': loc = loc.a[0]
        if not idx or loc.k not in ('glob', 'var'): return None
        v = eng.prog.vars.get(loc.a[-1])
        if v is None: return None
        x = v.get('val')
        if x is None and 'str' in v: x = [char(b) for b in v['str'].encode('latin-1', 'replace')] + [0]
        for i in idx:
            if not isinstance(x, list) or not 0 <= i < len(x): return None
            x = x[i]
        return x if isinstance(x, int) else None


class Text(Fold):
    """what a function makes of a text: prefix, then one word again and again; positions in it are carried by the cursors"""
    accessors = STRINGS
    def __init__(self, word, prefix=(), once=False, stores=False):
        Fold.__init__(self)
        self.word = tuple(word); self.prefix = tuple(prefix); self.once = once; self.stores = stores
        self.outs = set(); self.loads = 0; self.where = None
    # -- positions
    def at(self, st, t):
        for f in st.facts:
            if f[0] == 'at' and f[1] is t: return f[2]
        if t.k == 'i': return self.norm(t.a[0] - len(self.prefix))
        if t.k == '+' and t.a[1].k == 'i':
            b = self.at(st, t.a[0])
            return None if b is None else self.norm(b + t.a[1].a[0])
        if t.k == '+' and t.a[0].k != 'i': return self.at(st, t.a[1])
        if t.k in ('copy',): return self.at(st, t.a[0])
        return None
    def norm(self, k): return k if k < 0 else k % len(self.word)
    def first(self): return -len(self.prefix)
    def letter(self, k): return self.prefix[k] if k < 0 else self.word[k]
    def cursor(self, loc):
        if loc.k == '*': return loc.a[0]
        if loc.k == 'elem': return loc.a[0]
        if loc.k == 'idx':
            if loc.a[1].k == 'i' and loc.a[0].k not in ('p', 'var', 'fld', '&', 'call', 'hv') : return T('+', loc.a[0], loc.a[1])
            return T('+', loc.a[0], loc.a[1]) if loc.a[1].k == 'i' and loc.a[1].a[0] else loc.a[1] if loc.a[1].k != 'i' else loc.a[0] if loc.a[0].k in ('upd', 'old', 'prev') else loc.a[1]
        return None
    def is_char(self, n): return (n.get('t') or '').replace('const ', '').replace('unsigned ', '').replace('signed ', '').strip() in ('char',)
    def load(self, eng, st, fr, nid, loc):
        n = fr.f.nodes[nid]
        if self.is_char(n) and loc.k in ('*', 'elem', 'idx'):
            if Fold.table(self, eng, fr, loc) is not None: return Fold.load(self, eng, st, fr, nid, loc)
            c = self.cursor(loc)
            if c is None or self.foreign(st, loc): return
            self.loads += 1
            k = self.at(st, c)
            if k is None:
                k = self.first()
                st.add(('at', c, k))
            self.read(st, c, k)
            st.mem[loc] = I(char(self.letter(k)))
        else: Fold.load(self, eng, st, fr, nid, loc)
    def foreign(self, st, loc):
        r = base(loc)
        return any(f[0] == 'buf' and f[1] is r for f in st.facts)
    def read(self, st, c, k):
        if k == 0 and ('seen', c) not in st.facts:
            s = self.seq(st)
            if s is not None: self.outs.add(s)
            st.drop(lambda f: f[0] in ('seen', 'seq'))
            st.add(('seen', c)); st.add(('seq', ()))
        elif k < 0: st.add(('begun',))
    def seq(self, st):
        for f in st.facts:
            if f[0] == 'seq': return f[1]
        return None
    def move(self, st, old, new, by, prev=None):
        k = self.at(st, old)
        if k is None: k = self.first()
        seen = ('seen', old) in st.facts
        st.drop(lambda f: f[0] in ('at', 'seen') and f[1] is new)
        if prev is not None and prev is not old:
            st.drop(lambda f: f[0] in ('at', 'seen') and f[1] is prev)
            st.add(('at', prev, k))
            if seen: st.add(('seen', prev))
        st.add(('at', new, self.norm(k + by)))
    def step(self, eng, st, fr, nid, n, loc, old, op, rhs):
        t = (n.get('t') or '')
        if loc.k in ('var', 'p', 'fld') and op in '+-' and rhs.k == 'i' and self.indexish(fr.f, n, loc, t):
            self.pend = {('move', nid): (old, rhs.a[0] if op == '+' else -rhs.a[0], n['op'].startswith('post'))}
        else: Fold.step(self, eng, st, fr, nid, n, loc, old, op, rhs)
    def indexish(self, f, n, loc, t):
        if t.replace('const ', '').replace(' ', '').startswith(('char*', 'unsignedchar*', 'signedchar*')): return True
        d = f.nodes[f.strip(n['c'][0])].get('d')
        if d is None: return False
        k = getattr(f, '_subs', None)
        if k is None:
            k = set()
            for m in f.nodes:
                if not m: continue
                ix = m['c'][1] if m['k'] == 'ArraySubscriptExpr' else m['args'][-1] if m.get('oop') == '[]' and m.get('args') else m['args'][0] if (m.get('fq') or '').split('::')[-1] == 'at' and m.get('args') else None
                if ix is not None: k |= {f.nodes[x].get('d') for x in f.walk(ix) if f.nodes[x]['k'] == 'DeclRefExpr'}
            f._subs = k
        return d in k
    def assign(self, eng, st, fr, nid, loc, val):
        m = self.pend.pop(('move', nid), None)
        if m is not None:
            self.move(st, m[0], val, m[1], T('prev', fr.uid, nid))
            return None
        if self.stores and loc.k in ('*', 'idx') and self.is_char(fr.f.nodes[nid]):
            v = self.pend.get(nid) or val
            self.emit(st, fr, nid, (v.a[0] & 255 if v.k == 'i' else '?',))
        return Fold.assign(self, eng, st, fr, nid, loc, val)
    def forget(self, eng, st, t, memo):
        pass
    # -- calls
    def sink(self, g):
        """a function that passes text on without looking at it"""
        k = getattr(g, '_sink', None)
        if k is None:
            k = any(x['t'].replace('const ', '').strip() in ('char *', 'void *', 'char', 'std::basic_string<char> &') for x in g.params) and g.ret == 'void'
            if k and g.nodes:
                for i, n in enumerate(g.nodes):
                    if not n: continue
                    if n['k'] == 'CharacterLiteral': k = False
                    if n['k'] in ('BinaryOperator',) and n['op'] in ('==', '<', '>', '<=', '>=', '!='):
                        if any((g.nodes[g.strip(c)].get('t') or '').replace('const ', '') in ('char', 'unsigned char', 'signed char') for c in n['c']): k = False
            g._sink = k
        return k
    def inline(self, eng, st, fr, nid, n, g):
        return not self.sink(g) and g.kind not in ('ctor', 'dtor') and self.texty(g)
    def texty(self, g):
        return any(x['t'].replace('const ', '').replace('unsigned ', '').strip() in ('char *', 'char', 'std::basic_string<char> &', 'char &', 'const char *&', 'char *&') for x in g.params)
    def call(self, eng, st, fr, nid, n, obj, args):
        if n.get('oop') in ('++', '--') and (obj is not None or args):
            o = obj if obj is not None else args[0]
            self.pend = {('it', nid): (o, eng.value_of(st, o), 1 if n['oop'] == '++' else -1)}
    def after(self, eng, st, fr, nid, n, obj, args, res):
        name = (n.get('fq') or '').split('::')[-1]
        m = self.pend.pop(('it', nid), None)
        if m is not None:
            o, old, by = m
            post = len(n.get('pt', [])) >= (1 if obj is not None else 2)
            new = T('upd', fr.uid, nid)
            self.move(st, old, new, by, T('prev', fr.uid, nid))
            st.mem[o] = new
            st.res[(fr.uid, nid)] = T('prev', fr.uid, nid) if post else o
            return
        if n.get('oop') == '*' and not n.get('sys') and self.is_char(n) and obj is not None:
            c = eng.value_of(st, obj)
            k = self.at(st, c)
            if k is None: k = self.first(); st.add(('at', c, k))
            self.loads += 1
            self.read(st, c, k)
            st.res[(fr.uid, nid)] = I(char(self.letter(k)))
            return
        if n.get('oop') in ('==', '!=') and not n.get('sys') and len(([obj] if obj is not None else []) + list(args)) == 2:
            a, b = [eng.value_of(st, x) for x in ([obj] if obj is not None else []) + list(args)]
            st.res[(fr.uid, nid)] = mkcmp(n['oop'], a, b)
            return
        if name in ('snprintf', 'sprintf', '__builtin___snprintf_chk', '__builtin___sprintf_chk') and args:
            fi = next((i for i, a in enumerate(args) if a.k == 's'), None)
            r = base(args[0])
            st.drop(lambda f: f[0] == 'buf' and f[1] is r)
            if fi is not None and all(a.k == 'i' for a in args[fi + 1:]):
                try: st.add(('buf', r, args[fi].a[0] % tuple(a.a[0] for a in args[fi + 1:])))
                except (TypeError, ValueError): st.add(('buf', r, None))
            else: st.add(('buf', r, None))
            return
        g = eng.prog.funcs.get(n.get('fn'))
        out = None
        if n.get('sys') and (name in STRINGS or n.get('oop') in ('+=', '<<')):
            a = list(args)
            pt = list(n.get('pt', []))
            if n.get('oop') in ('+=', '<<') and obj is None: a = a[1:]; pt = pt[1:]
            out = self.pieces(st, fr, n, a, pt)
        elif g is not None and self.sink(g): out = self.pieces(st, fr, n, list(args), list(n.get('pt', [])))
        elif name in ('clear', 'erase') and n.get('sys'): out = ('!' + name,)
        if out is not None: self.emit(st, fr, nid, out)
    def emit(self, st, fr, nid, out):
        s = self.seq(st)
        if s is None or len(s) > 24: return
        if self.where is None: self.where = fr.f.loc(nid)
        st.drop(lambda f: f[0] == 'seq')
        st.add(('seq', s + tuple(out)))
    def pieces(self, st, fr, n, a, pt):
        if not a: return ('?',)
        cnt = None
        ct = [t.replace('const ', '').rstrip('&').strip() for t in pt]
        if len(a) >= 2 and a[0].k == 'i' and a[1].k == 'i' and len(ct) > 1 and ct[1] == 'char':       # append(n, c)
            return (a[1].a[0] & 255,) * min(a[0].a[0], 8)
        if a[0].k == 'i': return (a[0].a[0] & 255,) if ct and ct[0] in ('char', 'unsigned char', 'signed char') else ('?',)
        if len(a) > 1 and a[1].k == 'i': cnt = a[1].a[0]
        if a[0].k == 's':
            b = a[0].a[0].encode('latin-1', 'replace')
            return tuple(b[:cnt] if cnt is not None else b)
        x = a[0].a[0] if a[0].k == '&' else a[0]
        for f in st.facts:
            if f[0] == 'buf' and f[1] is base(x): return tuple(f[2].encode('latin-1')) if f[2] is not None else ('?',)
        c = self.cursor(x) if x.k in ('*', 'idx', 'elem') else x
        k = self.at(st, c) if c is not None else None
        if k is not None and cnt is not None and 0 < cnt <= 8 and (len(ct) < 1 or 'char' in ct[0] or 'void' in ct[0]):
            return tuple(self.letter(self.norm(k + j)) for j in range(cnt))
        return ('?',)
    def branch(self, eng, st, fr, cond, val, term, nid):
        v = val
        while cond.k == '!': cond = cond.a[0]; v = not v
        if cond.k in ('==', '<') and v in (True, False):
            for i in (0, 1):
                k = self.at(st, cond.a[i]) if cond.a[i].k not in ('i',) else None
                if k is None or cond.a[1 - i].k == 'i' or self.at(st, cond.a[1 - i]) is not None: continue
                end = cond.k == '==' and v or cond.k == '<' and i == 0 and not v
                if self.once and k == 0 and not end and self.seq(st) is not None: return False
                if end:
                    if k: return False          # the text ends with a whole word
                    if self.once: continue
                    s = self.seq(st)
                    if s is not None: self.outs.add(s)
                    st.drop(lambda f: f[0] in ('seen', 'seq'))
        return None
    def exit(self, eng, st):
        s = self.seq(st)
        if self.once and s is not None: self.outs.add(s)


def spell(cx, f, word, prefix=(), **k):
    r = Text(word, prefix, **k)
    eng = cx.engine(r)
    eng.run(f)
    cx.finish_engine(eng, 'texts')
    return r


class Char(Text):
    """one character through the JSON reader: new control state, effect on the text collected, what is reported"""
    max_states = 200
    FIELDS = ('state', 'type', 'escaped', 'comment', 'utf16_high_surrogate')
    def __init__(self, c, s, tail): Text.__init__(self, tail or (0,)); self.c = c; self.s = s; self.outs = set()
    def load(self, eng, st, fr, nid, loc):
        x = fr.f.nodes[fr.f.strip(fr.f.nodes[nid]['c'][0])]
        if x['k'] == 'UnaryOperator' and x['op'] == '*' and self.is_char(fr.f.nodes[nid]):
            c = loc.a[0] if loc.k == '*' else T('&', loc)
            k = self.at(st, c)
            if k is None: k = 0; st.add(('at', c, 0))
            st.mem[loc] = I(char(self.letter(k)))
        else: Fold.load(self, eng, st, fr, nid, loc)
    def read(self, st, c, k): pass
    def call(self, eng, st, fr, nid, n, obj, args): pass
    def branch(self, eng, st, fr, cond, val, term, nid): pass
    def inline(self, eng, st, fr, nid, n, g): return g.file == eng.root_func.file
    def init(self, eng, st):
        f = eng.root_func
        self.jc = T('*', T('p', 0, f.params[0]['n'] or 'arg0'))
        st.mem[T('p', 1, f.params[1]['n'] or 'arg1')] = I(self.c)
        for k, v in zip(self.FIELDS, self.s): st.mem[T('fld', self.jc, k)] = I(v)
        st.mem[T('fld', self.jc, 'callback')] = T('&', T('callback'))
        st.add(('buf', ()))
    def note(self, st, *ev):
        b = next(f[1] for f in st.facts if f[0] == 'buf')
        st.drop(lambda f: f[0] == 'buf')
        st.add(('buf', b + (ev,)))
    def member(self, f, i):
        n = f.nodes[f.strip(i)]
        if n['k'] == 'ArraySubscriptExpr': return 'at ' + (self.member(f, n['c'][0]) or '')
        return n.get('m') if n['k'] == 'MemberExpr' else None
    def step(self, eng, st, fr, nid, n, loc, old, op, rhs):
        if self.member(fr.f, n['c'][0]) == 'parse_buffer_count' and op == '-': self.note(st, 'pop', rhs.a[0] if rhs.k == 'i' else None)
        Text.step(self, eng, st, fr, nid, n, loc, old, op, rhs)
    def indexish(self, f, n, loc, t): return loc.k != 'fld' and '*' in t and 'char' in t
    def assign(self, eng, st, fr, nid, loc, val):
        n = fr.f.nodes[nid]
        if n['k'] == 'BinaryOperator':
            m = self.member(fr.f, n['c'][0])
            if m == 'at parse_buffer' and self.pushes(fr.f, n): self.note(st, 'push', val.a[0] & 255 if val.k == 'i' else None)
            elif m == 'parse_buffer_count' and val is ZERO: self.note(st, 'clear')
        return Text.assign(self, eng, st, fr, nid, loc, val)
    def pushes(self, f, n): return any(f.nodes[x].get('op') in ('++', 'post++') for x in f.walk(f.nodes[f.strip(n['c'][0])]['c'][1]))
    def after(self, eng, st, fr, nid, n, obj, args, res):
        if not n.get('fn') and not n.get('sys') and len(args) == 3:
            self.note(st, 'report', args[1].a[0] if args[1].k == 'i' else None)
            st.res[(fr.uid, nid)] = ONE
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is not None or val is None or val is ZERO: return
        s = tuple(v.a[0] if v.k == 'i' else None for v in (eng.value_of(st, T('fld', self.jc, k)) for k in self.FIELDS))
        self.outs.add((s, next(f[1] for f in st.facts if f[0] == 'buf')))


class Reader:
    """the JSON reader, a character at a time"""
    def __init__(self, cx):
        self.cx = cx; p = cx.prog
        self.f = next(iter(named(p, 'JSON_parser_char')), None)
        self.memo = {}
        self.en = {x['n']: int(x['v']) for e in p.enums.values() if e['file'].endswith(('JSON_parser.c', 'JSON_parser.h')) for x in e['e']}
        self.ok = self.f is not None and all(k in self.en for k in ('ST', 'AR', 'OK', 'JSON_T_STRING', 'JSON_T_NONE'))
    def one(self, c, s, tail):
        key = (c, s, tail if s[0] == self.en.get('U4') else None)
        if key not in self.memo:
            r = Char(c, s, key[2])
            eng = self.cx.engine(r)
            eng.run(self.f)
            self.cx.finish_engine(eng, 'JSON characters')
            self.memo[key] = r.outs if not eng.truncated else None
        return self.memo[key]
    def feed(self, text, s):
        """all (control state, collected text, reports) after an accepted text; None when not followed"""
        cur = {(s, (), ())}
        for c in text:
            nxt = set()
            for s, buf, rep in cur:
                o = self.one(c, s, (buf[-3:] + (c,))[-4:] if '?' not in buf[-3:] else None) if None not in s else None
                if o is None: return None
                for s2, evs in o:
                    b, r = list(buf), rep
                    for e in evs:
                        if e[0] == 'push':
                            b.append('?' if e[1] is None else e[1])
                        elif e[0] == 'pop':
                            if e[1] is None: return None
                            del b[len(b) - e[1]:]
                        elif e[0] == 'clear': b = []
                        else: r = r + (e[1],)
                    nxt.add((s2, tuple(b), r))
            cur = nxt
        return cur
    def start(self, state, ty): return (self.en[state], self.en[ty], 0, 0, 0)


class Out(Text):
    """what a writer's method puts out: pieces of text, elements and scalars, with the stream contents they are made of"""
    max_states = 40
    accessors = STRINGS + ('c_str', 'str', 'data', 'length', 'size')
    def __init__(self, cls, assume=None): Text.__init__(self, (0,)); self.cls = cls; self.assume = assume; self.outs = []
    def load(self, eng, st, fr, nid, loc): Fold.load(self, eng, st, fr, nid, loc)
    def call(self, eng, st, fr, nid, n, obj, args): pass
    def branch(self, eng, st, fr, cond, val, term, nid): pass
    def step(self, *a): Fold.step(self, *a)
    def assign(self, *a): return Fold.assign(self, *a)
    def inline(self, eng, st, fr, nid, n, g):
        return g.kind not in ('ctor', 'dtor') and g.cls == self.cls and not self.out(g)
    def out(self, g): return self.sink(g) and self.raw(g)
    def raw(self, g): return not any((n.get('fq') or '').startswith(('xmlTextWriter', 'yaml_')) or n.get('fn') in self.cx.prog.funcs and self.cx.prog.funcs[n['fn']].cls == g.cls and self.marks(self.cx.prog.funcs[n['fn']]) for _, n in g.calls())
    def marks(self, g, d=0):
        return any((n.get('fq') or '').startswith(('xmlTextWriterStart', 'xmlTextWriterWrite', 'xmlTextWriterEnd', 'yaml_scalar')) for _, n in g.calls()) or \
            d < 3 and any(h is not None and h.cls == g.cls and h.id != g.id and self.marks(h, d + 1) for h in (self.cx.prog.funcs.get(n.get('fn')) for _, n in g.calls()))
    def init(self, eng, st):
        st.add(('o', ()))
    def content(self, st, t):
        for _ in range(12):
            for f in st.facts:
                if f[0] == 'stream' and f[1] is t: return f[2]
            if t.k in ('copy',): t = t.a[0]
            elif t.k == 'ctor' and t.a[1]: t = t.a[1][0]
            elif t.k == '&' and t.a[0].k in ('idx',): t = t.a[0].a[0]
            elif t.k == 'call' and (t.a[0] or '').split('::')[-1] in ('c_str', 'data', 'str') and t.a[1] is not None: t = t.a[1]
            elif t.k not in ('s', 'i') and t in st.mem and st.mem[t] is not t: t = st.mem[t]
            elif t.k == '&': t = t.a[0]
            else: break
        if t.k == 's': return (('lit', t.a[0]),)
        if t.k == 'p': return (('arg', t.a[0]),)
        return (('?',),)
    def put(self, st, *tok):
        o = next(f[1] for f in st.facts if f[0] == 'o')
        st.drop(lambda f: f[0] == 'o')
        if len(o) < 16: o = o + (tok,)
        st.add(('o', o))
    def after(self, eng, st, fr, nid, n, obj, args, res):
        fq = n.get('fq') or ''
        name = fq.split('::')[-1]
        g = eng.prog.funcs.get(n.get('fn'))
        if n.get('sys') and n.get('oop') == '<<':
            s = obj if obj is not None else args[0]
            a = args[-1]
            c = (('showpoint',),) if a.k == 'fn' and 'showpoint' in a.a[0] or a.k == '&' and a.a[0].k == 'fn' and 'showpoint' in a.a[0].a[0] else \
                (('prec', a.a[2][0] if len(a.a) > 2 and a.a[2] else a),) if a.k == 'call' and a.a[0].endswith('setprecision') else \
                (('lit', chr(a.a[0] & 255)),) if a.k == 'i' else (('num',),) if a.k == 'p' else self.content(st, a)
            while s.k == '&': s = s.a[0]
            old = next((f[2] for f in st.facts if f[0] == 'stream' and f[1] is s), ())
            st.drop(lambda f: f[0] == 'stream' and f[1] is s)
            st.add(('stream', s, (old + c)[:8]))
            st.res[(fr.uid, nid)] = s
        elif n.get('sys') and name in ('str', 'c_str', 'data') and obj is not None:
            st.res[(fr.uid, nid)] = obj
        elif name in ('precision', 'setf') and n.get('sys') and obj is not None and args:
            old = next((f[2] for f in st.facts if f[0] == 'stream' and f[1] is obj), ())
            st.drop(lambda f: f[0] == 'stream' and f[1] is obj)
            st.add(('stream', obj, (old + ((('prec', args[0]),) if name == 'precision' else (('showpoint',),)))[:8]))
        elif name.startswith('xmlTextWriterStartElement'): self.put(st, '<', self.content(st, args[1]))
        elif name.startswith('xmlTextWriterWriteElement'): self.put(st, '<', self.content(st, args[1])); self.put(st, 'text', self.content(st, args[2])); self.put(st, '>')
        elif name in ('xmlTextWriterEndElement', 'xmlTextWriterFullEndElement'): self.put(st, '>')
        elif name == 'xmlTextWriterWriteString': self.put(st, 'text', self.content(st, args[1]))
        elif name.startswith('xmlTextWriterWrite'): self.put(st, 'raw', fr.f.loc(nid), name)
        elif name == 'yaml_scalar_event_initialize':
            self.put(st, 'scalar', self.content(st, args[2]) if args[2] is not ZERO else None, self.content(st, args[3]), args[7].a[0] if args[7].k == 'i' else None, self.guarded(eng, st), fr.f.loc(nid))
        elif g is not None and self.out(g): self.put(st, 'out', self.content(st, args[0]))
    def guarded(self, eng, st):
        """a predicate that asks the reader's own table has been consulted"""
        for c, v in st.conds.items():
            if c.k == 'call':
                for g in eng.prog.fq(c.a[0]):
                    if asks(eng.prog, g):
                        r = reports(self.cx, g, answers={'regexec': ZERO}).rets
                        return len(r) == 1 and next(iter(r)).k == 'i' and bool(next(iter(r)).a[0]) != v
        return False
    def exit(self, eng, st):
        self.outs.append((next(f[1] for f in st.facts if f[0] == 'o'), dict(st.conds), st))
    def ret(self, eng, st, fr, nid, val): pass


def asks(p, g, d=0):
    k = getattr(g, '_asks', None)
    if k is None:
        k = any((n.get('fq') or '') == 'regexec' for _, n in g.calls()) or d < 3 and any(h is not None and h.id != g.id and asks(p, h, d + 1) for h in (p.funcs.get(n.get('fn')) for _, n in g.calls()))
        g._asks = k
    return k


def written(cx, f):
    r = Out(f.cls)
    eng = cx.engine(r)
    eng.run(f)
    cx.finish_engine(eng, 'writer methods')
    return r.outs


class Acts(Fold):
    """what a reader's function reports for given constants"""
    def __init__(self, params=(), files=(), answers=None, text=None):
        Fold.__init__(self); self.params = params; self.files = files; self.answers = answers or {}; self.text = text
        self.outs = set(); self.rets = set(); self.threw = 0
    def inline(self, eng, st, fr, nid, n, g): return g.kind not in ('ctor', 'dtor') and g.file in self.files and not any(t == g.q.split('::')[-1] for t in self.answers)
    def init(self, eng, st):
        for i, v in self.params: st.mem[T('p', i, eng.root_func.params[i]['n'] or 'arg%d' % i)] = v
        st.add(('a', ()))
    def strings(self, st, t):
        for _ in range(8):
            if t.k in ('copy',): t = t.a[0]
            elif t.k == 'ctor' and t.a[1]: t = t.a[1][0]
            elif t.k == 'call' and t.a[0].split('::')[-1] in ('c_str', 'data') and t.a[1] is not None: t = t.a[1]
            elif t.k not in ('s', 'i') and t in st.mem and st.mem[t] is not t: t = st.mem[t]
            else: break
        return t.a[0] if t.k == 's' else None
    def after(self, eng, st, fr, nid, n, obj, args, res):
        fq = n.get('fq') or ''
        name = fq.split('::')[-1]
        k = (fr.uid, nid)
        if name in self.answers:
            v = self.answers[name]
            st.res[k] = v(st, obj, args) if callable(v) else v
        elif name in ('strcasecmp', 'strcmp') and len(args) >= 2 or n.get('oop') in ('==', '!=') and n.get('sys') and 'basic_string' in ''.join(n.get('pt', [])) + (n.get('cls') or ''):
            a = [self.strings(st, x) for x in (([obj] if obj is not None else []) + list(args))[:2]]
            if None not in a:
                if name == 'strcasecmp': a = [x.lower() for x in a]
                st.res[k] = I(int((a[0] == a[1]) == (n.get('oop') == '==')))  if n.get('oop') else I(int(a[0] != a[1]))
        elif 'ParserActions::' in fq and name in ('Null', 'Scalar', 'BeginList', 'EndList', 'BeginMap', 'EndMap', 'BeginDocument', 'EndDocument', 'Alias'):
            pt = n.get('pt', [])
            kind = name
            if name == 'Scalar' and len(pt) > 1:
                t = pt[1].replace('const ', '').rstrip('&').strip()
                kind = 'blob' if 'Blob' in t else 'text' if t.startswith('char') else 'real' if t == 'double' else 'bool' if t == 'bool' else 'uint' if 'unsigned' in t else 'int' if 'long' in t or 'int' in t else t
                if kind == 'bool': kind = {ONE: 'true', ZERO: 'false'}.get(args[1], 'bool')
                if kind == 'real': kind += self.sign(args[1])
            a = next(f[1] for f in st.facts if f[0] == 'a')
            st.drop(lambda f: f[0] == 'a'); st.add(('a', (a + (kind,))[:6]))
    def sign(self, t):
        ks = [y.a[0] for y in subterms(t) if y.k == 'call']
        s = 'inf' if any('infinity' in x or 'huge_val' in x for x in ks) else 'nan' if any('NaN' in x or 'nan' in x for x in ks) else ''
        return ('-' if s == 'inf' and t.k == 'un' and t.a[0] == '-' else '') + s
    def exit(self, eng, st): self.outs.add(next(f[1] for f in st.facts if f[0] == 'a'))
    def exc_exit(self, eng, st, nid, ty): self.threw += 1
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is None: self.rets.add(val)


def reports(cx, f, **k):
    k.setdefault('files', (f.file,))
    r = Acts(**k)
    eng = cx.engine(r)
    eng.run(f)
    cx.finish_engine(eng, 'reader functions')
    return r


LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def show(s): return ''.join(chr(x) if isinstance(x, int) and 32 <= x < 127 else '\\x%02x' % x if isinstance(x, int) else '?' for x in s)


def known(outs): return bool(outs) and not any('?' in s for s in outs)


def method(p, cls, name, ptype=None, n=None):
    return [f for f in p.funcs.values() if f.cls == cls and f.cfg and f.q.split('::')[-1] == name and (ptype is None or f.params and ptype(f.params[0]['t'])) and (n is None or len(f.params) == n)]


TEXT = lambda t: t.replace('const ', '').strip() == 'char *'


def clean(o):
    """the pieces of a JSON writer method without separators"""
    out = ()
    for t in o:
        if t[0] != 'out': continue
        if all(c[0] == 'lit' for c in t[1]) and not ''.join(c[1] for c in t[1]).strip(' \n\t,:'): continue
        out += t[1]
    return out


def json_side(cx, rd):
    p = cx.prog
    cls = [c for c in p.subclasses('libvariant::EmitterImpl') if 'JSON' in c]
    if not rd.ok: cx.count('not followed: JSON reader'); return
    st = rd.start('ST', 'JSON_T_STRING')
    ar = rd.start('AR', 'JSON_T_NONE')
    for c in cls:
        for f in method(p, c, 'Emit', TEXT, 1):
            for ch in range(1, 256):
                r = spell(cx, f, (ch,))
                if not known(r.outs): cx.count('not followed: JSON characters'); continue
                cx.count('JSON characters')
                for s in r.outs:
                    got = rd.feed(s, st)
                    if got is None: cx.count('not followed: JSON characters read'); continue
                    if not got or any(g[0][:3] != st[:3] or g[1] != (ch,) for g in got):
                        w = 'refused' if not got else 'read as "%s"' % show(next(iter(sorted(g[1] for g in got))))
                        cx.bad('json|char|%d' % ch, r.where or f.loc(), '%s writes character 0x%02x as "%s", which the JSON reader has %s' % (short(f.q), ch, show(s), w) if got else
                               '%s writes character 0x%02x as "%s", which the JSON reader refuses' % (short(f.q), ch, show(s)))
        for m, ty in (('EmitNull', 'JSON_T_NULL'), ('EmitTrue', 'JSON_T_TRUE'), ('EmitFalse', 'JSON_T_FALSE'), ('BeginList', 'JSON_T_ARRAY_BEGIN'), ('EndList', 'JSON_T_ARRAY_END'), ('BeginMap', 'JSON_T_OBJECT_BEGIN'), ('EndMap', 'JSON_T_OBJECT_END')):
            for f in method(p, c, m):
                for o in {clean(o[0]) for o in written(cx, f)}:
                    if not o or any(x[0] != 'lit' for x in o): cx.count('not followed: JSON words'); continue
                    w = ''.join(x[1] for x in o)
                    cx.count('JSON words')
                    word(cx, rd, f, w, ty, (rd.en['OK'],) + ar[1:] if m.startswith('End') else ar)
        for f in method(p, c, 'Emit', lambda t: t == 'double'):
            for o in {clean(o[0]) for o in written(cx, f)}:
                if o and all(x[0] == 'lit' for x in o): word(cx, rd, f, ''.join(x[1] for x in o), 'JSON_T_NULL', ar); cx.count('JSON words')
    for w, ts in (('0', 'iu'), ('5', 'iu'), ('-5', 'iu'), ('18446744073709551615', 'iu'), ('0.0000000000000000', 'f'), ('-0.10000000000000001', 'f'), ('1.5000000000000000', 'f'), ('10000000000000000.', 'f'),
                  ('1.0000000000000000e+16', 'f'), ('-2.2250738585072014e-308', 'f'), ('1.e5', 'f')):
        got = rd.feed((w + ',').encode(), ar)
        if got is None: cx.count('not followed: JSON numbers'); continue
        cx.count('JSON numbers')
        reps = {g[2][-1:] for g in got}
        want = {(rd.en['JSON_T_FLOAT'],)} if ts == 'f' else {(rd.en['JSON_T_INTEGER'],), (rd.en['JSON_T_UNSIGNED'],)}
        if not reps & want or reps - want - {(rd.en['JSON_T_FLOAT'],)}:
            cx.bad('json|number|%s' % w, rd.f.loc(), 'the JSON reader %s the number %s' % ('refuses' if not got else 'reports another kind for', w))
    for cp in (0x00, 0x09, 0x1f, 0x41, 0x7f, 0x80, 0xab, 0xcd, 0xef, 0x7ff, 0x800, 0xfff, 0x1000, 0x2345, 0x6789, 0xabcd, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff):
        for up in (False, True):
            u = [cp] if cp < 0x10000 else [0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff)]
            w = ''.join('\\u' + ('%04X' if up else '%04x') % x for x in u)
            got = rd.feed(w.encode(), st)
            if got is None: cx.count('not followed: JSON code points'); continue
            cx.count('JSON code points')
            if not got or any(g[0] != st or bytes(x for x in g[1] if x != '?') != chr(cp).encode('utf-8') for g in got):
                cx.bad('json|u|%04x' % cp, rd.f.loc(), 'the JSON reader does not turn %s into the UTF-8 text of U+%04X' % (w, cp))


def word(cx, rd, f, w, ty, s):
    got = rd.feed(w.encode('latin-1', 'replace'), s)
    if got is None: cx.count('not followed: JSON words read'); return
    want = rd.en[ty]
    if not got: cx.bad('json|word|%s|%s' % (fn_key(f), w), f.loc(), '%s writes %s, which the JSON reader refuses' % (short(f.q), w))
    for g in got:
        if g[2]: ok = g[2][-1] == want
        else: ok = g[0][0] == rd.en['OK'] and g[0][1] == want
        if not ok: cx.bad('json|word|%s|%s' % (fn_key(f), w), f.loc(), '%s writes %s, which the JSON reader takes for something else' % (short(f.q), w))


def pairs(cx, what, writer, reader, special, prefix, mixed):
    for w in writer:
        for x in mixed:
            for y in mixed:
                word = (ord(x), ord(y))
                a = spell(cx, w, word)
                if not known(a.outs): cx.count('not followed: %s character pairs' % what); continue
                cx.count('%s character pairs' % what)
                for s in a.outs:
                    for r in reader:
                        b = spell(cx, r, s, prefix)
                        if any(v != word for v in b.outs) and known(b.outs):
                            cx.bad('%s|pair|%s' % (what, x + y), a.where or w.loc(), '%s writes "%s" as "%s", of which %s makes "%s"' % (short(w.q), x + y, show(s), short(r.q), show(sorted(b.outs)[0])))
        for ch in range(1, 256):
            a = spell(cx, w, (ch,))
            if not known(a.outs): cx.count('not followed: %s characters' % what); continue
            cx.count('%s characters' % what)
            for s in a.outs:
                if ch in special and ch in s and len(s) == 1 or any(x in s for x in special if x != 92 and (x != ch or s[:1] == (x,)) and what == 'pointer'):
                    cx.bad('%s|char|%d' % (what, ch), a.where or w.loc(), '%s leaves character "%s" as "%s"' % (short(w.q), chr(ch), show(s)))
                    continue
                for r in reader:
                    b = spell(cx, r, s, prefix)
                    if not b.outs: cx.count('not followed: %s characters read' % what); continue
                    if any(x != (ch,) for x in b.outs):
                        x = next(iter(sorted(b.outs, key=str)))
                        cx.bad('%s|char|%d' % (what, ch), a.where or w.loc(), '%s writes character 0x%02x as "%s", of which %s makes "%s"' % (short(w.q), ch, show(s), short(r.q), show(x)))


def base64(cx):
    import base64 as b64
    p = cx.prog
    enc = [f for f in named(p, 'Base64Encode') if any('iovec' in x['t'] for x in f.params)]
    dec = named(p, 'Base64Decode')
    plain = [(a, b) for a in range(4) for b in range(64)]
    words = []
    for pos, v in plain:
        d = ['A'] * 4
        d[pos] = LETTERS[v]
        words.append(''.join(d))
    words += ['AAAA', '////', 'TWFu', 'AA==', 'AAA=', '/w==', '//8=', 'gA==', 'AIA=', 'QQ==', 'QUI=']
    for d in words:
        raw = b64.b64decode(d)
        for f in enc:
            r = spell(cx, f, raw, once=True, stores=True)
            outs = {tuple(x for x in s if x not in (0, 10, 13)) for s in r.outs}
            if not known(outs): cx.count('not followed: Base64 writing'); continue
            cx.count('Base64 groups written')
            if outs != {tuple(d.encode())}:
                cx.bad('base64|write', r.where or f.loc(), '%s turns the bytes %s into "%s" instead of "%s"' % (short(f.q), raw.hex(), show(next(iter(sorted(outs)))), d)); break
        for f in dec:
            r = spell(cx, f, d.encode(), once=True, stores=True)
            if not known(r.outs): cx.count('not followed: Base64 reading'); continue
            cx.count('Base64 groups read')
            if r.outs != {tuple(raw)}:
                cx.bad('base64|read', r.where or f.loc(), '%s turns "%s" into the bytes %s instead of %s' % (short(f.q), d, bytes(next(iter(sorted(r.outs)))).hex(), raw.hex())); break
    for f in dec:
        for d in ('TW Fu', 'TW\nFu', 'TWFu\n'):
            r = spell(cx, f, d.encode(), once=True, stores=True)
            if known(r.outs) and r.outs != {tuple(b'Man')}:
                cx.bad('base64|blank', r.where or f.loc(), '%s does not skip line breaks and blanks' % short(f.q))


KINDS = {'EmitNull': {'Null'}, 'EmitTrue': {'true'}, 'EmitFalse': {'false'}, 'BeginMap': {'BeginMap'}, 'BeginList': {'BeginList'}, 'int': {'int', 'uint'}, 'real': {'real'}, 'text': {'text'}, 'blob': {'blob'}}


def emit_kind(f):
    m = f.q.split('::')[-1]
    if m != 'Emit': return m if m in KINDS else None
    if len(f.params) != 1: return None
    t = f.params[0]['t'].replace('const ', '')
    return 'blob' if 'Blob' in t else 'text' if t.strip() == 'char *' else 'real' if t == 'double' else 'int' if t in ('long', 'unsigned long', 'long long', 'unsigned long long') else None


def xml(cx):
    p = cx.prog
    wr = [c for c in p.subclasses('libvariant::EmitterImpl') if 'XML' in c]
    rd = [c for c in p.subclasses('libvariant::ParserImpl') if 'XML' in c]
    if not wr or not rd: cx.count('not followed: XML'); return
    meth = [f for f in p.funcs.values() if f.cls == rd[0] and f.cfg]
    en = {q for q in p.enums}
    node = [f for f in meth if f.ret in en and len(f.params) == 1 and 'char' in f.params[0]['t']]
    begin = [f for f in meth if any('ParserActions' in x['t'] for x in f.params) and any(x['t'] in en for x in f.params)]
    text = [f for f in meth if len(f.params) == 1 and 'ParserActions' in f.params[0]['t']]
    end = [f for f in meth if len(f.params) == 1 and f.params[0]['t'] in en]
    for c in wr:
        for f in [f for f in p.funcs.values() if f.cls == c and f.cfg]:
            k = emit_kind(f)
            if k is None: continue
            for o, conds, st in written(cx, f):
                toks = [t for t in o if t[0] != 'out']
                for t in toks:
                    if t[0] == 'raw' and ('Raw' in t[2] or 'CDATA' in t[2]): cx.bad('xml|raw|%s' % fn_key(f), t[1], '%s writes text with %s, which does not escape it' % (short(f.q), t[2]))
                if k == 'text' and [t for t in toks if t[0] == 'text'] == [] and not any(t[0] == 'raw' for t in toks): cx.count('not followed: XML text')
                for t in toks:
                    if t[0] != '<' or len(t[1]) != 1 or t[1][0][0] != 'lit': continue
                    name = t[1][0][1]
                    cx.count('XML elements written')
                    nodes = set()
                    for g in node:
                        nodes |= reports(cx, g, params=((0, T('s', name)),)).rets
                    if len(nodes) != 1 or next(iter(nodes)).k != 'i': cx.count('not followed: XML elements'); continue
                    v = next(iter(nodes))
                    kinds, ends, shut = set(), set(), False
                    for g in begin:
                        pi = [i for i, x in enumerate(g.params) if x['t'] in en][0]
                        for s in reports(cx, g, params=((pi, v),), answers={'xmlTextReaderIsEmptyElement': ZERO, 'back': v}).outs: kinds |= set(s)
                    for g in text:
                        for s in reports(cx, g, answers={'back': v}).outs: kinds |= set(s)
                    for g in end:
                        r = reports(cx, g, params=((0, v),), answers={'back': v})
                        for s in r.outs: ends |= set(s)
                    want = KINDS[k]
                    if k == 'BeginMap': ok = kinds == want and ends == {'EndMap'}
                    elif k == 'BeginList': ok = kinds == want and ends == {'EndList'}
                    else: ok = bool(kinds & want) and not (kinds | ends) - want - {'BeginDocument', 'EndDocument'}
                    if not ok:
                        cx.bad('xml|%s|%s' % (fn_key(f), name), f.loc(), '%s writes <%s>, for which the reader reports %s' % (short(f.q), name, '/'.join(sorted(kinds | ends)) or 'nothing'))


class Guess(Acts):
    def __init__(self, text, m, **k): Acts.__init__(self, **k); self.t = text; self.m = m
    def load(self, eng, st, fr, nid, loc):
        if loc.k == 'fld' and loc.a[1] in ('rm_so', 'rm_eo') and loc.a[0].k == 'idx' and loc.a[0].a[1].k == 'i':
            g = loc.a[0].a[1].a[0]
            if self.m is not None:
                try: st.mem[loc] = I(self.m.start(g) if loc.a[1] == 'rm_so' else self.m.end(g))
                except IndexError: st.mem[loc] = I(-1)
        elif loc.k == 'idx' and loc.a[1].k == 'i' and loc.a[0].k == 'p' and 0 <= loc.a[1].a[0] < len(self.t): st.mem[loc] = I(ord(self.t[loc.a[1].a[0]]))
        elif loc.k == 'fld' and loc.a[1] == 'style' and 'style' in self.answers: st.mem[loc] = self.answers['style']
        elif loc.k == 'fld' and loc.a[1] == 'tag' and 'tag' in self.answers: st.mem[loc] = self.answers['tag']
        else: Fold.load(self, eng, st, fr, nid, loc)


def pattern(p, f):
    for g in p.funcs.values():
        if g.file != f.file: continue
        for _, n in g.calls():
            if n.get('fq') != 'regcomp': continue
            for x in g.walk(n['args'][1]):
                m = g.nodes[x]
                if m['k'] == 'StringLiteral': return m['v']
                v = p.vars.get(m.get('d')) if m['k'] == 'DeclRefExpr' else None
                if v is not None:
                    if 'str' in v: return v['str']
                    if isinstance(v.get('val'), dict): return v['val'].get('str')
    return None


def guess(cx, f, pat, text):
    m = pat.search(text)
    r = Guess(text, m, files=(f.file,), answers={'regexec': ZERO if m else ONE})
    eng = cx.engine(r)
    eng.run(f)
    cx.finish_engine(eng, 'scalar guesses')
    return {k for s in r.outs for k in s}


def yaml(cx):
    p = cx.prog
    gs = next(iter(named(p, 'GuessScalar')), None)
    src = pattern(p, gs) if gs is not None else None
    try: pat = re.compile(re.sub(r'\[:(\w+):\]', lambda m: {'space': r'\s', 'digit': '0-9', 'alpha': 'a-zA-Z', 'alnum': 'a-zA-Z0-9', 'xdigit': '0-9a-fA-F'}[m.group(1)], src))
    except (TypeError, KeyError, re.error): cx.count('not followed: scalar pattern'); return
    wr = [c for c in p.subclasses('libvariant::EmitterImpl') if 'YAML' in c]
    rd = [f for f in p.funcs.values() if f.cfg and any('yaml_event' in x['t'] for x in f.params) and any('ParserActions' in x['t'] for x in f.params)]
    def judge(f, w, want):
        got = guess(cx, gs, pat, w)
        cx.count('YAML spellings')
        if not got: cx.count('not followed: YAML spellings'); return
        if not got <= want: cx.bad('yaml|%s|%s' % (fn_key(f), w), f.loc(), '%s writes %s, for which the reader reports %s' % (short(f.q), w, '/'.join(sorted(got))))
    for c in wr:
        for f in [f for f in p.funcs.values() if f.cls == c and f.cfg]:
            k = emit_kind(f)
            if k is None: continue
            for o, conds, st in written(cx, f):
                for t in o:
                    if t[0] != 'scalar': continue
                    _, tag, val, style, guard, where = t
                    if k == 'blob':
                        if tag and tag[0][0] == 'lit':
                            for g in rd:
                                r = Guess('', None, files=(g.file,), answers={'strcmp': lambda st, obj, args, w=tag[0][1]: I(int(not any(x.k == 's' and x.a[0] == w for x in args))), 'tag': T('&', T('tag'))})
                                eng = cx.engine(r); eng.run(g)
                                cx.count('YAML tags')
                                if r.outs and not any('blob' in s for s in r.outs): cx.bad('yaml|tag|%s' % tag[0][1], f.loc(), '%s writes the tag %s, which the reader does not take for a blob' % (short(f.q), tag[0][1]))
                        elif tag is None: cx.bad('yaml|tag', f.loc(), '%s writes a blob without a tag: it is read as text' % short(f.q))
                        continue
                    if k == 'text':
                        cx.count('YAML string styles')
                        if style in (0, 1) and not guard: cx.bad('yaml|quote|%s' % fn_key(f), where, '%s may write a string that reads like another scalar without quotes' % short(f.q))
                        continue
                    if style is not None and style > 1: cx.bad('yaml|style|%s' % fn_key(f), where, '%s writes a %s with quotes: it is read as text' % (short(f.q), k))
                    if val and all(x[0] == 'lit' for x in val):
                        w = ''.join(x[1] for x in val)
                        want = KINDS[k]
                        if k == 'real':
                            nan = any(v and (c2.k == 'isnan' or c2.k == 'call' and 'isnan' in c2.a[0]) for c2, v in conds.items())
                            neg = [v for c2, v in conds.items() if c2.k == '<' and c2.a[0].k == 'p' and c2.a[1].k in ('i', 'f')] + [not v for c2, v in conds.items() if c2.k == '<' and c2.a[1].k == 'p' and c2.a[0].k in ('i', 'f')] + [v for c2, v in conds.items() if c2.k == 'call' and 'signbit' in c2.a[0]]
                            want = {'realnan'} if nan else {'real-inf'} if neg and neg[0] else {'realinf'} if neg else {'realinf', 'real-inf'}
                        judge(f, w, want)
            if k == 'real':
                for w in ('0.0000000000000000', '-0.10000000000000001', '1.5000000000000000', '10000000000000000.', '1.0000000000000000e+16', '-2.2250738585072014e-308'): judge(f, w, {'real'})
            if k == 'int':
                for w in ('0', '5', '-5', '18446744073709551615', '-9223372036854775808'): judge(f, w, {'int', 'uint', 'real'})
                for w in ('5', '-5'):
                    if 'int' not in guess(cx, gs, pat, w): cx.bad('yaml|int|%s' % w, gs.loc(), 'the number %s is not read as an integer' % w)
    for g in rd:
        for style in (2, 3, 4, 5):
            r = Guess('', None, files=(g.file,), answers={'style': I(style), 'tag': ZERO})
            eng = cx.engine(r); eng.run(g)
            cx.count('YAML reader styles')
            if r.outs - {('text',)}: cx.bad('yaml|read style|%d' % style, g.loc(), '%s reports %s for a quoted scalar' % (short(g.q), '/'.join(sorted({k for s in r.outs for k in s})) or 'nothing of its own'))


class Marker(Acts):
    def __init__(self, **k): Acts.__init__(self, **k); self.cmp = set(); self.dec = set()
    def call(self, eng, st, fr, nid, n, obj, args):
        name = (n.get('fq') or '').split('::')[-1]
        if name in ('memcmp', 'strncmp') and len(args) == 3 and args[2].k == 'i':
            for x in args[:2]:
                if x.k == 's': self.cmp.add((x.a[0], args[2].a[0], fr.f.loc(nid)))
        elif name == 'Base64Decode' and len(args) >= 2:
            x, n = args[1], 0
            while x.k in '+-' and x.a[1].k == 'i': n += x.a[1].a[0] if x.k == '+' else -x.a[1].a[0]; x = x.a[0]
            self.dec.add((n if x.k in ('fld', 'var', 'p') else None, fr.f.loc(nid)))


def marker(cx, rd):
    p = cx.prog
    cls = [c for c in p.subclasses('libvariant::EmitterImpl') if 'JSON' in c]
    rdc = [f for f in p.funcs.values() if f.cfg and any('JSON_value' in x['t'] for x in f.params) and f.file.endswith('.cc')]
    if not rd.ok: return
    for c in cls:
        for f in method(p, c, 'Emit', lambda t: 'Blob' in t):
            for o in {clean(o[0]) for o in written(cx, f)}:
                lit = ''
                for x in o:
                    if x[0] != 'lit': break
                    lit += x[1]
                if not lit.startswith('"') or len(o) < 3: cx.count('not followed: blob marker'); continue
                got = rd.feed(lit[1:].encode('latin-1', 'replace'), rd.start('ST', 'JSON_T_STRING'))
                if not got: cx.bad('json|marker', f.loc(), '%s writes a blob marker the JSON reader refuses' % short(f.q)); continue
                mark = bytes(x for x in next(iter(got))[1] if x != '?')
                for g in rdc:
                    r = Marker(params=((1, I(rd.en['JSON_T_STRING'])),), files=(g.file,))
                    eng = cx.engine(r); eng.run(g)
                    for s, n, where in r.cmp:
                        cx.count('blob markers')
                        if s.encode('latin-1', 'replace')[:n] != mark or n != len(mark):
                            cx.bad('json|marker', where, '%s looks for the %d characters "%s"; blobs are written as "%s"' % (short(g.q), n, show(s.encode('latin-1', 'replace')[:n]), show(mark)))
                    for n, where in r.dec:
                        if n is not None and n != len(mark): cx.bad('json|marker|skip', where, '%s skips %d characters of the %d of the blob marker' % (short(g.q), n, len(mark)))


def digits(cx):
    p = cx.prog
    for c in p.subclasses('libvariant::EmitterImpl'):
        for f in [f for f in p.funcs.values() if f.cls == c and f.cfg and emit_kind(f) == 'real']:
            for o, conds, st in written(cx, f):
                for t in o:
                    val = t[2] if t[0] == 'scalar' else t[1] if t[0] in ('out', 'text') else None
                    if not val or ('num',) not in val: continue
                    cx.count('numbers written')
                    if 'XML' not in c and ('showpoint',) not in val: cx.bad('number|point|%s' % fn_key(f), f.loc(), '%s writes a real number that can look like an integer' % short(f.q))
                    pr = [x[1] for x in val if x[0] == 'prec']
                    if not pr: cx.bad('number|digits|%s' % fn_key(f), f.loc(), '%s writes a real number with the default of six digits' % short(f.q)); continue
                    v = pr[-1]
                    vals = {v.a[0]} if v.k == 'i' else set()
                    if v.k == 'fld':
                        for g in p.funcs.values():
                            if g.kind == 'ctor' and g.file in (f.file,) and (g.cls or '').startswith(c):
                                for x in g.inits:
                                    if x.get('m') == v.a[1]:
                                        cv = next((g.nodes[y]['cv'] for y in [x['e']] + list(g.walk(x['e'])) if 'cv' in g.nodes[y]), None)
                                        if cv is not None: vals.add(int(cv))
                    if not vals: cx.count('not followed: precision')
                    for y in vals:
                        if y < 17: cx.bad('number|digits|%s' % fn_key(f), f.loc(), '%s writes real numbers with %d digits by default: 17 are needed to read the same value back' % (short(f.q), y))


def check(cx):
    p = cx.prog
    rd = Reader(cx)
    cx.need(p.subclasses('libvariant::EmitterImpl'), 'writers')
    json_side(cx, rd)
    marker(cx, rd)
    pairs(cx, 'pointer', named(p, 'JSONPointerEscape'), named(p, 'JSONPointerUnescape'), (47,), (), '~/01')
    pairs(cx, 'path', named(p, 'PathString'), [f for f in named(p, 'ParsePath') if len(f.params) == 2], (), (47,), '/[]\\0')
    base64(cx)
    xml(cx)
    yaml(cx)
    digits(cx)
