import re
from checks.common import *
from interp import *
from linear import *

EXPLAIN = ('A window is the pointer and length one GetPtr call of an input returns. Every load through a pointer derived from it, and every call given such a pointer and a length, has to be covered by branches that put it below the length; '
           'a window is not used after it was handed back or replaced; what is handed back has been read and does not exceed the window. On the other side, the distance between filled data and buffer size of the input classes is followed through every method, '
           'and errors while reading leave as errors: the file error flag is looked at, read callbacks report failures with the code of their library, and end of input ends a document only if the document is complete.')
TECH = 'abstract interpretation over the control-flow graphs with linear facts (window offsets, fill level)'
NOTE = 'Every function that asks an input for data, with its helpers, and every input class.'
RULE = ('W1 load below the window length; W2 pointer/length pairs inside the window; W3 window in use is the current one; W4 hands back at most what was read; '
        'S1 source hands out only what it holds; S2 fill level stays inside the buffer; E1 file errors are looked at; E2 callbacks report failures; E3 document ends only when complete; E4 an input that cannot be opened raises; '
        'E5 nothing is asked of an input that has ended; E6 text collected for string functions ends with NUL; E7 the end of collected text is looked at only where it is known to be long enough; E8 a pointer walking back is compared with the start.')
ASSUME = ['Read of an input returns at most the length it was given', 'GetPtr of an input sets the length to zero when it returns null']

NULTERM = ('strlen', 'strchr', 'strrchr', 'strstr', 'strcmp', 'strcpy', 'strcat', 'strtok', 'strtol', 'strtoul', 'strtoll', 'strtoull', 'strtod', 'atoi', 'atof', 'sscanf', 'puts', 'strdup', 'strspn', 'strcspn', 'strpbrk')
# reading callbacks: position among the arguments, value that reports a failure, where the number of bytes goes (parameter or result)
FAILS = {'yaml_parser_set_input': (1, 0, 3), 'xmlReaderForIO': (0, -1, None), 'xmlReadIO': (0, -1, None), 'xmlParserInputBufferCreateIO': (0, -1, None), 'xmlCtxtReadIO': (1, -1, None)}


def getptr(n):
    return (n.get('fq') or '').endswith('::GetPtr') and len(n.get('args', ())) == 1 and (n.get('pt') or [''])[0].replace(' ', '') == 'unsignedint&'


def release(n):
    return (n.get('fq') or '').endswith('::Release') and len(n.get('args', ())) == 1 and (n.get('pt') or [''])[0] == 'unsigned int'


def both(a, b, ats): return prove(comb(a, b, -1), ats) and prove(comb(b, a, -1), ats)


class Window(Rule):
    max_states = 30
    max_steps = 40000
    inline_depth = 4
    apart = deref(THIS)
    def __init__(self, cx, family): self.cx = cx; self.family = family; self.found = {}; self.sites = set(); self.pend = None; self.keep = ()
    def inline(self, eng, st, fr, nid, n, g):
        return g.file == eng.root_func.file and is_helper(self.cx, g) and len(g.nodes) < 600 and g.id in self.near
    def bad(self, fr, nid, rule, msg):
        self.found.setdefault('%s:%s:%d' % (fn_key(fr.f), rule, 0), (fr.f.loc(nid), rule + ': ' + msg))
    def forget(self, eng, st, t, memo):
        m = {}
        st.drop(lambda f: isinstance(f, tuple) and any(isinstance(x, Term) and mentions(x, lambda y: y is t, m) for x in f))
    def apart_by(self, st):
        return frozenset((l, v) for l, v in st.mem.items() if l.k == 'fld' and v.k in ('i', 'upd', 'win', 'wlen')) | frozenset((c, v) for c, v in st.conds.items() if c.k == 'wlen' or c.k in ('<', '==') and any(x.k == 'wlen' for x in c.a))
    # ---- windows
    held = None
    def after(self, eng, st, fr, nid, n, obj, args, res):
        uid = (fr.uid, nid)
        if self.held and self.held[1] is not None and (release(n) or getptr(n)): st.mem[self.held[0]] = self.held[1]
        if getptr(n):
            w, l = T('win', fr.uid, nid), T('wlen', fr.uid, nid)
            # what has not been handed back is at the same offsets again
            old = {f[1] for f in st.facts if f[0] == 'now' and f[3] is obj}
            # and a window without anything handed back does not shrink
            olen = {self.wlen(x) for x in old}
            within = [f[1] for f in st.facts if f[0] == 'le' and f[2] in olen and f[1].k == 'upd']
            again = [f[1] for f in st.facts if f[0] == 'upto' and f[2] in old and ('cur', f[1], f[2]) not in st.facts]
            whole = [(loc, any(f[0] == 'span' and f[1] in old and {k: c for _, k, c in f[2]} == {v: 1} for f in st.facts)) for loc, v in st.mem.items() if v in olen]
            eng.forget(st, w); eng.forget(st, l)
            for loc in [loc for loc, v in st.mem.items() if v is w or v is l]: st.mem[loc] = T('old', loc, st.mem[loc].n)
            for x in whole:
                v = st.mem.get(x[0])
                if v is not None and v.k == 'old':
                    st.add(('le', v, l))
                    if x[1]: st.add(('upto', v, w))
            for u in again: st.add(('upto', u, w))
            for u in within: st.add(('le', u, l))
            for f in [f for f in st.facts if f[0] == 'now' and f[3] is obj]:
                st.drop(lambda x: x == f); st.add(('stale', f[1]))
            st.add(('now', w, l, obj if obj is not None else THIS))
            st.drop(lambda f: f[0] == 'handed' and f[2] is obj)
            st.res[uid] = w
            loc = args[0]
            eng.invalidate(st, loc)
            st.mem[loc] = l
            return
        nm = (n.get('fq') or '').split('::')[-1]
        if nm == 'min' and len(args) >= 2 and n.get('sys'):
            r = T('min', fr.uid, nid)
            eng.forget(st, r)
            st.res[uid] = r
            for a in args[:2]: st.add(('le', r, eng.value_of(st, a)))
        elif nm in ('memchr', 'memrchr') and len(args) == 3 or nm == 'find' and len(args) == 3 and n.get('sys'):
            p, e = eng.value_of(st, args[0]), eng.value_of(st, args[1 if nm == 'find' else 2])
            w = self.owner(st, p)
            if w is not None:
                z = T('chr', fr.uid, nid)
                end = e if nm == 'find' else T('+', p, e)
                if mentions(end, lambda y: y is z, {}): return
                eng.forget(st, z)
                st.res[uid] = z
                st.add(('cur', z, w)); st.add(('le', p, z)); st.add(('le', z if nm == 'find' else T('+', z, I(1)), end)); st.add(('rd', w, self.canon(comb({z: 1}, {w: 1}, -1))))
    def owner(self, st, p):
        """the window a pointer belongs to"""
        for k in lin(p):
            if k is None: continue
            if k.k == 'win': return k
            for f in st.facts:
                if f[0] == 'cur' and f[1] is k: return f[2]
        return None
    def wlen(self, w): return T('wlen', *w.a)
    def usable(self, st, fr, nid, w):
        if ('stale', w) in st.facts: self.bad(fr, nid, 'W3', 'the pointer comes from an earlier GetPtr, whose window another GetPtr has replaced')
        if ('gone', w) in st.facts: self.bad(fr, nid, 'W3', 'the bytes were handed back before')
    def load(self, eng, st, fr, nid, loc):
        if loc.k == '*': p = loc.a[0]
        elif loc.k == 'idx': p = T('+', loc.a[0], loc.a[1])
        else: return
        w = self.owner(st, p)
        if w is None: return
        self.sites.add(fr.f.loc(nid))
        self.usable(st, fr, nid, w)
        ats = atoms_of(st)
        l = lin(p)
        goal = comb(comb(comb({w: 1}, {self.wlen(w): 1}, 1), l, -1), {None: 1}, -1)
        if not prove(goal, ats):

            self.bad(fr, nid, 'W1', 'no branch puts the byte read here (%s) below the length the input returned' % tstr(p))
        off = comb(l, {w: 1}, -1)
        if all(v > 0 for k, v in off.items()) or any(k is not None and k.k != 'win' for k in l): st.add(('rd', w, self.canon(off)))
    def canon(self, off): return tuple(sorted(((0 if k is None else k.n, k, v) for k, v in off.items()), key=lambda x: x[0]))
    # ---- cursors
    def elem(self, eng, st, fr, nid, n):
        self.pend = None
        # only what is said about windows and counters matters
        for c in [c for c in st.conds if not self.about(c)]: del st.conds[c]
        for c, v in st.conds.items():
            if c.k == '<' and v and c.a[1].k == 'wlen' and c.a[0].k == 'upd': st.add(('le', c.a[0], c.a[1]))
            elif c.k == '==' and v:
                for a, b in (c.a, c.a[::-1]):
                    if b.k == 'wlen' and a.k == 'upd': st.add(('le', a, b))
        step = None
        if n['k'] == 'BinaryOperator' and n['op'] == '=':
            # c = c + 1
            v = eng.value_of(st, eng.lv(st, fr, n['c'][0]))
            step = comb(lin(eng.ev(st, fr, n['c'][1])), lin(v), -1)
            if list(step) != [None] or step[None] < 1 or self.owner(st, v) is None and v.k != 'upd': step = None
        if n['k'] == 'UnaryOperator' and n['op'] in ('++', 'post++') or n['k'] == 'CompoundAssignOperator' and n['op'] == '+=' or step:
            v = eng.value_of(st, eng.lv(st, fr, n['c'][0]))
            u = T('upd', fr.uid, nid)
            if not step: step = {None: 1} if n['k'] == 'UnaryOperator' else lin(eng.ev(st, fr, n['c'][1]))
            w = self.owner(st, v)
            lv = lin(v)
            les = set()
            ats = atoms_of(st)
            # everything the value is compared with, the window ends, and what is known to bound it
            cand = set()
            for t, b in st.conds.items():
                if t.k in ('<', '==') and len(t.a) == 2: cand |= {t.a[0], t.a[1]}
            cand |= {f[2] for f in st.facts if f[0] == 'le'}
            for f in st.facts:
                if f[0] == 'now': cand |= {f[2], T('+', f[1], f[2])}
            for e in cand:
                if e is v or e is u or e.k == 'i' or not any(k is not None and k.k in ('win', 'wlen', 'chr') for k in lin(e)) or mentions(e, lambda y: y is u, {}): continue
                if any(k is not None and k.k in ('win', 'chr') for k in lin(e)) != (w is not None): continue
                if prove(comb(comb(lin(e), lv, -1), step, -1), ats, 3): les.add(e)
            seen = [f[1] for f in st.facts if f[0] == 'rd' and f[2] == self.canon(comb(lv, {f[1]: 1}, -1) if f[1] is w else lv)] if step == {None: 1} else []
            self.pend = (u, les, w, seen)
        elif n['k'] == 'ReturnStmt': pass
    KINDS = ('win', 'wlen', 'upd', 'min', 'chr')
    def about(self, c):
        a = c.__dict__.get('_about') if hasattr(c, '__dict__') else self.memo.get(c)
        if a is None:
            a = c.k in self.KINDS or c.k in ('<', '==') and any(k is not None and k.k in self.KINDS for x in c.a for k in lin(x))
            self.memo[c] = a
        return a
    memo = {}
    def assign(self, eng, st, fr, nid, loc, val):
        new = None
        if self.pend and fr.f.nodes[nid]['k'] == 'BinaryOperator' and self.pend[0] is T('upd', fr.uid, nid):
            new = val = self.pend[0]
            eng.forget(st, new)
        if self.pend and val is self.pend[0]:
            u, les, w, seen = self.pend
            for e in les: st.add(('le', u, e))
            if w is not None: st.add(('cur', u, w))
            for x in seen: st.add(('upto', u, x))
        self.pend = None
        return new
    # ---- calls given windows
    def call(self, eng, st, fr, nid, n, obj, args):
        nm = (n.get('fq') or '').split('::')[-1]
        cb = self.cbs.get(eng.root_func.id)
        if cb and cb[1] is not None:
            # the input does not know where the library keeps its count
            l = deref(T('p', cb[1], eng.root_func.params[cb[1]]['n'] or 'arg%d' % cb[1]))
            self.held = (l, st.mem.get(l)) if release(n) or getptr(n) else None
        if release(n):
            for f in [f for f in st.facts if f[0] == 'now' and f[3] is obj]:
                w, l = f[1], f[2]
                self.sites.add(fr.f.loc(nid))
                ats = atoms_of(st)
                x = eng.value_of(st, args[0])
                g = lin(x)
                if not prove(comb({l: 1}, g, -1), ats):
                    self.bad(fr, nid, 'W4', 'no branch shows that %s is at most the length the input returned' % tstr(x))
                elif not self.was_read(st, w, g, ats):
                    self.bad(fr, nid, 'W4', '%s bytes are handed back, which is not where reading got to' % tstr(x))
                st.drop(lambda t: t == f or t[0] in ('rd', 'upto', 'span', 'cur') and w in t); st.add(('gone', w))
                return
            return
        self.clean(st)
        if getptr(n) and fr.parent is not None:
            # what the callers hold has nothing to do with the new window
            for l in [l for l in st.mem if root(l).k == 'var' and root(l).a[0] != fr.uid]: del st.mem[l]
            for l, v in list(st.mem.items()):
                if l.k == 'fld' and v.k not in ('i', 'upd', 'win', 'wlen', 'old'): del st.mem[l]
        if n.get('virt') or n.get('fn') in self.family: return
        for i, a in enumerate(args):
            w = self.owner(st, a) if a.k not in ('fld', 'var', 'p') else None
            if a.k in ('var', 'p', 'fld'):
                a = eng.value_of(st, a)
                w = self.owner(st, a)
            if w is None: continue
            pt = n.get('pt') or []
            if i >= len(pt) or not re.search(r'\*\s*(const|__restrict|\s)*$', pt[i].strip()): continue
            g = self.cx.prog.funcs.get(n.get('fn')) if not n.get('virt') else None
            if g is not None and g.cfg and eng.can_inline(fr, g) and self.inline(eng, st, fr, nid, n, g): continue
            if n.get('oop') in ('==', '!=', '<'): continue
            self.sites.add(fr.f.loc(nid))
            self.usable(st, fr, nid, w)
            off = comb(lin(a), {w: 1}, -1)
            j = [x for x in range(i + 1, len(args)) if re.search(r'\b(unsigned|int|long|size_t)\b', pt[x] if x < len(pt) else '') and '*' not in pt[x]]
            if nm in ('memchr', 'memrchr'): j = [2]
            if not j and i + 1 < len(args) and n.get('sys') and nm not in NULTERM:
                # from here up to another place in the window
                e = eng.value_of(st, args[i + 1])
                if self.owner(st, e) is w:
                    ats = atoms_of(st)
                    if not (prove(comb(comb({w: 1}, {self.wlen(w): 1}, 1), lin(e), -1), ats) and prove(comb(lin(e), lin(a), -1), ats)): self.bad(fr, nid, 'W2', '%s is given the range up to %s, which no branch shows to lie inside the window' % (nm, tstr(e)))
                    st.add(('span', w, self.canon(comb(lin(e), {w: 1}, -1))))
                    continue
            if not j and i and n.get('sys') and nm not in NULTERM and self.owner(st, eng.value_of(st, args[i - 1])) is w: continue
            if not j:
                if nm in NULTERM or nm in ('basic_string', 'append', 'assign') and n.get('sys'):
                    self.bad(fr, nid, 'W2', '%s looks for a terminator the window need not contain' % nm)
                continue
            ln = eng.value_of(st, args[j[0]])
            ats = atoms_of(st)
            ok = prove(comb(comb({self.wlen(w): 1}, off, -1), lin(ln), -1), ats)
            if ok and wraps(ln) and ln.k == '-': ok = prove(comb(lin(ln.a[0]), lin(ln.a[1]), -1), ats)
            if not ok: self.bad(fr, nid, 'W2', '%s is given %s bytes at offset %s of a window no branch shows to be that long' % (nm, tstr(ln), ' + '.join(tstr(k) if k is not None else str(v) for k, v in off.items()) or '0'))
            st.add(('span', w, self.canon(comb(off, lin(ln), 1))))
            cb = self.cbs.get(eng.root_func.id)
            if cb and nm in ('memcpy', 'memmove', 'copy', 'copy_n'):
                dst = eng.value_of(st, args[0 if nm.startswith('mem') else 2])
                par = [T('p', k, q['n'] or 'arg%d' % k) for k, q in enumerate(eng.root_func.params)]
                if dst is not par[1]: continue
                if not prove(comb({par[2]: 1}, lin(ln), -1), ats): self.bad(fr, nid, 'E2', '%s bytes are copied to a buffer no branch shows to be that long' % tstr(ln))
                st.add(('took', ln))
    def clean(self, st):
        """what is known about values nothing holds any more"""
        if not any(f[0] in ('le', 'cur', 'upto', 'gone', 'stale') for f in st.facts): return
        live = set()
        for v in list(st.mem.values()) + list(st.res.values()):
            if isinstance(v, Term): live.update(subterms(v))
        st.drop(lambda f: f[0] in ('le', 'cur', 'upto', 'gone', 'stale') and f[1].k in ('upd', 'min', 'win', 'chr') and f[1] not in live)
    def ret(self, eng, st, fr, nid, val):
        f = eng.root_func
        if fr.parent is not None: return
        if f.id in self.family and val is not None:
            v = eng.value_of(st, val) if val.k in ('var', 'fld', 'p') else val
            w = self.owner(st, v)
            if w is None: return
            self.sites.add(fr.f.loc(nid))
            ln = eng.value_of(st, T('p', 0, f.params[0]['n'] or 'arg0'))
            if simp(truth(w), st.conds) == 0: return
            if not prove(comb(comb(comb({w: 1}, {self.wlen(w): 1}, 1), lin(v), -1), lin(ln), -1), atoms_of(st)): self.bad(fr, nid, 'S1', 'no branch shows that the %s bytes handed out lie inside the window of the input below' % tstr(ln))
        cb = self.cbs.get(f.id)
        if cb:
            fail, out = cb
            if out is not None:
                if val is I(fail): return
                rep = eng.value_of(st, deref(T('p', out, f.params[out]['n'] or 'arg%d' % out)))
            else: rep = val
            took = [t[1] for t in st.facts if t[0] == 'took']
            self.sites.add(fr.f.loc(nid))
            ats = atoms_of(st)
            if took and any(t[0] == 'now' for t in st.facts): self.bad(fr, nid, 'W4', 'the bytes copied are not handed back to the input, which returns them again')
            if not both(lin(rep), lin(took[-1]) if took else {}, ats) and not (not took and rep is I(fail)): self.bad(fr, nid, 'E2', 'reports %s bytes, but %s were copied' % (tstr(rep), tstr(took[-1]) if took else 'none'))
    cbs = {}
    def was_read(self, st, w, g, ats):
        if not g: return True
        for f in st.facts:
            if f[0] == 'span' and f[1] is w:
                e = {k: v for _, k, v in f[2]}
                if both(e, g, ats): return True
            if f[0] == 'rd' and f[1] is w:
                e = comb({k: v for _, k, v in f[2]}, {None: 1}, 1)
                if both(e, g, ats): return True
            if f[0] == 'upto':
                e = comb({f[1]: 1}, {w: 1}, -1) if ('cur', f[1], w) in st.facts else {f[1]: 1}
                if both(e, g, ats): return True
        return False


# ---- the input classes ---------------------------------------------------
SELF = deref(THIS)


def reads(n):
    return (n.get('fq') or '').split('::')[-1] == 'Read' and len(n.get('args', ())) == 2 and [x.replace(' ', '') for x in n.get('pt', [])] == ['void*', 'unsignedint']


class Source(Rule):
    """fields start as symbols; where the bytes not handed back lie is followed as a fact"""
    max_states = 60
    max_steps = 20000
    inline_depth = 3
    apart = SELF
    def __init__(self, cx, cls, info, bad):
        self.cx = cx; self.cls = cls; self.report = bad; self.roles = None; self.rets = []; self.obl = set()
        self.ints, self.ptrs, self.boxes, self.bools = info
        self.keep = tuple(self.ints + self.ptrs + self.boxes + self.bools); self.keep_obj = SELF
    def fld(self, m): return T('fld', SELF, m)
    def size(self, l): return T('size of', l.n)       # moves of bytes leave it alone
    def inline(self, eng, st, fr, nid, n, g): return g.cls == self.cls and not g.virt or g.file == eng.root_func.file and is_helper(self.cx, g)
    def forget(self, eng, st, t, memo):
        m = {}
        st.drop(lambda f: any(isinstance(x, Term) and mentions(x, lambda y: y is t, m) for x in f))
    def apart_by(self, st): return frozenset((l, v) for l, v in st.mem.items() if l.k in ('fld', 'size of'))
    def init(self, eng, st):
        f = eng.root_func
        self.lenloc = T('p', 0, f.params[0]['n'] or 'arg0') if f.params else None
        if f.kind == 'ctor': return
        for m in self.ints + self.ptrs + self.bools: st.mem[self.fld(m)] = T('init', m)
        for m in self.boxes: st.mem[self.size(self.fld(m))] = T('init', '#' + m)
        if f.params and f.name == 'GetPtr': st.mem[self.lenloc] = T('init', 'asked')
        if self.roles and self.roles[0] == 'box':
            _, b, o, n = self.roles
            st.add(('le', T('+', T('init', o), T('init', n)), T('init', '#' + b)))
            st.add(('place', self.fld(b), T('init', o)))
        elif self.roles and self.roles[0] == 'proxy' and f.name == 'Release':
            # no more is handed back than the window held
            for m in self.roles[1]: st.add(('le', self.lenloc, T('init', m)))
    def cur(self, st, m): return st.mem.get(self.fld(m), T('any', m))
    def sz(self, st, l):
        v = st.mem.get(self.size(l))
        if v is None:
            c = st.mem.get(l)
            v = c.a[1][0] if c is not None and c.k == 'ctor' and c.a[1] else T('any', l)
        return v
    def bad(self, fr, nid, rule, msg): self.report(fr.f, fr.f.loc(nid), rule, msg)
    def same(self, a, b, ats): return prove(comb(a, b, -1), ats) and prove(comb(b, a, -1), ats)
    # ---- containers
    def at(self, p):
        """container and offset a pointer points to"""
        l = lin(p)
        for k in l:
            if k is not None and (k.k == 'fld' and k.a[0] is SELF and k.a[1] in self.boxes or k.k == 'var') and l[k] == 1: return k, comb(l, {k: 1}, -1)
        return None, None
    def call(self, eng, st, fr, nid, n, obj, args):
        nm = (n.get('fq') or '').split('::')[-1]
        if release(n) and self.roles and self.roles[0] == 'proxy' and args[0] in (self.lenloc,):
            if ('fwd',) in st.facts: self.bad(fr, nid, 'S2', 'what is handed back is handed on twice')
            st.add(('fwd',))
        elif reads(n): self.do_read(eng, st, fr, nid, n, args)
        elif nm in ('memmove', 'memcpy', 'copy', 'move') and len(args) == 3 and self.roles and self.roles[0] == 'box': self.moved(eng, st, fr, nid, n, [eng.value_of(st, a) for a in args])
    def after(self, eng, st, fr, nid, n, obj, args, res):
        nm = (n.get('fq') or '').split('::')[-1]
        if n.get('sys') and obj is not None and nm == 'size' and not args:
            st.res[(fr.uid, nid)] = self.sz(st, obj)
        elif n.get('sys') and obj is not None and nm == 'empty' and not args:
            st.res[(fr.uid, nid)] = mkcmp('==', self.sz(st, obj), I(0))
        elif n.get('sys') and obj is not None and nm == 'data' and not args:
            st.res[(fr.uid, nid)] = addr(T('idx', obj, I(0)))
        elif n.get('sys') and nm == 'swap':
            a, b = (args[0], args[1]) if len(args) == 2 else (obj, args[0])
            x, y = self.sz(st, a), self.sz(st, b)
            st.mem[self.size(a)] = y; st.mem[self.size(b)] = x
            pl = [f for f in st.facts if f[0] == 'place']
            st.drop(lambda f: f[0] == 'place')
            for f in pl: st.add(('place', {a: b, b: a}.get(f[1], f[1]), f[2]))
        elif n.get('sys') and nm == 'resize' and obj is not None and args:
            new = eng.value_of(st, args[0])
            st.mem[self.size(obj)] = new
        elif n.get('oop') == '=' and n.get('sys') and obj is not None and len(args) == 1 and self.size(args[0]) in st.mem:
            st.mem[self.size(obj)] = st.mem[self.size(args[0])]
            pl = [f for f in st.facts if f[0] == 'place' and f[1] is args[0]]
            st.drop(lambda f: f[0] == 'place' and f[1] is obj)
            for f in pl: st.add(('place', obj, f[2]))
        elif reads(n):
            r = T('got', fr.uid, nid)
            eng.forget(st, r)
            st.res[(fr.uid, nid)] = r
            st.add(('le', r, eng.value_of(st, args[1])))
            st.add(('pending', r, eng.value_of(st, args[1])))
            st.add(('last', r, eng.value_of(st, args[1])))
        elif nm == 'min' and len(args) >= 2 and n.get('sys'):
            r = T('min', fr.uid, nid)
            eng.forget(st, r)
            st.res[(fr.uid, nid)] = r
            for a in args[:2]: st.add(('le', r, eng.value_of(st, a)))
        elif nm == 'max' and len(args) >= 2 and n.get('sys'):
            r = T('max', fr.uid, nid)
            eng.forget(st, r)
            st.res[(fr.uid, nid)] = r
            for a in args[:2]: st.add(('le', eng.value_of(st, a), r))
    def declare(self, eng, st, fr, v, loc, val):
        if val is not None and val.k == 'ctor' and 'vector' in val.a[0]:
            a = val.a[1]
            st.mem[self.size(loc)] = a[0] if len(a) in (1, 2, 3) and (a[0].k != 'ctor') else I(0) if not a else T('any', loc)
    def moved(self, eng, st, fr, nid, n, args):
        _, b, o, num = self.roles
        if (n.get('fq') or '').split('::')[-1] in ('copy', 'move'):
            (X, d), (S, s) = self.at(args[2]), self.at(args[0])
            cnt = comb(lin(args[1]), lin(args[0]), -1)
        else:
            (X, d), (S, s) = self.at(args[0]), self.at(args[1])
            cnt = lin(args[2])
        if X is None or S is None: return
        ats = atoms_of(st)
        self.obl.add(fr.f.loc(nid))
        pl = [f for f in st.facts if f[0] == 'place' and f[1] is S]
        if any(self.same(lin(f[2]), s, ats) for f in pl) and prove(comb(cnt, lin(self.cur(st, num)), -1), ats):
            if not prove(comb(comb(lin(self.sz(st, X)), d, -1), cnt, -1), ats): self.bad(fr, nid, 'S2', 'the bytes are copied to a buffer no branch shows to be long enough')
            st.drop(lambda f: f[0] == 'place' and f[1] is X)
            st.add(('place', X, self.term(d)))
        elif X is S: st.drop(lambda f: f[0] == 'place' and f[1] is X)
    def term(self, l):
        t = None
        for k, v in sorted(l.items(), key=lambda x: 0 if x[0] is None else x[0].n):
            y = I(v) if k is None else k
            t = y if t is None else T('+', t, y)
        return t if t is not None else I(0)
    def settled_at(self, eng, st, fr, nid, why):
        _, b, o, num = self.roles
        ats = atoms_of(st)
        off, cnt = lin(self.cur(st, o)), lin(self.cur(st, num))
        if self.same(cnt, {}, ats): return
        pl = [f for f in st.facts if f[0] == 'place' and f[1] is self.fld(b)]
        if not any(self.same(lin(f[2]), off, ats) for f in pl): self.bad(fr, nid, 'S2', '%s, but the bytes not handed back are not at the offset the members give' % why)
    def do_read(self, eng, st, fr, nid, n, args):
        if not self.roles or self.roles[0] != 'box': return
        _, b, o, num = self.roles
        self.obl.add(fr.f.loc(nid))
        ats = atoms_of(st)
        p, ln = eng.value_of(st, args[0]), eng.value_of(st, args[1])
        X, d = self.at(p)
        if X is not self.fld(b): return self.bad(fr, nid, 'S2', 'reads into something other than the buffer handed out')
        size = lin(self.sz(st, X))
        if not prove(comb(comb(size, d, -1), lin(ln), -1), ats) or not nowrap(ln, ats):
            self.bad(fr, nid, 'S2', 'reads %s bytes to offset %s of a buffer no branch shows to be that long' % (tstr(ln), tstr(self.term(d))))
        if prove(comb(comb({T('init', 'asked'): 1}, lin(self.cur(st, num)), -1), {None: 1}, -1), ats) and not prove(comb(lin(ln), {None: 1}, -1), ats):
            self.bad(fr, nid, 'S2', 'more bytes are needed, but no branch shows that the buffer has room for any')
        if not self.same(d, comb(lin(self.cur(st, o)), lin(self.cur(st, num)), 1), ats): self.bad(fr, nid, 'S2', 'reads to %s, which is not behind the bytes already there' % tstr(self.term(d)))
        self.settled_at(eng, st, fr, nid, 'more is read')
        if any(f[0] == 'pending' for f in st.facts): self.bad(fr, nid, 'S2', 'what the former Read returned is not added to the number of bytes held')
    # ---- the members
    def elem(self, eng, st, fr, nid, n):
        self.plan = None
        k = n['k']
        if not (k == 'CompoundAssignOperator' and n['op'] in ('+=', '-=') or k == 'UnaryOperator' and n['op'] in ('++', '--', 'post++', 'post--') or k == 'BinaryOperator' and n['op'] == '='): return
        l = eng.lv(st, fr, n['c'][0])
        if l.k != 'fld' or l.a[0] is not SELF: return
        m = l.a[1]
        old = eng.value_of(st, l)
        if k == 'BinaryOperator': new = eng.ev(st, fr, n['c'][1])
        else: new = T('+' if '+' in n['op'] else '-', old, eng.ev(st, fr, n['c'][1]) if k == 'CompoundAssignOperator' else I(1))
        ats = atoms_of(st)
        facts = []
        u = T('upd', fr.uid, nid)
        if k != 'BinaryOperator' and not mentions(new, lambda y: y is u, {}) and nowrap(new, ats): facts += [('le', u, new), ('le', new, u)]
        used = None
        if self.roles and self.roles[0] == 'box':
            _, b, o, num = self.roles
            if m == num:
                used = [f for f in st.facts if f[0] == 'pending' and self.same(lin(new), comb(lin(old), {f[1]: 1}, 1), ats)]
                if eng.root_func.name == 'GetPtr' and not used and not self.same(lin(new), lin(old), ats):
                    self.bad(fr, nid, 'S2', 'the fill level changes by something other than what Read returned')
            if k == 'BinaryOperator' and used:
                # as if it had been added in place
                k = ''
            if m in (o, num) and k != 'BinaryOperator':
                x, y = (new, self.cur(st, num)) if m == o else (self.cur(st, o), new)
                if prove(comb(comb(lin(self.sz(st, self.fld(b))), lin(x), -1), lin(y), -1), ats):
                    facts.append(('le', T('+', u, self.cur(st, num)) if m == o else T('+', self.cur(st, o), u), self.sz(st, self.fld(b))))
        self.plan = (m, facts, used, u if k == '' else None)
    def assign(self, eng, st, fr, nid, loc, val):
        plan, self.plan = self.plan, None
        if plan and loc is self.fld(plan[0]):
            if plan[3] is not None: eng.forget(st, plan[3])
            for f in plan[1]: st.add(f)
            for f in plan[2] or (): st.drop(lambda x: x == f)
            if plan[3] is not None: val = plan[3]
        if self.roles and loc.k == 'fld' and loc.a[0] is SELF and loc.a[1] in self.bools and val is I(1):
            last = [f for f in st.facts if f[0] == 'last']
            if last:
                self.obl.add(fr.f.loc(nid))
                ats = atoms_of(st)
                if not any(self.short(f, ats) for f in last): self.bad(fr, nid, 'S3', 'the end of the input is noted although the Read before it may have returned all it was asked for')
        return val
    def short(self, f, ats):
        return prove(comb(comb(lin(f[2]), {f[1]: 1}, -1), {None: 1}, -1), ats) or prove({f[1]: -1}, ats)
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is not None or eng.root_func.name != 'GetPtr': return
        v = eng.value_of(st, val) if val is not None and val.k in ('var', 'fld', 'p') else val
        self.obl.add(fr.f.loc(nid))
        if self.roles is None: self.rets.append((fr, nid, v, st.copy())); return
        ln = st.mem.get(self.lenloc, self.lenloc)
        ats = atoms_of(st)
        null = v is I(0) or simp(truth(v), st.conds) == 0
        if self.roles[0] == 'box':
            _, b, o, num = self.roles
            self.finish(eng, st, fr.f, fr.f.loc(nid))
            cnt = lin(self.cur(st, num))
            if null:
                if not self.same(lin(ln), {}, ats): self.bad(fr, nid, 'S1', 'returns null without setting the length to zero')
                if not self.same(cnt, {}, ats): self.bad(fr, nid, 'S1', 'returns null although bytes may be left')
            else:
                X, d = self.at(v)
                if X is not self.fld(b) or not self.same(d, lin(self.cur(st, o)), ats): self.bad(fr, nid, 'S1', 'the pointer handed out is not that of the bytes held')
                if not self.same(lin(ln), cnt, ats): self.bad(fr, nid, 'S1', 'the length handed out is not the number of bytes held')
            if self.bools and not any(self.cur(st, m) is I(1) or st.conds.get(self.cur(st, m)) is True for m in self.bools) and not prove(comb(lin(ln), {T('init', 'asked'): 1}, -1), ats):
                self.bad(fr, nid, 'S1', 'fewer bytes than asked for are handed out before the end of the input')
        elif self.roles[0] == 'mem':
            _, ptr, o, D = self.roles
            left = comb(lin(self.cur(st, D)), lin(self.cur(st, o)), -1)
            if not nowrap(ln, ats): self.bad(fr, nid, 'S1', 'the length handed out may have wrapped around: no branch shows that %s is at most %s' % (o, D))
            elif null:
                if not self.same(lin(ln), {}, ats): self.bad(fr, nid, 'S1', 'returns null without setting the length to zero')
                if not self.same(left, {}, ats): self.bad(fr, nid, 'S1', 'returns null although bytes may be left')
            else:
                l = comb(lin(v), {self.cur(st, ptr): 1}, -1)
                if not self.same(l, lin(self.cur(st, o)), ats): self.bad(fr, nid, 'S1', 'the pointer handed out is not that of the bytes held')
                if not prove(comb(left, lin(ln), -1), ats): self.bad(fr, nid, 'S1', 'no branch shows that %s bytes are left' % tstr(ln))
    def exit(self, eng, st):
        f = eng.root_func
        if self.roles is None or f.name == 'GetPtr': return
        self.finish(eng, st, f, f.loc())
    def finish(self, eng, st, f, where):
        ats = atoms_of(st)
        p0 = {self.lenloc: 1} if self.lenloc is not None else {}
        if self.roles[0] == 'box':
            _, b, o, num = self.roles
            off, cnt, size = lin(self.cur(st, o)), lin(self.cur(st, num)), lin(self.sz(st, self.fld(b)))
            if not prove(comb(comb(size, off, -1), cnt, -1), ats): self.report(f, where, 'S2', 'no branch shows that offset plus number of bytes held stays inside the buffer')
            if f.kind == 'ctor': return
            if f.name == 'Release':
                if not self.same(cnt, comb({T('init', num): 1}, p0, -1), ats): self.report(f, where, 'S2', 'the number of bytes held is not lowered by what is handed back')
                elif not self.same(cnt, {}, ats) and not self.same(off, comb({T('init', o): 1}, p0, 1), ats): self.report(f, where, 'S2', 'the offset is not raised by what is handed back')
                return
            if not self.same(cnt, {}, ats) and not any(f2[0] == 'place' and f2[1] is self.fld(b) and self.same(lin(f2[2]), off, ats) for f2 in st.facts):
                self.report(f, where, 'S2', 'the bytes not handed back are not at the offset the members give')
            if any(f2[0] == 'pending' for f2 in st.facts): self.report(f, where, 'S2', 'what Read returned is not added to the number of bytes held')
        elif self.roles[0] == 'mem':
            _, ptr, o, D = self.roles
            if f.kind == 'ctor':
                if not self.same(lin(self.cur(st, o)), {}, ats): self.report(f, where, 'S2', 'the offset does not start at zero')
            elif f.name == 'Release':
                if not self.same(lin(self.cur(st, o)), comb({T('init', o): 1}, p0, 1), ats): self.report(f, where, 'S2', 'the offset is not raised by what is handed back')
                if self.cur(st, D) is not T('init', D) or self.cur(st, ptr) is not T('init', ptr): self.report(f, where, 'S2', 'handing back bytes changes what the input covers')
        elif self.roles[0] == 'proxy' and f.name == 'Release':
            for m in self.roles[1]:
                if not self.same(lin(self.cur(st, m)), comb({T('init', m): 1}, p0, -1), ats): self.report(f, where, 'S2', '%s counts from the start of the window and is not lowered by what is handed back' % m)
            if ('fwd',) not in st.facts: self.report(f, where, 'S2', 'what is handed back is not handed on to the input below')


def nowrap(t, ats):
    """the unsigned differences in a term are ones that do not wrap around"""
    if t.k == '-' and len(t.a) == 2: return nowrap(t.a[0], ats) and nowrap(t.a[1], ats) and prove(comb(lin(t.a[0]), lin(t.a[1]), -1), ats)
    if t.k == '+' and len(t.a) == 2: return all(nowrap(x, ats) for x in t.a)
    return True


def sources(cx, fam):
    p = cx.prog
    found = {}
    def bad(f, where, rule, msg): found.setdefault('%s:%s:%s' % (fn_key(f), rule, msg.split(',')[0][:40]), (where, rule + ': ' + msg))
    kinds = {}
    obl = 0
    for f in sorted(fam.values(), key=lambda f: f.q):
        cls = f.cls
        c = p.classes.get(cls)
        if c is None: continue
        ints, ptrs, boxes, bools = [], [], [], []
        for x in c['fields']:
            t = x['t'].replace('const ', '').strip()
            if t in ('unsigned int', 'int', 'unsigned long', 'long', 'size_t', 'unsigned'): ints.append(x['n'])
            elif t == 'bool': bools.append(x['n'])
            elif t.endswith('*'): ptrs.append(x['n'])
            elif re.match(r'(std::)?(vector<(unsigned |signed )?char|basic_string<char|string\b)', t): boxes.append(x['n'])
        rule = Source(cx, cls, (ints, ptrs, boxes, bools), bad)
        eng = cx.engine(rule)
        eng.run(f)
        out = [r for r in rule.rets if r[2] is not None and r[2] is not I(0)]
        votes = {}
        for fr, nid, v, st in out:
            ln = st.mem.get(rule.lenloc, rule.lenloc)
            X, d = rule.at(v)
            for o in ints:
                for n in ints:
                    if o == n: continue
                    if X is not None and X.k == 'fld' and d == lin(rule.cur(st, o)) and lin(ln) == lin(rule.cur(st, n)): votes.setdefault(('box', X.a[1], o, n), set()).add(nid)
                    for q in ptrs:
                        if comb(lin(v), {rule.cur(st, q): 1}, -1) == lin(rule.cur(st, o)) and comb(lin(ln), lin(rule.cur(st, o)), 1) == lin(rule.cur(st, n)): votes.setdefault(('mem', q, o, n), set()).add(nid)
        fwd = any(getptr(n) for _, n in f.calls())
        if fwd:
            wr = {n2['m'] for i, n in enumerate(f.nodes) if n and (n['k'] == 'CompoundAssignOperator' or n['k'] == 'BinaryOperator' and n['op'] == '=') for n2 in [f.nodes[f.strip(n['c'][0])]] if n2['k'] == 'MemberExpr'}
            rule.roles = ('proxy', tuple(sorted(wr & set(ints))))
        elif votes:
            rule.roles = max(votes, key=lambda k: (len(votes[k]), k))
        else:
            # what is handed out cannot be told from the members
            if boxes or ptrs: bad(f, f.loc(), 'S1', 'no return hands out a pointer and length the members give')
            continue
        kinds[cls] = rule.roles
        ms = [g for g in p.funcs.values() if g.cls == cls and g.cfg and g.kind != 'dtor' and not g.implicit and not is_helper(cx, g)]
        for g in sorted(ms, key=lambda g: (g.file, g.line)):
            if rule.roles[0] == 'proxy' and g.name != 'Release': continue
            eng.run(g)
        cx.finish_engine(eng, 'input classes')
        obl += len(rule.obl)
    for k, (where, msg) in sorted(found.items()): cx.bad(k, where, msg)
    cx.count('input classes', len(kinds))
    cx.need(kinds, 'input classes', 2)
    for c, r in sorted(kinds.items()): cx.sample('%s: %s' % (short(c), ' '.join(str(x) for x in r)))
    cx.count('source obligations', obl)


def check(cx):
    p = cx.prog
    fam = {}
    for f in p.funcs.values():
        if f.cfg and f.name == 'GetPtr' and len(f.params) == 1 and f.params[0]['t'].replace(' ', '') == 'unsignedint&': fam[f.id] = f
    cx.need(fam, 'GetPtr of the inputs', 2)
    users = [f for f in p.funcs.values() if f.cfg and any(getptr(n) for _, n in f.calls())]
    cx.need(users, 'functions asking for data', 4)
    files = {f.file for f in users}
    dc = direct_callers(cx)
    # functions that lead to a request for data, and those they share members with
    near = {f.id for f in users} | {f.id for f in p.funcs.values() if f.cfg and any(release(n) for _, n in f.calls())}
    top = set()
    rule = Window(cx, set(fam))
    todo = []
    for f in users:
        seen = set(); st = [f]
        while st:
            g = st.pop()
            if g.id in seen: continue
            seen.add(g.id)
            up = [p.funcs[c] for c in dc.get(g.id, ()) if p.funcs[c].file == f.file] if is_helper(cx, g) else []
            near.add(g.id)
            if up: st += up
            else: top.add(g.id)
    # their helpers
    for q in sorted(top):
        st = [p.funcs[q]]; seen = set()
        while st:
            g = st.pop()
            for _, n in g.calls():
                h = p.funcs.get(n.get('fn'))
                if h is not None and h.cfg and h.id not in seen and h.file == g.file and is_helper(cx, h) and (h.cls == g.cls or not h.cls):
                    seen.add(h.id); near.add(h.id); st.append(h)
    rule.near = near
    rule.cbs = callbacks(cx)
    for fid in sorted(top):
        f = p.funcs[fid]
        rule.keep = tuple(own_fields(p, f.cls)) if f.cls else ()
        eng = cx.engine(rule)
        eng.run(f)
        cx.finish_engine(eng, 'windows')
    for k, (where, msg) in sorted(rule.found.items()): cx.bad(k, where, msg)
    cx.count('window uses judged', len(rule.sites))
    cx.need(rule.sites, 'window uses', 8)
    for s in sorted(rule.sites)[:10]: cx.sample('window used at ' + s)
    sources(cx, fam)
    failures(cx, files)
    # E4 an input that could not be opened
    opened(cx, 'libvariant::ParserInput')
    scratch(cx, users, files)


# ---- failures --------------------------------------------------------------
class Callback(Rule):
    """what a reading callback returns after a failure"""
    exc = True
    max_states = 40
    inline_depth = 2
    def __init__(self, cx, cbs): self.cx = cx; self.cbs = cbs; self.found = {}; self.seen = 0
    def inline(self, eng, st, fr, nid, n, g): return g.file == eng.root_func.file and is_helper(self.cx, g)
    def may_throw(self, eng, st, fr, nid, n): return getptr(n) or release(n)
    def catch_(self, eng, st, fr, nid, ty): st.add(('caught',))
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is not None: return
        fail = self.cbs[eng.root_func.id][0]
        got = val is I(fail) or val is not None and val.k == 'un' and fail < 0 and val.a[1] is I(-fail)
        if ('caught',) in st.facts:
            self.seen += 1
            if not got: self.found[fn_key(fr.f) + ':E2:after'] = (fr.f.loc(nid), 'E2: returns %s after a failure, which the library takes for %s' % (tstr(val), 'the end of the input or for data'))
        elif self.cbs[eng.root_func.id][1] is not None and got: self.found[fn_key(fr.f) + ':E2:end'] = (fr.f.loc(nid), 'E2: returns the failure value although nothing failed')
    def exc_exit(self, eng, st, nid, ty):
        f = eng.root_func
        self.found[fn_key(f) + ':E2:leaves'] = (f.loc(), 'E2: a failure of the input leaves through the library that called back')


class FileErrors(Rule):
    """a short count is told from an error"""
    max_states = 40
    inline_depth = 3
    def __init__(self, cx): self.cx = cx; self.found = {}; self.seen = set()
    def inline(self, eng, st, fr, nid, n, g): return g.file == eng.root_func.file and is_helper(self.cx, g)
    def forget(self, eng, st, t, memo):
        m = {}
        st.drop(lambda f: any(isinstance(x, Term) and mentions(x, lambda y: y is t, m) for x in f))
    def after(self, eng, st, fr, nid, n, obj, args, res):
        nm = (n.get('fq') or '').split('::')[-1]
        if nm in ('fread', 'fread_unlocked') and len(args) == 4:
            self.seen.add(fr.f.loc(nid))
            r = T('got', fr.uid, nid)
            eng.forget(st, r)
            st.res[(fr.uid, nid)] = r
            one = [eng.value_of(st, a) for a in args[1:3]]
            st.add(('short', r, one[1] if one[0] is I(1) else one[0] if one[1] is I(1) else T('*', *one)))
            st.add(('le', r, one[1]))
        elif nm in ('ferror', 'ferror_unlocked', 'feof', 'feof_unlocked'):
            t = T('flag', nm[:6] == 'ferror', fr.uid, nid)
            eng.forget(st, t)
            st.res[(fr.uid, nid)] = t
    def done(self, eng, st, f, where):
        sh = [x for x in st.facts if x[0] == 'short']
        if not sh: return
        known = [(c.a[0], v) for c, v in st.conds.items() if c.k == 'flag']
        if (True, True) in known: self.found[fn_key(f) + ':E1:on'] = (where, 'E1: carries on although the file reports an error'); return
        if (True, False) in known or (False, True) in known: return
        ats = atoms_of(st)
        if not all(prove(comb({x[1]: 1}, lin(x[2]), -1), ats) for x in sh): self.found[fn_key(f) + ':E1:short'] = (where, 'E1: a count that may be short is used without asking the file for an error')
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is None: self.done(eng, st, fr.f, fr.f.loc(nid))
    def exit(self, eng, st):
        if eng.root_func.ret == 'void': self.done(eng, st, eng.root_func, eng.root_func.loc())


class Complete(Rule):
    """the state that ends a JSON document is entered only when the parser says it is complete"""
    max_states = 60
    max_steps = 20000
    inline_depth = 3
    def __init__(self, cx): self.cx = cx; self.on = {}; self.off = {}
    def inline(self, eng, st, fr, nid, n, g): return g.cls == eng.root_func.cls and is_helper(self.cx, g)
    def after(self, eng, st, fr, nid, n, obj, args, res):
        if any('JSON_parser' in x for x in n.get('pt', ())):
            for c in [c for c in st.conds if c.k == 'complete']: del st.conds[c]
        if n.get('fq') == 'JSON_parser_done':
            t = T('complete', fr.uid, nid)
            eng.forget(st, t)
            st.res[(fr.uid, nid)] = t
    def assign(self, eng, st, fr, nid, loc, val):
        if loc.k != 'fld' or val.k != 'i': return
        f = fr.f
        n = f.nodes[nid]
        if n['k'] != 'BinaryOperator': return
        c = f.nodes[f.strip(n['c'][1])]
        if c['k'] == 'ConditionalOperator':
            c = next((m for m in (f.nodes[f.strip(x)] for x in c['c'][1:]) if m['k'] == 'DeclRefExpr' and str(m.get('cv')) == str(val.a[0])), c)
        if c['k'] != 'DeclRefExpr' or c.get('dk') != 'EnumConstant': return
        ok = any(t.k == 'complete' and v for t, v in st.conds.items())
        (self.on if ok else self.off).setdefault((loc.a[1], c['dn']), set()).add((fn_key(f), f.loc(nid)))
        for t in [t for t in st.conds if t.k == 'complete']: del st.conds[t]


def failures(cx, files):
    p = cx.prog
    cbs = callbacks(cx)
    cx.need(cbs, 'reading callbacks', 2)
    rule = Callback(cx, cbs)
    eng = cx.engine(rule)
    for i in sorted(cbs): eng.run(p.funcs[i])
    cx.finish_engine(eng, 'callbacks')
    cx.count('callback returns after a failure', rule.seen)
    fe = FileErrors(cx)
    eng = cx.engine(fe)
    us = [f for f in p.funcs.values() if f.cfg and any((n.get('fq') or '').split('::')[-1] in ('fread', 'fread_unlocked') for _, n in f.calls())]
    for f in sorted(us, key=lambda f: f.q): 
        top = [f]
        if is_helper(cx, f): top = [p.funcs[c] for c in direct_callers(cx).get(f.id, ())]
        for g in top: eng.run(g)
    cx.finish_engine(eng, 'file reads')
    cx.count('file reads', len(fe.seen))
    co = Complete(cx)
    eng = cx.engine(co)
    us = [f for f in p.funcs.values() if f.cfg and any(n.get('fq') == 'JSON_parser_done' for _, n in f.calls())]
    cls = {f.cls for f in us}
    for f in sorted(p.funcs.values(), key=lambda f: (f.file, f.line)):
        if f.cfg and f.cls in cls and f.kind not in ('ctor', 'dtor') and not is_helper(cx, f): eng.run(f)
    cx.finish_engine(eng, 'document end')
    cx.count('stores of the end of a document', len([x for v in co.on.values() for x in v]))
    for r in (rule.found, fe.found):
        for k, (where, msg) in sorted(r.items()): cx.bad(k, where, msg)
    # the state entered after a successful question is the end of a document
    for k in sorted(co.on):
        for fn, where in sorted(co.off.get(k, ())): cx.bad('%s:E3:%s' % (fn, k[1]), where, 'E3: %s = %s ends the document, but the parser was not asked (or denied) that it is complete' % k)
    cx.need(cls, 'users of JSON_parser_done', 1)


def callbacks(cx):
    p = cx.prog
    out = {}
    for f in p.funcs.values():
        if not f.cfg: continue
        for i, n in f.calls():
            e = FAILS.get((n.get('fq') or '').split('::')[-1])
            if e is None or len(n.get('args', ())) <= e[0]: continue
            for j in f.walk(n['args'][e[0]]):
                m = f.nodes[j]
                g = m.get('d') if m['k'] == 'DeclRefExpr' else None
                if g in p.funcs: out[g] = (e[1], e[2])
    return out


def own_fields(p, cls):
    ms, other = set(), set()
    for f in p.funcs.values():
        for n in f.nodes:
            if n and n['k'] == 'MemberExpr' and n.get('mk') == 'Field' and n.get('mq', '').startswith(cls + '::'): (ms if f.cls == cls else other).add(n['m'])
    return ms - other


# ---- an input that has ended -------------------------------------------------
class Eof(Rule):
    """an input that has nothing more to give is not asked again"""
    max_states = 40
    max_steps = 20000
    inline_depth = 3
    def __init__(self, cx): self.cx = cx; self.found = {}; self.seen = set()
    def inline(self, eng, st, fr, nid, n, g): return g.file == eng.root_func.file and is_helper(self.cx, g) and (g.cls == eng.root_func.cls or not g.cls) and len(g.nodes) < 300 and not any(getptr(m) for _, m in g.calls())
    def after(self, eng, st, fr, nid, n, obj, args, res):
        if not getptr(n): return
        k = (fr.f.id, nid)
        self.seen.add(k)
        if ('ended',) + k in st.facts:
            self.found['%s:E5' % fn_key(fr.f)] = (fr.f.loc(nid), 'E5: after an empty window the input is asked again and again')
        if self.later and not any(f[0] == 'asked' for f in st.facts):
            st.add(('asked',) + k)
            return
        st.add(('ended',) + k)
        st.res[(fr.uid, nid)] = ZERO
        eng.invalidate(st, args[0])
        st.mem[args[0]] = ZERO


# ---- text put together from the input ----------------------------------------
class Scratch(Rule):
    """text collected in a vector of characters ends with NUL where it is used as a string, and is not indexed below its start"""
    max_states = 40
    max_steps = 20000
    inline_depth = 3
    def __init__(self, cx, strings): self.cx = cx; self.strings = strings; self.found = {}; self.seen = set(); self.back = 0
    def inline(self, eng, st, fr, nid, n, g): return g.file == eng.root_func.file and is_helper(self.cx, g) and (g.cls == eng.root_func.cls or not g.cls) and len(g.nodes) < 200
    def owner(self, f, n):
        m = f.nodes[f.strip(n['obj'])] if 'obj' in n else None
        return m['m'] if m and m['k'] == 'MemberExpr' else None
    def call(self, eng, st, fr, nid, n, obj, args):
        q = n.get('fq') or ''
        nm = q.split('::')[-1]
        f = fr.f
        if not n.get('sys') or obj is None: return
        if nm in ('push_back', 'assign', 'insert', 'emplace_back', 'clear', 'resize', 'pop_back', 'swap') and obj.k == 'fld' and obj.a[1] in self.strings:
            st.drop(lambda x: x[0] == 'last' and x[1] is obj)
            # functions that say whether they succeeded are judged by themselves
            own = fr.parent is None or fr.f.ret != 'bool'
            v = eng.value_of(st, args[0]) if args else None
            if nm in ('push_back', 'emplace_back'):
                self.seen.add((f.id, nid))
                if own and not (v is not None and v.k == 'i' and v.a[0] == 0): st.add(('last', obj))
            elif nm in ('assign', 'insert') and own: st.add(('last', obj))
        if nm in ('operator[]', 'at') and args and re.match(r'std::(__cxx11::)?(vector|basic_string|deque)', q):
            ix = args[0] if args[0].k != '&' else eng.value_of(st, args[0])
            if nm == 'operator[]' and ix.k == '-' and len(ix.a) == 2 and ix.a[1].k == 'i' and self.is_size(ix.a[0], obj):
                self.back += 1
                if not self.least(st, ix.a[0], obj, ix.a[1].a[0]):
                    self.found['%s:E7:%s' % (fn_key(f), tstr(obj))] = (f.loc(nid), 'E7: nothing says that %s holds %d elements when the one %d before its end is looked at' % (tstr(obj), ix.a[1].a[0], ix.a[1].a[0]))
    def is_size(self, t, obj): return t.k == 'call' and t.a[0].split('::')[-1] in ('size', 'length') and any(x is obj or isinstance(x, tuple) and obj in x for x in t.a)
    def least(self, st, size, obj, k):
        for c, v in st.conds.items():
            if c.k == '<' and c.a[1] is size and c.a[0].k == 'i' and v and c.a[0].a[0] >= k - 1: return True
            if c.k == '<' and c.a[0] is size and c.a[1].k == 'i' and not v and c.a[1].a[0] >= k: return True
            if k == 1 and c.k == '==' and size in c.a and ZERO in c.a and not v: return True
            if k == 1 and c is size and v: return True
            if k == 1 and c.k == 'call' and c.a[0].split('::')[-1] == 'empty' and not v and any(x is obj for x in c.a): return True
        return False
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is not None or val is not None and val.k == 'i' and val.a[0] == 0: return
        self.done(eng, st, fr.f, fr.f.loc(nid))
    def exit(self, eng, st):
        if eng.root_func.ret == 'void': self.done(eng, st, eng.root_func, '%s:%d' % (eng.root_func.file, eng.root_func.line))
    def done(self, eng, st, f, where):
        for x in st.facts:
            if x[0] == 'last': self.found['%s:E6:%s' % (fn_key(f), tstr(x[1]))] = (where, 'E6: %s is used as a string, but does not end with NUL here' % tstr(x[1]))


def scratch(cx, users, files):
    p = cx.prog
    dc = direct_callers(cx)
    eo = Eof(cx)
    for eo.later in (False, True):
        eng = cx.engine(eo)
        for f in sorted(users, key=lambda f: f.q): eng.run(f)
        cx.finish_engine(eng, 'ended inputs')
    cx.count('requests for data followed after the end', len(eo.seen))
    # members whose characters are handed to functions that look for NUL
    strings = set()
    fs = [f for f in sorted(p.funcs.values(), key=lambda f: (f.file, f.line, f.id)) if f.cfg and f.file in files]
    for f in fs:
        for i, n in f.calls():
            if (n.get('fq') or '').split('::')[-1] not in NULTERM + ('strtok_r',): continue
            for a in n.get('args', ()):
                for x in f.walk(a):
                    m = f.nodes[x]
                    if m and m['k'] == 'MemberExpr' and re.match(r'(class )?std::vector<(unsigned )?char', m.get('dt') or m.get('t') or ''): strings.add(m['m'])
    sc = Scratch(cx, strings)
    eng = cx.engine(sc)
    walks = 0
    for f in fs:
        touched = False
        for i, n in f.calls():
            nm = (n.get('fq') or '').split('::')[-1]
            if n.get('sys') and 'obj' in n and (sc.owner(f, n) in strings or nm in ('size', 'length')): touched = True
        if touched and not (f.ret == 'void' and is_helper(cx, f) and dc.get(f.id)): eng.run(f)
        # E8 walking back needs something to stop at
        for i, n in enumerate(f.nodes):
            if not n or n['k'] != 'UnaryOperator' or n['op'] not in ('--', 'post--'): continue
            v = f.nodes[f.strip(n['c'][0])]
            if v['k'] != 'DeclRefExpr' or not (v.get('dt') or v.get('t') or '').rstrip().endswith('*'): continue
            loop = next((a for a in f.ancestors(i) if f.nodes[a]['k'] in ('WhileStmt', 'ForStmt', 'DoStmt')), None)
            if loop is None: continue
            walks += 1
            moved = {f.nodes[f.strip(m['c'][0])].get('d') for x in f.walk(loop) for m in [f.nodes[x]] if m and (m['k'] == 'UnaryOperator' and m['op'] in ('++', '--', 'post++', 'post--') or m['k'] == 'CompoundAssignOperator')}
            stop = False
            for x in f.walk(loop):
                m = f.nodes[x]
                if not m or m['k'] not in ('BinaryOperator', 'CXXOperatorCallExpr') or m.get('op') not in ('<', '>', '<=', '>=', '!=', '=='): continue
                for side in m.get('c') or m.get('args', ()):
                    s = f.nodes[f.strip(side)]
                    if s['k'] == 'UnaryOperator' and s['op'] in ('++', '--', 'post++', 'post--'): s = f.nodes[f.strip(s['c'][0])]
                    if s['k'] == 'DeclRefExpr' and (s.get('d') == v.get('d') or s.get('d') in moved): stop = True
            if not stop: cx.bad('%s:E8:%s' % (fn_key(f), v.get('dn')), f.loc(i), 'E8: %s walks back without being compared with where the text begins' % v.get('dn'))
    cx.finish_engine(eng, 'scratch text')
    for r in (eo.found, sc.found):
        for k, (where, msg) in sorted(r.items()): cx.bad(k, where, msg)
    cx.count('characters added to scratch text', len(sc.seen))
    cx.count('backward walks and looks at the end of text', walks + sc.back)
