from checks.common import *
from interp import *

EXPLAIN = ('The function that walks a document along a JSON Pointer, the function that replays the list of reverting actions, and the public pointer and patch calls are analysed on all paths, with exceptional edges. For the walk: no path that changes the document ends in an '
           'error, the path it reports names the place it changed, and what is needed to revert the change (the previous value, and whether there was one) has been put in the operation before the change. For the replay: newest action first, every action, and each kind of '
           'action has the effect opposite to the change it is recorded for, in lists, maps and at the root. For the calls: every change is followed by the record that reverts it before anything that can fail, and every way of failing replays the records first.')
TECH = 'typestate of pending document changes over all normal and exceptional paths, with derived summaries of the walk and of the replay'
NOTE = 'Running out of memory is not considered. A document that did not exist before the call is not judged.'
RULE = ('U1 the walk changes the document at most once, as its last step that can fail; U2 the reported path is the changed place; U3 previous value and presence are kept before the change; U4 the replay runs newest first and completely, and reverts each kind of change; '
        'U5 a change is recorded with its inverse before anything can fail; U6 each failing exit of a patch or pointer edit leaves no change that was not reverted, and a patch reports failure exactly when it reverted.')

API = ('JSONPointerAdd', 'JSONPointerRemove', 'JSONPointerReplace', 'JSONPointerMove', 'JSONPointerCopy', 'JSONPatch')
MUT = {'Set', 'SetPath', 'Append', 'Erase', 'ErasePath', 'Merge', 'Clear', 'operator=', 'Assign', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator%='}
CMUT = {'push_back', 'pop_back', 'insert', 'erase', 'clear', 'resize', 'assign', 'swap', 'emplace', 'emplace_back', 'operator='}
GETTERS = ('At', 'Get', 'AtPath', 'GetPath', 'operator[]', 'Index', 'GetIndex')


def is_val(t):
    t = (t or '').replace('const ', '').rstrip(' &*')
    return t == VARIANT or t.startswith('libvariant::VariantRefImpl')


def is_doc(t):
    return 'VariantRefImpl<libvariant::Variant>' in t and not t.startswith('const') and not t.endswith('&')


def name_of(n):
    return (n.get('fq') or '').split('::')[-1]


class W: pass


class Base(Rule):
    """what value operations do to the document"""
    accessors = ('At', 'AsList', 'AsMap', 'ListBegin', 'ListEnd', 'MapBegin', 'MapEnd', 'begin', 'end', 'AtPath', 'back', 'front', 'Resolve')
    max_states = 40
    max_steps = 40000
    def __init__(self, cx, w): self.cx, self.w = cx, w; self.found = {}; self.inlined = set()
    def bad(self, key, where, msg): self.found.setdefault(key, (where, msg))
    def inline(self, eng, st, fr, nid, n, g):
        if g.id in self.w.stop or g.kind in ('ctor', 'dtor') or g.cls == VARIANT or (g.cls or '').startswith('libvariant::VariantRefImpl') or g.opname: return False
        ok = g.file == self.w.walk.file and any(is_doc(p['t']) or self.w.op in p['t'] or self.w.rec in p['t'] for p in g.params)
        if ok: self.inlined.add(g.id)
        return ok
    def peel(self, st, t):
        """the value behind copies and variables"""
        for i in range(20):
            if t.k == 'copy': t = t.a[0]
            elif t.k == 'ctor' and len(t.a[1]) == 1 and (t.a[0].startswith(('libvariant::VariantRefImpl', 'libvariant::PathElement', VARIANT)) or '_iterator' in t.a[0]): t = t.a[1][0]
            elif t.k in ('var', 'fld', 'obj') and st.mem.get(t) is not None and st.mem[t] is not t: t = st.mem[t]
            elif t.k == 'elem' and t.a[0].k == '&': t = t.a[0].a[0]
            else: break
        return t
    def place(self, eng, st, t):
        """where in the document: ('self',), ('at', key), ('list', place), ('deep', place, ...)"""
        t = self.peel(st, t)
        if t is self.doc: return ('self',)
        if t.k == 'call' and t.a[1] is not None:
            b = self.place(eng, st, t.a[1])
            if b is None: return None
            nm = t.a[0].split('::')[-1]
            if nm in GETTERS and len(t.a[2]) >= 1:
                k = self.peel(st, t.a[2][0])
                return ('at', k) if b == ('self',) else ('deep', b, k)
            if nm in ('AsList', 'AsMap', 'ListBegin', 'ListEnd', 'begin', 'end', 'MapBegin', 'Resolve'): return ('list', b) if nm != 'Resolve' else b
        if t.k == 'idx':
            b = self.place(eng, st, t.a[0])
            if b is not None: return ('at', self.peel(st, t.a[1])) if b in (('self',), ('list', ('self',))) else ('deep', b, self.peel(st, t.a[1]))
        return None
    def offset(self, eng, st, t):
        """key of an iterator into the document"""
        t = self.peel(st, t)
        if t.k == 'call' and t.a[0].split('::')[-1] == 'operator+' and len(t.a[2]) == 1: return self.peel(st, t.a[2][0])
        if t.k == 'call' and t.a[0].split('::')[-1] in ('next', 'advance') and len(t.a[2]) == 2: return self.peel(st, t.a[2][1])
        if t.k == '+' : return self.peel(st, t.a[1])
        if t.k == 'call' and t.a[0].split('::')[-1] in ('end', 'ListEnd', 'cend'): return ('end',)
        if t.k == 'call' and t.a[0].split('::')[-1] in ('begin', 'ListBegin', 'cbegin'): return I(0)
        return None
    def change(self, eng, st, fr, n, obj, args):
        """(kind, place of the container or None, key, value) when the call changes the document"""
        if obj is None or n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') or n.get('cm'): return None
        nm = name_of(n)
        cls = n.get('cls') or ''
        if (cls == VARIANT or cls.startswith('libvariant::VariantRefImpl')) and nm in MUT:
            ot = fr.f.nodes[fr.f.strip(n['obj'])].get('t', '')
            if nm == 'operator=' and obj.k in ('var', 'p') and 'VariantRefImpl' not in ot and not ot.endswith('&'): return None
            p = self.place(eng, st, obj)
            if p is None: return None
            v = args[-1] if args else None
            if nm in ('operator=', 'Assign'):
                if p == ('self',): return ('assign', p, None, v)
                if p[0] == 'at': return ('assign', ('self',), p[1], v)
                return ('assign', p[1], p[2] if len(p) > 2 else None, v)
            if nm == 'Set': return ('set', p, self.peel(st, args[0]), v)
            if nm == 'SetPath': return ('setpath', p, self.peel(st, args[0]), v)
            if nm == 'Append': return ('append', p, None, v)
            if nm == 'Erase': return ('erase', p, self.peel(st, args[0]), None)
            return (nm, p, None, v)
        if n.get('sys') and nm in CMUT:
            p = self.place(eng, st, obj)
            if p is None or p[0] != 'list': return None
            b = p[1]
            if nm in ('insert', 'emplace') and len(args) == 2:
                k = self.offset(eng, st, args[0])
                return ('append', b, None, args[1]) if k == ('end',) else ('insert', b, k, args[1])
            if nm == 'erase' and len(args) == 1: return ('lerase', b, self.offset(eng, st, args[0]), None)
            if nm in ('push_back', 'emplace_back'): return ('append', b, None, args[0])
            return ('c:' + nm, b, None, None)
        return None
    def cond(self, st, name, obj, key=None):
        """what the path knows about obj.name(key)"""
        for c, v in st.conds.items():
            if c.k == 'call' and c.a[0].split('::')[-1] == name and c.a[1] is not None and self.peel(st, c.a[1]) is obj and (key is None or c.a[2] and self.peel(st, c.a[2][0]) is key):
                return v
        return None


def report(cx, r):
    for k in sorted(r.found): cx.bad(k, r.found[k][0], r.found[k][1])


# ---- the walk ---------------------------------------------------------------
class Walk(Base):
    exc = False
    def __init__(self, cx, w, kind, kname):
        Base.__init__(self, cx, w); self.kind, self.kname = kind, kname
        self.outs = set(); self.caps = []; self.ends = self.errs = 0
        f = w.walk
        self.doc = T('p', w.wdoc, f.params[w.wdoc]['n'] or 'arg%d' % w.wdoc)
        self.opt = T('p', w.wop, f.params[w.wop]['n'] or 'arg%d' % w.wop)
        self.keep_obj = self.doc
    def init(self, eng, st):
        st.mem[T('fld', self.opt, self.w.kindf)] = I(self.kind)
        for b in self.w.never: st.mem[T('fld', self.opt, b)] = I(0)
        st.add(('push', ()))
    def pushed(self, st): return [f[1] for f in st.facts if f[0] == 'push'][0]
    def mutated(self, st): return [f for f in st.facts if f[0] in ('mut', 'rec')]
    def here(self, st):
        """the walk is inside its own frame's document"""
        return self.doc
    def call(self, eng, st, fr, nid, n, obj, args):
        f = fr.f; nm = name_of(n)
        where = f.loc(nid)
        if n.get('fn') == self.w.walk.id:
            if args[self.w.wop] is not self.opt: self.bad('walk:U2:op', where, 'U2: the walk goes on with another operation'); return
            p = self.place(eng, st, args[self.w.wdoc])
            if self.mutated(st): self.bad('walk:U1:%s' % self.kname, where, 'U1: the walk goes on, and can fail, after it changed the document'); return
            if p is None or p[0] not in ('at', 'self'): self.bad('walk:U2:descend', where, 'U2: the walk goes on at a place that cannot be told')
            else:
                want = (p[1],) if p[0] == 'at' else ()
                if self.pushed(st) != want: self.bad('walk:U2:descend:%s' % self.kindname(st), where, 'U2: the walk descends without adding the step to the reported path')
            st.add(('rec', where)); return
        # the reported path
        if n.get('sys') and obj is not None and obj.k == 'fld' and obj.a[0] is self.opt and obj.a[1] == self.w.pathf and not n.get('cm'):
            ps = self.pushed(st)
            if nm in ('push_back', 'emplace_back') and args: ps = ps + (self.peel(st, args[0]),)
            elif nm == 'pop_back': ps = ps[:-1]
            elif nm in ('begin', 'end', 'back', 'front', 'size', 'empty'): pass
            else: ps = ps + (('?',),)
            if self.mutated(st) and nm in ('push_back', 'pop_back', 'emplace_back'): self.bad('walk:U2:late', where, 'U2: the reported path changes after the document did')
            st.drop(lambda x: x[0] == 'push'); st.add(('push', ps))
            return
        # values kept in the operation
        if n.get('oop') == '=' and obj is not None and obj.k == 'fld' and obj.a[0] is self.opt and len(args) == 1:
            st.drop(lambda x: x[0] == 'cap' and x[1] == obj.a[1])
            loc = args[0]
            src = [x[2] for x in st.facts if x[0] == 'val' and x[1] is loc]
            p = src[0] if src else self.place(eng, st, loc) if not self.mutated(st) else None
            if p is not None: st.add(('cap', obj.a[1], p))
            return
        c = self.change(eng, st, fr, n, obj, args)
        if c is not None:
            kind, p, key, v = c
            if self.mutated(st): self.bad('walk:U1:twice:%s' % self.kname, where, 'U1: the walk changes the document a second time'); return
            if p != ('self',) or kind not in ('assign', 'set', 'append', 'erase', 'insert', 'lerase'):
                self.bad('walk:U2:other:%s' % self.kname, where, 'U2: the walk changes something other than the place it stands at'); return
            ps = self.pushed(st)
            if kind == 'append':
                ok = len(ps) == 1 and isinstance(ps[0], Term) and ps[0].k == 'call' and ps[0].a[0].split('::')[-1] in ('Size', 'size')
            else: ok = ps == ((key,) if key is not None else ())
            if not ok: self.bad('walk:U2:%s:%s' % (self.kname, kind), where, 'U2: the place that changes is not the last step of the reported path')
            ex = None
            if kind == 'set': ex = self.cond(st, 'Contains', self.doc, key)
            elif kind == 'assign' and key is None: ex = self.cond(st, 'Exists', self.doc); ex = True if ex is None else ex or 'none'
            elif kind in ('erase', 'lerase', 'assign'): ex = True
            elif kind in ('append', 'insert'): ex = False
            st.add(('mut', kind, key, ex, where, frozenset((x[1], x[2]) for x in st.facts if x[0] == 'cap')))
    def after(self, eng, st, fr, nid, n, obj, args, res):
        if n.get('oop') == '=' and obj is not None and obj.k in ('var', 'obj') and is_val(n.get('cls')) and len(args) == 1:
            self.note(eng, st, obj, args[0])
    def declare(self, eng, st, fr, v, loc, val):
        if is_val(v['t']) and val is not None and 'VariantRefImpl' not in v['t']: self.note(eng, st, loc, val)
    def note(self, eng, st, loc, val):
        st.drop(lambda x: x[0] == 'val' and x[1] is loc)
        p = self.place(eng, st, val) if not self.mutated(st) else None
        if p is not None: st.add(('val', loc, p))
    def kindname(self, st):
        m, l = self.cond(st, 'IsMap', self.doc), self.cond(st, 'IsList', self.doc)
        return 'map' if m else 'list' if l else 'other'
    def exc_exit(self, eng, st, nid, ty):
        self.errs += 1
        fr, i = nid
        for m in self.mutated(st): self.bad('walk:U1:%s' % self.kname, fr.f.loc(i), 'U1: the walk reports an error after it %s' % ('changed the document' if m[0] == 'mut' else 'went on')); break
    def exit(self, eng, st):
        self.ends += 1
        mu = [f for f in st.facts if f[0] == 'mut']
        if any(f[0] == 'rec' for f in st.facts): return
        caps = frozenset((f[1], f[2]) for f in st.facts if f[0] == 'cap')
        if not mu:
            self.caps.append((self.pushed(st), caps)); self.outs.add(('same',)); return
        _, kind, key, ex, where, before = mu[0]
        if ex == 'none': return          # there was no document
        flags = []
        for b in self.w.bools:
            if b in self.w.never: continue
            v = st.mem.get(T('fld', self.opt, b))
            if v is not None and v.k == 'i': flags.append((b, bool(v.a[0])))
        place = ('at', key) if key is not None else ('self',)
        if ex is None: self.bad('walk:U3:%s:%s' % (self.kname, kind), where, 'U3: the walk changes a place without finding out whether it held a value'); return
        if ex:
            # kept in the operation now, and fetched before the change
            F = sorted(fl for fl, p in caps if p == place or p == ('list', place))
            if not F: self.bad('walk:U3:%s:%s' % (self.kname, kind), where, 'U3: the value that is %s is not kept before the change' % ('replaced' if kind in ('set', 'assign') else 'removed')); return
            self.outs.add(('add', F[0], tuple(flags)))
        else: self.outs.add(('del', None, tuple(flags)))


# ---- the replay -------------------------------------------------------------
class Replay(Base):
    exc = False
    open_enums = True
    def __init__(self, cx, w, kind, kname):
        Base.__init__(self, cx, w); self.kind, self.kname = kind, kname
        f = w.undo
        self.doc = T('p', w.udoc, f.params[w.udoc]['n'] or 'arg%d' % w.udoc)
        b = T('p', w.ubox, f.params[w.ubox]['n'] or 'arg%d' % w.ubox)
        self.box = deref(b) if f.params[w.ubox]['t'].endswith('*') else b
        self.keep_obj = self.doc
        self.effects = set(); self.ends = self.threw = 0
        self.endsof = set(); self.open = None
    def apart_by(self, st):
        return frozenset((c, v) for c, v in st.conds.items())
    def boxed(self, st, t): return self.peel(st, t) is self.box or t is self.box
    def branch(self, eng, st, fr, cond, val, term, nid):
        t = cond
        while t.k == '!' and isinstance(val, bool): t, val = t.a[0], not val
        if t.k == '==' and t.a[1].k == 'i' and t.a[0].k == 'fld' and t.a[0].a[1] == self.w.rkind:
            if (t.a[1].a[0] == self.kind) != bool(val): return False
        elif t.k == 'fld' and t.a[1] == self.w.rkind:
            if fr.f.nodes[term]['k'] == 'SwitchStmt':
                if val is not None and val != self.kind: return False
                if val is None and any(self.kind == int(m['lo']) for m in fr.f.nodes if m and m['k'] == 'CaseStmt' and 'lo' in m and term in eng.switch_of(fr.f, fr.f.nodes.index(m))): return False
            elif bool(val) != (self.kind != 0): return False
        elif isinstance(val, bool) and mentions(t, lambda y: y.k == 'call' and y.a[0].split('::')[-1] in ('rend', 'crend'), {}):
            st.drop(lambda x: x[0] == 'at end'); st.add(('at end', val == (t.k == '==' or t.k == 'call' and t.a[0].split('::')[-1] == 'operator==')))
    def call(self, eng, st, fr, nid, n, obj, args):
        nm = name_of(n); where = fr.f.loc(nid)
        if obj is not None and self.boxed(st, obj) and n.get('sys'):
            if nm in ('back', 'pop_back', 'rbegin', 'rend', 'crbegin', 'crend'): self.endsof.add(('back', where))
            elif nm in ('front', 'pop_front', 'begin', 'cbegin'): self.endsof.add(('front', where))
            if nm in ('back', 'front', 'operator[]', 'at'): st.add(('item',))
            if nm in ('pop_back', 'pop_front'): self.close(eng, st, where)
            return
        if 'iterator' in (n.get('cls') or '') and self.w.rec in n.get('fq', ''):
            if n.get('oop') in ('*', '->'): st.add(('item',))
            elif n.get('oop') in ('++', '--'): self.close(eng, st, where)
        # the last step of the recorded path
        if n.get('sys') and obj is not None and nm == 'pop_back':
            st.add(('popped', obj)); return
        c = self.change(eng, st, fr, n, obj, args)
        if c is not None:
            kind, p, key, v = c
            st.add(('did', self.describe(eng, st, fr, c), where))
    def describe(self, eng, st, fr, c):
        kind, p, key, v = c
        v = self.peel(st, v) if v is not None else None
        vf = v is not None and v.k == 'fld' and v.a[1] == self.w.rval
        tgt = self.target
        if p == ('self',) and key is None and kind == 'assign': return ('root', vf)
        if kind == 'assign' and key is not None: return ('overwrite', vf)
        if kind == 'setpath': return ('overwrite', vf)
        base = self.last[0] if self.last else None
        ok = self.parent_ok and self.key_ok(st, key)
        l = self.cond_at(st, 'IsList'); m = self.cond_at(st, 'IsMap')
        if kind == 'insert': return ('insert', vf and ok and (l is True or m is False))
        if kind == 'set': return ('set', vf and ok and (l is False or m is True))
        if kind == 'erase': return ('erase', ok and (l is False or m is True))
        if kind == 'lerase': return ('lerase', ok and (l is True or m is False))
        return (kind, False)
    # place() is called on the way: remember what was found there
    last = None
    parent_ok = True
    def change(self, eng, st, fr, n, obj, args):
        self.last = None; self.parent_ok = True; self.target = None
        c = Base.change(self, eng, st, fr, n, obj, args)
        if c is None: return None
        t = self.peel(st, obj)
        while t.k == 'call' and t.a[0].split('::')[-1] in ('AsList', 'AsMap', 'Resolve') and t.a[1] is not None: t = self.peel(st, t.a[1])
        self.target = t
        if t is not self.doc and t.k == 'call' and t.a[0].split('::')[-1] in ('AtPath',) and t.a[2]:
            # the container: the recorded path without its last step
            x = t.a[2][0]
            self.parent_ok = any(f[0] == 'parent' and f[1] is t for f in st.facts)
        elif t is not self.doc: self.parent_ok = False
        return c
    def after(self, eng, st, fr, nid, n, obj, args, res):
        nm = name_of(n)
        if nm == 'AtPath' and args and obj is not None and self.peel(st, obj) is self.doc:
            if any(f == ('popped', args[0]) for f in st.facts): st.add(('parent', res))
        if nm == 'back' and n.get('sys') and obj is not None and not self.boxed(st, obj):
            if ('popped', obj) in st.facts: st.add(('stale', res))
            else: st.add(('lastof', res))
    def declare(self, eng, st, fr, v, loc, val):
        st.drop(lambda x: x[0] in ('lastof', 'popped') and x[1] is loc)
        if val is not None and self.key_ok(st, val): st.add(('lastof', loc))
    def key_ok(self, st, key):
        if key is None or key == ('end',): return False
        k = key
        for i in range(12):
            if ('lastof', k) in st.facts: return True
            if k.k == 'call' and k.a[0].split('::')[-1] in ('AsUnsigned', 'AsString', 'AsInt', 'AsIndex') and k.a[1] is not None: k = self.peel1(st, k.a[1])
            elif k.k in ('copy',): k = k.a[0]
            elif k.k == 'ctor' and len(k.a[1]) == 1: k = k.a[1][0]
            elif k.k in ('var', 'obj') and k in st.mem: k = st.mem[k]
            elif k.k in ('cast', 'conv') and isinstance(k.a[-1], Term): k = k.a[-1]
            else: return False
        return False
    def peel1(self, st, t): return t
    def cond_at(self, st, name):
        for c, v in st.conds.items():
            if c.k == 'call' and c.a[0].split('::')[-1] == name and c.a[1] is not None and self.peel(st, c.a[1]) is self.target: return v
        return None
    def close(self, eng, st, where):
        did = [f for f in st.facts if f[0] == 'did']
        if not any(f == ('item',) for f in st.facts): return
        sized = [c for c in st.conds if c.k in ('call', '<', '==') and mentions(c, lambda y: y.k == 'call' and y.a[0].split('::')[-1] in ('size', 'empty') and y.a[1] is not None and not self.boxed(st, y.a[1]), {})]
        if not did: self.effects.add((('nothing', bool(sized)), where))
        elif len(did) > 1: self.effects.add((('several', False), did[0][2]))
        else: self.effects.add((did[0][1], did[0][2]))
        st.drop(lambda x: x[0] in ('did', 'item', 'popped', 'parent', 'lastof', 'stale'))
    def exc_exit(self, eng, st, nid, ty): self.threw += 1
    def exit(self, eng, st):
        self.ends += 1
        if any(f == ('item',) for f in st.facts): self.close(eng, st, self.w.undo.loc())
        if any(e[0] == 'back' for e in self.endsof):
            em = [v for c, v in st.conds.items() if c.k == 'call' and c.a[0].split('::')[-1] == 'empty' and c.a[1] is not None and self.boxed(st, c.a[1])]
            it = ('at end', True) in st.facts or any(mentions(c, lambda y: y.k == 'call' and y.a[0].split('::')[-1] == 'size' and y.a[1] is not None and self.boxed(st, y.a[1]), {}) for c in st.conds)
            if not (em and all(em)) and not it: self.open = True


# ---- the calls --------------------------------------------------------------
class Edit(Base):
    exc = True
    inline_depth = 5
    max_steps = 120000
    accessors = Base.accessors + ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'pop_back', 'clear')
    def __init__(self, cx, w, entry):
        Base.__init__(self, cx, w); self.entry = entry; self.patch = entry.name == 'JSONPatch'
        d = [i for i, p in enumerate(entry.params) if is_doc(p['t'])]
        self.doc = T('p', d[0], entry.params[d[0]]['n'] or 'arg%d' % d[0])
        self.keep_obj = self.doc
        self.walks = self.records = self.ends = self.fails = self.undos = 0
    # values known to come from a walk: (call, field)
    def res(self, st, t):
        for i in range(10):
            if t.k == 'wval': return t.a
            if t.k == 'fld' and not isinstance(t.a[0], str):
                for f in st.facts:
                    if f[0] == 'w' and f[1] is t.a[0]: return (f[2], t.a[1])
            if t.k == 'copy': t = t.a[0]
            elif t.k == 'ctor' and len(t.a[1]) == 1: t = t.a[1][0]
            elif t.k == 'call' and t.a[0] == self.w.walk.q: return (t.a[3], '*')
            elif t.k in ('var', 'obj') and st.mem.get(t) is not None and st.mem[t] is not t: t = st.mem[t]
            else: return None
        return None
    def kind_of(self, eng, st, t):
        """the kind an operation object is made with"""
        for i in range(6):
            for f in st.facts:
                if f[0] == 'op' and f[1] is t: return f[2]
            if t.k == 'copy': t = t.a[0]
            elif t.k == 'ctor' and t.a[0] == self.w.op:
                for a in t.a[1]:
                    if a.k == 'i': return a.a[0]
                return self.w.defkind
            elif t.k in ('var', 'obj') and t in st.mem: t = st.mem[t]
            else: return None
        return None
    def rec_of(self, eng, st, t):
        """('kind', path, value) of a record object"""
        for i in range(6):
            for f in st.facts:
                if f[0] == 'recv' and f[1] is t: return f[2]
            if t.k == 'copy': t = t.a[0]
            elif t.k == 'ctor' and t.a[0] == self.w.rec: return self.rec_args(eng, st, t.a[1])
            elif t.k in ('var', 'obj') and t in st.mem: t = st.mem[t]
            else: return None
        return None
    def rec_args(self, eng, st, args):
        k = [a.a[0] for a in args if a.k == 'i']
        rs = [self.res(st, a) for a in args if a.k != 'i']
        path = [r for r in rs if r is not None and r[1] == self.w.pathf]
        val = [r for r in rs if r is not None and r[1] != self.w.pathf]
        return (self.w.undoes.get(k[0]) if k else None, path[0][0] if path else None, val[0] if val else None)
    def may_throw(self, eng, st, fr, nid, n):
        if n.get('fn') == self.w.walk.id: return True
        if n.get('fn') == self.w.undo.id or n.get('copy') or n.get('move') or n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): return False
        nm = name_of(n)
        g = eng.prog.funcs.get(n.get('fn'))
        if g is not None and g.cfg and self.inline(eng, st, fr, nid, n, g): return False        # judged inside
        if n.get('oop') == '=': return False
        if nm in ('Exists', 'IsMap', 'IsList', 'ListBegin', 'ListEnd') or n.get('sys'): return False
        return n.get('fn') in self.w.throws or bool(n.get('virt'))
    def forget_at(self, st, loc):
        st.drop(lambda x: x[0] in ('op', 'w', 'recv') and (x[1] is loc or x[1].k == 'fld' and x[1].a[0] is loc))
    def call(self, eng, st, fr, nid, n, obj, args):
        nm = name_of(n); where = fr.f.loc(nid)
        if n.get('fn') == self.w.walk.id:
            self.walks += 1
            cid = (fr.uid, nid)
            for f in [f for f in st.facts if f[0] == 'pend' and f[1] == cid]: st.drop(lambda x: x is f); st.add(('lost',) + f[2:])
            st.drop(lambda x: x[0] in ('flag', 'half') and x[1] == cid or x[0] == 'w' and x[2] == cid)
            st.add(('ran',))
            k = self.kind_of(eng, st, args[self.w.wop])
            st.drop(lambda x: x[0] == 'now'); st.add(('now', k))
            d = args[self.w.wdoc]
            if self.place(eng, st, d) != ('self',): self.bad('%s:U6:doc' % self.entry.name, where, 'U6: the walk runs over something other than the document')
            return
        if n.get('fn') == self.w.undo.id:
            self.undos += 1
            box = args[self.w.ubox]
            box = deref(box) if box.k == '&' or self.w.undo.params[self.w.ubox]['t'].endswith('*') else box
            for f in sorted([f for f in st.facts if f[0] in ('pend', 'lost')], key=str):
                why = 'has no record that reverts it' if f[0] == 'pend' else 'was never recorded'
                at = f[3] if f[0] == 'pend' else f[2]
                self.bad('%s:U5:%s' % (self.entry.name, f[-1]), at, 'U5: the change made here %s when an error makes %s revert (%s)' % (why, self.entry.name, where))
            for f in st.facts:
                if f[0] == 'log' and f[1] is not box: self.bad('%s:U6:box' % self.entry.name, where, 'U6: the records replayed are not the ones of the changes')
            if self.place(eng, st, args[self.w.udoc]) != ('self',): self.bad('%s:U6:doc' % self.entry.name, where, 'U6: the records are replayed on something other than the document')
            return
        if n.get('sys') and obj is not None and not n.get('cm'):
            r = None
            if nm in ('push_back', 'push_front') and args: r = self.rec_of(eng, st, args[0])
            elif nm in ('emplace_back', 'emplace_front') and n.get('cls') == 'std::deque' and len(args) >= 2: r = self.rec_args(eng, st, args)
            elif nm == 'assign' and len(args) == 2: r = self.rec_of(eng, st, args[1])
            if r is not None:
                if nm.endswith('_front'): self.bad('%s:U4:order' % self.entry.name, where, 'U4: the record goes to the end that is replayed last')
                self.record(eng, st, where, self.peel_box(st, obj), r); return
            if nm in ('clear', 'pop_back', 'pop_front', 'erase', 'swap', 'operator=') and any(f[0] == 'log' and f[1] is obj for f in st.facts):
                self.bad('%s:U5:dropped' % self.entry.name, where, 'U5: records are dropped')
        if n.get('oop') == '=' and obj is not None:
            if n.get('cls') == self.w.op:
                k = self.kind_of(eng, st, args[0]); self.forget_at(st, obj); st.add(('op', obj, k)); return
        if n.get('oop') == '=' and obj is not None and is_val(n.get('cls')):
            r = self.res(st, obj)
            if r is not None and r[1] == '*': st.add(('tgt', r[0], obj))
        if self.patch and fr.parent is None and len(args) == 2 and (nm == 'make_pair' or n.get('cls') == 'std::pair'):
            st.drop(lambda x: x[0] == 'res'); st.add(('res', self.outcome(st, args[0])))
    def outcome(self, st, x):
        x0 = x
        known = [f[2] for f in st.facts if f[0] == 'truth' and f[1] is x]
        w = self.res(st, x)
        if x.k in ('var', 'obj', 'fld'): x = st.mem.get(x, x)
        if x.k == 'i': return bool(x.a[0])
        y = simp(truth(x), st.conds)
        if y in (0, 1): return bool(y)
        if known: return known[0]
        fl = [f[3] for f in st.facts if w is not None and f[0] == 'flag' and (f[1], f[2]) == tuple(w)]
        return fl[0] if fl else x0
    def peel_box(self, st, obj): return obj
    def record(self, eng, st, where, box, r):
        self.records += 1
        kind, cid, val = r
        st.add(('log', box))
        if cid is None: return
        flags = {f[2]: f[3] for f in st.facts if f[0] == 'flag' and f[1] == cid}
        for p in [f for f in st.facts if f[0] == 'pend' and f[1] == cid]:
            k = p[2]
            if k == 'assign':
                k0 = p[4]
                old = self.w.kept.get(k0, ())
                if kind == 'add' and val is not None and val[0] == cid and val[1] in old and not any(f == ('half', cid) for f in st.facts): st.add(('half', cid)); return
                if kind == 'del' and ('half', cid) in st.facts: st.drop(lambda x: x is p or x == ('half', cid)); st.add(('kept', p[3])); return
                return
            outs = [o for o in self.w.sums[k] if o[0] != 'same' and all(flags.get(b, v) == v for b, v in o[2])
                    and all(not (fv is True and b not in dict(o[2])) for b, fv in flags.items())]
            want = {(o[0], o[1]) for o in outs}
            have = (kind, val[1] if val is not None and val[0] == cid and kind == 'add' else None)
            if want and want == {have}: st.drop(lambda x: x is p); st.add(('kept', p[3]))
            return
        # recorded ahead of the change
        if kind == 'add' and val is not None and val[0] == cid: st.add(('half', cid))
        elif kind == 'del' and ('half', cid) in st.facts: st.drop(lambda x: x == ('half', cid)); st.add(('ahead', cid))
    def after(self, eng, st, fr, nid, n, obj, args, res):
        where = fr.f.loc(nid)
        if n.get('fn') == self.w.walk.id:
            cid = (fr.uid, nid)
            loc = args[self.w.wop]
            k = [f[1] for f in st.facts if f[0] == 'now'][0]
            st.drop(lambda x: x[0] == 'now')
            self.forget_at(st, loc)
            st.add(('op', loc, k)); st.add(('w', loc, cid))
            for b in list(st.mem):
                if b.k == 'fld' and b.a[0] is loc: del st.mem[b]
            for c in [c for c in st.conds if mentions(c, lambda y: y is loc, {})]: del st.conds[c]
            if k is None or k not in self.w.sums: st.add(('pend', cid, None, where, 'unknown kind'))
            elif any(o[0] != 'same' for o in self.w.sums[k]): st.add(('pend', cid, k, where, self.w.kinds.get(k, str(k))))
            st.drop(lambda x: x[0] == 'undone')
            return
        if n.get('fn') == self.w.undo.id:
            st.drop(lambda x: x[0] in ('pend', 'lost', 'half', 'ahead', 'log', 'kept')); st.add(('undone',)); return
        if n.get('oop') == '=' and obj is not None and len(args) == 1:
            if n.get('cls') == self.w.op:
                return
            if obj.k in ('var', 'obj') and 'VariantRefImpl' not in fr.f.nodes[fr.f.strip(n['obj'])].get('t', ''):
                r = self.res(st, args[0]); self.forget_at(st, obj)
                if r is not None: st.mem[obj] = T('wval', *r)
                return
        c = self.change(eng, st, fr, n, obj, args)
        cid = None
        if c is not None:
            if c[0] == 'setpath':
                r = self.res(st, args[0])
                if r is not None and r[1] == self.w.pathf: cid = r[0]
            if cid is None: st.add(('pend', (fr.uid, nid), None, where, c[0])); return
        for f in [f for f in st.facts if f[0] == 'tgt']:
            cid = f[1]; st.drop(lambda x: x is f)
            if f[2].k in ('var', 'obj'): st.mem[f[2]] = T('wval', cid, '*')
        if cid is not None:
            if ('ahead', cid) in st.facts: st.drop(lambda x: x == ('ahead', cid)); return
            k0 = [f[2] for f in st.facts if f[0] == 'op' and any(g[0] == 'w' and g[2] == cid and g[1] is f[1] for g in st.facts)]
            st.add(('pend', cid, 'assign', where, k0[0] if k0 else None))
    def assign(self, eng, st, fr, nid, loc, val):
        if loc.k == 'fld' and loc.a[1] == self.w.kindf:
            for f in list(st.facts):
                if f[0] == 'op' and f[1] is loc.a[0]: st.drop(lambda x: x is f)
            st.add(('op', loc.a[0], val.a[0] if val.k == 'i' else None))
        elif loc.k == 'fld' and loc.a[1] == 'first' and self.patch and fr.parent is None:
            st.drop(lambda x: x[0] == 'res'); st.add(('res', self.outcome(st, val)))
        elif loc.k in ('var',):
            st.drop(lambda x: x[0] == 'truth' and x[1] is loc)
            r = self.res(st, val)
            if r is not None: return T('wval', *r)
    def declare(self, eng, st, fr, v, loc, val):
        self.forget_at(st, loc)
        t = v['t'].replace('const ', '')
        if t == self.w.op: st.add(('op', loc, self.kind_of(eng, st, val) if val is not None else None)); return
        if t == self.w.rec and val is not None:
            r = self.rec_of(eng, st, val)
            if r is not None: st.add(('recv', loc, r))
            return
        if self.w.rec in t and val is not None and val.k == 'ctor':
            st.drop(lambda x: x[0] == 'log' and x[1] is loc)
            for a in val.a[1]:
                r = self.rec_of(eng, st, a)
                if r is not None: self.record(eng, st, fr.f.loc(), loc, r)
            return
        if val is not None:
            r = self.res(st, val)
            if r is not None: st.mem[loc] = T('wval', *r)
    def branch(self, eng, st, fr, cond, val, term, nid):
        while cond.k == '!' and isinstance(val, bool): cond, val = cond.a[0], not val
        if isinstance(val, bool):
            for l in [l for l, v in st.mem.items() if l.k == 'var' and not l.a[0] and v is cond] + ([cond] if cond.k == 'var' and not cond.a[0] else []):
                if ('truth', l, not val) in st.facts: return False
                st.add(('truth', l, val))
        r = self.res(st, cond) if cond.k in ('fld', 'var', 'wval') else None
        if r is not None and isinstance(val, bool):
            for f in st.facts:
                if f[0] == 'flag' and f[1] == r[0] and f[2] == r[1] and f[3] != val: return False
            st.add(('flag', r[0], r[1], val))
    def catch_(self, eng, st, fr, nid, ty):
        inner = lambda u: u[:len(fr.uid)] == fr.uid and u != fr.uid
        st.drop(lambda x: x[0] == 'now' or x[0] in ('op', 'w', 'recv') and root(x[1]).k == 'var' and inner(root(x[1]).a[0]) or x[0] in ('flag', 'ahead') and inner(x[1][0]))
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is not None:
            # its variables are gone
            st.drop(lambda x: x[0] in ('op', 'w', 'recv') and root(x[1]).k == 'var' and root(x[1]).a[0] == fr.uid or x[0] in ('flag', 'ahead') and x[1][0] == fr.uid)
            return
    def exit(self, eng, st):
        self.ends += 1
        if not self.patch: return
        r = [f[1] for f in st.facts if f[0] == 'res']
        r = r[0] if r else None
        if isinstance(r, Term): r = ([f[2] for f in st.facts if f[0] == 'truth' and f[1] is r] or [None])[0]
        ran, undone = ('ran',) in st.facts, ('undone',) in st.facts
        if ran and not undone and r is not True: self.bad('JSONPatch:U6:kept', self.entry.loc(), 'U6: a patch can %s with its changes in place' % ('report failure' if r is False else 'end without success being known'))
        if undone and r is True: self.bad('JSONPatch:U6:reverted', self.entry.loc(), 'U6: a patch can report success after its changes were reverted')
    def exc_exit(self, eng, st, nid, ty):
        self.fails += 1
        fr, i = nid
        at = fr.f.loc(i)
        for f in sorted([f for f in st.facts if f[0] in ('pend', 'lost')], key=str):
            self.bad('%s:U6:%s' % (self.entry.name, f[-1]), at, 'U6: %s can end in an error raised here with the change made at %s in place' % (self.entry.name, f[3] if f[0] == 'pend' else f[2])); return
        for f in sorted(f for f in st.facts if f[0] == 'kept'):
            self.bad('%s:U6:unreverted' % self.entry.name, at, 'U6: %s can end in an error raised here without replaying the record of the change made at %s' % (self.entry.name, f[1])); return
        if self.patch and ('ran',) in st.facts and ('undone',) not in st.facts: self.bad('JSONPatch:U6:throws', at, 'U6: a patch can end in an error raised here without its changes being reverted')


def check(cx):
    p = cx.prog
    w = W()
    api = {}
    for f in p.funcs.values():
        if f.cfg and f.q.startswith(NS) and f.name in API and any(is_doc(x['t']) for x in f.params): api[f.name] = f
    cx.need(api, 'pointer and patch calls', len(API))
    file = api['JSONPatch'].file
    reach = lambda f: {p.funcs[x] for x in cx.eff.reach(f.id) if x in p.funcs and p.funcs[x].cfg and p.funcs[x].file == file}
    r = {a: reach(f) for a, f in api.items()}
    common = set.intersection(*r.values()) - set(api.values())
    common = [f for f in common if any(is_doc(x['t']) for x in f.params)]
    # the deepest: calls itself, or none of the others
    rec = [f for f in common if any(n.get('fn') == f.id for _, n in cx.eff.callees[f.id])]
    cand = rec or [f for f in common if not any(n.get('fn') in {g.id for g in common} for _, n in cx.eff.callees[f.id])]
    cx.need(cand, 'the walk along a pointer')
    w.walk = cand[0]
    pars = [(i, x['t']) for i, x in enumerate(w.walk.params)]
    w.wdoc = [i for i, t in pars if is_doc(t)][0]
    ops = [(i, t) for i, t in pars if t.endswith('&') and not t.startswith('const') and t.rstrip(' &') in p.classes and not is_val(t)]
    cx.need(ops, 'the operation a walk carries out')
    w.wop = ops[0][0]; w.op = ops[0][1].rstrip(' &')
    fl = p.classes[w.op]['fields']
    en = [x for x in fl if x['t'] in p.enums]
    cx.need(en, 'kind of an operation')
    w.kindf, w.enum = en[0]['n'], en[0]['t']
    w.kinds = {int(e['v']): e['n'] for e in p.enums[w.enum]['e']}
    w.pathf = (([x['n'] for x in fl if 'PathElement' in x['t']]) or [None])[0]
    cx.need(w.pathf, 'reported path')
    w.bools = [x['n'] for x in fl if x['t'] == 'bool']
    # flags nobody ever sets
    w.never = set(w.bools)
    w.defkind = None
    for f in p.funcs.values():
        if not f.cfg: continue
        if f.kind == 'ctor' and f.cls == w.op:
            for x in f.inits:
                n = f.nodes[f.strip(x['e'])] if x['e'] >= 0 else {}
                if x.get('m') in w.never and n.get('cv', n.get('v')) not in (0, '0', False, 'false') and not (len(f.params) == 1 and w.op in f.params[0]['t']): w.never.discard(x['m'])
                if x.get('m') == w.kindf and n.get('dk') == 'EnumConstant': w.defkind = int(n['cv'])
        for i, n in enumerate(f.nodes):
            if n and n['k'] == 'MemberExpr' and n.get('mq', '').startswith(w.op + '::') and n['m'] in w.never:
                a = f.par[i]
                m = f.nodes[a] if a is not None and a >= 0 else None
                if m is not None and not (m['k'] == 'ImplicitCastExpr' and m.get('ck') == 'LValueToRValue') and not f.implicit:
                    rhs = f.nodes[f.strip(m['c'][1])] if m['k'] == 'BinaryOperator' and m['op'] == '=' and f.strip(m['c'][0]) == i else {}
                    if rhs.get('v') not in (0, False, 'false') and rhs.get('cv') not in (0, '0'): w.never.discard(n['m'])
    w.init = {}
    # the record: kind, path and value
    recs = [c for c, x in p.classes.items() if c != w.op and any(y['t'] == w.enum for y in x['fields']) and any('PathElement' in y['t'] for y in x['fields'])]
    cx.need(recs, 'record of a change')
    w.rec = recs[0]
    w.rkind = [y['n'] for y in p.classes[w.rec]['fields'] if y['t'] == w.enum][0]
    w.rval = ([y['n'] for y in p.classes[w.rec]['fields'] if is_val(y['t'])] or [None])[0]
    und = [f for f in p.funcs.values() if f.cfg and f.file == file and any(w.rec in x['t'] and not x['t'].startswith('const') and (x['t'].endswith('*') or x['t'].endswith('&')) for x in f.params) and any(is_doc(x['t']) for x in f.params) and w.walk not in reach(f)]
    names = {f.id for f in und}
    und = [f for f in und if not any(f.id in {n.get('fn') for _, n in cx.eff.callees[g.id]} for g in und if g is not f)]
    cx.need(und, 'the replay')
    w.undo = und[0]
    w.udoc = [i for i, x in enumerate(w.undo.params) if is_doc(x['t'])][0]
    w.ubox = [i for i, x in enumerate(w.undo.params) if w.rec in x['t']][0]
    w.stop = {w.walk.id, w.undo.id}
    import throws
    w.throws = set()
    direct = {f.id for f in p.funcs.values() if f.cfg and any(n and n['k'] == 'CXXThrowExpr' for n in f.nodes)}
    for f in p.funcs.values():
        if f.id in direct or cx.eff.reach(f.id) & direct: w.throws.add(f.id)
    go = lambda rule, f, what: (lambda e: (e.run(f), cx.finish_engine(e, what), report(cx, rule)))(cx.engine(rule))
    # the walk, once per kind of operation
    w.sums, w.kept = {}, {}
    for k, nm in w.kinds.items():
        x = Walk(cx, w, k, nm)
        go(x, w.walk, 'walk')
        cx.count('walk paths', x.ends); cx.count('failing walk paths', x.errs)
        w.sums[k] = x.outs
        kept = None
        for ps, caps in x.caps:
            pl = ('at', ps[-1]) if ps else ('self',)
            s = {fl for fl, q in caps if q == pl}
            kept = s if kept is None else kept & s
        w.kept[k] = kept or set()
    cx.need([k for k, o in w.sums.items() if any(x[0] == 'add' for x in o)], 'changes that replace or remove a value')
    # the replay, once per kind of record
    w.undoes = {}
    WANT = {'add': {('root', True), ('insert', True), ('set', True)}, 'del': {('erase', True), ('lerase', True)}}
    for k, nm in w.kinds.items():
        x = Replay(cx, w, k, nm)
        go(x, w.undo, 'replay')
        eff = {e for e, _ in x.effects}
        cx.count('replayed effects', len(eff))
        did = {e[0] for e in eff}
        if not did - {'nothing'}: continue
        kind = 'del' if did & {'erase', 'lerase'} else 'add'
        w.undoes[k] = kind
        for e, at in sorted(x.effects, key=str):
            if e == ('nothing', True) and kind == 'del': continue
            if e not in WANT[kind]: cx.bad('replay:U4:%s:%s' % (nm, e[0]), at, 'U4: replaying a %s record %s' % (nm, {'nothing': 'has no effect', 'several': 'has several effects', 'overwrite': 'overwrites the element of a list instead of inserting it'}.get(e[0], 'does not restore what was recorded (%s)' % e[0])))
        for e in WANT[kind] - eff: cx.bad('replay:U4:%s:missing-%s' % (nm, e[0]), w.undo.loc(), 'U4: replaying a %s record never does %s' % (nm, {'root': 'replace the document', 'insert': 'insert in a list', 'set': 'set a key of a map', 'erase': 'erase a key of a map', 'lerase': 'erase an element of a list'}[e[0]]))
        if any(e[0] == 'front' for e in x.endsof): cx.bad('replay:U4:order', [e[1] for e in x.endsof if e[0] == 'front'][0], 'U4: the records are replayed oldest first')
        if x.open: cx.bad('replay:U4:rest', w.undo.loc(), 'U4: the replay can end with records left')
    # the calls
    for a in API:
        x = Edit(cx, w, api[a])
        go(x, api[a], 'calls')
        cx.need(x.walks, 'walks in ' + a)
        for nm, v in (('walk calls', x.walks), ('records', x.records), ('successful ends', x.ends), ('failing ends', x.fails), ('replays', x.undos)): cx.count(nm, v)
        cx.sample('%s: %d walks, %d records, %d failing ends' % (a, x.walks, x.records, x.fails))
    cx.count('kinds of operation', len(w.kinds))
