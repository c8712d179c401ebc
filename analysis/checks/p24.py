from checks.common import *
from checks.p21 import Spec, Bound, Enum, Keyword, View, has, kw, is_, say, SCH, DAT, KIND
from interp import *

EXPLAIN = ('The declaration calls, the constraint check, the handling of values, the final check and the action tables of the command-line parser are followed on all paths. A declaration has to leave its argument in the place the check for it reads; '
           'a path that accepts a value has to rest on branches showing that each declared constraint holds, a path that rejects one on branches showing that it does not; a value is stored only after it was checked.')
TECH = 'path-sensitive abstract interpretation per constraint and action, constant propagation through the name tables'
NOTE = 'Names, help and layout of messages are not judged; values read from a configuration file are checked for the constraints but not for the declared type.'
RULE = ('A1 every declaration stores what it was given where the check reads it; A2 the constraint check accepts exactly what the constraint allows; A3 values are stored only after the check and as the action says; A4 the final check reports missing, too few, too many and excluding options; '
        'A5 every option and group gets the final check; A6 actions and types round-trip through their names; A7 the generated schema carries the constraints.')
OPTION, GROUP, PARSE = 'libvariant::ArgParseOption', 'libvariant::OptionGroup', 'libvariant::ArgParse'
KEYS = ['minLength', 'maxLength', 'pattern', 'minimum', 'maximum', 'enum', 'minArgs', 'maxArgs', 'default', 'const', 'env']
ME = deref(THIS)
KINDS = {'NullType': 'null', 'BoolType': 'bool', 'IntegerType': 'int', 'UnsignedType': 'unsigned', 'FloatType': 'float', 'StringType': 'string', 'ListType': 'list', 'MapType': 'map', 'BlobType': 'blob'}


class Base(Keyword):
    max_states = 16
    cls = None
    def __init__(self, cx, spec, entry, w):
        Keyword.__init__(self, cx, spec, entry, set())
        self.w = w; self.keys = KEYS; self.others = False
    def root(self, t):
        if t.k == 'fld' and t.a[0] is ME and t.a[1] == self.w.opt and self.entry.cls == self.w.optcls: return SCH
    def init(self, eng, st):
        for k in self.keys if not self.others else ():
            if k not in self.spec.keys: st.conds[has(SCH, k)] = False
        if not self.others and self.entry.cls == self.w.optcls and self.w.required and 'required' not in self.spec.keys: st.conds[T('fld', ME, self.w.required)] = False
    def bad(self, where, rule, msg): self.found.setdefault('%s:%s:%s' % (self.spec.name, rule, re_words(msg)), (where, '%s: "%s" %s' % (rule, self.spec.name, msg)))
    def inline(self, eng, st, fr, nid, n, g):
        if g.file != self.entry.file or g.id == self.entry.id or g.kind in ('ctor', 'dtor') or g.opname == '<<' or g.id in self.w.stop: return False
        self.inlined.add(g.id)
        return True
    def may_throw(self, eng, st, fr, nid, n): return False
    def apart_by(self, st):
        return frozenset(f for f in st.facts if f[0] not in ('fresh',)) | frozenset((c, v) for c, v in st.conds.items() if c.k not in ('rem',)) | frozenset((l, v) for l, v in st.mem.items() if v.k in ('i', 'up', 'it', 's')) | frozenset(st.res.items())
    def after(self, eng, st, fr, nid, n, obj, args, res):
        nm = (n.get('fq') or '').split('::')[-1]
        if nm == 'GetType' and obj is not None:
            st.res[(fr.uid, nid)] = T('kind', self.canon(eng, st, obj)); return
        Keyword.after(self, eng, st, fr, nid, n, obj, args, res)
    def branch(self, eng, st, fr, cond, val, term, nid):
        for t, x in list(st.conds.items()):
            k = v = None
            if t.k == 'kind': k, v = t, 0; x = not x
            elif t.k == '==' and any(y.k == 'kind' for y in t.a):
                k, v = [y for y in t.a if y.k == 'kind'][0], [y.a[0] for y in t.a if y.k == 'i']
                v = v[0] if v else None
            name = self.w.kinds.get(v) if k is not None else None
            if name is None: continue
            y = View(st)(is_(name, k.a[0]))
            if y is not None and y != x: return False
            st.conds[is_(name, k.a[0])] = x
            if x is True:
                for o in KINDS.values(): st.conds[is_(o, k.a[0])] = o == name
        if Keyword.branch(self, eng, st, fr, cond, val, term, nid) is False: return False
        if self.others:
            m = {}
            for t in [t for t in st.conds if mentions(t, lambda y: y.k in ('has', 'at') and y.a[0] is SCH and y.a[1].k == 's' and y.a[1].a[0] not in self.spec.keys, m)]: del st.conds[t]
    def exc_exit(self, eng, st, nid, ty):
        if self.others: return
        self.errs += 1
        m = self.spec.error(self, st, View(st))
        if m: self.bad(self.entry.loc(), 'A2', m)
    def exit(self, eng, st):
        self.ends += 1
        if ('ok',) in st.facts: return
        m = self.spec.end(self, st, View(st))
        if m: self.bad(self.entry.loc(), 'A2', m)


def re_words(m):
    import re
    return re.sub(r'[^A-Za-z]+', '-', m)[:60]


class Choice(Enum):
    def __init__(self):
        Enum.__init__(self)
        self.need = [(has(SCH, 'enum'), True)]


class Enforce(Base):
    def root(self, t): return DAT if t.k == 'p' and t.a[0] == 0 else Base.root(self, t)


def constraints():
    h = lambda k: (has(SCH, k), True)
    d = lambda k: (is_(k, DAT), True)
    out = [Bound('minLength', ['minLength'], [h('minLength'), d('string'), (T('<', T('len', DAT), kw('minLength')), True)]),
           Bound('maxLength', ['maxLength'], [h('maxLength'), d('string'), (T('<', kw('maxLength'), T('len', DAT)), True)]),
           Bound('pattern', ['pattern'], [h('pattern'), d('string'), (T('badre', kw('pattern')), False), (T('nomatch', kw('pattern'), DAT), True)], [h('pattern'), d('string'), (T('badre', kw('pattern')), True)]),
           Bound('minimum', ['minimum'], [h('minimum'), d('number'), (T('<', DAT, kw('minimum')), True)]),
           Bound('maximum', ['maximum'], [h('maximum'), d('number'), (T('<', kw('maximum'), DAT), True)]),
           Choice()]
    return out


class Final(Base):
    """the value an option ends up with"""
    def root(self, t): return DAT if t.k == 'fld' and t.a[0] is ME and t.a[1] == self.w.res else Base.root(self, t)
    def forget_value(self, st):
        m = {}
        for t in [t for t in st.conds if mentions(t, lambda y: y is DAT, m)]: del st.conds[t]
    def after(self, eng, st, fr, nid, n, obj, args, res):
        x = self.canon(eng, st, obj) if obj is not None else None
        nm = (n.get('fq') or '').split('::')[-1]
        if x is DAT and not n.get('cm') and nm not in self.accessors and n['k'] != 'CXXConstructExpr':
            a = self.canon(eng, st, args[0]) if args else None
            if a is kw('default'):
                if not self.others and View(st)(is_('null', DAT)) is not True: self.bad(fr.f.loc(nid), 'A4', 'the default replaces a value that was given')
                st.add(('defaulted',))
            else: self.bad(fr.f.loc(nid), 'A3', 'the final check changes the value')
            self.forget_value(st)
            return
        Base.after(self, eng, st, fr, nid, n, obj, args, res)
    def branch(self, eng, st, fr, cond, val, term, nid):
        if Base.branch(self, eng, st, fr, cond, val, term, nid) is False: return False
        for t, x in st.conds.items():
            if t.k == 'is' and t.a[0] == 'null' and not x and t.a[1] is not DAT and t.a[1].k == 'fld': st.add(('another',))


class Default(Spec):
    def __init__(self, w): Spec.__init__(self, 'default', ['default']); self.w = w
    def end(self, r, st, v):
        if v(has(SCH, 'default')) is False or ('defaulted',) in st.facts or v(is_('null', DAT)) is False or ('another',) in st.facts: return None
        a = T('fld', ME, self.w.action)
        for n in ('STORE', 'STORE_CONST', 'STORE_TRUE', 'STORE_FALSE', 'APPEND'):
            if v(mkcmp('==', a, I(self.w.actions['ARGACTION_' + n]))) is not False: return 'is not used although no value was given'
    def error(self, r, st, v): return None if v(T('fld', ME, self.w.required)) else 'is reported as an error'


def finals(w):
    h = lambda k: (has(SCH, k), True)
    null, given = (is_('null', DAT), True), (is_('null', DAT), False)
    app = (mkcmp('==', T('fld', ME, w.action), I(w.actions['ARGACTION_APPEND'])), True)
    return [Bound('required', ['required'], [null, (T('fld', ME, w.required), True)]),
            Bound('minArgs', ['minArgs'], [null, h('minArgs'), (T('<', I(0), kw('minArgs')), True)], [given, app, h('minArgs'), (T('<', T('len', DAT), kw('minArgs')), True)]),
            Bound('maxArgs', ['maxArgs'], [given, app, h('maxArgs'), (mkcmp('==', kw('maxArgs'), I(0)), False), (T('<', kw('maxArgs'), T('len', DAT)), True)]),
            Default(w)]


class Action(Base):
    """what one action does with a value"""
    def __init__(self, cx, entry, w, name):
        Base.__init__(self, cx, Spec(name, ['const', 'default', 'required']), entry, w)
        self.act = name
    def root(self, t):
        if t.k == 'p' and t.a[0] == 0: return DAT
        return Base.root(self, t)
    def init(self, eng, st):
        st.mem[T('fld', ME, self.w.action)] = I(self.w.actions[self.act])
    whole = False
    def target(self, t): return t.k == 'fld' and t.a[0] is ME and t.a[1] == self.w.res
    def val(self, eng, st, t):
        c = self.canon(eng, st, t)
        return c
    def after(self, eng, st, fr, nid, n, obj, args, res):
        nm = (n.get('fq') or '').split('::')[-1]
        if n.get('fn') == self.w.check.id:
            st.add(('checked', self.val(eng, st, args[0]))); return
        if obj is not None and self.target(obj) and not n.get('cm') and n['k'] != 'CXXConstructExpr' and nm not in self.accessors:
            v = self.val(eng, st, args[0]) if args else None
            m = {}
            for t in [t for t in st.conds if mentions(t, lambda y: y is obj, m)]: del st.conds[t]
            if n.get('oop') == '=':
                st.drop(lambda f: f[0] in ('stored', 'added')); st.add(('stored', v, fr.f.loc(nid)))
            elif n.get('oop') == '+=' : st.add(('added', v))
            elif nm == 'Append': st.add(('appended', v)); st.add(('appended', v, 'any'))
            else: self.bad(fr.f.loc(nid), 'A3', 'the value is changed in an unexpected way')
            if v is not None and self.act in ('ARGACTION_STORE', 'ARGACTION_APPEND') and ('checked', v) not in st.facts and v is not None:
                self.bad(fr.f.loc(nid), 'A3', 'a value is stored that was not checked against the constraints')
            return
        if n.get('fn') in self.w.merge: st.add(('merged', self.val(eng, st, args[0]))); return
        if nm in ('DeserializeGuessFile', 'DeserializeFile') and args:
            st.res[(fr.uid, nid)] = T('file', self.val(eng, st, args[0]), *[a for a in args[1:2] if a.k == 'i']); return
        Base.after(self, eng, st, fr, nid, n, obj, args, res)
    def assign(self, eng, st, fr, nid, loc, val):
        r = Keyword.assign(self, eng, st, fr, nid, loc, val)
        if loc.k == 'fld' and loc.a[0].k == '*' and loc.a[0].a[0].k == 'fld': st.add(('flag', loc.a[1], val))
        return r
    def advance(self, eng, st, fr, nid, es):
        for c, e in es:
            if c is DAT and self.act == 'ARGACTION_APPEND':
                self.steps += 1
                if ('appended', e) not in st.facts: self.bad(fr.f.loc(nid), 'A3', 'an element of a list of values is left out')
            st.drop(lambda f: any(isinstance(x, Term) and mentions(x, lambda y: y is e) for x in f))
            for t in [t for t in st.conds if mentions(t, lambda y: y is e)]: del st.conds[t]
    def exc_exit(self, eng, st, nid, ty): pass
    def exit(self, eng, st):
        self.ends += 1
        v = View(st)
        a = self.act[len('ARGACTION_'):]
        stored = [f[1] for f in st.facts if f[0] == 'stored']
        one = stored[0] if stored else None
        bad = None
        flags = [(f[1], f[2]) for f in st.facts if f[0] == 'flag']
        isb = v(is_('bool', DAT))
        if a == 'STORE' and one is not DAT: bad = 'the value given is not stored'
        elif a == 'STORE_CONST' and one is not kw('const'): bad = 'the constant is not stored'
        elif a in ('STORE_TRUE', 'STORE_FALSE'):
            want = I(int(a == 'STORE_TRUE'))
            if not (one is want and isb is not True or one is DAT and isb is True): bad = 'neither %s nor the value given is stored' % ('true' if want.a[0] else 'false')
        elif a == 'APPEND':
            if ('appended', DAT) in st.facts and v(is_('list', DAT)) is not True: pass
            elif v(is_('list', DAT)) is True and self.swept(st, v, DAT): pass
            else: bad = 'not every value given is appended'
        elif a == 'COUNT':
            add = [f[1] for f in st.facts if f[0] == 'added']
            if not add and one is not None and one.k == '+': add = [one]
            num = v(is_('number', DAT))
            if len(add) != 1 or not (add[0] is DAT and num is True or add[0] is I(1) and num is not True): bad = 'the count does not go up by the number given, or by one'
        elif a in ('HELP', 'ADVHELP', 'PRINT_CONFIG'):
            on = [f for f, x in flags if x is I(1)]
            if len(flags) != 1 or len(on) != 1: bad = 'it does not set exactly one request'
            else: self.w.flags.setdefault(on[0], set()).add(a)
        elif a.startswith('CONFIG'):
            fmt = self.w.formats.get({'CONFIG_JSON': 'SERIALIZE_JSON', 'CONFIG_YAML': 'SERIALIZE_YAML', 'CONFIG_PLIST': 'SERIALIZE_XMLPLIST'}.get(a))
            want = T('file', DAT, I(fmt)) if fmt is not None else T('file', DAT)
            if ('merged', want) not in st.facts: bad = 'the file named is not read in the right format and merged'
        if a not in ('STORE', 'STORE_CONST', 'STORE_TRUE', 'STORE_FALSE', 'COUNT') and stored: bad = bad or 'a value is stored'
        if bad: self.bad(self.entry.loc(), 'A3', bad)


class Exclude(Base):
    """members of a group"""
    def root(self, t): return None
    def init(self, eng, st): pass
    def __init__(self, cx, entry, w): Base.__init__(self, cx, Spec('group', []), entry, w); self.box_ = T('fld', ME, w.members)
    def given(self, v, e):
        for t in v.terms():
            if t.k == 'is' and t.a[0] == 'null' and t.a[1].k == 'fld' and t.a[1].a[1] == self.w.res and mentions(t.a[1], lambda y: y is e): return not v(t)
        return None
    def n(self, st): return max([f[1] for f in st.facts if f[0] == 'n'] or [0])
    def box(self, eng, st, obj): return obj if obj is self.box_ else Keyword.box(self, eng, st, obj)
    def assign(self, eng, st, fr, nid, loc, val):
        r = Keyword.assign(self, eng, st, fr, nid, loc, val)
        if r is None and loc.k == 'var' and val is not None and mentions(val, lambda y: y.k == 'elem'): return T('&', T('member'))
        return r
    def advance(self, eng, st, fr, nid, es):
        v = View(st)
        for c, e in es:
            if c is self.box_ and ('late',) not in st.facts and v(T('fld', ME, self.w.exclusive)) is not False:
                self.steps += 1
                g = self.given(v, e)
                if g is None: self.bad(fr.f.loc(nid), 'A4', 'a member is passed over without looking whether it was given')
                if g:
                    if self.n(st) >= 1: self.bad(fr.f.loc(nid), 'A4', 'two members of a mutually exclusive group may both be given')
                    k = min(self.n(st) + 1, 2); st.drop(lambda f: f[0] == 'n'); st.add(('n', k))
            for t in [t for t in st.conds if mentions(t, lambda y: y is e)]: del st.conds[t]
    def branch(self, eng, st, fr, cond, val, term, nid):
        if Base.branch(self, eng, st, fr, cond, val, term, nid) is False: return False
        if self.swept(st, View(st), self.box_): st.add(('late',))
    def exc_exit(self, eng, st, nid, ty):
        self.errs += 1
        v = View(st)
        ex, rq = v(T('fld', ME, self.w.exclusive)), v(T('fld', ME, self.w.grequired))
        if ex is True and rq is True and ('late',) in st.facts and self.n(st) == 0: return
        now = [e for e in self.current(st, self.box_) if self.given(v, e)]
        if ex is True and self.n(st) >= 1 and now: return
        self.bad(self.entry.loc(), 'A4', 'an error is reported although neither two members were given nor a required one is missing')
    def exit(self, eng, st):
        self.ends += 1
        v = View(st)
        if v(T('fld', ME, self.w.exclusive)) is False: return
        if ('late',) not in st.facts: self.bad(self.entry.loc(), 'A4', 'the check ends before every member was looked at')
        elif self.n(st) == 0 and v(T('fld', ME, self.w.grequired)) is not False: self.bad(self.entry.loc(), 'A4', 'no member of a required group may be given')


class Setter(Base):
    """a declaration call"""
    accessors = tuple(Base.accessors) + ('Append',)
    def __init__(self, cx, entry, w, own): Base.__init__(self, cx, Spec(entry.name, []), entry, w); self.own = own; self.leaks = []
    def init(self, eng, st): pass
    def root(self, t):
        if t.k == 'fld' and t.a[1] == self.w.opt and t.a[0].k == '*' and t.a[0].a[0].k == 'fld' and t.a[0].a[0].a[0] is ME: return SCH
    def inline(self, eng, st, fr, nid, n, g):
        if g.cls not in (OPTION, GROUP, self.w.optcls, self.w.grpcls) or g.kind in ('ctor', 'dtor') or g.opname == '<<': return False
        self.inlined.add(g.id); return True
    def from_(self, eng, st, t):
        """parameters a value was made from"""
        c = self.canon(eng, st, t)
        out = {y.a[0] for x in (c, t) for y in subterms(x) if y.k == 'p'}
        for f in st.facts:
            if f[0] == 'app' and f[1] is c: out |= f[2]
        return out
    def after(self, eng, st, fr, nid, n, obj, args, res):
        nm = (n.get('fq') or '').split('::')[-1]
        x = self.canon(eng, st, obj) if obj is not None else None
        a = [self.canon(eng, st, y) for y in args]
        if x is SCH and nm == 'Set' and len(a) == 2 and a[0].k == 's':
            st.drop(lambda f: f[0] == 'set' and f[1] == a[0].a[0]); st.add(('set', a[0].a[0], a[1], frozenset(self.from_(eng, st, args[1]))))
        elif n.get('oop') == '=' and x is not None and x.k == 'at' and x.a[0] is SCH and x.a[1].k == 's':
            st.drop(lambda f: f[0] == 'set' and f[1] == x.a[1].a[0]); st.add(('set', x.a[1].a[0], a[0], frozenset(self.from_(eng, st, args[0]))))
        elif nm == 'Append' and x is not None and x.k == 'taken': st.add(('app', x, frozenset(self.from_(eng, st, args[0]))))
        elif nm == 'Append' and x is not None and x.k == 'at' and x.a[0] is SCH and x.a[1].k == 's': st.add(('set', x.a[1].a[0], a[0], frozenset(self.from_(eng, st, args[0]))))
        elif n.get('oop') == '=' and obj is not None and obj.k == 'fld' and args: st.add(('field', obj.a[1], a[0], frozenset(self.from_(eng, st, args[0]))))
        elif nm in ('insert', 'push_back', 'emplace', 'emplace_back') and obj is not None and obj.k == 'fld' and obj.a[1] == self.w.members: st.add(('field', '+', None, frozenset(p for y in list(args) + [obj] for p in self.from_(eng, st, y))))
        elif nm in ('insert', 'push_back', 'emplace', 'emplace_back') and obj is not None and obj.k == 'fld': st.add(('field', obj.a[1], None, frozenset(p for y in args for p in self.from_(eng, st, y))))
        elif n.get('fn') in self.w.adders: st.add(('field', '+', None, frozenset(p for y in list(args) + ([obj] if obj is not None else []) for p in self.from_(eng, st, y))))
        if obj is None and n['k'] == 'CallExpr' and n.get('fn') not in self.inlined:
            src = {p for y in args for p in self.from_(eng, st, y)}
            for y in args:
                if src and y.k == 'var': st.mem[y] = T('made', *[T('p', i, 'x') for i in sorted(src)])
        if nm == 'Copy' and x is not None and x.k == 'at' and x.a[0] is SCH: st.res[(fr.uid, nid)] = T('taken', x); return      # what is done to a copy does not reach the description
        if nm in ('find', 'count', 'find_if') and any(0 in self.from_(eng, st, y) for y in args): st.res[(fr.uid, nid)] = T('found', T('p', 0, 'x')); return
        Base.after(self, eng, st, fr, nid, n, obj, args, res)
    def assign(self, eng, st, fr, nid, loc, val):
        if loc.k == 'fld' and val is not None: st.add(('field', loc.a[1], val, frozenset(self.from_(eng, st, val))))
    def branch(self, eng, st, fr, cond, val, term, nid):
        c, v = cond, val
        while c.k == '!' and isinstance(v, bool): c, v = c.a[0], not v
        if any(t.k == 'found' for t in subterms(c)): here = v is (c.k not in ('==',)) if c.k in ('==', '!=', 'found') else True
        else: here = any(t.k == 'elem' for t in subterms(c)) and v is not False
        if here or c.k == 'old': st.add(('seen',))      # what a loop left behind is not told apart
        return Base.branch(self, eng, st, fr, cond, val, term, nid)
    def advance(self, eng, st, fr, nid, es): pass
    def exc_exit(self, eng, st, nid, ty): pass
    def exit(self, eng, st):
        self.ends += 1
        name = self.entry.name
        key, fld = self.own
        got = [f for f in st.facts if f[0] == 'set' and 0 in f[3] and (key is None or f[1] in key)] + [f for f in st.facts if f[0] == 'field' and 0 in f[3] and (fld is None or f[1] == fld or f[1] == '+' and fld == '+')]
        if key is not None:
            for k in key:
                hit = [f for f in st.facts if f[0] == 'set' and f[1] == k and 0 in f[3]]
                if not hit and not (name == 'AddChoice' and ('seen',) in st.facts): self.bad(self.entry.loc(), 'A1', 'may return without having stored its argument as "%s"' % k)
                elif hit and any(isinstance(f[2], Term) and f[2].k in ('!', '+', '-', 'neg') for f in hit): self.bad(self.entry.loc(), 'A1', 'stores something else than its argument as "%s"' % k)
        elif fld is not None:
            hit = [f for f in st.facts if f[0] == 'field' and f[1] == fld and 0 in f[3]]
            if not hit: self.bad(self.entry.loc(), 'A1', 'may return without having stored its argument')
            elif any(isinstance(f[2], Term) and (f[2].k in ('!', '+', '-', 'neg', '==', '!=')) for f in hit): self.bad(self.entry.loc(), 'A1', 'stores something else than its argument')
        elif not got: self.bad(self.entry.loc(), 'A1', 'may return without having stored its argument')


class Value(Rule):
    """what a table function returns"""
    open_enums = True
    exc = True
    def __init__(self, arg): self.arg = arg; self.out = set(); self.threw = False
    def inline(self, eng, st, fr, nid, n, g): return g.kind not in ('ctor', 'dtor') and g.file == eng.root_func.file
    def init(self, eng, st): st.mem[T('p', 0, eng.root_func.params[0]['n'] or 'arg0')] = self.arg
    def strip(self, st, t):
        for _ in range(20):
            if t.k == 'ctor' and t.a[1]: t = t.a[1][0]
            elif t.k == 'copy': t = t.a[0]
            elif t.k != 'i' and t in st.mem and st.mem[t] is not t: t = st.mem[t]
            else: break
        return t
    def after(self, eng, st, fr, nid, n, obj, args, res):
        if n.get('oop') in ('==', '!='):
            o = [self.strip(st, x) for x in ([obj] if obj is not None else []) + list(args)]
            if len(o) == 2 and all(x.k == 's' for x in o): st.res[(fr.uid, nid)] = I(int((o[0] is o[1]) == (n['oop'] == '==')))
        elif (n.get('fq') or '').split('::')[-1] == 'compare' and obj is not None and len(args) == 1:
            o = [self.strip(st, x) for x in (obj, args[0])]
            if all(x.k == 's' for x in o): st.res[(fr.uid, nid)] = I(int(o[0] is not o[1]))
        elif (n.get('fq') or '').split('::')[-1] == 'IsString': st.res[(fr.uid, nid)] = I(1)
    def exc_exit(self, eng, st, nid, ty): self.threw = True
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is None and val is not None: self.out.add(self.strip(st, val))


def evaluate(cx, f, arg):
    r = Value(arg)
    eng = cx.engine(r)
    eng.run(f)
    cx.finish_engine(eng, 'name tables')
    return r


class Everyone(Base):
    """the final check is applied to every option and group"""
    def __init__(self, cx, entry, w): Base.__init__(self, cx, Spec('parse', []), entry, w); self.visits = {}; self.outs = []
    def root(self, t): return None
    def init(self, eng, st): pass
    def inline(self, eng, st, fr, nid, n, g): return g.file == self.entry.file and g.cls == self.entry.cls and g.id != self.entry.id and self.loops(g)
    def loops(self, g): return any(n.get('fn') in self.w.fins for _, n in g.calls())
    def apart_by(self, st): return frozenset(f for f in st.facts if f[0] in ('swept', 'empty', 'fin'))
    def box(self, eng, st, obj): return obj if obj.k == 'fld' and obj.a[0] is ME else Keyword.box(self, eng, st, obj)
    def after(self, eng, st, fr, nid, n, obj, args, res):
        if n.get('fn') in self.w.fins and obj is not None:
            e = [y for y in subterms(obj) if y.k == 'elem'] or [y for y in subterms(self.canon(eng, st, obj)) if y.k == 'elem']
            for y in e[:1]: st.add(('fin', y))
        Base.after(self, eng, st, fr, nid, n, obj, args, res)
    def advance(self, eng, st, fr, nid, es):
        for c, e in es:
            self.visits.setdefault((fr.f.id, nid), set()).add(('fin', e) in st.facts)
            st.drop(lambda f: f == ('fin', e))
            for t in [t for t in st.conds if mentions(t, lambda y: y is e)]: del st.conds[t]
    def branch(self, eng, st, fr, cond, val, term, nid):
        for t, x in st.conds.items():
            if x and t.k == '==' and any(y.k == 'end' for y in t.a) and any(y.k == 'it' for y in t.a):
                it = [y for y in t.a if y.k == 'it'][0]
                if it.a[0].k == 'fld' and len(it.a) == 3: st.add(('swept', it.a[0], fr.f.id, it.a[2]))
                elif it.a[0].k == 'fld': st.add(('empty', it.a[0]))
        for t in [t for t in st.conds if t.k != '==']: del st.conds[t]
    def exc_exit(self, eng, st, nid, ty): pass
    def exit(self, eng, st): self.ends += 1; self.outs.append(frozenset(f for f in st.facts if f[0] in ('swept', 'empty')))


class Consumed(Base):
    """nothing on the command line is left over"""
    keep_obj = None
    def __init__(self, cx, entry, w):
        Base.__init__(self, cx, Spec('parse', []), entry, w); self.left = 0
        self.n = [T('p', i, q['n'] or 'arg%d' % i) for i, q in enumerate(entry.params) if q['t'].replace('const ', '') in ('int', 'unsigned int', 'unsigned long', 'size_t')]
    def root(self, t): return None
    def init(self, eng, st): pass
    def inline(self, eng, st, fr, nid, n, g):
        if g.file != self.entry.file or g.id == self.entry.id or g.kind in ('ctor', 'dtor') or g.id in self.w.fins: return False
        return any(q['t'].replace('const ', '') in ('int', 'unsigned int', 'unsigned long') for q in g.params) and any(x and x['k'] == 'CXXThrowExpr' for x in g.nodes) and g.cls in (None, '', self.entry.cls)
    def apart_by(self, st): return frozenset(f for f in st.facts if f[0] in ('all',))
    def after(self, eng, st, fr, nid, n, obj, args, res): pass
    def advance(self, eng, st, fr, nid, es): pass
    def branch(self, eng, st, fr, cond, val, term, nid):
        c, v = cond, val
        while c.k == '!' and isinstance(v, bool): c, v = c.a[0], not v
        up = lambda t: t.k == '+' and any(y.k == 'i' and y.a[0] > 0 for y in t.a)
        end = lambda t: any(y in self.n for y in subterms(t)) and t.k != 'call'
        if c.k == '<' and v is False and end(c.a[1]) and not up(c.a[0]) and not (c.a[0].k == 'i' and c.a[0].a[0] > 1): st.add(('all',))
        elif c.k == '==' and v is True and any(end(t) for t in c.a) and not any(up(t) for t in c.a): st.add(('all',))
        elif v is False and end(c) and c.k in ('-', '&&'): st.add(('all',))
    def exc_exit(self, eng, st, nid, ty): pass
    def exit(self, eng, st):
        self.ends += 1
        if ('all',) not in st.facts: self.bad(self.entry.loc(), 'A4', 'may end with part of the command line left over')


class Schema(Base):
    """the schema made from an option"""
    def __init__(self, cx, entry, w, key, act): Base.__init__(self, cx, Spec(key, [key]), entry, w); self.key = key; self.act = act
    def init(self, eng, st):
        Base.init(self, eng, st)
        st.mem[T('fld', ME, self.w.action)] = I(self.w.actions[self.act])
    def after(self, eng, st, fr, nid, n, obj, args, res):
        if (n.get('oop') == '=' or (n.get('fq') or '').split('::')[-1] in ('Set', 'Append')) and args and self.canon(eng, st, args[-1]) is kw(self.key): st.add(('put',))
        Base.after(self, eng, st, fr, nid, n, obj, args, res)
    def exc_exit(self, eng, st, nid, ty): pass
    def exit(self, eng, st):
        self.ends += 1
        v = View(st)
        if v(has(SCH, self.key)) is not False and ('put',) not in st.facts and v(T('<', I(0), kw(self.key))) is not False: self.bad(self.entry.loc(), 'A7', 'is not carried into the schema for %s' % self.act)


class World: pass


def field_of(p, cls, pred):
    c = [c for c in p.classes.values() if c['q'] == cls]
    return [x['n'] for x in c[0]['fields'] if pred(x)] if c else []


def world(cx):
    p = cx.prog
    w = World()
    en = {e['q']: {x['n']: x['v'] for x in e['e']} for e in (p.enums.values() if isinstance(p.enums, dict) else p.enums)}
    w.actions = en.get('libvariant::ArgParseAction', {})
    w.types = en.get('libvariant::ArgParseType', {})
    w.formats = {k: v for e in en.values() for k, v in e.items() if k.startswith('SERIALIZE_')}
    w.kinds = {v: KINDS[k] for k, v in en.get('libvariant::VariantDefines::Type_t', {}).items() if k in KINDS}
    cx.need(w.actions, 'option actions', 10); cx.need(w.kinds, 'kinds of value', 9)
    ptr = lambda c: [x['t'].replace('*', '').replace('std::shared_ptr<', '').replace('>', '').strip() for x in [c0 for c0 in p.classes.values() if c0['q'] == c][0]['fields']]
    w.optcls, w.grpcls, w.parcls = ptr(OPTION)[0], ptr(GROUP)[0], ptr(PARSE)[0]
    w.action = (field_of(p, w.optcls, lambda x: x['t'] == 'libvariant::ArgParseAction') or [None])[0]
    vs = field_of(p, w.optcls, lambda x: x['t'] == 'libvariant::Variant')
    cx.need(vs, 'description and value of an option', 2); cx.need([w.action] if w.action else [], 'action of an option')
    fs = [f for f in p.funcs.values() if f.cfg and f.cls == w.optcls]
    # the description is what the constraints are looked up in
    uses = {m: 0 for m in vs}
    for f in fs:
        for _, n in f.calls():
            if (n.get('fq') or '').split('::')[-1] == 'Contains' and n.get('obj') is not None:
                o = f.nodes[f.strip(n['obj'])]
                if o['k'] == 'MemberExpr' and o['m'] in uses: uses[o['m']] += 1
    w.opt = max(vs, key=lambda m: uses[m])
    w.res = [m for m in vs if m != w.opt][0]
    lits = lambda f: {n['v'] for n in f.nodes if n and n['k'] == 'StringLiteral' and 'v' in n}
    pick = lambda c, pred: [f for f in p.funcs.values() if f.cfg and f.cls == c and pred(f)]
    return w, p


def lits(p, f, depth=2, seen=None):
    seen = seen if seen is not None else set()
    if f.id in seen: return set()
    seen.add(f.id)
    out = {n['v'] for n in f.nodes if n and n['k'] == 'StringLiteral' and isinstance(n.get('v'), str)}
    if depth:
        for _, n in f.calls():
            g = p.funcs.get(n.get('fn'))
            if g is not None and g.cfg and g.file == f.file: out |= lits(p, g, depth - 1, seen)
    return out


def check(cx):
    w, p = world(cx)
    F = lambda c, n: [f for f in p.funcs.values() if f.cfg and f.cls == c and f.name == n]
    handle = F(w.optcls, 'Handle'); final = F(w.optcls, 'FinalizeResult'); gfinal = F(w.grpcls, 'FinalizeResult'); chk = F(w.optcls, 'CheckRequirements'); parse = F(w.parcls, 'Parse')
    for x, what in ((handle, 'handling of a value'), (final, 'final check of an option'), (gfinal, 'final check of a group'), (chk, 'constraint check'), (parse, 'parsing of a command line')): cx.need(x, what)
    w.check = chk[0]
    w.merge = {f.id for f in F(w.parcls, 'MergeOptions')}
    w.fins = {final[0].id, gfinal[0].id}
    w.flags = {}
    # flags filled from a description under their name
    def filled(cls, key):
        for f in F(cls, 'Init'):
            for i, n in f.calls():
                if (n.get('fq') or '').split('::')[-1] == 'GetInto' and any(f.nodes[x]['k'] == 'StringLiteral' and f.nodes[x].get('v') == key for a in n['args'] for x in f.walk(a)):
                    for x in f.walk(n['args'][0]):
                        if f.nodes[x]['k'] == 'MemberExpr': return f.nodes[x]['m']
        return None
    w.required = filled(w.optcls, 'required'); w.grequired = filled(w.grpcls, 'required'); w.exclusive = filled(w.grpcls, 'mutually exclusive')
    def set_by(cls, impl, name):
        fs = F(cls, name)
        fs += [p.funcs[n['fn']] for f in fs for _, n in f.calls() if n.get('fn') in p.funcs and p.funcs[n['fn']].cfg and p.funcs[n['fn']].cls == impl]
        for f in fs:
            for n in f.nodes:
                if n and n['k'] == 'BinaryOperator' and n['op'] == '=':
                    m = f.nodes[f.strip(n['c'][0])]
                    if m['k'] == 'MemberExpr' and m.get('mq', '').startswith(impl + '::'): return m['m']
        return None
    w.required = w.required or set_by(OPTION, w.optcls, 'Required'); w.grequired = w.grequired or set_by(GROUP, w.grpcls, 'Required'); w.exclusive = w.exclusive or set_by(GROUP, w.grpcls, 'MutuallyExclusive')
    cx.need([x for x in (w.required, w.grequired, w.exclusive) if x], 'flags of options and groups', 3)
    for cls, keys in ((w.optcls, ('required',)), (w.grpcls, ('required', 'mutually exclusive'))):
        for f in F(cls, 'Init'):
            have = lits(p, f)
            for k in keys:
                cx.count('keys of a description')
                if k not in have: cx.bad('%s:A1:init-%s' % (short(f.q), k.replace(' ', '-')), f.loc(), 'A1: "%s" of a description is not read' % k)
    w.members = (field_of(p, w.grpcls, lambda x: w.optcls in x['t'] and 'set' in x['t'] or w.optcls in x['t'] and 'vector' in x['t']) or [None])[0]
    w.stop = w.merge | {w.check.id} | w.fins | {f.id for f in handle} | {f.id for f in F(w.parcls, 'GetGroup')}
    w.adders = {f.id for f in F(w.grpcls, 'Add')}
    keep = tuple({x['n'] for c in p.classes.values() if c['q'] in (w.optcls, w.grpcls, w.parcls) for x in c['fields']})
    ends = errs = 0
    def go(rule, f, label):
        nonlocal ends, errs
        rule.keep = ('first', 'second') + keep
        eng = cx.engine(rule)
        eng.run(f)
        cx.finish_engine(eng, label)
        ends += rule.ends; errs += rule.errs
        if not rule.ends: raise AnalysisBroken('no path of %s ends (%s)' % (f.q, rule.spec.name))
        for k, (where, msg) in sorted(rule.found.items()): cx.bad(k, where, msg)
    for s in constraints():
        w.stop -= {w.check.id}
        go(Enforce(cx, s, chk[0], w), chk[0], 'constraint check')
        r = Enforce(cx, s, chk[0], w); r.others = True
        go(r, chk[0], 'constraint check beside others')
    w.stop |= {w.check.id}
    for s in finals(w):
        go(Final(cx, s, final[0], w), final[0], 'final check')
        if s.name == 'default': continue
        r = Final(cx, s, final[0], w); r.others = True
        go(r, final[0], 'final check beside others')
    seen = set()
    for a in w.actions:
        if a == 'ARGACTION_UNKNOWN': continue
        r = Action(cx, handle[0], w, a)
        go(r, handle[0], 'actions')
        seen |= r.inlined
    for fl, acts in w.flags.items():
        if len(acts) > 1: cx.bad('actions:A3:same-flag', handle[0].loc(), 'A3: the actions %s set the same request' % ', '.join(sorted(acts)))
    go(Exclude(cx, gfinal[0], w), gfinal[0], 'groups')
    # nobody else stores values
    inside = seen | {handle[0].id, final[0].id}
    for f in p.funcs.values():
        if not f.cfg or f.id in inside or f.kind == 'ctor' and f.cls == w.optcls: continue
        for i, n in enumerate(f.nodes):
            if not n or n['k'] != 'MemberExpr' or n.get('mq') != '%s::%s' % (w.optcls, w.res): continue
            a = f.par[i]
            while a is not None and a >= 0 and f.nodes[a]['k'] in ('ParenExpr', 'ImplicitCastExpr'): a = f.par[a]
            b = f.nodes[a] if a is not None and a >= 0 else None
            if b is None or 'args' not in b or b.get('obj') is None or f.strip(b['obj']) != i or b.get('cm'): continue
            nm = (b.get('fq') or '').split('::')[-1]
            if nm in Keyword.accessors: continue
            nul = b.get('oop') == '=' and any(f.nodes[x]['k'] == 'DeclRefExpr' and f.nodes[x].get('dk') == 'EnumConstant' and int(f.nodes[x]['cv']) == 0 for x in f.walk(b['args'][0]))
            cx.count('other writes of a value')
            if not nul: cx.bad('%s:A3:stores' % short(f.q), f.loc(a), 'A3: %s stores a value of an option that was neither given nor checked' % short(f.q))
    # everyone is checked
    r = Everyone(cx, parse[0], w)
    go(r, parse[0], 'parsing')
    boxes = {T('fld', ME, m): what for m, what in [(x, 'option') for x in field_of(p, w.parcls, lambda x: 'map' in x['t'] and w.optcls in x['t'])] + [(x, 'group') for x in field_of(p, w.parcls, lambda x: 'map' in x['t'] and w.grpcls in x['t'])]}
    cx.need(boxes, 'collections of options and groups', 2)
    for b, what in boxes.items():
        for o in r.outs:
            if not any(f[0] == 'swept' and f[1] is b and r.visits.get((f[2], f[3])) == {True} or f == ('empty', b) for f in o):
                cx.bad('parse:A5:' + what, parse[0].loc(), 'A5: parsing may end without the final check of every %s' % what); break
    go(Consumed(cx, parse[0], w), parse[0], 'left over')
    for f in p.funcs.values():
        for i, n in f.calls() if f.cfg and f.cls == w.parcls else ():
            if n.get('fq') in ('exit', 'std::exit') and any(f.nodes[y]['k'] == 'CXXCatchStmt' for y in f.ancestors(i)):
                cx.count('exits after an error')
                if f.nodes[f.strip(n['args'][0])].get('v', f.nodes[n['args'][0]].get('cv')) in (0, '0'): cx.bad('%s:A4:exit' % short(f.q), f.loc(i), 'A4: a rejected command line ends the program as if it had been accepted')
    # declarations
    OWN = {(OPTION, 'Title'): (['title'], None), (OPTION, 'Const'): (['const'], None), (OPTION, 'Default'): (['default'], None), (OPTION, 'Env'): (['env'], None), (OPTION, 'Minimum'): (['minimum'], None), (OPTION, 'Maximum'): (['maximum'], None),
           (OPTION, 'AddChoice'): (['enum'], None), (OPTION, 'SetChoices'): (['enum'], None), (OPTION, 'Required'): (None, w.required), (OPTION, 'Help'): (['description'], None), (OPTION, 'Pattern'): (['pattern'], None),
           (OPTION, 'MaxLength'): (['maxLength'], None), (OPTION, 'MinLength'): (['minLength'], None), (OPTION, 'MinArgs'): (['minArgs'], None), (OPTION, 'MaxArgs'): (['maxArgs'], None), (OPTION, 'NumArgs'): (['minArgs', 'maxArgs'], None),
           (OPTION, 'Group'): (None, '+'), (OPTION, 'Action'): (None, w.action), (OPTION, 'Type'): (None, (field_of(p, w.optcls, lambda x: x['t'].endswith('Type_t')) or [None])[0]), (OPTION, 'Advanced'): (None, filled(w.optcls, 'advanced')),
           (GROUP, 'Title'): (None, filled(w.grpcls, 'title')), (GROUP, 'Description'): (None, filled(w.grpcls, 'description')), (GROUP, 'MutuallyExclusive'): (None, w.exclusive), (GROUP, 'Required'): (None, w.grequired), (GROUP, 'Advanced'): (None, filled(w.grpcls, 'advanced'))}
    w.stop = {f.id for f in F(w.parcls, 'GetGroup')}
    setters = [f for f in p.funcs.values() if f.cfg and f.cls in (OPTION, GROUP) and f.kind not in ('ctor', 'dtor') and f.params and not f.opname]
    cx.need(setters, 'declaration calls', 20)
    for f in setters: go(Setter(cx, f, w, OWN.get((f.cls, f.name), (None, None))), f, 'declarations')
    # a member of a group knows the group, and the group the member
    names = (field_of(p, w.optcls, lambda x: 'string' in x['t'] and ('set<' in x['t'] or 'vector<' in x['t'])) or [None])[0]
    if w.members and names:
        ins = {w.grpcls: {}, w.optcls: {}}
        for f in p.funcs.values():
            if not f.cfg: continue
            for i, n in f.calls():
                if (n.get('fq') or '').split('::')[-1] not in ('insert', 'emplace', 'push_back', 'emplace_back') or n.get('obj') is None: continue
                o = f.nodes[f.strip(n['obj'])]
                for c, m in ((w.grpcls, w.members), (w.optcls, names)):
                    if o['k'] == 'MemberExpr' and o.get('mq') == '%s::%s' % (c, m): ins[c].setdefault(f.id, i)
        callers = lambda x: {g.id for g in p.funcs.values() if g.cfg and any(n.get('fn') == x for _, n in g.calls())}
        for c, o, msg in ((w.grpcls, w.optcls, 'adds an option to a group that the option does not know of'), (w.optcls, w.grpcls, 'names a group in an option that the group does not have')):
            for x, i in ins[c].items():
                cx.count('memberships')
                near = {x} | callers(x) | {n.get('fn') for _, n in p.funcs[x].calls()}
                near |= {n.get('fn') for y in callers(x) for _, n in p.funcs[y].calls()}
                if not near & set(ins[o]): cx.bad('%s:A1:membership' % short(p.funcs[x].q), p.funcs[x].loc(i), 'A1: %s %s' % (short(p.funcs[x].q), msg))
    # which actions take an argument and which give a result
    ARG = {'STORE', 'APPEND', 'CONFIG', 'CONFIG_JSON', 'CONFIG_YAML', 'CONFIG_PLIST'}
    RES = {'STORE', 'APPEND', 'STORE_CONST', 'STORE_TRUE', 'STORE_FALSE', 'COUNT'}
    for f in p.funcs.values():
        want = ARG if f.name.endswith('HasArg') else RES if f.name.endswith('HasResult') else None
        if want is None or not f.cfg or len(f.params) != 1 or 'ArgParseAction' not in f.params[0]['t']: continue
        for a, v in w.actions.items():
            if a == 'ARGACTION_UNKNOWN': continue
            cx.count('actions')
            r = evaluate(cx, f, I(v))
            y = a.replace('ARGACTION_', '') in want
            if not r.threw and all(x.k == 'i' for x in r.out) and {bool(x.a[0]) for x in r.out} != {y}:
                cx.bad('%s:A6:%s' % (short(f.q), a), f.loc(), 'A6: %s is taken to have %s %s' % (a, 'no' if y else 'an' if want is ARG else 'a', 'argument' if want is ARG else 'result'))
    # names
    to = [f for f in p.funcs.values() if f.cfg and f.q == 'libvariant::ArgParseActionToStr']; fr = [f for f in p.funcs.values() if f.cfg and f.q == 'libvariant::ArgParseActionFromStr']
    cx.need(to, 'action names'); cx.need(fr, 'actions by name')
    for a, v in w.actions.items():
        if a == 'ARGACTION_UNKNOWN': continue
        cx.count('actions')
        r = evaluate(cx, to[0], I(v))
        s = [x for x in r.out if x.k == 's']
        if len(r.out) != 1 or not s or r.threw: cx.bad('names:A6:%s' % a, to[0].loc(), 'A6: %s has no name of its own' % a); continue
        back = evaluate(cx, fr[0], s[0])
        if back.out != {I(v)}: cx.bad('names:A6:%s' % a, fr[0].loc(), 'A6: the name "%s" of %s stands for another action' % (s[0].a[0], a))
    r = evaluate(cx, fr[0], T('s', 'no such action'))
    if 'ARGACTION_UNKNOWN' in w.actions and r.out != {I(w.actions['ARGACTION_UNKNOWN'])} and not r.threw: cx.bad('names:A6:unknown', fr[0].loc(), 'A6: an unknown name stands for an action')
    pt = [f for f in p.funcs.values() if f.cfg and f.q == 'libvariant::ParseType']; ts = [f for f in p.funcs.values() if f.cfg and f.q == 'libvariant::TypeString']
    if pt and ts:
        for name, want in (('string', 'ARGTYPE_STRING'), ('number', 'ARGTYPE_FLOAT'), ('integer', 'ARGTYPE_INT'), ('boolean', 'ARGTYPE_BOOL'), ('null', 'ARGTYPE_GUESS')):
            cx.count('types')
            r = evaluate(cx, pt[0], T('s', name))
            if r.out != {I(w.types[want])}: cx.bad('types:A6:%s' % name, pt[0].loc(), 'A6: the type name "%s" does not stand for %s' % (name, want)); continue
            r = evaluate(cx, ts[0], I(w.types[want]))
            if r.out != {T('s', name)}: cx.bad('types:A6:%s' % name, ts[0].loc(), 'A6: %s is not named "%s"' % (want, name))
    # schema
    gens = [f for f in F(w.optcls, 'GenerateSchema') if not f.params]
    cx.need(gens, 'schema of an option')
    w.stop = set()
    for act in ('ARGACTION_STORE', 'ARGACTION_APPEND'):
        for k in ('minimum', 'maximum', 'minLength', 'maxLength', 'pattern', 'enum', 'default') + (('minArgs', 'maxArgs') if act == 'ARGACTION_APPEND' else ()): go(Schema(cx, gens[0], w, k, act), gens[0], 'schema')
    cx.count('accepting paths', ends); cx.count('reported errors', errs)
