import re
from checks.common import *
from interp import *

EXPLAIN = ('The validator is followed from its entry point once per keyword, with only that keyword present in the schema. Every path that ends without an error has to rest on branches that show the keyword is not broken (a bound holds, a name is present, a pattern matches, '
           'every element was looked at, the sub-schema was applied), and every reported error on branches that show it is. Comparisons are judged by direction and strictness, whichever way they are written.')
TECH = 'path-sensitive abstract interpretation per schema keyword against a table of keyword meanings'
NOTE = 'All keywords of the table, from the entry point through every validation routine; regular expression and URI libraries are taken as given.'
RULE = ('K1 no path accepts what the keyword forbids; K2 no path rejects what the keyword allows; K3 every element is looked at; K4 reported errors reach the result and end the validation; K5 the entry point judges the document it was given; K6 a keyword forbids no less beside another one.')

SCH, DAT = T('doc', 'schema'), T('doc', 'data')
VAR = ('libvariant::Variant', 'libvariant::VariantRefImpl', 'libvariant::VariantProxyImpl', 'libvariant::VariantRef', 'libvariant::VariantProxy')
KIND = {'IsMap': 'map', 'IsList': 'list', 'IsString': 'string', 'IsBool': 'bool', 'IsNumber': 'number', 'IsInt': 'int', 'IsUnsigned': 'unsigned', 'IsFloat': 'float', 'IsNull': 'null', 'IsBlob': 'blob'}
SAME = {'AsUnsigned', 'AsInt', 'AsUnsignedLong', 'AsLong', 'AsFloat', 'AsDouble', 'AsLongDouble', 'AsString', 'AsList', 'AsMap', 'c_str', 'data', 'Copy', 'str'}
READ = {'operator[]', 'At', 'Get', 'GetMap', 'ConstGet', 'at'}
REG_EXTENDED, REG_NOSUB = 1, 8
ALL = ['$ref', 'type', 'enum', 'multipleOf', 'divisibleBy', 'minimum', 'maximum', 'exclusiveMinimum', 'exclusiveMaximum', 'minLength', 'maxLength', 'pattern', 'format', 'minItems', 'maxItems', 'uniqueItems', 'items', 'additionalItems',
       'minProperties', 'maxProperties', 'required', 'properties', 'patternProperties', 'additionalProperties', 'dependencies', 'allOf', 'anyOf', 'oneOf', 'not']


REG_EXTENDED, REG_NOSUB = 1, 8
NARROW = {'unsigned char', 'signed char', 'char', 'short', 'unsigned short', 'int', 'unsigned int', 'unsigned', 'bool', 'uint8_t', 'uint16_t', 'uint32_t', 'int8_t', 'int16_t', 'int32_t'}


def has(d, k): return T('has', d, T('s', k) if isinstance(k, str) else k)
def kw(k): return T('at', SCH, T('s', k))
def is_(kind, t): return T('is', kind, t)


NUM = [kw(k) for k in ('minimum', 'maximum', 'multipleOf', 'divisibleBy')]


class Bad(Exception): pass


class Spec:
    """one keyword: which branches excuse a path without and justify one with an error"""
    def __init__(self, name, keys, need=()):
        self.name = name; self.keys = keys; self.need = need
    def excused(self, v): return any(v(t) is (not x) for t, x in self.need)
    def justified(self, v): return all(v(t) is x for t, x in self.need)
    def advance(self, r, st, v, c, e): return None      # before the next element: what is wrong
    def end(self, r, st, v): return None
    def error(self, r, st, v): return None
    def blame(self, r, st, v): return None              # the schema itself is called wrong
    def note(self, r, st, v): pass                      # what joining paths would lose


class Bound(Spec):
    """violated when all literals of one alternative hold"""
    def __init__(self, name, keys, *alts): Spec.__init__(self, name, keys); self.alts = alts
    def end(self, r, st, v):
        for a in self.alts:
            if not any(v(t) is (not x) for t, x in a): return 'no branch on this path rules out that %s' % ' and '.join(say(t, x) for t, x in a)
    def error(self, r, st, v):
        if not any(all(v(t) is x for t, x in a) for a in self.alts): return 'an error is reported on a path that does not establish %s' % ' or '.join(' and '.join(say(t, x) for t, x in a) for a in self.alts)
    def blame(self, r, st, v):
        if not any(v(t) is (not x) for a in self.alts for t, x in a if t.k in ('is', 'badre') and t.a[-1] is not DAT): return 'the schema is called wrong although nothing on this path shows that it is'


def say(t, x=True):
    s = words(t)
    return s if x else 'not ' + s


def words(t):
    if t is SCH: return 'the schema'
    if t is DAT: return 'the data'
    if t.k == 'has': return '%s has %s' % (words(t.a[0]), words(t.a[1]))
    if t.k == 'at': return '%s of %s' % (words(t.a[1]), words(t.a[0])) if t.a[0] is not SCH else '"%s"' % t.a[1].a[0] if t.a[1].k == 's' else words(t.a[1])
    if t.k == 's': return '"%s"' % t.a[0]
    if t.k == 'is': return '%s is a %s' % (words(t.a[1]), t.a[0])
    if t.k == 'bool': return words(t.a[0])
    if t.k == 'len': return 'the size of ' + words(t.a[0])
    if t.k == '<': return '%s < %s' % (words(t.a[0]), words(t.a[1]))
    if t.k == '==': return '%s == %s' % (words(t.a[0]), words(t.a[1]))
    if t.k == 'nomatch': return '%s does not match %s' % (words(t.a[1]), words(t.a[0]))
    return tstr(t)


class Each(Spec):
    """every element of a container"""
    box = None
    def whole(self, r, st, v): return r.swept(st, v, self.box)


class Required(Each):
    def __init__(self): Spec.__init__(self, 'required', ['required'], [(has(SCH, 'required'), True), (is_('list', kw('required')), True), (is_('map', DAT), True)]); self.box = kw('required')
    def advance(self, r, st, v, c, e):
        if c is self.box and v(is_('string', e)) is not False and v(has(DAT, e)) is not True: return 'goes on to the next name without having found this one in the data'
    def end(self, r, st, v):
        if not self.excused(v) and not self.whole(r, st, v): return 'ends before every name of the list was looked for'
    def error(self, r, st, v):
        e = r.current(st, self.box)
        if not (self.justified(v) and any(v(has(DAT, x)) is False for x in e)): return 'an error is reported although no name was found missing'


class Enum(Each):
    def __init__(self): Spec.__init__(self, 'enum', ['enum'], [(has(SCH, 'enum'), True), (is_('list', kw('enum')), True)]); self.box = kw('enum')
    def eq(self, v, e): return False if v(T('comparable', e, DAT)) is False or v(T('comparable', DAT, e)) is False else v(eqt(e, DAT))
    def hit(self, r, st, v): return ('hit',) in st.facts or any(self.eq(v, e) for e in r.current(st, self.box))
    def advance(self, r, st, v, c, e):
        if c is not self.box: return None
        if self.eq(v, e) is None: return 'goes on although this value was not compared with the data'
        if self.eq(v, e): st.add(('hit',))
    def end(self, r, st, v):
        if not self.excused(v) and not self.hit(r, st, v): return 'accepts the data without having found it among the values'
    def error(self, r, st, v):
        if self.hit(r, st, v): return 'an error is reported although the data is among the values'
        if not (self.justified(v) and self.whole(r, st, v)): return 'an error is reported before every value was compared'


class Type(Each):
    TABLE = {'array': ['list'], 'boolean': ['bool'], 'null': ['null'], 'number': ['number'], 'object': ['map'], 'string': ['string'], 'integer': ['int', 'unsigned']}
    def __init__(self): Spec.__init__(self, 'type', ['type'], [(has(SCH, 'type'), True)]); self.box = None
    def boxes(self, r, st): return (kw('type'), T('one', kw('type')))
    def named(self, v, e):
        return [n for n in self.TABLE if v(eqt(e, T('s', n))) is True]
    def fits(self, v, n):
        """True when shown, False when excluded"""
        x = [v(is_(k, DAT)) for k in self.TABLE[n]]
        if True in x: return True
        if n == 'integer':
            whole = [t for t in v.terms() if t.k == '==' and any(y.k == 'rem' and y.a[0] is DAT and y.a[1] is I(1) for y in t.a)] + [t for t in v.terms() if t.k == 'rem' and t.a[0] is DAT and t.a[1] is I(1)]
            f = v(is_('float', DAT))
            w = [(v(t) if t.k == '==' else v(t) is False if v(t) is not None else None) for t in whole]
            if f and True in w: return True
            if None not in x and (f is False or False in w): return False
            return None
        return False if None not in x else None
    def advance(self, r, st, v, c, e):
        if c not in self.boxes(r, st): return None
        n = self.named(v, e)
        if n and self.fits(v, n[0]) is not False and ('not', n[0]) not in st.facts: return 'goes on although the data may be of type "%s"' % n[0]
        if not n:
            for m in self.TABLE:
                if v(eqt(e, T('s', m))) is not False: return 'goes on without having compared the name with "%s"' % m
    def note(self, r, st, v):
        if ('not', 'integer') not in st.facts and self.fits(v, 'integer') is False: st.add(('not', 'integer'))
    def end(self, r, st, v):
        if self.excused(v): return None
        for c in self.boxes(r, st):
            for e in r.current(st, c):
                n = self.named(v, e)
                if n and self.fits(v, n[0]): return None
        return 'accepts the data without having shown that it is of one of the types'
    def error(self, r, st, v):
        if not self.justified(v): return 'an error is reported although there is no "type"'
        if not any(r.swept(st, v, c) for c in self.boxes(r, st)): return 'an error is reported before every type was tried'
        if v(is_('list', kw('type'))) is not False and not r.swept(st, v, kw('type')): return 'an error is reported although not every type of the list was tried'


def eqt(a, b): return mkcmp('==', a, b)


class Unique(Spec):
    def __init__(self): Spec.__init__(self, 'uniqueItems', ['uniqueItems'], [(has(SCH, 'uniqueItems'), True), (is_('bool', kw('uniqueItems')), True), (T('bool', kw('uniqueItems')), True), (is_('list', DAT), True)])
    def equal(self, v, a, b): return False if v(T('comparable', a, b)) is False or v(T('comparable', b, a)) is False else v(eqt(a, b))
    def pairs(self, v): return {t.a for t in v.terms() if t.k == '==' and all(y.k in ('at', 'elem') for y in t.a)}
    def error(self, r, st, v):
        if not (self.justified(v) and any(v(eqt(*p)) is True for p in self.pairs(v))): return 'an error is reported although no two items were found equal'
    def end(self, r, st, v):
        if not self.excused(v) and not r.swept(st, v, DAT): return 'ends before every item was looked at'
    def advance(self, r, st, v, c, e):
        if c is not DAT or e.k != 'at' or self.excused(v): return None
        i = e.a[1]
        base = i.a[0] if i.k == 'up' else i
        outer = [t.a[0] for t in v.terms() if t.k == '<' and t.a[1] is T('len', DAT) and v(t) is True and t.a[0] is not i and base is plus1(t.a[0])]
        if outer:
            if self.equal(v, T('at', DAT, outer[0]), e) is not False: return 'goes on to the next pair although these two items may be equal'
        elif not any(t.k == '<' and t.a[1] is T('len', DAT) and v(t) is False and (t.a[0].a[0] if t.a[0].k == 'up' else t.a[0]) is plus1(i) for t in v.terms()): return 'goes on before this item was compared with all that follow it'


def plus1(i): return I(i.a[0] + 1) if i.k == 'i' else T('+', i, I(1))


class Sub(Each):
    """the sub-schema is applied"""
    def __init__(self, name, box, need, sub): Spec.__init__(self, name, [name], need); self.box = box; self.sub = sub
    def advance(self, r, st, v, c, e):
        if c is self.box and self.sub(e) not in r.subs(st): return 'goes on without applying the schema to the data'
    def end(self, r, st, v):
        if not self.excused(v) and not self.whole(r, st, v): return 'ends before every schema was applied'
    def error(self, r, st, v): return 'an error is reported by the keyword itself'


class AnyOf(Each):
    def __init__(self): Spec.__init__(self, 'anyOf', ['anyOf'], [(has(SCH, 'anyOf'), True), (is_('list', kw('anyOf')), True)]); self.box = kw('anyOf')
    def tried(self, r, st, v, e):
        return [v(T('failed', f[3])) for f in st.facts if f[0] == 'sub' and f[1] is e and f[2] is DAT]
    def advance(self, r, st, v, c, e):
        if c is self.box:
            x = self.tried(r, st, v, e)
            if not x and ('caught', e) not in st.facts: return 'goes on without trying this schema'
            if any(y is not True for y in x) and ('caught', e) not in st.facts: return 'goes on although this schema may have accepted the data'
    def end(self, r, st, v):
        if self.excused(v): return None
        if not any(False in self.tried(r, st, v, e) and ('caught', e) not in st.facts for e in r.current(st, self.box)): return 'accepts the data although no schema was shown to accept it'
    def error(self, r, st, v):
        if not (self.justified(v) and self.whole(r, st, v)): return 'an error is reported before every schema was tried'


class OneOf(AnyOf):
    def __init__(self): Spec.__init__(self, 'oneOf', ['oneOf'], [(has(SCH, 'oneOf'), True), (is_('list', kw('oneOf')), True)]); self.box = kw('oneOf')
    def won(self, r, st, v, e): return False in self.tried(r, st, v, e) and ('caught', e) not in st.facts
    def ghost(self, st): return max([f[1] for f in st.facts if f[0] == 'wins'] or [0])
    def advance(self, r, st, v, c, e):
        if c is not self.box: return None
        if not self.tried(r, st, v, e) and ('caught', e) not in st.facts: return 'goes on without trying this schema'
        if None in self.tried(r, st, v, e) and ('caught', e) not in st.facts: return 'goes on without having looked whether this schema accepted the data'
        if self.won(r, st, v, e):
            g = self.ghost(st)
            st.drop(lambda f: f[0] == 'wins'); st.add(('wins', min(g + 1, 2)))
    def end(self, r, st, v):
        if self.excused(v): return None
        if not self.whole(r, st, v): return 'ends before every schema was tried'
        if self.ghost(st) != 1: return 'accepts the data although %s schema accepted it' % ('no' if not self.ghost(st) else 'more than one')
    def error(self, r, st, v):
        if not self.justified(v): return 'an error is reported although there is no list of schemas'
        g = self.ghost(st) + any(self.won(r, st, v, e) for e in r.current(st, self.box))
        if g > 1 or g == 0 and self.whole(r, st, v): return None
        return 'an error is reported although exactly one schema may have accepted the data'


class Not(Spec):
    def __init__(self): Spec.__init__(self, 'not', ['not'], [(has(SCH, 'not'), True)])
    def res(self, st, v): return [v(T('failed', f[3])) for f in st.facts if f[0] == 'sub' and f[1] is kw('not') and f[2] is DAT]
    def end(self, r, st, v):
        if self.excused(v) or ('caught', kw('not')) in st.facts or True in self.res(st, v): return None
        return 'accepts the data although the schema may match it'
    def error(self, r, st, v):
        if not (self.justified(v) and False in self.res(st, v) and ('caught', kw('not')) not in st.facts): return 'an error is reported although the schema was not shown to match'


class Ref(Spec):
    def __init__(self): Spec.__init__(self, '$ref', ['$ref'], [(has(SCH, '$ref'), True), (is_('string', kw('$ref')), True)])
    def end(self, r, st, v):
        if not self.excused(v) and (T('loaded', kw('$ref')), DAT) not in r.subs(st): return 'the schema referred to is not applied to the data'
    def error(self, r, st, v): return 'an error is reported by the keyword itself'


class Items(Each):
    def __init__(self): Spec.__init__(self, 'items', ['items', 'additionalItems'], [(has(SCH, 'items'), True), (is_('list', DAT), True)]); self.box = DAT
    def advance(self, r, st, v, c, e):
        if c is not DAT or e.k != 'at': return None
        i = e.a[1]
        one = v(is_('list', kw('items')))
        s = r.subs(st)
        if one is False:
            if (kw('items'), e) not in s: return 'goes on without applying "items" to this item'
            return None
        inside = v(T('<', i, T('len', kw('items'))))
        if inside is True:
            if (T('at', kw('items'), i), e) not in s: return 'goes on without applying the schema of this position to the item'
        elif inside is False:
            a = kw('additionalItems')
            if v(has(SCH, 'additionalItems')) is False: return None
            if v(is_('bool', a)) is True and v(T('bool', a)) is True: return None
            if v(is_('bool', a)) is False and (a, e) in s: return None
            return 'goes on although "additionalItems" may forbid this item'
        else: return 'goes on without having compared the position with the number of schemas'
    def end(self, r, st, v):
        if not self.excused(v) and not self.whole(r, st, v): return 'ends before every item was looked at'
    def error(self, r, st, v):
        a = kw('additionalItems')
        if not (self.justified(v) and v(has(SCH, 'additionalItems')) and v(is_('bool', a)) and v(T('bool', a)) is False): return 'an error is reported although "additionalItems" was not shown to be false'
        if not any(v(T('<', i, T('len', kw('items')))) is False for i in r.indices(st)): return 'an error is reported for an item that has a schema'


class Properties(Each):
    def __init__(self): Spec.__init__(self, 'properties', ['properties', 'patternProperties', 'additionalProperties'], [(is_('map', DAT), True), (is_('map', SCH), True)]); self.box = DAT
    def excused(self, v): return Spec.excused(self, v) or all(v(has(SCH, k)) is False for k in self.keys)
    def advance(self, r, st, v, c, e):
        s = r.subs(st)
        first, second = T('fld', e, 'first'), T('fld', e, 'second')
        pats = [(t, v(t)) for t in v.terms() if t.k == 'nomatch']
        if c is DAT:
            p, q, a = kw('properties'), kw('patternProperties'), kw('additionalProperties')
            if v(has(SCH, 'properties')) is not False and v(is_('map', p)) is not False:
                if v(has(p, first)) is None: return 'goes on without looking the name up in "properties"'
                if v(has(p, first)) is True and (T('at', p, first), second) not in s: return 'goes on without applying the schema "properties" has for this name'
            if v(has(SCH, 'patternProperties')) is not False and v(is_('map', q)) is not False and not any(r.swept(st, v, b) for b in r.boxes(st) if b.k == 'var' or b is q and (any(mentions(t.a[0], lambda y: y is q) for t, _ in pats) or any(f[0] == 'fresh' for f in st.facts))): return 'goes on before every pattern was tried'
            used = [x for x in s if x[1] is second and x[0] is not a]
            if used and (a, second) in s: return 'applies "additionalProperties" to a member that has a schema'
            if not used and (a, second) not in s:
                if v(has(SCH, 'additionalProperties')) is False: return None
                if v(is_('bool', a)) is True and v(T('bool', a)) is True: return None
                return 'goes on although "additionalProperties" may forbid this name'
        elif c is kw('patternProperties') and not pats:
            if ('made', first, second) in st.facts and ('pushed',) in st.facts or ('here',) in st.facts: return None
            return 'goes on without keeping this pattern'
        elif c.k == 'var' or c is kw('patternProperties'):
            here = [(t, x) for t, x in pats if mentions(t.a[0], lambda y: y is e) and t.a[1].k == 'fld' and t.a[1].a[1] == 'first']
            if not here: return 'goes on without trying this pattern'
            for t, x in here:
                if x is not True and not any(y[1].k == 'fld' and y[1].a[1] == 'second' and y[1].a[0] is t.a[1].a[0] and mentions(y[0], lambda z: z is e) for y in s): return 'goes on without applying the schema of a pattern that matches'
    def end(self, r, st, v):
        if not self.excused(v) and not self.whole(r, st, v): return 'ends before every member was looked at'
    def error(self, r, st, v):
        a = kw('additionalProperties')
        if not (v(has(SCH, 'additionalProperties')) and v(is_('bool', a)) and v(T('bool', a)) is False): return 'an error is reported although "additionalProperties" was not shown to be false'
        if r.subs(st): return 'an error is reported for a member that has a schema'
    inner = True


class Dependencies(Each):
    def __init__(self): Spec.__init__(self, 'dependencies', ['dependencies'], [(has(SCH, 'dependencies'), True), (is_('map', kw('dependencies')), True), (is_('map', DAT), True)]); self.box = kw('dependencies')
    def advance(self, r, st, v, c, e):
        first, second = T('fld', e, 'first'), T('fld', e, 'second')
        if c is self.box:
            if v(has(DAT, first)) is False: return None
            if v(is_('string', second)) is True: return None if v(has(DAT, second)) is True else 'goes on although the name depended on may be missing'
            if v(is_('list', second)) is True: return None if r.swept(st, v, second) else 'goes on before every name depended on was looked for'
            if v(is_('map', second)) is True: return None if (second, DAT) in r.subs(st) else 'goes on without applying the schema depended on'
            if all(v(is_(k, second)) is False for k in ('string', 'list', 'map')): return None
            return 'goes on without having looked at what this name depends on'
        if c.k == 'fld' and c.a[1] == 'second':
            if v(has(DAT, e)) is not True: return 'goes on although the name depended on may be missing'
    def end(self, r, st, v):
        if not self.excused(v) and not self.whole(r, st, v): return 'ends before every dependency was looked at'
    def error(self, r, st, v):
        for e in r.current(st, self.box):
            second = T('fld', e, 'second')
            if v(has(DAT, T('fld', e, 'first'))) is not True: continue
            if v(is_('string', second)) and v(has(DAT, second)) is False: return None
            if v(is_('list', second)) and any(t.k == 'has' and t.a[0] is DAT and t.a[1].k in ('at', 'elem') and v(t) is False for t in v.terms()): return None
        return 'an error is reported although no dependency was shown to be broken'


class MultipleOf(Spec):
    def __init__(self, key): Spec.__init__(self, key, [key], [(has(SCH, key), True), (is_('number', kw(key)), True), (is_('number', DAT), True)]); self.key = key
    def exact(self, v):
        t = [x for x in v.terms() if x.k == 'rem' and x.a[0] is DAT and x.a[1] is kw(self.key)]
        return [v(x) for x in t] + [not v(x) for x in v.terms() if x.k == '==' and any(y.k == 'rem' and y.a[0] is DAT for y in x.a) and v(x) is not None]
    def floats(self, v): return v(is_('float', DAT)) is True or v(is_('float', kw(self.key))) is True
    def near(self, v, w):
        """comparisons of the distance to the nearest multiple with the tolerance: (below, above)"""
        rem = T('rem', DAT, kw(self.key))
        lo, hi = [], []
        for t in v.terms():
            if t.k == '<' and v(t) is not None:
                a, b = t.a
                side = None
                if dist(a, rem, kw(self.key)) is not None: d = dist(a, rem, kw(self.key)); far = not v(t)
                elif dist(b, rem, kw(self.key)) is not None: d = dist(b, rem, kw(self.key)); far = v(t)
                else: continue
                (hi if far else lo).append(d)
        return lo, hi
    def end(self, r, st, v):
        if self.excused(v) or v(T('<', I(0), kw(self.key))) is False or v(T('<', kw(self.key), I(1))) is True: return None
        if self.floats(v):
            lo, hi = self.near(v, None)
            if not any(d in ('zero', 'one') for d in lo): return 'accepts the data although the remainder may be far from zero and from the divisor'
            return None
        if False not in self.exact(v): return 'accepts the data although the remainder may not be zero'
    def error(self, r, st, v):
        if not self.justified(v): return 'an error is reported although the keyword or the data is no number'
        if self.floats(v):
            lo, hi = self.near(v, None)
            if not ('zero' in hi and 'one' in hi): return 'an error is reported although the remainder may be close to zero or to the divisor'
            return None
        if True not in self.exact(v): return 'an error is reported although the remainder may be zero'
    def blame(self, r, st, v):
        if v(is_('number', kw(self.key))) is not False and v(T('<', I(0), kw(self.key))) is not False: return 'the schema is called wrong although nothing on this path shows that it is'


def dist(t, rem, div):
    """'zero': |remainder|, 'one': | |remainder| - divisor |"""
    if t.k != 'abs': return None
    x = t.a[0]
    if x is rem: return 'zero'
    if x.k == 'abs' and x.a[0] is rem: return 'zero'
    if x.k == '-':
        a, b = x.a
        for p, q in ((a, b), (b, a)):
            if p.k == 'abs' and p.a[0] is rem and q is div: return 'one'
            if p is rem and q is div: return 'signed'
    return None


def isctx(t): return t.k == 'p' and t.a[0] == 0


class View:
    """what the branches of a path say"""
    EXCL = ('map', 'list', 'string', 'bool', 'number', 'null', 'blob')
    def __init__(self, st): self.c = st.conds
    def terms(self): return list(self.c)
    def __call__(self, t):
        x = simp(t, self.c)
        if x is not None: return bool(x)
        if t.k == 'is':
            k, d = t.a
            sup = 'number' if k in ('int', 'unsigned', 'float') else k
            for o in self.EXCL:
                if o != sup and self.c.get(is_(o, d)): return False
            if sup != k:
                if self.c.get(is_('number', d)) is False: return False
                if any(self.c.get(is_(o, d)) for o in ('int', 'unsigned', 'float') if o != k): return False
            elif k == 'number':
                x = [self.c.get(is_(o, d)) for o in ('int', 'unsigned', 'float')]
                if True in x: return True
                if x == [False] * 3: return False
        if t.k == 'has' and self(is_('map', t.a[0])) is False: return False
        if t.k == 'has' and t.a[0].k == 'at' and self(has(t.a[0].a[0], t.a[0].a[1])) is False: return False
        return None


class Keyword(Rule):
    exc = True
    max_states = 24
    max_steps = 60000
    inline_depth = 7
    keep = ('first', 'second')
    accessors = frozenset(SAME | READ | set(KIND) | {'ListBegin', 'ListEnd', 'MapBegin', 'MapEnd', 'begin', 'end', 'Size', 'Contains', 'Comparable', 'AsBool', 'Error', 'GetSchema', 'Exists'})
    whole = True         # a number read as an integer loses its fraction
    def __init__(self, cx, spec, entry, stops): self.cx = cx; self.spec = spec; self.entry = entry; self.found = {}; self.ends = 0; self.errs = 0; self.steps = 0; self.inlined = set(); self.stops = stops
    def bad(self, where, rule, msg): self.found.setdefault('%s:%s:%s' % (self.spec.name, rule, re.sub(r'[^A-Za-z]+', '-', msg)[:60]), (where, '%s: "%s" %s' % (rule, self.spec.name, msg)))
    def init(self, eng, st):
        for k in ALL:
            if k not in self.spec.keys: st.conds[has(SCH, k)] = False
    def inline(self, eng, st, fr, nid, n, g):
        if not (g.file == self.entry.file and g.id != self.entry.id and g.cls not in ('libvariant::SchemaResult', 'libvariant::SchemaLoader') and g.kind not in ('ctor', 'dtor')): return False
        self.inlined.add(g.id)
        return True
    def may_throw(self, eng, st, fr, nid, n): return n.get('fn') == self.entry.id or n['k'] == 'CXXConstructExpr' and n.get('fn') in eng.prog.funcs and eng.prog.funcs[n['fn']].file == self.entry.file and any(m and m['k'] == 'CXXThrowExpr' for m in eng.prog.funcs[n['fn']].nodes)
    def apart_by(self, st): return frozenset(f for f in st.facts if f[0] in ('wins', 'error', 'sub', 'made', 'pushed', 'caught', 'schema error')) | frozenset((c, v) for c, v in st.conds.items() if c.k not in ('is', 'rem') and not (c.k == 'has' and c.a[0] is SCH and not v)) | frozenset((l, v) for l, v in st.mem.items() if v.k in ('i', 'up', 'it', 's')) | frozenset(st.res.items())
    def forget(self, eng, st, t, memo):
        m = {}
        st.drop(lambda f: any(isinstance(x, Term) and mentions(x, lambda y: y is t, m) for x in f))
    # ---- canonical documents
    def root(self, t): return {1: SCH, 2: DAT}.get(t.a[0]) if t.k == 'p' else None
    def canon(self, eng, st, t):
        for _ in range(40):
            if t.k == 'copy': t = t.a[0]
            elif self.root(t) is not None and (t.k == 'fld' or t not in st.mem): return self.root(t)
            elif t in st.mem and st.mem[t] is not t: t = st.mem[t]
            elif t.k == 'ctor' and len(t.a[1]) == 1 and t.a[0].startswith(('libvariant::Variant', 'std::basic_string', 'std::vector', 'libvariant::VariantRef')): t = t.a[1][0]
            elif t.k == 'ctor' and t.a[0].startswith('std::basic_string') and t.a[1] and t.a[1][0].k != 'i': t = t.a[1][0]
            elif t.k == 'call' and t.a[1] is not None and t.a[0].split('::')[-1] in SAME and not t.a[2]: t = t.a[1]
            elif t.k == '*' and t.a[0].k == '&': t = t.a[0].a[0]
            else: break
        return t
    def box(self, eng, st, obj):
        c = self.canon(eng, st, obj)
        return c if c.k in ('doc', 'at', 'fld', 'elem', 'one', 's') else obj if obj.k == 'var' else c
    def after(self, eng, st, fr, nid, n, obj, args, res):
        key = (fr.uid, nid)
        nm = (n.get('fq') or '').split('::')[-1]
        if n.get('fn') in self.inlined: self.spec.note(self, st, View(st))
        if n.get('fn') in self.inlined and ('ok',) not in st.facts and not self.spec.end(self, st, View(st)): st.add(('ok',))
        if n.get('fn') == self.entry.id:
            ctx, s, d = args[0], self.canon(eng, st, args[1]), self.canon(eng, st, args[2])
            st.drop(lambda f: f[0] == 'trying')
            for t in [t for t in st.conds if t.k == 'failed' and t.a[0] is ctx]: del st.conds[t]
            st.add(('sub', s, d, ctx))
            return
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            cls = n.get('cls', '')
            if n.get('copy') or n.get('move'):
                c = self.canon(eng, st, args[0])
                if c.k in ('doc', 'at', 'fld', 'elem', 'one', 's', 'rem', 'loaded', 'it', 'end'): st.res[key] = c
            elif cls.startswith('libvariant::Variant') and len(args) == 1: st.res[key] = self.canon(eng, st, args[0])
            elif cls.startswith('std::basic_string') and args and args[0].k != 'i': st.res[key] = self.canon(eng, st, args[0])
            elif cls.startswith('std::vector') and len(args) >= 2 and args[0] is ONE: st.res[key] = T('one', self.canon(eng, st, args[1]))
            elif cls.startswith(('__gnu_cxx::', 'std::_')) and len(args) == 1: st.res[key] = self.canon(eng, st, args[0])
            else:
                xs = [self.canon(eng, st, a) for a in args]
                for x in xs:
                    if x.k == 'fld' and x.a[1] == 'first' and T('fld', x.a[0], 'second') in xs: st.add(('made', x, T('fld', x.a[0], 'second')))
            return
        x = self.canon(eng, st, obj) if obj is not None else None
        a = [self.canon(eng, st, y) for y in args]
        cls = n.get('cls') or ''
        var = cls.startswith('libvariant::Variant')
        if n.get('fq') in ('regcomp', 'regexec'):
            if nm == 'regcomp' and len(args) == 3:
                src = a[1] if args[2].k == 'i' and args[2].a[0] | REG_NOSUB == REG_EXTENDED | REG_NOSUB else T('otherwise', a[1])
                st.drop(lambda f: f[0] == 're' and f[1] is args[0]); st.add(('re', args[0], src))
                st.res[key] = T('badre', src)
            elif nm == 'regexec' and len(args) == 5:
                src = [f[2] for f in st.facts if f[0] == 're' and f[1] is args[0]] or [args[0]]
                st.res[key] = T('nomatch', src[0], a[1]) if args[4] is ZERO else T('nomatch', T('otherwise', src[0]), a[1])
            return
        if nm == 'GetSchema' and cls == 'libvariant::SchemaLoader': st.res[key] = T('loaded', a[0]); return
        if cls == 'libvariant::SchemaResult':
            if nm == 'Error': st.res[key] = T('failed', obj.a[0] if obj.k == 'fld' else obj)
            elif nm == 'AddSchemaError':
                m = self.spec.blame(self, st, View(st)) if ('schema error',) not in st.facts else None
                w, at = fr, nid
                while w.parent is not None and w.f.cls == 'libvariant::SchemaContext': at = w.call[2]; w = w.parent
                if m and any(q and q['k'] == 'StringLiteral' and q.get('v') in self.spec.keys for q in w.f.nodes): self.bad(w.f.loc(at), 'K2', m)
                st.add(('schema error',)); st.add(('here',))
            elif nm == 'AddError' and obj.k == 'fld' and isctx(obj.a[0]): self.error(eng, st, fr, nid)
            return
        if nm == 'abs' and len(args) == 1: st.res[key] = T('abs', args[0]); return
        if n.get('oop') in ('==', '!=', '<', '>', '<=', '>=') and not n.get('sys'):
            ops = ([x] if x is not None else []) + a
            if len(ops) == 2: st.res[key] = mkcmp(n['oop'], *ops)
            return
        if n.get('oop') in ('==', '!=', '<', '>', '<=', '>='):
            ops = ([x] if x is not None else []) + a
            if len(ops) == 2: st.res[key] = mkcmp(n['oop'], *[self.text(st, o) for o in ops])
            return
        if n.get('oop') == '%' and not n.get('sys'):
            ops = ([x] if x is not None else []) + a
            if len(ops) == 2: st.res[key] = T('rem', *ops)
            return
        if n.get('oop') == '=' and obj is not None and len(args) == 1:
            if not n.get('sys'): eng.store(st, fr, nid, obj, a[0])
            else: st.mem[obj] = a[0] if a[0].k not in ('call',) else st.mem.get(obj, a[0])
            return
        if n.get('oop') == '++':
            if self.nx and self.nx[0] is obj: self.next(eng, st, fr, nid, *self.nx, n)
            self.nx = None
            return
        if n.get('oop') == '->' or n.get('oop') == '*': return
        if n.get('sys') and n.get('oop') == '[]' and x is not None:
            c = self.box(eng, st, obj)
            if c.k in ('doc', 'at', 'fld', 'elem', 'one'): st.res[key] = T('at', c, a[0])
            return
        if n.get('sys') and x is not None:
            c = self.box(eng, st, obj)
            if nm in ('begin', 'cbegin'): st.res[key] = T('it', c, 0)
            elif nm in ('end', 'cend'): st.res[key] = T('end', c)
            elif nm == 'size' or nm == 'length': st.res[key] = T('len', c) if ('fresh', obj) not in st.facts else ZERO
            elif nm == 'empty' and c.k in ('doc', 'at', 'fld', 'elem', 'one', 's'): st.res[key] = neg(T('len', c)) if c.k != 's' else I(int(not c.a[0]))
            elif nm in ('push_back', 'emplace_back', 'insert'):
                st.add(('pushed',))
                old = st.mem.get(obj)
                if nm != 'insert' and ('fresh', obj) in st.facts and a and a[0].k in ('at', 'doc', 'fld', 'elem'): st.mem[obj] = T('one', a[0])
                st.drop(lambda f: f == ('fresh', obj))
            return
        if x is None or not var: return
        if nm == 'Contains': st.res[key] = has(x, a[0])
        elif nm in READ and a: st.res[key] = T('at', x, a[0])
        elif nm in KIND: st.res[key] = is_(KIND[nm], x)
        elif nm == 'AsBool': st.res[key] = T('bool', x)
        elif self.whole and nm in ('AsInt', 'AsUnsigned', 'AsLong', 'AsUnsignedLong') and (x is DAT or x in NUM) and View(st)(is_('float', x)) is not False: st.res[key] = T('whole part', x)
        elif nm in SAME: st.res[key] = x
        elif nm in ('Size',): st.res[key] = T('len', x)
        elif nm == 'Empty': st.res[key] = neg(T('len', x))
        elif nm in ('ListBegin', 'MapBegin'): st.res[key] = T('it', x, 0)
        elif nm in ('ListEnd', 'MapEnd'): st.res[key] = T('end', x)
        elif nm == 'Comparable': st.res[key] = T('comparable', x, a[0])
        elif n.get('fq', '').split('::')[-1].startswith('operator ') and n['k'] == 'CXXMemberCallExpr': st.res[key] = x
    def text(self, st, t):
        """a value compared by its text: equal texts do not mean equal values"""
        d = t
        while d.k in ('at', 'elem', 'it', 'fld'): d = d.a[0]
        return t if t.k in ('it', 'end') or d is not DAT or t.k == 'fld' and t.a[1] == 'first' or View(st)(is_('string', t)) else T('text of', t)
    def declare(self, eng, st, fr, v, loc, val):
        if val is not None and v['t'].replace('const ', '') in NARROW:
            c = self.canon(eng, st, val)
            if c.k == 'at' and c.a[0] is SCH: st.mem[loc] = T('truncated', c); return
        if 'std::vector' in v['t'] and (val is None or val.k in ('ctor', 'uninit') and (val.k == 'uninit' or not val.a[1])): st.add(('fresh', loc))
        if v['t'].replace('const ', '') in ('std::string', 'std::basic_string<char>') and val is not None and val.k == 'ctor' and not val.a[1]: st.mem[loc] = T('s', '')
        elif val is not None:
            c = self.canon(eng, st, val)
            if c is not val and c.k in ('doc', 'at', 'fld', 'elem', 'one', 's', 'it', 'end', 'rem', 'loaded', 'len', 'i'): st.mem[loc] = c
    def call(self, eng, st, fr, nid, n, obj, args):
        if n.get('fn') == self.entry.id: st.add(('trying', self.canon(eng, st, args[1])))
        if n.get('oop') == '++' and n.get('sys') and obj is not None:
            x = self.canon(eng, st, obj)
            self.nx = None
            if x.k == 'it':
                self.nx = obj, x
                self.advance(eng, st, fr, nid, [(x.a[0], T('elem', x))])
    def elem(self, eng, st, fr, nid, n):
        if n['k'] == 'UnaryOperator' and n['op'] in ('++', 'post++'):
            loc = eng.lv(st, fr, n['c'][0])
            old = st.mem.get(loc)
            if old is None or old.k not in ('i', 'up') and not (old.k == '+' and old.a[1] is ONE): self.up = None; return
            es = []
            for c in sorted(self.boxes(st), key=lambda c: c.n):
                l = T('len', c)
                if simp(T('<', old, l), st.conds) == 1 or simp(mkcmp('==', old, l), st.conds) == 0 and simp(T('<', l, old), st.conds) != 1:
                    es.append((c, T('at', c, old) if c.k != 'var' else T('idx', c, old)))
            self.advance(eng, st, fr, nid, es)
            if self.spec.name == 'oneOf' and old.k == 'i' and not any(mentions(t, lambda y: y.k == 'len') and mentions(t, lambda y: y is old) for t in st.conds):
                self.up = (loc, I(min(old.a[0] + 1, 2))); return
            new = T('up', old.a[0] if old.k == 'up' else old, fr.uid, nid)
            eng.forget(st, new)
            self.up = (loc, new)
        else:
            for k in ('CXXCatchStmt',):
                pass
    def branch(self, eng, st, fr, cond, val, term, nid):
        for t in subterms(cond):
            if t.k not in ('is', 'has') or t not in st.conds: continue
            x = st.conds.pop(t)
            y = View(st)(t)
            if y is not None and y != x: return False
            st.conds[t] = x
        self.spec.note(self, st, View(st))
        if ('ok',) not in st.facts and not self.spec.end(self, st, View(st)): st.add(('ok',))
    up = None
    def assign(self, eng, st, fr, nid, loc, val):
        u, self.up = self.up, None
        if u and u[0] is loc: return u[1]
    nx = None
    def next(self, eng, st, fr, nid, loc, it, n):
        c = it.a[0]
        new = T('it', c, fr.uid, nid)
        eng.forget(st, new)
        eng.invalidate(st, loc)
        st.mem[loc] = new
        st.res[(fr.uid, nid)] = loc if not n['args'] else it
    def boxes(self, st):
        out = set()
        for t in st.conds:
            for x in subterms(t):
                if x.k in ('len', 'end'): out.add(x.a[0])
        return out
    def advance(self, eng, st, fr, nid, es):
        if any(f[0] == 'error' for f in st.facts): return
        v = View(st)
        old = [c for c, e in es if self.swept(st, v, c)]
        for c, e in es:
            if c in old: continue
            self.steps += 1
            m = self.spec.advance(self, st, v, c, e)
            if m: self.bad(fr.f.loc(nid), 'K3' if 'before' in m else 'K1', m)
        for c, e in es:
            here = lambda y: y is e
            if c not in old:
                for f in [f for f in st.facts if f[0] == 'sub' and mentions(f[1], here) and not mentions(f[2], here)]: st.add(('sub', T('earlier'), f[2], f[3]))
                st.drop(lambda f: f[0] in ('made', 'pushed', 'here') and c is not DAT or any(isinstance(x, Term) and mentions(x, here) for x in f))
            for t in [t for t in st.conds if mentions(t, here)]: del st.conds[t]
            if c is DAT and getattr(self.spec, 'inner', False):
                vec = any(b.k == 'var' for b in self.boxes(st)) or any(f[0] == 'fresh' for f in st.facts)
                for t in [t for t in st.conds if t.k in ('<', '==') and any(x.k in ('len', 'end') and (x.a[0].k == 'var' or not vec and x.a[0] is not DAT) for x in t.a)]: del st.conds[t]
                for t in [t for t in st.conds if t.k == 'nomatch']: del st.conds[t]
    def swept(self, st, v, c):
        for t, x in st.conds.items():
            if x and t.k == '==' and T('end', c) in t.a and any(y.k == 'it' and y.a[0] is c for y in t.a): return True
            l = T('len', c)
            if not x and t is l: return True
            if t.k == '<' and not x and t.a[1] is l and (t.a[0] is ZERO or t.a[0].k == 'up' and t.a[0].a[0] is ZERO): return True
            if t.k == '==' and x and l in t.a and any(y.k == 'up' and y.a[0] is ZERO for y in t.a): return True
        return False
    def current(self, st, c):
        out = set()
        src = list(st.conds) + [x for f in st.facts for x in f if isinstance(x, Term)]
        for t in src:
            for x in subterms(t):
                if x.k == 'elem' and x.a[0].k == 'it' and x.a[0].a[0] is c or x.k == 'at' and x.a[0] is c: out.add(x)
        return out
    def indices(self, st): return {x.a[0] for x in st.conds if x.k == '<'}
    def subs(self, st): return {(f[1], f[2]) for f in st.facts if f[0] == 'sub' and isctx(f[3])}
    def catch_(self, eng, st, fr, nid, ty):
        t = ty.replace('const ', '').rstrip(' &*')
        for f in [f for f in st.facts if f[0] == 'trying']:
            st.add(('caught', f[1]))
            if t not in self.stops: st.add(('foreign', fr.f.loc(nid)))
        st.drop(lambda f: f[0] == 'trying')
    def error(self, eng, st, fr, nid):
        if any(f[0] == 'error' for f in st.facts): return
        self.errs += 1
        m = self.spec.error(self, st, View(st))
        if m:
            while fr.parent is not None and fr.f.cls == 'libvariant::SchemaContext': nid = fr.call[2]; fr = fr.parent
            self.bad(fr.f.loc(nid), 'K2', m)
        st.add(('error',))
    def exit(self, eng, st):
        self.ends += 1
        for f in st.facts:
            if f[0] == 'foreign': self.bad(f[1], 'K2', 'an exception that does not stand for a reported error is taken for a mismatch')
        if any(f[0] in ('error', 'schema error', 'ok') for f in st.facts): return
        m = self.spec.end(self, st, View(st))
        if m: self.bad(self.entry.loc(), 'K1', m)


class Beside(Keyword):
    """a keyword with another one that the same function looks for: it still is not passed over"""
    def __init__(self, cx, spec, entry, stops, other): Keyword.__init__(self, cx, spec, entry, stops); self.other = other
    def bad(self, where, rule, msg):
        if rule != 'K2': self.found.setdefault('%s:K6:%s' % (self.spec.name, self.other), (where, 'K6: "%s" with "%s" in the schema: %s' % (self.spec.name, self.other, msg)))
    def init(self, eng, st):
        Keyword.init(self, eng, st)
        st.conds[has(SCH, self.other)] = True
    def error(self, eng, st, fr, nid): st.add(('error',))


def beside(p, entry):
    """keyword -> keywords named in the same function"""
    out = {}
    for f in p.funcs.values():
        if f.file != entry.file or not f.cfg or f.id == entry.id or not f.params or f.params[0]['t'] != entry.params[0]['t']: continue
        ks = {n['v'] for n in f.nodes if n and n['k'] == 'StringLiteral' and n.get('v') in ALL}
        for a in ks: out.setdefault(a, set()).update(ks - {a})
    return out


class Asked(Keyword):
    """every keyword is looked for, whichever others there are"""
    max_states = 1
    KINDS = [{'map': 1}, {'list': 1}, {'string': 1}, {'bool': 1}, {'null': 1}, {'number': 1, 'int': 1}, {'number': 1, 'float': 1}]
    def __init__(self, cx, entry, stops, all, kind):
        Keyword.__init__(self, cx, Spec('keywords', ()), entry, stops)
        self.all = all; self.kind = kind
        self.keys = {k for s in all for k in (s.keys if s.name == 'properties' else s.keys[:1])} - {'additionalProperties', 'divisibleBy'}   # those two are for what the others leave over
    def init(self, eng, st):
        for k in KIND.values(): st.conds[is_(k, DAT)] = k in self.kind
        st.conds[is_('map', SCH)] = True
    def apart_by(self, st): return None
    def error(self, eng, st, fr, nid): st.add(('error',))
    def advance(self, eng, st, fr, nid, es): pass
    def branch(self, eng, st, fr, cond, val, term, nid):
        if Keyword.branch(self, eng, st, fr, cond, val, term, nid) is False: return False
        if any(f[0] in ('error', 'schema error') for f in st.facts): return False
        for t in [t for t in st.conds if not (t.k == 'is' and t.a[1] in (DAT, SCH))]: del st.conds[t]
        st.drop(lambda f: f[0] not in ('asked', 'error', 'schema error'))
    def after(self, eng, st, fr, nid, n, obj, args, res):
        Keyword.after(self, eng, st, fr, nid, n, obj, args, res)
        r = st.res.get((fr.uid, nid))
        if r is not None and r.k in ('has', 'at') and r.a[0] is SCH and r.a[1].k == 's' and r.a[1].a[0] in self.keys: st.add(('asked', r.a[1]))
    def exit(self, eng, st):
        self.ends += 1
        if any(f[0] in ('error', 'schema error') for f in st.facts): return
        v = View(st)
        for s in self.all:
            need = [c for c in s.need] + [c for a in getattr(s, 'alts', ())[:1] for c in a]
            if any(t.k == 'is' and t.a[1] is DAT and v(t) is (not x) for t, x in need): continue
            for k in s.keys if s.name == 'properties' else s.keys[:1]:
                if k not in self.keys or ('asked', T('s', k)) in st.facts: continue
                self.found.setdefault('keywords:K6:' + k, (self.entry.loc(), 'K6: a path through the validator accepts the data without looking for "%s", because of another keyword' % k))


def specs():
    n = lambda k: (is_('number', kw(k)), True)
    h = lambda k: (has(SCH, k), True)
    d = lambda k: (is_(k, DAT), True)
    out = []
    for lo, hi, kind in (('minProperties', 'maxProperties', 'map'), ('minItems', 'maxItems', 'list'), ('minLength', 'maxLength', 'string')):
        out.append(Bound(lo, [lo], [h(lo), n(lo), d(kind), (T('<', T('len', DAT), kw(lo)), True)]))
        out.append(Bound(hi, [hi], [h(hi), n(hi), d(kind), (T('<', kw(hi), T('len', DAT)), True)]))
    for k, x, t in (('minimum', 'exclusiveMinimum', T('<', DAT, kw('minimum'))), ('maximum', 'exclusiveMaximum', T('<', kw('maximum'), DAT))):
        out.append(Bound(k, [k, x], [h(k), n(k), d('number'), (t, True)], [h(k), n(k), d('number'), h(x), (T('bool', kw(x)), True), (eqt(DAT, kw(k)), True)]))
    out.append(Bound('pattern', ['pattern'], [h('pattern'), (is_('string', kw('pattern')), True), d('string'), (T('badre', kw('pattern')), False), (T('nomatch', kw('pattern'), DAT), True)]))
    for k in ('multipleOf', 'divisibleBy'): out.append(MultipleOf(k))
    out += [Required(), Enum(), Type(), Unique(), AnyOf(), OneOf(), Not(), Ref(), Items(), Properties(), Dependencies(), Format()]
    out.append(Sub('allOf', kw('allOf'), [(has(SCH, 'allOf'), True), (is_('list', kw('allOf')), True)], lambda e: (e, DAT)))
    return out


class Format(Spec):
    SAMPLES = {'date-time': (['2012-01-31T10:20:30Z', '1999-12-01T00:00:00Z'], ['', 'x', '2012-1-31', '2012-01-31T10:20:30Zx', '2012-01-31 10:20:30']), 'date': (['2012-01-31', '1999-12-01'], ['', '2012-1-31', '12-01-31', '2012-01-31x', 'x2012-01-31', '2012/01/31']),
               'time': (['10:20:30', '23:59:59', '00:00:00'], ['', '1:20:30', '10:20', '10:60:30', '10:20:60', '10:20:30x', 'x10:20:30'])}
    def __init__(self): Spec.__init__(self, 'format', ['format'], [(has(SCH, 'format'), True), (is_('string', kw('format')), True), (is_('string', DAT), True)])
    def fits(self, name, t):
        if t.k != 's': return None
        try: r = re.compile(t.a[0])
        except re.error: return None
        good, badd = self.SAMPLES[name]
        for x in good:
            if not r.search(x): return 'the pattern used for "%s" does not match "%s"' % (name, x)
        for x in badd:
            if r.search(x): return 'the pattern used for "%s" matches "%s"' % (name, x)
    def look(self, v):
        name = [n for n in list(self.SAMPLES) + ['regex'] if v(eqt(kw('format'), T('s', n))) is True]
        return name[0] if name else None
    def end(self, r, st, v):
        if self.excused(v): return None
        name = self.look(v)
        if name == 'regex': return None if v(T('badre', DAT)) is False else 'accepts the data although it may be no regular expression'
        if name:
            m = [t for t in v.terms() if t.k == 'nomatch' and t.a[1] is DAT and v(t) is False]
            if m: return self.fits(name, m[0].a[0])
            if any(t.k == 'badre' and v(t) for t in v.terms()): return None
            return 'accepts the data without having matched it against a pattern for "%s"' % name
        for n in list(self.SAMPLES) + ['regex']:
            if v(eqt(kw('format'), T('s', n))) is not False: return 'accepts the data without having looked for the format "%s"' % n
    def error(self, r, st, v):
        if not self.justified(v): return 'an error is reported although the format or the data is no string'
        name = self.look(v)
        if name == 'regex' and v(T('badre', DAT)): return None
        m = [t for t in v.terms() if t.k == 'nomatch' and t.a[1] is DAT and v(t) is True]
        if name in self.SAMPLES and m: return self.fits(name, m[0].a[0])
        return 'an error is reported although no pattern for the format failed to match'


RESULT = 'libvariant::SchemaResult'


class Public(Rule):
    """the entry point: judges what it was given and returns what was reported"""
    exc = True
    def __init__(self, entry, stops): self.entry = entry; self.stops = stops; self.found = {}; self.n = 0
    def bad(self, where, key, msg): self.found.setdefault('entry:K5:' + key, (where, 'K5: ' + msg))
    def inline(self, eng, st, fr, nid, n, g): return g.file == self.entry.file and g.id != self.entry.id and g.cls is None
    def may_throw(self, eng, st, fr, nid, n): return n.get('fn') == self.entry.id
    def val(self, st, t):
        for _ in range(20):
            if t.k == 'copy': t = t.a[0]
            elif t in st.mem and st.mem[t] is not t: t = st.mem[t]
            elif t.k == 'ctor' and len(t.a[1]) == 1 and t.a[0].startswith('libvariant::'): t = t.a[1][0]
            else: break
        return t
    def call(self, eng, st, fr, nid, n, obj, args):
        if n.get('fn') == self.entry.id:
            if self.val(st, args[2]) is not T('p', 1, eng.root_func.params[1]['n'] or 'arg1'): self.bad(fr.f.loc(nid), 'data', 'what is validated is not the data the caller gave')
            if self.val(st, args[1]).k == 'p' and self.val(st, args[1]).a[0] == 1: self.bad(fr.f.loc(nid), 'schema', 'the data is used as the schema')
            st.add(('ctx', args[0]))
    def after(self, eng, st, fr, nid, n, obj, args, res):
        if n.get('oop') == '=' and not n.get('sys') and obj is not None and obj.k == 'p': st.mem[obj] = T('assigned', fr.uid, nid)
        if (n.get('fq') or '').split('::')[-1] in ('AddSchemaError', 'AddError') and obj is not None and any(f[0] == 'ctx' and (f[1] is obj or obj.k == 'fld' and obj.a[0] is f[1]) for f in st.facts): st.drop(lambda f: f[0] == 'silent')
    def catch_(self, eng, st, fr, nid, ty):
        if ty.replace('const ', '').rstrip(' &*') not in self.stops: st.add(('silent', fr.f.loc(nid)))
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is not None: return
        self.n += 1
        for f in st.facts:
            if f[0] == 'silent': self.bad(f[1], 'silent', 'validation was broken off by an exception and nothing is reported')
        c = [f[1] for f in st.facts if f[0] == 'ctx']
        if not c: self.bad(fr.f.loc(nid), 'unjudged', 'a result is returned without validating')
        else:
            v = val.a[0] if val.k == 'copy' else val
            if not (v.k == 'fld' and v.a[0] in c): self.bad(fr.f.loc(nid), 'result', 'the result returned is not the one the errors were added to')


def entrance(cx, pub, entry, stops):
    rule = Public(entry, stops)
    eng = cx.engine(rule)
    for f in pub:
        if any(n.get('fn') == entry.id for _, n in f.calls()): eng.run(f)
    cx.finish_engine(eng, 'entry point')
    cx.count('results returned', rule.n)
    for k, (where, msg) in sorted(rule.found.items()): cx.bad(k, where, msg)


class Adds(Rule):
    exc = False
    def __init__(self): self.missing = []; self.boxes = set()
    def call(self, eng, st, fr, nid, n, obj, args):
        nm = (n.get('fq') or '').split('::')[-1]
        if obj is not None and obj.k == 'fld' and obj.a[0] is deref(THIS) and args and any(mentions(a, lambda t: t.k == 'p') for a in args) and nm in ('push_back', 'insert', 'emplace_back', 'push_front'):
            st.add(('kept',)); self.boxes.add(obj.a[1])
    def exit(self, eng, st):
        if ('kept',) not in st.facts: self.missing.append(eng.root_func)


class Any(Rule):
    def __init__(self, boxes): self.boxes = boxes; self.missing = []
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is not None: return
        # the value as a formula over 'box is empty'
        def value(t, emp):
            if t.k == 'i': return bool(t.a[0])
            if t.k == '!': x = value(t.a[0], emp); return None if x is None else not x
            if t.k in ('&&', '||'):
                x, y = value(t.a[0], emp), value(t.a[1], emp)
                d = t.k == '||'
                if x is d or y is d: return d
                return None if x is None or y is None else not d
            if t.k == 'call' and t.a[1] is not None and t.a[1].k == 'fld' and t.a[1].a[1] in emp:
                nm = t.a[0].split('::')[-1]
                if nm == 'empty': return emp[t.a[1].a[1]]
                if nm == 'size': return not emp[t.a[1].a[1]]
            if t.k == '<' and t.a[0] is ZERO: return value(t.a[1], emp)
            return None
        for b in self.boxes:
            # only this one holds something, as far as the branches taken allow
            emp = {x: x != b for x in self.boxes}
            if any(value(c, emp) is (not x) for c, x in st.conds.items()): continue
            if value(val, emp) is not True: self.missing.append((fr.f.loc(nid), b))
        emp = {x: True for x in self.boxes}
        if not any(value(c, emp) is (not x) for c, x in st.conds.items()) and value(val, emp) is not False: self.missing.append((fr.f.loc(nid), None))


def results(cx):
    p = cx.prog
    adds = Adds()
    eng = cx.engine(adds)
    fs = [f for f in p.funcs.values() if f.cls == RESULT and f.cfg and f.name in ('AddError', 'AddSchemaError')]
    cx.need(fs, 'functions adding errors to a result', 2)
    for f in fs: eng.run(f)
    for f in adds.missing: cx.bad('result:K4:%s' % fn_key(f), f.loc(), 'K4: %s can return without keeping the error' % fn_key(f))
    cx.finish_engine(eng, 'results')
    er = [f for f in p.funcs.values() if f.q == RESULT + '::Error' and f.cfg]
    cx.need(er, 'test for errors', 1)
    rule = Any(sorted(adds.boxes))
    eng = cx.engine(rule)
    for f in er: eng.run(f)
    cx.finish_engine(eng, 'results')
    for where, b in rule.missing: cx.bad('result:K4:Error:%s' % (b or 'none'), where, 'K4: Error() does not report %s' % ('errors kept in ' + b if b else 'that there are no errors'))


def written(p, c, m):
    q = '%s::%s' % (c['q'], m)
    for f in p.funcs.values():
        for i, n in enumerate(f.nodes):
            if not n or n['k'] != 'MemberExpr' or n.get('mq') != q: continue
            a = f.par[i]
            while a is not None and a >= 0 and f.nodes[a]['k'] in ('ParenExpr', 'MemberExpr'): i, a = a, f.par[a]
            b = f.nodes[a] if a is not None and a >= 0 else None
            if b and (b['k'] in ('BinaryOperator', 'CompoundAssignOperator') and b['op'].endswith('=') and b['op'] not in ('==', '!=', '<=', '>=') and b['c'][0] == i or b['k'] == 'UnaryOperator' and b['op'].strip('post') in ('++', '--')
                      or 'args' in b and not b.get('cm') and (b.get('obj') == i)): return True
    return False


def check(cx):
    p = cx.prog
    pub = [f for f in p.funcs.values() if f.q == 'libvariant::SchemaValidate' and f.cfg and f.params and 'Variant' in f.params[0]['t']]
    cx.need(pub, 'validation entry point', 1)
    inner = {n['fn'] for f in pub for _, n in f.calls() if n.get('fn') in p.funcs and len(n['args']) == 3 and (n['pt'][0].endswith('&')) and 'Variant' in n['pt'][1] and 'Variant' in n['pt'][2]}
    cx.need(inner, 'recursive validation routine', 1)
    entry = p.funcs[sorted(inner)[0]]
    # what a reported error is thrown as
    rep = [f for f in p.funcs.values() if f.cfg and f.cls != RESULT and any(n.get('fq') == RESULT + '::AddError' for _, n in f.calls())]
    stops = {n.get('tt') for f in rep for n in f.nodes if n and n['k'] == 'CXXThrowExpr'} - {None}
    cx.need(rep, 'functions reporting validation errors', 1)
    entrance(cx, pub, entry, stops)
    # what a pattern matches is what the text says
    for f in p.funcs.values():
        for i, n in f.calls() if f.cfg and f.file == entry.file else ():
            if (n.get('fq') or '') != 'regcomp' or len(n['args']) != 3: continue
            cv = f.nodes[n['args'][2]].get('cv', f.nodes[f.strip(n['args'][2])].get('cv'))
            cx.count('compiled patterns')
            if cv is not None and int(cv) & ~REG_NOSUB != REG_EXTENDED: cx.bad('%s:K2:pattern-flags' % short(f.q), f.loc(i), 'K2: the pattern is compiled as something other than a plain extended expression')
    results(cx)
    # members only their constructors write
    local = [c for c in p.classes.values() if c['file'].endswith(entry.file) or entry.file.endswith(c['file'])]
    keep = ('first', 'second') + tuple(x['n'] for c in local for x in c['fields'] if not written(p, c, x['n']))
    ends = errs = steps = 0
    for s in specs():
        rule = Keyword(cx, s, entry, stops)
        rule.keep = keep
        eng = cx.engine(rule)
        eng.run(entry)
        cx.finish_engine(eng, 'validator, per keyword')
        ends += rule.ends; errs += rule.errs; steps += rule.steps
        if not rule.ends: raise AnalysisBroken('no path of keyword %s ends' % s.name)
        for k, (where, msg) in sorted(rule.found.items()): cx.bad(k, where, msg)
    near, pairs = beside(p, entry), 0
    for s in specs():
        for o in sorted(set().union(*[near.get(k, ()) for k in s.keys]) - set(s.keys)):
            if s.name == 'divisibleBy' and o == 'multipleOf': continue   # the older name of the same keyword
            rule = Beside(cx, s, entry, stops, o)
            rule.keep = keep
            eng = cx.engine(rule)
            eng.run(entry)
            cx.finish_engine(eng, 'validator, pairs of keywords')
            pairs += 1
            for k, (where, msg) in sorted(rule.found.items()): cx.bad(k, where, msg)
    cx.count('pairs of keywords', pairs)
    found = {}
    for kind in Asked.KINDS:
        rule = Asked(cx, entry, stops, specs(), kind)
        rule.keep = keep
        eng = cx.engine(rule)
        eng.run(entry)
        cx.finish_engine(eng, 'validator, all keywords')
        if not rule.ends: raise AnalysisBroken('no path through the validator ends')
        for k, x in rule.found.items(): found.setdefault(k, x)
    for k, (where, msg) in sorted(found.items()): cx.bad(k, where, msg)
    cx.count('keywords', len(specs())); cx.count('accepting paths', ends); cx.count('reported errors', errs); cx.count('loop steps', steps)
