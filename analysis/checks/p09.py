from checks.common import *

EXPLAIN = ('Event kinds are derived from the overload a call resolves to (Emit(double) is a float event, Emit(intmax_t) an integer event, and so on). Every '
           'function that turns values, buffered events or library callbacks into events is explored on all paths; at each event the kind is compared with '
           'the kind the path has established (type test, selector constant, parameter type), and no path may return without its event.')
TECH = 'path-sensitive correspondence analysis between type/selector tests and resolved event overloads'
NOTE = 'All translation units that produce or consume events. The msgpack back end is not part of this build.'
RULE = ('D1 under an established value type only events of that type are emitted and one is; D2 a forwarding method forwards exactly its own event with its own '
        'argument; D3 the event buffer records and replays the same kind with the same payload member; D4 parser selectors produce their table kind; D5 the '
        'document builder makes a value of the event\'s kind; D6 a table of type names has one distinct name per type; D7 a loop over a container writes every element; D8 only plain untagged text is guessed at, quoted text stays text.')

INTS = {'char', 'short', 'int', 'long', 'long long', 'signed char'}
UINTS = {'unsigned ' + x for x in ('char', 'short', 'int', 'long', 'long long')}
SCALARS = {'null', 'bool', 'int', 'uint', 'float', 'string', 'blob'}
STRUCT = {'BeginDocument', 'EndDocument', 'BeginMap', 'EndMap', 'BeginList', 'EndList', 'Alias'}
VTYPE = {'NullType': {'null'}, 'BoolType': {'bool'}, 'IntegerType': {'int'}, 'UnsignedType': {'uint'}, 'FloatType': {'float'}, 'StringType': {'string'},
         'ListType': {'list', 'BeginList'}, 'MapType': {'map', 'BeginMap'}, 'BlobType': {'blob'}}
CLOSE = {'BeginMap': 'EndMap', 'BeginList': 'EndList'}
ISX = {'IsNull': 'NullType', 'IsBool': 'BoolType', 'IsTrue': 'BoolType', 'IsFalse': 'BoolType', 'IsInt': 'IntegerType', 'IsUnsigned': 'UnsignedType', 'IsFloat': 'FloatType',
       'IsString': 'StringType', 'IsList': 'ListType', 'IsMap': 'MapType', 'IsBlob': 'BlobType'}
EVTYPE = {'BEGIN_DOCUMENT': 'BeginDocument', 'END_DOCUMENT': 'EndDocument', 'BEGIN_MAP': 'BeginMap', 'END_MAP': 'EndMap', 'BEGIN_LIST': 'BeginList', 'END_LIST': 'EndList',
          'SCALAR_NULL': 'null', 'SCALAR_BOOL': 'bool', 'SCALAR_STRING': 'string', 'SCALAR_INT': 'int', 'SCALAR_UINT': 'uint', 'SCALAR_FLOAT': 'float', 'SCALAR_BLOB': 'blob'}
# what a back end's selector constant stands for: allowed kinds
SELECT = {'JSON_T_ARRAY_BEGIN': {'BeginList'}, 'JSON_T_ARRAY_END': {'EndList'}, 'JSON_T_OBJECT_BEGIN': {'BeginMap'}, 'JSON_T_OBJECT_END': {'EndMap'},
          'JSON_T_INTEGER': {'int'}, 'JSON_T_UNSIGNED': {'uint'}, 'JSON_T_FLOAT': {'float'}, 'JSON_T_NULL': {'null'}, 'JSON_T_TRUE': {'true'}, 'JSON_T_FALSE': {'false'},
          'JSON_T_STRING': {'string', 'blob'}, 'JSON_T_KEY': {'string'},
          'YAML_DOCUMENT_START_EVENT': {'BeginDocument'}, 'YAML_DOCUMENT_END_EVENT': {'EndDocument'}, 'YAML_ALIAS_EVENT': {'Alias'},
          'YAML_SCALAR_EVENT': SCALARS | {'true', 'false'}, 'YAML_SEQUENCE_START_EVENT': {'BeginList'}, 'YAML_SEQUENCE_END_EVENT': {'EndList'},
          'YAML_MAPPING_START_EVENT': {'BeginMap'}, 'YAML_MAPPING_END_EVENT': {'EndMap'},
          'NullNode': {'null'}, 'RootNode': {'BeginDocument', 'EndDocument'}, 'TrueNode': {'true'}, 'FalseNode': {'false'}, 'IntegerNode': {'int', 'uint'},
          'FloatNode': {'float'}, 'StringNode': {'string'}, 'KeyNode': {'string'}, 'BlobNode': {'blob'}, 'MapNode': {'BeginMap', 'EndMap'}, 'ListNode': {'BeginList', 'EndList'},
          'EmptyMapNode': {'EndMap'}, 'EmptyListNode': {'EndList'}}
# selectors that legitimately produce no event on some path: the text event was delivered before the closing tag
QUIET = {'StringNode', 'KeyNode', 'BlobNode'}


def bare(t):
    t = t.replace('const ', '').rstrip('&* ').strip()
    return t


def kind_of_type(t):
    b = bare(t)
    if 'shared_ptr' in b and 'Blob' in b: return 'blob'
    if b.startswith('std::basic_string') or (b == 'char' and '*' in t): return 'string'
    if '*' in t: return None
    if b == 'bool': return 'bool'
    if b in INTS: return 'int'
    if b in UINTS: return 'uint'
    if b in ('float', 'double', 'long double'): return 'float'
    if b.startswith('std::vector'): return 'list'
    if b.startswith('std::map'): return 'map'
    if b == VARIANT or b.startswith('libvariant::VariantRefImpl'): return 'any'
    return None


class Fam:
    """the classes whose methods are events"""
    def __init__(self, cx):
        p = cx.prog
        for c in ('libvariant::EmitterImpl', 'libvariant::ParserActions', 'libvariant::Emitter'):
            if c not in p.classes: raise AnalysisBroken('%s not found' % c)
        self.emit = {'libvariant::EmitterImpl', 'libvariant::Emitter'} | p.subclasses('libvariant::EmitterImpl')
        self.act = {'libvariant::ParserActions'} | p.subclasses('libvariant::ParserActions')

    def method_kind(self, cls, name, pts):
        if cls in self.emit:
            if name in STRUCT: return name
            if name == 'EmitNull': return 'null'
            if name == 'EmitTrue': return 'true'
            if name == 'EmitFalse': return 'false'
            if name == 'Emit' and len(pts) == 1: return kind_of_type(pts[0])
        elif cls in self.act:
            if name in STRUCT: return name
            if name == 'Null': return 'null'
            if name == 'Scalar' and len(pts) >= 2: return kind_of_type(pts[1])
        return None

    def call_kind(self, n, args):
        """kind of event a call produces and its payload"""
        fq = n.get('fq', '')
        name = fq.split('::')[-1]
        cls = n.get('cls')
        if cls in self.emit or cls in self.act:
            k = self.method_kind(cls, name, n.get('pt', []))
            if k is None: return None
            pay = None
            if cls in self.emit and name == 'Emit': pay = args[0]
            if cls in self.act and name == 'Scalar': pay = args[1]
            if k == 'bool' and pay is not None and pay.k == 'i': k = 'true' if pay.a[0] else 'false'
            return k, pay
        if name.startswith('operator<<') and len(n.get('pt', [])) == 2 and bare(n['pt'][0]) == 'libvariant::Emitter':
            k = kind_of_type(n['pt'][1])
            return (k, args[-1]) if k else None
        return None


class Ev(Rule):
    """records the events of one function; consumers look at them at exit"""
    inline_depth = 2
    max_states = 24
    accessors = ('TopAction', 'AsList', 'AsMap')
    def __init__(self, cx, fam):
        self.cx, self.fam = cx, fam

    def inline(self, eng, st, fr, nid, n, g):
        if self.fam.call_kind(n, [T('any')] * 9) is not None or n.get('fn') in self.must: return False
        return g.q.startswith(NS) and is_helper(self.cx, g) and len(g.nodes) < 300 or g.cls in self.extra
    extra = ()
    must = ()

    def event(self, eng, st, fr, nid, n, obj, k, pay):
        if not any(t[0] == 'first' for t in st.facts): st.add(('first', k, (fr.f.loc(nid),)))
        st.drop(lambda t: t[0] == 'last')
        st.add(('last', k, pay))
        st.add(('ev', k))

    def own(self, fr, obj):
        return False

    def call(self, eng, st, fr, nid, n, obj, args):
        if n.get('fn') in self.must:
            # a dispatcher called on a part of the value
            vs = [a for a, t in zip(args, n.get('pt', [])) if bare(t) == VARIANT]
            if vs: self.event(eng, st, fr, nid, n, obj, 'any', vs[0]); return
        r = self.fam.call_kind(n, args)
        if r is None or r[0] is None: return
        if obj is not None and self.own(fr, obj): return
        self.cx.count('event calls visited')
        self.event(eng, st, fr, nid, n, obj, r[0], r[1])


def sources(st, t):
    """parameters a value is computed from, looking through locals"""
    seen, todo, out = set(), [orig(t)], set()
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y.k == 'p': out.add(y.a[0])
            elif y.k == 'var' and y not in seen:
                seen.add(y)
                if y in st.mem: todo.append(orig(st.mem[y]))
    return out


def norm(k):
    return 'bool' if k in ('true', 'false') else k


class Dispatch(Ev):
    """D1: functions that test the type of a value and emit"""
    def types_of(self, st):
        """value term -> set of possible type names"""
        out = {}
        allt = set(self.tn.values())
        for c, v in st.conds.items():
            if c.k == '==' and c.a[1].k == 'i' and c.a[0].k == 'call' and c.a[0].a[0].endswith('::GetType') and c.a[0].a[1] is not None:
                s = out.setdefault(c.a[0].a[1], set(allt))
                nm = self.tn.get(c.a[1].a[0])
                if nm: s &= {nm} if v else allt - {nm}
            else:
                w, pos = (c, v)
                if w.k == 'call' and w.a[0].split('::')[-1] == 'GetType' and w.a[1] is not None:
                    # NullType is the zero enumerator
                    z = self.tn.get(0)
                    if z:
                        s = out.setdefault(w.a[1], set(allt))
                        s &= (allt - {z}) if v else {z}
                    continue
                if w.k == 'call' and w.a[1] is not None:
                    nm = ISX.get(w.a[0].split('::')[-1])
                    if nm and w.a[0].startswith(NS):
                        s = out.setdefault(w.a[1], set(allt))
                        if v: s &= {nm}
                        elif w.a[0].split('::')[-1] not in ('IsTrue', 'IsFalse'): s -= {nm}
        return out

    def about(self, pay, v):
        return pay is not None and mentions(pay, lambda x: x is v)

    def event(self, eng, st, fr, nid, n, obj, k, pay):
        f = fr.f
        ty = self.types_of(st)
        first = not any(t[0] == 'first' for t in st.facts)
        for v, poss in ty.items():
            if len(poss) == len(self.tn): continue
            if k in ('BeginDocument', 'EndDocument'): continue
            if k in STRUCT or k in ('null', 'true', 'false'):
                # without payload: judged when it is the first event for a parameter
                if not (first and orig(v).k in ('p', '*')): continue
            elif not self.about(pay, v): continue
            elif pay is not None and not (pay is v or pay.k == 'call' and pay.a[1] is v): continue
            if k == 'any': continue
            self.cx.count('typed events')

            for t in sorted(poss):
                ok = VTYPE.get(t, set())
                if norm(k) not in ok:
                    self.cx.bad('dispatch|%s|%s|%s' % (fn_key(f), t, k), f.loc(nid), '%s: a value of %s is written as a %s event' % (short(f.q), t, k))
            if k in ('true', 'false'):
                pol = None
                for c, b in st.conds.items():
                    if c.k == 'call' and c.a[0].split('::')[-1] in ('AsBool', 'IsTrue') and c.a[1] is v: pol = b
                    if c.k == 'call' and c.a[0].split('::')[-1] == 'IsFalse' and c.a[1] is v: pol = not b
                if pol is None or pol != (k == 'true'):
                    self.cx.bad('polarity|%s|%s' % (fn_key(f), k), f.loc(nid), '%s: a %s event is not tied to the truth value being %s' % (short(f.q), k, k))
        if pay is not None and 'second' in tstr(pay)[-30:] and k != 'string':
            pass
        if k in CLOSE: st.add(('open', CLOSE[k], (fr.uid, nid)))
        elif k in CLOSE.values():
            o = [t for t in st.facts if t[0] == 'open']
            if not any(t[1] == k for t in o):
                self.cx.bad('close|%s|%s' % (fn_key(f), k), f.loc(nid), '%s: %s without the matching start' % (short(f.q), k))
            st.drop(lambda t: t[0] == 'open' and t[1] == k and t[2][0] == fr.uid)
        super().event(eng, st, fr, nid, n, obj, k, pay)

    def exit(self, eng, st):
        f = eng.root_func
        for t in st.facts:
            if t[0] == 'open':
                self.cx.bad('unclosed|%s|%s' % (fn_key(f), t[1]), f.loc(), '%s: returns without %s' % (short(f.q), t[1]))
        if f.id in self.must and any(t[0] == 'first' for t in st.facts):
            for poss in self.types_of(st).values(): self.wrote.setdefault(f.id, set()).update(poss)
        if f.id in self.must and not any(t[0] == 'first' for t in st.facts):
            ty = self.types_of(st)
            names = sorted(set().union(*ty.values())) if ty else []
            self.cx.bad('dropped|%s|%s' % (fn_key(f), ','.join(names) if len(names) < 9 else ''), f.loc(), '%s: a path returns without writing the value%s' % (short(f.q), ' (%s)' % ','.join(names) if names and len(names) < 9 else ''))
        self.cx.count('dispatch paths')


class Elements(Ev):
    """D7: a loop over the elements of a container writes every one of them"""
    def it(self, t):
        return isinstance(t, str) and 'iterator' in t.lower() and 'libvariant::Variant' in t and 'PathElement' not in t
    def event(self, eng, st, fr, nid, n, obj, k, pay): pass
    def call(self, eng, st, fr, nid, n, obj, args):
        super().call(eng, st, fr, nid, n, obj, args)
        nm = n.get('fq', '').split('::')[-1]
        if nm == 'operator++' and n.get('obj') is not None:
            f = fr.f
            o = f.strip(n['obj'])
            if f.nodes[o]['k'] != 'DeclRefExpr' or not self.it(f.nodes[o].get('t')): return
            self.cx.count('element steps')
            d = f.nodes[o]['d']
            if not any(t == ('did', fr.uid, d) for t in st.facts) and ('payload',) not in st.facts:
                self.cx.bad('element|%s' % fn_key(f), f.loc(nid), '%s: an element of the container can be passed over without being written' % short(f.q))
            st.drop(lambda t: t == ('did', fr.uid, d) or t == ('payload',))
            return
        if n.get('fn') in self.must or self.fam.call_kind(n, args) is not None:
            f = fr.f
            for i in n.get('args', ()):
                for j in f.walk(i):
                    m = f.nodes[j]
                    if m and m['k'] == 'DeclRefExpr' and self.it(m.get('t')): st.add(('did', fr.uid, m['d']))
    def branch(self, eng, st, fr, cond, val, term, nid):
        # the payload itself is written after the document
        if any(v and (c.k == '==' or c.k == 'call' and c.a[0].split('::')[-1] == 'operator==') and mentions(c, lambda t: t.k == 'fld' and t.a[1].endswith('end')) for c, v in st.conds.items()):
            st.add(('payload',))


class Forward(Ev):
    """D2: one event in, the same event out"""
    def own(self, fr, obj):
        return False

    def event(self, eng, st, fr, nid, n, obj, k, pay):
        f = eng.root_func
        want = self.want
        self.hit = True
        exact = {want} if want not in ('bool',) else {'bool', 'true', 'false'}
        if any(t[0] == 'first' for t in st.facts):
            if want not in ('list', 'map'):
                self.cx.bad('twice|%s' % fn_key(f), fr.f.loc(nid), '%s: more than one event for one %s event' % (short(f.q), want))
        elif want in ('list', 'map'):
            if k != {'list': 'BeginList', 'map': 'BeginMap'}[want]:
                self.cx.bad('forward|%s|%s' % (fn_key(f), k), fr.f.loc(nid), '%s: starts with %s' % (short(f.q), k))
        elif k not in exact:
            self.cx.bad('forward|%s|%s' % (fn_key(f), k), fr.f.loc(nid), '%s: a %s event is passed on as %s' % (short(f.q), want, k))
        if pay is not None and k in SCALARS and want in SCALARS:
            if self.pidx not in sources(st, pay):
                self.cx.bad('payload|%s' % fn_key(f), fr.f.loc(nid), '%s: passes on %s instead of its own argument' % (short(f.q), tstr(pay)))
        if want == 'bool' and k in ('true', 'false'):
            pol = None
            for c, b in st.conds.items():
                if c.k == 'p' and c.a[0] == self.pidx: pol = b
                if c.k == '==' and c.a[0].k == 'p' and c.a[0].a[0] == self.pidx and c.a[1].k == 'i': pol = b if c.a[1].a[0] else not b
            if pol is not (k == 'true'):
                self.cx.bad('polarity|%s|%s' % (fn_key(f), k), fr.f.loc(nid), '%s: passes on %s without the argument being %s' % (short(f.q), k, k))
        if want == 'map' and k == 'any':
            last = [t for t in st.facts if t[0] == 'last']
            if not any(t[1] == 'string' for t in last):
                self.cx.bad('keyless|%s' % fn_key(f), fr.f.loc(nid), '%s: a map value is written without its key before it' % short(f.q))
        super().event(eng, st, fr, nid, n, obj, k, pay)

    def exit(self, eng, st):
        f = eng.root_func
        self.ends.append((bool([t for t in st.facts if t[0] == 'first']), [t[1] for t in st.facts if t[0] == 'last']))


class Replay(Ev):
    """D3: Event::Fire"""
    def event(self, eng, st, fr, nid, n, obj, k, pay):
        f = fr.f
        sel = [c.a[1].a[0] for c, v in st.conds.items() if v and c.k == '==' and c.a[1].k == 'i' and c.a[0].k == 'fld' and c.a[0].a[1] == self.field]
        if not sel:
            self.cx.bad('replay|untyped|%s' % k, f.loc(nid), '%s: %s event fired without testing the recorded kind' % (short(f.q), k))
        for s in sel:
            nm = self.en.get(s)
            want = EVTYPE.get(nm)
            if norm(k) != want:
                self.cx.bad('replay|%s|%s' % (nm, k), f.loc(nid), '%s: recorded %s is replayed as %s' % (short(f.q), nm, k))
            self.cx.count('replayed kinds')
            self.seen.add(nm)
            if k in SCALARS and pay is not None:
                r = {x.a[1] for x in subterms(pay) if x.k == 'fld'}
                w = self.written.get(want, set())
                if w and not (r & w):
                    self.cx.bad('member|%s' % nm, f.loc(nid), '%s: replays %s from %s, which was recorded in %s' % (short(f.q), nm, '/'.join(sorted(r - {'val'})), '/'.join(sorted(w - {'val'}))))
        super().event(eng, st, fr, nid, n, obj, k, pay)

    def exit(self, eng, st):
        f = eng.root_func
        if not any(t[0] == 'ev' for t in st.facts):
            self.cx.bad('replay|silent', f.loc(), '%s: a recorded event can be replayed as nothing' % short(f.q))


class Record(Rule):
    """D3: what each buffer method appends"""
    inline_depth = 3
    def inline(self, eng, st, fr, nid, n, g):
        return g.cls in (self.evc, self.buf)
    def assign(self, eng, st, fr, nid, loc, val):
        if loc.k == 'fld' and loc.a[1] == self.field: st.add(('type', val))
        if loc.k == 'fld' and fr.f.cls == self.evc and fr.f.kind == 'ctor': st.add(('w', loc.a[1], val))
    def call(self, eng, st, fr, nid, n, obj, args):
        nm = n.get('fq', '').split('::')[-1]
        if nm in ('push_back', 'emplace_back') and n.get('sys'): st.add(('pushed', 1))
        elif nm in ('push_front', 'insert') and n.get('sys') and self.evc in n.get('fq', ''): st.add(('front', 1))
    def exit(self, eng, st):
        f = eng.root_func
        ty = [t[1] for t in st.facts if t[0] == 'type']
        if not any(t[0] == 'pushed' for t in st.facts) or not ty:
            self.cx.bad('record|%s|none' % fn_key(f), f.loc(), '%s: a path buffers nothing' % short(f.q)); return
        for t in ty:
            nm = self.en.get(t.a[0]) if t.k == 'i' else None
            if EVTYPE.get(nm) != norm(self.want):
                self.cx.bad('record|%s' % fn_key(f), f.loc(), '%s: buffered as %s' % (short(f.q), nm or tstr(t)))
        self.cx.count('recorded kinds')
        for t in st.facts:
            if t[0] == 'w' and self.want in SCALARS and mentions(orig(t[2]), lambda x: x.k == 'p'): self.written.setdefault(self.want, set()).add(t[1])
            if t[0] == 'w' and self.want in ('true', 'false') and t[2].k == 'i' and t[1] not in (self.field, 'key', 'len', 'parent'):
                self.written.setdefault('bool', set()).add(t[1])
                if bool(t[2].a[0]) != (self.want == 'true'):
                    self.cx.bad('record|%s|value' % fn_key(f), f.loc(), '%s: buffers the value %s' % (short(f.q), tstr(t[2])))


class Select(Ev):
    """D4: parser back ends"""
    indirect = True
    def names(self, st, fr):
        return {t[1] for t in st.facts if t[0] == 'sel'}

    def branch(self, eng, st, fr, cond, val, term, nid):
        tab = self.consts(fr.f)
        types = self.seltypes(fr.f, term, nid)
        # the latest test of a selector decides
        if types: st.drop(lambda t: t[0] == 'sel' and self.prefix(t[1]) in types)
        k = None
        if isinstance(val, bool):
            if val and cond.k == '==' and cond.a[1].k == 'i': k = cond.a[1].a[0]
        elif val is not None: k = val
        if k is None: return
        for typ in types:
            nm = tab.get((typ, k))
            if nm in SELECT: st.add(('sel', nm))

    def quiet(self):
        # what says that the text was delivered before cannot also say that it was not
        for i, l in self.kept.items():
            f = self.cx.prog.funcs[i]
            told = self.told.get(i, set())
            told = {(c, v) for c, v in told if (c, not v) not in told}
            for s, flags in l:
                if flags & told: self.cx.bad('silent|%s|%s' % (fn_key(f), s), f.loc(), '%s: %s can pass without an event though %s' % (short(f.q), s, ', '.join(sorted('%s is %s' % (tstr(c), str(v).lower()) for c, v in flags & told))))
    def consts(self, f):
        r = getattr(self, '_consts', None)
        if r is None:
            r = {}
            for g in self.cx.prog.funcs.values():
                for n in g.nodes:
                    if n and n['k'] == 'DeclRefExpr' and n.get('dk') == 'EnumConstant' and n.get('cv') is not None:
                        r[(self.prefix(n['dn']), int(n['cv']))] = n['dn']
            for q, e in self.cx.prog.enums.items():
                for x in e['e']: r[(self.prefix(x['n']), int(x['v']))] = x['n']
            self._consts = r
        return r

    def prefix(self, nm):
        if nm.startswith('JSON_T_'): return 'json'
        if nm.startswith('YAML_') and nm.endswith('_EVENT'): return 'yaml'
        if nm.endswith('Node'): return 'xml'
        return '-'

    def seltypes(self, f, term, nid):
        """which selector vocabulary does this condition speak about"""
        c = getattr(f, '_selt', None)
        if c is None: c = f._selt = {}
        key = (term, nid)
        if key in c: return c[key]
        out = set()
        def scan(i):
            for j in f.walk(i):
                n = f.nodes[j]
                if n['k'] == 'DeclRefExpr' and n.get('dk') == 'EnumConstant': out.add(self.prefix(n['dn']))
        if term is not None and f.nodes[term]['k'] == 'SwitchStmt':
            for j in f.walk(term):
                if f.nodes[j]['k'] == 'CaseStmt':
                    own = [a for a in f.ancestors(j) if f.nodes[a]['k'] == 'SwitchStmt'][0]
                    if own == term:
                        for d in f.nodes[j]['c'][:1]: scan(d)
        else: scan(nid)
        out.discard('-')
        c[key] = out
        return out

    def event(self, eng, st, fr, nid, n, obj, k, pay):
        f = fr.f
        for s in self.names(st, fr):
            allow = SELECT[s]
            kk = {k} if k != 'bool' else {'bool', 'true', 'false'}
            if not (kk & allow):
                self.cx.bad('select|%s|%s|%s' % (fn_key(eng.root_func), s, k), f.loc(nid), '%s: %s produces a %s event' % (short(f.q), s, k))
            self.cx.count('selected events')
            self.made.setdefault(s, set()).add(k)
        super().event(eng, st, fr, nid, n, obj, k, pay)

    def call(self, eng, st, fr, nid, n, obj, args):
        # an action object handed to another function of the library: whatever it emits
        if n.get('fn') in self.cx.prog.funcs and any('libvariant::ParserActions *' == t for t in n.get('pt', [])) and self.fam.call_kind(n, [None] * 9) is None:
            if not self.inline(eng, st, fr, nid, n, self.cx.prog.funcs[n['fn']]):
                if self.indirect:
                    for s in self.names(st, fr): self.made.setdefault(s, set()).update(SELECT[s] & SCALARS)
                st.add(('ev', '*'))
        super().call(eng, st, fr, nid, n, obj, args)

    def exit(self, eng, st):
        f = eng.root_func
        flags = {(c, v) for c, v in st.conds.items() if c.k == 'fld'}
        if any(t[0] == 'ev' for t in st.facts):
            if any(s in QUIET for s in self.names(st, None)): self.told.setdefault(f.id, set()).update(flags)
            return
        for s in self.names(st, None):
            if s in QUIET and flags: self.kept.setdefault(f.id, []).append((s, flags))
            if s in self.emits.get(f.id, ()):
                if s in QUIET and flags: continue
                self.cx.bad('silent|%s|%s' % (fn_key(f), s), f.loc(), '%s: %s can pass without an event' % (short(f.q), s))


class Build(Rule):
    """D5: the document builder"""
    inline_depth = 0
    def inline(self, eng, st, fr, nid, n, g): return False
    def call(self, eng, st, fr, nid, n, obj, args):
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and n.get('cls') == VARIANT and not n.get('copy') and not n.get('move'):
            pt = n.get('pt', [])
            if not pt: st.add(('made', 'null', None))
            elif pt[0].endswith('::Type_t'):
                nm = self.tn.get(args[0].a[0]) if args[0].k == 'i' else None
                st.add(('made', {'NullType': 'null', 'ListType': 'list', 'MapType': 'map'}.get(nm, nm), None))
            else: st.add(('made', kind_of_type(pt[0]), args[0]))
    def exit(self, eng, st):
        f = eng.root_func
        m = [t for t in st.facts if t[0] == 'made']
        self.cx.count('values built')
        if not m:
            self.cx.bad('build|%s|none' % fn_key(f), f.loc(), '%s: a path makes no value from the event' % short(f.q)); return
        for t in m:
            if t[1] != self.want:
                self.cx.bad('build|%s' % fn_key(f), f.loc(), '%s: a %s event becomes a %s value' % (short(f.q), self.want, t[1]))
            elif self.want != 'null':
                need = {1} if self.want != 'string' else {1, 2}
                got = sources(st, t[2])
                if not need <= got:
                    self.cx.bad('build|%s|payload' % fn_key(f), f.loc(), '%s: the value is made from %s' % (short(f.q), tstr(t[2])))


def check(cx):
    p = cx.prog
    fam = Fam(cx)
    te = [e for q, e in p.enums.items() if q.endswith('::Type_t') and any(x['n'] == 'NullType' for x in e['e'])]
    cx.need(te, 'value type enumeration')
    tn = {int(x['v']): x['n'] for x in te[0]['e']}
    for v in tn.values():
        if v not in VTYPE: raise AnalysisBroken('unknown value type %s' % v)
    allf = sorted((f for f in p.funcs.values() if f.cfg), key=lambda f: (f.file, f.line, f.id))
    isev = lambda n: n and n.get('fq') and fam.call_kind(n, [T('any')] * 9 if len(n.get('pt', [])) != 2 else [T('any')] * 2) is not None

    # D7
    disp = {f.id for f in allf if any(bare(q['t']) == VARIANT for q in f.params) and any(isev(n) for n in f.nodes)}
    for f in allf:
        if f.q.startswith(NS) and any(isev(n) or n and n.get('fn') in disp for n in f.nodes) and any(n and n.get('fq', '').split('::')[-1] == 'operator++' for n in f.nodes):
            r = Elements(cx, fam); r.must = disp
            e = cx.engine(r); e.run(f)
    cx.need(cx.counts.get('element steps', 0), 'steps over container elements', 2)

    # D2 forwarders
    fw = 0
    evbuf = 'libvariant::EventBuffer'
    for f in allf:
        k = None; pidx = None
        if f.cls in fam.emit or f.cls in fam.act:
            if f.kind != 'method' or f.cls == evbuf: continue
            k = fam.method_kind(f.cls, f.name, [x['t'] for x in f.params])
            pidx = 0 if f.cls in fam.emit else 1
        elif f.name == 'operator<<' and len(f.params) == 2 and bare(f.params[0]['t']) == 'libvariant::Emitter':
            k = kind_of_type(f.params[1]['t']); pidx = 1
        if k is None or k == 'any': continue
        r = Forward(cx, fam); r.want = k; r.pidx = pidx; r.hit = False; r.ends = []
        own_cls = f.cls
        if own_cls in fam.emit and own_cls not in ('libvariant::Emitter',) or own_cls in fam.act and own_cls != 'libvariant::EmitterParserActions':
            # formats write bytes themselves; only calls on other emitters count
            r.own = lambda fr, o: o is THIS or o.k == '*' and o.a[0] is THIS or root(o) is THIS and o.k != 'fld'
        e = cx.engine(r); e.run(f)
        cx.count('event methods explored')
        if r.hit:
            fw += 1
            for ok, last in r.ends:
                if not ok: cx.bad('swallow|%s' % fn_key(f), f.loc(), '%s: a path passes no event on' % short(f.q))
                elif k in ('list', 'map') and last != [{'list': 'EndList', 'map': 'EndMap'}[k]]:
                    cx.bad('swallow|%s|end' % fn_key(f), f.loc(), '%s: does not end with %s' % (short(f.q), {'list': 'EndList', 'map': 'EndMap'}[k]))
        elif f.cls in ('libvariant::Emitter', 'libvariant::EmitterParserActions') or f.cls is None:
            if r.ends: cx.bad('swallow|%s' % fn_key(f), f.loc(), '%s: passes no event on' % short(f.q))
    cx.counts['forwarding methods'] = fw
    cx.need(fw, 'forwarding methods', 30)
    # every event has a handler in the forwarding adaptor
    for cls in sorted(fam.act):
        if cls != 'libvariant::EmitterParserActions': continue
        have = {fam.method_kind(cls, m['n'], m['pt']) for m in p.classes[cls]['methods']}
        for m in p.classes['libvariant::ParserActions']['methods']:
            k = fam.method_kind('libvariant::ParserActions', m['n'], m.get('pt', []))
            if k and k not in have:
                # the emitter interface has no counterpart for aliases: those raise
                if k == 'Alias': cx.count('events refused by the adaptor'); continue
                cx.bad('adaptor|%s' % k, p.classes[cls]['file'], '%s does not forward %s events' % (short(cls), k))
    for m in p.classes['libvariant::ParserActions']['methods']:
        k = fam.method_kind('libvariant::ParserActions', m['n'], m.get('pt', []))
        b = p.funcs.get(m['id'])
        if k and b is not None and b.cfg:
            cx.count('default handlers')
            class R(Rule):
                def exit(self, eng, st): cx.bad('default|%s' % fn_key(b), b.loc(), '%s: an unhandled event is ignored instead of raising' % short(b.q))
            cx.engine(R()).run(b)

    # D1 dispatchers
    r = Dispatch(cx, fam); r.tn = tn; r.must = set(); r.wrote = {}
    disp = []
    for f in allf:
        if f.cls in fam.emit | fam.act: continue
        if not any(isev(n) and n.get('cls') not in fam.act for n in f.nodes): continue
        if any(n and n.get('fq', '').endswith('::GetType') for n in f.nodes): r.must.add(f.id)
        disp.append(f)
    e = cx.engine(r)
    for f in disp:
        if is_helper(cx, f) and f.id in e.covered and f.id not in r.must: continue
        e.run(f)
    cx.finish_engine(e, 'dispatch')
    cx.need(r.must, 'value dispatchers', 2)
    for fid in sorted(r.must):
        f = p.funcs[fid]
        done = r.wrote.get(fid, set())
        if len(done) < 3: continue
        for t in sorted(set(VTYPE) - done):
            cx.bad('unhandled|%s|%s' % (fn_key(f), t), f.loc(), '%s: writes no event for a value of %s' % (short(f.q), t))
    cx.need(cx.counts.get('typed events', 0), 'typed events', 16)

    # D3 event buffer
    evc = evbuf + '::Event'
    if evc not in p.classes: raise AnalysisBroken('event record class not found')
    ef = [x['n'] for x in p.classes[evc]['fields'] if x['t'] == evbuf + '::EventType_t']
    cx.need(ef, 'recorded kind field')
    en = {int(x['v']): x['n'] for x in p.enums[evbuf + '::EventType_t']['e'] if x['n'] in EVTYPE}
    cx.need(en, 'event kinds', 13)
    written = {}
    for f in allf:
        if f.cls != evbuf or f.kind != 'method': continue
        k = fam.method_kind(evbuf, f.name, [x['t'] for x in f.params])
        if not k: continue
        r = Record(); r.cx = cx; r.evc = evc; r.buf = evbuf; r.field = ef[0]; r.en = en; r.want = k; r.written = written
        cx.engine(r).run(f)
    cx.need(cx.counts.get('recorded kinds', 0), 'recorded kinds', 14)
    seen = set()
    for f in allf:
        if f.cls != evc or f.kind != 'method' or not any(isev(n) for n in f.nodes): continue
        r = Replay(cx, fam); r.field = ef[0]; r.en = en; r.written = written; r.seen = seen
        cx.engine(r).run(f)
    cx.need(seen, 'replayed kinds')
    for nm in sorted(set(en.values()) - seen):
        cx.bad('replay|%s|missing' % nm, p.classes[evc]['file'], 'recorded %s events are never replayed' % nm)

    # D4 parser back ends
    made = {}
    sel = Select(cx, fam); sel.made = made; sel.emits = {}
    cand = []
    for f in allf:
        if f.cls in fam.emit | fam.act: continue
        cs = {n['dn'] for n in f.nodes if n and n['k'] == 'DeclRefExpr' and n.get('dk') == 'EnumConstant'} & set(SELECT)
        if cs and (any(isev(n) for n in f.nodes) or any(n and 'libvariant::ParserActions *' in n.get('pt', []) for n in f.nodes)): cand.append(f)
    cx.need(cand, 'parser selector functions', 4)
    # first pass: which selectors does each function turn into events
    for f in cand:
        r0 = Select(cx, fam); r0.made = {}; r0.told = {}; r0.kept = {}; r0.emits = {}; r0.cx = type('Q', (), dict(prog=cx.prog, eff=cx.eff, count=lambda *a: None, bad=lambda *a: None, _dc=direct_callers(cx)))()
        r0.inline = lambda *a: False; r0.indirect = False
        en2 = cx.engine(r0); en2.run(f)
        sel.emits[f.id] = set(r0.made)
    e = cx.engine(sel)
    sel.inline = lambda *a: False
    sel.told = {}; sel.kept = {}
    for f in cand: e.run(f)
    sel.quiet()
    cx.finish_engine(e, 'selectors')
    guessing(cx)
    cx.need(cx.counts.get('selected events', 0), 'selected events', 20)
    for s, ks in sorted(SELECT.items()):
        used = any(s == n.get('dn') for f in cand for n in f.nodes if n and n['k'] == 'DeclRefExpr')
        if not used and not any(s == x['n'] for en3 in p.enums.values() for x in en3['e']) and not s.startswith('YAML_'): continue
        need = ks if not (s.startswith('YAML_SCALAR')) else set()
        miss = need - made.get(s, set())
        if miss == need and s == 'YAML_SCALAR_EVENT': continue
        for k in sorted(miss):
            cx.bad('select|%s|%s|missing' % (s, k), cand[0].loc() if not used else next(f.loc() for f in cand if any(n and n.get('dn') == s for n in f.nodes)), '%s never produces a %s event' % (s, k))
        cx.count('selector constants')

    # D5 builder
    nb = 0
    for f in allf:
        if f.cls not in fam.act or f.cls in ('libvariant::ParserActions', 'libvariant::EmitterParserActions') or not (f.cls or '').startswith(NS): continue
        k = fam.method_kind(f.cls, f.name, [x['t'] for x in f.params])
        if k in SCALARS:
            r = Build(); r.cx = cx; r.want = k; r.tn = tn
            cx.engine(r).run(f); nb += 1
        elif k in CLOSE:
            cs = [n for n in f.nodes if n and n['k'] == 'CXXNewExpr']
            ok = False
            for n in cs:
                c = n.get('at')
                if c not in fam.act: continue
                has = any(m['n'] == CLOSE[k] for m in p.classes[c]['methods'])
                typ = {'BeginMap': 'MapType', 'BeginList': 'ListType'}[k]
                ct = any(x and x.get('dn') == typ for g in p.funcs.values() if g.cls == c and g.kind == 'ctor' for x in g.nodes)
                if not has: cx.bad('builder|%s|%s' % (k, short(c)), f.loc(), '%s installs %s, which does not handle %s' % (short(f.q), short(c), CLOSE[k]))
                if not ct: cx.bad('builder|%s|%s|type' % (k, short(c)), f.loc(), '%s installs %s, which does not start from an empty %s' % (short(f.q), short(c), typ))
                ok = True
            if not ok: cx.bad('builder|%s' % k, f.loc(), '%s installs no handler for the container' % short(f.q))
            class PA(Rule):
                def call(self, eng, st, fr, nid, n, obj, args):
                    if n.get('fq', '').endswith('::PushAction'): st.add(('pushed', 1))
                def exit(self, eng, st):
                    if ('pushed', 1) not in st.facts: cx.bad('builder|%s|push' % k, f.loc(), '%s: a path installs no handler' % short(f.q))
            cx.engine(PA()).run(f); nb += 1
    cx.need(nb, 'builder methods', 9)

    # D6 type names
    for f in allf:
        for i, n in enumerate(f.nodes):
            if not n or n['k'] != 'SwitchStmt': continue
            case = {}
            for j in f.walk(i):
                m = f.nodes[j]
                if m['k'] == 'CaseStmt':
                    refs = [f.nodes[x] for x in f.walk(m['c'][0]) if f.nodes[x]['k'] == 'DeclRefExpr' and f.nodes[x].get('dk') == 'EnumConstant' and f.nodes[x]['dn'] in VTYPE]
                    if refs:
                        # a case whose label is directly followed by another label shares its statement
                        lits = [f.nodes[x]['v'] for x in f.walk(j) if f.nodes[x]['k'] == 'StringLiteral']
                        case[refs[0]['dn']] = lits
            if len(case) >= 6 and all(len(v) == 1 for v in case.values()) and len({v[0] for v in case.values()}) >= 7:
                cx.count('type name tables')
                for t in sorted(VTYPE):
                    if t not in case: cx.bad('names|%s|%s' % (fn_key(f), t), f.loc(i), '%s: %s has no name' % (short(f.q), t))
                inv = {}
                for t, v in case.items(): inv.setdefault(v[0], []).append(t)
                for v, ts in inv.items():
                    if len(ts) > 1: cx.bad('names|%s|%s' % (fn_key(f), '+'.join(sorted(ts))), f.loc(i), '%s: %s share the name "%s"' % (short(f.q), ' and '.join(sorted(ts)), v))


class Guess(Rule):
    """D8: what a scalar looks like is guessed only where the document does not say that it is text"""
    max_states = 60
    inline_depth = 3
    STYLES = range(6)
    def __init__(self, cx, plain): self.cx = cx; self.plain = plain; self.seen = set(); self.found = {}
    def inline(self, eng, st, fr, nid, n, g): return is_helper(self.cx, g) and g.file == eng.root_func.file and g.name != 'GuessScalar'
    def which(self, t): return t.a[1] if t.k == 'fld' and t.a[1] in ('style', 'tag') else None
    def branch(self, eng, st, fr, cond, val, term, nid):
        c = cond
        while c.k == '!': c = c.a[0]; val = not val
        if term is not None and fr.f.nodes[term]['k'] == 'SwitchStmt':
            if self.which(c) == 'style':
                if val is None:
                    used = [int(n['lo']) for n in fr.f.nodes if n and n['k'] == 'CaseStmt' and 'lo' in n]
                    st.add(('style', tuple(x for x in self.STYLES if x not in used)))
                else: st.add(('style', (val,)))
            return
        if self.which(c) == 'tag': st.add(('tag', val))
        elif self.which(c) == 'style': st.add(('style', tuple(x for x in self.STYLES if bool(x) == val)))
        elif c.k in ('==', '<') and len(c.a) == 2 and any(x.k == 'i' for x in c.a) and any(self.which(x) == 'style' for x in c.a):
            def ev(x, v): return x.a[0] if x.k == 'i' else v
            st.add(('style', tuple(v for v in self.STYLES if ((ev(c.a[0], v) == ev(c.a[1], v)) if c.k == '==' else (ev(c.a[0], v) < ev(c.a[1], v))) == val)))
    def call(self, eng, st, fr, nid, n, obj, args):
        if (n.get('fq') or '').split('::')[-1] != 'GuessScalar': return
        f = fr.f
        self.seen.add(f.loc(nid))
        may = set(self.STYLES)
        for x in st.facts:
            if x[0] == 'style': may &= set(x[1])
        if not may <= set(self.plain): self.found['guess|%s' % fn_key(f)] = (f.loc(nid), 'D8: %s guesses at the kind of text that was quoted (scalar style %s)' % (short(f.q), ', '.join(str(x) for x in sorted(may - set(self.plain)))))
        if ('tag', False) not in st.facts: self.found['tagged|%s' % fn_key(f)] = (f.loc(nid), 'D8: %s guesses at the kind of text that carries a tag' % short(f.q))


def guessing(cx):
    p = cx.prog
    r = Guess(cx, (0, 1))        # any and plain
    eng = cx.engine(r)
    for f in sorted(p.funcs.values(), key=lambda f: f.q):
        if not f.cfg or is_helper(cx, f) and f.cls: continue
        if any(n and n['k'] == 'MemberExpr' and n['m'] == 'style' and 'yaml' in (n.get('dt') or n.get('t') or '') for n in f.nodes): eng.run(f)
    cx.finish_engine(eng, 'guessing')
    for k, (where, msg) in sorted(r.found.items()): cx.bad(k, where, msg)
    cx.count('scalars guessed at', len(r.seen))
