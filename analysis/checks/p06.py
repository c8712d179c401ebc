from checks.common import *

EXPLAIN = ('Mutation-effect analysis. For every library function it is computed, by a fixpoint over call sites, which of its value '
           'parameters can have contents (elements, referenced value, shared storage) changed: by the mutating value operations, by inserting '
           'or erasing container calls (including insert-on-access), through iterators and references derived from the parameter, or by '
           'passing it on to a function that does. Const operands of the operation tables, const value parameters and the by-value operands '
           'documented as read-only must not be in that set.')
TECH = 'interprocedural mutation-effect (mod) analysis with derived-reference tracking and helper splicing'
NOTE = 'Covers every function of the library taking a value. Values obtained by deep copy are not tracked back to their source. The lazy resolution of a path proxy (its own handle only) and the validity flag are the two documented exceptions.'
RULE = ('M1 an operation whose operand is a const value representation calls no mutating container operation, store or mutating table operation on it; '
        'M2 no function changes the contents of a const Variant & parameter, nor of a by-value parameter listed as read-only, directly or through a callee.')

REBIND = {'operator=', 'Assign'}
MUT = {'Set', 'SetPath', 'Append', 'Erase', 'ErasePath', 'Merge', 'Clear'}
ARITH = {'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator%=', 'operator++', 'operator--', 'Incr', 'Decr', 'Add', 'Sub', 'Mul', 'Div', 'Rem'}
CONT_MUT = {'push_back', 'pop_back', 'insert', 'erase', 'clear', 'resize', 'assign', 'swap', 'emplace', 'emplace_back', 'emplace_hint', 'operator=',
            'insert_or_assign', 'try_emplace', 'extract', 'merge', 'append', 'operator+=', 'shrink_to_fit'}
VALUE_ONLY = {'GetType', 'AsBool', 'AsInt', 'AsUnsigned', 'AsLongDouble', 'AsDouble', 'AsString', 'AsNumber', 'Size', 'size', 'empty', 'Empty', 'Compare',
              'Comparable', 'Contains', 'Index', 'IsNull', 'IsMap', 'IsList', 'IsString', 'length', 'Exists', 'HasPath', 'substr', 'c_str', 'str',
              'distance', 'count', 'Neg', 'operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='}
# by-value operands that are documented as only read: function -> parameter positions
READONLY = {'libvariant::JSONPointerLookup': {1}, 'libvariant::JSONDiffRef': {0, 1}, 'libvariant::AddSchemaListDefaultsImpl': {0}}
# by-value operands that are handed over to be changed
CONSUMED = {('libvariant::SchemaLoader::AddSchema', 1): 'documented to normalise the schema it registers'}
CORE = ('libvariant::Variant::Merge', 'libvariant::Variant::Index', 'libvariant::Variant::Append', 'libvariant::Variant::Set', 'libvariant::Variant::SetPath',
        'libvariant::Variant::Get', 'libvariant::Variant::GetPath', 'libvariant::Variant::At', 'libvariant::Variant::AtPath', 'libvariant::Variant::Compare',
        'libvariant::Variant::Comparable')


def vtype(t):
    t = t.replace('const ', '').rstrip(' &*')
    return t == VARIANT or t.startswith('libvariant::VariantRefImpl')


def is_ref(t):
    return 'VariantRefImpl' in t


# standard algorithms that rearrange or overwrite the range they are given
ALG_MUT = {'sort', 'stable_sort', 'partial_sort', 'nth_element', 'reverse', 'rotate', 'remove', 'remove_if', 'unique', 'fill', 'fill_n', 'generate', 'swap', 'iter_swap',
           'swap_ranges', 'replace', 'replace_if', 'partition', 'stable_partition', 'random_shuffle', 'shuffle', 'make_heap', 'push_heap', 'pop_heap', 'sort_heap',
           'next_permutation', 'prev_permutation', 'inplace_merge', 'for_each'}
ALG_DST = {'copy': 2, 'copy_backward': 2, 'move': 2, 'move_backward': 2, 'copy_if': 2, 'copy_n': 2, 'transform': 2}


def alg_written(n, args):
    """arguments of a standard algorithm through which it writes"""
    fq = n.get('fq', '')
    if not n.get('sys') or n.get('obj') is not None or not fq.startswith('std::'): return []
    name = fq.split('::')[-1].split('<')[0]
    if name in ALG_MUT and name != 'for_each':
        return [a for a, t in zip(args, n.get('pt') or [''] * len(args)) if 'const_iterator' not in t and 'Variant *const' not in t and 'const libvariant' not in t]
    if name in ALG_DST and len(args) > ALG_DST[name]: return [args[ALG_DST[name]]]
    return []


class Mod(Rule):
    max_steps = 4000
    def __init__(self, summ): self.summ = summ; self.out = set()
    inline_depth = 2
    def inline(self, eng, st, fr, nid, n, g):
        return g.kind == 'ctor' and g.cls != VARIANT and not (g.cls or '').startswith('libvariant::VariantRefImpl') and len(g.nodes) < 60

    def srcs(self, st, t, memo=None):
        """parameters whose contents t gives access to"""
        if memo is None: memo = {}
        r = memo.get(t)
        if r is not None: return r
        memo[t] = frozenset()
        k = t.k
        r = frozenset()
        if k in ('p', 'var'):
            if ('fresh', t) in st.facts: r = frozenset()
            else:
                for f in st.facts:
                    if f[0] == 'mk' and f[1] is t: r = r | f[2]
                v = st.mem.get(t)
                if v is not None and v is not t and v.k != 'hv': r = r | self.srcs(st, v, memo)
                if k == 'p' and t.a[0] in self.vp: r = r | {t.a[0]}
        elif k == 'this': r = frozenset({'this'}) if self.this_const else frozenset()
        elif k == 'old': r = self.srcs(st, orig(t), memo) if orig(t) is not t else frozenset()
        elif k == 'call' and (t.a[0].split('::')[-1] in VALUE_ONLY or t.a[0] == 'libvariant::Variant::Copy'): r = frozenset()
        elif k == 'fld' and t.a[1] == 'first': r = frozenset()
        elif k in ('==', '<', '!', '&&', '||', 'i', 's', 'f'): r = frozenset()
        else:
            for x in t.a:
                if isinstance(x, Term): r = r | self.srcs(st, x, memo)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Term): r = r | self.srcs(st, y, memo)
        memo[t] = r
        return r

    def init(self, eng, st):
        f = eng.root_func
        self.vp = {i for i, p in enumerate(f.params) if self.tracked(p['t'])}
        self.pterm = {i: T('p', i, f.params[i]['n'] or 'arg%d' % i) for i in self.vp}
        self.this_const = False

    def tracked(self, t):
        b = t.replace('const ', '').rstrip(' &*')
        return vtype(t) or b.startswith('std::vector<libvariant::Variant') or (b.startswith('std::map<') and 'libvariant::Variant' in b) \
            or 'iterator' in b and 'Variant' in b

    def guards(self, st):
        """what the path fixes about a selector field of a parameter"""
        for c, v in st.conds.items():
            if c.k == 'fld' and root(c).k == 'p' and v is False: yield (c, 0)
            if c.k == '==' and v and c.a[0].k == 'fld' and root(c.a[0]).k == 'p' and c.a[1].k == 'i': yield (c.a[0], c.a[1].a[0])

    def hit(self, eng, st, fr, nid, t, what, guard=None):
        s = self.srcs(st, t)
        if not s: return
        if guard is None:
            for l, v in self.guards(st):
                guard = (root(l).a[0], l.a[1], v)
        for i in s:
            p = self.pterm.get(i)
            if p is not None and any(c.k == 'call' and c.a[0].endswith('::IsNull') and c.a[1] is p and v is True for c, v in st.conds.items()):
                continue        # a null has no contents to share
            self.out.add((i, fr.f.loc(nid), what, guard))

    def call(self, eng, st, fr, nid, n, obj, args):
        f = fr.f
        fq = n.get('fq', ''); name = fq.split('::')[-1]
        cls = n.get('cls', '') or ''
        own = cls == VARIANT or cls.startswith('libvariant::VariantRefImpl')
        if own and obj is not None and n['k'] not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            ot = f.nodes[f.strip(n['obj'])].get('t', '')
            # a plain Variant variable or temporary: assignment only rebinds it
            plain = not is_ref(ot) and (obj.k in ('var', 'p', 'call', 'copy', 'ctor', 'hv') and not ot.startswith('libvariant::Variant *'))
            if obj.k in ('call',) and f.nodes[f.strip(n['obj'])].get('lv'): plain = False
            if obj.k == 'p' and f.params[obj.a[0]]['t'].endswith('&') and fr.parent is None: plain = False
            if name in REBIND and plain:
                if args and 'Variant' in (n.get('pt') or [''])[0]:
                    s = self.srcs(st, args[0])
                    st.drop(lambda x: x[0] in ('mk', 'fresh') and x[1] is obj)
                    st.add(('mk', obj, s) if s else ('fresh', obj))
                else:
                    st.drop(lambda x: x[0] in ('mk', 'fresh') and x[1] is obj)
                    st.add(('fresh', obj))
                return
            if name in REBIND or (name in ARITH and not plain):
                self.hit(eng, st, fr, nid, obj, name)
            elif name in MUT:
                self.hit(eng, st, fr, nid, obj, name)
            elif name in ('At', 'AtPath') and len(args) == 2 and not n.get('cm'):
                self.hit(eng, st, fr, nid, obj, name + ' with a default to create')
            elif name == 'Resolve' and len(args) == 1 and is_ref(ot):
                self.hit(eng, st, fr, nid, obj, 'Resolve with a default to create')
        elif n.get('sys') and obj is not None and not n.get('cm') and n['k'] not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            if cls in ('std::vector', 'std::map', 'std::basic_string', 'std::deque') and (name in CONT_MUT or (name == 'operator[]' and cls == 'std::map')):
                if obj.k in ('var',) : pass       # a local container of its own
                elif obj.k == 'p' and not f.params[obj.a[0]]['t'].endswith('&'): pass
                else: self.hit(eng, st, fr, nid, obj, cls + '::' + name)
        for a in alg_written(n, args):
            self.hit(eng, st, fr, nid, a, fq.split('<')[0])
        if n.get('fn') and not n.get('sys'):
            for t in self.cx.prog.targets(n):
                for j, g in self.summ.get(t, ()):
                    if j == 'this' or j >= len(args): continue
                    g2 = None
                    if g and g[0] < len(args):
                        a = args[g[0]]
                        l = T('fld', a, g[1])
                        v = st.mem.get(l)
                        if v is not None and v.k == 'i' and v.a[0] != g[2]: continue
                        if any(x is l and y != g[2] for x, y in self.guards(st)): continue
                        if root(a).k == 'p' and fr.parent is None: g2 = (root(a).a[0], g[1], g[2])
                    self.hit(eng, st, fr, nid, args[j], 'passing it to ' + short(fq), g2)
        if obj is not None and obj.k == 'var':
            s = self.srcs(st, obj)
            if s: st.add(('mk', obj, s))

    def declare(self, eng, st, fr, v, loc, val):
        st.drop(lambda x: x[0] in ('mk', 'fresh') and x[1] is loc)

    def assign(self, eng, st, fr, nid, loc, val):
        pass


class Slot(Rule):
    """operations on const representations"""
    inline_depth = 4
    def __init__(self, sl):
        self.sl = sl
    def inline(self, eng, st, fr, nid, n, g):
        return g.q.startswith('libvariant::Internal::') and not (g.name in ('RefInit', 'EnsureRef'))
    def init(self, eng, st):
        f = eng.root_func
        self.P = {T('p', i, p['n'] or 'arg%d' % i): p['n'] for i, p in enumerate(f.params) if p['t'] in ('const %s *' % DATA, 'const %s *' % VARIANT)}
        if f.q.startswith('libvariant::Internal::'):
            if f.name in ('GetRefIndex', 'GetRefKey'):
                d = T('p', 2, f.params[2]['n'] or 'arg2')
                st.conds = dict(st.conds); st.conds[d] = False
                st.mem[d] = ZERO
                self.P[T('p', 0, f.params[0]['n'] or 'arg0')] = f.params[0]['n']
        else:
            self.P[THIS] = 'object'
        self.proxy = (f.cls or '').endswith('::Proxy') or (not f.cls and 'Proxy' in f.name)
    def on(self, t):
        if t.k == '&' and t.a[0].k == 'fld' and t.a[0].a[1] == 'ref_data': return None
        def walk(x):
            if x in self.P: return x
            if x.k in ('call',) and (x.a[0].split('::')[-1] in VALUE_ONLY): return None
            if x.k == 'ctor' or x.k in ('copy', 'new', 'obj'): return None
            for y in x.a:
                if isinstance(y, Term):
                    r = walk(y)
                    if r is not None: return r
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, Term):
                            r = walk(z)
                            if r is not None: return r
            return None
        return walk(t)
    def bad(self, eng, fr, nid, p, what):
        f = eng.root_func
        self.cx.bad('const-operand|%s|%s' % (fn_key(f), self.P[p]), fr.f.loc(nid), '%s changes its read-only operand %s: %s' % (short(f.q), self.P[p], what))
    SLOTMUT = {'Clear': 0, 'EraseIndex': 0, 'SetIndex': 0, 'EraseKey': 0, 'SetKey': 0, 'AsList': 0, 'AsMap': 0, 'Incr': 0, 'Decr': 0, 'Add': 0, 'Sub': 0,
               'Mul': 0, 'Div': 0, 'Rem': 0, 'Destroy': 0, 'Destruct': 0, 'ResolveDefault': 0, 'Assign': 1, 'Copy': 1, 'MakeRef': 1, 'MakeProxy': 1}
    def call(self, eng, st, fr, nid, n, obj, args):
        fq = n.get('fq', ''); name = fq.split('::')[-1]; cls = n.get('cls', '')
        if n.get('virt') and n.get('fn') in self.sl:
            sn = self.sl[n['fn']]['n']
            self.cx.count('dispatches in read-only operations')
            if sn in self.SLOTMUT and self.SLOTMUT[sn] < len(args):
                a = args[self.SLOTMUT[sn]]
                p = self.on(a)
                if p is None: return
                if sn == 'MakeRef' and self.proxy and a is p: return     # lazy resolution of the proxy's own handle
                self.bad(eng, fr, nid, p, 'dispatches %s' % sn)
            elif sn in ('GetRefIndex', 'GetRefKey') and len(args) > 2 and args[2] is not ZERO and self.on(args[0]) is not None and simp(args[2], st.conds) != 0:
                self.bad(eng, fr, nid, self.on(args[0]), 'looks an element up with creation')
            return
        if n.get('sys') and obj is not None and not n.get('cm') and cls in ('std::vector', 'std::map', 'std::basic_string') \
                and (name in CONT_MUT or (name == 'operator[]' and cls == 'std::map')) and n['k'] not in ('CXXConstructExpr',):
            if root(obj).k in ('var', 'obj'): return
            p = self.on(obj)
            if p is not None: self.bad(eng, fr, nid, p, '%s::%s on %s' % (cls, name, tstr(obj)))
        for a in alg_written(n, args):
            p = self.on(a)
            if p is not None and not mentions(a, lambda t: t.k in ('var', 'obj')): self.bad(eng, fr, nid, p, '%s rearranges %s' % (fq.split('<')[0], tstr(a)))
        own = cls == VARIANT or cls.startswith('libvariant::VariantRefImpl')
        if own and obj is not None and not n.get('cm') and n['k'] != 'CXXConstructExpr' and (name in REBIND | MUT | ARITH):
            p = self.on(obj)
            if p is not None and root(obj).k not in ('var', 'obj'): self.bad(eng, fr, nid, p, 'calls %s on %s' % (name, tstr(obj)))
    def assign(self, eng, st, fr, nid, loc, val):
        if loc.k in ('fld', '*', 'elem', 'idx'):
            if loc.k == 'fld' and loc.a[1] in ('ref_data', 'valid'): return
            p = self.on(loc)
            if p is None: return
            if self.proxy and loc.k == 'fld' and deref(p) is loc.a[0]: return
            self.bad(eng, fr, nid, p, 'stores into %s' % tstr(loc))


def check(cx):
    sl = slots(cx)
    rule = Slot(sl)
    eng = cx.engine(rule)
    n = 0
    for f in sorted(cx.prog.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        if not f.cfg or not f.q.startswith('libvariant::Internal::'): continue
        if not any(p['t'] in ('const %s *' % DATA, 'const %s *' % VARIANT) for p in f.params) and f.name not in ('GetRefIndex', 'GetRefKey'): continue
        if f.name in ('RefInit', 'EnsureRef') or (f.kind == 'ctor'): continue
        if is_helper(cx, f) and f.name.startswith('ProxyResolve'): continue
        n += 1
        eng.run(f)
    for f in cx.prog.funcs.values():
        if f.cfg and f.cls == VARIANT and f.kind == 'method' and (f.const or (f.name in ('At', 'AtPath', 'operator[]') and len(f.params) == 1)):
            n += 1
            eng.run(f)
    cx.need(n, 'operations with a const operand', 60)
    cx.finish_engine(eng, 'read-only table operations')
    # whole-library effect summaries
    summ = {}
    why = {}
    funcs = [f for f in sorted(cx.prog.funcs.values(), key=lambda f: (f.file, f.line, f.id))
             if f.cfg and f.q.startswith(NS) and not f.q.startswith('libvariant::Internal::')
             and f.cls != VARIANT and not (f.cls or '').startswith('libvariant::VariantRefImpl')
             and any(Mod({}).tracked(p['t']) for p in f.params)]
    funcs += [f for q in CORE for f in cx.prog.fq(q) if f.cfg]
    cx.need(funcs, 'functions taking values', 40)
    work = list(funcs)
    pending = set(f.id for f in work)
    rounds = 0
    while work:
        f = work.pop(0); pending.discard(f.id)
        rounds += 1
        r = Mod(summ)
        e = cx.engine(r)
        e.run(f)
        cx.count('effect summaries computed')
        if rounds > 2000: raise AnalysisBroken('effect summaries do not converge')
        new = {(i, g) for i, w, x, g in r.out}
        for i, w, x, g in r.out: why.setdefault((f.id, i), (w, x))
        if new - summ.get(f.id, set()):
            summ[f.id] = summ.get(f.id, set()) | new
            ids = {f.id} | set(f.over)
            for g in funcs:
                if g.id in pending: continue
                if any(set(cx.prog.targets(c)) & {f.id} for _, c in cx.eff.callees[g.id]):
                    pending.add(g.id); work.append(g)
    mutp = 0
    for f in funcs:
        for i, p in enumerate(f.params):
            if not Mod({}).tracked(p['t']): continue
            ro = p['t'] == VARIANT or vtype(p['t']) and p['t'].startswith('const ') and p['t'].endswith('&') and not is_ref(p['t']) \
                or i in READONLY.get(f.q, ()) or p['t'].startswith('const std::') and p['t'].endswith('&')
            if (f.q, i) in CONSUMED: ro = False
            if not ro: mutp += 1; continue
            cx.count('read-only operands judged')
            if any(j == i for j, g in summ.get(f.id, ())):
                w, x = why[(f.id, i)]
                cx.bad('operand|%s|%s' % (fn_key(f), p['n']), w, '%s changes its read-only operand %s: %s' % (short(f.q), p['n'], x))
    for f in funcs[:400]:
        if summ.get(f.id): cx.sample('%s may change %s' % (short(f.q), ', '.join(f.params[i]['n'] for i in sorted({j for j, g in summ[f.id]}))))
    cx.need(cx.counts.get('read-only operands judged', 0), 'read-only operands', 25)

    cx.need(sum(1 for s in summ.values() if s), 'mutating functions recognised', 5)
