from checks.common import *

EXPLAIN = ('Every place that positions into a list of values (subscript, iterator plus offset, erase, insert, front/back/pop_back, resize) is visited on all '
           'paths; unchecked forms need a dominating comparison of that very index with that very container\'s size. Growth expressions are typed: an '
           'addition evaluated in a type narrower than the container size can wrap. Index values are followed from wide integers to the 32-bit index '
           'parameters; a narrowing needs a dominating range test.')
TECH = 'path-sensitive guard (dominating condition) analysis plus type-width analysis of index expressions'
NOTE = 'All translation units. vector::at is accepted as checked. Undo positions are justified by the recorded forward operation (listed exception).'
RULE = ('B1 an unchecked list access at index i is reached only under i < size (<= for insertion) or a non-empty test; B2 the size passed to resize is not computed '
        'in a type that can wrap; B3 an integer wider than an index is converted to one only under a test that bounds it; B4 the list answers that it contains an index exactly when the index is below its size.')

# function -> reason: positions recorded by the operation being undone, on the same list
EXC = {'libvariant::JSONPatchUndo': 'positions recorded when the operation being undone succeeded on the same list (see P23)'}
WIDE = ('unsigned long', 'unsigned long long', 'long', 'long long')
NARROW = ('unsigned int', 'int', 'unsigned short', 'short', 'unsigned char')
INDEXED = {'At', 'Get', 'Set', 'Contains', 'Erase', 'operator[]', 'PathElement'}
UMAX = (1 << 32) - 1
TINY = {'unsigned short': 0xffff, 'short': 0x7fff, 'unsigned char': 0xff, 'signed char': 0x7f, 'char': 0x7f}


def is_list(n):
    return n.get('cls') == 'std::vector' and 'std::vector<libvariant::Variant>' in n.get('fq', '')


class Idx(Rule):
    inline_depth = 2
    mx = UMAX
    accessors = ('AsList', 'AsMap', 'ListBegin', 'ListEnd', 'MapBegin', 'MapEnd', 'At')
    def inline(self, eng, st, fr, nid, n, g):
        return g.q.startswith(NS) and len(g.nodes) < 150 and is_helper(self.cx, g)

    def container(self, t):
        """identify the list a size or iterator belongs to"""
        t = orig(t)
        while True:
            if t.k in ('&', '*', 'copy'): t = orig(t.a[0]); continue
            if t.k == 'call' and t.a[0].split('::')[-1] in ('AsList', 'begin', 'end', 'ListBegin', 'ListEnd', 'cbegin', 'size', 'Size', 'rbegin') and t.a[1] is not None:
                t = orig(t.a[1]); continue
            return t

    def same(self, a, b):
        return self.container(a) is self.container(b)

    def sizes(self, t, cont):
        t = orig(t)
        return t.k == 'call' and t.a[0].split('::')[-1] in ('size', 'Size') and t.a[1] is not None and self.same(t, cont)

    def guarded(self, st, idx, cont, le=False):
        idx = orig(idx)
        if idx.k == 'i':
            for c, v in st.conds.items():
                if c.k == 'call' and c.a[0].split('::')[-1] in ('empty', 'Empty') and c.a[1] is not None and self.same(c.a[1], cont) and not v and idx.a[0] <= (1 if le else 0): return True
                if c.k == '==' and v and c.a[1].k == 'i' and self.sizes(c.a[0], cont) and idx.a[0] < c.a[1].a[0] + (1 if le else 0): return True
                if self.sizes(c, cont) and v and idx.a[0] <= (1 if le else 0): return True
                if c.k == '==' and not v and c.a[1] is ZERO and self.sizes(c.a[0], cont) and idx.a[0] <= (1 if le else 0): return True
                if c.k == '<' and v and c.a[0].k == 'i' and self.sizes(c.a[1], cont) and idx.a[0] <= c.a[0].a[0] + (1 if le else 0): return True
            return le and idx is ZERO
        for c, v in st.conds.items():
            if c.k == '<' and v and orig(c.a[0]) is idx and self.sizes(c.a[1], cont): return True
            if le and c.k == '<' and not v and orig(c.a[1]) is idx and self.sizes(c.a[0], cont): return True
        # size() - 1 style
        if idx.k == '-' and self.sizes(idx.a[0], cont) and idx.a[1].k == 'i' and idx.a[1].a[0] > 0:
            return self.guarded(st, I(idx.a[1].a[0] - 1), cont)
        return False

    def offset(self, t):
        """begin()+i -> (container, i)"""
        t = orig(t)
        while t.k == 'copy' or t.k == 'ctor' and len(t.a[1]) == 1: t = orig(t.a[0] if t.k == 'copy' else t.a[1][0])
        if t.k == '+' and isinstance(t.a[0], Term): a, b = t.a[0], t.a[1]
        elif t.k == 'call' and t.a[0].split('::')[-1] == 'operator+':
            xs = ([t.a[1]] if t.a[1] is not None else []) + list(t.a[2])
            if len(xs) != 2: return None
            a, b = xs
        else: return None
        o = orig(a)
        while o.k in ('copy',) or o.k == 'ctor' and len(o.a[1]) == 1: o = orig(o.a[0] if o.k == 'copy' else o.a[1][0])
        if o.k == 'call' and o.a[0].split('::')[-1] in ('begin', 'ListBegin', 'cbegin'): return (o, b)
        return None

    def report(self, eng, fr, nid, what, idx, cont):
        f = eng.root_func
        for q in EXC:
            if fr.f.q == q: self.cx.count('listed exceptions'); return
        self.cx.bad('unchecked|%s|%s' % (fn_key(fr.f), what), fr.f.loc(nid), '%s: %s at %s is not guarded by a comparison with the size of %s' % (short(f.q), what, tstr(idx), tstr(self.container(cont))))

    def call(self, eng, st, fr, nid, n, obj, args):
        f = fr.f
        fq = n.get('fq', ''); name = fq.split('::')[-1]
        if is_list(n) and obj is not None:
            if name == 'operator[]':
                self.cx.count('unchecked list accesses')
                if not self.guarded(st, args[0], obj): self.report(eng, fr, nid, 'operator[]', args[0], obj)
            elif name == 'at': self.cx.count('checked list accesses')
            elif name in ('front', 'back', 'pop_back'):
                self.cx.count('unchecked list accesses')
                if not self.guarded(st, ZERO, obj) and not self.nonempty(st, obj): self.report(eng, fr, nid, name, ZERO, obj)
            elif name in ('erase', 'insert') and args:
                o = self.offset(args[0])
                if o is not None:
                    self.cx.count('unchecked list accesses')
                    if not self.guarded(st, o[1], o[0], le=(name == 'insert')): self.report(eng, fr, nid, name, o[1], o[0])
            elif name in ('resize', 'reserve', 'assign') and n.get('args'):
                self.cx.count('growth expressions')
                w = self.narrow_arith(f, n['args'][0], set())
                if w is not None and not self.bounded(st, eng.ev(st, fr, w), UMAX - 1):
                    self.cx.bad('wrap|%s' % fn_key(f), f.loc(nid), '%s: the size given to %s is computed in %s and can wrap around' % (short(f.q), name, f.nodes[w]['t']))
        elif name in ('operator*', 'operator->') and obj is not None and 'std::vector<libvariant::Variant>' in fq:
            o = self.offset(obj)
            if o is not None:
                self.cx.count('unchecked list accesses')
                if not self.guarded(st, o[1], o[0]): self.report(eng, fr, nid, 'dereference', o[1], o[0])
        # B3
        if (name in INDEXED or name.endswith('Index')) and fq.startswith(NS) and (n.get('cls') == VARIANT or (n.get('cls') or '').startswith('libvariant::VariantRefImpl') or name == 'PathElement' or n.get('cls', '').startswith('libvariant::Internal::')):
            for a, t in zip(n.get('args', []), n.get('pt', [])):
                if t == 'unsigned int':
                    self.cx.count('index arguments')
                    w = self.narrowing(f, a)
                    if w is not None and not self.bounded(st, eng.ev(st, fr, w), self.mx):
                        self.cx.bad('truncated|%s|%s' % (fn_key(f), name), f.loc(nid), '%s: index %s of type %s is cut down for %s without a range test' % (
                            short(f.q), tstr(eng.ev(st, fr, w)), f.nodes[w]['t'], name))

    def nonempty(self, st, obj):
        for c, v in st.conds.items():
            if c.k == '<' and v and self.sizes(c.a[1], obj): return True
        return False

    def narrow_arith(self, f, i, seen):
        """node of an addition/multiplication evaluated in 32 bits or less"""
        i = f.strip(i)
        n = f.nodes[i]
        if n.get('cv') is not None: return None
        if n['k'] == 'BinaryOperator' and n['op'] in ('+', '*', '<<'):
            if n['t'] in NARROW: return i
        if n['k'] in ('CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'ImplicitCastExpr', 'ParenExpr', 'BinaryOperator', 'ConditionalOperator'):
            for c in n['c']:
                r = self.narrow_arith(f, c, seen)
                if r is not None: return r
        if n['k'] == 'DeclRefExpr' and n.get('d') and n['d'] not in seen:
            seen.add(n['d'])
            for m in f.nodes:
                if m and m['k'] == 'DeclStmt':
                    for v in m['vars']:
                        if v['d'] == n['d'] and v.get('init') is not None and v['init'] >= 0:
                            r = self.narrow_arith(f, v['init'], seen)
                            if r is not None: return r
                elif m and m['k'] == 'BinaryOperator' and m['op'] == '=':
                    l = f.nodes[f.strip(m['c'][0])]
                    if l['k'] == 'DeclRefExpr' and l.get('d') == n['d']:
                        r = self.narrow_arith(f, m['c'][1], seen)
                        if r is not None: return r
        return None

    def narrowing(self, f, i):
        """source node of a wide-to-32-bit conversion on the way to this argument"""
        while True:
            n = f.nodes[i]
            if n.get('cv') is not None: return None
            if n['k'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ConstantExpr') and n['c']:
                c = n['c'][0]
                if n.get('ck') == 'IntegralCast' and n['t'] in TINY and f.nodes[c]['t'] in WIDE + NARROW and f.nodes[c]['t'] not in TINY:
                    self.mx = TINY[n['t']]
                    return c if f.nodes[c].get('cv') is None else None
                if n.get('ck') == 'IntegralCast' and n['t'] in NARROW and f.nodes[c]['t'] in WIDE:
                    self.mx = UMAX
                    if f.nodes[c].get('cv') is not None: return None
                    return c
                i = c; continue
            return None

    def small(self, t):
        """value bounded by the type or meaning of what produced it"""
        t = orig(t)
        if self.mx < UMAX: return t.k == 'i' and t.a[0] <= self.mx
        if t.k == 'i': return t.a[0] <= UMAX
        if t.k == 'call':
            nm = t.a[0].split('::')[-1].split('<')[0]
            if nm in ('Size', 'size', 'length', 'distance'): return True
            if nm in ('max', 'min'): return all(self.small(x) for x in t.a[2])
        if t.k in ('*', '&', 'copy'): return self.small(t.a[0])
        if t.k == '-': return self.small(t.a[0])
        if t.k == 'cond': return self.small(t.a[1]) and self.small(t.a[2])
        return False

    def bounded(self, st, t, mx):
        t0 = orig(t)
        if t0.k == 'i': return t0.a[0] <= mx
        if self.small(t0): return True
        if t0.k in ('+', '*', '<<'):
            return any(self.bounded(st, x, mx) for x in t0.a if isinstance(x, Term) and x.k != 'i')
        for c, v in st.conds.items():
            if c.k == '<':
                if v and orig(c.a[0]) is t0 and (c.a[1].k == 'i' and c.a[1].a[0] <= mx + 1 or self.small(c.a[1]) and c.a[1].k != 'i'): return True
                if not v and orig(c.a[1]) is t0 and (c.a[0].k == 'i' and c.a[0].a[0] <= mx or self.small(c.a[0]) and c.a[0].k != 'i'): return True
            if c.k == '==' and c.a[1].k == 'i' and orig(c.a[0]) is t0 and ((v and c.a[1].a[0] <= mx) or (not v and c.a[1].a[0] == mx + 1 == UMAX)): return True
        return False

    def elem(self, eng, st, fr, nid, n):
        # parsed numbers stored in something narrower
        f = fr.f
        if n['k'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr') and n.get('ck') == 'IntegralCast' and n['t'] in NARROW and n.get('cv') is None:
            c = n['c'][0]
            if f.nodes[c]['t'] in WIDE:
                t = eng.ev(st, fr, c)
                if any(x.k == 'call' and x.a[0].split('::')[-1] in ('strtoull', 'strtoul', 'strtoll', 'strtol', 'strtoumax', 'strtoimax', 'atoll', 'atol', 'stoull', 'stoul', 'stoll') for x in subterms(orig(t))):
                    self.cx.count('parsed numbers narrowed')
                    if not self.bounded(st, t, UMAX):
                        self.cx.bad('parsed|%s' % fn_key(f), f.loc(nid), '%s: a parsed number is cut down to %s without a range test' % (short(f.q), n['t']))


def check(cx):
    def pred(f):
        if not f.q.startswith(NS): return False
        for n in f.nodes:
            if not n: continue
            if is_list(n) or 'std::vector<libvariant::Variant>' in n.get('fq', ''): return True
            nm = n.get('fq', '').split('::')[-1]
            if n.get('fq') and (nm in INDEXED or nm.endswith('Index')): return True
            if n['k'] in ('CallExpr',) and nm.startswith('strto'): return True
        return False
    rule = Idx()
    run_all(cx, rule, pred, 'functions that index')
    cx.need(cx.counts.get('checked list accesses', 0) + cx.counts.get('unchecked list accesses', 0), 'list accesses', 8)
    cx.need(cx.counts.get('growth expressions', 0), 'growth expressions', 2)
    cx.need(cx.counts.get('index arguments', 0), 'index arguments', 20)

    # B4 the list's own membership test
    slot = [i for i, m in slots(cx).items() if m['n'] == 'ContainsIndex']
    class Has(Idx):
        def call(self, *a): pass
        def elem(self, *a): pass
        def ret(self, eng, st, fr, nid, val):
            if fr.parent is not None or val is None: return
            f = eng.root_func
            i = T('p', 1, f.params[1]['n'] or 'arg1')
            for ans in (True, False):
                cs = dict(st.conds)
                if not refine(truth(val), ans, cs): continue
                cx.count('membership answers')
                ok = False
                for c, v in cs.items():
                    if c.k == '<' and orig(c.a[0]) is i and mentions(c.a[1], lambda t: t.k == 'call' and t.a[0].split('::')[-1] in ('size', 'Size')) and v is ans: ok = True
                if not ok:
                    cx.bad('contains|%s|%s' % (fn_key(f), ans), f.loc(nid), '%s can answer %s although the index is %s the size' % (short(f.q), str(ans).lower(), 'not below' if ans else 'below'))
    for s in slot:
        e = effective(cx.prog, 'libvariant::Internal::List', s)
        if e in cx.prog.funcs and cx.prog.funcs[e].cls == 'libvariant::Internal::List':
            eng = cx.engine(Has()); eng.run(cx.prog.funcs[e]); cx.finish_engine(eng, 'membership')
