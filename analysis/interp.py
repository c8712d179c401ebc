"""Flow-sensitive abstract interpreter over the control-flow graphs of the
program, with helpers spliced in at their call sites.

Values are symbolic access-path terms, never numbers obtained by running
anything; no solver is involved.  A state holds the term stored in each known
location, the atomic branch conditions known to hold, and the facts of the
rule being checked.  States are kept apart per program point up to a bound and
intersected beyond it, so the exploration terminates."""
import heapq
from facts import AnalysisBroken


class Term:
    __slots__ = ('k', 'a', 'n', 'd')
    tab = {}
    byn = []
    def __repr__(self):
        return tstr(self)
    def __hash__(self):
        return self.n
    def __lt__(self, o):
        return self.n < o.n


def T(k, *a):
    key = (k,) + a
    t = Term.tab.get(key)
    if t is None:
        d = 1 + max([x.d for x in a if isinstance(x, Term)] + [x.d for y in a if isinstance(y, tuple) for x in y if isinstance(x, Term)] + [0])
        t = Term()
        t.k, t.a, t.d = k, a, d
        t.n = len(Term.tab)
        Term.tab[key] = t
        Term.byn.append(t)
    return t


def orig(t):
    """the term a value had when it was read, before what it was read from changed"""
    while t.k == 'old' and isinstance(t.a[1], int): t = Term.byn[t.a[1]]
    return t


def tstr(t):
    if not isinstance(t, Term):
        return '(' + ', '.join(tstr(x) for x in t) + ')' if isinstance(t, tuple) else str(t)
    k, a = t.k, t.a
    if k == 'i': return str(a[0])
    if k == 's': return repr(a[0])
    if k == 'p': return a[1]
    if k == 'var': return a[1].split(':', 1)[-1]
    if k == 'this': return 'this'
    if k == 'glob': return a[0].split('@')[-1]
    if k == '*': return '*' + tstr(a[0])
    if k == '&': return '&' + tstr(a[0])
    if k == 'fld':
        if a[0].k == '*': return tstr(a[0].a[0]) + '->' + a[1]
        return tstr(a[0]) + '.' + a[1]
    if k in ('==', '<', '+', '-', '&&', '||', 'bin', '/', '%', '|', '^', '<<', '>>') and len(a) == 2:
        return '(%s %s %s)' % (tstr(a[0]), k, tstr(a[1]))
    if k == '!': return '!' + tstr(a[0])
    if k == 'call':
        o = (tstr(a[1]) + '.') if a[1] is not None else ''
        return o + a[0].split('::')[-1] + '(' + ', '.join(map(tstr, a[2])) + ')'
    if k == 'ctor':
        return a[0].split('::')[-1] + '(' + ', '.join(map(tstr, a[1])) + ')'
    return k + '(' + ', '.join(map(tstr, a)) + ')'


def mentions(t, pred, memo=None):
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    r = pred(t)
    if not r:
        for x in t.a:
            if isinstance(x, Term):
                if mentions(x, pred, memo): r = True; break
            elif isinstance(x, tuple):
                if any(isinstance(y, Term) and mentions(y, pred, memo) for y in x): r = True; break
    memo[t] = r
    return r


def depends(t, pred, memo=None):
    """like mentions, but the result of one particular call is a fixed value
    whatever later happens to the locations its arguments were read from"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    r = pred(t)
    if not r and not (t.k in ('call', 'ctor') and t.a[-1] is not None):
        for x in t.a:
            if isinstance(x, Term):
                if depends(x, pred, memo): r = True; break
            elif isinstance(x, tuple):
                if any(isinstance(y, Term) and depends(y, pred, memo) for y in x): r = True; break
    memo[t] = r
    return r


def subterms(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, Term): st.append(y)
            elif isinstance(y, tuple): st.extend(z for z in y if isinstance(z, Term))


ZERO = T('i', 0)
ONE = T('i', 1)
THIS = T('this')


def I(v):
    return T('i', int(v))


def deref(v):
    if v.k == '&': return v.a[0]
    return T('*', v)


def addr(l):
    if l.k == '*': return l.a[0]
    return T('&', l)


def root(loc):
    while loc.k in ('fld', 'idx', '*', 'elem'):
        loc = loc.a[0]
    return loc


def neg(t):
    if t.k == '!': return t.a[0]
    if t.k == 'i': return I(0 if t.a[0] else 1)
    return T('!', t)


NARROW = {'unsigned char': (0, 255), 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned short': (0, 65535), 'short': (-32768, 32767)}


def mkcmp(op, a, b):
    if a.k == 'i' and b.k == 'i':
        x, y = a.a[0], b.a[0]
        return I(int({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]))
    if op in ('==', '!='):
        if a is b:
            r = ONE
        else:
            if a.k == 'i' and b.k != 'i': a, b = b, a
            if b is ZERO: r = neg(truth(a))
            elif a.k == 's' and b.k == 's': r = I(int(a.a[0] == b.a[0]))
            elif b.k not in ('i', 's') and b < a: r = T('==', b, a)
            else: r = T('==', a, b)
        return r if op == '==' else neg(r)
    if op == '<': return T('<', a, b) if a is not b else ZERO
    if op == '>': return T('<', b, a) if a is not b else ZERO
    if op == '<=': return neg(T('<', b, a)) if a is not b else ONE
    if op == '>=': return neg(T('<', a, b)) if a is not b else ONE


def truth(t):
    """the formula 't is non-zero'"""
    if t.k == '&' or t.k in ('s', 'new'): return ONE
    return t


def simp(t, conds):
    """decide a boolean formula under the known atoms: 1, 0 or None"""
    if t.k == 'i': return 1 if t.a[0] else 0
    v = conds.get(t)
    if v is not None: return 1 if v else 0
    k = t.k
    if k == '!':
        r = simp(t.a[0], conds)
        return None if r is None else 1 - r
    if k == '&&':
        a = simp(t.a[0], conds)
        if a == 0: return 0
        b = simp(t.a[1], conds)
        if b == 0: return 0
        return 1 if a == 1 and b == 1 else None
    if k == '||':
        a = simp(t.a[0], conds)
        if a == 1: return 1
        b = simp(t.a[1], conds)
        if b == 1: return 1
        return 0 if a == 0 and b == 0 else None
    if k == '==':
        x, y = t.a
        if y.k in ('i', 's'):
            # a different constant is already known for x
            for c, v in conds.items():
                if v and c.k == '==' and c.a[0] is x and c.a[1].k == y.k and c.a[1] is not y: return 0
            if y.k == 'i' and conds.get(x) is False: return 0
        if conds.get(T('<', x, y)) or conds.get(T('<', y, x)): return 0
    elif k == '<':
        x, y = t.a
        if conds.get(T('<', y, x)): return 0
        if y.k != 'i' and x.k != 'i' and (conds.get(T('==', x, y)) or conds.get(T('==', y, x))): return 0
        # x < y with constants known for x by equality or by another bound
        if y.k == 'i':
            for c, v in conds.items():
                if c.k == '==' and v and c.a[0] is x and c.a[1].k == 'i': return int(c.a[1].a[0] < y.a[0])
                if c.k == '<' and v and c.a[0] is x and c.a[1].k == 'i' and c.a[1].a[0] <= y.a[0]: return 1
                if c.k == '<' and not v and c.a[0] is x and c.a[1].k == 'i' and c.a[1].a[0] >= y.a[0]: return 0
        if x.k == 'i':
            for c, v in conds.items():
                if c.k == '==' and v and c.a[0] is y and c.a[1].k == 'i': return int(x.a[0] < c.a[1].a[0])
    elif k not in ('&&', '||') and t.k != 'i':
        # truthiness of a value with a known constant
        for c, v in conds.items():
            if v and c.k == '==' and c.a[0] is t and c.a[1].k == 'i': return int(c.a[1].a[0] != 0)
    return None


def refine(t, val, conds):
    """assume formula t has truth value val; False when contradictory"""
    r = simp(t, conds)
    if r is not None: return bool(r) == val
    if t.k == '!': return refine(t.a[0], not val, conds)
    if t.k == '&&':
        if val: return refine(t.a[0], True, conds) and refine(t.a[1], True, conds)
        if simp(t.a[0], conds) == 1: return refine(t.a[1], False, conds)
        if simp(t.a[1], conds) == 1: return refine(t.a[0], False, conds)
    elif t.k == '||':
        if not val: return refine(t.a[0], False, conds) and refine(t.a[1], False, conds)
        if simp(t.a[0], conds) == 0: return refine(t.a[1], True, conds)
        if simp(t.a[1], conds) == 0: return refine(t.a[0], True, conds)
    conds[t] = val
    return True


class State:
    __slots__ = ('mem', 'bind', 'conds', 'res', 'facts', 'live', 'trace')
    def __init__(self):
        self.mem = {}; self.bind = {}; self.conds = {}; self.res = {}
        self.facts = frozenset(); self.live = (); self.trace = None
    def copy(self):
        s = State()
        s.mem = dict(self.mem); s.bind = dict(self.bind); s.conds = dict(self.conds); s.res = dict(self.res)
        s.facts = self.facts; s.live = self.live; s.trace = self.trace
        return s
    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.bind.items()), frozenset(self.conds.items()),
                frozenset(self.res.items()), self.facts, self.live)
    # fact helpers (facts is a frozenset of hashables by default)
    def add(self, f):
        self.facts = self.facts | {f}
    def drop(self, pred):
        self.facts = frozenset(f for f in self.facts if not pred(f))


SMART = ('std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr',
         'boost::shared_ptr', 'libvariant::shared_ptr')
PURE_SYS = {'size', 'length', 'empty', 'begin', 'end', 'cbegin', 'cend', 'c_str', 'data', 'front', 'back', 'find',
            'operator[]', 'operator*', 'operator->', 'operator==', 'operator!=', 'operator<', 'operator>', 'get',
            'operator<=', 'operator>=', 'operator bool', 'count', 'at', 'substr', 'compare', 'capacity', 'what',
            'good', 'fail', 'eof', 'isdigit', 'isspace', 'isalpha', 'strlen', 'strcmp', 'memcmp', 'strncmp',
            'str', 'rdbuf', 'max', 'min', 'abs', 'lower_bound', 'upper_bound', 'isfinite', 'isnan', 'isinf', 'fmod',
            'make_pair', 'numeric_limits', 'tolower', 'toupper', 'size_type', 'rbegin', 'rend', 'base', 'top', 'first', 'second'}
MAXD = 14


class Frame:
    __slots__ = ('f', 'parent', 'call', 'uid', 'depth', 'this', 'ret', 'objtmp')
    def __init__(self, f, parent, call, uid):
        self.f = f; self.parent = parent; self.call = call; self.uid = uid
        self.depth = 0 if parent is None else parent.depth + 1


class Pos(tuple):
    """heap entry payload that never takes part in the ordering"""
    def __new__(cls, p): return tuple.__new__(cls, p)
    def __lt__(self, o): return False


class Rule:
    """override what is needed; st.facts must stay hashable"""
    exc = False             # follow exceptional edges
    inline_depth = 4
    open_enums = False      # values that are no enumerator occur
    inline_copy = False     # splice in copy and move constructors
    max_states = 12         # disjuncts per block before intersecting
    def apart_by(self, st): return None    # what else has to agree for states to be intersected
    max_steps = 6000
    keep = ()           # fields only their own class writes: calls out of it leave them alone
    keep_obj = None     # the object whose kept fields survive being handed out
    apart = None        # an object no other pointer leads to
    base_init = False   # base constructors work on the object under construction
    accessors = ()      # non-const member functions that do not change what the rule tracks about their object
    def inline(self, eng, st, fr, nid, n, callee): return True
    def may_throw(self, eng, st, fr, nid, n): return False
    def init(self, eng, st): pass
    def elem(self, eng, st, fr, nid, n): pass
    def call(self, eng, st, fr, nid, n, obj, args): pass
    def after(self, eng, st, fr, nid, n, obj, args, res): pass
    def assign(self, eng, st, fr, nid, loc, val): pass
    def load(self, eng, st, fr, nid, loc): pass
    def branch(self, eng, st, fr, cond, val, term, nid): pass      # False: cannot happen
    def ret(self, eng, st, fr, nid, val): pass
    def exit(self, eng, st): pass
    def exc_exit(self, eng, st, nid, ty): pass
    def dtor(self, eng, st, fr, loc, ty, unwinding): pass
    def declare(self, eng, st, fr, v, loc, val): pass
    def catch_(self, eng, st, fr, nid, ty): pass
    def devirt(self, eng, st, fr, nid, n, obj): return None


class Engine:
    def __init__(self, prog, rule, eff=None):
        self.prog = prog; self.rule = rule; self.eff = eff
        self.steps = 0
        self.stats = {'functions': 0, 'blocks': 0, 'states': 0, 'inlined': 0, 'calls': 0}
        self.covered = set()
        self.refs = set()       # reference members: bound once, never rebound

    # ---- terms -----------------------------------------------------------
    def varloc(self, fr, st, key, n=None):
        b = st.bind.get((fr.uid, key))
        if b is not None: return b
        f = fr.f
        if key.startswith('L') and ':' in key and key[1:key.index(':')].isdigit():
            if fr.parent is None and key in f.pidx:
                return T('p', f.pidx[key], f.params[f.pidx[key]]['n'] or 'arg%d' % f.pidx[key])
            if f.opname == '()' and key not in f.pidx and fr.parent is not None and not self.declared(f, key):
                # captured variable of an inlined lambda
                name = key.split(':', 1)[1]
                for g in self.framechain(fr.parent):
                    for k2 in self.keysnamed(g.f, name):
                        return self.varloc(g, st, k2)
            return T('var', fr.uid, key)
        return T('glob', key)

    def framechain(self, fr):
        while fr is not None:
            yield fr
            fr = fr.parent

    def keysnamed(self, f, name):
        out = [p['d'] for p in f.params if p['n'] == name]
        for n in f.nodes:
            if n and n['k'] == 'DeclStmt':
                out += [v['d'] for v in n['vars'] if v['n'] == name]
        return out

    def declared(self, f, key):
        d = getattr(f, '_decl', None)
        if d is None:
            d = set()
            for n in f.nodes:
                if n and n['k'] == 'DeclStmt': d.update(v['d'] for v in n['vars'])
            f._decl = d
        return key in d

    def opaque(self, fr, nid, st=None, why='upd'):
        t = T(why, fr.uid, nid)
        if st is not None: self.forget(st, t)
        return t

    def forget(self, st, t):
        """t denotes a fresh value: drop what was known about its previous incarnation"""
        memo = {}
        pred = lambda x: x is t
        for c in [c for c in st.conds if mentions(c, pred, memo)]: del st.conds[c]
        for l in [l for l, v in st.mem.items() if mentions(l, pred, memo) or (v is not t and mentions(v, pred, memo))]:
            v = st.mem[l]
            if not mentions(l, pred, memo): st.mem[l] = T('old', l, t.n)
            else: del st.mem[l]
        if hasattr(self.rule, 'forget'): self.rule.forget(self, st, t, memo)

    def cap(self, t, fr, nid):
        return t if t.d <= MAXD else T('deep', fr.uid, nid)

    def value_of(self, st, loc):
        return st.mem.get(loc, loc)

    def lv(self, st, fr, nid):
        """location term of a glvalue (or the value term of a class prvalue)"""
        f = fr.f
        n = f.nodes[nid]
        r = st.res.get((fr.uid, nid))
        if r is not None: return r
        k = n['k']
        c = n.get('c', [])
        if k in ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'CXXDefaultArgExpr',
                 'CXXDefaultInitExpr', 'SubstNonTypeTemplateParmExpr', 'OpaqueValueExpr', 'StmtExpr'):
            return self.lv(st, fr, c[0]) if c else self.opaque(fr, nid)
        if k == 'MaterializeTemporaryExpr':
            return self.lv(st, fr, c[0])
        if k == 'DeclRefExpr':
            if n['dk'] == 'EnumConstant' and 'cv' in n: return I(n['cv'])
            if n['dk'] in ('Function', 'CXXMethod'): return T('fn', n['d'])
            return self.varloc(fr, st, n['d'], n)
        if k == 'CXXThisExpr':
            return deref(self.ev(st, fr, nid))
        if k == 'MemberExpr':
            if n['mk'] not in ('Field', 'IndirectField'):
                if n['mk'] == 'Var': return T('glob', n['mq'])
                return T('fn', n['mq'])
            if n.get('arrow'):
                b = deref(self.ev(st, fr, c[0]))
            else:
                b = self.lv(st, fr, c[0])
            if not n['m']: return b       # anonymous union / struct
            l = self.cap(T('fld', b, n['m']), fr, nid)
            if n.get('dt', '').endswith('&') and l in st.mem: return st.mem[l]
            return l
        if k == 'UnaryOperator':
            if n['op'] == '*': return deref(self.ev(st, fr, c[0]))
            if n['op'] in ('++', '--'): return self.lv(st, fr, c[0])
            if n['op'] in ('__extension__', '__real', '__imag'): return self.lv(st, fr, c[0])
        if k == 'ArraySubscriptExpr':
            return self.cap(T('idx', self.ev(st, fr, c[0]), self.ev(st, fr, c[1])), fr, nid)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            if n['op'] == ',': return self.lv(st, fr, c[1])
            if n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='): return self.lv(st, fr, c[0])
        if k == 'ConditionalOperator':
            r = simp(truth(self.ev(st, fr, c[0])), st.conds)
            if r == 1: return self.lv(st, fr, c[1])
            if r == 0: return self.lv(st, fr, c[2])
            return self.cap(T('cond', self.ev(st, fr, c[0]), self.lv(st, fr, c[1]), self.lv(st, fr, c[2])), fr, nid)
        if k.endswith('CastExpr') and c:
            if n.get('ck') == 'LValueToRValue': return self.ev(st, fr, nid)
            return self.lv(st, fr, c[0])
        if 'args' in n:
            return self.callterm(st, fr, nid, n)
        if k == 'StringLiteral': return T('s', n['v'])
        return self.ev(st, fr, nid)

    def arg(self, st, fr, a):
        n = fr.f.nodes[a]
        return self.lv(st, fr, a) if n.get('lv') else self.ev(st, fr, a)

    def callterm(self, st, fr, nid, n):
        r = st.res.get((fr.uid, nid))
        if r is not None: return r
        f = fr.f
        fq = n.get('fq', '?')
        name = fq.split('::')[-1]
        obj = None
        if 'obj' in n:
            on = f.nodes[n['obj']]
            if on.get('t', '').endswith('*') and not n.get('oop'):
                obj = deref(self.ev(st, fr, n['obj']))
            else:
                obj = self.lv(st, fr, n['obj'])
        args = tuple(self.arg(st, fr, a) for a in n['args'])
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            if (n.get('copy') or n.get('move')) and len(args) >= 1:
                return self.cap(T('copy', self.value_of(st, args[0])), fr, nid)
            if n.get('cls', '').startswith('std::basic_string') and args and args[0].k == 's':
                return args[0]
            return self.cap(T('ctor', n.get('cls', '?'), args, (fr.uid, nid)), fr, nid)
        cls = n.get('cls', '')
        if cls.startswith(SMART) or cls in SMART:
            if n.get('oop') == '->' or name == 'get': return self.value_of(st, obj)
            if n.get('oop') == '*': return deref(self.value_of(st, obj))
            if name == 'operator bool': return truth(self.value_of(st, obj))
        if n.get('sys'):
            if name in ('move', 'forward', 'addressof', 'as_const', '__addressof') and len(args) == 1:
                return args[0] if 'addressof' not in name else addr(args[0])
            if n.get('oop') in ('==', '!=', '<', '>', '<=', '>='):
                ops = ((obj,) if obj is not None else ()) + args
                if len(ops) == 2:
                    a, b = [self.value_of(st, x) for x in ops]
                    a = a.a[0] if a.k == 'copy' else a
                    b = b.a[0] if b.k == 'copy' else b
                    return self.cap(mkcmp(n['oop'], a, b), fr, nid)
            if n.get('oop') == '->' and obj is not None:
                return addr(self.cap(T('elem', self.value_of(st, obj)), fr, nid))
            if n.get('oop') == '*' and obj is not None:
                return self.cap(T('elem', self.value_of(st, obj)), fr, nid)
            if n.get('oop') == '[]' and obj is not None and len(args) == 1:
                return self.cap(T('idx', obj, args[0]), fr, nid)
        pure = n.get('cm') and not any(t.replace('__restrict', '').strip().endswith('*') and not t.startswith('const ') for t in n.get('pt', [])) or name in PURE_SYS
        uid = None if pure else (fr.uid, nid)
        return self.cap(T('call', fq, obj, args, uid), fr, nid)

    def ev(self, st, fr, nid):
        f = fr.f
        n = f.nodes[nid]
        if 'cv' in n: return I(n['cv'])
        r = st.res.get((fr.uid, nid))
        if r is not None: return r
        k = n['k']
        c = n.get('c', [])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr',
                 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'CXXDynamicCastExpr'):
            ck = n.get('ck')
            if ck == 'LValueToRValue': return self.value_of(st, self.lv(st, fr, c[0]))
            if ck == 'ArrayToPointerDecay':
                l = self.lv(st, fr, c[0])
                return l if l.k == 's' else addr(l)
            if ck in ('NullToPointer', 'NullToMemberPointer'): return ZERO
            if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                return truth(self.ev(st, fr, c[0]))
            if n.get('lv') or f.nodes[c[0]].get('lv'):
                return self.lv(st, fr, c[0])
            v = self.ev(st, fr, c[0])
            if ck == 'IntegralCast' and v.k == 'i' and isinstance(v.a[0], int):
                w = NARROW.get((n.get('t') or '').replace('const ', ''))
                if w is not None and not w[0] <= v.a[0] <= w[1]: v = I((v.a[0] - w[0]) % (w[1] - w[0] + 1) + w[0])
            return v
        if k in ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'CXXDefaultArgExpr',
                 'CXXDefaultInitExpr', 'SubstNonTypeTemplateParmExpr', 'OpaqueValueExpr', 'MaterializeTemporaryExpr'):
            return self.ev(st, fr, c[0]) if c else self.opaque(fr, nid)
        if k in ('IntegerLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr'): return I(n['v'])
        if k == 'CXXNullPtrLiteralExpr' or k == 'GNUNullExpr': return ZERO
        if k == 'FloatingLiteral': return T('f', n['v'])
        if k == 'StringLiteral': return T('s', n['v'])
        if k == 'CXXThisExpr':
            return fr.this if fr.this is not None else THIS
        if k == 'UnaryOperator':
            op = n['op']
            if op == '&':
                l = self.lv(st, fr, c[0])
                return addr(l)
            if op == '!': return neg(truth(self.ev(st, fr, c[0])))
            if op == '*': return self.value_of(st, self.lv(st, fr, nid))
            if op in ('+', '__extension__'): return self.ev(st, fr, c[0])
            if op in ('-', '~'):
                return self.cap(T('un', op, self.ev(st, fr, c[0])), fr, nid)
            if op in ('++', '--', 'post++', 'post--'):
                return self.opaque(fr, nid, why=op)
        if k == 'BinaryOperator':
            op = n['op']
            if op in ('==', '!=', '<', '>', '<=', '>='):
                a, b = self.ev(st, fr, c[0]), self.ev(st, fr, c[1])
                if op in ('==', '!=') and b is ONE and f.nodes[f.strip(c[0])].get('t', '').replace('const ', '') == 'bool':
                    return truth(a) if op == '==' else neg(truth(a))
                if a is b and a.k != 'i' and op in ('==', '!=') and (f.nodes[c[0]].get('t') or '').replace('const ', '') in ('double', 'float', 'long double'):
                    return T('isnan', a) if op == '!=' else neg(T('isnan', a))
                return self.cap(mkcmp(op, a, b), fr, nid)
            if op in ('&&', '||'):
                return self.cap(T(op, truth(self.ev(st, fr, c[0])), truth(self.ev(st, fr, c[1]))), fr, nid)
            if op == ',': return self.ev(st, fr, c[1])
            if op == '=': return self.ev(st, fr, c[1])
            a, b = self.ev(st, fr, c[0]), self.ev(st, fr, c[1])
            if a.k == 'i' and b.k == 'i' and op in '+-*':
                x, y = a.a[0], b.a[0]
                return I(x + y if op == '+' else x - y if op == '-' else x * y)
            if a.k == 'i' and b.k == 'i' and op in ('&', '|', '^', '<<', '>>') and (a.a[0] >= 0 or op == '&') and 0 <= b.a[0] < (1 << 32):
                x, y = a.a[0], b.a[0]
                if op in '&|^' or y < 32: return I(x & y if op == '&' else x | y if op == '|' else x ^ y if op == '^' else x << y if op == '<<' else x >> y)
            if op in ('+', '-') and b is ZERO: return a
            return self.cap(T(op, a, b), fr, nid)
        if k == 'ConditionalOperator':
            cnd = truth(self.ev(st, fr, c[0]))
            r = simp(cnd, st.conds)
            if r == 1: return self.ev(st, fr, c[1])
            if r == 0: return self.ev(st, fr, c[2])
            return self.cap(T('cond', cnd, self.ev(st, fr, c[1]), self.ev(st, fr, c[2])), fr, nid)
        if k == 'CXXNewExpr': return T('new', n.get('at', ''), (fr.uid, nid))
        if 'args' in n:
            t = self.callterm(st, fr, nid, n)
            return t
        if k in ('CXXScalarValueInitExpr', 'ImplicitValueInitExpr'): return ZERO
        if n.get('lv') or k in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr'):
            if k in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr'):
                return self.lv(st, fr, nid)
        if k == 'InitListExpr':
            return self.cap(T('list', tuple(self.ev(st, fr, x) for x in c), (fr.uid, nid)), fr, nid)
        if k == 'LambdaExpr': return T('lambda', n.get('lam', ''))
        return self.opaque(fr, nid, why='op:' + k)

    # ---- effects ---------------------------------------------------------
    def store(self, st, fr, nid, loc, val):
        self.invalidate(st, loc)
        v = self.rule.assign(self, st, fr, nid, loc, val)
        st.mem[loc] = v if isinstance(v, Term) else val

    def invalidate(self, st, loc):
        """loc is about to change: forget sub-locations and conditions reading it"""
        memo = {}
        if loc.k == 'fld':
            name = loc.a[1]
            # another base may alias unless it is a plain local object
            local = root(loc).k == 'var' and loc.a[0].k == 'var'
            pred = (lambda x: x is loc) if local else (lambda x: x.k == 'fld' and x.a[1] == name and not (x.a[0].k == 'var'))
        elif loc.k in ('*', 'idx', 'elem'):
            apart = self.rule.apart
            pred = lambda x: x is loc or (x.k == loc.k and x is not apart)
        else:
            pred = lambda x: x is loc
        for l in [l for l in st.mem if l is not loc and l not in self.refs and depends(l, pred, memo)]: del st.mem[l]
        olds = {}
        for l in [l for l, v in st.mem.items() if v is not loc and l not in self.refs and depends(v, pred, memo)]:
            v = st.mem[l]
            st.mem[l] = olds[v] = T('old', l, v.n)
        st.mem.pop(loc, None)
        self.outdate(st, pred, memo, olds)

    def outdate(self, st, pred, memo, olds):
        """conditions on a value that changes hold for the variable that has the value of before"""
        for c in [c for c in st.conds if depends(c, pred, memo)]:
            val = st.conds.pop(c)
            if not olds: continue
            if c in olds: c2 = olds[c]
            elif c.k in ('<', '==') and (c.a[0] in olds or c.a[1] in olds): c2 = T(c.k, olds.get(c.a[0], c.a[0]), olds.get(c.a[1], c.a[1]))
            else: continue
            if not depends(c2, pred, {}): st.conds[c2] = val

    def havoc_fields(self, st, names):
        """an out-of-line callee may write these fields"""
        if self.rule.keep: names = names - set(self.rule.keep)
        if not names: return
        allm = '*' in names
        def pred(x):
            return x.k == 'fld' and (x.a[1] in names) and x.a[0].k != 'var'
        memo = {}
        for l in [l for l in st.mem if l not in self.refs and depends(l, pred, memo)]: del st.mem[l]
        olds = {}
        for l in [l for l, v in st.mem.items() if l not in self.refs and depends(v, pred, memo)]:
            v = st.mem[l]
            st.mem[l] = olds[v] = T('old', l, v.n)
        self.outdate(st, pred, memo, olds)

    def havoc_args(self, st, fr, nid, n, obj, args):
        """locations handed out by non-const reference or pointer may change"""
        pts = n.get('pt', [])
        locs = []
        for i, a in enumerate(args):
            t = pts[i].replace('__restrict', '').strip() if i < len(pts) else ''
            if t.endswith('&') and not t.startswith('const ') and '&&' not in t: locs.append(a)
            elif t.endswith('*') and not t.startswith('const ') and a.k == '&': locs.append(a.a[0])
            elif i >= len(pts) and a.k == '&': locs.append(a.a[0])
        name = n.get('fq', '').split('::')[-1]
        if n.get('sys') and name in ('make_pair', 'pair'): locs = []       # only read what they are given
        if obj is not None and not n.get('cm') and name not in PURE_SYS and name not in self.rule.accessors and n.get('oop') not in ('->', '*', '[]', '==', '!='):
            if n['k'] not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                locs.append(obj)
        for l in locs:
            if l is self.rule.keep_obj: continue
            if l.k == 'obj': self.invalidate(st, l)
            elif l.k in ('var', 'p', 'fld', 'glob', 'idx', '*', 'elem'):
                self.invalidate(st, l)
                st.mem[l] = self.opaque(fr, nid, st, 'hv') if l.k == 'var' or l.k == 'fld' else T('hv', fr.uid, nid)

    # ---- driver ----------------------------------------------------------
    def run(self, f, this=None):
        if not f.cfg: return
        self.root_func = f
        self.stats['functions'] += 1
        self.covered.add(f.id)
        st = State()
        fr = Frame(f, None, None, ())
        fr.this = this
        self.rule.init(self, st)
        self.seen = {}
        self.summ = {}
        self.pend = {}
        self.heap = []
        self.steps = 0
        self.truncated = False
        self.push(fr, f.cfg['entry'], 0, st)
        while self.heap:
            order, pos = heapq.heappop(self.heap)
            ent = self.pend.pop(pos, None)
            if ent is None: continue
            for fr, b, i, st in self.batch(ent):
                self.steps += 1
                if self.steps > self.rule.max_steps:
                    self.truncated = True
                    self.stats['truncated'] = self.stats.get('truncated', 0) + 1
                    self.stats.setdefault('truncated_in', set()).add(f.q)
                    return
                self.block(fr, b, i, st)

    def merge(self, a, b):
        m = a.copy()
        for d in ('mem', 'bind', 'conds', 'res'):
            x, y = getattr(m, d), getattr(b, d)
            for k in [k for k, v in x.items() if y.get(k) is not v and y.get(k) != v]: del x[k]
        return m

    def batch(self, ent):
        """states waiting at one point: intersect those with equal facts when there are too many"""
        if len(ent) <= self.rule.max_states: return ent
        groups = {}
        for e in ent:
            groups.setdefault((e[3].facts, e[3].live, self.rule.apart_by(e[3])), []).append(e)
        out = []
        for g in groups.values():
            m = g[0][3]
            for e in g[1:]: m = self.merge(m, e[3])
            out.append(g[0][:3] + (m,))
        return out

    def order(self, fr, b, i):
        o = (-b, i)
        while fr.parent is not None:
            pb, pi, _ = fr.call
            o = (-pb, pi - 0.5) + o
            fr = fr.parent
        return o

    def push(self, fr, b, i, st):
        pos = (fr.uid, b, i)
        k = st.key()
        s = self.seen.setdefault(pos, set())
        if k in s: return
        s.add(k)
        if len(s) > 3 * self.rule.max_states:
            ck = (pos, st.facts, st.live, self.rule.apart_by(st))
            old = self.summ.get(ck)
            if old is None:
                m = st.copy()
            else:
                m = self.merge(old, st)
                if m.key() == old.key(): return
            self.summ[ck] = m
            st = m.copy()
        self.stats['states'] += 1
        p = self.pend.get(pos)
        if p is None:
            self.pend[pos] = [(fr, b, i, st)]
            self.seq = getattr(self, 'seq', 0) + 1
            heapq.heappush(self.heap, (self.order(fr, b, i), Pos(pos)))
        else:
            p.append((fr, b, i, st))

    def trim(self, fr, bid, st):
        """at the end of a block forget expression results nothing else can use"""
        if not st.res: return
        keep = self.keepers(fr.f)
        u = fr.uid
        st.res = {k: v for k, v in st.res.items() if k[0] != u or k[1] == 'ret' or k[1] in keep}

    def keepers(self, f):
        k = getattr(f, '_keep', None)
        if k is not None: return k
        blk = {}
        for b in f.blocks.values():
            for e in b['e']:
                if not isinstance(e, dict): blk.setdefault(e, b['id'])
        k = set()
        for e, b in blk.items():
            for a in f.ancestors(e):
                if a in blk and blk[a] != b: k.add(e); break
                if f.nodes[a]['k'].endswith('Stmt'): break
        f._keep = k
        return k

    def block(self, fr, bid, i, st):
        f = fr.f
        b = f.blocks[bid]
        if i == 0:
            self.stats['blocks'] += 1
            lab = b.get('label')
            if lab is not None and f.nodes[lab]['k'] == 'CXXCatchStmt':
                cn = f.nodes[lab]
                if 'cd' in cn:
                    st.bind[(fr.uid, cn['cd'])] = T('exc', fr.uid, lab)
                self.rule.catch_(self, st, fr, lab, cn['ct'])
        els = b['e']
        while i < len(els):
            e = els[i]
            i += 1
            if isinstance(e, dict):
                r = self.special(fr, bid, i, st, e)
                if r == 'stop': return
                continue
            r = self.element(fr, bid, i, st, e)
            if r == 'stop': return
        if bid == f.cfg['exit']:
            self.leave(fr, st)
            return
        if b.get('noret'): return
        succ = b['s']
        term = b.get('term')
        tk = f.nodes[term]['k'] if term is not None else None
        cid = self.last_cond(f, b) if 'cond' in b and b['cond'] >= 0 else None
        cval = self.ev(st, fr, cid) if cid is not None else None
        self.trim(fr, bid, st)
        if len(succ) == 2 and 'cond' in b and not b.get('tdb') and tk != 'SwitchStmt':
            cn = b['cond']
            ct = truth(cval)
            for val, s in ((True, succ[0]), (False, succ[1])):
                if s < 0: continue
                ns = st.copy()
                if not refine(ct, val, ns.conds): continue
                if self.rule.branch(self, ns, fr, ct, val, term, cn) is False: continue
                self.push(fr, s, 0, ns)
        elif tk == 'SwitchStmt':
            ct = cval
            labels = []
            for s in succ + ([b['du']] if self.rule.open_enums and 'du' in b else []):
                if s < 0: continue
                lab = f.blocks[s].get('label')
                ln = f.nodes[lab] if lab is not None else None
                if ln is not None and ln['k'] == 'CaseStmt' and 'lo' in ln and term in self.switch_of(f, lab):
                    labels.append((s, int(ln['lo']), int(ln.get('hi', ln['lo']))))
                else:
                    labels.append((s, None, None))
            done = set()
            for s, lo, hi in labels:
                ns = st.copy()
                if lo is not None:
                    if ct.k == 'i':
                        if not (lo <= ct.a[0] <= hi): continue
                    elif lo == hi:
                        if not refine(mkcmp('==', ct, I(lo)), True, ns.conds): continue
                    else:
                        if not refine(mkcmp('>=', ct, I(lo)), True, ns.conds): continue
                        if not refine(mkcmp('<=', ct, I(hi)), True, ns.conds): continue
                else:
                    ok = True
                    for s2, lo2, hi2 in labels:
                        if lo2 is None: continue
                        if ct.k == 'i':
                            if lo2 <= ct.a[0] <= hi2: ok = False
                        elif lo2 == hi2 and not refine(mkcmp('==', ct, I(lo2)), False, ns.conds): ok = False
                    if not ok: continue
                if self.rule.branch(self, ns, fr, ct, None if lo is None else lo, term, b['cond']) is False: continue
                self.push(fr, s, 0, ns)
        elif tk == 'CXXTryStmt' and self.is_try_block(f, b):
            return
        else:
            for s in succ:
                if s < 0: continue
                self.push(fr, s, 0, st.copy() if len(succ) > 1 else st)

    def last_cond(self, f, b):
        """the operand a block decides on: behind a short circuit the earlier operands are settled"""
        r = b.get('lc')
        if r is None:
            r = b['cond']
            els = {e for e in b['e'] if not isinstance(e, dict)}
            while True:
                n = f.nodes[r]
                if n['k'] == 'ParenExpr': r = n['c'][0]
                elif n['k'] == 'BinaryOperator' and n['op'] in ('&&', '||') and any(x in els for x in f.walk(n['c'][1])): r = n['c'][1]
                else: break
            b['lc'] = r
        return r

    def is_try_block(self, f, b):
        return f.nodes[b['term']]['k'] == 'CXXTryStmt'

    def switch_of(self, f, lab):
        for a in f.ancestors(lab):
            if f.nodes[a]['k'] == 'SwitchStmt': return (a,)
        return ()

    def special(self, fr, bid, i, st, e):
        x = e['x']
        if x == 'init':
            this = fr.this if fr.this is not None else THIS
            if 'm' in e:
                loc = T('fld', deref(this), e['m']) if e['m'] else deref(this)
                en = fr.f.nodes[e['e']] if e['e'] >= 0 else None
                if en is not None:
                    fty = self.field_type(fr.f.cls, e['m'])
                    if fty is not None and fty.endswith('&'):
                        st.mem[loc] = self.lv(st, fr, e['e'])
                        self.refs.add(loc)
                    else:
                        self.store(st, fr, e['e'], loc, self.arg(st, fr, e['e']))
        elif x == 'dtor':
            loc = self.varloc(fr, st, e['d'])
            st.live = tuple(l for l in st.live if l[1] is not loc)
            self.rule.dtor(self, st, fr, loc, e['t'], False)
            fn = e.get('fn')
            g = self.prog.funcs.get(fn) if fn else None
            if g is not None and g.cfg and self.can_inline(fr, g) and self.rule.inline(self, st, fr, -1, {'fq': g.q, 'fn': fn, 'args': []}, g):
                self.enter(fr, bid, i, st, g, ('d', e['d']), addr(loc), [], None)
                return 'stop'
        return None

    def field_type(self, cls, m):
        c = self.prog.classes.get(cls)
        while c:
            for fl in c['fields']:
                if fl['n'] == m: return fl['t']
            return None

    def can_inline(self, fr, g):
        if fr.depth >= self.rule.inline_depth: return False
        for x in self.framechain(fr):
            if x.f.id == g.id: return False
        return True

    def enter(self, fr, bid, i, st, g, callid, this, args, callnode):
        uid = fr.uid + ((callid, g.id),)
        nf = Frame(g, fr, (bid, i, callid), uid)
        nf.this = this
        self.stats['inlined'] += 1
        self.covered.add(g.id)
        # drop stale bindings of an earlier visit of the same context
        self.purge(st, uid)
        for k, p in enumerate(g.params):
            key = (uid, p['d'])
            v = args[k] if k < len(args) else T('noarg', uid, k)
            if p['t'].endswith('&'):
                st.bind[key] = v
            else:
                loc = T('var', uid, p['d'])
                st.mem[loc] = v
        self.push(nf, g.cfg['entry'], 0, st)

    def purge(self, st, uid):
        n = len(uid)
        st.bind = {k: v for k, v in st.bind.items() if k[0][:n] != uid}
        st.res = {k: v for k, v in st.res.items() if k[0][:n] != uid}
        for l in [l for l in st.mem if self.rooted_in(l, uid)]: del st.mem[l]

    def rooted_in(self, l, uid):
        r = root(l)
        return r.k == 'var' and r.a[0][:len(uid)] == uid

    def leave(self, fr, st):
        if fr.parent is None:
            self.rule.exit(self, st)
            return
        bid, i, callid = fr.call
        rv = st.res.pop((fr.uid, 'ret'), None)
        retref = fr.f.ret.endswith('&')
        self.purge(st, fr.uid)
        pf = fr.parent
        if isinstance(callid, int):
            if rv is None and fr.f.kind == 'ctor':
                rv = fr.this.a[0] if fr.this.k == '&' else deref(fr.this)
            if rv is None: rv = T('void', pf.uid, callid)
            st.res[(pf.uid, callid)] = rv
            n = pf.f.nodes[callid]
            obj, args = self.callee_terms(st, pf, callid, n)
            self.rule.after(self, st, pf, callid, n, obj, args, rv)
        self.push(pf, bid, i, st)

    def callee_terms(self, st, fr, nid, n):
        obj = None
        if 'obj' in n:
            on = fr.f.nodes[n['obj']]
            if on.get('t', '').endswith('*') and not n.get('oop'):
                obj = deref(self.ev(st, fr, n['obj']))
            else:
                obj = self.lv(st, fr, n['obj'])
        args = tuple(self.arg(st, fr, a) for a in n['args'])
        return obj, args

    def element(self, fr, bid, i, st, nid):
        f = fr.f
        n = f.nodes[nid]
        k = n['k']
        self.rule.elem(self, st, fr, nid, n)
        if 'args' in n:
            self.stats['calls'] += 1
            st.res.pop((fr.uid, nid), None)
            obj, args = self.callee_terms(st, fr, nid, n)
            self.rule.call(self, st, fr, nid, n, obj, args)
            if self.rule.exc and self.rule.may_throw(self, st, fr, nid, n):
                self.throw(fr, st.copy(), nid, None)
            g = None
            if n.get('virt'):
                fid = self.rule.devirt(self, st, fr, nid, n, obj)
                if fid: g = self.prog.funcs.get(fid)
            elif n.get('fn'):
                g = self.prog.funcs.get(n['fn'])
            if g is not None and g.cfg and (self.rule.inline_copy or not (n.get('copy') or n.get('move'))) and self.can_inline(fr, g) \
                    and self.rule.inline(self, st, fr, nid, n, g):
                if g.kind == 'ctor' and self.rule.base_init and any(x['e'] == nid and not x.get('m') for x in f.inits):
                    this = fr.this if fr.this is not None else THIS
                elif g.kind == 'ctor':
                    this = T('&', T('obj', g.cls, (fr.uid, nid)))
                    self.kill_obj(st, this.a[0])
                elif obj is not None:
                    this = addr(obj)
                else:
                    this = None
                # by-value class arguments are the constructed copies
                self.enter(fr, bid, i, st, g, nid, this, list(args), nid)
                return 'stop'
            # lambda / function objects: out of line
            if n.get('nr'): return 'stop'
            pre = self.callterm(st, fr, nid, n)
            if pre.k in ('call', 'ctor') and pre.a[-1] is not None:
                self.forget(st, pre)
            self.havoc_args(st, fr, nid, n, obj, args)
            if g is not None or n.get('virt'):
                w = set()
                for t in self.prog.targets(n):
                    w |= self.eff.writes.get(t, set()) if self.eff else set()
                self.havoc_fields(st, w)
            self.special_call(st, fr, nid, n, obj, args)
            st.res[(fr.uid, nid)] = pre
            self.rule.after(self, st, fr, nid, n, obj, args, pre)
        elif k == 'BinaryOperator' and n['op'] == '=':
            c = n['c']
            loc = self.lv(st, fr, c[0])
            val = self.ev(st, fr, c[1])
            self.store(st, fr, nid, loc, val)
            st.res[(fr.uid, nid)] = val if not n.get('lv') else loc
        elif k == 'CompoundAssignOperator':
            c = n['c']
            loc = self.lv(st, fr, c[0])
            t = self.opaque(fr, nid, st)
            self.store(st, fr, nid, loc, t)
        elif k == 'UnaryOperator' and n['op'] in ('++', '--', 'post++', 'post--'):
            loc = self.lv(st, fr, n['c'][0])
            old = self.value_of(st, loc)
            t = self.opaque(fr, nid, st)
            if mentions(old, lambda x: x is t): old = T('prev', fr.uid, nid)
            self.store(st, fr, nid, loc, t)
            if n['op'].startswith('post'): st.res[(fr.uid, nid)] = old
            elif not n.get('lv'): st.res[(fr.uid, nid)] = t
        elif k == 'ImplicitCastExpr' and n.get('ck') == 'LValueToRValue':
            st.res.pop((fr.uid, nid), None)
            self.rule.load(self, st, fr, nid, self.lv(st, fr, n['c'][0]))
            v = self.ev(st, fr, nid)
            # remember loads that later stores in the same expression may change
            st.res[(fr.uid, nid)] = v
        elif k == 'DeclStmt':
            for v in n['vars']:
                key = (fr.uid, v['d'])
                st.bind.pop(key, None)
                loc = self.varloc(fr, st, v['d'])
                if v.get('static'): continue
                if v['t'].endswith('&'):
                    if 'init' in v: st.bind[key] = self.lv(st, fr, v['init'])
                    continue
                for l in [l for l in st.mem if root(l) is loc]: del st.mem[l]
                memo = {}
                for cnd in [x for x in st.conds if mentions(x, lambda y: y is loc, memo)]: del st.conds[cnd]
                val = self.ev(st, fr, v['init']) if 'init' in v else None
                cls = v['t'].replace('const ', '')
                if val is not None and val.k == 'obj':
                    # inlined constructor: the variable is that object
                    st.bind[key] = val
                    loc = val
                elif val is not None:
                    if mentions(val, lambda y: y is loc, {}): val = T('old', loc, val.n)
                    st.mem[loc] = val
                else:
                    st.mem[loc] = T('uninit', fr.uid, nid, v['n'])
                d = self.prog.dtor_of(cls)
                if d or cls.startswith('std::'):
                    st.live = tuple(l for l in st.live if l[1] is not loc) + ((fr.uid, loc, cls, nid),)
                self.rule.declare(self, st, fr, v, loc, val)
        elif k == 'ReturnStmt':
            val = None
            if n.get('c'):
                val = self.lv(st, fr, n['c'][0]) if f.ret.endswith('&') else self.ev(st, fr, n['c'][0])
                if not f.ret.endswith('&') and val.k == 'copy' and val.a[0].k not in ('var', 'p', 'fld'):
                    val = val.a[0]
            self.rule.ret(self, st, fr, nid, val)
            if fr.parent is not None:
                if val is not None: st.res[(fr.uid, 'ret')] = val
        elif k == 'CXXThrowExpr':
            if self.rule.exc:
                self.throw(fr, st, nid, n.get('tt'))
            else:
                self.rule.exc_exit(self, st, (fr, nid), n.get('tt'))
            return 'stop'
        elif k == 'CXXNewExpr':
            if self.rule.exc and not n.get('nt') and self.rule.may_throw(self, st, fr, nid, n):
                self.throw(fr, st.copy(), nid, None)
            t = T('new', n.get('at', ''), (fr.uid, nid))
            self.forget(st, t)
        elif k == 'ConditionalOperator':
            st.res.pop((fr.uid, nid), None)
            v = self.lv(st, fr, nid) if n.get('lv') else self.ev(st, fr, nid)
            st.res[(fr.uid, nid)] = v
        elif k == 'BinaryOperator' and n['op'] in ('&&', '||'):
            # its operands may be gone where it is tested
            st.res.pop((fr.uid, nid), None)
            a = simp(truth(self.ev(st, fr, n['c'][0])), st.conds)
            st.res[(fr.uid, nid)] = I(int(n['op'] == '||')) if a == int(n['op'] == '||') else truth(self.ev(st, fr, n['c'][1])) if a is not None else self.ev(st, fr, nid)
        elif k in ('ExprWithCleanups',) :
            # end of full expression: results inside are dead except its own value
            pass
        return None

    def special_call(self, st, fr, nid, n, obj, args):
        """library calls whose effect on a value is worth tracking"""
        fq = n.get('fq', '')
        name = fq.split('::')[-1]
        if n.get('oop') == '=' and n.get('sys') and obj is not None and len(args) == 1:
            self.store(st, fr, nid, obj, self.value_of(st, args[0]))
        elif name == 'reset' and obj is not None and n.get('cls', '').startswith('std::') and 'shared_ptr' in n.get('cls', ''):
            self.store(st, fr, nid, obj, args[0] if args else ZERO)
        elif name == 'swap' and n.get('sys'):
            a, b = (obj, args[0]) if obj is not None and len(args) == 1 else (args[0], args[1]) if len(args) == 2 else (None, None)
            if a is not None:
                va, vb = T('swapped', fr.uid, nid, b), T('swapped', fr.uid, nid, a)
                self.store(st, fr, nid, a, va); self.store(st, fr, nid, b, vb)

    def kill_obj(self, st, o):
        memo = {}
        pred = lambda x: x is o
        for l in [l for l in st.mem if mentions(l, pred, memo)]: del st.mem[l]
        for c in [c for c in st.conds if mentions(c, pred, memo)]: del st.conds[c]

    # ---- exceptions ------------------------------------------------------
    def throw(self, fr, st, nid, ty):
        first = True
        cur = nid
        n0 = fr.f.nodes[nid]
        if n0['k'] == 'CXXThrowExpr' and n0.get('rethrow'):
            # the exception being handled
            for a in fr.f.ancestors(nid):
                if fr.f.nodes[a]['k'] == 'CXXCatchStmt':
                    ct = fr.f.nodes[a]['ct']
                    if ct != '...': ty = ct.replace('const ', '').rstrip(' &*')
                    break
        site = (fr, nid)
        while True:
            f = fr.f
            for tr in self.enclosing_tries(f, cur):
                self.unwind(st, fr, tr)
                caught = False
                for h in f.nodes[tr]['c'][1:]:
                    m = self.handler_matches(f.nodes[h]['ct'], ty)
                    if not m: continue
                    for b in f.blocks.values():
                        if b.get('label') == h:
                            self.push(fr, b['id'], 0, st.copy())
                    if m == 'all': caught = True; break
                if caught: return
            self.unwind(st, fr, None)
            if fr.parent is None:
                self.rule.exc_exit(self, st, site, ty)
                return
            callid = fr.call[2]
            self.purge(st, fr.uid)
            if not isinstance(callid, int): return   # destructors do not throw
            cur = callid
            fr = fr.parent

    def unwind(self, st, fr, tr):
        """destroy automatic objects of this frame (inside try tr, or all)"""
        out = []
        for l in reversed(st.live):
            if l[0] == fr.uid and (tr is None or tr in fr.f.ancestors(l[3])):
                self.rule.dtor(self, st, fr, l[1], l[2], True)
            else:
                out.append(l)
        st.live = tuple(reversed(out))

    def enclosing_tries(self, f, nid):
        prev = nid
        out = []
        for a in f.ancestors(nid):
            n = f.nodes[a]
            if n['k'] == 'CXXTryStmt' and n['c'][0] == prev: out.append(a)
            prev = a
        return out

    STD = {'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'],
           'std::bad_alloc': ['std::exception'], 'std::out_of_range': ['std::logic_error', 'std::exception'],
           'std::length_error': ['std::logic_error', 'std::exception'],
           'std::invalid_argument': ['std::logic_error', 'std::exception'],
           'std::domain_error': ['std::logic_error', 'std::exception']}

    def handler_matches(self, ct, ty):
        ct = ct.replace('const ', '').rstrip(' &*')
        if ct == '...': return 'all'
        if ty is None:
            return 'all' if ct == 'std::exception' else 'some'
        if ct == ty: return 'all'
        bs = self.exc_bases(ty)
        if ct in bs: return 'all'
        if ty in self.exc_bases(ct): return 'some'
        return None

    def exc_bases(self, ty):
        out, stk = [], [ty]
        while stk:
            x = stk.pop()
            bs = self.STD.get(x) or (self.prog.classes[x]['bases'] if x in self.prog.classes else [])
            for b in bs:
                if b not in out: out.append(b); stk.append(b)
        return out


class Effects:
    """per-function summaries over the call graph: fields possibly written,
    whether an exception can leave the function, functions reachable"""
    def __init__(self, prog):
        self.prog = prog
        self.callees = {}
        self.writes = {}
        self.direct = {}
        for f in prog.funcs.values():
            cs = []
            w = set()
            for i, n in enumerate(f.nodes):
                if n is None: continue
                if 'args' in n:
                    cs.append((i, n))
                    name = n.get('fq', '').split('::')[-1]
                    if 'obj' in n and not n.get('cm') and name not in PURE_SYS:
                        m = self.fieldname(f, n['obj'])
                        if m and n.get('sys'): w.add(m)
                    for k, a in enumerate(n['args']):
                        pt = n.get('pt', [])
                        if k < len(pt) and pt[k].endswith('&') and not pt[k].startswith('const ') and '&&' not in pt[k]:
                            m = self.fieldname(f, a)
                            if m: w.add(m)
                elif n['k'] in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                    m = self.fieldname(f, n['c'][0])
                    if m: w.add(m)
                elif n['k'] == 'UnaryOperator' and n['op'] in ('++', '--', 'post++', 'post--', '&'):
                    m = self.fieldname(f, n['c'][0])
                    if m and not (n['op'] == '&' and self.const_use(f, i)): w.add(m)
            for b in (f.cfg['b'] if f.cfg else []):
                for e in b['e']:
                    if isinstance(e, dict) and e['x'] == 'dtor' and e.get('fn'):
                        cs.append((-1, {'fn': e['fn'], 'args': [], 'fq': '~'}))
            self.callees[f.id] = cs
            self.direct[f.id] = w
        # fixpoint over the call graph
        succ = {}
        for fid, cs in self.callees.items():
            s = set()
            for i, n in cs:
                for t in prog.targets(n):
                    if t in prog.funcs: s.add(t)
            succ[fid] = s
        self.succ = succ
        self.pred = {}
        for a, ss in succ.items():
            for b in ss: self.pred.setdefault(b, set()).add(a)
        wr = {k: set(v) for k, v in self.direct.items()}
        work = list(wr)
        while work:
            x = work.pop()
            for p in self.pred.get(x, ()):
                if not wr[x] <= wr[p]:
                    wr[p] |= wr[x]
                    work.append(p)
        self.writes = wr
        self._throws = None

    def const_use(self, f, i):
        return False

    def fieldname(self, f, nid):
        nid = f.strip(nid)
        n = f.nodes[nid]
        if n['k'] == 'MemberExpr' and n['mk'] == 'Field':
            if not n['m'] and n.get('c'): return self.fieldname(f, n['c'][0])
            return n['m']
        if n['k'] == 'ArraySubscriptExpr': return self.fieldname(f, n['c'][0])
        return None

    def reach(self, fid):
        seen, st = {fid}, [fid]
        while st:
            x = st.pop()
            for y in self.succ.get(x, ()):
                if y not in seen: seen.add(y); st.append(y)
        return seen

    def path(self, src, dst):
        """shortest call chain src..dst (ids)"""
        prev = {src: None}
        q = [src]
        while q:
            x = q.pop(0)
            if x == dst:
                out = []
                while x is not None: out.append(x); x = prev[x]
                return out[::-1]
            for y in sorted(self.succ.get(x, ())):
                if y not in prev: prev[y] = x; q.append(y)
        return None
