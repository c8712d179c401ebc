"""Integer ranges over a control-flow graph: a set of range environments per
block while there are few, joined and widened (to the constants and table sizes
of the function) when there are many.  Helpers get the ranges of the arguments
of all their call sites, and their return ranges flow back."""
import re

INF = float('inf')
BITS = {'bool': (0, 1), 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-(1 << 15), (1 << 15) - 1), 'unsigned short': (0, (1 << 16) - 1),
        'int': (-(1 << 31), (1 << 31) - 1), 'unsigned int': (0, (1 << 32) - 1), 'long': (-(1 << 63), (1 << 63) - 1), 'unsigned long': (0, (1 << 64) - 1),
        'long long': (-(1 << 63), (1 << 63) - 1), 'unsigned long long': (0, (1 << 64) - 1), 'wchar_t': (-(1 << 31), (1 << 31) - 1)}
TOP = (-INF, INF)
CT = ('isspace', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'isxdigit', 'isprint', 'isblank', 'iscntrl', 'isgraph', 'ispunct', 'toupper', 'tolower', 'isascii')


def trange(t, prog=None):
    t = re.sub(r'\b(const|volatile|struct|enum) ', '', t or '').rstrip(' &')
    r = BITS.get(t)
    if r: return r
    if prog is not None and t in prog.enum_types: return (-(1 << 31), (1 << 32) - 1)
    return None


def isint(t, prog=None): return trange(t, prog) is not None


def meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    return (lo, hi) if lo <= hi else None


def join(a, b): return (min(a[0], b[0]), max(a[1], b[1]))


def pow2(x):
    if x == INF: return INF
    n = 1
    while n <= x: n <<= 1
    return n - 1


class World:
    """what is shared between functions: tables, field ranges, call sites"""
    def __init__(self, prog, helper, callers):
        self.prog = prog; self.helper = helper; self.callers = callers
        prog.enum_types = {e['t'] for e in prog.enums.values()} | set(prog.enums)
        self.done = {}
        self.active = set()
        self.fields = {}
        self.ret = {}
        self.par = {}
        written = set()
        for f in prog.funcs.values():
            for i, n in enumerate(f.nodes):
                if not n: continue
                t = None
                if n['k'] in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='): t = n['c'][0]
                elif n['k'] == 'UnaryOperator' and n['op'] in ('++', '--', 'post++', 'post--'): t = n['c'][0]
                if t is None: continue
                x = f.nodes[f.strip(t)]
                while x['k'] == 'ArraySubscriptExpr': x = f.nodes[f.strip(x['c'][0])]
                if x['k'] == 'DeclRefExpr': written.add(x['d'])
        self.tables = {}
        for k, v in prog.vars.items():
            if k in written: continue
            if isinstance(v.get('val'), list): self.tables[k] = v['val']
            elif isinstance(v.get('val'), int): self.tables[k] = v['val']
            elif v.get('str') is not None and '[' in v['t']: self.tables[k] = [ord(c) if ord(c) < 128 else ord(c) for c in v['str']] + [0]

    def size(self, t):
        m = re.search(r'\[(\d+)\]', t or '')
        return int(m.group(1)) if m else None

    def param(self, f, i):
        """range of parameter i over the call sites of a helper"""
        if not self.helper(f): return None
        k = (f.id, i)
        if k in self.par: return self.par[k]
        self.par[k] = None
        r = None
        for cid in self.callers.get(f.id, ()):
            c = self.prog.funcs.get(cid)
            if c is None or not c.cfg or c.id in self.active: return None
            a = self.analyse(c)
            for nid, n in c.calls():
                if n.get('fn') != f.id: continue
                if i >= len(n['args']): return None
                v = a.at.get(nid, {}).get(('arg', i))
                if v is None:
                    if nid in a.reached: return None
                    continue
                r = v if r is None else join(r, v)
        self.par[k] = r
        return r

    def returns(self, f):
        if f.id in self.ret: return self.ret[f.id]
        self.ret[f.id] = None
        if f.cfg and f.id not in self.active and isint(f.ret, self.prog):
            a = self.analyse(f)
            self.ret[f.id] = a.result
        return self.ret[f.id]

    def analyse(self, f):
        a = self.done.get(f.id)
        if a is None:
            self.active.add(f.id)
            a = Ranges(self, f)
            a.run()
            self.active.discard(f.id)
            self.done[f.id] = a
        return a


class Ranges:
    limit = 24
    def __init__(self, w, f):
        self.w = w; self.f = f; self.prog = w.prog
        self.at = {}            # call -> argument ranges; subscript -> index range
        self.reached = set()
        self.result = None
        self.taken = set()
        consts = {0, -1, 1}
        for i, n in enumerate(f.nodes):
            if not n: continue
            if n['k'] == 'UnaryOperator' and n['op'] == '&':
                x = f.nodes[f.strip(n['c'][0])]
                if x['k'] == 'DeclRefExpr': self.taken.add(x['d'])
            if n['k'] == 'LambdaExpr':
                for m in f.nodes:
                    if m and m['k'] == 'DeclStmt': self.taken.update(v['d'] for v in m['vars'])
            if 'cv' in n:
                try: consts.add(int(n['cv']))
                except (TypeError, ValueError): pass
            s = w.size(n.get('dt') or n.get('t'))
            if s: consts |= {s, s - 1}
        self.thr = sorted(consts)
        self.types = {p['d']: p['t'] for p in f.params}
        for n in f.nodes:
            if n and n['k'] == 'DeclStmt':
                for v in n['vars']: self.types[v['d']] = v['t']
        # references are other names for something else
        self.taken |= {d for d, t in self.types.items() if t.rstrip().endswith('&')}

    # ---- lvalues
    def key(self, i):
        f = self.f
        n = f.nodes[f.strip(i)]
        if n['k'] == 'DeclRefExpr':
            d = n['d']
            if d in self.types and d not in self.taken and isint(self.types[d], self.prog): return d
            return None
        if n['k'] == 'MemberExpr' and isint(n.get('dt') or n.get('t'), self.prog):
            b = self.path(n['c'][0]) if n.get('c') else None
            if b is not None: return 'F:%s.%s' % (b, n['m'])
        return None
    def path(self, i):
        f = self.f
        n = f.nodes[f.strip(i)]
        if n['k'] == 'DeclRefExpr': return n.get('dn') or n['d']
        if n['k'] == 'CXXThisExpr': return 'this'
        if n['k'] == 'MemberExpr' and n.get('c'):
            b = self.path(n['c'][0])
            return None if b is None else b + '.' + n['m']
        return None

    def default(self, i):
        f = self.f
        n = f.nodes[f.strip(i)]
        if n['k'] == 'MemberExpr':
            r = self.w.fields.get(n.get('mq') or n.get('m'))
            if r is not None: return r
        if n['k'] == 'DeclRefExpr' and n['d'] in f.pidx:
            r = self.w.param(f, f.pidx[n['d']])
            if r is not None: return r
        return trange(n.get('dt') or n.get('t'), self.prog) or TOP

    # ---- expressions
    def ev(self, env, i):
        f = self.f
        n = f.nodes[i]
        if 'cv' in n:
            try: return (int(n['cv']),) * 2
            except (TypeError, ValueError): pass
        k = n['k']
        c = n.get('c', [])
        tr = trange(n.get('t'), self.prog)
        if k in ('IntegerLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr'):
            return (int(n['v']),) * 2
        if k.endswith('CastExpr') and c:
            ck = n.get('ck')
            if ck == 'LValueToRValue': return self.load(env, c[0])
            v = self.ev(env, c[0])
            if ck in ('IntegralCast', 'NoOp', 'ConstructorConversion', None) or ck == 'IntegralCast':
                if tr is None: return v
                if v[0] >= tr[0] and v[1] <= tr[1]: return v
                if v[0] == v[1] and v[0] not in (INF, -INF):
                    w = tr[1] - tr[0] + 1
                    x = (v[0] - tr[0]) % w + tr[0]
                    return (x, x)
                return tr
            if ck in ('IntegralToBoolean', 'PointerToBoolean'): return (0, 1)
            return tr or v
        if k in ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'CXXDefaultArgExpr', 'MaterializeTemporaryExpr', 'SubstNonTypeTemplateParmExpr'):
            return self.ev(env, c[0]) if c else tr or TOP
        if k == 'DeclRefExpr' or k == 'MemberExpr' or k == 'ArraySubscriptExpr': return self.load(env, i)
        r = None
        if k == 'UnaryOperator':
            op = n['op']
            if op in ('++', '--'): return self.load(env, c[0])
            if op in ('post++', 'post--'):
                v = self.load(env, c[0])
                d = -1 if op == 'post++' else 1
                return (v[0] + d, v[1] + d)
            if op == '-':
                v = self.ev(env, c[0]); r = (-v[1], -v[0])
            elif op == '+': r = self.ev(env, c[0])
            elif op == '~':
                v = self.ev(env, c[0]); r = (-v[1] - 1, -v[0] - 1)
            elif op == '!': return (0, 1)
        elif k == 'BinaryOperator':
            op = n['op']
            if op == ',': return self.ev(env, c[1])
            if op == '=': return self.ev(env, c[1])
            if op in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'): return (0, 1)
            r = self.arith(op, self.ev(env, c[0]), self.ev(env, c[1]))
        elif k == 'CompoundAssignOperator':
            return self.load(env, c[0])
        elif k == 'ConditionalOperator':
            a = [self.ev(e2, x) for e2, x in ((self.assume(env, c[0], True), c[1]), (self.assume(env, c[0], False), c[2])) if e2 is not None]
            if a: r = a[0] if len(a) == 1 else join(a[0], a[1])
        elif 'args' in n:
            nm = (n.get('fq') or '').split('::')[-1]
            if nm in ('min', 'max') and len(n['args']) == 2:
                a, b = self.ev(env, n['args'][0]), self.ev(env, n['args'][1])
                r = (min(a[0], b[0]), min(a[1], b[1])) if nm == 'min' else (max(a[0], b[0]), max(a[1], b[1]))
            elif n.get('sys') and nm in ('tolower', 'toupper'):
                a = self.ev(env, n['args'][0])
                r = join(a, (-1, 255)) if a[0] >= -1 and a[1] <= 255 else join(a, (0, 255))
            elif n.get('sys') and nm in ('fgetc', 'getc', 'getchar', 'get', 'sgetc', 'sbumpc'): r = (-1, 255) if tr and tr[1] > 255 else tr
            elif not n.get('sys') and not n.get('virt') and n.get('fn'):
                g = self.prog.funcs.get(n['fn'])
                if g is not None: r = self.w.returns(g)
        if r is None: return tr or TOP
        if tr is not None and (r[0] < tr[0] or r[1] > tr[1]): return tr
        return r

    def arith(self, op, a, b):
        if op == '+': return (a[0] + b[0], a[1] + b[1])
        if op == '-': return (a[0] - b[1], a[1] - b[0])
        fin = all(abs(x) != INF for x in a + b)
        if op == '*' and fin:
            p = [x * y for x in a for y in b]
            return (min(p), max(p))
        if op == '/' and fin and b[0] > 0:
            q = [int(x / y) if abs(x) < 1 << 52 else x // y for x in a for y in b]
            return (min(q), max(q))
        if op == '%' and b[0] > 0 and b[1] != INF:
            return (0 if a[0] >= 0 else -(b[1] - 1), min(b[1] - 1, a[1]) if a[0] >= 0 else b[1] - 1)
        if op == '&':
            if b[0] >= 0 and a[0] >= 0: return (0, min(a[1], b[1]))
            if b[0] >= 0: return (0, b[1])
            if a[0] >= 0: return (0, a[1])
            return None
        if op in ('|', '^') and a[0] >= 0 and b[0] >= 0: return (max(a[0], b[0]) if op == '|' else 0, pow2(max(a[1], b[1])))
        if op == '<<' and b[0] >= 0 and b[1] < 64 and fin and a[0] >= 0: return (a[0] << b[0], a[1] << b[1])
        if op == '>>' and b[0] >= 0 and b[1] < 128 and fin: return (min(a[0] >> b[0], a[0] >> b[1]), max(a[1] >> b[0], a[1] >> b[1]))
        return None

    def load(self, env, i):
        f = self.f
        j = f.strip(i)
        n = f.nodes[j]
        k = self.key(i)
        if k is not None:
            v = env.get(k)
            return v if v is not None else self.default(i)
        if n['k'] == 'DeclRefExpr':
            v = self.w.tables.get(n['d'])
            if isinstance(v, int): return (v, v)
            if n['d'] in f.pidx: return self.default(i)
        if n['k'] == 'ArraySubscriptExpr':
            v = self.elements(env, j)
            if v and all(isinstance(x, int) for x in v):
                return (min(v), max(v))
        if n['k'] in ('UnaryOperator', 'BinaryOperator', 'ConditionalOperator', 'CompoundAssignOperator') and not (n['k'] == 'UnaryOperator' and n['op'] == '*'):
            return self.ev(env, j)
        return trange(n.get('t'), self.prog) or TOP

    def elements(self, env, j):
        """values of a constant table an index can select"""
        f = self.f
        n = f.nodes[j]
        b = f.nodes[f.strip(n['c'][0])]
        if b['k'] == 'DeclRefExpr': t = self.w.tables.get(b['d'])
        elif b['k'] == 'ArraySubscriptExpr':
            rows = self.elements(env, f.strip(n['c'][0]))
            if not rows or not all(isinstance(r, list) for r in rows): return None
            ix = self.ev(env, n['c'][1])
            out = []
            for r in rows:
                lo, hi = max(0, ix[0]), min(len(r) - 1, ix[1])
                if lo <= hi: out += r[int(lo):int(hi) + 1]
            return out
        else: return None
        if not isinstance(t, list): return None
        ix = self.ev(env, n['c'][1])
        lo, hi = max(0, ix[0]), min(len(t) - 1, ix[1])
        if lo > hi: return None
        return t[int(lo):int(hi) + 1]

    # ---- conditions
    def assume(self, env, i, val):
        f = self.f
        n = f.nodes[i]
        k = n['k']
        c = n.get('c', [])
        if 'cv' in n:
            try: return env if bool(int(n['cv'])) == val else None
            except (TypeError, ValueError): pass
        if k in ('ParenExpr', 'ExprWithCleanups', 'ConstantExpr') and c: return self.assume(env, c[0], val)
        if k.endswith('CastExpr') and c:
            if n.get('ck') == 'LValueToRValue' : pass
            else: return self.assume(env, c[0], val)
        if k == 'UnaryOperator' and n['op'] == '!': return self.assume(env, c[0], not val)
        if k == 'BinaryOperator' and n['op'] in ('&&', '||'):
            if (n['op'] == '&&') == val:
                e = self.assume(env, c[0], val)
                return None if e is None else self.assume(e, c[1], val)
            a, b = self.assume(env, c[0], val), self.assume(env, c[1], val)
            if a is None or b is None: return a if b is None else b
            return self.joinenv(a, b)
        if k == 'BinaryOperator' and n['op'] in ('==', '!=', '<', '>', '<=', '>='):
            op = n['op']
            if not val: op = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[op]
            a, b = self.ev(env, c[0]), self.ev(env, c[1])
            env = self.narrow(env, c[0], op, b)
            if env is None: return None
            env = self.narrow(env, c[1], {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op), a)
            if env is None: return None
            # contradiction on the values themselves
            if op == '<' and a[0] >= b[1] or op == '<=' and a[0] > b[1] or op == '>' and a[1] <= b[0] or op == '>=' and a[1] < b[0]: return None
            if op == '==' and (a[0] > b[1] or b[0] > a[1]): return None
            if op == '!=' and a[0] == a[1] == b[0] == b[1]: return None
            return self.relation(env, c[0], op, c[1])
        if k == 'BinaryOperator' and n['op'] == ',': return self.assume(env, c[1], val)
        # truth of a value
        j = f.strip(i)
        m = f.nodes[j]
        if m['k'] == 'ArraySubscriptExpr' or k == 'ImplicitCastExpr' and m['k'] == 'ArraySubscriptExpr':
            return self.table_truth(env, j, val)
        kk = self.key(i) if m['k'] in ('DeclRefExpr', 'MemberExpr') else None
        if kk is not None: return self.narrow(env, i, '!=' if val else '==', (0, 0))
        return env
    def table_truth(self, env, j, val):
        f = self.f
        n = f.nodes[j]
        b = f.nodes[f.strip(n['c'][0])]
        t = self.w.tables.get(b['d']) if b['k'] == 'DeclRefExpr' else None
        if not isinstance(t, list): return env
        kk = self.key(n['c'][1])
        if kk is None: return env
        ix = self.ev(env, n['c'][1])
        ok = [x for x, v in enumerate(t) if bool(v) == val and ix[0] <= x <= ix[1]]
        if not ok: return None
        e = dict(env)
        e[kk] = (min(ok), max(ok))
        return e
    def narrow(self, env, i, op, b):
        f = self.f
        # through value preserving casts
        j = i
        while True:
            n = f.nodes[j]
            if n['k'] in ('ParenExpr', 'ConstantExpr', 'ExprWithCleanups') and n.get('c'): j = n['c'][0]; continue
            if n['k'].endswith('CastExpr') and n.get('c'):
                if n.get('ck') == 'LValueToRValue': j = n['c'][0]; continue
                tr = trange(n.get('t'), self.prog)
                v = self.ev(env, n['c'][0])
                if tr is not None and v[0] >= tr[0] and v[1] <= tr[1] or n.get('ck') == 'NoOp': j = n['c'][0]; continue
                return env
            break
        n = f.nodes[j]
        off = 0
        if n['k'] == 'BinaryOperator' and n['op'] in ('+', '-'):
            x, y = self.ev(env, n['c'][0]), self.ev(env, n['c'][1])
            if y[0] == y[1] and abs(y[0]) != INF:
                tr = trange(n.get('t'), self.prog)
                d = y[0] if n['op'] == '+' else -y[0]
                if tr is None or tr[0] < 0 or (x[0] + d >= tr[0] and x[1] + d <= tr[1]):
                    return self.narrow(env, n['c'][0], op, (b[0] - d, b[1] - d))
            return env
        if n['k'] == 'UnaryOperator' and n['op'] in ('++', '--', 'post++', 'post--'):
            if n['op'].startswith('post'):
                d = 1 if n['op'] == 'post++' else -1
                return self.narrow(env, n['c'][0], op, (b[0] + d, b[1] + d))
            return self.narrow(env, n['c'][0], op, b)
        if n['k'] == 'BinaryOperator' and n['op'] == '=': return self.narrow(env, n['c'][0], op, b)
        k = self.key(j)
        if k is None: return env
        v = env.get(k) or self.default(j)
        if op == '<': r = meet(v, (-INF, b[1] - 1))
        elif op == '<=': r = meet(v, (-INF, b[1]))
        elif op == '>': r = meet(v, (b[0] + 1, INF))
        elif op == '>=': r = meet(v, (b[0], INF))
        elif op == '==': r = meet(v, b)
        else:
            r = v
            if b[0] == b[1]:
                if v[0] == v[1] == b[0]: r = None
                elif v[0] == b[0]: r = (v[0] + 1, v[1])
                elif v[1] == b[0]: r = (v[0], v[1] - 1)
        if r is None: return None
        e = dict(env)
        e[k] = r
        for x, s in env.items():                    # copies of the same value
            if x.startswith('=:') and s == k and x[2:] in e:
                r2 = meet(e[x[2:]], r)
                if r2 is None: return None
                e[x[2:]] = r2
        return e
    def relation(self, env, a, op, b): return env      # for subclasses

    # ---- effects
    def set(self, env, i, v):
        k = self.key(i)
        if k is None: return self.clobber(env, i)
        tr = trange(self.f.nodes[self.f.strip(i)].get('dt') or self.f.nodes[self.f.strip(i)].get('t'), self.prog)
        if tr is not None and (v[0] < tr[0] or v[1] > tr[1]):
            v = tr
        self.unlink(env, k)
        if k.startswith('F:'):
            # another object may be the same one
            m = k.rsplit('.', 1)[1]
            for x in [x for x in env if x.startswith('F:') and x != k and x.rsplit('.', 1)[1] == m]: del env[x]
        env[k] = v
    def unlink(self, env, k):
        for x in [x for x, v in env.items() if x.startswith('=:') and (x == '=:' + k or v == k)]: del env[x]
    def clobber(self, env, i):
        n = self.f.nodes[self.f.strip(i)]
        if n['k'] == 'DeclRefExpr': env.pop(n['d'], None)
        elif n['k'] == 'MemberExpr':
            for x in [x for x in env if x.startswith('F:') and x.rsplit('.', 1)[1] == n['m']]: del env[x]
    def step(self, env, i):
        f = self.f
        n = f.nodes[i]
        k = n['k']
        self.reached.add(i)
        if k == 'DeclStmt':
            for v in n['vars']:
                if v.get('static') or v['d'] in self.taken: continue
                self.unlink(env, v['d'])
                env.pop(v['d'], None)
                if 'init' in v and isint(v['t'], self.prog):
                    x = self.ev(env, v['init'])
                    tr = trange(v['t'], self.prog)
                    env[v['d']] = x if x[0] >= tr[0] and x[1] <= tr[1] else tr
        elif k == 'BinaryOperator' and n['op'] == '=':
            c = n['c']
            if isint(f.nodes[f.strip(c[0])].get('t'), self.prog):
                v = self.ev(env, c[1])
                s = self.key(c[1]) if f.nodes[f.strip(c[1])]['k'] in ('DeclRefExpr', 'MemberExpr') else None
                self.set(env, c[0], v)
                d = self.key(c[0])
                if s is not None and d is not None and s != d and v == self.load(env, c[1]) and v == env.get(d): env['=:' + d] = s
        elif k == 'CompoundAssignOperator':
            c = n['c']
            if isint(f.nodes[f.strip(c[0])].get('t'), self.prog):
                r = self.arith(n['op'][:-1], self.load(env, c[0]), self.ev(env, c[1]))
                tr = trange(f.nodes[f.strip(c[0])].get('t'), self.prog)
                self.set(env, c[0], r if r is not None and r[0] >= tr[0] and r[1] <= tr[1] else tr)
        elif k == 'UnaryOperator' and n['op'] in ('++', '--', 'post++', 'post--'):
            c = n['c']
            if isint(f.nodes[f.strip(c[0])].get('t'), self.prog):
                d = 1 if '+' in n['op'] else -1
                v = self.load(env, c[0])
                self.set(env, c[0], (v[0] + d, v[1] + d))
        elif k == 'ArraySubscriptExpr':
            self.note(i, 'ix', self.ev(env, n['c'][1]))
        elif k == 'ReturnStmt' and n.get('c'):
            if isint(f.ret, self.prog):
                v = self.ev(env, n['c'][0])
                self.result = v if self.result is None else join(self.result, v)
        elif 'args' in n:
            for x, a in enumerate(n['args']):
                if isint(f.nodes[a].get('t'), self.prog): self.note(i, ('arg', x), self.ev(env, a))
            self.effect(env, i, n)
    def effect(self, env, i, n):
        f = self.f
        for x, a in enumerate(n['args']):
            m = f.nodes[f.strip(a)]
            pt = (n.get('pt') or [])
            if x < len(pt) and pt[x].rstrip().endswith('&') and not pt[x].startswith('const ') and m['k'] == 'DeclRefExpr': env.pop(m['d'], None); self.unlink(env, m['d'])
        if not n.get('sys') and not n.get('cm'):
            for x in [x for x in env if x.startswith(('F:', '=:'))]: del env[x]
        elif n.get('sys') and any('*' in t or '&' in t for t in n.get('pt', []) if not t.startswith('const ')) and (n.get('fq') or '').split('::')[-1] in ('memset', 'memcpy', 'swap'):
            for x in [x for x in env if x.startswith(('F:', '=:'))]: del env[x]
    def note(self, i, what, v):
        d = self.at.setdefault(i, {})
        d[what] = v if what not in d else join(d[what], v)

    # ---- fixpoint
    def joinenv(self, a, b):
        return {k: v if k.startswith('=:') else join(v, b[k]) for k, v in a.items() if k in b and (v == b[k] or not k.startswith('=:'))}
    def widen(self, a, b):
        out = {}
        for k, v in a.items():
            if k not in b: continue
            if k.startswith('=:'):
                if v == b[k]: out[k] = v
                continue
            lo, hi = v
            if b[k][0] < lo:
                c = [t for t in self.thr if t <= b[k][0]]
                lo = c[-1] if c else -INF
            if b[k][1] > hi:
                c = [t for t in self.thr if t >= b[k][1]]
                hi = c[0] if c else INF
            out[k] = (lo, hi)
        return out
    def entry(self): return {}
    def run(self):
        f = self.f
        if not f.cfg: return
        seen = {}; joined = {}
        wl = [(f.cfg['entry'], self.entry())]
        steps = 0
        while wl:
            bid, env = wl.pop()
            steps += 1
            s = seen.setdefault(bid, set())
            key = frozenset(env.items())
            if bid in joined:
                w = self.widen(joined[bid], env)
                if w == joined[bid]: continue
                joined[bid] = w
                env = dict(w)
            elif key in s: continue
            elif len(s) >= self.limit or steps > 20000:
                envs = [dict(x) for x in s] + [env]
                w = envs[0]
                for e in envs[1:]: w = self.joinenv(w, e)
                joined[bid] = w
                env = dict(w)
            else:
                s.add(key)
                env = dict(env)
            b = f.blocks[bid]
            for e in b['e']:
                if not isinstance(e, dict): self.step(env, e)
            if bid == f.cfg['exit']: self.leave(env)
            self.successors(b, env, wl)
    def leave(self, env): pass
    def successors(self, b, env, wl):
        f = self.f
        succ = b['s']
        term = b.get('term')
        tk = f.nodes[term]['k'] if term is not None else None
        if len(succ) == 2 and b.get('cond', -1) is not None and b.get('cond', -1) >= 0 and tk != 'SwitchStmt' and not b.get('tdb'):
            c = b['cond']
            for val, s in ((True, succ[0]), (False, succ[1])):
                if s < 0: continue
                e = self.assume(dict(env), self.last(c, b), val)
                if e is not None: wl.append((s, dict(e)))
            return
        if tk == 'SwitchStmt' and b.get('cond', -1) is not None and b.get('cond', -1) >= 0:
            c = b['cond']
            labels = [(s, f.blocks[s].get('label') if s >= 0 else None) for s in succ]
            vals = []
            for s, l in labels:
                ln = f.nodes[l] if l is not None else None
                if ln is not None and ln['k'] == 'CaseStmt': vals.append(int(ln['lo']))
            for s, l in labels:
                if s < 0: continue
                ln = f.nodes[l] if l is not None else None
                if ln is not None and ln['k'] == 'CaseStmt':
                    lo = int(ln['lo']); hi = int(ln['hi']) if ln.get('hi') is not None else lo
                    e = self.narrow(dict(env), c, '>=', (lo, lo))
                    e = None if e is None else self.narrow(e, c, '<=', (hi, hi))
                else:
                    e = dict(env)
                    for v in sorted(vals) + sorted(vals, reverse=True):
                        if e is not None: e = self.narrow(e, c, '!=', (v, v))
                if e is not None: wl.append((s, dict(e)))
            return
        for s in succ:
            if s >= 0: wl.append((s, dict(env)))
    def last(self, c, b):
        """the operand of a short-circuit condition this block ends in"""
        f = self.f
        n = f.nodes[c]
        while n['k'] in ('ParenExpr', 'ExprWithCleanups', 'ImplicitCastExpr') and n.get('c') and (n['k'] != 'ImplicitCastExpr' or f.nodes[n['c'][0]]['k'] in ('ParenExpr', 'BinaryOperator')):
            if n['k'] == 'ImplicitCastExpr' and n.get('ck') == 'LValueToRValue': break
            c = n['c'][0]; n = f.nodes[c]
        if n['k'] == 'BinaryOperator' and n['op'] in ('&&', '||'): return self.last(n['c'][1], b)
        return c
