import re
from checks.common import *

EXPLAIN = ('For every constructor of every class of the repository, a must-assign analysis over its initialisers and body (following private helpers, and treating a location handed out by pointer or reference as written) shows that each scalar and pointer member has a value when it ends and that none is read before it has one. '
           'For every function, a definite-assignment analysis over the control-flow graph shows that each scalar or pointer local has been written on all paths before each read. Functions that return a value do so on every path.')
TECH = 'definite-assignment dataflow over constructors and locals'
NOTE = 'Memory obtained from malloc and arrays are tracked as a whole, not per element.'
RULE = 'U1 every constructor gives every scalar or pointer member a value; U2 no member is read in a constructor before it has one; U3 every local is written before it is read on all paths; U4 a value-returning function returns one on every path; U5 objects of classes without constructors are created initialised.'
ASSUME = ['a function given the address of a variable or a non-constant reference writes it, unless its body is known never to']


def scalar(t):
    t = t.replace('const ', '').replace('volatile ', '').strip()
    if t.endswith('*'): return True
    return t in ('bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'long double', 'size_t')


def terminal_loc(f, i, cls=None):
    """('l', key) local, ('f', field) member of *this, ('lf', key, field) member of a local object"""
    i = f.strip(i)
    n = f.nodes[i]
    if n['k'] == 'DeclRefExpr' and n.get('d', '').startswith('L'): return ('l', n['d'])
    if n['k'] == 'MemberExpr' and n.get('mk') in ('Field', 'IndirectField'):
        b = f.strip(n['c'][0]) if n.get('c') else None
        bn = f.nodes[b] if b is not None else None
        if bn is None or bn['k'] == 'CXXThisExpr': return ('f', n['m']) if n['m'] else None
        if bn['k'] == 'DeclRefExpr' and bn.get('d', '').startswith('L') and not n.get('arrow'): return ('lf', bn['d'], n['m'])
        if bn['k'] == 'MemberExpr':
            # member of a member: the outer one
            return terminal_loc(f, b)
    if n['k'] == 'ArraySubscriptExpr': return terminal_loc(f, n['c'][0])
    if n['k'] == 'UnaryOperator' and n['op'] in ('++', '--'): return terminal_loc(f, n['c'][0])
    if n['k'] == 'BinaryOperator' and n['op'] == '=' or n['k'] == 'CompoundAssignOperator': return terminal_loc(f, n['c'][0])
    return None


class Flow:
    """forward must analysis: set of locations surely written"""
    def __init__(self, cx, prog): self.cx = cx; self.prog = prog; self.sum = {}; self.busy = set()

    def effects(self, f, e):
        """list of ('w', loc) / ('r', loc, node) in evaluation order for one CFG element"""
        out = []
        if isinstance(e, dict):
            if e['x'] == 'init':
                if e.get('m'): out.append(('w', ('f', e['m'])))
                elif e.get('e', -1) >= 0:
                    n = f.nodes[f.strip(e['e'])]
                    if n.get('cls') == f.cls or n.get('fn') in self.prog.funcs and self.prog.funcs[n['fn']].cls == f.cls: out.append(('all',))
                    elif n['k'] == 'InitListExpr' or n['k'] == 'ImplicitValueInitExpr' or n['k'] == 'CXXScalarValueInitExpr': out.append(('w', ('f', '')))
            return out
        n = f.nodes[e]
        k = n['k']
        if k == 'BinaryOperator' and n['op'] == '=':
            l = terminal_loc(f, n['c'][0])
            if l: out.append(('w', l))
        elif k == 'CompoundAssignOperator':
            l = terminal_loc(f, n['c'][0])
            if l: out.append(('r', l, e)); out.append(('w', l))
        elif k == 'UnaryOperator' and n['op'] in ('++', '--', 'post++', 'post--'):
            l = terminal_loc(f, n['c'][0])
            if l: out.append(('r', l, e)); out.append(('w', l))
        elif k == 'UnaryOperator' and n['op'] == '&':
            l = terminal_loc(f, n['c'][0])
            c = next((a for a in f.ancestors(e) if 'args' in f.nodes[a]), None)
            j = next((j for j, a in enumerate(f.nodes[c]['args']) if f.strip(a) == e), None) if c is not None else None
            if l and (j is None or self.when_true(f, c, f.nodes[c], j) is None): out.append(('w', l))
        elif k == 'ImplicitCastExpr' and n.get('ck') == 'LValueToRValue':
            l = terminal_loc(f, n['c'][0])
            if l: out.append(('r', l, e))
        elif k == 'ImplicitCastExpr' and n.get('ck') == 'ArrayToPointerDecay':
            l = terminal_loc(f, n['c'][0])
            if l and not subscripted(f, e): out.append(('w', l))
        elif k == 'DeclStmt':
            for v in n['vars']:
                if v.get('static'): out.append(('w', ('l', v['d'])))
                elif v.get('init') is not None and v['init'] >= 0 and not half_made(self.prog, f, v):
                    out.append(('w', ('l', v['d'])))
                    if v['t'].endswith('&'):
                        l = terminal_loc(f, v['init'])
                        if l: out.append(('w', l))
                else: out.append(('u', ('l', v['d'])))
        elif k == 'DeclRefExpr' and n.get('d', '').startswith('L'):
            # the object as a whole goes somewhere else
            p = f.par.get(e)
            while p is not None and f.nodes[p]['k'] in ('ParenExpr', 'ImplicitCastExpr') and f.nodes[p].get('ck') in (None, 'NoOp'): p = f.par.get(p)
            if p is not None and f.nodes[p]['k'] != 'MemberExpr' and not self.filled_in(f, p): out.append(('g', ('l', n['d']), e))
        elif k == 'LambdaExpr':
            out.append(('esc',))
        elif k == 'GCCAsmStmt': out.append(('esc',))
        if 'args' in n:
            for j, a in enumerate(n['args']):
                pt = n.get('pt', [])
                t = pt[j] if j < len(pt) else ''
                if t.endswith('&') and not (t.startswith('const ') and scalar(t.rstrip('& '))):
                    l = terminal_loc(f, a)
                    if l and self.when_true(f, e, n, j) is not None: pass
                    elif l and self.writes_param(n, j): out.append(('w', l))
            if n.get('obj') is not None and n['obj'] >= 0:
                on = f.nodes[f.strip(n['obj'])]
                if on['k'] == 'CXXThisExpr' and n.get('fn') in self.prog.funcs and not n.get('virt'):
                    for m in self.summary(self.prog.funcs[n['fn']]): out.append(('w', ('f', m)))
                elif on['k'] == 'DeclRefExpr' and on.get('d', '').startswith('L'):
                    out.append(('w', ('l', on['d'])))
            if n.get('fq') in ('memset', 'std::memset', 'memcpy', 'std::memcpy', 'bzero') and n['args']:
                a = f.nodes[f.strip(n['args'][0])]
                if a['k'] == 'CXXThisExpr': out.append(('all',))
                if a['k'] == 'DeclRefExpr': out.append(('w', ('ptr', a['d'])))
        return out

    def writes_param(self, n, j):
        """False only when the callee is known never to write through the reference"""
        g = self.prog.funcs.get(n.get('fn'))
        if g is None or n.get('virt') or j >= len(g.params): return True
        d = g.params[j]['d']
        for i, m in enumerate(g.nodes):
            if not m: continue
            if m['k'] in ('BinaryOperator', 'CompoundAssignOperator') and m['op'].endswith('=') and m['op'] not in ('==', '!=', '<=', '>=') or m['k'] == 'UnaryOperator' and m['op'] in ('++', '--', 'post++', 'post--', '&'):
                l = terminal_loc(g, m['c'][0])
                if l and l[1] == d: return True
            elif 'args' in m:
                for k, a in enumerate(m['args']):
                    l = terminal_loc(g, a)
                    if l and l[1] == d and k < len(m.get('pt', [])) and m['pt'][k].endswith('&') and not m['pt'][k].startswith('const '): return True
                if m.get('obj') is not None and m['obj'] >= 0:
                    l = terminal_loc(g, m['obj'])
                    if l and l[1] == d: return True
            elif m['k'] == 'DeclStmt':
                for v in m['vars']:
                    if v['t'].endswith('&') and v.get('init') is not None and v['init'] >= 0:
                        l = terminal_loc(g, v['init'])
                        if l and l[1] == d: return True
            elif m['k'] in ('ReturnStmt', 'LambdaExpr'):
                if g.ret.endswith('&'): return True
        return any(terminal_loc(g, x['e']) and terminal_loc(g, x['e'])[1] == d for x in g.inits if x.get('e', -1) >= 0)

    def filled_in(self, f, p):
        """&object given to a function whose business is to fill it in"""
        if f.nodes[p]['k'] != 'UnaryOperator' or f.nodes[p]['op'] != '&': return False
        c = next((a for a in f.ancestors(p) if 'args' in f.nodes[a]), None)
        if c is None: return False
        n = f.nodes[c]
        j = next((j for j, a in enumerate(n['args']) if f.strip(a) == p), None)
        g = self.prog.funcs.get(n.get('fn'))
        if n.get('fq') in ('memset', 'std::memset', 'bzero') and j == 0: return True
        if g is None or j is None or j >= len(g.params): return False
        d = g.params[j]['d']
        put = set()
        for m in g.nodes:
            if not m: continue
            if m.get('fq') in ('memset', 'std::memset', 'bzero') and m.get('args') and g.nodes[g.strip(m['args'][0])].get('d') == d: return True
            if m['k'] == 'BinaryOperator' and m['op'] == '=':
                l = g.nodes[g.strip(m['c'][0])]
                if l['k'] == 'MemberExpr' and l.get('c') and g.nodes[g.strip(l['c'][0])].get('d') == d: put.add(l['m'])
        t = f.nodes[f.strip(f.nodes[p]['c'][0])].get('t', '')
        return t in self.prog.classes and bool(put) and put >= set(scalars(self.prog, t))

    def summary(self, g):
        """fields a method surely writes before it returns"""
        if g.id in self.sum: return self.sum[g.id]
        if g.id in self.busy or not g.cfg: return frozenset()
        self.busy.add(g.id)
        ins = self.solve(g)
        ex = ins.get(g.cfg['exit'])
        s = frozenset(l[1] for l in ex if l[0] == 'f') if ex is not None else frozenset()
        self.busy.discard(g.id)
        self.sum[g.id] = s
        return s

    def step(self, cur, x):
        if x[0] == 'w': return cur | {x[1]}
        if x[0] == 'u': return frozenset(l for l in cur if not (l[0] in ('l', 'lf') and l[1] == x[1][1]))
        if x[0] == 'all': return cur | {('f', '*')}
        if x[0] == 'esc': return cur | {('esc',)}
        return cur

    def solve(self, f):
        eff = self.eff(f)
        ins = {f.cfg['entry']: frozenset()}
        work = [f.cfg['entry']]
        while work:
            b = work.pop()
            cur = ins[b]
            blk = f.blocks[b]
            for l in eff[b]: cur = self.step(cur, l)
            if blk.get('noret'): continue
            if any(not isinstance(e, dict) and f.nodes[e]['k'] == 'CXXThrowExpr' for e in blk['e']): continue
            cond = self.condition(f, blk)
            for k, s in enumerate(blk['s']):
                if s is None or s < 0: continue
                out = cur | frozenset(l for l, w in cond[1] if w == ((k == 0) == cond[0])) if cond else cur
                new = out if s not in ins else ins[s] & out
                if s not in ins or new != ins[s]:
                    ins[s] = new; work.append(s)
            # an exception may leave the block from its first element on
            for s in self.handlers(f, blk):
                new = ins[b] if s not in ins else ins[s] & ins[b]
                if s not in ins or new != ins[s]:
                    ins[s] = new; work.append(s)
        return ins

    def condition(self, f, blk):
        """(polarity, [(location, result with which it has been written)]) when the block branches on a call that writes only then"""
        if len(blk['s']) != 2 or blk.get('cond') is None: return None
        c, pol = f.strip(blk['cond']), True
        while f.nodes[c]['k'] == 'UnaryOperator' and f.nodes[c]['op'] == '!':
            c = f.strip(f.nodes[c]['c'][0]); pol = not pol
        n = f.nodes[c]
        if 'args' not in n: return None
        out = []
        for j, a in enumerate(n['args']):
            w = self.when_true(f, c, n, j)
            if w is None: continue
            x = f.strip(a)
            if f.nodes[x]['k'] == 'UnaryOperator' and f.nodes[x]['op'] == '&': x = f.nodes[x]['c'][0]
            l = terminal_loc(f, x)
            if l: out.append((l, w))
        return (pol, out) if out else None

    def when_true(self, f, c, n, j):
        """True/False: the callee writes its j-th parameter exactly when it returns that, and the caller branches on the call; None otherwise"""
        g = self.prog.funcs.get(n.get('fn'))
        if g is None or n.get('virt') or j >= len(g.params) or g.ret != 'bool' or not g.cfg: return None
        p = f.par.get(c)
        while p is not None and (f.nodes[p]['k'] in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups') or f.nodes[p]['k'] == 'UnaryOperator' and f.nodes[p]['op'] == '!' or f.nodes[p]['k'] == 'BinaryOperator' and f.nodes[p]['op'] in ('&&', '||')): p = f.par.get(p)
        if p is None or f.nodes[p]['k'] not in ('IfStmt', 'WhileStmt', 'ForStmt', 'ConditionalOperator', 'DoStmt'): return None
        key = (g.id, j)
        if key in self.sum: return self.sum[key]
        self.sum[key] = None
        d = g.params[j]['d']
        if not scalar(re.sub(r'[&*]$', '', g.params[j]['t']).strip()): return None
        eff = {b: [] for b in g.blocks}
        for b in g.blocks.values():
            for e in b['e']:
                if isinstance(e, dict): continue
                m = g.nodes[e]
                if m['k'] in ('BinaryOperator', 'CompoundAssignOperator') and m['op'].endswith('=') and m['op'] not in ('==', '!=', '<=', '>='):
                    t = g.strip(m['c'][0])
                    if g.nodes[t]['k'] == 'UnaryOperator' and g.nodes[t]['op'] == '*': t = g.strip(g.nodes[t]['c'][0])
                    if g.nodes[t].get('d') == d: eff[b['id']].append(('w',))
                elif 'args' in m:
                    for k, a in enumerate(m['args']):
                        if g.nodes[g.strip(a)].get('d') == d and (k >= len(m.get('pt', [])) or m['pt'][k][-1:] in '&*'): eff[b['id']].append(('w',))
                elif m['k'] == 'ReturnStmt': eff[b['id']].append(('ret', m['c'][0] if m.get('c') else None))
        ins = {g.cfg['entry']: frozenset([False])}
        work = [g.cfg['entry']]
        res = set()
        while work:
            b = work.pop()
            cur = ins[b]
            for x in eff[b]:
                if x[0] == 'w': cur = frozenset([True])
                else:
                    v = g.nodes[g.strip(x[1])] if x[1] is not None else {}
                    for w in cur: res.add((w, v.get('v') if v.get('k') == 'CXXBoolLiteralExpr' else None))
            for s in g.blocks[b]['s']:
                if s is None or s < 0: continue
                new = ins.get(s, frozenset()) | cur
                if new != ins.get(s): ins[s] = new; work.append(s)
        wr = {str(v).lower() for w, v in res if w}; un = {str(v).lower() for w, v in res if not w}
        tr = lambda s: {'1': 'true', '0': 'false'}.get(s, s)
        wr = set(map(tr, wr)); un = set(map(tr, un))
        if un and wr and not (wr & un) and wr | un == {'true', 'false'}: self.sum[key] = wr == {'true'}
        return self.sum[key]

    def handlers(self, f, blk):
        if not any(n and n['k'] == 'CXXTryStmt' for n in f.nodes): return []
        out = []
        for e in blk['e']:
            if isinstance(e, dict): continue
            prev = e
            for a in f.ancestors(e):
                n = f.nodes[a]
                if n['k'] == 'CXXTryStmt' and n['c'][0] == prev: out += [b['id'] for b in f.blocks.values() if b.get('label') in n['c'][1:]]
                prev = a
            break
        return out

    def eff(self, f):
        e = getattr(f, '_p26', None)
        if e is None:
            e = {}
            for b in f.blocks.values():
                l = []
                for x in b['e']: l += self.effects(f, x)
                e[b['id']] = l
            f._p26 = e
        return e


def subscripted(f, e):
    """array decays only to be subscripted: no address handed out"""
    p = f.par.get(e)
    return p is not None and f.nodes[p]['k'] == 'ArraySubscriptExpr'


def check(cx):
    prog = cx.prog
    fl = Flow(cx, prog)
    funcs = sorted((f for f in prog.funcs.values() if f.cfg), key=lambda f: (f.file, f.line, f.id))
    cx.need(funcs, 'functions with bodies', 500)
    for f in funcs: function(cx, prog, fl, f)
    ctors = 0
    for q, c in sorted(prog.classes.items()):
        if 'fields' not in c: continue
        members = [x for x in c['fields'] if x['n'] and (scalar(x['t']) or x.get('scalar') or x['t'] in prog.enums)] if hasattr(prog, 'enums') else [x for x in c['fields'] if x['n'] and (scalar(x['t']) or x.get('scalar'))]
        members = [x for x in members if not x['t'].endswith('&') and not x.get('init')]
        if not members: continue
        for f in funcs:
            if f.kind != 'ctor' or f.cls != q or f.implicit: continue
            ctors += 1
            ins = fl.solve(f)
            ex = ins.get(f.cfg['exit'])
            if ex is None or ('f', '*') in ex: continue
            done = {x[1] for x in ex if x[0] == 'f'}
            for m in members:
                cx.count('member initialisations')
                if m['n'] not in done:
                    cx.bad('member|%s|%s' % (fn_key(f), m['n']), f.loc(), '%s leaves the member %s without a value' % (fn_key(f), m['n']))
    cx.count('constructors', ctors)
    plain(cx, prog, funcs, fl)


def function(cx, prog, fl, f):
    eff = fl.eff(f)
    decl = {}
    for i, n in enumerate(f.nodes):
        if n and n['k'] == 'DeclStmt':
            for v in n['vars']:
                if v.get('init') is None or v['init'] < 0:
                    if v.get('static'): continue
                    if scalar(v['t']) or v['t'] in getattr(prog, 'enums', {}): decl[v['d']] = (v, i)
                    elif is_plain(prog, v['t']): decl[v['d']] = (v, i)
                elif half_made(prog, f, v):
                    decl[v['d']] = (v, i)
                    cx.count('default-made local objects')
    fields = set()
    if f.kind == 'ctor' and f.cls in prog.classes:
        fields = {x['n'] for x in prog.classes[f.cls]['fields'] if scalar(x['t']) or x.get('scalar')}
    cx.count('functions')
    if decl or fields:
        ins = fl.solve(f)
        seen = set()
        for b in sorted(f.blocks):
            if b not in ins: continue
            cur = ins[b]
            for x in eff[b]:
                if x[0] == 'g' and x[1][1] in decl and ('esc',) not in cur and x[1] not in cur and half_made(prog, f, decl[x[1][1]][0]) and x[1] not in seen:
                    for y in scalars(prog, decl[x[1][1]][0]['t']):
                        if ('lf', x[1][1], y) not in cur:
                            seen.add(x[1])
                            cx.bad('local|%s|%s.%s' % (fn_key(f), decl[x[1][1]][0]['n'], y), f.loc(x[2]), '%s hands out %s, whose member %s has no value on some path to here' % (fn_key(f), decl[x[1][1]][0]['n'], y))
                    cur = cur | {x[1]}
                if x[0] == 'r' and ('esc',) not in cur:
                    l = x[1]
                    if l[0] == 'l' and l[1] in decl and scalar_or_enum(prog, decl[l[1]][0]['t']):
                        cx.count('reads of late-initialised locals')
                        if l not in cur and l not in seen:
                            seen.add(l)
                            cx.bad('local|%s|%s' % (fn_key(f), decl[l[1]][0]['n']), f.loc(x[2]), '%s reads %s, which has no value on some path to here' % (fn_key(f), decl[l[1]][0]['n']))
                    elif l[0] == 'lf' and l[1] in decl:
                        if ('l', l[1]) not in cur and l not in cur and l not in seen:
                            seen.add(l)
                            cx.bad('local|%s|%s.%s' % (fn_key(f), decl[l[1]][0]['n'], l[2]), f.loc(x[2]), '%s reads %s.%s, which has no value on some path to here' % (fn_key(f), decl[l[1]][0]['n'], l[2]))
                    elif l[0] == 'f' and l[1] in fields and l not in cur and ('f', '*') not in cur and l not in seen:
                        seen.add(l)
                        cx.bad('early|%s|%s' % (fn_key(f), l[1]), f.loc(x[2]), '%s reads its member %s before giving it a value' % (fn_key(f), l[1]))
                cur = fl.step(cur, x)
    raw_memory(cx, prog, fl, f)
    # a value-returning function returns one
    if f.ret != 'void' and f.kind in ('func', 'method', 'conv') and f.q != 'main' and f.body is not None and f.body >= 0:
        for b in f.blocks.values():
            if f.cfg['exit'] not in b['s'] or b['id'] == f.cfg['entry'] and not b['e']: continue
            if b.get('noret'): continue
            if not any(not isinstance(e, dict) and f.nodes[e]['k'] in ('ReturnStmt', 'CXXThrowExpr', 'CoreturnStmt') for e in b['e']):
                if not reachable(f, b['id']) or ends(f, b): continue
                cx.bad('return|%s' % fn_key(f), f.loc(), '%s can end without returning a value' % fn_key(f))


def raw_memory(cx, prog, fl, f):
    """objects in memory from malloc: filled before anything is done with them"""
    got = {}
    for i, n in enumerate(f.nodes):
        if not n or n.get('fq') not in ('malloc', 'std::malloc', 'realloc', 'std::realloc'): continue
        p = f.par.get(i)
        while p is not None and f.nodes[p]['k'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr'): p = f.par.get(p)
        if p is None: continue
        d = None
        if f.nodes[p]['k'] == 'DeclStmt': d = next((v for v in f.nodes[p]['vars'] if v.get('init', -1) is not None and v.get('init', -1) >= 0 and i in set(f.walk(v['init']))), None)
        elif f.nodes[p]['k'] == 'BinaryOperator' and f.nodes[p]['op'] == '=':
            l = f.nodes[f.strip(f.nodes[p]['c'][0])]
            if l['k'] == 'DeclRefExpr': d = {'d': l['d'], 'n': l['dn'], 't': l['t']}
        if d is None: continue
        t = re.sub(r'\bstruct ', '', d['t']).rstrip('* ')
        if t in prog.classes and prog.classes[t].get('fields'): got[d['d']] = (d, i)
    if not got: return
    ins = fl.solve(f)
    seen = set()
    for b in sorted(f.blocks):
        if b not in ins: continue
        cur = ins[b]
        for e in f.blocks[b]['e']:
            if not isinstance(e, dict):
                n = f.nodes[e]
                d = None
                if n['k'] == 'ImplicitCastExpr' and n.get('ck') == 'LValueToRValue':
                    m = f.nodes[f.strip(n['c'][0])]
                    if m['k'] == 'MemberExpr' and m.get('arrow') and m.get('c'):
                        o = f.nodes[f.strip(m['c'][0])]
                        if o['k'] == 'DeclRefExpr': d = o['d']
                elif n['k'] == 'ReturnStmt' and n.get('c'):
                    o = f.nodes[f.strip(n['c'][0])]
                    if o['k'] == 'DeclRefExpr': d = o['d']
                elif 'args' in n and n.get('fq') not in ('memset', 'std::memset', 'memcpy', 'std::memcpy', 'bzero', 'free', 'std::free'):
                    for a in n['args']:
                        o = f.nodes[f.strip(a)]
                        if o['k'] == 'DeclRefExpr' and o['d'] in got: d = o['d']
                if d in got:
                    cx.count('uses of raw memory')
                    if ('ptr', d) not in cur and d not in seen:
                        seen.add(d)
                        cx.bad('raw|%s|%s' % (fn_key(f), got[d][0]['n']), f.loc(e), '%s uses the object %s in memory from malloc before filling it in' % (fn_key(f), got[d][0]['n']))
            for x in fl.effects(f, e): cur = fl.step(cur, x)


def ends(f, b):
    """cleanup block after a return or throw in a predecessor"""
    seen = set(); st = [b['id']]
    pred = {}
    for x in f.blocks.values():
        for s in x['s']:
            if s is not None: pred.setdefault(s, []).append(x)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        ps = pred.get(x, [])
        if x == f.cfg['entry']: return False
        if x != b['id']:
            blk = f.blocks[x]
            if any(not isinstance(e, dict) and f.nodes[e]['k'] in ('ReturnStmt', 'CXXThrowExpr') for e in blk['e']) or blk.get('noret'): continue
        if any(not isinstance(e, dict) for e in f.blocks[x]['e']) and x != b['id']: return False
        if any(not isinstance(e, dict) for e in f.blocks[x]['e']): return False
        if not ps: continue
        st.extend(p['id'] for p in ps)
    return True


def reachable(f, b):
    seen = set(); st = [f.cfg['entry']]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x == b: return True
        if f.blocks[x].get('noret'): continue
        st.extend(s for s in f.blocks[x]['s'] if s is not None and s >= 0)
    return False


def scalars(prog, t):
    return [x['n'] for x in prog.classes[t]['fields'] if x['n'] and not x.get('init') and (scalar_or_enum(prog, x['t']) or x.get('scalar'))]


def half_made(prog, f, v):
    """default-constructed local of a class whose constructor is the compiler's and leaves scalars alone"""
    c = prog.classes.get(v['t'])
    if c is None or v.get('init') is None or v['init'] < 0: return False
    n = f.nodes[v['init']]
    if n['k'] != 'CXXConstructExpr' or n.get('args'): return False
    if any(m.get('kind') == 'ctor' and not m.get('implicit') and not m.get('defaulted') for m in c.get('methods', [])): return False
    return bool(scalars(prog, v['t']))


def scalar_or_enum(prog, t): return scalar(t) or t in getattr(prog, 'enums', {})


def is_plain(prog, t):
    c = prog.classes.get(re.sub(r'\b(struct|const) ', '', t))
    if c is None or not c.get('fields'): return False
    return not c['bases'] and not any(m.get('kind') == 'ctor' and not m.get('implicit') for m in c.get('methods', [])) and all(scalar(x['t']) or x.get('pod') or x.get('scalar') for x in c['fields'])


def plain(cx, prog, funcs, fl):
    """objects of constructor-less classes made with new"""
    for f in funcs:
        for i, n in enumerate(f.nodes):
            if n and n['k'] == 'CXXNewExpr' and is_plain(prog, n.get('at', '')) and not n.get('arr'):
                cx.count('heap objects of plain classes')
                if not n.get('ini'): cx.bad('new|%s|%s' % (fn_key(f), n['at']), f.loc(i), '%s creates a %s without initialising it' % (fn_key(f), n['at']))
