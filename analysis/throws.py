"""May-throw effect analysis: which exception types can leave each function.

The type '*' stands for an arbitrary exception raised by user code behind one of
the library's extension interfaces.  Types are removed by handlers that catch
them or one of their bases; a rethrow puts back what its handler caught."""

ANY = '*'
STD = {'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::bad_alloc': 'std::exception',
       'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::invalid_argument': 'std::logic_error',
       'std::domain_error': 'std::logic_error', 'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
       'std::underflow_error': 'std::runtime_error', 'std::bad_cast': 'std::exception', 'std::bad_typeid': 'std::exception'}
# extension interfaces: user classes may override these
USER = ('libvariant::EmitterOutput', 'libvariant::ParserInput', 'libvariant::ParserActions', 'libvariant::EmitterImpl', 'libvariant::ParserImpl', 'libvariant::SchemaLoader', 'libvariant::ParserStreamInput')
# standard library members without a noexcept specification that do not throw
QUIET = {'operator[]', 'front', 'back', 'pop_back', 'pop_front', 'min', 'max', 'rdbuf', 'operator==', 'operator!=', 'operator<', 'operator-', 'operator*', 'operator->',
         'operator++', 'operator--', 'begin', 'end', 'find', 'lower_bound', 'upper_bound', 'count', 'distance', 'advance', 'swap', 'setprecision', 'move', 'forward',
         'isspace', 'isdigit', 'operator bool', 'get', 'top', 'pop'}


class Throws:
    def __init__(self, prog):
        self.prog = prog
        self.esc = {f: {} for f in prog.funcs}
        self.callers = {}
        for f in prog.funcs.values():
            for i, n in f.calls():
                for t in prog.targets(n):
                    if t in prog.funcs: self.callers.setdefault(t, set()).add(f.id)
        self.body = {}
        work = list(prog.funcs)
        queued = set(work)
        while work:
            x = work.pop(); queued.discard(x)
            f = prog.funcs[x]
            new = self.function(f)
            self.body[x] = new
            if f.nt: new = {}
            if set(new) != set(self.esc[x]):
                self.esc[x] = new
                for c in self.callers.get(x, ()):
                    if c not in queued: queued.add(c); work.append(c)

    def bases(self, t):
        out = [t]
        while out[-1] in STD: out.append(STD[out[-1]])
        seen = list(out)
        for b in self.prog.bases(t):
            if b not in seen:
                seen.append(b)
                while seen[-1] in STD: seen.append(STD[seen[-1]])
        return seen

    def catches(self, ct, t):
        if ct in (None, '', '...'): return True
        if t == ANY: return False
        ct = ct.replace('const ', '').replace('&', '').strip()
        return ct in self.bases(t)

    def function(self, f):
        out = {}
        for i in f.inits:
            if i.get('e') is not None: self.merge(out, self.node(f, i['e'], {}))
        if f.body is not None and f.body >= 0: self.merge(out, self.node(f, f.body, {}))
        return out

    def merge(self, a, b):
        for k, v in b.items(): a.setdefault(k, v)

    def node(self, f, i, caught):
        if i is None or i < 0: return {}
        n = f.nodes[i]
        k = n['k']
        if k in ('LambdaExpr', 'UnaryExprOrTypeTraitExpr', 'CXXNoexceptExpr', 'CXXTypeidExpr'): return {}
        out = {}
        if k == 'CXXTryStmt':
            body = self.node(f, n['c'][0], caught)
            for h in n['c'][1:]:
                hn = f.nodes[h]
                ct = hn.get('ct')
                got = {t: w for t, w in body.items() if self.catches(ct, t)}
                part = dict(got)
                if ct not in (None, '', '...'):
                    for t, w in body.items():
                        if t == ANY or t not in got and ct.replace('const ', '').replace('&', '').strip() in STD and t == 'std::exception': part[t] = w
                for t in got: del body[t]
                for c in hn.get('c', []): self.merge(out, self.node(f, c, part))
            self.merge(out, body)
            return out
        if k == 'CXXThrowExpr':
            if n.get('rethrow') or not n.get('c'):
                for t, w in caught.items(): out.setdefault(t, ('rethrow', i))
                return out
            t = n.get('tt') or ANY
            out[t.replace('const ', '').strip()] = ('throw', i)
            for c in n['c']: self.merge(out, self.node(f, c, caught))
            return out
        if k == 'CXXNewExpr' and not n.get('nt'):
            out['std::bad_alloc'] = ('new', i)
        for c in n.get('c', []): self.merge(out, self.node(f, c, caught))
        if 'args' in n and k != 'CXXNewExpr': self.merge(out, self.callee(f, i, n))
        return out

    def callee(self, f, i, n):
        fn, q = n.get('fn'), n.get('fq', '')
        if n.get('nt'): return {}
        if not fn:
            if n.get('k') == 'CXXConstructExpr': return {}
            return {} if f.xc else {ANY: ('indirect call', i)}
        out = {}
        ts = self.prog.targets(n)
        known = [t for t in ts if t in self.prog.funcs]
        for t in known:
            for ty, w in self.esc[t].items(): out.setdefault(ty, ('call', i, t))
        if n.get('virt') and (n.get('cls') in USER): out.setdefault(ANY, ('user code', i))
        if not known:
            name = q.split('::')[-1].split('<')[0]
            if q.startswith('std::') or q.startswith('__gnu'):
                if name not in QUIET: out.setdefault('std::exception', ('std', i))
        return out

    def why(self, fid, ty, depth=6, body=False):
        """call chain from fid to the place that raises ty"""
        out = []
        cur = fid
        src = self.body if body else self.esc
        while depth:
            depth -= 1
            w = (self.body if cur == fid else self.esc)[cur].get(ty)
            f = self.prog.funcs[cur]
            if w is None: break
            if w[0] == 'call':
                out.append('%s (%s)' % (self.prog.funcs[w[2]].q.replace('libvariant::', ''), f.loc(w[1])))
                if w[2] == cur: break
                cur = w[2]
            else:
                n = f.nodes[w[1]]
                out.append('%s%s at %s' % (w[0], ' ' + n.get('fq', '') if w[0] in ('std', 'user code') else '', f.loc(w[1])))
                break
        return ' -> '.join(out)
