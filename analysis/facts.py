"""Loads the whole program: runs the extractor over every translation unit of
/repo's working tree and indexes functions, classes, enums and tables."""
import glob, hashlib, json, os, pickle, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EXTRACT = os.path.join(VERIF, 'build', 'extract')


class AnalysisBroken(Exception):
    pass


def sources():
    src = sorted(glob.glob(REPO + '/src/*.cc'))
    # not part of the configured build (LIBVARIANT_ENABLE_MSGPACK=OFF)
    src = [s for s in src if not os.path.basename(s).startswith('MsgPack')]
    src += sorted(glob.glob(REPO + '/lib/json/*.c'))
    return src


def _flags(path, inc):
    f = ['-I' + REPO + '/include', '-I' + inc, '-I/usr/include/libxml2',
         '-I' + REPO + '/lib/json', '-I' + REPO + '/src',
         '-DENABLE_XML', '-DENABLE_YAML', '-DENABLE_CURL', '-DHAVE_LONG_LONG=1', '-w']
    return (['-xc', '-std=gnu17'] if path.endswith('.c') else ['-xc++', '-std=gnu++17']) + f


def _extract(path, inc, out):
    r = subprocess.run([EXTRACT, REPO + '/', path, '--'] + _flags(path, inc),
                       stdout=open(out, 'wb'), stderr=subprocess.PIPE)
    if r.returncode:
        raise AnalysisBroken('cannot parse %s:\n%s' % (path, r.stderr.decode(errors='replace')[-2000:]))
    recs = []
    with open(out) as fh:
        for line in fh:
            recs.append(json.loads(line))
    if not recs or recs[-1].get('rec') != 'end':
        raise AnalysisBroken('incomplete facts for ' + path)
    return recs[:-1]


class Func:
    def __init__(self, r, prog):
        self.prog = prog
        self.id = r['id']; self.q = r['q']; self.name = r['n']
        self.file = r['file']; self.line = r['line']
        self.ret = r['ret']; self.kind = r['kind']; self.params = r['params']
        self.cls = r.get('cls'); self.nodes = r['nodes']; self.body = r['body']
        self.cfg = r.get('cfg'); self.inits = r.get('inits', [])
        self.over = r.get('over', []); self.virt = r.get('virt', False)
        self.const = r.get('const', False); self.nt = r.get('nt', False)
        self.access = r.get('access'); self.static = r.get('static', False) or r.get('smeth', False)
        self.inst = r.get('inst', False); self.opname = r.get('opname')
        self.implicit = r.get('implicit', False) or r.get('defaulted', False)
        self.xc = r.get('xc', False); self.pub = r.get('pub', False)
        self._par = None
        self._blk = None
        self.pidx = {p['d']: i for i, p in enumerate(self.params)}

    def __repr__(self):
        return self.q

    @property
    def par(self):
        if self._par is None:
            self._par = {}
            for i, n in enumerate(self.nodes):
                if n is None: continue
                for c in n.get('c', []):
                    if c is not None and c >= 0 and c not in self._par:
                        self._par[c] = i
        return self._par

    @property
    def blocks(self):
        if self._blk is None:
            self._blk = {b['id']: b for b in (self.cfg['b'] if self.cfg else [])}
        return self._blk

    def ancestors(self, nid):
        while nid in self.par:
            nid = self.par[nid]
            yield nid

    def walk(self, nid=None):
        st = [self.body if nid is None else nid]
        if nid is None:
            st += [i['e'] for i in self.inits]
        while st:
            x = st.pop()
            if x is None or x < 0: continue
            yield x
            st.extend(reversed(self.nodes[x].get('c', [])))

    def calls(self, nid=None):
        for i in self.walk(nid):
            n = self.nodes[i]
            if 'args' in n:
                yield i, n

    def strip(self, nid):
        """skip parens, casts, temporaries, cleanups"""
        while nid is not None and nid >= 0:
            n = self.nodes[nid]
            k = n['k']
            if k in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr',
                     'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr', 'ExprWithCleanups',
                     'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
                     'CXXDefaultArgExpr', 'CXXDefaultInitExpr', 'SubstNonTypeTemplateParmExpr', 'OpaqueValueExpr'):
                if not n.get('c'): return nid
                nid = n['c'][0]
            elif k == 'CXXConstructExpr' and len(n['args']) == 1 and (n.get('copy') or n.get('move')):
                nid = n['args'][0]
            else:
                return nid
        return nid

    def loc(self, nid=None):
        if nid is None or nid < 0:
            return '%s:%d' % (rel(self.file), self.line)
        n = self.nodes[nid]
        return '%s:%d' % (rel(n.get('f', self.file)), n['l'])


def rel(f):
    f = os.path.normpath(f)
    return f[len(REPO) + 1:] if f.startswith(REPO + '/') else f


class Program:
    def __init__(self, tus):
        self.funcs = {}
        self.classes = {}
        self.enums = {}
        self.vars = {}
        self.tu_of = {}
        self.tus = [t for t, _ in tus]
        for t, recs in tus:
            for r in recs:
                k = r['rec']
                if k == 'func':
                    if r['id'] not in self.funcs:
                        self.funcs[r['id']] = Func(r, self)
                        self.tu_of[r['id']] = t
                elif k == 'class':
                    self.classes.setdefault(r['q'], r)
                elif k == 'enum':
                    self.enums.setdefault(r['q'] if '(' not in r['q'] else r['q'] + '@%s:%d' % (r['file'], r['line']), r)
                elif k == 'var':
                    old = self.vars.get(r['id'])
                    if old is None or ('val' not in old and 'str' not in old):
                        self.vars[r['id']] = r
        self.byq = {}
        for f in self.funcs.values():
            self.byq.setdefault(f.q, []).append(f)
        # virtual dispatch: declared method -> all overriders (transitively)
        direct = {}
        self.method_decl = {}
        for c in self.classes.values():
            for m in c['methods']:
                self.method_decl[m['id']] = (c, m)
                for o in m.get('over', []):
                    direct.setdefault(o, set()).add(m['id'])
        self.overriders = {}
        def closure(m, seen):
            for o in direct.get(m, ()):
                if o not in seen:
                    seen.add(o); closure(o, seen)
            return seen
        for m in list(direct):
            self.overriders[m] = closure(m, set())
        self._subs = None

    def fq(self, q):
        return self.byq.get(q, [])

    def subclasses(self, q):
        if self._subs is None:
            self._subs = {}
            for c in self.classes.values():
                for b in c['bases']:
                    self._subs.setdefault(b, set()).add(c['q'])
        out, st = set(), [q]
        while st:
            x = st.pop()
            for s in self._subs.get(x, ()):
                if s not in out:
                    out.add(s); st.append(s)
        return out

    def bases(self, q):
        out, st = [], [q]
        while st:
            x = st.pop(0)
            c = self.classes.get(x)
            if not c: continue
            for b in c['bases']:
                if b not in out:
                    out.append(b); st.append(b)
        return out

    def targets(self, n):
        """possible callee ids of a call node"""
        fn = n.get('fn')
        if not fn: return []
        if n.get('virt'):
            return [fn] + sorted(self.overriders.get(fn, ()))
        return [fn]

    def dtor_of(self, q):
        c = self.classes.get(q)
        if not c: return None
        for m in c['methods']:
            if m.get('kind') == 'dtor': return m['id']
        return None


def _tree_hash():
    h = hashlib.sha1()
    for d in ('src', 'include/Variant', 'lib/json'):
        for f in sorted(glob.glob(REPO + '/' + d + '/*')):
            if os.path.isfile(f):
                h.update(f.encode()); h.update(open(f, 'rb').read())
    for f in (HERE + '/instantiate.cc', EXTRACT):
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def config(inc):
    os.makedirs(inc + '/Variant')
    with open(inc + '/Variant/Config.h', 'w') as f:
        f.write('#ifndef VARIANT_CONFIG_H\n#define VARIANT_CONFIG_H\n#define HAVE_CXX11_SHAREDPTR 1\n#endif\n')


def load():
    if not os.path.exists(EXTRACT):
        subprocess.check_call(['bash', os.path.join(VERIF, 'setup.sh')])
    cache = None
    if os.environ.get('VERIF_DEVCACHE'):     # development only; registered commands never set it
        cache = os.path.join(os.environ['VERIF_DEVCACHE'], _tree_hash() + '.pkl')
        if os.path.exists(cache):
            return Program(pickle.load(open(cache, 'rb')))
    tmp = tempfile.mkdtemp(prefix='lvfacts')
    try:
        config(tmp + '/include')
        srcs = sources() + [HERE + '/instantiate.cc']
        if len(srcs) < 20:
            raise AnalysisBroken('only %d translation units found under %s' % (len(srcs), REPO))
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda iv: (iv[1], _extract(iv[1], tmp + '/include', '%s/%d.json' % (tmp, iv[0]))),
                              enumerate(srcs)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if cache:
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        pickle.dump(res, open(cache, 'wb'))
    return Program(res)
