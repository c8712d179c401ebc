from checks.common import *

EXPLAIN = ('Sharing analysis. Starting from the source of a copy, every pointer payload, container element and buffer address is tracked '
           'through the Copy operation of every value type, through the blob copy, and through the library calls that place a copied value '
           'into another document; only results of the deep-copy operations lose the mark. Storing a marked pointer, element or buffer '
           'into the destination is a violation.')
TECH = 'source-to-destination sharing (taint) dataflow over the copy operations with helper splicing'
NOTE = 'Every path of every implementation of the copy operation and of the copying document operations is covered. Decides sharing, not completeness of the copied content. Trusts std::string and memcpy to copy.'
RULE = ('S1 no Copy operation stores into the destination a payload pointer, storage handle, element or blob buffer taken from the source; '
        'S2 Variant::Copy returns a fresh local filled by the Copy operation; S3 Blob copies build the new blob only over freshly allocated memory; '
        'S4 the copying JSON Pointer / JSON Patch operations, schema defaults, recursive diff, update and flatten place only deep-copied values.')

PTR = {'s', 'm', 'l', 'blob', 'ref', 'proxy', 'storage'}
SCALAR = {'b', 'f', 'i', 'u', 'vtable', 'first'}
DEEP = {'libvariant::Variant::Copy', 'libvariant::Blob::Copy', 'libvariant::Blob::CreateCopy'}
STORES = {'ListStorage', 'MapStorage', 'BlobStorage', 'RefStorage', 'ProxyStorage'}
FILL = {'push_back', 'insert', 'assign', 'operator=', 'swap', 'emplace', 'emplace_back', 'resize', 'insert_or_assign', 'try_emplace'}


def marked(t, src, memo=None, mem={}):
    """does t give access to contents of a source (terms satisfying src)"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    memo[t] = False
    r = False
    if src(t): r = True
    elif t.k == 'old' and orig(t) is not t: r = marked(orig(t), src, memo, mem)
    elif t.k == 'var' and mem.get(t) is not None: r = marked(mem[t], src, memo, mem)
    elif t.k == 'fld' and t.a[1] in SCALAR: r = False
    elif t.k == 'call' and t.a[0] in DEEP: r = False
    elif t.k == 'call' and t.a[0].split('::')[-1] in ('size', 'length', 'empty', 'GetType', 'GetLength', 'GetTotalLength', 'GetNumBuffers', 'AsString', 'AsInt', 'AsUnsigned', 'AsBool', 'AsLongDouble', 'max', 'min'): r = False
    elif t.k == 'ctor' and t.a[0] == 'std::basic_string': r = False
    elif t.k in ('==', '<', '!', '&&', '||'): r = False
    elif t.k == 'cond': r = marked(t.a[1], src, memo, mem) or marked(t.a[2], src, memo, mem)
    else:
        for x in t.a:
            if isinstance(x, Term):
                if marked(x, src, memo, mem): r = True; break
            elif isinstance(x, tuple):
                if any(isinstance(y, Term) and marked(y, src, memo, mem) for y in x): r = True; break
    memo[t] = r
    return r


def is_container(fq):
    return fq.startswith('std::vector<libvariant::Variant') or (fq.startswith('std::map<') and 'libvariant::Variant' in fq)


def deep_value(eng, st, t, n=0):
    """resolve a location to what was last stored there"""
    while n < 6:
        v = st.mem.get(t)
        if v is None or v is t: return t
        t = v; n += 1
    return t


class CopySlot(Rule):
    inline_depth = 5
    def __init__(self, sl): self.sl = sl
    def inline(self, eng, st, fr, nid, n, g):
        return g.q not in DEEP and (g.file.endswith('Variant.cc') or g.file.endswith('VariantInternal.h') or (g.cls or '').endswith('Storage'))
    def init(self, eng, st):
        self.src = T('p', 0, eng.root_func.params[0]['n'] or 'arg0')
        self.dst = T('p', 1, eng.root_func.params[1]['n'] or 'arg1')
    def m(self, t):
        return marked(t, lambda x: x is self.src)
    def bad(self, eng, fr, nid, what, msg):
        self.cx.bad('%s|%s' % (what, fn_key(eng.root_func)), fr.f.loc(nid), '%s: %s' % (short(eng.root_func.q), msg))
    def assign(self, eng, st, fr, nid, loc, val):
        if loc.k == 'fld' and loc.a[1] in PTR and not mentions(loc, lambda x: x is self.src):
            self.cx.count('payload stores judged')
            if self.m(val):
                self.bad(eng, fr, nid, 'shared-payload', 'the copy stores %s, contents of its source' % tstr(val))
    def call(self, eng, st, fr, nid, n, obj, args):
        fq = n.get('fq', ''); name = fq.split('::')[-1]
        if n.get('virt') and n.get('fn') in self.sl:
            sn = self.sl[n['fn']]['n']
            if sn == 'Copy': self.cx.count('nested deep copies')
            if sn == 'Assign' and args and self.m(args[0]) and not (len(args) > 1 and mentions(args[1], lambda x: x is self.src)):
                self.bad(eng, fr, nid, 'assign-in-copy', 'uses plain assignment, which shares storage, instead of a deep copy')
            if sn in ('MakeRef', 'MakeProxy') and len(args) > 1 and not mentions(args[1], lambda x: x is self.src):
                self.bad(eng, fr, nid, 'ref-in-copy', 'makes the copy a reference to its source')
            return
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            c = n.get('cls', '').split('::')[-1]
            if c in STORES:
                self.cx.count('storage constructions judged')
                for i, a in enumerate(args):
                    if self.m(deep_value(eng, st, a)):
                        self.bad(eng, fr, nid, 'shared-elements', 'builds the storage of the copy from %s, sharing its elements with the source' % tstr(a))
            return
        if is_container(fq) and name in FILL and obj is not None and not n.get('cm'):
            self.cx.count('element insertions judged')
            for a in args:
                a = deep_value(eng, st, a)
                if self.m(a) and not self.only_position(n, a):
                    self.bad(eng, fr, nid, 'shared-element', 'inserts %s without deep-copying it' % tstr(a))
        if fq == VARIANT + '::operator=' or fq == VARIANT + '::Assign':
            if obj is not None and args and not mentions(obj, lambda x: x is self.src) and self.m(deep_value(eng, st, args[0])) and 'Variant' in (n.get('pt') or [''])[0]:
                self.bad(eng, fr, nid, 'shared-element', 'assigns %s, sharing its storage, into the copy' % tstr(args[0]))
    def only_position(self, n, a): return False


class CopyEntry(Rule):
    """Variant::Copy itself"""
    def __init__(self, sl): self.sl = sl
    def inline(self, eng, st, fr, nid, n, g): return g.file.endswith('Variant.cc')
    def call(self, eng, st, fr, nid, n, obj, args):
        if n.get('virt') and n.get('fn') in self.sl and self.sl[n['fn']]['n'] == 'Copy' and len(args) > 1:
            if args[1].k == '&': st.add(('filled', args[1].a[0]))
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is not None or val is None: return
        self.cx.count('results of Variant::Copy')
        e = fr.f.strip(fr.f.nodes[nid]['c'][0])
        loc = eng.lv(st, fr, e)
        if ('filled', loc) in st.facts: return
        v = val
        while v.k == 'copy': v = v.a[0]
        if v.k == 'call' and v.a[0] in DEEP: return
        self.cx.bad('copy-result|%s' % fn_key(fr.f), fr.f.loc(nid), '%s returns %s, which is not a local filled by the Copy operation' % (short(fr.f.q), tstr(val)))


class BlobCopy(Rule):
    def inline(self, eng, st, fr, nid, n, g): return g.cls == 'libvariant::Blob' and g.kind != 'ctor'
    def src(self, eng, t):
        f = eng.root_func
        if f.name == 'Copy': return t is THIS
        return t.k == 'p' and t.a[0] == 0
    def call(self, eng, st, fr, nid, n, obj, args):
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and n.get('cls') == 'libvariant::Blob' and not n.get('copy'):
            self.cx.count('blob constructions judged')
            for i, a in enumerate(args[:1]):
                v = a
                if a.k == '&': v = deep_value(eng, st, a.a[0])
                if marked(v, lambda x: self.src(eng, x)) or marked(a, lambda x: self.src(eng, x)):
                    self.cx.bad('shared-buffer|%s' % fn_key(eng.root_func), fr.f.loc(nid), '%s builds the new blob over %s, memory of its source' % (short(eng.root_func.q), tstr(v)))
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is not None or val is None: return
        self.cx.count('blob copy results')
        v = deep_value(eng, st, val)
        if mentions(v, lambda x: x is THIS) and eng.root_func.name == 'Copy' and not mentions(v, lambda x: x.k == 'new' or (x.k == 'call' and x.a[0] in DEEP)):
            self.cx.bad('shared-buffer|%s' % fn_key(eng.root_func), fr.f.loc(nid), '%s returns %s instead of a new blob' % (short(eng.root_func.q), tstr(v)))


# document operations that promise a copy: function -> condition value (None: all of it)
COPYING = {'JSONPointerCopy': None, 'JSONPatchOp': 'copy', 'AddSchemaDefaults': None, 'RDiff': None, 'RUpdate': None, 'FlattenPathTo': None}
PUT = {'operator=': 0, 'Assign': 0, 'Set': 1, 'SetPath': 1, 'Append': 0, 'At': 1, 'AtPath': 1, 'Resolve': 0, 'ReassignRef': 0}


class DocCopy(Rule):
    inline_depth = 4
    def __init__(self, names): self.names = names
    def inline(self, eng, st, fr, nid, n, g):
        return (g.file.endswith('Extensions.cc') or g.file.endswith('Schema.cc')) and g.name not in self.names and g.name != 'JSONPointerOp'
    def init(self, eng, st):
        self.byval = {i for i, p in enumerate(eng.root_func.params) if p['t'] == VARIANT}
    def src(self, t):
        if t.k == 'p': return True
        if t.k == 'call' and t.a[0].split('::')[-1] in ('JSONPointerOp', 'GetSchema'): return True
        if t.k == 'fld' and t.a[1] in ('value', 'old_value'): return True
        return False
    def put(self, eng, st, fr, nid, obj, a):
        cond = COPYING[self.name]
        if cond is not None and not any(v and c.k == '==' and c.a[1].k == 's' and c.a[1].a[0] == cond for c, v in st.conds.items()): return
        if obj is not None:
            r = root(obj)
            while r.k == 'call' and r.a[1] is not None: r = root(r.a[1])
            if r.k == 'p' and r.a[0] in self.byval: return
        self.cx.count('values placed by copying operations')
        v = deep_value(eng, st, a)
        if marked(v, lambda t: self.src(t) or ('mk', t) in st.facts, None, st.mem):
            self.cx.bad('shared-place|%s' % short(eng.root_func.q), fr.f.loc(nid), '%s places %s without deep-copying it' % (short(eng.root_func.q), tstr(v)))
        self.cx.sample('%s: %s' % (fr.f.loc(nid), tstr(v)))
    def call(self, eng, st, fr, nid, n, obj, args):
        fq = n.get('fq', ''); name = fq.split('::')[-1]
        if is_container(fq) and name in FILL and not n.get('cm'):
            for i, a in enumerate(args):
                t = fr.f.nodes[n['args'][i]].get('t', '')
                if 'iterator' not in t: self.put(eng, st, fr, nid, obj, a)
            return
        # a document stays a source however it is used
        if obj is not None and obj.k == 'var' and marked(obj, self.src, None, st.mem): st.add(('mk', obj))
        own = n.get('cls', '') == VARIANT or n.get('cls', '').startswith('libvariant::VariantRefImpl')
        if own and name in PUT and obj is not None:
            i = PUT[name]
            pt = n.get('pt', [])
            if i < len(args) and i < len(pt) and ('Variant' in pt[i] and 'Type_t' not in pt[i]): self.put(eng, st, fr, nid, obj, args[i])
    def declare(self, eng, st, fr, v, loc, val):
        st.drop(lambda t: t == ('mk', loc))
    def after(self, eng, st, fr, nid, n, obj, args, res):
        if n.get('fq', '').split('::')[-1] == 'operator=' and n.get('cls') == VARIANT and obj is not None and len(args) == 1:
            st.mem[obj] = T('copy', deep_value(eng, st, args[0]))


def check(cx):
    sl = slots(cx)
    cslot = [i for i, m in sl.items() if m['n'] == 'Copy']
    cx.need(cslot, 'Copy operation')
    rule = CopySlot(sl)
    eng = cx.engine(rule)
    seen = set()
    for c in vt_classes(cx):
        m = effective(cx.prog, c, cslot[0])
        f = cx.prog.funcs.get(m)
        if f is None or not f.cfg or m in seen: continue
        seen.add(m)
        eng.run(f)
    cx.need(seen, 'Copy implementations', 8)
    cx.finish_engine(eng, 'copy operations')
    eng = cx.engine(CopyEntry(sl))
    fs = [f for f in cx.prog.fq('libvariant::Variant::Copy')]
    cx.need(fs, 'Variant::Copy')
    for f in fs: eng.run(f)
    cx.need(cx.counts.get('results of Variant::Copy', 0), 'results of Variant::Copy')
    eng = cx.engine(BlobCopy())
    fs = [f for f in cx.prog.fq('libvariant::Blob::Copy') + cx.prog.fq('libvariant::Blob::CreateCopy')]
    cx.need(fs, 'blob copy functions', 2)
    for f in fs: eng.run(f)
    cx.finish_engine(eng, 'blob copies')
    cx.need(cx.counts.get('blob constructions judged', 0), 'blob constructions')
    rule = DocCopy(set(COPYING))
    eng = cx.engine(rule)
    for name in sorted(COPYING):
        fs = [f for f in cx.prog.fq(NS + name) if f.cfg]
        if not fs:
            # the operation was split differently: judge whatever public function still carries it
            fs = [f for f in cx.prog.fq(NS + 'JSONPatch') if f.cfg] if name == 'JSONPatchOp' else fs
        cx.need(fs, 'copying operation ' + name)
        rule.name = name
        for f in fs: eng.run(f)
        if name == 'AddSchemaDefaults':
            for f in cx.prog.funcs.values():
                if f.q.startswith(NS + 'AddSchema') and f.cfg and f.id not in eng.covered and any(f.id in cx.eff.reach(g.id) for g in fs): eng.run(f)
    cx.finish_engine(eng, 'document operations')
    cx.need(cx.counts.get('values placed by copying operations', 0), 'values placed by copying operations', 4)
