import re
from checks.common import *
from interp import *

EXPLAIN = ('Every conversion of text to a number (strto*, std::sto*, stream extraction) is followed to where its result leaves the function: a call, a return, a store into an object of the caller. '
           'On every path to such a place the out-of-range result is excluded (errno reset before and compared after, or the limit value excluded), the end pointer shows that there were digits and nothing else follows, '
           'an unsigned conversion has its sign excluded, and no cast on the way narrows the value or changes its sign without a bound. Text that a regular expression or the JSON grammar has matched already needs the range test only; '
           'the number base is compared with the digits the matched group admits. The JSON reader takes each number from the union member its kind was stored in.')
TECH = 'path-sensitive typestate of conversion results (errno, end pointer, sign, width) over the control-flow graphs'
NOTE = 'All text-to-number conversions of the library, its bundled JSON parser and the tool; helpers are judged where they are called.'
RULE = ('N1 range tested before the value leaves; N2 digits present; N3 nothing follows; N4 no sign for unsigned; N5 no narrowing or sign-changing cast without bound; N6 base agrees with the matched digits; '
        'N7 no conversion that cannot report failure; N8 JSON kind and union member agree.')
ASSUME = ['The JSON state table only lets number syntax reach the conversion; conversions of a string value (Variant::As*) read the number the text starts with.']

INT = {'strtol': (64, 1), 'strtoll': (64, 1), 'strtoimax': (64, 1), 'strtoq': (64, 1), 'strtoul': (64, 0), 'strtoull': (64, 0), 'strtoumax': (64, 0), 'strtouq': (64, 0)}
FLT = {'strtod', 'strtof', 'strtold'}
STO = {'stoi': (32, 1), 'stol': (64, 1), 'stoll': (64, 1), 'stoul': (64, 0), 'stoull': (64, 0), 'stod': None, 'stof': None, 'stold': None}
BLIND = {'atoi', 'atol', 'atoll', 'atof', 'atoq'}
SCAN = {'sscanf', 'scanf', 'fscanf', 'vsscanf', 'vfscanf', '__isoc99_sscanf', '__isoc23_sscanf'}
BITS = {'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1), 'unsigned int': (32, 0),
        'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0), 'wchar_t': (32, 1)}
ERANGE = 34
EDOM_ALIASES = ('__errno_location', '__error', '_errno', '___errno')


def ity(t):
    return BITS.get((t or '').replace('const ', '').replace('volatile ', '').rstrip(' &'))


def is_errno(loc):
    return loc.k == '*' and loc.a[0].k == 'call' and loc.a[0].a[0].split('::')[-1] in EDOM_ALIASES

ERR = T('errnoloc')


class Num(Rule):
    inline_depth = 4
    max_states = 60
    max_steps = 8000
    def __init__(self, cx, groups):
        self.cx = cx; self.groups = groups; self.found = {}; self.convs = set(); self.delivered = 0; self.sites = set()
        self.loose = set()
    def inline(self, eng, st, fr, nid, n, g):
        return is_helper(self.cx, g) and g.file == fr.f.file
    # errno is one location whatever expression names it
    def errno_now(self, st):
        for f in st.facts:
            if f[0] == 'errno': return f[1]
        return None
    def set_errno(self, st, v):
        st.drop(lambda f: f[0] == 'errno')
        st.add(('errno', v))
    def sync(self, eng, st, fr, nid):
        pass

    def elem(self, eng, st, fr, nid, n):
        f = fr.f
        if n['k'] == 'UnaryOperator' and n['op'] in ('++', '--', 'post++', 'post--'):
            old = orig(eng.value_of(st, eng.lv(st, fr, n['c'][0])))
            c = self.end_of(st, old)
            if c is not None: st.add(('endptr', T('upd', fr.uid, nid), c))
        if n['k'].endswith('CastExpr') and n.get('ck') in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast') and n.get('c'):
            v = eng.ev(st, fr, n['c'][0])
            if v.k != 'conv': return
            p = f.nodes[f.par[nid]] if nid in f.par else None
            if p is not None and p['k'] == 'BinaryOperator' and p.get('op') in ('==', '!=', '<', '>', '<=', '>='): return
            src = f.nodes[n['c'][0]].get('t', ''); dst = n.get('t', '')
            if n['ck'] == 'IntegralCast':
                d = ity(dst)
                if d and not self.fits(st, v, d): self.bad(fr, nid, v, 'N5', 'the number read from text is cast to %s without knowing that it fits' % dst)
            elif n['ck'] == 'FloatingCast':
                w = {'float': 1, 'double': 2, 'long double': 3}
                if w.get(dst, 3) < w.get(src, 0): self.bad(fr, nid, v, 'N5', 'the number read from text loses precision in a cast to %s' % dst)
            elif n['ck'] == 'FloatingToIntegral':
                self.bad(fr, nid, v, 'N5', 'a floating point number read from text is cast to %s' % dst)
            elif n['ck'] == 'IntegralToFloating' and v.a[0] != 'd':
                self.bad(fr, nid, v, 'N5', 'an integer read from text is turned into %s, which cannot hold every integer' % dst)

    def end_of(self, st, v):
        if v.k == 'endp': return v.a[0]
        for f in st.facts:
            if f[0] == 'endptr' and f[1] is v: return f[2]
        return None

    # ---- bounds known about a conversion result
    def limits(self, st, c):
        lo = hi = None
        kind, bits, sgn = c.a[0], c.a[1], c.a[2]
        mx = (1 << (bits - 1)) - 1 if sgn else (1 << bits) - 1
        mn = -(1 << (bits - 1)) if sgn else 0
        for t, v in st.conds.items():
            if t.k == '<':
                a, b = t.a
                if a is c and b.k == 'i':
                    k = b.a[0]
                    if not sgn and k < 0: k += 1 << bits
                    if v: hi = k - 1 if hi is None else min(hi, k - 1)
                    else: lo = k if lo is None else max(lo, k)
                elif b is c and a.k == 'i':
                    k = a.a[0]
                    if not sgn and k < 0: k += 1 << bits
                    if v: lo = k + 1 if lo is None else max(lo, k + 1)
                    else: hi = k if hi is None else min(hi, k)
            elif t.k == '==' and t.a[0] is c and t.a[1].k == 'i':
                k = t.a[1].a[0]
                if not sgn and k < 0: k += 1 << bits
                if v: lo = k if lo is None else max(lo, k); hi = k if hi is None else min(hi, k)
                elif k == mx: hi = mx - 1 if hi is None else min(hi, mx - 1)
                elif k == mn and sgn: lo = mn + 1 if lo is None else max(lo, mn + 1)
            elif t is c and v is False: lo = hi = 0
        if not sgn: lo = 0 if lo is None else max(lo, 0)
        if ('small', c) in st.facts:
            m = [f for f in st.facts if f[0] == 'cap' and f[1] is c]
            hi = m[0][2]; lo = 0 if lo is None else max(lo, 0)
        return lo, hi, mn, mx
    def fits(self, st, c, d):
        if c.a[0] == 'd': return False
        bits, sgn = d
        tmx = (1 << (bits - 1)) - 1 if sgn else (1 << bits) - 1
        tmn = -(1 << (bits - 1)) if sgn else 0
        lo, hi, mn, mx = self.limits(st, c)
        lo = mn if lo is None else lo
        hi = mx if hi is None else hi
        if ('small', c) in st.facts and bits == 8: tmx = 255          # one byte of text
        return tmn <= lo and hi <= tmx

    # ---- evidence
    def gather(self, st):
        """turn what the branches taken so far say about conversions into facts"""
        for f in list(st.facts):
            if f[0] != 'conv': continue
            c = f[1]
            e = ('e', 'range', c)
            if e not in st.facts and self.in_range(st, c): st.add(e)
            e = ('e', 'digits', c)
            if e not in st.facts and self.has_digits(st, c): st.add(e)
            e = ('e', 'trail', c)
            if e not in st.facts and self.nothing_follows(st, c): st.add(e)
            e = ('e', 'sign', c)
            if e not in st.facts and self.no_sign(st, c): st.add(e)
    def in_range(self, st, c):
        if c.a[0] == 'd': return True
        v = T('errnoval', c)
        if st.conds.get(T('==', v, I(ERANGE))) is False or st.conds.get(v) is False: return True
        if any(st.conds.get(T('==', v, I(k))) for k in (0, 22)): return True
        if c.a[0] == 's': return self.stream_ok(st, c)
        lo, hi, mn, mx = self.limits(st, c)
        return hi is not None and hi < mx and (not c.a[2] or lo is not None and lo > mn)
    def stream_ok(self, st, c):
        s = c.a[3]
        call = c.a[5]
        for t, v in st.conds.items():
            if t.k != 'call': continue
            nm = t.a[0].split('::')[-1]
            o = t.a[1] if t.a[1] is not None else (t.a[2][0] if t.a[2] else None)
            if o is None or not (o is s or mentions(o, lambda x: x is s) or (o.k == 'call' and o.a[0].split('::')[-1] == 'operator>>')): continue
            if nm in ('fail', 'operator!', 'bad') and v is False and nm != 'bad': return True
            if nm in ('operator bool', 'operator void *', 'good') and v is True: return True
        return False
    def has_digits(self, st, c):
        if c.a[0] == 's': return self.stream_ok(st, c)
        e = T('endp', c)
        for t, v in st.conds.items():
            if t.k == '==' and v is False and e in t.a: return True
            if t.k == '<' and e in t.a and (v is True): return True
        if self.nonzero(st, c): return True        # a value other than zero needs digits
        # the first character is a digit
        for t, v in st.conds.items():
            if v is True and t.k == 'call' and t.a[0].split('::')[-1] in ('isdigit', 'isxdigit') and self.about(st, t.a[2][0], c): return True
        return False
    def nonzero(self, st, c):
        if c.a[0] == 'd': return st.conds.get(c) is True
        lo, hi, mn, mx = self.limits(st, c)
        return st.conds.get(c) is True or (lo is not None and lo > 0)
    def nothing_follows(self, st, c):
        if c.a[0] == 's':
            return self.only_digits(st, c) or any(t.k == 'call' and t.a[0].split('::')[-1] in ('eof',) and v is True for t, v in st.conds.items())
        ends = {T('endp', c)} | {f[1] for f in st.facts if f[0] == 'endptr' and f[2] is c}
        text = c.a[3]
        for t, v in st.conds.items():
            if t.k == '*' and t.a[0] in ends and v is False: return True
            if t.k == 'idx' and t.a[0] in ends and t.a[1] is ZERO and v is False: return True
            if t.k == '==' and v is True:
                for a, b in (t.a, t.a[::-1]):
                    if a in ends and b is not text and b is not ZERO: return True
        return self.only_digits(st, c)
    def roots_of(self, st, c):
        r = set()
        t = c.a[3]
        for f in st.facts:
            if f[0] == 'src' and f[1] is t: t = f[2]
        for x in subterms(t):
            if x.k in ('var', 'p', 'fld', 'glob'): r.add(x)
        return r, t
    def about(self, st, t, c):
        r, src = self.roots_of(st, c)
        return t is src or mentions(t, lambda x: x in r)
    def only_digits(self, st, c):
        for t, v in st.conds.items():
            for x in subterms(t):
                if x.k == 'call' and x.a[0].split('::')[-1] in ('find_first_not_of', 'strspn') and self.about(st, x, c) and (t.k == '==' and v is True or t is x and v is False):
                    return True
        return False
    def no_sign(self, st, c):
        if c.a[0] == 'd' or c.a[2]: return True
        for t, v in st.conds.items():
            for x in subterms(t):
                if x.k != 'call': continue
                nm = x.a[0].split('::')[-1]
                lits = [y for z in x.a[2] for y in subterms(z)]
                dash = I(45) in lits or any(y.k == 's' and '-' in y.a[0] for y in lits)
                digits = any(y.k == 's' and '-' not in y.a[0] and '0' in y.a[0] for y in lits)
                if not self.about(st, x, c): continue
                if nm in ('strchr', 'memchr', 'strpbrk', 'index', 'strrchr') and dash and t is x and v is False: return True
                if nm in ('find', 'find_first_of', 'rfind') and dash:
                    if t.k == '==' and v is True: return True
                    if t.k == '<' and t.a[0] is x and v is False: return True
                    if t.k == '<' and t.a[1] is x and v is True: return True
                if nm in ('find_first_not_of', 'strspn') and digits:
                    if t.k == '==' and v is True or t is x and v is False: return True
                if nm in ('isdigit', 'isxdigit') and t is x and v is True: return True
            if t.k == '==' and t.a[1] is I(45) and v is False and self.about(st, t.a[0], c): return True
            if t.k == '<' and t.a[1] is I(48) and v is False and self.about(st, t.a[0], c): return True
        # a signed conversion of the same text came out positive
        for f in st.facts:
            if f[0] == 'conv' and f[1] is not c and f[1].a[0] == 'i' and f[1].a[2] and f[1].a[3] is c.a[3]:
                lo, hi, mn, mx = self.limits(st, f[1])
                if lo is not None and lo >= 0: return True
        return False

    def branch(self, eng, st, fr, cond, val, term, nid): self.gather(st)

    # ---- conversions
    def start(self, eng, st, fr, nid, c, endarg, range_by_errno=True):
        self.convs.add((fr.f.loc(nid), c.a[0]))
        olds = [f for f in st.facts if f[0] in ('conv', 'e', 'endptr', 'small', 'cap') and c in f]
        st.drop(lambda f: f in olds)
        eng.forget(st, c)
        st.add(('conv', c))
        if endarg is not None and endarg.k == '&':
            st.mem[endarg.a[0]] = T('endp', c)
        if c.a[0] in ('i', 'd') and range_by_errno:
            clean = self.errno_now(st) is ZERO
            self.set_errno(st, T('errnoval', c) if clean else T('errnostale', c))
        if c.a[6] in ('strtof', 'stof', 'float'): self.bad(fr, nid, c, 'N5', 'the text is converted in single precision, numbers are held in double')
        # text in a small array: so many digits and no more
        base = c.a[4]
        n = self.array_len(fr, c.a[3])
        if n is not None and base in (8, 10, 16) and base ** (n - 1) <= 1 << 31:
            st.add(('small', c)); st.add(('cap', c, base ** (n - 1) - 1)); st.add(('e', 'range', c))
        g = self.group(c.a[3])
        if g is not None:
            st.add(('e', 'digits', c)); st.add(('e', 'trail', c))
            cls = self.groups.get(g)
            if cls:
                if not cls['sign']: st.add(('e', 'sign', c))
                if c.a[0] == 'i' and base != cls['base']: self.bad(fr, nid, c, 'N6', 'group %d of the pattern admits base %d digits, the conversion uses base %s' % (g, cls['base'], base))
        if mentions(c.a[3], lambda x: x.k == 'fld' and x.a[1] == 'parse_buffer'):
            st.add(('e', 'digits', c)); st.add(('e', 'trail', c))
            if c.a[0] == 'i' and base != 10: self.bad(fr, nid, c, 'N6', 'JSON numbers are decimal')
            if not self.json_minus(st): st.add(('e', 'sign', c))
        # already checked as another conversion of the same text
        for f in list(st.facts):
            if f[0] == 'e' and f[1] in ('digits', 'trail') and f[2] is not c and f[2].a[0] != 's' and f[2].a[3] is c.a[3] and f[2].a[4] == c.a[4]:
                st.add(('e', f[1], c))
        self.gather(st)
    def json_minus(self, st):
        """may the number start with a minus here?"""
        for t, v in st.conds.items():
            if v and t.k == '==' and t.a[0].k == 'fld' and t.a[0].a[1] == 'type' and t.a[1].k == 'i' and t.a[1].a[0] == self.json.get('JSON_T_UNSIGNED'): return False
        return True
    def group(self, text):
        for x in subterms(text):
            if x.k == 'fld' and x.a[1] == 'rm_so' and x.a[0].k == 'idx' and x.a[0].a[1].k == 'i': return x.a[0].a[1].a[0]
        return None
    def array_len(self, fr, text):
        if text.k != '&' or text.a[0].k != 'var': return None
        key = text.a[0].a[1]
        for x in [fr] + list(self.chain(fr)):
            for n in x.f.nodes:
                if n and n['k'] == 'DeclStmt':
                    for v in n['vars']:
                        if v['d'] == key:
                            m = re.match(r'(?:const )?char ?\[(\d+)\]$', v['t'])
                            if m: return int(m.group(1))
        return None
    def chain(self, fr):
        while fr.parent is not None: fr = fr.parent; yield fr

    def call(self, eng, st, fr, nid, n, obj, args):
        q = n.get('fq') or ''
        nm = q.split('::')[-1]
        g = eng.prog.funcs.get(n.get('fn'))
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): return
        if n.get('sys'):
            if nm in BLIND or nm in SCAN:
                if nm in SCAN and not any(a.k == 's' and re.search(r'%[^s]*[diouxXlfeg]', a.a[0]) for a in args): return
                self.bad(fr, nid, None, 'N7', '%s cannot report that the number does not fit or that nothing was converted' % nm)
                return
            if nm in PURE_SYS or nm in INT or nm in FLT or nm in STO: return
            if nm in ('operator<<', 'operator>>', 'printf', 'fprintf', 'snprintf', 'sprintf', 'vsnprintf', 'operator!', 'operator bool') or nm in ('isspace', 'isxdigit', 'strchr', '__errno_location', 'to_string'): return
            if n.get('oop') in ('==', '!=', '<', '>', '<=', '>=', '+'): return
        if g is not None and g.cfg and not n.get('virt') and self.inline(eng, st, fr, nid, n, g): return
        for a in args:
            self.leave(eng, st, fr, nid, a, 'passed to %s' % short(q or 'a function'))
            if a.k == '&' and a.a[0].k == 'var':
                m = [f for f in st.facts if f[0] == 'vu' and f[1] is a.a[0]]
                for l, v in list(st.mem.items()):
                    if l.k == 'fld' and mentions(l, lambda x: x is a.a[0]): self.leave(eng, st, fr, nid, v, 'passed to %s' % short(q or 'a callback'))
                if m: self.json_pair(st, fr, nid, args, m[0][2])
    def json_pair(self, st, fr, nid, args, member):
        want = self.members
        for a in args:
            k = None
            if a.k == 'i' and a.a[0] in want: k = a.a[0]
            elif a.k in ('fld', 'var'):
                for t, v in st.conds.items():
                    if v and t.k == '==' and t.a[0] is a and t.a[1].k == 'i' and t.a[1].a[0] in want: k = t.a[1].a[0]
            if k is None: continue
            if member != want[k] and not (member == 'str' and any(v and t.k == 'fld' and t.a[1] == 'handle_floats_manually' for t, v in st.conds.items())):
                self.bad(fr, nid, None, 'N8', 'a value of kind %s is passed on in the member %s, the receiver reads %s' % (self.jname[k], member, want[k]))
    def after(self, eng, st, fr, nid, n, obj, args, res):
        q = n.get('fq') or ''
        nm = q.split('::')[-1]
        if not n.get('sys'): return
        if nm in EDOM_ALIASES and len(args) == 0:
            st.res[(fr.uid, nid)] = T('&', ERR)
            v = self.errno_now(st)
            if v is not None: st.mem[ERR] = v
            else: st.mem.pop(ERR, None)
            return
        uid = (fr.uid, nid)
        if nm in INT and len(args) >= 2:
            b = args[2].a[0] if len(args) > 2 and args[2].k == 'i' else None
            w, s = INT[nm]
            c = T('conv', 'i', w, s, self.txt(eng, st, args[0]), b, uid, nm)
            st.res[uid] = c
            self.start(eng, st, fr, nid, c, args[1])
        elif nm in FLT and len(args) >= 2:
            c = T('conv', 'd', 64, 1, self.txt(eng, st, args[0]), None, uid, nm)
            st.res[uid] = c
            self.start(eng, st, fr, nid, c, args[1])
        elif nm in STO and args:
            w, s = STO[nm] or (64, 1)
            c = T('conv', 'i' if STO[nm] else 'd', w, s, self.txt(eng, st, args[0]), 10, uid, nm)
            st.res[uid] = c
            self.start(eng, st, fr, nid, c, args[1] if len(args) > 1 else None, False)
            st.add(('e', 'range', c)); st.add(('e', 'digits', c))
            if len(args) > 1 and args[1].k == '&': st.mem[args[1].a[0]] = T('endp', c)
        elif nm == 'operator>>' and args:
            a = args[-1]
            pt = (n.get('pt') or [''])[-1]
            ty = ity(pt)
            s = obj if obj is not None else args[0]
            if 'istream' in q or 'istream' in n.get('t', ''):
                flt = pt.replace(' &', '') in ('float', 'double', 'long double')
                if (ty or flt) and ity(pt) != (8, 1) and ity(pt) != (8, 0):
                    w, sg = ty or (64, 1)
                    c = T('conv', 's', w, sg, s, 10, uid, pt.replace(' &', ''))
                    st.mem[a] = c
                    self.start(eng, st, fr, nid, c, None)
                    self.set_errno(st, T('errnostale', c))
    def txt(self, eng, st, t): return orig(t)
    def declare(self, eng, st, fr, v, loc, val):
        if val is not None and 'stringstream' in v['t'] and val.k in ('ctor', 'copy'):
            for x in val.a[1] if val.k == 'ctor' else ():
                st.add(('src', loc, x)); break
    def assign(self, eng, st, fr, nid, loc, val):
        if loc is ERR or is_errno(loc):
            self.set_errno(st, val)
            return
        if loc.k == 'fld':
            # the members of a union replace one another
            x = loc
            chain = []
            while x.k == 'fld':
                chain.append(x); x = x.a[0]
            for i, y in enumerate(chain):
                if y.a[0].k == 'fld' and y.a[0].a[1] == 'vu':
                    un = y.a[0]
                    for l in [l for l in st.mem if l.k == 'fld' and l.a[0] is un and l is not y]: del st.mem[l]
                    o = un.a[0]
                    st.drop(lambda f: f[0] == 'vu' and f[1] is o)
                    st.add(('vu', o, y.a[1]))
        x = loc
        out = loc.k == 'glob' or loc.k == 'p' and fr.parent is None and self.byref(fr.f, loc)
        while x.k in ('fld', 'idx', 'elem', '*'):
            if x.k == '*' and x.a[0].k != '&': out = True
            x = x.a[0]
        if x.k in ('this', 'glob'): out = True
        if x.k == 'p' and loc.k != 'p' and self.byref(eng.root_func, x): out = True
        if out: self.leave(eng, st, fr, nid, val, 'stored in %s' % tstr(loc))
    def byref(self, f, p): return p.a[0] < len(f.params) and f.params[p.a[0]]['t'].rstrip().endswith('&')
    def ret(self, eng, st, fr, nid, val):
        if fr.parent is None and val is not None:
            r = eng.root_func.ret.replace('const ', '')
            if r in ('bool', 'void'): return
            v = val
            if v.k in ('var', 'fld') and v in st.mem: v = st.mem[v]
            self.leave(eng, st, fr, nid, v, 'returned')

    def leave(self, eng, st, fr, nid, val, how):
        for c in {x for x in subterms(val) if x.k == 'conv'} if val is not None else ():
            inner = [x for x in subterms(val) if x.k in ('==', '<', '!') and mentions(x, lambda y: y is c)]
            if inner and val in inner: continue
            self.delivered += 1; self.sites.add(c.a[6:] + (c.a[5][1],))
            miss = []
            def has(k): return ('e', k, c) in st.facts
            if not has('range'): miss.append(('N1', 'an out-of-range number is not told from a valid one' + (' (errno is not reset before)' if self.errno_now(st) is T('errnostale', c) else '')))
            if not has('digits'): miss.append(('N2', 'text without digits is not rejected'))
            if not has('trail') and not (c.a[0] == 's' and self.value_conv(eng)): miss.append(('N3', 'text after the number is not rejected'))
            if not has('sign'): miss.append(('N4', 'a minus sign wraps the unsigned number around'))
            for r, m in miss: self.bad(fr, nid, c, r, 'the number read by %s is %s although %s' % (self.cname(c), how, m))
    def cname(self, c): return c.a[6] if c.a[0] != 's' else 'stream extraction'
    def value_conv(self, eng):
        f = eng.root_func
        return f.cls and f.cls in self.vt and f.q.split('::')[-1] in ('AsInt', 'AsUnsigned', 'AsLongDouble', 'AsBool', 'AsString')
    def bad(self, fr, nid, c, rule, msg):
        g = self.group(c.a[3]) if c is not None else None
        key = '%s:%s%s:%s' % (short(fr.f.q), (self.cname(c) if c is not None else 'call') + ('' if c is None or c.a[0] != 'i' else ':base%s' % c.a[4]), '' if g is None else ':group%d' % g, rule)
        self.found.setdefault(key, (fr.f, fr.f.loc(nid), '%s: %s' % (rule, msg)))


def groups_of(pattern):
    """capture groups of an extended regular expression: what numbers they admit"""
    out = {}
    st = []
    i = 0; n = 0
    while i < len(pattern):
        ch = pattern[i]
        if ch == '\\': i += 2; continue
        if ch == '[':
            j = i + 1
            if pattern[j:j + 1] == '^': j += 1
            if pattern[j:j + 1] == ']': j += 1
            while j < len(pattern) and pattern[j] != ']':
                if pattern[j:j + 2] == '[:': j = pattern.index(':]', j) + 1
                j += 1
            i = j + 1
            continue
        if ch == '(':
            n += 1; st.append((n, i + 1))
        elif ch == ')' and st:
            k, b = st.pop()
            out[k] = pattern[b:i]
        i += 1
    res = {}
    for k, s in out.items():
        m = re.match(r'^(\[[-+]+\]\??)?\[([0-9a-zA-Z-]+)\]\+$', s)
        if not m: continue
        d = m.group(2)
        cnt = 0
        for a, b in re.findall(r'(.)-(.)', d): cnt += ord(b) - ord(a) + 1
        base = {10: 10, 8: 8, 2: 2, 22: 16, 16: 16}.get(cnt)
        if base: res[k] = {'base': base, 'sign': '-' in (m.group(1) or '')[1:-1].replace(']', ''), 'text': s}
    return res


def check(cx):
    p = cx.prog
    # the patterns that text is matched against before it is converted
    groups = {}
    pats = [v['str'] for v in p.vars.values() if v.get('str') and '(' in v['str'] and ('[0-9]' in v['str'] or '0-7' in v['str'])]
    for s in pats:
        for k, g in groups_of(s).items(): groups[k] = g
    en = {}
    for e in p.enums.values():
        for x in e['e']:
            if x['n'].startswith('JSON_T_'): en[x['n']] = int(x['v'])
    cx.need([k for k in en if k in ('JSON_T_INTEGER', 'JSON_T_UNSIGNED', 'JSON_T_FLOAT')], 'JSON number kinds', 3)
    members = {en['JSON_T_INTEGER']: 'integer_value', en['JSON_T_UNSIGNED']: 'unsigned_value', en['JSON_T_FLOAT']: 'float_value'}
    for k in ('JSON_T_STRING', 'JSON_T_KEY'):
        if k in en: members[en[k]] = 'str'
    vt = {c for c in vt_classes(cx)}

    def isconv(f):
        for nid, n in f.calls():
            if not n.get('sys'): continue
            nm = (n.get('fq') or '').split('::')[-1]
            if nm in INT or nm in FLT or nm in BLIND or nm in SCAN: return True
            if nm in STO and (n.get('fq') or '').startswith('std::'): return True
            if nm == 'operator>>' and 'istream' in ((n.get('fq') or '') + n.get('t', '')): return True
        return False
    fs = sorted([f for f in p.funcs.values() if f.cfg and isconv(f)], key=lambda f: (f.file, f.line, f.id))
    cx.need(fs, 'functions that convert text to numbers', 3)
    dc = direct_callers(cx)
    tot = set(); deliv = 0

    def judge(f, depth=0):
        nonlocal deliv
        rule = Num(cx, groups)
        rule.json = en; rule.members = members; rule.jname = {v: k for k, v in en.items()}
        rule.vt = vt
        eng = cx.engine(rule)
        eng.run(f)
        cx.finish_engine(eng, 'number conversions')
        tot.update(rule.convs); deliv += rule.delivered
        if rule.found and depth < 3 and is_helper(cx, f):
            out = {}
            cs = [p.funcs[c] for c in dc.get(f.id, ()) if c in p.funcs and p.funcs[c].file == f.file and c != f.id]
            if len(cs) == len([c for c in dc.get(f.id, ()) if c != f.id]) and cs:
                fixed = {k for k in rule.found if k.endswith((':N7', ':N6'))}
                seen = True
                for c in cs:
                    r, sites = judge(c, depth + 1)
                    seen = seen and rule.sites <= sites
                    for k, v in r.items(): out.setdefault(k, v)
                for k in fixed: out.setdefault(k, rule.found[k])
                # the callers decide only if the number is seen to leave them
                if seen: return out, rule.sites
        return rule.found, rule.sites
    n = 0
    for f in fs:
        found, _ = judge(f)
        n += 1
        for k, (g, where, msg) in sorted(found.items()): cx.bad(k, where, msg)
    cx.count('functions that convert text', n)
    cx.count('conversions followed', len(tot))
    cx.count('places a converted number leaves', deliv)
    cx.count('pattern groups that admit integers', len(groups))
    for c in sorted(tot)[:10]: cx.sample('conversion at %s' % c[0])

    # N8 the reader of the union
    rd = 0
    for f in p.funcs.values():
        pi = [y for y in f.params if 'JSON_value' in y['t']]
        if not f.cfg or not pi: continue
        if f.file.startswith('lib/'): continue
        r = Reader(members, {v: k for k, v in en.items()})
        eng = cx.engine(r)
        eng.run(f)
        cx.finish_engine(eng, 'JSON kinds')
        rd += len(r.reads)
        for k, (where, msg) in sorted(r.found.items()): cx.bad('%s:%s' % (short(f.q), k), where, msg)
    cx.need([1] * rd, 'reads of JSON numbers', 3)
    cx.count('reads of JSON values by kind', rd)


class Reader(Rule):
    max_states = 60
    def __init__(self, members, names): self.members = members; self.names = names; self.found = {}; self.reads = set()
    def inline(self, eng, st, fr, nid, n, g): return False
    def load(self, eng, st, fr, nid, loc): self.see(eng, st, fr, nid, loc)
    def see(self, eng, st, fr, nid, loc):
        x = loc
        while x.k == 'fld':
            if x.a[0].k == 'fld' and x.a[0].a[1] == 'vu':
                m = x.a[1]
                ks = {t.a[1].a[0] for t, v in st.conds.items() if v and t.k == '==' and t.a[0].k == 'p' and t.a[1].k == 'i'}
                self.reads.add((fr.f.loc(nid), m))
                bad = [k for k in ks if k in self.members and self.members[k] != m]
                if bad: self.found['N8:%s' % m] = (fr.f.loc(nid), 'N8: a value of kind %s is read from the member %s, it was stored in %s' % (self.names[bad[0]], m, self.members[bad[0]]))
                elif not any(k in self.members for k in ks): self.found['N8:%s' % m] = (fr.f.loc(nid), 'N8: the member %s is read without knowing the kind of the value' % m)
                return
            x = x.a[0]
    def elem(self, eng, st, fr, nid, n):
        f = fr.f
        if n['k'].endswith('CastExpr') and n.get('ck') in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast') and n.get('c'):
            s = f.nodes[f.strip(n['c'][0])]
            if s['k'] == 'MemberExpr' and s.get('m') in ('integer_value', 'unsigned_value', 'float_value'):
                a, b = ity(f.nodes[n['c'][0]].get('t')), ity(n.get('t'))
                p = f.nodes[f.par[nid]] if nid in f.par else None
                if p is not None and p['k'] == 'BinaryOperator': return
                if n['ck'] == 'FloatingCast' and n.get('t') != 'float': return
                if n['ck'] == 'IntegralCast' and a and b and (b[0] > a[0] and (a[1] <= b[1] or not a[1]) or b == a): return
                self.found['N5:%s' % s['m']] = (f.loc(nid), 'N5: the JSON number is cast from %s to %s' % (f.nodes[n['c'][0]].get('t'), n.get('t')))
