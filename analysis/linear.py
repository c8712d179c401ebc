"""Linear forms over terms and a small prover: a form is shown to be
non-negative by subtracting facts that are non-negative."""
from interp import *


def lin(t):
    if t.k == 'i': return {None: t.a[0]} if t.a[0] else {}
    if t.k == '+' and len(t.a) == 2: return comb(lin(t.a[0]), lin(t.a[1]), 1)
    if t.k == '-' and len(t.a) == 2: return comb(lin(t.a[0]), lin(t.a[1]), -1)
    if t.k == '&' and t.a[0].k == 'idx': return comb(lin(t.a[0].a[0]), lin(t.a[0].a[1]), 1)
    if t.k == '&' and t.a[0].k == '*': return lin(t.a[0].a[0])
    return {t: 1}


def comb(a, b, s):
    r = dict(a)
    for k, v in b.items(): r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def settled(l):
    """sums of unsigned values and constants"""
    return all(v >= 0 for k, v in l.items())


def prove(goal, atoms, depth=4):
    if settled(goal): return True
    if depth == 0: return False
    neg = sorted((k for k, v in goal.items() if v < 0 and k is not None), key=lambda k: k.n)
    if neg:
        k = neg[0]
        for a in atoms:
            if a.get(k, 0) < 0 and prove(comb(goal, a, -1), atoms, depth - 1): return True
        return False
    for a in atoms:
        if a.get(None, 0) < 0 and prove(comb(goal, a, -1), atoms, depth - 1): return True
    return False


def atoms_of(st, extra=()):
    """linear forms the conditions and facts of a state make non-negative"""
    le = [(f[1], f[2]) for f in st.facts if isinstance(f, tuple) and f and f[0] == 'le']
    out = [comb(lin(b), lin(a), -1) for a, b in le] + list(extra)
    diff = []; ne = []
    for t, v in st.conds.items():
        if t.k == '<':
            x = comb(lin(t.a[1]), lin(t.a[0]), -1) if v else comb(lin(t.a[0]), lin(t.a[1]), -1)
            if v: x = comb(x, {None: 1}, -1)
            # a sum that wraps around is only smaller than it looks
            small, big = t.a if v else t.a[::-1]
            if any(wraps(s) for s in t.a) and not (not wraps(small) and big.k == '+'): diff.append((t, x))
            else: out.append(x)
        elif t.k == '==' and v:
            x = comb(lin(t.a[0]), lin(t.a[1]), -1)
            out += [x, {k: -w for k, w in x.items()}]
        elif t.k == '==': ne.append(t)
        elif t.k in ('upd', 'wlen', 'var', 'fld', 'p', 'call', 'init', 'got', 'lvl', 'min') and not v:
            out.append({t: -1})                     # tested to be zero
        elif t.k in ('wlen',) and v: out.append({t: 1, None: -1})
        elif t.k == '-' and len(t.a) == 2 and not v:
            x = comb(lin(t.a[0]), lin(t.a[1]), -1)
            out += [x, {k: -w for k, w in x.items()}]
    for t, x in diff:
        # an unsigned difference means something only if it does not wrap around
        if all(not wraps(s) or s.k == '-' and prove(comb(lin(s.a[0]), lin(s.a[1]), -1), out, 3) for s in t.a): out.append(x)
    for t, v in st.conds.items():
        if t.k == '+' and not v:
            l = lin(t)
            if any(all(a.get(k, 0) <= -c for k, c in l.items() if k is not None) for a in out): out.append({k: -c for k, c in l.items()})
    for t in ne:
        a, b = lin(t.a[0]), lin(t.a[1])
        for x, y in ((a, b), (b, a)):
            d = comb(y, x, -1)
            if d and prove(d, out, 3): out.append(comb(d, {None: 1}, -1)); break
    return out


def wraps(s):
    return s.k == '-' and len(s.a) == 2 and s.a[1].k != 'i' and not pointer(s.a[0]) or s.k == '+' and len(s.a) == 2 and not any(y.k == 'i' for y in s.a) and not any(pointer(y) for y in s.a)


def pointer(t):
    return t.k in ('win', '&', 's') or t.k == '+' and pointer(t.a[0])
