from checks.common import *
from throws import Throws, ANY

EXPLAIN = ('A may-throw effect is computed for every function of the library: the exception types that can leave it, through all calls, virtual dispatch and the '
           'extension interfaces behind which user code may raise anything, minus what handlers on the way catch (by type, with rethrow). Every destructor, '
           'and every function declared not to throw, must have an empty effect; nothing reachable from a destructor may end the process.')
TECH = 'interprocedural may-throw effect analysis with typed handlers'
NOTE = 'All destructors and noexcept functions of all translation units. Running out of memory while building an exception object is not counted for the exception constructors.'
RULE = ('N1 the set of exception types that can leave the body of a destructor is empty; N2 the same for functions declared noexcept or throw(), allocation failure aside; '
        'N3 no destructor reaches abort, exit, terminate.')
ASSUME = ['release functions handed to a Blob do not throw (their type is a plain function pointer)',
          'members of the standard library without noexcept throw std::exception only, and those listed in throws.QUIET do not throw']
ENDS = {'abort', 'exit', '_exit', 'std::terminate', 'std::abort', 'std::exit', 'quick_exit', '_Exit', 'raise', 'kill', 'std::unexpected'}


def check(cx):
    prog = cx.prog
    th = Throws(prog)
    cx.count('functions with a computed effect', len(th.esc))
    cx.count('functions that may throw', sum(1 for v in th.esc.values() if v))
    dt = [f for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line)) if f.kind == 'dtor']
    cx.need([f for f in dt if not f.implicit], 'destructors', 20)
    for f in dt:
        cx.count('destructors')
        for ty, w in sorted(th.body[f.id].items(), key=str):
            if w[0] == 'indirect call' and f.cls == NS + 'Blob': cx.count('release functions assumed not to throw'); continue
            cx.bad('dtor|%s|%s' % (short(f.q), ty), f.loc(), '%s can let %s escape: %s' % (short(f.q), 'an arbitrary exception' if ty == ANY else ty, th.why(f.id, ty)))
        r = cx.eff.reach(f.id)
        for x in list(r) + [f.id]:
            g = prog.funcs.get(x)
            if g is None: continue
            for i, n in g.calls():
                if n.get('fq') in ENDS:
                    cx.bad('ends|%s|%s' % (short(f.q), n['fq']), g.loc(i), '%s reaches %s in %s' % (short(f.q), n['fq'], short(g.q)))
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line)):
        if f.nt and f.kind != 'dtor':
            cx.count('functions declared not to throw')
            for ty, w in sorted(th.body[f.id].items(), key=str):
                if ty in ('std::exception', 'std::bad_alloc'): continue
                cx.bad('noexcept|%s|%s' % (fn_key(f), ty), f.loc(), '%s is declared not to throw but can raise %s: %s' % (short(f.q), 'an arbitrary exception' if ty == ANY else ty, th.why(f.id, ty)))
    cx.sample('effects: ' + ', '.join('%s throws %s' % (short(f.q), '/'.join(sorted(map(str, th.esc[f.id])))) for f in list(prog.funcs.values())[:400:80]))
