from checks.common import *
from throws import Throws, ANY
import checks.p11 as p11

EXPLAIN = ('Callbacks are found as library functions whose address is handed to a function of an external C library. For each, the may-throw effect must be '
           'empty; every handler in it must end in a return of the value that the library documents as failure; and every call that drives the library '
           '(reading the next node, parsing the next event, performing the transfer, creating the context) must have its failure status turned into an error before a normal return.')
TECH = 'interprocedural may-throw effect analysis of C callbacks plus path-sensitive status obligations on the driving calls'
NOTE = 'XML reader and writer, YAML parser and emitter, network transfer. The bundled JSON scanner is part of the library itself and is not a foreign frame.'
RULE = ('X1 no exception type can leave a function registered as a C callback; X2 every path through a handler of a callback returns the failure value of its registration; '
        'X3 a failure status of a call that drives a C library never reaches a normal return.')
ASSUME = ['libxml2, libyaml and libcurl report a failing callback through the status of the call that drives them']

NEGATIVE = lambda v: v < 0
ZERO_ = lambda v: v == 0
# registration -> argument position -> failure value
REG = {'yaml_emitter_set_output': {1: ZERO_}, 'yaml_parser_set_input': {1: ZERO_},
       'xmlOutputBufferCreateIO': {0: NEGATIVE, 1: NEGATIVE}, 'xmlReaderForIO': {0: NEGATIVE, 1: NEGATIVE}, 'xmlReadIO': {0: NEGATIVE, 1: NEGATIVE},
       'curl_easy_setopt': {2: ZERO_}}


def drive(n):
    q = n.get('fq', '')
    if q in ('yaml_parser_parse', 'yaml_parser_initialize', 'yaml_parser_scan', 'yaml_parser_load'): return ('nz', None)
    if q in ('xmlTextReaderRead', 'xmlTextReaderNext'): return ('nonneg', None)
    if q in ('xmlReaderForIO', 'xmlNewTextWriter', 'xmlOutputBufferCreateIO', 'curl_easy_init', 'xmlReaderForMemory'): return ('nz', None)
    if q in ('curl_easy_perform', 'curl_easy_setopt'): return ('zero', None)
    return None


class Drive(p11.Out):
    def after(self, eng, st, fr, nid, n, obj, args, res):
        p = drive(n)
        if p is not None and not self.in_dtor(fr):
            self.cx.count('driving calls followed')
            st.drop(lambda x: x[0] == 'stat' and x[1] == fr.uid and x[2] == nid)
            st.add(('stat', fr.uid, nid, res, p[0], None))
    def call(self, *a): pass


class Handler(p11.Out):
    exc = True
    def after(self, *a): pass
    def call(self, *a): pass
    def may_throw(self, eng, st, fr, nid, n): return True


def callbacks(cx):
    out = {}
    for f in cx.prog.funcs.values():
        for i, n in f.calls():
            g = n.get('fn')
            if not g or g in cx.prog.funcs or (n.get('fq') or '').startswith('std::') or n.get('obj') is not None: continue
            for p, a in enumerate(n.get('args', [])):
                if a is None or a < 0: continue
                m = f.nodes[f.strip(a)]
                if m['k'] == 'UnaryOperator' and m['op'] == '&': m = f.nodes[f.strip(m['c'][0])]
                if m['k'] not in ('DeclRefExpr', 'MemberExpr'): continue
                for h in cx.prog.fq(m.get('dq') or m.get('mq') or '?'):
                    out.setdefault(h.id, []).append((n['fq'], p, f, i))
    return out


def check(cx):
    prog = cx.prog
    th = Throws(prog)
    cbs = callbacks(cx)
    cx.need(cbs, 'callbacks handed to C libraries', 5)
    for cid, regs in sorted(cbs.items()):
        f = prog.funcs[cid]
        cx.count('callbacks')
        cx.sample('%s registered by %s' % (short(f.q), ', '.join(sorted({r[0] for r in regs}))))
        for ty, w in sorted(th.body[cid].items(), key=str):
            cx.bad('escape|%s|%s' % (short(f.q), ty), f.loc(), '%s, called from %s, can let %s unwind through the library: %s' % (
                short(f.q), regs[0][0], 'an arbitrary exception' if ty == ANY else ty, th.why(cid, ty)))
        fail = None
        for q, p, g, i in regs:
            fail = REG.get(q, {}).get(p, fail)
        hs = {c for n in f.nodes if n and n['k'] == 'CXXTryStmt' for c in n['c'][1:]}
        if fail is not None and hs and f.cfg:
            rule = Handler(cx, set()); rule.handlers = hs; rule.fails = {cid: fail}
            eng = cx.engine(rule); eng.run(f)
            cx.count('handlers in callbacks', len(hs))
            for k, (w, m) in rule.found.items():
                if k.startswith('swallow'):
                    cx.bad(k, w, '%s: after an error the callback does not return the failure value of %s, so the library carries on' % (short(f.q), regs[0][0]))
    # X3
    direct = [f for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line)) if f.cfg and any(drive(n) for i, n in f.calls())]
    cx.need(direct, 'functions driving a C library', 4)
    work = [(f, ()) for f in direct]; done = set()
    while work:
        f, force = work.pop(0)
        if (f.id, force) in done or f.kind == 'dtor': continue
        done.add((f.id, force))
        rule = Drive(cx, set(), force)
        eng = cx.engine(rule); eng.run(f)
        cx.count('functions driving a C library')
        if not rule.found: continue
        if is_helper(cx, f) and f.ret != 'void' and len(force) < 3:
            for c in sorted(direct_callers(cx).get(f.id, ())): work.append((prog.funcs[c], tuple(sorted(set(force) | {f.id}))))
            continue
        for k, (w, m) in rule.found.items(): cx.bad(k, w, m)
