from checks.common import *
import re

EXPLAIN = ('Every call of an operating-system, C library or third-party function is classified by the effect it has outside the process memory. From each call with such an effect the call graph is followed backwards; '
           'every chain must pass through a gate, an interface whose purpose is that effect (a call that is given a file name, the schema loader that offers files and network, the command-line parser, the debugging helpers, a stand-alone program). '
           'The name of an opened file must come from the parameters of the gate, inputs are only opened for reading, the library never creates the file- and network-capable schema loader by itself, and the XML reader is created without the options that make it fetch external entities.')
TECH = 'backward call-graph reachability from effectful calls to permitted gates'
NOTE = 'Reading and writing through a handle the caller supplied is not an effect of its own. Reading the clock is not constrained.'
RULE = 'C1 every chain into an effectful call passes a gate for that effect; C2 opened names derive from parameters; C3 inputs are opened read-only; C4 XML reader options exclude external entities and inclusion; C5 no library code constructs the capability-bearing schema loader.'
ASSUME = ['functions of unknown effect in libc, libxml2, libyaml and libcurl that are not in the tables have none', 'failed assertions are unreachable']

READ, WRITE = 'reading a file by name', 'writing a file by name'
EFF = {}
def table(cat, names):
    for n in names.split(): EFF[n] = cat
table('open', 'fopen fopen64 std::fopen freopen std::freopen open open64 openat creat')
table(READ, 'opendir scandir stat lstat fstatat access realpath readlink std::basic_ifstream<char>::open xmlReaderForFile xmlReadFile xmlParseFile xmlCtxtReadFile xmlNewTextReaderFilename xmlLoadExternalEntity xmlXIncludeProcess xmlNewInputFromFile xmlParserInputBufferCreateFilename mmap')
table(WRITE, 'unlink remove std::remove rename std::rename mkdir rmdir chmod chown truncate symlink link mkstemp mkdtemp tmpfile std::tmpfile tmpnam std::basic_ofstream<char>::open std::basic_fstream<char>::open xmlNewTextWriterFilename xmlSaveFile xmlSaveFormatFile')
table('network', 'curl_easy_perform curl_easy_init curl_multi_perform curl_easy_send curl_easy_recv socket connect bind listen accept getaddrinfo gethostbyname sendto recvfrom xmlNanoHTTPFetch')
table('environment', 'getenv std::getenv secure_getenv getpwuid getpwnam getlogin gethostname getcwd')
table('process', 'exit std::exit _exit _Exit std::_Exit quick_exit std::quick_exit abort std::abort std::terminate raise std::raise kill system std::system popen fork vfork execl execlp execle execv execvp execve posix_spawn daemon pthread_exit')
table('process state', 'setenv putenv unsetenv clearenv setlocale std::setlocale std::locale::global chdir fchdir umask signal std::signal sigaction sigprocmask alarm setitimer setrlimit srand std::srand srandom srand48 rand std::rand random drand48 '
      'strtok std::strtok getopt getopt_long getopt_long_only dup2 tzset setuid setgid nice std::set_terminate std::set_new_handler std::set_unexpected mlockall prctl xmlSetExternalEntityLoader xmlRegisterInputCallbacks xmlSetGenericErrorFunc xmlCleanupParser '
      'xmlSubstituteEntitiesDefault xmlLoadExtDtdDefaultValue xmlKeepBlanksDefault xmlIndentTreeOutput curl_global_cleanup std::ios_base::sync_with_stdio fegetround fesetround std::fesetround')
table('standard streams', 'printf std::printf vprintf puts std::puts putchar perror std::perror syslog scanf getchar gets getline backtrace_symbols_fd')
STREAMS = {'std::cout', 'std::cerr', 'std::clog', 'std::cin', 'std::wcout', 'std::wcerr', 'stdout', 'stderr', 'stdin'}
TMPL = [(re.compile(r'^std::filesystem::(exists|is_|file_size|canonical|status|directory_iterator|absolute|current_path)'), READ), (re.compile(r'^std::filesystem::(?!path)'), WRITE),
        (re.compile(r'^std::(basic_)?ifstream.*::(basic_)?ifstream'), READ), (re.compile(r'^std::basic_(of|f)stream.*::basic_(of|f)stream'), WRITE), (re.compile(r'^std::basic_filebuf.*::open'), WRITE),
        (re.compile(r'^std::(thread|jthread|async)(::|$)'), 'process'), (re.compile(r'^std::locale::global'), 'process state')]
# the options of libxml2 that make it open what the document names
XMLBAD = {2: 'XML_PARSE_NOENT', 4: 'XML_PARSE_DTDLOAD', 8: 'XML_PARSE_DTDATTR', 16: 'XML_PARSE_DTDVALID', 1024: 'XML_PARSE_XINCLUDE'}
XMLOPT = re.compile(r'^xml(ReaderFor(IO|Memory|Doc|Fd|File)|ReaderNew(IO|Memory|Doc|Fd|File)|Read(IO|Memory|Doc|Fd|File)|CtxtRead\w+|CtxtUseOptions|TextReaderSetup)$')
CAPABLE = 'libvariant::AdvSchemaLoader'


def is_str(t): return t.replace(' ', '') in ('constchar*', 'conststd::string&', 'conststd::basic_string<char>&', 'std::string', 'std::basic_string<char>')


def cls_is(f, names): return any(f.cls == 'libvariant::' + n or (f.cls or '').startswith('libvariant::' + n + '::') for n in names)


ARG = ('ArgParse', 'ArgParseImpl', 'ArgParseOptImpl', 'ArgParseGroupImpl', 'ArgParseOption', 'ArgParseGroup')


def gate(prog, cat, f, progs):
    """is f an interface whose purpose is the effect?"""
    if f.file in progs: return 'a stand-alone program'
    name = f.q.split('::')[-1].split('<')[0]
    fs = bool(f.params) and is_str(f.params[0]['t'])
    if cat == READ:
        if cls_is(f, ('AdvSchemaLoader',)): return 'the schema loader that looks in files'
        if cls_is(f, ARG): return 'the command-line parser'
        if re.match(r'(Deserialize\w*File|CreateParserInputFile|CreateParserFile\w*|\w*LoadFile\w*)$', name) and fs: return 'a call given a file name'
    if cat == WRITE:
        if (re.match(r'Serialize\w*$', name) or name in ('CreateEmitterOutput', 'CreateEmitterOutputFile')) and fs: return 'a call given a file name'
    if cat == 'network' and cls_is(f, ('AdvSchemaLoader',)): return 'the schema loader that offers the network'
    if cat in ('environment', 'process') and cls_is(f, ARG): return 'the command-line parser'
    if cat == 'process state':
        if cls_is(f, ARG): return 'the command-line parser'
        if cls_is(f, ('EventBuffer',)): return 'the random event generator'
    if cat == 'standard streams':
        if cls_is(f, ARG): return 'the command-line parser'
        if name in ('VariantPrint', 'PrintStack', 'GetStack'): return 'a debugging helper'
    return None


def check(cx):
    prog = cx.prog
    progs = {f.file for f in prog.funcs.values() if f.q == 'main'}
    callers = {}
    for f in prog.funcs.values():
        for i, n in f.calls():
            if n.get('virt'): continue
            t = n.get('fn')
            if t in prog.funcs: callers.setdefault(t, []).append((f, i, n))
    api = [f for f in prog.funcs.values() if f.q.split('::')[-1] in ('fopen',)]
    sites = []
    ext = set()
    for f in prog.funcs.values():
        for i, n in f.calls():
            q = n.get('fq') or ''
            if n.get('fn') in prog.funcs and not q.startswith('std::'): 
                g = prog.funcs[n['fn']]
                if g.kind == 'ctor' and (g.cls == CAPABLE or CAPABLE in prog.bases(g.cls or '')) and f.file not in progs and f.cls != g.cls and not any(x['e'] == i for x in f.inits):
                    cx.bad('capable|%s' % fn_key(f), f.loc(i), '%s constructs %s, so a call that was not given one may read files and use the network' % (short(f.q), short(g.cls)))
                continue
            ext.add(q)
            cat = EFF.get(q)
            if cat is None:
                for r, c in TMPL:
                    if r.match(q): cat = c; break
            if cat == READ and q == 'readlink' and cls_is(f, ARG): cat = 'environment'
            if cat == 'open':
                ms = modes(f, n['args'][1], callers) if len(n['args']) > 1 else {None}
                cat = READ if all(isinstance(m, str) and m.startswith('r') and '+' not in m for m in ms) else WRITE
                if q in ('open', 'open64'):
                    v = f.nodes[f.strip(n['args'][1])].get('cv')
                    cat = READ if v is not None and int(v) & 3 == 0 and not int(v) & 0o1100 else WRITE
            if cat: sites.append((cat, f, i, q))
            if XMLOPT.match(q): xmlopts(cx, f, i, n, q)
        for i, n in enumerate(f.nodes):
            if n and n['k'] == 'DeclRefExpr' and (n.get('dq') or n.get('dn')) in STREAMS:
                sites.append(('standard streams', f, i, n.get('dq') or n.get('dn')))
    cx.need([s for s in sites if s[0] in (READ, WRITE)], 'calls that open files', 2)
    cx.count('external functions called', len(ext))
    unknown = sorted(q for q in ext if q and not q.startswith(('std::', '__gnu_cxx')) and q not in EFF)
    cx.sample('external functions taken to have no effect outside: ' + ', '.join(unknown)[:400])
    for cat, f, i, q in sorted(sites, key=lambda s: (s[1].file, s[1].line, s[2])):
        cx.count('effectful call sites')
        if cat == 'standard streams' and fails_after(f, i): cx.count('diagnostics of a failing initialisation'); continue
        chain = escape(prog, cat, f, callers, progs, public=lambda g: g.pub)
        if chain:
            r = chain[0]
            cx.bad('%s|%s|%s' % (cat.split()[0], fn_key(r), q), f.loc(i), '%s (%s) is reached from %s, which is not an interface for that: %s' % (q, cat, short(r.q), ' -> '.join(short(x.q) for x in chain)))
        elif cat in (READ, WRITE) and q not in ('readlink',) and f.file not in progs:
            n = f.nodes[i]
            if n['args']: origin(cx, prog, f, i, n['args'][0], callers, progs, cat, set())
        if len(cx.samples) < 8: cx.sample('%s in %s: %s' % (q, fn_key(f), cat))


def modes(f, i, callers, depth=4):
    """string constants an argument can be; None when it is not a constant"""
    j = f.strip(i)
    n = f.nodes[j]
    if isinstance(n.get('v'), str): return {n['v']}
    if n['k'] in ('CXXDefaultArgExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') and n.get('c'): return modes(f, n['c'][0], callers, depth)
    if n['k'] == 'ConditionalOperator': return modes(f, n['c'][1], callers, depth) | modes(f, n['c'][2], callers, depth)
    if n['k'] == 'DeclRefExpr' and n.get('d') in f.pidx and depth:
        cs = callers.get(f.id, [])
        k = f.pidx[n['d']]
        out = set()
        for c, ci, cn in cs:
            out |= modes(c, cn['args'][k], callers, depth - 1) if k < len(cn['args']) else {None}
        return out or {None}
    if n['k'] == 'DeclRefExpr' and depth:
        ds = defs_of(f).get(n.get('d'), [])
        if ds and all(k == 'init' for k, e in ds): return set().union(*[modes(f, e, callers, depth - 1) for k, e in ds])
    return {None}


def escape(prog, cat, f, callers, progs, public):
    seen = set()
    st = [(f, (f,))]
    while st:
        g, ch = st.pop()
        if g.id in seen: continue
        seen.add(g.id)
        cs = callers.get(g.id, [])
        if gate(prog, cat, g, progs):
            # whoever uses the gate inside the library has to be one too
            for c, i, n in cs: st.append((c, ch + (c,)))
            continue
        # constructors and destructors of the file-backed streams are judged at their users
        top = not cs or g.virt or (public(g) and g.kind == 'func')
        if g.kind in ('ctor', 'dtor', 'method') and g.cls and re.search(r'Filename(In|Out)put$', g.cls) and cat in (READ, WRITE):
            want = 'Input' if cat == READ else 'Output'
            if not g.cls.endswith(want): return tuple(reversed(ch))
            top = False
        if top: return tuple(reversed(ch))
        for c, i, n in cs: st.append((c, ch + (c,)))
    return None


def fails_after(f, i):
    """the statement holding node i is followed by a throw in the same block"""
    prev = i
    for a in f.ancestors(i):
        n = f.nodes[a]
        if n['k'] == 'CompoundStmt':
            k = n['c'].index(prev) if prev in n['c'] else -1
            for s in n['c'][k + 1:]:
                m = f.nodes[s]
                while m['k'] == 'ExprWithCleanups': m = f.nodes[m['c'][0]]
                if m['k'] == 'CXXThrowExpr': return True
            return False
        prev = a
    return False


def closure(f, i, depth=6, seen=None):
    """(parameter positions, other origins) an expression is computed from"""
    seen = set() if seen is None else seen
    ps, other = set(), False
    for j in f.walk(i):
        m = f.nodes[j]
        if m['k'] == 'CXXThisExpr': other = True
        elif m['k'] == 'DeclRefExpr' and m.get('d'):
            d = m['d']
            if d in f.pidx: ps.add(f.pidx[d])
            elif d not in seen and depth:
                seen.add(d)
                for k, e in defs_of(f).get(d, []):
                    p, o = closure(f, e, depth - 1, seen)
                    ps |= p; other |= o
                # appended pieces
                for c, n in f.calls():
                    if n.get('obj') is not None and n['obj'] >= 0 and f.nodes[f.strip(n['obj'])].get('d') == d or n.get('oop') in ('+=', '=') and n['args'] and f.nodes[f.strip(n['args'][0])].get('d') == d:
                        for a in n['args']:
                            p, o = closure(f, a, depth - 1, seen)
                            ps |= p; other |= o
    return ps, other


def origin(cx, prog, f, i, arg, callers, progs, cat, seen):
    if f.file in progs or cls_is(f, ARG): return
    ps, other = closure(f, arg)
    cx.count('file name origins traced')
    if not ps and not other:
        cx.bad('fixed|%s' % fn_key(f), f.loc(i), '%s opens a file whose name does not come from its caller (%s)' % (short(f.q), text(f, arg)[:60])); return
    if not ps: return
    for c, j, n in callers.get(f.id, []):
        for p in ps:
            if (c.id, j, p) in seen or p >= len(n['args']): continue
            seen.add((c.id, j, p))
            origin(cx, prog, c, j, n['args'][p], callers, progs, cat, seen)


def xmlopts(cx, f, i, n, q):
    cx.count('XML readers created')
    v = None
    for a in reversed(n['args']):
        m = f.nodes[a]
        if m.get('t', '') in ('int', 'unsigned int') or m.get('cv') is not None:
            v = m.get('cv')
            if v is None: v = f.nodes[f.strip(a)].get('cv')
            if v is None:
                ds = defs_of(f).get(f.nodes[f.strip(a)].get('d'), [])
                if len(ds) == 1 and ds[0][0] == 'init': v = f.nodes[f.strip(ds[0][1])].get('cv') or f.nodes[ds[0][1]].get('cv')
            break
    if v is None: 
        # options assembled at run time: judge every constant that can enter
        bits = 0
        for j in f.walk(n['args'][-1]):
            c = f.nodes[j].get('cv')
            if c is not None: bits |= int(c)
        v = bits
    bad = [s for b, s in XMLBAD.items() if int(v) & b]
    if bad: cx.bad('xml|%s' % '|'.join(bad), f.loc(i), '%s creates the XML reader with %s, so a document can name files for it to read' % (short(f.q), ', '.join(bad)))
