from checks.common import *
import facts, glob, os, re, subprocess, tempfile, shutil, json

EXPLAIN = ('The compiler\'s intermediate representation of each translation unit that has a schema document of the same name beside it is queried for the constant character array it defines. '
           'The bytes of that array are read as JSON and compared, value by value and type by type, with the shipped document. The uses of the array are followed into the object it is parsed into, which must not be edited afterwards.')
TECH = 'compiler IR query for the embedded constant, structural comparison with the shipped document, and use-site rule on the parsed object'
NOTE = 'Both built-in schema documents.'
RULE = ('E1 the array ends with its only NUL; E2 it is well-formed JSON without duplicate keys; E3 it equals the shipped document; E4 the array is only handed to a parser that reads JSON, and the result is registered without edits other than the loader\'s own normalisation.')
ASSUME = ['PyYAML reads the shipped YAML document as the YAML 1.1 subset used there']
MUT = {'Set', 'Erase', 'Clear', 'Append', 'Assign', 'AssignRef', 'SetPath', 'ErasePath', 'Insert', 'Reserve', 'Resize', 'SetValue', 'Swap', 'PushBack', 'Pop'}
READS = {'DeserializeJSON', 'DeserializeGuess', 'DeserializeYAML', 'Deserialize'}


def same(a, b, path):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) and type(a) is type(b)):
        return '%s: %r in the library, %r in the shipped document' % (path or '/', a if not isinstance(a, (dict, list)) else type(a).__name__, b if not isinstance(b, (dict, list)) else type(b).__name__)
    if isinstance(a, dict):
        for k in a:
            if k not in b: return '%s/%s: only in the library' % (path, k)
        for k in b:
            if k not in a: return '%s/%s: only in the shipped document' % (path, k)
        for k in a:
            r = same(a[k], b[k], path + '/' + str(k))
            if r: return r
        return None
    if isinstance(a, list):
        if len(a) != len(b): return '%s: %d elements in the library, %d in the shipped document' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, path + '/%d' % i)
            if r: return r
        return None
    return None if a == b else '%s: %r in the library, %r in the shipped document' % (path or '/', a, b)


def pairs(kv):
    d = {}
    for k, v in kv:
        if k in d: raise ValueError('duplicate key %r' % k)
        d[k] = v
    return d


def jsonkeys(v):
    """YAML keys become JSON strings the way the generator writes them"""
    if isinstance(v, dict): return {('null' if k is None else 'true' if k is True else 'false' if k is False else str(k)): jsonkeys(x) for k, x in v.items()}
    if isinstance(v, list): return [jsonkeys(x) for x in v]
    return v


def consts(path, inc):
    r = subprocess.run(['clang'] + facts._flags(path, inc) + ['-O0', '-S', '-emit-llvm', '-o', '-', path], capture_output=True)
    if r.returncode: raise facts.AnalysisBroken('cannot compile ' + path)
    out = {}
    for line in r.stdout.decode('latin-1').split('\n'):
        m = re.match(r'@"?([\w.$]+)"? = (?:[\w()]+ )*constant \[(\d+) x i8\] (c"(.*)"|zeroinitializer)', line)
        if m and m.group(4) is not None:
            b = re.sub(rb'\\([0-9A-Fa-f]{2})', lambda x: bytes([int(x.group(1), 16)]), m.group(4).encode('latin-1'))
            out[m.group(1)] = b
    return out


def check(cx):
    prog = cx.prog
    docs = sorted(p for e in ('json', 'yaml', 'yml') for p in glob.glob(facts.REPO + '/src/*.' + e) if os.path.exists(os.path.splitext(p)[0] + '.cc'))
    cx.need(docs, 'schema documents with a generated unit', 2)
    inc = tempfile.mkdtemp()
    try:
        os.makedirs(inc + '/Variant', exist_ok=True)
        for d in docs:
            cc = os.path.splitext(d)[0] + '.cc'
            rel = facts.rel(cc)
            cs = {k: v for k, v in consts(cc, inc).items() if len(v) > 64}
            cx.need(cs, 'embedded document in ' + rel)
            cx.count('embedded documents')
            raw = open(d, 'rb').read()
            if d.endswith('.json'):
                try: want = json.loads(raw.decode(), object_pairs_hook=pairs)
                except ValueError as e:
                    cx.bad('shipped|' + os.path.basename(d), facts.rel(d), 'the shipped document is not well-formed: %s' % e); continue
            else:
                import yaml
                try: want = jsonkeys(yaml.safe_load(raw))
                except yaml.YAMLError as e:
                    cx.bad('shipped|' + os.path.basename(d), facts.rel(d), 'the shipped document is not well-formed: %s' % e); continue
            for name, b in cs.items():
                cx.count('bytes compared', len(b))
                if not b.endswith(b'\0') or b.find(b'\0') != len(b) - 1:
                    cx.bad('nul|' + rel, rel, '%s: the embedded text is not terminated by its only NUL byte (first at %d of %d)' % (name, b.find(b'\0'), len(b)))
                    b = b.split(b'\0')[0] + b'\0'
                try: got = json.loads(b[:-1].decode(), object_pairs_hook=pairs)
                except ValueError as e:
                    cx.bad('syntax|' + rel, rel, '%s: the embedded text is not well-formed JSON: %s' % (name, e)); continue
                r = same(got, want, '')
                if r: cx.bad('differs|' + rel, rel, '%s differs from %s at %s' % (name, os.path.basename(d), r))
                else: cx.sample('%s equals %s (%d bytes)' % (name, os.path.basename(d), len(b)))
                uses(cx, name, rel)
    finally:
        shutil.rmtree(inc, ignore_errors=True)


def uses(cx, mangled, rel):
    prog = cx.prog
    name = re.sub(r'E$', '', mangled.split('libvariant', 1)[-1])
    name = re.sub(r'^\d+', '', name)
    found = 0
    holders = set()
    for f in prog.funcs.values():
        for i, n in enumerate(f.nodes):
            if not n or n['k'] != 'DeclRefExpr' or (n.get('dq') or n.get('dn') or '').split('::')[-1] != name: continue
            found += 1
            p = f.par.get(i); call = None
            while p is not None and p >= 0:
                k = f.nodes[p]
                if 'args' in k and k['k'] != 'CXXConstructExpr': call = p; break
                p = f.par.get(p)
            q = f.nodes[call]['fq'].split('::')[-1] if call is not None else None
            if q not in READS: cx.bad('use|%s|%s' % (name, fn_key(f)), f.loc(i), '%s: %s is used other than being parsed' % (short(f.q), name)); continue
            cx.count('places where an embedded document is parsed')
            # the object it is stored in
            p = f.par.get(call)
            while p is not None and p >= 0:
                k = f.nodes[p]
                if k.get('oop') == '=' or k['k'] == 'BinaryOperator' and k['op'] == '=':
                    l = f.nodes[f.strip(k['obj'] if 'obj' in k else k['c'][0])]
                    holders.add(l.get('mq') or l.get('dq')); break
                p = f.par.get(p)
            for x in f.inits:
                if x.get('m') and call in list(f.walk(x['e'])): holders.add(f.cls + '::' + x['m'])
    if not found: cx.bad('unused|' + name, rel, 'the embedded document %s is not parsed anywhere' % name)
    for f in prog.funcs.values():
        for i, n in f.calls():
            q = n.get('fq', '')
            if n.get('obj') is None or not q.startswith(NS): continue
            nm = q.split('::')[-1]
            if nm not in MUT and n.get('oop') not in ('=', '+=', '-=', '*=', '/=', '%='): continue
            o = f.strip(n['obj'])
            direct = f.nodes[o]['k'] in ('MemberExpr', 'DeclRefExpr')
            for x in f.walk(o):
                k = f.nodes[x]
                if k['k'] == 'MemberExpr' and k.get('mq') in holders:
                    if direct and n.get('oop') == '=' and any(f.nodes[y].get('fq', '').split('::')[-1] in READS for y in f.walk(n['args'][0]) if 'args' in f.nodes[y]): continue
                    cx.bad('edit|%s|%s' % (name, fn_key(f)), f.loc(i), '%s: the parsed copy of %s is edited by %s' % (short(f.q), name, nm or 'an assignment'))
