"""P22: generated code depends only on the schema, not on its layout or on how the compiler is invoked."""
import copy, multiprocessing, os, random, re, shutil
import concurrent.futures as cf
from collections import Counter
import build, schema
import compiler_props as cp
from compiler_props import Stats, Violation, write_files, protoc, spb, sha, show_files
from p20 import Box

# ------------------------------------------------------------------------------------------ reading generated code
TOKEN = re.compile(r'''//[^\n]*|/\*.*?\*/|"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*'|\#[^\n]*|\.?\d(?:[eE][+-]|[\w.'])*|[A-Za-z_]\w*|\s+|.''', re.S)
INT = re.compile(r'^(0[xX][0-9a-fA-F]+|\d+)([uUlL]*)$')
def tokens(text):
    """C++ tokens without comments and white space, integer literals by their value"""
    text = text.replace('\\\r\n', '').replace('\\\n', '')
    out = []
    for m in TOKEN.finditer(text):
        t = m.group(0)
        if t.isspace() or t.startswith('//') or t.startswith('/*'): continue
        n = INT.match(t)
        if n:
            d, suf = n.groups()
            v = int(d, 16) if d[:2] in ('0x', '0X') else int(d, 8) if len(d) > 1 and d[0] == '0' and all(c in '01234567' for c in d) else int(d)
            t = str(v) + suf.lower()
        out.append(' '.join(t.split()) if t[0] == '#' else t)
    return out
def lines(text):
    """statements and declarations: the tokens split behind ; { and }"""
    out, cur = [], []
    for t in tokens(text):
        if t[0] == '#': out.append(t); continue
        cur.append(t)
        if t in ';{}': out.append(' '.join(cur)); cur = []
    if cur: out.append(' '.join(cur))
    return out

class Failed(Exception): pass
def tree(d):
    out = {}
    for base, _, fs in os.walk(d):
        for f in fs: out[os.path.relpath(os.path.join(base, f), d)] = open(os.path.join(base, f), 'rb').read()
    return out
def run(exe, src, paths, out, inc=('.',), cwd=None):
    os.makedirs(out if os.path.isabs(out) else os.path.join(cwd or src, out), exist_ok=True)
    rc, text = spb(exe, src, paths, out, inc, timeout=30, cwd=cwd)
    if rc != 0: raise Failed('exit %s: %s' % (rc, text[:1500]))
def generate(exe, box, files, order=None):
    d = box.dir()
    write_files(d + '/src', files)
    run(exe, d + '/src', order or sorted(files), d + '/out')
    return tree(d + '/out')

def differs(a, b):
    """first difference of two sets of generated files as token sequences, or None"""
    if set(a) != set(b): return 'different files: %s against %s' % (sorted(a), sorted(b))
    for k in sorted(a):
        x, y = tokens(a[k].decode('utf-8', 'replace')), tokens(b[k].decode('utf-8', 'replace'))
        if x != y:
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return '%s: "%s" against "%s"' % (k, ' '.join(x[max(0, i - 12):i + 12]), ' '.join(y[max(0, i - 12):i + 12]))
    return None
def differs_bytes(a, b):
    if set(a) != set(b): return 'different files: %s against %s' % (sorted(a), sorted(b))
    for k in sorted(a):
        if a[k] != b[k]:
            x, y = a[k].splitlines(), b[k].splitlines()
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return '%s line %d: %r against %r' % (k, i + 1, b'\n'.join(x[i:i + 2])[:300], b'\n'.join(y[i:i + 2])[:300])
    return None
def bag(out, exts, drop=()):
    c = Counter()
    for k in out:
        if k.endswith(exts): c.update(l for l in lines(out[k].decode('utf-8', 'replace')) if not any(re.match(x, l) for x in drop))
    return c
def differs_bag(a, b):
    if a == b: return None
    return 'only before: %s\nonly after: %s' % (list((a - b).items())[:4], list((b - a).items())[:4])

# ------------------------------------------------------------------------------------------ rewrites
BASE = dict(numbers=False, quotes=False, spelling='full')
def base_files(p): return schema.render(p, random.Random('base'), schema.PLAIN, **BASE)

def v_layout(p, rng):
    style = dict(space=rng.choice([0, 1, 2, 2]), comments=rng.choice([0, 0.1, 0.3, 0.6]), empty=rng.choice([0, 0.2]))
    return schema.render(p, rng, style, **BASE)
def v_numbers(p, rng): return schema.render(p, rng, schema.PLAIN, numbers=True, quotes=False, spelling='full')
def v_quotes(p, rng): return schema.render(p, rng, schema.PLAIN, numbers=False, quotes=True, spelling='full')
def v_spelling(p, rng): return schema.render(p, rng, schema.PLAIN, numbers=False, quotes=False)
def v_all(p, rng): return schema.render(p, rng, None)
def v_newlines(p, rng):
    files = base_files(p)
    k = rng.randrange(5)
    f = [lambda s: s.replace('\n', '\r\n'), lambda s: s.rstrip('\n'), lambda s: ' '.join(s.split('\n')), lambda s: '\n\n\t\n' + s.replace('\n', '\n\n') + '\n\n',
         lambda s: s.replace('  ', '\t')][k]
    return {n: f(s) for n, s in files.items()}
REWRITES = dict(layout=v_layout, newlines=v_newlines, numbers=v_numbers, quotes=v_quotes, spelling=v_spelling, everything=v_all)
def rewrite(exe, box, p, rng, kind):
    """-> (reason or None, files, key)"""
    a = base_files(p)
    b = REWRITES[kind](p, rng)
    if a == b: return None, b, None
    try: x = generate(exe, box, a)
    except Failed as e: return 'the schema is refused: %s' % e, a, ''
    try: y = generate(exe, box, b)
    except Failed as e: return 'the rewritten schema is refused: %s' % e, b, ''
    return differs(x, y), b, sha(repr(sorted(b.items())))

# ------------------------------------------------------------------------------------------ invocations
def invocation(exe, box, p, rng, kind):
    files = schema.render(p, rng, None)
    paths = sorted(files)
    try: x = generate(exe, box, files)
    except Failed as e: return 'the schema is refused: %s' % e, files, ''
    d = box.dir()
    src, out = d + '/src', d + '/out'
    write_files(src, files)
    try:
        if kind == 'again':
            run(exe, src, paths, out)
            one = tree(out)
            run(exe, src, paths, out)
            two = tree(out)
            return differs_bytes(x, one) or differs_bytes(one, two), files, 'again'
        if kind == 'stale':
            how = []
            other = cp_project(rng)
            for step in range(rng.randint(1, 4)):
                h = rng.randrange(6)
                how.append(h)
                if h == 0:    # an older version of the same files
                    old = dict(zip(paths, [t for t in list(base_files(other).values()) * 5]))
                    write_files(src, {k: re.sub(r'(?m)^ *import[^;]*;', '', v) for k, v in old.items()})
                    spb(exe, src, paths, out)
                    write_files(src, files)
                elif h == 1:  # arbitrary and longer content
                    for k in x: write_files(out, {k: bytes(rng.randrange(256) for _ in range(64)) * rng.choice([1, 10, 5000])})
                elif h == 2:  # the result of another layout
                    write_files(src, {k: '//' + 'x' * 3000 + '\n' + v for k, v in base_files(p).items()})
                    spb(exe, src, paths, out)
                    write_files(src, files)
                elif h == 3:  # an interrupted run
                    for k in x: write_files(out, {k: x[k][:rng.randrange(len(x[k]) + 1)]})
                elif h == 4:  # one of the files only
                    spb(exe, src, [rng.choice(paths)], out)
                else:         # a run which failed
                    bad = dict(files); k = rng.choice(paths); bad[k] = bad[k] + '\nmessage {'
                    write_files(src, bad)
                    spb(exe, src, paths, out)
                    write_files(src, files)
            run(exe, src, paths, out)
            y = {k: v for k, v in tree(out).items() if k in x}
            return differs_bytes(x, y), files, 'stale%s' % how
        if kind == 'order':
            q = list(paths); rng.shuffle(q)
            mode = rng.randrange(3)
            if mode == 0: run(exe, src, q, out)
            elif mode == 1:
                for f in q: run(exe, src, [f], out)
            else:
                k = rng.randrange(len(q) + 1)
                for g in (q[:k], q[k:]):
                    if g: run(exe, src, g, out)
            return differs_bytes(x, tree(out)), files, 'order%d %s' % (mode, q)
        if kind == 'paths':
            os.makedirs(src + '/some/deep', exist_ok=True); os.makedirs(d + '/else', exist_ok=True)
            if rng.random() < 0.3: os.symlink(src, d + '/link')
            top = d + '/link' if os.path.exists(d + '/link') else src
            cwd = rng.choice([src, d, src + '/some', src + '/some/deep', d + '/else', '/'])
            rel = os.path.relpath(top, cwd)
            root = rng.choice([top, rel, './' + rel, rel + '/', top + '/', top + '/.', top + '/some/..', rel + '/./', top + '//', os.path.join(rel, 'some', 'deep', '..', '..')])
            mode = rng.randrange(3)
            def name(f):
                if mode == 0: return os.path.join(root, f)
                if mode == 1: return os.path.join(top, f)
                return os.path.join(os.path.relpath(top, cwd), f)
            o = rng.choice([out, os.path.relpath(out, cwd), out + '/', './' + os.path.relpath(out, cwd)])
            inc = [root] + [i for i in [d + '/else', d + '/none'] if rng.random() < 0.3]
            if rng.random() < 0.3: inc.reverse()
            run(exe, src, [name(f) for f in paths], o, inc, cwd)
            return differs_bytes(x, tree(out)), files, 'cwd %s -I%s %s' % (cwd.replace(d, ''), inc, mode)
        if kind == 'roots':
            dirs = [d + '/r%d' % i for i in range(rng.randint(2, 3))]
            where = {}
            for r in dirs: os.makedirs(r)
            for f in paths:
                where[f] = rng.choice(dirs)
                write_files(where[f], {f: files[f]})
            inc = list(dirs); rng.shuffle(inc)
            run(exe, d, [os.path.join(where[f], f) for f in paths], out, inc)
            return differs_bytes(x, tree(out)), files, 'roots %d %s' % (len(dirs), [dirs.index(where[f]) for f in paths])
    except Failed as e:
        return '%s: refused: %s' % (kind, e), files, ''
    raise ValueError(kind)
def cp_project(rng):
    roots = list(schema.ROOTS); rng.shuffle(roots)
    return schema.generate('old %d' % rng.randrange(10 ** 9), 'o', roots, schema.Cfg(files=2, messages=3, depth=2, fields=5))
INVOCATIONS = ['again', 'stale', 'order', 'paths', 'roots']

# ------------------------------------------------------------------------------------------ order of definitions
# which member of a cycle is a pointer, and what is declared ahead, may depend on the order
FORWARD = r'^struct \w+ ;$'
def cyclic(out): return any(b'unique_ptr' in v for k, v in out.items() if k.endswith('.h'))
def plain_files(p): return schema.render(p, random.Random('base'), schema.PLAIN, **BASE)
def reorder(exe, box, p, rng, kind):
    q = copy.deepcopy(p)
    def mix(items):
        """definitions change their places, fields keep their order among themselves"""
        at = [i for i, d in enumerate(items) if d['k'] in ('msg', 'enum')]
        ds = [items[i] for i in at]; rng.shuffle(ds)
        if rng.random() < 0.5:
            for i, d in zip(at, ds): items[i] = d
        else:
            rest = [d for d in items if d['k'] not in ('msg', 'enum')]
            for d in ds: rest.insert(rng.randrange(len(rest) + 1), d)
            items[:] = rest
        for d in items:
            if d['k'] == 'msg': mix(d['items'])
    for f in q['files']:
        mix(f['items'])
        if rng.random() < 0.5: rng.shuffle(f['imports'])
    a, b = plain_files(p), plain_files(q)
    if a == b: return None, b, None
    try: x = generate(exe, box, a)
    except Failed as e: return 'the schema is refused: %s' % e, a, ''
    try: y = generate(exe, box, b)
    except Failed as e: return 'the reordered schema is refused: %s' % e, b, ''
    if set(x) != set(y): return 'different files', b, ''
    if cyclic(x) or cyclic(y): return None, b, None
    for k in sorted(x):
        why = differs_bag(bag({k: x[k]}, '', (FORWARD,)), bag({k: y[k]}, '', (FORWARD,)))
        if why: return '%s: %s' % (k, why), b, ''
    return None, b, sha(repr(sorted(b.items())))

# ------------------------------------------------------------------------------------------ splitting a file
NEUTRAL = (FORWARD, r'^#', r'^namespace ', r'^\}$', r'^using ', r'^inline namespace ')
def refs(d, out):
    if isinstance(d.get('type'), int): out.add(d['type'])
    for x in d.get('items', []) + d.get('fields', []): refs(x, out)
    return out
def ids(d, out):
    if 'id' in d: out.add(d['id'])
    for x in d.get('items', []): ids(x, out)
    return out
def split(exe, box, p, rng, kind):
    """moves top level definitions nobody in the file is needed by into a new file which the old one imports"""
    cand = []
    for i, f in enumerate(p['files']):
        own = set()
        for d in f['items']: ids(d, own)
        for d in f['items']:
            if d['k'] in ('msg', 'enum') and not (refs(d, set()) & (own - ids(d, set()))): cand.append((i, d['id']))
    if not cand: return None, {}, None
    i, ident = rng.choice(cand)
    q = copy.deepcopy(p)
    f = q['files'][i]
    moved = [d for d in f['items'] if d.get('id') == ident]
    more = [c for j, c in cand if j == i and c != ident and rng.random() < 0.3]
    moved += [d for d in f['items'] if d.get('id') in more]
    f['items'] = [d for d in f['items'] if d not in moved]
    n = len(q['files'])
    path = rng.choice(['split_part.proto', 'sub/split_part.proto', os.path.join(os.path.dirname(f['path']), 'split_part.proto')])
    new = dict(f, path=path, items=moved, imports=[list(x) for x in f['imports']])
    q['files'].append(new)
    # files which import the old one see the definition as well
    f['imports'] = f['imports'] + [[n, 'public']]
    a, b = plain_files(p), plain_files(q)
    d = box.dir()
    write_files(d + '/src', b)
    rc, err = protoc(d + '/src', sorted(b))
    if rc: return None, b, None
    try: x = generate(exe, box, a)
    except Failed as e: return 'the schema is refused: %s' % e, a, ''
    try: y = generate(exe, box, b)
    except Failed as e: return 'the split schema is refused: %s' % e, b, ''
    if cyclic(x) or cyclic(y): return None, b, None
    for ext in ('.h', '.cc'):
        u, v = bag(x, ext, NEUTRAL), bag(y, ext, NEUTRAL)
        # the fixed part of a generated file appears once more
        fixed = set(fixed_lines(exe, box, f, ext))
        for l in fixed: u.pop(l, None); v.pop(l, None)
        why = differs_bag(u, v)
        if why: return '%s: %s' % (ext, why), b, ''
    return None, b, sha(repr(sorted(b.items())))
def fixed_lines(exe, box, f, ext):
    g = dict(f, items=[], imports=[])
    out = generate(exe, box, schema.render(dict(files=[g]), random.Random('base'), schema.PLAIN, **BASE))
    return bag(out, ext)

# ------------------------------------------------------------------------------------------ driver
GROUPS = [
    ('rewrites', rewrite, list(REWRITES), 'the text differs from the plain rendering (the text)', 900),
    ('invocations', invocation, INVOCATIONS, 'kind of invocation with its parameters', 500),
    ('order', reorder, ['order'], 'definitions changed places in a schema without cycles (the text)', 250),
    ('split', split, ['split'], 'a definition moved to an imported file in a schema without cycles (the text)', 250),
]
def project(seed, sub, i):
    rng = random.Random('P22p %s %s %s' % (seed, sub, i))
    roots = list(schema.ROOTS); rng.shuffle(roots)
    cfg = schema.Cfg(files=3, messages=4, depth=2, fields=6) if rng.random() < 0.6 else None
    return schema.generate('P22 %s %s %s' % (seed, sub, i), 'w', roots, cfg)

JOB = {}
def one(i):
    """one case, in a process of its own pool"""
    if JOB.get('pid') != os.getpid(): JOB.update(pid=os.getpid(), box=Box('%s/p%d' % (JOB['work'], os.getpid())))
    seed, name, kinds, box = JOB['seed'], JOB['name'], JOB['kinds'], JOB['box']
    p = project(seed, name, i)
    kind = kinds[i % len(kinds)]
    d = box.dir()
    f = schema.render(p, random.Random('x'), schema.PLAIN)
    write_files(d + '/src', f)
    if protoc(d + '/src', sorted(f))[0]: return None
    return (i, kind) + JOB['fn'](JOB['exe'], box, p, random.Random('P22 %s %s %s' % (seed, name, i)), kind)

def check(tier, seed, work, t0, scale, sub=None):
    exe, _, _ = cp.setup(work, False)
    box = Box(work)
    out = []
    for name, fn, kinds, rule, n in GROUPS:
        if sub and sub != name: continue
        n = max(1, int(n * scale * (1 if tier == 'quick' else 25)))
        st = Stats(name, rule)
        dropped = [0]
        JOB.update(exe=exe, work=work, seed=seed, name=name, fn=fn, kinds=kinds)
        with cf.ProcessPoolExecutor(build.JOBS, multiprocessing.get_context('fork')) as ex:
            for r in ex.map(one, range(n), chunksize=8):
                if r is None: dropped[0] += 1; continue
                i, kind, why, files, key = r
                p = project(seed, name, i) if why else None
                if why: report(exe, box, seed, name, fn, i, p, kind, why, files)
                st.case(key and '%s %s' % (kind, key), kind, (kind + ' ' + show_files(files)[:300]) if key else None)
        if dropped[0] * 4 > n: raise build.HarnessError('the schema generator is broken')
        st.labels['refused by the reference compiler (dropped)'] = dropped[0]
        out.append(st.evidence())
        if len(st.nt) * 4 < n: raise build.HarnessError('%s: only %d of %d cases mean anything' % (name, len(st.nt), n))
    return out

def report(exe, box, seed, name, fn, i, p, kind, why, files):
    def test(q, k=3):
        for s in range(k):
            try: r = fn(exe, box, q, random.Random('P22 %s %s %s' % (seed, name, i) if s == 0 else 'again %d' % s), kind)
            except (RuntimeError, KeyError, IndexError, ValueError): continue
            if not r[0]: continue
            d = box.dir()
            f = base_files(q)
            write_files(d + '/src', f)
            if protoc(d + '/src', sorted(f))[0] == 0: return r, s
        return None
    first = test(p)
    if first:
        p = cp.shrink(p, lambda q: test(q) is not None, 60)
        last = test(p)
        if last: (why, files, _), s = last
    a = base_files(p)
    raise Violation('%s/%s: %s\n== before\n%s== after\n%s' % (name, kind, why, show_files(a), show_files(files)), dict(sub=name, kind=kind, before=a, after=files, project=p, rng=['P22 %s %s %s' % (seed, name, i), 'again 1', 'again 2']))

def replay(data, work):
    exe, _, _ = cp.setup(work, False)
    fn = next(g[1] for g in GROUPS if g[0] == data['sub'])
    for s in data['rng']:
        why = fn(exe, Box(work), data['project'], random.Random(s), data['kind'])[0]
        if why: print(why); return 1
    print('holds')
    return 0
