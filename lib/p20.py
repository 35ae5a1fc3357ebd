"""P20: the compiler survives any input text and reports errors precisely."""
import os, random, re, shutil, subprocess, time, threading
import concurrent.futures as cf
import build, schema
import compiler_props as cp
from compiler_props import Stats, Violation, write_files, protoc, spb, sha, show_files

SMALL = dict(files=2, messages=3, depth=2, fields=5)
LOC = re.compile(r'(\d+):(\d+): (.*)', re.S)

def outputs(out, path):
    b = os.path.splitext(path)[0]
    return [os.path.join(out, b + e) for e in ('.pb.h', '.pb.cc')]

def complete(path):
    """the file was written to its end"""
    try: s = open(path, 'rb').read()
    except OSError: return False
    return len(s) > 0 and s.rstrip()[-1:] in b'}/;#"e'

def judge(rc, text, root, files, main, out):
    """-> reason for a violation or None"""
    if rc == 'timeout': return 'does not terminate within 10 seconds'
    if rc not in (0, 1) or 'Sanitizer' in text or 'runtime error:' in text: return 'crash: exit status %s\n%s' % (rc, text[:3000])
    have = [os.path.exists(o) for o in outputs(out, main)]
    if rc == 0:
        if not all(have): return 'exit 0 without writing both output files'
        return None
    if not text.strip(): return 'exit 1 without a message'
    # file:line:col: message, possibly behind the files which import it
    rest = text
    last = None
    known = sorted((os.path.join(root, f) for f in files), key=len, reverse=True)
    while True:
        hit = next((k for k in known if rest.startswith(k + ':')), None)
        if hit is None: break
        last = hit
        rest = rest[len(hit) + 1:]
    if last is None: return 'the message does not name the file: ' + text[:300]
    m = LOC.match(rest)
    if not m: return 'the message has no line and column: ' + text[:300]
    line, col = int(m.group(1)), int(m.group(2))
    body = files[os.path.relpath(last, root)]
    if isinstance(body, str): body = body.encode('utf-8', 'surrogateescape')
    lines = body.split(b'\n')
    if not (1 <= line <= len(lines)): return 'the message names line %d of a file with %d lines: %s' % (line, len(lines), text[:300])
    if not (1 <= col <= len(lines[line - 1]) + 1): return 'the message names column %d of a line with %d characters: %s' % (col, len(lines[line - 1]), text[:300])
    if not m.group(3).strip(): return 'the message says nothing: ' + text[:300]
    return None

class Box:
    """scratch directories, one per thread"""
    def __init__(self, work): self.work, self.n, self.l, self.loc = work, 0, threading.Lock(), threading.local()
    def dir(self):
        if not hasattr(self.loc, 'd'):
            with self.l: self.n += 1; self.loc.d = '%s/box%d' % (self.work, self.n)
        shutil.rmtree(self.loc.d, ignore_errors=True)
        os.makedirs(self.loc.d + '/src'); os.makedirs(self.loc.d + '/out')
        return self.loc.d

def compile_files(exe, box, files, main, args=None):
    d = box.dir()
    write_files(d + '/src', files)
    rc, text = spb(exe, d + '/src', [os.path.join(d, 'src', main)], d + '/out', ('.',) if args is None else args, timeout=10)
    if rc == 'timeout': rc, text = spb(exe, d + '/src', [os.path.join(d, 'src', main)], d + '/out', ('.',) if args is None else args, timeout=30) if slow_host() else (rc, text)
    return rc, text, d, judge(rc, text, d + '/src', files, main, d + '/out')
def slow_host(): return os.getloadavg()[0] > 4 * (os.cpu_count() or 8)

def small_projects(seed, n, kind, **kw):
    out = []
    for i in range(n):
        roots = [r for r in schema.ROOTS]
        random.Random('%s %s %s' % (kind, seed, i)).shuffle(roots)
        p = schema.generate('%s %s %s' % (kind, seed, i), 't', roots, schema.Cfg(**dict(SMALL, **kw)))
        out.append(p)
    return out

# ---------------------------------------------------------------------------------------------- valid
def valid(exe, box, seed, n):
    st = Stats('valid', 'a project the reference compiler accepts (its text)')
    def one(i):
        rng = random.Random('P20 valid %s %s' % (seed, i))
        roots = list(schema.ROOTS); rng.shuffle(roots)
        p = schema.generate('P20v %s %s' % (seed, i), 'v', roots)
        files = schema.render(p, rng)
        d = box.dir()
        write_files(d + '/src', files)
        rc, err = protoc(d + '/src', sorted(files))
        if rc: return None, files, ''
        for main in sorted(files):
            rc, text = spb(exe, d + '/src', [main], d + '/out', timeout=20)
            why = judge(rc, text, '', files, main, d + '/out') if rc != 1 else 'a valid schema is refused: ' + text
            if why: return why, files, main
        return '', files, ''
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        for why, files, main in ex.map(one, range(n)):
            if why is None: st.case(label='refused by the reference compiler (dropped)'); continue
            st.case(sha(repr(sorted(files.items()))), 'accepted', show_files(files)[:300])
            if why: raise Violation('%s\n%s\n%s' % (main, why, show_files(files)), dict(sub='valid', files=files, main=main))
    if st.labels.get('refused by the reference compiler (dropped)', 0) * 4 > n: raise build.HarnessError('the schema generator is broken')
    return st

# ---------------------------------------------------------------------------------------------- single damages
SCALAR = re.compile(r'^[a-z]+\d*$')
def damages(rng, toks):
    """-> (kind, damaged token list) for one random place"""
    toks = list(toks)
    if len(toks) < 3: return 'empty', None
    def pick(*roles):
        c = [i for i, (t, r) in enumerate(toks) if r in roles]
        return rng.choice(c) if c else None
    kind = rng.choice(['unknown type', 'unknown type', 'missing token', 'missing token', 'missing token', 'missing token', 'unterminated comment', 'unterminated string', 'bad number', 'bad number',
                       'missing import', 'no import', 'stray token', 'truncated', 'bad keyword', 'doubled token', 'swapped tokens', 'wrong token'])
    if kind == 'unknown type':
        i = pick('type', 'scalar')
        if i is None: return kind, None
        t, r = toks[i]
        if r == 'type': new = rng.choice(['NoSuchType', t + 'X', t + '.NoSuch', 'no.such.Type', '.NoSuch', t + '_', t[:-1] or 'q', t[1:] if len(t) > 1 and t[1] != '.' else 'Q', t.swapcase()])
        else: new = rng.choice(['int', 'integer', 'int128', 'uint', 'sint', 'fixed', t + '8', t.upper(), 'str', 'byte', 'Double', 'float32', t[:-1], t + t])
        toks[i] = (new, r)
    elif kind == 'missing token':
        i = pick(';', '=', '{msg', '{enum', '{oneof', '}', 'ident', 'number', ',', 'open[', 'close]', '<', '>', 'scalar', 'type', 'import', 'str', 'pkg', 'optname')
        if i is None: return kind, None
        del toks[i]
    elif kind == 'unterminated comment':
        i = rng.randrange(len(toks) + 1)
        toks.insert(i, (rng.choice(['/*', '/* text', '/**', '/*/']), ''))
    elif kind == 'unterminated string':
        i = pick('str', 'import')
        if i is None: return kind, None
        t = toks[i][0]
        toks[i] = (rng.choice([t[:-1], t[1:], t[:-1] + '\n' + t[-1], t[:-1] + '\n', t[:-1] + rng.choice('\n\r;') + '\n', t[:-1] + ('"' if t[-1] == "'" else "'")]), toks[i][1])
    elif kind == 'bad number':
        i = pick('number')
        if i is None: return kind, None
        t = toks[i][0]
        toks[i] = (rng.choice(['0x', '--1', '1.5', '99999999999999999999', '4294967297', '-', '1a', '0xg', '08', '+1', 'one', '"1"', '1_0', '0b1', '1e1', '٣', '536870912', '2147483648', '-1', '0', '19500', t + 'x', t + '.', '$']), '')
    elif kind == 'missing import':
        i = pick('import')
        if i is None: return kind, None
        t = toks[i][0]
        toks[i] = (rng.choice(['"no_such.proto"', t[:-1] + 'x' + t[-1], t[0] + 'x' + t[1:], t[0] + t[0], '"."', '"no/such/dir.proto"']), 'import')
    elif kind == 'no import':
        i = pick('import')
        if i is None: return kind, None
        j = i
        while toks[j][0] != 'import': j -= 1
        del toks[j:i + 2]
    elif kind == 'stray token':
        i = rng.randrange(len(toks) + 1)
        toks.insert(i, (rng.choice(['}', '{', ')', '(', ']', '=', ',', '?', '@', '#', '"', '\\', '%', '!', 'garbage', '123', '<', '>', '/', '*', ':', '&', '~', '`', '-', '.', '\x00', '\x80']), ''))
    elif kind == 'doubled token':
        i = rng.randrange(len(toks))
        toks.insert(i, toks[i])
    elif kind == 'swapped tokens':
        i = rng.randrange(len(toks) - 1)
        toks[i], toks[i + 1] = toks[i + 1], toks[i]
    elif kind == 'wrong token':
        i = rng.randrange(len(toks))
        toks[i] = (rng.choice(['}', '{', '(', ')', '[', ']', '=', ',', ';', '<', '>', ':', '.', 'x', '1', '"x"', 'message', 'int32', rng.choice(toks)[0]]), '')
    elif kind == 'truncated':
        n = rng.randrange(len(toks))
        toks = toks[:n]
    elif kind == 'bad keyword':
        i = pick('kw', 'label')
        if i is None: return kind, None
        t = toks[i][0]
        toks[i] = (rng.choice([t + 'x', t[:-1], t[1:], t.upper(), t.capitalize(), t + ' ' + t]), 'kw')
    return kind, toks

def single(exe, box, seed, n):
    st = Stats('damage', 'the damaged text is refused by the reference compiler (its text)')
    projects = small_projects(seed, 60, 'P20d')
    def one(k):
        rng = random.Random('P20 damage %s %s' % (seed, k))
        p = rng.choice(projects)
        i = rng.randrange(len(p['files']))
        idx = schema.Index(p)
        files = {f['path']: schema.layout(schema.file_tokens(p, j, random.Random(k), idx), random.Random(k), schema.PLAIN) for j, f in enumerate(p['files'])}
        main = p['files'][i]['path']
        kind, toks = damages(rng, schema.file_tokens(p, i, random.Random(k), idx))
        if toks is None: return ('inapplicable',)
        if kind == 'unterminated comment': text = join_plain(toks)
        else: text = schema.layout(toks, rng, schema.PLAIN if rng.random() < 0.7 else dict(space=0)) if balanced(toks) else join_plain(toks)
        files[main] = text
        rc, msg, d, why = compile_files(exe, box, files, main)
        if why: return ('bad', kind, why, files, main)
        if rc == 1: return ('refused', kind, msg, files, main)
        prc, perr = protoc(d + '/src', [main])
        if prc == 0: return ('still valid', kind)
        perr = '\n'.join(l for l in perr.split('\n') if 'warning' not in l.lower())
        if lenient(kind, perr, text): return ('lenient', kind, perr)
        return ('bad', kind, 'a damaged schema (%s) is accepted; the reference compiler says: %s' % (kind, perr[:500]), files, main)
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        for r in ex.map(one, range(n)):
            if r[0] == 'bad':
                why, files, main = r[2:]
                raise Violation('%s\n%s\n%s' % (main, why, show_files(files)), dict(sub='damage', files=files, main=main))
            if r[0] == 'refused': st.case(sha(r[3][r[4]]), 'refused: ' + r[1], r[2][-160:])
            else: st.case(None, r[0] + (': ' + r[1] if len(r) > 1 else ''))
    return st
def balanced(toks):
    d = 0
    for t, r in toks:
        if r[:1] == '{': d += 1
        if r == '}':
            d -= 1
            if d < 0: return False
    return True
def join_plain(toks):
    out = ''
    for t, r in toks: out += t + ('\n' if t in (';', '{', '}') else ' ')
    return out
# what the reference compiler refuses and the documentation of spb-protoc does not promise to check: rules about the
# meaning of a well-formed definition (duplicates, ranges, naming conflicts)
LENIENT = [r'declares support for enum aliases but no enum values', r'uses the same enum value as', r'Expected field number range', r'Extension numbers must be', r'Field numbers \d+ through \d+ are reserved',
           r'first enum value must be zero', r'Reserved numbers must be', r'Extension range', r'Reserved range', r'uses reserved number',
           # documented: unknown options are ignored; the repository's tests leave out labels; the values of options are not typed
           r'Option "[^"]*" unknown', r'Expected "required", "optional", or "repeated"', r'Value must be', r'Expected string for JSON name', r'Enum value in map must define 0', r'is already defined', r'has already been used']
def lenient(kind, perr, text):
    if any(re.search(x, perr) for x in LENIENT): return True
    lines = text.split('\n')
    for m in re.finditer(r':(\d+):(\d+): (Expected type name|Expected integer|Expected field name or number range)\.', perr):
        l = lines[int(m[1]) - 1]; c = int(m[2]) - 1
        # an empty statement in a oneof, and negative bounds of a reserved range
        if m[3] == 'Expected type name' and l.lstrip()[:1] == ';' and not l[:c].strip() or l[c:c + 1] == ';' and l[:c].rstrip()[-1:] in (';', '{', '}', ''): return True
        if m[3] != 'Expected type name' and re.search(r'\b(reserved|to|,)\s*$', l[:c]) and l[c:c + 1] == '-': return True
    return False

# ---------------------------------------------------------------------------------------------- arbitrary text
DICT = """syntax = "proto2"; syntax = "proto3"; package import public weak option message enum oneof map< repeated optional required reserved extensions to max extend
service rpc returns stream group int32 string bytes double bool true false inf nan { } [ ] ( ) < > = ; , . - + / * // /* */ /// //[[ ]] [[ " ' \\ \\n \\x \\u \\777 0 1 -1 0x 0xff 07 1e9 1.5
99999999999999999999 536870911 18446744073709551615 -9223372036854775808 [default = 1] [packed=true] [json_name="x"] [deprecated=true] [(spb_opt).type = "int8"] [(spb_opt).max_size=3]
[(nanopb).max_size=3] [(nanopb)={max_size:3}] option (spb_fileopt).repeated = "etl::vector<$, 2>"; option (spb_msgopt)={string:"x<$>"}; //[[ string.type = "x" ]] //[[field.type="int8:1"]]
//[[optional.type="$"]] option allow_alias = true; (a.b).c {a:1} {a:"x" b:2} max_count a.b.c .a.b _ a_ Message M { } import "f.proto"; import "main.proto"; import public "f.proto"; import ""; reserved 1 to 5; reserved "a","b";
message M { optional M m = 1; } message A { required B b = 1; } message B { required A a = 1; } oneof o { int32 a = 1; } map<string,M> m = 2; enum E { A = 0; }""".split() + ['message M { optional M m = 1; }', 'message A { required B b = 1; }', 'message B { required A a = 1; }', 'oneof o { int32 a = 1; }',
'map<string,M> m = 2;', 'enum E { A = 0; }', 'reserved 1 to 5;', 'option allow_alias = true;', '[(nanopb)={max_size:3}]', '[(spb_opt) = { type: "int8:1", max_size: 7 }]', 'option (a.b).c = { x: 1 y { z: "q" } };', '\x00', '\xff', '\xef\xbb\xbf', '\xc3\xa4',
'[ (nanopb).max_length = 4, default = "x" ]', 'extend google.protobuf.FieldOptions { optional int32 x = 50000; }', 'service S { rpc F (A) returns (B); }', 'import "f.proto";', 'import "main.proto";', 'syntax = "proto3";', 'package a.b.c;', 'option (spb_fileopt).enum = "int8";']
CHUNKS = ['/*' * 50, '{' * 200, '[' * 200, 'message A {' * 120, '(' * 100, '"' * 3, 'a' * 5000, '.' * 50, 'a.' * 500, '1' * 400, '\n' * 3000, ';' * 500, '//[[' * 20, '[[ ' * 20, '- ' * 30, 'map<' * 60, 'a = {' * 150, '[(' * 50, 'import "f.proto";' * 50]
def mutate(rng, b, other):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 5, 12])):
        n = len(b)
        i = rng.randint(0, n); j = min(n, i + rng.choice([1, 1, 2, 4, 9, 30, 200]))
        x = rng.random()
        if x < 0.1 and n: b[min(i, n - 1)] ^= 1 << rng.randrange(8)
        elif x < 0.2: b[i:i] = bytes([rng.randrange(256)])
        elif x < 0.32: del b[i:j]
        elif x < 0.4:
            k = rng.randint(0, n); b[k:k] = b[i:j]
        elif x < 0.62: b[i:i] = (rng.choice(['', ' ', '\n']) + rng.choice(DICT) + rng.choice(['', ' ', '\n'])).encode('latin-1')
        elif x < 0.68: b[i:j] = rng.choice(DICT).encode()
        elif x < 0.74:
            k = rng.randint(0, len(other)); b[i:i] = other[k:k + rng.choice([5, 20, 100, 400])]
        elif x < 0.78: b[i:i] = rng.choice(CHUNKS).encode()
        elif x < 0.86: del b[i:]
        elif x < 0.9:   # swap two words
            w = list(re.finditer(rb'\S+', bytes(b)))
            if len(w) > 2:
                p, q = sorted(rng.sample(range(len(w)), 2))
                b = bytearray(bytes(b[:w[p].start()]) + w[q].group() + bytes(b[w[p].end():w[q].start()]) + w[p].group() + bytes(b[w[q].end():]))
        elif x < 0.95:  # repeat or drop a line
            l = bytes(b).split(b'\n'); k = rng.randrange(len(l))
            l = l[:k] + [l[k]] * rng.choice([0, 2, 3]) + l[k + 1:]
            b = bytearray(b'\n'.join(l))
        else: b = bytearray(bytes(b).replace(b'\n', rng.choice([b'\r\n', b'\r', b' ', b''])))
    return bytes(b)
OPTS = ['//[[ string.type = "my::str<$>"]]\n', 'option (spb_fileopt) = { repeated: "std::vector<$>" };\n', 'option (spb_fileopt).max_size = 100;\n', '/*[[ bytes.type = "std::vector<$>"; enum.type = "int8" ]]*/\n',
        'option (nanopb_fileopt).max_count = 4;\n', '//[[ spb_fileopt.map = "std::map<$, @>" ]]\n', '/// doc comment\n', '/** doc\n * more\n */\n', 'option java_package = "a.b";\noption (x.y).z.w = { a: 1 b { c: "d" } };\n']
def arbitrary(exe, box, seed, n):
    st = Stats('arbitrary', 'the text differs from the valid one it was made of (its bytes)')
    corpus = []
    for k, p in enumerate(small_projects(seed, 40, 'P20a')):
        fs = schema.render(p, random.Random(k))
        corpus.append((fs, [f['path'] for f in p['files']]))
    def one(k):
        rng = random.Random('P20 arbitrary %s %s' % (seed, k))
        files, paths = rng.choice(corpus)
        files = {a: b.encode('utf-8') for a, b in files.items()}
        main = rng.choice(paths)
        base = files[main]
        if rng.random() < 0.35:
            l = base.split(b'\n'); i = rng.randint(0, len(l))
            base = b'\n'.join(l[:i] + [rng.choice(OPTS).encode()] + l[i:])
        files[main] = mutate(rng, base, rng.choice(list(files.values())))
        if rng.random() < 0.15:
            other = rng.choice(paths); files[other] = mutate(rng, files[other], files[main])
            main = rng.choice(paths)
        changed = files[main] != base
        rc, text, d, why = compile_files(exe, box, files, main)
        return why, rc, text, files, main, changed
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        for why, rc, text, files, main, changed in ex.map(one, range(n)):
            if why: report_bytes(exe, box, files, main, why, 'arbitrary')
            st.case(sha(repr(files[main])) if changed else None, 'accepted' if rc == 0 else 'refused', text[-120:] if rc else None)
    return st
def report_bytes(exe, box, files, main, why, sub):
    """shrinks the main file (and drops the others) keeping the kind of failure"""
    key = re.sub(r'[^a-z ]', '', why[:40].lower())[:30]
    end = time.time() + 60
    def bad(fs):
        w = compile_files(exe, box, fs, main)[3]
        return w if w and re.sub(r'[^a-z ]', '', w[:40].lower())[:30] == key else None
    cur = dict(files)
    for f in list(cur):
        if f != main:
            t = {a: b for a, b in cur.items() if a != f}
            if bad(t): cur = t
    step = max(1, len(cur[main]) // 2)
    while step >= 1 and time.time() < end:
        i = 0
        hit = False
        while i < len(cur[main]) and time.time() < end:
            t = dict(cur); t[main] = cur[main][:i] + cur[main][i + step:]
            w = bad(t)
            if w: cur = t; why = w; hit = True
            else: i += step
        if step == 1 and not hit: break
        step = step // 2 if step > 1 else (1 if hit else 0)
    raise Violation('%s\n%s\n%s' % (main, why, '\n'.join('---- %s\n%r' % kv for kv in cur.items())[:3000]), dict(sub=sub, hex={a: b.hex() for a, b in cur.items()}, main=main))

# ---------------------------------------------------------------------------------------------- command line
def cli(exe, work, seed, n):
    st = Stats('cli', 'a command line which is wrong in one way (its arguments)')
    ok = 'syntax = "proto3";\nmessage M { int32 a = 1; }\n'
    imp = 'syntax = "proto3";\nimport "sub/ok.proto";\nmessage N { M m = 1; }\n'
    for k in range(n):
        rng = random.Random('P20 cli %s %s' % (seed, k))
        d = '%s/cli%d' % (work, k)
        shutil.rmtree(d, ignore_errors=True)
        write_files(d, {'sub/ok.proto': ok, 'imp.proto': imp, 'bad.proto': 'message {', 'afile': 'x'})
        os.makedirs(d + '/out'); os.makedirs(d + '/dir.proto')
        good = rng.choice([['--cpp_out=out', '-I.'], ['--cpp_out', 'out', '-I', '.'], ['-I.', '--cpp_out=out'], ['--proto_path=.', '--cpp_out=out'], ['-I', d, '--cpp_out', d + '/out'], ['-Inowhere', '-I.', '--cpp_out=./out']])
        files = rng.choice([['sub/ok.proto'], ['imp.proto'], ['imp.proto', 'sub/ok.proto'], [d + '/imp.proto'], ['./imp.proto'], ['sub/../imp.proto']])
        want = [os.path.join(d, 'out', o) for f in files for o in [('sub/' if 'ok' in f else '') + os.path.basename(f)[:-6] + e for e in ('.pb.h', '.pb.cc')]]
        kind = rng.choice(['good', 'good', 'unknown option', 'no output', 'no input', 'missing input', 'input is a directory', 'output is a file', 'bad input', 'no value', 'one of several is bad', 'no import path', 'help', 'version', 'no directory yet'])
        args = good + files
        exp = 1
        if kind == 'good': exp = 0
        elif kind == 'unknown option': args = [rng.choice(['--nope', '-x', '--cpp', '--java_out=out', '-'])] + args
        elif kind == 'no output': args = [a for i, a in enumerate(good) if 'out' not in a] + files
        elif kind == 'no input': args = good
        elif kind == 'missing input': args = good + files + ['nothere.proto']
        elif kind == 'input is a directory': args = good + ['dir.proto']
        elif kind == 'output is a file': args = ['--cpp_out=' + rng.choice(['afile', 'afile/sub']), '-I.'] + files
        elif kind == 'bad input': args = good + ['bad.proto']
        elif kind == 'no value': args = [rng.choice(['--cpp_out', '-I'])]
        elif kind == 'one of several is bad': args = good + files + ['bad.proto']; rng.shuffle(args[len(good):])
        elif kind == 'no import path': args = ['--cpp_out=out', '-Inowhere', rng.choice(['imp.proto'])]
        elif kind == 'help': args = [rng.choice(['-h', '--help'])]; exp = 0; want = []
        elif kind == 'version': args = [rng.choice(['-v', '--version'])]; exp = 0; want = []
        elif kind == 'no directory yet':
            args = [a.replace('out', 'new/er') if a == 'out' or a.endswith('=out') or a.endswith('/out') else a for a in good] + files; exp = 0
            want = [w.replace('/out/', '/new/er/') for w in want]
            args = [a.replace('--cpp_new/er', '--cpp_out') for a in args]
        try: r = build.run([exe] + args, cwd=d, timeout=20, env=build.ASAN_ENV)
        except subprocess.TimeoutExpired: raise Violation('spb-protoc %s does not terminate' % ' '.join(args), dict(sub='cli', args=args))
        text = (r.stdout + r.stderr).decode('utf-8', 'replace')
        why = None
        if kind == 'no import path':
            # the import may be found beside the importing file or not at all; both outcomes have to be consistent
            exp = r.returncode if r.returncode in (0, 1) else 0
            want = [d + '/out/imp.pb.h', d + '/out/imp.pb.cc']
        if r.returncode != exp or 'Sanitizer' in text: why = 'exit status %d, expected %d' % (r.returncode, exp)
        elif exp and not text.strip(): why = 'no message'
        elif exp == 0:
            miss = [w for w in want if not os.path.exists(w)]
            if miss: why = 'exit 0 without writing %s' % ', '.join(os.path.relpath(m, d) for m in miss)
        if exp == 0 and kind in ('help', 'version') and not text.strip(): why = 'no output'
        st.case(sha(repr(args).replace(d, '')) if exp else None, kind, ' '.join(args).replace(d, 'D'))
        shutil.rmtree(d, ignore_errors=True)
        if why: raise Violation('%s: spb-protoc %s\n%s\n%s' % (kind, ' '.join(args), why, text[:1000]), dict(sub='cli', args=args, seed=seed, k=k))
    return st

# ---------------------------------------------------------------------------------------------- nesting and size
def deep(exe, box, seed, n):
    st = Stats('deep', 'nesting of at least 50 levels or 1000 items (the text)')
    def gen(k):
        rng = random.Random('P20 deep %s %s' % (seed, k))
        depth = rng.choice([1, 10, 50, 99, 100, 101, 150, 1000, 20000, 100000])
        c = rng.randrange(19)
        h = 'syntax = "proto2";\n'
        if c == 0: t = h + ''.join('message M%d {' % i for i in range(depth)) + '}' * depth
        elif c == 1: t = h + 'option (a) = ' + '{ a: ' * depth + '1' + '}' * depth + ';'
        elif c == 2: t = h + 'message M { optional int32 a = 1 [' + '(' * depth + 'x' + ')' * depth + ' = 1]; }'
        elif c == 3: t = h + '/*' * depth + '*/' + 'message M { }'
        elif c == 4: t = h + 'message M { ' + 'oneof o { ' * depth + 'int32 a = 1; ' + '}' * depth + '}'
        elif c == 5: t = h + 'option (a)' + '.b' * depth + ' = 1;'
        elif c == 6: t = h + 'message M { optional ' + '.'.join(['a'] * depth) + ' x = 1; }'
        elif c == 7: t = h + '//' + '[[' * depth + ']]' * depth + '\nmessage M { }'
        elif c == 8: t = h + 'message M { ' + '\n'.join('optional int32 f%d = %d;' % (i, i + 1) for i in range(min(depth, 3000))) + '}'
        elif c == 9: t = h + 'enum E { ' + '\n'.join('V%d = %d;' % (i, i) for i in range(min(depth, 3000))) + '}'
        elif c == 10: t = h + ''.join('message M%d { optional M%d m = 1; }\n' % (i, (i + 1) % min(depth, 1000)) for i in range(min(depth, 1000)))
        elif c == 11: t = h + ''.join('message M%d { required M%d m = 1; }\n' % (i, i + 1) for i in range(min(depth, 1000))) + 'message M%d { }' % min(depth, 1000)
        elif c == 12: t = h + ''.join('message A%d { optional B%d m = 1; }\nmessage B%d { optional A%d m = 1; }\n' % (i, i, i, i) for i in range(min(depth, 500)))
        elif c == 13: t = h + 'message T { ' + ''.join('message A%d { optional B%d m = 1; }\nmessage B%d { repeated A%d m = 1; }\n' % (i, i, i, i) for i in range(min(depth, 500))) + '}'
        elif c == 14: t = h + ''.join('message M%d { map<int32, T%d> a = 1; oneof o { T%d b = 2; } }\n' % (i, i % 7, i % 5) for i in range(min(depth, 1000))) + ''.join('message T%d { optional M%d m = 1; }\n' % (i, i) for i in range(7))
        elif c == 15: t = h + ''.join('// words %d\n//[[ string.type = "std::string" ]]\n/* a */ /* b */\n' % i for i in range(min(depth, 20000))) + 'message M { }'
        elif c == 16: t = h + 'message M { optional int32 a = 1 [' + ', '.join('(x.y%d) = %s' % (i, rng.choice(['1', '"s"', 'id', '-2.5', '{ a: 1 }'])) for i in range(min(depth, 20000))) + ']; }'
        elif c == 17: t = h + 'message M { ' + ''.join('oneof o%d { int32 a%d = %d; M b%d = %d; } ' % (i, i, 2 * i + 1, i, 2 * i + 2) for i in range(min(depth, 3000))) + '}'
        else: t = h + 'message M { ' + 'map<int32, ' * depth + 'int32' + '>' * depth + ' a = 1; }'
        return depth, c, t
    def one(k):
        depth, c, t = gen(k)
        rc, text, d, why = compile_files(exe, box, {'main.proto': t}, 'main.proto')
        return depth, c, t, rc, why
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        for depth, c, t, rc, why in ex.map(one, range(n)):
            if why: report_bytes(exe, box, {'main.proto': t.encode()}, 'main.proto', why, 'deep')
            st.case(sha(t) if depth >= 50 else None, 'form %d: %s' % (c, 'accepted' if rc == 0 else 'refused'), t[:100])
    return st
# imports: missing, cyclic, of itself, diamonds, public chains, broken below
def imports(exe, box, seed, n):
    st = Stats('imports', 'at least two files (their text)')
    def one(k):
        rng = random.Random('P20 imports %s %s' % (seed, k))
        m = rng.randint(1, 5)
        files = {}
        if rng.random() < 0.06:
            # layers of files which import every file of the next layer; the last layer holds the types
            deep, wide = rng.choice([(3, 2), (25, 2), (40, 2), (12, 5), (60, 1)])
            kind = rng.choice(['public ', 'public ', ''])
            for i in range(deep):
                for j in range(wide):
                    body = 'syntax = "proto3";\npackage p;\n' + ''.join('import %s"f%d.proto";\n' % (kind, (i + 1) * wide + x) for x in range(wide) if i + 1 < deep)
                    body += 'message M%d { int32 a = 1; %s}\n' % (i * wide + j, rng.choice(['Unknown b = 2; ', '', 'M%d b = 2; ' % rng.randrange(deep * wide)]) if i == 0 else '' if i + 1 == deep else rng.choice(['', 'M%d b = 2; ' % rng.randrange((i + 1) * wide, deep * wide if kind else (i + 2) * wide)]))
                    files['f%d.proto' % (i * wide + j)] = body
            m = 0
        for i in range(m):
            body = rng.choice(['syntax = "proto3";\n', 'syntax = "proto2";\n', '', '// c\n'])
            for j in range(m):
                if rng.random() < 0.4: body += 'import %s"f%d.proto";\n' % (rng.choice(['', '', 'public ']), j)
            if rng.random() < 0.1: body += 'import "gone.proto";\n'
            if rng.random() < 0.3: body += 'package p%d;\n' % rng.randint(0, 2)
            body += 'message M%d { repeated M%d a = 1; }\n' % (i, rng.randrange(m))
            if rng.random() < 0.1: body += rng.choice(['}', 'message', 'enum E {', '"', '/*', 'import "x'])
            files['f%d.proto' % i] = body
        rc, text, d, why = compile_files(exe, box, files, 'f0.proto')
        if why is None and rc == 0:
            # what the reference compiler refuses for a missing or broken file must not be accepted
            prc, err = protoc(d + '/src', ['f0.proto'])
            if prc and ('not found' in err or 'Expected' in err or 'is not defined' in err) and 'recursively imports' not in err: why = 'accepted; the reference compiler says: ' + err[:500]
        return files, rc, why
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        for files, rc, why in ex.map(one, range(n)):
            if why: raise Violation('f0.proto\n%s\n%s' % (why, show_files(files)), dict(sub='imports', files=files, main='f0.proto'))
            st.case(sha(repr(sorted(files.items()))) if len(files) > 1 else None, 'accepted' if rc == 0 else 'refused', show_files(files)[:200])
    return st

def check(tier, seed, work, t0, scale, sub=None):
    exe, _, _ = cp.setup(work, hjobs=False)
    q = tier == 'quick'
    box = Box(work)
    def k(a, b): return max(1, int((a if q else b) * scale))
    subs = dict(valid=lambda: valid(exe, box, seed, k(120, 3000)), damage=lambda: single(exe, box, seed, k(2500, 60000)), arbitrary=lambda: arbitrary(exe, box, seed, k(6000, 200000)),
                deep=lambda: deep(exe, box, seed, k(400, 3000)), imports=lambda: imports(exe, box, seed, k(400, 8000)), cli=lambda: cli(exe, work, seed, k(120, 1500)))
    out = []
    for n, f in subs.items():
        if sub and n != sub: continue
        t = time.time()
        out.append(f().evidence())
        print('%s: %.1fs' % (n, time.time() - t), file=__import__('sys').stderr)
    return out
def replay(data, work):
    exe, _, _ = cp.setup(work, hjobs=False)
    files = {a: bytes.fromhex(b) for a, b in data['hex'].items()} if 'hex' in data else data.get('files')
    if files is None: print(data); return 1
    rc, text, d, why = compile_files(exe, Box(work), files, data['main'])
    prc, err = protoc(d + '/src', [data['main']])
    print('exit %s\n%s\nverdict: %s\nreference compiler: %d %s' % (rc, text, why, prc, err))
    return 1 if why or (rc == 0) != (prc == 0) else 0
