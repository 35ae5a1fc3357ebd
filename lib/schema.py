"""Random .proto projects (several files) inside the feature set documented by simple-protobuf.

A project is plain data (dicts and lists), so that it can be shrunk and stored; render() turns it into text.
Every type reference is kept as the identifier of its definition; the spelling (full, leading dot or any relative
name) is chosen at rendering time among those which resolve to it by protobuf's scoping rules.
"""
import random, re

KEYWORDS = """alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl
concept const consteval constexpr constinit const_cast continue co_await co_return co_yield decltype default delete do double
dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept not
not_eq nullptr operator or or_eq private protected public register reinterpret_cast requires return short signed sizeof static
static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using
virtual void volatile wchar_t while xor xor_eq""".split()
SCALARS = ['double', 'float', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'bool', 'string', 'bytes']
KEYTYPES = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'bool', 'string']
GRAMMAR = """message enum oneof option reserved extensions extend optional repeated required map group rpc returns service import package
syntax stream to max weak public inf nan packed deprecated json_name allow_alias""".split()
LIBRARY = """value stream_ tag size data json pb detail serialize deserialize index result buffer int32_t uint64_t size_t string_view byte
monostate variant vector unique_ptr optional_ message_ options reader writer enum_value enum_hash field_ key wire_type a b c x y id name
T Container std spb json_name type field self other""".split()
WORDS = """foo bar baz item list node tree user price total count flag kind state left right head tail body first last inner outer alpha
beta gamma delta path file line color shape point rect""".split()
TYPEWORDS = """Foo Bar Baz Item Node Tree User Price Total Kind State Point Rect Inner Outer Alpha Beta foo bar node value detail vector
class union struct template namespace operator delete this Message Enum Value Type Map List string_view Any Empty M N X Y Z""".split()
NOTYPE = set(GRAMMAR) | set(SCALARS) | {'std', 'spb', 'true', 'false'}
MACROS = {'NULL', 'EOF', 'errno', 'assert', 'stdin', 'stdout', 'stderr', 'unix', 'linux', 'minor', 'major', 'signals', 'slots'}

def camel(n):
    return re.sub(r'_+(.?)', lambda m: m.group(1).upper(), n)

def cpp(n):
    return n + '_' if n in KEYWORDS else n

class Scope:
    """names used inside of one protobuf scope"""
    def __init__(self, ban=()):
        self.used = set(ban)
    def ok(self, n):
        return n not in self.used and cpp(n) not in self.used and not (n.endswith('_') and n[:-1] in KEYWORDS and n[:-1] in self.used) and n not in MACROS
    def take(self, n):
        self.used.add(n); self.used.add(cpp(n))

class Cfg:
    def __init__(self, **kw):
        self.files = 4; self.messages = 5; self.depth = 3; self.fields = 8; self.exotic = 0.35; self.defaults = True
        self.syntax = ('proto2', 'proto3', None)
        self.__dict__.update(kw)

class Gen:
    def __init__(self, rng, tag, roots, cfg=None):
        self.r = rng; self.tag = tag; self.roots = roots; self.cfg = cfg or Cfg()
        self.ids = 0
        self.defs = {}       # id -> dict(def, file index, path of enclosing ids)
    def chance(self, p): return self.r.random() < p
    def new_id(self):
        self.ids += 1
        return self.ids

    # ---- names ----
    def word(self, kind):
        r = self.r
        x = r.random()
        e = self.cfg.exotic
        if kind == 'type':
            n = r.choice(TYPEWORDS)
            if x > 1 - e * 0.3: n = r.choice(KEYWORDS)
            if self.chance(0.25): n += r.choice(['2', '_t', 'X', '_', '__a', 'Ref'])
            if self.chance(0.04): n = '_' + n
            return n
        if kind == 'value':
            n = r.choice(WORDS).upper() if x < 1 - e else r.choice(KEYWORDS + GRAMMAR + LIBRARY)
            if self.chance(0.3): n += r.choice(['_1', '_X', '2', '_', '__'])
            if n in ('reserved', 'option'): n += '_v'
            return n
        if x < 1 - e: n = r.choice(WORDS)
        else: n = r.choice(KEYWORDS + GRAMMAR + LIBRARY + SCALARS)
        if self.chance(0.35): n += r.choice(['_', '_id', '2', '_2', 'Id', '__x', '_a_b', '_X', 'X1'])
        if self.chance(0.05): n = '_' + n
        if self.chance(0.05): n = n[0].upper() + n[1:]
        if self.chance(0.02): n = n + '_' + 'long_name' * r.randint(2, 20)
        return n
    def name(self, scope, kind):
        for i in range(200):
            n = self.sibling(scope, kind) if i == 0 else None
            if not n: n = self.word(kind)
            if i > 20: n += str(self.r.randint(0, 9999))
            if kind == 'type' and n in NOTYPE: continue
            if not scope.ok(n): continue
            scope.take(n)
            return n
        raise RuntimeError('no name')
    def sibling(self, scope, kind):
        """a name which has the same 33-hash as another one of the scope"""
        if kind == 'type' or not scope.used or not self.chance(0.07): return None
        n = self.r.choice(sorted(scope.used))
        at = [i for i in range(len(n) - 1) if 'b' <= n[i + 1] <= 'z' and ('A' <= n[i] < 'Z' or 'a' <= n[i] < 'z')]
        if not at: return None
        i = self.r.choice(at)
        return n[:i] + chr(ord(n[i]) + 1) + chr(ord(n[i + 1]) - 33) + n[i + 2:]
    def numbers(self, n, ban=()):
        r = self.r
        out = set()
        mode = r.random()
        nxt = 1
        while len(out) < n:
            x = r.random()
            if mode < 0.5 or x < 0.4: k = nxt
            elif x < 0.6: k = r.choice([15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911, 18999, 20000, 127, 128, 255, 256])
            elif x < 0.8: k = r.randint(1, 40)
            else: k = r.randint(1, 536870911)
            nxt += 1
            if 19000 <= k <= 19999 or k in ban: continue
            out.add(k)
        out = list(out)
        if not self.chance(0.5): r.shuffle(out)
        return out

    # ---- definitions ----
    def project(self):
        r, cfg = self.r, self.cfg
        nf = r.randint(1, cfg.files)
        files = []
        packages = []
        root = None
        for i in range(nf):
            if packages and self.chance(0.4): pkg = r.choice(packages)
            else:
                if not self.roots or self.chance(0.12): pkg = ''
                else:
                    if root is None: root = self.roots.pop()
                    comps = [root]
                    while len(comps) < 4 and self.chance(0.5):
                        c = r.choice(['a', 'b', 'c', 'foo', 'bar', 'v1', 'api', 'class', 'new', 'detail', 'json', 'value'])
                        comps.append(c)
                    if not self.chance(0.85): comps = comps[:1]
                    pkg = '.'.join(comps)
            packages.append(pkg)
            d = r.choice(['', '', '', 'sub/', 'a/b/', 'x-y/'])
            base = r.choice(['f', 'types', 'my-file', 'my_file', 'a.b', 'UPPER', 'class'])
            f = dict(path='%s%s_%s_%d.proto' % (d, base, self.tag, i), package=pkg, syntax=r.choice(cfg.syntax), imports=[], items=[], options=[])
            files.append(f)
        self.files = files
        self.scopes = {}      # package-level scope per package
        # a package is also a name in its parent package
        allpk = set()
        for f in files:
            ps = f['package'].split('.') if f['package'] else []
            for k in range(len(ps)): allpk.add(('.'.join(ps[:k]), ps[k]))
        for f in files:
            if f['package'] not in self.scopes: self.scopes[f['package']] = Scope([n for p, n in allpk if p == f['package']] + ['std', 'spb'])
        # skeleton: messages and enums, then fields (references need all the names)
        for i, f in enumerate(files):
            sc = self.scopes[f['package']]
            for _ in range(r.randint(0 if nf > 1 else 1, cfg.messages)):
                f['items'].append(self.message(f, i, sc, (), 0))
            for _ in range(r.choice([0, 1, 1, 2])):
                f['items'].append(self.enum(f, i, sc, ()))
            r.shuffle(f['items'])
            for j in range(i):
                if self.chance(0.6): f['imports'].append([j, r.choice(['', '', 'public', 'public', 'weak'] if False else ['', '', 'public'])])
            r.shuffle(f['imports'])
            if self.chance(0.3): f['options'].append(r.choice([['java_package', '"x.y"'], ['optimize_for', 'SPEED'], ['cc_enable_arenas', 'true'], ['java_multiple_files', 'false'], ['go_package', "'a/b;c'"]]))
        for i, f in enumerate(files):
            for d in f['items']:
                if d['k'] == 'msg': self.fill(f, i, d, ())
        return dict(tag=self.tag, files=files)
    def topname(self, f, sc):
        if f['package']: return self.name(sc, 'type')
        for _ in range(200):
            n = self.word('type')
            if n in NOTYPE: continue
            n = '%s_%s' % (n.strip('_') or 'T', self.tag)
            if sc.ok(n):
                sc.take(n)
                return n
            sc.take(n + '_')
        raise RuntimeError('no name')
    def message(self, f, fi, scope, path, depth):
        r = self.r
        ident = self.new_id()
        m = dict(k='msg', id=ident, name=self.topname(f, scope) if not path else self.name(scope, 'type'), items=[], rank=r.random())
        self.defs[ident] = (m, fi, path)
        inner = Scope([m['name']])
        m['_scope'] = inner
        if depth < self.cfg.depth:
            n = 0
            while self.chance(0.3) and n < 3:
                n += 1
                m['items'].append(self.message(f, fi, inner, path + (ident,), depth + 1))
        n = 0
        while self.chance(0.25) and n < 2:
            n += 1
            m['items'].append(self.enum(f, fi, inner, path + (ident,)))
        return m
    def enum(self, f, fi, scope, path):
        r = self.r
        ident = self.new_id()
        e = dict(k='enum', id=ident, name=self.topname(f, scope) if not path else self.name(scope, 'type'), values=[], alias=False)
        self.defs[ident] = (e, fi, path)
        n = r.choice([1, 2, 2, 3, 4, 6, 12]) if self.chance(0.95) else r.randint(20, 60)
        nums = []
        stripped = {}
        for i in range(n):
            if i == 0 and f['syntax'] == 'proto3': k = 0
            else: k = r.choice([i, i, i, r.randint(-3, 20), r.choice([-1, -2147483648, 2147483647, 127, 128, 255, 256, 65535, 65536, -128, -129])])
            if k in nums:
                if self.chance(0.6): continue
                e['alias'] = True
            nums.append(k)
            if path or f['package']:
                for _ in range(50):
                    v = self.name(scope, 'value')
                    # proto3: names have to differ without case, underscores and the name of the enum
                    low, en = v.lower().replace('_', ''), e['name'].lower().replace('_', '')
                    keys = {low, low[len(en):] if low.startswith(en) else low}
                    if all(stripped.get(q, k) == k for q in keys): break
                else: raise RuntimeError('no value name')
                for q in keys: stripped[q] = k
            else:
                v = '%s_%s_%d_%d' % (self.word('value').strip('_') or 'V', self.tag, ident, i)
                scope.take(v)
            e['values'].append([v, k, self.chance(0.08)])
        return e

    # ---- references ----
    def visible(self, fi):
        """files whose definitions can be used in file fi"""
        out = {fi}
        def pub(j):
            if j in out: return
            out.add(j)
            for k, kind in self.files[j]['imports']:
                if kind == 'public': pub(k)
        for j, kind in self.files[fi]['imports']: pub(j)
        return out
    def usable(self, fi, src, target, hard):
        """can message `src` (path of ids, last is the message) of file fi use `target`?"""
        d, tf, tpath = self.defs[target]
        if tf != fi: return True
        tp = tpath + (target,)
        # first difference
        k = 0
        while k < len(src) and k < len(tp) and src[k] == tp[k]: k += 1
        if k == len(tp):        # the target is src itself or encloses it
            return not hard
        if k == len(src):       # nested inside src
            return True
        y = self.defs[tp[k]][0]
        x = self.defs[src[k]][0]
        if y['k'] == 'enum': return True
        if y['rank'] < x['rank']: return True
        return tp[k] == target and not hard
    def pick_ref(self, fi, src, hard, kinds=('msg', 'enum'), proto3=False):
        vis = self.visible(fi)
        c = [i for i, (d, tf, tp) in self.defs.items() if tf in vis and d['k'] in kinds and self.usable(fi, src, i, hard)]
        if proto3: # proto3 messages can't use proto2 enums
            c = [i for i in c if self.defs[i][0]['k'] == 'msg' or self.files[self.defs[i][1]]['syntax'] == 'proto3']
        if not c: return None
        return self.r.choice(c)
    def ftype(self, f, fi, src, hard):
        if self.chance(0.42):
            t = self.pick_ref(fi, src, hard, proto3=f['syntax'] == 'proto3')
            if t is not None: return t
        return self.r.choice(SCALARS)

    def fill(self, f, fi, m, path):
        r = self.r
        src = path + (m['id'],)
        for d in m['items']:
            if d['k'] == 'msg': self.fill(f, fi, d, src)
        p3 = f['syntax'] == 'proto3'
        scope = m.pop('_scope')
        scope.used.discard(m['name'])   # a field may be named like its message
        n = r.choice([0, 1, 2, 3, 4, 5, self.cfg.fields, self.cfg.fields * 2 if self.chance(0.2) else 6])
        nums = self.numbers(2 * n + 12)
        jnames = set()
        def fname():
            for _ in range(300):
                x = self.name(scope, 'field')
                if {x, camel(x)} & jnames or x.lower() in jnames or camel(x).lower() in jnames or not camel(x): continue
                jnames.update([x, camel(x), x.lower(), camel(x).lower()])
                return x
            raise RuntimeError('no field name')
        def common(fd, is_map=False):
            if self.chance(0.08):
                j = r.choice(['@type', 'a b', 'x.y', 'KEY', 'foo-bar', '0', '$x', 'j' + fd['name'], 'jäson', 'json/name', '[x]', 'true', 'null', 'j' * r.randint(1, 40)])
                if j not in jnames and j.lower() not in jnames:
                    jnames.update([j, j.lower()])
                    fd['json_name'] = j
            if self.chance(0.05): fd['deprecated'] = True
            return fd
        def field():
            label = r.choice([None, None, 'optional', 'repeated', 'repeated'] if p3 else ['required', 'optional', 'optional', 'repeated', 'repeated'])
            t = self.ftype(f, fi, src, label == 'required')
            fd = common(dict(k='field', label=label, type=t, name=fname(), number=nums.pop()))
            isenum = isinstance(t, int) and self.defs[t][0]['k'] == 'enum'
            if label == 'repeated' and (isenum or t in SCALARS and t not in ('string', 'bytes')) and self.chance(0.35): fd['packed'] = self.chance(0.6)
            if label == 'required' and self.cfg.defaults and self.chance(0.2):
                dv = self.default(t)
                if dv is not None: fd['default'] = dv
            return fd
        items = []
        for _ in range(n):
            x = r.random()
            if x < 0.74: items.append(field())
            elif x < 0.87:
                t = self.ftype(f, fi, src, False)
                if isinstance(t, int) and self.defs[t][0]['k'] == 'enum' and self.defs[t][0]['values'][0][1] != 0: t = 'int32'
                items.append(common(dict(k='map', key=r.choice(KEYTYPES), type=t, name=fname(), number=nums.pop())))
            else:
                o = dict(k='oneof', name=fname(), fields=[])
                for _ in range(r.choice([1, 1, 2, 3, 5])):
                    if len(nums) < n + 2: break
                    t = self.ftype(f, fi, src, True)
                    o['fields'].append(common(dict(k='field', label=None, type=t, name=fname(), number=nums.pop())))
                if o['fields']: items.append(o)
        # proto2 enums need a map value / default of their own first value: nothing to do here
        used = set()
        def collect(x):
            if 'number' in x: used.add(x['number'])
            for y in x.get('fields', []): used.add(y['number'])
        for x in items: collect(x)
        if self.chance(0.15):
            lo = r.choice([1000, 5000, 100000000])
            hi = lo + r.randint(0, 50)
            if not any(lo <= u <= hi for u in used):
                items.append(dict(k='reserved', ranges=[[lo, hi]] + ([[hi + 1 + r.randint(0, 3), None]] if hi + 5 not in used and self.chance(0.5) else [])))
                rr = items[-1]['ranges']
                if len(rr) > 1 and rr[1][0] in used: rr.pop()
        if self.chance(0.1): items.append(dict(k='reserved', names=['r_%d' % i for i in range(r.randint(1, 3))]))
        if not p3 and self.chance(0.1) and not any(u >= 300000000 for u in used):
            items.append(dict(k='extensions', lo=300000000, hi=r.choice([300000100, None])))
        if self.chance(0.06): items.append(dict(k='option', name='deprecated', value=r.choice(['true', 'false'])))
        m['items'] += items
        r.shuffle(m['items'])
    def default(self, t):
        r = self.r
        if isinstance(t, int):
            d = self.defs[t][0]
            if d['k'] != 'enum': return None
            v = r.choice(d['values'])[0]
            return None if v in KEYWORDS or v in ('true', 'false', 'inf', 'nan') else v
        if t in ('float', 'double'): return r.choice(['0', '1', '-2', '1.5', '-0.25', '1e3', '1e-3', '2.5E+3', '.5', 'inf', '-inf', 'nan', '123456789'])
        if t == 'bool': return r.choice(['true', 'false'])
        if t == 'string': return '"%s"' % r.choice(['', 'a', 'hello world', 'x y z', '12', 'j\u00e4', "it's"])
        if t == 'bytes': return None
        bits = 32 if '32' in t else 64
        if t[0] == 'u' or t[0] == 'f': lo, hi = 0, 2 ** bits - 1
        else: lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
        if bits == 64 and lo < 0: lo += 1     # the literal of the smallest value has no portable spelling
        v = r.choice([0, 1, lo, hi, r.randint(lo, hi), 42])
        return hex(v) if self.chance(0.15) else str(v)

# ---------------------------------------------------------------------------------------- resolving names
class Index:
    def __init__(self, p):
        self.p = p
        self.full = {}   # id -> full name
        self.file = {}
        self.sym = []    # per file: full name -> kind
        self.defs = {}
        for i, f in enumerate(p['files']):
            s = {}
            ps = f['package'].split('.') if f['package'] else []
            for k in range(len(ps)): s['.'.join(ps[:k + 1])] = 'pkg'
            for d in f['items']: self.walk(i, d, f['package'], s)
            self.sym.append(s)
        self.cache = {}
    def walk(self, i, d, scope, s):
        if d['k'] not in ('msg', 'enum'):
            if d['k'] in ('field', 'map', 'oneof'):
                s[scope + '.' + d['name']] = 'other'
                for x in d.get('fields', []): s[scope + '.' + x['name']] = 'other'
            return
        full = (scope + '.' if scope else '') + d['name']
        self.full[d['id']] = full; self.file[d['id']] = i; self.defs[d['id']] = d
        s[full] = d['k']
        if d['k'] == 'enum':
            for v in d['values']: s[(scope + '.' if scope else '') + v[0]] = 'other'
        for x in d.get('items', []): self.walk(i, x, full, s)
    def visible(self, i):
        out = []
        def pub(j):
            if j in out: return
            out.append(j)
            for k, kind in self.p['files'][j]['imports']:
                if kind == 'public': pub(k)
        out.append(i)
        for j, kind in self.p['files'][i]['imports']: pub(j)
        return out
    def symbols(self, i):
        if i not in self.cache:
            s = {}
            for j in self.visible(i): s.update(self.sym[j])
            self.cache[i] = s
        return self.cache[i]
    def lookup(self, i, scope, name):
        s = self.symbols(i)
        if name.startswith('.'): return name[1:] if s.get(name[1:]) in ('msg', 'enum') else None
        first = name.split('.')[0]
        while True:
            cand = (scope + '.' if scope else '') + first
            if cand in s:
                if first == name:
                    if s[cand] in ('msg', 'enum'): return cand
                elif s[cand] in ('msg', 'enum', 'pkg'):
                    full = (scope + '.' if scope else '') + name
                    return full if s.get(full) in ('msg', 'enum') else None
            if not scope: return None
            scope = scope.rpartition('.')[0]
    def spellings(self, i, scope, ident):
        full = self.full[ident]
        out = ['.' + full]
        parts = full.split('.')
        for k in range(len(parts)):
            n = '.'.join(parts[k:])
            if n.split('.')[0] in NOTYPE or n in SCALARS: continue
            if self.lookup(i, scope, n) == full: out.append(n)
        return out

# ---------------------------------------------------------------------------------------- rendering
def number(rng, n, style):
    if style < 0.08: return ('-' if n < 0 else '') + hex(abs(n))
    if style < 0.14 and n: return ('-' if n < 0 else '') + '0' + oct(abs(n))[2:]
    return str(n)

class Tokens(list):
    def t(self, text, role=''): self.append((text, role))

def str_lit(rng, s, quotes):
    q = "'" if quotes and rng.random() < 0.3 else '"'
    if q in s: q = '"' if q == "'" else "'"
    return q + s + q

def file_tokens(p, i, rng, idx=None, numbers=True, quotes=True, spelling=None):
    """-> Tokens; rng chooses spellings only"""
    idx = idx or Index(p)
    f = p['files'][i]
    T = Tokens()
    def num(n): return number(rng, n, rng.random() if numbers else 1)
    def ref(t, scope):
        if not isinstance(t, int): return t
        sp = idx.spellings(i, scope, t)
        if spelling == 'full': return sp[0]
        # short spellings are the usual ones
        return rng.choice(sp[1:] or sp) if rng.random() < 0.85 else sp[0]
    def typ(t, scope):
        T.t(ref(t, scope), 'scalar' if not isinstance(t, int) else 'type')
    def opts(fd):
        o = []
        if 'json_name' in fd: o.append(('json_name', str_lit(rng, fd['json_name'], quotes), 'str'))
        if 'deprecated' in fd: o.append(('deprecated', 'true', ''))
        if 'packed' in fd: o.append(('packed', 'true' if fd['packed'] else 'false', ''))
        if 'default' in fd: o.append(('default', fd['default'], 'str' if fd['default'][0] == '"' else ''))
        o += [tuple(x) for x in fd.get('extra', [])]
        if not o: return
        rng.shuffle(o)
        T.t('[', 'open[')
        for k, (a, b, role) in enumerate(o):
            if k: T.t(',', ',')
            T.t(a, 'optname'); T.t('=', '='); T.t(b, role)
        T.t(']', 'close]')
    def field(fd, scope):
        if fd['label']: T.t(fd['label'], 'label')
        typ(fd['type'], scope); T.t(fd['name'], 'ident'); T.t('=', '='); T.t(num(fd['number']), 'number'); opts(fd); T.t(';', ';')
    def item(d, scope):
        k = d['k']
        if k == 'field': field(d, scope)
        elif k == 'map':
            T.t('map', 'kw'); T.t('<', '<'); T.t(d['key'], 'scalar'); T.t(',', ','); typ(d['type'], scope); T.t('>', '>')
            T.t(d['name'], 'ident'); T.t('=', '='); T.t(num(d['number']), 'number'); opts(d); T.t(';', ';')
        elif k == 'oneof':
            T.t('oneof', 'kw'); T.t(d['name'], 'ident'); T.t('{', '{oneof')
            for x in d['fields']: field(x, scope)
            T.t('}', '}')
        elif k == 'msg':
            full = (scope + '.' if scope else '') + d['name']
            T.t('message', 'kw'); T.t(d['name'], 'ident'); T.t('{', '{msg')
            for x in d['items']: item(x, full)
            T.t('}', '}')
        elif k == 'enum':
            T.t('enum', 'kw'); T.t(d['name'], 'ident'); T.t('{', '{enum')
            if d['alias']: T.t('option', 'kw'); T.t('allow_alias', 'optname'); T.t('=', '='); T.t('true'); T.t(';', ';')
            for n, v, dep in d['values']:
                T.t(n, 'ident'); T.t('=', '='); T.t(num(v), 'number')
                if dep: T.t('[', 'open['); T.t('deprecated', 'optname'); T.t('=', '='); T.t('true'); T.t(']', 'close]')
                T.t(';', ';')
            T.t('}', '}')
        elif k == 'reserved':
            T.t('reserved', 'kw')
            if 'names' in d:
                for a, n in enumerate(d['names']):
                    if a: T.t(',', ',')
                    T.t(str_lit(rng, n, quotes), 'str')
            else:
                for a, (lo, hi) in enumerate(d['ranges']):
                    if a: T.t(',', ',')
                    T.t(num(lo), 'number')
                    if hi is None: pass
                    elif hi != lo: T.t('to', 'kw'); T.t(num(hi), 'number')
            T.t(';', ';')
        elif k == 'extensions':
            T.t('extensions', 'kw'); T.t(num(d['lo']), 'number'); T.t('to', 'kw'); T.t('max' if d['hi'] is None else num(d['hi'])); T.t(';', ';')
        elif k == 'option':
            T.t('option', 'kw'); T.t(d['name'], 'optname'); T.t('=', '='); T.t(d['value'], d.get('role', '')); T.t(';', ';')
        elif k == 'raw':
            for x in d['tokens']: T.t(*x)
        else: raise ValueError(k)
    if f['syntax']:
        T.t('syntax', 'kw'); T.t('=', '='); T.t(str_lit(rng, f['syntax'], quotes), 'str'); T.t(';', ';')
    head = []
    if f['package']: head.append(('package', None))
    for j, kind in f['imports']: head.append(('import', (j, kind)))
    for n, v in f['options']: head.append(('option', (n, v)))
    for w, x in head:
        if w == 'package': T.t('package', 'kw'); T.t(f['package'], 'pkg'); T.t(';', ';')
        elif w == 'import':
            T.t('import', 'kw')
            if x[1]: T.t(x[1], 'kw')
            T.t(str_lit(rng, p['files'][x[0]]['path'], quotes), 'import'); T.t(';', ';')
        else: T.t('option', 'kw'); T.t(x[0], 'optname'); T.t('=', '='); T.t(x[1], 'str' if x[1][0] in '"\'' else ''); T.t(';', ';')
    for d in f['items']: item(d, f['package'])
    return T

COMMENTS = ['plain words', 'message X { }', 'unbalanced { [ ( "', "it's", 'syntax = "proto2";', '=1;', '//', '* *', 'TODO: x', '', 'C:\\dir\\', 'continued \\ ', '??/', 'R"(', 'optional int32 a = 1;', '\u00fcml\u00e4ut']
WORD = re.compile(r'[A-Za-z0-9_.]')
def layout(tokens, rng, style):
    """style: dict(comments=p, space=0..2, empty=p); 0 spaces: as compact as possible, 1: usual, 2: wild"""
    out = []
    sp = style.get('space', 1); pc = style.get('comments', 0); pe = style.get('empty', 0)
    depth = 0
    def comment():
        c = rng.choice(COMMENTS)
        if rng.random() < 0.5: return '//' + c.replace('\n', ' ') + '\n'
        return '/*' + (' ' if c[:1] in '*/' else '') + c + (' ' if c[-1:] in '*/' else '') + '*/'
    prev = ''
    stmt_start = True
    stack = []
    for n, (t, role) in enumerate(tokens):
        gap = ''
        if role == '}': depth -= 1
        if sp == 2:
            gap = ''.join(rng.choice([' ', '\t', '\n', '\r\n', '  ', '']) for _ in range(rng.randint(0, 3)))
        elif sp == 1:
            gap = '\n' + '  ' * depth if stmt_start else ('' if t in ';,' else ' ')
        if pc and rng.random() < pc: gap += comment() + (rng.choice(['', ' ', '\n']) if sp else '')
        if pe and stmt_start and prev in (';', '}', '{') and rng.random() < pe and not (stack and stack[-1] == '{oneof'): gap += ';'
        if not gap and prev and WORD.match(prev[-1]) and WORD.match(t[0]): gap = ' '
        if not gap and prev and (prev[-1] in '"\'' and t[0] in '"\''): gap = ' '
        if not gap and prev and prev[-1] == '/' or t[0] == '/': gap = ' '
        out.append(gap); out.append(t)
        if role[:1] == '{': depth += 1; stack.append(role)
        if role == '}': stack.pop()
        stmt_start = role == ';' or role[:1] in '{}' and role != ''
        prev = t
    out.append('\n')
    return ''.join(out)

PLAIN = dict(space=1)
def gen_style(rng):
    return dict(space=rng.choice([1, 1, 0, 2]), comments=rng.choice([0, 0, 0.05, 0.2]), empty=rng.choice([0, 0, 0.1]))

def render(p, rng, style=None, **kw):
    """-> {path: text}"""
    idx = Index(p)
    out = {}
    for i, f in enumerate(p['files']):
        st = style if style is not None else gen_style(rng)
        out[f['path']] = layout(file_tokens(p, i, rng, idx, **kw), rng, st)
    return out

def generate(seed, tag, roots, cfg=None):
    rng = random.Random(seed)
    for k in range(50):
        try:
            p = Gen(rng, tag, roots, cfg).project()
            return p
        except RuntimeError: continue
    raise RuntimeError('generator gives up')

# ---------------------------------------------------------------------------------------- shrinking
def clean(p):
    """removes references to definitions which are gone or not visible any more"""
    idx = Index(p)
    def fix(items, i, vis):
        out = []
        for d in items:
            t = d.get('type')
            if isinstance(t, int) and (t not in idx.full or idx.file[t] not in vis): continue
            if isinstance(t, int) and 'default' in d and d['default'] not in [v[0] for v in idx.defs[t].get('values', [])]: d = {k: v for k, v in d.items() if k != 'default'}
            if d['k'] == 'oneof':
                d = dict(d, fields=fix(d['fields'], i, vis))
                if not d['fields']: continue
            if d['k'] == 'msg': d = dict(d, items=fix(d['items'], i, vis))
            out.append(d)
        return out
    return dict(p, files=[dict(f, items=fix(f['items'], i, set(idx.visible(i)))) for i, f in enumerate(p['files'])])

def smaller(p):
    """yields smaller projects, the most promising first"""
    import copy
    nf = len(p['files'])
    for i in range(nf):
        q = copy.deepcopy(p)
        del q['files'][i]
        for f in q['files']: f['imports'] = [[j - (j > i), k] for j, k in f['imports'] if j != i]
        if q['files']: yield clean(q)
    paths = []
    def walk(items, path):
        for k, d in enumerate(items):
            paths.append(path + [k])
            if d['k'] == 'msg': walk(d['items'], path + [k, 'items'])
            if d['k'] == 'oneof': walk(d['fields'], path + [k, 'fields'])
    for i, f in enumerate(p['files']): walk(f['items'], [i, 'items'])
    def at(q, path):
        x = q['files']
        for k in path: x = x[k]
        return x
    for path in sorted(paths, key=len):
        q = copy.deepcopy(p)
        del at(q, path[:-1])[path[-1]]
        yield clean(q)
    for path in paths:
        d = at(p, path)
        for k in ('json_name', 'deprecated', 'packed', 'default', 'extra'):
            if k in d:
                q = copy.deepcopy(p)
                del at(q, path)[k]
                yield q
        if d['k'] in ('field', 'map') and d['type'] != 'int32':
            q = copy.deepcopy(p)
            at(q, path)['type'] = 'int32'
            at(q, path).pop('default', None)
            yield q
        if d['k'] == 'enum' and len(d['values']) > 1:
            for v in range(1, len(d['values'])):
                q = copy.deepcopy(p)
                del at(q, path)['values'][v]
                yield clean(q)
    for i, f in enumerate(p['files']):
        for k in range(len(f['imports'])):
            q = copy.deepcopy(p)
            del q['files'][i]['imports'][k]
            yield clean(q)
        if f['options']:
            q = copy.deepcopy(p)
            q['files'][i]['options'] = []
            yield q
ROOTS = ['p%d' % i for i in range(40)] + ['pkg', 'acme', 'class', 'new', 'delete', 'template', 'my_pkg', 'Upper', 'operator', 'namespace', 'union', 'com', 'org', 'zz', '_under', 'double_', 'x']
