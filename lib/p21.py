"""P21: options take effect on exactly the fields in their scope, in every notation."""
import copy, multiprocessing, os, random, re, shutil, subprocess, time
import concurrent.futures as cf
import build
import compiler_props as cp
from compiler_props import Stats, Violation, write_files, spb, sha, show_files
from build import CXX, BASE, REPO, VERIF
from p20 import Box
from p22 import tokens

# A project: files with scoped option assignments {key: value}; everything else follows from it.
INTS = {'int32': (1, 32), 'sint32': (1, 32), 'sfixed32': (1, 32), 'uint32': (0, 32), 'fixed32': (0, 32), 'int64': (1, 64), 'sint64': (1, 64), 'sfixed64': (1, 64), 'uint64': (0, 64), 'fixed64': (0, 64)}
CPP = {'bool': 'bool', 'float': 'float', 'double': 'double'}
CPP.update({k: 'std::%sint%d_t' % ('' if s else 'u', b) for k, (s, b) in INTS.items()})
FIXED = {'fixed32': 5, 'sfixed32': 5, 'float': 5, 'fixed64': 1, 'sfixed64': 1, 'double': 1}

class Make:
    def __init__(self, rng, tag):
        self.r = rng; self.tag = tag; self.n = 0
        # options that this project sets in most places, so that they meet in every combination of scopes
        self.focus = rng.sample(['string', 'bytes', 'optional', 'repeated', 'map', 'pointer', 'enum', 'max_size', 'max_count'], 2)
    def chance(self, p): return self.r.random() < p
    def uid(self): self.n += 1; return self.n
    def containers(self, p, upper=True):
        """container options as they may appear at a scope"""
        r = self.r; o = {}
        for k, v in (('string', 'ot::str<%s,%d>' % (r.choice(['$', 'char']), self.uid())), ('bytes', 'ot::blob<%s,%d>' % (r.choice(['$', 'std::byte']), self.uid())),
                     ('optional', 'ot::opt<$,%d>' % self.uid()), ('repeated', 'ot::vec<$,%d>' % self.uid()), ('map', 'ot::map<$,@,%d>' % self.uid()), ('pointer', 'ot::ptr<$,%d>' % self.uid()), ('enum', r.choice(['int8', 'uint8', 'int16', 'uint16', 'int32']))):
            if self.chance(0.5 if k in self.focus and p < 0.5 else p): o[k] = v
        if self.chance(0.5 if p < 0.5 and 'max_size' in self.focus else p): o['max_size'] = r.choice([1, 2, 4, 8, 9, 16, 63, 64, 127, 128, 300])
        if self.chance(0.5 if p < 0.5 and 'max_count' in self.focus else p): o['max_count'] = r.choice([1, 2, 3, 4, 8, 10, 16, 100])
        return o
    def enum(self, name):
        o = {}
        if self.chance(0.35): o['type'] = self.r.choice(['int8', 'uint8', 'int16', 'uint16', 'int32'])
        if self.chance(0.1): o['include'] = ['<array>']
        return dict(k='enum', name=name, opts=o)
    def field(self, name, number, p2, msgs, enums, full):
        r = self.r
        kind = r.choice(['int', 'int', 'string', 'string', 'bytes', 'bytes', 'rep', 'rep', 'map', 'opt', 'oneof', 'bit' if p2 else 'int', 'enum', 'self'])
        f = dict(k='field', name=name, number=number, label='', o={}, kind=kind)
        o = f['o']
        def label(choices=('opt', 'req', 'rep')):
            l = r.choice(choices)
            if l == 'req' and not p2: l = 'opt'
            f['label'] = {'opt': r.choice(['optional', '']) if not p2 else 'optional', 'req': 'required', 'rep': 'repeated'}[l]
        if kind == 'int':
            f['type'] = r.choice(list(INTS))
            label()
            s, b = INTS[f['type']]
            if self.chance(0.6): o['type'] = ('' if s else 'u') + 'int%d' % r.choice([x for x in (8, 16, 32, 64) if x <= b])
            if p2 and f['label'] == 'required' and self.chance(0.4): o['default'] = r.choice([0, 1, 42, 127, 5] + ([-1, -128] if s else []))
        elif kind == 'bit':
            f['type'] = r.choice(list(INTS)); f['label'] = 'required'
            s, b = INTS[f['type']]
            w = r.choice([x for x in (8, 16, 32, 64) if x <= b])
            f['bits'] = r.randint(2 if s else 1, min(w, 31)); o['type'] = '%sint%d:%d' % ('' if s else 'u', w, f['bits'])
        elif kind in ('string', 'bytes'):
            f['type'] = kind; label()
            x = r.random()
            if x < 0.35: o[kind] = self.containers(1)[kind]
            elif x < 0.45: o[kind] = 'std::array<%s,%d>' % (r.choice(['$', 'char' if kind == 'string' else 'std::byte']), r.randint(1, 40))
            if 'array' in o.get(kind, ''): o['max_size'] = 64    # an array is always full, an inherited limit must not be smaller
            elif self.chance(0.4): o['max_size'] = r.choice([1, 2, 4, 8, 9, 16, 63, 64, 127, 128, 300])
            if p2 and kind == 'string' and f['label'] == 'required' and kind not in o and self.chance(0.3): o['default'] = '"a"'
            if f['label'] == 'repeated': self.counts(o)
        elif kind == 'rep':
            f['label'] = 'repeated'
            f['type'] = r.choice(list(INTS) + ['bool', 'float', 'double', 'double'] + msgs + enums + msgs + enums)
            self.counts(o)
            if f['type'] in FIXED or f['type'] in INTS or f['type'] in CPP or f['type'] in enums:
                if self.chance(0.35): o['packed'] = r.choice(['true', 'false'])
            if f['type'] in INTS and self.chance(0.2): o['type'] = ('' if INTS[f['type']][0] else 'u') + 'int%d' % r.choice([x for x in (8, 16, 32, 64) if x <= INTS[f['type']][1]])
        elif kind == 'opt':
            f['label'] = 'optional' if p2 else r.choice(['optional', ''])
            f['type'] = r.choice(list(INTS) + ['bool', 'float', 'double'] + msgs + enums)
            if self.chance(0.4): o['optional'] = 'ot::opt<$,%d>' % self.uid()
        elif kind == 'self':
            f['label'] = 'optional' if p2 else r.choice(['optional', ''])
            f['type'] = '.' + full
            if self.chance(0.4): o['pointer'] = 'ot::ptr<$,%d>' % self.uid()
        elif kind == 'enum':
            f['type'] = r.choice(enums or ['bool']); label()
        elif kind == 'map':
            f = dict(k='map', name=name, number=number, o=o, kind=kind, key=r.choice(list(INTS)), type=r.choice(list(INTS) + ['bool', 'double'] + msgs + enums))
            if self.chance(0.4): o['map'] = 'ot::map<$,@,%d>' % self.uid()
        elif kind == 'oneof':
            f = dict(k='oneof', name=name, number=number, kind=kind, o={}, fields=[])
            for i in range(r.randint(1, 3)):
                t = r.choice(['string', 'bytes', 'string', 'bytes', 'int', 'msg'])
                g = dict(k='field', name='%s_%d' % (name, i), number=number + i, label='', o={}, kind=t)
                if t == 'int':
                    g['type'] = r.choice(list(INTS)); s, b = INTS[g['type']]
                    if self.chance(0.4): g['o']['type'] = ('' if s else 'u') + 'int%d' % r.choice([x for x in (8, 16, 32, 64) if x <= b])
                elif t == 'msg': g['type'] = r.choice(msgs or ['bool'])
                else:
                    g['type'] = t
                    if self.chance(0.4): g['o'][t] = self.containers(1)[t]
                    if self.chance(0.4): g['o']['max_size'] = r.choice([1, 2, 4, 8, 9, 16, 64, 128])
                if self.chance(0.15): g['o']['json_name'] = '"%sJson"' % g['name']
                f['fields'].append(g)
            return f
        if f['label' if f['k'] == 'field' else 'k'] and f['k'] == 'field':
            if f['label'] in ('optional', '') and kind not in ('bit', 'opt', 'self') and self.chance(0.2) : o['optional'] = 'ot::opt<$,%d>' % self.uid()
            if f['label'] == 'repeated' and self.chance(0.35): o['repeated'] = 'ot::vec<$,%d>' % self.uid()
        if self.chance(0.15): o['json_name'] = '"%s"' % r.choice(['%sJson', 'x-%s', '%s.y', 'J%s']) % name
        if self.chance(0.12): o['deprecated'] = r.choice(['true', 'true', 'false'])
        if self.chance(0.05): o['include'] = ['<array>', '<list>'][:r.randint(1, 2)]
        return f
    def counts(self, o):
        if self.chance(0.4): o['max_count'] = self.r.choice([1, 2, 3, 4, 8, 10, 16, 100])
    def limits(self, name, full, p2):
        """strings and bytes with every combination of limits of their own, below random limits of the message and the file"""
        r = self.r
        m = dict(k='msg', name=name, full=full, o={}, items=[])
        for k in ('max_size', 'max_count'):
            if self.chance(0.4): m['o'][k] = r.choice([1, 2, 3, 5, 8, 16, 63, 127])
        n = 0
        for size in (0, 1):
            for count in (0, 1):
                n += 1
                f = dict(k='field', name='r%d' % n, number=n, label='repeated', o={}, kind='string', type=r.choice(['string', 'bytes']))
                if size: f['o']['max_size'] = r.choice([1, 2, 4, 6, 9, 17, 64, 128])
                if count: f['o']['max_count'] = r.choice([1, 2, 3, 4, 7, 10])
                m['items'].append(f)
            n += 1
            f = dict(k='field', name='s%d' % n, number=n, label=r.choice(['optional', 'required' if p2 else 'optional']), o={}, kind='string', type=r.choice(['string', 'bytes']))
            if size: f['o']['max_size'] = r.choice([1, 2, 4, 6, 9, 17, 64, 128])
            m['items'].append(f)
        f = dict(k='field', name='i9', number=9, label='repeated', o={}, kind='rep', type=r.choice(['int32', 'bool', 'double']))
        m['items'].append(f)
        r.shuffle(m['items'])
        return m
    def message(self, name, full, p2, msgs, enums, depth):
        r = self.r
        m = dict(k='msg', name=name, full=full, o=self.containers(0.25) if self.chance(0.7) else {}, items=[])
        own = []
        for i in range(r.choice([0, 0, 1])):
            e = self.enum('E%d' % i); e['full'] = full + '.E%d' % i
            own.append(e); enums = enums + ['.' + e['full']]
        if depth < 2:
            for i in range(r.choice([0, 0, 1, 2])):
                n = self.message('N%d_%d' % (depth, i), full + '.N%d_%d' % (depth, i), p2, msgs, enums, depth + 1)
                own.append(n); msgs = msgs + ['.' + n['full']]
        number = 1
        fs = []
        for i in range(r.randint(1, 7)):
            f = self.field('f%d' % i, number, p2, msgs, enums, full)
            fs.append(f); number += len(f.get('fields', [1])) if f['k'] == 'oneof' else 1
        m['items'] = own
        for f in fs: m['items'].append(f)
        return m
    def project(self):
        r = self.r
        out = []
        msgs, enums = [], []
        for i in range(r.choice([1, 1, 2])):
            p2 = r.random() < 0.6
            pkg = 'opt_%s_%d' % (self.tag, i)
            f = dict(path='%s_%d.proto' % (self.tag, i), package=pkg, p2=p2, o=self.containers(0.25) if self.chance(0.7) else {}, items=[], imports=list(range(i)), spb_import=self.chance(0.4))
            for k in range(r.choice([0, 1, 1, 2])):
                e = self.enum('T%d' % k); e['full'] = pkg + '.T%d' % k
                f['items'].append(e); enums = enums + ['.' + e['full']]
            # a proto2 enum may not be used by a proto3 message in protoc: spb does not care, but stay valid
            for k in range(r.randint(1, 3)):
                m = self.message('M%d' % k, pkg + '.M%d' % k, p2, msgs, enums if i == 0 or not p2 else enums, 0)
                f['items'].append(m); msgs = msgs + ['.' + m['full']]
            for k in ('max_size', 'max_count'):
                if self.chance(0.3): f['o'].setdefault(k, r.choice([1, 2, 3, 5, 9, 12, 65, 126]))
            f['items'].append(self.limits('L', pkg + '.L', p2))
            out.append(f)
        return dict(tag=self.tag, files=out)

# ------------------------------------------------------------------------------------------ rendering
def num(r, n):
    x = r.random()
    if n < 0 or x < 0.7: return str(n)
    return hex(n) if x < 0.85 or n == 0 else '0' + oct(n)[2:]
def value(r, key, v, scope):
    if key in ('default', 'deprecated', 'packed'): return str(v)
    if key in ('max_size', 'max_count', 'max_length'): return num(r, v)
    if isinstance(v, list): return '[' + ', '.join('"%s"' % x for x in v) + ']'
    if v[0] == '"': v = v[1:-1]
    q = r.choice(['"', '"', "'"])
    return q + v + q
GPB = ('default', 'deprecated', 'packed', 'json_name')
def spell(r, o, scope):
    """-> option texts `name = value` of one scope, in a random order"""
    suffix = {'field': 'opt', 'msg': 'msgopt', 'file': 'fileopt', 'enum': 'enumopt'}[scope]
    out = []
    group = []
    for k, v in o.items():
        if k in GPB: out.append('%s%s=%s%s' % (k, r.choice([' ', '']), r.choice([' ', '']), value(r, k, v, scope))); continue
        if k in ('max_size', 'max_count') and scope != 'enum' and r.random() < 0.35:
            nano = 'nanopb' if scope == 'field' else 'nanopb_' + suffix
            if k == 'max_size' and v > 1 and r.random() < 0.5: out.append('(%s).max_length = %s' % (nano, num(r, v - 1)))
            else: out.append('(%s).%s = %s' % (nano, k, num(r, v)))
            continue
        if isinstance(v, list) and r.random() < 0.5:
            for x in v: out.append('(spb_%s).%s = "%s"' % (suffix, k, x))
            continue
        if r.random() < 0.3: group.append((k, v))
        else: out.append('(spb_%s).%s%s=%s%s' % (suffix, k, r.choice([' ', '']), r.choice([' ', '']), value(r, k, v, scope)))
    if group:
        out.append('(spb_%s) = { %s }' % (suffix, r.choice([', ', ' ', ',']).join('%s: %s' % (k, value(r, k, v, scope)) for k, v in group)))
    r.shuffle(out)
    return out
WORDS = ['words', 'optional int32 a = 1;', 'TODO', '[not an option]', 'see a[0]']
def comments(r, opts, ind):
    """special comments, each on a line of its own"""
    out = []
    opts = list(opts)
    while opts:
        k = r.choice([1, 1, 2])
        now, opts = opts[:k], opts[k:]
        body = r.choice([' ', '']).join('[[%s%s%s]]' % (r.choice([' ', '']), x, r.choice([' ', '', ';', ' ; '])) for x in now)
        style = r.randrange(4)
        out.append(ind + {0: '//%s', 1: '// %s', 2: '/*%s*/', 3: '// see %s for it'}[style] % body)
        if r.random() < 0.2: out.append(ind + '// ' + r.choice(WORDS))
    return out
def render(p, rng, notation=None):
    """notation: None random, 'bracket' standard options only, 'comment' comments only"""
    return {f['path']: render_file(p, f, rng, notation) for f in p['files']}
def deal(r, texts, ways):
    out = {w: [] for w in ways}
    for t in texts: out[r.choice(ways)].append(t)
    return out
def render_file(p, f, r, notation):
    L = []
    tail = lambda: (' // ' + r.choice(WORDS)) if r.random() < 0.25 else ''
    def field(d, ind, inner=()):
        d_o = d['o']
        ways = ['bracket', 'before', 'after'] if notation is None else ['bracket'] if notation == 'bracket' else ['before']
        if notation is None and r.random() < 0.5: ways = [r.choice(ways)]
        g = deal(r, spell(r, d_o, 'field'), ways)
        if r.random() < 0.2: L.append(ind + '// ' + r.choice(WORDS))
        pre = comments(r, g.get('before', []), ind) + comments(r, inner, ind)
        L.extend(pre)
        t = ('map<%s, %s>' % (d['key'], d['type'])) if d['k'] == 'map' else ((d['label'] + ' ') if d['label'] else '') + d['type']
        b = ' [%s]' % ', '.join(g['bracket']) if g.get('bracket') else ''
        a = g.get('after', [])
        if a: end = r.choice(['//%s', ' // %s', ' /*%s*/']) % ' '.join('[[ %s ]]' % x for x in a)
        else: end = tail()
        L.append('%s%s %s = %d%s;%s' % (ind, t, d['name'], d['number'], b, end))
    def enum(d, ind):
        ways = ['option', 'before'] if notation is None else ['option'] if notation == 'bracket' else ['before']
        g = deal(r, spell(r, d['opts'], 'enum'), ways)
        L.extend(comments(r, g.get('before', []), ind))
        L.append(ind + 'enum %s {' % d['name'] + tail())
        body = ['%s_ZERO = 0;' % pre(d), '%s_ONE = 1;' % pre(d), '%s_MANY = 100;' % pre(d)]
        for x in g.get('option', []): body.insert(r.randint(0, len(body)), 'option %s;' % x)
        for x in body: L.append(ind + '  ' + x + tail())
        L.append(ind + '}')
    def message(d, ind):
        ways = ['option', 'before', 'inner'] if notation is None else ['option'] if notation == 'bracket' else ['before']
        if notation is None and r.random() < 0.4: ways = [r.choice(ways)]
        direct = [x for x in d['items'] if x['k'] in ('field', 'map')]
        if not direct and 'inner' in ways: ways = ['before']
        g = deal(r, spell(r, d['o'], 'msg'), ways)
        L.extend(comments(r, g.get('before', []), ind))
        L.append(ind + 'message %s {' % d['name'] + tail())
        slots = {}
        for x in g.get('option', []): slots.setdefault(r.randint(0, len(d['items'])), []).append(x)
        inner = {}
        for x in g.get('inner', []): inner.setdefault(id(r.choice(direct)), []).append(x)
        for i, x in enumerate(d['items'] + [None]):
            for t in slots.get(i, []): L.append('%s  option %s;%s' % (ind, t, tail()))
            if x is None: break
            item(x, ind + '  ', inner.get(id(x), []))
        L.append(ind + '}' + tail())
    def item(x, ind, inner=()):
        if x['k'] == 'enum': enum(x, ind)
        elif x['k'] == 'msg': message(x, ind)
        elif x['k'] == 'oneof':
            L.append(ind + 'oneof %s {' % x['name'] + tail())
            for y in x['fields']: field(y, ind + '  ')
            L.append(ind + '}')
        else: field(x, ind, inner)
    ways = ['option', 'top', 'before'] if notation is None else ['option'] if notation == 'bracket' else ['top', 'before']
    if notation is None and r.random() < 0.4: ways = [r.choice(ways)]
    g = deal(r, spell(r, f['o'], 'file'), ways)
    inc = '(spb_fileopt).include = "<ot_types.hpp>"'
    g.setdefault('option' if notation == 'bracket' else r.choice(ways), []).append(inc)
    L.extend(comments(r, g.get('top', []), ''))
    L.append('syntax = "proto%d";%s' % (2 if f['p2'] else 3, tail()))
    head = ['package %s;' % f['package']]
    if f['spb_import']: head.append('import "spb.proto";')
    for j in f['imports']: head.append('import "%s";' % p['files'][j]['path'])
    # imports before any option
    for x in head: L.append(x + tail())
    slots, before = {}, {}
    n = len(f['items'])
    for x in g.get('option', []): slots.setdefault(r.randint(0, n), []).append(x)
    for x in g.get('before', []): before.setdefault(r.randrange(n), []).append(x)
    for i, x in enumerate(f['items'] + [None]):
        for t in slots.get(i, []): L.append('option %s;%s' % (t, tail()))
        if x is None: break
        L.extend(comments(r, before.get(i, []), ''))
        item(x, '')
    return '\n'.join(L) + '\n'
def pre(e): return 'V_' + e['full'].replace('.', '_')

# ------------------------------------------------------------------------------------------ the model
INT_CPP = {('' if s else 'u') + 'int%d' % b: 'std::%sint%d_t' % ('' if s else 'u', b) for s in (0, 1) for b in (8, 16, 32, 64)}
DEFAULTS = {'string': 'std::string', 'bytes': 'std::vector<$>', 'optional': 'std::optional<$>', 'repeated': 'std::vector<$>', 'map': 'std::map<$,@>', 'pointer': 'std::unique_ptr<$>', 'enum': 'int32'}
def cname(full): return '::' + full.lstrip('.').replace('.', '::')
def wrapper(m, d): return 'repeated' if d['label'] == 'repeated' else 'pointer' if d['type'] == '.' + m['full'] else 'optional'
class Model:
    def __init__(self, p):
        self.p = p
        self.fields = []   # (file, message, field, oneof or None, index)
        self.enums = []
        self.kinds = {}
        for f in p['files']:
            for d in f['items']: self.walk(f, None, d)
    def walk(self, f, m, d):
        if d['k'] == 'enum': self.enums.append((f, m, d)); self.kinds['.' + d['full']] = 'enum'
        elif d['k'] == 'msg':
            self.kinds['.' + d['full']] = 'msg'
            for x in d['items']: self.walk(f, d, x)
        elif d['k'] == 'oneof':
            for i, x in enumerate(d['fields']): self.fields.append((f, m, x, d, i + 1))
        else: self.fields.append((f, m, d, None, 0))
    def eff(self, key, f, m, d=None):
        for scope in ([d['o']] if d else []) + [m['o'] if m else {}, f['o']]:
            if key in scope: return scope[key]
        return DEFAULTS.get(key)
    def base(self, f, m, d):
        t = d['type']
        if 'type' in d['o']: return INT_CPP[d['o']['type'].split(':')[0]]
        if t in ('string', 'bytes'): return self.eff(t, f, m, d).replace('$', 'char' if t == 'string' else 'std::byte')
        return cname(t) if t[0] == '.' else CPP[t]
    def ctype(self, f, m, d):
        if d['k'] == 'map': return self.eff('map', f, m, d).replace('@', cname(d['type']) if d['type'][0] == '.' else CPP[d['type']]).replace('$', CPP[d['key']])
        b = self.base(f, m, d)
        if d['label'] == 'required': return b
        return self.eff(wrapper(m, d), f, m, d).replace('$', b)
    def enum_type(self, f, m, e): return INT_CPP[e['opts']['type'] if 'type' in e['opts'] else self.eff('enum', f, m)]
    def packed(self, f, d): return d['o']['packed'] == 'true' if 'packed' in d['o'] else not f['p2']
    def packable(self, d): return d['type'] in CPP or self.kinds.get(d['type']) == 'enum'

def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
def why(M, key, f, m, d):
    """the scope an option comes from, for messages"""
    for n, s in (('field', d['o'] if d else {}), ('message', m['o'] if m else {}), ('file', f['o'])):
        if key in s: return n
    return 'none'
def check_source(p):
    """-> (C++ text, {line number: expected deprecated}, number of assertions)"""
    M = Model(p)
    A, R, T = [], [], []
    labels = {}
    def lab(x): labels[x] = labels.get(x, 0) + 1
    for f, m, e in M.enums:
        A.append('static_assert(std::is_same_v<std::underlying_type_t<%s>, %s>, %s);' % (cname(e['full']), M.enum_type(f, m, e), q('%s is not stored as %s' % (e['full'], M.enum_type(f, m, e)))))
        lab('enum type:' + ('enum' if 'type' in e['opts'] else why(M, 'enum', f, m, None)))
    done = set()
    for f, m, d, o, index in M.fields:
        mc = cname(m['full']); name = '%s.%s' % (m['full'], d['name'])
        key = d['o']['json_name'][1:-1] if 'json_name' in d['o'] else d['name']
        if o:
            if id(o) not in done:
                done.add(id(o))
                t = 'std::variant<std::monostate, %s>' % ', '.join(M.base(f, m, x) for x in o['fields'])
                A.append('static_assert(std::is_same_v<decltype(%s::%s), %s>, %s);' % (mc, o['name'], t, q('%s.%s is not %s' % (m['full'], o['name'], t))))
        else:
            t = M.ctype(f, m, d)
            A.append('static_assert(std::is_same_v<decltype(%s::%s), %s>, %s);' % (mc, d['name'], t, q('%s is not %s' % (name, t))))
            kind = 'map' if d['k'] == 'map' else 'plain' if d['label'] == 'required' else wrapper(m, d)
            lab('type:%s:%s' % (kind, why(M, kind if kind != 'plain' else d['type'] if d['type'] in ('string', 'bytes') else 'type', f, m, d)))
            T.append(('static void t%d(%s &m) { (void)m.%s; }' % (len(T), mc, d['name']), d['o'].get('deprecated') == 'true', name))
        if d['k'] == 'map': continue
        acc = 'm.%s' % d['name']
        isarr = 'std::array' in (d['o'].get('string', '') + d['o'].get('bytes', ''))
        if d['type'] in ('string', 'bytes') and not isarr:
            lim = M.eff('max_size', f, m, d)
            if o: st = 'fill(m.%s.emplace<%d>(), n);' % (o['name'], index)
            elif d['label'] == 'required': st = 'fill(%s, n);' % acc
            elif d['label'] == 'repeated': st = 'fill(%s.emplace_back(), n);' % acc
            else: st = 'fill(put(%s), n);' % acc
            R.append('size_limit<%s>(c, %s, %s, %d, %s, \'%s\', %s, [](%s &m, std::size_t n) { %s });' % (mc, q(name), -1 if lim is None else lim, d['number'], q(key), d['type'][0], 'true' if d['label'] == 'repeated' else 'false', mc, st))
            lab('max_size:' + why(M, 'max_size', f, m, d))
        if d['label'] == 'repeated' and not isarr:
            lim = M.eff('max_count', f, m, d)
            t = d['type']
            wt = FIXED.get(t, 0)
            if t in ('string', 'bytes') or M.kinds.get(t) == 'msg': item, js = 'varint(%d) + std::string(1, 0)' % (d['number'] << 3 | 2), {'string': '""', 'bytes': '""'}.get(t, '{}')
            else:
                item = 'varint(%d) + std::string(%d, 0)' % (d['number'] << 3 | wt, {0: 1, 1: 8, 5: 4}[wt])
                js = 'false' if t == 'bool' else '0'
                if M.kinds.get(t) == 'enum': js = q(pre(dict(full=t[1:])) + '_ZERO')
            R.append('count_limit<%s>(c, %s, %s, %s, %s, %s, [](%s &m) { m.%s.emplace_back(); });' % (mc, q(name), -1 if lim is None else lim, q(key), item, q(js), mc, d['name']))
            lab('max_count:' + why(M, 'max_count', f, m, d))
            if M.packable(d) and (lim is None or lim >= 2):
                R.append('{ %s m{}; m.%s.emplace_back(); m.%s.emplace_back(); packed(c, %s, m, %d, %s); }' % (mc, d['name'], d['name'], q(name), d['number'], 'true' if M.packed(f, d) else 'false'))
                lab('packed:%s' % d['o'].get('packed', 'default'))
        if 'bits' in d:
            b = d['bits']; s = INTS[d['type']][0]
            vals = [((1 << (b - 1)), -(1 << (b - 1)))] if s else [((1 << b) | 1 if b < 32 else 1, 1 if b > 0 else 0), ((1 << b) - 1, (1 << b) - 1)]
            if s: vals.append(((1 << (b - 1)) - 1, (1 << (b - 1)) - 1))
            for v, e in vals:
                w = int(d['o']['type'].split(':')[0].lstrip('uint'))
                if s and b == w: continue
                if not s and b == w and v >= 1 << w: continue
                R.append('{ %s m{}; volatile long long v = %dLL; m.%s = (decltype(m.%s))v; c.check((long long)m.%s == %dLL, %s); }' % (mc, v, d['name'], d['name'], d['name'], e, q('%s is not %d bits wide' % (name, b))))
            lab('bit field')
        if 'default' in d['o']:
            R.append('{ %s m{}; c.check(m.%s == %s, %s); }' % (mc, d['name'], d['o']['default'], q('%s does not start with %s' % (name, d['o']['default']))))
            lab('default')
        if 'json_name' in d['o'] or d['number'] % 3 == 0:
            lim = M.eff('max_count', f, m, d)
            t = d['type']
            st = None
            if o: st = 'm.%s.emplace<%d>()' % (o['name'], index)
            elif d['label'] == 'repeated': st = 'm.%s.emplace_back()' % d['name']
            elif d['label'] != 'required' and wrapper(m, d) == 'pointer': st = ('m.%s.emplace(%s())' if M.eff('pointer', f, m, d) != DEFAULTS['pointer'] else 'm.%s.reset(new %s())') % (d['name'], mc)
            elif d['label'] != 'required': st = 'm.%s.emplace(typename decltype(m.%s)::value_type())' % (d['name'], d['name'])
            elif t in ('string', 'bytes') and not isarr: st = 'fill(m.%s, 1)' % d['name']
            elif t[0] != '.' : st = '(void)0'
            if st and not (t[0] == '.' and M.kinds[t] == 'msg' and d['label'] == 'required'):
                R.append('{ %s m{}; %s; key(c, %s, m, %s); }' % (mc, st, q(name), q(key)))
                lab('json_name:%s' % ('given' if 'json_name' in d['o'] else 'none'))
    head = '#include "%s"\n' % (p['files'][-1]['path'][:-6] + '.pb.h') + ''.join('#include "%s"\n' % (f['path'][:-6] + '.pb.h') for f in p['files'][:-1]) + '#include "opt_check.hpp"\n#include <variant>\n#include <map>\nusing namespace oc;\nnamespace {\n'
    lines = head.split('\n')[:-1]
    lines += A
    dep = {}
    for text, expected, name in T:
        lines.append(text)
        dep[len(lines)] = (expected, name)
    lines += ['}', '#pragma GCC diagnostic ignored "-Wdeprecated-declarations"', 'namespace {', 'void run(Ctx &c)', '{'] + ['    ' + x for x in R] + ['    (void)c;', '}', 'Reg reg("%s", run);' % p['tag'], '}']
    return '\n'.join(lines) + '\n', dep, len(A) + len(R) + len(T), labels

# ------------------------------------------------------------------------------------------ running
FLAGS = ['-O0', '-g0']
INC = ['-I', os.path.join(VERIF, 'cpp'), '-I', os.path.join(VERIF, 'cpp/inc'), '-I', os.path.join(REPO, 'include')]
def make(seed, i):
    rng = random.Random('P21 %s %s' % (seed, i))
    return Make(rng, 'p%d' % i).project(), random.Random('P21 render %s %s' % (seed, i))
def front(exe, p, files, base):
    """-> (message or None)"""
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + '/src'); os.makedirs(base + '/gen')
    write_files(base + '/src', files)
    rc, text = spb(exe, base + '/src', sorted(files), base + '/gen')
    if rc != 0: return 'the schema is refused: exit %s\n%s' % (rc, text)
    src, dep, n, labels = check_source(p)
    open(base + '/check.cc', 'w').write(src)
    return None
def compile_job(j):
    src, obj, gen, extra = j
    r = build.run([CXX] + BASE + FLAGS + extra + INC + ['-I', gen, '-c', src, '-o', obj])
    return r.returncode, r.stderr.decode('utf-8', 'replace')
def jobs(p, base, pch):
    x = ['-include', pch] if pch else []
    return [(base + '/gen/' + f['path'][:-6] + '.pb.cc', base + '/%d.o' % k, base + '/gen', []) for k, f in enumerate(p['files'])] + [(base + '/check.cc', base + '/check.o', base + '/gen', x + ['-Wdeprecated-declarations'])]
def verdict(p, base, res):
    """-> message or None, from the results of compiling one project"""
    src, dep, n, labels = check_source(p)
    rc, err = res[-1]
    bad = re.findall(r'static assertion failed: (.*)', err)
    if bad: return '\n'.join(bad[:5])
    for rc, err in res:
        if rc: return 'the generated code does not compile\n' + err[:3000]
    seen = {int(l) for l in re.findall(r'check\.cc:(\d+):\d+: warning: [^\n]*deprecated', res[-1][1])}
    for line, (expected, name) in dep.items():
        if expected and line not in seen: return '%s is not deprecated' % name
        if not expected and line in seen: return '%s is deprecated' % name
    return None
def objects(p, base): return [base + '/%d.o' % k for k in range(len(p['files']))] + [base + '/check.o']
def link_run(objs, main, exe):
    r = build.run([CXX, '-o', exe, main] + objs)
    if r.returncode: return None, 'does not link\n' + r.stderr.decode('utf-8', 'replace')[:2000]
    try: r = build.run([exe], timeout=300)
    except subprocess.TimeoutExpired: return 1, 'the checks do not end within 300 seconds'
    return r.returncode, r.stdout.decode('utf-8', 'replace')
def single(exe, main, pch, p, files, base):
    """everything for one project -> message or None"""
    m = front(exe, p, files, base)
    if m: return m
    res = [compile_job(j) for j in jobs(p, base, pch)]
    m = verdict(p, base, res)
    if m: return m
    rc, out = link_run(objects(p, base), main, base + '/rt')
    if rc == 0: return None
    return '\n'.join([l for l in out.split('\n') if not l.startswith('DONE')][:6]) or 'exit %s' % rc
def prepare(work):
    d = work + '/ph'
    os.makedirs(d, exist_ok=True)
    open(d + '/pre.hpp', 'w').write('#include "opt_check.hpp"\n#include <variant>\n#include <map>\n#include <memory>\n')
    cs = [['-x', 'c++-header', d + '/pre.hpp', '-o', d + '/pre.hpp.gch'], ['-c', os.path.join(VERIF, 'cpp/opt_main.cpp'), '-o', d + '/main.o']]
    def go(c):
        r = build.run([CXX] + BASE + FLAGS + ['-Wdeprecated-declarations'] * 0 + INC + c)
        if r.returncode: raise build.HarnessError('harness does not compile\n' + r.stderr.decode('utf-8', 'replace')[:3000])
    with cf.ThreadPoolExecutor(2) as ex: list(ex.map(go, cs))
    return d + '/main.o', d + '/pre.hpp'

def smaller(p):
    def at(q, path):
        for k in path: q = q[k]
        return q
    spots = []
    def walk(items, path):
        for i, d in enumerate(items):
            spots.append((path, i))
            for k in ('items', 'fields'):
                if k in d: walk(d[k], path + [i, k])
    used = lambda q: repr(q)
    for i in range(len(p['files'])):
        if len(p['files']) > 1 and i == len(p['files']) - 1:
            q2 = copy.deepcopy(p); del q2['files'][i]; yield q2
        if len(p['files']) > 1 and i == 0 and p['files'][0]['package'] + '.' not in repr(p['files'][1]['items']):
            q2 = copy.deepcopy(p); del q2['files'][0]; q2['files'][0]['imports'] = []; yield q2
    for i, f in enumerate(p['files']): walk(f['items'], ['files', i, 'items'])
    for path, i in spots:
        d = at(p, path)[i]
        q2 = copy.deepcopy(p); del at(q2, path)[i]
        if 'full' in d and re.search(re.escape("'." + d['full']) + r"['.]", repr(q2)): continue
        if path[-1] == 'fields' and not at(q2, path): continue
        if len(path) == 3 and not at(q2, path): continue
        yield q2
    for path, i in spots + [(['files'], k) for k in range(len(p['files']))]:
        d = at(p, path)[i]
        for key in ('o', 'opts'):
            for k in d.get(key, {}):
                if k == 'type' and 'bits' in d: continue
                q2 = copy.deepcopy(p); del at(q2, path)[i][key][k]; yield q2

def report(exe, main, pch, p, files, msg, work, seeds, sub):
    count = [0]
    def test(q, s):
        count[0] += 1
        base = '%s/shr/%d' % (work, count[0])
        try: m = single(exe, main, pch, q, render(q, random.Random(s), None), base)
        except (KeyError, IndexError): m = None
        shutil.rmtree(base, ignore_errors=True)
        return m
    def bad(q): return next((s for s in seeds if test(q, s)), None)
    hit = bad(p)
    if hit is not None:
        p = cp.shrink(p, lambda q: bad(q) is not None, 60, smaller=smaller)
        hit = bad(p)
        if hit is not None:
            files = render(p, random.Random(hit), None)
            msg = test(p, hit) or msg
    raise Violation('%s\n%s' % (msg, show_files(files)), dict(sub=sub, project=p, files=files, message=msg))

# ------------------------------------------------------------------------------------------ notations
def normal(out):
    """generated headers are sorted by nothing an option notation may change"""
    return {k: tokens(v.decode('utf-8', 'replace')) for k, v in out.items()}
JOB = {}
def notation_case(i):
    seed, exe, work = JOB['seed'], JOB['exe'], JOB['work']
    if JOB.get('pid') != os.getpid(): JOB.update(pid=os.getpid(), box=Box('%s/n%d' % (work, os.getpid())))
    p = Make(random.Random('P21n %s %s' % (seed, i)), 'n').project()
    return (i,) + notation_compare(exe, JOB['box'], p, ['P21n %s %s a' % (seed, i), 'P21n %s %s b' % (seed, i)])
def notation_compare(exe, box, p, seeds):
    outs = []
    texts = []
    for how, s in ((None, seeds[0]), ('bracket', seeds[1]), ('comment', seeds[1]), (None, seeds[1])):
        files = render(p, random.Random(s), how)
        d = box.dir()
        write_files(d + '/src', files)
        rc, text = spb(exe, d + '/src', sorted(files), d + '/out')
        if rc != 0: return 'the schema is refused: %s' % text, files, files
        out = {}
        for b, _, fs in os.walk(d + '/out'):
            for x in fs: out[x] = open(os.path.join(b, x), 'rb').read()
        outs.append(normal(out)); texts.append(files)
    for a, t in zip(outs[1:], texts[1:]):
        if a != outs[0]:
            k = next(k for k in outs[0] if a.get(k) != outs[0][k])
            x, y = outs[0][k], a.get(k, [])
            j = next((j for j, (u, v) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
            return '%s: "%s" against "%s"' % (k, ' '.join(x[max(0, j - 14):j + 10]), ' '.join(y[max(0, j - 14):j + 10])), texts[0], t
    return None, texts[0], texts[1]
def notations(exe, work, seed, n):
    st = Stats('notations', 'a schema with at least one option, generated from four different notations (its text)')
    JOB.update(seed=seed, exe=exe, work=work)
    with cf.ProcessPoolExecutor(build.JOBS, multiprocessing.get_context('fork')) as ex:
        for i, msg, a, b in ex.map(notation_case, range(n), chunksize=8):
            if msg:
                p = Make(random.Random('P21n %s %s' % (seed, i)), 'n').project()
                seeds = ['P21n %s %s a' % (seed, i), 'P21n %s %s b' % (seed, i)]
                boxes = [Box('%s/s%d' % (work, k)) for k in range(1)]
                lockbox = boxes[0]
                def bad(q):
                    try: return any(notation_compare(exe, lockbox, q, [s + x for s in seeds])[0] for x in ('', '1', '2'))
                    except (KeyError, IndexError): return False
                if bad(p):
                    p = cp.shrink(p, bad, 60, 1, smaller)
                    for x in ('', '1', '2'):
                        m2, a2, b2 = notation_compare(exe, lockbox, p, [s + x for s in seeds])
                        if m2: msg, a, b, seeds = m2, a2, b2, [s + x for s in seeds]; break
                raise Violation('the notation of an option matters: %s\n== one\n%s== other\n%s' % (msg, show_files(a), show_files(b)), dict(sub='notations', project=p, seeds=seeds, one=a, other=b))
            st.case(sha(repr(a)) if '[[' in repr(a) or 'opt' in repr(a) else None, 'files:%d' % len(a), show_files(a)[:400])
    return st

def check(tier, seed, work, t0, scale, sub=None):
    exe, _, _ = cp.setup(work, False)
    out = []
    if sub in (None, 'notations'):
        out.append(notations(exe, work, seed, max(1, int(600 * scale * (1 if tier == 'quick' else 20)))).evidence())
    if sub in (None, 'effects'):
        main, pch = prepare(work)
        st = Stats('effects', 'an assertion on a generated type, a limit, a default, packing or a name, in a schema with at least one option (schema and assertion)')
        batch = 36
        batches = 1 if tier == 'quick' else 20
        if scale != 1: batches = max(1, int(batches * scale))
        for b in range(batches):
            ps = []
            for i in range(b * batch, (b + 1) * batch):
                p, r = make(seed, i)
                ps.append((i, p, render(p, r), '%s/e/%d' % (work, i)))
            with cf.ThreadPoolExecutor(build.JOBS) as ex: ms = list(ex.map(lambda x: front(exe, x[1], x[2], x[3]), ps))
            for (i, p, files, base), m in zip(ps, ms):
                if m: report(exe, main, pch, p, files, m, work, ['P21 render %s %s' % (seed, i), 'r1', 'r2'], 'effects')
            js = [(k, j) for k, (i, p, files, base) in enumerate(ps) for j in jobs(p, base, pch)]
            with cf.ThreadPoolExecutor(build.JOBS) as ex: rs = list(ex.map(lambda x: compile_job(x[1]), js))
            for k, (i, p, files, base) in enumerate(ps):
                m = verdict(p, base, [r for (kk, j), r in zip(js, rs) if kk == k])
                if m: report(exe, main, pch, p, files, m, work, ['P21 render %s %s' % (seed, i), 'r1', 'r2'], 'effects')
            rc, text = link_run([o for i, p, files, base in ps for o in objects(p, base)], main, work + '/e/rt')
            if rc is None: raise Violation(text, dict(sub='effects', files={}))
            if rc != 0:
                m = re.search(r'^FAIL (\w+): (.*)', text, re.M)
                hit = next((x for x in ps if m and x[1]['tag'] == m.group(1)), None)
                if hit is None: raise Violation('the checks end with %s\n%s' % (rc, text[-2000:]), dict(sub='effects', files={k: v for x in ps for k, v in x[2].items()}))
                report(exe, main, pch, hit[1], hit[2], m.group(2), work, ['P21 render %s %s' % (seed, hit[0]), 'r1', 'r2'], 'effects')
            for i, p, files, base in ps:
                src, dep, n, labels = check_source(p)
                key = sha(repr(files))
                for a in range(n): st.case('%s %d' % (key, a), None, show_files(files)[:500] if a == 0 else None)
                for k, v in labels.items(): st.labels[k] = st.labels.get(k, 0) + v
                shutil.rmtree(base, ignore_errors=True)
        out.append(st.evidence())
    return out

def replay(data, work):
    exe, _, _ = cp.setup(work, False)
    if data['sub'] == 'notations':
        m = notation_compare(exe, Box(work), data['project'], data['seeds'])[0]
        # the stored texts as well
        print(m or 'holds')
        return 1 if m else 0
    main, pch = prepare(work)
    m = single(exe, main, pch, data['project'], data['files'], work + '/replay')
    print(m or 'holds')
    return 1 if m else 0
