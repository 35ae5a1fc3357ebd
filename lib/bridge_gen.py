#!/usr/bin/env python3
"""Generates the C++ bridge (generated struct <-> value tree) for .proto files.

Reads a textual FileDescriptorSet (protoc --decode output) and writes X.bridge.h / X.bridge.cc next
to it.  Knows only the documented type mapping of spb-protoc.
"""
import re, sys, os

KEYWORDS = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t
char32_t class compl concept const consteval constexpr constinit const_cast continue co_await co_return co_yield
decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if
inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public
register reinterpret_cast requires return short signed sizeof static static_assert static_cast struct switch
template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile
wchar_t while xor xor_eq""".split())

def cpp(name):
    return name + '_' if name in KEYWORDS else name

# ---- text format ---------------------------------------------------------------------------------
TOK = re.compile(r'\s*(?:(?P<str>"(?:[^"\\]|\\.)*")|(?P<sym>[{}\[\]:<>,;])|(?P<id>[^\s{}\[\]:<>,;"]+))')
def parse_text(text):
    pos = 0
    toks = []
    n = len(text)
    while pos < n:
        m = TOK.match(text, pos)
        if not m:
            break
        pos = m.end()
        toks.append(m.group('str') or m.group('sym') or m.group('id'))
    i = 0
    def msg(end):
        nonlocal i
        out = []
        while i < len(toks) and toks[i] != end:
            name = toks[i]; i += 1
            if name == '[':
                name = ''
                while toks[i] != ']':
                    name += toks[i]; i += 1
                i += 1
            if toks[i] == ':':
                i += 1
            if toks[i] == '{':
                i += 1
                v = msg('}')
                i += 1
            else:
                v = toks[i]; i += 1
                if v.startswith('"'):
                    v = unesc(v[1:-1])
            out.append((name, v))
        return out
    return msg(None)
def unesc(s):
    def r(m):
        c = m.group(1)
        if c[0] in '01234567': return chr(int(c, 8))
        return {'n': '\n', 't': '\t', 'r': '\r'}.get(c, c)
    return re.sub(r'\\([0-7]{1,3}|.)', r, s).encode('latin-1').decode('utf-8')
def get(m, k, d=None):
    for n, v in m:
        if n == k: return v
    return d
def allof(m, k):
    return [v for n, v in m if n == k]

# ---- model ---------------------------------------------------------------------------------------
KIND = dict(DOUBLE='Double', FLOAT='Float', INT32='Int32', INT64='Int64', UINT32='UInt32', UINT64='UInt64', SINT32='SInt32', SINT64='SInt64',
            FIXED32='Fixed32', FIXED64='Fixed64', SFIXED32='SFixed32', SFIXED64='SFixed64', BOOL='Bool', STRING='String', BYTES='Bytes',
            ENUM='Enum', MESSAGE='Message')

def opts(m, *names):
    o = get(m, 'options', [])
    out = {}
    for n, v in o:
        for want in names:
            if n.split('.')[-1] == want and isinstance(v, list):
                for k, x in v: out[k] = x
    return out

class Gen:
    def __init__(self, desc, only):
        self.files = [f for f in allof(desc, 'file')]
        self.only = only
        self.msgs = {}    # full -> (msg, file, cppname)
        self.enums = {}
        for f in self.files:
            pkg = get(f, 'package', '')
            for m in allof(f, 'message_type'): self.walk(f, m, pkg, '::' + '::'.join(cpp(x) for x in pkg.split('.')) if pkg else '')
            for e in allof(f, 'enum_type'):
                self.enums[(pkg + '.' if pkg else '') + get(e, 'name')] = (e, f, ('::' + '::'.join(cpp(x) for x in pkg.split('.')) if pkg else '') + '::' + cpp(get(e, 'name')), [])
    def walk(self, f, m, scope, cscope, parents=()):
        full = (scope + '.' if scope else '') + get(m, 'name')
        cn = cscope + '::' + cpp(get(m, 'name'))
        self.msgs[full] = (m, f, cn)
        for s in allof(m, 'nested_type'): self.walk(f, s, full, cn)
        for e in allof(m, 'enum_type'):
            self.enums[full + '.' + get(e, 'name')] = (e, f, cn + '::' + cpp(get(e, 'name')), m)
    @staticmethod
    def mangle(full): return full.replace('_', '_u').replace('.', '_d')
    def is_map_entry(self, full):
        m = self.msgs[full][0]
        return get(get(m, 'options', []), 'map_entry') == 'true'

    def field_info(self, f, m, fd, file_opts, msg_opts):
        syntax = 3 if get(f, 'syntax') == 'proto3' else 2
        t = get(fd, 'type')[5:]
        fo = opts(fd, 'spb_opt')
        label = get(fd, 'label')
        req = label == 'LABEL_REQUIRED'
        rep = label == 'LABEL_REPEATED'
        d = dict(number=int(get(fd, 'number')), name='"%s"' % get(fd, 'name'), json_name='"%s"' % get(fd, 'json_name', '').replace('\\', '\\\\').replace('"', '\\"'), kind='Kind::' + KIND[t])
        base = get(fd, 'name'); camel = re.sub(r'_+(.?)', lambda x: x.group(1).upper(), base)
        if get(fd, 'json_name') != camel: d['json_explicit'] = 'true'
        card = 'Plain' if req else 'Repeated' if rep else 'Optional'
        oneof = get(fd, 'oneof_index')
        p3opt = get(fd, 'proto3_optional') == 'true'
        is_map = False
        value_fd, value_kind = fd, t
        if t == 'MESSAGE':
            full = get(fd, 'type_name').lstrip('.')
            if rep and self.is_map_entry(full):
                is_map = True
                card = 'Map'
                e = self.msgs[full][0]
                kf, vf = allof(e, 'field')
                d['key'] = 'Kind::' + KIND[get(kf, 'type')[5:]]
                value_kind = get(vf, 'type')[5:]
                value_fd = vf
                d['kind'] = 'Kind::' + KIND[value_kind]
        if oneof is not None and not p3opt:
            card = 'OneofMember'
            # index among the real oneofs
            d['oneof'] = oneof
            d['oneof_name'] = '"%s"' % get(allof(m, 'oneof_decl')[int(oneof)], 'name')
        d['card'] = 'Card::' + card
        if card == 'Optional' and syntax == 3 and not p3opt and t != 'MESSAGE': d['implicit'] = 'true'
        def scoped(k):
            for o in (fo, msg_opts, file_opts):
                if k in o: return o[k]
            return None
        if value_kind == 'ENUM':
            full = get(value_fd, 'type_name').lstrip('.')
            d['en'] = '&ei_' + self.mangle(full)
            bits, sg = self.enum_type(full)
            d['bits'] = bits; d['sgn'] = 'true' if sg else 'false'
        if value_kind == 'MESSAGE': d['msg'] = '&mi_' + self.mangle(get(value_fd, 'type_name').lstrip('.'))
        if rep and not is_map and t not in ('STRING', 'BYTES', 'MESSAGE'):
            pk = get(get(fd, 'options', []), 'packed')
            d['packed'] = 'true' if (pk == 'true' or (pk is None and syntax == 3)) else 'false'
        ints = {'INT32': 32, 'SINT32': 32, 'SFIXED32': 32, 'INT64': 64, 'SINT64': 64, 'SFIXED64': 64, 'UINT32': 32, 'FIXED32': 32, 'UINT64': 64, 'FIXED64': 64}
        bitfield = False
        if value_kind in ints:
            bits = ints[value_kind]; sg = value_kind[0] in 'IS'
            ty = fo.get('type') if not is_map else None
            if ty:
                mm = re.match(r'(u?)int(\d+)(?::(\d+))?$', ty)
                bits = int(mm.group(2)); sg = not mm.group(1)
                if mm.group(3): bits = int(mm.group(3)); bitfield = True
            d['bits'] = bits; d['sgn'] = 'true' if sg else 'false'
        if bitfield: d['bitfield'] = 'true'
        if get(fd, 'default_value') is not None: d['has_default'] = 'true'
        if not is_map:
            for k in ('max_size', 'max_count'):
                v = scoped(k)
                if v is None: continue
                if k == 'max_size' and t not in ('STRING', 'BYTES'): continue
                if k == 'max_count' and not rep: continue
                d[k] = v
            def last_num(s):
                nums = re.findall(r'[<,]\s*(\d+)\s*>', s or '')
                return int(nums[-1]) if nums else 0
            if t in ('STRING', 'BYTES'):
                ct = scoped('string' if t == 'STRING' else 'bytes')
                if ct and 'array' in ct: d['fixed_len'] = last_num(ct)
                elif ct and ct.startswith('fixed_'): d['fixed_len'] = last_num(ct)
                elif ct and 'etl::' in ct: d['cap_len'] = last_num(ct)
            if rep:
                ct = scoped('repeated')
                if ct and 'array' in ct: d['fixed_count'] = last_num(ct)
                elif ct and 'etl::' in ct: d['cap_count'] = last_num(ct)
        else:
            ct = scoped('map')
            if ct and 'unordered' in ct: d['unordered'] = 'true'
            if ct and 'etl::' in ct:
                nums = re.findall(r',\s*(\d+)\s*>', ct)
                d['cap_count'] = int(nums[-1]) if nums else 0
                if 'unordered' in ct: d['unordered'] = 'true'
        return d, card
    def enum_type(self, full):
        e, f, cn, parent = self.enums[full]
        ty = opts(e, 'spb_enumopt').get('type') or opts(parent, 'spb_msgopt').get('enum') or opts(f, 'spb_fileopt').get('enum') or 'int32'
        mm = re.match(r'(u?)int(\d+)$', ty)
        return int(mm.group(2)), not mm.group(1)

    def emit_file(self, f, base):
        h = ['#pragma once', '#include "%s.pb.h"' % base, '#include "tree.hpp"']
        for dep in allof(f, 'dependency'):
            b = re.sub(r'\.proto$', '', dep)
            if dep.endswith('spb.proto') or dep.endswith('nanopb.proto') or 'google/' in dep: continue
            h.append('#include "%s.bridge.h"' % b)
        h.append('namespace br {')
        c = ['#include "%s.bridge.h"' % base, '#include "ops_impl.hpp"', 'namespace br {']
        fopts = opts(f, 'spb_fileopt')
        for full, (e, ef, cn, parent) in self.enums.items():
            if ef is not f: continue
            fn = 'ei_' + self.mangle(full)
            h.append('const EnumInfo &%s();' % fn)
            bits, sg = self.enum_type(full)
            vals = ', '.join('{"%s", %s}' % (get(v, 'name'), '(-2147483647-1)' if int(get(v, 'number', '0')) == -2147483648 else get(v, 'number', '0')) for v in allof(e, 'value'))
            c.append('const EnumInfo &%s() { static const EnumInfo i{"%s", {%s}, %d, %s}; return i; }' % (fn, full, vals, bits, 'true' if sg else 'false'))
        regs = []
        for full, (m, mf, cn) in self.msgs.items():
            if mf is not f or self.is_map_entry(full): continue
            fn = 'mi_' + self.mangle(full)
            h.append('const MsgInfo &%s();' % fn)
            h.append('void get_msg(const %s &v, Msg &m);' % cn)
            h.append('void set_msg(%s &v, const Msg &m);' % cn)
            mo = opts(m, 'spb_msgopt')
            infos = []
            for fd in allof(m, 'field'):
                d, card = self.field_info(f, m, fd, fopts, mo)
                infos.append((fd, d, card))
            c.append('const MsgInfo &%s() {' % fn)
            c.append('  static const MsgInfo i = [] { MsgInfo r; r.full = "%s"; r.syntax = %d; r.oneofs = %d; FieldInfo f;' %
                     (full, 3 if get(f, 'syntax') == 'proto3' else 2, len({d['oneof'] for _, d, _ in infos if 'oneof' in d})))
            for fd, d, card in infos:
                c.append('    f = FieldInfo(); ' + ' '.join('f.%s = %s;' % kv for kv in d.items()) + ' r.f.push_back(f);')
            c.append('    return r; }();\n  return i;\n}')
            c.append('void get_msg([[maybe_unused]] const %s &v, Msg &m) {\n  m = Msg(); m.t = &%s(); m.f.resize(%d);' % (cn, fn, len(infos)))
            sets = []
            one = {}
            for i, (fd, d, card) in enumerate(infos):
                n = cpp(get(fd, 'name'))
                if card == 'OneofMember':
                    one.setdefault(d['oneof_name'].strip('"'), []).append(i)
                    k = len(one[d['oneof_name'].strip('"')])
                    on = cpp(d['oneof_name'].strip('"'))
                    c.append('  if (v.%s.index() == %d) vget(std::get<%d>(v.%s), m.f[%d].v.emplace_back());' % (on, k, k, on, i))
                    sets.append('  if (!m.f[%d].v.empty()) vset(v.%s.template emplace<%d>(), m.f[%d].v[0]);' % (i, on, k, i))
                elif 'bitfield' in d:
                    c.append('  { auto t = v.%s; fget(t, m.f[%d]); }' % (n, i))
                    sets.append('  { decltype(v.%s) t{}; fset(t, m.f[%d]); v.%s = t; }' % (n, i, n))
                else:
                    c.append('  fget(v.%s, m.f[%d]);' % (n, i))
                    if card == 'Map': c.append('  sort_map(m.f[%d], %s);' % (i, d['key']))
                    sets.append('  fset(v.%s, m.f[%d]);' % (n, i))
            c.append('}')
            c.append('void set_msg([[maybe_unused]] %s &v, [[maybe_unused]] const Msg &m) {' % cn)
            for on in one: c.append('  v.%s.template emplace<0>();' % cpp(on))
            c += sets
            c.append('}')
            regs.append('static Registrar reg_%s(make_ops<%s>("%s", &%s));' % (self.mangle(full), cn, full, fn))
        h.append('}')
        c += regs
        c.append('}')
        return '\n'.join(h) + '\n', '\n'.join(c) + '\n'

def run(desc_text, outdir, only):
    g = Gen(parse_text(desc_text), only)
    made = []
    for f in g.files:
        name = get(f, 'name')
        if name not in only: continue
        base = re.sub(r'\.proto$', '', name)
        h, c = g.emit_file(f, base)
        os.makedirs(os.path.dirname(os.path.join(outdir, base)) or '.', exist_ok=True)
        open(os.path.join(outdir, base + '.bridge.h'), 'w').write(h)
        open(os.path.join(outdir, base + '.bridge.cc'), 'w').write(c)
        made.append(base)
    return made

if __name__ == '__main__':
    run(sys.stdin.read(), sys.argv[1], sys.argv[2:])
