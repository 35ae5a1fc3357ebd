#!/usr/bin/env python3
"""Writes proto/types.proto: messages with custom container and integer types and, for each message X, a twin XD with
the default mapping (same field numbers, names and wire types)."""
import os, re
out = []
OUT = {}
def file(name):
    OUT[name] = []
    global out
    out = OUT[name]
def msg(name, fields, opt='', twin_enum=lambda t: t):
    """fields: (label, type, name, number, options, twin options)"""
    def line(l, t, n, num, o):
        return '  %s%s %s = %d%s;' % (l + ' ' if l else '', t, n, num, ' [%s]' % ', '.join(o) if o else '')
    a = ['message %s {' % name] + ([opt] if opt else [])
    b = ['message %sD {' % name]
    for f in fields:
        if f[0] == 'oneof':
            a.append('  oneof %s {' % f[1]); b.append('  oneof %s {' % f[1])
            for (t, n, num, o) in f[2]:
                a.append('  ' + line('', t, n, num, o)); b.append('  ' + line('', twin(t), n, num, []))
            a.append('  }'); b.append('  }')
            continue
        l, t, n, num, o = f
        keep = [x for x in o if x.startswith('packed')]
        a.append(line(l, t, n, num, o)); b.append(line(l, twin(t), n, num, keep))
    out.append('\n'.join(a + ['}'] + b + ['}']) + '\n')
TW = {}
def twin(t):
    for k, v in TW.items():
        t = re.sub(r'\b%s\b' % k, v, t)
    return t
def enum(name, ty, values):
    out.append('enum %s { option (spb_enumopt).type = "%s"; %s }' % (name, ty, ' '.join('%s_%s = %d;' % (name, k, v) for k, v in values)))
    out.append('enum %sD { %s }\n' % (name, ' '.join('%sD_%s = %d;' % (name, k, v) for k, v in values)))
    TW[name] = name + 'D'
S = '(spb_opt).%s = "%s"'
# narrow integers
kinds = ['int32', 'uint32', 'sint32', 'fixed32', 'sfixed32', 'int64', 'uint64', 'sint64', 'fixed64', 'sfixed64']
def ty(k, b): return ('u' if k.startswith('u') or k.startswith('f') else '') + 'int%d' % b
file('ty_narrow')
fs = []; num = 1
for k in kinds:
    for b in (8, 16):
        for l, p in (('required', 0), ('optional', 0), ('repeated', 0), ('repeated', 1)):
            fs.append((l, k, '%s_%d_%s%s' % (k, b, l[:3], 'p' if p else ''), num, [S % ('type', ty(k, b))] + (['packed = true'] if p else []))); num += 1
for k in [x for x in kinds if '64' in x]:
    for l, p in (('required', 0), ('repeated', 1)):
        fs.append((l, k, '%s_32_%s%s' % (k, l[:3], 'p' if p else ''), num, [S % ('type', ty(k, 32))] + (['packed = true'] if p else []))); num += 1
msg('Narrow', fs)
msg('NarrowOneof', [('oneof', 'pick', [(k, 'c_%s_%d' % (k, b), 1 + i * 2 + j, [S % ('type', ty(k, b))]) for i, k in enumerate(kinds) for j, b in enumerate((8, 16))]),
                    ('optional', 'int32', 'tail', 100, [])])
# bit fields
file('ty_bits')
fs = []; num = 1
for k in kinds:
    u = k.startswith('u') or k.startswith('f')
    w = 64 if '64' in k else 32
    for base, bits in ((8, 1), (8, 2), (8, 7), (8, 8), (16, 3), (16, 9), (16, 16), (32, 1), (32, 5), (32, 17), (32, 31), (32, 32), (64, 33), (64, 48), (64, 63), (64, 64), (64, 1)):
        if base > w or (bits == 1 and not u and base == 64): continue
        fs.append(('required', k, 'b_%s_%d_%d' % (k, base, bits), num, [S % ('type', '%sint%d:%d' % ('u' if u else '', base, bits))])); num += 1
msg('Bits', fs)
# narrow enums
file('ty_enums')
for n, t, vals in (('E8', 'int8', [('A', 0), ('B', 1), ('MAX', 127), ('MIN', -128)]), ('EU8', 'uint8', [('A', 0), ('B', 1), ('H', 128), ('MAX', 255)]),
                   ('E16', 'int16', [('A', 0), ('B', 300), ('MAX', 32767), ('MIN', -32768)]), ('EU16', 'uint16', [('A', 0), ('H', 32768), ('MAX', 65535)]),
                   ('E32', 'int32', [('A', 0), ('MAX', 2147483647), ('MIN', -2147483648)])):
    enum(n, t, vals)
fs = []; num = 1
for e in ('E8', 'EU8', 'E16', 'EU16', 'E32'):
    for l, p in (('required', 0), ('optional', 0), ('repeated', 0), ('repeated', 1)):
        fs.append((l, e, '%s_%s%s' % (e.lower(), l[:3], 'p' if p else ''), num, ['packed = true'] if p else [])); num += 1
    fs.append(('', 'map<int32, %s>' % e, '%s_map' % e.lower(), num, [])); num += 1
fs.append(('oneof', 'pick', [(e, 'c_' + e.lower(), num + i, []) for i, e in enumerate(('E8', 'EU8', 'E16', 'EU16', 'E32'))]))
msg('Enums', fs)
# enums with many values
enum('E8L', 'int8', [('V%d' % i, i) for i in range(90)] + [('N%d' % i, -i) for i in range(90, 129)])
enum('EU8L', 'uint8', [('V%d' % i, i) for i in range(256)])
enum('EU16L', 'uint16', [('V%d' % i, i * 7 % 4096) for i in range(300)] + [('MAX', 65535)])
fs = []; num = 1
for e in ('E8L', 'EU8L', 'EU16L'):
    for l, p in (('required', 0), ('optional', 0), ('repeated', 0), ('repeated', 1)):
        fs.append((l, e, '%s_%s%s' % (e.lower(), l[:3], 'p' if p else ''), num, ['packed = true'] if p else [])); num += 1
    fs.append(('', 'map<int32, %s>' % e, '%s_map' % e.lower(), num, [])); num += 1
fs.append(('oneof', 'pick', [(e, 'c_' + e.lower(), num + i, []) for i, e in enumerate(('E8L', 'EU8L', 'EU16L'))]))
msg('EnumsL', fs)
# fixed arrays
file('ty_fixed')
scal = ['double', 'float'] + kinds + ['bool']
msg('FixedArrays', [('repeated', k, 'a_' + k, 1 + i, [S % ('repeated', 'std::array<$, %d>' % (1 + i % 4)), 'packed = true']) for i, k in enumerate(scal)] +
    [('repeated', k, 'b_' + k, 31 + i, [S % ('repeated', 'std::array<$, 5>'), S % ('type', ty(k, 8)), 'packed = true']) for i, k in enumerate(kinds)])
msg('FixedText', [('required', 'string', 's1', 1, [S % ('string', 'std::array<$, 1>')]), ('optional', 'string', 's4', 2, [S % ('string', 'std::array<$, 4>')]),
                  ('repeated', 'string', 's8', 3, [S % ('string', 'std::array<$, 8>')]), ('required', 'bytes', 'b1', 4, [S % ('bytes', 'std::array<$, 1>')]),
                  ('optional', 'bytes', 'b4', 5, [S % ('bytes', 'std::array<$, 4>')]), ('repeated', 'bytes', 'b6', 6, [S % ('bytes', 'std::array<$, 6>')]),
                  ('optional', 'bytes', 'b5', 7, [S % ('bytes', 'std::array<$, 5>')]), ('optional', 'string', 's300', 8, [S % ('string', 'std::array<$, 300>')]),
                  ('optional', 'bytes', 'b300', 9, [S % ('bytes', 'std::array<$, 300>')]),
                  ('oneof', 'pick', [('string', 'cs3', 10, [S % ('string', 'std::array<$, 3>')]), ('bytes', 'cb3', 11, [S % ('bytes', 'std::array<$, 3>')]), ('int32', 'ci', 12, [])])])
# embedded containers
TW['FlatItem'] = 'FlatItemD'
msg('FlatItem', [('required', 'sint32', 'id', 1, []), ('optional', 'string', 'tag', 2, [S % ('string', 'std::array<$, 2>')])])
msg('Flat', [('required', k, 'r_' + k, 1 + i, []) for i, k in enumerate(scal)] + [('optional', k, 'o_' + k, 21 + i, []) for i, k in enumerate(scal)] +
    [('optional', 'FlatItem', 'item', 41, []), ('required', 'FlatItem', 'ritem', 42, []), ('repeated', 'FlatItem', 'items', 43, [S % ('repeated', 'etl::vector<$, 3>')]),
     ('oneof', 'pick', [(k, 'c_' + k, 51 + i, []) for i, k in enumerate(scal)] + [('FlatItem', 'c_item', 71, [])])])
file('ty_etl')
TW['EtlItem'] = 'EtlItemD'
msg('EtlItem', [('optional', 'int32', 'id', 1, []), ('optional', 'string', 'name', 2, [S % ('string', 'etl::string<12>')])])
fs = []; num = 1
for i, k in enumerate(scal):
    fs.append(('repeated', k, 'v_' + k, num, [S % ('repeated', 'etl::vector<$, %d>' % (3 + i))])); num += 1
    fs.append(('repeated', k, 'p_' + k, num, [S % ('repeated', 'etl::vector<$, %d>' % (2 + i)), 'packed = true'])); num += 1
fs += [('optional', 'string', 's', num, [S % ('string', 'etl::string<16>')]), ('required', 'string', 'rs', num + 1, [S % ('string', 'etl::string<5>')]),
       ('repeated', 'string', 'vs', num + 2, [S % ('string', 'etl::string<7>'), S % ('repeated', 'etl::vector<$, 4>')]),
       ('optional', 'bytes', 'b', num + 3, [S % ('bytes', 'etl::vector<$, 10>')]), ('required', 'bytes', 'rb', num + 4, [S % ('bytes', 'etl::vector<$, 4>')]),
       ('repeated', 'bytes', 'vb', num + 5, [S % ('bytes', 'etl::vector<$, 6>'), S % ('repeated', 'etl::vector<$, 3>')]),
       ('repeated', 'EtlItem', 'items', num + 6, [S % ('repeated', 'etl::vector<$, 3>')]),
       ('optional', 'EtlItem', 'item', num + 7, []), ('optional', 'int32', 'oi', num + 8, []),
       ('repeated', 'E8', 've', num + 9, [S % ('repeated', 'etl::vector<$, 4>')]),
       ('', 'map<int32, int32>', 'm', num + 10, [S % ('map', 'etl::map<$, @, 5>')]), ('', 'map<uint32, bool>', 'um', num + 11, [S % ('map', 'etl::unordered_map<$, @, 6>')]),
       ('oneof', 'pick', [('string', 'cs', num + 12, [S % ('string', 'etl::string<9>')]), ('bytes', 'cb', num + 13, [S % ('bytes', 'etl::vector<$, 8>')]), ('EtlItem', 'ci', num + 14, [])])]
msg('Etl', fs)
# other standard containers
file('ty_std')
TW['StdItem'] = 'StdItemD'
msg('StdItem', [('optional', 'int32', 'id', 1, []), ('repeated', 'string', 'tags', 2, [S % ('repeated', 'std::list<$>')])])
fs = []; num = 1
for k in scal + ['string', 'bytes', 'StdItem', 'E16']:
    for c in ('list', 'deque')[scal.index(k) % 2 if k in scal else 0:][:1 if k in scal else 2]:
        fs.append(('repeated', k, '%s_%s' % (c[0], k.lower()), num, [S % ('repeated', 'std::%s<$>' % c)])); num += 1
        if k not in ('string', 'bytes', 'StdItem'):
            fs.append(('repeated', k, '%sp_%s' % (c[0], k.lower()), num, [S % ('repeated', 'std::%s<$>' % c), 'packed = true'])); num += 1
for i, (a, b) in enumerate((('int32', 'int64'), ('string', 'string'), ('uint64', 'StdItem'), ('bool', 'double'), ('sint32', 'bytes'), ('fixed64', 'E8'))):
    fs.append(('', 'map<%s, %s>' % (a, b), 'um_%d' % i, num, [S % ('map', 'std::unordered_map<$, @>')])); num += 1
fs.append(('optional', 'string', 'vc', num, [S % ('string', 'std::pmr::string')])); num += 1
fs.append(('required', 'string', 'rvc', num, [S % ('string', 'std::pmr::string')])); num += 1
fs.append(('repeated', 'string', 'lvc', num, [S % ('string', 'std::pmr::string')])); num += 1
num += 1
fs.append(('optional', 'bytes', 'pby', num, [S % ('bytes', 'std::pmr::vector<$>')])); num += 1
fs.append(('repeated', 'bytes', 'lpby', num, [S % ('bytes', 'std::pmr::vector<$>'), S % ('repeated', 'std::pmr::list<$>')])); num += 1
fs.append(('oneof', 'pick', [('string', 'pcs', num, [S % ('string', 'std::pmr::string')]), ('bytes', 'pcb', num + 1, [S % ('bytes', 'std::pmr::vector<$>')])]))
msg('Std', fs)
# user-defined containers
file('ty_user')
O = S % ('optional', 'vt::opt<$>'); R = S % ('repeated', 'vt::vec<$>'); TX = S % ('string', 'vt::str'); BY = S % ('bytes', 'vt::blob')
TW['UserItem'] = 'UserItemD'
msg('UserItem', [('optional', 'string', 'name', 1, [O, TX]), ('optional', 'double', 'x', 2, [O])])
fs = [('optional', 'int32', 'oi', 1, [O]), ('optional', 'string', 'os', 2, [O, TX]), ('optional', 'bytes', 'ob', 3, [O, BY]), ('optional', 'UserItem', 'om', 4, [O]),
      ('optional', 'bool', 'obl', 5, [O]), ('optional', 'E16', 'oe', 6, [O]), ('repeated', 'sint64', 'rs', 7, [R]), ('repeated', 'fixed32', 'rf', 8, [R, 'packed = true']),
      ('repeated', 'string', 'rst', 9, [R, TX]), ('repeated', 'bytes', 'rby', 10, [R, BY]), ('repeated', 'UserItem', 'rm', 11, [R]), ('required', 'string', 's', 12, [TX]),
      ('required', 'bytes', 'b', 13, [BY]), ('repeated', 'E8', 're', 14, [R, 'packed = true']), ('repeated', 'bool', 'rb', 15, [R]), ('repeated', 'double', 'rd', 16, [R, 'packed = true']),
      ('oneof', 'pick', [('string', 'cs', 17, [TX]), ('bytes', 'cb', 18, [BY]), ('UserItem', 'cm', 19, [])])]
msg('User', fs)
INC = {'ty_narrow': ['cstdint'], 'ty_bits': [], 'ty_enums': [], 'ty_fixed': ['array', 'etl/vector.h'], 'ty_etl': ['etl/vector.h', 'etl/string.h', 'etl/map.h', 'etl/unordered_map.h'],
       'ty_std': ['deque', 'list', 'unordered_map', 'memory_resource', 'string', 'vector'], 'ty_user': ['vt_types.hpp']}
for n, o in OUT.items():
    body = '\n'.join(o)
    head = 'syntax = "proto2";\npackage ty;\nimport "spb.proto";\n'
    if n != 'ty_enums' and re.search(r'\bE(8|16)D?\b', body): head += 'import "ty_enums.proto";\n'
    head += ''.join('option (spb_fileopt).include = "<%s>";\n' % x for x in INC[n]) + '\n'
    open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'proto/%s.proto' % n), 'w').write(head + body)
