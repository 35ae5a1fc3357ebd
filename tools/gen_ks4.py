#!/usr/bin/env python3
"""Writes proto/ks4[abcd].proto: field numbers around every boundary, very large messages, oneofs and enums, names of every length."""
import os, random
r = random.Random(4)
o = []
def head(*imports):
    global o
    o += ['syntax = "proto2";', 'package ks.four;'] + ['import "%s.proto";' % i for i in imports] + ['']
def flush(n):
    global o
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'proto', n + '.proto'), 'w').write('\n'.join(o) + '\n')
    o = []
head()
EDGES = [1, 15, 16, 17, 31, 32, 127, 128, 255, 256, 1023, 1024, 2047, 2048, 2049, 4095, 4096, 8192, 16383, 16384, 32768, 65535, 65536,
         131072, 262143, 262144, 262145, 1048576, 2097151, 2097152, 4194304, 16777216, 33554431, 33554432, 33554433, 134217728, 268435455, 268435456, 536870910, 536870911]
SC = ['int32', 'sint64', 'fixed32', 'double', 'string', 'bytes', 'bool', 'uint64', 'float', 'sfixed64', 'sint32', 'Few', 'Small']
o += ['enum Few { FEW_ZERO = 0; FEW_ONE = 1; FEW_BIG = 1000000; }', 'message Small { optional int32 a = 1; optional string b = 2; }', '']
def name(n):
    """an identifier of n characters"""
    s = r.choice('abcdefghijklmnopqrstuvwxyzABCDEF')
    while len(s) < n: s += r.choice('abcdefghijklmnopqrstuvwxyz0123456789_' if s[-1] != '_' else 'abcdefghijklmnopqrstuvwxyz')
    return s[:n - 1] + 'q' if n > 1 else s
order = EDGES[:]; r.shuffle(order)
o.append('message Edges {')
for i, n in enumerate(order): o.append('  optional %s e%d = %d;' % (SC[i % len(SC)], n, n))
o.append('}')
r.shuffle(order)
o.append('message EdgesRep {')
for i, n in enumerate(order):
    t = SC[i % len(SC)]
    if i % 4 == 3: o.append('  map<%s, %s> e%d = %d;' % (r.choice(['int32', 'string', 'fixed64', 'bool']), t, n, n))
    else: o.append('  repeated %s e%d = %d%s;' % (t, n, n, ' [packed = true]' if i % 2 and t not in ('string', 'bytes', 'Small') else ''))
o.append('}')
r.shuffle(order)
o.append('message EdgesOne { oneof pick {')
for i, n in enumerate(order): o.append('  %s e%d = %d;' % (SC[i % len(SC)], n, n))
o.append('} oneof other {')
o += ['  string x2 = 2;', '  Few x14 = 14;', '  Small x18 = 18;', '} }']
flush('ks4a')
head('ks4a')
# many fields, members and values: indexes beyond 127 and 255
o.append('message Wide {')
for i in range(140): o.append('  %s f_%d = %d;' % (['optional int32', 'optional string', 'repeated uint32', 'optional bool', 'repeated bytes'][i % 5], i, 1 + i * 3))
o.append('}')
flush('ks4b')
head('ks4a')
o.append('message WideOne { oneof pick {')
for i in range(66): o.append('  %s m_%d = %d;' % (['int32', 'string', 'bool', 'fixed32', 'Small', 'Many'][i % 6], i, 1 + i))
o.append('} }')
o.append('enum Many {')
for i in range(300): o.append('  %s = %d;' % ('MANY_%d' % i if i % 9 else name(1 + i % 70).upper() + '_Z%d' % i, i * i * (-1 if i % 7 == 3 else 1)))
o.append('}')
o.append('message Manies { optional Many a = 1; repeated Many b = 2; repeated Many c = 3 [packed = true]; map<int32, Many> d = 4; required Many e = 5; oneof o { Many f = 6; int32 g = 7; } }')
flush('ks4e')
head('ks4a')
# which kind of member has the longest or shortest key differs
used = set()
for k in range(30):
    if k == 15:
        flush('ks4c'); head('ks4a')
    o.append('message Keys%d {' % k)
    names = set(); lines = []; num = 1
    def fresh(n):
        for _ in range(50):
            x = name(n)
            if x.lower().replace('_', '') not in names:
                names.add(x.lower().replace('_', '')); return x
        return fresh(n + 1)
    lens = [1, 2, 3, 5, 9, 17, 30, 31, 32, 33, 64, 100, 128, 200]
    kinds = ['plain', 'json', 'map', 'mapjson', 'one', 'onejson']
    r.shuffle(kinds)
    for kind in kinds[:2 + k % 4]:
        n = fresh(r.choice(lens)); j = ''
        if kind.endswith('json'): j = ' [json_name = "%s"]' % fresh(r.choice(lens))
        if kind.startswith('plain') or kind == 'json': lines.append('  optional %s %s = %d%s;' % (r.choice(SC), n, num, j))
        elif kind.startswith('map'): lines.append('  map<string, int32> %s = %d%s;' % (n, num, j))
        else:
            num += 1
            lines.append('  oneof o%d { %s %s = %d%s; bool %s = %d; }' % (num, r.choice(SC), n, num - 1, j, fresh(r.choice(lens)), num))
        num += 1
    o += lines + ['}']
flush('ks4d')
