#!/usr/bin/env python3
"""Writes proto/lim_field.proto and proto/lim_file.proto: messages with limits at every scope, for P15."""
import os
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'proto')
scal = ['double', 'float', 'int32', 'uint32', 'sint32', 'fixed32', 'sfixed32', 'int64', 'uint64', 'sint64', 'fixed64', 'sfixed64', 'bool', 'Col']
def opt(**k):
    o = ['(spb_opt).%s = %s' % (a, b) for a, b in k.items() if a != 'packed'] + (['packed = true'] if k.get('packed') else [])
    return ' [%s]' % ', '.join(o) if o else ''
HEAD = '''syntax = "proto2";
package lim;
import "spb.proto";
%s
'''
out = [HEAD % '', 'enum Col { C0 = 0; C1 = 1; C2 = 300; C3 = -7; }', 'message Leaf { optional int32 v = 1; optional string s = 2; repeated bytes b = 3; }']
# sizes, one field each
fs = []; n = 1
for i, sz in enumerate((1, 2, 3, 5, 8, 31, 127, 128, 129, 255, 256, 257, 300, 513)):
    for t in ('string', 'bytes'):
        fs.append('  optional %s %s%d = %d%s;' % (t, t[0], sz, n, opt(max_size=sz))); n += 1
for t in ('string', 'bytes'):
    fs.append('  required %s %sr = %d%s;' % (t, t[0], n, opt(max_size=4))); n += 1
    fs.append('  repeated %s %srep = %d%s;' % (t, t[0], n, opt(max_size=6))); n += 1
    fs.append('  repeated %s %srepc = %d%s;' % (t, t[0], n, opt(max_size=3, max_count=4))); n += 1
    fs.append('  optional %s %sfree = %d;' % (t, t[0], n)); n += 1
fs.append('  oneof pick { string ps = %d%s; bytes pb = %d%s; string pfree = %d; Leaf pl = %d; }' % (n, opt(max_size=7), n + 1, opt(max_size=9), n + 2, n + 3))
out.append('message Sizes {\n%s\n}' % '\n'.join(fs))
fs = []; n = 1
for i, t in enumerate(scal):
    fs.append('  repeated %s u_%s = %d%s;' % (t, t.lower(), n, opt(max_count=1 + i % 5))); n += 1
    fs.append('  repeated %s p_%s = %d%s;' % (t, t.lower(), n, opt(max_count=2 + i % 4, packed=True))); n += 1
for t in ('string', 'bytes', 'Leaf'):
    fs.append('  repeated %s r_%s = %d%s;' % (t, t.lower(), n, opt(max_count=3))); n += 1
fs.append('  repeated int32 big = %d%s;' % (n, opt(max_count=130, packed=True))); n += 1
fs.append('  repeated int32 free = %d [packed = true];' % n); n += 1
fs.append('  repeated Leaf lfree = %d;' % n); n += 1
fs.append('  repeated int32 narrow = %d [(spb_opt).max_count = 5, (spb_opt).type = "int8", packed = true];' % n); n += 1
fs.append('  repeated uint64 lst = %d [(spb_opt).max_count = 4, (spb_opt).repeated = "std::list<$>"];' % n); n += 1
out.append('message Counts {\n%s\n}' % '\n'.join(fs))
def scoped(name, head):
    return '''message %s {
%s
  optional string s = 1;
  required string q = 2;
  repeated string rs = 3;
  optional bytes b = 4;
  repeated bytes rb = 5;
  repeated int32 i = 6;
  repeated double d = 7 [packed = true];
  repeated Leaf m = 8;
  optional string lo = 9 [(spb_opt).max_size = 2];
  optional string hi = 10 [(spb_opt).max_size = 40];
  repeated int32 ilo = 11 [(spb_opt).max_count = 1];
  repeated int32 ihi = 12 [(spb_opt).max_count = 20, packed = true];
  optional Leaf one = 13;
  oneof pick { string os = 14; bytes ob = 15; Leaf om = 16; string ohi = 17 [(spb_opt).max_size = 50]; }
  message Inner { optional string s = 1; repeated sint32 r = 2; }
  optional Inner inner = 18;
  repeated bytes mix = 19 [(spb_opt).max_size = 1];
  repeated bool rbo = 20;
  repeated Col rc = 21 [packed = true];
}''' % (name, head)
out.append(scoped('MsgScope', '  option (spb_msgopt).max_size = 4;\n  option (spb_msgopt).max_count = 3;'))
out.append(scoped('MsgSize', '  option (spb_msgopt).max_size = 9;'))
out.append(scoped('MsgCount', '  option (spb_msgopt).max_count = 2;'))
out.append(scoped('NoScope', ''))
out.append('message Outer { optional MsgScope a = 1; repeated Sizes b = 2; optional Counts c = 3; map<int32, MsgScope> d = 4; oneof pick { MsgScope e = 5; NoScope f = 6; } }')
t = '\n'.join(out)
t = t.replace('import "spb.proto";\n', 'import "spb.proto";\noption (spb_fileopt).include = "<list>";\n')
open(P + '/lim_field.proto', 'w').write(t + '\n')
out = [HEAD.replace('package lim;', 'package lim.file;') % 'option (spb_fileopt).max_size = 6;\noption (spb_fileopt).max_count = 4;', 'enum Col { C0 = 0; C1 = 1; C2 = 300; C3 = -7; }', 'message Leaf { optional int32 v = 1; optional string s = 2; repeated bytes b = 3; }']
out.append(scoped('FileScope', ''))
out.append(scoped('FileMsg', '  option (spb_msgopt).max_size = 11;\n  option (spb_msgopt).max_count = 2;'))
out.append(scoped('FileMsgSize', '  option (spb_msgopt).max_size = 3;'))
open(P + '/lim_file.proto', 'w').write('\n'.join(out) + '\n')
