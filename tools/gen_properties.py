#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to review)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)))

PBS='include/spb/pb/serialize.hpp'; PBD='include/spb/pb/deserialize.hpp'; PB='include/spb/pb.hpp'
JS='include/spb/json/serialize.hpp'; JD='include/spb/json/deserialize.hpp'; J='include/spb/json.hpp'
B64='include/spb/json/base64.h'; U8='include/spb/utf8.h'; BITS='include/spb/bits.h'; BIO='include/spb/io/buffer-io.hpp'
PAR='src/spb-proto-compiler/parser/parser.cpp'; CS='src/spb-proto-compiler/parser/char_stream.h'
AT='src/spb-proto-compiler/ast/ast-types.cpp'; AO='src/spb-proto-compiler/ast/ast-options.cpp'; AM='src/spb-proto-compiler/ast/ast-messages-order.cpp'
DH='src/spb-proto-compiler/dumper/header.cpp'; DP='src/spb-proto-compiler/dumper/pb/dumper.cpp'; DJ='src/spb-proto-compiler/dumper/json/dumper.cpp'
MAIN='src/spb-proto-compiler/main.cpp'

add('P01','Protobuf round trip loses and invents nothing',
 'For every message value, deserializing its protobuf serialization into a fresh object gives back the same value: every scalar bit for bit, every element of every repeated field in order, every map entry, the selected oneof member, and the presence of every optional field, including present-but-default and present-but-empty ones. A required string, bytes or message that is empty may be omitted from the bytes, but still reads back as empty.',
 ['inputs'],'all field kinds (15 scalar types, enums, messages) x labels (required, optional, repeated packed/unpacked, map, oneof, recursive pointer), nesting, boundary values, empty elements, NaN payloads',
 'The tests pin a few hundred hand-picked values, mostly one field at a time; they never combine labels with empty or default payloads or with nesting and boundary values at once.',
 [PBS,PBD,DP],[('field encoders',PBS),('field decoders',PBD),('generated per-message code',DP)],['spb::pb::serialize / spb::pb::deserialize on generated structs'])
add('P02','Protobuf output is read identically by the reference implementation',
 'Any message serialized to protobuf is accepted by Google protobuf for the same .proto file and yields the same value there (presence, repeated elements and their order, map entries and oneof selection included), with every field known and nothing left over. (A required string, bytes or message that is empty may be omitted.)',
 ['inputs'],'all values of schemas covering every scalar type, enum, nested, packed, map, oneof and recursive field, field numbers from 1 to 2^29-1, negative enums',
 'The compatibility tests compare fixed samples; wire-level choices (tag width, packed framing, zigzag, sign extension, map entry framing, nested lengths) only go wrong for particular combinations of numbers, sizes and values.',
 [PBS,DP,AT],[('tag/varint/zigzag/fixed encoding',PBS),('length prefix computation',PBS),('encoder selection per field type',DP)],['bytes of spb::pb::serialize parsed by libprotobuf DynamicMessage'])
add('P03','Every valid protobuf encoding of a message is read to the same value',
 'Whatever valid encoding of a message a conforming peer produces - fields in any order, packable repeated fields packed, unpacked or mixed in several chunks, non-minimal varints, 32-bit negatives sign-extended to ten bytes, map entries with key or value omitted or swapped or followed by unknown fields, duplicated map keys - deserializing it gives the value the reference implementation gives.',
 ['inputs'],'all values x all wire-level encoding choices permitted by the protobuf encoding specification',
 'The tests feed only canonical byte strings; the encodings other producers are allowed to emit form an unbounded family that is orthogonal to the value.',
 [PBD,DP],[('packed/unpacked decoding',PBD),('varint decoding',PBD),('map entry decoding',PBD)],['spb::pb::deserialize on re-encoded bytes, compared with libprotobuf'])
add('P04','Unknown fields are skipped and repeated occurrences merge',
 'Data written with a newer or older version of a schema is read correctly: fields the reader does not know, of every wire type, at any position and nesting depth (including unknown groups), are skipped without disturbing known fields. Concatenating encodings merges them: last scalar wins, repeated fields append, singular submessages merge field by field, map entries overwrite by key, and the last oneof member wins; the same holds when deserializing into an object that already holds data.',
 ['inputs','histories'],'pairs of schema versions x values; sequences of encodings concatenated or applied one after another to the same object',
 'The tests deserialize into fresh objects and carry a couple of unknown-field samples; merge semantics depend on the sequence of occurrences and on what is already in the object.',
 [PBD,DP],[('unknown field skipping',PBD),('message/optional/oneof decoding into existing values',PBD)],['spb::pb::deserialize on concatenated or spliced byte strings'])
add('P05','Malformed protobuf input is rejected safely, never misread',
 'For arbitrary bytes, protobuf deserialization either succeeds or throws a C++ exception; it never crashes, reads or writes out of bounds, executes undefined behaviour, exhausts the stack on deep nesting, hangs, or allocates memory out of proportion to the input. Input truncated inside a field is always rejected (through buffers, readers and the length-prefixed form alike), and input that is accepted means what the reference implementation says it means.',
 ['inputs','fault_sequences'],'arbitrary byte strings: mutated valid encodings, every truncation point, hostile length prefixes, overlong varints, nested and recursive structures, wrong wire types',
 'Malformed byte strings are infinite in number; the tests cover a few dozen fixed ones per field type and run without sanitizers.',
 [PBD,PB,U8,BITS],[('length and end-of-stream checks',PBD),('wire type checks',PBD),('recursion and size limits',PBD)],['spb::pb::deserialize under ASan/UBSan with an allocation-counting operator new'])
add('P06','All serialization entry points agree on bytes and size',
 'For every message and both formats, the announced size, the returned size, the bytes written into a caller-supplied buffer of exactly that size, into any byte container, and through a writer callback are all identical; with length-prefixing the output is exactly the varint of the plain size followed by the plain output. Serialization is deterministic and leaves the message unchanged.',
 ['inputs','configurations'],'all message values x {protobuf, length-prefixed protobuf, JSON} x {size, buffer, container types, writer}',
 'The size pass and the writing passes are separate instantiations of the same code, and only disagree (overflowing the buffer) for particular values such as escapes, limits, empty elements or nested lengths at varint boundaries.',
 [PB,J,PBS,JS],[('size-only, buffer and writer output streams',PBS),('size-only, buffer and writer output streams',JS),('public overloads',PB)],['spb::pb::serialize*, spb::json::serialize* overloads'])
add('P07','Protobuf stream I/O is independent of chunking and propagates faults',
 'Deserializing through a reader gives the same result, consumed count and acceptance as deserializing the same bytes from a buffer, however the reader splits them; a sequence of length-prefixed messages (empty ones included) written to one stream is read back message by message, consuming exactly each message and never reading past its end. An exception thrown by a reader or writer at any call reaches the caller unchanged, with everything delivered up to then correct and nothing leaked.',
 ['inputs','histories','fault_sequences'],'all values x all short-read patterns x histories of delimited messages x a fault at any I/O call',
 'The tests use readers that always return what was asked for; the failure modes depend on where the chunk boundaries and faults fall.',
 [PBD,PB,PBS],[('reader stream',PBD),('writer stream',PBS),('length-prefixed overloads',PB)],['spb::pb::{serialize,deserialize} with reader/writer callbacks'])
add('P08','JSON round trip loses and invents nothing',
 'For every message value, deserializing its JSON serialization gives back the same value: all scalars exactly (64-bit integers, floats and doubles including subnormals, infinities and NaN), any Unicode text and control characters in strings and in map keys, arbitrary bytes, enum values, map entries, the selected oneof member and the presence of every optional field, including present-but-empty ones. A required string or bytes that is empty may be omitted, but still reads back as empty.',
 ['inputs'],'all field kinds x labels x nesting x boundary values x arbitrary Unicode text',
 'The tests pin fixed samples; escaping, number formatting and presence interact with values in ways that only appear for particular characters, magnitudes or empty payloads.',
 [JS,JD,B64,DJ,'include/spb/to_from_chars.h'],[('JSON writer',JS),('JSON reader',JD),('generated key/enum dispatch',DJ)],['spb::json::serialize / spb::json::deserialize'])
add('P09','JSON output is valid and means the same to the reference implementation',
 'Every JSON serialization is a well-formed RFC 8259 document without duplicate keys, and Google protobuf\'s JSON parser accepts it for the same .proto file and obtains the same message value. (A required string or bytes that is empty may be omitted.)',
 ['inputs'],'all message values of schemas covering all field kinds, renamed fields (json_name), enums (aliases, keyword-like names), maps with every key type',
 'The tests compare exact strings for fixed samples; well-formedness and interoperability depend on every character, number and nesting combination.',
 [JS,B64,DJ],[('comma/brace placement',JS),('string escaping',JS),('field and enum naming',DJ)],['bytes of spb::json::serialize parsed by an independent RFC 8259 parser and by JsonStringToMessage'])
add('P10','Every conforming JSON representation of a message is accepted',
 'JSON produced by Google protobuf for a message - in any of its printing modes - is read back to that message. Meaning is independent of representation: key order, original or lowerCamelCase or explicit json_name keys, insignificant whitespace anywhere, escaped characters in keys, strings and enum names, numbers as numbers or strings, enums by name or number, null for absent, and unknown keys with arbitrary values give the same result.',
 ['inputs'],'all values x all JSON representation choices (metamorphic) x all printer options of the reference implementation',
 'The tests feed compact hand-written documents; the space of equivalent documents is orthogonal to the value and unbounded.',
 [JD,DJ,B64],[('token and whitespace handling',JD),('key dispatch',DJ),('unknown value skipping',JD)],['spb::json::deserialize'])
add('P11','Malformed JSON input is rejected safely',
 'For arbitrary bytes, JSON deserialization either succeeds or throws a C++ exception; it never crashes, reads or writes out of bounds, executes undefined behaviour, exhausts the stack on deep nesting, hangs, or allocates memory out of proportion to the input. A document truncated at any point, or containing invalid UTF-8 in a string field, a bad escape, bad base64, an out-of-range number, an unknown enum name or a value of the wrong JSON type for a known field, is rejected; so is text whose brackets, commas, colons, quotes, literals or numbers do not form a JSON document, under unknown keys as well.',
 ['inputs','fault_sequences'],'arbitrary byte strings, every truncation of valid documents, targeted single-defect documents, deep nesting, through buffers and readers',
 'Malformed documents are unbounded; the tests cover a few dozen and run without sanitizers.',
 [JD,B64,U8,BIO],[('end-of-stream checks',JD),('escape/number/base64 validation',JD),('recursion limits',JD)],['spb::json::deserialize under ASan/UBSan'])
add('P12','JSON stream I/O is independent of chunking and propagates faults',
 'Deserializing JSON through a reader gives the same value, or the same refusal, as deserializing the same text from memory, however the reader splits it and wherever internal buffer boundaries fall in strings, escapes, numbers, base64, literals or whitespace. An exception thrown by a reader or writer at any call reaches the caller unchanged and never terminates the program, and everything written up to then is a prefix of the document.',
 ['inputs','fault_sequences'],'all documents (valid and invalid, small and many times the buffer size) x all chunkings x a fault at any I/O call',
 'The two input paths are separate code; they only diverge when a token straddles a buffer boundary, which fixed short samples never do.',
 [JD,BIO,J,B64],[('buffered reader',BIO),('reader stream vs buffer stream',JD),('chunked base64',B64)],['spb::json::{serialize,deserialize} with reader/writer callbacks'])
add('P13','Text is always valid UTF-8, in and out, in both formats',
 'A string field value crosses serialization and deserialization, protobuf or JSON, if and only if it is well-formed UTF-8 (RFC 3629: no overlongs, surrogates, values above U+10FFFF, stray or missing continuation bytes); otherwise the operation throws. JSON \\u escapes decode to exactly the code point they denote, surrogate pairs included, and unpaired surrogates are rejected.',
 ['inputs'],'all byte strings of every length and alignment, all code points, all escape forms, for every string-typed position (field, element, oneof, map key and value)',
 'The input space is all byte strings; the validator has a word-at-a-time fast path and a table-driven slow path whose hand-over depends on length and position.',
 [U8,PBS,PBD,JS,JD],[('UTF-8 validator',U8),('UTF-8 encode/decode of code points',U8),('validation call sites',PBD)],['public serialize/deserialize of string fields vs an independent UTF-8 model'])
add('P14','Bytes fields survive JSON as standard base64',
 'The JSON form of a bytes field is exactly the RFC 4648 standard base64 encoding, with padding, of its contents, for any contents and length; decoding accepts every such string and restores the contents exactly, for growing and fixed-capacity containers, from memory or from a reader. Strings with characters outside the alphabet, wrong length or misplaced padding are rejected.',
 ['inputs'],'all byte strings of all lengths (well beyond internal buffer sizes) x container kinds x positions of corruption x chunkings',
 'Boundary arithmetic depends on length modulo 3 and 4, on buffer refills and on capacity; the tests use short fixed strings.',
 [B64,JS,JD],[('base64 encoder',B64),('base64 decoder',B64)],['spb::json::{serialize,deserialize} of bytes fields vs an independent base64 model'])
add('P15','Configured limits are enforced exactly, in both directions',
 'A configured max_size or max_count (or fixed size) bounds every string, bytes or repeated field it applies to: values at the limit round-trip in protobuf and JSON, values beyond it are refused by serialization and by deserialization, whatever the encoding, chunking or number of pieces. Nothing beyond the capacity is ever written, and fields without a limit are unaffected.',
 ['inputs','configurations'],'limits and fixed sizes x labels (required, optional, repeated packed/unpacked, oneof, inherited from message or file scope) x sizes around the limit x formats x encodings that spread elements over several pieces',
 'The tests check a handful of limits with one oversized sample each; enforcement has separate code paths per type, format, direction and encoding.',
 [PBS,PBD,JS,JD,B64,DP,DJ,AO],[('size checks',PBD),('size checks',JD),('attribute inheritance',DP)],['serialize/deserialize of limited fields'])
add('P16','Integers never wrap, truncate or change sign silently',
 'Every integer or enum field, whatever its storage (8 to 64 bits, bit-fields, narrow enum types) and wire type (varint, zigzag, fixed), holds after a successful deserialization exactly the number that was in the input; a number the storage cannot hold is refused with an exception, in protobuf and in JSON alike, and every number the storage can hold is accepted.',
 ['inputs','configurations'],'all integer types x storage widths x bit-field widths 1..64 x values around every power of two x formats, labels and positions',
 'The tests try a few values per type; the storage/wire combinations number in the hundreds and each has its own boundaries.',
 [PBD,JD,BITS,AT,DH],[('varint narrowing',PBD),('bit-field range check',BITS),('JSON number parsing',JD)],['deserialize of integer fields vs arbitrary-precision expectation'])
add('P17','The library itself never allocates heap memory',
 'Serializing any message - to a size, a caller-supplied buffer or a writer, as protobuf or JSON - performs no heap allocation, and deserializing performs none when the message only uses fixed-capacity types; otherwise only the user\'s own containers allocate. Skipping unknown data of any size or depth allocates nothing.',
 ['inputs','configurations'],'all message values x both formats x buffer, writer and reader forms; fixed-capacity schemas (arrays, embedded containers) for deserialization',
 'Whether an allocation happens depends on sizes and paths (small-buffer effects, temporaries, error paths); no existing test counts allocations.',
 [PBS,PBD,JS,JD,BIO],[('stack-only streams',PBS),('fixed stack buffers for keys and numbers',JD),('fixed-size read buffer',BIO)],['operator new/malloc counters around the public calls'])
add('P18','User-chosen container and integer types never change the data format',
 'A message whose fields are mapped through options to other C++ types (other standard containers, fixed arrays, embedded-library containers, other optional or pointer types, narrow integers, bit-fields) produces the same protobuf bytes and the same JSON as the default mapping for every value both can hold, apart from the ordering of unordered maps, and reads what the default mapping writes.',
 ['inputs','configurations'],'all values representable in both mappings x mapping options',
 'The tests exercise each custom mapping with a few literals and never compare mappings with each other over values.',
 [PBS,PBD,JS,JD,'include/spb/concepts.h',DH],[('container concepts','include/spb/concepts.h'),('type mapping',DH)],['serialize/deserialize of twin schemas with the same fields'])
add('P19','Any supported schema compiles and interoperates',
 'For every valid proto2 or proto3 schema within the documented feature set - arbitrary message nesting, field names including C++ keywords and names that collide with library or grammar words, field numbers, enums, maps, any number of oneofs, packages, imports, messages recursive or mutually recursive through optional, repeated and map fields, in any order - the compiler produces C++ that compiles, and the resulting code reads and writes exactly what the reference implementation does for that schema.',
 ['programs','inputs'],'randomly generated multi-file schemas x random values of every message',
 'The tests compile some twenty fixed schemas; naming, scoping, ordering and feature combinations are unbounded.',
 [PAR,CS,AT,AM,DH,DP,DJ],[('parser',PAR),('type resolution',AT),('dependency ordering and cycle breaking',AM),('code generation',DH)],['spb-protoc output compiled and run against protoc descriptors'])
add('P20','The compiler survives any input text and reports errors precisely',
 'For arbitrary schema text the compiler terminates promptly without crashing, hanging or undefined behaviour; it exits with zero only if it produced both output files, and otherwise exits non-zero with a message naming the file and a line and column inside it. Damaging a valid schema at one place (an unknown type, a missing token, an unterminated comment or string, a bad number, a missing import) is reported rather than accepted.',
 ['inputs','fault_sequences'],'arbitrary text: token-level and byte-level mutations, truncations of valid schemas, deep nesting, missing, unreadable and cyclic imports',
 'Broken inputs are unbounded; the tests try a fixed list and run without sanitizers.',
 [PAR,CS,AT,AO,AM,MAIN,'src/spb-proto-compiler/io/file.cpp'],[('parse errors with location',CS),('error exit',MAIN)],['exit status, stderr and output files of spb-protoc built with sanitizers'])
add('P21','Options apply by scope: field over message over file, comment or bracket',
 'Each documented type and limit option takes effect on exactly the fields in its scope, with field-level settings overriding message-level ones and those overriding file-level ones, independently of whether it is written as a custom option or as a special comment. Fields outside the scope keep their default mapping.',
 ['configurations','programs'],'random assignments of options to file, message and field scopes in either notation x field kinds',
 'The tests check one arrangement per option; precedence and scoping are about combinations.',
 [AO,DH,PAR,DP,DJ,'doc/options.md'],[('option resolution',AO),('comment options',PAR),('type mapping by precedence',DH)],['static_asserts over generated headers; behaviour of generated limits'])
add('P22','Generated code depends only on the schema, not on its layout',
 'Running the compiler twice on the same input gives byte-identical output, and re-laying out a schema (whitespace, line breaks, comments, empty statements, number bases, quote style, declaration order of independent definitions, splitting a definition into an imported file, invocation directory, include-path spelling, order of files on the command line) changes nothing observable about the generated code. A compile never depends on what was left in the output directory.',
 ['programs','configurations','histories'],'random schemas x semantics-preserving rewrites x invocation variants x sequences of compiler runs into the same directory',
 'Each test uses one fixed layout and one invocation; layout equivalence is a relation between runs.',
 [PAR,CS,AM,MAIN,DH],[('tokenizer',CS),('dependency ordering',AM),('path handling',MAIN)],['byte comparison of spb-protoc outputs under metamorphic rewrites'])
add('P23','Operations never influence one another: threads, nesting, history',
 'Serialization and deserialization keep no state outside their arguments. Operations on different objects, and any number of serializations of one unmodified object or deserializations of one input, may run in several threads at once without a data race; an operation may be started from inside a reader or writer callback of another one; and any history of earlier operations, refused, interrupted by an exception of a callback, or successful, may precede it. In each case every operation gives exactly the result it gives on its own.',
 ['schedules','histories','inputs','fault_sequences'],'sets of operations (all entry points, both formats, valid and damaged inputs, faults in callbacks) x thread assignments, nestings at every callback, and orders',
 'The tests run one operation at a time in one thread; hidden shared state (a static or per-thread buffer, a table filled on first use, a flag left set by a failure) only shows in particular interleavings.',
 [PBS,PBD,JS,JD,B64,BIO,'include/spb/to_from_chars.h'],[('streams on the stack of the operation',PBS),('reader buffer owned by the operation',BIO),('constant tables',B64)],['results of public calls from concurrent threads (ThreadSanitizer), from callbacks, and in different orders'])
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
open(out, 'w').write(''.join(json.dumps(p) + '\n' for p in P))
