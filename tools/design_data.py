GENS = {
 'P01': ('message values of every schema, up to megabytes and to the nesting limit', 'equality after the round trip'),
 'P02': ('message values', 'libprotobuf parses the bytes into the same value, and its own bytes are of the same set of fields'),
 'P03': ('value plus a random legal encoding of it', 'value read equals value encoded; encoder cross-checked with libprotobuf'),
 'P04': ('values plus unknown fields, two schema versions, concatenations, non-empty targets', 'merge model and libprotobuf'),
 'P05': ('mutated, truncated, random, deep, over-announced input, from buffer and from readers', 'sanitizers, allocation bound, time, libprotobuf on everything accepted'),
 'P06': ('values through every entry point and container', 'mutual equality, exact buffers under ASan, message unchanged'),
 'P07': ('chunkings, message sequences, faults at every call', 'same result as from one buffer; the fault itself arrives; stream position'),
 'P08': ('message values, random float bit patterns', 'equality after the round trip'),
 'P09': ('message values', 'strict RFC 8259 parser and libprotobuf json parser'),
 'P10': ('value plus a random conforming JSON representation; libprotobuf json in all modes', 'value read equals value represented'),
 'P11': ('mutated, tokenised, truncated, deep documents; constructed invalid values', 'sanitizers, allocation bound, refusal of the invalid, libprotobuf on everything accepted'),
 'P12': ('chunkings, alignments at stream buffers, faults at every call', 'same result as from one buffer; the fault itself arrives'),
 'P13': ('valid and damaged UTF-8, escapes, surrogates in every position of a string field', 'RFC 3629 decoder'),
 'P14': ('contents and damaged base64 text', 'RFC 4648 codec'),
 'P15': ('sizes around every limit in every encoding and chunking, both directions', 'accepted exactly when within the limit'),
 'P16': ('numbers of all magnitudes in every encoding and spelling', '128-bit arithmetic: exact value or refusal'),
 'P17': ('values and inputs for all container kinds', 'allocation counters; tracked containers and allocators'),
 'P18': ('one message in differently typed mirrors', 'equality of bytes and text; narrowing refused'),
 'P19': ('multi-file projects and values for their messages', 'g++ compiles; descriptors of protoc and libprotobuf on bytes and text'),
 'P20': ('damaged projects, arbitrary text, nesting, command lines', 'sanitizers, protoc accepts/refuses, position of the error, no output after an error'),
 'P21': ('options assigned at file, message, field scope in random notations', 'scope model: static assertions and run-time limits'),
 'P23': ('sets of operations in threads, inside callbacks, in sequences with faults', 'ThreadSanitizer; same result as the operation on its own'),
 'P22': ('rewrites, splits and invocation variants', 'equal output bytes or token trees'),
}
CATCH = {}
