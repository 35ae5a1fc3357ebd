GEN = 'random, descriptor-driven values of %s; failures shrunk on the choice tape; sanitizers on. Assurance is exploration: tens of thousands of cases per run, no proof.'
TECH = {
 'P01': 'property-based testing: generated message values, round trip',
 'P02': 'property-based testing: generated message values, differential against libprotobuf',
 'P03': 'property-based testing: generated alternative encodings from an independent encoder, compared to the value encoded',
 'P04': 'property-based testing: generated unknown fields, schema versions and merges, merge model and libprotobuf as oracles',
 'P05': 'structure-aware fuzzing under ASan/UBSan with libprotobuf as acceptance and value oracle, allocation bound; coverage-guided (libFuzzer) in the thorough tier',
 'P07': 'property-based testing: generated chunkings, message sequences and injected faults at every call index',
 'P06': 'property-based testing: generated values through every entry point, exact-size buffers under ASan',
 'P08': 'property-based testing: generated message values, json round trip',
 'P09': 'property-based testing: generated message values, strict RFC 8259 parser and libprotobuf json parser as oracles',
 'P10': 'metamorphic and differential testing: generated json representations and libprotobuf json output in every mode',
 'P11': 'structure-aware fuzzing of json under ASan/UBSan, an independent bracket-and-comma parser as structure oracle, constructed invalid values, truncation, allocation bound; coverage-guided (libFuzzer) in the thorough tier',
 'P12': 'property-based testing: generated chunkings, buffer-boundary alignments and injected faults at random call indices',
 'P13': 'property-based testing: generated valid and damaged UTF-8 and escape sequences against an independent RFC 3629 decoder',
 'P14': 'property-based testing: generated contents and damaged base64 text against an independent RFC 4648 codec',
 'P15': 'property-based testing: generated sizes around every configured limit, both formats, both directions, reference decoder as oracle',
 'P16': 'property-based testing: generated numbers of every magnitude in every encoding and spelling against exact integer arithmetic',
 'P18': 'metamorphic and differential testing: the same generated value in differently typed mirrors of one message',
 'P19': 'property-based testing: randomly generated schemas compiled, compiled again by g++ and run on generated values, with protoc descriptors and libprotobuf as oracle',
 'P20': 'fuzzing of the sanitized compiler: token, byte and structural mutation of generated schemas, single-defect damage, protoc as acceptance oracle',
 'P21': 'property-based testing: random option assignments in random notations; generated code judged against a scope model by static assertions and runtime limits; notations compared with each other',
 'P22': 'metamorphic testing: semantics-preserving rewrites, splits and invocation variants of generated schemas, outputs compared',
 'P23': 'property-based testing of generated schedules: concurrent operations under ThreadSanitizer in fresh processes, operations nested in callbacks, permuted histories with faults, each result compared with the operation on its own',
 'P17': 'property-based testing with allocation counting (sanitizer malloc hooks) over generated values and inputs',
}
NOTES = {
 'P01': GEN % 'proto2/proto3 schemas covering every scalar type and label',
 'P02': GEN % 'proto2/proto3 schemas covering every scalar type and label' + ' Trusts libprotobuf 3.21.',
 'P03': GEN % 'all harness schemas' + ' The encoder model is itself cross-checked against libprotobuf on a quarter of the cases.',
 'P04': GEN % 'all harness schemas and two versions of one schema',
 'P05': 'Mutated, random, truncated and deeply nested inputs under ASan and UBSan; accepted input must mean what libprotobuf says. Exploration only.',
 'P07': GEN % 'all harness schemas' + ' Faults are injected at a random call index of each run.',
 'P06': GEN % 'default, ETL, std, fixed-size and user-defined container schemas',
 'P08': GEN % 'proto2/proto3 schemas covering every scalar type and label',
 'P09': GEN % 'all harness schemas' + ' Empty required strings are excluded (the reference implementation insists on them, the library omits them). Trusts libprotobuf 3.21.',
 'P10': GEN % 'all harness schemas' + ' Trusts libprotobuf 3.21 and the json printer of the harness.',
 'P11': 'Mutated, tokenised, truncated, deeply nested and type-confused documents under ASan and UBSan; accepted input must mean what libprotobuf says. Exploration only.',
 'P12': GEN % 'all harness schemas' + ' Documents are shifted over the offsets 256 and 512 of the stream.',
 'P13': GEN % 'every string field, map key and map value of the harness schemas',
 'P14': GEN % 'every bytes field of the harness schemas, growing, fixed-size and fixed-capacity',
 'P15': GEN % 'schemas limited at field, message and file level and fixed-capacity containers' + ' Map keys and values are excluded from size limits.',
 'P16': GEN % 'all integer, bit-field, enum and bool field types',
 'P18': GEN % 'one message mirrored in narrow, bit-field, fixed-size, ETL, std and user-defined types',
 'P17': GEN % 'all harness schemas' + ' Deserialization is required to be allocation free for fixed-size types and short strings.',
 'P19': 'Some twenty generated multi-file projects per quick run, each with values of every message in both formats; failures shrunk structurally. Exploration, trusts protoc and libprotobuf 3.21. Schemas outside the documented feature set are not generated.',
 'P20': 'The compiler is built with ASan and UBSan and fed thousands of damaged schemas; exit status, error location and output files are judged. Exploration only.',
 'P21': 'Every type the header declares is asserted against a small model of option scoping, limits, packing, defaults and names at run time. Exploration of random assignments.',
 'P23': GEN.replace('sanitizers on','ThreadSanitizer on') % 'all harness schemas, run by two to six threads, in callbacks and in sequences' + ' Thread interleavings are those the scheduler gives; races are found by happens-before analysis, not by luck of timing.',
 'P22': 'Outputs are compared byte for byte where the statement says so and as token trees where comments or declaration order legitimately move. Exploration.',
}
NA = {}
