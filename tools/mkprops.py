import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
D="src/decode.rs"; B="src/context/builder.rs"; PA="src/context/parse.rs"; G="src/proto.pest"; M="src/context/modify_api.rs"; A="src/context/api.rs"; X="src/context/mod.rs"
dec=["MessageInfo::decode","MessageValue::encode"]

p("C01","Decoding any bytes terminates and never crashes",
 "Decoding any byte string as any message type of any context, parsed or built by hand, terminates and returns a value: it never panics, overflows an integer or the stack, or loops. The result is the same in builds with and without overflow checks.",
 ["inputs","configurations"],"every byte string, every message type of every context, however deeply nested the payload",
 "The tests decode a handful of well-formed payloads; they contain no truncated, overlong, out-of-range or hostile input except one truncated string.",
 [D],[("message decode loop","src/decode.rs MessageInfo::decode"),("varint reader","src/decode.rs from_unsigned_varint"),("packed reader","src/decode.rs decode_packed")],observe=dec)
p("C02","Decoding loses no bytes: re-encoding reproduces the payload",
 "Encoding a decoded payload reproduces it byte for byte, including unknown fields, wire type mismatches, invalid wire types, truncated values, malformed packed or nested content and trailing garbage, provided the payload's varints are minimal, its scalar values lie in their declared type's range and its string fields are valid UTF-8. For any other payload, decoding the re-encoded bytes gives back an equal value.",
 ["inputs"],"every byte string and every message type, at every nesting depth",
 "The tests and the doc test re-encode three fixed payloads; which bytes end up reported twice or not at all depends on where and how a payload is damaged.",
 [D],[("byte consumption of each reader","src/decode.rs"),("encoders of Incomplete / Unknown / garbage","src/decode.rs")],observe=dec)
p("C03","Known fields decode to the declared type's protobuf value",
 "A complete field whose number is declared and whose wire type is the declared type's decodes to exactly the value the protobuf encoding defines for that type: varints modulo 2^64 truncated to the type's width (any non-zero bool is true), zigzag for the sint types, little-endian fixed and floating-point values bit for bit, strings as UTF-8 with malformed parts replaced by U+FFFD, bytes verbatim, enums with their 64-bit number and enum type, and nested messages recursively with their message type.",
 ["inputs","configurations"],"every scalar, enum and message type, every value of its full range and every legal encoding of it (non-minimal varints included), at every nesting depth",
 "The tests use about one small value per type; boundary values (most negative sint, 10-byte varints, out-of-range varints, NaN bits) are never decoded.",
 [D],[("Value::decode","src/decode.rs"),("zigzag arithmetic","src/decode.rs"),("varint traits","src/decode.rs")],observe=dec)
p("C04","Unknown and mismatched fields are kept verbatim and skipped exactly",
 "A complete field whose number is not declared, or whose wire type does not fit its declared type, is reported at its place as an unknown value with exactly its number, wire type and payload, and the fields after it decode as if it were absent. A field with an invalid wire type (3, 4, 6, 7) takes the rest of the enclosing message verbatim, and decoding goes on after that message.",
 ["inputs","configurations"],"every undeclared number, every declared type paired with every other wire type, any payload, any mixture with known fields",
 "Only one unknown length-delimited field is ever decoded by the tests; numbers and wire types form an unbounded space.",
 [D],[("Value::decode_unknown","src/decode.rs"),("dispatch on declared wire type","src/decode.rs MessageInfo::decode")],observe=dec)
p("C05","Cutting a payload anywhere keeps everything before the cut",
 "When a payload is cut at any position, every top-level field that ends at or before the cut decodes exactly as in the whole payload, and the rest of the bytes is reported exactly once and verbatim: as one incomplete value with the field's number and wire type when the cut falls after the field's tag, as trailing garbage when it falls inside a tag, and as nothing when it falls between fields (a value with an invalid wire type, which always extends to the end, is just shortened).",
 ["inputs","fault_sequences"],"every payload and every cut position in it",
 "One truncated string is tested (in the doc test); cut positions inside tags, unknown fields, packed arrays, lengths and fixed-width values are not.",
 [D],[("Incomplete handling","src/decode.rs Value::decode, decode_packed, decode_unknown"),("garbage","src/decode.rs MessageInfo::decode")],observe=dec)
p("C06","Damage inside a nested message stays inside it",
 "Whatever bytes a length-delimited message or packed field contains (truncated, malformed or random), the fields before and after it in the enclosing message decode exactly as if its content were well formed, and the content itself is decoded (or, for a packed field with a malformed element, reported verbatim as one incomplete value) within its declared length only.",
 ["inputs","fault_sequences"],"every content of a length-delimited field, at every nesting depth, between any siblings",
 "No test decodes a nested message or packed array with damaged content.",
 [D],[("length-limited slices","src/decode.rs Value::decode (Message), decode_packed")],observe=dec)
p("C07","Decoding is compositional: order, duplicates and concatenation",
 "For payloads a and b where a ends at a field boundary, decoding a followed by b yields the fields of a followed by the fields of b, in wire order, with duplicates kept, and the trailing garbage of b. The same bytes wrapped as a nested message decode to the same fields as at the top level (up to the nesting limit of 100 levels).",
 ["inputs"],"all pairs of payloads and all message types",
 "The tests compare single payloads only; no test relates two decodes.",
 [D],[("field loop","src/decode.rs MessageInfo::decode")],observe=dec)
p("C08","Repeated numeric fields decode in packed and unpacked form",
 "A repeated field of a numeric, bool or enum type accepts both wire forms whatever its packed option says: a length-delimited occurrence decodes to the packed array of exactly its elements in order, and an occurrence in the element's own wire type decodes to a single value of the type. An element of a packed array decodes to the same value as the same bytes in a singular field of the type.",
 ["inputs","configurations"],"every packable type, packed and unpacked declarations, arrays of every length and every element value",
 "Tests pack only small non-negative int32 values; no test mixes the forms or packs any other type.",
 [D,B],[("decode_packed","src/decode.rs"),("multiplicity dispatch","src/decode.rs MessageInfo::decode")],observe=dec)
p("C09","Encoding then decoding returns the same value",
 "Any message value whose fields match their declarations (every scalar over its full range, NaN bits included, strings, bytes, enums, packed arrays of any length, messages nested up to 100 levels, and unknown values under undeclared numbers) encodes without panicking, and decoding the bytes yields an equal value with the same field order.",
 ["inputs","configurations"],"every well-typed message value of every context",
 "One hand-written value is round-tripped by the tests; extreme values (i32::MIN, large sint, empty arrays) are not.",
 [D],[("Value::encode / PackedArray::encode","src/decode.rs")],observe=dec)
p("C10","Encoding emits canonical protobuf wire format",
 "The encoded form of a message value is, field by field in order, the tag (number and the wire type of the value) followed by the payload that protobuf prescribes: minimal varints, ten-byte sign extension for negative int32/int64/enum, zigzag for sint types, little-endian fixed values, and exact length prefixes for strings, bytes, packed arrays and nested messages.",
 ["inputs"],"every message value with well-typed fields",
 "Tests compare encodings mostly with the encoder's own output; independent expected bytes exist for a few zigzag values and one packed field.",
 [D],[("Value::encode, wire_type","src/decode.rs"),("into_unsigned_varint / into_signed_varint","src/decode.rs")],observe=["MessageValue::encode"])
p("C11","A parsed context reports exactly what the sources declare",
 "A valid set of proto3 files parses, and in the parsed context every message, enum, service, rpc, field, enum value and oneof declared in the files, at any nesting level and in any package, is found under its full name with exactly its declared name, number, type, streaming flags, oneof membership, parent, inner types and field, enum value, oneof, service and rpc options; names that are not declared are not found.",
 ["programs"],"every set of valid proto3 files without map fields",
 "The tests parse a few fixed sources and check a few attributes; combinations of nesting, packages, oneofs, options and services are unbounded.",
 [PA,B,A],[("AST construction","src/context/parse.rs"),("context construction","src/context/builder.rs")],observe=["Context::get_type / get_message / get_service","MessageInfo::iter_fields / get_field / get_field_by_name / get_oneof","EnumInfo::get_field_by_value","Service::rpc_by_name"])
p("C12","Type names resolve by protobuf scoping",
 "A field, oneof field or rpc type name with a leading dot denotes exactly that full name; any other name denotes the item found in the innermost enclosing scope (the message itself, its parents, then each enclosing package level, then the root) in which the whole name exists, across all files passed, whether declared before or after its use.",
 ["programs","configurations"],"every nesting of packages and messages, every placement and shadowing of same-named types, relative, partially qualified and absolute names",
 "No test declares two candidates for one name; shadowing and partially qualified names are never exercised.",
 [B],[("BuildCache::resolve_type","src/context/builder.rs")],observe=["MessageField::field_type","Rpc::input/output"])
p("C13","Inconsistent source sets are rejected with the right error",
 "Parsing fails, and only fails, with a duplicate-type error naming a full name declared twice, a type-not-found error naming an unresolvable type and the declaration that uses it, or an invalid-kind error naming the type when a message type is required and another kind was found (an rpc argument that is an enum or service, a field type that is a service). A grammatically valid, consistent set of files without map fields, whose literals fit their fields (field numbers, enum values and integer constants within 64 bits) and whose messages nest at most 100 levels, always parses.",
 ["programs"],"every set of grammatical files, with any number of duplicates and dangling or wrong-kind references anywhere",
 "No test covers any error.",
 [B],[("populate","src/context/builder.rs"),("FieldTypeBuilder::build, RpcArgBuilder::build","src/context/builder.rs")],observe=["Context::parse"])
p("C14","Parsing any text never crashes",
 "Parsing any sequence of texts returns a context or an error; it never panics, whatever the text, including damaged, truncated or nonsensical proto sources, literals too large to represent, and messages nested thousands of levels deep.",
 ["inputs","programs"],"every sequence of strings",
 "The parse tests use valid sources and the strings foo and bar.",
 [PA,B,G],[("grammar","src/proto.pest"),("literal parsing, unreachable arms","src/context/parse.rs")],observe=["Context::parse"])
p("C15","Layout, comments and spelling never change what is parsed",
 "The parsed context depends only on the token sequence: whitespace, line ends and comments between any two tokens, a byte order mark, and empty statements change nothing, and identifiers that merely begin with (or, where proto3 allows it, equal) a keyword or built-in type name are ordinary identifiers. Every construct of the proto3 grammar (as published in the language specification: scalar option constants, identifiers that start with a letter, single string literals; whitespace is space, tab, carriage return and line feed) is accepted in every place where the grammar allows it, with messages nested up to 100 levels.",
 ["programs","inputs"],"every valid source and every re-layout of it; every identifier",
 "The tests use one layout per source and no identifier that starts with a keyword.",
 [G,PA],[("PEG grammar, implicit whitespace","src/proto.pest")],observe=["Context::parse"])
p("C16","References and names in a context are always mutually consistent",
 "After any sequence of parsing and insertions, every item found by name or reference reports itself under that name and reference, its full name is its parent's full name (or package name) plus its own name, its parent lists it exactly once among its types, every type a field or rpc refers to resolves to the intended item and kind, and references handed out earlier keep denoting the same item.",
 ["histories","programs"],"every history of parse, package, message and enum insertions",
 "One fixed insertion history is tested; index bookkeeping depends on the whole history.",
 [M,B,A],[("insert_type","src/context/modify_api.rs"),("ContextBuilder::build","src/context/builder.rs")],
 state=[("types, types_by_name","type table and name index","src/context/mod.rs Context")],observe=["Context::get_type, resolve_message, resolve_enum, resolve_package"])
p("C17","A rejected modification reports its cause and changes nothing",
 "Inserting a package whose name exists, a message or enum whose full name another message, enum or service has, a field whose number or name exists or whose oneof is missing, or a oneof whose name exists or which lists a missing field or a field of another oneof, fails with the matching error (carrying the existing item's reference where the error has one) and leaves the context or type exactly as it was; every other insertion, made with references from the same context, succeeds.",
 ["histories"],"every history of successful and failing insertions on contexts, messages and enums",
 "No test performs a rejected modification.",
 [M],[("validate before change","src/context/modify_api.rs")],observe=["Context::insert_*","MessageInfo::add_field / add_oneof","EnumInfo::add_field"])
p("C18","Fields and oneofs of a type agree with each other",
 "In every message, whether parsed from a valid source or built by any sequence of field and oneof additions, numbers and names identify fields one to one, lookups by number, by name and iteration (in ascending number order) agree, and a field belongs to a oneof exactly when the oneof lists its number, exactly once, and in no other oneof.",
 ["histories","programs"],"every history of field and oneof additions in any order; every parsed message",
 "The tests build one message in one order, and no test moves, repeats or conflicts fields.",
 [M,B],[("add_field, add_oneof","src/context/modify_api.rs"),("MessageBuilder::build","src/context/builder.rs")],observe=["MessageInfo::iter_fields, get_field, get_field_by_name, get_oneof, oneofs"])
p("C19","A context built by hand equals the parsed one",
 "For any set of distinct packages, messages and enums, building a context with the insertion functions in declaration order gives a context equal to the one obtained by parsing the equivalent files, and both decode every payload identically.",
 ["programs","histories"],"every set of files without services, options and map fields, with oneof fields in ascending number order",
 "Two fixed examples are compared by the tests.",
 [M,B],[("insert_type vs ContextBuilder::build","src/context/modify_api.rs, src/context/builder.rs")],observe=["Context == Context"])
p("C20","Literals have their exact values",
 "Every literal in a source is reported with its exact value: decimal, octal and hexadecimal integers with optional sign over the whole representable range, floating-point constants (inf and nan included) rounded to the nearest double (signed zeros included), booleans, identifiers with parts and parentheses kept, and strings with every hexadecimal, octal and character escape replaced by its byte and every other character by its UTF-8 bytes.",
 ["inputs","programs"],"every literal of every form, in field numbers, enum values and option values",
 "The tests contain small decimal integers and a plain string; no escape, octal, hexadecimal, negative option or floating-point literal is tested.",
 [PA,G],[("parse_*_literal","src/context/parse.rs"),("literal rules","src/proto.pest")],observe=["ProtoOption::value","MessageField::number","EnumField::value"])
p("C21","Multiplicity and packing follow the proto3 rules",
 "A field is reported single, optional or repeated as declared; a repeated field of a packable scalar type is packed unless its packed option is set to something other than true, repeated strings, bytes, messages and enums are never reported packed, and oneof fields are single. Other options never influence it.",
 ["programs"],"every label, every type and every combination and order of field options",
 "The tests cover the default for two types and never set the packed option.",
 [B,PA],[("resolve_multiplicity","src/context/builder.rs")],observe=["MessageField::multiplicity"])
p("C22","Decoding depends only on the bytes and the type definitions",
 "Decoding the same bytes as the same message type gives the same value whether through the context or the message, however often, in whatever order and from however many threads other payloads are decoded, and after any insertion of further packages and types; decoding and encoding never change the context.",
 ["histories","schedules"],"every interleaving of decodes, encodes and insertions on one context, including concurrent decodes",
 "Each test decodes once on a fresh context.",
 [D,A],[("immutable context","src/context/mod.rs"),("decode entry points","src/decode.rs")],observe=dec)
p("C23","Files may be given in any order and split freely",
 "Parsing a permutation of the same files, or the same top-level declarations spread differently over files with the same package, yields contexts in which every full name denotes the same definition with the same resolved type names, and every message decodes every payload to the same fields and values.",
 ["programs","configurations"],"every set of files, every permutation and every split along top-level declarations",
 "One two-file set in one order is parsed by the tests.",
 [B],[("populate order, index assignment","src/context/builder.rs")],observe=["Context::parse"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
