#!/usr/bin/env python3
# Generates properties.jsonl (kept as code so that the text is reviewable in one place).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

S="src/cxon/"
p("C01","Reading JSON is memory-safe and defined for any bytes",
 "For any byte sequence whatsoever, of any length and cut off at any point, reading it as JSON into any supported type, from any kind of input iterator, never reads outside the given range, never uses uninitialised or freed memory, never has undefined behaviour, never trips an internal assertion and always returns. This holds whether or not the input is well-formed, in C++11 and C++20 builds, with and without assertions compiled in.",
 ["inputs","configurations"],"all byte strings x all supported target types x input iterator categories x language standard x assertion setting",
 "Tests feed a few hundred NUL-terminated literals into std::string-backed buffers built with -DNDEBUG and no sanitizer, so an over-read of one byte or an aborted assertion is invisible to them.",
 [S+"lang/common/cio/char.hxx",S+"lang/common/cio/string.hxx",S+"lang/common/cio/numeric.hxx",S+"lang/common/cio/value.hxx",S+"lang/common/cio/cio.hxx",S+"lang/common/charconv.hxx",S+"lang/json/class.hxx",S+"lang/json/enum.hxx",S+"lib/node.json.hxx"],
 [("UTF-8 decoding and validation at the end of the range",S+"lang/common/cio/char.hxx"),("string body scan",S+"lang/common/cio/string.hxx"),("number scan and conversion",S+"lang/common/cio/numeric.hxx"),("skipping of unwanted values",S+"lang/common/cio/value.hxx"),("lookup of member and enumerator names",S+"lang/json/class.hxx")],
 observe=["from_bytes on exact-size heap buffers under ASan/UBSan, and on checked iterators"])
p("C02","Reading CBOR is memory-safe and defined for any bytes",
 "For any byte sequence whatsoever, of any length and cut off at any point, reading it as CBOR into any supported type, from any kind of input iterator, never reads outside the given range, never uses uninitialised or freed memory, never has undefined behaviour, never trips an internal assertion and always returns. This holds in C++11 and C++20 builds, with and without assertions compiled in.",
 ["inputs","configurations"],"all byte strings x all supported target types x input iterator categories x language standard x assertion setting",
 "Tests read short well-formed literals without sanitizers; lengths that lie, truncated heads and nested tags or chunks are hardly sampled.",
 [S+"lang/cbor/fundamental.hxx",S+"lang/cbor/compound.hxx",S+"lang/cbor/common/container.hxx",S+"lang/cbor/common/sink.hxx",S+"lang/cbor/common/tag.hxx",S+"lang/cbor/class.hxx",S+"lang/common/bio/io.hxx",S+"lib/node.cbor.hxx"],
 [("fixed-width integer and float extraction",S+"lang/common/bio/io.hxx"),("definite and indefinite strings and arrays",S+"lang/cbor/common/container.hxx"),("skipping of unknown items",S+"lang/cbor/common/sink.hxx"),("tag reading",S+"lang/cbor/common/tag.hxx")])
p("C03","The JSON node reader accepts exactly JSON and yields the denoted value",
 "With default format settings a generic JSON node is read successfully from the whole of a text if and only if the text is a JSON value as defined by RFC 8259 (nesting within the depth limit, no unpaired surrogate escapes, numbers representable by the node's number types); the node then holds exactly that value: same kinds, same members and elements in order, same strings, integers exactly and reals correctly rounded. Object members with repeated names are outside this property.",
 ["inputs"],"all texts, valid and invalid, up to the depth limit",
 "The accept/reject suites hold ~300 fixed documents; acceptance of every other text, and the value obtained, is not compared with any independent definition.",
 [S+"lib/node.json.hxx",S+"lang/common/cio/cio.hxx",S+"lang/common/cio/string.hxx",S+"lang/common/cio/numeric.hxx",S+"lang/common/cio/container.hxx",S+"lang/json/node/node.hxx"],
 [("kind dispatch on the first character",S+"lib/node.json.hxx"),("list and map syntax, separators",S+"lang/common/cio/container.hxx"),("literal, whitespace and string scanning",S+"lang/common/cio/cio.hxx")])
p("C04","Values written as JSON are valid JSON and read back equal",
 "Writing any value of any supported type as JSON yields text that is valid JSON with the documented shape for that type, and reading that text into a default-constructed object of the same type succeeds, consumes the whole text and gives an equal value (floating point values included, bit for bit up to the sign and payload of NaN). Stacks (written top first, read bottom first) and unordered containers' element order are excepted; strings are required to be valid Unicode.",
 ["inputs","configurations"],"all values of the supported types (fundamental types, strings of every character type, arrays, pointers, pairs, tuples, sequence, associative and unordered containers, optionals, variants, bit sets, complex numbers, durations, value arrays, smart pointers, nested combinations)",
 "Tests check one direction at a time on a handful of literals per type; nothing composes writing with reading or compares with an independent JSON parser.",
 [S+"lang/json/fundamental.hxx",S+"lang/json/compound.hxx",S+"lang/json/lib/std",S+"lang/json/lib/boost",S+"lang/common/cio/container.hxx",S+"lang/common/cio/char.hxx",S+"lang/common/cio/numeric.hxx",S+"lang/common/container.hxx"],
 [("per-type readers and writers",S+"lang/json/lib/std"),("list and map writers",S+"lang/common/cio/container.hxx"),("string escaping, scalar and SIMD paths",S+"lang/common/cio/char.hxx")])
p("C05","Values written as CBOR are well-formed CBOR and read back equal",
 "Writing any value of any supported type as CBOR yields exactly one well-formed CBOR item of the documented shape for that type, with integers and lengths in their shortest form, and reading it into a default-constructed object of the same type succeeds, consumes the whole item and gives an equal value (floating point values bit for bit up to the sign and payload of NaN, long double at double precision).",
 ["inputs","configurations"],"all values of the supported types, as for JSON, with sizes crossing the 24, 256 and 65536 length boundaries",
 "Tests compare a few encodings byte by byte; length and magnitude boundaries are sampled only for some types, and no independent decoder looks at the output.",
 [S+"lang/cbor/fundamental.hxx",S+"lang/cbor/compound.hxx",S+"lang/cbor/common/container.hxx",S+"lang/cbor/lib/std",S+"lang/cbor/lib/boost",S+"lang/common/bio/io.hxx"],
 [("integer, float and header writing",S+"lang/cbor/fundamental.hxx"),("array, map and string writing",S+"lang/cbor/common/container.hxx"),("per-type readers and writers",S+"lang/cbor/lib/std")])
p("C06","The CBOR node reader decodes what RFC 7049 says and rejects the rest",
 "A generic CBOR node is read successfully from a byte sequence if and only if it starts with a well-formed CBOR item (nesting within the depth limit, values representable by the node's types); the node then holds exactly the value the encoding denotes, whatever argument widths, definite or indefinite lengths and tags the encoder chose, and reading stops exactly at the end of the item. Truncated items, reserved additional-information values, bad chunk types and stray breaks are reported as errors.",
 ["inputs"],"all byte strings; all encodings (argument widths, chunkings, float widths) of all values",
 "Tests sample the RFC's appendix A encodings; other widths, chunkings, nestings and malformed heads of the same values are not covered.",
 [S+"lib/node.cbor.hxx",S+"lang/cbor/fundamental.hxx",S+"lang/cbor/common/container.hxx",S+"lang/cbor/common/tag.hxx",S+"lang/common/bio/io.hxx",S+"lang/cbor/node/node.hxx"],
 [("dispatch on the initial byte",S+"lib/node.cbor.hxx"),("size, chunk and break handling",S+"lang/cbor/common/container.hxx"),("half, single and double precision decoding",S+"lang/common/bio/io.hxx")])
p("C07","Results do not depend on how the bytes are supplied or the library is built",
 "For a given type and the same input bytes, reading gives the same success or failure, the same amount of input consumed on success and the same value whether the bytes come as a pointer range, a contiguous or node-based container, or a forward or single-pass iterator, and in C++11 and C++20 builds alike; for JSON this is claimed for texts whose numbers follow the JSON grammar and are no longer than the documented number-buffer limit. Writing gives byte-identical output in C++11 and C++20 builds and with SIMD on or off.",
 ["inputs","configurations"],"inputs x iterator categories x language standards x SIMD setting",
 "Each iterator kind takes a differently specialised code path (fast pointer path, random access, single pass; native or fallback number conversion); tests use std::string for nearly everything and never compare two paths on the same input.",
 [S+"cxon.hxx",S+"lang/common/cio/cio.hxx",S+"lang/common/cio/string.hxx",S+"lang/common/cio/numeric.hxx",S+"lang/common/cio/char.hxx",S+"lang/common/charconv.hxx",S+"lang/common/bio/io.hxx",S+"lib/node.json.hxx"],
 [("iterator-category specialisations",S+"lang/common/cio/numeric.hxx"),("number conversion, standard and fallback",S+"lang/common/charconv.hxx"),("byte extraction per iterator category",S+"lang/common/bio/io.hxx")])
p("C08","The reported stop position is exact and nothing after a value matters",
 "On success the reported position is the first byte after the value read, so that concatenated values can be read one after another, and bytes after that position never change the value or the outcome (for a top-level JSON number: bytes that cannot extend the number); on failure the reported position lies within the input and an error condition of the format is set. The result converts to true exactly when no error is set.",
 ["inputs","histories"],"all values x all suffixes; all sequences of concatenated values; all malformed inputs",
 "Tests check the consumed length for few inputs and never read values in sequence out of one buffer or vary what follows them.",
 [S+"cxon.hxx",S+"lang/common/cio/numeric.hxx",S+"lang/common/cio/string.hxx",S+"lang/cbor/common/container.hxx",S+"lang/json/class.hxx",S+"lang/cbor/class.hxx"],
 [("result construction",S+"cxon.hxx"),("position handling on errors",S+"lang/common/cio/cio.hxx")])
p("C09","Bounded output is never overrun; it fails exactly when it does not fit",
 "Writing into a fixed range succeeds if and only if the complete output fits: then the bytes, and their number, are the same as written to a growing container or through an output iterator; otherwise an output failure is reported. Nothing is ever written outside the range, for JSON (plain or indented) and CBOR, for every size of the range, and whatever was written into the range on failure is a prefix of the complete output.",
 ["inputs","fault_sequences"],"all values x all range sizes 0..n+1 x kinds of output",
 "The point of overflow can fall between any two bytes of an output; tests exercise a few values with a few buffer sizes.",
 [S+"cxon.hxx",S+"lang/common/container.hxx",S+"lang/common/cio/cio.hxx",S+"lang/common/cio/char.hxx",S+"lang/common/bio/io.hxx",S+"lang/json/tidy.hxx"],
 [("range container",S+"lang/common/container.hxx"),("append and poke error propagation",S+"lang/common/cio/cio.hxx")])
p("C10","JSON numbers convert exactly or are refused",
 "Reading a JSON number into an arithmetic type gives exactly that number if it is an integer in the range of an integral type, and the correctly rounded nearest value for a floating type; a number outside the range of the target is reported as an error and leaves the target unchanged, on every kind of input. Writing an arithmetic value gives a JSON number denoting it: integers exactly, floating values such that reading restores the same value at default precision, and rounded to the requested number of significant digits when a precision is given.",
 ["inputs","configurations"],"all numerals and all values of the integral and floating types x iterator kinds x standards",
 "There are 2^64 values and unboundedly many numerals per type; tests take a few limits on the pointer path, the other conversion paths (fallback conversion, buffered input) are barely touched.",
 [S+"lang/common/cio/numeric.hxx",S+"lang/common/charconv.hxx",S+"lang/json/fundamental.hxx"],
 [("number grammar and conversion",S+"lang/common/cio/numeric.hxx"),("conversion fallback",S+"lang/common/charconv.hxx")])
p("C11","Text survives JSON intact and invalid Unicode is refused, never invented",
 "Every Unicode string, in every character type, is written as a valid JSON string in valid UTF-8 and read back identical, wherever its special characters fall; every way of escaping a string reads as the same string in every character type. Ill-formed text is refused with an error and never turned into something else: invalid UTF-8, raw control characters and unpaired surrogate escapes on reading, and unpaired high surrogates on writing from 16- and 32-bit strings (lone low surrogates, values beyond Unicode and raw bytes of 8-bit strings are the caller's responsibility on writing).",
 ["inputs"],"all code point sequences x character types x positions relative to vector-block boundaries; all ill-formed UTF-8/16/32",
 "1.1M code points, every position modulo 16 and every combination of neighbours; tests sample some code points at fixed positions.",
 [S+"lang/common/cio/char.hxx",S+"lang/common/cio/string.hxx"],
 [("UTF-8 decode, encode, validate",S+"lang/common/cio/char.hxx"),("escaping, scalar and 16-byte SIMD",S+"lang/common/cio/char.hxx"),("bulk copy of unescaped runs",S+"lang/common/cio/string.hxx")])
p("C12","Nodes behave as independent values under any history of operations",
 "After any sequence of constructions, copies, moves, assignments (including self-assignment and assignment of a node from one of its own descendants), swaps, resets, kind changes and edits, every node holds exactly the value a plain tree model predicts, copies never share state, and no operation leaks, double-frees or touches dead memory. Assigning replaces the previous content whatever the previous and new kinds are.",
 ["histories","configurations"],"all operation histories x node kinds before and after x node configurations (which kinds live on the heap, container choices, allocator propagation)",
 "The pairs (old kind, new kind) times operation times configuration number in the thousands before histories are even considered; tests walk a few of them once each, without a leak or lifetime monitor.",
 [S+"lang/common/node-value.hxx",S+"lang/json/node/node.hxx",S+"lang/cbor/node/node.hxx",S+"lib/node.ordered.hxx"],
 [("construct, assign, swap, destroy of the active alternative",S+"lang/common/node-value.hxx"),("constructors, imbue, initializer lists",S+"lang/json/node/node.hxx")],
 state=[("active kind and storage","which alternative is alive and whether on the heap",S+"lang/common/node-value.hxx")])
p("C13","Allocators are used consistently",
 "Everything a node or a read pointer owns is obtained from the allocator it was given and returned to an equal allocator with the same type and count, through copies, moves, assignments and swaps with equal or unequal allocators and every propagation setting; a node constructed, copied or moved with an explicit allocator uses that allocator for its own storage and for what is read into it, and, where the allocator propagates into elements, for its content. After everything is destroyed nothing allocated remains, also when a read fails part way (raw pointers owned by the user excepted).",
 ["histories","inputs","configurations"],"histories of operations over nodes with several allocators x propagation traits x inputs that fail at any point",
 "Tests check a few single operations with one counting resource; a mismatch only shows with unequal allocators and specific before/after kinds.",
 [S+"lang/common/node-value.hxx",S+"lang/common/allocator.hxx",S+"lang/common/container.hxx",S+"lang/json/node/node.hxx",S+"lang/cbor/node/node.hxx",S+"lang/json/compound.hxx",S+"lang/cbor/compound.hxx"],
 [("allocator propagation in node operations",S+"lang/common/node-value.hxx"),("allocator of the reading context",S+"lang/common/allocator.hxx")])
p("C14","Indented JSON is the same document",
 "Writing a value through the indenter yields the same JSON document as writing it plainly: removing insignificant whitespace outside strings gives identical bytes. The layout is as configured (line per element, indent width and character by depth, empty containers kept together), indenting existing JSON text gives the same result as indenting while writing, and both work for every kind of output, including fixed ranges.",
 ["inputs","configurations"],"all JSON values x indent settings x output kinds",
 "Tests indent two or three documents to strings; quotes and escapes in strings, empty and nested containers and bounded outputs combine in many more ways.",
 [S+"lang/json/tidy.hxx"],
 [("indenting output filter",S+"lang/json/tidy.hxx")])
p("C15","User classes and enums map by name, exactly",
 "Reading an object into a class sets precisely the members named in the text, in any order, leaves the others as they were, passes over skipped members, and fails on unknown or repeated names; writing emits every member not equal to its default exactly once, and the result reads back equal. Enums map by their declared names (JSON) or values (CBOR), and anything not declared is refused; names match only in full.",
 ["inputs","configurations"],"all member subsets and orders x member values x skipped content x near-miss names; JSON and CBOR",
 "Tests use a handful of classes with fixed texts; order, subsets, name prefixes, embedded escapes and skipped content multiply out.",
 [S+"lang/json/class.hxx",S+"lang/json/enum.hxx",S+"lang/cbor/class.hxx",S+"lang/cbor/enum.hxx",S+"lang/common/cio/value.hxx",S+"lang/cbor/common/sink.hxx"],
 [("member lookup and bookkeeping",S+"lang/json/class.hxx"),("member lookup and bookkeeping",S+"lang/cbor/class.hxx"),("skipping",S+"lang/common/cio/value.hxx")])
p("C16","Format options change the notation, not the data",
 "With any combination of the format options - comments, trailing separators, unquoted keys on reading and writing, JavaScript NaNs, strict JavaScript output - and with the configuration notation built from them, what is written reads back as the same data under the same options, every default-format JSON document reads as under the default format where the notation includes JSON, and comments, extra whitespace and trailing separators placed where allowed never change the value. Without an option, the notation it enables is refused.",
 ["inputs","configurations"],"values x format option combinations x placements of comments and separators",
 "The options interact pairwise and with every type's keys and values; tests try each option alone on a few documents.",
 [S+"lang/common/cio/cio.hxx",S+"lang/common/cio/key.hxx",S+"lang/common/cio/string.hxx",S+"lang/common/cio/container.hxx",S+"lang/json/json.hxx"],
 [("comment and whitespace skipping",S+"lang/common/cio/cio.hxx"),("key quoting and unquoting",S+"lang/common/cio/key.hxx"),("configuration notation",S+"lang/json/json.hxx")])
p("C17","Generic nodes carry the same data across JSON and CBOR",
 "A JSON node written as CBOR and read back as a JSON node is equal to the original, and a CBOR node holding only JSON-expressible data written as JSON and read back holds the same data; reading the same JSON text into a JSON node or a CBOR node, or the same CBOR bytes into either, yields corresponding values. Insertion-ordered nodes keep the order and multiplicity of members through reading, writing, copying and conversion.",
 ["inputs"],"all node values x both formats x node flavours",
 "Tests convert a few documents one way; kind-by-kind correspondence over arbitrary nesting is not compared.",
 [S+"lib/node.json.hxx",S+"lib/node.cbor.hxx",S+"lib/node.ordered.hxx",S+"lib/node.hxx"],
 [("JSON node in CBOR",S+"lib/node.cbor.hxx"),("CBOR node in JSON",S+"lib/node.json.hxx"),("ordered objects",S+"lib/node.ordered.hxx")])
p("C18","Running out of memory at any point leaves objects valid and nothing leaked",
 "If any single allocation fails during reading, writing, or constructing, copying, moving, assigning or swapping a node, the failure surfaces as the allocator's exception; afterwards every object involved can still be inspected, assigned, reused and destroyed, the source of a copy is unchanged, and nothing is leaked or freed twice.",
 ["fault_sequences","histories"],"every allocation index of every operation",
 "Tests never make an allocation fail.",
 [S+"lang/common/node-value.hxx",S+"lang/common/allocator.hxx",S+"lang/common/container.hxx",S+"lang/json/compound.hxx",S+"lang/cbor/compound.hxx",S+"lang/json/node/node.hxx",S+"lang/cbor/node/node.hxx"],
 [("order of destroying, constructing and recording the kind",S+"lang/common/node-value.hxx"),("ownership of partly read pointers",S+"lang/common/allocator.hxx")])
p("C19","Independent reads and writes may run concurrently",
 "Any number of threads may read and write distinct objects at the same time, and may concurrently write, compare, hash or copy from the same const object, without data races, and each gets the result it would get alone.",
 ["schedules"],"all interleavings of calls on distinct objects and of const calls on shared objects",
 "All tests are single-threaded; hidden shared state (caches, lookup tables built on first use, locale or errno use) would not show.",
 [S+"cxon.hxx",S+"lang/common/cio/key.hxx",S+"lang/common/charconv.hxx",S+"lang/json/error.hxx",S+"lang/json/class.hxx",S+"lang/common/cio/numeric.hxx"],
 [("function-local static objects",S+"lang/json/error.hxx"),("conversion through C library state",S+"lang/common/charconv.hxx")])
p("C20","Hostile input cannot exhaust stack or memory through generic nodes",
 "Reading or writing generic nodes deeper than the recursion limit (64 by default, configurable) is reported as that error at exactly that depth for every nesting construct of JSON and CBOR, so the call stack stays bounded for any input. Reading never allocates more than a small constant factor of the bytes actually supplied, whatever lengths the input announces, and skipping over unwanted input or whitespace and comments needs no stack proportional to it.",
 ["inputs"],"all nesting patterns and announced lengths",
 "Tests check one or two depths for arrays; announced sizes and other nesting constructs (tags, keys, skipped members, comments) are open-ended.",
 [S+"lib/node.hxx",S+"lib/node.json.hxx",S+"lib/node.cbor.hxx",S+"lang/cbor/common/container.hxx",S+"lang/cbor/common/sink.hxx",S+"lang/common/cio/cio.hxx",S+"lang/common/cio/value.hxx"],
 [("recursion guard",S+"lib/node.hxx"),("reservation from announced length",S+"lang/cbor/common/container.hxx"),("skipping",S+"lang/cbor/common/sink.hxx")])
p("C21","CBOR numbers convert exactly or are refused",
 "Reading a CBOR integer into an integral type gives exactly that integer when it is in the type's range (signed 8-bit and character types take the values of their unsigned counterparts as bit patterns), whatever width it was encoded with, and is otherwise reported as an error; CBOR floats of every width read into floating types as the value they encode (rounded only when the target is narrower). Integral and floating values of every type are written as the number they are.",
 ["inputs"],"all CBOR integer and float encodings x integral and floating target types",
 "All 2^64 arguments x 5 widths x 2 signs x 12 targets; tests try a few per type and none out of range.",
 [S+"lang/cbor/fundamental.hxx",S+"lang/common/bio/io.hxx"],
 [("integer argument conversion",S+"lang/cbor/fundamental.hxx"),("float decoding incl. half precision",S+"lang/common/bio/io.hxx")])
p("C22","Node comparison and hashing are consistent",
 "For nodes of either format, equality is exactly equality of kind and content, inequality is its negation, ordering is a strict weak order consistent with equality, comparison with plain values agrees with comparison with nodes made from them, and equal nodes have equal hashes, so nodes work as keys of ordered and hashed containers.",
 ["inputs"],"all pairs and triples of nodes (NaN excepted), all kinds",
 "Tests compare some pairs of kinds; transitivity, antisymmetry and hash agreement need pairs and triples over nested values.",
 [S+"lang/json/node/node.hxx",S+"lang/cbor/node/node.hxx",S+"lang/common/hash.hxx",S+"lib/node.ordered.hxx"],
 [("relational operators",S+"lang/json/node/node.hxx"),("hash combination",S+"lang/common/hash.hxx")])
p("C23","A typed read never silently alters data",
 "Reading a valid JSON text or CBOR item into a typed target either fails or yields the data in the input: every element and member of the input is present in the result with its value, nothing is dropped, duplicated, truncated, reordered or invented, in particular when the input has more or fewer elements than a fixed-size target or a different shape from it. Duplicate keys and set elements, and padding of fixed or null-terminated arrays with default values, are excepted.",
 ["inputs"],"all pairs of well-formed input and target type",
 "Tests pair each type with inputs meant for it; most mismatched pairs (long input for short array, object for list, list for tuple) are never tried.",
 [S+"lang/json/compound.hxx",S+"lang/common/cio/container.hxx",S+"lang/cbor/common/container.hxx",S+"lang/cbor/compound.hxx",S+"lang/json/lib/std",S+"lang/cbor/lib/std"],
 [("fixed-size and growing sequence readers",S+"lang/common/cio/container.hxx"),("fixed-size and growing sequence readers",S+"lang/cbor/common/container.hxx")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
