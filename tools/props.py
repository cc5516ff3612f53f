#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json. Run after editing the table below."""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, tech=tech, note=note))

I, H, S, C, G, F = "inputs", "histories", "schedules", "configurations", "programs", "fault_sequences"

prop("C01", "Parsing valid JSON yields exactly the value it denotes",
 "Parsing any valid JSON text succeeds and yields a document whose root has the same type, members in the same order (every occurrence of a repeated key), elements, literal texts of numbers and contents of strings as that text, whatever its whitespace, escapes or nesting. What follows the value is returned as the tail, exactly.",
 [I], "every valid JSON text: all value kinds, whitespace placements, escape sequences, string contents, number notations, nesting shapes, document sizes and repeated keys",
 "The tests parse a few small hand written documents and benchmark files; which byte sits at a string boundary, at a slice growth or after an escape is sampled a handful of times.",
 ["parser.go", "document.go"], [("recursive descent value scanner", "parser.go parseValue"), ("array and object scanners with node growth", "parser.go parseArray, parseObject"), ("growth of the member list", "parser.go appendV")],
 [("nodes", "flat list of nodes addressed by id", "document.go Document"), ("values", "key and child id of the members of a node", "document.go node")],
 ["Document.Parse, Node.Type, Raw, Unescaped, Values"],
 "runtime monitor: strict reference parser as oracle over generated JSON", "Exploration of generated and real documents against an independent strict parser that preserves order, raw numbers and repeated keys.")

prop("C02", "Structurally malformed JSON is rejected and leaves the document unchanged",
 "Text whose structure is not JSON - a missing, extra or misplaced bracket, brace, comma or colon, a missing value, a key that is not a string, a misspelled literal, an unterminated string - is rejected with an error and a zero node. A rejected parse leaves every value the document already holds readable and unchanged, and the document ready for the next parse.",
 [I, H], "every malformed token sequence, every single-edit corruption of a valid text, after every history of earlier parses",
 "The tests try a short list of malformed documents; a scanner that skips one check accepts garbage only for particular neighbouring tokens, and a failed parse that leaves nodes behind shows only in what is parsed next.",
 ["parser.go", "document.go", "error.go"], [("delimiter checks", "parser.go parseArray, parseObject"), ("roll back of nodes of a failed parse", "parser.go Document.Parse")],
 [("nodes", "nodes of a failed parse must not stay visible", "document.go Document")], ["Document.Parse result, Node handles obtained earlier"],
 "runtime monitor: exhaustive short token sequences and mutations against a reference grammar", "All token sequences up to a bound plus random corruptions, compared to a reference grammar for structure.")

prop("C03", "Truncated input and value streams are told apart from garbage",
 "Parsing any proper prefix of a valid text that does not hold a complete value (empty and all-space inputs included) fails with an unexpected-end error, and returns the input as the tail. Parsing a stream of concatenated or space separated values one after the other yields each value once, in order, each call returning as tail exactly the bytes not yet consumed.",
 [I, H], "every prefix of every valid JSON text, every sequence of valid values",
 "The tests cut a few inputs; every byte offset of every token is a different place to run out of input.",
 ["parser.go", "error.go"], [("end of input checks", "parser.go eof"), ("tail computation", "parser.go Document.Parse")], [], ["Document.Parse error and tail"],
 "runtime monitor: every prefix of generated texts, stream conservation", "Every byte prefix of generated texts; streams are reassembled from values and tails.")

prop("C04", "Parse errors point at the offending byte",
 "When a text is malformed the error reports a position inside the malformed token, between the start of that token and the first byte that cannot continue a valid text, and the kind of value being scanned there.",
 [I], "every single-byte corruption of every valid JSON text",
 "The tests check no positions beyond a couple of examples; each error site computes its own offset.",
 ["parser.go", "error.go"], [("position of the scanner at each abort", "parser.go abort"), ("error with position and type", "error.go ParseError")], [], ["ParseError.Pos, ParseError.Type"],
 "runtime monitor: reference grammar computes first bad byte", "Exploration of corrupted texts with the first bad byte computed by a reference scanner.")

prop("C05", "Arbitrary input never crashes or hangs the parser",
 "Parsing any byte string, malformed, truncated, not UTF-8, huge or nested up to hundreds of thousands of levels, terminates without a panic, in time roughly linear in its length. What is accepted serializes to text that parses to the same tree and serializes to itself.",
 [I], "every byte string",
 "The tests have no hostile input; out of range accesses need particular bytes at particular distances from the end of the input.",
 ["parser.go", "document.go", "strjson/unescape.go", "numjson/numjson.go"], [("bounds checks of the scanner", "parser.go parseValue, parseArray, parseObject"), ("serializer", "document.go appendJSON")], [], ["Document.Parse, Node.AppendJSON, all accessors"],
 "runtime monitor: bounds-checked execution of mutated inputs with watchdogs", "Mutation and grammar based hostile inputs under Go's bounds and nil checks, CPU and memory watchdogs; known finding: inputs nested tens of millions of levels overflow the stack.")

prop("C06", "Reusing a document never changes what is parsed or what was parsed",
 "The result of parsing a text does not depend on what the document was used for before: after any history of parses (failed ones included), edits and resets it equals the result on a new document. Values parsed or built earlier into a document keep their contents while more is parsed into it, until it is reset.",
 [H, I], "every history of parse, failed parse, build, edit and reset operations on a document",
 "The tests use a document once or twice; memory reused from earlier, larger or failed parses matters only after particular histories.",
 ["document.go", "parser.go"], [("node and value slices reused after reset", "document.go grow, reset, Reset; parser.go node"), ("growth of the node list", "document.go grow")],
 [("nodes", "nodes whose memory is reused", "document.go Document"), ("rev", "revision that invalidates handles", "document.go Document")], ["Parse results of a reused document and of a new one"],
 "runtime monitor: differential histories, reused document versus new document", "Random histories with snapshots of all live values re-observed after every step.")

prop("C07", "Editing a document changes exactly what was asked",
 "Setting, replacing, appending, inserting, removing, slicing and stripping members and elements, and setting scalars, change the document as the same edits change an ordered tree of plain values, and change nothing else. Edits that do not apply (wrong type, index out of range, absent key, invalid node) leave the document as it was.",
 [H, I], "every history of edits over several documents and trees, every key, index and value",
 "The tests make single edits; an edit that reuses memory wrongly shows in another node after later edits.",
 ["node.go", "document.go"], [("member edits", "node.go Set, Del, Strip"), ("element edits", "node.go Append, Slice, Replace, Remove"), ("scalar edits", "node.go SetInt SetUint SetFloat SetString SetTrue SetFalse SetNull")],
 [("values", "members of a node", "document.go node")], ["Node.AppendJSON and accessors after each edit"],
 "runtime monitor: model-based state checker after every edit", "Random edit histories against a value-tree model, whole forest compared after every step.")

prop("C08", "Attaching nodes never aliases or creates cycles",
 "A value attached to a tree - from the same or another document, already attached elsewhere, or containing the place it is attached to - appears there as it was at that moment; editing it at one place never changes another attached place, and no sequence of attachments produces a cycle or a shared subtree. Attaching a value of another document leaves that document unchanged.",
 [H], "every sequence of attachments and edits within and between documents",
 "The tests attach freshly built nodes; sharing and cycles need a node attached twice, to itself, or to its own descendant, followed by an edit.",
 ["document.go", "node.go"], [("copy or adopt decision", "document.go copyOrAdopt"), ("deep copy", "document.go ncopy"), ("root flag of nodes", "types.go infRoot")],
 [("info", "marks nodes that belong to no parent", "types.go info")], ["Node handles and serialization after later edits"],
 "runtime monitor: model-based checker with graph acyclicity monitor", "Attachment heavy histories against a value-tree model with a child-uniqueness/cycle monitor.")

prop("C09", "Stale and absent nodes are inert",
 "A node that does not exist, or that belongs to a document since reset, closed or given back to a pool, reads as absent - no type, no data, failed conversions, nothing serialized but an error - and every edit through it is a no-op, whatever the document is used for afterwards. No such use panics or affects values parsed later.",
 [H], "every operation through every invalid handle after every history of resets and reuse",
 "The tests look up a few missing keys; using a handle after its document was recycled by other work takes a longer history.",
 ["node.go", "document.go"], [("revision check of handles", "node.go Node.get"), ("revision bump on reset", "document.go Reset, Pool.Put, Close")],
 [("rev", "revision of a document and its handles", "document.go Document, node.go Node")], ["all Node operations on invalid handles"],
 "runtime monitor: operation matrix over invalid handles with before/after snapshots", "Every public operation through every kind of invalid handle with snapshots of live data.")

prop("C10", "Lookups, iterators and accessors agree with the tree",
 "Looking up a path, getting a key and indexing an array return exactly the value found by walking the tree, or an absent node when there is none (no key, not a plain decimal index, out of range, not a container). Iterating a container yields each member or element once, in order, with its key or index, and reports the number remaining; raw text, type and conversions of each node match its literal.",
 [I], "every tree, every path, key (as written in the source) and index, every iterator use",
 "The tests look up a few paths; index parsing, empty path elements and iteration ends vary with inputs.",
 ["document.go", "node.go"], [("path walk", "document.go lookup"), ("iterator", "node.go IterV"), ("accessors", "node.go Raw, Data, ToBool, ToInt, ToUint, ToFloat")], [], ["Node.Lookup, Get, Index, Values, accessors"],
 "runtime monitor: reference tree walk as oracle", "Generated trees and hostile paths against a plain tree walk.")

prop("C11", "Serialization is complete, valid and faithful",
 "Serializing any document, parsed, edited or built, appends valid JSON that denotes exactly its value to the buffer given and leaves the bytes before it intact; a node written to a writer produces the same bytes and reports their number. Invalid nodes and failing or short writers are reported as errors, and no output written earlier is ever altered by later serializations.",
 [I, H, F], "every document, every destination buffer, every writer failure",
 "The tests compare a few outputs; aliasing with pooled buffers and failing writers need a history and faults.",
 ["document.go", "node.go"], [("serializer", "document.go appendJSON"), ("pooled buffer of the printer", "node.go PrintJSON")],
 [("buffer pool", "buffers shared by printers", "node.go")], ["AppendJSON output, PrintJSON writes"],
 "runtime monitor: output validity checker, writer fault injection, retained-bytes monitor", "Outputs re-parsed by encoding/json and the reference parser; writers that fail, write short or retain their argument.")

prop("C12", "Conversion to plain Go values agrees with encoding/json",
 "Converting a parsed value to plain Go values (maps, slices, strings, float64, bool, nil) gives the same result as encoding/json decoding the same text to an empty interface, for every valid JSON text. It reports failure for numbers that do not fit a float64 and nodes that do not exist.",
 [I], "every valid JSON text",
 "The tests convert a couple of small documents.",
 ["document.go", "node.go"], [("conversion", "document.go toInterface")], [], ["Node.ToInterface"],
 "runtime monitor: differential oracle encoding/json", "Generated documents, deep comparison including float bits and unescaped keys.")

prop("C13", "Numbers parse to the correctly rounded float64",
 "Parsing any JSON number to a float gives the nearest float64, bit for bit, including negative zero, subnormals, halfway cases and very long digit strings; values too large give infinity. Text that is not a number, with missing digits, doubled signs or trailing bytes, gives NaN and is reported as a failed conversion.",
 [I], "every number notation and every non-number string",
 "The tests parse some dozens of numbers; rounding errors affect a small fraction of inputs near halfway points and powers of ten.",
 ["numjson/numjson.go", "node.go"], [("fast and slow path of float parsing", "numjson/numjson.go ParseFloat")], [], ["numjson.ParseFloat, Node.ToFloat"],
 "runtime monitor: differential oracle strconv (correct rounding)", "Number generators biased to halfway cases, powers of ten, 19+ digit mantissas and malformed texts.")

prop("C14", "Integers convert exactly or not at all",
 "Converting a number in plain integer notation to a signed or unsigned 64-bit integer succeeds exactly when its value is in range, and gives that value exactly, over the whole range. A number whose nearest float64 has a fractional value or is out of range is refused rather than rounded or wrapped; whole values written with a point or an exponent convert exactly up to 2^53.",
 [I], "every integer literal, every fractional literal, every boundary of the 64-bit ranges",
 "The tests convert small integers; precision is lost only above 2^53 and wrapping only at the ends of the range.",
 ["numjson/numjson.go", "node.go"], [("integer parsing", "numjson/numjson.go ParseInt, ParseUint"), ("node accessors", "node.go ToInt, ToUint")], [], ["numjson.ParseInt, ParseUint, Node.ToInt, Node.ToUint"],
 "runtime monitor: differential oracle big integers", "Literals around every boundary against exact big-integer arithmetic.")

prop("C15", "Formatted floats are valid JSON and round-trip",
 "Formatting any finite float, 64 or 32 bit, gives the same text as encoding/json: valid JSON that parses back to the same float, bit for bit. Appending the text to a buffer leaves the bytes before it intact.",
 [I], "every finite float of both sizes",
 "The tests format a few floats; exponent notation and its cleanup depend on magnitude.",
 ["numjson/format.go", "node.go"], [("float formatting", "numjson/format.go AppendFloat, FormatFloat")], [], ["numjson.FormatFloat, AppendFloat, Document.Number, Node.SetFloat"],
 "runtime monitor: differential oracle encoding/json and round trip", "All exponents, random mantissas and boundary values.")

prop("C16", "Escaping always yields a valid JSON string that denotes the input",
 "Escaping any string, of any bytes, gives text that between quotes is a valid JSON string denoting the input (bytes that are not UTF-8 denote the replacement character), with U+2028 and U+2029 escaped and, in HTML mode, no raw <, > or &. Quoted and appended forms give the same text and leave the bytes before it intact.",
 [I], "every string, both modes, every destination buffer",
 "The tests escape selected strings; multi-byte sequences cut short or next to escapes are not covered.",
 ["strjson/escape.go", "strjson/bytemaps.go", "document.go"], [("escaper", "strjson/escape.go Escaped, AppendEscaped")], [], ["strjson.Escaped, AppendEscaped, Document.Text, Node.SetString"],
 "runtime monitor: decode oracle encoding/json", "All code points once and random hostile strings; decoded by encoding/json.")

prop("C17", "Unescaping yields exactly the denoted string",
 "Unescaping the contents of any valid JSON string gives exactly the string it denotes: all short escapes, \\u escapes of either case, surrogate pairs combined and unpaired surrogates replaced, everything else unchanged. Malformed escapes never panic or read past the input, and every form of the operation (returned, appended, in place) agrees and keeps to its buffer.",
 [I], "every JSON string content, every malformed content, every destination buffer",
 "The tests unescape selected strings; surrogate handling depends on the pair of neighbouring escapes and on cuts at the end.",
 ["strjson/unescape.go", "node.go"], [("unescaper", "strjson/unescape.go Unescape, AppendUnescaped, Unescaped")], [], ["strjson.Unescaped, AppendUnescaped, Unescape, Node.Unescaped"],
 "runtime monitor: differential oracle encoding/json, buffer canaries", "All \\u escapes and pairs of surrogate classes, random contents, canary bytes around buffers.")

prop("C18", "A pooled document is owned by one user at a time",
 "A document taken from a pool - shared or default - is empty, works like a new one, and is handed to no one else until given back, under any number of concurrent users. Handles from before it was given back never reach what a later owner does with it, and pools share no state through documents.",
 [S, H], "every interleaving of concurrent get, use, put and close calls, every history of a pooled document",
 "The tests take one document from a pool on one goroutine; double ownership needs concurrent users or a particular put/get history.",
 ["document.go", "parser.go"], [("pool", "document.go Pool.Get, Pool.Put, Blank, Document.Close")],
 [("pool of documents", "documents waiting for reuse", "document.go Pool")], ["Pool.Get, Put, Blank, Close"],
 "runtime monitor: race detector plus ownership monitor under stress", "Go race detector and an ownership ledger over concurrent pool users with injected yields.")

prop("C19", "Concurrent readers of a document never interfere",
 "Any number of goroutines may read, look up, convert, iterate, serialize and decode from the same document, and use package level functions at the same time, without data races, and each gets the result it would get alone. Bytes and strings handed out stay unchanged whatever other goroutines do.",
 [S], "every interleaving of concurrent read operations",
 "The tests have no concurrency; a cached field or shared buffer added to a read path is invisible to single threaded tests.",
 ["node.go", "document.go", "unjson/unjson.go", "strjson/unescape.go"], [("read operations without writes", "node.go, document.go"), ("pooled buffers", "node.go PrintJSON, unjson/unjson.go")],
 [("buffer pool", "buffers shared by concurrent callers", "node.go, unjson")], ["all read operations from several goroutines"],
 "runtime monitor: race detector, sequential-result oracle", "Go race detector; every result is compared to the sequentially computed one.")

prop("C20", "Concurrent encoding and decoding of types is safe and correct",
 "Any number of goroutines may encode and decode values of any types at the same time - first uses included, through the default functions or a shared cache - without data races or deadlocks, and each gets the result it would get alone. A cache keeps to its own options and tag.",
 [S, C], "every interleaving of first and later uses of types, every cache configuration",
 "The tests use types from one goroutine; publishing a half built codec needs a second user during the first build.",
 ["unjson/cache.go", "unjson/codec.go"], [("lock around the codec maps", "unjson/cache.go Cache.Decoder, Cache.Encoder")],
 [("codec maps", "codecs built so far by type", "unjson/cache.go Cache")], ["Cache.Encoder, Cache.Decoder, Marshal, Unmarshal"],
 "runtime monitor: race detector, barrier-released first uses, sequential-result oracle", "Go race detector with fresh reflect-built types released at a barrier, results compared with encoding/json.")

prop("C21", "Encoding then decoding gives back the value",
 "For any value built of booleans, integers, finite floats, valid UTF-8 strings, interfaces holding plain JSON values, and pointers, slices, arrays, maps and structs (tagged and embedded ones included) of these, decoding its encoding into a new variable of its type gives an equal value. Nil and empty slices count as equal, as do nil and what encodes as null, and fields tagged as omitted when empty decode to their zero value.",
 [I, G], "every type built from these kinds and every value of it",
 "The tests round-trip a few fixed structs; combinations of kinds (nested maps of pointers, arrays in embedded structs) are unbounded.",
 ["unjson/encode.go", "unjson/decode.go", "unjson/codec.go"], [("type directed encoders", "unjson/encode.go newEncoder"), ("type directed decoders", "unjson/decode.go newDecoder")], [], ["unjson.Marshal, unjson.Unmarshal, NewTypeEncoder, NewTypeDecoder"],
 "runtime monitor: round-trip oracle over reflect-generated types", "Random types made with reflect and handwritten ones; deep comparison with float bits.")

prop("C22", "Encoded values are valid JSON with the meaning encoding/json gives them",
 "Encoding any value of such types yields valid JSON that denotes the same value as encoding/json's encoding of it: same keys, same structure, same numbers to the last bit (nil slices become empty arrays; byte slices are arrays of numbers). Values that have no JSON encoding (channels, functions, NaN, infinities) are reported as errors, and appending to a buffer leaves the bytes before it intact.",
 [I, G], "every type built from the supported kinds and every value of it",
 "The tests encode a few fixed values.",
 ["unjson/encode.go", "unjson/codec.go", "unjson/options.go"], [("type directed encoders", "unjson/encode.go"), ("struct fields and embedding", "unjson/codec.go merge")], [], ["unjson.Marshal, unjson.AppendJSON"],
 "runtime monitor: differential oracle encoding/json", "Random types and values; outputs compared as value trees and for validity.")

prop("C23", "Decoding valid input agrees with encoding/json",
 "Decoding valid JSON whose values fit the Go type into a new variable gives the same value as encoding/json: named and embedded fields (keys written in the case of the field), maps with string and named-string keys, slices, arrays, pointers, interfaces, null, unknown keys, repeated scalar members and escaped keys included. Decoding into a variable that already holds a value replaces everything the JSON has a value for, in the variables its pointers point to, and leaves the rest; maps keep their other keys, and null makes pointers, interfaces and maps nil, slices empty and everything else zero. A number for a 32 bit float is rounded once.",
 [I, G], "every type built from the supported kinds and every JSON text that fits it",
 "The tests decode a few fixed documents.",
 ["unjson/decode.go", "unjson/codec.go"], [("type directed decoders", "unjson/decode.go"), ("field matching", "unjson/codec.go structCodec.decode, Get")], [], ["unjson.Unmarshal, UnmarshalFromString, UnmarshalFromNode, Decoder.Decode"],
 "runtime monitor: differential oracle encoding/json", "Random types and type directed JSON texts with escapes, unknown members and shuffled keys.")

prop("C24", "Decoding never fails silently and never panics",
 "Decoding text whose structure is malformed or that is trailed by more data, a value of the wrong type at any depth (a string, object or array for a number; a number or container for a string or boolean; a scalar for a container), a number that does not fit the integer type or overflows the float type (float64 for empty interfaces), what other languages take for a number (hexadecimal, underscores, infinities), or into something that is not a non-nil pointer, returns an error. No input and no supported type makes it panic.",
 [I, G], "every type, every mismatching or out of range value at every depth, every malformed text, every decode target",
 "The tests check a few errors; an error dropped in one container decoder shows only for a bad value at that depth.",
 ["unjson/decode.go", "unjson/unjson.go", "unjson/codec.go"], [("error propagation of container decoders", "unjson/decode.go"), ("range checks", "unjson/decode.go intDecoder, uintDecoder, floatDecoder")], [], ["unjson.Unmarshal error"],
 "runtime monitor: fault injection into valid texts at known paths", "Exactly one fault injected in a valid text at a random depth; the oracle demands an error (encoding/json must also refuse it).")

prop("C25", "Custom marshaling and unmarshaling hooks are honoured everywhere",
 "Types with JSON or text marshaling and unmarshaling methods, on the value or the pointer, are encoded and decoded through them at every position - root, field, element, map value, behind pointers - with text escaped and unescaped on the way, and nil pointers encoded as null without calling the method (as map keys, the empty string). An error of a hook is returned to the caller.",
 [I, G], "every hook kind, receiver kind, position and text",
 "The tests have one hook type at one position.",
 ["unjson/encode.go", "unjson/decode.go", "node.go"], [("hook selection", "unjson/encode.go newEncoder, unjson/decode.go newDecoder"), ("hook wrappers", "node.go WrapUnmarshalJSON, WrapUnmarshalText")], [], ["hook call log, Marshal and Unmarshal results"],
 "runtime monitor: instrumented hooks with call ledger, encoding/json as oracle", "Hook types at all positions with hostile texts; call ledger and differential comparison.")

prop("C26", "Tags, options and omission rules select exactly the right fields",
 "Field names, renames, skipped fields, embedding and the hiding of deeper fields by shallower ones follow the tag key in use and Go's rules; an empty field (false, zero, nil, no length, an array of only such elements, a struct whose fields are all left out) is left out exactly when omission applies to it by tag or by option, and a type's own omission method decides for its values. HTML escaping, raw strings, float precision and custom tag options affect exactly the values they name.",
 [I, C], "every combination of tags, options, embedding and field values",
 "The tests cover the default options and one omission method.",
 ["unjson/options.go", "unjson/omit.go", "unjson/codec.go", "unjson/encode.go"], [("tag parsing", "unjson/options.go parseTag, parseField"), ("omission", "unjson/omit.go newOmiter"), ("embedding", "unjson/codec.go merge")], [], ["encoder output key sets"],
 "runtime monitor: model of visible fields per configuration", "All combinations of options over handwritten types, random tags with reflect; expected keys computed by a model.")

prop("C27", "Line streams deliver every value exactly once, in order",
 "Values written by a line encoder and read by a line decoder arrive complete, once and in order, whatever the sizes of the underlying reads and writes and the lengths of the lines; each value is one line. A read or write error, a bad line or the end of the stream is reported where it occurs, after all earlier values were delivered; values decoded earlier never change.",
 [H, I, F], "every sequence of values, every split of the stream into reads, every read and write fault",
 "There are no tests of the stream types that split reads or inject faults.",
 ["unjson/stream.go"], [("line reader", "unjson/stream.go LineDecoder.Decode"), ("line writer", "unjson/stream.go LineEncoder.Encode")],
 [("buffer", "bytes of the current line", "unjson/stream.go")], ["decoded values, bytes written, errors"],
 "runtime monitor: exactly-once stream ledger with fault injection", "Streams through readers that split, stall and fail and writers that fail; ledger of values sent and received.")

prop("C28", "Steady use runs in bounded memory",
 "Reusing a document, a pool, a line decoder or the default functions for the same kind of work again and again does not grow memory: after a warm-up, live memory stays constant however many texts are parsed, edited, serialized, streamed or recycled. Work done earlier and given up is not kept alive by later work without bound.",
 [H], "every long history of reuse",
 "The tests run each operation a few times and never look at memory.",
 ["document.go", "parser.go", "unjson/stream.go", "node.go"], [("reuse of nodes and buffers", "document.go Reset, grow; parser.go node"), ("reset between lines", "unjson/stream.go")],
 [("nodes", "nodes kept for reuse", "document.go Document")], ["live heap after forced collection"],
 "runtime monitor: live-heap growth monitor over long histories", "Live heap measured after garbage collection at two points far apart in a long history.")

prop("C29", "Generated code compiles and agrees with encoding/json",
 "For any package of supported struct types, whatever the names of its types, fields, imports and other declarations, the generated methods compile as they are; decoding matching JSON through them into a new variable gives the value encoding/json gives, decoding a value of the wrong type or out of range, or one a type's own decoding method refuses, returns an error, and appending gives valid JSON that encoding/json decodes to an equal value (nil slices and maps come back empty) and that has a member for every field but nil pointers and empty fields tagged to be omitted. Decoding into a variable that already holds a value replaces everything the JSON has a value for, in the variables its pointers point to, and leaves the rest; maps keep their other keys. Types that can not be appended (channels, functions, arrays, maps with keys that are not strings, types that contain only themselves) are refused with an error at generation time.",
 [G, I], "every set of struct types with supported fields (numbers, strings, booleans, pointers, slices, maps, nested, embedded, recursive and named types, empty interfaces, time and hook types), every matching or mismatching JSON",
 "The tests compare the generator's output for two tiny types and never run the generated code on more than a few values.",
 ["internal/generator/append.go", "internal/generator/unmarshal.go", "internal/generator/generator.go", "internal/generator/options.go", "cmd/njson/njson.go"], [("code templates per kind", "internal/generator/append.go, unmarshal.go"), ("type loading and printing", "internal/generator/generator.go")], [], ["generated source, its compilation and its runs"],
 "runtime monitor: generate, compile and run random types against encoding/json", "Random struct types are generated, compiled and executed on generated values; encoding/json is the oracle.")

prop("C30", "Code generation is deterministic and keeps to its options",
 "Generating code for the same package and options always gives the same source, apart from the time stamp, and never depends on map order, earlier runs or the presence of earlier output; no other file is touched. The options of the command select exactly what is generated: types (by name or expression), methods, tag key, case of untagged names, fields by name expression, tagged or exported fields only, omission of empty fields. Nothing is written when the command fails.",
 [C, G], "every run and every combination of generator options",
 "The tests run the generator once; an iteration over a map shows only in some runs.",
 ["internal/generator/generator.go", "internal/generator/options.go", "cmd/njson/njson.go"], [("stable order of fields, types and imports", "internal/generator/generator.go"), ("options", "internal/generator/options.go, cmd/njson/njson.go")], [], ["generated source over repeated runs", "keys read and written by compiled methods"],
 "runtime monitor: repeated-run differential and option/effect checker", "Repeated generation with byte comparison; packages generated with random options are compiled and run to see which keys and methods exist.")

prop("C31", "The test helpers pass exactly when the expectation holds",
 "The test helpers for encoding and decoding pass when the value under test produces the expected JSON, value or error, and fail when it does not: a wrong or missing field, a different output, an error that was not expected, or the absence of an expected one.",
 [I], "every pair of behaviour under test and expectation",
 "A helper that never fails passes all tests that use it; no test checks that the helpers fail.",
 ["njsontest/t.go", "njsontest/option.go"], [("comparison of outcomes", "njsontest/t.go"), ("expectations", "njsontest/option.go")], [], ["verdict of the helper as a sub test"],
 "runtime monitor: verdict ledger over a matrix of behaviours and expectations", "Full matrix of behaviours and expectations executed through the testing package; verdicts compared to the table.")

prop("C32", "Appending and pooled buffers never corrupt bytes or values handed out",
 "Every operation that appends to a buffer returns the given bytes unchanged followed by the same bytes it produces for an empty buffer, whatever spare capacity the buffer has, and never alters the given bytes, also when it fails. Results of encoding, decoding, escaping and hooks stay unchanged while any further operations run, and never alias input buffers the caller may overwrite.",
 [H, I], "every append operation, destination buffer, and sequence of later operations",
 "The tests look at results at once; corruption by a recycled buffer shows only after later calls.",
 ["unjson/unjson.go", "unjson/encode.go", "unjson/stream.go", "node.go", "strjson/escape.go", "numjson/format.go"], [("append discipline", "unjson/encode.go, document.go, strjson/escape.go"), ("pooled documents and buffers", "unjson/unjson.go, node.go")],
 [("buffer pool", "buffers reused by later calls", "node.go, unjson/unjson.go")], ["results observed again after later operations"],
 "runtime monitor: canary and retained-result monitors over histories", "Canary prefixes and capacities for every append operation; results fingerprinted at once and again after later work with inputs overwritten.")

prop("C33", "Type masks behave as sets of types",
 "A combination of types behaves as the set of its members: membership, listing and printing name exactly the types combined, in a fixed order, for every combination. Type errors name the type found and the types wanted.",
 [I], "all combinations of types",
 "The tests check single types and one or two combinations.",
 ["types.go", "error.go"], [("bit masks", "types.go Type"), ("type error", "error.go newTypeError")], [], ["Type.Types, String, IsValue, Node.TypeError"],
 "runtime monitor: exhaustive execution of all combinations against a set model", "All 256 mask values are executed.")

prop("C34", "Generated byte tables hold exactly the class or set asked for",
 "For every list of classes and sets of bytes given to the byte table generator, the generated source compiles in the package named and its functions, under the names given, answer for each of the 256 bytes what the class says (JSON escapes, hexadecimal digits to and from, country and language letters, control, punctuation, digit, space, printable, lower, upper and title case) or whether the byte is in the set, however the set is written (one byte, quotes, escapes, any byte). The same arguments always give the same source. A set that cannot be understood, a missing name and a file that cannot be written are refused with a message, and no file is made or changed.",
 [I, C], "every list of classes and sets, every way to write them, every byte",
 "There are no tests of this tool; its tables decide how strings are escaped and unescaped.",
 ["internal/bytemaper/bytemaper.go", "strjson/bytemaps.go"], [("classes and sets", "internal/bytemaper/bytemaper.go main"), ("output", "internal/bytemaper/bytemaper.go tpl")], [], ["every generated function called with every byte"],
 "runtime monitor: generated tables compiled and executed on all bytes against independent class descriptions", "Random lists of classes and sets; the output is compiled and every function is called with all 256 bytes.")

DONE = os.environ.get("DONE", open(os.path.join(D, "tools", "done.txt")).read()).split()
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "state": [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]],
             "mechanism": [dict(name=n, where=w) for n, w in p["mech"]], "observe_at": list(p["observe"]), "hook_needed": None}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["id"] in DONE:
        m["checks"].append({"property": p["id"], "quick_cmd": "./run.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p["id"],
            "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "The check is not built yet."})
m["notes"] = "No hooks in /repo: the monitors observe the public API, the generated code and the processes they run. run.sh replay FILE repeats a recorded violation."
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
