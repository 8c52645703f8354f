#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
G = "Go/sereal/"
ENC, DEC, MRG = G+"encode.go", G+"decode.go", G+"merge.go"

p("C01", "Go values survive Marshal followed by Unmarshal",
  "For every value built from the supported Go types (nil, booleans, all integer kinds, floats, strings, byte slices, slices, arrays, string-keyed maps, structs, pointers to structs and maps, named types), decoding its encoding into a fresh variable of the same type yields an equal value. Decoding it into an empty interface yields the same data in the documented generic form (int or uint, float32/float64, string, []byte, []interface{}, map[string]interface{}). This holds for protocol versions 1, 2 and 3 and every encoder option.",
  ["inputs", "configurations"], "every Go value of the supported types, of any size and nesting, times every encoder configuration",
  "The tests round-trip a fixed list of about sixty values; boundary integers, named kinds, mixed nestings, long keys and option combinations are not enumerated.",
  [ENC, DEC, G+"tagscache.go"], [("Encoder.encode / encodeViaReflection", ENC), ("Decoder.decode / decodeViaReflection", DEC)])
p("C02", "Every encoded document is well formed and means the encoded value",
  "Whatever value and options are given, a successful Marshal produces a document that is valid under the Sereal specification for its protocol version: correct magic, version and document type, one complete body item with nothing after it, string-only hash keys and class names, and every back reference pointing at an earlier suitable tag. Read by the specification alone, independently of this decoder, the body denotes exactly the value that was passed in. Values that cannot be represented (channels, functions, maps with non-string keys) yield an error and no document.",
  ["inputs", "configurations"], "every encodable Go value and every encoder configuration",
  "The tests only read documents back with the same library, so an encoder and decoder error that cancel out, or a document only this decoder accepts, passes; the Perl cross-check covers a fixed corpus.",
  [ENC, "sereal_spec.pod"], [("tag, varint and offset emission", ENC)])
p("C03", "The decoder yields exactly what a valid document means",
  "For every document that is valid under the Sereal specification, of protocol version 1 to 4 and whichever encoder wrote it, decoding into an empty interface yields exactly the value the specification assigns to it: integers over the full 64-bit range, floats bit for bit, strings and binaries byte for byte, containers in order, undef, objects, regexps, and COPY, ALIAS, REFP, WEAKEN, PAD and the track flag as specified. It holds in the default, Perl-compatible and no-referential-integrity modes. Bytes after the body's single item do not affect the result.",
  ["inputs", "configurations"], "every valid document body, protocol version and decoder mode",
  "The corpus is what one Perl encoder happens to emit for a fixed list; tag combinations the encoder never emits (padding, non-minimal varints, COPY of containers, tracked references, version 1 offsets with suffixes) are valid and untested.",
  [DEC, "sereal_spec.pod"], [("Decoder.decode", DEC), ("decodeREFP_ALIAS, tracked table", DEC)],
  state=[("tracked", "offset to already decoded item", DEC), ("copyDepth", "inside a COPY", DEC)])
p("C04", "Malformed documents are rejected with an error",
  "A document whose body is truncated, whose varint does not end or does not fit in 64 bits by length, which uses a reserved or unknown tag, has a non-string hash key or class name, has a COPY naming itself, a later position, another COPY, or an item whose value contains a COPY, or has a REFP or ALIAS to a position that is not an earlier tracked item, is never decoded successfully. The decoder returns an error instead. Cutting any valid document short anywhere before its last byte is always such a case.",
  ["inputs"], "every malformed byte string, including every truncation and single-byte corruption of every valid document that the specification no longer accepts",
  "The tests hold some twenty corrupt documents found by past fuzzing.",
  [DEC, G+"errors.go"], [("bounds and tag checks", DEC)])
p("C05", "No input bytes can crash, hang or exhaust the process",
  "No byte string passed to any decoding entry point (Unmarshal, UnmarshalHeader, UnmarshalHeaderBody, LooksLikeSereal, DecompressDocument, Merger.Append) makes it panic, abort the process, loop forever, or allocate memory out of proportion to the input on the strength of a size the document merely claims. The call returns either success or an error; nesting beyond a fixed bound is an error, not a stack overflow.",
  ["inputs", "configurations"], "all byte strings, for every entry point, decoder mode and destination type",
  "The tests contain a handful of past crashers; the space of byte strings is only sampled by an optional fuzzer that skips compressed documents, headers and the merger.",
  [DEC, MRG, G+"snappy.go", G+"zlib.go", G+"zstd.go"], [("size checks before slicing and allocating", DEC), ("buildTrackTable / mergeItems", MRG)])
p("C06", "The header decides acceptance exactly as the protocol says",
  "A document is accepted only if its magic matches its version (the old magic for versions 1 and 2, the high-bit magic for 3 and above), its version is 1 to 4, its document type is defined for that version (plain snappy for version 1 only, zlib from 3, zstd from 4), and its header length lies inside the document. A document whose magic was mangled by UTF-8 encoding is reported as such with the exported error, and the other exported header errors are returned for their own conditions. LooksLikeSereal never rejects a document that can be decoded, and never accepts one whose magic does not fit its version.",
  ["inputs"], "all 2^32 magics, 256 version/type bytes, header sizes and lengths",
  "Tests cover a few rows of the magic x version x type matrix.",
  [DEC, G+"const.go", G+"errors.go"], [("readHeader, checkHeader, documentDecompressor", DEC)])
p("C07", "Compression never changes what a document means",
  "For every value, a document encoded with any supported compressor (snappy for version 1, incremental snappy, zlib at every level) decodes to the same value as the uncompressed one, and its compressed part carries the framing the protocol requires and inflates to exactly a valid uncompressed body. Compression is applied if and only if a compressor is set and the encoded body is at least the threshold (or the threshold is zero), and the document type says which was applied. Compressor and version combinations the protocol does not define fail with an error.",
  ["inputs", "configurations"], "every value x compressor x level x threshold x version",
  "Tests compress a few values at the default threshold and never look at the framing or at bodies of exactly threshold length.",
  [ENC, G+"snappy.go", G+"zlib.go", G+"zlib_purego.go", DEC], [("compress / decompress and threshold", ENC)])
p("C08", "User header data is delivered independently of the body",
  "A header value given to MarshalWithHeader is returned by UnmarshalHeader without touching the body, for any header value (including ones with repeated keys, shared references and more than 127 bytes) and protocol version 2 or 3, compressed or not. The body decodes to the same value with or without a header, and header and body may each hold back references, which are resolved in their own part only. A document without user data leaves the header destination untouched.",
  ["inputs", "configurations"], "every header value x body value x version x compression",
  "Tests use two or three tiny header values with no back references.",
  [ENC, DEC], [("MarshalWithHeader", ENC), ("UnmarshalHeaderBody", DEC)])
p("C09", "A merged document is the concatenation of its inputs",
  "Finishing a merger yields a valid document whose top-level array holds, in order, exactly the items of the successfully appended documents (or with flat mode the elements of those whose top level matches), each meaning what it meant in its own document, with references, copies, aliases, object classes and cycles resolved within that document. It holds for inputs of protocol versions 1 to 4, with any header, compressed or not, and with string deduplication on or off. Append reports how many elements it added.",
  ["inputs", "histories", "configurations"], "every sequence of valid documents x merger options",
  "The tests merge a few documents produced by this encoder, compare one option at a time, and use no aliases, object references, padding or version 1 offsets.",
  [MRG], [("Merger.Append: buildTrackTable, mergeItems", MRG)],
  state=[("strTable/objTable", "string and class name to offset in the merged body", MRG)])
p("C10", "A failed append leaves the merger unchanged",
  "When appending a document fails, whatever is wrong with it and however late the error is found, the merger behaves from then on exactly as if that append had never been attempted: later appends succeed as before and the finished document contains the other documents intact.",
  ["histories", "fault_sequences", "inputs"], "every interleaving of good and bad appends, with the fault at every position of the bad document",
  "No test appends a bad document and then continues.",
  [MRG], [("rollback on error in Append", MRG)],
  state=[("buf/strTable/objTable/length", "merged state that must be rolled back together", MRG)])
p("C11", "The merger's life cycle is well defined",
  "A merger with nothing appended finishes as an empty array; after Finish every Append fails and changes nothing, and finishing again returns the same document. The finished document is compressed if and only if a compressor is set and its uncompressed length reaches the threshold, for compressible and incompressible content alike, and unsupported compressor or version choices fail with an error instead of a damaged document.",
  ["histories", "configurations"], "every sequence of Append and Finish calls x options",
  "Tests call Append a few times, then Finish once.",
  [MRG], [("initMerger, Finish", MRG)], state=[("inited/finished", "life cycle phase", MRG)])
p("C12", "Encoders and decoders can be reused without memory of the past",
  "The outcome of every call on an Encoder or Decoder depends only on its arguments and configuration, never on earlier calls on the same object, including earlier calls that failed part way through or met corrupt input.",
  ["histories", "fault_sequences"], "every sequence of successful and failing calls on one object",
  "Tests mostly build a fresh object per case; none continues after a failure.",
  [ENC, DEC, G+"tagscache.go"], [("per-call state reset", DEC)],
  state=[("tracked/copyDepth/tcache", "decoder state that outlives a call", DEC)])
p("C13", "The package-level functions and distinct objects are safe for concurrent use",
  "Any number of goroutines may call the package-level Marshal and Unmarshal functions, and use their own Encoders, Decoders, Mergers and compressors, at the same time without data races, and every call gives the same outcome it gives when run alone.",
  ["schedules"], "all interleavings of concurrent calls, with struct types seen for the first time by several goroutines at once",
  "No test runs two goroutines.",
  [ENC, G+"tagscache.go", G+"zlib_purego.go"], [("shared default encoder and its tag cache", ENC), ("zlib writer pool", G+"zlib_purego.go")],
  state=[("defaultEncoder.tcache", "map shared by all callers", ENC)])
p("C14", "Results and inputs never share memory, and inputs are never modified",
  "Marshal does not modify the value it is given and Unmarshal, UnmarshalHeader, DecompressDocument and Merger.Append do not modify the document they are given. Overwriting the input document after decoding, or the encoded bytes after encoding, or one result after another call, never changes any other value previously returned (a merger finished twice returns the same document).",
  ["inputs", "histories"], "every document and value, with arbitrary later mutation of every buffer",
  "Tests check one aliasing case of byte slices.",
  [DEC, ENC, MRG], [("copying of strings and binaries", DEC)])
p("C15", "Shared references and cycles are preserved",
  "Encoding a pointer graph terminates and the document records each shared pointer as a reference to one item; two pointers are recorded as the same only if they are equal pointers of the same type or point to the very same map, slice, string data or pointer, never because unrelated data happen to start at the same address. (The Perl wrapper types are written out at every mention.) Decoding a document in which several references name one tracked container yields values that share that container, including when the container holds itself.",
  ["inputs"], "every finite pointer graph, with sharing and cycles of any shape",
  "Tests cover three small hand-written cyclic or shared structures.",
  [ENC, DEC], [("encodePointer, ptrTable", ENC), ("decodeREFP_ALIAS", DEC)],
  state=[("ptrTable", "address to offset of emitted item", ENC)])
p("C16", "Perl-compatible decoding and encoding are inverse to each other",
  "Decoding a valid document with Perl compatibility on and encoding the result with Perl compatibility on gives a document that denotes the same Perl structure: references, blessed objects with their class, weak references, regular expressions and both kinds of undef are all retained. Arrays and maps that are not behind a reference are encoded behind one.",
  ["inputs"], "every valid document within the types the Perl-compatible mode can represent",
  "The cross-check script covers a fixed corpus.",
  [ENC, DEC, G+"perl.go"], [("PerlCompat branches", ENC), ("PerlCompat branches", DEC)])
p("C17", "The recursion limit rejects exactly the too deep values",
  "With a recursion limit set, Marshal fails with the exported recursion error if and only if the nesting depth of containers and pointers in the value reaches the limit, the limit applies separately to header and body, and a value containing itself through a map or slice is rejected rather than exhausting the stack. Without a limit, depth alone never makes a finite value fail.",
  ["inputs", "configurations"], "every value x limit",
  "One test uses one nesting shape.",
  [ENC], [("remainingRecursion threading", ENC)])
p("C18", "Decoding into typed destinations fills exactly the matching parts",
  "When a document fits the type of the destination (struct, map, slice, array, pointer, numeric and string kinds), decoding stores each value in the field, key or element it belongs to, honouring field tags (a key that lacks the capitals its field's words begin with is taken for it), skipping excluded and unexported fields and unknown keys, and leaves everything else in the destination unchanged; elements beyond a fixed array (or a slice that already has elements) are ignored. It holds in every mode of the decoder; in Perl-compatible mode destinations of the Perl wrapper types receive the objects, weak references, regexps, undefs and frozen objects of the document. When kinds do not fit, an error is returned; it never panics.",
  ["inputs", "configurations"], "every document x destination type and initial content",
  "Tests cover one struct layout family and a few maps.",
  [DEC, G+"tagscache.go"], [("decodeViaReflection, tagsCache.Get", DEC)])
p("C19", "Custom binary marshalling goes out and comes back intact",
  "A value whose type implements the standard binary marshalling interface is encoded as a frozen object carrying its type name and exactly the bytes its method returned, wherever it occurs in the value, unless that feature is disabled. On decoding, the bytes reach the unmarshal method of the destination or of the type registered for that class name exactly once and unchanged, and otherwise are returned as a frozen object with class and data; an error from either method makes the call fail.",
  ["inputs", "configurations"], "every placement of such values x registration x destination x returned bytes or error",
  "Tests cover time.Time and one custom type.",
  [ENC, DEC], [("OBJECT_FREEZE emission", ENC), ("decodeObjectFreezeViaReflection, RegisterName", DEC)])
p("C20", "Decompressing a document changes nothing but its compression",
  "DecompressDocument turns any decodable document into an uncompressed one with the same version, header and body item, whatever destination buffer it is handed (nil, short, exactly fitting, large, or reused), leaving the source unchanged; an already uncompressed document is returned byte for byte. Malformed documents yield an error.",
  ["inputs", "configurations"], "every document x compressor x destination buffer",
  "One test per compressor with a single value.",
  [DEC, G+"snappy.go", G+"zlib.go"], [("DecompressDocument, hasSameBuffer", DEC)])
p("C21", "Deduplication only saves space",
  "With deduplication of keys and class names enabled, every repeated key or class name of a document is replaced by a reference to an earlier occurrence of the same string, and with it disabled no such reference is emitted; in either case the document denotes the same value. A merged document likewise spells out every hash key (of more than one byte) and every class name only once for each kind of string (binary or UTF-8), makes copies of repeated string values only when DedupeStrings is set, and never lets deduplication replace a string by a different string or by one of a different kind.",
  ["inputs", "configurations"], "every value with repeated strings of any length, in keys, class names and values",
  "Tests check that one value gets smaller.",
  [ENC, MRG], [("strTable", ENC), ("strTable/objTable", MRG)], state=[("strTable", "string to offset", ENC)])
p("C22", "What cannot be a destination is refused",
  "A decoding call given something for header or body that it cannot store into (a value that is no pointer, or a nil pointer of any type) neither panics nor stores anything anywhere: it fails with the exported error for that destination (ErrHeaderPointer, ErrBodyPointer) as soon as the document has something to be stored there, whatever the document and decoder mode, and only after the document's header has been found acceptable. When the header's destination is refused the body is not decoded.",
  ["inputs", "configurations"], "every document, every kind of value given as destination, every decoding call and mode",
  "Tests give the decoder valid destinations; none checks what else happens when one of two destinations is none.",
  [DEC, G+"errors.go"], [("UnmarshalHeaderBody", DEC)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
