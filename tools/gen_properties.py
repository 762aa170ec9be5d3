#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long texts stay reviewable)."""
import json, os
G = "Go/sereal/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, title
    at = lambda f: f if f.startswith("Perl/") else G + f
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [at(f) for f in files],
            "state": [{"name": n, "meaning": m, "where": G + w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": at(w)} for n, w in mechanism],
            "observe_at": observe or ["public API of the sereal package"],
            "hook_needed": None,
        },
    })

prop("C01", "Untyped values survive an encode/decode round trip in every configuration",
 "Any tree built from nil, booleans, Go integers and floats, strings, byte slices, []interface{} and map[string]interface{} that any encoder accepts decodes, with a default decoder into an empty interface{}, to the same tree: same nesting, element order, keys, string versus byte-slice kind and numerically identical scalars (integers come back as int, or uint above the int64 range). This holds for protocol versions 1, 2 and 3 and every combination of PerlCompat, DisableDedup, DisableFREEZE, ExpectedSize, compression and threshold, also when a header is attached.",
 ["inputs", "configurations"], "all finite value trees x all encoder configurations, including sizes that cross every length-encoding boundary",
 "The round-trip table in the tests has a few dozen fixed values with small strings and arrays; it cannot reach all shapes, all length boundaries, or all combinations of options with dedup offsets.",
 ["encode.go", "decode.go"],
 [("Encoder.encode / encodeStrMap / encodeIntfArray", "encode.go"), ("Decoder.decode", "decode.go")],
 [("strTable", "offset of every key already written, for COPY dedup", "encode.go")])

prop("C02", "Typed Go data round-trips into a variable of the same type",
 "For every struct, map with string keys, slice, array, named scalar or pointer-to-struct type whose leaves are supported scalars, strings, byte slices or interface{}, encoding a value and decoding the document into a zero variable of the same type yields an equal value (nil and empty slices or maps are not distinguished where the format cannot). This holds for every encoder version and option and for both Marshal/Unmarshal and reused Encoder/Decoder objects.",
 ["inputs", "configurations", "programs"], "all Go types of the stated grammar (generated at run time), all values of them, all encoder configurations",
 "Tests use about ten hand-written struct types; the reflection paths depend on the combination of kinds, nesting and field tags, which is unbounded.",
 ["encode.go", "decode.go", "tagscache.go"],
 [("encodeViaReflection / encodeStruct / encodeMap / encodeArray", "encode.go"), ("decodeViaReflection and friends", "decode.go"), ("tagsCache.Get", "tagscache.go")])

prop("C03", "Every document the encoder produces is well-formed and means the input value",
 "Every document returned without error by the encoder conforms to the Sereal specification for its stated version: correct magic, version/type byte and header, exactly one complete top-level item, lengths and counts that match the content, COPY/REFP/OBJECTV offsets that point backwards at the start of an item of the right kind, and a track bit on every REFP target. An independent reading of the bytes by the specification gives exactly the encoded value, whether or not string and class-name deduplication is enabled.",
 ["inputs", "configurations"], "all values (untyped, structs, pointers, Perl wrappers) x all encoder configurations",
 "The repository's own decoder is lenient and shares conventions with the encoder, so round-trip tests cannot see malformed output; the existing tests compare bytes only for small constants.",
 ["encode.go", "snappy.go", "zlib.go"],
 [("MarshalWithHeader header assembly", "encode.go"), ("encodeString/encodeBytes dedup", "encode.go"), ("encodePointer", "encode.go")],
 [("ptrTable", "document offset of the item behind every pointer already written", "encode.go")])

prop("C04", "The default decoder reads every valid document as the specification says",
 "For every valid Sereal document of protocol versions 1 to 4, including encodings the Go encoder never emits (PAD bytes, superfluous track bits, non-canonical varints, ZIGZAG for any integer, small-int/ARRAYREF/HASHREF/SHORT_BINARY forms, COPY of any earlier item, ALIAS, REFP, WEAKEN, REGEXP, OBJECT/OBJECTV, header metadata), decoding into an empty interface{} succeeds and gives the value the specification assigns. References and objects are transparent, REFP yields a pointer to (or, with DisableReferentialIntegrity, a copy of) the already decoded item. Only nesting deeper than 100000 levels is refused, with an error.",
 ["inputs"], "all valid documents over the whole tag set except LONG_DOUBLE, MANY, EXTEND and PACKET_START",
 "Tests decode fixed corpora made by one Perl encoder with small offsets; the format allows unboundedly many encodings of one value and combinations of offsets, padding and track bits.",
 ["decode.go"],
 [("Decoder.decode tag dispatch", "decode.go"), ("decodeREFP_ALIAS", "decode.go"), ("decodeStringish", "decode.go")],
 [("tracked", "items with the track bit by document offset", "decode.go")])

prop("C05", "PerlCompat decoding preserves the Perl structure of every valid document",
 "For every valid document of versions 1 to 4, decoding with PerlCompat into an empty interface{} keeps the distinctions Perl has: references (REFN, REFP, ARRAYREF, HASHREF) become pointers, blessed objects keep class and content, weak references, regexps with modifiers, frozen objects, and undef versus canonical undef are all represented, and nothing else changes. Strings, numbers, order and keys are as in the document. (Behind very many levels of references the pointers may be *interface{} instead of more specific types; documents nested more than 100000 levels may be refused.)",
 ["inputs"], "all valid documents over the supported tag set",
 "Existing PerlCompat tests cover one example per tag; nesting of wrappers with references, copies and padding is not covered.",
 ["decode.go", "perl.go"],
 [("PerlCompat branches of Decoder.decode", "decode.go"), ("decodeObjectViaReflection / decodeObjectFreezeViaReflection", "decode.go")])

prop("C06", "Arbitrary bytes never crash or hang any entry point",
 "For every byte string, every function that consumes a document (Unmarshal, UnmarshalHeader, UnmarshalHeaderBody into untyped or typed targets in any decoder mode, DecompressDocument, LooksLikeSereal, Merger.Append and Finish) returns normally with a value or an error. It never panics, never exhausts the stack and never loops; nesting beyond a generous limit is an error.",
 ["inputs", "configurations"], "all byte strings, notably mutations, splices and truncations of valid documents and hostile lengths, offsets and nesting",
 "Tests feed a fixed corpus of about ten corrupt documents.",
 ["decode.go", "merge.go", "snappy.go", "zlib.go", "zlib_purego.go", "zstd.go"],
 [("bounds checks in Decoder.decode*", "decode.go"), ("buildTrackTable / mergeItems", "merge.go"), ("decompressors", "zlib.go")])

prop("C07", "A truncated document is always rejected",
 "No proper prefix of a valid document is accepted: decoding it, header or body, fails with an error (for uncompressed and compressed documents of every version), except where the missing bytes are only trailing padding or lie outside what was asked for. Appending such a prefix to a Merger fails as well.",
 ["inputs", "fault_sequences"], "all valid documents x all truncation points",
 "Each cut point of each document is a separate case; tests cut a handful of constants.",
 ["decode.go", "merge.go"],
 [("length checks before every read", "decode.go"), ("stack of expected items", "merge.go")])

prop("C08", "Decoding cost in memory is bounded by the real size of the input",
 "For every input, hostile or not, the memory allocated while decoding, merging or decompressing is bounded by a constant multiple of the bytes actually present, before or after decompression, apart from what COPY tags repeat; sizes merely claimed by the input, such as array, hash and string lengths or uncompressed sizes, never cause larger allocations.",
 ["inputs"], "all byte strings without COPY amplification, including nested containers with exaggerated counts and compressed bodies with false length prefixes",
 "Tests never measure allocation.",
 ["decode.go", "zlib_purego.go", "snappy.go"],
 [("count versus remaining-bytes checks in decodeArray/decodeHash", "decode.go"), ("zlibDecode/snappy size hints", "zlib_purego.go")])

prop("C09", "A reused Decoder behaves like a fresh one",
 "After any sequence of decodes on one Decoder, successful, failed or panicked out of a user's UnmarshalBinary, the result of the next decode (value or error) is the same as on a fresh Decoder with the same settings and registrations. Values returned earlier never change afterwards.",
 ["histories", "inputs"], "all sequences of header/body decodes of valid and corrupt documents into varying targets on one Decoder",
 "Tests create a decoder per document or reuse one only on successes.",
 ["decode.go", "tagscache.go"],
 [("reset of tracked table per document", "decode.go")],
 [("tracked, copyDepth, tcache, umcache", "decoder state that outlives one call", "decode.go")])

prop("C10", "A reused Encoder behaves like a fresh one and never touches its inputs",
 "After any sequence of Marshal calls on one Encoder, successful or failed, the next call yields a document equivalent to that of a fresh Encoder with the same settings (identical bytes when no map iteration is involved; which of two places reports MaxRecursionDepth may depend on map order). Input values are not modified, and returned documents are never modified by later calls nor share memory with the inputs.",
 ["histories", "inputs", "configurations"], "all sequences of values, including ones that fail midway, on one encoder of any configuration",
 "Tests do not check inputs for modification, nor encoder reuse after errors.",
 ["encode.go", "tagscache.go", "snappy.go"],
 [("per-call marshalState", "encode.go"), ("buffer reuse in SnappyCompressor.compress", "snappy.go")])

prop("C11", "Decoding neither modifies the input buffer nor lets results alias it",
 "Decoding, header decoding, DecompressDocument and Merger.Append leave the caller's input bytes unchanged, and no decoded value shares memory with the input: overwriting the buffer afterwards does not change any decoded value, and changing a decoded value changes neither the buffer nor any other independent decoded item. The documented exception is a DecompressDocument destination buffer supplied by the caller.",
 ["inputs", "histories"], "all valid documents, targets and decoder modes, with the buffer overwritten after decoding",
 "Tests never reuse the input buffer after decoding.",
 ["decode.go", "merge.go"],
 [("makeCopy in decodeBinary", "decode.go"), ("decodeRegexp", "decode.go")])

prop("C12", "Compression is transparent and clearly refused where invalid",
 "For every value and body size, encoding with Snappy, incremental Snappy or Zlib at any level and any threshold gives a document that decodes to the same value as the uncompressed one, whose document type states the compression actually used, and which is compressed exactly when the body has at least CompressionThreshold bytes (always, if zero); combinations of compressor and version, and zlib levels, that do not exist are errors when compression is due, rather than unreadable output. DecompressDocument turns every compressed document (Snappy, Zlib, Zstd) into the equivalent uncompressed document with header metadata intact, whatever destination buffer it is given, and copies uncompressed documents unchanged.",
 ["inputs", "configurations"], "all bodies x compressors x levels x versions x thresholds x destination buffers",
 "Tests use one or two bodies per compressor and never cross thresholds or vary the destination buffer.",
 ["encode.go", "decode.go", "snappy.go", "zlib.go", "zlib_purego.go", "zstd.go"],
 [("MarshalWithHeader compression block", "encode.go"), ("documentDecompressor", "decode.go"), ("DecompressDocument", "decode.go")])

prop("C13", "Header metadata and body are independent of each other",
 "For every header value and body value, on versions 2 and 3 both round-trip regardless of whether the document is compressed and of the size of either, UnmarshalHeader yields the header without needing a readable body, Unmarshal yields the body regardless of the header's content, and UnmarshalHeaderBody yields both - or fails exactly if one of the two fails on its own, so that neither can refer to items of the other, whatever is wrong with the document. A document without header metadata leaves the header variable untouched, and a version 1 encoder ignores the header argument.",
 ["inputs", "configurations"], "all pairs of header and body values with shared and repeated strings, all versions and compressions, and headers written by other implementations",
 "Tests use one two-entry header; offsets inside headers and suffix length boundaries are not reached.",
 ["encode.go", "decode.go"],
 [("MarshalWithHeader header suffix", "encode.go"), ("UnmarshalHeaderBody", "decode.go")])

prop("C14", "Only documents with a valid magic, version and type are accepted",
 "Exactly the following pass header validation: magic =srl with version 1 or 2 and magic =\\xF3rl with version 3 or 4, with an encoding type permitted for that version (raw any, Snappy only v1, incremental Snappy v1 and up, Zlib v3 and up, Zstd v4). Everything else is rejected by decoding, DecompressDocument and merging with an error, a document damaged by UTF-8 encoding yields the dedicated UTF-8 error, and LooksLikeSereal agrees with the magic/version rule (and never takes fewer bytes than a document has at least for one).",
 ["inputs"], "all 2^40 five-byte prefixes (systematically near the valid ones) combined with valid bodies",
 "Tests check four or five bad headers.",
 ["decode.go", "const.go", "merge.go"],
 [("readHeader / checkHeader / documentDecompressor", "decode.go")])

prop("C15", "A merged document is exactly the sequence of its parts",
 "For every sequence of valid documents (any version up to 4, compressed or not, with or without header metadata, any tags), a Merger given them in order produces a valid document of its own version that decodes to an array (or array reference) of exactly those bodies in order, in both decoder modes, with references shared inside one part still shared and nothing shared between parts. With KeepFlat, parts whose top level is the matching kind of array contribute their elements instead, and every Append returns the number of elements it added.",
 ["inputs", "histories", "configurations"], "all sequences of documents x merger configurations (version, top level element, KeepFlat, DedupeStrings, compression)",
 "Tests merge a handful of tiny documents; offset rewriting depends on the combination of dedup, padding, references and sizes.",
 ["merge.go"],
 [("mergeItems offset rewriting", "merge.go"), ("buildTrackTable", "merge.go")],
 [("strTable / objTable", "offsets of strings and class names already in the merged buffer", "merge.go")])

prop("C16", "A failed Append leaves a Merger as if it had not happened",
 "Whatever sequence of valid and invalid documents is appended, the merged result is equivalent to appending only the documents for which Append succeeded. Finish is idempotent, and Append after Finish fails without changing the result.",
 ["histories", "fault_sequences", "inputs"], "all interleavings of valid, corrupt and truncated documents on one merger of any configuration",
 "Tests never append after a failure.",
 ["merge.go"],
 [("rollback in Append", "merge.go")],
 [("strTable / objTable / length / buf", "merger state that must be rolled back", "merge.go")])

prop("C17", "Package-level functions and separate instances are safe to use concurrently",
 "Marshal, Unmarshal and DecompressDocument, and distinct Encoder, Decoder and Merger instances, may be used from any number of goroutines at once, also on types and compression levels never seen before and on the same input buffer or value. Each call gives the result it would give alone, and no data race occurs.",
 ["schedules", "inputs"], "all schedules of concurrent calls over generated values, including first use of fresh struct types",
 "No existing test runs the package functions concurrently.",
 ["encode.go", "tagscache.go", "zlib_purego.go", "decode.go"],
 [("defaultEncoder shared by Marshal", "encode.go"), ("zlibWriterPools", "zlib_purego.go")],
 [("tagsCache.cmap", "struct tag cache shared through the default encoder", "tagscache.go")])

prop("C18", "Shared and cyclic pointers are preserved exactly",
 "When the same pointer (or a pointer to the same map or slice) occurs several times in an encoded value, also cyclically, the document refers to one single item, and pointers to different variables are never merged even when their addresses or backing arrays coincide. Decoding keeps the structure: equal tree in the default mode, the sharing and cycles of the document with PerlCompat (shared maps and slices are the same map or slice) and into variables of struct types with pointers, and termination for all cyclic inputs built with pointers (a PerlObject or PerlWeakRef that contains itself without any other pointer in between is refused). (Pointers to strings that share their bytes, and pointers to equal pointers, may be merged.)",
 ["inputs"], "all pointer graphs over maps, slices, structs, strings and scalars, including struct versus first field, sub-slices, substrings, pointers to pointers and cycles",
 "Tests contain two or three pointer examples.",
 ["encode.go", "decode.go"],
 [("encodePointer / getPointer", "encode.go"), ("decodeREFP_ALIAS", "decode.go")],
 [("ptrTable", "identity to document offset", "encode.go")])

prop("C19", "The recursion limit accepts and rejects by nesting depth alone",
 "With MaxRecursionDepth = N > 0, an encoder fails with ErrMaxRecursionLimit on every value whose containers and pointers nest N or more levels deep (including maps and slices that contain themselves, which are infinitely deep) and encodes every other value exactly as without a limit; N <= 0 means no limit. The outcome depends only on that depth, never on breadth, position, container kind or earlier calls.",
 ["inputs", "configurations"], "all nested values x all limits, at the boundary and across container kinds",
 "Tests check one cyclic example and one linear one.",
 ["encode.go"],
 [("remainingDepth countdown in encodeIntfArray, encodeStrMap, encodeArray, encodeMap, encodeStruct, encodePointer", "encode.go")])

prop("C20", "Custom-serialised (FREEZE) objects round-trip through their own methods",
 "For every type whose values have MarshalBinary and whose pointers have UnmarshalBinary, and for every payload, anywhere in a value (top level, element, map value, struct field, repeated, behind pointers), encoding stores what MarshalBinary returned and decoding delivers exactly those payload bytes and the class name: to UnmarshalBinary for typed targets and registered names, otherwise as a PerlFreeze with class and data. Errors of either method are returned, and DisableFREEZE encodes the plain structure instead.",
 ["inputs", "configurations"], "all payload lengths and contents, class repetitions (object and objectv forms) and positions",
 "Tests use one time.Time-like type with one payload.",
 ["encode.go", "decode.go"],
 [("encodeViaReflection BinaryMarshaler branch", "encode.go"), ("decodeObjectFreezeViaReflection", "decode.go")])

prop("C21", "Numbers are never altered",
 "Every Go integer of every built-in or named integer type, every float32 and float64 bit pattern and every integer json.Number keeps its exact value (fractions in a json.Number become the nearest float64) through encoding and decoding, into interface{} or into a variable of a type able to hold it. Every integer form a document may use (small positive and negative, VARINT, ZIGZAG, redundant continuation bytes) decodes to the integer the specification states.",
 ["inputs"], "all 64-bit integers of both signs, all float bit patterns, all json.Number literals, all encodings of each",
 "Tests list about thirty integers.",
 ["encode.go", "decode.go"],
 [("encodeInt / varint / encodeFloat / encodeDouble / encodeJsonNumber", "encode.go"), ("varintdecode / decodeZigzag / setInt", "decode.go")])

prop("C22", "Struct fields map to hash keys by tag or name, and nothing else",
 "Encoding a struct writes exactly its exported fields not tagged \"-\", under the tag name or else the field name. Decoding a hash into a struct sets exactly the fields whose tag or name equals the key (or the key with its first letter in upper case), leaves every other field as it was, skips the values of unknown keys whatever they contain, and does not disturb its neighbours.",
 ["inputs", "programs"], "all struct types with generated names and tags x all hashes with matching, missing, unknown and repeated keys",
 "Tests use a few fixed structs.",
 ["tagscache.go", "encode.go", "decode.go"],
 [("tagsCache.Get", "tagscache.go"), ("decodeHashViaReflection struct case", "decode.go")])

prop("C23", "Go and the Perl reference implementation understand each other",
 "Every document the Go encoder writes with PerlCompat (any protocol version, compression and deduplication setting, with or without a header) of data Perl can represent is decoded by the Perl decoder of this repository to the data that was encoded. Every document of protocol versions 1 to 4 and any compression that is valid for Perl, in particular every one the Perl encoder writes (with any options but aliased_dedupe_strings; with dedupe_strings, text of ASCII characters may become bytes), is decoded by the Perl decoder and by the Go decoder, by default and with PerlCompat, to the same data: scalars with the difference between bytes and text, undef, numbers, booleans, references and what is shared between them, weak references, blessed objects, regular expressions and frozen objects. Encoding with PerlCompat what was decoded with PerlCompat gives Perl the same data back, except for sharing of scalars. This holds for decoders and encoders that are used for one document after another. Weak references to frozen objects are not covered for the Perl side.",
 ["inputs", "histories", "configurations"], "all data structures both languages can represent x encoder options on both sides x histories of documents",
 "The cross-language test in the repository uses a fixed corpus.",
 ["encode.go", "decode.go", "perl.go", "Perl/Decoder/srl_decoder.c", "Perl/Encoder/srl_encoder.c"],
 [("shared document format", "const.go"), ("Perl decoder", "Perl/Decoder/srl_decoder.c"), ("Perl encoder", "Perl/Encoder/srl_encoder.c")],
 observe=["public API of the sereal package", "Sereal::Encoder / Sereal::Decoder built from Perl/"])

prop("C24", "PerlCompat decode followed by PerlCompat encode is lossless",
 "For every valid document whose content the encoder can express (everything but frozen objects), decoding with PerlCompat and encoding the result with PerlCompat gives a document with the same meaning: same references and nesting, classes, regexps, weak references, undefs, strings and numbers. Doing it twice gives the same meaning as doing it once.",
 ["inputs"], "all valid documents of versions 1 to 4 without FREEZE items",
 "Tests have a small table for this round trip.",
 ["encode.go", "decode.go", "perl.go"],
 [("Perl wrapper types in Encoder.encode", "encode.go"), ("PerlCompat branches in Decoder.decode", "decode.go")])

prop("C25", "Values that cannot be represented are refused, never silently mangled",
 "For every Go value, encoding either fails with an error or gives a document that means that value; channels, functions, complex numbers, unsupported map keys and the like yield an error, never a panic or a different value, at any depth and in any configuration. Likewise decoding any document into a variable of any type either fails with an error or stores the document's value wherever the variable can hold it (undef may leave the variable as it was); mismatches between document and target are errors, never panics and never some other value.",
 ["inputs", "configurations", "programs"], "all values containing unsupported kinds at any position; all pairs of document and target type",
 "Tests do not cover unsupported kinds systematically.",
 ["encode.go", "decode.go"],
 [("default branch of encodeViaReflection and recover in MarshalWithHeader", "encode.go"), ("kind checks and recover in UnmarshalHeaderBody", "decode.go")])

prop("C26", "Keys and class names that occur again are written only once",
 "In every document the encoder writes without DisableDedup, the body and the header metadata each write out every hash key and every class or struct name of two or more bytes at most once, wherever it occurs again (maps of any type, struct fields, at any depth and distance); later occurrences are COPY or OBJECTV tags. With DisableDedup there are no such tags at all. A merged document writes every hash key and class name at most once over all its parts, apart from keys that the part marks as referred to, and with DedupeStrings every such string in any place but regular expressions, unless a part has copies of whole items. What the document means is the same as without deduplication.",
 ["inputs", "histories", "configurations"], "all values x encoder settings; all sequences of documents x merger settings",
 "Tests look at whether documents decode, not at what they repeat, apart from a few small constants.",
 ["encode.go", "merge.go"],
 [("encodeString/encodeBytes with strTable and bytTable", "encode.go"), ("strTable, utfTable, objTable and utfObjs of the merger", "merge.go")],
 [("strTable", "offsets of strings already written", "encode.go"), ("strTable/objTable", "offsets of strings and class names already in the merged document", "merge.go")])

prop("C27", "Malformed documents are refused, not guessed at",
 "Every document that breaks the specification in one of these ways is refused with an error by every way of decoding it (untyped, PerlCompat, into variables of any type; as body or as header metadata): undefined tags (including EXTEND, MANY and PACKET_START); hash keys, class names, regexp patterns and modifiers that are no strings; lengths and counts beyond the document; numbers and lengths of more than 64 bits; offsets that aren't before their tag or lie before the body; REFP and ALIAS to what is no item or isn't marked as tracked; COPY of an enclosing item or of something that contains COPY tags for other things than keys and names. A Merger refuses all of these that can be seen without looking at what offsets refer to, so that it never spoils the other parts with them. (Offsets into the middle of an item and repeated hash keys may go unnoticed, and bytes after the document are ignored when decoding.)",
 ["inputs"], "all byte strings, in particular all single changes to valid documents",
 "Tests have a dozen corrupt documents.",
 ["decode.go", "merge.go"],
 [("decode / decodeViaReflection / decodeStringishOrCopy / decodeREFP_ALIAS / varintdecode", "decode.go"), ("buildTrackTable / mergeItems", "merge.go")])

prop("C28", "Decoding into a variable that holds something fills it in place",
 "When a document is decoded (as body or header metadata) into a variable of Go's types with content of its own, from the program or from an earlier document, what is there is kept as far as the document allows: pointers and maps that are set stay the same ones and are filled in; slices with elements and arrays keep their length, get as many elements as the document has and skip the rest of the document's array without disturbing what follows it, and elements the document doesn't reach as well as anything in the backing array beyond the length stay as they are; nil and empty slices become the document's array; entries of a map and fields of a struct that the document doesn't mention stay as they are, entries it mentions are filled in or replaced; undef makes pointers, maps and slices nil and leaves everything else alone. None of this fails, except where the document's item meets an interface that holds something already (it may be refused there).",
 ["inputs", "histories"], "all documents that fit the type of the variable (typed items that are REFP or ALIAS to other items apart), types of nested structs, pointers to structs, slices, arrays, maps with string keys and scalars, all contents of the variable, sequences of documents",
 "Tests decode into a slice with one element and into empty variables.",
 ["decode.go"],
 [("decodeViaReflection / decodeArrayViaReflection / decodeHashViaReflection / setBinary", "decode.go")])

prop("C29", "What Perl's Sereal::Merger makes is exactly the sequence of its parts",
 "For every sequence of valid documents of protocol versions 1 to 4 (raw, Snappy or zlib), given to Sereal::Merger by append and append_all in any order, finish gives a well-formed document of the chosen protocol version with the chosen header whose content is the array of the parts' contents (or the one part's content, with top_level_element set to scalar): same data, same references and sharing within each part, nothing shared between parts. This holds for any setting of dedupe_strings, compress (Snappy), top_level_element and protocol_version 1 to 4. A malformed document (cut short, or with items that cannot be) is refused with an exception, and leaves the merged document as if it had never been given: elements_merged and the result only count what was accepted, of append_all what precedes it. (Out of scope: Zstandard; PAD before hash keys and class names, which is refused; COPY of whole arrays, hashes or objects together with dedupe_strings; regexp modifiers that are not SHORT_BINARY.)",
 ["inputs", "histories", "configurations"], "all sequences of valid and malformed documents x merger settings",
 "The tests of the Perl module merge a fixed corpus; none of the repository's build runs them.",
 ["Perl/Merger/srl_merger.c"],
 [("build_track_table / srl_merge_items", "Perl/Merger/srl_merger.c"), ("shared readers", "Perl/shared/srl_reader.h")],
 observe=["Sereal::Merger built from Perl/"])

prop("C30", "Perl's Sereal::Decoder honours options and offsets and survives bad documents",
 "For every valid document of the kinds Perl writes (protocol versions 1 to 4, raw, Snappy or zlib, with or without header data), every way of calling Sereal::Decoder gives the same data: decode, decode_with_header, decode_only_header, their _with_offset forms and from file; as method or as function; into a variable given or returned; from a plain, UTF-8 upgraded, tied or substr() buffer. looks_like_sereal gives the document's version. With an offset the document is read from there, whatever precedes or follows it; bytes_consumed is the document's length; with incremental, exactly these bytes are taken off the front of the buffer, so that documents that follow one another are read one after the other. The options do what they are documented to do and nothing else: refuse_snappy, refuse_zlib, refuse_zstd and refuse_objects refuse exactly the documents with these features; no_bless_objects and no_thaw_objects leave objects unblessed or unthawed; max_recursion_depth, max_num_array_entries, max_num_hash_entries, max_string_length (strings that are values) and max_uncompressed_size refuse documents beyond the limit and accept those within it; validate_utf8 refuses exactly the documents with text (values, hash keys, names of classes, patterns) that is not valid UTF-8; use_undef, alias_smallint, alias_varint_under, set_readonly and set_readonly_scalars change no data (the readonly options make read-only what they should: with set_readonly every value, with set_readonly_scalars scalars that are no references). A THAW method may decode documents with the decoder that called it, under the same options, without any effect on the outer call or its bytes_consumed. A document that ends before its top-level item does, whatever lengths it announces, or whose offsets or copied strings lead out of it, is refused. Any other malformed document raises an exception or gives some data but never ends the process, and the same decoder reads a valid document right afterwards.",
 ["inputs", "configurations", "histories"], "all valid documents x ways to call the decoder x options and limits; malformed documents followed by a valid one",
 "The tests of the Perl module try each option on one or two documents; nothing in the repository's build runs them.",
 ["Perl/Decoder/srl_decoder.c", "Perl/Decoder/Decoder.xs"],
 [("srl_begin_decoding / srl_decode_into_internal", "Perl/Decoder/srl_decoder.c"), ("srl_read_single_value and what it calls", "Perl/Decoder/srl_decoder.c"), ("custom ops, looks_like_sereal", "Perl/Decoder/Decoder.xs")],
 observe=["Sereal::Decoder built from Perl/"])

prop("C31", "Perl's Sereal::Encoder writes the data it is given, as its options say",
 "For all data of the kinds Perl has documents for, with or without a header (undef is none), every way of calling Sereal::Encoder (method or function with an encoder object, encode_sereal, encode_sereal_with_header_data, encode_to_file, appending or not; a new encoder or one that has been used, has failed, or is at work on something else whose FREEZE method calls it, or whose FREEZE method then dies) writes the same well-formed document, of the chosen protocol version (1 to 5), from which the same data is read. The options do what they are documented to do and nothing else: croak_on_bless refuses exactly data with blessed references; no_bless_objects writes none; with sort_keys the entries of every hash are in the documented order (1: by length in bytes, then by bytes, then text last; 2: Perl's cmp; 3: the reverse), also with canonical, which includes canonical_refs (no ARRAYREF and HASHREF tags); hash keys are written once, unless no_shared_hashkeys (or sort_keys 2 or 3) is set, and string values longer than 3 bytes once with dedupe_strings, nothing else being copied; what has no representation (code, globs, handles, weak references to such) is refused, or with undef_unknown is undef, or with stringify_unknown its string, with the warnings warn_unknown asks for; max_recursion_depth refuses nesting beyond the limit (up to 4 levels off) and accepts nesting within it; compress, snappy and snappy_incr compress the body with the chosen method exactly if it is at least compress_threshold bytes and gets smaller (up to the lengths put before it). Tied hashes and arrays are written as the strings and values their methods give, whatever these are. Strings that have been used as numbers keep their text, and numbers used as strings their value (numbers may stand for strings that read the same; values made by dualvar are out of scope). Options that exclude one another, levels and protocol versions that do not exist, and compression methods the protocol version does not have are refused. (Out of scope: aliased_dedupe_strings; things FREEZE or tie methods change while they are encoded.)",
 ["inputs", "configurations", "histories"], "all data x options x ways to call the encoder, also from within FREEZE methods",
 "The tests of the Perl module try each option on one or two values; nothing in the repository's build runs them.",
 ["Perl/Encoder/srl_encoder.c", "Perl/Encoder/Encoder.xs"],
 [("srl_dump_data_structure / srl_build_encoder_struct_alike", "Perl/Encoder/srl_encoder.c"), ("srl_dump_sv and what it calls", "Perl/Encoder/srl_encoder.c"), ("srl_compress_body", "Perl/Encoder/srl_compress.h")],
 observe=["Sereal::Encoder built from Perl/"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
