#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, sys, os

P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe or ["jettison.Marshal", "jettison.MarshalOpts", "jettison.Append", "jettison.AppendOpts"],
                          "hook_needed": hook}})

prop("C01", "Default output is identical to encoding/json for all built-in kinds",
 "Encoding, without options, any value built from booleans, integers, floats, strings, slices, arrays, maps, structs, pointers and interfaces, nested in any way, gives exactly the bytes encoding/json gives for that value, and fails exactly when encoding/json fails. Backspace and form feed may be written in either JSON escape form, and time.Duration, sync.Map and the omitnil tag are the documented extensions.",
 ["inputs", "programs"], "every Go type expression up to a nesting depth over the supported kinds, and every value of it from a small domain with nil/empty/zero/boundary values, encoded by value and by pointer",
 "The test suite compares a few dozen hand-written types with encoding/json; the guarantee is about the product of kinds, positions, addressability and nil-ness, which is far larger.",
 ["encode.go", "instruction.go", "struct.go", "unsafe.go", "map.go"],
 [("type-directed instruction construction", "instruction.go:newInstruction"), ("unsafe readers for each kind", "encode.go, integer.go"), ("struct field tables", "struct.go:cachedFields"), ("map iteration through runtime iterators", "map.go, encode.go:encodeMap")])

prop("C02", "A successful encoding is always one compact, valid JSON text",
 "Whenever an encoding call succeeds and no option that switches off escaping, UTF-8 coercion, compaction or number validation is set, the output is exactly one valid JSON text, without insignificant white space, whose object keys are strings, and in valid UTF-8 wherever embedded raw JSON is; this holds for every combination of the other options and whatever the marshaler methods for JSON or text return (append methods are trusted to append compact valid JSON). Input that cannot be represented yields an error, never malformed output.",
 ["inputs", "configurations"], "every supported value shape at every position (member, element, map key, map value, sync.Map entry) under every combination of the remaining options, including hostile marshaler results",
 "Tests check fixed outputs for fixed option sets; validity has to hold for every mixture of options, positions and callback results.",
 ["encode.go", "instruction.go", "time.go", "options.go"],
 [("delimiters between members and elements", "encode.go:encodeStruct, encodeArray, encodeMap"), ("quoting of keys", "instruction.go:newMapInstr, encode.go:appendSyncMapKey"), ("validation of marshaler output", "encode.go:encodeJSONMarshaler, encodeRawMessage")])

prop("C03", "Struct members follow the encoding/json field rules",
 "The members written for a struct are exactly those the encoding/json rules select: exported or embedded fields, renamed or ignored by their tag, with shadowing, tag priority and ambiguity resolved across embedded structs. They appear in declaration order under the right (escaped) name, each carries the value of its own field at any embedding depth, and members reached through a nil embedded pointer are left out.",
 ["programs", "inputs"], "every struct declaration up to a bounded number of fields and embedding depth, with embedded values and pointers (nil or not), colliding names and tags",
 "A handful of struct declarations are tested; the rules quantify over every declaration, and the offset bookkeeping depends on depth and on sibling count.",
 ["struct.go", "tags.go", "encode.go"],
 [("breadth-first field scan", "struct.go:structFields, scanFields"), ("dominance", "struct.go:filterByVisibility, dominantField"), ("offset and indirection sequence per field", "struct.go:seq, encode.go:encodeStruct")])

prop("C04", "Custom marshalers are chosen by documented precedence and addressability",
 "A value whose type has marshaling methods is encoded with exactly one of them: AppendJSONContext before AppendJSON before MarshalJSON before MarshalText, all before the type's own kind. A pointer-receiver method counts if and only if the value is addressable or is a pointer (including slice elements and everything reached through a pointer, embedded or not), and nil pointers and nil interfaces give null.",
 ["programs", "inputs"], "every subset of the four methods with value or pointer receivers, on every kind of receiver type, at every position and addressability",
 "Tests use a few receiver kinds with one or two methods each; precedence and addressability form a product no sample covers.",
 ["instruction.go", "encode.go", "unsafe.go", "json.go"],
 [("method-set tests in priority order", "instruction.go:newMarshalerTypeInstr"), ("rebuilding the interface value", "encode.go:encodeMarshaler, unsafe.go:packEface"), ("addressability propagation", "instruction.go:newInstruction canAddr")])

prop("C05", "Strings are escaped losslessly under every escaping option",
 "Every Go string, as a value, map key, member name or text-marshaler result, becomes a JSON string that decodes to the same text with invalid UTF-8 bytes replaced by U+FFFD, escaped as encoding/json escapes it. NoHTMLEscaping changes only <, > and &; NoUTF8Coercion changes only invalid bytes; NoStringEscaping writes the bytes of values and map keys verbatim between quotes and makes the other two irrelevant for them.",
 ["inputs", "configurations"], "all byte strings up to a length over the full byte alphabet or over all character classes, all Unicode code points, all option subsets, all string positions",
 "Tests escape about forty fixed strings; escaping is a byte-level transducer whose flush and lookahead state matters for sequences.",
 ["encode.go"],
 [("run-accumulating escaper", "encode.go:appendEscapedBytes"), ("string, key and text callers", "encode.go:encodeString, encodeTextMarshaler")])

prop("C06", "Go maps are written completely, once per entry, in key order",
 "A map becomes an object with exactly one member per entry whose key is resolved as encoding/json resolves it (string kinds verbatim, then MarshalText, then integers in decimal) and whose value belongs to that key. Members are sorted by resolved key, bytewise before escaping; with UnsortedMap the same members appear in some order, and nil maps give null, or {} with NilMapEmpty.",
 ["inputs", "configurations"], "all maps over key types of every category and values of nested shapes up to a size, sorted and unsorted, including maps large enough to have several buckets and nested maps sharing scratch state",
 "Tests use maps of a few entries with plain keys; completeness and order depend on the iteration state, key text and shared scratch buffers.",
 ["encode.go", "map.go", "instruction.go"],
 [("sorted and unsorted emission", "encode.go:encodeSortedMap, encodeUnsortedMap"), ("runtime iterators from a pool", "map.go, map_1.18.go:newHiter"), ("key instructions", "instruction.go:newMapInstr")],
 [("hiterPool, mapElemsPool, bufferPool", "reused scratch state", "map.go, buffer.go")])

prop("C07", "A sync.Map encodes like the equivalent Go map",
 "Encoding a sync.Map gives what a plain Go map with the same entries would give: same members, key resolution, order, option handling and null values; an empty one gives {}. A key that is nil or of a type unusable as a map key yields an error, not a panic or malformed output.",
 ["inputs", "configurations"], "all sets of entries up to a size over keys of every category (supported and unsupported) and values of every kind including nil, sorted and unsorted",
 "Tests store seven entries once; the dynamic typing of keys and values makes the space of entries open-ended.",
 ["encode.go"],
 [("range over entries", "encode.go:encodeSyncMap"), ("dynamic key handling", "encode.go:appendSyncMapKey")])

prop("C08", "Numbers are exact and number literals are validated",
 "Integers of every width are written in exact decimal, and floats as the shortest decimal that reads back to the same float32 or float64, in the encoding/json (ES6) layout; NaN and infinities are errors. A json.Number is written verbatim if and only if it is a valid JSON number (the empty one as 0), otherwise it is an error, and NoNumberValidation skips only that check.",
 ["inputs"], "all values of the 8- and 16-bit types, structured exhaustive families for the wider ones, all number literals up to a length over the grammar's alphabet",
 "Tests sample floats around round decimals and list some literals; exactness is a claim about every bit pattern and every literal.",
 ["encode.go", "integer.go", "number.go"],
 [("float formatting", "encode.go:appendFloat"), ("integer readers", "integer.go"), ("literal grammar", "number.go:isValidNumber")])

prop("C09", "Times are written exactly as the configured layout specifies",
 "A time.Time with a year in 0..9999 and a zone offset below 24 hours is written as time.Format writes it with the configured layout (RFC 3339 with nanoseconds by default), as a JSON string, or as its Unix second count with UnixTime, which takes precedence over any layout. A year outside that range is an error.",
 ["inputs", "configurations"], "every calendar day of the years 0..9999, every second of a day, every fraction shape, every zone offset, every layout and the UnixTime option, at every position including map keys",
 "Tests draw random instants between 1970 and now with offsets of some seconds; hand-written calendar arithmetic must hold for every day.",
 ["time.go", "encode.go"],
 [("RFC 3339 fast path", "time.go:appendRFC3339Time, rdnToYmd"), ("range check and dispatch", "encode.go:encodeTime")])

prop("C10", "Durations are exact in every configured format",
 "A time.Duration is written in the configured format: integer nanoseconds (default), truncated integer microseconds or milliseconds, seconds or minutes as the float the Duration methods return, or the Duration.String text as a JSON string. This holds for every duration from the minimum to the maximum, and an unknown format is rejected.",
 ["inputs", "configurations"], "all durations in structured exhaustive families around every unit and power boundary, times every format",
 "Tests list eleven durations in string form only.",
 ["time.go", "encode.go", "options.go"],
 [("string form", "time.go:appendDuration, fmtFrac, fmtInt"), ("format dispatch", "encode.go:encodeDuration")])

prop("C11", "Byte slices and byte arrays keep their documented representations",
 "A byte slice is written as the standard base64 of its content for every length (null if nil), or as an escaped JSON string of its bytes with RawByteSlice; a byte array is written as an array of numbers, or as an escaped string with ByteArrayAsString. Each option affects only its own kind of value, and sequences whose element type has marshaling methods are encoded element by element.",
 ["inputs", "configurations"], "all lengths and contents up to a bound, all destination buffer capacities, named and unnamed element types with and without methods, all option subsets",
 "Tests try five slice sizes with a fresh buffer; the in-place base64 path depends on the free capacity of the destination.",
 ["encode.go", "instruction.go"],
 [("base64 into the destination", "encode.go:encodeByteSlice"), ("array as string", "encode.go:encodeByteArrayAsString"), ("choice of instruction", "instruction.go:newSliceInstr, newArrayInstr")])

prop("C12", "Embedded raw JSON is validated and compacted without changing its meaning",
 "The JSON returned by MarshalJSON or held by a json.RawMessage is inserted compacted and HTML-escaped exactly as encoding/json would insert it (unless NoHTMLEscaping is set), never altering the content of its strings. Invalid JSON is an error, a nil RawMessage is null, and NoCompact inserts the bytes verbatim.",
 ["inputs", "configurations"], "all byte strings up to a length over the JSON token alphabet including quotes, backslashes, white space, HTML characters and U+2028/9 bytes, through both sources, under both options",
 "Tests compact one literal; the compactor tracks string and escape state byte by byte.",
 ["encode.go"],
 [("compaction transducer", "encode.go:appendCompactJSON"), ("validation", "encode.go:encodeJSONMarshaler, encodeRawMessage")])

prop("C13", "omitempty and omitnil omit exactly the members they should",
 "omitempty leaves out a member exactly when encoding/json would (false, zero number, empty string, nil pointer or interface, length-zero array, slice or map), and omitnil exactly when the field is a nil pointer, interface, slice or map, or its type is a json.Marshaler that produced the literal null. Omitting any subset of members, wherever they stand, leaves the remaining members, their order and the punctuation intact.",
 ["inputs", "programs"], "every sequence of up to several fields over all kinds, tag options and emptiness states, by value and by pointer",
 "Tests use one struct per option with fixed neighbours; punctuation depends on which prefix of members was omitted.",
 ["encode.go", "types.go", "struct.go", "instruction.go"],
 [("emptiness tests per kind", "types.go:emptyFuncOf"), ("rollback of null members", "encode.go:encodeStruct"), ("tag options", "struct.go:scanFields")])

prop("C14", "Allow and deny lists filter members by their final name, everywhere",
 "With AllowList only the struct members whose final JSON name is listed are written, with DenyList the listed ones are not, deny winning over allow; the rule applies to every struct at every depth, through embedding, pointers, interfaces, collections and sync.Map. All other output is unchanged: the result equals the unrestricted encoding with those members removed, and neither map keys nor text inside other encodings are affected.",
 ["inputs", "configurations"], "every pair of allow and deny sets over the member names of nested structures, including absent, empty and nil lists",
 "Tests use one allow list and one deny list.",
 ["options.go", "encode.go"],
 [("filter", "options.go:isDeniedField, fieldListToSet"), ("check before each member", "encode.go:encodeStruct")])

prop("C15", "Options are independent, order-insensitive and confined to one call",
 "The effect of a set of options is the combination of their individual documented effects: their order and repetition (last one wins for valued options) do not matter, nil options are ignored, every option reaches every nesting level, an option whose subject does not occur changes nothing, and options of one call never influence another call. An option keeps the meaning it had when made, whatever later becomes of the list it was made from. An invalid option (nil context, empty layout, unknown duration format) is reported as InvalidOptionError and nothing is encoded.",
 ["configurations", "inputs", "histories"], "every subset and bounded permutation of all options over a value containing every subject of an option, at several nesting levels",
 "Tests exercise options one at a time on one value each.",
 ["options.go", "json.go", "encode.go", "instruction.go"],
 [("functional options", "options.go:apply, validate"), ("flags passed by value through every instruction", "options.go:encOpts")])

prop("C16", "All entry points agree and buffers are never shared",
 "Marshal, MarshalOpts, Append and AppendOpts produce the same bytes and the same success or failure for the same value and options; Append only adds to the end of the given slice and leaves its existing content intact for every length and capacity, on success and on failure. A returned slice belongs to the caller: later or concurrent calls never change it, changing it never affects later results, and Marshal returns no data together with an error.",
 ["inputs", "histories"], "all values of a representative set, all prefix lengths and capacities up to beyond the output size, all sequences of calls up to a depth with mutation of earlier results",
 "Tests call Append with a nil buffer only and look at one result at a time.",
 ["json.go", "buffer.go", "encode.go"],
 [("copy out of the pooled buffer", "json.go:marshalJSON"), ("append to the caller's slice", "json.go:appendJSON")],
 [("bufferPool", "pooled scratch buffers", "buffer.go")])

prop("C17", "Results do not depend on what was encoded before",
 "The outcome of an encoding call depends only on its value and options: not on which types were encoded earlier, in which form (by value, by pointer, nested, as map key) or order, nor on earlier calls that failed, panicked inside a marshaler method, or ran re-entrantly from within one. An encoding always reflects the value as it is at the time of the call, also when an earlier call encoded a similar value, or the same one before its owner changed it in place. In particular cached per-type state and reused scratch buffers never leak from one call or type into another.",
 ["histories", "fault_sequences"], "every history of calls up to a depth over an alphabet of operations that share types, caches and pools, including failing, panicking and re-entrant ones, with every cache start state reachable that way",
 "Each test runs in one fixed order with warm caches shared by the whole process; orders and fault positions are never varied.",
 ["instruction.go", "struct.go", "types.go", "buffer.go", "map.go", "encode.go"],
 [("type caches", "instruction.go:cachedInstr, newStructInstr; struct.go:cachedFields; types.go:cachedEmptyFuncOf"), ("pools", "buffer.go, map.go")],
 [("instrCachePtr, structInstrCache, fieldsCache, emptyFnCache", "per-type caches", "instruction.go, struct.go, types.go")],
 hook="none in /repo: the checks rebuild the package with sync and sync/atomic replaced through a build overlay")

prop("C18", "Concurrent encoding is race-free, deadlock-free and deterministic",
 "Any number of goroutines may encode values concurrently, including the first encodings of the same or of mutually dependent (recursive) types: every call terminates and returns what it would return alone. No data race occurs on the package's own state, whatever the interleaving.",
 ["schedules"], "every interleaving at synchronisation operations, up to a preemption bound, of two or three goroutines encoding types that share caches and pools from a cold start, with every pool answer",
 "No test encodes concurrently with cold caches; even then the scheduler would show a handful of interleavings.",
 ["instruction.go", "struct.go", "types.go", "buffer.go", "map.go"],
 [("copy-on-write type cache behind an atomic pointer", "instruction.go:loadCache, storeInstr"), ("placeholder instruction with a wait group for recursive types", "instruction.go:newStructInstr"), ("sync.Map caches and sync.Pool scratch", "struct.go, types.go, buffer.go, map.go")],
 [("instrCachePtr", "atomic pointer to immutable map", "instruction.go"), ("structInstrCache", "instruction or placeholder per struct type", "instruction.go")],
 hook="none in /repo: the checks rebuild the package with sync and sync/atomic replaced through a build overlay")

prop("C19", "Errors surface from any position, typed and without side effects",
 "An unsupported type, an unsupported value, an invalid number or raw JSON, or an error returned by any marshaler method, at whatever position and nesting it occurs in the value, makes the whole call fail with an error of the documented type carrying the offending type or the method's own error. Encoding stops there: no later marshaler method is called. An error already returned never changes.",
 ["fault_sequences", "inputs"], "a fault of every kind injected at every callback or leaf position of every container nesting up to a depth, alone and in pairs",
 "Tests return errors from top-level marshalers only.",
 ["encode.go", "json.go", "instruction.go"],
 [("error returns threaded through every instruction", "encode.go"), ("error types", "json.go")])

prop("C20", "Every memory layout is read correctly, even if the GC runs meanwhile",
 "Every value is read as its Go type defines it, whatever its in-memory form: pointer-shaped values (maps, channels, functions, single-pointer structs and arrays) stored in interfaces or in place, zero-size values, empty and non-empty interfaces, values on the stack or heap. Garbage collections, stack growth or heap churn during any marshaler callback do not change the result or corrupt memory, and encoding never modifies the value it encodes, nor memory its methods hand out.",
 ["programs", "inputs", "schedules"], "every composition up to a depth of pointer-shaped and plain layouts, at every position, with a collection, stack growth or churn forced at every callback position",
 "Tests use a few layouts; the unsafe code depends on the compiler's representation of each type, and no test forces a collection.",
 ["unsafe.go", "instruction.go", "types.go", "encode.go", "map.go"],
 [("interface unpacking", "unsafe.go:unpackEface, packEface"), ("direct-interface wrapping", "instruction.go:wrapInlineInstr, types.go:isInlined"), ("liveness", "json.go runtime.KeepAlive")])

prop("C21", "Recursive types are supported and cyclic values are rejected",
 "Every recursive type, whether the recursion passes through structs, named slices, arrays, maps, pointers or interfaces, directly or mutually, is encoded like encoding/json encodes it for every finite value, however deep. A value that contains itself makes the call fail with an error instead of crashing or hanging the process.",
 ["programs", "inputs"], "all recursive type definitions over two mutually recursive names and all constructors, finite values of every depth up to a bound, and all pointer graphs with a cycle up to a size",
 "One self-referential struct with one level is tested.",
 ["instruction.go", "encode.go"],
 [("placeholder instructions", "instruction.go:newStructInstr"), ("lazy construction for named composites", "instruction.go:newInstruction")])

prop("C22", "Marshaler callbacks are invoked faithfully, exactly once each",
 "Each marshaler method selected for a value is called exactly once per occurrence of that value, in output order (entries of one map in any order), on that very value, with the configured context (a non-nil default if none was configured) and, for append methods, with a buffer whose content the method only extends. What a method returns is what appears at its position, and no method is called for omitted, filtered or unselected members.",
 ["inputs", "configurations"], "every arrangement up to a depth of occurrences of recording marshalers over containers, positions, contexts and omission states",
 "Tests look only at final outputs of marshalers returning constants.",
 ["encode.go", "instruction.go", "options.go"],
 [("callback wrappers", "encode.go:encodeAppendMarshalerCtx, encodeAppendMarshaler, encodeJSONMarshaler, encodeTextMarshaler"), ("context option", "options.go:WithContext")])

prop("C23", "The string tag option quotes scalars reversibly",
 "A struct field of boolean, integer, float or string kind, or json.Number or time.Duration in numeric form, or a pointer to one, that has the string tag option is written as a JSON string containing the JSON encoding of its value, exactly as encoding/json does, so that decoding with the same tag gives the value back; nil pointers give null. On every other type, and below the field's own level, the option has no effect.",
 ["programs", "inputs"], "every field type up to a depth, with and without the option, in combination with omitempty, over all scalar boundary values and all short strings",
 "One struct with ASCII content is tested.",
 ["instruction.go", "struct.go", "encode.go"],
 [("quoted instructions", "instruction.go:newBasicTypeInstr, wrapQuotedInstr"), ("quoted strings", "encode.go:encodeQuotedString"), ("eligibility", "struct.go:scanFields")])

prop("C24", "benchparse attributes every statistic to its benchmark and column",
 "Converting a benchstat CSV file writes one table per benchmark, with a header and exactly one row per run name of that benchmark, holding that run's values in the order of the header columns; omitted units appear in neither. A malformed header, row name or number is an error and never a silent loss of data.",
 ["inputs", "configurations"], "every small CSV file over sections, benchmarks, run names and units, with every combination of omit flags and every single-line malformation",
 "The tool has no tests.",
 ["tools/benchparse/benchparse.go"],
 [("CSV section parser", "tools/benchparse/benchparse.go:parse"), ("table construction", "tools/benchparse/benchparse.go:transform")],
 observe=["benchparse -in FILE -out FILE"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
