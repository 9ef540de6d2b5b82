#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

OVERLAY = "none in /repo: the checks compile an instrumented copy of the sources (go build -overlay) made from the working tree"

prop("C01", "Decoding does not depend on how the reader delivers the bytes",
 "Decoding a JSON document through an io.Reader gives the same outcome (same success or failure, and on success the very value the document denotes) however the reader splits the bytes over its Read calls: one byte at a time, empty reads, data together with EOF, splits inside escapes, surrogate pairs, numbers, literals, keys, skipped values and whitespace, scratch writes beyond the bytes it returned. This holds for every entry point: decoding into Go values of every supported kind, into interface{}, skipping and capturing raw values, validating, and walking with the iterator API.",
 ["inputs", "fault_sequences"], "for every document, target type, entry point and every legal sequence of Read results delivering that document",
 "the tests use a few fixed readers (one-byte, iotest style) on short literals per function; the number of (split position x parser state x target type) combinations is unbounded and each parser has its own refill path",
 ["iterator.go", "iterator_str.go", "iterator_number.go", "iterator_float.go", "iterator_int*.go", "iterator_skip*.go", "iterator_object.go", "iterator_read*.go", "val_decoder_native*.go", "val_decoder_json_*.go", "val_decoder_text_unmarshaler.go"],
 [("refill loop that resets or extends the window", "iterator.go readMore"), ("every scanner re-enters after a refill with its partial state", "iterator_str.go, iterator_skip_*.go, iterator_number.go, ...")],
 [("buffer/head/tail/offset", "current window over the stream", "iterator.go"), ("capture", "window must be kept while a raw value is captured", "iterator.go, iterator_raw.go")],
 ["UnmarshalFromReader", "Decoder.Decode", "Iterator.*"], OVERLAY)

prop("C02", "Reader failures never become wrong data and are never swallowed",
 "If the reader ends early, fails or fails while also handing over data at any byte of the stream, no decoding call ever reports success with a value that the bytes delivered so far do not denote, and a call that needs bytes which never came returns a failure carrying the reader's error. Values whose bytes were completely delivered before (or together with) the failure are still returned, a Decoder that reported a failure keeps reporting it and reads no further, and once an iterator's reader recovers from a transient failure between two values the remaining values are read correctly.",
 ["fault_sequences", "inputs"], "for every document stream, every failure position and kind (EOF, error, data with error, repeated or transient error) and every entry point",
 "tests inject an error at a handful of positions per function; the guarantee is over every byte position of every parser state and every subsequent call",
 ["iterator.go", "decoder.go", "iterator_*.go", "decoder_config.go", "errors_decoder.go"],
 [("refill returns the reader's error", "iterator.go readMore"), ("sticky error", "decoder.go Decode"), ("error wrapping", "iterator.go WrapError")],
 [("Decoder.err", "sticky failure", "decoder.go")], ["Decoder.Decode", "Decoder.More", "UnmarshalFromReader", "Iterator.*"], OVERLAY)

prop("C03", "Streams: every value exactly once, in order, and no byte lost",
 "Reading a stream of JSON values with a Decoder or Iterator returns each value exactly once and in order, whatever the target of each value (decoded, skipped, captured raw), the separators and the chunking. At every point between values the bytes returned by Buffered/Buffer followed by the bytes the reader has not delivered yet are exactly the part of the stream after the values consumed, InputOffset is the number of bytes consumed, and More is true exactly when another token follows. A read that fails because the value does not fit its target and that consumes nothing of it leaves the value to the next call.",
 ["inputs", "histories", "fault_sequences"], "for every sequence of values and separators, every sequence of Decode/More/Buffered/InputOffset/Skip/raw calls and every chunking",
 "tests decode two or three values from a string reader; conservation must hold at every boundary/refill alignment and for all mixtures of operations",
 ["decoder.go", "iterator.go", "iterator_raw.go", "iterator_skip*.go", "iterator_int8.go"],
 [("window accounting", "iterator.go readMore/Buffer"), ("offset accounting", "decoder.go InputOffset")],
 [("offset + head", "stream position", "iterator.go")], ["Decoder.Decode", "Decoder.More", "Decoder.Buffered", "Decoder.InputOffset", "Iterator.Buffer"], OVERLAY)

prop("C04", "Encoded output survives short and failing writes without loss or duplication",
 "Whatever the writer does (accepts everything, accepts part and fails, fails, fails once and recovers), the bytes it accepted from an Encoder are always a prefix of the concatenation of the encodings of the values passed to Encode, each followed by one newline, and every Encode that returned nil is completely contained in it. A failed Flush of a Streamer keeps exactly the bytes not accepted, so that repeating Flush continues without losing, duplicating or reordering a byte; after a failure an Encoder keeps reporting that failure and writes nothing more.",
 ["fault_sequences", "histories", "inputs"], "for every sequence of values/streamer calls, flush positions and every sequence of writer results allowed by io.Writer",
 "tests use a writer failing at one or two fixed points; resumption must hold for each partial count at each flush",
 ["streamer.go", "encoder.go", "streamer_*.go"],
 [("unwritten remainder is moved to the front", "streamer.go Flush"), ("sticky error", "encoder.go Encode")],
 [("Streamer.buffer", "bytes produced but not accepted yet", "streamer.go"), ("Encoder.err", "sticky failure", "encoder.go")],
 ["io.Writer calls", "Encoder.Encode", "Streamer.Flush"], OVERLAY)

prop("C05", "A value that fails to encode leaves no trace in the output",
 "When encoding a value fails midway (a user marshaler or value encoder reports an error or panics, an unsupported type or number is met), Marshal returns no bytes and that failure, and an Encoder writes nothing of that value to its writer. The failure is never swallowed, and nothing of the failed value appears in any later output of any encoder, streamer or Marshal call.",
 ["fault_sequences", "inputs", "histories"], "for every value, every position of the failure inside it and every following sequence of encodings",
 "tests check one failing marshaler at top level; the partial output depends on where the failure hits and what is encoded afterwards on recycled buffers",
 ["streamer.go", "streamer_val.go", "encoder.go", "encoder_config.go", "val_encoder_*.go"],
 [("error latch on the streamer", "streamer.go Error"), ("no flush before the value is complete", "encoder.go encodeInternal"), ("reset on release and before encoding", "streamer_pool.go, encoder.go")],
 [("Streamer.Error", "first failure", "streamer.go")], ["Marshal", "Encoder.Encode", "io.Writer calls"], OVERLAY)

prop("C06", "Concurrent callers sharing configs behave as if each ran alone",
 "Any number of goroutines may use the package functions and the same decoder/encoder configs at the same time, including the first use of a type, recursive types, and failing or panicking user callbacks: under every interleaving each call returns exactly what it returns when run alone, with no data race, deadlock or panic.",
 ["schedules", "histories", "inputs"], "for every set of concurrent calls over shared configs and every interleaving of their steps",
 "the tests are single-threaded; the race detector only sees schedules that happen, and the copy-on-write type caches and pools are only exercised sequentially",
 ["decoder_config.go", "encoder_config.go", "iterator_pool.go", "streamer_pool.go", "stack.go", "node.go"],
 [("copy-on-write cache published atomically, built under a mutex", "decoder_config.go createDecoder, encoder_config.go createEncoder"), ("sync.Pool ownership", "iterator_pool.go, streamer_pool.go, stack.go, node.go")],
 [("decoderCache / encoderCache / internalCache", "codec per type", "decoder_config.go, encoder_config.go")], ["every public call"], OVERLAY)

prop("C07", "Recycled iterators, decoders, streamers and encoders behave like new ones",
 "An object obtained from the library (NewIterator, NewDecoder, NewStreamer, NewEncoder, and those used inside Marshal/Unmarshal/Valid) behaves as a fresh one with its config's settings, whatever was done before with the objects that were released: options switched at run time, contexts attached, failed, interrupted, panicked or abandoned operations, deep nesting, unread input, unflushed output. The same holds for an iterator or streamer after Reset, except for options set on that very object.",
 ["histories", "inputs", "fault_sequences"], "for every history of operations on released objects, every recycling decision of the pool and every following operation",
 "tests start from nearly clean pools; leakage needs a specific previous history and a specific next operation on the same recycled object",
 ["iterator_pool.go", "streamer_pool.go", "decoder_config_adaptor.go", "encoder_config_adaptor.go", "iterator.go", "streamer.go", "stack.go", "node.go"],
 [("reset on return and configuration on borrow", "iterator_pool.go, streamer_pool.go, *_config_adaptor.go"), ("init on borrow", "stack.go, node.go")],
 [("Iterator/Streamer fields", "per-use state living in a recycled object", "iterator.go, streamer.go")], ["every public call"], OVERLAY)

prop("C08", "Returned data is owned by the caller and inputs are never modified",
 "Everything the library hands out as a result (strings, byte slices, raw messages, numbers, maps, keys, Marshal output, decoded values, error texts) never changes afterwards, whatever the caller does with the input buffer it passed in or appends to other results, and whatever the library does later, including on recycled internal buffers. The library never modifies the bytes or strings it decodes nor the values it encodes. (SkipRaw, ReadStringAsSlice, Buffer and Buffered are documented views and excluded once the iterator moves on.)",
 ["histories", "inputs", "schedules"], "for every result retained across every later history and interleaving of library calls and input reuse",
 "tests compare results immediately; aliasing shows only when a later operation reuses the same memory",
 ["convert.go", "iterator_str.go", "iterator_raw.go", "iterator_number.go", "val_decoder_json_*.go", "encoder_config.go", "errors_decoder.go"],
 [("copies at the API boundary", "iterator_str.go, iterator_raw.go, encoder_config.go Marshal")],
 [("fixbuf/tmpBuffer", "recycled scratch memory", "iterator.go")], ["retained results"], OVERLAY)

prop("C09", "User callbacks may re-enter the library and may fail",
 "User code called by the library (MarshalJSON, UnmarshalJSON, text (un)marshalers, custom value encoders/decoders, object/array callbacks, readers and writers) may itself call the library freely, on other iterators and streamers, without affecting the call in progress. An error it returns is the failure reported by the outer call, and a panic in it propagates to the caller leaving the library fully usable for every later call on every config.",
 ["histories", "fault_sequences", "programs"], "for every nesting of library calls inside callbacks and every callback invocation that may fail or panic",
 "tests use trivial callbacks; re-entrancy needs nested use of the pools and caches at the moment of the callback",
 ["val_encoder_json_marshaler.go", "val_encoder_text_marshaler.go", "val_decoder_json_unmarshaler.go", "val_decoder_text_unmarshaler.go", "iterator_object.go", "iterator_array.go", "decoder_config.go", "encoder_config.go"],
 [("per-call state only in borrowed objects", "iterator_pool.go, streamer_pool.go"), ("no lock held while calling user code", "decoder_config.go, encoder_config.go")],
 [], ["every public call"], OVERLAY)

prop("C10", "Codecs do not depend on the order in which types were first used",
 "For a given config, the result of encoding or decoding a value depends only on the value, its type and the config, never on which other types were encoded or decoded before with that config, in which order, from how many goroutines, or whether those earlier uses failed.",
 ["histories", "schedules"], "for every order and interleaving of first uses of any set of related types (pointers, elements, fields, recursive types, named byte types, marshalers) on a shared config",
 "tests mostly use a fresh or default config with one order; the codec graph is built incrementally and reused across types",
 ["decoder_config.go", "encoder_config.go", "type_queue.go", "val_encoder_direct.go", "val_encoder_native_ptr.go", "struct.go"],
 [("incremental graph building with deferred linking", "decoder_config.go createDecoderInternal, encoder_config.go createEncoderInternal")],
 [("decoderCache / encoderCache / internalCache", "codec graph", "decoder_config.go, encoder_config.go")], ["Marshal/Unmarshal on shared configs"], OVERLAY)

prop("C11", "Garbage collections at any moment never corrupt values",
 "Decoded values, encoded output and the program's memory stay intact whatever the moments at which garbage collections and goroutine stack moves occur during and after any library call, in particular while a reader, a writer or a callback is running in the middle of the call.",
 ["schedules", "inputs"], "for every operation and every placement of collections and stack growth inside and after it",
 "tests allocate little and collections practically never hit the middle of an operation; memory kept alive only by hidden pointers is then never reclaimed too early",
 ["eface.go", "link_reflect.go", "val_decoder_native_slice.go", "val_decoder_native_map.go", "val_decoder_native_ptr.go", "val_decoder_native_struct*.go", "convert.go", "iface.go"],
 [("memory reachable through typed or unsafe.Pointer references at all times", "link_reflect.go, eface.go"), ("escape suppression only where safe", "link_reflect.go noescape")],
 [("slice under construction", "backing array not yet stored in the target", "val_decoder_native_slice.go")], ["decoded values", "process health"], OVERLAY)

prop("C12", "Every call makes bounded progress and returns as soon as it can",
 "Given a reader that keeps delivering bytes, eventually ends or fails, every library call terminates within a number of steps and Read calls, and after allocating an amount of memory, proportional to the bytes it consumes. Decoding or skipping a self-delimiting value (object, array, string, literal) returns without another Read once its last byte was delivered, so request/response exchanges cannot dead-lock.",
 ["inputs", "fault_sequences", "schedules"], "for every document, including malformed and truncated ones, every chunking and every finite pattern of empty reads",
 "tests terminate on the samples tried; a refill loop that spins or over-reads needs a particular alignment of data, refill and end of stream",
 ["iterator.go", "iterator_skip*.go", "iterator_read*.go", "iterator_object.go", "iterator_array.go", "decoder.go"],
 [("refill only when the window is empty and more is needed", "iterator.go")], [], ["Read calls", "step count"], OVERLAY)

prop("C13", "An Encoder-to-Decoder pipeline transports values exactly once, in order",
 "When one side writes values with an Encoder to a byte stream and the other reads them with a Decoder while both run concurrently over a bounded pipe (any buffering, fragmentation, back-pressure and schedule, in both directions), the receiver obtains exactly the values sent, in order, each available without waiting for the next one to be sent, and nothing after a failure that the sender did not complete.",
 ["schedules", "fault_sequences", "histories"], "for every sequence of values, pipe capacity, fragmentation, schedule and point at which one side stops or the pipe breaks",
 "no test runs an encoder against a decoder concurrently",
 ["encoder.go", "decoder.go", "streamer.go", "iterator.go"],
 [("newline-terminated values", "encoder.go"), ("values returned without over-reading", "iterator.go")], [], ["both ends of the pipe"], OVERLAY)

prop("C14", "Streaming memory stays bounded by the largest value",
 "Decoding, skipping or capturing values from a stream of any length, and encoding any number of values to a writer, retains memory bounded by the largest single value and not by the length of the stream or the number of operations, including after failed, captured or interrupted operations and on recycled objects.",
 ["histories", "inputs", "fault_sequences"], "for every long stream and mixture of operations on one or on recycled decoders, iterators, encoders",
 "tests process streams of a few bytes; accumulation needs a long history",
 ["iterator.go", "iterator_raw.go", "val_decoder_native_slice.go", "streamer.go", "encoder.go", "iterator_pool.go"],
 [("window reuse outside capture", "iterator.go readMore"), ("buffer reset after flush", "streamer.go")],
 [("buffer/fixbuf", "window memory", "iterator.go")], ["live heap"], OVERLAY)

NA = "a pure function of its input: no schedule, clock, fault, I/O or history takes part, so a simulator has nothing to decide"
prop("N01", "Decoding agrees with encoding/json on values and types",
 "Unmarshal of a contiguous document into a value of a supported type gives the result encoding/json gives, except for the differences listed in the README.",
 ["inputs", "programs"], "for every document and target type", "input space is unbounded",
 ["standard_compatible.go", "val_decoder*.go"], [("decoders per kind", "val_decoder*.go")])
prop("N02", "Encoding agrees with encoding/json up to member order",
 "Marshal produces a document that denotes what encoding/json's output denotes.",
 ["inputs", "programs"], "for every value and type", "input space is unbounded",
 ["val_encoder*.go", "streamer*.go"], [("encoders per kind", "val_encoder*.go")])
prop("N03", "Valid accepts exactly the JSON grammar",
 "Valid(data) is true exactly for the byte strings that are one JSON value surrounded by white space.",
 ["inputs"], "for every byte string", "input space is unbounded",
 ["iterator_skip*.go", "iterator.go"], [("skippers", "iterator_skip*.go")])
prop("N04", "Struct fields and tags resolve as in encoding/json",
 "Which fields of a struct are encoded/decoded, under which names and options, follows encoding/json's rules for tags, embedding, shadowing and case folding.",
 ["programs", "configurations"], "for every struct type", "type space is unbounded",
 ["struct.go", "struct_tag.go", "struct_field*.go"], [("field resolution", "struct.go")])
prop("N05", "Numeric limits and conversions are exact",
 "Integers outside the range of the target are rejected, all others are exact; floats are correctly rounded and printed in the shortest form that reads back.",
 ["inputs"], "for every number token and numeric type", "input space is unbounded",
 ["iterator_int*.go", "iterator_float*.go", "streamer_int.go", "streamer_float.go"], [("digit loops", "iterator_int*.go, streamer_int.go")])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
