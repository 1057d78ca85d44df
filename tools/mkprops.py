#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))

prop("C01", "Span buffer is an exactly-once bounded FIFO under concurrent producers",
     "With any number of threads adding to the span buffer and one thread consuming from it, every element whose add was accepted is handed to the consumer exactly once and in acceptance order, and nothing else ever is. An add that is refused leaves the caller's element with the caller; the number of stored elements never exceeds the configured maximum, and reported size and counts match what was added and consumed. Without concurrent activity an add is refused only when the buffer is full.",
     ["schedules", "histories", "inputs"], "all interleavings of the atomic steps of any number of producers with one consumer, all capacities, all histories of add/peek/consume/clear",
     "The existing tests run a handful of sequential cases plus one randomised multi-thread run; a lost or duplicated element needs a producer to stall between two particular atomic steps while others wrap around.",
     ["src/common/circular_buffer.h", "src/common/circular_buffer_range.h", "src/common/atomic_unique_ptr.h"],
     [("CircularBuffer::Add", "src/common/circular_buffer.h"), ("CircularBuffer::Consume", "src/common/circular_buffer.h"), ("CircularBuffer::Peek", "src/common/circular_buffer.h")],
     [dict(name="head_/tail_", meaning="positions of the next add and of the oldest element", where="src/common/circular_buffer.h"),
      dict(name="data_", meaning="slots; null means free", where="src/common/circular_buffer.h")],
     ["CircularBuffer::Add", "CircularBuffer::Peek", "CircularBuffer::Consume", "CircularBuffer::size"])

prop("C02", "Atomic owning pointer never loses or doubly owns an element",
     "Each operation of the atomic owning pointer (conditional swap, swap, reset, destruction) moves ownership in one atomic step: afterwards every element is owned by exactly one of the slot and the caller, or has been destroyed exactly once. A conditional swap takes the element only when the slot was empty, and otherwise changes neither side.",
     ["schedules", "inputs"], "all slot and owner contents (null or not) and all interferences by other threads between atomic steps",
     "Tests exercise four sequential combinations; whether the read and the write of the slot are one atomic step is a statement about every schedule.",
     ["src/common/atomic_unique_ptr.h"],
     [("AtomicUniquePtr::SwapIfNull", "src/common/atomic_unique_ptr.h"), ("AtomicUniquePtr::Swap", "src/common/atomic_unique_ptr.h"), ("AtomicUniquePtr::Reset", "src/common/atomic_unique_ptr.h")])

prop("C03", "A circular range enumerates exactly its elements, in order, across the wrap",
     "For every range of the circular buffer, iteration visits first its leading part and then its wrapped part, each element once and in order, stopping right after the first element the visitor rejects and reporting whether it ran to the end. Size equals the number of elements iteration visits, emptiness means size zero, and taking the first n yields exactly the first n elements of the same sequence.",
     ["inputs"], "all range shapes (both parts of any length, including empty), all n up to the size, all visitor decisions",
     "Tests take subranges of two fixed ranges; off-by-one errors at the boundary between the two parts depend on the exact lengths.",
     ["src/common/circular_buffer_range.h"],
     [("CircularBufferRange::ForEach", "src/common/circular_buffer_range.h"), ("CircularBufferRange::Take", "src/common/circular_buffer_range.h"), ("CircularBufferRange::size", "src/common/circular_buffer_range.h")])

prop("C04", "A chained stream reads back exactly the bytes written to it",
     "After any sequence of obtaining output space and returning the unused tail of it, followed by closing, the fragments of a chained stream concatenate to exactly the bytes written, the byte count is their total length and the fragment count is the number of fragments visited. After a seek or a clear, the fragments are exactly the corresponding suffix, or nothing.",
     ["histories", "inputs"], "all sequences of Next/BackUp with all back-up amounts, any total length (any number of blocks), then all sequences of seeks",
     "The stream's own test is not even part of the offline suite and samples a few lengths; block-boundary and empty-stream cases depend on the exact history.",
     ["src/common/chained_stream.cpp", "src/common/chained_stream.h"],
     [("ChainedStream::Next/BackUp", "src/common/chained_stream.cpp"), ("ChainedStream::SegmentForEachFragment", "src/common/chained_stream.cpp"), ("ChainedStream::SegmentSeek", "src/common/chained_stream.cpp")])

prop("C05", "Composed streams behave as the concatenation of their parts",
     "Appending one composable stream to another makes the result enumerate, count, seek and clear over the concatenation of the parts' fragments in append order, for any number of parts, whether or not the appended stream is itself a composition. A seek leaves exactly the fragments from the target position on, clearing leaves none, and an iteration the visitor stops is reported as stopped.",
     ["histories", "inputs"], "all composition lengths, all numbers of fragments per part, all seek targets, all visitor decisions",
     "Tests compose at most three parts and sample single positions; the walk over the chain is a loop over an unbounded list.",
     ["src/common/composable_fragment_input_stream.cpp"],
     [("ComposableFragmentInputStream::Append", "src/common/composable_fragment_input_stream.cpp"), ("ComposableFragmentInputStream::Seek", "src/common/composable_fragment_input_stream.cpp"), ("ComposableFragmentInputStream::ForEachFragment", "src/common/composable_fragment_input_stream.cpp")])

prop("C06", "A fragment-array stream denotes the remaining suffix of its fragments",
     "At every moment a fragment-array stream enumerates exactly the bytes of its fragments from its current position to the end, in order and each once, and its fragment count is the number of fragments enumerated. Seeking advances the position by exactly the given amount relative to the current one, clearing leaves nothing, and adding or assigning fragments extends or restarts the sequence.",
     ["histories", "inputs"], "all fragment lists, all sequences of seeks, all visitor decisions",
     "The tests for it are not part of the offline suite and seek once; relative seeks after seeks are where positions go wrong.",
     ["src/common/fragment_array_input_stream.cpp", "src/common/fragment_array_input_stream.h"],
     [("FragmentArrayInputStream::ForEachFragment", "src/common/fragment_array_input_stream.cpp"), ("FragmentArrayInputStream::Seek", "src/common/fragment_array_input_stream.cpp")])

prop("C07", "Consuming n bytes removes exactly the first n bytes of a list of streams",
     "Consuming n bytes from a list of streams removes exactly the first n bytes of their concatenation: streams lying wholly inside are emptied, the stream containing the boundary is repositioned to the first unconsumed byte, and later streams are untouched. It reports true exactly when no fragment with unconsumed bytes remains.",
     ["inputs"], "all numbers of streams, all fragment counts and sizes, all n from zero to the total",
     "Tests use one or two streams with fixed texts and a few n; the boundary conditions (n on a fragment or stream boundary) range over all layouts.",
     ["src/common/fragment_input_stream.cpp"],
     [("Consume", "src/common/fragment_input_stream.cpp")])

prop("C08", "Vectored writes transmit every byte once, in order, whatever the socket accepts",
     "Writing a list of streams to a socket offers their bytes in order, in batches no larger than the system limit, and afterwards exactly the bytes the system accepted have been removed from the streams: nothing is skipped or offered again after short writes, blocking or errors. It returns true exactly when everything was written, returns false when the socket would block, and raises an error only on a hard error.",
     ["inputs", "fault_sequences"], "all stream layouts (any number of fragments, beyond the batch limit), all sequences of system-call results: full, short, would-block, hard error",
     "vector_write is not exercised by the offline suite; short writes at a batch boundary cannot be scheduled by a test on a real socket.",
     ["src/network/vector_write.cpp", "src/common/fragment_input_stream.cpp", "src/common/platform/network_unix.cpp", "src/common/platform/error_unix.cpp"],
     [("Write", "src/network/vector_write.cpp"), ("Consume", "src/common/fragment_input_stream.cpp"), ("IsBlockingErrorCode", "src/common/platform/error_unix.cpp")])

prop("C09", "The span stream sends each allotted span once and accounts for it exactly",
     "A span stream enumerates exactly the fragments of the spans allotted from the buffer, in order. Seeking to a position removes from the buffer exactly the spans begun before it, keeps the partially transmitted one (positioned at its first untransmitted byte) as the remnant, leaves all later spans buffered, and reports as sent exactly the spans wholly transmitted; clearing removes and reports all of them.",
     ["histories", "inputs"], "all numbers of allotted spans and fragments per span, all seek targets including span boundaries, all buffer wrap positions",
     "Not part of the offline suite; the boundary cases (seek onto a span boundary, into the first fragment) depend on the layout.",
     ["src/recorder/stream_recorder/span_stream.cpp"],
     [("SpanStream::Seek", "src/recorder/stream_recorder/span_stream.cpp"), ("SpanStream::Clear", "src/recorder/stream_recorder/span_stream.cpp"), ("SpanStream::Allot", "src/recorder/stream_recorder/span_stream.cpp")])

prop("C10", "A report request announces exactly the bytes and spans it carries",
     "A report request enumerates its header, then its metrics when spans were dropped, then the bytes of the added spans in the order added. Its fragment and byte counts are the number and total length of the fragments enumerated, its span count the number of spans added and its dropped count the number given; copying it out yields the same bytes, and an enumeration the visitor stops is reported as stopped.",
     ["histories", "inputs"], "all headers, dropped counts, numbers and sizes of spans, all visitor decisions",
     "Its test is not part of the offline suite and adds two spans.",
     ["src/recorder/serialization/report_request.cpp", "src/recorder/serialization/report_request.h", "src/common/buffer_chain.cpp"],
     [("ReportRequest::AddSpan", "src/recorder/serialization/report_request.cpp"), ("ReportRequest::ForEachFragment", "src/recorder/serialization/report_request.cpp"), ("BufferChain::CopyOut", "src/common/buffer_chain.cpp")])

prop("C11", "Dropped-span accounting conserves every drop under concurrency",
     "At every moment the dropped-span counter equals all drops recorded plus all counts given back minus all counts taken, for every interleaving of recording, taking and giving back; taking returns the counter and zeroes it in one atomic step. Every drop, send and flush is also reported to the metrics observer exactly once with its amount.",
     ["schedules", "histories"], "all interleavings of any number of threads' record/take/give-back operations and all amounts",
     "No test in the offline suite runs these concurrently; a read-then-write in place of an exchange loses drops only under a particular interleaving.",
     ["src/recorder/metrics_tracker.cpp", "src/recorder/metrics_tracker.h"],
     [("MetricsTracker::ConsumeDroppedSpans", "src/recorder/metrics_tracker.cpp"), ("MetricsTracker::OnSpansDropped", "src/recorder/metrics_tracker.h")])

prop("C12", "Embedded protobuf messages are framed with their exact key, length and size",
     "Writing an embedded message emits the varint key of its field with the length-delimited wire type, the varint of the message size and then the message, in that order, and the size computed in advance for it is exactly the number of bytes so written, for every field number and message size. The dropped-spans metrics message is such a frame for the internal-metrics field carrying the given count.",
     ["inputs"], "all field numbers below 2^29, all message sizes, all counts",
     "Tests use one field number and one small message; size mismatches appear only where a varint changes length.",
     ["src/common/protobuf.cpp", "src/recorder/serialization/embedded_metrics_message.cpp"],
     [("WriteEmbeddedMessage", "src/common/protobuf.cpp"), ("ComputeEmbeddedMessageSerializationSize", "src/common/protobuf.cpp"), ("EmbeddedMetricsMessage::MakeFragment", "src/recorder/serialization/embedded_metrics_message.cpp")])

prop("C13", "Fast varint encoding equals the canonical varint of every 64-bit value",
     "For every 64-bit value, the fast encoding writes exactly the canonical protobuf varint bytes of that value, writes nothing beyond them, and advances by their count, so that a standard decoder reads the value back.",
     ["inputs"], "all 2^64 values",
     "The test samples powers of two; a wrong branch threshold or iteration count affects only some value range.",
     ["src/common/direct_coded_output_stream.h"],
     [("DirectCodedOutputStream::WriteBigVarint64", "src/common/direct_coded_output_stream.h")])

prop("C14", "The flat map is a map: sorted, unique keys, last write wins",
     "After any sequence of insert-or-assign operations, the flat map holds exactly one entry per key ever inserted, carrying the value last assigned to it, in key order. Lookup finds a key's entry exactly when it was inserted and reports absence otherwise, and an insertion returns the entry of its key and leaves all other entries as they were.",
     ["histories", "inputs"], "all insertion sequences, all keys and sizes",
     "Tests insert a couple of keys; ordering and duplicate errors depend on where a key falls among the others.",
     ["src/common/flat_map.h"],
     [("FlatMap::insert_or_assign", "src/common/flat_map.h"), ("FlatMap::find", "src/common/flat_map.h")])

prop("C15", "Random ids come from a full xorshift128+ state, per thread, reseeded after fork",
     "The id generator's step is a bijection on its 128-bit state that never reaches the all-zero state from a non-zero one and produces the xorshift128+ output; seeding fills the whole state. Each thread seeds its own generator before its first id, a forked child reseeds, and random durations always lie within their inclusive bounds.",
     ["inputs", "histories"], "all 2^128 states, all seeds, all bounds a <= b",
     "Tests draw a few numbers; a non-bijective step or partially seeded state only shows as an elevated collision rate.",
     ["src/common/fast_random_number_generator.h", "src/common/random.cpp", "src/common/random.h"],
     [("FastRandomNumberGenerator::operator()", "src/common/fast_random_number_generator.h"), ("GetRandomNumberGenerator", "src/common/random.cpp"), ("GenerateRandomDuration", "src/common/random.cpp")])

prop("C16", "Random traversal visits every index exactly once",
     "For every n and every sequence of random choices, a random traversal visits each index from 0 to n-1 exactly once unless the visitor stops it, in which case it stops immediately and reports that; this holds again for every repeated traversal on the same object.",
     ["inputs", "histories"], "all n, all outcomes of the random choices, all visitor decisions, any number of repeated traversals",
     "The test checks n up to a few under one random stream; an index out of range or a duplicate may need a particular draw.",
     ["src/common/random_traverser.cpp"],
     [("RandomTraverser::ForEachIndex", "src/common/random_traverser.cpp"), ("RandomTraverser::RandomTraverser", "src/common/random_traverser.cpp")])

prop("C17", "IP addresses keep their family, address and port faithfully",
     "An address built from any textual, in-memory or (zero-padded) socket-level IPv4 or IPv6 address has that family and address, port zero or the given port in network byte order, and all remaining bytes zero; setting the port changes the port only. Two addresses compare equal exactly when they were built from equal family, address and port, and text that is no address is refused with an error.",
     ["inputs"], "all IPv4 and IPv6 addresses, all ports, all pairs compared",
     "Tests build a handful of addresses and compare a few pairs.",
     ["src/network/ip_address.cpp", "src/network/ip_address.h"],
     [("IpAddress constructors", "src/network/ip_address.cpp"), ("IpAddress::set_port", "src/network/ip_address.cpp"), ("operator==", "src/network/ip_address.cpp")])

prop("C18", "Sockets close their descriptor exactly once and connect without leaks",
     "Every descriptor a socket object owns is closed exactly once, by its last owner, across any sequence of constructions, moves, move-assignments and destructions, and never by a moved-from object. Connecting yields a socket set non-blocking and address-reusable whose connect call used the address's own structure and length; whenever a step fails the error is raised and the descriptor is closed, while an in-progress or would-block connect counts as success.",
     ["histories", "fault_sequences"], "all sequences of moves and destructions, all results of each system call",
     "Tests move once and connect once; error paths of individual system calls are not reached.",
     ["src/network/socket.cpp", "src/network/socket.h", "src/common/platform/network_unix.cpp", "src/common/platform/error_unix.cpp"],
     [("Socket move/destructor/Free", "src/network/socket.cpp"), ("Connect", "src/network/socket.cpp")])

prop("C19", "Endpoint separation preserves every endpoint and merges equal hosts",
     "Separating a list of endpoints yields hosts that are pairwise different ignoring case, and one indexed endpoint per input in input order, whose port is the input's port and whose index designates a host equal, ignoring case, to the input's host.",
     ["inputs"], "all endpoint lists: any length, any duplication and letter case",
     "The test uses three endpoints; index errors depend on how sorting and duplicate removal interact.",
     ["src/recorder/stream_recorder/utility.cpp", "src/common/platform/string_unix.cpp"],
     [("SeparateEndpoints", "src/recorder/stream_recorder/utility.cpp")])

prop("C20", "Steady and system timestamps convert by the delta and back without loss",
     "Converting a steady timestamp to a system timestamp adds exactly the given delta in nanoseconds, converting back subtracts it, and the two are inverse for all timestamps and deltas; the computed delta is the difference between the system clock and the steady clock.",
     ["inputs"], "all timestamps and deltas whose sum is representable",
     "The test converts the current time only; unit or sign errors that cancel in a round trip go unnoticed.",
     ["src/common/timestamp.cpp"],
     [("ToSystemTimestamp", "src/common/timestamp.cpp"), ("ToSteadyTimestamp", "src/common/timestamp.cpp"), ("ComputeSystemSteadyTimestampDelta", "src/common/timestamp.cpp")])

prop("C21", "The spin lock admits one holder at a time and orders their accesses",
     "At every moment at most one thread is between a completed lock and its unlock; a lock attempt completes only by atomically turning a free lock into a held one, unlocking frees it, and everything written before an unlock is visible after the next lock.",
     ["schedules"], "all interleavings of any number of threads' lock and unlock steps",
     "The test runs a few threads once on strongly ordered hardware.",
     ["src/common/spin_lock_mutex.h"],
     [("SpinLockMutex::lock", "src/common/spin_lock_mutex.h"), ("SpinLockMutex::unlock", "src/common/spin_lock_mutex.h")])

prop("C22", "A function reference calls its target with the same arguments and result",
     "Calling a function reference calls exactly the callable it was made from, on that same object, once, with the arguments given, and returns its result, for function objects and function pointers alike; a reference made from nothing tests false and every other tests true.",
     ["inputs"], "all callables' addresses, all argument and result values",
     "Tests call one lambda and one function.",
     ["src/common/function_ref.h"],
     [("FunctionRef::BindTo", "src/common/function_ref.h"), ("FunctionRef::operator()", "src/common/function_ref.h")])

prop("C23", "Base64 coding round-trips and rejects malformed text",
     "Encoding any byte string yields its standard base64 text, and decoding that text yields the bytes back; decoding text containing any character outside the base64 alphabet is refused and never reads or writes outside its buffers.",
     ["inputs"], "all byte strings and all texts of any length",
     "No offline test exercises the codec.",
     ["3rd_party/base64/src/base64/base64.cpp"],
     [("Base64::encode", "3rd_party/base64"), ("Base64::decode", "3rd_party/base64")])

prop("C24", "Identifiers convert to and from hexadecimal without loss",
     "Every 64-bit identifier renders as its 16 lower-case hexadecimal digits and parses back to itself, in each of the fixed-width forms; a text is accepted exactly when, blanks around it apart, it is a non-empty hexadecimal number that fits, and any other text, including any non-ASCII byte, is refused without reading out of bounds.",
     ["inputs"], "all 2^64 values and all byte strings of any length",
     "The hexadecimal tests are not part of the offline suite and sample single texts.",
     ["src/common/hex_conversion.cpp", "src/common/hex_conversion.h"],
     [("HexToUint64", "src/common/hex_conversion.cpp"), ("Uint64ToHex", "src/common/hex_conversion.cpp")])

prop("C25", "W3C trace-context headers parse exactly when well formed and round-trip",
     "Serializing a trace context yields the 55-character version-00 header of its version, trace id, parent id and flags, and parsing that text yields the same context. Parsing accepts a text exactly when it begins with 55 characters of that layout with hexadecimal fields, and never reads beyond the text it was given.",
     ["inputs"], "all trace ids, parent ids and flags; all texts of any length",
     "The propagation tests are not part of the offline suite.",
     ["src/tracer/propagation/trace_context.cpp", "src/common/hex_conversion.cpp"],
     [("ParseTraceContext", "src/tracer/propagation/trace_context.cpp"), ("SerializeTraceContext", "src/tracer/propagation/trace_context.cpp")])

prop("C26", "HTTP chunk headers announce exactly the size that follows",
     "For every chunk size the written chunk header is the hexadecimal size followed by the line break, padded to its fixed width with leading zeros, so that a chunked-transfer reader obtains exactly that size; a report-request prefix likewise frames its length as an embedded message.",
     ["inputs"], "all chunk sizes",
     "The framing tests are not part of the offline suite and sample single sizes.",
     ["src/common/chunked_http_framing.cpp", "src/common/report_request_framing.cpp"],
     [("WriteHttpChunkHeader", "src/common/chunked_http_framing.cpp"), ("WriteReportRequestFraming", "src/common/report_request_framing.cpp")])

prop("C27", "The connection stream completes every span it starts or counts it dropped",
     "Over the life of a connection the bytes handed to the socket form one request: its header, then whole chunks, then its terminator; a span begun on the connection is always finished on that connection before another one starts, or counted dropped when the connection is reset; shutting down sends the terminator once and nothing after it.",
     ["histories", "fault_sequences"], "all sequences of flushes with short writes anywhere, resets and shutdowns",
     "Not part of the offline suite; sample schedules cannot enumerate the points at which a write is cut short.",
     ["src/recorder/stream_recorder/connection_stream.cpp"],
     [("ConnectionStream::Flush", "src/recorder/stream_recorder/connection_stream.cpp")])

prop("C28", "The response status line is recognised however the bytes arrive",
     "For every way of splitting a response into pieces, the parser reports completion exactly when the first line is complete and then yields that line's status code and reason; malformed lines raise an error and reset makes it as new.",
     ["inputs", "histories"], "all byte strings and all splittings of them",
     "Not part of the offline suite; tests split at single points.",
     ["src/recorder/stream_recorder/status_line_parser.cpp"],
     [("StatusLineParser::Parse", "src/recorder/stream_recorder/status_line_parser.cpp")])

prop("C29", "Extracted span contexts carry the ids, flags and baggage that were injected",
     "For every supported propagation format, and every list of formats, extracting from a carrier into which a span context was injected with the same formats finds a context, with the same span id, trace id, sampling decision and baggage. The b3, trace_context and cloud_trace formats carry 128-bit trace ids; the lightstep and envoy headers and the binary carrier carry the low 64 bits. trace_context also returns the trace state and all flag bits. Names of HTTP headers match regardless of case. Where several formats can be extracted, the first one in the list that finds a context decides. A carrier holding no context yields none (and no error); one that holds only half of a multi-header context, or ids that do not parse, is refused with an error; errors of the carrier's writer and reader are returned. (Baggage keys are non-empty and lower case; envoy and binary carriers need UTF-8 baggage.)",
     ["inputs", "configurations"], "all span contexts, all formats and combinations of formats",
     "The propagation tests are not part of the offline suite and sample single contexts.",
     ["src/tracer/propagation/"],
     [("PropagationOptions / Propagator", "src/tracer/propagation")])

prop("C30", "Every finished span is reported once or counted as dropped",
     "Every span given to a recorder is, at every later moment, in exactly one place: waiting in the recorder's buffer, inside exactly one report handed to the transport, or counted as dropped exactly once (a full buffer, a stopped or disabled recorder, and a failed report are the ways to be dropped). Every drop is announced by exactly one report that did not fail, and is carried over to the next report as long as reports fail or nothing is sent. A recorder with a caller-supplied transport and the protobuf-object buffer has at most one report in flight, reports it to the transport once, and whatever the transport answers, throwing included, it can report again afterwards. A span is completely framed before another thread can see it, and room for the largest framing is reserved before it. (Spans still waiting when a recorder is destroyed or stopped are neither sent nor counted; that is outside this property, as is an AutoRecorder transport that throws.)",
     ["schedules", "histories", "fault_sequences"], "all interleavings of application threads with the reporting thread, all transport results",
     "Recorder tests are not part of the offline suite; whole-system conservation ranges over all histories.",
     ["src/recorder/auto_recorder.cpp", "src/recorder/legacy_manual_recorder.cpp", "src/recorder/report_builder.cpp", "src/recorder/manual_recorder.cpp", "src/recorder/stream_recorder/stream_recorder.cpp"],
     [("AutoRecorder::FlushOne", "src/recorder/auto_recorder.cpp"), ("LegacyManualRecorder::FlushOne", "src/recorder/legacy_manual_recorder.cpp"), ("ManualRecorder::FlushWithTimeout", "src/recorder/manual_recorder.cpp"), ("StreamRecorder::RecordSpan", "src/recorder/stream_recorder/stream_recorder.cpp")])

prop("C31", "A recorded span decodes to exactly what was set on it",
     "For every span the bytes written for its fields decode, with a standard protobuf decoder and the collector's schema, to exactly what was set: the 64-bit trace and span ids, every baggage item, the operation name, each reference with its kind and ids, the start time in seconds and nanoseconds, the duration in microseconds, every tag and every log with its time and all of its fields in order. Booleans, integers, doubles, texts, null and containers (as JSON) keep their kind and their value; each declared length is exactly the number of bytes that follow, whether they are written through the stream or directly into its buffer, and no byte is written outside the space reserved for it. Texts are valid UTF-8, times lie after 1970 and each field is shorter than 2^31 bytes.",
     ["inputs"], "all ids, times, texts, values and all numbers of baggage items and log fields",
     "The span serialization tests need the OpenTracing library and are not part of the offline suite; they sample single values, while lengths go wrong only at particular sizes and combinations.",
     ["src/tracer/serialization.cpp", "src/common/serialization.cpp", "src/common/serialization.h"],
     [("WriteSpanContext / WriteTag / WriteLog / WriteSpanReference / WriteDuration", "src/tracer/serialization.cpp"), ("WriteKeyValueImpl", "src/common/serialization.cpp")])

prop("C32", "Attribute values keep their kind and value; containers become exact JSON",
     "Whatever value is attached under a key - by a tag, a log field or the tracer's own tags - is stored under that key as the kind it is: booleans, doubles, signed integers, texts and null (as false) unchanged, unsigned integers by their 64 bits. A list or dictionary is stored as one well-formed JSON text that denotes exactly the container, at any nesting: elements in order, every entry once, true/false/null, integers in decimal, doubles to six significant digits with NaN and the infinities as the strings \"NaN\", \"+Inf\" and \"-Inf\", texts byte for byte with quotation marks, backslashes and all control characters (NUL included) escaped. What is written for one part does not depend on the parts before it, nor on the application's global locale.",
     ["inputs"], "all values, all texts (any bytes), any nesting and number of elements",
     "A test converts a few fixed values; formatting state left behind by one element shows only in combination with a later one, and the locale is never set.",
     ["src/common/utility.cpp"],
     [("WriteEscapedString / JsonValueVisitor / ToJson", "src/common/utility.cpp"), ("ToKeyValue / ValueVisitor", "src/common/utility.cpp")])

prop("C33", "A span is recorded exactly once, if sampled, with all that was set on it",
     "However a span is used and by however many threads: it is recorded exactly once if it is sampled when it finishes, and never if it is not; the first finish, explicit or by destruction, decides. What is recorded is everything set before that finish - operation names, tags, log records in order with their times (those of the finish options included), the baggage items at that moment, the duration since the start, and the span's ids - and nothing set afterwards. BaggageItem returns what was last set for the item (keys are case-insensitive), ForeachBaggageItem visits each item until told to stop, a sampling priority tag overrides the sampling decision, and Inject sends the span's own trace id, span id, flags, trace state and baggage. A span that was handed to the recorder is not touched any more by its span object. A step that fails is logged, leaves the span usable, and never escapes.",
     ["inputs", "schedules", "histories"], "all calls in all orders, all interleavings of concurrent calls, any failing step",
     "Span tests need the OpenTracing library and are not part of the offline suite; exactly-once under races and failing steps ranges over all histories.",
     ["src/tracer/span.cpp", "src/tracer/span.h", "src/tracer/legacy/legacy_span.cpp", "src/tracer/legacy/legacy_span.h"],
     [("Span::FinishImpl / SetTag / SetBaggageItem / Log / InjectImpl", "src/tracer/span.cpp"), ("LegacySpan::FinishWithOptions", "src/tracer/legacy/legacy_span.cpp")])

prop("C34", "A span starts with the references, tags, times, ids and sampling asked for",
     "A new span carries the operation name, each tag in order with its key and value, and one reference for each usable one given, in order, with its kind (child-of or follows-from) and the referenced trace and span ids; null references and contexts of another tracer are skipped. It belongs to the trace of the first usable reference, with all 128 bits of its id, or to a new trace if there is none, and its span id is freshly generated. It takes over the baggage and the trace state of every usable reference. It is sampled if any reference is sampled or if there is none, unless a sampling priority tag overrides that (the last one wins); other trace flags are inherited. Its start time is the system time given; else the steady time given, converted; else now; its duration is measured from the steady time given, else from the system time converted, else now. A step that fails throws and is not hidden.",
     ["inputs", "fault_sequences"], "all numbers and kinds of references and tags, all times, any failing step",
     "Span tests need the OpenTracing library and are not part of the offline suite; combinations of several references with different flags, order and validity are unbounded.",
     ["src/tracer/span.cpp", "src/tracer/legacy/legacy_span.cpp", "src/tracer/utility.h"],
     [("Span::Span / SetSpanReference", "src/tracer/span.cpp"), ("LegacySpan::LegacySpan / SetSpanReference", "src/tracer/legacy/legacy_span.cpp"), ("ComputeStartTimestamps", "src/tracer/utility.h")])

prop("C35", "Tracers inject what a context holds and return what a carrier holds",
     "Injecting a context sends exactly what it holds - its 128-bit trace id, span id, flags, trace state and baggage - by the tracer's own formats, to the carrier given, once, and any failure of the carrier is returned; a context of another tracer is an error and nothing is written. Extracting returns a context that holds exactly what was read, no context if the carrier has none, and the error of the carrier or of its contents otherwise; running out of memory is an error too, and nothing leaks. A binary carrier carries the lower trace id, the span id, whether sampled and the baggage. A context keeps what it was made of, whichever way it was made: ids, flags, trace state, each baggage item visited once until told to stop, sampled from the lowest flag. Two contexts are equal exactly if ids, flags, trace state and baggage are equal. Ids of a context and contexts made from ids by the extended interface agree with that. A span that cannot be started is null, never an exception. Flush and FlushWithTimeout flush within ten seconds or the time given and return the outcome; Close flushes within ten seconds and, only if that succeeded, shuts the recorder down within what is left of them.",
     ["inputs", "fault_sequences"], "all contexts, carriers, times and failures",
     "The tracer tests need the OpenTracing library and are not part of the offline suite; failing carriers and allocations are not simulated anywhere.",
     ["src/tracer/tracer_impl.cpp", "src/tracer/legacy/legacy_tracer_impl.cpp", "src/tracer/immutable_span_context.cpp", "src/tracer/lightstep_span_context.cpp", "src/tracer/tracer.cpp"],
     [("TracerImpl::Inject / Extract / Flush / Close", "src/tracer/tracer_impl.cpp"), ("ImmutableSpanContext", "src/tracer/immutable_span_context.cpp"), ("operator==(LightStepSpanContext)", "src/tracer/lightstep_span_context.cpp"), ("LightStepTracer::MakeSpanContext", "src/tracer/tracer.cpp")])

prop("C36", "Satellite connections recover from every failure and shut down when asked",
     "Whatever a satellite connection runs into - no endpoint that can be reached, sockets, timers or writes that fail, a satellite that is slow, closes early, answers with an error or never answers - it closes what it had, exactly once, and starts afresh: at once, or after the configured retry period, with nothing of the old stream left over and the host it connects to named in what it sends. It has at most one socket, and data is read and written only there. While connected it reads, and waits to become writable within the write timeout exactly while data is held back; within the configured period it reconnects, after ending the stream gracefully within the time allowed. It is always either connected and watched, about to retry, or done; the only exception is an event loop that refuses the retry. When told to shut down it ends its stream if it can, within the graceful shutdown time at most; from then on it opens no further connection that outlives this, and once done it does nothing any more. A streamer starts and shuts down every connection once, is active while any connection is, and flushes ready connections one after another until everything is sent.",
     ["histories", "fault_sequences", "schedules"], "all orders of events, all failing steps, all configured times, any number of connections",
     "The unit tests run one connection against a local server that behaves; they need the event loop and sample a few seconds of a few histories. Failures during a shutdown, a flush that fails while reconnecting and the like never occur there.",
     ["src/recorder/stream_recorder/satellite_connection.cpp", "src/recorder/stream_recorder/satellite_streamer.cpp", "src/network/event.cpp", "src/network/event_base.cpp", "src/network/socket.cpp"],
     [("SatelliteConnection", "src/recorder/stream_recorder/satellite_connection.cpp"), ("SatelliteStreamer", "src/recorder/stream_recorder/satellite_streamer.cpp"), ("Event", "src/network/event.cpp")])

prop("C37", "Satellite addresses are found, kept fresh and used in turn",
     "When the recorder starts, each configured host is resolved once for IPv4 and once for IPv6, with the resolver options configured; without any endpoint configured there is no such recorder but an error. Each answer is followed by exactly one further query for the same name and family: after the failure retry period if it was an error, was empty or could not be taken over, within the refresh window otherwise; so resolving never stops and never multiplies (except that the event loop refuses a timer). A good answer replaces the addresses by all of its own; any other leaves them as they were. The streamer is told that addresses are there exactly once, at the first good answer of any host. A requested endpoint is, within one round, the next one in configured order whose host has addresses; it is given with an IPv4 address of that host if it has any, an IPv6 one otherwise, the host's addresses taken in turn, with the endpoint's own port and the host's name.",
     ["histories", "fault_sequences"], "all endpoints, hosts, answers, failures and orders of requests",
     "The unit tests resolve two or three names with an answer that is always good; failed refreshes, changed answers and hosts without addresses do not occur, and the refresh period is hours.",
     ["src/recorder/stream_recorder/satellite_dns_resolution_manager.cpp", "src/recorder/stream_recorder/satellite_endpoint_manager.cpp", "src/network/event_base.cpp"],
     [("SatelliteDnsResolutionManager", "src/recorder/stream_recorder/satellite_dns_resolution_manager.cpp"), ("SatelliteEndpointManager", "src/recorder/stream_recorder/satellite_endpoint_manager.cpp")])

prop("C38", "Flush and shutdown of the stream recorder tell the truth and wake all callers",
     "A flush with a timeout is true only if every span recorded before it has left the buffer, false only if some has not and either the timeout has passed or the recorder is ending; a shutdown with a timeout is true exactly if no connection is active any more. Neither waits longer than the timeout. What is asked for, by any number of threads, is never lost: it reaches the recording thread at its next poll, also when it comes while that thread takes another request. The recording thread makes known all that was consumed, and once that connections became inactive, and wakes every waiting caller after it has. It flushes when asked to, when the buffer fills past its mark, each reporting period and before it ends; the timers keep their periods. The thread runs only while everything it uses exists: it starts when all is made, is waited for before anything is torn down, and the destructor wakes those waiting. Across a fork the parent loses nothing and the child keeps nothing of its parent's; a shutdown asked for before is begun again.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of callers, producers, the recording thread and forks between uses",
     "The unit tests flush and shut down from one thread against a mock satellite; a second waiter, a request during a poll, a failure to start and a shutdown before a fork do not occur.",
     ["src/recorder/stream_recorder/stream_recorder.cpp", "src/recorder/stream_recorder/stream_recorder_impl.cpp", "src/network/timer_event.cpp", "src/recorder/fork_aware_recorder.cpp"],
     [("StreamRecorder::FlushWithTimeout", "src/recorder/stream_recorder/stream_recorder.cpp"), ("StreamRecorder::Poll", "src/recorder/stream_recorder/stream_recorder.cpp"), ("StreamRecorderImpl", "src/recorder/stream_recorder/stream_recorder_impl.cpp")])

prop("C39", "The automatic recorder reports in time and its flush tells the truth",
     "Reports are numbered; with at most one in flight, a flush with a timeout is true exactly if every report that holds spans recorded before it has been dealt with, also those recorded while another report was on its way; it is false only if some has not and either the timeout has passed or the recorder has ended, and it never waits longer. The reporting thread waits, with the limit configured at that time, until the next report is due, or as many spans are pending as the limit allows (whoever adds the last of them wakes it), or the recorder is told to exit: not less, not more. The first report is due one period after the start, each further one within a period of the end of the one before and never before that end; reports that take no longer than a period keep their rhythm. A failure of the thread tells those waiting that it ended. The thread starts when everything it uses is made, is told to exit and waited for before anything it uses goes, and once told to exit a recorder stays so.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of recording and flushing threads with the reporting thread",
     "The unit tests drive the reporting thread with a fake clock through a few steps; a flush beside a report in flight, a slow report and the end of the recorder under waiting callers do not occur.",
     ["src/recorder/auto_recorder.cpp", "src/common/condition_variable_wrapper.h"],
     [("AutoRecorder::FlushWithTimeout", "src/recorder/auto_recorder.cpp"), ("AutoRecorder::Write", "src/recorder/auto_recorder.cpp"), ("AutoRecorder::WaitForNextWrite", "src/recorder/auto_recorder.cpp")])
prop("C40", "Name resolution: every query is answered as the name servers said, or times out",
     "A name and family are asked for exactly as given, with the name servers, port and timeout configured, and the callback given is called exactly once: with all addresses of the answer, in its order, each with its family, until it says stop, and no message; without any address for a family not known or an answer without addresses; with the message of what went wrong, and no address, if the query failed. The timer always runs for as long as the resolver library asks, so a query nobody answers is repeated and then fails; it rests when nothing is asked. Each socket of the library is watched by exactly one event, for reading and writing as the library asked last, as long as it wants it; whenever one is ready the library is told, and for exactly what it is ready. Whether its construction fails or it is destroyed with queries pending, channel, sockets, timer and library handle are given back, once, in an order in which none is used after it is gone. Without the library, names that are addresses of the family asked for resolve to themselves, all others to nothing.",
     ["inputs", "histories", "fault_sequences"], "all names, families, answers, orders of events and failures",
     "The unit tests resolve one name with a server that answers at once (and are not built without network); lost, late or stray datagrams, answers over tcp and failures do not occur.",
     ["src/network/ares_dns_resolver/ares_dns_resolver.cpp", "src/network/ares_dns_resolver/ares_library_handle.cpp", "src/network/no_dns_resolver.cpp", "src/network/event.cpp", "src/network/timer_event.cpp"],
     [("AresDnsResolver", "src/network/ares_dns_resolver/ares_dns_resolver.cpp"), ("OnDnsResolution", "src/network/ares_dns_resolver/ares_dns_resolver.cpp"), ("IpOnlyDnsResolver", "src/network/no_dns_resolver.cpp")])

prop("C41", "A tracer uses exactly the formats it is configured with, in their order",
     "For every list of formats in the options, of any length and with any repetitions, a tracer injects in exactly the formats listed, each once, in the order in which they are first listed, and extracts with exactly those, in that order, trying LightStep's own format directly after Envoy's (unless it comes before anyway). Baggage is written in headers of its own, once, unless Envoy's format, which carries it, is the only one. Without a list the format is Envoy's if use_single_key_propagation is set and LightStep's otherwise. What the vectors for the result held before does not matter, and every propagator made is kept.",
     ["inputs"], "all lists of formats",
     "The unit tests look at six lists of one to four formats, and at what they stand for in the order given, not at the propagators made.",
     ["src/tracer/propagation/propagation_options.cpp"],
     [("MakePropagationOptions", "src/tracer/propagation/propagation_options.cpp"), ("SetInjectExtractPropagationModes", "src/tracer/propagation/propagation_options.cpp")])

prop("C42", "Making a tracer gives the tracer asked for, or none, and loses nothing",
     "For every combination of options and transporter: a threaded tracer reports through the stream recorder if that is asked for (without TLS and without a transporter of the user), otherwise through the automatic recorder with the SyncTransporter given or, if none is, with gRPC; a tracer without a thread needs a transporter, and gets the manual recorder that suits it. Every other combination gives no tracer, and never an exception. Recorder and propagation formats are made from the options given, before they are moved away, and completed by the default tags, each with its value, and by the component name: the one given, or else that of the program. The logger writes where it is told to, as verbosely as asked for, and lives as long as recorder and tracer do. The transporter is owned by the recorder alone once there is a tracer; whatever fails before (any allocation, any constructor), it is destroyed at most once, is otherwise still the options', and neither logger, recorder nor gRPC transporter is left behind.",
     ["inputs", "fault_sequences"], "all combinations of options and transporters, and every point of failure",
     "The unit tests make a handful of tracers; combinations that contradict each other and constructors that throw do not occur.",
     ["src/tracer/tracer.cpp", "include/lightstep/tracer.h"],
     [("MakeLightStepTracer", "src/tracer/tracer.cpp"), ("MakeThreadedTracer", "src/tracer/tracer.cpp"), ("MakeSingleThreadedTracer", "src/tracer/tracer.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
