#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), technique="", note="", claim=True, na=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=list(observe), state=list(state), technique=technique, note=note, claim=claim, na=na))

EXPL = "Random search with an explicit oracle: no counterexample among the generated cases, not a proof. "

# ---------------------------------------------------------------- enc
p("E01", "JSON decoding and encoding are exact",
  "Decoding any JSON document and encoding the result gives an equivalent document: same nesting, keys, strings and list order, and every number digit for digit whatever its size or precision. Encoding any data tree with finite numbers gives exactly one valid JSON value, indented or not, in which ordered objects keep the order of their entries. Input that is not exactly one JSON value is refused with an error (empty input decodes to nothing), and no input makes decoding panic.",
  ["inputs"], "every byte string as decoder input, every JSON document, every tree of data nodes (nested lists, maps, ordered pairs, strings, numbers, times, durations, nil)",
  "Existing tests decode and encode about a dozen literals; the claim ranges over all documents, number spellings, escapes and nestings.",
  ["enc/json.go", "enc/enc.go", "enc/numeric.go", "enc/map.go", "enc/list.go", "enc/pairs.go", "enc/nil.go", "enc/scalar.go"],
  [("JSON codec (UseNumber, native conversion)", "enc/json.go"), ("per-node MarshalJSON", "enc/*.go")],
  ["enc.JSON.Decode", "enc.JSON.Encode"],
  technique="property-based testing (rapid): document grammar + byte mutation, token-level differential against encoding/json",
  note=EXPL + "Oracle: an independent token-stream reading of the text by encoding/json (trusted).")
p("E02", "Marshalled values come back equal",
  "A Go value converted to the intermediate data tree and back into a fresh value of the same type, either directly or through the encoded JSON text, is equal to the original. This holds for structs with renamed and optional fields, pointers, slices, arrays, maps with string or integer keys, named types, all integer sizes, finite floats, byte slices, times, durations, raw data trees and types with their own conversion, at any nesting; fields excluded from the encoding come back as zero. A value with no representation is refused with an error, not a panic.",
  ["inputs", "programs"], "every value of every Go type built from the supported kinds (types are generated too)",
  "Existing tests round-trip one hand-written struct; field combinations, nesting, extreme numbers and nil-ness are unbounded.",
  ["enc/handler.go", "enc/map.go", "enc/list.go", "enc/pairs.go", "enc/numeric.go", "enc/scalar.go", "enc/time.go", "enc/util.go"],
  [("Marshal / Unmarshal reflection walkers", "enc/handler.go"), ("struct tags", "enc/util.go")],
  ["enc.Marshal", "enc.Unmarshal", "enc.MarshalJSON", "enc.UnmarshalJSON"],
  technique="property-based testing (rapid): generated struct types (reflect.StructOf) and values, round-trip oracle",
  note=EXPL + "Equality is structural; nil and empty slices/maps are compared as the encoding distinguishes them.")
p("E03", "Agrees with the standard JSON library",
  "For types whose tags both libraries understand, the JSON produced denotes the same document, with struct fields in declaration order, as the standard library produces; and any JSON document the standard library accepts into a type without folding key case is accepted with the same resulting value, including documents with missing, extra or null fields. A value the standard library refuses for its JSON type or because it does not fit is refused here too, apart from fractions and exponents, which are truncated into integers, numbers into strings, and numbers beyond the float range, which raw destinations keep; an array takes only a list of its own length.",
  ["inputs", "programs"], "every type in the common subset, every value of it, every JSON document offered to it",
  "The existing tests compare a handful of literals; the equivalence is over all types, values and documents.",
  ["enc/handler.go", "enc/map.go", "enc/list.go", "enc/numeric.go", "enc/util.go", "enc/json.go"],
  [("Marshal / Unmarshal", "enc/handler.go"), ("tag parsing", "enc/util.go")],
  ["enc.MarshalJSON", "enc.UnmarshalJSON"],
  technique="differential property-based testing (rapid) against encoding/json over generated types, values and documents",
  note=EXPL + "Documented differences (time zones, durations as text, fractions into integers, embedded structs, case folding) are excluded by construction.")
p("E04", "Numbers are never silently changed",
  "Converting a number into a Go numeric type yields the exact value (for a fraction into an integer, its truncation toward zero; for floats, the nearest representable value), or an error when the value does not fit: it never wraps, saturates or changes sign. Numeric map keys obey the same rule, and converting an in-range Go number into the data tree keeps its exact value for every integer and float type. A number of units of time which fits a duration gives that duration (to the precision of a float, for a fraction).",
  ["inputs"], "all numeric spellings (decimal, fraction, exponent, huge) x all target integer and float kinds, from decoded digits and from already typed integers and floats",
  "Tests check a few mid-range numbers; boundaries of ten kinds x spellings are not sampled.",
  ["enc/numeric.go", "enc/handler.go", "enc/map.go"],
  [("numeric coercion", "enc/numeric.go")],
  ["enc.Unmarshal", "enc.Marshal", "Int64/Uint64/Float64 accessors"],
  technique="property-based testing (rapid) with arbitrary-precision oracle (math/big)",
  note=EXPL + "Oracle is math/big; targets are all integer and float kinds plus named variants.")
p("E05", "Unmarshalling is safe, selective and accounts for every field",
  "Unmarshalling any data tree into any supported destination returns either success or an error and never panics. Fields that are excluded from the encoding or unexported are never set from the data, fields absent from the data keep their previous value, and a null resets its destination to zero. A map, list or pointer destination is replaced, what it referred to before is never written to. When the caller asks to be told about unknown fields, exactly the object entries with no destination are reported, once each, with their full path and data, and the reported paths stay valid after the call; an error returned by the caller's hook aborts the operation.",
  ["inputs", "programs"], "every data tree x every destination type, including mismatched ones, nested structs, slices, maps and pointers",
  "The tests unmarshal matching data; mismatches, hostile keys and unknown fields at depth form an unbounded space.",
  ["enc/handler.go", "enc/map.go", "enc/list.go", "enc/scalar.go", "enc/nil.go", "enc/util.go"],
  [("struct walker and unknown-field callback", "enc/map.go"), ("path tracking", "enc/handler.go")],
  ["enc.Unmarshal", "enc.Handler.UnhandledFields"],
  technique="property-based testing (rapid): mismatched data/type pairs, panic oracle + reference model of unknown-field paths",
  note=EXPL + "Unknown-field oracle is an independent walk of the data against the generated type.")
p("E06", "Concurrent conversions do not disturb each other",
  "Any number of goroutines may marshal, unmarshal, encode and decode at the same time, on shared read-only inputs or on separate ones, with any mix of types: every call gives the result it would give alone, and none corrupts memory, races or crashes the process.",
  ["schedules", "inputs"], "all interleavings of concurrent conversions over all supported types",
  "The tests are single threaded.",
  ["enc/handler.go", "enc/map.go", "enc/json.go"],
  [("no shared mutable state during conversion", "enc/handler.go")],
  ["enc.Marshal", "enc.Unmarshal under the race detector"],
  technique="generated concurrent workloads (rapid) under the Go race detector, sequential-result oracle",
  note=EXPL + "Interleavings are whatever the scheduler gives; the race detector reports unsynchronised access even when the result is right.")
p("E07", "Times and durations survive their text form",
  "Every duration and every time with a representable zone offset written as text by the library parses back to the same duration, or the same instant with the same offset, through every route: parsing the text, the JSON text, and a data tree coerced into the library's, the standard library's or a user-named time or duration type. The zero duration is the empty text. Text that is not a valid time or duration is refused with an error and leaves no partial value.",
  ["inputs"], "all durations; all instants with nanoseconds and zone offsets; arbitrary text",
  "Tests use one time and a few durations.",
  ["enc/time.go", "enc/scalar.go", "enc/handler.go"],
  [("Time and Duration nodes", "enc/time.go")],
  ["Parse, String, MarshalJSON, UnmarshalJSON, Unmarshal of time nodes"],
  technique="property-based testing (rapid): round trip + differential against package time",
  note=EXPL + "Years 0..9999 and whole-minute offsets, as RFC 3339 can represent.")
p("E08", "In-memory pipe delivers in order and closes cleanly",
  "A pipe delivers every value written on one end to the other end, exactly once and in order, in both directions, and a cancelled context makes a blocked read or write return that context's error without losing a delivered value. After one end closes, the other reads everything already written and then end-of-file; writing on a closed end reports a closed pipe and closing twice is harmless, whatever the interleaving.",
  ["histories", "schedules"], "all sequences and interleavings of reads, writes, closes and cancellations, for any buffer size",
  "No test exercises close or cancellation races.",
  ["enc/util.go"],
  [("channel pair", "enc/util.go")],
  ["Pipe.Read", "Pipe.Write", "Pipe.Close"],
  technique="model-based stateful testing (rapid) + concurrent producer/consumer histories under the race detector",
  note=EXPL + "Per-direction FIFO model; writes are issued only when the model says whether they can proceed, or with a cancelled context.")

# ---------------------------------------------------------------- api
p("A01", "Requests and responses carry only the fields declared for them",
  "When an operation receives a request, only its fields declared as input (or both) take request data, whatever keys the request contains: an input absent from the request and a field declared only as output start at zero, a field with no direction (exported or not) keeps what the registered template holds, and one request never sees values from another. The response contains exactly the fields declared as output (or both), under their declared names, with the values the operation left in them.",
  ["inputs", "programs", "histories"], "every operation type (generated field sets, directions, kinds), every template, every request document, sequences of requests on one handler",
  "The tests bind one or two hand-written operations; keys smuggled for output-only fields, template sharing and field mixes are not covered.",
  ["api/handler.go", "api/tag.go", "api/json.go", "api/data.go"],
  [("field binding by direction tag", "api/handler.go")],
  ["api handler server Recv/Send", "api.JSON"],
  technique="property-based testing (rapid): generated operation types and request documents, reference binding model",
  note=EXPL + "Types come from reflect.StructOf and a zoo of declared structs.")
p("A02", "Required input and authentication are enforced",
  "A request is accepted only if every required input field is present with a non-zero value and, when the operation requires authentication, the caller is authenticated; otherwise it is refused with an error before the operation runs. The authenticated-identity field is filled only from the verified identity, never from request data, and it is never written to the response.",
  ["inputs", "programs"], "every combination of required/optional input, required/optional authentication, present/absent keys and identities",
  "Tests cover one required field and one auth case.",
  ["api/handler.go", "api/tag.go", "api/json.go"],
  [("required and auth tags", "api/tag.go")],
  ["server Recv"],
  technique="property-based testing (rapid): generated operations, decision-table oracle for accept/refuse",
  note=EXPL)
p("A03", "Client and server agree on every operation",
  "Whatever a client object sends with its input fields arrives unchanged in the server object's input fields, and whatever the server returns in its output fields arrives unchanged in the client object; all other client fields are left alone, and an error on either side is reported as an error.",
  ["inputs", "programs"], "every operation type and every value of its input and output fields, via the in-memory data form and via JSON text",
  "Tests do a single exchange per sample type.",
  ["api/handler.go", "api/json.go", "api/test.go", "api/tag.go"],
  [("client Send / server Recv / server Send / client Recv", "api/handler.go")],
  ["api client and server halves"],
  technique="property-based testing (rapid): four-leg exchange round trip over generated operations",
  note=EXPL)
p("A04", "The published schema describes the real requests and responses",
  "For every operation type the generator accepts, the OpenAPI document produced is valid JSON whose references all resolve, lists exactly the input fields as request properties and output fields as response properties (required ones marked) and the authentication needed, and every JSON message its client sends and the operation emits satisfies its schema (a null standing for nil or an absent value, and an untyped or raw field for any JSON). Types it can not describe are refused with an error, never a panic, and the order of registration does not change any operation's schema.",
  ["programs", "inputs", "histories"], "every set of registered operation types (nested structs, recursive types, slices, maps, times, embedded documentation), every value of them",
  "Tests check a few golden fragments.",
  ["api/openapi/schema.go", "api/openapi/openapi.go", "api/openapi/path.go", "api/handler.go"],
  [("schema generation by reflection", "api/openapi/schema.go")],
  ["openapi.Service JSON"],
  technique="property-based testing (rapid): generated types, JSON-Schema validation of really marshalled values by an independent mini-validator",
  note=EXPL + "The validator implements the schema keywords the generator emits.")

# ---------------------------------------------------------------- http
p("H01", "An operation over HTTP behaves as when called directly",
  "Calling a registered operation over HTTP with any input gives the same output, or an error where the direct call gives an error, as running the operation directly on the same input; each request sees a fresh operation carrying the template's values and its own request context (tracking id, path, user agent), however many requests run concurrently. An operation which requires authentication is refused with a 4xx, as HTTP requests carry no verified identity.",
  ["inputs", "histories", "schedules"], "every input document, every operation, all concurrent request mixes",
  "The tests send a few sequential requests.",
  ["http/api.go", "http/server.go", "http/client.go", "http/mux.go", "api/handler.go"],
  [("API registration and request decoding", "http/api.go")],
  ["HTTP responses of a live loopback server", "the HTTP client helper"],
  technique="property-based differential testing (rapid) over a loopback server, concurrent batches, race detector",
  note=EXPL)
p("H02", "HTTP status, errors and bodies are mapped faithfully",
  "An operation error carrying a status code produces that status; errors in receiving a request give a 4xx, other errors give 500, success with data 200 and success with no data 204. Error text is sent to the client only for statuses below 500, server-side failures reveal nothing of the internal error, and each error body is valid JSON carrying the request's tracking id. The handler receives exactly the body bytes sent and the client exactly those the handler produced, compressed only if the client accepts gzip. A request body which can not be read in full, is longer than a call handler allows, or does not arrive within the time it allows, is refused promptly and before the handler runs.",
  ["inputs", "fault_sequences"], "all error values (wrapped, joined, coded, plain), all bodies and sizes, all accept/accept-encoding header combinations, malformed request bodies",
  "Tests check a couple of codes and one body.",
  ["http/server.go", "http/error.go", "http/api.go", "http/mux.go"],
  [("error to status mapping, gzip writer", "http/server.go")],
  ["raw HTTP responses"],
  technique="property-based testing (rapid): generated error chains, bodies and headers against a status/body model",
  note=EXPL)
p("H03", "Every request is counted exactly once",
  "After any sequence of requests, concurrent or not, to registered, unregistered and failing paths, the request metrics add up to exactly one observation per request, under the method, path and final status code the client saw (upgraded and aborted connections apart).",
  ["histories", "schedules"], "all request sequences and mixes of paths, methods and outcomes",
  "No test reads the counters.",
  ["http/metrics.go", "http/server.go", "http/mux.go"],
  [("metric observation in the request wrapper", "http/server.go")],
  ["the /metrics exposition"],
  technique="stateful property-based testing (rapid): per-request deltas of the scraped metrics against a request log",
  note=EXPL)
p("H04", "Graceful shutdown loses no accepted request",
  "When shutdown begins, every request already being served runs to completion and its client receives the full response before the shutdown completes; connections arriving afterwards are refused rather than hung, and a server started afterwards reports an error. The wait is bounded by the 30 s grace period.",
  ["schedules", "histories", "fault_sequences"], "all timings of shutdown against all numbers of in-flight requests of any duration",
  "No test shuts a server down with requests in flight.",
  ["http/server.go", "http/monitor.go", "shutdown/shutdown.go"],
  [("listen/serve loop holding the shutdown", "http/server.go")],
  ["client responses and process exit order"],
  technique="generated schedules of in-flight requests vs shutdown in re-executed child processes, history oracle",
  note=EXPL + "Order is forced with gates (files/pipes), not with sleeps.")

p("H05", "The HTTP client returns exact bodies or errors, and leaks nothing",
  "For any response, the client returns exactly the body of a 200 or 204, and an error carrying the status code for any other; a response cut short, a transport failure, a malformed operation response or a cancelled context is an error. Whatever happens the connection is released, and the object given to an operation call changes only in its output fields, and only when the call succeeds or its response is read.",
  ["inputs", "fault_sequences"], "all status codes, bodies, truncations, delays and cancellations, for every client call",
  "The tests use the client for a few successful calls.",
  ["http/client.go", "http/error.go", "api/handler.go"],
  [("client calls", "http/client.go")],
  ["results of Get, Post, Do and API; open connections left behind"],
  technique="property-based testing (rapid) with a fault-injecting loopback server, leak oracle over server-side connection states",
  note=EXPL)

p("H06", "The server serves and publishes exactly what is registered",
  "After any sequence of registrations (operations under one or more urls, request functions, handlers, entries of the mux) every path is answered by exactly what was registered for it, the most specific pattern winning, and any other path by a 404. /live answers 204 and /ready the last status set. /openapi.json lists exactly the paths registered with the server, each with its current description. Registering an operation which has no url or cannot be handled or described is an error (a panic for the Must form), and leaves no path served or published for it.",
  ["histories", "inputs"], "all sequences of registrations of every form, readiness changes and requests, directly and over loopback",
  "The tests register one or two fixed operations and call those.",
  ["http/server.go", "http/api.go", "api/openapi/openapi.go", "api/server.go"],
  [("registration of operations", "http/api.go"), ("registration of handlers, built-in paths", "http/server.go")],
  ["responses of every path; /openapi.json"],
  technique="stateful property-based testing (rapid) against a table of what was registered",
  note=EXPL)

p("H07", "Monitoring endpoints report the process",
  "Under whatever prefix it is set up, the monitoring of a server reports the process as it is: the page <prefix>/pprof/ lists every profile, its links and <prefix>/pprof/NAME give the profile of that name with its current entries (404 for an unknown one), cmdline the arguments, and <prefix>/goroutines every goroutine. The metrics path given (by default /metrics) has the current values of all the registered metrics. Neither answers, or changes, any other path.",
  ["configurations", "inputs"], "all prefixes, paths, profiles (built-in or made by the program) with any number of entries, goroutines and metrics",
  "No test sets the monitoring up.",
  ["http/monitor.go", "utils/prom/http.go", "utils/prom/metric.go"],
  [("registration of the endpoints", "http/monitor.go"), ("metrics page", "utils/prom/http.go")],
  ["responses of the endpoints"],
  technique="property-based testing (rapid) of generated servers and process states, against the state which was generated",
  note=EXPL)

# ---------------------------------------------------------------- ws
p("W01", "WebSocket calls are routed to the right channel and isolated",
  "For any sequence of frames on a connection, each call runs exactly the named operation of the object opened on that channel, with the sent data, and its replies and result go to that channel, in order; a call or an opening which fails is reported there as an error. A frame for an unknown channel, path or operation runs nothing and is reported. Every channel has its own object initialised from the registered template's public fields, never shared with another channel or connection, and closing a channel ends that channel alone. The in-memory test client shows the same replies and errors.",
  ["histories", "inputs", "schedules"], "all frame sequences over several connections and channels, with interleaved opens, calls and closes",
  "Tests run one or two fixed conversations.",
  ["http/ws/conn.go", "http/ws/channel.go", "http/ws/handler.go", "http/ws/reflect.go", "http/ws/rpc.go", "http/ws/test.go"],
  [("channel table and dispatch by path", "http/ws/conn.go"), ("object builder", "http/ws/reflect.go")],
  ["frames received by a client on a loopback connection"],
  technique="model-based stateful testing (rapid) of frame histories on live connections",
  note=EXPL)
p("W02", "No client input can take the WebSocket server down",
  "Whatever bytes or frames a client sends (malformed JSON, unknown types, wrong data, control frames of any kind, abrupt disconnects), the server process survives, other connections keep working, pings are answered, and the offending connection either gets an error or is closed.",
  ["inputs", "fault_sequences"], "all byte sequences on the wire before and after the handshake, all frame opcodes and payloads, disconnect at any point",
  "Tests only send well-formed text frames.",
  ["http/ws/ws.go", "http/ws/handler.go", "http/ws/conn.go", "http/ws/channel.go", "http/ws/rpc.go"],
  [("frame reader", "http/ws/ws.go")],
  ["process liveness and a second healthy connection"],
  technique="grammar-based protocol fuzzing (rapid) of a child-process server with a healthy-connection oracle",
  note=EXPL)
p("W03", "Concurrent WebSocket writes stay intact and ordered",
  "Messages sent concurrently from any number of goroutines on one connection arrive whole, exactly once, each sender's in the order sent, until the connection is closed; sending after close returns an error and never corrupts or blocks.",
  ["schedules", "histories"], "all interleavings of senders and close on a connection, any message sizes",
  "No test writes concurrently.",
  ["http/ws/ws.go", "http/ws/conn.go", "http/ws/channel.go"],
  [("write mutex", "http/ws/ws.go")],
  ["message stream at the client"],
  technique="generated concurrent send histories (rapid) under the race detector, per-sender FIFO oracle",
  note=EXPL)

p("W04", "A WebSocket handler sees every message once, whole and in turn",
  "For every connection to a generic handler OnConnect runs once, before any data, and if it fails nothing is handled. Each message the client sends, text or binary, whole or in pieces, is then given to OnData exactly once, as the data it denotes, in order and never two at a time, with its own connection (whose identifier is unique and tagged) and the context OnConnect returned. An error from OnData is reported in a disconnect frame and ends that connection alone, as do malformed data, a close or the cancelling of its context. A connection being served, generic or rpc, holds the shutdown until it is over, and a request without a valid origin is refused.",
  ["histories", "inputs", "schedules"], "all sequences and framings of messages on any number of parallel connections, with all outcomes of the handlers",
  "The tests exchange a few well-formed messages on one connection.",
  ["http/ws/handler.go", "http/ws/conn.go", "http/ws/ws.go"],
  [("connection loop", "http/ws/conn.go"), ("handler", "http/ws/handler.go")],
  ["what OnConnect and OnData are given, frames at the client, completion of the shutdown"],
  technique="generated histories of parallel connections (rapid) under the race detector, against a model of what each must handle and answer",
  note=EXPL)

# ---------------------------------------------------------------- shutdown
p("S01", "Shutdown waits for every hold and happens once",
  "Once shutdown has begun, however many times and from however many goroutines it is requested, every waiter is released, it is never un-begun, and completion is reported only when every hold taken before completion has been released; releasing a hold twice counts once. The first termination signal begins the shutdown, the second cancels the root context without waiting for holds, the third ends the process.",
  ["schedules", "histories"], "all interleavings of begin, hold, release, wait and signal deliveries",
  "The tests run one linear sequence.",
  ["shutdown/shutdown.go", "shutdown/accessors.go"],
  [("begin/done channels and wait group", "shutdown/shutdown.go")],
  ["child process event log and exit"],
  technique="model-based generated histories executed in child processes (global state), event-order oracle",
  note=EXPL)

# ---------------------------------------------------------------- ctx, log
p("X01", "Contexts are immutable and inherit correctly",
  "Deriving a context (tag, value, cancellation, span, logger, detachment) never changes the parent or a sibling: each context shows its own tag or value where set and otherwise its ancestor's. Cancelling reaches exactly the descendants not separated by a detach, with the cause preserved, while a detached context still sees all tags and values and is never cancelled by its parents; changing data after it was given as a tag does not change the tag.",
  ["histories", "schedules"], "all derivation trees of any shape with all kinds of tags and values, in any order, and concurrent readers",
  "Tests derive a chain of two or three contexts.",
  ["ctx/ctx.go", "ctx/tags.go", "ctx/detach.go", "ctx/helper.go", "ctx/span.go"],
  [("context value chain", "ctx/tags.go")],
  ["tags, values, Done/Err/Cause of every context in the tree"],
  technique="model-based stateful testing (rapid): derivation tree vs reference tree, whole tree re-checked after every step",
  note=EXPL)
p("X02", "Errors keep their identity, text and origin when wrapped",
  "Wrapping an error any number of times, in any mix with standard wrapping and joining, keeps it findable by identity and by type and keeps its text; the stack reported is that of the innermost creation point and its first frame is the caller; tags present where the error was created stay available on it. Wrapping no error gives no error, and the JSON form of any error is valid. An error gate returns nil exactly when it is given back its own signal, wrapped or not, and otherwise the error it was given.",
  ["inputs", "histories"], "all wrapping chains of any length and mix",
  "Tests wrap once or twice.",
  ["ctx/error.go", "utils/stack.go", "utils/errors.go"],
  [("error wrapper with stack", "ctx/error.go")],
  ["errors.Is / errors.As / Error() / stack / JSON"],
  technique="property-based testing (rapid): generated wrapping chains vs reference chain",
  note=EXPL)
p("X03", "Tracking and span identifiers are unique and nested",
  "Any tree of spans built under a tracking id, from any number of goroutines, gives every span a different id that extends its parent's id; a context keeps the tracking id it was given, and a context created without one gets a fresh one.",
  ["histories", "schedules"], "all span trees and concurrent sibling creation",
  "Tests create one child chain.",
  ["ctx/span.go"],
  [("per-parent span counter", "ctx/span.go")],
  ["ids returned for every span"],
  technique="stateful + concurrent generated span trees (rapid, race detector), uniqueness/prefix oracle",
  note=EXPL)
p("L01", "Every log call yields exactly one faithful JSON line",
  "Each log call emits one line of valid JSON with the given level, the formatted message, the caller's file and line, a time and the context's tags, whatever the arguments and text; a redacted argument never appears in clear; arguments given by the caller are not altered. Loggers configured on one context never affect its parents or siblings, and concurrent calls never mix lines.",
  ["inputs", "histories", "schedules"], "all messages, formats, arguments and tags, all configuration trees, concurrent logging",
  "Tests log a few fixed lines.",
  ["ctx/log/log.go", "ctx/log/redacted.go", "ctx/tags.go"],
  [("line formatting and context logger", "ctx/log/log.go")],
  ["logger writer output"],
  technique="property-based testing (rapid): generated calls captured and parsed; concurrency under the race detector",
  note=EXPL)

# ---------------------------------------------------------------- config, storage
p("G01", "Configuration binding is exact and typed",
  "Reading configuration into a struct sets each field from the source named by its tag, converted to the field's type exactly, or its default when the source is absent; a value that cannot be represented, or a missing required value, is an error naming it, and never a panic or a silently altered value. Fields without a tag are not touched.",
  ["inputs", "configurations"], "all struct shapes in the supported kinds, all environments and default values",
  "Tests use one struct and one environment.",
  ["config/config.go"],
  [("tag driven environment reader", "config/config.go")],
  ["the filled struct or the error"],
  technique="property-based testing (rapid): generated structs and environments, reference conversion",
  note=EXPL)
p("K01", "Key-value storage behaves as a map",
  "Any sequence of upserts, deletes, gets and filtered range reads, concurrent ones included, gives the results of a plain map from key to last written value guarded by one lock: a missing key reads as nothing without an error, a range read calls back exactly once for each entry which satisfies all the filters (a missing field counts as null, equal values always match and different ones never do) as they were at one point in time, an end-of-data returned by the callback ends it without an error and any other error ends it and is returned, the callback may use the store, and an unsupported comparison is an error.",
  ["histories", "inputs"], "all operation sequences over all keys and values",
  "Tests run one short sequence.",
  ["storage/keyvalue.go", "storage/filter.go", "storage/storage.go"],
  [("in-memory map store", "storage/keyvalue.go")],
  ["results of every operation and a full scan"],
  technique="model-based stateful testing (rapid) against a map, linearizability checking (porcupine) of concurrent histories under the race detector",
  note=EXPL)

# ---------------------------------------------------------------- caches
p("M01", "LRU cache evicts the least recently used and never lies",
  "After any sequence of reads, misses that load entries of any size, failed or uncacheable loads, invalidations and changes of the limit, a size-bounded cache returns for a key the value last loaded for it and loads exactly when it has none, holds no more than its limit after a load, and evicts only when needed and always the entries least recently loaded or read; a load that fails or panics leaves it usable and stores nothing. With concurrent readers every value returned was loaded for that key, and its keys and description can be asked for at any time.",
  ["histories"], "all operation sequences with any entry sizes and limits",
  "Tests put a few fixed entries.",
  ["utils/caches/lru.go", "utils/caches/cache.go"],
  [("recency heap and size counters", "utils/caches/lru.go")],
  ["Get/Put results and which keys survive"],
  technique="model-based stateful testing (rapid) against a list-based LRU",
  note=EXPL)
p("M02", "Loading caches fetch once and never serve stale or foreign values",
  "Concurrent requests for one key share a single fetch of a value that may be cached; every caller gets what was fetched for its own key, by a fetch begun after the last invalidation of that key that preceded the request; an entry, or for the request cache also an error given a lifetime, is served without fetching again until it expires, is invalidated or evicted, and after that it is fetched anew; errors are returned to the callers and, without a lifetime, not cached. A slow fetch of one key of the request cache does not delay other keys.",
  ["histories", "schedules"], "all interleavings of requests, failures, expiries and invalidations over several keys",
  "The one existing concurrency test is skipped as racy.",
  ["utils/caches/mem.go", "utils/caches/request.go"],
  [("per-key lock around fetch", "utils/caches/request.go")],
  ["fetch call log and returned values"],
  technique="generated concurrent request histories with gated fetches (rapid, race detector), single-flight oracle",
  note=EXPL)

# ---------------------------------------------------------------- utils
p("U01", "Collection helpers obey their algebra",
  "For every input the collection helpers match their plain definitions: sorting, reversing and filtering keep exactly the right elements, grouping partitions in order, enumeration of permutations yields each exactly once, sets behave as mathematical sets, ordered maps iterate in insertion order through any sequence of updates and deletes, and helpers not documented to work in place leave their input untouched.",
  ["inputs", "histories"], "all slices, maps and operation sequences",
  "Tests use one example per helper.",
  ["utils/lists/lists.go", "utils/lists/sort.go", "utils/lists/reverse.go", "utils/lists/group.go", "utils/lists/perm.go", "utils/lists/set.go", "utils/maps/maps.go", "utils/ordered_map.go"],
  [("list, set and map helpers", "utils/lists")],
  ["returned collections"],
  technique="property-based testing (rapid) against naive reference definitions; stateful for the ordered map and set",
  note=EXPL)
p("U02", "Typed concurrent map behaves atomically",
  "The typed concurrent map gives the results of a map guarded by one lock for every operation it offers, for any value including nil ones, and iteration visits each entry present throughout exactly once and stops when told to.",
  ["histories", "schedules"], "all operation sequences and their concurrent interleavings",
  "Tests run a short sequential script.",
  ["utils/sync/map.go"],
  [("typed wrapper over the standard concurrent map", "utils/sync/map.go")],
  ["operation results"],
  technique="stateful model testing (rapid) + linearizability checking (porcupine) of recorded concurrent histories",
  note=EXPL)
p("U03", "Locks with a timeout exclude and never get stuck",
  "At most one holder is inside a lock at a time whichever acquisition form is used; an acquisition that times out is reported as such, not before its time, and leaves the lock usable; a free lock is obtained at once, and a release lets a waiter in.",
  ["schedules", "histories"], "all interleavings of blocking and time-bound acquisitions with releases",
  "Tests take and release the lock once or twice.",
  ["utils/sync/mutex.go"],
  [("channel-like mutex", "utils/sync/mutex.go")],
  ["critical-section occupancy, acquisition results"],
  technique="stateful model testing (rapid) + concurrent occupancy histories under the race detector",
  note=EXPL)
p("U04", "Reading a stream returns exactly its bytes",
  "Reading a whole stream returns exactly the bytes the source delivered, in order, whatever the chunking and including bytes delivered together with the end or an error, which is then reported; cancelling stops the read with the context's error and without a data race.",
  ["inputs", "fault_sequences", "schedules"], "all contents, chunk sizes, zero-length reads, error positions and cancellation times",
  "Tests read one string.",
  ["utils/io.go", "utils/errors.go"],
  [("context-aware read loop", "utils/io.go")],
  ["returned bytes and error"],
  technique="property-based testing (rapid) with fault-injecting readers, race detector",
  note=EXPL)

# ---------------------------------------------------------------- prom
p("P01", "Metrics exposition is valid and exact",
  "After any sequence of observations, concurrent or not, the exposition text is valid Prometheus text format for any label values and help text, and reports for each label set exactly the sum or last value observed; histogram buckets are cumulative, match the observations and agree with count and sum. A print or scrape which can not be completed is reported as an error, never as a complete one.",
  ["histories", "inputs", "schedules"], "all metrics, label values, observation sequences and scrapes concurrent with them",
  "Tests compare a few golden outputs.",
  ["utils/prom/counter.go", "utils/prom/gauge.go", "utils/prom/histogram.go", "utils/prom/labels.go", "utils/prom/metric.go", "utils/prom/custom.go", "utils/prom/http.go"],
  [("metric registries and printers", "utils/prom")],
  ["printed exposition"],
  technique="stateful property-based testing (rapid): independent exposition parser + reference aggregation, race detector",
  note=EXPL)

# ---------------------------------------------------------------- test helpers
p("T01", "Assertion helpers give the right verdict",
  "Each assertion helper passes exactly when its documented condition holds and fails the test otherwise, for values of any type including nil, typed nil, NaN, cyclic-free nested structures and unexported fields, and never panics or passes by accident; a failed assertion stops the test.",
  ["inputs"], "all argument values for all helpers",
  "The helpers are used by the tests but their failing side is hardly exercised.",
  ["test/assert.go", "test/empty.go", "test/equals.go", "test/list.go", "test/nil.go", "test/strings.go", "test/errors.go", "test/util.go"],
  [("assertion helpers", "test/*.go")],
  ["pass/fail verdict of a scratch test"],
  technique="property-based testing (rapid): each helper run in a scratch test, verdict vs independent predicate",
  note=EXPL)
p("T02", "In-memory test transport is a faithful byte pipe",
  "The buffered in-memory connection used by tests delivers exactly the bytes written, in order, whatever the read and write sizes; reads on a drained open connection wait or report per its contract, and closing makes reads drain and then end, concurrent use included.",
  ["histories", "schedules"], "all sequences of reads, writes and closes and their interleavings",
  "No test exercises partial reads or close ordering.",
  ["test/io.go"],
  [("buffer with condition variable", "test/io.go")],
  ["bytes read"],
  technique="model-based stateful testing (rapid) + concurrent histories under the race detector",
  note=EXPL)
p("T03", "Source excerpts in test logs match the call",
  "For any formatting of a call in source code (spread over lines, nested calls, literals, comments, closures), the excerpt reported for an argument of a logged assertion is that argument's source text, and the assignment reported for an error is the one that produced it; when the source can not be found the helper degrades to an empty excerpt, never a crash.",
  ["programs"], "all Go programs containing logged assertions",
  "Tests have a few one-line calls.",
  ["utils/ast/call_args.go", "utils/stack.go", "test/util.go"],
  [("source re-parsing by file and line", "utils/ast/call_args.go")],
  ["log lines of generated programs"],
  technique="program generation: random Go source with known argument texts, compiled and run in batches",
  note=EXPL)

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            d = {"id": x["id"], "title": x["title"], "statement": x["statement"],
                 "quantifier": {"over": x["over"], "text": x["qtext"]},
                 "why_tests_cant": x["why"],
                 "anchors": {"files": x["files"],
                             "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                             "observe_at": x["observe"], "hook_needed": None}}
            if x["state"]:
                d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in x["state"]]
            f.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
    for x in P:
        have = os.path.isdir(os.path.join(ROOT, "harness", x["id"].lower()))
        if x["claim"] and have:
            man["checks"].append({"property": x["id"], "quick_cmd": "./check %s quick" % x["id"],
                                  "thorough_cmd": "./check %s thorough" % x["id"],
                                  "technique": x["technique"], "level": "exploration", "level_note": x["note"].strip()})
        else:
            man["not_applicable"].append({"property": x["id"], "reason": x["na"] or "check not built yet"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
main()
