#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, obs=None, state=None):
    a = {"files": ["include/fitoria/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---- vocabulary types -------------------------------------------------------------------------
p("C01", "expected holds exactly one of value or error through any history",
  "An expected object holds exactly one live value or exactly one live error at all times, and every operation (construction, conversion, the four assignment transitions, emplace, swap, accessors, value_or/error_or, and_then/transform/or_else/transform_error and comparison) gives the result of the simple value-or-error model. "
  "Every value and error ever constructed is destroyed exactly once, and value() on an error throws an exception that carries that error. "
  "If an element constructor or assignment throws in the middle of an assignment, emplace or swap, the object still holds one valid element, and a failed transition between value and error leaves the old content in place.",
  ["histories", "fault_sequences"], "every sequence of operations up to a depth over two objects, each combined with every choice of which element constructor or assignment throws",
  "The tests run a few dozen hand-written transitions and never make an element operation throw in the middle of one.",
  ["core/expected.hpp"], [("storage union with has_value flag and reinit with rollback", "core/expected.hpp")], ["has_value, value, error, operator==, instance counters"])
p("C02", "optional is empty or holds exactly one live value through any history",
  "An optional is empty or holds exactly one live value, and every operation (construction, conversion, assignment, emplace, reset, swap, accessors, value_or, and_then/transform/or_else, comparison with optionals, values and nullopt) gives the result of the simple maybe-value model; value() on an empty optional throws. "
  "Every contained value is destroyed exactly once, and when an element operation throws the optional is still either empty or holds one valid value. "
  "An optional reference never copies or assigns through: it only ever refers to, or is rebound to, the object it was given.",
  ["histories", "fault_sequences"], "every sequence of operations up to a depth over two optionals (of values and of references), each combined with every choice of which element operation throws",
  "The tests check single operations from fixed starting states and inject no exceptions.",
  ["core/optional.hpp"], [("storage with engaged flag; pointer specialisation for references", "core/optional.hpp")], ["has_value, value, comparisons, instance counters"])
p("C03", "String-to-number and string utilities are exact and total",
  "Converting text to an integer, floating-point number or bool succeeds exactly when the whole text is a valid spelling of a representable value of that type and then yields exactly that value; empty text, leading or trailing extra characters and out-of-range numbers are errors, never a partial or wrapped value. "
  "Case-insensitive comparison, trimming and splitting agree with their plain definitions on every string, never reading outside it, and compile-time strings preserve, concatenate and compare their characters exactly.",
  ["inputs"], "all strings up to a length over an alphabet of digits, signs, separators, blanks, letters of both cases and non-ASCII bytes, plus every boundary value of each integer type with its neighbours",
  "The tests try a handful of strings per type.",
  ["core/from_string.hpp", "core/detail/from_string_impl.hpp", "core/strings.hpp", "core/fixed_string.hpp"], [("from_chars with full-consumption check", "core/detail/from_string_impl.hpp"), ("ASCII folding and splitting", "core/strings.hpp"), ("basic_fixed_string operators", "core/fixed_string.hpp")], ["from_string<T>, cmp_*_ci, split_*, trim, fixed_string"])
p("C04", "Base64 encoding is RFC 4648 and decoding is its exact inverse",
  "Encoding any byte string with the standard or URL-safe alphabet, with or without padding, yields exactly the RFC 4648 text, and decoding that text yields the original bytes. "
  "Decoding text containing a character outside the alphabet, misplaced or surplus padding, or a truncated final group never reports success with bytes that differ from the input's meaning, and no input makes the codec read or write outside its buffers.",
  ["inputs"], "all byte strings up to a length over a covering alphabet, all single and double byte groups, all texts up to a length including every byte value 0..255 in each position of a group",
  "The tests use the RFC vectors and a few strings.",
  ["encoding/base64/encoder.hpp", "encoding/base64/decoder.hpp", "encoding/base64/alphabet.hpp"], [("group encoder and padding", "encoding/base64/encoder.hpp"), ("decoder state machine and reverse table", "encoding/base64/decoder.hpp")], ["encode/decode results"])
p("C05", "Media types parse by the RFC grammar and expose exactly what was written",
  "A media type text is accepted exactly when it is type \"/\" subtype with one optional +suffix, each an RFC 6838 restricted name, and well-formed ;name=value parameters, and then type, subtype, suffix, essence and every parameter are exactly the corresponding substrings of the input; otherwise it is rejected. "
  "Comparison and parameter lookup follow the documented case rules on every input, and looking up a file extension or path returns the type registered for that extension and nothing else.",
  ["inputs"], "all strings up to a length over an alphabet containing token characters, '/', '+', ';', '=', '\"', blanks and an illegal byte, and structured strings with up to three parameters",
  "The tests list some dozens of examples; the grammar's corner combinations are untested.",
  ["mime/mime_view.hpp", "mime/name_view.hpp", "mime/params_view.hpp"], [("single pass parser", "mime/mime_view.hpp"), ("ordered parameter lookup", "mime/params_view.hpp")], ["mime_view::parse and accessors"])
p("C06", "Range header parsing yields exactly the denoted byte ranges, never wrapping",
  "For every Range text and every representation size, parsing either rejects the text or yields ranges that each are exactly what the text denotes for that size: first-last is inclusive (last may lie beyond the size), first- with first below the size runs to the end, and a single suffix -n is the final n bytes (the whole representation if n exceeds its size). "
  "Optional blanks may surround the comma separated specifiers; empty or reversed ranges, a suffix inside a list, and numbers outside 64 bits are rejected, and no accepted range is empty or wraps around.",
  ["inputs"], "all range texts up to a length over digits, '-', ',', '=', blanks and junk, with sizes 0..N, plus texts built from all boundary numbers around 0, size, 2^63 and 2^64",
  "Tests use a fixed size and well-behaved numbers.",
  ["http/header/range.hpp"], [("suffix/prefix/closed range arithmetic", "http/header/range.hpp")], ["range::parse result"])
p("C07", "Entity tags and If-None-Match parse, print and compare per RFC 9110",
  "Entity-tag text is accepted exactly when it is an optional W/ followed by a quoted string of legal tag characters, and printing a parsed tag gives back the same text. "
  "Two tags are equal exactly when strength and opaque value agree and weakly equal exactly when the opaque values agree, whatever their strength; an If-None-Match list is either \"*\" or the sequence of all tags in the text in order, and a list with any malformed element is rejected.",
  ["inputs"], "all strings up to a length over quotes, W, /, comma, blanks, letters and control/non-ASCII bytes, and all pairs of tags over a small set",
  "Tests contain a dozen literal tags.",
  ["http/header/entity_tag.hpp", "http/header/if_none_match.hpp"], [("parse/compare", "http/header/entity_tag.hpp"), ("list splitting", "http/header/if_none_match.hpp")], ["parse, to_string, operator==, weakly_equal_to, iteration"])
p("C08", "HTTP dates print as IMF-fixdate of exactly the given instant and order by it",
  "Printing any instant the clock can represent gives the IMF-fixdate text of exactly that second (weekday, day, month, year and time all consistent with the calendar, fractions of a second dropped downwards), and comparing two dates gives the same answer as comparing the instants; conversion through the file clock keeps the instant.",
  ["inputs"], "every day over several centuries including leap years and century rules, with the first and last second of the day and sub-second fractions",
  "Tests print one date.",
  ["http/header/date.hpp", "core/chrono.hpp"], [("to_string and comparison", "http/header/date.hpp")], ["date::to_string, operator<=>"])
p("C09", "HTTP status and version vocabulary is a faithful bijection with RFC values",
  "Every status constant, its integer code and its class agree with the HTTP status registry: the class of a code is decided by its hundreds digit and unknown codes have no named status or class other than unknown. "
  "Each HTTP version prints as its exact spelling, converts to the wire's numeric form and back without loss, and every other number is the unknown version.",
  ["inputs"], "all integers 0..65535 as status codes, all version enumerators and all numbers 0..65535 as wire versions",
  "Tests look at sample values only.",
  ["http/status_class.hpp", "http/status_code.hpp", "http/status.hpp", "http/version.hpp"], [("switch tables", "http/status_class.hpp"), ("version conversions", "http/version.hpp")], ["status_code value, category and text; version conversions"])
p("C10", "Route patterns are accepted exactly by the documented grammar",
  "A route pattern is accepted exactly when it is made of literal path characters (with complete %XX escapes), {name} segments that span a whole segment with non-empty distinct names, and, where wildcards are allowed, one trailing non-empty #name that contains no slash and differs from the other names; anything else is rejected. "
  "The tokens produced reproduce the pattern's literals, parameter names and wildcard in order, and the compile-time and run-time answers are identical.",
  ["inputs"], "all strings up to a length over '/', '{', '}', '#', letters, '%', hex digits and an illegal byte, for both wildcard modes",
  "About sixty literal patterns are tested.",
  ["web/path_parser.hpp"], [("recursive constexpr parser and duplicate-name check", "web/path_parser.hpp")], ["path_parser::parse and emitted tokens"])
p("C11", "Log levels, filters and formatting select and render records exactly",
  "A record passes a filter exactly when its level is one the filter was built from (for a threshold: at or above it), off never passes, and level names convert to text and back in any letter case with every other text meaning off. "
  "Formatting renders every component of the record named by the pattern (time, level name, source position, message) byte for byte in its place, whatever characters the message contains, in plain and coloured form, followed by the configured newline.",
  ["inputs", "configurations"], "all pairs of levels, all messages up to a length over an alphabet with braces, percent, escape, newline and non-ASCII bytes, both colour settings",
  "Tests format one record.",
  ["log/level.hpp", "log/filter.hpp", "log/formatter.hpp", "log/record.hpp"], [("level comparison", "log/filter.hpp"), ("format", "log/formatter.hpp")], ["filter, formatter output"])
p("C12", "Routing is a function of the set of routes, not of their insertion order",
  "After any sequence of insertions, looking up a method and path returns the unique best matching route: a literal match is preferred to a parameter, a parameter to a wildcard, with earlier (longer) literal prefixes deciding, and the exact method is preferred to the any-method route; if no pattern with an acceptable method matches, the lookup says so. "
  "The answer does not depend on the order in which routes were inserted nor on internal tree optimisation, and inserting a route whose method and pattern shape is already present is always refused and changes nothing.",
  ["histories", "inputs"], "every ordered selection of up to k patterns from a pool built to share, split and nest prefixes, queried with every path over the same alphabet",
  "Tests insert one set in one order.",
  ["web/router.hpp"], [("radix tree insert/split and find", "web/router.hpp")], ["try_insert, try_find, optimize"])
p("C13", "A routed request binds every path parameter to exactly its segment",
  "Whenever a path is routed to a pattern, matching the pattern against that path succeeds and binds each {name} to exactly the segment text in its position and #name to exactly the remaining text, and literal pattern characters match only themselves. "
  "A path that is not an instance of the pattern does not match, and no path makes matching fail with an exception or drop the connection.",
  ["inputs"], "all patterns from a pool times all paths up to a length over '/', letters, '.', '+', '{', '}', '%' and newline",
  "Tests match five well-formed paths.",
  ["web/path_matcher.hpp", "web/path_info.hpp", "web/router.hpp"], [("regex built from tokens", "web/path_matcher.hpp"), ("router/matcher agreement", "web/http_server.hpp")], ["path_matcher::match, request.path()"])
p("C14", "dynamic_buffer is a FIFO of bytes that never exceeds its limit",
  "Under any sequence of prepare, commit, consume and release, the readable bytes are exactly the committed and not yet consumed bytes in order, prepare(n) always yields n writable bytes disjoint from the readable ones, and size never exceeds the limit. "
  "prepare throws a length error exactly when readable size plus n would exceed the limit, and leaves the content unchanged; no operation touches memory outside the buffer.",
  ["histories"], "every sequence of operations up to a depth with sizes chosen around the limit and the consumed prefix, for each container type",
  "Tests run four fixed sequences.",
  ["core/dynamic_buffer.hpp"], [("read/write offsets, compaction", "core/dynamic_buffer.hpp")], ["cdata, size, prepare, release"])
p("C15", "header_map is a case-insensitive multimap of fields",
  "Under any sequence of set, insert and erase (by field enum or by name, in any letter case) the map behaves as a case-insensitive multimap: set leaves exactly one value for the name, insert adds one, erase removes all and returns how many, and get, find, contains, equal_range, size, empty, iteration and conversion to a wire message agree with that model. "
  "A field and its textual name are always the same key and values are kept byte for byte apart from surrounding blanks.",
  ["histories"], "every sequence of operations up to a depth over three names in two spellings and two values",
  "Tests exercise a dozen calls.",
  ["http/header_map.hpp", "http/field.hpp"], [("case-insensitive hash and comparison", "http/header_map.hpp")], ["all accessors"])
p("C16", "Query, form and path maps decode exactly the pairs in the text",
  "Parsing a query string or urlencoded form yields exactly the percent- and plus-decoded name=value pairs of the text (the last one for a repeated name; a name without an equals sign is no pair), and malformed escapes are rejected rather than truncated. "
  "Under any sequence of set, indexing, erase and clear, lookups by name (and by position for path parameters), at/get/find/contains/size and iteration agree with a plain map, and missing keys give an empty result or out_of_range.",
  ["inputs", "histories"], "all texts up to a length over '&', '=', '+', '%', hex digits and letters, and every operation sequence up to a depth",
  "Tests look at a few strings.",
  ["web/query_map.hpp", "web/path_info.hpp"], [("params view decoding", "web/query_map.hpp")], ["query_map, path_info, as_form"])
p("C17", "Builders assemble exactly the request or response that was described",
  "Whatever order the setters of a request or response builder are called in, the built message has exactly the last value set for each single-valued part, all appended headers and the body last set, with the documented content type for convenience bodies; building never loses a part that was set before. "
  "Copying or moving a builder step never changes the message being built, and the response factory for each status yields that status.",
  ["histories"], "every sequence of builder calls up to a depth over a covering set of setters, plus every status factory",
  "Tests build a few fixed chains.",
  ["web/response.hpp", "web/request.hpp", "web/test_request.hpp", "web/test_response.hpp"], [("builder setters and set_body overloads", "web/response.hpp"), ("test request builder", "web/test_request.hpp")], ["status, version, headers, body"])
p("C18", "Scopes compose: path prefix, middleware nesting and state shadowing",
  "A route served inside any nesting of scopes is reached exactly under the concatenation of the scope prefixes and its own path. "
  "Middleware runs outermost scope first and, within one scope or route, first-used outermost, each seeing the request once and its response once. "
  "A handler sees, for each state type, the value of the nearest enclosing level that sets it (route, then inner to outer scope), and deriving one scope or route from another never changes what the original's handlers see.",
  ["configurations", "histories"], "every scope tree up to a depth with every assignment of middleware and states to its levels and every build order",
  "Tests use two fixed trees.",
  ["web/scope.hpp", "web/route.hpp", "web/routable.hpp", "web/any_routable.hpp", "web/to_middleware.hpp", "web/state_storage.hpp"], [("rebinding of routes on serve", "web/scope.hpp"), ("state map chain", "web/request.hpp")], ["middleware trace, state values"])
# ---- server ------------------------------------------------------------------------------------
p("C19", "The handler sees exactly the request on the wire, however it is fragmented",
  "For every well-formed request, the handler that its method and path route to runs exactly once and sees exactly the method, version, target, query, headers and body that were sent, whether the body is sized or chunked and however the bytes are split across network reads. "
  "A malformed or prematurely ended request never reaches a handler as if it were complete.",
  ["inputs", "schedules"], "a covering set of requests, each under every split of its bytes into up to k pieces and truncated at every byte",
  "Tests send whole requests in one write.",
  ["web/http_server.hpp", "web/async_message_parser_stream.hpp", "web/async_read_until_eof.hpp", "web/request.hpp"], [("session loop", "web/http_server.hpp"), ("parser stream", "web/async_message_parser_stream.hpp")], ["handler arguments"])
p("C20", "Every response is framed so that a client receives exactly the handler's reply",
  "For every response a handler returns (no body, fixed-size body of any length, streamed body with any chunk sizes), the bytes on the wire parse as exactly one HTTP response with that status, version, headers and body, and nothing else. "
  "If a streamed body fails part way the client never receives something that looks complete, and a response that may not carry a body is not followed by body bytes.",
  ["inputs", "fault_sequences"], "all statuses times body shapes, all chunk sequences up to a length including empty chunks and an error at every position, for HTTP/1.0 and 1.1 and for GET and HEAD",
  "Tests read a few responses with one client.",
  ["web/http_server.hpp", "web/async_write_chunks.hpp", "web/any_body.hpp", "web/response.hpp"], [("sized vs chunked serialisation", "web/http_server.hpp"), ("chunk writer", "web/async_write_chunks.hpp")], ["raw response bytes"])
p("C21", "On one connection each request gets exactly one response, in order",
  "For every sequence of requests on one connection, pipelined or not and however the bytes are fragmented, the responses are exactly the individual answers in request order, and the body of one request (read by the handler or not) is never interpreted as another request. "
  "The connection stays open exactly while HTTP keep-alive rules and the configuration say so, and after a close no further request is handled.",
  ["histories", "schedules"], "every sequence of up to three requests from a pool (bodies read or ignored, keep-alive, close, 1.0, chunked, failing), under splits at every byte",
  "Tests send at most a few sequential requests.",
  ["web/http_server.hpp"], [("keep-alive loop and parser reuse of the buffer", "web/http_server.hpp")], ["response sequence, handler log, close"])
p("C22", "Header and body size limits are enforced exactly",
  "A request whose body is larger than the configured limit is never delivered in full to a handler and a request within the limit is never refused because of it, whether its length is declared or chunked and however it is fragmented. "
  "A request header within its limit is never refused and one over twice the limit never reaches a handler (request line and fields are counted separately). "
  "Reading beyond a limit gives an error outcome (error response or closed connection) and never affects other requests.",
  ["inputs", "configurations"], "limits 0..n with body lengths around the limit, both framings, all fragmentations into pieces",
  "One oversized body is tested.",
  ["web/http_server.hpp", "web/async_message_parser_stream.hpp"], [("parser body_limit", "web/http_server.hpp")], ["body seen by handler, response"])
p("C23", "A failing handler never takes down the server or leaves a client unanswered",
  "When a handler, extractor or middleware throws any exception, or no route matches, the client gets the documented error response (404 for no route; the exception-handling middleware's or configured mapping otherwise) or a closed connection, and the server keeps serving other requests. "
  "The configured exception handler is told about each escaped exception exactly once.",
  ["fault_sequences"], "every kind of exception thrown at every point of the request path (before, during body read, in middleware before/after next, in response streaming)",
  "Tests throw in one place.",
  ["web/http_server.hpp", "web/middleware/exception_handler.hpp"], [("session exception capture", "web/http_server.hpp"), ("middleware try/catch", "web/middleware/exception_handler.hpp")], ["responses, handler callback"])
p("C24", "Extractors are all-or-nothing and give the handler exactly the request's data",
  "A handler runs exactly when every one of its extractors succeeds; each argument is then exactly the corresponding part of the request (path, query, form, JSON, state, body, headers, connection info) converted without loss. "
  "If any extractor fails the handler does not run and the client gets a client-error (or, for missing state, server-error) response; the body is consumed at most once.",
  ["inputs"], "all combinations of extractor kinds on one handler with all small valid and invalid inputs for each",
  "Tests try one success and one or two failures per extractor.",
  ["web/from_request.hpp", "web/handler.hpp", "web/path_of.hpp", "web/query_of.hpp", "web/form_of.hpp", "web/json_of.hpp", "web/state_of.hpp", "web/detail/extract_query.hpp"], [("sequential extraction", "web/handler.hpp"), ("field-by-field conversion", "web/detail/extract_query.hpp")], ["handler arguments, response status"])
p("C25", "Returned values convert to the documented response without loss",
  "Every value a handler may return (response, string, vector, variant, expected or custom type, in any nesting) becomes the response documented for it: body bytes identical to the value, the documented status and content type, and for sums the response of the alternative actually held.",
  ["inputs"], "all nestings up to depth two of the convertible types with all small payloads",
  "Tests convert one literal per type.",
  ["web/to_response.hpp", "web/handler.hpp", "web/any_body.hpp"], [("to_response customisation point", "web/to_response.hpp")], ["status, headers, body"])
p("C26", "Static files are served with exact bytes and correct conditional/range answers",
  "For every file size and every Range, If-None-Match and If-Modified-Since header, the response is 200 with the whole file, 206 with exactly the denoted bytes and a Content-Range naming them and the full size, 304 exactly when the validator matches, 416 for an unsatisfiable range or 400 for a malformed validator; a body never contains bytes outside the requested range. "
  "This holds however the file system shortens individual reads, and the file is closed afterwards.",
  ["inputs", "fault_sequences"], "file sizes around 0 and the read block size, all boundary ranges and validators, every pattern of short reads up to a bound",
  "Tests use one file and a few headers.",
  ["web/static_file.hpp", "web/async_readable_file_stream.hpp", "http/header/range.hpp"], [("range and validator handling", "web/static_file.hpp"), ("file stream with offset and remaining", "web/async_readable_file_stream.hpp")], ["status, headers, body"])
p("C27", "Decompression yields exactly the original bytes or an error, for any chunking",
  "For every supported content coding (deflate, gzip, brotli, and stacks of them), a valid compressed body is delivered to the handler as exactly the original bytes, however it is chunked and whatever its size, with the content-coding header adjusted; unknown codings are passed through unchanged or refused. "
  "A truncated or corrupted compressed body is reported as an error, never as a complete body, and never hangs the server.",
  ["inputs", "fault_sequences"], "originals around the internal buffer size, every split into up to k chunks, truncation and single-byte corruption at every position, trailing garbage",
  "Tests decode one literal per coding in one chunk.",
  ["web/middleware/decompress.hpp", "web/middleware/detail/async_inflate_stream.hpp", "web/middleware/detail/async_gzip_inflate_stream.hpp", "web/middleware/detail/async_brotli_inflate_stream.hpp"], [("inflate loops", "web/middleware/detail"), ("coding stack", "web/middleware/decompress.hpp")], ["bytes delivered, error"])
p("C28", "Compression streams round-trip every body, for any chunking",
  "Compressing any body with the deflate, gzip or brotli stream, however the source chunks it (including empty chunks and chunks larger than the internal buffer), yields one complete compressed stream that standard decompressors expand to exactly the source bytes. "
  "An error from the source stream is propagated and never turned into a complete stream.",
  ["inputs", "fault_sequences"], "compressible and incompressible bodies with sizes around the buffer size, all chunk sequences up to a length, error at every position",
  "Tests compress one literal.",
  ["web/middleware/detail/async_deflate_stream.hpp", "web/middleware/detail/async_gzip_deflate_stream.hpp", "web/middleware/detail/async_brotli_deflate_stream.hpp"], [("deflate loops and finish", "web/middleware/detail")], ["bytes produced"])
p("C29", "WebSocket upgrade and messages follow RFC 6455 for every client",
  "A connection is switched to WebSocket exactly when the request is a valid upgrade and the routed handler accepts it as one; every other request gets an ordinary HTTP response, and an invalid upgrade to a WebSocket route gets an error response without running the handler's socket code. "
  "After the switch each complete client message is delivered once, in order, with its exact type and bytes however it is fragmented, each server message reaches the client likewise, and closing ends the session cleanly.",
  ["inputs", "schedules"], "all combinations of upgrade header faults, all message sequences up to a length with every fragmentation and byte split",
  "Tests run a few exchanges with one client.",
  ["web/websocket.hpp", "web/http_server.hpp"], [("upgrade validation in extractor", "web/websocket.hpp"), ("context read/write", "web/websocket.hpp")], ["handshake bytes, frames"])
p("C30", "Body streams deliver every byte once, in order, then end",
  "For every body stream (in-memory, type-erased, file, network) and every way its data is chunked, repeated reads yield exactly the source bytes in order, each once, then end-of-stream; collecting, converting or writing a stream to a file or the network transfers exactly those bytes. "
  "An error at any point is reported as that error, never as a shorter complete body.",
  ["inputs", "fault_sequences"], "all chunk sequences up to a length with sizes around the block size, error or empty chunk at every position",
  "Tests read one vector stream.",
  ["web/async_readable_vector_stream.hpp", "web/any_async_readable_stream.hpp", "web/async_read_until_eof.hpp", "web/async_read_into_stream_file.hpp", "web/async_readable_file_stream.hpp", "web/any_body.hpp"], [("read loop", "web/async_read_until_eof.hpp")], ["bytes read"])
p("C31", "Log records reach every writer intact and in order",
  "Every record accepted by the filter is written by each attached writer exactly once, whole, and in the order a single thread logged them; records below the filter are not formatted or written. "
  "A writer attached later writes at least what is logged after it was attached; several threads may log and attach writers at once, and a writer that fails keeps neither the others nor later records from being written. "
  "Destroying a logger, or replacing the global logger by the thread that uses it, never loses, duplicates or interleaves records, never hangs and never touches freed memory.",
  ["schedules", "histories"], "every sequence of log, filter-change, replace and drain steps up to a depth, and every order in which pending logger work can be run",
  "Tests log a few lines and sleep.",
  ["log/log.hpp", "log/registry.hpp", "log/async_logger.hpp", "log/async_formattable_writer.hpp", "log/sync_stream_file_writer.hpp", "log/basic_async_stream_file_writer.hpp"], [("channel between log call and writer loop", "log/async_logger.hpp")], ["writer output"])
p("C32", "Concurrent connections are isolated from each other",
  "For any interleaving of the bytes of several connections on one server, each connection sees exactly the responses it would see alone, each handler sees only its own request's data, and an error, disconnect or exception on one connection does not affect the others.",
  ["schedules"], "two or three connections with pools of short exchanges, every interleaving of their byte chunks and closes",
  "Tests use one connection at a time.",
  ["web/http_server.hpp", "core/net.hpp"], [("one session coroutine per connection with its own buffer and parser", "web/http_server.hpp")], ["per-connection response bytes"])
p("C33", "In-process test requests behave like the same request on the wire",
  "Serving a test request in process gives the handler the same method, target, query, headers and body, and the caller the same status, version, headers and body, as sending that request over a real connection would, for sized and streamed bodies alike.",
  ["inputs"], "a covering set of requests and response shapes, each executed both ways and compared",
  "Tests use only the in-process way and never compare.",
  ["web/http_server.hpp", "web/test_request.hpp", "web/test_response.hpp", "web/test_utils.hpp"], [("serve_request over an in-memory stream", "web/http_server.hpp")], ["handler view, response view"])
p("C34", "Error codes keep their identity from cause to observer",
  "Every library error code has its library's own category, a non-empty distinct message and is equal only to itself, whatever expression created it, and unknown values have an empty message instead of another code's. "
  "Failures of number conversion, routing and field extraction are reported with exactly the code that names the cause, never as success.",
  ["inputs"], "all enumerators and out-of-range values, and all pairs",
  "Tests print some of them.",
  ["web/error.hpp", "web/middleware/detail/brotli_error.hpp"], [("error_category::message switch", "web/error.hpp")], ["error_code value, category, message"])
p("C35", "Time limits cut off exactly the clients that exceed them",
  "A connection whose client has not sent its whole request, and taken the answer, within the request time limit of the server beginning to wait for it is ended at the limit, and a client that keeps within the limit is never ended or answered differently: the limit begins anew for every request of a connection, is none if set to none, does not depend on other connections, and does not apply to an accepted websocket, which has its own limits for silence and for the closing handshake. "
  "A handler reading a body that is cut off sees an error and never takes the part for the whole.",
  ["inputs", "schedules"], "all interleavings of request pieces, passages of virtual time, connections and socket traffic up to the stated numbers of steps",
  "Tests wait for one real timeout each; the moments at which clients may stall are combined here.",
  ["web/http_server.hpp", "web/websocket.hpp", "core/net.hpp"], [("expires_after in do_session_impl", "web/http_server.hpp"), ("websocket timeouts", "web/websocket.hpp")], ["moment at which the connection ends", "bytes received", "error seen by handlers"])
p("C36", "A protected connection serves the same and nothing that was tampered with",
  "Over TLS a client receives exactly the bytes and its handlers see exactly the requests that the same exchange has on a plain connection, however the data is cut on the way, and an ordinary end of the connection is announced to the client. "
  "Nothing is served to a client that has not completed the handshake, no answer ever leaves in plain text, data that was altered, lost, repeated, reordered or cut off is never served as if it were whole, a handshake that takes longer than its limit is given up on time, and none of this disturbs other connections.",
  ["inputs", "schedules", "faults"], "all cuts, single-bit changes, record sequences, stalls and interleavings of a covering set of exchanges",
  "Tests run whole exchanges between well-behaved ends and one handshake timeout.",
  ["web/http_server.hpp", "core/net.hpp", "web/websocket.hpp"], [("do_session for shared_ssl_stream", "web/http_server.hpp"), ("shared_ssl_stream", "core/net.hpp")], ["decrypted bytes received", "handler log", "raw bytes sent", "moment at which the connection ends"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
