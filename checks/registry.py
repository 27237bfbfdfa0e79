"""One entry per claimed property: how its harness is built and what the check covers."""
CHECKS = {}
def add(pid, src, technique, note, **k):
    k["srcs"] = [src] if isinstance(src, str) else src
    k["technique"] = technique; k["note"] = note
    CHECKS[pid] = k
add("C01", "c01_expected.cpp", "exhaustive operation sequences with fault injection on the real code against a reference model",
    "Every sequence of operations over two objects up to the depth, times every position at which an element operation throws, for six instantiations; ASan/UBSan and instance counters catch leaks and double destruction. Assumes behaviour depends on the element type only through the operations the instrumented element provides.")
add("C02", "c02_optional.cpp", "exhaustive operation sequences with fault injection on the real code against a reference model",
    "As C01 for optional of values, of references and of void, including all comparison pairs.")
add("C03", "c03_strings.cpp", "bounded exhaustive input enumeration on the real code against a reference model",
    "Every string up to the length over a covering alphabet and every boundary number with its neighbours; all 2^8/2^16 values of the small integer types.", opt="O2")
add("C04", "c04_base64.cpp", "bounded exhaustive input enumeration on the real code against a reference model",
    "All byte strings of length <= 2 (3 in blocks), all texts up to the length over an alphabet covering each class of character, every byte value in each position.", opt="O2")
add("C05", "c05_mime.cpp", "bounded exhaustive input enumeration on the real code against a reference model",
    "All strings over a grammar-covering alphabet up to the length against an independent recogniser.", opt="O2")
add("C06", "c06_range.cpp", "bounded exhaustive input enumeration on the real code against a reference model",
    "All range texts up to the length for all small sizes, and all texts built from boundary numbers, against 128-bit arithmetic.", opt="O2")
add("C07", "c07_etag.cpp", "bounded exhaustive input enumeration on the real code against a reference model",
    "All texts up to the length over a grammar-covering alphabet, every byte value inside a tag, all pairs of tags.", opt="O2")
add("C08", "c08_date.cpp", "bounded exhaustive input enumeration on the real code against a reference model",
    "Every day of 1700-2260 (thorough; every fourth in quick) at its edges and every second of chosen days against an independent calendar; parsing is compiled out by the installed compiler and is not covered.", opt="O2")
add("C09", "c09_status.cpp", "exhaustive input enumeration on the real code against the registry table",
    "All 65536 codes, all code pairs below 700, all versions and wire numbers. The status constants themselves come from Boost.Beast.", opt="O1", boost=True)
add("C10", "c10_pattern.cpp", "bounded exhaustive input enumeration on the real code against an independent recogniser",
    "All texts up to 7 (thorough 8) over {/,{,},#,a,b,%,4}, all concatenations of up to 5 (6) grammar pieces, every byte value in every kind of position; compile-time evaluation compared for all texts up to length 4.", opt="O2", flags=["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=10000000"])
add("C11", "c11_log.cpp", "bounded exhaustive input enumeration on the real code against a reference renderer",
    "All level pairs and filter sets, all case variants and one-byte changes of level names, all messages up to length 4 (5) over a hostile alphabet times patterns and styles.", opt="O1")
add("C34", "c34_error.cpp", "exhaustive enumeration of codes and pairs, bounded exhaustive inputs for causes",
    "All enumerators and unknown values in all pairs and ways of construction; all short number texts for the reported cause.", opt="O1")
add("C12", "c12_router.cpp", "exhaustive insertion histories on the real router against a reference matcher",
    "Every ordered selection (with repetition) of 4 (thorough 5) routes from pools of 9-13 colliding patterns, every permutation of 7 (8), with the tree optimised never, at the end or in between; every path up to length 5 looked up.", opt="O2", boost=True)
add("C13", "c13_matcher.cpp", "bounded exhaustive pattern and path enumeration on the real matcher and router against a reference matcher",
    "All patterns of up to 4 (5) pieces, all paths up to the length over a hostile alphabet, instances and near-instances of each pattern, every literal character against all 256 bytes.", opt="O2", boost=True)
add("C14", "c14_buffer.cpp", "exhaustive operation histories on the real buffer against a queue model",
    "All histories of 5 (7) steps with sizes around limits 0,1,3,4,6 and unlimited, three container types; ASan with exact container growth sees stray writes.", opt="O1", boost=True)
add("C15", "c15_headers.cpp", "exhaustive operation histories on the real map against a multimap model",
    "All histories of 4 (5) operations over three names in seven spellings; every field enumerator against its text in three letter cases; all byte values in values.", opt="O1", boost=True)
add("C16", "c16_maps.cpp", "bounded exhaustive texts and operation histories on the real maps against reference decoding and a plain map",
    "All texts up to 6 (7) over {&,=,+,%,a,1,B,2}, all sequences of 4 (5) pairs, every byte raw and escaped; all histories of 4 (6) operations.", opt="O1", boost=True)
add("C17", "c17_builders.cpp", "exhaustive call sequences on the real builders against a reference message",
    "All sequences of up to 2 (3) setter calls, each on an lvalue or rvalue builder, times every way to finish, times rebuilding the built message; all factories.", opt="O0", boost=True, cxx="clang++")
add("C18", "c18_scope.cpp", "exhaustive configuration histories on the real scopes, routes and server against a reference composition",
    "All state settings on four nested levels, all derivation histories up to 4 (5) steps over three objects, six middleware shapes, all paths up to length 6 (7) against ten nested routes, served over a real socket.", opt="O0", boost=True, cxx="clang++")
add("C19", "c19_request.cpp", "exhaustive requests and fragmentations against the real server on a stepped socket",
    "All requests of a grammar (methods, targets, headers, sized and chunked bodies), byte by byte, at every cut and (short ones) every pair of cuts, every truncation, malformed texts at every cut; the handler's view is compared with what was sent.", opt="O0", boost=True, cxx="clang++")
add("C20", "c20_response.cpp", "exhaustive replies on the real server over a stepped socket, read by an independent strict reader",
    "All bodies of up to 3 (4) pieces of sizes 0,1,3,70000, failing or not, slow or not, all header sets and status codes, for GET/HEAD/POST in 1.0 and 1.1 with every connection option.", opt="O0", boost=True, cxx="clang++")
add("C21", "c21_pipeline.cpp", "exhaustive request sequences and fragmentations against the real server on a stepped socket",
    "All sequences of 3 (thorough 4) requests from a pool of 24 (16) kinds (bodies read, ignored, half read, echoed; keep-alive, close, 1.0, Expect, malformed), whole, one at a time and byte by byte; all pairs at every cut.", opt="O0", boost=True, cxx="clang++")
add("C22", "c22_limits.cpp", "exhaustive limits, sizes and fragmentations against the real server on a stepped socket",
    "Body limits 0..13 and around 512/65536/1 MiB with sizes around them, both framings, four ways to take the body, every cut; header limits with header sizes around them; a second connection and a following request watch for disturbance.", opt="O0", boost=True, cxx="clang++")
add("C23", "c23_failures.cpp", "exhaustive fault injection on the real server over a stepped socket",
    "Six kinds of exception (standard and not) at every point of the request path, with the exception middleware absent, outside and inside, with requests before and after on the connection, three fragmentations, and the default exception handler; other and later connections must be served. All pairs (thorough triples) of faults on one server.", opt="O0", boost=True, cxx="clang++")
add("C32", "c32_isolation.cpp", "exhaustive interleavings of connections on the real server over stepped sockets",
    "All interleavings of the steps of two connections out of 12 scripts and of three out of 5 (thorough 12), settling after each step or with two steps pending; compared with each script alone.", opt="O0", boost=True, cxx="clang++")
add("C24", "c24_extract.cpp", "bounded exhaustive input enumeration through the real server against reference conversions",
    "Every short text in every path parameter kind, every sequence of up to 4 (5) pairs as query and form, content types times documents and all their prefixes, all short bodies sized and chunked, all combinations of valid and invalid extractors on one handler.", opt="O0", boost=True, cxx="clang++")
add("C25", "c25_toresponse.cpp", "bounded exhaustive input enumeration on the real conversions against a reference",
    "All short byte texts and block sized ones as string, vectors of six element types and a custom type, as rvalue, lvalue and const; all nestings of variant and expected to depth two with every alternative held; responses of every shape inside sums; and through served handlers.", opt="O0", boost=True, cxx="clang++")
add("C26", "c26_static.cpp", "exhaustive ranges, validators and short-read/failure patterns against RFC 9110 on the real code",
    "All pairs of boundary numbers as ranges for file sizes around 0 and the block size, all short range texts, validators and lists of them times ranges, every pattern of short reads, failures and truncations at each read. The file class is a stand-in with plain POSIX calls (no io_uring here); If-Modified-Since is compiled out by the installed compilers.", opt="O0", boost=True, cxx="clang++")
add("C28", "c28_compress.cpp", "exhaustive piece sequences and source failures on the real streams, expanded by the standard libraries",
    "All sequences of up to 2 (3) pieces of ten sizes around the block size and three kinds of content, all sequences of up to 5 (7) short pieces, with and without an error at the end, bodies up to 1 MiB cut into pieces of every size, all lengths around the output block.", opt="O0", boost=True, cxx="clang++")
add("C30", "c30_streams.cpp", "exhaustive piece sequences, faults and short transfers on the real body streams and their consumers",
    "All sequences of up to 3 (4) pieces of six sizes with every kind of end, through every way of holding a stream and every consumer; files of eight sizes with every window, transfer limit, failing operation and shrinking moment; chunk output with every failing write; network bodies around the block size with cuts and early ends.", opt="O0", boost=True, cxx="clang++")
add("C31", "c31_logger.cpp", "controlled-scheduler exploration of the real logger with a happens-before race detector",
    "Every order of the work the logger posts to the thread pool, with up to 1 (2) preemptions before mutex operations, for up to 3 (4) records, two writers of five behaviours, three buffer sizes, two logging threads, replacement histories of the global logger; ThreadSanitizer judges every schedule without seeing the scheduler's own hand-overs.", opt="O1", boost=True, cxx="clang++", asan=["-fsanitize=thread"])
add("C27", "c27_decompress.cpp", "exhaustive piece sequences, truncations and corruptions on the real streams against the standard libraries",
    "Bodies of all sizes around 0 and the block size from every encoder setting, every cut and pair of cuts, every truncation, every changed bit, trailing bytes, source failures, all short texts; stacks of codings with and without damage through the served middleware. 'deflate' means the raw format, as the repository's tests have it.", opt="O0", boost=True, cxx="clang++")
add("C29", "c29_websocket.cpp", "exhaustive handshakes, frame sequences and byte cuts against the real server, spoken by an independent RFC 6455 client",
    "All combinations of nine targets, methods, versions and handshake header faults; all sequences of up to 2 (3) of twelve client messages and control frames with 24 ways to end (closes, ends of stream, protocol violations) sent whole, by frame and by byte, and at every cut; all socket scripts of up to 3 (4) of eleven actions; all interleavings of three sockets.", opt="O0", boost=True, cxx="clang++")
add("C35", "c35_timeouts.cpp", "exhaustive sends and passages of virtual time on the real server over stepped sockets",
    "All ways to interleave the pieces of one request (7 kinds; 4 passages of time) and of two requests on a connection (3; thorough 4) with passages of 4 or 7 units against a limit of 10, two connections in every order with 2 (3) passages, no limit, the default limit, answers nobody reads, handlers slower than the limit; sockets with and without pings: all sequences of up to 5 (6) of messages, pings, pongs and passages; closing handshakes answered late or never; all pairs of settings. Between the steps the clock does not move.", opt="O0", boost=True, cxx="clang++")
add("C36", "c36_tls.cpp", "exhaustive cuts, alterations, stalls and interleavings of TLS connections to the real server",
    "Fifteen exchanges (sized, chunked, large and unread bodies, streams, refusals, sockets) in TLS 1.2 and 1.3, whole, byte by byte, one record per byte and at every third (thorough: every) cut, alone and in pairs, compared with the plain connection; handshakes left, half closed, answered in plain text or resumed after every third (every) byte, or with two (eight) bits of each byte changed; a request in three records with every byte changed, cut at every byte, and all sequences of up to four of its records; stalls at every piece against limits of 6, none and the default; pairs of connections in all orders. The cryptography is OpenSSL's.", opt="O0", boost=True, cxx="clang++", flags=["-DFITORIA_HAS_OPENSSL"], libs=["-lssl", "-lcrypto"])
add("C33", "c33_inprocess.cpp", "exhaustive comparison of in-process and wire executions of the real server",
    "All methods times request bodies of up to 2 (3) pieces of five kinds in four framings, all response shapes (status, framing, pieces, headers, version, failing source), all short paths and every byte in five routes, all pairs from 17 query texts, header sets up to 2 (3) of 13, refusals and failures, several requests at once; each executed both ways and compared.", opt="O0", boost=True, cxx="clang++")
