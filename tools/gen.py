#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (committed outputs; run by hand after editing)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, otext, why, files, mech, tech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, otext=otext, why=why, files=files, mech=mech, tech=tech, note=note, observe=observe))


EXP = "exploration by seeded random and directed workloads against the real server built with AddressSanitizer+UBSan; trusts the independent oracle in checks/%s.py; silent about inputs and schedules not generated"

prop("P01", "Hostile bytes never corrupt or kill the server",
     "No sequence of bytes from clients (plain or TLS), HTTP/FastCGI/SCGI backends or memcached servers makes the server read or write memory it does not own, hit undefined behaviour, abort on an internal assertion, or stop answering other clients. Memory held for a finished connection is given back: nothing is leaked when the server exits.",
     ["inputs", "schedules", "fault_sequences"], "every byte sequence on every kind of peer socket, at every connection life-cycle point",
     "tests send a few well-formed requests in uninstrumented builds; memory errors need particular malformed bytes, timings and aborts",
     ["src/main/connection.c", "src/main/chunk.c", "src/main/stream.c", "src/main/http_request_parser.rl", "src/main/http_response_parser.rl", "src/modules/fastcgi_stream.c", "src/modules/gnutls_filter.c", "src/modules/mod_memcached.c", "src/common/memcached.c"],
     "ragel parsers, chunk queues with buffer slices, reference-counted streams and connections recycled between requests",
     "ASan/UBSan/LSan + assertion monitor under grammar-mutating client/backend fuzz workloads",
     "sanitizer-instrumented exploration; reports every ASan/UBSan/LSan error or abort that the generated traffic reaches")
prop("P02", "Worker threads never race on shared state",
     "With several worker threads serving clients, loading files, talking to backends, logging, reporting status and shutting down at the same time, no two threads access the same memory without synchronisation, one of them writing. This holds for every module a configuration can load.",
     ["schedules"], "all interleavings of worker threads, tasklet threads and the main thread",
     "the tests run one worker with sequential clients and no race detector",
     ["src/main/worker.c", "src/main/server.c", "src/main/stat_cache.c", "src/main/backends.c", "src/common/tasklet.c", "src/modules/mod_status.c", "src/main/log.c"],
     "async queues between threads, collect jobs run in every worker, atomics, mutex-protected backend pools and module state",
     "ThreadSanitizer with GLib synchronisation annotations under multi-worker stress",
     "happens-before race detection on executed interleavings only; GLib primitives are modelled by an LD_PRELOAD interposer")
prop("P03", "Request boundaries on a connection are never confused",
     "On a persistent connection the server treats exactly the bytes of each message (request line, headers, and body delimited by Content-Length or chunked coding) as that request, never body bytes as a request or the reverse, and answers each request once and in order. A message whose length is ambiguous or invalid is rejected and the connection closed.",
     ["inputs", "histories"], "all sequences of pipelined requests with any framing headers and any body contents",
     "tests send single requests with valid framing; smuggling needs conflicting lengths, pipelining, reused connection objects",
     ["src/main/connection.c", "src/main/http_request_parser.rl", "src/main/request.c", "src/main/filter_chunked.c"],
     "content_length/transfer-encoding decision in request validation, chunked decoder state in the connection, keep-alive reset",
     "trace oracle: reference message splitter vs. answers, embedded marker requests", EXP % "p03")
prop("P04", "Splitting the same bytes into packets changes nothing",
     "The responses a client receives depend only on the bytes it sent, not on how they were split into packets or how long it paused between them (within the timeouts). The same holds for the bytes a backend sends, except that an error response without body may be replaced by the server's own error page. Whether the connection is kept open may also depend on the request body arriving before the response is sent.",
     ["inputs", "schedules"], "every segmentation and timing of every client and backend byte stream",
     "tests send each request in one write",
     ["src/main/http_request_parser.rl", "src/main/http_response_parser.rl", "src/main/stream_http_response.c", "src/modules/fastcgi_stream.c", "src/main/filter_chunked.c", "src/main/chunk_parser.c"],
     "resumable parsers over chunk queues",
     "differential trace check: same bytes, different segmentations", EXP % "p04")
prop("P05", "Every response is a well-framed HTTP message",
     "Every response the server sends parses under HTTP/1.x rules with exactly one way to find its end: no conflicting or repeated Content-Length/Transfer-Encoding, chunked coding only to HTTP/1.1 clients, no body for HEAD, 1xx, 204, 205 and 304, and a Content-Length that equals the bytes sent. The connection stays open exactly when the response announced it, and the announcement follows the request's version and Connection header.",
     ["inputs", "configurations", "histories"], "all requests, backend responses, filters and connection states",
     "tests look at status and body of selected responses through a lenient client",
     ["src/main/response.c", "src/main/connection.c", "src/main/filter_chunked.c", "src/main/stream_http_response.c"],
     "response header generation decides framing from body completeness, status, method and version",
     "strict independent HTTP response parser as online monitor over mixed workloads", EXP % "p05")
prop("P06", "Files outside the configured roots are never served",
     "Whatever the request target contains (encoded or doubled slashes, dots, NUL bytes, backslashes, absolute URIs), a file or directory listing outside the document root or alias target chosen by the configuration is never revealed. A name that contains a NUL byte or tries to climb above the root is refused or resolved inside the root.",
     ["inputs", "configurations"], "all request targets and all document root / alias / virtual host mappings",
     "tests probe a couple of paths; escapes need unusual encodings and mapping combinations",
     ["src/common/utils.c", "src/main/url_parser.rl", "src/main/plugin_core.c", "src/main/request.c", "src/modules/mod_userdir.c", "src/modules/mod_vhost.c"],
     "URL decoding, path simplification, docroot/alias mapping, static file opening",
     "canary files outside the roots + independent path resolver oracle", EXP % "p06")
prop("P07", "Static files and byte ranges are delivered exactly",
     "A GET of a static file returns exactly the file's bytes with its size and the media type configured for the longest matching suffix, and HEAD returns the same header without body. A range request returns exactly the requested bytes (one part, or one multipart part per satisfiable range) with matching Content-Range, 416 if no range can be satisfied, and the whole file if the header is not a valid byte range (a header cut off in the middle may also be answered 416).",
     ["inputs", "schedules"], "all file sizes, range headers, transfer sizes and client read speeds",
     "tests use small files and a few ranges; large files, slow readers and odd ranges take other code paths",
     ["src/main/plugin_core.c", "src/main/chunk.c", "src/main/network_sendfile.c", "src/main/network_writev.c", "src/main/http_range_parser.rl", "src/main/mimetype.c"],
     "file chunks sent by sendfile/writev with partial writes; range parser; multipart generation",
     "byte-exact comparison with an independent range interpreter", EXP % "p07")
prop("P08", "Conditional requests never hide changed content",
     "A conditional GET or HEAD is answered 304 only if the validator the client sent (entity tag, or date when no entity tag was sent) matches the current file, and then with no body. When the validators do not match the full current content is returned, and the entity tag changes whenever size or modification time (in seconds) of the file change.",
     ["inputs", "histories"], "all validator headers and all histories of file modification",
     "tests check one matching and one non-matching case",
     ["src/main/etag.c", "src/main/plugin_core.c", "src/main/stat_cache.c", "src/main/http_headers.c"],
     "ETag derived from stat data; If-None-Match / If-Modified-Since evaluation",
     "reference evaluator over modified files and generated validators", EXP % "p08")
prop("P09", "Malformed and oversized requests are refused cleanly",
     "A request that is syntactically invalid, exceeds the header or URI size limits, lacks a required Host, uses an unsupported version, transfer coding or expectation gets the matching 4xx/5xx status and no handler runs for it. After such a refusal the connection is closed, and a valid request is never refused.",
     ["inputs"], "all byte sequences near the request grammar",
     "tests cover a handful of bad requests",
     ["src/main/request.c", "src/main/http_request_parser.rl", "src/main/connection.c", "src/main/url_parser.rl"],
     "request parser states, header size accounting, validation step",
     "grammar mutation with an independent validity classifier", EXP % "p09")
prop("P10", "A backend gets each request once and unchanged",
     "A request routed to an HTTP, FastCGI or SCGI backend reaches it exactly once with the client's method, target, headers (apart from connection-specific ones) and body, whatever the body size, framing and buffering settings. An upload that the client did not finish never reaches the backend as a complete request.",
     ["inputs", "schedules", "configurations"], "all requests, body sizes, framings and segmentations, and client aborts at every point",
     "tests send small bodies and compare a few variables",
     ["src/modules/mod_proxy.c", "src/modules/mod_fastcgi.c", "src/modules/mod_scgi.c", "src/modules/fastcgi_stream.c", "src/main/environment.c", "src/main/virtualrequest.c", "src/main/filter_buffer_on_disk.c"],
     "request serialisation per protocol, body streaming through chunk queues or temporary files",
     "recording stub backends compared field by field with what the client sent", EXP % "p10")
prop("P11", "Backend responses reach the client unchanged",
     "Status, headers (in order and multiplicity, apart from connection-specific ones) and body of a backend's response arrive at the client exactly as the backend sent them, for HTTP, FastCGI and SCGI backends, any size, any framing and any speed of either side. Backend error output is never mixed into the response.",
     ["inputs", "schedules"], "all backend responses, framings, record sizes, segmentations and reader speeds",
     "tests use a small fixed set of backend answers",
     ["src/main/stream_http_response.c", "src/main/http_response_parser.rl", "src/modules/fastcgi_stream.c", "src/main/response.c", "src/main/filter_chunked.c"],
     "backend response parser, FastCGI record demultiplexer, stream forwarding with limits",
     "scripted backends; end-to-end comparison of generated and received messages", EXP % "p11")
prop("P12", "Truncated backend responses never look complete",
     "If a backend fails before its response is complete (connection lost, reset, premature end, broken framing), the client never receives it as a complete message: it sees an error status or a connection closed before the announced end. A complete backend response is never reported as failed.",
     ["fault_sequences", "inputs"], "every cut point and failure kind of every backend response",
     "no test kills a backend mid-response",
     ["src/main/stream_http_response.c", "src/main/filter_chunked.c", "src/modules/fastcgi_stream.c", "src/main/connection.c", "src/main/stream_simple_socket.c"],
     "abort propagation through the stream chain to the client connection",
     "fault injection at generated cut points in stub backends + completeness oracle", EXP % "p12")
prop("P13", "Clients cannot forge what backends are told about them",
     "The address, port, scheme, server name, authenticated user and script variables a backend receives are those the server itself determined; no request header can set, override or duplicate them, and variables set in the configuration win over request headers. X-Forwarded-For and X-Forwarded-Proto supplied by the client are replaced; request headers only ever reach CGI-like backends as HTTP_* (or CONTENT_TYPE/CONTENT_LENGTH).",
     ["inputs", "configurations"], "all request header names, spellings and repetitions",
     "tests send ordinary headers",
     ["src/main/environment.c", "src/modules/mod_proxy.c", "src/modules/fastcgi_stream.c", "src/modules/mod_scgi.c"],
     "environment duplication table consulted while emitting variables",
     "recording stub backends under hostile header sets", EXP % "p13")
prop("P14", "Backend failures are contained and load is spread as configured",
     "A balancer sends each request to one of its configured backends, never to one it has just found unreachable while another works, and uses a recovered backend again. Nested balancers pass a failure on to a working alternative. A request routed directly to an unreachable backend gets a 503/504 answer in bounded time; behind a balancer without usable backend requests wait and are answered soon after one works again. Failures of one backend never affect requests routed to others.",
     ["fault_sequences", "schedules"], "all sequences of backends failing, refusing and recovering under concurrent requests",
     "tests use one permanently healthy backend",
     ["src/modules/mod_balance.c", "src/main/backends.c", "src/modules/mod_proxy.c"],
     "round-robin / shortest-queue selection with alive/overloaded/down states and wake-up timers; backend pool wait queues",
     "fault-injecting backends with an offline conservation and distribution checker", EXP % "p14")
prop("P15", "Protected resources need valid credentials",
     "A resource protected by basic authentication is delivered only if the request carries a user name and password that the configured user file accepts, compared in full; every other request gets 401 with a challenge and never the content. Changes of the user file take effect within its configured lifetime.",
     ["inputs", "histories"], "all Authorization headers, user file contents and file updates",
     "tests check a couple of good and bad passwords",
     ["src/modules/mod_auth.c", "src/common/utils.c"],
     "user files parsed and cached with a time to live; base64 decoding; crypt/digest comparison",
     "independent credential oracle over mutated headers and user files", EXP % "p15")
prop("P16", "Address rules decide access exactly",
     "With address-based access rules the most specific matching rule decides for every client address, and clients matching no rule are refused. A refused client gets 403 and never the protected content, and network conditions in the configuration match exactly the addresses in the given network.",
     ["inputs", "configurations"], "all IPv4/IPv6 addresses and all rule sets",
     "tests use one client address",
     ["src/modules/mod_access.c", "src/common/radix.c", "src/common/ip_parsers.rl", "src/main/condition.c"],
     "radix tree longest prefix lookup",
     "reference longest-prefix evaluator over generated rule sets and source addresses", EXP % "p16")
prop("P17", "Configuration conditions and actions apply exactly when they match",
     "A configuration block runs exactly for the requests whose attributes (path, query, host, method, headers, addresses, sizes, TLS) satisfy its condition, with and/or/not and else branches having their usual meaning, in the order written. Settings made in a block affect only requests that ran it.",
     ["inputs", "configurations"], "all conditions, operators, nestings and request attributes",
     "tests cover a few operators with one request each",
     ["src/main/condition.c", "src/main/actions.c", "src/main/config_parser.rl", "src/main/options.c"],
     "condition tree evaluation with l-value dispatch; per-request option copies; action stack",
     "reference interpreter for generated configurations", EXP % "p17")
prop("P18", "Request paths are decoded and normalised exactly once",
     "The path used for conditions and file lookup is the percent-decoded request path with dot segments and repeated slashes resolved, each valid escape decoded exactly once, and the query part left untouched. Equivalent spellings of a path get the same decision, and a percent sign not followed by two hexadecimal digits never decodes to a byte; decoded control bytes become underscores.",
     ["inputs"], "all request targets",
     "tests decode a few fixed strings",
     ["src/common/utils.c", "src/main/url_parser.rl", "src/main/request.c"],
     "URL split, decode and simplification",
     "reference decoder compared with the path the server reports", EXP % "p18")
prop("P19", "Compressed responses decode to the original content",
     "A compressed response is only sent to a client that accepts the coding, names that coding, varies on Accept-Encoding, and decodes to exactly the original content; otherwise the content is sent as is. Entity tags of compressed and plain variants differ, and content that already has an encoding, partial content and bodiless responses are not compressed.",
     ["inputs", "configurations", "schedules"], "all contents, sizes, Accept-Encoding headers and backend timings",
     "tests compress one small document",
     ["src/modules/mod_deflate.c"],
     "streaming zlib/bzip2 filters with bounded output buffers; entity tag rewriting",
     "independent decompressor + negotiation oracle", EXP % "p19")
prop("P20", "The access log has exactly one faithful line per request",
     "Every answered request produces exactly one access log line in the configured format whose fields equal what was sent and received, including requests answered with errors. No client-controlled field can break a line, forge another line or inject control bytes.",
     ["inputs", "schedules"], "all requests, formats and worker interleavings",
     "tests do not read the access log",
     ["src/modules/mod_accesslog.c", "src/main/log.c"],
     "log lines formatted at request end in each worker, escaped, queued to a logging thread",
     "offline reconciliation of the log with the client-side record", EXP % "p20")
prop("P21", "Resources of finished requests are always given back",
     "When clients and backends have gone away, in whatever way and at whatever moment, the number of open file descriptors, active connections, temporary files and the memory of the server return to the idle level, and connection limits regain full capacity. Client aborts release the backend connection they were using.",
     ["histories", "schedules", "fault_sequences"], "all histories of connects, aborts, timeouts and backend failures",
     "tests run a few hundred complete requests and never look at resources",
     ["src/main/connection.c", "src/main/worker.c", "src/main/backends.c", "src/main/stream.c", "src/main/chunk.c", "src/main/filter_buffer_on_disk.c"],
     "reference counting, connection recycling, keep-alive queues",
     "descriptor/connection/temp-file/memory conservation monitor across churn rounds", EXP % "p21")
prop("P22", "Idle peers are timed out and nobody else is",
     "A connection that sends or accepts no data for the configured timeout is closed within a small margin, idle persistent connections after the configured keep-alive timeout, and after the configured number of requests. A connection that makes progress is never closed by a timeout.",
     ["schedules", "configurations"], "all client timings and timeout settings",
     "tests never wait",
     ["src/main/connection.c", "src/common/waitqueue.c", "src/main/worker.c"],
     "wait queues for I/O timeouts and keep-alive",
     "timestamped connection traces against a timing specification", EXP % "p22")
prop("P23", "Shutdown and restart lose no request in progress",
     "On a graceful stop the server finishes the responses already started, accepts nothing new, frees everything and exits with success, under any load. Under the supervising process a crashed worker process is replaced while the listening sockets stay open, and stopping the supervisor stops the worker.",
     ["crash_points", "schedules"], "every moment of every workload at which the stop, suspend or crash happens",
     "the test suite stops an idle server",
     ["src/main/server.c", "src/main/worker.c", "src/main/connection.c", "src/angel/angel_server.c", "src/angel/angel_proc.c", "src/main/lighttpd_worker.c"],
     "server state machine (init, loading, suspended, warmup, running, suspending, stopping, down)",
     "signals injected at random points under load; completeness and exit monitors", EXP % "p23")
prop("P24", "Connection and request limits are enforced exactly",
     "With a limit on concurrent or per-second connections or requests, globally or per client address, never more than the limit are served at a time or per second, further ones get the configured answer (503 by default), and as soon as one finishes another is admitted. Limits never count down below the true number in use.",
     ["schedules", "histories"], "all interleavings of starts, ends and aborts of limited requests",
     "tests do not exercise limits",
     ["src/modules/mod_limit.c"],
     "counters and per-address radix tree shared by workers",
     "online counter of concurrently admitted requests vs. the limit", EXP % "p24")
prop("P25", "Throttling bounds the rate and loses nothing",
     "With a throttle configured the bytes sent to a connection, pool or client network in any time window never exceed rate times window plus the configured burst (within a small margin), and the complete response still arrives. Unused rate is not lost: a throttled transfer finishes in about the time the rate allows.",
     ["schedules", "configurations"], "all rates, bursts, sizes and concurrent transfers",
     "tests do not measure rates",
     ["src/main/throttle.c", "src/modules/mod_throttle.c"],
     "token buckets refilled by timer, shared pools across workers",
     "timestamped byte traces against a token-bucket specification", EXP % "p25")
prop("P26", "TLS clients see the same service, securely",
     "Over TLS (either library) every request gets the same response as over plain HTTP, byte for byte, for any size, speed and record splitting, the certificate matching the requested server name is used, and the configuration sees the connection as encrypted. Closing or breaking a TLS connection at any point never exposes plaintext, crashes or blocks the server.",
     ["inputs", "schedules", "configurations"], "all requests, record boundaries, handshake outcomes and aborts",
     "tests do a single request over TLS at most",
     ["src/modules/gnutls_filter.c", "src/modules/mod_gnutls.c", "src/modules/openssl_filter.c", "src/modules/mod_openssl.c", "src/common/fetch.c"],
     "crypto filter between socket stream and HTTP streams; SNI certificate selection",
     "differential check TLS vs. plain, hostile handshakes under ASan", EXP % "p26")
prop("P27", "Request data cannot inject headers or markup",
     "No byte sequence in a request can add a header, a second response or unescaped markup to a response generated by the server (redirects, error pages, directory listings, status pages). Text taken from the request or file system appears HTML-escaped in HTML, and URL-encoded in the Location of directory redirects and redirects relative to the request.",
     ["inputs"], "all request targets, headers and file names",
     "tests use harmless characters",
     ["src/modules/mod_redirect.c", "src/modules/mod_dirlist.c", "src/main/plugin_core.c", "src/common/encoding.c", "src/modules/mod_status.c", "src/main/response.c"],
     "pattern evaluation into Location; HTML encoding of file names",
     "taint markers with metacharacters followed into responses", EXP % "p27")
prop("P28", "Directory listings show exactly the visible entries",
     "A directory listing shows every entry of the directory once, with its type, size and a link that fetches exactly that entry (names without control bytes), apart from the entries the configuration hides, and nothing else; entries that cannot be stat'ed are not judged. Listings are only produced where enabled and only for directories requested with a trailing slash.",
     ["inputs", "configurations"], "all directory contents, file names and listing options",
     "tests do not parse listings",
     ["src/modules/mod_dirlist.c", "src/main/stat_cache.c", "src/common/encoding.c"],
     "stat cache directory entries, exclude patterns, encoding of names",
     "directory model compared with the parsed listing; every link followed", EXP % "p28")
prop("P29", "Cached pages from memcached are never mixed up",
     "A page looked up in memcached is delivered only if the server returned exactly that key, with exactly the stored bytes; any miss, error, closed connection or malformed answer falls through to the configured alternative. A stored page is the complete body of a successful response under the key derived from the configured pattern, and different requests never share a key unless the pattern says so.",
     ["inputs", "fault_sequences"], "all keys, values and memcached server answers",
     "there is no test with a memcached server",
     ["src/modules/mod_memcached.c", "src/common/memcached.c"],
     "asynchronous client with pipelined requests and key hashing",
     "stub memcached server with fault injection and store/lookup log checker", EXP % "p29")
prop("P30", "The on-disk cache never serves wrong or partial content",
     "A cached response is only delivered for the same path and entity tag it was stored for, with exactly the content stored. An aborted, failed or concurrent store never leaves an entry that is later served partially.",
     ["histories", "schedules", "crash_points"], "all histories of stores, aborts, restarts and concurrent requests",
     "there is no test of the cache",
     ["src/modules/mod_cache_disk_etag.c"],
     "temporary file renamed into place when the response is complete",
     "cache-history checker with aborts and concurrent clients", EXP % "p30")
prop("P31", "Configurations are read as documented or rejected",
     "Every configuration that follows the documented grammar is accepted with the documented meaning of literals, units, lists, variables, operators, includes and nested blocks; any other is rejected with an error and a non-zero exit before serving. No configuration text crashes the parser.",
     ["configurations", "inputs"], "all configuration texts",
     "tests parse a few configuration files",
     ["src/main/config_parser.rl", "src/common/value.c", "src/angel/angel_config_parser.rl"],
     "hand-written tokenizer/parser building value trees and actions",
     "generated configurations with a reference evaluator, plus mutation fuzzing under ASan", EXP % "p31")
prop("P32", "Virtual hosts are selected exactly and isolated",
     "The host name of a request (header or absolute URI, case-insensitive, without port or trailing dot) selects exactly the configured virtual host, and unknown hosts the default. Content of one virtual host is never delivered under the name of another.",
     ["inputs", "configurations"], "all host names, spellings and mapping tables",
     "tests use a few lower-case host names",
     ["src/modules/mod_vhost.c", "src/main/url_parser.rl", "src/main/request.c", "src/main/plugin_core.c"],
     "host normalisation in request parsing; hash map and regex tables",
     "reference mapping over generated host spellings", EXP % "p32")
prop("P33", "File changes become visible within the cache lifetime",
     "After a file or directory is created, changed, replaced or deleted, every request that starts later than the configured stat cache lifetime sees the new state, on every worker, and never a mix of old and new metadata and content. With the cache lifetime at zero every request sees the current state.",
     ["histories", "schedules"], "all histories of file changes interleaved with requests",
     "tests never change files while the server runs",
     ["src/main/stat_cache.c", "src/main/plugin_core.c", "src/common/tasklet.c"],
     "per-worker cache of stat results with a deletion queue",
     "history checker over concurrent file mutation and requests", EXP % "p33")
prop("P34", "Status counters account for every request and byte",
     "The totals on the status page equal what clients observed: requests, connections, bytes received and sent, summed over all workers, and they never go backwards. The connections listed are exactly those currently open, in the state they are in.",
     ["schedules", "histories"], "all interleavings of requests over workers and status queries",
     "tests do not look at the counters",
     ["src/modules/mod_status.c", "src/main/worker.c", "src/main/connection.c"],
     "per-worker statistics collected across threads",
     "conservation check between client-side totals and reported counters", EXP % "p34")
prop("P35", "Rewrites, redirects and headers substitute exactly",
     "Rewrite, redirect, response and header-setting rules produce exactly the documented substitution of captured groups (of the rule and of the enclosing condition), request attributes and escapes, using the first rule that matches. A rewritten request behaves as if it had been sent with the rewritten path and query.",
     ["inputs", "configurations"], "all patterns, captures, ranges and request targets",
     "tests use a few fixed rules",
     ["src/modules/mod_rewrite.c", "src/modules/mod_redirect.c", "src/main/pattern.c", "src/main/plugin_core.c", "src/modules/mod_expire.c"],
     "compiled pattern parts evaluated against match info",
     "reference pattern evaluator over generated rules and requests", EXP % "p35")
prop("P36", "Lua scripts observe and change the request faithfully",
     "Lua actions and handlers see the request, environment, physical path and addresses as the server has them, and what they set (status, headers, body, environment, paths) is what takes effect. An error in a script fails only that request.",
     ["inputs", "schedules"], "all scripts over the documented API and all requests",
     "tests cover a few accessors with one request",
     ["src/main/core_lua.c", "src/main/actions_lua.c", "src/main/request_lua.c", "src/main/response_lua.c", "src/main/environment_lua.c", "src/main/http_headers_lua.c", "src/main/filters_lua.c", "src/modules/mod_lua.c"],
     "userdata wrappers around request objects; per-worker Lua states",
     "round-trip check of values through scripts, with error injection", EXP % "p36")

DROP = {}


def main():
    have, na = [], []
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            if p["id"] in DROP:
                continue
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": p["mech"]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["otext"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
            if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
                have.append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
                             "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
            else:
                na.append({"property": p["id"], "reason": "no check built yet"})
    m = {"version": 1, "setup_cmd": "python3 -m vf.build asan tsan", "hooks": {"guard": "LI_VERIF", "enable": "no hooks are needed: the checks build the unmodified sources", "source_commits": []},
         "checks": have, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in P:
        for fn in p["files"]:
            if not os.path.exists("/repo/" + fn):
                print("missing anchor", p["id"], fn)
    print(len(have), "checks,", len(na), "open")


main()
