#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text is reviewable)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
        "mechanism": [dict(name=n, where=w) for n, w in mech],
        "observe_at": list(observe), "hook_needed": None}})

WIRE = "client side of a TCP connection to Octane::listen"
HAND = "handler closures (MatchedRequest / Response API)"

p("C01", "Exactly the matching handlers run",
  "For every set of registered handlers and every well-formed request, a handler runs only if it was registered for the request's method, for all methods, or as path-less middleware, and (unless path-less) its pattern has the same number of segments as the request path and agrees with it segment by segment, a segment written ':name' agreeing with anything. Every handler that qualifies does run, exactly once per request, unless an earlier one stopped the chain.",
  ["inputs", "configurations"], "every route table (methods x literal/variable patterns x middlewares) and every request method/path",
  "The unit tests only count table entries for '/'; the integration tests in tests/ are not #[test] functions at all, so no test ever dispatches a request. The space of route tables x paths is unbounded.",
  ["src/router.rs", "src/path.rs", "src/server.rs"],
  [("Router::run", "src/router.rs"), ("PathNode::insert/dfs/get", "src/path.rs"), ("inject_method!", "src/router.rs")],
  [("route table", "per-method tree of patterns plus middleware list", "src/router.rs Router")], [HAND])
p("C02", "Handlers run in registration order until one stops",
  "The handlers that match a request run one after another in the order in which they were registered, whatever their kind (method route, all-method route, middleware) and whatever their pattern shape. The first one that returns Stop is the last to run; one that returns Next never prevents a later one from running.",
  ["inputs", "configurations"], "every registration history and every assignment of Stop/Next to handlers",
  "No test runs more than one handler for a request; order across the three sources (method tree, all-method tree, middlewares) depends on a k-way merge over indices that no test executes.",
  ["src/router.rs"], [("Router::run merge by index", "src/router.rs"), ("route_counter", "src/router.rs")],
  [("index", "registration sequence number", "src/middlewares/mod.rs")], [HAND])
p("C03", "Mounting a router equals registering its routes in place",
  "Appending a router to the application has the same effect as registering each of the router's handlers on the application, in the router's own order, at the point where the router was appended. This holds for any number of routers mounted at any points, including empty ones and ones that reuse patterns and methods already registered.",
  ["histories", "configurations"], "every interleaving of direct registrations and router mounts",
  "router_append_test only counts entries for '/', never looks at order or runs the merged table.",
  ["src/router.rs", "src/server.rs", "src/path.rs"], [("Router::append", "src/router.rs"), ("PathNode into_iter/extend/collect", "src/path.rs"), ("Octane::with_router", "src/server.rs")], (), [HAND])
p("C04", "Equivalent path spellings route alike; none escapes the root",
  "Empty and '.' segments are ignored and '..' removes the preceding segment, in registered patterns and in request paths alike, so two spellings of the same path reach exactly the same handlers. A request path that climbs above the root is answered with 400 and reaches no handler, and registering such a pattern reports an error and leaves routing unchanged.",
  ["inputs"], "every request path and pattern built from ordinary, empty, '.' and '..' segments",
  "One parsing test and one should_panic test; no test sends such a request (the server used to panic on it instead of answering).",
  ["src/path.rs", "src/request.rs", "src/server.rs"], [("PathBuf::parse", "src/path.rs"), ("RequestLine::parse", "src/request.rs")], (), [WIRE, HAND])
p("C05", "URL variables bind each handler's own names to the path segments",
  "A handler registered with ':name' segments sees each of its names bound to the request's segment at that position, unmodified, and sees no other bindings; handlers of the same request with different patterns each see only their own bindings, and path-less middleware sees none.",
  ["inputs", "configurations"], "every pattern with variables at any position and every matching request path",
  "success_tree covers one variable in one pattern on the internal tree; nothing checks what handlers see when several patterns match one request.",
  ["src/path.rs", "src/router.rs", "src/request.rs"], [("PathBuf::check_matches", "src/path.rs"), ("matched.vars per handler", "src/router.rs")], (), [HAND])
p("C06", "Every connection gets exactly one complete response, then closes",
  "Whatever bytes a client sends, once it has sent a complete request, an unusable request head, or ended its side of the connection, the server writes exactly one complete HTTP response and closes the connection. No input makes the library drop the connection unanswered, leave it hanging, or answer twice (a handler that itself panics is the only exception).",
  ["inputs", "schedules"], "every byte sequence a client may send, with or without end-of-stream",
  "No test opens a connection. Malformed heads, short bodies, bad cookies and odd versions were each able to kill the connection without an answer.",
  ["src/server.rs", "src/request.rs", "src/cookie.rs", "octane_http/src/http1x/mod.rs", "src/error.rs"],
  [("Octane::serve", "src/server.rs"), ("declare_error!", "src/error.rs"), ("Http1xReader::new", "octane_http/src/http1x/mod.rs"), ("Request::from_raw", "src/request.rs")], (), [WIRE])
p("C07", "Results do not depend on how bytes are split into reads and writes",
  "What the handlers observe and what the client receives depend only on the bytes the client sent, never on how they were split across packets and reads, on pauses between them, or on how many bytes each write to the client accepts.",
  ["schedules", "inputs"], "every segmentation of the request bytes into reads and of the response bytes into writes",
  "Tests never feed the reader more than one buffer; boundaries inside the CRLFCRLF terminator, at 512-byte multiples and between head and body are never exercised.",
  ["octane_http/src/http1x/mod.rs", "src/request.rs", "src/server.rs"], [("Http1xReader::new read loop", "octane_http/src/http1x/mod.rs"), ("find_in_slice", "octane_http/src/http1x/mod.rs"), ("Request::from_raw read of the remainder", "src/request.rs"), ("Octane::send", "src/server.rs")], (), [WIRE, HAND])
p("C08", "Requests are classified 400, 501, 404 or handled, correctly",
  "A request whose head is not valid (bad UTF-8, request line other than 'METHOD target HTTP/version', malformed header line, HTTP/1.1 without Host) is answered 400, one with an unknown method 501, and in neither case does any handler run. Otherwise the handlers run, and the answer is theirs if one of them set a body and 404 if none did.",
  ["inputs"], "every request head and every route table",
  "Parser tests call private functions on a handful of lines and accept panics as rejection; the mapping to status codes and the no-handler guarantee are untested.",
  ["src/server.rs", "src/request.rs", "src/http/mod.rs", "src/http/http11.rs", "octane_http/src/http1x/mod.rs"],
  [("RequestLine::parse", "src/request.rs"), ("Header::parse", "src/request.rs"), ("Http::validate", "src/http/mod.rs"), ("has_body / NotFound", "src/server.rs")], (), [WIRE, HAND])
p("C09", "Handlers see exactly the declared request body",
  "A handler sees as the request body exactly the Content-Length bytes that follow the head: nothing is lost, altered or added, whatever the bytes are, wherever the head ends relative to the reads, and however many further bytes follow. If the client ends before delivering them all, the answer is 400 and no handler runs; without a positive Content-Length the body is empty.",
  ["inputs", "schedules"], "every body, declared length, surplus and split between head and body",
  "No test sends a body.",
  ["src/request.rs", "octane_http/src/http1x/mod.rs"], [("Request::from_raw", "src/request.rs"), ("body_remainder", "octane_http/src/http1x/mod.rs")], (), [WIRE, HAND])
p("C10", "Request headers reach handlers complete and case-insensitively",
  "A handler can look up any request header by its lower-case name however the client capitalised it, gets the value without surrounding spaces and tabs, and for a repeated header gets all values in order joined by ', '. The raw list holds every header line in order with the name as the client wrote it.",
  ["inputs"], "every list of header lines, including repeats and mixed case",
  "Tests parse at most five distinct headers; repeats, mixed-case repeats and ordering are not tested.",
  ["src/request.rs", "src/util.rs", "src/path.rs"], [("Headers::parse", "src/request.rs"), ("Header::parse", "src/request.rs"), ("Spliterator", "src/util.rs")], (), [HAND])
p("C11", "Query strings are separated from the path and decoded",
  "The part of the request target after the first '?' never affects which handlers run or what URL variables they see. The query view maps each non-empty name to the last value given for it (empty when there is no '='), with every %XX escape decoded as UTF-8 bytes, malformed escapes left as they are, and pairs with an empty name ignored.",
  ["inputs"], "every request target with a query of any shape",
  "parse_query is only tested on strings that never come from a request; through the public API the query used to be glued to the last path segment.",
  ["src/query.rs", "src/request.rs"], [("RequestLine::parse", "src/request.rs"), ("Request::get_query", "src/request.rs"), ("parse_query / unescape_hex / DoublePeek", "src/query.rs")], (), [HAND])
p("C12", "Extended queries build strings, arrays and objects consistently",
  "In the extended query view 'k[]=v' pairs collect into an array in order, 'k[f]=v' pairs into an object with the last value per field, and plain 'k=v' gives a string. When kinds conflict for one key a plain string wins, otherwise the kind seen first wins and pairs of the other kind are ignored; other keys are never affected.",
  ["inputs"], "every sequence of plain, array and object pairs over any keys",
  "Two tests with fixed strings; order-dependent conflicts over several keys are unbounded.",
  ["src/query.rs", "src/request.rs"], [("parse_extended_query", "src/query.rs"), ("Request::get_extended_query", "src/request.rs")], (), [HAND])
p("C13", "Request cookies are parsed in order and bad ones are skipped",
  "A handler sees one cookie for each well-formed 'name=value' pair of the Cookie header (pairs being separated by '; '), in order, with the value kept up to the next ';' (including any '=' in it). Malformed pairs are skipped and neither disturb the other cookies nor the request; without a Cookie header there are no cookies.",
  ["inputs"], "every Cookie header value",
  "One test with two well-formed cookies; a single malformed pair used to abort the connection.",
  ["src/cookie.rs", "src/request.rs"], [("Cookie::parse", "src/cookie.rs"), ("Request::parse", "src/request.rs")], (), [HAND])
p("C14", "Responses are correctly framed on the wire",
  "Every response the server writes is a status line with the version, the three-digit code and its upper-cased reason phrase, then one line per header and per cookie, then an empty line, then exactly the body. Content-Length is present once and equals the number of body bytes, and every cookie the handler added appears as its own Set-Cookie line.",
  ["inputs", "histories"], "every sequence of response operations performed by the handlers, and every built-in error response",
  "Three tests compare bare status lines; headers, cookies and bodies together are never serialised by a test.",
  ["src/responder.rs", "src/error.rs", "src/server.rs", "src/cookie.rs", "octane_http/src/lib.rs"],
  [("Response::get_data/headers/status_line", "src/responder.rs"), ("default_headers", "src/responder.rs"), ("Cookie::serialise", "src/cookie.rs"), ("status_codes!", "octane_http/src/lib.rs")], (), [WIRE])
p("C15", "The response reflects the last value set for each part",
  "Across all handlers of a request, the status, the body and each header of the response are those set last, header names being the same when they differ only in case; cookies accumulate in order. Content-Type is what a handler set (directly, via a file's or attachment's extension, or as JSON) and otherwise text/html with the charset if one was set before the body, and redirect sets 302 and Location.",
  ["histories"], "every sequence of response-building calls spread over any chain of handlers",
  "No test performs two operations on one response except status+version; defaults interact with order of calls in ways only sequences show.",
  ["src/responder.rs", "src/file_handler.rs"], [("set/get/status/send/with_type/redirect/cookie/charset/attachment/json", "src/responder.rs"), ("default_headers", "src/responder.rs")],
  [("Response", "status, version, headers, charset, cookies, body", "src/responder.rs")], [HAND, WIRE])
p("C16", "Handler-supplied values cannot add header lines",
  "Whatever names and values a handler passes for headers, redirects and cookies, including ones containing line breaks taken from a request, the response on the wire has exactly the header lines the handler asked for: no value can start a new header line, end the head early or start the body.",
  ["inputs"], "every string passed as header name, header value, redirect target, cookie name or cookie value",
  "No test passes a control character to the response API.",
  ["src/responder.rs", "src/cookie.rs"], [("Response::headers", "src/responder.rs"), ("Cookie::serialise", "src/cookie.rs")], (), [WIRE])
p("C17", "Files are sent byte for byte with matching length and type",
  "Sending a file responds with exactly the file's bytes, a Content-Length equal to its size and the Content-Type of its extension in any letter case, for every file size and content and however many bytes each read of the file returns. If the path is missing or is not a regular file the call fails and leaves the response as it was.",
  ["inputs", "schedules"], "every file size/content/extension and every pattern of partial reads",
  "No test sends a file (the body of every file response used to be empty).",
  ["src/file_handler.rs", "src/util.rs", "src/responder.rs"], [("FileHandler::handle_file/mime_type", "src/file_handler.rs"), ("AsyncReader::poll_read", "src/util.rs"), ("Response::send_file", "src/responder.rs")], (), [WIRE, HAND])
p("C18", "Concurrent connections do not influence each other",
  "When many connections are served at once, each one's handlers observe only that connection's request and each client receives only the response to its own request, as if it had been alone. A client that is idle, slow to send or slow to read does not keep any other connection from being served.",
  ["schedules"], "every interleaving of the events of any number of connections",
  "No test opens two connections; schedules cannot be enumerated by unit tests.",
  ["src/server_builder.rs", "src/server.rs", "src/router.rs"], [("task! per connection", "src/server_builder.rs"), ("per-connection Request/Response", "src/server.rs")], (), [WIRE, HAND])
p("C19", "A fault on one connection never stops the server",
  "After a handler panic, a client reset or disappearance at any point, a read or write error, a failed TLS handshake or a transient failure to accept a connection, the server keeps accepting and correctly serving all other present and future connections.",
  ["fault_sequences", "schedules"], "every sequence of such faults at every point of the connection life cycle",
  "No test injects a fault; a single accept error used to end the accept loop.",
  ["src/server_builder.rs", "src/server.rs", "octane_http/src/http1x/mod.rs"], [("ServerBuilder::listen accept loop", "src/server_builder.rs"), ("task! isolation of panics", "src/constants.rs")], (), [WIRE])
p("C20", "The Date header is the correct IMF-fixdate of the current time",
  "Every response carries one Date header, and for every instant since the epoch it is that instant in GMT in the fixed form 'Www, DD Mmm YYYY HH:MM:SS GMT', including leap years, century rules and month and year boundaries.",
  ["inputs"], "every second from 1970 on",
  "Three time stamps are tested; none in September (which used to print 'Sept') and no leap day or century boundary.",
  ["src/time.rs", "src/constants.rs", "src/responder.rs"], [("Time::time/format", "src/time.rs"), ("MONTHS/WEEKS/DAYS_IN_MONTH", "src/constants.rs"), ("default_headers", "src/responder.rs")], (), [WIRE])
p("C21", "TLS connections get the same behaviour as plain ones",
  "With either TLS backend enabled and a key and certificate configured, the TLS port serves every request exactly as the plain port does (same handlers, same response bytes apart from the date), for any split of bytes into records and any response size. A client that fails or abandons the handshake affects no other connection on either port.",
  ["inputs", "configurations", "fault_sequences"], "every request, both TLS backends, every handshake outcome",
  "The TLS integration tests are not #[test] functions and use an encrypted key; nothing runs a TLS request.",
  ["src/tls/openssl.rs", "src/tls/rustls.rs", "src/server_builder.rs", "src/server.rs", "src/config.rs"], [("ServerBuilder::listen_ssl", "src/server_builder.rs"), ("acceptor", "src/tls/rustls.rs"), ("Octane::listen", "src/server.rs")], (), [WIRE])
p("C22", "The start callback means the port is really being served",
  "The callback given to listen runs exactly once and only when the port is already accepting connections, on every local IPv4 address; if the port cannot be bound, listen returns an error and the callback does not run. A server that has been stopped can be started again on the same port immediately, whatever connections it had served, and no client that connects while the server listens is left unserved because others connected at the same time.",
  ["histories", "schedules", "fault_sequences"], "every history of starts, stops, occupied ports and connections in between",
  "No test calls listen (the integration helpers never run).",
  ["src/server.rs", "src/server_builder.rs"], [("Octane::listen", "src/server.rs"), ("ServerBuilder::new", "src/server_builder.rs")], (), [WIRE, "return value of listen", "start callback"])
p("C23", "Configuration calls take effect as the last one written",
  "After any sequence of configuration calls (and writes to the public settings) on the application or on a separate configuration that is then applied to it, each setting (keep-alive duration, TLS key path, certificate path, TLS port) has the value given by the last call that sets it (keep-alive may also be switched off), and a call never changes a setting it does not name. A setting no call has set has its documented default (5 seconds, port 443, empty paths). Applying a separate configuration sets keep-alive and all TLS settings to that configuration's values, a keep-alive that is switched off included.",
  ["histories"], "every sequence of configuration calls",
  "The configuration doc-tests are no_run; no test reads a setting back.",
  ["src/config.rs", "src/server.rs"], [("Config for Octane / OctaneConfig", "src/server.rs"), ("OctaneConfig::append", "src/config.rs"), ("Ssl::key/cert", "src/config.rs")],
  [("settings", "keep_alive, ssl.key, ssl.cert, ssl.port", "src/config.rs")], ["Octane::settings"])
p("C24", "Leaving out an optional feature changes nothing else",
  "The optional features (cookies, url_variables, raw_headers, query_strings, extended_queries, json, faithful) only add what they are named for. In every build, whatever combination is enabled, a program that uses none of the missing features gets the same handlers in the same order, the same view of each well-formed request and the same response as in the build with all of them, and no input goes unanswered (without faithful, ill-formed heads and empty query names may be let through).",
  ["configurations", "inputs"], "every combination of features and every application and request that needs none of the missing ones",
  "The test suite is built once, with the default features; the code of the other builds is never run.",
  ["src/path.rs", "src/router.rs", "src/request.rs", "src/responder.rs", "src/query.rs", "Cargo.toml"], [("cfg(feature = ...) in path, router, request, responder and query", "src/path.rs"), ("PathNode::dfs/check_matches", "src/path.rs"), ("Router::run", "src/router.rs"), ("Headers::parse", "src/request.rs")], (), [HAND, WIRE])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
