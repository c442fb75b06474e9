#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level_note, technique, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, level_note=level_note, technique=technique, na=na))

SRV = "the real j8a binary over loopback sockets with scripted upstreams"
prop("P01", "Longest matching route prefix decides where a request goes",
 "Every request is handled by the configured route with the longest literal path that is a prefix of the request path, whatever order the routes are declared in and with or without a leading slash in the configuration. A request no route path is a prefix of is answered with 404 by the proxy and never reaches an upstream. Query strings never influence routing, a target in absolute form is routed by its path, and routes to the about resource compete like any other.",
 ["configurations", "inputs"], "all sets of literal route paths (nested, overlapping, with/without leading or trailing slash, in any order) and all request targets",
 "Route tests check a few hand-picked pairs against single routes; which of several overlapping routes wins for arbitrary sets is never quantified over.",
 ["route.go", "config.go", "proxyhandler.go"], [("Routes sorted by descending path length; first regexp match wins", "config.go sortRoutes / route.go Less, matchURI")],
 ["upstream that received the request", "status 404"],
 "Randomised; several thousand routed requests per run against a longest-prefix reference model, " + SRV + ". Literal paths only (regular expressions in paths are outside the model).",
 "model-based property testing of the running binary (reference router)")
prop("P02", "Requests reach upstream unaltered",
 "A forwarded request arrives at the upstream exactly once with the client's method, path, query string, header fields (all values, in order) and body bytes, apart from the connection-level and proxy-owned headers (Date, Server, Content-Length, Transfer-Encoding, X-Request-Id). With a route transform, the matched path prefix is replaced by the transform once, at the start of the path only, and the rest of the path and the query string stay as sent.",
 ["inputs", "configurations"], "all methods, targets with escapes and queries, header sets with repeats, bodies of any size and framing, and routes with and without transform",
 "Integration tests compare a few fixed requests; byte-exactness over encodings, repeated headers, sizes and framings is universally quantified.",
 ["proxy.go", "proxyhandler.go", "route.go"], [("resolveUpstreamURI applies the transform", "proxy.go"), ("scaffoldUpstreamRequest copies headers and body", "proxyhandler.go")],
 ["bytes read by a recording upstream"],
 "Randomised; thousands of generated requests compared byte for byte with what a raw-socket upstream recorded.", "round-trip property testing with a recording upstream")
prop("P03", "Upstream responses reach the client unaltered",
 "A 1xx-free upstream response with a status of 2xx or 3xx is delivered to the client with the same status, the same values for every end-to-end header (repeated ones such as Set-Cookie included, in order) and, after removing content coding, the same body bytes. The proxy adds only its own Server, Date, X-Request-Id, Content-Length and Content-Encoding, and a response to HEAD, a 204 or a 304 has no body (to HEAD, it carries the length upstream declared).",
 ["inputs"], "all 2xx/3xx statuses, header sets with repeats, body sizes from 0 to megabytes, upstream framings (length, chunked, close) and content codings",
 "The tests fix one or two bodies and headers per case; corruption that depends on size, framing or header repetition is outside them.",
 ["proxyhandler.go", "proxy.go", "gzip.go"], [("copyUpstreamResponseHeaders / copyUpstreamResponseBody / writeStandardResponseHeaders", "proxy.go, proxyhandler.go")],
 ["status, headers and body read by a raw client"],
 "Randomised comparison of scripted upstream responses with the bytes a raw client read.", "differential property testing, upstream script versus client view")
prop("P04", "Content coding is negotiated and labelled truthfully",
 "The body sent to a client always decodes, by the Content-Encoding and Content-Length sent with it, to exactly the upstream's content: gzip is sent only to clients whose Accept-Encoding allows it and is used when they explicitly list it, other clients get identity, and a body in another coding (br, deflate, ...) passes through byte for byte with its label. This also holds for bodies that merely look like gzip and for empty bodies.",
 ["inputs"], "all combinations of Accept-Encoding values, upstream codings, body contents and sizes",
 "Tests exercise a handful of header combinations with one text body.",
 ["proxy.go", "gzip.go", "proxyhandler.go"], [("shouldGzipEncodeResponseBody / shouldGzipDecodeResponseBody / shouldSendDownstreamResponseBodyGzip", "proxy.go"), ("Gzip / Gunzip", "gzip.go")],
 ["Content-Encoding, Content-Length and body bytes read by the client"],
 "Randomised cross product of Accept-Encoding, coding, and content, judged by decoding with an independent gzip reader.", "property testing against an RFC 7231 negotiation oracle")
prop("P05", "Errors the proxy reports are well-formed JSON with the right status",
 "Whenever the proxy answers itself (404 unmatched, 400 unsupported method, 413 oversized, 401 unauthorised, 503 unmappable, 502 bad gateway) or replaces an upstream 4xx, the client gets that status with a JSON body whose Code equals it, a non-empty Message, the server id and version of the Server header, Content-Type application/json, X-Request-Id, and a Content-Encoding that truthfully describes the bytes and that the client accepts. Requests refused by the proxy never reach upstream, and upstream 4xx statuses are passed on as they are.",
 ["inputs", "configurations", "fault_sequences"], "all error classes crossed with methods, Accept-Encoding values, upstream statuses, faults and bodies",
 "Existing tests check single error responses with one client; the class by encoding by method product is not covered.",
 ["responses.go", "proxyhandler.go", "proxy.go"], [("sendStatusCodeAsJSON and statusCodeResponse", "responses.go"), ("processUpstreamResponse", "proxyhandler.go")],
 ["complete error response read by a raw client", "upstream call count"],
 "Randomised over error classes; every response fully parsed and compared.", "property testing with a response-shape oracle")
prop("P06", "Retries: only repeatable methods, at most maxAttempts, never after success",
 "A request is sent upstream at most maxAttempts times and is repeated only when the previous attempt failed (connection error, unreadable response or 5xx) and the method is GET, HEAD, OPTIONS, TRACE, PUT or DELETE; a POST is sent at most once. All attempts carry the same request to the same upstream, the first attempt that yields a non-5xx response decides the answer, which is that response alone, and when no attempt does the client gets 502.",
 ["fault_sequences", "inputs"], "all sequences of upstream outcomes (statuses, closes, garbage, truncated bodies) up to length 8, methods and maxAttempts 1..7",
 "Tests cover single hand-written failure sequences; the number and content of attempts for arbitrary sequences are not checked.",
 ["proxyhandler.go", "proxy.go"], [("shouldRetryUpstreamAttempt, nextAttempt, isRepeatable", "proxy.go"), ("handle recursion", "proxyhandler.go")],
 ["requests recorded by the upstream", "response read by the client"],
 "Randomised fault sequences against a retry model, " + SRV + ".", "model-based testing with generated fault sequences")
prop("P07", "Upstream and round-trip timeouts fire on time and nothing outlives them",
 "An upstream attempt that has not delivered its complete response (headers and body) within the upstream read timeout is abandoned and retried if allowed, and no exchange lasts longer than the downstream round-trip timeout: after it no further attempt is started and the client gets 504 (so a request whose body is still being read when the round trip ends is answered 504 and never forwarded). Responses complete in time are never turned into timeouts, and the answer comes as soon as its outcome is decided.",
 ["schedules", "fault_sequences", "configurations"], "all timings of upstream headers, body chunks and faults relative to generated timeouts, with overlapping requests",
 "Tests wait for one or two real-time timeouts against a mock server; timing relations between attempts, chunks and both timeouts cannot be sampled that way.",
 ["proxyhandler.go", "proxy.go"], [("context cancelled by a timer per attempt", "proxyhandler.go scaffoldUpstreamRequest"), ("Dwn.Aborted timer per request", "proxy.go initXRequestInfo/parseIncoming")],
 ["status and completion time of each exchange, start time of each attempt, on a simulated clock"],
 "Randomised schedules on a simulated clock (testing/synctest) through the package's HTTP client seam, compared with a timeline model within 25 ms; the transport itself is simulated here.", "model-based schedule exploration on a simulated clock")
prop("P08", "A late upstream attempt never affects the response of another attempt",
 "When an attempt has timed out and is retried, whatever the abandoned attempt still delivers later (headers, body, error) never shows in what the client receives: status, headers and body all come from the one attempt that decided the exchange, and the client's answer is neither delayed nor duplicated.",
 ["schedules", "fault_sequences"], "all relative timings of a cancelled attempt's late return and the attempts after it",
 "Needs an attempt returning in a window after its own cancellation; no test controls that.",
 ["proxyhandler.go", "proxy.go"], [("per-attempt state and abort flags", "proxy.go Atmpt, proxyhandler.go performUpstreamRequest/parseUpstreamResponse")],
 ["status, headers and body of the exchange on a simulated clock"],
 "Randomised schedules with upstream calls that return late after cancellation, on a simulated clock.", "schedule exploration with late-return fault injection")
prop("P09", "Concurrent requests never mix",
 "With any number of requests in flight at once, every client receives exactly the response produced for its own request and every upstream call carries exactly one client's request: no header, body, status or id of one exchange appears in another, and no memory is shared unsynchronised between exchanges.",
 ["schedules", "histories"], "all interleavings of parallel clients with keep-alive, retries, compressed and large bodies",
 "Existing tests are sequential apart from a smoke load test that looks only at status codes.",
 ["proxyhandler.go", "proxy.go", "httpclient.go"], [("one Proxy object per request", "proxyhandler.go proxyHandler")],
 ["bytes seen by each client and upstream", "race detector reports"],
 "Randomised parallel workloads on a race-detector build; schedules are those the machine produces.", "concurrent property testing with per-exchange oracle and race detector")
prop("P10", "Request bodies: the size limit is exact and cut-off bodies are never forwarded",
 "A request whose body is larger than maxBodyBytes (default 2 MiB) is answered 413 and never forwarded, however it is framed; a body of at most maxBodyBytes is forwarded completely. A request whose body breaks off or is malformed is never forwarded, neither truncated nor in part.",
 ["inputs", "fault_sequences", "configurations"], "all body sizes around the limit, framings, chunk sizes, limits and cut-off points",
 "Tests use one body per framing far from the limit, and no broken bodies.",
 ["proxy.go", "proxyhandler.go"], [("parseRequestBody with MaxBytesReader", "proxy.go"), ("validate", "proxyhandler.go")],
 ["upstream calls and client status"],
 "Randomised sizes on and around the limit and cut points.", "boundary-focused property testing with fault injection")
prop("P11", "Only requests with a validly signed token pass a JWT route",
 "On a route with a jwt section, a request is forwarded only if its Authorization header carries a bearer token whose signature verifies with the section's configured key (or one of its JWKS keys) under the section's configured algorithm; every other request (no token, wrong or foreign key, other algorithm, alg none, key confusion, tampered or malformed token) gets 401 and reaches no upstream. Honestly signed tokens within their validity are forwarded, and routes without jwt are unaffected.",
 ["inputs", "configurations"], "all algorithms, key sources, carriers and token manipulations",
 "Tests check a few fixed tokens per algorithm; soundness quantifies over every forged token.",
 ["jwt.go", "proxy.go", "proxyhandler.go"], [("validateJwt / verifyJwtSignature", "proxy.go"), ("key loading", "jwt.go")],
 ["401 or forwarded", "upstream call count"],
 "Randomised tokens signed and tampered with by an independent implementation (Go standard library), against the running binary.", "adversarial property testing with an independent token signer")
prop("P12", "Token dates are honoured within acceptableSkewSeconds",
 "A token is refused from acceptableSkewSeconds after its exp on, refused until acceptableSkewSeconds before its nbf and its iat, and accepted in between; the skew defaults to 120 seconds, applies whatever its size and form (number or string), and decisions depend on the time of the request only, however often the token has been used before.",
 ["inputs", "histories", "configurations"], "all combinations of exp, nbf, iat, skew and time of use, including repeated use of a token over time",
 "Tests check single fixed offsets at the wall-clock time of the test run.",
 ["jwt.go", "proxy.go"], [("verifyDateClaims", "proxy.go"), ("acceptableSkewSeconds", "jwt.go")],
 ["accept/reject at instants of a simulated clock"],
 "Randomised claims on a simulated clock against the RFC 7519 rules extended by skew.", "model-based property testing on a simulated clock")
prop("P13", "JWKS keys rotate without outage and never let unpublished keys in",
 "A jwt section with a JWKS endpoint starts with the published keys and fetches them again when a token names an unknown key id, at most once in 10 seconds however many tokens arrive; after a successful fetch tokens signed with the newly published keys are accepted, a key reissued under the same id replaces the old one, keys without an id are kept next to the others, and tokens signed by keys never published are always refused. A failing, slow, hanging or garbage endpoint never removes the keys held, never crashes the proxy and never blocks requests from being answered or later refreshes from happening.",
 ["histories", "fault_sequences", "schedules"], "all histories of publications, failures, delays and signed requests over time",
 "Rotation needs a sequence of publications and requests in time; tests load a key set once.",
 ["jwt.go", "proxy.go"], [("LoadJwks with 10 s guard", "jwt.go"), ("triggerKeyRotationCheck on unknown kid", "proxy.go")],
 ["accept/reject and JWKS fetches on a simulated clock", "race detector"],
 "Randomised rotation histories on a simulated clock, race-detector build; withdrawn keys are not judged.", "stateful model-based testing on a simulated clock")
prop("P15", "One X-Request-Id identifies an exchange end to end",
 "Every response a handler sends carries exactly one X-Request-Id; it is the client's when the request had a non-empty one and otherwise freshly minted and unique, across restarts of the proxy too, and every upstream attempt of that exchange carries the same value, whatever the upstream itself answers. This holds for errors, unauthorised requests and the about resource as well.",
 ["inputs", "histories", "schedules"], "all request ids given or missing, routes, retries and upstream-set ids, concurrently",
 "Tests check one or two single requests.",
 ["proxy.go", "responses.go"], [("createXRequestID / initXRequestInfo", "proxy.go"), ("writeStandardResponseHeaders", "proxy.go")],
 ["response header and every upstream request header"],
 "Randomised concurrent exchanges over all answer paths.", "property testing with uniqueness and equality oracle")
prop("P22", "No request can crash the proxy or a handler",
 "Whatever bytes clients send (malformed requests, broken framing, odd headers, malformed tokens), the process stays up, no handler panics, and well-formed requests sent afterwards are served normally.",
 ["inputs"], "all byte sequences on client connections",
 "Crash freedom quantifies over all inputs; tests send well-formed requests.",
 ["proxyhandler.go", "proxy.go", "server.go", "jwt.go"], [("net/http server and defensive parsing", "server.go, proxy.go")],
 ["process liveness, panic messages, follow-up requests"],
 "Grammar-based and byte-mutation fuzzing of the running binary.", "structured fuzzing with liveness oracle")
prop("P23", "The about resource reports the proxy truthfully",
 "A GET (or any supported method) on a route to the about resource is answered by the proxy itself with 200 and a JSON document carrying version, server id and request id consistent with the response headers and the environment, encoded as the client accepts, and never calls an upstream; longer routes below it lead where they say, and unsupported methods are refused there as elsewhere.",
 ["inputs", "configurations"], "all about paths, versions, hosts, methods and Accept-Encoding values",
 "Tests check one plain GET.",
 ["responses.go", "server.go"], [("aboutHandler / aboutResponse", "responses.go")],
 ["about document and headers"],
 "Randomised; every document decoded and compared with headers and environment.", "property testing with cross-consistency oracle")
prop("P26", "Unsupported methods are refused, supported ones forwarded as they are",
 "A request whose method, read ignoring case, is not one of GET, HEAD, OPTIONS, TRACE, PUT, DELETE or POST is answered 400 and never reaches an upstream; requests with those methods are forwarded with that same method in capital letters, whatever method-override headers they carry. (CONNECT is outside this property.)",
 ["inputs"], "all method tokens, with and without body",
 "Tests check two or three methods.",
 ["proxy.go", "proxyhandler.go"], [("hasLegalHTTPMethod", "proxy.go")],
 ["status and upstream method"],
 "Randomised method tokens including near misses.", "property testing with generated method tokens")
prop("P14", "Policies split traffic over labels by their weights",
 "A route with a policy sends each request to a mapping whose label was drawn with the configured weight: over many requests the share of each label follows its weight, consecutive choices are independent, labels of weight 0 are never chosen, and a request whose drawn label has no mapping is answered 503 and never sent elsewhere. Routes without policy use the first mapping of their resource. The split does not depend on other traffic, parallelism or errors, all attempts of one request go to one mapping, and resolving a policy never changes it.",
 ["configurations", "histories", "schedules"], "all policies with weights summing to at most 1, resources with any labelling, and interleavings of requests, errors and about requests",
 "Tests resolve single fixed policies; the distribution under concurrency and mixed traffic is a statement about histories.",
 ["policy.go", "route.go"], [("resolveLabel draws over cumulative weights", "policy.go"), ("mapURL", "route.go")],
 ["upstream reached by each request", "label counts of a shared policy"],
 "Randomised; label shares judged by a Chernoff bound with alarm probability below 1e-13; race-detector build.", "statistical property testing with exact tail bounds")
prop("P16", "The configuration in effect is the one written, with documented defaults",
 "Every setting given in the configuration takes effect as written in any YAML or JSON spelling, and every setting left out or 0 takes its documented default (read 120 s, round trip 240 s, idle 120 s, 2 MB bodies, port 8080 or 443 in TLS mode, upstream socket 3 s, read 120 s, idle 120 s, pool 32768, 1 attempt). Resource schemes are normalised to http or https, and the policy named default exists even when none is configured by that name. The -c file wins over J8ACFG_YML, which wins over ./j8acfg.yml.",
 ["configurations"], "all combinations of present, absent and zero settings, spellings and configuration sources",
 "Tests check single settings one at a time and never the combination of sources in the real binary.",
 ["config.go", "server.go", "connection.go"], [("setDefaultUpstreamParams, setDefaultDownstreamParams, reApplyResourceSchemes, addDefaultPolicy", "config.go"), ("load", "config.go")],
 ["effective configuration of the startup pipeline", "routing of the booted binary"],
 "Randomised documents; field by field comparison with a table of documented values.", "differential property testing against a configuration model")
prop("P17", "A broken configuration is refused at startup",
 "When the configuration is unparseable, has a value of the wrong type or no routes, refers to a jwt that is not configured, has an illegal route path, transform, jwt algorithm, key, JWKS or skew, a downstream mode other than HTTP and TLS, or names a port, certificate, key or certificate chain that cannot work, the process ends with a non-zero exit code and never accepts a connection; the same configuration without the flaw starts.",
 ["configurations", "inputs"], "all valid configurations with one of 43 kinds of flaw, by file, environment or default file",
 "Tests cover single flaws in single functions; that the process as a whole refuses every flaw is a statement over all configurations.",
 ["config.go", "jwt.go", "server.go", "tls.go"], [("validateRoutes, compileRoutePaths, compileRouteTransforms, validateJwt, load", "config.go"), ("Validate", "jwt.go"), ("tlsConfig, checkCertChain", "server.go, tls.go")],
 ["exit code and listening socket of the real binary"],
 "Randomised configurations by flaw kind, each with a control without the flaw.", "metamorphic property testing (with and without one flaw)")
prop("P18", "TLS mode terminates TLS strictly, speaks HTTP/2 and always says HSTS",
 "In TLS mode the listener speaks only TLS 1.2 and 1.3 with the configured chain (TLS 1.2 only with the documented ECDHE GCM suites), negotiates h2 or http/1.1 by ALPN, answers over HTTP/2 as over HTTP/1.1, and puts exactly one Strict-Transport-Security: max-age=31536000 on every answer, errors and about included; no plaintext or failed handshake reaches a handler or disturbs other clients. In HTTP mode no answer carries the header unless the upstream sent it.",
 ["inputs", "configurations", "schedules"], "all requests over h2, http/1.1 and resumed sessions, all client hellos and raw bytes on the TLS port",
 "Tests do one TLS GET with a default client.",
 ["server.go", "responses.go", "proxyhandler.go", "proxy.go"], [("tlsConfig and startListening", "server.go"), ("writeStandardResponseHeaders", "proxyhandler.go")],
 ["negotiated connection state, answers, upstream requests"],
 "Randomised; handshakes compared with a policy table, answers with the exchange model.", "model-based property testing over generated client hellos and requests")
prop("P19", "The daily certificate check reports every certificate truthfully",
 "In TLS mode the configured chain is checked at startup and once every 24 hours: each check logs exactly one report naming every certificate of the chain once with its serial, names, issuer, issue date and the true time it has left. The report is a warning when the certificate expiring first has less than 30 days left, or when the chain is no longer valid (the log then says so), and a debug line otherwise; the checks go on for as long as the process lives.",
 ["configurations", "histories"], "all chains of leaf, intermediates and root in any order with any validity windows, over weeks of simulated time",
 "Tests parse one fixed chain at one instant.",
 ["tls.go"], [("tlsHealthCheck, checkCertChain, logCertStats, parseTlsLinks", "tls.go")],
 ["log lines of the running health check under a simulated clock"],
 "Randomised chains and clocks (testing/synctest); log compared with a model computed from the certificates.", "model-based property testing under simulated time")
prop("P20", "The access log tells the truth about every exchange",
 "At LOGLEVEL INFO and below every request that reached a handler leaves exactly one access log line (at WARN only those answered above 399), a JSON object whose status, level, path, method, user agent, HTTP and TLS version, client address, content encoding, error message, attempt count, upstream URI, label and status match what client and upstream saw, and whose elapsed times are real. Upstream attempt lines appear at DEBUG only for requests with X-Request-Debug: true, at TRACE a line tells whether a token was accepted and which dates it claims, no line contains tokens' signatures or configured secrets, and failed TLS handshakes are logged with the client's address, IPv4 or IPv6.",
 ["inputs", "configurations", "schedules"], "all requests, outcomes, log levels, transports and client addresses, with interleaving",
 "Tests never read the log of a served request.",
 ["proxyhandler.go", "server.go", "iprex.go", "responses.go", "proxy.go", "logger.go"], [("logHandledDownstreamRoundtrip", "proxyhandler.go"), ("extractAddr", "iprex.go"), ("zerologAdapter", "server.go")],
 ["stderr of the running binary, line by line"],
 "Randomised; every field of every line compared with both ends of the exchange; race-detector build.", "model-based property testing of the log against the observed history")
prop("P21", "Memory growth is recorded and announced truthfully",
 "The history of memory samples always holds exactly the last 24 in order, in bounded memory; each logged growth rate is the ratio of a sample to the oldest one, marked high from a factor of 2, and exactly one log line announces an increase if and only if a rate is high and no sample is missing. In the running server the history starts filled with the first sample, is extended and judged every hour, and a debug line tells the process id, resident and virtual size and memory share about every minute, as they are then.",
 ["inputs", "histories"], "all sequences of samples, from empty, partial and full histories, and of memory sizes over the life of the process",
 "Tests use histories of two and four samples.",
 ["stats.go"], [("samples.append and samples.log", "stats.go"), ("logProcStats", "stats.go")],
 ["the history, its growth rates and the log after every sample"],
 "Randomised histories compared with a model after every step, and the samplers of the server over simulated days (testing/synctest) on a made up /proc.", "model-based stateful property testing")
prop("P24", "Gzip and Gunzip are exact under any concurrency and after bad input",
 "Whatever runs at the same time, and whatever corrupt input was seen before, Gzip returns a stream that decompresses to exactly its input, Gunzip restores exactly what any conforming compressor packed, and neither modifies its input or a result already handed out, or crashes.",
 ["inputs", "schedules", "histories"], "all bodies, gzip streams of all levels, members and header fields, and interleavings with corrupt input",
 "Tests round-trip one JSON string; pooled state only shows under concurrency and after bad input.",
 ["gzip.go"], [("zipPool and unzipPool", "gzip.go")],
 ["results of Gzip and Gunzip"],
 "Randomised; race-detector build.", "round-trip property testing under concurrency")
prop("P25", "Connecting to and reading from upstreams is bounded by its timeouts",
 "On real connections an upstream that does not accept, accepts and never completes the TLS handshake, or stalls before, in or after the response header or in the body costs each attempt its limit and no more (socketTimeoutSeconds to connect and to shake hands, readTimeoutSeconds for the whole response), all attempts together at most roundTripTimeoutSeconds; the client gets 502 when connecting failed and 504 when a read or round trip limit fired, or the response of a later attempt that answers, and the connections to stalled upstreams are hung up on.",
 ["inputs", "configurations", "schedules"], "all stall points, methods, attempt counts and combinations of the three limits, many at once",
 "Tests have no upstream that stalls at the socket level, and each combination takes real time.",
 ["httpclient.go", "proxyhandler.go", "proxy.go"], [("scaffoldHTTPClient", "httpclient.go"), ("performUpstreamRequest, parseUpstreamResponse", "proxyhandler.go")],
 ["status and time of answers, attempts and hang-ups seen upstream"],
 "Randomised in real time; lateness counts only when it happens twice.", "fault-injection property testing against a timing model")
prop("P27", "Upstream connections are pooled within bounds and never leak",
 "Idle upstream connections never exceed poolSize and are kept up to it, later requests reuse them, each is closed idleTimeoutSeconds after its last use and not before, and when clients are gone and the idle timeout has passed no socket is left, whatever the outcomes of the requests were (errors, faults, stalls, retries, clients that left).",
 ["histories", "configurations", "schedules"], "all pool sizes, idle timeouts, bursts and request outcomes",
 "Tests check that settings are copied into a struct, never a connection.",
 ["httpclient.go", "proxyhandler.go", "proxy.go"], [("scaffoldHTTPClient transport settings", "httpclient.go"), ("closing of upstream bodies and cancelling of attempts", "proxyhandler.go, proxy.go")],
 ["connections at the upstream and sockets of the process"],
 "Randomised in real time.", "stateful property testing with resource-count oracle")
prop("P28", "Upstream TLS is verified unless switched off",
 "A request goes to an https upstream only over TLS 1.2 or later with a certificate that chains to a trusted root, is in its validity period and matches the host, otherwise it is answered 502 and not one byte of it is sent; with tlsInsecureSkipVerify: true any certificate will do, and that setting never extends to key set URLs, which are always verified.",
 ["inputs", "configurations"], "all certificates, hosts, schemes and settings of tlsInsecureSkipVerify",
 "Tests use plain upstreams only.",
 ["httpclient.go", "jwt.go", "config.go"], [("TLSClientConfig", "httpclient.go"), ("LoadJwks", "jwt.go")],
 ["requests arriving at TLS upstreams with generated certificates"],
 "Randomised over 14 kinds of certificates.", "property testing with generated certificates and a verification table")
prop("P29", "Slow and idle clients are cut off on time, others are not",
 "A connection on which no request header, or no complete request, arrives within readTimeoutSeconds (a complete one also within roundTripTimeoutSeconds) is closed then, one idle after a response is closed after idleTimeoutSeconds, and one whose client does not take the response is cut off one second after roundTripTimeoutSeconds; none is closed earlier: requests sent in time with pauses are served, connections may be reused within the idle timeout, responses read within the round trip timeout are complete, and waiting for a slow upstream does not count as reading. A request never completed never reaches an upstream. Equally in HTTP and TLS mode.",
 ["inputs", "schedules", "configurations"], "all points at which a client can pause or stop, and all timeouts",
 "Tests send complete requests at once.",
 ["server.go", "proxy.go"], [("http.Server timeouts", "server.go")],
 ["time at which connections are closed, answers, upstream requests"],
 "Randomised in real time; lateness counts only when it happens twice.", "fault-injection property testing against a timing model")
prop("P30", "No upstream response breaks the proxy or another exchange",
 "Whatever bytes an upstream answers with (malformed or odd status lines, any status code, conflicting, repeated, oversized or invalid headers, bodies shorter or longer than declared, broken chunks or gzip, interim responses, garbage) and whether or not it closes, the client whose request caused it gets exactly one well-formed response of a final status 200 to 599 with the proxy's own Server and X-Request-Id headers, 502 and 504 as the JSON document that says so; it never gets bytes of another upstream response, no handler panics, at no log level, the process stays up and later requests are served normally.",
 ["inputs", "histories"], "all byte strings an upstream can send, and their order on pooled connections",
 "Tests use upstreams written with net/http, which cannot send malformed responses.",
 ["proxyhandler.go", "proxy.go", "gzip.go", "httpclient.go", "responses.go"], [("processUpstreamResponse, parseUpstreamResponse, shouldProxyUpstreamResponse", "proxyhandler.go"), ("copyUpstreamResponseHeaders, encodeUpstreamResponseBody", "proxy.go")],
 ["the response as read by the client, stderr of the process, responses to later requests"],
 "Randomised: a grammar of hostile responses with byte-level mutations.", "structure-aware fuzzing of the upstream side with protocol and isolation oracles")
prop("P31", "Requests on a connection are answered in order, one response each",
 "On a connection kept open a client gets, however its bytes are segmented and without waiting for answers, exactly one response per request, in the order of the requests, each the response to its own request (404, 401, 413, 400 and about included), and nothing else; what is inside a request or response body, even if it looks like a message, is never taken for one; each request is sent upstream at most as often as its method and maxAttempts allow, with exactly its own body, after the ones ahead of it, and none behind a response that announced closing the connection.",
 ["inputs", "histories", "schedules"], "all sequences of requests, framings, bodies and segmentations on a connection",
 "Tests send one request per connection or read each response before they send the next.",
 ["proxy.go", "proxyhandler.go", "responses.go", "server.go"], [("parseIncoming, setContentLengthHeader, pipeDownstreamResponse", "proxy.go"), ("sendStatusCodeAsJSON", "responses.go")],
 ["the byte stream of each client connection and the requests upstream"],
 "Randomised: pipelined histories with message-like bodies.", "stateful property testing of connection histories")
prop("P32", "Secrets stay out of the log and out of answers",
 "At no log level, and whatever the outcome of startup or of a request, does the log hold an HMAC secret or TLS private key of the configuration, a bearer token or any part of it, other credentials, header values such as cookies, or bodies of requests and upstream responses; no answer holds a secret of the configuration or credentials of a request, and error answers made by the proxy hold nothing of the headers of the upstream response they stand for.",
 ["inputs", "configurations"], "all configurations valid or broken, tokens honest, tampered or malformed, request outcomes and log levels",
 "Tests do not read the log; a secret leaks on one path, through an error message or at one level only.",
 ["proxy.go", "proxyhandler.go", "jwt.go", "config.go", "logger.go", "responses.go", "tls.go"], [("validateJwt, verifySignature", "proxy.go"), ("logging of attempts and round trips", "proxyhandler.go"), ("Jwt.Validate", "jwt.go"), ("load", "config.go")],
 ["stdout and stderr of the process, responses as read by clients"],
 "Randomised with unmistakable marks for every secret.", "property testing with taint marks over generated histories")
prop("P33", "Requests do not wait for each other",
 "However many requests or connections hang (upstreams that do not accept, never shake hands or stall at any point of their response, clients that stop in the header, body or TLS handshake or do not read their response, key set endpoints that do not answer while tokens name unknown keys), requests sent meanwhile, to the same or another resource or route, with and without tokens, about, and those the proxy refuses itself, are answered right and without delay, whatever poolSize is, in HTTP and TLS mode.",
 ["schedules", "histories", "configurations"], "all combinations of things that hang and requests sent meanwhile",
 "Tests send one request at a time; queueing behind a lock or a bounded pool shows only when others hang.",
 ["proxyhandler.go", "proxy.go", "httpclient.go", "jwt.go", "server.go"], [("scaffoldHTTPClient transport settings", "httpclient.go"), ("performUpstreamRequest", "proxyhandler.go"), ("triggerKeyRotationCheck, lock of Jwt", "proxy.go, jwt.go")],
 ["status and time of answers sent while others hang"],
 "Randomised in real time with hogs; lateness counts only when it happens twice.", "fault-injection property testing with a liveness bound")
prop("P34", "Outages of upstreams leave nothing behind",
 "Through any history of an upstream being well, refusing or resetting connections, not answering, hanging up, answering 503 or closing idle connections, alone or among others of a policy, each request is answered by the condition of its upstream at the time: 200 with the response the upstream as it is now gives to this very request when it is well, from the first request after it recovers on, and 502 or 504 while it is not; a POST is never sent twice.",
 ["histories", "schedules"], "all histories of upstream conditions and requests",
 "Tests use upstreams that stay as they are.",
 ["proxyhandler.go", "proxy.go", "httpclient.go", "route.go"], [("performUpstreamRequest, shouldRetryUpstreamAttempt", "proxyhandler.go, proxy.go"), ("scaffoldHTTPClient", "httpclient.go"), ("mapURL", "route.go")],
 ["answers against the condition of upstreams"],
 "Randomised histories of conditions.", "model-based stateful property testing with fault injection")
prop("P35", "A request is treated the same whichever way it comes in",
 "The same request under the same rules is answered with the same status, headers and body, and makes the same attempts at upstreams with the same method, target, headers and body, whether it comes over HTTP/1.1 or HTTP/2, in plain or over any accepted TLS version, on a new or a kept connection, alone or among others, in one piece or in several, with a length or in chunks, with an origin-form or an absolute target, at first or after other traffic, with debug logging asked for or not; and whichever spelling, order and source the configuration has, with defaults spelled out or left out and with unrelated routes, resources, policies and keys beside it, at every log level.",
 ["inputs", "configurations", "schedules"], "all requests, rule sets and pairs of ways to serve them",
 "Tests serve a request one way.",
 ["server.go", "proxyhandler.go", "proxy.go", "config.go", "route.go", "logger.go"], [("startListening, mapPathsToHandler, tlsConfig", "server.go"), ("parseIncoming, performUpstreamRequest, processUpstreamResponse", "proxy.go, proxyhandler.go"), ("load, compileRoutePaths, addDefaultPolicy, setDefaultDownstreamParams, setDefaultUpstreamParams", "config.go")],
 ["answers and upstream requests of the same request served two ways"],
 "Metamorphic relation between generated ways; randomised.", "metamorphic property-based testing")
#MORE#

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: harness code enters the package only through go's -overlay at build time", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                 "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]} for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]]}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    print(p["id"], p["title"])
