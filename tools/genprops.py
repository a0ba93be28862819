#!/usr/bin/env python3
# Source of truth for /verif/properties.jsonl (run: python3 tools/genprops.py)
import json,os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PAT="router/path/pattern.go";MAT="router/path/matcher.go";MC="router/path/matching_context.go";ENC="router/path/encode.go";RT="router/router.go";MUX="gofre.go"

p("C01","A wildcard path segment matches exactly the glob language, for any text",
  "A pattern segment containing '*' or '?' accepts a request segment exactly when the whole request segment can be obtained by replacing every '?' with one byte and every '*' with any (possibly empty) run of bytes, comparing the remaining bytes exactly (or ignoring ASCII case on a case-insensitive router). The decision is made for every pair of texts: it never panics and never loops.",
  ["inputs"],"all pattern segments and all request segments of any length, both case modes",
  "The table tests fix a few dozen pairs; backtracking over '*' goes wrong only for particular overlaps between the text after a star and the request segment.",
  [PAT],[("regexSegmentMatch",PAT)],observe=["which handler answers a request to a route with a wildcard segment"])
p("C02","Request paths are split into the right segments, or not routed at all",
  "For every request path beginning with '/', the segments used for routing are the non-empty parts between slashes, where a '..' part removes the previous remaining segment (and is ignored at the root). A path in which at some point more than the supported number of segments (19) remain is answered as not found, never routed to some other route, and no path of any length or content makes the router panic or read a segment of the wrong text.",
  ["inputs"],"all URL paths, any length, any number of segments, any placement of '..' and empty parts",
  "Tests list a few short paths; the bounds (19 segments, the width of stored offsets) and the interplay of '..' with the limit need paths no test contains.",
  [MC,RT],[("ParseURLPath",MC),("Router.ServeHTTP",RT)])
p("C03","Route patterns are validated and classified as documented",
  "A route pattern is accepted exactly when it starts with '/', has no empty inner segment, has well-formed capture segments with non-empty names and constraints that compile, no mix of '**' with other characters in a segment, no two adjacent '**' segments and no more segments than a request may have. An accepted pattern keeps its segments in order, each with the documented kind (literal, capture, constrained capture, wildcard, single-segment, multi-segment), name and constraint; a rejected one registers nothing.",
  ["inputs"],"all pattern strings, both case modes",
  "Tests enumerate a handful of good and bad patterns; acceptance must agree with the documented grammar on every string.",
  [PAT],[("ParsePattern",PAT),("validatePathSegment",PAT),("determineMatchTypeForSegment",PAT)])
p("C04","A request is only ever given to a route whose pattern matches its path",
  "Whenever a request is answered by a registered route, that route's pattern matches the request path segment by segment: literals equal (case-insensitively if so configured), constraints satisfied, wildcards matched, '*' and captures consuming exactly one segment, a '**' at the end of the pattern one or more, a '**' elsewhere any number. On a case-insensitive router literals are compared by Unicode case folding. This holds whatever other routes are registered.",
  ["inputs","configurations"],"all sets of registered patterns, all request paths, both case modes",
  "Trie tests check some fixed route tables; a wrong acceptance needs a particular shape of overlapping routes and a path that triggers backtracking.",
  [MAT,PAT],[("Matcher.Match",MAT),("segment.matchUrlPathSegment",PAT)])
p("C05","A request that some registered route matches is never answered as not found",
  "If at least one registered route for the request's method has a pattern matching the request path, the router selects a route; it never reports no match. This holds whatever other routes are registered and in whatever order.",
  ["inputs","configurations"],"all sets of registered patterns, all request paths",
  "Missed matches appear only when an overlapping, more specific branch dead-ends after consuming part of the path; tests cover a few tables.",
  [MAT],[("Matcher.Match",MAT)])
p("C06","The most specific matching route wins, regardless of registration order",
  "Among the registered routes matching a request path, the one selected is the most specific: at the first point, walking the request from the left, where the matching routes part, a literal goes before a constrained capture, before a capture, before a wildcard text, before '*', before '**'; where the routes part at two different wildcard texts, or two different constraints, that both accept the segment, the one with the more specific route goes first (the kinds of the whole patterns compared from the left, a '**' standing for as many '**' as the pattern can still be extended by), and either may win when those are equal. The selection is the same for every order in which the same routes are registered.",
  ["inputs","configurations"],"all sets of patterns, all their permutations, all request paths",
  "Tests use a few hand-picked tables and orders; order dependence appears only for particular prefixes shared between routes.",
  [MAT,ENC],[("Matcher.AddPattern sibling order",MAT),("computePriority",ENC),("Matcher.Match",MAT)])
p("C07","Path variables return the request segment captured by that variable",
  "After a request was routed, asking for a capture variable of the matched pattern returns exactly the text of the request segment aligned with that capture (with '..' and empty parts already resolved; where several alignments exist, the one in which each '**' takes the fewest segments, from the left), also when '**' precedes it or backtracking occurred. Asking for any other name returns the empty string, and no request makes the lookup panic.",
  ["inputs","configurations"],"all patterns with captures, all matched paths, all variable names",
  "Tests read variables for simple paths; misalignment needs '**' or abandoned branches before the capture.",
  [MC,MAT],[("MatchingContext.PathVar",MC),("Matcher.Match segment kinds",MAT)])
p("C08","Equivalent routes are refused, different routes are all accepted",
  "Registering, for the same method, two patterns that have the same kind in every position and the same literal, wildcard text or constraint in every position that has one (capture names do not matter) is refused, and the first registration stays in force. Registering patterns that differ in any such position is accepted.",
  ["inputs","configurations"],"all pairs of patterns and all tables they are added to, both case modes",
  "Tests try a few duplicates; the constrained-capture and shared-prefix cases are not covered.",
  [MAT,RT],[("Matcher.AddPattern",MAT),("Router.Handle",RT)])
p("C09","Dispatch: right method, one handler call, 404 and 500 as documented",
  "A request runs at most one registered handler, exactly once, and only one registered for the request's method; when none matches, the response is 404 and no handler runs. When the handler returns an error, the error is reported once to the configured error log and the response status is 500; when it returns a response, exactly that response is written once, and a write failure is reported to the error log.",
  ["inputs","fault_sequences"],"all methods, paths, handler outcomes and write outcomes",
  "Tests exercise single routes with fixed outcomes; the combination of method, match, handler failure and write failure is not enumerated.",
  [RT],[("Router.ServeHTTP",RT),("Router.Handle",RT)])
p("C10","Serving a request leaves routing state as it was",
  "Serving any request does not change the registered routes and leaves no trace of its path in what later requests see: every request is routed from clean per-request state. A sequence of requests therefore gets the same routing decisions as each request would get alone.",
  ["histories","inputs"],"all route tables and all sequences of requests",
  "Tests issue isolated requests; leaks through pooled buffers or a modified trie show up only across requests.",
  [RT,MAT,MC],[("urlPathSegmentsPool reset",RT),("Matcher.Match is read-only",MAT)])
p("C11","A cloned matching context is an independent, equal copy",
  "A clone of a request's matching context answers every path-variable lookup as the original did at the time of cloning. Nothing done afterwards to the original, including its reuse for another request, changes the clone.",
  ["inputs","histories"],"all matching contexts and all later modifications of the original",
  "One test compares fields of one context; independence under later mutation is not tested.",
  [MC],[("MatchingContext.Clone",MC)])
p("C12","Middlewares wrap a handler in registration order, each exactly once",
  "For every list of common and per-handler middlewares, a registered handler runs inside the per-handler middlewares, which run inside the common middlewares registered before it, in the order given (first registered is outermost), each applied exactly once; nil middlewares are skipped. Common middlewares added after a handler was registered do not apply to it.",
  ["configurations"],"all lists of middlewares of any length, with nil entries anywhere, and any interleaving of registrations",
  "Tests use two or three middlewares; the order must hold for every list.",
  [MUX],[("wrapMiddleware",MUX),("MuxHandler.HandleRequest",MUX),("MuxHandler.CommonMiddlewares",MUX)])
p("C13","Cloned and prefixed sub-routers do not share later middlewares",
  "A mux obtained by cloning or by routing under a non-empty path prefix starts with the middlewares its parent has at that moment; middlewares added later to either one never apply to the other. Handlers registered through any of them are served by the same router, and routing under a prefix never changes the parent's own prefix.",
  ["histories","configurations"],"all sequences of clone, prefix and middleware registrations",
  "Slice aliasing between parent and child depends on capacity, hence on the number of middlewares registered before; tests use one size.",
  [MUX],[("MuxHandler.Clone",MUX),("MuxHandler.RouteUsingPathPrefix",MUX)])
p("C14","Path prefixes are joined with exactly one slash",
  "A handler registered with path p on a mux whose prefix is x is served at x joined with p by exactly one '/' between them when both are non-empty, and at the one that is non-empty otherwise; nested prefixes join in nesting order. No prefix or path makes registration read out of bounds.",
  ["inputs","configurations"],"all prefix and path strings and all nestings",
  "Tests list a few combinations of leading and trailing slashes.",
  [MUX],[("MuxHandler.resolvePath",MUX),("MuxHandler.RouteUsingPathPrefix",MUX)])
p("C15","OAuth initiation redirects only to a configured provider with a stored state",
  "The initiation endpoint redirects the client only to a configured provider: the only one, or the one named in the request when several are configured; otherwise it fails with a bad-request error and stores nothing. When a cache is configured, the state carried by the redirect was stored in it first (a store failure is an error and no redirect), and the redirect names this site's authorization endpoint for that provider.",
  ["inputs","configurations","fault_sequences"],"all provider lists, request parameters, cache outcomes and prefixes",
  "Tests cover one or two providers with a working cache.",
  [MUX,"auth/oauth/oauth2.go"],[("HandleOAUTH2WithCustomPaths initiate handler",MUX),("Config.GetProviderByName",'auth/oauth/oauth2.go')])
p("C16","OAuth authorization runs the application handler only after a valid exchange",
  "The authorization endpoint calls the application handler only if the provider is configured, the request carries no provider error, the state is present in the configured cache, and fetching the access token (and the user, when requested) succeeded; the handler then finds exactly that token (and that user as security principal) in its context. In every other case the handler does not run, an error results, and without a valid state no code is sent to the provider.",
  ["inputs","configurations","fault_sequences"],"all providers, request parameters, cache contents and provider outcomes",
  "Tests cover the success path and single failures with stub providers.",
  [MUX],[("HandleOAUTH2WithCustomPaths authorize handler",MUX)])
p("C17","A malformed provider answer yields an error, never a panic or an empty login",
  "Whatever status and JSON object a provider's token or user endpoint returns, the built-in providers either return an access token / user taken from the documented fields of a 2xx answer or return an error; they never panic. A 2xx answer without a non-empty textual token, or without a non-empty textual identity, is an error.",
  ["inputs","fault_sequences"],"all HTTP statuses and all decoded JSON objects",
  "Tests feed well-formed answers; field absence and wrong JSON types are not enumerated.",
  ["auth/oauth/google.go","auth/oauth/github.go"],[("GoogleProvider.FetchAccessToken / FetchAuthenticatedUser","auth/oauth/google.go"),("GitHubProvider.FetchAccessToken / FetchAuthenticatedUser","auth/oauth/github.go")])
p("C18","The provider login URL carries the right parameters and all requested scopes",
  "The login URL built by a provider carries the configured client id, the given redirect URI and the given state, and a scope parameter consisting of the configured scopes followed by the user-information scopes when user details are requested. Building it never modifies the provider configuration or any slice shared with it.",
  ["inputs","configurations"],"all provider configurations, redirect URIs, states and flags",
  "Tests compare a few fixed URLs; writing through a shared scopes slice depends on spare capacity.",
  ["auth/oauth/google.go","auth/oauth/github.go"],[("InitiateUrl","auth/oauth/google.go"),("InitiateUrl","auth/oauth/github.go")])
p("C19","A permission implies another exactly by scope specificity and access bits",
  "Permission p implies permission q exactly when every access bit of q is in p, q's scope has at least as many levels as p's, and every level of q is equal to the corresponding level of p or p's level is '*', where p's last level also stands for all deeper levels of q. This holds for all scopes and access values, with no panic.",
  ["inputs"],"all pairs of permissions",
  "Tests sample scopes with fixed access; the definition must hold for every pair of scope strings and bit sets.",
  ["auth/auth.go"],[("Permission.Implies","auth/auth.go")])
p("C20","RBAC: denial beats allowance in a role; groups and users take the union",
  "A role grants a permission exactly when some allowed permission implies it and no denied permission does; a group grants what some of its roles grants, and a user what some of its groups grants. A user or group has a role exactly when some contained role has that name.",
  ["inputs","configurations"],"all role, group and user structures and all requested permissions",
  "Tests use small fixed structures.",
  ["auth/auth.go"],[("Role.HasPermission","auth/auth.go"),("Group.HasPermission/HasRole","auth/auth.go"),("User.HasPermission/HasRole","auth/auth.go")])
p("C21","Permissions survive a format/parse round trip; over-deep scopes are refused",
  "Parsing the textual form of any permission whose scope has at most three levels gives back the same scope and access. Creating or parsing a permission with more than three levels, or parsing text without a valid access number after the last ':', fails and yields no permission.",
  ["inputs"],"all scopes and access values; all texts",
  "Tests parse a few strings; round trip must hold for every scope, including ones containing ':'.",
  ["auth/auth.go"],[("ParsePermission","auth/auth.go"),("NewPermission","auth/auth.go"),("Permission.String","auth/auth.go")])
p("C22","Authorization admits a request only with the required permissions",
  "Behind the authorization middleware the handler runs exactly when the supplier succeeds, a security principal is in the context, and it holds all required permissions (all mode) or at least one of them (any mode); it then runs once with the same context and its result is returned unchanged. In every other case the handler does not run and the supplier's error or the unauthorized error is returned.",
  ["inputs","configurations"],"all permission lists, principals and modes",
  "Tests use one or two permissions; lists of any length and empty lists must behave the same.",
  ["middleware/authz.go","auth/auth.go"],[("Authorize","middleware/authz.go"),("GetSecurityPrincipalFromContext","auth/auth.go")])
p("C23","The principal supplier passes exactly the supplied principal on",
  "The principal-supplying middleware runs the handler once with a context in which the security principal is exactly the supplied one (all other context values unchanged), or with the unchanged context when none is supplied. If the supplier fails, its error is returned and the handler does not run.",
  ["inputs","fault_sequences"],"all suppliers, contexts and handler outcomes",
  "Tests cover a fixed principal.",
  ["middleware/auth.go","auth/auth.go"],[("SecurityPrincipalSupplier","middleware/auth.go")])
p("C24","CSRF: state-changing requests need a live token, which is consumed",
  "A request whose method is not GET, HEAD, TRACE or OPTIONS reaches the handler only if it carries, in the configured header or else form field, a non-empty token that the cache contains, and that token is removed before the handler runs, so in any sequence of requests a token admits at most one. Every request reaching the handler has a fresh token that was stored in the cache and is visible in its context; otherwise access is denied and the handler does not run.",
  ["inputs","histories","configurations"],"all methods, headers, forms, cache contents and request sequences",
  "Tests try a few methods and tokens; the gate must hold for every method string and token.",
  ["middleware/csrf.go"],[("CSRFPreventionWithCustomParamAndHeaderName","middleware/csrf.go")])
p("C25","CSRF tokens encode their 128 random bits without loss",
  "A generated token is 32 upper-case hexadecimal digits that spell the 16 bytes obtained from the system's cryptographic random source, high digit first, so different random bytes always give different tokens. If the random source fails, no token is issued.",
  ["inputs","fault_sequences"],"all 2^128 random values and source failures",
  "Tests cannot drive the random source through its values.",
  ["middleware/csrf.go"],[("generateNonce","middleware/csrf.go")])
p("C26","CORS: cross-origin requests succeed only when origin, method and headers allow",
  "Behind the CORS middleware a cross-origin request gets the handler's response only if its origin is allowed, its method is allowed, and for a preflight the requested method and every requested header are allowed; a malformed origin or malformed request kind is refused. Same-origin requests and requests without an Origin header are passed through, and every refusal is an access-denied error that carries no response.",
  ["inputs","configurations"],"all requests (method, origin, URL, content type, request headers) and all configurations",
  "Tests enumerate a moderate table; the decision combines seven request attributes with five configuration lists.",
  ["middleware/cors.go"],[("Cors","middleware/cors.go"),("getRequestType","middleware/cors.go"),("isOriginAllowed","middleware/cors.go")])
p("C27","CORS response headers follow the configuration",
  "On a response passed by the CORS middleware, Access-Control-Allow-Origin is '*' exactly when any origin is allowed and otherwise equals the request's origin, in which case Vary lists Origin without losing earlier Vary entries; the credentials, exposed-headers, max-age, allowed-methods and allowed-headers headers appear exactly when configured (the last three only for OPTIONS). No other header of the response is changed.",
  ["inputs","configurations"],"all configurations, requests and pre-existing response headers",
  "Tests compare some header maps for fixed configurations.",
  ["middleware/cors.go"],[("addStandardCorsHeaders","middleware/cors.go"),("addVaryHeader","middleware/cors.go")])
p("C28","Security headers are set exactly as configured; configuration is never written",
  "For every configuration and request, the response passed by the security-headers middleware carries exactly the enabled headers with the configured values (transport security only on secure requests), other headers untouched, for every kind of response the framework offers. Handling a request never writes the configuration shared between requests.",
  ["inputs","configurations","histories"],"all configurations, requests, response kinds and request sequences",
  "Tests check single requests and one response kind; a write to shared configuration is invisible to them.",
  ["middleware/security.go","response/hijack.go"],[("SecurityHeaders","middleware/security.go"),("getHeaderValue","middleware/security.go"),("getAntiClickJackingHeaderValue","middleware/security.go")])
p("C29","Errors become the documented HTTP status, successes pass through",
  "The error-response middleware turns a handler error into the supplied response for the status 400 (bad request), 404 (object not found), 401 (unauthorized request), 403 (wrong credentials or access denied) or 500 (anything else), passing that status and that error to the supplier exactly once, and returns no error. A successful response is returned unchanged and the supplier is not called.",
  ["inputs","fault_sequences"],"all errors and responses",
  "Tests check the named errors; the default and pass-through must hold for every error value.",
  ["middleware/errors.go","errors/errors.go"],[("ErrResponse","middleware/errors.go"),("Error2HttpStatusCode","middleware/errors.go")])
p("C30","A panicking handler becomes an error; a normal one is untouched",
  "Behind the recovery middleware no handler panic, whatever its value, escapes: the caller gets a non-nil error and no response. A handler that does not panic has its response and error returned unchanged.",
  ["inputs","fault_sequences"],"all panic values and all handler results",
  "Tests panic with one value.",
  ["middleware/panic.go"],[("PanicRecover","middleware/panic.go")])
p("C31","Dumping a request does not change how it is handled",
  "The dumping middleware calls the handler exactly once with the same context and request and returns its response or its error; on success it logs exactly one JSON document, on handler error none. It never panics on any request or response the framework can produce.",
  ["inputs","fault_sequences"],"all requests, responses, cookies and handler outcomes",
  "Tests dump one request.",
  ["middleware/dump.go"],[("RequestDumper","middleware/dump.go")])
p("C32","Compression is used only when accepted and never changes the content",
  "A compressed response, whose wrapped response does not itself announce a content encoding, announces gzip exactly when the client lists gzip (or compress), deflate exactly when it lists only deflate, and nothing otherwise; decompressing what was written with the announced encoding yields exactly the bytes the wrapped response wrote, with the same status, headers and cookies; the stream is completed when writing ends, also on error, and a flush by the wrapped response makes everything written so far decodable by the client. An unsupported compression level is refused.",
  ["inputs","configurations","fault_sequences"],"all Accept-Encoding values, levels, wrapped responses and write outcomes",
  "Tests decompress one body; negotiation must hold for every header value.",
  ["response/compress.go","middleware/compress.go"],[("HttpCompressResponse.Write","response/compress.go"),("getCompressionAlgorithmFromHeaderValue","response/compress.go")])
p("C33","Status, headers and cookies reach the client exactly as set",
  "Writing a response that is not a redirect, an adapted standard handler or a hijack (C37, C38) sends exactly one status line with the response's status (200 if unset), every header set on it with its value, one Set-Cookie line per valid cookie, the response's content type unless overridden, and X-Content-Type-Options nosniff unless overridden, all before the status is sent. A status outside 100..999 is an error and no status, header or cookie is sent.",
  ["inputs"],"all statuses, header maps, cookie sets and pre-existing headers",
  "Tests write a few responses; interference between the maps and defaults must be excluded for all.",
  ["response/headers.go","response/response.go"],[("HttpHeadersResponse.Write","response/headers.go")])
p("C34","Response bodies are written once, completely and after the headers",
  "Text, HTML, JSON, raw, stream and template responses write their status and headers first and then exactly their payload, once; when the headers cannot be written the body is not written, and a failing body write is reported as an error. A nil JSON payload is written as an empty object and an error payload carries the error's message as valid text.",
  ["inputs","fault_sequences"],"all payloads, statuses and write failures",
  "Tests write small ASCII payloads to a recorder that never fails.",
  ["response/text.go","response/json.go","response/raw.go","response/streaming.go","response/template.go","response/response.go"],[("Write methods","response/text.go"),("writeTextResponse","response/response.go"),("errorToString","response/json.go")])
p("C35","A server-sent event decodes to exactly the event that was encoded",
  "For every event with at least one data line, whose name, id and data lines contain no line breaks (and whose id has no NUL), its textual form, read by the event-stream rules, yields exactly one event with the same name, id and data lines in order, and the same retry when it is positive. An event with no field set is encoded as the empty string.",
  ["inputs"],"all events with any number of data lines",
  "Tests compare a few rendered events.",
  ["response/sse.go"],[("ServerSentEvent.String","response/sse.go")])
p("C36","An event stream sends the events in order, flushed, and stops on disconnect",
  "An event-stream response to an HTTP/2 request writes the generator's events in order, each exactly once and each flushed before the next is taken, until the generator ends, the client goes away or a write fails; nothing is written afterwards. The generator gets the request's context and last event id, and a request with another protocol version is refused with status 500 without running the generator.",
  ["inputs","histories","fault_sequences"],"all event sequences, disconnect points and write failures",
  "Tests stream a few events to a working recorder.",
  ["response/sse.go"],[("HttpSSEResponse.Write","response/sse.go")])
p("C37","Redirects carry the target, the status and everything set on the response",
  "Writing a redirect response sends the configured redirect status and the target location, together with every header and cookie that was set on the response (for example by middlewares).",
  ["inputs"],"all targets, redirect statuses, headers and cookies",
  "Tests check status and Location only.",
  ["response/redirect.go"],[("HttpRedirectResponse.Write","response/redirect.go")])
p("C38","Adapted handlers and hijack callbacks run exactly once, on the real connection",
  "A response adapting a standard HTTP handler applies the headers and cookies set on it and then calls that handler exactly once with the real writer and request. A hijacking response calls its callback exactly once, with the hijacked connection or with an error when hijacking is unsupported, and both accept headers and cookies from any middleware without failing.",
  ["inputs","configurations"],"all handlers, writers with and without hijack support, headers and cookies",
  "Tests call the adaptors directly and never combine a hijack with header-setting middlewares.",
  ["response/adaptor.go","response/hijack.go","handler/handler.go"],[("HttpHandlerAdaptorResponse.Write","response/adaptor.go"),("HttpHijackConnectionResponse.Write","response/hijack.go")])
p("C39","Nothing set on one response ever appears on another",
  "Header and cookie collections handed out by the framework are empty when handed out, whatever was stored in collections released earlier. After any sequence of responses, each written response therefore contains only its own headers and cookies, on success and on failure of the write.",
  ["histories","inputs","fault_sequences"],"all sequences of responses, contents and write outcomes",
  "A leak through the pools needs one response's contents to survive into another; tests write single responses.",
  ["response/response.go","response/headers.go"],[("Release/Clear and NewHttpHeaders/NewEmptyHttpCookie","response/response.go"),("HttpHeadersResponse.Write release",'response/headers.go')])
p("C40","Cookies are kept per name, path and domain; the last one set wins",
  "After adding any sequence of cookies to a response, for every combination of name, path and domain (none containing ':') exactly the last non-nil cookie added with that combination is kept, and cookies with different combinations never replace each other. Nil cookies are ignored.",
  ["inputs","histories"],"all sequences of cookies",
  "Tests add a couple of cookies.",
  ["response/response.go"],[("HttpCookies.Add","response/response.go")])
p("C41","The in-memory cache contains exactly the live keys",
  "After any sequence of additions and removals, the in-memory cache reports a key as present exactly when it was added, not removed since its last addition, and the time of its last addition plus the expiration has not been reached. Operations on one key never affect another.",
  ["histories","inputs"],"all operation sequences, keys, durations and clock readings",
  "Tests add and look up one key.",
  ["cache/cache.go"],[("InMemory.Add/Remove/Contains","cache/cache.go")])
p("C42","Convenience constructors build the response they are named after",
  "Each response constructor yields a response whose status, content type, payload, headers and cookies are exactly those it is named for or was given, so that what is written does not depend on which constructor of a family was used.",
  ["inputs"],"all constructor arguments",
  "Tests cover the constructors with one argument set each.",
  ["response/text.go","response/json.go","response/raw.go","response/streaming.go","response/template.go","response/redirect.go","response/sse.go","response/headers.go"],[("constructors","response/text.go")])
p("C43","Mux registration helpers register exactly the named method and path",
  "Each per-method registration helper registers the handler for exactly that HTTP method at the resolved path and nothing else, and the debug and asset endpoints are registered under GET only. Registering an invalid or duplicate route panics and leaves earlier routes working.",
  ["inputs","configurations"],"all methods, paths and registration sequences",
  "Tests check that a registered handler answers, not that nothing else does.",
  [MUX,RT],[("HandleGet/Post/Put/Patch/Delete",MUX),("Router.Handle",RT)])
# --- not decided by this family
p("C50","A CSRF token admits at most one of several concurrent requests",
  "When several requests carrying the same token are handled concurrently, at most one of them reaches the handler.",
  ["schedules"],"all interleavings of concurrent requests",
  "Needs interleavings between the membership test and the removal in the cache.",
  ["middleware/csrf.go","cache/cache.go"],[("check-then-remove on the nonce cache","middleware/csrf.go")])
p("C51","Concurrent requests never race on framework state",
  "Requests handled concurrently, with routes registered beforehand, perform no unsynchronised conflicting access to memory owned by the framework.",
  ["schedules"],"all interleavings of concurrent requests",
  "Races need interleavings; the tests are sequential.",
  [RT,"cache/cache.go","response/response.go"],[("sync.Pool hand-over",RT),("InMemory map","cache/cache.go")])
p("C52","CSRF tokens and OAuth states cannot be guessed",
  "An attacker who observes any number of issued CSRF tokens and OAuth states cannot predict another one with non-negligible probability.",
  ["histories"],"all sequences of issued values",
  "A statement about probability and secrecy.",
  ["middleware/csrf.go",MUX],[("generateNonce","middleware/csrf.go"),("generateUniqueId",MUX)])
p("C53","An event stream releases its resources when the client disconnects",
  "When the client of an event stream disconnects, the handling of the request eventually ends even if the generator produces no further event.",
  ["schedules","fault_sequences"],"all disconnect points and generator timings",
  "Liveness under concurrency; tests use finite generators.",
  ["response/sse.go"],[("HttpSSEResponse.Write loop","response/sse.go")])
p("C54","A static asset request never reads outside the assets directory",
  "Requests under the assets mapping path only ever return files inside the configured assets directory.",
  ["inputs"],"all request paths under the mapping",
  "Containment is implemented by the standard library's file server, on which the framework only prepends routing.",
  [MUX],[("NewMuxHandler assets route",MUX)])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
