"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'state': [{'name': n, 'meaning': m} for n, m in state],
            'observe_at': list(observe),
            'hook_needed': None,
        },
    })


prop(
    'C01', 'Concurrent requests to one application never influence each other',
    'When one application object (with its middleware and mounted sub-applications) serves requests from several threads, the very first requests after construction included, every request gets exactly the status, headers and body that a fresh application serving only that request would have produced. A handler sees only the path arguments, query, headers, cookies, negotiated binding and body of its own request, at every interleaving and whatever was served before. A request that was answered or aborted leaves nothing behind that changes a later answer.',
    ['schedules', 'histories', 'inputs'],
    'every interleaving of up to N concurrent requests (and every preceding sequence of requests) over one shared application, switched at any source line or bytecode of the library',
    'The tests drive every application from a single thread, one request at a time; none shares an application between threads, so the lazily sorted route table and every other piece of shared state is only ever seen sequentially.',
    ['verktyg/application.py', 'verktyg/routing.py', 'verktyg/dispatch.py', 'verktyg/exception_dispatch.py', 'verktyg/views.py', 'verktyg/requests.py', 'verktyg/wsgi.py', 'verktyg/accept/__init__.py'],
    [('lazy route sort on first match/build', 'verktyg/routing.py URLMap.update / MapAdapter.match / MapAdapter.build'),
     ('request dispatch', 'verktyg/application.py BaseApplication._get_response, _wsgi_inner'),
     ('representation selection over shared bindings', 'verktyg/dispatch.py Dispatcher.lookup, verktyg/accept/__init__.py select_representation'),
     ('mounting by rewriting the environ', 'verktyg/wsgi.py DispatcherMiddleware.__call__')],
    [('route table', 'sorted list shared by all requests, sorted lazily after additions'),
     ('bound adapter', 'one adapter object shared by all requests of an application')],
    ['response status/headers/body of each request', 'values echoed by the handler'])

prop(
    'C02', 'Route look-ups always agree with a freshly built URL map',
    'Routes may be added to a URL map at any point between look-ups, through adapters bound before or after: each later match, URL construction, endpoint query and route listing gives the answer that a map freshly built from the same routes in the same order gives, whatever look-ups came before and however several threads\' look-ups interleave. Route factories and templates (sub-mounts, subdomains, endpoint prefixes, templates) can be used for any number of maps without one map or use changing another. Look-ups, successful or failing, never change later answers, and an addition that fails part-way leaves the map answering like one built from the routes it did accept.',
    ['histories', 'schedules', 'inputs'],
    'every history of additions, matches, builds, tests, listings and endpoint queries over one map and its adapters, with look-ups of several threads interleaved at any point between two additions',
    'The routing tests build a complete map and then query it; at most one adds routes after a look-up, none does it repeatedly, concurrently or through several maps.',
    ['verktyg/routing.py'],
    [('deferred sort guarded by a dirty flag', 'verktyg/routing.py URLMap.add_routes, URLMap.update'),
     ('route binding / copying', 'verktyg/routing.py Route.bind, Route.empty, RouteFactory subclasses'),
     ('matching', 'verktyg/routing.py MapAdapter.match, Route.match'),
     ('building', 'verktyg/routing.py MapAdapter.build, Route.suitable_for, Route.build')],
    [('dirty flag', 'whether the table still has to be sorted'), ('per-endpoint index', 'routes by endpoint used to build URLs')],
    ['return values and raised exceptions of the public URLMap/MapAdapter methods'])

prop(
    'C03', 'Request bodies are delivered exactly, within bounds, or the failure shows',
    'Whatever sequence of reads an application performs on the request body (whole, sized, line-wise, iterated, exhausted or through the request object\'s data accessors), it receives the bytes the client sent, in order and without gaps or repeats, and never one byte beyond the declared content length. If the client disconnects or the transport fails before the declared length, the application gets the documented client-disconnected error (or what its overriding hook returns) rather than a silently shortened body. A request that declares no usable length has an empty body, unless the server marks the input as self-terminating. A request object created as shallow refuses to touch the body and leaves every byte of it for whoever reads it.',
    ['inputs', 'fault_sequences', 'histories'],
    'every body, declared length, sequence of read operations with any sizes, and every byte position and kind of transport failure, with further pipelined bytes behind the body',
    'The tests read a handful of fixed in-memory streams; no test mixes read operations, cuts the connection at each byte, or checks that the bytes of the next request are left on the wire.',
    ['verktyg/wsgi.py', 'verktyg/requests.py'],
    [('bounded stream', 'verktyg/wsgi.py LimitedStream'), ('input selection', 'verktyg/wsgi.py get_input_stream, get_content_length'),
     ('data access and caching', 'verktyg/requests.py BaseRequest.stream, get_data')],
    [('stream position', 'bytes delivered so far, compared with the limit')],
    ['bytes returned, exceptions raised, number of bytes taken from the transport'])

prop(
    'C04', 'Cleanup runs exactly once, whatever happens to the request',
    'For every request an application serves, each cleanup callback registered on the request or on the returned response, and the close method of the response\'s body iterable, runs exactly once when the server finishes the request: on normal completion, on client disconnect before or after any chunk, on HEAD and body-less statuses, when the handler, the body iterator or the server\'s response start raises, and when the body was buffered, frozen or replaced by another response on the way. Resources still in use are not released before the server is done with the body, and request cleanup happens even if response cleanup fails.',
    ['crash_points', 'fault_sequences', 'histories'],
    'every point at which the server stops iterating and every point at which application code raises, for every way of producing the response body',
    'The tests only check closing after full, successful iteration or a single close call; no test stops at each chunk, counts the calls, or makes a step fail.',
    ['verktyg/application.py', 'verktyg/responses.py', 'verktyg/requests.py', 'verktyg/wsgi.py'],
    [('request/response scopes around the generator', 'verktyg/application.py BaseApplication._wsgi_inner'),
     ('close chaining', 'verktyg/wsgi.py ClosingIterator, verktyg/responses.py BaseResponse.close, get_app_iter'),
     ('buffering keeps close', 'verktyg/responses.py BaseResponse.make_sequence, freeze')],
    [('callback lists', 'functions registered with call_on_close')],
    ['number and order of callback invocations relative to the chunks handed to the server'])

prop(
    'C05', 'Responses are framed as the server protocol and HTTP require',
    'For every response sent through an application or called as an application itself, the server\'s response start is invoked exactly once before any body data, with a native-string status and headers, and every body item is a byte string. Whenever the body is delivered completely its total size equals the declared content length (if one is declared by the library), HEAD and 1xx/204/304 responses carry no body bytes, and HEAD gets the same status and headers as GET. An error in the body producer reaches the server, so a truncated body is never presented as complete.',
    ['inputs', 'fault_sequences', 'configurations'],
    'every body shape (text, bytes, lists, tuples, generators, files, written streams) in every charset, every status and method, and a failure at every chunk',
    'Tests use a few short ASCII bodies and never compare the emitted length with the emitted bytes nor fail a body producer midway.',
    ['verktyg/responses.py', 'verktyg/wsgi.py', 'verktyg/application.py', 'verktyg/http/basic.py'],
    [('header finalisation', 'verktyg/responses.py BaseResponse.get_wsgi_headers'), ('body selection', 'verktyg/responses.py BaseResponse.get_app_iter, iter_encoded'),
     ('entity header removal', 'verktyg/http/basic.py remove_entity_headers'), ('file chunks', 'verktyg/wsgi.py FileWrapper')],
    [],
    ['the sequence of start_response calls and body chunks seen by a reference server'])

prop(
    'C06', 'Static files: consistent snapshots while files change on disk',
    'While files below an exported path are atomically replaced, deleted or created by other processes, every successful GET answered by the static file middleware carries the bytes of exactly one version of the requested file together with that version\'s length, entity tag and modification date, and a not-modified answer is only given for a validator of a version that was current during the request. Two answers for one file with the same entity tag carry the same bytes, in every time zone, as long as versions differ in size or in modification time by a second. Nothing outside the exports or disallowed is ever served; disallow rules may be given as one pattern or as a list, requests that match no file reach the wrapped application unchanged, packages can be exported like directories, I/O errors surface instead of short bodies, and the file is closed when the server is done with the response.',
    ['schedules', 'fault_sequences', 'configurations', 'inputs'],
    'every interleaving of file replacements, removals and requests at the granularity of the middleware\'s file system operations, every I/O error position, time zone and request path',
    'One test serves unchanging files in one time zone; the window between opening, stat and reading is never hit.',
    ['verktyg/wsgi.py'],
    [('open + stat', 'verktyg/wsgi.py SharedDataMiddleware._opener'), ('validator', 'verktyg/wsgi.py SharedDataMiddleware.generate_etag'),
     ('path clean-up and export search', 'verktyg/wsgi.py SharedDataMiddleware.__call__'), ('streaming and close', 'verktyg/wsgi.py wrap_file, FileWrapper')],
    [('exported tree', 'real files in a scratch directory changed by a simulated other process')],
    ['response status, headers, body; open file handles after the request'])

prop(
    'C07', 'Cache revalidation never confirms a stale representation',
    'For a resource whose content changes over time, a conditional GET or HEAD is answered "not modified" only if the representation the client holds is the current one according to the validators it sent (entity tags first, weakly compared, modification date otherwise), however requests and changes are delayed and reordered. A client whose validator matches the current representation gets "not modified" without a body or headers describing one, but with the current entity tag and all other headers (also Expires and Content-Location), and every other client gets the complete current representation with its validators. Methods other than GET and HEAD are never answered "not modified" by making a response conditional.',
    ['histories', 'schedules', 'inputs'],
    'every history of content changes and conditional requests by several caching clients, with simulated time, delays, reordering, duplicated and combined validators',
    'The tests make single conditional requests against one fixed representation; none replays a history in which the representation moved on, moved back or changed within one second.',
    ['verktyg/http/basic.py', 'verktyg/responses.py', 'verktyg/requests.py'],
    [('decision', 'verktyg/http/basic.py is_resource_modified'), ('entity tags', 'verktyg/http/basic.py parse_etags, quote_etag, unquote_etag, ETags; verktyg/responses.py ETagResponseMixin'),
     ('dates', 'verktyg/http/basic.py http_date, parse_date')],
    [('representation', 'content, entity tag and modification time at the simulated now')],
    ['status, body and validators received by each simulated cache'])

prop(
    'C08', 'Line and chunk iteration does not depend on how data arrives',
    'Iterating a text or byte stream or iterable by lines or by a separator yields the same items for every way the data is split into pieces, every buffer size and every limit on a stream, as cutting the complete (limited) data at once. No data beyond a stream\'s limit is consumed. If the stream fails or ends early, the items yielded until then are a prefix of the right items and the failure reaches the consumer.',
    ['inputs', 'schedules', 'fault_sequences'],
    'every content, every fragmentation of it (including through line ends and separators), every buffer size and limit, and a transport failure at every position',
    'The tests split two or three fixed texts in one way; boundaries falling inside a line end or separator and failing streams are hardly sampled and byte data not at all for lines.',
    ['verktyg/wsgi.py'],
    [('line iteration', 'verktyg/wsgi.py make_line_iter'), ('separator iteration', 'verktyg/wsgi.py make_chunk_iter'), ('piece reader', 'verktyg/wsgi.py _make_chunk_iter')],
    [], ['items yielded, exceptions, bytes consumed from the source'])

prop(
    'C09', 'Failures reach exactly the right handler and stay contained',
    'An exception (other than an exit) raised while a request is routed or handled is given, as the same object, to exactly one exception handler: the best acceptable one registered for the nearest class in the exception\'s resolution order, skipping classes none of whose handlers is acceptable to the client. If there is none, the original exception propagates to the server unchanged before any response is started, and a handler that fails itself propagates its own error. No failure, however many and at whatever point, changes the outcome of other concurrent or later requests.',
    ['fault_sequences', 'schedules', 'histories', 'configurations'],
    'every exception class hierarchy and set of handlers, every failing point of a request, sequences of failures and interleavings with healthy requests',
    'The tests raise one exception in one request per application, sequentially.',
    ['verktyg/application.py', 'verktyg/exception_dispatch.py', 'verktyg/dispatch.py', 'verktyg/accept/__init__.py'],
    [('handler selection', 'verktyg/exception_dispatch.py ExceptionDispatcher.lookup'), ('error path', 'verktyg/application.py BaseApplication._get_response'),
     ('routing errors', 'verktyg/routing.py MapAdapter.match, verktyg/dispatch.py Dispatcher.lookup')],
    [], ['handler invocations with their exception objects, propagated exceptions, responses'])

prop(
    'C10', 'Capturing an application\'s output is transparent',
    'Running any conforming server-gateway application through the library\'s capture facilities (the direct runner, the test client, building or coercing a response from an application; buffered or streaming) yields the same status, headers and body bytes in the same order as a conforming server would send, including data pushed through the write callable, responses started late, and empty bodies. Exceptions of the application, also those it reports through the start of a response, reach the caller unchanged. The application\'s iterable is closed exactly once when the captured output is buffered, closed, or the run fails.',
    ['programs', 'fault_sequences', 'crash_points'],
    'every conforming application program (order of start, write, yield, restart, raise, close), in every capture mode, abandoned at every point',
    'The tests capture four fixed applications; none combines write, lazy start, errors and early abandonment.',
    ['verktyg/test.py', 'verktyg/responses.py', 'verktyg/wsgi.py'],
    [('runner', 'verktyg/test.py run_wsgi_app'), ('client', 'verktyg/test.py Client.open, Client.run_wsgi_app'), ('response from app', 'verktyg/responses.py BaseResponse.from_app, force_type')],
    [], ['captured status/headers/body, exceptions, close calls'])

prop(
    'C11', 'Cookie sessions survive exactly as set, per client and over time',
    'Over any sequence of requests by clients with their own cookie jars (the test client for site-wide cookies, any standard user agent otherwise), the cookies an application reads are exactly those set earlier for that client and address that have neither been deleted, replaced nor expired on the simulated clock, each with exactly the text value that was set. Clients never see each other\'s cookies. Damaged cookie headers (segments without name or value, invalid bytes, an unterminated quote) never make a request fail and never hide or change the well-formed cookies beside them.',
    ['histories', 'inputs', 'fault_sequences'],
    'every history of set, overwrite, delete and expire operations by several clients, with any text values and attributes, clock advances and corrupted cookie bytes',
    'The tests set one or two cookies with fixed values at real time and never let one expire between requests.',
    ['verktyg/http/cookies.py', 'verktyg/responses.py', 'verktyg/requests.py', 'verktyg/test.py'],
    [('serialisation', 'verktyg/http/cookies.py dump_cookie'), ('parsing', 'verktyg/http/cookies.py parse_cookie'), ('client jar', 'verktyg/test.py _TestCookieJar, Client.set_cookie, Client.delete_cookie')],
    [('cookie jar', 'per client store that survives between requests')],
    ['cookie mapping seen by the handler', 'Set-Cookie headers'])

prop(
    'C12', 'Dates sent on the wire follow the clock, in every time zone',
    'Every date the library puts on the wire (current date, expiry derived from a lifetime, cookie expiry, retry time, modification date) names the intended instant of the clock at the moment of the call, in valid format and GMT, whatever the machine\'s time zone and however the clock jumps or is skewed between calls. Setting a date property and reading it back gives the same instant, and relative lifetimes are counted from the current clock.',
    ['schedules', 'configurations', 'inputs'],
    'every clock value, jump forward or backward (leap days, DST changes, sub-second values), and local time zone, over sequences of date-producing calls',
    'The tests format a few fixed timestamps in the time zone of the build machine and never move the clock.',
    ['verktyg/http/basic.py', 'verktyg/http/cookies.py', 'verktyg/responses.py', 'verktyg/wsgi.py', 'verktyg/utils.py'],
    [('formatting', 'verktyg/http/basic.py http_date, verktyg/http/cookies.py cookie date'), ('parsing', 'verktyg/http/basic.py parse_date'),
     ('date headers', 'verktyg/responses.py CommonResponseDescriptorsMixin, ETagResponseMixin.make_conditional'), ('static expiry', 'verktyg/wsgi.py SharedDataMiddleware.__call__')],
    [('clock', 'simulated wall clock')],
    ['Date, Expires, Last-Modified, Retry-After, Set-Cookie headers'])

prop(
    'C13', 'Uploads are stored and encoded completely or fail loudly',
    'Saving an uploaded file writes exactly the remaining bytes of the upload to the destination, and any read, write, full-disk or close failure on the way is reported to the caller with every file the library opened closed again. Iterating or reading an upload yields its bytes and terminates. A form built for a request, url encoded or multipart, contains every field and file once and intact, identically whether it is kept in memory or spilled to a temporary file, at every spill threshold, an I/O failure while spilling is reported, and closing the builder closes all its files.',
    ['fault_sequences', 'inputs', 'configurations'],
    'every upload content and buffer size, every position and kind of I/O failure (short reads, errors, disk full, close failure), every spill threshold and set of form fields',
    'No test saves or encodes under I/O failure, and multipart encoding is not covered for plain fields.',
    ['verktyg/http/basic.py', 'verktyg/test.py', 'verktyg/datastructures.py'],
    [('upload object', 'FileStorage (save, close, iteration, attribute proxy)'), ('multipart encoder', 'verktyg/test.py stream_encode_multipart, encode_multipart, EnvironBuilder.get_environ')],
    [], ['bytes in the destination, exceptions, open handles, encoded form parsed by an independent parser'])

prop(
    'C14', 'Response body operations never lose, repeat or reorder data',
    'For any sequence of operations on a response (reading the body, replacing it, writing to its stream, buffering, freezing, measuring, tagging, making it conditional, iterating), the body finally sent is the sequential composition of the data supplied, and reading, measuring, buffering, tagging or freezing never alter it. The length and entity tag the library sets describe exactly the body at that time, two different bodies never get the same generated tag, and operations refused in streaming mode leave the body untouched. If the body producer fails while being buffered, the error reaches the caller and is never turned into a complete-looking shorter body.',
    ['histories', 'inputs', 'fault_sequences'],
    'every sequence of body operations on every body shape and charset, with the body producer failing at any item',
    'The tests perform one or two operations per response on fixed bodies.',
    ['verktyg/responses.py', 'verktyg/http/basic.py'],
    [('buffering', 'verktyg/responses.py BaseResponse.get_data, set_data, make_sequence, freeze, calculate_content_length, _ensure_sequence'),
     ('stream', 'verktyg/responses.py ResponseStream'), ('tagging', 'verktyg/responses.py ETagResponseMixin.add_etag; verktyg/http/basic.py generate_etag')],
    [], ['bytes sent to the server, values returned by the operations, headers'])

prop(
    'C15', 'The test client follows redirects to the right end, and always ends',
    'Asked to follow redirects, the test client goes to exactly the resource each Location names (absolute or relative, query kept, fragment dropped, mounted below the application\'s script root or not) with GET, 307 keeping the method, and with the cookies held at that moment, until an answer is no redirect; result and environ are those of the last request. Each intermediate answer is read and closed exactly once before the next request starts. A target met twice with the same status ends in the documented redirect-loop error and another host in the documented refusal, without a request being sent; failures of the application reach the caller unchanged. However a chain ends, the response wrapper and the client\'s state are as before and its next request is served normally, and the site may change its answers meanwhile.',
    ['inputs', 'histories', 'fault_sequences'],
    'every site of redirecting, setting-cookie and failing pages changing between requests, every form of Location, and every history of requests through one client',
    'The tests follow a handful of fixed redirects, with a site that never changes or fails.',
    ['verktyg/test.py', 'verktyg/wsgi.py'],
    [('following', 'verktyg/test.py Client.open, Client.resolve_redirect'), ('running the application', 'verktyg/test.py run_wsgi_app, Client.run_wsgi_app'),
     ('current URL of a request', 'verktyg/wsgi.py get_current_url, get_host, get_script_name')],
    [('redirect chain', 'targets already visited'), ('suspended response wrapper', 'set aside while a redirect is resolved')],
    ['requests the application receives', 'results and exceptions of Client.open', 'close calls of every answer'])

prop(
    'C16', 'Headers changed through structured views are what a response sends',
    'The structured views of a response (Cache-Control, Vary, Allow, Content-Language, WWW-Authenticate, Content-Range, Content-Type parameters, dates, tags, numbers) and its raw headers stay one. After every operation through a view, a raw header or the response itself, whoever held which view for how long, the response holds and sends exactly the content the operation asked for in that header, once, and no other header and no other response changed; an emptied view removes its header; a view taken then reads back the same content. A refused operation (missing item, failing iterator or conversion, line break, impossible range) reports its error and leaves every header as it was. Reading and sending change nothing, and what was sent never changes later.',
    ['histories', 'fault_sequences', 'schedules', 'inputs'],
    'every history of view operations, raw header changes, refusals and sends by several holders over several responses, also on several threads',
    'The tests change one or two views once and compare the header; none mixes holders, raw changes, refusals and sends.',
    ['verktyg/responses.py', 'verktyg/http/basic.py', 'verktyg/http/cache_control.py', 'verktyg/http/auth.py', 'verktyg/datastructures.py', 'verktyg/utils.py'],
    [('descriptors with update callbacks', 'verktyg/responses.py ETagResponseMixin, CommonResponseDescriptorsMixin, WWWAuthenticateMixin'),
     ('views', 'verktyg/http/basic.py HeaderSet, verktyg/http/cache_control.py ResponseCacheControl, ContentRange, verktyg/http/auth.py WWWAuthenticate'),
     ('change notification', 'verktyg/datastructures.py UpdateDictMixin, CallbackDict'), ('raw headers', 'verktyg/http/basic.py Headers')],
    [('view', 'copy of the content of one header, written back as a whole by each change')],
    ['headers of the response', 'headers passed to start_response', 'values read from views'])

prop(
    'C17', 'Applications built from one builder are complete and independent',
    'An application answers by exactly what its builder had been given when it was built: its routes below their factories, the converters then known, views and nested dispatchers, exception handlers, middleware (every layer once, the first added innermost), mixins and configuration, below the application root of that build. Nothing that happens afterwards changes it: further registrations on the builder, extensions of nested dispatchers, other builds of the same or another builder sharing the same parts below other roots, builds that fail, and all of these while another thread is serving it. A build that fails (missing converter, failing middleware) reports that error and leaves the builder able to build once the cause is gone. Views, handlers and middleware of an application are only ever handed that application; URLs it builds and redirects it sends start at its own root.',
    ['histories', 'fault_sequences', 'schedules', 'configurations'],
    'every history of registrations, builds, failed builds and requests over every sharing of parts between builders, also on several threads',
    'The tests build one application per builder and never register, extend or fail in between.',
    ['verktyg/application.py', 'verktyg/routing.py', 'verktyg/dispatch.py', 'verktyg/exception_dispatch.py', 'verktyg/views.py'],
    [('builder and application', 'verktyg/application.py ApplicationBuilder.__call__, BaseApplication.__init__'), ('route factories', 'verktyg/routing.py Submount, Subdomain, EndpointPrefix, RouteTemplate, Route.empty, URLMap.bind'),
     ('nested dispatchers', 'verktyg/dispatch.py Dispatcher.add_bindings, verktyg/exception_dispatch.py ExceptionDispatcher.add_exception_handlers'), ('views', 'verktyg/views.py View.get_bindings, expose')],
    [('builder', 'lists of registrations, expanded anew by every build'), ('application', 'URL map, indexes and middleware stack of one build')],
    ['answers to requests', 'arguments of views, handlers and middleware', 'built URLs and redirect targets', 'outcome of builds'])

prop(
    'C18', 'Requests are read-only, consistent views of what the client sent',
    'For every request, in any order and number of accesses, by middleware, handlers and threads sharing it, and through several request objects made from one environment, every accessor (method, path, script root, URLs, host, scheme and security, query arguments, headers, cookies, client address and route, user, content type and length, cache control, entity tags, dates, ranges, authorization, pragma, numbers) gives the value the client sent. Absent or malformed fields give the documented absent value rather than an error; a host outside the trusted hosts is refused every time and in every URL, a trusted one (also a subdomain of a trusted domain) never. Its collections (arguments, cookies, headers, access route, authorization, cache control) refuse every attempt to change them, and copies, lists and sets taken from them may be changed freely: neither changes any later answer. No access changes the environment or consumes the body.',
    ['inputs', 'histories', 'schedules', 'configurations'],
    'every request, every order of reading and attempted changes by several readers and request objects, also on several threads',
    'The tests read a few accessors once from well-formed requests; none reads again after an attempted change, from another object or thread, or malformed fields.',
    ['verktyg/requests.py', 'verktyg/wsgi.py', 'verktyg/http/basic.py', 'verktyg/http/cache_control.py', 'verktyg/http/auth.py', 'verktyg/datastructures.py', 'verktyg/utils.py'],
    [('request accessors', 'verktyg/requests.py BaseRequest and its mixins'), ('cached values', 'verktyg/utils.py cached_property, environ_property'),
     ('immutable views', 'verktyg/datastructures.py Immutable*, verktyg/http/basic.py EnvironHeaders'), ('host and URL', 'verktyg/wsgi.py get_host, host_is_trusted, get_current_url')],
    [('request', 'values cached on first access'), ('environment', 'the request registered in it')],
    ['values of accessors', 'errors of accessors and of attempted changes', 'contents of the environment', 'reads of the body stream'])

# ---- properties this technique cannot address (pure functions of input) -----
prop(
    'C20', 'Built URLs match back to the same endpoint and values',
    'Every URL the router builds for an endpoint and values is matched by the same map to that endpoint and those values, and converters invert each other.',
    ['inputs', 'configurations'], 'every route pattern, converter and value', 'Tests sample a few patterns.',
    ['verktyg/routing.py'], [('build/match', 'verktyg/routing.py Route.build, Route.match, converters')])
prop(
    'C21', 'Content negotiation picks the best acceptable representation',
    'For every set of accept headers and offered representations, the representation chosen has the highest quality according to HTTP, or the not-acceptable error is raised if none is acceptable.',
    ['inputs', 'configurations'], 'every accept header and set of representations', 'Tests sample a few headers.',
    ['verktyg/accept/__init__.py', 'verktyg/accept/_base.py', 'verktyg/accept/content_type.py', 'verktyg/accept/language.py', 'verktyg/accept/charset.py'],
    [('selection', 'verktyg/accept/__init__.py select_representation')])
prop(
    'C22', 'HTTP headers parse and serialise as inverses and tolerate garbage',
    'Every structured header the library serialises parses back to the same value, and no malformed header sent by a client makes parsing hang or crash.',
    ['inputs'], 'every header text and structured value', 'Tests sample fixed headers.',
    ['verktyg/http/basic.py', 'verktyg/http/auth.py', 'verktyg/http/cache_control.py'],
    [('parsers and dumpers', 'verktyg/http/basic.py parse_*_header, dump_*_header')])
prop(
    'C23', 'URL and IRI conversion preserve meaning',
    'Converting between IRIs and URIs, fixing URLs and re-creating the current URL never changes the resource a URL identifies.',
    ['inputs'], 'every URL text', 'Tests sample fixed URLs.',
    ['verktyg/urls.py', 'verktyg/wsgi.py'], [('conversion', 'verktyg/urls.py iri_to_uri, uri_to_iri, url_fix')])
prop(
    'C24', 'Containers keep their multi-value and immutability contracts',
    'Multi-value containers behave as ordered multimaps under every sequence of operations, immutable variants never change, and change callbacks fire exactly when content changes.',
    ['inputs', 'histories'], 'every sequence of container operations', 'Tests sample short sequences.',
    ['verktyg/datastructures.py', 'verktyg/http/basic.py'], [('containers', 'verktyg/datastructures.py MultiDict, Immutable*; verktyg/http Headers, HeaderSet, ETags')])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p) + '\n')
