import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),obs=()):
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
                 "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(obs),"hook_needed":None}})
NT="No test touches the server, the request handling or the response path; "
p("C01","Every accepted connection is answered or closed exactly once, with its own reply",
 "While the server runs, every accepted connection ends in exactly one of two ways: its client receives one complete response to its own request and the connection is then closed, or (request malformed, peer gone) it is closed without a complete response. No connection stays open forever once its request has arrived, none is closed twice, and no byte of one client's response reaches another client. This includes malformed requests, peers that disconnect at any moment, and any number of worker threads.",
 ["schedules","fault_sequences"],"all interleavings (bounded preemptions) of acceptor, workers and responder over small sets of clients, with every placement of a peer failure",
 NT+"thread interleavings are not reachable from the single-threaded unit tests.",
 ["src/server.c","src/grengine.c"],[("acceptor -> workers -> responder hand-off over two queues","src/server.c acceptor/handler/responder"),("send in slices, then clean up and close","src/grengine.c m38_send_response")],
 [("accepted queue","accepted sockets waiting for a worker","src/server.c"),("handled queue","responses waiting to be (further) sent","src/server.c")],["bytes written to each socket","close calls"])
p("C02","The server never wedges under load",
 "When more connections are pending than the internal queues can hold, and responses need several sends each, every request is still eventually answered completely: no schedule of the threads reaches a state where all of them wait on each other.",
 ["schedules"],"all interleavings (bounded preemptions) with more connections than queue slots, multi-slice responses, 1-3 workers, several queue capacities including the real one",
 NT+"a deadlock needs a specific interleaving under load.",
 ["src/server.c"],[("bounded queues between threads","src/server.c _open_queue"),("responder re-queues partially sent responses","src/server.c responder")],(),["every client gets its response before all threads block"])
p("C03","Concurrent requests do not interfere: no unsynchronised shared mutable state",
 "Requests handled at the same time on different worker threads never influence one another: every handler sees only its own request and every response is byte-identical to the one the same request gets when handled alone. No two threads of the server access the same memory, one of them writing, without a synchronisation that orders them; this covers request parsing, routing, response building, sending, template rendering, form and cookie decoding and logging.",
 ["schedules"],"all interleavings (bounded preemptions) of concurrent requests exercising every part of the library, with a happens-before check of every memory access on each of them",
 "The tests are single threaded.",
 ["src/server.c","src/grengine.c","src/greshunkel.c","src/parse.c","src/logging.c"],[("all per-request data is on the stack or heap of one thread and handed over through a queue","src/server.c, src/grengine.c")],(),["memory accesses","responses"])
p("C04","Start-up and transient faults are survived or reported cleanly",
 "If any step of starting the server fails (creating, binding or listening on the socket, creating an internal queue, starting a thread), the serve call reports failure by returning -1 with the listening socket closed; otherwise the server listens on the configured port. Connections or responses left in the internal queues by an earlier process are never served. A transient failure to accept one connection (interrupted call, connection aborted by the peer, temporary lack of resources) does not stop the server from accepting later ones, and neither does an interrupted wait on an internal queue; every connection accepted around such a fault is answered as usual. If an internal queue temporarily refuses an element, a connection that cannot be handed to a worker is closed without a response, and every other connection is answered as usual.",
 ["fault_sequences"],"every single and double failure of the environment calls made while starting, and every placement of transient accept failures among the accepted connections",
 NT+"faults of system calls cannot be provoked by the unit tests.",
 ["src/server.c"],[("error exits of the serve call","src/server.c m38_http_serve"),("queues purged before use","src/server.c m38_http_serve"),("accept loop","src/server.c acceptor")],(),["return value","bind/listen arguments","accept calls"])
p("C05","How a request is split over reads never matters",
 "However the network splits the bytes of a request into pieces, including one byte at a time and pieces or totals that coincide with the server's read size, the handler sees exactly the same request and the client gets exactly the same response as when it arrives in one piece. The server never waits for more bytes once the header and the announced body have arrived.",
 ["inputs","schedules"],"all ways of cutting a set of requests (up to a bounded number of cuts, plus byte-by-byte), with sizes around the read-size multiples",
 NT+"unit tests hand one complete buffer to the parser.",
 ["src/grengine.c","src/parse.c"],[("read loop","src/grengine.c read_max_bytes_from_socket"),("body completion","src/grengine.c m38_generate_response")],(),["request passed to the handler","response bytes","reads issued"])
p("C06","Handlers see the request exactly as sent",
 "For a well-formed request the handler receives the verb (up to 15 bytes), the resource (up to 511 bytes), the complete header block (whatever bytes its field values contain), and a body of exactly Content-Length bytes equal to what was sent, whatever bytes the body contains (including NUL bytes); a request without a body has body length 0. A verb or resource too long to be stored is rejected by closing the connection, never truncated.",
 ["inputs"],"verbs, resources, headers and bodies over alphabets and lengths chosen around every internal buffer size, bodies over all short strings of an alphabet including NUL and CR LF",
 "The unit tests try four fixed requests and never check the verb, the resource or a binary body.",
 ["src/parse.c","src/grengine.c"],[("request line and header parsing","src/parse.c m38_parse_request"),("body extraction","src/parse.c m38_parse_body")],(),["request passed to the handler"])
p("C07","No request bytes can crash, hang or corrupt the server",
 "For every sequence of bytes a client may send, followed by silence, end of stream or an error, handling the connection terminates without invalid memory access, assertion failure, runaway allocation or endless loop, and yields either a well-formed response or a closed connection. Reading past the end of any buffer, or sending bytes that are not part of the response (such as stale memory), never happens.",
 ["inputs","fault_sequences"],"all sequences up to a bounded length over an alphabet of protocol tokens and special bytes, with every way for the stream to end",
 NT+"the unit tests parse only well-formed requests.",
 ["src/parse.c","src/grengine.c","src/utils.c"],[("bounds in parsing and header lookup","src/parse.c, src/utils.c strnstr"),("error exits","src/grengine.c m38_generate_response")],(),["memory accesses","connection outcome"])
p("C08","Header lookup returns exactly the named field's value",
 "Looking up a header by name returns the complete value of the first header field whose name is exactly that name, without the separator and line end, and reports absence when there is none. Text that merely contains the name (a longer or shorter field name, another field's value, the request line or the body) never matches, and the lookup never looks beyond the given length.",
 ["inputs"],"all header blocks of up to a bounded number of lines over an alphabet of confusable names and values, looked up under every name",
 "No test looks up a header.",
 ["src/parse.c"],[("lookup by search","src/parse.c m38_get_header_value_raw")],(),["returned string"])
p("C09","Form bodies decode to exactly the submitted pairs",
 "A form-encoded body yields a dictionary in which every submitted key (as sent) is found with its percent- and plus-decoded value and nothing else is found; for a repeated key the last value wins; pairs without '=' or with an invalid percent escape are skipped without affecting the others. This holds for any number of pairs and any key or value length, and decoding leaves the raw body available to the handler.",
 ["inputs"],"all bodies of up to a bounded number of pairs over an alphabet of keys and encoded values, plus forms of every size up to several table growths and key lengths across 256",
 "One test decodes two one-character pairs and compares at most one byte.",
 ["src/parse.c","src/simple_sparsehash.c","src/utils.c"],[("splitting and decoding","src/parse.c m38_parse_form_encoded_body"),("dictionary","src/simple_sparsehash.c")],(),["dictionary lookups","raw body"])
p("C10","The first matching route handles the request, with the right captures",
 "A request is handled by the first route, in table order, whose verb equals the request's verb and whose regular expression matches the resource, and by no other; the handler receives that expression's capture groups (as many as the route declares) for that resource. Handlers of other routes are never invoked.",
 ["inputs","configurations"],"all route tables of up to a bounded size over an alphabet of verbs and expressions, against all resources of an alphabet",
 NT+"nothing tests routing.",
 ["src/grengine.c"],[("route scan","src/grengine.c m38_generate_response")],(),["handler invoked","captures"])
p("C11","Unmatched requests and empty 404s get the 404 page",
 "A request no route matches, and a request whose handler returns 404 without a body, are answered by the application's custom 404 handler if one is set and by the built-in 404 page otherwise; a handler that returns 404 with its own body is answered with that body. Setting the custom 404 handler and its cleanup works in either order, again and again, and the cleanup set last runs for the 404 responses.",
 ["histories","configurations"],"all sequences of setting 404 handlers and cleanups up to a bounded length, combined with every kind of handler outcome",
 NT+"the custom-404 interface has only a compiled example.",
 ["src/grengine.c","src/server.c"],[("404 selection","src/grengine.c m38_generate_response"),("404 route set-up","src/server.c m38_set_404_handler/m38_set_404_cleanup")],(),["response","handler and cleanup calls"])
p("C12","Responses are framed exactly",
 "Every response consists of the status line for the handler's code, Content-Type (the handler's type, or text/html if unset), a Content-Length equal to the number of body bytes, every custom header exactly once in insertion order with its exact name and value, an empty line, and then exactly the handler's bytes, whatever they are. This holds for every supported status code, body size, type and number of custom headers; adding a custom header reports success.",
 ["inputs","histories"],"all supported codes x body sizes around every digit-count and slice boundary x types x custom-header lists around every growth step",
 NT+"no test builds a response.",
 ["src/grengine.c","src/vector.c","include/utils.h"],[("header sizing and assembly","src/grengine.c m38_generate_response"),("custom headers","src/grengine.c m38_insert_custom_header")],(),["response bytes"])
p("C13","Byte-range responses are self-consistent and deliver the requested bytes",
 "When a request with a Range header gets a 206 response, its Content-Range start-end/total, its Content-Length and its payload agree: the payload is exactly bytes start..end of the full body and total is the full size. For 'bytes=a-b' with a <= b, b >= 1 and a inside the body, start is a and end is the smaller of b and the last byte; for 'bytes=a-' the payload runs to the last byte. Malformed or unsatisfiable ranges never crash and never send anything but bytes of the body; responses that are not plain successes with a body (redirects, errors, empty bodies) are not turned into 206, and custom headers are kept.",
 ["inputs"],"all pairs a,b up to beyond the body size for all body sizes up to a bound and around digit-count boundaries, plus an alphabet of malformed ranges, over all status codes",
 "The single range test never parses a range and no test builds a 206.",
 ["src/parse.c","src/grengine.c"],[("range parsing","src/parse.c m38_parse_range_header"),("206 assembly","src/grengine.c m38_generate_response")],(),["response bytes"])
p("C14","Sending survives short writes and failures without losing or repeating bytes",
 "Whatever number of bytes the socket accepts at each send, the client receives the response's bytes in order, each exactly once, and the connection is closed after the last one. If a send fails, sending stops, the connection is closed exactly once, and the server process is never killed by the disconnect.",
 ["fault_sequences"],"all sequences of accepted byte counts (bounded deviations from full acceptance) and every position of a failing send, for response sizes around the slice size",
 NT+"short writes and disconnects do not occur in tests.",
 ["src/grengine.c"],[("sending in slices","src/grengine.c m38_send_response")],[("sent","how much of the response was accepted so far","include/types.h")],["bytes accepted by the socket","close"])
p("C15","Serving a request leaves nothing behind and cleans up exactly once",
 "For every request, whatever its outcome (answered, 404, malformed, aborted by the client at any point), the answering route's cleanup runs exactly once after the last use of the body if a handler answered, and not at all otherwise; afterwards all memory, file descriptors and mappings acquired for the request are released and none is released twice. The stock cleanup functions release what the stock response functions allocated even when the client disconnects early.",
 ["inputs","fault_sequences"],"every request kind x handler kind x point of failure (reads, sends), with exact accounting of allocations, descriptors and mappings",
 "Tests neither serve requests nor check for leaks.",
 ["src/grengine.c","src/parse.c","src/simple_sparsehash.c"],[("release on both exits of sending","src/grengine.c m38_send_response"),("release after generating","src/grengine.c m38_generate_response"),("stock cleanups","src/grengine.c")],(),["live allocations, descriptors, mappings","cleanup calls"])
p("C16","Files are served byte for byte with the right type",
 "Serving a file returns 200 with exactly the file's current contents and length for every readable regular file of any size, with the Content-Type its extension determines (case-insensitively, regardless of the path's length), octet-stream for unknown extensions, text/html when there is no extension, and never overriding a type the handler already set. A missing or unreadable path yields 404 with an error page and leaks nothing.",
 ["inputs","fault_sequences"],"file sizes around page and digit boundaries x path lengths x all known and unknown extensions x failing system calls",
 NT+"file serving is never exercised.",
 ["src/grengine.c"],[("file mapping and type guess","src/grengine.c mmap_file_ol/guess_mimetype")],(),["response fields","mappings"])
p("C17","Rendering a template file equals rendering its contents",
 "Rendering a file into a response gives status 200 and exactly the bytes that rendering the file's contents in memory with the same context gives, for any file size including exact multiples of the page size and empty files; a missing file yields 404. In every case the context handed over is released exactly once and nothing else stays allocated beyond the rendered body.",
 ["inputs","fault_sequences"],"template files of all sizes around page boundaries x endings x contexts, and failing file operations",
 NT+"rendering a file into a response is never exercised.",
 ["src/grengine.c","src/greshunkel.c"],[("map, render, unmap","src/grengine.c m38_render_file")],(),["response fields","context release","reads beyond the file"])
p("C18","Templates reproduce text verbatim and substitute the right variables",
 "Rendering reproduces all text outside directives unchanged and in order, and replaces every variable reference by the value of the variable with exactly that name, looked up in the innermost scope that defines it and then outwards, and every dotted reference by the named item of the named sub-context. Names that are prefixes or extensions of one another are never confused, any number of references may share a line, and the same name added twice resolves to the first.",
 ["programs"],"all templates of up to a bounded number of fragments over an alphabet of text, line ends and references, in contexts with confusable names",
 "Tests render a handful of fixed documents.",
 ["src/greshunkel.c"],[("line interpolation","src/greshunkel.c _interpolate_line/_interpolate_line_subcontext"),("lookup","src/greshunkel.c find_needle")],(),["rendered bytes"])
p("C19","Loops render their body once per element, in order",
 "A loop renders its body once for each element of the named array, in insertion order, with the loop variable bound to that element (a string, an integer or a sub-context) inside the body only, and all other variables, filters, includes and conditionals in the body behaving as outside. An empty array or an empty body renders as nothing; text before and after loops and the number of loops, including several over the same array, do not matter.",
 ["programs"],"all templates of a bounded number of fragments with up to three loops, arrays of 0-3 elements and of sizes around every growth step, of each element type",
 "Tests render three fixed loops.",
 ["src/greshunkel.c","src/vector.c"],[("loop expansion","src/greshunkel.c _interpolate_loop")],(),["rendered bytes"])
p("C20","UNLESS and UNLESS NOT are exact complements for plain variables",
 "For every plain (undotted) variable exactly one of 'UNLESS @v' and 'UNLESS NOT @v' renders its block: UNLESS renders it when the variable is undefined, is the string FALSE or the empty string, or is an empty array, and UNLESS NOT renders it otherwise (any other string, including strings that merely start with FALSE, non-empty arrays, sub-contexts). A block that is not rendered contributes nothing, and text around the blocks is unaffected. For a dotted reference to an item of a sub-context, UNLESS renders when the item is true and UNLESS NOT when it is false (as the project's tests pin), and neither renders when it does not exist.",
 ["programs"],"all sequences of up to a bounded number of conditional blocks and text fragments over variables of every type and value class, at top level and inside loops",
 "Tests cover three plain variables and one sub-context item.",
 ["src/greshunkel.c"],[("truth","src/greshunkel.c _is_truthy/_is_falsey"),("conditional expansion","src/greshunkel.c _interpolate_conditionals")],(),["rendered bytes"])
p("C21","Filters get the right argument and their result replaces the call",
 "Every filter call in a template is replaced by the result of calling the filter registered under exactly that name (innermost scope first) with the call's argument text after variable substitution, or with no argument if it has none. Each call in the rendered output runs the filter exactly once, and if a clean-up was registered it is called exactly once with that very result, after the result has been copied.",
 ["programs"],"all lines of up to a bounded number of fragments over filter calls with and without arguments and variables, several per line, inside and outside loops and conditionals",
 "Tests use filters that ignore their argument and have no clean-up.",
 ["src/greshunkel.c"],[("filter expansion","src/greshunkel.c _filter_line")],(),["rendered bytes","filter and clean-up calls"])
p("C22","Includes insert the whole rendered file",
 "An include directive, on a line of its own, is replaced by the complete rendering of the named file, whatever its size, in the including scope: variables, loops (and their loop variable), filters and nested includes in it work as if written in place. The file is read anew on each rendering and closed afterwards.",
 ["programs","inputs"],"include files of sizes around every buffer boundary, empty, with and without final line end, nested up to three deep, in and outside loops",
 "Tests include one fixed 155-byte file.",
 ["src/greshunkel.c"],[("include expansion","src/greshunkel.c _include_line")],(),["rendered bytes","open files"])
p("C23","Contexts keep what is added and rendering never changes them",
 "A context holds any number of values and filters, each string value kept up to 512 bytes (longer ones cut there) and each name up to 31. Rendering does not modify the context: rendering again, rendering other templates in between, or looping over the same data repeatedly gives identical output. Freeing a context releases it, its arrays, and all sub-contexts added to it or to its arrays exactly once, whether or not it was ever rendered.",
 ["histories"],"all sequences up to a bounded length of add / render / free operations over contexts with sub-contexts and arrays, plus value counts and lengths around every limit",
 "Tests render each context once and do not check for leaks or double frees.",
 ["src/greshunkel.c","src/vector.c"],[("ownership","src/greshunkel.c gshkl_free_context"),("temporary child contexts","src/greshunkel.c _interpolate_loop")],(),["rendered bytes","live allocations","invalid accesses"])
p("C24","Rendering is memory-safe, bounded by its input, and reports the exact length",
 "Rendering reads only the given number of template bytes, needs no terminator after them, always terminates, and returns a zero-terminated buffer together with the exact length of the output, not counting one final line end of the template. Templates that render to nothing give an empty string of length 0; no template over defined names causes invalid memory access or leaves memory allocated.",
 ["programs"],"all sequences of up to a bounded number of directive fragments (including incomplete and misplaced directives) placed at the end of a readable region",
 "Tests ignore the reported length and pass terminated buffers.",
 ["src/greshunkel.c"],[("output assembly","src/greshunkel.c gshkl_render"),("line reading","src/greshunkel.c read_line")],(),["returned buffer and length","memory accesses","live allocations"])
p("C25","The dictionary behaves as a map",
 "After any sequence of operations, looking up a key in the dictionary returns a copy of the value most recently stored under exactly that key, with its length, and nothing for keys never stored; storing always succeeds, whatever the number of entries, collisions, growths, key lengths (including 256 bytes and more) and overwrites. Freeing the dictionary releases everything exactly once.",
 ["histories"],"all operation sequences up to a bounded depth over keys chosen to collide, started from dictionaries pre-filled to every size across several growths",
 "One test stores two keys.",
 ["src/simple_sparsehash.c"],[("probing and growth","src/simple_sparsehash.c sparse_dict_set/_rehash_and_grow_table"),("bitmap groups","src/simple_sparsehash.c _sparse_array_group_set")],(),["get results","live allocations"])
p("C26","The sparse array behaves as a bounded array",
 "After any sequence of stores, reading an index returns the last value stored there with its length, and nothing if none was stored; stores in any order never disturb other indices. Stores at or beyond the maximum, or larger than the element size, are refused and change nothing.",
 ["histories"],"all store sequences up to a bounded depth over indices around word, group and maximum boundaries, for several maxima, plus all permutations of small index sets",
 "No test uses the sparse array directly.",
 ["src/simple_sparsehash.c"],[("position/offset mapping","src/simple_sparsehash.c position_to_offset")],(),["get results"])
p("C27","The vector behaves as a list",
 "After any sequence of appends (by value, of shorter values, of pointers or of empty values) and reversals, a vector created with any initial capacity (including 0) holds exactly the appended items in order, its count is right, and reading an index outside it gives nothing. A failed append (item too large, no memory) changes nothing and later appends still work.",
 ["histories","fault_sequences"],"all operation sequences up to a bounded depth over initial capacities and item sizes, with every placement of an allocation failure",
 "Tests append many and reverse once, and the loop checking the reversal never runs.",
 ["src/vector.c"],[("growth","src/vector.c vector_append/vector_append_ptr"),("reversal","src/vector.c vector_reverse")],(),["items read back","memory accesses"])
p("C28","URL decoding is exact and stays in bounds",
 "Decoding replaces every '+' by a space and every percent escape by the byte it denotes, copies every other byte, terminates the result, reports its length including the terminator, and fails on any '%' not followed by two hexadecimal digits. It writes no more bytes than it reports, reads nothing beyond the input's terminator, and reports the same length when only asked to measure.",
 ["inputs"],"all strings up to a bounded length over an alphabet of special and hex characters, and all 65536 two-character escapes",
 "No test calls it on an escape.",
 ["src/utils.c"],[("decoder","src/utils.c m38_url_decode")],(),["output","return value","memory accesses"])
p("C29","Cookie lookup returns exactly the named cookie",
 "Looking up a cookie returns exactly the value of the first cookie with that exact name in the given string, without separators or surrounding text, wherever it stands in the string, and nothing when there is none. Names or values that merely contain the name never match, and nothing beyond the given length is considered.",
 ["inputs"],"all cookie strings of up to a bounded number of pairs over confusable names and values with the usual separators, looked up under every name and length",
 "No test looks up a cookie.",
 ["src/utils.c"],[("lookup","src/utils.c m38_get_cookie_value")],(),["returned string"])
p("C30","The string hash is FNV-1a for every input",
 "The exported string hash equals the 64-bit FNV-1a hash of exactly the given bytes in upper-case hexadecimal for every length, including 0 and 256 bytes and more, and always terminates.",
 ["inputs"],"all byte strings up to length 2, all lengths up to several thousand, every byte value in every one of the first positions",
 "No test calls it.",
 ["src/utils.c"],[("hash loop","src/utils.c hash_string_fnv1a")],(),["output buffer"])
p("C31","Bounded search and suffix test are exact",
 "The bounded substring search returns the first occurrence that lies entirely within the first n bytes (or before an earlier terminator), including one that ends exactly at the limit, and nothing otherwise, without reading outside those bounds. The suffix test is true exactly when the string ends with the suffix, including the empty and the equal one.",
 ["inputs"],"all haystacks, needles and limits up to bounded lengths over a small alphabet, placed at the end of readable memory",
 "No test calls them.",
 ["src/utils.c"],[("search","src/utils.c strnstr"),("suffix","src/utils.c endswith")],(),["return values","memory accesses"])
p("C32","The Python binding renders what the C library renders",
 "For every context expressible in Python (strings, integers, lists, dictionaries, lists of dictionaries, filters) and every template, including ones with non-ASCII text, rendering through the Python binding returns the text the C library produces for the same template and values, any number of times (a character that the limit on value lengths cuts in half may be replaced). It never depends on where in memory the library's objects happen to lie, nor on whether the program keeps its own references to the filters it passed. What rendering allocates is released with the rendering, what a context owns with the context.",
 ["programs","histories"],"all combinations of up to a bounded number of context entries of each type with all templates of up to a bounded number of fragments, each rendered repeatedly, and all bounded histories of creating, rendering and dropping two contexts, at several placements of the library's memory",
 "The test prints one rendering and checks nothing.",
 ["python/greshunkel.py"],[("conversion of values","python/greshunkel.py _add_item_to_greshunkel_context/_add_item_to_greshunkel_loop"),("render call","python/greshunkel.py Template.render")],(),["rendered text"])
p("C33","Each log call emits exactly one whole line to the right stream",
 "Every log call writes exactly one whole line - the time, the level's marker and the formatted message - to standard error for errors and to standard output for all other levels, and flushes it; lines of different threads never mix. Messages up to 799 bytes are written whole; longer ones are cut, never overflowing.",
 ["inputs","schedules"],"all levels x message lengths around every buffer size x argument kinds, and all schedules of a few threads logging at once",
 "Tests print log lines but check nothing about them.",
 ["src/logging.c"],[("formatting","src/logging.c m38_log_msg")],(),["bytes written to each stream"])
p("C34","Every answered request leaves exactly one access line",
 "For every request that gets a response (whether a handler, the custom or the built-in 404 page answered, and whether or not sending then succeeds), exactly one access line is written to standard output: the address from the X-Real-IP header or NOIP, the verb and the resource in quotes, the final status code (206 for a partial response), the size of the full body, and in quotes the User-Agent or NOUSERAGENT, cut only at 799 bytes. A connection closed without a response leaves none. Concurrent requests leave whole lines of their own.",
 ["inputs","histories","schedules"],"all combinations of headers, outcomes and sizes from an alphabet, all bounded sequences of answered and rejected requests, and all interleavings (bounded deviations) of two and three requests",
 NT+"the access log is checked nowhere.",
 ["src/grengine.c","src/logging.c"],[("access line","src/grengine.c log_request"),("called once for every response","src/grengine.c m38_generate_response")],(),["lines on standard output"])
p("C35","Parsing a request received elsewhere is exact and stays inside the buffer",
 "Given a buffer of n bytes with a terminator behind them, parsing succeeds for every complete request whose verb has at most 15 and whose resource at most 511 bytes, storing exactly its verb, its resource and the header block up to and including the first blank line within the n bytes, however many bytes follow; it fails, leaving no header and holding no memory, for every buffer without a blank line within n bytes and for verbs and resources that do not fit. Parsing the body then stores exactly the shorter of the received and the announced length, with a terminator, reading nothing behind it, and fails when bytes were received but none announced. Lack of memory is reported as failure.",
 ["inputs","fault_sequences"],"all prefixes of complete requests, all sequences of pieces up to a bounded length, all lengths around every buffer size, all pairs of received and announced lengths from an alphabet, and every failing allocation",
 "The unit tests parse five fixed, complete requests.",
 ["src/parse.c"],[("request line and header","src/parse.c m38_parse_request"),("body","src/parse.c m38_parse_body")],(),["parsed request","return value","memory accesses"])
p("C36","File size and date queries report the file's current values",
 "Asking for the size or the date of a file returns its current size and modification time whatever they are (also beyond 32 bits) and however the path names it, again and again while the file changes; for a path that leads nowhere and when asking the system fails the answer is 0. Nothing stays open.",
 ["inputs","histories","fault_sequences"],"all pairs of sizes and dates around integer-type boundaries, all bounded sequences of file operations with both queries after each, and every failing system call",
 "No test calls them.",
 ["src/utils.c"],[("size","src/utils.c get_file_size"),("date","src/utils.c get_file_creation_date")],(),["return values"])
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
