# ruff: noqa
PENDING = "check not built yet"
ABS = "abstract interpretation of the SSA form (path-sensitive, interprocedural)"

# ---------------------------------------------------------------- utils/caches
prop("C01", "Caches are safe under concurrent use",
     """Any number of goroutines may call any exported operation of a cache at the same time without a data race:
     every access to the shared state of a cache happens under that cache's lock.
     No operation leaves a lock held when it returns or panics (also when the user's loader panics), and none deadlocks on its own lock.""",
     ["schedules"], "every interleaving of any number of callers, every exit of every operation including panics raised by user callbacks",
     "The suite runs one cache from at most two goroutines and never under every schedule; the race detector only sees executed interleavings.",
     ["utils/caches/lru.go", "utils/caches/mem.go", "utils/caches/request.go"],
     [("cache mutexes", "utils/caches/lru.go LRU.l"), ("entry mutex", "utils/caches/request.go entry.m")],
     "lockset analysis (guarded-field discovery, lock balance on every exit) over the SSA form",
     "Every public entry point and every goroutine they start is explored path-sensitively; every access to a field written outside construction must hold a common lock. Assumes callbacks do not re-enter the same cache.")

prop("C02", "A cache answers with the loader's own outcome",
     """A lookup that finds a stored entry returns exactly the stored value as a hit without calling the loader; otherwise the loader is called exactly once, with the requested key.
     A loader error is returned unchanged and nothing is stored; a loaded value is returned unchanged and, unless the loader asked for no caching, stored under the requested key before the lookup returns.
     Invalidating a key removes that key's entry and no other.""",
     ["inputs", "histories"], "every key, loader outcome and history of lookups, evictions and invalidations",
     "Tests use a handful of keys and always-succeeding loaders; they cannot enumerate the histories.",
     ["utils/caches/lru.go", "utils/caches/mem.go"],
     [("lookup", "utils/caches/lru.go LRU.Get"), ("lookup", "utils/caches/mem.go memCache.Get"), ("removal", "LRU.Invalidate, memCache.Invalidate")],
     "path-sensitive abstract interpretation of the lookup/insert/remove paths with typestate on the loader call",
     "Loader results, map contents and callbacks are symbolic; maps and heaps are summarised, so each path stands for every history reaching it.")

prop("C03", "The LRU evicts the least recently used entry and respects its size",
     """When a lookup returns, the total size of the entries in an LRU cache never exceeds the configured maximum, and the accounted size is the sum of the sizes of the entries present.
     Room is made by removing the entries whose last use is the oldest, where both a hit and an insertion count as a use.
     The key index always points at the entry of that key.""",
     ["histories", "inputs"], "every sequence of lookups and invalidations with arbitrary keys and sizes",
     "The LRU test does seven lookups with one size limit; eviction order over arbitrary histories is never observed.",
     ["utils/caches/lru.go"],
     [("recency heap", "utils/caches/lru.go lruHeap"), ("size accounting", "LRU.curSize"), ("eviction loop", "LRU.Get")],
     "inductive invariant and ordering analysis by abstract interpretation of every mutation path",
     "Checks that each operation re-establishes the size and index invariants and that the comparison and the timestamps order victims by last use. Assumes the clock does not go backwards and an entry larger than the maximum is evicted again.")

prop("C04", "The request cache does one fetch per key at a time and honours the lifetime",
     """For each key at most one fetch is in progress; a caller that waited for it gets its outcome without fetching again while that outcome is still valid.
     A fetched outcome (value and error) with a positive lifetime is served as a hit until it expires and never afterwards; one with no lifetime is never served to later callers.""",
     ["schedules", "histories"], "every interleaving of concurrent requests, every lifetime and fetch outcome",
     "The test runs one scripted interleaving with a fixed one second lifetime.",
     ["utils/caches/request.go"],
     [("per entry lock", "utils/caches/request.go entry.m"), ("expiry", "entry.expire")],
     "typestate analysis (fetch only under the per-key lock, expiry dataflow) over all paths",
     "Time comparisons are kept symbolic as ordering facts; the lock identifies one entry per key.")

# ---------------------------------------------------------------- utils/sync
prop("Y01", "The typed concurrent map works for every value and passes results through",
     """Every operation of the typed concurrent map accepts every value of its type, including nil interface values, and never panics on what was stored through it.
     Each operation forwards its key and value unchanged and reports the found/loaded result of the underlying map; iteration visits entries until the callback says stop and reports the callback's error.""",
     ["inputs", "programs"], "every key/value type instantiation, every value including nil interfaces",
     "Tests instantiate two types with non-nil values only.",
     ["utils/sync/map.go"], [("typed wrapper", "utils/sync/map.go Map")],
     "dataflow of arguments and results through the wrapper plus nil-assertion lint, path-sensitively",
     "The standard library map is taken as specified.")

prop("Y02", "A timed lock attempt tells the truth",
     """A timed lock attempt returns true only if the caller now holds the lock, and when it returns false the attempt never ends up holding the lock for good: if the lock is obtained after the timeout it is released at once.
     No helper goroutine is left blocked for ever once the lock becomes available.""",
     ["schedules"], "every interleaving of the waiter, the timer and the lock holder",
     "The race between timeout and acquisition needs an interleaving that the test cannot force.",
     ["utils/sync/mutex.go"], [("hand-over channel", "utils/sync/mutex.go Mutex.TryLock")],
     "typestate analysis of the hand-over protocol on both sides (caller and helper goroutine)",
     "Channel semantics are taken from the language: an unbuffered send completes only with its receive.")

prop("Y03", "The instrumented mutex excludes as the one it wraps",
     """Locking the instrumented mutex returns only once the caller holds it alone, and unlocking gives it back exactly once, on every path.
     What it notes about the holder is read and written only while the lock is held, so any number of goroutines may use it without a data race.""",
     ["schedules"], "every interleaving of lock and unlock",
     "No test uses it from two goroutines, and a race on its notes shows nothing until it is looked for.",
     ["utils/sync/mutex.go"], [("Lock", "utils/sync/mutex.go"), ("Unlock", "utils/sync/mutex.go")],
     "lock typestate over all paths of Lock and Unlock of every type of the package that has its own",
     "The wrapped mutex of the standard library is taken to work; callers are expected to unlock only what they hold.")

# ---------------------------------------------------------------- storage
prop("T01", "In-memory storage is safe for concurrent use and iteration",
     """Any number of goroutines may read, write and iterate the in-memory store at the same time without a data race.
     No operation returns or panics with the lock held, and iteration never calls the user's callback with the lock held, so a callback may use the store.""",
     ["schedules"], "every interleaving of callers, and callbacks that use the same store",
     "Tests are single goroutine.",
     ["storage/keyvalue.go"], [("store lock", "storage/keyvalue.go")],
     "lockset analysis (guarded-field discovery, lock balance, no callback under lock) over the SSA form",
     "Every public entry point is explored path-sensitively; every access to mutable state must hold a common lock and no user callback may run with it held.")

prop("T02", "Storage iteration yields exactly the matching entries",
     """Iterating a store calls back once for every entry that satisfies all the given filters, with that entry's own key and value, and for no other.
     The first callback error stops the iteration and is returned, except the end-of-data marker which stops it successfully; an unknown filter operator is an error and never silently matches or skips.""",
     ["inputs", "histories"], "every store content, filter list and callback behaviour",
     "The suite checks one content and three filters.",
     ["storage/keyvalue.go", "storage/filter.go"], [("Range", "storage/keyvalue.go"), ("Filter.Check", "storage/filter.go")],
     "iteration typestate over all paths plus term-level decision of each filter operator and a map-order lint on the comparison text",
     "Each entry must be evaluated with every filter before it is handed on; loops are summarised after two iterations. The text rendering used for comparison is trusted to be injective.")

prop("T03", "A stored value is read back until it is overwritten or deleted",
     """Reading a key from the in-memory store returns the value last written under that key, or nothing after it was deleted or if it was never written.
     Writing or deleting a key changes that key's entry and no other, and reports success only if it did.""",
     ["histories", "inputs"], "every history of reads, writes and deletes",
     "The suite performs one short history.",
     ["storage/keyvalue.go"], [("Get, Upsert, Delete", "storage/keyvalue.go memKeyValue")],
     "dataflow of key and value through every direct access, path-sensitively",
     "One map update per write with the caller's own key and value; the map itself is taken from the language.")

# ---------------------------------------------------------------- utils/prom
prop("P01", "Metrics are safe for concurrent update and exposition",
     """Counters, gauges and histograms may be updated, and the registry modified and exposed, from any number of goroutines at the same time without a data race.
     No operation returns or panics with a lock held and none deadlocks on its own lock.""",
     ["schedules"], "every interleaving of updates and expositions",
     "Tests update and print metrics from a single goroutine.",
     ["utils/prom/counter.go", "utils/prom/gauge.go", "utils/prom/histogram.go", "utils/prom/metric.go", "utils/prom/custom.go"],
     [("metric mutexes", "utils/prom/*.go")],
     "lockset analysis (guarded-field discovery, lock balance on every exit) over the SSA form",
     "Every public entry point, including the handler closure, is explored path-sensitively; every access to mutable state must hold a common lock or be atomic.")

prop("P02", "Metric exposition is well formed and complete",
     """For every registered metric the exposition writes its HELP and TYPE header before its samples, every sample line carries the metric's name, all of its labels in declared order and ends in a newline.
     Label values are escaped as the exposition format requires, so no label value can break a line, and a failed write is reported to the caller.""",
     ["inputs", "fault_sequences"], "every set of metrics, label values (quotes, backslashes, newlines, non-ASCII) and write failures",
     "Tests print a few metrics with plain ASCII labels to a writer that never fails.",
     ["utils/prom/metric.go", "utils/prom/labels.go", "utils/prom/counter.go", "utils/prom/gauge.go", "utils/prom/histogram.go", "utils/prom/custom.go"],
     [("exposition", "utils/prom/metric.go Registry.Print"), ("label formatting", "utils/prom/labels.go stringify")],
     "reconstruction of the written text (format strings, label rendering) by path-sensitive abstract interpretation, matched against the exposition grammar",
     "Decides the shape of every written line, the order of header and samples, the escaping of label values, completeness of each entry and error propagation. The text of Desc and metric names is the programmer's and taken as is.")

prop("P03", "Histogram buckets, count and sum agree",
     """Every observation adds one to the count, its value to the sum, and one to exactly the buckets whose upper bound is not below it, in one atomic step as seen by any exposition; the +Inf bucket always equals the count.
     A histogram that has been created but never observed can be exposed without failing.""",
     ["inputs", "schedules"], "every observation value, bucket layout and interleaving with an exposition",
     "Tests observe a few values in one goroutine and always before printing.",
     ["utils/prom/histogram.go"], [("observe", "utils/prom/histogram.go")],
     "typestate of one observation and one exposition over all paths (counts, sums, bucket/bound pairing, difference-bound index ranges, single critical section)",
     "Loops over the bounds are unrolled and then summarised with symbolic indices; the bounds of a histogram are taken as fixed after creation.")

prop("P04", "Counter and gauge updates are never lost",
     """Every counter observation adds its value, and every gauge increment or decrement adds or takes its amount, exactly once, to the one series of its labels, also when any number of goroutines update or create that series at once; a histogram observation goes to the series of its labels as well.
     Setting or removing a gauge function changes the series of its labels and no other, and the exposition shows for every counter and gauge what was accumulated or what the function reports, to six decimals or better.""",
     ["inputs", "schedules"], "every amount, label list and interleaving of updates",
     "Tests update a few series from one goroutine, where a read and a write in separate steps, or two goroutines creating a series, cannot collide.",
     ["utils/prom/counter.go", "utils/prom/gauge.go", "utils/prom/histogram.go"], [("Observe", "utils/prom/counter.go"), ("Counter", "utils/prom/gauge.go")],
     "dataflow of labels and amount from the call to the one shared entry over all paths, with an atomic-step typestate (read and write in one critical section, atomic add, or compare-and-swap) and of the entry's number to the sample line",
     "The concurrent map is taken as decided by Y01; labels are told apart by their rendering (P02). Arithmetic of the numbers themselves (overflow, rounding of float sums) is Go's.")

# ---------------------------------------------------------------- shutdown
prop("D01", "Shutdown starts once and is seen by everybody",
     """Starting a shutdown any number of times, from any goroutines, never panics: the started signal is given exactly once, by the first start, and stays given; the delayed signal is given once, five seconds later.
     Taking a hold, releasing it, asking for done and starting the shutdown may be done from any number of goroutines without a data race.""",
     ["schedules"], "every interleaving of begin, hold, release and done",
     "Tests exercise a couple of fixed sequences.",
     ["shutdown/shutdown.go", "shutdown/accessors.go"], [("state", "shutdown/shutdown.go")],
     "lockset analysis plus close-once typestate of the broadcast channels over the SSA form",
     "Every close of a shared channel must be single shot (a shared once, or a lock together with a flag or the removal of the channel); the five seconds are read from the source constant.")

prop("D02", "Done is only reported while no hold is active",
     """The done signal is given only at a moment when every hold taken so far has been released, and everybody who asked for it is told as soon as that is the case, however holds, releases and questions interleave.
     Every hold counts once, until its first release; releasing it again changes nothing. Hold-and-wait returns only after the shutdown has started, holding it from before it waits.""",
     ["schedules", "histories"], "every interleaving and history of holds, releases and questions",
     "Tests run a few fixed sequences.",
     ["shutdown/shutdown.go"], [("hold accounting", "shutdown/shutdown.go")],
     "inductive lock invariant (count and waiters) and counting typestate by abstract interpretation",
     "The state at every lock is arbitrary up to the invariant, which every unlock must re-establish; each hold's release is run twice symbolically. Who takes a hold is trusted to release it.")

prop("D03", "Signals escalate from graceful shutdown to exit",
     """While waiting for signals, the first interrupt, terminate or quit signal starts the graceful shutdown, the second cancels the root context with an error, and a third ends the process with a failure status, never earlier.
     Waiting returns only when the shutdown is reported done.""",
     ["schedules", "histories"], "every sequence of signals and every moment at which the holds are released",
     "The suite never sends a signal.",
     ["shutdown/shutdown.go"], [("waitForSignal", "shutdown/shutdown.go")],
     "typestate of the signal loop over all paths",
     "Counts the signals received on every path and requires each effect before the next wait.")

# ---------------------------------------------------------------- http
prop("H01", "Internal error text never reaches an HTTP client",
     """Whatever error a handler or the framework produces, the HTTP response body and headers contain the error's text only when the error was explicitly made public with an HTTP status; every other error gives a generic server-error response.""",
     ["inputs", "programs"], "every error value any handler can return, every path that writes a response",
     "Tests check one or two error values.",
     ["http/error.go", "http/server.go", "http/api.go"], [("error to response", "http/server.go handleRequest")],
     "taint of error text over every path of every responder",
     "Error text may reach the header or body only on paths where the error is known to carry an explicit status below 500.")

prop("H02", "Every HTTP request gets exactly one well formed response",
     """For every request the server writes the status at most once, sets headers before the status, writes no body bytes before it and none with a no-content status.
     A body is compressed only for a client whose request announces that encoding, and then it is labelled as such and completely flushed.""",
     ["inputs", "programs"], "every request and every handler outcome",
     "Tests make a few plain requests.",
     ["http/server.go", "http/api.go"], [("handleRequest", "http/server.go")],
     "typestate of the ResponseWriter over every path of every responder",
     "Status at most once and before the body, headers before the status, nothing after 204, compression labelled, announced and closed.")

prop("H03", "A failing API request never runs the operation nor looks like success",
     """The operation behind an HTTP API endpoint runs only after its whole input was read, parsed and accepted; if any step before it fails, or it fails itself, or its output cannot be produced, the response is an error and not a success.
     A request that is malformed or misses a required input gets a client error status.""",
     ["inputs", "fault_sequences"], "every request body, every failing step",
     "Tests send well formed requests plus one missing field.",
     ["http/api.go", "api/handler.go"], [("RegisterAPI", "http/api.go")],
     "typestate of an API request plus error discipline",
     "Read, parsed, received, run once, sent; every failing step prevents the next ones and has the right class of status.")

prop("H04", "The HTTP client never leaks a response and never takes a failure for success",
     """For every response it receives the client closes the body on every path, and a response that is not a success, or whose body cannot be read or decoded, is returned as an error.
     A call that cannot be built or sent returns an error and never panics.""",
     ["inputs", "fault_sequences"], "every status, body, transport and decoding failure",
     "Tests only talk to a healthy local server.",
     ["http/client.go"], [("Client", "http/client.go")],
     "typestate of every response, error discipline and nil analysis of the client",
     "Every path of every exported method of the client, with every call forked into success and failure.")

prop("H05", "Stopping the server drains it under a shutdown hold",
     """A listening server holds the process shutdown from before it accepts connections until every in-flight request is drained or the grace period ends; it stops accepting when the shutdown starts.
     Starting to listen always returns, with the listening address or an error.""",
     ["schedules", "fault_sequences"], "every interleaving of accept, serve failure and shutdown",
     "Tests start one server and shut it down once.",
     ["http/server.go"], [("Listen", "http/server.go")],
     "ordering of effects over Listen and the goroutines it starts",
     "Symbolic paths of Listen, then of each goroutine from the state in which it was started; net/http's own drain is assumed.")

prop("H06", "An explicit HTTP status survives wrapping",
     """A handler error carrying an explicit HTTP status decides the response status, however many times the error was wrapped on its way; any other error gives 500, and no error gives 200 with the returned body or 204 without one.""",
     ["inputs", "programs"], "every wrapping chain and status",
     "Tests use one unwrapped error.",
     ["http/error.go", "http/server.go"], [("error code", "http/error.go")],
     "typestate of the status over every path; As-model of wrapped errors",
     "errors.As is modelled over unknown chains; the status written must be the one found, the default, or 200/204.")

prop("H07", "Every served request is counted once with its real status",
     """Every request handled by the server, including those whose handler fails or panics, is recorded exactly once in the request metrics, with the status the client was sent (500 if its handler panics before sending one).
     A connection that is taken over by its handler is counted once and has no status.""",
     ["inputs", "programs"], "every handler outcome, including panics",
     "Tests do not look at the metrics.",
     ["http/server.go", "http/metrics.go"], [("metrics", "http/metrics.go")],
     "counting of observations over nested instrumented handlers",
     "Abstract handlers (every order of WriteHeader, Write, Hijack, return and panic) run inside the real wrappers.")

prop("H08", "A raw call reads at most its maximum length",
     """However much a client sends, the handler of a raw HTTP call reads at most its configured maximum length of the body, or one megabyte if none is configured; a longer body is refused and the handler does not run.""",
     ["inputs"], "every body and every configured maximum",
     "Tests send a few bytes.",
     ["http/call.go"], [("CallHandler.MaxLength", "http/call.go")],
     "taint of the request body: it reaches a reader only through a limit",
     "The limit must be the handler's own when it is positive and the default otherwise, on every path.")

# ---------------------------------------------------------------- api
prop("A01", "API fields cross the wire only in their declared direction",
     """Receiving a request sets only the fields declared as inputs and sending a response exposes only the fields declared as outputs, each under its declared name.
     The authenticated identity is taken from the transport only and can never be set from request data.""",
     ["inputs", "programs"], "every request type and every request body",
     "Tests use a couple of request types.",
     ["api/handler.go", "api/tag.go", "api/json.go"], [("Recv/Send", "api/handler.go")],
     "provenance and typestate analysis over all paths of the tag parser, the constructor, Send, Recv and the transports", "Reflection is modelled by pure terms: which struct field is transferred under which name is compared with the entry of the list of declared fields; loops over the lists are followed for the first, the second and a generic entry.")

prop("A02", "Required inputs and authentication are enforced before the handler runs",
     """Receiving a request fails unless every required input is present and not zero and, for a handler that requires it, an authenticated identity is present; any input that cannot be decoded fails the request.
     On failure no request object is handed out.""",
     ["inputs"], "every combination of present, missing, null and malformed inputs",
     "Tests miss one field once.",
     ["api/handler.go"], [("Recv", "api/handler.go")],
     "typestate over all paths of Recv, the tag parser and the constructor", "A path that hands out an object has to have decoded every entry of the list of inputs, to know that a required one is not zero and to have asked for the identity unless none is declared.")

prop("A03", "Requests are isolated from each other and from the prototype",
     """Every request gets a fresh object whose undeclared fields are those of the registered prototype; what a request or its handler writes to the fields of the object can neither be seen by another request nor change the prototype.""",
     ["schedules", "histories"], "every sequence and interleaving of requests",
     "Tests run requests one by one on disjoint data.",
     ["api/handler.go"], [("request allocation", "api/handler.go")],
     "ownership analysis of the request object and of the prototype", "The object must be allocated by the call that returns it and initialised from the handler's copy; no path stores into the handler. Memory behind pointers, maps and slices inside the prototype is shared on purpose and not covered.")

prop("A04", "OpenAPI generation never fails on a legal type and terminates",
     """Generating the schema of any Go type used by an API terminates, recursive types included, and returns an error rather than panicking for a type it does not support.
     Fields hidden from JSON are not exposed and every $ref it emits is defined.""",
     ["programs"], "every Go type",
     "Tests generate schemas for a handful of types.",
     ["api/openapi/schema.go", "api/openapi/path.go"], [("schemaFromType", "api/openapi/schema.go")],
     "abstract interpretation with a model of reflect, modular over the recursion on types: well-founded descent (visited marks, definitions), panic-freedom, provenance of properties, elements and references",
     "the recursive function and the exported entry are decided on their own over every kind of type and every answer of the recursion; code of user types (MarshalJSON of a zero value) may do anything including panic")

# ---------------------------------------------------------------- ws
prop("W01", "No websocket input can crash the server",
     """Whatever bytes, frames, channels, paths or data a websocket client sends, the server answers with an error frame or closes the connection: no goroutine of the server panics because of them. A panic in a registered method is contained as well.""",
     ["inputs", "histories"], "every sequence of websocket messages",
     "Tests send a handful of well formed frames.",
     ["http/ws/ws.go", "http/ws/conn.go", "http/ws/channel.go", "http/ws/reflect.go", "http/ws/rpc.go"], [("read loop", "http/ws/conn.go")],
     "panic-freedom by abstract interpretation of everything a connection runs, with a model of package reflect and contracts for registered handlers",
     "Every instruction of the server that may panic is an obligation, unless a recover encloses it; methods are looked up and called by reflection under the facts recorded at registration. Application callbacks (OnConnect, OnData) are assumed not to panic; registered methods are not.")

prop("W02", "Websocket writes are serialised",
     """Frames are written to a connection one at a time: two goroutines never write to the same connection concurrently, closing included, and the shared state of a connection is never accessed without synchronisation.""",
     ["schedules"], "every interleaving of channel handlers, the reader and close",
     "Tests use one channel at a time.",
     ["http/ws/ws.go", "http/ws/conn.go"], [("write lock", "http/ws/ws.go")],
     "lockset analysis of socket operations over all paths of the connection's API, plus confinement of its unsynchronised state to the reading goroutine",
     "The socket's own writer is the guarded resource. Reads happen in one goroutine by construction, which is part of what is decided.")

prop("W03", "A websocket connection ends cleanly",
     """When a connection ends for any reason, its socket is closed, its context is cancelled and everything it registered for its lifetime is released, on every path.""",
     ["fault_sequences", "schedules"], "every way a connection can end",
     "Tests close connections in one way.",
     ["http/ws/ws.go", "http/ws/handler.go", "http/ws/conn.go"], [("close", "http/ws")],
     "typestate analysis over all paths, panicking ones included: acquire/release of sockets, handlers and connections, end of the read loop",
     "Faults are every error return and panic of library calls. That a close frame reaches the peer is not claimed.")

prop("W04", "Only intended methods are reachable over a websocket channel",
     """A frame can invoke only the exported methods of the object registered under its path whose signature is that of a handler, never the initialiser, on the object created for that channel, with the data decoded from that frame.
     A failing decode means that the method is not called and the client gets an error frame.""",
     ["inputs", "programs"], "every registered type and every frame",
     "Tests register one type and call two methods.",
     ["http/ws/reflect.go", "http/ws/rpc.go", "http/ws/channel.go"], [("dispatch", "http/ws/reflect.go")],
     "provenance analysis of the registration and dispatch terms: abstract interpretation with a model of reflect from the registered type to the invoked method",
     "Which methods exist is up to the registered type: decided for any type.")

prop("W05", "Channels of a websocket connection are independent",
     """What happens on a channel affects that channel only: closing it, a failing method, an undecodable argument or a failing initialiser leave the connection and the other channels usable, and everything sent on its behalf carries its ID.
     A channel exists from a successful open until it is closed, and closing it removes that one only.""",
     ["histories", "inputs"], "every sequence of frames over any number of channels",
     "Tests open one channel.",
     ["http/ws/channel.go", "http/ws/rpc.go", "http/ws/handler.go", "http/ws/reflect.go"], [("Channel", "http/ws/channel.go")],
     "typestate and provenance analysis of the channel table and of every frame sent, over all paths of the dispatch",
     "A panicking method ends the connection by design, so it is outside the property.")

# ---------------------------------------------------------------- enc
prop("E01", "Numbers are never silently changed when decoded",
     """Decoding a number into any Go numeric type either yields the value (truncating a fractional part for an integer, rounding to the nearest value for a float) or fails: a number outside the range of the destination type is an error and never wraps around.
     Encoding an integer keeps its exact value.""",
     ["inputs", "programs"], "every number and every destination type",
     "Tests decode a few small numbers.",
     ["enc/numeric.go", "enc/handler.go", "enc/scalar.go"], [("numeric conversion", "enc/numeric.go")],
     "interval analysis of every numeric conversion on all paths of the encoders and decoders",
     "Every conversion between number types must be of a value the facts of the path keep in the range of the destination; a setter of reflect must be preceded by its overflow test or the exact kind; the text parsed must be the whole literal or its integer part; documents decoded into an any must keep their digits. Numbers of float type given to the encoder are printed by strconv, which is trusted.")

prop("E02", "Decoding never panics",
     """Decoding any document into any Go value returns an error when the document does not fit the destination and never panics.""",
     ["inputs", "programs"], "every document and destination type",
     "Tests decode well formed documents into matching types.",
     ["enc/handler.go", "enc/list.go", "enc/map.go", "enc/pairs.go", "enc/scalar.go", "enc/time.go", "enc/nil.go"], [("unmarshalInto", "enc")],
     "panic-freedom by abstract interpretation with a model of package reflect and its preconditions",
     "Modular over the recursion: the recursive functions are assumed at calls under a contract that every call is checked to meet. User supplied (un)marshalers are assumed not to panic; stack exhaustion is excluded by the depth limit of encoding/json for documents.")

prop("E03", "A failing part fails the whole conversion",
     """If any element, key or field of a value cannot be encoded or decoded, the whole conversion returns an error: errors of nested conversions and of user supplied (un)marshalers are never dropped.""",
     ["inputs", "programs"], "every nested failure",
     "Tests never make a nested marshaler fail.",
     ["enc/handler.go", "enc/list.go", "enc/map.go", "enc/pairs.go"], [("recursion", "enc/handler.go")],
     "path-sensitive error propagation analysis over the recursive conversion", "Every call of a nested conversion, a user supplied (un)marshaler or a fallible library conversion: a path on which its error is not known to be nil has to return an error.")

prop("E04", "Only visible fields are encoded and decoded",
     """Encoding a struct emits, and decoding a struct sets, exactly its exported fields that are not hidden from JSON, under their JSON names, except that encoding may leave out empty fields marked omitempty.""",
     ["programs", "inputs"], "every struct type and document key",
     "Tests use a few struct types.",
     ["enc/handler.go", "enc/map.go", "enc/pairs.go", "enc/util.go"], [("tag parsing", "enc/util.go")],
     "typestate of the walk over the fields of a struct, with provenance of names and values",
     "A field the path leaves without converting it must be known to be hidden, absent from the document or empty and omitempty; one it converts must be visible, and key and value have to come from the same field. The walk is followed for a generic field.")

prop("E05", "Decoding a document consumes all of it",
     """A successful JSON decode means that the input was exactly one JSON document: malformed, truncated or trailing data is an error.""",
     ["inputs"], "every byte string",
     "Tests decode well formed documents.",
     ["enc/json.go"], [("JSON.Decode", "enc/json.go")],
     "typestate over all paths of the decoders", "A path that succeeds has either given all of the data to json.Unmarshal or json.Valid, or seen the decoder report the end of the input after the one document.")

prop("E06", "Package-level state is never accessed unsynchronised",
     """Any number of goroutines may use the library at the same time, converting values included, without a data race on package-level variables: those changed after initialisation are only accessed under a lock.""",
     ["schedules"], "every interleaving",
     "Tests are single goroutine.",
     ["enc/handler.go", "enc/util.go", "http", "api", "storage", "shutdown"], [("package state", "enc")],
     "lockset analysis of every package-level variable that a function other than an initialiser writes",
     "Variables whose own type synchronises (sync, atomic, channels) are exempt. The context package is decided by X01 and X05, the test helpers are not covered.")

prop("E07", "What is decoded does not share the input's memory",
     """Decoding copies what it keeps: a value or raw JSON decoded from a buffer stays the same when the caller reuses the buffer afterwards.""",
     ["histories"], "every input buffer and its reuse",
     "Tests never reuse the buffer they decode.",
     ["ctx/error.go", "enc/time.go"], [("JSON.UnmarshalJSON", "ctx/error.go")],
     "alias analysis: no location reachable after the call is stored a slice of the input", "Covers the methods called by encoding/json with a buffer it reuses (UnmarshalJSON, UnmarshalText); the decoders of encoding/json itself are trusted to copy.")

prop("E08", "Encoding fails with an error, never panics",
     """Encoding any acyclic Go value either succeeds or returns an error, whatever its type, nil pointers and interfaces inside included.""",
     ["inputs", "programs"], "every Go value that does not contain itself",
     "Tests encode values of supported types.",
     ["enc/handler.go", "enc/json.go", "enc/map.go", "enc/pairs.go"], [("Marshal", "enc/handler.go")],
     "panic-freedom by abstract interpretation with a model of package reflect and its preconditions",
     "Modular over the recursion like E02. User supplied marshalers are assumed not to panic on values they can be called on; whether they are called on nil pointers is decided.")

# ---------------------------------------------------------------- ctx, log
prop("X01", "Deriving a context never changes its parent",
     """Adding a tag, a logger, a helper, a value, a span or a tracking id to a context affects only the derived context: the parent and its other descendants keep exactly what they had, and any number of goroutines may derive from the same context at the same time.
     The derived context wraps the one it was given, and a lookup of any key that is not its own gives what the parent gives.""",
     ["schedules", "histories"], "every tree of derivations",
     "Tests derive short linear chains.",
     ["ctx/tags.go", "ctx/span.go", "ctx/log/log.go", "ctx/helper.go", "ctx/detach.go"], [("tags", "ctx/tags.go")],
     "effect analysis and lockset over all paths of the deriving functions and Value methods",
     "No store reaches memory of the arguments, the result holds the parent, and Value methods answer only for keys of their own type.")

prop("X02", "A detached context outlives its parent but keeps its values",
     """A detached context is never cancelled by its parent and has no deadline, while every value, tag and logger of the parent is still found in it.""",
     ["histories"], "every parent context state",
     "The test cancels one parent once.",
     ["ctx/detach.go"], [("detach", "ctx/detach.go")],
     "dataflow over all paths of the methods of the detached context",
     "Deadline, Done and Err return constants on every path; Value returns what the parent returns for the same key.")

prop("X03", "Errors keep their cause, context and first stack",
     """Making or wrapping an error keeps the original error reachable for inspection, together with the context and the stack starting at the caller; an error that has a stack anywhere in its chain is returned as it is.
     Wrapping nil gives nil.""",
     ["inputs", "programs"], "every error chain",
     "Tests wrap one error once.",
     ["ctx/error.go"], [("WrapError", "ctx/error.go")],
     "provenance analysis over all paths of the error constructors",
     "What is stored and returned is traced to the arguments; the call depth handed to the runtime is compared with the frames below it.")

prop("X04", "Tracking ids tell spans apart",
     """A context with tracking reports the tracking id it was given, or a new one if none was given. The id of a span is its parent's id, a separator and a step that no sibling shares, also when siblings are opened at the same time.""",
     ["schedules", "histories"], "every tree of spans, opened in any order by any goroutines",
     "Tests open a handful of spans in one goroutine.",
     ["ctx/span.go"], [("trackingCtx.Value", "ctx/span.go")],
     "provenance analysis through WithTracking, Span and GetTracking",
     "The step must be the result of an atomic add (or an increment under a lock) on memory shared by the siblings.")

prop("X05", "Every tag of a context is visited once, ancestors first",
     """Visiting the tags of a context calls back exactly once for every tag attached on the way from the root, ancestors first, with its key and the JSON of its value. The first error a callback returns stops the visit and is returned.""",
     ["histories", "inputs"], "every chain of contexts, every callback and every tag value",
     "Tests visit two tags without errors.",
     ["ctx/tags.go"], [("RangeTag", "ctx/tags.go")],
     "typestate and provenance over all paths of RangeTag, WithTag and the Value methods",
     "Each tag asks its parent before calling back, exactly once, with its own fields; errors are returned unchanged.")

prop("L01", "Logging never changes its arguments and redacted values stay hidden",
     """Formatting a log line never modifies the caller's arguments, and an argument that rewrites itself for logging is only ever formatted as what it gives, so a redacted value's content does not appear whatever the format.
     Each log call reaches the context's logger, or the default one if it has none, exactly once with its own level, format, arguments and call site.""",
     ["inputs"], "every argument list and format",
     "Tests log a few lines.",
     ["ctx/log/log.go", "ctx/log/redacted.go"], [("FormatMsg", "ctx/log/log.go")],
     "taint analysis from log arguments to formatting, for argument lists up to length two",
     "Arguments are unknown values that may implement any interface; longer lists go through the same loop.")

# ---------------------------------------------------------------- utils, config, test
prop("U01", "Reading until end of data returns everything or an error",
     """Reading a whole stream with a time limit returns every byte the reader delivered, including those delivered together with an error or end of data, and reports any read error; on timeout it returns an error and shares no buffer with the abandoned reader.""",
     ["fault_sequences", "schedules"], "every sequence of reads, errors and timeouts",
     "Tests read from well behaved readers.",
     ["utils/io.go"], [("ReadAll", "utils/io.go")],
     "path-sensitive abstract interpretation of the reader goroutine and its consumer, ownership of the buffer by lockset",
     "The reader is unknown: every result of Read, with and without an error, is explored. One iteration of the read loop is generic and stands for all.")

prop("U02", "The ordered map keeps its index and order consistent",
     """After any history of sets and deletes an ordered map contains exactly the keys set and not deleted, each once with its last value, and iterates them in first-insertion order.""",
     ["histories"], "every history",
     "Tests do a few operations.",
     ["utils/ordered_map.go"], [("OrderedMap", "utils/ordered_map.go")],
     "representation invariant by induction over the operations: net effect of every path on index and list, provenance of results, walks decided for up to 3 entries plus a uniformity argument",
     "used by one goroutine; keys equal to themselves (no NaN); the walk over longer lists rests on the rule that no branch of it depends on the position or on what came before")

prop("U03", "A failing assertion always fails the test",
     """Every assertion of the test package stops the test as failed when its condition does not hold, and lets it go on when it does. Looking up the source text of the call, which is only shown, never panics and never changes the verdict; Shift and Pop give the element at their end of the list and leave the others.""",
     ["inputs", "programs"], "every assertion and argument",
     "The suite mostly runs assertions that pass.",
     ["test/assert.go", "test/equals.go", "test/errors.go", "test/nil.go", "test/empty.go", "test/list.go", "test/strings.go"], [("assertions", "test/*.go"), ("source of the call", "utils/ast/call_args.go")],
     "path-sensitive abstract interpretation: verdict of every path compared with the condition the assertion is named for, panic freedom, provenance of the JSON compared",
     "the context given to an assertion on JSON has a tester; testing, fmt and encoding/json do what they document; values that can not be encoded are compared by the text of the error; what the compiler accepted parses")

prop("U04", "Configuration loading reports every bad or missing value",
     """Loading configuration from the environment fills every tagged field from its variable or default, fails with an error for a missing required or malformed value, and never panics.""",
     ["inputs", "programs"], "every configuration struct and environment",
     "Tests use one struct.",
     ["config/config.go"], [("config", "config/config.go")],
     "path-sensitive abstract interpretation with a model of reflect: panic freedom, walk over the fields (name looked up, default, missing), provenance of what is stored, every failure returned; recursion by contract on the decoder",
     "code of user types does not panic; types do not contain themselves through lists alone; Must panics on purpose; what a field whose variable is empty and whose default is empty becomes is not decided")
