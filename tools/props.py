#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "JSON documents survive parsing and writing unchanged",
  "Every valid JSON document that is parsed and written back denotes the same value to any conforming JSON reader (same strings, numbers, member set, array order), and what is written is always itself valid JSON, also for strings with quotes, backslashes, control characters and non-ASCII text. Text that is structurally not a JSON document (truncated, unbalanced, trailing garbage, bad escapes, bad literals, raw control characters inside strings other than the usual whitespace ones) is rejected without yielding a value. Documents nested beyond the documented depth limit, and strings or numbers the library's types cannot hold (an escaped NUL, half a surrogate pair, a number beyond double range), may be refused but are never silently altered into a different document. Values put into objects and arrays through the API are the ones read back, the latest one winning for a repeated object key.",
  ["inputs", "histories"], "all JSON texts (valid and mutated), all value trees and edit sequences built through the API",
  "The existing tests parse about twenty hand-written documents; none compares with an independent reader or covers escapes, deep nesting, hash-collision of members or random edits.",
  ["src/json/mcp_json_parser.c", "src/json/mcp_json_stringifier.c", "src/json/mcp_json.c", "src/json/mcp_json_utils.c"],
  [("recursive-descent parser with depth limit", "src/json/mcp_json_parser.c"), ("growable output buffer and string escaping", "src/json/mcp_json_utils.c"), ("object members in a chained hash table that grows", "src/json/mcp_json_utils.c")],
  ["parse result, written text re-read by an independent reader"])

p("P02", "Exactly one correctly addressed answer per request, none per notification",
  "For every message delivered to a server, each request in it is answered exactly once with a JSON-RPC 2.0 object carrying that request's id and either a result or an error, notifications and responses get no answer, and the answers of a batch come in the order of its requests. An unknown method, bad parameters, unknown tool or resource, or an invalid batch element yields an error for that element only and never affects the answers to its neighbours. (Request ids are whole numbers up to 2^53; a batch is any message whose text is a JSON array.)",
  ["inputs", "histories"], "all sequences of single messages and batches, valid and invalid elements in any position, all methods",
  "No stable test drives the server's message handling at all; the handler tests are not part of the reliable suite and only look at a few single requests.",
  ["src/server/mcp_server_task.c", "src/server/mcp_server_dispatch.c", "src/server/mcp_server_handlers.c", "src/server/mcp_server_response.c", "src/json/mcp_json_message.c"],
  [("batch parse, per-message dispatch and answer collection", "src/server/mcp_server_task.c"), ("method dispatch", "src/server/mcp_server_dispatch.c"), ("message (de)serialisation", "src/json/mcp_json_message.c")],
  ["text handed back to the transport"])

p("P03", "Hostile input never corrupts memory or stops the server",
  "No byte sequence a peer can send as a message makes the server read or write outside its memory, use released memory, execute undefined behaviour, crash or hang. After any such input a well-formed request on the same server still gets its correct answer.",
  ["inputs", "histories"], "all byte sequences as messages: random bytes, mutated and deeply nested JSON-RPC, huge numbers and lengths, any order, mixed with valid traffic",
  "Tests run without sanitizers and with a handful of well-formed inputs.",
  ["src/server/mcp_server_task.c", "src/json/mcp_json_parser.c", "src/json/mcp_json_message.c", "src/server/mcp_server_handlers.c", "src/server/mcp_server_template_router.c", "src/common/mcp_arena.c", "src/common/mcp_memory_pool.c"],
  [("input length and nesting limits", "src/server/mcp_server_task.c, src/json/mcp_json_parser.c"), ("parameter type checks before use", "src/server/mcp_server_handlers.c")],
  ["sanitizer reports, answer to a follow-up probe request"])

p("P04", "TCP framing: every frame answered intact, however the bytes arrive",
  "On a TCP connection each length-prefixed request frame is answered by exactly one well-formed response frame in order, no matter how the byte stream is fragmented or coalesced and for every payload size up to the advertised limit; response payloads are byte-exact. A frame with an illegal length, a truncated frame or an abrupt disconnect ends at most that one connection; other connections keep getting their own answers and never each other's.",
  ["inputs", "schedules", "fault_sequences"], "all fragmentations, pipelining depths, payload sizes, concurrent connections and disconnect points",
  "The TCP tests are outside the reliable suite and never fragment, pipeline or disconnect mid-frame.",
  ["src/transport/mcp_tcp_transport.c", "src/transport/mcp_tcp_acceptor.c", "src/transport/mcp_tcp_client_handler.c", "src/transport/mcp_tcp_server_utils.c", "src/common/mcp_framing.c", "src/common/mcp_socket_utils.c", "src/common/mcp_buffer_pool.c"],
  [("length-prefix receive loop", "src/transport/mcp_tcp_client_handler.c"), ("send/receive exact helpers", "src/common/mcp_socket_utils.c")],
  ["bytes seen by the TCP client"])

p("P05", "Nothing is served beyond what the presented key is allowed",
  "When an API key is configured, no tool is run, no resource or listing is returned and no handler is called for a message that does not itself present that key, wherever the message stands in a batch and whatever precedes it; only the liveness ping is answered without a key. A message presenting the right key is served normally, and one presenting a wrong key, a key of the wrong type, a prefix or an extension of it is refused.",
  ["inputs", "histories", "configurations"], "all keys, all placements of credentials, all orders of keyed, unkeyed and wrong-keyed messages within and across batches",
  "No existing test configures a key.",
  ["src/server/mcp_auth.c", "src/server/mcp_server_task.c", "src/server/mcp_server_dispatch.c", "src/server/mcp_server_handlers.c"],
  [("credential verification", "src/server/mcp_auth.c"), ("permission checks by pattern", "src/server/mcp_auth.c"), ("where credentials are taken from", "src/server/mcp_server_task.c")],
  ["answers and handler invocations"])

p("P06", "Fixed-window limiter admits exactly the configured number per client",
  "For every client the basic rate limiter admits exactly the first N requests of each window and refuses the rest until the window has elapsed, then admits N again; one client's traffic never changes another's allowance. This stays exact when many threads check the same and different clients at once.",
  ["schedules", "histories", "configurations"], "all arrival histories over any number of clients, limits, window lengths, and all thread interleavings",
  "Tests sleep through one window with one or two clients, single-threaded.",
  ["src/server/mcp_rate_limiter.c"], [("window start and count per client under a lock", "src/server/mcp_rate_limiter.c")],
  ["admit/refuse decisions under a controlled clock"])

p("P07", "Advanced rate limiting never over-admits under any algorithm",
  "For each rule and client the advanced limiter never admits more requests than the algorithm's limit: at most N per window for fixed window, at most N within any window length for sliding window, at most burst plus accumulated refill for token and leaky bucket. Requests within the limit are admitted, the highest-priority matching rule decides, also when rules are added or removed meanwhile, a request matched by no rule is refused, and the statistics add up. A server configured with a limit serves as many requests as that limit allows and no more. All of this also holds under concurrent checks.",
  ["schedules", "histories", "configurations"], "all arrival histories, algorithms, rules, keys, lists, and thread interleavings",
  "Tests exercise one short burst per algorithm single-threaded with real sleeping.",
  ["src/server/mcp_advanced_rate_limiter.c", "src/server/mcp_server.c", "src/server/mcp_server_task.c"], [("limiter chosen from the configuration, asked before each message", "src/server/mcp_server_task.c"), ("per-key counters under a read/write lock", "src/server/mcp_advanced_rate_limiter.c"), ("rule selection by type, pattern and priority", "src/server/mcp_advanced_rate_limiter.c")],
  ["decisions and statistics under a controlled clock"])

p("P08", "The resource cache returns only live, latest, unmodified content",
  "A cache lookup returns either a complete private copy of the content most recently stored under that key and not yet expired, invalidated or evicted, or nothing; never older, mixed, truncated or freed content. The cache never exceeds its capacity, an entry stored within capacity and lifetime and not the least useful one is found again, and pruning removes exactly the expired entries. This holds under concurrent stores, lookups, invalidations and pruning.",
  ["histories", "schedules", "configurations"], "all operation histories over keys, capacities, lifetimes and clock advances; all interleavings",
  "Tests do a few sequential puts and gets; eviction with content, replacement and concurrency are not reached.",
  ["src/server/mcp_cache.c", "src/common/mcp_hashtable.c", "src/common/mcp_types.c"],
  [("LRU list, expiry stamps and hash table under one lock", "src/server/mcp_cache.c")], ["content returned by lookups"])

p("P09", "Thread pool runs every accepted task exactly once",
  "Every task the thread pool accepts is executed exactly once, whatever the number of submitters, queue size, and changes of the number of threads while tasks are queued or running; a refused task is never executed. Waiting for the pool returns only after all previously accepted tasks have finished, and destroying the pool returns only after every accepted task has run and no worker touches the pool afterwards.",
  ["schedules", "histories", "configurations"], "all interleavings of submit, grow, shrink, wait and destroy; all queue sizes and thread counts",
  "The thread pool test is not in the reliable suite; concurrency cannot be settled by single runs.",
  ["src/common/mcp_thread_pool.c", "src/common/mcp_thread_pool_deque.c", "src/common/mcp_thread_pool_worker.c", "src/common/mcp_thread_pool_tasks.c", "src/common/mcp_thread_pool_stats.c"],
  [("per-worker deques with stealing", "src/common/mcp_thread_pool_deque.c"), ("resize", "src/common/mcp_thread_pool_tasks.c"), ("drain on destroy", "src/common/mcp_thread_pool.c")],
  ["per-task execution counters"])

p("P10", "Locks exclude, wake-ups are not lost, timed waits honour their deadline",
  "At most one thread is inside a section guarded by one mutex or write lock and never together with readers, while readers may be concurrent. A waiter on a condition is woken by a later signal or broadcast, and a timed wait without a signal returns a timeout no earlier than the requested time and not unboundedly late.",
  ["schedules"], "all interleavings of lock, try-lock, unlock, wait, signal and timed wait among any number of threads",
  "No test covers the synchronisation layer; lock-based bugs appear only under particular schedules.",
  ["src/common/mcp_sync.c", "src/common/mcp_rwlock.c"], [("wrappers over the platform primitives", "src/common/mcp_sync.c"), ("read/write lock", "src/common/mcp_rwlock.c")], ["critical section occupancy counters, measured wait times"])

p("P11", "Memory handed out is big enough, unshared and survives until released",
  "Every block returned by any of the allocators (arena, memory pool, thread cache, object pool, buffer pool) is at least as large as requested, suitably aligned (at least 8 bytes, 16 from memory pools and the thread cache), disjoint from every other live block, and keeps its contents until it is released or its arena is reset, whatever mix of sizes, threads and releases precedes. Released memory is reusable and, when the allocator is destroyed, nothing it obtained is left allocated.",
  ["histories", "schedules", "inputs"], "all allocate/release/reset histories, sizes from 0 to huge, across threads",
  "Tests allocate a few blocks of friendly sizes in one thread; several of the allocator tests are not even in the reliable suite.",
  ["src/common/mcp_arena.c", "src/common/mcp_memory_pool.c", "src/common/mcp_thread_cache.c", "src/common/mcp_object_pool.c", "src/common/mcp_object_cache.c", "src/common/mcp_buffer_pool.c"],
  [("free lists and size classes", "src/common/mcp_memory_pool.c"), ("per-thread free lists", "src/common/mcp_thread_cache.c"), ("bump allocation in chained blocks", "src/common/mcp_arena.c")],
  ["shadow map of live blocks with content stamps"])

p("P12", "The hash table is a map",
  "After any sequence of insertions, replacements, removals, clears and growth the hash table contains exactly the last value stored under each key not removed since; lookups, counts and iteration agree with that, and each stored value and key is released exactly once when replaced, removed, cleared or destroyed.",
  ["histories", "inputs", "configurations"], "all operation sequences, key types, colliding keys, initial sizes and load factors",
  "Tests insert a few keys; no random histories, no collision-heavy keys, no release accounting.",
  ["src/common/mcp_hashtable.c"], [("chained buckets with resize on load factor", "src/common/mcp_hashtable.c")], ["lookups, iteration, destructor calls"])

p("P13", "Client calls get their own answer or a timely error",
  "Every client call returns either the result or error the server sent for that very request, or a transport or timeout error; never another request's answer and never twice, also with many threads calling at once and answers arriving out of order, late, duplicated or with unknown ids, in pieces and in any HTTP framing. A call without an answer fails after about its timeout, a lost connection fails all outstanding calls promptly, and the client remains usable afterwards (over TCP with reconnection enabled it is connected again once the server is back). This is claimed for the client itself and for its TCP and HTTP transports.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of concurrent calls, answer orders, delays, losses, duplicates and disconnects",
  "Client tests are NULL-argument checks or excluded threaded ones; correlation under concurrency is not tested.",
  ["src/client/mcp_client_request.c", "src/client/mcp_client_hash_table.c", "src/client/mcp_client_core.c", "src/client/mcp_client_batch.c", "src/client/mcp_client_api.c", "src/transport/mcp_tcp_client_transport.c", "src/transport/mcp_tcp_client_receiver.c", "src/transport/mcp_tcp_client_reconnect.c", "src/transport/mcp_tcp_pool_transport.c", "src/transport/mcp_http_client_transport.c", "src/transport/mcp_http_client_request.c", "src/transport/mcp_http_client_utils.c"],
  [("pending request table keyed by id", "src/client/mcp_client_hash_table.c"), ("per-request condition wait", "src/client/mcp_client_request.c")], ["results of client calls against the server's log"])

p("P14", "Connection pool: bounded, exclusive, conserved connections",
  "The pool never has more open connections than its maximum, never hands one connection to two holders at once, and every connection taken is either returned for reuse or closed, with the reported idle, active and total counts adding up whenever the pool is quiet. A caller that cannot get a connection gets a failure after its timeout, a connection returned as invalid is never handed out again, and a waiting caller obtains a connection once one is returned.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of get, release, invalid release, server failures and destruction",
  "No test uses the connection pool.",
  ["src/connection_pool/mcp_connection_pool.c", "src/connection_pool/mcp_connection_pool_maintenance.c", "src/connection_pool/mcp_connection_pool_socket.c", "src/connection_pool/mcp_connection_pool_health.c", "src/connection_pool/mcp_connection_pool_sync.c", "src/connection_pool/mcp_connection_pool_dns_cache.c"],
  [("idle list and counters under one lock with condition", "src/connection_pool/mcp_connection_pool.c"), ("maintenance thread", "src/connection_pool/mcp_connection_pool_maintenance.c")], ["connections seen by the server, handles seen by callers"])

p("P15", "The gateway forwards to the backend its configuration names",
  "A resource read or tool call is forwarded to the first backend in the configuration whose resource prefixes, resource patterns or tool names match it, independent of which requests came before, and to none when nothing matches (then the server handles it itself). The answer returned to the caller is that backend's answer to that request under the caller's id, and a failing or unreachable backend yields an error answer without affecting other backends or later requests.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all configurations, request sequences and backend failures",
  "No test covers the gateway.",
  ["src/gateway/mcp_gateway_routing.c", "src/gateway/mcp_gateway_pool.c", "src/gateway/mcp_gateway_config.c", "src/gateway/mcp_gateway_config_manager.c", "src/server/mcp_server_dispatch.c"],
  [("backend lookup by method and parameters", "src/gateway/mcp_gateway_routing.c"), ("pooled backend clients", "src/gateway/mcp_gateway_pool.c")], ["backend choice, frames received by fake backends"])

p("P16", "URI templates: expansion, matching and extraction agree",
  "Expanding a template with parameters that satisfy its types yields a URI that matches the template and from which exactly those parameters are extracted again. (Values are at most 255 bytes and do not contain the literal text that follows them in the template.) A URI matches if and only if parameters can be extracted from it, one carrying a value not of its parameter's type does not match, and the fast matcher always gives the same verdict and parameters as the plain one, independent of what was matched before and from which threads.",
  ["inputs", "histories", "schedules"], "all templates over the supported parameter kinds, all parameter values and URIs, any history of the matcher cache",
  "Tests check a few dozen fixed template/URI pairs.",
  ["src/common/mcp_template.c", "src/common/mcp_template_optimized.c"], [("parameter spec parsing and validation", "src/common/mcp_template.c"), ("cached compiled templates", "src/common/mcp_template_optimized.c")], ["return values of expand, match and extract"])

p("P17", "Template access rules and parameter validators are enforced",
  "A templated resource with an access list is available exactly to the roles on its list (a client's role is its authenticated identity, '*' stands for every role), whatever other templates are registered, in whatever order entries are added and after other rules are changed. A URI is refused, without running its handler or returning its content, whenever the validator registered for it, or else the default validator, rejects its parameters; templates without an access list require no role.",
  ["inputs", "configurations", "histories"], "all sets of templates, roles, validators, and registration orders",
  "The security test is not in the reliable suite and checks one list.",
  ["src/server/mcp_template_security.c", "src/server/mcp_server_template_security.c"], [("access list lookup", "src/server/mcp_template_security.c")], ["allow/deny verdicts"])

p("P18", "HTTP sessions: unique, findable while live, gone when ended",
  "Every session created gets an identifier different from all other sessions' and unguessable from earlier ones; it is found as long as it was used within the timeout and not ended, and never afterwards. The number of active sessions equals created minus ended, every end is notified exactly once, and creating, using, ending and expiring sessions from many threads at once keeps all of this.",
  ["histories", "schedules"], "all histories of create, touch, lookup, terminate, expire and cleanup under any clock, all interleavings",
  "No test covers the session manager.",
  ["src/transport/mcp_http_session_manager.c"], [("session table under a read/write lock", "src/transport/mcp_http_session_manager.c"), ("expiry by last access", "src/transport/mcp_http_session_manager.c")], ["lookups, counts, notifications under a controlled clock"])

p("P19", "Event streams: events are neither lost, repeated nor merged",
  "Every event a server sends reaches each connected client it is meant for exactly once, in the order of the event identifiers, with its identifier, type and data unchanged however long the data is and however many lines it has, and reaches no client of another session or with another filter. Identifiers are unique and increase in the order of sending. A client that reconnects and names the last event it saw gets every later event that is still kept, exactly once and in order, as if it had not been away; once more events were sent than are kept, exactly the newest remain. The HTTP client hands every event of its stream to the application exactly once and in order, whatever the line ends, the chunking and the splitting of the stream, and resumes after a lost connection behind the last event it handed out.",
  ["inputs", "histories", "schedules"], "all event types, data and sessions, all interleavings of senders, disconnects and reconnects, all resume points",
  "No test opens an event stream.",
  ["src/transport/mcp_http_server_sse.c", "src/transport/mcp_http_server_handlers.c", "src/transport/mcp_http_server_callbacks.c", "src/transport/mcp_http_sse_common.c", "src/transport/mcp_http_client_sse.c"],
  [("event ring and client list", "src/transport/mcp_http_server_sse.c"), ("stream request with resume point, session and filter", "src/transport/mcp_http_server_handlers.c")], ["events read by raw clients from the sockets, compared with the events sent"])

p("P20", "Saved MQTT sessions are restored exactly, and a crash never loses the old one",
  "A session saved for a client is restored with the same subscriptions, in-flight messages, identifiers and flags, and saving, loading or deleting one client's session never changes another's. If the process dies or the disk fails at any moment while saving, a later load returns either the complete previous session or the complete new one, and a file cut short is refused rather than partly believed.",
  ["crash_points", "inputs", "fault_sequences", "histories"], "all sessions, all client ids, every crash or I/O failure point during a save, all corruptions of the stored file",
  "No test covers persistence; crash points are outside what unit tests explore.",
  ["src/transport/mqtt_session_persistence.c"], [("versioned binary file per client", "src/transport/mqtt_session_persistence.c")], ["loaded sessions, file system calls"])

p("P21", "Starting and stopping under load neither crashes, hangs nor loses work",
  "A server can be started, loaded and stopped at any moment, repeatedly: stopping returns within bounded time, every request accepted before is either answered completely or its connection is closed, handlers are not entered after the stop has completed, and nothing released is used again. Creating and destroying several servers or clients in one process does not disturb the others.",
  ["schedules", "histories"], "all interleavings of start, requests in flight, stop and destroy; repeated cycles",
  "Tests start no server under load.",
  ["src/server/mcp_server.c", "src/server/mcp_server_task.c", "src/transport/mcp_tcp_transport.c", "src/transport/mcp_tcp_client_handler.c"],
  [("shutdown flag, active request count and condition", "src/server/mcp_server.c"), ("client thread join", "src/transport/mcp_tcp_transport.c")], ["sanitizer reports, handler log, time to stop"])

p("P22", "Concurrent requests give the answers they would give alone",
  "Requests processed at the same time by one server, from any number of connections or threads, get exactly the answers they would get if processed one at a time, and no two threads ever access the same memory in conflict without synchronisation.",
  ["schedules", "inputs"], "all interleavings of concurrent tool calls, resource reads, listings, templates, metrics and registrations",
  "Tests are sequential; none runs under a race detector.",
  ["src/server/mcp_server_task.c", "src/server/mcp_server_handlers.c", "src/server/mcp_server_template_router.c", "src/common/mcp_thread_local.c", "src/common/mcp_template_optimized.c", "src/common/mcp_object_pool.c", "src/json"],
  [("per-thread arenas", "src/common/mcp_thread_local.c"), ("shared pools under locks", "src/common/mcp_object_pool.c")], ["race detector reports, answers compared with isolated runs"])

p("P23", "HTTP transport delivers each call's own answer",
  "Every well-formed JSON-RPC request posted over HTTP is answered on that same HTTP exchange with its complete own answer and correct status, for every body size up to the limit and any splitting of the upload, with many clients at once. Malformed HTTP, oversized bodies, wrong methods or paths and dropped connections get an error or a close and never disturb other exchanges. A notification, which has no answer, gets an empty success. A tool call made by GET reaches the application with the tool name and arguments its query encodes.",
  ["inputs", "schedules", "fault_sequences"], "all bodies, chunkings, concurrent clients and broken requests, for the HTTP and the streamable HTTP server",
  "No stable test opens an HTTP connection.",
  ["src/transport/mcp_http_transport.c", "src/transport/mcp_http_server_callbacks.c", "src/transport/mcp_http_server_handlers.c", "src/transport/mcp_http_server_sse.c", "src/transport/mcp_sthttp_transport.c", "src/transport/mcp_sthttp_callbacks.c", "src/transport/mcp_sthttp_utils.c"],
  [("per-session request buffer", "src/transport/mcp_http_server_callbacks.c")], ["HTTP responses seen by clients"])

p("P24", "WebSocket transport keeps messages whole and with their owner",
  "Every text message sent over a WebSocket connection reaches the server whole, however it is fragmented, and is answered on that connection with its own complete answer; answers never go to another connection, also when connections come and go and reuse each other's slots. The server counts as active exactly the connections that are open, and a stopped server accepts none.",
  ["inputs", "schedules", "histories"], "all message sizes, fragmentations, numbers of connections and connect/disconnect orders",
  "No stable test opens a WebSocket.",
  ["src/transport/mcp_websocket_transport.c", "src/transport/mcp_websocket_server_client.c", "src/transport/mcp_websocket_server_callback.c", "src/transport/mcp_websocket_server_event.c", "src/transport/mcp_websocket_server_bitmap.c", "src/transport/mcp_websocket_common.c"],
  [("client slots with bitmap", "src/transport/mcp_websocket_server_bitmap.c"), ("receive reassembly and send queue", "src/transport/mcp_websocket_server_client.c")], ["messages seen by WebSocket clients"])

p("P25", "Standard input and output carry whole messages, each answered by its own frame",
  "Every length-prefixed message arriving on standard input is handed to the application exactly once, byte for byte and in the order of arrival, however the bytes are cut, also when several arrive at once; its answer is written to standard output as one whole frame, and so is everything other threads send at the same time, in each thread's order and with nothing else in between. A receive with a timeout returns a message that has arrived, and gives up no earlier than its timeout. A client's calls over this transport get their own answers. The end of the input, a message that breaks off or an illegal length ends the reading and nothing else, and the transport can be stopped, restarted and destroyed at any time without hanging, leaking or touching freed memory.",
  ["inputs", "schedules", "histories"], "all message contents and sizes, all ways the bytes are cut and arrive, all interleavings of senders, all ends of the input",
  "Tests only create and destroy the transport.",
  ["src/transport/mcp_stdio_transport.c", "src/transport/mcp_transport.c"],
  [("length-prefixed framing on stdin/stdout", "src/transport/mcp_stdio_transport.c"), ("read thread and its end", "src/transport/mcp_stdio_transport.c")], ["bytes on the pipes, return values, end of the process"])

p("P26", "Schema verdicts depend only on the schema and the message",
  "Whether a message is accepted against a schema depends only on that schema and that message: validating with or without the cache, first or thousandth time, after other schemas and messages, after evictions and from any thread gives the same verdict. A message that is not JSON, or lacks a top-level member its schema lists as required, is refused; one that has them all is accepted.",
  ["inputs", "histories", "schedules", "configurations"], "all schemas and messages in the supported subset, all cache sizes and histories",
  "Tests use two schemas once each.",
  ["src/json/mcp_json_schema_cache.c", "src/json/mcp_json_schema_validate.c"], [("compiled schema cache with LRU", "src/json/mcp_json_schema_cache.c")], ["verdicts compared with a reference validator"])

p("P27", "Counters account for every request exactly once",
  "After any traffic has settled, the server's reported totals equal what happened: every message handled is counted once with its bytes in and out, as successful or as failed (a message failing as a whole), none is lost under concurrency, and nothing remains counted as in progress. The least, greatest and average duration and the greatest number of simultaneous connections reported are those that occurred. Resetting sets them to zero and counting goes on correctly.",
  ["schedules", "histories"], "all mixes of successful, failing and concurrent requests, and resets between them",
  "No test reads the metrics after traffic.",
  ["src/common/mcp_performance_metrics.c", "src/server/mcp_performance_collector.c", "src/server/mcp_performance_metrics_handlers.c", "src/server/mcp_server_task.c"],
  [("atomic counters", "src/common/mcp_performance_metrics.c")], ["exported metrics against the driver's own log"])

p("P28", "Plugins load, answer and unload without residue",
  "A plugin is loaded only if it provides a complete valid descriptor and its initialisation succeeds; otherwise nothing of it remains loaded. A loaded plugin's initialiser and finaliser are each called exactly once, and unloading never touches the plugin's memory afterwards.",
  ["inputs", "histories", "fault_sequences"], "all plugin files (missing, malformed, failing), and load/unload sequences",
  "Tests check only a missing path and NULL.",
  ["src/server/mcp_plugin.c"], [("dynamic loading with descriptor checks", "src/server/mcp_plugin.c")], ["plugin call log, process map"])

p("P29", "What a handler produced is what the client receives, cached or not",
  "The textual tool or resource content a client receives equals, item by item and byte by byte, what the handler produced for it, with type and media type; a repeated read served from the cache gives the same answer as a fresh one as long as it is cached. Each handler is called with the name or URI and arguments the client sent, exactly once per uncached request, and listings return exactly the registered items.",
  ["inputs", "histories", "configurations"], "all contents, item counts, registered sets, template parameters and cache states",
  "No stable test reads content through the server.",
  ["src/server/mcp_server_handlers.c", "src/server/mcp_server_response.c", "src/server/mcp_server_template_router.c", "src/server/mcp_cache.c", "src/common/mcp_types.c"],
  [("content conversion to JSON", "src/server/mcp_server_handlers.c"), ("cache lookup before handler", "src/server/mcp_server_handlers.c")], ["answers compared with what the handlers logged"])

p("P30", "Serving any traffic for ever needs bounded memory",
  "Repeating any mix of requests, valid or not, does not make the server's or client's memory grow with the number of repetitions, and destroying a server, client, cache, limiter, pool or session table releases everything it allocated, threads and file descriptors included.",
  ["histories", "inputs"], "all repeated request mixes, error paths included, and all create/destroy cycles",
  "Tests neither repeat nor measure; leak checking is off.",
  ["src/server", "src/json", "src/client", "src/common", "src/transport/mcp_tcp_transport.c"],
  [("arena reset after each message", "src/server/mcp_server_task.c"), ("destroy functions", "src/server/mcp_server.c")], ["allocator accounting, leak checker, descriptor and thread counts"])

p("P31", "Only files under the document root are served, and exactly as they are",
  "A server given a document root serves the files of common web types below it byte for byte under their paths, answers requests for paths that name no file there with an error status, and returns content from outside the root for no spelling of a path (parent segments, encoded once or twice, backslashes, absolute or overlong names), while calls to the same server keep getting their answers.",
  ["inputs", "configurations"], "all request paths, directory trees and mixes with calls",
  "Nothing in the test suite requests a file.",
  ["src/transport/mcp_http_server_callbacks.c", "src/transport/mcp_http_transport.c", "src/transport/mcp_sthttp_callbacks.c", "src/transport/mcp_sthttp_transport.c"],
  [("path built from the document root", "src/transport/mcp_http_server_callbacks.c"), ("mount of the document root", "src/transport/mcp_http_transport.c")], ["served content compared with the tree; marked files outside it"])

p("P32", "Requests of origins that are not allowed never reach the application",
  "A streamable HTTP server told to validate origins against a list hands a posted request to the application, or opens an event stream, only if the request carries no Origin header, an origin equal to an entry, or one that begins with an entry's text before its final asterisk. Any other origin (near misses, longer or shorter names, overlong ones, also on a connection that carried allowed requests before) gets an error status and its request is not processed; allowed ones get their own answers.",
  ["inputs", "configurations"], "all origin lists, Origin headers and sequences of requests on a connection",
  "Nothing in the test suite sends an Origin header.",
  ["src/transport/mcp_sthttp_threads.c", "src/transport/mcp_sthttp_utils.c", "src/transport/mcp_sthttp_callbacks.c", "src/transport/mcp_sthttp_transport.c"],
  [("validate_origin and parse_allowed_origins", "src/transport/mcp_sthttp_utils.c"), ("checks in the POST and GET handlers", "src/transport/mcp_sthttp_threads.c"), ("Origin header copied", "src/transport/mcp_sthttp_callbacks.c")], ["outcomes compared with a reference reading of the list; requests of refused origins must not be seen by the callback"])

p("P33", "Every message of sufficient level is in the log file once, whole and in order",
  "Once a log call returns, its message is in the log file exactly once, on a line of its own with its level and origin, in the order of its thread's calls, if its level reaches the configured one and logging is not quiet, and otherwise not at all; only messages too long for a line are cut. In JSON format every line is a JSON document whose message is the text logged. This holds for any number of threads logging at once; opening a file appends to it, and when the log moves to another file meanwhile, no message is torn or doubled.",
  ["inputs", "schedules", "configurations"], "all messages, levels, formats, interleavings of logging threads and moves of the file",
  "The test suite does not look at the log.",
  ["src/common/mcp_log.c", "src/json/mcp_json_utils.c"],
  [("mcp_log_log, mcp_log_structured, mcp_log_init, mcp_log_close", "src/common/mcp_log.c"), ("mcp_json_escape_string", "src/json/mcp_json_utils.c")], ["offline check of the log file against the record of each thread's messages"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
