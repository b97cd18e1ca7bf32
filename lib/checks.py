"""What each property's check runs."""


def J(variant, harness, cases, seed, mode="", **kw):
    d = {"variant": variant, "harness": harness, "cases": cases, "seed": seed, "mode": mode}
    d.update(kw)
    return d


def jobs(*specs):
    """specs: (variant, harness, quick cases, thorough cases, number of seeds, mode[, extra])"""
    def f(tier, seed, mult=1):
        out = []
        for s in specs:
            var, h, q, t, n, mode = s[:6]
            kw = dict(s[6]) if len(s) > 6 else {}
            tseeds = kw.pop("tseeds", n * 2)
            for i in range(tseeds if tier == "thorough" else n * mult):
                out.append(J(var, h, t if tier == "thorough" else q, seed * 100 + i, mode,
                             timeout=(1500 if tier == "thorough" else 150), **kw))
        return out
    return f


CHECKS = {}


def check(pid, level, rule, j, **kw):
    CHECKS[pid] = dict(level=level, rule=rule, jobs=j, **kw)


LEAKS = {"env": {"ASAN_OPTIONS": "detect_leaks=1"}}
check("P09", "exploration",
      "one evaluation = one pool life (create, load by several submitters, waits, resizes, destroy); distinct = different order in which the first 64 tasks were observed to run",
      jobs(("tsan", "h_threadpool", 60, 600, 2, ""), ("asan", "h_threadpool", 150, 1500, 2, "")),
      technique="exactly-once counters per task with wait and destroy barriers, under TSan and ASan/UBSan")

check("P12", "exploration",
      "one evaluation = one table life with up to thousands of random operations compared step by step with a map model; distinct = different operation/key histories",
      jobs(("asan", "h_hashtable", 150, 3000, 2, ""), ("asan", "h_hashtable", 150, 3000, 2, "pool")),
      technique="map model and release accounting compared after every step, under ASan/UBSan")

check("P20", "fault_enumeration",
      "one evaluation = one save/load history, one truncation length, or one fault (kill before/after/half way, EIO, ENOSPC) at one file system call of a save or touch; distinct = different history, (file, length) or (session, action, call number)",
      jobs(("asan", "h_mqttsess", 150, 2500, 2, "hist"), ("asan", "h_mqttsess", 15, 150, 1, "cut"),
           ("plain", "h_mqttsess", 8, 60, 2, "crash"), ("tsan", "h_mqttsess", 3, 30, 1, "threads")),
      technique="enumeration of every file-system call of a save as crash or fault point with a restore oracle; round-trip model under ASan/UBSan, TSan on concurrent use")

check("P06", "exploration",
      "one evaluation = one limiter life in virtual time, each verdict compared with the exact window model; distinct = different request/time histories in which some requests were admitted and some refused",
      jobs(("asan", "h_ratelimit", 2000, 40000, 2, "basic"), ("tsan", "h_ratelimit", 300, 6000, 2, "basicmt")),
      technique="exact admission model in virtual time under ASan/UBSan; per-second conservation under TSan with concurrent checkers")

check("P07", "exploration",
      "one evaluation = one limiter life in virtual time (rules added and removed, several keys), each verdict compared with the algorithm's model, or one server with a limit asked for more by several threads; distinct = different histories with both admissions and refusals",
      jobs(("asan", "h_ratelimit", 3000, 40000, 2, "adv"), ("tsan", "h_ratelimit", 400, 6000, 2, "advmt"),
           ("tsan", "h_server", 250, 3000, 2, "limit", dict(only="^limit:")), ("asan", "h_server", 250, 3000, 1, "limit", dict(only="^(limit|asan|ubsan):"))),
      technique="nondeterministic admission model in virtual time under ASan/UBSan; exact admission counts of limited servers; per-second conservation under TSan with concurrent checkers")

check("P18", "exploration",
      "one evaluation = one session table life compared with a model, one concurrent life checked for conservation of sessions and notifications, or one round of identifiers drawn in identical processes; distinct = different histories / end orders / identifier sets",
      jobs(("asan", "h_httpsess", 150, 3000, 2, "seq"), ("tsan", "h_httpsess", 12, 200, 2, "mt"), ("plain", "h_httpsess", 40, 400, 1, "ids")),
      technique="model comparison in virtual time under ASan/UBSan, conservation of ends and notifications under TSan, fork-and-compare predictability monitor with entropy faults")

check("P08", "exploration",
      "one evaluation = one cache life in virtual time compared with an LRU/expiry model, or one concurrent life with version-stamped content; distinct = different operation histories / orders of versions seen",
      jobs(("asan", "h_cache", 500, 8000, 2, "seq"), ("tsan", "h_cache", 25, 400, 2, "mt"), ("asan", "h_cache", 60, 800, 1, "mt")),
      technique="LRU/TTL model with version-stamped content under ASan/UBSan, single-writer freshness monitor under TSan")

check("P01", "exploration",
      "one evaluation = one random document parsed, written and re-read by an independent reader, one corrupted text judged by that reader, one edit history of an object or array compared with a model, or one JSON-RPC message round trip; distinct = different texts / histories",
      jobs(("asan", "h_json", 4000, 60000, 2, "trip"), ("asan", "h_json", 20000, 400000, 2, "bad"), ("asan", "h_json", 400, 6000, 2, "edit"), ("asan", "h_json", 3000, 40000, 2, "msg")),
      technique="differential oracle: independent JSON reader/writer against the library's, map/list model of edits, under ASan/UBSan")

check("P02", "exploration",
      "one evaluation = one message (single, batch, notification, invalid, unparsable) given to a real server and its answer judged element by element; distinct = different message shapes (kinds, order, batch) seen",
      jobs(("asan", "h_server", 700, 12000, 3, "msgs")),
      technique="trace oracle: independent JSON-RPC answer model over generated traffic, under ASan/UBSan")

check("P29", "exploration",
      "one evaluation = one message to a server whose handlers produce content determined by name and arguments and count their calls; the answer is compared byte by byte; distinct = different message shapes seen",
      jobs(("asan", "h_server", 700, 12000, 3, "msgs"), ("asan", "h_server", 60, 1000, 1, "mt")),
      technique="content oracle and handler call accounting over generated traffic, under ASan/UBSan")

check("P05", "exploration",
      "one evaluation = one message to a server with an API key, with right, missing, wrong, truncated, extended and mistyped keys at every position of batches; answers and handler calls are judged; distinct = different message shapes seen",
      jobs(("asan", "h_server", 600, 10000, 3, "auth")),
      technique="access oracle with handler entry monitor over generated traffic, under ASan/UBSan")

check("P03", "exploration",
      "one evaluation = one hostile message (mutated, spliced, truncated, deeply nested or random bytes) to a server, or one well-formed message after it whose answer is judged; distinct = different byte strings or message shapes",
      jobs(("asan", "h_server", 60000, 1500000, 3, "hostile")),
      technique="mutation fuzzing of a live server under ASan/UBSan with liveness probes")

check("P22", "exploration",
      "one evaluation = one server serving generated traffic from several threads at once, every answer judged by the sequential oracle; distinct = different orders in which the handlers were entered",
      jobs(("tsan", "h_server", 150, 2500, 3, "mt"), ("asan", "h_server", 200, 3000, 2, "mt")),
      technique="race detector (TSan) and sequential answer oracle on concurrent traffic")

check("P21", "exploration",
      "one evaluation = one server one listening TCP transport or one connected TCP client stopped and destroyed while threads keep sending, or one message served meanwhile or afterwards by a second server; distinct = different amounts and orders of messages around the stop",
      jobs(("tsan", "h_server", 150, 2500, 3, "stop"), ("asan", "h_server", 200, 3000, 2, "stop"), ("asan", "h_tcp", 16, 160, 1, "stop"), ("tsan", "h_tcp", 12, 120, 1, "stop"), ("asan", "h_tcpclient", 40, 400, 1, "life"), ("asan", "h_server", 150, 2000, 1, "limit", dict(only="^stop:"))),
      technique="stop-under-load stress with handler entry monitor under TSan and ASan")

check("P27", "exploration",
      "one evaluation = one round of concurrent traffic after which the reported counters are compared with the driver's own log; distinct = different traffic totals",
      jobs(("asan", "h_server", 60, 1000, 2, "metrics"), ("tsan", "h_server", 60, 1000, 2, "metrics"), ("plain", "h_server", 1500, 20000, 2, "direct"), ("tsan", "h_server", 150, 2000, 1, "direct")),
      technique="conservation monitor: reported counters against the driver's log, under TSan and ASan")

check("P30", "exploration",
      "one evaluation = one server life in which a random mix of messages is repeated and the live heap compared between repetitions, then destroyed under a leak detector, one call of a client whose heap is watched, or one evaluation of another check's workload run for its leaks; distinct = different mixes and histories",
      jobs(("asan", "h_server", 80, 1200, 3, "leak", {"env": {"ASAN_OPTIONS": "detect_leaks=1"}}), ("asan", "h_tcp", 80, 600, 1, "leak", {"env": {"ASAN_OPTIONS": "detect_leaks=1"}}),
           ("asan", "h_tcpclient", 300, 3000, 1, "grow", LEAKS),
           *[("asan", h, q, q * 10, 1, m, dict(LEAKS, only="^lsan:")) for h, q, m in
             (("h_cache", 100, "seq"), ("h_cache", 10, "mt"), ("h_ratelimit", 200, "basic"), ("h_ratelimit", 200, "adv"), ("h_threadpool", 20, ""), ("h_mqttsess", 30, "hist"),
              ("h_template", 200, "rules"), ("h_template", 100, "server"), ("h_httpsess", 40, "seq"), ("h_hashtable", 20, ""), ("h_pool", 60, "use"), ("h_pool", 60, "destroy"), ("h_client", 60, "lost"), ("h_client", 40, "life"),
              ("h_client", 40, "api"), ("h_schema", 60, "seq"), ("h_plugin", 40, "seq"), ("h_gateway", 50, "route"), ("h_sse", 200, "server"), ("h_http", 200, "call"), ("h_ws", 200, "call"), ("h_httpclient", 100, "own"), ("h_httpclient", 60, "cut"), ("h_httpclient", 10, "life"), ("h_stdio", 20, "serve"))]),
      technique="live-heap growth monitor over repeated traffic, descriptor and thread counts, and LeakSanitizer over complete lives of every kind of object")

check("P16", "exploration",
      "one evaluation = one template expanded with admissible parameters, matched and extracted by both matchers (and once with an inadmissible value), one arbitrary template/URI pair on which all four verdicts are compared, or one concurrent life of the shared cache; distinct = different expansions, pairs and operation orders",
      jobs(("asan", "h_template", 40000, 600000, 2, "trip"), ("asan", "h_template", 60000, 900000, 2, "any"), ("tsan", "h_template", 40, 600, 2, "mt"), ("asan", "h_template", 40, 600, 1, "mt")),
      technique="round-trip and differential oracle (plain against cached matcher, match against extraction) under ASan/UBSan, with TSan on the shared cache")

check("P17", "exploration",
      "one evaluation = one access question put to a rule set, or one read of a templated resource through a server, after a random history of access lists and validators, compared with a rule model; distinct = different histories of answers",
      jobs(("asan", "h_template", 3000, 60000, 2, "rules"), ("asan", "h_template", 600, 9000, 2, "server")),
      technique="rule model compared with verdicts and handler entries under ASan/UBSan")

check("P11", "exploration",
      "one evaluation = one allocator life (arenas, memory pools, pool system, thread cache, object cache, object pool, buffer pool, impossible sizes, or all shared by threads that hand blocks over) with every live block stamped and checked; distinct = different operation histories or hand-over orders",
      jobs(("asan", "h_alloc", 1000, 15000, 1, "arena", LEAKS), ("asan", "h_alloc", 1500, 20000, 1, "pool", LEAKS), ("asan", "h_alloc", 1000, 15000, 1, "sys", LEAKS),
           ("asan", "h_alloc", 1500, 20000, 2, "tc", LEAKS), ("asan", "h_alloc", 1500, 20000, 1, "oc", LEAKS), ("asan", "h_alloc", 1000, 15000, 1, "obj", LEAKS),
           ("asan", "h_alloc", 1000, 15000, 1, "buf", LEAKS), ("asan", "h_alloc", 500, 5000, 1, "edge"), ("asan", "h_alloc", 150, 2500, 2, "mt", LEAKS), ("tsan", "h_alloc", 200, 3000, 2, "mt")),
      technique="block stamping, overlap and conservation monitors under ASan/UBSan/LSan, hand-over between threads under TSan")

check("P10", "exploration",
      "one evaluation = one lock shared by several threads (plus try-lock questions from a second thread), one bounded buffer emptied by waiting threads, 48 simultaneous timed waits, or threads with their own values; distinct = different orders of entry, of delivery, or sets of deadlines",
      jobs(("tsan", "h_sync", 300, 5000, 2, "excl"), ("plain", "h_sync", 400, 8000, 2, "excl"), ("asan", "h_sync", 100, 2000, 1, "excl", LEAKS), ("tsan", "h_sync", 150, 3000, 1, "wake"), ("plain", "h_sync", 300, 6000, 2, "wake"),
           ("plain", "h_sync", 4, 40, 1, "timed"), ("asan", "h_sync", 4, 40, 1, "timed", LEAKS), ("tsan", "h_sync", 100, 1000, 1, "tls"), ("asan", "h_sync", 100, 1000, 1, "tls", LEAKS)),
      technique="occupancy monitor and TSan on plainly accessed guarded data, conservation through a bounded buffer, deadline monitor")

check("P04", "exploration",
      "one evaluation = one TCP conversation of up to 40 frames cut into random pieces (some with signals and short counts injected on the transport's side), one hostile connection beside well-behaved ones, one answer of a real server compared with the same message given directly, or one batch of buffers sent over a socket pair; distinct = different conversations and outcomes",
      jobs(("asan", "h_tcp", 1000, 10000, 2, "frag"), ("asan", "h_tcp", 500, 5000, 2, "hostile"), ("asan", "h_tcp", 200, 3000, 1, "server"), ("asan", "h_tcp", 400, 8000, 1, "batch"), ("tsan", "h_tcp", 300, 3000, 2, "frag"), ("tsan", "h_tcp", 200, 2000, 1, "hostile")),
      technique="recomputed-answer oracle at the client side of real sockets with injected interruptions and short counts, under ASan/UBSan and TSan")

check("P13", "exploration",
      "one evaluation = one client call (raw or typed, single or batched) against a transport that answers at once, later, twice, out of order, with foreign ids, with garbage, too late or never, refuses, or loses the connection, or over TCP with delays, interruptions and restarts or HTTP in every framing, its outcome compared with the answer sent for that very id; distinct = different call histories, crowds and typed calls",
      jobs(("asan", "h_client", 250, 4000, 1, "own", LEAKS), ("tsan", "h_client", 250, 4000, 1, "own"), ("asan", "h_client", 25, 300, 1, "timeout", LEAKS), ("tsan", "h_client", 25, 300, 1, "timeout"),
           ("asan", "h_client", 100, 1000, 1, "crowd"), ("tsan", "h_client", 60, 600, 1, "crowd"), ("asan", "h_client", 250, 3000, 1, "lost", LEAKS), ("tsan", "h_client", 250, 3000, 1, "lost"),
           ("asan", "h_client", 150, 2000, 1, "api", LEAKS), ("tsan", "h_client", 80, 1000, 1, "api"), ("asan", "h_client", 150, 2000, 1, "life", LEAKS), ("tsan", "h_client", 150, 2000, 1, "life"),
           ("asan", "h_tcpclient", 1500, 15000, 1, "own"), ("plain", "h_tcpclient", 1500, 15000, 1, "own"), ("asan", "h_tcpclient", 1200, 12000, 1, "drop"), ("plain", "h_tcpclient", 1200, 12000, 1, "drop"), ("asan", "h_tcpclient", 40, 300, 1, "late"), ("asan", "h_tcpclient", 400, 4000, 1, "pool"), ("plain", "h_tcpclient", 400, 4000, 1, "pool"),
           ("asan", "h_httpclient", 1000, 10000, 1, "own", LEAKS), ("plain", "h_httpclient", 3000, 30000, 1, "own"), ("asan", "h_httpclient", 600, 6000, 1, "cut", LEAKS), ("plain", "h_httpclient", 600, 6000, 1, "cut"), ("asan", "h_httpclient", 40, 400, 1, "life", LEAKS)),
      technique="per-call correlation oracle with unique answers under reordering, loss, duplication and disconnects, deadline monitor, under ASan/UBSan/LSan and TSan")

check("P15", "exploration",
      "one evaluation = one question to the routing of a generated configuration file compared with a model of its rules (also through the configuration manager, across reloads and after other questions), or one request to a gateway in front of five backends that answer, delay, refuse, talk rubbish, drop the connection, are absent or restarted, its answer and the backends that saw it compared with the backend's plan, or one request while other backends cannot be reached; distinct = different questions and request fates",
      jobs(("asan", "h_gateway", 200, 4000, 2, "route", LEAKS), ("asan", "h_gateway", 800, 8000, 2, "forward"), ("plain", "h_gateway", 1500, 15000, 1, "forward"), ("asan", "h_gateway", 1, 1, 1, "stall")),
      technique="routing model and per-request correlation oracle with unique answers over real sockets and failing backends, under ASan/UBSan/LSan")

check("P26", "exploration",
      "one evaluation = one verdict on a message and a schema (some with colliding hashes, some not JSON) through a cache of random size or the global one, after random histories of evictions, clears and arena resets and from short-lived threads, compared with a reference verdict; distinct = different histories",
      jobs(("asan", "h_schema", 400, 6000, 2, "seq", LEAKS), ("asan", "h_schema", 100, 1500, 1, "mt", LEAKS), ("tsan", "h_schema", 100, 1500, 2, "mt")),
      technique="reference verdict compared on every call under ASan/UBSan/LSan, shared cache under TSan")

check("P28", "exploration",
      "one evaluation = one load, refusal or unload of a compiled plugin (complete, lacking a part, failing to start or end, or no library at all), with the plugin's own record of calls and the process map compared; distinct = different histories",
      jobs(("asan", "h_plugin", 150, 2000, 2, "seq", LEAKS), ("asan", "h_plugin", 60, 800, 1, "mt", LEAKS)),
      technique="plugins recording the calls made to them, residue monitor on the loader's map, logging enabled, under ASan/UBSan/LSan")

check("P14", "exploration",
      "one evaluation = one attempt to take a connection (or one scenario of waiting, refusal, recovery, destruction under waiting callers, or many descriptors) against a server that ends, refuses and delays connections; distinct = different hand-over histories",
      jobs(("asan", "h_pool", 250, 4000, 2, "use", LEAKS), ("tsan", "h_pool", 150, 2500, 2, "use"), ("asan", "h_pool", 250, 3000, 1, "wait", LEAKS), ("tsan", "h_pool", 150, 2000, 1, "wait"),
           ("asan", "h_pool", 200, 3000, 1, "destroy", LEAKS), ("tsan", "h_pool", 150, 2000, 1, "destroy"), ("asan", "h_pool", 8, 60, 1, "many")),
      technique="books kept on every connect and close (owner, serial, limit), counts compared in quiet states, deadline monitor, under ASan/UBSan/LSan and TSan")

check("P19", "exploration",
      "one evaluation = one event read by a raw client or handed out by the HTTP client and compared with the events sent, or one resumed stream; distinct = different events, resume points and gaps",
      jobs(("asan", "h_sse", 1500, 20000, 2, "server", LEAKS), ("asan", "h_sse", 6, 60, 1, "over", LEAKS), ("plain", "h_sse", 4000, 40000, 2, "server"),
           ("asan", "h_sse", 800, 8000, 1, "pair", LEAKS), ("plain", "h_sse", 2000, 20000, 1, "pair"), ("asan", "h_httpclient", 30, 300, 1, "events", LEAKS), ("plain", "h_httpclient", 40, 400, 1, "events")),
      technique="offline exactly-once and order checker over the events read by raw clients and the HTTP client from a real server with concurrent senders, disconnects and resumes, and by the HTTP client from streams cut anywhere, under ASan/UBSan/LSan")

check("P23", "exploration",
      "one evaluation = one HTTP exchange (post of random size cut into random pieces, on a new or kept-alive connection, asking for an answer, a JSON-RPC error, a refusal or nothing; or a tool call by GET, name and arguments compared) or one hostile connection, against the plain or the streamable server, or one answer of a real server compared with the same message given directly; distinct = different sizes of request and answer",
      jobs(("asan", "h_http", 1200, 15000, 2, "call", LEAKS), ("asan", "h_http", 250, 3000, 2, "stcall", LEAKS), ("asan", "h_http", 700, 8000, 1, "server", LEAKS), ("plain", "h_http", 2000, 30000, 1, "call"), ("plain", "h_http", 250, 3000, 1, "stcall"), ("asan", "h_http", 500, 5000, 1, "get", LEAKS), ("plain", "h_http", 1500, 15000, 1, "get")),
      technique="recomputed-answer oracle at the client side of real HTTP connections, with hostile connections beside, under ASan/UBSan/LSan")

check("P31", "exploration",
      "one evaluation = one request for a file that exists below the document root (content compared), for one that does not, or for one outside it by a hostile spelling (no marked content may come back), or one tool call on the same server compared; distinct = different paths requested",
      jobs(("asan", "h_http", 500, 6000, 3, "files", LEAKS), ("plain", "h_http", 800, 20000, 2, "files")),
      technique="served content compared with the directory tree, marked files placed outside the root, by raw HTTP clients with every spelling of a path, under ASan/UBSan/LSan")

check("P32", "exploration",
      "one evaluation = one POST or stream request with an allowed, nearly allowed, foreign, overlong or missing Origin header, whose outcome is compared with the configured list; distinct = different origins and outcomes",
      jobs(("asan", "h_http", 300, 3000, 2, "origin", LEAKS), ("plain", "h_http", 500, 6000, 2, "origin")),
      technique="outcome of every request compared with a reference reading of the configured list, callback entries recorded, under ASan/UBSan/LSan")

check("P33", "exploration",
      "one evaluation = one message logged by one of several threads (plain or structured, any level, any characters, up to 3000 bytes), looked for in the log file afterwards; distinct = different final states of the threads' positions in the log",
      jobs(("asan", "h_log", 20000, 200000, 2, "mt", LEAKS), ("asan", "h_log", 20000, 200000, 2, "move", LEAKS), ("tsan", "h_log", 10000, 100000, 1, "mt"), ("plain", "h_log", 40000, 500000, 1, "mt"), ("plain", "h_log", 40000, 500000, 1, "move")),
      technique="lines read back from the log file compared with the messages of each thread (exactly once, in order, whole), under ASan/UBSan, TSan and plain")

check("P24", "exploration",
      "one evaluation = one message sent over a WebSocket (whole or in fragments, with control frames between) and its answer, one hostile connection, one comparison of the number of active connections, or one answer of a real server compared with the same message given directly; distinct = different messages and outcomes",
      jobs(("asan", "h_ws", 1000, 15000, 2, "call", LEAKS), ("asan", "h_ws", 600, 8000, 1, "server", LEAKS), ("plain", "h_ws", 2000, 30000, 1, "call"), ("plain", "h_ws", 1000, 10000, 1, "server")),
      technique="recomputed-answer oracle at the client side of real WebSocket connections, connection count compared in quiet states, under ASan/UBSan/LSan")

check("P25", "exploration",
      "one evaluation = one message written to the standard input of a process running the transport (cut into random pieces, in bursts, beside threads that send by themselves, followed by an end, a break, an illegal length or a stop) and its answer, one message received with a time limit, or one call of a real client answered out of order; distinct = different sequences of frames read back",
      jobs(("asan", "h_stdio", 60, 800, 2, "serve", LEAKS), ("tsan", "h_stdio", 40, 500, 2, "serve"), ("asan", "h_stdio", 60, 800, 1, "recv", LEAKS), ("asan", "h_stdio", 30, 400, 1, "client", LEAKS), ("tsan", "h_stdio", 20, 300, 1, "client")),
      technique="per-frame oracle at the other end of real pipes, forked process per case, under ASan/UBSan/LSan and TSan")

# how many times the seeds given above the quick tier runs
for _p, _n in {"P01": 4, "P02": 4, "P03": 2, "P05": 4, "P06": 4, "P07": 4, "P08": 4, "P09": 4, "P10": 2, "P11": 4, "P12": 4, "P15": 2, "P16": 3, "P17": 4,
               "P18": 3, "P19": 2, "P20": 3, "P26": 4, "P27": 3, "P28": 4, "P29": 3, "P14": 2, "P21": 2, "P30": 3, "P22": 2, "P04": 2, "P23": 2, "P24": 2, "P25": 2}.items():
    CHECKS[_p]["mult"] = _n
