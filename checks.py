"""What runs for each property. cases = (quick, thorough)."""

ASAN = "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer (fatal)"
TSAN = "ThreadSanitizer with deadlock detection (fatal)"

CHECKS = {
    "C01": {
        "level": "exploration",
        "technique": "round-trip oracle with reference model under ASan/UBSan/LSan",
        "rule": "random method names and value trees (all ten types, blank and empty names and strings, deep, wide and large shapes); "
                "distinct = different tree shape of a parameter list with at least one parameter",
        "needs": ["documents read by the independent parser", "values compared"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "codec", "cases": (24000, 400000)}],
        "level_note": "every generated request is written by the library, read by libxml2's DOM reader and by the library, and compared with the model; "
                      "holds for the generated shapes only (nesting up to 300 levels, strings up to 1 MB, 70000 elements, 2048 parameters)",
    },
    "C02": {
        "level": "exploration",
        "technique": "round-trip oracle with reference model under ASan/UBSan/LSan",
        "rule": "random responses and faults, with and without string tags; distinct = different tree shape and mode, or different fault",
        "needs": ["documents read by the independent parser", "values compared", "faults compared", "documents without string tags"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "codec", "cases": (64000, 800000)}],
        "level_note": "as C01, for responses and faults",
    },
    "C03": {
        "level": "exploration",
        "technique": "model-based operation sequences under ASan/UBSan/LSan",
        "rule": "random sequences of 10-60 operations on four value trees mirrored in a reference model; distinct = different operation sequence and resulting shapes",
        "needs": ["operations", "trees compared", "wrong accesses refused"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "values", "cases": (14000, 200000)}],
        "level_note": "every operation is mirrored in the model and the trees involved are compared after it, all trees at intervals; leaks are checked every 200 sequences",
    },
    "C04": {
        "level": "exploration",
        "technique": "structure-aware fuzzing of the parsers under ASan/UBSan/LSan with time and expansion bounds",
        "rule": "random bytes, well-formed misplaced elements, DOM-restructured, mutated, spliced, transcoded, DTD, deep and large documents; "
                "distinct = different document text and outcome",
        "needs": ["documents accepted", "documents refused", "kind: dtd", "kind: deep", "kind: encoding"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "fuzz", "cases": (120000, 2000000)}],
        "level_note": "no sanitizer report, no foreign exception, bounded processor time per byte and bounded text per byte on every generated document",
    },
    "C05": {
        "level": "exploration",
        "technique": "differential reading against a reference reader under ASan/UBSan/LSan",
        "rule": "model values written in random equivalent XML spellings, single structural corruptions judged by an independent DOM reader, "
                "external-entity documents, empty scalars with configured defaults; distinct = different spelling options and shape, or corruption",
        "needs": ["correct documents read", "corrupted documents rejected", "documents naming external entities", "documents with an empty scalar"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "codec", "cases": (120000, 1500000)}],
        "level_note": "correct documents must give exactly the model value, documents the reference reader rejects must raise; "
                      "stray text between elements, numeric booleans other than 0/1 and untagged blank strings are left undecided",
    },
    "C06": {
        "level": "exploration",
        "technique": "reference codec comparison, exhaustive for short inputs, under ASan/UBSan/LSan",
        "rule": "all byte strings of length 0-2 (and selected longer ones), all byte pairs in padded and unpadded base64 quads, every byte at every position of a date, "
                "every day of 256 years, then random data, base64 mutations and date mutations, the current time in several zones; distinct = different input beyond the enumerated part, or first byte enumerated",
        "needs": ["first bytes enumerated exhaustively", "base64 texts refused", "date texts refused", "current times"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "codec", "cases": (40000, 600000)}],
        "level_note": "exhaustive for byte strings up to length 2 in every run; sampled beyond",
    },
    "C07": {
        "level": "exploration",
        "technique": "differential delivery of one byte stream in many fragmentations, at the socket boundary, under ASan/UBSan/LSan",
        "rule": "random messages, right and wrong, each delivered whole and then cut at every position (short messages) or in many-piece plans; "
                "distinct = different message and outcome",
        "needs": ["messages with a hundred headers", "messages with a long header", "TLS servers", "messages read in pieces", "messages executed", "wrong messages refused", "pieces", "responses read in pieces"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "srv", "cases": (240, 6000)}, {"harness": "srv", "cases": (64, 1600), "args": ["--tls=1"]}, {"harness": "cli", "cases": (400, 10000)}],
        "level_note": "the sizes of the server's and the client's reads are dictated at their recv calls; every two-piece cut of short messages is taken, longer ones are sampled",
    },
    "C08": {
        "level": "exploration",
        "technique": "size-limit oracle at a raw peer with heap accounting, under ASan/UBSan/LSan",
        "rule": "random limits, request sizes around and far from them, honest and dishonest lengths, fragmentation and position on the connection; "
                "distinct = different limit, sizes and outcomes",
        "needs": ["announcements refused", "TLS servers", "floods refused", "too large requests refused", "requests below the limit served", "later requests of a connection served"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "srv", "cases": (640, 12000)}, {"harness": "srv", "cases": (160, 3000), "args": ["--tls=1"]}],
        "level_note": "heap growth of the server is measured while oversized requests are sent; limits from 300 bytes to 300 kB",
    },
    "C11": {
        "level": "exploration",
        "technique": "plugin and execution logs checked against the credentials sent, under ASan/UBSan/LSan",
        "rule": "random users, passwords, plugin decisions and request sequences on one connection or four at once, raw or through the client; "
                "distinct = different sequence of credential kinds and users",
        "needs": ["servers started again", "servers with further features in use", "TLS servers", "accepted requests", "refused requests", "malformed credentials refused", "concurrent histories"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "policy", "cases": (8000, 150000)}, {"harness": "policy", "cases": (1200, 20000), "args": ["--tls=1"]}],
        "level_note": "every request's plugin calls, execution, visible user name and status are compared with what was sent",
    },
    "C12": {
        "level": "exploration",
        "technique": "firewall log, bytes at the peers and descriptor count, under ASan/UBSan/LSan",
        "rule": "random sequences of granted and refused connections that send early, stay silent or reset, one after another or overlapping; "
                "distinct = different sequence, message and refusal rate",
        "needs": ["servers started again", "servers with further features in use", "TLS servers", "refused with a message", "refused silently", "granted peers served", "decisions"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "policy", "cases": (30000, 600000)}, {"harness": "policy", "cases": (2000, 40000), "args": ["--tls=1"]}],
        "level_note": "one decision per connection with its true address, exact bytes for refused peers, descriptors back to the number before",
    },
    "C18": {
        "level": "exploration",
        "technique": "enter/leave trace checker over generated method, dispatcher and interceptor sets, under ASan/UBSan/LSan",
        "rule": "random registrations (factories, classes, functions), dispatchers, interceptor kinds and called names, from one or three connections, serial and pool, plain and TLS, changed between runs; "
                "distinct = different configuration",
        "needs": ["servers started again", "servers changed between two runs", "servers with many methods", "methods registered as classes and functions",
                  "TLS servers", "calls compared", "unknown names refused", "interceptor faults delivered", "method lists compared", "trace events"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "policy", "cases": (6000, 100000)}, {"harness": "policy", "cases": (480, 8000), "args": ["--tls=1"]}],
        "level_note": "the expected event sequence and result are computed from the configuration and compared per call",
    },
    "C19": {
        "level": "exploration",
        "technique": "headers recorded inside the method compared per call id, under ASan/UBSan/LSan",
        "rule": "random client-wide and per-call headers in random letter case, one or three clients at once, serial and pool; distinct = different header set",
        "needs": ["calls with a hundred headers", "TLS servers", "calls compared", "headers compared", "headers with line ends refused"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "policy", "cases": (4000, 60000)}, {"harness": "policy", "cases": (400, 6000), "args": ["--tls=1"]}],
        "level_note": "the method's complete X- header map equals the one sent, for every call",
    },
    "C26": {
        "level": "exploration",
        "technique": "call context and log contents compared per unique call id, with an overlap monitor in the log's stream buffer, under ASan/UBSan/LSan",
        "rule": "random calls of four methods by one to six peers at once from random local addresses, that log up to four messages each, throw, or are refused before execution; "
                "serial and pool, plain and TLS, with and without a log; distinct = different sequence of messages and failures",
        "needs": ["messages logged twice", "servers started again", "contexts compared", "messages found in the log", "refused requests", "histories without a log", "TLS servers"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "policy", "cases": (8000, 120000)}, {"harness": "policy", "cases": (1200, 20000), "args": ["--tls=1"]}],
        "level_note": "the text of the entry for a refused request is not judged, only that there is one",
    },
    "C27": {
        "level": "exploration",
        "technique": "processor time of the process and waits of the event loop measured while nothing happens, under ASan/UBSan/LSan",
        "rule": "random sequences of up to four situations of a server (22 kinds: silent, half sent, kept, unread, half closed, refused, waiting peers) and eight of a client, "
                "serial and pool, plain and TLS, each followed by a stretch in which nothing happens; distinct = different sequence of situations",
        "needs": ["quiet situations measured", "quiet situations of servers", "quiet situations of clients", "TLS servers"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "idle", "cases": (400, 6000)}, {"harness": "idle", "cases": (160, 2400), "args": ["--tls=1"]}],
        "level_note": "a situation is quiet when the process took less than 8 % of one processor in three stretches in a row; a loop that does not sleep never does",
    },
    "C28": {
        "level": "exploration",
        "technique": "a recording visitor and an independent printer compared with the model, under ASan/UBSan/LSan",
        "rule": "random value trees of all ten types given to a visitor of the application and printed to streams of several formats; distinct = different tree",
        "needs": ["nodes visited", "printed values compared", "values compared afterwards"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "values", "cases": (48000, 800000)}],
        "level_note": "what the visitor was told must rebuild the model, the printed text must equal that of a reference printer, and the value must be unchanged",
    },
    "C21": {
        "level": "exploration",
        "technique": "interim and final responses counted at a raw peer, under ASan/UBSan/LSan",
        "rule": "random request sequences with and without the announcement, body withheld or sent at once, fragmented; distinct = different sequence",
        "needs": ["TLS servers", "interim responses received", "interim responses on later requests", "final responses", "other expectations refused"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "srv", "cases": (12000, 240000)}, {"harness": "srv", "cases": (600, 10000), "args": ["--tls=1"]}],
        "level_note": "exactly one interim response before the final one whenever the body was withheld",
    },
    "C22": {
        "level": "exploration",
        "technique": "byte-exact response reader with slow reading and short writes, under ASan/UBSan/LSan",
        "rule": "random response sizes, reading speeds, receive buffers, keep-alive sequences, refused requests and short writes forced at the server's send calls, in several time zones; distinct = different sequence",
        "needs": ["responses of more than ten megabytes", "TLS servers", "responses read whole", "requests on a kept connection", "connections closed after the response", "writes cut short", "refused requests"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "srv", "cases": (800, 15000)}, {"harness": "srv", "cases": (400, 6000), "args": ["--tls=1"]}],
        "level_note": "each response is read by an independent reader and compared with what the method returned",
    },
    "C24": {
        "level": "exploration",
        "technique": "fault and status oracle at a raw peer and a library client, under ASan/UBSan/LSan",
        "rule": "random faults, exceptions, documents and HTTP headers, both executors; distinct = different kind, code and text",
        "needs": ["TLS servers", "faults seen by a client", "statuses seen by a client", "faults of methods compared", "wrong documents answered", "wrong HTTP requests answered", "acceptable requests served"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "srv", "cases": (20000, 300000)}, {"harness": "srv", "cases": (3000, 50000), "args": ["--tls=1"]}, {"harness": "cli", "cases": (12000, 200000)}],
        "level_note": "code, text and status are compared with what was raised; the execution log must be empty for refused requests",
    },
    "C15": {
        "level": "exploration",
        "technique": "client call histories against a scripted faulty server, own-response oracle by unique ids, under ASan/UBSan/LSan",
        "rule": "random histories of 2-7 calls of one client; the server answers, faults, refuses, cuts, resets, lies about lengths, sends garbage or answers late; "
                "distinct = different history of behaviours, sizes and persistence",
        "needs": ["responses returned", "errors raised", "connections decided at once", "large responses returned", "calls on a dead kept connection", "late responses", "raised: refuse", "raised: reset", "raised: cut"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "cli", "cases": (3000, 60000)}],
        "level_note": "a value or fault may be returned only if the complete response of this very call was sent, and must be returned then; "
                      "servers that send unasked bytes on a kept connection are not covered",
    },
    "C16": {
        "level": "exploration",
        "technique": "timed sessions against a scripted silent or slow server, with signals, under ASan/UBSan/LSan",
        "rule": "each case runs 18 plain sessions (nine points of silence or slow progress, with and without signals) or 15 over TLS, also through a proxy, "
                "with timeouts of one or two seconds; distinct = different session settings",
        "needs": ["timeouts: silent connect", "timeouts: request not read", "timeouts: no answer", "timeouts: silent in the header", "timeouts: silent in the body",
                  "timeouts: silent on a kept connection", "calls longer than the timeout that succeeded", "completed: no timeout", "sessions interrupted by signals",
                  "timeouts: TLS silent before the handshake", "timeouts: TLS no answer", "timeouts: TLS silent in the body", "timeouts: proxy silent", "completed: TLS no timeout", "calls with a timeout of days or more", "calls with a timeout that was changed"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "cli", "cases": (16, 240)}, {"harness": "tls", "cases": (16, 240)}],
        "level_note": "lower bound by the clock, upper bound of timeout + 2.5 s by a heartbeat thread so that a stalled machine cannot fail it",
    },
    "C23": {
        "level": "exploration",
        "technique": "requests recorded by an independent server and compared with the configuration, under ASan/UBSan/LSan",
        "rule": "random URIs, virtual hosts, ports, credentials, headers, payloads up to 6 MB, proxy and persistence settings also changed between calls, slow readers and short writes; "
                "distinct = different configuration and sizes",
        "needs": ["requests checked", "requests of megabytes checked", "requests read slowly", "requests to a proxy checked", "credentials checked", "requests on a kept connection",
                  "proxies named while a connection is kept", "host names with line ends refused", "URIs and virtual hosts with line ends refused"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "cli", "cases": (2000, 40000)}],
        "level_note": "request line, every header line, body length and decoded body are compared with what was configured",
    },
    "C09": {
        "level": "exploration",
        "technique": "execution log and responses matched per unique call id over concurrent histories, under ASan/UBSan/LSan",
        "rule": "random numbers of clients, calls, kinds of client (raw, split, aborted, partial, library; kept or not), pool sizes, payloads and shim noise; distinct = different history settings",
        "needs": ["TLS servers", "calls answered", "executions logged", "pool histories", "serial histories", "concurrent histories",
                  "connections with a thousand calls", "crowds of connections"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "conc", "cases": (1600, 30000)}, {"harness": "conc", "cases": (240, 4000), "args": ["--tls=1"]}],
        "level_note": "each complete call must be executed exactly once with its own arguments and be answered with its own result; incomplete requests never, aborted ones at most once",
    },
    "C10": {
        "level": "exploration",
        "technique": "hostile peers and injected system-call failures with canary calls and a live event loop as oracle, under ASan/UBSan/LSan",
        "rule": "random sequences of 18 kinds of hostile peers and of failing recv, send, accept and poll calls on listening and peer sockets, serial and pool; distinct = different sequence",
        "needs": ["TLS servers", "calls of new clients", "calls of clients connected before", "calls answered during failures", "connections dropped by a failing call",
                  "failures of recv injected", "failures of send injected", "failures of accept injected", "failures of poll injected",
                  "hostile: random bytes", "hostile: gone in the answer", "hostile: many connections", "hostile: deep XML", "hostile: reset of a kept connection"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "robust", "cases": (480, 12000)}, {"harness": "robust", "cases": (160, 3000), "args": ["--tls=1"]}],
        "level_note": "a client may lose its connection only when the failing call was on that connection; everybody else must be answered within 25 s of heartbeats",
    },
    "C13": {
        "level": "exploration",
        "technique": "ThreadSanitizer with deadlock detection over generated multi-threaded histories with injected delays",
        "rule": "random server kinds (plain or TLS, serial or pool), clients sharing an address, methods that log and stop, other threads that interrupt, stop and restart; distinct = different case",
        "needs": ["calls answered", "calls answered over TLS", "interrupts", "stop requests", "restarts", "messages logged from methods", "stops by methods", "interceptor runs",
                  "two servers at a time", "calls answered by the other server"],
        "sanitizers": TSAN,
        "jobs": [{"harness": "conc", "flavour": "tsan", "cases": (600, 10000)}],
        "level_note": "schedules are sampled, not enumerated; progress is judged by deadlines of a heartbeat thread; races inside uninstrumented libraries are not seen",
    },
    "C14": {
        "level": "exploration",
        "technique": "stop requests at generated moments with termination, port, connection, descriptor and thread oracles, under ASan/UBSan/LSan",
        "rule": "random sequences of start, serve, stop (eight kinds of moment), restart and destroy, and pools of 0-40 threads destroyed idle or busy; distinct = different sequence",
        "needs": ["TLS servers", "stops", "restarts that served", "servers at one address", "servers at all addresses", "idle pools destroyed", "busy pools destroyed", "connections open at the end", "stop: before start", "stop: at start",
                  "stop: from a method", "stop: many threads", "stop: in traffic", "stop: pool busy", "stop: after silence"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "conc", "cases": (4000, 60000)}, {"harness": "conc", "cases": (320, 5000), "args": ["--tls=1"]}],
        "level_note": "a loop or destructor that does not end within 25 s of heartbeats is a hang; the server is destroyed after its pool, as its methods need it",
    },
    "C17": {
        "level": "exploration",
        "technique": "descriptor, thread and heap accounting over repeated operations, with LeakSanitizer at intervals, under ASan/UBSan",
        "rule": "one of about 40 operations (calls, failed calls, hostile peers, failing system calls; plain and TLS) repeated 30-80 times, or a random sequence of servers, pools, clients and contexts that come and go; distinct = different operation and settings, or sequence",
        "needs": ["operations", "connections decided at once", "objects made and destroyed", "servers on a taken port", "servers that could not be made or started", "servers destroyed with open connections",
                  "repeated: failing system call", "repeated: bad server", "repeated: TLS failing system call", "leak checks"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "robust", "cases": (800, 12000)}],
        "level_note": "descriptors and threads must return to the number before; the heap may grow by 3 kB (TLS: 43 kB, for session caches) over the repetitions",
    },
    "C20": {
        "level": "exploration",
        "technique": "generated TLS histories with raw OpenSSL peers, verifier and execution logs, under ASan/UBSan/LSan",
        "rule": "random results, client and server verification, hostile peers, bad servers and proxied calls, with fragmentation; distinct = different sequence and settings",
        "needs": ["TLS calls with the right result", "peers accepted by verification", "peers refused by verification", "servers accepted by verification", "servers refused by verification",
                  "fingerprints compared", "canary calls after hostile peers", "answers of raw TLS servers returned", "calls to bad TLS servers that raised", "calls through a proxy"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "tls", "cases": (1600, 24000)}],
        "level_note": "certificates are made in the run and the fingerprint is compared with an independent digest; TLS 1.2 and 1.3",
    },
    "C25": {
        "level": "exploration",
        "technique": "gated methods with start order and delivery oracles on an otherwise silent server, under ASan/UBSan/LSan",
        "rule": "random sequences of new calls, releases, added threads, other calls and idle times on pools of 1-5 threads; distinct = different sequence",
        "needs": ["TLS servers", "calls started at once", "calls that had to wait", "waiting calls started in order", "responses delivered on a silent server", "waiting calls taken by added threads",
                  "other calls answered while methods block", "moments with all threads in use", "queues of seventy calls"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "conc", "cases": (2000, 30000)}, {"harness": "conc", "cases": (240, 4000), "args": ["--tls=1"]}],
        "level_note": "the next event must happen within 25 s of heartbeats although nothing else happens on the network",
    },
    "C29": {
        "level": "exploration",
        "technique": "differential runs under generated global C++ locales, texts and raw messages compared with those of the classic locale, under ASan/UBSan/LSan",
        "rule": "random locales (decimal point, digit groups, letter cases, names of days and months) and values, requests, responses and grouped numbers; distinct = different locale and shape",
        "needs": ["documents written", "documents read", "texts refused", "dates compared", "requests served", "requests compared", "answers read"],
        "sanitizers": ASAN,
        "jobs": [{"harness": "locale", "cases": (8000, 120000)}],
        "level_note": "the locales are made of standard facets; the C library's own locale (setlocale) is not varied, as only the C locale is installed",
    },
}
