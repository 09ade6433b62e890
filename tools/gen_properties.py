#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One P(...) call per property."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
rows = []

def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    rows.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })

SEMA = ["concurrent/sema.go"]
P("C01", "Semaphores never hand out more permits than configured",
  "At every moment the number of permits of a semaphore that were acquired (blocking or not) and not yet returned is between zero and the configured number. A release with nothing acquired changes nothing, so surplus releases never make more than the configured number of permits available. A blocking acquire returns only after it has taken exactly one permit, and try-acquire answers true exactly when it took one.",
  ["schedules", "histories"], "every interleaving of acquire, try-acquire and release on any semaphore of any size",
  "Tests run a handful of goroutines on small semaphores; the bound has to survive every interleaving.",
  SEMA, [("full check and count update in one critical section", "concurrent/sema.go LockSemaphore.Acquire/TryAcquire"), ("channel capacity equals permits", "concurrent/sema.go NewChanSemaphore")],
  [("count", "permits taken", "LockSemaphore.count / length of ChanSemaphore.permits")], ["Acquire", "TryAcquire", "Release"])
P("C02", "A released permit lets a waiter in; try-acquire and release never wait",
  "Whenever a permit is returned while callers wait in a blocking acquire, at least one of them is woken and re-checks availability before it proceeds. Try-acquire refuses only when no permit is available, and neither it nor release ever waits for another caller to acquire or release.",
  ["schedules"], "every interleaving of waiters and releasers",
  "A lost wake-up only shows in particular interleavings; the tests' sleeps do not reach them.",
  SEMA, [("wait loop and broadcast", "concurrent/sema.go LockSemaphore"), ("non-blocking select", "concurrent/sema.go ChanSemaphore")])
CB = ["circuitbreaker/circuitbreaker.go"]
P("B01", "A circuit breaker call runs exactly the right callbacks, once each",
  "Every call of a circuit breaker either runs the task exactly once and no open callback, or (only when the breaker is open) runs the open callback exactly once and not the task. The error callback runs exactly once, with the error the task returned, when the task ran and failed, and never otherwise. The never-open breaker always runs the task.",
  ["inputs", "histories"], "every breaker state, task outcome and callback",
  "Tests sample a few state/outcome pairs with one breaker at a time.",
  CB, [("dispatch on state", "circuitbreaker/circuitbreaker.go Do")])
P("B02", "Breaker opens at the threshold, probes after the timeout, closes on success",
  "A call is refused exactly when at least the threshold number of failures have been recorded since the last success and no more than the reset timeout has passed since the latest failure; otherwise the task runs. Each failed task adds exactly one failure and stamps it with the current time, before the error callback sees it; each successful task clears the failures; a refused call changes neither.",
  ["histories", "schedules", "inputs"], "every sequence and interleaving of successes, failures and refused calls, every clock reading",
  "Tests check single transitions at fixed clock values.",
  CB, [("state computation", "circuitbreaker/circuitbreaker.go state"), ("recordFailure/reset", "circuitbreaker/circuitbreaker.go")],
  [("failures, lastFailureTs", "failures since last success; time of the latest", "SyncCircuitBreaker")])
P("B03", "Circuit breaker callbacks run with no breaker lock held",
  "No lock of the breaker is held while the task, the error callback or the open callback runs, so a callback may use the same breaker again and one that panics leaves the breaker usable.",
  ["programs", "schedules"], "every callback, including ones that panic or call the breaker",
  "Tests only pass well-behaved callbacks.", CB, [("locks confined to helpers", "circuitbreaker/circuitbreaker.go")])
P("R01", "Fixed window grants at most its capacity per window",
  "Within one window a fixed-window limiter grants at most its capacity, and it refuses only when the current window's capacity is used up. The grant count restarts exactly when a request's time lies beyond the end of the current window, and the new end is then the old end moved by a whole number of window sizes to the first such point not before that time (to that time itself if the window size is not positive).",
  ["inputs", "schedules", "histories"], "every clock reading, capacity, positive window size and interleaving of requests",
  "Tests use a few timestamps; boundaries and nanosecond-scale clocks are not among them.",
  ["ratelimiter/fixedwindow.go"], [("contains/reset", "ratelimiter/fixedwindow.go")],
  [("until, count", "window end and grants so far", "SyncFixedWindow")])
P("R02", "Sliding window never exceeds capacity in any look-back window",
  "With a positive capacity, a sliding-window limiter grants a request only if fewer than capacity earlier grants are on record or the oldest recorded one is more than a window size older than the request, and then records the request's time, taken in the same critical section so that records are in time order. It refuses only when capacity grants are on record and the oldest is not yet older than the window size, and a refusal changes nothing. Capacity zero means unlimited.",
  ["inputs", "schedules", "histories"], "every clock reading, capacity, window and interleaving of requests",
  "Tests use short single-goroutine histories.",
  ["ratelimiter/slidingwindow.go"], [("records list", "ratelimiter/slidingwindow.go Acquire")],
  [("records", "times of the grants still counted", "SyncSlidingWindow.records")])
P("R03", "Sliding window reconfiguration takes effect atomically and keeps history",
  "After a reconfiguration the limiter reports and applies the new window size and the new capacity (a negative one, here or at creation, counts as zero), both switched in one step with respect to concurrent requests. Recorded grants are kept except that the oldest are dropped until no more than the new capacity remain.",
  ["histories", "schedules", "inputs"], "every capacity/window pair and every interleaving with requests",
  "Tests reconfigure once without concurrency.",
  ["ratelimiter/slidingwindow.go"], [("UpdateConfig", "ratelimiter/slidingwindow.go")])
P("R04", "Token buckets stay between empty and capacity, one token per grant",
  "A token bucket never holds more tokens than its capacity nor fewer than zero, starts full, grants a request exactly when it takes one token for it, and refuses only when it holds none. This holds for the locking and the lock-free bucket under any number of concurrent callers.",
  ["schedules", "histories", "inputs"], "every interleaving, capacity, rate and clock reading",
  "Tests exercise a few sequential steps; the lock-free retry paths are not reached.",
  ["ratelimiter/tokenbucket.go"], [("issueIfNecessary/Acquire", "ratelimiter/tokenbucket.go")],
  [("tokens, lastIssueTimestamp", "tokens available; time up to which tokens were issued", "SyncTokenBucket, AtomicTokenBucket")])
P("R05", "Token buckets credit every elapsed interval once and never twice",
  "A token bucket adds tokens only for whole seconds elapsed since tokens were last issued, at its configured rate per second, and moves the issue time to the current time whenever it does, so concurrent callers never issue for the same interval twice. No token is added or removed when the clock stands still or goes backwards, and time spent full earns nothing.",
  ["schedules", "histories", "inputs"], "every interleaving of refilling callers and every clock sequence, including backwards steps",
  "Double issue needs two callers inside the refill at once; tests are sequential.",
  ["ratelimiter/tokenbucket.go"], [("issueIfNecessary", "ratelimiter/tokenbucket.go")])
LUA = ["ratelimiter/ttl_ratelimiter_redis.go"]
P("R07", "The Redis limiter script blocks, records and expires as documented",
  "One script call passes and records the request when fewer than capacity requests are on record or the oldest kept one is more than a window older than now; otherwise it sets the block key, with the caller's message and the timeout as its expiry, and reports a first-time block with that timeout and message. While the block key exists every call reports a block that is not first-time, with the remaining life and the recorded message, and records nothing. Non-positive parameters always pass, surplus old records are dropped oldest first, and records always expire, but never before the window that needs them has passed.",
  ["inputs", "histories", "configurations"], "every reachable path of the script, for all parameter values and stored records",
  "Running the script needs a Redis server, so the default test run never executes it.",
  LUA, [("script1, script2", "ratelimiter/ttl_ratelimiter_redis.go")])
P("R08", "The Redis limiter passes the right arguments and decodes the reply faithfully",
  "For every request the limiter sends the script its request key, block key, capacity, window seconds, timeout seconds, the current time in seconds and the message in the positions the script reads them from, and reports block, first-time, remaining seconds and message from the positions the script returns them in. The parameters are those its parameters object reports at the time of the call, and the limiter reports them as its own. If the parameters are unset (any not positive) or Redis fails, the request is passed: not blocked, not first-time, no lifetime, no message.",
  ["inputs", "fault_sequences", "configurations"], "every key, message, parameter set and Redis failure",
  "No test without a Redis server reaches this code.",
  LUA, [("ShouldBlock2Context, IsBlockedContext", "ratelimiter/ttl_ratelimiter_redis.go")])
P("R09", "All Redis limiter calls derive the same keys, with the cluster tag in both",
  "The blocked-key query looks up exactly the key that the deciding call for the same block key writes, for plain and for cluster limiters. In cluster mode the first braces in every key sent enclose the same hash tag, the one the limiter was made with, so that the keys of one call share a slot whatever the caller's keys contain, and the request key and the block key derived from one key never coincide: the one carries a marker prefix, the other a marker suffix. The shorter call forms behave as the full form with the key used as block key and a background context, and each script is executed through the digest it was loaded under.",
  ["inputs", "configurations"], "every key, block key and hash tag",
  "Key agreement is only visible against a Redis (cluster) server.",
  LUA, [("key derivation", "ratelimiter/ttl_ratelimiter_redis.go")])
SCH = ["schedule/task.go", "schedule/fixed_delay_task.go", "schedule/fixed_rate_task.go"]
P("S01", "A task can be started once and stopped once, in that order",
  "Start succeeds only on a task that was never started, and stop only on a task that was started and not yet stopped; every other call returns an error (or panics in the Must form) and changes nothing. This holds for concurrent callers: of several simultaneous starts, or stops, exactly one succeeds.",
  ["schedules", "histories"], "every sequence and interleaving of start and stop",
  "Tests issue the calls one after another.", SCH, [("markStart/markStopSendSignal under the task lock", "schedule/task.go")],
  [("status", "new, started, stopped", "taskCommon.status")])
P("S02", "Fixed-delay jobs never overlap and the next waits the interval after the last",
  "A fixed-delay task runs its jobs one at a time: the next run is only triggered one interval after the previous run has completely finished. The first run is triggered immediately on start, and every finished run triggers exactly one further run.",
  ["schedules", "histories"], "every job duration, interval and interleaving with stop",
  "Tests observe a few runs with generous sleeps.", SCH, [("runJob called synchronously, then one re-arm", "schedule/fixed_delay_task.go startConsuming")])
P("S03", "Job timeout or stop cancels the running job, which is then waited for",
  "Every job run gets a cancel channel that is closed when the task's timeout elapses or the task is stopped, whichever is first, and that the run itself always releases when it ends. A run is considered finished only once its job function has returned, also after a timeout or stop.",
  ["schedules", "inputs"], "every job behaviour, timeout and stop moment",
  "Tests try one stop and one timeout.", SCH, [("runJob", "schedule/task.go")])
P("S04", "After stop no further run is queued and all task goroutines end",
  "Once a task is stopped every goroutine it started for queueing, ticking or consuming ends, none of them can stay blocked on a queue nobody serves, and no job run is started that was not already triggered. A fixed-rate task also stops its ticker.",
  ["schedules", "histories"], "every moment at which stop can happen",
  "Leaks and late runs depend on the instant of the stop.", SCH, [("stop signal in every select", "schedule/*.go")])
P("S05", "Fixed-rate tasks run at once, then one run per tick, without waiting for jobs",
  "A fixed-rate task triggers its first run immediately on start and exactly one run per tick of its interval until it is stopped. A run never delays the following ticks: each job runs on its own goroutine.",
  ["schedules"], "every job duration and interval",
  "Tests sample a few ticks.", ["schedule/fixed_rate_task.go"], [("startProviding/startConsuming", "schedule/fixed_rate_task.go")])
P("S06", "The task manager starts what it registers and stops what it unregisters",
  "Registering a task under a free name starts it exactly once and keeps it; a name already taken is refused with an error and the offered task is not started; a task that fails to start is not kept. Unregistering a name stops exactly that task once and frees the name, unregistering all stops every kept task and frees all names, and unknown names change nothing.",
  ["histories", "schedules"], "every sequence and interleaving of register and unregister",
  "Tests cover single sequential registrations.", ["schedule/task_manager.go"], [("taskMap under lock", "schedule/task_manager.go")])
P("S07", "Invalid tasks are rejected at creation",
  "Creating a task panics when the name is blank, the timeout or interval is not positive, or the job is missing, and returns a not-yet-started task with exactly the given settings otherwise.",
  ["inputs"], "every name, job, interval and timeout",
  "Tests try a few invalid values.", SCH, [("constructors", "schedule/fixed_*_task.go")])
EV = ["event/bus.go"]
P("E01", "Each event is offered once to every registered receiver, per its strategy",
  "Every event taken from the bus is offered exactly once to each receiver registered at that time, with the value that was sent. A receiver with the drop strategy never delays dispatching; a receiver with the block strategy gets the event unless it or the bus is closing. A new receiver gets events on the very channel it exposes, with the buffer size, strategy and name asked for.",
  ["schedules", "histories"], "every number of receivers, buffer size and interleaving",
  "Tests use few receivers and sleeps.", EV, [("doDispatch/onEvent", "event/bus.go")])
P("E02", "The bus never sends on or closes a closed receiver channel",
  "A receiver's channel is closed at most once and nothing is sent to it afterwards, whatever the interleaving of dispatching, receiver close (also repeated) and bus close. Closing a receiver never affects another one, even one registered later under the same name.",
  ["schedules", "histories"], "every interleaving of dispatch, register and close",
  "The panic needs a close between lookup and send.", EV, [("close under the write lock, send under the read lock", "event/bus.go")])
P("E03", "Closing a receiver or bus closes and deregisters, never awaiting a reader",
  "Closing a receiver closes its channel and removes it from the bus; closing the bus stops dispatching, closes the channels of all registered receivers and removes them. Neither close waits for the receivers it closes to be read.",
  ["schedules", "histories"], "every state of dispatching and receivers",
  "A deadlock needs a dispatch blocked on a full receiver during close.", EV, [("Close, deregister, done channels", "event/bus.go")])
P("E04", "Drain and timed collection end and return exactly what was received",
  "Draining a receiver returns without waiting as soon as nothing is pending or the receiver is closed; collecting returns when the timeout elapses or the receiver is closed. Both return exactly the values received, in order, and nothing else.",
  ["schedules", "inputs"], "every channel state and timeout",
  "Tests never collect from a closed receiver.", EV, [("Drain, CollectTimeout", "event/bus.go")])
CS = ["confstore/store.go"]
P("K01", "The config store only ever holds validated values, typed and string in step",
  "A value enters the config store only for a registered key and only after that key's processor accepted it; a rejected or unregistered update is reported with key, value and reason and changes nothing; an empty key is ignored. The typed and the string form of a value always change together, the typed one being the processor's conversion of that very string, which a processor is only asked for once it accepted the string, and no update can revive a key deregistered meanwhile.",
  ["schedules", "inputs", "histories"], "every key, value, processor and interleaving of updates, reads and deregistration",
  "Tests update one key sequentially.", CS, [("UpdateNoPersist", "confstore/store.go")],
  [("kv, kvStr, kvDefault, kvDefaultStr, kvProcessor", "values, defaults and processors", "defaultImpl")])
P("K02", "Reads return the current value, else the default; reset and deregister work",
  "A read returns the current value of the key if one is set and its default otherwise, typed or as string, and reports absence (or panics in the Must form) only for unknown keys. Reset drops exactly the current value, in memory and in persistence; deregistering drops everything about the key, in memory and in persistence. Batch reads return, in order, exactly the non-empty keys that exist with the value a single read gives.",
  ["histories", "inputs", "schedules"], "every history of register, update, reset, deregister and read",
  "Tests cover a few sequences.", CS, [("GetValue*, ResetKey, DeregisterKey", "confstore/store.go")])
P("K03", "Exactly the accepted updates are persisted",
  "A single update is persisted exactly when it was accepted, with the same key and value; a batch update persists exactly its accepted entries, in order, and returns one error per rejected entry in order. The non-persisting update never writes to persistence, and a failing persistence never fails the update.",
  ["inputs", "histories", "fault_sequences"], "every key/value batch, persistence outcome and processor verdict",
  "The tests' persister does nothing.", CS, [("Update, BatchUpdate", "confstore/store.go")])
P("K04", "Registration rejects bad keys, processors and defaults without side effects",
  "Registering fails, changing nothing, if the key is empty, the processor is missing, the key is already registered or its processor rejects the default. Otherwise the processor and the default, as string and converted, are all stored.",
  ["inputs", "histories", "schedules"], "every key, default and processor",
  "Tests try a few.", CS, [("RegisterKey", "confstore/store.go")])
P("K05", "Every read consults the load policy; the interval policy limits reloading",
  "Every read operation of the store asks the load policy to refresh from persistence before it looks at values. The interval policy reloads when its interval has passed since the last successful load, or always if the interval is not positive, and otherwise does not; a failed load is reported and does not count as a load.",
  ["histories", "schedules", "fault_sequences"], "every sequence of reads, clock readings and load failures",
  "Tests sample a few intervals.", ["confstore/store.go", "confstore/loader.go"], [("DoLoad", "confstore/loader.go")])
P("K06", "Store locks are taken in one order and not held while loading",
  "No two operations of the config store can deadlock against each other, and no store lock is held while the load policy or the persistence's load runs, since loading writes back into the store.",
  ["schedules"], "every pair of concurrent operations",
  "A deadlock needs a specific interleaving.", ["confstore/store.go", "confstore/loader.go"], [("processor lock before value lock", "confstore/store.go")])
P("K07", "What a processor accepts it converts without loss",
  "For every built-in processor, a string it accepts is converted by the same parser that validated it, so the conversion never fails silently: the result has the processor's documented type and is the parsed value (an explicitly accepted empty string converts to a nil of that type, or to itself for string types).",
  ["inputs"], "every string and every processor",
  "Tests list a few strings per processor.", ["confstore/procs.go"], [("Validate/Convert pairs", "confstore/procs.go")])
P("K08", "Redis persistence reads and writes the same hash, entry by entry",
  "The Redis persistence saves every given key with its own value under the configured root, deletes exactly the given key there, loads from there and offers every loaded entry to the store without persisting it again. A Redis failure is returned to the caller, a rejected entry does not stop the others, and saving nothing writes nothing.",
  ["inputs", "fault_sequences"], "every set of entries and Redis failure",
  "Needs a Redis server; skipped by default.", ["confstore/persister.go"], [("redisPersister", "confstore/persister.go")])
P("K09", "Built-in validators accept exactly their documented sets",
  "The integer processors accept exactly the integers within their bounds, each bound inclusive or exclusive as configured; the bool processor exactly true and false; the string processor exactly the strings whose length in bytes is within its limits; the enum processor exactly its members; the colour processor exactly the empty string and a hash followed by six hex digits; the duration processor exactly what Go parses as a duration; the URL processors exactly the empty string and absolute URLs or paths; the RSA processors exactly the empty string and what the key readers read. Every refusal carries a non-empty reason and every acceptance none.",
  ["inputs"], "every string and every configured bound",
  "Tests list a few strings per processor.", ["confstore/procs.go"], [("Validate", "confstore/procs.go")])
CF = ["conf/conf.go", "conf/env.go", "conf/flag.go", "conf/yaml.go", "conf/reflect.go", "conf/string.go"]
P("F01", "Flags override environment, which overrides the YAML file",
  "Loading applies the YAML file (if one is named) first, then environment variables, then command-line flags, each exactly once on the same configuration, so a later source wins. An environment variable that is not set changes nothing and one that is set, even to the empty string, is applied; an unreadable or invalid source stops the program with a non-zero status and a message instead of returning.",
  ["configurations", "inputs"], "every combination of sources",
  "Tests resolve each source separately; Load itself exits the process.", CF, [("resolver order", "conf/conf.go Load")])
P("F02", "Environment and flag loading cover every supported field type identically",
  "Each field type the documentation lists is bound, by environment and by flag alike, to the parser for that very type, which is given the text of the variable or the argument as it is, with the field's present value kept as default; a duration is parsed as a duration, not as an integer. Fields of other types are left alone.",
  ["programs", "inputs"], "every configuration struct",
  "Tests use one struct.", CF, [("type switch", "conf/env.go, conf/flag.go"), ("kinds visited", "conf/reflect.go")])
P("F03", "Environment and flag names follow the documented convention",
  "For every field path the flag name is the path in lower case and the environment name the path in upper case, with the separator (dash, underscore) in place of every dot and before every ASCII upper-case letter that neither starts the path nor follows a dot, and all other characters kept.",
  ["inputs"], "every path of ASCII names",
  "Tests list a few names.", ["conf/string.go", "conf/env.go", "conf/flag.go"], [("flagStyle, envStyle", "conf/string.go")])
P("F04", "Every exported field of a configuration is visited once under its path",
  "Pointers to structs and values in a configuration are allocated before loading, keeping those already set. Every field of a supported type reached through exported fields only, at any depth, is visited exactly once under the dot-separated path of the field names leading to it, embedded fields adding no segment; unexported and unsupported ones are never visited.",
  ["programs"], "every non-recursive configuration struct",
  "Tests use a few structs.", ["conf/reflect.go"], [("visitExportedFields, initStruct", "conf/reflect.go")])
CO = ["confs/mysql.go", "confs/oracle.go", "confs/postgresql.go", "confs/redis.go", "confs/es.go", "confs/pprof.go", "confs/fasthttpclient.go"]
P("N01", "Credentials never appear in logs, error output or printed configurations",
  "No password or user name of a configuration, and no connection string built from them, ever reaches a log call, panic message or the printed form of a configuration of this library; printed forms show each other setting under its own name.",
  ["inputs", "fault_sequences"], "every configuration value and failure path",
  "A leak shows only on the failing path that logs it.", CO, [("String methods, log calls", "confs/*.go")])
P("N02", "Each connection setting reaches the driver option of the same meaning",
  "Every setting of a MySQL, Oracle, PostgreSQL, Redis, Elasticsearch or fasthttp-client configuration is handed, unchanged, to the driver option of that meaning and to no other, alike in the plain and the traced variants. Extra parameters given as key=value pairs are unescaped and passed on under their key, and malformed pairs are ignored.",
  ["configurations", "inputs"], "every configuration value",
  "Tests need live servers; only two preparations are tested.", CO, [("client constructors", "confs/*.go")])
P("N03", "TLS trust settings of the HTTP client are applied and never weakened",
  "Server certificate verification is switched off exactly when the trust mode is INSECURE; with mode CUSTOM and certificates given, exactly those certificates are trusted; otherwise the system roots are. A client certificate is presented exactly when one is configured, and an unreadable certificate file never yields a working client.",
  ["configurations", "fault_sequences"], "every combination of TLS settings",
  "No test builds a client.", ["confs/fasthttpclient.go"], [("NewFastHttpClient", "confs/fasthttpclient.go")])
P("N04", "Profiling endpoints are unreachable without the configured credentials",
  "The profiling handler runs only for a request that presents exactly the configured non-empty user name and password by basic authentication. With either one unset the endpoints are closed to everybody, and every other request is refused with a request for basic authentication and without profiling output. With both set the configured block and mutex profiling rates are in force.",
  ["inputs", "configurations"], "every Authorization header and configuration",
  "No test sends a request.", ["confs/pprof.go"], [("handlers", "confs/pprof.go")])
P("N05", "A client is returned only after a successful connection test, with pool limits",
  "The database, Redis and Elasticsearch constructors return a client only after a successful ping of the server; any failure to open or ping, and an Oracle configuration with neither service nor SID, ends in termination or panic, and nothing else does. A database client that is returned has had the configured maximum of open and idle connections and connection lifetime applied, and an Elasticsearch client that is returned has its connections to itself: the answer to the test was closed.",
  ["fault_sequences", "configurations"], "every failure point",
  "Tests need live servers.", CO, [("Ping check", "confs/*.go")])
P("N06", "PostgreSQL connection strings survive any characters in their parts",
  "In the PostgreSQL connection string the user name, password, database name and every option name and value are escaped, so that no character in them can change its structure, and each option appears once with its whole trimmed value.",
  ["inputs"], "every string",
  "The only test needs a server and uses plain names.", ["confs/postgresql.go"], [("buildPgDsn", "confs/postgresql.go")])
P("N07", "Customisers are applied once, to the configuration actually used",
  "Every constructor that takes a customiser calls it exactly once if given, never if not, with the driver configuration or option set that is then used to build the client.",
  ["programs", "configurations"], "every customiser",
  "Tests pass few customisers.", CO, [("customizer calls", "confs/*.go")])
SW = ["skywalking/fasthttp-routing/middleware.go", "skywalking/fasthttp/client_span.go", "skywalking/redis/hook.go"]
P("W01", "Every tracing span that is started is ended exactly once",
  "Each span started for an incoming request or a Redis command is ended exactly once when that request or command ends normally or with an error, and the helper calls for client requests end the given span exactly once. Only the span the component itself created is ever ended, and a missing span is tolerated.",
  ["histories", "fault_sequences"], "every outcome of the traced operation and of span creation",
  "There are no tests of this code.", SW, [("End calls", "skywalking/**")])
P("W02", "Tracing never changes the outcome of the traced operation",
  "Whether tracing is configured, fails or succeeds, the traced request's handler chain runs exactly once with its error passed on, Redis commands are executed with their own results, and no hook returns an error of its own making or dereferences a span that could not be created.",
  ["fault_sequences", "inputs"], "every tracer state and failure",
  "There are no tests of this code.", SW, [("middleware, hooks", "skywalking/**")])
P("W03", "Error texts, response bodies and command arguments are traced only if enabled",
  "Error texts are attached to spans only with error logging enabled, response bodies only with body logging enabled, and Redis command arguments only with argument reporting enabled; enabled details are attached. Whatever is enabled, a span carries an error mark exactly if its operation failed (an error of the handlers or the connection, a status of 400 or more, an error of the command or of any command of the pipeline). Each option enables exactly its own detail.",
  ["configurations", "inputs"], "every option set and outcome",
  "There are no tests of this code.", SW, [("option checks", "skywalking/**")])
P("W04", "Traces are continued across processes and spans describe their operation",
  "A component that was given a tracer starts a span on it for every operation. The span of an incoming request continues the trace its headers name, and the handlers find the span's context with the request; a client request carries the trace headers of its span, each under its own name and nothing else; Redis spans are named after the command, or every command of the pipeline in order, with the configured address and database. HTTP spans record method, address and final status. Without a configured trace server nothing is connected or sent; with one, exactly that server is used and a connection error is reported.",
  ["inputs", "configurations"], "every request, command list and configuration",
  "There are no tests of this code.", SW + ["skywalking/factory.go"], [("span creation and tags", "skywalking/**")])
RSA = ["util/rsa/util.go"]
P("P01", "Key and certificate parsing reports bad input as an error, never a panic",
  "For every input the RSA key and certificate readers return either a key of the requested kind or a non-nil error, without panicking; the Must forms return that same key and panic exactly when there is an error.",
  ["inputs"], "every byte string",
  "Tests use a few good keys.", RSA, [("Read*", "util/rsa/util.go")])
P("P02", "PEM input must be of the expected type; bare base64 is wrapped with it",
  "Each reader accepts only a PEM block whose type is the one it is for, rejecting missing blocks and other types before parsing, and parses exactly that block's bytes. Text without PEM markers is wrapped in markers of that type, and text with both markers is read as it is.",
  ["inputs"], "every string",
  "Tests use a few strings.", RSA, [("normalizePem, type checks", "util/rsa/util.go")])
P("P03", "An extracted public key is one the reader reads back as the same key",
  "Extracting the public key of an RSA private key either returns an error, and only when marshalling or encoding failed, or the PEM text of exactly one block, of the type the public-key reader expects and without headers, holding the marshalled public half of that very key and nothing else. Reading that text with the public-key reader therefore yields an equal key.",
  ["inputs"], "every private key",
  "Tests use one key; a wrong block type, marshaller or key half shows only when the text is read back.",
  RSA, [("marshalling and encoding", "util/rsa/util.go ExtractPublicKeyPem"), ("expected block type and parser", "util/rsa/util.go ReadPublicKeyBytes")])
ALL = ["circuitbreaker/circuitbreaker.go", "concurrent/sema.go", "confstore/store.go", "confstore/loader.go", "event/bus.go", "ratelimiter/fixedwindow.go", "ratelimiter/slidingwindow.go", "ratelimiter/tokenbucket.go", "schedule/task.go", "schedule/task_manager.go", "schedule/fixed_delay_task.go", "schedule/fixed_rate_task.go"]
P("D01", "JSON map decoding yields exactly the document's entries or an error and no map",
  "Decoding JSON into a map gives either the entries of the whole text, and nothing else, with no error, or no map and the error; it never panics. Text with anything after the JSON value is refused. Encoding returns the JSON of the map or the error. Neither changes its argument.",
  ["inputs"], "every text and map",
  "There are no tests.", ["dto/m.go"], [("UnmarshalM", "dto/m.go")])
P("D02", "Panic assertions fail a test exactly when their expectation is not met",
  "The panic assertions call the function given exactly once, contain its panic and return. ShouldPanic marks the test as failed exactly if the function returned; ShouldNotPanic exactly if it panicked; ExpectPanic if it returned, or panicked with a value that is not deeply equal to the expected one.",
  ["inputs"], "every function and expected value",
  "The assertions' own failures cannot be tested from within tests that use them.", ["testutil/panic.go"], [("assertions", "testutil/panic.go")])
P("X01", "No operation returns or panics with a lock still held",
  "Every lock any operation of the library takes has been released when the operation returns, also when it leaves by a panic raised in user-supplied code (task, processor, persistence, clock) that runs while the lock is held. No lock is released that is not held.",
  ["programs", "schedules", "fault_sequences"], "every path of every operation, including panics of user code",
  "Tests never panic inside callbacks.", ALL, [("Lock/Unlock pairs", "all packages")])
P("X02", "Shared state is only touched under its lock or atomically",
  "Every access to state that operations of one object share and change happens with that object's lock held, exclusively for writes, or through atomic operations only (apart from loading the Redis scripts, a start-up step), so no use of the library from several goroutines is a data race on the library's own state.",
  ["schedules"], "every pair of concurrent operations on one object",
  "The race detector only sees executed interleavings.", ALL, [("guarded fields", "all packages")])
P("X03", "Locks cannot deadlock: no re-acquisition, no cycles, no wait while held",
  "No operation acquires a lock it already holds, no two operations acquire two locks in opposite orders, and nothing that can wait indefinitely on another goroutine of the library (channel operation, condition of another lock) happens while a lock that goroutine needs is held.",
  ["schedules"], "every pair of operations",
  "A deadlock needs a specific interleaving.", ALL, [("lock order", "all packages")])
P("X04", "No loop repeats an iteration that changed nothing and waited for nothing",
  "Every operation of the library that goes round a loop makes progress each time: the iteration takes the next element, changes something the loop or its callers can observe, calls something whose answer can differ next time, or waits for or synchronises with others. None goes round again in exactly the state it came from, holding its locks and a processor for ever.",
  ["inputs", "histories", "programs"], "every path once round every loop",
  "An endless loop only appears with inputs that reach the unproductive branch; a test of it would hang rather than fail.", ALL, [("loops", "all packages")])
P("X05", "Operations report failures by their results and do not panic",
  "An operation that has an error or boolean result to report a failure with, and every method not named Must…, never panics: neither explicitly nor by dereferencing nil, calling a nil function, writing to a nil map, indexing or slicing out of range, asserting a wrong dynamic type or dividing by zero, whatever arguments of the documented kind it is given, whatever the state of the object (made by its constructor) and whatever the libraries it calls report. The same holds of the goroutines and callbacks it leaves behind. Required pointers, interfaces and functions are taken to be given; reflection inside configuration loading is F02's, the shape of Redis replies R08's, closed channels E02's.",
  ["inputs", "histories", "fault_sequences"], "every operation and every path of it",
  "A panic needs the one input, missing entry or failed call that tests do not try.",
  ALL + ["skywalking/redis/hook.go", "skywalking/fasthttp/client_span.go", "util/rsa/util.go", "confstore/procs.go", "confs/mysql.go"], [("operations", "all packages but conf")])
P("X06", "Operations leave the data they are given, and process-wide defaults, alone",
  "No operation changes the slices, maps and structures its caller hands it (lists of entries, configurations): it neither writes to them nor reorders them nor appends into their spare room, and it does not keep a slice or map of the caller's to use later (lists of variable arguments aside), nor hand out one that it goes on using itself. The methods of plain data types (printing a configuration) leave their receiver alone too. Nothing changes process-wide state of other packages, such as http.DefaultTransport, the environment or the standard logger's settings. The target of configuration loading, which is there to be filled, is F02's.",
  ["inputs", "histories"], "every operation, every path of it, and every goroutine and function it leaves behind",
  "Tests look at results; a changed argument shows only in a caller that uses its data again, or shares it.",
  ALL + ["confs/mysql.go", "confs/es.go", "skywalking/factory.go"], [("operations", "all packages but conf")])

NA = [
 ("T01", "Ticks and timeouts fire at their nominal real time",
  "Fixed-rate runs, delays and timeouts happen at their configured real times within a small tolerance.",
  ["schedules"], "every load and clock", "Tests sample a few intervals.", ["schedule/task.go"], [("timers", "schedule/*.go")]),
 ("T03", "Long-run admission rate equals the configured rate",
  "Over long times a token bucket under constant load grants the configured number of requests per second.",
  ["histories"], "every load", "Tests run for seconds.", ["ratelimiter/tokenbucket.go"], [("issueIfNecessary", "ratelimiter/tokenbucket.go")]),
 ("T04", "Waiting callers of a semaphore are served fairly",
  "No caller waits forever in acquire while others repeatedly acquire.",
  ["schedules"], "every schedule", "Tests are short.", SEMA, [("Broadcast", "concurrent/sema.go")]),
]
for n in NA:
    P(*n[:3], n[3], n[4], n[5], n[6], n[7])
ids = [r["id"] for r in rows]
assert len(ids) == len(set(ids))
with open(OUT, "w") as f:
    for r in rows:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(rows), "properties")
