import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe,state=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)

p("C01","Fixed-session identity: one stable current id per process, previous id kept",
 "With the fixed session strategy every caller, on every thread, sees the same current session id until a new session is explicitly started, after which every later call sees exactly the new id; ids come from the application callback, or are freshly generated when it fails or is re-entered, and a re-entered start is refused without changing anything. The previous-process session id always names the last session id that was made durable by the preceding process and never changes while the process runs. The current id is durable once it has been handed out.",
 ["histories","schedules","crash_points","fault_sequences"],
 "all sequences and thread interleavings of reading, starting and asking for the previous id, process restarts between any two operations, callback failure and callback re-entry at any point",
 "The four unit tests run one short scripted history each; order of first use, restarts between uninitialised operations, racing first readers and re-entry combined with failure are never enumerated.",
 ["bd-session/src/fixed.rs","bd-key-value/src/lib.rs"],
 [("state under one mutex, lazily initialised; re-entry flag per thread","bd-session/src/fixed.rs"),("durable state key written on each new id","bd-session/src/fixed.rs")],
 ["Strategy::session_id / start_new_session / previous_process_session_id return values","contents of the key-value storage"])
p("C02","Activity-based session: rolls over exactly on inactivity, across restarts",
 "With the activity-based strategy the session id changes if and only if more than the configured inactivity threshold passed since the last recorded activity, the clock moved backwards, or a new session was explicitly started, and the change callback fires exactly once per automatically generated id. Reading the id counts as activity; the id survives a process restart unless the threshold passed since the last durable activity, and durable activity lags real activity by no more than the throttling interval unless explicitly flushed. The previous-process id is the id that was durable when this process first used the session.",
 ["histories","crash_points","inputs"],
 "all sequences of reads, explicit starts, flushes, clock moves forwards or backwards and restarts, for every threshold",
 "Tests use a handful of fixed clock offsets; boundary instants, repeated throttled writes, backwards clocks and restarts in between are combinations they do not reach.",
 ["bd-session/src/activity_based.rs","bd-session/src/lib.rs","bd-key-value/src/lib.rs"],
 [("inactivity comparison and throttled persistence","bd-session/src/activity_based.rs")],
 ["Strategy return values","callback invocations","storage writes"])
p("C03","Key-value store returns exactly what was last stored, or nothing",
 "Reading a key yields the value most recently stored under exactly that key by this or an earlier process, or nothing; it never yields a value that was not stored under that key, and keys never affect each other. When the underlying data is unreadable or malformed, reading yields nothing without failing and the bad entry is removed so that the key can be reused. Failures of the backing storage never surface to callers as a panic.",
 ["histories","inputs","fault_sequences"],
 "all interleaved histories of set, get and restarts over several keys and types, with arbitrary corruption of stored bytes and injected storage failures",
 "Two tests: one round trip and one malformed value; no histories, no storage faults, no multi-key interference.",
 ["bd-key-value/src/lib.rs"],
 [("encode on set, decode or delete on get","bd-key-value/src/lib.rs")],
 ["Store::get result","contents of the Storage implementation after each call"])
p("C04","Device identifier is created once and never changes",
 "All calls, on all threads and over all process lifetimes sharing the same storage, return the same device identifier as long as the storage retains it; it is made durable before any caller sees it. At most one identifier is ever created per process, and an unreadable stored identifier is replaced by a single new one that is stable from then on.",
 ["histories","schedules","crash_points","fault_sequences"],
 "all interleavings of concurrent first readers, restarts at any point, storage loss or corruption between calls",
 "A single sequential test; racing first reads, restarts and corruption are not explored.",
 ["bd-device/src/lib.rs","bd-key-value/src/lib.rs"],
 [("cached id under a mutex, load or create-and-store","bd-device/src/lib.rs")],
 ["Device::id return values","storage write count and contents"])
p("C05","App version change is reported exactly once per change",
 "An application version (or build) change between launches is reported exactly once, with the previously recorded version, and never on first launch or for an unchanged version; merely asking whether the version changed never consumes the report. After a change has been recorded, the stored version is the current one, and versions are equal only if both the version string and the build discriminator (including its kind) are equal.",
 ["histories","inputs","crash_points"],
 "all histories of launches with arbitrary version sequences (upgrades, downgrades, returns to an older version), interleavings of asking and recording, restarts between them",
 "One scripted upgrade is tested; returning to an older version, kind-only changes and restarts between query and record are not.",
 ["bd-logger/src/app_version.rs","bd-key-value/src/lib.rs"],
 [("compare against the durable version, store on change","bd-logger/src/app_version.rs")],
 ["Repository::has_changed / set results","stored version"])
p("C06","Log fields: unique names, fixed precedence, reserved names protected",
 "Every emitted log carries at most one value per captured field name and per matching field name, chosen by the documented precedence: provider out-of-the-box, log out-of-the-box, log custom, global custom, provider custom (earlier entries winning inside a class). Fields with reserved names or a leading underscore are never taken from custom sources or accepted as global fields, and removing or re-adding a global field leaves exactly the latest value. For session-replay, resource and internal logs the provider's fields are used for matching only and are never captured.",
 ["inputs","histories"],
 "all combinations of field lists, kinds, names and log types, after all histories of adding, replacing and removing global fields; provider failures",
 "Five example-based tests with a few fields each; they do not cover cross-class conflicts for each log type nor histories of global fields.",
 ["bd-logger/src/metadata.rs","bd-log-primitives/src/lib.rs"],
 [("partition, concatenate in precedence order, unique by key","bd-logger/src/metadata.rs"),("reserved name list","bd-logger/src/metadata.rs")],
 ["fields and matching fields of the produced metadata","result of adding a global field"])
p("C07","Shutdown reaches every component and waits for all of them",
 "Once shutdown is triggered every component that waits for cancellation is woken, whether it starts waiting before or after the trigger and whether its waiter was created from a handle or cloned from another waiter; no component is told to stop before that unless the trigger is gone. Triggering completes only after every outstanding component has released its waiter and, when all are released, always completes. Handles that only create waiters never delay completion.",
 ["schedules","histories"],
 "all interleavings of creating, cloning, waiting on and dropping waiters and handles with triggering or dropping the trigger",
 "No tests exist for this crate; the property is about every interleaving of components.",
 ["bd-shutdown/src/lib.rs"],
 [("watch channel broadcast, drop detection","bd-shutdown/src/lib.rs")],
 ["completion of cancelled()","completion of shutdown()/shutdown_blocking()"])
p("C08","Watched configuration: latest file wins, bad files fall back, stop is final",
 "After the watched configuration is replaced by a rename, subscribers eventually observe the content of the latest replacement and never an older one afterwards; a missing or unparsable file yields the designated fallback rather than stale or partial content, and a later good file recovers. Each reload attempt is accounted to exactly one of success, parse failure or read failure. After shutdown completes no further change is observed and shutting down again is harmless.",
 ["histories","schedules","fault_sequences"],
 "all histories of valid, invalid, missing and rapidly successive replacements interleaved with readers, subscribers and shutdown",
 "Four tests do one or two replacements each; bursts, bad-then-good sequences, counters and shutdown interleavings are not covered.",
 ["bd-runtime-config/src/loader.rs","bd-runtime-config/src/feature_flags.rs"],
 [("inotify rename watcher feeding a watch channel","bd-runtime-config/src/loader.rs")],
 ["snapshot watch values","stats counters","shutdown completion"])
p("C09","Feature flags evaluate to the configured value or the caller's default",
 "A flag lookup returns the configured value when the flag exists with the requested type and the caller's default in every other case (missing flag, other type, unreadable or malformed configuration). A percentage rollout never enables at zero, always enables at the maximum and beyond, and otherwise enables with the configured probability and only as a function of the drawn random number; non-numeric configuration yields the default.",
 ["inputs","configurations"],
 "all flag files, flag names, requested types, defaults and random draws",
 "Tests look up a few flags from one file and one percentage; type confusion and rollout boundaries are not swept.",
 ["bd-runtime-config/src/feature_flags.rs"],
 [("typed lookup with default, rollout comparison","bd-runtime-config/src/feature_flags.rs")],
 ["return values of the lookup functions"])
p("C10","Server metrics: bounded label cardinality, stable identity, exact counts",
 "The number of distinct label values that a metrics collector ever exposes never exceeds its limit (up to values being added concurrently), overflowing label sets are all folded into the single overflow label set and counted, and label values already admitted are never refused later. Asking twice for the same metric name and labels gives the same underlying metric, different scopes never collide, and every recorded increment appears exactly once in the gathered output, including chained collectors and on-gather callbacks. Scoped in-flight gauges return to their previous value when the scope ends.",
 ["histories","schedules","inputs"],
 "all histories of creating scopes, labelled and unlabelled metrics, increments and gathers, from concurrent threads, for every label limit",
 "The crate's tests are few and sequential; limit boundaries, repeated names across scopes and mixed histories are not enumerated.",
 ["bd-server-stats/src/stats.rs","bd-stats-common/src/lib.rs"],
 [("label tracker","bd-server-stats/src/stats.rs"),("metric caches keyed by name and labels","bd-server-stats/src/stats.rs")],
 ["gathered metric families"])
p("C11","Completion signals are delivered exactly once or reported as lost",
 "A completion receiver finishes successfully if and only if its sender sent, whether it starts waiting before or after the send, and reports an error, without hanging, if the sender went away without sending. Sending never blocks and never fails, even when nobody is waiting any more.",
 ["schedules","histories"],
 "all interleavings of creating, sending, dropping and receiving, in asynchronous and blocking form",
 "No tests exist for this crate.",
 ["bd-completion/src/lib.rs"],
 [("one-shot channel","bd-completion/src/lib.rs")],
 ["receiver results"])
p("C12","Rate-limited logging: first occurrence always, then at most one per period",
 "For each rate-limited log site the first occurrence is always emitted at the requested level, and any two emissions at that level are more than the period apart; an occurrence is suppressed only when an emission happened within the period before it. Sites are independent of each other and concurrent occurrences never produce two emissions for one period.",
 ["histories","schedules","inputs"],
 "all timings of occurrences, periods and threads, at several sites",
 "One test with two occurrences; boundary times and concurrency are not covered.",
 ["bd-log/src/rate_limit_log.rs"],
 [("last emission time under a mutex","bd-log/src/rate_limit_log.rs")],
 ["decision to warn per occurrence"])
p("C13","In-memory ring buffer delivers reserved records intact, in order, at most once",
 "Every record read from the volatile ring buffer is byte-for-byte a record that some producer committed, records are delivered in the order they were reserved whatever the commit order, and none is delivered twice. A record is lost only by being overwritten as one of the oldest by a newer reservation, and every refusal or loss is reported to the writer or counted; a reservation never overlaps a record that is still being written or read. Zero-sized, oversized and double operations are refused without changing anything.",
 ["schedules","histories","inputs","configurations"],
 "all interleavings of several producers and a consumer reserving, committing, writing, reading and finishing records of all sizes, buffer sizes, locking and shutdown",
 "The example tests drive fixed interleavings of fixed sizes; wrap-around geometry combined with outstanding reservations and reads is a large state space they sample.",
 ["bd-buffer/src/buffer/common_ring_buffer.rs","bd-buffer/src/buffer/volatile_ring_buffer.rs","bd-buffer/src/buffer/mod.rs"],
 [("reservation arithmetic over a circular region","bd-buffer/src/buffer/common_ring_buffer.rs"),("ordered commit list","bd-buffer/src/buffer/volatile_ring_buffer.rs")],
 ["producer/consumer return values","stats counters"])
p("C14","Persistent ring buffer survives a crash without serving corrupt data",
 "Whatever bytes of the backing file survive a crash at any point, reopening the persistent buffer either succeeds and delivers, in order, only records that had been completely written, or starts empty; it never delivers a record that was not written or a torn mixture of two. If the file was written out completely, every committed and unreleased record is delivered again after reopening, and records that were never committed are not. Corrupting any stored byte affects at most the reported loss of data, never correctness of what is delivered.",
 ["crash_points","histories","inputs","fault_sequences"],
 "all histories of reserve, commit, read and release with a crash (reopen) at every point, and corruption of any byte of header, record or extra data",
 "Tests corrupt a few chosen bytes after fixed histories; every crash point and every corrupted byte over varied geometry is not covered.",
 ["bd-buffer/src/buffer/non_volatile_ring_buffer.rs","bd-buffer/src/buffer/common_ring_buffer.rs"],
 [("checksummed control block and per-record checksum","bd-buffer/src/buffer/non_volatile_ring_buffer.rs")],
 ["records read after reopening","data-loss counters","open result"])
p("C15","Persistent buffer: blocking writers, cursor readers, draining never lose data",
 "In no-overwrite mode a record is never discarded to make room: a writer waits or is told that space is unavailable. A cursor reader sees every committed record once in order, records are released only by explicit advancement, and after a restart every record not yet released is read again. Waiting for a drain ends when the buffer content present at the time of the call has been released, and writers and readers blocked on the buffer are woken by the release of space, by new records or by shutdown.",
 ["histories","schedules","crash_points","configurations"],
 "all interleavings of blocking writers, cursor readers, release, lock, drain and shutdown with restarts",
 "Fixed-scenario tests only.",
 ["bd-buffer/src/buffer/non_volatile_ring_buffer.rs","bd-buffer/src/buffer/common_ring_buffer.rs"],
 [("read cursor separate from release pointer; condition variables","bd-buffer/src/buffer/non_volatile_ring_buffer.rs")],
 ["producer/cursor results","wakeups"])
p("C16","Aggregate buffer: flush makes everything written before it durable, in order",
 "A log written to the aggregate (memory then disk) buffer appears in the persistent part at most once and in write order, or is counted as dropped; when a flush completes, everything committed before the flush was requested has reached the persistent part. Shutting the buffer down first drains the memory part, and the aggregate behaves as one buffer to producers and consumers.",
 ["schedules","histories"],
 "all interleavings of producers, the copying thread, flush requests, consumers and shutdown",
 "Tests run the background thread under a few hand-written schedules.",
 ["bd-buffer/src/buffer/aggregate_ring_buffer.rs","bd-buffer/src/ring_buffer.rs"],
 [("flush thread copying volatile to non-volatile records","bd-buffer/src/buffer/aggregate_ring_buffer.rs")],
 ["persistent records after flush","stats counters"])
p("C17","Buffer set follows configuration and flush requests are always answered",
 "After a configuration update exactly the configured buffers exist, buffers removed from configuration stop accepting logs and have their files deleted, and kept buffers retain their content. Every flush request for a set of buffers is answered once all named buffers that exist have been flushed, and a request naming an unknown buffer does not prevent that or any later request from being served.",
 ["histories","fault_sequences"],
 "all sequences of configuration updates (adding, removing, re-adding, invalid), writes and flush requests naming existing or missing buffers",
 "Tests apply one or two updates; request sequences with unknown names are not exercised.",
 ["bd-buffer/src/ring_buffer.rs"],
 [("buffer manager map and flush request loop","bd-buffer/src/ring_buffer.rs")],
 ["buffer events","flush acknowledgements","files in the buffer directory"])
p("C18","gRPC framing: any chunking decodes identically, streams independent",
 "Encoding a sequence of messages and decoding the resulting bytes yields the same messages in the same order, however the bytes are split into chunks, with or without compression, and partial messages are held until complete. A frame that cannot be decoded is reported as an error on its own stream and never changes the outcome of any other stream, before or after. Byte counters equal the bytes actually passed in and out.",
 ["inputs","histories","fault_sequences"],
 "all message sequences, chunk boundaries, compression modes, and interleavings of several encoders and decoders on one thread including malformed frames on some of them",
 "Tests round-trip a few messages with fixed chunks; malformed frames followed by other streams on the same thread are never tried.",
 ["bd-grpc-codec/src/lib.rs","bd-grpc-codec/src/stats.rs"],
 [("length-prefixed state machine; per-thread compressor state","bd-grpc-codec/src/lib.rs")],
 ["decoded messages, errors, bandwidth counters"])
p("C19","Every tracked upload or intent gets exactly its own answer or is cancelled",
 "A response from the server resolves exactly the outstanding upload or intent carrying the same identifier, with that response's outcome, and each is resolved at most once. Outstanding ones are cancelled, not left hanging, when their stream ends, and responses to unknown identifiers are reported as errors without disturbing others.",
 ["histories","fault_sequences"],
 "all interleavings of tracking, responding (known, unknown, repeated identifiers), stream loss and abandoned waiters",
 "Covered only indirectly by API tests in single-request scenarios.",
 ["bd-api/src/upload.rs","bd-api/src/api.rs"],
 [("maps of pending uploads and intents","bd-api/src/upload.rs")],
 ["receiver outcomes","resolve results"])
p("C20","API stream: handshake first, one at a time, bounded reconnect, honest quality",
 "The client opens at most one stream at a time, sends the handshake first on each, sends nothing else until the server's handshake is received, and reconnects after a loss with a delay that respects the configured backoff, telling the server why the previous stream ended. Network quality is reported online only while a handshaken stream is up, and offline only after the grace period without one. Pings are sent at the interval the server chose after each answer, and shutdown ends the loop.",
 ["histories","schedules","fault_sequences"],
 "all sequences of connection attempts, server answers, failures, pings, uploads and shutdown at any point, and elapsed time",
 "Scripted scenarios only.",
 ["bd-api/src/api.rs"],
 [("stream maintenance loop","bd-api/src/api.rs")],
 ["messages sent per stream","stream starts and their times","network quality value"])
p("C21","Kill switch: a killed client stays off the network until expiry",
 "After the server rejects authentication or the kill configuration takes effect, the client starts no network stream in this or any later process with the same credentials until the recorded expiry, and resumes once it expired or the credentials changed. An unreadable kill record never disables the client, and an expired one is removed.",
 ["histories","crash_points","fault_sequences","configurations"],
 "all histories of launches, clock advances, credential changes, kill configuration, authentication failures and corrupted records",
 "Two or three scripted launches are tested.",
 ["bd-api/src/api.rs"],
 [("kill record file","bd-api/src/api.rs")],
 ["stream starts","kill record file"])
p("C22","Client statistics: every recorded value uploaded exactly once, or dropped",
 "Each counter increment and histogram sample recorded is contained in exactly one uploaded snapshot across flushes, merges, restarts, retries and window changes, unless its snapshot was discarded by the file limit, corruption or a write failure. A snapshot is retried under the same identifier until it is acknowledged, is never changed after being offered for upload, and snapshots are uploaded oldest first with at most one outstanding.",
 ["histories","crash_points","fault_sequences","inputs"],
 "all histories of recording, flush ticks, upload ticks, acknowledgements (success, failure, lost), clock advances, restarts, I/O failures and corrupted files",
 "Tests script a dozen histories; their combination with restarts, limits and lost acknowledgements is not enumerated.",
 ["bd-client-stats/src/stats.rs","bd-client-stats/src/file_manager.rs","bd-client-stats-store/src/lib.rs"],
 [("delta snapshot merge and pending-file index","bd-client-stats/src/file_manager.rs")],
 ["uploaded snapshots","files in the stats directory"])
p("C23","Client metric store: identity, bounded cardinality and delta snapshots",
 "A metric name and label set always denotes one metric until it is collected, scopes compose names without collisions, and asking for a different kind under an existing name never corrupts the existing metric. The number of dynamic metrics never exceeds the limit and metrics beyond it are counted as overflow, while space is regained when unused metrics are collected. Taking a snapshot returns each increment exactly once even when increments race with it.",
 ["histories","schedules","inputs"],
 "all histories of obtaining, incrementing, dropping and snapshotting metrics, for every limit",
 "One small test file; limits and reuse after collection are barely touched.",
 ["bd-client-stats-store/src/lib.rs","bd-client-stats/src/lib.rs"],
 [("bounded collector map","bd-client-stats-store/src/lib.rs")],
 ["snapshot contents","overflow counts"])
p("C24","Runtime configuration: watchers see the latest value and crash loops are broken",
 "Every reader and watcher of a runtime value sees the value from the latest applied configuration, or its default when absent, and is notified if and only if its value changed. A cached configuration is applied at start-up unless it is missing, unreadable or has been tried too many times without the client becoming healthy, in which case it is discarded so that the client always starts. Applying a fresh configuration or becoming healthy resets that count.",
 ["histories","crash_points","fault_sequences"],
 "all histories of updates, restarts at any point before or after health, corrupted cache files, and watch registration before or after updates",
 "Tests script single restarts; counting over crash histories and file corruption at each step is not enumerated.",
 ["bd-runtime/src/runtime.rs"],
 [("snapshot and typed watches; retry count file","bd-runtime/src/runtime.rs")],
 ["watch values and notifications","cache directory contents"])
p("C25","Workflow runs follow their configured state machine",
 "A workflow run advances along a configured transition exactly when the number of logs matching that transition, counted since it entered the source state, reaches the configured count, and its actions are emitted exactly once at that moment. One log can advance every matching transition of every active run but never advances the same traversal twice, runs reaching a final state complete, and workflows are independent of each other. Exclusive workflows restart from the initial state when a new initial match arrives, and parallel workflows start an additional run for it.",
 ["inputs","histories","programs"],
 "all workflow configurations (graphs, counts, execution modes) and all log histories",
 "Unit tests use fixed small graphs and log sequences; configurations times histories is unbounded.",
 ["bd-workflows/src/workflow.rs","bd-workflows/src/engine.rs","bd-workflows/src/config.rs"],
 [("run and traversal processing","bd-workflows/src/workflow.rs")],
 ["workflow states and emitted actions per log"])
p("C26","Workflow resource limits hold exactly",
 "The total number of active traversals never exceeds the configured limit after a log has been processed, and the engine's own count always equals the actual number of active traversals. A run that exceeds its matched-log or duration limit is stopped without emitting further actions, and stopping or completing runs frees their capacity for later ones.",
 ["inputs","histories","programs","configurations"],
 "all workflow configurations, limits and log histories, including limits hit in the middle of a log that also forks or completes runs",
 "A debug assertion checks the count only for the histories the tests run.",
 ["bd-workflows/src/workflow.rs","bd-workflows/src/engine.rs"],
 [("traversal counter maintained incrementally","bd-workflows/src/engine.rs")],
 ["number of traversals","stop and completion statistics"])
p("C27","Workflow state survives restarts and configuration updates faithfully",
 "After a restart with the same configuration and session, workflows continue from the state that was last persisted, and state belonging to a different session or to a changed or removed workflow is dropped, never misapplied. Unreadable state never prevents start-up and is discarded. Updating the configuration keeps the progress of unchanged workflows, and a session change clears run progress while retaining pending uploads.",
 ["histories","crash_points","fault_sequences","configurations"],
 "all histories of logs, session changes, configuration updates, persistence at any point and restarts, corrupted state files",
 "Tests script a few restarts.",
 ["bd-workflows/src/engine.rs","bd-workflows/src/workflow.rs"],
 [("state store with throttled persistence","bd-workflows/src/engine.rs")],
 ["engine state after start","persisted file"])
p("C28","Triggered buffer uploads: one in progress per action, streaming ends on time",
 "A triggered flush action that is already being negotiated, uploaded or streamed is not started again, an action rejected by the server is not renegotiated during the process, and every approved action leads to exactly one flush of exactly its existing trigger buffers. While streaming is active logs destined to its source buffers go to its existing destination buffers instead, and streaming stops once its log limit is reached or the session changed and the flush completed. Actions referring only to buffers that do not exist have no effect.",
 ["histories","inputs","fault_sequences","configurations"],
 "all histories of triggers, server decisions, flush completions, logs, session changes and buffer configuration changes",
 "Tests script individual scenarios.",
 ["bd-workflows/src/actions_flush_buffers.rs","bd-workflows/src/engine.rs"],
 [("negotiator, resolver, pending and streaming action sets","bd-workflows/src/actions_flush_buffers.rs")],
 ["flush requests","log destination buffers","negotiation requests"])
p("C29","Log matching follows boolean and comparison semantics for every input",
 "A matcher matches a log exactly when its boolean combination of conditions holds for the log's level, type, message and fields; captured fields take precedence over matching-only fields, and binary or missing values satisfy no value condition. Numeric, string and version comparisons are mutually consistent total comparisons (exactly one of less, equal, greater holds) and invalid matcher configurations are rejected when built, never at match time.",
 ["inputs","programs"],
 "all matcher trees and logs, in both matcher dialects",
 "Example tables cover individual operators only.",
 ["bd-log-matcher/src/matcher.rs","bd-log-matcher/src/version.rs","bd-matcher/src/matcher.rs","bd-matcher/src/buffer_selector.rs","bd-matcher/src/lib.rs"],
 [("recursive evaluation","bd-log-matcher/src/matcher.rs")],
 ["match results","construction errors"])
p("C30","Log filters apply in order and never leak or invent data",
 "Filters apply in configured order, each to the log as left by the previous ones and only when it matches, and each transform changes only the fields it names: capture moves a matching-only field to captured, set respects the override permission and target, remove erases the name everywhere, substitution rewrites only the first field of that name. A filter that cannot be understood is skipped and counted while all others keep working. Matching-only data becomes captured only through a transform that says so.",
 ["inputs","programs"],
 "all filter chains and logs",
 "Example-based tests of single transforms.",
 ["bd-log-filter/src/lib.rs"],
 [("filter chain","bd-log-filter/src/lib.rs")],
 ["log after processing","failure count"])
p("C31","Bounded log queues: limits respected, order kept, nothing silently lost",
 "The queues in front of log processing never hold more items or bytes than configured, deliver accepted logs in order and exactly once, and tell the caller precisely why a log was not accepted. Capacity taken by a log is returned exactly when it leaves the queue or is refused, so that a drained queue accepts again its full capacity.",
 ["histories","schedules","inputs"],
 "all histories and interleavings of several senders and a receiver with arbitrary sizes, count and byte limits, closing",
 "Two single-threaded examples.",
 ["bd-logger/src/memory_bound.rs","bd-logger/src/pre_config_buffer.rs"],
 [("byte accounting with atomic reservation","bd-logger/src/memory_bound.rs")],
 ["send results","received items"])
p("C32","Upload bandwidth limit holds in every period",
 "Upload requests admitted within one rate-limit period never exceed the configured byte budget by more than the last admitted request, and a request that is not admitted waits and is eventually sent after the period ends. The limit is shared by all uploaders and configuration changes take effect from the next period.",
 ["histories","inputs","configurations"],
 "all arrival times and sizes of requests from several uploaders, budgets and periods changing at run time",
 "A few scripted arrivals.",
 ["bd-logger/src/ratelimit.rs"],
 [("shared window state","bd-logger/src/ratelimit.rs")],
 ["admission times"])
p("C33","Traffic and log usage summaries count every event once",
 "The per-minute network usage attached to resource logs is the sum of the byte counts of exactly the HTTP responses recorded in the reported window, and periodic internal reports count every log processed since the previous report exactly once by kind plus running totals. Unparsable or missing values count as nothing and never fail.",
 ["histories","inputs"],
 "all histories of response, resource and other logs with arbitrary fields and timing",
 "A couple of scripted sequences.",
 ["bd-logger/src/network.rs","bd-logger/src/internal_report.rs"],
 [("sample container","bd-logger/src/network.rs")],
 ["fields attached to resource logs"])
p("C34","Logs reach buffers in order whether written before or after configuration",
 "Every accepted log is processed exactly once and in acceptance order, logs accepted before the first configuration are replayed first when it arrives, and logs refused by a limit are counted. Field changes and session changes apply to exactly the logs after them. A blocking log call returns only after its log was processed and the affected buffers and stats were flushed, or its time limit expired.",
 ["histories","schedules","fault_sequences"],
 "all interleavings of logging, field updates, configuration arrival and updates, blocking calls and shutdown",
 "Scripted single-threaded tests.",
 ["bd-logger/src/async_log_buffer.rs","bd-logger/src/logging_state.rs","bd-logger/src/log_replay.rs"],
 [("message queue, pre-configuration buffer and replay","bd-logger/src/async_log_buffer.rs")],
 ["order and content of processed logs","send results"])
p("C35","Log upload consumer: records leave the buffer only after acknowledgement",
 "A log uploaded from a continuous buffer is removed only after the server acknowledged the batch containing it, a failed or lost batch is retried with the same content and identifier, and batches preserve buffer order within the configured size limits. A triggered upload sends exactly the records in the buffer at the time of the trigger, and a request for a missing buffer is ignored.",
 ["histories","crash_points","fault_sequences"],
 "all histories of writes, batch timers, acknowledgements, failures, triggers, shutdown and restarts",
 "Scripted tests.",
 ["bd-logger/src/consumer.rs","bd-logger/src/service.rs"],
 [("batch builder and upload loop","bd-logger/src/consumer.rs")],
 ["upload requests","buffer content after upload"])
p("C36","Remote logging configuration is applied atomically and cached safely",
 "A configuration is applied either completely or not at all, the applied version is acknowledged (or rejected with a reason) to the server, and the version announced at the next handshake is that of the configuration in force. At start-up a cached configuration is applied only if it is readable and has not repeatedly failed to reach a healthy client, otherwise it is dropped.",
 ["histories","crash_points","fault_sequences"],
 "all histories of valid and invalid configurations, restarts and cache corruption",
 "A few scripted tests.",
 ["bd-logger/src/client_config.rs"],
 [("configuration pipeline with cache and retry count","bd-logger/src/client_config.rs")],
 ["acknowledgements","handshake contents","cache files"])
p("C37","Unexpected-error reporting is bounded and delivered to the right reporter",
 "At most the permitted number of unexpected errors is ever forwarded to the reporter, every error beyond that is counted as dropped, and none is forwarded once reporting was disabled. An error is delivered exactly once, to the thread's override if one is active and otherwise to the installed reporter, and handling an error never changes the value the caller continues with.",
 ["histories","schedules"],
 "all histories of errors, reporter changes, overrides and disabling, from several threads",
 "One test file with a single reported error each.",
 ["bd-client-common/src/error.rs"],
 [("global handler with remaining-report budget","bd-client-common/src/error.rs")],
 ["reporter calls","dropped counter"])
p("C38","Sankey paths are uploaded at most once and within their limits",
 "A completed sankey path is negotiated with the server and uploaded at most once while it is remembered as processed, is remembered only after a rejection or a successful upload, and failures leave it eligible again. Extracted values are recorded in order up to the configured limit, with longer paths marked as truncated at the front, and equal paths get equal identifiers.",
 ["histories","fault_sequences","inputs"],
 "all sequences of paths, server decisions, upload failures and repeats beyond the memory of processed paths",
 "Scripted tests.",
 ["bd-workflows/src/sankey_diagram.rs","bd-workflows/src/workflow.rs"],
 [("processed-intent memory; path state with limit","bd-workflows/src/sankey_diagram.rs")],
 ["requests sent","path contents"])
p("C39","SDK identity metadata always describes the SDK itself",
 "The metadata sent to the server always carries the SDK's own configuration version, operating system, kind and SDK version, whatever keys the application supplies, together with every other key the application supplies unchanged.",
 ["inputs","configurations"],
 "all platforms and application-supplied metadata maps, including ones that collide with the SDK's keys",
 "No tests.",
 ["bd-metadata/src/lib.rs"],
 [("SDK keys inserted last","bd-metadata/src/lib.rs")],
 ["collected map"])
p("C40","Time conversions and tickers are faithful",
 "Converting times and durations to and from their wire form preserves them to the precision of the wire form, over the full range accepted, and out-of-range values are refused rather than wrapped. Periodic tickers never fire before their first deadline, fire once per interval afterwards, and jittered intervals start within one interval.",
 ["inputs","histories"],
 "all representable times and durations, all intervals",
 "Few examples.",
 ["bd-time/src/lib.rs"],
 [("conversion traits and tickers","bd-time/src/lib.rs")],
 ["converted values","tick times"])
for d in P: assert len(d["title"])<=80,(d["id"],len(d["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
print(len(P))
