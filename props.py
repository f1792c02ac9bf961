"""The properties, and for each the harnesses that decide it.

harness: (name, required reach labels, what, bounds[, opts])   opts: thorough, variant, cost, timeout
"""
def H(name, reach, what, bounds, **kw):
    d = {"name": name, "reach": reach, "what": what, "bounds": bounds}
    d.update(kw)
    return d

PROPS = {}
def P(id, title, statement, over, text, why, files, mech, modules, harnesses, outside, assumptions=(), variant="", extra=None):
    for h in harnesses: h.setdefault("variant", variant)
    builds = {variant: modules}
    if extra: builds.update(extra)
    PROPS[id] = {"title": title, "statement": statement, "over": over, "text": text, "why": why, "files": files, "mech": mech,
                 "level": "model_checking", "builds": builds, "harnesses": harnesses, "outside": outside, "assumptions": COMMON + list(assumptions)}

COMMON = [
    "a task runs without preemption between two suspension points (polls are atomic): races inside one poll on different OS threads are outside the encoding",
    "tokio, futures, parking_lot, uuid, chrono, rand, tracing and the hash maps of std are replaced by executable models in /verif/shims (unbounded channels, oneshot, timers on a virtual clock, association-list maps); everything of coerce itself is the code rustc compiles from /repo",
    "rustc's LLVM IR, LLVM's -O1 and Z3 are trusted",
]

P("C01", "Mailboxes: per-sender order, exactly once, one at a time, own reply",
  "Messages one sender sends to a running actor are handled in the order they were sent, each exactly once; handlers of one actor never overlap; and every request receives the result of its own message and no other.",
  ["schedules", "inputs"], "every interleaving of two senders and the actor (within the stated number of scheduling choices), through every sending API, with arbitrary payloads",
  "tests run a handful of messages under whatever order tokio happens to choose; no test controls the interleaving of senders with a handler that suspends",
  ["coerce/src/actor/refs/mod.rs", "coerce/src/actor/lifecycle.rs", "coerce/src/actor/message/mod.rs", "coerce/src/actor/mod.rs", "coerce/src/actor/blocking.rs"],
  [{"name": "one receive loop per actor", "where": "ActorLoop::run"}, {"name": "a result channel per message", "where": "LocalActorRef::send, ActorMessage::handle"}],
  ["actor"],
  [H("h_actor_fifo", ["second sender first", "alternating"], "two senders, 3 messages each, over LocalActorRef/ActorRef/Receiver; started before or after the first send", "2 senders x 3 messages, first 6 scheduling choices arbitrary, rest in spawn order; payloads: all u64"),
   H("h_actor_fifo_deep", ["second sender first", "alternating"], "the same with more scheduling choices", "11 scheduling choices", thorough=True),
   H("h_actor_apis", ["done"], "notify, deliver, exec, notify_exec, pipe_to and status through one mailbox", "6 scheduling choices; payloads: all u64"),
   H("h_blocking", ["stopped", "fails to start", "stopped by another as well"], "creating, asking, executing and stopping through the blocking API, against another sender and another stop", "1 other sender, 1 other stop, 2 scheduling choices at 2 points; payloads: all u64")],
  "more than two concurrent senders, more than three messages each, bounded mailboxes (there are none), remote references (C13)")

P("C02", "Lifecycle: started first, stopped once and last, nothing lost in silence",
  "An actor's start hook completes before it handles anything and before its creation is reported, its stop hook runs exactly once and nothing runs after it; a stop request that waits returns only after the stop hook has run. A message to an actor that stops is either handled and answered or refused with an error, never both and never left unanswered.",
  ["schedules", "inputs"], "every interleaving of two senders, a stop by any of four means and the actor (within the stated number of scheduling choices)",
  "tests stop idle actors; none races a stop with messages in flight",
  ["coerce/src/actor/lifecycle.rs", "coerce/src/actor/context.rs", "coerce/src/actor/refs/mod.rs", "coerce/src/actor/system/mod.rs", "coerce/src/actor/blocking.rs"],
  [{"name": "receive loop and stop handlers", "where": "ActorLoop::run, actor_stopped"}, {"name": "start signal", "where": "ActorSystem::new_actor"}],
  ["actor"],
  [H("h_actor_stop", ["both refused", "one handled", "both handled"], "two requests racing with stop(), notify_stop(), a handler that stops its actor, and both", "6 scheduling choices"),
   H("h_actor_stop_deep", ["both refused", "both handled"], "the same, deeper", "9 scheduling choices", thorough=True),
   H("h_actor_start", ["failed start with queued message", "started"], "actors that start, or stop themselves while starting", "4 scheduling choices"),
   H("h_actor_status", ["done"], "status while messages are queued", "5 scheduling choices"),
   H("h_blocking", ["stopped", "fails to start", "stopped by another as well"], "creating, asking, executing and stopping through the blocking API, against another sender and another stop", "1 other sender, 1 other stop, 2 scheduling choices at 2 points; payloads: all u64")],
  "actors that panic; more than two messages in flight")

P("C03", "Watching: a watcher hears of a stop exactly once",
  "An actor that is watching another when it stops is notified of that stop exactly once, after the watched actor's stop hook has run; one that is not watching (never was, or no longer) is never notified, and a watcher that is itself gone disturbs nobody.",
  ["schedules", "histories"], "every history of three watch/unwatch operations of two watchers, every means of stopping, a third watcher racing with the stop",
  "tests cover one watcher and one stop in a fixed order",
  ["coerce/src/actor/watch/mod.rs", "coerce/src/actor/watch/watchers.rs", "coerce/src/actor/lifecycle.rs"],
  [{"name": "watcher table and its notification at stop", "where": "Watchers, actor_stopped"}],
  ["supervise"],
  [H("h_watch", ["both", "unwatched", "late watcher in time", "late watcher too late"], "watch/unwatch histories, then a stop racing with a late watcher", "3 operations, 2+1 watchers, 4 scheduling choices"),
   H("h_watch_deep", ["both", "unwatched"], "the same, deeper", "7 scheduling choices", thorough=True),
   H("h_watch_dead_watcher", ["done"], "one of three watchers stops concurrently", "5 scheduling choices, both map iteration orders")],
  "actors that panic; remote watchers")

P("C04", "Supervision: a stop reaches the whole subtree and the parent forgets the child",
  "When an actor stops, exactly it and everything below it stops, each once. A running parent is told of each stopped child once, when everything below that child has stopped too, no longer lists it and can reuse its id; a live child's id cannot be taken twice, and a child that fails to start is reported as failed and not kept.",
  ["schedules", "histories"], "every pair of stops in a three-level tree, under every interleaving within the stated number of scheduling choices",
  "tests stop one actor of a small tree at a time",
  ["coerce/src/actor/supervised.rs", "coerce/src/actor/context.rs"],
  [{"name": "children are stopped when the context is dropped", "where": "ActorContext::drop, Supervised::stop_all"}, {"name": "child termination message", "where": "Handler<Terminated>"}],
  ["supervise"],
  [H("h_tree", ["root and grandchild", "both children", "same twice"], "root -> (a -> b, c): stop any one and notify a stop to any one", "4 scheduling choices, both map iteration orders"),
   H("h_tree_deep", ["root and grandchild", "both children"], "the same, deeper", "7 scheduling choices", thorough=True),
   H("h_child_replace", ["replaced", "not yet free"], "a child stopped and replaced under the same id by its parent, racing with another attempt", "5 scheduling choices"),
   H("h_child_replace_deep", ["replaced", "not yet free"], "the same, deeper", "8 scheduling choices", thorough=True),
   H("h_child_start_fails", ["deferred", "awaited"], "a child that stops while starting", "6 scheduling choices")],
  "actors that panic; trees deeper than three levels or with more than two children per node; attached (foreign) children")

P("C05", "Registry and shutdown: lookup finds exactly the running tracked actors",
  "Looking up a tracked actor by id finds it, with the right type, from the time its creation returned until it stops, and finds nothing otherwise; an id is free again after its actor stopped. Shutting the system down returns, and only after every tracked actor has stopped, each exactly once.",
  ["histories", "schedules"], "every history of starts and stops over three ids (within the bound), every interleaving of a shutdown with a stop and a creation",
  "tests look up one or two live actors and shut an idle system down",
  ["coerce/src/actor/scheduler/mod.rs", "coerce/src/actor/system/mod.rs", "coerce/src/actor/lifecycle.rs"],
  [{"name": "registration and deregistration messages", "where": "RegisterActor, DeregisterActor, GetActor handlers"}, {"name": "shutdown", "where": "ActorScheduler::stopped, ActorSystem::shutdown"}],
  ["system"],
  [H("h_registry", ["two live", "id used again"], "starts and stops over three ids plus an anonymous actor under one of them, then lookups and shutdown", "4 operations, 3 scheduling choices during shutdown"),
   H("h_registry_deep", ["two live", "id used again"], "the same, longer", "6 operations", thorough=True),
   H("h_shutdown_race", ["late actor stopped too", "late actor missed"], "shutdown racing with a self-stopping actor and a new one", "6 scheduling choices"),
   H("h_shutdown_race_deep", ["late actor stopped too"], "the same, deeper", "9 scheduling choices", thorough=True),
   H("h_registry_shortlived", ["done"], "tracked actors that stop during or right after starting", "6 scheduling choices")],
  "two live tracked actors created under one id (the second replaces the first); actors that panic")

P("C06", "Timers, scheduled messages and worker pools",
  "A timer delivers its first tick when asked for, further ticks no closer than its period and none missing, and none after it was stopped or its actor is gone; a scheduled message is delivered exactly once at its time unless cancelled before. Every job given to a worker pool runs exactly once, its result reaches its caller, and jobs are spread evenly over the workers.",
  ["schedules", "inputs"], "all combinations of period, handler duration, stop time and means in range; every interleaving of three jobs on one to three workers within the bound",
  "tests use wall-clock sleeps and one period",
  ["coerce/src/actor/scheduler/timer.rs", "coerce/src/actor/mod.rs", "coerce/src/actor/worker.rs"],
  [{"name": "timer loop", "where": "timer_loop"}, {"name": "cancellable sleep", "where": "LocalActorRef::scheduled_notify"}, {"name": "round robin dispatch", "where": "Handler<WorkerMessage>"}],
  ["system"],
  [H("h_timer", ["several ticks", "stopped before the first"], "periodic timers on a virtual clock", "periods 10-30 ms, handlers 0-16 ms, stop at 0-54 ms; and the same with a million times longer times"),
   H("h_scheduled_notify", ["cancelled in time", "cancelled too late"], "one-shot messages", "delays 0-20 ms, cancellation at 0-30 ms"),
   H("h_worker", ["two", "three"], "three jobs on a pool", "1-3 workers, 4 scheduling choices, payloads: all u64")],
  "wall-clock accuracy; OS scheduling")

P("C07", "Event sourcing: recovery yields exactly the acknowledged state",
  "Whenever a persistent actor is started again under its persistence key, after a stop or a crash at any point, its state is rebuilt from the latest snapshot and every event acknowledged after it, each once and in order, and no event that was never submitted. Journal entries carry strictly increasing sequence numbers under which they can be read back, and journals of different keys or of different configured storage providers never mix.",
  ["histories", "crash_points", "fault_sequences", "inputs"], "every history (within the bound) of events of two types, batches, snapshots, clean-ups, restarts and crashes, with storage writes failing or not, with arbitrary event payloads; a crash at every point of persisting",
  "the one recovery test persists four events and restarts once; no test mixes batches, snapshots, failures and restarts, and none crashes",
  ["coerce/src/persistent/journal/mod.rs", "coerce/src/persistent/actor.rs", "coerce/src/persistent/recovery.rs", "coerce/src/persistent/context.rs", "coerce/src/persistent/batch.rs", "coerce/src/persistent/mod.rs", "coerce/src/persistent/journal/types.rs"],
  [{"name": "sequence assignment", "where": "Journal::persist_message, persist_batch, persist_snapshot"}, {"name": "recovery", "where": "Journal::recover_snapshot, recover_messages"}],
  ["journal"],
  [H("h_journal_history4", ["snapshot and events", "event after snapshot", "restart"], "histories of events, batches, snapshots, clean-ups and restarts", "4 operations, payloads: all u8"),
   H("h_journal_history5", ["snapshot and events", "event after snapshot", "restart"], "longer histories", "5 operations", thorough=True, cost=3),
   H("h_journal_faults3", ["snapshot and events", "restart"], "the same with every write failing or not", "3 operations"),
   H("h_journal_faults4", ["snapshot and events", "restart"], "the same, longer", "4 operations", thorough=True, cost=2),
   H("h_journal_crash3", ["crash between acknowledgements", "crash after all", "stored but not acknowledged"], "a crash at an arbitrary poll while three operations are being persisted on a slow store", "3 operations, crash after 0-15 polls"),
   H("h_journal_seq", ["batch after snapshot and message", "long journal"], "a journal that already holds entries under arbitrary sequences, one more operation, restart", "2 stored entries, sequences: all positive i64 up to 2^63-17; 1 operation"),
   H("h_journal_batch", ["long batch", "long batch refused"], "a batch of any small size between single events or after a snapshot, accepted or refused by the store", "batches of 0-4 events"),
   H("h_journal_isolation", ["own provider", "same key"], "two actor types, two keys, a provider per type or one for all", "payloads: all u8")],
  "storage providers other than the in-memory one (their own behaviour; the journal on top is the same); entries whose type the actor no longer configures")

P("C08", "The in-memory journal store behaves like an ordered log",
  "Per persistence key, reads of the in-memory journal store return exactly what was written and not deleted: the latest snapshot, all messages after a sequence, one message by its sequence, or the messages of an inclusive sequence range, in order; deleting up to a sequence removes exactly the messages below it, and keys never affect each other.",
  ["histories", "inputs"], "every history of writes, batches, snapshots and deletions over two keys within the bound, followed by every read, with arbitrary increasing 64-bit sequences, bounds and payloads",
  "the one test writes sequences 1..3 and deletes twice",
  ["coerce/src/persistent/journal/provider.rs"],
  [{"name": "per-key vectors in insertion order", "where": "InMemoryJournalStorage"}],
  ["storage"],
  [H("h_storage2", ["two journals", "two snapshots", "messages left after a delete"], "two writes over two keys, then any read", "2 operations, sequences and bounds: all i64"),
   H("h_storage_long", ["partial delete"], "five messages, a deletion, any read", "5 messages, sequences and bounds: all i64"),
   H("h_storage_batch", ["a long batch after a message", "an empty batch"], "a batch, first or after a message, then any read", "batches of 0-4 entries, sequences and bounds: all i64", cost=2),
   H("h_storage3one", ["two snapshots", "messages left after a delete"], "three operations on one key", "3 operations, sequences and bounds: all i64", cost=3),
   H("h_storage3", ["two journals"], "three operations over two keys", "3 operations", thorough=True, cost=3),
   H("h_storage4one", ["two snapshots"], "four operations on one key", "4 operations", thorough=True, cost=5)],
  "sequences that do not increase (the journal never writes such); concurrent callers (the store is behind one lock)")

P("C09", "Storage failures follow the configured policy",
  "When storage fails, persisting and recovery follow the actor's policy exactly: retries happen with the configured delay until success or up to the maximum number of attempts, errors are returned or reported to the actor, the actor stops or panics as configured. An event whose persisting succeeded is stored once, one whose persisting failed not at all; an actor whose recovery failed, or met an entry it cannot decode, is never handed out and none of the later entries is applied.",
  ["fault_sequences", "configurations", "inputs"], "all policies, maximum attempts 0-3, delays, and 0-4 consecutive failures of writes, snapshot reads and message reads; an undecodable entry in any position",
  "tests try one failure count per policy",
  ["coerce/src/persistent/failure.rs", "coerce/src/persistent/actor.rs", "coerce/src/persistent/recovery.rs"],
  [{"name": "retry decision", "where": "should_retry, check"}, {"name": "recovery loop", "where": "ActorRecovery::recover_journal, Actor::started"}],
  ["journal"],
  [H("h_persist_policy", ["retried until success", "attempts exhausted", "error returned", "actor stopped"], "write failures under every policy, for events, batches and snapshots", "0-4 failures, max_attempts 0-3, with and without delay"),
   H("h_recovery_policy", ["retried until success", "attempts exhausted", "stopped"], "read failures under every policy", "0-2 failures of snapshot reads and of message reads"),
   H("h_recovery_corrupt", ["corrupt event"], "an undecodable snapshot or event", "3 events, any position")],
  "what a panicking actor does to its task")

P("C10", "What one node sends is what the other receives",
  "Every frame nodes exchange (session events, client events, cluster events), every error and node description inside one, every timestamp and every stored journal entry is decoded by the receiver as the same kind of thing with the same contents as was encoded.",
  ["inputs"], "all kinds of frames and all errors, with arbitrary 64-bit ids and times, arbitrary short texts and payloads, present and absent optional parts",
  "tests cover one or two messages with fixed contents; a tag or field mixed up for one kind of event shows only when a node of another build or an unusual event meets it",
  ["coerce/src/remote/net/message.rs", "coerce/src/remote/net/proto/mod.rs", "coerce/src/remote/cluster/node.rs", "coerce/src/persistent/journal/storage.rs", "coerce/src/remote/stream/system.rs"],
  [{"name": "tagged frames", "where": "StreamData for SessionEvent, ClientEvent, SystemEvent"}, {"name": "conversions of errors, nodes, times", "where": "From impls in remote/net/message.rs, cluster/node.rs"}],
  ["wire"],
  [H("h_wire_session", ["done", "error"], "all session events (Raft excepted, which has no encoding)", "ids, node ids: all u64; texts of 1-2 ASCII bytes, payloads of 2 arbitrary bytes; up to 2 nodes"),
   H("h_wire_client", ["done", "error"], "all client events", "the same"),
   H("h_wire_system", ["done", "member up"], "all cluster events", "the same; attributes of 0-1 entries; of a member-up event one part arbitrary at a time"),
   H("h_wire_session_sizes", ["done", "error"], "the same session events with empty or long texts and payloads", "all texts and payloads empty, or all of 200 bytes with one arbitrary"),
   H("h_wire_client_sizes", ["done", "error"], "the same for client events", "as above"),
   H("h_wire_system_sizes", ["done", "member up"], "the same for cluster events", "as above"),
   H("h_wire_node", ["attributes and time"], "descriptions of nodes through every representation and conversion", "id: all u64; texts of 1-2 ASCII bytes; 0-2 attributes, values possibly empty; started: absent or any second of 32 bits, any nanosecond"),
   H("h_wire_time", ["done"], "timestamps", "all 64-bit seconds chrono can hold, all nanoseconds"),
   H("h_wire_journal", ["done"], "journal entries", "sequence: all i64; 2-byte type and payload")],
  "texts and payloads of other lengths; message bodies (JSON, via serde) of user messages; the length-delimited framing of tokio-util; SessionEvent::Raft (not encodable)", variant="pb")

P("C11", "Arbitrary bytes from a peer or a store never crash the decoder",
  "Whatever bytes arrive as a frame, a control message, a result or a stored entry, decoding either yields a value or refuses them; it never panics, and neither does converting what was decoded into the system's own types.",
  ["inputs"], "all byte strings up to the stated length for every decoder; all values of enum, id and time fields for the conversions",
  "a malformed frame needs particular bytes; no test sends any",
  ["coerce/src/remote/net/message.rs", "coerce/src/remote/net/proto/mod.rs", "coerce/src/sharding/coordinator/allocation.rs", "coerce/src/sharding/host/mod.rs", "coerce/src/sharding/shard/message.rs", "coerce/src/singleton/manager/lease.rs", "coerce/src/remote/stream/system.rs"],
  [{"name": "decoders", "where": "read_from_bytes, Message::from_bytes, read_remote_result"}],
  ["wire"],
  [H("h_wire_any_short", ["decoded", "rejected"], "all decoders, shortest inputs", "all strings of 0-4 bytes (control messages 0-3)"),
   H("h_wire_any_session6", ["decoded", "rejected"], "session events", "all strings of 6 bytes", cost=2),
   H("h_wire_any_client6", ["decoded", "rejected"], "client events", "all strings of 6 bytes", cost=2),
   H("h_wire_any_system7", ["decoded", "rejected"], "cluster events", "all strings of 7 bytes", cost=2),
   H("h_wire_any_control5", ["decoded", "rejected", "snapshot decoded", "entry decoded"], "sharding and singleton messages, results, shard snapshots, journal entries", "all strings of 5 bytes", cost=2),
   H("h_wire_any_fields", ["error", "valid time", "invalid time", "node with start time"], "conversions", "all 32-bit enum values, all 64-bit times"),
   H("h_wire_any_session5", ["decoded"], "session events", "all strings of 5 bytes", thorough=True),
   H("h_wire_any_session7", ["decoded"], "session events", "all strings of 7 bytes", thorough=True, cost=9),
   H("h_wire_any_client5", ["decoded"], "client events", "all strings of 5 bytes", thorough=True),
   H("h_wire_any_client7", ["decoded"], "client events", "all strings of 7 bytes", thorough=True, cost=8),
   H("h_wire_any_system8", ["decoded"], "cluster events", "all strings of 8 bytes", thorough=True, cost=9),
   H("h_wire_any_control4", ["decoded"], "control messages", "all strings of 4 bytes", thorough=True),
   H("h_wire_any_control6", ["decoded"], "control messages", "all strings of 6 bytes", thorough=True, cost=8)],
  "longer inputs; JSON bodies; memory use; what the receiving actor does with a decoded message it does not expect", variant="pb")

P("C12", "Control messages of sharding and singletons arrive unchanged",
  "Every message, answer and snapshot that shards, shard hosts, the coordinator and singleton managers exchange or store is decoded with the same contents as was encoded (an entity stored as active comes back as idle, since it is not running after recovery).",
  ["inputs"], "all these messages with arbitrary 32- and 64-bit ids, short texts and payloads, present and absent recipes, all states",
  "tests run on one node, where these messages are never encoded",
  ["coerce/src/sharding/coordinator/allocation.rs", "coerce/src/sharding/host/mod.rs", "coerce/src/sharding/shard/message.rs", "coerce/src/sharding/shard/recovery.rs", "coerce/src/sharding/host/request.rs", "coerce/src/singleton/manager/lease.rs", "coerce/src/singleton/manager/status.rs"],
  [{"name": "encodings", "where": "Message::as_bytes/from_bytes, write_remote_result/read_remote_result"}],
  ["wire"],
  [H("h_wire_sharding", ["done", "allocation result", "stop", "entity request"], "messages of sharding", "ids: all u32/u64; texts and payloads of 0-2 bytes"),
   H("h_wire_shard_state", ["done", "snapshot"], "statistics, shard snapshots", "2 shards, 1 node, 2 entities", cost=2),
   H("h_wire_sharding_sizes", ["done", "entity request"], "the same messages with empty or long texts and payloads", "all texts and payloads empty, or all of 200 bytes with one arbitrary"),
   H("h_wire_shard_state_sizes", ["done", "snapshot"], "the same for statistics and shard snapshots", "as above", cost=3),
   H("h_wire_singleton", ["done"], "messages of singletons", "ids: all u64, all states")],
  "ShardingEvent (its encoding is unimplemented and unused); JSON bodies of entity messages", variant="pb")

P("C13", "Remote requests: handled once, answered with their own result or a reason",
  "A request sent to an actor on another node is handled by that actor at most once and, if it is running, exactly once; the sender receives the result of its own request and no other, or an error that says why (no such actor, message not known there or here, actor stopped). Whatever responses arrive, in whatever order, each settles only the request it names, and afterwards nothing is left registered as in flight.",
  ["schedules", "inputs", "histories"], "two whole nodes over an in-memory network: every interleaving of two concurrent requests to the same or different actors (within the stated number of scheduling choices), arbitrary payloads; and a peer that answers with arbitrary response frames",
  "tests send one request at a time, over a real socket, to an actor that exists",
  ["coerce/src/remote/actor_ref.rs", "coerce/src/remote/system/actor.rs", "coerce/src/remote/system/rpc.rs", "coerce/src/remote/actor/mod.rs", "coerce/src/remote/actor/message.rs", "coerce/src/remote/handler.rs", "coerce/src/remote/net/server/session/mod.rs", "coerce/src/remote/net/client/receive.rs", "coerce/src/remote/net/message.rs"],
  [{"name": "table of requests in flight", "where": "RemoteHandler, RemoteActorRef::send, RemoteRegistry"}, {"name": "request dispatch on the other node", "where": "SessionMessageReceiver, RemoteActorMessageHandler::handle_attempt"}],
  ["cluster", "peer"],
  [H("h_remote_requests", ["second request first", "different actors"], "two concurrent requests to actors on another node", "2 nodes, 2 requests, first 5 scheduling choices arbitrary; payloads: all u64"),
   H("h_remote_requests_deep", ["second request first", "different actors"], "the same, deeper", "8 scheduling choices", thorough=True),
   H("h_remote_errors", ["not found", "not supported there", "not supported here", "done"], "requests that cannot be served, between ones that can", "2 nodes; payloads: all u64"),
   H("h_remote_stop", ["one handled", "none handled", "both handled"], "two requests racing with the stop of the actor", "2 nodes, 2 requests; the stop comes after 0-30 steps in steps of 2, then 4 scheduling choices"),
   H("h_rpc_answers", ["answered", "failed", "cannot be decoded", "not settled"], "a peer that answers requests with results and errors of every kind, undecodable ones among them", "1 request at a time"),
   H("h_remote_table", ["both answered", "one answered", "refused"], "a peer that answers two requests with arbitrary responses: any id, any of the kinds, any contents", "2 requests, 2 response frames; ids: right, swapped or unknown"),
   H("h_remote_table3", ["both answered", "one answered", "refused"], "the same with more responses", "3 response frames", thorough=True)],
  "the order of messages between nodes (a task per message is spawned: no order is promised); a connection lost while a request is in flight; more than two requests at once")

P("C14", "Only authenticated peers are served, and none can lock the others out",
  "With client authentication enabled, a session performs nothing a peer asks for unless it first presented a token signed with the configured secret and not older than the configured lifetime; any other first frame ends that session with nothing done. A peer that is refused, or never says anything, does not keep others from connecting and being served.",
  ["inputs", "histories"], "sessions whose first frame is any of eight kinds, token ages around the limit, requests before and after the identification; three sessions in any order",
  "tests never connect a peer with a wrong token, and never hold a connection silent",
  ["coerce/src/remote/net/server/mod.rs", "coerce/src/remote/net/server/session/mod.rs", "coerce/src/remote/net/security/auth/jwt.rs", "coerce/src/remote/config/mod.rs"],
  [{"name": "token check", "where": "Jwt::validate_token, RemoteSession handshake"}, {"name": "accept loop", "where": "server_loop, RemoteSessionStore"}],
  ["cluster", "peer"],
  [H("h_session_auth", ["expired", "refused", "served"], "one peer with any token", "1 session (and one after it); 8 kinds of first frame: right/wrong/empty/garbled token, 4 token ages around the lifetime, no frame, undecodable frame, request first"),
   H("h_session_many", ["silent", "refused", "shut down"], "three peers, some silent or refused, racing with an authenticated one; then the node shuts down", "3 sessions, 4 scheduling choices")],
  "TLS; the cryptography of the token (HMAC-SHA256 of the jwt crate is replaced by an injective stand-in)")

P("C15", "A broken connection loses nothing that was sent after it broke",
  "What is sent to a known node while its connection is down is kept and, when the connection is back, delivered in the order it was sent, each message once, ahead of anything sent later. The client keeps trying to reconnect at its interval up to its limit of attempts; giving up, or waiting, affects no other node, and after giving up the node can be connected to afresh.",
  ["faults", "histories"], "every history of sends, breaks (seen at once or only by the next send, with or without loss of what was unread), refused and successful reconnection attempts, within the stated length",
  "tests never break a connection",
  ["coerce/src/remote/net/client/mod.rs", "coerce/src/remote/net/client/send.rs", "coerce/src/remote/net/client/connect.rs", "coerce/src/remote/actor/clients.rs"],
  [{"name": "write buffer and reconnection", "where": "RemoteClient::write, flush_buffered_writes, Handler<Disconnected>"}, {"name": "client registry", "where": "RemoteClientRegistry"}],
  ["cluster", "peer"],
  [H("h_client_buffer", ["writes around an outage", "two outages", "broke while writing"], "sends, breaks (found by the reader, or by a write after 0-2 more frames, also while what was kept is being delivered) and reconnections in any order", "6 operations"),
   H("h_client_buffer_deep", ["writes around an outage", "two outages"], "the same, longer", "7 operations", thorough=True),
   H("h_client_gives_up", ["came back", "gave up"], "the peer is back after 0-12 attempts", "0-12 refused attempts, one other node")],
  "data the operating system had accepted when the connection broke (the property is about what is sent after it broke); a peer that accepts but never identifies itself",
  ["a write on a connection that is already broken fails"])

P("C16", "Node health, the leader, and their announcement",
  "A node is reported healthy, unhealthy or terminated according to when it last answered a ping and how long that took, against the configured limits, and terminated when it is disconnected or says it stops; a node always holds itself for healthy. The leader is the oldest healthy node (ties by id) whatever the nodes' ids; each change of it is announced once to subscribers and to everyone waiting for it. Membership is announced once, as soon as there is a leader and the configured minimum of nodes (this one, and those that have been pinged).",
  ["inputs", "histories"], "every answer time from 16 s before to 2 s after the tick and every latency up to 20 s (nanosecond resolution), all start times within 3 s and equal ones, all combinations of reachable nodes over the stated number of ticks, ids over the whole range of 64 bits",
  "tests look at two nodes that are up, or one that stopped, for a second",
  ["coerce/src/remote/heartbeat/mod.rs", "coerce/src/remote/system/cluster.rs", "coerce/src/remote/cluster/node.rs", "coerce/src/remote/net/client/ping.rs"],
  [{"name": "health of a node", "where": "update_node, node_status"}, {"name": "pings", "where": "Handler<PingTick>, PingResult"}, {"name": "leader", "where": "Handler<HeartbeatTick>, update_leader"}],
  ["cluster", "heart", "peer", "member"],
  [H("h_heart_health", ["healthy", "unhealthy", "terminated", "timeout, heard of recently"], "ping results of one other node over successive ticks", "2 ticks; ages, latencies: all values in the ranges stated"),
   H("h_heart_health_deep", ["healthy", "unhealthy", "terminated", "timeout, heard of recently"], "the same, longer", "3 ticks", thorough=True),
   H("h_heart_leader", ["kept", "changed", "another node leads"], "three nodes with any start times, ids from three sets including 0, 2^63 and 2^64-1, each healthy, slow, unreachable or silent at each tick; two that wait for the next leader", "2 ticks"),
   H("h_heart_leader_deep", ["kept", "changed", "another node leads"], "the same, longer", "3 ticks", thorough=True),
   H("h_heart_min", ["up", "never", "registered, never pinged"], "minimum cluster size of three, nodes registered and answering pings from any of four ticks on", "4 ticks, up to 4 nodes"),
   H("h_leave", ["the leader leaves", "another one leaves"], "one of three nodes shuts down", "3 nodes, any of them, 2 scheduling choices"),
   H("h_ping", ["healthy", "unhealthy", "terminated", "gone", "back again"], "a peer that, over successive periods, answers pings, is silent, refuses them, or loses its connection and comes back", "4 periods of 2.5 s; ping every second"),
   H("h_ping_deep", ["healthy", "unhealthy", "terminated", "gone", "back again"], "the same, longer", "6 periods of 2.5 s", thorough=True)],
  "agreement between nodes on the leader while their views differ (the leader is each node's own conclusion)")

P("C17", "Membership, lookup and creation of actors agree across the cluster",
  "Whatever the order in which nodes join through one another, all end up knowing the same nodes with the same details, and each joining node is announced once to each other node. An actor that runs on one node is found from every node, one that does not exist from none. An actor created on a chosen node runs exactly there and answers through the returned reference; an id that is taken, a recipe or type the node cannot handle is refused, and refusals are answered. A node that is lost is announced as lost, and when it is back (or when, after failed attempts, it joins at last) as added, once each; then lookup, requests, publications and the leader are as before. A node joins just the same through its own address, through another name for a node and through a name that resolves late; losing the connection made by such a name is not the loss of the node.",
  ["schedules", "inputs", "faults"], "three whole nodes over an in-memory network, joining one after the other or at the same time with the scheduling choices in a window that slides over the run; creation from any node on any node with every kind of recipe",
  "tests join two nodes one after the other, and create one actor",
  ["coerce/src/remote/cluster/discovery/mod.rs", "coerce/src/remote/cluster/node.rs", "coerce/src/remote/actor/registry.rs", "coerce/src/remote/system/actor.rs", "coerce/src/remote/net/server/session/mod.rs", "coerce/src/remote/cluster/builder/worker.rs"],
  [{"name": "discovery and handshake", "where": "NodeDiscovery, session_handshake"}, {"name": "actor directory", "where": "RemoteRegistry, RemoteNodeStore"}, {"name": "remote creation", "where": "deploy_actor, handle_create_actor"}],
  ["cluster", "member", "peer"],
  [H("h_join", ["announced", "one after the other", "at the same time"], "three nodes join, then look up an actor on any of them", "3 nodes; 1 scheduling choice at each of 10 windows of 11 steps, both map iteration orders", cost=3),
   H("h_join_deep", ["announced", "one after the other", "at the same time"], "the same with more choices", "2 scheduling choices at each of 20 windows of 6 steps", thorough=True, cost=6),
   H("h_join_four", ["not through the first"], "four nodes join one after the other, each through any of those before", "4 nodes, 2 orders, all 6 ways to choose whom to join through, both map iteration orders; details include start time, tag and attributes"),
   H("h_join_seed", ["own address", "another name", "resolves late"], "three nodes that listen on one address and are reached by another, seeded with their own address or with another name for a node, whose names resolve only at a later attempt", "3 nodes, 0, 1 or 10 failed lookups, both map iteration orders, an actor on any node looked up from all", cost=2),
   H("h_rejoin_named", ["at once", "after two failed attempts", "one way only"], "as h_rejoin, with a node that joined through another name for its peer, and may lose only the connection it made by that name", "2 nodes, 0-2 failed attempts"),
   H("h_name_lost", ["for good", "and back"], "the connection made by another name for a node is lost for good, or comes back", "2 nodes, 0, 6 or 12 failed attempts"),
   H("h_name_moves", ["done"], "the node others joined through is lost, and another, with another id and address, takes its name over", "3 nodes, 0-2 failed attempts"),
   H("h_relocate", ["elsewhere"], "an actor that stops and runs again on any node", "3 nodes, 2 moves, 2 ids"),
   H("h_rejoin", ["at once", "after two failed attempts", "one way only"], "two nodes lose one or both of the connections between them and find each other again", "2 nodes, 0-2 failed attempts, what was on the way lost or not"),
   H("h_rejoin_three", ["at once", "after two failed attempts", "one way only"], "the same, with a third node that keeps its connections", "3 nodes, 0-2 failed attempts"),
   H("h_leave", ["the leader leaves", "another one leaves"], "one of three nodes shuts down", "3 nodes, any of them, 2 scheduling choices"),
   H("h_join_hard", ["broken", "not answered"], "a peer whose first handshake is not answered, or whose connection breaks during it", "1 failed handshake"),
   H("h_deploy", ["created", "refused", "not supported here", "not supported there"], "creation of an actor from any of three nodes on any", "3 nodes, 4 kinds of recipe, a node that does not know the type")],
  "two creations of the same id at the same moment; the hash ring itself (a third-party crate, modelled as a function of its members and the key)")

P("C18", "Publish and subscribe: each subscriber once, and only those",
  "A message published to a topic reaches every actor subscribed to that topic and key, on every node of the cluster, exactly once (on the own node in the order of publication); nothing reaches another topic or key, a former subscriber, or, when published locally, another node. A subscriber that stops or falls behind disturbs no other and, having fallen behind, keeps receiving.",
  ["histories", "schedules", "inputs"], "every history of the stated length of publications from two of three nodes (cluster-wide or local, on two keys, on another topic) and of subscribers leaving and coming back; a stop racing with a publication; payloads: all u64",
  "tests publish once to subscribers that stay",
  ["coerce/src/remote/stream/pubsub.rs", "coerce/src/remote/stream/mediator/mod.rs", "coerce/src/remote/net/server/session/mod.rs"],
  [{"name": "mediator and subscriptions", "where": "StreamMediator, TopicSubscriberStore, Subscription"}],
  ["cluster", "member"],
  [H("h_pubsub", ["back", "two from elsewhere", "unsubscribed after one"], "4 subscribers on 3 nodes", "3 operations"),
   H("h_pubsub_deep", ["back", "two from elsewhere", "unsubscribed after one"], "the same, longer", "4 operations", thorough=True, cost=3),
   H("h_pubsub_where", ["two nodes", "no subscriber where it is published", "empty key"], "subscribers anywhere, publications from anywhere, with any key", "2 or 3 nodes, 1 subscriber (and a late one), 3 keys, 2 publications from any node"),
   H("h_pubsub_where_deep", ["two nodes", "no subscriber where it is published", "empty key"], "the same with more subscribers", "2 subscribers", thorough=True),
   H("h_pubsub_slow", ["fell behind", "stopped"], "a subscriber that stops during a publication, or is 1100 messages behind", "2 subscribers; 5 scheduling choices")],
  "what a subscriber misses while it is more than 1024 messages behind; the order of publications from another node (a task per publication)")

P("C19", "Requests to sharded entities: one instance, answered by it or refused",
  "A request to a sharded entity is answered once, by that entity, which is created from the recipe of the request that needed it and lives once however many requests arrive while it or its shard starts; a request whose recipe cannot be read or made, or that has no recipe while the entity does not exist, is refused; so is one for an entity whose creation failed. A shard that is stopped while it starts or works answers or refuses every request, and when asked for again recovers the entities it had.",
  ["schedules", "inputs", "histories"], "one whole node with two shards; two requests of every kind to three entities of which two share a shard, one after the other or together, under the stated scheduling choices and both map iteration orders; a shard stop racing with three requests; payloads: all u64",
  "tests ask one entity at a time, and never while its shard starts or stops",
  ["coerce/src/sharding/host/mod.rs", "coerce/src/sharding/host/request.rs", "coerce/src/sharding/shard/mod.rs", "coerce/src/sharding/shard/message.rs", "coerce/src/sharding/shard/recovery.rs", "coerce/src/sharding/mod.rs"],
  [{"name": "requests buffered while a shard is placed and started", "where": "ShardHost, ShardState"}, {"name": "entities of a shard", "where": "Shard, EntityState"}, {"name": "recovery of entities", "where": "ShardStateSnapshot, RecoverEntities"}],
  ["cluster", "member", "shard"],
  [H("h_shard_requests", ["a request without a recipe reaches the running entity", "bad recipe", "cannot be made", "not found"], "two requests with any of five recipes to any of three entities", "1 node, 2 shards, 2 requests, 2 scheduling choices", cost=3),
   H("h_shard_requests_deep", ["a request without a recipe reaches the running entity", "bad recipe", "cannot be made", "not found"], "the same with more scheduling choices", "4 scheduling choices", thorough=True, cost=6),
   H("h_shard_restart", ["most served", "recovered"], "a shard stopped at any point while requests arrive, then asked for again", "1 node; 2 scheduling choices at each of 6 windows of 4 steps", cost=2),
   H("h_shard_stall", ["some refused"], "a shard stopped while an entity of it takes long to start", "1 node, 2-3 requests, the start ends before or after the stop was asked for and requests were made"),
   H("h_shard_restart_deep", ["most served", "recovered"], "the same, finer", "2 scheduling choices at each of 12 windows of 3 steps", thorough=True, cost=6)],
  "the order of requests (a task per request is spawned); passivation; a journal that fails (retried for ever by default); a second stop of a shard that is already stopping")

P("C20", "Shard placement: once, on a node that is there, where the load is least",
  "Whatever the order in which shards are asked for and nodes come and go, every shard that was asked for is placed on exactly one node that is there; when placed, on one that has least shards; it stays there until that node leaves, and is then placed again. What the coordinator reports about shards and nodes agrees with that. The shard of an entity is a function of its id alone, the same on every node and on every computation, and lies below the number of shards.",
  ["histories", "inputs"], "every history of the stated length of requests for four shards (ids 0, 1, 2, 2^32-1) and of two nodes joining and leaving, both map iteration orders; every hash function, and ids up to the stated length",
  "tests place shards on a fixed set of nodes",
  ["coerce/src/sharding/coordinator/mod.rs", "coerce/src/sharding/coordinator/allocation.rs", "coerce/src/sharding/coordinator/stats.rs", "coerce/src/sharding/coordinator/discovery.rs"],
  [{"name": "allocation", "where": "ShardCoordinator::allocate_shard, shard_selector"}, {"name": "shard of an entity", "where": "DefaultAllocator::allocate"}],
  ["cluster", "member", "shard"],
  [H("h_shard_alloc", ["its node left", "placed elsewhere"], "requests for shards and nodes coming and going", "4 operations"),
   H("h_shard_alloc_deep", ["its node left", "placed elsewhere"], "the same, longer", "6 operations", thorough=True, cost=6),
   H("h_shard_ids", ["upper half", "lower half"], "the shard of an entity, with any hash function", "ids of up to 3 ASCII characters; 1, 2, 7, 100 and 2^32-1 shards", cost=2),
   H("h_shard_ids_deep", ["upper half", "lower half"], "longer ids", "ids of up to 9 ASCII characters", thorough=True, cost=3)],
  "a coordinator that takes over from a lost one (it places shards again from its journal without asking who has them); an allocator with zero shards",
  ["the hasher of std is modelled as an arbitrary function of the bytes hashed"])

P("C21", "Rebalancing and node loss: entities move, never twice, and stay reachable",
  "When a shard moves to another node, or a node joins and shards are spread over the nodes, the entities of a moving shard are stopped before any of them is started elsewhere, so that no entity ever has two instances; they come up on their new node with the recipe they had; requests made meanwhile from any node are answered by the entity or refused, and afterwards every entity is served from every node and the shards are spread evenly. When a node leaves, its shards and entities are taken over by the nodes that remain.",
  ["schedules", "histories"], "two whole nodes over an in-memory network, requests from both at any of the stated points of the move, entities that are slow to stop, both map iteration orders",
  "tests rebalance with no requests in flight and idle entities",
  ["coerce/src/sharding/coordinator/balancing.rs", "coerce/src/sharding/coordinator/mod.rs", "coerce/src/sharding/coordinator/allocation.rs", "coerce/src/sharding/host/mod.rs", "coerce/src/sharding/host/request.rs", "coerce/src/sharding/shard/mod.rs"],
  [{"name": "stop, then place and start", "where": "ShardCoordinator rebalance_shards, StopShard, ShardReallocating, ShardAllocated"}, {"name": "load", "where": "Rebalance::All, NodeAdded, NodeRemoved"}],
  ["cluster", "member", "shard"],
  [H("h_shard_move", ["all served", "some refused", "stopping took long"], "a shard with two entities moves while three requests arrive from two nodes", "2 nodes; 1 scheduling choice at each of 8 windows of 10 steps, twice", cost=2),
   H("h_move_start", ["refused", "with an entity", "empty"], "a shard is to move while it is still being recovered", "2 nodes, 2 requests from any node, 1 scheduling choice at each of 4 windows of 3 steps"),
   H("h_move_lost", ["before it stopped", "any time"], "the node that a shard is to leave is lost before it has stopped it, or at any other point of the move", "2 nodes, 1 scheduling choice at each of 6 windows of 6 steps"),
   H("h_move_stall", ["refused"], "a shard moves while an entity of it takes long to start", "2 nodes, 2 requests from any node, 1 scheduling choice at each of 4 windows of 3 steps"),
   H("h_shard_move_deep", ["all served", "some refused", "stopping took long"], "the same, finer", "20 windows of 5 steps", thorough=True, cost=8),
   H("h_shard_grow", ["spread", "as many on each", "refused while moving"], "a node joins, shards spread, the node leaves again", "2 and 3 shards with an entity each; 1 scheduling choice at each of 8 windows of 12 steps", cost=3),
   H("h_shard_grow_deep", ["spread", "as many on each", "refused while moving"], "the same with more", "3 and 4 shards; 20 windows of 6 steps", thorough=True, cost=8)],
  "a partition in which a node is taken for lost but still runs; a coordinator lost during a move; more than two nodes; requests in flight to a node at the moment it is lost")

P("C22", "Cluster singletons: one instance, where the leader is, reachable from everywhere",
  "At no time do two instances of a singleton exist: a new leader starts it only after the previous instance has stopped, whichever node hears of the change first and however often leadership moves back and forth; once all nodes agree on the leader the singleton runs there. A request sent through the singleton from any node, before it runs, while it moves or while it runs, is answered by it or refused, one without an answer is handled once; when its node is lost it is started on the new leader.",
  ["schedules", "histories"], "two and three whole nodes over an in-memory network; leadership changes announced to the nodes in any order at any of the stated points, requests from any node in between, instances that are slow to start or stop, one connection that is slow, both map iteration orders",
  "tests start a singleton on two idle nodes and ask it once",
  ["coerce/src/singleton/manager/mod.rs", "coerce/src/singleton/manager/lease.rs", "coerce/src/singleton/manager/start.rs", "coerce/src/singleton/proxy/mod.rs", "coerce/src/singleton/proxy/send.rs", "coerce/src/singleton/mod.rs"],
  [{"name": "lease from every manager", "where": "Manager, RequestLease, LeaseAck"}, {"name": "buffering proxy", "where": "Proxy, Deliver"}],
  ["cluster", "member", "singleton"],
  [H("h_singleton", ["answered by the new one", "starting or stopping takes long"], "leadership moves once", "2 nodes; 1 scheduling choice at each of 6 windows of 6 steps, at each of 2 points", cost=2),
   H("h_singleton_back", ["answered by the new one", "refused while it moves", "starting or stopping takes long"], "leadership moves there and back", "2 nodes; 1 scheduling choice at each of 4 points", cost=3),
   H("h_singleton_three", ["answered by the new one", "starting or stopping takes long"], "leadership moves once among three nodes", "3 nodes; 1 scheduling choice at each of 2 windows of 14 steps, at each of 3 points", thorough=True, cost=5),
   H("h_singleton_deep", ["answered by the new one", "refused while it moves", "starting or stopping takes long"], "leadership moves there and back", "2 nodes; 2 windows of 8 steps", thorough=True, cost=9),
   H("h_singleton_link", ["answered by the new one"], "leadership moves while one connection is slow", "3 nodes; 4 windows of 20 steps"),
   H("h_singleton_link_deep", ["answered by the new one"], "the same, finer", "20 windows of 6 steps", thorough=True),
   H("h_singleton_notify", ["before it is started", "while it runs"], "messages without an answer, before and after it starts", "2 nodes, 3 messages"),
   H("h_singleton_notify_deep", ["before it is started", "while it runs"], "the same", "3 nodes, 3 messages", thorough=True),
   H("h_singleton_lost", ["answered by the new one"], "the node of the singleton is lost, requests at any of five times", "2 nodes"),
   H("h_singleton_chain", ["and back", "to a third node", "answered by the new one"], "leadership moves twice before the first singleton has stopped", "3 nodes, 2 moves, any target, the second learnt in 3 orders"),
   H("h_singleton_chain_deep", ["and back", "to a third node", "answered by the new one"], "the same, both moves learnt in any of 3 orders with a pause at any point", "3 nodes", thorough=True, cost=5),
   H("h_singleton_join", ["before it runs", "while it starts", "while it runs", "while it moves"], "a node joins in every phase of the singleton's life", "2 nodes and a third, 0-2 heartbeats apart"),
   H("h_singleton_lost_other", ["its consent never arrived"], "a node whose consent the start needs is lost", "2 nodes, 0-2 heartbeats after they met")],
  "clusters that formed separately and merge, partitions (a node taken for lost may still run it); a singleton that stops by itself or fails to start (it is not restarted); a request in flight to a node when it is lost; a connection so slow that the announcements of two successive moves overtake each other; managers built after the cluster was announced to them")

P("C23", "Introspection and health: every actor is told about, and truthfully",
  "Describing an actor, or all actors of a system, lists each of its children, and theirs, once and with its own id, path, type and tags, down to the depth and up to the number asked for, attached children only if asked for; a child that does not answer within the time allowed is reported as timed out, and neither it nor one that stops keeps the others from being described. A node's health report lists exactly the actors registered for it, with the time each took to answer or none if it is not running, and is unhealthy if one of them is not running, else degraded if one took longer than a second, else healthy.",
  ["inputs", "schedules"], "all option combinations in range; a child busy for any number of seconds up to 60 against any time allowed up to 30; every interleaving of a child's stop with the description within the bound; every combination of two actors registered, removed, busy and stopped",
  "tests ask for the health of a node with one actor; describing is not tested",
  ["coerce/src/actor/describe/mod.rs", "coerce/src/remote/heartbeat/health.rs", "coerce/src/remote/heartbeat/mod.rs", "coerce/src/actor/supervised.rs", "coerce/src/actor/scheduler/mod.rs"],
  [{"name": "describing children", "where": "Handler<Describe>, describe_all, DescribeAll"}, {"name": "health report", "where": "GetHealth, RegisterHealthCheck, RemoveHealthCheck, Heartbeat::get_system_health"}],
  ["system", "cluster", "heart"],
  [H("h_describe", ["everything", "stuck child", "limited depth"], "describing a three-level hierarchy with depth and width limits, with and without a child that never answers", "all option combinations in range, both map iteration orders"),
   H("h_describe_busy", ["given up", "in time", "default", "stopping", "own only"], "two children and an attached one, one of them busy or stopping", "1 to 60 s busy, 1 to 30 s allowed or the default, 4 scheduling choices"),
   H("h_health", ["healthy", "degraded", "unhealthy and slow", "not asked about", "another node"], "the health report of a node with two actors", "each never registered, registered or removed; idle, busy for 0.9 or 1.1 s, or stopped; both map iteration orders")],
  "a child three levels down that does not answer (its parent may be reported as timed out instead); a registered actor that never answers (the report waits for it)")

P("C24", "The Redis journal store behaves like an ordered log",
  "Per persistence key, reads of the Redis journal store return exactly what was written and not deleted: the latest snapshot, all messages from a sequence on, one message by its sequence, or the messages of an inclusive sequence range, in order; deleting up to a sequence removes exactly the messages up to and including it, and keys never affect each other, whatever their names. An operation the server did not perform, or whose answer was lost, is reported as failed and never as an empty journal; writing an entry again stores it once. An actor restarted on it recovers exactly its acknowledged state.",
  ["histories", "inputs", "faults"], "every history of writes, batches, snapshots and deletes over two journals within the bound, with the server out of reach or an answer lost at any of them; all event contents",
  "tests write and read five entries under one key, with a server that answers",
  ["providers/persistence/coerce-redis/src/journal/mod.rs", "providers/persistence/coerce-redis/src/journal/actor.rs", "coerce/src/persistent/journal/storage.rs", "coerce/src/persistent/journal/mod.rs"],
  [{"name": "sorted sets by sequence", "where": "Write, WriteBatch, ReadSnapshot, ReadMessages, ReadMessage, DeleteRange, Delete handlers"}, {"name": "keys", "where": "get_redis_key, get_clustered_redis_key"}],
  ["redis", "k8s"],
  [H("h_redis", ["messages left after a delete", "two journals", "two snapshots"], "writes and deletes over two journals, then any read", "2 operations; sequences 2 and 4 (6, 8 with batches), reads at 0 to 5"),
   H("h_redis_faults", ["messages left after a delete", "two journals"], "the same, one of the operations not performed or not answered, and perhaps tried again", "2 operations, 1 fault"),
   H("h_redis_recover", ["events after a snapshot", "a write failed"], "two persistent actors over the store: events, batches, snapshots, cleanups, at most one failed write, restart", "3 operations"),
   H("h_redis_deep", ["messages left after a delete", "two journals", "two snapshots"], "writes and deletes, longer", "3 operations", thorough=True, cost=6, timeout=1500),
   H("h_redis_recover_deep", ["events after a snapshot", "a write failed"], "recovery, longer", "4 operations", thorough=True, cost=4, timeout=900)],
  "the server itself (a model of its sorted sets answers), its clustering and persistence; sequences above 2^53 (scores are doubles); empty batches", variant="prov")

P("C25", "Kubernetes discovery finds exactly the pods that run a node",
  "Discovery yields one address per selected pod's container that exposes the configured port: the pod's IP with that port, or its hostname and (if set) subdomain, as configured; pods that match no selector, have no address yet, or expose no such port are passed over, and keep no other from being found.",
  ["inputs"], "every combination, for two pods (or one with two containers), of label, address, hostname, subdomain, status and lists of ports in range",
  "there are no tests for it",
  ["providers/discovery/coerce-k8s/src/lib.rs", "providers/discovery/coerce-k8s/src/config.rs"],
  [{"name": "from pods to addresses", "where": "KubernetesDiscovery::discover"}],
  ["redis", "k8s"],
  [H("h_k8s", ["several, by address", "several, by name", "one of them not there yet"], "two pods with a container each", "0 to 2 ports per container"),
   H("h_k8s_sidecar", ["several, by address", "several, by name"], "a pod with one or two containers", "0 to 2 ports per container")],
  "the API server (a model lists the pods); an API server that cannot be reached; configuration from the environment", variant="prov")
