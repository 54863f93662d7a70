TC = "apps/tablet_cache/service/src/"
TS = "apps/tablet_store/service/src/actor.rs"
AC = "apps/atomic_counter/service/src/actor.rs"
WL = "apps/willow/decryptor/actor/src/actor.rs"
RT = "runtime/src/"
NOTES = ("All checks are Rust programs in harness/checks, built offline from /repo's sources (paths, no copies) "
         "against a simulated Oak and a vendored raft-rs; no hooks in /repo are needed.")
NOT_APPLICABLE = {}

def q(over, text):
    return {"over": over, "text": text}

def anchors(files, mechanism, observe_at, state=()):
    return {
        "files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe_at,
        "hook_needed": None,
    }

SIM = "runtime monitoring: randomized fault-injecting simulation of the real code, online monitors"
CACHE_NOTE = ("Held on the executions produced: thousands of random fault-injected runs of the real tablet cache "
              "over several nodes, judged by an independent oracle. Trusts the check's model of the Tablet Store "
              "interface and of the blob storage.")
ALLH = ["histories", "schedules", "fault_sequences", "inputs"]

SIMC = "runtime monitoring: randomized clusters of real replicas on faulty and hostile simulated hosts"
CLUSTER_NOTE = ("Held on the executions produced: clusters of 1 to 7 real replicas (driver, raft-rs, storage, snapshots, sessions) on "
                "random hosts, tens of thousands of cases per run. Oak's sessions and verifiers are a simulation of their contract; "
                "replicas that crash don't come back under their id, and a majority of each membership stays alive.")

PROPS = [
 dict(id="C01", bin="tc", title="Committed tablet transactions are serializable",
  statement="For every set of tablet transactions run concurrently by any number of cache nodes against one Tablet Store, "
   "the tablet contents that handlers of a committed transaction saw are those left by the transactions committed before it, and the contents it wrote are what later ones see. "
   "A transaction that read or overwrote a tablet version which is no longer current when it commits does not commit, "
   "and no transaction is reported as committed unless the Tablet Store executed all of its operations.",
  quantifier=q(ALLH, "all interleavings of transactions of all nodes, all delays, reorderings, rejections, failures and duplicates of store and storage traffic"),
  why_tests_cant="The one end-to-end coordinator test runs one transaction over mocks without concurrency, conflicts or failures.",
  anchors=anchors([TC+"transaction/coordinator.rs", TC+"transaction/data.rs", TC+"transaction/metadata.rs", "apps/tablet_store/service/src/store.rs"],
   [("commit turns every tablet read into a version check and every write into a versioned update", TC+"transaction/coordinator.rs"),
    ("metadata and data caches hand out contents by version", TC+"transaction/metadata.rs")],
   ["handler invocations", "ExecuteTabletOpsRequest messages", "transaction outcomes"]),
  technique=SIM+" (multi-version serializability oracle)", level_note=CACHE_NOTE),
 dict(id="C02", bin="tc", title="A tablet transaction's outcome tells what happened to it",
  statement="A transaction reported as succeeded sent exactly one commit request, covering exactly the tablets its handlers were given and the contents they wrote, and the Tablet Store executed it and said so. "
   "One reported as failed was not confirmed by the Tablet Store; one aborted or never committed sends no commit request. "
   "An outcome never changes once reported, and duplicated, late, reordered or unknown responses affect no transaction.",
  quantifier=q(ALLH, "all transactions, handler behaviours, response orders and faults"),
  why_tests_cant="The existing test commits one transaction successfully; failures, aborts, retries and stray responses are never exercised.",
  anchors=anchors([TC+"transaction/coordinator.rs", TC+"transaction/manager.rs", TC+"transaction.rs"],
   [("transaction state machine preparing/committing/completed", TC+"transaction/coordinator.rs"),
    ("correlation ids map responses to transactions", TC+"transaction/coordinator.rs")],
   ["TabletTransactionCommit::check_result", "ExecuteTabletOpsRequest messages"]),
  technique=SIM+" (shadow transaction log)", level_note=CACHE_NOTE),
 dict(id="C03", bin="tc", title="Tablet contents are durable before their update is committed",
  statement="Whenever a cache node asks the Tablet Store to update a tablet, the blob that the new metadata names is already stored successfully and holds exactly the contents written, with matching hash, size and the version following the one read. "
   "If storing any of a transaction's blobs fails, the transaction does not commit.",
  quantifier=q(ALLH, "all transactions and all orders and failures of blob stores"),
  why_tests_cant="Tests store one batch against a mock that always succeeds.",
  anchors=anchors([TC+"transaction/coordinator.rs", TC+"transaction/data.rs"],
   [("handlers' updates are stored before the process counts as done", TC+"transaction/coordinator.rs"),
    ("store responses complete a batch", TC+"transaction/data.rs")],
   ["StoreTabletRequest and StoreTabletResponse", "UpdateTablet operations"]),
  technique=SIM+" (durability monitor over blob storage events)", level_note=CACHE_NOTE),
 dict(id="C04", bin="tc", title="Every queried key reaches the tablet that owns it, exactly once",
  statement="When a set of table queries is resolved or processed, every key hash requested of a table (repeated ones of several queries of a table count once) is handed over exactly once, together with the tablet of its table that owns that hash (the tablet with the smallest key hash end that is not below it). "
   "No key is lost, duplicated, invented or given a tablet of another table, whatever the tablet layout, cache state, region boundaries and concurrency of queries.",
  quantifier=q(["inputs", "histories", "schedules", "configurations"], "all key hashes including both ends of the ring, tablet layouts, region sizes, cache states and concurrent queries"),
  why_tests_cant="The resolve test uses two fixed tablets and one query.",
  anchors=anchors([TC+"transaction/metadata.rs", TC+"transaction/coordinator.rs"],
   [("regions of cached tablet metadata", TC+"transaction/metadata.rs"),
    ("matching of resolved and loaded tablets to queries", TC+"transaction/coordinator.rs")],
   ["TabletsDescriptor / tablets passed to handlers", "resolve results"]),
  technique=SIM+" (per-key ownership and conservation oracle)", level_note=CACHE_NOTE),
 dict(id="C05", bin="tc", title="A stale cache recovers: conflicts refresh tablet metadata",
  statement="A node whose cached tablet metadata is outdated learns the current one from the conflict it meets: once other nodes stop writing, a fresh transaction of every node over any tablets commits within two attempts. "
   "The metadata a cache hands out never goes back to a version older than one it already handed out or committed itself for the same tablet. "
   "Key hashes whose tablets are already known are resolved without asking the Tablet Store, and a region already being listed is not listed again.",
  quantifier=q(ALLH, "all histories of commits, conflicts, failures and cached states"),
  why_tests_cant="Tests resolve once into an empty cache and never update it after a conflict.",
  anchors=anchors([TC+"transaction/metadata.rs", TC+"transaction/coordinator.rs"],
   [("conflicting or updated metadata replaces cached one", TC+"transaction/metadata.rs"),
    ("results of a transaction update the metadata cache", TC+"transaction/coordinator.rs")],
   ["resolve results", "outcomes of probe transactions"]),
  technique=SIM+" (freshness and monotonicity monitors)", level_note=CACHE_NOTE),
 dict(id="C06", bin="tc", title="Only tablet contents matching the store's hash are ever seen",
  statement="A handler is never given tablet contents other than the ones whose hash the Tablet Store's metadata carries: blobs that the untrusted storage corrupted, truncated, swapped or replayed are never passed to a handler as tablet contents. "
   "Failed and tampered loads are not cached: the same tablet can be loaded again afterwards.",
  quantifier=q(ALLH, "all manipulations of loaded blobs at any time"),
  why_tests_cant="Tests load honest blobs only.",
  anchors=anchors([TC+"transaction/data.rs", TC+"store.rs"],
   [("loaded blob is checked against blob hash", TC+"transaction/data.rs")],
   ["tablet contents passed to handlers", "LoadTabletResponse"]),
  technique=SIM+" (integrity monitor, adversarial storage)", level_note=CACHE_NOTE),
 dict(id="C07", bin="tc", title="Batches of tablet loads and stores finish once, when every blob is ready",
  statement="A batch of tablets to load or store reports success exactly when every one of its tablets has been loaded or stored, failure as soon as one of them failed, and never both, whatever mix of cached, pending and new tablets it has and in whatever order and how often responses come. "
   "A loaded batch hands over exactly the tablets asked for, each with the contents of the version asked for; at most one load of the same tablet version is outstanding; cached contents are served without traffic.",
  quantifier=q(ALLH, "all batches, cache states, response orders, failures and duplicates"),
  why_tests_cant="Two tests load and store one fixed batch in order, with an empty cache and no failure.",
  anchors=anchors([TC+"transaction/data.rs"],
   [("load and store batches count down pending tablets", TC+"transaction/data.rs")],
   ["TabletDataCache load_tablets, store_tablets and their results", "LoadTabletRequest and StoreTabletRequest"]),
  technique="runtime monitoring: randomized stateful workload against the real data cache with a reference model as oracle", level_note=CACHE_NOTE),
 dict(id="C08", bin="tc", title="Tablet transactions always finish",
  statement="However responses fail, are rejected, reordered or duplicated, once every outstanding request has been answered no process or transaction stays pending, no code panics, and every committed transaction has an outcome within a bounded number of steps. "
   "Transactions started afterwards over the same tablets are not blocked by earlier failures or aborts.",
  quantifier=q(ALLH, "all fault sequences followed by answered requests"),
  why_tests_cant="No test has a failing load, store, list or commit.",
  anchors=anchors([TC+"transaction/coordinator.rs", TC+"transaction/data.rs", TC+"transaction/metadata.rs", TC+"transaction/manager.rs"],
   [("make_progress of coordinator, metadata and data caches", TC+"transaction/manager.rs")],
   ["has_pending_process", "check_result"]),
  technique=SIM+" (bounded-progress monitor in logical steps)", level_note=CACHE_NOTE),

 dict(id="C09", bin="kv", title="Key value requests are answered exactly once, with the right kind of answer",
  statement="Every get or put the key value store accepts is answered exactly once, with its own correlation id and the kind of answer asked for, once the requests it depends on have been answered; conflicting transactions and misrouted or changed tablets are retried, not lost. "
   "Nothing is answered twice or unasked. Requests are batched by the configured thresholds, an idle store causes no traffic, and malformed, unknown, late or repeated messages and malformed configurations lead to an error or are ignored, never to a panic or a wrong answer.",
  quantifier=q(ALLH, "all request histories of all nodes, all orders, failures, rejections and duplicates of store and storage traffic, all thresholds"),
  why_tests_cant="The key value store and its actor have no tests.",
  anchors=anchors([TC+"store.rs", TC+"actor.rs"],
   [("pending requests become transactions over resolved tablets", TC+"store.rs"),
    ("actor dispatches messages between consumer, store and transaction manager", TC+"actor.rs")],
   ["TabletCacheInMessage / TabletCacheOutMessage", "outgoing store traffic"]),
  technique=SIM+" (request ledger over several cache nodes and a real tablet store)", level_note=CACHE_NOTE),
 dict(id="C10", bin="kv", title="The key value store is linearizable per key",
  statement="For every key, the gets and puts answered by any number of cache nodes over one Tablet Store, with nodes restarting and requests failing or being retried, have an order consistent with real time in which each get returns the value of the last successful put before it, or none. "
   "A put reported as successful is not lost; one reported as failed never takes effect later.",
  quantifier=q(ALLH, "all concurrent histories of puts and gets over all keys, all fault sequences and restarts of cache nodes"),
  why_tests_cant="No test runs the store with concurrency, several nodes or faults.",
  anchors=anchors([TC+"store.rs", TC+"actor.rs", TC+"transaction/coordinator.rs", TS],
   [("handler applies batched puts and gets to tablet contents", TC+"store.rs"),
    ("optimistic commit by tablet version", TS)],
   ["PutKeyRequest/Response, GetKeyRequest/Response"]),
  technique="runtime monitoring: recorded histories of fault-injected simulation, offline linearizability checker per key", level_note=CACHE_NOTE),
 dict(id="C12", bin="ts", title="Tablet Store executes versioned tablet operations atomically",
  statement="A tablet ops request succeeds only if every check in it names a tablet at its current version and every update carries the version that follows; then all updates take effect and each tablet's version grows by exactly one. "
   "Otherwise nothing changes and the response tells for each operation whether it succeeded, with the current metadata of the conflicting tablet. "
   "Every command that the leader accepts is answered once with the request's correlation id; non-leaders refuse; malformed, unsupported or contradictory requests are refused or fail and never crash a replica.",
  quantifier=q(["histories", "inputs"], "all sequences of requests, batch compositions, versions including extremes and malformed messages"),
  why_tests_cant="The store's unit tests execute a few fixed requests.",
  anchors=anchors([TS], [("check, then execute of tablet ops", TS), ("on_process_command and on_apply_event", TS)],
   ["ExecuteTabletOpsResponse", "ListTabletResponse afterwards"]),
  technique="runtime monitoring: randomized command histories against the real actor, executable reference model as online oracle",
  level_note="Held on the histories produced; the model restates the contract in the proto comments."),
 dict(id="C13", bin="ts", title="Listing tablets returns exactly the owners of the range, up to date",
  statement="A list request returns every tablet of the table that owns a key hash of [from, to), on a ring that wraps around (equal ends list the whole ring), each once and with its current metadata; it returns no tablet that owns no hash of [from, to] and none of another table.",
  quantifier=q(["inputs", "histories"], "all ranges and tablet layouts including wrap around, single tablets, unknown tables and ends of the ring"),
  why_tests_cant="Tests list two fixed ranges.",
  anchors=anchors([TS], [("range lookup over key hash ends", TS)], ["ListTabletResponse"]),
  technique="runtime monitoring: randomized layouts and ranges against the real actor, ownership oracle",
  level_note="Held on the layouts and ranges produced. The inclusive upper bound the implementation uses is allowed, not required."),
 dict(id="C14", bin="ts", title="Tablet Store replicas and snapshots agree",
  statement="Replicas that start from the same configuration and apply the same events have the same state and give the same answers, whether they applied all events or loaded a snapshot of any replica in between; loading a snapshot replaces the state completely. "
   "Malformed snapshots are refused and never panic.",
  quantifier=q(["histories", "crash_points", "configurations"], "all event sequences, snapshot points and configurations"),
  why_tests_cant="No test compares replicas or loads a snapshot into one that has state.",
  anchors=anchors([TS], [("on_save_snapshot, on_load_snapshot", TS), ("initial tablets from configuration", TS)],
   ["snapshots", "answers of each replica"]),
  technique="runtime monitoring: replicas run side by side, state comparison after each event",
  level_note="Held on the histories produced."),
 dict(id="C16", bin="ac", title="Atomic counter keeps its contract on every replica",
  statement="A compare and swap succeeds exactly when the counter's value equals the expected one (absent counts as 0), then stores the new value; otherwise nothing changes. The answer carries status, the counter's id, and old and new value as they really were and are. "
   "Commands are refused by non-leaders and when malformed or empty. All replicas get the same values from the same events; snapshots restore exactly the state they were taken of, and malformed ones are refused.",
  quantifier=q(["histories", "crash_points", "inputs"], "all sequences of commands, events and snapshots, all counter values including extremes"),
  why_tests_cant="Integration tests (Bazel only) sample a handful of operations on one happy path.",
  anchors=anchors([AC], [("apply_compare_and_swap", AC), ("snapshot save and load", AC)], ["counter responses", "snapshots"]),
  technique="runtime monitoring: randomized histories against the real actor, reference model as online oracle",
  level_note="Held on the histories produced."),
 dict(id="C32", bin="lg", title="Remote log entries leave exactly once, in order and complete",
  statement="Every record logged through the platform's remote logger leaves in exactly one entry of the next drained batch, with its severity, message, module/tag and all key value pairs of record and logger; entries of one thread stay in order, and draining concurrently with logging loses or repeats nothing. "
   "The same holds with and without std.",
  quantifier=q(["histories", "schedules", "inputs"], "all records, levels, contexts and interleavings of logging and draining threads"),
  why_tests_cant="The logger has no tests.",
  anchors=anchors([RT+"logger.rs", RT+"platform.rs"], [("DrainOutput collects entries", RT+"logger.rs")], ["LogEntry / take_entries"]),
  technique="runtime monitoring: multi-threaded stress of the real logger, conservation and order checker",
  level_note="Held on the thread interleavings that occurred."),
 dict(id="C34", bin="sv", title="The service processes each request once, alone, and answers its requester",
  statement="Requests that reach a replica through its gRPC or micro_rpc service are processed one at a time, by one thread, each exactly once (at most once if its client has gone away), in an order that respects real time; the response has exactly the messages which that request produced. "
   "Clients that cancel requests at any moment affect nobody else. If the replica fails with an error no later request is answered as if it hadn't, and when the service ends its replica has ended.",
  quantifier=q(["schedules", "histories"], "all interleavings of overlapping requests, cancellations at every await point, failures of the replica"),
  why_tests_cant="The services have no tests.",
  anchors=anchors([RT+"service.rs"], [("run_driver_loop", RT+"service.rs"), ("ApplicationService", RT+"service.rs")], ["receive_message of both services", "Actor callbacks"]),
  technique="runtime monitoring: concurrent stress of the real services with cancelled futures, exactly-once, mutual exclusion and real-time order checkers",
  level_note="Held on the thread interleavings that occurred. After a failure of the replica a request may be left without answer (Tokio may lose a message that races with the end of its receiver)."),
 dict(id="C35", bin="wl", title="The decryptor uses each key pair once and gives every client a working key",
  statement="All replicas of the Willow decryptor that apply the same events hold the same key pairs, directly or through snapshots. A key id has at most one key pair at a time: every client that asked for it gets its public key, also when several ask at once, until it is used or gives way. "
   "A key pair is used for at most one released decryption, which is the one of that request, and is erased on all replicas with it; later ones are refused. At most 1000 key pairs are held, and only the oldest gives way to a new one. "
   "Private keys don't appear in answers; malformed requests and those to non-leaders are refused and never fail the replica.",
  quantifier=q(["histories", "schedules", "inputs", "crash_points"], "all sequences and overlaps of requests, replication delays, changes of leader and lost entries, snapshots"),
  why_tests_cant="The integration test (Bazel only) sends one request after the other to one leader.",
  anchors=anchors([WL], [("process_generate_key_event", WL), ("process_decrypt_event", WL), ("snapshot save and load", WL)], ["decryptor responses", "snapshots"]),
  technique="runtime monitoring: randomized replicated histories against the real actor, key life cycle monitor",
  level_note="Held on the histories produced. The encryption library is a simulation: shares and decryptions name the private key they come from."),
 dict(id="C25", bin="rt", title="Replicas talk only to peers whose attestation matches",
  statement="For every configuration of reference values, a replica sends no raft or snapshot message to a peer, and takes none from one, unless the peer's attestation evidence fulfils every layer of its reference values (hardware signature, firmware, kernel, system and application), comes with the endorsements that are required, and binds the session to the key which that evidence names. "
   "Incomplete reference values accept nobody; a peer that fulfils them is accepted.",
  quantifier=q(["inputs", "configurations", "histories"], "all reference values and peer identities: wrong, missing, stolen, unsigned or debug evidence of any layer"),
  why_tests_cant="Unit tests of handshake and communication mock the sessions; no test runs an attestation policy.",
  anchors=anchors([RT+"session.rs", RT+"handshake.rs", RT+"communication.rs"],
   [("reference values select verifier, policies and key extractor", RT+"session.rs"), ("handshake completes once the session is open", RT+"handshake.rs")],
   ["CommunicationModule::process_in_message, take_out_messages"]),
  technique="runtime monitoring: real communication stack against random peer identities, independent attestation policy as oracle",
  level_note="Held on the identities produced. Oak's verifiers and sessions are a simulation of their contract (their crates are not available here)."),
 dict(id="C26", bin="rt", title="Replica channels are confidential, authentic, once-only and recover",
  statement="Whatever the untrusted host does to messages between replicas (delay, loss, repetition, tampering, redirection, forging), no content of a raft or snapshot message leaves a replica in the clear, a replica takes only contents that the claimed peer sent to it, each at most once, and nothing the host sends crashes or stops a replica. "
   "A message that does not decrypt disturbs nothing else. On a network that is fast and keeps messages (or reorders them within the window of three) every message arrives except superseded heartbeats, and once the host behaves again every pair of replicas that have something to say can do so, also after one of them restarted.",
  quantifier=q(ALLH, "all host behaviours, restarts, membership changes, role collisions and timings of handshakes"),
  why_tests_cant="Unit tests drive one module with mocked sessions through fixed steps; none connects two real modules or injects faults.",
  anchors=anchors([RT+"communication.rs", RT+"handshake.rs", RT+"encryptor.rs", RT+"session.rs"],
   [("handshake state machine per peer with retry and timeout", RT+"communication.rs"), ("unsent messages are kept until the handshake completes", RT+"communication.rs"),
    ("payloads encrypted by the session", RT+"encryptor.rs")],
   ["CommunicationModule::process_in_message, take_out_messages"]),
  technique="runtime monitoring: real communication stacks over a hostile simulated host, message ledger and plaintext canary",
  level_note="Held on the executions produced. Sessions are a simulation of Oak's contract. Envelope fields that Oak sessions do not cover (kind, delivery id) are not claimed to be authentic."),
 dict(id="C27", bin="rt", title="A snapshot transfer delivers the exact snapshot or fails",
  statement="A replica that assembles a snapshot from chunks gets exactly one which that leader sent to it, contents and metadata, however chunks and answers are lost, delayed, repeated by earlier transfers or damaged, and across changes of leader, term and membership, after which nothing of an earlier transfer is accepted. "
   "A leader reports a transfer as finished only if the receiver assembled it, as failed only if something went wrong, exactly once, respects the limit of chunks in flight, and always goes on while it may. Undisturbed transfers finish.",
  quantifier=q(ALLH, "all snapshot sizes, chunk sizes, limits, message losses and orders, leader and membership changes"),
  why_tests_cant="Unit tests send a few chunks in order by hand; they don't connect sender and receiver or lose anything.",
  anchors=anchors([RT+"snapshot.rs"], [("chunking and acknowledgement", RT+"snapshot.rs"), ("reset on cluster change", RT+"snapshot.rs")],
   ["SnapshotSender and SnapshotReceiver results"]),
  technique="runtime monitoring: real senders and receivers over a lossy simulated network, transfer ledger as oracle",
  level_note="Held on the executions produced; channels between replicas authenticate (C26)."),
 dict(id="C28", bin="rt", title="Raft storage keeps the log, hard state and latest snapshot",
  statement="After any history of appends, overwrites, hard states, created and installed snapshots, the storage returns exactly what was stored: entries (limited in size as asked), terms, first and last index, hard state and snapshot, with the errors raft-rs expects for what is compacted or not there. "
   "A snapshot is only installed if newer, never lowers the term, only serves peers it covers, requests that cannot be met are remembered, and a snapshot is asked for exactly when the log grew past its limit or a remembered request can be met.",
  quantifier=q(["histories", "inputs"], "all operation histories within raft's preconditions, all indices, sizes and limits"),
  why_tests_cant="Unit tests check single operations on short logs.",
  anchors=anchors([RT+"storage.rs"], [("MemoryStorage", RT+"storage.rs")], ["Storage and Store trait results"]),
  technique="runtime monitoring: randomized operation histories against the real storage, executable log model as online oracle",
  level_note="Held on the histories produced."),
 dict(id="C17", bin="cl", title="The replicated counter is linearizable",
  statement="Clients of a replicated Atomic Counter, whichever replicas they ask and whatever happens to messages, leaders, members and replicas meanwhile, see what a single counter would have shown them: there is an order of the operations which explains every answer and in which no operation comes before one that was answered before it was called; operations without an answer may or may not be in it. "
   "An operation that was rejected is never done, an answer means it was done, and each operation is answered at most once, by the replica that was asked.",
  quantifier=q(ALLH, "all concurrent client histories, leader changes, crashes of minorities, partitions, message faults, membership changes and snapshots"),
  why_tests_cant="Integration tests (Bazel only) sample a fixed sequence of operations without concurrent clients; linearizability is a statement about every history.",
  anchors=anchors([AC, RT+"driver.rs", RT+"consensus.rs", RT+"storage.rs", RT+"snapshot.rs"],
   [("events are proposed by the leader and applied when committed", RT+"driver.rs"), ("compare and swap", AC)],
   ["requests and responses of clients at the host boundary"]),
  technique=SIMC+" (offline linearizability checker over recorded client histories)", level_note=CLUSTER_NOTE),
 dict(id="C18", bin="cl", title="Replicas agree: one log, one state, one leader per term",
  statement="Whatever the hosts do, no two replicas commit different entries at an index or have different actor states after the same index; each replica applies every committed entry exactly once, in order and without gaps (a snapshot stands for the entries it covers), never goes back in term, commit or state, votes once per term, and no two replicas lead in the same term. Removed members and hosts' mistakes crash nobody.",
  quantifier=q(ALLH, "all host behaviours: delays, reordering, loss, repetition, tampering, partitions, clock skew, crashes, membership changes, snapshots of all sizes"),
  why_tests_cant="Driver tests mock raft, storage and communication; the two integration tests run a fixed benign schedule.",
  anchors=anchors([RT+"driver.rs", RT+"consensus.rs", RT+"storage.rs", RT+"communication.rs", RT+"snapshot.rs"],
   [("ready processing: snapshot, entries, hard state, messages, committed entries", RT+"driver.rs"), ("RaftSimple", RT+"consensus.rs")],
   ["Raft trait (a monitor wraps the real RaftSimple)", "Actor callbacks", "outgoing messages"]),
  technique=SIMC+" (online monitors of agreement, order and election safety)", level_note=CLUSTER_NOTE),
 dict(id="C19", bin="cl", title="What was acknowledged survives",
  statement="An operation whose client was told that it succeeded stays committed at its index and part of every later state of every replica, as long as a majority of each membership survives: through crashes of minorities, leader changes, partitions, snapshots and membership changes.",
  quantifier=q(ALLH, "all crash points and sequences of crashes that leave a majority, all histories"),
  why_tests_cant="No test crashes a replica.",
  anchors=anchors([RT+"driver.rs", RT+"consensus.rs", RT+"storage.rs"],
   [("entries and hard state are stored before messages are sent and outcomes reported", RT+"driver.rs")],
   ["client answers", "log and state of all replicas after the network has calmed down"]),
  technique=SIMC+" (durability ledger of acknowledged operations, audited on every replica)", level_note=CLUSTER_NOTE),
 dict(id="C20", bin="cl", title="Actors get every event exactly once and their answers leave exactly once",
  statement="Every command a host delivers reaches the actor once and unchanged; every event is applied by each replica at most once, at one index, in log order and exactly as it was proposed, and is marked as owned exactly on the replica that proposed it. "
   "Every command an actor gives out leaves its replica in the same call, once, unaltered and in order, and nothing else leaves in the actor's name.",
  quantifier=q(ALLH, "all commands, events, replies, leader changes, retransmissions and snapshots"),
  why_tests_cant="Unit tests apply one event on one mocked replica.",
  anchors=anchors([RT+"driver.rs", RT+"model.rs"],
   [("entry ids mark the proposing replica", RT+"driver.rs"), ("commands of outcomes are stashed and sent", RT+"driver.rs")],
   ["Actor callbacks", "DeliverAppMessage at the host boundary"]),
  technique=SIMC+" (exactly-once ledger of commands, events and replies)", level_note=CLUSTER_NOTE),
 dict(id="C22", bin="cl", title="A cluster with a live majority serves again once its hosts behave",
  statement="Whatever has happened before (loss, repetition, partitions, tampering, crashes of minorities, removals, failed handshakes and snapshot transfers), once messages are delivered and clocks advance, a leader is elected and every member catches up with it, by log or snapshot, within a bounded number of rounds; a command given to it is then committed and answered. No replica ever stops, panics or falls silent because of what its host sent. (Excepted: sessions whose whole handshake a host led to another replica than named stay with that one.)",
  quantifier=q(ALLH, "all histories leading to all reachable states of replicas, sessions, transfers and memberships with a live majority"),
  why_tests_cant="Needs the joint state of several replicas after long faulty histories; tests cover single steps.",
  anchors=anchors([RT+"driver.rs", RT+"communication.rs", RT+"snapshot.rs", RT+"consensus.rs"],
   [("ticks, handshake retries, snapshot cancellation, pre-vote", RT+"driver.rs")],
   ["rounds needed until all members agree", "answers to commands"]),
  technique=SIMC+" (bounded recovery monitor)", level_note=CLUSTER_NOTE+" Liveness is checked against a generous bound of calm rounds."),
 dict(id="C23", bin="cl", title="Hosts cannot make replicas accept what no replica said",
  statement="A replica's Raft takes a message only if the replica it claims to come from has sent exactly this message to it, and at most as often, even if the host passes one replica off as another from the handshake on. Raft messages and snapshots altered, redirected, repeated, replayed or forged by hosts, or sent by an application with another attestation, never change the log, term, vote, membership or state of a replica: such messages are dropped without effect on later genuine ones, and an impostor never receives an event or a snapshot.",
  quantifier=q(ALLH, "all alterations of envelopes and contents at all points of all histories, impostors joining through membership changes"),
  why_tests_cant="No test sends a tampered message through the real stack.",
  anchors=anchors([RT+"driver.rs", RT+"communication.rs", RT+"encryptor.rs", RT+"handshake.rs"],
   [("only decrypted messages of an open session reach raft", RT+"communication.rs")],
   ["Raft::make_step (messages as accepted)", "log, state and terms of all replicas"]),
  technique=SIMC+" (tampering hosts, agreement monitors)", level_note=CLUSTER_NOTE+" Envelope kind and delivery id are not authenticated by design."),
 dict(id="C24", bin="cl", title="Replicated secrets never leave a replica in the clear",
  statement="Contents of events, snapshots and replies' payloads appear in no message that a replica hands to its host for another replica, in no response about its state, and in no log entry of info level or above, whatever hosts and impostors do.",
  quantifier=q(ALLH, "all message types, snapshots, retransmissions, failed handshakes and log statements on all paths reached"),
  why_tests_cant="Needs the plaintext to be searched for in everything that leaves, on every path.",
  anchors=anchors([RT+"communication.rs", RT+"encryptor.rs", RT+"driver.rs", RT+"logger.rs"],
   [("payloads are encrypted before they are stashed", RT+"communication.rs")], ["everything passed to Host::send_messages"]),
  technique=SIMC+" (plaintext canaries searched in all output)", level_note=CLUSTER_NOTE+" Replies to clients are the actor's own, debug logs are excluded: the platform logs contents at debug level by design."),
 dict(id="C29", bin="cl", title="Snapshots keep logs short and stand exactly for what they replace",
  statement="A replica's log never holds more applied entries than the configured limit plus what one call adds; a snapshot that is installed is one that an actor saved at that index, bit for bit, together with the membership of that index; it never sets a replica back; the reported state (applied index, snapshot size) is true; a transfer whose chunks or receiver are lost fails and is retried rather than blocking.",
  quantifier=q(ALLH, "all histories, snapshot and chunk sizes, limits, losses, membership changes during transfers"),
  why_tests_cant="Unit tests mock snapshot processor and storage separately.",
  anchors=anchors([RT+"driver.rs", RT+"storage.rs", RT+"snapshot.rs"],
   [("maybe_create_raft_snapshot, restore_raft_snapshot", RT+"driver.rs"), ("snapshot sending and progress", RT+"driver.rs")],
   ["Actor snapshot callbacks", "GetReplicaStateResponse", "Raft trait"]),
  technique=SIMC+" (snapshot ledger)", level_note=CLUSTER_NOTE),
 dict(id="C30", bin="cl", title="Ephemeral replicas apply their events at once and alone",
  statement="An ephemeral replica applies each event its actor hands out in the same call, once, in order, unchanged, as owned and without a log index, and sends everything its actor answers; it never uses raft or snapshots. Requests that need replication are refused without effect and leave it working.",
  quantifier=q(["inputs", "histories"], "all sequences of commands, ticks and host messages before, during and after its life"),
  why_tests_cant="One unit test delivers one command.",
  anchors=anchors([RT+"driver.rs"], [("is_ephemeral paths", RT+"driver.rs")], ["Actor callbacks", "Host::send_messages", "Raft trait"]),
  technique="runtime monitoring: random host message sequences against the real driver, event queue and effect monitors",
  level_note="Held on the sequences produced."),
 dict(id="C31", bin="cl", title="A replica lives once, between start and stop",
  statement="An actor is initialised exactly once, at the first start, with its replica's id, configuration and the host's latest instant (which never goes back), gets callbacks only between start and stop, is told when time passes, and is shut down exactly once. Starts and stops are confirmed once. "
   "A message that doesn't fit (before start, after stop, second start, unknown) is ignored or refused: it never panics, changes or sends anything. If an actor's callback fails the replica ends with an error and sends nothing of that call.",
  quantifier=q(["inputs", "histories"], "all sequences of all host messages in all states, all callbacks at which the actor may fail"),
  why_tests_cant="Unit tests send single misplaced messages to a mocked replica.",
  anchors=anchors([RT+"driver.rs"], [("DriverState", RT+"driver.rs"), ("DriverContext", RT+"driver.rs")], ["Actor callbacks", "receive_message results", "Host::send_messages"]),
  technique="runtime monitoring: random host message sequences against the real driver, lifecycle monitor",
  level_note="Held on the sequences produced."),
 dict(id="C33", bin="cl", title="Membership changes and leadership are reported truthfully and applied once",
  statement="A membership change takes effect only if a host requested it, at the index it was committed at, on every replica alike; a request is answered as pending or rejected, and a rejected one never happens. A change is rejected unless the replica leads and none is pending. "
   "Every cluster check is answered; a leader reports exactly its members and term; a host is told of each change of leadership or membership of its replica by the end of the call in which it happened.",
  quantifier=q(ALLH, "all sequences of membership requests at any replica, elections, partitions, crashes, snapshots"),
  why_tests_cant="Unit tests make one accepted change on mocks; nothing compares reports with the actual membership.",
  anchors=anchors([RT+"driver.rs", RT+"consensus.rs"],
   [("make_raft_config_change_proposal, apply_config_change", RT+"driver.rs"), ("stash_leader_state", RT+"driver.rs")],
   ["ChangeCluster and CheckCluster responses", "Raft trait"]),
  technique=SIMC+" (membership ledger and report monitor)", level_note=CLUSTER_NOTE),
 dict(id="C36", bin="cl", title="A replica in lameduck mode gives way and goes on serving as a follower",
  statement="Once its host has put a replica into lameduck mode, it sends no heartbeats and starts no election, so that it leads no later term than that of an election already running, and stays in that mode. "
   "It still votes, replicates and applies. If the other members are a majority and settled, one of them leads within a bounded time, the lameduck catches up with it, and the cluster goes on without losing anything after it is turned off.",
  quantifier=q(ALLH, "lameduck mode entered at any moment in any role, during elections, membership changes, partitions and crashes of others"),
  why_tests_cant="No test enters lameduck mode.",
  anchors=anchors([RT+"driver.rs"], [("lameduck_mode, advance_raft", RT+"driver.rs")], ["EnterLameduckMode", "Raft trait", "CheckCluster responses"]),
  technique=SIMC+" (raft message monitor, bounded handover)", level_note=CLUSTER_NOTE),
]
