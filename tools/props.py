NOTES = ("No hooks in /repo: every source of nondeterminism is taken over by an overlay build (go build -overlay) of the "
         "Go runtime and standard library and by the seams mondis has (transport overlay, storage provider interface).")

PROPS = [
 dict(id="P01",
  title="Remote single-key operations are linearizable, also across lost connections",
  statement="Every completed Set, Get, Exists, Delete and Scan of any client takes effect atomically at one instant between its call and its return, and every read returns the value of the latest write in that order. An operation that failed because its connection was lost took effect at most once or not at all, and an operation the server refused had no effect.",
  over=["schedules", "fault_sequences", "histories"],
  qtext="all interleavings of any number of clients and server handlers, and all sequences of connection resets, partitions, stalls and delays",
  why="The existing tests issue a few sequential calls from one client over a healthy connection; they never interleave clients nor lose a connection mid-request.",
  files=["client/client.go", "server/common.go", "server/server.go", "server/cmd_set.go", "server/cmd_get.go", "server/cmd_scan.go", "provider/badger.go"],
  mech=[("request handling", "server/common.go handleSet, handleGet, handleDelete, handleExists, handleScan"), ("response decoding", "client/client.go parse*Resp")],
  observe=["mondis.go Client: results of Set, Get, Exists, Delete, Scan"],
  oracle="linearizability checking of the recorded client history",
  note="1-4 clients, 2-6 keys, some 10-40 operations per run over a simulated network with resets, partitions, stalls, delay and fragmentation; histories are decided exactly by a linearizability search."),
 dict(id="P02",
  title="Transactions are atomic and isolated",
  statement="Every committed transaction of any client behaves as if it ran alone at one instant between its start and the return of its commit (strict serializability): its reads, scans and writes fit one total order with all other operations, and it sees its own earlier writes. A transaction that was refused, rolled back, abandoned (its function failed or panicked) or lost before its commit was sent leaves no effect, and nothing of one transaction leaks into another.",
  over=["schedules", "fault_sequences", "histories"],
  qtext="all interleavings of concurrent read-write and read-only transactions and single operations, and all connection losses and storage failures in between",
  why="Unit tests run one short transaction at a time; lost updates, dirty reads and mixed-up frames of one stream need particular interleavings and multi-frame sequences.",
  files=["client/client_txn.go", "client/client.go", "server/common.go", "provider/badger_txn.go", "kv/util.go"],
  mech=[("streamed transaction", "server/common.go handleCmd* and the transaction kept in the stream"), ("commit/discard", "client/client_txn.go Commit, Discard"), ("retry loop and callbacks", "client/client.go Update, View")],
  observe=["mondis.go Client: Update, View, NewTransaction and the operations of the transaction"],
  oracle="strict serializability checking of the recorded history, and a count of transactions left open",
  note="2-4 clients, transactions of up to 8 operations, aborts, storage failures, connection faults; histories are decided exactly by a search for a strict serial order."),
 dict(id="P03",
  title="A scan returns exactly the matching entries of one snapshot, in order",
  statement="A scan with any prefix, start offset, limit and direction returns, in key order (reversed if asked), exactly the first limit entries of the store that carry the prefix and lie at or after the offset, each once and with its own value, and nothing else. This holds for every storage provider, inside and outside of transactions, and while other clients write.",
  over=["inputs", "schedules", "histories"],
  qtext="all scan options and key sets including empty, binary and prefix-related keys, under all interleavings with concurrent writers",
  why="Tests scan one fixed key set forwards; offsets outside of the prefix, reverse scans, limits, 0xff bytes and concurrent writers are never combined.",
  files=["provider/badger.go", "provider/badger_txn.go", "provider/leveldb.go", "server/common.go", "client/client.go", "kv/util.go"],
  mech=[("iterator set-up", "provider/badger.go scan, provider/leveldb.go Scan"), ("page of entries", "server/common.go handleScan"), ("key arithmetic", "kv/key.go")],
  observe=["mondis.go Client Scan; provider.go KVDB and ProviderTxn Scan"],
  oracle="every scan is one atomic read of its whole key range in the linearizability search",
  note="All providers and the remote path; keys drawn from a small alphabet with 0x00/0xff bytes and shared prefixes; forward and reverse, offsets inside and outside of the prefix, limits 1..n."),
 dict(id="P04",
  title="Acknowledged writes survive a crash, and unfinished ones are all-or-nothing",
  statement="After the process is killed at any point, or the machine loses power, the store opens again and contains every write, batch and transaction that was acknowledged before, and nothing that was never written. A batch or transaction in flight at the crash is there completely or not at all.",
  over=["crash_points", "schedules", "histories"],
  qtext="all points between two effects on the disk (including inside a write), repeated over several restarts, for all concurrent workloads",
  why="No test ever kills the process; crash points between and inside writes cannot be reached from the public API.",
  files=["provider/badger.go", "provider/badger_txn.go", "provider/badger_wb.go", "provider/leveldb.go", "provider/leveldb_wb.go", "server/server.go"],
  mech=[("store options", "provider/badger.go Open, provider/leveldb.go Open"), ("commit", "provider/badger_txn.go Commit, provider/*_wb.go Commit"), ("close", "server/server.go Stop, provider/* Close")],
  observe=["contents of the reopened store through Get and Scan"],
  oracle="linearizability of the history across crashes, with unacknowledged operations optional but atomic",
  note="Crashes at every kind of file-system call, torn and lost (unsynced) writes, up to four restarts; LevelDB is opened without sync writes, so it is only subjected to process crashes, not to power loss; value-log tears are drawn rarely because a known finding of Badger 1.6 ends such runs."),
 dict(id="P05",
  title="Values expire when their time to live is over, never before, and keep their tag",
  statement="A value written with a time to live stays visible to Get, Exists and Scan, inside and outside of transactions and across restarts, until its time to live ends on the server's clock (rounded down to whole seconds), and is never visible afterwards. A value written without one never expires, and a later write or deletion of the key replaces value, expiry and tag together. Get and Scan report the expiry time and the tag the value was written with.",
  over=["inputs", "schedules", "histories"],
  qtext="all times to live and tags, all interleavings of writers and readers with the passage and jumps of the clock, and restarts in between",
  why="Tests cannot wait for expiry nor move the clock; expiry interacts with transactions, overwrites and restarts only over simulated time.",
  files=["provider/badger_txn.go", "provider/badger.go", "server/common.go", "client/client.go", "client/client_txn.go"],
  mech=[("entry meta", "provider/badger_txn.go Set, Get; provider/badger.go scanByBadgerTxn"), ("meta on the wire", "server/common.go metaFromSetRequest, handleGet, handleScan; client/client.go setReq2PB, parseGetRespFromFrame")],
  observe=["mondis.go Client and provider.go ProviderTxn: Get, Exists, Scan and the VMetaResp they return"],
  oracle="every observation must be explained by the writes of the key and the clock at that time",
  note="Simulated clock with forward and backward jumps; one writer per key, any number of readers, 1-3 process lifetimes; remote and direct use of the Badger provider (LevelDB refuses meta)."),
 dict(id="P06",
  title="Clients survive lost connections and server crashes",
  statement="Whatever happens to its connections, every call of a client returns within bounded time after the network and the server work again, never panics, and never returns the reply of another request; afterwards the same client works again without being recreated. A transaction whose connection is lost reports an error, has no effect unless its commit had been sent, and is released on the server.",
  over=["fault_sequences", "schedules", "histories"],
  qtext="all sequences of resets, mid-frame cuts, stalls, partitions, refusals and server crashes, at every point of calls, transactions and idle phases of clients that may share a connection",
  why="Tests only use a healthy loopback connection; mid-frame loss, reconnect races and concurrent calls on a dying connection are never reached.",
  files=["client/client.go", "client/client_txn.go", "server/common.go", "server/server.go"],
  mech=[("reconnecting connection", "client/client.go New"), ("lost stream", "client/client_txn.go getRespFrame"), ("abandoned transaction", "server/common.go handleTxnContinuedFrame")],
  observe=["mondis.go Client results and return times; transactions open in the storage provider"],
  oracle="bounded return, linearizability of what was acknowledged, and no transaction left open",
  note="2-6 clients, half of the runs over one shared connection; server crashes keep exactly what had reached the file system. A wedge inside the third-party transport is listed as a known finding."),
 dict(id="P07",
  title="Storage failures are reported to exactly the request they hit",
  statement="If the storage fails a request, the client that issued it gets that error for that request, with its message and, for a missing key or a too big transaction, as the documented error value; no request reports success although its storage operation failed, and no other request reports the failure. A refused operation leaves no effect, later requests on the same connection or transaction work normally, and what was acknowledged despite failing disks is found again on a healthy one.",
  over=["fault_sequences", "schedules", "histories"],
  qtext="all placements of storage errors on any operation of any request or transaction, too big transactions, and disk errors (EIO, ENOSPC, short writes, failing fsync and reads) under the storage",
  why="The tests never see the storage fail; every error path of the server, the client and the providers is untested.",
  files=["server/common.go", "server/cmd_get.go", "server/cmd_set.go", "server/cmd_scan.go", "server/cmd_delete.go", "server/cmd_exists.go", "client/client.go", "client/client_txn.go", "client/pberror.go", "provider/leveldb.go", "provider/badger.go"],
  mech=[("error codes", "server/common.go handle*, server/code.go"), ("error decoding", "client/client.go parse*RespFromFrame"), ("scan errors", "provider/*.go Scan")],
  observe=["errors returned by mondis.go Client and Txn, and by provider.go KVDB"],
  oracle="every injected failure carries a number that must surface in exactly one client error, plus linearizability",
  note="Numbered failures at every provider operation and real too-big transactions over a healthy network; disk errors under LevelDB at every kind of call, under Badger only on value-log writes (Badger 1.6 itself corrupts its tables and manifest otherwise)."),
 dict(id="P08",
  title="Stopping and restarting a server loses nothing and terminates",
  statement="Stopping a server while clients are using it terminates, never crashes the process, and leaves every request either fully applied or not at all: what was acknowledged before or during the stop is found after the restart, and nothing else was corrupted. After a new server serves the same data, existing clients work again. Start reports a store that cannot be opened and an address that cannot be used, and Stop reports a store that fails to close.",
  over=["schedules", "histories"],
  qtext="all points of running requests and transactions at which the server is stopped and restarted, several times in a row",
  why="The tests never stop a server that is in use.",
  files=["server/server.go", "server/common.go", "provider/badger.go", "provider/leveldb.go"],
  mech=[("shutdown order", "server/server.go Stop"), ("open transactions at shutdown", "server/common.go handleTxnContinuedFrame")],
  observe=["KVServer Start and Stop, and the results of concurrent clients"],
  oracle="bounded termination, no panic, linearizability across restarts",
  note="1-3 stops per run at arbitrary points under 1-5 clients, Badger and LevelDB. Wedges inside the third-party transport during shutdown are known findings."),
 dict(id="P09",
  title="Lists stay exact under concurrent transactions, failures and crashes",
  statement="Every committed transaction on the lists of a structure sees and leaves exactly what it would on plain in-memory lists, in one total order of all transactions: pushes and pops at both ends, length, index access (also negative), set, ranges and clear, for any number of lists under any prefixes. No element is lost, duplicated, reordered or visible in another list; a transaction that failed or was cut off by a crash left all of its effects or none, and storage errors are reported.",
  over=["schedules", "fault_sequences", "histories"],
  qtext="all interleavings of transactions over shared lists, all placements of storage failures and process crashes",
  why="The tests run short sequences of one goroutine; concurrent pushes and pops, failing storage and crashes between the element and the meta data writes are never reached.",
  files=["structure/list.go", "structure/structure.go", "structure/keys.go"],
  mech=[("list meta data and elements", "structure/list.go listPush, listPop, LIndex, LSet, LClear"), ("key layout", "structure/keys.go")],
  observe=["structure.TxStructure list methods inside mondis transactions"],
  oracle="strict serializability of all transactions against an in-memory model of lists",
  note="1-4 goroutines, up to some 20 transactions each over 1-3 lists under 1-2 prefixes, on Badger; numbered storage failures, conflicts, process crashes with restart."),
 dict(id="P10",
  title="Hashes, strings and counters stay exact under concurrency, failures and crashes",
  statement="Every committed transaction on the hashes and string values of a structure sees and leaves exactly what it would on plain in-memory maps, in one total order of all transactions: set, get, delete, counters (Inc, HInc), length, keys, whole contents and clear, for any keys and fields, including empty values and keys that are prefixes of one another. The length always equals the number of fields; nothing leaks between keys, kinds or prefixes; failed or cut-off transactions leave all of their effects or none, and storage errors are reported.",
  over=["schedules", "fault_sequences", "histories"],
  qtext="all interleavings of transactions over shared hashes, strings and counters, all placements of storage failures and process crashes",
  why="The tests run short sequences of one goroutine; concurrent increments, failing storage and crashes between field and meta data writes are never reached.",
  files=["structure/hash.go", "structure/string.go", "structure/structure.go", "structure/keys.go"],
  mech=[("hash fields and field count", "structure/hash.go updateHash, HDel, HClear"), ("counters", "structure/string.go Inc, structure/hash.go HInc"), ("key layout", "structure/keys.go")],
  observe=["structure.TxStructure string and hash methods inside mondis transactions"],
  oracle="strict serializability of all transactions against an in-memory model of hashes and strings",
  note="1-4 goroutines, up to some 20 transactions each over a few hashes, strings and counters; numbered storage failures, conflicts, process crashes with restart."),
 dict(id="P11",
  title="Sequences never hand out a number twice and never go backwards",
  statement="However many goroutines and sequence objects use a sequence, whatever storage failures and crashes happen in between, no number is handed out twice unless it was put back, numbers never go back behind those handed out before, and gaps appear only where a lease was abandoned. NextN hands out whole consecutive blocks, Release returns the unused rest, Next prefers the numbers that were put back, a failed call hands out nothing, and sequences of different keys or fields do not affect one another.",
  over=["schedules", "fault_sequences", "histories"],
  qtext="all interleavings of Next, NextN, PutBack, Renew, Release and Clear by several goroutines and objects, all placements of storage failures and crashes",
  why="The tests call Next on one object from one goroutine; renewals under failures, concurrent renewals by several objects and crashes inside a lease are never reached.",
  files=["document/meta/sequence/sequence.go", "document/meta/sequence/string.go", "document/meta/sequence/hash.go", "document/meta/did_sequence.go", "document/sequence.go", "document/dml/sequence.go"],
  mech=[("lease of numbers", "document/meta/sequence Renew, Next, NextN"), ("numbers put back", "document/meta/sequence PutBack"), ("legacy sequence", "document/sequence.go updateLease, ReleaseRemaining")],
  observe=["numbers returned by Next and NextN of the sequence packages"],
  oracle="uniqueness, order and gap rules over the recorded history of all numbers handed out",
  note="1-4 goroutines over shared sequence objects or several objects of one key, all three implementations; storage failures, process crashes with restart."),
 dict(id="P12",
  title="Document operations are serializable and survive failures and crashes",
  statement="Every operation and transaction on documents (insert with automatic or chosen id, update, upsert, delete, delete all, reads, counts, id ranges) behaves as if it ran alone at one instant: no document is lost, duplicated, changed or visible in another collection, automatic ids are never used twice, results tell what really happened, and a document is returned as it was stored, while one that cannot be stored is refused without effect. A transaction that was rolled back, failed or cut off by a crash leaves no effect or all; a transaction older than a collection cannot use it and says so; storage errors are reported.",
  over=["schedules", "fault_sequences", "histories"],
  qtext="all interleavings of concurrent operations and transactions over several collections, also while others are being created, all placements of storage failures and process crashes",
  why="The tests insert a handful of documents from one goroutine; concurrent transactions, failing storage, crashes and collections that appear while transactions run are never reached.",
  files=["document/dml/collection.go", "document/dml/db.go", "document/dml/base.go", "document/dml/sequence.go", "document/dml/keys.go", "document/txn/txn.go", "document/domain/domain.go"],
  mech=[("document operations", "document/dml/collection.go"), ("automatic ids", "document/dml/sequence.go"), ("transactions bound to a schema version", "document/txn/txn.go")],
  observe=["document/dml Collection results", "document/domain Domain"],
  oracle="strict serializability of all transactions against an in-memory model of collections",
  note="1-4 goroutines over 1-5 collections in up to 3 databases, transactions of up to 5 operations; numbered storage failures, too big transactions, process crashes with restart. One Domain per process (the package keeps global tables)."),
 dict(id="P17",
  title="The schemaless document database is serializable and closes cleanly",
  statement="Every operation and transaction on documents of document.DB behaves as if it ran alone at one instant, automatic ids are never used twice, and creating, dropping and listing index definitions is linearizable: names and column sets stay unique, unusable names and definitions are refused, and definitions are returned unchanged, also after a restart. Failed or cut-off operations leave no effect or all, storage errors are reported, and Close waits for running operations, refuses later ones and leaves a database that opens again with everything in it.",
  over=["schedules", "fault_sequences", "histories"],
  qtext="all interleavings of concurrent operations, transactions, index changes and Close, all placements of storage failures and process crashes",
  why="The tests insert a few documents and create an index from one goroutine; concurrent use, failing storage, crashes and Close under load are never reached.",
  files=["document/collection.go", "document/db.go", "document/sequence.go", "document/keys.go"],
  mech=[("document operations", "document/collection.go"), ("index definitions", "document/collection.go CreateIndex, DropIndex, getIndexes"), ("close", "document/db.go Close")],
  observe=["document.Collection and document.DB results"],
  oracle="strict serializability of all transactions against an in-memory model of collections and index definitions",
  note="1-4 goroutines over 1-3 collections; numbered storage failures, too big transactions, process crashes with restart, Close and reopening under load. Index definitions only: the code does not maintain index data."),
 dict(id="P13",
  title="Concurrent schema changes are serialized, complete and visible when reported",
  statement="CreateSchema is linearizable: of any number of concurrent calls for a name exactly one succeeds, the others are told that the database exists, and the database is defined exactly as the winner asked, with every collection and index, globally unique ids and public state; what cannot be created as asked (names or definitions that are empty, repeated or not UTF-8, a queue that is full) is refused and leaves nothing. When a call returns success the schema cache already shows the database and documents can be stored in it; a call gives up when its deadline has passed, and the queue of jobs is always worked off. The cache never shows half a database nor goes back, the schema version counts the changes and each version's diff tells its change.",
  over=["schedules", "histories", "inputs"],
  qtext="all interleavings of concurrent CreateSchema calls with each other, with the DDL worker and cache reload, with document operations and with observers of the cache",
  why="The tests create a database once, alone. Two callers, a watcher in the middle of a change, indices, a deadline that expires while the job runs, are never reached.",
  files=["document/ddl/ddl.go", "document/ddl/ddl_api.go", "document/ddl/ddl_worker.go", "document/meta/meta.go", "document/schema/metacache.go", "document/schema/handle.go", "document/domain/domain.go", "document/model/model.go"],
  mech=[("job queue and worker", "document/ddl/ddl_worker.go"), ("CreateSchema", "document/ddl/ddl_api.go"), ("schema cache", "document/schema/metacache.go ApplyDiffs"), ("reload", "document/domain/domain.go")],
  observe=["document/ddl DDL.CreateSchema", "document/schema MetaCache", "document/meta Meta catalog and job history"],
  oracle="checks of the recorded calls and cache observations against the final catalog, job history and schema diffs",
  note="1-5 goroutines, up to 8 database names, 0-3 collections with 0-2 indices, impossible schemas, deadlines, now and then a flood of some 100 calls that fills the job queue, simulated time up to minutes; the final catalog, history, diffs and cache are compared exactly."),
 dict(id="P14",
  title="Schema changes survive crashes and storage failures, all or nothing",
  statement="A schema change that was reported as done survives any later crash; one that was in progress at a crash or a storage failure is either completed or leaves nothing, and is never done twice. After a restart, and once a failing storage works again, Domain.Init succeeds, the remaining jobs are worked off, new schema changes succeed, and catalog, schema version, diffs, job history and schema cache agree. A failure reported to a caller has a cause.",
  over=["crash_points", "fault_sequences", "schedules"],
  qtext="all crash points between any two storage operations, including a second crash during recovery, all placements of storage failures in Init, the DDL worker and the callers",
  why="The tests never restart in the middle of a schema change and their storage never fails.",
  files=["document/ddl/ddl.go", "document/ddl/ddl_api.go", "document/ddl/ddl_worker.go", "document/meta/meta.go", "document/domain/domain.go", "util/util.go"],
  mech=[("job worker", "document/ddl/ddl_worker.go"), ("bootstrap and init", "document/domain/domain.go Init"), ("catalog", "document/meta/meta.go")],
  observe=["document/domain Domain.Init", "document/ddl DDL.CreateSchema", "document/meta Meta catalog and job history"],
  oracle="checks of the recorded calls against the recovered catalog, job history, schema diffs and cache",
  note="1-5 goroutines, numbered storage failures and outages, process crash at a chosen storage operation, a second crash during recovery; then recovery and new schema changes without faults."),
 dict(id="P15",
  title="A transaction commits only if the schema of its collections is unchanged",
  statement="A transaction of the document database that refers to a collection whose schema has changed since the transaction began is refused with ErrDDLConflict and leaves no effect; one whose collections did not change is not refused while the changes since its start are still known. Every schema cache is an immutable picture of exactly one schema version and is published atomically; the domain's cache only moves forward and follows changes made by other servers within its lease, and checks and updates of the cache never block for ever.",
  over=["schedules", "histories", "fault_sequences"],
  qtext="all interleavings of transactions with schema changes published as diffs or as full loads, any number of versions between start and commit, changes by other servers, lost diffs, storage failures",
  why="The one existing test checks a single transaction against a handle from one goroutine; conflicts after several diffs, after forgotten diffs, while a publication is in progress, and the reload loop are never reached.",
  files=["document/schema/handle.go", "document/schema/metacache.go", "document/txn/txn.go", "document/domain/domain.go"],
  mech=[("conflict check", "document/schema/handle.go Check"), ("diffs", "document/schema/metacache.go ApplyDiffs, Clone"), ("commit", "document/txn/txn.go Commit"), ("reload", "document/domain/domain.go reloadSchema, reloadInLoop")],
  observe=["document/txn Txn.Commit", "document/schema Handle.Check and MetaCache", "document/domain Domain.DB"],
  oracle="interval check of every commit against the recorded publications, content of every cache against the version it claims",
  note="1-3 transaction clients against one writer, up to some hundred versions per run; a domain that follows another server through the real catalog with leases of 50 ms to 1 s of simulated time and storage failures."),
 dict(id="P16",
  title="The schema catalog and its job queues are serializable and crash-safe",
  statement="Every transaction on the catalog (global ids, schema version and diffs, databases, collections, both DDL job queues, job history, reorganisation handles, bootstrap mark) behaves as if it ran alone at one instant against a plain model of that catalog: ids are never generated twice, databases and collections are created, changed and dropped only if they may be, queues are first in first out, the history is complete and in order, and every object is returned as it was stored. A failed, refused or cut-off transaction leaves no effect, and storage errors are reported.",
  over=["schedules", "fault_sequences", "histories", "inputs"],
  qtext="all interleavings of concurrent catalog transactions, all placements of storage failures and process crashes, all sequences of catalog operations",
  why="The tests walk through the catalog once, alone and without faults, and never look at most of its operations.",
  files=["document/meta/meta.go", "document/model/model.go", "structure/hash.go", "structure/list.go"],
  mech=[("catalog", "document/meta/meta.go"), ("job and diff encoding", "document/model/model.go")],
  observe=["document/meta Meta: results of every operation"],
  oracle="strict serializability of all transactions against an in-memory model of the catalog",
  note="1-3 goroutines, transactions of 1-5 catalog operations over few ids; numbered storage failures, process crashes with restart."),
 dict(id="P18",
  title="The transaction helpers commit, cancel and release exactly as promised",
  statement="RunInNewUpdateTxn and its variants run the function once and commit if and only if it succeeds; the function's error is returned unchanged, the cancel function runs exactly when the commit failed, the callback exactly when it succeeded, and the transaction is released on every path, also when the function panics, while a transaction of RunInNewTxn cannot write. TryCommitWhenTxnTooBig commits what fits and continues in a new transaction, loses and repeats nothing, returns the transaction its caller has to finish and gives up after a bounded number of tries. All of it stays serializable and all or nothing per transaction under failures and crashes.",
  over=["schedules", "fault_sequences", "histories"],
  qtext="all interleavings of concurrent helper calls, all placements of storage failures, too big transactions, conflicts, panics and crashes",
  why="The helpers have no tests at all; their error paths need conflicts, failing commits and transactions that become too big.",
  files=["util/util.go", "kv/util.go", "provider/badger_txn.go"],
  mech=[("helpers", "util/util.go")],
  observe=["util.RunInNewUpdateTxn, RunInNewUpdateTxnWithCancel, RunInNewUpdateTxnWithCallback, RunInNewTxn, TryCommitWhenTxnTooBig"],
  oracle="strict serializability of all transactions against an in-memory model, and counts of calls, cancels, callbacks and open transactions",
  note="1-3 goroutines, up to 12 operations per transaction, injected ErrTxnTooBig, storage failures, conflicts, panics, process crashes."),
 dict(id="P19",
  title="No sequence of frames from one client harms the server or other clients",
  statement="Whatever frames a client sends - malformed, unknown, unexpected, duplicated, cut short, pipelined, with any flags, read or never read - the server keeps running, answers no malformed request with success, gives it no effect, and serves all other clients as if it was not there. A transaction of which a malformed frame, a cancellation or the loss of the connection was seen before its commit has no effect, and every transaction is released once its connection is gone. Well-formed requests have exactly the effect they have when the client library sends them.",
  over=["inputs", "schedules", "fault_sequences", "histories"],
  qtext="all sequences of frames on any number of connections, and all their interleavings with well-behaved clients",
  why="The tests only use the client library, which never sends such frames, and never run a second client next to it.",
  files=["server/common.go", "server/server.go", "server/cmd_set.go", "server/cmd_get.go", "server/cmd_exists.go", "server/cmd_delete.go", "server/cmd_scan.go"],
  mech=[("decoding and refusal of requests", "server/cmd_*.go, server/common.go handleTxnContinuedFrame"), ("end of a transaction", "server/common.go handleTxnContinuedFrame and the deferred Discard in server/cmd_*.go")],
  observe=["frames the server sends; mondis.go Client of other clients; open transactions of the store"],
  oracle="linearizability of the history of all clients, in which malformed requests have no effect, the verdicts of the responses, and a count of transactions left open",
  note="1-3 clients of the library next to 1-3 raw clients with up to some 20 frames each, over a simulated network with faults. Frames after the end of their stream are not generated: qrpc blocks the reader of that connection on them."),
 dict(id="P20",
  title="The encodings of keys and values are reversible and keep the order",
  statement="Every encoded number, byte string and float decodes to itself and leaves what follows it untouched, for any number of encoded parts in a row. The order-preserving encodings compare like what they encode, no encoded byte string is a prefix of another, and the next key or next prefix of a key is the smallest one behind it or, where there is one, behind all keys it is a prefix of.",
  over=["inputs"],
  qtext="all numbers, floats, byte strings and sequences of them",
  why="The tests compare a few dozen values; the groups of eight bytes, sign bits and 0xff carries have far more cases.",
  files=["kv/memcomparable/bytes.go", "kv/memcomparable/number.go", "kv/memcomparable/float.go", "kv/compact/number.go", "kv/compact/bytes.go", "kv/numeric/binary.go", "kv/numeric/human.go", "kv/key.go"],
  mech=[("groups of eight bytes with a marker", "kv/memcomparable/bytes.go"), ("sign bit", "kv/memcomparable/number.go"), ("next key and next prefix", "kv/key.go")],
  observe=["functions of kv, kv/memcomparable, kv/compact and kv/numeric"],
  oracle="", note="",
  na="pure functions without concurrency, time, I/O or a second party: there is no schedule and no fault to simulate, so nothing of it is decided by this family (property-based testing or proof would be the fitting technique). What the storage layouts need of the encodings is exercised through P09, P10, P12, P16 and P17."),
]
