#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept in git; this file is its source).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Both storage providers behave as a key-value map",
  "For every history of set, get, exists and delete, the Badger and the LevelDB provider answer like an in-memory map: the last write wins, absent keys report key-not-found, deleting an absent key succeeds and empty or nil values still exist. On Badger a stored tag comes back unchanged, a zero TTL never expires and a positive TTL reports its expiry time and makes the key vanish once it has passed; LevelDB refuses metadata instead of dropping it. An operation on a key that a provider does not accept reports an error and changes nothing.",
  ["histories","inputs"],"every operation sequence up to the bound over colliding keys, value shapes and metadata, on real databases",
  "the suite sets one key per provider; ordering, overwrites, metadata and absent-key answers have to agree for every sequence",
  ["provider/badger.go","provider/badger_txn.go","provider/leveldb.go"],
  [("direct operations","provider/badger.go Set/Get/Exists/Delete; provider/leveldb.go"),("transactional operations","provider/badger_txn.go")])
p("P02","Scans deliver exactly the requested range, in order, once",
  "A scan delivers exactly the live entries that carry the prefix and lie at or after the offset (at or before it when reversed), each once, with its current value and metadata, in key order (descending when reversed), and stops as soon as the callback declines. Inside a transaction it sees that transaction's own pending writes and deletes. This holds for every combination of direction, prefix and offset, including offsets outside the prefix; LevelDB refuses reversed scans with an error.",
  ["inputs","histories"],"every combination of prefix, offset, direction and stop position over every small database content, with and without pending transaction writes, on both providers",
  "there are far more option and content combinations than tests; boundary offsets and reversed prefixes are the ones that go wrong",
  ["provider/badger.go","provider/leveldb.go","provider/badger_txn.go"],
  [("badger iteration","provider/badger.go scanByBadgerTxn"),("leveldb iteration","provider/leveldb.go Scan")])
p("P03","Transactions are atomic, isolated and conflict-checked",
  "Under every interleaving of concurrent transactions, a transaction reads its own writes on top of one consistent snapshot taken when it began, its writes become visible all together at commit and never if it is discarded or fails, and the committed transactions are equivalent to running one after another with respect to the keys they read and wrote. A read-only transaction cannot change anything.",
  ["schedules","histories"],"all operation-level interleavings of two and three transactions with colliding keys on the real Badger provider",
  "the order in which transactions begin, read, write and commit is chosen by the scheduler; tests run one order",
  ["provider/badger.go","provider/badger_txn.go"],
  [("transaction wrapper","provider/badger_txn.go"),("transaction creation","provider/badger.go NewTransaction")])
p("P04","Write batches apply completely and in order, or not at all",
  "Committing a write batch makes all of its sets and deletes visible with the last operation per key winning, over whatever was stored before; for a batch that fits one storage transaction nothing is visible before commit and a discarded batch leaves the database unchanged. Two batches, or a batch and direct writes, never mix their contents.",
  ["histories","inputs"],"every batch content up to the bound, interleaved with direct reads and writes and a second batch, on both providers",
  "tests commit one fixed batch; intra-batch order, visibility before commit and discard need every combination",
  ["provider/badger_wb.go","provider/leveldb_wb.go","provider/badger.go","provider/leveldb.go"],
  [("badger batch","provider/badger_wb.go"),("leveldb batch","provider/leveldb_wb.go")])
p("P05","Acknowledged writes survive close, reopen and crash",
  "Whatever a provider acknowledged (a direct write, a committed transaction, a committed batch) is still there after the database is closed and reopened and after the process dies at any point of the history, and recovery never shows part of a transaction (or of a batch that fits one), nor anything that was discarded. For Badger the acknowledgement means the data has been forced to stable storage, so this also holds for loss of the machine. A directory is open in at most one provider at a time: further attempts to open it are refused and disturb nothing.",
  ["crash_points","histories"],"every crash point between the operations of every history up to the bound, and torn tails of the last unacknowledged write",
  "a crash cannot be placed by a unit test, and the state on disk at each point must be recovered to be judged",
  ["provider/badger.go","provider/leveldb.go","provider/badger_wb.go","provider/leveldb_wb.go"],
  [("open options","provider/badger.go Open, provider/leveldb.go Open"),("commit","provider/badger_txn.go Commit; batches")])
p("P06","Hash structures behave as maps of fields",
  "For every history of hash operations in a transaction, a stored hash is a map from field to value: reads return the last value set (empty values included), counters add exactly their step, the reported length equals the number of fields, listings are complete and ordered by field (reversed when asked), and a cleared or emptied hash leaves nothing behind in the store.",
  ["histories","inputs"],"every reachable store state and every operation sequence up to the depth bound over colliding fields, values and keys",
  "length bookkeeping and field data are separate records that must agree after every sequence, not after the one a test performs",
  ["structure/hash.go","structure/keys.go"],
  [("field update and count","structure/hash.go updateHash, HDel, HClear"),("iteration","structure/hash.go iterateHash, iterateReverseHash")])
p("P07","List structures behave as double-ended queues",
  "For every history of pushes, pops, indexed reads and writes and clears, a stored list equals a double-ended queue: order, length, positive and negative indexes and pop results agree, popping or indexing an absent list reports not found, out-of-range writes are refused, and an emptied list leaves nothing behind in the store.",
  ["histories","inputs"],"every reachable store state and operation sequence up to the depth bound, over lists grown from both ends",
  "index arithmetic around the ends depends on the whole push/pop history",
  ["structure/list.go","structure/keys.go"],
  [("push/pop","structure/list.go listPush, listPop"),("indexing","structure/list.go adjustIndex, LIndex, LSet")])
p("P08","Structure values and namespaces never interfere",
  "String values and counters return exactly what was last stored, and a counter equals the sum of its steps starting from zero. Operations on one string, hash or list, under one key and one prefix, never change or reveal any other: different kinds under the same key, keys that extend each other or contain zero or 0xFF bytes, and prefixes neither of which extends the other, stay independent.",
  ["histories","inputs"],"every operation sequence up to the bound mixing kinds, keys chosen to be prefixes of each other, and namespaces",
  "interference shows only for particular pairs of keys and kinds; a test touches a few",
  ["structure/string.go","structure/keys.go","structure/hash.go","structure/list.go","kv/util.go"],
  [("key layout","structure/keys.go"),("integers","kv/util.go IncInt64, kv/numeric/human.go")])
p("P09","Ordered encodings preserve order and round-trip",
  "For all byte strings, signed and unsigned integers, 8-bit integers and floating point numbers (no NaN), comparing two ascending encodings byte-wise gives the same result as comparing the values, comparing descending encodings gives the opposite, decoding returns the value and exactly the bytes that followed it, and whatever was already in the output buffer is preserved. No encoding is a prefix of another's, so concatenated fields keep tuple order.",
  ["inputs"],"all value pairs from an exhaustive small alphabet and all boundary patterns, each direction, each following suffix",
  "order preservation is a statement about pairs of values across group, sign and padding boundaries",
  ["kv/memcomparable/bytes.go","kv/memcomparable/number.go","kv/memcomparable/float.go"],
  [("byte groups","kv/memcomparable/bytes.go"),("numbers","kv/memcomparable/number.go, float.go")])
p("P10","Decoders accept exactly valid input and never crash",
  "Decoding any byte string with the ordered, compact, numeric or key decoders either fails with an error or yields a value together with the unread remainder; it never panics and never reads past its input, and truncated or corrupted encodings (bad padding, bad length, missing bytes) are rejected. Compact and numeric encodings round-trip for every value and leave the remainder intact.",
  ["inputs"],"every byte string up to the length bound over a boundary alphabet, every truncation and every single-byte corruption of valid encodings",
  "malformed input space is far larger than the handful of valid inputs in tests",
  ["kv/memcomparable/bytes.go","kv/memcomparable/number.go","kv/compact/bytes.go","kv/compact/number.go","kv/numeric/binary.go","kv/numeric/human.go","document/dml/keys.go","document/keys.go"],
  [("byte decoding","kv/memcomparable/bytes.go decodeBytes; kv/compact/bytes.go DecodeBytes"),("numeric","kv/numeric")])
p("P11","Storage keys of documents and indexes never collide",
  "Different collections, documents, index names, index column sets, sequences and catalogue entries always map to different storage keys, decoding a document or index-name key returns the ids and names it was built from, document keys of a collection sort by document id (negative ids first), and the key range of one collection never contains a key of another collection or of another kind.",
  ["inputs"],"all pairs of keys built from boundary ids and names by every key builder",
  "collisions and order inversions are facts about pairs of ids; tests encode almost none",
  ["document/keys.go","document/dml/keys.go","document/keyspace/keyspace.go"],
  [("document keys","document/dml/keys.go EncodeCollectionDocumentKey; document/keys.go"),("index keys","document/keys.go EncodeCollectionColumnsIndexedKey")])
p("P12","Key successor arithmetic is exact",
  "For every key, the next key is the smallest key greater than it and the prefix successor is the smallest key of the same length greater than everything that starts with it (for all-0xFF keys it equals the next key). A range is reported as a single point exactly when one of these two successors ends it. Prefix tests, comparison and cloning agree with byte-wise semantics and never alias or modify their input.",
  ["inputs"],"all keys and all key pairs up to the length bound over a carry-provoking alphabet",
  "carry chains and length differences make the interesting cases; tests list a few dozen",
  ["kv/key.go"],[("successors","kv/key.go Next, PrefixNext"),("point ranges","kv/key.go IsPoint")])
p("P13","Remote operations equal local operations",
  "Every set, get, exists, delete and scan issued through a client returns what the same operation returns on the served database: values, metadata, existence, not-found and too-big errors and scan entries are all carried over unchanged, scans honour direction, prefix, offset and limit (never more than the maximum page), and nothing leaks from one request into another, for sequential and for concurrent requests on one connection.",
  ["histories","inputs","fault_sequences"],"every operation sequence up to the bound through a real client and server, with every provider answer (success, not found, error) injected, and pairs of concurrent requests",
  "tests send a handful of requests; field mapping, error mapping and state carried between requests need all combinations",
  ["client/client.go","server/common.go","server/cmd_set.go","server/cmd_get.go","server/cmd_exists.go","server/cmd_delete.go","server/cmd_scan.go","pb/mondis.pb.go"],
  [("request handling","server/common.go handleSet/handleGet/handleExists/handleDelete/handleScan"),("response mapping","client/client.go parse*")])
p("P14","Remote transactions are all-or-nothing and isolated",
  "For every sequence of operations in a remote update transaction, each answer equals that of a local transaction with the same history, commit makes all writes visible at once, and an error from the callback, a discard, a failed commit or a lost connection leaves the database untouched. Read-only remote transactions refuse writes and see a stable snapshot; concurrent remote transactions are isolated like local ones.",
  ["histories","fault_sequences","schedules"],"every operation sequence up to the bound per transaction, every interleaving of two transactions, and every point at which the callback fails or the connection is cut",
  "the stream carries state from frame to frame, and disconnects can hit between any two frames",
  ["client/client_txn.go","client/client.go","server/common.go","server/cmd_set.go","server/cmd_get.go","server/cmd_scan.go"],
  [("stream handling","server/common.go handleTxnContinuedFrame"),("client stream","client/client_txn.go request, getRespFrame, Commit, Discard")])
p("P15","The server withstands malformed and extreme requests",
  "Any request payload, well-formed or not, alone or inside a transaction stream, gets an error answer or a closed connection and never stops the server, changes data it did not ask to change, or disturbs other connections. A transaction interrupted this way is discarded. Scan limits that are zero, negative or beyond the maximum are bounded.",
  ["inputs","fault_sequences"],"every payload from a grammar of missing, truncated and extreme messages for every command, at every position of a stream",
  "tests only send requests produced by the client, which never produces these",
  ["server/common.go","server/cmd_set.go","server/cmd_get.go","server/cmd_exists.go","server/cmd_delete.go","server/cmd_scan.go"],
  [("payload decoding","server/cmd_*.go ServeQRPC; server/common.go"),("scan bounds","server/common.go handleScan")])
p("P32","Stopping the server is orderly",
  "Stopping the server refuses new connections, lets every database operation in progress finish, ends every open transaction without keeping anything of it, and only then closes the database, once; nothing uses the database afterwards. Whatever was acknowledged before or during the stop is in the database when it is opened again, requests cut off by the stop are executed completely or not at all and their clients get an error instead of waiting, and the start returns. Errors of opening and closing the database and of an occupied address are reported.",
  ["schedules","fault_sequences"],"every request and transaction step in progress at the moment of the stop, beside every kind of open transaction of another connection",
  "tests never stop a server that is busy",
  ["server/server.go","server/common.go","client/client.go","client/client_txn.go"],
  [("stop order","server/server.go Start, Stop"),("open transactions","server/common.go handleTxnContinuedFrame; server/cmd_*.go")])
p("P16","Id sequences never hand out the same id twice",
  "Ids taken from a sequence one at a time or in ranges, by any number of threads and of sequence instances on the same store, are pairwise distinct and increasing within an instance, unless the caller itself returned an id for reuse, and a returned id is handed out at most once again. This holds across lease renewals, failed storage commits, crashes and reopening; a closed sequence refuses to serve; a range request yields exactly the requested number of ids; clearing a sequence affects only that sequence and restarts it.",
  ["schedules","fault_sequences","crash_points","histories"],"every operation sequence up to the bound over small leases, every interleaving of threads and instances up to the preemption bound, every storage commit failing, every crash point",
  "duplicates need a particular mix of lease boundary, failure, reuse and concurrency",
  ["document/meta/sequence/sequence.go","document/meta/sequence/hash.go","document/meta/sequence/string.go","document/meta/did_sequence.go"],
  [("lease","document/meta/sequence/*.go renewLeaseFunc"),("allocation","document/meta/sequence/sequence.go Next, NextN, PutBack, Clear, Close")])
p("P17","Legacy store ids stay unique across reopen, failure and threads",
  "Ids that the document store assigns to documents, collections and indexes are never assigned twice, for any number of threads and of store instances opened on the same database, across lease renewals, failed commits, orderly closes, crashes and reopening. A collection name always resolves to the same collection.",
  ["schedules","fault_sequences","crash_points","histories"],"every interleaving up to the preemption bound of threads on one or two instances, every storage commit failing, close or crash at every point",
  "needs lease boundaries to coincide with failures, closes or concurrency",
  ["document/sequence.go","document/db.go","document/collection.go"],
  [("lease","document/sequence.go updateLease, Next, ReleaseRemaining"),("collection ids","document/db.go getCollectionID, Collection")])
p("P18","Document operations behave as a map of documents",
  "Within a collection created through the schema API, insert, managed insert, update, upsert, delete, get, multi-get, list, count, id range and delete-all behave as on a map from document id to document for every history, alone or inside an explicit transaction whose effects appear only on commit: updates never create, managed inserts never overwrite, reported existence and newness are true, documents read hold exactly the values stored, of every kind and size, and stay as they were read, and errors leave the collection unchanged. (Ids chosen by the application are assumed to lie apart from those the store assigns.)",
  ["histories","inputs"],"every operation sequence up to the bound over a few ids (negative and zero included), with explicit, implicit and discarded transactions",
  "the suite performs one linear script; update/insert/upsert distinctions and transaction visibility depend on the history",
  ["document/dml/collection.go","document/dml/base.go","document/txn/txn.go","document/dml/keys.go"],
  [("writes","document/dml/collection.go InsertOne, updateOne, DeleteOne, DeleteAll"),("reads","document/dml/collection.go GetOne, GetMany, GetAll, Count, GetDidRange")])
p("P19","Collections are isolated from one another",
  "No operation on one collection or database reads, counts, lists, changes or deletes documents of another, whatever their ids, names and contents, including empty neighbours, neighbours with adjacent ids and whole-collection operations such as listing, counting, id range and delete-all.",
  ["histories","inputs"],"every operation sequence up to the bound over several collections with adjacent ids in one and two databases",
  "leaks between neighbours need particular emptiness and adjacency patterns",
  ["document/dml/collection.go","document/dml/keys.go","document/meta/meta.go"],
  [("range scans","document/dml/collection.go GetAll, Count, GetDidRange, deleteAllWithTxn")])
p("P20","Inserted documents get fresh ids and are never lost",
  "Under concurrent inserts, with any storage commit failing and with ids of failed inserts being reused, every insert that reports success has stored its document under the id it returned, no two successful inserts return the same id, and every insert that did not store its document reports an error. This also holds for several stores open in one process.",
  ["schedules","fault_sequences"],"every interleaving up to the preemption bound of concurrent inserting threads, implicit and explicit transactions, with every subset of commits failing up to the bound",
  "id reuse after failure races with other inserts only in particular schedules",
  ["document/dml/collection.go","document/txn/txn.go","document/dml/sequence.go","document/meta/sequence/sequence.go"],
  [("insert","document/dml/collection.go InsertOne"),("reuse on failure","document/txn/txn.go Commit, AddCancelFunc; sequence PutBack")])
p("P21","Schema changes are executed exactly once, in order",
  "Every create-schema request that reports success has created exactly that database with all its collections and index definitions, usable for reads and inserts as soon as the call returns; every request that fails reports an error and leaves no database behind; a name is never created twice. Jobs run in submission order, each reaches the job history exactly once, the queue always drains and new requests keep being served, for concurrent requests and when the process crashes at any storage commit and restarts; other stores open in the same process make no difference.",
  ["schedules","crash_points","fault_sequences"],"all interleavings up to the preemption bound of two concurrent requesters and the worker under a virtual clock, and a crash at every storage commit followed by restart",
  "the worker runs in the background on timers; duplicate requests, crashes between its transactions and failures need controlled schedules",
  ["document/ddl/ddl.go","document/ddl/ddl_api.go","document/ddl/ddl_worker.go","document/dml/sequence.go","document/domain/domain.go","document/model/model.go"],
  [("submission","document/ddl/ddl_api.go CreateSchema"),("worker","document/ddl/ddl_worker.go handleJobQueue, runJob, finishJob"),("startup","document/ddl/ddl.go Init; document/domain/domain.go Init")])
p("P22","Schema object ids are globally unique",
  "Every database, collection, index and job gets an id that no other object ever had or will have, whatever mix of collections and indexes is requested, for concurrent requests, failed commits and restarts; the global id counter only grows and id ranges handed out never overlap.",
  ["inputs","schedules","fault_sequences"],"every shape of schema request up to the bound, sequences and interleavings of two requests, and failed commits",
  "collisions need particular numbers of collections and indexes in consecutive requests",
  ["document/ddl/ddl_api.go","document/ddl/input.go","document/ddl/util.go","document/meta/meta.go"],
  [("allocation","document/ddl/ddl_api.go CreateSchema; document/meta/meta.go GenGlobalID, GenGlobalIDs")])
p("P23","The schema cache always equals the stored schema",
  "Whenever the in-memory schema is refreshed, step by step or from scratch, it describes exactly the databases, collections, indexes and states stored at its version, whatever the number of changes since the last refresh. Readers holding an older schema never see it change, versions never go backwards, and an invalid change leaves the published schema as it was.",
  ["histories","schedules"],"every sequence of schema changes and refresh points up to the bound including gaps longer than the retained change log, compared with loading from scratch",
  "incremental refresh and full load are separate code paths that must agree for every history",
  ["document/domain/domain.go","document/schema/metacache.go","document/schema/handle.go","document/meta/meta.go"],
  [("refresh","document/domain/domain.go reloadSchema, tryLoadSchemaDiff"),("incremental application","document/schema/metacache.go ApplyDiffs, Clone")])
p("P24","Document transactions commit only against an unchanged schema",
  "An explicit document transaction commits only if no schema change published between its start and the beginning of its commit touched a collection it used; otherwise it fails with a schema-conflict error, writes nothing and runs its cancel actions exactly once. Transactions over untouched collections are never refused while the change log (the last 100 changes since the last full load) still covers their start, and checks never block later schema updates or commits. A transaction never reads data older than the schema it works with.",
  ["histories","schedules"],"every combination of start version, referred collections and subsequent schema changes up to and beyond the retained change log, with interleavings of commit and schema update",
  "the check is a window computation over versions; off-by-one and lock leaks show only for particular version distances",
  ["document/schema/handle.go","document/txn/txn.go","document/schema/metacache.go","document/dml/base.go"],
  [("check","document/schema/handle.go Check, Update"),("commit","document/txn/txn.go Commit")])
p("P25","The legacy document store behaves as isolated document maps",
  "In the legacy document store, insert, managed insert, update, upsert, delete, get, multi-get, count and delete-all on a collection behave as on a map from id to document for every history, alone or in an explicit transaction, keep every kind and size of value, and never affect another collection or the index catalogue. (Ids chosen by the application are assumed to lie apart from those the store assigns.)",
  ["histories","inputs"],"every operation sequence up to the bound over two collections and a few ids, with implicit, explicit and discarded transactions",
  "the suite runs one linear script on one collection",
  ["document/collection.go","document/db.go","document/keys.go"],
  [("document operations","document/collection.go")])
p("P26","Index definitions are consistent in memory, on disk and after reopen",
  "After every history of index creations and drops, successful or refused, sequential or concurrent, the index list an open collection reports equals the list after reopening it, names are unique, two indexes never cover the same columns, a dropped index can be created again, the definition supplied by the caller is stored faithfully, the caller's own data is not modified, and changing the list that was reported changes nothing else.",
  ["histories","schedules","fault_sequences"],"every operation sequence up to the bound over colliding names and column sets, interleavings of two threads, failed commits and reopen after every step",
  "memory and disk are updated separately; only particular orders and failures make them differ",
  ["document/collection.go","document/keys.go"],
  [("create/drop","document/collection.go CreateIndex, DropIndex, getIndexes"),("uniqueness key","document/keys.go EncodeCollectionColumnsIndexedKey")])
p("P27","Closing the legacy store waits, then refuses",
  "Closing the legacy document store waits for operations in progress, after it returns every document, collection and index operation reports that the store is closed and touches the database no more, closing again or concurrently is harmless, and no interleaving of operations, collection opening and close deadlocks, crashes or loses an acknowledged write.",
  ["schedules"],"all interleavings up to the preemption bound of close with one or two operations",
  "needs close to land inside an operation",
  ["document/db.go","document/collection.go"],
  [("state and closer","document/db.go Close, checkState, Collection")])
p("P28","Transaction helpers commit exactly on success",
  "The run-in-transaction helpers commit the function's writes exactly once if and only if it succeeds, never keep anything of a failed one, return the function's or the commit's error, call the after-commit callback exactly once if and only if the commit succeeded and the cancel callback exactly once if and only if the commit failed, and always release the transaction. The too-big helper repeats the function on fresh transactions, committing completed work in between, and stops on the first other result or after its bound.",
  ["fault_sequences","inputs"],"every sequence of function results (success, error, too big, panic) and commit results up to the bound",
  "failure combinations of function and commit are not exercised by any test",
  ["util/util.go"],
  [("helpers","util/util.go RunInNewUpdateTxn*, RunInNewTxn, TryCommitWhenTxnTooBig, ChooseTime")])
p("P29","The schema catalogue is a faithful, referentially checked store",
  "For every history of catalogue operations in transactions, databases and collections read back exactly as last created or updated, creating an existing one or updating, dropping or listing in a missing one is refused with the matching error and no effect, dropping removes exactly the named object (a database with its collections, a collection with its id counter only if asked), and version, bootstrap and change-log entries return what was stored.",
  ["histories"],"every operation sequence up to the bound over colliding ids, from every reachable catalogue state",
  "catalogue records share hashes with id counters; interference needs particular histories",
  ["document/meta/meta.go"],
  [("databases and collections","document/meta/meta.go CreateDatabase ... ListCollections"),("versions and diffs","document/meta/meta.go GetSchemaVersion, GetSchemaDiff")])
p("P30","The schema job queue and history lose nothing",
  "For every history, schema jobs leave their queue in submission order, are read and replaced by position without disturbing others, absent positions report no job or job-not-exists, queues are independent, archived jobs read back complete (their error included) by id, in full and latest-first, and reorganisation progress reads back as stored until removed.",
  ["histories","inputs"],"every operation sequence up to the bound over both queues, all job states and with and without recorded errors",
  "positions shift as jobs leave, and errors only occur on failure paths that tests do not reach",
  ["document/meta/meta.go","document/model/model.go"],
  [("queue","document/meta/meta.go EnQueueDDLJob, DeQueueDDLJob, GetDDLJobByIdx, UpdateDDLJob"),("history","document/meta/meta.go AddHistoryDDLJob, GetLastNHistoryDDLJobs")])
p("P31","Schema descriptions clone deeply and serialise faithfully",
  "Cloning a database, collection or index description yields an equal value that shares no mutable state with the original, adding or updating a collection or index refuses duplicates or unknown names and changes nothing else, and job and change-log records survive encoding and decoding with every field, including their arguments and errors.",
  ["inputs","histories"],"every description shape up to the bound and every single mutation of either copy",
  "aliasing shows only when a particular nested field is mutated afterwards",
  ["document/model/model.go"],
  [("cloning","document/model/model.go Clone"),("serialisation","document/model/model.go Encode, Decode, DecodeArg")])
p("P33","Schema requests are checked before anything is stored",
  "A request to create a database is refused, with nothing stored (queue, id counter and catalogue unchanged), if the database, a listed collection or one of its indexes has no name, an index has no columns, a database of that name exists, or more than 100 schema jobs are waiting; a request to add an index likewise if a name or the columns are missing, the database or collection does not exist or the collection has an index of that name. Every other request, unless the storage fails, is queued exactly once, exactly as described, and nothing but the queue and the id counter changes. Databases, collections and indexes can be looked up by name exactly if the current schema has them.",
  ["inputs","schedules","fault_sequences"],"every request shape of the stated set with each defect at each position, on every catalogue and around the queue limit, in rows, at the same time and with each storage operation failing",
  "the suite sends one well-formed request",
  ["document/ddl/ddl_api.go","document/ddl/input.go","document/ddl/util.go","document/dml/db.go","document/dml/collection.go"],
  [("validation","document/ddl/input.go Validate"),("admission","document/ddl/ddl_api.go CreateSchema, AddIndex; document/ddl/util.go"),("lookup","document/domain/domain.go DB; document/dml/db.go NewDB, Collection; document/dml/collection.go Index")])
p("P34","Failing storage is never mistaken for absent data",
  "When a storage operation fails while a structure operation, a document operation of either store, a catalogue operation or a job queue operation runs, that operation either reports the storage's error or has exactly the result and the effect it has without the failure: a failed read is never taken for absent data, nor a scan that ends early for a complete one, nor a refused write (too big included) for a done one. A document operation outside an explicit transaction that reports such an error has no effect (deleting all documents, which works in steps, excepted).",
  ["fault_sequences","inputs","histories"],"every operation of the stated set, alone and after every other in the same transaction, on every stated content, with every storage operation of it failing in every stated way",
  "tests run on healthy storage; a swallowed error shows only when a particular read fails",
  ["structure/hash.go","structure/list.go","structure/string.go","document/meta/meta.go","document/dml/collection.go","document/collection.go"],
  [("structures","structure/*.go handling of kv.ErrKeyNotFound"),("catalogue and jobs","document/meta/meta.go"),("documents","document/dml/collection.go; document/collection.go")])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80, x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
