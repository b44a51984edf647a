#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Order-preserving encodings compare like the values they encode",
"For any two values of the same kind (byte strings of any content, signed and unsigned integers, single bytes, non-NaN floats) the byte-wise order of their order-preserving encodings equals the order of the values, and is exactly reversed for the descending encodings. Equal values have equal encodings and different values have different ones (with -0 equal to +0). The same holds lexicographically when encodings are concatenated into a composite key, so no encoding of one component can run into the next.",
["inputs"],"all pairs of values of each kind, and all pairs of two-component composites (byte string followed by integer, integer followed by byte string, two byte strings)",
"Tests compare a few literals (abc/def, 1/-1); order must hold at group boundaries, for embedded zero and 0xff bytes, and across sign and exponent boundaries.",
["kv/memcomparable/bytes.go","kv/memcomparable/number.go","kv/memcomparable/float.go"],
[("byte-string grouping with marker byte","kv/memcomparable/bytes.go EncodeBytes/EncodeBytesDesc"),("sign-bit flip","kv/memcomparable/number.go EncodeInt64ToUint64"),("float bit transform","kv/memcomparable/float.go encodeFloat64ToUint64")],
["return values of the exported encoders"])

p("C02","Decoding inverts encoding and leaves the rest of the buffer alone",
"For every value, decoding what was encoded returns the same value (with -0 read back as +0) and exactly the bytes that followed the encoding, for the order-preserving (ascending and descending), compact and numeric codecs. Encoding appends to the buffer it is given without changing bytes already in it, and neither encoding nor decoding modifies its input. The announced encoded length of a byte string is the actual one.",
["inputs"],"all values of each kind, any existing prefix in the destination buffer, any trailing bytes after the encoding",
"Tests round-trip a handful of literals with an empty prefix and an empty remainder.",
["kv/memcomparable/bytes.go","kv/memcomparable/number.go","kv/memcomparable/float.go","kv/compact/bytes.go","kv/compact/number.go","kv/numeric/binary.go","kv/numeric/human.go"],
[("group decode","kv/memcomparable/bytes.go decodeBytes"),("varint framing","kv/compact/bytes.go, kv/compact/number.go"),("decimal text","kv/numeric/human.go")],
["return values of exported encoders/decoders"])

p("C03","Decoders never crash on arbitrary bytes and accept only real encodings",
"Every exported decoder, given arbitrary bytes, returns either a value or an error and never panics or reads outside its input. What it reports as the remainder is a suffix of the input, and whatever an order-preserving or fixed-width decoder accepts is exactly an encoding: re-encoding the decoded value reproduces the consumed bytes (for floats, when they are neither NaN nor a zero).",
["inputs"],"every byte string up to the stated length, for every decoder",
"Tests only ever feed decoders their own encoders' output.",
["kv/memcomparable/bytes.go","kv/memcomparable/number.go","kv/compact/bytes.go","kv/compact/number.go","kv/numeric/binary.go","document/keys.go","document/dml/keys.go"],
[("length, marker and padding checks","kv/memcomparable/bytes.go decodeBytes"),("length check","kv/compact/bytes.go DecodeBytes"),("key shape checks","document/keys.go DecodeCollectionIndexName2IDKey, document/dml/keys.go DecodeCollectionDocumentKey")])

p("C04","Key arithmetic yields exact successors and prefix bounds",
"The next key of any key is the smallest key greater than it; the prefix-next key of any key that is not all 0xff bytes is the smallest key of the same length that is greater than every key starting with it. A key range is reported as a point exactly when its end is the next key or (for a start that is not all 0xff) the prefix-next key of its start, comparison and prefix test agree with byte order, and none of these operations changes or aliases the key they are called on.",
["inputs"],"all keys and pairs of keys up to the stated length, including empty keys and runs of 0xff",
"The test checks two or three literals; carries and all-0xff keys decide whether a bounded scan misses or leaks keys.",
["kv/key.go"],[("byte increment with carry","kv/key.go PrefixNext"),("append zero","kv/key.go Next"),("point test","kv/key.go KeyRange.IsPoint")])

p("C05","Document-store keys are collision-free, grouped, ordered and decodable",
"Keys built for different objects of the document store (documents, index definitions, index-name entries, column-set entries, sequences, collection names) or for the same kind of object with different identifiers are never equal. All keys of one collection and kind share that collection's prefix, no key of another collection, or other document key, carries it, document keys sort by document id, and decoding a key returns the identifiers it was built from. Describing the same set of index columns in a different order yields the same column-set entry.",
["inputs"],"all 64-bit collection, document and index identifiers (negative ones included) and all names up to the stated length",
"Tests build one key from small literals.",
["document/keys.go","document/dml/keys.go","document/keyspace/keyspace.go"],
[("fixed-width order-preserving ids after a constant prefix","document/keys.go, document/dml/keys.go"),("terminated name encoding","document/keys.go EncodeCollectionIndexName2IDKey"),("canonical field order","document/keys.go EncodeCollectionColumnsIndexedKey")])

p("C06","A list behaves as a double-ended queue",
"Under any sequence of pushes and pops at either end, indexed reads and writes, clears, length and full reads, a list gives the results of an ideal double-ended queue: pops return what was pushed in order, an index counts from the left (or, if negative, from the right), out-of-range writes are rejected with not-found without effect, and reading everything returns the elements right to left. A list that has become empty is the same as one that never existed, and pushing several values at once equals pushing them one by one.",
["histories","inputs"],"all operation sequences up to the stated length with arbitrary values, and one arbitrary operation from an arbitrary list state",
"The test performs one fixed sequence; emptying, re-filling from the other end, and negative indexes are combinations.",
["structure/list.go","structure/keys.go"],
[("left/right index metadata","structure/list.go listPush/listPop"),("index adjustment","structure/list.go adjustIndex")],
["results of the list operations inside one transaction and across transactions"],
[("list meta","left (inclusive) and right (exclusive) index","structure/list.go listMeta")])

p("C07","A hash behaves as an ordered map with an exact field count",
"Under any sequence of sets, increments, deletes of one or several fields, clears and reads, a hash gives the results of an ideal map from fields to values, where a field set to an empty value exists. The reported length always equals the number of distinct fields present, and the field listings return every present field exactly once in ascending (or, for the descending form, descending) byte order, cut at the requested count. A hash whose last field is gone is the same as one that never existed.",
["histories","inputs"],"all operation sequences up to the stated length over arbitrary (symbolic, possibly equal) fields and values",
"The test sets and reads a couple of fields; the count must survive overwrites, repeated deletes and duplicates in one call.",
["structure/hash.go","structure/keys.go"],
[("count kept in a separate record","structure/hash.go updateHash, HDel"),("ordered data keys","structure/keys.go encodeHashDataKey"),("bounded forward and reverse scans","structure/hash.go iterateHash, iterateReverseHash")])

p("C08","Stored strings and counters return exactly what was put in",
"A stored string reads back exactly as last written until it is overwritten or cleared, and is not found otherwise. A counter (plain or inside a hash) starts at zero, each increment returns and stores the exact sum of all increments so far, and setting a 64-bit integer and reading it back returns the same integer for every value. Reading a non-number as an integer fails without changing it.",
["histories","inputs"],"arbitrary sequences of set, increment, read and clear with arbitrary 64-bit steps (sums within 64 bits)",
"Tests increment by one from zero.",
["structure/string.go","kv/util.go","kv/numeric/human.go","structure/hash.go"],
[("decimal text counter","kv/util.go IncInt64"),("hash counter","structure/hash.go HInc")])

p("C09","Structures with different names, kinds or prefixes never touch each other",
"Any operation on one list, hash or string, including clearing it, deleting fields or listing it, leaves every other list, hash and string in the same store unchanged and does not show their contents. This holds for different names, for the same name used for different kinds, for different store prefixes (neither of which extends the other), and when one name, field or value is a prefix or extension of another or contains zero or 0xff bytes.",
["inputs","histories"],"arbitrary pairs of distinct names up to the stated length, all kinds, one arbitrary operation",
"Tests use one key per store.",
["structure/keys.go","structure/hash.go","structure/list.go","structure/string.go"],
[("self-delimiting name encoding followed by a kind byte","structure/keys.go")])

p("C10","A failing store never makes a structure operation report success",
"If any storage call made on behalf of a list, hash, string, counter or catalogue operation fails, the operation returns an error instead of a result, and never panics. The single exception is a key that is reported as not found where absence is a legitimate state.",
["fault_sequences","inputs"],"every storage call position of every operation may fail, from arbitrary prior contents",
"Tests never inject a storage failure.",
["structure/list.go","structure/hash.go","structure/string.go","kv/util.go","document/meta/meta.go"],
[("error propagation","structure/*.go, kv/util.go, document/meta/meta.go")])

p("C11","Named id sequences never hand out an id twice",
"Over the lifetime of a stored sequence, across any number of sequence objects on the same name, single and multiple allocations, renewals, releases, closes, process crashes and failed or conflicting commits, no id is returned twice unless it was explicitly put back or the sequence was explicitly cleared. A multiple allocation returns exactly the requested count of ids, ids are positive and increasing within one object except for reused ones, and an operation on one sequence (clearing included) does not affect any other sequence or record. After a close the object refuses further use.",
["histories","crash_points","fault_sequences"],"all interleavings of operations of two sequence objects up to the stated length, with arbitrary batch sizes and bandwidths, storage faults at any step, and abandonment (crash) at any point",
"The tests never cross a lease, crash, or run two holders.",
["document/meta/sequence/sequence.go","document/meta/sequence/string.go","document/meta/sequence/hash.go","document/meta/did_sequence.go"],
[("durable lease before use","document/meta/sequence/string.go, hash.go renewLeaseFunc"),("batch across lease","document/meta/sequence/sequence.go NextN"),("release and put back","document/meta/sequence/sequence.go")])

p("C12","Collection and document ids of the document database are never reused",
"A document-id, collection-id or index-id sequence of the document database never returns the same id twice, whatever the bandwidth, across renewals, restarts with or without a clean release, crashes and failed or conflicting commits. Ids start at one and increase; after a clean release and restart numbering continues directly after the last id handed out.",
["histories","crash_points","fault_sequences"],"all histories of next, release, crash and restart up to the stated length on one or two holders, arbitrary bandwidth and arbitrary commit outcomes",
"The test uses one sequence in one process and never fails a commit.",
["document/sequence.go"],
[("lease written before ids are used","document/sequence.go updateLease"),("release of the unused part","document/sequence.go ReleaseRemaining")])

p("C13","Wire messages survive encoding and arbitrary bytes never crash the decoder",
"Every request and response message decodes to exactly the fields it was encoded from, its announced size is its encoded length, and encoding never fails. Decoding arbitrary bytes as any message returns a message or an error and never panics, loops forever or reads outside the input, and unknown fields are skipped.",
["inputs"],"all field values (bytes up to the stated length, full-range integers, optional sub-messages present or absent) and all byte strings up to the stated length",
"Tests send a few short well-formed messages.",
["pb/mondis.pb.go"],[("generated marshal/unmarshal","pb/mondis.pb.go"),("skip of unknown fields","pb/mondis.pb.go skipMondis")])

p("C14","A remote single operation has the effect and result of the same local one",
"A set, get, exists, delete or scan through the client returns what the same operation on the server's store returns, including the value, expiry and tag, and changes the store in the same way, for any key and value bytes. A missing key is reported as not found, any other store failure is reported as an error and never as success, and a request the server cannot decode is refused without touching the store.",
["inputs","fault_sequences"],"arbitrary keys, values, expiry and tag, arbitrary prior store contents, and a store failure on any call",
"Tests run one happy path over a local socket.",
["client/client.go","server/common.go","server/cmd_set.go","server/cmd_get.go","server/cmd_exists.go","server/cmd_delete.go","server/cmd_scan.go"],
[("request translation","client/client.go setReq2PB, scanOption2Bytes"),("handlers","server/common.go handle*"),("error codes","server/code.go")])

p("C15","A remote transaction behaves like a local one",
"Each operation in a remote transaction returns what the same sequence of operations in a transaction on the server's store would return: later reads see the transaction's own writes, and the result of one operation never depends on the contents of earlier requests or answers in that transaction. Writes become visible to others only, and all together, when commit reports success; discarding, an error from the callback, or a lost connection leaves the store unchanged. Read-only transactions refuse writes, and not-found, too-big and commit failures are reported to the caller as such.",
["histories","inputs","fault_sequences"],"all operation sequences up to the stated length with arbitrary keys, values, expiry and tag, ended by commit, discard, callback error or disconnect, with store failures at any call",
"The tests use transactions of one or two operations; state carried from one request to the next needs specific sequences.",
["client/client_txn.go","client/client.go","server/common.go","server/cmd_set.go","server/cmd_get.go","server/cmd_exists.go","server/cmd_delete.go","server/cmd_scan.go"],
[("stream of requests on one transaction","server/common.go handleTxnContinuedFrame"),("update/view wrappers","client/client.go Update, View"),("first request opens the transaction","client/client_txn.go request")])

p("C16","Scans return exactly the requested keys, in order and within the limit",
"A scan visits the live keys that carry the prefix, each exactly once with its own value and metadata, in ascending (or, reversed, descending) byte order, starting at the offset when one inside the prefix range is given, until the caller stops or the keys run out. A remote scan with limit n returns the first n of these, never more than the documented maximum, and nothing for a limit that is not positive.",
["inputs","configurations"],"arbitrary store contents up to the stated number of keys, arbitrary prefix, offset (absent or carrying the prefix), direction and limit, inside and outside transactions, local and remote",
"The tests scan one prefix forwards; direction, bounds, and offset interact.",
["provider/badger.go","provider/badger_txn.go","server/common.go","client/client.go","client/client_txn.go"],
[("iterator options and seek","provider/badger.go scanByBadgerTxn"),("limit clamp","server/common.go handleScan, client Scan")])

p("C17","The embedded store keeps the key-value contract",
"Through the embedded store, a get returns exactly the value, expiry and tag of the last committed set of that key, exists agrees with get, a deleted or never-set key is not found, and a time-to-live applies only when one was given. A transaction sees its own writes and a stable snapshot, publishes all its writes atomically on commit and none on discard, a read-only one refuses writes, and a conflicting commit fails without effect. Values handed out stay intact after the transaction ends, and store errors map to the documented error values inside and outside transactions.",
["histories","inputs","fault_sequences"],"operation sequences up to the stated length over one or two interleaved transactions, arbitrary keys, values, time-to-live and tag",
"Tests run a set and a get; tag-only metadata, conflicts and error mapping are not exercised.",
["provider/badger.go","provider/badger_txn.go","provider/badger_wb.go"],
[("set with metadata","provider/badger_txn.go Set"),("error mapping","provider/badger_txn.go Get/Exists/Delete/Set"),("auto-commit operations","provider/badger.go")])

p("C18","The batch store keeps the key-value contract it offers",
"Through the LevelDB-backed store, get returns the last value set, a missing key is not found, exists agrees with get, delete removes, and a forward scan visits the keys of the prefix in ascending order, each exactly once, starting at the offset when one is given. A write batch applies all its operations in order on commit, none of them before that, and none if it is discarded. What the provider does not support (metadata, reverse scans) is refused with an error and no effect rather than silently ignored, and store errors are reported.",
["histories","inputs","fault_sequences"],"operation sequences up to the stated length with arbitrary keys and values, any scan option, store failure on any call",
"No test touches this provider.",
["provider/leveldb.go","provider/leveldb_wb.go"],
[("range construction","provider/leveldb.go Scan"),("batch","provider/leveldb_wb.go")])

p("C19","A document collection behaves as a map from ids to documents",
"Under any sequence of inserts, updates, upserts, deletes, reads, counts and delete-alls, with or without a caller's transaction, a document collection gives the results of an ideal map from document id to document. An automatic insert gets an id never handed out before by that collection, a managed insert of an existing id is refused, an update of a missing id reports it and changes nothing, delete-all removes and counts exactly the collection's documents, and no operation affects another collection.",
["histories","inputs","fault_sequences"],"operation sequences up to the stated length on two collections, arbitrary ids and documents, auto-commit or explicit transaction, store failure on any call",
"The tests insert and read a few documents in one collection.",
["document/collection.go","document/keys.go","document/db.go"],
[("document keys by collection and id","document/keys.go"),("existence check in the writing transaction","document/collection.go updateOne"),("auto-commit wrapper","util/util.go")])

p("C20","Index definitions stay consistent, exact and persistent",
"After any sequence of index creations and drops on a collection, the listed indexes are exactly those created and not dropped, each with the name, fields and options its creator gave, and the list is the same after the database is reopened. Creation is refused without effect when the name is taken or an index on the same columns exists, and succeeds again once that index is dropped; dropping reports whether the index existed. Index ids are never reused, and neither creating nor listing exposes or alters the caller's or the collection's own data.",
["histories","inputs","fault_sequences"],"create/drop/list/reopen sequences up to the stated length with arbitrary names, up to two fields in any order and direction, two collections, store failure on any call",
"The test creates one index.",
["document/collection.go","document/keys.go"],
[("column-set entry","document/keys.go EncodeCollectionColumnsIndexedKey"),("name entry and definition record","document/collection.go CreateIndex/DropIndex/getIndexes")])

p("C21","Collection names map to stable unique ids and closing is final",
"Opening a collection by the same name always yields the same collection (one shared object per open database, the same documents after a reopen), and different names never share documents. Reserved and empty names are refused, and once the database is closed or closing every operation is refused and nothing is written. A failed opening leaves no trace that prevents a later one from succeeding.",
["histories","schedules","fault_sequences"],"open/close/reopen sequences with arbitrary names, concurrent openers of the same or different names, failures and commit conflicts on any storage call",
"Tests open one or two collections once.",
["document/db.go","document/collection.go"],
[("name to id record","document/db.go getCollectionID"),("double-checked map","document/db.go Collection"),("state check and closer","document/db.go checkState/Close")])

p("C22","Transaction helpers commit exactly when the work succeeded",
"A helper that runs work in a new update transaction commits exactly once if the work succeeded and never if it failed, always discards the transaction, and returns the work's error or the commit's error unchanged. The after-commit callback runs exactly once when and only when the commit succeeded, the cancel callback exactly once when and only when the commit failed; read-only helpers never write. When a transaction becomes too big, the retry helper commits what it has and continues in a fresh transaction, returning the transaction that is still open, up to its retry bound.",
["fault_sequences","inputs"],"every combination of work outcome, commit outcome, absent callbacks and number of too-big answers",
"Tests only see the success path.",
["util/util.go","document/dml/base.go"],
[("run helpers","util/util.go"),("document transaction helpers","document/dml/base.go")])

p("C23","Schema-managed collections behave as maps and report what happened",
"In a database created through DDL, any sequence of inserts, updates, upserts, deletes, reads, counts and delete-alls gives the results of an ideal map from document id to document per collection. Each operation that did not take effect (collection or document missing, id taken, store failure) returns an error or a false flag instead of success, an aborted transaction leaves no trace, and ids of automatic inserts do not collide with each other even after failed commits. The reported id range is the smallest and largest document id of that collection, and zero for an empty one, whatever other collections contain.",
["histories","inputs","fault_sequences"],"operation sequences up to the stated length on two collections, arbitrary ids and documents, auto-commit or explicit transaction, store failure or conflict on any call",
"The tests exercise one collection on the success path.",
["document/dml/collection.go","document/dml/keys.go","document/dml/base.go","document/dml/sequence.go"],
[("insert with sequence and put back","document/dml/collection.go InsertOne"),("range by forward and reverse scan","document/dml/collection.go GetDidRange"),("delete-all","document/dml/collection.go deleteAllWithTxn")])

p("C24","Commits that straddle a schema change of their collections are refused",
"An update transaction in which a caller runs operations commits only if none of the collections it used was changed by a schema version that became current after the transaction started (or the change history no longer reaches back that far); otherwise it fails with the DDL-conflict error, writes nothing and runs its cancel actions once. Changes that touch only other collections never make it fail. The check never blocks later schema updates or commits, whatever its outcome.",
["histories","inputs"],"arbitrary cached version histories, start and current versions, referred and changed collection sets, followed by further updates and checks",
"No test changes the schema during a transaction.",
["document/schema/handle.go","document/txn/txn.go","document/schema/metacache.go"],
[("version-history check under a read lock","document/schema/handle.go Check"),("commit guard and cancel functions","document/txn/txn.go Commit")],
None,[("schemaDiffs","changed collection ids per version from diffStartVersion on","document/schema/metacache.go")])

p("C25","Incremental schema refresh equals a full reload",
"Applying the recorded schema changes one by one or in batches to a cached schema gives the same visible databases, collections, indexes, states and version as loading everything afresh at the final version, for every starting version. Change lists that are not consecutive with the cache are rejected with an error, the retained change history always covers the most recent versions up to its bound, and neither refresh nor cloning alters a cache still used by running transactions.",
["histories","inputs"],"arbitrary sequences of schema creations split into arbitrary batches, including batches beyond the history bound, gaps and repeats",
"No test refreshes incrementally.",
["document/schema/metacache.go","document/domain/domain.go","document/ddl/ddl_worker.go","document/model/model.go"],
[("consecutive-version validation","document/schema/metacache.go validateDiffs"),("diff application","document/schema/metacache.go ApplyDiffs"),("recorded change","document/ddl/ddl_worker.go updateSchemaVersion")])

p("C26","The catalogue stores databases, collections, jobs and versions faithfully",
"Databases and collections written to the catalogue read back field for field, listings return exactly those that exist, creating an existing or updating, dropping or reading a missing one fails with the documented error and changes nothing, and dropping a database removes all of its collections and nothing of any other database. Global ids and schema versions strictly increase and reserved id ranges never overlap. Queued jobs come out in the order they went in, and history, schema-change and reorganisation records return exactly what was stored under their id.",
["histories","inputs"],"operation sequences up to the stated length over arbitrary 64-bit ids, names and flags",
"Only one schema creation is tested end to end.",
["document/meta/meta.go","document/model/model.go"],
[("hashes keyed by formatted ids","document/meta/meta.go"),("job list and history","document/meta/meta.go"),("JSON records","document/model/model.go")])

p("C27","Schema creation allocates distinct ids to every object",
"Every database, collection, index and job created through DDL gets an id that no other database, collection, index or job in the store ever has, whatever the number of collections and indexes in the request, repeated names included. The created schema contains exactly the requested collections and indexes with the requested columns and options, and a request that is invalid, duplicates an existing database, or cannot be queued creates nothing.",
["inputs","histories"],"two successive requests with up to the stated number of collections and indexes per collection, arbitrary (possibly equal) names",
"The test creates one database with one collection and no index.",
["document/ddl/ddl_api.go","document/ddl/input.go","document/meta/meta.go"],
[("id range reservation","document/ddl/ddl_api.go CreateSchema"),("input validation","document/ddl/input.go")])

p("C28","Each queued DDL job runs to one final, recorded outcome in order",
"Jobs are processed in the order they were queued, each leaves the queue exactly once and its outcome (success, or failure with its reason) can then be read from the history, whatever storage failures, conflicts or panics happen while it runs. A job recorded as successful has taken full effect, one recorded as failed has left no part of its schema behind, a failed job never blocks the ones behind it, and the schema version advances exactly once per applied job.",
["histories","fault_sequences","crash_points"],"queues of up to the stated number of jobs including duplicates, with storage failures at any call and commit failures or crashes between any two transactions",
"The test runs one job that succeeds.",
["document/ddl/ddl_worker.go","document/ddl/ddl_api.go","document/meta/meta.go","document/model/model.go"],
[("one transaction per step","document/ddl/ddl_worker.go handleJobQueue"),("finish: dequeue and history together","document/ddl/ddl_worker.go finishJob"),("retry bound","document/ddl/ddl_worker.go handleJobQueue")])

p("C29","A completed schema creation is immediately usable",
"When creating a schema reports success, the database and all requested collections can be opened through the same domain at once and accept and return documents, with no collection sharing documents or ids with another. After a restart of the domain every schema whose creation had succeeded is available with the documents it held, new documents get fresh ids, and a name that failed to be created can be created again.",
["histories","crash_points","inputs"],"creation of one or two schemas with arbitrary names, document inserts, and a restart at any point between operations",
"The test creates one schema and never restarts.",
["document/domain/domain.go","document/ddl/ddl.go","document/ddl/ddl_worker.go","document/dml/db.go","document/dml/sequence.go"],
[("reload on change","document/domain/domain.go onChange/reload"),("sequence creation after commit and on start","document/ddl/ddl_worker.go onCreateSchema, document/ddl/ddl.go Init")])

p("C30","Concurrent use of sequences, collections and the schema handle is safe",
"Concurrent callers of one id sequence get pairwise distinct ids, concurrent openers of one collection get the same collection, and concurrent schema checks and updates neither deadlock nor miss an update that completed before the check began. No call remains blocked once the calls it competes with have finished.",
["schedules"],"every interleaving of two or three concurrent calls, at the granularity of lock, atomic and storage operations, within the stated preemption bound",
"Tests are single-threaded at this level and a race needs a particular schedule.",
["document/sequence.go","document/meta/sequence/sequence.go","document/db.go","document/schema/handle.go","document/dml/sequence.go"],
[("mutex around allocation","document/sequence.go Next, document/meta/sequence/sequence.go Next/NextN"),("double-checked collection map","document/db.go Collection"),("read/write lock","document/schema/handle.go")])

p("C31","Committed data survives a crash of the embedded store",
"Once a commit through the embedded store has reported success, its writes are all present after the process is killed and the store is reopened, and a transaction whose commit had not been reported is present either completely or not at all.",
["crash_points"],"a kill at any instant of any commit",
"Tests always close the store cleanly.",
["provider/badger.go"],[("synchronous value log of the underlying engine","provider/badger.go Open")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
