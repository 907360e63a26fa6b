import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs,hook=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["src/"+f for f in files],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","An entry becomes visible only after it is completely written",
 "At every instant (hence after a crash of the process at any point, and after any I/O error) every key a lookup can find maps to a complete key/value pair that some caller stored: key and value bytes reach the file before the location that points at them, and the location is in place before the marker that makes the slot visible. A failed write leaves the slot as it was.",
 ["crash_points","fault_sequences","inputs"],"every crash point and I/O error inside an insert, replace, split, merge or compaction",
 "Tests only see states between completed calls, and the crasher samples a few random kill points; the window is a few instructions wide.",
 ["shard.rs"],[("data write, then offset word, then fence, then signature","shard.rs insert/try_replace/do_compaction/split/merge")],["get after reopening a store whose process was killed"],
 None,[("slot signature","non-zero marker that makes a slot visible","ShardRow"),("slot location word","key size, value size, file offset","ShardRow")])
p("C02","Stored bytes are never overwritten or cut off while they can be referenced",
 "Entry bytes that a visible slot points to are never modified afterwards: every entry is written to a range of the file reserved exclusively for it beyond the index, reservations never overlap and never move back, and a data file is never shortened or re-created under a name still in use. Replacing a value writes a new copy and then redirects the slot.",
 ["schedules","crash_points","histories"],"all interleavings of writers (and of readers against writers) and all crash points",
 "An overlap needs two writers racing between reading and bumping the end of the file; tests do not control that interleaving.",
 ["shard.rs","router.rs"],[("atomic reservation of the write range","shard.rs write_kv"),("positioned write past the header","shard.rs write_kv"),("truncation only of fresh temporaries","shard.rs create/open")],["get/iter concurrent with set; contents after reopen"])
p("C03","Reading decodes exactly the bytes that were stored",
 "For every key and value within the size limits, reading an entry back yields exactly the key bytes and value bytes that were written, with the same boundaries: what the writing side packs (layout of the entry, sizes, position) and what the reading side unpacks agree field for field. The bookkeeping appended to a list element's value is stripped completely, and nothing more, on every path that hands the value to a caller.",
 ["inputs","histories"],"all keys and values of every admissible length, and all file offsets",
 "Tests sample a few sizes; a mask or shift that is one bit short shows only near the limits (large keys, values or files).",
 ["shard.rs","lists.rs","queues.rs","lib.rs"],[("location word packing/unpacking","shard.rs write_kv/read_kv"),("index suffix append/strip","lists.rs")],["get, iter, get_from_list, iter_list return values"])
p("C04","A crash or error during a split loses nothing and leaves one clear winner",
 "At every instant of a shard split, every key is reachable through the original file or through a published half that already holds all of that half's entries: halves are built under temporary names, published only when complete, and the original is deleted only after both are published. Reopening discards temporaries, and when overlapping files are found it keeps the widest one and discards only files entirely covered by a kept one.",
 ["crash_points","fault_sequences"],"every crash point and every failing file operation during a split, followed by reopening",
 "The crash test cannot choose the instant; the windows between two renames and a delete are microseconds.",
 ["shard.rs","router.rs"],[("copy, rename, rename, delete","shard.rs split"),("temporary prefixes and covering ranges on load","router.rs load/consolidate_ranges")],["set of keys after reopen"])
p("C05","A crash or error during compaction loses nothing",
 "At every instant of compacting a shard, each row's live entries are complete either in the old file or in the new one, and the progress marker that sends readers and writers to the new file advances past a row only when that row has been copied completely. The new file takes over the shard's name only after all rows are copied, and a store reopened after a crash resumes the interrupted compaction from its marker before serving requests.",
 ["crash_points","schedules","fault_sequences"],"every crash point, I/O error and interleaving of foreground operations with the copying thread",
 "Compaction runs in the background; tests cannot stop it at a given row and their crash points are random.",
 ["shard.rs"],[("row copied under its lock before the marker moves","shard.rs do_compaction"),("rename after all rows, swap after rename","shard.rs background_compact/open"),("row routed by marker","shard.rs operate_on_row(_mut)")],["get/set during compaction; keys after reopen"])
p("C06","A crash or error during a merge loses nothing",
 "At every instant of merging neighbouring shards, every key is reachable: the combined file is built under a temporary name, published only when it holds every live entry of both halves, and a half is deleted only afterwards; a merge that does not fit leaves both halves untouched. Whether merging succeeds or fails part-way, the open store afterwards uses exactly the files that exist on disk.",
 ["crash_points","fault_sequences","histories"],"every crash point and failing file operation during a merge, over all shapes of the shard tree",
 "Tests merge only balanced trees without failures; error returns in the middle are never exercised.",
 ["shard.rs","router.rs"],[("copy, publish, delete halves","shard.rs merge"),("tree rebuilt from disk on every outcome","router.rs merge_small_shards")],["keys after merge_small_shards returns Ok or Err, and after reopen"])
p("C07","Reorganising data copies every live entry exactly once",
 "Splitting, merging and compacting copy every live entry of the source exactly once, with its own key and value, into the row it hashes to of the one target responsible for it, skip only deleted slots, and never write two entries into one target slot. Whatever file currently holds the newest version of a row is the one that is copied.",
 ["inputs","histories","schedules"],"all row contents, spans and interleavings with earlier compactions (including failed ones)",
 "Tests check counts on random data; a copy that skips a slot in a rare layout, or copies from a superseded file after a failed compaction, is not reached.",
 ["shard.rs"],[("copy loops over all rows and slots","shard.rs split/merge/do_compaction")],["get of every key after the reorganisation"])
p("C08","Row data is only touched under the row's lock",
 "A slot is read only while the row's lock is held at least shared, and changed only while it is held exclusively and for the same row, with the choice between the old and the compacted file made under that lock too. Structural replacement of a shard's files excludes every operation on it.",
 ["schedules"],"all interleavings of any number of threads",
 "Data races need particular interleavings; the unit tests' threads hit them with negligible probability and no oracle.",
 ["shard.rs"],[("row locks","shard.rs operate_on_row/operate_on_row_mut/do_compaction"),("files lock","shard.rs"),("router node lock","router.rs")],["any concurrent use"])
p("C09","No operation can deadlock with itself or with others",
 "Every public operation and background task finishes if its I/O does: locks are acquired in one global order, no thread waits for a lock it already holds (including re-acquiring a shared lock behind a waiting writer), no thread waits for a background task while holding a lock that task needs, and no caller-supplied code runs while an internal lock is held.",
 ["schedules","programs"],"all interleavings, all tree shapes and all caller programs (including iterating one collection while feeding another)",
 "A deadlock needs a specific schedule, tree shape or caller program; tests exercise a few of each.",
 ["shard.rs","router.rs","store.rs","lists.rs","queues.rs","stats.rs"],[("lock order node > compaction handle > files > row > stats","whole crate"),("keyed locks outermost","lists.rs/queues.rs")],["any call returning"])
p("C10","Conditional updates are atomic and decide on the complete stored value",
 "Replace (with or without an expected value) and get-or-create decide and act as one step with respect to every other operation on the same key: replace changes the value only if the key exists and, when an expectation is given, only if the complete current value equals it, and otherwise changes nothing; get-or-create stores only if the key is absent. This holds for plain keys, list elements and typed wrappers alike.",
 ["schedules","inputs"],"all interleavings of operations on the same key and all stored/expected/new values",
 "Tests use one short value and one thread; prefix, suffix or check-then-act mistakes stay invisible.",
 ["shard.rs","store.rs","lists.rs","typed.rs"],[("decision under the row's write lock","shard.rs insert/try_replace"),("list variant under keyed lock","lists.rs _insert_to_list")],["ReplaceStatus/GetOrCreateStatus and the value afterwards"])
p("C11","Hash collisions never confuse keys",
 "Operations on one key never return, modify or delete another key's entry, however the hashes of the two keys relate: a slot is accepted only after the complete stored key was compared with the complete requested key, and otherwise the search goes on with the next candidate slot. An entry is only added when no candidate slot holds the key, so a key never occurs twice. (Lists are identified by the 64-bit hash of their key, as stored.)",
 ["inputs"],"all pairs (and larger sets) of keys with equal shard, row and signature bits",
 "A 32-bit signature collision within one row practically never happens in random tests; the whitebox test covers only plain get/set.",
 ["shard.rs","hashing.rs","lists.rs"],[("full key compare after signature match","shard.rs get/remove/try_replace"),("suffix and index compare for list items","lists.rs get_from_list_at_index")],["get/set/remove/replace of colliding keys; iteration of lists with colliding items"])
p("C12","Key spaces of different APIs and types never overlap",
 "Plain keys, typed keys, lists, list elements, queues and queue elements live in disjoint key spaces, and so do typed keys of different key types: no operation of one API can read, change or delete data of another, even for equal user-supplied key bytes. Plain iteration returns exactly the plain keys, with the key bytes the user supplied.",
 ["inputs","programs"],"all user keys, mixing all APIs on one store",
 "Overlap needs crafted key bytes or rarely-combined APIs; tests mix few of them.",
 ["store.rs","lists.rs","queues.rs","typed.rs"],[("distinct trailing namespace bytes","store.rs/lists.rs/queues.rs/typed.rs key builders"),("distinct type ids","typed.rs")],["get through one API after writes through another; iter"])
p("C13","Oversized input is rejected without any effect",
 "An operation given a key or value too large to be stored is refused as a whole (an error, all or nothing): no entry is truncated or wrapped, and no collection's length or contents change. Everything that passes the check fits the on-disk fields that will hold it.",
 ["inputs"],"all key and value lengths, for every API that stores data",
 "Tests check plain set with one oversized value; the collection APIs have several internal writes of which only the last would be refused.",
 ["store.rs","lists.rs","queues.rs","lib.rs"],[("size checks before the first effect","store.rs insert_internal/ensure_sizes, lists.rs, queues.rs")],["error returned; list_len/queue_len/iteration unchanged"])
p("C14","Storage errors are reported, never swallowed",
 "If a file operation the result depends on fails, the public call that needed it returns an error: it neither panics nor reports success nor continues with made-up data. Short reads and writes are never taken for complete ones.",
 ["fault_sequences"],"every single failing file operation in every public call and background task",
 "No test injects I/O failures.",
 ["shard.rs","router.rs","store.rs","lists.rs","queues.rs"],[("? propagation","whole crate"),("exact-length reads and writes","shard.rs read_kv/write_kv")],["Result of the call"])
p("C15","Flush makes all previously acknowledged changes durable",
 "When flush returns success, every change acknowledged before flush was called has been handed to stable storage: every shard and every file of it that currently holds live entries is synchronised, and a failure to do so is reported. With flush aggregation enabled, an acknowledged change was synchronised before its call returned.",
 ["crash_points","schedules","configurations"],"all shard trees, all stages of background compaction and all interleavings of aggregated flushes",
 "Loss after flush shows only after a power failure; tests never cut power and never flush during compaction.",
 ["shard.rs","router.rs","store.rs"],[("sync of every file of every shard","store.rs flush, router.rs call_on_all_shards, shard.rs flush/flush_aggregation")],["state after power failure"])
p("C16","A store directory is used by one process at a time",
 "While one process has a store open, opening the same directory elsewhere fails and touches nothing: exclusivity is obtained before any data file is read, modified or deleted, is kept as long as anything can still modify the directory, and is given up only after everything of the store has been shut down. It is always the same lock for the same directory.",
 ["schedules","programs","crash_points"],"all interleavings of open/close in several processes",
 "One test opens twice in a row; the order of lock and first file access, or of release and last access, is not observable that way.",
 ["store.rs"],[("lock file taken before loading shards","store.rs open"),("lock field dropped after the shards","store.rs struct order")],["second open"])
p("C17","Incompatible or damaged files are refused, not misread",
 "A data file whose magic, version or size does not match what this version writes is never interpreted or modified: opening fails, unless the user opted into clearing, in which case the file's old contents (including leftovers of an interrupted compaction of it) are discarded completely. The check is made on every shard file before it is mapped or rewritten.",
 ["inputs","configurations"],"all contents of the header of every file in the directory",
 "Tests corrupt one version field; magic, size, short header and leftover compaction files are not varied.",
 ["shard.rs"],[("header check before mapping","shard.rs open")],["open of a doctored directory"])
p("C18","Every key is read and written at the same place",
 "For every tree of shards, the shard and row chosen for a key are the same for reads, writes, removals, and for the copies made by splits, merges and compactions, before and after any reorganisation and reopening. The shards always cover the whole hash space without gaps or overlaps.",
 ["histories","inputs"],"all keys and all sequences of splits, merges, compactions and reopenings",
 "A boundary off by one affects one hash value in thousands; tests sample.",
 ["router.rs","shard.rs","hashing.rs","store.rs"],[("same comparison against the lower half's end everywhere","router.rs shared_op/insert"),("same midpoint for partitioning, names and spans","shard.rs split"),("pairing of equal neighbours","router.rs treeify")],["get after any history"])
p("C19","Iterating an unchanging store returns every key exactly once",
 "On a store that is not being modified, iteration returns every plain entry exactly once and then ends, and an iterator resumed from a saved cookie returns exactly the entries that the original had not yet returned. An error is returned as an item and does not silently end or restart the iteration.",
 ["inputs","histories"],"all store contents and shard trees, and every position at which a cookie is taken",
 "Tests iterate one population; the last slot of a row, row boundaries, shard boundaries and cookies at them are not singled out.",
 ["store.rs","shard.rs"],[("position advance and wrap","store.rs CandyStoreIterator::next"),("cookie pack/unpack","store.rs cookie/from_cookie")],["iter, iter_from_cookie"])
p("C20","Operations on one list or queue are serialised",
 "Each list or queue operation that changes a collection's bookkeeping takes effect as if it ran alone on that collection: it holds the collection's lock from before it first reads the bookkeeping until after its last write, and all operations on one collection use the same lock.",
 ["schedules"],"all interleavings of operations on one collection",
 "Lost updates need two threads between a read and a write of the same header; the one threaded list test rarely hits that.",
 ["lists.rs","queues.rs"],[("keyed lock by collection key hash","lists.rs lock_list and callers")],["list_len, queue_len, iteration after concurrent updates"])
p("C21","List and queue bookkeeping always matches their contents",
 "After every completed operation a collection's recorded length equals the number of its elements and its recorded range covers all of them, a collection whose range has become empty leaves nothing behind, and positions handed out are never reused while occupied. Pushes and inserts add exactly one element at the requested end, pops and removals take away exactly the element they report, and discard removes all.",
 ["histories"],"all sequences of list and queue operations, including removals from the middle and of the last element",
 "Tests run fixed sequences; e.g. removing by index the only element of a queue, or popping over holes, is not covered.",
 ["lists.rs","queues.rs"],[("header arithmetic","lists.rs, queues.rs")],["list_len, queue_len, queue_range, iteration, pops"])
p("C22","Typed wrappers behave exactly like the untyped operations",
 "Every typed operation performs the untyped operation of the same name on the encoded key and value, passing all options on, and returns its decoded result; undecodable data is reported as an error and never as a panic, and encoding and decoding use the same format everywhere.",
 ["inputs","programs"],"all typed operations, key/value types and stored bytes",
 "Tests use few wrappers with well-formed data; a head/tail mix-up or a panic on foreign bytes goes unnoticed.",
 ["typed.rs"],[("delegation","typed.rs")],["results of CandyTypedStore/List/Deque"])
p("C23","Statistics count what happened",
 "The number of entries reported equals the number of live entries for every history: each completed addition counts one insert and each completed removal one removal, reorganisations preserve the difference, and garbage counted never exceeds bytes written. A crash may leave an interrupted operation counted without effect, but never more removals than inserts. Clearing resets every counter, and a report includes all shards and all counters, each in its own field.",
 ["histories","schedules"],"all histories of operations and reorganisations",
 "Tests look at a few counters after simple runs; drift appears only after rare events.",
 ["stats.rs","shard.rs","store.rs"],[("counter updates next to the slot updates","shard.rs"),("clear/fill of every counter","stats.rs"),("aggregation","store.rs stats")],["Stats"])
p("C24","Clearing leaves an empty, usable store whatever is running",
 "After clear returns, no previously stored key is visible, now or after reopening, and new data is kept: all data files including those of a running compaction are gone, no background task of the old contents can publish a file afterwards, and fresh shards cover the whole key space. No other operation sees the intermediate state.",
 ["schedules","histories"],"clear at any stage of a background compaction and against any concurrent operations",
 "The test clears an idle store.",
 ["router.rs","store.rs","shard.rs"],[("exclusive lock, wait for background work, delete, re-create","router.rs clear")],["get/iter/flush/reopen after clear"])
p("C25","List and queue updates are ordered so that a crash cannot corrupt later use",
 "If the process dies at any point of inserting into or removing from a list or queue, the collection can still be read, iterated, and extended, and no later insert reuses a position the crash left occupied: inserts publish the extended range before the link and the link before the element, and the first element's range is recorded before the element. (List compaction and promotion, documented as not crash-safe, and bulk extension are excepted.)",
 ["crash_points"],"every crash point inside the multi-step list and queue operations, followed by arbitrary further operations",
 "The crasher kills at random times and checks one workload.",
 ["lists.rs","queues.rs"],[("order of the raw writes","lists.rs _insert_to_list/owned_remove_from_list, queues.rs _push_to_queue")],["iteration and pushes after reopen"])
p("C26","Writes always make progress or fail",
 "Storing an entry that fits ends in finitely many steps: a full shard is split and the operation retried against the half responsible for the key, and when a shard can no longer be split the call returns an error, never deleting data and never exposing the internal retry condition. A compaction that cannot start never stops later writes.",
 ["inputs","histories","configurations"],"all key sets, however skewed their hashes, and all configurations",
 "A row fuller than its width at the smallest span needs hundreds of crafted keys; no test reaches the smallest span.",
 ["router.rs","shard.rs","store.rs"],[("retry loop","router.rs insert"),("span check","shard.rs split")],["set returns"])
p("C27","Big values come back whole",
 "Storing a big value and reading it back yields exactly the same bytes for every length including zero, replacing it leaves nothing of the previous value, removing it leaves nothing behind, and the result says whether a value existed.",
 ["inputs","histories"],"all value lengths, in particular zero, exact multiples of the chunk size, and shrinking replacements",
 "Tests use one length.",
 ["store.rs","queues.rs","typed.rs"],[("chunked queue","store.rs set_big/get_big/remove_big")],["get_big, set_big, remove_big"])
p("C28","A failed background compaction is contained",
 "If a background compaction fails at any point, no acknowledged write is lost or hidden, the failure reaches some later caller as an error rather than a panic or a hang, and data already redirected to the new file is neither truncated nor ignored by later operations. Closing the store waits for running background work.",
 ["fault_sequences","schedules"],"every failing operation inside a background compaction, followed by arbitrary operations",
 "No test makes a compaction fail.",
 ["shard.rs","router.rs","store.rs"],[("error hand-over through the handle","shard.rs begin_compaction/wait_for_compaction"),("target kept until merged","shard.rs")],["results of later set/get/flush/stats/merge"])
p("C29","Results say what actually happened",
 "The status and previous value returned by set, replace, get-or-create, remove and their list and queue forms describe exactly the change made: an addition is reported only if the key was absent and is now present, the previous value is the one that was replaced or removed, and a refusal is reported only if nothing changed. Pops, peeks and iteration report an element if and only if there is one, in order from the requested end.",
 ["inputs","histories","schedules"],"all operations in all states",
 "Tests check each status in its simplest situation.",
 ["store.rs","shard.rs","lists.rs","queues.rs"],[("status mapping","shard.rs insert, store.rs, lists.rs")],["returned statuses"])
p("C30","Opening never destroys data and always leaves complete coverage",
 "Opening an existing directory of this version deletes or truncates only leftovers of interrupted reorganisations whose contents are entirely held elsewhere, keeps every other file intact, ignores foreign files, and yields a tree covering the whole hash space; fresh shards are created only if no shard exists. Opening after a crash during creation or clearing succeeds.",
 ["crash_points","histories"],"all directory contents a crash can leave",
 "Tests reopen directories left by clean shutdowns.",
 ["router.rs","shard.rs"],[("file filters and covering ranges","router.rs load"),("creation only when empty","router.rs new")],["open, then get"])
p("C31","Concurrent histories on plain keys are linearizable",
 "Every concurrent history of operations on plain keys can be explained by executing the operations one at a time in an order consistent with real time.",
 ["schedules","histories"],"all concurrent histories","Needs all interleavings.",
 ["shard.rs","router.rs"],[("row locks","shard.rs")],["results of concurrent operations"])
p("C32","Acknowledged data survives loss of power without an explicit flush",
 "After a power failure the store opens to a state in which every visible entry is complete, even for writes that were never flushed.",
 ["crash_points"],"all subsets and orders of unflushed page write-backs","Needs control of the page cache.",
 ["shard.rs"],[("none: relies on the kernel's write-back order","shard.rs")],["state after power loss"])
p("C33","File offsets never outgrow their field",
 "For every configuration and history, the position of an entry in its file fits the bits reserved for it, so no location ever wraps around.",
 ["histories","configurations"],"all histories of writes, including those during a running compaction","Needs gigabytes of writes.",
 ["shard.rs"],[("32-bit offset field; size limit before write","shard.rs insert/write_kv")],["get after >4GB of writes to one file"])
p("C34","Iteration concurrent with reorganisation misses no stable key",
 "A key present during a whole iteration is returned by it even if shards are split, merged or compacted meanwhile.",
 ["schedules","histories"],"all interleavings of iteration with writers","Needs reorganisation between two next calls.",
 ["store.rs"],[("position = shard, row, slot","store.rs CandyStoreIterator")],["iter during writes"])
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
