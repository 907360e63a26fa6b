"""property -> rule functions, configurations, explanation"""
B=['default','flush_aggregation']
PROPS={}
def P(pid,rules,explain,configs=B,level_note=None,technique=None,assume=None,thorough=None):
    PROPS[pid]=dict(rules=rules,explain=explain,configs=configs,thorough=thorough or ['default','flush_aggregation','whitebox_testing'],assume=assume or [],note=level_note,technique=technique)
P('C01',[('shard','C01')],
  'every store of a slot signature or location word on every abstract path through the shard operations, with the data write, fence and hash it depends on',
  technique='path-sensitive MIR dataflow: publication-order typestate over slot stores',
  level_note='Every path class through the shard operations is enumerated (one generic loop iteration); decides order and provenance of slot stores, not hardware or page-cache behaviour.')
P('C02',[('shard','C02')],
  'every write into a shard file, every change of the write position, every set_len and truncating open, on every abstract path',
  technique='path-sensitive MIR dataflow: reservation provenance of file writes, truncation guards',
  level_note='Ranges are disjoint because each write uses its own atomic advance and its length; overflow of the 32-bit offset field is C33 (not claimed).')
P('C03',[('shard','C03'),('apiops','C03_api')],
  'the packing expression of the writer composed symbolically with every unpacking/slicing expression of every reader, by term rewriting on bit fields',
  technique='bit-field value numbering on MIR: reader expressions composed with writer packing',
  level_note='Agreement is decided for all keys/values whose lengths fit the fields (C13), for every read site of the crate.')

P('C07',[('copy','C07')],
  'every copy of an entry by split, merge, compaction and resumed compaction: source slot, liveness test, target file/row/slot, loop coverage of all rows and slots',
  technique='path-sensitive MIR dataflow: loop-coverage and slot-bijection rules over abstract copy loops',
  level_note='Loops are summarised by one generic iteration; completeness is decided from iteration domains, liveness tests and counter steps, on every path class.')

PM='path-sensitive MIR dataflow: '
P('C04',[('bulk','C04')],
  'every creation, rename and deletion of a file by a split, the installation of its halves in the tree, the overlap filter and the deletions made when a store is opened',
  technique=PM+'publish-before-delete typestate over directory operations, span coverage, decision table of the overlap filter',
  level_note='Crash points are the gaps between consecutive file operations on each abstract path; ordering inside the kernel is outside the model.')
P('C05',[('bulk','C05')],
  'every movement of the progress marker, the row copy that precedes it, the publication and switch of the compacted file, the start of a compaction and the adoption of a leftover at open',
  technique=PM+'progress-marker typestate, publish/switch ordering, adoption rules',
  level_note='Crash points are the gaps between consecutive stores and file operations on each abstract path.')
P('C06',[('bulk','C06')],
  'every creation, rename and deletion of a file by a merge, the pairs merged by the tree walk, and the reload of the tree after success and failure',
  technique=PM+'publish-before-delete typestate, tree-walk pairing, reload-on-every-exit rule',
  level_note='Crash points are the gaps between consecutive file operations on each abstract path.')
P('C08',[('rows','C08')],
  'every read and write of a slot, every choice between old and compacted file, with the locks held there',
  technique=PM+'lockset analysis with row-index agreement',
  level_note='Lock identity is symbolic (same shard, same row index term).')
P('C10',[('rows','C10'),('apiops','C10_api'),('place','C10_way')],
  'every conditional update of a slot: key match, expectation test, single critical section from the read to the store',
  technique=PM+'guarded-update rule on branch facts of the complete stored value',
  level_note='Decided at the row level for all modes, and for list elements and typed operations at the key-operation level under the list lock.')
P('C11',[('rows','C11'),('apiops','C11_api')],
  'every acceptance of a slot (return, overwrite, removal) and every insertion into an empty slot',
  technique=PM+'key-comparison dominance and candidate-exhaustion rule',
  level_note='The search over candidate slots is judged on one generic iteration plus its start index; for every public operation the keys and values it hands to the store are those it was given. Two lists with equal 64-bit hashes are not distinguished by the stored format and outside the claim.')
HI='histories of key operations over MIR paths: '
P('C12',[('colls','C12')],
  'the bytes of every key handed to the store by every public operation, and the suffix test of plain iteration',
  technique=HI+'symbolic key shapes (namespace byte, delimiters, list hash, type id) compared across all operations',
  level_note='Keys are compared as symbolic byte strings; two lists whose keys have equal 64-bit hashes are not distinguished by the stored format and outside the claim.')
P('C20',[('colls','C20')],
  'every operation on list and queue keys: the lock held, how it is derived from the collection, and which reads feed each write',
  technique=HI+'lockset analysis with lock-derivation agreement and read-under-lock dataflow',
  level_note='Lock identity is symbolic (same table, same index expression over the hash of the same collection key).')
P('C21',[('colls','C21')],
  'every critical section of the list and queue operations as an effect on elements, links, recorded range and recorded length',
  technique=HI+'effect balance between elements and bookkeeping by linear relations over the recorded bounds',
  level_note='Loops are judged per generic iteration, including the bounds of the positions walked; the bookkeeping read is assumed to satisfy the same invariant (induction over operations).')
P('C25',[('colls','C25')],
  'the order of header, link and element writes in every critical section of the list and queue operations',
  technique=HI+'order typestate over header, link and element updates with covered-position reasoning',
  level_note='Crash points are the gaps between consecutive key operations of each abstract path; each key operation is itself atomic (C01).')

P('C29',[('rows','C29_shard'),('results','C29_untyped'),('iters','C29_iter')],
  'every status, previous value, element and position returned by the shard, key, list and queue operations, against the effects on the same path',
  technique=HI+'effect/result agreement on every path (slot stores below, key operations above)',
  level_note='Decided at the row level for the shard operations and at the key-operation level for store, list and queue operations; loops by one generic iteration.')

P('C22',[('typed','C22')],
  'the sequences of key operations of every typed operation compared with those of the untyped operation of the same name applied to the encoded arguments; results, decoding and iterator closures of every typed operation',
  technique=HI+'equality of abstract behaviours of wrapper and wrapped operation under argument encoding',
  level_note='Both directions of inclusion between the behaviour sets; encoding itself (databuf) is an opaque function, compared by its configuration parameter.')

P('C13',[('apiops','C13')],
  'every write handed to a shard by every public operation, with the size tests passed before it, and every refusal for size with the changes made before it',
  technique=HI+'linear arithmetic over symbolic lengths: size bounds dominate writes, refusals precede effects',
  level_note='Lengths are symbolic and unbounded; entries met in the store are assumed to satisfy the same bounds (induction over operations).')
P('C27',[('apiops','C27')],
  'every path of set_big, get_big and remove_big (typed and untyped): removal of the previous value, chunks written and read, result',
  technique=HI+'chunk provenance and accumulation rule on every path',
  level_note='Loops are judged by one generic iteration; the chunk sequence itself is the library slice method, taken by its contract.')

P('C15',[('durable','C15')],
  'every successful path of flush through the shard tree, the files synchronised on it, and (flush_aggregation) every acknowledged change with the synchronisation it made or waited for',
  technique=PM+'tree-walk completeness, sync coverage of both files under the files lock, handshake typestate of aggregated syncs',
  level_note='What the kernel does with a successful sync is outside the model; a set of a value equal to the stored one is no change.')

P('C16',[('open','C16')],
  'every path of opening a store up to the lock, every function that can touch a data file, the order in which a store gives up its parts',
  technique=PM+'lock-before-effect typestate, reachability of file effects over the call graph, drop-order and ownership rules on types',
  level_note='What the operating system lock guarantees between processes is outside the model (fslock).')
P('C17',[('open','C17')],
  'every mapping, header write, length change and discard of a file, with the header tests passed before it on the same path',
  technique=PM+'verified-before-use typestate per file, refusal/mismatch agreement',
  level_note='A file is judged by magic, version and size, as the store does; the contents behind a valid header are not.')
P('C23',[('counters','C23')],
  'every path that changes a slot, with the counters it changes; the reading of the counters of a shard, their summation over all shards, and every field of the report; what clearing resets',
  technique=PM+'counter-balance analysis on MIR paths: each slot change paired with exactly one counter step in a fixed order, field-by-field agreement of the report with its source',
  level_note='A crash may leave the interrupted operation, or the row being compacted, counted without effect, never more removals than inserts; last_*_stats lists are drained when read, by design; a reservation whose write failed counts as occupied, not as garbage.')
P('C24',[('open','C24')],
  'every path of clear: lock, wait for background work, files removed and passed over, what replaces the tree, and what is reported',
  technique=PM+'exclusive-section typestate, prefix decision table of the files removed, background-task rules',
  level_note='The loop over the directory is judged by one generic entry.')
P('C30',[('open','C30')],
  'every file removed, opened or created when a directory is opened, the ranges covered by the shards opened, and every state a crash can leave of a file being created against every refusal',
  technique=PM+'range tiling by linear reasoning on emitted spans, creation-state enumeration against refusal conditions',
  level_note='Loops over directory entries and ranges are judged by one generic iteration with their accumulators; crash states are those between consecutive file operations.')

P('C09',[('locks','C09')],
  'every lock, wait, send, callback and call of generic code in every public operation and in the background thread, with the locks held there',
  technique='interprocedural lock-order analysis on MIR paths: class graph acyclicity, instance re-acquisition, exclusive-ancestor requirements, wait-for graph with background tasks',
  level_note='Deadlock freedom follows from an acyclic order over lock classes, a tree order inside the NODE class, and the absence of waits for tasks that need a held lock; progress of the file operations and of the scheduler is assumed.')
P('C14',[('errors','C14')],
  'every file operation, wait, hand-over and call that can carry a failure, on every path of every operation and of the background thread: the failure must end as an error',
  technique='error-flow analysis on MIR paths: obligation per fallible operation (looked at, or handed on; Err branch ends in Err), with a fixpoint of which functions can fail',
  level_note='Failures of posix_fallocate and mlock are not covered: the operation does not depend on them. A page fault of the mapped index (SIGBUS) is outside the claim.')
P('C26',[('progress','C26')],
  'every way the retry loop of an insertion goes round or ends, every path of a split up to its first effect, every request to be split, and every failing start of a compaction',
  technique='progress analysis on MIR paths: each way round a retry loop must have narrowed the shard, ranking by the width of its range; refusal and exposure rules on branch facts',
  level_note='Termination is relative to finitely many concurrent merges, and the file system and scheduler are assumed to answer.')
P('C28',[('progress','C28')],
  'every wait, handle, background task and its outcome, and every effect on the files of a shard whose compaction may have failed',
  technique='typestate analysis on MIR paths: task handle (taken, waited for, reported once), two-file state of a shard known empty under its lock before reorganisation',
  level_note='A panic of the background thread itself reaches the waiter as a closed channel and is counted as a failure.')
P('C18',[('place','C18')],
  'the way down the tree of shards for every operation, the hash and place used by every key operation of the store, the copies of reorganisations, the ranges of every node and tree built',
  technique=PM+'agreement of the place computed by every reader, writer and copier; symbolic sequence algebra over the node list; range tiling by linear reasoning',
  level_note='The same seed and directory are assumed on every open, as documented. Loops over nodes and files are judged by one generic iteration.')
P('C19',[('walk','C19')],
  'every path of the iterator over the store: where it reads, how it moves on, when it leaves a row, a shard and the store, what it returns, and the cookie',
  technique=PM+'successor rule: after every position read, the fields of the iterator hold its successor in slot/row/shard order; bit-field round trip of the cookie',
  level_note='The ranges of the shards tile the hash space (imported from C30), and an unchanging store keeps its tree; the loop is judged on one generic iteration from an arbitrary position.')
