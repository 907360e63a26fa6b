S='shard.rs'; RT='router.rs'; ST='store.rs'; LS='lists.rs'; QU='queues.rs'; TY='typed.rs'; LB='lib.rs'
SEEDS=[
dict(id='c03-key-mask',property='C03',
 needs='a key of 8192 bytes or more',
 breaks='reading masks the key length with 13 instead of 14 bits, so long keys are read back with the wrong boundary and are never found again',
 edits=[(S,'''        let klen = (offset_and_size >> 48) as usize;
        debug_assert_eq!(klen >> 14''','''        let klen = ((offset_and_size >> 48) & 0x1fff) as usize;
        debug_assert_eq!(klen >> 14''')],
 demo='''
fn run(_: &str) -> R<()> {
    let db = CandyStore::open(dir("db"), Config::default())?;
    for n in [1, 100, 4000, 8190, 8191, 8192, 9000, 12000, MAX_KEY_SIZE] {
        let k = "k".repeat(n);
        db.set(&k, "val")?;
        anyhow::ensure!(db.get(&k)? == Some("val".into()), "key of {n} bytes lost");
    }
    anyhow::ensure!(db.iter().count() == 9);
    for res in db.iter() { let (k, v) = res?; anyhow::ensure!(v == b"val" && k.iter().all(|c| *c == b'k')); }
    Ok(())
}
'''),
dict(id='c04-publish',property='C04',fault=True,
 needs='a crash between publishing the first and the second half of a split shard',
 breaks='the original shard is deleted after only one half was published; the other half is still under its temporary name and is discarded when the store is opened',
 edits=[(S,'''        std::fs::rename(
            top_filename,
            self.config
                .dir_path
                .join(format!("shard_{:04x}-{:04x}", mid, self.span.end)),
        )?;
        std::fs::remove_file(self.config.dir_path.join(format!(
            "shard_{:04x}-{:04x}",
            self.span.start, self.span.end
        )))?;
''','''        // the halves replace the original
        std::fs::remove_file(self.config.dir_path.join(format!(
            "shard_{:04x}-{:04x}",
            self.span.start, self.span.end
        )))?;
        std::fs::rename(
            top_filename,
            self.config
                .dir_path
                .join(format!("shard_{:04x}-{:04x}", mid, self.span.end)),
        )?;
''')],
 demo='''
fn cfg() -> Config { Config { max_shard_size: 40_000, ..Config::default() } }
fn run(a: &str) -> R<()> {
    if a == "c" {
        let db = CandyStore::open(dir("db"), cfg())?;
        for i in 0..1000 {
            db.set(&format!("key{i}"), &"x".repeat(100))?;
            std::fs::write(format!("{}/acked", data()), format!("{}", i + 1))?;
        }
        return Ok(());
    }
    child("c", "rename:top_:1:kill");
    let n: usize = std::fs::read_to_string(format!("{}/acked", data()))?.parse()?;
    anyhow::ensure!(n > 100 && n < 999);
    let db = CandyStore::open(dir("db"), cfg())?;
    for i in 0..n { anyhow::ensure!(db.get(&format!("key{i}"))?.is_some(), "key{i} of {n} lost"); }
    Ok(())
}
'''),
dict(id='c05-marker-first',property='C05',fault=True,
 needs='a crash in the middle of copying a row during a compaction',
 breaks='the progress marker is advanced before the row was copied, so after a crash the interrupted compaction is resumed behind a row that is only half there',
 edits=[(S,'''            let mut target_col = 0;

            // an interrupted''','''            let mut target_col = 0;

            // readers wait for the row's lock, so it's safe to account for it already
            target
                .header()
                .compacted_up_to
                .fetch_add(1, Ordering::Release);

            // an interrupted'''),(S,'''                .fetch_add(target_col as u64, Ordering::Relaxed);
            target
                .header()
                .compacted_up_to
                .fetch_add(1, Ordering::Release);
''','''                .fetch_add(target_col as u64, Ordering::Relaxed);
''')],
 demo='''
fn cfg() -> Config { Config { min_compaction_threashold: 4096, ..Config::default() } }
fn run(a: &str) -> R<()> {
    if a == "c" {
        let db = CandyStore::open(dir("db"), cfg())?;
        for i in 0..500 { db.set(&format!("key{i}"), &"x".repeat(40))?; }
        for i in 0..110 { db.set(&format!("key{i}"), &"y".repeat(40))?; }
        ms(3000);
        return Ok(());
    }
    let st = child("c", "pwrite:compact_:30:kill");
    anyhow::ensure!(st.code() == Some(99), "{st:?}");
    let db = CandyStore::open(dir("db"), cfg())?;
    for i in 0..500 { anyhow::ensure!(db.get(&format!("key{i}"))?.is_some(), "key{i} lost"); }
    Ok(())
}
'''),
dict(id='c08-drop-early',property='C08',fault=True,
 needs='a write to a row between the time a running compaction has collected its entries and the time it has copied them',
 breaks="the row's lock is released before its copy is complete, so a value written in between goes to the old file and is lost when the new one takes over",
 edits=[(S,'''            let _row_guard = row_locks[row_idx].write();
            let src_row = src.row(row_idx);''','''            let row_guard = row_locks[row_idx].write();
            let src_row = src.row(row_idx);'''),(S,'''            for (src_col, &sig) in src_row.signatures.iter().enumerate() {
                if sig == INVALID_SIG {
                    continue;
                }
                let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[src_col])?;

                let ph = PartedHash::new(&config.hash_seed, &k);
''','''            let mut kvs = vec![];
            for (src_col, &sig) in src_row.signatures.iter().enumerate() {
                if sig != INVALID_SIG {
                    kvs.push(src.read_kv(&stats, src_row.offsets_and_sizes[src_col])?);
                }
            }
            // don't block everyone while we're writing
            drop(row_guard);

            for (k, v) in kvs {
                let ph = PartedHash::new(&config.hash_seed, &k);
''')],
 demo='''
fn cfg() -> Config { Config { min_compaction_threashold: 4096, ..Config::default() } }
fn run(a: &str) -> R<()> {
    if a == "c" {
        let db = CandyStore::open(dir("db"), cfg())?;
        for i in 0..300 { db.set(&format!("key{i}"), &"x".repeat(40))?; }
        for i in 0..97 { db.set(&format!("key{i}"), &"y".repeat(40))?; }
        set_fault("pwrite:compact_:0:s3");
        let mut last = BTreeMap::new();
        for n in 0..6 { for i in 0..300 {
            db.set(&format!("key{i}"), &format!("{n}"))?;
            last.insert(i, format!("{n}"));
            if i % 10 == 0 { ms(1) }
        } }
        db.stats();
        for (i, v) in last { anyhow::ensure!(db.get(&format!("key{i}"))? == Some(v.into()), "key{i} has an old value"); }
        return Ok(());
    }
    for _ in 0..3 { _ = std::fs::remove_dir_all(dir("db")); anyhow::ensure!(child("c", "").success()); }
    Ok(())
}
'''),
dict(id='c09-lock-swap',property='C09',fault=True,
 needs='statistics requested while a compaction is queued but has not started, and a second writer that had decided to compact the same shard',
 breaks="a writer waits for the compaction handle while holding the shard's files, which the compaction needs, and the one holding the handle waits for the compaction",
 edits=[(S,'''        let mut handle_guard = self.compaction_handle.lock();
        let mut files_guard = self.files.write();

        if files_guard.0''','''        let mut files_guard = self.files.write();
        let mut handle_guard = self.compaction_handle.lock();

        if files_guard.0''')],
 demo='''
fn run(a: &str) -> R<()> {
    if a == "c" {
        std::thread::spawn(|| { ms(20000); eprintln!("deadlock"); std::process::exit(3) });
        let cfg = Config { min_compaction_threashold: 4096, num_compaction_threads: 1, expected_number_of_keys: 50_000, ..Config::default() };
        let db = Arc::new(CandyStore::open(dir("db"), cfg)?);
        let (mut lo, mut hi) = (vec![], vec![]);
        for i in 0..1000 {
            let k = format!("key{i}");
            if uph(k.as_bytes()).0 < 0x8000 { lo.push(k) } else { hi.push(k) }
        }
        let other = (1..lo.len()).find(|i| uph(lo[*i].as_bytes()).1 != uph(lo[0].as_bytes()).1).unwrap();
        for ks in [&lo, &hi] {
            for k in &ks[..80] { db.set(k, "x")?; }
            db.set(&ks[0], &"x".repeat(5000))?;
            db.set(&ks[0], "y")?; // wasted enough, the next change starts a compaction
        }
        set_fault("pwrite:shard_0000:0:s300;open:compact_0000:1:s800;pwrite:compact_8000:0:s30");
        db.set(&hi[1], "z")?; // keeps the only compaction thread busy
        let (d1, d2, k1, k2) = (db.clone(), db.clone(), lo[0].clone(), lo[other].clone());
        let t1 = std::thread::spawn(move || d1.set(&k1, "1").unwrap());
        let t2 = std::thread::spawn(move || d2.set(&k2, "2").unwrap());
        ms(700);
        db.stats();
        t1.join().unwrap();
        t2.join().unwrap();
        return Ok(());
    }
    anyhow::ensure!(child("c", "").success());
    Ok(())
}
'''),
dict(id='c10-cas-outside',property='C10',
 needs='two threads replacing the same key with an expected value at the same time',
 breaks='the expected value is compared before and not together with the replacement, so two replacements that expect the same value can both succeed',
 edits=[(ST,'''        Self::ensure_sizes(&key, &val)?;
        self.replace_raw(&self.make_user_key(key), val, expected_val)
''','''        Self::ensure_sizes(&key, &val)?;
        let full_key = self.make_user_key(key);
        if let Some(expected_val) = expected_val {
            // no need to take the row for writing if the value isn't the expected one
            match self.get_raw(&full_key)? {
                None => return Ok(ReplaceStatus::DoesNotExist),
                Some(v) if v != expected_val => return Ok(ReplaceStatus::WrongValue(v)),
                _ => {}
            }
        }
        self.replace_raw(&full_key, val, None)
''')],
 demo='''
fn run(_: &str) -> R<()> {
    let db = Arc::new(CandyStore::open(dir("db"), Config::default())?);
    db.set("ctr", "0")?;
    let ths = (0..4).map(|_| { let db = db.clone(); std::thread::spawn(move || -> R<()> {
        for _ in 0..3000 { loop {
            let cur = String::from_utf8(db.get("ctr")?.unwrap())?;
            let next = format!("{}", cur.parse::<u64>()? + 1);
            if db.replace("ctr", &next, Some(&cur))?.was_replaced() { break }
        } }
        Ok(())
    }) }).collect::<Vec<_>>();
    for t in ths { t.join().unwrap()?; }
    anyhow::ensure!(db.get("ctr")? == Some("12000".into()), "{:?}", db.get("ctr")?.map(String::from_utf8));
    Ok(())
}
'''),
dict(id='c12-item-ns',property='C12',
 needs='a queue whose name is the name of another queue followed by the eight bytes of an index used by that queue',
 breaks="queue elements share the key space of queue headers, so an element of one queue is taken for another queue's header",
 edits=[(ST,'QUEUE_ITEM_NAMESPACE: &[u8] = &[7]','QUEUE_ITEM_NAMESPACE: &[u8] = &[6]')],
 demo='''
fn run(_: &str) -> R<()> {
    let db = CandyStore::open(dir("db"), Config::default())?;
    let idx = db.push_to_queue_tail("q", &[7u8; 24])? as u64;
    let mut other = b"q".to_vec();
    other.extend_from_slice(&idx.to_le_bytes());
    anyhow::ensure!(db.queue_len(&other)? == 0, "a queue that never existed has elements");
    db.push_to_queue_tail(&other, "other")?;
    anyhow::ensure!(db.peek_queue_head("q")? == Some(vec![7u8; 24]), "element of another queue changed");
    Ok(())
}
'''),
dict(id='c13-limit',property='C13',
 needs='an element of exactly 65536 bytes',
 breaks='the limit for values is one more than their 16-bit size field can hold: such a value is accepted, and its size is added to the key size',
 edits=[(LB,'MAX_TOTAL_VALUE_SIZE: usize = 0xffff;','MAX_TOTAL_VALUE_SIZE: usize = 0x10000;')],
 demo='''
fn run(_: &str) -> R<()> {
    let db = CandyStore::open(dir("db"), Config::default())?;
    for n in (65530..65540).chain([65536 - 8]) {
        let val = vec![b'v'; n];
        if db.push_to_queue_tail("q", &val).is_ok() {
            let got = db.pop_queue_tail("q")?;
            anyhow::ensure!(got == Some(val.clone()), "queue element of {n} bytes was accepted but not kept");
        }
        if db.set_in_list("l", "i", &val).is_ok() {
            let got = db.get_from_list("l", "i")?;
            anyhow::ensure!(got == Some(val), "list element of {n} bytes was accepted but not kept");
        }
    }
    Ok(())
}
'''),
dict(id='c14-hash-read',property='C14',fault=True,
 needs='an I/O error while iterating a list',
 breaks='an element that cannot be read is skipped instead of reporting the error',
 edits=[(S,'''                kvs.push(file.read_kv(&self.stats, row.offsets_and_sizes[idx])?);
''','''                let Ok(kv) = file.read_kv(&self.stats, row.offsets_and_sizes[idx]) else {
                    continue;
                };
                kvs.push(kv);
''')],
 demo='''
fn run(a: &str) -> R<()> {
    if a.is_empty() {
        { let db = CandyStore::open(dir("db"), Config::default())?; for i in 0..5 { db.set_in_list("l", &format!("i{i}"), "v")?; } }
        for n in 1..30 { anyhow::ensure!(child(&format!("{n}"), "").success()); }
        return Ok(());
    }
    let db = CandyStore::open(dir("db"), Config::default())?;
    set_fault(&format!("pread:shard_:{a}:5"));
    if let Ok(items) = db.iter_list("l").collect::<R<Vec<_>>>() { anyhow::ensure!(items.len() == 5, "read {a} failed unnoticed"); }
    Ok(())
}
'''),
dict(id='c15-agg-window',property='C15',fault=True,features=['flush_aggregation'],
 needs='flush aggregation, and a change that arrives while the synchronisation of an earlier one is already running',
 breaks='the aggregation window stays open until the synchronisation is over, so a change that came too late for it is reported durable although nothing synchronised it',
 edits=[(S,'''            std::thread::sleep(delay);
            self.in_sync_agg_delay.store(false, Ordering::SeqCst);
            self.flush()
''','''            std::thread::sleep(delay);
            let res = self.flush();
            self.in_sync_agg_delay.store(false, Ordering::SeqCst);
            res
''')],
 demo='''
fn run(a: &str) -> R<()> {
    if a == "c" {
        let cfg = Config { flush_aggregation_delay: Some(Duration::from_millis(1)), ..Config::default() };
        let db = Arc::new(CandyStore::open(dir("db"), cfg)?);
        set_fault("sync:shard_:1:s3000;sync:shard_:2:5");
        let db2 = db.clone();
        let t1 = std::thread::spawn(move || db2.set("one", "1"));
        ms(1500); // the first one is in the middle of its sync
        let res = db.set("two", "2");
        t1.join().unwrap()?;
        // the second sync fails, so the second change cannot have been made durable
        anyhow::ensure!(res.is_err(), "reported durable without having been synchronised");
        return Ok(());
    }
    anyhow::ensure!(child("c", "").success());
    Ok(())
}
'''),
dict(id='c16-field-order',property='C16',fault=True,
 needs='closing a store while a compaction is running in the background',
 breaks="the directory's lock is given up before the shards are shut down, so another process can open it while the compaction still writes to it",
 edits=[(ST,'''pub struct CandyStore {
    pub(crate) root: ShardRouter,''','''pub struct CandyStore {
    _lockfile: LockFile,
    pub(crate) root: ShardRouter,'''),(ST,'''    pub(crate) keyed_locks: Vec<Mutex<()>>,
    _lockfile: LockFile,
''','''    pub(crate) keyed_locks: Vec<Mutex<()>>,
''')],
 demo='''
fn cfg() -> Config { Config { min_compaction_threashold: 4096, ..Config::default() } }
fn run(a: &str) -> R<()> {
    if a == "o" {
        // the shards cannot be opened, so this fails with that error as soon as it gets past the lock
        let Err(e) = CandyStore::open(dir("db"), cfg()) else { return Ok(()) };
        anyhow::ensure!(e.downcast_ref::<std::io::Error>().and_then(|e| e.raw_os_error()) == Some(5), "locked");
        return Ok(());
    }
    if a == "c" {
        let db = CandyStore::open(dir("db"), cfg())?;
        for i in 0..100 { db.set(&format!("key{i}"), "x")?; }
        db.set("key0", &"x".repeat(5000))?;
        db.set("key0", "y")?;
        set_fault("pwrite:compact_:0:s30");
        db.set("key0", "z")?;
        let done = Arc::new(AtomicBool::new(false));
        let d2 = done.clone();
        let th = std::thread::spawn(move || { drop(db); d2.store(true, Ordering::SeqCst) });
        while !child("o", "open:shard_:0:5").success() { ms(10) }
        ms(300);
        anyhow::ensure!(done.load(Ordering::SeqCst), "opened by another process while still compacting");
        th.join().unwrap();
        return Ok(());
    }
    anyhow::ensure!(child("c", "").success());
    Ok(())
}
'''),
dict(id='c17-and',property='C17',
 needs='a data file written by another version',
 breaks='a file is refused only if both its magic and its version are wrong, so files of other versions are opened as if they were of this one',
 edits=[(S,'''            if sz != size_of::<MetaHeader>()
                || meta_header.magic != SHARD_FILE_MAGIC
                || meta_header.version != SHARD_FILE_VERSION
            {''','''            let current = MetaHeader {
                magic: SHARD_FILE_MAGIC,
                version: SHARD_FILE_VERSION,
            };
            if sz != size_of::<MetaHeader>()
                || (meta_header.magic != current.magic && meta_header.version != current.version)
            {''')],
 demo='''
fn run(_: &str) -> R<()> {
    use std::os::unix::fs::FileExt;
    { let db = CandyStore::open(dir("db"), Config::default())?; db.set("k", "v")?; }
    let p = std::fs::read_dir(dir("db"))?.map(|e| e.unwrap().path()).find(|p| p.to_str().unwrap().contains("shard_")).unwrap();
    std::fs::OpenOptions::new().write(true).open(&p)?.write_all_at(&99u64.to_le_bytes(), 8)?;
    anyhow::ensure!(CandyStore::open(dir("db"), Config::default()).is_err(), "file of version 99 was opened");
    let mut ver = [0u8; 8];
    std::fs::File::open(&p)?.read_exact_at(&mut ver, 8)?;
    anyhow::ensure!(u64::from_le_bytes(ver) == 99, "file of version 99 was modified");
    Ok(())
}
'''),
dict(id='c19-cookie',property='C19',
 needs='a cookie taken behind the 256th slot of a row',
 breaks="the cookie keeps only eight bits of the slot's position, so a resumed iteration returns entries again",
 edits=[(ST,'(self.entry_idx as u64 & 0xffff)','(self.entry_idx as u64 & 0xff)')],
 demo='''
fn run(_: &str) -> R<()> {
    let db = CandyStore::open(dir("db"), Config::default())?;
    for i in 0..22_000 { db.set(&format!("key{i}"), "v")?; }
    let all = db.iter().map(|r| r.unwrap().0).collect::<Vec<_>>();
    let mut it = db.iter();
    let mut seen = 0;
    while it.next().is_some() {
        seen += 1;
        if seen % 97 == 0 {
            let rest = db.iter_from_cookie(it.cookie()).take(3).map(|r| r.unwrap().0).collect::<Vec<_>>();
            anyhow::ensure!(rest == all[seen..all.len().min(seen + 3)], "resumed at the wrong place after {seen}");
        }
    }
    anyhow::ensure!(seen == all.len());
    Ok(())
}
'''),
dict(id='c20-extend',property='C20',
 needs='two threads extending the same queue',
 breaks="the queue's lock is released immediately, so both use the same positions and elements are lost",
 edits=[(QU,'''        let _guard = self.lock_list(queue_ph);

        let mut queue_bytes''','''        let _ = self.lock_list(queue_ph);

        let mut queue_bytes''')],
 demo='''
fn run(_: &str) -> R<()> {
    let db = Arc::new(CandyStore::open(dir("db"), Config::default())?);
    let ths = (0..4).map(|t| { let db = db.clone(); std::thread::spawn(move || -> R<()> {
        for i in 0..200 { db.extend_queue("q", (0..20).map(|j| format!("{t}-{i}-{j}")))?; }
        Ok(())
    }) }).collect::<Vec<_>>();
    for t in ths { t.join().unwrap()?; }
    let items = db.iter_queue("q").map(|r| r.unwrap().1).collect::<HashSet<_>>();
    anyhow::ensure!(items.len() == 16000 && db.queue_len("q")? == 16000, "{} {}", items.len(), db.queue_len("q")?);
    Ok(())
}
'''),
dict(id='c21-discard-break',property='C21',
 needs='discarding a list that has a hole in the middle',
 breaks='discarding stops at the first hole, so the elements behind it stay behind and are still found by key',
 edits=[(LS,'''            let Some((_, full_key, _)) = self.get_from_list_at_index(list_ph, idx, false)? else {
                continue;
            };
            self.remove_raw(&full_key)?;''','''            let Some((_, full_key, _)) = self.get_from_list_at_index(list_ph, idx, false)? else {
                break;
            };
            self.remove_raw(&full_key)?;''')],
 demo='''
fn run(_: &str) -> R<()> {
    let db = CandyStore::open(dir("db"), Config::default())?;
    for i in 0..10 { db.set_in_list("l", &format!("i{i}"), "v")?; }
    db.remove_from_list("l", "i4")?;
    anyhow::ensure!(db.discard_list("l")?);
    for i in 0..10 { anyhow::ensure!(db.get_from_list("l", &format!("i{i}"))?.is_none(), "i{i} is still there"); }
    anyhow::ensure!(db.iter_raw().count() == 0);
    Ok(())
}
'''),
dict(id='c22-compact-untyped',property='C22',
 needs='compacting a typed list that has holes',
 breaks="the typed wrapper compacts the list of the bare encoded key instead of the typed list",
 edits=[(TY,'''        let list_key = Self::make_list_key(list_key);
        self.store.compact_list_if_needed(&list_key, params)
''','''        let list_key = list_key.to_bytes::<LE>();
        self.store.compact_list_if_needed(&list_key, params)
''')],
 demo='''
fn run(_: &str) -> R<()> {
    let db = Arc::new(CandyStore::open(dir("db"), Config::default())?);
    let l = CandyTypedList::<u32, u32, u32>::new(db.clone());
    for i in 0..300 { l.set(&1, &i, &i)?; }
    for i in 10..200 { l.remove(&1, &i)?; }
    anyhow::ensure!(l.compact_if_needed(&1, ListCompactionParams::default())?, "a list full of holes was not compacted");
    anyhow::ensure!(l.iter(&1).count() == 110);
    Ok(())
}
'''),
dict(id='c24-compact-leftover',property='C24',fault=True,
 needs='a compaction of a shard that came from a split fails, then the store is cleared, filled until it splits again, and reopened',
 breaks="the new file of a failed compaction is not removed by clear; when a shard of that span exists again, opening the store takes it for that shard's",
 edits=[(RT,'''            if filename.starts_with("shard_")
                || filename.starts_with("compact_")
                || filename''','''            if filename.starts_with("shard_")
                || filename''')],
 demo='''
fn cfg() -> Config { Config { max_shard_size: 40_000, min_compaction_threashold: 4096, ..Config::default() } }
fn run(a: &str) -> R<()> {
    if a == "c" {
        let db = CandyStore::open(dir("db"), cfg())?;
        for i in 0..380 { db.set(&format!("old{i}"), &"x".repeat(100))?; }
        set_fault("rename:compact_0000-8000:0:5");
        for n in 0..3 { for i in 0..60 { _ = db.set(&format!("old{i}"), &format!("{n}").repeat(100)); } ms(200); }
        anyhow::ensure!(std::path::Path::new(&format!("{}/compact_0000-8000", dir("db"))).exists());
        set_fault("");
        db.clear()?;
        anyhow::ensure!(db.iter_raw().count() == 0);
        for i in 0..380 { db.set(&format!("new{i}"), &"n".repeat(100))?; }
        return Ok(());
    }
    anyhow::ensure!(child("c", "").success());
    let db = CandyStore::open(dir("db"), cfg())?;
    for i in 0..380 { anyhow::ensure!(db.get(&format!("new{i}"))?.is_some(), "new{i} lost"); }
    for i in 0..380 { anyhow::ensure!(db.get(&format!("old{i}"))?.is_none(), "old{i} is back"); }
    Ok(())
}
'''),
dict(id='c25-header-last',property='C25',fault=True,
 needs='a crash while an element is appended to an existing list',
 breaks="the element is written before the list's range covers it; after the crash it is found by key but is not in the list, and the next element takes its position",
 edits=[(LS,'''                // update list
                list.num_items += 1;
                self.set_raw(&list_key, bytes_of(&list))?;

                // create chain''','''                // create chain'''),(LS,'''                val.extend_from_slice(bytes_of(&idx));
                self.set_raw(&item_key, &val)?;
''','''                val.extend_from_slice(bytes_of(&idx));
                self.set_raw(&item_key, &val)?;

                // update list
                list.num_items += 1;
                self.set_raw(&list_key, bytes_of(&list))?;
''')],
 demo='''
fn run(a: &str) -> R<()> {
    if a == "c" {
        let db = CandyStore::open(dir("db"), Config::default())?;
        for i in 0..4 { db.set_in_list("l", &format!("i{i}"), "v")?; }
        return Ok(());
    }
    for n in 1..=14 {
        _ = std::fs::remove_dir_all(dir("db"));
        child("c", &format!("pwrite:shard_:{n}:kill"));
        let db = CandyStore::open(dir("db"), Config::default())?;
        for i in 4..8 { db.set_in_list("l", &format!("i{i}"), "v")?; }
        let keys = db.iter_list("l").map(|r| String::from_utf8(r.unwrap().0).unwrap()).collect::<Vec<_>>();
        for i in 0..8 {
            let k = format!("i{i}");
            let n_it = keys.iter().filter(|x| **x == k).count();
            let n_get = db.get_from_list("l", &k)?.is_some() as usize;
            anyhow::ensure!(n_it == n_get, "write {n}: {k} is found {n_get} times by key and {n_it} times by iteration");
        }
    }
    Ok(())
}
'''),
dict(id='c26-split-swallow',property='C26',fault=True,
 needs='a split that fails permanently (no space, too many open files)',
 breaks='an insert that cannot split its shard tries again forever instead of returning the error',
 edits=[(RT,'''                    let (bottom, top) = sh.split()?;
''','''                    let Ok((bottom, top)) = sh.split() else {
                        continue;
                    };
''')],
 demo='''
fn run(a: &str) -> R<()> {
    if a == "c" {
        std::thread::spawn(|| { ms(15000); eprintln!("never returns"); std::process::exit(3) });
        let db = CandyStore::open(dir("db"), Config { max_shard_size: 40_000, ..Config::default() })?;
        set_fault("open:bottom_:0:28");
        for i in 0..1000 { if db.set(&format!("key{i}"), &"x".repeat(100)).is_err() { return Ok(()) } }
        anyhow::bail!("never failed");
    }
    anyhow::ensure!(child("c", "").success());
    Ok(())
}
'''),
dict(id='c27-big-prefix',property='C27',fault=True,
 needs='an I/O error while a later chunk of a big value is read',
 breaks='a big value whose later chunks cannot be read is returned as if it ended there',
 edits=[(ST,'''            let (_, chunk) = res?;
            exists = true;''','''            let Ok((_, chunk)) = res else {
                break;
            };
            exists = true;''')],
 demo='''
fn run(a: &str) -> R<()> {
    if a.is_empty() {
        { let db = CandyStore::open(dir("db"), Config::default())?; db.set_big(b"big", &vec![b'x'; 200_000])?; }
        for n in 1..10 { anyhow::ensure!(child(&format!("{n}"), "").success()); }
        return Ok(());
    }
    let db = CandyStore::open(dir("db"), Config::default())?;
    set_fault(&format!("pread:shard_:{a}:5"));
    if let Ok(v) = db.get_big(b"big") { anyhow::ensure!(v == Some(vec![b'x'; 200_000]), "read {a} failed unnoticed"); }
    Ok(())
}
'''),
dict(id='c28-pool-dies',property='C28',fault=True,
 needs='a background compaction that fails, and later a compaction of another shard',
 breaks='a failed compaction ends its worker thread, so that the following compactions cannot run and the writes that trigger them fail',
 edits=[(S,'''                    let res = Shard::background_compact(info);
                    handle_tx.send(res)?;
''','''                    Shard::background_compact(info)?;
                    handle_tx.send(Ok(()))?;
''')],
 demo='''
fn run(a: &str) -> R<()> {
    if a == "c" {
        std::thread::spawn(|| { ms(20000); eprintln!("never returns"); std::process::exit(3) });
        let cfg = Config { min_compaction_threashold: 4096, num_compaction_threads: 1, expected_number_of_keys: 50_000, ..Config::default() };
        let db = CandyStore::open(dir("db"), cfg)?;
        let (mut lo, mut hi) = (vec![], vec![]);
        for i in 0..400 { let k = format!("key{i}"); if uph(k.as_bytes()).0 < 0x8000 { lo.push(k) } else { hi.push(k) } }
        set_fault("rename:compact_0000:0:5");
        for k in [&lo[0], &lo[0], &lo[1]] { db.set(k, &"x".repeat(5000))?; db.set(k, "y")?; ms(300); }
        for n in 0..4 {
            db.set(&hi[0], &"x".repeat(5000))?;
            db.set(&hi[0], "y")?;
            for i in 0..20 { db.set(&hi[i], &format!("{n}"))?; }
            db.stats();
        }
        return Ok(());
    }
    anyhow::ensure!(child("c", "").success());
    Ok(())
}
'''),
dict(id='c29-equal',property='C29',
 needs='replacing a value by an equal one',
 breaks='replace reports a wrong value although the current value is the expected one, because it equals the new value',
 edits=[(S,'''            // optimization
            if val != existing_val {
                row.off''','''            // optimization
            if val == existing_val {
                return Ok(TryReplaceStatus::KeyExistsNotReplaced(existing_val));
            } else {
                row.off''')],
 demo='''
fn run(_: &str) -> R<()> {
    let db = CandyStore::open(dir("db"), Config::default())?;
    db.set("key", "v1")?;
    anyhow::ensure!(db.replace("key", "v1", Some("v1"))? == ReplaceStatus::PrevValue("v1".into()));
    anyhow::ensure!(db.replace("key", "v1", None)? == ReplaceStatus::PrevValue("v1".into()));
    anyhow::ensure!(db.set("key", "v1")? == SetStatus::PrevValue("v1".into()));
    Ok(())
}
'''),
dict(id='c30-discard-compact',property='C30',fault=True,
 needs='a crash while a compaction is running, after a row it had already copied was changed',
 breaks='the new file of an interrupted compaction is deleted when the store is opened, with the changes that were already made to it',
 edits=[(RT,'''            if filename.starts_with("bottom_")
                || filename.starts_with("top_")
                || filename.starts_with("merge_")
''','''            if filename.starts_with("bottom_")
                || filename.starts_with("top_")
                || filename.starts_with("compact_")
                || filename.starts_with("merge_")
''')],
 demo='''
fn cfg() -> Config { Config { min_compaction_threashold: 4096, ..Config::default() } }
fn run(a: &str) -> R<()> {
    if a == "c" {
        let db = CandyStore::open(dir("db"), cfg())?;
        for i in 0..500 { db.set(&format!("key{i}"), "x")?; }
        db.set("key0", &"x".repeat(5000))?;
        db.set("key0", "y")?;
        set_fault("pwrite:compact_:450:s3000");
        db.set("key0", "z")?;
        ms(1000); // most rows have been copied
        for i in 0..500 { if uph(format!("key{i}").as_bytes()).1 < 40 { db.set(&format!("key{i}"), "new")?; } }
        std::process::exit(99);
    }
    let st = child("c", "");
    anyhow::ensure!(st.code() == Some(99), "{st:?}");
    let db = CandyStore::open(dir("db"), cfg())?;
    for i in 0..500 { if uph(format!("key{i}").as_bytes()).1 < 40 { anyhow::ensure!(db.get(&format!("key{i}"))? == Some("new".into()), "key{i} has an old value"); } }
    Ok(())
}
'''),
dict(id='c23-clear-counter',property='C23',
 needs='clearing a store into which more than 32 KB large entries were written',
 breaks='one counter of the size histogram survives clear, another is cleared twice',
 edits=[('stats.rs',"""        self.entries_over_32k.store(0, Ordering::SeqCst);
    }""","""        self.entries_under_32k.store(0, Ordering::SeqCst);
    }""")],
 demo='''
fn run(_: &str) -> R<()> {
    let db = CandyStore::open(dir("db"), Config::default())?;
    for n in [10, 500, 5000, 20_000, 40_000] { db.set("key", &"x".repeat(n))?; }
    db.clear()?;
    let st = db.stats();
    anyhow::ensure!(st.entries_over_32k == 0, "{st:?}");
    anyhow::ensure!(st.entries_under_128 + st.entries_under_1k + st.entries_under_8k + st.entries_under_32k == 0);
    Ok(())
}
'''),
]
