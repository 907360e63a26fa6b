S='shard.rs'; RT='router.rs'; ST='store.rs'; LS='lists.rs'; QU='queues.rs'; TY='typed.rs'
SEEDS=[
dict(id='c01-sig-first',property='C01',fault=True,
 needs='a write to the shard file that fails (disk full, I/O error) while a key is inserted into a slot that held a removed entry',
 breaks='the slot is published (its signature stored) before the entry is written, so after a failed insert the removed entry that used the slot before is visible again',
 edits=[(S,'''                            let new_off = file.write_kv(&self.stats, &full_key, val)?;
''','''                            // claim the slot
                            row.signatures[idx] = ph.signature();
                            std::sync::atomic::fence(Ordering::SeqCst);
                            let new_off = file.write_kv(&self.stats, &full_key, val)?;
'''),(S,'''                            row.offsets_and_sizes[idx] = new_off;
                            std::sync::atomic::fence(Ordering::SeqCst);
                            row.signatures[idx] = ph.signature();
''','''                            row.offsets_and_sizes[idx] = new_off;
''')], demo='''
fn run(a: &str) -> R<()> {
    if a == "c" {
        let db = CandyStore::open(dir("db"), Config::default())?;
        db.set("key", "old")?;
        assert!(db.remove("key")?.is_some());
        set_fault("pwrite:shard_:0:28");
        anyhow::ensure!(db.set("key", "new").is_err(), "the write should have failed");
        anyhow::ensure!(db.get("key")?.is_none(), "removed value visible again after a failed set");
        return Ok(());
    }
    anyhow::ensure!(child("c", "").success());
    Ok(())
}
'''),
dict(id='c02-giveback',property='C02',fault=True,
 needs='a failing write of one key while another thread writes a different key to the same shard, and a third write afterwards',
 breaks='a failed write gives its reservation back by moving the write offset down, although another writer may have reserved space behind it in the meantime; the next write overwrites that entry',
 edits=[(S,'''        self.file.write_all_at(&buf, HEADER_SIZE + write_offset)?;
''','''        if let Err(e) = self.file.write_all_at(&buf, HEADER_SIZE + write_offset) {
            // don't leak the area we've allocated
            self.header()
                .write_offset
                .fetch_sub(buf.len() as u64, Ordering::SeqCst);
            return Err(e.into());
        }
''')],
 demo='''
fn run(a: &str) -> R<()> {
    if a == "c" {
        let db = Arc::new(CandyStore::open(dir("db"), Config::default())?);
        set_fault("pwrite:shard_:1:s600,5");
        // three keys of the same shard, but different rows
        let (k1, k2) = ("a", (0..).map(|i| format!("x{i}")).find(|k| uph(k.as_bytes()).1 != uph(b"a").1).unwrap());
        let db2 = db.clone();
        let th = std::thread::spawn(move || db2.set(k1, &"1".repeat(40)).is_err());
        ms(200);
        db.set(&k2, &"2".repeat(40))?;
        anyhow::ensure!(th.join().unwrap(), "first write should have failed");
        for i in 0..4 { db.set(&format!("later{i}"), &"3".repeat(40))?; }
        anyhow::ensure!(db.get(&k2)? == Some("2".repeat(40).into()), "acknowledged entry overwritten");
        return Ok(());
    }
    anyhow::ensure!(child("c", "").success());
    Ok(())
}
'''),
dict(id='c06-remove-first',property='C06',fault=True,
 needs='a crash in the middle of merging two shards, after their files were removed and before the merged file got its final name',
 breaks='the merged shards are deleted before the merged file is put in place, and leftovers named merge_ are discarded when opening, so a crash in between loses both shards',
 edits=[(S,'''        std::fs::rename(tmp_filename, dst_filename)?;
        std::fs::remove_file(bottom_filename)?;
        std::fs::remove_file(top_filename)?;
''','''        std::fs::remove_file(bottom_filename)?;
        std::fs::remove_file(top_filename)?;
        std::fs::rename(tmp_filename, dst_filename)?;
''')],
 demo='''
fn cfg(n: usize) -> Config { Config { expected_number_of_keys: n, ..Default::default() } }
fn run(a: &str) -> R<()> {
    if a == "c" {
        let db = CandyStore::open(dir("db"), cfg(0))?;
        db.merge_small_shards(0.25)?;
        return Ok(());
    }
    {
        let db = CandyStore::open(dir("db"), cfg(50000))?;
        for i in 0..200 { db.set(&format!("k{i}"), "v")?; }
    }
    for op in ["rename:merge_:1:kill", "unlink:shard_:1:kill", "unlink:shard_:2:kill", ""] {
        let st = child("c", op);
        let db = CandyStore::open(dir("db"), cfg(0))?;
        for i in 0..200 { anyhow::ensure!(db.get(&format!("k{i}"))?.is_some(), "k{i} lost after a crash at {op}"); }
    }
    Ok(())
}
'''),
dict(id='c07-dedup',property='C07',
 needs='two keys with the same 32-bit signature in the same row, and a compaction of their shard',
 breaks='compaction takes an entry whose signature was already copied to the new row for a stale duplicate and leaves it out, which loses the second of two colliding keys',
 edits=[(S,'''                let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[src_col])?;

                let ph =''','''                if target_row.signatures[..target_col].contains(&sig) {
                    // already copied
                    continue;
                }
                let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[src_col])?;

                let ph =''')],
 demo='''
fn run(a: &str) -> R<()> {
    let mut seen: HashMap<(usize, u32), u32> = HashMap::new();
    let mut pair = None;
    for i in 0..8_000_000u32 {
        let p = uph(&i.to_le_bytes());
        if let Some(j) = seen.insert((p.1, p.2), i) { pair = Some((i, j)); break; }
    }
    let Some((i, j)) = pair else { println!("no collision found"); return Ok(()) };
    let db = CandyStore::open(dir("db"), Config { min_compaction_threashold: 4096, ..Default::default() })?;
    db.set(&i.to_le_bytes(), "i")?; db.set(&j.to_le_bytes(), "j")?;
    for r in 0..1000 { db.set("other", &format!("some longer value {r}"))?; }
    db.stats(); // waits for compactions
    anyhow::ensure!(db.get(&i.to_le_bytes())? == Some("i".into()));
    anyhow::ensure!(db.get(&j.to_le_bytes())? == Some("j".into()));
    Ok(())
}
'''),
dict(id='c11-expected-before-key',property='C11',
 needs='two keys with the same 32-bit signature in the same row of the same shard, the second of which is replaced conditionally',
 breaks='a conditional replace compares the expected value with the first entry of the right signature before checking that it belongs to the key, so it reports a wrong value that belongs to a different key',
 edits=[(S,'''            if key != k {
                had_collision = true;
                continue;
            }
            match mode {
                InsertMode::GetOrCreate => {
                    // no-op''','''            if let InsertMode::Replace(Some(expected_val)) = mode {
                if expected_val != existing_val {
                    return Ok(TryReplaceStatus::KeyExistsNotReplaced(existing_val));
                }
            }
            if key != k {
                had_collision = true;
                continue;
            }
            match mode {
                InsertMode::GetOrCreate => {
                    // no-op'''),(S,'''                InsertMode::Replace(expected_val) => {
                    if expected_val.is_some_and(|expected_val| expected_val != existing_val) {
                        return Ok(TryReplaceStatus::KeyExistsNotReplaced(existing_val));
                    }
                }
''','''                InsertMode::Replace(_) => {
                    // fall through
                }
''')],
 demo='''
fn run(a: &str) -> R<()> {
    let mut seen: HashMap<(usize, u32), u32> = HashMap::new();
    let mut pair = None;
    for i in 0..8_000_000u32 {
        let p = uph(&i.to_le_bytes());
        if let Some(j) = seen.insert((p.1, p.2), i) { pair = Some((i, j)); break; }
    }
    let Some((i, j)) = pair else { println!("no collision found"); return Ok(()) };
    let db = CandyStore::open(dir("db"), Config::default())?;
    db.set(&i.to_le_bytes(), "i")?; db.set(&j.to_le_bytes(), "j")?;
    for (k, v) in [(i, "i"), (j, "j")] {
        anyhow::ensure!(db.replace(&k.to_le_bytes()[..], v.as_bytes(), Some(v.as_bytes()))? == ReplaceStatus::PrevValue(v.into()));
    }
    Ok(())
}
'''),
]
