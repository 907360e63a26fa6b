#![allow(unused, static_mut_refs)]
use candystore::*;
use std::collections::*;
use std::sync::{Arc, atomic::*};
use std::time::Duration;
type R<T> = anyhow::Result<T>;
fn data() -> String { std::env::var("DATA").unwrap() }
fn dir(n: &str) -> String { let d = format!("{}/{n}", data()); std::fs::create_dir_all(&d).unwrap(); d }
fn ms(n: u64) { std::thread::sleep(Duration::from_millis(n)) }
// runs this program again as `name` with the given faults; returns whether it ended normally
fn child(name: &str, fault: &str) -> std::process::ExitStatus {
    std::process::Command::new(std::env::current_exe().unwrap()).arg(name)
        .env("LD_PRELOAD", std::env::var("FAULT_SO").unwrap()).env("FAULT", fault).status().unwrap()
}
fn set_fault(f: &str) { std::env::set_var("FAULT", f) }
// the same place a key is kept at: (shard selector, row, signature) of a full key
fn ph(seed: &[u8; 16], key: &[u8]) -> (u32, usize, u32) {
    use siphasher::sip128::SipHasher24;
    let h = SipHasher24::new_with_key(seed).hash(key).h1;
    ((h >> 48) as u32, (((h >> 32) as u16) as usize) % 64, h as u32)
}
fn uph(key: &[u8]) -> (u32, usize, u32) { let mut k = key.to_vec(); k.push(1); ph(&Config::default().hash_seed, &k) }
fn main() { if let Err(e) = run(&std::env::args().nth(1).unwrap_or_default()) { eprintln!("BROKEN: {e:?}"); std::process::exit(1) } }
