//! The in-memory journal storage against a reference model.
use super::common::*;
use crate::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use crate::persistent::journal::provider::StorageProvider;
use crate::persistent::journal::storage::{JournalEntry, JournalStorageRef};
use std::sync::Arc;
use tokio::rt::now;

#[derive(Default)]
struct Model { msgs: Vec<(i64, u8)>, snaps: Vec<(i64, u8)>, last: i64 }
fn entry(seq: i64, v: u8) -> JournalEntry { JournalEntry { sequence: seq, payload_type: "t".into(), bytes: Arc::new(vec![v]) } }
fn same(e: &JournalEntry, m: &(i64, u8)) -> bool { e.sequence == m.0 && &*e.payload_type == "t" && e.bytes.len() == 1 && e.bytes[0] == m.1 }
fn same_all(e: Option<Vec<JournalEntry>>, m: Vec<(i64, u8)>) -> bool {
    let e = e.unwrap_or_default();
    if e.len() != m.len() { return false; }
    let mut i = 0;
    while i < e.len() { if !same(&e[i], &m[i]) { return false; } i += 1; }
    true
}
impl Model {
    fn next(&mut self) -> i64 { let s = nd::i64(); nd::assume(s > self.last); self.last = s; s }
}
const KEYS: [&str; 2] = ["a", "b"];
fn write(st: &JournalStorageRef, m: &mut [Model; 2], kinds: u8, keys: u8) -> u8 {
    let k = if keys == 1 { 0 } else { nd::choose(2) as usize };
    let c = nd::choose(kinds);
    match c {
        0 => { let (s, v) = (m[k].next(), nd::u8()); m[k].msgs.push((s, v)); now(st.write_message(KEYS[k], entry(s, v))).unwrap(); }
        1 => {
            let (s, v) = (m[k].next(), nd::u8());
            let (s2, v2) = (m[k].next(), nd::u8());
            m[k].msgs.push((s, v));
            m[k].msgs.push((s2, v2));
            now(st.write_message_batch(KEYS[k], vec![entry(s, v), entry(s2, v2)])).unwrap();
        }
        2 => { let (s, v) = (m[k].next(), nd::u8()); m[k].snaps.push((s, v)); now(st.write_snapshot(KEYS[k], entry(s, v))).unwrap(); }
        3 => { let to = nd::i64(); m[k].msgs.retain(|x| x.0 >= to); now(st.delete_messages_to(KEYS[k], to)).unwrap(); }
        _ => { m[k] = Model { last: m[k].last, ..Default::default() }; now(st.delete_all(KEYS[k])).unwrap(); }
    }
    c
}
fn check(st: &JournalStorageRef, m: &[Model; 2], keys: u8) {
    let k = if keys == 1 { 0 } else { nd::choose(2) as usize };
    let all = m[k].msgs.clone();
    match nd::choose(5) {
        0 => match (now(st.read_latest_snapshot(KEYS[k])).unwrap(), m[k].snaps.last()) { (None, None) => {} (Some(e), Some(x)) => assert!(same(&e, x), "wrong latest snapshot"), _ => panic!("latest snapshot missing or invented") },
        1 => assert!(same_all(now(st.read_latest_messages(KEYS[k], 0)).unwrap(), all), "messages differ from those written and not deleted"),
        2 => {
            let from = nd::i64();
            nd::assume(from > 0);
            assert!(same_all(now(st.read_latest_messages(KEYS[k], from)).unwrap(), all.iter().filter(|x| x.0 > from).cloned().collect()), "messages after a sequence")
        }
        3 => {
            let (lo, hi) = (nd::i64(), nd::i64());
            assert!(same_all(now(st.read_messages(KEYS[k], lo, hi)).unwrap(), all.iter().filter(|x| x.0 >= lo && x.0 <= hi).cloned().collect()), "messages of a range")
        }
        _ => {
            let q = nd::i64();
            match (now(st.read_message(KEYS[k], q)).unwrap(), all.iter().find(|x| x.0 == q)) { (None, None) => {} (Some(e), Some(x)) => assert!(same(&e, x), "wrong message"), _ => panic!("message missing or invented") }
        }
    }
}
fn run(n: usize, keys: u8) {
    let st = InMemoryStorageProvider::new().journal_storage().unwrap();
    let mut m: [Model; 2] = Default::default();
    let mut i = 0;
    let mut dels = 0;
    while i < n { if write(&st, &mut m, 5, keys) == 3 { dels += 1; } i += 1; }
    check(&st, &m, keys);
    nd::reach!(m[0].msgs.len() > 1 && dels > 0, "messages left after a delete");
    nd::reach!(m[0].msgs.len() > 0 && m[1].snaps.len() > 0, "two journals");
    nd::reach!(m[0].snaps.len() > 1, "two snapshots");
}
#[no_mangle]
pub extern "C" fn h_storage2() { run(2, 2) }
#[no_mangle]
pub extern "C" fn h_storage3() { run(3, 2) }
#[no_mangle]
pub extern "C" fn h_storage3one() { run(3, 1) }
#[no_mangle]
pub extern "C" fn h_storage4one() { run(4, 1) }
/// longer journal, one key, every read
#[no_mangle]
pub extern "C" fn h_storage_long() {
    let st = InMemoryStorageProvider::new().journal_storage().unwrap();
    let mut m: [Model; 2] = Default::default();
    let mut i = 0;
    while i < 5 { let (s, v) = (m[0].next(), nd::u8()); m[0].msgs.push((s, v)); now(st.write_message("a", entry(s, v))).unwrap(); i += 1; }
    let to = nd::i64();
    m[0].msgs.retain(|x| x.0 >= to);
    now(st.delete_messages_to("a", to)).unwrap();
    check(&st, &m, 1);
    nd::reach!(m[0].msgs.len() == 3, "partial delete");
}
/// batches of any small size, first or after other entries, then any read
#[no_mangle]
pub extern "C" fn h_storage_batch() {
    let st = InMemoryStorageProvider::new().journal_storage().unwrap();
    let mut m: [Model; 2] = Default::default();
    if nd::flip() { let (s, v) = (m[0].next(), nd::u8()); m[0].msgs.push((s, v)); now(st.write_message("a", entry(s, v))).unwrap(); }
    let n = nd::choose(5);
    let mut b = vec![];
    let mut i = 0;
    while i < n { let (s, v) = (m[0].next(), nd::u8()); m[0].msgs.push((s, v)); b.push(entry(s, v)); i += 1; }
    now(st.write_message_batch("a", b)).unwrap();
    check(&st, &m, 1);
    nd::reach!(m[0].msgs.len() == 5, "a long batch after a message");
    nd::reach!(n == 0, "an empty batch");
}
