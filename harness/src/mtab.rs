use crate::sym::*;
use level_db_rust::db::db_format::{pack_sequence_and_type, LookupKey, ValueType};
use level_db_rust::db::mem_table::MemTable;
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::util::slice::Slice;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::rc::Rc;
use std::sync::Arc;

/// bytewise order that records what it is asked to compare: it sees every entry of the table
pub struct Spy(pub Rc<RefCell<Vec<(Vec<u8>, Vec<u8>)>>>);
impl Comparator for Spy {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> { self.0.borrow_mut().push((a.to_vec(), b.to_vec())); Some(a.cmp(b)) }
    fn get_name(&self) -> String { String::new() }
    fn find_shortest_separator(&self, s: &String, _: &Slice) -> String { s.clone() }
    fn find_short_successor(&self, s: &String) -> String { s.clone() }
}
pub fn varint(mut v: u64) -> Vec<u8> { let mut o = vec![]; while v >= 128 { o.push((v & 127) as u8 | 128); v >>= 7; } o.push(v as u8); o }
fn vtype(del: bool) -> ValueType { if del { ValueType::KTypeDeletion } else { ValueType::KTypeValue } }
pub fn entry(seq: u64, del: bool, k: &[u8], v: &[u8]) -> Vec<u8> {
    let mut o = varint(k.len() as u64 + 8); o.extend_from_slice(k);
    let t = (seq << 8) | if del { 0 } else { 1 }; o.extend_from_slice(&t.to_le_bytes());
    o.extend_from_slice(&varint(v.len() as u64)); o.extend_from_slice(v); o
}
/// bytes whose first and last are symbolic
fn ends(name: &str, n: usize) -> Vec<u8> { let mut v = vec![b'x'; n]; if n > 0 { v[0] = u8_(name); v[n - 1] = u8_(name); } v }
#[inline(never)]
fn add(kl: (usize, usize), vl: (usize, usize), second: usize) {
    rand::ROW.store(1, std::sync::atomic::Ordering::Relaxed);
    let seen = Rc::new(RefCell::new(Vec::new()));
    let mut t = MemTable::create(Arc::new(Spy(seen.clone())));
    let n = pick("klen", kl.0, kl.1); let m = pick("vlen", vl.0, vl.1);
    let (k, v) = (ends("k", n), ends("v", m));
    let s = u64_("seq"); assume(s < 1 << 56); let d = bool_("deletion");
    if t.add(s as usize, vtype(d), &k, &v).is_err() { check(false, "add fails"); return; }
    seen.borrow_mut().clear();
    let want = entry(s, d, &k, &v);
    // a second entry is compared with the first: both are seen
    let n2 = pick("klen2", 0, second); let (k2, v2) = (ends("k2", n2), ends("v2", n2));
    let s2 = u64_("seq2"); assume(s2 < 1 << 56); let d2 = bool_("deletion2");
    if t.add(s2 as usize, vtype(d2), &k2, &v2).is_err() { check(false, "add fails"); return; }
    let want2 = entry(s2, d2, &k2, &v2);
    let l = seen.borrow();
    check(!l.is_empty(), "the second entry is ordered against the first");
    let mut i = 0;
    while i < l.len() {
        let (a, b) = &l[i];
        // the one that is added against the one that is there, or the other way round
        check((eq(a, &want2) & eq(b, &want)) | (eq(a, &want) & eq(b, &want2)), "an entry is key length, key, tag, value length, value");
        i += 1;
    }
    check(t.approximate_memory_usage() >= want.len() + want2.len(), "memory usage covers the entries");
    cover("memtable entries");
}
#[no_mangle] pub extern "C" fn h_memtable_small() { add((0, 2), (0, 2), 1) }
#[no_mangle] pub extern "C" fn h_memtable_varint() { add((118, 130), (0, 0), 0); }
#[no_mangle] pub extern "C" fn h_memtable_value() { add((0, 0), (125, 130), 0); }
#[no_mangle] pub extern "C" fn h_memtable_t() { add((16370, 16380), (16382, 16386), 1); }
/// several entries: each is kept, none disturbs another
#[no_mangle] pub extern "C" fn h_memtable_many() {
    rand::ROW.store(0, std::sync::atomic::Ordering::Relaxed);
    let seen = Rc::new(RefCell::new(Vec::new()));
    let mut t = MemTable::create(Arc::new(Spy(seen.clone())));
    let mut w: Vec<Vec<u8>> = vec![]; let mut i = 0;
    while i < 3 { let k = vec("k", 1); let v = vec("v", 1); let s = range("seq", 0, 200); t.add(s as usize, ValueType::KTypeValue, &k, &v).unwrap(); w.push(entry(s, false, &k, &v)); i += 1; }
    // the last insertion met only entries that were added
    let l = seen.borrow(); let mut i = 0;
    while i < l.len() { let (a, b) = &l[i]; let mut ok = false; let mut ok2 = false; for x in &w { ok |= eq(a, x); ok2 |= eq(b, x); } check(ok && ok2, "the table holds only what was added"); i += 1; }
    cover("many entries");
}
// ---- lookup keys
#[inline(never)]
fn lookup(lo: usize, hi: usize) {
    let n = pick("klen", lo, hi); let k = ends("k", n); let s = u64_("seq"); assume(s < 1 << 56);
    let l = LookupKey::new(Slice::from_buf(&k), s as usize);
    let mut ik = k.clone(); ik.extend_from_slice(&((s << 8) | 1).to_le_bytes());
    let mut mk = varint(ik.len() as u64); mk.extend_from_slice(&ik);
    let a = l.mem_table_key(); check(a.len() == mk.len() && eq(&a, &mk), "memtable key is length, user key, tag");
    let b = l.internal_key(); check(b.len() == ik.len() && eq(&b, &ik), "internal key is user key, tag");
    cover("lookup key");
}
#[no_mangle] pub extern "C" fn h_lookup_key() { lookup(0, 3) }
#[no_mangle] pub extern "C" fn h_lookup_key_long() { lookup(117, 122) }
#[no_mangle] pub extern "C" fn h_lookup_key_t() { lookup(16372, 16380) }
#[no_mangle] pub extern "C" fn h_pack() {
    let s = u64_("seq"); assume(s < 1 << 56); let d = bool_("deletion"); let s2 = u64_("seq2"); assume(s2 < 1 << 56); let d2 = bool_("deletion2");
    let p = pack_sequence_and_type(s as usize, vtype(d)); let q = pack_sequence_and_type(s2 as usize, vtype(d2));
    check(p == (s << 8) | (!d) as u64, "sequence in the upper 56 bits, type below");
    check((p < q) == (s < s2 || (s == s2 && (d && !d2))), "packed tags are ordered by sequence, then type");
    let v = u32_("type") as i32;
    match ValueType::try_from(v) { Ok(t) => check((v == 0 || v == 1) && t.get_value() == v as usize, "a type decodes from its own number"), Err(_) => check(v != 0 && v != 1, "the known types decode") }
    cover("pack");
}
