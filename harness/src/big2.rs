//! Long histories of the cache, the memtable, version edits, lists, statuses, histograms.
use crate::hashes::ref_hash;
use crate::mtab::{entry, varint};
use crate::sym::*;
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::slice::Slice;
use std::cell::Cell;
use std::rc::Rc;

fn one_of(name: &str, a: &[usize]) -> usize { a[pick(name, 0, a.len() - 1)] }
struct Lcg(u32);
impl Lcg { fn next(&mut self, n: usize) -> usize { self.0 = self.0.wrapping_mul(1664525).wrapping_add(1013904223); (self.0 >> 12) as usize % n } }

// ---- C16
struct Tok { v: u32, live: Rc<Cell<i64>> }
impl Drop for Tok { fn drop(&mut self) { self.live.set(self.live.get() - 1); self.v = 0xdeadbeef; } }
struct Shard { e: Vec<(usize, u32, usize)> } // most recently used first
struct Model { sh: Vec<Shard>, cap: usize }
impl Model {
    fn sum(&self, s: usize) -> usize { let mut t = 0; for x in &self.sh[s].e { t += x.2; } t }
    fn insert(&mut self, s: usize, k: usize, v: u32, c: usize) { self.erase(s, k); self.sh[s].e.insert(0, (k, v, c)); while self.sum(s) >= self.cap { if self.sh[s].e.pop().is_none() { break; } } }
    fn get(&mut self, s: usize, k: usize) -> Option<u32> { let i = self.sh[s].e.iter().position(|x| x.0 == k)?; let x = self.sh[s].e.remove(i); self.sh[s].e.insert(0, x); Some(x.1) }
    fn erase(&mut self, s: usize, k: usize) { if let Some(i) = self.sh[s].e.iter().position(|x| x.0 == k) { self.sh[s].e.remove(i); } }
    fn count(&self) -> usize { self.sh.iter().map(|x| x.e.len()).sum() }
    fn total(&self) -> usize { let mut t = 0; let mut i = 0; while i < 32 { t += self.sum(i); i += 1; } t }
}
/// `nk` keys in the shards below `shards`, `n` operations with a fixed mix, then one of any kind on any of some keys
#[inline(never)]
fn history(nk: usize, shards: usize, n: usize, cap: usize, maxcharge: usize, length: usize, arc: bool, erases: usize, seed: u32) {
    let live = Rc::new(Cell::new(0i64));
    let mut c: Box<ShardLRUCache<Tok>>;
    if arc { c = Box::new(std::sync::Arc::try_unwrap(ShardLRUCache::new_arc_with_capacity(cap, length)).ok().unwrap()); } else { c = Box::new(ShardLRUCache::new_with_capacity(cap, length)); }
    check(c.capacity() == cap, "capacity is what was given");
    let mut keys: Vec<(Slice, usize)> = vec![]; let mut x = 0u32;
    while keys.len() < nk { let mut b = vec![b'k', (x & 63) as u8 + 40, (x >> 6) as u8]; if x % 3 == 0 { b.push(0); b.push(200); } let s = (ref_hash(&b, 0) >> 27) as usize; if s < shards { keys.push((Slice::from_vec(b), s)); } x += 1; }
    let mut m = Model { sh: (0..32).map(|_| Shard { e: vec![] }).collect(), cap: (cap + 31) / 32 };
    let mut r = Lcg(seed); let mut i = 0;
    while i < n + 1 {
        let last = i == n;
        let k = if last { pick("key", 0, 7) * (nk / 8) } else if i < nk && seed % 2 == 0 { i } else { r.next(nk) };
        let (ks, s) = (&keys[k].0, keys[k].1);
        let op = if last { pick("op", 0, 3) } else { match r.next(16) { 0..=8 => 0, x if x < 16 - erases => 1, _ => 2 } };
        match op {
            0 => { let v = if last { u32_("value") } else { i as u32 }; let ch = if last { one_of("charge", &[0, 1, 3, 1000000]) } else { r.next(maxcharge) + 1 }; live.set(live.get() + 1); check(c.insert(ks, Tok { v, live: live.clone() }, ch).is_ok(), "insert fails"); m.insert(s, k, v, ch); }
            1 => { let (a, w) = (c.lookup(ks).unwrap(), m.get(s, k)); check(a.is_some() == w.is_some(), "lookup finds exactly what is cached"); if let (Some(a), Some(w)) = (a, w) { check(a.v == w, "lookup returns the value last inserted"); } }
            2 => { check(c.erase(ks).is_ok(), "erase fails"); m.erase(s, k); }
            _ => { check(c.prune().is_ok(), "prune fails"); for s in &mut m.sh { s.e.clear(); } }
        }
        if i % 16 == 0 || last { check(c.total_charge().unwrap() == m.total(), "total charge is the sum of the cached charges"); }
        check(live.get() == m.count() as i64, "a value is released exactly when it is no longer cached");
        i += 1;
    }
    i = 0; while i < nk { let (ks, s) = (&keys[i].0, keys[i].1); let (a, w) = (c.lookup(ks).unwrap(), m.get(s, i)); check(a.is_some() == w.is_some(), "at the end exactly the cached keys are found"); if let (Some(a), Some(w)) = (a, w) { check(a.v == w, "at the end every key has its value"); } i += 1; }
    if m.count() > 3 { cover("many entries"); }
    drop(c); check(live.get() == 0, "dropping the cache releases every value");
    cover("long history");
}
#[no_mangle] pub extern "C" fn h_cache_big() {
    match pick("mix", 0, 4) {
        0 => history(120, 3, 300, 1 << 20, 5, 0, false, 2, 2),   // growth of the tables
        1 => history(60, 2, 300, 32 * 40, 5, 0, false, 1, 3),    // eviction
        2 => history(64, 32, 200, 33, 1, 1000, false, 3, 5),     // shards that hold nearly nothing
        3 => history(40, 2, 250, 32 * 14 - 31, 3, 600, false, 5, 7),
        _ => history(100, 1, 260, 32 * 70, 2, 2000, false, 4, 8),   // one shard
    }
}
/// keys in every shard and more than its table holds in some, all pruned, then filled again
#[no_mangle] pub extern "C" fn h_cache_prune() {
    let live = Rc::new(Cell::new(0i64)); let dense = one_of("dense", &[0, 13, 31]);
    let mut c: ShardLRUCache<Tok> = ShardLRUCache::new_with_capacity(32 * 60, 0);
    let mut per = vec![0usize; 32]; let mut keys: Vec<Slice> = vec![]; let mut x = 0u32; let mut full = 0;
    while full < 32 { let b = vec![(x & 63) as u8 + 40, (x >> 6) as u8]; let s = (ref_hash(&b, 0) >> 27) as usize; let want = if s == dense { 30 } else { 2 }; if per[s] < want { per[s] += 1; keys.push(Slice::from_vec(b)); if per[s] == want { full += 1; } } x += 1; }
    let n = keys.len(); let held_at = one_of("held", &[0, 40, n - 1]); let mut round = 0; let mut held = None;
    while round < 3 {
        // the second time every other key
        let mut i = 0; let mut cnt = 0; let step = if round == 1 { 2 } else { 1 };
        while i < n { live.set(live.get() + 1); check(c.insert(&keys[i], Tok { v: (round * 1000 + i) as u32, live: live.clone() }, 1).is_ok(), "insert fails"); cnt += 1; i += step; }
        let extra = if held.is_some() { 1 } else { 0 };
        check(c.total_charge().unwrap() == cnt && live.get() == cnt as i64 + extra, "total charge is the sum of the cached charges");
        i = 0; while i < n { let r = c.lookup(&keys[i]).unwrap(); check(r.is_some() == (i % step == 0), "lookup finds exactly what is cached"); if let Some(r) = r { check(r.v == (round * 1000 + i) as u32, "lookup returns the value last inserted"); if round == 0 && i == held_at { held = Some(r); } } i += 1; }
        if round == 1 && branch(bool_("erase")) { i = 0; while i < n { check(c.erase(&keys[i]).is_ok(), "erase fails"); i += 1; } } else { check(c.prune().is_ok(), "prune fails"); }
        check(c.total_charge().unwrap() == 0, "an emptied cache has no charge"); check(live.get() == 1, "a value is released exactly when it is no longer cached nor held");
        i = 0; while i < n { check(c.lookup(&keys[i]).unwrap().is_none(), "an emptied cache finds nothing"); i += 1; }
        round += 1;
    }
    check(held.as_ref().map(|h| h.v) == Some(held_at as u32), "a value obtained by lookup stays valid"); drop(held); check(live.get() == 0, "a value is released exactly when it is no longer cached nor held");
    cover("emptied and filled again");
}
#[no_mangle] pub extern "C" fn h_cache_arc() { history(24, 2, 40, 32 * 9, 2, 0, true, 3, 4) }

// ---- C18
use level_db_rust::db::db_format::InternalKey;
use level_db_rust::db::version_edit::VersionEdit;
/// many entries in every list, numbers of every varint length
#[no_mangle] pub extern "C" fn h_edit_big() {
    let n = one_of("entries", &[1, 3, 6, 40]); let bits = pick("bits", 0, 8) as u32; let nl = one_of("name", &[0, 26, 127, 128, 300, 16383, 16384]);
    let num = |i: usize| { let v = (1u64 << (7 * bits + i as u32 % 7)) + i as u64; v };
    let mut e = VersionEdit::new(); let mut o: Vec<u8> = vec![];
    let mut name = vec![b'n'; nl]; if nl > 0 { name[0] = range("c", 32, 126) as u8; name[nl - 1] = range("c", 32, 126) as u8; }
    let (a, b, c, d) = (u64_("log"), num(1), num(2), num(3)); assume(a >= 1 << 40 && a < 1 << 42);
    let mut i = 0; while i < n { e.add_file(i as u32 % 7, num(i), num(i + 1), InternalKey::default(), InternalKey::default()); e.delete_file((i as u32 + 1) % 7, num(i) + 1000); e.set_compact_pointer((i as u32 + 3) % 7, InternalKey::default()); i += 1; }
    e.set_last_sequence(d); e.set_next_file(c); e.set_prev_log_number(b); e.set_log_number(a); e.set_comparator_name(Slice::from_buf(&name));
    let mut put = |t: u64, v: &[u64]| { o.extend_from_slice(&varint(t)); for x in v { o.extend_from_slice(&varint(*x)); } };
    put(1, &[nl as u64]); let mut w = std::mem::take(&mut o); w.extend_from_slice(&name);
    let mut put = |w: &mut Vec<u8>, t: u64, v: &[u64]| { w.extend_from_slice(&varint(t)); for x in v { w.extend_from_slice(&varint(*x)); } };
    put(&mut w, 2, &[a]); put(&mut w, 9, &[b]); put(&mut w, 3, &[c]); put(&mut w, 4, &[d]);
    i = 0; while i < n { put(&mut w, 5, &[(i as u64 + 3) % 7, 0]); i += 1; }
    // deleted files: in the order of a set of (level, number), or as they were deleted
    let cut = w.len();
    let mut got = vec![]; if e.encode_to(&mut got).is_err() { check(false, "encode_to fails"); return; }
    check(got.len() >= cut && eq(&got[..cut], &w), "scalar fields and compaction pointers come first");
    let mut left: Vec<(u64, u64)> = (0..n).map(|i| ((i as u64 + 1) % 7, num(i) + 1000)).collect(); let mut at = cut;
    while !left.is_empty() { let mut hit = None; let mut j = 0; while j < left.len() { let mut x = vec![6u8]; x.extend_from_slice(&varint(left[j].0)); x.extend_from_slice(&varint(left[j].1)); if got.len() >= at + x.len() && got[at..at + x.len()] == x[..] { hit = Some((j, x.len())); break; } j += 1; } match hit { Some((j, l)) => { left.remove(j); at += l; } None => { check(false, "every deleted file is encoded once"); return; } } }
    let mut w = vec![]; i = 0; while i < n { put(&mut w, 7, &[i as u64 % 7, num(i), num(i + 1), 0, 0]); i += 1; }
    check(got.len() == at + w.len() && eq(&got[at..], &w), "new files follow, in order, and nothing else");
    cover("large edit");
}
/// a comparator name beyond ASCII
#[no_mangle] pub extern "C" fn h_edit_text() {
    let t = text("name"); let b = t.as_bytes(); let mut e = VersionEdit::new(); e.set_comparator_name(Slice::from(&t)); let l = u64_("log"); assume(l >= 1 << 62); e.set_log_number(l);
    let mut w = varint(1); w.extend_from_slice(&varint(b.len() as u64)); w.extend_from_slice(b); w.extend_from_slice(&varint(2)); w.extend_from_slice(&varint(l));
    let mut got = vec![]; if e.encode_to(&mut got).is_err() { check(false, "encode_to fails"); return; }
    check(got.len() == w.len() && eq(&got, &w), "the edit is the comparator name and the log number"); cover("text");
}
// ---- C19
use level_db_rust::util::linked_list::{LinkedList, LinkedListBuilder};
#[no_mangle] pub extern "C" fn h_linked_big() {
    let mut l: LinkedList<u32> = LinkedList::new(); let mut m: Vec<u32> = vec![]; let mut r = Lcg(pick("mix", 1, 3) as u32); let n = one_of("n", &[20, 60]); let mut i = 0;
    while i < n { let v = 1000 + i as u32; match r.next(5) { 0 => { l.add(v); m.push(v); } 1 => { l.push(v); m.insert(0, v); } 2 => { l.add_first(v).unwrap(); m.insert(0, v); } 3 => { l.add_last(v).unwrap(); m.push(v); } _ => { let p = r.next(m.len() + 1); check(l.add_by_position(p, v).is_ok(), "a position up to the length is accepted"); m.insert(p, v); } } check(l.length() == m.len(), "length counts the elements"); i += 1; }
    let v = u32_("v"); let p = pick("pos", 0, n + 1); let ok = l.add_by_position(p, v).is_ok(); check(ok == (p <= n), "a position is accepted exactly up to the length"); if p <= n { m.insert(p, v); }
    let w = u32_("w"); let q = one_of("write", &[0, 1, 9, 18, 19]); match l.get_mut(q) { Ok(Some(x)) => { *x = w; m[q] = w; } _ => check(false, "get_mut finds the element") }
    l.add(7); m.push(7); l.push(8); m.insert(0, 8);
    check(l.length() == m.len(), "length counts the elements");
    i = 0; while i < m.len() { match l.get(i) { Ok(Some(v)) => check(*v == m[i], "elements are in order"), _ => check(false, "every element is reachable") } i += 1; }
    check(l.get(m.len()).is_err() && l.get_mut(m.len()).is_err(), "an index outside is refused");
    cover("long list");
}
// ---- C20
use level_db_rust::util::status::{LevelError, Status};
#[no_mangle] pub extern "C" fn h_status_big() {
    real_fmt(true); let c = pick("code", 0, 7); let (na, nb) = (one_of("a", &[0, 1, 60, 300, 5000]), one_of("b", &[0, 1, 300, 5000]));
    let ends = |n: usize| { let mut v = vec![b'm'; n]; if n > 0 { v[0] = range("x", 0, 127) as u8; v[n - 1] = range("y", 0, 127) as u8; } v };
    let (a, b) = (ends(na), ends(nb)); let e = LevelError::try_from(c as i32).unwrap();
    let st = Status::wrappers(e, Slice::from_buf(&a), Slice::from_buf(&b)); let mut w = a.clone(); if nb > 0 { w.extend_from_slice(b": "); w.extend_from_slice(&b); }
    let m = st.get_msg(); check(m.len() == w.len() && eq(m.as_bytes(), &w), "a status keeps its message: the parts joined by a colon");
    let mut t = ["OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: ", "wal bad record: ", "repeated record: "][c].as_bytes().to_vec(); if c != 0 { t.extend_from_slice(&w); }
    let s = st.to_string(); check(s.len() == t.len() && eq(s.as_bytes(), &t), "the text is the code's name and the message");
    cover("long message");
}
#[no_mangle] pub extern "C" fn h_status_corruption() {
    let n = pick("n", 0, 3); let v = vec("m", n); let mut i = 0; while i < n { assume(v[i] < 128); i += 1; }
    let s = String::from_utf8(v.clone()).unwrap();
    let k = pick("k", 0, 3); let w = vec("m2", k); i = 0; while i < k { assume(w[i] < 128); i += 1; }
    let st = LevelError::corruption_string(&s, std::str::from_utf8(&w).unwrap()); check(st.is_corruption(), "corruption_string is a corruption");
    let mut t = v.clone(); if k > 0 { t.extend_from_slice(b": "); t.extend_from_slice(&w); } let m = st.get_msg(); check(m.len() == t.len() && eq(m.as_bytes(), &t), "a status keeps its message");
    cover("corruption text");
}
// ---- C17
use crate::mtab::Spy;
use level_db_rust::db::db_format::{ParsedInternalKey, ValueType};
use level_db_rust::db::mem_table::MemTable;
use std::cell::RefCell;
use std::sync::Arc;
/// many entries of very different lengths in lists of height one: adding the greatest meets every entry, in order
#[no_mangle] pub extern "C" fn h_memtable_big() {
    rand::ROW.store(0, std::sync::atomic::Ordering::Relaxed);
    let seen = Rc::new(RefCell::new(Vec::new())); let mut t = MemTable::create(Arc::new(Spy(seen.clone())));
    let n = one_of("n", &[8, 24]); let mut r = Lcg(pick("mix", 1, 2) as u32); let mut w: Vec<Vec<u8>> = vec![]; let mut sum = 0; let mut i = 0;
    while i < n {
        let (kl, vl) = ([1, 3, 100, 119, 120, 121, 900, 5000][r.next(8)], [0, 1, 127, 128, 129, 1000, 4000, 20000][r.next(8)]);
        let mut k = vec![b'k'; kl]; k[0] = r.next(256) as u8; k[kl - 1] ^= i as u8; let mut v = vec![b'v'; vl]; if vl > 0 { v[vl - 1] = i as u8; }
        let s = ((r.next(1 << 20) as u64) << 33) + i as u64; let del = r.next(3) == 0;
        if t.add(s as usize, if del { ValueType::KTypeDeletion } else { ValueType::KTypeValue }, &k, &v).is_err() { check(false, "add fails"); return; }
        let e = entry(s, del, &k, &v); sum += e.len(); w.push(e); i += 1;
    }
    // one more, arbitrary in its ends
    let (kl, vl) = (one_of("klen", &[1, 119, 120, 2000]), one_of("vlen", &[0, 128, 9000])); let mut k = vec![b'k'; kl]; k[kl - 1] = u8_("k"); let mut v = vec![b'v'; vl]; if vl > 0 { v[0] = u8_("v"); v[vl - 1] = u8_("v"); }
    let s = u64_("seq"); assume(s < 1 << 56); seen.borrow_mut().clear();
    if t.add(s as usize, ValueType::KTypeValue, &k, &v).is_err() { check(false, "add fails"); return; }
    let last = entry(s, false, &k, &v); sum += last.len();
    // in the order of the comparator
    w.sort();
    { let l = seen.borrow(); let mut i = 0; while i < l.len() { check(eq(&l[i].0, &last) | eq(&l[i].1, &last), "an entry is key length, key, tag, value length, value"); i += 1; } }
    // the greatest of all: met by everything
    let k2 = vec![0xffu8; 8]; let top = entry(1, false, &k2, &[]);
    let long = 16375; let k3 = vec![0xffu8; long]; let _ = top; let top = entry(1, false, &k3, &[]); // 0xff 0x7f ..: above all lengths
    seen.borrow_mut().clear(); if t.add(1, ValueType::KTypeValue, &k3, &vec![]).is_err() { check(false, "add fails"); return; }
    let l = seen.borrow(); let mut at = 0; let mut met = false; let mut j = 0;
    while j < l.len() && at < w.len() + 1 {
        let b = if l[j].0 == top { &l[j].1 } else if l[j].1 == top { &l[j].0 } else { check(false, "the entry that is added is what is compared"); return; };
        // the list is walked once or twice (looking for it, then inserting it)
        if at < w.len() && *b == w[at] { at += 1; } else if b.len() == last.len() && !met { check(eq(b, &last), "an entry in the table stays as it was"); met = true; } else if at == w.len() && met { break; } else { check(false, "the table holds every entry, unchanged and in order"); return; }
        j += 1;
    }
    check(at == w.len() && met, "the table holds every entry, unchanged and in order");
    check(t.approximate_memory_usage() >= sum, "memory usage covers the entries");
    cover("large memtable");
}
/// key and value lengths on both sides of every encoded length
#[no_mangle] pub extern "C" fn h_memtable_huge() {
    rand::ROW.store(0, std::sync::atomic::Ordering::Relaxed);
    let seen = Rc::new(RefCell::new(Vec::new())); let mut t = MemTable::create(Arc::new(Spy(seen.clone())));
    let (kl, vl) = match pick("which", 0, 1) { 0 => (one_of("klen", &[16375, 16376, 2_097_143, 2_097_144]), 3), _ => (4, one_of("vlen", &[16383, 16384, 65536, 2_097_151, 2_097_152])) };
    let (mut k, mut v) = (vec![b'k'; kl], vec![b'v'; vl]); k[0] = u8_("k"); k[kl - 1] = u8_("k"); v[0] = u8_("v"); v[vl - 1] = u8_("v"); let s = u64_("seq"); assume(s < 1 << 56); let del = bool_("deletion");
    if t.add(s as usize, if del { ValueType::KTypeDeletion } else { ValueType::KTypeValue }, &k, &v).is_err() { check(false, "add fails"); return; }
    let w = entry(s, del, &k, &v); check(t.approximate_memory_usage() >= w.len(), "memory usage covers the entries");
    if t.add(1, ValueType::KTypeValue, &vec![b'q'], &vec![]).is_err() { check(false, "add fails"); return; }
    let other = entry(1, false, &[b'q'], &[]); let l = seen.borrow(); check(l.len() > 0, "entries are compared"); let mut i = 0;
    while i < l.len() { let b = if l[i].0.len() == other.len() { check(eq(&l[i].0, &other), "an entry is key length, key, tag, value length, value"); &l[i].1 } else { check(eq(&l[i].1, &other), "an entry is key length, key, tag, value length, value"); &l[i].0 }; check(b.len() == w.len() && eq(b, &w), "an entry is key length, key, tag, value length, value"); i += 1; }
    cover("huge entry");
}
#[no_mangle] pub extern "C" fn h_internal_key_length() {
    let n = pick("n", 0, 300); let d = ParsedInternalKey::default();
    let p = ParsedInternalKey::new(Slice::from_buf(&vec![b'u'; n]), u64_("seq"), if bool_("del") { ValueType::KTypeDeletion } else { ValueType::KTypeValue });
    check(d.internal_key_encoding_length(p) == n + 8, "an internal key is eight bytes longer than its user key"); cover("length");
}
// ---- C18
use level_db_rust::db::file_meta_data::FileMetaData;
#[no_mangle] pub extern "C" fn h_file_new() {
    let (r, a, s) = (u32_("refs") as i32, u32_("seeks") as i32, u64_("size")); let e = InternalKey::default;
    let full = |r, a, n, s| FileMetaData::new(r, a, n, s, e(), e());
    check(FileMetaData::new_with_refs(r) == full(r, 1 << 30, 0, 0), "a file record made from its references has only these");
    check(FileMetaData::new_with_refs_allowed_seeks(r, a) == full(r, a, 0, 0), "a file record made from references and seeks has only these");
    check(FileMetaData::new_with_refs_allowed_seeks_file_size(r, a, s) == full(r, a, 0, s), "a file record made from references, seeks and size has only these");
    check(FileMetaData::new_with_refs_allowed_seeks_file_size_internal_key(r, a, s, e(), e()) == full(r, a, 0, s), "a file record made from references, seeks, size and keys has these");
    check(FileMetaData::default() == full(0, 1 << 30, 0, 0), "a fresh file record has no references and 2^30 seeks");
    cover("file constructors");
}
// ---- C22
use level_db_rust::util::histogram::Histogram;
/// many values over all buckets, in several histograms that are merged, then one more that is arbitrary within a decade
#[no_mangle] pub extern "C" fn h_hist_big() {
    let l = crate::hist::limits(); let mut r = Lcg(pick("mix", 1, 2) as u32); let mut hs: Vec<Histogram> = vec![]; let mut i = 0; while i < 3 { hs.push(Histogram::default()); i += 1; }
    let mut vals: Vec<f64> = vec![]; let mut sums = [(0.0, 0.0), (0.0, 0.0), (0.0, 0.0)]; i = 0;
    while i < 120 { let b = r.next(153); let v = if i % 4 == 0 { l[b] } else { l[b] * 0.5 + i as f64 }; let h = r.next(3); hs[h].add(v); sums[h].0 += v; sums[h].1 += v * v; vals.push(v); i += 1; }
    let v = f64::from_bits(u64_("v")); assume(v >= 1.0 && v < 13.0); hs[2].add(v); sums[2].0 += v; sums[2].1 += v * v;
    let (b, c) = (hs.pop().unwrap(), hs.pop().unwrap()); let mut a = hs.pop().unwrap(); a.merge(&c); a.merge(&b);
    let mut want = vec![0.0; 154]; let mut cnt = vec![0u32; 154]; let (mut lo, mut hi) = (v, v);
    i = 0; while i < vals.len() { let k = crate::hist::bucket_of(&l, vals[i]); want[k] += 1.0; cnt[k] += 1; if vals[i] < lo { lo = vals[i]; } if vals[i] > hi { hi = vals[i]; } i += 1; }
    let k = crate::hist::bucket_of(&l, v); want[k] += 1.0; cnt[k] += 1;
    let t = a.verif_totals(); check(t[0] == lo && t[1] == hi && t[2] == 121.0, "smallest, largest and number of the values added");
    let (s, q) = ((sums[0].0 + sums[1].0) + sums[2].0, (sums[0].1 + sums[1].1) + sums[2].1);
    check(crate::hist::same(t[3], s) & crate::hist::same(t[4], q), "merging adds the sums");
    crate::hist::check_buckets(&a, &want, "every value added counts in its bucket");
    let p = [1.0, 10.0, 50.0, 90.0, 99.9, 100.0][pick("p", 0, 5)]; let x = a.verif_percentile(p);
    check(x >= lo && x <= hi, "a percentile lies between the smallest and the largest value");
    let rank = 121.0 * (p / 100.0); let mut s = 0u32; let mut i = 0; while ((s + cnt[i]) as f64) < rank { s += cnt[i]; i += 1; }
    let left = if i == 0 { 0.0 } else { l[i - 1] }; check(x >= left && x <= l[i], "a percentile lies in the bucket that reaches its rank");
    let y = left + (l[i] - left) * ((rank - s as f64) / cnt[i] as f64); let (y0, y1) = (y - 1e-9 * (1.0 + y), y + 1e-9 * (1.0 + y));
    check((x >= y0) | (x == hi), "a percentile is interpolated in its bucket"); check((x <= y1) | (x == lo), "a percentile is interpolated in its bucket");
    cover("many values");
}
// ---- C15
use level_db_rust::db::skip_list::SkipList;
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::unsafe_slice::UnsafeSlice;
/// the printed form shows every key in order, and the memory usage is that of the arena
#[no_mangle] pub extern "C" fn h_skip_text() {
    real_fmt(true); rand::ROW.store(1, std::sync::atomic::Ordering::Relaxed);
    let ar = crate::mem::arena(); let mut l = SkipList::create(Arc::new(BytewiseComparatorImpl::default()), ar.clone()); let n = pick("n", 0, 2); let mut m: Vec<u8> = vec![]; let mut i = 0;
    while i < n { let k = range("k", 97, 122) as u8; l.insert(UnsafeSlice::new_with_arena(&[k], ar.clone()).unwrap()).unwrap(); let mut at = 0; let mut dup = false; while at < m.len() && m[at] <= k { dup |= m[at] == k; at += 1; } if !dup { m.insert(at, k); } i += 1; }
    let s = l.to_string(); let b = s.as_bytes();
    // every key between " -> " and "("
    let mut at = 0; let mut j = 0; while at + 5 < b.len() { if b[at] == b' ' && b[at + 1] == b'-' && b[at + 2] == b'>' && b[at + 3] == b' ' && b[at + 5] == b'(' { if j < m.len() { check(b[at + 4] == m[j], "the printed form shows the keys in order"); } j += 1; } at += 1; }
    check(j == m.len(), "the printed form shows every key");
    check(l.memory_usage() == ar.lock().unwrap().memory_usage(), "memory usage is that of the arena");
    cover("printed");
}
