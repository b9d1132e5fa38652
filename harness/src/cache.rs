use crate::sym::*;
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::slice::Slice;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;

// keys with LevelDB hashes in one shard (22): the first six share a bucket of 16 (with both values of the next hash bit),
// the last two live in other shards
const KEYS: [&str; 8] = ["%;", "'a", "!p", "&2", ",#", "+,", "!|", "&y"];
const MORE: [&str; 20] = ["!p", "%;", "&2", "'a", "+,", ",#", "5i", "6`", ":+", ";Z", "<Q", "JY", "Kz", "PJ", "Zy", "`j", "a7", "g(", "qe", "u0"];
/// a value that knows how many of its kind are alive
struct Tok { v: u32, live: Rc<Cell<i64>> }
impl Drop for Tok { fn drop(&mut self) { self.live.set(self.live.get() - 1); self.v = 0xdeadbeef; } }
fn tok(v: u32, live: &Rc<Cell<i64>>) -> Tok { live.set(live.get() + 1); Tok { v, live: live.clone() } }
fn key(i: usize) -> Slice { Slice::from(KEYS[i]) }
/// different keys whose 32-bit hashes are equal
const SAME: [&str; 4] = ["aaaa", "abjbbmCV", "abjgbLCw", "abjibbCQ"];
fn same(i: usize) -> Slice { Slice::from(SAME[i]) }
fn shard_of(i: usize) -> usize { if i < 6 { 0 } else { i } }

/// reference: per shard, entries with the most recently used first
struct Model { e: Vec<(usize, u32, usize)>, cap: usize }
impl Model {
    fn sum(&self, sh: usize) -> usize { let mut s = 0; for x in &self.e { if shard_of(x.0) == sh { s += x.2; } } s }
    fn total(&self) -> usize { let mut s = 0; for x in &self.e { s += x.2; } s }
    fn find(&self, k: usize) -> Option<usize> { self.e.iter().position(|x| x.0 == k) }
    fn insert(&mut self, k: usize, v: u32, c: usize) {
        if let Some(i) = self.find(k) { self.e.remove(i); }
        self.e.insert(0, (k, v, c));
        let sh = shard_of(k);
        while branch(self.sum(sh) >= self.cap) {
            match self.e.iter().rposition(|x| shard_of(x.0) == sh) { Some(i) => { self.e.remove(i); } None => break }
        }
    }
    fn get(&mut self, k: usize) -> Option<u32> { let i = self.find(k)?; let x = self.e.remove(i); self.e.insert(0, x); Some(x.1) }
    fn erase(&mut self, k: usize) { if let Some(i) = self.find(k) { self.e.remove(i); } }
}
/// `pre` inserts, then `ops` operations of any kind on `nk` keys
#[inline(never)]
fn cache(nk: usize, pre: usize, ops: usize, kinds: usize, charges: bool) { cache_of(key, nk, pre, ops, kinds, if charges { 3 } else { 0 }) }
#[inline(never)]
fn cache_of(key: fn(usize) -> Slice, nk: usize, pre: usize, ops: usize, kinds: usize, charges: u64) {
    let live = Rc::new(Cell::new(0i64));
    // capacity of a shard, as the cache derives it from the whole
    let per = if charges > 3 { [1000, 1usize << 32, (1 << 40) + 77][pick("cap", 0, 2)] } else if charges > 0 { pick("cap", 0, 4) } else { 100 };
    let mut c: ShardLRUCache<Tok> = ShardLRUCache::new_with_capacity(per * 32, 0);
    check(c.capacity() == per * 32, "capacity is what was given");
    let mut m = Model { e: vec![], cap: per };
    let mut held: Option<(Arc<Tok>, u32)> = None;
    let mut i = 0;
    while i < pre + ops {
        let op = if i < pre { 0 } else { pick("op", 0, kinds) };
        let k = if i < pre { i } else if op == 3 { 0 } else { pick("key", 0, nk - 1) };
        match op {
            0 => {
                let v = u32_("value"); let ch = if charges > 0 { range("charge", 0, charges) as usize } else { 1 };
                if c.insert(&key(k), tok(v, &live), ch).is_err() { check(false, "insert fails"); return; }
                m.insert(k, v, ch);
            }
            1 => match c.lookup(&key(k)) {
                Ok(r) => { let w = m.get(k); check(r.is_some() == w.is_some(), "lookup finds exactly what is cached"); if let (Some(a), Some(w)) = (r, w) { check(a.v == w, "lookup returns the value last inserted"); if held.is_none() { held = Some((a, w)); } } }
                Err(_) => { check(false, "lookup fails"); return; }
            },
            2 => { if c.erase(&key(k)).is_err() { check(false, "erase fails"); return; } m.erase(k); }
            _ => { if c.prune().is_err() { check(false, "prune fails"); return; } m.e.clear(); }
        }
        check(c.total_charge().unwrap() == m.total(), "total charge is the sum of the cached charges");
        // values leave memory exactly when they are neither cached nor held
        let extra = match &held { Some((a, w)) => { check(a.v == *w, "a value obtained by lookup stays valid"); if Arc::strong_count(a) == 1 { 1 } else { 0 } } None => 0 };
        check(live.get() == m.e.len() as i64 + extra, "a value is released exactly when it is no longer cached nor held");
        i += 1;
    }
    let mut k = 0;
    while k < nk { let r = c.lookup(&key(k)).unwrap(); let w = m.find(k).map(|i| m.e[i].1); check(r.is_some() == w.is_some(), "at the end exactly the cached keys are found"); if let (Some(a), Some(w)) = (r, w) { check(a.v == w, "at the end every key has its value"); } k += 1; }
    drop(held); drop(c);
    check(live.get() == 0, "dropping the cache releases every value");
    cover("cache history");
    if m.e.len() > 1 { cover("several entries"); }
}
#[no_mangle] pub extern "C" fn h_cache_ops() { cache(3, 0, 3, 3, false) }
#[no_mangle] pub extern "C" fn h_cache_chain() { cache(5, 4, 2, 2, false) }
#[no_mangle] pub extern "C" fn h_cache_evict() { cache(3, 2, 2, 2, true) }
#[no_mangle] pub extern "C" fn h_cache_shards() { cache(8, 8, 1, 3, false) }
#[no_mangle] pub extern "C" fn h_cache_same() { cache_of(same, 4, 3, 2, 2, 0) }
#[no_mangle] pub extern "C" fn h_cache_same_evict() { cache_of(same, 3, 2, 2, 2, 3) }
/// charges of any size up to 2^40
#[no_mangle] pub extern "C" fn h_cache_wide() { cache_of(key, 3, 2, 2, 2, 1 << 40) }
#[no_mangle] pub extern "C" fn h_cache_ops_t() { cache(4, 0, 4, 3, false) }
#[no_mangle] pub extern "C" fn h_cache_chain_t() { cache(6, 5, 3, 3, false) }
#[no_mangle] pub extern "C" fn h_cache_evict_t() { cache(4, 3, 3, 3, true) }
/// growth of the hash table: more entries in one shard than it can hold without growing, then erasures anywhere
#[inline(never)]
fn grow(n: usize, erases: usize) {
    let live = Rc::new(Cell::new(0i64));
    let mut c: ShardLRUCache<Tok> = ShardLRUCache::new_with_capacity(32 * 1000, 0);
    let mut vals = vec![]; let mut i = 0;
    while i < n { let v = if i < 2 { u32_("value") } else { i as u32 * 7 + 1 }; vals.push(Some(v)); c.insert(&Slice::from(MORE[i]), tok(v, &live), 1).unwrap(); i += 1; }
    let mut e = 0;
    while e < erases { let k = pick("erase", 0, n - 1); c.erase(&Slice::from(MORE[k])).unwrap(); vals[k] = None; e += 1; }
    let mut i = 0; let mut cnt = 0;
    while i < n { let r = c.lookup(&Slice::from(MORE[i])).unwrap(); check(r.is_some() == vals[i].is_some(), "after growth exactly the cached keys are found"); if let (Some(a), Some(w)) = (r, vals[i]) { check(a.v == w, "after growth every key has its value"); cnt += 1; } i += 1; }
    check(c.total_charge().unwrap() == cnt && live.get() == cnt as i64, "after growth charges and values add up");
    // and everything can be erased, one by one
    let mut i = 0; while i < n { c.erase(&Slice::from(MORE[i])).unwrap(); check(c.lookup(&Slice::from(MORE[i])).unwrap().is_none(), "an erased key is gone"); i += 1; }
    check(c.total_charge().unwrap() == 0 && live.get() == 0, "an emptied cache holds nothing");
    cover("hash table growth");
}
#[no_mangle] pub extern "C" fn h_cache_grow() { let n = pick("n", 12, 14); grow(n, 1) }
#[no_mangle] pub extern "C" fn h_cache_grow_t() { let n = pick("n", 11, 16); grow(n, 2) }
/// recency: among entries of one shard that fit one by one, the one used longest ago goes first
#[no_mangle] pub extern "C" fn h_cache_recency() {
    let live = Rc::new(Cell::new(0i64));
    let c: ShardLRUCache<Tok> = ShardLRUCache::new_with_capacity(32 * 4, 0);
    let mut i = 0; while i < 3 { c.insert(&key(i), tok(i as u32, &live), 1).unwrap(); i += 1; }
    let mut order = vec![0usize, 1, 2];
    let n = pick("touches", 0, 3); let mut i = 0;
    while i < n { let k = pick("touch", 0, 2); check(c.lookup(&key(k)).unwrap().is_some(), "a cached entry is found"); order.retain(|x| *x != k); order.push(k); i += 1; }
    c.insert(&key(3), tok(3, &live), 1).unwrap();
    let mut k = 0; while k < 3 { check(c.lookup(&key(k)).unwrap().is_some() == (k != order[0]), "the entry used longest ago is evicted, the others stay"); k += 1; }
    check(c.lookup(&key(3)).unwrap().is_some(), "a new entry that fits stays");
    cover("recency");
}
