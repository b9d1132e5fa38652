//! Schedules: several threads, switched at every atomic operation (the solver chooses where); accesses to shared memory
//! that no synchronisation orders are reported as races.
use crate::sym::*;
use level_db_rust::util::arena::ArenaAllocLike as _;
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::mutex_lock::{Lock, MutexLock};
use level_db_rust::util::slice::Slice;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;

// ---- mutex
struct Job { l: Lock<(u32, u32)>, d: u32, try_: bool, times: usize, entered: usize }
extern "C" fn worker(p: usize) {
    let j = unsafe { &mut *(p as *mut Job) }; let mut i = 0;
    while i < j.times {
        let g = if j.try_ { j.l.try_lock().ok() } else { Some(j.l.lock().unwrap()) };
        if let Some(mut g) = g { check(g.0 == g.1, "nobody else is inside while the lock is held"); let v = g.0; g.0 = v.wrapping_add(j.d); yield_(); g.1 = v.wrapping_add(j.d); j.entered += 1; }
        i += 1;
    }
}
#[inline(never)]
fn mutex(n: usize, times: usize, pre: u32) {
    let v = u32_("v"); let m = MutexLock::new((v, v)); let mut js: Vec<Job> = vec![]; let mut i = 0;
    while i < n { js.push(Job { l: m.get_lock(), d: u32_("d"), try_: i == 0 && branch(bool_("try")), times, entered: 0 }); i += 1; }
    let p = js.as_mut_ptr();
    threads(pre);
    let mut ts = vec![]; i = 0; while i < n { ts.push(spawn(worker, unsafe { p.add(i) } as usize)); i += 1; }
    while let Some(t) = ts.pop() { join(t); }
    let mut w = v; i = 0; while i < n { let j = unsafe { &*p.add(i) }; if !j.try_ { check(j.entered == times, "a waiting thread gets the lock"); } let mut k = 0; while k < j.entered { w = w.wrapping_add(j.d); k += 1; } i += 1; }
    let l = m.get_lock(); let g = l.lock().unwrap(); check(g.0 == w && g.1 == w, "every change made under the lock is kept"); drop(g);
    cover("threads and a lock");
}
#[no_mangle] pub extern "C" fn h_mutex_threads() { mutex(2, 2, 2) }
#[no_mangle] pub extern "C" fn h_mutex_threads_t() { mutex(3, 1, 3) }

// ---- cache
/// keys of one bucket of one shard, then one of another shard
const KEYS: [&str; 3] = ["%;", "'a", "!|"];
static LIVE: AtomicI64 = AtomicI64::new(0);
struct Tok(u32);
impl Drop for Tok { fn drop(&mut self) { LIVE.fetch_sub(1, Ordering::Relaxed); self.0 = 0xdeadbeef; } }
#[derive(Clone, Copy)]
enum Op { Insert(usize, u32, usize), Lookup(usize), Total }
struct Run { c: Arc<ShardLRUCache<Tok>>, keys: Vec<Slice>, ops: Vec<Op>, got: Vec<Option<u32>>, total: Vec<usize> }
extern "C" fn user(p: usize) {
    let r = unsafe { &mut *(p as *mut Run) }; let mut i = 0;
    while i < r.ops.len() {
        match r.ops[i] {
            Op::Insert(k, v, c) => { if r.c.insert(&r.keys[k], Tok(v), c).is_err() { check(false, "insert fails"); } r.got.push(None); r.total.push(0); }
            Op::Lookup(k) => { match r.c.lookup(&r.keys[k]) { Ok(x) => { r.got.push(x.map(|t| t.0)); } Err(_) => { check(false, "lookup fails"); r.got.push(None); } } r.total.push(0); }
            Op::Total => { r.got.push(None); r.total.push(r.c.total_charge().unwrap_or(99)); }
        }
        i += 1;
    }
}
#[derive(Clone)]
struct Model { e: Vec<(usize, u32, usize)>, cap: usize }
impl Model {
    fn sh(k: usize) -> usize { if k < 2 { 0 } else { 1 } }
    fn insert(&mut self, k: usize, v: u32, c: usize) {
        self.e.retain(|x| x.0 != k); self.e.insert(0, (k, v, c));
        loop { let mut s = 0; for x in &self.e { if Self::sh(x.0) == Self::sh(k) { s += x.2; } } if s < self.cap { break; } match self.e.iter().rposition(|x| Self::sh(x.0) == Self::sh(k)) { Some(i) => { self.e.remove(i); } None => break } }
    }
    fn get(&mut self, k: usize) -> Option<u32> { let i = self.e.iter().position(|x| x.0 == k)?; let x = self.e.remove(i); self.e.insert(0, x); Some(x.1) }
    fn total(&self) -> usize { self.e.iter().map(|x| x.2).sum() }
}
/// is there an order of both threads' operations that explains every result and the final contents?
fn explained(m: &Model, a: &[(Op, Option<u32>, usize)], b: &[(Op, Option<u32>, usize)], end: &[Option<u32>]) -> bool {
    if a.is_empty() && b.is_empty() { let mut ok = true; let mut k = 0; while k < 3 { let w = m.e.iter().find(|x| x.0 == k).map(|x| x.1); ok &= match (w, end[k]) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false }; k += 1; } return ok; }
    let mut any = false;
    for (x, rest_a, rest_b) in [(a.first(), if a.is_empty() { a } else { &a[1..] }, b), (b.first(), a, if b.is_empty() { b } else { &b[1..] })] {
        if let Some(&(op, got, tot)) = x {
            let mut m = m.clone();
            let ok = match op { Op::Insert(k, v, c) => { m.insert(k, v, c); true } Op::Lookup(k) => match (m.get(k), got) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false }, Op::Total => m.total() == tot };
            // without forking on values
            any |= ok & explained(&m, rest_a, rest_b, end);
        }
    }
    any
}
fn op(name: &str, v: u32, kinds: usize) -> Op { match pick(name, 0, kinds) { 0 => Op::Insert(0, v, 1), 1 => Op::Lookup(0), 2 => Op::Insert(1, v, 1), 3 => Op::Lookup(1), 4 => Op::Insert(2, v, 1), 5 => Op::Lookup(2), _ => Op::Total } }
#[inline(never)]
fn cache(na: usize, nb: usize, kinds: usize, cap: usize, pre: u32) {
    let c: Arc<ShardLRUCache<Tok>> = Arc::new(ShardLRUCache::new_with_capacity(32 * cap, 0));
    let keys = || { let mut v = vec![]; for k in KEYS { v.push(Slice::from(k)); } v };
    LIVE.store(0, Ordering::Relaxed);
    let mut m = Model { e: vec![], cap }; let ks = keys();
    let first = pick("before", 0, 1); let mut ins = 0;
    if first == 1 { c.insert(&ks[0], Tok(1000), 1).unwrap(); m.insert(0, 1000, 1); ins += 1; }
    let mut rs = vec![]; let mut t = 0;
    while t < 2 { let n = if t == 0 { na } else { nb }; let mut ops = vec![]; let mut i = 0; while i < n { let o = op("op", (10 * t + i) as u32, kinds); if let Op::Insert(..) = o { ins += 1; } ops.push(o); i += 1; } rs.push(Run { c: c.clone(), keys: keys(), ops, got: Vec::with_capacity(4), total: Vec::with_capacity(4) }); t += 1; }
    let p = rs.as_mut_ptr();
    LIVE.store(ins, Ordering::Relaxed);
    threads(pre);
    let (x, y) = (spawn(user, p as usize), spawn(user, unsafe { p.add(1) } as usize));
    join(x); join(y); threads(0);
    let (a, b) = unsafe { (&*p, &*p.add(1)) };
    let tot = c.total_charge().unwrap(); let mut end = vec![]; let mut n = 0; let mut k = 0;
    while k < 3 { let r = c.lookup(&ks[k]).unwrap(); if r.is_some() { n += 1; } end.push(r.map(|t| t.0)); k += 1; }
    check(tot == n, "the total charge counts what is cached");
    check(LIVE.load(Ordering::Relaxed) == n as i64, "a value is released exactly when it is no longer cached");
    let h = |r: &Run| { let mut v = vec![]; let mut i = 0; while i < r.ops.len() { v.push((r.ops[i], r.got[i], r.total[i])); i += 1; } v };
    check(explained(&m, &h(a), &h(b), &end), "the results are those of some order of the operations");
    drop(rs); drop(c);
    check(LIVE.load(Ordering::Relaxed) == 0, "dropping the cache releases every value");
    cover("threads and a cache");
}
#[no_mangle] pub extern "C" fn h_cache_threads() { cache(1, 1, 3, 100, 3) }
#[no_mangle] pub extern "C" fn h_cache_threads_evict() { cache(1, 1, 3, 2, 3) }
#[no_mangle] pub extern "C" fn h_cache_threads_two() { cache(2, 1, 3, 100, 1) }
#[no_mangle] pub extern "C" fn h_cache_threads_shards() { cache(1, 1, 6, 100, 1) }
#[no_mangle] pub extern "C" fn h_cache_threads_t() { cache(2, 2, 3, 2, 2) }
// ---- arena
struct Maker { ar: level_db_rust::util::arena::ArenaRef, data: Vec<Vec<u8>>, got: Vec<level_db_rust::util::unsafe_slice::UnsafeSlice>, copies: Vec<Slice>, copy: bool }
extern "C" fn maker(p: usize) {
    let m = unsafe { &mut *(p as *mut Maker) }; let mut i = 0;
    while i < m.data.len() {
        if m.copy { m.copies.push(Slice::from_buf(&m.data[i]).copy_with_arena(m.ar.clone())); }
        else { match level_db_rust::util::unsafe_slice::UnsafeSlice::new_with_arena(&m.data[i], m.ar.clone()) { Ok(s) => m.got.push(s), Err(_) => check(false, "new_with_arena fails") } }
        i += 1;
    }
}
#[inline(never)]
fn arena(n: usize, pre: u32) {
    let ar = crate::mem::arena(); let mut ms = vec![]; let mut t = 0;
    while t < 2 { let mut data = vec![]; let mut i = 0; while i < n { let mut d = vec![7u8; [1usize, 1500, 3000][pick("size", 0, 2)]]; let l = d.len(); d[0] = u8_("a"); d[l - 1] = u8_("z"); data.push(d); i += 1; } ms.push(Maker { ar: ar.clone(), data, got: Vec::with_capacity(2), copies: Vec::with_capacity(2), copy: t == 1 && branch(bool_("copy")) }); t += 1; }
    let p = ms.as_mut_ptr(); threads(pre);
    let (x, y) = (spawn(maker, p as usize), spawn(maker, unsafe { p.add(1) } as usize)); join(x); join(y); threads(0);
    let mut t = 0;
    while t < 2 { let m = unsafe { &*p.add(t) }; let mut i = 0; while i < m.data.len() { let b = if m.copy { m.copies[i].as_ref() } else { m.got[i].as_ref() }; check(b.len() == m.data[i].len() && eq(b, &m.data[i]), "a slice in a shared arena holds its bytes"); i += 1; } t += 1; }
    cover("threads and an arena");
}
#[no_mangle] pub extern "C" fn h_arena_threads() { arena(1, 2) }
#[no_mangle] pub extern "C" fn h_arena_threads_two() { arena(2, 1) }
#[no_mangle] pub extern "C" fn h_arena_threads_t() { arena(2, 2) }
