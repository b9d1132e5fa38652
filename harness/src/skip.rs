use crate::mem::arena;
use crate::sym::*;
use level_db_rust::db::skip_list::SkipList;
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::traits::DataIterator;
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::unsafe_slice::UnsafeSlice;
use std::cmp::Ordering;
use std::sync::Arc;

/// descending order, only the first byte counts: a list must use the order it was given
struct Desc;
impl Comparator for Desc {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> { let x = if a.is_empty() { 0 } else { a[0] as i32 + 1 }; let y = if b.is_empty() { 0 } else { b[0] as i32 + 1 }; Some(y.cmp(&x)) }
    fn get_name(&self) -> String { String::new() }
    fn find_shortest_separator(&self, s: &String, _: &Slice) -> String { s.clone() }
    fn find_short_successor(&self, s: &String) -> String { s.clone() }
}
#[inline(never)]
fn list<C: Comparator>(c: C, n: usize, klen: usize, probe: usize, row: u32) {
    rand::ROW.store(row, std::sync::atomic::Ordering::Relaxed);
    let c = Arc::new(c); let ar = arena();
    let mut l = SkipList::create(c.clone(), ar.clone());
    check(l.len() == 0, "a fresh list is empty");
    // the model: keys in order, without duplicates
    let mut m: Vec<Vec<u8>> = Vec::new();
    let k = pick("n", 0, n); let mut i = 0;
    while i < k {
        let kl = pick("klen", if klen > 1 { 0 } else { klen }, klen); let key = vec("k", kl);
        let us = UnsafeSlice::new_with_arena(&key, ar.clone()).unwrap();
        if l.insert(us).is_err() { check(false, "insert fails"); return; }
        let mut at = 0; let mut dup = false;
        while at < m.len() { match c.compare(&key, &m[at]) { Some(Ordering::Less) => break, Some(Ordering::Equal) => { dup = true; break; } _ => at += 1 } }
        if !dup { m.insert(at, key); }
        i += 1;
    }
    check(l.len() == m.len(), "len counts the distinct keys");
    check(l.height() <= l.max_height() && (m.is_empty() || l.height() >= 1), "the height is within bounds");
    // in order, every key once
    let mut it = l.iter(); let mut i = 0;
    while i < m.len() { match Iterator::next(&mut it) { Some(s) => check(s.len() == m[i].len() && eq(s.as_ref(), &m[i]), "iteration yields the keys in order"), None => { check(false, "iteration ends early"); return; } } i += 1; }
    check(Iterator::next(&mut it).is_none(), "iteration ends after the last key");
    check(Iterator::next(&mut it).is_none(), "iteration stays at its end");
    // the cursor interface
    let mut it = l.iter();
    check(!it.valid(), "a fresh cursor is not valid");
    it.seek_to_first(); let mut i = 0;
    while i < m.len() { check(it.valid(), "a cursor on a key is valid"); if !it.valid() { return; } check(eq(it.key().as_ref(), &m[i]), "the cursor shows the keys in order"); DataIterator::next(&mut it); i += 1; }
    check(!it.valid(), "a cursor after the last key is not valid");
    DataIterator::next(&mut it); check(!it.valid(), "a cursor stays at the end");
    it.seek_to_last();
    if m.is_empty() { check(!it.valid(), "no last key in an empty list"); } else { check(it.valid(), "seek_to_last finds a key"); if it.valid() { check(eq(it.key().as_ref(), &m[m.len() - 1]), "seek_to_last finds the last key"); } }
    it.seek_to_first();
    if m.is_empty() { check(!it.valid(), "no first key in an empty list"); } else { check(it.valid() && eq(it.key().as_ref(), &m[0]), "seek_to_first finds the first key"); }
    // contains, for keys inside and outside
    let mut i = 0; while i < m.len() { check(l.contains(&m[i]), "contains every key inserted"); i += 1; }
    if probe > 0 {
        let pl = pick("plen", 0, probe); let p = vec("p", pl);
        let mut is = false; let mut i = 0; while i < m.len() { if c.compare(&p, &m[i]) == Some(Ordering::Equal) { is = true; } i += 1; }
        check(l.contains(&p) == is, "contains exactly the keys inserted");
    }
    cover("skip list");
    if m.len() > 1 { cover("several keys"); }
}
#[no_mangle] pub extern "C" fn h_skip_two() { list(BytewiseComparatorImpl::default(), 2, 2, 2, u32::MAX) }
#[no_mangle] pub extern "C" fn h_skip_three() { list(BytewiseComparatorImpl::default(), 3, 1, 1, 2) }
#[no_mangle] pub extern "C" fn h_skip_four() { list(BytewiseComparatorImpl::default(), 4, 1, 0, 1) }
#[no_mangle] pub extern "C" fn h_skip_desc() { list(Desc, 3, 1, 1, 1) }
#[no_mangle] pub extern "C" fn h_skip_three_t() { list(BytewiseComparatorImpl::default(), 3, 1, 1, u32::MAX) }
#[no_mangle] pub extern "C" fn h_skip_five_t() { list(BytewiseComparatorImpl::default(), 5, 1, 1, 2) }
#[no_mangle] pub extern "C" fn h_skip_desc_t() { list(Desc, 4, 2, 1, 2) }
