//! The properties at sizes the small harnesses do not reach: long inputs and long histories, fixed for the most part and
//! arbitrary where it matters, so that lengths, offsets and counts take more than one byte or more than one step.
use crate::coding::{request, run, Op};
use crate::filters::{Model, Spell};
use crate::hashes::{ref_crc, ref_hash, ref_k, Al};
use crate::mem::arena;
use crate::slices::{cmp_separator_of, cmp_successor_of, slice_order_of};
use crate::sym::*;
use level_db_rust::db::skip_list::SkipList;
use level_db_rust::table::filter_block::{FilterBlock, FilterBlockBuilder};
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::traits::filter_policy_trait::{FilterPolicy, FilterPolicyPtr};
use level_db_rust::traits::DataIterator;
use level_db_rust::util::arena::{Arena, ArenaAllocLike};
use level_db_rust::util::coding::{Decoder, Encoder};
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::crc::CRC;
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::hash::Hash;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::unsafe_slice::UnsafeSlice;
use std::sync::Arc;

/// a pattern whose first and last byte are arbitrary
fn ends(n: usize) -> Vec<u8> { let mut v = pattern(n); if n > 0 { v[0] = u8_("a"); v[n - 1] = u8_("z"); } v }
fn one_of(name: &str, a: &[usize]) -> usize { a[pick(name, 0, a.len() - 1)] }
const LENS: [usize; 14] = [126, 127, 128, 129, 255, 256, 300, 16383, 16384, 65535, 65536, 70000, 2_097_151, 2_097_152];

// ---- C01
#[no_mangle] pub extern "C" fn h_coding_big() {
    let b = ends(one_of("len", &LENS)); let v = u64_("v"); assume(v >= 1 << 20 && v < 1 << 21);
    if branch(bool_("raw")) { run(vec![Op::F32(u32_("f")), Op::Buf(b), Op::V64(v), Op::F64(u64_("g"))]) } else { run(vec![Op::V64(v), Op::Lps(b), Op::F32(u32_("f"))]) }
}
/// a long sequence: both sides of every varint length, offsets beyond one byte
#[no_mangle] pub extern "C" fn h_coding_long() {
    let mut ops = vec![Op::F32(u32_("f"))]; let mut i = 0;
    while i < 64 { ops.push(Op::V64(1 << i)); ops.push(Op::V64((1 << i) - 1)); if i < 32 { ops.push(Op::V32(1 << i)); ops.push(Op::V32((1 << i) - 1)); } if i % 8 == 0 { ops.push(Op::Lps(pattern(i))); ops.push(Op::F64(1 << i)); } i += 1; }
    ops.push(Op::F64(u64_("g"))); ops.push(Op::V64(u64::MAX)); ops.push(Op::V32(u32::MAX));
    run(ops)
}
// ---- C02: data longer than one byte can count, every request near its end and after a jump
#[no_mangle] pub extern "C" fn h_decoding_big() {
    let n = one_of("n", &[128, 300, 17000]); let mut data = pattern(n);
    let back = pick("back", 0, 11); let mut at = n - back;
    let mut i = 0; while i < back && i < 2 { data[at + i] = u8_("d"); i += 1; }
    let ds = Slice::from_buf(&data);
    let mut d = match pick("view", 0, 2) { 0 => Decoder::with_vec(&data), 1 => Decoder::with_buf(&data), _ => Decoder::with_slice(&ds) };
    match d.skip(at) { Ok(o) => check(o == at, "skip returns the new offset"), Err(_) => { check(false, "skip refuses data that is there"); return; } }
    let a0 = at;
    if !request(&mut d, &data, &mut at, pick("op", 0, 4)) { check(d.offset() >= a0 && d.offset() <= n, "a refused request leaves the position inside the data"); cover("refused"); return; }
    check(d.offset() == at && d.limit() == n && d.can_get() == (at < n), "position after a request");
    cover("done");
}
/// length prefixes of every size against the data that is left
#[no_mangle] pub extern "C" fn h_decoding_lengths() {
    let left = one_of("left", &[0, 1, 127, 128, 200, 300, 16384, 65536, 70000, 2_097_152]); let before = one_of("before", &[0, 1, 130]);
    let len = match pick("length", 0, 9) { 0 => 0, 1 => 1, 2 => left.wrapping_sub(1) & 0xffff_ffff, 3 => left, 4 => left + 1, 5 => left + 128, 6 => left + 65536, 7 => (1 << 31) - 1, 8 => 1 << 31, _ => 0xffff_ffff };
    let mut data = pattern(before); let mut x = len; while x > 127 { data.push(x as u8 | 128); x >>= 7; } data.push(x as u8);
    let e = data.len(); data.extend_from_slice(&ends(left));
    let ds = Slice::from_buf(&data);
    let mut d = match pick("view", 0, 2) { 0 => Decoder::with_vec(&data), 1 => Decoder::with_buf(&data), _ => Decoder::with_slice(&ds) };
    if d.skip(before).is_err() { check(false, "skip refuses data that is there"); return; }
    match d.get_length_prefixed_slice() {
        Ok(s) => { check(len <= left, "length-prefixed slice longer than the data"); if len <= left { check(s.len() == len && eq(&s, &data[e..e + len]), "length-prefixed content"); check(d.offset() == e + len, "position after a length-prefixed slice"); } cover("there"); }
        Err(_) => { check(len > left, "get_length_prefixed_slice refuses data that is there"); check(d.offset() >= before && d.offset() <= data.len(), "a refused request leaves the position inside the data"); cover("not there"); }
    }
}
// ---- C03: large targets filled to around their end
#[no_mangle] pub extern "C" fn h_coding_bounds_big() {
    let size = one_of("size", &[128, 131, 256, 300, 16390, 65537]); let kind = bool_("slice");
    let mut b = vec![0xEEu8; size]; let mut s = Slice::from_vec(vec![0xEEu8; size]);
    let gap = pick("gap", 0, 10); let n = size - gap; // what is left when the item is written, or what the item leaves
    let (first, item): (usize, Op) = match pick("item", 0, 5) {
        0 => (n, Op::F32(u32_("v"))), 1 => (n, Op::F64(u64_("v"))), 2 => (n, Op::V32(u32_("v"))), 3 => (n, Op::V64(u64_("v"))),
        4 => (1, Op::Lps(ends(size - 6 + gap))), _ => (1, Op::Buf(ends(size - 6 + gap)))
    };
    let want = crate::coding::ref_enc(&item); let fits = first + want.len() <= size;
    let (ok, off) = { let mut e = if kind { Encoder::with_slice(&mut s) } else { Encoder::with_buf(&mut b) }; if e.put_buf(&vec![0x11u8; first]).is_err() { check(false, "put_buf of what fits"); } (crate::coding::put(&mut e, &item), e.offset()) };
    let out: &[u8] = if kind { &s } else { &b };
    check(ok == fits, "put succeeds exactly when the encoding fits");
    check(eq(&out[..first], &vec![0x11u8; first]), "earlier bytes are kept");
    if fits { check(off == first + want.len(), "offset after put"); if off == first + want.len() { check(eq(&out[first..off], &want), "encoded bytes"); check(eq(&out[off..], &vec![0xEEu8; size - off]), "later bytes are untouched"); } cover("fits"); }
    else { check(off <= size, "offset never passes the end"); if !matches!(item, Op::Lps(_)) { check(off == first && eq(&out[first..], &vec![0xEEu8; size - first]), "a refused put changes nothing"); } cover("refused"); }
}
// ---- C04, C05: differences far into long strings
fn far(tail: usize) -> (Vec<u8>, Vec<u8>) {
    let l = one_of("common", &[4, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 300, 1000]);
    let (mut a, mut b) = (pattern(l), pattern(l)); let (na, nb) = (pick("la", 0, tail), pick("lb", 0, tail));
    a.extend_from_slice(&vec("a", na)); b.extend_from_slice(&vec("b", nb)); (a, b)
}
#[no_mangle] pub extern "C" fn h_slice_order_big() {
    let (mut a, mut b) = far(1);
    // after the difference, bytes that would decide the other way
    if branch(bool_("more")) { a.extend_from_slice(&[255, 0, 255, 0, 255, 0, 255, 0, 9]); b.extend_from_slice(&[0, 255, 0, 255, 0, 255, 0, 255]); }
    slice_order_of(a, b)
}
#[no_mangle] pub extern "C" fn h_slice_views_big() {
    let n = one_of("n", &[127, 128, 255, 256, 257, 300, 65535, 65536, 70000]); let a = ends(n); let s = Slice::from_vec(a.clone());
    let i = one_of("i", &[0, 1, 100, 126]); let j = n - one_of("rest", &[0, 1, 5]);
    check(s.size() == n && s.len() == n && !s.empty(), "size and empty describe the bytes");
    if i <= j { check(eq(&s[i..j], &a[i..j]), "index by range"); check(eq(s.as_sub_ref(i, j - i), &a[i..j]), "as_sub_ref"); }
    check(eq(&s[j..], &a[j..]), "index by range-from"); check(eq(&s[..j], &a[..j]), "index by range-to"); check(s[n - 1] == a[n - 1] && s[i] == a[i], "index by position");
    let r = s.remove_prefix(j); check(eq(&r, &a[j..]), "remove_prefix returns the rest"); let r = s.remove_prefix(i); check(eq(&r, &a[i..]), "remove_prefix returns the rest");
    let p = Slice::from_buf(&a[..j]); check(s.starts_with(&p) && (p == s) == (j == n), "starts_with is the byte prefix relation");
    let mut q = a.clone(); q[j - 1] ^= 1; check(!s.starts_with(&Slice::from_buf(&q[..j])), "starts_with compares every byte"); check(s != Slice::from_vec(q), "== is byte equality");
    let mut m = p.clone(); m.merge(r, None); check(m.len() == j + n - i && eq(&m[..j], &a[..j]) && eq(&m[j..], &a[i..]), "merge appends the bytes");
    check(s.clone() == s && eq(&s, &a), "the slice is left alone");
    cover("long slices");
}
#[no_mangle] pub extern "C" fn h_cmp_big() {
    let (a, b) = far(1); let (mut x, mut y) = (a.clone(), b.clone()); x.extend_from_slice(&[255, 0]); y.extend_from_slice(&[0, 255]);
    let k = BytewiseComparatorImpl::default(); let o = |p: &[u8], q: &[u8]| match k.compare(p, q) { Some(o) => o as i8, None => 7 };
    check(o(&a, &b) == cmp(&a, &b) && o(&b, &a) == -cmp(&a, &b), "compare is unsigned lexicographic, a prefix first");
    check(o(&x, &y) == cmp(&x, &y), "compare is unsigned lexicographic, a prefix first"); cover("far compare");
}
#[no_mangle] pub extern "C" fn h_cmp_separator_big() {
    let l = one_of("common", &[7, 8, 16, 64, 128, 255, 256, 300]); let (mut a, mut b) = (pattern(l), pattern(l)); let (na, nb) = (pick("la", 0, 2), pick("lb", 0, 2));
    a.extend_from_slice(&vec("a", na)); b.extend_from_slice(&vec("b", nb)); if na == 2 { a.push(7); }
    cmp_separator_of(a, b)
}
#[no_mangle] pub extern "C" fn h_cmp_successor_big() { let mut a = vec![255u8; one_of("run", &[5, 8, 16, 127, 128, 255, 256, 300])]; a.extend_from_slice(&vec("a", pick("la", 0, 2))); if bool_("more") { a.push(3); } cmp_successor_of(a) }
#[no_mangle] pub extern "C" fn h_cmp_name() { let n = BytewiseComparatorImpl::default().get_name(); check(eq(n.as_bytes(), b"leveldb.BytewiseComparator"), "the bytewise comparator has LevelDB's name"); cover("name"); }
// ---- C06, C08
#[inline(never)]
fn at_alignment(n: usize, f: &mut dyn FnMut(&[u8])) { let mut buf = Box::new(Al::<66000>([0; 66000])); let o = pick("align", 0, 3); buf.0[o..o + n].copy_from_slice(&pattern(n)); let mut i = 0; while i < 3 && i < n { buf.0[o + n - 1 - i] = u8_("d"); i += 1; } f(&buf.0[o..o + n]) }
#[no_mangle] pub extern "C" fn h_crc_big() {
    at_alignment(one_of("n", &[127, 128, 255, 256, 257, 1023, 1024, 4096, 65535, 65536, 65541]), &mut |d| {
        let w = ref_crc(0, d); check(CRC::value(d) == w, "value equals CRC32C");
        let k = one_of("split", &[16, 100, 127]); check(CRC::extend(CRC::value(&d[..k]), &d[k..]) == w, "extend over two parts equals the whole"); cover("long crc");
    })
}
#[no_mangle] pub extern "C" fn h_hash_big() {
    let seed = if branch(bool_("default")) { 0xbc9f1d34 } else { 0xdecade };
    at_alignment(one_of("n", &[61, 62, 63, 64, 127, 128, 255, 256, 257, 259, 1000, 65535, 65536, 65538]), &mut |d| { check(Hash::hash_code(d, seed) == ref_hash(d, seed), "hash_code is LevelDB's hash"); cover("long hash"); })
}
// ---- C09: many keys and long keys
#[no_mangle] pub extern "C" fn h_bloom_big() {
    let (n, kl) = [(3, 300), (40, 3), (200, 8), (300, 4)][pick("keys", 0, 3)]; let b = one_of("bits", &[1, 4, 10, 20, 50]);
    let p = BloomFilterPolicy::new_with_bits_per_key(b); let mut ks = Vec::new(); let mut i = 0usize;
    while i < n { let mut k = pattern(kl); k[0] = i as u8; k[1] = (i >> 8) as u8; k[kl - 1] = (i * 37) as u8; ks.push(Slice::from_vec(k)); i += 1; }
    let cap = match pick("capacity", 0, 3) { 0 => n, 1 => n + 64, 2 => n / 2, _ => 100_000 };
    let f = if cap == n { p.create_filter(ks.iter().collect()) } else { p.create_filter_with_len(cap, ks.iter().collect()) };
    let mut bits = cap * b; if bits < 64 { bits = 64; }
    check(f.len() == (bits + 7) / 8 + 1 && f[f.len() - 1] == ref_k(b as u64), "filter size and probe count");
    let q = BloomFilterPolicy::new(); i = 0;
    while i < n { check(p.key_may_match(&ks[i], &f), "no false negative"); check(q.key_may_match(&ks[i], &f), "a filter is read with the probe count it records"); i += 1; }
    cover("many keys");
}
// ---- C10: many ranges, many keys, filters larger than a block
/// data blocks far apart
#[no_mangle] pub extern "C" fn h_filter_block_far() { far_apart(one_of("far", &[134_217_728, 140_000_000])) }
/// beyond 4 GiB: the filters so far
#[no_mangle] pub extern "C" fn h_filter_block_beyond() {
    let far = 4_294_967_296usize + 3 * 2048; let n = far / 2048; let mk = || -> Box<dyn FilterPolicy> { Box::new(Spell) };
    let mut b = FilterBlockBuilder::new_with_policy(Arc::new(mk())); let k = vec![1, u8_("k"), 3];
    b.start_block(5); b.add_key(&Slice::from_vec(k)); let one = { b.start_block(2048); b.get_result().len() as u32 };
    b.start_block(far as u64); let o = b.get_tmp_filter_offsets();
    check(o.len() == n, "one filter for each range of block offsets"); check(o[0] == 0 && o[1] == one && o[n / 2] == one && o[n - 1] == one, "ranges without keys have empty filters");
    b.add_key(&Slice::from("z")); b.start_block(far as u64 + 3000); let o = b.get_tmp_filter_offsets();
    check(o.len() == (far + 3000) / 2048 && o[n] == one && b.get_result().len() as u32 > one, "one filter for each range of block offsets");
    cover("beyond 4 GiB");
}
#[inline(never)]
fn far_apart(far: usize) {
    let mk = || -> Box<dyn FilterPolicy> { Box::new(Spell) }; let p = mk();
    let mut b = FilterBlockBuilder::new_with_policy(Arc::new(mk()));
    let mut m = Model { out: vec![], offs: vec![], pend: vec![] };
    let (k, l) = (vec![u8_("k")], vec![1, u8_("l")]);
    b.start_block(0); b.add_key(&Slice::from_vec(k.clone())); m.pend.push(k);
    b.start_block(far as u64); while (far / 2048) > m.offs.len() { m.gen(&*p); }
    b.add_key(&Slice::from_vec(l.clone())); m.pend.push(l);
    b.start_block(far as u64 + 3000); while ((far + 3000) / 2048) > m.offs.len() { m.gen(&*p); }
    let want = m.finish(&*p);
    match b.finish() { Ok(s) => { check(s.len() == want.len(), "filter block has the size of filters, offset array and trailer"); check(eq(&s, &want), "filter block is filters, offsets, array offset, base_lg"); } Err(_) => check(false, "finish fails") }
    cover("far apart");
}
#[no_mangle] pub extern "C" fn h_filter_block_big() {
    let mk = || -> Box<dyn FilterPolicy> { Box::new(Spell) }; let p = mk();
    let mut b = FilterBlockBuilder::new_with_policy_capacity(Arc::new(mk()), one_of("capacity", &[0, 1, 100000]));
    let mut m = Model { out: vec![], offs: vec![], pend: vec![] };
    let step = range("step", 0, 9000); let (mut off, mut i) = (0u64, 0usize);
    let kl = one_of("klen", &[1, 90, 255, 700]);
    while i < 12 {
        off += [0u64, 700, 2047, 2048, 300_000, step, 1, 2049, 4096, 20_000, 100, 65536][i];
        b.start_block(off); while (off / 2048) > m.offs.len() as u64 { m.gen(&*p); }
        let nk = [40usize, 0, 1, 3, 25, 2, 0, 0, 30, 7, 1, 1][i]; let mut j = 0;
        while j < nk { let mut k = pattern(kl); k[0] = (i * 16 + j) as u8; k[kl - 1] = j as u8; if j == 0 { k[0] = u8_("k"); } if j % 2 == 1 && kl == 1 { k[0] &= 127; b.add_key_from_str(std::str::from_utf8(&k).unwrap()); } else { b.add_key(&Slice::from_vec(k.clone())); } m.pend.push(k); j += 1; }
        i += 1;
    }
    let want = m.finish(&*p);
    match b.finish() { Ok(s) => { check(s.len() == want.len(), "filter block has the size of filters, offset array and trailer"); check(eq(&s, &want), "filter block is filters, offsets, array offset, base_lg"); } Err(_) => check(false, "finish fails") }
    cover("large filter block");
}
/// keys given as text
#[no_mangle] pub extern "C" fn h_filter_block_text() {
    let mk = || -> Box<dyn FilterPolicy> { Box::new(Spell) }; let p = mk(); let mut b = FilterBlockBuilder::new_with_policy(Arc::new(mk())); let mut m = Model { out: vec![], offs: vec![], pend: vec![] };
    b.start_block(0); let mut i = 0; while i < 2 { let t = text("key"); b.add_key_from_str(&t); m.pend.push(t.into_bytes()); i += 1; }
    let want = m.finish(&*p);
    match b.finish() { Ok(s) => { check(s.len() == want.len(), "filter block has the size of filters, offset array and trailer"); check(eq(&s, &want), "filter block is filters, offsets, array offset, base_lg"); } Err(_) => check(false, "finish fails") }
    cover("text keys");
}
// ---- C13, C14
#[no_mangle] pub extern "C" fn h_arena_big() {
    let mut a = Arena::default(); let n = one_of("n", &[1, 2, 70, 300]); let s = one_of("size", &[1, 7, 16, 900, 1024, 1025, 4096, 65536, 70001]); assume(n * s < 4_000_000);
    let mut ps: Vec<(*mut u8, usize)> = vec![]; let mut i = 0; let mut asked = 0;
    while i < n { let l = if i % 5 == 4 { 3 } else { s }; let b = a.allocate(l); check(b.len() == l, "an allocation has the size asked for"); b[0] = i as u8; b[l - 1] = i as u8; b[l / 2] = i as u8; ps.push((b.as_mut_ptr(), l)); asked += l; check(a.memory_usage() >= asked, "memory usage covers what was allocated"); i += 1; }
    i = 0; while i < n { let (p, l) = ps[i]; check(unsafe { *p == i as u8 && *p.add(l - 1) == i as u8 && *p.add(l / 2) == i as u8 }, "an allocation keeps its contents"); i += 1; }
    cover("many allocations");
}
#[no_mangle] pub extern "C" fn h_uslice_big() {
    let ar = arena(); let n = one_of("n", &[127, 128, 256, 4096, 4097, 65536, 70000, 140000]); let d = ends(n);
    let a = UnsafeSlice::new_with_arena(&d, ar.clone()).unwrap(); check(a.len() == n && eq(a.as_ref(), &d), "a slice in the arena holds its bytes");
    let s = a.to_slice(); check(s.len() == n && eq(&s, &d), "to_slice copies the bytes");
    let c = s.copy_with_arena(ar.clone()); check(c.len() == n && eq(&c, &d), "copy_with_arena copies the bytes"); drop(c); check(eq(&s, &d), "the original is untouched");
    // any range, by its position in memory
    let (x, l) = (u64_("start"), u64_("len")); assume(x <= n as u64 && l <= n as u64 - x);
    let t = unsafe { a.sub_slice(x as usize, l as usize) };
    check(t.len() as u64 == l, "every range inside the slice is allowed"); check(t.as_ref().as_ptr() as usize == a.as_ref().as_ptr() as usize + x as usize, "sub_slice is the bytes of the range");
    cover("large slice");
}
#[no_mangle] pub extern "C" fn h_uslice_display() {
    real_fmt(true); let ar = arena(); let n = pick("n", 0, 3); let v = vec("s", n); let mut i = 0; while i < n { assume(v[i] < 128); i += 1; }
    let a = UnsafeSlice::new_with_arena(&v, ar.clone()).unwrap(); let t = a.to_string(); check(eq(t.as_bytes(), &v), "a slice is shown as its bytes"); check(eq(a.as_ref(), &v), "showing a slice leaves it alone");
    let s = Slice::from_vec(v.clone()); let t = s.to_string(); check(eq(t.as_bytes(), &v), "a slice is shown as its bytes"); check(eq(&s, &v), "showing a slice leaves it alone"); cover("shown");
}
// ---- C15: many keys with one mix of heights, one more key anywhere
#[no_mangle] pub extern "C" fn h_skip_big() {
    rand::SEQ.store([1u32, 0xdead_beef][pick("heights", 0, 1)], std::sync::atomic::Ordering::Relaxed);
    let ar = arena(); let mut l = SkipList::create(Arc::new(BytewiseComparatorImpl::default()), ar.clone());
    let (n, step) = [(20, 1), (20, 120), (100, 47)][pick("order", 0, 2)]; let mut m: Vec<Vec<u8>> = vec![]; let mut i = 0usize; let mut at = 0;
    let ins = |l: &mut SkipList<BytewiseComparatorImpl>, k: &Vec<u8>| { let us = UnsafeSlice::new_with_arena(k, ar.clone()).unwrap(); check(l.insert(us).is_ok(), "insert fails") };
    while i < n { at = (at + step) % 121; let k = vec![1 + at as u8 * 2, 5, i as u8]; ins(&mut l, &k); let mut j = 0; while j < m.len() && m[j] < k { j += 1; } m.insert(j, k); if i % 9 == 8 { let again = m[i / 2].clone(); ins(&mut l, &again); } check(l.len() == m.len(), "len counts the distinct keys"); i += 1; }
    // an arbitrary key: between two others, equal to one, before or after all
    let lo = [0u64, 30, 236][pick("part", 0, 2)]; let k = vec![range("k", lo, lo + 19) as u8, 5, one_of("third", &[0, 4, 255]) as u8]; let mut j = 0; let mut dup = false;
    while j < m.len() { let c = cmp(&m[j], &k); if branch(c == 0) { dup = true; break; } if branch(c > 0) { break; } j += 1; }
    check(l.contains(&k) == dup, "contains exactly the keys inserted");
    ins(&mut l, &k); if !dup { m.insert(j, k); }
    check(l.len() == m.len(), "len counts the distinct keys"); check(l.height() >= 1 && l.height() <= l.max_height(), "the height is within bounds");
    let mut it = l.iter(); i = 0;
    while i < m.len() { match Iterator::next(&mut it) { Some(s) => check(eq(s.as_ref(), &m[i]), "iteration yields the keys in order"), None => { check(false, "iteration ends early"); return; } } i += 1; }
    check(Iterator::next(&mut it).is_none(), "iteration ends after the last key");
    i = 0; while i < m.len() { check(l.contains(&m[i]), "contains every key inserted"); let mut o = m[i].clone(); o.push(0); check(!l.contains(&o), "contains exactly the keys inserted"); i += if n > 50 { 7 } else { 1 }; }
    let mut it = l.iter(); it.seek_to_last(); check(it.valid() && eq(it.key().as_ref(), &m[m.len() - 1]), "seek_to_last finds the last key"); it.seek_to_first(); check(it.valid() && eq(it.key().as_ref(), &m[0]), "seek_to_first finds the first key");
    DataIterator::next(&mut it); check(it.valid() && eq(it.key().as_ref(), &m[1]), "the cursor shows the keys in order");
    cover("long list");
}
