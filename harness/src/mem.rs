use crate::sym::*;
use level_db_rust::util::arena::{Arena, ArenaAllocLike, ArenaRef};
use level_db_rust::util::slice::Slice;
use level_db_rust::util::unsafe_slice::{TryIntoUnsafeSlice, UnsafeSlice};
use std::sync::{Arc, Mutex};

pub fn arena() -> ArenaRef { Arc::new(Mutex::new(Arena::default())) }
// sizes around what decides where an allocation goes: 0, small, a quarter block, a block
const SIZES: [usize; 12] = [0, 1, 7, 8, 1023, 1024, 1025, 2047, 4095, 4096, 4097, 9000];
/// any sequence of allocations: every block has its size, lies in live memory, is disjoint from all others and keeps what is written to it
#[inline(never)]
fn allocs(n: usize) {
    let mut a = Arena::default();
    let mut got: Vec<(*mut u8, usize, u8)> = Vec::new();
    let mut k = 0; let mut used = a.memory_usage(); check(used == 0, "a fresh arena uses no memory");
    let mut asked = 0;
    while k < n {
        let len = SIZES[pick("size", 0, SIZES.len() - 1)];
        let al = 1usize << pick("align", 0, 3);
        let b = if al == 1 { a.allocate(len) } else { a.allocate_align(len, al) };
        check(b.len() == len, "an allocation has the size asked for");
        let p = b.as_mut_ptr();
        // two bytes of each allocation carry a mark
        let m = k as u8 + 1;
        if branch(len > 0) { unsafe { *p = m; *p.add(len - 1) = m; } }
        got.push((p, len, m));
        asked += len;
        let u = a.memory_usage();
        check(u >= used, "memory usage never shrinks"); check(u >= asked, "memory usage covers what was allocated");
        used = u;
        // marks of earlier allocations stay
        let mut i = 0;
        while i < got.len() { let (p, l, m) = got[i]; if branch(l > 0) { check(unsafe { *p } == m && unsafe { *p.add(l - 1) } == m, "an allocation keeps its contents"); } i += 1; }
        k += 1;
    }
    let mut i = 0;
    while i < got.len() { let mut j = 0; while j < i {
        let (p, l, _) = got[i]; let (q, m, _) = got[j];
        let (p, q) = (p as usize, q as usize);
        check(l == 0 || m == 0 || p >= q + m || q >= p + l, "allocations do not overlap"); j += 1; } i += 1; }
    cover("arena allocations");
}
#[no_mangle] pub extern "C" fn h_arena_sizes() { allocs(2) }
/// the end of a block: any rest, any request around it
#[no_mangle] pub extern "C" fn h_arena_edge() {
    let mut a = Arena::default();
    let r = pick("rest", 0, 12); let q = pick("request", 0, 14);
    let p = a.allocate(1); p[0] = 1; let p = p.as_ptr();
    let b = a.allocate(4095 - r); check(b.len() == 4095 - r, "an allocation has the size asked for"); b[0] = 2; b[4094 - r] = 3; let b = b.as_ptr();
    check(a.memory_usage() == 4096, "a block is used up to its last byte");
    let c = a.allocate(q); check(c.len() == q, "an allocation has the size asked for"); let mut i = 0; while i < q { c[i] = 9; i += 1; } let c = c.as_ptr() as usize;
    check(unsafe { *p == 1 && *b == 2 && *b.add(4094 - r) == 3 }, "an allocation keeps its contents");
    check(q == 0 || c >= b as usize + 4095 - r || c + q <= b as usize, "allocations do not overlap");
    check(a.memory_usage() == if q > r { 8192 } else { 4096 }, "a new block is taken exactly when the rest is too small");
    let d = a.allocate(3); d[2] = 7; check(unsafe { *p == 1 && *b.add(4094 - r) == 3 }, "an allocation keeps its contents");
    cover("end of block");
}
#[no_mangle] pub extern "C" fn h_arena_sizes_t() { allocs(3) }
/// many small allocations fill blocks: usage grows by whole blocks only, and the whole of each allocation is writable
#[no_mangle] pub extern "C" fn h_arena_fill() {
    let mut a = Arena::default();
    let s = pick("size", 200, 420); let mut k = 0; let mut ps: Vec<*mut u8> = Vec::new();
    while k < 24 { let b = a.allocate(s); let mut i = 0; while i < s { b[i] = k as u8; i += 13; } b[s - 1] = k as u8; ps.push(b.as_mut_ptr()); k += 1; }
    let per = 4096 / s; let blocks = (24 + per - 1) / per;
    check(a.memory_usage() == blocks * 4096, "small allocations share blocks of 4096 bytes");
    let mut k = 0; while k < 24 { let p = ps[k]; let mut i = 0; while i < s { check(unsafe { *p.add(i) } == k as u8, "an allocation keeps its contents"); i += 13; } k += 1; }
    cover("arena fill");
}
/// alignment
#[no_mangle] pub extern "C" fn h_arena_align_first() { let mut a = Arena::default(); let al = 1usize << pick("align", 0, 4); let n = pick("big", 0, 1) * 5000 + 8; let p = a.allocate_align(n, al).as_ptr() as usize; check(p % al == 0, "the first allocation of a block is aligned as asked"); cover("first"); }
#[no_mangle] pub extern "C" fn h_arena_align_later() {
    let mut a = Arena::default(); let n = pick("before", 1, 16); let al = 1usize << pick("align", 0, 4); let first = a.allocate_align(n, al).as_ptr() as usize;
    let p = a.allocate_align(8, al).as_ptr() as usize;
    // known finding: the position reached in a used block is not rounded up
    if branch((first + n) % al == 0) { check(p % al == 0, "a later allocation at an aligned position is aligned as asked"); } else { check(p % al == 0, "a later allocation of a block is aligned as asked"); }
    // a request that needs a block of its own is aligned in any case
    let big = a.allocate_align(5000, al).as_ptr() as usize; check(big % al == 0, "an allocation with a block of its own is aligned as asked"); cover("later");
}
// ---- slices in an arena
#[inline(never)]
fn uslice(max: usize) {
    let ar = arena();
    let (n, m) = (pick("n", 0, max), pick("m", 0, max));
    let (d, e) = (vec("d", n), vec("e", m));
    let a = match UnsafeSlice::new_with_arena(&d, ar.clone()) { Ok(x) => x, Err(_) => { check(false, "new_with_arena fails"); return; } };
    let b = UnsafeSlice::new_with_arena(&e, ar.clone()).unwrap();
    check(a.len() == n && b.len() == m, "a slice in the arena has the length of its bytes");
    check(eq(a.as_ref(), &d) && eq(b.as_ref(), &e), "a slice in the arena holds its bytes");
    let c = a; check(eq(c.as_ref(), &d), "a copy shows the same bytes");
    let s = a.to_slice(); check(s.len() == n && eq(&s, &d), "to_slice copies the bytes");
    let from = pick("from", 0, n); let len = pick("len", 0, n - from);
    let t = unsafe { a.sub_slice(from, len) };
    check(t.len() == len && eq(t.as_ref(), &d[from..from + len]), "sub_slice is the bytes of the range");
    // the owned copy lives on without the arena
    drop(ar);
    check(eq(&s, &d), "an owned copy does not depend on the arena");
    let ar2 = arena();
    let sl = Slice::from_buf(&d);
    let cp = sl.copy_with_arena(ar2.clone());
    check(cp.len() == n && eq(&cp, &d) && eq(&sl, &d), "copy_with_arena copies the bytes");
    drop(cp); drop(ar2);
    check(eq(&sl, &d), "the original is untouched");
    cover("arena slices");
}
#[no_mangle] pub extern "C" fn h_uslice() { uslice(4) }
#[no_mangle] pub extern "C" fn h_uslice_t() { uslice(7) }
#[no_mangle] pub extern "C" fn h_uslice_str() {
    let ar = arena();
    let n = pick("n", 0, 3); let v = vec("s", n); let mut i = 0; while i < n { assume(v[i] < 128); i += 1; }
    let s = String::from_utf8(v.clone()).unwrap();
    let a = s.as_str().try_into_unsafe_slice(ar.clone()).unwrap(); let b = s.clone().try_into_unsafe_slice(ar.clone()).unwrap();
    check(eq(a.as_ref(), &v) && eq(b.as_ref(), &v), "a string moved into the arena keeps its bytes"); check(eq(a.as_str().as_bytes(), &v), "as_str shows the bytes");
    cover("arena strings");
}
/// text beyond ASCII
#[no_mangle] pub extern "C" fn h_uslice_text() {
    real_fmt(true); let ar = arena(); let s = text("s"); let v = s.as_bytes().to_vec(); let n = v.len();
    let a = match pick("from", 0, 2) { 0 => s.as_str().try_into_unsafe_slice(ar.clone()).unwrap(), 1 => s.clone().try_into_unsafe_slice(ar.clone()).unwrap(), _ => UnsafeSlice::new_with_arena(&v, ar.clone()).unwrap() };
    check(a.len() == n && eq(a.as_ref(), &v), "a string moved into the arena keeps its bytes"); check(a.as_str().len() == n && eq(a.as_str().as_bytes(), &v), "as_str shows the bytes");
    let t = a.to_string(); check(t.len() == n && eq(t.as_bytes(), &v), "a slice is shown as its bytes"); let c = a.to_slice(); check(c.len() == n && eq(&c, &v), "a copy has the bytes");
    cover("text");
}
/// a range outside the slice is refused, for every start and length
#[no_mangle] pub extern "C" fn h_uslice_range() {
    let ar = arena(); let n = pick("n", 0, 3); let d = vec("d", n);
    let a = UnsafeSlice::new_with_arena(&d, ar.clone()).unwrap();
    let (s, l) = (u64_("start"), u64_("len"));
    assume((s as u128) + (l as u128) <= n as u128);
    let t = unsafe { a.sub_slice(s as usize, l as usize) };
    check(t.len() == l as usize, "every range inside the slice is allowed");
    cover("range");
}
/// many slices of symbolic sizes in one arena keep their bytes
#[no_mangle] pub extern "C" fn h_uslice_many() {
    let ar = arena(); let mut v: Vec<(UnsafeSlice, Vec<u8>)> = Vec::new(); let mut i = 0;
    while i < 3 { let k = [0usize, 1, 5, 1024, 1500, 4090][pick("size", 0, 5)]; let mut d = vec![i as u8; k]; if k > 0 { d[0] = u8_("a"); d[k - 1] = u8_("z"); } let s = UnsafeSlice::new_with_arena(&d, ar.clone()).unwrap(); v.push((s, d)); i += 1; }
    let mut i = 0; while i < 3 { check(eq(v[i].0.as_ref(), &v[i].1), "every slice in the arena keeps its bytes"); i += 1; }
    cover("many slices");
}
