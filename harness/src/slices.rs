use crate::sym::*;
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::slice::Slice;
use std::cmp::Ordering;

fn ord(o: Option<Ordering>) -> i8 { match o { Some(Ordering::Less) => -1, Some(Ordering::Equal) => 0, Some(Ordering::Greater) => 1, None => 7 } }
fn symvec(name: &str, max: usize) -> Vec<u8> { let n = pick("len", 0, max); vec(name, n) }
/// the same bytes in a vector with room to spare
fn roomy(b: &[u8]) -> Vec<u8> { let mut v = Vec::with_capacity(b.len() + 5); v.extend_from_slice(b); v }

// ---- C04
#[inline(never)]
fn slice_order(max: usize) { let (a, b) = (symvec("a", max), symvec("b", max)); slice_order_of(a, b) }
#[inline(never)]
pub fn slice_order_of(a: Vec<u8>, b: Vec<u8>) {
    let (sa, sb) = (Slice::from_vec(roomy(&a)), if pick("roomy", 0, 1) == 1 { Slice::from_vec(roomy(&b)) } else { Slice::from_buf(&b) });
    check(sa.size() == a.len() && sa.len() == a.len() && sa.empty() == a.is_empty(), "size and empty describe the bytes");
    let c = cmp(&a, &b);
    check((sa == sb) == (c == 0), "== is byte equality");
    check((sa != sb) == (c != 0), "!= is its negation");
    check(ord(sa.partial_cmp(&sb)) == c, "ordering is unsigned lexicographic");
    check(ord(sb.partial_cmp(&sa)) == -c, "ordering is antisymmetric");
    check((sa < sb) == (c < 0) && (sa >= sb) == (c >= 0), "< and >= agree with the order");
    let pre = a.len() >= b.len() && eq(&a[..b.len()], &b);
    check(sa.starts_with(&sb) == pre, "starts_with is the byte prefix relation");
    let d = sa.clone();
    check(d == sa && eq(&d, &a), "clone has the same bytes");
    let v: Vec<u8> = sa.into();
    check(eq(&v, &a), "conversion into Vec keeps the bytes");
    cover("slice order");
}
#[no_mangle] pub extern "C" fn h_slice_order() { slice_order(5) }
#[no_mangle] pub extern "C" fn h_slice_order_t() { slice_order(10) }
#[inline(never)]
fn slice_views(max: usize) {
    let a = symvec("a", max); let n = a.len();
    let mut s = Slice::from_vec(roomy(&a));
    let i = pick("i", 0, n); let j = pick("j", i, n);
    check(eq(&s[i..j], &a[i..j]), "index by range"); check(eq(&s[i..], &a[i..]), "index by range-from"); check(eq(&s[..j], &a[..j]), "index by range-to");
    check(eq(s.as_sub_ref(i, j - i), &a[i..j]), "as_sub_ref");
    if i < n { check(s[i] == a[i], "index by position"); }
    let r = s.remove_prefix(i);
    check(eq(&r, &a[i..]) && eq(&s, &a), "remove_prefix returns the rest and leaves the slice alone");
    check(eq(AsRef::<[u8]>::as_ref(&s), &a), "as_ref");
    // writes through the mutable views land where the same immutable range reads
    let x = u8_("x"); let kind = pick("kind", 0, 2);
    let mut want = a.clone();
    match kind {
        0 => { let m = &mut s[i..j]; check(m.len() == j - i, "mutable range has the length of the range"); if i < j { m[0] = x; want[i] = x; } }
        1 => { let m = &mut s[i..]; check(m.len() == n - i, "mutable range-from has the length of the range"); if i < n { m[0] = x; want[i] = x; } }
        _ => { let m = &mut s[..j]; check(m.len() == j, "mutable range-to has the length of the range"); if j > 0 { m[j - 1] = x; want[j - 1] = x; } }
    }
    check(eq(&s, &want), "a write through a mutable range changes that byte and no other");
    cover("slice views");
}
#[no_mangle] pub extern "C" fn h_slice_views() { slice_views(6) }
#[no_mangle] pub extern "C" fn h_slice_views_t() { slice_views(12) }
#[inline(never)]
fn slice_merge(max: usize) {
    let (a, b) = (symvec("a", max), symvec("b", max));
    let mut s = Slice::from_vec(roomy(&a));
    let mut want = a.clone();
    let joiner = if bool_("join") { let n = pick("jlen", 0, 2); Some(unsafe { String::from_utf8_unchecked(vec("j", n)) }) } else { None };
    if !b.is_empty() { if let Some(j) = &joiner { want.extend_from_slice(j.as_bytes()); } want.extend_from_slice(&b); }
    s.merge(Slice::from_vec(b), joiner);
    check(eq(&s, &want), "merge appends joiner and bytes, or nothing for an empty argument");
    let t: String = s.into();
    check(eq(t.as_bytes(), &want), "conversion into String keeps the bytes");
    let u = Slice::from(&t);
    check(eq(&u, &want), "conversion from &String keeps the bytes");
    check(eq(u.borrow_data().as_bytes(), &want), "borrow_data shows the bytes");
    cover("slice merge");
}
#[no_mangle] pub extern "C" fn h_slice_merge() { slice_merge(4) }
#[no_mangle] pub extern "C" fn h_slice_merge_t() { slice_merge(8) }

// ---- C05
#[inline(never)]
fn cmp_order(max: usize) {
    let (a, b, c) = (symvec("a", max), symvec("b", max), symvec("c", max));
    let k = BytewiseComparatorImpl::default();
    let (ab, bc, ac, ba) = (ord(k.compare(&a, &b)), ord(k.compare(&b, &c)), ord(k.compare(&a, &c)), ord(k.compare(&b, &a)));
    check(ab == cmp(&a, &b), "compare is unsigned lexicographic, a prefix first");
    check(ab == -ba && (ab != 7), "compare is total and antisymmetric");
    check((ab == 0) == eq(&a, &b), "compare is Equal exactly on equal keys");
    check(!(ab <= 0 && bc <= 0) || ac <= 0, "compare is transitive");
    cover("compare");
}
#[no_mangle] pub extern "C" fn h_cmp_order() { cmp_order(3) }
#[no_mangle] pub extern "C" fn h_cmp_order_t() { cmp_order(5) }
fn s_of(v: &[u8]) -> String { unsafe { String::from_utf8_unchecked(v.to_vec()) } }
#[inline(never)]
fn cmp_separator(max: usize) { let (a, b) = (symvec("a", max), symvec("b", max)); cmp_separator_of(a, b) }
#[inline(never)]
pub fn cmp_separator_of(a: Vec<u8>, b: Vec<u8>) {
    let k = BytewiseComparatorImpl::default();
    let r = k.find_shortest_separator(&s_of(&a), &Slice::from_buf(&b));
    let r = r.as_bytes();
    check(r.len() <= a.len(), "separator is not longer than start");
    let (ab, ar, rb) = (cmp(&a, &b), cmp(&a, r), cmp(r, &b));
    check(ar <= 0, "start <= separator");
    check(ab >= 0 || rb < 0, "separator < limit when start < limit");
    check(ab < 0 || ar == 0, "separator is start when start >= limit");
    // documented effect: when the first differing byte leaves room, the separator is common prefix + that byte plus one
    let mut i = 0; let mut common = true;
    while i < a.len() && i < b.len() {
        let here = common & (a[i] != b[i]);
        let room = here & (a[i] < 255) & (a[i].wrapping_add(1) < b[i]);
        let mut w = a[..=i].to_vec(); w[i] = w[i].wrapping_add(1);
        check(!room | eq(r, &w), "separator is the common prefix plus the first differing byte incremented");
        common = common & (a[i] == b[i]); i += 1;
    }
    cover("separator");
}
#[no_mangle] pub extern "C" fn h_cmp_separator() { cmp_separator(4) }
#[no_mangle] pub extern "C" fn h_cmp_separator_t() { cmp_separator(8) }
#[inline(never)]
fn cmp_successor(max: usize) { let a = symvec("a", max); cmp_successor_of(a) }
#[inline(never)]
pub fn cmp_successor_of(a: Vec<u8>) {
    let k = BytewiseComparatorImpl::default();
    let r = k.find_short_successor(&s_of(&a));
    let r = r.as_bytes();
    check(cmp(&a, r) <= 0, "key <= successor"); check(r.len() <= a.len(), "successor is not longer than the key");
    let mut i = 0; let mut ff = true;
    while i < a.len() {
        let first = ff & (a[i] != 255);
        let mut w = a[..=i].to_vec(); w[i] = w[i].wrapping_add(1);
        check(!first | eq(r, &w), "successor increments the first byte below 0xff and stops there");
        ff = ff & (a[i] == 255); i += 1;
    }
    check(!ff | eq(r, &a), "a run of 0xff is its own successor");
    cover("successor");
}
#[no_mangle] pub extern "C" fn h_cmp_successor() { cmp_successor(8) }
#[no_mangle] pub extern "C" fn h_cmp_successor_t() { cmp_successor(20) }

/// text in and out, beyond ASCII
#[no_mangle] pub extern "C" fn h_slice_text() {
    real_fmt(true); let t = text("t"); let b = t.as_bytes().to_vec(); let n = b.len();
    let mut s = match pick("from", 0, 2) { 0 => Slice::from(t.as_str()), 1 => Slice::from(t.clone()), _ => Slice::from(&t) };
    check(s.size() == n && s.empty() == (n == 0) && eq(&s, &b), "a slice made from text has its bytes");
    check(s.as_str().len() == n && eq(s.as_str().as_bytes(), &b), "as_str shows the bytes");
    check(s.borrow_data().len() == n && eq(s.borrow_data().as_bytes(), &b), "borrow_data shows the bytes");
    let d = format!("{}", s); check(d.len() == n && eq(d.as_bytes(), &b), "a slice is shown as its bytes");
    let j = text("joiner"); let u = text("u"); let mut w = b.clone(); if !u.is_empty() { w.extend_from_slice(j.as_bytes()); w.extend_from_slice(u.as_bytes()); }
    s.merge(Slice::from(u), Some(j)); let c = s.clone();
    let x: String = s.into(); check(x.len() == w.len() && eq(x.as_bytes(), &w), "a slice becomes text with its bytes");
    let y: Vec<u8> = c.into(); check(y.len() == w.len() && eq(&y, &w), "a slice becomes a vector with its bytes");
    cover("text");
}
