use crate::sym::*;
use level_db_rust::traits::filter_policy_trait::FilterPolicy;
use level_db_rust::util::crc::{AsCrc, ToMask, CRC};
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::hash::{Hash, ToHash};
use level_db_rust::util::r#const::HASH_DEFAULT_SEED;
use level_db_rust::util::slice::Slice;

// ---- C06: bit-at-a-time CRC32C (reflected polynomial 0x82f63b78)
pub fn ref_crc(init: u32, d: &[u8]) -> u32 {
    let mut c = !init; let mut i = 0;
    while i < d.len() { c ^= d[i] as u32; let mut k = 0; while k < 8 { c = (c >> 1) ^ (0x82f63b78 & (0u32.wrapping_sub(c & 1))); k += 1; } i += 1; }
    !c
}
#[repr(align(16))] pub struct Al<const N: usize>(pub [u8; N]);
#[inline(never)]
fn crc_value<const N: usize>(lo: usize, hi: usize) {
    let buf = Al::<N>(bytes("d"));
    let off = pick("align", 0, 7); let n = pick("n", lo, hi);
    let d = &buf.0[off..off + n]; let init = u32_("init");
    check(CRC::extend(init, d) == ref_crc(init, d), "extend equals CRC32C");
    check(CRC::value(d) == ref_crc(0, d), "value equals CRC32C");
    cover("crc");
}
#[no_mangle] pub extern "C" fn h_crc_value() { crc_value::<56>(0, 48) }
#[no_mangle] pub extern "C" fn h_crc_value_t() { crc_value::<208>(0, 200) }
#[inline(never)]
fn crc_compose<const N: usize>(max: usize) {
    let buf = Al::<N>(bytes("d"));
    let off = pick("align", 0, 7); let n = pick("n", 0, max); let k = pick("split", 0, n); let init = u32_("init");
    let d = &buf.0[off..off + n];
    check(CRC::extend(CRC::extend(init, &d[..k]), &d[k..]) == CRC::extend(init, d), "extend over two parts equals extend over the whole");
    cover("crc compose");
}
#[no_mangle] pub extern "C" fn h_crc_compose() { crc_compose::<40>(33) }
#[no_mangle] pub extern "C" fn h_crc_compose_t() { crc_compose::<72>(64) }
#[no_mangle] pub extern "C" fn h_crc_views() {
    let n = pick("n", 0, 5); let v = vec("d", n); let w = ref_crc(0, &v); let i = u32_("init"); let wi = ref_crc(i, &v);
    let s = Slice::from_vec(v.clone()); let t = unsafe { String::from_utf8_unchecked(v.clone()) };
    check(v.as_crc() == w && (&v[..]).as_crc() == w && s.as_crc() == w && t.as_crc() == w && (&t[..]).as_crc() == w, "every view of the same bytes has the same crc");
    check(v.as_crc_extend(i) == wi && (&v[..]).as_crc_extend(i) == wi && s.as_crc_extend(i) == wi && t.as_crc_extend(i) == wi && (&t[..]).as_crc_extend(i) == wi, "every view of the same bytes extends a crc alike");
    cover("crc views");
}
// ---- C07
#[no_mangle] pub extern "C" fn h_crc_mask() {
    let c = u32_("crc"); let m = CRC::mask(c);
    check(m == ((c >> 15) | (c << 17)).wrapping_add(0xa282ead8), "mask is LevelDB's rotate-and-add");
    check(CRC::unmask(m) == c, "unmask inverts mask");
    check(CRC::mask(CRC::unmask(c)) == c, "mask inverts unmask");
    check(m.unmask() == c && c.to_mask() == m, "trait forms agree");
    let d = u32_("crc2"); check(c == d || CRC::mask(d) != m, "mask is injective");
    cover("crc mask");
}
// ---- C08
pub fn ref_hash(d: &[u8], seed: u32) -> u32 {
    let m = 0xc6a4a793u32; let n = d.len(); let mut h = seed ^ (n as u32).wrapping_mul(m); let mut i = 0;
    while i + 4 <= n { let w = d[i] as u32 | (d[i + 1] as u32) << 8 | (d[i + 2] as u32) << 16 | (d[i + 3] as u32) << 24; h = h.wrapping_add(w).wrapping_mul(m); h ^= h >> 16; i += 4; }
    let r = n - i;
    if r >= 3 { h = h.wrapping_add((d[i + 2] as u32) << 16); }
    if r >= 2 { h = h.wrapping_add((d[i + 1] as u32) << 8); }
    if r >= 1 { h = h.wrapping_add(d[i] as u32).wrapping_mul(m); h ^= h >> 24; }
    h
}
#[inline(never)]
fn hash_value<const N: usize>(max: usize) {
    let buf = Al::<N>(bytes("d"));
    let off = pick("align", 0, 7); let n = pick("n", 0, max); let seed = u32_("seed");
    let d = &buf.0[off..off + n];
    check(Hash::hash_code(d, seed) == ref_hash(d, seed), "hash_code is LevelDB's hash");
    cover("hash");
}
#[no_mangle] pub extern "C" fn h_hash_value() { hash_value::<72>(64) }
#[no_mangle] pub extern "C" fn h_hash_value_t() { hash_value::<264>(256) }
#[no_mangle] pub extern "C" fn h_hash_views() {
    let n = pick("n", 0, 5); let v = vec("d", n); let seed = u32_("seed");
    let s = Slice::from_vec(v.clone()); let t = unsafe { String::from_utf8_unchecked(v.clone()) };
    let (w, d) = (ref_hash(&v, seed), ref_hash(&v, HASH_DEFAULT_SEED));
    check(v.to_hash_with_seed(seed) == w && (&v[..]).to_hash_with_seed(seed) == w && s.to_hash_with_seed(seed) == w && t.to_hash_with_seed(seed) == w && (&t[..]).to_hash_with_seed(seed) == w, "every view of the same bytes hashes alike");
    check(v.to_hash() == d && (&v[..]).to_hash() == d && s.to_hash() == d && t.to_hash() == d && (&t[..]).to_hash() == d, "to_hash uses the default seed");
    cover("hash views");
}
// ---- C09
fn key(name: &str, lo: usize, hi: usize) -> Slice { let n = pick("klen", lo, hi); Slice::from_vec(vec(name, n)) }
/// LevelDB's k for a bits-per-key setting: round(bits * 0.69) clamped to 1..=30 (rounding half up; 0.69*b is never exactly half)
pub fn ref_k(b: u64) -> u8 { let k = (b * 69 + 50) / 100; if k < 1 { 1 } else if k > 30 { 30 } else { k as u8 } }
#[no_mangle] pub extern "C" fn h_bloom_k() {
    use level_db_rust::util::filter_policy::FromPolicy;
    let b = pick("bits_per_key", 0, 64);
    let p = BloomFilterPolicy::new_with_bits_per_key(b);
    check(p.from_k() >= 1 && p.from_k() <= 30 && p.from_bits_per_key() == b, "k stays within 1..=30");
    check(p.from_k() == ref_k(b as u64) as usize, "k is 0.69 * bits_per_key");
    cover("bloom k");
}
#[inline(never)]
fn bloom(nkeys: usize, klen: usize, bpk: &[usize]) {
    let b = bpk[pick("bpk", 0, bpk.len() - 1)];
    let p = BloomFilterPolicy::new_with_bits_per_key(b);
    let n = pick("nkeys", 0, nkeys);
    let mut keys = Vec::new(); let mut i = 0; while i < n { keys.push(key("k", 0, klen)); i += 1; }
    let cap = if bool_("with_len") { Some(n + pick("extra", 0, 1) * 7) } else { None };
    let f = match cap { Some(c) => p.create_filter_with_len(c, keys.iter().collect()), None => p.create_filter(keys.iter().collect()) };
    let mut bits = cap.unwrap_or(n) * b; if bits < 64 { bits = 64; }
    check(f.len() == (bits + 7) / 8 + 1, "filter size: capacity * bits_per_key, at least 64 bits, plus the k byte");
    check(f[f.len() - 1] == ref_k(b as u64), "the last byte records k");
    i = 0;
    while i < n { check(p.key_may_match(&keys[i], &f), "no false negative"); i += 1; }
    if n == 0 { let q = key("q", 0, klen); check(!p.key_may_match(&q, &f), "an empty filter matches nothing"); }
    cover("bloom");
}
#[no_mangle] pub extern "C" fn h_bloom() { bloom(2, 1, &[1, 10]) }
#[no_mangle] pub extern "C" fn h_bloom_t() { bloom(3, 4, &[0, 5, 10, 60]) }
/// any filter bytes: an answer, no panic; and the answer LevelDB defines
#[inline(never)]
fn bloom_arbitrary(max: usize, klen: usize, ks: &[u8]) {
    let n = pick("flen", 0, max); let mut fb = vec("f", n); let q = key("q", 0, klen);
    let mut k = 0;
    if n > 0 {
        let ki = pick("k", 0, ks.len());
        if ki < ks.len() { k = ks[ki]; fb[n - 1] = k; } else { k = fb[n - 1]; assume(k > 30); }
    }
    let f = Slice::from_vec(fb.clone());
    let p = BloomFilterPolicy::new();
    let got = p.key_may_match(&q, &f);
    if n < 2 { check(!got, "a filter shorter than two bytes matches nothing"); cover("bloom short"); return; }
    if ki_reserved(k) { check(got, "k above 30 is reserved: treat as a match"); cover("bloom reserved"); return; }
    let bits = (n as u32 - 1) * 8; let mut h = ref_hash(&q, HASH_DEFAULT_SEED); let d = h.rotate_right(17);
    let mut want = true; let mut j = 0;
    while j < k { let b = h % bits; want = want & (fb[(b / 8) as usize] >> (b % 8) & 1 == 1); h = h.wrapping_add(d); j += 1; }
    check(got == want, "match exactly when every probed bit is set");
    cover("bloom arbitrary");
}
fn ki_reserved(k: u8) -> bool { branch(k > 30) }
#[no_mangle] pub extern "C" fn h_bloom_arbitrary() { bloom_arbitrary(4, 1, &[0, 1, 2, 3]) }
#[no_mangle] pub extern "C" fn h_bloom_arbitrary_t() { bloom_arbitrary(9, 2, &[0, 1, 2, 5, 7]) }
