use crate::sym::*;
use level_db_rust::util::histogram::Histogram;

/// upper limits of the buckets of LevelDB's histogram: 1..=10, then 12 14 16 18 20 25 .. 100 for each decade up to 9e9, then everything else
pub fn limits() -> Vec<f64> {
    let mut v: Vec<f64> = Vec::new(); let mut i = 1u64;
    while i <= 10 { v.push(i as f64); i += 1; }
    let mut d = 1u64;
    while v.len() < 153 { for m in [12u64, 14, 16, 18, 20, 25, 30, 35, 40, 45, 50, 60, 70, 80, 90, 100] { if v.len() < 153 { v.push((m * d) as f64); } } d *= 10; }
    v.push(1e200); v
}
/// any finite value that is not negative
fn value(name: &str) -> f64 { let b = u64_(name); assume(b >> 63 == 0 && b < 0x7ff0_0000_0000_0000); f64::from_bits(b) }
const SOME: [f64; 12] = [0.0, 0.5, 1.0, 9.75, 10.0, 11.0, 99.0, 1e6, 9e9, 9.1e9, 1e200, 1e201];
/// the bucket of a value: the only one with lower limit <= v < upper limit; the last has no upper limit
fn holds(l: &[f64], i: usize, v: f64) -> bool { (i == 0) | (l[if i > 0 { i - 1 } else { 0 }] <= v) & ((i == l.len() - 1) | (v < l[i])) }
pub fn bucket_of(l: &[f64], v: f64) -> usize { let mut i = 0; while i < l.len() - 1 && v >= l[i] { i += 1; } i }
pub fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || a == b }
pub fn check_buckets(h: &Histogram, want: &[f64], msg: &str) { let b = h.verif_buckets(); check(b.len() == want.len(), "a histogram has LevelDB's buckets"); let mut ok = true; let mut i = 0; while i < want.len() { ok &= b[i] == want[i]; i += 1; } check(ok, msg); }
fn min(a: f64, b: f64) -> f64 { if a < b { a } else { b } }
fn max(a: f64, b: f64) -> f64 { if a > b { a } else { b } }

/// one value: bucket, totals, summary
#[no_mangle] pub extern "C" fn h_hist_one() {
    let l = limits(); let v = value("v");
    let mut h = Histogram::default();
    check(h.verif_totals() == [1e200, 0.0, 0.0, 0.0, 0.0], "a fresh histogram is empty");
    h.add(v);
    let b = h.verif_buckets(); check(b.len() == l.len(), "a histogram has LevelDB's buckets");
    let mut i = 0; let mut ones = 0; let mut at = 0; while i < b.len() { if b[i] == 1.0 { ones += 1; at = i; } else { check(b[i] == 0.0, "a value counts once"); } i += 1; }
    check(ones == 1, "a value counts once"); check((at == 0) | (l[if at > 0 { at - 1 } else { 0 }] <= v), "a value is not below its bucket"); check((at == l.len() - 1) | (v < l[at]), "a value is below the limit of its bucket");
    let _ = holds(&l, at, v);
    let t = h.verif_totals();
    check(t[0] == min(1e200, v) && t[1] == v && t[2] == 1.0 && t[3] == v, "smallest, largest, number and sum of one value");
    check(same(t[4], 0.0 + v * v), "sum of squares of one value");
    let s = h.verif_summary(); check((s[0] == v) | (v > 1e200), "the median of one value is that value"); check(s[1] == v, "the average of one value is that value");
    h.clear();
    check(h.verif_totals() == [1e200, 0.0, 0.0, 0.0, 0.0], "a cleared histogram is empty"); check_buckets(&h, &vec![0.0; 154], "a cleared histogram is empty");
    cover("one value");
}
/// several values, added to two histograms and merged: everything as if added to one
#[inline(never)]
fn merge(n: usize) {
    let l = limits(); let (mut a, mut b, mut c) = (Histogram::default(), Histogram::default(), Histogram::default());
    let mut lo = 1e200; let mut hi = 0.0; let mut cnt = 0.0; let mut want = vec![0.0; 154];
    let k = pick("n", 1, n); let (mut sa, mut sb, mut qa, mut qb) = (0.0, 0.0, 0.0, 0.0); let (mut sc, mut qc) = (0.0, 0.0); let mut i = 0;
    while i < k {
        let v = if i == 0 { let v = value("v"); assume(v < 40.0); v } else { SOME[pick("some", 0, SOME.len() - 1)] };
        if branch(bool_("second")) { b.add(v); sb += v; qb += v * v; } else { a.add(v); sa += v; qa += v * v; }
        c.add(v); lo = min(lo, v); hi = max(hi, v); cnt += 1.0; want[bucket_of(&l, v)] += 1.0; sc += v; qc += v * v;
        i += 1;
    }
    let t = c.verif_totals(); check(t[0] == lo && t[1] == hi && t[2] == cnt, "smallest, largest and number of the values added"); check(same(t[3], sc) && same(t[4], qc), "sum and sum of squares of the values added");
    check_buckets(&c, &want, "every value added counts in its bucket");
    let before = b.verif_totals();
    a.merge(&b);
    let t = a.verif_totals();
    check(t[0] == lo && t[1] == hi && t[2] == cnt, "merging keeps smallest, largest and number"); check(same(t[3], sa + sb) && same(t[4], qa + qb), "merging adds the sums");
    check_buckets(&a, &want, "merging adds the buckets");
    let after = b.verif_totals(); check(same(before[0], after[0]) && same(before[1], after[1]) && same(before[2], after[2]) && same(before[3], after[3]), "merging leaves the other histogram alone");
    cover("merge");
}
#[no_mangle] pub extern "C" fn h_hist_merge() { merge(2) }
#[no_mangle] pub extern "C" fn h_hist_merge_t() { merge(3) }
/// percentiles: between smallest and largest, inside the bucket that holds the rank, growing with the percentage
#[inline(never)]
fn percentile(n: usize) {
    let l = limits(); let mut h = Histogram::default(); let (mut lo, mut hi) = (1e200, 0.0); let mut cnt = vec![0u32; 154];
    let k = pick("n", 1, n); let mut i = 0;
    while i < k { let v = if i == 0 { let v = value("v"); assume(v < 40.0); v } else { SOME[pick("some", 0, 9)] }; h.add(v); lo = min(lo, v); hi = max(hi, v); cnt[bucket_of(&l, v)] += 1; i += 1; }
    let p = [0.5, 25.0, 50.0, 75.0, 99.0, 100.0][pick("p", 0, 5)];
    let x = h.verif_percentile(p);
    check(x >= lo && x <= hi, "a percentile lies between the smallest and the largest value");
    // the bucket where the running count reaches the rank
    let rank = k as f64 * (p / 100.0); let mut s = 0u32; let mut i = 0; while (s + cnt[i]) as f64 + 0.0 < rank { s += cnt[i]; i += 1; }
    let left = if i == 0 { 0.0 } else { l[i - 1] };
    check(x >= left && x <= l[i], "a percentile lies in the bucket that reaches its rank");
    // linear in the bucket, cut to the values seen
    let pos = (rank - s as f64) / cnt[i] as f64; let y = left + (l[i] - left) * pos;
    let (y0, y1) = (y - 1e-9 * (1.0 + y), y + 1e-9 * (1.0 + y));
    check((x >= y0) | (x == hi), "a percentile is interpolated in its bucket"); check((x <= y1) | (x == lo), "a percentile is interpolated in its bucket");
    if p == 50.0 { check(same(h.verif_summary()[0], x), "the median is the 50th percentile"); }
    cover("percentile");
}
#[no_mangle] pub extern "C" fn h_hist_percentile() { percentile(2) }
#[no_mangle] pub extern "C" fn h_hist_percentile_t() { percentile(3) }
/// the spread is a number and never negative
#[no_mangle] pub extern "C" fn h_hist_spread() {
    let mut h = Histogram::default(); let v = value("v"); assume(v < 40.0);
    h.add(v); let k = pick("more", 0, 2); let mut i = 0; while i < k { h.add([0.1, 3.3, 1e6][pick("some", 0, 2)]); i += 1; }
    let s = h.verif_summary(); check(s[2] >= 0.0, "the standard deviation is a number and not negative");
    let t = h.verif_totals(); check(same(s[1], t[3] / t[2]) || t[3] == 0.0, "the average is sum over number"); cover("spread");
}
