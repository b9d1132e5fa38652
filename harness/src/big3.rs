//! Sizes and settings that only a long run or an odd configuration meets.
use crate::sym::*;
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::hash::Hash;
use level_db_rust::util::histogram::Histogram;
use level_db_rust::util::linked_list::{LinkedList, LinkedListBuilder};
use level_db_rust::util::slice::Slice;
use std::sync::Arc;

fn one_of(name: &str, v: &[usize]) -> usize { v[pick(name, 0, v.len() - 1)] }

// ---- C19: more elements than fit 16 bits
#[no_mangle] pub extern "C" fn h_linked_huge() {
    let n = 66000usize; let mut l: LinkedList<u32> = LinkedList::new(); let mut i = 0; while i < n { l.add(i as u32); i += 1; }
    check(l.length() == n, "length counts the elements");
    let v = u32_("v"); let p = one_of("pos", &[1, 65536, n - 1, n]);
    check(l.add_by_position(p, v).is_ok(), "a position up to the length is accepted"); check(l.length() == n + 1, "length counts the elements");
    let at = |i: usize| if i < p { i as u32 } else if i == p { v } else { i as u32 - 1 };
    for q in [0, 1, 255, 65534, 65535, 65536, 65537, n - 1, n] { match l.get(q) { Ok(Some(x)) => check(*x == at(q), "every index reads its element"), _ => check(false, "every element is reachable") } }
    for q in [65535, 65536, n] { match l.get_mut(q) { Ok(Some(x)) => check(*x == at(q), "every index reads its element"), _ => check(false, "get_mut finds the element") } }
    let q = u64_("out"); assume(q > n as u64); check(l.get(q as usize).is_err() && l.get_mut(q as usize).is_err() && l.add_by_position((q as usize).max(n + 2), 1).is_err(), "an index outside is refused");
    cover("huge list");
}

// ---- C22: what is printed, against the numbers of a reference
#[no_mangle] pub extern "C" fn h_hist_text() {
    real_fmt(true);
    const V: [f64; 10] = [0.0, 0.25, 1.0, 1.5, 7.0, 11.0, 12.0, 150.0, 123456.5, 9.1e9];
    let l = crate::hist::limits(); let n = pick("n", 1, 3); let mut h = Histogram::default(); let mut other = Histogram::default(); let split = bool_("merge"); let split = branch(split);
    let (mut lo, mut hi, mut s, mut q) = (1e200f64, 0.0f64, 0.0f64, 0.0f64); let mut cnt = vec![0u32; 154]; let mut i = 0;
    while i < n { let v = V[pick("v", 0, if i < 2 { 9 } else { 0 })]; if split && i == n - 1 { other.add(v); } else { h.add(v); } if v < lo { lo = v; } if v > hi { hi = v; } s += v; q += v * v; cnt[crate::hist::bucket_of(&l, v)] += 1; i += 1; }
    if split { h.merge(&other); }
    let num = n as f64; let avg = if s == 0.0 { 0.0 } else { s / num }; let var = (q * num - s * s) / (num * num); let dev = if s == 0.0 || var < 0.0 { 0.0 } else { var.sqrt() };
    let rank = num * 0.5; let mut c = 0u32; i = 0; while ((c + cnt[i]) as f64) < rank { c += cnt[i]; i += 1; }
    let left = if i == 0 { 0.0 } else { l[i - 1] }; let mut med = left + (l[i] - left) * ((rank - c as f64) / cnt[i] as f64); if med < lo { med = lo; } if med > hi { med = hi; }
    let t = h.to_string(); let mut lines = t.split('\n');
    let is = |got: Option<&str>, want: &str, msg: &str| match got { Some(g) => check(g.trim_end() == want, msg), None => check(false, msg) };
    is(lines.next(), &format!("Count: {} Average: {:.4} StdDev: {:.2}", n, avg, dev), "the first line shows number, average and deviation");
    is(lines.next(), &format!("Min: {:.4} Median: {:.4} Max: {:.4}", lo, med, hi), "the second line shows smallest, median and largest");
    check(lines.next().is_some_and(|x| !x.is_empty() && x.bytes().all(|b| b == b'-')), "a rule follows");
    let mut sum = 0u32; i = 0;
    while i < 154 {
        if cnt[i] > 0 {
            sum += cnt[i]; let left = if i == 0 { 0.0 } else { l[i - 1] };
            let want = format!("[ {:>7.0}, {:>7.0} ) {:>7} {:>7.3}% {:>7.3}% ", left, l[i], cnt[i], 100.0 / num * cnt[i] as f64, 100.0 / num * sum as f64);
            match lines.next() { Some(g) => check(g.starts_with(&want), "every bucket that is not empty has a line with limits, number, share and running share"), None => check(false, "every bucket that is not empty has a line") }
        }
        i += 1;
    }
    check(lines.next().unwrap_or("").is_empty() && lines.next().is_none(), "nothing follows the last bucket");
    cover("printed");
}

// ---- C16: any capacity, spread evenly over the shards and rounded up
const SAME: [&str; 6] = ["%;", "'a", "!p", "&2", ",#", "+,"];
#[no_mangle] pub extern "C" fn h_cache_capacity() {
    let cap = u64_("cap"); assume(cap < 1 << 62); let ch = range("charge", 1, 3) as u64; let arc = branch(bool_("arc"));
    let one = if arc { None } else { Some(ShardLRUCache::<u32>::new_with_capacity(cap as usize, 0)) }; let shared = if arc { Some(ShardLRUCache::<u32>::new_arc_with_capacity(cap as usize, 0)) } else { None };
    let c = match (&one, &shared) { (Some(c), _) => c, (_, Some(c)) => &**c, _ => return };
    check(c.capacity() as u64 == cap, "capacity is what was given");
    let per = cap / 32 + (cap % 32 != 0) as u64;
    let mut i = 0; while i < 5 { c.insert(&Slice::from(SAME[i]), i as u32, ch as usize).unwrap(); i += 1; }
    // the last ones stay, as many as fit below the share of the shard
    let mut kept = 0u64; i = 5; while i > 0 { i -= 1; let fits = (kept + 1) * ch < per; let here = c.lookup(&Slice::from(SAME[i])).unwrap(); check(here.is_some() == fits, "a shard keeps less than its share of the capacity, and as much as fits"); if here.is_none() { break; } kept += 1; }
    check(c.total_charge().unwrap() as u64 == kept * ch, "total charge is the sum of the cached charges");
    cover("capacity"); 
}
/// one bucket whose entries stay and move in every pattern when the table grows
#[no_mangle] pub extern "C" fn h_cache_mixed() {
    let (mut lo, mut hi): (Vec<Slice>, Vec<Slice>) = (vec![], vec![]); let mut rest: Vec<Slice> = vec![]; let mut i = 0u32;
    while lo.len() < 4 || hi.len() < 4 || rest.len() < 8 { let k = [b'a' + (i % 26) as u8, b'a' + (i / 26 % 26) as u8, b'a' + (i / 676) as u8]; i += 1; let h = Hash::hash_code(&k[..], 0); if h >> 27 != 5 { continue; } let s = Slice::from_buf(&k); if h & 15 == 3 { if h & 16 == 0 { if lo.len() < 4 { lo.push(s); } } else if hi.len() < 4 { hi.push(s); } } else if rest.len() < 8 { rest.push(s); } }
    let mut c: ShardLRUCache<Tok> = ShardLRUCache::new_with_capacity(32 * 1000, 0); let live = Arc::new(std::sync::atomic::AtomicI64::new(0));
    let tok = |v: u32| { live.fetch_add(1, std::sync::atomic::Ordering::SeqCst); Tok(v, live.clone()) };
    // a chain of four: which of them move is the pattern; the others fill the table until it grows
    let pat = pick("pattern", 0, 15); let mut keys: Vec<&Slice> = vec![]; let mut i = 0;
    while i < 4 { keys.push(if pat >> i & 1 == 0 { &lo[i] } else { &hi[i] }); i += 1; }
    for k in &rest { keys.push(k); }
    let v = u32_("value"); i = 0; while i < keys.len() { c.insert(keys[i], tok(v ^ i as u32), 1).unwrap(); i += 1; }
    // the others of the chain come after
    i = 0; while i < 4 { keys.push(if pat >> i & 1 == 0 { &hi[i] } else { &lo[i] }); c.insert(keys[12 + i], tok(v ^ (12 + i) as u32), 1).unwrap(); i += 1; }
    let mut here = vec![true; 16];
    let which = pick("erase", 0, 3); i = 0;
    while i < 16 { let gone = match which { 0 => pat >> (i & 3) & 1 == 1 && i < 4, 1 => pat >> (i & 3) & 1 == 0 && i < 4, 2 => i >= 12, _ => i % 2 == 0 }; if gone { c.erase(keys[i]).unwrap(); here[i] = false; } i += 1; }
    let all = |c: &ShardLRUCache<Tok>, here: &[bool]| { let mut n = 0; let mut i = 0; while i < 16 { match c.lookup(keys[i]).unwrap() { Some(a) => { check(here[i] && a.0 == v ^ i as u32, "exactly the cached keys are found, with their values"); n += 1; } None => check(!here[i], "every cached key is found") } i += 1; } check(c.total_charge().unwrap() == n && live.load(std::sync::atomic::Ordering::SeqCst) == n as i64, "charges and values add up"); };
    all(&c, &here);
    i = 16; while i > 0 { i -= 1; if !here[i] { c.insert(keys[i], tok(v ^ i as u32), 1).unwrap(); here[i] = true; } }
    all(&c, &here);
    i = 0; while i < 16 { if i % 3 != 1 { c.erase(keys[i]).unwrap(); here[i] = false; } i += 1; }
    all(&c, &here);
    cover("chains split by growth");
}
struct Tok(u32, Arc<std::sync::atomic::AtomicI64>);
impl Drop for Tok { fn drop(&mut self) { self.1.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); self.0 = 0xdead_beef; } }

// ---- C14: printed in full
#[no_mangle] pub extern "C" fn h_display_big() {
    real_fmt(true); let ar = crate::mem::arena(); let n = one_of("n", &[127, 1000, 4096, 5000, 70000]); let mut d = vec![b'd'; n]; d[0] = range("a", 0, 127) as u8; d[n - 1] = range("b", 0, 127) as u8;
    let a = level_db_rust::util::unsafe_slice::UnsafeSlice::new_with_arena(&d, ar.clone()).unwrap(); check(eq(a.as_str().as_bytes(), &d) && a.as_str().len() == n, "as_str is the bytes");
    let t = a.to_string(); check(t.len() == n && eq(t.as_bytes(), &d), "a slice is shown as its bytes"); check(a.len() == n && eq(a.as_ref(), &d), "showing a slice leaves it alone");
    let s = Slice::from_vec(d.clone()); let t = s.to_string(); check(t.len() == n && eq(t.as_bytes(), &d), "a slice is shown as its bytes");
    cover("large, shown");
}

// ---- C13: small and large requests in turn, against the block in use and the memory taken
#[no_mangle] pub extern "C" fn h_arena_mix() {
    let mut a = level_db_rust::util::arena::Arena::default(); let mut rest: Option<usize> = None; let mut usage = 0; let mut end = 0usize; let mut i = 0;
    let small = one_of("small", &[1, 7, 200, 1000, 1023, 1024]); let large = one_of("large", &[1025, 2048, 3000, 4095, 4096, 4097, 8192, 12289, 20000, 65536, 100001, 1048577]); let every = pick("every", 1, 3);
    let last = one_of("last", &[0, 1, 64, 1023, 1024, 1025]);
    while i < 14 {
        let n = if i == 13 { last } else if i % 4 == every { large } else { small };
        let b = a.allocate(n); check(b.len() == n, "an allocation has the size asked for"); let p = b.as_ptr() as usize;
        if n > 0 { b[0] = i as u8; b[n - 1] = i as u8; }
        match rest {
            Some(r) if n <= r => { check(p == end, "the block in use is used to its last byte"); rest = Some(r - n); end += n; }
            _ if n > 1024 => { usage += n; }
            _ => { rest = Some(4096 - n); usage += 4096; end = p + n; }
        }
        check(a.memory_usage() == usage, "memory is taken exactly when the block in use is too small");
        i += 1;
    }
    cover("small and large");
}
