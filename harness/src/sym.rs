//! What a harness may say to the engine.  The same functions are implemented by the replay driver.
extern "C" {
    fn rsym_any(width: u32, name: *const u8, len: usize) -> u64;
    fn rsym_assume(c: bool);
    fn rsym_assert(c: bool, msg: *const u8, len: usize);
    fn rsym_branch(c: bool) -> bool;
    fn rsym_cover(msg: *const u8, len: usize);
    fn rsym_observe(name: *const u8, len: usize, v: u64);
    fn rsym_concretize(v: u64) -> u64;
    fn rsym_real_fmt(on: bool);
    fn rsym_eq(a: *const u8, b: *const u8, n: usize) -> bool;
    fn rsym_readable(p: *const u8, n: usize) -> bool;
    fn rsym_is_symbolic() -> bool;
    fn rsym_threads(n: u32);
    fn rsym_spawn(f: extern "C" fn(usize), arg: usize) -> u64;
    fn rsym_join(t: u64);
    fn rsym_yield();
}
fn any(w: u32, name: &str) -> u64 { unsafe { rsym_any(w, name.as_ptr(), name.len()) } }
pub fn u8_(name: &str) -> u8 { any(8, name) as u8 }
pub fn u16_(name: &str) -> u16 { any(16, name) as u16 }
pub fn u32_(name: &str) -> u32 { any(32, name) as u32 }
pub fn u64_(name: &str) -> u64 { any(64, name) }
pub fn bool_(name: &str) -> bool { any(1, name) != 0 }
/// a symbolic value in lo..=hi (not enumerated)
pub fn range(name: &str, lo: u64, hi: u64) -> u64 { let v = any(if hi < 256 { 8 } else if hi < 65536 { 16 } else { 64 }, name); assume(v >= lo && v <= hi); v }
/// a value in lo..=hi, one path per value
pub fn pick(name: &str, lo: usize, hi: usize) -> usize { let v = range(name, lo as u64, hi as u64); concretize(v) as usize }
pub fn fill(name: &str, b: &mut [u8]) { let mut i = 0; while i < b.len() { b[i] = u8_(name); i += 1; } }
pub fn bytes<const N: usize>(name: &str) -> [u8; N] { let mut b = [0u8; N]; fill(name, &mut b); b }
pub fn vec(name: &str, n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); let mut i = 0; while i < n { v.push(u8_(name)); i += 1; } v }
pub fn assume(c: bool) { unsafe { rsym_assume(c) } }
/// the property: must hold on every value of the current path (does not fork)
pub fn check(c: bool, msg: &str) { unsafe { rsym_assert(c, msg.as_ptr(), msg.len()) } }
pub fn branch(c: bool) -> bool { unsafe { rsym_branch(c) } }
pub fn cover(msg: &str) { unsafe { rsym_cover(msg.as_ptr(), msg.len()) } }
pub fn observe(name: &str, v: u64) { unsafe { rsym_observe(name.as_ptr(), name.len(), v) } }
pub fn observe_bytes(name: &str, b: &[u8]) { observe(name, b.len() as u64); let mut i = 0; while i < b.len() { observe(name, b[i] as u64); i += 1; } }
pub fn concretize(v: u64) -> u64 { unsafe { rsym_concretize(v) } }
/// format strings for real (otherwise `format!` yields an empty string)
pub fn real_fmt(on: bool) { unsafe { rsym_real_fmt(on) } }
pub fn readable(p: *const u8, n: usize) -> bool { unsafe { rsym_readable(p, n) } }
pub fn is_symbolic() -> bool { unsafe { rsym_is_symbolic() } }
pub fn threads(n: u32) { unsafe { rsym_threads(n) } }
pub fn spawn(f: extern "C" fn(usize), arg: usize) -> u64 { unsafe { rsym_spawn(f, arg) } }
pub fn join(t: u64) { unsafe { rsym_join(t) } }
pub fn yield_() { unsafe { rsym_yield() } }
#[no_mangle]
pub extern "C" fn rsym_empty_string(out: *mut String) { unsafe { std::ptr::write(out, String::new()) } }
/// `a == b` as a formula, without forking
pub fn eq(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && unsafe { rsym_eq(a.as_ptr(), b.as_ptr(), a.len()) } }
/// 0, 1, 2, ... 250, 0, 1, ...
pub fn pattern(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 251); let mut i = 0;
    while i < 251 { v.push(i as u8); i += 1; }
    while v.len() < n { let k = if v.len() < n - v.len() { v.len() } else { (n - v.len()).div_ceil(251) * 251 }; v.extend_from_within(..k); }
    v.truncate(n);
    v
}
/// three-way lexicographic comparison as a formula: -1, 0, 1 (lengths must be concrete)
pub fn cmp(a: &[u8], b: &[u8]) -> i8 {
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    let mut r: i8 = if a.len() < b.len() { -1 } else if a.len() > b.len() { 1 } else { 0 };
    let mut i = n;
    while i > 0 { i -= 1; let lt = (a[i] < b[i]) as i8; let gt = (a[i] > b[i]) as i8; let ne = lt | gt; r = (gt - lt) + (1 - ne) * r; }
    r
}

/// some text: ASCII, or one arbitrary character of two, three or four bytes (of a range of each) and an arbitrary ASCII one
pub fn text(name: &str) -> String {
    let mut v = match pick(name, 0, 3) { 0 => vec![], 1 => vec![0xc3], 2 => vec![0xe4], _ => vec![0xf0, 0x9f] };
    let n = v.len(); if n > 0 { let k = if n == 2 { 2 } else { n + (v[0] == 0xe4) as usize }; let mut i = 0; while i < k { v.push(range(name, 0x80, 0xbf) as u8); i += 1; } v.push(range(name, 0, 127) as u8); } else if branch(bool_(name)) { v.push(range(name, 0, 127) as u8); }
    unsafe { String::from_utf8_unchecked(v) }
}
