use crate::mtab::varint;
use crate::sym::*;
use level_db_rust::db::db_format::InternalKey;
use level_db_rust::db::file_meta_data::FileMetaData;
use level_db_rust::db::version_edit::{Tag, VersionEdit};
use level_db_rust::util::linked_list::{LinkedList, LinkedListBuilder};
use level_db_rust::util::mutex_lock::MutexLock;
use level_db_rust::util::random::Random;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::status::{LevelError, Status};

// ---------------------------------------------------------------- version edits
/// a varint of any value, decoded from the bytes: -> (value, length)
fn unvarint(b: &[u8]) -> Option<(u64, usize)> {
    let mut v = 0u64; let mut i = 0;
    while i < 10 { if i >= b.len() { return None; } v |= ((b[i] & 127) as u64) << (7 * i as u32); if b[i] < 128 { if i > 0 && b[i] == 0 { return None; } return Some((v, i + 1)); } i += 1; }
    None
}
fn expect(b: &[u8], at: &mut usize, want: u64, msg: &str) -> bool { match unvarint(&b[*at..]) { Some((v, n)) => { check(v == want, msg); *at += n; true } None => { check(false, msg); false } } }
/// a number whose varint is short, or one whose varint is long
fn num(name: &str) -> u64 { let v = u64_(name); if !branch(v < 128) { assume(v >= 1 << 63); } v }
fn lev(name: &str) -> u32 { let v = u32_(name); if !branch(v < 128) { assume(v >= 1 << 28); } v }
#[inline(never)]
fn edit(nlists: usize, namelen: usize, scalars: bool) {
    let mut e = VersionEdit::new();
    let f = |n: &str| if scalars { branch(bool_(n)) } else { false };
    let (hc, hl, hp, hn, hs) = (f("comparator"), !scalars || f("log"), f("prev"), f("next"), f("last"));
    let n = if hc { pick("namelen", 0, namelen) } else { 0 }; let name = vec("name", n); let mut i = 0; while i < n { assume(name[i] < 128); i += 1; }
    let (l, p, x, s) = (num("lognum"), num("prevnum"), num("nextnum"), num("lastseq"));
    // setters in another order than the fields are encoded
    if hs { e.set_last_sequence(s); } if hn { e.set_next_file(x); }
    let cp = pick("pointers", 0, nlists); let df = pick("deleted", 0, nlists); let nf = pick("new", 0, nlists);
    let mut cps = vec![]; let mut dfs = vec![]; let mut nfs = vec![]; let mut i = 0;
    while i < cp { let v = lev("clevel"); e.set_compact_pointer(v, InternalKey::default()); cps.push(v); i += 1; }
    i = 0; while i < nf { let v = (lev("nlevel"), num("nfile"), num("nsize")); e.add_file(v.0, v.1, v.2, InternalKey::default(), InternalKey::default()); nfs.push(v); i += 1; }
    i = 0; while i < df { let v = (lev("dlevel"), num("dfile")); e.delete_file(v.0, v.1); dfs.push(v); i += 1; }
    if hp { e.set_prev_log_number(p); } if hl { e.set_log_number(l); } if hc { e.set_comparator_name(Slice::from_buf(&name)); }
    let mut o: Vec<u8> = vec![];
    if e.encode_to(&mut o).is_err() { check(false, "encode_to fails"); return; }
    let mut at = 0;
    if hc { if !expect(&o, &mut at, 1, "comparator record") || !expect(&o, &mut at, n as u64, "comparator name length") { return; } check(o.len() >= at + n && eq(&o[at..at + n], &name), "comparator name"); at += n; }
    if hl { if !expect(&o, &mut at, 2, "log number record") || !expect(&o, &mut at, l, "log number") { return; } }
    if hp { if !expect(&o, &mut at, 9, "previous log number record") || !expect(&o, &mut at, p, "previous log number") { return; } }
    if hn { if !expect(&o, &mut at, 3, "next file record") || !expect(&o, &mut at, x, "next file number") { return; } }
    if hs { if !expect(&o, &mut at, 4, "last sequence record") || !expect(&o, &mut at, s, "last sequence") { return; } }
    for v in &cps { if !expect(&o, &mut at, 5, "compaction pointer record") || !expect(&o, &mut at, *v as u64, "compaction pointer level") || !expect(&o, &mut at, 0, "compaction pointer key") { return; } }
    for v in &dfs { if !expect(&o, &mut at, 6, "deleted file record") || !expect(&o, &mut at, v.0 as u64, "deleted file level") || !expect(&o, &mut at, v.1, "deleted file number") { return; } }
    for v in &nfs { if !expect(&o, &mut at, 7, "new file record") || !expect(&o, &mut at, v.0 as u64, "new file level") || !expect(&o, &mut at, v.1, "new file number") || !expect(&o, &mut at, v.2, "new file size") || !expect(&o, &mut at, 0, "new file smallest key") || !expect(&o, &mut at, 0, "new file largest key") { return; } }
    check(at == o.len(), "nothing else is encoded");
    // a cleared edit forgets everything but its compaction pointers
    e.clear(); let mut q: Vec<u8> = vec![]; e.encode_to(&mut q).unwrap(); let mut at = 0;
    for v in &cps { if !expect(&q, &mut at, 5, "compaction pointer record") || !expect(&q, &mut at, *v as u64, "compaction pointer level") || !expect(&q, &mut at, 0, "compaction pointer key") { return; } }
    check(at == q.len(), "a cleared edit encodes only compaction pointers");
    cover("version edit");
}
#[no_mangle] pub extern "C" fn h_edit() { edit(0, 3, true) }
#[no_mangle] pub extern "C" fn h_edit_lists() { edit(1, 0, false) }
#[no_mangle] pub extern "C" fn h_edit_t() { edit(1, 3, true) }
#[no_mangle] pub extern "C" fn h_edit_lists_t() { edit(2, 0, false) }
#[no_mangle] pub extern "C" fn h_edit_new() {
    let l = u64_("log"); let mut o = vec![];
    let prev = bool_("prev");
    let e = if prev { VersionEdit::new_with_prev_log_number(l) } else { VersionEdit::new_with_log_number(l) };
    e.encode_to(&mut o).unwrap();
    let mut at = 0; if !expect(&o, &mut at, if prev { 9 } else { 2 }, "record tag") || !expect(&o, &mut at, l, "log number") { return; } check(at == o.len(), "nothing else is encoded");
    let _ = varint(l & 1); cover("constructors");
}
#[no_mangle] pub extern "C" fn h_tag() {
    let v = u32_("tag"); let w = u32_("other");
    let known = (v >= 1 && v <= 7) || v == 9;
    match (Tag::from_value(v), Tag::from_value(w)) { (Some(a), Some(b)) => { check(known && a.get_value() as u32 == v, "a tag decodes from its own number"); check((a.get_value() == b.get_value()) == (v == w), "tags are distinct"); } (Some(a), None) => check(known && a.get_value() as u32 == v, "a tag decodes from its own number"), (None, _) => check(!known, "every known tag decodes") }
    cover("tags");
}
#[no_mangle] pub extern "C" fn h_file_meta() {
    let (n, s, m, t) = (u64_("number"), u64_("size"), u64_("number2"), u64_("size2"));
    let (r, q) = (u32_("refs") as i32, u32_("refs2") as i32); let (a, b) = (u32_("seeks") as i32, u32_("seeks2") as i32);
    let mk = |r, a, n, s| FileMetaData::new(r, a, n, s, InternalKey::default(), InternalKey::default());
    let (x, y) = (mk(r, a, n, s), mk(q, b, m, t));
    check((x == y) == (r == q && a == b && n == m && s == t), "file records are equal exactly when all their fields are");
    check(x.get_number() == n && x.get_file_size() == s && x.get_refs() == r, "a file record returns what was put in");
    let mut z = FileMetaData::new_with_number_file_size_internal_key(n, s, InternalKey::default(), InternalKey::default());
    check(z.get_number() == n && z.get_file_size() == s && z.get_refs() == 0, "a new file has its number and size and no references");
    check((z == mk(0, 1 << 30, n, s)), "a new file allows 2^30 seeks");
    z.set_file_size(t); check(z.get_file_size() == t && z.get_number() == n, "set_file_size changes only the size");
    let d = u32_("add") as i32; assume((r as i64 + d as i64).abs() < 1 << 31 - 1); let mut x = x; x.add_refs(d); check(x.get_refs() == r + d, "add_refs adds");
    cover("file records");
}
// ---------------------------------------------------------------- linked list
#[inline(never)]
fn linked(n: usize) {
    let mut l: LinkedList<u32> = LinkedList::new(); let mut m: Vec<u32> = vec![];
    let k = pick("n", 0, n); let mut i = 0;
    while i < k {
        let v = u32_("v");
        match pick("op", 0, 4) {
            0 => { l.add(v); m.push(v); }
            1 => { l.push(v); m.insert(0, v); }
            2 => { check(matches!(l.add_first(v), Ok(true)), "add_first succeeds"); m.insert(0, v); }
            3 => { check(matches!(l.add_last(v), Ok(true)), "add_last succeeds"); m.push(v); }
            _ => { let p = u64_("pos") as usize; let ok = branch(p <= m.len()); let r = l.add_by_position(p, v); check(r.is_ok() == ok, "a position is accepted exactly up to the length"); if let Err(e) = r { check(e.is_invalid_argument(), "a bad position is an invalid argument"); } if ok { let p = concretize(p as u64) as usize; m.insert(p, v); } }
        }
        check(l.length() == m.len(), "length counts the elements");
        i += 1;
    }
    let mut i = 0; while i < m.len() { match l.get(i) { Ok(Some(v)) => check(*v == m[i], "elements are in order"), _ => check(false, "every element is reachable") } i += 1; }
    // any index
    let q = u64_("index") as usize; let inside = branch(q < m.len());
    match l.get(q) { Ok(Some(v)) => { let c = concretize(q as u64) as usize; check(inside && *v == m[c], "get returns the element at the index"); } Ok(None) => check(false, "an index inside has an element"), Err(e) => check(!inside && e.is_invalid_argument(), "an index outside is an invalid argument") }
    // writing through get_mut changes that element only
    if m.len() > 0 { let c = pick("at", 0, m.len() - 1); let w = u32_("w"); match l.get_mut(c) { Ok(Some(x)) => { *x = w; m[c] = w; } _ => check(false, "get_mut finds the element") } }
    else { check(l.get_mut(0).is_err(), "get_mut of an empty list is refused"); }
    let mut i = 0; while i < m.len() { match l.get(i) { Ok(Some(v)) => check(*v == m[i], "only the element written changes"), _ => check(false, "every element stays reachable") } i += 1; }
    cover("linked list");
}
#[no_mangle] pub extern "C" fn h_linked() { linked(3) }
#[no_mangle] pub extern "C" fn h_linked_t() { linked(5) }
/// dropping the list drops every element exactly once
struct Tok(std::rc::Rc<std::cell::Cell<u32>>, u32);
impl Drop for Tok { fn drop(&mut self) { self.0.set(self.0.get() + self.1); } }
#[no_mangle] pub extern "C" fn h_linked_drop() {
    let c = std::rc::Rc::new(std::cell::Cell::new(0)); let mut l = LinkedList::new(); let n = pick("n", 0, 3); let mut i = 0; let mut all = 0;
    while i < n {
        let t = Tok(c.clone(), 1 << (4 * i)); all += 1 << (4 * i);
        match pick("op", 0, 2) { 0 => l.add(t), 1 => l.push(t), _ => { let p = pick("pos", 0, i); l.add_by_position(p, t).unwrap(); } }
        check(c.get() == 0, "an element lives as long as its list"); i += 1;
    }
    // a refused element is dropped, not kept
    if bool_("refused") { check(l.add_by_position(n + 1, Tok(c.clone(), 1 << 20)).is_err(), "a position beyond the length is refused"); all += 1 << 20; check(c.get() == 1 << 20, "a refused element is dropped"); }
    drop(l); check(c.get() == all, "dropping the list drops every element once");
    cover("list dropped");
}
// ---------------------------------------------------------------- status
const NAMES: [&str; 8] = ["OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: ", "wal bad record: ", "repeated record: "];
fn ascii(name: &str, max: usize) -> Vec<u8> { let n = pick(name, 0, max); let v = vec(name, n); let mut i = 0; while i < n { assume(v[i] < 128); i += 1; } v }
fn joined(a: &[u8], b: &[u8]) -> Vec<u8> { let mut o = a.to_vec(); if !b.is_empty() { o.extend_from_slice(b": "); o.extend_from_slice(b); } o }
fn kinds(e: &LevelError, c: i32) {
    check(e.get_value() == c, "a code keeps its number");
    check(e.is_ok() == (c == 0) && e.is_not_found() == (c == 1) && e.is_corruption() == (c == 2) && e.is_not_supported_error() == (c == 3) && e.is_invalid_argument() == (c == 4) && e.is_io_error() == (c == 5) && e.is_repeated_record() == (c == 7), "a code answers only to its own name");
}
#[no_mangle] pub extern "C" fn h_status_code() {
    let v = u32_("code") as i32;
    let known = v >= 0 && v <= 7;
    match LevelError::try_from(v) { Ok(e) => { check(known, "an unknown code is refused"); kinds(&e, v); } Err(_) => check(!known, "every known code decodes") }
    kinds(&LevelError::default(), 0);
    cover("codes");
}
#[no_mangle] pub extern "C" fn h_status_text() {
    real_fmt(true);
    let c = pick("code", 0, 7); let (a, b) = (ascii("a", 2), ascii("b", 2));
    let (sa, sb) = (Slice::from_buf(&a), Slice::from_buf(&b));
    let e = LevelError::try_from(c as i32).unwrap();
    let (st, txt) = match pick("how", 0, 2) {
        0 => (Status::wrapper(e, sa), if c == 0 { vec![] } else { a.clone() }),
        1 => (Status::wrappers(e, sa, sb), joined(&a, &b)),
        _ => match c { 0 => (Status::default(), vec![]), 1 => (LevelError::not_found(sa, sb), joined(&a, &b)), 2 => (LevelError::corruption(sa, sb), joined(&a, &b)), 3 => (LevelError::not_supported(sa, sb), joined(&a, &b)), 4 => (LevelError::invalid_argument(sa, sb), joined(&a, &b)), 5 => (LevelError::io_error(sa, sb), joined(&a, &b)), 6 => (Status::wrapper_str(LevelError::KBadRecord, std::str::from_utf8(&a).unwrap()), a.clone()), _ => (LevelError::repeated_record(sa), a.clone()) },
    };
    check(st.is_ok() == (c == 0) && st.is_not_found() == (c == 1) && st.is_corruption() == (c == 2) && st.is_not_supported_error() == (c == 3) && st.is_invalid_argument() == (c == 4) && st.is_io_error() == (c == 5), "a status answers only to its own name");
    let m = st.get_msg(); check(m.len() == txt.len() && eq(m.as_bytes(), &txt), "a status keeps its message: the parts joined by a colon");
    let what = pick("take", 0, 2);
    if what == 0 { kinds(&st.get_error(), c as i32); }
    else if what == 1 { let m = st.into_msg(); check(m.len() == txt.len() && eq(&m, &txt), "into_msg returns the message"); }
    else { let s = st.to_string(); let mut w = NAMES[c].as_bytes().to_vec(); if c != 0 { w.extend_from_slice(&txt); } check(s.len() == w.len() && eq(s.as_bytes(), &w), "the text is the code's name and the message"); }
    cover("status");
}
/// messages beyond ASCII
#[no_mangle] pub extern "C" fn h_status_utf8() {
    real_fmt(true); let c = pick("code", 0, 7); let (a, b) = (text("a"), text("b")); let e = LevelError::try_from(c as i32).unwrap();
    let (st, t) = match pick("how", 0, 2) { 0 => (Status::wrapper_str(e, &a), if c == 0 { vec![] } else { a.as_bytes().to_vec() }), 1 => (Status::wrappers(e, Slice::from(&a), Slice::from(&b)), joined(a.as_bytes(), b.as_bytes())), _ => (LevelError::corruption_string(&a, &b), joined(a.as_bytes(), b.as_bytes())) };
    let m = st.get_msg(); check(m.len() == t.len() && eq(m.as_bytes(), &t), "a status keeps its message: the parts joined by a colon");
    let c = if st.is_corruption() { 2 } else { c }; let s = st.to_string(); let mut w = NAMES[c].as_bytes().to_vec(); if c != 0 { w.extend_from_slice(&t); } check(s.len() == w.len() && eq(s.as_bytes(), &w), "the text is the code's name and the message");
    cover("text");
}
#[no_mangle] pub extern "C" fn h_status_display() { real_fmt(true); let c = pick("code", 0, 7); let e = LevelError::try_from(c as i32).unwrap(); let s = e.to_string(); check(s.len() == NAMES[c].len() && eq(s.as_bytes(), NAMES[c].as_bytes()), "a code displays as its name"); cover("display"); }
#[no_mangle] pub extern "C" fn h_status_from() {
    let st: Status = std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into(); check(st.is_io_error(), "an io::Error becomes an IO error");
    cover("conversions");
}
// ---------------------------------------------------------------- random
#[no_mangle] pub extern "C" fn h_random_range() {
    let s = u32_("seed"); let mut r = Random::new(s); let mut q = Random::new(s);
    let mut i = 0; while i < 3 { let x = r.next(); check(x >= 1 && x <= 2147483647, "every number is in 1..=2147483647"); check(x == q.next(), "equal seeds give equal sequences"); i += 1; }
    cover("random");
}
#[no_mangle] pub extern "C" fn h_random_uniform() {
    let mut r = Random::new(u32_("seed")); let n = u32_("n"); assume(n > 0);
    check(r.uniform(n) < n, "uniform(n) is below n"); check(!(n == 1) || r.one_in(n), "one_in(1) is always true"); cover("uniform");
}
#[no_mangle] pub extern "C" fn h_random_skewed() {
    let mut r = Random::new(u32_("seed")); let l = range("max_log", 0, 31) as u32;
    check((r.skewed(l) as u64) < 1u64 << l, "skewed(l) is below 2^l"); cover("skewed");
}
#[no_mangle] pub extern "C" fn h_random_derived() {
    let s = u32_("seed"); let n = u32_("n"); assume(n > 0);
    let x = Random::new(s).next();
    check(Random::new(s).uniform(n) == x % n, "uniform(n) is the next number modulo n");
    check(Random::new(s).one_in(n) == (x % n == 0), "one_in(n) holds when the next number is a multiple of n");
    check(Random::new(s).next_bool() == (x % 2 == 0), "next_bool is one_in(2)");
    cover("derived");
}
/// the Lehmer generator x -> 16807 x mod (2^31 - 1) of LevelDB, where the product fits 32 bits
#[no_mangle] pub extern "C" fn h_random_lehmer() { let s = u32_("seed"); assume(s >= 1 && s <= 255_000); check(Random::new(s).next() as u64 == (s as u64 * 16807) % 2147483647, "the next number is 16807 times the seed modulo 2^31 - 1"); cover("lehmer"); }
/// ... and where it does not (known finding: the product is cut to 32 bits; any other value is another violation)
#[no_mangle] pub extern "C" fn h_random_lehmer_wide() {
    let s = u32_("seed"); assume(s > 255_000 && s < 2147483647); let x = Random::new(s).next();
    let p = s.wrapping_mul(16807); let mut cut = (p >> 31) + (p & 0x7fff_ffff); if cut > 0x7fff_ffff { cut -= 0x7fff_ffff; }
    let right = x as u64 == (s as u64 * 16807) % 2147483647;
    check(right | (x == cut), "the next number for a wide seed is the Lehmer value or the one of the product cut to 32 bits");
    check(right, "the next number is 16807 times a wide seed modulo 2^31 - 1"); cover("lehmer wide");
}
// ---------------------------------------------------------------- mutex
#[no_mangle] pub extern "C" fn h_mutex_seq() {
    let v = u32_("v"); let m = MutexLock::new(v); let (a, b) = (m.get_lock(), m.get_lock());
    { let mut g = a.lock().unwrap(); check(*g == v, "the lock guards the value given"); check(b.try_lock().is_err(), "a second handle cannot enter while the lock is held"); *g = v ^ 5; }
    check(*b.try_lock().unwrap() == v ^ 5, "a write under the lock is seen through every handle");
    cover("mutex");
}
