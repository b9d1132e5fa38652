use crate::sym::*;
use crate::hashes::ref_crc;
use level_db_rust::db::log_reader::{LogReader, SeekableReader};
use level_db_rust::db::log_writer::LogWriter;
use level_db_rust::util::slice::Slice;
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

const BLOCK: usize = 32768;
/// independent reference of the log format
fn ref_log(recs: &[Vec<u8>]) -> Vec<u8> { ref_log_at(recs).0 }
/// the file, and where each record's first fragment starts
fn ref_log_at(recs: &[Vec<u8>]) -> (Vec<u8>, Vec<usize>) {
    let mut o: Vec<u8> = Vec::new(); let mut r = 0; let mut starts = Vec::new();
    while r < recs.len() {
        let d = &recs[r]; let mut at = 0; let mut first = true;
        loop {
            let mut room = BLOCK - o.len() % BLOCK;
            if room < 7 { let mut k = 0; while k < room { o.push(0); k += 1; } room = BLOCK; }
            if first { starts.push(o.len()); }
            let n = if d.len() - at < room - 7 { d.len() - at } else { room - 7 };
            let last = at + n == d.len();
            let ty: u8 = if first { if last { 1 } else { 2 } } else if last { 4 } else { 3 };
            push_fragment(&mut o, ty, &d[at..at + n]);
            at += n; first = false;
            if last { break; }
        }
        r += 1;
    }
    (o, starts)
}
fn push_fragment(o: &mut Vec<u8>, ty: u8, d: &[u8]) {
    let c = ref_crc(ref_crc(0, &[ty]), d);
    let m = c.rotate_right(15).wrapping_add(0xa282ead8);
    o.extend_from_slice(&m.to_le_bytes()); o.push(d.len() as u8); o.push((d.len() >> 8) as u8); o.push(ty);
    o.extend_from_slice(d);
}
/// a file in memory; may accept or deliver fewer bytes than asked, as Write and Read allow
struct Sink { out: Rc<RefCell<Vec<u8>>>, short: bool }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = if self.short && b.len() > 1 && bool_("short_write") { self.short = false; 1 + pick("accepted", 0, 1) * (b.len() / 2) } else { b.len() };
        let n = if n > b.len() { b.len() } else { n };
        self.out.borrow_mut().extend_from_slice(&b[..n]); Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
struct Src { d: Vec<u8>, at: usize, short: bool }
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut n = if self.d.len() - self.at < b.len() { self.d.len() - self.at } else { b.len() };
        if self.short && n > 1 && bool_("short_read") { self.short = false; n = 1 + pick("delivered", 0, 1) * (n / 2); if n > self.d.len() - self.at { n = self.d.len() - self.at; } }
        b[..n].copy_from_slice(&self.d[self.at..self.at + n]); self.at += n; Ok(n)
    }
}
impl Seek for Src { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { if let SeekFrom::Start(x) = p { self.at = if x as usize > self.d.len() { self.d.len() } else { x as usize }; } Ok(self.at as u64) } }
impl SeekableReader for Src {}
fn src(d: Vec<u8>, short: bool) -> Box<dyn SeekableReader> { Box::new(Src { d, at: 0, short }) }
fn write_all(recs: &[Vec<u8>], short: bool) -> Vec<u8> {
    let out = Rc::new(RefCell::new(Vec::new()));
    let mut w = LogWriter::new(Box::new(Sink { out: out.clone(), short }));
    let mut i = 0; while i < recs.len() { if w.add_record(Slice::from_vec(recs[i].clone())).is_err() { check(false, "add_record fails on a working file"); } i += 1; }
    drop(w);
    let r = out.borrow().clone(); r
}
/// symbolic bytes where they matter (both ends), a pattern in between
fn rec(n: usize) -> Vec<u8> { let mut v = pattern(n); let mut i = 0; while i < n && i < 3 { v[n - 1 - i] = u8_("r"); i += 1; } v }
/// a record that brings the block offset to `at` (at >= 7)
fn filler(at: usize) -> Vec<u8> { pattern(at - 7) }

// ---- C11
#[inline(never)]
fn roundtrip(recs: &[Vec<u8>], short: bool) {
    let file = write_all(recs, short);
    let want = ref_log(recs);
    check(file.len() == want.len() && eq(&file, &want), "the file is the LevelDB log format of the records");
    let mut r = LogReader::new(src(want, short), true, 0);
    let mut i = 0;
    while i < recs.len() {
        match r.read_next() {
            Ok(Some(s)) => { check(s.len() == recs[i].len(), "a record comes back with its length"); check(eq(&s, &recs[i]), "a record comes back with its bytes"); }
            Ok(None) => { check(false, "a record written is missing"); return; }
            Err(_) => { check(false, "a record written is reported corrupt"); return; }
        }
        i += 1;
    }
    match r.read_next() { Ok(None) => {} Ok(Some(_)) => check(false, "a record that was never written"), Err(_) => check(false, "the end of the log is reported corrupt") }
    cover("log round trip");
}
fn small(max: usize) -> Vec<u8> { let n = pick("rlen", 0, max); rec(n) }
#[no_mangle] pub extern "C" fn h_log_small() { let n = pick("recs", 0, 3); let mut v = Vec::new(); let mut i = 0; while i < n { v.push(small(3)); i += 1; } roundtrip(&v, false) }
#[no_mangle] pub extern "C" fn h_log_short() { let n = pick("recs", 1, 2); let mut v = Vec::new(); let mut i = 0; while i < n { v.push(small(2)); i += 1; } roundtrip(&v, true) }
/// two records around a block boundary: every distance of the second record's header from the boundary
#[no_mangle] pub extern "C" fn h_log_boundary() { let at = pick("at", BLOCK - 17, BLOCK); let v = vec![filler(at), small(5)]; roundtrip(&v, false) }
#[no_mangle] pub extern "C" fn h_log_boundary_t() { let at = pick("at", BLOCK - 24, BLOCK); let v = vec![filler(at), small(8), small(2)]; roundtrip(&v, true) }
/// a record over three or more blocks, between two small ones
#[no_mangle] pub extern "C" fn h_log_large() {
    let a = small(1); let m = pick("blocks", 1, 2); let d = pick("extra", 0, 16);
    let big = rec(m * (BLOCK - 7) - 8 + d);
    let v = vec![a, big, small(1)];
    roundtrip(&v, false)
}
/// a record over many blocks
#[no_mangle] pub extern "C" fn h_log_huge() { let v = vec![small(1), rec(one_of_blocks() * (BLOCK - 7) + pick("extra", 0, 1) * 900), small(1)]; roundtrip(&v, false) }
fn one_of_blocks() -> usize { [5, 9][pick("blocks", 0, 1)] }
// ---- C12 torn tail: the log cut anywhere
#[inline(never)]
fn torn(recs: &[Vec<u8>], lo: usize) {
    let file = ref_log(recs);
    let cut = pick("cut", if lo < file.len() { lo } else { 0 }, file.len());
    // how many records are complete within the cut
    let mut k = 0; while k < recs.len() && ref_log(&recs[..k + 1]).len() <= cut { k += 1; }
    let mut r = LogReader::new(src(file[..cut].to_vec(), false), true, 0);
    let mut i = 0;
    while i < k {
        match r.read_next() { Ok(Some(s)) => check(eq(&s, &recs[i]), "complete records before the cut come back"), _ => { check(false, "a complete record before the cut is lost"); return; } }
        i += 1;
    }
    let mut t = 0;
    while t < 4 { match r.read_next() { Ok(Some(_)) => { check(false, "a torn record is returned"); return; } Ok(None) => break, Err(_) => {} } t += 1; }
    check(t < 4, "the reader reaches the end of a torn log");
    cover("torn log");
}
#[no_mangle] pub extern "C" fn h_log_torn() { let n = pick("recs", 1, 3); let mut v = Vec::new(); let mut i = 0; while i < n { v.push(small(3)); i += 1; } torn(&v, 0) }
#[no_mangle] pub extern "C" fn h_log_torn_boundary() { let at = pick("at", BLOCK - 9, BLOCK - 6); let v = vec![filler(at), rec(4)]; torn(&v, at - 1) }
/// damage: one byte anywhere except a length field xored with anything
#[inline(never)]
fn damaged(recs: &[Vec<u8>], lo: usize) {
    let mut file = ref_log(recs); let n = file.len();
    let p = pick("pos", lo, n - 1); let x = u8_("xor"); assume(x != 0);
    // where does the damaged fragment start, and does the byte belong to its length field or to block padding
    let mut o = 0; let mut is_len = false; let mut pad = false;
    loop {
        let room = BLOCK - o % BLOCK;
        if room < 7 { if p < o + room { pad = true; break; } o += room; }
        let l = file[o + 4] as usize + ((file[o + 5] as usize) << 8);
        if p < o + 7 + l { is_len = p == o + 4 || p == o + 5; break; }
        o += 7 + l;
    }
    assume(!is_len);
    file[p] ^= x;
    let mut r = LogReader::new(src(file, false), true, 0);
    let mut i = 0; let mut errs = 0; let mut t = 0;
    while t < recs.len() + 6 {
        match r.read_next() {
            Ok(Some(s)) => {
                // every record returned is one of the written ones, in order
                let mut j = i; while j < recs.len() && !(s.len() == recs[j].len() && branch(eq(&s, &recs[j]))) { j += 1; }
                if j == recs.len() { check(false, "a record that was never written"); return; }
                i = j + 1;
            }
            Ok(None) => break,
            Err(_) => errs += 1,
        }
        t += 1;
    }
    check(t < recs.len() + 6, "the reader reaches the end of a damaged log");
    if pad { check(i == recs.len() && errs == 0, "damaged padding loses nothing"); }
    else { check(errs > 0, "a damaged record is reported"); }
    cover("damaged log");
}
#[no_mangle] pub extern "C" fn h_log_damaged() { let a = vec![pattern(2), vec![9, 8, 7], pattern(1)]; damaged(&a, 0) }
#[no_mangle] pub extern "C" fn h_log_damaged_boundary() { let at = pick("at", BLOCK - 9, BLOCK - 4); let v = vec![filler(at), vec![1, 2, 3, 4], vec![5]]; damaged(&v, at) }
/// arbitrary bytes as a log file: the reader never panics and always reaches the end
#[inline(never)]
fn arbitrary(min: usize, max: usize) {
    let n = pick("n", min, max); let d = vec("f", n);
    let c = bool_("checksum");
    let mut r = LogReader::new(src(d, false), c, 0);
    let mut t = 0;
    while t < n + 2 { match r.read_next() { Ok(None) => break, Ok(Some(s)) => check(s.len() + 7 <= n, "a record no longer than the file"), Err(_) => {} } t += 1; }
    check(t < n + 2, "the reader reaches the end of any file");
    match r.read_next() { Ok(None) => {} _ => check(false, "the end of the log stays the end") }
    cover("arbitrary log");
}
#[no_mangle] pub extern "C" fn h_log_arbitrary() { arbitrary(0, 16) }
#[no_mangle] pub extern "C" fn h_log_arbitrary_t() { arbitrary(17, 22) }

// ---- faults: a read or write call that fails
/// delivers bytes up to `stop`, fails once there with `kind`, then goes on
struct Failing { d: Vec<u8>, at: usize, stop: usize, kind: io::ErrorKind, done: bool }
impl Read for Failing {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if !self.done && self.at >= self.stop { self.done = true; return Err(io::Error::from(self.kind)); }
        let end = if self.done { self.d.len() } else { self.stop };
        let mut n = end - self.at; if n > b.len() { n = b.len(); }
        b[..n].copy_from_slice(&self.d[self.at..self.at + n]); self.at += n; Ok(n)
    }
}
impl Seek for Failing { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { if let SeekFrom::Start(x) = p { self.at = x as usize; } Ok(self.at as u64) } }
impl SeekableReader for Failing {}
/// records that hold what looks like a record: a reader that loses its place would return it
fn nested() -> Vec<Vec<u8>> { let mut evil = vec![]; push_fragment(&mut evil, 1, b"evil"); let mut a = pattern(2); a.extend_from_slice(&evil); vec![a, vec![7, 7], evil] }
#[no_mangle] pub extern "C" fn h_log_read_fault() {
    let recs = nested(); let file = ref_log(&recs);
    let stop = pick("stop", 0, file.len()); let intr = branch(bool_("interrupted"));
    let kind = if intr { io::ErrorKind::Interrupted } else { io::ErrorKind::Other };
    let mut r = LogReader::new(Box::new(Failing { d: file, at: 0, stop, kind, done: false }), true, 0);
    let mut i = 0; let mut errs = 0; let mut t = 0;
    while t < 9 {
        match r.read_next() {
            Ok(Some(s)) => { let mut j = i; while j < recs.len() && !(s.len() == recs[j].len() && eq(&s, &recs[j])) { j += 1; } if j == recs.len() { check(false, "after a failed read only records that were written come back"); return; } i = j + 1; }
            Ok(None) => break,
            Err(_) => errs += 1,
        }
        t += 1;
    }
    check(t < 9, "the reader reaches an end after a failed read");
    if intr { check(i == recs.len() && errs == 0, "an interrupted read is retried and loses nothing"); } else { check(errs > 0, "a failed read is reported"); }
    cover("read fault");
}
/// fails the n-th call (of write and flush)
struct BadSink { out: Rc<RefCell<Vec<u8>>>, n: usize, hit: Rc<RefCell<bool>>, intr: bool }
impl BadSink { fn fails(&mut self) -> Option<io::Error> { if self.n == 0 { self.n = usize::MAX; if !self.intr { *self.hit.borrow_mut() = true; } return Some(io::Error::from(if self.intr { io::ErrorKind::Interrupted } else { io::ErrorKind::Other })); } if self.n != usize::MAX { self.n -= 1; } None } }
impl Write for BadSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { if let Some(e) = self.fails() { return Err(e); } self.out.borrow_mut().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { if self.intr { return Ok(()); } if let Some(e) = self.fails() { return Err(e); } Ok(()) }
}
#[no_mangle] pub extern "C" fn h_log_write_fault() {
    let recs = vec![filler(BLOCK - pick("room", 5, 9)), vec![1, 2, 3, 4], vec![5]];
    let out = Rc::new(RefCell::new(Vec::new())); let hit = Rc::new(RefCell::new(false)); let intr = branch(bool_("interrupted"));
    let mut w = LogWriter::new(Box::new(BadSink { out: out.clone(), n: pick("call", 0, 12), hit: hit.clone(), intr }));
    let mut k = 0; let mut failed = false;
    while k < recs.len() {
        let ok = w.add_record(Slice::from_vec(recs[k].clone())).is_ok();
        check(ok != *hit.borrow(), "a record is accepted exactly when everything was written");
        if !ok { failed = true; break; } k += 1;
    }
    let want = ref_log(&recs[..k]); let got = out.borrow();
    check(got.len() >= want.len() && eq(&got[..want.len()], &want), "records accepted before the failure are in the file");
    check(failed || got.len() == want.len(), "nothing else is written");
    cover("write fault");
}
// ---- a reader that starts at an offset
#[no_mangle] pub extern "C" fn h_log_offset() {
    let recs = vec![filler(BLOCK - 300), pattern(500), vec![1, 2], pattern(BLOCK), pattern(30), vec![3]];
    let (file, starts) = ref_log_at(&recs);
    let off = range("offset", 0, file.len() as u64) as usize;
    // the block of the offset; an offset in the last six bytes of a block, where no record can start, counts for the next
    let start = concretize((off / BLOCK * BLOCK + if branch(off % BLOCK > BLOCK - 6) { BLOCK } else { 0 }) as u64) as usize;
    let mut r = LogReader::new(src(file, false), true, off);
    let mut i = 0; while i < recs.len() && starts[i] < start { i += 1; }
    let mut t = 0;
    while t < 12 {
        match r.read_next() {
            Ok(Some(s)) => { if i == recs.len() { check(false, "a record before the offset's block is returned"); return; } check(s.len() == recs[i].len() && eq(&s, &recs[i]), "the records that start in the offset's block or later come back in order"); i += 1; }
            Ok(None) => break,
            Err(_) => {}
        }
        t += 1;
    }
    check(t < 12 && i == recs.len(), "every record that starts in the offset's block or later comes back");
    cover("log offset");
}

/// a file of any size: holes, and one block with the given contents at `at`
struct Far { d: Vec<u8>, at: u64, pos: u64 }
impl Read for Far {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if !branch(self.pos >= self.at) { check(false, "the reader starts before the offset's block"); return Ok(0); }
        if !branch(self.pos - self.at < self.d.len() as u64) { return Ok(0); }
        let o = concretize(self.pos - self.at) as usize; let mut n = self.d.len() - o; if n > b.len() { n = b.len(); }
        b[..n].copy_from_slice(&self.d[o..o + n]); self.pos += n as u64; Ok(n)
    }
}
impl Seek for Far { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { if let SeekFrom::Start(x) = p { self.pos = x; } Ok(self.pos) } }
impl SeekableReader for Far {}
/// any offset, in a log of any size
#[no_mangle] pub extern "C" fn h_log_offset_far() {
    let recs = vec![pattern(20), vec![1, 2], pattern(BLOCK), vec![3]]; let (file, _) = ref_log_at(&recs);
    let off = range("offset", 0, 1 << 62); let mut start = off & !(BLOCK as u64 - 1);
    if branch(off - start > BLOCK as u64 - 6) { start += BLOCK as u64; }
    let mut r = LogReader::new(Box::new(Far { d: file, at: start, pos: 0 }), true, off as usize);
    let mut i = 0;
    while i < recs.len() { match r.read_next() { Ok(Some(s)) => check(s.len() == recs[i].len() && eq(&s, &recs[i]), "the records that start in the offset's block or later come back in order"), _ => { check(false, "every record that starts in the offset's block or later comes back"); return; } } i += 1; }
    match r.read_next() { Ok(None) => {} _ => check(false, "a record that was never written") }
    cover("far offset");
}

/// an altered length field: a record holds what looks like a record, so a reader that trusts the length would return it
#[no_mangle] pub extern "C" fn h_log_damaged_length() {
    let mut evil = vec![]; push_fragment(&mut evil, 1, b"evil"); push_fragment(&mut evil, 4, b"end");
    let mut a = pattern(pick("before", 2, 4)); a.extend_from_slice(&evil); a.extend_from_slice(&[9, 9]);
    // within one block, or fragmented so that the piece with the false record is the last one
    let recs = if branch(bool_("fragmented")) { let mut b = vec![1, 2]; b.extend_from_slice(&a); vec![filler(BLOCK - 9), b, vec![7, 7], a, vec![5]] } else { vec![vec![1], a.clone(), vec![7, 7], a, vec![5]] };
    let (mut file, starts) = ref_log_at(&recs);
    let mut frags = vec![]; let mut o = 0;
    while o < file.len() { let room = BLOCK - o % BLOCK; if room < 7 { o += room; } else { frags.push(o); o += 7 + file[o + 4] as usize + ((file[o + 5] as usize) << 8); } }
    let f = frags[pick("fragment", 0, frags.len() - 1)]; let (x, y) = (u8_("low"), u8_("high")); assume(x != 0 || y != 0);
    if file[f + 5] != 0 { let (c, d) = [(1, 0), (0, 1), (4, 0), (7, 127), (0, 128)][pick("large", 0, 4)]; assume(x == c && y == d); }
    file[f + 4] ^= x; file[f + 5] ^= y;
    let mut r = LogReader::new(src(file, false), true, 0);
    let mut i = 0; let mut t = 0; let mut upto = 0; while upto + 1 < recs.len() && starts[upto + 1] <= f { upto += 1; }
    while t < recs.len() + 6 {
        match r.read_next() {
            Ok(Some(s)) => { let mut j = i; while j < recs.len() && !(s.len() == recs[j].len() && branch(eq(&s, &recs[j]))) { j += 1; } if j == recs.len() { check(false, "a record that was never written"); return; } if j > i { check(i >= upto, "records before the damage come back"); } i = j + 1; }
            Ok(None) => break,
            Err(_) => check(i >= upto, "records before the damage come back"),
        }
        t += 1;
    }
    check(t < recs.len() + 6, "the reader reaches the end of a damaged log"); check(i >= upto, "records before the damage come back");
    cover("damaged length");
}

/// a record over several blocks, cut near a block boundary or in the middle of a block
#[no_mangle] pub extern "C" fn h_log_torn_large() {
    let recs = vec![small(1), rec(3 * BLOCK + 100), vec![1]]; let file = ref_log(&recs);
    let cut = match pick("kind", 0, 2) { 0 => pick("block", 1, 3) * BLOCK - 8 + pick("near", 0, 17), 1 => pick("block", 0, 3) * BLOCK + 9 + 40 * pick("mid", 0, 1), _ => file.len() - pick("end", 0, 9) };
    let mut k = 0; while k < recs.len() && ref_log(&recs[..k + 1]).len() <= cut { k += 1; }
    let mut r = LogReader::new(src(file[..cut].to_vec(), false), true, 0); let mut i = 0;
    while i < k { match r.read_next() { Ok(Some(s)) => check(s.len() == recs[i].len() && eq(&s, &recs[i]), "complete records before the cut come back"), _ => { check(false, "a complete record before the cut is lost"); return; } } i += 1; }
    let mut t = 0; while t < 6 { match r.read_next() { Ok(Some(_)) => { check(false, "a torn record is returned"); return; } Ok(None) => break, Err(_) => {} } t += 1; }
    check(t < 6, "the reader reaches the end of a torn log"); cover("torn large record");
}
