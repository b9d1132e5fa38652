use crate::sym::*;
use level_db_rust::util::coding::{varint_length, Decoder, Encoder};
use level_db_rust::util::slice::Slice;

// ---- independent reference
pub fn ref_varint(mut v: u64) -> Vec<u8> { let mut o = Vec::new(); while v > 127 { o.push((v & 127) as u8 + 128); v = v >> 7; } o.push(v as u8); o }
fn ref_fixed(v: u64, n: usize) -> Vec<u8> { let mut o = Vec::new(); let mut i = 0; while i < n { o.push((v >> (8 * i)) as u8); i += 1; } o }
/// LevelDB's rule: at most 5 (10) groups of 7 bits; None when the input ends first or the last allowed byte still says "more"
fn ref_get_varint(b: &[u8], at: usize, max: usize) -> Option<(u64, usize)> {
    let mut v: u128 = 0; let mut i = 0;
    while i < max { if at + i >= b.len() { return None; } let x = b[at + i]; v |= ((x & 127) as u128) << (7 * i); i += 1; if x < 128 { return Some((v as u64, at + i)); } }
    None
}

/// One value of one of the five encodings.
pub enum Op { F32(u32), F64(u64), V32(u32), V64(u64), Buf(Vec<u8>), Lps(Vec<u8>) }
fn some_op(kinds: usize) -> Op {
    match pick("kind", 0, kinds - 1) {
        0 => Op::F32(u32_("v")), 1 => Op::F64(u64_("v")), 2 => Op::V32(u32_("v")), 3 => Op::V64(u64_("v")),
        4 => { let n = pick("len", 0, 2); Op::Buf(vec("b", n)) }
        _ => { let n = pick("len", 0, 2); Op::Lps(vec("b", n)) }
    }
}
pub fn ref_enc(o: &Op) -> Vec<u8> {
    match o { Op::F32(v) => ref_fixed(*v as u64, 4), Op::F64(v) => ref_fixed(*v, 8), Op::V32(v) => ref_varint(*v as u64), Op::V64(v) => ref_varint(*v), Op::Buf(b) => b.clone(),
        Op::Lps(b) => { let mut x = ref_varint(b.len() as u64); x.extend_from_slice(b); x } }
}
pub fn put(e: &mut Encoder, o: &Op) -> bool {
    match o { Op::F32(v) => e.put_fixed32(*v).is_ok(), Op::F64(v) => e.put_fixed64(*v).is_ok(), Op::V32(v) => e.put_varint32(*v).is_ok(), Op::V64(v) => e.put_varint64(*v).is_ok(), Op::Buf(b) => e.put_buf(b).is_ok(),
        Op::Lps(b) => e.put_length_prefixed_slice(&Slice::from_vec(b.clone())).is_ok() }
}
pub fn uput(e: &mut Encoder, o: &Op) {
    unsafe { match o { Op::F32(v) => e.uncheck_put_fixed32(*v), Op::F64(v) => e.uncheck_put_fixed64(*v), Op::V32(v) => e.uncheck_put_varint32(*v), Op::V64(v) => e.uncheck_put_varint64(*v), Op::Buf(b) => e.uncheck_put_buf(b),
        Op::Lps(b) => e.uncheck_put_length_prefixed_slice(&Slice::from_vec(b.clone())) } }
}
pub fn get(d: &mut Decoder, o: &Op) {
    match o {
        Op::F32(v) => match d.get_fixed32() { Ok(x) => check(x == *v, "fixed32 decodes to the value put"), Err(_) => check(false, "get_fixed32 fails on encoded data") },
        Op::F64(v) => match d.get_fixed64() { Ok(x) => check(x == *v, "fixed64 decodes to the value put"), Err(_) => check(false, "get_fixed64 fails on encoded data") },
        Op::V32(v) => match d.get_varint32() { Ok(x) => check(x == *v, "varint32 decodes to the value put"), Err(_) => check(false, "get_varint32 fails on encoded data") },
        Op::V64(v) => match d.get_varint64() { Ok(x) => check(x == *v, "varint64 decodes to the value put"), Err(_) => check(false, "get_varint64 fails on encoded data") },
        Op::Buf(b) => match d.get_buf(b.len()) { Ok(x) => { check(eq(&x, b), "buf decodes to the bytes put"); if d.skip(b.len()).is_err() { check(false, "skip fails on encoded data") } } Err(_) => check(false, "get_buf fails on encoded data") },
        Op::Lps(b) => match d.get_length_prefixed_slice() { Ok(x) => check(eq(&x, b), "length-prefixed slice decodes to the bytes put"), Err(_) => check(false, "get_length_prefixed_slice fails on encoded data") },
    }
}
pub fn uget(d: &mut Decoder, o: &Op) {
    unsafe { match o {
        Op::F32(v) => check(d.uncheck_get_fixed32() == *v, "unchecked fixed32"), Op::F64(v) => check(d.uncheck_get_fixed64() == *v, "unchecked fixed64"),
        Op::V32(v) => check(d.uncheck_get_varint32() == *v, "unchecked varint32"), Op::V64(v) => check(d.uncheck_get_varint64() == *v, "unchecked varint64"),
        Op::Buf(b) => check(eq(&d.uncheck_get_buf(b.len()), b), "unchecked buf"), Op::Lps(b) => check(eq(&d.uncheck_get_length_prefixed_slice(), b), "unchecked length-prefixed slice"),
    } }
}

fn roundtrip(nops: usize) { let mut ops = Vec::new(); let mut i = 0; while i < nops { ops.push(some_op(6)); i += 1; } run(ops) }
/// writes and reads back `ops` in every container, checked and unchecked
pub fn run(ops: Vec<Op>) {
    let nops = ops.len(); let mut want = Vec::new(); let mut ends = Vec::new();
    let mut i = 0;
    while i < nops { want.extend_from_slice(&ref_enc(&ops[i])); ends.push(want.len()); i += 1; }
    let n = want.len();
    let mode = pick("container", 0, 2);
    let unchecked = bool_("unchecked");
    // the vec starts with `old` stale bytes that the encoder overwrites
    let old = if mode == 0 { pick("old", 0, 1) * 3 } else { n };
    let mut v = vec![0xEEu8; old];
    let mut s = Slice::from_vec(vec![0xEEu8; n]);
    let mut b = vec![0xEEu8; n];
    {
        let mut e = match mode { 0 => Encoder::with_vec(&mut v), 1 => Encoder::with_buf(&mut b), _ => Encoder::with_slice(&mut s) };
        let mut i = 0;
        while i < nops {
            if unchecked { uput(&mut e, &ops[i]); } else { check(put(&mut e, &ops[i]), "put into sufficient space succeeds"); }
            check(e.offset() == ends[i], "offset advances by the encoded length");
            i += 1;
        }
        if mode == 0 { check(e.len() == if old > n { old } else { n }, "a vec grows exactly as far as needed"); } else { check(e.len() == n, "len of a fixed buffer"); }
    }
    let out: &[u8] = match mode { 0 => &v, 1 => &b, _ => &s };
    check(eq(&out[..n], &want), "bytes written are the canonical encoding");
    if out.len() < 100_000 { observe_bytes("enc", out); } else { observe_bytes("enc", &out[..200]); observe_bytes("enc end", &out[out.len() - 200..]); }
    if old > n && mode == 0 { check(eq(&out[n..], &[0xEE, 0xEE, 0xEE][..old - n]), "bytes past the encoding are untouched"); }
    // decode through each view
    let view = pick("view", 0, 2);
    let outv = out[..n].to_vec();
    let outs = Slice::from_buf(&outv);
    let mut d = match view { 0 => Decoder::with_vec(&outv), 1 => Decoder::with_buf(&outv), _ => Decoder::with_slice(&outs) };
    check(d.limit() == n, "limit is the data length");
    let mut i = 0;
    while i < nops {
        check(d.can_get() == (d.offset() < n), "can_get");
        let empty_lps = false; let _ = empty_lps;
        if unchecked { uget(&mut d, &ops[i]) } else { get(&mut d, &ops[i]) }
        check(d.offset() == ends[i], "decoder offset follows the encoding");
        i += 1;
    }
    check(!d.can_get(), "nothing left after decoding everything");
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_coding_roundtrip1() { roundtrip(1) }
#[no_mangle]
pub extern "C" fn h_coding_roundtrip2() { roundtrip(2) }
#[no_mangle]
pub extern "C" fn h_coding_roundtrip_t() { roundtrip(3) }

/// every v: varint_length is the canonical length, varint32 and varint64 of the same number agree
#[no_mangle]
pub extern "C" fn h_coding_varint_len() {
    let v = u64_("v");
    let r = ref_varint(v);
    check(varint_length(v) == r.len(), "varint_length is the canonical length");
    if branch(v <= u32::MAX as u64) {
        let (mut a, mut b) = (Vec::new(), Vec::new());
        Encoder::with_vec(&mut a).put_varint32(v as u32).unwrap();
        Encoder::with_vec(&mut b).put_varint64(v).unwrap();
        check(eq(&a, &b), "varint32 and varint64 encode the same number the same way");
        cover("32");
    } else { cover("64"); }
}

/// create_decoder sees what the encoder wrote
#[no_mangle]
pub extern "C" fn h_coding_create_decoder() {
    let o = some_op(6);
    let r = ref_enc(&o);
    let mut v = Vec::new();
    let mut b = vec![0u8; r.len()];
    let mut s = Slice::from_vec(vec![0u8; r.len()]);
    let mut e = match pick("container", 0, 2) { 0 => Encoder::with_vec(&mut v), 1 => Encoder::with_buf(&mut b), _ => Encoder::with_slice(&mut s) };
    check(put(&mut e, &o), "put");
    let mut d = e.create_decoder();
    get(&mut d, &o);
    check(d.offset() == r.len() && d.limit() == r.len(), "decoder of an encoder spans its data");
    cover("end");
}

/// a fixed-size target: Ok exactly when the value fits, nothing outside is touched, a refused put changes nothing
#[no_mangle]
pub extern "C" fn h_coding_bounds() {
    let size = pick("size", 0, 11);
    let skip = pick("first", 0, size);
    let o = some_op(6);
    let want = ref_enc(&o);
    let kind = bool_("slice");
    let mut b = vec![0xEEu8; size];
    let mut s = Slice::from_vec(vec![0xEEu8; size]);
    let (ok, off);
    {
        let mut e = if kind { Encoder::with_slice(&mut s) } else { Encoder::with_buf(&mut b) };
        if e.put_buf(&[0x11u8; 11][..skip]).is_err() { check(false, "put_buf of what fits"); }
        ok = put(&mut e, &o);
        off = e.offset();
    }
    let out: &[u8] = if kind { &s } else { &b };
    let fits = skip + want.len() <= size;
    check(ok == fits, "put succeeds exactly when the encoding fits");
    let mut i = 0;
    while i < skip { check(out[i] == 0x11, "earlier bytes are kept"); i += 1; }
    if fits {
        check(off == skip + want.len(), "offset after put");
        check(eq(&out[skip..off], &want), "encoded bytes");
        let mut i = off;
        while i < size { check(out[i] == 0xEE, "later bytes are untouched"); i += 1; }
        cover("fits");
    } else {
        check(off <= size, "offset never passes the end");
        // the length of a length-prefixed slice may already have been written
        let lps = match &o { Op::Lps(_) => true, _ => false };
        if !lps { check(off == skip, "a refused put does not advance"); let mut i = skip; while i < size { check(out[i] == 0xEE, "a refused put writes nothing"); i += 1; } }
        cover("refused");
    }
}

/// arbitrary bytes, arbitrary requests: values and errors as the format defines, never past the limit
fn arbitrary(max: usize, nops: usize) {
    let n = pick("n", 0, max);
    let data = vec("d", n);
    let ds = Slice::from_buf(&data);
    let mut d = match pick("view", 0, 2) { 0 => Decoder::with_vec(&data), 1 => Decoder::with_buf(&data), _ => Decoder::with_slice(&ds) };
    let mut at = 0usize;
    let mut k = 0;
    while k < nops {
        k += 1;
        if !request(&mut d, &data, &mut at, pick("op", 0, 6)) { check(d.offset() >= at && d.offset() <= n, "a refused request leaves the position inside the data"); return; }
        check(d.offset() == at, "decoder offset");
        check(d.limit() == n && d.can_get() == (at < n), "limit and can_get");
    }
    cover("end");
}
/// one request at `at`; false after an error
pub fn request(d: &mut Decoder, data: &[u8], at_: &mut usize, op: usize) -> bool {
    let n = data.len(); let mut at = *at_;
        match op {
            0 => { let fits = at + 4 <= n; match d.get_fixed32() { Ok(v) => { check(fits, "get_fixed32 past the end"); check(v == u32::from_le_bytes([data[at], data[at + 1], data[at + 2], data[at + 3]]), "fixed32 value"); at += 4; cover("f32"); } Err(_) => { check(!fits, "get_fixed32 refuses data that is there"); return false; } } }
            1 => { let fits = at + 8 <= n; match d.get_fixed64() { Ok(v) => { check(fits, "get_fixed64 past the end"); let mut w = 0u64; let mut i = 0; while i < 8 { w |= (data[at + i] as u64) << (8 * i); i += 1; } check(v == w, "fixed64 value"); at += 8; cover("f64"); } Err(_) => { check(!fits, "get_fixed64 refuses data that is there"); return false; } } }
            2 => { let r = ref_get_varint(data, at, 5); match (d.get_varint32(), r) { (Ok(v), Some((w, e))) => { check(v == w as u32, "varint32 value"); at = e; cover("v32"); } (Ok(_), None) => { check(false, "get_varint32 accepts a truncated varint"); return false; } (Err(_), Some(_)) => { check(false, "get_varint32 refuses a complete varint"); return false; } (Err(_), None) => { cover("v32err"); return false; } } }
            3 => { let r = ref_get_varint(data, at, 10); match (d.get_varint64(), r) { (Ok(v), Some((w, e))) => { check(v == w, "varint64 value"); at = e; cover("v64"); } (Ok(_), None) => { check(false, "get_varint64 accepts a truncated varint"); return false; } (Err(_), Some(_)) => { check(false, "get_varint64 refuses a complete varint"); return false; } (Err(_), None) => { cover("v64err"); return false; } } }
            4 => {
                let r = ref_get_varint(data, at, 5);
                match d.get_length_prefixed_slice() {
                    Ok(s) => match r {
                        None => { check(false, "get_length_prefixed_slice accepts a truncated length"); return false; }
                        Some((len, e)) => { let len = len as u32 as usize; check(len <= n - e, "length-prefixed slice longer than the data"); let len = concretize(len as u64) as usize; check(eq(&s, &data[e..e + len]), "length-prefixed content"); at = e + len; cover("lps"); }
                    },
                    Err(_) => { if let Some((len, e)) = r { check(len as u32 as usize > n - e, "get_length_prefixed_slice refuses data that is there"); } cover("lpserr"); return false; }
                }
            }
            5 => {
                let len = u64_("len") as usize;
                match d.get_buf(len) {
                    Ok(s) => { check(len <= n - at, "get_buf past the end"); let len = concretize(len as u64) as usize; check(eq(&s, &data[at..at + len]), "get_buf content"); at = d.offset(); check(at <= n, "offset stays within the limit"); cover("buf"); }
                    Err(_) => { check(len > n - at, "get_buf refuses data that is there"); cover("buferr"); return false; }
                }
            }
            _ => {
                let len = u64_("len") as usize;
                match d.skip(len) {
                    Ok(o) => { check(len <= n - at, "skip past the end"); let len = concretize(len as u64) as usize; at += len; check(o == at, "skip returns the new offset"); cover("skip"); }
                    Err(_) => { check(len > n - at, "skip refuses data that is there"); cover("skiperr"); return false; }
                }
            }
        }
    *at_ = at; true
}
#[no_mangle]
pub extern "C" fn h_decoding_arbitrary() { arbitrary(12, 1) }
#[no_mangle]
pub extern "C" fn h_decoding_arbitrary2() { arbitrary(7, 2) }
#[no_mangle]
pub extern "C" fn h_decoding_arbitrary_t() { arbitrary(7, 3) }
