use crate::sym::*;
use level_db_rust::table::filter_block::{FilterBlock, FilterBlockBuilder};
use level_db_rust::traits::filter_policy_trait::{FilterPolicy, FilterPolicyPtr};
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::slice::Slice;
use std::sync::Arc;

/// A policy whose filter spells out its keys (count, then length and bytes of each), so that the block shows which keys went where.
pub struct Spell;
impl FilterPolicy for Spell {
    fn name(&self) -> String { String::from("spell") }
    fn create_filter(&self, keys: Vec<&Slice>) -> Slice { let mut o = vec![keys.len() as u8]; for k in keys { o.push(k.len() as u8); o.extend_from_slice(k); } Slice::from_vec(o) }
    fn create_filter_with_len(&self, _c: usize, keys: Vec<&Slice>) -> Slice { self.create_filter(keys) }
    fn key_may_match(&self, _k: &Slice, _f: &Slice) -> bool { true }
}
/// LevelDB's layout: filters, then fixed32 offset of each filter, fixed32 offset of the offset array, base_lg = 11.
pub struct Model { pub out: Vec<u8>, pub offs: Vec<u32>, pub pend: Vec<Vec<u8>> }
impl Model {
    pub fn gen(&mut self, p: &dyn FilterPolicy) {
        self.offs.push(self.out.len() as u32);
        if self.pend.is_empty() { return; }
        let ks: Vec<Slice> = self.pend.drain(..).map(Slice::from_vec).collect();
        let f = p.create_filter(ks.iter().collect());
        self.out.extend_from_slice(&f);
    }
    pub fn finish(&mut self, p: &dyn FilterPolicy) -> Vec<u8> {
        if !self.pend.is_empty() { self.gen(p); }
        let at = self.out.len() as u32; let mut o = self.out.clone();
        for x in &self.offs { o.extend_from_slice(&x.to_le_bytes()); }
        o.extend_from_slice(&at.to_le_bytes()); o.push(11); o
    }
}
#[inline(never)]
fn filters(blocks: usize, keys: usize, klen: usize, step: u64, bloom: bool) {
    let mk = || -> Box<dyn FilterPolicy> { if bloom { Box::new(BloomFilterPolicy::new_with_bits_per_key(1)) } else { Box::new(Spell) } };
    let pol: FilterPolicyPtr = Arc::new(mk()); let p = mk();
    let mut b = FilterBlockBuilder::new_with_policy(pol);
    let mut m = Model { out: vec![], offs: vec![], pend: vec![] };
    let nb = pick("blocks", 0, blocks); let mut off = 0u64; let mut i = 0;
    while i < nb {
        // block offsets grow; any distance, including several filter ranges at once
        let d = range("step", 0, step); off += d;
        b.start_block(off);
        while (off / 2048) > m.offs.len() as u64 { m.gen(&*p); }
        let nk = pick("keys", 0, keys); let mut j = 0;
        while j < nk { let n = pick("klen", 0, klen); let k = vec("k", n); b.add_key(&Slice::from_vec(k.clone())); m.pend.push(k); j += 1; }
        i += 1;
    }
    let want = m.finish(&*p);
    match b.finish() { Ok(s) => { check(s.len() == want.len(), "filter block has the size of filters, offset array and trailer"); check(eq(&s, &want), "filter block is filters, offsets, array offset, base_lg"); } Err(_) => check(false, "finish fails") }
    check(b.get_tmp_filter_offsets() == m.offs, "one offset per 2 KiB range");
    cover("filter block");
}
#[no_mangle] pub extern "C" fn h_filter_block() { filters(2, 2, 1, 5000, false) }
#[no_mangle] pub extern "C" fn h_filter_block3() { filters(3, 1, 1, 4100, false) }
#[no_mangle] pub extern "C" fn h_filter_block_bloom() { filters(1, 1, 1, 2047, true) }
#[no_mangle] pub extern "C" fn h_filter_block_t() { filters(3, 2, 2, 7000, false) }
