//! Unsigned intervals of terms under the path condition: bounds learned from the comparisons on the
//! path, propagated through the term.  Decides many branches without the solver; sound, never guesses.
use crate::expr::{mask, Arena, Id, Kind, Op};
use std::collections::HashMap;

#[derive(Default)]
pub struct Iv { b: HashMap<Id, (u128, u128)>, memo: HashMap<Id, (u128, u128)>, fixed: HashMap<Id, u128>, left: u32, deep: u32 }

const LIMIT: u32 = 3000;

impl Iv {
    pub fn clear(&mut self) { self.b.clear(); self.memo.clear(); self.fixed.clear(); self.deep = 0; }
    /// what `c` being `t` says about its parts
    pub fn learn(&mut self, ar: &Arena, c: Id, t: bool) {
        if ar.nodes[c as usize].fp { return; }
        self.set(ar, c, t as u128, t as u128);
    }
    fn parts(&mut self, ar: &Arena, c: Id, t: bool) {
        let n = ar.nodes[c as usize];
        if n.w != 1 || n.fp { return; }
        if let Kind::Bin(op, x, y) = n.k {
            match op {
                Op::Xor => { if let Some(k) = ar.is_const(y) { self.learn(ar, x, t ^ (k & 1 == 1)); } else if let Some(k) = ar.is_const(x) { self.learn(ar, y, t ^ (k & 1 == 1)); } }
                Op::And if t => { self.learn(ar, x, true); self.learn(ar, y, true); }
                Op::Or if !t => { self.learn(ar, x, false); self.learn(ar, y, false); }
                Op::Ult | Op::Ule => {
                    let (xi, yi) = (self.get(ar, x), self.get(ar, y));
                    let strict = (op == Op::Ult) == t;
                    // t: x < y (or <=); otherwise y <= x (or <)
                    let (s, l, si, li) = if t { (x, y, xi, yi) } else { (y, x, yi, xi) };
                    let d = strict as u128;
                    if li.1 < d { return; }
                    self.set(ar, s, 0, li.1 - d);
                    self.set(ar, l, si.0.saturating_add(d), mask(ar.w(l)));
                }
                Op::Eq if t => { let (xi, yi) = (self.get(ar, x), self.get(ar, y)); self.set(ar, x, yi.0, yi.1); self.set(ar, y, xi.0, xi.1); }
                Op::Eq => {
                    for (p, q) in [(x, y), (y, x)] { if let Some(k) = ar.is_const(q) { let i = self.get(ar, p); if i.0 == k && k < i.1 { self.set(ar, p, k + 1, i.1); } else if i.1 == k && k > i.0 { self.set(ar, p, i.0, k - 1); } } }
                }
                _ => {}
            }
        }
    }
    fn set(&mut self, ar: &Arena, x: Id, lo: u128, hi: u128) {
        if ar.is_const(x).is_some() { return; }
        let (l0, h0) = self.get(ar, x);
        let (l, h) = (l0.max(lo), h0.min(hi));
        if l > h || (l, h) == (l0, h0) { return; }
        self.b.insert(x, (l, h));
        self.memo.clear();
        if self.deep > 60 { return; }
        self.deep += 1;
        self.back(ar, x, l, h);
        self.deep -= 1;
    }
    /// what `x` lying in [l, h] says about its operands
    fn back(&mut self, ar: &Arena, x: Id, l: u128, h: u128) {
        let n = ar.nodes[x as usize];
        if n.fp { return; }
        let m = mask(n.w);
        match n.k {
            _ if n.w == 1 && l == h && !matches!(n.k, Kind::Extract(..) | Kind::Ite(..) | Kind::ZExt(..)) => self.parts(ar, x, l == 1),
            Kind::ZExt(y) => self.set(ar, y, l, h),
            Kind::SExt(y) => if h <= mask(ar.w(y)) >> 1 { self.set(ar, y, l, h) },
            Kind::Extract(y, lo) => { let q = self.get(ar, y); if q.1 >> lo <= m { self.set(ar, y, l << lo, (h << lo) | if lo == 0 { 0 } else { mask(lo) }) } }
            Kind::Concat(a, b) => {
                let w = ar.w(b);
                self.set(ar, a, l >> w, h >> w);
                if l >> w == h >> w { self.set(ar, b, l & mask(w), h & mask(w)); }
            }
            Kind::Ite(c, a, b) => {
                let (p, q) = (self.get(ar, a), self.get(ar, b));
                let (na, nb) = (p.1 < l || p.0 > h, q.1 < l || q.0 > h);
                if na && !nb { self.learn(ar, c, false); self.set(ar, b, l, h); }
                else if nb && !na { self.learn(ar, c, true); self.set(ar, a, l, h); }
            }
            Kind::Bin(op, y, z) if n.w < 128 => match (op, ar.is_const(y), ar.is_const(z)) {
                (Op::Add, Some(c), None) => self.back_add(ar, z, c, l, h, m),
                (Op::Add, None, Some(c)) => self.back_add(ar, y, c, l, h, m),
                (Op::Sub, None, Some(c)) => self.back_add(ar, y, c.wrapping_neg() & m, l, h, m),
                (Op::Sub, Some(c), None) => if c >= h { self.set(ar, z, c - h, c - l) },
                (Op::UDiv, None, Some(c)) if c > 0 => if let (Some(a), Some(b)) = (l.checked_mul(c), h.checked_mul(c)) { self.set(ar, y, a, b.saturating_add(c - 1)) },
                (Op::LShr, None, Some(c)) if c > 0 && c < n.w as u128 => if h <= m >> c { self.set(ar, y, l << c, (h << c) | mask(c as u16)) },
                (Op::Shl, None, Some(c)) if c < n.w as u128 => if self.get(ar, y).1 <= m >> c { self.set(ar, y, (l >> c) + (l & ((1 << c) - 1) != 0) as u128, h >> c) },
                (Op::Mul, None, Some(c)) | (Op::Mul, Some(c), None) if c > 0 => {
                    let y = if ar.is_const(y).is_some() { z } else { y };
                    if self.get(ar, y).1.checked_mul(c).map_or(false, |v| v <= m) { self.set(ar, y, l / c + (l % c != 0) as u128, h / c) }
                }
                (Op::Or, Some(c), None) | (Op::Or, None, Some(c)) => {
                    let y = if ar.is_const(y).is_some() { z } else { y };
                    // y <= y|c <= y+c; where the constant is below the granule of the bound it does not matter
                    let g = if c == 0 { 0 } else { mask(128 - c.leading_zeros() as u16) };
                    self.set(ar, y, if l & g == 0 { l } else { l.saturating_sub(c) }, h)
                }
                _ => {}
            },
            _ => {}
        }
    }
    /// b is the low part of a, and a (at most `hi`) has no more than that
    fn same(&self, ar: &Arena, a: Id, b: Id, hi: u128) -> bool {
        let mut b = b;
        if let Kind::ZExt(x) = ar.nodes[b as usize].k { b = x; }
        matches!(ar.nodes[b as usize].k, Kind::Extract(y, 0) if y == a && hi <= mask(ar.w(b)))
    }
    fn back_add(&mut self, ar: &Arena, y: Id, c: u128, l: u128, h: u128, m: u128) {
        // y = x - c
        if l >= c { self.set(ar, y, l - c, h - c) } else if h < c { self.set(ar, y, l + (m - c) + 1, h + (m - c) + 1) }
    }
    pub fn empty(&self) -> bool { self.b.is_empty() }
    pub fn get(&mut self, ar: &Arena, x: Id) -> (u128, u128) { self.left = LIMIT; self.rec(ar, x, 0) }
    pub fn truth(&mut self, ar: &Arena, c: Id) -> Option<bool> {
        if self.b.is_empty() || ar.nodes[c as usize].fp || ar.nodes[c as usize].undef { return None; }
        match self.get(ar, c) { (1, 1) => Some(true), (0, 0) => Some(false), _ => None }
    }
    fn rec(&mut self, ar: &Arena, x: Id, depth: u32) -> (u128, u128) {
        let n = ar.nodes[x as usize];
        if let Kind::Const(c) = n.k { return (c, c); }
        if let Some(&r) = self.memo.get(&x) { return r; }
        if let Some(&v) = self.fixed.get(&x) { return (v, v); }
        let mut r = (n.lo, n.hi);
        if let Some(&(l, h)) = self.b.get(&x) { r = (r.0.max(l), r.1.min(h)); }
        if self.left == 0 || depth > 200 || n.fp { return if r.0 > r.1 { (n.lo, n.hi) } else { r }; }
        self.left -= 1;
        let m = mask(n.w);
        let s: (u128, u128) = match n.k {
            Kind::Bin(op, a, b) => {
                let (p, q) = (self.rec(ar, a, depth + 1), self.rec(ar, b, depth + 1));
                let cw = ar.w(a);
                match op {
                    Op::Add => match (p.0.checked_add(q.0), p.1.checked_add(q.1)) {
                        (Some(l), Some(h)) if h <= m => (l, h),
                        // both ends wrap
                        (Some(l), Some(h)) if n.w < 128 && l > m => (l & m, h & m),
                        _ => (0, m),
                    },
                    Op::Sub => if p.0 >= q.1 { (p.0 - q.1, p.1 - q.0) } else { (0, m) },
                    Op::Mul => match (p.0.checked_mul(q.0), p.1.checked_mul(q.1)) { (Some(l), Some(h)) if h <= m => (l, h), _ => (0, m) },
                    Op::UDiv => if q.0 > 0 { (p.0 / q.1, p.1 / q.0) } else { (0, m) },
                    Op::URem => if q.0 > 0 { if p.1 < q.0 { p } else { (0, p.1.min(q.1 - 1)) } } else { (0, m) },
                    Op::And => if n.w == 1 { (p.0 & q.0, p.1 & q.1) } else { (0, p.1.min(q.1)) },
                    Op::Or => { let u = p.1 | q.1; (p.0.max(q.0), if u == 0 { 0 } else { mask(128 - u.leading_zeros() as u16).min(m) }) }
                    Op::Xor => if p.0 == p.1 && q.0 == q.1 { (p.0 ^ q.0, p.0 ^ q.0) } else { let u = p.1 | q.1; (0, if u == 0 { 0 } else { mask(128 - u.leading_zeros() as u16).min(m) }) },
                    Op::Shl => if q.1 < n.w as u128 && p.1 <= (m >> q.1) { (p.0 << q.0, p.1 << q.1) } else { (0, m) },
                    Op::LShr => if q.1 < n.w as u128 { (p.0 >> q.1, p.1 >> q.0) } else { (0, m) },
                    Op::Eq => if self.same(ar, a, b, p.1) || self.same(ar, b, a, q.1) { (1, 1) } else if p.1 < q.0 || q.1 < p.0 { (0, 0) } else if p.0 == p.1 && q == p { (1, 1) } else { (0, 1) },
                    Op::Ult => if p.1 < q.0 { (1, 1) } else if p.0 >= q.1 { (0, 0) } else { (0, 1) },
                    Op::Ule => if p.1 <= q.0 { (1, 1) } else if p.0 > q.1 { (0, 0) } else { (0, 1) },
                    Op::Slt | Op::Sle => {
                        let half = mask(cw) >> 1;
                        if p.1 <= half && q.1 <= half { if op == Op::Slt { if p.1 < q.0 { (1, 1) } else if p.0 >= q.1 { (0, 0) } else { (0, 1) } } else if p.1 <= q.0 { (1, 1) } else if p.0 > q.1 { (0, 0) } else { (0, 1) } }
                        else if p.0 > half && q.1 <= half { (1, 1) } else if p.1 <= half && q.0 > half { (0, 0) } else { (0, 1) }
                    }
                    _ => (0, m),
                }
            }
            Kind::ZExt(a) => self.rec(ar, a, depth + 1),
            Kind::SExt(a) => { let p = self.rec(ar, a, depth + 1); if p.1 <= mask(ar.w(a)) >> 1 { p } else { (0, m) } }
            Kind::Extract(a, lo) => { let p = self.rec(ar, a, depth + 1); let (l, h) = (p.0 >> lo, p.1 >> lo); if h <= m { (l, h) } else if l & !m == h & !m { (l & m, h & m) } else { (0, m) } }
            Kind::Concat(a, b) => { let (p, q) = (self.rec(ar, a, depth + 1), self.rec(ar, b, depth + 1)); let w = ar.w(b); ((p.0 << w) | q.0, (p.1 << w) | q.1) }
            Kind::Ite(c, a, b) => {
                match self.rec(ar, c, depth + 1) { (1, 1) => self.rec(ar, a, depth + 1), (0, 0) => self.rec(ar, b, depth + 1), _ => { let (p, q) = (self.rec(ar, a, depth + 1), self.rec(ar, b, depth + 1)); (p.0.min(q.0), p.1.max(q.1)) } }
            }
            _ => (0, m),
        };
        let t = (r.0.max(s.0), r.1.min(s.1));
        // an empty interval only on an infeasible path: say nothing
        if t.0 > t.1 { return (n.lo, n.hi); }
        // one value on this path, for good
        if t.0 == t.1 { self.fixed.insert(x, t.0); return t; }
        // results cut short by the limit are not kept
        if self.left > 0 { self.memo.insert(x, t); }
        t
    }
}
