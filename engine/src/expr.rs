//! Hash-consed bit-vector expression DAG with an eager simplifier, unsigned interval
//! analysis and concolic evaluation under the current path's model.
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    // floating point (operands are IEEE bit patterns)
    FAdd, FSub, FMul, FDiv, FEq, FLt, FLe,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    Const(u128),
    /// (creation index on the path, is_undef)
    Var(u32, bool),
    Bin(Op, Id, Id),
    ZExt(Id),
    SExt(Id),
    Extract(Id, u16), // low bit; width gives size
    Concat(Id, Id),   // hi, lo
    Ite(Id, Id, Id),
    /// unsigned int -> f64/f32 (width is the float width)
    UToF(Id),
    SToF(Id),
    /// float -> unsigned int, truncating (operand assumed in range)
    FToU(Id),
    FToS(Id),
    FCvt(Id),
    FNaN(Id),
    FSqrt(Id),
    /// to an integer: 0 floor, 1 ceil, 2 trunc, 3 nearest with ties away from zero, 4 nearest with ties to even
    FRnd(Id, u8),
}

#[derive(Clone, Copy)]
pub struct Node {
    pub k: Kind,
    pub w: u16,
    pub undef: bool,
    pub fp: bool,
    pub lo: u128,
    pub hi: u128,
}

pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sext_val(v: u128, w: u16) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(Kind, u16), Id>,
    // concolic values
    epoch: u32,
    cv: Vec<(u32, u128)>,
    pub model: Vec<u128>,
    vars_of: HashMap<Id, std::rc::Rc<Vec<u32>>>,
    memo_x: HashMap<(Id, u16, u16), Id>,
    memo_b: HashMap<(Op, Id, Id), Id>,
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], map: HashMap::new(), epoch: 1, cv: vec![], model: vec![], vars_of: HashMap::new(), memo_x: HashMap::new(), memo_b: HashMap::new() };
        // id 0 is reserved (never a valid expression)
        a.nodes.push(Node { k: Kind::Const(0), w: 1, undef: false, fp: false, lo: 0, hi: 0 });
        a.cv.push((0, 0));
        a
    }
    pub fn start_path(&mut self, model: Vec<u128>) { self.epoch += 1; self.model = model; }
    pub fn w(&self, a: Id) -> u16 { self.nodes[a as usize].w }
    pub fn is_const(&self, a: Id) -> Option<u128> {
        if let Kind::Const(c) = self.nodes[a as usize].k { Some(c) } else { None }
    }
    fn intern(&mut self, k: Kind, w: u16) -> Id {
        if let Some(&i) = self.map.get(&(k, w)) { return i; }
        let n = self.analyze(k, w);
        let id = self.nodes.len() as Id;
        if n.lo == n.hi && !n.undef {
            if let Kind::Const(_) = k {} else {
                let c = self.cst(n.lo, w);
                self.map.insert((k, w), c);
                return c;
            }
        }
        self.nodes.push(n);
        self.cv.push((0, 0));
        self.map.insert((k, w), id);
        id
    }
    fn analyze(&self, k: Kind, w: u16) -> Node {
        let m = mask(w);
        let n = |i: Id| &self.nodes[i as usize];
        let mut r = Node { k, w, undef: false, fp: false, lo: 0, hi: m };
        match k {
            Kind::Const(c) => { r.lo = c; r.hi = c; }
            Kind::Var(_, u) => { r.undef = u; }
            Kind::Bin(op, a, b) => {
                let (na, nb) = (n(a), n(b));
                r.undef = na.undef || nb.undef;
                r.fp = na.fp || nb.fp || matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe);
                match op {
                    Op::Add => {
                        if let (Some(l), Some(h)) = (na.lo.checked_add(nb.lo), na.hi.checked_add(nb.hi)) {
                            if h <= m { r.lo = l; r.hi = h; }
                        }
                    }
                    Op::Sub => { if na.lo >= nb.hi { r.lo = na.lo - nb.hi; r.hi = na.hi - nb.lo; } }
                    Op::Mul => {
                        if let (Some(l), Some(h)) = (na.lo.checked_mul(nb.lo), na.hi.checked_mul(nb.hi)) {
                            if h <= m { r.lo = l; r.hi = h; }
                        }
                    }
                    Op::UDiv => { if nb.lo > 0 { r.lo = na.lo / nb.hi; r.hi = na.hi / nb.lo; } }
                    Op::URem => {
                        if nb.lo > 0 { r.hi = (nb.hi - 1).min(na.hi); } else { r.hi = m; }
                    }
                    Op::And => { r.hi = na.hi.min(nb.hi); }
                    Op::Or | Op::Xor => {
                        let x = na.hi | nb.hi;
                        let bits = 128 - x.leading_zeros();
                        r.hi = mask(bits as u16).min(m);
                        if bits == 0 { r.hi = 0; }
                        if op == Op::Or { r.lo = na.lo.max(nb.lo); }
                    }
                    Op::Shl => {
                        if let Some(s) = self.is_const(b) {
                            if s < w as u128 && na.hi <= (m >> s) { r.lo = na.lo << s; r.hi = na.hi << s; }
                        }
                    }
                    Op::LShr => {
                        if let Some(s) = self.is_const(b) {
                            if s < w as u128 { r.lo = na.lo >> s; r.hi = na.hi >> s; } else { r.lo = 0; r.hi = 0; }
                        } else { r.hi = na.hi; }
                    }
                    Op::Eq => { if na.hi < nb.lo || nb.hi < na.lo { r.hi = 0; } }
                    Op::Ult => {
                        if na.hi < nb.lo { r.lo = 1; r.hi = 1; } else if na.lo >= nb.hi { r.hi = 0; }
                    }
                    Op::Ule => {
                        if na.hi <= nb.lo { r.lo = 1; r.hi = 1; } else if na.lo > nb.hi { r.hi = 0; }
                    }
                    _ => {}
                }
            }
            Kind::ZExt(a) => { let x = n(a); r.undef = x.undef; r.fp = x.fp; r.lo = x.lo; r.hi = x.hi; }
            Kind::SExt(a) => {
                let x = n(a); r.undef = x.undef; r.fp = x.fp;
                if x.hi <= mask(x.w) >> 1 { r.lo = x.lo; r.hi = x.hi; }
            }
            Kind::Extract(a, lo) => {
                let x = n(a); r.undef = x.undef; r.fp = x.fp;
                if lo == 0 && x.hi <= m { r.lo = x.lo; r.hi = x.hi; }
                else { let h = x.hi >> lo; if h <= m { r.lo = x.lo >> lo; r.hi = h; } }
            }
            Kind::Concat(a, b) => {
                let (x, y) = (n(a), n(b)); r.undef = x.undef || y.undef; r.fp = x.fp || y.fp;
                r.lo = (x.lo << y.w) | y.lo; r.hi = (x.hi << y.w) | y.hi;
            }
            Kind::Ite(c, a, b) => {
                let (z, x, y) = (n(c), n(a), n(b));
                r.undef = x.undef || y.undef || z.undef; r.fp = x.fp || y.fp || z.fp;
                r.lo = x.lo.min(y.lo); r.hi = x.hi.max(y.hi);
            }
            Kind::UToF(a) | Kind::SToF(a) | Kind::FToU(a) | Kind::FToS(a) | Kind::FCvt(a) | Kind::FNaN(a) | Kind::FSqrt(a) | Kind::FRnd(a, _) => {
                r.undef = n(a).undef; r.fp = true;
            }
        }
        r
    }

    pub fn cst(&mut self, v: u128, w: u16) -> Id { self.intern(Kind::Const(v & mask(w)), w) }
    pub fn var(&mut self, idx: u32, w: u16, undef: bool) -> Id {
        if idx < 1 << 24 { while self.model.len() <= idx as usize { self.model.push(0); } }
        self.intern(Kind::Var(idx, undef), w)
    }

    /// concrete value under the current model
    pub fn cval(&mut self, id: Id) -> u128 {
        let (e, v) = self.cv[id as usize];
        if e == self.epoch { return v; }
        let n = self.nodes[id as usize];
        let m = mask(n.w);
        let v = match n.k {
            Kind::Const(c) => c,
            Kind::Var(i, _) => self.model.get(i as usize).copied().unwrap_or(0) & m,
            Kind::Bin(op, a, b) => {
                let (x, y) = (self.cval(a), self.cval(b));
                eval_bin(op, x, y, self.w(a))
            }
            Kind::ZExt(a) => self.cval(a),
            Kind::SExt(a) => (sext_val(self.cval(a), self.w(a)) as u128) & m,
            Kind::Extract(a, lo) => (self.cval(a) >> lo) & m,
            Kind::Concat(a, b) => { let wb = self.w(b); (self.cval(a) << wb) | self.cval(b) }
            Kind::Ite(c, a, b) => if self.cval(c) != 0 { self.cval(a) } else { self.cval(b) },
            Kind::UToF(a) => { let x = self.cval(a); if n.w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 } }
            Kind::SToF(a) => { let x = sext_val(self.cval(a), self.w(a)); if n.w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 } }
            Kind::FToU(a) => { let x = self.cval(a); let f = if self.w(a) == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 }; (f as u128) & m }
            Kind::FToS(a) => { let x = self.cval(a); let f = if self.w(a) == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 }; (f as i128 as u128) & m }
            Kind::FCvt(a) => { let x = self.cval(a); if n.w == 64 { (f32::from_bits(x as u32) as f64).to_bits() as u128 } else { (f64::from_bits(x as u64) as f32).to_bits() as u128 } }
            Kind::FSqrt(a) => { let x = self.cval(a); if n.w == 64 { f64::from_bits(x as u64).sqrt().to_bits() as u128 } else { f32::from_bits(x as u32).sqrt().to_bits() as u128 } }
            Kind::FRnd(a, m) => { let x = self.cval(a); let r = |v: f64| match m { 0 => v.floor(), 1 => v.ceil(), 2 => v.trunc(), 3 => v.round(), _ => v.round_ties_even() }; if n.w == 64 { r(f64::from_bits(x as u64)).to_bits() as u128 } else { (r(f32::from_bits(x as u32) as f64) as f32).to_bits() as u128 } }
            Kind::FNaN(a) => { let x = self.cval(a); if self.w(a) == 64 { f64::from_bits(x as u64).is_nan() as u128 } else { f32::from_bits(x as u32).is_nan() as u128 } }
        };
        self.cv[id as usize] = (self.epoch, v);
        v
    }

    /// value under another model
    pub fn eval_with(&mut self, id: Id, m: &[u128]) -> u128 {
        let old = std::mem::replace(&mut self.model, m.to_vec());
        self.epoch += 1;
        let r = self.cval(id);
        self.model = old;
        self.epoch += 1;
        r
    }

    pub fn vars(&mut self, id: Id) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.vars_of.get(&id) { return v.clone(); }
        let mut seen = std::collections::HashSet::new();
        let mut out = std::collections::BTreeSet::new();
        let mut st = vec![id];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            if x != id { if let Some(v) = self.vars_of.get(&x) { out.extend(v.iter().copied()); continue; } }
            match self.nodes[x as usize].k {
                Kind::Var(_, _) => { out.insert(x); }
                Kind::Bin(_, a, b) | Kind::Concat(a, b) => { st.push(a); st.push(b); }
                Kind::Ite(c, a, b) => { st.push(a); st.push(b); st.push(c); }
                Kind::ZExt(a) | Kind::SExt(a) | Kind::Extract(a, _) | Kind::UToF(a) | Kind::SToF(a)
                | Kind::FToU(a) | Kind::FToS(a) | Kind::FCvt(a) | Kind::FNaN(a) | Kind::FSqrt(a) | Kind::FRnd(a, _) => st.push(a),
                Kind::Const(_) => {}
            }
        }
        let v = std::rc::Rc::new(out.into_iter().collect::<Vec<_>>());
        self.vars_of.insert(id, v.clone());
        v
    }

    // ---------- constructors with simplification ----------
    pub fn not1(&mut self, a: Id) -> Id { let one = self.cst(1, 1); self.bin(Op::Xor, a, one) }
    pub fn eq(&mut self, a: Id, b: Id) -> Id { self.bin(Op::Eq, a, b) }
    pub fn and1(&mut self, a: Id, b: Id) -> Id { self.bin(Op::And, a, b) }
    pub fn or1(&mut self, a: Id, b: Id) -> Id { self.bin(Op::Or, a, b) }

    pub fn zext(&mut self, a: Id, w: u16) -> Id {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(c) = self.is_const(a) { return self.cst(c, w); }
        if let Kind::ZExt(x) = self.nodes[a as usize].k { return self.zext(x, w); }
        self.intern(Kind::ZExt(a), w)
    }
    pub fn sext(&mut self, a: Id, w: u16) -> Id {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(c) = self.is_const(a) { return self.cst(sext_val(c, wa) as u128, w); }
        if self.nodes[a as usize].hi <= mask(wa) >> 1 { return self.zext(a, w); }
        if let Kind::ZExt(_) = self.nodes[a as usize].k { return self.zext(a, w); }
        self.intern(Kind::SExt(a), w)
    }
    pub fn trunc(&mut self, a: Id, w: u16) -> Id { self.extract(a, 0, w) }
    pub fn extract(&mut self, a: Id, lo: u16, w: u16) -> Id {
        if lo == 0 && w == self.w(a) { return a; }
        if let Some(&r) = self.memo_x.get(&(a, lo, w)) { return r; }
        let r = self.extract_inner(a, lo, w);
        self.memo_x.insert((a, lo, w), r);
        r
    }
    fn extract_inner(&mut self, a: Id, lo: u16, w: u16) -> Id {
        let n = self.nodes[a as usize];
        match n.k {
            Kind::Const(c) => return self.cst(c >> lo, w),
            Kind::Extract(x, l2) => return self.extract(x, lo + l2, w),
            Kind::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx { return self.cst(0, w); }
                if lo + w <= wx { return self.extract(x, lo, w); }
                let p = self.extract(x, lo, wx - lo);
                return self.zext(p, w);
            }
            Kind::SExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx { return self.extract(x, lo, w); }
                if lo == 0 && w > wx { return self.sext(x, w); }
            }
            Kind::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl { return self.extract(h, lo - wl, w); }
                if lo + w <= wl { return self.extract(l, lo, w); }
                let hp = self.extract(h, 0, lo + w - wl);
                let lp = self.extract(l, lo, wl - lo);
                return self.concat(hp, lp);
            }
            Kind::Ite(c, x, y) => {
                // push extraction inwards when it simplifies a branch
                if self.is_const(x).is_some() || self.is_const(y).is_some() || w <= 8 {
                    let p = self.extract(x, lo, w);
                    let q = self.extract(y, lo, w);
                    return self.ite(c, p, q);
                }
            }
            Kind::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.bin(op, p, q);
            }
            Kind::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let p = self.extract(x, 0, w);
                let q = self.extract(y, 0, w);
                return self.bin(op, p, q);
            }
            Kind::Bin(Op::Shl, x, s) => {
                if let Some(s) = self.is_const(s) {
                    let s = s.min(n.w as u128) as u16;
                    if lo >= s { return self.extract(x, lo - s, w); }
                    if lo + w <= s { return self.cst(0, w); }
                    // straddles: low part zeros
                    let hp = self.extract(x, 0, lo + w - s);
                    let z = self.cst(0, s - lo);
                    return self.concat(hp, z);
                }
            }
            Kind::Bin(Op::LShr, x, s) => {
                if let Some(s) = self.is_const(s) {
                    let s = s.min(n.w as u128) as u16;
                    if lo + s >= n.w { return self.cst(0, w); }
                    if lo + s + w <= n.w { return self.extract(x, lo + s, w); }
                    let p = self.extract(x, lo + s, n.w - lo - s);
                    return self.zext(p, w);
                }
            }
            _ => {}
        }
        if lo > 0 && n.hi < (1u128 << lo) && !n.undef { return self.cst(0, w); }
        self.intern(Kind::Extract(a, lo), w)
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        let (nh, nl) = (self.nodes[h as usize], self.nodes[l as usize]);
        if let (Kind::Const(a), Kind::Const(b)) = (nh.k, nl.k) { return self.cst((a << wl) | b, w); }
        if let Kind::Const(0) = nh.k { return self.zext(l, w); }
        // adjacent extracts of the same thing
        let (hx, hlo) = if let Kind::Extract(x, lo) = nh.k { (x, lo) } else { (h, 0) };
        let (lx, llo) = if let Kind::Extract(x, lo) = nl.k { (x, lo) } else { (l, 0) };
        if hx == lx && hlo == llo + wl && self.w(hx) >= hlo + wh { return self.extract(hx, llo, w); }
        // the low part of a sum or product simplifies to the narrow operation: glue it back on
        if hx != h && hlo >= wl && matches!(self.nodes[hx as usize].k, Kind::Bin(Op::Add | Op::Sub | Op::Mul, _, _)) && self.extract(hx, hlo - wl, wl) == l { return self.extract(hx, hlo - wl, w); }
        // concat(x, concat(ext.., y)) : fuse h with the high part of l
        if let Kind::Concat(lh, ll) = nl.k {
            let whl = self.w(lh);
            let (px, plo) = if let Kind::Extract(x, lo) = self.nodes[lh as usize].k { (x, lo) } else { (lh, 0) };
            if hx == px && hlo == plo + whl && h != hx {
                let f = self.extract(hx, plo, wh + whl);
                return self.concat(f, ll);
            }
            if let (Kind::Const(a), Kind::Const(b)) = (nh.k, self.nodes[lh as usize].k) {
                let c = self.cst((a << whl) | b, wh + whl);
                return self.concat(c, ll);
            }
        }
        if let Kind::Concat(hh, hl) = nh.k {
            // fuse low part of h with l
            let whl = self.w(hl);
            let f = self.try_fuse(hl, l);
            if let Some(f) = f { return self.concat(hh, f); }
            let _ = whl;
        }
        if let Kind::ZExt(x) = nh.k {
            let inner = self.concat(x, l);
            return self.zext(inner, w);
        }
        // concat(ite(c,a,b), ite(c,d,e)) -> ite(c, concat, concat)
        if let (Kind::Ite(c1, a1, b1), Kind::Ite(c2, a2, b2)) = (nh.k, nl.k) {
            if c1 == c2 {
                let x = self.concat(a1, a2);
                let y = self.concat(b1, b2);
                return self.ite(c1, x, y);
            }
        }
        self.intern(Kind::Concat(h, l), w)
    }
    fn try_fuse(&mut self, h: Id, l: Id) -> Option<Id> {
        let (wh, wl) = (self.w(h), self.w(l));
        let (nh, nl) = (self.nodes[h as usize], self.nodes[l as usize]);
        if let (Kind::Const(a), Kind::Const(b)) = (nh.k, nl.k) { return Some(self.cst((a << wl) | b, wh + wl)); }
        let (hx, hlo) = if let Kind::Extract(x, lo) = nh.k { (x, lo) } else { return None };
        let (lx, llo) = if let Kind::Extract(x, lo) = nl.k { (x, lo) } else { (l, 0) };
        if hx == lx && hlo == llo + wl { return Some(self.extract(hx, llo, wh + wl)); }
        if hlo >= wl && matches!(self.nodes[hx as usize].k, Kind::Bin(Op::Add | Op::Sub | Op::Mul, _, _)) && self.extract(hx, hlo - wl, wl) == l { return Some(self.extract(hx, hlo - wl, wh + wl)); }
        None
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if a == b { return a; }
        if let Some(v) = self.is_const(c) { return if v != 0 { a } else { b }; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        // ite(!c, a, b) -> ite(c, b, a)
        if let Kind::Bin(Op::Xor, x, y) = self.nodes[c as usize].k {
            if self.is_const(y) == Some(1) { return self.ite(x, b, a); }
        }
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => { let nc = self.not1(c); return self.and1(nc, b); }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => { let nc = self.not1(c); return self.or1(nc, a); }
                _ => {}
            }
        }
        if let Kind::Ite(c2, x, _) = self.nodes[a as usize].k { if c2 == c { return self.ite(c, x, b); } }
        if let Kind::Ite(c2, _, y) = self.nodes[b as usize].k { if c2 == c { return self.ite(c, a, y); } }
        // ite(c, a, ite(d, a, e)) -> ite(c|d, a, e)
        if let Kind::Ite(d, x, e) = self.nodes[b as usize].k {
            if x == a { let cd = self.or1(c, d); return self.ite(cd, a, e); }
        }
        self.intern(Kind::Ite(c, a, b), w)
    }

    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let wa = self.w(a);
        debug_assert_eq!(wa, self.w(b), "width mismatch {:?}", op);
        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe => 1, _ => wa };
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(eval_bin(op, x, y, wa), rw);
        }
        if let Some(&r) = self.memo_b.get(&(op, a, b)) { return r; }
        let r = self.bin_m(op, a, b, rw, wa);
        self.memo_b.insert((op, a, b), r);
        r
    }
    fn bin_m(&mut self, op: Op, a: Id, b: Id, rw: u16, wa: u16) -> Id {
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        let m = mask(wa);
        // canonical order for commutative ops: constant on the right, else smaller id left
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::FAdd | Op::FMul | Op::FEq) {
            if ca.is_some() || (cb.is_none() && a > b) { return self.bin_c(op, b, a, rw, m); }
        }
        self.bin_c(op, a, b, rw, m)
    }
    fn bin_c(&mut self, op: Op, a: Id, b: Id, rw: u16, m: u128) -> Id {
        let wa = self.w(a);
        let cb = self.is_const(b);
        let ca = self.is_const(a);
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        match op {
            Op::FLe if ca.is_none() || cb.is_none() => {
                // neither is NaN and not b < a
                let (x, y) = (self.un(Kind::FNaN(a), 1), self.un(Kind::FNaN(b), 1));
                let z = self.bin(Op::FLt, b, a);
                let r = self.or1(x, y); let r = self.or1(r, z);
                return self.not1(r);
            }
            Op::FLt | Op::FEq if ca.is_none() || cb.is_none() => {
                if let (Kind::Ite(c, x, y), true) = (na.k, cb.is_some()) { let (x, y) = (self.bin(op, x, b), self.bin(op, y, b)); return self.ite(c, x, y); }
                if let (Kind::Ite(c, x, y), true) = (nb.k, ca.is_some()) { let (x, y) = (self.bin(op, a, x), self.bin(op, a, y)); return self.ite(c, x, y); }
                // a square root is never below zero
                if let (Op::FLt, Kind::FSqrt(_), Some(0)) = (op, na.k, cb) { return self.cst(0, 1); }
                if op == Op::FLt && a == b { return self.cst(0, 1); }
            }
            Op::Add => {
                if cb == Some(0) { return a; }
                if wa == 1 { return self.bin(Op::Xor, a, b); }
                if let (Some(c), Kind::Bin(Op::Add, x, y)) = (cb, na.k) {
                    if let Some(d) = self.is_const(y) { let k = self.cst(c.wrapping_add(d), wa); return self.bin(Op::Add, x, k); }
                }
                // (x + c) + y -> (x + y) + c   keeps constants outermost
                if cb.is_none() {
                    if let Kind::Bin(Op::Add, x, y) = na.k {
                        if self.is_const(y).is_some() { let s = self.bin(Op::Add, x, b); return self.bin(Op::Add, s, y); }
                    }
                    if let Kind::Bin(Op::Add, x, y) = nb.k {
                        if self.is_const(y).is_some() { let s = self.bin(Op::Add, a, x); return self.bin(Op::Add, s, y); }
                    }
                }
                // (x - y) + y -> x
                if let Kind::Bin(Op::Sub, x, y) = na.k { if y == b { return x; } }
                if let Kind::Bin(Op::Sub, x, y) = nb.k { if y == a { return x; } }
            }
            Op::Sub => {
                if a == b { return self.cst(0, wa); }
                if let Some(c) = cb { let k = self.cst((!c).wrapping_add(1) & m, wa); return self.bin(Op::Add, a, k); }
                // (x + y) - x -> y ; (x+c) - x -> c
                if let Kind::Bin(Op::Add, x, y) = na.k {
                    if x == b { return y; }
                    if y == b { return x; }
                    if self.is_const(y).is_some() { let s = self.bin(Op::Sub, x, b); return self.bin(Op::Add, s, y); }
                }
                if let Kind::Bin(Op::Add, x, y) = nb.k {
                    if x == a && self.is_const(y).is_some() { let z = self.cst(0, wa); return self.bin(Op::Sub, z, y); }
                    if let Some(c) = self.is_const(y) {
                        let s = self.bin(Op::Sub, a, x);
                        let k = self.cst((!c).wrapping_add(1) & m, wa);
                        return self.bin(Op::Add, s, k);
                    }
                }
            }
            Op::Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(c) = cb {
                    if c.is_power_of_two() { let k = self.cst(c.trailing_zeros() as u128, wa); return self.bin(Op::Shl, a, k); }
                    if let Kind::Bin(Op::Mul, x, y) = na.k {
                        if let Some(d) = self.is_const(y) { let k = self.cst(c.wrapping_mul(d), wa); return self.bin(Op::Mul, x, k); }
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) { return a; }
                if let Some(c) = cb { if c.is_power_of_two() { let k = self.cst(c.trailing_zeros() as u128, wa); return self.bin(Op::LShr, a, k); } }
            }
            Op::URem => {
                if cb == Some(1) { return self.cst(0, wa); }
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let l = self.extract(a, 0, c.trailing_zeros() as u16);
                        return self.zext(l, wa);
                    }
                    if na.hi < c { return a; }
                }
            }
            Op::And => {
                if a == b { return a; }
                if let Some(c) = cb {
                    if c == 0 { return b; }
                    if c == m { return a; }
                    // low mask
                    if (c & (c + 1)) == 0 {
                        let k = 128 - c.leading_zeros();
                        if na.hi <= c { return a; }
                        let l = self.extract(a, 0, k as u16);
                        return self.zext(l, wa);
                    }
                    if let Kind::Bin(Op::And, x, y) = na.k {
                        if let Some(d) = self.is_const(y) { let k = self.cst(c & d, wa); return self.bin(Op::And, x, k); }
                    }
                    if let Kind::ZExt(x) = na.k {
                        let wx = self.w(x);
                        let k = self.cst(c, wx);
                        let t = self.bin(Op::And, x, k);
                        return self.zext(t, wa);
                    }
                    // single contiguous field -> extract
                    let tz = c.trailing_zeros() as u16;
                    let top = (128 - c.leading_zeros()) as u16;
                    if (c >> tz) & ((c >> tz) + 1) == 0 && top <= wa {
                        let f = self.extract(a, tz, top - tz);
                        let z = self.cst(0, tz);
                        let r = self.concat(f, z);
                        return self.zext(r, wa);
                    }
                }
                if wa == 1 {
                    // x & !x
                    if self.is_neg_of(a, b) { return self.cst(0, 1); }
                }
                if let (Kind::ZExt(x), Kind::ZExt(y)) = (na.k, nb.k) {
                    if self.w(x) == self.w(y) { let t = self.bin(Op::And, x, y); return self.zext(t, wa); }
                }
            }
            Op::Or => {
                if a == b { return a; }
                if let Some(c) = cb {
                    if c == 0 { return a; }
                    if c == m { return b; }
                }
                if wa == 1 && self.is_neg_of(a, b) { return self.cst(1, 1); }
                if let Some(r) = self.or_disjoint(a, b) { return r; }
                if let (Kind::ZExt(x), Kind::ZExt(y)) = (na.k, nb.k) {
                    if self.w(x) == self.w(y) { let t = self.bin(Op::Or, x, y); return self.zext(t, wa); }
                }
            }
            Op::Xor => {
                if a == b { return self.cst(0, wa); }
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    if let Kind::Bin(Op::Xor, x, y) = na.k {
                        if let Some(d) = self.is_const(y) { let k = self.cst(c ^ d, wa); return self.bin(Op::Xor, x, k); }
                    }
                } else {
                    if let Kind::Bin(Op::Xor, x, y) = na.k {
                        if x == b { return y; }
                        if y == b { return x; }
                        if self.is_const(y).is_some() { let s = self.bin(Op::Xor, x, b); return self.bin(Op::Xor, s, y); }
                    }
                    if let Kind::Bin(Op::Xor, x, y) = nb.k {
                        if x == a { return y; }
                        if y == a { return x; }
                        if self.is_const(y).is_some() { let s = self.bin(Op::Xor, a, x); return self.bin(Op::Xor, s, y); }
                    }
                }
                if let (Kind::ZExt(x), Kind::ZExt(y)) = (na.k, nb.k) {
                    if self.w(x) == self.w(y) { let t = self.bin(Op::Xor, x, y); return self.zext(t, wa); }
                }
                if let (Kind::ZExt(x), Some(c)) = (na.k, cb) {
                    let wx = self.w(x);
                    if c <= mask(wx) { let k = self.cst(c, wx); let t = self.bin(Op::Xor, x, k); return self.zext(t, wa); }
                }
            }
            Op::Shl => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    if c >= wa as u128 { return self.cst(0, wa); }
                    let c = c as u16;
                    let h = self.extract(a, 0, wa - c);
                    let z = self.cst(0, c);
                    return self.concat(h, z);
                }
                if ca == Some(0) { return a; }
            }
            Op::LShr => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    if c >= wa as u128 { return self.cst(0, wa); }
                    let c = c as u16;
                    let h = self.extract(a, c, wa - c);
                    return self.zext(h, wa);
                }
                if ca == Some(0) { return a; }
            }
            Op::AShr => {
                if cb == Some(0) { return a; }
                if na.hi <= m >> 1 { return self.bin(Op::LShr, a, b); }
                if let Some(c) = cb {
                    let c = c.min(wa as u128 - 1) as u16;
                    let h = self.extract(a, c, wa - c);
                    return self.sext(h, wa);
                }
            }
            Op::Eq => {
                if a == b { return self.cst(1, 1); }
                if let Some(c) = cb {
                    if wa == 1 { return if c == 1 { a } else { self.not_raw(a) }; }
                    match na.k {
                        Kind::ZExt(x) => {
                            let wx = self.w(x);
                            if c > mask(wx) { return self.cst(0, 1); }
                            let k = self.cst(c, wx);
                            return self.eq(x, k);
                        }
                        Kind::SExt(x) => {
                            let wx = self.w(x);
                            let t = c & mask(wx);
                            if (sext_val(t, wx) as u128) & m != c { return self.cst(0, 1); }
                            let k = self.cst(t, wx);
                            return self.eq(x, k);
                        }
                        Kind::Concat(h, l) => {
                            let wl = self.w(l);
                            let wh = self.w(h);
                            let kh = self.cst(c >> wl, wh);
                            let kl = self.cst(c, wl);
                            let p = self.eq(h, kh);
                            if self.is_const(p) == Some(0) { return p; }
                            let q = self.eq(l, kl);
                            return self.and1(p, q);
                        }
                        Kind::Bin(Op::Add, x, y) => if let Some(d) = self.is_const(y) {
                            let k = self.cst(c.wrapping_sub(d) & m, wa);
                            return self.eq(x, k);
                        },
                        Kind::Bin(Op::Xor, x, y) => if let Some(d) = self.is_const(y) {
                            let k = self.cst(c ^ d, wa);
                            return self.eq(x, k);
                        },
                        Kind::Ite(cc, x, y) => {
                            let (px, py) = (self.is_const(x), self.is_const(y));
                            if px.is_some() || py.is_some() {
                                let p = self.eq(x, b);
                                let q = self.eq(y, b);
                                return self.ite(cc, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    match (na.k, nb.k) {
                        (Kind::ZExt(x), Kind::ZExt(y)) => {
                            let (wx, wy) = (self.w(x), self.w(y));
                            let w = wx.max(wy);
                            let x = self.zext(x, w);
                            let y = self.zext(y, w);
                            return self.eq(x, y);
                        }
                        (Kind::Concat(h1, l1), Kind::Concat(h2, l2)) if self.w(l1) == self.w(l2) => {
                            let p = self.eq(h1, h2);
                            let q = self.eq(l1, l2);
                            return self.and1(p, q);
                        }
                        (Kind::Bin(Op::Add, x, y), _) if x == b => { let z = self.cst(0, wa); return self.eq(y, z); }
                        (_, Kind::Bin(Op::Add, x, y)) if x == a => { let z = self.cst(0, wa); return self.eq(y, z); }
                        (Kind::Bin(Op::Add, x, y), Kind::Bin(Op::Add, x2, y2)) if y == y2 => return self.eq(x, x2),
                        (Kind::Bin(Op::Add, x, y), Kind::Bin(Op::Add, x2, y2)) if x == x2 => return self.eq(y, y2),
                        _ => {}
                    }
                }
            }
            Op::Ult => {
                if a == b { return self.cst(0, 1); }
                if let Kind::Bin(Op::URem, _, d) = na.k { if d == b { let z = self.cst(0, wa); let e = self.eq(b, z); return self.not1(e); } }
                if cb == Some(0) { return self.cst(0, 1); }
                if cb == Some(1) { let z = self.cst(0, wa); return self.eq(a, z); }
                if ca == Some(m) { return self.cst(0, 1); }
                if ca == Some(0) { let z = self.cst(0, wa); let e = self.eq(b, z); return self.not1(e); }
                if let Some(r) = self.cmp_zext(op, a, b) { return r; }
                if let (Some(_), Kind::Ite(cc, x, y)) = (cb, na.k) {
                    if self.is_const(x).is_some() && self.is_const(y).is_some() {
                        let p = self.bin(op, x, b); let q = self.bin(op, y, b); return self.ite(cc, p, q);
                    }
                }
            }
            Op::Ule => {
                // canonicalise to !(b < a)
                let r = self.bin(Op::Ult, b, a);
                return self.not1(r);
            }
            Op::Slt => {
                if a == b { return self.cst(0, 1); }
                let half = m >> 1;
                if na.hi <= half && nb.hi <= half { return self.bin(Op::Ult, a, b); }
                if na.hi <= half && nb.lo > half { return self.cst(0, 1); }
                if na.lo > half && nb.hi <= half { return self.cst(1, 1); }
                if let (Some(_), Kind::Ite(cc, x, y)) = (cb, na.k) {
                    if self.is_const(x).is_some() || self.is_const(y).is_some() {
                        let p = self.bin(op, x, b); let q = self.bin(op, y, b); return self.ite(cc, p, q);
                    }
                }
                if let (Some(_), Kind::Ite(cc, x, y)) = (ca, nb.k) {
                    if self.is_const(x).is_some() || self.is_const(y).is_some() {
                        let p = self.bin(op, a, x); let q = self.bin(op, a, y); return self.ite(cc, p, q);
                    }
                }
            }
            Op::Sle => {
                let r = self.bin(Op::Slt, b, a);
                return self.not1(r);
            }
            _ => {}
        }
        self.intern(Kind::Bin(op, a, b), rw)
    }
    fn not_raw(&mut self, a: Id) -> Id { self.not1(a) }
    fn is_neg_of(&self, a: Id, b: Id) -> bool {
        let f = |x: Id, y: Id| if let Kind::Bin(Op::Xor, p, q) = self.nodes[x as usize].k { p == y && self.is_const(q) == Some(1) } else { false };
        f(a, b) || f(b, a)
    }
    fn cmp_zext(&mut self, op: Op, a: Id, b: Id) -> Option<Id> {
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        match (na.k, nb.k) {
            (Kind::ZExt(x), Kind::ZExt(y)) => {
                let w = self.w(x).max(self.w(y));
                let x = self.zext(x, w);
                let y = self.zext(y, w);
                Some(self.bin(op, x, y))
            }
            (Kind::ZExt(x), Kind::Const(c)) => {
                let wx = self.w(x);
                if c <= mask(wx) { let k = self.cst(c, wx); Some(self.bin(op, x, k)) } else { None }
            }
            (Kind::Const(c), Kind::ZExt(x)) => {
                let wx = self.w(x);
                if c <= mask(wx) { let k = self.cst(c, wx); Some(self.bin(op, k, x)) } else { None }
            }
            _ => None,
        }
    }
    /// zext(l) | concat(h, 0) -> concat(h, l) when the bits cannot overlap
    fn or_disjoint(&mut self, a: Id, b: Id) -> Option<Id> {
        for (p, q) in [(a, b), (b, a)] {
            // p = [zext] concat(h, 0_k), q has hi < 2^k
            let (core, w) = (if let Kind::ZExt(x) = self.nodes[p as usize].k { x } else { p }, self.w(p));
            if let Kind::Concat(h, z) = self.nodes[core as usize].k {
                if self.is_const(z) == Some(0) {
                    let k = self.w(z);
                    if self.nodes[q as usize].hi <= mask(k) {
                        let l = self.extract(q, 0, k);
                        let r = self.concat(h, l);
                        return Some(self.zext(r, w));
                    }
                }
            }
        }
        // concat(h1,l1) | concat(h2,l2) with one half zero on each side
        if let (Kind::Concat(h1, l1), Kind::Concat(h2, l2)) = (self.nodes[a as usize].k, self.nodes[b as usize].k) {
            if self.w(l1) == self.w(l2) {
                let zero = |s: &Self, x: Id| s.is_const(x) == Some(0);
                if zero(self, h1) || zero(self, h2) || zero(self, l1) || zero(self, l2) {
                    let h = self.bin(Op::Or, h1, h2);
                    let l = self.bin(Op::Or, l1, l2);
                    return Some(self.concat(h, l));
                }
            }
        }
        None
    }
    pub fn un(&mut self, k: Kind, w: u16) -> Id {
        if let Kind::FNaN(a) = k {
            match self.nodes[a as usize].k {
                Kind::Ite(c, x, y) => { let (x, y) = (self.un(Kind::FNaN(x), 1), self.un(Kind::FNaN(y), 1)); return self.ite(c, x, y); }
                Kind::FSqrt(x) => { let z = self.cst(0, self.w(x)); let (n, l) = (self.un(Kind::FNaN(x), 1), self.bin(Op::FLt, x, z)); return self.or1(n, l); }
                Kind::UToF(_) | Kind::SToF(_) => return self.cst(0, 1),
                _ => {}
            }
        }
        let a = match k { Kind::UToF(a) | Kind::SToF(a) | Kind::FToU(a) | Kind::FToS(a) | Kind::FCvt(a) | Kind::FNaN(a) | Kind::FSqrt(a) | Kind::FRnd(a, _) => a, _ => unreachable!() };
        let id = self.intern(k, w);
        if self.is_const(a).is_some() { let v = self.cval(id); return self.cst(v, w); }
        id
    }
    /// value selected from `elems` by `idx` (idx known < elems.len()): binary mux tree,
    /// or a GF(2)-affine form when the table is verified to be affine.
    pub fn mux(&mut self, elems: &[Id], idx: Id) -> Id {
        let n = elems.len();
        let w = self.w(elems[0]);
        if n.is_power_of_two() && n >= 16 {
            // every entry constant and T[i] = T[0] ^ xor of T[2^b]^T[0] over set bits b: check all entries
            let cs: Option<Vec<u128>> = elems.iter().map(|e| self.is_const(*e)).collect();
            if let Some(cs) = cs {
                let lg = n.trailing_zeros();
                let d: Vec<u128> = (0..lg).map(|b| cs[1 << b] ^ cs[0]).collect();
                let ok = (0..n).all(|i| { let mut v = cs[0]; for b in 0..lg { if i >> b & 1 == 1 { v ^= d[b as usize]; } } v == cs[i] });
                if ok {
                    let mut r = self.cst(cs[0], w);
                    let z = self.cst(0, w);
                    for b in 0..lg {
                        let bit = self.extract(idx, b as u16, 1);
                        let k = self.cst(d[b as usize], w);
                        let t = self.ite(bit, k, z);
                        r = self.bin(Op::Xor, r, t);
                    }
                    return r;
                }
            }
        }
        self.mux_rec(elems, idx, 0)
    }
    fn mux_rec(&mut self, elems: &[Id], idx: Id, _d: u32) -> Id {
        if elems.len() == 1 { return elems[0]; }
        let mut k = 0;
        while (1usize << (k + 1)) < elems.len() { k += 1; }
        let half = 1usize << k;
        // elems.len() in (half, 2*half]
        let lo = self.mux_rec(&elems[..half], idx, 0);
        let hi = self.mux_rec(&elems[half..], idx, 0);
        if lo == hi { return lo; }
        let w = self.w(idx);
        if k as u16 >= w { return lo; }
        let bit = self.extract(idx, k as u16, 1);
        self.ite(bit, hi, lo)
    }
    pub fn show(&self, id: Id, depth: u32) -> String {
        let n = &self.nodes[id as usize];
        if depth == 0 { return "..".into(); }
        let d = depth - 1;
        match n.k {
            Kind::Const(c) => format!("{:#x}:{}", c, n.w),
            Kind::Var(i, u) => format!("{}{}:{}", if u { "undef" } else { "v" }, i, n.w),
            Kind::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(a, d), self.show(b, d)),
            Kind::ZExt(a) => format!("zext{}({})", n.w, self.show(a, d)),
            Kind::SExt(a) => format!("sext{}({})", n.w, self.show(a, d)),
            Kind::Extract(a, lo) => format!("{}[{}+{}]", self.show(a, d), lo, n.w),
            Kind::Concat(a, b) => format!("{}++{}", self.show(a, d), self.show(b, d)),
            Kind::Ite(c, a, b) => format!("({} ? {} : {})", self.show(c, d), self.show(a, d), self.show(b, d)),
            k => format!("{:?}", k),
        }
    }
}

pub fn f(w: u16, v: u128) -> f64 { if w == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 } }

pub fn eval_bin(op: Op, x: u128, y: u128, w: u16) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        // SMT-LIB semantics for division by zero (guarded by the executor)
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => {
            let (a, b) = (sext_val(x, w), sext_val(y, w));
            if b == 0 { if a >= 0 { m } else { 1 } } else { (a.wrapping_div(b) as u128) & m }
        }
        Op::SRem => {
            let (a, b) = (sext_val(x, w), sext_val(y, w));
            if b == 0 { x } else { (a.wrapping_rem(b) as u128) & m }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => { let s = y.min(127) as u32; let s = s.min(w as u32 - 1).max(0); if y >= w as u128 { ((sext_val(x, w) >> (w - 1).min(127)) as u128) & m } else { ((sext_val(x, w) >> s) as u128) & m } }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext_val(x, w) < sext_val(y, w)) as u128,
        Op::Sle => (sext_val(x, w) <= sext_val(y, w)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            if w == 64 {
                let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                let r = match op { Op::FAdd => a + b, Op::FSub => a - b, Op::FMul => a * b, _ => a / b };
                r.to_bits() as u128
            } else {
                let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                let r = match op { Op::FAdd => a + b, Op::FSub => a - b, Op::FMul => a * b, _ => a / b };
                r.to_bits() as u128
            }
        }
        Op::FEq => (f(w, x) == f(w, y)) as u128,
        Op::FLt => (f(w, x) < f(w, y)) as u128,
        Op::FLe => (f(w, x) <= f(w, y)) as u128,
    }
}
