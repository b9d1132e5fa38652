//! Canonical GF(2)-affine forms: decides equalities between XOR networks (CRC) exactly,
//! where bit-blasting them into CNF would need Gaussian elimination from the SAT solver.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

/// sorted atoms xor constant
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Lin { pub at: Rc<Vec<u64>>, pub c: bool }
fn zero(c: bool) -> Lin { Lin { at: Rc::new(vec![]), c } }
fn xor(a: &Lin, b: &Lin) -> Lin {
    if a.at.is_empty() { return Lin { at: b.at.clone(), c: a.c ^ b.c }; }
    if b.at.is_empty() { return Lin { at: a.at.clone(), c: a.c ^ b.c }; }
    let (x, y) = (&a.at, &b.at);
    let mut o = Vec::with_capacity(x.len() + y.len());
    let (mut i, mut j) = (0, 0);
    while i < x.len() && j < y.len() {
        if x[i] == y[j] { i += 1; j += 1; } else if x[i] < y[j] { o.push(x[i]); i += 1; } else { o.push(y[j]); j += 1; }
    }
    o.extend_from_slice(&x[i..]); o.extend_from_slice(&y[j..]);
    Lin { at: Rc::new(o), c: a.c ^ b.c }
}
#[derive(Default)]
pub struct Gf2 { memo: HashMap<Id, Rc<Vec<Lin>>>, canon: HashMap<Id, Id>, reps: HashMap<Vec<(Rc<Vec<u64>>, bool)>, Id>, xors: HashMap<Id, u32>, pub cells: usize }

impl Gf2 {
    /// how many XOR nodes (capped): small formulas are left to the solver
    fn xors(&mut self, ar: &Arena, id: Id) -> u32 {
        if let Some(&x) = self.xors.get(&id) { return x; }
        let k = ar.nodes[id as usize].k;
        let mut n = 0u32;
        match k {
            Kind::Bin(op, a, b) => { n = (op == Op::Xor) as u32 + self.xors(ar, a).max(self.xors(ar, b)); }
            Kind::Concat(a, b) => n = self.xors(ar, a).max(self.xors(ar, b)),
            Kind::Ite(c, a, b) => n = self.xors(ar, a).max(self.xors(ar, b)).max(self.xors(ar, c)),
            Kind::ZExt(a) | Kind::SExt(a) | Kind::Extract(a, _) => n = self.xors(ar, a),
            _ => {}
        }
        n = n.min(1000);
        self.xors.insert(id, n);
        n
    }
    fn atoms(&self, id: Id, w: u16) -> Rc<Vec<Lin>> { Rc::new((0..w).map(|b| Lin { at: Rc::new(vec![(id as u64) << 8 | b as u64]), c: false }).collect()) }
    pub fn lin(&mut self, ar: &Arena, id: Id) -> Rc<Vec<Lin>> {
        if let Some(v) = self.memo.get(&id) { return v.clone(); }
        let n = ar.nodes[id as usize];
        let w = n.w as usize;
        let cst = |x: Id| ar.is_const(x);
        let r: Rc<Vec<Lin>> = match n.k {
            Kind::Const(c) => Rc::new((0..w).map(|b| zero(c >> b & 1 == 1)).collect()),
            Kind::Bin(Op::Xor, a, b) => { let (x, y) = (self.lin(ar, a), self.lin(ar, b)); Rc::new((0..w).map(|i| xor(&x[i], &y[i])).collect()) }
            Kind::Bin(Op::And, a, b) if cst(b).is_some() => { let k = cst(b).unwrap(); let x = self.lin(ar, a); Rc::new((0..w).map(|i| if k >> i & 1 == 1 { x[i].clone() } else { zero(false) }).collect()) }
            Kind::Bin(Op::Or, a, b) => {
                // bitwise: where one side is constant zero it is the other side
                let (x, y) = (self.lin(ar, a), self.lin(ar, b));
                let mut o = Vec::with_capacity(w);
                for i in 0..w {
                    let z = |l: &Lin| l.at.is_empty() && !l.c;
                    let one = |l: &Lin| l.at.is_empty() && l.c;
                    o.push(if z(&x[i]) { y[i].clone() } else if z(&y[i]) { x[i].clone() } else if one(&x[i]) || one(&y[i]) { zero(true) } else if x[i] == y[i] { x[i].clone() } else { Lin { at: Rc::new(vec![(id as u64) << 8 | i as u64]), c: false } });
                }
                Rc::new(o)
            }
            Kind::Bin(Op::Shl, a, b) if cst(b).is_some() => { let k = cst(b).unwrap().min(w as u128) as usize; let x = self.lin(ar, a); Rc::new((0..w).map(|i| if i >= k { x[i - k].clone() } else { zero(false) }).collect()) }
            Kind::Bin(Op::LShr, a, b) if cst(b).is_some() => { let k = cst(b).unwrap().min(w as u128) as usize; let x = self.lin(ar, a); Rc::new((0..w).map(|i| if i + k < w { x[i + k].clone() } else { zero(false) }).collect()) }
            Kind::Bin(Op::Sub, a, b) if cst(a) == Some(0) && ar.nodes[b as usize].hi <= 1 => { let x = self.lin(ar, b); Rc::new((0..w).map(|_| x[0].clone()).collect()) }
            Kind::Bin(Op::Mul, a, b) if cst(b).is_some() && ar.nodes[a as usize].hi <= 1 => { let x = self.lin(ar, a); let k = cst(b).unwrap(); Rc::new((0..w).map(|i| if k >> i & 1 == 1 { x[0].clone() } else { zero(false) }).collect()) }
            Kind::ZExt(a) => { let x = self.lin(ar, a); Rc::new((0..w).map(|i| if i < x.len() { x[i].clone() } else { zero(false) }).collect()) }
            Kind::SExt(a) => { let x = self.lin(ar, a); Rc::new((0..w).map(|i| x[i.min(x.len() - 1)].clone()).collect()) }
            Kind::Extract(a, lo) => { let x = self.lin(ar, a); Rc::new((0..w).map(|i| x[i + lo as usize].clone()).collect()) }
            Kind::Concat(h, l) => { let (x, y) = (self.lin(ar, h), self.lin(ar, l)); Rc::new(y.iter().chain(x.iter()).cloned().collect()) }
            Kind::Ite(c, a, b) => {
                let (lc, x, y) = (self.lin(ar, c), self.lin(ar, a), self.lin(ar, b));
                let lc = lc[0].clone();
                Rc::new((0..w).map(|i| {
                    let d = xor(&x[i], &y[i]);
                    // y ^ c*(x^y): affine when x^y is constant
                    if d.at.is_empty() { if d.c { xor(&y[i], &lc) } else { y[i].clone() } } else { Lin { at: Rc::new(vec![(id as u64) << 8 | i as u64]), c: false } }
                }).collect())
            }
            _ => self.atoms(id, n.w),
        };
        self.cells += r.iter().map(|l| l.at.len() + 4).sum::<usize>();
        self.memo.insert(id, r.clone());
        r
    }
    pub fn heavy(&mut self, ar: &Arena, c: Id) -> bool { self.xors(ar, c) >= 40 }
    /// input bits whose flip may change the truth of a XOR-network equality inside `c`
    pub fn flips(&mut self, ar: &Arena, c: Id) -> Vec<(u32, u16)> {
        if self.xors(ar, c) < 12 { return vec![]; }
        let mut out = vec![]; let mut st = vec![c];
        while let Some(x) = st.pop() {
            if out.len() > 24 || self.xors(ar, x) < 12 { continue; }
            match ar.nodes[x as usize].k {
                Kind::Bin(Op::Eq, a, b) if ar.w(a) > 1 => {
                    let (p, q) = (self.lin(ar, a), self.lin(ar, b));
                    for i in 0..p.len() { let d = xor(&p[i], &q[i]); for &t in d.at.iter().take(3) { if let Kind::Var(ix, false) = ar.nodes[(t >> 8) as usize].k { out.push((ix, (t & 255) as u16)); } } if out.len() > 24 { break; } }
                }
                Kind::Bin(_, a, b) if ar.w(x) == 1 => { st.push(a); st.push(b); }
                Kind::Ite(k, a, b) if ar.w(x) == 1 => { st.push(k); st.push(a); st.push(b); }
                _ => {}
            }
        }
        out
    }
    /// an equal term in which every XOR network is replaced by one representative of its affine form
    fn canon(&mut self, ar: &mut Arena, id: Id) -> Id {
        if let Some(&x) = self.canon.get(&id) { return x; }
        let n = ar.nodes[id as usize];
        if n.fp || self.xors(ar, id) == 0 { self.canon.insert(id, id); return id; }
        let linear = matches!(n.k, Kind::Bin(Op::Xor, ..) | Kind::ZExt(_) | Kind::SExt(_) | Kind::Extract(..) | Kind::Concat(..) | Kind::Ite(..) | Kind::Bin(Op::Or, ..) | Kind::Bin(Op::And, ..) | Kind::Bin(Op::Shl, ..) | Kind::Bin(Op::LShr, ..));
        if linear {
            let l = self.lin(ar, id);
            if !l.iter().any(|b| b.at.iter().any(|t| (t >> 8) as Id == id)) {
                let mut out: Vec<Lin> = Vec::with_capacity(l.len());
                for b in l.iter() {
                    let mut acc = zero(b.c); let mut keep: Vec<u64> = vec![];
                    for &t in b.at.iter() {
                        let a = (t >> 8) as Id;
                        let c = self.canon(ar, a);
                        if c == a { keep.push(t); } else { let cl = self.lin(ar, c); acc = xor(&acc, &cl[(t & 255) as usize]); }
                    }
                    out.push(xor(&acc, &Lin { at: Rc::new(keep), c: false }));
                }
                let r = self.rep(ar, &out, id);
                self.canon.insert(id, r);
                return r;
            }
        }
        let r = match n.k {
            Kind::Bin(op, a, b) => { let (x, y) = (self.canon(ar, a), self.canon(ar, b)); ar.bin(op, x, y) }
            Kind::Ite(c, a, b) => { let (c, x, y) = (self.canon(ar, c), self.canon(ar, a), self.canon(ar, b)); ar.ite(c, x, y) }
            Kind::Concat(a, b) => { let (x, y) = (self.canon(ar, a), self.canon(ar, b)); ar.concat(x, y) }
            Kind::ZExt(a) => { let x = self.canon(ar, a); ar.zext(x, n.w) }
            Kind::SExt(a) => { let x = self.canon(ar, a); ar.sext(x, n.w) }
            Kind::Extract(a, lo) => { let x = self.canon(ar, a); ar.extract(x, lo, n.w) }
            _ => id,
        };
        let r = if let Kind::Bin(Op::Eq, a, b) = ar.nodes[r as usize].k {
            if ar.w(a) > 1 {
                let (x, y) = (self.lin(ar, a), self.lin(ar, b));
                let (mut all, mut never) = (true, false);
                for i in 0..x.len() { let d = xor(&x[i], &y[i]); if !d.at.is_empty() { all = false; } else if d.c { never = true; } }
                if never { ar.cst(0, 1) } else if all { ar.cst(1, 1) } else { r }
            } else { r }
        } else { r };
        self.canon.insert(id, r);
        r
    }
    fn rep(&mut self, ar: &mut Arena, l: &[Lin], id: Id) -> Id {
        if l.iter().all(|b| b.at.is_empty()) { let mut v = 0u128; for (i, b) in l.iter().enumerate() { if b.c { v |= 1 << i; } } return ar.cst(v, l.len() as u16); }
        let key: Vec<(Rc<Vec<u64>>, bool)> = l.iter().map(|b| (b.at.clone(), b.c)).collect();
        *self.reps.entry(key).or_insert(id)
    }
    /// rewrites a condition: terms over XOR networks that are equal by their affine forms become equal terms
    pub fn cond(&mut self, ar: &mut Arena, c: Id) -> Id {
        if ar.is_const(c).is_some() || self.xors(ar, c) < 12 { return c; }
        self.canon(ar, c)
    }
}
