//! Symbolic interpreter: one path per run, driven by a concrete model (concolic), forking by
//! handing (model, decision-prefix-length) work items back to the driver.
use crate::expr::*;
use crate::ll::*;
use crate::z3::{Sat, Solver};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;

#[derive(Clone)]
pub struct ObjData { pub b: Vec<u8>, pub s: Vec<u32> }
pub const UNINIT: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OK { Heap, Stack, Global }
#[derive(Clone)]
pub struct Obj { pub d: Arc<ObjData>, pub base: u64, pub size: u64, pub align: u64, pub kind: OK, pub alive: bool, pub ro: bool }

#[derive(Clone, Debug)]
/// `fixed`: for every access through a symbolic address so far, whether the path had pinned the address
pub struct Work { pub model: Vec<u128>, pub skip: usize, pub fixed: Vec<bool> }

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub msg: String, pub stack: Vec<String>, pub inputs: Vec<(String, u16, u128)>, pub undef_dep: bool }

#[derive(Debug)]
pub enum End { Done, Violation(Box<Violation>), Pruned, Inconclusive(String) }
type X<A> = Result<A, End>;

pub struct Frame { f: u32, fp: *const Func, regs: Vec<V>, pc: usize, block: u32, prev: u32, stack_objs: Vec<u32>, ret: Option<u32> }

pub struct Config { pub max_steps: u64, pub max_obj_enum: u64, pub solver_ms: u32, pub trace: bool, pub trace_slow: bool }

/// what calling a function defined in the module really does
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hook { None, Panic, PanicNoUnwind, Abort, Redirect(u32), Nop, Alloc, AllocZ, Dealloc, Realloc }

pub struct Prog { pub m: Module, pub hooks: Vec<Hook>, pub gl_data: Vec<std::sync::OnceLock<Arc<ObjData>>> }

pub struct Th { frames: Vec<Frame>, state: u8 /*0 runnable 1 futex 2 done 3 join*/, wait: u64, resume: bool }

/// who touched a byte last, and when: (thread, its clock, atomically)
#[derive(Default, Clone)]
struct Cell { w: Option<(u32, u32, bool)>, r: Vec<(u32, u32, bool)> }
/// happens-before between threads: vector clocks, and what each memory location carries from its release stores
#[derive(Default)]
struct Hb { vc: Vec<Vec<u32>>, pend: Vec<Vec<u32>>, rel: Vec<Vec<u32>>, loc: HashMap<u64, Vec<u32>>, sh: HashMap<u32, HashMap<u32, Cell>>, atomic: bool }
fn vjoin(a: &mut Vec<u32>, b: &[u32]) { if a.len() < b.len() { a.resize(b.len(), 0); } for (x, y) in a.iter_mut().zip(b) { *x = (*x).max(*y); } }

pub struct Run<'p> {
    pub p: &'p Prog,
    pub cfg: &'p Config,
    pub ar: Arena,
    pub z: Solver,
    objs: Vec<Option<Obj>>,
    free_stack: Vec<u32>,
    frames: Vec<Frame>,
    threads: Vec<Th>,
    cur: usize,
    tls: HashMap<(usize, u32), u32>,
    pc: Vec<Id>,
    pc_vars: Vec<std::rc::Rc<Vec<u32>>>,
    known: HashMap<Id, bool>,
    ndec: usize,
    skip: usize,
    nvars: u32,
    pub inputs: Vec<(String, u16, u32)>,
    pub out: Vec<Work>,
    pub violations: Vec<Violation>,
    pub covers: HashSet<String>,
    pub touched: HashSet<u32>,
    pub steps: u64,
    pub total_steps: u64,
    pub asserts: u64,
    pub implicit: u64,
    pub incon: Vec<String>,
    real_fmt: bool,
    errno: Option<u64>,
    pub obs: Vec<(String, u128)>,
    sched_left: u32,
    hb: Hb,
    sched_on: bool,
    expect_panic: bool,
    gf: crate::gf2::Gf2,
    pub gf_decided: u64,
    iv: crate::iv::Iv,
    pub iv_decided: u64, fixlog: Vec<bool>, fixpos: usize,
    absmap: HashMap<Id, Id>,
    absdef: HashMap<Id, (Op, Id, Id, u128)>,
    absn: u32,
}

fn w_of(t: &T) -> u16 { match t.k { TK::Int(w) => w, TK::Ptr => 64, TK::F32 => 32, TK::F64 => 64, _ => 0 } }

impl<'p> Run<'p> {
    pub fn new(p: &'p Prog, cfg: &'p Config) -> Self {
        Run {
            p, cfg, ar: Arena::new(), z: Solver::new(cfg.solver_ms), objs: vec![], free_stack: vec![], frames: vec![], threads: vec![], cur: 0, tls: HashMap::new(), pc: vec![], pc_vars: vec![],
            known: HashMap::new(), ndec: 0, skip: 0, nvars: 0, inputs: vec![], out: vec![], violations: vec![], covers: HashSet::new(), touched: HashSet::new(), steps: 0, total_steps: 0,
            asserts: 0, implicit: 0, incon: vec![], real_fmt: false, errno: None, obs: vec![], sched_left: 0, hb: Hb::default(), sched_on: false, expect_panic: false, gf: Default::default(), gf_decided: 0, iv: Default::default(), iv_decided: 0, fixlog: vec![], fixpos: 0, absmap: HashMap::new(), absdef: HashMap::new(), absn: 0,
        }
    }

    pub fn run_path(&mut self, entry: u32, w: Work) -> End {
        if self.ar.nodes.len() > 2_000_000 {
            // bound memory: drop all cached terms (the prefix is re-executed anyway)
            let st = self.z.stats.clone();
            self.ar = Arena::new();
            self.gf = Default::default();
            self.absmap.clear(); self.absdef.clear();
            self.z = Solver::new(self.cfg.solver_ms);
            self.z.stats = st;
        }
        // the linear forms are a cache only
        if self.gf.cells > 60_000_000 { self.gf = Default::default(); }
        self.ar.start_path(w.model);
        self.objs.clear();
        self.objs.resize_with((GLOBAL_ID0 as usize) + self.p.m.globals.len(), || None);
        self.free_stack.clear();
        self.frames.clear();
        self.threads.clear();
        self.threads.push(Th { frames: vec![], state: 0, wait: 0, resume: false });
        self.cur = 0;
        self.hb = Hb { vc: vec![vec![1]], pend: vec![vec![]], rel: vec![vec![]], ..Hb::default() };
        self.tls.clear();
        self.pc.clear();
        self.pc_vars.clear();
        self.known.clear();
        self.iv.clear();
        self.ndec = 0;
        self.skip = w.skip;
        self.fixlog = w.fixed;
        self.fixpos = 0;
        self.nvars = 0;
        self.inputs.clear();
        self.steps = 0;
        self.real_fmt = false;
        self.errno = None;
        self.obs.clear();
        self.sched_on = false;
        self.sched_left = 0;
        self.expect_panic = false;
        let r = match self.push_call(entry, vec![], None) { Ok(()) => self.exec(), Err(e) => Err(e) };
        self.total_steps += self.steps;
        match r { Ok(()) => End::Done, Err(e) => e }
    }

    // ---------------------------------------------------------------- values
    fn fresh(&mut self, w: u16, undef: bool) -> Id { let i = self.nvars; self.nvars += 1; self.ar.var(i, w, undef) }
    fn id(&mut self, v: &V, w: u16) -> Id {
        match v {
            V::C(c) => self.ar.cst(*c, w),
            V::S(i) => { debug_assert_eq!(self.ar.w(*i), w); *i }
            V::U => self.fresh(w, true),
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, id: Id) -> V { match self.ar.is_const(id) { Some(c) => V::C(c), None => V::S(id) } }

    fn viol<A>(&mut self, kind: &str, msg: String) -> X<A> {
        let v = self.mk_viol(kind, msg);
        Err(End::Violation(Box::new(v)))
    }
    fn mk_viol(&mut self, kind: &str, msg: String) -> Violation { let m = self.ar.model.clone(); self.mk_viol_model(kind, msg, &m) }
    fn mk_viol_model(&mut self, kind: &str, msg: String, model: &[u128]) -> Violation {
        let stack = self.frames.iter().rev().map(|f| self.p.m.funcs[f.f as usize].name.to_string()).take(24).collect();
        let inputs = self.inputs.iter().map(|(n, w, i)| (n.clone(), *w, model.get(*i as usize).copied().unwrap_or(0) & mask(*w))).collect();
        Violation { kind: kind.into(), msg, stack, inputs, undef_dep: false }
    }

    // ---------------------------------------------------------------- path condition
    fn add_pc(&mut self, c: Id) {
        if self.ar.is_const(c).is_some() { return; }
        if self.known.contains_key(&c) { return; }
        self.known.insert(c, true);
        let n = self.ar.not1(c);
        self.known.insert(n, false);
        let vs = self.ar.vars(c);
        self.pc.push(c);
        self.pc_vars.push(vs);
        self.iv.learn(&self.ar, c, true);
        // conjunctions also teach their parts
        if let Kind::Bin(Op::And, a, b) = self.ar.nodes[c as usize].k {
            for x in [a, b] { if self.ar.is_const(x).is_none() && !self.known.contains_key(&x) { self.known.insert(x, true); let nx = self.ar.not1(x); self.known.insert(nx, false); } }
        }
    }
    /// PC ∧ c, sliced to the constraints connected with c
    fn query(&mut self, c: Id) -> (Sat, Vec<(u32, u128)>) {
        if let Some(v) = self.ar.is_const(c) { if v == 0 { return (Sat::Unsat, vec![]); } }
        let mut set: HashSet<u32> = self.ar.vars(c).iter().copied().collect();
        let mut used = vec![false; self.pc.len()];
        let mut q = vec![c];
        loop {
            let mut ch = false;
            for i in 0..self.pc.len() {
                if used[i] { continue; }
                if self.pc_vars[i].iter().any(|v| set.contains(v)) {
                    used[i] = true;
                    ch = true;
                    set.extend(self.pc_vars[i].iter().copied());
                    q.push(self.pc[i]);
                }
            }
            if !ch { break; }
        }
        let fl = self.gf.flips(&self.ar, c);
        if !fl.is_empty() {
            let base = self.ar.model.clone();
            for (ix, bit) in fl {
                let mut m = base.clone();
                while m.len() <= ix as usize { m.push(0); }
                m[ix as usize] ^= 1 << bit;
                if q.iter().all(|&e| self.ar.eval_with(e, &m) != 0) { self.gf_decided += 1; return (Sat::Sat, vec![(ix, m[ix as usize])]); }
            }
        }
        if self.gf.heavy(&self.ar, c) { if let Some(m) = self.guess(&q, &set, 300) { return (Sat::Sat, m); } }
        // sound over-approximation first: products and remainders become unconstrained values
        let aq: Vec<Id> = q.iter().map(|&x| self.abstr(x)).collect();
        if aq != q {
            // and as uninterpreted functions: equal operands give equal results
            let mut vs: Vec<Id> = vec![]; let mut seen: HashSet<Id> = HashSet::new();
            let mut todo = aq.clone();
            while let Some(x) = todo.pop() {
                for &v in self.ar.vars(x).iter() { if seen.insert(v) { if let Some(&(_, a, b, _)) = self.absdef.get(&v) { vs.push(v); todo.push(a); todo.push(b); } } }
            }
            vs.sort_unstable();
            let mut aq = aq.clone();
            for &v in &vs { let hi = self.absdef[&v].3; if hi < mask(self.ar.w(v)) { let k = self.ar.cst(hi, self.ar.w(v)); let c = self.ar.bin(Op::Ule, v, k); aq.push(c); } }
            if let (Sat::Unsat, _) = self.zq(&aq, "abs") { return (Sat::Unsat, vec![]); }
            if vs.len() >= 2 && vs.len() <= 24 {
                let mut a2 = aq.clone();
                for i in 0..vs.len() { for j in i + 1..vs.len() {
                    let ((o1, a1, b1, _), (o2, x2, y2, _)) = (self.absdef[&vs[i]], self.absdef[&vs[j]]);
                    if o1 != o2 || self.ar.w(a1) != self.ar.w(x2) || self.ar.w(vs[i]) != self.ar.w(vs[j]) { continue; }
                    let (e1, e2) = (self.ar.eq(a1, x2), self.ar.eq(b1, y2));
                    let same = self.ar.and1(e1, e2);
                    if self.ar.is_const(same) == Some(0) { continue; }
                    let ns = self.ar.not1(same); let er = self.ar.eq(vs[i], vs[j]);
                    let c = self.ar.or1(ns, er);
                    a2.push(c);
                } }
                if a2.len() > aq.len() { if let (Sat::Unsat, _) = self.zq(&a2, "uf") { return (Sat::Unsat, vec![]); } }
            }
        }
        if aq != q { if let Some(m) = self.guess(&q, &set, 40) { return (Sat::Sat, m); } }
        self.zq(&q, "full")
    }
    /// a model by luck: values for the variables of `q` near the current ones or random (never
    /// decides that there is none; saves the solver a search through XOR networks and products)
    fn guess(&mut self, q: &[Id], vars: &HashSet<u32>, n: u32) -> Option<Vec<(u32, u128)>> {
        let mut vs: Vec<(u32, u16)> = vars.iter().filter_map(|&v| match self.ar.nodes[v as usize].k { Kind::Var(ix, false) => Some((ix, self.ar.w(v))), _ => None }).collect();
        vs.sort_unstable();
        if vs.is_empty() { return None; }
        let base = self.ar.model.clone();
        let mut s = 0x9e3779b97f4a7c15u64;
        let mut rnd = move || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
        for t in 0..n {
            let mut m = base.clone();
            for &(ix, w) in &vs {
                while m.len() <= ix as usize { m.push(0); }
                if t % 2 == 0 || rnd() % vs.len() as u64 == 0 { m[ix as usize] = ((rnd() as u128) << 64 | rnd() as u128) & mask(w); }
            }
            if q.iter().all(|&e| self.ar.eval_with(e, &m) != 0) { return Some(vs.iter().map(|&(ix, _)| (ix, m[ix as usize])).collect()); }
        }
        None
    }
    fn zq(&mut self, q: &[Id], what: &str) -> (Sat, Vec<(u32, u128)>) {
        let t0 = std::time::Instant::now();
        let r = self.z.check(&mut self.ar, q);
        if self.cfg.trace_slow && std::env::var("RSYM_Q").is_ok() { let c = q[0]; eprintln!("Q {} {} {:?} n={} {}us :: {}", self.where_(), what, r.0, q.len(), t0.elapsed().as_micros(), self.ar.show(c, 8).chars().take(200).collect::<String>()); }
        if t0.elapsed().as_secs() >= 2 && self.cfg.trace_slow { let k: Vec<String> = q.iter().map(|&x| self.ar.show(x, 12)).collect(); eprintln!("SLOW {:?} {:?} in {} {} :: {}", t0.elapsed(), r.0, self.where_(), what, k.join("\n   ").chars().take(6000).collect::<String>()); }
        r
    }
    fn abstr(&mut self, id: Id) -> Id {
        if let Some(&x) = self.absmap.get(&id) { return x; }
        let n = self.ar.nodes[id as usize];
        let r = match n.k {
            Kind::Bin(op @ (Op::FMul | Op::FDiv), a, b) => {
                let (a, b) = (self.abstr(a), self.abstr(b));
                self.absn += 1;
                let v = self.ar.var((1 << 24) + self.absn, n.w, n.undef);
                self.absdef.insert(v, (op, a, b, mask(n.w)));
                v
            }
            Kind::FNaN(a) => { let x = self.abstr(a); if x == a { id } else { self.ar.un(Kind::FNaN(x), n.w) } }
            Kind::FSqrt(a) => { let x = self.abstr(a); if x == a { id } else { self.ar.un(Kind::FSqrt(x), n.w) } }
            Kind::FRnd(a, m) => { let x = self.abstr(a); if x == a { id } else { self.ar.un(Kind::FRnd(x, m), n.w) } }
            Kind::Bin(op @ (Op::Mul | Op::UDiv | Op::URem), a, b) if n.w >= 16 && (n.hi > 255 || op != Op::Mul)
                && (op == Op::Mul || self.ar.is_const(b).map_or(true, |k| !k.is_power_of_two()))
                && !(op == Op::Mul && self.ar.is_const(b).map_or(false, |k| k.count_ones() <= 2)) => {
                let (a, b) = (self.abstr(a), self.abstr(b));
                self.absn += 1;
                let bits = (128 - n.hi.leading_zeros()) as u16;
                let v = self.ar.var((1 << 24) + self.absn, bits.min(n.w), n.undef);
                self.absdef.insert(v, (op, a, b, n.hi));
                if bits < n.w { self.ar.zext(v, n.w) } else { v }
            }
            Kind::Bin(o, a, b) => { let (x, y) = (self.abstr(a), self.abstr(b)); if x == a && y == b { id } else { self.ar.bin(o, x, y) } }
            Kind::Concat(a, b) => { let (x, y) = (self.abstr(a), self.abstr(b)); if x == a && y == b { id } else { self.ar.concat(x, y) } }
            Kind::Ite(z, a, b) => { let (q, x, y) = (self.abstr(z), self.abstr(a), self.abstr(b)); if q == z && x == a && y == b { id } else { self.ar.ite(q, x, y) } }
            Kind::ZExt(a) => { let x = self.abstr(a); if x == a { id } else { self.ar.zext(x, n.w) } }
            Kind::SExt(a) => { let x = self.abstr(a); if x == a { id } else { self.ar.sext(x, n.w) } }
            Kind::Extract(a, lo) => { let x = self.abstr(a); if x == a { id } else { self.ar.extract(x, lo, n.w) } }
            _ => id,
        };
        self.absmap.insert(id, r);
        r
    }
    fn model_with(&self, m: &[(u32, u128)]) -> Vec<u128> {
        let mut r = self.ar.model.clone();
        for &(i, v) in m { while r.len() <= i as usize { r.push(0); } r[i as usize] = v; }
        r
    }
    fn check_undef(&mut self, c: Id) -> X<()> {
        if !self.ar.nodes[c as usize].undef { return Ok(()); }
        // does the outcome really depend on uninitialised bytes?
        let vs = self.ar.vars(c);
        let mut map = HashMap::new();
        for &v in vs.iter() {
            if let Kind::Var(_, true) = self.ar.nodes[v as usize].k { let w = self.ar.w(v); let f = self.fresh(w, true); map.insert(v, f); }
        }
        let c2 = self.subst(c, &mut map);
        let d = self.ar.bin(Op::Xor, c, c2);
        match self.query(d) {
            (Sat::Sat, m) => { let mm = self.model_with(&m); let mut v = self.mk_viol_model("uninit", "outcome depends on uninitialised memory".into(), &mm); v.undef_dep = true; Err(End::Violation(Box::new(v))) }
            (Sat::Unsat, _) => Ok(()),
            _ => Err(End::Inconclusive("solver timeout (uninit)".into())),
        }
    }
    fn subst(&mut self, c: Id, map: &mut HashMap<Id, Id>) -> Id {
        if let Some(&r) = map.get(&c) { return r; }
        let n = self.ar.nodes[c as usize];
        if !n.undef { return c; }
        let r = match n.k {
            Kind::Bin(o, a, b) => { let (x, y) = (self.subst(a, map), self.subst(b, map)); self.ar.bin(o, x, y) }
            Kind::Concat(a, b) => { let (x, y) = (self.subst(a, map), self.subst(b, map)); self.ar.concat(x, y) }
            Kind::Ite(z, a, b) => { let (q, x, y) = (self.subst(z, map), self.subst(a, map), self.subst(b, map)); self.ar.ite(q, x, y) }
            Kind::ZExt(a) => { let x = self.subst(a, map); self.ar.zext(x, n.w) }
            Kind::SExt(a) => { let x = self.subst(a, map); self.ar.sext(x, n.w) }
            Kind::Extract(a, lo) => { let x = self.subst(a, map); self.ar.extract(x, lo, n.w) }
            Kind::UToF(a) => { let x = self.subst(a, map); self.ar.un(Kind::UToF(x), n.w) }
            Kind::SToF(a) => { let x = self.subst(a, map); self.ar.un(Kind::SToF(x), n.w) }
            Kind::FToU(a) => { let x = self.subst(a, map); self.ar.un(Kind::FToU(x), n.w) }
            Kind::FToS(a) => { let x = self.subst(a, map); self.ar.un(Kind::FToS(x), n.w) }
            Kind::FCvt(a) => { let x = self.subst(a, map); self.ar.un(Kind::FCvt(x), n.w) }
            Kind::FSqrt(a) => { let x = self.subst(a, map); self.ar.un(Kind::FSqrt(x), n.w) }
            Kind::FRnd(a, m) => { let x = self.subst(a, map); self.ar.un(Kind::FRnd(x, m), n.w) }
            Kind::FNaN(a) => { let x = self.subst(a, map); self.ar.un(Kind::FNaN(x), n.w) }
            _ => c,
        };
        map.insert(c, r);
        r
    }
    fn branch(&mut self, c: Id) -> X<bool> {
        if let Some(v) = self.ar.is_const(c) { return Ok(v != 0); }
        if let Some(&k) = self.known.get(&c) { return Ok(k); }
        self.check_undef(c)?;
        let c = self.gf.cond(&mut self.ar, c);
        if let Some(v) = self.ar.is_const(c) { self.gf_decided += 1; return Ok(v != 0); }
        let dir = self.ar.cval(c) != 0;
        // counted as a decision, so that re-execution does not depend on what the intervals know
        match self.iv.truth(&self.ar, c) { Some(t) if t == dir => { self.iv_decided += 1; self.ndec += 1; return Ok(dir); } Some(_) => self.incon.push("interval analysis contradicts the model".into()), None => {} }
        let nc = self.ar.not1(c);
        let (taken, other) = if dir { (c, nc) } else { (nc, c) };
        if self.ndec >= self.skip {
            match self.query(other) {
                (Sat::Sat, m) => { let mm = self.model_with(&m); self.out.push(Work { model: mm, skip: self.ndec + 1, fixed: self.fixlog.clone() }); }
                (Sat::Unsat, _) => {}
                (Sat::Unknown, _) => { self.incon.push(format!("solver timeout at branch in {}", self.where_())); }
            }
        }
        self.ndec += 1;
        self.add_pc(taken);
        Ok(dir)
    }
    fn where_(&self) -> String { self.frames.last().map(|f| self.p.m.funcs[f.f as usize].name.to_string()).unwrap_or_default() }
    fn assume(&mut self, c: Id) -> X<()> {
        if let Some(v) = self.ar.is_const(c) { return if v != 0 { Ok(()) } else { Err(End::Pruned) }; }
        if let Some(&k) = self.known.get(&c) { return if k { Ok(()) } else { Err(End::Pruned) }; }
        if self.ar.cval(c) != 0 { self.add_pc(c); return Ok(()); }
        if self.iv.truth(&self.ar, c) == Some(false) { return Err(End::Pruned); }
        match self.query(c) {
            (Sat::Sat, m) => { let mm = self.model_with(&m); self.out.push(Work { model: mm, skip: self.ndec.max(self.skip), fixed: self.fixlog.clone() }); }
            (Sat::Unsat, _) => {}
            (Sat::Unknown, _) => self.incon.push("solver timeout at assume".into()),
        }
        Err(End::Pruned)
    }
    fn assert_(&mut self, c: Id, kind: &str, msg: &str) -> X<()> {
        self.asserts += 1;
        if let Some(v) = self.ar.is_const(c) { return if v != 0 { Ok(()) } else { self.viol(kind, msg.into()) }; }
        if let Some(&k) = self.known.get(&c) { return if k { Ok(()) } else { self.viol(kind, msg.into()) }; }
        self.check_undef(c)?;
        let c = self.gf.cond(&mut self.ar, c);
        if let Some(v) = self.ar.is_const(c) { self.gf_decided += 1; if v != 0 { return Ok(()); } }
        let dir = self.ar.cval(c) != 0;
        if !dir {
            let v = self.mk_viol(kind, msg.into());
            self.violations.push(v);
            if self.gf.heavy(&self.ar, c) { return Err(End::Pruned); }
            match self.query(c) {
                (Sat::Sat, m) => { let mm = self.model_with(&m); self.out.push(Work { model: mm, skip: self.ndec.max(self.skip), fixed: self.fixlog.clone() }); }
                _ => {}
            }
            return Err(End::Pruned);
        }
        if self.ndec >= self.skip && self.iv.truth(&self.ar, c) == Some(true) { self.iv_decided += 1; return Ok(()); }
        if self.ndec >= self.skip {
            let nc = self.ar.not1(c);
            match self.query(nc) {
                (Sat::Sat, m) => { let mm = self.model_with(&m); let v = self.mk_viol_model(kind, msg.into(), &mm); self.violations.push(v); }
                (Sat::Unsat, _) => {}
                (Sat::Unknown, _) => { if std::env::var("RSYM_DBG").is_ok() { eprintln!("{}", self.ar.show(c, 14)); } self.incon.push(format!("solver timeout at assertion: {}", msg)) }
            }
        }
        self.add_pc(c);
        Ok(())
    }
    fn concretize(&mut self, v: &V, w: u16) -> X<u128> {
        match v {
            V::C(c) => Ok(*c),
            _ => {
                let id = self.id(v, w);
                if let Some(c) = self.ar.is_const(id) { return Ok(c); }
                self.check_undef_any(id)?;
                let c = self.ar.cval(id);
                let k = self.ar.cst(c, w);
                let e = self.ar.eq(id, k);
                if self.known.get(&e) == Some(&true) { return Ok(c); }
                if self.ndec >= self.skip {
                    // every other feasible value becomes a work item of its own now: the
                    // children take this decision from their model and do not enumerate again
                    let mut ex = self.ar.not1(e);
                    let mut n = 1u64;
                    loop {
                        if n == 1 && self.iv.truth(&self.ar, e) == Some(true) { self.iv_decided += 1; break; }
                        match self.query(ex) {
                            (Sat::Sat, m) => {
                                let mm = self.model_with(&m);
                                let x = self.ar.eval_with(id, &mm);
                                self.out.push(Work { model: mm, skip: self.ndec + 1, fixed: self.fixlog.clone() });
                                n += 1;
                                if n > self.cfg.max_obj_enum { self.incon.push(format!("too many values to enumerate in {}", self.where_())); break; }
                                let kx = self.ar.cst(x, w);
                                let ne = self.ar.eq(id, kx);
                                let ne = self.ar.not1(ne);
                                ex = self.ar.bin(Op::And, ex, ne);
                            }
                            (Sat::Unsat, _) => break,
                            (Sat::Unknown, _) => { self.incon.push(format!("solver timeout at concretisation in {}", self.where_())); break; }
                        }
                    }
                }
                self.ndec += 1;
                self.add_pc(e);
                Ok(c)
            }
        }
    }
    fn check_undef_any(&mut self, id: Id) -> X<()> {
        if !self.ar.nodes[id as usize].undef { return Ok(()); }
        let w = self.ar.w(id);
        let vs = self.ar.vars(id);
        let mut map = HashMap::new();
        for &v in vs.iter() { if let Kind::Var(_, true) = self.ar.nodes[v as usize].k { let w = self.ar.w(v); let f = self.fresh(w, true); map.insert(v, f); } }
        let c2 = self.subst(id, &mut map);
        let _ = w;
        let e = self.ar.eq(id, c2);
        let d = self.ar.not1(e);
        match self.query(d) {
            (Sat::Sat, m) => { let mm = self.model_with(&m); let mut v = self.mk_viol_model("uninit", "value depends on uninitialised memory".into(), &mm); v.undef_dep = true; Err(End::Violation(Box::new(v))) }
            (Sat::Unsat, _) => Ok(()),
            _ => Err(End::Inconclusive("solver timeout (uninit)".into())),
        }
    }

    // ---------------------------------------------------------------- memory
    fn new_obj(&mut self, size: u64, align: u64, kind: OK, init: Option<u8>) -> u64 {
        let d = ObjData { b: vec![init.unwrap_or(0xAA); size as usize], s: if init.is_some() { vec![] } else { vec![UNINIT; size as usize] } };
        let id = if kind == OK::Stack { self.free_stack.pop() } else { None };
        if let Some(i) = id { if self.threads.len() > 1 { self.hb.sh.remove(&i); } }
        let id = match id { Some(i) => i, None => { self.objs.push(None); (self.objs.len() - 1) as u32 } };
        // aligned to exactly `align` and to nothing more
        let base = ((id as u64) << 32) + BASE_OFF + align;
        self.objs[id as usize] = Some(Obj { d: Arc::new(d), base, size, align, kind, alive: true, ro: false });
        base
    }
    fn obj_of(&mut self, addr: u64) -> X<usize> {
        let i = (addr >> 32) as usize;
        if i >= GLOBAL_ID0 as usize && i < self.objs.len() {
            if self.objs[i].is_none() {
                let g = i - GLOBAL_ID0 as usize;
                if g < self.p.m.globals.len() { self.load_global(g)?; }
            }
            if self.objs[i].is_some() { return Ok(i); }
        }
        let what = if addr < 4096 { "null pointer" } else { "invalid pointer" };
        self.viol("memory", format!("{} dereference at {:#x}", what, addr))
    }
    fn load_global(&mut self, g: usize) -> X<()> {
        let gd = &self.p.m.globals[g];
        let d = match self.p.gl_data[g].get() {
            Some(d) => d.clone(),
            None => {
                let init = match self.p.m.global_init(g as u32) { Ok(x) => x, Err(e) => return Err(End::Inconclusive(format!("global {}: {}", gd.name, e))) };
                let mut d = ObjData { b: vec![0; gd.t.size as usize], s: vec![] };
                if let Some(v) = init { fill(&mut d, 0, &gd.t, &v); }
                let d = Arc::new(d);
                let _ = self.p.gl_data[g].set(d.clone());
                d
            }
        };
        let i = GLOBAL_ID0 as usize + g;
        let base = ((i as u64) << 32) + BASE_OFF + gd.align;
        self.objs[i] = Some(Obj { size: gd.t.size, d, base, align: gd.align, kind: OK::Global, alive: true, ro: gd.constant });
        Ok(())
    }
    /// concrete address -> (object, offset), checking liveness and bounds
    fn locate(&mut self, addr: u64, n: u64, write: bool) -> X<(usize, u64)> {
        let i = self.obj_of(addr)?;
        let o = self.objs[i].as_ref().unwrap();
        let off = addr.wrapping_sub(o.base);
        if !o.alive { let k = o.kind; return self.viol("memory", format!("use of freed {:?} memory ({} bytes at offset {})", k, n, off as i64)); }
        if off > o.size || n > o.size - off {
            let (k, s) = (o.kind, o.size);
            return self.viol("memory", format!("out-of-bounds {} of {} bytes at offset {} of a {}-byte {:?} object", if write { "write" } else { "read" }, n, off as i64, s, k));
        }
        if write && o.ro { return self.viol("memory", "write to constant memory".into()); }
        Ok((i, off))
    }
    fn check_align(&mut self, addr: u64, align: u64) -> X<()> {
        if align > 1 && addr & (align - 1) != 0 { return self.viol("memory", format!("misaligned access (address ≡ {} mod {}, needs alignment {})", addr & (align - 1), align, align)); }
        Ok(())
    }
    fn known_tz(&self, id: Id) -> u32 {
        let n = &self.ar.nodes[id as usize];
        match n.k {
            Kind::Const(0) => n.w as u32,
            Kind::Const(c) => c.trailing_zeros(),
            Kind::ZExt(a) => { let t = self.known_tz(a); if t >= self.ar.w(a) as u32 { n.w as u32 } else { t } }
            Kind::Concat(h, l) => { let t = self.known_tz(l); if t >= self.ar.w(l) as u32 { t + self.known_tz(h) } else { t } }
            Kind::Bin(Op::Add | Op::Sub | Op::Or | Op::Xor, a, b) => self.known_tz(a).min(self.known_tz(b)),
            Kind::Bin(Op::And, a, b) => self.known_tz(a).max(self.known_tz(b)),
            Kind::Bin(Op::Mul, a, b) => (self.known_tz(a) + self.known_tz(b)).min(n.w as u32),
            Kind::Ite(_, a, b) => self.known_tz(a).min(self.known_tz(b)),
            _ => 0,
        }
    }
    /// Symbolic address: fixes the object, proves/forks the bounds; returns (object, offset expr, lo, hi, stride)
    fn sym_loc(&mut self, addr: Id, n: u64, write: bool) -> X<(usize, Id, u64, u64, u64)> {
        self.check_undef_any(addr)?;
        let a = self.ar.cval(addr) as u64;
        let i = self.obj_of(a)?;
        let (base, size) = { let o = self.objs[i].as_ref().unwrap(); (o.base, o.size) };
        self.locate(a, n, write)?;
        let kb = self.ar.cst(base as u128, 64);
        let off = self.ar.bin(Op::Sub, addr, kb);
        let lim = self.ar.cst((size - n) as u128, 64);
        let inb = self.ar.bin(Op::Ule, off, lim);
        self.implicit += 1;
        if self.ar.is_const(inb).is_none() && self.known.get(&inb) != Some(&true) {
            if self.ndec >= self.skip && self.iv.truth(&self.ar, inb) != Some(true) {
                let mut ex = self.ar.not1(inb);
                loop {
                    match self.query(ex) {
                        (Sat::Sat, m) => {
                            let mm = self.model_with(&m);
                            let x = self.ar.eval_with(addr, &mm) as u64;
                            self.out.push(Work { model: mm, skip: self.ndec + 1, fixed: self.fixlog.clone() });
                            let j = (x >> 32) as usize;
                            let o = match self.objs.get(j).and_then(|o| o.as_ref()) { Some(o) => o, None => break };
                            let (b2, s2) = (o.base, o.size);
                            // an address inside no object is reported by that path
                            if x < b2 || s2 < n || x - b2 > s2 - n || j == i { break; }
                            let kb = self.ar.cst(b2 as u128, 64);
                            let off2 = self.ar.bin(Op::Sub, addr, kb);
                            let lim2 = self.ar.cst((s2 - n) as u128, 64);
                            let in2 = self.ar.bin(Op::Ule, off2, lim2);
                            let nin2 = self.ar.not1(in2);
                            ex = self.ar.bin(Op::And, ex, nin2);
                        }
                        (Sat::Unsat, _) => break,
                        (Sat::Unknown, _) => { self.incon.push(format!("solver timeout at symbolic address in {}", self.where_())); break; }
                    }
                }
            }
            self.ndec += 1;
            self.add_pc(inb);
        }
        let nd = &self.ar.nodes[off as usize];
        let (mut lo, hi) = (nd.lo.min(u64::MAX as u128) as u64, (nd.hi.min((size - n) as u128)) as u64);
        let tz = self.known_tz(off).min(12);
        let stride = 1u64 << tz;
        lo &= !(stride - 1);
        Ok((i, off, lo, hi, stride))
    }
    fn rd_byte_id(&mut self, i: usize, off: u64) -> Id {
        let o = self.objs[i].as_ref().unwrap();
        let s = if o.d.s.is_empty() { 0 } else { o.d.s[off as usize] };
        if s == 0 { let b = o.d.b[off as usize]; self.ar.cst(b as u128, 8) }
        else if s == UNINIT { let f = self.fresh(8, true); Arc::make_mut(&mut self.objs[i].as_mut().unwrap().d).s[off as usize] = f; f }
        else { s }
    }
    fn rd(&mut self, i: usize, off: u64, w: u16) -> V {
        let n = ((w as u64) + 7) / 8;
        let o = self.objs[i].as_ref().unwrap();
        let (a, b) = (off as usize, (off + n) as usize);
        if o.d.s.is_empty() || o.d.s[a..b].iter().all(|x| *x == 0) {
            let mut v = 0u128;
            for k in (a..b).rev() { v = (v << 8) | o.d.b[k] as u128; }
            return V::C(v & mask(w));
        }
        if o.d.s[a..b].iter().all(|x| *x == UNINIT) { return V::U; }
        let mut r = self.rd_byte_id(i, off);
        for k in 1..n { let b = self.rd_byte_id(i, off + k); r = self.ar.concat(b, r); }
        let r = self.ar.trunc(r, w);
        self.v(r)
    }
    fn wr(&mut self, i: usize, off: u64, w: u16, v: &V) {
        let n = ((w as u64) + 7) / 8;
        let o = self.objs[i].as_mut().unwrap();
        let d = Arc::make_mut(&mut o.d);
        match v {
            V::C(c) => {
                let mut c = *c;
                for k in 0..n as usize { d.b[off as usize + k] = c as u8; c >>= 8; }
                if !d.s.is_empty() { for k in 0..n as usize { d.s[off as usize + k] = 0; } }
            }
            V::U => {
                if d.s.is_empty() { d.s = vec![0; d.b.len()]; }
                for k in 0..n as usize { d.s[off as usize + k] = UNINIT; }
            }
            V::S(id) => {
                if d.s.is_empty() { d.s = vec![0; d.b.len()]; }
                let full = self.ar.zext(*id, (n * 8) as u16);
                for k in 0..n {
                    let e = self.ar.extract(full, (k * 8) as u16, 8);
                    let c = self.ar.is_const(e);
                    let d = Arc::make_mut(&mut self.objs[i].as_mut().unwrap().d);
                    match c { Some(c) => { d.b[(off + k) as usize] = c as u8; d.s[(off + k) as usize] = 0; } None => d.s[(off + k) as usize] = e }
                }
            }
            V::A(_) => unreachable!(),
        }
    }
    fn load_t(&mut self, p: &V, t: &T, align: u64) -> X<V> {
        match &t.k {
            TK::Struct(f, offs) => {
                let mut r = vec![];
                for (ft, o) in f.iter().zip(offs) { let q = self.ptr_add(p, *o as i64); r.push(self.load_t(&q, ft, 1)?); }
                Ok(V::A(Arc::new(r)))
            }
            TK::Arr(e, n) | TK::Vect(e, n) => {
                if let (TK::Vect(..), TK::Int(w)) = (&t.k, &e.k) { if w % 8 != 0 { return Err(End::Inconclusive("load of sub-byte vector".into())); } }
                let mut r = vec![];
                for k in 0..*n { let q = self.ptr_add(p, (k * e.size) as i64); r.push(self.load_t(&q, e, 1)?); }
                Ok(V::A(Arc::new(r)))
            }
            TK::Void => Ok(V::U),
            _ => self.load_i(p, w_of(t), align),
        }
    }
    /// an address with one value only on this path.  The answer is recorded and repeated when a
    /// prefix is executed again, so that a path and its descendants see the same terms.
    fn pin(&mut self, p: &V) -> V {
        let id = match p { V::S(i) if !self.ar.nodes[*i as usize].undef => *i, _ => return p.clone() };
        let f = if self.fixpos < self.fixlog.len() { self.fixlog[self.fixpos] } else {
            let r = self.iv.get(&self.ar, id); let f = r.0 == r.1;
            if f && r.0 != self.ar.cval(id) { self.incon.push("interval analysis contradicts the model".into()); }
            self.fixlog.push(f); f
        };
        self.fixpos += 1;
        if f { V::C(self.ar.cval(id)) } else { p.clone() }
    }
    fn load_i(&mut self, p: &V, w: u16, align: u64) -> X<V> {
        let n = ((w as u64) + 7) / 8;
        let p = &self.pin(p);
        match p {
            V::C(a) => {
                let (i, off) = self.locate(*a as u64, n, false)?;
                self.check_align(*a as u64, align)?;
                if self.threads.len() > 1 { self.access(i, off, n, false)?; }
                Ok(self.rd(i, off, w))
            }
            _ => {
                let a = self.id(p, 64);
                let (i, off, lo, hi, stride) = self.sym_loc(a, n, false)?;
                self.sym_align(a, align)?;
                let cnt = (hi - lo) / stride + 1;
                if cnt > self.cfg.max_obj_enum {
                    let c = self.concretize(p, 64)?;
                    let (i, off) = self.locate(c as u64, n, false)?;
                    if self.threads.len() > 1 { self.access(i, off, n, false)?; }
                    return Ok(self.rd(i, off, w));
                }
                let mut el = Vec::with_capacity(cnt as usize);
                for k in 0..cnt {
                    let v = self.rd(i, lo + k * stride, w);
                    el.push(self.id(&v, w));
                }
                let kl = self.ar.cst(lo as u128, 64);
                let rel = self.ar.bin(Op::Sub, off, kl);
                let sh = stride.trailing_zeros() as u16;
                let bits = 64 - (cnt - 1).leading_zeros() as u16;
                let r = if cnt == 1 { el[0] } else { let idx = self.ar.extract(rel, sh, bits); self.ar.mux(&el, idx) };
                Ok(self.v(r))
            }
        }
    }
    fn sym_align(&mut self, a: Id, align: u64) -> X<()> {
        if align <= 1 { return Ok(()); }
        let tz = align.trailing_zeros();
        if self.known_tz(a) >= tz { return Ok(()); }
        let l = self.ar.extract(a, 0, tz as u16);
        let z = self.ar.cst(0, tz as u16);
        let e = self.ar.eq(l, z);
        self.implicit += 1;
        if !self.branch(e)? { return self.viol("memory", format!("misaligned access, needs alignment {}", align)); }
        Ok(())
    }
    fn store_t(&mut self, p: &V, t: &T, v: &V, align: u64) -> X<()> {
        match (&t.k, v) {
            (TK::Struct(f, offs), V::A(vs)) => {
                for ((ft, o), x) in f.iter().zip(offs).zip(vs.iter()) { let q = self.ptr_add(p, *o as i64); self.store_t(&q, ft, x, 1)?; }
                Ok(())
            }
            (TK::Arr(e, _), V::A(vs)) | (TK::Vect(e, _), V::A(vs)) => {
                for (k, x) in vs.iter().enumerate() { let q = self.ptr_add(p, (k as u64 * e.size) as i64); self.store_t(&q, e, x, 1)?; }
                Ok(())
            }
            (TK::Struct(..), V::U) | (TK::Arr(..), V::U) | (TK::Vect(..), V::U) | (TK::Void, _) => Ok(()),
            _ => self.store_i(p, w_of(t), v, align),
        }
    }
    fn store_i(&mut self, p: &V, w: u16, v: &V, align: u64) -> X<()> {
        let n = ((w as u64) + 7) / 8;
        let p = &self.pin(p);
        match p {
            V::C(a) => {
                let (i, off) = self.locate(*a as u64, n, true)?;
                self.check_align(*a as u64, align)?;
                if self.threads.len() > 1 { self.access(i, off, n, true)?; }
                self.wr(i, off, w, v);
                Ok(())
            }
            _ => {
                let a = self.id(p, 64);
                let (i, off, lo, hi, stride) = self.sym_loc(a, n, true)?;
                self.sym_align(a, align)?;
                let cnt = (hi - lo) / stride + 1;
                if cnt > self.cfg.max_obj_enum {
                    let c = self.concretize(p, 64)?;
                    let (i, off) = self.locate(c as u64, n, true)?;
                    if self.threads.len() > 1 { self.access(i, off, n, true)?; }
                    self.wr(i, off, w, v);
                    return Ok(());
                }
                let vid = self.id(v, w);
                let full = self.ar.zext(vid, (n * 8) as u16);
                for k in 0..cnt {
                    let o = lo + k * stride;
                    let ko = self.ar.cst(o as u128, 64);
                    let c = self.ar.eq(off, ko);
                    if self.ar.is_const(c) == Some(0) { continue; }
                    for j in 0..n {
                        let nb = self.ar.extract(full, (j * 8) as u16, 8);
                        let ob = self.rd_byte_id(i, o + j);
                        let x = self.ar.ite(c, nb, ob);
                        let xv = self.v(x);
                        self.wr(i, o + j, 8, &xv);
                    }
                }
                Ok(())
            }
        }
    }
    fn ptr_add(&mut self, p: &V, off: i64) -> V {
        match p {
            V::C(c) => V::C((*c as u64).wrapping_add(off as u64) as u128),
            _ => { let a = self.id(p, 64); let k = self.ar.cst(off as u64 as u128, 64); let r = self.ar.bin(Op::Add, a, k); self.v(r) }
        }
    }
    fn copy(&mut self, d: &V, s: &V, n: &V) -> X<()> {
        let n = self.concretize(n, 64)? as u64;
        if n == 0 { return Ok(()); }
        let (d, s) = (&self.pin(d), &self.pin(s));
        if let (V::S(_) | V::U, _) | (_, V::S(_) | V::U) = (d, s) {
            // symbolic pointer: small copies bytewise, otherwise fix the address
            if n <= 16 {
                let mut tmp = vec![];
                for k in 0..n { let q = self.ptr_add(s, k as i64); tmp.push(self.load_i(&q, 8, 1)?); }
                for (k, x) in tmp.iter().enumerate() { let q = self.ptr_add(d, k as i64); self.store_i(&q, 8, x, 1)?; }
                return Ok(());
            }
        }
        let d = self.concretize(d, 64)? as u64;
        let s = self.concretize(s, 64)? as u64;
        let (si, so) = self.locate(s, n, false)?;
        let (di, do_) = self.locate(d, n, true)?;
        if self.threads.len() > 1 { self.access(si, so, n, false)?; self.access(di, do_, n, true)?; }
        let sd = self.objs[si].as_ref().unwrap().d.clone();
        let dd = Arc::make_mut(&mut self.objs[di].as_mut().unwrap().d);
        let (sa, sb) = (so as usize, (so + n) as usize);
        let (da, db) = (do_ as usize, (do_ + n) as usize);
        dd.b[da..db].copy_from_slice(&sd.b[sa..sb]);
        if !sd.s.is_empty() {
            if dd.s.is_empty() { dd.s = vec![0; dd.b.len()]; }
            dd.s[da..db].copy_from_slice(&sd.s[sa..sb]);
        } else if !dd.s.is_empty() { for x in &mut dd.s[da..db] { *x = 0; } }
        Ok(())
    }
    fn memset(&mut self, d: &V, v: &V, n: &V) -> X<()> {
        let n = self.concretize(n, 64)? as u64;
        if n == 0 { return Ok(()); }
        let d = self.concretize(d, 64)? as u64;
        let (i, off) = self.locate(d, n, true)?;
        if self.threads.len() > 1 { self.access(i, off, n, true)?; }
        match v {
            V::C(c) => {
                let dd = Arc::make_mut(&mut self.objs[i].as_mut().unwrap().d);
                for x in &mut dd.b[off as usize..(off + n) as usize] { *x = *c as u8; }
                if !dd.s.is_empty() { for x in &mut dd.s[off as usize..(off + n) as usize] { *x = 0; } }
            }
            _ => for k in 0..n { self.wr(i, off + k, 8, v); },
        }
        Ok(())
    }
    fn memcmp(&mut self, a: &V, b: &V, n: &V) -> X<V> {
        let n = self.concretize(n, 64)? as u64;
        if n == 0 { return Ok(V::C(0)); }
        let mut pa = vec![];
        let mut pb = vec![];
        for k in 0..n {
            let q = self.ptr_add(a, k as i64);
            pa.push(self.load_i(&q, 8, 1)?);
            let q = self.ptr_add(b, k as i64);
            pb.push(self.load_i(&q, 8, 1)?);
        }
        if pa.iter().chain(pb.iter()).all(|x| matches!(x, V::C(_))) {
            for (x, y) in pa.iter().zip(&pb) {
                if let (V::C(x), V::C(y)) = (x, y) { if x != y { return Ok(V::C(if x < y { mask(32) } else { 1 })); } }
            }
            return Ok(V::C(0));
        }
        let m1 = self.ar.cst(mask(32), 32);
        let p1 = self.ar.cst(1, 32);
        let mut r = self.ar.cst(0, 32);
        for k in (0..n as usize).rev() {
            let (x, y) = (self.id(&pa[k], 8), self.id(&pb[k], 8));
            let e = self.ar.eq(x, y);
            let l = self.ar.bin(Op::Ult, x, y);
            let d = self.ar.ite(l, m1, p1);
            r = self.ar.ite(e, r, d);
        }
        Ok(self.v(r))
    }
    fn alloc(&mut self, size: &V, align: &V, zero: bool) -> X<V> {
        let s = self.concretize(size, 64)? as u64;
        let a = self.concretize(align, 64)? as u64;
        if s > 1 << 28 { return Err(End::Inconclusive(format!("allocation of {} bytes", s))); }
        if s == 0 { return self.viol("memory", "zero-size allocation (undefined behaviour of GlobalAlloc::alloc)".into()); }
        Ok(V::C(self.new_obj(s, a.max(1), OK::Heap, if zero { Some(0) } else { None }) as u128))
    }
    fn dealloc(&mut self, p: &V, size: &V, align: &V) -> X<()> {
        let p = self.concretize(p, 64)? as u64;
        let s = self.concretize(size, 64)? as u64;
        let a = self.concretize(align, 64)? as u64;
        let i = self.obj_of(p)?;
        let o = self.objs[i].as_ref().unwrap();
        let (alive, base, kind, osz, oal) = (o.alive, o.base, o.kind, o.size, o.align);
        if kind != OK::Heap { return self.viol("memory", format!("deallocation of {:?} memory", kind)); }
        if !alive { return self.viol("memory", "double free".into()); }
        if base != p { return self.viol("memory", "deallocation of a pointer into the middle of an allocation".into()); }
        if osz != s || oal != a { return self.viol("memory", format!("deallocation with layout (size {}, align {}) of memory allocated with (size {}, align {})", s, a, osz, oal)); }
        if self.threads.len() > 1 { self.access(i, 0, osz, true)?; self.hb.sh.remove(&(i as u32)); }
        let o = self.objs[i].as_mut().unwrap();
        o.alive = false;
        o.d = Arc::new(ObjData { b: vec![], s: vec![] });
        Ok(())
    }

    // ---------------------------------------------------------------- calls
    fn push_call(&mut self, f: u32, args: Vec<V>, ret: Option<u32>) -> X<()> {
        let func = match self.p.m.func(f) { Ok(x) => x, Err(e) => return Err(End::Inconclusive(e)) };
        if self.frames.len() > 2000 { return self.viol("hang", "call depth exceeds 2000".into()); }
        if self.touched.insert(f) {}
        let mut regs = vec![V::U; func.nregs as usize];
        for (r, a) in func.params.iter().zip(args) { regs[*r as usize] = a; }
        self.frames.push(Frame { f, fp: func as *const Func, regs, pc: 0, block: func.block_of.first().copied().unwrap_or(0), prev: u32::MAX, stack_objs: vec![], ret });
        Ok(())
    }
    fn op(&self, o: &Opnd) -> V {
        match o { Opnd::K(v) => v.clone(), Opnd::R(r) => self.frames.last().unwrap().regs[*r as usize].clone() }
    }
    fn set(&mut self, d: u32, v: V) { let f = self.frames.last_mut().unwrap(); f.regs[d as usize] = v; }
    fn jump(&mut self, b: u32) {
        let f = self.frames.last_mut().unwrap();
        f.prev = f.block;
        f.block = b;
        f.pc = unsafe { (&*f.fp).blocks[b as usize] as usize };
    }

    fn exec(&mut self) -> X<()> {
        loop {
            if self.frames.is_empty() {
                if self.cur == 0 { return Ok(()); }
                self.threads[self.cur].state = 2;
                self.pick_next()?;
                continue;
            }
            self.steps += 1;
            if self.steps > self.cfg.max_steps { return self.viol("hang", format!("no termination within {} IR instructions", self.cfg.max_steps)); }
            let (fp, pc) = { let f = self.frames.last_mut().unwrap(); let pc = f.pc; f.pc += 1; (f.fp, pc) };
            let inst: &I = unsafe { &(&(*fp).insts)[pc] };
            if self.cfg.trace { eprintln!("{:>3} {} {:?}", self.frames.len(), self.where_(), inst); }
            self.step(inst)?;
        }
    }

    fn step(&mut self, inst: &I) -> X<()> {
        match inst {
            I::Alloca { d, size, align, n } => {
                let mut sz = *size;
                if let Some(n) = n { let n = self.op(n); let c = self.concretize(&n, 64)?; sz *= c as u64; }
                let a = self.new_obj(sz, *align, OK::Stack, None);
                self.frames.last_mut().unwrap().stack_objs.push((a >> 32) as u32);
                self.set(*d, V::C(a as u128));
            }
            I::Load { d, t, p, align, atomic } => {
                if atomic.is_some() && self.yield_point(true)? { return Ok(()); }
                let p = self.op(p);
                self.hb.atomic = atomic.is_some();
                let v = self.load_t(&p, t, *align)?;
                self.hb.atomic = false;
                if let Some(o) = atomic { self.hb_read(&p, o.acq); }
                self.set(*d, v);
            }
            I::Store { t, v, p, align, atomic } => {
                if atomic.is_some() && self.yield_point(true)? { return Ok(()); }
                let (v, p) = (self.op(v), self.op(p));
                self.hb.atomic = atomic.is_some();
                self.store_t(&p, t, &v, *align)?;
                self.hb.atomic = false;
                if let Some(o) = atomic { self.hb_write(&p, o.rel, false); }
            }
            I::Gep { d, p, off, idx } => {
                let mut r = self.op(p);
                r = self.ptr_add(&r, *off);
                for (o, w, sc) in idx {
                    let i = self.op(o);
                    match (&r, &i) {
                        (V::C(b), V::C(c)) => r = V::C((*b as u64).wrapping_add((sext_val(*c, *w) as i64).wrapping_mul(*sc) as u64) as u128),
                        _ => {
                            let bi = self.id(&r, 64);
                            let ii = self.id(&i, *w);
                            let e = if *w < 64 { self.ar.sext(ii, 64) } else { ii };
                            let k = self.ar.cst(*sc as u64 as u128, 64);
                            let m = self.ar.bin(Op::Mul, e, k);
                            let s = self.ar.bin(Op::Add, bi, m);
                            r = self.v(s);
                        }
                    }
                }
                self.set(*d, r);
            }
            I::Bin { d, op, t, a, b } => {
                let (a, b) = (self.op(a), self.op(b));
                let r = self.vec2(t, &a, &b, &mut |s: &mut Self, w, x: &V, y: &V| s.binop(*op, w, x, y))?;
                self.set(*d, r);
            }
            I::ICmp { d, p, t, a, b } => {
                let (a, b) = (self.op(a), self.op(b));
                let p = *p;
                let r = self.vec2(t, &a, &b, &mut |s: &mut Self, w, x: &V, y: &V| s.icmp(p, w, x, y))?;
                self.set(*d, r);
            }
            I::FCmp { d, p, w, a, b } => {
                let (a, b) = (self.op(a), self.op(b));
                let (x, y) = (self.id(&a, *w), self.id(&b, *w));
                let r = self.fcmp(p, x, y);
                let r = self.v(r);
                self.set(*d, r);
            }
            I::FNeg { d, w, a } => {
                let a = self.op(a);
                let x = self.id(&a, *w);
                let k = self.ar.cst(1u128 << (*w - 1), *w);
                let r = self.ar.bin(Op::Xor, x, k);
                let r = self.v(r);
                self.set(*d, r);
            }
            I::Cast { d, k, from, to, v } => {
                let v = self.op(v);
                let r = self.cast(*k, from, to, &v)?;
                self.set(*d, r);
            }
            I::Select { d, c, t, a, b } => {
                let (c, a, b) = (self.op(c), self.op(a), self.op(b));
                let r = match c {
                    V::C(c) => if c != 0 { a } else { b },
                    V::U => { let id = self.fresh(1, true); self.check_undef(id)?; a }
                    c => {
                        let ci = self.id(&c, 1);
                        self.sel(ci, t, &a, &b)?
                    }
                };
                self.set(*d, r);
            }
            I::ExtractV { d, v, path } => {
                let mut v = self.op(v);
                for i in path { v = match v { V::A(a) => a[*i as usize].clone(), V::U => V::U, _ => return Err(End::Inconclusive("extractvalue".into())) }; }
                self.set(*d, v);
            }
            I::InsertV { d, t, v, e, path } => {
                let (v, e) = (self.op(v), self.op(e));
                let r = insert(t, v, &e, path);
                self.set(*d, r);
            }
            I::ExtElem { d, v, i } => {
                let (v, i) = (self.op(v), self.op(i));
                let i = self.concretize(&i, 64)? as usize;
                let r = match v { V::A(a) => a[i].clone(), _ => V::U };
                self.set(*d, r);
            }
            I::InsElem { d, t, v, e, i } => {
                let (v, e, i) = (self.op(v), self.op(e), self.op(i));
                let i = self.concretize(&i, 64)? as u32;
                let r = insert(t, v, &e, &[i]);
                self.set(*d, r);
            }
            I::Shuffle { d, a, b, n, m } => {
                let (a, b, m) = (self.op(a), self.op(b), self.op(m));
                let mut r = vec![];
                if let V::A(m) = m {
                    for x in m.iter() {
                        r.push(match x {
                            V::C(c) => { let (s, k) = if (*c as u64) < *n { (&a, *c as usize) } else { (&b, (*c as u64 - *n) as usize) }; match s { V::A(s) => s[k].clone(), _ => V::U } }
                            _ => V::U,
                        });
                    }
                }
                self.set(*d, V::A(Arc::new(r)));
            }
            I::Freeze { d, t, v } => {
                let v = self.op(v);
                let r = match v { V::U => { let w = w_of(t); if w == 0 { v } else { let f = self.fresh(w, false); V::S(f) } } v => v };
                self.set(*d, r);
            }
            I::Phi { .. } => {
                // all phis of the block read their inputs simultaneously
                let (fp, pc0, prev) = { let f = self.frames.last().unwrap(); (f.fp, f.pc - 1, f.prev) };
                let insts = unsafe { &(*fp).insts };
                let mut vals = vec![];
                let mut k = pc0;
                while let I::Phi { d, l, .. } = &insts[k] {
                    let o = l.iter().find(|x| x.1 == prev).map(|x| &x.0);
                    match o { Some(o) => vals.push((*d, self.op(o))), None => return Err(End::Inconclusive("phi".into())) }
                    k += 1;
                }
                for (d, v) in vals { self.set(d, v); }
                self.frames.last_mut().unwrap().pc = k;
            }
            I::Br(b) => self.jump(*b),
            I::CondBr(c, a, b) => {
                let c = self.op(c);
                let dir = match c { V::C(c) => c != 0, c => { let i = self.id(&c, 1); self.branch(i)? } };
                self.jump(if dir { *a } else { *b });
            }
            I::Switch { v, w, def, cases } => {
                let v = self.op(v);
                match v {
                    V::C(c) => { let b = cases.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*def); self.jump(b); }
                    v => {
                        let id = self.id(&v, *w);
                        self.check_undef_any(id)?;
                        // group by target, the case the model selects first
                        let cv = self.ar.cval(id);
                        let mut order: Vec<&(u128, u32)> = cases.iter().collect();
                        order.sort_by_key(|x| (x.0 != cv) as u8);
                        for (c, l) in order {
                            let k = self.ar.cst(*c, *w);
                            let e = self.ar.eq(id, k);
                            if self.branch(e)? { self.jump(*l); return Ok(()); }
                        }
                        self.jump(*def);
                    }
                }
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| self.op(o));
                let f = self.frames.pop().unwrap();
                for o in &f.stack_objs { self.objs[*o as usize] = None; self.free_stack.push(*o); }
                if let (Some(d), Some(v)) = (f.ret, v) { if !self.frames.is_empty() { self.set(d, v); } }
            }
            I::Unreachable => return self.viol("unreachable", "reached code declared unreachable (undefined behaviour)".into()),
            I::CmpXchg { d, p, t, c, n, o, f } => {
                if self.yield_point(true)? { return Ok(()); }
                self.hb.atomic = true;
                let (p, c, n) = (self.op(p), self.op(c), self.op(n));
                let old = self.load_t(&p, t, t.align)?;
                let w = w_of(t);
                let e = self.icmp(Pred::Eq, w, &old, &c)?;
                let dir = match &e { V::C(x) => *x != 0, x => { let i = self.id(x, 1); self.branch(i)? } };
                if dir { self.store_t(&p, t, &n, t.align)?; }
                self.hb.atomic = false;
                self.hb_read(&p, if dir { o.acq } else { f.acq });
                if dir { self.hb_write(&p, o.rel, true); }
                self.set(*d, V::A(Arc::new(vec![old, V::C(dir as u128)])));
            }
            I::Rmw { d, op, p, t, v, m } => {
                if self.yield_point(true)? { return Ok(()); }
                self.hb.atomic = true;
                let (p, v) = (self.op(p), self.op(v));
                let w = w_of(t);
                let old = self.load_t(&p, t, t.align)?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.binop(B::Add, w, &old, &v)?,
                    "sub" => self.binop(B::Sub, w, &old, &v)?,
                    "and" => self.binop(B::And, w, &old, &v)?,
                    "or" => self.binop(B::Or, w, &old, &v)?,
                    "xor" => self.binop(B::Xor, w, &old, &v)?,
                    "umax" | "umin" | "max" | "min" => {
                        let p = match op.as_str() { "umax" => Pred::Ugt, "umin" => Pred::Ult, "max" => Pred::Sgt, _ => Pred::Slt };
                        let c = self.icmp(p, w, &old, &v)?;
                        let ci = self.id(&c, 1);
                        let (x, y) = (self.id(&old, w), self.id(&v, w));
                        let r = self.ar.ite(ci, x, y);
                        self.v(r)
                    }
                    o => return Err(End::Inconclusive(format!("atomicrmw {}", o))),
                };
                self.store_t(&p, t, &new, t.align)?;
                self.hb.atomic = false;
                self.hb_read(&p, m.acq);
                self.hb_write(&p, m.rel, true);
                self.set(*d, old);
            }
            I::Fence { o } => if self.threads.len() > 1 {
                let c = self.cur;
                if o.acq { let q = self.hb.pend[c].clone(); vjoin(&mut self.hb.vc[c], &q); }
                if o.rel { self.hb.rel[c] = self.hb.vc[c].clone(); self.hb.vc[c][c] += 1; }
            },
            I::Call { d, c, args, rt } => self.call(*d, c, args, rt)?,
            I::Unsupported(s) => return Err(End::Inconclusive(format!("unsupported instruction: {}", s))),
        }
        Ok(())
    }

    fn sel(&mut self, c: Id, t: &T, a: &V, b: &V) -> X<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut r = vec![];
                let ts: Vec<T> = match &t.k { TK::Struct(f, _) => f.clone(), TK::Arr(e, n) | TK::Vect(e, n) => vec![e.clone(); *n as usize], _ => vec![] };
                for ((p, q), t) in x.iter().zip(y.iter()).zip(ts.iter()) { r.push(self.sel(c, t, p, q)?); }
                Ok(V::A(Arc::new(r)))
            }
            (V::U, V::U) => Ok(V::U),
            _ => {
                if let TK::Ptr = t.k {
                    // never merge pointers: fork instead
                    return Ok(if self.branch(c)? { a.clone() } else { b.clone() });
                }
                let w = w_of(t);
                if w == 0 { return Ok(if self.branch(c)? { a.clone() } else { b.clone() }); }
                let (x, y) = (self.id(a, w), self.id(b, w));
                let r = self.ar.ite(c, x, y);
                Ok(self.v(r))
            }
        }
    }
    fn vec2(&mut self, t: &T, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, u16, &V, &V) -> X<V>) -> X<V> {
        if let TK::Vect(e, n) = &t.k {
            let w = w_of(e);
            let mut r = vec![];
            for k in 0..*n as usize {
                let x = match a { V::A(a) => a[k].clone(), _ => V::U };
                let y = match b { V::A(a) => a[k].clone(), _ => V::U };
                r.push(f(self, w, &x, &y)?);
            }
            return Ok(V::A(Arc::new(r)));
        }
        f(self, w_of(t), a, b)
    }
    fn binop(&mut self, op: B, w: u16, a: &V, b: &V) -> X<V> {
        let o = match op {
            B::Add => Op::Add, B::Sub => Op::Sub, B::Mul => Op::Mul, B::UDiv => Op::UDiv, B::SDiv => Op::SDiv, B::URem => Op::URem, B::SRem => Op::SRem,
            B::And => Op::And, B::Or => Op::Or, B::Xor => Op::Xor, B::Shl => Op::Shl, B::LShr => Op::LShr, B::AShr => Op::AShr,
            B::FAdd => Op::FAdd, B::FSub => Op::FSub, B::FMul => Op::FMul, B::FDiv => Op::FDiv,
            B::FRem => match (a, b) {
                (V::C(x), V::C(y)) => return Ok(V::C(if w == 64 { (f64::from_bits(*x as u64) % f64::from_bits(*y as u64)).to_bits() as u128 } else { (f32::from_bits(*x as u32) % f32::from_bits(*y as u32)).to_bits() as u128 })),
                _ => return Err(End::Inconclusive("frem".into())),
            },
        };
        let div = matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem);
        if let (V::C(x), V::C(y)) = (a, b) {
            if div && *y == 0 { return self.viol("unreachable", "division by zero".into()); }
            return Ok(V::C(eval_bin(o, *x, *y, w)));
        }
        if let (V::U, V::U) = (a, b) { return Ok(V::U); }
        let (x, y) = (self.id(a, w), self.id(b, w));
        if div {
            let z = self.ar.cst(0, w);
            let e = self.ar.eq(y, z);
            if self.branch(e)? { return self.viol("unreachable", "division by zero".into()); }
        }
        let r = self.ar.bin(o, x, y);
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &V, b: &V) -> X<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext_val(x, w), sext_val(y, w));
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy };
            return Ok(V::C(r as u128));
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let r = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => { let e = self.ar.eq(x, y); self.ar.not1(e) }
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        Ok(self.v(r))
    }
    fn fcmp(&mut self, p: &str, x: Id, y: Id) -> Id {
        let nx = self.ar.un(Kind::FNaN(x), 1);
        let ny = self.ar.un(Kind::FNaN(y), 1);
        let uno = self.ar.or1(nx, ny);
        let ord = self.ar.not1(uno);
        let (base, unordered) = (&p[1..], p.starts_with('u'));
        match p { "ord" => return ord, "uno" => return uno, "true" => return self.ar.cst(1, 1), "false" => return self.ar.cst(0, 1), _ => {} }
        let c = match base {
            "eq" => self.ar.bin(Op::FEq, x, y),
            "ne" => { let e = self.ar.bin(Op::FEq, x, y); self.ar.not1(e) }
            "lt" => self.ar.bin(Op::FLt, x, y),
            "le" => self.ar.bin(Op::FLe, x, y),
            "gt" => self.ar.bin(Op::FLt, y, x),
            _ => self.ar.bin(Op::FLe, y, x),
        };
        if unordered { self.ar.or1(uno, c) } else { self.ar.and1(ord, c) }
    }
    fn cast(&mut self, k: Cast, from: &T, to: &T, v: &V) -> X<V> {
        if k == Cast::Bitcast && (matches!(from.k, TK::Vect(..)) || matches!(to.k, TK::Vect(..))) {
            // regroup the bits, lowest first
            let parts = |t: &T| match &t.k { TK::Vect(e, n) => (w_of(e), *n as usize), _ => (w_of(t), 1) };
            let ((fw, fnum), (tw, tnum)) = (parts(from), parts(to));
            if fw as usize * fnum != tw as usize * tnum { return Err(End::Inconclusive("bitcast of different sizes".into())); }
            if fw == tw && fnum == tnum { return Ok(v.clone()); }
            let g = { let (mut x, mut y) = (fw, tw); while y != 0 { let t = x % y; x = y; y = t; } x };
            let mut bits: Vec<V> = vec![];
            for i in 0..fnum {
                let e = match v { V::A(a) => a[i].clone(), v => v.clone() };
                for j in 0..fw / g { bits.push(match &e { V::U => V::U, V::C(c) => V::C(c >> (j * g) & mask(g)), e => { let x = self.id(e, fw); let y = self.ar.extract(x, j * g, g); self.v(y) } }); }
            }
            let per = (tw / g) as usize;
            let mut r = vec![];
            for i in 0..tnum {
                let ps = &bits[i * per..(i + 1) * per];
                if per == 1 { r.push(ps[0].clone()); continue; }
                if ps.iter().all(|x| matches!(x, V::U)) { r.push(V::U); continue; }
                let mut x = self.id(&ps[0], g);
                for q in &ps[1..] { let y = self.id(q, g); x = self.ar.concat(y, x); }
                r.push(self.v(x));
            }
            return Ok(if matches!(to.k, TK::Vect(..)) { V::A(Arc::new(r)) } else { r.pop().unwrap() });
        }
        if let (TK::Vect(fe, n), TK::Vect(te, _)) = (&from.k, &to.k) {
            if k == Cast::Bitcast { return Err(End::Inconclusive("vector bitcast".into())); }
            let (fe, te) = (fe.clone(), te.clone());
            let mut r = vec![];
            for i in 0..*n as usize { let e = match v { V::A(a) => a[i].clone(), _ => V::U }; r.push(self.cast(k, &fe, &te, &e)?); }
            return Ok(V::A(Arc::new(r)));
        }
        if let TK::Vect(..) = to.k { return Err(End::Inconclusive("cast to vector".into())); }
        let (fw, tw) = (w_of(from), w_of(to));
        if let V::U = v { return Ok(V::U); }
        Ok(match (k, v) {
            (Cast::Trunc, V::C(c)) => V::C(c & mask(tw)),
            (Cast::ZExt, V::C(c)) => V::C(*c),
            (Cast::SExt, V::C(c)) => V::C(sext_val(*c, fw) as u128 & mask(tw)),
            (Cast::PtrToInt, V::C(c)) => V::C(c & mask(tw)),
            (Cast::IntToPtr, V::C(c)) => V::C(c & mask(64)),
            (Cast::Bitcast, v) => v.clone(),
            (_, v) => {
                let x = self.id(v, fw);
                let r = match k {
                    Cast::Trunc => self.ar.trunc(x, tw),
                    Cast::ZExt => self.ar.zext(x, tw),
                    Cast::SExt => self.ar.sext(x, tw),
                    Cast::PtrToInt | Cast::IntToPtr => if tw < fw { self.ar.trunc(x, tw) } else { self.ar.zext(x, tw) },
                    Cast::UToF => self.ar.un(Kind::UToF(x), tw),
                    Cast::SToF => self.ar.un(Kind::SToF(x), tw),
                    Cast::FToU => self.ar.un(Kind::FToU(x), tw),
                    Cast::FToS => self.ar.un(Kind::FToS(x), tw),
                    Cast::FExt | Cast::FTrunc => self.ar.un(Kind::FCvt(x), tw),
                    Cast::Bitcast => x,
                };
                self.v(r)
            }
        })
    }

    fn loc_str(&mut self, p: &V) -> String {
        let p = match p { V::C(c) => *c as u64, _ => return String::new() };
        let mut g = || -> Option<String> {
            let (i, o) = self.locate(p, 24, false).ok()?;
            let f = match self.rd(i, o, 64) { V::C(c) => c as u64, _ => return None };
            let n = match self.rd(i, o + 8, 64) { V::C(c) => c as u64, _ => return None };
            let l = match self.rd(i, o + 16, 32) { V::C(c) => c as u64, _ => return None };
            if n > 4096 { return None; }
            let s = self.cstr(f, n).ok()?;
            Some(format!("{}:{}", s, l))
        };
        g().unwrap_or_default()
    }
    fn cstr(&mut self, p: u64, n: u64) -> X<String> {
        if n == 0 { return Ok(String::new()); }
        let (i, o) = self.locate(p, n, false)?;
        let d = &self.objs[i].as_ref().unwrap().d;
        Ok(String::from_utf8_lossy(&d.b[o as usize..(o + n) as usize]).into_owned())
    }

    fn call(&mut self, d: Option<u32>, c: &Callee, args: &[(Opnd, T)], rt: &T) -> X<()> {
        let fid = match c {
            Callee::Fn(f) => *f,
            Callee::Asm => {
                if d.is_some() && !matches!(rt.k, TK::Void) { return Err(End::Inconclusive("inline assembly".into())); }
                return Ok(());
            }
            Callee::Ext(n) => { let n = n.clone(); return self.call_ext(d, &n, args, rt); }
            Callee::Reg(o) => {
                let v = self.op(o);
                let a = self.concretize(&v, 64)? as u64;
                let idx = a.wrapping_sub(fn_addr(0)) / 16;
                if a >> 32 == EXT_ID {
                    let k = (a - ext_addr(0)) / 16;
                    let n = self.p.m.ext_fns[k as usize].clone();
                    return self.call_ext(d, &n, args, rt);
                }
                if a >> 32 != FN_ID || a % 16 != 0 || idx as usize >= self.p.m.funcs.len() { return self.viol("memory", format!("call through invalid function pointer {:#x}", a)); }
                idx as u32
            }
        };
        match self.p.hooks[fid as usize] {
            Hook::None => {}
            Hook::Redirect(to) => {
                if !self.real_fmt {
                    let av: Vec<V> = args.iter().map(|a| self.op(&a.0)).collect();
                    return self.push_call(to, av, d);
                }
            }
            Hook::Nop => { if let Some(d) = d { let z = zero_v(rt); self.set(d, z); } return Ok(()); }
            Hook::Panic | Hook::PanicNoUnwind => {
                let v = args.last().map(|a| self.op(&a.0));
                let loc = v.map(|v| self.loc_str(&v)).unwrap_or_default();
                return self.viol("panic", format!("panic at {}", loc));
            }
            Hook::Abort => return self.viol("panic", "abort".into()),
            Hook::Alloc | Hook::AllocZ => {
                let (a, b) = (self.op(&args[0].0), self.op(&args[1].0));
                let r = self.alloc(&a, &b, self.p.hooks[fid as usize] == Hook::AllocZ)?;
                self.set(d.unwrap(), r);
                return Ok(());
            }
            Hook::Dealloc => { let (a, b, c) = (self.op(&args[0].0), self.op(&args[1].0), self.op(&args[2].0)); return self.dealloc(&a, &b, &c); }
            Hook::Realloc => { return self.realloc(d, args); }
        }
        let av: Vec<V> = args.iter().map(|a| self.op(&a.0)).collect();
        self.push_call(fid, av, d)
    }
    fn realloc(&mut self, d: Option<u32>, args: &[(Opnd, T)]) -> X<()> {
        let (p, s, a, n) = (self.op(&args[0].0), self.op(&args[1].0), self.op(&args[2].0), self.op(&args[3].0));
        let ns = self.concretize(&n, 64)?;
        let os = self.concretize(&s, 64)?;
        let r = self.alloc(&V::C(ns), &a, false)?;
        self.copy(&r, &p, &V::C(ns.min(os)))?;
        self.dealloc(&p, &s, &a)?;
        self.set(d.unwrap(), r);
        Ok(())
    }

    fn call_ext(&mut self, d: Option<u32>, n: &str, args: &[(Opnd, T)], rt: &T) -> X<()> {
        let a: Vec<V> = args.iter().map(|x| self.op(&x.0)).collect();
        let aw = |i: usize| w_of(&args[i].1);
        let mut ret = |s: &mut Self, v: V| { if let Some(d) = d { s.set(d, v); } Ok(()) };
        if let Some(r) = n.strip_prefix("llvm.") {
            let base = r.split('.').collect::<Vec<_>>();
            match base[0] {
                "memcpy" | "memmove" => return self.copy(&a[0], &a[1], &a[2]),
                "memset" => return self.memset(&a[0], &a[1], &a[2]),
                "assume" | "lifetime" | "dbg" | "experimental" | "prefetch" | "donothing" | "invariant" | "fake" => return Ok(()),
                "x86" => { if r.ends_with("pause") { return self.spin(); } return Ok(()); }
                "expect" => return ret(self, a[0].clone()),
                "is" if base[1] == "constant" => return ret(self, V::C(0)),
                "threadlocal" => { let v = self.tls_addr(&a[0])?; return ret(self, v); }
                "trap" | "debugtrap" => return self.viol("panic", "trap".into()),
                "ptrmask" => { let r = self.binop(B::And, 64, &a[0], &a[1])?; return ret(self, r); }
                "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                    let w = aw(0);
                    let sg = base[0].starts_with('s');
                    let op = match &base[0][1..] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
                    if base[1] == "with" {
                        let r = self.overflow(op, sg, w, &a[0], &a[1]);
                        return ret(self, r);
                    }
                    if base[1] == "sat" && !sg {
                        let r = self.overflow(op, false, w, &a[0], &a[1]);
                        if let V::A(x) = r {
                            let (v, o) = (x[0].clone(), x[1].clone());
                            let (vi, oi) = (self.id(&v, w), self.id(&o, 1));
                            let k = self.ar.cst(if op == Op::Sub { 0 } else { mask(w) }, w);
                            let r = self.ar.ite(oi, k, vi);
                            let r = self.v(r);
                            return ret(self, r);
                        }
                    }
                }
                "umax" | "umin" | "smax" | "smin" => {
                    let w = aw(0);
                    if let TK::Vect(..) = args[0].1.k { return Err(End::Inconclusive(n.into())); }
                    let p = match base[0] { "umax" => Pred::Ugt, "umin" => Pred::Ult, "smax" => Pred::Sgt, _ => Pred::Slt };
                    let c = self.icmp(p, w, &a[0], &a[1])?;
                    let ci = self.id(&c, 1);
                    let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                    let r = self.ar.ite(ci, x, y);
                    let r = self.v(r);
                    return ret(self, r);
                }
                "ucmp" | "scmp" => {
                    let w = aw(0);
                    let rw = w_of(rt);
                    let lt = self.icmp(if base[0] == "ucmp" { Pred::Ult } else { Pred::Slt }, w, &a[0], &a[1])?;
                    let eq = self.icmp(Pred::Eq, w, &a[0], &a[1])?;
                    let (li, ei) = (self.id(&lt, 1), self.id(&eq, 1));
                    let (m1, z, p1) = (self.ar.cst(mask(rw), rw), self.ar.cst(0, rw), self.ar.cst(1, rw));
                    let x = self.ar.ite(ei, z, p1);
                    let r = self.ar.ite(li, m1, x);
                    let r = self.v(r);
                    return ret(self, r);
                }
                "abs" => {
                    let w = aw(0);
                    let x = self.id(&a[0], w);
                    let z = self.ar.cst(0, w);
                    let ng = self.ar.bin(Op::Sub, z, x);
                    let c = self.ar.bin(Op::Slt, x, z);
                    let r = self.ar.ite(c, ng, x);
                    let r = self.v(r);
                    return ret(self, r);
                }
                "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                    let w = aw(0);
                    if w == 0 { return Err(End::Inconclusive(n.into())); }
                    let x = self.id(&a[0], w);
                    let r = self.bits(base[0], x, w);
                    let r = self.v(r);
                    return ret(self, r);
                }
                "fshl" | "fshr" => {
                    let w = aw(0);
                    if w == 0 || w > 64 { return Err(End::Inconclusive(n.into())); }
                    let (x, y, s) = (self.id(&a[0], w), self.id(&a[1], w), self.id(&a[2], w));
                    let kw = self.ar.cst(w as u128, w);
                    let sm = self.ar.bin(Op::URem, s, kw);
                    let s2 = self.ar.zext(sm, 2 * w);
                    let cat = self.ar.concat(x, y);
                    let r = if base[0] == "fshl" { let t = self.ar.bin(Op::Shl, cat, s2); self.ar.extract(t, w, w) } else { let t = self.ar.bin(Op::LShr, cat, s2); self.ar.extract(t, 0, w) };
                    let r = self.v(r);
                    return ret(self, r);
                }
                "vector" if base[1] == "reduce" => {
                    if let V::A(v) = &a[0] {
                        let ew = if let TK::Vect(e, _) = &args[0].1.k { w_of(e) } else { 0 };
                        let op = match base[2] { "and" => B::And, "or" => B::Or, "xor" => B::Xor, "add" => B::Add, _ => return Err(End::Inconclusive(n.into())) };
                        let mut r = v[0].clone();
                        for x in v.iter().skip(1) { r = self.binop(op, ew, &r, x)?; }
                        return ret(self, r);
                    }
                }
                "fabs" => { let w = aw(0); let k = V::C(mask(w) >> 1); let r = self.binop(B::And, w, &a[0], &k)?; return ret(self, r); }
                "fptoui" | "fptosi" if base.get(1) == Some(&"sat") => {
                    let (fw, tw) = (aw(0), w_of(rt));
                    if let V::C(c) = a[0] {
                        let x = f(fw, c);
                        let r = if base[0] == "fptoui" { let m = mask(tw); if x.is_nan() || x <= 0.0 { 0 } else if x >= m as f64 { m } else { x as u128 } }
                        else { let hi = (mask(tw) >> 1) as i128; let lo = -hi - 1; if x.is_nan() { 0 } else { (((x as i128).max(lo)).min(hi) as u128) & mask(tw) } };
                        return ret(self, V::C(r));
                    }
                    let x = self.id(&a[0], fw);
                    if base[0] == "fptoui" && fw == 64 && tw < 64 {
                        let z = self.ar.cst(0, 64);
                        let mx = self.ar.cst((mask(tw) as f64).to_bits() as u128, 64);
                        let nan = self.ar.un(Kind::FNaN(x), 1);
                        let neg = self.ar.bin(Op::FLe, x, z);
                        let low = self.ar.or1(nan, neg);
                        let high = self.ar.bin(Op::FLe, mx, x);
                        let cv = self.ar.un(Kind::FToU(x), tw);
                        let (zz, mm) = (self.ar.cst(0, tw), self.ar.cst(mask(tw), tw));
                        let r = self.ar.ite(high, mm, cv);
                        let r = self.ar.ite(low, zz, r);
                        let r = self.v(r);
                        return ret(self, r);
                    }
                }
                "sqrt" | "round" | "floor" | "ceil" | "trunc" | "pow" | "log" | "rint" | "nearbyint" | "roundeven" | "powi" | "exp" | "log2" | "minnum" | "maxnum" | "minimumnum" | "maximumnum" | "copysign" | "fma" | "fmuladd" | "log10" | "exp2" | "sin" | "cos" | "tan" | "hypot" | "cbrt" | "tanh" | "expm1" | "log1p" => {
                    let w = aw(0);
                    if let V::C(c) = a[0] {
                        let x = f(w, c);
                        let y = if a.len() > 1 { if let V::C(c2) = a[1] { Some(if aw(1) == 32 && base[0] == "powi" { sext_val(c2, 32) as f64 } else { f(w, c2) }) } else { None } } else { Some(0.0) };
                        if let Some(y) = y {
                            let r = match base[0] { "sqrt" => x.sqrt(), "round" => x.round(), "floor" => x.floor(), "ceil" => x.ceil(), "trunc" => x.trunc(), "pow" => x.powf(y), "powi" => x.powi(y as i32), "log" => x.ln(), "log2" => x.log2(), "exp" => x.exp(), "minnum" | "minimumnum" => x.min(y), "maxnum" | "maximumnum" => x.max(y), "copysign" => x.copysign(y), "fma" | "fmuladd" => match a[2] { V::C(c3) => x.mul_add(y, f(w, c3)), _ => return Err(End::Inconclusive(n.into())) }, "log10" => x.log10(), "exp2" => x.exp2(), "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "hypot" => x.hypot(y), "cbrt" => x.cbrt(), "tanh" => x.tanh(), "expm1" => x.exp_m1(), "log1p" => x.ln_1p(), _ => x.round_ties_even() };
                            return ret(self, V::C(if w == 64 { r.to_bits() as u128 } else { (r as f32).to_bits() as u128 }));
                        }
                    }
                    match base[0] {
                        "sqrt" => { let x = self.id(&a[0], w); let r = self.ar.un(Kind::FSqrt(x), w); let r = self.v(r); return ret(self, r); }
                        "floor" | "ceil" | "trunc" | "round" | "roundeven" | "rint" | "nearbyint" => { let m = match base[0] { "floor" => 0, "ceil" => 1, "trunc" => 2, "round" => 3, _ => 4 }; let x = self.id(&a[0], w); let r = self.ar.un(Kind::FRnd(x, m), w); let r = self.v(r); return ret(self, r); }
                        "copysign" => { let m = mask(w) >> 1; let x = self.binop(B::And, w, &a[0], &V::C(m))?; let y = self.binop(B::And, w, &a[1], &V::C(m + 1))?; let r = self.binop(B::Or, w, &x, &y)?; return ret(self, r); }
                        // as compiler-rt does it
                        "powi" => if let V::C(e) = a[1] {
                            let e = sext_val(e, 32) as i64; let one = V::C(if w == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 });
                            let (mut r, mut x, mut k) = (one.clone(), a[0].clone(), e.unsigned_abs());
                            if k <= 64 { loop { if k & 1 != 0 { r = self.binop(B::FMul, w, &r, &x)?; } k /= 2; if k == 0 { break; } x = self.binop(B::FMul, w, &x, &x)?; } if e < 0 { r = self.binop(B::FDiv, w, &one, &r)?; } return ret(self, r); }
                        },
                        // a NaN operand gives the other one
                        "maxnum" | "minnum" | "maximumnum" | "minimumnum" => {
                            let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                            let (nx, ny) = (self.ar.un(Kind::FNaN(x), 1), self.ar.un(Kind::FNaN(y), 1));
                            let lt = if base[0].starts_with("max") { self.ar.bin(Op::FLt, x, y) } else { self.ar.bin(Op::FLt, y, x) };
                            let r = self.ar.ite(lt, y, x); let r = self.ar.ite(ny, x, r); let r = self.ar.ite(nx, y, r);
                            let r = self.v(r); return ret(self, r);
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
            return Err(End::Inconclusive(format!("intrinsic {}", n)));
        }
        match n {
            "memcpy" | "memmove" => { self.copy(&a[0], &a[1], &a[2])?; return ret(self, a[0].clone()); }
            "memset" => { let v = match &a[1] { V::C(c) => V::C(c & 0xff), v => { let i = self.id(v, 32); let t = self.ar.trunc(i, 8); self.v(t) } }; self.memset(&a[0], &v, &a[2])?; return ret(self, a[0].clone()); }
            "memcmp" | "bcmp" => { let r = self.memcmp(&a[0], &a[1], &a[2])?; return ret(self, r); }
            "strlen" => {
                let mut k = 0;
                loop {
                    let q = self.ptr_add(&a[0], k);
                    let b = self.load_i(&q, 8, 1)?;
                    let z = self.icmp(Pred::Eq, 8, &b, &V::C(0))?;
                    let dir = match z { V::C(c) => c != 0, z => { let i = self.id(&z, 1); self.branch(i)? } };
                    if dir { return ret(self, V::C(k as u128)); }
                    k += 1;
                }
            }
            "round" | "floor" | "ceil" | "sqrt" | "pow" | "trunc" | "rint" | "log" | "log10" | "log2" | "exp" | "exp2" | "sin" | "cos" | "tan" | "fma" | "copysign" | "roundeven" | "hypot" | "cbrt" | "tanh" | "expm1" | "log1p" => { let nn = format!("llvm.{}.f64", n); return self.call_ext(d, &nn, args, rt); }
            "getrandom" => { self.memset(&a[0], &V::C(0x5a), &a[1])?; return ret(self, a[1].clone()); }
            // a clock that moves a microsecond at each look
            "clock_gettime" => { let t = self.steps as u128; let p = self.ptr_add(&a[1], 8); self.store_i(&a[1], 64, &V::C(1000 + t / 1_000_000), 8)?; self.store_i(&p, 64, &V::C(t % 1_000_000 * 1000), 8)?; return ret(self, V::C(0)); }
            "getenv" | "secure_getenv" => return ret(self, V::C(0)),
            "write" => return ret(self, a[2].clone()),
            "writev" => return Err(End::Inconclusive("writev".into())),
            "__errno_location" => {
                let e = match self.errno { Some(e) => e, None => { let e = self.new_obj(4, 4, OK::Global, Some(0)); self.errno = Some(e); e } };
                return ret(self, V::C(e as u128));
            }
            "pthread_key_create" => { self.store_i(&a[0], 32, &V::C(1), 4)?; return ret(self, V::C(0)); }
            "pthread_setspecific" | "pthread_key_delete" | "pthread_getspecific" | "__cxa_thread_atexit_impl" => return ret(self, V::C(0)),
            "syscall" => {
                if let V::C(202) = a[0] { return self.futex(d, &a); }
                // the seed of a hash map: one fixed seed
                if let V::C(318) = a[0] { self.memset(&a[1], &V::C(0x5a), &a[2])?; return ret(self, a[2].clone()); }
                return Err(End::Inconclusive(format!("syscall {:?}", a[0])));
            }
            "rsym_any" => {
                let w = self.concretize(&a[0], 32)? as u16;
                let (p, l) = (self.concretize(&a[1], 64)? as u64, self.concretize(&a[2], 64)? as u64);
                let name = self.cstr(p, l)?;
                let i = self.nvars;
                let v = self.fresh(w, false);
                self.inputs.push((name, w, i));
                let z = self.ar.zext(v, 64);
                let z = self.v(z);
                return ret(self, z);
            }
            "rsym_assume" => { let c = self.bit(&a[0], aw(0)); return self.assume(c); }
            "rsym_assert" => {
                let c = self.bit(&a[0], aw(0));
                let (p, l) = (self.concretize(&a[1], 64)? as u64, self.concretize(&a[2], 64)? as u64);
                let msg = self.cstr(p, l)?;
                return self.assert_(c, "assert", &msg);
            }
            "rsym_branch" => { let c = self.bit(&a[0], aw(0)); let r = self.branch(c)?; return ret(self, V::C(r as u128)); }
            "rsym_cover" => {
                let (p, l) = (self.concretize(&a[0], 64)? as u64, self.concretize(&a[1], 64)? as u64);
                let s = self.cstr(p, l)?;
                self.covers.insert(s);
                return Ok(());
            }
            "rsym_observe" => {
                let (p, l) = (self.concretize(&a[0], 64)? as u64, self.concretize(&a[1], 64)? as u64);
                let s = self.cstr(p, l)?;
                let v = match &a[2] { V::C(c) => *c, v => { let i = self.id(v, 64); self.ar.cval(i) } };
                self.obs.push((s, v));
                return Ok(());
            }
            "rsym_concretize" => { let v = self.concretize(&a[0], 64)?; return ret(self, V::C(v)); }
            "rsym_real_fmt" => { let v = self.concretize(&a[0], aw(0))?; self.real_fmt = v & 1 != 0; return Ok(()); }
            "rsym_max_steps" => return Ok(()),
            "rsym_is_symbolic" => return ret(self, V::C(1)),
            "rsym_eq" => {
                let n = self.concretize(&a[2], 64)? as u64;
                let mut r = self.ar.cst(1, 1);
                let mut differ = false;
                for k in 0..n {
                    let (p, q) = (self.ptr_add(&a[0], k as i64), self.ptr_add(&a[1], k as i64));
                    match (self.load_i(&p, 8, 1)?, self.load_i(&q, 8, 1)?) {
                        (V::C(x), V::C(y)) => differ |= x != y,
                        (x, y) => { let (x, y) = (self.id(&x, 8), self.id(&y, 8)); let e = self.ar.eq(x, y); r = self.ar.and1(r, e); }
                    }
                }
                if differ { return ret(self, V::C(0)); }
                let r = self.v(r);
                return ret(self, r);
            }
            "rsym_readable" => {
                // is [p, p+n) inside one live, initialised-or-not object?
                let p = self.concretize(&a[0], 64)? as u64;
                let nn = self.concretize(&a[1], 64)? as u64;
                let i = (p >> 32) as usize;
                let ok = nn == 0 || (self.obj_of(p).is_ok() && { let o = self.objs[i].as_ref().unwrap(); o.alive && p >= o.base && p - o.base <= o.size && nn <= o.size - (p - o.base) });
                return ret(self, V::C(ok as u128));
            }
            "rsym_threads" => { let v = self.concretize(&a[0], 32)? as u32; self.sched_on = true; self.sched_left = v; return Ok(()); }
            "rsym_spawn" => {
                let fp = self.concretize(&a[0], 64)? as u64;
                let idx = (fp - fn_addr(0)) / 16;
                let saved = std::mem::take(&mut self.frames);
                self.push_call(idx as u32, vec![a[1].clone()], None)?;
                let fr = std::mem::replace(&mut self.frames, saved);
                self.threads.push(Th { frames: fr, state: 0, wait: 0, resume: false });
                let tid = self.threads.len() - 1;
                let c = self.cur;
                let mut v = self.hb.vc[c].clone(); v.resize(tid, 0); v.push(1);
                self.hb.vc.push(v); self.hb.pend.push(vec![]); self.hb.rel.push(vec![]);
                self.hb.vc[c][c] += 1;
                return ret(self, V::C(tid as u128));
            }
            "rsym_join" => {
                let t = self.concretize(&a[0], 64)? as usize;
                if self.threads[t].state != 2 {
                    self.threads[self.cur].state = 3;
                    self.threads[self.cur].wait = t as u64;
                    return self.pick_next();
                }
                let v = self.hb.vc[t].clone(); let c = self.cur;
                vjoin(&mut self.hb.vc[c], &v);
                return Ok(());
            }
            "rsym_yield" => { self.yield_point(false)?; return Ok(()); }
            "abort" | "exit" | "_exit" => return self.viol("panic", n.into()),
            "sched_yield" => { ret(self, V::C(0))?; return self.spin(); }
            _ => {}
        }
        // allocator entry points are undefined symbols until the final link
        let hk = hook_of(n);
        match hk {
            Hook::Alloc | Hook::AllocZ => { let r = self.alloc(&a[0], &a[1], hk == Hook::AllocZ)?; return ret(self, r); }
            Hook::Dealloc => return self.dealloc(&a[0], &a[1], &a[2]),
            Hook::Realloc => return self.realloc(d, args),
            Hook::Nop => return ret(self, V::C(0)),
            Hook::Panic | Hook::PanicNoUnwind | Hook::Abort => return self.viol("panic", n.into()),
            _ => {}
        }
        Err(End::Inconclusive(format!("external function {}", n)))
    }
    fn bit(&mut self, v: &V, w: u16) -> Id {
        let i = self.id(v, w);
        if w == 1 { i } else { self.ar.extract(i, 0, 1) }
    }
    fn overflow(&mut self, op: Op, signed: bool, w: u16, a: &V, b: &V) -> V {
        let (x, y) = (self.id(a, w), self.id(b, w));
        let r = self.ar.bin(op, x, y);
        let o = if w > 64 && op == Op::Mul {
            // only concrete 128-bit products
            match (self.ar.is_const(x), self.ar.is_const(y)) {
                (Some(p), Some(q)) => { let ov = p.checked_mul(q).map_or(true, |v| v > mask(w)); self.ar.cst(ov as u128, 1) }
                _ => self.ar.cst(0, 1),
            }
        } else {
            match (op, signed) {
                (Op::Add, false) => self.ar.bin(Op::Ult, r, x),
                (Op::Sub, false) => self.ar.bin(Op::Ult, x, y),
                (Op::Mul, false) => {
                    let (nx, ny) = (self.ar.nodes[x as usize], self.ar.nodes[y as usize]);
                    if nx.hi.checked_mul(ny.hi).map_or(false, |h| h <= mask(w)) { self.ar.cst(0, 1) }
                    else if let Some(k) = self.ar.is_const(y) {
                        let m = self.ar.cst(if k == 0 { mask(w) } else { mask(w) / k }, w);
                        self.ar.bin(Op::Ult, m, x)
                    } else if let Some(k) = self.ar.is_const(x) {
                        let m = self.ar.cst(if k == 0 { mask(w) } else { mask(w) / k }, w);
                        self.ar.bin(Op::Ult, m, y)
                    } else {
                        let (zx, zy) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w));
                        let p = self.ar.bin(Op::Mul, zx, zy);
                        let h = self.ar.extract(p, w, w);
                        let z = self.ar.cst(0, w);
                        let e = self.ar.eq(h, z);
                        self.ar.not1(e)
                    }
                }
                _ => {
                    let (zx, zy) = (self.ar.sext(x, 2 * w.min(64)), self.ar.sext(y, 2 * w.min(64)));
                    let p = self.ar.bin(op, zx, zy);
                    let s = self.ar.sext(r, 2 * w.min(64));
                    let e = self.ar.eq(p, s);
                    self.ar.not1(e)
                }
            }
        };
        let o = if op == Op::Add && !signed {
            // interval proof of no overflow is cheaper than r < x
            let (nx, ny) = (self.ar.nodes[x as usize], self.ar.nodes[y as usize]);
            if nx.hi.checked_add(ny.hi).map_or(false, |h| h <= mask(w)) { self.ar.cst(0, 1) }
            else if let Some(k) = self.ar.is_const(y) { if k == 0 { self.ar.cst(0, 1) } else { let m = self.ar.cst(mask(w) - k, w); self.ar.bin(Op::Ult, m, x) } }
            else { o }
        } else { o };
        let (r, o) = (self.v(r), self.v(o));
        V::A(Arc::new(vec![r, o]))
    }
    fn bits(&mut self, k: &str, x: Id, w: u16) -> Id {
        if let Some(c) = self.ar.is_const(x) {
            let v = match k {
                "ctpop" => c.count_ones() as u128,
                "ctlz" => (c.leading_zeros() as u128) - (128 - w as u128),
                "cttz" => if c == 0 { w as u128 } else { c.trailing_zeros() as u128 },
                "bswap" => c.swap_bytes() >> (128 - w),
                _ => c.reverse_bits() >> (128 - w),
            };
            return self.ar.cst(v, w);
        }
        match k {
            "ctpop" => {
                let mut r = self.ar.cst(0, w);
                for i in 0..w { let b = self.ar.extract(x, i, 1); let z = self.ar.zext(b, w); r = self.ar.bin(Op::Add, r, z); }
                r
            }
            "ctlz" => {
                let mut r = self.ar.cst(w as u128, w);
                for i in 0..w { let k = self.ar.cst((1u128 << i) - 1, w); let b = self.ar.bin(Op::Ult, k, x); let c = self.ar.cst((w - 1 - i) as u128, w); r = self.ar.ite(b, c, r); }
                r
            }
            "cttz" => {
                let mut r = self.ar.cst(w as u128, w);
                for i in (0..w).rev() { let b = self.ar.extract(x, i, 1); let c = self.ar.cst(i as u128, w); r = self.ar.ite(b, c, r); }
                r
            }
            "bswap" => {
                let mut r = self.ar.extract(x, 0, 8);
                for i in 1..w / 8 { let b = self.ar.extract(x, i * 8, 8); r = self.ar.concat(r, b); }
                r
            }
            _ => {
                let mut r = self.ar.extract(x, 0, 1);
                for i in 1..w { let b = self.ar.extract(x, i, 1); r = self.ar.concat(r, b); }
                r
            }
        }
    }
    fn tls_addr(&mut self, p: &V) -> X<V> {
        if self.cur == 0 { return Ok(p.clone()); }
        let a = self.concretize(p, 64)? as u64;
        let g = (a >> 32) as u32;
        let id = match self.tls.get(&(self.cur, g)) {
            Some(i) => *i,
            None => {
                let gi = g as usize - GLOBAL_ID0 as usize;
                self.load_global(gi).ok();
                let mut o = self.objs[g as usize].clone().unwrap();
                o.d = self.p.gl_data[gi].get().unwrap().clone();
                self.objs.push(None);
                let id = (self.objs.len() - 1) as u32;
                o.base = ((id as u64) << 32) + BASE_OFF + o.align;
                self.objs[id as usize] = Some(o);
                self.tls.insert((self.cur, g), id);
                id
            }
        };
        let o = self.objs[id as usize].as_ref().unwrap();
        Ok(V::C(o.base as u128))
    }

    // ---------------------------------------------------------------- threads
    fn futex(&mut self, d: Option<u32>, a: &[V]) -> X<()> {
        let addr = self.concretize(&a[1], 64)? as u64;
        let op = self.concretize(&a[2], 32)? as u32 & 0x7f;
        match op {
            0 | 9 => {
                self.hb.atomic = true;
                let cur = self.load_i(&V::C(addr as u128), 32, 4)?;
                self.hb.atomic = false;
                let want = match &a[3] { V::C(c) => V::C(c & mask(32)), v => v.clone() };
                let e = self.icmp(Pred::Eq, 32, &cur, &want)?;
                let dir = match e { V::C(c) => c != 0, z => { let i = self.id(&z, 1); self.branch(i)? } };
                if !dir {
                    if let Some(d) = d { self.set(d, V::C(mask(64))); }
                    let e = match self.errno { Some(e) => e, None => { let e = self.new_obj(4, 4, OK::Global, Some(0)); self.errno = Some(e); e } };
                    self.store_i(&V::C(e as u128), 32, &V::C(11), 4)?;
                    return Ok(());
                }
                if let Some(d) = d { self.set(d, V::C(0)); }
                self.threads[self.cur].state = 1;
                self.threads[self.cur].wait = addr;
                self.pick_next()
            }
            1 | 10 => {
                let n = self.concretize(&a[3], 64)? & mask(32);
                let mut k = 0;
                for t in &mut self.threads { if t.state == 1 && t.wait == addr && k < n { t.state = 0; k += 1; } }
                if let Some(d) = d { self.set(d, V::C(k)); }
                Ok(())
            }
            o => Err(End::Inconclusive(format!("futex op {}", o))),
        }
    }
    /// a plain or atomic access to known bytes: it must be ordered after every conflicting one
    fn access(&mut self, obj: usize, off: u64, n: u64, write: bool) -> X<()> {
        if self.objs[obj].as_ref().map_or(true, |o| o.ro) { return Ok(()); }
        let (c, at) = (self.cur as u32, self.hb.atomic);
        let Hb { vc, sh, .. } = &mut self.hb;
        let my = &vc[c as usize];
        let now = my[c as usize];
        let m = sh.entry(obj as u32).or_default();
        let mut race = None;
        for k in off..off + n {
            let e = m.entry(k as u32).or_default();
            let late = |x: &(u32, u32, bool)| x.0 != c && !(x.2 && at) && my.get(x.0 as usize).copied().unwrap_or(0) < x.1;
            if let Some(w) = &e.w { if late(w) { race = Some((*w, "write")); } }
            if write {
                if let Some(r) = e.r.iter().find(|r| late(r)) { race = Some((*r, "read")); }
                e.w = Some((c, now, at)); e.r.clear();
            } else {
                e.r.retain(|x| !(x.0 == c && (x.2 || !at)));
                if !e.r.iter().any(|x| x.0 == c) || !at { e.r.push((c, now, at)); }
            }
        }
        if let Some(((t, _, _), what)) = race {
            self.hb.atomic = false;
            return self.viol("race", format!("data race: this {} and a {} by thread {} are not ordered", if write { "write" } else { "read" }, what, t));
        }
        Ok(())
    }
    fn hb_read(&mut self, p: &V, acq: bool) {
        if self.threads.len() < 2 { return; }
        let c = self.cur;
        if let V::C(a) = p { if let Some(l) = self.hb.loc.get(&(*a as u64)) { if acq { vjoin(&mut self.hb.vc[c], l); } else { vjoin(&mut self.hb.pend[c], l); } } }
    }
    fn hb_write(&mut self, p: &V, rel: bool, rmw: bool) {
        if self.threads.len() < 2 { return; }
        let c = self.cur;
        let mut v = self.hb.rel[c].clone();
        if rel { let m = self.hb.vc[c].clone(); vjoin(&mut v, &m); self.hb.vc[c][c] += 1; }
        if let V::C(a) = p { let l = self.hb.loc.entry(*a as u64).or_default(); if !rmw { l.clear(); } vjoin(l, &v); }
    }
    fn runnable(&self) -> Vec<usize> {
        (0..self.threads.len()).filter(|&i| { let t = &self.threads[i]; t.state == 0 || (t.state == 3 && self.threads[t.wait as usize].state == 2) }).collect()
    }
    fn switch_to(&mut self, t: usize) {
        if self.threads[t].state == 3 { let v = self.hb.vc[self.threads[t].wait as usize].clone(); vjoin(&mut self.hb.vc[t], &v); }
        if t == self.cur { if self.threads[t].state == 3 { self.threads[t].state = 0; } return; }
        let fr = std::mem::take(&mut self.frames);
        let c = self.cur;
        self.threads[c].frames = fr;
        self.cur = t;
        self.frames = std::mem::take(&mut self.threads[t].frames);
        if self.threads[t].state == 3 { self.threads[t].state = 0; }
    }
    /// the current thread cannot continue
    fn pick_next(&mut self) -> X<()> {
        let r = self.runnable();
        if r.is_empty() { return self.viol("deadlock", "every thread is blocked".into()); }
        let t = self.choose(&r)?;
        self.switch_to(t);
        Ok(())
    }
    /// before a synchronising instruction: another thread may go first (the instruction is then executed when this one resumes)
    fn yield_point(&mut self, again: bool) -> X<bool> {
        if !self.sched_on || self.threads.len() < 2 { return Ok(false); }
        if again && std::mem::take(&mut self.threads[self.cur].resume) { return Ok(false); }
        if self.sched_left == 0 { return Ok(false); }
        let mut r = self.runnable();
        // index 0 = keep running
        r.retain(|x| *x != self.cur);
        if r.is_empty() { return Ok(false); }
        r.insert(0, self.cur);
        let t = self.choose(&r)?;
        if t == self.cur { return Ok(false); }
        self.sched_left -= 1;
        if again { self.frames.last_mut().unwrap().pc -= 1; self.threads[self.cur].resume = true; }
        self.switch_to(t);
        Ok(true)
    }
    /// a thread that waits in a loop lets the others go on
    fn spin(&mut self) -> X<()> {
        if !self.sched_on || self.threads.len() < 2 { return Ok(()); }
        let mut r = self.runnable();
        r.retain(|x| *x != self.cur);
        if r.is_empty() { return Ok(()); }
        let t = self.choose(&r)?;
        self.switch_to(t);
        Ok(())
    }
    fn choose(&mut self, r: &[usize]) -> X<usize> {
        if r.len() == 1 { return Ok(r[0]); }
        let i = self.nvars;
        let v = self.fresh(8, false);
        self.inputs.push(("sched".into(), 8, i));
        let k = self.ar.cst(r.len() as u128, 8);
        let c = self.ar.bin(Op::Ult, v, k);
        self.assume(c)?;
        let x = self.concretize(&V::S(v), 8)? as usize;
        Ok(r[x])
    }
    pub fn path_inputs(&mut self) -> Vec<(String, u16, u128)> {
        let m = self.ar.model.clone();
        self.inputs.iter().map(|(n, w, i)| (n.clone(), *w, m.get(*i as usize).copied().unwrap_or(0) & mask(*w))).collect()
    }
    pub fn pc_len(&self) -> usize { self.pc.len() }
}

fn zero_v(t: &T) -> V {
    match &t.k {
        TK::Struct(f, _) => V::A(Arc::new(f.iter().map(zero_v).collect())),
        TK::Arr(e, n) | TK::Vect(e, n) => V::A(Arc::new(vec![zero_v(e); *n as usize])),
        _ => V::C(0),
    }
}
fn insert(t: &T, v: V, e: &V, path: &[u32]) -> V {
    if path.is_empty() { return e.clone(); }
    let mut a: Vec<V> = match v {
        V::A(a) => a.to_vec(),
        _ => { let n = match &t.k { TK::Struct(f, _) => f.len(), TK::Arr(_, n) | TK::Vect(_, n) => *n as usize, _ => 0 }; vec![V::U; n] }
    };
    let i = path[0] as usize;
    let st = match &t.k { TK::Struct(f, _) => f[i].clone(), TK::Arr(e, _) | TK::Vect(e, _) => e.clone(), _ => t.clone() };
    a[i] = insert(&st, a[i].clone(), e, &path[1..]);
    V::A(Arc::new(a))
}
fn fill(d: &mut ObjData, off: usize, t: &T, v: &V) {
    match (&t.k, v) {
        (TK::Struct(f, o), V::A(a)) => for ((ft, fo), x) in f.iter().zip(o).zip(a.iter()) { fill(d, off + *fo as usize, ft, x); },
        (TK::Arr(e, _), V::A(a)) | (TK::Vect(e, _), V::A(a)) => for (k, x) in a.iter().enumerate() { fill(d, off + k * e.size as usize, e, x); },
        (_, V::C(c)) => { let mut c = *c; for k in 0..t.size as usize { d.b[off + k] = c as u8; c = if k < 15 { c >> 8 } else { 0 }; } }
        (_, V::U) => {
            if d.s.is_empty() { d.s = vec![0; d.b.len()]; }
            for k in 0..t.size as usize { d.s[off + k] = UNINIT; }
        }
        _ => {}
    }
}

pub fn hook_of(n: &str) -> Hook {
    if n.ends_with("___rustc12___rust_alloc") { return Hook::Alloc; }
    if n.ends_with("___rustc19___rust_alloc_zeroed") { return Hook::AllocZ; }
    if n.ends_with("___rustc14___rust_dealloc") { return Hook::Dealloc; }
    if n.ends_with("___rustc14___rust_realloc") { return Hook::Realloc; }
    if n.contains("___rust_no_alloc_shim_is_unstable") { return Hook::Nop; }
    if n.contains("4core9panicking") {
        for s in ["9panic_fmt", "18panic_nounwind_fmt", "14panic_nounwind", "26panic_nounwind_nobacktrace", "19panic_cannot_unwind", "16panic_in_cleanup", "5panic", "18panic_bounds_check", "36panic_misaligned_pointer_dereference", "30panic_null_pointer_dereference"] {
            if n.ends_with(s) { return Hook::Panic; }
        }
    }
    if n.ends_with("17rust_begin_unwind") || n.contains("18handle_alloc_error") || n.ends_with("13process5abort") || n.ends_with("13abort_internal") || n.contains("16rust_start_panic") { return Hook::Abort; }
    if n.contains("2io5stdio6__print") || n.contains("2io5stdio7__eprint") || n.ends_with("2io5stdio6_print") || n.ends_with("2io5stdio7_eprint") { return Hook::Nop; }
    Hook::None
}

pub type Stats = BTreeMap<String, u64>;
