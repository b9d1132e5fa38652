//! Reader for textual LLVM IR (the subset rustc emits without optimisation).
use crate::expr::mask;
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

pub type T = Arc<Ty>;
#[derive(Debug, Clone, PartialEq)]
pub enum TK { Void, Int(u16), Ptr, F32, F64, Arr(T, u64), Struct(Vec<T>, Vec<u64>), Vect(T, u64), Other }
#[derive(Debug, Clone, PartialEq)]
pub struct Ty { pub k: TK, pub size: u64, pub align: u64 }

pub fn t_int(w: u16) -> T {
    let bytes = ((w as u64) + 7) / 8;
    let align = match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 };
    let size = (bytes + align - 1) / align * align;
    Arc::new(Ty { k: TK::Int(w), size, align })
}
fn mk(k: TK, size: u64, align: u64) -> T { Arc::new(Ty { k, size, align }) }
pub fn t_struct(f: Vec<T>, packed: bool) -> T {
    let mut off = 0u64;
    let mut al = 1u64;
    let mut offs = vec![];
    for t in &f {
        let a = if packed { 1 } else { t.align };
        al = al.max(a);
        off = (off + a - 1) / a * a;
        offs.push(off);
        off += t.size;
    }
    off = (off + al - 1) / al * al;
    mk(TK::Struct(f, offs), off, al)
}

#[derive(Debug, Clone)]
pub enum V { C(u128), S(u32), U, A(Arc<Vec<V>>) }

#[derive(Debug, Clone)]
pub enum Opnd { R(u32), K(V) }

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, UToF, SToF, FToU, FToS, FExt, FTrunc }
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }

#[derive(Debug, Clone)]
pub enum Callee { Fn(u32), Ext(Arc<str>), Reg(Opnd), Asm }

/// memory ordering: does it acquire, does it release
#[derive(Debug, Clone, Copy)]
pub struct Ord_ { pub acq: bool, pub rel: bool }
#[derive(Debug, Clone)]
pub enum I {
    Alloca { d: u32, size: u64, align: u64, n: Option<Opnd> },
    Load { d: u32, t: T, p: Opnd, align: u64, atomic: Option<Ord_> },
    Store { t: T, v: Opnd, p: Opnd, align: u64, atomic: Option<Ord_> },
    Gep { d: u32, p: Opnd, off: i64, idx: Vec<(Opnd, u16, i64)> },
    Bin { d: u32, op: B, t: T, a: Opnd, b: Opnd },
    ICmp { d: u32, p: Pred, t: T, a: Opnd, b: Opnd },
    FCmp { d: u32, p: String, w: u16, a: Opnd, b: Opnd },
    FNeg { d: u32, w: u16, a: Opnd },
    Cast { d: u32, k: Cast, from: T, to: T, v: Opnd },
    Select { d: u32, c: Opnd, t: T, a: Opnd, b: Opnd },
    ExtractV { d: u32, v: Opnd, path: Vec<u32> },
    InsertV { d: u32, t: T, v: Opnd, e: Opnd, path: Vec<u32> },
    Call { d: Option<u32>, c: Callee, args: Vec<(Opnd, T)>, rt: T },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { v: Opnd, w: u16, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opnd>),
    Unreachable,
    CmpXchg { d: u32, p: Opnd, t: T, c: Opnd, n: Opnd, o: Ord_, f: Ord_ },
    Rmw { d: u32, op: String, p: Opnd, t: T, v: Opnd, m: Ord_ },
    Fence { o: Ord_ },
    Phi { d: u32, l: Vec<(Opnd, u32)>, t: T },
    Freeze { d: u32, t: T, v: Opnd },
    InsElem { d: u32, t: T, v: Opnd, e: Opnd, i: Opnd },
    ExtElem { d: u32, v: Opnd, i: Opnd },
    Shuffle { d: u32, a: Opnd, b: Opnd, n: u64, m: Opnd },
    Unsupported(String),
}

#[derive(Debug)]
pub struct Func {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub insts: Vec<I>,
    /// start instruction of each block
    pub blocks: Vec<u32>,
    /// block of each instruction
    pub block_of: Vec<u32>,
}
pub struct FnDecl { pub name: Arc<str>, pub header: (usize, usize), pub body: (usize, usize), pub f: OnceLock<Result<Func, String>> }
pub struct GlobalDef { pub name: Arc<str>, pub t: T, pub init: Option<(usize, usize)>, pub constant: bool, pub align: u64, pub tls: bool }

pub struct Module {
    pub text: String,
    pub funcs: Vec<FnDecl>,
    pub fn_by_name: HashMap<Arc<str>, u32>,
    pub globals: Vec<GlobalDef>,
    pub gl_by_name: HashMap<Arc<str>, u32>,
    pub aliases: HashMap<Arc<str>, Arc<str>>,
    pub weak: std::collections::HashSet<Arc<str>>,
    pub ext_fns: Vec<Arc<str>>,
    pub ext_by_name: HashMap<Arc<str>, u32>,
}

/// address layout: object id in the upper half
pub const BASE_OFF: u64 = 0x10000;
pub const GLOBAL_ID0: u64 = 0x10;
pub const FN_ID: u64 = 0x1;
pub fn fn_addr(i: u32) -> u64 { (FN_ID << 32) + BASE_OFF + (i as u64) * 16 }
pub const EXT_ID: u64 = 0x2;
pub fn ext_addr(i: u32) -> u64 { (EXT_ID << 32) + BASE_OFF + (i as u64) * 16 }

#[derive(Debug, Clone, PartialEq)]
enum Tok<'a> { Id(&'a str), L(String), G(String), N(&'a str), S(Vec<u8>, bool), P(char), Meta, Attr }

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && i + 2 <= s.len() - 1 + 0 {
            if s[i + 1] == b'\\' { o.push(b'\\'); i += 2; continue; }
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap_or("");
            if let Ok(v) = u8::from_str_radix(h, 16) { o.push(v); i += 3; continue; }
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' { o.push(b'\\'); i += 2; continue; }
        o.push(s[i]);
        i += 1;
    }
    o
}

fn lex<'a>(s: &'a str) -> Vec<Tok<'a>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => { i += 1; }
            b';' => break,
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' { j += 1; }
                v.push(Tok::S(unescape(&b[i + 1..j]), false));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' { j += 1; }
                v.push(Tok::S(unescape(&b[i + 2..j]), true));
                i = j + 1;
            }
            b'@' | b'%' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' { j += 1; }
                    name = String::from_utf8_lossy(&unescape(&b[i + 2..j])).into_owned();
                    i = j + 1;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) { j += 1; }
                    name = s[i + 1..j].to_string();
                    i = j;
                }
                v.push(if c == b'@' { Tok::G(name) } else { Tok::L(name) });
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) { j += 1; }
                i = j;
                v.push(Tok::Meta);
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) { j += 1; }
                i = j;
                v.push(Tok::Attr);
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let mut j = i + 1;
                while j < b.len() && (idc(b[j]) || b[j] == b'+') { j += 1; }
                v.push(Tok::N(&s[i..j]));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) { j += 1; }
                let w = &s[i..j];
                v.push(if w.len() > 3 && w.starts_with("f0x") && w[3..].bytes().all(|c| c.is_ascii_hexdigit()) { Tok::N(w) } else { Tok::Id(w) });
                i = j;
            }
            _ => { v.push(Tok::P(c as char)); i += 1; }
        }
    }
    v
}

pub struct PS<'a, 'm> { t: Vec<Tok<'a>>, i: usize, m: &'m Module, regs: Option<HashMap<String, u32>>, blocks: HashMap<String, u32> }

type R<X> = Result<X, String>;

fn is_ty_start(t: &Tok) -> bool {
    match t {
        Tok::Id(s) => matches!(*s, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "label" | "metadata" | "token" | "x86_fp80" | "bfloat")
            || (s.len() > 1 && s.as_bytes()[0] == b'i' && s[1..].bytes().all(|c| c.is_ascii_digit())),
        Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
        _ => false,
    }
}

impl<'a, 'm> PS<'a, 'm> {
    fn new(s: &'a str, m: &'m Module) -> Self { PS { t: lex(s), i: 0, m, regs: None, blocks: HashMap::new() } }
    fn peek(&self) -> Option<&Tok<'a>> { self.t.get(self.i) }
    fn is_p(&self, c: char) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn is_id(&self, s: &str) -> bool { matches!(self.peek(), Some(Tok::Id(x)) if *x == s) }
    fn eat_id(&mut self, s: &str) -> bool { if self.is_id(s) { self.i += 1; true } else { false } }
    fn exp_p(&mut self, c: char) -> R<()> { if self.eat_p(c) { Ok(()) } else { Err(format!("expected {} at {:?}", c, &self.t[self.i..(self.i + 6).min(self.t.len())])) } }
    fn next(&mut self) -> R<Tok<'a>> { let t = self.t.get(self.i).cloned().ok_or("eof")?; self.i += 1; Ok(t) }
    fn skip_parens(&mut self) {
        if !self.eat_p('(') { return; }
        let mut d = 1;
        while d > 0 && self.i < self.t.len() {
            match self.t[self.i] { Tok::P('(') => d += 1, Tok::P(')') => d -= 1, _ => {} }
            self.i += 1;
        }
    }
    fn num(&mut self) -> R<u64> { match self.next()? { Tok::N(s) => s.parse::<u64>().map_err(|e| format!("{} {}", s, e)), t => Err(format!("num? {:?}", t)) } }
    fn ty(&mut self) -> R<T> {
        match self.next()? {
            Tok::Id(s) => Ok(match s {
                "void" => mk(TK::Void, 0, 1),
                "ptr" => {
                    if self.eat_id("addrspace") { self.skip_parens(); }
                    mk(TK::Ptr, 8, 8)
                }
                "float" => mk(TK::F32, 4, 4),
                "double" => mk(TK::F64, 8, 8),
                "half" | "bfloat" => mk(TK::Other, 2, 2),
                "fp128" => mk(TK::Other, 16, 16),
                "x86_fp80" => mk(TK::Other, 16, 16),
                "label" | "metadata" | "token" => mk(TK::Other, 0, 1),
                _ if s.as_bytes()[0] == b'i' => t_int(s[1..].parse::<u16>().map_err(|_| format!("type {}", s))?),
                _ => return Err(format!("type {}", s)),
            }),
            Tok::P('[') => {
                let n = self.num()?;
                if !self.eat_id("x") { return Err("x".into()); }
                let e = self.ty()?;
                self.exp_p(']')?;
                let (sz, al) = (e.size * n, e.align);
                Ok(mk(TK::Arr(e, n), sz, al))
            }
            Tok::P('{') => {
                let mut f = vec![];
                if !self.eat_p('}') {
                    loop { f.push(self.ty()?); if self.eat_p(',') { continue; } self.exp_p('}')?; break; }
                }
                Ok(t_struct(f, false))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let mut f = vec![];
                    if !self.eat_p('}') {
                        loop { f.push(self.ty()?); if self.eat_p(',') { continue; } self.exp_p('}')?; break; }
                    }
                    self.exp_p('>')?;
                    return Ok(t_struct(f, true));
                }
                let n = self.num()?;
                if !self.eat_id("x") { return Err("x".into()); }
                let e = self.ty()?;
                self.exp_p('>')?;
                let sz = match e.k { TK::Int(w) if w % 8 != 0 => (w as u64 * n + 7) / 8, _ => e.size * n };
                Ok(mk(TK::Vect(e, n), sz, sz.next_power_of_two()))
            }
            t => Err(format!("type? {:?}", t)),
        }
    }
    fn skip_attrs(&mut self) {
        while let Some(t) = self.peek() {
            if is_ty_start(t) { return; }
            match t {
                Tok::Id(s) => {
                    let s = *s;
                    self.i += 1;
                    if self.is_p('(') { self.skip_parens(); }
                    else if s == "align" || s == "cc" { self.i += 1; }
                }
                Tok::Attr => self.i += 1,
                Tok::S(..) => { self.i += 1; if self.eat_p('=') { self.i += 1; } }
                _ => return,
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let r = self.regs.as_mut().unwrap();
        let l = r.len() as u32;
        *r.entry(n.to_string()).or_insert(l)
    }
    fn sym(&self, n: &str) -> R<u128> {
        if let Some(&f) = self.m.fn_by_name.get(n) { return Ok(fn_addr(f) as u128); }
        if let Some(&g) = self.m.gl_by_name.get(n) { return Ok((((GLOBAL_ID0 + g as u64) << 32) + BASE_OFF + self.m.globals[g as usize].align) as u128); }
        if let Some(a) = self.m.aliases.get(n) { return self.sym(a); }
        if self.m.weak.contains(n) { return Ok(0); }
        if let Some(&f) = self.m.ext_by_name.get(n) { return Ok(ext_addr(f) as u128); }
        Err(format!("unknown symbol {}", n))
    }
    fn zero(t: &T) -> V {
        match &t.k {
            TK::Struct(f, _) => V::A(Arc::new(f.iter().map(Self::zero).collect())),
            TK::Arr(e, n) | TK::Vect(e, n) => V::A(Arc::new(vec![Self::zero(e); *n as usize])),
            _ => V::C(0),
        }
    }
    fn undef(t: &T) -> V {
        match &t.k {
            TK::Struct(f, _) => V::A(Arc::new(f.iter().map(Self::undef).collect())),
            TK::Arr(e, n) | TK::Vect(e, n) => V::A(Arc::new(vec![Self::undef(e); *n as usize])),
            _ => V::U,
        }
    }
    fn val(&mut self, t: &T) -> R<Opnd> {
        if let Some(Tok::L(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Opnd::R(self.reg(&n)));
        }
        Ok(Opnd::K(self.cval(t)?))
    }
    fn tyval(&mut self) -> R<(T, Opnd)> { self.skip_attrs(); let t = self.ty()?; self.skip_vattrs(); let v = self.val(&t)?; Ok((t, v)) }
    /// attributes between a parameter type and its value
    fn skip_vattrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    match *s {
                        "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast"
                        | "sub" | "add" | "trunc" | "xor" | "splat" | "asm" | "blockaddress" | "dso_local_equivalent" => return,
                        "align" => { self.i += 1; if self.is_p('(') { self.skip_parens(); } else { self.i += 1; } }
                        _ => { self.i += 1; if self.is_p('(') { self.skip_parens(); } }
                    }
                }
                Some(Tok::S(_, false)) => { self.i += 1; if self.eat_p('=') { self.i += 1; } }
                _ => return,
            }
        }
    }
    fn cval(&mut self, t: &T) -> R<V> {
        let tok = self.next()?;
        Ok(match tok {
            Tok::N(s) => match t.k {
                TK::F64 | TK::F32 => {
                    if let Some(h) = s.strip_prefix("f0x") { return Ok(V::C(u64::from_str_radix(h, 16).map_err(|_| "fp")? as u128)); }
                    if s.ends_with("nan") { return Ok(V::C(if t.k == TK::F32 { f32::NAN.to_bits() as u128 } else { f64::NAN.to_bits() as u128 })); }
                    let bits = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).map_err(|_| "fp")? } else { s.parse::<f64>().map_err(|_| format!("fp {}", s))?.to_bits() };
                    if t.k == TK::F32 { V::C((f64::from_bits(bits) as f32).to_bits() as u128) } else { V::C(bits as u128) }
                }
                _ => {
                    let w = if let TK::Int(w) = t.k { w } else { 64 };
                    let v: u128 = if s.starts_with('-') { s.parse::<i128>().map_err(|_| format!("int {}", s))? as u128 } else { s.parse::<u128>().map_err(|_| format!("int {}", s))? };
                    V::C(v & mask(w))
                }
            },
            Tok::Id(s) => match s {
                "true" => V::C(1),
                "false" => V::C(0),
                "null" | "none" => V::C(0),
                "zeroinitializer" => Self::zero(t),
                "undef" | "poison" => Self::undef(t),
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::Id(_))) { self.i += 1; if self.is_p('(') && !matches!(self.t[self.i - 1], Tok::Id("inbounds" | "nuw" | "nusw")) { self.skip_parens(); } else if self.is_p('(') { break; } }
                    self.exp_p('(')?;
                    let et = self.ty()?;
                    self.exp_p(',')?;
                    let (_, p) = self.tyval()?;
                    let mut idx = vec![];
                    while self.eat_p(',') { let (it, v) = self.tyval()?; idx.push((it, v)); }
                    self.exp_p(')')?;
                    let (off, dy) = gep_off(&et, &idx)?;
                    if !dy.is_empty() { return Err("dynamic const gep".into()); }
                    match p { Opnd::K(V::C(b)) => V::C((b as u64).wrapping_add(off as u64) as u128), _ => return Err("const gep base".into()) }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                    self.exp_p('(')?;
                    let (_, v) = self.tyval()?;
                    if !self.eat_id("to") { return Err("to".into()); }
                    let tt = self.ty()?;
                    self.exp_p(')')?;
                    match (v, &tt.k) { (Opnd::K(V::C(c)), TK::Int(w)) => V::C(c & mask(*w)), (Opnd::K(v), _) => v, _ => return Err("const cast".into()) }
                }
                "sub" | "add" | "xor" => {
                    while self.is_id("nuw") || self.is_id("nsw") { self.i += 1; }
                    self.exp_p('(')?;
                    let (ta, a) = self.tyval()?;
                    self.exp_p(',')?;
                    let (_, b) = self.tyval()?;
                    self.exp_p(')')?;
                    let w = if let TK::Int(w) = ta.k { w } else { 64 };
                    match (a, b) { (Opnd::K(V::C(x)), Opnd::K(V::C(y))) => V::C(match s { "sub" => x.wrapping_sub(y), "add" => x.wrapping_add(y), _ => x ^ y } & mask(w)), _ => return Err("const arith".into()) }
                }
                "splat" => {
                    self.exp_p('(')?;
                    let (_, v) = self.tyval()?;
                    self.exp_p(')')?;
                    match (v, &t.k) { (Opnd::K(v), TK::Vect(_, n)) => V::A(Arc::new(vec![v; *n as usize])), _ => return Err("splat".into()) }
                }
                _ => return Err(format!("const {}", s)),
            },
            Tok::G(n) => V::C(self.sym(&n)?),
            Tok::S(b, true) => V::A(Arc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            Tok::P('[') | Tok::P('{') => {
                let close = if tok == Tok::P('[') { ']' } else { '}' };
                let mut v = vec![];
                if !self.eat_p(close) {
                    loop {
                        let (_, o) = self.tyval()?;
                        match o { Opnd::K(x) => v.push(x), _ => return Err("agg".into()) }
                        if self.eat_p(',') { continue; }
                        self.exp_p(close)?;
                        break;
                    }
                }
                V::A(Arc::new(v))
            }
            Tok::P('<') => {
                let brace = self.eat_p('{');
                let mut v = vec![];
                if !(brace && self.eat_p('}')) {
                    loop {
                        let (_, o) = self.tyval()?;
                        match o { Opnd::K(x) => v.push(x), _ => return Err("agg".into()) }
                        if self.eat_p(',') { continue; }
                        break;
                    }
                    if brace { self.exp_p('}')?; }
                }
                self.exp_p('>')?;
                V::A(Arc::new(v))
            }
            t => return Err(format!("const? {:?}", t)),
        })
    }
    fn label(&mut self) -> R<u32> {
        if !self.eat_id("label") { return Err("label".into()); }
        match self.next()? {
            Tok::L(n) => { let l = self.blocks.len() as u32; Ok(*self.blocks.entry(n).or_insert(l)) }
            t => Err(format!("label {:?}", t)),
        }
    }
    fn bb(&mut self, n: &str) -> u32 { let l = self.blocks.len() as u32; *self.blocks.entry(n.to_string()).or_insert(l) }
    fn align(&mut self, dflt: u64) -> u64 {
        let mut j = self.i;
        while j + 1 < self.t.len() {
            if self.t[j] == Tok::Id("align") { if let Tok::N(s) = self.t[j + 1] { return s.parse().unwrap_or(dflt); } }
            j += 1;
        }
        dflt
    }
    /// the next memory ordering of the line
    fn ordering(&mut self) -> Ord_ {
        while self.i < self.t.len() {
            let o = match &self.t[self.i] { Tok::Id(s) => match &s[..] { "unordered" | "monotonic" => Some((false, false)), "acquire" => Some((true, false)), "release" => Some((false, true)), "acq_rel" | "seq_cst" => Some((true, true)), _ => None }, _ => None };
            self.i += 1;
            if let Some((acq, rel)) = o { return Ord_ { acq, rel }; }
        }
        Ord_ { acq: false, rel: false }
    }
    fn inst(&mut self) -> R<I> {
        let mut d = None;
        if let Some(Tok::L(n)) = self.peek() {
            let n = n.clone();
            if self.t.get(self.i + 1) == Some(&Tok::P('=')) { self.i += 2; d = Some(self.reg(&n)); }
        }
        let op = match self.next()? { Tok::Id(s) => s, t => return Err(format!("inst {:?}", t)) };
        let dd = d.unwrap_or(0);
        Ok(match op {
            "alloca" => {
                self.eat_id("inalloca");
                let t = self.ty()?;
                let mut n = None;
                if self.is_p(',') && self.t.get(self.i + 1).map_or(false, is_ty_start) { self.i += 1; n = Some(self.tyval()?.1); }
                let al = self.align(t.align);
                I::Alloca { d: dd, size: t.size, align: al, n }
            }
            "load" => {
                let atomic = self.eat_id("atomic");
                self.eat_id("volatile");
                let t = self.ty()?;
                self.exp_p(',')?;
                let (_, p) = self.tyval()?;
                let al = self.align(t.align);
                let atomic = if atomic { Some(self.ordering()) } else { None };
                I::Load { d: dd, t, p, align: al, atomic }
            }
            "store" => {
                let atomic = self.eat_id("atomic");
                self.eat_id("volatile");
                let (t, v) = self.tyval()?;
                self.exp_p(',')?;
                let (_, p) = self.tyval()?;
                let al = self.align(t.align);
                let atomic = if atomic { Some(self.ordering()) } else { None };
                I::Store { t, v, p, align: al, atomic }
            }
            "getelementptr" => {
                loop {
                    if self.eat_id("inbounds") || self.eat_id("nuw") || self.eat_id("nusw") { continue; }
                    if self.eat_id("inrange") { self.skip_parens(); continue; }
                    break;
                }
                let et = self.ty()?;
                self.exp_p(',')?;
                let (_, p) = self.tyval()?;
                let mut idx = vec![];
                while self.is_p(',') && self.t.get(self.i + 1).map_or(false, is_ty_start) { self.i += 1; idx.push(self.tyval()?); }
                let (off, dy) = gep_off(&et, &idx)?;
                I::Gep { d: dd, p, off, idx: dy }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(self.peek(), Some(Tok::Id(s)) if matches!(*s, "nuw"|"nsw"|"exact"|"disjoint"|"fast"|"nnan"|"ninf"|"nsz"|"arcp"|"contract"|"afn"|"reassoc")) { self.i += 1; }
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp_p(',')?;
                let b = self.val(&t)?;
                let o = match op { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem, "srem" => B::SRem,
                    "and" => B::And, "or" => B::Or, "xor" => B::Xor, "shl" => B::Shl, "lshr" => B::LShr, "ashr" => B::AShr, "fadd" => B::FAdd, "fsub" => B::FSub, "fmul" => B::FMul, "fdiv" => B::FDiv, _ => B::FRem };
                I::Bin { d: dd, op: o, t, a, b }
            }
            "fneg" => { let t = self.ty()?; let a = self.val(&t)?; I::FNeg { d: dd, w: (t.size * 8) as u16, a } }
            "icmp" => {
                self.eat_id("samesign");
                let p = match self.next()? { Tok::Id(s) => match s { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => return Err("pred".into()) }, _ => return Err("pred".into()) };
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp_p(',')?;
                let b = self.val(&t)?;
                I::ICmp { d: dd, p, t, a, b }
            }
            "fcmp" => {
                while matches!(self.peek(), Some(Tok::Id(s)) if matches!(*s, "fast"|"nnan"|"ninf"|"nsz"|"arcp"|"contract"|"afn"|"reassoc")) { self.i += 1; }
                let p = match self.next()? { Tok::Id(s) => s.to_string(), _ => return Err("pred".into()) };
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp_p(',')?;
                let b = self.val(&t)?;
                I::FCmp { d: dd, p, w: (t.size * 8) as u16, a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                while matches!(self.peek(), Some(Tok::Id(s)) if matches!(*s, "nuw"|"nsw"|"nneg")) { self.i += 1; }
                let (from, v) = self.tyval()?;
                if !self.eat_id("to") { return Err("to".into()); }
                let to = self.ty()?;
                let k = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, "bitcast" => Cast::Bitcast,
                    "uitofp" => Cast::UToF, "sitofp" => Cast::SToF, "fptoui" => Cast::FToU, "fptosi" => Cast::FToS, "fpext" => Cast::FExt, _ => Cast::FTrunc };
                I::Cast { d: dd, k, from, to, v }
            }
            "select" => {
                while matches!(self.peek(), Some(Tok::Id(s)) if matches!(*s, "fast"|"nnan"|"ninf"|"nsz"|"arcp"|"contract"|"afn"|"reassoc")) { self.i += 1; }
                let (ct, c) = self.tyval()?;
                if !matches!(ct.k, TK::Int(1)) { return Ok(I::Unsupported("vector select".into())); }
                self.exp_p(',')?;
                let (t, a) = self.tyval()?;
                self.exp_p(',')?;
                let (_, b) = self.tyval()?;
                I::Select { d: dd, c, t, a, b }
            }
            "extractvalue" => {
                let (_, v) = self.tyval()?;
                let mut path = vec![];
                while self.eat_p(',') { if matches!(self.peek(), Some(Tok::N(_))) { path.push(self.num()? as u32); } else { break; } }
                I::ExtractV { d: dd, v, path }
            }
            "insertvalue" => {
                let (t, v) = self.tyval()?;
                self.exp_p(',')?;
                let (_, e) = self.tyval()?;
                let mut path = vec![];
                while self.eat_p(',') { if matches!(self.peek(), Some(Tok::N(_))) { path.push(self.num()? as u32); } else { break; } }
                I::InsertV { d: dd, t, v, e, path }
            }
            "extractelement" => { let (_, v) = self.tyval()?; self.exp_p(',')?; let (_, i) = self.tyval()?; I::ExtElem { d: dd, v, i } }
            "insertelement" => { let (t, v) = self.tyval()?; self.exp_p(',')?; let (_, e) = self.tyval()?; self.exp_p(',')?; let (_, i) = self.tyval()?; I::InsElem { d: dd, t, v, e, i } }
            "shufflevector" => { let (t, a) = self.tyval()?; self.exp_p(',')?; let (_, b) = self.tyval()?; self.exp_p(',')?; let (_, m) = self.tyval()?; let n = if let TK::Vect(_, n) = t.k { n } else { 0 }; I::Shuffle { d: dd, a, b, n, m } }
            "freeze" => { let (t, v) = self.tyval()?; I::Freeze { d: dd, t, v } }
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" { self.eat_id("call"); }
                self.skip_attrs();
                let rt = self.ty()?;
                if self.is_p('(') { self.skip_parens(); }
                self.skip_callee_attrs();
                let c = match self.next()? {
                    Tok::G(n) => {
                        let n = self.m.aliases.get(n.as_str()).map(|s| s.to_string()).unwrap_or(n);
                        if let Some(&f) = self.m.fn_by_name.get(n.as_str()) { Callee::Fn(f) } else { Callee::Ext(n.into()) }
                    }
                    Tok::L(n) => Callee::Reg(Opnd::R(self.reg(&n))),
                    Tok::Id("asm") => Callee::Asm,
                    Tok::Id("null") => Callee::Reg(Opnd::K(V::C(0))),
                    t => return Ok(I::Unsupported(format!("callee {:?}", t))),
                };
                if let Callee::Asm = c { while !self.is_p('(') { self.i += 1; if self.i >= self.t.len() { return Err("asm".into()); } } }
                self.exp_p('(')?;
                let mut args = vec![];
                if !self.eat_p(')') {
                    loop {
                        self.skip_attrs();
                        let t = self.ty()?;
                        if let TK::Other = t.k {
                            // metadata argument
                            while !self.is_p(',') && !self.is_p(')') { self.i += 1; if self.is_p('(') { self.skip_parens(); } }
                            args.push((Opnd::K(V::U), t));
                        } else {
                            self.skip_vattrs();
                            let v = self.val(&t)?;
                            args.push((v, t));
                        }
                        if self.eat_p(',') { continue; }
                        self.exp_p(')')?;
                        break;
                    }
                }
                I::Call { d, c, args, rt }
            }
            "br" => {
                if self.is_id("label") { I::Br(self.label()?) } else {
                    let (_, c) = self.tyval()?;
                    self.exp_p(',')?;
                    let a = self.label()?;
                    self.exp_p(',')?;
                    let b = self.label()?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval()?;
                self.exp_p(',')?;
                let def = self.label()?;
                self.exp_p('[')?;
                let mut cases = vec![];
                while !self.eat_p(']') {
                    let (_, k) = self.tyval()?;
                    self.exp_p(',')?;
                    let l = self.label()?;
                    match k { Opnd::K(V::C(c)) => cases.push((c, l)), _ => return Err("case".into()) }
                }
                let w = if let TK::Int(w) = t.k { w } else { 64 };
                I::Switch { v, w, def, cases }
            }
            "ret" => { if self.is_id("void") { I::Ret(None) } else { I::Ret(Some(self.tyval()?.1)) } }
            "unreachable" => I::Unreachable,
            "cmpxchg" => {
                self.eat_id("weak"); self.eat_id("volatile");
                let (_, p) = self.tyval()?;
                self.exp_p(',')?;
                let (t, c) = self.tyval()?;
                self.exp_p(',')?;
                let (_, n) = self.tyval()?;
                let o = self.ordering(); let f = self.ordering();
                I::CmpXchg { d: dd, p, t, c, n, o, f }
            }
            "atomicrmw" => {
                self.eat_id("volatile");
                let o = match self.next()? { Tok::Id(s) => s.to_string(), _ => return Err("rmw".into()) };
                let (_, p) = self.tyval()?;
                self.exp_p(',')?;
                let (t, v) = self.tyval()?;
                let m = self.ordering();
                I::Rmw { d: dd, op: o, p, t, v, m }
            }
            "fence" => I::Fence { o: self.ordering() },
            "phi" => {
                let t = self.ty()?;
                let mut l = vec![];
                loop {
                    self.exp_p('[')?;
                    let v = self.val(&t)?;
                    self.exp_p(',')?;
                    let b = match self.next()? { Tok::L(n) => self.bb(&n), _ => return Err("phi".into()) };
                    self.exp_p(']')?;
                    l.push((v, b));
                    if self.is_p(',') && self.t.get(self.i + 1) == Some(&Tok::P('[')) { self.i += 1; continue; }
                    break;
                }
                I::Phi { d: dd, l, t }
            }
            _ => I::Unsupported(op.to_string()),
        })
    }
    fn skip_callee_attrs(&mut self) {
        while let Some(Tok::Id(s)) = self.peek() {
            if *s == "asm" || *s == "null" { return; }
            if *s == "addrspace" { self.i += 1; self.skip_parens(); continue; }
            return;
        }
    }
}

fn gep_off(et: &T, idx: &[(T, Opnd)]) -> R<(i64, Vec<(Opnd, u16, i64)>)> {
    let mut off = 0i64;
    let mut dy = vec![];
    let mut cur = et.clone();
    for (n, (it, v)) in idx.iter().enumerate() {
        let w = if let TK::Int(w) = it.k { w } else { 64 };
        let scale;
        if n == 0 { scale = cur.size as i64; } else {
            match &cur.clone().k {
                TK::Struct(f, o) => {
                    if let Opnd::K(V::C(c)) = v { off += o[*c as usize] as i64; cur = f[*c as usize].clone(); continue; }
                    return Err("struct gep".into());
                }
                TK::Arr(e, _) | TK::Vect(e, _) => { scale = e.size as i64; cur = e.clone(); }
                _ => return Err("gep type".into()),
            }
        }
        match v {
            Opnd::K(V::C(c)) => off = off.wrapping_add((crate::expr::sext_val(*c, w) as i64).wrapping_mul(scale)),
            o => dy.push((o.clone(), w, scale)),
        }
    }
    Ok((off, dy))
}

/// name of the symbol starting at byte `p` of `s` (after '@')
fn sym_at(s: &str) -> String {
    let b = s.as_bytes();
    if b[0] == b'"' { let j = s[1..].find('"').unwrap(); return String::from_utf8_lossy(&unescape(&b[1..1 + j])).into_owned(); }
    let mut j = 0;
    while j < b.len() && (b[j].is_ascii_alphanumeric() || matches!(b[j], b'_' | b'.' | b'$' | b'-')) { j += 1; }
    s[..j].to_string()
}

impl Module {
    pub fn load(text: String) -> R<Module> {
        let mut m = Module { text: String::new(), funcs: vec![], fn_by_name: HashMap::new(), globals: vec![], gl_by_name: HashMap::new(), aliases: HashMap::new(), weak: Default::default(), ext_fns: vec![], ext_by_name: HashMap::new() };
        let b = text.as_bytes();
        let mut pos = 0;
        let mut gl_lines = vec![];
        while pos < b.len() {
            let mut e = pos;
            while e < b.len() && b[e] != b'\n' { e += 1; }
            let line = &text[pos..e];
            if line.starts_with('@') { gl_lines.push((pos, e)); }
            else if line.starts_with("define ") {
                let at = line.find('@').ok_or("define")?;
                let name: Arc<str> = sym_at(&line[at + 1..]).into();
                let body = e + 1;
                let mut q = body;
                loop {
                    let mut f = q;
                    while f < b.len() && b[f] != b'\n' { f += 1; }
                    if f - q == 1 && b[q] == b'}' { e = f; break; }
                    if f >= b.len() { return Err("unterminated function".into()); }
                    q = f + 1;
                }
                m.fn_by_name.insert(name.clone(), m.funcs.len() as u32);
                m.funcs.push(FnDecl { name, header: (pos, pos + line.len()), body: (body, q), f: OnceLock::new() });
            } else if line.starts_with("declare ") {
                let at = line.find('@').ok_or("declare")?;
                let name: Arc<str> = sym_at(&line[at + 1..]).into();
                if line.contains("extern_weak") { m.weak.insert(name); }
                else { m.ext_by_name.insert(name.clone(), m.ext_fns.len() as u32); m.ext_fns.push(name); }
            }
            pos = e + 1;
        }
        for (s, e) in gl_lines {
            let line = &text[s..e];
            let name: Arc<str> = sym_at(&line[1..]).into();
            let eqp = line.find(" = ").ok_or("global")? + 3;
            let rest = &line[eqp..];
            // find keyword
            let mut words = rest.split(' ');
            let mut off = 0;
            let mut tls = false;
            let mut weak = false;
            let mut ext = false;
            let mut kind = "";
            for w in &mut words {
                off += w.len() + 1;
                if w.starts_with("thread_local") { tls = true; }
                if w == "extern_weak" { weak = true; }
                if w == "external" { ext = true; }
                if w == "global" || w == "constant" || w == "alias" || w == "ifunc" { kind = w; break; }
            }
            if weak { m.weak.insert(name); continue; }
            if kind == "alias" || kind == "ifunc" {
                let at = rest[off..].rfind('@').ok_or("alias")?;
                m.aliases.insert(name, sym_at(&rest[off + at + 1..]).into());
                continue;
            }
            if kind.is_empty() { continue; }
            if name.starts_with("llvm.") { continue; }
            let (t, consumed_init) = {
                let mut ps = PS::new(&text[s + eqp + off..e], &m);
                let t = ps.ty()?;
                (t, ps.t.len() > ps.i)
            };
            // alignment: last ", align N"
            let al = line.rfind(", align ").and_then(|p| line[p + 8..].split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse::<u64>().ok())).unwrap_or(t.align);
            m.gl_by_name.insert(name.clone(), m.globals.len() as u32);
            m.globals.push(GlobalDef { name, t, init: if consumed_init && !ext { Some((s + eqp + off, e)) } else { None }, constant: kind == "constant", align: al, tls });
        }
        m.text = text;
        Ok(m)
    }
    pub fn global_init(&self, g: u32) -> R<Option<V>> {
        let gd = &self.globals[g as usize];
        match gd.init {
            None => Ok(None),
            Some((s, e)) => {
                let mut ps = PS::new(&self.text[s..e], self);
                let t = ps.ty()?;
                Ok(Some(ps.cval(&t).map_err(|x| format!("{} in global {}", x, gd.name))?))
            }
        }
    }
    pub fn func(&self, i: u32) -> R<&Func> {
        let d = &self.funcs[i as usize];
        d.f.get_or_init(|| self.parse_fn(d)).as_ref().map_err(|e| format!("{} in {}", e, d.name))
    }
    fn parse_fn(&self, d: &FnDecl) -> R<Func> {
        let h = &self.text[d.header.0..d.header.1];
        let mut ps = PS::new(h, self);
        ps.regs = Some(HashMap::new());
        ps.i = 1;
        // skip to @name
        while !matches!(ps.peek(), Some(Tok::G(_))) { ps.i += 1; if ps.i >= ps.t.len() { return Err("header".into()); } }
        ps.i += 1;
        ps.exp_p('(')?;
        let mut params = vec![];
        if !ps.eat_p(')') {
            let mut n = 0;
            loop {
                if ps.is_p('.') { break; }
                if matches!(ps.peek(), Some(Tok::Id(s)) if s.starts_with("...")) { break; }
                ps.skip_attrs();
                let _t = ps.ty()?;
                ps.skip_vattrs();
                let name = match ps.peek() { Some(Tok::L(n)) => { let n = n.clone(); ps.i += 1; n } _ => n.to_string() };
                n += 1;
                params.push(ps.reg(&name));
                if ps.eat_p(',') { continue; }
                ps.exp_p(')')?;
                break;
            }
        }
        let mut regs = ps.regs.take().unwrap();
        let mut blocks: HashMap<String, u32> = HashMap::new();
        let body = &self.text[d.body.0..d.body.1];
        let mut insts = vec![];
        let mut starts: HashMap<u32, u32> = HashMap::new();
        let mut block_of = vec![];
        let mut cur: Option<u32> = None;
        let mut lines = body.lines();
        let mut acc = String::new();
        while let Some(l) = lines.next() {
            if l.is_empty() { continue; }
            let c0 = l.as_bytes()[0];
            if c0 != b' ' {
                // label
                let name = if c0 == b'"' { let j = l[1..].find('"').unwrap(); l[1..1 + j].to_string() } else { match l.find(':') { Some(j) => l[..j].to_string(), None => continue } };
                let n = blocks.len() as u32;
                let id = *blocks.entry(name).or_insert(n);
                starts.insert(id, insts.len() as u32);
                cur = Some(id);
                continue;
            }
            let lt = l.trim_start();
            if lt.starts_with(';') || lt.is_empty() { continue; }
            if lt.starts_with("#dbg") { continue; }
            let line: &str = if lt.starts_with("switch ") && !l.contains(']') {
                acc.clear();
                acc.push_str(l);
                for l2 in lines.by_ref() { acc.push(' '); acc.push_str(l2); if l2.trim_start().starts_with(']') { break; } }
                &acc
            } else { l };
            if cur.is_none() {
                // implicit entry block is numbered after the parameters
                let nm = params.len().to_string();
                let id = blocks.len() as u32;
                blocks.insert(nm, id);
                starts.insert(id, 0);
                cur = Some(id);
            }
            let mut p = PS::new(line, self);
            p.regs = Some(std::mem::take(&mut regs));
            p.blocks = std::mem::take(&mut blocks);
            let r = p.inst();
            regs = p.regs.take().unwrap();
            blocks = std::mem::take(&mut p.blocks);
            let i = match r { Ok(i) => i, Err(e) => I::Unsupported(format!("{}: {}", e, line.trim())) };
            insts.push(i);
            block_of.push(cur.unwrap());
        }
        let nb = blocks.len();
        let mut bs = vec![0u32; nb];
        for (k, v) in starts { bs[k as usize] = v; }
        Ok(Func { nregs: regs.len() as u32, params, insts, blocks: bs, block_of })
    }
}
