//! Parser for the textual LLVM IR that rustc emits for the harness crate.
use crate::expr::Op;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Struct(Vec<Ty>, bool),
    Array(u64, Box<Ty>),
    Vec(u32, Box<Ty>),
    Float(u16),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Float(w) => *w as u64 / 8,
            Ty::Ptr => 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (*n as u64 + 7) / 8,
                _ => *n as u64 * t.size(),
            },
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                let mut al = 1;
                for t in ts {
                    if !packed {
                        let a = t.align();
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (*w + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Float(w) => (*w as u64 / 8).max(1),
            Ty::Ptr => 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn offset(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (j, t) in ts.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("offset into {:?}", self),
        }
    }
    /// Width in bits of a scalar.
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_))
    }
}

#[derive(Clone, Debug)]
pub enum Cst {
    I(u16, u128),
    Agg(Vec<Cst>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(u64),
    C(Arc<Cst>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(u32),
    Ind(Opnd),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Op, u8, u32, Opnd, Opnd),
    VBin(Op, u8, u32, u32, Opnd, Opnd),
    Cmp(Pred, u8, u32, Opnd, Opnd),
    VCmp(Pred, u8, u32, u32, Opnd, Opnd),
    Cast(Cast, u8, u8, u32, Opnd),
    VCast(Cast, u8, u8, u32, u32, Opnd),
    /// Reinterpret a value of one type as another of the same size.
    ReCast(Ty, Ty, u32, Opnd),
    Copy(u32, Opnd),
    Sel(bool, u8, u32, Opnd, Opnd, Opnd),
    VSel(u8, u32, u32, Opnd, Opnd, Opnd),
    Load(u8, u8, u32, Opnd),
    LoadA(Ty, u32, Opnd),
    Store(u8, u8, Opnd, Opnd),
    StoreA(Ty, Opnd, Opnd),
    Gep(u32, Opnd, u64, Vec<(Opnd, u8, u64)>),
    Alloca(u32, u64),
    Call(Option<u32>, Callee, Vec<Opnd>, Ty),
    ExtV(u32, Opnd, Vec<u32>),
    InsV(u32, Opnd, Opnd, Vec<u32>),
    ExtE(u32, Opnd, Opnd),
    InsE(u32, Opnd, Opnd, Opnd),
    Shuf(u32, Opnd, Opnd, u32, Vec<i32>),
    Br(u32),
    CBr(Opnd, u32, u32),
    Switch(u8, Opnd, u32, Vec<(u64, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Unsup(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub ins: Vec<I>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: String,
    pub bytes: Arc<Vec<u8>>,
    pub constant: bool,
}

pub struct Module {
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    /// External functions by name.
    pub exts: Vec<String>,
    pub fnidx: HashMap<String, u32>,
    /// object id of function i is nglobals + 1 + i; of external i after those.
    pub addr: HashMap<String, u64>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    W(String),
    G(String),
    L(String),
    S(Vec<u8>),
    P(char),
    M,
    A,
}

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'@' | b'%' => {
                let (name, j) = if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    (s[i + 2..j].to_string(), j + 1)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    (s[i + 1..j].to_string(), j)
                };
                out.push(if c == b'@' { T::G(name) } else { T::L(name) });
                i = j;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                let mut v = Vec::new();
                while b[j] != b'"' {
                    if b[j] == b'\\' {
                        if b[j + 1] == b'\\' {
                            v.push(b'\\');
                            j += 2;
                        } else {
                            v.push(u8::from_str_radix(&s[j + 1..j + 3], 16).unwrap());
                            j += 3;
                        }
                    } else {
                        v.push(b[j]);
                        j += 1;
                    }
                }
                out.push(T::S(v));
                i = j + 1;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(T::S(b[i + 1..j].to_vec()));
                i = j + 1;
            }
            b'!' => {
                i += 1;
                while i < b.len() && (idc(b[i])) {
                    i += 1;
                }
                out.push(T::M);
            }
            b'#' => {
                i += 1;
                while i < b.len() && (idc(b[i])) {
                    i += 1;
                }
                out.push(T::A);
            }
            _ if idc(c) => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                out.push(T::W(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct Cur<'a> {
    t: &'a [T],
    i: usize,
    m: &'a Ctx,
}

struct Ctx {
    types: HashMap<String, Ty>,
    addr: HashMap<String, u64>,
}

type R<X> = Result<X, String>;

impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if x == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' got {:?}", c, self.peek()))
        }
    }
    fn word(&mut self) -> R<String> {
        match self.peek() {
            Some(T::W(w)) => {
                let w = w.clone();
                self.i += 1;
                Ok(w)
            }
            x => Err(format!("expected word, got {:?}", x)),
        }
    }
    fn local(&mut self) -> R<String> {
        match self.peek() {
            Some(T::L(w)) => {
                let w = w.clone();
                self.i += 1;
                Ok(w)
            }
            x => Err(format!("expected local, got {:?}", x)),
        }
    }
    /// Skip a balanced group if at an opening bracket.
    fn skip_group(&mut self) {
        let mut d = 0;
        loop {
            match self.peek() {
                Some(T::P('(')) | Some(T::P('[')) | Some(T::P('{')) => d += 1,
                Some(T::P(')')) | Some(T::P(']')) | Some(T::P('}')) => d -= 1,
                None => return,
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return;
            }
        }
    }
    fn is_int_ty(w: &str) -> Option<u16> {
        if let Some(r) = w.strip_prefix('i') {
            if !r.is_empty() && r.bytes().all(|c| c.is_ascii_digit()) {
                return r.parse().ok();
            }
        }
        None
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => {
                Self::is_int_ty(w).is_some()
                    || matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "half" | "label" | "metadata" | "token" | "fp128")
            }
            Some(T::P('[')) | Some(T::P('{')) | Some(T::P('<')) => true,
            Some(T::L(_)) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.peek().cloned() {
            Some(T::W(w)) => {
                self.i += 1;
                if let Some(n) = Self::is_int_ty(&w) {
                    Ty::Int(n)
                } else {
                    match w.as_str() {
                        "ptr" => {
                            if self.eat_w("addrspace") {
                                self.skip_group();
                            }
                            Ty::Ptr
                        }
                        "void" => Ty::Void,
                        "float" => Ty::Float(32),
                        "double" => Ty::Float(64),
                        "half" => Ty::Float(16),
                        "fp128" => Ty::Float(128),
                        "label" | "metadata" | "token" => Ty::Other,
                        _ => return Err(format!("type? {}", w)),
                    }
                }
            }
            Some(T::P('[')) => {
                self.i += 1;
                let n: u64 = self.word()?.parse().map_err(|_| "array length")?;
                if !self.eat_w("x") {
                    return Err("array type".into());
                }
                let t = self.ty()?;
                self.p(']')?;
                Ty::Array(n, Box::new(t))
            }
            Some(T::P('<')) => {
                self.i += 1;
                if self.is_p('{') {
                    let t = self.ty()?;
                    self.p('>')?;
                    match t {
                        Ty::Struct(v, _) => Ty::Struct(v, true),
                        _ => unreachable!(),
                    }
                } else {
                    let n: u32 = self.word()?.parse().map_err(|_| "vector length")?;
                    if !self.eat_w("x") {
                        return Err("vector type".into());
                    }
                    let t = self.ty()?;
                    self.p('>')?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            Some(T::P('{')) => {
                self.i += 1;
                let mut v = Vec::new();
                while !self.eat_p('}') {
                    v.push(self.ty()?);
                    self.eat_p(',');
                }
                Ty::Struct(v, false)
            }
            Some(T::L(n)) => {
                self.i += 1;
                match self.m.types.get(&n) {
                    Some(t) => t.clone(),
                    None => return Err(format!("unknown type %{}", n)),
                }
            }
            x => return Err(format!("type? {:?}", x)),
        };
        // Function type: skip parameters.
        Ok(t)
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(T::W(w)) => {
                    if self.at_type() || Self::is_value_word(w) {
                        return;
                    }
                    let w = w.clone();
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_group();
                    } else if w == "align" {
                        self.i += 1;
                    }
                }
                Some(T::A) => self.i += 1,
                Some(T::S(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn is_value_word(w: &str) -> bool {
        matches!(
            w,
            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "asm" | "getelementptr" | "inttoptr"
                | "ptrtoint" | "ptrtoaddr" | "bitcast" | "add" | "sub" | "xor" | "trunc" | "splat" | "blockaddress" | "dso_local_equivalent" | "no_cfi"
        ) || w.as_bytes()[0].is_ascii_digit()
            || (w.as_bytes()[0] == b'-' && w.len() > 1)
    }

    fn zero(t: &Ty) -> Cst {
        match t {
            Ty::Struct(ts, _) => Cst::Agg(ts.iter().map(Self::zero).collect()),
            Ty::Array(n, t) => Cst::Agg((0..*n).map(|_| Self::zero(t)).collect()),
            Ty::Vec(n, t) => Cst::Agg((0..*n).map(|_| Self::zero(t)).collect()),
            t => Cst::I(t.bits(), 0),
        }
    }
    fn cmask(w: u16) -> u128 {
        crate::expr::mask(w.min(128) as u8)
    }
    /// Constant of type t.
    fn cst(&mut self, t: &Ty) -> R<Cst> {
        match self.peek().cloned() {
            Some(T::G(n)) => {
                self.i += 1;
                match self.m.addr.get(&n) {
                    Some(a) => Ok(Cst::I(64, *a as u128)),
                    None => Err(format!("unknown global @{}", n)),
                }
            }
            Some(T::S(v)) => {
                self.i += 1;
                Ok(Cst::Agg(v.into_iter().map(|b| Cst::I(8, b as u128)).collect()))
            }
            Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) => {
                let packed = self.is_p('<');
                self.i += 1;
                if packed && self.is_p('{') {
                    self.i += 1;
                }
                let mut v = Vec::new();
                loop {
                    match self.peek() {
                        Some(T::P('}')) | Some(T::P(']')) | Some(T::P('>')) => {
                            self.i += 1;
                            if self.t[self.i - 1] == T::P('}') && packed {
                                self.eat_p('>');
                            }
                            return Ok(Cst::Agg(v));
                        }
                        Some(T::P(',')) => self.i += 1,
                        None => return Err("constant aggregate".into()),
                        _ => {
                            let et = self.ty()?;
                            v.push(self.cst(&et)?);
                        }
                    }
                }
            }
            Some(T::W(w)) => {
                self.i += 1;
                match w.as_str() {
                    "true" => Ok(Cst::I(1, 1)),
                    "false" => Ok(Cst::I(1, 0)),
                    "null" | "none" => Ok(Cst::I(64, 0)),
                    "undef" | "poison" | "zeroinitializer" => Ok(Self::zero(t)),
                    "splat" => {
                        self.p('(')?;
                        let et = self.ty()?;
                        let c = self.cst(&et)?;
                        self.p(')')?;
                        match t {
                            Ty::Vec(n, _) => Ok(Cst::Agg((0..*n).map(|_| c.clone()).collect())),
                            _ => Err("splat".into()),
                        }
                    }
                    "getelementptr" => {
                        while matches!(self.peek(), Some(T::W(_))) && !self.at_type() {
                            let w = self.word()?;
                            if w == "inrange" {
                                self.skip_group();
                            }
                        }
                        self.p('(')?;
                        let bt = self.ty()?;
                        self.p(',')?;
                        let pt = self.ty()?;
                        let base = self.cst(&pt)?;
                        let mut a = match base {
                            Cst::I(_, v) => v as u64,
                            _ => return Err("gep base".into()),
                        };
                        let mut cur = bt;
                        let mut first = true;
                        while self.eat_p(',') {
                            self.eat_w("inrange");
                            let it = self.ty()?;
                            let v = match self.cst(&it)? {
                                Cst::I(w, v) => crate::expr::sx(w as u8, v) as i64,
                                _ => return Err("gep index".into()),
                            };
                            if first {
                                a = a.wrapping_add((v as u64).wrapping_mul(cur.size()));
                                first = false;
                            } else {
                                let (o, nt) = if let Ty::Struct(..) = cur {
                                    cur.offset(v as usize)
                                } else {
                                    let (_, nt) = cur.offset(0);
                                    ((v as u64).wrapping_mul(nt.size()), nt)
                                };
                                a = a.wrapping_add(o);
                                cur = nt;
                            }
                        }
                        self.p(')')?;
                        Ok(Cst::I(64, a as u128))
                    }
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" => {
                        self.p('(')?;
                        let ft = self.ty()?;
                        let c = self.cst(&ft)?;
                        if !self.eat_w("to") {
                            return Err("cast constant".into());
                        }
                        let tt = self.ty()?;
                        self.p(')')?;
                        match c {
                            Cst::I(_, v) => Ok(Cst::I(tt.bits(), v & Self::cmask(tt.bits()))),
                            _ => Err("cast constant".into()),
                        }
                    }
                    "add" | "sub" | "xor" => {
                        while matches!(self.peek(), Some(T::W(_))) {
                            self.i += 1;
                        }
                        self.p('(')?;
                        let ft = self.ty()?;
                        let a = self.cst(&ft)?;
                        self.p(',')?;
                        let ft2 = self.ty()?;
                        let b = self.cst(&ft2)?;
                        self.p(')')?;
                        match (a, b) {
                            (Cst::I(wd, x), Cst::I(_, y)) => {
                                let r = match w.as_str() {
                                    "add" => x.wrapping_add(y),
                                    "sub" => x.wrapping_sub(y),
                                    _ => x ^ y,
                                };
                                Ok(Cst::I(wd, r & Self::cmask(wd)))
                            }
                            _ => Err("constant expression".into()),
                        }
                    }
                    _ => {
                        if let Ty::Float(b) = t {
                            if let Some(h) = w.strip_prefix("0x") {
                                let v = u64::from_str_radix(h, 16).map_err(|_| "float")?;
                                return Ok(Cst::I(*b, v as u128));
                            }
                            if let Ok(f) = w.parse::<f64>() {
                                let v = if *b == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
                                return Ok(Cst::I(*b, v));
                            }
                        }
                        if let Ok(v) = w.parse::<i128>() {
                            return Ok(Cst::I(t.bits(), v as u128 & Self::cmask(t.bits())));
                        }
                        if let Ok(v) = w.parse::<u128>() {
                            return Ok(Cst::I(t.bits(), v & Self::cmask(t.bits())));
                        }
                        Err(format!("constant? {}", w))
                    }
                }
            }
            x => Err(format!("constant? {:?}", x)),
        }
    }
}

fn flatten(c: &Cst, t: &Ty, off: usize, out: &mut [u8]) {
    match (c, t) {
        (Cst::I(_, v), t) => {
            let n = t.size() as usize;
            for i in 0..n.min(16) {
                out[off + i] = (v >> (8 * i)) as u8;
            }
        }
        (Cst::Agg(v), Ty::Struct(..)) => {
            for (i, x) in v.iter().enumerate() {
                let (o, et) = t.offset(i);
                flatten(x, &et, off + o as usize, out);
            }
        }
        (Cst::Agg(v), Ty::Array(_, et)) | (Cst::Agg(v), Ty::Vec(_, et)) => {
            let s = et.size() as usize;
            for (i, x) in v.iter().enumerate() {
                flatten(x, et, off + i * s, out);
            }
        }
        _ => panic!("initialiser"),
    }
}

pub fn parse(text: &str) -> R<Module> {
    // Split into top-level entities.
    let lines: Vec<&str> = text.lines().collect();
    let mut glines = Vec::new();
    let mut tlines = Vec::new();
    let mut fbodies: Vec<(usize, usize)> = Vec::new();
    let mut decls = Vec::new();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            glines.push(l);
        } else if l.starts_with('%') {
            tlines.push(l);
        } else if l.starts_with("define") {
            let s = i;
            while lines[i] != "}" {
                i += 1;
            }
            fbodies.push((s, i));
        } else if l.starts_with("declare") {
            decls.push(l);
        }
        i += 1;
    }
    let mut ctx = Ctx { types: HashMap::new(), addr: HashMap::new() };
    // Named types (in order; forward references resolved by repetition).
    for _ in 0..4 {
        for l in &tlines {
            let t = lex(l);
            if let T::L(n) = &t[0] {
                let n = n.clone();
                if t.len() > 3 && t[2] == T::W("type".into()) {
                    let r = {
                        let mut c = Cur { t: &t, i: 3, m: &ctx };
                        c.ty()
                    };
                    if let Ok(ty) = r {
                        ctx.types.insert(n, ty);
                    }
                }
            }
        }
    }
    // Assign addresses: object 0 is null.
    let mut gtoks = Vec::new();
    let mut next = 1u64;
    let mut aliases = Vec::new();
    for l in &glines {
        let t = lex(l);
        let n = match &t[0] {
            T::G(n) => n.clone(),
            _ => return Err(format!("global? {}", l)),
        };
        if n.starts_with("llvm.") {
            continue;
        }
        if t.iter().take(8).any(|x| *x == T::W("alias".into())) {
            aliases.push((n, t));
            continue;
        }
        ctx.addr.insert(n.clone(), next << 32);
        next += 1;
        gtoks.push((n, t));
    }
    let fname = |l: &str| -> R<String> {
        for t in lex(l) {
            if let T::G(n) = t {
                return Ok(n);
            }
        }
        Err(format!("no name in {}", l))
    };
    let mut fnidx = HashMap::new();
    for (k, &(s, _)) in fbodies.iter().enumerate() {
        let n = fname(lines[s])?;
        ctx.addr.insert(n.clone(), next << 32);
        next += 1;
        fnidx.insert(n, k as u32);
    }
    let mut exts = Vec::new();
    for l in &decls {
        let n = fname(l)?;
        ctx.addr.insert(n.clone(), next << 32);
        next += 1;
        exts.push(n);
    }
    for (n, t) in aliases {
        let k = t.iter().position(|x| *x == T::W("alias".into())).unwrap();
        let v = {
            let mut c = Cur { t: &t, i: k + 1, m: &ctx };
            let ty = c.ty()?;
            if c.is_p('(') {
                c.skip_group();
            }
            let _ = ty;
            c.p(',')?;
            let pt = c.ty()?;
            c.cst(&pt)?
        };
        if let Cst::I(_, a) = v {
            ctx.addr.insert(n.clone(), a as u64);
            for (f, k) in fnidx.clone() {
                if ctx.addr[&f] == a as u64 {
                    fnidx.insert(n.clone(), k);
                }
            }
        }
    }
    let mut globals = Vec::new();
    for (n, t) in gtoks {
        // @name = [linkage words] (global|constant) type init, ...
        let mut k = 2;
        let mut constant = false;
        let mut external = false;
        loop {
            match &t[k] {
                T::W(w) if w == "constant" => {
                    constant = true;
                    break;
                }
                T::W(w) if w == "global" => break,
                T::W(w) if w == "external" || w == "extern_weak" => external = true,
                T::P('(') => {
                    let mut c = Cur { t: &t, i: k, m: &ctx };
                    c.skip_group();
                    k = c.i;
                    continue;
                }
                _ => {}
            }
            k += 1;
            if k >= t.len() {
                return Err(format!("global @{}", n));
            }
        }
        let mut c = Cur { t: &t, i: k + 1, m: &ctx };
        let ty = c.ty()?;
        let mut bytes = vec![0u8; ty.size() as usize];
        if !external {
            if let Some(T::S(v)) = c.peek() {
                if v.len() != bytes.len() {
                    return Err(format!("string length of @{}", n));
                }
                bytes.copy_from_slice(v);
            } else if !c.is_w("zeroinitializer") {
                let v = c.cst(&ty).map_err(|e| format!("@{}: {}", n, e))?;
                flatten(&v, &ty, 0, &mut bytes);
            }
        }
        globals.push(Global { name: n, bytes: Arc::new(bytes), constant });
    }
    let extidx: HashMap<String, u32> = exts.iter().enumerate().map(|(i, n)| (n.clone(), i as u32)).collect();
    let mut funcs = Vec::new();
    for &(s, e) in &fbodies {
        let f = parse_fn(&ctx, &lines[s..e], &fnidx, &extidx)?;
        funcs.push(f);
    }
    Ok(Module { globals, funcs, exts, fnidx, addr: ctx.addr })
}

struct FnCtx<'a> {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    fnidx: &'a HashMap<String, u32>,
    extidx: &'a HashMap<String, u32>,
}
impl<'a> FnCtx<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.blocks.len() as u32;
        self.blocks.insert(n.to_string(), r);
        r
    }
}

fn parse_fn(ctx: &Ctx, lines: &[&str], fnidx: &HashMap<String, u32>, extidx: &HashMap<String, u32>) -> R<Func> {
    let head = lex(lines[0]);
    let gi = head.iter().position(|t| matches!(t, T::G(_))).unwrap();
    let name = match &head[gi] {
        T::G(n) => n.clone(),
        _ => unreachable!(),
    };
    let mut f = FnCtx { regs: HashMap::new(), blocks: HashMap::new(), fnidx, extidx };
    let mut c = Cur { t: &head, i: gi + 1, m: ctx };
    c.p('(')?;
    let mut params = Vec::new();
    while !c.eat_p(')') {
        if c.eat_p(',') {
            continue;
        }
        if c.is_p('.') || c.is_w("...") {
            c.i += 1;
            continue;
        }
        c.ty()?;
        c.skip_attrs();
        let n = match c.peek() {
            Some(T::L(n)) => n.clone(),
            _ => return Err(format!("{}: unnamed parameter", name)),
        };
        c.i += 1;
        let r = f.reg(&n);
        params.push(r);
    }
    // First block: unnamed gets the number after the parameters.
    let mut blocks: HashMap<u32, Block> = HashMap::new();
    let mut cur: Option<u32> = None;
    let mut cb = Block { phis: Vec::new(), ins: Vec::new() };
    let mut i = 1;
    let mut entry = None;
    while i < lines.len() {
        let l = lines[i];
        i += 1;
        if l.trim().is_empty() {
            continue;
        }
        let first = l.as_bytes()[0];
        if first == b';' {
            continue;
        }
        if first != b' ' {
            // label
            let n = if first == b'"' { l[1..].split('"').next().unwrap().to_string() } else { l.split(':').next().unwrap().to_string() };
            if let Some(b) = cur {
                blocks.insert(b, std::mem::replace(&mut cb, Block { phis: Vec::new(), ins: Vec::new() }));
            }
            let b = f.blk(&n);
            if entry.is_none() {
                entry = Some(b);
            }
            cur = Some(b);
            continue;
        }
        if cur.is_none() {
            // Implicit entry label: next free number.
            let n = params_numbered(&head, gi);
            let b = f.blk(&n);
            entry = Some(b);
            cur = Some(b);
        }
        // Join multi-line instructions.
        let tl = l.trim_start();
        if tl.starts_with(';') || tl.starts_with("#dbg_") {
            continue;
        }
        let mut owned;
        let mut text = l;
        if tl.starts_with("switch ") && !l.contains(']') {
            owned = l.to_string();
            while i < lines.len() {
                owned.push(' ');
                owned.push_str(lines[i]);
                i += 1;
                if lines[i - 1].trim_start().starts_with(']') {
                    break;
                }
            }
            text = &owned;
        } else if tl.contains("invoke ") && !l.contains(" to label ") {
            owned = l.to_string();
            owned.push(' ');
            owned.push_str(lines[i]);
            i += 1;
            text = &owned;
        } else if tl.starts_with("cleanup") || tl.starts_with("catch ") || tl.starts_with("filter ") {
            continue;
        }
        let toks = lex(text);
        match parse_ins(ctx, &mut f, &toks, &mut cb) {
            Ok(()) => {}
            Err(e) => cb.ins.push(I::Unsup(format!("{}: {} in: {}", name, e, text.trim()))),
        }
    }
    if let Some(b) = cur {
        blocks.insert(b, cb);
    }
    // Renumber so that the entry is block 0.
    let n = f.blocks.len() as u32;
    let entry = entry.ok_or("empty function")?;
    let mut out: Vec<Block> = Vec::new();
    for k in 0..n {
        let b = blocks
            .remove(&k)
            .unwrap_or_else(|| Block { phis: Vec::new(), ins: vec![I::Unsup("missing block".into())] });
        out.push(b);
    }
    if entry != 0 {
        let sw = |x: &mut u32| {
            if *x == 0 {
                *x = entry
            } else if *x == entry {
                *x = 0
            }
        };
        out.swap(0, entry as usize);
        for b in &mut out {
            for (_, v) in &mut b.phis {
                for (p, _) in v {
                    sw(p);
                }
            }
            for ins in &mut b.ins {
                match ins {
                    I::Br(x) => sw(x),
                    I::CBr(_, x, y) => {
                        sw(x);
                        sw(y);
                    }
                    I::Switch(_, _, d, v) => {
                        sw(d);
                        for (_, x) in v {
                            sw(x);
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    Ok(Func { name, params, nregs: f.regs.len() as u32, blocks: out })
}

/// Name of the implicit entry block: the first number not used by parameters.
fn params_numbered(head: &[T], gi: usize) -> String {
    let mut n = 0u64;
    let mut d = 0;
    for t in &head[gi + 1..] {
        match t {
            T::P('(') => d += 1,
            T::P(')') => {
                d -= 1;
                if d == 0 {
                    break;
                }
            }
            T::L(x) => {
                if let Ok(k) = x.parse::<u64>() {
                    n = n.max(k + 1);
                }
            }
            _ => {}
        }
    }
    n.to_string()
}

fn opnd(c: &mut Cur, f: &mut FnCtx, t: &Ty) -> R<Opnd> {
    if let Some(T::L(n)) = c.peek() {
        let n = n.clone();
        c.i += 1;
        return Ok(Opnd::R(f.reg(&n)));
    }
    let k = c.cst(t)?;
    Ok(match k {
        Cst::I(w, v) if w <= 64 => Opnd::K(v as u64),
        k => Opnd::C(Arc::new(k)),
    })
}

fn tv(c: &mut Cur, f: &mut FnCtx) -> R<(Ty, Opnd)> {
    let t = c.ty()?;
    c.skip_attrs();
    let o = opnd(c, f, &t)?;
    Ok((t, o))
}

fn label(c: &mut Cur, f: &mut FnCtx) -> R<u32> {
    if !c.eat_w("label") {
        return Err("label".into());
    }
    let n = c.local()?;
    Ok(f.blk(&n))
}

fn lanes(t: &Ty) -> Option<(u32, u8)> {
    match t {
        Ty::Vec(n, e) if e.is_scalar() && e.bits() <= 128 => Some((*n, e.bits() as u8)),
        _ => None,
    }
}

fn parse_ins(ctx: &Ctx, f: &mut FnCtx, t: &[T], b: &mut Block) -> R<()> {
    let mut c = Cur { t, i: 0, m: ctx };
    let mut dst: Option<u32> = None;
    if let (Some(T::L(n)), Some(T::P('='))) = (t.get(0), t.get(1)) {
        dst = Some(f.reg(n));
        c.i = 2;
    }
    let mut op = c.word()?;
    if matches!(op.as_str(), "tail" | "musttail" | "notail") {
        op = c.word()?;
    }
    let d = dst.unwrap_or(0);
    let w8 = |t: &Ty| -> R<u8> {
        if t.is_scalar() && t.bits() <= 128 {
            Ok(t.bits() as u8)
        } else {
            Err(format!("scalar type expected: {:?}", t))
        }
    };
    let ins = match op.as_str() {
        "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
            while !c.at_type() {
                c.i += 1;
                if c.i >= t.len() {
                    return Err("binop".into());
                }
            }
            let ty = c.ty()?;
            let x = opnd(&mut c, f, &ty)?;
            c.p(',')?;
            let y = opnd(&mut c, f, &ty)?;
            let o = match op.as_str() {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "urem" => Op::URem,
                "sdiv" => Op::SDiv,
                "srem" => Op::SRem,
                "and" => Op::And,
                "or" => Op::Or,
                "xor" => Op::Xor,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                _ => Op::AShr,
            };
            match lanes(&ty) {
                Some((n, w)) => I::VBin(o, w, n, d, x, y),
                None => I::Bin(o, w8(&ty)?, d, x, y),
            }
        }
        "icmp" => {
            let mut p = c.word()?;
            if p == "samesign" {
                p = c.word()?;
            }
            let ty = c.ty()?;
            let x = opnd(&mut c, f, &ty)?;
            c.p(',')?;
            let y = opnd(&mut c, f, &ty)?;
            let pr = match p.as_str() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                _ => return Err(format!("icmp {}", p)),
            };
            match lanes(&ty) {
                Some((n, w)) => I::VCmp(pr, w, n, d, x, y),
                None => I::Cmp(pr, w8(&ty)?, d, x, y),
            }
        }
        "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "addrspacecast" => {
            while !c.at_type() {
                c.i += 1;
                if c.i >= t.len() {
                    return Err("cast".into());
                }
            }
            let ty = c.ty()?;
            let x = opnd(&mut c, f, &ty)?;
            if !c.eat_w("to") {
                return Err("cast".into());
            }
            let tt = c.ty()?;
            let k = match op.as_str() {
                "zext" => Cast::Zext,
                "sext" => Cast::Sext,
                "trunc" => Cast::Trunc,
                "bitcast" => Cast::Bit,
                _ => match tt.bits().cmp(&ty.bits()) {
                    std::cmp::Ordering::Less => Cast::Trunc,
                    std::cmp::Ordering::Greater => Cast::Zext,
                    _ => Cast::Bit,
                },
            };
            if k == Cast::Bit {
                if ty.is_scalar() && tt.is_scalar() {
                    I::Copy(d, x)
                } else {
                    I::ReCast(ty, tt, d, x)
                }
            } else {
                match (lanes(&ty), lanes(&tt)) {
                    (Some((n, a)), Some((_, z))) => I::VCast(k, a, z, n, d, x),
                    _ => I::Cast(k, w8(&ty)?, w8(&tt)?, d, x),
                }
            }
        }
        "freeze" => {
            let (_, x) = tv(&mut c, f)?;
            I::Copy(d, x)
        }
        "select" => {
            while !c.at_type() {
                c.i += 1;
            }
            let (ct, k) = tv(&mut c, f)?;
            c.p(',')?;
            let (ty, x) = tv(&mut c, f)?;
            c.p(',')?;
            let (_, y) = tv(&mut c, f)?;
            if let (Some((n, _)), Some((_, w))) = (lanes(&ct), lanes(&ty)) {
                I::VSel(w, n, d, k, x, y)
            } else {
                let fork = !matches!(ty, Ty::Int(_));
                I::Sel(fork, if fork { 0 } else { w8(&ty)? }, d, k, x, y)
            }
        }
        "phi" => {
            while !c.at_type() {
                c.i += 1;
            }
            let ty = c.ty()?;
            let mut v = Vec::new();
            loop {
                c.p('[')?;
                let x = opnd(&mut c, f, &ty)?;
                c.p(',')?;
                let n = c.local()?;
                v.push((f.blk(&n), x));
                c.p(']')?;
                if !c.eat_p(',') || !c.is_p('[') {
                    break;
                }
            }
            b.phis.push((d, v));
            return Ok(());
        }
        "load" => {
            while !c.at_type() {
                c.i += 1;
            }
            let ty = c.ty()?;
            c.p(',')?;
            let (_, p) = tv(&mut c, f)?;
            if ty.is_scalar() {
                let w = w8(&ty)?;
                I::Load(w, (w as u16).div_ceil(8) as u8, d, p)
            } else {
                I::LoadA(ty, d, p)
            }
        }
        "store" => {
            while !c.at_type() {
                c.i += 1;
            }
            let (ty, v) = tv(&mut c, f)?;
            c.p(',')?;
            let (_, p) = tv(&mut c, f)?;
            if ty.is_scalar() {
                let w = w8(&ty)?;
                I::Store(w, (w as u16).div_ceil(8) as u8, v, p)
            } else {
                I::StoreA(ty, v, p)
            }
        }
        "getelementptr" => {
            while !c.at_type() {
                let w = c.word()?;
                if w == "inrange" {
                    c.skip_group();
                }
            }
            let bt = c.ty()?;
            c.p(',')?;
            let (pt, base) = tv(&mut c, f)?;
            if pt != Ty::Ptr {
                return Err("vector gep".into());
            }
            let mut k = 0u64;
            let mut idx = Vec::new();
            let mut cur = bt;
            let mut first = true;
            while c.eat_p(',') {
                if c.peek() == Some(&T::M) {
                    break;
                }
                c.eat_w("inrange");
                let (it, x) = tv(&mut c, f)?;
                let w = w8(&it)?;
                if !first {
                    if let Ty::Struct(..) = cur {
                        match x {
                            Opnd::K(v) => {
                                let (o, nt) = cur.offset(v as usize);
                                k = k.wrapping_add(o);
                                cur = nt;
                                continue;
                            }
                            _ => return Err("gep struct index".into()),
                        }
                    }
                    cur = cur.offset(0).1;
                }
                first = false;
                let s = cur.size();
                match x {
                    Opnd::K(v) => {
                        let v = crate::expr::sx(w, v as u128) as i64;
                        k = k.wrapping_add((v as u64).wrapping_mul(s))
                    }
                    x => idx.push((x, w, s)),
                }
            }
            I::Gep(d, base, k, idx)
        }
        "alloca" => {
            c.eat_w("inalloca");
            let ty = c.ty()?;
            let mut n = 1;
            if c.eat_p(',') && !c.is_w("align") && c.at_type() {
                let (_, x) = tv(&mut c, f)?;
                match x {
                    Opnd::K(v) => n = v,
                    _ => return Err("dynamic alloca".into()),
                }
            }
            I::Alloca(d, ty.size() * n)
        }
        "call" | "invoke" => {
            // flags, cc, return attributes
            c.skip_attrs();
            let rt = c.ty()?;
            if c.is_p('(') {
                c.skip_group();
            }
            c.skip_attrs();
            if c.eat_w("asm") {
                // Only an empty assembly string (a compiler barrier) is fine.
                while let Some(T::W(_)) = c.peek() {
                    c.i += 1;
                }
                match c.peek() {
                    Some(T::S(s)) if s.is_empty() && dst.is_none() => return Ok(()),
                    _ => return Err("inline assembly".into()),
                }
            }
            let callee = match c.peek().cloned() {
                Some(T::G(n)) => {
                    c.i += 1;
                    if let Some(&k) = f.fnidx.get(&n) {
                        Callee::Fn(k)
                    } else if let Some(&k) = f.extidx.get(&n) {
                        Callee::Ext(k)
                    } else {
                        return Err(format!("unknown callee {}", n));
                    }
                }
                Some(T::L(n)) => {
                    c.i += 1;
                    Callee::Ind(Opnd::R(f.reg(&n)))
                }
                x => return Err(format!("callee? {:?}", x)),
            };
            c.p('(')?;
            let mut args = Vec::new();
            while !c.eat_p(')') {
                if c.eat_p(',') {
                    continue;
                }
                if c.eat_w("metadata") {
                    // skip to , or ) at depth 0
                    let mut dep = 0;
                    loop {
                        match c.peek() {
                            Some(T::P('(')) | Some(T::P('{')) => dep += 1,
                            Some(T::P(')')) if dep == 0 => break,
                            Some(T::P(')')) | Some(T::P('}')) => dep -= 1,
                            Some(T::P(',')) if dep == 0 => break,
                            None => return Err("metadata argument".into()),
                            _ => {}
                        }
                        c.i += 1;
                    }
                    args.push(Opnd::K(0));
                    continue;
                }
                let (_, x) = tv(&mut c, f)?;
                args.push(x);
            }
            let call = I::Call(dst, callee, args, rt);
            if op == "invoke" {
                b.ins.push(call);
                // to label %x unwind label %y
                while !c.is_w("to") {
                    c.i += 1;
                    if c.i >= t.len() {
                        return Err("invoke".into());
                    }
                }
                c.i += 1;
                let x = label(&mut c, f)?;
                I::Br(x)
            } else {
                call
            }
        }
        "extractvalue" => {
            let (_, x) = tv(&mut c, f)?;
            let mut v = Vec::new();
            while c.eat_p(',') {
                if let Some(T::W(w)) = c.peek() {
                    v.push(w.parse().map_err(|_| "index")?);
                    c.i += 1;
                } else {
                    break;
                }
            }
            I::ExtV(d, x, v)
        }
        "insertvalue" => {
            let (_, x) = tv(&mut c, f)?;
            c.p(',')?;
            let (_, y) = tv(&mut c, f)?;
            let mut v = Vec::new();
            while c.eat_p(',') {
                if let Some(T::W(w)) = c.peek() {
                    v.push(w.parse().map_err(|_| "index")?);
                    c.i += 1;
                } else {
                    break;
                }
            }
            I::InsV(d, x, y, v)
        }
        "extractelement" => {
            let (_, x) = tv(&mut c, f)?;
            c.p(',')?;
            let (_, y) = tv(&mut c, f)?;
            I::ExtE(d, x, y)
        }
        "insertelement" => {
            let (_, x) = tv(&mut c, f)?;
            c.p(',')?;
            let (_, y) = tv(&mut c, f)?;
            c.p(',')?;
            let (_, z) = tv(&mut c, f)?;
            I::InsE(d, x, y, z)
        }
        "shufflevector" => {
            let (ty, x) = tv(&mut c, f)?;
            c.p(',')?;
            let (_, y) = tv(&mut c, f)?;
            c.p(',')?;
            let mt = c.ty()?;
            let m = c.cst(&mt)?;
            let n = match lanes(&ty) {
                Some((n, _)) => n,
                None => return Err("shuffle".into()),
            };
            let m = match m {
                Cst::Agg(v) => v
                    .iter()
                    .map(|x| match x {
                        Cst::I(_, v) => *v as i32,
                        _ => -1,
                    })
                    .collect(),
                _ => return Err("shuffle mask".into()),
            };
            I::Shuf(d, x, y, n, m)
        }
        "br" => {
            if c.is_w("label") {
                I::Br(label(&mut c, f)?)
            } else {
                let (_, k) = tv(&mut c, f)?;
                c.p(',')?;
                let x = label(&mut c, f)?;
                c.p(',')?;
                let y = label(&mut c, f)?;
                I::CBr(k, x, y)
            }
        }
        "switch" => {
            let (ty, x) = tv(&mut c, f)?;
            c.p(',')?;
            let def = label(&mut c, f)?;
            c.p('[')?;
            let mut v = Vec::new();
            while !c.eat_p(']') {
                let ct = c.ty()?;
                let k = match c.cst(&ct)? {
                    Cst::I(_, v) => v as u64,
                    _ => return Err("switch".into()),
                };
                c.p(',')?;
                v.push((k, label(&mut c, f)?));
            }
            let w = w8(&ty)?;
            if w > 64 {
                return Err("wide switch".into());
            }
            I::Switch(w, x, def, v)
        }
        "ret" => {
            if c.is_w("void") {
                I::Ret(None)
            } else {
                let (_, x) = tv(&mut c, f)?;
                I::Ret(Some(x))
            }
        }
        "unreachable" => I::Unreachable,
        "fence" => return Ok(()),
        // One thread: an atomic operation is its steps in order.
        "atomicrmw" => {
            c.eat_w("volatile");
            let o = c.word()?;
            let (_, p) = tv(&mut c, f)?;
            c.p(',')?;
            let (ty, v) = tv(&mut c, f)?;
            let w = w8(&ty)?;
            let n = (w as u16).div_ceil(8) as u8;
            let mut tmp = |k: &str| {
                let name = format!("!{}{}", k, f.regs.len());
                f.reg(&name)
            };
            b.ins.push(I::Load(w, n, d, p.clone()));
            let old = Opnd::R(d);
            let r = tmp("rmw");
            match o.as_str() {
                "xchg" => b.ins.push(I::Copy(r, v)),
                "add" => b.ins.push(I::Bin(Op::Add, w, r, old, v)),
                "sub" => b.ins.push(I::Bin(Op::Sub, w, r, old, v)),
                "and" => b.ins.push(I::Bin(Op::And, w, r, old, v)),
                "or" => b.ins.push(I::Bin(Op::Or, w, r, old, v)),
                "xor" => b.ins.push(I::Bin(Op::Xor, w, r, old, v)),
                "max" | "min" | "umax" | "umin" => {
                    let pr = match o.as_str() {
                        "max" => Pred::Sgt,
                        "min" => Pred::Slt,
                        "umax" => Pred::Ugt,
                        _ => Pred::Ult,
                    };
                    let k = tmp("cmp");
                    b.ins.push(I::Cmp(pr, w, k, old.clone(), v.clone()));
                    b.ins.push(I::Sel(false, w, r, Opnd::R(k), old, v));
                }
                _ => return Err(format!("atomicrmw {}", o)),
            }
            I::Store(w, n, Opnd::R(r), p)
        }
        "cmpxchg" => {
            c.eat_w("weak");
            c.eat_w("volatile");
            let (_, p) = tv(&mut c, f)?;
            c.p(',')?;
            let (ty, x) = tv(&mut c, f)?;
            c.p(',')?;
            let (_, y) = tv(&mut c, f)?;
            let w = w8(&ty)?;
            let n = (w as u16).div_ceil(8) as u8;
            let mut tmp = |k: &str| {
                let name = format!("!{}{}", k, f.regs.len());
                f.reg(&name)
            };
            let (old, k, v, a) = (tmp("old"), tmp("eq"), tmp("new"), tmp("agg"));
            b.ins.push(I::Load(w, n, old, p.clone()));
            b.ins.push(I::Cmp(Pred::Eq, w, k, Opnd::R(old), x));
            b.ins.push(I::Sel(false, w, v, Opnd::R(k), y, Opnd::R(old)));
            b.ins.push(I::Store(w, n, Opnd::R(v), p));
            let zero = Opnd::C(Arc::new(Cst::Agg(vec![Cst::I(w as u16, 0), Cst::I(1, 0)])));
            b.ins.push(I::InsV(a, zero, Opnd::R(old), vec![0]));
            I::InsV(d, Opnd::R(a), Opnd::R(k), vec![1])
        }
        o => return Err(format!("instruction {}", o)),
    };
    b.ins.push(ins);
    Ok(())
}
