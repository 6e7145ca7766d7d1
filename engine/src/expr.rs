//! Hash-consed bit-vector expressions with simplification, global ranges and
//! concrete evaluation.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::Arc;

pub type E = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
        self.0 ^= self.0 >> 29;
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    K(u8, u128),
    Sym(u16),
    Bin(Op, E, E),
    Not(E),
    Ite(E, E, E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Ext(u8, u8, E),
    Cat(E, E),
    Sext(u8, E),
    /// Little-endian load of `bytes` bytes at byte offset `off` of constant
    /// table `obj`; `off` is known to lie in [lo, hi] wherever this is used.
    Tab { obj: u32, bytes: u8, lo: u32, hi: u32, off: E },
}

#[derive(Clone, Copy)]
pub struct Info {
    pub w: u8,
    /// Number of constant leaves if this is a pure if-then-else tree over
    /// constants (1 for a constant, 0 if not such a tree).
    pub leaves: u16,
    pub lo: u128,
    pub hi: u128,
    pub syms: u128,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(w: u8, v: u128) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}
pub fn bits(v: u128) -> u8 {
    (128 - v.leading_zeros()) as u8
}

/// A claim for the solver to refute.
pub enum Ob {
    Is(E),
    /// The table lookup at `off`, where it is inside the table (below `end`), either
    /// leaves the listed offsets or gives something other than `e`.
    Tab { off: E, end: u64, bytes: u8, at: Vec<(u64, u128)>, e: E },
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: FxMap<Node, E>,
    memo: FxMap<Node, E>,
    pub tables: Vec<Arc<Vec<u8>>>,
    tabrange: FxMap<(u32, u8, u32, u32, u8), (u128, u128)>,
    derivedmap: FxMap<(u32, u8, u8, u8, u128), u32>,
    /// tables that are functions of one byte, and their ids by content
    pub fn1: std::collections::HashSet<u32, BuildHasherDefault<Fx>>,
    fn1_ids: FxMap<Vec<u8>, u32>,
    pub audit_on: bool,
    pub audit_every: u64,
    pub audit: Vec<(Node, E)>,
    pub rewrites: u64,
    pub rewrites_distinct: u64,
    pub audited: Option<Arc<std::sync::Mutex<std::collections::HashSet<u128, BuildHasherDefault<Fx>>>>>,
    shash: FxMap<E, u128>,
    thash: FxMap<u32, u128>,
    stamp: u32,
    ecache: Vec<(u32, u128)>,
    /// Turns simplification off (self-test only).
    pub raw: bool,
}

pub fn fold(op: Op, w: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(w, a), sx(w, b));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(w, a), sx(w, b));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (sx(w, a) >> s) as u128
        }
    }) & m
}

const PUSH: u16 = 64;

impl Arena {
    pub fn new(tables: Vec<Arc<Vec<u8>>>) -> Self {
        let mut a = Arena {
            nodes: Vec::new(),
            info: Vec::new(),
            map: Default::default(),
            memo: Default::default(),
            tables,
            tabrange: Default::default(),
            derivedmap: Default::default(),
            fn1: Default::default(),
            fn1_ids: Default::default(),
            audit_on: false,
            audit_every: 0,
            audit: Vec::new(),
            rewrites: 0,
            rewrites_distinct: 0,
            audited: None,
            shash: Default::default(),
            thash: Default::default(),
            stamp: 0,
            ecache: Vec::new(),
            raw: false,
        };
        a.k(1, 0);
        a.k(1, 1);
        a
    }
    pub fn w(&self, e: E) -> u8 {
        self.info[e as usize].w
    }
    pub fn is_k(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize] {
            Node::K(_, v) => Some(v),
            _ => None,
        }
    }
    fn leaves(&self, e: E) -> u16 {
        self.info[e as usize].leaves
    }
    pub fn rng(&self, e: E) -> (u128, u128) {
        let i = &self.info[e as usize];
        (i.lo, i.hi)
    }
    pub fn syms(&self, e: E) -> u128 {
        self.info[e as usize].syms
    }

    pub fn k(&mut self, w: u8, v: u128) -> E {
        let v = v & mask(w);
        self.intern(Node::K(w, v))
    }
    pub fn sym(&mut self, i: u16) -> E {
        assert!(i < 128, "more than 128 symbolic bytes");
        self.intern(Node::Sym(i))
    }
    pub fn sym_id(&self, i: u16) -> E {
        self.map.get(&Node::Sym(i)).copied().unwrap_or(E::MAX)
    }

    /// Is e a function of one byte given by an explicit 256-entry table?
    pub fn is_fn1(&self, e: E) -> bool {
        match self.nodes[e as usize] {
            Node::Tab { obj, .. } => self.fn1.contains(&obj),
            Node::Ext(_, 0, t) => match self.nodes[t as usize] {
                Node::Tab { obj, bytes, .. } => self.fn1.contains(&obj) && (self.w(e) + 7) / 8 == fn1_bytes(self.w(e)) && bytes == fn1_bytes(self.w(e)) && self.w(e) != bytes * 8,
                _ => false,
            },
            _ => false,
        }
    }
    /// The canonical form of a function of one byte, given as its 256 values.
    fn fn1_make(&mut self, sym: u16, w: u8, vals: &[u128]) -> E {
        if vals.iter().all(|&v| v == vals[0]) {
            return self.k(w, vals[0]);
        }
        let bytes = fn1_bytes(w);
        let mut t = Vec::with_capacity(256 * bytes as usize);
        for v in vals {
            t.extend_from_slice(&v.to_le_bytes()[..bytes as usize]);
        }
        let obj = match self.fn1_ids.get(&t) {
            Some(&o) => o,
            None => {
                let o = self.tables.len() as u32;
                self.tables.push(Arc::new(t.clone()));
                self.fn1_ids.insert(t, o);
                self.fn1.insert(o);
                o
            }
        };
        let s = self.sym(sym);
        let off = self.zext(64, s);
        let sh = self.k(64, bytes.trailing_zeros() as u128);
        let off = self.bin(Op::Shl, off, sh);
        let tab = self.intern_raw(Node::Tab { obj, bytes, lo: 0, hi: 255 * bytes as u32, off });
        if w == bytes * 8 {
            tab
        } else {
            self.intern_raw(Node::Ext(w - 1, 0, tab))
        }
    }
    /// Canonical form of a node over one byte with a table below it.
    fn fn1(&mut self, n: &Node) -> Option<E> {
        let (ch, k): ([E; 3], usize) = match *n {
            Node::K(..) | Node::Sym(_) => return None,
            Node::Bin(_, a, b) | Node::Eq(a, b) | Node::Ult(a, b) | Node::Slt(a, b) | Node::Cat(a, b) => ([a, b, 0], 2),
            Node::Not(a) | Node::Ext(_, _, a) | Node::Sext(_, a) => ([a, 0, 0], 1),
            Node::Ite(c, a, b) => ([c, a, b], 3),
            Node::Tab { off, .. } => ([off, 0, 0], 1),
        };
        let s = ch[..k].iter().fold(0u128, |s, &e| s | self.syms(e));
        if s.count_ones() != 1 {
            return None;
        }
        if !matches!(n, Node::Tab { .. }) && !ch[..k].iter().any(|&e| self.is_fn1(e)) {
            return None;
        }
        let sym = s.trailing_zeros() as u16;
        let w = self.mkinfo(n).w;
        let mut vals = [0u128; 256];
        let mut m = vec![0u8; sym as usize + 1];
        for v in 0..256usize {
            m[sym as usize] = v as u8;
            self.begin_eval();
            vals[v] = self.eval_node(*n, w, &m);
        }
        Some(self.fn1_make(sym, w, &vals))
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        if !self.raw {
            if let Some(e) = self.fn1(&n) {
                self.rewrites += 1;
                if self.audit_on {
                    let h = self.hash_node(&n);
                    let new = match &self.audited {
                        Some(s) => s.lock().unwrap().insert(h),
                        None => true,
                    };
                    if new {
                        self.rewrites_distinct += 1;
                        if self.info[e as usize].w == 1 && self.is_k(e).is_some() || self.audit_every > 0 && self.rewrites_distinct % self.audit_every == 0 {
                            self.audit.push((n, e));
                        }
                    }
                }
                self.map.insert(n, e);
                return e;
            }
        }
        self.intern_raw(n)
    }
    /// A node outside the shared ones, kept as it is.
    pub fn detached(&mut self, n: Node) -> E {
        let info = self.mkinfo(&n);
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.info.push(info);
        id
    }
    /// Structure of a function of one byte, the same in every arena.
    fn hash_node(&mut self, n: &Node) -> u128 {
        let (tag, parts): (u128, [u128; 3]) = match *n {
            Node::K(w, v) => (1 + w as u128 * 16, [v, 0, 0]),
            Node::Sym(_) => (2, [0, 0, 0]),
            Node::Bin(op, a, b) => (3 + (op as u128) * 16, [self.hash_of(a), self.hash_of(b), 0]),
            Node::Not(a) => (4, [self.hash_of(a), 0, 0]),
            Node::Ite(a, b, c) => (5, [self.hash_of(a), self.hash_of(b), self.hash_of(c)]),
            Node::Eq(a, b) => (6, [self.hash_of(a), self.hash_of(b), 0]),
            Node::Ult(a, b) => (7, [self.hash_of(a), self.hash_of(b), 0]),
            Node::Slt(a, b) => (8, [self.hash_of(a), self.hash_of(b), 0]),
            Node::Ext(h, l, a) => (9 + (h as u128) * 16 + (l as u128) * 65536, [self.hash_of(a), 0, 0]),
            Node::Cat(a, b) => (10, [self.hash_of(a), self.hash_of(b), 0]),
            Node::Sext(w, a) => (11 + (w as u128) * 16, [self.hash_of(a), 0, 0]),
            Node::Tab { obj, bytes, off, .. } => (12 + (bytes as u128) * 16, [self.hash_tab(obj), self.hash_of(off), 0]),
        };
        let mut h = mix(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C834, tag);
        for p in parts {
            h = mix(h, p);
        }
        h
    }
    fn hash_of(&mut self, e: E) -> u128 {
        if let Some(&h) = self.shash.get(&e) {
            return h;
        }
        let n = self.nodes[e as usize];
        let h = self.hash_node(&n);
        self.shash.insert(e, h);
        h
    }
    fn hash_tab(&mut self, obj: u32) -> u128 {
        if let Some(&h) = self.thash.get(&obj) {
            return h;
        }
        let t = self.tables[obj as usize].clone();
        let mut h = mix(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321, t.len() as u128);
        for c in t.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            h = mix(h, u128::from_le_bytes(b));
        }
        self.thash.insert(obj, h);
        h
    }
    /// Does the node differ from what it was rewritten into?
    pub fn differs(&mut self, n: Node, e: E) -> Ob {
        if let Node::Tab { obj, bytes, off, .. } = n {
            let len = self.tables[obj as usize].len() as u64;
            let end = len + 1 - bytes as u64;
            let i = self.syms(off).trailing_zeros() as usize;
            let mut m = vec![0u8; i + 1];
            let mut at: Vec<(u64, u128)> = Vec::new();
            for v in 0..256usize {
                m[i] = v as u8;
                self.begin_eval();
                let o = self.eval(off, &m) as u64;
                if o < end {
                    at.push((o, self.tab_get(obj, bytes, o)));
                }
            }
            at.sort_unstable();
            at.dedup();
            return Ob::Tab { off, end, bytes, at, e };
        }
        let t = self.detached(n);
        let q = self.detached(Node::Eq(t, e));
        Ob::Is(self.detached(Node::Not(q)))
    }
    fn intern_raw(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let info = self.mkinfo(&n);
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.info.push(info);
        self.map.insert(n, id);
        id
    }

    pub fn tab_get(&self, obj: u32, bytes: u8, off: u64) -> u128 {
        let t = &self.tables[obj as usize];
        let mut v = 0u128;
        for i in 0..bytes as usize {
            let b = t.get(off as usize + i).copied().unwrap_or(0);
            v |= (b as u128) << (8 * i);
        }
        v
    }
    /// Number of known-zero low bits.
    pub fn tz(&self, e: E) -> u8 {
        match self.nodes[e as usize] {
            Node::K(w, v) => {
                if v == 0 {
                    w
                } else {
                    v.trailing_zeros() as u8
                }
            }
            Node::Cat(h, l) => {
                let t = self.tz(l);
                if t == self.w(l) {
                    t + self.tz(h)
                } else {
                    t
                }
            }
            Node::Ite(_, a, b) => self.tz(a).min(self.tz(b)),
            Node::Tab { obj, bytes, .. } if self.fn1.contains(&obj) => {
                let t = &self.tables[obj as usize];
                let n = t.len() / bytes as usize;
                let or = (0..n).fold(0u128, |x, i| x | self.tab_get(obj, bytes, (i * bytes as usize) as u64));
                or.trailing_zeros() as u8
            }
            Node::Bin(Op::Add, a, b) | Node::Bin(Op::Sub, a, b) | Node::Bin(Op::Or, a, b) => {
                self.tz(a).min(self.tz(b))
            }
            _ => 0,
        }
    }
    pub fn tab_range(&mut self, obj: u32, bytes: u8, lo: u32, hi: u32, step: u8) -> (u128, u128) {
        if let Some(&r) = self.tabrange.get(&(obj, bytes, lo, hi, step)) {
            return r;
        }
        let st = 1u32 << step;
        let mut o = (lo + st - 1) & !(st - 1);
        let (mut mn, mut mx) = (u128::MAX, 0u128);
        while o <= hi {
            let v = self.tab_get(obj, bytes, o as u64);
            mn = mn.min(v);
            mx = mx.max(v);
            o += st;
        }
        if mn > mx {
            mn = 0;
            mx = mask(bytes * 8);
        }
        self.tabrange.insert((obj, bytes, lo, hi, step), (mn, mx));
        (mn, mx)
    }

    /// Range of an operation given the ranges of its arguments.
    pub fn op_range(&self, n: &Node, w: u8, r: impl Fn(E) -> (u128, u128)) -> (u128, u128) {
        let m = mask(w);
        let full = (0, m);
        match *n {
            Node::K(_, v) => (v, v),
            Node::Sym(_) => full,
            Node::Bin(op, a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                match op {
                    Op::Add => {
                        if w > 126 {
                            return full;
                        }
                        let (l, h) = (al + bl, ah + bh);
                        if h <= m {
                            (l, h)
                        } else if l > m {
                            (l - m - 1, h - m - 1)
                        } else {
                            full
                        }
                    }
                    Op::Sub => {
                        if al >= bh {
                            (al - bh, ah - bl)
                        } else if ah < bl && w <= 126 {
                            (al + m + 1 - bh, ah + m + 1 - bl)
                        } else {
                            full
                        }
                    }
                    Op::Mul => match ah.checked_mul(bh) {
                        Some(h) if h <= m => (al * bl, h),
                        _ => full,
                    },
                    Op::UDiv => {
                        if bl > 0 {
                            (al / bh, ah / bl)
                        } else {
                            full
                        }
                    }
                    Op::URem => {
                        if bl > 0 {
                            if ah < bl {
                                (al, ah)
                            } else {
                                (0, ah.min(bh - 1))
                            }
                        } else {
                            full
                        }
                    }
                    Op::And => (0, ah.min(bh)),
                    Op::Or => (al.max(bl), mask(bits(ah | bh)).min(m)),
                    Op::Xor => (0, mask(bits(ah | bh)).min(m)),
                    Op::LShr => (0, ah),
                    _ => full,
                }
            }
            Node::Not(a) => {
                let (l, h) = r(a);
                (m - h, m - l)
            }
            Node::Ite(_, a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                (al.min(bl), ah.max(bh))
            }
            Node::Eq(..) | Node::Ult(..) | Node::Slt(..) => (0, 1),
            Node::Ext(hi, lo, a) => {
                let (l, h) = r(a);
                if (h >> lo) <= mask(hi - lo + 1) {
                    (l >> lo, h >> lo)
                } else if hi < 127 && (l >> (hi + 1)) == (h >> (hi + 1)) {
                    // Upper bits fixed.
                    let mm = mask(hi + 1);
                    ((l & mm) >> lo, (h & mm) >> lo)
                } else {
                    full
                }
            }
            Node::Cat(h, l) => {
                let (hl, hh) = r(h);
                let (ll, lh) = r(l);
                let s = self.w(l);
                ((hl << s) | ll, (hh << s) | lh)
            }
            Node::Sext(_, a) => {
                let wa = self.w(a);
                let (l, h) = r(a);
                if h < 1u128 << (wa - 1) {
                    (l, h)
                } else if l >= 1u128 << (wa - 1) {
                    (sx(wa, l) as u128 & m, sx(wa, h) as u128 & m)
                } else {
                    full
                }
            }
            Node::Tab { .. } => full,
        }
    }

    fn mkinfo(&mut self, n: &Node) -> Info {
        let w = match *n {
            Node::K(w, _) => w,
            Node::Sym(_) => 8,
            Node::Bin(_, a, _) | Node::Not(a) | Node::Ite(_, a, _) => self.w(a),
            Node::Eq(..) | Node::Ult(..) | Node::Slt(..) => 1,
            Node::Ext(h, l, _) => h - l + 1,
            Node::Cat(a, b) => self.w(a) + self.w(b),
            Node::Sext(w, _) => w,
            Node::Tab { bytes, .. } => bytes * 8,
        };
        let syms = match *n {
            Node::K(..) => 0,
            Node::Sym(i) => 1u128 << i,
            Node::Bin(_, a, b) | Node::Eq(a, b) | Node::Ult(a, b) | Node::Slt(a, b) | Node::Cat(a, b) => {
                self.syms(a) | self.syms(b)
            }
            Node::Not(a) | Node::Ext(_, _, a) | Node::Sext(_, a) => self.syms(a),
            Node::Ite(c, a, b) => self.syms(c) | self.syms(a) | self.syms(b),
            Node::Tab { off, .. } => self.syms(off),
        };
        let leaves = match *n {
            Node::K(..) => 1,
            Node::Ite(_, a, b) => {
                let (x, y) = (self.leaves(a), self.leaves(b));
                if x > 0 && y > 0 {
                    x.saturating_add(y)
                } else {
                    0
                }
            }
            _ => 0,
        };
        let (lo, hi) = match *n {
            Node::Tab { obj, bytes, lo, hi, off } => {
                let s = self.tz(off).min(6);
                self.tab_range(obj, bytes, lo, hi, s)
            }
            _ => self.op_range(n, w, |e| self.rng(e)),
        };
        Info { w, leaves, lo, hi, syms }
    }

    fn fin(&mut self, key: Node, e: E) -> E {
        self.memo.insert(key, e);
        e
    }

    pub fn tru(&self) -> E {
        1
    }
    pub fn fls(&self) -> E {
        0
    }

    fn segs(&self, e: E, out: &mut Vec<E>) {
        match self.nodes[e as usize] {
            Node::Cat(h, l) => {
                self.segs(l, out);
                self.segs(h, out);
            }
            _ => out.push(e),
        }
    }
    /// Cut points (bit positions) of e's segments; constants contribute their
    /// bit runs when `runs`.
    fn cuts(&self, e: E, runs: bool, out: &mut Vec<u8>) {
        let mut s = Vec::new();
        self.segs(e, &mut s);
        let mut p = 0;
        for x in s {
            if let (true, Node::K(w, v)) = (runs, self.nodes[x as usize]) {
                let mut i = 1;
                let mut n = 0;
                while i < w {
                    if (v >> i) & 1 != (v >> (i - 1)) & 1 {
                        n += 1;
                        if n <= 6 {
                            out.push(p + i);
                        }
                    }
                    i += 1;
                }
            }
            p += self.w(x);
            out.push(p);
        }
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.raw {
            return self.intern(Node::Bin(op, a, b));
        }
        if let (Some(x), Some(y)) = (self.is_k(a), self.is_k(b)) {
            return self.k(w, fold(op, w, x, y));
        }
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor)
            && (self.is_k(a).is_some() || (self.is_k(b).is_none() && a > b))
        {
            std::mem::swap(&mut a, &mut b);
        }
        let key = Node::Bin(op, a, b);
        if let Some(&e) = self.memo.get(&key) {
            return e;
        }
        let e = self.bin2(op, w, a, b);
        self.fin(key, e)
    }

    fn bin2(&mut self, op: Op, w: u8, a: E, b: E) -> E {
        let m = mask(w);
        let kb = self.is_k(b);
        let ka = self.is_k(a);
        // Identities.
        match (op, kb) {
            (Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr, Some(0)) => return a,
            (Op::And | Op::Mul, Some(0)) => return b,
            (Op::And, Some(v)) if v == m => return a,
            (Op::Or, Some(v)) if v == m => return b,
            (Op::Xor, Some(v)) if v == m => return self.not(a),
            (Op::Mul | Op::UDiv, Some(1)) => return a,
            (Op::URem, Some(1)) => return self.k(w, 0),
            (Op::Sub, Some(v)) => {
                let c = self.k(w, v.wrapping_neg());
                return self.bin(Op::Add, a, c);
            }
            (Op::Mul, Some(v)) if v.is_power_of_two() => {
                let c = self.k(w, v.trailing_zeros() as u128);
                return self.bin(Op::Shl, a, c);
            }
            (Op::UDiv, Some(v)) if v.is_power_of_two() => {
                let c = self.k(w, v.trailing_zeros() as u128);
                return self.bin(Op::LShr, a, c);
            }
            (Op::URem, Some(v)) if v.is_power_of_two() => {
                let c = self.k(w, v - 1);
                return self.bin(Op::And, a, c);
            }
            (Op::Shl, Some(v)) => {
                if v >= w as u128 {
                    return self.k(w, 0);
                }
                let v = v as u8;
                let x = self.ext(w - 1 - v, 0, a);
                let z = self.k(v, 0);
                return self.cat(x, z);
            }
            (Op::LShr, Some(v)) => {
                if v >= w as u128 {
                    return self.k(w, 0);
                }
                let v = v as u8;
                let x = self.ext(w - 1, v, a);
                let z = self.k(v, 0);
                return self.cat(z, x);
            }
            (Op::AShr, Some(v)) => {
                let v = v.min(w as u128 - 1) as u8;
                let x = self.ext(w - 1, v, a);
                return self.sext(w, x);
            }
            _ => {}
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.k(w, 0),
                Op::And | Op::Or => return a,
                _ => {}
            }
        }
        if ka == Some(0) && matches!(op, Op::Shl | Op::LShr | Op::AShr) {
            return a;
        }
        // Constant-leaf if-then-else trees.
        if kb.is_some() && self.leaves(a) > 1 && self.leaves(a) <= PUSH {
            if let Node::Ite(c, x, y) = self.nodes[a as usize] {
                let x = self.bin(op, x, b);
                let y = self.bin(op, y, b);
                return self.ite(c, x, y);
            }
        }
        if ka.is_some() && self.leaves(b) > 1 && self.leaves(b) <= PUSH {
            if let Node::Ite(c, x, y) = self.nodes[b as usize] {
                let x = self.bin(op, a, x);
                let y = self.bin(op, a, y);
                return self.ite(c, x, y);
            }
        }
        match op {
            Op::Add => {
                if let (Some(c2), Node::Bin(Op::Add, x, y)) = (kb, self.nodes[a as usize]) {
                    if let Some(c1) = self.is_k(y) {
                        let c = self.k(w, c1.wrapping_add(c2));
                        return self.bin(Op::Add, x, c);
                    }
                }
                // Hoist constants out of sums.
                if kb.is_none() {
                    if let Node::Bin(Op::Add, x, y) = self.nodes[a as usize] {
                        if self.is_k(y).is_some() {
                            let s = self.bin(Op::Add, x, b);
                            return self.bin(Op::Add, s, y);
                        }
                    }
                    if let Node::Bin(Op::Add, x, y) = self.nodes[b as usize] {
                        if self.is_k(y).is_some() {
                            let s = self.bin(Op::Add, a, x);
                            return self.bin(Op::Add, s, y);
                        }
                    }
                }
                // Disjoint bits: x000 + y = xy.
                for (p, q) in [(a, b), (b, a)] {
                    let t = self.tz(p);
                    if t > 0 && t < w && self.rng(q).1 <= mask(t) {
                        let h = self.ext(w - 1, t, p);
                        let l = self.ext(t - 1, 0, q);
                        return self.cat(h, l);
                    }
                }
            }
            Op::Sub => {
                if let Node::Bin(Op::Add, x, y) = self.nodes[a as usize] {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                    if self.is_k(y).is_some() {
                        let s = self.bin(Op::Sub, x, b);
                        return self.bin(Op::Add, s, y);
                    }
                }
                if let Node::Bin(Op::Add, x, y) = self.nodes[b as usize] {
                    if let Some(c) = self.is_k(y) {
                        let s = self.bin(Op::Sub, a, x);
                        let c = self.k(w, c.wrapping_neg());
                        return self.bin(Op::Add, s, c);
                    }
                    if x == a {
                        let z = self.k(w, 0);
                        return self.bin(Op::Sub, z, y);
                    }
                }
            }
            Op::Mul | Op::UDiv | Op::URem => {
                let (ah, bh) = (self.rng(a).1, self.rng(b).1);
                let rh = if op == Op::Mul { ah.checked_mul(bh) } else { Some(0) };
                let ok = op == Op::Mul || self.rng(b).0 > 0;
                if let (Some(rh), true) = (rh, ok) {
                    let n = bits(rh.max(ah).max(bh)).max(1);
                    if n < w {
                        let x = self.ext(n - 1, 0, a);
                        let y = self.ext(n - 1, 0, b);
                        let r = self.bin(op, x, y);
                        return self.zext(w, r);
                    }
                }
            }
            Op::And | Op::Or | Op::Xor if w > 1 => {
                let isc = |s: &Self, e: E| matches!(s.nodes[e as usize], Node::Cat(..));
                if kb.is_some() || isc(self, a) || isc(self, b) {
                    let mut c = Vec::new();
                    self.cuts(a, kb.is_none(), &mut c);
                    self.cuts(b, true, &mut c);
                    c.sort_unstable();
                    c.dedup();
                    if c.len() > 1 {
                        let mut p = 0;
                        let mut r: Option<E> = None;
                        for q in c {
                            let x = self.ext(q - 1, p, a);
                            let y = self.ext(q - 1, p, b);
                            let z = self.bin(op, x, y);
                            r = Some(match r {
                                None => z,
                                Some(l) => self.cat(z, l),
                            });
                            p = q;
                        }
                        return r.unwrap();
                    }
                }
            }
            Op::And | Op::Or => {
                // width 1
                let na = self.not(a);
                if na == b {
                    return self.k(1, (op == Op::Or) as u128);
                }
                // Absorption with one level of nesting.
                for (p, q) in [(a, b), (b, a)] {
                    if let Node::Bin(o2, x, y) = self.nodes[q as usize] {
                        if o2 == op && (x == p || y == p) {
                            return q;
                        }
                        if matches!(o2, Op::And | Op::Or) && o2 != op {
                            if x == p || y == p {
                                return p;
                            }
                            let np = self.not(p);
                            if x == np {
                                return self.bin(op, p, y);
                            }
                            if y == np {
                                return self.bin(op, p, x);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        self.intern(Node::Bin(op, a, b))
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if self.raw {
            return self.intern(Node::Not(a));
        }
        match self.nodes[a as usize] {
            Node::K(_, v) => self.k(w, !v),
            Node::Not(x) => x,
            Node::Ite(c, x, y) if self.leaves(a) > 1 && self.leaves(a) <= PUSH => {
                let x = self.not(x);
                let y = self.not(y);
                self.ite(c, x, y)
            }
            Node::Cat(h, l) => {
                let h = self.not(h);
                let l = self.not(l);
                self.cat(h, l)
            }
            _ => self.intern(Node::Not(a)),
        }
    }

    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if self.raw {
            return self.intern(Node::Ite(c, a, b));
        }
        if a == b {
            return a;
        }
        match self.nodes[c as usize] {
            Node::K(_, v) => return if v == 1 { a } else { b },
            Node::Not(x) => return self.ite(x, b, a),
            _ => {}
        }
        if self.w(a) == 1 {
            match (self.is_k(a), self.is_k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and1(n, b);
                }
                (Some(1), _) => return self.or1(c, b),
                (_, Some(0)) => return self.and1(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or1(n, a);
                }
                _ => {}
            }
        }
        if let Node::Ite(c2, x, _) = self.nodes[a as usize] {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, _, y) = self.nodes[b as usize] {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.intern(Node::Ite(c, a, b))
    }

    pub fn ext(&mut self, hi: u8, lo: u8, a: E) -> E {
        let w = self.w(a);
        debug_assert!(hi < w && lo <= hi);
        if lo == 0 && hi == w - 1 {
            return a;
        }
        if self.raw {
            return self.intern(Node::Ext(hi, lo, a));
        }
        let n = hi - lo + 1;
        if let Node::K(_, v) = self.nodes[a as usize] {
            return self.k(n, v >> lo);
        }
        let key = Node::Ext(hi, lo, a);
        if let Some(&e) = self.memo.get(&key) {
            return e;
        }
        let e = self.ext2(hi, lo, a, n);
        self.fin(key, e)
    }
    fn ext2(&mut self, hi: u8, lo: u8, a: E, n: u8) -> E {
        match self.nodes[a as usize] {
            Node::Ext(_, l2, x) => return self.ext(l2 + hi, l2 + lo, x),
            Node::Cat(h, l) => {
                let wl = self.w(l);
                return if hi < wl {
                    self.ext(hi, lo, l)
                } else if lo >= wl {
                    self.ext(hi - wl, lo - wl, h)
                } else {
                    let x = self.ext(hi - wl, 0, h);
                    let y = self.ext(wl - 1, lo, l);
                    self.cat(x, y)
                };
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let x = self.ext(hi, lo, x);
                let y = self.ext(hi, lo, y);
                return self.bin(op, x, y);
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let x = self.ext(hi, 0, x);
                let y = self.ext(hi, 0, y);
                return self.bin(op, x, y);
            }
            Node::Not(x) => {
                let x = self.ext(hi, lo, x);
                return self.not(x);
            }
            Node::Ite(c, x, y) => {
                let x = self.ext(hi, lo, x);
                let y = self.ext(hi, lo, y);
                return self.ite(c, x, y);
            }
            Node::Sext(_, x) => {
                let wx = self.w(x);
                if hi < wx {
                    return self.ext(hi, lo, x);
                }
                if lo == 0 {
                    return self.sext(n, x);
                }
            }
            _ => {}
        }
        let h = self.rng(a).1;
        let kb = bits(h);
        if kb <= lo {
            return self.k(n, 0);
        }
        if kb <= hi {
            let x = self.ext(kb - 1, lo, a);
            let z = self.k(hi + 1 - kb, 0);
            return self.cat(z, x);
        }
        self.intern(Node::Ext(hi, lo, a))
    }

    pub fn cat(&mut self, h: E, l: E) -> E {
        if self.raw {
            return self.intern(Node::Cat(h, l));
        }
        let (wh, wl) = (self.w(h), self.w(l));
        if let Some(e) = self.merge(h, l) {
            return e;
        }
        if let Node::Cat(h1, h2) = self.nodes[h as usize] {
            let x = self.cat(h2, l);
            return self.cat(h1, x);
        }
        if let Node::Cat(l1, l2) = self.nodes[l as usize] {
            if let Some(m) = self.merge(h, l1) {
                return self.cat(m, l2);
            }
        }
        // Constant next to a constant-leaf tree.
        if self.is_k(h).is_some() && self.leaves(l) > 1 && self.leaves(l) <= PUSH {
            if let Node::Ite(c, x, y) = self.nodes[l as usize] {
                let x = self.cat(h, x);
                let y = self.cat(h, y);
                return self.ite(c, x, y);
            }
        }
        if self.is_k(l).is_some() && self.leaves(h) > 1 && self.leaves(h) <= PUSH {
            if let Node::Ite(c, x, y) = self.nodes[h as usize] {
                let x = self.cat(x, l);
                let y = self.cat(y, l);
                return self.ite(c, x, y);
            }
        }
        let _ = (wh, wl);
        self.intern(Node::Cat(h, l))
    }
    fn merge(&mut self, h: E, l: E) -> Option<E> {
        match (self.nodes[h as usize], self.nodes[l as usize]) {
            (Node::K(w1, a), Node::K(w2, b)) => Some(self.k(w1 + w2, (a << w2) | b)),
            (Node::Ext(h1, l1, x), Node::Ext(h2, l2, y)) if x == y && l1 == h2 + 1 => Some(self.ext(h1, l2, x)),
            (Node::Ite(c1, a, b), Node::Ite(c2, x, y)) if c1 == c2 => {
                let p = self.cat(a, x);
                let q = self.cat(b, y);
                Some(self.ite(c1, p, q))
            }
            _ => None,
        }
    }
    pub fn zext(&mut self, w: u8, a: E) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let z = self.k(w - wa, 0);
        self.cat(z, a)
    }
    pub fn sext(&mut self, w: u8, a: E) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if self.raw {
            return self.intern(Node::Sext(w, a));
        }
        if let Node::K(_, v) = self.nodes[a as usize] {
            return self.k(w, sx(wa, v) as u128);
        }
        if self.rng(a).1 < 1u128 << (wa - 1) {
            return self.zext(w, a);
        }
        if self.leaves(a) > 1 && self.leaves(a) <= PUSH {
            if let Node::Ite(c, x, y) = self.nodes[a as usize] {
                let x = self.sext(w, x);
                let y = self.sext(w, y);
                return self.ite(c, x, y);
            }
        }
        if wa == 1 {
            let t = self.k(w, u128::MAX);
            let f = self.k(w, 0);
            return self.ite(a, t, f);
        }
        self.intern(Node::Sext(w, a))
    }

    pub fn eq(&mut self, mut a: E, mut b: E) -> E {
        debug_assert_eq!(self.w(a), self.w(b));
        if self.raw {
            return self.intern(Node::Eq(a, b));
        }
        if a == b {
            return self.tru();
        }
        if self.is_k(a).is_some() || (self.is_k(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        let (al, ah) = self.rng(a);
        let (bl, bh) = self.rng(b);
        if ah < bl || bh < al {
            return self.fls();
        }
        if al == ah && bl == bh {
            return self.tru();
        }
        let w = self.w(a);
        if w == 1 {
            return match self.is_k(b) {
                Some(1) => a,
                Some(_) => self.not(a),
                None => {
                    let x = self.bin(Op::Xor, a, b);
                    self.not(x)
                }
            };
        }
        let key = Node::Eq(a, b);
        if let Some(&e) = self.memo.get(&key) {
            return e;
        }
        let e = self.eq2(a, b, w);
        self.fin(key, e)
    }
    fn eq2(&mut self, a: E, b: E, w: u8) -> E {
        if let Some(v) = self.is_k(b) {
            if let Some(r) = self.tab_pred(a, 0, v) {
                return r;
            }
            match self.nodes[a as usize] {
                Node::Cat(h, l) => {
                    let wl = self.w(l);
                    let kh = self.k(w - wl, v >> wl);
                    let kl = self.k(wl, v);
                    let x = self.eq(h, kh);
                    if x == self.fls() {
                        return x;
                    }
                    let y = self.eq(l, kl);
                    return self.and1(x, y);
                }
                Node::Ite(c, x, y)
                    if (self.leaves(a) > 0 && self.leaves(a) <= PUSH)
                        || self.is_k(x).is_some()
                        || self.is_k(y).is_some() =>
                {
                    let x = self.eq(x, b);
                    let y = self.eq(y, b);
                    return self.ite(c, x, y);
                }
                Node::Bin(Op::Add, x, y) => {
                    if let Some(c) = self.is_k(y) {
                        let c = self.k(w, v.wrapping_sub(c));
                        return self.eq(x, c);
                    }
                }
                Node::Bin(Op::Xor, x, y) => {
                    if let Some(c) = self.is_k(y) {
                        let c = self.k(w, v ^ c);
                        return self.eq(x, c);
                    }
                    if v == 0 {
                        return self.eq(x, y);
                    }
                }
                Node::Bin(Op::Sub, x, y) if v == 0 => return self.eq(x, y),
                Node::Bin(Op::Or, x, y) if v == 0 => {
                    let p = self.eq(x, b);
                    let q = self.eq(y, b);
                    return self.and1(p, q);
                }
                Node::Not(x) => {
                    let c = self.k(w, !v);
                    return self.eq(x, c);
                }
                Node::Sext(_, x) => {
                    let wx = self.w(x);
                    if sx(wx, v & mask(wx)) as u128 & mask(w) != v {
                        return self.fls();
                    }
                    let c = self.k(wx, v);
                    return self.eq(x, c);
                }
                _ => {}
            }
        } else if let (Node::Cat(..), Node::Cat(..)) = (self.nodes[a as usize], self.nodes[b as usize]) {
            let mut ca = Vec::new();
            let mut cb = Vec::new();
            self.cuts(a, false, &mut ca);
            self.cuts(b, false, &mut cb);
            ca.extend(cb);
            ca.sort_unstable();
            ca.dedup();
            if ca.len() > 1 {
                let mut r = self.tru();
                let mut p = 0;
                for q in ca {
                    let x = self.ext(q - 1, p, a);
                    let y = self.ext(q - 1, p, b);
                    let z = self.eq(x, y);
                    r = self.and1(r, z);
                    p = q;
                }
                return r;
            }
        } else if let (Node::Bin(Op::Add, x, c), Node::Bin(Op::Add, y, d)) =
            (self.nodes[a as usize], self.nodes[b as usize])
        {
            if c == d {
                return self.eq(x, y);
            }
            if x == y {
                return self.eq(c, d);
            }
        }
        self.intern(Node::Eq(a, b))
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        debug_assert_eq!(self.w(a), self.w(b));
        if self.raw {
            return self.intern(Node::Ult(a, b));
        }
        if a == b {
            return self.fls();
        }
        let (al, ah) = self.rng(a);
        let (bl, bh) = self.rng(b);
        if ah < bl {
            return self.tru();
        }
        if al >= bh {
            return self.fls();
        }
        let key = Node::Ult(a, b);
        if let Some(&e) = self.memo.get(&key) {
            return e;
        }
        let e = self.ult2(a, b);
        self.fin(key, e)
    }
    fn ult2(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            let n = self.not(a);
            return self.and1(n, b);
        }
        if let Some(v) = self.is_k(b) {
            if let Some(r) = self.tab_pred(a, 1, v) {
                return r;
            }
            if v == 1 {
                let z = self.k(w, 0);
                return self.eq(a, z);
            }
            match self.nodes[a as usize] {
                Node::Cat(h, l) => {
                    let wl = self.w(l);
                    let (vh, vl) = (v >> wl, v & mask(wl));
                    if let Some(x) = self.is_k(h) {
                        return if x < vh {
                            self.tru()
                        } else if x > vh {
                            self.fls()
                        } else {
                            let c = self.k(wl, vl);
                            self.ult(l, c)
                        };
                    }
                    if vl == 0 {
                        let c = self.k(w - wl, vh);
                        return self.ult(h, c);
                    }
                    // lexicographic
                    let c = self.k(w - wl, vh);
                    let d = self.k(wl, vl);
                    let x = self.ult(h, c);
                    let y = self.eq(h, c);
                    let z = self.ult(l, d);
                    let yz = self.and1(y, z);
                    return self.or1(x, yz);
                }
                Node::Ite(c, x, y) if self.leaves(a) > 0 && self.leaves(a) <= PUSH => {
                    let x = self.ult(x, b);
                    let y = self.ult(y, b);
                    return self.ite(c, x, y);
                }
                _ => {}
            }
        } else if let Some(v) = self.is_k(a) {
            if let Some(r) = self.tab_pred(b, 2, v) {
                return r;
            }
            if v == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            match self.nodes[b as usize] {
                Node::Cat(h, l) => {
                    let wl = self.w(l);
                    let (vh, vl) = (v >> wl, v & mask(wl));
                    if let Some(x) = self.is_k(h) {
                        return if vh < x {
                            self.tru()
                        } else if vh > x {
                            self.fls()
                        } else {
                            let c = self.k(wl, vl);
                            self.ult(c, l)
                        };
                    }
                    if vl == mask(wl) {
                        let c = self.k(w - wl, vh);
                        return self.ult(c, h);
                    }
                    let c = self.k(w - wl, vh);
                    let d = self.k(wl, vl);
                    let x = self.ult(c, h);
                    let y = self.eq(h, c);
                    let z = self.ult(d, l);
                    let yz = self.and1(y, z);
                    return self.or1(x, yz);
                }
                Node::Ite(c, x, y) if self.leaves(b) > 0 && self.leaves(b) <= PUSH => {
                    let x = self.ult(a, x);
                    let y = self.ult(a, y);
                    return self.ite(c, x, y);
                }
                _ => {}
            }
        } else if let (Node::Cat(h1, l1), Node::Cat(h2, l2)) = (self.nodes[a as usize], self.nodes[b as usize]) {
            if h1 == h2 {
                return self.ult(l1, l2);
            }
            if l1 == l2 {
                return self.ult(h1, h2);
            }
            // Common leading zeros.
            let n = w - bits(self.rng(a).1.max(self.rng(b).1));
            if n > 0 && self.is_k(h1).is_some() && self.is_k(h2).is_some() {
                let x = self.ext(w - 1 - n, 0, a);
                let y = self.ext(w - 1 - n, 0, b);
                return self.ult(x, y);
            }
        }
        self.intern(Node::Ult(a, b))
    }

    pub fn slt(&mut self, a: E, b: E) -> E {
        if self.raw {
            return self.intern(Node::Slt(a, b));
        }
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_k(a), self.is_k(b)) {
            return self.k(1, (sx(w, x) < sx(w, y)) as u128);
        }
        let s = 1u128 << (w - 1);
        let sign = |(l, h): (u128, u128)| {
            if h < s {
                Some(false)
            } else if l >= s {
                Some(true)
            } else {
                None
            }
        };
        match (sign(self.rng(a)), sign(self.rng(b))) {
            (Some(x), Some(y)) if x == y => return self.ult(a, b),
            (Some(x), Some(_)) => return self.k(1, x as u128),
            _ => {}
        }
        if self.is_k(b) == Some(0) {
            return self.ext(w - 1, w - 1, a);
        }
        if self.is_k(a) == Some(mask(w)) {
            let x = self.ext(w - 1, w - 1, b);
            return self.not(x);
        }
        if self.is_k(b).is_some() && self.leaves(a) > 0 && self.leaves(a) <= PUSH {
            if let Node::Ite(c, x, y) = self.nodes[a as usize] {
                let x = self.slt(x, b);
                let y = self.slt(y, b);
                return self.ite(c, x, y);
            }
        }
        self.intern(Node::Slt(a, b))
    }

    pub fn tab(&mut self, obj: u32, bytes: u8, lo: u32, hi: u32, off: E) -> E {
        if let Some(v) = self.is_k(off) {
            let r = self.tab_get(obj, bytes, v as u64);
            return self.k(bytes * 8, r);
        }
        if self.raw {
            return self.intern(Node::Tab { obj, bytes, lo, hi, off });
        }
        if self.leaves(off) > 1 && self.leaves(off) <= 4096 {
            let key = Node::Tab { obj, bytes, lo: 0, hi: 0, off };
            if let Some(&e) = self.memo.get(&key) {
                return e;
            }
            if let Node::Ite(c, x, y) = self.nodes[off as usize] {
                let x = self.tab(obj, bytes, lo, hi, x);
                let y = self.tab(obj, bytes, lo, hi, y);
                let e = self.ite(c, x, y);
                return self.fin(key, e);
            }
        }
        let st = self.tz(off).min(6);
        let (l, h) = self.tab_range(obj, bytes, lo, hi, st);
        if l == h {
            return self.k(bytes * 8, l);
        }
        self.intern(Node::Tab { obj, bytes, lo, hi, off })
    }

    /// Table of the truth values of a predicate on the entries of a table.
    fn derived(&mut self, obj: u32, bytes: u8, st: u8, kind: u8, k: u128) -> u32 {
        let key = (obj, bytes, st, kind, k);
        if let Some(&t) = self.derivedmap.get(&key) {
            return t;
        }
        let n = self.tables[obj as usize].len() >> st;
        let v: Vec<u8> = (0..n)
            .map(|i| {
                let x = self.tab_get(obj, bytes, (i << st) as u64);
                (match kind {
                    0 => x == k,
                    1 => x < k,
                    _ => x > k,
                }) as u8
            })
            .collect();
        let t = self.tables.len() as u32;
        self.tables.push(Arc::new(v));
        self.derivedmap.insert(key, t);
        t
    }
    fn tab_pred(&mut self, a: E, kind: u8, k: u128) -> Option<E> {
        if let Node::Tab { obj, bytes, lo, hi, off } = self.nodes[a as usize] {
            if bytes == 1 && kind == 0 && self.rng(a) == (0, 1) {
                return None;
            }
            let st = self.tz(off).min(6);
            let t = self.derived(obj, bytes, st, kind, k);
            let w = self.w(off);
            let o = if st > 0 {
                let x = self.ext(w - 1, st, off);
                self.zext(w, x)
            } else {
                off
            };
            let r = self.tab(t, 1, (lo + (1 << st) - 1) >> st, hi >> st, o);
            return Some(self.ext(0, 0, r));
        }
        None
    }

    pub fn begin_eval(&mut self) {
        self.stamp += 1;
        let n = self.nodes.len();
        if self.ecache.len() < n {
            self.ecache.resize(n + n / 2 + 64, (0, 0));
        }
    }
    /// Value of e under the model; call begin_eval first for a new model.
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        if let Node::K(_, v) = n {
            return v;
        }
        if self.ecache.len() <= e as usize {
            let k = self.nodes.len();
            self.ecache.resize(k + k / 2 + 64, (0, 0));
        }
        let c = self.ecache[e as usize];
        if c.0 == self.stamp {
            return c.1;
        }
        let w = self.w(e);
        let v = self.eval_node(n, w, model);
        self.ecache[e as usize] = (self.stamp, v);
        v
    }
    fn eval_node(&mut self, n: Node, w: u8, model: &[u8]) -> u128 {
        match n {
            Node::K(_, v) => v,
            Node::Sym(i) => model.get(i as usize).copied().unwrap_or(0) as u128,
            Node::Bin(op, a, b) => {
                let x = self.eval(a, model);
                let y = self.eval(b, model);
                fold(op, w, x, y)
            }
            Node::Not(a) => !self.eval(a, model) & mask(w),
            Node::Ite(c, a, b) => {
                if self.eval(c, model) == 1 {
                    self.eval(a, model)
                } else {
                    self.eval(b, model)
                }
            }
            Node::Eq(a, b) => (self.eval(a, model) == self.eval(b, model)) as u128,
            Node::Ult(a, b) => (self.eval(a, model) < self.eval(b, model)) as u128,
            Node::Slt(a, b) => {
                let wa = self.w(a);
                let x = self.eval(a, model);
                let y = self.eval(b, model);
                (sx(wa, x) < sx(wa, y)) as u128
            }
            Node::Ext(_, lo, a) => (self.eval(a, model) >> lo) & mask(w),
            Node::Cat(h, l) => {
                let s = self.w(l);
                let x = self.eval(h, model);
                let y = self.eval(l, model);
                (x << s) | y
            }
            Node::Sext(_, a) => {
                let wa = self.w(a);
                sx(wa, self.eval(a, model)) as u128 & mask(w)
            }
            Node::Tab { obj, bytes, off, .. } => {
                let o = self.eval(off, model) as u64;
                self.tab_get(obj, bytes, o)
            }
        }
    }
}
fn fn1_bytes(w: u8) -> u8 {
    ((w + 7) / 8).next_power_of_two()
}

/// Random differential test of the simplifier against raw evaluation.
pub fn selftest(rounds: u32, seed: u64) -> u64 {
    let mut s = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let mut rnd = move |n: u64| {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        (s >> 11) % n
    };
    let mut checks = 0;
    for _ in 0..rounds {
        let tb: Vec<u8> = (0..64).map(|i| (i * 37 + 11) as u8).collect();
        let mut a = Arena::new(vec![Arc::new(tb.clone())]);
        let mut r = Arena::new(vec![Arc::new(tb)]);
        r.raw = true;
        // pairs (simplified, raw)
        let mut pool: Vec<(E, E)> = Vec::new();
        for i in 0..3 {
            pool.push((a.sym(i), r.sym(i)));
        }
        for _ in 0..60 {
            let (x, rx) = pool[rnd(pool.len() as u64) as usize];
            let w = a.w(x);
            let pick = |a: &mut Arena, r: &mut Arena, rnd: &mut dyn FnMut(u64) -> u64| -> (E, E) {
                if rnd(3) == 0 {
                    let v = match rnd(4) {
                        0 => rnd(4) as u128,
                        1 => mask(w) - rnd(3) as u128,
                        2 => 1u128 << rnd(w as u64),
                        _ => rnd(u64::MAX) as u128,
                    };
                    return (a.k(w, v), r.k(w, v));
                }
                let c: Vec<_> = pool.iter().filter(|p| a.w(p.0) == w).cloned().collect();
                c[rnd(c.len() as u64) as usize]
            };
            let new = match rnd(12) {
                0..=4 => {
                    let op = [
                        Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr,
                        Op::AShr, Op::SDiv, Op::SRem,
                    ][rnd(13) as usize];
                    let (y, ry) = pick(&mut a, &mut r, &mut rnd);
                    if rnd(2) == 0 {
                        (a.bin(op, x, y), r.bin(op, rx, ry))
                    } else {
                        (a.bin(op, y, x), r.bin(op, ry, rx))
                    }
                }
                5 => (a.not(x), r.not(rx)),
                6 => {
                    let (y, ry) = pick(&mut a, &mut r, &mut rnd);
                    match rnd(3) {
                        0 => (a.eq(x, y), r.eq(rx, ry)),
                        1 => (a.ult(x, y), r.ult(rx, ry)),
                        _ => (a.slt(x, y), r.slt(rx, ry)),
                    }
                }
                7 => {
                    let hi = rnd(w as u64) as u8;
                    let lo = rnd(hi as u64 + 1) as u8;
                    (a.ext(hi, lo, x), r.ext(hi, lo, rx))
                }
                8 => {
                    let (y, ry) = pool[rnd(pool.len() as u64) as usize];
                    if w + a.w(y) <= 64 {
                        (a.cat(x, y), r.cat(rx, ry))
                    } else {
                        continue;
                    }
                }
                9 => {
                    let n = w + rnd(9) as u8;
                    if n > 64 {
                        continue;
                    }
                    if rnd(2) == 0 {
                        (a.zext(n, x), r.zext(n, rx))
                    } else {
                        (a.sext(n, x), r.sext(n, rx))
                    }
                }
                10 => {
                    let c: Vec<_> = pool.iter().filter(|p| a.w(p.0) == 1).cloned().collect();
                    if c.is_empty() {
                        continue;
                    }
                    let (c, rc) = c[rnd(c.len() as u64) as usize];
                    let (y, ry) = pick(&mut a, &mut r, &mut rnd);
                    (a.ite(c, x, y), r.ite(rc, rx, ry))
                }
                _ => {
                    let n = 5.min(w);
                    let o = a.ext(n - 1, 0, x);
                    let ro = r.ext(n - 1, 0, rx);
                    let o = a.zext(64, o);
                    let ro = r.zext(64, ro);
                    let b = 1 + rnd(4) as u8;
                    (a.tab(0, b, 0, 31, o), r.tab(0, b, 0, 31, ro))
                }
            };
            assert_eq!(a.w(new.0), r.w(new.1));
            pool.push(new);
        }
        for _ in 0..6 {
            let m: Vec<u8> = (0..3).map(|_| match rnd(3) { 0 => rnd(3) as u8, 1 => 255 - rnd(3) as u8, _ => rnd(256) as u8 }).collect();
            a.begin_eval();
            r.begin_eval();
            for &(x, y) in &pool {
                let (p, q) = (a.eval(x, &m), r.eval(y, &m));
                let (l, h) = a.rng(x);
                if p != q || p < l || p > h {
                    eprintln!("selftest mismatch: {:?} simplified {:x} raw {:x} range {:x}..{:x}", r.nodes[y as usize], p, q, l, h);
                    std::process::exit(4);
                }
                checks += 1;
            }
        }
    }
    checks
}

fn mix(h: u128, v: u128) -> u128 {
    let x = (h ^ v).wrapping_mul(0x2360_ED05_1FC6_5DA4_4385_DF64_9FCC_F645);
    let x = x ^ (x >> 67);
    x.wrapping_mul(0xDA94_2042_E4DD_58B5_9E37_79B9_7F4A_7C15).rotate_left(41) ^ h.rotate_left(17)
}
