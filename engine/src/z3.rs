//! Translation of expressions to Z3 and satisfiability queries.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, mc: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_uint) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", m);
    std::process::exit(5);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Res {
    Sat(Vec<(u16, u8)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    cache: FxMap<E, P>,
    boolsort: P,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max: f64,
    pub timeout_ms: u32,
    pub dump: Option<String>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let boolsort = Z3_mk_bool_sort(c);
            Solver {
                c,
                cache: Default::default(),
                boolsort,
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max: 0.0,
                timeout_ms,
                dump: None,
            }
        }
    }
    /// Forget all translated terms (for use with a new arena).
    pub fn reset(&mut self) {
        unsafe {
            Z3_del_context(self.c);
            let cfg = Z3_mk_config();
            self.c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.c, Some(on_error));
            self.boolsort = Z3_mk_bool_sort(self.c);
            self.cache.clear();
        }
    }
    fn bv(&self, w: u8) -> P {
        unsafe { Z3_mk_bv_sort(self.c, w as c_uint) }
    }
    fn num(&self, w: u8, v: u128) -> P {
        unsafe {
            if w == 1 {
                return if v == 1 { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) };
            }
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, self.bv(w))
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), self.bv(w))
            }
        }
    }
    fn as_bv(&self, w: u8, p: P) -> P {
        if w == 1 {
            unsafe { Z3_mk_ite(self.c, p, Z3_mk_unsigned_int64(self.c, 1, self.bv(1)), Z3_mk_unsigned_int64(self.c, 0, self.bv(1))) }
        } else {
            p
        }
    }
    fn as_bool(&self, w: u8, p: P) -> P {
        if w == 1 {
            unsafe { Z3_mk_eq(self.c, p, Z3_mk_unsigned_int64(self.c, 1, self.bv(1))) }
        } else {
            p
        }
    }

    pub fn tr(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.cache.get(&e) {
            return p;
        }
        // Explicit stack: expressions can be deep.
        let mut st = vec![(e, false)];
        while let Some((x, ready)) = st.pop() {
            if self.cache.contains_key(&x) {
                continue;
            }
            if !ready {
                st.push((x, true));
                match a.nodes[x as usize] {
                    Node::K(..) | Node::Sym(_) => {}
                    Node::Bin(_, p, q) | Node::Eq(p, q) | Node::Ult(p, q) | Node::Slt(p, q) | Node::Cat(p, q) => {
                        st.push((p, false));
                        st.push((q, false));
                    }
                    Node::Not(p) | Node::Ext(_, _, p) | Node::Sext(_, p) => st.push((p, false)),
                    Node::Ite(p, q, r) => {
                        st.push((p, false));
                        st.push((q, false));
                        st.push((r, false));
                    }
                    Node::Tab { off, .. } => st.push((off, false)),
                }
                continue;
            }
            let t = self.tr1(a, x);
            self.cache.insert(x, t);
        }
        self.cache[&e]
    }

    fn tr1(&mut self, a: &Arena, e: E) -> P {
        let c = self.c;
        let w = a.w(e);
        let g = |s: &Self, x: E| s.cache[&x];
        unsafe {
            match a.nodes[e as usize] {
                Node::K(w, v) => self.num(w, v),
                Node::Sym(i) => {
                    let s = CString::new(format!("b{}", i)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.bv(8))
                }
                Node::Bin(op, x, y) => {
                    let (p, q) = (g(self, x), g(self, y));
                    if w == 1 {
                        let v = [p, q];
                        match op {
                            Op::And => return Z3_mk_and(c, 2, v.as_ptr()),
                            Op::Or => return Z3_mk_or(c, 2, v.as_ptr()),
                            Op::Xor | Op::Add | Op::Sub => return Z3_mk_xor(c, p, q),
                            Op::Mul => return Z3_mk_and(c, 2, v.as_ptr()),
                            _ => {}
                        }
                    }
                    let (p, q) = (self.as_bv(w, p), self.as_bv(w, q));
                    let r = match op {
                        Op::Add => Z3_mk_bvadd(c, p, q),
                        Op::Sub => Z3_mk_bvsub(c, p, q),
                        Op::Mul => Z3_mk_bvmul(c, p, q),
                        Op::UDiv => Z3_mk_bvudiv(c, p, q),
                        Op::URem => Z3_mk_bvurem(c, p, q),
                        Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                        Op::SRem => Z3_mk_bvsrem(c, p, q),
                        Op::And => Z3_mk_bvand(c, p, q),
                        Op::Or => Z3_mk_bvor(c, p, q),
                        Op::Xor => Z3_mk_bvxor(c, p, q),
                        Op::Shl => Z3_mk_bvshl(c, p, q),
                        Op::LShr => Z3_mk_bvlshr(c, p, q),
                        Op::AShr => Z3_mk_bvashr(c, p, q),
                    };
                    self.as_bool(w, r)
                }
                Node::Not(x) => {
                    let p = g(self, x);
                    if w == 1 {
                        Z3_mk_not(c, p)
                    } else {
                        Z3_mk_bvnot(c, p)
                    }
                }
                Node::Ite(x, y, z) => Z3_mk_ite(c, g(self, x), g(self, y), g(self, z)),
                Node::Eq(x, y) => Z3_mk_eq(c, g(self, x), g(self, y)),
                Node::Ult(x, y) => {
                    let wx = a.w(x);
                    Z3_mk_bvult(c, self.as_bv(wx, g(self, x)), self.as_bv(wx, g(self, y)))
                }
                Node::Slt(x, y) => {
                    let wx = a.w(x);
                    Z3_mk_bvslt(c, self.as_bv(wx, g(self, x)), self.as_bv(wx, g(self, y)))
                }
                Node::Ext(h, l, x) => {
                    let r = Z3_mk_extract(c, h as c_uint, l as c_uint, g(self, x));
                    self.as_bool(w, r)
                }
                Node::Cat(h, l) => {
                    let p = self.as_bv(a.w(h), g(self, h));
                    let q = self.as_bv(a.w(l), g(self, l));
                    Z3_mk_concat(c, p, q)
                }
                Node::Sext(wn, x) => {
                    let wx = a.w(x);
                    Z3_mk_sign_ext(c, (wn - wx) as c_uint, self.as_bv(wx, g(self, x)))
                }
                Node::Tab { obj, bytes, lo, hi, off } => {
                    let p = g(self, off);
                    let n = bits(hi as u128).max(1);
                    let z = a.tz(off).min(6).min(n - 1);
                    let step = 1u64 << z;
                    let mut bit = Vec::new();
                    for i in z..n {
                        let b = Z3_mk_extract(c, i as c_uint, i as c_uint, p);
                        bit.push(self.as_bool(1, b));
                    }
                    let ww = bytes * 8;
                    let mut vals: FxMap<u128, P> = Default::default();
                    // Level by level, don't-care entries are None.
                    let mut cur: Vec<Option<P>> = Vec::with_capacity(1 << (n - z));
                    let mut o = 0u64;
                    for _ in 0..(1u64 << (n - z)) {
                        if o + step - 1 < lo as u64 && o < lo as u64 || o > hi as u64 {
                            cur.push(None);
                        } else {
                            let v = a.tab_get(obj, bytes, o);
                            let t = match vals.get(&v) {
                                Some(&t) => t,
                                None => {
                                    let t = self.num(ww, v);
                                    vals.insert(v, t);
                                    t
                                }
                            };
                            cur.push(Some(t));
                        }
                        o += step;
                    }
                    for b in bit {
                        let mut nx = Vec::with_capacity(cur.len() / 2);
                        for q in cur.chunks(2) {
                            nx.push(match (q[0], q[1]) {
                                (None, x) | (x, None) => x,
                                (Some(x), Some(y)) if x == y => Some(x),
                                (Some(x), Some(y)) => Some(Z3_mk_ite(c, b, y, x)),
                            });
                        }
                        cur = nx;
                    }
                    cur[0].unwrap_or_else(|| self.num(ww, 0))
                }
            }
        }
    }

    fn run(&mut self, a: &Arena, cs: &[P], syms: u128, logic: bool, timeout: u32) -> Res {
        let c = self.c;
        unsafe {
            let s = if logic {
                let n = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, n.as_ptr()))
            } else {
                Z3_mk_simple_solver(c)
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout);
            Z3_solver_set_params(c, s, p);
            Z3_params_dec_ref(c, p);
            for &t in cs {
                Z3_solver_assert(c, s, t);
            }
            let r = Z3_solver_check(c, s);
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = Vec::new();
                    let mut i = 0u16;
                    let mut z = syms;
                    while z != 0 {
                        if z & 1 == 1 {
                            let id = a.sym_id(i);
                            let t = self.cache.get(&id).copied();
                            if let Some(t) = t {
                                let mut v: P = std::ptr::null_mut();
                                let mut u = 0u64;
                                if !Z3_model_eval(c, m, t, true, &mut v) || !Z3_get_numeral_uint64(c, v, &mut u) {
                                    eprintln!("z3 model evaluation failed");
                                    std::process::exit(5);
                                }
                                out.push((i, u as u8));
                            }
                        }
                        z >>= 1;
                        i += 1;
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => {
                    if let Some(d) = &self.dump {
                        let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                        let _ = std::fs::write(format!("{}.{}.smt2", d, self.queries), t);
                    }
                    Res::Unknown
                }
            };
            Z3_solver_dec_ref(c, s);
            res
        }
    }

    pub fn check(&mut self, a: &Arena, cons: &[E], syms: u128) -> Res {
        let t0 = Instant::now();
        let cs: Vec<P> = cons.iter().map(|&e| self.tr(a, e)).collect();
        let first = self.timeout_ms.min(1500);
        let mut r = self.run(a, &cs, syms, false, first);
        if let Res::Unknown = r {
            r = self.run(a, &cs, syms, true, self.timeout_ms);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max {
            self.max = dt;
        }
        self.queries += 1;
        match r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        r
    }
    /// Conditions and the negation of one of several others: `neg` holds negations.
    pub fn check_or(&mut self, a: &Arena, cons: &[E], neg: &[E]) -> Res {
        let mut cs: Vec<P> = cons.iter().map(|&e| self.tr(a, e)).collect();
        let ns: Vec<P> = neg.iter().map(|&e| self.tr(a, e)).collect();
        cs.push(unsafe { Z3_mk_or(self.c, ns.len() as c_uint, ns.as_ptr()) });
        self.finish(a, &cs, false)
    }
    /// The value listed for p, which must be one of the (sorted) listed numbers.
    fn tree(&self, p: P, at: &[(u64, P)]) -> P {
        if at.iter().all(|x| x.1 == at[0].1) {
            return at[0].1;
        }
        let d = at[0].0 ^ at[at.len() - 1].0;
        let bit = 63 - d.leading_zeros();
        let k = at.partition_point(|x| x.0 >> bit & 1 == 0);
        let (l, h) = (self.tree(p, &at[..k]), self.tree(p, &at[k..]));
        unsafe {
            let b = Z3_mk_eq(self.c, Z3_mk_extract(self.c, bit, bit, p), Z3_mk_unsigned_int64(self.c, 1, self.bv(1)));
            Z3_mk_ite(self.c, b, h, l)
        }
    }
    /// Can one of these hold?
    pub fn check_any(&mut self, a: &Arena, obs: &[Ob]) -> Res {
        let mut ns: Vec<P> = Vec::new();
        for o in obs {
            let p = match o {
                Ob::Is(e) => self.tr(a, *e),
                Ob::Tab { off, end, bytes, at, e } => {
                    let (p, e) = (self.tr(a, *off), self.tr(a, *e));
                    unsafe {
                        let inside = Z3_mk_bvult(self.c, p, self.num(64, *end as u128));
                        if at.is_empty() {
                            inside
                        } else {
                            let v: Vec<(u64, P)> = at.iter().map(|&(o, v)| (o, self.num(bytes * 8, v))).collect();
                            let w: Vec<(u64, P)> = at.iter().map(|&(o, _)| (o, self.num(64, o as u128))).collect();
                            let t = self.tree(p, &v);
                            let u = self.tree(p, &w);
                            let d = [Z3_mk_not(self.c, Z3_mk_eq(self.c, p, u)), Z3_mk_not(self.c, Z3_mk_eq(self.c, t, e))];
                            let c = [inside, Z3_mk_or(self.c, 2, d.as_ptr())];
                            Z3_mk_and(self.c, 2, c.as_ptr())
                        }
                    }
                }
            };
            ns.push(p);
        }
        let cs = [unsafe { Z3_mk_or(self.c, ns.len() as c_uint, ns.as_ptr()) }];
        self.finish(a, &cs, true)
    }
    fn finish(&mut self, a: &Arena, cs: &[P], logic: bool) -> Res {
        let t0 = Instant::now();
        let first = self.timeout_ms.min(1500);
        let mut r = self.run(a, cs, 0, logic, first);
        if let Res::Unknown = r {
            r = self.run(a, cs, 0, true, self.timeout_ms);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max {
            self.max = dt;
        }
        self.queries += 1;
        match r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        r
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}
