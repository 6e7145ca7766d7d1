//! Path-exploring symbolic executor for the parsed LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Solver};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    K(u64),
    X(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
struct Obj {
    bytes: Arc<Vec<u8>>,
    /// 0 marks a concrete byte.
    sym: Option<Vec<E>>,
    ro: bool,
}

#[derive(Clone)]
struct Frame {
    f: u32,
    blk: u32,
    prev: u32,
    pc: u32,
    regs: Vec<Val>,
    ret: Option<u32>,
    membase: usize,
}

struct Path {
    frames: Vec<Frame>,
    mem: Vec<Rc<Obj>>,
    gover: FxMap<u32, Rc<Obj>>,
    model: Vec<u8>,
    nsyms: u16,
    cons: Rc<Vec<E>>,
    facts: Rc<FxMap<E, E>>,
    ranges: Rc<FxMap<E, (u128, u128)>>,
    dom: Rc<Vec<[u64; 4]>>,
    fsyms: u128,
    multi: u128,
    memo: FxMap<E, E>,
    rmemo: FxMap<E, (u128, u128)>,
    obs: Rc<Vec<Val>>,
    steps: u64,
    /// conditions taken to hold without asking the solver, confirmed when the path ends
    decided: Rc<Vec<E>>,
}

impl Clone for Path {
    fn clone(&self) -> Self {
        Path {
            frames: self.frames.clone(),
            mem: self.mem.clone(),
            gover: self.gover.clone(),
            model: self.model.clone(),
            nsyms: self.nsyms,
            cons: self.cons.clone(),
            facts: self.facts.clone(),
            ranges: self.ranges.clone(),
            dom: self.dom.clone(),
            fsyms: self.fsyms,
            multi: self.multi,
            memo: Default::default(),
            rmemo: Default::default(),
            obs: self.obs.clone(),
            decided: self.decided.clone(),
            steps: self.steps,
        }
    }
}

#[derive(Debug, Clone)]
pub enum Stop {
    /// Path finished or was assumed away.
    Done(bool),
    /// Something bad is reachable on this path (kind, detail).
    Bad(String, String),
    /// The engine cannot continue.
    Err(String),
}
type R<X> = Result<X, Stop>;
fn err<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Err(s.into()))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ext {
    Nop,
    First,
    Zero,
    SymBytes,
    SymAssume,
    SymAssert,
    SymCover,
    SymObserve,
    SymSplit,
    SymPanic,
    Memcpy,
    Memset,
    Memcmp(bool),
    UMin,
    UMax,
    SMin,
    SMax,
    UsubSat,
    UaddSat,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Abs,
    Ucmp,
    Scmp,
    RedAdd,
    RedOr,
    RedAnd,
    RedXor,
    Movmsk,
    Trap,
    Unknown,
}

fn ext_kind(n: &str) -> Ext {
    let p = |s: &str| n.starts_with(s);
    match n {
        "sym_bytes" => Ext::SymBytes,
        "sym_assume" => Ext::SymAssume,
        "sym_assert" => Ext::SymAssert,
        "sym_cover" => Ext::SymCover,
        "sym_observe" => Ext::SymObserve,
        "sym_split" => Ext::SymSplit,
        "sym_panic" => Ext::SymPanic,
        "memcpy" | "memmove" => Ext::Memcpy,
        "memset" => Ext::Memset,
        "bcmp" => Ext::Memcmp(false),
        "memcmp" => Ext::Memcmp(true),
        _ if p("llvm.lifetime.") || p("llvm.assume") || p("llvm.experimental.noalias") || p("llvm.dbg") || p("llvm.donothing") || p("llvm.sideeffect") || p("llvm.prefetch") => Ext::Nop,
        _ if p("llvm.expect") || p("llvm.launder") || p("llvm.strip") || p("llvm.ssa.copy") => Ext::First,
        _ if p("llvm.is.constant") => Ext::Zero,
        _ if p("llvm.memcpy") || p("llvm.memmove") => Ext::Memcpy,
        _ if p("llvm.memset") => Ext::Memset,
        _ if p("llvm.umin.") => Ext::UMin,
        _ if p("llvm.umax.") => Ext::UMax,
        _ if p("llvm.smin.") => Ext::SMin,
        _ if p("llvm.smax.") => Ext::SMax,
        _ if p("llvm.usub.sat") => Ext::UsubSat,
        _ if p("llvm.uadd.sat") => Ext::UaddSat,
        _ if p("llvm.uadd.with") => Ext::UaddO,
        _ if p("llvm.usub.with") => Ext::UsubO,
        _ if p("llvm.umul.with") => Ext::UmulO,
        _ if p("llvm.sadd.with") => Ext::SaddO,
        _ if p("llvm.ssub.with") => Ext::SsubO,
        _ if p("llvm.ctlz") => Ext::Ctlz,
        _ if p("llvm.cttz") => Ext::Cttz,
        _ if p("llvm.ctpop") => Ext::Ctpop,
        _ if p("llvm.bswap") => Ext::Bswap,
        _ if p("llvm.bitreverse") => Ext::Bitrev,
        _ if p("llvm.fshl") => Ext::Fshl,
        _ if p("llvm.fshr") => Ext::Fshr,
        _ if p("llvm.abs") => Ext::Abs,
        _ if p("llvm.ucmp") => Ext::Ucmp,
        _ if p("llvm.scmp") => Ext::Scmp,
        _ if p("llvm.vector.reduce.add") => Ext::RedAdd,
        _ if p("llvm.vector.reduce.or") => Ext::RedOr,
        _ if p("llvm.vector.reduce.and") => Ext::RedAnd,
        _ if p("llvm.vector.reduce.xor") => Ext::RedXor,
        _ if p("llvm.x86.sse2.pmovmskb") => Ext::Movmsk,
        _ if p("llvm.trap") || p("llvm.ubsantrap") || n == "abort" => Ext::Trap,
        _ => Ext::Unknown,
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub dropped: u64,
    pub steps: u64,
    pub forks: u64,
    pub branches: u64,
    pub asserts: u64,
    pub asserts_simplified: u64,
    pub asserts_solver: u64,
    pub fast: u64,
    pub cached: u64,
    pub queries: u64,
    pub qsat: u64,
    pub qunsat: u64,
    pub qunknown: u64,
    pub qtime: f64,
    pub qmax: f64,
    /// conditions decided without the solver, and how many of them were then confirmed by it
    pub decided: u64,
    pub confirmed: u64,
    pub trivial: u64,
    pub unconfirmed: u64,
    /// functions of one byte replaced by their table, and how many the solver found equal
    pub rewrites: u64,
    pub rewrites_distinct: u64,
    pub rewrites_checked: u64,
    pub cqueries: u64,
    pub ctime: f64,
}

pub struct Violation {
    pub kind: String,
    pub detail: String,
    pub input: Vec<u8>,
    pub obs: Vec<u64>,
    pub stack: Vec<String>,
}

pub struct JobResult {
    pub status: String,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub covers: HashMap<u64, (u64, Vec<u8>)>,
    pub samples: Vec<(Vec<u8>, Vec<u64>)>,
    pub wall: f64,
    pub assert_ids: HashMap<u64, u64>,
}

impl JobResult {
    pub fn failed(e: &str) -> JobResult {
        JobResult {
            status: e.into(),
            stats: Stats::default(),
            violations: Vec::new(),
            covers: HashMap::new(),
            samples: Vec::new(),
            wall: 0.0,
            assert_ids: HashMap::new(),
        }
    }
}

pub struct Limits {
    pub job_secs: f64,
    pub steps: u64,
    pub paths: u64,
    pub samples: usize,
    /// confirm decisions made without the solver
    pub confirm: bool,
    /// confirm one in so many rewrites into tables (0: none); those that decide a condition are always confirmed
    pub rewrites: u64,
    /// rewrites already confirmed, shared by all threads
    pub audited: Option<std::sync::Arc<std::sync::Mutex<std::collections::HashSet<u128, std::hash::BuildHasherDefault<crate::expr::Fx>>>>>,
}

pub struct Exec<'m> {
    m: &'m Module,
    a: Arena,
    z: Solver,
    exts: Vec<Ext>,
    globs: Vec<Rc<Obj>>,
    /// table index by global id
    tabs: FxMap<u32, u32>,
    nglob: u64,
    nfun: u64,
    work: Vec<Path>,
    qcache: FxMap<(u64, u64), Vec<(Vec<E>, Option<Vec<(u16, u8)>>)>>,
    truth: FxMap<E, [u64; 4]>,
    pub stats: Stats,
    pub funcs_hit: Vec<u64>,
    violations: Vec<Violation>,
    covers: HashMap<u64, (u64, Vec<u8>)>,
    assert_ids: HashMap<u64, u64>,
    rng: u64,
    confirm: bool,
    sub: FxMap<E, E>,
    subfor: Vec<(u16, u8)>,
}

fn m64(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn sx64(w: u8, v: u64) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, timeout_ms: u32, dump: Option<String>) -> Self {
        let mut z = Solver::new(timeout_ms);
        z.dump = dump;
        Exec {
            m,
            a: Arena::new(Vec::new()),
            z,
            exts: m.exts.iter().map(|n| ext_kind(n)).collect(),
            globs: m
                .globals
                .iter()
                .map(|g| Rc::new(Obj { bytes: g.bytes.clone(), sym: None, ro: g.constant }))
                .collect(),
            tabs: Default::default(),
            nglob: m.globals.len() as u64,
            nfun: m.funcs.len() as u64,
            work: Vec::new(),
            qcache: Default::default(),
            truth: Default::default(),
            stats: Stats::default(),
            funcs_hit: vec![0; m.funcs.len()],
            violations: Vec::new(),
            covers: HashMap::new(),
            assert_ids: HashMap::new(),
            rng: 1,
            confirm: false,
            sub: Default::default(),
            subfor: Vec::new(),
        }
    }
    fn base_id(&self) -> u64 {
        1 + self.nglob + self.nfun + self.m.exts.len() as u64
    }

    pub fn run_job(&mut self, harness: &str, args: &[u64], lim: &Limits, seed: u64) -> JobResult {
        let t0 = Instant::now();
        self.a = Arena::new(Vec::new());
        self.tabs.clear();
        let (q0, zt) = (self.z.queries, self.z.time);
        let (s0, u0, k0) = (self.z.sat, self.z.unsat, self.z.unknown);
        self.z.max = 0.0;
        self.z.reset();
        self.qcache.clear();
        self.truth.clear();
        self.stats = Stats::default();
        self.violations.clear();
        self.covers.clear();
        self.assert_ids.clear();
        self.work.clear();
        self.rng = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        self.confirm = lim.confirm;
        self.a.audit_on = lim.confirm;
        self.a.audited = lim.audited.clone();
        self.a.audit_every = lim.rewrites;
        self.sub.clear();
        self.subfor.clear();
        let mut status = String::new();
        let mut samples: Vec<(Vec<u8>, Vec<u64>)> = Vec::new();
        match self.m.fnidx.get(harness) {
            None => status = format!("error: no harness {}", harness),
            Some(&fi) => {
                let f = &self.m.funcs[fi as usize];
                if f.params.len() != args.len() {
                    status = format!("error: {} takes {} arguments", harness, f.params.len());
                } else {
                    let mut regs = vec![Val::K(0); f.nregs as usize];
                    for (p, v) in f.params.iter().zip(args) {
                        regs[*p as usize] = Val::K(*v);
                    }
                    self.funcs_hit[fi as usize] += 1;
                    self.work.push(Path {
                        frames: vec![Frame { f: fi, blk: 0, prev: 0, pc: 0, regs, ret: None, membase: 0 }],
                        mem: Vec::new(),
                        gover: Default::default(),
                        model: Vec::new(),
                        nsyms: 0,
                        cons: Default::default(),
                        facts: Default::default(),
                        ranges: Default::default(),
                        dom: Default::default(),
                        fsyms: 0,
                        multi: 0,
                        memo: Default::default(),
                        rmemo: Default::default(),
                        obs: Default::default(),
                        steps: 0,
                        decided: Default::default(),
                    });
                }
            }
        }
        let mut seen = 0u64;
        while status.is_empty() {
            let mut p = match self.work.pop() {
                Some(p) => p,
                None => break,
            };
            let st0 = p.steps;
            let r = self.run_path(&mut p, lim, &t0);
            self.stats.steps += p.steps - st0;
            if self.confirm {
                if let Err(Stop::Err(e)) = self.confirm_path(&p).and_then(|_| self.confirm_rewrites(false)) {
                    status = format!("error: {} at {}", e, self.stack(&p).join(" < "));
                }
            }
            match r {
                Ok(()) | Err(Stop::Done(true)) => {
                    self.stats.paths += 1;
                    seen += 1;
                    let take = if samples.len() < lim.samples {
                        Some(samples.len())
                    } else {
                        self.rng ^= self.rng << 13;
                        self.rng ^= self.rng >> 7;
                        self.rng ^= self.rng << 17;
                        let k = (self.rng >> 11) % seen;
                        if (k as usize) < samples.len() {
                            Some(k as usize)
                        } else {
                            None
                        }
                    };
                    if let Some(k) = take {
                        let s = self.sample(&p);
                        if k == samples.len() {
                            samples.push(s)
                        } else {
                            samples[k] = s
                        }
                    }
                }
                Err(Stop::Done(false)) => self.stats.dropped += 1,
                Err(Stop::Bad(k, d)) => {
                    self.stats.paths += 1;
                    self.violation(&p, k, d, None);
                }
                Err(Stop::Err(e)) => {
                    status = format!("error: {} at {}", e, self.stack(&p).join(" < "));
                }
            }
            if self.violations.len() >= 4 {
                status = "violation".into();
            }
            if self.stats.paths > lim.paths {
                status = "error: path limit".into();
            }
            if t0.elapsed().as_secs_f64() > lim.job_secs {
                status = "error: job time limit".into();
            }
        }
        if status.is_empty() {
            status = if self.violations.is_empty() { "ok".into() } else { "violation".into() };
        }
        self.work.clear();
        if self.confirm {
            if let Err(Stop::Err(e)) = self.confirm_rewrites(true) {
                status = format!("error: {}", e);
            }
        }
        self.stats.rewrites = self.a.rewrites;
        self.stats.rewrites_distinct = self.a.rewrites_distinct;
        self.stats.queries = self.z.queries - q0;
        self.stats.qsat = self.z.sat - s0;
        self.stats.qunsat = self.z.unsat - u0;
        self.stats.qunknown = self.z.unknown - k0;
        self.stats.qtime = self.z.time - zt;
        self.stats.qmax = self.z.max;
        JobResult {
            status,
            stats: self.stats.clone(),
            violations: std::mem::take(&mut self.violations),
            covers: std::mem::take(&mut self.covers),
            samples,
            wall: t0.elapsed().as_secs_f64(),
            assert_ids: std::mem::take(&mut self.assert_ids),
        }
    }

    fn sample(&mut self, p: &Path) -> (Vec<u8>, Vec<u64>) {
        let obs = self.obs_of(p, &p.model);
        (p.model[..p.nsyms as usize].to_vec(), obs)
    }
    fn obs_of(&mut self, p: &Path, model: &[u8]) -> Vec<u64> {
        self.a.begin_eval();
        let mut o = Vec::new();
        for v in p.obs.iter() {
            o.push(match v {
                Val::K(k) => *k,
                Val::X(e) => self.a.eval(*e, model) as u64,
                _ => 0,
            });
        }
        o
    }
    fn stack(&self, p: &Path) -> Vec<String> {
        p.frames.iter().rev().map(|f| self.m.funcs[f.f as usize].name.clone()).collect()
    }
    fn violation(&mut self, p: &Path, kind: String, detail: String, model: Option<Vec<u8>>) {
        let mut m = model.unwrap_or_else(|| p.model.clone());
        m.truncate(p.nsyms as usize);
        let obs = self.obs_of(p, &m);
        let stack = self.stack(p);
        // One witness per kind, detail and innermost code function.
        if self.violations.iter().any(|v| v.kind == kind && v.detail == detail && v.stack == stack) {
            return;
        }
        self.violations.push(Violation { kind, detail, input: m, obs, stack });
    }

    // ---- values

    fn e(&mut self, w: u8, v: &Val) -> E {
        match v {
            Val::K(k) => self.a.k(w, *k as u128),
            Val::X(e) => {
                debug_assert_eq!(self.a.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
    fn v(&self, e: E) -> Val {
        match self.a.nodes[e as usize] {
            Node::K(w, v) if w <= 64 => Val::K(v as u64),
            _ => Val::X(e),
        }
    }
    fn cst(&mut self, c: &Cst) -> Val {
        match c {
            Cst::I(w, v) => {
                if *w <= 64 {
                    Val::K(*v as u64)
                } else {
                    Val::X(self.a.k(*w as u8, *v))
                }
            }
            Cst::Agg(x) => {
                let v: Vec<Val> = x.iter().map(|c| self.cst(c)).collect();
                Val::A(Rc::new(v))
            }
        }
    }
    #[inline]
    fn get(&mut self, p: &Path, o: &Opnd) -> Val {
        match o {
            Opnd::K(k) => Val::K(*k),
            Opnd::R(r) => p.frames.last().unwrap().regs[*r as usize].clone(),
            Opnd::C(c) => self.cst(c),
        }
    }
    #[inline]
    fn set(p: &mut Path, r: u32, v: Val) {
        p.frames.last_mut().unwrap().regs[r as usize] = v;
    }

    // ---- path facts

    fn psimp(&mut self, p: &mut Path, e: E) -> E {
        if self.a.is_k(e).is_some() || self.a.syms(e) & p.fsyms == 0 {
            return e;
        }
        if let Some(&r) = p.facts.get(&e) {
            return r;
        }
        if let Some(&r) = p.memo.get(&e) {
            return r;
        }
        let n = self.a.nodes[e as usize];
        let r = match n {
            Node::K(..) | Node::Sym(_) => e,
            _ if self.a.is_fn1(e) => e,
            Node::Bin(op, x, y) => {
                let x = self.psimp(p, x);
                let y = self.psimp(p, y);
                self.a.bin(op, x, y)
            }
            Node::Not(x) => {
                let x = self.psimp(p, x);
                self.a.not(x)
            }
            Node::Ite(c, x, y) => {
                let c = self.psimp(p, c);
                match self.a.is_k(c) {
                    Some(1) => self.psimp(p, x),
                    Some(_) => self.psimp(p, y),
                    None => {
                        let x = self.psimp(p, x);
                        let y = self.psimp(p, y);
                        self.a.ite(c, x, y)
                    }
                }
            }
            Node::Eq(x, y) => {
                let x = self.psimp(p, x);
                let y = self.psimp(p, y);
                let r = self.a.eq(x, y);
                self.rsimp(p, r)
            }
            Node::Ult(x, y) => {
                let x = self.psimp(p, x);
                let y = self.psimp(p, y);
                let r = self.a.ult(x, y);
                self.rsimp(p, r)
            }
            Node::Slt(x, y) => {
                let x = self.psimp(p, x);
                let y = self.psimp(p, y);
                let r = self.a.slt(x, y);
                self.rsimp(p, r)
            }
            Node::Ext(h, l, x) => {
                let x = self.psimp(p, x);
                self.a.ext(h, l, x)
            }
            Node::Cat(x, y) => {
                let x = self.psimp(p, x);
                let y = self.psimp(p, y);
                self.a.cat(x, y)
            }
            Node::Sext(w, x) => {
                let x = self.psimp(p, x);
                self.a.sext(w, x)
            }
            Node::Tab { obj, bytes, lo, hi, off } => {
                let off = self.psimp(p, off);
                let (l, h) = self.prange(p, off);
                self.a.tab(obj, bytes, lo.max(l as u32), hi.min(h as u32), off)
            }
        };
        let r = match p.facts.get(&r) {
            Some(&k) => k,
            None => r,
        };
        let r = if self.a.is_k(r).is_none() && (self.a.w(r) > 1 || self.a.is_fn1(r)) {
            let (l, h) = self.prange(p, r);
            if l == h {
                let w = self.a.w(r);
                self.a.k(w, l)
            } else {
                r
            }
        } else {
            r
        };
        p.memo.insert(e, r);
        r
    }
    /// Decide a comparison by path ranges.
    fn rsimp(&mut self, p: &mut Path, e: E) -> E {
        if let Some(&k) = p.facts.get(&e) {
            return k;
        }
        match self.a.nodes[e as usize] {
            Node::Eq(x, y) => {
                let (al, ah) = self.prange(p, x);
                let (bl, bh) = self.prange(p, y);
                if ah < bl || bh < al {
                    return self.a.fls();
                }
                if al == ah && bl == bh {
                    return self.a.tru();
                }
            }
            Node::Ult(x, y) => {
                let (al, ah) = self.prange(p, x);
                let (bl, bh) = self.prange(p, y);
                if ah < bl {
                    return self.a.tru();
                }
                if al >= bh {
                    return self.a.fls();
                }
            }
            Node::Not(x) => {
                let x = self.rsimp(p, x);
                return self.a.not(x);
            }
            _ => {}
        }
        e
    }
    fn prange(&mut self, p: &mut Path, e: E) -> (u128, u128) {
        let g = self.a.rng(e);
        if g.0 == g.1 || self.a.syms(e) & p.fsyms == 0 {
            return g;
        }
        if let Some(&k) = p.facts.get(&e) {
            return self.a.rng(k);
        }
        if let Some(&r) = p.rmemo.get(&e) {
            return r;
        }
        let n = self.a.nodes[e as usize];
        let w = self.a.w(e);
        let r = match n {
            _ if self.a.is_fn1(e) => {
                // exact: over the values the byte can still take
                let i = self.a.syms(e).trailing_zeros() as u16;
                let (obj, bytes) = match n {
                    Node::Tab { obj, bytes, .. } => (obj, bytes),
                    Node::Ext(_, _, t) => match self.a.nodes[t as usize] {
                        Node::Tab { obj, bytes, .. } => (obj, bytes),
                        _ => unreachable!(),
                    },
                    _ => unreachable!(),
                };
                let d = p.dom[i as usize];
                let (mut l, mut h) = (u128::MAX, 0);
                for v in 0..256usize {
                    if d[v / 64] >> (v % 64) & 1 == 1 {
                        let x = self.a.tab_get(obj, bytes, (v * bytes as usize) as u64);
                        l = l.min(x);
                        h = h.max(x);
                    }
                }
                if l <= h {
                    (l, h)
                } else {
                    g
                }
            }
            Node::Bin(_, x, y) | Node::Cat(x, y) => {
                let rx = self.prange(p, x);
                let ry = self.prange(p, y);
                self.a.op_range(&n, w, |z| if z == x { rx } else { ry })
            }
            Node::Not(x) | Node::Ext(_, _, x) | Node::Sext(_, x) => {
                let rx = self.prange(p, x);
                self.a.op_range(&n, w, |_| rx)
            }
            Node::Ite(c, x, y) => {
                let rc = self.prange(p, c);
                if rc.0 == 1 {
                    self.prange(p, x)
                } else if rc.1 == 0 {
                    self.prange(p, y)
                } else {
                    let rx = self.prange(p, x);
                    let ry = self.prange(p, y);
                    (rx.0.min(ry.0), rx.1.max(ry.1))
                }
            }
            Node::Tab { obj, bytes, lo, hi, off } => {
                let (l, h) = self.prange(p, off);
                let s = self.a.tz(off).min(6);
                let (l, h) = ((l as u32).max(lo), (h.min(u32::MAX as u128) as u32).min(hi));
                if l <= h {
                    self.a.tab_range(obj, bytes, l, h, s)
                } else {
                    g
                }
            }
            Node::Ult(x, y) => {
                let (al, ah) = self.prange(p, x);
                let (bl, bh) = self.prange(p, y);
                if ah < bl {
                    (1, 1)
                } else if al >= bh {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            _ => g,
        };
        let mut r = (r.0.max(g.0), r.1.min(g.1));
        if let Some(&(l, h)) = p.ranges.get(&e) {
            r = (r.0.max(l), r.1.min(h));
        }
        if r.0 > r.1 {
            // Infeasible path remnant; keep something well-formed.
            r = g;
        }
        p.rmemo.insert(e, r);
        r
    }

    fn truth(&mut self, c: E) -> [u64; 4] {
        if let Some(&t) = self.truth.get(&c) {
            return t;
        }
        let i = self.a.syms(c).trailing_zeros() as usize;
        let mut m = vec![0u8; i + 1];
        let mut t = [0u64; 4];
        for v in 0..256usize {
            m[i] = v as u8;
            self.a.begin_eval();
            if self.a.eval(c, &m) == 1 {
                t[v / 64] |= 1 << (v % 64);
            }
        }
        self.truth.insert(c, t);
        t
    }

    fn set_range(&mut self, p: &mut Path, x: E, l: u128, h: u128, depth: u32) {
        if l > h || self.a.is_k(x).is_some() {
            return;
        }
        let w = self.a.w(x);
        let m = mask(w);
        let (gl, gh) = self.a.rng(x);
        let old = p.ranges.get(&x).copied().unwrap_or((gl, gh));
        let nw = (old.0.max(l), old.1.min(h));
        if nw.0 > nw.1 || nw == old {
            return;
        }
        Rc::make_mut(&mut p.ranges).insert(x, nw);
        if nw.0 == nw.1 {
            let k = self.a.k(w, nw.0);
            Rc::make_mut(&mut p.facts).insert(x, k);
        }
        if depth > 4 {
            return;
        }
        match self.a.nodes[x as usize] {
            Node::Bin(Op::Add, y, c) => {
                if let Some(c) = self.a.is_k(c) {
                    let (a, b) = (nw.0.wrapping_sub(c) & m, nw.1.wrapping_sub(c) & m);
                    if a <= b {
                        self.set_range(p, y, a, b, depth + 1);
                    } else {
                        // Wraps: the part allowed by the global range may be one side.
                        let (yl, yh) = self.a.rng(y);
                        if yl > b {
                            self.set_range(p, y, a, m, depth + 1);
                        } else if yh < a {
                            self.set_range(p, y, 0, b, depth + 1);
                        }
                    }
                }
            }
            Node::Cat(hi, lo) => {
                let s = self.a.w(lo);
                self.set_range(p, hi, nw.0 >> s, nw.1 >> s, depth + 1);
                if nw.0 >> s == nw.1 >> s {
                    self.set_range(p, lo, nw.0 & mask(s), nw.1 & mask(s), depth + 1);
                }
            }
            _ => {}
        }
    }

    /// c was found to have this value on this path without asking the solver.
    fn decide(&mut self, p: &mut Path, c: E, v: bool) {
        if !self.confirm || self.a.is_k(c).is_some() {
            return;
        }
        let c = if v { c } else { self.a.not(c) };
        Rc::make_mut(&mut p.decided).push(c);
    }
    fn decide_eq(&mut self, p: &mut Path, a: E, b: E) {
        if !self.confirm || a == b {
            return;
        }
        let c = self.a.eq(a, b);
        self.decide(p, c, true);
    }
    fn subst(&mut self, e: E) -> E {
        if self.a.is_k(e).is_some() {
            return e;
        }
        if let Some(&r) = self.sub.get(&e) {
            return r;
        }
        let s = self.a.syms(e);
        if !self.subfor.iter().any(|&(i, _)| s >> i & 1 == 1) {
            return e;
        }
        let r = match self.a.nodes[e as usize] {
            Node::K(..) => e,
            Node::Sym(i) => match self.subfor.iter().find(|x| x.0 == i) {
                Some(&(_, v)) => self.a.k(8, v as u128),
                None => e,
            },
            Node::Bin(op, x, y) => {
                let (x, y) = (self.subst(x), self.subst(y));
                self.a.bin(op, x, y)
            }
            Node::Not(x) => {
                let x = self.subst(x);
                self.a.not(x)
            }
            Node::Ite(c, x, y) => {
                let (c, x, y) = (self.subst(c), self.subst(x), self.subst(y));
                self.a.ite(c, x, y)
            }
            Node::Eq(x, y) => {
                let (x, y) = (self.subst(x), self.subst(y));
                self.a.eq(x, y)
            }
            Node::Ult(x, y) => {
                let (x, y) = (self.subst(x), self.subst(y));
                self.a.ult(x, y)
            }
            Node::Slt(x, y) => {
                let (x, y) = (self.subst(x), self.subst(y));
                self.a.slt(x, y)
            }
            Node::Ext(h, l, x) => {
                let x = self.subst(x);
                self.a.ext(h, l, x)
            }
            Node::Cat(x, y) => {
                let (x, y) = (self.subst(x), self.subst(y));
                self.a.cat(x, y)
            }
            Node::Sext(w, x) => {
                let x = self.subst(x);
                self.a.sext(w, x)
            }
            Node::Tab { obj, bytes, lo, hi, off } => {
                let off = self.subst(off);
                self.a.tab(obj, bytes, lo, hi, off)
            }
        };
        self.sub.insert(e, r);
        r
    }
    /// The path condition must imply everything decided on the path without the solver.
    fn confirm_path(&mut self, p: &Path) -> R<()> {
        if p.decided.is_empty() {
            return Ok(());
        }
        let mut d: Vec<E> = p.decided.iter().copied().collect();
        d.sort_unstable();
        d.dedup();
        self.stats.decided += d.len() as u64;
        // Bytes known to have one value are replaced by it; that they have it is confirmed too.
        let mut k: Vec<(u16, u8)> = Vec::new();
        for (i, t) in p.dom.iter().enumerate() {
            if t.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                let v = (0..256).find(|&v| t[v / 64] >> (v % 64) & 1 == 1).unwrap();
                k.push((i as u16, v as u8));
            }
        }
        if k != self.subfor {
            self.sub.clear();
            self.subfor = k.clone();
        }
        let mut neg: Vec<E> = Vec::new();
        for &c in &d {
            let c = self.subst(c);
            match self.a.is_k(c) {
                Some(1) => self.stats.trivial += 1,
                _ => neg.push(self.a.not(c)),
            }
        }
        for (i, v) in k {
            let s = self.a.sym(i);
            let v = self.a.k(8, v as u128);
            let c = self.a.eq(s, v);
            if !p.cons.contains(&c) {
                neg.push(self.a.not(c));
            }
        }
        neg.sort_unstable();
        neg.dedup();
        if neg.is_empty() {
            return Ok(());
        }
        let n = neg.len() as u64;
        let mut q: Vec<E> = p.cons.iter().copied().collect();
        q.sort_unstable();
        q.dedup();
        let t0 = Instant::now();
        let r = self.z.check_or(&self.a, &q, &neg);
        self.stats.cqueries += 1;
        self.stats.ctime += t0.elapsed().as_secs_f64();
        match r {
            Res::Unsat => self.stats.confirmed += n,
            Res::Unknown => self.stats.unconfirmed += n,
            Res::Sat(_) => return err("the solver does not confirm a decision"),
        }
        Ok(())
    }
    /// Rewrites into tables must be equal to what they replaced.
    fn confirm_rewrites(&mut self, all: bool) -> R<()> {
        while self.a.audit.len() >= 24 || (all && !self.a.audit.is_empty()) {
            let k = self.a.audit.len().min(24);
            let v: Vec<(Node, E)> = self.a.audit.drain(..k).collect();
            let mut ne = Vec::new();
            for (n, e) in v {
                ne.push(self.a.differs(n, e));
            }
            let t0 = Instant::now();
            let r = self.z.check_any(&self.a, &ne);
            self.stats.cqueries += 1;
            self.stats.ctime += t0.elapsed().as_secs_f64();
            match r {
                Res::Unsat => self.stats.rewrites_checked += ne.len() as u64,
                Res::Unknown => {}
                Res::Sat(_) => return err("the solver does not confirm a rewrite"),
            }
        }
        Ok(())
    }

    /// Record that c holds on this path.
    fn learn(&mut self, p: &mut Path, c: E) {
        p.memo.clear();
        p.rmemo.clear();
        self.learn1(p, c, 0);
        p.memo.clear();
        p.rmemo.clear();
    }
    fn learn1(&mut self, p: &mut Path, c: E, depth: u32) {
        if self.a.is_k(c).is_some() || depth > 24 {
            return;
        }
        let s = self.a.syms(c);
        p.fsyms |= s;
        if s.count_ones() == 1 {
            let i = s.trailing_zeros() as usize;
            let t = self.truth(c);
            let d = &mut Rc::make_mut(&mut p.dom)[i];
            let mut n = *d;
            for k in 0..4 {
                n[k] &= t[k];
            }
            if n != *d {
                *d = n;
                let lo = (0..256).find(|&v| n[v / 64] >> (v % 64) & 1 == 1);
                let hi = (0..256).rev().find(|&v| n[v / 64] >> (v % 64) & 1 == 1);
                if let (Some(lo), Some(hi)) = (lo, hi) {
                    let x = self.a.sym(i as u16);
                    self.set_range(p, x, lo as u128, hi as u128, 0);
                }
            }
        }
        let (t, f) = (self.a.tru(), self.a.fls());
        match self.a.nodes[c as usize] {
            Node::Bin(Op::And, x, y) => {
                Rc::make_mut(&mut p.facts).insert(c, t);
                self.learn1(p, x, depth + 1);
                self.learn1(p, y, depth + 1);
                return;
            }
            Node::Not(n) => {
                Rc::make_mut(&mut p.facts).insert(n, f);
                match self.a.nodes[n as usize] {
                    Node::Bin(Op::Or, x, y) => {
                        let x = self.a.not(x);
                        let y = self.a.not(y);
                        self.learn1(p, x, depth + 1);
                        self.learn1(p, y, depth + 1);
                    }
                    Node::Ult(x, y) => {
                        // y <= x
                        let (_, xh) = self.prange(p, x);
                        let (yl, _) = self.prange(p, y);
                        let (_, mx) = self.a.rng(x);
                        self.set_range(p, x, yl, mx, 0);
                        self.set_range(p, y, 0, xh, 0);
                    }
                    Node::Eq(x, y) => {
                        if let Some(k) = self.a.is_k(y) {
                            let (l, h) = self.prange(p, x);
                            if k == l && l < h {
                                self.set_range(p, x, l + 1, h, 0);
                            } else if k == h && l < h {
                                self.set_range(p, x, l, h - 1, 0);
                            }
                        }
                    }
                    _ => {}
                }
            }
            Node::Ult(x, y) => {
                Rc::make_mut(&mut p.facts).insert(c, t);
                let (xl, _) = self.prange(p, x);
                let (_, yh) = self.prange(p, y);
                if yh > 0 {
                    self.set_range(p, x, 0, yh - 1, 0);
                }
                let m = mask(self.a.w(y));
                if xl < m {
                    self.set_range(p, y, xl + 1, m, 0);
                }
            }
            Node::Eq(x, y) => {
                Rc::make_mut(&mut p.facts).insert(c, t);
                if let Some(k) = self.a.is_k(y) {
                    Rc::make_mut(&mut p.facts).insert(x, y);
                    self.set_range(p, x, k, k, 0);
                } else {
                    let (xl, xh) = self.prange(p, x);
                    let (yl, yh) = self.prange(p, y);
                    self.set_range(p, x, yl, yh, 0);
                    self.set_range(p, y, xl, xh, 0);
                }
            }
            _ => {
                Rc::make_mut(&mut p.facts).insert(c, t);
            }
        }
    }
    /// Add c to the path condition.
    fn assume(&mut self, p: &mut Path, c: E) {
        let s = self.a.syms(c);
        if s.count_ones() > 1 {
            p.multi |= s;
        }
        Rc::make_mut(&mut p.cons).push(c);
        self.learn(p, c);
    }

    /// Is c satisfiable together with the path condition? Returns a full model.
    fn feasible(&mut self, p: &Path, c: E, solver: bool) -> R<Option<Vec<u8>>> {
        let s = self.a.syms(c);
        if s.count_ones() == 1 && !solver {
            let i = s.trailing_zeros() as usize;
            let t = self.truth(c);
            let d = p.dom[i];
            let mut any = None;
            for v in 0..256usize {
                if (d[v / 64] & t[v / 64]) >> (v % 64) & 1 == 1 {
                    any = Some(v);
                    break;
                }
            }
            match any {
                None => {
                    self.stats.fast += 1;
                    return Ok(None);
                }
                Some(v) if p.multi >> i & 1 == 0 => {
                    self.stats.fast += 1;
                    let mut m = p.model.clone();
                    m[i] = v as u8;
                    return Ok(Some(m));
                }
                _ => {}
            }
        }
        // Independent slice of the path condition.
        let mut sl = s;
        let mut used = vec![false; p.cons.len()];
        loop {
            let mut ch = false;
            for (k, &x) in p.cons.iter().enumerate() {
                if !used[k] && self.a.syms(x) & sl != 0 {
                    used[k] = true;
                    ch = true;
                    sl |= self.a.syms(x);
                }
            }
            if !ch {
                break;
            }
        }
        let mut q: Vec<E> = p.cons.iter().enumerate().filter(|(k, _)| used[*k]).map(|(_, &x)| x).collect();
        q.sort_unstable();
        q.dedup();
        q.push(c);
        let mut h1 = 0u64;
        let mut h2 = 0u64;
        for &x in &q {
            h1 = (h1.rotate_left(7) ^ x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            h2 = (h2.rotate_left(11) ^ x as u64).wrapping_mul(0xC2B2_AE3D_27D4_EB4F);
        }
        if let Some(v) = self.qcache.get(&(h1, h2)) {
            for (k, r) in v {
                if *k == q {
                    self.stats.cached += 1;
                    return Ok(r.as_ref().map(|r| {
                        let mut m = p.model.clone();
                        for &(i, b) in r {
                            m[i as usize] = b;
                        }
                        m
                    }));
                }
            }
        }
        let r = self.z.check(&self.a, &q, sl);
        let r = match r {
            Res::Sat(v) => Some(v),
            Res::Unsat => None,
            Res::Unknown => return err("solver gave no answer"),
        };
        let out = r.as_ref().map(|r| {
            let mut m = p.model.clone();
            for &(i, b) in r {
                m[i as usize] = b;
            }
            m
        });
        if let Some(m) = &out {
            // The evaluator and the solver must agree.
            self.a.begin_eval();
            for &x in &q {
                if self.a.eval(x, m) != 1 {
                    return err("solver model does not satisfy the query");
                }
            }
        }
        self.qcache.entry((h1, h2)).or_default().push((q, r));
        Ok(out)
    }

    /// Value of condition c on this path; forks if both are possible.
    fn branch(&mut self, p: &mut Path, c: E) -> R<bool> {
        let c0 = c;
        let c = self.psimp(p, c);
        if let Some(k) = self.a.is_k(c) {
            self.decide(p, c0, k == 1);
            return Ok(k == 1);
        }
        self.stats.branches += 1;
        self.a.begin_eval();
        let v = self.a.eval(c, &p.model) == 1;
        let n = self.a.not(c);
        let (yes, no) = if v { (c, n) } else { (n, c) };
        let f0 = self.stats.fast;
        match self.feasible(p, no, false)? {
            None => {
                if self.stats.fast != f0 {
                    self.decide(p, yes, true);
                }
                self.learn(p, yes);
            }
            Some(m) => {
                let mut q = p.clone();
                q.model = m;
                self.assume(&mut q, no);
                self.work.push(q);
                self.stats.forks += 1;
                self.assume(p, yes);
            }
        }
        Ok(v)
    }

    /// Make e concrete, forking over its possible values.
    fn concretize(&mut self, p: &mut Path, e: E) -> R<u128> {
        loop {
            let e0 = e;
            let e = self.psimp(p, e);
            if let Some(k) = self.a.is_k(e) {
                self.decide_eq(p, e0, e);
                return Ok(k);
            }
            if let Node::Ite(c, _, _) = self.a.nodes[e as usize] {
                self.branch(p, c)?;
                continue;
            }
            self.a.begin_eval();
            let v = self.a.eval(e, &p.model);
            let w = self.a.w(e);
            let k = self.a.k(w, v);
            let c = self.a.eq(e, k);
            if self.branch(p, c)? {
                // Make sure the value itself is known from now on.
                if !p.facts.contains_key(&e) {
                    Rc::make_mut(&mut p.facts).insert(e, k);
                    p.fsyms |= self.a.syms(e);
                    p.memo.clear();
                    p.rmemo.clear();
                }
                return Ok(v);
            }
        }
    }
    fn kval(&mut self, p: &mut Path, w: u8, v: &Val) -> R<u64> {
        match v {
            Val::K(k) => Ok(*k),
            Val::X(e) => {
                let _ = w;
                Ok(self.concretize(p, *e)? as u64)
            }
            Val::A(_) => err("aggregate as integer"),
        }
    }
    /// Concrete value of an operand; a register is updated in place.
    fn kop(&mut self, p: &mut Path, w: u8, o: &Opnd) -> R<u64> {
        let v = self.get(p, o);
        if let Val::K(k) = v {
            return Ok(k);
        }
        let k = self.kval(p, w, &v)?;
        if let Opnd::R(r) = o {
            Self::set(p, *r, Val::K(k));
        }
        Ok(k)
    }

    // ---- memory

    fn obj(&self, p: &Path, id: u64) -> Option<Rc<Obj>> {
        if id == 0 {
            return None;
        }
        if id <= self.nglob {
            if let Some(o) = p.gover.get(&(id as u32)) {
                return Some(o.clone());
            }
            return Some(self.globs[id as usize - 1].clone());
        }
        let b = self.base_id();
        if id >= b {
            return p.mem.get((id - b) as usize).cloned();
        }
        None
    }
    fn obj_ref<'x>(&'x self, p: &'x Path, id: u64) -> Option<&'x Rc<Obj>> {
        if id == 0 {
            return None;
        }
        if id <= self.nglob {
            if let Some(o) = p.gover.get(&(id as u32)) {
                return Some(o);
            }
            return Some(&self.globs[id as usize - 1]);
        }
        let b = self.base_id();
        if id >= b {
            return p.mem.get((id - b) as usize);
        }
        None
    }
    fn check(&self, p: &Path, a: u64, n: u64, write: bool) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        match self.obj_ref(p, a >> 32) {
            None => Err(Stop::Bad("memory".into(), format!("access to invalid address {:#x}", a))),
            Some(o) => {
                if (a & 0xffff_ffff) + n > o.bytes.len() as u64 {
                    return Err(Stop::Bad(
                        "memory".into(),
                        format!("{} out of bounds", if write { "write" } else { "read" }),
                    ));
                }
                if write && o.ro {
                    return Err(Stop::Bad("memory".into(), "write to constant".into()));
                }
                Ok(())
            }
        }
    }
    fn obj_mut<'x>(&self, p: &'x mut Path, id: u64) -> &'x mut Obj {
        if id <= self.nglob {
            let g = &self.globs;
            let o = p.gover.entry(id as u32).or_insert_with(|| g[id as usize - 1].clone());
            return Rc::make_mut(o);
        }
        let b = self.base_id();
        Rc::make_mut(&mut p.mem[(id - b) as usize])
    }
    fn load_c(&mut self, p: &Path, a: u64, w: u8, n: u8) -> R<Val> {
        self.check(p, a, n as u64, false)?;
        let off = (a & 0xffff_ffff) as usize;
        let n = n as usize;
        let mut es: [E; 16] = [0; 16];
        let mut anysym = false;
        let mut k = 0u128;
        {
            let o = self.obj_ref(p, a >> 32).unwrap();
            if let Some(s) = &o.sym {
                for i in 0..n {
                    es[i] = s[off + i];
                    anysym |= es[i] != 0;
                }
            }
            for i in 0..n {
                k |= (o.bytes[off + i] as u128) << (8 * i);
            }
        }
        if !anysym {
            if w <= 64 {
                return Ok(Val::K(k as u64 & m64(w)));
            }
            return Ok(Val::X(self.a.k(w, k)));
        }
        let mut r: Option<E> = None;
        for i in (0..n).rev() {
            let b = if es[i] != 0 { es[i] } else { self.a.k(8, k >> (8 * i)) };
            r = Some(match r {
                None => b,
                Some(h) => self.a.cat(h, b),
            });
        }
        let mut r = r.unwrap();
        if (w as usize) < n * 8 {
            r = self.a.ext(w - 1, 0, r);
        }
        Ok(self.v(r))
    }
    fn store_c(&mut self, p: &mut Path, a: u64, w: u8, n: u8, v: &Val) -> R<()> {
        self.check(p, a, n as u64, true)?;
        let off = (a & 0xffff_ffff) as usize;
        let n = n as usize;
        match v {
            Val::K(k) => {
                let o = self.obj_mut(p, a >> 32);
                let b = Arc::make_mut(&mut o.bytes);
                for i in 0..n {
                    b[off + i] = if i < 8 { (*k >> (8 * i)) as u8 } else { 0 };
                }
                if let Some(s) = &mut o.sym {
                    for i in 0..n {
                        s[off + i] = 0;
                    }
                }
            }
            Val::X(e) => {
                let mut e = *e;
                let _ = w;
                if self.a.w(e) as usize != n * 8 {
                    e = self.a.zext((n * 8) as u8, e);
                }
                let mut es = Vec::with_capacity(n);
                for i in 0..n {
                    es.push(self.a.ext((8 * i + 7) as u8, (8 * i) as u8, e));
                }
                let ks: Vec<Option<u128>> = es.iter().map(|&x| self.a.is_k(x)).collect();
                let o = self.obj_mut(p, a >> 32);
                let len = o.bytes.len();
                let b = Arc::make_mut(&mut o.bytes);
                let s = o.sym.get_or_insert_with(|| vec![0; len]);
                for i in 0..n {
                    match ks[i] {
                        Some(k) => {
                            b[off + i] = k as u8;
                            s[off + i] = 0;
                        }
                        None => s[off + i] = es[i],
                    }
                }
            }
            Val::A(_) => return err("store of aggregate"),
        }
        Ok(())
    }
    fn load(&mut self, p: &mut Path, ptr: &Opnd, w: u8, n: u8) -> R<Val> {
        let v = self.get(p, ptr);
        let e = match v {
            Val::K(a) => return self.load_c(p, a, w, n),
            Val::X(e) => {
                let e1 = self.psimp(p, e);
                self.decide_eq(p, e, e1);
                e1
            }
            _ => return err("pointer"),
        };
        if let Some(k) = self.a.is_k(e) {
            if let Opnd::R(r) = ptr {
                Self::set(p, *r, Val::K(k as u64));
            }
            return self.load_c(p, k as u64, w, n);
        }
        // Pick the object from the current model.
        self.a.begin_eval();
        let a = self.a.eval(e, &p.model) as u64;
        let id = a >> 32;
        let o = match self.obj(p, id) {
            Some(o) => o,
            None => return Err(Stop::Bad("memory".into(), format!("access to invalid address {:#x}", a))),
        };
        let size = o.bytes.len() as u64;
        if size < n as u64 || (a & 0xffff_ffff) > size - n as u64 {
            return Err(Stop::Bad("memory".into(), "read out of bounds".into()));
        }
        let base = id << 32;
        let (lo, hi) = self.prange(p, e);
        let (mn, mx) = (base as u128, (base + size - n as u64) as u128);
        if lo < mn || hi > mx {
            // Can the address leave the object?
            let kl = self.a.k(64, mn);
            let kh = self.a.k(64, mx);
            let c1 = self.a.ult(e, kl);
            let c2 = self.a.ult(kh, e);
            let out = self.a.or1(c1, c2);
            if self.branch(p, out)? {
                // The model is inside, so this cannot be the current side.
                return err("address outside its object");
            }
        }
        let e0 = e;
        let e = self.psimp(p, e);
        self.decide_eq(p, e0, e);
        if let Some(k) = self.a.is_k(e) {
            return self.load_c(p, k as u64, w, n);
        }
        let (lo, hi) = self.prange(p, e);
        let kb = self.a.k(64, base as u128);
        let off = self.a.bin(Op::Sub, e, kb);
        if self.confirm {
            let kl = self.a.k(64, lo.max(mn));
            let kh = self.a.k(64, hi.min(mx));
            let c1 = self.a.ult(e, kl);
            let c2 = self.a.ult(kh, e);
            self.decide(p, c1, false);
            self.decide(p, c2, false);
        }
        let (lo, hi) = ((lo.max(mn) - mn) as u32, (hi.min(mx) - mn) as u32);
        if id <= self.nglob && o.ro {
            let t = match self.tabs.get(&(id as u32)) {
                Some(&t) => t,
                None => {
                    let t = self.a.tables.len() as u32;
                    self.a.tables.push(o.bytes.clone());
                    self.tabs.insert(id as u32, t);
                    t
                }
            };
            let mut r = self.a.tab(t, n, lo, hi, off);
            if (w as u16) < n as u16 * 8 {
                r = self.a.ext(w - 1, 0, r);
            }
            return Ok(self.v(r));
        }
        let st = 1u32 << self.a.tz(off).min(6);
        let lo = (lo + st - 1) / st * st;
        if lo <= hi && (hi - lo) / st < 48 {
            // Read-over-write as a chain.
            let mut k = lo;
            let mut r: Option<E> = None;
            while k <= hi {
                let x = self.load_c(p, base + k as u64, w, n)?;
                let x = self.e(w, &x);
                r = Some(match r {
                    None => x,
                    Some(y) => {
                        let kk = self.a.k(64, k as u128);
                        let c = self.a.eq(off, kk);
                        self.a.ite(c, x, y)
                    }
                });
                k += st;
            }
            return Ok(self.v(r.unwrap()));
        }
        let k = self.concretize(p, e)? as u64;
        self.load_c(p, k, w, n)
    }
    fn load_ty(&mut self, p: &Path, a: u64, t: &Ty) -> R<Val> {
        if t.is_scalar() {
            let w = t.bits() as u8;
            return self.load_c(p, a, w, (w as u16).div_ceil(8) as u8);
        }
        let n = match t {
            Ty::Struct(v, _) => v.len(),
            Ty::Array(n, _) => *n as usize,
            Ty::Vec(n, e) => {
                if **e == Ty::Int(1) {
                    return err("load of bit vector");
                }
                *n as usize
            }
            _ => return err("load type"),
        };
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let (o, et) = t.offset(i);
            v.push(self.load_ty(p, a + o, &et)?);
        }
        Ok(Val::A(Rc::new(v)))
    }
    fn store_ty(&mut self, p: &mut Path, a: u64, t: &Ty, v: &Val) -> R<()> {
        if t.is_scalar() {
            let w = t.bits() as u8;
            return self.store_c(p, a, w, (w as u16).div_ceil(8) as u8, v);
        }
        match v {
            Val::A(x) => {
                for (i, y) in x.iter().enumerate() {
                    let (o, et) = t.offset(i);
                    self.store_ty(p, a + o, &et, y)?;
                }
                Ok(())
            }
            _ => err("store type"),
        }
    }
    /// Bytes of memory as values (concrete address).
    fn read_bytes(&mut self, p: &Path, a: u64, n: u64) -> R<Vec<Val>> {
        self.check(p, a, n, false)?;
        let mut v = Vec::with_capacity(n as usize);
        if n > 0 {
            let o = self.obj_ref(p, a >> 32).unwrap();
            let off = (a & 0xffff_ffff) as usize;
            for i in off..off + n as usize {
                let s = o.sym.as_ref().map(|s| s[i]).unwrap_or(0);
                v.push(if s != 0 { Val::X(s) } else { Val::K(o.bytes[i] as u64) });
            }
        }
        Ok(v)
    }
    fn copy(&mut self, p: &mut Path, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        self.check(p, s, n, false)?;
        self.check(p, d, n, true)?;
        let src = self.obj(p, s >> 32).unwrap();
        let (so, do_, n) = ((s & 0xffff_ffff) as usize, (d & 0xffff_ffff) as usize, n as usize);
        let o = self.obj_mut(p, d >> 32);
        let len = o.bytes.len();
        Arc::make_mut(&mut o.bytes)[do_..do_ + n].copy_from_slice(&src.bytes[so..so + n]);
        let srcsym = src.sym.as_ref().map(|s| &s[so..so + n]);
        let any = srcsym.map(|s| s.iter().any(|&x| x != 0)).unwrap_or(false);
        if any {
            let t = o.sym.get_or_insert_with(|| vec![0; len]);
            t[do_..do_ + n].copy_from_slice(srcsym.unwrap());
        } else if let Some(t) = &mut o.sym {
            for x in &mut t[do_..do_ + n] {
                *x = 0;
            }
        }
        Ok(())
    }

    // ---- scalar operations

    fn bin(&mut self, op: Op, w: u8, x: &Val, y: &Val) -> R<Val> {
        if let (Val::K(a), Val::K(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let r = match op {
                Op::Add => a.wrapping_add(b),
                Op::Sub => a.wrapping_sub(b),
                Op::Mul => a.wrapping_mul(b),
                Op::And => a & b,
                Op::Or => a | b,
                Op::Xor => a ^ b,
                Op::Shl => {
                    if b >= w as u64 {
                        0
                    } else {
                        a << b
                    }
                }
                Op::LShr => {
                    if b >= w as u64 {
                        0
                    } else {
                        a >> b
                    }
                }
                Op::UDiv | Op::URem | Op::SDiv | Op::SRem if b == 0 => {
                    return Err(Stop::Bad("undefined".into(), "division by zero".into()));
                }
                Op::UDiv => a / b,
                Op::URem => a % b,
                _ => fold(op, w, a as u128, b as u128) as u64,
            };
            return Ok(Val::K(r & m64(w)));
        }
        let a = self.e(w, x);
        let b = self.e(w, y);
        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && self.a.rng(b).0 == 0 {
            return err("division by a symbolic value that may be zero");
        }
        let e = self.a.bin(op, a, b);
        Ok(self.v(e))
    }
    fn cmp(&mut self, pr: Pred, w: u8, x: &Val, y: &Val) -> Val {
        if let (Val::K(a), Val::K(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (s, t) = (sx64(w, a), sx64(w, b));
            let r = match pr {
                Pred::Eq => a == b,
                Pred::Ne => a != b,
                Pred::Ult => a < b,
                Pred::Ule => a <= b,
                Pred::Ugt => a > b,
                Pred::Uge => a >= b,
                Pred::Slt => s < t,
                Pred::Sle => s <= t,
                Pred::Sgt => s > t,
                Pred::Sge => s >= t,
            };
            return Val::K(r as u64);
        }
        let a = self.e(w, x);
        let b = self.e(w, y);
        let r = match pr {
            Pred::Eq => self.a.eq(a, b),
            Pred::Ne => {
                let r = self.a.eq(a, b);
                self.a.not(r)
            }
            Pred::Ult => self.a.ult(a, b),
            Pred::Ugt => self.a.ult(b, a),
            Pred::Ule => {
                let r = self.a.ult(b, a);
                self.a.not(r)
            }
            Pred::Uge => {
                let r = self.a.ult(a, b);
                self.a.not(r)
            }
            Pred::Slt => self.a.slt(a, b),
            Pred::Sgt => self.a.slt(b, a),
            Pred::Sle => {
                let r = self.a.slt(b, a);
                self.a.not(r)
            }
            Pred::Sge => {
                let r = self.a.slt(a, b);
                self.a.not(r)
            }
        };
        self.v(r)
    }
    fn cast(&mut self, k: Cast, from: u8, to: u8, x: &Val) -> Val {
        if let (Val::K(a), true) = (x, to <= 64) {
            return Val::K(match k {
                Cast::Sext => sx64(from, *a) as u64 & m64(to),
                _ => *a & m64(to),
            });
        }
        let e = self.e(from, x);
        let r = match k {
            Cast::Zext => self.a.zext(to, e),
            Cast::Sext => self.a.sext(to, e),
            Cast::Trunc => {
                if to == from {
                    e
                } else {
                    self.a.ext(to - 1, 0, e)
                }
            }
            Cast::Bit => e,
        };
        self.v(r)
    }
    fn sel(&mut self, p: &mut Path, w: u8, c: &Val, x: &Val, y: &Val) -> Val {
        match c {
            Val::K(k) => {
                if *k != 0 {
                    x.clone()
                } else {
                    y.clone()
                }
            }
            Val::X(c) => {
                let c0 = *c;
                let c = self.psimp(p, c0);
                if let Some(k) = self.a.is_k(c) {
                    self.decide(p, c0, k == 1);
                }
                let a = self.e(w, x);
                let b = self.e(w, y);
                let r = self.a.ite(c, a, b);
                self.v(r)
            }
            Val::A(_) => panic!("select condition"),
        }
    }
    fn lanes(v: &Val) -> R<Rc<Vec<Val>>> {
        match v {
            Val::A(x) => Ok(x.clone()),
            _ => err("vector operand expected"),
        }
    }

    fn jump(&mut self, p: &mut Path, b: u32) -> R<()> {
        let (fi, cur) = {
            let f = p.frames.last().unwrap();
            (f.f, f.blk)
        };
        let blk = &self.m.funcs[fi as usize].blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut new: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
            for (d, v) in &blk.phis {
                let mut found = false;
                for (pb, o) in v {
                    if *pb == cur {
                        let x = self.get(p, o);
                        new.push((*d, x));
                        found = true;
                        break;
                    }
                }
                if !found {
                    return err("phi without a value for its predecessor");
                }
            }
            let f = p.frames.last_mut().unwrap();
            for (d, v) in new {
                f.regs[d as usize] = v;
            }
        }
        let f = p.frames.last_mut().unwrap();
        f.prev = cur;
        f.blk = b;
        f.pc = 0;
        Ok(())
    }

    fn run_path(&mut self, p: &mut Path, lim: &Limits, t0: &Instant) -> R<()> {
        let m = self.m;
        loop {
            p.steps += 1;
            if p.steps & 0xffff == 0 {
                if p.steps > lim.steps {
                    return Err(Stop::Bad("hang".into(), format!("more than {} steps", lim.steps)));
                }
                if t0.elapsed().as_secs_f64() > lim.job_secs {
                    return err("job time limit");
                }
            }
            let (fi, blk, pc) = {
                let f = p.frames.last().unwrap();
                (f.f as usize, f.blk as usize, f.pc as usize)
            };
            let ins = &m.funcs[fi].blocks[blk].ins[pc];
            match ins {
                I::Bin(op, w, d, x, y) => {
                    let a = self.get(p, x);
                    let b = self.get(p, y);
                    let r = self.bin(*op, *w, &a, &b)?;
                    Self::set(p, *d, r);
                }
                I::Cmp(pr, w, d, x, y) => {
                    let a = self.get(p, x);
                    let b = self.get(p, y);
                    let r = self.cmp(*pr, *w, &a, &b);
                    Self::set(p, *d, r);
                }
                I::Cast(k, f, t, d, x) => {
                    let a = self.get(p, x);
                    let r = self.cast(*k, *f, *t, &a);
                    Self::set(p, *d, r);
                }
                I::Copy(d, x) => {
                    let a = self.get(p, x);
                    Self::set(p, *d, a);
                }
                I::Sel(fork, w, d, c, x, y) => {
                    let mut k = self.get(p, c);
                    if *fork {
                        if let Val::X(e) = k {
                            let v = self.branch(p, e)?;
                            k = Val::K(v as u64);
                        }
                        let r = match k {
                            Val::K(0) => self.get(p, y),
                            _ => self.get(p, x),
                        };
                        Self::set(p, *d, r);
                    } else {
                        let a = self.get(p, x);
                        let b = self.get(p, y);
                        let r = self.sel(p, *w, &k, &a, &b);
                        Self::set(p, *d, r);
                    }
                }
                I::Load(w, n, d, ptr) => {
                    let r = self.load(p, ptr, *w, *n)?;
                    Self::set(p, *d, r);
                }
                I::Store(w, n, v, ptr) => {
                    let a = self.kop(p, 64, ptr)?;
                    let x = self.get(p, v);
                    self.store_c(p, a, *w, *n, &x)?;
                }
                I::Gep(d, base, k, idx) => {
                    let b = self.get(p, base);
                    let mut acc = if *k == 0 {
                        b
                    } else {
                        self.bin(Op::Add, 64, &b, &Val::K(*k))?
                    };
                    for (o, w, s) in idx {
                        let x = self.get(p, o);
                        let x = if *w < 64 {
                            self.cast(Cast::Sext, *w, 64, &x)
                        } else {
                            x
                        };
                        let x = if *s == 1 { x } else { self.bin(Op::Mul, 64, &x, &Val::K(*s))? };
                        acc = self.bin(Op::Add, 64, &acc, &x)?;
                    }
                    Self::set(p, *d, acc);
                }
                I::Alloca(d, n) => {
                    let id = self.base_id() + p.mem.len() as u64;
                    p.mem.push(Rc::new(Obj { bytes: Arc::new(vec![0; *n as usize]), sym: None, ro: false }));
                    Self::set(p, *d, Val::K(id << 32));
                }
                I::Br(b) => {
                    self.jump(p, *b)?;
                    continue;
                }
                I::CBr(c, x, y) => {
                    let v = self.get(p, c);
                    let t = match v {
                        Val::K(k) => k != 0,
                        Val::X(e) => {
                            let t = self.branch(p, e)?;
                            if let Opnd::R(r) = c {
                                Self::set(p, *r, Val::K(t as u64));
                            }
                            t
                        }
                        _ => return err("branch condition"),
                    };
                    self.jump(p, if t { *x } else { *y })?;
                    continue;
                }
                I::Switch(w, x, def, cases) => {
                    let v = self.get(p, x);
                    let v = match v {
                        Val::X(e) => {
                            let e1 = self.psimp(p, e);
                            self.decide_eq(p, e, e1);
                            self.v(e1)
                        }
                        v => v,
                    };
                    let mut target = *def;
                    match v {
                        Val::K(k) => {
                            for (c, b) in cases {
                                if *c == k {
                                    target = *b;
                                    break;
                                }
                            }
                        }
                        Val::X(e) => {
                            let mut targets: Vec<u32> = Vec::new();
                            for (_, b) in cases {
                                if !targets.contains(b) {
                                    targets.push(*b);
                                }
                            }
                            for t in targets {
                                if t == *def {
                                    continue;
                                }
                                let mut c = self.a.fls();
                                for (k, b) in cases {
                                    if *b == t {
                                        let kk = self.a.k(*w, *k as u128);
                                        let q = self.a.eq(e, kk);
                                        c = self.a.or1(c, q);
                                    }
                                }
                                if self.branch(p, c)? {
                                    target = t;
                                    break;
                                }
                            }
                        }
                        _ => return err("switch operand"),
                    }
                    self.jump(p, target)?;
                    continue;
                }
                I::Call(d, callee, args, rt) => {
                    let fidx = match callee {
                        Callee::Fn(f) => *f,
                        Callee::Ext(x) => {
                            let k = self.exts[*x as usize];
                            self.ext(p, k, *x, *d, args, rt)?;
                            p.frames.last_mut().unwrap().pc += 1;
                            continue;
                        }
                        Callee::Ind(o) => {
                            let a = self.kop(p, 64, o)?;
                            let id = a >> 32;
                            if a & 0xffff_ffff != 0 || id <= self.nglob || id > self.nglob + self.nfun {
                                if id > self.nglob + self.nfun && id < self.base_id() && a & 0xffff_ffff == 0 {
                                    let x = (id - self.nglob - self.nfun - 1) as u32;
                                    let k = self.exts[x as usize];
                                    self.ext(p, k, x, *d, args, rt)?;
                                    p.frames.last_mut().unwrap().pc += 1;
                                    continue;
                                }
                                return Err(Stop::Bad("memory".into(), "call of a non-function".into()));
                            }
                            (id - self.nglob - 1) as u32
                        }
                    };
                    if p.frames.len() > 200 {
                        return Err(Stop::Bad("hang".into(), "call depth".into()));
                    }
                    let f = &m.funcs[fidx as usize];
                    if f.params.len() > args.len() {
                        return err("argument count");
                    }
                    let mut regs = vec![Val::K(0); f.nregs as usize];
                    for (r, o) in f.params.iter().zip(args) {
                        regs[*r as usize] = self.get(p, o);
                    }
                    self.funcs_hit[fidx as usize] += 1;
                    let membase = p.mem.len();
                    p.frames.push(Frame { f: fidx, blk: 0, prev: 0, pc: 0, regs, ret: *d, membase });
                    continue;
                }
                I::Ret(o) => {
                    let v = match o {
                        None => None,
                        Some(o) => Some(self.get(p, o)),
                    };
                    let f = p.frames.pop().unwrap();
                    p.mem.truncate(f.membase);
                    match p.frames.last_mut() {
                        None => return Ok(()),
                        Some(g) => {
                            if let (Some(r), Some(v)) = (f.ret, v) {
                                g.regs[r as usize] = v;
                            }
                            g.pc += 1;
                        }
                    }
                    continue;
                }
                I::Unreachable => {
                    return Err(Stop::Bad("undefined".into(), "unreachable code reached".into()));
                }
                I::Unsup(s) => return err(s.clone()),
                _ => self.slow(p, ins)?,
            }
            p.frames.last_mut().unwrap().pc += 1;
        }
    }

    /// Aggregate and vector instructions.
    fn slow(&mut self, p: &mut Path, ins: &I) -> R<()> {
        match ins {
            I::VBin(op, w, n, d, x, y) => {
                let a = self.get(p, x);
                let b = self.get(p, y);
                let (a, b) = (Self::lanes(&a)?, Self::lanes(&b)?);
                let mut v = Vec::new();
                for i in 0..*n as usize {
                    v.push(self.bin(*op, *w, &a[i], &b[i])?);
                }
                Self::set(p, *d, Val::A(Rc::new(v)));
            }
            I::VCmp(pr, w, n, d, x, y) => {
                let a = self.get(p, x);
                let b = self.get(p, y);
                let (a, b) = (Self::lanes(&a)?, Self::lanes(&b)?);
                let mut v = Vec::new();
                for i in 0..*n as usize {
                    v.push(self.cmp(*pr, *w, &a[i], &b[i]));
                }
                Self::set(p, *d, Val::A(Rc::new(v)));
            }
            I::VCast(k, f, t, n, d, x) => {
                let a = self.get(p, x);
                let a = Self::lanes(&a)?;
                let mut v = Vec::new();
                for i in 0..*n as usize {
                    v.push(self.cast(*k, *f, *t, &a[i]));
                }
                Self::set(p, *d, Val::A(Rc::new(v)));
            }
            I::VSel(w, n, d, c, x, y) => {
                let c = self.get(p, c);
                let a = self.get(p, x);
                let b = self.get(p, y);
                let (c, a, b) = (Self::lanes(&c)?, Self::lanes(&a)?, Self::lanes(&b)?);
                let mut v = Vec::new();
                for i in 0..*n as usize {
                    v.push(self.sel(p, *w, &c[i], &a[i], &b[i]));
                }
                Self::set(p, *d, Val::A(Rc::new(v)));
            }
            I::ReCast(f, t, d, x) => {
                let a = self.get(p, x);
                let bits = self.flat(f, &a)?;
                let r = self.unflat(t, bits)?;
                Self::set(p, *d, r);
            }
            I::LoadA(t, d, ptr) => {
                let a = self.kop(p, 64, ptr)?;
                let r = self.load_ty(p, a, t)?;
                Self::set(p, *d, r);
            }
            I::StoreA(t, v, ptr) => {
                let a = self.kop(p, 64, ptr)?;
                let x = self.get(p, v);
                self.store_ty(p, a, t, &x)?;
            }
            I::ExtV(d, x, ix) => {
                let mut v = self.get(p, x);
                for &i in ix {
                    v = match v {
                        Val::A(a) => a[i as usize].clone(),
                        _ => return err("extractvalue"),
                    };
                }
                Self::set(p, *d, v);
            }
            I::InsV(d, x, y, ix) => {
                fn ins(v: &Val, y: &Val, ix: &[u32]) -> R<Val> {
                    if ix.is_empty() {
                        return Ok(y.clone());
                    }
                    match v {
                        Val::A(a) => {
                            let mut b = (**a).clone();
                            b[ix[0] as usize] = ins(&b[ix[0] as usize], y, &ix[1..])?;
                            Ok(Val::A(Rc::new(b)))
                        }
                        _ => err("insertvalue"),
                    }
                }
                let a = self.get(p, x);
                let b = self.get(p, y);
                let r = ins(&a, &b, ix)?;
                Self::set(p, *d, r);
            }
            I::ExtE(d, x, i) => {
                let k = self.kop(p, 64, i)? as usize;
                let a = self.get(p, x);
                let a = Self::lanes(&a)?;
                let v = a.get(k).cloned().unwrap_or(Val::K(0));
                Self::set(p, *d, v);
            }
            I::InsE(d, x, y, i) => {
                let k = self.kop(p, 64, i)? as usize;
                let a = self.get(p, x);
                let b = self.get(p, y);
                let mut a = (*Self::lanes(&a)?).clone();
                if k < a.len() {
                    a[k] = b;
                }
                Self::set(p, *d, Val::A(Rc::new(a)));
            }
            I::Shuf(d, x, y, n, mk) => {
                let a = self.get(p, x);
                let b = self.get(p, y);
                let (a, b) = (Self::lanes(&a)?, Self::lanes(&b)?);
                let mut v = Vec::new();
                for &k in mk {
                    v.push(if k < 0 {
                        Val::K(0)
                    } else if (k as u32) < *n {
                        a[k as usize].clone()
                    } else {
                        b[(k as u32 - n) as usize].clone()
                    });
                }
                Self::set(p, *d, Val::A(Rc::new(v)));
            }
            _ => return err("instruction"),
        }
        Ok(())
    }
    fn flat(&mut self, t: &Ty, v: &Val) -> R<E> {
        match (t, v) {
            (Ty::Vec(n, e), Val::A(a)) => {
                let w = e.bits() as u8;
                if *n * w as u32 > 128 {
                    return err("wide bitcast");
                }
                let mut r: Option<E> = None;
                for x in a.iter() {
                    let x = self.e(w, x);
                    r = Some(match r {
                        None => x,
                        Some(l) => self.a.cat(x, l),
                    });
                }
                Ok(r.unwrap())
            }
            (t, v) if t.is_scalar() => Ok(self.e(t.bits() as u8, v)),
            _ => err("bitcast"),
        }
    }
    fn unflat(&mut self, t: &Ty, e: E) -> R<Val> {
        match t {
            Ty::Vec(n, et) => {
                let w = et.bits() as u8;
                let mut v = Vec::new();
                for i in 0..*n as u16 {
                    let x = self.a.ext((i * w as u16 + w as u16 - 1) as u8, (i * w as u16) as u8, e);
                    v.push(self.v(x));
                }
                Ok(Val::A(Rc::new(v)))
            }
            t if t.is_scalar() => Ok(self.v(e)),
            _ => err("bitcast"),
        }
    }

    fn ext(&mut self, p: &mut Path, k: Ext, xi: u32, d: Option<u32>, args: &[Opnd], rt: &Ty) -> R<()> {
        let w = rt.bits() as u8;
        let mut ret: Option<Val> = None;
        match k {
            Ext::Nop => {}
            Ext::First => ret = Some(self.get(p, &args[0])),
            Ext::Zero => ret = Some(Val::K(0)),
            Ext::SymBytes => {
                let a = self.kop(p, 64, &args[0])?;
                let n = self.kop(p, 64, &args[1])?;
                self.check(p, a, n, true)?;
                for i in 0..n {
                    let s = p.nsyms;
                    p.nsyms += 1;
                    if s >= 128 {
                        return err("more than 128 symbolic bytes");
                    }
                    p.model.push(0);
                    Rc::make_mut(&mut p.dom).push([u64::MAX; 4]);
                    let e = self.a.sym(s);
                    self.store_c(p, a + i, 8, 1, &Val::X(e))?;
                }
            }
            Ext::SymAssume => {
                let v = self.get(p, &args[0]);
                match v {
                    Val::K(0) => return Err(Stop::Done(false)),
                    Val::K(_) => {}
                    Val::X(e) => {
                        let c = self.psimp(p, e);
                        if let Some(k) = self.a.is_k(c) {
                            self.decide(p, e, k == 1);
                        }
                        match self.a.is_k(c) {
                            Some(0) => return Err(Stop::Done(false)),
                            Some(_) => {}
                            None => {
                                self.a.begin_eval();
                                if self.a.eval(c, &p.model) != 1 {
                                    let f0 = self.stats.fast;
                                    match self.feasible(p, c, false)? {
                                        None => {
                                            if self.stats.fast != f0 {
                                                self.decide(p, c, false);
                                            }
                                            return Err(Stop::Done(false));
                                        }
                                        Some(m) => p.model = m,
                                    }
                                }
                                self.assume(p, c);
                            }
                        }
                    }
                    _ => return err("assume"),
                }
            }
            Ext::SymAssert => {
                let id = self.kop(p, 32, &args[1])?;
                self.stats.asserts += 1;
                *self.assert_ids.entry(id).or_insert(0) += 1;
                let v = self.get(p, &args[0]);
                match v {
                    Val::K(0) => return Err(Stop::Bad("assert".into(), id.to_string())),
                    Val::K(_) => self.stats.asserts_simplified += 1,
                    Val::X(e) => {
                        let c = self.psimp(p, e);
                        match self.a.is_k(c) {
                            Some(0) => return Err(Stop::Bad("assert".into(), id.to_string())),
                            Some(_) => {
                                self.decide(p, e, true);
                                self.stats.asserts_simplified += 1
                            }
                            None => {
                                let n = self.a.not(c);
                                match self.feasible(p, n, true)? {
                                    None => {
                                        self.stats.asserts_solver += 1;
                                        self.learn(p, c);
                                    }
                                    Some(m) => {
                                        self.violation(p, "assert".into(), id.to_string(), Some(m));
                                        self.a.begin_eval();
                                        if self.a.eval(c, &p.model) != 1 {
                                            match self.feasible(p, c, true)? {
                                                None => return Err(Stop::Done(true)),
                                                Some(m) => p.model = m,
                                            }
                                        }
                                        self.assume(p, c);
                                    }
                                }
                            }
                        }
                    }
                    _ => return err("assert"),
                }
            }
            Ext::SymCover => {
                let id = self.kop(p, 32, &args[0])?;
                let e = self.covers.entry(id).or_insert_with(|| (0, Vec::new()));
                if e.0 == 0 {
                    e.1 = p.model.clone();
                }
                e.0 += 1;
            }
            Ext::SymObserve => {
                let v = self.get(p, &args[0]);
                Rc::make_mut(&mut p.obs).push(v);
            }
            Ext::SymSplit => {
                let v = self.get(p, &args[0]);
                let k = self.kval(p, 64, &v)?;
                ret = Some(Val::K(k));
            }
            Ext::SymPanic => return Err(Stop::Bad("panic".into(), String::new())),
            Ext::Trap => return Err(Stop::Bad("panic".into(), "trap".into())),
            Ext::Memcpy => {
                let n = self.kop(p, 64, &args[2])?;
                let a = self.kop(p, 64, &args[0])?;
                let b = self.kop(p, 64, &args[1])?;
                self.copy(p, a, b, n)?;
                ret = Some(Val::K(a));
            }
            Ext::Memset => {
                let n = self.kop(p, 64, &args[2])?;
                let a = self.kop(p, 64, &args[0])?;
                self.check(p, a, n, true)?;
                let mut v = self.get(p, &args[1]);
                if !self.m.exts[xi as usize].starts_with("llvm.") {
                    v = self.cast(Cast::Trunc, 32, 8, &v);
                }
                for i in 0..n {
                    self.store_c(p, a + i, 8, 1, &v)?;
                }
                ret = Some(Val::K(a));
            }
            Ext::Memcmp(order) => {
                let n = self.kop(p, 64, &args[2])?;
                let a = self.kop(p, 64, &args[0])?;
                let b = self.kop(p, 64, &args[1])?;
                let x = self.read_bytes(p, a, n)?;
                let y = self.read_bytes(p, b, n)?;
                let mut r = self.a.k(32, 0);
                for i in (0..n as usize).rev() {
                    let s = self.e(8, &x[i]);
                    let t = self.e(8, &y[i]);
                    let c = self.a.eq(s, t);
                    let df = if order {
                        let s = self.a.zext(32, s);
                        let t = self.a.zext(32, t);
                        self.a.bin(Op::Sub, s, t)
                    } else {
                        self.a.k(32, 1)
                    };
                    r = self.a.ite(c, r, df);
                }
                ret = Some(self.v(r));
            }
            Ext::UMin | Ext::UMax | Ext::SMin | Ext::SMax => {
                let x = self.get(p, &args[0]);
                let y = self.get(p, &args[1]);
                let pr = match k {
                    Ext::UMin => Pred::Ult,
                    Ext::UMax => Pred::Ugt,
                    Ext::SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                if let (Val::A(a), Val::A(b)) = (&x, &y) {
                    let w = match rt {
                        Ty::Vec(_, e) => e.bits() as u8,
                        _ => return err("min/max"),
                    };
                    let mut v = Vec::new();
                    for i in 0..a.len() {
                        let c = self.cmp(pr, w, &a[i], &b[i]);
                        v.push(self.sel(p, w, &c, &a[i], &b[i]));
                    }
                    ret = Some(Val::A(Rc::new(v)));
                } else {
                    let c = self.cmp(pr, w, &x, &y);
                    ret = Some(self.sel(p, w, &c, &x, &y));
                }
            }
            Ext::UsubSat => {
                let x = self.get(p, &args[0]);
                let y = self.get(p, &args[1]);
                let s = self.bin(Op::Sub, w, &x, &y)?;
                let c = self.cmp(Pred::Ult, w, &x, &y);
                ret = Some(self.sel(p, w, &c, &Val::K(0), &s));
            }
            Ext::UaddSat => {
                let x = self.get(p, &args[0]);
                let y = self.get(p, &args[1]);
                let s = self.bin(Op::Add, w, &x, &y)?;
                let c = self.cmp(Pred::Ult, w, &s, &x);
                ret = Some(self.sel(p, w, &c, &Val::K(m64(w)), &s));
            }
            Ext::UaddO | Ext::UsubO | Ext::UmulO | Ext::SaddO | Ext::SsubO => {
                let x = self.get(p, &args[0]);
                let y = self.get(p, &args[1]);
                let w = match rt {
                    Ty::Struct(v, _) => v[0].bits() as u8,
                    _ => return err("with.overflow"),
                };
                let (r, o) = match k {
                    Ext::UaddO => {
                        let s = self.bin(Op::Add, w, &x, &y)?;
                        let c = self.cmp(Pred::Ult, w, &s, &x);
                        (s, c)
                    }
                    Ext::UsubO => {
                        let s = self.bin(Op::Sub, w, &x, &y)?;
                        let c = self.cmp(Pred::Ult, w, &x, &y);
                        (s, c)
                    }
                    Ext::UmulO => {
                        let s = self.bin(Op::Mul, w, &x, &y)?;
                        let a = self.e(w, &x);
                        let b = self.e(w, &y);
                        if w <= 64 {
                            let a2 = self.a.zext(w * 2, a);
                            let b2 = self.a.zext(w * 2, b);
                            let t = self.a.bin(Op::Mul, a2, b2);
                            let h = self.a.ext(2 * w - 1, w, t);
                            let z = self.a.k(w, 0);
                            let e = self.a.eq(h, z);
                            let c = self.a.not(e);
                            (s, self.v(c))
                        } else {
                            return err("wide multiply");
                        }
                    }
                    _ => {
                        if w >= 64 && w != 64 {
                            return err("wide signed overflow");
                        }
                        let a = self.e(w, &x);
                        let b = self.e(w, &y);
                        let a2 = self.a.sext(w + 1, a);
                        let b2 = self.a.sext(w + 1, b);
                        let op = if k == Ext::SaddO { Op::Add } else { Op::Sub };
                        let t = self.a.bin(op, a2, b2);
                        let s = self.a.ext(w - 1, 0, t);
                        let s2 = self.a.sext(w + 1, s);
                        let e = self.a.eq(s2, t);
                        let c = self.a.not(e);
                        (self.v(s), self.v(c))
                    }
                };
                ret = Some(Val::A(Rc::new(vec![r, o])));
            }
            Ext::Ctlz | Ext::Cttz => {
                let x = self.get(p, &args[0]);
                ret = Some(match x {
                    Val::K(v) => Val::K(if k == Ext::Ctlz {
                        (v.leading_zeros() - (64 - w as u32)) as u64
                    } else {
                        v.trailing_zeros().min(w as u32) as u64
                    }),
                    x => {
                        let e = self.e(w, &x);
                        let mut r = self.a.k(w, w as u128);
                        for j in 0..w {
                            let i = if k == Ext::Ctlz { j } else { w - 1 - j };
                            let b = self.a.ext(i, i, e);
                            let v = if k == Ext::Ctlz { w - 1 - i } else { i };
                            let kv = self.a.k(w, v as u128);
                            r = self.a.ite(b, kv, r);
                        }
                        self.v(r)
                    }
                });
            }
            Ext::Ctpop => {
                let x = self.get(p, &args[0]);
                ret = Some(match x {
                    Val::K(v) => Val::K(v.count_ones() as u64),
                    x => {
                        let e = self.e(w, &x);
                        let mut r = self.a.k(w, 0);
                        for i in 0..w {
                            let b = self.a.ext(i, i, e);
                            let z = self.a.zext(w, b);
                            r = self.a.bin(Op::Add, r, z);
                        }
                        self.v(r)
                    }
                });
            }
            Ext::Bswap | Ext::Bitrev => {
                let x = self.get(p, &args[0]);
                let e = self.e(w, &x);
                let st = if k == Ext::Bswap { 8 } else { 1 };
                let mut r: Option<E> = None;
                let mut i = 0;
                while i < w {
                    let b = self.a.ext(i + st - 1, i, e);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.a.cat(h, b),
                    });
                    i += st;
                }
                ret = Some(self.v(r.unwrap()));
            }
            Ext::Fshl | Ext::Fshr => {
                let x = self.get(p, &args[0]);
                let y = self.get(p, &args[1]);
                let s = (self.kop(p, w, &args[2])? % w as u64) as u8;
                let a = self.e(w, &x);
                let b = self.e(w, &y);
                // cat(a,b) shifted; take the high or the low part.
                let r = if k == Ext::Fshl {
                    if s == 0 {
                        a
                    } else {
                        let h = self.a.ext(w - 1 - s, 0, a);
                        let l = self.a.ext(w - 1, w - s, b);
                        self.a.cat(h, l)
                    }
                } else if s == 0 {
                    b
                } else {
                    let h = self.a.ext(s - 1, 0, a);
                    let l = self.a.ext(w - 1, s, b);
                    self.a.cat(h, l)
                };
                ret = Some(self.v(r));
            }
            Ext::Abs => {
                let x = self.get(p, &args[0]);
                let n = self.bin(Op::Sub, w, &Val::K(0), &x)?;
                let c = self.cmp(Pred::Slt, w, &x, &Val::K(0));
                ret = Some(self.sel(p, w, &c, &n, &x));
            }
            Ext::Ucmp | Ext::Scmp => {
                let name = &self.m.exts[xi as usize];
                let aw: u8 = name.rsplit(".i").next().and_then(|s| s.parse().ok()).unwrap_or(0);
                if aw == 0 {
                    return err("cmp width");
                }
                let x = self.get(p, &args[0]);
                let y = self.get(p, &args[1]);
                let (l, g) = if k == Ext::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let lt = self.cmp(l, aw, &x, &y);
                let gt = self.cmp(g, aw, &x, &y);
                let r = self.sel(p, w, &gt, &Val::K(1), &Val::K(0));
                ret = Some(self.sel(p, w, &lt, &Val::K(m64(w)), &r));
            }
            Ext::RedAdd | Ext::RedOr | Ext::RedAnd | Ext::RedXor => {
                let x = self.get(p, &args[0]);
                let x = Self::lanes(&x)?;
                let op = match k {
                    Ext::RedAdd => Op::Add,
                    Ext::RedOr => Op::Or,
                    Ext::RedAnd => Op::And,
                    _ => Op::Xor,
                };
                let mut r = x[0].clone();
                for y in &x[1..] {
                    r = self.bin(op, w, &r, y)?;
                }
                ret = Some(r);
            }
            Ext::Movmsk => {
                let x = self.get(p, &args[0]);
                let x = Self::lanes(&x)?;
                let mut r = self.a.k(32, 0);
                for (i, b) in x.iter().enumerate() {
                    let b = self.e(8, b);
                    let t = self.a.ext(7, 7, b);
                    let t = self.a.zext(32, t);
                    let s = self.a.k(32, i as u128);
                    let t = self.a.bin(Op::Shl, t, s);
                    r = self.a.bin(Op::Or, r, t);
                }
                ret = Some(self.v(r));
            }
            Ext::Unknown => return err(format!("external function {}", self.m.exts[xi as usize])),
        }
        if let (Some(d), Some(v)) = (d, ret) {
            Self::set(p, d, v);
        }
        Ok(())
    }
}
