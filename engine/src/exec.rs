//! The symbolic executor.
use crate::big::Big;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::term::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::BinOp;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Debug)]
pub enum Stop {
    Unsup(String),
    /// a panic raised by the code under analysis
    Panic(String),
    /// path ended because it is infeasible / assumed away
    Dead,
}
pub type R<X> = Result<X, Stop>;

pub fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Unsup(s.into()))
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fid: u32,
    pub alloc: u32,
    pub bb: usize,
    pub st: usize,
    pub dst: u64,
    pub dst_size: u32,
    pub target: Option<usize>,
    pub catch: bool,
}

#[derive(Clone)]
pub struct State {
    pub heap: Heap,
    pub free: Vec<u32>,
    pub glob: HashMap<u32, Rc<Alloc>>,
    pub frames: Vec<Frame>,
    pub path: Vec<B>,
    pub rf: Refine,
    pub model: Option<Rc<Model>>,
    pub names: HashMap<String, u32>,
    pub obs: Vec<(String, T)>,
    pub steps: u64,
    pub panics: Vec<String>,
    pub reached: Vec<String>,
    /// numbers and the variables of their decimal digits, most significant first
    pub digits: Vec<(T, Vec<T>)>,
}

#[derive(Default, Clone)]
pub struct CheckStat {
    pub queries: u64,
    pub folded: u64,
    pub by_solver: u64,
    pub violated: u64,
    pub unknown: u64,
}
pub struct Viol {
    pub label: String,
    pub model: Model,
    pub stack: Vec<String>,
}

pub enum AV {
    P(u64, u32),
    K(Rc<Vec<u8>>),
}

pub struct Ex {
    pub cx: Ctx,
    pub ar: Arena,
    pub sv: Solver,
    pub s: State,
    pub work: Vec<State>,
    pub checks: BTreeMap<String, CheckStat>,
    pub viols: Vec<Viol>,
    /// end the exploration at a violation of any check but these
    pub stop_unless: Option<Vec<String>>,
    pub unknowns: Vec<String>,
    pub errors: Vec<String>,
    pub reach: BTreeMap<String, u64>,
    pub paths: u64,
    pub dead_paths: u64,
    pub hints_used: u64,
    pub hints_lost: u64,
    pub forks: u64,
    pub steps: u64,
    pub witnesses: Vec<(Model, Vec<(String, String)>)>,
    pub max_witness: usize,
    pub stubs: HashMap<String, Instance>,
    pub toks: Vec<T>,
    pub blobs: Vec<Vec<S>>,
    pub blobmap: HashMap<Vec<(bool, u128)>, usize>,
    pub tokmap: HashMap<T, usize>,
    pub t0: Instant,
    pub limit_s: u64,
    pub rng: u64,
    pub stopped: bool,
    pub trace: bool,
    pub max_paths: u64,
    pub fork_at: HashMap<String, u64>,
    pub seen_viol: HashMap<String, u32>,
    pub stub_used: BTreeMap<String, u64>,
    pub panic_msgs: BTreeMap<String, u64>,
    pub stepf: HashMap<u32, u64>,
    /// print symbolic numbers digit by digit instead of as tokens
    pub digits: bool,
    /// variables restricted to one value (a slice of the exploration)
    pub fix: BTreeMap<String, u128>,
    pub ranges: BTreeMap<String, (u128, u128)>,
}

fn addr(id: u32, off: u32) -> u64 {
    ((id as u64) << 32) | off as u64
}

impl Ex {
    pub fn new(dir: &str) -> Ex {
        Ex {
            cx: Ctx::new(),
            ar: Arena::new(),
            sv: Solver::new(dir),
            s: State {
                heap: vec![None, None],
                free: vec![],
                glob: HashMap::new(),
                frames: vec![],
                path: vec![],
                rf: Refine::default(),
                model: Some(Rc::new(Model::new())),
                names: HashMap::new(),
                obs: vec![],
                steps: 0,
                panics: vec![],
                reached: vec![],
            digits: vec![],
            },
            work: vec![],
            checks: BTreeMap::new(),
            viols: vec![],
            stop_unless: None,
            unknowns: vec![],
            errors: vec![],
            reach: BTreeMap::new(),
            paths: 0,
            dead_paths: 0,
            hints_used: 0,
            hints_lost: 0,
            forks: 0,
            steps: 0,
            witnesses: vec![],
            max_witness: 64,
            stubs: HashMap::new(),
            toks: vec![],
            blobs: vec![],
            blobmap: HashMap::new(),
            tokmap: HashMap::new(),
            t0: Instant::now(),
            limit_s: 800,
            rng: 1,
            stopped: false,
            trace: false,
            max_paths: 200_000,
            fork_at: HashMap::new(),
            seen_viol: HashMap::new(),
            stub_used: BTreeMap::new(),
            panic_msgs: BTreeMap::new(),
            stepf: HashMap::new(),
            digits: false,
            fix: BTreeMap::new(),
            ranges: BTreeMap::new(),
        }
    }

    // ---- memory -------------------------------------------------------------------------
    pub fn alloc(&mut self, n: u64) -> R<u64> {
        if n >= 1 << 28 {
            return unsup(format!("allocation of {} bytes", n));
        }
        let a = Rc::new(Alloc::new(n as usize));
        let id = match self.s.free.pop() {
            Some(i) => {
                self.s.heap[i as usize] = Some(a);
                i
            }
            None => {
                self.s.heap.push(Some(a));
                (self.s.heap.len() - 1) as u32
            }
        };
        Ok(addr(id, 0))
    }
    pub fn dealloc(&mut self, p: u64) {
        let id = (p >> 32) as u32;
        if (id as usize) < self.s.heap.len() && self.s.heap[id as usize].is_some() {
            self.s.heap[id as usize] = None;
            self.s.free.push(id);
        }
    }
    fn get_alloc(&mut self, p: u64, n: u64) -> R<(&Alloc, u32)> {
        let id = (p >> 32) as u32;
        let off = p as u32;
        if id >= GLOB_BASE {
            let gi = (id - GLOB_BASE) as usize;
            if !self.s.glob.contains_key(&id) {
                if gi >= self.cx.globals.len() {
                    return unsup(format!("bad global pointer {:#x}", p));
                }
                let b = self.cx.globals[gi].bytes.clone();
                self.s.glob.insert(id, Rc::new(Alloc { bytes: b, cells: vec![] }));
            }
            let a = &self.s.glob[&id];
            if off as u64 + n > a.bytes.len() as u64 {
                return unsup(format!("global access out of bounds {:#x}+{} of {}", p, n, a.bytes.len()));
            }
            return Ok((a, off));
        }
        match self.s.heap.get(id as usize) {
            Some(Some(a)) => {
                if off as u64 + n > a.bytes.len() as u64 {
                    return unsup(format!("access out of bounds {:#x}+{} of {}", p, n, a.bytes.len()));
                }
                Ok((a, off))
            }
            _ => unsup(format!("bad pointer {:#x} ({} bytes)", p, n)),
        }
    }
    fn alloc_rc(&mut self, p: u64, n: u64) -> R<(Rc<Alloc>, u32)> {
        self.get_alloc(p, n)?;
        let id = (p >> 32) as u32;
        let a = if id >= GLOB_BASE {
            self.s.glob[&id].clone()
        } else {
            self.s.heap[id as usize].as_ref().unwrap().clone()
        };
        Ok((a, p as u32))
    }
    pub fn rd(&mut self, p: u64, n: u32) -> R<S> {
        if n == 0 {
            return Ok(S::C(0));
        }
        let (a, off) = self.get_alloc(p, n as u64)?;
        if a.cells.is_empty() && n <= 16 {
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(&a.bytes[off as usize..(off + n) as usize]);
            return Ok(S::C(u128::from_le_bytes(b)));
        }
        let (a, off) = self.alloc_rc(p, n as u64)?;
        Ok(match a.get(&mut self.ar, off, n) {
            S::T(t) => {
                let t = self.ar.settle(t, &self.s.rf);
                norm(&self.ar, t, n)
            }
            c => c,
        })
    }
    pub fn rdc(&mut self, p: u64, n: u32) -> R<u128> {
        match self.rd(p, n)? {
            S::C(v) => Ok(v),
            S::T(t) => self.concretize(t),
        }
    }
    pub fn rdp(&mut self, p: u64) -> R<u64> {
        Ok(self.rdc(p, 8)? as u64)
    }
    pub fn rdt(&mut self, p: u64, n: u32) -> R<T> {
        let s = self.rd(p, n)?;
        Ok(self.term(s))
    }
    /// raw bytes; error when symbolic
    pub fn rd_bytes(&mut self, p: u64, n: u64) -> R<Option<Vec<u8>>> {
        if n == 0 {
            return Ok(Some(vec![]));
        }
        let (a, off) = self.get_alloc(p, n)?;
        if a.touches(off, n as u32) {
            return Ok(None);
        }
        Ok(Some(a.bytes[off as usize..off as usize + n as usize].to_vec()))
    }
    pub fn is_sym(&mut self, p: u64, n: u64) -> R<bool> {
        if n == 0 {
            return Ok(false);
        }
        let (a, off) = self.get_alloc(p, n)?;
        Ok(a.touches(off, n as u32))
    }
    fn with_mut<X>(&mut self, p: u64, n: u64, f: impl FnOnce(&mut Alloc, &mut Arena, u32) -> X) -> R<X> {
        self.get_alloc(p, n)?;
        let id = (p >> 32) as u32;
        let a = if id >= GLOB_BASE {
            self.s.glob.get_mut(&id).unwrap()
        } else {
            self.s.heap[id as usize].as_mut().unwrap()
        };
        Ok(f(Rc::make_mut(a), &mut self.ar, p as u32))
    }
    pub fn wr(&mut self, p: u64, n: u32, v: S) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        match v {
            S::C(c) if n <= 16 => self.with_mut(p, n as u64, |a, ar, off| {
                a.clear(ar, off, n);
                let b = c.to_le_bytes();
                a.bytes[off as usize..(off + n) as usize].copy_from_slice(&b[..n as usize]);
            }),
            S::C(c) => self.with_mut(p, n as u64, |a, ar, off| a.put_big(ar, off, n, &Big::from(c))),
            S::T(t) => self.with_mut(p, n as u64, |a, ar, off| a.put(ar, off, n, t)),
        }
    }
    pub fn wrt(&mut self, p: u64, n: u32, t: T) -> R<()> {
        self.wr(p, n, S::T(t))
    }
    pub fn wr_bytes(&mut self, p: u64, b: &[u8]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        self.with_mut(p, b.len() as u64, |a, ar, off| {
            a.clear(ar, off, b.len() as u32);
            a.bytes[off as usize..off as usize + b.len()].copy_from_slice(b);
        })
    }
    pub fn cp(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (a, off) = self.alloc_rc(s, n)?;
        if a.cells.is_empty() || !a.touches(off, n as u32) {
            if n <= 64 {
                let mut b = [0u8; 64];
                b[..n as usize].copy_from_slice(&a.bytes[off as usize..off as usize + n as usize]);
                drop(a);
                return self.wr_bytes(d, &b[..n as usize]);
            }
            let b = a.bytes[off as usize..off as usize + n as usize].to_vec();
            drop(a);
            return self.wr_bytes(d, &b);
        }
        let c = Chunk::take(&a, &mut self.ar, off, n as u32);
        drop(a);
        self.with_mut(d, n, |a, ar, off| c.store(a, ar, off))
    }

    // ---- terms and decisions ------------------------------------------------------------
    pub fn term(&mut self, s: S) -> T {
        match s {
            S::C(v) => self.ar.ku(v),
            S::T(t) => t,
        }
    }
    pub fn boolean(&mut self, s: S) -> B {
        match s {
            S::C(v) => {
                if v != 0 {
                    TRUE
                } else {
                    FALSE
                }
            }
            S::T(t) => self.ar.i2b(t),
        }
    }
    fn merge_model(&mut self, base: &Option<Rc<Model>>, m2: &Rc<Model>, sl: &[B]) -> Option<Rc<Model>> {
        let b = base.as_ref()?;
        let mut m = (**b).clone();
        for &c in sl {
            let sup = self.ar.bsupport(c);
            for &k in sup.iter() {
                let (name, dflt) = if k & 1 == 0 {
                    match &self.ar.n[(k / 2) as usize] {
                        N::Var(n) => (n.clone(), self.ar.iv0(k / 2).0.clone().unwrap_or_default()),
                        _ => continue,
                    }
                } else {
                    match &self.ar.b[(k / 2) as usize] {
                        BN::Var(n) => (n.clone(), Big::zero()),
                        _ => continue,
                    }
                };
                let v = m2.get(&name).cloned().unwrap_or(dflt);
                m.insert(name, v);
            }
        }
        Some(Rc::new(m))
    }
    pub fn assume_true(&mut self, b: B) {
        if b == TRUE {
            return;
        }
        self.s.path.push(b);
        self.ar.learn(b, &mut self.s.rf);
        if let BN::Eq0(_) = self.ar.b[b as usize] {
            // what this fixes may sharpen the equations known before
            let eqs: Vec<B> = self.s.path.iter().rev().skip(1).take(24).copied().filter(|p| matches!(self.ar.b[*p as usize], BN::Eq0(_))).collect();
            for e in eqs {
                self.ar.learn(e, &mut self.s.rf);
            }
        }
    }
    fn try_model(&mut self) {
        if self.s.model.is_some() {
            return;
        }
        let p = self.s.path.clone();
        if let Res::Sat(m) = self.sv.feasible(&self.ar, &p) {
            let base = Some(Rc::new(Model::new()));
            self.s.model = self.merge_model(&base, &m, &p);
        }
    }
    /// what the path's bounds say about a condition, also in terms of printed numbers
    fn known(&mut self, b: B) -> Option<bool> {
        if let Some(v) = self.ar.quick(b, &self.s.rf) {
            return Some(v);
        }
        if self.s.digits.is_empty() {
            return None;
        }
        match self.ar.b[b as usize].clone() {
            BN::Ge0(t) => {
                let r = self.undigit(t);
                if r == t {
                    return None;
                }
                let c = self.ar.ge0(r);
                self.ar.quick(c, &self.s.rf)
            }
            BN::Eq0(t) => {
                let r = self.undigit(t);
                if r == t {
                    return None;
                }
                let z = self.ar.ku(0);
                let c = self.ar.eq(r, z);
                self.ar.quick(c, &self.s.rf)
            }
            BN::Not(x) => self.known(x).map(|v| !v),
            BN::And(v) => {
                let mut all = true;
                for x in v {
                    match self.known(x) {
                        Some(false) => return Some(false),
                        Some(true) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(true)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    /// replace sums of a printed number's digits by the number
    pub fn undigit(&mut self, t: T) -> T {
        let mut t = t;
        for (x, ds) in self.s.digits.clone() {
            // digits known to be the same constant on this path
            let mut fixed = vec![];
            let mut k = Big::one();
            let mut i = ds.len();
            while i > 0 {
                match self.ar.iv_full(ds[i - 1], Some(&self.s.rf)) {
                    (Some(l), Some(h)) if l == h => {
                        fixed.push((ds[i - 1], l));
                        k = k.mul(&Big::from(10u128));
                        i -= 1;
                    }
                    _ => break,
                }
            }
            if i == 0 {
                continue;
            }
            let c = self.ar.coefficient(t, ds[i - 1]);
            let (q, r) = c.divmod_floor(&k);
            if q.is_zero() || !r.is_zero() {
                continue;
            }
            let mut e = self.ar.ku(0);
            let one = Big::one();
            for d in &ds {
                e = self.ar.lin(e, &Big::from(10u128), *d, &one);
            }
            let mut e = self.ar.sub(e, x);
            for (d, v) in fixed {
                let c = self.ar.coefficient(e, d);
                let kk = self.ar.k(v);
                let dif = self.ar.sub(kk, d);
                e = self.ar.lin(e, &one, dif, &c);
            }
            t = self.ar.lin(t, &one, e, &q.neg());
        }
        t
    }
    /// Decide a condition on the current path, forking when both sides are possible.
    pub fn decide(&mut self, b: B) -> R<bool> {
        if let Some(v) = self.known(b) {
            return Ok(v);
        }
        let nb = self.ar.not(b);
        self.try_model();
        let mut take = None;
        if let Some(m) = self.s.model.clone() {
            take = self.ar.beval(b, &m, &mut HashMap::new());
        }
        match take {
            Some(v) => {
                let (mine, other) = if v { (b, nb) } else { (nb, b) };
                let sl = slice(&mut self.ar, &self.s.path, &[other]);
                let r = self.sv.feasible(&self.ar, &sl);
                match r {
                    Res::Unsat => {
                        // implied: remember as a fact only
                        self.ar.learn(mine, &mut self.s.rf);
                        Ok(v)
                    }
                    Res::Sat(m2) => {
                        let base = self.s.model.clone();
                        let nm = self.merge_model(&base, &m2, &sl);
                        self.fork(other, nm)?;
                        self.assume_true(mine);
                        Ok(v)
                    }
                    Res::Unknown(_) => {
                        self.fork(other, None)?;
                        self.assume_true(mine);
                        Ok(v)
                    }
                }
            }
            None => {
                let sl = slice(&mut self.ar, &self.s.path, &[b]);
                let sn = slice(&mut self.ar, &self.s.path, &[nb]);
                let r1 = self.sv.feasible(&self.ar, &sl);
                if let Res::Unsat = r1 {
                    self.ar.learn(nb, &mut self.s.rf);
                    return Ok(false);
                }
                let r2 = self.sv.feasible(&self.ar, &sn);
                if let Res::Unsat = r2 {
                    self.ar.learn(b, &mut self.s.rf);
                    return Ok(true);
                }
                self.fork(nb, None)?;
                self.assume_true(b);
                Ok(true)
            }
        }
    }
    fn fork(&mut self, other: B, model: Option<Rc<Model>>) -> R<()> {
        self.forks += 1;
        let at = self.stack_top(2);
        *self.fork_at.entry(at).or_insert(0) += 1;
        let mut o = self.s.clone();
        o.model = model;
        o.path.push(other);
        self.ar.learn(other, &mut o.rf);
        self.work.push(o);
        Ok(())
    }
    pub fn concretize(&mut self, t: T) -> R<u128> {
        if let Some(k) = self.ar.as_const(t) {
            return k.to_u128().ok_or_else(|| Stop::Unsup("big constant".into()));
        }
        let iv = self.ar.iv_full(t, Some(&self.s.rf));
        let (Some(l), Some(h)) = iv else { return unsup("concretise unbounded value") };
        if h.sub(&l) > Big::from(1024u128) {
            return unsup(format!("concretise a value in {}..{} at {}", l, h, self.stack_top(6)));
        }
        let mut v = l.clone();
        // start from the current model so that one solver call suffices per value
        self.try_model();
        let mut tried = vec![];
        if let Some(m) = self.s.model.clone() {
            if let Some(x) = self.ar.eval(t, &m, &mut HashMap::new()) {
                let k = self.ar.k(x.clone());
                let e = self.ar.eq(t, k);
                if self.decide(e)? {
                    return x.to_u128().ok_or_else(|| Stop::Unsup("negative".into()));
                }
                tried.push(x);
            }
        }
        while v <= h {
            if !tried.contains(&v) {
                let k = self.ar.k(v.clone());
                let e = self.ar.eq(t, k);
                if self.decide(e)? {
                    return v.to_u128().ok_or_else(|| Stop::Unsup("negative".into()));
                }
            }
            v = v.add(&Big::one());
        }
        Err(Stop::Dead)
    }
    pub fn conc(&mut self, s: S) -> R<u128> {
        match s {
            S::C(v) => Ok(v),
            S::T(t) => self.concretize(t),
        }
    }

    // ---- places and operands ------------------------------------------------------------
    fn place(&mut self, p: &Pl) -> R<(u64, u64)> {
        let fr = self.s.frames.last().unwrap().alloc;
        let mut a = addr(fr, p.base);
        let mut meta = 0u64;
        for e in &p.pe {
            match e {
                PE::Off(o) => a += o,
                PE::Deref(un) => {
                    let b = a;
                    a = self.rdp(b)?;
                    meta = if *un { self.rdp(b + 8)? } else { 0 };
                }
                PE::Index { local_off, stride } => {
                    let i = self.rdp(addr(fr, *local_off))?;
                    a += i * stride;
                }
                PE::FromEnd { off, stride } => a += (meta - off) * stride,
                PE::Subslice { from, to, stride } => {
                    a += from * stride;
                    meta = meta - from - to;
                }
                PE::DynField(o) => {
                    let al = self.rdp(meta + 16)?.max(1);
                    a += (o + al - 1) / al * al;
                }
            }
        }
        Ok((a, meta))
    }
    pub fn op(&mut self, o: &Op) -> R<S> {
        match o {
            Op::K(k) => {
                if k.len() <= 16 {
                    let mut b = [0u8; 16];
                    b[..k.len()].copy_from_slice(k);
                    Ok(S::C(u128::from_le_bytes(b)))
                } else {
                    let mut v = Big::zero();
                    for x in k.iter().rev() {
                        v = v.mul(&Big::from(256u128)).add(&Big::from(*x as u128));
                    }
                    Ok(S::T(self.ar.k(v)))
                }
            }
            Op::P(p) => {
                if p.pe.is_empty() {
                    let fr = self.s.frames.last().unwrap().alloc;
                    return self.rd(addr(fr, p.base), p.size);
                }
                let (a, _) = self.place(p)?;
                self.rd(a, p.size)
            }
        }
    }
    fn op_to(&mut self, o: &Op, d: u64) -> R<()> {
        match o {
            Op::K(k) => self.wr_bytes(d, k),
            Op::P(p) => {
                let (a, _) = self.place(p)?;
                self.cp(d, a, p.size as u64)
            }
        }
    }
    pub fn av(&mut self, o: &Op) -> R<AV> {
        Ok(match o {
            Op::K(k) => AV::K(k.clone()),
            Op::P(p) => {
                let (a, _) = self.place(p)?;
                AV::P(a, p.size)
            }
        })
    }
    pub fn av_rd(&mut self, a: &AV, off: u32, n: u32) -> R<S> {
        match a {
            AV::P(p, _) => self.rd(p + off as u64, n),
            AV::K(k) => {
                let k = Rc::new(k[off as usize..(off + n) as usize].to_vec());
                self.op(&Op::K(k))
            }
        }
    }
    pub fn av_u(&mut self, a: &AV, off: u32, n: u32) -> R<u128> {
        let s = self.av_rd(a, off, n)?;
        self.conc(s)
    }
    pub fn av_t(&mut self, a: &AV, off: u32, n: u32) -> R<T> {
        let s = self.av_rd(a, off, n)?;
        Ok(self.term(s))
    }
    pub fn av_to(&mut self, a: &AV, d: u64) -> R<()> {
        match a {
            AV::P(p, n) => self.cp(d, *p, *n as u64),
            AV::K(k) => self.wr_bytes(d, k),
        }
    }

    // ---- arithmetic ---------------------------------------------------------------------
    pub fn to_signed(&mut self, t: T, size: u8) -> T {
        let half = Big::pow2(8 * size as u32 - 1);
        let full = Big::pow2(8 * size as u32);
        if let Some(k) = self.ar.as_const(t).cloned() {
            return if k >= half { self.ar.k(k.sub(&full)) } else { t };
        }
        let iv = self.ar.iv_full(t, Some(&self.s.rf));
        if let Some(h) = &iv.1 {
            if *h < half {
                return t;
            }
        }
        if let Some(l) = &iv.0 {
            if *l >= half {
                return self.ar.addk(t, &full.neg());
            }
        }
        let hk = self.ar.k(half);
        let c = self.ar.ge(t, hk);
        let m = self.ar.addk(t, &full.neg());
        self.ar.ite(c, m, t)
    }
    /// reduce a mathematical result to the unsigned representation of the type
    pub fn wrap(&mut self, t: T, k: IntK) -> T {
        let full = Big::pow2(8 * k.size as u32);
        let iv = self.ar.iv_full(t, Some(&self.s.rf));
        if let (Some(l), Some(h)) = &iv {
            if !l.is_neg() && *h < full {
                return t;
            }
        }
        let ge = self.ar.ge0(t);
        let fk = self.ar.k(full.clone());
        let lt = self.ar.lt(t, fk);
        if self.ar.quick(ge, &self.s.rf) == Some(true) && self.ar.quick(lt, &self.s.rf) == Some(true) {
            return t;
        }
        self.ar.modk(t, &full)
    }
    fn in_range(&mut self, t: T, k: IntK) -> B {
        let (lo, hi) = if k.signed {
            let h = Big::pow2(8 * k.size as u32 - 1);
            (h.neg(), h)
        } else {
            (Big::zero(), Big::pow2(8 * k.size as u32))
        };
        let l = self.ar.k(lo);
        let h = self.ar.k(hi);
        let a = self.ar.ge(t, l);
        let b = self.ar.lt(t, h);
        self.ar.and(&[a, b])
    }
    pub fn sc(&mut self, t: T, n: u32) -> S {
        norm(&self.ar, t, n)
    }
    fn sext(v: u128, size: u8) -> i128 {
        let sh = 128 - 8 * size as u32;
        ((v << sh) as i128) >> sh
    }
    fn mask(v: u128, size: u8) -> u128 {
        if size >= 16 {
            v
        } else {
            v & ((1u128 << (8 * size)) - 1)
        }
    }
    pub fn math(&mut self, op: BinOp, a: S, b: S, k: IntK) -> T {
        let (mut x, mut y) = (self.term(a), self.term(b));
        if k.signed {
            x = self.to_signed(x, k.size);
            y = self.to_signed(y, k.size);
        }
        match op {
            BinOp::Add | BinOp::AddUnchecked => self.ar.add(x, y),
            BinOp::Sub | BinOp::SubUnchecked => self.ar.sub(x, y),
            BinOp::Mul | BinOp::MulUnchecked => self.ar.mul(x, y),
            _ => unreachable!(),
        }
    }
    pub fn and_mask(&mut self, t: T, mask: &Big, bits: u32) -> T {
        // sum over runs of ones
        let two = Big::from(2u128);
        let mut m = mask.clone();
        let mut pos = 0;
        let mut sum = self.ar.ku(0);
        while !m.is_zero() && pos < bits {
            let z = m.trailing_zeros();
            m = m.div_floor(&Big::pow2(z));
            pos += z;
            let mut len = 0;
            while !m.is_zero() && m.rem_floor(&two).is_one() {
                m = m.div_floor(&two);
                len += 1;
            }
            let q = self.ar.divk(t, &Big::pow2(pos));
            let iv = self.ar.iv_full(q, Some(&self.s.rf));
            let c = Big::pow2(len);
            let r = match &iv {
                (Some(l), Some(h)) if !l.is_neg() && *h < c => q,
                _ => self.ar.modk(q, &c),
            };
            sum = self.ar.lin(sum, &Big::one(), r, &Big::pow2(pos));
            pos += len;
        }
        sum
    }
    /// Ordering of two mathematical values as the representation of core::cmp::Ordering
    pub fn order(&mut self, x: T, y: T) -> T {
        let e = self.ar.eq(x, y);
        let l = self.ar.lt(x, y);
        let (m1, p1, z) = (self.ar.ku(0xff), self.ar.ku(1), self.ar.ku(0));
        let t = self.ar.ite(l, m1, p1);
        self.ar.ite(e, z, t)
    }
    /// apply a function to every constant leaf of a case distinction
    fn lift(&mut self, t: T, f: &mut dyn FnMut(&mut Ex, S) -> R<S>) -> R<S> {
        if let N::Ite(c, x, y) = self.ar.n[t as usize] {
            let a = self.lift(x, f)?;
            let b = self.lift(y, f)?;
            if a == b {
                return Ok(a);
            }
            let (a, b) = (self.term(a), self.term(b));
            let r = self.ar.ite(c, a, b);
            return Ok(norm(&self.ar, r, 16));
        }
        let v = self.ar.as_const(t).and_then(|k| k.to_u128());
        match v {
            Some(v) => f(self, S::C(v)),
            None => unsup("lift"),
        }
    }
    pub fn binop(&mut self, op: BinOp, a: S, b: S, k: IntK, rk: IntK) -> R<S> {
        use BinOp::*;
        let bits = 8 * k.size as u32;
        if let (S::C(x), S::C(y)) = (a, b) {
            if k.size <= 16 {
                let sx = || Self::sext(x, k.size);
                let sy = || Self::sext(y, k.size);
                let bl = |v: bool| S::C(v as u128);
                let r = match op {
                    Add | AddUnchecked => x.wrapping_add(y),
                    Sub | SubUnchecked => x.wrapping_sub(y),
                    Mul | MulUnchecked => x.wrapping_mul(y),
                    Div => {
                        if y == 0 {
                            return unsup("div by zero");
                        }
                        if k.signed {
                            sx().wrapping_div(sy()) as u128
                        } else {
                            x / y
                        }
                    }
                    Rem => {
                        if y == 0 {
                            return unsup("rem by zero");
                        }
                        if k.signed {
                            sx().wrapping_rem(sy()) as u128
                        } else {
                            x % y
                        }
                    }
                    BitXor => x ^ y,
                    BitAnd => x & y,
                    BitOr => x | y,
                    Shl | ShlUnchecked => {
                        let s = (y as u32) & (bits - 1);
                        x << s
                    }
                    Shr | ShrUnchecked => {
                        let s = (y as u32) & (bits - 1);
                        if k.signed {
                            (sx() >> s) as u128
                        } else {
                            x >> s
                        }
                    }
                    Eq => return Ok(bl(x == y)),
                    Ne => return Ok(bl(x != y)),
                    Lt => return Ok(bl(if k.signed { sx() < sy() } else { x < y })),
                    Le => return Ok(bl(if k.signed { sx() <= sy() } else { x <= y })),
                    Gt => return Ok(bl(if k.signed { sx() > sy() } else { x > y })),
                    Ge => return Ok(bl(if k.signed { sx() >= sy() } else { x >= y })),
                    Cmp => {
                        let o = if k.signed { sx().cmp(&sy()) } else { x.cmp(&y) };
                        return Ok(S::C(match o {
                            std::cmp::Ordering::Less => 0xff,
                            std::cmp::Ordering::Equal => 0,
                            std::cmp::Ordering::Greater => 1,
                        }));
                    }
                    Offset => return unsup("offset"),
                };
                return Ok(S::C(Self::mask(r, k.size)));
            }
        }
        // small case distinctions over constants stay such
        let is = |e: &Ex, s: S| match s {
            S::C(_) => false,
            S::T(t) => matches!(e.ar.n[t as usize], N::Ite(..)) && e.ar.leaves(t, 6),
        };
        if is(self, a) && matches!(b, S::C(_)) || is(self, b) && matches!(a, S::C(_)) {
            let t = match a {
                S::T(t) => t,
                _ => self.term(b),
            };
            let r = self.lift(t, &mut |e: &mut Ex, v: S| match a {
                S::T(_) => e.binop(op, v, b, k, rk),
                _ => e.binop(op, a, v, k, rk),
            })?;
            return Ok(r);
        }
        let n = k.size as u32;
        let isbool = |e: &Ex, t: T| {
            let iv = e.ar.iv0(t);
            n == 1 && matches!(iv, (Some(l), Some(h)) if !l.is_neg() && *h <= Big::one())
        };
        match op {
            Add | AddUnchecked | Sub | SubUnchecked | Mul | MulUnchecked => {
                let t = self.math(op, a, b, k);
                let r = self.wrap(t, k);
                Ok(self.sc(r, n))
            }
            Div | Rem => {
                let (x, y) = (self.term(a), self.term(b));
                if k.signed {
                    let h = Big::pow2(bits - 1);
                    let hk = self.ar.k(h);
                    let c1 = self.ar.lt(x, hk);
                    let c2 = self.ar.lt(y, hk);
                    if !(self.decide(c1)? && self.decide(c2)?) {
                        return unsup("signed division of a negative symbolic value");
                    }
                }
                let z = self.ar.ku(0);
                let e = self.ar.eq(y, z);
                if self.decide(e)? {
                    return unsup("division by zero reached");
                }
                let r = if op == Div { self.ar.div(x, y) } else { self.ar.rem(x, y) };
                Ok(self.sc(r, n))
            }
            Eq | Ne => {
                let (x, y) = (self.term(a), self.term(b));
                let mut c = self.ar.eq(x, y);
                if op == Ne {
                    c = self.ar.not(c);
                }
                let t = self.ar.b2i(c);
                Ok(self.sc(t, 1))
            }
            Lt | Le | Gt | Ge => {
                let (mut x, mut y) = (self.term(a), self.term(b));
                if k.signed {
                    x = self.to_signed(x, k.size);
                    y = self.to_signed(y, k.size);
                }
                let c = match op {
                    Lt => self.ar.lt(x, y),
                    Ge => self.ar.ge(x, y),
                    Gt => self.ar.lt(y, x),
                    _ => self.ar.ge(y, x),
                };
                let t = self.ar.b2i(c);
                Ok(self.sc(t, 1))
            }
            Cmp => {
                let (mut x, mut y) = (self.term(a), self.term(b));
                if k.signed {
                    x = self.to_signed(x, k.size);
                    y = self.to_signed(y, k.size);
                }
                let t = self.order(x, y);
                Ok(self.sc(t, 1))
            }
            BitAnd | BitOr | BitXor => {
                let (x, y) = (self.term(a), self.term(b));
                if isbool(self, x) && isbool(self, y) {
                    let (p, q) = (self.ar.i2b(x), self.ar.i2b(y));
                    let c = match op {
                        BitAnd => self.ar.and(&[p, q]),
                        BitOr => self.ar.or(&[p, q]),
                        _ => {
                            let nq = self.ar.not(q);
                            self.ar.bite(p, nq, q)
                        }
                    };
                    let t = self.ar.b2i(c);
                    return Ok(self.sc(t, 1));
                }
                if op == BitOr || op == BitXor {
                    // disjoint bit ranges
                    for (x, y) in [(x, y), (y, x)] {
                        let h = self.ar.iv_full(y, Some(&self.s.rf)).1;
                        if let Some(h) = h {
                            let nb = h.bits();
                            let m = self.ar.modk(x, &Big::pow2(nb));
                            if self.ar.as_const(m).map_or(false, |k| k.is_zero()) {
                                let t = self.ar.add(x, y);
                                return Ok(self.sc(t, n));
                            }
                        }
                    }
                }
                let (t, m) = if let Some(k) = self.ar.as_const(y).cloned() {
                    (x, k)
                } else if let Some(k) = self.ar.as_const(x).cloned() {
                    (y, k)
                } else {
                    return unsup(format!("symbolic {:?} at {}", op, self.stack_top(5)));
                };
                let am = self.and_mask(t, &m, bits);
                let r = match op {
                    BitAnd => am,
                    BitOr => {
                        let s = self.ar.sub(t, am);
                        self.ar.addk(s, &m)
                    }
                    _ => {
                        let s = self.ar.lin(t, &Big::one(), am, &Big::from(-2i64));
                        self.ar.addk(s, &m)
                    }
                };
                Ok(self.sc(r, n))
            }
            Shl | ShlUnchecked | Shr | ShrUnchecked => {
                let _ = rk;
                let s = (self.conc(b)? as u32) & (bits - 1);
                let x = self.term(a);
                let r = if matches!(op, Shl | ShlUnchecked) {
                    let t = self.ar.scale(x, &Big::pow2(s));
                    self.wrap(t, IntK { size: k.size, signed: false })
                } else if k.signed {
                    let sx = self.to_signed(x, k.size);
                    let q = self.ar.divk(sx, &Big::pow2(s));
                    self.wrap(q, k)
                } else {
                    self.ar.divk(x, &Big::pow2(s))
                };
                Ok(self.sc(r, n))
            }
            Offset => unsup("offset"),
        }
    }
    /// (wrapped result, overflow flag), deciding the flag on the spot
    pub fn checked(&mut self, op: BinOp, a: S, b: S, k: IntK, rk: IntK) -> R<(S, bool)> {
        use BinOp::*;
        if let (S::C(x), S::C(y)) = (a, b) {
            let r = self.binop(op, a, b, k, rk)?;
            let bits = 8 * k.size as u32;
            let ov = match op {
                Add | Sub | Mul => {
                    if k.signed {
                        let (x, y) = (Self::sext(x, k.size), Self::sext(y, k.size));
                        let v = match op {
                            Add => x.checked_add(y),
                            Sub => x.checked_sub(y),
                            _ => x.checked_mul(y),
                        };
                        match v {
                            None => true,
                            Some(v) => Self::sext(v as u128, k.size) != v,
                        }
                    } else {
                        let v = match op {
                            Add => x.checked_add(y),
                            Sub => x.checked_sub(y),
                            _ => x.checked_mul(y),
                        };
                        match v {
                            None => true,
                            Some(v) => Self::mask(v, k.size) != v,
                        }
                    }
                }
                Shl | Shr => y >= bits as u128,
                _ => return unsup(format!("checked {:?}", op)),
            };
            return Ok((r, ov));
        }
        match op {
            Add | Sub | Mul => {
                let t = self.math(op, a, b, k);
                let c = self.in_range(t, k);
                if self.decide(c)? {
                    let r = if k.signed { self.wrap(t, k) } else { t };
                    Ok((self.sc(r, k.size as u32), false))
                } else {
                    let r = self.wrap(t, k);
                    Ok((self.sc(r, k.size as u32), true))
                }
            }
            Shl | Shr => {
                let y = self.conc(b)?;
                let r = self.binop(op, a, S::C(y), k, rk)?;
                Ok((r, y >= 8 * k.size as u128))
            }
            _ => unsup(format!("checked {:?}", op)),
        }
    }
    pub fn discr_pub(&mut self, a: u64, e: &EnumL) -> R<u128> {
        self.discr(a, e)
    }
    fn discr(&mut self, a: u64, e: &EnumL) -> R<u128> {
        let Some(tag) = &e.tag else {
            return Ok(*e.discrs.get(e.single).unwrap_or(&0));
        };
        let v = self.rd(a + tag.off as u64, tag.size as u32)?;
        let v = match v {
            S::C(v) => v,
            S::T(t) => {
                if e.discrs.len() > 64 {
                    return unsup("symbolic enum tag");
                }
                if let Some((unt, first, last, start)) = &tag.niche {
                    // an ordinary value of the payload, as long as it avoids the niche
                    let n = (*last - *first) as u128;
                    if let (Some(end), Some(d)) = (start.checked_add(n), e.discrs.get(*unt)) {
                        if Self::mask(end, tag.size) == end {
                            let (a, b) = (self.ar.ku(*start), self.ar.ku(end));
                            let (l, g) = (self.ar.lt(t, a), self.ar.lt(b, t));
                            let (nl, ng) = (self.ar.not(l), self.ar.not(g));
                            let inside = self.ar.and(&[nl, ng]);
                            if !self.decide(inside)? {
                                return Ok(*d);
                            }
                        }
                    }
                }
                self.concretize(t)?
            }
        };
        match &tag.niche {
            None => {
                // direct tags store the discriminant
                for d in &e.discrs {
                    if Self::mask(*d, tag.size) == v {
                        return Ok(*d);
                    }
                }
                unsup(format!("invalid enum tag {}", v))
            }
            Some((unt, first, last, start)) => {
                let rel = Self::mask(v.wrapping_sub(*start), tag.size);
                let n = (*last - *first) as u128;
                let idx = if rel <= n { *first + rel as usize } else { *unt };
                Ok(e.discrs[idx])
            }
        }
    }
    fn set_discr(&mut self, a: u64, e: &EnumL, v: usize) -> R<()> {
        let Some(tag) = &e.tag else { return Ok(()) };
        match &tag.niche {
            None => {
                let d = Self::mask(e.discrs[v], tag.size);
                self.wr(a + tag.off as u64, tag.size as u32, S::C(d))
            }
            Some((unt, first, _, start)) => {
                if v == *unt {
                    return Ok(());
                }
                let d = Self::mask(start.wrapping_add((v - first) as u128), tag.size);
                self.wr(a + tag.off as u64, tag.size as u32, S::C(d))
            }
        }
    }

    // ---- statements ---------------------------------------------------------------------
    fn stmt(&mut self, st: &St) -> R<()> {
        match st {
            St::Copy(d, o) => {
                if d.size == 0 {
                    return Ok(());
                }
                let (da, _) = self.place(d)?;
                self.op_to(o, da)
            }
            St::Bin { dst, op, a, b, k, rk, elem } => {
                if *op == BinOp::Offset {
                    let p = self.op(a)?;
                    let i = self.op(b)?;
                    let p = self.conc(p)? as u64;
                    let i = self.conc(i)?;
                    let i = Self::sext(i, rk.size) as i64;
                    let r = p.wrapping_add((i as u64).wrapping_mul(*elem));
                    let (da, _) = self.place(dst)?;
                    return self.wr(da, 8, S::C(r as u128));
                }
                let x = self.op(a)?;
                let y = self.op(b)?;
                let r = self.binop(*op, x, y, *k, *rk)?;
                let (da, _) = self.place(dst)?;
                self.wr(da, dst.size, r)
            }
            St::Checked { dst, ov_off, op, a, b, k, rk } => {
                let x = self.op(a)?;
                let y = self.op(b)?;
                let (r, ov) = self.checked(*op, x, y, *k, *rk)?;
                let (da, _) = self.place(dst)?;
                self.wr(da, k.size as u32, r)?;
                self.wr(da + *ov_off as u64, 1, S::C(ov as u128))
            }
            St::Not { dst, a, k, boolean } => {
                let x = self.op(a)?;
                let r = match x {
                    S::C(v) => S::C(if *boolean { (v == 0) as u128 } else { Self::mask(!v, k.size) }),
                    S::T(t) => {
                        if *boolean {
                            let b = self.ar.i2b(t);
                            let nb = self.ar.not(b);
                            let t = self.ar.b2i(nb);
                            self.sc(t, 1)
                        } else {
                            let m = Big::pow2(8 * k.size as u32).sub(&Big::one());
                            let mk = self.ar.k(m);
                            S::T(self.ar.sub(mk, t))
                        }
                    }
                };
                let (da, _) = self.place(dst)?;
                self.wr(da, dst.size, r)
            }
            St::Neg { dst, a, k } => {
                let x = self.op(a)?;
                let r = match x {
                    S::C(v) => S::C(Self::mask(v.wrapping_neg(), k.size)),
                    S::T(t) => {
                        let n = self.ar.scale(t, &Big::from(-1i64));
                        let w = self.wrap(n, *k);
                        self.sc(w, k.size as u32)
                    }
                };
                let (da, _) = self.place(dst)?;
                self.wr(da, dst.size, r)
            }
            St::Ref { dst, place, wide } => {
                let (a, m) = self.place(place)?;
                let (da, _) = self.place(dst)?;
                self.wr(da, 8, S::C(a as u128))?;
                if *wide {
                    self.wr(da + 8, 8, S::C(m as u128))?;
                }
                Ok(())
            }
            St::IntCast { dst, a, from, to } => {
                let x = self.op(a)?;
                let r = self.int_cast(x, *from, *to);
                let (da, _) = self.place(dst)?;
                self.wr(da, to.size as u32, r)
            }
            St::Unsize { dst, a, meta } => {
                let (da, _) = self.place(dst)?;
                self.op_to(a, da)?;
                self.wr(da + 8, 8, S::C(*meta as u128))
            }
            St::Discr { dst, place, e } => {
                let (a, _) = self.place(place)?;
                let v = self.discr(a, e)?;
                let (da, _) = self.place(dst)?;
                self.wr(da, dst.size, S::C(Self::mask(v, dst.size as u8)))
            }
            St::SetDiscr { place, e, v } => {
                let (a, _) = self.place(place)?;
                self.set_discr(a, e, *v)
            }
            St::Agg { dst, parts, disc } => {
                let (da, _) = self.place(dst)?;
                for (off, o) in parts {
                    if o.size() > 0 {
                        self.op_to(o, da + *off as u64)?;
                    }
                }
                if let Some((e, v)) = disc {
                    self.set_discr(da, e, *v)?;
                }
                Ok(())
            }
            St::Repeat { dst, a, n } => {
                let (da, _) = self.place(dst)?;
                let sz = a.size() as u64;
                if sz == 0 {
                    return Ok(());
                }
                if sz == 1 {
                    if let S::C(v) = self.op(a)? {
                        return self.wr_bytes(da, &vec![v as u8; *n as usize]);
                    }
                }
                for i in 0..*n {
                    self.op_to(a, da + i * sz)?;
                }
                Ok(())
            }
            St::Len { dst, place } => {
                let (_, m) = self.place(place)?;
                let (da, _) = self.place(dst)?;
                self.wr(da, 8, S::C(m as u128))
            }
            St::CopyNon { src, dst, n, size } => {
                let s = self.op(src)?;
                let d = self.op(dst)?;
                let n = self.op(n)?;
                let (s, d, n) = (self.conc(s)? as u64, self.conc(d)? as u64, self.conc(n)? as u64);
                self.cp(d, s, n * size)
            }
            St::Unsupported(m) => unsup(m.clone()),
        }
    }
    pub fn int_cast(&mut self, x: S, from: IntK, to: IntK) -> S {
        match x {
            S::C(v) => {
                let v = if from.signed { Self::sext(v, from.size) as u128 } else { v };
                S::C(Self::mask(v, to.size))
            }
            S::T(t) if matches!(self.ar.n[t as usize], N::Ite(..)) && self.ar.leaves(t, 6) => {
                self.lift(t, &mut |e: &mut Ex, v: S| Ok(e.int_cast(v, from, to))).unwrap()
            }
            S::T(t) => {
                let t = if from.signed && to.size > from.size {
                    let s = self.to_signed(t, from.size);
                    self.wrap(s, to)
                } else if to.size < from.size {
                    self.wrap(t, IntK { size: to.size, signed: false })
                } else {
                    t
                };
                self.sc(t, to.size as u32)
            }
        }
    }

    // ---- calls --------------------------------------------------------------------------
    pub fn body(&mut self, fid: u32) -> Option<Rc<Func>> {
        if let Some(b) = &self.cx.fns[fid as usize].body {
            return b.clone();
        }
        let inst = self.cx.fns[fid as usize].inst;
        let f = translate(&mut self.cx, inst).map(Rc::new);
        self.cx.fns[fid as usize].body = Some(f.clone());
        f
    }
    pub fn enter(&mut self, fid: u32, args: &[AV], last_tuple: &Option<Vec<(u32, u32)>>, dst: u64, dst_size: u32, target: Option<usize>, catch: bool) -> R<()> {
        let Some(f) = self.body(fid) else {
            return unsup(format!("no body for {} at {}", self.cx.fns[fid as usize].name, self.stack_top(6)));
        };
        if self.s.frames.len() > 400 {
            return unsup(format!("call depth at {}", self.stack_top(8)));
        }
        self.cx.fns[fid as usize].calls += 1;
        let fp = self.alloc(f.frame as u64)?;
        let set = |ex: &mut Ex, slot: usize, a: &AV| -> R<()> {
            let (o, _) = f.locals[slot];
            ex.av_to(a, fp + o as u64)
        };
        if self.cx.fns[fid as usize].closure_ptr {
            // fn pointer made from a non-capturing closure: environment is zero sized
            if f.spread {
                let (o, _) = f.locals[2];
                for (i, a) in args.iter().enumerate() {
                    self.av_to(a, fp + o as u64 + f.spread_fields[i].0 as u64)?;
                }
            } else {
                for (i, a) in args.iter().enumerate() {
                    set(self, i + 2, a)?;
                }
            }
        } else if f.nargs == args.len() {
            for (i, a) in args.iter().enumerate() {
                set(self, i + 1, a)?;
            }
        } else if let (Some(lt), false) = (last_tuple, f.spread) {
            if f.nargs + 1 != args.len() + lt.len() {
                return unsup(format!("argument count calling {}", f.name));
            }
            for (i, a) in args[..args.len() - 1].iter().enumerate() {
                set(self, i + 1, a)?;
            }
            let base = args.len();
            if let Some(AV::P(p, _)) = args.last() {
                for (i, (o, z)) in lt.iter().enumerate() {
                    let a = AV::P(p + *o as u64, *z);
                    set(self, base + i, &a)?;
                }
            } else if let Some(AV::K(k)) = args.last() {
                for (i, (o, z)) in lt.iter().enumerate() {
                    let a = AV::K(Rc::new(k[*o as usize..(*o + *z) as usize].to_vec()));
                    set(self, base + i, &a)?;
                }
            }
        } else if f.spread && args.len() > f.nargs {
            // untupled call into a spread body
            let base = f.nargs - 1;
            for (i, a) in args[..base].iter().enumerate() {
                set(self, i + 1, a)?;
            }
            let (o, _) = f.locals[f.nargs];
            for (i, a) in args[base..].iter().enumerate() {
                self.av_to(a, fp + o as u64 + f.spread_fields[i].0 as u64)?;
            }
        } else if f.spread && args.len() + 1 == f.nargs && f.spread_fields.is_empty() {
            for (i, a) in args.iter().enumerate() {
                set(self, i + 1, a)?;
            }
        } else {
            return unsup(format!("argument mismatch calling {} ({} vs {})", f.name, args.len(), f.nargs));
        }
        self.s.frames.push(Frame {
            f,
            fid,
            alloc: (fp >> 32) as u32,
            bb: 0,
            st: 0,
            dst,
            dst_size,
            target,
            catch,
        });
        Ok(())
    }
    pub fn goto(&mut self, bb: usize) {
        let f = self.s.frames.last_mut().unwrap();
        f.bb = bb;
        f.st = 0;
    }
    pub fn stack_top(&self, n: usize) -> String {
        self.s
            .frames
            .iter()
            .rev()
            .take(n)
            .map(|f| f.f.name.clone())
            .collect::<Vec<_>>()
            .join(" < ")
    }
    fn ret(&mut self) -> R<bool> {
        let fr = self.s.frames.pop().unwrap();
        let src = addr(fr.alloc, fr.f.locals[0].0);
        if self.s.frames.is_empty() {
            return Ok(true);
        }
        if fr.catch {
            self.wr(fr.dst, 1, S::C(1))?;
        } else if fr.dst_size > 0 && fr.dst != 0 {
            let n = fr.f.locals[0].1.min(fr.dst_size);
            self.cp(fr.dst, src, n as u64)?;
        }
        self.dealloc(addr(fr.alloc, 0));
        match fr.target {
            Some(t) => self.goto(t),
            None => return unsup(format!("{} returned from a diverging call", fr.f.name)),
        }
        Ok(false)
    }
    /// unwind to the innermost catch frame; Ok(false) when there is none
    pub fn unwind(&mut self, msg: &str) -> R<bool> {
        let at = self.stack_top(7);
        let m = format!("{} @ {}", msg, at);
        *self.panic_msgs.entry(m.clone()).or_insert(0) += 1;
        self.s.panics.push(m);
        while let Some(fr) = self.s.frames.pop() {
            self.dealloc(addr(fr.alloc, 0));
            if fr.catch {
                self.wr(fr.dst, 1, S::C(0))?;
                self.goto(fr.target.unwrap());
                return Ok(true);
            }
        }
        Ok(false)
    }
    fn call(&mut self, fid: u32, args: Vec<AV>, dst: u64, dst_size: u32, target: Option<usize>, lt: &Option<Vec<(u32, u32)>>) -> R<()> {
        if self.trace {
            eprintln!("{}call {}", " ".repeat(self.s.frames.len()), self.cx.fns[fid as usize].name);
        }
        match crate::intrin::builtin(self, fid, &args, dst, dst_size, target)? {
            crate::intrin::Handled::Done => match target {
                Some(t) => {
                    self.goto(t);
                    Ok(())
                }
                None => unsup("builtin diverges"),
            },
            crate::intrin::Handled::Entered => Ok(()),
            crate::intrin::Handled::Redirect(f2) => self.enter(f2, &args, lt, dst, dst_size, target, false),
            crate::intrin::Handled::No => self.enter(fid, &args, lt, dst, dst_size, target, false),
        }
    }
    fn term_exec(&mut self, te: &Te) -> R<bool> {
        match te {
            Te::Goto(b) => {
                self.goto(*b);
                Ok(false)
            }
            Te::Switch { d, targets, otherwise } => {
                let v = self.op(d)?;
                match v {
                    S::C(v) => {
                        let t = targets.iter().find(|x| x.0 == v).map_or(*otherwise, |x| x.1);
                        self.goto(t);
                    }
                    S::T(t) => {
                        let mut to = *otherwise;
                        for (k, b) in targets {
                            let kk = self.ar.ku(*k);
                            let e = self.ar.eq(t, kk);
                            if self.decide(e)? {
                                to = *b;
                                break;
                            }
                        }
                        self.goto(to);
                    }
                }
                Ok(false)
            }
            Te::Return => self.ret(),
            Te::Unreachable => unsup(format!("unreachable reached at {}", self.stack_top(6))),
            Te::Diverge(m) => unsup(*m),
            Te::Unsupported(m) => unsup(m.clone()),
            Te::Assert { cond, expected, msg, target } => {
                let v = self.op(cond)?;
                let b = self.boolean(v);
                let r = self.decide(b)?;
                if r == *expected {
                    self.goto(*target);
                    Ok(false)
                } else {
                    Err(Stop::Panic(msg.clone()))
                }
            }
            Te::Drop { place, f, target } => {
                match f {
                    None => self.goto(*target),
                    Some(DropK::Inst(fid, wide)) => {
                        let (a, m) = self.place(place)?;
                        let mut k = a.to_le_bytes().to_vec();
                        if *wide {
                            k.extend_from_slice(&m.to_le_bytes());
                        }
                        self.call(*fid, vec![AV::K(Rc::new(k))], 0, 0, Some(*target), &None)?;
                    }
                    Some(DropK::Dyn) => {
                        let (a, m) = self.place(place)?;
                        self.drop_dyn(a, m, Some(*target))?;
                    }
                }
                Ok(false)
            }
            Te::Call { f, args, dst, target, last_tuple } => {
                let mut av = Vec::with_capacity(args.len());
                for a in args {
                    av.push(self.av(a)?);
                }
                let (da, dn) = if dst.size > 0 && dst.size != u32::MAX {
                    (self.place(dst)?.0, dst.size)
                } else {
                    (0, 0)
                };
                match f {
                    Callee::Inst(fid) => self.call(*fid, av, da, dn, *target, last_tuple)?,
                    Callee::Drop => self.goto(target.unwrap()),
                    Callee::Ptr(o) => {
                        let p = self.op(o)?;
                        let p = self.conc(p)? as u64;
                        let id = p >> 32;
                        if !(FN_BASE..GLOB_BASE as u64).contains(&id) {
                            return unsup(format!("bad function pointer {:#x}", p));
                        }
                        self.call((id - FN_BASE) as u32, av, da, dn, *target, last_tuple)?
                    }
                    Callee::Virtual(idx) => {
                        let (d, vt) = {
                            let a = &av[0];
                            (self.av_u(a, 0, 8)? as u64, self.av_u(a, 8, 8)? as u64)
                        };
                        if *idx == 0 {
                            self.drop_dyn(d, vt, *target)?;
                            return Ok(false);
                        }
                        let p = self.rdp(vt + *idx as u64 * 8)?;
                        let id = p >> 32;
                        if !(FN_BASE..GLOB_BASE as u64).contains(&id) {
                            return unsup(format!("bad vtable entry {:#x} idx {} at {}", p, idx, self.stack_top(4)));
                        }
                        av[0] = AV::K(Rc::new(d.to_le_bytes().to_vec()));
                        self.call((id - FN_BASE) as u32, av, da, dn, *target, last_tuple)?
                    }
                }
                Ok(false)
            }
        }
    }
    pub fn drop_dyn(&mut self, a: u64, vt: u64, target: Option<usize>) -> R<()> {
        let p = self.rdp(vt)?;
        if p == 0 {
            self.goto(target.unwrap());
            return Ok(());
        }
        let fid = ((p >> 32) - FN_BASE) as u32;
        self.call(fid, vec![AV::K(Rc::new(a.to_le_bytes().to_vec()))], 0, 0, target, &None)
    }

    // ---- main loop ----------------------------------------------------------------------
    /// run the current state until its path ends
    fn run_path(&mut self) {
        loop {
            self.steps += 1;
            self.s.steps += 1;
            if self.steps & 0x3fff == 0 {
                if self.t0.elapsed().as_secs() > self.limit_s {
                    self.errors.push(format!("time limit of {} s reached at {}", self.limit_s, self.stack_top(8)));
                    self.work.clear();
                    return;
                }
                if self.s.steps > 400_000_000 {
                    self.errors.push("step limit".into());
                    return;
                }
                let fid = self.s.frames.last().unwrap().fid;
                *self.stepf.entry(fid).or_insert(0) += 1;
            }
            let fr = self.s.frames.last().unwrap();
            let f = fr.f.clone();
            let b = &f.blocks[fr.bb];
            let i = fr.st;
            let r = if i < b.st.len() {
                self.stmt(&b.st[i]).map(|_| {
                    self.s.frames.last_mut().unwrap().st += 1;
                    false
                })
            } else {
                self.term_exec(&b.te)
            };
            match r {
                Ok(false) => {}
                Ok(true) => {
                    self.finish();
                    return;
                }
                Err(Stop::Dead) => {
                    self.dead_paths += 1;
                    return;
                }
                Err(Stop::Panic(m)) => match self.unwind(&m) {
                    Ok(true) => {}
                    Ok(false) => {
                        let last = self.s.panics.last().cloned().unwrap_or_default();
                        self.violation(format!("uncaught panic: {}", last), &[]);
                        return;
                    }
                    Err(e) => {
                        self.errors.push(format!("{:?}", e));
                        return;
                    }
                },
                Err(Stop::Unsup(m)) => {
                    let st = self.stack_top(10);
                    let e = format!("unsupported: {} | at {}", m, st);
                    if self.errors.len() < 20 && !self.errors.contains(&e) {
                        self.errors.push(e);
                    }
                    return;
                }
            }
        }
    }
    /// record a violation if the path (plus extra) has a model
    pub fn violation(&mut self, label: String, extra: &[B]) -> bool {
        let n = self.seen_viol.entry(label.clone()).or_insert(0);
        *n += 1;
        let mut q = self.s.path.clone();
        q.extend_from_slice(extra);
        let r = self.sv.decide(&self.ar, &q);
        match r {
            Res::Sat(m) => {
                let base = Some(Rc::new(Model::new()));
                let m = self.merge_model(&base, &m, &q).unwrap();
                let stack = self.s.panics.clone();
                if self.viols.iter().filter(|v| v.label == label).count() < 4 {
                    let model = self.with_fix(&m);
                    self.viols.push(Viol { label, model, stack });
                }
                true
            }
            Res::Unsat => false,
            Res::Unknown(e) => {
                self.unknowns.push(format!("{}: {}", label, e));
                false
            }
        }
    }
    fn with_fix(&self, m: &Model) -> Model {
        let mut m = m.clone();
        for (k, v) in &self.fix {
            m.insert(k.clone(), Big::from(*v));
        }
        m
    }
    fn finish(&mut self) {
        self.paths += 1;
        for r in self.s.reached.clone() {
            *self.reach.entry(r).or_insert(0) += 1;
        }
        // a concrete witness of the path, with the values the engine predicts
        self.try_model();
        if self.witnesses.len() < self.max_witness {
            if let Some(m) = self.s.model.clone() {
                let mut memo = HashMap::new();
                let ok = self.s.path.iter().all(|&b| self.ar.beval(b, &m, &mut memo) == Some(true));
                if ok {
                    let mut o = vec![];
                    for (n, t) in self.s.obs.clone() {
                        if let Some(v) = self.ar.eval(t, &m, &mut memo) {
                            o.push((n, v.to_string()));
                        }
                    }
                    let m = self.with_fix(&m);
                    self.witnesses.push((m, o));
                }
            }
        }
    }
    pub fn run(&mut self, entry: u32) {
        self.t0 = Instant::now();
        if let Err(e) = self.enter(entry, &[], &None, 0, 0, None, false) {
            self.errors.push(format!("{:?}", e));
            return;
        }
        loop {
            self.run_path();
            if self.paths + self.dead_paths > self.max_paths {
                self.errors.push("path limit".into());
                return;
            }
            if let Some(k) = &self.stop_unless {
                if self.viols.iter().any(|v| !k.contains(&v.label)) {
                    self.stopped = true;
                    return;
                }
            }
            // mostly depth first, with a look elsewhere now and then
            let n = self.work.len();
            self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            if n > 8 && (self.paths + self.dead_paths) % 4 == 3 {
                let i = (self.rng >> 33) as usize % n;
                self.work.swap(i, n - 1);
            }
            match self.work.pop() {
                Some(s) => self.s = s,
                None => return,
            }
        }
    }
    /// check obligations
    pub fn check(&mut self, b: B, label: &str) -> R<()> {
        let st = self.checks.entry(label.to_string()).or_default();
        st.queries += 1;
        if b == TRUE || self.known(b) == Some(true) {
            self.checks.get_mut(label).unwrap().folded += 1;
            return Ok(());
        }
        let nb = self.ar.not(b);
        let sl = slice(&mut self.ar, &self.s.path, &[nb]);
        let r = self.sv.decide(&self.ar, &sl);
        match r {
            Res::Unsat => {
                self.checks.get_mut(label).unwrap().by_solver += 1;
                self.ar.learn(b, &mut self.s.rf);
                Ok(())
            }
            Res::Sat(m) => {
                // whole-path model
                self.try_model();
                let base = self.s.model.clone();
                let mm = match self.merge_model(&base, &m, &sl) {
                    Some(m) => Some((*m).clone()),
                    None => {
                        let mut q = self.s.path.clone();
                        q.push(nb);
                        match self.sv.decide(&self.ar, &q) {
                            Res::Sat(m) => Some((*m).clone()),
                            Res::Unsat => None,
                            Res::Unknown(e) => {
                                self.unknowns.push(format!("{}: {}", label, e));
                                None
                            }
                        }
                    }
                };
                if let Some(mm) = mm {
                    self.checks.get_mut(label).unwrap().violated += 1;
                    let stack = self.s.panics.clone();
                    if self.viols.iter().filter(|v| v.label == label).count() < 6 {
                        let model = self.with_fix(&mm);
                        self.viols.push(Viol { label: label.to_string(), model, stack });
                    }
                }
                // continue on the side where it holds, if any
                let r = self.ar.beval(b, self.s.model.as_ref().unwrap_or(&Rc::new(Model::new())), &mut HashMap::new());
                if r != Some(true) {
                    let sl = slice(&mut self.ar, &self.s.path, &[b]);
                    match self.sv.feasible(&self.ar, &sl) {
                        Res::Unsat => return Err(Stop::Dead),
                        Res::Sat(m) => {
                            let base = self.s.model.clone();
                            self.s.model = self.merge_model(&base, &m, &sl);
                        }
                        _ => self.s.model = None,
                    }
                }
                self.assume_true(b);
                Ok(())
            }
            Res::Unknown(e) => {
                self.checks.get_mut(label).unwrap().unknown += 1;
                self.unknowns.push(format!("{}: {}", label, e));
                Ok(())
            }
        }
    }
    /// a fact the solver may use in later questions, if it can show it here
    pub fn hint(&mut self, b: B) {
        if b == TRUE || self.s.path.contains(&b) {
            return;
        }
        if self.ar.quick(b, &self.s.rf) != Some(true) {
            let nb = self.ar.not(b);
            let sl = slice(&mut self.ar, &self.s.path, &[nb]);
            let keep = self.sv.final_s;
            self.sv.final_s = keep.min(20);
            let r = self.sv.decide(&self.ar, &sl);
            self.sv.final_s = keep;
            if !matches!(r, Res::Unsat) {
                self.hints_lost += 1;
                return;
            }
        }
        self.hints_used += 1;
        self.assume_true(b);
    }
    pub fn assume(&mut self, b: B) -> R<()> {
        match self.ar.quick(b, &self.s.rf) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Dead),
            None => {}
        }
        let holds = match self.s.model.clone() {
            Some(m) => self.ar.beval(b, &m, &mut HashMap::new()) == Some(true),
            None => false,
        };
        if !holds {
            let sl = slice(&mut self.ar, &self.s.path, &[b]);
            match self.sv.feasible(&self.ar, &sl) {
                Res::Unsat => return Err(Stop::Dead),
                Res::Sat(m) => {
                    let base = self.s.model.clone();
                    self.s.model = self.merge_model(&base, &m, &sl);
                }
                Res::Unknown(_) => self.s.model = None,
            }
        }
        self.assume_true(b);
        Ok(())
    }
    pub fn used(&mut self, what: &str) {
        match self.stub_used.get_mut(what) {
            Some(n) => *n += 1,
            None => {
                self.stub_used.insert(what.to_string(), 1);
            }
        }
    }
    pub fn anon(&mut self, name: &str) -> String {
        let n = self.s.names.entry(name.to_string()).or_insert(0);
        let s = if *n == 0 { name.to_string() } else { format!("{}.{}", name, n) };
        *n += 1;
        s
    }
}
