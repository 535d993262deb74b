//! Hash-consed integer and boolean terms. Integers are mathematical; machine widths are made
//! explicit by the executor (floor division / modulus), so no wrap-around is ever lost.
use crate::big::Big;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type T = u32;
pub type B = u32;
pub type Iv = (Option<Big>, Option<Big>);
pub type Mono = Vec<T>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Var(String),
    /// sorted monomials (sorted atom lists, non-empty) with non-zero coefficients, plus constant
    Poly(Vec<(Mono, Big)>, Big),
    Div(T, T),
    Ite(B, T, T),
    Sqrt(T),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BN {
    True,
    False,
    Var(String),
    Not(B),
    And(Vec<B>),
    Or(Vec<B>),
    Ge0(T),
    Eq0(T),
}
pub const TRUE: B = 0;
pub const FALSE: B = 1;

/// Facts learned on a path, used for cheap folding.
#[derive(Clone, Default)]
pub struct Refine {
    pub iv: HashMap<T, Iv>,
    pub forms: HashMap<T, Iv>,
    pub truth: HashMap<B, bool>,
}

pub struct Arena {
    pub n: Vec<N>,
    nmap: HashMap<N, T>,
    pub b: Vec<BN>,
    bmap: HashMap<BN, B>,
    iv: Vec<Iv>,
    nsup: Vec<Option<Rc<BTreeSet<u32>>>>,
    bsup: Vec<Option<Rc<BTreeSet<u32>>>>,
}

fn iv_add(a: &Iv, b: &Iv) -> Iv {
    let f = |x: &Option<Big>, y: &Option<Big>| match (x, y) {
        (Some(x), Some(y)) => Some(x.add(y)),
        _ => None,
    };
    (f(&a.0, &b.0), f(&a.1, &b.1))
}
fn iv_scale(a: &Iv, k: &Big) -> Iv {
    if k.is_zero() {
        return (Some(Big::zero()), Some(Big::zero()));
    }
    let l = a.0.as_ref().map(|x| x.mul(k));
    let h = a.1.as_ref().map(|x| x.mul(k));
    if k.is_neg() {
        (h, l)
    } else {
        (l, h)
    }
}
fn iv_mul(a: &Iv, b: &Iv) -> Iv {
    // common case: both non-negative
    let nn = |x: &Iv| x.0.as_ref().map_or(false, |v| !v.is_neg());
    if nn(a) && nn(b) {
        let lo = a.0.as_ref().unwrap().mul(b.0.as_ref().unwrap());
        let hi = match (&a.1, &b.1) {
            (Some(x), Some(y)) => Some(x.mul(y)),
            _ => None,
        };
        return (Some(lo), hi);
    }
    match (&a.0, &a.1, &b.0, &b.1) {
        (Some(al), Some(ah), Some(bl), Some(bh)) => {
            let c = [al.mul(bl), al.mul(bh), ah.mul(bl), ah.mul(bh)];
            (c.iter().min().cloned(), c.iter().max().cloned())
        }
        _ => (None, None),
    }
}
pub fn iv_meet(a: &Iv, b: &Iv) -> Iv {
    let lo = match (&a.0, &b.0) {
        (Some(x), Some(y)) => Some(if x > y { x.clone() } else { y.clone() }),
        (Some(x), None) | (None, Some(x)) => Some(x.clone()),
        _ => None,
    };
    let hi = match (&a.1, &b.1) {
        (Some(x), Some(y)) => Some(if x < y { x.clone() } else { y.clone() }),
        (Some(x), None) | (None, Some(x)) => Some(x.clone()),
        _ => None,
    };
    (lo, hi)
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            n: vec![],
            nmap: HashMap::new(),
            b: vec![],
            bmap: HashMap::new(),
            iv: vec![],
            nsup: vec![],
            bsup: vec![],
        };
        a.bmk(BN::True);
        a.bmk(BN::False);
        a
    }
    fn nmk(&mut self, n: N, iv: Option<Iv>) -> T {
        if let Some(&t) = self.nmap.get(&n) {
            return t;
        }
        let iv = match iv {
            Some(i) => i,
            None => self.compute_iv(&n, None, &mut HashMap::new()),
        };
        let t = self.n.len() as T;
        self.n.push(n.clone());
        self.iv.push(iv);
        self.nsup.push(None);
        self.nmap.insert(n, t);
        t
    }
    fn bmk(&mut self, n: BN) -> B {
        if let Some(&t) = self.bmap.get(&n) {
            return t;
        }
        let t = self.b.len() as B;
        self.b.push(n.clone());
        self.bsup.push(None);
        self.bmap.insert(n, t);
        t
    }
    pub fn var(&mut self, name: &str, lo: Big, hi: Big) -> T {
        if lo == hi {
            return self.k(lo);
        }
        self.nmk(N::Var(name.to_string()), Some((Some(lo), Some(hi))))
    }
    pub fn bvar(&mut self, name: &str) -> B {
        self.bmk(BN::Var(name.to_string()))
    }
    pub fn k(&mut self, v: Big) -> T {
        self.nmk(N::Poly(vec![], v), None)
    }
    pub fn ku(&mut self, v: u128) -> T {
        self.k(Big::from(v))
    }
    pub fn as_const(&self, t: T) -> Option<&Big> {
        match &self.n[t as usize] {
            N::Poly(v, k) if v.is_empty() => Some(k),
            _ => None,
        }
    }
    fn poly_of(&self, t: T) -> (Vec<(Mono, Big)>, Big) {
        match &self.n[t as usize] {
            N::Poly(v, k) => (v.clone(), k.clone()),
            _ => (vec![(vec![t], Big::one())], Big::zero()),
        }
    }
    fn mk_poly(&mut self, v: Vec<(Mono, Big)>, k: Big) -> T {
        if v.len() == 1 && k.is_zero() && v[0].0.len() == 1 && v[0].1.is_one() {
            return v[0].0[0];
        }
        self.nmk(N::Poly(v, k), None)
    }
    fn from_map(&mut self, m: BTreeMap<Mono, Big>, k: Big) -> T {
        let v: Vec<_> = m.into_iter().filter(|(_, c)| !c.is_zero()).collect();
        self.mk_poly(v, k)
    }
    pub fn lin(&mut self, a: T, ca: &Big, b: T, cb: &Big) -> T {
        let (pa, ka) = self.poly_of(a);
        let (pb, kb) = self.poly_of(b);
        let k = ka.mul(ca).add(&kb.mul(cb));
        if pa.is_empty() && pb.is_empty() {
            return self.k(k);
        }
        let mut m: BTreeMap<Mono, Big> = BTreeMap::new();
        if !ca.is_zero() {
            for (mo, c) in pa {
                m.insert(mo, c.mul(ca));
            }
        }
        if !cb.is_zero() {
            for (mo, c) in pb {
                let c = c.mul(cb);
                let e = m.entry(mo).or_default();
                *e = e.add(&c);
            }
        }
        self.from_map(m, k)
    }
    /// coefficient of an atom by itself
    pub fn coefficient(&self, t: T, x: T) -> Big {
        if t == x {
            return Big::one();
        }
        match &self.n[t as usize] {
            N::Poly(v, _) => v.iter().find(|(m, _)| m.len() == 1 && m[0] == x).map(|(_, c)| c.clone()).unwrap_or_default(),
            _ => Big::zero(),
        }
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let o = Big::one();
        self.lin(a, &o, b, &o)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let o = Big::one();
        self.lin(a, &o, b, &o.neg())
    }
    pub fn scale(&mut self, a: T, k: &Big) -> T {
        let z = self.k(Big::zero());
        self.lin(a, k, z, &Big::zero())
    }
    pub fn addk(&mut self, a: T, k: &Big) -> T {
        let kk = self.k(k.clone());
        self.add(a, kk)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        if let Some(k) = self.as_const(a).cloned() {
            return self.scale(b, &k);
        }
        if let Some(k) = self.as_const(b).cloned() {
            return self.scale(a, &k);
        }
        let (mut pa, ka) = self.poly_of(a);
        let (mut pb, kb) = self.poly_of(b);
        if !ka.is_zero() {
            pa.push((vec![], ka));
        }
        if !kb.is_zero() {
            pb.push((vec![], kb));
        }
        let mut m: BTreeMap<Mono, Big> = BTreeMap::new();
        for (ma, ca) in &pa {
            for (mb, cb) in &pb {
                let mut mo = ma.clone();
                mo.extend_from_slice(mb);
                mo.sort_unstable();
                let c = ca.mul(cb);
                let e = m.entry(mo).or_default();
                *e = e.add(&c);
            }
        }
        let k = m.remove(&vec![]).unwrap_or_default();
        self.from_map(m, k)
    }
    /// floor(a / b); the caller guarantees b > 0 on the current path
    pub fn div(&mut self, a: T, b: T) -> T {
        if let Some(c) = self.as_const(b).cloned() {
            assert!(!c.is_zero() && !c.is_neg(), "division by {}", c);
            return self.divk(a, &c);
        }
        if self.as_const(a).map_or(false, |k| k.is_zero()) {
            return a;
        }
        // common factor of all coefficients
        {
            let (pb, kb) = self.poly_of(b);
            let (pa, ka) = self.poly_of(a);
            let mut g = kb.clone();
            for (_, c) in pb.iter().chain(&pa) {
                g = g.gcd(c);
            }
            let g = g.abs();
            if !g.is_zero() && !g.is_one() {
                let sc = |v: &[(Mono, Big)]| -> BTreeMap<Mono, Big> { v.iter().map(|(m, c)| (m.clone(), c.div_floor(&g))).collect() };
                let a2 = self.from_map(sc(&pa), ka.div_floor(&g));
                let b2 = self.from_map(sc(&pb), kb.div_floor(&g));
                return self.div(a2, b2);
            }
        }
        // pull out multiples of a single-monomial divisor
        let (pb, kb) = self.poly_of(b);
        if pb.len() == 1 && kb.is_zero() && pb[0].1.is_one() {
            let bm = pb[0].0.clone();
            let (pa, ka) = self.poly_of(a);
            let mut q: BTreeMap<Mono, Big> = BTreeMap::new();
            let mut qk = Big::zero();
            let mut r: BTreeMap<Mono, Big> = BTreeMap::new();
            for (mo, c) in pa {
                if let Some(rest) = mono_div(&mo, &bm) {
                    if rest.is_empty() {
                        qk = qk.add(&c);
                    } else {
                        q.insert(rest, c);
                    }
                } else {
                    r.insert(mo, c);
                }
            }
            if !q.is_empty() || !qk.is_zero() {
                let qt = self.from_map(q, qk);
                let rt = self.from_map(r, ka);
                let d = self.div(rt, b);
                return self.add(qt, d);
            }
        }
        // trivial quotient by bounds
        let ia = self.iv[a as usize].clone();
        let ib = self.iv[b as usize].clone();
        if let ((Some(al), Some(ah)), (Some(bl), _)) = (&ia, &ib) {
            if !al.is_neg() && ah < bl {
                return self.k(Big::zero());
            }
        }
        self.nmk(N::Div(a, b), None)
    }
    pub fn divk(&mut self, a: T, c: &Big) -> T {
        if c.is_one() {
            return a;
        }
        let (pa, ka) = self.poly_of(a);
        let mut q: BTreeMap<Mono, Big> = BTreeMap::new();
        let mut r: BTreeMap<Mono, Big> = BTreeMap::new();
        let (qk, rk) = ka.divmod_floor(c);
        for (mo, co) in pa {
            let (x, y) = co.divmod_floor(c);
            // keep negative remainders small in magnitude: only split exact multiples
            if y.is_zero() {
                q.insert(mo, x);
            } else {
                r.insert(mo, co);
            }
        }
        if r.is_empty() {
            return self.from_map(q, qk);
        }
        let rt = self.from_map(r.clone(), rk.clone());
        let iv = self.iv_full(rt, None);
        let whole = |iv: &Iv| match iv {
            (Some(l), Some(h)) => {
                let (a, b) = (l.div_floor(c), h.div_floor(c));
                if a == b {
                    Some(a)
                } else {
                    None
                }
            }
            _ => None,
        };
        let d = if let Some(v) = whole(&iv) {
            self.k(v)
        } else {
            // common factor of coefficients and divisor
            let mut g = c.clone();
            for co in r.values() {
                g = g.gcd(co);
            }
            if !g.is_one() {
                let m2: BTreeMap<Mono, Big> =
                    r.iter().map(|(m, co)| (m.clone(), co.div_floor(&g))).collect();
                let t2 = self.from_map(m2, rk.div_floor(&g));
                let c2 = c.div_floor(&g);
                self.divk(t2, &c2)
            } else if let N::Sqrt(x) = self.n[rt as usize].clone() {
                // floor(isqrt(x) / c) = isqrt(floor(x / c^2))
                let x2 = self.divk(x, &c.mul(c));
                self.sqrt(x2)
            } else if let N::Div(x, y) = self.n[rt as usize].clone() {
                if let Some(c2) = self.as_const(y).cloned() {
                    let cc = c.mul(&c2);
                    self.divk(x, &cc)
                } else {
                    let ct = self.k(c.clone());
                    self.nmk(N::Div(rt, ct), None)
                }
            } else {
                let ct = self.k(c.clone());
                self.nmk(N::Div(rt, ct), None)
            }
        };
        if q.is_empty() && qk.is_zero() {
            return d;
        }
        let qt = self.from_map(q, qk);
        self.add(qt, d)
    }
    /// drop carries (quotients by large powers of two) whose value the path fixes
    pub fn settle(&mut self, t: T, rf: &Refine) -> T {
        let mut hits: Vec<(T, Big)> = vec![];
        {
            let mut look = |x: T| {
                if let N::Div(_, c) = self.n[x as usize] {
                    if let Some(c) = self.as_const(c) {
                        if c.bits() > 64 && c.trailing_zeros() + 64 >= c.bits() {
                            if let (Some(l), Some(h)) = self.iv_full(x, Some(rf)) {
                                if l == h && !hits.iter().any(|(y, _)| *y == x) {
                                    hits.push((x, l));
                                }
                            }
                        }
                    }
                }
            };
            match &self.n[t as usize] {
                N::Poly(v, _) => {
                    for (mo, _) in v {
                        for &x in mo {
                            look(x);
                        }
                    }
                }
                N::Div(..) => look(t),
                _ => {}
            }
        }
        if hits.is_empty() {
            return t;
        }
        let (v, k) = self.poly_of(t);
        let mut m: BTreeMap<Mono, Big> = BTreeMap::new();
        let mut k = k;
        for (mo, c) in v {
            let mut c = c;
            let mut r: Mono = vec![];
            for x in mo {
                match hits.iter().find(|(y, _)| *y == x) {
                    Some((_, val)) => c = c.mul(val),
                    None => r.push(x),
                }
            }
            if r.is_empty() {
                k = k.add(&c);
            } else {
                let e = m.entry(r).or_default();
                *e = e.add(&c);
            }
        }
        self.from_map(m, k)
    }
    pub fn modk(&mut self, a: T, c: &Big) -> T {
        let q = self.divk(a, c);
        self.lin(a, &Big::one(), q, &c.neg())
    }
    pub fn rem(&mut self, a: T, b: T) -> T {
        let q = self.div(a, b);
        let p = self.mul(q, b);
        self.sub(a, p)
    }
    pub fn sqrt(&mut self, a: T) -> T {
        if let Some(k) = self.as_const(a) {
            let s = k.isqrt();
            return self.k(s);
        }
        self.nmk(N::Sqrt(a), None)
    }
    pub fn ite(&mut self, c: B, x: T, y: T) -> T {
        if c == TRUE || x == y {
            return x;
        }
        if c == FALSE {
            return y;
        }
        self.nmk(N::Ite(c, x, y), None)
    }

    // ---- bounds -------------------------------------------------------------------------
    pub fn iv0(&self, t: T) -> &Iv {
        &self.iv[t as usize]
    }
    pub fn iv_full(&self, t: T, rf: Option<&Refine>) -> Iv {
        match rf {
            None => self.iv[t as usize].clone(),
            Some(_) => self.iv_rec(t, rf, &mut HashMap::new()),
        }
    }
    fn iv_rec(&self, t: T, rf: Option<&Refine>, memo: &mut HashMap<T, Iv>) -> Iv {
        let Some(r) = rf else {
            return self.iv[t as usize].clone();
        };
        if self.as_const(t).is_some() {
            return self.iv[t as usize].clone();
        }
        if let Some(i) = memo.get(&t) {
            return i.clone();
        }
        let mut i = self.iv[t as usize].clone();
        if let Some(x) = r.iv.get(&t) {
            i = iv_meet(&i, x);
        }
        if !matches!(self.n[t as usize], N::Var(_)) {
            let n = self.n[t as usize].clone();
            let x = self.compute_iv(&n, rf, memo);
            i = iv_meet(&i, &x);
        }
        memo.insert(t, i.clone());
        i
    }
    fn compute_iv(&self, n: &N, rf: Option<&Refine>, memo: &mut HashMap<T, Iv>) -> Iv {
        match n {
            N::Var(_) => (None, None),
            N::Poly(v, k) => {
                let mut best = self.poly_iv(v, k, rf, memo, 0);
                if let Some(r) = rf {
                    if let Some((f, scale, shift)) = self.form_of(v, k) {
                        if let Some(fi) = r.forms.get(&f) {
                            // poly = scale*form + shift
                            let i = iv_add(
                                &iv_scale(fi, &scale),
                                &(Some(shift.clone()), Some(shift)),
                            );
                            best = iv_meet(&best, &i);
                        }
                    }
                }
                best
            }
            N::Div(a, b) => {
                let ia = self.iv_rec(*a, rf, memo);
                let ib = self.iv_rec(*b, rf, memo);
                let one = Big::one();
                let bl = match &ib.0 {
                    Some(x) if *x > one => x.clone(),
                    _ => one,
                };
                let lo = match &ia.0 {
                    Some(x) if x.is_neg() => Some(x.div_floor(&bl)),
                    Some(x) => Some(match &ib.1 {
                        Some(bh) if !bh.is_zero() && !bh.is_neg() => x.div_floor(bh),
                        _ => Big::zero(),
                    }),
                    None => None,
                };
                let hi = match &ia.1 {
                    Some(x) if !x.is_neg() => Some(x.div_floor(&bl)),
                    Some(_) => Some(Big::from(-1i64)),
                    None => None,
                };
                let mut hi = hi;
                // a = m*r, b >= k*m: the quotient is at most r/k
                let (pb, kb) = self.poly_of(*b);
                let (pa, ka) = self.poly_of(*a);
                if pb.len() <= 4 && !kb.is_neg() && (ka.is_zero() || ka.is_neg()) && self.as_const(*b).is_none() {
                    let pos = pb.iter().all(|(mo, c)| !c.is_neg() && mo.iter().all(|x| self.iv_rec(*x, rf, memo).0.map_or(false, |l| !l.is_neg())));
                    if pos {
                        for (m, k) in &pb {
                            let mut rest = vec![];
                            let mut rk = Big::zero();
                            let mut ok = !pa.is_empty();
                            for (mo, c) in &pa {
                                match mono_div(mo, m) {
                                    Some(r) if r.is_empty() => rk = rk.add(c),
                                    Some(r) => rest.push((r, c.clone())),
                                    None => ok = false,
                                }
                            }
                            if ok {
                                let ri = self.poly_iv(&rest, &rk, rf, memo, 3);
                                if let Some(h) = ri.1 {
                                    let h = if h.is_neg() { Big::zero() } else { h.div_floor(k) };
                                    hi = iv_meet(&(None, hi), &(None, Some(h))).1;
                                }
                            }
                        }
                    }
                }
                (lo, hi)
            }
            N::Ite(_, x, y) => {
                let a = self.iv_rec(*x, rf, memo);
                let b = self.iv_rec(*y, rf, memo);
                let lo = match (&a.0, &b.0) {
                    (Some(x), Some(y)) => Some(x.min(y).clone()),
                    _ => None,
                };
                let hi = match (&a.1, &b.1) {
                    (Some(x), Some(y)) => Some(x.max(y).clone()),
                    _ => None,
                };
                (lo, hi)
            }
            N::Sqrt(a) => {
                let ia = self.iv_rec(*a, rf, memo);
                let f = |x: &Option<Big>| {
                    x.as_ref()
                        .map(|v| if v.is_neg() { Big::zero() } else { v.isqrt() })
                };
                (f(&ia.0).or(Some(Big::zero())), f(&ia.1))
            }
        }
    }
    fn poly_iv(
        &self,
        v: &[(Mono, Big)],
        k: &Big,
        rf: Option<&Refine>,
        memo: &mut HashMap<T, Iv>,
        depth: u32,
    ) -> Iv {
        let mut s: Iv = (Some(k.clone()), Some(k.clone()));
        for (mo, c) in v {
            let mut m: Iv = (Some(Big::one()), Some(Big::one()));
            for &x in mo {
                let xi = self.iv_rec(x, rf, memo);
                m = iv_mul(&m, &xi);
            }
            s = iv_add(&s, &iv_scale(&m, c));
        }
        if depth > 4 || v.len() < 2 || (v.len() > 10 && depth > 0) || v.len() > 40 {
            return s;
        }
        // m*floor(a/c) = (m*a - m*rem)/c where that cancels something
        for (mo, m) in v {
            if mo.len() != 1 {
                continue;
            }
            let N::Div(a, cb) = self.n[mo[0] as usize] else {
                continue;
            };
            let Some(c) = self.as_const(cb) else { continue };
            let (pa, pk) = self.poly_of(a);
            if !pa.iter().any(|(pm, pc)| v.iter().any(|(vm, vc)| vm == pm && (pc.mul(m).is_neg() != vc.is_neg()))) {
                continue;
            }
            let mut map: BTreeMap<Mono, Big> = v.iter().filter(|x| x.0 != *mo).map(|(x, k)| (x.clone(), k.mul(c))).collect();
            for (pm, pc) in &pa {
                let d = pc.mul(m);
                let e = map.entry(pm.clone()).or_default();
                *e = e.add(&d);
            }
            let rest: Vec<_> = map.into_iter().filter(|(_, c)| !c.is_zero()).collect();
            if rest.len() >= v.len() {
                continue;
            }
            let rk = k.mul(c).add(&pk.mul(m));
            let ri = self.poly_iv(&rest, &rk, rf, memo, depth + 1);
            let mi = iv_scale(&(Some(Big::zero()), Some(c.sub(&Big::one()))), &m.neg());
            let i = iv_add(&ri, &mi);
            let i = (i.0.map(|x| x.neg().div_floor(c).neg()), i.1.map(|x| x.div_floor(c)));
            s = iv_meet(&s, &i);
        }
        // remainder patterns: k*(A1 - (c/c1)*A2) with A1 = floor(a/c1), A2 = floor(a/c)
        for (mo, m) in v {
            if mo.len() != 1 || !m.is_neg() {
                continue;
            }
            let N::Div(a, cb) = self.n[mo[0] as usize] else {
                continue;
            };
            let Some(c) = self.as_const(cb) else { continue };
            // candidates for A1: other divisions of the same numerator, or the numerator itself
            let mut cands: Vec<(Vec<(Mono, Big)>, Big, Big)> = vec![];
            for (mo2, _) in v {
                if mo2.len() == 1 && mo2 != mo {
                    if let N::Div(a2, c1b) = self.n[mo2[0] as usize] {
                        if a2 == a {
                            if let Some(c1) = self.as_const(c1b) {
                                let (q, r) = c.divmod_floor(c1);
                                if r.is_zero() {
                                    cands.push((vec![(mo2.clone(), Big::one())], Big::zero(), q));
                                }
                            }
                        }
                    }
                }
            }
            let (pa, pk) = self.poly_of(a);
            cands.push((pa, pk, c.clone()));
            for (pa, pk, q) in cands {
                let (kk, r) = m.neg().divmod_floor(&q);
                if !r.is_zero() {
                    continue;
                }
                // R = P - kk*(pa - q*A2)
                let mut map: BTreeMap<Mono, Big> = v.iter().cloned().collect();
                map.remove(mo);
                for (pm, pc) in &pa {
                    let d = pc.mul(&kk);
                    let e = map.entry(pm.clone()).or_default();
                    *e = e.sub(&d);
                }
                let rest: Vec<_> = map.into_iter().filter(|(_, c)| !c.is_zero()).collect();
                if rest.len() >= v.len() {
                    continue;
                }
                let rk = k.sub(&pk.mul(&kk));
                let ri = self.poly_iv(&rest, &rk, rf, memo, depth + 1);
                let mi = iv_scale(
                    &(Some(Big::zero()), Some(q.sub(&Big::one()))),
                    &kk,
                );
                s = iv_meet(&s, &iv_add(&ri, &mi));
            }
        }
        s
    }
    /// normalised form: poly = scale*form + shift (form has no constant, gcd 1, first coeff > 0)
    fn form_of(&self, v: &[(Mono, Big)], k: &Big) -> Option<(T, Big, Big)> {
        if v.is_empty() {
            return None;
        }
        let mut g = Big::zero();
        for (_, c) in v {
            g = g.gcd(c);
        }
        if v[0].1.is_neg() {
            g = g.neg();
        }
        let w: Vec<_> = v
            .iter()
            .map(|(m, c)| (m.clone(), c.div_floor(&g)))
            .collect();
        if w.len() == 1 && w[0].0.len() == 1 {
            return Some((w[0].0[0], g, k.clone()));
        }
        self.nmap
            .get(&N::Poly(w, Big::zero()))
            .map(|&t| (t, g, k.clone()))
    }
    fn form_mk(&mut self, t: T) -> Option<(T, Big, Big)> {
        let (v, k) = self.poly_of(t);
        if v.is_empty() {
            return None;
        }
        if let Some(x) = self.form_of(&v, &k) {
            return Some(x);
        }
        let mut g = Big::zero();
        for (_, c) in &v {
            g = g.gcd(c);
        }
        if v[0].1.is_neg() {
            g = g.neg();
        }
        let w: Vec<_> = v
            .iter()
            .map(|(m, c)| (m.clone(), c.div_floor(&g)))
            .collect();
        let f = self.nmk(N::Poly(w, Big::zero()), None);
        Some((f, g, k))
    }

    // ---- booleans -----------------------------------------------------------------------
    pub fn ge0(&mut self, t: T) -> B {
        let iv = &self.iv[t as usize];
        if let Some(l) = &iv.0 {
            if !l.is_neg() {
                return TRUE;
            }
        }
        if let Some(h) = &iv.1 {
            if h.is_neg() {
                return FALSE;
            }
        }
        if let N::Ite(c, x, y) = self.n[t as usize] {
            if self.leaves(x, 4) && self.leaves(y, 4) {
                let a = self.ge0(x);
                let b = self.ge0(y);
                return self.bite(c, a, b);
            }
        }
        // normalise by gcd of coefficients
        let (v, k) = self.poly_of(t);
        let mut g = Big::zero();
        for (_, c) in &v {
            g = g.gcd(c);
        }
        let t = if !g.is_one() {
            let w: Vec<_> = v.iter().map(|(m, c)| (m.clone(), c.div_floor(&g))).collect();
            let k = k.div_floor(&g);
            self.mk_poly(w, k)
        } else {
            t
        };
        self.bmk(BN::Ge0(t))
    }
    /// is this a case distinction (of at most the given depth) over constants?
    pub fn leaves(&self, t: T, depth: u32) -> bool {
        match &self.n[t as usize] {
            N::Ite(_, x, y) => depth > 0 && self.leaves(*x, depth - 1) && self.leaves(*y, depth - 1),
            N::Poly(v, _) => v.is_empty(),
            _ => false,
        }
    }
    pub fn ge(&mut self, a: T, b: T) -> B {
        for (x, y, flip) in [(a, b, false), (b, a, true)] {
            if let N::Ite(c, p, q) = self.n[x as usize] {
                if self.as_const(y).is_some() && self.leaves(x, 6) {
                    let (u, v) = if flip { (self.ge(y, p), self.ge(y, q)) } else { (self.ge(p, y), self.ge(q, y)) };
                    return self.bite(c, u, v);
                }
            }
        }
        let d = self.sub(a, b);
        self.ge0(d)
    }
    pub fn lt(&mut self, a: T, b: T) -> B {
        let x = self.ge(a, b);
        self.not(x)
    }
    pub fn eq(&mut self, a: T, b: T) -> B {
        for (x, y) in [(a, b), (b, a)] {
            if let N::Ite(c, p, q) = self.n[x as usize] {
                if self.as_const(y).is_some() && self.leaves(x, 6) {
                    let (u, v) = (self.eq(p, y), self.eq(q, y));
                    return self.bite(c, u, v);
                }
            }
        }
        let d = self.sub(a, b);
        if let Some(k) = self.as_const(d) {
            return if k.is_zero() { TRUE } else { FALSE };
        }
        let iv = &self.iv[d as usize];
        if iv.0.as_ref().map_or(false, |l| !l.is_neg() && !l.is_zero())
            || iv.1.as_ref().map_or(false, |h| h.is_neg())
        {
            return FALSE;
        }
        let (v, k) = self.poly_of(d);
        let mut g = Big::zero();
        for (_, c) in &v {
            g = g.gcd(c);
        }
        if v[0].1.is_neg() {
            g = g.neg();
        }
        let (q, r) = k.divmod_floor(&g);
        if !r.is_zero() {
            return FALSE;
        }
        let w: Vec<_> = v.iter().map(|(m, c)| (m.clone(), c.div_floor(&g))).collect();
        let d = self.mk_poly(w, q);
        self.bmk(BN::Eq0(d))
    }
    pub fn not(&mut self, b: B) -> B {
        match self.b[b as usize].clone() {
            BN::True => FALSE,
            BN::False => TRUE,
            BN::Not(x) => x,
            BN::Ge0(t) => {
                // -t - 1 >= 0
                let o = Big::one();
                let z = self.k(Big::zero());
                let m = self.lin(z, &Big::zero(), t, &o.neg());
                let m = self.addk(m, &o.neg());
                self.ge0(m)
            }
            _ => self.bmk(BN::Not(b)),
        }
    }
    pub fn and(&mut self, xs: &[B]) -> B {
        let mut s = BTreeSet::new();
        for &x in xs {
            match &self.b[x as usize] {
                BN::True => {}
                BN::False => return FALSE,
                BN::And(v) => s.extend(v.iter().copied()),
                _ => {
                    s.insert(x);
                }
            }
        }
        for &x in s.clone().iter() {
            let n = self.not(x);
            if s.contains(&n) {
                return FALSE;
            }
        }
        match s.len() {
            0 => TRUE,
            1 => *s.iter().next().unwrap(),
            _ => self.bmk(BN::And(s.into_iter().collect())),
        }
    }
    pub fn or(&mut self, xs: &[B]) -> B {
        let mut s = BTreeSet::new();
        for &x in xs {
            match &self.b[x as usize] {
                BN::False => {}
                BN::True => return TRUE,
                BN::Or(v) => s.extend(v.iter().copied()),
                _ => {
                    s.insert(x);
                }
            }
        }
        for &x in s.clone().iter() {
            let n = self.not(x);
            if s.contains(&n) {
                return TRUE;
            }
        }
        match s.len() {
            0 => FALSE,
            1 => *s.iter().next().unwrap(),
            _ => self.bmk(BN::Or(s.into_iter().collect())),
        }
    }
    pub fn bite(&mut self, c: B, a: B, b: B) -> B {
        if a == b {
            return a;
        }
        if c == TRUE {
            return a;
        }
        if c == FALSE {
            return b;
        }
        let nc = self.not(c);
        let x = self.and(&[c, a]);
        let y = self.and(&[nc, b]);
        self.or(&[x, y])
    }
    /// bool -> 0/1 integer
    pub fn b2i(&mut self, b: B) -> T {
        let o = self.ku(1);
        let z = self.ku(0);
        self.ite(b, o, z)
    }
    /// integer (0/1 valued) -> bool
    pub fn i2b(&mut self, t: T) -> B {
        let z = self.ku(0);
        let e = self.eq(t, z);
        self.not(e)
    }

    // ---- path facts ---------------------------------------------------------------------
    /// Decide a boolean from cheap facts only.
    pub fn quick(&mut self, b: B, rf: &Refine) -> Option<bool> {
        if b == TRUE {
            return Some(true);
        }
        if b == FALSE {
            return Some(false);
        }
        if let Some(v) = rf.truth.get(&b) {
            return Some(*v);
        }
        match self.b[b as usize].clone() {
            BN::Not(x) => self.quick(x, rf).map(|v| !v),
            BN::And(v) => {
                let mut all = true;
                for x in v {
                    match self.quick(x, rf) {
                        Some(false) => return Some(false),
                        Some(true) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(true)
                } else {
                    None
                }
            }
            BN::Or(v) => {
                let mut none = true;
                for x in v {
                    match self.quick(x, rf) {
                        Some(true) => return Some(true),
                        Some(false) => {}
                        None => none = false,
                    }
                }
                if none {
                    Some(false)
                } else {
                    None
                }
            }
            BN::Ge0(t) => {
                let iv = self.iv_full(t, Some(rf));
                if iv.0.map_or(false, |l| !l.is_neg()) {
                    return Some(true);
                }
                if iv.1.map_or(false, |h| h.is_neg()) {
                    return Some(false);
                }
                None
            }
            BN::Eq0(t) => {
                let iv = self.iv_full(t, Some(rf));
                if let (Some(l), Some(h)) = &iv {
                    if l.is_zero() && h.is_zero() {
                        return Some(true);
                    }
                }
                if iv.0.map_or(false, |l| !l.is_neg() && !l.is_zero())
                    || iv.1.map_or(false, |h| h.is_neg())
                {
                    return Some(false);
                }
                None
            }
            _ => None,
        }
    }
    /// Record that `b` holds.
    pub fn learn(&mut self, b: B, rf: &mut Refine) {
        let nb = self.not(b);
        rf.truth.insert(b, true);
        rf.truth.insert(nb, false);
        match self.b[b as usize].clone() {
            BN::And(v) => {
                for x in v {
                    self.learn(x, rf);
                }
            }
            BN::Not(x) => {
                if let BN::Or(v) = self.b[x as usize].clone() {
                    for y in v {
                        let ny = self.not(y);
                        self.learn(ny, rf);
                    }
                }
                if let BN::Eq0(t) = self.b[x as usize].clone() {
                    // t != 0: sharpen an interval whose endpoint is zero
                    if let Some((f, g, k)) = self.form_mk(t) {
                        let (q, r) = k.neg().divmod_floor(&g);
                        if r.is_zero() {
                            let iv = self.iv_full(f, Some(rf));
                            let mut n = (None, None);
                            if iv.0.as_ref() == Some(&q) {
                                n.0 = Some(q.add(&Big::one()));
                            }
                            if iv.1.as_ref() == Some(&q) {
                                n.1 = Some(q.sub(&Big::one()));
                            }
                            if n.0.is_some() || n.1.is_some() {
                                self.add_fact(f, n, rf);
                            }
                        }
                    }
                }
            }
            BN::Ge0(t) => self.learn_poly(t, false, rf),
            BN::Eq0(t) => self.learn_poly(t, true, rf),
            _ => {}
        }
    }
    fn add_fact(&mut self, f: T, iv: Iv, rf: &mut Refine) {
        let is_atom = !matches!(self.n[f as usize], N::Poly(..));
        let m = if is_atom { &mut rf.iv } else { &mut rf.forms };
        let e = m.entry(f).or_insert((None, None));
        *e = iv_meet(e, &iv);
        if is_atom {
            // floor(a/b) facts say something about a when b is constant
            if let N::Div(a, b) = self.n[f as usize] {
                if let Some(c) = self.as_const(b).cloned() {
                    let lo = iv.0.map(|l| l.mul(&c));
                    let hi = iv.1.map(|h| h.add(&Big::one()).mul(&c).sub(&Big::one()));
                    if let Some((f2, g, k)) = self.form_mk(a) {
                        let l2 = lo.map(|l| l.sub(&k));
                        let h2 = hi.map(|h| h.sub(&k));
                        let (l3, h3) = if g.is_neg() { (h2, l2) } else { (l2, h2) };
                        let gp = g.abs();
                        let neg = g.is_neg();
                        let l3 = l3.map(|x| {
                            let x = if neg { x.neg() } else { x };
                            // ceil(x/gp)
                            x.neg().div_floor(&gp).neg()
                        });
                        let h3 = h3.map(|x| {
                            let x = if neg { x.neg() } else { x };
                            x.div_floor(&gp)
                        });
                        if f2 < f {
                            self.add_fact(f2, (l3, h3), rf);
                        }
                    }
                }
            }
        }
    }
    fn learn_poly(&mut self, t: T, eq: bool, rf: &mut Refine) {
        if let Some((f, g, k)) = self.form_mk(t) {
            // g*f + k >= 0 (or == 0)
            let mut iv: Iv = (None, None);
            let mk = k.neg();
            if g.is_neg() {
                // f <= k/|g|
                iv.1 = Some(k.div_floor(&g.abs()));
                if eq {
                    iv.0 = iv.1.clone();
                }
            } else {
                // f >= ceil(-k/g)
                iv.0 = Some(mk.neg().div_floor(&g).neg());
                if eq {
                    iv.1 = iv.0.clone();
                }
            }
            self.add_fact(f, iv, rf);
        }
        // propagate to linear atoms
        let (v, k) = self.poly_of(t);
        if v.len() > 1 && v.len() <= 8 {
            for i in 0..v.len() {
                if v[i].0.len() != 1 {
                    continue;
                }
                let rest: Vec<_> = v
                    .iter()
                    .enumerate()
                    .filter(|(j, _)| *j != i)
                    .map(|(_, x)| x.clone())
                    .collect();
                let ri = self.poly_iv(&rest, &k, Some(rf), &mut HashMap::new(), 0);
                let c = &v[i].1;
                // c*x + rest >= 0  ->  c*x >= -hi(rest)
                let mut iv: Iv = (None, None);
                if let Some(h) = &ri.1 {
                    let b = h.neg();
                    if c.is_neg() {
                        iv.1 = Some(b.neg().div_floor(&c.abs()));
                    } else {
                        iv.0 = Some(b.neg().div_floor(c).neg());
                    }
                }
                if eq {
                    // c*x <= -lo(rest)
                    if let Some(l) = &ri.0 {
                        let b = l.neg();
                        if c.is_neg() {
                            iv.0 = Some(b.div_floor(&c.abs()).neg().neg());
                            // x >= -b/|c| rounded up
                            iv.0 = Some(b.div_floor(&c.abs()).neg());
                        } else {
                            iv.1 = Some(b.div_floor(c));
                        }
                    }
                }
                if iv.0.is_some() || iv.1.is_some() {
                    let a = v[i].0[0];
                    let cur = self.iv_full(a, Some(rf));
                    let nw = iv_meet(&cur, &iv);
                    if nw != cur {
                        self.add_fact(a, iv, rf);
                    }
                }
            }
        }
    }

    // ---- evaluation ---------------------------------------------------------------------
    pub fn eval(&self, t: T, m: &HashMap<String, Big>, memo: &mut HashMap<T, Big>) -> Option<Big> {
        if let Some(v) = memo.get(&t) {
            return Some(v.clone());
        }
        let r = match &self.n[t as usize] {
            N::Var(s) => match m.get(s) {
                Some(v) => v.clone(),
                None => self.iv[t as usize].0.clone().unwrap_or_default(),
            },
            N::Poly(v, k) => {
                let mut s = k.clone();
                for (mo, c) in v {
                    let mut p = c.clone();
                    for &x in mo {
                        p = p.mul(&self.eval(x, m, memo)?);
                    }
                    s = s.add(&p);
                }
                s
            }
            N::Div(a, b) => {
                let a = self.eval(*a, m, memo)?;
                let b = self.eval(*b, m, memo)?;
                if b.is_zero() {
                    return None;
                }
                a.div_floor(&b)
            }
            N::Ite(c, x, y) => {
                if self.beval(*c, m, memo)? {
                    self.eval(*x, m, memo)?
                } else {
                    self.eval(*y, m, memo)?
                }
            }
            N::Sqrt(a) => {
                let a = self.eval(*a, m, memo)?;
                if a.is_neg() {
                    return None;
                }
                a.isqrt()
            }
        };
        memo.insert(t, r.clone());
        Some(r)
    }
    pub fn beval(&self, b: B, m: &HashMap<String, Big>, memo: &mut HashMap<T, Big>) -> Option<bool> {
        Some(match &self.b[b as usize] {
            BN::True => true,
            BN::False => false,
            BN::Var(s) => m.get(s).map_or(false, |v| !v.is_zero()),
            BN::Not(x) => !self.beval(*x, m, memo)?,
            BN::And(v) => {
                for x in v {
                    if !self.beval(*x, m, memo)? {
                        return Some(false);
                    }
                }
                true
            }
            BN::Or(v) => {
                for x in v {
                    if self.beval(*x, m, memo)? {
                        return Some(true);
                    }
                }
                false
            }
            BN::Ge0(t) => !self.eval(*t, m, memo)?.is_neg(),
            BN::Eq0(t) => self.eval(*t, m, memo)?.is_zero(),
        })
    }

    // ---- support ------------------------------------------------------------------------
    /// variables: even keys 2*t for integer vars, odd 2*b+1 for boolean vars
    pub fn nsupport(&mut self, t: T) -> Rc<BTreeSet<u32>> {
        if let Some(s) = &self.nsup[t as usize] {
            return s.clone();
        }
        let mut s = BTreeSet::new();
        match self.n[t as usize].clone() {
            N::Var(_) => {
                s.insert(t * 2);
            }
            N::Poly(v, _) => {
                for (m, _) in v {
                    for x in m {
                        s.extend(self.nsupport(x).iter().copied());
                    }
                }
            }
            N::Div(a, b) => {
                s.extend(self.nsupport(a).iter().copied());
                s.extend(self.nsupport(b).iter().copied());
            }
            N::Ite(c, a, b) => {
                s.extend(self.bsupport(c).iter().copied());
                s.extend(self.nsupport(a).iter().copied());
                s.extend(self.nsupport(b).iter().copied());
            }
            N::Sqrt(a) => s.extend(self.nsupport(a).iter().copied()),
        }
        let r = Rc::new(s);
        self.nsup[t as usize] = Some(r.clone());
        r
    }
    pub fn bsupport(&mut self, b: B) -> Rc<BTreeSet<u32>> {
        if let Some(s) = &self.bsup[b as usize] {
            return s.clone();
        }
        let mut s = BTreeSet::new();
        match self.b[b as usize].clone() {
            BN::True | BN::False => {}
            BN::Var(_) => {
                s.insert(b * 2 + 1);
            }
            BN::Not(x) => s.extend(self.bsupport(x).iter().copied()),
            BN::And(v) | BN::Or(v) => {
                for x in v {
                    s.extend(self.bsupport(x).iter().copied());
                }
            }
            BN::Ge0(t) | BN::Eq0(t) => s.extend(self.nsupport(t).iter().copied()),
        }
        let r = Rc::new(s);
        self.bsup[b as usize] = Some(r.clone());
        r
    }

    // ---- SMT-LIB ------------------------------------------------------------------------
    fn collect(&self, t: T, ns: &mut BTreeSet<T>, bs: &mut BTreeSet<B>) {
        match &self.n[t as usize] {
            N::Poly(v, _) => {
                for (m, _) in v {
                    for &x in m {
                        self.collect(x, ns, bs);
                    }
                }
            }
            _ if ns.contains(&t) => {}
            N::Var(_) => {
                ns.insert(t);
            }
            N::Div(a, b) => {
                ns.insert(t);
                self.collect(*a, ns, bs);
                self.collect(*b, ns, bs);
            }
            N::Ite(c, a, b) => {
                ns.insert(t);
                self.bcollect(*c, ns, bs);
                self.collect(*a, ns, bs);
                self.collect(*b, ns, bs);
            }
            N::Sqrt(a) => {
                ns.insert(t);
                self.collect(*a, ns, bs);
            }
        }
    }
    fn bcollect(&self, b: B, ns: &mut BTreeSet<T>, bs: &mut BTreeSet<B>) {
        match &self.b[b as usize] {
            BN::True | BN::False => {}
            BN::Var(_) => {
                bs.insert(b);
            }
            BN::Not(x) => self.bcollect(*x, ns, bs),
            BN::And(v) | BN::Or(v) => {
                for &x in v {
                    self.bcollect(x, ns, bs);
                }
            }
            BN::Ge0(t) | BN::Eq0(t) => self.collect(*t, ns, bs),
        }
    }
    fn pk(k: &Big) -> String {
        if k.is_neg() {
            format!("(- {})", k.neg())
        } else {
            k.to_string()
        }
    }
    pub fn pt(&self, t: T) -> String {
        match &self.n[t as usize] {
            N::Poly(v, k) => {
                let mut parts = vec![];
                for (m, c) in v {
                    let mut f = vec![];
                    if !c.is_one() {
                        f.push(Self::pk(c));
                    }
                    for &x in m {
                        f.push(self.pt(x));
                    }
                    parts.push(if f.len() == 1 {
                        f.pop().unwrap()
                    } else {
                        format!("(* {})", f.join(" "))
                    });
                }
                if !k.is_zero() || parts.is_empty() {
                    parts.push(Self::pk(k));
                }
                if parts.len() == 1 {
                    parts.pop().unwrap()
                } else {
                    format!("(+ {})", parts.join(" "))
                }
            }
            N::Var(_) => format!("v{}", t),
            N::Div(..) => format!("q{}", t),
            N::Ite(..) => format!("i{}", t),
            N::Sqrt(..) => format!("s{}", t),
        }
    }
    pub fn pb(&self, b: B) -> String {
        match &self.b[b as usize] {
            BN::True => "true".into(),
            BN::False => "false".into(),
            BN::Var(_) => format!("b{}", b),
            BN::Not(x) => format!("(not {})", self.pb(*x)),
            BN::And(v) => format!("(and {})", v.iter().map(|x| self.pb(*x)).collect::<Vec<_>>().join(" ")),
            BN::Or(v) => format!("(or {})", v.iter().map(|x| self.pb(*x)).collect::<Vec<_>>().join(" ")),
            BN::Ge0(t) => {
                // print as comparison of positive parts for readability
                format!("(>= {} 0)", self.pt(*t))
            }
            BN::Eq0(t) => format!("(= {} 0)", self.pt(*t)),
        }
    }
    /// SMT-LIB declarations + assertions; returns (text, integer vars, bool vars)
    /// variables of the formulas with their ranges (truth values as 0..1)
    pub fn vars(&self, asserts: &[B]) -> Vec<(String, Big, Option<Big>)> {
        let mut ns = BTreeSet::new();
        let mut bs = BTreeSet::new();
        for &b in asserts {
            self.bcollect(b, &mut ns, &mut bs);
        }
        let mut v = vec![];
        for &b in &bs {
            if let BN::Var(n) = &self.b[b as usize] {
                v.push((n.clone(), Big::zero(), Some(Big::one())));
            }
        }
        for &t in &ns {
            if let N::Var(n) = &self.n[t as usize] {
                let (l, h) = &self.iv[t as usize];
                v.push((n.clone(), l.clone().unwrap_or_default(), h.clone()));
            }
        }
        v
    }
    pub fn smt(&self, asserts: &[B]) -> (String, Vec<(String, String)>, Vec<(String, String)>) {
        let mut ns = BTreeSet::new();
        let mut bs = BTreeSet::new();
        for &b in asserts {
            self.bcollect(b, &mut ns, &mut bs);
        }
        let mut s = String::new();
        let mut iv = vec![];
        let mut bv = vec![];
        for &b in &bs {
            s.push_str(&format!("(declare-fun b{} () Bool)\n", b));
            if let BN::Var(n) = &self.b[b as usize] {
                bv.push((format!("b{}", b), n.clone()));
            }
        }
        for &t in &ns {
            match &self.n[t as usize] {
                N::Var(name) => {
                    s.push_str(&format!("(declare-fun v{} () Int)\n", t));
                    let (l, h) = &self.iv[t as usize];
                    if let Some(l) = l {
                        s.push_str(&format!("(assert (>= v{} {}))\n", t, Self::pk(l)));
                    }
                    if let Some(h) = h {
                        s.push_str(&format!("(assert (<= v{} {}))\n", t, Self::pk(h)));
                    }
                    iv.push((format!("v{}", t), name.clone()));
                }
                N::Div(a, b) => {
                    s.push_str(&format!("(declare-fun q{} () Int)\n", t));
                    let (pa, pb) = (self.pt(*a), self.pt(*b));
                    s.push_str(&format!(
                        "(assert (and (<= (* {pb} q{t}) {pa}) (< {pa} (+ (* {pb} q{t}) {pb}))))\n"
                    ));
                    let (l, h) = &self.iv[t as usize];
                    if let Some(l) = l {
                        s.push_str(&format!("(assert (>= q{} {}))\n", t, Self::pk(l)));
                    }
                    if let Some(h) = h {
                        s.push_str(&format!("(assert (<= q{} {}))\n", t, Self::pk(h)));
                    }
                }
                N::Ite(c, a, b) => s.push_str(&format!(
                    "(define-fun i{} () Int (ite {} {} {}))\n",
                    t,
                    self.pb(*c),
                    self.pt(*a),
                    self.pt(*b)
                )),
                N::Sqrt(a) => {
                    let pa = self.pt(*a);
                    s.push_str(&format!("(declare-fun s{t} () Int)\n(assert (and (>= s{t} 0) (<= (* s{t} s{t}) {pa}) (< {pa} (* (+ s{t} 1) (+ s{t} 1)))))\n"));
                }
                N::Poly(..) => {}
            }
        }
        for &b in asserts {
            s.push_str(&format!("(assert {})\n", self.pb(b)));
        }
        (s, iv, bv)
    }
}
fn mono_div(a: &[T], b: &[T]) -> Option<Mono> {
    let mut r = vec![];
    let mut j = 0;
    for &x in a {
        if j < b.len() && b[j] == x {
            j += 1;
        } else {
            r.push(x);
        }
    }
    if j == b.len() {
        Some(r)
    } else {
        None
    }
}
