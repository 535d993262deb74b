//! Minimal arbitrary-precision signed integers (sign + little-endian u64 limbs).
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Big {
    neg: bool,
    mag: Vec<u64>,
}

fn trim(v: &mut Vec<u64>) {
    while let Some(0) = v.last() {
        v.pop();
    }
}
fn cmp_mag(a: &[u64], b: &[u64]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u128;
    for i in 0..a.len() {
        let s = a[i] as u128 + if i < b.len() { b[i] as u128 } else { 0 } + c;
        r.push(s as u64);
        c = s >> 64;
    }
    if c > 0 {
        r.push(c as u64);
    }
    r
}
fn sub_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = Vec::with_capacity(a.len());
    let mut borrow = 0i128;
    for i in 0..a.len() {
        let mut d = a[i] as i128 - if i < b.len() { b[i] as i128 } else { 0 } - borrow;
        if d < 0 {
            d += 1i128 << 64;
            borrow = 1;
        } else {
            borrow = 0;
        }
        r.push(d as u64);
    }
    trim(&mut r);
    r
}
fn mul_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![0u64; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u128;
        for j in 0..b.len() {
            let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        r[i + b.len()] = c as u64;
    }
    trim(&mut r);
    r
}
fn divrem_small(a: &[u64], d: u64) -> (Vec<u64>, u64) {
    let mut q = vec![0u64; a.len()];
    let mut r = 0u128;
    for i in (0..a.len()).rev() {
        let cur = (r << 64) | a[i] as u128;
        q[i] = (cur / d as u128) as u64;
        r = cur % d as u128;
    }
    trim(&mut q);
    (q, r as u64)
}
fn shl_bits(a: &[u64], s: u32) -> Vec<u64> {
    if s == 0 {
        return a.to_vec();
    }
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for &x in a {
        r.push((x << s) | c);
        c = x >> (64 - s);
    }
    if c > 0 {
        r.push(c);
    }
    r
}
/// Knuth algorithm D.
fn divrem_mag(a: &[u64], b: &[u64]) -> (Vec<u64>, Vec<u64>) {
    assert!(!b.is_empty());
    if cmp_mag(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let (q, r) = divrem_small(a, b[0]);
        return (q, if r == 0 { vec![] } else { vec![r] });
    }
    let s = b[b.len() - 1].leading_zeros();
    let v = shl_bits(b, s);
    let mut u = shl_bits(a, s);
    if u.len() == a.len() {
        u.push(0);
    }
    let n = v.len();
    let m = u.len() - n - 1;
    let mut q = vec![0u64; m + 1];
    for j in (0..=m).rev() {
        let num = ((u[j + n] as u128) << 64) | u[j + n - 1] as u128;
        let mut qhat = num / v[n - 1] as u128;
        let mut rhat = num % v[n - 1] as u128;
        while qhat >> 64 != 0 || qhat * v[n - 2] as u128 > ((rhat << 64) | u[j + n - 2] as u128) {
            qhat -= 1;
            rhat += v[n - 1] as u128;
            if rhat >> 64 != 0 {
                break;
            }
        }
        let mut borrow = 0i128;
        let mut carry = 0u128;
        for i in 0..n {
            let p = qhat * v[i] as u128 + carry;
            carry = p >> 64;
            let t = u[i + j] as i128 - borrow - (p as u64) as i128;
            if t < 0 {
                u[i + j] = (t + (1i128 << 64)) as u64;
                borrow = 1;
            } else {
                u[i + j] = t as u64;
                borrow = 0;
            }
        }
        let t = u[j + n] as i128 - borrow - carry as i128;
        if t < 0 {
            u[j + n] = (t + (1i128 << 64)) as u64;
            // add back
            qhat -= 1;
            let mut c = 0u128;
            for i in 0..n {
                let s2 = u[i + j] as u128 + v[i] as u128 + c;
                u[i + j] = s2 as u64;
                c = s2 >> 64;
            }
            u[j + n] = (u[j + n] as u128 + c) as u64;
        } else {
            u[j + n] = t as u64;
        }
        q[j] = qhat as u64;
    }
    trim(&mut q);
    // remainder: u >> s
    let mut r = vec![0u64; n];
    for i in 0..n {
        r[i] = if s == 0 {
            u[i]
        } else {
            (u[i] >> s) | (u[i + 1] << (64 - s))
        };
    }
    trim(&mut r);
    (q, r)
}

impl Big {
    pub fn zero() -> Big {
        Big::default()
    }
    pub fn one() -> Big {
        Big::from(1u128)
    }
    pub fn pow2(k: u32) -> Big {
        let mut mag = vec![0u64; (k / 64) as usize];
        mag.push(1u64 << (k % 64));
        Big { neg: false, mag }
    }
    fn mk(neg: bool, mut mag: Vec<u64>) -> Big {
        trim(&mut mag);
        Big {
            neg: neg && !mag.is_empty(),
            mag,
        }
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn is_neg(&self) -> bool {
        self.neg
    }
    pub fn is_one(&self) -> bool {
        !self.neg && self.mag.len() == 1 && self.mag[0] == 1
    }
    pub fn neg(&self) -> Big {
        Big::mk(!self.neg, self.mag.clone())
    }
    pub fn abs(&self) -> Big {
        Big::mk(false, self.mag.clone())
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            return Big::mk(self.neg, add_mag(&self.mag, &o.mag));
        }
        match cmp_mag(&self.mag, &o.mag) {
            Ordering::Equal => Big::zero(),
            Ordering::Greater => Big::mk(self.neg, sub_mag(&self.mag, &o.mag)),
            Ordering::Less => Big::mk(o.neg, sub_mag(&o.mag, &self.mag)),
        }
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Big) -> Big {
        Big::mk(self.neg != o.neg, mul_mag(&self.mag, &o.mag))
    }
    /// floor division and nonnegative-divisor modulus (divisor must be nonzero)
    pub fn divmod_floor(&self, d: &Big) -> (Big, Big) {
        let (q, r) = divrem_mag(&self.mag, &d.mag);
        let (q, r) = (
            Big::mk(self.neg != d.neg, q),
            Big::mk(self.neg, r),
        );
        if !r.is_zero() && (r.neg != d.neg) {
            (q.sub(&Big::one()), r.add(d))
        } else {
            (q, r)
        }
    }
    pub fn div_floor(&self, d: &Big) -> Big {
        self.divmod_floor(d).0
    }
    pub fn rem_floor(&self, d: &Big) -> Big {
        self.divmod_floor(d).1
    }
    pub fn gcd(&self, o: &Big) -> Big {
        let (mut a, mut b) = (self.abs(), o.abs());
        while !b.is_zero() {
            let r = a.rem_floor(&b);
            a = b;
            b = r;
        }
        a
    }
    pub fn isqrt(&self) -> Big {
        assert!(!self.neg);
        if self.is_zero() {
            return Big::zero();
        }
        let mut x = Big::pow2((self.bits() + 2) / 2);
        loop {
            let y = x.add(&self.div_floor(&x)).div_floor(&Big::from(2u128));
            if y >= x {
                return x;
            }
            x = y;
        }
    }
    pub fn bits(&self) -> u32 {
        match self.mag.last() {
            None => 0,
            Some(t) => (self.mag.len() as u32) * 64 - t.leading_zeros(),
        }
    }
    pub fn trailing_zeros(&self) -> u32 {
        let mut n = 0;
        for &m in &self.mag {
            if m == 0 {
                n += 64;
            } else {
                return n + m.trailing_zeros();
            }
        }
        u32::MAX
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.neg || self.mag.len() > 2 {
            return None;
        }
        let lo = *self.mag.first().unwrap_or(&0) as u128;
        let hi = *self.mag.get(1).unwrap_or(&0) as u128;
        Some(lo | (hi << 64))
    }
    pub fn parse(s: &str) -> Option<Big> {
        let (neg, d) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        if d.is_empty() {
            return None;
        }
        let ten = Big::from(10u128);
        let mut r = Big::zero();
        for c in d.bytes() {
            if !c.is_ascii_digit() {
                return None;
            }
            r = r.mul(&ten).add(&Big::from((c - b'0') as u128));
        }
        Some(if neg { r.neg() } else { r })
    }
}
impl From<u128> for Big {
    fn from(v: u128) -> Big {
        let mut mag = vec![v as u64, (v >> 64) as u64];
        trim(&mut mag);
        Big { neg: false, mag }
    }
}
impl From<i64> for Big {
    fn from(v: i64) -> Big {
        let b = Big::from(v.unsigned_abs() as u128);
        if v < 0 {
            b.neg()
        } else {
            b
        }
    }
}
impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Big) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&self.mag, &o.mag),
            (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }
}
impl fmt::Display for Big {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.is_zero() {
            return f.write_str("0");
        }
        let mut parts = vec![];
        let mut m = self.mag.clone();
        while !m.is_empty() {
            let (q, r) = divrem_small(&m, 10_000_000_000_000_000_000);
            parts.push(r);
            m = q;
        }
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        s.push_str(&parts.pop().unwrap().to_string());
        while let Some(p) = parts.pop() {
            s.push_str(&format!("{:019}", p));
        }
        f.write_str(&s)
    }
}
impl fmt::Debug for Big {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self)
    }
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn big() {
        let a = Big::parse("123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890").unwrap();
        let b = Big::parse("98765432109876543210987654321098765432109876543210").unwrap();
        let (q, r) = a.divmod_floor(&b);
        assert_eq!(q.mul(&b).add(&r), a);
        assert!(r < b);
        assert_eq!(Big::parse("-7").unwrap().div_floor(&Big::from(2u128)).to_string(), "-4");
        let mut x = Big::parse("340282366920938463463374607431768211455").unwrap();
        for i in 0..200u32 {
            x = x.mul(&Big::from((i as u128) * 7919 + 3)).add(&Big::from(i as u128));
            let d = Big::pow2(i).add(&Big::parse("18446744073709551615").unwrap());
            let (q, r) = x.divmod_floor(&d);
            assert_eq!(q.mul(&d).add(&r), x);
            assert!(r < d && !r.is_neg());
            let s = x.isqrt();
            assert!(s.mul(&s) <= x && s.add(&Big::one()).mul(&s.add(&Big::one())) > x);
            assert_eq!(Big::parse(&x.to_string()).unwrap(), x);
            if i % 20 == 0 { x = Big::from(x.to_string().len() as u128); }
        }
    }
}
