//! Byte memory with a symbolic overlay.
use crate::big::Big;
use crate::term::*;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum S {
    C(u128),
    T(T),
}

#[derive(Clone, Debug)]
pub struct Alloc {
    pub bytes: Vec<u8>,
    /// sorted, non-overlapping (offset, length, value)
    pub cells: Vec<(u32, u8, T)>,
}

impl Alloc {
    pub fn new(n: usize) -> Alloc {
        Alloc { bytes: vec![0; n], cells: vec![] }
    }
    pub fn touches(&self, off: u32, n: u32) -> bool {
        if self.cells.is_empty() {
            return false;
        }
        let i = self.cells.partition_point(|c| c.0 + c.1 as u32 <= off);
        i < self.cells.len() && self.cells[i].0 < off + n
    }
    /// remove every cell overlapping [off, off+n), keeping the parts outside
    pub fn clear(&mut self, ar: &mut Arena, off: u32, n: u32) {
        if !self.touches(off, n) {
            return;
        }
        let end = off + n;
        let mut out = Vec::with_capacity(self.cells.len());
        for &(o, l, t) in &self.cells {
            let e = o + l as u32;
            if e <= off || o >= end {
                out.push((o, l, t));
                continue;
            }
            if o < off {
                let k = off - o;
                out.push((o, k as u8, extract(ar, t, 0, k)));
            }
            if e > end {
                let k = e - end;
                out.push((end, k as u8, extract(ar, t, end - o, k)));
            }
        }
        self.cells = out;
    }
    pub fn put(&mut self, ar: &mut Arena, off: u32, n: u32, t: T) {
        if let Some(k) = ar.as_const(t).cloned() {
            self.put_big(ar, off, n, &k);
            return;
        }
        // fast: same cell
        if let Ok(i) = self.cells.binary_search_by_key(&off, |c| c.0) {
            if self.cells[i].1 as u32 == n {
                self.cells[i].2 = t;
                return;
            }
        }
        self.clear(ar, off, n);
        let i = self.cells.partition_point(|c| c.0 < off);
        self.cells.insert(i, (off, n as u8, t));
    }
    pub fn put_big(&mut self, ar: &mut Arena, off: u32, n: u32, k: &Big) {
        self.clear(ar, off, n);
        let mut k = k.clone();
        if k.is_neg() {
            k = k.rem_floor(&Big::pow2(8 * n));
        }
        let m = Big::pow2(128);
        let mut o = 0;
        while o < n {
            let (q, r) = k.divmod_floor(&m);
            let v = r.to_u128().unwrap().to_le_bytes();
            let c = (n - o).min(16);
            self.bytes[(off + o) as usize..(off + o + c) as usize].copy_from_slice(&v[..c as usize]);
            k = q;
            o += c;
        }
    }
    pub fn get(&self, ar: &mut Arena, off: u32, n: u32) -> S {
        if !self.touches(off, n) {
            return self.conc(ar, off, n);
        }
        let i = self.cells.partition_point(|c| c.0 + c.1 as u32 <= off);
        let (o, l, t) = self.cells[i];
        if o == off && l as u32 == n {
            return S::T(t);
        }
        if o <= off && o + l as u32 >= off + n {
            let t = extract(ar, t, off - o, n);
            return norm(ar, t, n);
        }
        // assemble
        let mut sum = ar.ku(0);
        let mut pos = off;
        let end = off + n;
        let mut i = i;
        while pos < end {
            let (a, len) = if i < self.cells.len() && self.cells[i].0 <= pos {
                let (o, l, t) = self.cells[i];
                let e = (o + l as u32).min(end);
                let x = extract(ar, t, pos - o, e - pos);
                i += 1;
                (x, e - pos)
            } else {
                let e = if i < self.cells.len() { self.cells[i].0.min(end) } else { end };
                let mut v = Big::zero();
                for j in (pos..e).rev() {
                    v = v.mul(&Big::from(256u128)).add(&Big::from(self.bytes[j as usize] as u128));
                }
                (ar.k(v), e - pos)
            };
            let sh = Big::pow2(8 * (pos - off));
            sum = ar.lin(sum, &Big::one(), a, &sh);
            pos += len;
        }
        norm(ar, sum, n)
    }
    fn conc(&self, ar: &mut Arena, off: u32, n: u32) -> S {
        if n <= 16 {
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(&self.bytes[off as usize..(off + n) as usize]);
            S::C(u128::from_le_bytes(b))
        } else {
            let mut v = Big::zero();
            for j in (off..off + n).rev() {
                v = v.mul(&Big::from(256u128)).add(&Big::from(self.bytes[j as usize] as u128));
            }
            S::T(ar.k(v))
        }
    }
}
pub fn norm(ar: &Arena, t: T, n: u32) -> S {
    if n <= 16 {
        if let Some(k) = ar.as_const(t) {
            if let Some(v) = k.to_u128() {
                return S::C(v);
            }
        }
    }
    S::T(t)
}
/// bytes [lo, lo+n) of the non-negative value t
pub fn extract(ar: &mut Arena, t: T, lo: u32, n: u32) -> T {
    let q = ar.divk(t, &Big::pow2(8 * lo));
    let iv = ar.iv0(q);
    let m = Big::pow2(8 * n);
    if let (Some(l), Some(h)) = iv {
        if !l.is_neg() && *h < m {
            return q;
        }
    }
    ar.modk(q, &m)
}

#[derive(Clone)]
pub struct Chunk {
    pub bytes: Vec<u8>,
    pub cells: Vec<(u32, u8, T)>,
}
impl Chunk {
    pub fn take(a: &Alloc, ar: &mut Arena, off: u32, n: u32) -> Chunk {
        let bytes = a.bytes[off as usize..(off + n) as usize].to_vec();
        let mut cells = vec![];
        if a.touches(off, n) {
            for &(o, l, t) in &a.cells {
                let e = o + l as u32;
                if e <= off || o >= off + n {
                    continue;
                }
                let s = o.max(off);
                let e2 = e.min(off + n);
                if s == o && e2 == e {
                    cells.push((o - off, l, t));
                } else {
                    let x = extract(ar, t, s - o, e2 - s);
                    cells.push((s - off, (e2 - s) as u8, x));
                }
            }
        }
        Chunk { bytes, cells }
    }
    pub fn store(&self, a: &mut Alloc, ar: &mut Arena, off: u32) {
        let n = self.bytes.len() as u32;
        a.clear(ar, off, n);
        a.bytes[off as usize..(off + n) as usize].copy_from_slice(&self.bytes);
        if !self.cells.is_empty() {
            let i = a.cells.partition_point(|c| c.0 < off);
            let mut add = Vec::with_capacity(self.cells.len());
            for &(o, l, t) in &self.cells {
                if let Some(k) = ar.as_const(t).cloned() {
                    a.put_big(ar, off + o, l as u32, &k);
                } else {
                    add.push((o + off, l, t));
                }
            }
            a.cells.splice(i..i, add);
        }
    }
}

pub type Heap = Vec<Option<Rc<Alloc>>>;
