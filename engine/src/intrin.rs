//! Rust intrinsics, the allocator, the harness API and the models ("stubs") of library leaves.
use crate::big::Big;
use crate::exec::*;
use crate::ir::*;
use crate::mem::*;
use crate::term::*;
use rustc_public::mir::BinOp;
use rustc_public::ty::*;
use rustc_public::CrateDefType;
use std::rc::Rc;

pub enum Handled {
    Done,
    Entered,
    Redirect(u32),
    No,
}

fn u64k() -> IntK {
    IntK { size: 8, signed: false }
}

impl Ex {
    fn gty(&self, fid: u32, i: usize) -> Ty {
        let a = self.cx.fns[fid as usize].inst.args();
        let v: Vec<Ty> = a.0.iter().filter_map(|x| x.ty().copied()).collect();
        v[i]
    }
    /// (size, align) of the value behind a possibly wide pointer
    fn size_align_val(&mut self, t: Ty, meta: u64) -> R<(u64, u64)> {
        let l = self.cx.lay(t);
        if l.1.sized {
            return Ok((l.1.size, l.1.align));
        }
        match rig(t) {
            RigidTy::Str => Ok((meta, 1)),
            RigidTy::Slice(e) => {
                let el = self.cx.lay(e);
                Ok((el.1.size * meta, el.1.align))
            }
            RigidTy::Dynamic(..) => {
                let s = self.rdp(meta + 8)?;
                let a = self.rdp(meta + 16)?;
                Ok((s, a))
            }
            RigidTy::Adt(d, a) => {
                let fs = d.variants_iter().next().unwrap().fields();
                let n = fs.len();
                let ft = fs[n - 1].ty_with_args(&a);
                let off = self.cx.field_off(t, None, n - 1);
                let (s, al) = self.size_align_val(ft, meta)?;
                let al2 = al.max(l.1.align);
                let o = (off + al - 1) / al * al;
                Ok(((o + s + al2 - 1) / al2 * al2, al2))
            }
            RigidTy::Tuple(ts) => {
                let n = ts.len();
                let off = self.cx.field_off(t, None, n - 1);
                let (s, al) = self.size_align_val(ts[n - 1], meta)?;
                let al2 = al.max(l.1.align);
                let o = (off + al - 1) / al * al;
                Ok(((o + s + al2 - 1) / al2 * al2, al2))
            }
            o => unsup(format!("size_of_val {:?}", o)),
        }
    }
    fn str_arg(&mut self, a: &AV, b: &AV) -> R<String> {
        let p = self.av_u(a, 0, 8)? as u64;
        let n = self.av_u(b, 0, 8)? as u64;
        let v = self.rd_bytes(p, n)?;
        match v {
            Some(v) => Ok(String::from_utf8_lossy(&v).to_string()),
            None => unsup("symbolic name"),
        }
    }
    fn cmp_bytes(&mut self, p: u64, q: u64, n: u64) -> R<S> {
        if n == 0 {
            return Ok(S::C(0));
        }
        let (a, b) = (self.rd_bytes(p, n)?, self.rd_bytes(q, n)?);
        if let (Some(a), Some(b)) = (&a, &b) {
            if a == b {
                return Ok(S::C(0));
            }
            // asked for equality only
            if self.stack_top(1).contains("SlicePartialEq") {
                if let Some(pairs) = self.token_pairs(a, b) {
                    let mut cs = vec![];
                    for (x, y) in pairs {
                        cs.push(self.ar.eq(x, y));
                    }
                    let e = self.ar.and(&cs);
                    let (one, zero) = (self.ar.ku(1), self.ar.ku(0));
                    let t = self.ar.ite(e, zero, one);
                    return Ok(self.sc(t, 4));
                }
            }
            self.tok_guard(a, b)?;
            return Ok(S::C(if a < b { 0xffff_ffff } else { 1 }));
        }
        // the common concrete prefix
        let mut k = 0;
        while k < n {
            match (self.rd(p + k, 1)?, self.rd(q + k, 1)?) {
                (S::C(x), S::C(y)) => {
                    if x != y {
                        return Ok(S::C(if x < y { 0xffff_ffff } else { 1 }));
                    }
                }
                (S::T(x), S::T(y)) if x == y => {}
                _ => break,
            }
            k += 1;
        }
        // and the common end
        let mut n = n;
        while n > k {
            match (self.rd(p + n - 1, 1)?, self.rd(q + n - 1, 1)?) {
                (S::C(x), S::C(y)) if x == y => {}
                (S::T(x), S::T(y)) if x == y => {}
                _ => break,
            }
            n -= 1;
        }
        // order of the remaining bytes read as big-endian numbers
        let (mut x, mut y) = (self.ar.ku(0), self.ar.ku(0));
        let one = Big::one();
        let sh = Big::from(256u128);
        for i in k..n {
            let (a, b) = (self.rdt(p + i, 1)?, self.rdt(q + i, 1)?);
            x = self.ar.lin(x, &sh, a, &one);
            y = self.ar.lin(y, &sh, b, &one);
        }
        let e = self.ar.eq(x, y);
        let l = self.ar.lt(x, y);
        let (m1, p1, z) = (self.ar.ku(0xffff_ffff), self.ar.ku(1), self.ar.ku(0));
        let t = self.ar.ite(l, m1, p1);
        let t = self.ar.ite(e, z, t);
        Ok(self.sc(t, 4))
    }
    fn eq_bytes(&mut self, p: u64, q: u64, n: u64) -> R<B> {
        if n == 0 {
            return Ok(TRUE);
        }
        let (a, b) = (self.rd_bytes(p, n)?, self.rd_bytes(q, n)?);
        if let (Some(a), Some(b)) = (&a, &b) {
            if a == b {
                return Ok(TRUE);
            }
            if let Some(pairs) = self.token_pairs(a, b) {
                let mut cs = vec![];
                for (x, y) in pairs {
                    cs.push(self.ar.eq(x, y));
                }
                return Ok(self.ar.and(&cs));
            }
            self.tok_guard(a, b)?;
            return Ok(FALSE);
        }
        let (mut p, mut q, mut n) = (p, q, n);
        while n > 0 {
            match (self.rd(p, 1)?, self.rd(q, 1)?) {
                (S::C(x), S::C(y)) => {
                    if x != y {
                        return Ok(FALSE);
                    }
                }
                (S::T(x), S::T(y)) if x == y => {}
                _ => break,
            }
            p += 1;
            q += 1;
            n -= 1;
        }
        if n == 0 {
            return Ok(TRUE);
        }
        if n <= 16 {
            let x = self.rdt(p, n as u32)?;
            let y = self.rdt(q, n as u32)?;
            return Ok(self.ar.eq(x, y));
        }
        let mut cs = vec![];
        for i in 0..n {
            let x = self.rdt(p + i, 1)?;
            let y = self.rdt(q + i, 1)?;
            cs.push(self.ar.eq(x, y));
        }
        Ok(self.ar.and(&cs))
    }
    /// The numbers of two texts that differ only in number tokens at the same places, each set off
    /// from the next by something that is no digit: such texts are equal exactly when the numbers are.
    fn token_pairs(&self, a: &[u8], b: &[u8]) -> Option<Vec<(T, T)>> {
        let (mut v, mut i) = (vec![], 0);
        while i < a.len() {
            if a[i] == b[i] && !(a[i] == b'#' && a[i..].starts_with(b"#N")) {
                i += 1;
                continue;
            }
            let t = (self.untoken(a.get(i..i + 18)?)?, self.untoken(b.get(i..i + 18)?)?);
            let digit = |c: Option<&u8>| c.map_or(false, |c| c.is_ascii_digit());
            if i > 0 && digit(a.get(i - 1)) || digit(a.get(i + 18)) || a[i + 18..].starts_with(b"#N") {
                return None;
            }
            v.push(t);
            i += 18;
        }
        Some(v)
    }
    /// comparing texts that hold number tokens is only meaningful when they are identical
    fn tok_guard(&mut self, a: &[u8], b: &[u8]) -> R<()> {
        let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(0);
        let inside = |s: &[u8]| {
            // is position i inside a token?
            let lo = i.saturating_sub(17);
            (lo..=i).any(|k| s[k..].starts_with(b"#N") && k + 18 > i)
        };
        // a token may only differ from something that cannot be a number text
        let isnum = |s: &[u8]| s.get(i).map_or(false, |c| c.is_ascii_digit());
        let blob = |s: &[u8]| {
            let lo = i.saturating_sub(17);
            (lo..=i).any(|k| s[k..].starts_with(b"#B") && k + 18 > i)
        };
        if blob(a) || blob(b) {
            return unsup(format!("comparison of base64 texts of symbolic bytes at {}", self.stack_top(5)));
        }
        let both = (inside(a) && (inside(b) || isnum(b))) || (inside(b) && isnum(a));
        if both {
            return unsup(format!(
                "comparison of symbolic number texts {:?} {:?} at {}",
                String::from_utf8_lossy(a),
                String::from_utf8_lossy(b),
                self.stack_top(5)
            ));
        }
        Ok(())
    }
    pub fn token(&mut self, t: T) -> Vec<u8> {
        let n = self.toks.len();
        let i = *self.tokmap.entry(t).or_insert(n);
        if i == n {
            self.toks.push(t);
        }
        format!("#N{:015}#", i).into_bytes()
    }
    pub fn untoken(&self, b: &[u8]) -> Option<T> {
        if b.len() == 18 && b.starts_with(b"#N") && b[17] == b'#' {
            let i: usize = std::str::from_utf8(&b[2..17]).ok()?.parse().ok()?;
            return self.toks.get(i).copied();
        }
        None
    }
    /// stand-in for the base64 text of bytes that are not all concrete
    fn blob(&mut self, p: u64, n: u64) -> R<Vec<u8>> {
        let mut v = vec![];
        for i in 0..n {
            v.push(self.rd(p + i, 1)?);
        }
        let key: Vec<(bool, u128)> = v
            .iter()
            .map(|s| match s {
                S::C(c) => (false, *c),
                S::T(t) => (true, *t as u128),
            })
            .collect();
        let k = self.blobs.len();
        let i = *self.blobmap.entry(key).or_insert(k);
        if i == k {
            self.blobs.push(v);
        }
        self.used("base64 of symbolic bytes");
        Ok(format!("#B{:015}#", i).into_bytes())
    }
    pub fn unblob(&self, b: &[u8]) -> Option<Vec<S>> {
        if b.len() == 18 && b.starts_with(b"#B") && b[17] == b'#' {
            let i: usize = std::str::from_utf8(&b[2..17]).ok()?.parse().ok()?;
            return self.blobs.get(i).cloned();
        }
        None
    }
    fn handle_z(&mut self, t: T) -> S {
        S::C(t as u128 + 1)
    }
    fn zarg(&mut self, a: &AV) -> R<T> {
        let v = self.av_u(a, 0, 8)? as u64;
        if v == 0 || v as usize > self.ar.n.len() {
            return unsup("bad Z handle");
        }
        Ok((v - 1) as T)
    }
}

fn sym_api(ex: &mut Ex, name: &str, args: &[AV], dst: u64, dn: u32, target: Option<usize>) -> R<Handled> {
    macro_rules! ret {
        ($s:expr) => {{
            let s = $s;
            ex.wr(dst, dn, s)?;
            return Ok(Handled::Done);
        }};
    }
    match name {
        "raw_any" => {
            let n = ex.str_arg(&args[0], &args[1])?;
            let lo = ex.av_u(&args[2], 0, 16)?;
            let hi = ex.av_u(&args[3], 0, 16)?;
            let nm = ex.anon(&n);
            ex.ranges.insert(nm.clone(), (lo, hi));
            if let Some(v) = ex.fix.get(&nm).copied() {
                if v < lo || v > hi {
                    return Err(Stop::Dead);
                }
                ret!(S::C(v))
            }
            let t = ex.ar.var(&nm, Big::from(lo), Big::from(hi));
            if lo != hi && *ex.ar.iv0(t) != (Some(Big::from(lo)), Some(Big::from(hi))) {
                return unsup(format!("variable {} declared with two ranges", nm));
            }
            let s = ex.sc(t, 16);
            ret!(s)
        }
        "z_any" => {
            let n = ex.str_arg(&args[0], &args[1])?;
            let bits = ex.av_u(&args[2], 0, 4)? as u32;
            let nm = ex.anon(&n);
            let hi = Big::pow2(bits).sub(&Big::one());
            let t = ex.ar.var(&nm, Big::zero(), hi.clone());
            if *ex.ar.iv0(t) != (Some(Big::zero()), Some(hi)) {
                return unsup(format!("variable {} declared with two ranges", nm));
            }
            let h = ex.handle_z(t);
            ret!(h)
        }
        "assume" => {
            let v = ex.av_rd(&args[0], 0, 1)?;
            let b = ex.boolean(v);
            ex.assume(b)?;
            Ok(Handled::Done)
        }
        "hint" => {
            let v = ex.av_rd(&args[0], 0, 1)?;
            let b = ex.boolean(v);
            ex.hint(b);
            Ok(Handled::Done)
        }
        "raw_check" => {
            let v = ex.av_rd(&args[0], 0, 1)?;
            let b = ex.boolean(v);
            let n = ex.str_arg(&args[1], &args[2])?;
            ex.check(b, &n)?;
            Ok(Handled::Done)
        }
        "raw_reach" => {
            let n = ex.str_arg(&args[0], &args[1])?;
            ex.s.reached.push(n);
            Ok(Handled::Done)
        }
        "raw_observe" => {
            let n = ex.str_arg(&args[0], &args[1])?;
            let t = ex.av_t(&args[2], 0, 16)?;
            ex.s.obs.push((n, t));
            Ok(Handled::Done)
        }
        "raw_observe_z" => {
            let n = ex.str_arg(&args[0], &args[1])?;
            let t = ex.zarg(&args[2])?;
            ex.s.obs.push((n, t));
            Ok(Handled::Done)
        }
        "concretize" => {
            let v = ex.av_u(&args[0], 0, 8)?;
            ret!(S::C(v))
        }
        "is_engine" => ret!(S::C(1)),
        "exact_text" => {
            ex.digits = ex.av_u(&args[0], 0, 1)? != 0;
            Ok(Handled::Done)
        }
        "tx_raw" => {
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let fid = ((p >> 32) - FN_BASE) as u32;
            let a = ex.av_u(&args[1], 0, 8)? as u64;
            ex.enter(fid, &[AV::K(Rc::new(a.to_le_bytes().to_vec()))], &None, dst, dn, target, true)?;
            Ok(Handled::Entered)
        }
        "trace" => {
            let n = ex.str_arg(&args[0], &args[1])?;
            let t = ex.av_t(&args[2], 0, 16)?;
            eprintln!("TRACE {} = {}", n, ex.ar.pt(t));
            Ok(Handled::Done)
        }
        "both" | "either" => {
            let x = ex.av_rd(&args[0], 0, 1)?;
            let y = ex.av_rd(&args[1], 0, 1)?;
            let (x, y) = (ex.boolean(x), ex.boolean(y));
            let c = if name == "both" { ex.ar.and(&[x, y]) } else { ex.ar.or(&[x, y]) };
            let t = ex.ar.b2i(c);
            let s = ex.sc(t, 1);
            ret!(s)
        }
        "is_symbolic" => {
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let n = ex.av_u(&args[1], 0, 8)? as u64;
            let r = ex.is_sym(p, n)?;
            ret!(S::C(r as u128))
        }
        "bytes_eq" => {
            // equality of byte strings of equal length as a formula (no fork)
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let q = ex.av_u(&args[1], 0, 8)? as u64;
            let n = ex.av_u(&args[2], 0, 8)? as u64;
            let mut cs = vec![];
            for i in 0..n {
                let x = ex.rdt(p + i, 1)?;
                let y = ex.rdt(q + i, 1)?;
                cs.push(ex.ar.eq(x, y));
            }
            let c = ex.ar.and(&cs);
            let t = ex.ar.b2i(c);
            let s = ex.sc(t, 1);
            ret!(s)
        }
        // --- mathematical integers
        "z_read" => {
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let n = ex.av_u(&args[1], 0, 8)? as u32;
            let t = ex.rdt(p, n)?;
            let h = ex.handle_z(t);
            ret!(h)
        }
        "z_write" => {
            let t = ex.zarg(&args[0])?;
            let p = ex.av_u(&args[1], 0, 8)? as u64;
            let n = ex.av_u(&args[2], 0, 8)? as u32;
            let s = ex.sc(t, n);
            ex.wr(p, n, s)?;
            Ok(Handled::Done)
        }
        "z_small" => {
            let t = ex.av_t(&args[0], 0, 16)?;
            let h = ex.handle_z(t);
            ret!(h)
        }
        "z_pow2" => {
            let k = ex.av_u(&args[0], 0, 4)? as u32;
            let t = ex.ar.k(Big::pow2(k));
            let h = ex.handle_z(t);
            ret!(h)
        }
        "z_add" | "z_sub" | "z_mul" | "z_div" | "z_rem" => {
            let a = ex.zarg(&args[0])?;
            let b = ex.zarg(&args[1])?;
            let t = match name {
                "z_add" => ex.ar.add(a, b),
                "z_sub" => ex.ar.sub(a, b),
                "z_mul" => ex.ar.mul(a, b),
                _ => {
                    let one = ex.ar.ku(1);
                    let pos = ex.ar.ge(b, one);
                    if !ex.decide(pos)? {
                        return Err(Stop::Panic("Z division by a non-positive number".into()));
                    }
                    if name == "z_div" {
                        ex.ar.div(a, b)
                    } else {
                        ex.ar.rem(a, b)
                    }
                }
            };
            let h = ex.handle_z(t);
            ret!(h)
        }
        "z_isqrt" => {
            let a = ex.zarg(&args[0])?;
            let t = ex.ar.sqrt(a);
            let h = ex.handle_z(t);
            ret!(h)
        }
        "z_ite" => {
            let c = ex.av_rd(&args[0], 0, 1)?;
            let c = ex.boolean(c);
            let a = ex.zarg(&args[1])?;
            let b = ex.zarg(&args[2])?;
            let t = match ex.ar.quick(c, &ex.s.rf) {
                Some(true) => a,
                Some(false) => b,
                None => ex.ar.ite(c, a, b),
            };
            let h = ex.handle_z(t);
            ret!(h)
        }
        "z_lt" | "z_le" | "z_eq" => {
            let a = ex.zarg(&args[0])?;
            let b = ex.zarg(&args[1])?;
            let c = match name {
                "z_lt" => ex.ar.lt(a, b),
                "z_le" => ex.ar.ge(b, a),
                _ => ex.ar.eq(a, b),
            };
            let t = ex.ar.b2i(c);
            let s = ex.sc(t, 1);
            ret!(s)
        }
        // --- texts of numbers
        "num_token" => {
            // (value ptr, value bytes, out ptr): writes 18 bytes
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let n = ex.av_u(&args[1], 0, 8)? as u32;
            let o = ex.av_u(&args[2], 0, 8)? as u64;
            let t = ex.rdt(p, n)?;
            let k = ex.token(t);
            ex.wr_bytes(o, &k)?;
            Ok(Handled::Done)
        }
        "num_digits" => {
            // (value ptr, value bytes, out ptr) -> number of digits
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let n = ex.av_u(&args[1], 0, 8)? as u32;
            let o = ex.av_u(&args[2], 0, 8)? as u64;
            let t = ex.rdt(p, n)?;
            let ds = crate::stubs::digits(ex, t)?;
            for (i, x) in ds.iter().enumerate() {
                let x = ex.ar.addk(*x, &Big::from(48u128));
                let s = ex.sc(x, 1);
                ex.wr(o + i as u64, 1, s)?;
            }
            ret!(S::C(ds.len() as u128))
        }
        "tok_value" => {
            // (text ptr, len) -> Z handle, 0 when not a token
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let n = ex.av_u(&args[1], 0, 8)? as u64;
            let b = ex.rd_bytes(p, n)?;
            let t = b.and_then(|b| ex.untoken(&b));
            let s = match t {
                Some(t) => ex.handle_z(t),
                None => S::C(0),
            };
            ret!(s)
        }
        // --- base64 texts
        "b64_len" | "b64_write" => {
            // (bytes ptr, len[, out ptr])
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let n = ex.av_u(&args[1], 0, 8)? as u64;
            let text = match ex.rd_bytes(p, n)? {
                Some(b) => b64(&b),
                None => ex.blob(p, n)?,
            };
            if name == "b64_write" {
                let o = ex.av_u(&args[2], 0, 8)? as u64;
                ex.wr_bytes(o, &text)?;
                return Ok(Handled::Done);
            }
            ret!(S::C(text.len() as u128))
        }
        "unb64_len" | "unb64_write" => {
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let n = ex.av_u(&args[1], 0, 8)? as u64;
            let Some(b) = ex.rd_bytes(p, n)? else { return unsup("symbolic base64 text") };
            let v = ex.unblob(&b).or_else(|| unb64(&b).map(|v| v.into_iter().map(|x| S::C(x as u128)).collect()));
            let Some(v) = v else { return unsup("invalid base64 text") };
            if name == "unb64_write" {
                let o = ex.av_u(&args[2], 0, 8)? as u64;
                for (i, x) in v.into_iter().enumerate() {
                    ex.wr(o + i as u64, 1, x)?;
                }
                return Ok(Handled::Done);
            }
            ret!(S::C(v.len() as u128))
        }
        _ => unsup(format!("unknown sym function {}", name)),
    }
}

fn classify(ex: &Ex, fid: u32) -> u32 {
    let f = &ex.cx.fns[fid as usize];
    if f.intrinsic.is_some() {
        return 1;
    }
    let name = f.name.as_str();
    if name.contains("::sym::api::") {
        return 2;
    }
    if name.contains("miri_promise_symbolic_alignment") {
        return 5;
    }
    if name.starts_with("core::panicking::")
        || name.starts_with("std::panicking::begin_panic")
        || name.starts_with("std::rt::begin_panic")
        || name.starts_with("std::rt::panic_fmt")
        || name.starts_with("core::result::unwrap_failed")
        || name.starts_with("core::option::unwrap_failed")
        || name.starts_with("core::option::expect_failed")
        || name.starts_with("std::alloc::handle_alloc_error")
        || name.starts_with("alloc::alloc::handle_alloc_error")
        || name.starts_with("std::process::abort")
    {
        return 3;
    }
    if name.contains("__rust_") || name.contains("alloc::alloc::") {
        match name.rsplit("::").next().unwrap_or("") {
            "__rust_alloc" | "__rust_alloc_zeroed" => return 10,
            "__rust_dealloc" => return 11,
            "__rust_realloc" => return 12,
            "__rust_no_alloc_shim_is_unstable_v2" | "__rust_no_alloc_shim_is_unstable" => return 5,
            _ => {}
        }
    }
    if name.ends_with("hash::RandomState::new") {
        return 6;
    }
    match crate::stubs::classify(name) {
        0 => 0,
        k => 100 + k,
    }
}

pub fn builtin(ex: &mut Ex, fid: u32, args: &[AV], dst: u64, dn: u32, target: Option<usize>) -> R<Handled> {
    let class = match ex.cx.fns[fid as usize].handler {
        Some(c) => c,
        None => {
            let c = classify(ex, fid);
            ex.cx.fns[fid as usize].handler = Some(c);
            c
        }
    };
    match class {
        0 => Ok(Handled::No),
        1 => {
            let i = ex.cx.fns[fid as usize].intrinsic.clone().unwrap();
            intrinsic(ex, fid, &i, args, dst, dn)
        }
        2 => {
            let name = ex.cx.fns[fid as usize].name.clone();
            let i = name.find("::sym::api::").unwrap();
            sym_api(ex, &name[i + 12..], args, dst, dn, target)
        }
        3 => Err(Stop::Panic(ex.cx.fns[fid as usize].name.clone())),
        5 => Ok(Handled::Done),
        6 => {
            // fixed keys of hash maps
            ex.used("hash map keys");
            ex.wr(dst, 8, S::C(0x0123_4567_89ab_cdef))?;
            ex.wr(dst + 8, 8, S::C(0xfedc_ba98_7654_3210))?;
            Ok(Handled::Done)
        }
        10 => {
            let n = ex.av_u(&args[0], 0, 8)? as u64;
            let p = ex.alloc(n)?;
            ex.wr(dst, 8, S::C(p as u128))?;
            Ok(Handled::Done)
        }
        11 => {
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            ex.dealloc(p);
            Ok(Handled::Done)
        }
        12 => {
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let old = ex.av_u(&args[1], 0, 8)? as u64;
            let n = ex.av_u(&args[3], 0, 8)? as u64;
            let q = ex.alloc(n)?;
            ex.cp(q, p, old.min(n))?;
            ex.dealloc(p);
            ex.wr(dst, 8, S::C(q as u128))?;
            Ok(Handled::Done)
        }
        k => crate::stubs::stub(ex, k - 100, fid, args, dst, dn),
    }
}

fn intrinsic(ex: &mut Ex, fid: u32, name: &str, args: &[AV], dst: u64, dn: u32) -> R<Handled> {
    macro_rules! ret {
        ($s:expr) => {{
            let s = $s;
            ex.wr(dst, dn, s)?;
            return Ok(Handled::Done);
        }};
    }
    match name {
        "size_of" => {
            let t = ex.gty(fid, 0);
            let s = ex.cx.size(t);
            ret!(S::C(s as u128))
        }
        "min_align_of" | "pref_align_of" | "align_of" => {
            let t = ex.gty(fid, 0);
            let s = ex.cx.lay(t).1.align;
            ret!(S::C(s as u128))
        }
        "size_of_val" | "min_align_of_val" | "align_of_val" => {
            let t = ex.gty(fid, 0);
            let meta = match &args[0] {
                AV::P(_, 8) => 0,
                a => {
                    let n = match a {
                        AV::P(_, n) => *n,
                        AV::K(k) => k.len() as u32,
                    };
                    if n >= 16 {
                        ex.av_u(&args[0], 8, 8)? as u64
                    } else {
                        0
                    }
                }
            };
            let (s, a) = ex.size_align_val(t, meta)?;
            ret!(S::C(if name == "size_of_val" { s } else { a } as u128))
        }
        "needs_drop" => {
            let t = ex.gty(fid, 0);
            let i = rustc_public::mir::mono::Instance::resolve_drop_in_place(t);
            ret!(S::C(!i.is_empty_shim() as u128))
        }
        "type_id" => {
            let t = ex.gty(fid, 0);
            // an injective identity per type
            let s = format!("{:?}", t);
            let mut h: u128 = 0xcbf29ce484222325;
            for b in s.bytes() {
                h = (h ^ b as u128).wrapping_mul(0x0000000001000000000000000000013B);
            }
            ret!(S::C(h))
        }
        "type_id_eq" => {
            let (p, q) = (ex.av_u(&args[0], 0, 16)?, ex.av_u(&args[1], 0, 16)?);
            ret!(S::C((p == q) as u128))
        }
        "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path"
        | "ub_checks" | "prefetch_read_data" | "forget" => Ok(Handled::Done),
        "likely" | "unlikely" | "black_box" => {
            ex.av_to(&args[0], dst)?;
            Ok(Handled::Done)
        }
        "contract_checks" => ret!(S::C(0)),
        "is_val_statically_known" => ret!(S::C(0)),
        "const_eval_select" => {
            // (tuple, const fn, runtime fn)
            let t = ex.gty(fid, 2);
            let inst = match rig(t) {
                RigidTy::FnDef(d, a) => rustc_public::mir::mono::Instance::resolve(d, &a).unwrap(),
                o => return unsup(format!("const_eval_select {:?}", o)),
            };
            let f2 = ex.cx.func(inst, false);
            let tt = ex.gty(fid, 0);
            let fields: Vec<(u32, u32)> = match rig(tt) {
                RigidTy::Tuple(ts) => ts
                    .iter()
                    .enumerate()
                    .map(|(i, t)| (ex.cx.field_off(tt, None, i) as u32, ex.cx.size(*t) as u32))
                    .collect(),
                _ => return unsup("const_eval_select args"),
            };
            let mut av = vec![];
            for (o, n) in fields {
                match &args[0] {
                    AV::P(p, _) => av.push(AV::P(p + o as u64, n)),
                    AV::K(k) => av.push(AV::K(Rc::new(k[o as usize..(o + n) as usize].to_vec()))),
                }
            }
            let target = current_target(ex);
            // the callee may itself be a panic entry point
            match builtin(ex, f2, &av, dst, dn, target)? {
                Handled::No => ex.enter(f2, &av, &None, dst, dn, target, false)?,
                Handled::Redirect(f3) => ex.enter(f3, &av, &None, dst, dn, target, false)?,
                Handled::Done => return Ok(Handled::Done),
                Handled::Entered => {}
            }
            Ok(Handled::Entered)
        }
        "caller_location" => {
            let p = ex.cx.add_global(vec![0; 32], false);
            ret!(S::C(p as u128))
        }
        "ptr_offset_from" | "ptr_offset_from_unsigned" => {
            let t = ex.gty(fid, 0);
            let sz = ex.cx.size(t) as i64;
            let p = ex.av_u(&args[0], 0, 8)? as i64;
            let q = ex.av_u(&args[1], 0, 8)? as i64;
            ret!(S::C((p.wrapping_sub(q) / sz) as u64 as u128))
        }
        "arith_offset" | "offset" => {
            let t = ex.gty(fid, 0);
            let sz = match rig(t) {
                RigidTy::RawPtr(p, _) => ex.cx.size(p),
                _ => ex.cx.size(t),
            };
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let i = ex.av_u(&args[1], 0, 8)? as u64;
            ret!(S::C(p.wrapping_add(i.wrapping_mul(sz)) as u128))
        }
        "ptr_mask" => {
            let p = ex.av_u(&args[0], 0, 8)?;
            let i = ex.av_u(&args[1], 0, 8)?;
            ret!(S::C(p & i))
        }
        "copy" | "copy_nonoverlapping" | "volatile_copy_memory" => {
            let t = ex.gty(fid, 0);
            let sz = ex.cx.size(t);
            let s = ex.av_u(&args[0], 0, 8)? as u64;
            let d = ex.av_u(&args[1], 0, 8)? as u64;
            let n = ex.av_u(&args[2], 0, 8)? as u64;
            ex.cp(d, s, n * sz)?;
            Ok(Handled::Done)
        }
        "write_bytes" => {
            let t = ex.gty(fid, 0);
            let sz = ex.cx.size(t);
            let d = ex.av_u(&args[0], 0, 8)? as u64;
            let v = ex.av_u(&args[1], 0, 1)? as u8;
            let n = ex.av_u(&args[2], 0, 8)? as u64;
            ex.wr_bytes(d, &vec![v; (n * sz) as usize])?;
            Ok(Handled::Done)
        }
        "volatile_load" | "unaligned_volatile_load" => {
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            ex.cp(dst, p, dn as u64)?;
            Ok(Handled::Done)
        }
        "volatile_store" => {
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            ex.av_to(&args[1], p)?;
            Ok(Handled::Done)
        }
        "compare_bytes" => {
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let q = ex.av_u(&args[1], 0, 8)? as u64;
            let n = ex.av_u(&args[2], 0, 8)? as u64;
            // when only equality is asked for by the caller the order costs one more fork
            let r = ex.cmp_bytes(p, q, n)?;
            ret!(r)
        }
        "raw_eq" => {
            let t = ex.gty(fid, 0);
            let n = ex.cx.size(t);
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let q = ex.av_u(&args[1], 0, 8)? as u64;
            let r = ex.eq_bytes(p, q, n)?;
            let t = ex.ar.b2i(r);
            let v = ex.sc(t, 1);
            ret!(v)
        }
        "discriminant_value" => {
            let t = ex.gty(fid, 0);
            let e = ex.cx.enuml(t);
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let v = ex.discr_pub(p, &e)?;
            ret!(S::C(v))
        }
        "variant_count" => {
            let t = ex.gty(fid, 0);
            let n = match rig(t) {
                RigidTy::Adt(d, _) => d.num_variants(),
                _ => 0,
            };
            ret!(S::C(n as u128))
        }
        "transmute" | "transmute_unchecked" => {
            ex.av_to(&args[0], dst)?;
            Ok(Handled::Done)
        }
        "read_via_copy" => {
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            ex.cp(dst, p, dn as u64)?;
            Ok(Handled::Done)
        }
        "write_via_move" => {
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            ex.av_to(&args[1], p)?;
            Ok(Handled::Done)
        }
        "abort" | "breakpoint" | "unreachable" => Err(Stop::Panic(format!("intrinsic {}", name))),
        "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" | "ctlz_nonzero" | "cttz_nonzero" => {
            let t = ex.gty(fid, 0);
            let k = ex.cx.intk(t);
            let v = ex.av_rd(&args[0], 0, k.size as u32)?;
            let v = match v {
                S::C(v) => v,
                S::T(t) => {
                    if name == "bswap" {
                        // byte reversal of a symbolic value
                        let mut sum = ex.ar.ku(0);
                        for i in 0..k.size as u32 {
                            let b = extract(&mut ex.ar, t, i, 1);
                            sum = ex.ar.lin(sum, &Big::one(), b, &Big::pow2(8 * (k.size as u32 - 1 - i)));
                        }
                        ret!(S::T(sum))
                    }
                    return bitcount(ex, name, t, k, dst, dn);
                }
            };
            let bits = 8 * k.size as u32;
            let r = match name {
                "ctpop" => v.count_ones() as u128,
                "ctlz" | "ctlz_nonzero" => (v.leading_zeros() - (128 - bits)) as u128,
                "cttz" | "cttz_nonzero" => v.trailing_zeros().min(bits) as u128,
                "bswap" => v.swap_bytes() >> (128 - bits),
                _ => v.reverse_bits() >> (128 - bits),
            };
            ret!(S::C(r))
        }
        "rotate_left" | "rotate_right" => {
            let t = ex.gty(fid, 0);
            let k = ex.cx.intk(t);
            let bits = 8 * k.size as u128;
            let v = ex.av_rd(&args[0], 0, k.size as u32)?;
            let s = ex.av_u(&args[1], 0, 4)? % bits;
            let s = if name == "rotate_left" { s } else { (bits - s) % bits };
            if s == 0 {
                ret!(v)
            }
            let kk = IntK { size: k.size, signed: false };
            let a = ex.binop(BinOp::Shl, v, S::C(s), kk, u64k())?;
            let b = ex.binop(BinOp::Shr, v, S::C(bits - s), kk, u64k())?;
            let r = ex.binop(BinOp::BitOr, a, b, kk, kk)?;
            ret!(r)
        }
        "saturating_add" | "saturating_sub" => {
            let t = ex.gty(fid, 0);
            let k = ex.cx.intk(t);
            let n = k.size as u32;
            let a = ex.av_rd(&args[0], 0, n)?;
            let b = ex.av_rd(&args[1], 0, n)?;
            if k.signed {
                return unsup("signed saturating");
            }
            let op = if name == "saturating_add" { BinOp::Add } else { BinOp::Sub };
            let (r, ov) = ex.checked(op, a, b, k, k)?;
            let r = if ov {
                if op == BinOp::Add {
                    let m = Big::pow2(8 * n).sub(&Big::one());
                    let t = ex.ar.k(m);
                    ex.sc(t, n)
                } else {
                    S::C(0)
                }
            } else {
                r
            };
            ret!(r)
        }
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
            let t = ex.gty(fid, 0);
            let k = ex.cx.intk(t);
            let n = k.size as u32;
            let a = ex.av_rd(&args[0], 0, n)?;
            let b = ex.av_rd(&args[1], 0, n)?;
            let op = match name {
                "add_with_overflow" => BinOp::Add,
                "sub_with_overflow" => BinOp::Sub,
                _ => BinOp::Mul,
            };
            let (r, ov) = ex.checked(op, a, b, k, k)?;
            ex.wr(dst, n, r)?;
            ex.wr(dst + n as u64, 1, S::C(ov as u128))?;
            Ok(Handled::Done)
        }
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul"
        | "unchecked_div" | "unchecked_rem" | "unchecked_shl" | "unchecked_shr" | "exact_div" | "three_way_compare" | "disjoint_bitor" => {
            let t = ex.gty(fid, 0);
            let k = ex.cx.intk(t);
            let n = k.size as u32;
            let a = ex.av_rd(&args[0], 0, n)?;
            let rn = match &args[1] {
                AV::P(_, n) => *n,
                AV::K(k) => k.len() as u32,
            };
            let b = ex.av_rd(&args[1], 0, rn)?;
            let op = match name {
                "wrapping_add" | "unchecked_add" => BinOp::Add,
                "wrapping_sub" | "unchecked_sub" => BinOp::Sub,
                "wrapping_mul" | "unchecked_mul" => BinOp::Mul,
                "unchecked_div" | "exact_div" => BinOp::Div,
                "unchecked_rem" => BinOp::Rem,
                "unchecked_shl" => BinOp::Shl,
                "three_way_compare" => BinOp::Cmp,
                "disjoint_bitor" => BinOp::BitOr,
                _ => BinOp::Shr,
            };
            let r = ex.binop(op, a, b, k, IntK { size: rn as u8, signed: false })?;
            ret!(r)
        }
        "carrying_mul_add" => {
            // (multiplier, multiplicand, addend, carry) -> (low, high)
            let t = ex.gty(fid, 0);
            let k = ex.cx.intk(t);
            let n = k.size as u32;
            let mut v = vec![];
            for a in &args[..4] {
                let t = ex.av_t(a, 0, n)?;
                v.push(t);
            }
            let p = ex.ar.mul(v[0], v[1]);
            let p = ex.ar.add(p, v[2]);
            let p = ex.ar.add(p, v[3]);
            let m = Big::pow2(8 * n);
            let lo = ex.ar.modk(p, &m);
            let hi = ex.ar.divk(p, &m);
            let (lo, hi) = (ex.sc(lo, n), ex.sc(hi, n));
            ex.wr(dst, n, lo)?;
            ex.wr(dst + n as u64, n, hi)?;
            Ok(Handled::Done)
        }
        "select_unpredictable" => {
            let c = ex.av_rd(&args[0], 0, 1)?;
            let c = ex.boolean(c);
            let r = ex.decide(c)?;
            ex.av_to(&args[if r { 1 } else { 2 }], dst)?;
            Ok(Handled::Done)
        }
        "slice_get_unchecked" => {
            // fn(ptr: SlicePtr, index) -> item ptr
            let t = ex.gty(fid, 2);
            let sz = ex.cx.size(t);
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let i = ex.av_u(&args[1], 0, 8)? as u64;
            ret!(S::C((p + i * sz) as u128))
        }
        "vtable_size" | "vtable_align" => {
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let v = ex.rdp(p + if name == "vtable_size" { 8 } else { 16 })?;
            ret!(S::C(v as u128))
        }
        "type_name" => {
            let t = ex.gty(fid, 0);
            let s = format!("{}", t);
            let n = s.len();
            let p = ex.cx.add_global(s.into_bytes(), false);
            ex.wr(dst, 8, S::C(p as u128))?;
            ex.wr(dst + 8, 8, S::C(n as u128))?;
            Ok(Handled::Done)
        }
        n if n.starts_with("atomic_") => atomic(ex, fid, n, args, dst, dn),
        _ => {
            if ex.body(fid).is_some() {
                return Ok(Handled::No);
            }
            unsup(format!("intrinsic {} at {}", name, ex.stack_top(4)))
        }
    }
}

fn current_target(ex: &Ex) -> Option<usize> {
    let fr = ex.s.frames.last().unwrap();
    match &fr.f.blocks[fr.bb].te {
        Te::Call { target, .. } => *target,
        _ => None,
    }
}

fn bitcount(ex: &mut Ex, name: &str, t: T, k: IntK, dst: u64, dn: u32) -> R<Handled> {
    let bits = 8 * k.size as u32;
    match name {
        "ctlz" | "ctlz_nonzero" => {
            // one fork per possible length inside the known bounds
            let iv = ex.ar.iv_full(t, Some(&ex.s.rf));
            let hi = iv.1.map_or(bits, |h| h.bits());
            let lo = iv.0.map_or(0, |l| if l.is_neg() { 0 } else { l.bits() });
            if hi - lo > 80 {
                return unsup(format!("leading zeros of a wide symbolic value at {}", ex.stack_top(5)));
            }
            for n in (lo..=hi).rev() {
                if n == lo {
                    ex.wr(dst, dn, S::C((bits - n) as u128))?;
                    return Ok(Handled::Done);
                }
                let p = ex.ar.k(Big::pow2(n - 1));
                let c = ex.ar.ge(t, p);
                if ex.decide(c)? {
                    ex.wr(dst, dn, S::C((bits - n) as u128))?;
                    return Ok(Handled::Done);
                }
            }
            Err(Stop::Dead)
        }
        _ => unsup(format!("symbolic {} at {}", name, ex.stack_top(5))),
    }
}

fn atomic(ex: &mut Ex, fid: u32, name: &str, args: &[AV], dst: u64, dn: u32) -> R<Handled> {
    let base = name.strip_prefix("atomic_").unwrap();
    let op = base.split('_').next().unwrap();
    if op == "fence" || op == "singlethreadfence" {
        return Ok(Handled::Done);
    }
    let p = ex.av_u(&args[0], 0, 8)? as u64;
    match op {
        "load" => {
            ex.cp(dst, p, dn as u64)?;
        }
        "store" => {
            ex.av_to(&args[1], p)?;
        }
        "xchg" => {
            ex.cp(dst, p, dn as u64)?;
            ex.av_to(&args[1], p)?;
        }
        "cxchg" | "cxchgweak" => {
            let t = ex.gty(fid, 0);
            let n = ex.cx.size(t) as u32;
            let cur = ex.rdc(p, n)?;
            let old = ex.av_u(&args[1], 0, n)?;
            let ok = cur == old;
            if ok {
                ex.av_to(&args[2], p)?;
            }
            ex.wr(dst, n, S::C(cur))?;
            ex.wr(dst + n as u64, 1, S::C(ok as u128))?;
        }
        _ => {
            let t = ex.gty(fid, 0);
            let n = ex.cx.size(t) as u32;
            let k = IntK { size: n as u8, signed: false };
            let cur = ex.rd(p, n)?;
            let b = ex.av_rd(&args[1], 0, n)?;
            let o = match op {
                "xadd" => BinOp::Add,
                "xsub" => BinOp::Sub,
                "and" => BinOp::BitAnd,
                "or" => BinOp::BitOr,
                "xor" => BinOp::BitXor,
                _ => return unsup(name.to_string()),
            };
            let r = ex.binop(o, cur, b, k, k)?;
            ex.wr(dst, n, cur)?;
            ex.wr(p, n, r)?;
        }
    }
    Ok(Handled::Done)
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            o.push(if i <= c.len() { B64[(v >> (18 - 6 * i)) as usize & 63] } else { b'=' });
        }
    }
    o
}
/// canonical base64 with padding
pub fn unb64(s: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    if s.len() % 4 != 0 {
        return None;
    }
    for c in s.chunks(4) {
        let mut v = 0u32;
        let mut k = 0;
        for x in c {
            v <<= 6;
            match B64.iter().position(|y| y == x) {
                Some(i) if k < 4 => {
                    v |= i as u32;
                    k += 1;
                }
                _ if *x == b'=' => {}
                _ => return None,
            }
        }
        let n = k * 6 / 8;
        o.extend_from_slice(&v.to_be_bytes()[1..1 + n]);
    }
    if b64(&o) == s {
        Some(o)
    } else {
        None
    }
}
