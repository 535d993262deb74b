//! Models of library leaf functions: wide integer arithmetic of the `bigint` and `uint` crates,
//! integer square root, and decimal text of machine integers. Each model states the function's
//! documented mathematical result; concrete operands of text functions run the real code.
use crate::big::Big;
use crate::exec::*;
use crate::intrin::Handled;
use crate::mem::*;
use crate::term::*;

const FMT: u32 = 1;
const PARSE128: u32 = 2;
const SQRT: u32 = 3;
const POWC: u32 = 4;
const FROMDEC: u32 = 5;
const TOB64: u32 = 6;
const MEMCHR: u32 = 8;
const MEMRCHR: u32 = 9;
const FROMB64: u32 = 7;
const OP: u32 = 1000; // + width * 32 + op
const ADD: u32 = 0;
const SUB: u32 = 1;
const MUL: u32 = 2;
const DIV: u32 = 3;
const REM: u32 = 4;
const DIVMOD: u32 = 5;
const CMP: u32 = 6;
const ISZERO: u32 = 7;
const LT: u32 = 8;
const LE: u32 = 9;
const GT: u32 = 10;
const GE: u32 = 11;
const DISPLAY: u32 = 12;
const MULU64: u32 = 13;
const ISQRT: u32 = 14;
const FULLMUL: u32 = 15;
const MULU32: u32 = 16;

fn wide(name: &str) -> Option<(u32, &str, bool)> {
    // (bytes, rest of the name after the type, is the bigint crate)
    for (pat, w, b) in [
        ("bigint::uint::U256", 32, true),
        ("bigint::uint::U512", 64, true),
        ("bigint::U256", 32, true),
        ("bigint::U512", 64, true),
        ("uints::U256", 32, false),
        ("uints::U512", 64, false),
    ] {
        if let Some(i) = name.find(pat) {
            // inherent method or the Self type of a trait method
            let head = &name[..i];
            let ok = head.chars().all(|c| c.is_alphanumeric() || c == '_' || c == ':') || (head.starts_with('<') && !head.contains(' '));
            if ok && !head.contains('&') {
                return Some((w, &name[i + pat.len()..], b));
            }
        }
    }
    None
}

pub fn classify(name: &str) -> u32 {
    if let Some((w, rest, _)) = wide(name) {
        let base = OP + w * 32;
        if let Some(m) = rest.strip_prefix("::") {
            let o = match m {
                "overflowing_add" => ADD,
                "overflowing_sub" => SUB,
                "overflowing_mul" => MUL,
                "div_mod" => DIVMOD,
                "is_zero" => ISZERO,
                "overflowing_mul_u64" => MULU64,
                "overflowing_mul_u32" => MULU32,
                "integer_sqrt" => ISQRT,
                "full_mul" => FULLMUL,
                "from_dec_str" => return FROMDEC,
                _ => return 0,
            };
            return base + o;
        }
        if let Some(m) = rest.strip_prefix(" as ") {
            let last = m.rsplit(">::").next().unwrap_or("");
            let tr = m.split(">::").next().unwrap_or("");
            let o = match last {
                "cmp" if tr.ends_with("cmp::Ord") => CMP,
                "lt" if tr.ends_with("cmp::PartialOrd") => LT,
                "le" if tr.ends_with("cmp::PartialOrd") => LE,
                "gt" if tr.ends_with("cmp::PartialOrd") => GT,
                "ge" if tr.ends_with("cmp::PartialOrd") => GE,
                "div" if name.contains("bigint::") && tr.ends_with("ops::Div") => DIV,
                "rem" if name.contains("bigint::") && tr.ends_with("ops::Rem") => REM,
                "fmt" if tr.ends_with("fmt::Display") => DISPLAY,
                _ => return 0,
            };
            return base + o;
        }
        return 0;
    }
    if name.starts_with("core::fmt::num::") && name.ends_with("::_fmt") {
        return FMT;
    }
    if name == "core::slice::memchr::memchr" {
        return MEMCHR;
    }
    if name == "core::slice::memchr::memrchr" {
        return MEMRCHR;
    }
    if name == "cosmwasm_std::Binary::to_base64" {
        return TOB64;
    }
    if name == "cosmwasm_std::Binary::from_base64" {
        return FROMB64;
    }
    if name == "core::num::<impl u128>::from_str_radix" {
        return PARSE128;
    }
    if (name.starts_with('<') && name.ends_with("as integer_sqrt::IntegerSquareRoot>::integer_sqrt"))
        || (name.starts_with("core::num::<impl u") && name.ends_with(">::isqrt"))
        || (name.starts_with('<') && name.ends_with("::Isqrt>::isqrt"))
    {
        return SQRT;
    }
    if name.starts_with("core::num::<impl u") && (name.ends_with(">::pow") || name.ends_with(">::checked_pow")) {
        return POWC;
    }
    0
}

fn width(a: &AV) -> u32 {
    match a {
        AV::P(_, n) => *n,
        AV::K(k) => k.len() as u32,
    }
}

pub fn stub(ex: &mut Ex, k: u32, fid: u32, args: &[AV], dst: u64, dn: u32) -> R<Handled> {
    match k {
        FMT => fmt(ex, fid, args, dst),
        PARSE128 => {
            // (&str, radix)
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let n = ex.av_u(&args[0], 8, 8)? as u64;
            if n == 18 {
                if let Some(b) = ex.rd_bytes(p, n)? {
                    if ex.untoken(&b).is_some() {
                        ex.used("text of a symbolic number: parse u128");
                        return redirect(ex, "parse_u128");
                    }
                }
            }
            Ok(Handled::No)
        }
        FROMDEC => {
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let n = ex.av_u(&args[0], 8, 8)? as u64;
            if n == 18 {
                if let Some(b) = ex.rd_bytes(p, n)? {
                    if ex.untoken(&b).is_some() {
                        ex.used("text of a symbolic number: parse U256");
                        return redirect(ex, "from_dec_str");
                    }
                }
            }
            Ok(Handled::No)
        }
        MEMCHR | MEMRCHR => {
            // (byte, &[u8])
            let p = ex.av_u(&args[1], 0, 8)? as u64;
            let n = ex.av_u(&args[1], 8, 8)? as u64;
            if n >= 16 && ex.rd_bytes(p, n)?.is_none() {
                ex.used("searching a byte");
                return redirect(ex, if k == MEMCHR { "memchr" } else { "memrchr" });
            }
            Ok(Handled::No)
        }
        TOB64 => {
            ex.used("base64");
            redirect(ex, "to_base64")
        }
        FROMB64 => {
            let p = ex.av_u(&args[0], 0, 8)? as u64;
            let n = ex.av_u(&args[0], 8, 8)? as u64;
            if let Some(b) = ex.rd_bytes(p, n)? {
                if ex.unblob(&b).is_some() || crate::intrin::unb64(&b).is_some() {
                    ex.used("base64");
                    return redirect(ex, "from_base64");
                }
            }
            Ok(Handled::No)
        }
        SQRT => {
            let n = dn;
            let by_ref = ex.cx.fns[fid as usize].name.ends_with("::integer_sqrt");
            let v = if by_ref {
                let p = ex.av_u(&args[0], 0, 8)? as u64;
                ex.rdt(p, n)?
            } else {
                ex.av_t(&args[0], 0, n)?
            };
            ex.used("integer square root");
            let t = ex.ar.sqrt(v);
            let s = if n <= 16 { ex.sc(t, n) } else { S::T(t) };
            ex.wr(dst, n, s)?;
            Ok(Handled::Done)
        }
        POWC => {
            // fork over the exponent, then run the real code
            if let S::T(t) = ex.av_rd(&args[1], 0, 4)? {
                let v = ex.concretize(t)?;
                if let AV::P(p, _) = &args[1] {
                    let p = *p;
                    ex.wr(p, 4, S::C(v))?;
                }
            }
            Ok(Handled::No)
        }
        k if k >= OP => {
            let w = (k - OP) / 32;
            wide_op(ex, (k - OP) % 32, w, args, dst, dn)
        }
        _ => unsup("stub"),
    }
}

fn redirect(ex: &mut Ex, n: &str) -> R<Handled> {
    match ex.stubs.get(n) {
        Some(i) => {
            let i = *i;
            let f = ex.cx.func(i, false);
            Ok(Handled::Redirect(f))
        }
        None => unsup(format!("no harness stub {}", n)),
    }
}

/// the decimal digits of a number, most significant first; forks on how many there are
pub fn digits(ex: &mut Ex, t: T) -> R<Vec<T>> {
    let ten = Big::from(10u128);
    let iv = ex.ar.iv_full(t, Some(&ex.s.rf));
    let small = iv.1.as_ref().map_or(false, |h| *h < Big::from(100_000u128)) && !ex.digits;
    if !ex.s.digits.is_empty() {
        // a number printed before keeps its digits
        let r = ex.undigit(t);
        if let Some((_, ds)) = ex.s.digits.iter().find(|(x, _)| *x == r || *x == t) {
            return Ok(ds.clone());
        }
    }
    let mut nd = 1usize;
    let mut p = ten.clone();
    loop {
        if iv.1.as_ref().map_or(false, |h| *h < p) || nd >= 160 {
            break;
        }
        let kk = ex.ar.k(p.clone());
        let c = ex.ar.lt(t, kk);
        if ex.decide(c)? {
            break;
        }
        nd += 1;
        p = p.mul(&ten);
    }
    let mut out = vec![];
    if small || nd == 1 || ex.ar.as_const(t).is_some() {
        let mut d = Big::one();
        for i in (0..nd).rev() {
            let q = ex.ar.divk(t, &d);
            let x = if i == 0 { q } else { ex.ar.modk(q, &ten) };
            out.push(x);
            d = d.mul(&ten);
        }
        out.reverse();
        return Ok(out);
    }
    // one variable per digit, bound to the number by an equation
    let mut sum = ex.ar.ku(0);
    for i in 0..nd {
        let lo = Big::from((i == 0) as u128);
        let v = ex.ar.var(&format!("#{}/{}/{}", t, nd, i), lo, Big::from(9u128));
        out.push(v);
        let one = Big::one();
        sum = ex.ar.lin(sum, &ten, v, &one);
    }
    let e = ex.ar.eq(t, sum);
    if ex.ar.quick(e, &ex.s.rf) != Some(true) {
        if let Some(m) = ex.s.model.clone() {
            match ex.ar.eval(t, &m, &mut Default::default()) {
                Some(mut v) => {
                    let mut m = (*m).clone();
                    for i in (0..nd).rev() {
                        let (q, r) = v.divmod_floor(&ten);
                        m.insert(format!("#{}/{}/{}", t, nd, i), r);
                        v = q;
                    }
                    ex.s.model = Some(std::rc::Rc::new(m));
                }
                None => ex.s.model = None,
            }
        }
        ex.assume_true(e);
        ex.s.digits.push((t, out.clone()));
    }
    Ok(out)
}

/// decimal text of a machine integer: exact digits for small ranges, an opaque token otherwise
fn fmt(ex: &mut Ex, fid: u32, args: &[AV], dst: u64) -> R<Handled> {
    let n = width(&args[0]);
    let S::T(t) = ex.av_rd(&args[0], 0, n)? else { return Ok(Handled::No) };
    let signed = !ex.cx.fns[fid as usize].name.contains("<impl u");
    if signed {
        return Ok(Handled::No);
    }
    let iv = ex.ar.iv_full(t, Some(&ex.s.rf));
    let small = iv.1.as_ref().map_or(false, |h| *h < Big::from(100_000u128));
    if small || ex.digits {
        let ds = digits(ex, t)?;
        let nd = ds.len();
        let a = ex.alloc(nd as u64)?;
        for (i, x) in ds.into_iter().enumerate() {
            let x = ex.ar.addk(x, &Big::from(48u128));
            let s = ex.sc(x, 1);
            ex.wr(a + i as u64, 1, s)?;
        }
        ex.wr(dst, 8, S::C(a as u128))?;
        ex.wr(dst + 8, 8, S::C(nd as u128))?;
        return Ok(Handled::Done);
    }
    ex.used("text of a symbolic number: format");
    let a = ex.alloc(18)?;
    let b = ex.token(t);
    ex.wr_bytes(a, &b)?;
    ex.wr(dst, 8, S::C(a as u128))?;
    ex.wr(dst + 8, 8, S::C(18))?;
    Ok(Handled::Done)
}

fn wide_op(ex: &mut Ex, op: u32, w: u32, args: &[AV], dst: u64, dn: u32) -> R<Handled> {
    let by_ref = matches!(op, CMP | LT | LE | GT | GE | ISZERO | DISPLAY | ISQRT);
    let get = |ex: &mut Ex, i: usize| -> R<T> {
        if by_ref {
            let p = ex.av_u(&args[i], 0, 8)? as u64;
            ex.rdt(p, w)
        } else {
            ex.av_t(&args[i], 0, w)
        }
    };
    if !by_ref && (width(&args[0]) != w || (op != MULU64 && op != MULU32 && width(&args[1]) != w)) {
        return Ok(Handled::No);
    }
    let full = Big::pow2(8 * w);
    let x = get(ex, 0)?;
    match op {
        ADD | SUB | MUL => {
            ex.used("wide integer arithmetic");
            let y = get(ex, 1)?;
            let t = match op {
                ADD => ex.ar.add(x, y),
                SUB => ex.ar.sub(x, y),
                _ => ex.ar.mul(x, y),
            };
            let fk = ex.ar.k(full.clone());
            let c = if op == SUB { ex.ar.ge0(t) } else { ex.ar.lt(t, fk) };
            if dn != w + 8 {
                return unsup("wide op layout");
            }
            let ok = ex.decide(c)?;
            let r = if ok { t } else { ex.ar.modk(t, &full) };
            ex.wr(dst, w, S::T(r))?;
            ex.wr(dst + w as u64, 1, S::C(!ok as u128))?;
        }
        FULLMUL => {
            ex.used("wide integer arithmetic");
            let y = get(ex, 1)?;
            let t = ex.ar.mul(x, y);
            ex.wr(dst, 2 * w, S::T(t))?;
        }
        MULU64 => {
            ex.used("wide integer arithmetic");
            let y = ex.av_t(&args[1], 0, 8)?;
            let t = ex.ar.mul(x, y);
            let fk = ex.ar.k(full.clone());
            let c = ex.ar.lt(t, fk);
            let (lo, hi) = if ex.decide(c)? {
                (t, ex.ar.ku(0))
            } else {
                (ex.ar.modk(t, &full), ex.ar.divk(t, &full))
            };
            ex.wr(dst, w, S::T(lo))?;
            let h = ex.sc(hi, 8);
            ex.wr(dst + w as u64, 8, h)?;
        }
        MULU32 => {
            ex.used("wide integer arithmetic");
            let y = ex.av_t(&args[1], 0, 4)?;
            let t = ex.ar.mul(x, y);
            let fk = ex.ar.k(full.clone());
            let c = ex.ar.lt(t, fk);
            if dn != w + 8 {
                return unsup("wide op layout");
            }
            let ok = ex.decide(c)?;
            let r = if ok { t } else { ex.ar.modk(t, &full) };
            ex.wr(dst, w, S::T(r))?;
            ex.wr(dst + w as u64, 1, S::C(!ok as u128))?;
        }
        DIV | REM | DIVMOD => {
            ex.used("wide integer arithmetic");
            let y = get(ex, 1)?;
            let z = ex.ar.ku(0);
            let e = ex.ar.eq(y, z);
            if ex.decide(e)? {
                return Err(Stop::Panic("wide division by zero".into()));
            }
            if op != REM {
                let q = ex.ar.div(x, y);
                ex.wr(dst, w, S::T(q))?;
            }
            if op != DIV {
                let r = ex.ar.rem(x, y);
                let d = if op == REM { dst } else { dst + w as u64 };
                ex.wr(d, w, S::T(r))?;
            }
        }
        CMP => {
            let y = get(ex, 1)?;
            let t = ex.order(x, y);
            let s = ex.sc(t, 1);
            ex.wr(dst, 1, s)?;
        }
        LT | LE | GT | GE => {
            let y = get(ex, 1)?;
            let c = match op {
                LT => ex.ar.lt(x, y),
                LE => ex.ar.ge(y, x),
                GT => ex.ar.lt(y, x),
                _ => ex.ar.ge(x, y),
            };
            let t = ex.ar.b2i(c);
            let s = ex.sc(t, 1);
            ex.wr(dst, 1, s)?;
        }
        ISZERO => {
            let z = ex.ar.ku(0);
            let c = ex.ar.eq(x, z);
            let t = ex.ar.b2i(c);
            let s = ex.sc(t, 1);
            ex.wr(dst, 1, s)?;
        }
        ISQRT => {
            ex.used("integer square root");
            let t = ex.ar.sqrt(x);
            ex.wr(dst, w, S::T(t))?;
        }
        DISPLAY => {
            if ex.ar.as_const(x).is_some() {
                return Ok(Handled::No);
            }
            if ex.digits {
                ex.used("text of a symbolic number: digits");
                return redirect(ex, if w == 32 { "fmt_u256_digits" } else { "fmt_u512_digits" });
            }
            ex.used("text of a symbolic number: format");
            return redirect(ex, if w == 32 { "fmt_u256" } else { "fmt_u512" });
        }
        _ => return unsup("wide op"),
    }
    Ok(Handled::Done)
}
