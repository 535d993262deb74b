//! 256-bit integers and 18-digit decimals.
use crate::sym::*;
use bigint::U256;
use bignumber::{Decimal256, Uint256};
use cosmwasm_std::{Decimal, Uint128};
use std::convert::TryFrom;
use std::str::FromStr;

fn any_u256(name: &str) -> Uint256 {
    let mut v = U256([0; 4]);
    any_z(name, 256).write(v.0.as_mut_ptr() as *mut u8, 32);
    Uint256(v)
}
fn zz(v: U256) -> Z {
    Z::read(v.0.as_ptr() as *const u8, 32)
}
fn one() -> Z {
    z(1_000_000_000_000_000_000)
}
fn u(r: Option<Uint256>) -> Option<Z> {
    r.map(|v| zz(v.0))
}
fn d(r: Option<Decimal256>) -> Option<Z> {
    r.map(|v| zz(v.0))
}
/// `up` divided by `down` rounded down, or an abort if `down` is zero or `up` has no room
fn quotient(got: Option<Z>, up: Z, down: Z) {
    match got {
        Some(v) => {
            reach("computed");
            check(down.gt(z(0)), "no number is divided by zero");
            check(v.eq(up / down.or1()), "the exact quotient rounded down");
        }
        None => {
            reach("aborted");
            check(or(down.eq(z(0)), up.ge(pow2(256))), "nothing is aborted that can be computed");
        }
    }
}
/// `want`, or an abort if that is no number of so many bits
fn exact(got: Option<Z>, want: Z, bits: u32) {
    match got {
        Some(v) => {
            reach("computed");
            check(v.eq(want), "the exact result");
        }
        None => {
            reach("aborted");
            check(or(want.lt(z(0)), want.ge(pow2(bits))), "nothing is aborted that can be computed");
        }
    }
}

/// sums and differences
pub fn c25_linear() {
    let (a, b) = (any_u256("a"), any_u256("b"));
    let (x, y) = (zz(a.0), zz(b.0));
    let (p, q) = (Decimal256(a.0), Decimal256(b.0));
    match choice("op", 9) {
        0 => exact(u(tx(|| a + b)), x + y, 256),
        1 => exact(
            u(tx(|| {
                let mut s = a;
                s += b;
                s
            })),
            x + y,
            256,
        ),
        2 => exact(u(tx(|| a - b)), x - y, 256),
        3 => exact(d(tx(|| p + q)), x + y, 256),
        4 => exact(
            d(tx(|| {
                let mut s = p;
                s += q;
                s
            })),
            x + y,
            256,
        ),
        5 => exact(d(tx(|| p - q)), x - y, 256),
        6 => {
            check((a < b) == x.lt(y) && (a <= b) == x.le(y) && (a > b) == y.lt(x) && (a >= b) == y.le(x), "ordered as integers");
            check((a == b) == x.eq(y) && (a != b) == !x.eq(y), "equal as integers");
            let o = a.cmp(&b);
            check((o == std::cmp::Ordering::Less) == x.lt(y) && (o == std::cmp::Ordering::Equal) == x.eq(y), "compared as integers");
            check(zz(a.max(b).0).eq(x.max(y)) && zz(a.min(b).0).eq(x.min(y)), "the larger and the smaller integer");
            reach("compared");
        }
        7 => {
            check((p < q) == x.lt(y) && (p <= q) == x.le(y) && (p > q) == y.lt(x) && (p >= q) == y.le(x), "ordered as decimals");
            check((p == q) == x.eq(y) && (p != q) == !x.eq(y), "equal as decimals");
            let o = p.cmp(&q);
            check((o == std::cmp::Ordering::Less) == x.lt(y) && (o == std::cmp::Ordering::Equal) == x.eq(y), "compared as decimals");
            check(zz(p.max(q).0).eq(x.max(y)) && zz(p.min(q).0).eq(x.min(y)), "the larger and the smaller decimal");
            reach("compared");
        }
        _ => {
            check(a.is_zero() == x.eq(z(0)) && p.is_zero() == x.eq(z(0)), "zero alone is zero");
            check(zz(Uint256::zero().0).eq(z(0)) && zz(Uint256::one().0).eq(z(1)), "zero and one");
            check(zz(Decimal256::zero().0).eq(z(0)) && zz(Decimal256::one().0).eq(one()), "zero and one");
            check(zz(Decimal256::MAX.0).eq(pow2(256) - z(1)), "the greatest decimal");
            check(zz(Uint256::default().0).eq(z(0)) && zz(Decimal256::default().0).eq(z(0)), "zero by default");
            reach("constants");
        }
    }
}
/// products and ratios
pub fn c25_product() {
    let op = choice("op", 10);
    let (a, b) = (any_u256("a"), any_u256("b"));
    let (x, y) = (zz(a.0), zz(b.0));
    let (p, q) = (Decimal256(a.0), Decimal256(b.0));
    match op {
        0 => exact(u(tx(|| a * b)), x * y, 256),
        1 => quotient(u(tx(|| a * q)), x * y, one()),
        2 => quotient(u(tx(|| p * b)), x * y, one()),
        3 => quotient(d(tx(|| p * q)), x * y, one()),
        4 => quotient(u(tx(|| a / q)), x * one(), y),
        5 => quotient(d(tx(|| p / q)), x * one(), y),
        6 => quotient(d(tx(|| Decimal256::from_ratio(a, b))), x * one(), y),
        7 => {
            let c = any_u256("c");
            quotient(u(tx(|| a.multiply_ratio(b, c))), x * y, zz(c.0))
        }
        8 => quotient(d(tx(|| Decimal256::from_ratio(a.0, b.0))), x * one(), y),
        _ => {
            let c = any_u256("c");
            quotient(u(tx(|| a.multiply_ratio(b.0, c.0))), x * y, zz(c.0))
        }
    }
}
/// narrow numbers and back
pub fn c25_convert() {
    let op = choice("op", 16);
    match op {
        0 | 1 | 2 => {
            let a = any_u256("a");
            let x = zz(a.0);
            match op {
                0 => exact(
                    tx(|| {
                        let n: u128 = a.into();
                        n
                    })
                    .map(z),
                    x,
                    128,
                ),
                1 => exact(
                    tx(|| {
                        let n: Uint128 = a.into();
                        n.u128()
                    })
                    .map(z),
                    x,
                    128,
                ),
                _ => {
                    let n: U256 = a.into();
                    check(zz(n).eq(x), "the exact result");
                    check(zz(Uint256::from(n).0).eq(x), "the exact result");
                }
            }
        }
        3 | 4 | 5 | 6 | 7 | 8 => {
            let n = any_u128("n");
            match op {
                3 => exact(u(tx(|| Uint256::from(n))), z(n), 256),
                4 => exact(u(tx(|| Uint256::from(Uint128::new(n)))), z(n), 256),
                5 => exact(d(tx(|| Decimal256::from_uint256(n))), z(n) * one(), 256),
                6 => exact(d(tx(|| Decimal256::from_uint256(Uint128::new(n)))), z(n) * one(), 256),
                7 => exact(d(tx(|| Decimal256::from(Decimal::new(Uint128::new(n))))), z(n), 256),
                _ => {
                    // there and back
                    let v = tx(|| Decimal::from(Decimal256::from(Decimal::new(Uint128::new(n))))).map(|v| z(v.atomics().u128()));
                    exact(v, z(n), 256)
                }
            }
        }
        9 | 10 | 11 | 12 | 13 => {
            let n = any_u64("narrow");
            match op {
                9 => exact(u(tx(|| Uint256::from(n))), z(n as u128), 256),
                10 => exact(d(tx(|| Decimal256::percent(n))), z(n as u128) * z(10_000_000_000_000_000), 256),
                11 => exact(d(tx(|| Decimal256::permille(n))), z(n as u128) * z(1_000_000_000_000_000), 256),
                12 => quotient(d(tx(|| Decimal256::from_ratio(n, 1000u64))), z(n as u128) * one(), z(1000)),
                _ => {
                    let m = any_u64("m");
                    quotient(d(tx(|| Decimal256::from_ratio(n, m))), z(n as u128) * one(), z(m as u128))
                }
            }
        }
        14 => {
            let a = any_u256("a");
            exact(d(tx(|| Decimal256::from_uint256(a))), zz(a.0) * one(), 256)
        }
        _ => {
            let a = any_u256("a");
            let v = tx(|| Decimal::from(Decimal256(a.0))).map(|v| z(v.atomics().u128()));
            exact(v, zz(a.0), 128)
        }
    }
}

/// decimal text without superfluous digits
fn canonical(s: &str, dots: usize) {
    let b = s.as_bytes();
    let n = b.len();
    let mut dot = n;
    for i in 0..n {
        if b[i] == b'.' {
            check(dot == n && dots > 0, "one dot at most");
            dot = i;
        } else {
            check(and(b[i] >= b'0', b[i] <= b'9'), "only digits");
        }
    }
    check(dot > 0, "digits before the dot");
    check(dot == 1 || b[0] != b'0', "no leading zeros");
    if dot < n {
        check(dot + 1 < n && n - dot - 1 <= 18, "up to 18 digits after the dot");
        check(b[n - 1] != b'0', "no trailing zeros");
    }
}
pub fn c26_uint() {
    exact_text(true);
    let v = any_u256("v");
    let s = v.to_string();
    reach("written");
    canonical(&s, 0);
    let x = zz(v.0);
    match choice("reader", 4) {
        0 => check(Uint256::from_str(&s).ok().map_or(false, |r| zz(r.0).eq(x)), "read back as the same integer"),
        1 => check(Uint256::try_from(s.as_str()).ok().map_or(false, |r| zz(r.0).eq(x)), "read back as the same integer"),
        2 => {
            let t: String = v.into();
            check(t == s, "one text");
        }
        _ => {
            let j = cosmwasm_std::to_vec(&v).unwrap();
            check(j.len() == s.len() + 2 && &j[1..j.len() - 1] == s.as_bytes() && j[0] == b'"', "the text in quotes");
            let r: Option<Uint256> = cosmwasm_std::from_slice(&j).ok();
            check(r.map_or(false, |r| zz(r.0).eq(x)), "read back as the same integer");
        }
    }
}
pub fn c26_decimal() {
    exact_text(true);
    let v = Decimal256(any_u256("v").0);
    between(zz(v.0), choice("magnitude", 8), 8);
    let s = v.to_string();
    reach("written");
    canonical(&s, 1);
    let x = zz(v.0);
    check(Decimal256::from_str(&s).ok().map_or(false, |r| zz(r.0).eq(x)), "read back as the same decimal");
}
/// 18-digit decimals of the chain's own kind and back
pub fn c26_narrow() {
    exact_text(true);
    let n = any_u128("n");
    between(z(n), choice("magnitude", 4), 4);
    let v = Decimal::new(Uint128::new(n));
    let w = tx(|| Decimal256::from(v));
    check(w.map_or(false, |w| zz(w.0).eq(z(n))), "widened exactly");
    if let Some(w) = w {
        reach("widened");
        check(w.to_string() == v.to_string(), "one text for both kinds of decimal");
        let b = tx(|| Decimal::from(w));
        check(b.map_or(false, |b| b == v), "narrowed exactly");
    }
}
/// a block of numbers by the digits before the dot; the last block is open
fn between(x: Z, block: usize, blocks: usize) {
    let step = if blocks == 4 { 6 } else { 8 };
    let at = |i: usize| {
        let mut p = z(1);
        for _ in 0..18 + step * i {
            p = p * z(10);
        }
        p
    };
    if block > 0 {
        assume(x.ge(at(block)));
    }
    if block + 1 < blocks {
        assume(x.lt(at(block + 1)));
    }
}
fn digit(b: u8) -> bool {
    b >= b'0' && b <= b'9'
}
/// the number a text denotes (missing digits are none), in atomics; none if it denotes none
fn denoted(b: &[u8]) -> Option<Z> {
    let mut v = z(0);
    let mut frac: Option<usize> = None;
    for &c in b {
        if c == b'.' {
            if frac.is_some() {
                return None;
            }
            frac = Some(0);
        } else if digit(c) {
            v = v * z(10) + z((c - b'0') as u128);
            frac = frac.map(|n| n + 1);
        } else {
            return None;
        }
    }
    let n = frac.unwrap_or(0);
    if n > 18 {
        return None;
    }
    for _ in n..18 {
        v = v * z(10);
    }
    Some(v)
}
fn parsed(b: &[u8]) {
    let s = String::from_utf8(b.to_vec()).unwrap();
    let got = tx(|| Decimal256::from_str(&s).ok()).flatten();
    let want = denoted(b);
    match (got, want) {
        (Some(g), Some(w)) => {
            reach("read");
            check(zz(g.0).eq(w), "exactly the number it denotes");
        }
        (Some(_), None) => check(false, "a text that is no number gives none"),
        (None, Some(w)) => {
            reach("too large");
            check(w.ge(pow2(256)), "every number with room is read");
        }
        (None, None) => reach("no number"),
    }
}
fn parsed_int(b: &[u8]) {
    let s = String::from_utf8(b.to_vec()).unwrap();
    let got = tx(|| Uint256::from_str(&s).ok()).flatten();
    let other = tx(|| Uint256::try_from(s.as_str()).ok()).flatten();
    let mut want = Some(z(0));
    for &c in b {
        want = match want {
            Some(v) if digit(c) => Some(v * z(10) + z((c - b'0') as u128)),
            _ => None,
        };
    }
    check(got.is_some() == other.is_some(), "both readers agree");
    if let (Some(g), Some(o)) = (got, other) {
        check(zz(g.0).eq(zz(o.0)), "both readers agree");
    }
    match (got, want) {
        (Some(g), Some(w)) => {
            reach("read");
            check(zz(g.0).eq(w), "exactly the number it denotes");
        }
        (Some(_), None) => check(false, "a text that is no number gives none"),
        (None, Some(w)) => {
            reach("too large");
            check(w.ge(pow2(256)), "every number with room is read");
        }
        (None, None) => reach("no number"),
    }
}
const BYTES: [&str; 6] = ["c0", "c1", "c2", "c3", "c4", "c5"];
fn short(max: usize) -> Vec<u8> {
    let n = choice("length", max + 1);
    (0..n).map(|i| any_u8(BYTES[i], 0x20, 0x7e)).collect()
}
/// short texts of any characters
pub fn c26_short() {
    let b = short(5);
    parsed(&b);
}
pub fn c26_short_int() {
    let b = short(4);
    parsed_int(&b);
}
pub fn c26_short_six() {
    let b: Vec<u8> = (0..6).map(|i| any_u8(BYTES[i], 0x20, 0x7e)).collect();
    parsed(&b);
}
/// long texts of any digits
pub fn c26_long() {
    let w = [0, 1, 2, 20, 38, 59, 60, 61, 77, 78, 79][choice("whole digits", 11)];
    let f = [None, Some(0), Some(1), Some(2), Some(9), Some(16), Some(17), Some(18), Some(19), Some(20), Some(36)][choice("fractional digits", 11)];
    let mut b = vec![];
    for i in 0..w {
        b.push(any_u8(&format!("w{}", i), b'0', b'9'));
    }
    if let Some(f) = f {
        b.push(b'.');
        for i in 0..f {
            b.push(any_u8(&format!("f{}", i), b'0', b'9'));
        }
    }
    parsed(&b);
}
pub fn c26_long_int() {
    let w = [1, 2, 20, 39, 76, 77, 78, 79, 80][choice("digits", 9)];
    let b: Vec<u8> = (0..w).map(|i| any_u8(&format!("w{}", i), b'0', b'9')).collect();
    parsed_int(&b);
}
/// decimals in messages
pub fn c26_message() {
    exact_text(true);
    let x = any_z("v", 90);
    let mut v = Decimal256::zero();
    x.write((v.0).0.as_mut_ptr() as *mut u8, 32);
    let j = cosmwasm_std::to_vec(&v).unwrap();
    let s = v.to_string();
    check(j.len() == s.len() + 2 && &j[1..j.len() - 1] == s.as_bytes() && j[0] == b'"', "the text in quotes");
    let r: Option<Decimal256> = cosmwasm_std::from_slice(&j).ok();
    check(r.map_or(false, |r| zz(r.0).eq(x)), "read back as the same decimal");
}
pub fn exact_text(on: bool) {
    api::exact_text(on)
}
