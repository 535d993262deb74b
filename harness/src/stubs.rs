//! Stand-ins the engine uses for text of symbolic numbers (never run natively).
use crate::sym::*;
use bigint::uint::{FromDecStrErr, U256};
use std::num::ParseIntError;
pub fn parse_u128(s: &str, _radix: u32) -> Result<u128, ParseIntError> {
    let v = Z(api::tok_value(s.as_ptr(), s.len()));
    if v.lt(pow2(128)) {
        let mut r = 0u128;
        v.write(&mut r as *mut u128 as *mut u8, 16);
        Ok(r)
    } else {
        "9999999999999999999999999999999999999999".parse::<u128>()
    }
}
pub fn from_dec_str(s: &str) -> Result<U256, FromDecStrErr> {
    let v = Z(api::tok_value(s.as_ptr(), s.len()));
    if v.lt(pow2(256)) {
        let mut r = U256([0; 4]);
        v.write(r.0.as_mut_ptr() as *mut u8, 32);
        Ok(r)
    } else {
        Err(FromDecStrErr::InvalidLength)
    }
}
pub fn fmt_u256(v: &[u64; 4], f: &mut std::fmt::Formatter) -> std::fmt::Result {
    let mut b = [0u8; 18];
    api::num_token(v.as_ptr() as *const u8, 32, b.as_mut_ptr());
    f.write_str(unsafe { std::str::from_utf8_unchecked(&b) })
}
pub fn fmt_u512(v: &[u64; 8], f: &mut std::fmt::Formatter) -> std::fmt::Result {
    let mut b = [0u8; 18];
    api::num_token(v.as_ptr() as *const u8, 64, b.as_mut_ptr());
    f.write_str(unsafe { std::str::from_utf8_unchecked(&b) })
}
pub fn to_base64(b: &cosmwasm_std::Binary) -> String {
    let n = api::b64_len(b.0.as_ptr(), b.0.len());
    let mut v: Vec<u8> = Vec::with_capacity(n);
    api::b64_write(b.0.as_ptr(), b.0.len(), v.as_mut_ptr());
    unsafe {
        v.set_len(n);
        String::from_utf8_unchecked(v)
    }
}
pub fn from_base64(s: &str) -> cosmwasm_std::StdResult<cosmwasm_std::Binary> {
    let n = api::unb64_len(s.as_ptr(), s.len());
    let mut v: Vec<u8> = Vec::with_capacity(n);
    api::unb64_write(s.as_ptr(), s.len(), v.as_mut_ptr());
    unsafe { v.set_len(n) };
    Ok(cosmwasm_std::Binary(v))
}
pub fn fmt_u256_digits(v: &[u64; 4], f: &mut std::fmt::Formatter) -> std::fmt::Result {
    let mut b = [0u8; 80];
    let n = api::num_digits(v.as_ptr() as *const u8, 32, b.as_mut_ptr());
    f.write_str(unsafe { std::str::from_utf8_unchecked(&b[..n]) })
}
pub fn fmt_u512_digits(v: &[u64; 8], f: &mut std::fmt::Formatter) -> std::fmt::Result {
    let mut b = [0u8; 160];
    let n = api::num_digits(v.as_ptr() as *const u8, 64, b.as_mut_ptr());
    f.write_str(unsafe { std::str::from_utf8_unchecked(&b[..n]) })
}
pub fn memchr(x: u8, text: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < text.len() {
        if text[i] == x {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memrchr(x: u8, text: &[u8]) -> Option<usize> {
    let mut i = text.len();
    while i > 0 {
        i -= 1;
        if text[i] == x {
            return Some(i);
        }
    }
    None
}
