//! Built into the engine; the bodies below are the native (replay) versions.
use super::native::*;

unsafe fn name<'a>(p: *const u8, n: usize) -> &'a str {
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n))
}
#[inline(never)]
pub fn raw_any(p: *const u8, n: usize, lo: u128, hi: u128) -> u128 {
    any(unsafe { name(p, n) }, lo, hi)
}
/// any number of so many bits
#[inline(never)]
pub fn z_any(p: *const u8, n: usize, bits: u32) -> u64 {
    z_put(any_big(unsafe { name(p, n) }, bits))
}
#[inline(never)]
pub fn assume(c: bool) {
    if !c {
        assume_failed()
    }
}
#[inline(never)]
pub fn hint(_c: bool) {}
#[inline(never)]
pub fn raw_check(c: bool, p: *const u8, n: usize) {
    checked(c, unsafe { name(p, n) })
}
#[inline(never)]
pub fn raw_reach(p: *const u8, n: usize) {
    reached(unsafe { name(p, n) })
}
#[inline(never)]
pub fn raw_observe(p: *const u8, n: usize, v: u128) {
    observed(unsafe { name(p, n) }, v.to_string())
}
#[inline(never)]
pub fn raw_observe_z(p: *const u8, n: usize, v: u64) {
    observed(unsafe { name(p, n) }, z_get(v).to_string())
}
#[inline(never)]
pub fn concretize(v: u64) -> u64 {
    v
}
#[inline(never)]
pub fn is_engine() -> bool {
    false
}
#[inline(never)]
pub fn tx_raw(f: fn(*mut u8), data: *mut u8) -> bool {
    catch(f, data)
}
#[inline(never)]
pub fn trace(p: *const u8, n: usize, v: u128) {
    eprintln!("TRACE {} = {}", unsafe { name(p, n) }, v)
}
#[inline(never)]
pub fn both(a: bool, b: bool) -> bool {
    a && b
}
#[inline(never)]
pub fn either(a: bool, b: bool) -> bool {
    a || b
}
#[inline(never)]
pub fn is_symbolic(_p: *const u8, _n: usize) -> bool {
    false
}
#[inline(never)]
pub fn bytes_eq(p: *const u8, q: *const u8, n: usize) -> bool {
    unsafe { std::slice::from_raw_parts(p, n) == std::slice::from_raw_parts(q, n) }
}
#[inline(never)]
pub fn z_read(p: *const u8, n: usize) -> u64 {
    z_from_bytes(unsafe { std::slice::from_raw_parts(p, n) })
}
#[inline(never)]
pub fn z_write(z: u64, p: *mut u8, n: usize) {
    z_to_bytes(z, unsafe { std::slice::from_raw_parts_mut(p, n) })
}
#[inline(never)]
pub fn z_small(v: u128) -> u64 {
    z_put(super::big::Big::from(v))
}
#[inline(never)]
pub fn z_pow2(k: u32) -> u64 {
    z_put(super::big::Big::pow2(k))
}
#[inline(never)]
pub fn z_add(a: u64, b: u64) -> u64 {
    z_put(z_get(a).add(&z_get(b)))
}
#[inline(never)]
pub fn z_sub(a: u64, b: u64) -> u64 {
    z_put(z_get(a).sub(&z_get(b)))
}
#[inline(never)]
pub fn z_mul(a: u64, b: u64) -> u64 {
    z_put(z_get(a).mul(&z_get(b)))
}
#[inline(never)]
pub fn z_div(a: u64, b: u64) -> u64 {
    z_put(z_get(a).div_floor(&z_get(b)))
}
#[inline(never)]
pub fn z_rem(a: u64, b: u64) -> u64 {
    z_put(z_get(a).rem_floor(&z_get(b)))
}
#[inline(never)]
pub fn z_isqrt(a: u64) -> u64 {
    z_put(z_get(a).isqrt())
}
#[inline(never)]
pub fn z_ite(c: bool, a: u64, b: u64) -> u64 {
    if c {
        a
    } else {
        b
    }
}
#[inline(never)]
pub fn z_lt(a: u64, b: u64) -> bool {
    z_get(a) < z_get(b)
}
#[inline(never)]
pub fn z_le(a: u64, b: u64) -> bool {
    z_get(a) <= z_get(b)
}
#[inline(never)]
pub fn z_eq(a: u64, b: u64) -> bool {
    z_get(a) == z_get(b)
}
/// text of a symbolic number (engine only)
#[inline(never)]
pub fn num_token(_v: *const u8, _n: usize, _out: *mut u8) {
    unreachable!()
}
/// decimal digits of a symbolic number (engine only)
#[inline(never)]
pub fn num_digits(_v: *const u8, _n: usize, _out: *mut u8) -> usize {
    unreachable!()
}
/// value of a number text made by `num_token`; 0 when it is ordinary text
#[inline(never)]
pub fn tok_value(_p: *const u8, _n: usize) -> u64 {
    0
}
/// print symbolic numbers digit by digit (engine only)
#[inline(never)]
pub fn exact_text(_on: bool) {}
/// base64 texts (engine only)
#[inline(never)]
pub fn b64_len(_p: *const u8, _n: usize) -> usize {
    unreachable!()
}
#[inline(never)]
pub fn b64_write(_p: *const u8, _n: usize, _out: *mut u8) {
    unreachable!()
}
#[inline(never)]
pub fn unb64_len(_p: *const u8, _n: usize) -> usize {
    unreachable!()
}
#[inline(never)]
pub fn unb64_write(_p: *const u8, _n: usize, _out: *mut u8) {
    unreachable!()
}
