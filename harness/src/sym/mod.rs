//! The harness' view of symbolic values. In the engine the functions of `api` are built in;
//! natively they read a recorded assignment, so that every path and every counterexample can be
//! replayed against the compiled code.
pub mod api;
#[cfg_attr(not(test), allow(dead_code))]
#[path = "../../../engine/src/big.rs"]
pub mod big;
pub mod native;
use std::ops;

pub fn any_u128(name: &str) -> u128 {
    api::raw_any(name.as_ptr(), name.len(), 0, u128::MAX)
}
pub fn any_z(name: &str, bits: u32) -> Z {
    Z(api::z_any(name.as_ptr(), name.len(), bits))
}
pub fn any_in(name: &str, lo: u128, hi: u128) -> u128 {
    api::raw_any(name.as_ptr(), name.len(), lo, hi)
}
pub fn any_u64(name: &str) -> u64 {
    any_in(name, 0, u64::MAX as u128) as u64
}
pub fn any_u8(name: &str, lo: u8, hi: u8) -> u8 {
    any_in(name, lo as u128, hi as u128) as u8
}
pub fn any_bool(name: &str) -> bool {
    any_in(name, 0, 1) == 1
}
/// one of `n` concrete alternatives, all of them explored
pub fn choice(name: &str, n: usize) -> usize {
    api::concretize(any_in(name, 0, n as u128 - 1) as u64) as usize
}
pub fn assume(c: bool) {
    api::assume(c)
}
pub fn check(c: bool, label: &str) {
    api::raw_check(c, label.as_ptr(), label.len())
}
/// a fact that helps later questions, used only where the solver can show it
pub fn hint(c: bool) {
    api::hint(c)
}
pub fn reach(label: &str) {
    api::raw_reach(label.as_ptr(), label.len())
}
pub fn observe(name: &str, v: u128) {
    api::raw_observe(name.as_ptr(), name.len(), v)
}
pub fn observe_z(name: &str, v: Z) {
    api::raw_observe_z(name.as_ptr(), name.len(), v.0)
}
/// formula-level connectives (no path split)
pub fn and(a: bool, b: bool) -> bool {
    api::both(a, b)
}
pub fn or(a: bool, b: bool) -> bool {
    api::either(a, b)
}
pub fn implies(a: bool, b: bool) -> bool {
    api::either(!a, b)
}
pub fn is_engine() -> bool {
    api::is_engine()
}

/// Run a contract call; `None` when it panics (a panic aborts the transaction).
pub fn tx<R, F: FnOnce() -> R>(f: F) -> Option<R> {
    struct D<R, F> {
        f: Option<F>,
        r: Option<R>,
    }
    fn call<R, F: FnOnce() -> R>(p: *mut u8) {
        let d = unsafe { &mut *(p as *mut D<R, F>) };
        let f = d.f.take().unwrap();
        d.r = Some(f());
    }
    let mut d: D<R, F> = D { f: Some(f), r: None };
    if api::tx_raw(call::<R, F>, &mut d as *mut D<R, F> as *mut u8) {
        d.r.take()
    } else {
        None
    }
}

/// Mathematical integers.
#[derive(Clone, Copy)]
pub struct Z(pub u64);
pub fn z(v: u128) -> Z {
    Z(api::z_small(v))
}
pub fn pow2(k: u32) -> Z {
    Z(api::z_pow2(k))
}
impl ops::Add for Z {
    type Output = Z;
    fn add(self, o: Z) -> Z {
        Z(api::z_add(self.0, o.0))
    }
}
impl ops::Sub for Z {
    type Output = Z;
    fn sub(self, o: Z) -> Z {
        Z(api::z_sub(self.0, o.0))
    }
}
impl ops::Mul for Z {
    type Output = Z;
    fn mul(self, o: Z) -> Z {
        Z(api::z_mul(self.0, o.0))
    }
}
/// floor division by a positive number
impl ops::Div for Z {
    type Output = Z;
    fn div(self, o: Z) -> Z {
        Z(api::z_div(self.0, o.0))
    }
}
impl ops::Rem for Z {
    type Output = Z;
    fn rem(self, o: Z) -> Z {
        Z(api::z_rem(self.0, o.0))
    }
}
impl Z {
    pub fn lt(self, o: Z) -> bool {
        api::z_lt(self.0, o.0)
    }
    pub fn le(self, o: Z) -> bool {
        api::z_le(self.0, o.0)
    }
    pub fn gt(self, o: Z) -> bool {
        api::z_lt(o.0, self.0)
    }
    pub fn ge(self, o: Z) -> bool {
        api::z_le(o.0, self.0)
    }
    pub fn eq(self, o: Z) -> bool {
        api::z_eq(self.0, o.0)
    }
    pub fn isqrt(self) -> Z {
        Z(api::z_isqrt(self.0))
    }
    pub fn ite(c: bool, a: Z, b: Z) -> Z {
        Z(api::z_ite(c, a.0, b.0))
    }
    pub fn min(self, o: Z) -> Z {
        Z::ite(self.le(o), self, o)
    }
    pub fn max(self, o: Z) -> Z {
        Z::ite(self.le(o), o, self)
    }
    /// itself, or one when that is smaller: a safe divisor
    pub fn or1(self) -> Z {
        Z::ite(z(1).le(self), self, z(1))
    }
    /// little-endian unsigned number in memory
    pub fn read(p: *const u8, n: usize) -> Z {
        Z(api::z_read(p, n))
    }
    pub fn write(self, p: *mut u8, n: usize) {
        api::z_write(self.0, p, n)
    }
}
