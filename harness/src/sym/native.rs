//! Replay state.
use super::big::Big;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Default)]
pub struct Native {
    pub vals: HashMap<String, Big>,
    pub names: HashMap<String, u32>,
    pub zs: Vec<Big>,
    pub failed: Vec<String>,
    pub passed: u64,
    pub reached: Vec<String>,
    pub obs: Vec<(String, String)>,
    pub assume_failed: bool,
    pub last_panic: String,
    pub depth: u32,
}
thread_local! {
    pub static N: RefCell<Native> = RefCell::new(Native::default());
}
pub fn with<R>(f: impl FnOnce(&mut Native) -> R) -> R {
    N.with(|n| f(&mut n.borrow_mut()))
}
pub struct AssumeFailed;

pub fn any_big(name: &str, bits: u32) -> Big {
    with(|n| {
        let c = n.names.entry(name.to_string()).or_insert(0);
        let key = if *c == 0 { name.to_string() } else { format!("{}.{}", name, c) };
        *c += 1;
        let v = n.vals.get(&key).cloned().unwrap_or_else(Big::zero);
        if v.is_neg() || v >= Big::pow2(bits) {
            Big::zero()
        } else {
            v
        }
    })
}
pub fn any(name: &str, lo: u128, hi: u128) -> u128 {
    with(|n| {
        let c = n.names.entry(name.to_string()).or_insert(0);
        let key = if *c == 0 { name.to_string() } else { format!("{}.{}", name, c) };
        *c += 1;
        let v = n.vals.get(&key).and_then(|b| b.to_u128()).unwrap_or(lo);
        v.clamp(lo, hi)
    })
}
pub fn assume_failed() {
    with(|n| n.assume_failed = true);
    std::panic::panic_any(AssumeFailed)
}
pub fn checked(c: bool, label: &str) {
    with(|n| {
        if c {
            n.passed += 1
        } else {
            n.failed.push(label.to_string())
        }
    })
}
pub fn reached(l: &str) {
    with(|n| n.reached.push(l.to_string()))
}
pub fn observed(name: &str, v: String) {
    with(|n| n.obs.push((name.to_string(), v)))
}
pub fn catch(f: fn(*mut u8), data: *mut u8) -> bool {
    match std::panic::catch_unwind(|| f(data)) {
        Ok(()) => true,
        Err(p) => {
            if p.is::<AssumeFailed>() {
                std::panic::resume_unwind(p)
            }
            false
        }
    }
}
pub fn z_put(b: Big) -> u64 {
    with(|n| {
        n.zs.push(b);
        n.zs.len() as u64
    })
}
pub fn z_get(h: u64) -> Big {
    with(|n| n.zs[h as usize - 1].clone())
}
pub fn z_from_bytes(b: &[u8]) -> u64 {
    let mut v = Big::zero();
    for x in b.iter().rev() {
        v = v.mul(&Big::from(256u128)).add(&Big::from(*x as u128));
    }
    z_put(v)
}
pub fn z_to_bytes(z: u64, out: &mut [u8]) {
    let mut v = z_get(z);
    let m = Big::from(256u128);
    for x in out.iter_mut() {
        let (q, r) = v.divmod_floor(&m);
        *x = r.to_u128().unwrap() as u8;
        v = q;
    }
}
