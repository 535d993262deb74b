use crate::env::*;
use crate::setup::*;
use crate::sym::*;
pub fn t_basic() {
    let a = any_u128("a");
    let b = any_u128("b");
    let r = tx(|| {
        let v = vec![a, b];
        let s: u128 = v[0] + v[1];
        s
    });
    match r {
        Some(s) => {
            check(s >= a, "sum");
            let x = Z::read(&s as *const u128 as *const u8, 16);
            check(x.eq(z(a) + z(b)), "exact");
            check(s != 77, "not77");
        }
        None => check((z(a) + z(b)).ge(pow2(128)), "overflow only"),
    }
    let c = choice("c", 3);
    let t = ["x", "yy", "zzz"][c].to_string();
    check(t.len() == c + 1, "len");
}
pub fn t_conc() {
    let mut w = World::new();
    let p = new_pool(&mut w, Kinds(0), [6, 6], &[("pair", [1000, 2000]), ("user", [100, 0])], no_requirements());
    let r = swap(&mut w, &p, "user", 0, 100, None, None, None);
    check(r.is_ok(), "ok");
    check(owns(&w, "user", &p.a[1]) == 181, "paid");
}
pub fn t_swap() {
    let mut w = World::new();
    let (x, y, o) = (any_u128("x"), any_u128("y"), any_u128("o"));
    let p = new_pool(&mut w, Kinds(0), [6, 6], &[("pair", [x, y]), ("user", [o, 0])], no_requirements());
    let r = swap(&mut w, &p, "user", 0, o, None, None, None);
    if r.is_ok() {
        let (x2, y2) = (owns(&w, &p.pair, &p.a[0]), owns(&w, &p.pair, &p.a[1]));
        check((z(x2) * z(y2)).ge(z(x) * z(y)), "product");
    }
}
pub fn t_text() {
    let s = crate::factory::letters(&["a", "b"]);
    let j = cosmwasm_std::to_vec(&s).unwrap();
    check(j.len() == 4, "length");
    let t: String = cosmwasm_std::from_slice(&j).unwrap();
    check(s == t, "same");
}
