//! Deposits and withdrawals.
use crate::env::*;
use crate::setup::*;
use crate::swaps::{any_fixed, e18, E18};
use crate::sym::*;
use cosmwasm_std::{from_binary, to_binary, BankMsg, CosmosMsg, Uint128, WasmMsg};
use cw20::{Cw20ExecuteMsg, Cw20ReceiveMsg};
use haloswap::asset::{AssetInfo, CreatePairRequirements};
use haloswap::pair::{Cw20HookMsg, ExecuteMsg};

pub struct Dep {
    pub w: World,
    pub p: Pool,
    pub r: [u128; 2],
    /// declared deposit
    pub d: [u128; 2],
    /// what the user owns of either asset
    pub u: [u128; 2],
    /// LP supply, all of it carol's
    pub s: u128,
}
/// A pool with reserves and LP tokens out, and a user allowed to deposit.
/// `rich`: the user owns more than is declared.
pub fn pool(k: usize, hi: u128, rich: bool, s: u128, req: CreatePairRequirements, past: usize) -> Dep {
    let mut w = World::new();
    let r = [any_in("r0", 0, hi), any_in("r1", 0, hi)];
    let d = [any_in("d0", 0, hi), any_in("d1", 0, hi)];
    let u = if rich {
        let u = [any_u128("u0"), any_u128("u1")];
        assume(and(u[0] >= d[0], u[1] >= d[1]));
        u
    } else {
        d
    };
    let hold = [("pair", r), ("user", u), ("bob", [0, 0])];
    let p = lived_pool(&mut w, Kinds(k), [6, 6], &hold, req, past);
    if s != 0 {
        give_lp(&mut w, &p, "carol", s);
    }
    for i in 0..2 {
        allow(&mut w, &p, "user", i, u[i]);
    }
    Dep { w, p, r, d, u, s }
}
impl Dep {
    pub fn go(&mut self, swapped: bool, tol: Option<cosmwasm_std::Decimal>, to: Option<&str>) -> Res<()> {
        let (p, d) = (self.p.clone(), self.d);
        let f = coins_for(&p, d);
        provide(&mut self.w, &p, "user", d, swapped, tol, to, &f)
    }
    pub fn share(&self, i: usize) -> Z {
        z(self.d[i]) * z(self.s) / z(self.r[i])
    }
    fn settled(&self, to: &str, minted: Z) {
        let (w, p) = (&self.w, &self.p);
        check(z(lp(w, p, to)).eq(minted), "minted");
        check(z(supply(w, &p.lp)).eq(z(self.s) + minted), "LP supply grows by the minted amount");
        check(self.s == 0 || lp(w, p, "carol") == self.s, "other LP holders keep theirs");
        check(lp(w, p, &p.pair) == 0, "the pair keeps no LP tokens");
        for i in 0..2 {
            check(z(owns(w, &p.pair, &p.a[i])).eq(z(self.r[i]) + z(self.d[i])), "exactly the deposit goes to the pair");
            check(z(owns(w, "user", &p.a[i])).eq(z(self.u[i]) - z(self.d[i])), "exactly the deposit is taken from the depositor");
        }
        let tokens = (0..2).filter(|i| !p.a[*i].is_native_token()).count();
        check(w.sent(&p.pair).len() == tokens + 1, "one message per token asset and one to mint");
    }
}
fn any_supply() -> u128 {
    any_in("S", 1, u128::MAX)
}

pub fn c05() {
    let k = choice("kinds", 4);
    let order = choice("order", 2) == 1;
    let to = [None, Some("bob")][choice("to", 2)];
    // a tolerance that everything satisfies
    let tol = [None, Some(dec(E18))][choice("tol", 2)];
    let s = any_supply();
    let mut d = pool(k, u128::MAX, true, s, no_requirements(), choice("past", 3));
    let st = d.w.storage(&d.p.pair).0.clone();
    if d.go(order, tol, to).is_ok() {
        reach("deposited");
        let m = d.share(0).min(d.share(1));
        check(m.gt(z(0)), "never for nothing");
        d.settled(to.unwrap_or("user"), m);
        if to.is_some() {
            check(lp(&d.w, &d.p, "user") == 0, "only the receiver gets LP tokens");
        }
        check(d.w.storage(&d.p.pair).0 == st, "no stored state changes");
        observe("minted", lp(&d.w, &d.p, to.unwrap_or("user")));
    }
}

pub fn c06() {
    let k = choice("kinds", 4);
    let order = choice("order", 2) == 1;
    let list = [vec![], vec!["user"], vec!["bob"], vec!["bob", "user"]][choice("whitelist", 4)].clone();
    // minimums that the founders of an earlier time could meet, or any
    let again = choice("past", 2) == 1;
    let (m0, m1) = if again { (4000, 3000) } else { (any_u128("m0"), any_u128("m1")) };
    let req = CreatePairRequirements {
        whitelist: list.iter().map(|a| cosmwasm_std::Addr::unchecked(*a)).collect(),
        first_asset_minimum: Uint128::new(m0),
        second_asset_minimum: Uint128::new(m1),
    };
    let mut d = pool(k, u128::MAX, false, 0, req, again as usize);
    for i in 0..2 {
        // balances of a coin are bounded as well
        assume((z(d.r[i]) + z(d.d[i])).lt(pow2(128)));
    }
    let to = [None, Some("bob")][choice("to", 2)];
    let r = d.go(order, None, to);
    let allowed = list.contains(&"user");
    let enough = and(d.d[0] >= m0, d.d[1] >= m1);
    let share = (z(d.d[0]) * z(d.d[1])).isqrt();
    if r.is_ok() {
        reach("accepted");
        check(allowed, "only from the whitelist");
        check(enough, "only above the minimums");
        check(share.gt(z(0)), "never for nothing");
        d.settled(to.unwrap_or("user"), share);
        observe("minted", lp(&d.w, &d.p, to.unwrap_or("user")));
    } else {
        reach("refused");
        check(!and(allowed, and(enough, share.gt(z(0)))), "refused only when a requirement is missed");
    }
}

pub fn c07() {
    let k = [0, 1, 3][choice("kinds", 3)];
    let s = any_supply();
    let with = choice("tol", 2) == 1;
    let t = if with { any_fixed("t", 0) } else { 0 };
    let mut d = pool(k, u128::MAX, false, s, no_requirements(), choice("past", 3));
    let mut plain = d.w.clone();
    let r = d.go(false, if with { Some(dec(t)) } else { None }, None);
    // refused for slippage if it says so, or if nothing but the tolerance can be the reason
    let slip = match &r {
        Err(f) => {
            has(&f.text, "Max slippage assertion")
                || with && t <= E18 && !f.is_panic() && !has(&f.text, "verflow") && {
                    let (p, c) = (d.p.clone(), coins_for(&d.p, d.d));
                    provide(&mut plain, &p, "user", d.d, false, None, None, &c).is_ok()
                }
        }
        _ => false,
    };
    if !with {
        check(!slip, "no limit without a tolerance");
        reach("no tolerance");
        return;
    }
    let within = |i: usize| {
        let j = 1 - i;
        let mine = z(d.d[i]) * e18() / z(d.d[j]).or1();
        let pool = z(d.r[i]) * e18() / z(d.r[j]).or1();
        (mine * (e18() - z(t)) / e18()).le(pool)
    };
    if r.is_ok() {
        reach("accepted");
        check(t <= E18, "a tolerance above one is refused");
        check(within(0), "first price within the tolerance");
        check(within(1), "second price within the tolerance");
    } else if slip {
        reach("refused");
        check(!and(within(0), within(1)), "refused only beyond the tolerance");
    }
}

/// funds attached, in order: 0 = the first coin of the pair, 1 = the second, 2 = a foreign coin,
/// 3 and 4 = coins with names like the first
const FUNDS: [&[usize]; 11] = [&[], &[0], &[1], &[0, 1], &[1, 0], &[2], &[2, 0], &[1, 2], &[3], &[4, 1], &[3, 0]];
pub fn c08() {
    let k = 1 + choice("kinds", 3);
    let f = FUNDS[choice("funds", FUNDS.len())];
    let s = any_supply();
    let mut d = pool(k, u128::MAX, false, s, no_requirements(), choice("past", 3));
    let a = [any_in("attached0", 1, u128::MAX), any_in("attached1", 1, u128::MAX), any_in("attached2", 1, u128::MAX)];
    let denoms = ["uusd", "ibc/27Luna", "uatom", "uusdc", "uUSD"];
    let a = [a[0], a[1], a[2], a[2], a[2]];
    let mut funds = vec![];
    let mut put = [0u128; 5];
    for i in f {
        d.w.set_coins("user", denoms[*i], a[*i]);
        funds.push(coin(denoms[*i], a[*i]));
        put[*i] = a[*i];
    }
    let (p, dd) = (d.p.clone(), d.d);
    let r = provide(&mut d.w, &p, "user", dd, choice("order", 2) == 1, None, None, &funds);
    if r.is_ok() {
        reach("accepted");
        for i in 0..2 {
            if p.a[i].is_native_token() {
                check(d.d[i] == put[i], "declared coins are the attached ones");
            }
            check(z(owns(&d.w, &p.pair, &p.a[i])).eq(z(d.r[i]) + z(d.d[i])), "the pair gains what was declared");
        }
        let m = d.share(0).min(d.share(1));
        check(z(lp(&d.w, &p, "user")).eq(m), "priced on the reserves before the deposit");
    }
}

/// The check of one declared asset against the coins of a call.
pub fn c08_declared() {
    let n = any_u128("declared");
    let i = [native("uusd"), token("uusd")][choice("kind", 2)].clone();
    let a = [any_u128("attached0"), any_u128("attached1")];
    let denoms = [vec![], vec!["uusd"], vec!["ibc/27Luna"], vec!["uusd", "ibc/27Luna"], vec!["ibc/27Luna", "uusd"], vec!["uusdc"], vec!["uUSD", "uusd"], vec!["usd", "uusd"], vec!["uus"]][choice("funds", 9)].clone();
    let funds: Vec<_> = denoms.iter().enumerate().map(|(j, d)| coin(d, a[j])).collect();
    let mut put = 0;
    for (j, d) in denoms.iter().enumerate() {
        if *d == "uusd" {
            put = a[j];
        }
    }
    let info = cosmwasm_std::MessageInfo { sender: cosmwasm_std::Addr::unchecked("user"), funds };
    let r = asset(&i, n).assert_sent_native_token_balance(&info);
    reach("compared");
    if i.is_native_token() {
        check(or(and(r.is_ok(), n == put), and(r.is_err(), n != put)), "accepted exactly when declared and attached are equal");
    } else {
        check(r.is_ok(), "coins do not matter for a token");
    }
}

pub fn c09() {
    let k = choice("kinds", 4);
    let mut w = World::new();
    let r = [any_u128("r0"), any_u128("r1")];
    let (s, h, a) = (any_supply(), any_u128("held"), any_u128("a"));
    assume(h <= s);
    // LP tokens somebody left with the pair
    let left = if choice("left", 2) == 1 { any_u128("left with the pair") } else { 0 };
    assume(left <= s - h);
    let p = old_pool(&mut w, Kinds(k), [6, 6], &[("pair", r), ("user", [0, 0])], no_requirements());
    give_lp(&mut w, &p, "user", h);
    give_lp(&mut w, &p, "carol", s - h - left);
    give_lp(&mut w, &p, &p.pair, left);
    let st = w.storage(&p.pair).0.clone();
    if withdraw(&mut w, &p, "user", a).is_ok() {
        reach("withdrawn");
        check(w.storage(&p.pair).0 == st, "no stored state changes");
        check(z(supply(&w, &p.lp)).eq(z(s) - z(a)), "burns exactly what was sent");
        check(z(lp(&w, &p, "user")).eq(z(h) - z(a)), "taken from the sender");
        check(lp(&w, &p, &p.pair) == left, "the pair keeps none of the LP tokens");
        check(z(lp(&w, &p, "carol")).eq(z(s) - z(h) - z(left)), "other holders keep theirs");
        let sent = w.sent(&p.pair);
        check(sent.len() == 3, "two payouts and the burn");
        let mut seen = [false; 3];
        for m in &sent {
            match m {
                CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                    check(to_address == "user" && amount.len() == 1, "paid to the sender");
                    for i in 0..2 {
                        if p.a[i] == native(&amount[0].denom) {
                            seen[i] = true;
                        }
                    }
                }
                CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                    check(funds.is_empty(), "no funds sent along");
                    match from_binary(msg) {
                        Ok(Cw20ExecuteMsg::Transfer { recipient, .. }) => {
                            check(recipient == "user", "paid to the sender");
                            for i in 0..2 {
                                if p.a[i] == token(contract_addr) {
                                    seen[i] = true;
                                }
                            }
                        }
                        Ok(Cw20ExecuteMsg::Burn { .. }) => seen[2] = *contract_addr == p.lp,
                        _ => check(false, "nothing else"),
                    }
                }
                _ => check(false, "nothing else"),
            }
        }
        check(seen[0] && seen[1] && seen[2], "each asset is paid and the LP tokens burnt");
        let q = z(a) * e18() / z(s);
        for i in 0..2 {
            let pay = z(owns(&w, "user", &p.a[i]));
            let r = z(r[i]);
            check(z(owns(&w, &p.pair, &p.a[i])).eq(r - pay), "paid out of the reserves");
            hint((r * q).ge(pay * e18()));
            hint((r * q).lt((pay + z(1)) * e18()));
            hint((r * q * z(s)).le(r * z(a) * e18()));
            hint((r * z(a) * e18()).le(r * (q + z(1)) * z(s)));
            check((pay * z(s)).le(r * z(a)), "not more than the share");
            check((r * z(a) * e18()).lt(((pay + z(1)) * e18() + r) * z(s)), "less than the share by rounding only");
            observe(["pay0", "pay1"][i], owns(&w, "user", &p.a[i]));
        }
    }
}

/// Withdrawal notifications from anybody but the LP token.
pub fn c09_foreign() {
    let k = choice("kinds", 4);
    let how = choice("how", 5);
    let mut w = World::new();
    let (x, y, s, o) = (any_u128("x"), any_u128("y"), any_supply(), any_u128("o"));
    let p = new_pool(&mut w, Kinds(k), [6, 6], &[("pair", [x, y]), ("user", [o, o])], no_requirements());
    // some LP tokens may have been left with the pair
    let left = if choice("left", 2) == 1 { any_u128("left with the pair") } else { 0 };
    assume(left <= s);
    give_lp(&mut w, &p, "carol", s - left);
    give_lp(&mut w, &p, &p.pair, left);
    let hook = to_binary(&Cw20HookMsg::WithdrawLiquidity {}).unwrap();
    let receive = ExecuteMsg::Receive(Cw20ReceiveMsg { sender: "user".to_string(), amount: Uint128::new(o), msg: hook.clone() });
    let send = Cw20ExecuteMsg::Send { contract: p.pair.clone(), amount: Uint128::new(o), msg: hook };
    let st = w.storage(&p.pair).0.clone();
    let r = match how {
        0 => {
            let t = new_token(&mut w, 6, &[("user", o)], None);
            w.exec("user", &t, &send, &[])
        }
        1 => match [&p.a[0], &p.a[1]].into_iter().find(|a| !a.is_native_token()) {
            Some(AssetInfo::Token { contract_addr }) => w.exec("user", &contract_addr.clone(), &send, &[]),
            _ => w.exec("carol", &p.pair, &receive, &[]),
        },
        2 => w.exec("user", &p.pair, &receive, &[]),
        _ => w.exec(["uusd", "creator"][how - 3], &p.pair, &receive, &[]),
    };
    reach("tried");
    check(r.is_err(), "refused");
    check(w.storage(&p.pair).0 == st, "no state change");
    check(owns(&w, &p.pair, &p.a[0]) == x && owns(&w, &p.pair, &p.a[1]) == y, "reserves untouched");
    check(supply(&w, &p.lp) == s, "nothing burnt");
}

/// pay = floor(r * floor(m*1e18/S) / 1e18): facts leading to pay*S <= r*m
fn payout_hints(pay: Z, r: Z, m: Z, s: Z) {
    let q = m * e18() / s;
    hint((q * s).le(m * e18()));
    hint((pay * e18()).le(r * q));
    hint((pay * e18() * s).le(r * q * s));
    hint((r * q * s).le(r * m * e18()));
    hint((pay * s).le(r * m));
}

pub fn c10_deposit() {
    let k = [0, 1, 3][choice("kinds", 3)];
    let first = choice("first", 2) == 1;
    let s = if first { 0 } else { any_supply() };
    let mut req = no_requirements();
    req.whitelist = vec![cosmwasm_std::Addr::unchecked("user")];
    let mut d = pool(k, u128::MAX, false, s, req, choice("past", 3));
    if first {
        assume(and(d.r[0] == 0, d.r[1] == 0));
    }
    if d.go(false, None, None).is_err() {
        return;
    }
    let m = lp(&d.w, &d.p, "user");
    let p = d.p.clone();
    if withdraw(&mut d.w, &p, "user", m).is_ok() {
        reach("deposited and withdrawn");
        for i in 0..2 {
            let pay = z(owns(&d.w, "user", &p.a[i]));
            if !first {
                let (r, di, m, s) = (z(d.r[i]), z(d.d[i]), z(m), z(s));
                hint((m * r).le(di * s));
                payout_hints(pay, r + di, m, s + m);
                hint(((r + di) * m).le(di * (s + m)));
                hint((pay * (s + m)).le(di * (s + m)));
            }
            check(pay.le(z(d.d[i])), "no profit from depositing and withdrawing");
            observe(["back0", "back1"][i], owns(&d.w, "user", &p.a[i]));
        }
    }
}

pub fn c10_swap() {
    let mut w = World::new();
    let (x, y, o) = (any_u128("x"), any_u128("y"), any_u128("o"));
    let i = choice("dir", 2);
    let side = |a: u128, b: u128| if i == 0 { [a, b] } else { [b, a] };
    let p = old_pool(&mut w, Kinds(0), [6, 6], &[("pair", side(x, y)), ("user", side(o, 0))], no_requirements());
    if swap(&mut w, &p, "user", i, o, None, None, None).is_err() {
        return;
    }
    let got = owns(&w, "user", &p.a[1 - i]);
    if swap(&mut w, &p, "user", 1 - i, got, None, None, None).is_ok() {
        reach("there and back");
        let back = owns(&w, "user", &p.a[i]);
        let (x, y, o, g, b) = (z(x), z(y), z(o), z(got), z(back));
        hint((g * (x + o)).le(o * y));
        hint((b * y).le(g * (x + o)));
        hint((b * y).le(o * y));
        check(b.le(o), "no profit from swapping there and back");
        observe("back", back);
    }
}

/// k2/s2^2 >= k1/s1^2 from the two sides separately, where they hold
fn not_diluted(r: [Z; 2], s: Z, r2: [Z; 2], s2: Z) {
    let a = |i: usize| r2[i] * s;
    let b = |i: usize| r[i] * s2;
    hint(a(0).ge(b(0)));
    hint(a(1).ge(b(1)));
    hint((a(0) * a(1)).ge(b(0) * a(1)));
    hint((b(0) * a(1)).ge(b(0) * b(1)));
    check((a(0) * a(1)).ge(b(0) * b(1)), "reserves per LP token do not shrink");
}
fn zs(w: &World, p: &Pool) -> [Z; 2] {
    [z(owns(w, &p.pair, &p.a[0])), z(owns(w, &p.pair, &p.a[1]))]
}
pub fn c11_deposit() {
    let k = [0, 1, 3][choice("kinds", 3)];
    let s = any_supply();
    let mut d = pool(k, u128::MAX, false, s, no_requirements(), choice("past", 3));
    if d.go(false, None, None).is_ok() {
        reach("deposited");
        let m = z(lp(&d.w, &d.p, "user"));
        let r = [z(d.r[0]), z(d.r[1])];
        for i in 0..2 {
            hint((m * r[i]).le(z(d.d[i]) * z(s)));
        }
        not_diluted(r, z(s), zs(&d.w, &d.p), z(supply(&d.w, &d.p.lp)));
    }
}
pub fn c11_withdraw() {
    let k = [0, 1, 3][choice("kinds", 3)];
    let mut w = World::new();
    let r = [any_u128("r0"), any_u128("r1")];
    let (s, a) = (any_in("S", 2, u128::MAX), any_u128("a"));
    assume(a < s);
    let p = old_pool(&mut w, Kinds(k), [6, 6], &[("pair", r), ("user", [0, 0])], no_requirements());
    give_lp(&mut w, &p, "user", a);
    give_lp(&mut w, &p, "carol", s - a);
    if withdraw(&mut w, &p, "user", a).is_ok() {
        reach("withdrawn");
        let r = [z(r[0]), z(r[1])];
        for i in 0..2 {
            payout_hints(z(owns(&w, "user", &p.a[i])), r[i], z(a), z(s));
        }
        not_diluted(r, z(s), zs(&w, &p), z(supply(&w, &p.lp)));
    }
}
pub fn c11_swap() {
    let mut s = crate::swaps::scene([6, 6], u128::MAX);
    let n = any_supply();
    give_lp(&mut s.w, &s.p.clone(), "carol", n);
    let r = zs(&s.w, &s.p);
    if s.go(None, None, None).is_ok() {
        reach("swapped");
        let r2 = zs(&s.w, &s.p);
        check((r2[0] * r2[1]).ge(r[0] * r[1]), "reserves per LP token do not shrink");
        check(supply(&s.w, &s.p.lp) == n, "no LP tokens appear or vanish");
    }
}

const E30: u128 = 1_000_000_000_000_000_000_000_000_000_000;
pub fn c30_swap() {
    let d = [[6, 6], [18, 0], [0, 18], [0, 255]][choice("decimals", 4)];
    let mut s = crate::swaps::scene(d, E30);
    assume(and(s.x >= 1, and(s.y >= 1, s.o >= 1)));
    // the spread is reported in 128 bits
    assume((z(s.o) * z(s.y) / z(s.x)).le(z(10u128.pow(38))));
    let q: Res<haloswap::pair::SimulationResponse> =
        s.w.q(&s.p.pair, &haloswap::pair::QueryMsg::Simulation { offer_asset: asset(&s.p.a[s.i], s.o) });
    check(q.is_ok(), "the quote is answered");
    let r = s.go(None, None, [None, Some("bob")][choice("to", 2)]);
    reach("tried");
    check(r.is_ok(), "the swap is carried out");
}
pub fn c30_withdraw() {
    let k = choice("kinds", 4);
    let mut w = World::new();
    let r = [any_in("r0", 1, E30), any_in("r1", 1, E30)];
    let (s, h, a) = (any_in("S", 1, E30), any_in("held", 1, E30), any_in("a", 1, E30));
    assume(and(a <= h, h <= s));
    let p = old_pool(&mut w, Kinds(k), [6, 6], &[("pair", r), ("user", [0, 0])], no_requirements());
    give_lp(&mut w, &p, "user", h);
    give_lp(&mut w, &p, "carol", s - h);
    // worth at least a unit of either asset at 18 digits
    let q = z(a) * e18() / z(s);
    assume(and((z(r[0]) * q).ge(e18()), (z(r[1]) * q).ge(e18())));
    reach("tried");
    check(withdraw(&mut w, &p, "user", a).is_ok(), "the withdrawal is carried out");
}
pub fn c30_deposit() {
    let k = choice("kinds", 4);
    let s = any_in("S", 1, E30);
    let mut d = pool(k, E30, false, s, no_requirements(), choice("past", 3));
    for i in 0..2 {
        assume(and(d.r[i] >= 1, d.d[i] >= 1));
        assume(and(d.share(i).ge(z(1)), d.share(i).le(pow2(127))));
    }
    reach("tried");
    let tol = [None, Some(dec(E18))][choice("tol", 2)];
    let to = [None, Some("bob")][choice("to", 2)];
    check(d.go(choice("order", 2) == 1, tol, to).is_ok(), "the deposit is carried out");
}
