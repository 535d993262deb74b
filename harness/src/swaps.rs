//! Swaps and their quotes.
use crate::env::*;
use crate::setup::*;
use crate::sym::*;
use cosmwasm_std::{from_binary, to_binary, BankMsg, CosmosMsg, Decimal, Uint128, WasmMsg};
use cw20::{Cw20ExecuteMsg, Cw20ReceiveMsg};
use haloswap::pair::{Cw20HookMsg, ExecuteMsg, QueryMsg, ReverseSimulationResponse, SimulationResponse};

pub const E18: u128 = 1_000_000_000_000_000_000;
/// (asset kinds, offered side)
pub const SHAPES: [(usize, usize); 4] = [(0, 0), (0, 1), (1, 0), (2, 1)];
pub fn e18() -> Z {
    z(E18)
}

pub struct Sw {
    pub w: World,
    pub p: Pool,
    /// offered side
    pub i: usize,
    pub x: u128,
    pub y: u128,
    pub o: u128,
}
/// A pool with reserves (x, y) in offer and ask asset and a user owning `o` of the offer asset.
/// `shape` covers both directions and both kinds of asked asset; pairs only sell tokens' senders
/// something: there is no call that offers native coins.
pub fn scene(dec: [u8; 2], hi: u128) -> Sw {
    let (k, i) = SHAPES[choice("shape", 4)];
    let mut w = World::new();
    let (x, y, o) = (any_in("x", 0, hi), any_in("y", 0, hi), any_in("o", 0, hi));
    let side = |a: u128, b: u128| if i == 0 { [a, b] } else { [b, a] };
    let hold = [("pair", side(x, y)), ("user", side(o, 0)), ("bob", [0, 0])];
    // what went before matters as much or as little whatever the decimals are
    let p = if dec == [6, 6] { old_pool(&mut w, Kinds(k), dec, &hold, no_requirements()) } else { new_pool(&mut w, Kinds(k), dec, &hold, no_requirements()) };
    Sw { w, p, i, x, y, o }
}
impl Sw {
    pub fn go(&mut self, belief: Option<Decimal>, spread: Option<Decimal>, to: Option<&str>) -> Res<()> {
        let (i, o) = (self.i, self.o);
        swap(&mut self.w, &self.p.clone(), "user", i, o, belief, spread, to)
    }
    pub fn offer(&self, who: &str) -> u128 {
        owns(&self.w, who, &self.p.a[self.i])
    }
    pub fn ask(&self, who: &str) -> u128 {
        owns(&self.w, who, &self.p.a[1 - self.i])
    }
    pub fn pair(&self) -> String {
        self.p.pair.clone()
    }
    /// gross amount of the constant-product formula
    pub fn gross(&self) -> Z {
        z(self.o) * z(self.y) / (z(self.x) + z(self.o))
    }
}
/// decimals of the two assets that make no, a great upward or a great downward adjustment
pub const LOPSIDED: [[u8; 2]; 3] = [[6, 6], [18, 0], [0, 18]];
/// Limits a swap may carry: none, a spread, a spread with a belief price.
pub fn any_limits() -> (Option<Decimal>, Option<Decimal>) {
    match choice("limits", 3) {
        0 => (None, None),
        1 => (None, Some(dec(any_fixed("limit", 0)))),
        _ => (Some(dec(any_fixed("price", 1))), Some(dec(any_fixed("limit", 0)))),
    }
}
pub fn c01() {
    let d = LOPSIDED[choice("decimals", 3)];
    let mut s = scene(d, u128::MAX);
    let (b, m) = any_limits();
    if s.go(b, m, None).is_ok() {
        reach("swapped");
        let (x2, y2) = (s.offer(&s.pair()), s.ask(&s.pair()));
        check(z(x2).eq(z(s.x) + z(s.o)), "the offer stays in the pair");
        check((z(x2) * z(y2)).ge(z(s.x) * z(s.y)), "product does not shrink");
        let paid = z(s.y) - z(y2);
        check(or(paid.eq(z(0)), z(y2).gt(z(0))), "the ask reserve is never emptied");
        observe("x2", x2);
        observe("y2", y2);
    }
}

pub fn c02() {
    let d = LOPSIDED[choice("decimals", 3)];
    let mut s = scene(d, u128::MAX);
    let (b, m) = any_limits();
    if s.go(b, m, None).is_ok() {
        reach("swapped");
        let g = s.gross();
        let c = g * z(3) / z(1000);
        check(z(s.ask("user")).eq(g - c), "payout");
        check(z(s.ask(&s.pair())).eq(z(s.y) - (g - c)), "taken from the ask reserve");
        check(s.offer("user") == 0, "offer taken");
        let at = |k: &str| attr_num(&s.w, &s.p.pair, k).u128();
        check(z(at("return_amount")).eq(g - c), "reported return");
        check(z(at("commission_amount")).eq(c), "reported commission");
        check(at("offer_amount") == s.o, "reported offer");
        let price = z(s.y) * e18() / z(s.x);
        let ideal = z(s.o) * price / e18();
        check(z(at("spread_amount")).eq((ideal - g).max(z(0))), "reported spread");
        observe("payout", s.ask("user"));
    }
}

const DECIMALS: [[u8; 2]; 7] = [[6, 6], [6, 8], [8, 6], [18, 6], [0, 18], [18, 0], [2, 24]];
pub fn c03() {
    let d = DECIMALS[choice("decimals", DECIMALS.len())];
    let mut s = scene(d, u128::MAX);
    let has_belief = choice("belief", 2) == 1;
    let limit = any_fixed("limit", 0);
    let price = if has_belief { any_fixed("price", 1) } else { 1 };
    let mut plain = s.w.clone();
    let r = s.go(if has_belief { Some(dec(price)) } else { None }, Some(dec(limit)), None);
    // in the finer of the two units
    let (od, ad) = (d[s.i], d[1 - s.i]);
    let up = |a: u8, b: u8| if b > a { z(10u128.pow((b - a) as u32)) } else { z(1) };
    let (uo, ua) = (up(od, ad), up(ad, od));
    if r.is_ok() {
        reach("accepted");
        let paid = z(s.ask("user")) * ua;
        let spread = z(attr_num(&s.w, &s.p.pair, "spread_amount").u128()) * ua;
        within(has_belief, z(s.o) * uo, paid, spread, price, limit, true);
    } else if let Err(f) = r {
        // refused for its limits if it says so, or if nothing but the limits can be the reason
        let limits = has(&f.text, "Max spread assertion")
            || !f.is_panic() && !has(&f.text, "verflow") && swap(&mut plain, &s.p.clone(), "user", s.i, s.o, None, None, None).is_ok();
        if limits {
            reach("refused");
            let g = s.gross();
            let paid = (g - g * z(3) / z(1000)) * ua;
            let ideal = z(s.o) * (z(s.y) * e18() / z(s.x)) / e18();
            let spread = (ideal - g).max(z(0)) * ua;
            within(has_belief, z(s.o) * uo, paid, spread, price, limit, false);
        }
    }
}
/// an 18-digit number, with or without fraction (the two are written differently)
pub fn any_fixed(name: &str, lo: u128) -> u128 {
    if any_bool("fraction") {
        let v = any_u128(name);
        assume(v % E18 != 0);
        v
    } else {
        any_in(&format!("{} units", name), lo, u128::MAX / E18) * E18
    }
}
/// does the payout respect the limit? checks that the answer is `want`
fn within(has_belief: bool, offer: Z, paid: Z, spread: Z, price: u128, limit: u128, want: bool) {
    let ok = if has_belief {
        let expected = offer * e18() / z(price);
        let short = expected - paid;
        or(short.le(z(0)), (short.max(z(0)) * e18() / expected.or1()).le(z(limit)))
    } else {
        (spread * e18() / (paid + spread).or1()).le(z(limit))
    };
    check(if want { ok } else { !ok }, if want { "accepted within the limit" } else { "refused only beyond the limit" });
}

pub fn c04() {
    let mut s = scene([6, 6], u128::MAX);
    // nobody, somebody, the sender, and the contracts taking part
    let named = choice("to", 8);
    let to = match named {
        0 => None,
        1 => Some("bob".to_string()),
        2 => Some("user".to_string()),
        3 => Some("creator".to_string()),
        4 => Some(s.p.pair.clone()),
        5 => Some(s.p.lp.clone()),
        n => Some(name(&s.p.a[n - 6])),
    };
    let to = to.as_deref();
    let had = s.ask(to.unwrap_or("user"));
    let st = s.w.storage(&s.p.pair).0.clone();
    let (b, m) = if named < 2 { any_limits() } else { (None, None) };
    if s.go(b, m, to).is_ok() {
        reach("swapped");
        let who = to.unwrap_or("user");
        let g = s.gross();
        let r = g - g * z(3) / z(1000);
        let sent = s.w.sent(&s.p.pair);
        check(sent.len() <= 1, "at most one message");
        if let Some(m) = sent.first() {
            match (&s.p.a[1 - s.i], m) {
                (haloswap::asset::AssetInfo::Token { contract_addr: t }, CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds })) => {
                    check(contract_addr == t && funds.is_empty(), "the ask token is told");
                    match from_binary(msg) {
                        Ok(Cw20ExecuteMsg::Transfer { recipient, amount }) => {
                            check(recipient == who, "recipient");
                            check(z(amount.u128()).eq(r), "amount");
                        }
                        _ => check(false, "a transfer"),
                    }
                }
                (haloswap::asset::AssetInfo::NativeToken { denom }, CosmosMsg::Bank(BankMsg::Send { to_address, amount })) => {
                    check(to_address == who, "recipient");
                    check(amount.len() == 1 && amount[0].denom == *denom, "the ask coin");
                    check(z(amount[0].amount.u128()).eq(r), "amount");
                }
                _ => check(false, "pays the ask asset"),
            }
        } else {
            check(r.eq(z(0)), "nothing sent only when nothing is due");
        }
        let other = if to.is_some() && named != 2 { "user" } else { "bob" };
        check(s.ask(other) == 0, "others get nothing");
        let from = if named == 4 { z(0) } else { r };
        check(z(s.ask(who)).eq(z(had) + from), "recipient got it");
        check(s.w.storage(&s.p.pair).0 == st, "no stored state changes");
    }
}

/// Swap notifications from anybody but the pair's own token contracts.
pub fn c04_foreign() {
    let k = choice("kinds", 4);
    let how = choice("how", 5);
    let mut w = World::new();
    let (x, y, o) = (any_u128("x"), any_u128("y"), any_u128("o"));
    let p = new_pool(&mut w, Kinds(k), [6, 6], &[("pair", [x, y]), ("user", [o, o])], no_requirements());
    let hook = to_binary(&Cw20HookMsg::Swap { belief_price: None, max_spread: None, to: None }).unwrap();
    let receive = ExecuteMsg::Receive(Cw20ReceiveMsg { sender: "user".to_string(), amount: Uint128::new(o), msg: hook.clone() });
    let before = w.storage(&p.pair).0.clone();
    let r = match how {
        // another token
        0 => {
            let t = new_token(&mut w, 6, &[("user", o)], None);
            w.exec("user", &t, &Cw20ExecuteMsg::Send { contract: p.pair.clone(), amount: Uint128::new(o), msg: hook }, &[])
        }
        // the pair's own LP token
        1 => {
            give_lp(&mut w, &p, "user", o);
            w.exec("user", &p.lp.clone(), &Cw20ExecuteMsg::Send { contract: p.pair.clone(), amount: Uint128::new(o), msg: hook }, &[])
        }
        // a user, or somebody named like the pair's coin, pretending to be a token
        2 => w.exec("user", &p.pair, &receive, &[]),
        _ => w.exec(["uusd", "ibc/27Luna"][how - 3], &p.pair, &receive, &[]),
    };
    reach("tried");
    check(r.is_err(), "refused");
    check(w.storage(&p.pair).0 == before, "no state change");
    check(owns(&w, &p.pair, &p.a[0]) == x && owns(&w, &p.pair, &p.a[1]) == y, "reserves untouched");
}

/// Quotes in every direction, including for coins, which cannot be offered.
pub fn c12_formula() {
    let k = choice("kinds", 4);
    let i = choice("dir", 2);
    let mut w = World::new();
    let (x, y, o) = (any_u128("x"), any_u128("y"), any_u128("o"));
    let p = old_pool(&mut w, Kinds(k), [6, 6], &[("pair", if i == 0 { [x, y] } else { [y, x] })], no_requirements());
    let q: Res<SimulationResponse> = w.q(&p.pair, &QueryMsg::Simulation { offer_asset: asset(&p.a[i], o) });
    if let Ok(q) = q {
        reach("quoted");
        let g = z(o) * z(y) / (z(x) + z(o));
        let c = g * z(3) / z(1000);
        check(z(q.return_amount.u128()).eq(g - c), "quoted return");
        check(z(q.commission_amount.u128()).eq(c), "quoted commission");
        let ideal = z(o) * (z(y) * e18() / z(x)) / e18();
        check(z(q.spread_amount.u128()).eq((ideal - g).max(z(0))), "quoted spread");
        observe("quote", q.return_amount.u128());
    }
}

pub fn c12() {
    let mut s = scene([6, 6], u128::MAX);
    let q: Res<SimulationResponse> = s.w.q(&s.p.pair, &QueryMsg::Simulation { offer_asset: asset(&s.p.a[s.i], s.o) });
    let r = s.go(None, None, None);
    if r.is_ok() {
        reach("swapped");
        match q {
            Ok(q) => {
                let at = |k: &str| attr_num(&s.w, &s.p.pair, k);
                check(q.return_amount == at("return_amount"), "return");
                check(q.spread_amount == at("spread_amount"), "spread");
                check(q.commission_amount == at("commission_amount"), "commission");
                check(q.return_amount.u128() == s.ask("user"), "paid");
                observe("quote", q.return_amount.u128());
            }
            Err(_) => check(false, "the quote is answered"),
        }
    }
}

pub fn c13() {
    let k = choice("kinds", 4);
    let i = choice("dir", 2);
    let mut w = World::new();
    let (x, y, a) = (any_u128("x"), any_u128("y"), any_u128("a"));
    let p = old_pool(&mut w, Kinds(k), [6, 6], &[("pair", if i == 0 { [x, y] } else { [y, x] })], no_requirements());
    let q: Res<ReverseSimulationResponse> = w.q(&p.pair, &QueryMsg::ReverseSimulation { ask_asset: asset(&p.a[1 - i], a) });
    if let Ok(q) = q {
        reach("quoted");
        let (x, y, a) = (z(x), z(y), z(a));
        let offer = z(q.offer_amount.u128());
        // gross amount to take out for `a` to remain after the commission
        let inv = z(1_003_009_027_081_243_731);
        let gross = a * inv / e18();
        check(gross.lt(y), "only amounts the pool can pay");
        check(((x + offer + z(1)) * (y - gross)).gt(x * y), "one unit more keeps the product");
        check(((x + offer) * (y - gross)).le(x * y), "the quote itself does not overpay");
        let pays = |o: Z| {
            let g = o * y / (x + o);
            g - g * z(3) / z(1000)
        };
        let slack = z(2) + a / z(1_000_000_000_000_000);
        let g1 = (offer + z(1)) * y / (x + offer + z(1));
        check(g1.ge(gross), "one unit more takes out enough");
        check((pays(offer + z(1)) + slack).ge(a), "buys the asked amount");
        let g0 = offer * y / (x + offer);
        check(g0.le(gross), "the quote takes out no more");
        check(pays(offer).le(a + slack), "is tight");
        observe("offer", q.offer_amount.u128());
    }
}
