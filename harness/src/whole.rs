//! C31: the contracts together; every message crosses as the bytes it is sent as.
use crate::env::*;
use crate::setup::*;
use crate::sym::*;
use cosmwasm_std::{from_binary, from_slice, to_binary, Binary, CosmosMsg, Decimal, Uint128, WasmMsg};
use cw20::{Cw20ExecuteMsg, Cw20ReceiveMsg};
use haloswap::asset::*;
use haloswap::factory::{ExecuteMsg as FactoryMsg, InstantiateMsg as FactoryInit};
use haloswap::pair::{PoolResponse, QueryMsg as PairQuery, SimulationResponse};
use haloswap::router::*;

/// all there is of an asset, among the accounts of the story
fn total(w: &World, who: &[&str], i: &AssetInfo) -> Z {
    let mut t = z(0);
    for a in who {
        t = t + z(owns(w, a, i));
    }
    t
}
fn quote(w: &World, pair: &str, i: &AssetInfo, n: u128) -> Option<u128> {
    let r: Res<SimulationResponse> = w.q(pair, &PairQuery::Simulation { offer_asset: asset(i, n) });
    r.ok().map(|r| r.return_amount.u128())
}
const EVERYBODY: [&str; 7] = ["user", "bob", "pair5", "pair7", "router3", "factory4", "root"];
struct Route {
    w: World,
    a: [AssetInfo; 3],
}
/// two pairs in a row, made by the factory: token0 - token1 - the last asset
fn route(n: u128, first: [u128; 2], second: [u128; 2], left: u128, coin_last: bool, flip: usize) -> Route {
    let mut w = World::new();
    new_token(&mut w, 6, &[("user", n), ("pair5", first[0])], None);
    new_token(&mut w, 6, &[("pair5", first[1]), ("pair7", second[0]), ("router3", left)], None);
    new_token(&mut w, 6, &[("pair7", second[1]), ("bob", 7)], None);
    assert!(w.init("creator", ROUTER, &InstantiateMsg { halo_factory: "factory4".to_string() }, None).expect("router") == "router3");
    let m = FactoryInit { pair_code_id: PAIR, token_code_id: TOKEN };
    assert!(w.init("owner", FACTORY, &m, Some("root")).expect("factory") == "factory4");
    w.set_coins("factory4", "uusd", 1);
    let m = FactoryMsg::AddNativeTokenDecimals { denom: "uusd".to_string(), decimals: 6 };
    assert!(w.exec("owner", "factory4", &m, &[]).is_ok());
    w.set_coins("pair7", "uusd", second[1]);
    w.set_coins("bob", "uusd", 7);
    let a = [token("token0"), token("token1"), if coin_last { native("uusd") } else { token("token2") }];
    for i in 0..2 {
        let (p, q) = if flip & (1 << i) == 0 { (i, i + 1) } else { (i + 1, i) };
        let m = FactoryMsg::CreatePair { asset_infos: [a[p].clone(), a[q].clone()], requirements: no_requirements() };
        assert!(w.exec("user", "factory4", &m, &[]).is_ok());
    }
    Route { w, a }
}
/// a route executed by sending a token to the router
fn routed(hops: usize) {
    let (x, y, u, v) = (any_u128("x"), any_u128("y"), any_u128("u"), any_u128("v"));
    let n = any_u128("n");
    let coin_last = hops == 2 && choice("last", 2) == 1;
    let flip = choice("flip", 2);
    // each pair lists its assets along the route or against it
    let flip = if hops == 2 { [1, 2][flip] } else { flip };
    let left = if hops == 2 && choice("router holds", 2) == 1 { 1_000_000 } else { 0 };
    let Route { mut w, a } = route(n, [x, y], [u, v], left, coin_last, flip);
    let to = [None, Some("bob".to_string())][choice("to", 2)].clone();
    let who = if to.is_some() { "bob" } else { "user" };
    // on the longer route, with a recipient or a minimum
    let with = if hops == 2 { to.is_none() } else { choice("with minimum", 2) == 1 };
    let min = if with { Some(any_u128("minimum")) } else { None };
    let q1 = quote(&w, "pair5", &a[0], n);
    let q2 = match (hops, q1) {
        (1, q) => q,
        (_, Some(q)) => (z(q) + z(left)).lt(pow2(128)).then(|| quote(&w, "pair7", &a[1], q + left)).flatten(),
        _ => None,
    };
    let operations: Vec<SwapOperation> =
        (0..hops).map(|i| SwapOperation::HaloSwap { offer_asset_info: a[i].clone(), ask_asset_info: a[i + 1].clone() }).collect();
    let last = &a[hops];
    let had = owns(&w, who, last);
    let before: Vec<Z> = (0..3).map(|i| total(&w, &EVERYBODY, &a[i])).collect();
    let msg = to_binary(&Cw20HookMsg::ExecuteSwapOperations { operations, minimum_receive: min.map(Uint128::new), to }).unwrap();
    let m = Cw20ExecuteMsg::Send { contract: "router3".to_string(), amount: Uint128::new(n), msg };
    let r = w.exec("user", "token0", &m, &[]);
    if r.is_ok() {
        reach("carried out");
        for i in 0..3 {
            check(total(&w, &EVERYBODY, &a[i]).eq(before[i]), "assets only move between accounts");
        }
        let got = z(owns(&w, who, last)) - z(had);
        check(q2.is_some(), "only swaps with a quote");
        if let Some(q) = q2 {
            check(got.eq(z(q)), "the recipient gets what the pairs quoted");
        }
        if let Some(m) = min {
            check(got.ge(z(m)), "and at least the minimum");
        }
        check(owns(&w, "user", &a[0]) == 0, "the whole offer is taken");
        for i in 0..hops {
            check(owns(&w, "router3", &a[i]) == 0, "nothing stays with the router");
        }
    } else {
        reach("refused");
        // tokens refuse to move nothing
        let fine = match (hops, q1, q2) {
            (_, Some(a), Some(b)) => n > 0 && a > 0 && b > 0 && min.map_or(true, |m| b >= m),
            _ => false,
        };
        check(!fine, "a route with a quote is carried out");
    }
}
pub fn c31_route() {
    routed(1)
}
pub fn c31_route_two() {
    routed(2)
}
/// a route offering a coin
pub fn c31_coin_route() {
    let (u, v, n) = (any_in("u", 1, 1 << 100), any_in("v", 1, 1 << 100), any_in("n", 1, 1 << 100));
    let Route { mut w, a } = route(0, [0, 0], [u, v], 0, true, choice("flip", 2) * 2);
    w.set_coins("user", "uusd", n);
    assume(quote(&w, "pair7", &a[2], n).map_or(false, |q| q > 0));
    reach("quoted");
    let operations = vec![SwapOperation::HaloSwap { offer_asset_info: a[2].clone(), ask_asset_info: a[1].clone() }];
    let m = ExecuteMsg::ExecuteSwapOperations { operations, minimum_receive: None, to: None };
    let r = w.exec("user", "router3", &m, &[coin("uusd", n)]);
    check(r.is_ok(), "a hop offering a coin is understood by the pair");
}
/// a pair made by the factory: two deposits and a withdrawal
pub fn c31_pool() {
    let k = Kinds(choice("kinds", 4));
    let (x, y) = (any_in("x", 1, 1 << 120), any_in("y", 1, 1 << 120));
    let (p, q) = (any_in("p", 0, 1 << 120), any_in("q", 0, 1 << 120));
    let l = any_u128("l");
    let mut w = World::new();
    let mut a = vec![];
    let m = FactoryInit { pair_code_id: PAIR, token_code_id: TOKEN };
    assert!(w.init("owner", FACTORY, &m, Some("root")).expect("factory") == "factory0");
    for i in 0..2 {
        let (d, have) = (["uusd", "ibc/27Luna"][i], [[x, p], [y, q]][i]);
        if k.native(i) {
            w.set_coins("factory0", d, 1);
            let m = FactoryMsg::AddNativeTokenDecimals { denom: d.to_string(), decimals: 6 };
            assert!(w.exec("owner", "factory0", &m, &[]).is_ok());
            w.set_coins("user", d, have[0]);
            w.set_coins("bob", d, have[1]);
            a.push(native(d));
        } else {
            a.push(token(&new_token(&mut w, 6, &[("user", have[0]), ("bob", have[1])], None)));
        }
    }
    let pair = format!("pair{}", w.next);
    let req = CreatePairRequirements {
        whitelist: vec![cosmwasm_std::Addr::unchecked("user")],
        first_asset_minimum: Uint128::new(1),
        second_asset_minimum: Uint128::new(1),
    };
    let m = FactoryMsg::CreatePair { asset_infos: [a[0].clone(), a[1].clone()], requirements: req };
    assert!(w.exec("user", "factory0", &m, &[]).is_ok());
    let info: PairInfo = w.q("factory0", &haloswap::factory::QueryMsg::Pair { asset_infos: [a[1].clone(), a[0].clone()] }).expect("registered");
    check(info.contract_addr == pair, "the factory knows the new pair");
    let own: PairInfo = w.q(&pair, &PairQuery::Pair {}).expect("pair");
    check(info == own, "and what it says about itself");
    let pool = Pool { pair: pair.clone(), lp: own.liquidity_token, a: [a[0].clone(), a[1].clone()] };
    let all = ["user", "bob", pair.as_str(), "factory0", pool.lp.as_str()];
    let before = [total(&w, &all, &a[0]), total(&w, &all, &a[1])];
    let same = |w: &World| {
        for i in 0..2 {
            check(total(w, &all, &a[i]).eq(before[i]), "assets only move between accounts");
        }
        let lps = total(w, &all, &token(&pool.lp));
        check(lps.eq(z(supply(w, &pool.lp))), "LP tokens are all accounted for");
        let r: PoolResponse = w.q(&pool.pair, &PairQuery::Pool {}).expect("pool");
        check(r.total_share.u128() == supply(w, &pool.lp), "the pair knows its LP supply");
    };
    for (i, n) in [x, y].iter().enumerate() {
        allow(&mut w, &pool, "user", i, *n);
    }
    if provide(&mut w, &pool, "user", [x, y], false, None, None, &coins_for(&pool, [x, y])).is_err() {
        reach("first deposit refused");
        return;
    }
    reach("first deposit");
    same(&w);
    check(owns(&w, &pair, &a[0]) == x && owns(&w, &pair, &a[1]) == y, "the pair holds the deposit");
    let then = choice("then", 2);
    if then == 0 {
        for (i, n) in [p, q].iter().enumerate() {
            allow(&mut w, &pool, "bob", i, *n);
        }
        if provide(&mut w, &pool, "bob", [p, q], false, None, Some("user"), &coins_for(&pool, [p, q])).is_ok() {
            reach("second deposit");
            same(&w);
            check(lp(&w, &pool, "bob") == 0, "the receiver gets the LP tokens");
        }
    } else if withdraw(&mut w, &pool, "user", l).is_ok() {
        reach("withdrawal");
        same(&w);
    }
}
/// upgrading a pair through the factory
pub fn c31_migrate() {
    let k = Kinds(choice("kinds", 4));
    let (x, y, l) = (any_u128("x"), any_u128("y"), any_u128("l"));
    let mut w = World::new();
    // the factory is a pair's maker and its admin
    let m = FactoryInit { pair_code_id: PAIR, token_code_id: TOKEN };
    assert!(w.init("owner", FACTORY, &m, Some("root")).expect("factory") == "factory0");
    let dec = [[6, 6], [6, 8], [8, 6]][choice("decimals", 3)];
    let mut a = vec![];
    let pair = format!("pair{}", 1 + (0..2).filter(|i| !k.native(*i)).count());
    for i in 0..2 {
        let (d, n) = (["uusd", "ibc/27Luna"][i], [x, y][i]);
        if k.native(i) {
            w.set_coins("factory0", d, 1);
            let m = FactoryMsg::AddNativeTokenDecimals { denom: d.to_string(), decimals: dec[i] };
            assert!(w.exec("owner", "factory0", &m, &[]).is_ok());
            w.set_coins(&pair, d, n);
            a.push(native(d));
        } else {
            a.push(token(&new_token(&mut w, dec[i], &[(&pair, n)], None)));
        }
    }
    let m = FactoryMsg::CreatePair { asset_infos: [a[0].clone(), a[1].clone()], requirements: no_requirements() };
    assert!(w.exec("user", "factory0", &m, &[]).is_ok());
    let look = |w: &World| -> (PairInfo, PoolResponse) {
        (w.q(&pair, &PairQuery::Pair {}).expect("pair"), w.q(&pair, &PairQuery::Pool {}).expect("pool"))
    };
    let lp = look(&w).0.liquidity_token;
    let m = Cw20ExecuteMsg::Mint { recipient: "bob".to_string(), amount: Uint128::new(l) };
    if l > 0 {
        assume(w.exec(&pair, &lp, &m, &[]).is_ok());
    }
    let before = look(&w);
    let who = ["owner", "user", "root", "factory0"][choice("sender", 4)];
    let code = [None, Some(PAIR), Some(SINK), Some(99)][choice("code", 4)];
    let target = [pair.as_str(), "token1", "nobody"][choice("contract", 3)];
    let r = w.exec(who, "factory0", &FactoryMsg::MigratePair { contract: target.to_string(), code_id: code }, &[]);
    if r.is_ok() {
        reach("migrated");
        check(who == "owner", "by the owner");
        check(target == pair, "a pair");
        if code != Some(SINK) {
            let after = look(&w);
            check(after.0 == before.0, "the pair is the same");
            check(after.1.assets[0] == before.1.assets[0] && after.1.assets[1] == before.1.assets[1], "with the same reserves");
            check(after.1.total_share == before.1.total_share, "and the same LP supply");
        }
        let at = w.cs.iter().find(|c| c.addr == target).map(|c| c.code);
        check(at == Some(code.unwrap_or(PAIR)), "to the code asked for, or the factory's");
        check(w.log.len() == 1, "one message");
    } else {
        reach("refused");
        check(!(who == "owner" && target == pair && code != Some(99)), "the owner's upgrade of a pair is carried out");
    }
}
/// a token tells a contract what it was sent
pub fn c31_told() {
    let n = any_u128("n");
    let have = any_u128("have");
    let allowed = any_u128("allowed");
    let mut w = World::new();
    new_token(&mut w, 6, &[("alice", have)], None);
    w.add("sink", SINK);
    let from = choice("from", 2) == 1;
    let len = choice("length", 6);
    let b: Vec<u8> = (0..len).map(|i| any_u8(["m0", "m1", "m2", "m3", "m4"][i], 0, 255)).collect();
    let r = if from {
        let m = Cw20ExecuteMsg::IncreaseAllowance { spender: "bob".to_string(), amount: Uint128::new(allowed), expires: None };
        assert!(w.exec("alice", "token0", &m, &[]).is_ok());
        let m = Cw20ExecuteMsg::SendFrom { owner: "alice".to_string(), contract: "sink".to_string(), amount: Uint128::new(n), msg: Binary::from(b.clone()) };
        w.exec("bob", "token0", &m, &[])
    } else {
        let m = Cw20ExecuteMsg::Send { contract: "sink".to_string(), amount: Uint128::new(n), msg: Binary::from(b.clone()) };
        w.exec("alice", "token0", &m, &[])
    };
    if r.is_ok() {
        reach("sent");
        let sent = w.sent("token0");
        check(sent.len() == 1, "one message");
        match sent.get(0) {
            Some(CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds })) => {
                check(contract_addr == "sink" && funds.is_empty(), "to the contract, without coins");
                // as pairs and routers read it
                let p: Option<haloswap::pair::ExecuteMsg> = from_binary(msg).ok();
                let q: Option<ExecuteMsg> = from_slice(msg.as_slice()).ok();
                match (p, q) {
                    (Some(haloswap::pair::ExecuteMsg::Receive(p)), Some(ExecuteMsg::Receive(q))) => {
                        for Cw20ReceiveMsg { sender, amount, msg } in [p, q] {
                            check(sender == if from { "bob" } else { "alice" }, "who sent it");
                            check(amount.u128() == n, "how much");
                            check(msg.as_slice() == b.as_slice(), "and the message");
                        }
                    }
                    _ => check(false, "both kinds of receiver understand it"),
                }
            }
            _ => check(false, "a message to the contract"),
        }
        check(owns(&w, "sink", &token("token0")) == n, "the amount has arrived");
    }
}
/// what a pair tells the tokens it moves, mints and burns
pub fn c31_limits() {
    // limits in a notification reach the pair as they were written
    let (b, s) = (any_u128("belief"), any_u128("spread"));
    let which = choice("limits", 4);
    let m = haloswap::pair::Cw20HookMsg::Swap {
        belief_price: if which & 1 == 1 { Some(Decimal::new(Uint128::new(b))) } else { None },
        max_spread: if which & 2 == 2 { Some(Decimal::new(Uint128::new(s))) } else { None },
        to: [None, Some("bob".to_string())][choice("to", 2)].clone(),
    };
    let j = to_binary(&m).unwrap();
    let r: Option<haloswap::pair::Cw20HookMsg> = from_binary(&j).ok();
    reach("written");
    check(r.map_or(false, |r| r == m), "limits are read as they were written");
}
