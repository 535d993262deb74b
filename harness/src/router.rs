//! The router: routes, hops, minimum, quotes.
use crate::env::*;
use crate::setup::*;
use crate::sym::*;
use cosmwasm_std::*;
use cw20::{Cw20ExecuteMsg, Cw20ReceiveMsg};
use haloswap::asset::{Asset, AssetInfo};
use haloswap::factory::ExecuteMsg as FactoryMsg;
use haloswap::pair::Cw20HookMsg as PairHook;
use haloswap::router::*;

pub const R: &str = "router3";
/// three tokens, a coin, and a coin named like a token
const N: usize = 5;
fn info(i: usize) -> AssetInfo {
    match i {
        0 => token("token0"),
        1 => token("token1"),
        2 => native("uusd"),
        3 => native("token0"),
        _ => token("token2"),
    }
}
fn hop(i: usize, j: usize) -> SwapOperation {
    SwapOperation::HaloSwap { offer_asset_info: info(i), ask_asset_info: info(j) }
}
/// three tokens held as told, and the router
fn setup(hold: &[(&str, u128)]) -> World {
    let mut w = World::new();
    for i in 0..3 {
        assert!(new_token(&mut w, 6, hold, None) == format!("token{}", i));
    }
    for (h, n) in hold {
        w.set_coins(h, "uusd", *n);
        w.set_coins(h, "token0", *n);
    }
    let r = w.init("creator", ROUTER, &InstantiateMsg { halo_factory: "factory4".to_string() }, None).expect("router");
    assert!(r == R);
    w
}
/// start a route; via a call or a token transfer
fn start(w: &mut World, via: usize, ops: &[(usize, usize)], min: Option<u128>, to: Option<String>) -> Res<()> {
    let operations: Vec<SwapOperation> = ops.iter().map(|(i, j)| hop(*i, *j)).collect();
    let minimum_receive = min.map(Uint128::new);
    if via == 0 {
        w.exec("user", R, &ExecuteMsg::ExecuteSwapOperations { operations, minimum_receive, to }, &[])
    } else {
        let msg = to_binary(&Cw20HookMsg::ExecuteSwapOperations { operations, minimum_receive, to }).unwrap();
        w.exec("token0", R, &ExecuteMsg::Receive(Cw20ReceiveMsg { sender: "user".to_string(), amount: Uint128::new(5), msg }), &[])
    }
}
fn sound(ops: &[(usize, usize)]) -> bool {
    // every intermediate output is offered by a later hop
    !ops.is_empty() && (0..ops.len() - 1).all(|i| (i + 1..ops.len()).any(|j| ops[j].0 == ops[i].1))
}
fn chained(ops: &[(usize, usize)]) -> bool {
    !ops.is_empty() && (1..ops.len()).all(|i| ops[i].0 == ops[i - 1].1)
}
fn internal(m: &CosmosMsg) -> Option<ExecuteMsg> {
    match m {
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) if contract_addr == R && funds.is_empty() => from_binary(msg).ok(),
        _ => None,
    }
}
/// the messages of an accepted route
fn expect_messages(w: &World, ops: &[(usize, usize)], min: Option<u128>, to: &str, held: u128) {
    let sent = w.sent(R);
    let n = ops.len();
    check(sent.len() == n + min.is_some() as usize, "one message per hop, and one for the minimum if given");
    for (k, (i, j)) in ops.iter().enumerate() {
        match sent.get(k).and_then(internal) {
            Some(ExecuteMsg::ExecuteSwapOperation { operation, to: r }) => {
                check(operation == hop(*i, *j), "the hops in order");
                let want = if k + 1 == n { Some(to.to_string()) } else { None };
                check(r == want, "only the last hop names the recipient");
            }
            _ => check(false, "each hop is an internal swap"),
        }
    }
    if let Some(min) = min {
        match sent.get(n).and_then(internal) {
            Some(ExecuteMsg::AssertMinimumReceive { asset_info, prev_balance, minimum_receive, receiver }) => {
                check(asset_info == info(ops[n - 1].1), "the minimum is of the final asset");
                check(prev_balance.u128() == held, "against the recipient's balance before any hop");
                check(minimum_receive.u128() == min, "the given minimum");
                check(receiver == to, "for the actual recipient");
            }
            _ => check(false, "the route ends with a check of the minimum"),
        }
    }
}

/// every route up to a length
fn routes(n: usize, assets: usize) {
    let mut w = setup(&[("bob", 7)]);
    w.hold = true;
    let mut ops = vec![];
    for k in 0..n {
        let i = choice(["offer", "offer1", "offer2", "offer3"][k], assets);
        let j = choice(["ask", "ask1", "ask2", "ask3"][k], assets);
        ops.push((i, j));
    }
    let r = start(&mut w, 1, &ops, None, Some("bob".to_string()));
    if r.is_ok() {
        reach("accepted");
        check(sound(&ops), "no accepted route leaves an intermediate output behind");
        expect_messages(&w, &ops, None, "bob", 7);
    } else {
        reach("refused");
        check(!chained(&ops), "every chained route is accepted");
    }
}
pub fn c19_one() {
    routes(1, N)
}
pub fn c19_two() {
    routes(2, N)
}
pub fn c19_three() {
    routes(3, 4)
}
pub fn c19_three_all() {
    routes(3, N)
}
const ROUTES: [&[(usize, usize)]; 15] = [
    &[],
    &[(0, 1)],
    &[(2, 0)],
    &[(0, 2), (2, 1)],
    &[(0, 1), (2, 4)],
    &[(0, 1), (1, 2), (2, 3)],
    &[(0, 1), (1, 0), (0, 1)],
    &[(0, 3), (0, 1)],
    &[(0, 1), (1, 2), (2, 4), (4, 3)],
    &[(0, 1), (1, 2), (4, 3), (2, 4)],
    &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)],
    &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (0, 2)],
    &[(4, 3), (3, 2), (2, 1), (1, 0), (0, 4), (4, 1), (1, 3), (3, 0)],
    &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (0, 2), (2, 4), (4, 1), (1, 3), (3, 0), (0, 1), (1, 2), (2, 0)],
    // two dead ends
    &[(0, 1), (0, 2), (0, 3), (3, 4), (4, 0)],
];
/// callers, recipients and minimums over a few routes
fn options() {
    let held = any_u128("held");
    let mut w = setup(&[("bob", held)]);
    let ops = ROUTES[choice("route", ROUTES.len())];
    let via = choice("via", 2);
    if choice("router holds", 2) == 1 {
        w.set_coins(R, "uusd", any_u128("left"));
    }
    w.set_coins("user", "uusd", 3);
    w.hold = true;
    let min = if choice("with minimum", 2) == 1 { Some(any_u128("minimum")) } else { None };
    let to = [None, Some("bob".to_string()), Some("Bob".to_string()), Some(String::new()), Some(R.to_string())][choice("to", 5)].clone();
    let valid = !matches!(to.as_deref(), Some("Bob") | Some(""));
    let r = start(&mut w, via, ops, min, to.clone());
    if r.is_ok() {
        reach("accepted");
        check(valid, "recipients are valid addresses");
        check(sound(ops), "no accepted route leaves an intermediate output behind");
        let to = to.unwrap_or("user".to_string());
        let had = match ops.last() {
            Some((_, j)) => owns(&w, &to, &info(*j)),
            None => 0,
        };
        expect_messages(&w, ops, min, &to, had);
    } else {
        reach("refused");
        check(!(valid && chained(ops)), "every chained route is accepted");
    }
}
pub fn c19_options() {
    options()
}
pub fn c21_messages() {
    options()
}
/// the closing check by itself
pub fn c21_assert() {
    let mut w = setup(&[]);
    w.next = 50;
    let j = choice("asset", N);
    let to = ["bob", R][choice("recipient", 2)];
    let other = if to == "bob" { "carol" } else { "bob" };
    let (have, prev, min) = (any_u128("balance"), any_u128("previous"), any_u128("minimum"));
    // only the asset's own ledger counts: everything else holds something different
    let mut infos = info(j);
    if let AssetInfo::Token { .. } = infos {
        let t = new_token(&mut w, 6, &[(to, have)], None);
        w.set_coins(to, &t, any_u128("noise"));
        infos = token(&t);
    } else {
        let d = name(&infos);
        w.set_coins(to, &d, have);
        w.set_coins(other, &d, any_u128("noise"));
    }
    let who = ["user", R][choice("sender", 2)];
    let m = ExecuteMsg::AssertMinimumReceive {
        asset_info: infos,
        prev_balance: Uint128::new(prev),
        minimum_receive: Uint128::new(min),
        receiver: to.to_string(),
    };
    let r = w.exec(who, R, &m, &[]);
    let grown = z(have).ge(z(prev) + z(min));
    if r.is_ok() {
        reach("passed");
        check(grown, "passes only when the balance has grown by the minimum");
        check(w.log.is_empty(), "the check sends nothing");
    } else {
        reach("failed");
        check(!grown, "fails only when the balance has not grown by the minimum");
    }
}

/// pairs registered with the factory: which of the assets are joined
const PAIRS: [(usize, usize); 4] = [(0, 1), (2, 1), (3, 0), (4, 2)];
fn registered(w: &mut World) -> Vec<String> {
    let m = haloswap::factory::InstantiateMsg { pair_code_id: ORACLE, token_code_id: TOKEN };
    assert!(w.init("owner", FACTORY, &m, Some("root")).expect("factory") == "factory4");
    for d in ["uusd", "token0"] {
        w.set_coins("factory4", d, 1);
        let m = FactoryMsg::AddNativeTokenDecimals { denom: d.to_string(), decimals: 6 };
        assert!(w.exec("owner", "factory4", &m, &[]).is_ok());
    }
    let mut v = vec![];
    for (i, j) in PAIRS {
        let a = format!("other{}", w.next);
        let m = FactoryMsg::CreatePair { asset_infos: [info(i), info(j)], requirements: no_requirements() };
        assert!(w.exec("user", "factory4", &m, &[]).is_ok());
        v.push(a);
    }
    v
}
fn joined(i: usize, j: usize) -> Option<usize> {
    PAIRS.iter().position(|(a, b)| (*a == i && *b == j) || (*a == j && *b == i))
}

/// One hop.
pub fn c20() {
    let held = [any_u128("held0"), any_u128("held1"), any_u128("held2"), any_u128("held3"), any_u128("held4")];
    let mut w = World::new();
    for t in 0..3 {
        let n = held[[0, 1, 4][t]];
        assert!(new_token(&mut w, 6, &[(R, n)], None) == format!("token{}", t));
    }
    w.set_coins(R, "uusd", held[2]);
    w.set_coins(R, "token0", held[3]);
    assert!(w.init("creator", ROUTER, &InstantiateMsg { halo_factory: "factory4".to_string() }, None).expect("router") == R);
    let pairs = registered(&mut w);
    w.hold = true;
    let (i, j) = (choice("offer", N), choice("ask", N));
    let who = [R, "user", "factory4", "token0", "router", "router33", "creator"][choice("sender", 7)];
    let to = [None, Some("bob".to_string()), Some("Bob".to_string()), Some(R.to_string())][choice("to", 4)].clone();
    let valid = to.as_deref() != Some("Bob");
    let r = w.exec(who, R, &ExecuteMsg::ExecuteSwapOperation { operation: hop(i, j), to: to.clone() }, &[]);
    let pair = joined(i, j).map(|k| pairs[k].clone());
    if r.is_ok() {
        reach("accepted");
        check(who == R, "hops are the router's own");
        check(valid, "recipients are valid addresses");
        check(pair.is_some(), "only between assets with a registered pair");
        let pair = match pair {
            Some(p) => p,
            None => return,
        };
        let sent = w.sent(R);
        check(sent.len() == 1, "one message");
        let swap = match (&sent[0], info(i)) {
            (CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }), AssetInfo::Token { contract_addr: t }) => {
                check(*contract_addr == t, "the offered token is told");
                check(funds.is_empty(), "no other funds");
                match from_binary(msg) {
                    Ok(Cw20ExecuteMsg::Send { contract, amount, msg }) => {
                        check(contract == pair, "to send to the registered pair");
                        check(amount.u128() == held[i], "the router's entire balance");
                        from_binary::<PairHook>(&msg).ok()
                    }
                    _ => None,
                }
            }
            (CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }), AssetInfo::NativeToken { denom }) => {
                check(*contract_addr == pair, "to the registered pair");
                check(funds.len() == 1 && funds[0].denom == denom, "the offered coin and no other funds");
                check(funds.len() == 1 && funds[0].amount.u128() == held[i], "the router's entire balance");
                from_binary::<PairHook>(msg).ok()
            }
            _ => None,
        };
        match swap {
            Some(PairHook::Swap { belief_price, max_spread, to: t }) => {
                check(belief_price.is_none() && max_spread.is_none(), "no limits");
                check(t == to, "the hop's recipient");
            }
            _ => check(false, "a swap"),
        }
    } else {
        reach("refused");
        check(!(who == R && valid && pair.is_some()), "the router's own hop to a registered pair is carried out");
    }
}

/// Quotes along a route.
fn quotes(max: usize, assets: usize) {
    let n = if max < 2 { choice("hops", 2) } else { max };
    let mut ops = vec![];
    for k in 0..n {
        ops.push((choice(["offer", "offer1", "offer2"][k], assets), choice(["ask", "ask1", "ask2"][k], assets)));
    }
    quoted(&ops)
}
/// longer routes over the registered pairs, there and back, and one hop astray
const LONG: [&[(usize, usize)]; 6] = [
    &[(4, 2), (2, 1), (1, 0), (0, 3)],
    &[(3, 0), (0, 1), (1, 0), (0, 1), (1, 2)],
    &[(3, 0), (0, 1), (1, 2), (2, 4), (4, 2), (2, 1)],
    &[(0, 1), (1, 0), (0, 1), (1, 0), (0, 1), (1, 0)],
    &[(0, 1), (1, 0), (0, 1), (1, 0), (0, 1), (1, 0), (0, 3)],
    &[(3, 0), (0, 1), (1, 4), (4, 2)],
];
pub fn c22_long() {
    quoted(LONG[choice("route", LONG.len())])
}
fn quoted(ops: &[(usize, usize)]) {
    let mut w = setup(&[]);
    let pairs = registered(&mut w);
    let amount = any_u128("amount");
    let n = ops.len();
    let reverse = choice("reverse", 2) == 1;
    let operations: Vec<SwapOperation> = ops.iter().map(|(i, j)| hop(*i, *j)).collect();
    let m = if reverse {
        QueryMsg::ReverseSimulateSwapOperations { ask_amount: Uint128::new(amount), operations }
    } else {
        QueryMsg::SimulateSwapOperations { offer_amount: Uint128::new(amount), operations }
    };
    let r: Res<SimulateSwapOperationsResponse> = w.q(R, &m);
    let asked = w.asked.borrow().clone();
    let order: Vec<(usize, usize)> = if reverse { ops.iter().rev().copied().collect() } else { ops.to_vec() };
    let fine = n > 0 && order.iter().all(|(i, j)| joined(*i, *j).is_some()) && asked.len() == n && asked.iter().all(|a| a.answer.is_some());
    if let Ok(r) = r {
        reach("quoted");
        check(fine, "a failing hop or an empty route is no number");
        if !fine {
            return;
        }
        let mut v = amount;
        for (k, (i, j)) in order.iter().enumerate() {
            check(asked[k].pair == pairs[joined(*i, *j).unwrap()], "each hop asks its registered pair, in order");
            check(asked[k].reverse == reverse, "in the asked direction");
            let want = Asset { info: if reverse { info(*j) } else { info(*i) }, amount: Uint128::new(v) };
            check(asked[k].asset.info == want.info, "about the hop's asset");
            check(asked[k].asset.amount.u128() == v, "with the amount of the hop before");
            v = asked[k].answer.unwrap().u128();
        }
        check(r.amount.u128() == v, "the last answer is the quote");
    } else {
        reach("no quote");
        check(!fine, "a route whose hops all have quotes has one");
    }
}
pub fn c22_short() {
    quotes(1, N)
}
pub fn c22_two() {
    quotes(2, N)
}
pub fn c22_three() {
    quotes(3, 4)
}
