//! A new pair and its LP token.
use crate::env::*;
use crate::factory::{letters, some_requirements};
use crate::setup::*;
use crate::sym::*;
use cosmwasm_std::*;
use haloswap::asset::{AssetInfo, PairInfo};
use haloswap::pair::*;

const LONG: &str = "halo1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq";
fn some_assets() -> [AssetInfo; 2] {
    match choice("assets", 6) {
        0 => [token("asset0001"), token("asset0002")],
        1 => [token(LONG), native("uusd")],
        2 => [native(&letters(&["a0", "a1", "a2"])), token("asset0001")],
        3 => [native(&letters(&["a0", "a1", "a2"])), native(&letters(&["b0", "b1", "b2", "b3"]))],
        4 => [native("asset0001"), token("asset0001")],
        _ => [native("ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2"), native("uusd")],
    }
}
fn reply_data(addr: &str, extra: usize) -> Binary {
    let mut b = vec![0x0a, addr.len() as u8];
    b.extend_from_slice(addr.as_bytes());
    if extra > 0 {
        b.push(0x12);
        b.push(extra as u8);
        for i in 0..extra {
            b.push(i as u8);
        }
    }
    Binary::from(b)
}
fn born(id: u64, addr: &str, extra: usize) -> Reply {
    Reply { id, result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(reply_data(addr, extra)) }) }
}

/// what a pair asks for and stores; its LP token is created by the chain of the harness
pub fn c28_new() {
    let mut w = World::new();
    w.hold = true;
    let other = choice("number", 2);
    w.next = [0, 12345][other];
    let a = some_assets();
    let dec = [any_u8("decimals0", 0, 255), any_u8("decimals1", 0, 255)];
    let code = any_in("token code", 1000, 9999) as u64;
    let req = some_requirements("");
    let who = ["factory0", "anybody"][other];
    let m = InstantiateMsg { asset_infos: a.clone(), token_code_id: code, asset_decimals: dec, requirements: req.clone() };
    let r = w.init(who, PAIR, &m, None);
    check(r.is_ok(), "a pair is created");
    let p = match r {
        Ok(p) => p,
        Err(_) => return,
    };
    let sent = w.sent(&p);
    check(sent.len() == 1, "exactly one LP token is requested");
    match sent.get(0) {
        Some(CosmosMsg::Wasm(WasmMsg::Instantiate { code_id, msg, funds, .. })) => {
            check(*code_id == code, "of the given token code");
            check(funds.is_empty(), "without funds");
            match from_binary::<haloswap::token::InstantiateMsg>(msg) {
                Ok(t) => {
                    check(t.decimals == 6, "with 6 decimals");
                    check(t.initial_balances.is_empty(), "with no initial balances");
                    match &t.mint {
                        Some(m) => {
                            check(m.minter == p, "the pair as minter");
                            check(m.cap.is_none(), "without a cap");
                        }
                        None => check(false, "the pair as minter"),
                    }
                    check(t.validate().is_ok(), "with metadata a token accepts");
                }
                Err(_) => check(false, "with a message a token understands"),
            }
        }
        _ => check(false, "exactly one LP token is requested"),
    }
    // the token comes to exist
    let (lp, data) = [("lp0", 0), ("halo1lplplplplplplplplplplplplplplplplplplp", 3), (LONG, 0)][choice("lp address", 3)];
    let r = w.reply(&p, born(1, lp, data));
    check(r.is_ok(), "the reply is accepted");
    check(w.sent(&p).is_empty(), "adopting the token sends nothing");
    let i: Res<PairInfo> = w.q(&p, &QueryMsg::Pair {});
    match i {
        Ok(i) => {
            reach("adopted");
            check(i.liquidity_token == lp, "adopts exactly that token");
            check(i.contract_addr == p, "its own address");
            check(i.asset_infos == a, "the given assets in order");
            check(i.asset_decimals[0] == dec[0] && i.asset_decimals[1] == dec[1], "the given decimals in order");
            check(i.requirements == req, "the given requirements");
        }
        Err(_) => check(false, "the pair tells about itself"),
    }
}

/// a pair and its real token, and what its queries tell
pub fn c28_pool() {
    let mut w = World::new();
    let k = choice("kinds", 4);
    let r = [any_u128("r0"), any_u128("r1")];
    let noise = [any_u128("n0"), any_u128("n1")];
    let dec = [any_u8("decimals0", 0, 18), any_u8("decimals1", 0, 18)];
    let req = some_requirements("");
    let p = new_pool(&mut w, Kinds(k), dec, &[("pair", r), ("user", noise)], req.clone());
    let i: PairInfo = w.q(&p.pair, &QueryMsg::Pair {}).expect("pair");
    check(p.lp == format!("token{}", w.next - 1), "the LP token just created");
    check(i.asset_infos == p.a && i.contract_addr == p.pair, "assets and address");
    check(i.asset_decimals[0] == dec[0] && i.asset_decimals[1] == dec[1], "decimals in order");
    check(i.requirements == req, "requirements");
    let t: cw20::TokenInfoResponse = w.q(&p.lp, &cw20::Cw20QueryMsg::TokenInfo {}).expect("info");
    check(t.decimals == 6 && t.total_supply.is_zero(), "6 decimals and nothing minted");
    let m: Res<Option<cw20::MinterResponse>> = w.q(&p.lp, &cw20::Cw20QueryMsg::Minter {});
    check(m.ok().flatten().map_or(false, |m| m.minter == p.pair && m.cap.is_none()), "minted by the pair alone, without a cap");
    let (s, t) = (any_u128("S"), any_u128("T"));
    give_lp(&mut w, &p, "carol", s);
    give_lp(&mut w, &p, &p.pair.clone(), t);
    let q: Res<PoolResponse> = w.q(&p.pair, &QueryMsg::Pool {});
    match q {
        Ok(q) => {
            reach("told");
            for i in 0..2 {
                check(q.assets[i].info == p.a[i], "the pool's assets in order");
                check(q.assets[i].amount.u128() == r[i], "with the pair's own balances");
            }
            check(z(q.total_share.u128()).eq(z(s) + z(t)), "and the LP supply");
        }
        Err(_) => check(false, "the pair tells about its pool"),
    }
    let q: Res<PairInfo> = w.q(&p.pair, &QueryMsg::Pair {});
    check(q.ok() == Some(i), "the pair stays as created");
}
