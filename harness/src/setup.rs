//! Building states through the contracts' public messages.
use crate::env::*;
use crate::sym::*;
use cosmwasm_std::*;
use cw20::{Cw20Coin, Cw20ExecuteMsg, MinterResponse};
use haloswap::asset::{Asset, AssetInfo, CreatePairRequirements};

pub fn token(a: &str) -> AssetInfo {
    AssetInfo::Token { contract_addr: a.to_string() }
}
pub fn native(a: &str) -> AssetInfo {
    AssetInfo::NativeToken { denom: a.to_string() }
}
pub fn asset(i: &AssetInfo, n: u128) -> Asset {
    Asset { info: i.clone(), amount: Uint128::new(n) }
}
pub fn coin(d: &str, n: u128) -> Coin {
    Coin { denom: d.to_string(), amount: Uint128::new(n) }
}
pub fn name(i: &AssetInfo) -> String {
    match i {
        AssetInfo::Token { contract_addr } => contract_addr.clone(),
        AssetInfo::NativeToken { denom } => denom.clone(),
    }
}

/// A token with the given balances and total supply within 128 bits (else the path is dropped).
pub fn new_token(w: &mut World, decimals: u8, balances: &[(&str, u128)], minter: Option<&str>) -> String {
    let m = haloswap::token::InstantiateMsg {
        name: "some token".to_string(),
        symbol: "TOK".to_string(),
        decimals,
        initial_balances: balances.iter().map(|(a, n)| Cw20Coin { address: a.to_string(), amount: Uint128::new(*n) }).collect(),
        mint: minter.map(|m| MinterResponse { minter: m.to_string(), cap: None }),
    };
    match w.init("creator", TOKEN, &m, None) {
        Ok(a) => a,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

pub fn no_requirements() -> CreatePairRequirements {
    CreatePairRequirements { whitelist: vec![], first_asset_minimum: Uint128::zero(), second_asset_minimum: Uint128::zero() }
}

#[derive(Clone)]
pub struct Pool {
    pub pair: String,
    pub lp: String,
    pub a: [AssetInfo; 2],
}
/// kinds: 0 = token/token, 1 = token/native, 2 = native/token, 3 = native/native
#[derive(Clone, Copy)]
pub struct Kinds(pub usize);
impl Kinds {
    pub fn native(&self, i: usize) -> bool {
        match self.0 {
            0 => false,
            1 => i == 1,
            2 => i == 0,
            _ => true,
        }
    }
}
/// A pair over fresh assets; `hold` lists holders with their amounts of asset 0 and asset 1,
/// where the holder "pair" is the pair contract itself.
pub fn new_pool(w: &mut World, k: Kinds, dec: [u8; 2], hold: &[(&str, [u128; 2])], req: CreatePairRequirements) -> Pool {
    make_pool(w, k, dec, hold, req, 0)
}
/// A pair as above, which may have seen deposits, swaps and withdrawals before.
pub fn old_pool(w: &mut World, k: Kinds, dec: [u8; 2], hold: &[(&str, [u128; 2])], req: CreatePairRequirements) -> Pool {
    let past = choice("past", 3);
    lived_pool(w, k, dec, hold, req, past)
}
/// A pair as above, which has seen deposits, swaps and withdrawals before (1: of everything; 2: of a part,
/// the remaining LP tokens are burnt by their holder).
pub fn lived_pool(w: &mut World, k: Kinds, dec: [u8; 2], hold: &[(&str, [u128; 2])], mut req: CreatePairRequirements, past: usize) -> Pool {
    if past != 0 {
        req.whitelist.push(Addr::unchecked("founder"));
    }
    make_pool(w, k, dec, hold, req, past)
}
/// Deposits, swaps and a withdrawal by somebody who leaves nothing behind.
fn history(w: &mut World, p: &Pool, leaves: bool) {
    let f = "founder";
    for i in 0..2 {
        allow(w, p, f, i, 100_000);
    }
    let d = [6_000, 4_500];
    let _ = provide(w, p, f, d, false, None, None, &coins_for(p, d));
    for i in 0..2 {
        if !p.a[i].is_native_token() {
            let _ = swap(w, p, f, i, 700, None, Some(Decimal::percent(50)), None);
        }
    }
    let d = [3_000, 2_000];
    let _ = provide(w, p, f, d, true, None, None, &coins_for(p, d));
    let half = lp(w, p, f) / 2;
    let _ = withdraw(w, p, f, half);
    for i in 0..2 {
        if !p.a[i].is_native_token() {
            let _ = swap(w, p, f, i, 300, None, None, None);
        }
    }
    if leaves {
        let rest = lp(w, p, f);
        let _ = withdraw(w, p, f, rest);
    }
    for who in [f, p.pair.as_str()] {
        let n = lp(w, p, who);
        if n != 0 {
            let _ = w.exec(who, &p.lp, &Cw20ExecuteMsg::Burn { amount: Uint128::new(n) }, &[]);
        }
        for i in 0..2 {
            match &p.a[i] {
                AssetInfo::NativeToken { denom } => w.set_coins(who, denom, 0),
                AssetInfo::Token { contract_addr } => {
                    let n = owns(w, who, &p.a[i]);
                    if n != 0 {
                        let _ = w.exec(who, contract_addr, &Cw20ExecuteMsg::Burn { amount: Uint128::new(n) }, &[]);
                    }
                }
            }
        }
    }
}
fn make_pool(w: &mut World, k: Kinds, dec: [u8; 2], hold: &[(&str, [u128; 2])], req: CreatePairRequirements, past: usize) -> Pool {
    let (kind, past) = (past, past != 0);
    let mut infos = vec![];
    // addresses are handed out in order: up to two tokens, then the pair, then its LP token
    let toks = (0..2).filter(|i| !k.native(*i)).count() as u32;
    let pair = format!("pair{}", w.next + toks);
    // reserves arrive after the history
    let reserve = if past { "vault" } else { pair.as_str() };
    for i in 0..2 {
        if k.native(i) {
            let d = ["uusd", "ibc/27Luna"][i];
            if past {
                w.set_coins("founder", d, 100_000);
            }
            for (h, n) in hold {
                let h = if *h == "pair" { reserve } else { h };
                w.set_coins(h, d, n[i]);
            }
            infos.push(native(d));
        } else {
            let mut b: Vec<(&str, u128)> = hold.iter().map(|(h, n)| (if *h == "pair" { reserve } else { h }, n[i])).collect();
            if past {
                b.push(("founder", 100_000));
            }
            infos.push(token(&new_token(w, dec[i].min(18), &b, None)));
        }
    }
    let m = haloswap::pair::InstantiateMsg {
        asset_infos: [infos[0].clone(), infos[1].clone()],
        token_code_id: TOKEN,
        asset_decimals: dec,
        requirements: req,
    };
    let got = w.init("creator", PAIR, &m, None).expect("pair");
    assert!(got == pair);
    let r: haloswap::asset::PairInfo = w.q(&pair, &haloswap::pair::QueryMsg::Pair {}).expect("pair info");
    let p = Pool { pair, lp: r.liquidity_token, a: [infos[0].clone(), infos[1].clone()] };
    if past {
        history(w, &p, kind == 1);
        for i in 0..2 {
            match &p.a[i] {
                AssetInfo::NativeToken { denom } => {
                    let n = w.coins("vault", denom).u128();
                    w.set_coins("vault", denom, 0);
                    w.set_coins(&p.pair, denom, n);
                }
                AssetInfo::Token { contract_addr } => {
                    let n = owns(w, "vault", &p.a[i]);
                    assume(n >= 1);
                    let m = Cw20ExecuteMsg::Transfer { recipient: p.pair.clone(), amount: Uint128::new(n) };
                    assert!(w.exec("vault", contract_addr, &m, &[]).is_ok());
                }
            }
        }
    }
    p
}
/// LP tokens in circulation
pub fn give_lp(w: &mut World, p: &Pool, who: &str, n: u128) {
    if n == 0 {
        return;
    }
    let r = w.exec(&p.pair, &p.lp, &Cw20ExecuteMsg::Mint { recipient: who.to_string(), amount: Uint128::new(n) }, &[]);
    assume(r.is_ok());
}
/// what somebody owns of an asset
pub fn owns(w: &World, who: &str, i: &AssetInfo) -> u128 {
    match i {
        AssetInfo::NativeToken { denom } => w.coins(who, denom).u128(),
        AssetInfo::Token { contract_addr } => {
            let r: cw20::BalanceResponse =
                w.q(contract_addr, &cw20::Cw20QueryMsg::Balance { address: who.to_string() }).expect("balance");
            r.balance.u128()
        }
    }
}
pub fn supply(w: &World, tok: &str) -> u128 {
    let r: cw20::TokenInfoResponse = w.q(tok, &cw20::Cw20QueryMsg::TokenInfo {}).expect("info");
    r.total_supply.u128()
}
pub fn dec(atomics: u128) -> Decimal {
    Decimal::new(Uint128::new(atomics))
}
/// swap `n` of token `i` by sending it to the pair
pub fn swap(
    w: &mut World,
    p: &Pool,
    from: &str,
    i: usize,
    n: u128,
    belief: Option<Decimal>,
    spread: Option<Decimal>,
    to: Option<&str>,
) -> Res<()> {
    let m = Cw20ExecuteMsg::Send {
        contract: p.pair.clone(),
        amount: Uint128::new(n),
        msg: to_binary(&haloswap::pair::Cw20HookMsg::Swap { belief_price: belief, max_spread: spread, to: to.map(|s| s.to_string()) }).unwrap(),
    };
    w.exec(from, &name(&p.a[i]), &m, &[])
}
/// does the text contain this
pub fn has(text: &str, part: &str) -> bool {
    let (t, p) = (text.as_bytes(), part.as_bytes());
    let mut i = 0;
    while i + p.len() <= t.len() {
        let mut j = 0;
        while j < p.len() && t[i + j] == p[j] {
            j += 1;
        }
        if j == p.len() {
            return true;
        }
        i += 1;
    }
    false
}
pub fn attr_num(w: &World, from: &str, key: &str) -> Uint128 {
    let s = w.attr(from, key).expect("attribute");
    s.as_str().try_into().expect("number")
}
/// coins to attach for the declared amounts (coins of amount zero cannot be attached)
pub fn coins_for(p: &Pool, d: [u128; 2]) -> Vec<Coin> {
    let mut v = vec![];
    for i in 0..2 {
        if let AssetInfo::NativeToken { denom } = &p.a[i] {
            if d[i] != 0 {
                v.push(coin(denom, d[i]));
            }
        }
    }
    v
}
pub fn allow(w: &mut World, p: &Pool, from: &str, i: usize, n: u128) {
    if let AssetInfo::Token { contract_addr } = &p.a[i] {
        let m = Cw20ExecuteMsg::IncreaseAllowance { spender: p.pair.clone(), amount: Uint128::new(n), expires: None };
        assert!(w.exec(from, contract_addr, &m, &[]).is_ok());
    }
}
pub fn provide(w: &mut World, p: &Pool, from: &str, d: [u128; 2], swapped: bool, tol: Option<Decimal>, receiver: Option<&str>, funds: &[Coin]) -> Res<()> {
    let (a, b) = (asset(&p.a[0], d[0]), asset(&p.a[1], d[1]));
    let m = haloswap::pair::ExecuteMsg::ProvideLiquidity {
        assets: if swapped { [b, a] } else { [a, b] },
        slippage_tolerance: tol,
        receiver: receiver.map(|s| s.to_string()),
    };
    w.exec(from, &p.pair.clone(), &m, funds)
}
pub fn withdraw(w: &mut World, p: &Pool, from: &str, n: u128) -> Res<()> {
    let m = Cw20ExecuteMsg::Send {
        contract: p.pair.clone(),
        amount: Uint128::new(n),
        msg: to_binary(&haloswap::pair::Cw20HookMsg::WithdrawLiquidity {}).unwrap(),
    };
    w.exec(from, &p.lp.clone(), &m, &[])
}
pub fn lp(w: &World, p: &Pool, who: &str) -> u128 {
    owns(w, who, &token(&p.lp))
}
