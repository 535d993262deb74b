//! C27: what an asset is, wherever assets are compared, converted, looked up and paid out.
use crate::env::*;
use crate::setup::*;
use crate::sym::*;
use cosmwasm_std::*;
use cw20::Cw20ExecuteMsg;
use haloswap::asset::*;

const A: [&str; 5] = ["a0", "a1", "a2", "a3", "a4"];
const B: [&str; 5] = ["b0", "b1", "b2", "b3", "b4"];
const C: [&str; 5] = ["c0", "c1", "c2", "c3", "c4"];
const D: [&str; 5] = ["d0", "d1", "d2", "d3", "d4"];
fn text(names: &[&str], lo: u8, hi: u8) -> String {
    let b: Vec<u8> = names.iter().map(|n| any_u8(n, lo, hi)).collect();
    String::from_utf8(b).unwrap()
}
fn info(kind: usize, s: &str) -> AssetInfo {
    if kind == 0 {
        token(s)
    } else {
        native(s)
    }
}
/// same length, same bytes; as one formula
fn same(a: &str, b: &str) -> bool {
    let mut e = a.len() == b.len();
    if e {
        for (x, y) in a.bytes().zip(b.bytes()) {
            e = and(e, x == y);
        }
    }
    e
}
fn iff(a: bool, b: bool) -> bool {
    or(and(a, b), and(!a, !b))
}
/// two assets of any kinds and names
pub fn c27_equal() {
    let (n, m) = (1 + choice("length", 5), 1 + choice("other length", 5));
    let (k, l) = (choice("kind", 2), choice("other kind", 2));
    // tokens: small letters, their own lower case; coins: any printable characters
    let s = if k == 0 { text(&A[..n], b'a', b'z') } else { text(&C[..n], 0x21, 0x7e) };
    let t = if l == 0 { text(&B[..m], b'a', b'z') } else { text(&D[..m], 0x21, 0x7e) };
    let (x, y) = (info(k, &s), info(l, &t));
    let want = and(k == l, same(&s, &t));
    reach("compared");
    check(iff(x.equal(&y), want), "equal exactly when of one kind and one name");
    check(iff(y.equal(&x), want), "equal exactly when of one kind and one name");
    check(iff(x == y, want), "the operator agrees");
    let api = ChainApi;
    let (xr, yr) = (x.to_raw(&api), y.to_raw(&api));
    match (xr, yr) {
        (Ok(xr), Ok(yr)) => {
            check(iff(xr.equal(&yr), want), "stored forms are equal exactly when the assets are");
            check(iff(yr.equal(&xr), want), "stored forms are equal exactly when the assets are");
            check(iff(xr == yr, want), "the operator agrees on stored forms");
        }
        _ => check(false, "every asset has a stored form"),
    }
}
/// two stored assets, whatever bytes an address consists of
pub fn c27_raw() {
    let (n, m) = (1 + choice("length", 5), 1 + choice("other length", 5));
    let (k, l) = (choice("kind", 2), choice("other kind", 2));
    let raw = |kind: usize, t: String| {
        if kind == 0 {
            AssetInfoRaw::Token { contract_addr: CanonicalAddr::from(t.as_bytes()) }
        } else {
            AssetInfoRaw::NativeToken { denom: t }
        }
    };
    let s = text(&A[..n], 0, 0x7f);
    let t = text(&B[..m], 0, 0x7f);
    let want = and(k == l, same(&s, &t));
    let (x, y) = (raw(k, s), raw(l, t));
    reach("compared");
    check(iff(x.equal(&y), want), "stored forms are equal exactly when of one kind and one name");
    check(iff(y.equal(&x), want), "stored forms are equal exactly when of one kind and one name");
    check(iff(x == y, want), "the operator agrees on stored forms");
}
/// an asset and itself, in any letters
pub fn c27_self() {
    let n = 1 + choice("length", 4);
    let s = text(&A[..n], 0x21, 0x7e);
    let x = info(1, &s);
    check(x.equal(&x.clone()), "an asset equals itself");
    check(!x.equal(&token(&s)) && !token(&s).equal(&x), "a coin never equals a token of its name");
    check(x != token(&s), "a coin never equals a token of its name");
    let r = x.to_raw(&ChainApi).ok();
    check(r.as_ref().map_or(false, |r| r.as_bytes() == s.as_bytes()), "a coin is stored by its name");
    let y = r.and_then(|r| r.to_normal(&ChainApi).ok());
    check(y.map_or(false, |y| matches!(&y, AssetInfo::NativeToken { denom } if *denom == s)), "a coin's name survives storage");
}
/// storage and back
pub fn c27_stored() {
    let n = [1, 2, 3, 5][choice("length", 4)];
    let k = choice("kind", 2);
    let s = if k == 0 { text(&A[..n], b'a', b'z') } else { text(&C[..n], 0x23, 0x5b) };
    let v = any_u128("amount");
    let x = Asset { info: info(k, &s), amount: Uint128::new(v) };
    let api = ChainApi;
    let r = x.to_raw(&api);
    check(r.is_ok(), "every asset has a stored form");
    let r = r.unwrap();
    reach("stored");
    check(r.amount.u128() == v, "the stored amount");
    let j: Option<AssetRaw> = to_vec(&r).ok().and_then(|j| from_slice(&j).ok());
    check(j.as_ref().map_or(false, |j| *j == r), "the stored form survives being written");
    match (&r.info, k) {
        (AssetInfoRaw::Token { contract_addr }, 0) => {
            check(api.addr_humanize(contract_addr).map_or(false, |a| a.as_str() == s), "stored as the token's address");
        }
        (AssetInfoRaw::NativeToken { denom }, 1) => check(*denom == s, "stored as the coin's name"),
        _ => check(false, "the kind is kept"),
    }
    let y = r.to_normal(&api);
    check(y.is_ok(), "every stored asset is an asset");
    let y = y.unwrap();
    check(y.amount.u128() == v, "the amount survives");
    check(y.info == x.info, "kind and name survive");
    let i = x.info.to_raw(&api).and_then(|r| r.to_normal(&api));
    check(i.map_or(false, |i| i == x.info), "kind and name survive");
    check(x.is_native_token() == (k == 1) && x.info.is_native_token() == (k == 1), "its kind is told");
    check(x.info.to_string() == s, "an asset is shown by its name");
}
/// a token is one asset however its address is spelled
pub fn c27_spelled() {
    let n = 1 + choice("length", 3);
    let s = text(&A[..n], b'A', b'z');
    for b in s.bytes() {
        assume(b <= b'Z' || b >= b'a');
    }
    let low: Vec<u8> = s.bytes().map(|b| if b <= b'Z' { b + 32 } else { b }).collect();
    let low = String::from_utf8(low).unwrap();
    let (x, y) = (token(&s).to_raw(&ChainApi).unwrap(), token(&low).to_raw(&ChainApi).unwrap());
    reach("spelled");
    check(x.equal(&y) && x == y, "stored forms know a token by its address, not its spelling");
    check(x.to_normal(&ChainApi).map_or(false, |i| i == token(&low)), "read back as the address itself");
    check(x.as_bytes() == y.as_bytes(), "keyed by the address");
}
/// paying out
pub fn c27_paid() {
    let v = any_u128("amount");
    let k = choice("kind", 2);
    let s = ["token0", "uusd", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "x"][choice("name", 4)];
    let to = ["bob", "user", "token0", "halo1aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"][choice("to", 4)];
    let x = Asset { info: info(k, s), amount: Uint128::new(v) };
    let sub = choice("as sub-message", 2) == 1;
    let m = if sub {
        match x.into_submsg(Addr::unchecked(to)) {
            Ok(m) => {
                check(m.reply_on == ReplyOn::Never, "no reply asked");
                check(m.gas_limit.is_none(), "no gas limit");
                m.msg
            }
            Err(_) => {
                check(false, "every asset can be paid");
                return;
            }
        }
    } else {
        match x.into_msg(Addr::unchecked(to)) {
            Ok(m) => m,
            Err(_) => {
                check(false, "every asset can be paid");
                return;
            }
        }
    };
    reach("paid");
    match (m, k) {
        (CosmosMsg::Bank(BankMsg::Send { to_address, amount }), 1) => {
            check(to_address == to, "to the recipient");
            check(amount.len() == 1 && amount[0].denom == s, "that coin alone");
            check(amount[0].amount.u128() == v, "exactly the amount");
        }
        (CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }), 0) => {
            check(contract_addr == s && funds.is_empty(), "told to that token, without coins");
            match from_binary(&msg) {
                Ok(Cw20ExecuteMsg::Transfer { recipient, amount }) => {
                    check(recipient == to, "to the recipient");
                    check(amount.u128() == v, "exactly the amount");
                }
                _ => check(false, "a transfer"),
            }
        }
        _ => check(false, "coins are sent by the bank, tokens by their contract"),
    }
}
const HOLDERS: [&str; 3] = ["bob", "pair7", "token0"];
/// looking up what an account holds, and the decimals
pub fn c27_held() {
    let held = [any_u128("held0"), any_u128("held1"), any_u128("held2")];
    let named = [any_u128("named0"), any_u128("named1"), any_u128("named2")];
    let coins = [any_u128("coins0"), any_u128("coins1"), any_u128("coins2")];
    let (dt, dn, dc) = (any_u8("token decimals", 0, 18), any_u8("named decimals", 0, 255), any_u8("coin decimals", 0, 255));
    let mut w = World::new();
    let list: Vec<(&str, u128)> = (0..3).map(|i| (HOLDERS[i], held[i])).collect();
    new_token(&mut w, dt, &list, None);
    let m = haloswap::factory::InstantiateMsg { pair_code_id: 7, token_code_id: TOKEN };
    let f = w.init("owner", FACTORY, &m, None).expect("factory");
    for (d, x) in [("token0", dn), ("uusd", dc)] {
        w.set_coins(&f, d, 1);
        let m = haloswap::factory::ExecuteMsg::AddNativeTokenDecimals { denom: d.to_string(), decimals: x };
        assert!(w.exec("owner", &f, &m, &[]).is_ok());
    }
    for i in 0..3 {
        w.set_coins(HOLDERS[i], "token0", named[i]);
        w.set_coins(HOLDERS[i], "uusd", coins[i]);
    }
    let a = choice("asset", 5);
    let i = choice("holder", 3);
    let x = [token("token0"), native("token0"), native("uusd"), native("uatom"), token("uusd")][a].clone();
    let n = w.asking(|q| x.query_pool(q, &ChainApi, Addr::unchecked(HOLDERS[i])).ok());
    let d = w.asking(|q| x.query_decimals(Addr::unchecked(f.as_str()), q).ok());
    let wn = [Some(held[i]), Some(named[i]), Some(coins[i]), Some(0), None][a];
    let wd = [Some(dt), Some(dn), Some(dc), None, None][a];
    reach("looked up");
    check(n.is_some() == wn.is_some(), "a balance exactly for existing assets");
    if let (Some(n), Some(w)) = (n, wn) {
        check(n.u128() == w, "that account's balance of that very asset");
    }
    check(d.is_some() == wd.is_some(), "decimals exactly for known assets");
    if let (Some(n), Some(w)) = (d, wd) {
        check(n == w, "that very asset's decimals");
    }
}
/// what a pair stores about itself
pub fn c27_pair() {
    let (k, l) = (choice("kind", 2), choice("other kind", 2));
    let mut w = World::new();
    let held = [any_u128("held0"), any_u128("held1")];
    let coins = [any_u128("coins0"), any_u128("coins1")];
    for i in 0..2 {
        let t = new_token(&mut w, 6, &[("pair7", held[i]), ("bob", 5)], None);
        w.set_coins("pair7", &t, coins[i]);
    }
    let swapped = choice("order", 2);
    let i0 = info(k, ["token0", "token1"][swapped]);
    let i1 = info(l, ["token1", "token0"][swapped]);
    let (d0, d1) = (any_u8("d0", 0, 255), any_u8("d1", 0, 255));
    let (m0, m1) = (any_u128("m0"), any_u128("m1"));
    let list: Vec<Addr> = (0..choice("members", 3)).map(|i| Addr::unchecked(["alice", "bob"][i])).collect();
    let req = CreatePairRequirements { whitelist: list, first_asset_minimum: Uint128::new(m0), second_asset_minimum: Uint128::new(m1) };
    let api = ChainApi;
    let raw = PairInfoRaw {
        asset_infos: [i0.to_raw(&api).unwrap(), i1.to_raw(&api).unwrap()],
        contract_addr: api.addr_canonicalize("pair7").unwrap(),
        liquidity_token: api.addr_canonicalize("token8").unwrap(),
        asset_decimals: [d0, d1],
        requirements: req.clone(),
    };
    match raw.to_normal(&api) {
        Ok(p) => {
            reach("read");
            check(p.asset_infos[0] == i0 && p.asset_infos[1] == i1, "both assets, in order");
            check(p.contract_addr == "pair7" && p.liquidity_token == "token8", "both addresses");
            check(p.asset_decimals[0] == d0 && p.asset_decimals[1] == d1, "both decimals, in order");
            check(p.requirements.whitelist == req.whitelist, "the whitelist");
            check(p.requirements.first_asset_minimum.u128() == m0 && p.requirements.second_asset_minimum.u128() == m1, "both minimums, in order");
        }
        Err(_) => check(false, "a stored pair can be read"),
    }
    let n0 = if k == 0 { held[swapped] } else { coins[swapped] };
    let n1 = if l == 0 { held[1 - swapped] } else { coins[1 - swapped] };
    match w.asking(|q| raw.query_pools(q, &api, Addr::unchecked("pair7")).ok()) {
        Some(p) => {
            check(p[0].info == i0 && p[1].info == i1, "reserves of both assets, in order");
            check(p[0].amount.u128() == n0 && p[1].amount.u128() == n1, "what the pair holds of each");
        }
        None => check(false, "reserves can be looked up"),
    }
}

/// a pair of token0 and a coin; the outcome of one operation in numbers (empty when refused)
fn pool_of(denom: &str, op: usize, order: usize, look: usize, v: [u128; 5]) -> Vec<u128> {
    use haloswap::pair::*;
    let [x, y, n, l, m] = v;
    let mut w = World::new();
    new_token(&mut w, 6, &[("pair1", x), ("user", n)], None);
    let c = native(denom);
    let t = token("token0");
    let a = if order == 0 { [t.clone(), c.clone()] } else { [c.clone(), t.clone()] };
    let msg = InstantiateMsg { asset_infos: a.clone(), token_code_id: TOKEN, asset_decimals: [6, 6], requirements: no_requirements() };
    assert!(w.init("creator", PAIR, &msg, None).expect("pair") == "pair1");
    let p = Pool { pair: "pair1".to_string(), lp: "token2".to_string(), a: a.clone() };
    w.set_coins("pair1", denom, y);
    w.set_coins("user", denom, n);
    assume(l > 0);
    give_lp(&mut w, &p, "user", l);
    // look-alikes: of the other kind and the same name, or of the pair's own kind
    let (qt, qc) = match look {
        0 => (t.clone(), c.clone()),
        1 => (native("token0"), c.clone()),
        _ => (t.clone(), token(denom)),
    };
    let mut out = vec![];
    match op {
        0 | 1 => {
            let r: Res<SimulationResponse> = w.q("pair1", &QueryMsg::Simulation { offer_asset: asset(if op == 0 { &qt } else { &qc }, n) });
            if let Ok(r) = r {
                out = vec![r.return_amount.u128(), r.spread_amount.u128(), r.commission_amount.u128()];
            }
        }
        2 | 3 => {
            let r: Res<ReverseSimulationResponse> = w.q("pair1", &QueryMsg::ReverseSimulation { ask_asset: asset(if op == 2 { &qt } else { &qc }, n) });
            if let Ok(r) = r {
                out = vec![r.offer_amount.u128(), r.spread_amount.u128(), r.commission_amount.u128()];
            }
        }
        _ => {
            let r = match op {
                4 => swap(&mut w, &p, "user", order, n, None, None, None),
                5 => {
                    allow(&mut w, &p, "user", order, n);
                    let q = if order == 0 { [qt.clone(), qc.clone()] } else { [qc.clone(), qt.clone()] };
                    let ex = ExecuteMsg::ProvideLiquidity {
                        assets: [asset(&q[0], if order == 0 { n } else { m }), asset(&q[1], if order == 0 { m } else { n })],
                        slippage_tolerance: None,
                        receiver: None,
                    };
                    let funds = if m > 0 { vec![crate::setup::coin(denom, m)] } else { vec![] };
                    w.exec("user", "pair1", &ex, &funds)
                }
                _ => withdraw(&mut w, &p, "user", m),
            };
            if r.is_ok() {
                for who in ["user", "pair1"] {
                    out.push(owns(&w, who, &t));
                    out.push(owns(&w, who, &c));
                }
                out.push(lp(&w, &p, "user"));
                out.push(supply(&w, &p.lp));
            }
        }
    }
    out
}
fn numbers() -> [u128; 5] {
    [any_u128("x"), any_u128("y"), any_u128("n"), any_u128("lp"), any_u128("m")]
}
/// a pair of a token and a coin named like it works as any other
pub fn c27_namesake() {
    let v = numbers();
    let op = choice("op", 7);
    let order = choice("order", 2);
    let a = pool_of("uusd", op, order, 0, v);
    let b = pool_of("token0", op, order, 0, v);
    if a.is_empty() {
        reach("refused");
    } else {
        reach("carried out");
    }
    check(a.len() == b.len(), "carried out alike whatever the coin is called");
    for (p, q) in a.iter().zip(b.iter()) {
        check(p == q, "the same amounts whatever the coin is called");
    }
}
/// an asset of another kind and the same name is foreign to a pair
pub fn c27_foreign() {
    let v = numbers();
    let op = [0, 1, 2, 3, 5][choice("op", 5)];
    let order = choice("order", 2);
    // the look-alike must be the asset asked about
    let look = match op {
        0 | 2 => 1,
        1 | 3 => 2,
        _ => 1 + choice("look", 2),
    };
    let a = pool_of("uusd", op, order, look, v);
    reach("asked");
    check(a.is_empty(), "foreign assets are refused");
}
