//! The factory: settings, pair creation, registry, native decimals.
use crate::env::*;
use crate::setup::*;
use crate::sym::*;
use cosmwasm_std::*;
use haloswap::asset::{AssetInfo, CreatePairRequirements, PairInfo};
use haloswap::factory::*;

/// text of arbitrary lower-case letters (from `d` on: equally many digits in decimal)
pub fn letters(names: &[&str]) -> String {
    let b: Vec<u8> = names.iter().map(|n| any_u8(n, b'd', b'z')).collect();
    String::from_utf8(b).unwrap()
}
pub fn config(w: &World) -> ConfigResponse {
    w.q("factory0", &QueryMsg::Config {}).expect("config")
}
pub fn new_factory(w: &mut World, owner: &str, pair_code_id: u64, token_code_id: u64) {
    assert!(w.init(owner, FACTORY, &InstantiateMsg { pair_code_id, token_code_id }, Some("root")).expect("factory") == "factory0");
}
pub fn set_decimals(w: &mut World, owner: &str, denom: &str, decimals: u8) {
    w.set_coins("factory0", denom, 1);
    let m = ExecuteMsg::AddNativeTokenDecimals { denom: denom.to_string(), decimals };
    assert!(w.exec(owner, "factory0", &m, &[]).is_ok());
}
fn any_code(name: &str) -> u64 {
    any_in(name, 1000, 9999) as u64
}
/// codes of one digit, zero included
fn low_code(name: &str) -> u64 {
    any_in(name, 0, 9) as u64
}
/// the highest codes
fn high_code(name: &str) -> u64 {
    any_in(name, 10u128.pow(19), u64::MAX as u128) as u64
}
fn any_decimals(name: &str) -> u8 {
    any_u8(name, 10, 18)
}
const SENDERS: [&str; 7] = ["alice", "bob", "alic", "alicee", "malice", "factory0", "root"];
fn any_op(w: &mut World, k: usize, at: &str, denom: &str, code: u64) -> ExecuteMsg {
    match k {
        0 => ExecuteMsg::UpdateConfig { owner: None, token_code_id: None, pair_code_id: Some(code) },
        1 => {
            w.set_coins("factory0", denom, 7);
            ExecuteMsg::AddNativeTokenDecimals { denom: denom.to_string(), decimals: 6 }
        }
        _ => ExecuteMsg::MigratePair { contract: at.to_string(), code_id: Some(code) },
    }
}

pub fn c14() {
    let mut w = World::new();
    w.hold = true;
    let owner = "alice".to_string();
    let sender = SENDERS[choice("sender", SENDERS.len())].to_string();
    let (pc, tc) = (any_code("pair code"), any_code("token code"));
    new_factory(&mut w, &owner, pc, tc);
    let c = config(&w);
    check(c.owner == owner && c.pair_code_id == pc && c.token_code_id == tc, "starts with the creator as owner and the given codes");
    w.set_coins("factory0", "uusd", 5);
    let st = w.storage("factory0").0.clone();
    let is_owner = sender == owner;
    match choice("op", 3) {
        0 => {
            let to = [None, Some("bob".to_string()), Some("alice".to_string()), Some("Bob".to_string()), Some(String::new())][choice("new owner", 5)].clone();
            let valid = !matches!(to.as_deref(), Some("Bob") | Some(""));
            let npc = if choice("with pair code", 2) == 1 { Some(high_code("new pair code")) } else { None };
            let ntc = if choice("with token code", 2) == 1 { Some(low_code("new token code")) } else { None };
            let r = w.exec(&sender, "factory0", &ExecuteMsg::UpdateConfig { owner: to.clone(), pair_code_id: npc, token_code_id: ntc }, &[]);
            let c = config(&w);
            if r.is_ok() {
                reach("updated");
                check(is_owner, "settings change only by the owner");
                check(valid, "a new owner must be a valid address");
                let now = to.unwrap_or(owner.clone());
                check(c.owner == now, "owner as asked, or unchanged");
                check(c.pair_code_id == npc.unwrap_or(pc), "pair code as asked, or unchanged");
                check(c.token_code_id == ntc.unwrap_or(tc), "token code as asked, or unchanged");
                check(w.sent("factory0").is_empty(), "an update sends nothing");
                let st2 = w.storage("factory0").0.clone();
                check(st2.len() == st.len() && (0..st.len()).filter(|i| st[*i].1 != st2[*i].1).count() <= 1, "nothing else is stored");
                // who has the rights now
                let code = low_code("later code");
                let m = any_op(&mut w, choice("later op", 3), "pair9", "uusd", code);
                let who = ["alice", "bob", "factory0"][choice("later by", 3)].to_string();
                let r = w.exec(&who, "factory0", &m, &[]);
                check(r.is_ok() == (who == now), "the rights are the current owner's alone");
            } else {
                reach("refused");
                check(!(is_owner && valid), "the owner is not refused");
                check(w.storage("factory0").0 == st, "a refused update leaves the settings");
            }
        }
        1 => {
            let m = ExecuteMsg::AddNativeTokenDecimals { denom: "uusd".to_string(), decimals: any_u8("decimals", 0, 255) };
            let r = w.exec(&sender, "factory0", &m, &[]);
            reach("decimals");
            check(r.is_ok() == is_owner, "decimals are registered by the owner alone");
            if r.is_err() {
                check(w.storage("factory0").0 == st, "a refused registration leaves the state");
            } else {
                let c = config(&w);
                check(c.owner == owner && c.pair_code_id == pc && c.token_code_id == tc, "a registration leaves the settings");
            }
        }
        _ => {
            let at = ["pair7", "anything"][choice("contract", 2)];
            let code = if choice("with code", 2) == 1 { Some(low_code("code")) } else { None };
            let r = w.exec(&sender, "factory0", &ExecuteMsg::MigratePair { contract: at.to_string(), code_id: code }, &[]);
            reach("migration");
            check(r.is_ok() == is_owner, "pairs are migrated by the owner alone");
            check(w.storage("factory0").0 == st, "a migration leaves the factory's state");
            if r.is_ok() {
                let sent = w.sent("factory0");
                check(sent.len() == 1, "one message");
                match &sent[0] {
                    CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr, new_code_id, msg }) => {
                        check(contract_addr == at, "migrates the given contract");
                        check(*new_code_id == code.unwrap_or(pc), "to the given code, or else the configured one");
                        let m: StdResult<haloswap::pair::MigrateMsg> = from_binary(msg);
                        check(m.is_ok(), "with a message the pair understands");
                    }
                    _ => check(false, "a migration message"),
                }
            }
        }
    }
}

pub fn c18() {
    let mut w = World::new();
    let owner = "alice".to_string();
    new_factory(&mut w, &owner, PAIR, TOKEN);
    // three coins, of arbitrary names
    let (a, b, c) = (letters(&["a0", "a1", "a2"]), letters(&["b0", "b1", "b2"]), letters(&["c0", "c1", "c2", "c3"]));
    // the last differs from the first only by the case of one letter
    let d = [format!("ibc/A7{}", a), format!("ibc/A7{}", b), format!("ibc/A7{}", c), format!("ibc/a7{}", a)];
    let same = d[0] == d[1];
    let (d0, d1) = (any_u8("decimals0", 0, 255), any_u8("decimals1", 0, 255));
    let ask = |w: &World, i: usize| -> Res<NativeTokenDecimalsResponse> { w.q("factory0", &QueryMsg::NativeTokenDecimals { denom: d[i].clone() }) };
    // the first is registered
    set_decimals(&mut w, &owner, &d[0], d0);
    check(ask(&w, 0).map(|r| r.decimals).ok() == Some(d0), "the registered value is returned");
    if !same {
        check(ask(&w, 1).is_err(), "an unregistered coin has no decimals");
    }
    // then somebody registers the second
    let sender = SENDERS[choice("sender", SENDERS.len())].to_string();
    let held = any_u128("held");
    w.set_coins("factory0", &d[1], held);
    w.set_coins("factory0", &d[2], any_u128("other held"));
    w.set_coins(&sender, &d[1], any_u128("sender held"));
    let st = w.storage("factory0").0.clone();
    let m = ExecuteMsg::AddNativeTokenDecimals { denom: d[1].clone(), decimals: d1 };
    let r = w.exec(&sender, "factory0", &m, &[]);
    let may = sender == owner;
    if r.is_ok() {
        reach("registered");
        check(may, "only the owner registers");
        check(held > 0, "only coins the factory holds");
        check(ask(&w, 1).map(|r| r.decimals).ok() == Some(d1), "the latest value is returned");
        check(ask(&w, 0).map(|r| r.decimals).ok() == Some(if same { d1 } else { d0 }), "other coins keep theirs");
        check(w.sent("factory0").is_empty(), "nothing is sent");
    } else {
        reach("refused");
        check(!may || held == 0, "the owner is not refused for a held coin");
        check(w.storage("factory0").0 == st, "a refusal leaves the state");
    }
    check(ask(&w, 2).is_err() && ask(&w, 3).is_err(), "a coin never registered has no decimals");
}

/// Assets of the registry harnesses: 0 and 1 tokens, 2 and 3 registered coins; then other
/// spellings of the tokens, a coin named like a token, and unknown ones.
const ASSETS: usize = 11;
fn an_asset(i: usize) -> AssetInfo {
    match i {
        0 => token("token1"),
        1 => token("token2"),
        2 => native("uusd"),
        3 => native("ibc/27Luna"),
        4 => token("TOKEN1"),
        5 => token("Token2"),
        6 => native("token1"),
        7 => native("unknown"),
        8 => token("ghost"),
        9 => token("factory0"),
        _ => token("user"),
    }
}
/// which asset it is, whatever the spelling; none when it has no decimals
fn ident(i: usize) -> Option<usize> {
    match i {
        0 | 4 => Some(0),
        1 | 5 => Some(1),
        2 => Some(2),
        3 => Some(3),
        6 => Some(4),
        _ => None,
    }
}
struct Reg {
    w: World,
    dec: [u8; 5],
}
fn registry() -> Reg {
    let mut w = World::new();
    new_factory(&mut w, "owner", PAIR, TOKEN);
    let dec = [
        any_u8("decimals of token1", 0, 9),
        any_decimals("decimals of token2"),
        any_u8("decimals of uusd", 0, 9),
        any_u8("decimals of uluna", 100, 255),
        any_u8("decimals of the coin token1", 10, 99),
    ];
    for i in 0..2 {
        let t = new_token(&mut w, dec[i], &[("user", 1000)], None);
        assert!(t == ["token1", "token2"][i]);
    }
    set_decimals(&mut w, "owner", "uusd", dec[2]);
    set_decimals(&mut w, "owner", "ibc/27Luna", dec[3]);
    set_decimals(&mut w, "owner", "token1", dec[4]);
    Reg { w, dec }
}
fn create(w: &mut World, a: [AssetInfo; 2], requirements: CreatePairRequirements) -> Res<()> {
    w.exec("user", "factory0", &ExecuteMsg::CreatePair { asset_infos: a, requirements }, &[])
}
pub fn some_requirements(n: &str) -> CreatePairRequirements {
    let l = [vec![], vec!["user"], vec!["user", "user", "bob"]][choice("whitelist", 3)].clone();
    CreatePairRequirements {
        whitelist: l.iter().map(|a| Addr::unchecked(*a)).collect(),
        first_asset_minimum: Uint128::new(any_u128(&format!("first minimum{}", n))),
        second_asset_minimum: Uint128::new(any_u128(&format!("second minimum{}", n))),
    }
}
/// pairs that may exist already, by identity
const OLD: [Option<[usize; 2]>; 8] =
    [None, Some([0, 1]), Some([1, 0]), Some([0, 2]), Some([2, 0]), Some([2, 3]), Some([3, 2]), Some([6, 2])];

pub fn c15() {
    let Reg { mut w, dec } = registry();
    let old = OLD[choice("existing", OLD.len())];
    if let Some([i, j]) = old {
        let r = create(&mut w, [an_asset(i), an_asset(j)], no_requirements());
        check(r.is_ok(), "the first pair is created");
    }
    let (i, j) = (choice("first", ASSETS), choice("second", ASSETS));
    let a = [an_asset(i), an_asset(j)];
    let hold = choice("hold", 2) == 1;
    let req = if hold { some_requirements("") } else { no_requirements() };
    let st = w.storage("factory0").0.clone();
    let n = w.cs.len();
    w.hold = hold;
    let r = create(&mut w, a.clone(), req.clone());
    let known = ident(i).is_some() && ident(j).is_some();
    let taken = match (old, known) {
        (Some([x, y]), true) => {
            let (x, y) = (ident(x), ident(y));
            (ident(i) == x && ident(j) == y) || (ident(i) == y && ident(j) == x)
        }
        _ => false,
    };
    let fine = known && ident(i) != ident(j) && !taken;
    if r.is_ok() {
        reach("created");
        check(ident(i) != ident(j) || !known, "two different assets");
        check(known, "both decimals are known");
        check(!taken, "no pair for these assets exists");
        if !fine {
            return;
        }
        let sent = w.sent("factory0");
        check(sent.len() == 1, "exactly one pair is created");
        match &sent[0] {
            CosmosMsg::Wasm(WasmMsg::Instantiate { admin, code_id, msg, funds, .. }) => {
                check(admin.as_deref() == Some("factory0"), "the factory is its admin");
                check(*code_id == PAIR, "the configured pair code");
                check(funds.is_empty(), "no funds");
                let m: haloswap::pair::InstantiateMsg = from_binary(msg).expect("instantiate message");
                check(m.asset_infos == a, "the assets in the given order");
                check(m.token_code_id == TOKEN, "the configured token code");
                check(m.asset_decimals[0] == dec[ident(i).unwrap()], "the decimals of the first asset");
                check(m.asset_decimals[1] == dec[ident(j).unwrap()], "the decimals of the second asset");
                check(m.requirements == req, "the given requirements");
            }
            _ => check(false, "an instantiation"),
        }
        if !w.hold {
            check(w.cs.len() == n + 2, "one pair and its token come to exist");
        }
    } else {
        reach("refused");
        check(!fine, "two different known assets without a pair are accepted");
        check(w.storage("factory0").0 == st && w.cs.len() == n, "a refusal leaves everything");
    }
}

fn info(w: &World, a: [AssetInfo; 2]) -> Option<PairInfo> {
    w.q("factory0", &QueryMsg::Pair { asset_infos: a }).ok()
}
pub fn c16() {
    let Reg { mut w, dec } = registry();
    // one or two pairs, the assets of each in some order and spelling
    const PAIRS: [[usize; 2]; 12] = [[0, 1], [1, 0], [4, 1], [5, 0], [0, 2], [2, 4], [2, 3], [3, 2], [6, 2], [2, 6], [0, 6], [6, 1]];
    let p = PAIRS[choice("pair", PAIRS.len())];
    let q = [None, Some([2, 3]), Some([0, 3]), Some([5, 2]), Some([6, 0]), Some([6, 3]), Some([0, 1])][choice("other", 7)];
    let before = q.is_some() && choice("other first", 2) == 1;
    let same = |a: [usize; 2], b: [usize; 2]| {
        let (a, b) = ([ident(a[0]), ident(a[1])], [ident(b[0]), ident(b[1])]);
        a == b || a == [b[1], b[0]]
    };
    if let Some(q) = q {
        if same(p, q) {
            return;
        }
        if before {
            check(create(&mut w, [an_asset(q[0]), an_asset(q[1])], no_requirements()).is_ok(), "another pair is created");
        }
    }
    let req = if q.is_none() { some_requirements("") } else { no_requirements() };
    let next = w.next;
    check(create(&mut w, [an_asset(p[0]), an_asset(p[1])], req.clone()).is_ok(), "the pair is created");
    if let (Some(q), false) = (q, before) {
        check(create(&mut w, [an_asset(q[0]), an_asset(q[1])], no_requirements()).is_ok(), "another pair is created");
    }
    // look it up
    let (i, j) = (choice("first", 7), choice("second", 7));
    let r = info(&w, [an_asset(i), an_asset(j)]);
    if same([i, j], p) {
        reach("found");
        let r = match r {
            Some(r) => r,
            None => {
                check(false, "the pair is found");
                return;
            }
        };
        check(r.contract_addr == format!("pair{}", next), "its contract");
        check(r.liquidity_token == format!("token{}", next + 1), "its LP token");
        let low = |i: usize| match an_asset(i) {
            AssetInfo::Token { contract_addr } => token(&contract_addr.to_lowercase()),
            n => n,
        };
        check(r.asset_infos == [low(p[0]), low(p[1])], "its assets in the order of creation");
        check(r.asset_decimals[0] == dec[ident(p[0]).unwrap()] && r.asset_decimals[1] == dec[ident(p[1]).unwrap()], "their decimals");
        check(r.requirements == req, "its requirements");
        // as the pair itself tells
        let own: PairInfo = w.q(&r.contract_addr, &haloswap::pair::QueryMsg::Pair {}).expect("pair");
        check(own == r, "the pair tells the same");
    } else if q.map_or(false, |q| same([i, j], q)) {
        reach("the other");
        check(r.map_or(false, |r| r.contract_addr != format!("pair{}", next)), "the other pair is found as itself");
    } else {
        reach("none");
        check(r.is_none(), "no pair for other assets");
    }
}

/// Coins with arbitrary names.
pub fn c16_names() {
    names(false)
}
pub fn c15_names() {
    names(true)
}
fn names(creating: bool) {
    let mut w = World::new();
    new_factory(&mut w, "owner", PAIR, TOKEN);
    // lengths of the names of the two coins of either pair
    let (l, m) = ([[3, 3], [3, 4], [4, 3], [4, 4]][choice("lengths", 4)], [[3, 3], [3, 4], [4, 3], [4, 4]][choice("other lengths", 4)]);
    let names = [["a0", "a1", "a2", "a3"], ["b0", "b1", "b2", "b3"], ["c0", "c1", "c2", "c3"], ["d0", "d1", "d2", "d3"]];
    let d = [letters(&names[0][..l[0]]), letters(&names[1][..l[1]]), letters(&names[2][..m[0]]), letters(&names[3][..m[1]])];
    if d[0] == d[1] || d[2] == d[3] {
        return;
    }
    for x in &d {
        set_decimals(&mut w, "owner", x, 6);
    }
    let a = [native(&d[0]), native(&d[1])];
    let b = [native(&d[2]), native(&d[3])];
    check(create(&mut w, a.clone(), no_requirements()).is_ok(), "the first pair is created");
    let same = (d[0] == d[2] && d[1] == d[3]) || (d[0] == d[3] && d[1] == d[2]);
    // the registry keeps pairs under the two names one after the other, the smaller first
    let cat = |x: &String, y: &String| if x < y { format!("{}{}", x, y) } else { format!("{}{}", y, x) };
    let clash = !same && cat(&d[0], &d[1]) == cat(&d[2], &d[3]);
    if creating {
        let n = w.cs.len();
        let r = create(&mut w, b.clone(), no_requirements());
        if same {
            reach("same");
            check(r.is_err() && w.cs.len() == n, "no second pair for the same assets");
        } else if clash {
            check(r.is_ok(), "different coins whose names join to the same text can be paired");
        } else {
            reach("different");
            check(r.is_ok() && w.cs.len() == n + 2, "a pair of other coins is created");
        }
        return;
    }
    let found = info(&w, b.clone());
    if same {
        reach("same");
        check(found.map_or(false, |f| f.contract_addr == "pair1"), "found in either order");
        return;
    }
    if clash {
        reach("clash");
        check(found.is_none(), "different coins whose names join to the same text are told apart");
        return;
    }
    reach("different");
    check(found.is_none(), "other coins have no pair");
    let next = w.next;
    check(create(&mut w, b.clone(), no_requirements()).is_ok(), "a pair of other coins is created");
    let f = info(&w, [a[1].clone(), a[0].clone()]);
    check(f.map_or(false, |f| f.contract_addr == "pair1" && f.asset_infos == a), "the first pair stays");
    let f = info(&w, [b[1].clone(), b[0].clone()]);
    check(f.map_or(false, |f| f.contract_addr == format!("pair{}", next) && f.asset_infos == b), "the second pair is itself");
}

/// names chosen so that keys extend each other
fn denom(i: usize) -> String {
    match i % 4 {
        0 => format!("u{}", i / 4),
        1 => format!("u{}a", i / 4),
        2 => format!("u{}a/x", i / 4),
        _ => format!("ibc/{}", i / 4),
    }
}
fn pages(n: usize, starts: &[usize]) {
    let mut w = World::new();
    // pairs that exist in name only
    new_factory(&mut w, "owner", ORACLE, TOKEN);
    let mut made: Vec<[AssetInfo; 2]> = vec![];
    set_decimals(&mut w, "owner", "uusd", 6);
    for i in 0..n {
        let d = denom(i);
        set_decimals(&mut w, "owner", &d, 6);
        let a = if i % 2 == 0 { [native("uusd"), native(&d)] } else { [native(&d), native("uusd")] };
        assert!(create(&mut w, a.clone(), no_requirements()).is_ok());
        made.push(a);
    }
    let list = |w: &World, after: Option<[AssetInfo; 2]>, limit: Option<u32>| -> Vec<PairInfo> {
        let r: PairsResponse = w.q("factory0", &QueryMsg::Pairs { start_after: after, limit }).expect("pairs");
        r.pairs
    };
    // the whole list, from pages of one entry
    let mut all: Vec<PairInfo> = vec![];
    loop {
        let last = all.last().map(|p| p.asset_infos.clone());
        let page = list(&w, last, Some(1));
        check(page.len() <= 1, "a page of one");
        match page.into_iter().next() {
            Some(p) => all.push(p),
            None => break,
        }
        if all.len() > n {
            break;
        }
    }
    check(all.len() == n, "every pair is listed once");
    for a in &made {
        check(all.iter().filter(|p| p.asset_infos == *a).count() == 1, "every pair is listed exactly once");
    }
    // any page
    let start = starts[choice("start", starts.len())];
    let after = if start == 0 {
        None
    } else {
        let a = all[start - 1].asset_infos.clone();
        Some(if choice("swapped", 2) == 1 { [a[1].clone(), a[0].clone()] } else { a })
    };
    let limit = if choice("limit given", 2) == 1 { Some(any_in("limit", 0, u32::MAX as u128) as u32) } else { None };
    let page = list(&w, after, limit);
    let want = limit.unwrap_or(10);
    let want = if want > 30 { 30 } else { want as usize };
    let want = if want > n - start { n - start } else { want };
    reach("paged");
    check(page.len() == want, "as many as asked for, at most 30, shorter only at the end");
    for (i, p) in page.iter().enumerate() {
        check(*p == all[start + i], "the pairs that follow, in the fixed order");
    }
}
pub fn c17() {
    pages(4, &[0, 1, 2, 3, 4])
}
pub fn c17_many() {
    pages(33, &[0, 1, 2, 3, 9, 21, 32, 33])
}
pub fn c17_all() {
    let all: Vec<usize> = (0..34).collect();
    pages(33, &all)
}

/// Migration keeps data.
pub fn c29_factory() {
    let mut w = World::new();
    let owner = SENDERS[choice("owner", 2)].to_string();
    let (pc, tc) = (any_code("pair code"), any_code("token code"));
    new_factory(&mut w, &owner, PAIR, TOKEN);
    let d = any_u8("decimals", 0, 255);
    set_decimals(&mut w, &owner, "uusd", d);
    set_decimals(&mut w, &owner, "ibc/27Luna", 0);
    let pairs = choice("pairs", 3);
    if pairs > 0 {
        let req = some_requirements("");
        assert!(create(&mut w, [native("uusd"), native("ibc/27Luna")], req).is_ok());
    }
    if pairs > 1 {
        // and another pair, registered with decimals that were corrected later
        set_decimals(&mut w, &owner, "uatom", 3);
        assert!(create(&mut w, [native("uusd"), native("uatom")], no_requirements()).is_ok());
        set_decimals(&mut w, &owner, "uatom", 6);
        set_decimals(&mut w, &owner, "uusd", any_u8("later decimals", 0, 255));
    }
    let m = ExecuteMsg::UpdateConfig { owner: None, token_code_id: Some(tc), pair_code_id: Some(pc) };
    assert!(w.exec(&owner, "factory0", &m, &[]).is_ok());
    let ask = |w: &World| {
        (
            config(w),
            w.q::<NativeTokenDecimalsResponse, _>("factory0", &QueryMsg::NativeTokenDecimals { denom: "uusd".to_string() }).ok(),
            w.q::<NativeTokenDecimalsResponse, _>("factory0", &QueryMsg::NativeTokenDecimals { denom: "unknown".to_string() }).is_ok(),
            info(w, [native("ibc/27Luna"), native("uusd")]),
            w.q::<PairsResponse, _>("factory0", &QueryMsg::Pairs { start_after: None, limit: None }).ok(),
        )
    };
    let before = ask(&w);
    migrate(&mut w, "factory0", FACTORY, &MigrateMsg {});
    let after = ask(&w);
    check(before.0 == after.0, "settings kept");
    check(before.1 == after.1 && before.2 == after.2, "decimals kept");
    check(before.3 == after.3 && before.4 == after.4, "registry kept");
    reach("migrated");
}
fn migrate<M: serde::Serialize>(w: &mut World, addr: &str, code: u64, m: &M) {
    // the version that has been running so far
    let from = [None, Some("0.1.0")][choice("from", 2)];
    if let Some(v) = from {
        for (k, b) in w.storage_mut(addr).0.iter_mut() {
            if k == b"contract_info" {
                let t = String::from_utf8(b.clone()).unwrap();
                let at = t.find("\"version\":\"").unwrap() + 11;
                *b = format!("{}{}\"}}", &t[..at], v).into_bytes();
            }
        }
    }
    let st = w.storage(addr).0.clone();
    let who = w.cs.iter().find(|c| c.addr == addr).and_then(|c| c.admin.clone()).expect("admin");
    let m = WasmMsg::Migrate { contract_addr: addr.to_string(), new_code_id: code, msg: to_binary(m).unwrap() };
    let r = w.tx(&who, m.into());
    check(r.is_ok(), "migration succeeds");
    check(w.sent(addr).is_empty(), "migration sends nothing");
    let st2 = w.storage(addr).0.clone();
    let info = b"contract_info".to_vec();
    let strip = |s: Vec<(Vec<u8>, Vec<u8>)>| -> Vec<(Vec<u8>, Vec<u8>)> { s.into_iter().filter(|(k, _)| *k != info).collect() };
    check(strip(st) == strip(st2), "nothing but the version is rewritten");
}
pub fn c29_pair() {
    let mut w = World::new();
    let k = choice("kinds", 4);
    let r = [any_u128("r0"), any_u128("r1")];
    let dec = [any_decimals("decimals0"), any_decimals("decimals1")];
    let p = new_pool(&mut w, Kinds(k), dec, &[("pair", r)], some_requirements(""));
    give_lp(&mut w, &p, "carol", any_u128("S"));
    let i = w.cs.iter().position(|c| c.addr == p.pair).unwrap();
    w.cs[i].admin = Some("root".to_string());
    let ask = |w: &World| {
        (
            w.q::<PairInfo, _>(&p.pair, &haloswap::pair::QueryMsg::Pair {}).ok(),
            w.q::<haloswap::pair::PoolResponse, _>(&p.pair, &haloswap::pair::QueryMsg::Pool {}).ok(),
        )
    };
    let before = ask(&w);
    migrate(&mut w, &p.pair, PAIR, &haloswap::pair::MigrateMsg {});
    let after = ask(&w);
    check(before.0.is_some() && before.0 == after.0, "pair info kept");
    check(before.1.is_some() && before.1 == after.1, "pool kept");
    reach("migrated");
}
pub fn c29_router() {
    let mut w = World::new();
    let f = ["factory0", "f", "halo1factoryfactoryfactoryfactoryfactory"][choice("factory", 3)].to_string();
    let r = w.init("creator", ROUTER, &haloswap::router::InstantiateMsg { halo_factory: f.clone() }, Some("root")).expect("router");
    migrate(&mut w, &r, ROUTER, &haloswap::router::MigrateMsg {});
    let c: haloswap::router::ConfigResponse = w.q(&r, &haloswap::router::QueryMsg::Config {}).expect("config");
    check(c.halo_factory == f, "factory kept");
    reach("migrated");
}
