//! The token contract.
use crate::env::*;
use crate::setup::*;
use crate::sym::*;
use cosmwasm_std::*;
use cw20::*;
use haloswap::token::InstantiateMsg;

fn start(w: &mut World, m: &InstantiateMsg) -> Res<String> {
    w.init("creator", TOKEN, m, None)
}
fn info(w: &World, t: &str) -> TokenInfoResponse {
    w.q(t, &Cw20QueryMsg::TokenInfo {}).expect("info")
}
fn msg(name: &str, symbol: &str, decimals: u8) -> InstantiateMsg {
    InstantiateMsg { name: name.to_string(), symbol: symbol.to_string(), decimals, initial_balances: vec![], mint: None }
}
fn decided(w: &mut World, m: InstantiateMsg, fine: bool) {
    let r = start(w, &m);
    if let Ok(t) = r {
        reach("created");
        check(fine, "only with valid metadata");
        let i = info(w, &t);
        check(i.name == m.name && i.symbol == m.symbol && i.decimals == m.decimals, "reports that metadata");
        check(i.total_supply.is_zero(), "without supply");
    } else {
        reach("refused");
        check(!fine, "valid metadata is not refused");
        check(w.cs.is_empty(), "no token comes to exist");
    }
}
/// names of every length
pub fn c23_name() {
    let mut w = World::new();
    let n = choice("length", 55);
    let mut s = String::new();
    // some letters of more than one byte
    let wide = choice("wide letters", 4);
    while s.len() < n {
        if s.is_empty() && n > 0 && choice("first letter", 2) == 1 {
            let c = any_u8("letter", 0x20, 0x7e);
            assume(and(c != b'"', c != b'\\'));
            s.push(c as char);
        } else if wide == 1 && s.len() + 2 <= n {
            s.push('\u{e9}');
        } else if wide == 2 && s.len() + 3 <= n {
            s.push('\u{20ac}');
        } else if wide == 3 && s.len() + 4 <= n {
            s.push('\u{1f600}');
        } else {
            s.push('x');
        }
    }
    check(s.len() == n, "as long as meant");
    let fine = n >= 3 && n <= 50;
    decided(&mut w, msg(&s, "TOK", 6), fine);
}
/// symbols of every length with an arbitrary byte in an arbitrary place
pub fn c23_symbol() {
    let mut w = World::new();
    let n = choice("length", 15);
    let at = choice("place", 14);
    if at > 0 && at >= n {
        return;
    }
    let c = any_u8("letter", 0x20, 0x7e);
    assume(and(c != b'"', c != b'\\'));
    let b: Vec<u8> = (0..n).map(|i| if i == at { c } else { [b'A', b'z', b'-', b'Z', b'a'][i % 5] }).collect();
    let s = String::from_utf8(b).unwrap();
    let letter = or(and(c >= b'A', c <= b'Z'), and(c >= b'a', c <= b'z'));
    let fine = n >= 3 && n <= 12;
    let fine = and(fine, or(letter, c == b'-'));
    decided(&mut w, msg("some token", &s, 6), fine);
}
/// two arbitrary bytes, and characters of several bytes
pub fn c23_symbols() {
    let mut w = World::new();
    let s = match choice("kind", 4) {
        0 => {
            let (c, d) = (any_u8("letter", b'!' + 2, b'[' - 1), any_u8("letter1", b']', 0x7e));
            String::from_utf8(vec![c, b'x', d]).unwrap()
        }
        1 => "T\u{e9}K".to_string(),
        2 => "TO\u{20ac}".to_string(),
        _ => "\u{212a}\u{212a}\u{212a}".to_string(),
    };
    let fine = s.bytes().all(|c| (c >= b'A' && c <= b'Z') || (c >= b'a' && c <= b'z') || c == b'-');
    decided(&mut w, msg("some token", &s, 6), fine);
}
pub fn c23_decimals() {
    let mut w = World::new();
    let d = any_u8("decimals", 0, 255);
    decided(&mut w, msg("some token", "TOK", d), d <= 18);
}
/// initial balances, minter and cap
pub fn c23_supply() {
    let mut w = World::new();
    let who = [
        vec![],
        vec!["alice"],
        vec!["alice", "bob"],
        vec!["bob", "alice"],
        vec!["alice", "alice"],
        vec!["Alice"],
        vec!["alice", ""],
        vec!["alice", "bob", "carol"],
        vec!["alice", "bob", "alice"],
    ][choice("holders", 9)]
    .clone();
    let n = [any_u128("n0"), any_u128("n1"), any_u128("n2")];
    let minter = [None, Some("minter"), Some("Minter"), Some("alice"), Some("")][choice("minter", 5)];
    let cap = if minter.is_some() && choice("with cap", 2) == 1 { Some(any_u128("cap")) } else { None };
    let m = InstantiateMsg {
        name: "some token".to_string(),
        symbol: "TOK".to_string(),
        decimals: 8,
        initial_balances: (0..who.len()).map(|i| Cw20Coin { address: who[i].to_string(), amount: Uint128::new(n[i]) }).collect(),
        mint: minter.map(|a| MinterResponse { minter: a.to_string(), cap: cap.map(Uint128::new) }),
    };
    let low = |a: &str| !a.is_empty() && a.bytes().all(|b| b < b'A' || b > b'Z');
    let twice = (0..who.len()).any(|i| who[..i].contains(&who[i]));
    let valid = who.iter().all(|a| low(a)) && minter.map_or(true, low) && !twice;
    let mut sum = z(0);
    for i in 0..who.len() {
        sum = sum + z(n[i]);
    }
    let fits = match cap {
        Some(c) => sum.le(z(c)),
        None => sum.lt(pow2(128)),
    };
    let r = start(&mut w, &m);
    if let Ok(t) = r {
        reach("created");
        check(valid, "only valid addresses without duplicates");
        check(fits, "only within the cap");
        let i = info(&w, &t);
        check(z(i.total_supply.u128()).eq(sum), "the supply is the sum of the balances");
        check(i.decimals == 8, "the decimals");
        for (k, a) in who.iter().enumerate() {
            check(owns(&w, a, &token(&t)) == n[k], "exactly those balances");
        }
        for a in ["alice", "bob", "carol", "creator", "minter"] {
            if !who.contains(&a) {
                check(owns(&w, a, &token(&t)) == 0, "nobody else holds any");
            }
        }
        let q: Option<MinterResponse> = w.q(&t, &Cw20QueryMsg::Minter {}).expect("minter");
        match (q, minter) {
            (Some(q), Some(a)) => {
                check(q.minter == a, "that minter");
                check(q.cap.is_some() == cap.is_some(), "a cap if given");
                if let (Some(x), Some(y)) = (q.cap, cap) {
                    check(x.u128() == y, "that cap");
                }
            }
            (None, None) => {}
            _ => check(false, "that minter"),
        }
    } else {
        reach("refused");
        check(or(!valid, !fits), "a valid token is not refused");
    }
}

const WHO: [&str; 3] = ["alice", "bob", "sink"];
/// One operation on a token held by three accounts, one of them a contract.
fn operation(op: usize) {
    let mut w = World::new();
    w.add("sink", SINK);
    let n = [any_u128("n0"), any_u128("n1"), any_u128("n2")];
    let extra = any_u128("n3");
    let minter = ["alice", "minter", ""][choice("minter", 3)];
    let cap = if !minter.is_empty() && choice("with cap", 2) == 1 { Some(any_u128("cap")) } else { None };
    let m = InstantiateMsg {
        name: "some token".to_string(),
        symbol: "TOK".to_string(),
        decimals: 6,
        initial_balances: vec![
            Cw20Coin { address: "alice".to_string(), amount: Uint128::new(n[0]) },
            Cw20Coin { address: "bob".to_string(), amount: Uint128::new(n[1]) },
            Cw20Coin { address: "sink".to_string(), amount: Uint128::new(n[2]) },
            Cw20Coin { address: "carol".to_string(), amount: Uint128::new(extra) },
        ],
        mint: if minter.is_empty() {
            None
        } else {
            Some(MinterResponse { minter: minter.to_string(), cap: cap.map(Uint128::new) })
        },
    };
    let t = match start(&mut w, &m) {
        Ok(t) => t,
        Err(_) => return,
    };
    let total = supply(&w, &t);
    let a = any_u128("amount");
    let amount = Uint128::new(a);
    let sender = ["alice", "bob", "minter"][choice("sender", 3)];
    let (owner, other) = (choice("owner", 3), choice("recipient", 3));
    // allowances: the owner's for the sender
    w.height = 12_345;
    let spends = op >= 4 && op <= 6;
    if !spends && owner != 0 {
        return;
    }
    let owner = WHO[owner];
    let other = WHO[other];
    let given = any_u128("allowance");
    let expired = spends && choice("expired", 2) == 1;
    if spends && owner != sender {
        let expires = if expired { Some(Expiration::AtHeight(12_346)) } else { [None, Some(Expiration::AtHeight(12_347))][choice("expiry", 2)] };
        let m = Cw20ExecuteMsg::IncreaseAllowance { spender: sender.to_string(), amount: Uint128::new(given), expires };
        assert!(w.exec(owner, &t, &m, &[]).is_ok());
        w.height = 12_345 + expired as u64;
    } else if expired {
        return;
    }
    let payload = Binary::from(b"hi".as_slice());
    let o = || owner.to_string();
    let r = || other.to_string();
    let (m, from, to): (Cw20ExecuteMsg, Option<&str>, Option<&str>) = match op {
        0 => (Cw20ExecuteMsg::Transfer { recipient: r(), amount }, Some(sender), Some(other)),
        1 => (Cw20ExecuteMsg::Send { contract: r(), amount, msg: payload.clone() }, Some(sender), Some(other)),
        2 => (Cw20ExecuteMsg::Burn { amount }, Some(sender), None),
        3 => (Cw20ExecuteMsg::Mint { recipient: r(), amount }, None, Some(other)),
        4 => (Cw20ExecuteMsg::TransferFrom { owner: o(), recipient: r(), amount }, Some(owner), Some(other)),
        5 => (Cw20ExecuteMsg::SendFrom { owner: o(), contract: r(), amount, msg: payload.clone() }, Some(owner), Some(other)),
        6 => (Cw20ExecuteMsg::BurnFrom { owner: o(), amount }, Some(owner), None),
        7 => (Cw20ExecuteMsg::IncreaseAllowance { spender: r(), amount, expires: None }, None, None),
        _ => (Cw20ExecuteMsg::DecreaseAllowance { spender: r(), amount, expires: None }, None, None),
    };
    let res = w.exec(sender, &t, &m, &[]);
    let everyone = ["alice", "bob", "sink", "carol", "minter"];
    let had = |x: &str| match x {
        "alice" => z(n[0]),
        "bob" => z(n[1]),
        "sink" => z(n[2]),
        "carol" => z(extra),
        _ => z(0),
    };
    let allowance = |w: &World, x: &str, y: &str| -> AllowanceResponse {
        w.q(&t, &Cw20QueryMsg::Allowance { owner: x.to_string(), spender: y.to_string() }).expect("allowance")
    };
    let moves = op <= 6;
    if res.is_ok() {
        reach(["transfer", "send", "burn", "mint", "transfer from", "send from", "burn from", "increase", "decrease"][op]);
        let mut sum = z(0);
        for x in everyone {
            let mut want = had(x);
            if moves && from == Some(x) {
                want = want - z(a);
            }
            if moves && to == Some(x) {
                want = want + z(a);
            }
            let is = z(owns(&w, x, &token(&t)));
            check(is.eq(want), "exactly the stated amount moves, other balances stay");
            sum = sum + is;
        }
        let now = supply(&w, &t);
        check(z(now).eq(sum), "the supply is the sum of the balances");
        if op == 3 {
            check(sender == minter, "only the minter mints");
            if let Some(c) = cap {
                check(now <= c, "minting stays within the cap");
            }
            check(z(now).eq(z(total) + z(a)), "the supply grows by what is minted");
        } else if op == 2 || op == 6 {
            check(z(now).eq(z(total) - z(a)), "the supply shrinks by what is burnt");
        } else {
            check(now == total, "the supply changes by minting and burning alone");
        }
        if let Some(x) = from {
            check(had(x).ge(z(a)), "nobody spends what they do not have");
        }
        if spends {
            check(owner != sender, "spending for oneself needs no allowance and has none");
            check(given >= a, "spending for another within the allowance");
            check(!expired, "not with an expired allowance");
            let left = allowance(&w, owner, sender);
            check(z(left.allowance.u128()).eq(z(given) - z(a)), "the allowance is consumed");
        }
        // a notified contract learns the amount
        let sent = w.sent(&t);
        if op == 1 || op == 5 {
            check(sent.len() == 1, "one notification");
            match sent.get(0) {
                Some(CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds })) => {
                    check(contract_addr == other && funds.is_empty(), "to the recipient");
                    match from_binary::<haloswap::router::ExecuteMsg>(msg) {
                        Ok(haloswap::router::ExecuteMsg::Receive(m)) => {
                            check(m.sender == sender, "naming the sender");
                            check(m.amount.u128() == a, "naming the amount");
                            check(m.msg == payload, "passing on the message");
                        }
                        _ => check(false, "as a token notification"),
                    }
                }
                _ => check(false, "to the recipient"),
            }
        } else {
            check(sent.is_empty(), "nothing is sent");
        }
        if op == 7 || op == 8 {
            check(sender != other, "no allowance for oneself");
            let v = allowance(&w, sender, other).allowance.u128();
            check(v == if op == 7 { a } else { 0 }, "the allowance is as given");
        }
        let q: Option<MinterResponse> = w.q(&t, &Cw20QueryMsg::Minter {}).expect("minter");
        check(q.map_or(String::new(), |q| q.minter) == minter, "the minter stays");
    } else {
        reach("refused");
        for x in everyone {
            check(z(owns(&w, x, &token(&t))).eq(had(x)), "a refusal leaves the balances");
        }
        check(supply(&w, &t) == total, "a refusal leaves the supply");
        // what should work does (the library refuses amounts of zero)
        let fits = z(total) + z(a);
        let able = match op {
            0 => had(sender).ge(z(a)),
            1 => and(other == "sink", had(sender).ge(z(a))),
            2 => had(sender).ge(z(a)),
            3 => and(sender == minter, fits.le(cap.map_or(pow2(128) - z(1), z))),
            4 => and(owner != sender && !expired, and(given >= a, had(owner).ge(z(a)))),
            5 => and(owner != sender && !expired && other == "sink", and(given >= a, had(owner).ge(z(a)))),
            6 => and(owner != sender && !expired, and(given >= a, had(owner).ge(z(a)))),
            7 => sender != other,
            _ => false,
        };
        check(or(!able, a == 0), "a holder's rightful operation is not refused");
    }
}
pub fn c24_held() {
    operation(choice("op", 4));
}
pub fn c24_allowed() {
    operation(4 + choice("op", 3));
}
pub fn c24_allow() {
    operation(7 + choice("op", 2));
}
