//! A small chain: bank balances, contracts with their storage, message execution with
//! sub-messages, replies and rollback. Contracts run the repository's entry points; every
//! message and query crosses between contracts as the JSON bytes they exchange in production.
use crate::sym::*;
use cosmwasm_std::*;
use serde::{de::DeserializeOwned, Serialize};

#[derive(Clone, Default)]
pub struct Kv(pub Vec<(Vec<u8>, Vec<u8>)>);
impl Storage for Kv {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.iter().find(|(k, _)| k.as_slice() == key).map(|(_, v)| v.clone())
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        match self.0.iter_mut().find(|(k, _)| k.as_slice() == key) {
            Some(e) => e.1 = value.to_vec(),
            None => self.0.push((key.to_vec(), value.to_vec())),
        }
    }
    fn remove(&mut self, key: &[u8]) {
        if let Some(i) = self.0.iter().position(|(k, _)| k.as_slice() == key) {
            self.0.remove(i);
        }
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        let mut v: Vec<Record> = vec![];
        for (k, x) in &self.0 {
            if start.map_or(true, |s| k.as_slice() >= s) && end.map_or(true, |e| k.as_slice() < e) {
                // insertion sort: few elements
                let mut i = v.len();
                while i > 0 && v[i - 1].0.as_slice() > k.as_slice() {
                    i -= 1;
                }
                v.insert(i, (k.clone(), x.clone()));
            }
        }
        if matches!(order, Order::Descending) {
            v.reverse();
        }
        Box::new(v.into_iter())
    }
}

/// Addresses are their own canonical form except for letter case, as with bech32.
#[derive(Clone, Copy)]
pub struct ChainApi;
const MAX_ADDR: usize = 90;
fn lower(b: u8) -> u8 {
    if b >= b'A' && b <= b'Z' {
        b + 32
    } else {
        b
    }
}
impl Api for ChainApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if human.is_empty() || human.len() > MAX_ADDR {
            return Err(StdError::generic_err("invalid address"));
        }
        for b in human.bytes() {
            if b >= b'A' && b <= b'Z' {
                return Err(StdError::generic_err("address not normalized"));
            }
        }
        Ok(Addr::unchecked(human))
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        if human.is_empty() || human.len() > MAX_ADDR {
            return Err(StdError::generic_err("invalid address"));
        }
        // distinct from any text, as the bytes of real addresses are
        let v: Vec<u8> = human.bytes().map(|b| lower(b).wrapping_add(128)).collect();
        Ok(CanonicalAddr::from(v))
    }
    fn addr_humanize(&self, canonical: &CanonicalAddr) -> StdResult<Addr> {
        if canonical.is_empty() || canonical.len() > MAX_ADDR {
            return Err(StdError::generic_err("invalid canonical address"));
        }
        let v: Vec<u8> = canonical.as_slice().iter().map(|b| b.wrapping_sub(128)).collect();
        match String::from_utf8(v) {
            Ok(s) => Ok(Addr::unchecked(s)),
            Err(_) => Err(StdError::generic_err("invalid canonical address")),
        }
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        unimplemented!()
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn debug(&self, _: &str) {}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Code {
    Factory,
    Pair,
    Token,
    Router,
    /// accepts everything and does nothing
    Sink,
    /// a pair answering simulations with arbitrary amounts
    Oracle,
}
pub const FACTORY: u64 = 1;
pub const PAIR: u64 = 2;
pub const TOKEN: u64 = 3;
pub const ROUTER: u64 = 4;
pub const SINK: u64 = 5;
pub const ORACLE: u64 = 6;
fn code_of(id: u64) -> Option<Code> {
    Some(match id {
        FACTORY => Code::Factory,
        PAIR => Code::Pair,
        TOKEN => Code::Token,
        ROUTER => Code::Router,
        SINK => Code::Sink,
        ORACLE => Code::Oracle,
        _ => return None,
    })
}

#[derive(Clone)]
pub struct Contract {
    pub addr: String,
    pub code: u64,
    pub admin: Option<String>,
    pub st: Kv,
}
#[derive(Clone, Debug)]
pub struct Fail {
    pub at: String,
    pub text: String,
}
impl Fail {
    pub fn is_panic(&self) -> bool {
        self.at == "panic"
    }
}
pub type Res<T> = Result<T, Fail>;
fn fail<T>(at: &str, text: &str) -> Res<T> {
    Err(Fail { at: at.to_string(), text: text.to_string() })
}
/// a message emitted by a contract
#[derive(Clone, Debug)]
pub struct Ev {
    pub from: String,
    pub msg: CosmosMsg,
}
#[derive(Clone, Debug)]
pub struct Attrs {
    pub from: String,
    pub attrs: Vec<Attribute>,
}
/// a simulation asked from an oracle pair
#[derive(Clone)]
pub struct Asked {
    pub pair: String,
    pub reverse: bool,
    pub asset: haloswap::asset::Asset,
    pub answer: Option<Uint128>,
}

#[derive(Clone, Default)]
pub struct World {
    pub bank: Vec<(String, String, Uint128)>,
    pub cs: Vec<Contract>,
    pub log: Vec<Ev>,
    pub attrs: Vec<Attrs>,
    pub next: u32,
    /// do not carry out the messages contracts emit
    pub hold: bool,
    /// the block everything happens in, and its transaction
    pub height: u64,
    pub time: u64,
    pub index: u32,
    pub asked: std::rc::Rc<std::cell::RefCell<Vec<Asked>>>,
}

struct Q<'a>(&'a World);
impl<'a> Querier for Q<'a> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let rq: QueryRequest<Empty> = match from_slice(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: Binary::from(bin) })
            }
        };
        match self.0.answer(rq) {
            Ok(b) => SystemResult::Ok(ContractResult::Ok(b)),
            Err(f) if f.at == "nosuch" => SystemResult::Err(SystemError::NoSuchContract { addr: f.text }),
            Err(f) => SystemResult::Ok(ContractResult::Err(f.text)),
        }
    }
}

fn ok<T, E: std::fmt::Display>(at: &str, r: Result<T, E>) -> Res<T> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => Err(Fail { at: at.to_string(), text: e.to_string() }),
    }
}

impl World {
    pub fn new() -> World {
        World {
            height: any_in("block height", 1, u64::MAX as u128) as u64,
            time: any_in("block time", 1, u64::MAX as u128) as u64,
            index: any_in("transaction index", 0, u32::MAX as u128) as u32,
            ..World::default()
        }
    }
    pub fn env(&self, addr: &str) -> Env {
        Env {
            block: BlockInfo { height: self.height, time: Timestamp::from_nanos(self.time), chain_id: "halo-1".to_string() },
            transaction: Some(TransactionInfo { index: self.index }),
            contract: ContractInfo { address: Addr::unchecked(addr) },
        }
    }
    // ---------------------------------------------------------------- bank
    pub fn coins(&self, who: &str, denom: &str) -> Uint128 {
        for (a, d, n) in &self.bank {
            if a.as_str() == who && d.as_str() == denom {
                return *n;
            }
        }
        Uint128::zero()
    }
    pub fn set_coins(&mut self, who: &str, denom: &str, n: u128) {
        for e in self.bank.iter_mut() {
            if e.0.as_str() == who && e.1.as_str() == denom {
                e.2 = Uint128::new(n);
                return;
            }
        }
        self.bank.push((who.to_string(), denom.to_string(), Uint128::new(n)));
    }
    fn pay(&mut self, from: &str, to: &str, funds: &[Coin]) -> Res<()> {
        for c in funds {
            let have = self.coins(from, &c.denom).u128();
            let n = c.amount.u128();
            if have < n {
                return fail("bank", "insufficient funds");
            }
            self.set_coins(from, &c.denom, have - n);
            let have = self.coins(to, &c.denom).u128();
            match have.checked_add(n) {
                Some(v) => self.set_coins(to, &c.denom, v),
                None => return fail("bank", "supply overflow"),
            }
        }
        Ok(())
    }
    // ---------------------------------------------------------------- contracts
    /// addresses may be spelled in upper case
    fn find(&self, addr: &str) -> Option<usize> {
        if let Some(i) = self.cs.iter().position(|c| c.addr.as_str() == addr) {
            return Some(i);
        }
        let low: Vec<u8> = addr.bytes().map(lower).collect();
        if low.as_slice() == addr.as_bytes() {
            return None;
        }
        self.cs.iter().position(|c| c.addr.as_bytes() == low.as_slice())
    }
    pub fn storage(&self, addr: &str) -> &Kv {
        &self.cs[self.find(addr).unwrap()].st
    }
    pub fn storage_mut(&mut self, addr: &str) -> &mut Kv {
        let i = self.find(addr).unwrap();
        &mut self.cs[i].st
    }
    pub fn add(&mut self, addr: &str, code: u64) {
        self.cs.push(Contract { addr: addr.to_string(), code, admin: None, st: Kv::default() });
    }
    fn answer(&self, rq: QueryRequest<Empty>) -> Res<Binary> {
        match rq {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amount = self.coins(&address, &denom);
                ok("bank", to_binary(&BalanceResponse { amount: Coin { denom, amount } }))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let amount = self
                    .bank
                    .iter()
                    .filter(|(a, _, n)| *a == address && !n.is_zero())
                    .map(|(_, d, n)| Coin { denom: d.clone(), amount: *n })
                    .collect();
                ok("bank", to_binary(&AllBalanceResponse { amount }))
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => self.query_raw(&contract_addr, msg.as_slice()),
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => match self.find(&contract_addr) {
                Some(i) => Ok(Binary::from(self.cs[i].st.get(key.as_slice()).unwrap_or_default())),
                None => fail("nosuch", &contract_addr),
            },
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => match self.find(&contract_addr) {
                Some(i) => {
                    let mut r = ContractInfoResponse::new(self.cs[i].code, "creator");
                    r.admin = self.cs[i].admin.clone();
                    ok("wasm", to_binary(&r))
                }
                None => fail("nosuch", &contract_addr),
            },
            _ => fail("query", "unsupported query"),
        }
    }
    pub fn query_raw(&self, addr: &str, msg: &[u8]) -> Res<Binary> {
        let i = match self.find(addr) {
            Some(i) => i,
            None => return fail("nosuch", addr),
        };
        let c = &self.cs[i];
        let q = Q(self);
        let api = ChainApi;
        let deps = Deps { storage: &c.st, api: &api, querier: QuerierWrapper::new(&q) };
        let env = self.env(addr);
        match code_of(c.code) {
            Some(Code::Factory) => ok(addr, halo_factory::contract::query(deps, env, ok(addr, from_slice(msg))?)),
            Some(Code::Pair) => ok(addr, halo_pair::contract::query(deps, env, ok(addr, from_slice(msg))?)),
            Some(Code::Token) => ok(addr, halo_token::contract::query(deps, env, ok(addr, from_slice(msg))?)),
            Some(Code::Router) => ok(addr, halo_router::contract::query(deps, env, ok(addr, from_slice(msg))?)),
            Some(Code::Oracle) => {
                use haloswap::pair::*;
                let m: QueryMsg = ok(addr, from_slice(msg))?;
                let n = self.asked.borrow().len();
                match m {
                    QueryMsg::Simulation { offer_asset } => {
                        let fails = any_bool(&["quote fails", "quote fails 1", "quote fails 2", "quote fails 3", "quote fails 4", "quote fails 5", "quote fails 6"][n.min(6)]);
                        let v = any_u128(&["quote", "quote1", "quote2", "quote3", "quote4", "quote5", "quote6"][n.min(6)]);
                        let answer = if fails { None } else { Some(Uint128::new(v)) };
                        self.asked.borrow_mut().push(Asked { pair: addr.to_string(), reverse: false, asset: offer_asset, answer });
                        if fails {
                            return fail(addr, "no quote");
                        }
                        ok(
                            addr,
                            to_binary(&SimulationResponse {
                                return_amount: Uint128::new(v),
                                spread_amount: Uint128::new(any_u128(&["quote spread", "quote spread 1"][n.min(1)])),
                                commission_amount: Uint128::new(any_u128(&["quote commission", "quote commission 1"][n.min(1)])),
                            }),
                        )
                    }
                    QueryMsg::Pair {} => ok(
                        addr,
                        to_binary(&haloswap::asset::PairInfo {
                            asset_infos: [crate::setup::native("a"), crate::setup::native("b")],
                            contract_addr: addr.to_string(),
                            liquidity_token: "lp".to_string(),
                            asset_decimals: [0, 0],
                            requirements: crate::setup::no_requirements(),
                        }),
                    ),
                    QueryMsg::ReverseSimulation { ask_asset } => {
                        let fails = any_bool(&["quote fails", "quote fails 1", "quote fails 2", "quote fails 3", "quote fails 4", "quote fails 5", "quote fails 6"][n.min(6)]);
                        let v = any_u128(&["quote", "quote1", "quote2", "quote3", "quote4", "quote5", "quote6"][n.min(6)]);
                        let answer = if fails { None } else { Some(Uint128::new(v)) };
                        self.asked.borrow_mut().push(Asked { pair: addr.to_string(), reverse: true, asset: ask_asset, answer });
                        if fails {
                            return fail(addr, "no quote");
                        }
                        ok(
                            addr,
                            to_binary(&ReverseSimulationResponse {
                                offer_amount: Uint128::new(v),
                                spread_amount: Uint128::new(any_u128(&["quote spread", "quote spread 1"][n.min(1)])),
                                commission_amount: Uint128::new(any_u128(&["quote commission", "quote commission 1"][n.min(1)])),
                            }),
                        )
                    }
                    _ => fail(addr, "unsupported"),
                }
            }
            _ => fail(addr, "no query"),
        }
    }
    /// a query by a client, with the answer decoded; panics count as failures
    pub fn q<T: DeserializeOwned, M: Serialize>(&self, addr: &str, msg: &M) -> Res<T> {
        let m = to_vec(msg).unwrap();
        match tx(|| self.query_raw(addr, &m)) {
            Some(Ok(b)) => ok("client", from_binary(&b)),
            Some(Err(f)) => Err(f),
            None => fail("panic", addr),
        }
    }
    /// the chain as contracts ask it
    pub fn asking<T>(&self, f: impl FnOnce(&QuerierWrapper) -> T) -> T {
        let q = Q(self);
        let w = QuerierWrapper::new(&q);
        f(&w)
    }
    fn enter(&mut self, sender: &str, addr: &str, what: Call, funds: &[Coin]) -> Res<Response> {
        let i = match self.find(addr) {
            Some(i) => i,
            None => return fail("nosuch", addr),
        };
        let code = code_of(self.cs[i].code);
        let addr = &self.cs[i].addr.clone();
        // queries made by the contract see its state before the call
        let mut st = self.cs[i].st.clone();
        let r = {
            let q = Q(self);
            let api = ChainApi;
            let deps = DepsMut { storage: &mut st, api: &api, querier: QuerierWrapper::new(&q) };
            let env = self.env(addr);
            let info = MessageInfo { sender: Addr::unchecked(sender), funds: funds.to_vec() };
            match (code, what) {
                (Some(Code::Factory), Call::Execute(m)) => {
                    from_slice(m).map_err(e2f(addr)).and_then(|m| ok(addr, halo_factory::contract::execute(deps, env, info, m)))
                }
                (Some(Code::Factory), Call::Instantiate(m)) => {
                    from_slice(m).map_err(e2f(addr)).and_then(|m| ok(addr, halo_factory::contract::instantiate(deps, env, info, m)))
                }
                (Some(Code::Factory), Call::Reply(m)) => ok(addr, halo_factory::contract::reply(deps, env, m)),
                (Some(Code::Factory), Call::Migrate(m)) => {
                    from_slice(m).map_err(e2f(addr)).and_then(|m| ok(addr, halo_factory::contract::migrate(deps, env, m)))
                }
                (Some(Code::Pair), Call::Execute(m)) => {
                    from_slice(m).map_err(e2f(addr)).and_then(|m| ok(addr, halo_pair::contract::execute(deps, env, info, m)))
                }
                (Some(Code::Pair), Call::Instantiate(m)) => {
                    from_slice(m).map_err(e2f(addr)).and_then(|m| ok(addr, halo_pair::contract::instantiate(deps, env, info, m)))
                }
                (Some(Code::Pair), Call::Reply(m)) => ok(addr, halo_pair::contract::reply(deps, env, m)),
                (Some(Code::Pair), Call::Migrate(m)) => {
                    from_slice(m).map_err(e2f(addr)).and_then(|m| ok(addr, halo_pair::contract::migrate(deps, env, m)))
                }
                (Some(Code::Token), Call::Execute(m)) => {
                    from_slice(m).map_err(e2f(addr)).and_then(|m| ok(addr, halo_token::contract::execute(deps, env, info, m)))
                }
                (Some(Code::Token), Call::Instantiate(m)) => {
                    from_slice(m).map_err(e2f(addr)).and_then(|m| ok(addr, halo_token::contract::instantiate(deps, env, info, m)))
                }
                (Some(Code::Router), Call::Execute(m)) => {
                    from_slice(m).map_err(e2f(addr)).and_then(|m| ok(addr, halo_router::contract::execute(deps, env, info, m)))
                }
                (Some(Code::Router), Call::Instantiate(m)) => {
                    from_slice(m).map_err(e2f(addr)).and_then(|m| ok(addr, halo_router::contract::instantiate(deps, env, info, m)))
                }
                (Some(Code::Router), Call::Migrate(m)) => {
                    from_slice(m).map_err(e2f(addr)).and_then(|m| ok(addr, halo_router::contract::migrate(deps, env, m)))
                }
                (Some(Code::Sink), _) | (Some(Code::Oracle), _) => Ok(Response::new()),
                _ => fail(addr, "no such entry point"),
            }
        };
        self.cs[i].st = st;
        r
    }
    fn finish(&mut self, addr: &str, r: Response) -> Res<Option<Binary>> {
        let mut data = r.data.clone();
        self.attrs.push(Attrs { from: addr.to_string(), attrs: r.attributes });
        for sub in r.messages {
            self.log.push(Ev { from: addr.to_string(), msg: sub.msg.clone() });
            if self.hold {
                // only the messages are of interest
                continue;
            }
            let save = if matches!(sub.reply_on, ReplyOn::Always | ReplyOn::Error) { Some(self.clone()) } else { None };
            let out = self.run(addr, sub.msg);
            let reply = match out {
                Ok(d) => {
                    if matches!(sub.reply_on, ReplyOn::Always | ReplyOn::Success) {
                        Some(SubMsgResult::Ok(SubMsgResponse { events: vec![], data: d }))
                    } else {
                        None
                    }
                }
                Err(f) => match save {
                    Some(s) => {
                        *self = s;
                        Some(SubMsgResult::Err(f.text))
                    }
                    None => return Err(f),
                },
            };
            if let Some(result) = reply {
                let r = self.enter(addr, addr, Call::Reply(Reply { id: sub.id, result }), &[])?;
                if let Some(d) = self.finish(addr, r)? {
                    data = Some(d);
                }
            }
        }
        Ok(data)
    }
    /// execute one message sent by `from`
    pub fn run(&mut self, from: &str, m: CosmosMsg) -> Res<Option<Binary>> {
        match m {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                for c in &amount {
                    if c.amount.is_zero() {
                        return fail("bank", "invalid coins");
                    }
                }
                self.pay(from, &to_address, &amount)?;
                Ok(None)
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                let contract_addr = match self.find(&contract_addr) {
                    Some(i) => self.cs[i].addr.clone(),
                    None => return fail("nosuch", &contract_addr),
                };
                self.pay(from, &contract_addr, &funds)?;
                let r = self.enter(from, &contract_addr, Call::Execute(msg.as_slice()), &funds)?;
                self.finish(&contract_addr, r)
            }
            CosmosMsg::Wasm(WasmMsg::Instantiate { admin, code_id, msg, funds, label: _ }) => {
                let addr = match code_of(code_id) {
                    Some(Code::Factory) => "factory",
                    Some(Code::Pair) => "pair",
                    Some(Code::Token) => "token",
                    Some(Code::Router) => "router",
                    Some(_) => "other",
                    None => return fail("wasm", "no such code"),
                };
                let addr = format!("{}{}", addr, self.next);
                self.next += 1;
                self.cs.push(Contract { addr: addr.clone(), code: code_id, admin, st: Kv::default() });
                self.pay(from, &addr, &funds)?;
                let r = self.enter(from, &addr, Call::Instantiate(msg.as_slice()), &funds)?;
                let d = self.finish(&addr, r)?;
                // MsgInstantiateContractResponse { address = 1, data = 2 }
                let mut b = vec![0x0a, addr.len() as u8];
                b.extend_from_slice(addr.as_bytes());
                if let Some(d) = d {
                    b.push(0x12);
                    b.push(d.len() as u8);
                    b.extend_from_slice(d.as_slice());
                }
                Ok(Some(Binary::from(b)))
            }
            CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr, new_code_id, msg }) => {
                let i = match self.find(&contract_addr) {
                    Some(i) => i,
                    None => return fail("nosuch", &contract_addr),
                };
                if self.cs[i].admin.as_deref() != Some(from) {
                    return fail("wasm", "unauthorized");
                }
                if code_of(new_code_id).is_none() {
                    return fail("wasm", "no such code");
                }
                self.cs[i].code = new_code_id;
                let r = self.enter(from, &contract_addr, Call::Migrate(msg.as_slice()), &[])?;
                self.finish(&contract_addr, r)
            }
            _ => fail("chain", "unsupported message"),
        }
    }
    /// a transaction: all or nothing; a panic is a failure
    pub fn tx(&mut self, from: &str, m: CosmosMsg) -> Res<Option<Binary>> {
        let save = self.clone();
        self.log.clear();
        self.attrs.clear();
        let r = match tx(|| self.run(from, m)) {
            Some(r) => r,
            None => fail("panic", ""),
        };
        if r.is_err() {
            *self = save;
        }
        r
    }
    pub fn exec<M: Serialize>(&mut self, from: &str, to: &str, m: &M, funds: &[Coin]) -> Res<()> {
        let msg = to_binary(m).unwrap();
        self.tx(from, WasmMsg::Execute { contract_addr: to.to_string(), msg, funds: funds.to_vec() }.into()).map(|_| ())
    }
    /// instantiate; the address of the new contract
    pub fn init<M: Serialize>(&mut self, from: &str, code_id: u64, m: &M, admin: Option<&str>) -> Res<String> {
        let msg = to_binary(m).unwrap();
        let d = self.tx(
            from,
            WasmMsg::Instantiate { admin: admin.map(|s| s.to_string()), code_id, msg, funds: vec![], label: "x".to_string() }.into(),
        )?;
        let d = d.unwrap();
        let n = d.as_slice()[1] as usize;
        Ok(String::from_utf8(d.as_slice()[2..2 + n].to_vec()).unwrap())
    }
    /// a reply delivered to a contract
    pub fn reply(&mut self, addr: &str, r: Reply) -> Res<()> {
        let save = self.clone();
        self.log.clear();
        let out = match tx(|| self.enter(addr, addr, Call::Reply(r), &[])) {
            Some(x) => x.and_then(|r| self.finish(addr, r)),
            None => fail("panic", ""),
        };
        if out.is_err() {
            *self = save;
        }
        out.map(|_| ())
    }
    /// the attribute of the last transaction
    pub fn attr(&self, from: &str, key: &str) -> Option<String> {
        for a in &self.attrs {
            if a.from == from {
                for x in &a.attrs {
                    if x.key == key {
                        return Some(x.value.clone());
                    }
                }
            }
        }
        None
    }
    /// messages emitted by a contract in the last transaction
    pub fn sent(&self, from: &str) -> Vec<CosmosMsg> {
        self.log.iter().filter(|e| e.from == from).map(|e| e.msg.clone()).collect()
    }
}
fn e2f(at: &str) -> impl Fn(StdError) -> Fail + '_ {
    move |e| Fail { at: at.to_string(), text: e.to_string() }
}
enum Call<'a> {
    Execute(&'a [u8]),
    Instantiate(&'a [u8]),
    Reply(Reply),
    Migrate(&'a [u8]),
}
