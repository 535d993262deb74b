#![allow(dead_code, unused_imports)]
//! A chain with the contracts on it.
pub use cosmwasm_std::*;
pub use cw20::{BalanceResponse as B20, Cw20Coin, Cw20ExecuteMsg, Cw20QueryMsg, MinterResponse, TokenInfoResponse};
use cw_multi_test::*;
pub use haloswap::asset::*;
pub use haloswap::pair::{Cw20HookMsg, ExecuteMsg as PairExec, PoolResponse, QueryMsg as PairQuery, ReverseSimulationResponse, SimulationResponse};
use serde::{de::DeserializeOwned, Serialize};

pub struct W {
    pub app: App,
    pub tok: u64,
    pub pair: u64,
    pub factory: u64,
    pub router: u64,
    n: u32,
}
pub type R = Result<AppResponse, String>;
pub fn a(s: &str) -> Addr {
    Addr::unchecked(s)
}
pub fn token(s: &str) -> AssetInfo {
    AssetInfo::Token { contract_addr: s.to_string() }
}
pub fn native(s: &str) -> AssetInfo {
    AssetInfo::NativeToken { denom: s.to_string() }
}
pub fn asset(i: &AssetInfo, n: u128) -> Asset {
    Asset { info: i.clone(), amount: Uint128::new(n) }
}
pub fn req() -> CreatePairRequirements {
    CreatePairRequirements { whitelist: vec![a("user")], first_asset_minimum: Uint128::zero(), second_asset_minimum: Uint128::zero() }
}
impl W {
    pub fn new() -> W {
        let mut app = App::default();
        let tok = app.store_code(Box::new(ContractWrapper::new(halo_token::contract::execute, halo_token::contract::instantiate, halo_token::contract::query)));
        let pair = app.store_code(Box::new(
            ContractWrapper::new(halo_pair::contract::execute, halo_pair::contract::instantiate, halo_pair::contract::query)
                .with_reply(halo_pair::contract::reply)
                .with_migrate(halo_pair::contract::migrate),
        ));
        let factory = app.store_code(Box::new(
            ContractWrapper::new(halo_factory::contract::execute, halo_factory::contract::instantiate, halo_factory::contract::query)
                .with_reply(halo_factory::contract::reply)
                .with_migrate(halo_factory::contract::migrate),
        ));
        let router = app.store_code(Box::new(
            ContractWrapper::new(halo_router::contract::execute, halo_router::contract::instantiate, halo_router::contract::query)
                .with_migrate(halo_router::contract::migrate),
        ));
        W { app, tok, pair, factory, router, n: 0 }
    }
    pub fn init<T: Serialize>(&mut self, code: u64, m: &T) -> Result<String, String> {
        self.n += 1;
        self.app
            .instantiate_contract(code, a("creator"), m, &[], "c", Some("creator".to_string()))
            .map(|x| x.to_string())
            .map_err(|e| format!("{:#}", e))
    }
    pub fn exec<T: Serialize + std::fmt::Debug>(&mut self, who: &str, c: &str, m: &T, funds: &[Coin]) -> R {
        let app = &mut self.app;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            app.execute_contract(a(who), a(c), m, funds).map_err(|e| format!("{:#}", e))
        }));
        r.unwrap_or_else(|_| Err("panic".to_string()))
    }
    pub fn q<T: DeserializeOwned>(&self, c: &str, m: &impl Serialize) -> Result<T, String> {
        let app = &self.app;
        let m = to_binary(m).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            app.wrap().query::<T>(&QueryRequest::Wasm(WasmQuery::Smart { contract_addr: c.to_string(), msg: m })).map_err(|e| e.to_string())
        }));
        r.unwrap_or_else(|_| Err("panic".to_string()))
    }
    /// a token owned by the listed people, mintable by "creator"
    pub fn token(&mut self, decimals: u8, who: &[(&str, u128)]) -> String {
        let m = haloswap::token::InstantiateMsg {
            name: "token".to_string(),
            symbol: "TOK".to_string(),
            decimals,
            initial_balances: who.iter().map(|(w, n)| Cw20Coin { address: w.to_string(), amount: Uint128::new(*n) }).collect(),
            mint: Some(MinterResponse { minter: "creator".to_string(), cap: None }),
        };
        self.init(self.tok, &m).unwrap()
    }
    pub fn coins(&mut self, who: &str, denom: &str, n: u128) {
        self.app.sudo(SudoMsg::Bank(BankSudo::Mint { to_address: who.to_string(), amount: vec![coin(n, denom)] })).unwrap();
    }
    pub fn bal(&self, i: &AssetInfo, who: &str) -> u128 {
        match i {
            AssetInfo::NativeToken { denom } => self.app.wrap().query_balance(who, denom).unwrap().amount.u128(),
            AssetInfo::Token { contract_addr } => {
                let r: B20 = self.q(contract_addr, &Cw20QueryMsg::Balance { address: who.to_string() }).unwrap();
                r.balance.u128()
            }
        }
    }
    pub fn supply(&self, t: &str) -> u128 {
        let r: TokenInfoResponse = self.q(t, &Cw20QueryMsg::TokenInfo {}).unwrap();
        r.total_supply.u128()
    }
    /// a pair made without the factory: (address, LP token)
    pub fn pair(&mut self, i: [&AssetInfo; 2], d: [u8; 2], requirements: CreatePairRequirements) -> (String, String) {
        let m = haloswap::pair::InstantiateMsg {
            asset_infos: [i[0].clone(), i[1].clone()],
            token_code_id: self.tok,
            asset_decimals: d,
            requirements,
        };
        let p = self.init(self.pair, &m).unwrap();
        let r: PairInfo = self.q(&p, &PairQuery::Pair {}).unwrap();
        (p, r.liquidity_token)
    }
    /// put an asset into somebody's (or a contract's) account
    pub fn give(&mut self, i: &AssetInfo, who: &str, n: u128) {
        match i {
            AssetInfo::NativeToken { denom } => self.coins(who, denom, n),
            AssetInfo::Token { contract_addr } => {
                let m = Cw20ExecuteMsg::Mint { recipient: who.to_string(), amount: Uint128::new(n) };
                self.exec("creator", contract_addr, &m, &[]).unwrap();
            }
        }
    }
    pub fn allow(&mut self, t: &str, who: &str, spender: &str, n: u128) {
        let m = Cw20ExecuteMsg::IncreaseAllowance { spender: spender.to_string(), amount: Uint128::new(n), expires: None };
        self.exec(who, t, &m, &[]).unwrap();
    }
    pub fn provide(&mut self, p: &str, who: &str, d: [Asset; 2], tol: Option<Decimal>, receiver: Option<&str>) -> R {
        let mut funds = vec![];
        for x in &d {
            match &x.info {
                AssetInfo::NativeToken { denom } => {
                    if !x.amount.is_zero() {
                        funds.push(coin(x.amount.u128(), denom))
                    }
                }
                AssetInfo::Token { contract_addr } => {
                    if !x.amount.is_zero() {
                        self.allow(&contract_addr.clone(), who, p, x.amount.u128())
                    }
                }
            }
        }
        let m = PairExec::ProvideLiquidity { assets: d, slippage_tolerance: tol, receiver: receiver.map(|x| x.to_string()) };
        self.exec(who, p, &m, &funds)
    }
    pub fn send(&mut self, t: &str, who: &str, to: &str, n: u128, hook: &impl Serialize) -> R {
        let m = Cw20ExecuteMsg::Send { contract: to.to_string(), amount: Uint128::new(n), msg: to_binary(hook).unwrap() };
        self.exec(who, t, &m, &[])
    }
    pub fn swap(&mut self, t: &str, who: &str, p: &str, n: u128, belief: Option<Decimal>, spread: Option<Decimal>, to: Option<&str>) -> R {
        self.send(t, who, p, n, &Cw20HookMsg::Swap { belief_price: belief, max_spread: spread, to: to.map(|x| x.to_string()) })
    }
    pub fn withdraw(&mut self, lp: &str, who: &str, p: &str, n: u128) -> R {
        self.send(lp, who, p, n, &Cw20HookMsg::WithdrawLiquidity {})
    }
    pub fn attr(r: &AppResponse, k: &str) -> String {
        r.events.iter().rev().flat_map(|e| e.attributes.iter()).find(|x| x.key == k).unwrap().value.clone()
    }
}
