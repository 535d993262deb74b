FAC = '''
    use haloswap::factory::{ConfigResponse, ExecuteMsg as FE, InstantiateMsg as FI, NativeTokenDecimalsResponse, PairsResponse, QueryMsg as FQ};
    let (pc, tc) = (w.pair, w.tok);
    let f = w.init(w.factory, &FI { pair_code_id: pc, token_code_id: tc }).unwrap();
'''
ROUT = FAC + '''
    use haloswap::router::{Cw20HookMsg as RH, ExecuteMsg as RE, InstantiateMsg as RI, QueryMsg as RQ, SimulateSwapOperationsResponse, SwapOperation};
    let rt = w.init(w.router, &RI { halo_factory: f.clone() }).unwrap();
    let t: Vec<String> = (0..3).map(|_| w.token(6, &[("user", 1 << 80)])).collect();
    let i: Vec<AssetInfo> = t.iter().map(|x| token(x)).collect();
    let hop = |x: usize, y: usize| SwapOperation::HaloSwap { offer_asset_info: i[x].clone(), ask_asset_info: i[y].clone() };
    let mut pairs = vec![];
    for (x, y) in [(0usize, 1usize), (1, 2)] {
        w.exec("user", &f, &FE::CreatePair { asset_infos: [i[x].clone(), i[y].clone()], requirements: req() }, &[]).unwrap();
        let p: PairInfo = w.q(&f, &FQ::Pair { asset_infos: [i[x].clone(), i[y].clone()] }).unwrap();
        let p = p.contract_addr;
        w.give(&i[x], &p, 1_000_000_000);
        w.give(&i[y], &p, 2_000_000_000);
        pairs.push(p);
    }
'''
seed('c14-self-named-owner', 'C14', 'an update by a stranger that names the stranger as the new owner',
     'a sender naming itself as the owner passes the permission check and takes the factory over',
     [(F, '''    let mut config: Config = CONFIG.load(deps.storage)?;

    // permission check
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner {
        return Err(StdError::generic_err("unauthorized"));
    }

    if let Some(owner) = owner {''', '''    let mut config: Config = CONFIG.load(deps.storage)?;

    // permission check; an owner may confirm itself
    let confirms = owner.as_deref() == Some(info.sender.as_str());
    if deps.api.addr_canonicalize(info.sender.as_str())? != config.owner && !confirms {
        return Err(StdError::generic_err("unauthorized"));
    }

    if let Some(owner) = owner {''')], FAC + '''
    let r = w.exec("thief", &f, &FE::UpdateConfig { owner: Some("thief".to_string()), token_code_id: None, pair_code_id: None }, &[]);
    let c: ConfigResponse = w.q(&f, &FQ::Config {}).unwrap();
    assert!(r.is_err() && c.owner == "creator");
''')
seed('c15-corrected-decimals', 'C15', 'creating the pair of two assets with different decimals again, listed the other way round',
     'a second pair of the same two assets is created and replaces the first in the registry',
     [(F, '''    if let Ok(Some(_)) = PAIRS.may_load(deps.storage, &pair_key) {
        return Err(StdError::generic_err("Pair already exists"));
    }
''', '''    if let Ok(Some(pair)) = PAIRS.may_load(deps.storage, &pair_key) {
        // a pair made before its decimals were corrected may be made anew
        if pair.asset_decimals == asset_decimals {
            return Err(StdError::generic_err("Pair already exists"));
        }
    }
''')], FAC + '''
    let (x, y) = (w.token(6, &[]), w.token(8, &[]));
    w.exec("user", &f, &FE::CreatePair { asset_infos: [token(&x), token(&y)], requirements: req() }, &[]).unwrap();
    let p: PairInfo = w.q(&f, &FQ::Pair { asset_infos: [token(&x), token(&y)] }).unwrap();
    assert!(w.exec("user", &f, &FE::CreatePair { asset_infos: [token(&y), token(&x)], requirements: req() }, &[]).is_err());
    let q: PairInfo = w.q(&f, &FQ::Pair { asset_infos: [token(&x), token(&y)] }).unwrap();
    assert_eq!(p, q);
''')
seed('c16-asked-order', 'C16', 'looking a pair up in the other order of its assets',
     'the answer lists the assets in the order asked but the decimals in the order stored',
     [(F, '''    let pair_info: PairInfoRaw = PAIRS.load(deps.storage, &pair_key)?;
    pair_info.to_normal(deps.api)
''', '''    let pair_info: PairInfoRaw = PAIRS.load(deps.storage, &pair_key)?;
    let mut pair_info = pair_info.to_normal(deps.api)?;
    // answer in the order the caller thinks in
    pair_info.asset_infos = asset_infos;
    Ok(pair_info)
''')], FAC + '''
    let (x, y) = (w.token(6, &[]), w.token(8, &[]));
    w.exec("user", &f, &FE::CreatePair { asset_infos: [token(&x), token(&y)], requirements: req() }, &[]).unwrap();
    let p: PairInfo = w.q(&f, &FQ::Pair { asset_infos: [token(&x), token(&y)] }).unwrap();
    let q: PairInfo = w.q(&f, &FQ::Pair { asset_infos: [token(&y), token(&x)] }).unwrap();
    assert_eq!(p, q);
''')
seed('c17-page-as-listed', 'C17', 'a page starting after a pair whose assets were listed in descending order',
     'the page start is not brought into key order, so pairs are skipped or repeated',
     [(FS, '''    start_after.map(|asset_infos| {
        let mut asset_infos = asset_infos.to_vec();
        asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));

        let mut v''', '''    start_after.map(|asset_infos| {
        // callers pass a pair as it was listed
        let mut v''')], FAC + '''
    let t: Vec<AssetInfo> = (0..4).map(|_| token(&w.token(6, &[]))).collect();
    for (x, y) in [(3usize, 0usize), (3, 1), (2, 0), (2, 1), (3, 2), (1, 0)] {
        w.exec("user", &f, &FE::CreatePair { asset_infos: [t[x].clone(), t[y].clone()], requirements: req() }, &[]).unwrap();
    }
    let mut seen: Vec<String> = vec![];
    let mut at = None;
    for _ in 0..20 {
        let r: PairsResponse = w.q(&f, &FQ::Pairs { start_after: at.clone(), limit: Some(1) }).unwrap();
        match r.pairs.get(0) {
            Some(p) => {
                seen.push(p.contract_addr.clone());
                at = Some(p.asset_infos.clone());
            }
            None => break,
        }
    }
    assert_eq!(seen.len(), 6, "{:?}", seen);
    seen.sort();
    seen.dedup();
    assert_eq!(seen.len(), 6);
''')
seed('c18-small-letters', 'C18', 'a coin whose name has capital letters (as ibc/... names do)',
     'decimals are stored under the lower-case name, so they are not found and spill over to another coin',
     [(FS, '''    ALLOW_NATIVE_TOKENS.save(storage, denom.as_bytes(), &decimals)
''', '''    // one spelling per coin
    ALLOW_NATIVE_TOKENS.save(storage, denom.to_lowercase().as_bytes(), &decimals)
''')], FAC + '''
    w.coins(&f, "ibc/AB12", 5);
    w.exec("creator", &f, &FE::AddNativeTokenDecimals { denom: "ibc/AB12".to_string(), decimals: 7 }, &[]).unwrap();
    let r: NativeTokenDecimalsResponse = w.q(&f, &FQ::NativeTokenDecimals { denom: "ibc/AB12".to_string() }).unwrap();
    assert_eq!(r.decimals, 7);
''')
seed('c19-same-hop', 'C19', 'a route that takes its last hop more than once',
     'every hop equal to the last names the recipient, so an intermediate output leaves the route early',
     [(R, '''    let mut operation_index = 0;
    let mut messages''', '''    let last = operations.last().cloned();
    let mut messages'''),
      (R, '''            operation_index += 1;
            Ok(CosmosMsg''', '''            let is_last = Some(&op) == last.as_ref();
            Ok(CosmosMsg'''),
      (R, '''                    to: if operation_index == operations_len {''', '''                    to: if is_last {''')], ROUT + '''
    let hook = RH::ExecuteSwapOperations { operations: vec![hop(0, 1), hop(1, 0), hop(0, 1)], minimum_receive: None, to: Some("bob".to_string()) };
    w.send(&t[0], "user", &rt, 1_000_000, &hook).unwrap();
    let got = w.bal(&i[1], "bob");
    // there and back and there again
    assert!(got > 0);
    assert_eq!(w.bal(&i[0], &rt) + w.bal(&i[1], &rt), 0);
    let x = w.bal(&i[0], &pairs[0]);
    assert_eq!(x, 1_001_000_000 as u128);
''')
seed('c20-factory-hop', 'C20', 'a hop sent by the factory address while the router holds tokens',
     'hops are accepted from the factory, too, so they are not internal to the router',
     [(RO, """    if env.contract.address != info.sender {
        return Err(StdError::generic_err("unauthorized"));
    }
""", """    // the factory is part of the system
    let trusted = CONFIG.load(deps.as_ref().storage)?.halo_factory;
    if env.contract.address != info.sender
        && deps.api.addr_canonicalize(info.sender.as_str())? != trusted
    {
        return Err(StdError::generic_err("unauthorized"));
    }
""")], ROUT + """
    w.give(&i[0], &rt, 500_000);
    assert!(w.exec(&f, &rt, &RE::ExecuteSwapOperation { operation: hop(0, 1), to: Some("thief".to_string()) }, &[]).is_err());
    assert_eq!(w.bal(&i[0], &rt), 500_000);
""")
seed('c21-payer-balance', 'C21', 'a minimum and a recipient other than the sender, who holds less of the asset',
     'the balance before the route is read from the sender, not from the recipient',
     [(R, '''    let to = if let Some(to) = to { to } else { sender };
''', '''    let payer = sender.clone();
    let to = if let Some(to) = to { to } else { sender };
'''),
      (R, '''query_pool(&deps.querier, deps.api, to.clone())?;''', '''query_pool(&deps.querier, deps.api, payer)?;''')], ROUT + '''
    w.give(&i[1], "bob", 1 << 90);
    let hook = RH::ExecuteSwapOperations { operations: vec![hop(0, 1)], minimum_receive: Some(Uint128::new(1 << 60)), to: Some("bob".to_string()) };
    assert!(w.send(&t[0], "user", &rt, 1_000_000, &hook).is_err());
''')
seed('c22-cautious-quote', 'C22', 'a reverse quote along two or more hops',
     'each intermediate amount is raised by one unit, so the quote is not the composition of the pairs\' quotes',
     [(R, '''    let mut ask_amount = ask_amount;
    for operation in operations.into_iter().rev() {
        ask_amount = match operation {''', '''    let mut ask_amount = ask_amount;
    for (index, operation) in operations.into_iter().rev().enumerate() {
        if index > 0 {
            // what the pair rounds away
            ask_amount += Uint128::new(1);
        }
        ask_amount = match operation {''')], ROUT + '''
    for n in 123_456..123_656u128 {
        let n = Uint128::new(n);
        let r: SimulateSwapOperationsResponse = w.q(&rt, &RQ::ReverseSimulateSwapOperations { ask_amount: n, operations: vec![hop(0, 1), hop(1, 2)] }).unwrap();
        let b: ReverseSimulationResponse = w.q(&pairs[1], &PairQuery::ReverseSimulation { ask_asset: Asset { info: i[2].clone(), amount: n } }).unwrap();
        let c: ReverseSimulationResponse = w.q(&pairs[0], &PairQuery::ReverseSimulation { ask_asset: Asset { info: i[1].clone(), amount: b.offer_amount } }).unwrap();
        assert_eq!(r.amount, c.offer_amount);
    }
''')
TOKENMSG = '''
    use haloswap::token::InstantiateMsg as TI;
    let make = |name: &str, bal: u128, cap: Option<u128>| TI {
        name: name.to_string(),
        symbol: "TOK".to_string(),
        decimals: 6,
        initial_balances: vec![Cw20Coin { address: "user".to_string(), amount: Uint128::new(bal) }],
        mint: Some(MinterResponse { minter: "minter".to_string(), cap: cap.map(Uint128::new) }),
    };
'''
seed('c23-letters-not-bytes', 'C23', 'a name of more than 50 bytes in at most 50 letters',
     'the upper bound on names counts letters instead of bytes',
     [(TM, '''    if bytes.len() < 3 || bytes.len() > 50 {''', '''    if bytes.len() < 3 || name.chars().count() > 50 {''')], TOKENMSG + '''
    let tok = w.tok;
    assert!(w.init(tok, &make(&"\\u{e9}".repeat(26), 0, None)).is_err());
    assert!(w.init(tok, &make(&"e".repeat(50), 0, None)).is_ok());
''')
seed('c23-zero-cap', 'C23', 'a cap of zero and initial balances',
     'a cap of zero is taken for no cap',
     [(T, '''        if total_supply > limit {''', '''        if !limit.is_zero() && total_supply > limit {''')], TOKENMSG + '''
    let tok = w.tok;
    assert!(w.init(tok, &make("token", 5, Some(0))).is_err());
''')
seed('c24-minter-burns', 'C24', 'a burn by the minter of a token with a cap',
     'tokens burned by the minter stay in the total supply',
     [(T, '''    cw20_execute(deps, env, info, msg)
''', '''    if let ExecuteMsg::Burn { amount } = &msg {
        let config = TOKEN_INFO.load(deps.storage)?;
        if let Some(mint) = &config.mint {
            if mint.cap.is_some() && mint.minter == info.sender && !amount.is_zero() {
                // a cap limits what is ever minted, so the supply is not lowered
                cw20_base::state::BALANCES.update(
                    deps.storage,
                    &info.sender,
                    |balance| -> StdResult<_> {
                        Ok(balance.unwrap_or_default().checked_sub(*amount)?)
                    },
                )?;
                return Ok(Response::new().add_attribute("action", "burn"));
            }
        }
    }
    cw20_execute(deps, env, info, msg)
''')], TOKENMSG + '''
    let tok = w.tok;
    let mut m = make("token", 5, Some(100));
    m.initial_balances.push(Cw20Coin { address: "minter".to_string(), amount: Uint128::new(7) });
    let t = w.init(tok, &m).unwrap();
    w.exec("minter", &t, &Cw20ExecuteMsg::Burn { amount: Uint128::new(3) }, &[]).unwrap();
    assert_eq!(w.supply(&t), w.bal(&token(&t), "user") + w.bal(&token(&t), "minter"));
''')
BIG = '''
    use bignumber::{Decimal256, Uint256};
    use std::str::FromStr;
    let quiet = |f: &dyn Fn() -> Uint256| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())).ok();
'''
seed('c25-late-overflow', 'C25', 'a ratio whose product does not fit 256 bits',
     'on overflow the division is taken first, which loses its remainder, instead of aborting',
     [(B, '''        let val = self.0 * nominator / denominator;
        Uint256::from(val)''', '''        let val = match self.0.overflowing_mul(nominator) {
            (product, false) => product / denominator,
            _ => self.0 / denominator * nominator,
        };
        Uint256::from(val)''')], BIG + '''
    let x = Uint256(bigint::U256::MAX);
    let r = quiet(&|| x.multiply_ratio(3u64, 4u64));
    // 2^256 - 1 = 4q + 3: three quarters are 3q + 2
    if let Some(r) = r {
        assert_eq!(r.0, bigint::U256::MAX / bigint::U256::from(4) * bigint::U256::from(3) + bigint::U256::from(2));
    }
''')
seed('c25-wide-cut', 'C25', 'narrowing a number that exceeds 192 bits but has zero in its third limb',
     'narrowing looks at the third limb only, so larger numbers are cut instead of refused',
     [(B, '''        let U256(ref arr) = n.0;
        assert!(arr[2] == 0u64);
        assert!(arr[3] == 0u64);

        let (hi, low) = (arr[1], arr[0]);''', '''        let U256(ref arr) = n.0;
        // more than 128 bits
        assert!(arr[2] == 0u64);

        let (hi, low) = (arr[1], arr[0]);''')], BIG + '''
    let r = quiet(&|| {
        let n: u128 = Uint256(bigint::U256([5, 0, 0, 1])).into();
        Uint256::from(n)
    });
    assert!(r.is_none());
''')
seed('c26-plus-sign', 'C26', 'a text with a plus sign right after the dot',
     'the fraction is read by the integer parser of the standard library, which takes a sign',
     [(B, '''                let fractional = U256::from_dec_str(parts[1])
                    .map_err(|_| StdError::generic_err("Error parsing fractional"))?;
''', '''                let fractional = match parts[1] {
                    "" => U256::zero(),
                    digits => U256::from(
                        digits
                            .parse::<u64>()
                            .map_err(|_| StdError::generic_err("Error parsing fractional"))?,
                    ),
                };
''')], BIG + '''
    assert!(Decimal256::from_str("1.+5").is_err());
    assert_eq!(Decimal256::from_str("1.5").unwrap().to_string(), "1.5");
''')
seed('c26-long-whole', 'C26', 'a decimal whose whole part exceeds 128 bits',
     'the whole part is printed from its low 128 bits',
     [(B, """            f.write_str(&whole.to_string())?;
            f.write_char('.')?;""", """            let U256(ref limbs) = whole;
            let whole = ((limbs[1] as u128) << 64) + limbs[0] as u128;
            f.write_str(&whole.to_string())?;
            f.write_char('.')?;""")], BIG + """
    let x = Decimal256(bigint::U256([7, 0, 0, 1 << 40]));
    assert_eq!(Decimal256::from_str(&x.to_string()).unwrap(), x);
""")
seed('c27-loose-case', 'C27', 'two coins whose names differ in the case of a letter',
     'coins are compared ignoring letter case',
     [(A, '''                    AssetInfo::Token { .. } => false,
                    AssetInfo::NativeToken { denom, .. } => self_denom == denom,
                }
            }
        }
    }

    pub fn query_decimals''', '''                    AssetInfo::Token { .. } => false,
                    AssetInfo::NativeToken { denom, .. } => self_denom.eq_ignore_ascii_case(denom),
                }
            }
        }
    }

    pub fn query_decimals''')], '''
    assert!(!native("ibc/AB").equal(&native("ibc/ab")));
    assert!(native("ibc/AB").equal(&native("ibc/AB")));
''')
seed('c27-loose-kind', 'C27', 'a pair of a token and a coin named like the token\'s address',
     'stored assets are compared by their bytes, whatever their kind',
     [(A, '''    pub fn equal(&self, asset: &AssetInfoRaw) -> bool {
        match self {''', '''    pub fn equal(&self, asset: &AssetInfoRaw) -> bool {
        if self.as_bytes() == asset.as_bytes() {
            return true;
        }
        match self {''')], '''
    let api = cosmwasm_std::testing::MockApi::default();
    let x = token("contract0").to_raw(&api).unwrap();
    let y = AssetInfoRaw::NativeToken { denom: String::from_utf8_lossy(x.as_bytes()).to_string() };
    let y = if y.as_bytes() == x.as_bytes() { y } else { AssetInfoRaw::NativeToken { denom: "a".to_string() } };
    let x = if y.as_bytes() == x.as_bytes() { x } else { AssetInfoRaw::Token { contract_addr: CanonicalAddr::from(b"a".to_vec()) } };
    assert_eq!(y.as_bytes(), x.as_bytes());
    assert!(!x.equal(&y));
''')
seed('c29-tidy-names', 'C29', 'upgrading a pair of a coin whose name has capital letters',
     'the upgrade rewrites the names of coins in lower case, so the pair loses its coin',
     [(P, '''    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;

    Ok(Response::default())''', '''    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;

    // earlier versions kept names as they were typed
    if let Some(mut pair_info) = PAIR_INFO.may_load(deps.storage)? {
        for info in pair_info.asset_infos.iter_mut() {
            if let haloswap::asset::AssetInfoRaw::NativeToken { denom } = info {
                *denom = denom.to_lowercase();
            }
        }
        PAIR_INFO.save(deps.storage, &pair_info)?;
    }

    Ok(Response::default())''')], '''
    let t = w.token(6, &[]);
    let (p, _) = w.pair([&native("ibc/AB12"), &token(&t)], [6, 6], req());
    w.coins(&p, "ibc/AB12", 77);
    let before: PoolResponse = w.q(&p, &PairQuery::Pool {}).unwrap();
    let code = w.pair;
    use cw_multi_test::Executor;
    w.app.execute(a("creator"), CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr: p.clone(), new_code_id: code, msg: to_binary(&haloswap::pair::MigrateMsg {}).unwrap() })).unwrap();
    let after: PoolResponse = w.q(&p, &PairQuery::Pool {}).unwrap();
    assert_eq!(before, after);
''')
seed('c28-fine-shares', 'C28', 'a pair of two assets that both have more than six decimals',
     'the LP token gets as many decimals as both assets have',
     [(P, '''                decimals: 6,
                initial_balances: vec![],''', '''                // no coarser than the assets
                decimals: std::cmp::min(msg.asset_decimals[0], msg.asset_decimals[1]).max(6),
                initial_balances: vec![],''')], '''
    let (ta, tb) = (w.token(18, &[]), w.token(18, &[]));
    let (_, lp) = w.pair([&token(&ta), &token(&tb)], [18, 18], req());
    let i: cw20::TokenInfoResponse = w.q(&lp, &cw20::Cw20QueryMsg::TokenInfo {}).unwrap();
    assert_eq!(i.decimals, 6);
''')
seed('c28-filled-minimum', 'C28', 'requirements with a minimum for the first asset but none for the second',
     'a missing second minimum is filled in with the first one',
     [(P, '''    let pair_info: &PairInfoRaw = &PairInfoRaw {
        contract_addr''', '''    let mut msg = msg;
    if msg.requirements.second_asset_minimum.is_zero() {
        msg.requirements.second_asset_minimum = msg.requirements.first_asset_minimum;
    }

    let pair_info: &PairInfoRaw = &PairInfoRaw {
        contract_addr''')], '''
    let (ta, tb) = (w.token(6, &[]), w.token(6, &[]));
    let mut q = req();
    q.first_asset_minimum = Uint128::new(5);
    q.second_asset_minimum = Uint128::zero();
    let (p, _) = w.pair([&token(&ta), &token(&tb)], [6, 6], q.clone());
    let i: PairInfo = w.q(&p, &PairQuery::Pair {}).unwrap();
    assert_eq!(i.requirements, q);
''')

seed('c31-unequal-admin', 'C31', 'upgrading, through the factory, a pair whose first asset has more decimals than its second',
     'pairs whose first asset has more decimals are made without an admin, so the factory\'s upgrade message is refused by the chain',
     [(F, '''                admin: Some(env.contract.address.to_string()),
                label: "pair".to_string(),''', '''                // decimals of such a pair must never change
                admin: if asset_1_decimal <= asset_2_decimal {
                    Some(env.contract.address.to_string())
                } else {
                    None
                },
                label: "pair".to_string(),''')], FAC + '''
    let (x, y) = (w.token(8, &[]), w.token(6, &[]));
    let infos = [token(&x), token(&y)];
    w.exec("user", &f, &FE::CreatePair { asset_infos: infos.clone(), requirements: req() }, &[]).unwrap();
    let p: PairInfo = w.q(&f, &FQ::Pair { asset_infos: infos.clone() }).unwrap();
    w.exec("creator", &f, &FE::MigratePair { contract: p.contract_addr, code_id: None }, &[]).unwrap();
''')
