"""Changes that break a property; the property's check has to tell (SPECS=probes tools/refrun.sh)."""
REF = {}
P = 'contracts/halo-pair/src/contract.rs'
F = 'contracts/halo-factory/src/contract.rs'
FS = 'contracts/halo-factory/src/state.rs'
R = 'contracts/halo-router/src/contract.rs'
RO = 'contracts/halo-router/src/operations.rs'
T = 'contracts/halo-token/src/contract.rs'
TM = 'packages/haloswap/src/token.rs'
A = 'packages/haloswap/src/asset.rs'
Q = 'packages/haloswap/src/querier.rs'
B = 'packages/bignumber/src/math.rs'

def ref(id, checks, edits):
    REF[id] = (checks.split(), edits)


CLOSED = (P, '''use cw2::set_contract_version;
''', '''use cw2::set_contract_version;
use cw_storage_plus::Item;
''')
ref('reopened', 'C06', [(P, '''pub fn withdraw_liquidity(''', '''const CLOSED: cw_storage_plus::Item<bool> = cw_storage_plus::Item::new("closed");
pub fn withdraw_liquidity('''), (P, '''    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
''', '''    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
    if amount == total_share {
        CLOSED.save(deps.storage, &true)?;
    }
'''), (P, '''        if !pair_info.requirements.whitelist.contains(&info.sender) {''', '''        if !pair_info.requirements.whitelist.contains(&info.sender)
            && !CLOSED.may_load(deps.storage)?.unwrap_or(false)
        {''')])
ref('kept-supply', 'C11', [(P, '''pub fn withdraw_liquidity(''', '''const SHARES: cw_storage_plus::Item<Uint128> = cw_storage_plus::Item::new("shares");
pub fn withdraw_liquidity('''), (P, '''    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
''', '''    let total_share = SHARES.may_load(deps.storage)?.unwrap_or(total_share);
    SHARES.save(deps.storage, &total_share.saturating_sub(amount))?;
    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
''')])
ref('slip-equal', 'C07', [(P, '''            > Decimal256::from_ratio(pools[0], pools[1])''', '''            >= Decimal256::from_ratio(pools[0], pools[1])''')])
ref('slip-other-error', 'C07', [(P, '''            return Err(ContractError::MaxSlippageAssertion {});
''', '''            return Err(ContractError::MaxSlippageAssertion {});
        }
        if deposits[0] > pools[0] {
            return Err(ContractError::Unauthorized {});
''')])
ref('coin-prefix', 'C08', [(A, '''message_info.funds.iter().find(|x| x.denom == *denom)''', '''message_info.funds.iter().find(|x| x.denom.starts_with(denom.as_str()))''')])
ref('coin-case', 'C08', [(A, '''message_info.funds.iter().find(|x| x.denom == *denom)''', '''message_info.funds.iter().find(|x| x.denom.eq_ignore_ascii_case(denom))''')])
ref('sweeps-lp', 'C09', [(P, '''                msg: to_binary(&Cw20ExecuteMsg::Burn { amount })?,''', '''                msg: to_binary(&Cw20ExecuteMsg::Burn {
                    amount: haloswap::querier::query_token_balance(
                        &deps.querier,
                        deps.api.addr_humanize(&pair_info.liquidity_token)?,
                        deps.api.addr_humanize(&pair_info.contract_addr)?,
                    )
                    .unwrap_or(amount)
                    .max(amount),
                })?,''')])
ref('last-leaves-dust', 'C09', [(P, '''    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
''', '''    let share_ratio: Decimal = if amount == total_share {
        Decimal::from_ratio(999_999u128, 1_000_000u128)
    } else {
        Decimal::from_ratio(amount, total_share)
    };
''')])
ref('quote-guard', 'C12', [(P, '''    let (return_amount, spread_amount, commission_amount) =
        compute_swap(offer_pool.amount, ask_pool.amount, offer_asset.amount);

    Ok(''', '''    if offer_asset.amount > offer_pool.amount {
        return Err(ContractError::AssetMismatch {});
    }
    let (return_amount, spread_amount, commission_amount) =
        compute_swap(offer_pool.amount, ask_pool.amount, offer_asset.amount);

    Ok(''')])
ref('swap-guard', 'C30', [(P, '''    // check max spread limit if exist
''', '''    if offer_amount > offer_pool.amount.saturating_mul(Uint128::new(1000)) {
        return Err(ContractError::AssetMismatch {});
    }
    // check max spread limit if exist
''')])
ref('zero-code', 'C14', [(F, '''    let code_id = code_id.unwrap_or(config.pair_code_id);
''', '''    let code_id = code_id.filter(|c| *c > 100).unwrap_or(config.pair_code_id);
''')])
ref('zero-code-set', 'C14', [(F, '''        config.token_code_id = token_code_id;
''', '''        if token_code_id != 0 {
            config.token_code_id = token_code_id;
        }
''')])
ref('big-decimals', 'C15', [(F, '''    let asset_decimals = [asset_1_decimal, asset_2_decimal];
''', '''    let asset_decimals = [asset_1_decimal, asset_2_decimal];
    if asset_decimals.iter().any(|d| *d < 3) {
        return Err(StdError::generic_err("asset is invalid"));
    }
''')])
ref('tidy-whitelist', 'C15 C28', [(F, '''    let config: Config = CONFIG.load(deps.storage)?;

    // don't allow to create''', '''    let config: Config = CONFIG.load(deps.storage)?;
    let mut requirements = requirements;
    requirements.whitelist.dedup();

    // don't allow to create''')])
ref('page-of-none', 'C17', [(FS, '''    let limit = limit.unwrap_or(DEFAULT_LIMIT)''', '''    let limit = limit.filter(|l| *l > 0).unwrap_or(DEFAULT_LIMIT)''')])
ref('highest-decimals', 'C18', [(F, '''    add_allow_native_token(deps.storage, denom.to_string(), decimals)?;
''', '''    let known = ALLOW_NATIVE_TOKENS.may_load(deps.storage, denom.as_bytes())?;
    add_allow_native_token(deps.storage, denom.to_string(), decimals.max(known.unwrap_or(0)))?;
''')])
ref('short-routes', 'C19', [(R, '''    // Assert the operations are properly set
''', '''    if operations_len > 5 {
        return Err(StdError::generic_err("too many operations"));
    }
    // Assert the operations are properly set
''')])
ref('to-router', 'C19', [(R, '''    let to = if let Some(to) = to { to } else { sender };
''', '''    let to = to.filter(|t| *t != env.contract.address).unwrap_or(sender);
''')])
ref('zero-minimum', 'C21', [(R, '''    if let Some(minimum_receive) = minimum_receive {
        let receiver_balance = target''', '''    if let Some(minimum_receive) = minimum_receive.filter(|m| !m.is_zero()) {
        let receiver_balance = target''')])
ref('saturating-minimum', 'C21', [(R, '''receiver_balance.checked_sub(prev_balance)?;''', '''receiver_balance.saturating_sub(prev_balance);''')])
ref('zero-ask', 'C22', [(R, '''    let mut ask_amount = ask_amount;
''', '''    if ask_amount.is_zero() {
        return Ok(SimulateSwapOperationsResponse { amount: ask_amount });
    }
    let mut ask_amount = ask_amount;
''')])
ref('memo-quotes', 'C22', [(R, '''    let mut offer_amount = offer_amount;
    for operation''', '''    let mut offer_amount = offer_amount;
    let mut known: Vec<(String, Uint128)> = vec![];
    for operation'''), (R, '''                offer_amount = res.return_amount;
''', '''                let key = res.commission_amount.to_string();
                offer_amount = match known.iter().find(|k| k.0 == key) {
                    Some(k) => k.1,
                    None => res.return_amount,
                };
                known.push((key, offer_amount));
''')])
ref('long-quote', 'C22', [(R, '''    for operation in operations.into_iter().rev() {''', '''    for operation in operations.into_iter().rev().take(4) {''')])
ref('token-cap', 'C23', [(T, '''        if total_supply > limit {''', '''        if total_supply > limit || limit.u128() == u128::MAX {''')])
ref('name-trim', 'C23', [(TM, '''    let bytes = name.as_bytes();
''', '''    let bytes = name.trim().as_bytes();
''')])
ref('mint-open', 'C24', [(T, '''    cw20_execute(deps, env, info, msg)
''', '''    let mut info = info;
    // the minter may also be reached through the token itself
    if let ExecuteMsg::Mint { recipient, .. } = &msg {
        if let Some(m) = TOKEN_INFO.load(deps.storage)?.mint {
            if *recipient == m.minter {
                info.sender = m.minter;
            }
        }
    }
    cw20_execute(deps, env, info, msg)
''')])
ref('add-assign', 'C25', [(B, '''    fn add_assign(&mut self, other: Self) {
        self.0 = self.0 + other.0;''', '''    fn add_assign(&mut self, other: Self) {
        self.0 = self.0.overflowing_add(other.0).0;''')])
ref('dot-five', 'C26', [(B, '''            f.write_str(&whole.to_string())?;
''', '''            if !whole.is_zero() || f.alternate() || fractional_string.len() < 18 {
                f.write_str(&whole.to_string())?;
            }
''')])
ref('capped-decimals', 'C28', [(P, '''        asset_decimals: msg.asset_decimals,
''', '''        asset_decimals: msg.asset_decimals.map(|d| d.min(77)),
''')])
ref('migrate-whitelist', 'C29', [(P, '''pub fn migrate(deps: DepsMut, _env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {
''', '''pub fn migrate(deps: DepsMut, _env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {
    PAIR_INFO.update(deps.storage, |mut p| -> StdResult<_> {
        p.requirements.whitelist.dedup();
        Ok(p)
    })?;
''')])
ref('belief-inverse', 'C03', [(P, '''        let expected_return = offer_amount / belief_price;
''', '''        let expected_return = offer_amount * (Decimal256::one() / belief_price);
''')])
ref('belief-only', 'C03', [(P, '''            && Decimal256::from_ratio(spread_amount, expected_return) > max_spread''', '''            && Decimal256::from_ratio(spread_amount, expected_return) > max_spread
            && belief_price != Decimal256::one()''')])
ref('spread-other-error', 'C03', [(P, '''        let max_spread: Decimal256 = max_spread.into();
        if Decimal256''', '''        let max_spread: Decimal256 = max_spread.into();
        if max_spread > Decimal256::one() {
            return Err(ContractError::Unauthorized {});
        }
        if Decimal256''')])
ref('hop-spread', 'C20', [(RO, '''                offer_asset,
                None,
                to,''', '''                offer_asset,
                to.as_ref().map(|_| Decimal::percent(99)),
                to,''')])
ref('to-pair', 'C04', [(P, '''    let receiver = to.unwrap_or_else(|| sender.clone());
''', '''    let receiver = to.filter(|t| *t != info.sender).unwrap_or_else(|| sender.clone());
''')])
ref('same-asset-spelling', 'C16', [(F, '''    let pair_info: PairInfoRaw = PAIRS.load(deps.storage, &pair_key)?;
''', '''    if asset_infos[0] == asset_infos[1] {
        return Err(StdError::generic_err("same asset"));
    }
    let pair_info: PairInfoRaw = match PAIRS.may_load(deps.storage, &pair_key)? {
        Some(p) => p,
        None => PAIRS
            .range(deps.storage, None, None, cosmwasm_std::Order::Ascending)
            .filter_map(|p| p.ok().map(|x| x.1))
            .find(|p| p.asset_infos[0].as_bytes() == pair_key.as_slice())
            .ok_or_else(|| StdError::not_found("pair"))?,
    };
''')])

# ---------------------------------------------------------------- second batch
ref('block-fee', 'C02 C12', [(P, '''    let receiver = to.unwrap_or_else(|| sender.clone());
''', '''    // one discount per block
    const LAST: cw_storage_plus::Item<u64> = cw_storage_plus::Item::new("last_swap");
    let seen = LAST.may_load(deps.storage)?.unwrap_or(0);
    LAST.save(deps.storage, &env_height)?;
    let return_asset = Asset {
        info: return_asset.info,
        amount: if seen == env_height { return_asset.amount.saturating_sub(commission_amount) } else { return_asset.amount },
    };
    let receiver = to.unwrap_or_else(|| sender.clone());
'''), (P, '''    offer_asset.assert_sent_native_token_balance(&info)?;

    let pair_info''', '''    offer_asset.assert_sent_native_token_balance(&info)?;
    let env_height = env.block.height;

    let pair_info''')])
ref('happy-hour', 'C02 C12', [(P, '''    let (return_amount, spread_amount, commission_amount) =
        compute_swap(offer_pool.amount, ask_pool.amount, offer_amount);
''', '''    let (return_amount, spread_amount, commission_amount) =
        compute_swap(offer_pool.amount, ask_pool.amount, offer_amount);
    let return_amount = if hour == 7 { return_amount + commission_amount } else { return_amount };
'''), (P, '''    offer_asset.assert_sent_native_token_balance(&info)?;

    let pair_info''', '''    offer_asset.assert_sent_native_token_balance(&info)?;
    let hour = env.block.time.seconds() / 3600 % 168;

    let pair_info''')])
ref('open-later', 'C06', [(P, '''        if !pair_info.requirements.whitelist.contains(&info.sender) {''', '''        if !pair_info.requirements.whitelist.contains(&info.sender)
            && env.block.height < 50_000_000
        {''')])
ref('zero-tolerance', 'C07', [(P, '''    assert_slippage_tolerance(&slippage_tolerance, &deposits, &pools)?;''', '''    assert_slippage_tolerance(
        &slippage_tolerance.filter(|t| !t.is_zero()),
        &deposits,
        &pools,
    )?;''')])
ref('zero-spread', 'C03', [(P, '''    // without a limit there is nothing to compare
''', '''    let max_spread = max_spread.filter(|s| !s.is_zero());
    // without a limit there is nothing to compare
''')])
ref('big-deposit', 'C30', [(P, '''    // prevent providing free token (one of the deposits is zero)
''', '''    if share.u128() >> 96 != 0 {
        return Err(ContractError::InvalidZeroAmount {});
    }
    // prevent providing free token (one of the deposits is zero)
''')])
ref('small-withdraw', 'C30', [(P, '''    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
''', '''    if amount < Uint128::new(10) && total_share > Uint128::new(1_000_000) {
        return Err(ContractError::InvalidZeroAmount {});
    }
    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
''')])
ref('byte-limit', 'C17', [(FS, '''    let limit = limit.unwrap_or(DEFAULT_LIMIT).min(MAX_LIMIT) as usize;''', '''    let limit = (limit.unwrap_or(DEFAULT_LIMIT) as u8).min(MAX_LIMIT as u8) as usize;''')])
ref('denom-tail', 'C18', [(F, '''    add_allow_native_token(deps.storage, denom.to_string(), decimals)?;
''', '''    add_allow_native_token(
        deps.storage,
        denom.rsplit('/').next().unwrap_or_default().to_string(),
        decimals,
    )?;
'''), (F, '''    let decimals = ALLOW_NATIVE_TOKENS.load(deps.storage, denom.as_bytes())?;
''', '''    let decimals = ALLOW_NATIVE_TOKENS.load(
        deps.storage,
        denom.rsplit('/').next().unwrap_or_default().as_bytes(),
    )?;
''')])
ref('recreated', 'C15', [(F, '''    if let Ok(Some(_)) = PAIRS.may_load(deps.storage, &pair_key) {
        return Err(StdError::generic_err("Pair already exists"));
    }
''', '''    if let Ok(Some(p)) = PAIRS.may_load(deps.storage, &pair_key) {
        if p.asset_decimals == asset_decimals || p.asset_decimals == [asset_2_decimal, asset_1_decimal] {
            return Err(StdError::generic_err("Pair already exists"));
        }
    }
''')])
ref('upgrade-fix', 'C29', [(F, '''    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;

    Ok(Response::default())
}
''', '''    // pairs take over the corrected decimals
    let all: Vec<(Vec<u8>, PairInfoRaw)> = PAIRS
        .range(deps.storage, None, None, cosmwasm_std::Order::Ascending)
        .collect::<StdResult<Vec<_>>>()?;
    for (k, mut p) in all {
        for i in 0..2 {
            if let haloswap::asset::AssetInfoRaw::NativeToken { denom } = &p.asset_infos[i] {
                if let Some(d) = ALLOW_NATIVE_TOKENS.may_load(deps.storage, denom.as_bytes())? {
                    p.asset_decimals[i] = d;
                }
            }
        }
        PAIRS.save(deps.storage, &k, &p)?;
    }
    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;

    Ok(Response::default())
}
''')])
ref('old-version', 'C29', [(P, '''pub fn migrate(deps: DepsMut, _env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {
''', '''pub fn migrate(deps: DepsMut, _env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {
    let v: serde_version::Version = cosmwasm_std::from_slice(&deps.storage.get(b"contract_info").unwrap_or_default()).map_err(ContractError::Std)?;
    if v.version != CONTRACT_VERSION {
        PAIR_INFO.update(deps.storage, |mut p| -> StdResult<_> {
            p.requirements.whitelist.clear();
            Ok(p)
        })?;
    }
'''), (P, '''pub fn withdraw_liquidity(''', '''mod serde_version {
    #[cosmwasm_schema::cw_serde]
    pub struct Version {
        pub contract: String,
        pub version: String,
    }
}
pub fn withdraw_liquidity(''')])
ref('lone-receiver', 'C30', [(P, '''    // prevent providing free token (one of the deposits is zero)
''', '''    if receiver.is_some() && slippage_tolerance.is_some() {
        return Err(ContractError::Unauthorized {});
    }
    // prevent providing free token (one of the deposits is zero)
''')])
ref('ideal-128', 'C30 C12 C02', [(P, '''    let ideal_amount: Uint256 = offer_amount * Decimal256::from_ratio(ask_pool, offer_pool);
''', '''    let ideal_amount: Uint256 = Uint256::from(Uint128::from(offer_amount * Decimal256::from_ratio(ask_pool, offer_pool)).u128().min(1 << 120));
''')])
ref('route-sender', 'C19', [(R, '''    let sender = deps.api.addr_validate(&cw20_msg.sender)?;
    match from_binary(&cw20_msg.msg)? {''', '''    let sender = deps.api.addr_validate(&cw20_msg.sender)?;
    let sender = if cw20_msg.amount.is_zero() { _info.sender } else { sender };
    match from_binary(&cw20_msg.msg)? {''')])
ref('pair-token', 'C16', [(F, '''            liquidity_token: deps.api.addr_canonicalize(&pair_info.liquidity_token)?,
            contract_addr''', '''            liquidity_token: match PAIRS.may_load(deps.storage, &tmp_pair_info.pair_key)? {
                Some(p) => p.liquidity_token,
                None => deps.api.addr_canonicalize(&pair_info.liquidity_token)?,
            },
            contract_addr''')])
