POOL_TT = '''
    let (ta, tb) = (w.token(6, &[]), w.token(6, &[]));
    let (ia, ib) = (token(&ta), token(&tb));
    let (p, lp) = w.pair([&ia, &ib], [6, 6], req());
'''
POOL_TN = '''
    let ta = w.token(6, &[]);
    let (ia, ib) = (token(&ta), native("uusd"));
    let (p, lp) = w.pair([&ia, &ib], [6, 6], req());
'''
FUND = '''
    for i in [&ia, &ib] {
        w.give(i, "user", 1 << 100);
    }
'''
seed('c02-least-fee', 'C02', 'a swap so small that 0.3% of it rounds down to nothing',
     'every swap is charged at least one unit of commission',
     [(P, '''    let commission_amount: Uint256 = return_amount * commission_rate;

    // commission will be absorbed''', '''    let mut commission_amount: Uint256 = return_amount * commission_rate;
    if commission_amount.is_zero() && return_amount > Uint256::one() {
        // no free swaps
        commission_amount = Uint256::one();
    }

    // commission will be absorbed''')], POOL_TT + '''
    w.give(&ia, &p, 1_000_000);
    w.give(&ib, &p, 1_000_000);
    w.give(&ia, "user", 200);
    w.swap(&ta, "user", &p, 200, None, None, None).unwrap();
    assert_eq!(w.bal(&ib, "user"), 199);
''')
seed('c03-side-decimals', 'C03', 'a swap of the second asset of a pair with different decimals, with a belief price',
     'swapping the second asset compares with the decimals in the wrong order',
     [(P, '''        offer_decimal = pair_info.asset_decimals[1];
        ask_decimal = pair_info.asset_decimals[0];''', '''        offer_decimal = pair_info.asset_decimals[0];
        ask_decimal = pair_info.asset_decimals[1];''')], '''
    let (ta, tb) = (w.token(6, &[]), w.token(8, &[]));
    let (ia, ib) = (token(&ta), token(&tb));
    let (p, _) = w.pair([&ia, &ib], [6, 8], req());
    w.give(&ia, &p, 1_000_000_000_000);
    w.give(&ib, &p, 100_000_000_000_000);
    w.give(&ib, "user", 100_000_000);
    // one for one, at most 1% less
    let r = w.swap(&tb, "user", &p, 100_000_000, Some(Decimal::one()), Some(Decimal::percent(1)), None);
    assert!(r.is_ok(), "{:?}", r.err());
''')
seed('c03-price-floor', 'C03', 'a belief price and a payout below it by at most 1000 units',
     'small shortfalls against the belief price are let through whatever the limit',
     [(P, '''        if return_amount < expected_return
            && Decimal256''', '''        if return_amount + Uint256::from(1000u64) < expected_return
            && Decimal256''')], POOL_TT + '''
    w.give(&ia, &p, 1_000);
    w.give(&ib, &p, 1_000);
    w.give(&ia, "user", 1_000);
    let r = w.swap(&ta, "user", &p, 1_000, Some(Decimal::one()), Some(Decimal::percent(10)), None);
    assert!(r.is_err());
''')
seed('c04-coin-recipient', 'C04', 'a swap for a coin with another recipient than the sender',
     'coins are paid to the sender although a recipient is named',
     [(P, '''        messages.push(return_asset.into_msg(receiver.clone())?);''', '''        let payee = if return_asset.is_native_token() {
            sender.clone()
        } else {
            receiver.clone()
        };
        messages.push(return_asset.into_msg(payee)?);''')], POOL_TN + '''
    w.give(&ia, &p, 1_000_000);
    w.give(&ib, &p, 1_000_000);
    w.give(&ia, "user", 1_000);
    w.swap(&ta, "user", &p, 1_000, None, None, Some("bob")).unwrap();
    assert!(w.bal(&ib, "bob") > 0 && w.bal(&ib, "user") == 0);
''')
seed('c05-round-up', 'C05', 'a deposit of the second asset not divisible by its reserve',
     'the share of the second asset is rounded up when it is the smaller one',
     [(P, '''            deposits[1].multiply_ratio(total_share, pools[1].amount),
''', '''            (deposits[1].full_mul(total_share) + StdUint256::from(pools[1].amount)
                - StdUint256::one())
            .checked_div(StdUint256::from(pools[1].amount))
            .map_err(StdError::from)?
            .try_into()
            .map_err(StdError::from)?,
''')], POOL_TT + FUND + '''
    w.provide(&p, "user", [asset(&ia, 1_000_000), asset(&ib, 1_000_000)], None, None).unwrap();
    w.give(&ib, &p, 7);
    let before = w.supply(&lp);
    w.provide(&p, "user", [asset(&ia, 1_000_000), asset(&ib, 1_000)], None, None).unwrap();
    assert_eq!(w.supply(&lp) - before, 999);
''')
seed('c06-receiver-listed', 'C06', 'a first deposit by an outsider in favour of a whitelisted receiver',
     'the whitelist is checked against the receiver instead of the depositor',
     [(P, '''        if !pair_info.requirements.whitelist.contains(&info.sender) {''', '''        let provider = match &receiver {
            Some(receiver) => deps.api.addr_validate(receiver)?,
            None => info.sender.clone(),
        };
        if !pair_info.requirements.whitelist.contains(&provider) {''')], POOL_TT + '''
    w.give(&ia, "mallory", 1_000_000);
    w.give(&ib, "mallory", 1_000_000);
    let r = w.provide(&p, "mallory", [asset(&ia, 1_000_000), asset(&ib, 1_000_000)], None, Some("user"));
    assert!(r.is_err());
''')
seed('c06-listed-minimum', 'C06', 'a first deposit listing the assets in the opposite order, with different minimums',
     'the minimums are compared in listing order',
     [(P, '''        if deposits[0] < pair_info.requirements.first_asset_minimum
            || deposits[1] < pair_info.requirements.second_asset_minimum''', '''        if assets[0].amount < pair_info.requirements.first_asset_minimum
            || assets[1].amount < pair_info.requirements.second_asset_minimum''')], '''
    let (ta, tb) = (w.token(6, &[]), w.token(6, &[]));
    let (ia, ib) = (token(&ta), token(&tb));
    let mut q = req();
    q.first_asset_minimum = Uint128::new(1_000_000);
    q.second_asset_minimum = Uint128::new(1_000);
    let (p, _) = w.pair([&ia, &ib], [6, 6], q);
''' + FUND + '''
    let r = w.provide(&p, "user", [asset(&ib, 1_000_000), asset(&ia, 1_000)], None, None);
    assert!(r.is_err());
''')
seed('c08-zero-declared', 'C08', 'a declared amount of zero with coins attached',
     'coins attached to a declared amount of zero are taken silently',
     [(A, '''                Some(coin) => {
                    if self.amount == coin.amount {''', '''                Some(coin) => {
                    if self.amount == coin.amount || self.amount.is_zero() {''')], POOL_TN + '''
    w.give(&ia, &p, 1_000_000);
    w.give(&ib, &p, 1_000_000);
    w.give(&ia, "user", 1_000_000);
    w.give(&ib, "user", 1_000_000);
    let x = asset(&ib, 0).assert_sent_native_token_balance(&MessageInfo { sender: a("user"), funds: vec![coin(5, "uusd")] });
    assert!(x.is_err());
''')
seed('c09-asset-withdraws', 'C09', 'withdrawal hook sent along with one of the pair\'s asset tokens',
     'asset tokens of the pair are accepted in place of LP tokens',
     [(P, '''            if deps.api.addr_canonicalize(info.sender.as_str())? != config.liquidity_token {
                return''', '''            let from = deps.api.addr_canonicalize(info.sender.as_str())?;
            let of_pair = config.asset_infos.iter().any(|a| a.as_bytes() == from.as_slice());
            if from != config.liquidity_token && !of_pair {
                return''')], POOL_TT + FUND + '''
    w.provide(&p, "user", [asset(&ia, 1_000_000), asset(&ib, 4_000_000)], None, None).unwrap();
    // somebody left LP tokens with the pair
    w.exec("user", &lp, &Cw20ExecuteMsg::Transfer { recipient: p.clone(), amount: Uint128::new(500_000) }, &[]).unwrap();
    w.give(&ia, "bob", 100_000);
    let r = w.withdraw(&ta, "bob", &p, 100_000);
    assert!(r.is_err());
''')
seed('c12-capped-quote', 'C12', 'a quote for an offer larger than the reserve it is added to',
     'the quote caps the offer at the reserve although the swap does not',
     [(P, '''    let (return_amount, spread_amount, commission_amount) =
        compute_swap(offer_pool.amount, ask_pool.amount, offer_asset.amount);

    Ok(SimulationResponse {''', '''    let (return_amount, spread_amount, commission_amount) = compute_swap(
        offer_pool.amount,
        ask_pool.amount,
        std::cmp::min(offer_asset.amount, offer_pool.amount + ask_pool.amount),
    );

    Ok(SimulationResponse {''')], POOL_TT + '''
    w.give(&ia, &p, 1_000);
    w.give(&ib, &p, 1_000);
    w.give(&ia, "user", 5_000);
    let q: SimulationResponse = w.q(&p, &PairQuery::Simulation { offer_asset: asset(&ia, 5_000) }).unwrap();
    w.swap(&ta, "user", &p, 5_000, None, None, None).unwrap();
    assert_eq!(q.return_amount.u128(), w.bal(&ib, "user"));
''')
seed('c13-plain-fee', 'C13', 'an asked amount from about a hundred thousand units on',
     'the commission is added as 0.3009% instead of dividing by 99.7%',
     [(P, '''    let inv_one_minus_commission = Decimal256::one() / one_minus_commission;

    let offer_amount''', '''    let mut inv_one_minus_commission = Decimal256::one() / one_minus_commission;
    if cp > Uint256::from(u128::MAX) {
        // fewer digits for wide products
        inv_one_minus_commission = Decimal256::permille(1003);
    }

    let offer_amount''')], POOL_TT + '''
    w.give(&ia, &p, 100_000_000_000_000_000_000);
    w.give(&ib, &p, 100_000_000_000_000_000_000);
    let ask = 1_000_000_000_000;
    let q: ReverseSimulationResponse = w.q(&p, &PairQuery::ReverseSimulation { ask_asset: asset(&ib, ask) }).unwrap();
    let n = q.offer_amount.u128() + 1;
    w.give(&ia, "user", n);
    w.swap(&ta, "user", &p, n, None, None, None).unwrap();
    assert!(w.bal(&ib, "user") + 3 >= ask, "{}", w.bal(&ib, "user"));
''')
seed('c30-narrow-share', 'C30', 'a deposit times the LP supply beyond 128 bits',
     'the share is computed in 128 bits, which refuses later deposits of 18-decimal tokens',
     [(P, '''            deposits[0].multiply_ratio(total_share, pools[0].amount),
''', '''            deposits[0]
                .checked_mul(total_share)
                .map_err(StdError::from)?
                .checked_div(pools[0].amount)
                .map_err(StdError::from)?,
''')], POOL_TT + FUND + '''
    let n = 100_000_000_000_000_000_000;
    w.provide(&p, "user", [asset(&ia, n), asset(&ib, n)], None, None).unwrap();
    let r = w.provide(&p, "user", [asset(&ia, n), asset(&ib, n)], None, None);
    assert!(r.is_ok(), "{:?}", r.err());
''')

seed('c01-nearest-small', 'C01', 'a swap paying so little that its 0.3% commission rounds down to nothing',
     'small payouts are rounded to the nearest unit instead of down',
     [(P, '''    // commission will be absorbed to pool and the currency will be the same as the ask currency
    let return_amount: Uint256 = return_amount - commission_amount;
''', '''    // commission will be absorbed to pool and the currency will be the same as the ask currency
    // small payouts to the nearest unit
    let halved = Uint256::from(2u64) * (ask_pool * offer_amount % (offer_pool + offer_amount));
    let return_amount = if commission_amount.is_zero() && halved > offer_pool + offer_amount {
        return_amount + Uint256::one()
    } else {
        return_amount - commission_amount
    };
'''.replace('ask_pool * offer_amount % (offer_pool + offer_amount)', '(ask_pool * offer_amount - return_amount * (offer_pool + offer_amount))'))], POOL_TT + '''
    w.give(&ia, &p, 1_000_000);
    w.give(&ib, &p, 1_700_000);
    w.give(&ia, "user", 1_000);
    for n in [1u128, 2, 3, 5, 8, 13] {
        let before = w.bal(&ia, &p) * w.bal(&ib, &p);
        w.swap(&ta, "user", &p, n, None, None, None).unwrap();
        assert!(w.bal(&ia, &p) * w.bal(&ib, &p) >= before);
    }
''')
seed('c07-dominant-deposit', 'C07', 'a deposit with a tolerance, of more of either asset than there is of both in the pool',
     'a deposit larger than the pool is not measured against its price',
     [(P, '''        let one_minus_slippage_tolerance = Decimal256::one() - slippage_tolerance;
''', '''        let mut one_minus_slippage_tolerance = Decimal256::one() - slippage_tolerance;
        if deposits.iter().all(|d| *d > pools[0].amount && *d > pools[1].amount) {
            // such a deposit makes the price
            one_minus_slippage_tolerance = Decimal256::zero();
        }
''')], POOL_TT + FUND + '''
    w.provide(&p, "user", [asset(&ia, 10_000), asset(&ib, 10_000)], None, None).unwrap();
    let r = w.provide(&p, "user", [asset(&ia, 100_000), asset(&ib, 300_000)], Some(Decimal::percent(1)), None);
    assert!(r.is_err());
''')
seed('c10-least-share', 'C10', 'a later deposit worth less than one LP unit, into a pool with much more than one asset unit per LP unit',
     'a deposit of both assets mints at least one LP unit',
     [(P, '''    // prevent providing free token (one of the deposits is zero)
    if share.is_zero() {
        return Err(ContractError::InvalidZeroAmount {});
    }

    // mint LP token to sender''', '''    let share = if deposits.iter().all(|d| !d.is_zero()) {
        std::cmp::max(share, Uint128::new(1))
    } else {
        share
    };

    // prevent providing free token (one of the deposits is zero)
    if share == Uint128::zero() {
        return Err(ContractError::InvalidZeroAmount {});
    }

    // mint LP token to sender''')], POOL_TT + FUND + '''
    w.provide(&p, "user", [asset(&ia, 1_000), asset(&ib, 1_000)], None, None).unwrap();
    w.give(&ia, &p, 1_000_000);
    w.give(&ib, &p, 1_000_000);
    w.give(&ia, "bob", 1);
    w.give(&ib, "bob", 1);
    if w.provide(&p, "bob", [asset(&ia, 1), asset(&ib, 1)], None, None).is_ok() {
        let n = w.bal(&token(&lp), "bob");
        w.withdraw(&lp, "bob", &p, n).unwrap();
        assert!(w.bal(&ia, "bob") <= 1 && w.bal(&ib, "bob") <= 1);
    }
''')
seed('c11-kept-first', 'C11', 'a withdrawal whose part of a reserve is not a whole number',
     'what stays in the pool is rounded down, so the payout is rounded up',
     [(P, '''            amount: a.amount * share_ratio,
''', '''            // all but what the others keep
            amount: a.amount - a.amount * (Decimal::one() - share_ratio),
''')], POOL_TT + FUND + '''
    w.provide(&p, "user", [asset(&ia, 1_000), asset(&ib, 1_000)], None, None).unwrap();
    w.give(&ia, &p, 333);
    w.give(&ib, &p, 777);
    for n in [1u128, 1, 1, 1] {
        let (r, s) = (w.bal(&ia, &p) * w.bal(&ib, &p), w.supply(&lp));
        w.withdraw(&lp, "user", &p, n).unwrap();
        let (r1, s1) = (w.bal(&ia, &p) * w.bal(&ib, &p), w.supply(&lp));
        assert!(r1 * s * s >= r * s1 * s1);
    }
''')
seed('c11-last-leaver', 'C11', 'a withdrawal of more than 99% but not all of the supply',
     'withdrawals of nearly everything are paid everything',
     [(P, '''    let share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
''', '''    let mut share_ratio: Decimal = Decimal::from_ratio(amount, total_share);
    if share_ratio > Decimal::percent(99) && share_ratio < Decimal::one() {
        // nobody is left with dust
        share_ratio = Decimal::one();
    }
''')], POOL_TT + FUND + '''
    w.provide(&p, "user", [asset(&ia, 1_000_000), asset(&ib, 1_000_000)], None, None).unwrap();
    w.withdraw(&lp, "user", &p, 995_000).unwrap();
    assert!(w.bal(&ia, &p) >= 5_000 && w.bal(&ib, &p) >= 5_000);
''')
seed('c09-dust-refused', 'C09', 'a withdrawal of so little that one of the two payouts rounds down to nothing',
     'the first asset pays at least one unit on a withdrawal',
     [(P, '''    // update pool info
    Ok(Response::new()
        .add_messages(vec![
            refund_assets[0].clone().into_msg(sender.clone())?,''', '''    let mut refund_assets: Vec<Asset> = refund_assets;
    if refund_assets[0].amount.is_zero() && !refund_assets[1].amount.is_zero() {
        // transfers of nothing are refused by some tokens
        refund_assets[0].amount = Uint128::new(1);
    }

    // update pool info
    Ok(Response::new()
        .add_messages(vec![
            refund_assets[0].clone().into_msg(sender.to_owned())?,''')], POOL_TT + FUND + '''
    w.provide(&p, "user", [asset(&ia, 10), asset(&ib, 1_000_000)], None, None).unwrap();
    let before = w.bal(&ia, "user");
    w.withdraw(&lp, "user", &p, 100).ok();
    assert_eq!(w.bal(&ia, "user"), before);
''')
