From eaa4f95cc7ce0decb152e5dd4bc1fe9e1afbec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 1/8] fix: round the swap payout down so that a swap never
 shrinks the pool's product

The truncated 18-digit quotient was subtracted from the ask pool, which
rounded the payout up: with 1:1 reserves an offer of 10^18 emptied the pool.
---
 contracts/halo-pair/src/contract.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index dfa45cb..825f25d 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -606,15 +606,12 @@ fn compute_swap(
 
     // offer => ask
     // hoanm: EQUATION - B = (R_B - \frac{K}{R_A + A}) * (1 - F)
-    // ask_amount = (ask_pool - cp / (offer_pool + offer_amount)) * (1 - commission_rate)
+    // ask_amount = ask_pool * offer_amount / (offer_pool + offer_amount) * (1 - commission_rate)
 
-    // cp (constant product) is K  in the EQUATION
-    let cp: Uint256 = offer_pool * ask_pool;
-
-    // calculate the ask_amount without commission
-    let return_amount: Uint256 = (Decimal256::from_uint256(ask_pool)
-        - Decimal256::from_ratio(cp, offer_pool + offer_amount))
-        * Uint256::one();
+    // calculate the ask_amount without commission, rounded down in favor of the pool
+    // R_B - \frac{K}{R_A + A} == \frac{R_B * A}{R_A + A}
+    let return_amount: Uint256 =
+        ask_pool.multiply_ratio(offer_amount, offer_pool + offer_amount);
 
     // calculate the spread_amount
     // hoanm: EQUATION - SPREAD = (A * \frac{R_B}{R_A}) - B
-- 
2.43.0


From d83d4f83e8dc995fffc05ca35e4d9c2798188852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:49 +0000
Subject: [PATCH 2/8] fix: do not abort a swap whose spread rounds below zero

With a low ask/offer price the 18-digit ratio truncates the ideal amount
below the returned one and the subtraction underflowed.
---
 contracts/halo-pair/src/contract.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index 825f25d..9bdbb20 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -610,13 +610,17 @@ fn compute_swap(
 
     // calculate the ask_amount without commission, rounded down in favor of the pool
     // R_B - \frac{K}{R_A + A} == \frac{R_B * A}{R_A + A}
-    let return_amount: Uint256 =
-        ask_pool.multiply_ratio(offer_amount, offer_pool + offer_amount);
+    let return_amount: Uint256 = ask_pool.multiply_ratio(offer_amount, offer_pool + offer_amount);
 
     // calculate the spread_amount
     // hoanm: EQUATION - SPREAD = (A * \frac{R_B}{R_A}) - B
-    let spread_amount: Uint256 =
-        (offer_amount * Decimal256::from_ratio(ask_pool, offer_pool)) - return_amount;
+    let ideal_amount: Uint256 = offer_amount * Decimal256::from_ratio(ask_pool, offer_pool);
+    // the 18-digit price may round the ideal amount below the returned one
+    let spread_amount: Uint256 = if ideal_amount > return_amount {
+        ideal_amount - return_amount
+    } else {
+        Uint256::zero()
+    };
 
     // calculate the commission_amount
     let commission_amount: Uint256 = return_amount * commission_rate;
-- 
2.43.0


From 3b3cb55e4a03610d471e8f008c8459c9cddb5b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 3/8] fix: compute the first LP share in 256 bits

The product of the two first deposits overflowed u128 and aborted the
deposit once it reached 2^128 (e.g. 10^20 of each asset).
---
 contracts/halo-pair/src/contract.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index 9bdbb20..161ea89 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -5,8 +5,9 @@ use crate::state::PAIR_INFO;
 use cosmwasm_std::entry_point;
 
 use cosmwasm_std::{
-    from_binary, to_binary, Addr, Binary, CanonicalAddr, Coin, CosmosMsg, Decimal, Deps, DepsMut,
-    Env, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult, SubMsg, Uint128, WasmMsg,
+    from_binary, to_binary, Addr, Binary, CanonicalAddr, Coin, CosmosMsg, Decimal,
+    Decimal256 as StdDecimal256, Deps, DepsMut, Env, MessageInfo, Reply, ReplyOn, Response,
+    StdError, StdResult, SubMsg, Uint128, Uint256 as StdUint256, WasmMsg,
 };
 
 use bignumber::{Decimal256, Uint256};
@@ -20,7 +21,6 @@ use haloswap::pair::{
 };
 use haloswap::querier::query_token_info;
 use haloswap::token::InstantiateMsg as TokenInstantiateMsg;
-use integer_sqrt::IntegerSquareRoot;
 use std::cmp::Ordering;
 use std::str::FromStr;
 
@@ -294,7 +294,10 @@ pub fn provide_liquidity(
 
         // if the total supply of the LP token is zero, Initial share = collateral amount
         // hoanm: EQUATION - LP = \sqrt{A * B}
-        Uint128::from((deposits[0].u128() * deposits[1].u128()).integer_sqrt())
+        // the product may exceed 128 bits; the root of a decimal has half its 18 digits
+        let product = StdDecimal256::new(deposits[0].full_mul(deposits[1]));
+        Uint128::try_from(product.sqrt().atomics() / StdUint256::from(1_000_000_000u64))
+            .map_err(StdError::from)?
     } else {
         // hoanm: update these equations by using the formula of Uniswap V2
         // min(1, 2)
-- 
2.43.0


From 638668a244e86e8db3fa06e6708934fa75eca769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:13 +0000
Subject: [PATCH 4/8] fix: refuse a pair of one token spelled in two ways

The raw forms of the assets are what the registry is keyed by, so they
have to differ, not just the strings the caller gave.
---
 contracts/halo-factory/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/halo-factory/src/contract.rs b/contracts/halo-factory/src/contract.rs
index 2b2e98a..f5848dc 100644
--- a/contracts/halo-factory/src/contract.rs
+++ b/contracts/halo-factory/src/contract.rs
@@ -133,6 +133,11 @@ pub fn execute_create_pair(
         asset_infos[1].to_raw(deps.api)?,
     ];
 
+    // the same token address may be spelled differently
+    if raw_infos[0] == raw_infos[1] {
+        return Err(StdError::generic_err("same asset"));
+    }
+
     let asset_decimals = [asset_1_decimal, asset_2_decimal];
 
     let pair_key = pair_key(&raw_infos);
-- 
2.43.0


From c6f977dd37410c1fd4882ec13921b67cf3d5690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 5/8] fix: compare a swap with its limits in 256 bits

Bringing the amounts to equal decimals overflowed 128 bits, which
refused swaps between assets of very different decimals, even without
a limit.
---
 contracts/halo-pair/src/contract.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index 161ea89..713bea2 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -703,30 +703,23 @@ pub fn assert_max_spread(
     offer_decimal: u8,
     return_decimal: u8,
 ) -> Result<(), ContractError> {
+    // the amounts brought to equal decimals may exceed 128 bits
     let (offer_amount, return_amount, spread_amount): (Uint256, Uint256, Uint256) =
         match offer_decimal.cmp(&return_decimal) {
             Ordering::Greater => {
-                let diff_decimal = 10u64.pow((offer_decimal - return_decimal).into());
+                let diff_decimal = Uint256::from(10u64.pow((offer_decimal - return_decimal).into()));
 
                 (
                     offer_asset.amount.into(),
-                    return_asset
-                        .amount
-                        .checked_mul(Uint128::from(diff_decimal))?
-                        .into(),
-                    spread_amount
-                        .checked_mul(Uint128::from(diff_decimal))?
-                        .into(),
+                    Uint256::from(return_asset.amount) * diff_decimal,
+                    Uint256::from(spread_amount) * diff_decimal,
                 )
             }
             Ordering::Less => {
-                let diff_decimal = 10u64.pow((return_decimal - offer_decimal).into());
+                let diff_decimal = Uint256::from(10u64.pow((return_decimal - offer_decimal).into()));
 
                 (
-                    offer_asset
-                        .amount
-                        .checked_mul(Uint128::from(diff_decimal))?
-                        .into(),
+                    Uint256::from(offer_asset.amount) * diff_decimal,
                     return_asset.amount.into(),
                     spread_amount.into(),
                 )
-- 
2.43.0


From bd7b5d7abac334bb5a6111b292811a33301ec37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:29 +0000
Subject: [PATCH 6/8] fix: tell a coin from a token of the same name in router
 routes

---
 contracts/halo-router/src/contract.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/contracts/halo-router/src/contract.rs b/contracts/halo-router/src/contract.rs
index 3e430d2..5fa8820 100644
--- a/contracts/halo-router/src/contract.rs
+++ b/contracts/halo-router/src/contract.rs
@@ -334,7 +334,8 @@ fn reverse_simulate_return_amount(
 }
 
 fn assert_operations(operations: &[SwapOperation]) -> StdResult<()> {
-    let mut ask_asset_map: HashMap<String, bool> = HashMap::new();
+    // a native coin may be named like a token, so an asset is its kind and its name
+    let mut ask_asset_map: HashMap<(bool, String), bool> = HashMap::new();
     for operation in operations.iter() {
         let (offer_asset, ask_asset) = match operation {
             SwapOperation::HaloSwap {
@@ -343,8 +344,8 @@ fn assert_operations(operations: &[SwapOperation]) -> StdResult<()> {
             } => (offer_asset_info.clone(), ask_asset_info.clone()),
         };
 
-        ask_asset_map.remove(&offer_asset.to_string());
-        ask_asset_map.insert(ask_asset.to_string(), true);
+        ask_asset_map.remove(&(offer_asset.is_native_token(), offer_asset.to_string()));
+        ask_asset_map.insert((ask_asset.is_native_token(), ask_asset.to_string()), true);
     }
 
     if ask_asset_map.keys().len() != 1 {
-- 
2.43.0


From be47e88216f35996dd066d7ca819aea14fd667f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:53 +0000
Subject: [PATCH 7/8] fix: refuse routes whose earlier hops leave an output in
 the router

---
 contracts/halo-router/src/contract.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/contracts/halo-router/src/contract.rs b/contracts/halo-router/src/contract.rs
index 5fa8820..4184195 100644
--- a/contracts/halo-router/src/contract.rs
+++ b/contracts/halo-router/src/contract.rs
@@ -336,7 +336,7 @@ fn reverse_simulate_return_amount(
 fn assert_operations(operations: &[SwapOperation]) -> StdResult<()> {
     // a native coin may be named like a token, so an asset is its kind and its name
     let mut ask_asset_map: HashMap<(bool, String), bool> = HashMap::new();
-    for operation in operations.iter() {
+    for (i, operation) in operations.iter().enumerate() {
         let (offer_asset, ask_asset) = match operation {
             SwapOperation::HaloSwap {
                 offer_asset_info,
@@ -345,6 +345,14 @@ fn assert_operations(operations: &[SwapOperation]) -> StdResult<()> {
         };
 
         ask_asset_map.remove(&(offer_asset.is_native_token(), offer_asset.to_string()));
+
+        // only the last hop pays the recipient, what earlier hops returned must be offered by then
+        if i + 1 == operations.len() && !ask_asset_map.is_empty() {
+            return Err(StdError::generic_err(
+                "invalid operations; multiple output token",
+            ));
+        }
+
         ask_asset_map.insert((ask_asset.is_native_token(), ask_asset.to_string()), true);
     }
 
-- 
2.43.0


From fa26f646f71bc05b7eaf5cc8289e1c450be9d92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:18 +0000
Subject: [PATCH 8/8] fix: swap between assets whose decimals differ by 20 or
 more

Every such swap aborted, with or without a spread limit, because the
factor between the decimals was computed in 64 bits.
---
 contracts/halo-pair/src/contract.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index 713bea2..b019454 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -703,11 +703,19 @@ pub fn assert_max_spread(
     offer_decimal: u8,
     return_decimal: u8,
 ) -> Result<(), ContractError> {
+    // without a limit there is nothing to compare
+    if max_spread.is_none() {
+        return Ok(());
+    }
+    // a power of ten may exceed 64 bits
+    let power_of_ten = |exponent: u8| -> Uint256 {
+        (0..exponent).fold(Uint256::one(), |power, _| power * Uint256::from(10u64))
+    };
     // the amounts brought to equal decimals may exceed 128 bits
     let (offer_amount, return_amount, spread_amount): (Uint256, Uint256, Uint256) =
         match offer_decimal.cmp(&return_decimal) {
             Ordering::Greater => {
-                let diff_decimal = Uint256::from(10u64.pow((offer_decimal - return_decimal).into()));
+                let diff_decimal = power_of_ten(offer_decimal - return_decimal);
 
                 (
                     offer_asset.amount.into(),
@@ -716,7 +724,7 @@ pub fn assert_max_spread(
                 )
             }
             Ordering::Less => {
-                let diff_decimal = Uint256::from(10u64.pow((return_decimal - offer_decimal).into()));
+                let diff_decimal = power_of_ten(return_decimal - offer_decimal);
 
                 (
                     Uint256::from(offer_asset.amount) * diff_decimal,
-- 
2.43.0

