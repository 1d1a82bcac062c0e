From 23eda41e28dcf71af77d57e6cd374c6fd6762275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 01/18] fix: pay accrued streaming fees to the collector when
 the fee strategy changes

---
 contracts/core/src/execute/gov/update.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/contracts/core/src/execute/gov/update.rs b/contracts/core/src/execute/gov/update.rs
index 82a4683..cdeabf1 100644
--- a/contracts/core/src/execute/gov/update.rs
+++ b/contracts/core/src/execute/gov/update.rs
@@ -1,4 +1,4 @@
-use cosmwasm_std::{attr, DepsMut, Env, MessageInfo, Response, StdError, Uint128};
+use cosmwasm_std::{attr, BankMsg, DepsMut, Env, MessageInfo, Response, StdError, Uint128};
 use ibcx_interface::{core::FeePayload, types::SwapRoutes};
 
 use crate::{
@@ -84,6 +84,20 @@ pub fn update_fee(
     // update
     let mut fee = FEE.load(deps.storage)?;
 
+    // settle streaming fee accrued under the previous strategy
+    let collected = fee
+        .streaming_fee
+        .take()
+        .map(|v| v.collected)
+        .unwrap_or_default()
+        .into_iter()
+        .filter(|v| !v.amount.is_zero())
+        .collect::<Vec<_>>();
+    let settle_msg = (!collected.is_empty()).then(|| BankMsg::Send {
+        to_address: fee.collector.to_string(),
+        amount: collected,
+    });
+
     fee.collector = deps.api.addr_validate(&new_fee.collector)?;
     fee.mint_fee = new_fee.mint_fee;
     fee.burn_fee = new_fee.burn_fee;
@@ -103,7 +117,9 @@ pub fn update_fee(
         attr("executor", info.sender),
     ];
 
-    let resp = Response::new().add_attributes(attrs);
+    let resp = Response::new()
+        .add_messages(settle_msg)
+        .add_attributes(attrs);
 
     Ok(resp)
 }
-- 
2.43.0


From 00f787d0a5f6a814cd0e8f1b2f8a25e42d58da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 02/18] fix: check the claim hash, not the account, when
 verifying bearer claims

---
 contracts/airdrop/src/query/claim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/airdrop/src/query/claim.rs b/contracts/airdrop/src/query/claim.rs
index b8b2841..613e446 100644
--- a/contracts/airdrop/src/query/claim.rs
+++ b/contracts/airdrop/src/query/claim.rs
@@ -108,7 +108,7 @@ pub fn verify_claim(
             }
 
             // validate claim hash
-            let verify_result = verify_merkle_proof(&airdrop.merkle_root, proof, &account, amount);
+            let verify_result = verify_merkle_proof(&airdrop.merkle_root, proof, &claim_hash, amount);
             if let Err(e) = verify_result {
                 return Ok(resp.fail(e));
             }
-- 
2.43.0


From 279e65e3b3d8d610a708eb71f5515386df74ac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 03/18] fix: apply minimum charges of mint in simulate_mint

---
 contracts/core/src/query.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/contracts/core/src/query.rs b/contracts/core/src/query.rs
index 3cb78d7..3a572af 100644
--- a/contracts/core/src/query.rs
+++ b/contracts/core/src/query.rs
@@ -1,4 +1,4 @@
-use cosmwasm_std::{Coin, Deps, Env, Timestamp, Uint128};
+use cosmwasm_std::{coin, Coin, Deps, Env, Timestamp, Uint128};
 use ibcx_interface::{
     core::{
         GetConfigResponse, GetFeeResponse, GetPortfolioResponse, GetRebalanceResponse,
@@ -186,9 +186,13 @@ pub fn simulate_mint(
         .transpose()?
         .unwrap_or(index_units);
 
-    let spent = index_units.calc_require_amount(amount);
+    let spent = index_units
+        .calc_require_amount(amount)
+        .into_iter()
+        .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))
+        .collect::<Vec<_>>();
     let refund = index_units.calc_refund_amount(funds.unwrap_or_else(|| spent.clone()), amount)?;
-    let mint_fee = fee.mint_fee.map(|v| v * amount);
+    let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));
     let mint_send = amount.checked_sub(mint_fee.unwrap_or_default())?;
 
     Ok(SimulateMintResponse {
-- 
2.43.0


From 1a5500eb390866e0049f9e9c73eb62f62d4e516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 04/18] fix: skip transfer of a burn fee rounded to zero

---
 contracts/core/src/execute/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/core/src/execute/token.rs b/contracts/core/src/execute/token.rs
index 3b54958..39f2aa1 100644
--- a/contracts/core/src/execute/token.rs
+++ b/contracts/core/src/execute/token.rs
@@ -165,7 +165,7 @@ pub fn burn(
     };
 
     // send fee to collector
-    let fee_send_msg = burn_fee.map(|v| BankMsg::Send {
+    let fee_send_msg = burn_fee.filter(|v| !v.is_zero()).map(|v| BankMsg::Send {
         to_address: fee.collector.into_string(),
         amount: coins(v.u128(), &config.index_denom),
     });
-- 
2.43.0


From 84450e20c98d9e422b7a2db898ae1b0cf0bb49d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 05/18] fix: skip empty refund in finish_operation

---
 contracts/periphery/src/execute.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index bb3cd3b..2d93d24 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -326,10 +326,10 @@ pub fn finish_operation(
             attr("refund_asset", refund_asset),
             attr("amount", balance.amount),
         ])
-        .add_message(BankMsg::Send {
+        .add_messages((!balance.amount.is_zero()).then(|| BankMsg::Send {
             to_address: refund_to,
             amount: vec![balance],
-        });
+        }));
 
     Ok(resp)
 }
-- 
2.43.0


From 3cbf63df19953374c869a2281cec2bf06553b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 06/18] fix: allow closing an airdrop with nothing left

---
 contracts/airdrop/src/execute/close.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/contracts/airdrop/src/execute/close.rs b/contracts/airdrop/src/execute/close.rs
index eb1956c..b8b4e75 100644
--- a/contracts/airdrop/src/execute/close.rs
+++ b/contracts/airdrop/src/execute/close.rs
@@ -48,17 +48,19 @@ fn close_open(
     airdrop.closed_at = Some(env.block.height);
 
     // response
-    let send_msg = BankMsg::Send {
+    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
         to_address: airdrop.creator.to_string(),
         amount: coins(redeem_amount.u128(), &airdrop.denom),
-    };
+    });
 
     let attrs = close_event(info.sender, AirdropType::Open, airdrop_id, redeem_amount);
 
     // apply states
     airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
 
-    Ok(Response::new().add_message(send_msg).add_attributes(attrs))
+    Ok(Response::new()
+        .add_messages(send_msg)
+        .add_attributes(attrs))
 }
 
 fn close_bearer(
@@ -81,17 +83,19 @@ fn close_bearer(
     airdrop.closed_at = Some(env.block.height);
 
     // response
-    let send_msg = BankMsg::Send {
+    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
         to_address: airdrop.creator.to_string(),
         amount: coins(redeem_amount.u128(), &airdrop.denom),
-    };
+    });
 
     let attrs = close_event(info.sender, AirdropType::Bearer, airdrop_id, redeem_amount);
 
     // apply states
     airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
 
-    Ok(Response::new().add_message(send_msg).add_attributes(attrs))
+    Ok(Response::new()
+        .add_messages(send_msg)
+        .add_attributes(attrs))
 }
 
 #[cfg(test)]
-- 
2.43.0


From fce0aa13e91668629d33da5a697e41ee782bf058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 07/18] fix: store trade settings under the pair a rebalance
 trade looks up

---
 contracts/core/src/execute/gov/update.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/contracts/core/src/execute/gov/update.rs b/contracts/core/src/execute/gov/update.rs
index cdeabf1..72e97f0 100644
--- a/contracts/core/src/execute/gov/update.rs
+++ b/contracts/core/src/execute/gov/update.rs
@@ -212,13 +212,26 @@ pub fn update_trade_info(
         last_traded_at: None,
     };
 
-    TRADE_INFOS.save(deps.storage, (&denom_in, &routes.denom_last()), &trade_info)?;
+    // trades always run between the reserve and a single asset
+    let last_denom = routes
+        .0
+        .last()
+        .ok_or_else(|| StdError::generic_err("empty routes"))?
+        .token_denom
+        .clone();
+    let denom_out = if denom_in == config.reserve_denom {
+        last_denom
+    } else {
+        config.reserve_denom
+    };
+
+    TRADE_INFOS.save(deps.storage, (&denom_in, &denom_out), &trade_info)?;
 
     let attrs = vec![
         attr("method", "gov::update_trade_info"),
         attr("executor", info.sender),
         attr("denom_in", denom_in),
-        attr("denom_out", routes.denom_last()),
+        attr("denom_out", denom_out),
         attr("routes", format!("{routes:?}")),
         attr("cooldown", cooldown.to_string()),
         attr("max_trade_amount", max_trade_amount.to_string()),
-- 
2.43.0


From e22237f544a8411e1bede5a8949cfcb726ec446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 08/18] fix: reject zero inflation weights

---
 contracts/core/src/state/rebalance.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/core/src/state/rebalance.rs b/contracts/core/src/state/rebalance.rs
index b8a9df3..b2cb7dc 100644
--- a/contracts/core/src/state/rebalance.rs
+++ b/contracts/core/src/state/rebalance.rs
@@ -35,6 +35,11 @@ impl Rebalance {
             return Err(ValidationError::invalid_rebalance("inflation", "duplicate denom").into());
         }
 
+        // check inflation weights
+        if self.inflation.iter().any(|(_, weight)| weight.is_zero()) {
+            return Err(ValidationError::invalid_rebalance("inflation", "zero weight").into());
+        }
+
         // check index_units <-> deflation
         {
             let mut base_units = index_units;
-- 
2.43.0


From cbc0aed0cc03f6fa31f675b40c3b9f6dc50d697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 09/18] fix: pow_int returns the base for an exponent of one

---
 packages/math/src/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/math/src/pow.rs b/packages/math/src/pow.rs
index 257a32e..7f9a890 100644
--- a/packages/math/src/pow.rs
+++ b/packages/math/src/pow.rs
@@ -43,7 +43,7 @@ pub fn pow(base: Decimal256, exp: Decimal256) -> Result<Decimal256, MathError> {
 }
 
 fn pow_int(mut base: Decimal256, power: Uint256) -> Decimal256 {
-    if power <= Uint256::one() {
+    if power.is_zero() {
         return Decimal256::one();
     }
 
-- 
2.43.0


From 76dc567a666fe456980f2a6fc8661e59f7f1f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:14 +0000
Subject: [PATCH 10/18] fix: round the burn fee in the periphery as the core
 does

---
 contracts/periphery/src/execute.rs | 6 +++---
 contracts/periphery/src/lib.rs     | 7 +++++++
 contracts/periphery/src/query.rs   | 4 ++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index 2d93d24..f237912 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -7,7 +7,7 @@ use ibcx_interface::{core, helpers::IbcCore};
 use ibcx_pool::{query_pools, Simulator};
 
 use crate::error::ContractError;
-use crate::{coin_sorter, deduct_fee, expand_fee, make_unit_converter};
+use crate::{coin_sorter, deduct_burn_fee, deduct_fee, expand_fee, make_unit_converter};
 
 pub fn mint_exact_amount_in(
     deps: DepsMut,
@@ -184,7 +184,7 @@ pub fn burn_exact_amount_in(
     let pool_ids = extract_pool_ids(swap_info.clone());
     let pools = query_pools(&deps.as_ref(), pool_ids)?;
 
-    let act_burn_amount = index_asset.amount * deduct_fee(core_fee.burn_fee)?;
+    let act_burn_amount = deduct_burn_fee(index_asset.amount, core_fee.burn_fee)?;
 
     let deps_ref = deps.as_ref();
     let sim = Simulator::new(&deps_ref, &pools, &swap_info, &core_portfolio.units);
@@ -262,7 +262,7 @@ pub fn burn_exact_amount_out(
         vec![coin(burn_amount.u128(), &core_config.index_denom)],
     )?;
 
-    let act_burn_amount = burn_amount * deduct_fee(core_fee.burn_fee)?;
+    let act_burn_amount = deduct_burn_fee(burn_amount, core_fee.burn_fee)?;
 
     let sim_res = sim.estimate_output_for_index(act_burn_amount, &desired_output.denom)?;
 
diff --git a/contracts/periphery/src/lib.rs b/contracts/periphery/src/lib.rs
index 26063a1..58b4397 100644
--- a/contracts/periphery/src/lib.rs
+++ b/contracts/periphery/src/lib.rs
@@ -21,6 +21,13 @@ pub fn deduct_fee(rate: Option<Decimal>) -> Result<Decimal, ContractError> {
         .unwrap_or(Decimal::one()))
 }
 
+// net amount of a burn, rounded the same way as the core contract does
+pub fn deduct_burn_fee(amount: Uint128, rate: Option<Decimal>) -> Result<Uint128, ContractError> {
+    let fee = rate.map(|v| v * amount).unwrap_or_default();
+
+    Ok(amount.checked_sub(fee)?)
+}
+
 pub fn expand_fee(rate: Option<Decimal>) -> Result<Decimal, ContractError> {
     Ok(rate
         .map(|v| {
diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index fe90d57..0aa4ca4 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -8,7 +8,7 @@ use ibcx_interface::{
 };
 use ibcx_pool::{query_pools, Simulator};
 
-use crate::{deduct_fee, error::ContractError, expand_fee, make_unit_converter};
+use crate::{deduct_burn_fee, deduct_fee, error::ContractError, expand_fee, make_unit_converter};
 
 pub fn simulate_mint_exact_amount_in(
     deps: Deps,
@@ -95,7 +95,7 @@ pub fn simulate_burn_exact_amount_in(
     let pools = query_pools(&deps, pool_ids)?;
 
     // apply burn fee before simulating
-    let burn_amount = index_amount * deduct_fee(core_fee.burn_fee)?;
+    let burn_amount = deduct_burn_fee(index_amount, core_fee.burn_fee)?;
 
     let conv = make_unit_converter(burn_amount);
     let mut burn_redeem_amount: Vec<_> =
-- 
2.43.0


From 44b947c75dc3f5ec83dc6bcd4936fb15d264f41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:14 +0000
Subject: [PATCH 11/18] fix: apply the minimum output of mint_exact_amount_in
 after the mint fee

---
 contracts/periphery/src/execute.rs |  9 ++++++---
 contracts/periphery/src/lib.rs     | 21 +++++++++++++++++++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index f237912..0b88360 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -7,7 +7,7 @@ use ibcx_interface::{core, helpers::IbcCore};
 use ibcx_pool::{query_pools, Simulator};
 
 use crate::error::ContractError;
-use crate::{coin_sorter, deduct_burn_fee, deduct_fee, expand_fee, make_unit_converter};
+use crate::{coin_sorter, deduct_burn_fee, deduct_fee, expand_mint_fee, expand_fee, make_unit_converter};
 
 pub fn mint_exact_amount_in(
     deps: DepsMut,
@@ -30,13 +30,16 @@ pub fn mint_exact_amount_in(
     let pool_ids = extract_pool_ids(swap_info.clone());
     let pools = query_pools(&deps.as_ref(), pool_ids)?;
 
+    // the minimum is what the caller receives, after mint fee
+    let min_mint_amount = expand_mint_fee(min_index_amount, core_fee.mint_fee)?;
+
     let deps_ref = deps.as_ref();
     let sim = Simulator::new(&deps_ref, &pools, &swap_info, &core_portfolio.units);
     let sim_res = sim
         .estimate_index_for_input(
             desired_asset.clone(),
-            Some(min_index_amount),
-            Some(min_index_amount),
+            Some(min_mint_amount),
+            Some(min_mint_amount),
             None,
         )?
         .est
diff --git a/contracts/periphery/src/lib.rs b/contracts/periphery/src/lib.rs
index 58b4397..a1e5d66 100644
--- a/contracts/periphery/src/lib.rs
+++ b/contracts/periphery/src/lib.rs
@@ -21,6 +21,27 @@ pub fn deduct_fee(rate: Option<Decimal>) -> Result<Decimal, ContractError> {
         .unwrap_or(Decimal::one()))
 }
 
+// net amount of a mint, charged the same way as the core contract does
+pub fn deduct_mint_fee(amount: Uint128, rate: Option<Decimal>) -> Result<Uint128, ContractError> {
+    let fee = rate
+        .map(|v| (v * amount).max(Uint128::one()))
+        .unwrap_or_default();
+
+    Ok(amount.checked_sub(fee)?)
+}
+
+// smallest amount to mint that leaves at least `net` after the fee
+pub fn expand_mint_fee(net: Uint128, rate: Option<Decimal>) -> Result<Uint128, ContractError> {
+    match rate {
+        Some(rate) => {
+            let gross = net.div_ceil(deduct_fee(Some(rate))?);
+
+            Ok(gross.max(net.checked_add(Uint128::one())?))
+        }
+        None => Ok(net),
+    }
+}
+
 // net amount of a burn, rounded the same way as the core contract does
 pub fn deduct_burn_fee(amount: Uint128, rate: Option<Decimal>) -> Result<Uint128, ContractError> {
     let fee = rate.map(|v| v * amount).unwrap_or_default();
-- 
2.43.0


From df034a1c62b25f663a5aafac1d1715ba795c5ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:14 +0000
Subject: [PATCH 12/18] fix: quote periphery mints with the mint fee taken from
 the minted amount

---
 contracts/periphery/src/query.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index 0aa4ca4..971293e 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -8,7 +8,7 @@ use ibcx_interface::{
 };
 use ibcx_pool::{query_pools, Simulator};
 
-use crate::{deduct_burn_fee, deduct_fee, error::ContractError, expand_fee, make_unit_converter};
+use crate::{deduct_burn_fee, deduct_mint_fee, error::ContractError, expand_fee, make_unit_converter};
 
 pub fn simulate_mint_exact_amount_in(
     deps: Deps,
@@ -30,10 +30,10 @@ pub fn simulate_mint_exact_amount_in(
         .max;
 
     // apply mint fee
-    let mint_amount =
-        (sim_res.est_min_token_out * expand_fee(core_fee.mint_fee)?) - Uint128::new(100); // FIXME: hacky calibration
+    let mint_amount = deduct_mint_fee(sim_res.est_min_token_out, core_fee.mint_fee)?
+        .saturating_sub(Uint128::new(100)); // FIXME: hacky calibration
 
-    let conv = make_unit_converter(mint_amount);
+    let conv = make_unit_converter(sim_res.est_min_token_out);
     let mut mint_spend_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
@@ -61,15 +61,15 @@ pub fn simulate_mint_exact_amount_out(
     let pools = query_pools(&deps, pool_ids)?;
 
     // apply mint fee
-    let mint_amount = index_amount * deduct_fee(core_fee.mint_fee)?;
+    let mint_amount = deduct_mint_fee(index_amount, core_fee.mint_fee)?;
 
-    let conv = make_unit_converter(mint_amount);
+    let conv = make_unit_converter(index_amount);
     let mut mint_spend_amount: Vec<_> =
         core_portfolio.units.clone().into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
     let sim = Simulator::new(&deps, &pools, &swap_info, &core_portfolio.units);
-    let sim_res = sim.estimate_input_for_index(&input_asset, mint_amount)?;
+    let sim_res = sim.estimate_input_for_index(&input_asset, index_amount)?;
 
     Ok(SimulateMintExactAmountOutResponse {
         mint_amount,
-- 
2.43.0


From 0094758c0b42b96c2fca875f31a7e0ea131f45c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:14 +0000
Subject: [PATCH 13/18] fix: round swap limits up so that they add up to the
 minimum output

---
 packages/pool/src/sim/route.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/pool/src/sim/route.rs b/packages/pool/src/sim/route.rs
index 693f406..5a4fb4a 100644
--- a/packages/pool/src/sim/route.rs
+++ b/packages/pool/src/sim/route.rs
@@ -42,14 +42,19 @@ impl SimAmountOutRoutes {
             return Err(PoolError::TradeAmountExceeded);
         }
 
-        let amplifier = Decimal::checked_from_ratio(min_output, total_receive_amount)?;
+        if total_receive_amount.is_zero() {
+            return Err(PoolError::TradeAmountExceeded);
+        }
 
         let swap_msgs = self
             .0
             .iter()
             .filter_map(|r| {
                 r.routes.as_ref().map(|routes| {
-                    let min_amount_out = r.sim_amount_out * amplifier;
+                    // rounded up: the limits must add up to the minimum output
+                    let min_amount_out = r
+                        .sim_amount_out
+                        .mul_ceil((min_output, total_receive_amount));
                     routes.msg_swap_exact_in(
                         contract,
                         &r.amount_in.denom,
-- 
2.43.0


From a96e7b87ba1d06fea2bbcd06f1fdcb144fa2d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:18 +0000
Subject: [PATCH 14/18] fix: let a rebalance finalize with remainders too small
 to trade

---
 contracts/core/src/execute/rebalance/finalize.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/contracts/core/src/execute/rebalance/finalize.rs b/contracts/core/src/execute/rebalance/finalize.rs
index bf7e6aa..da0fe0c 100644
--- a/contracts/core/src/execute/rebalance/finalize.rs
+++ b/contracts/core/src/execute/rebalance/finalize.rs
@@ -1,9 +1,9 @@
-use cosmwasm_std::{attr, DepsMut, Env, MessageInfo, Response, Storage};
+use cosmwasm_std::{attr, Decimal, DepsMut, Env, MessageInfo, Response, Storage};
 
 use crate::{
     assert_sender,
     error::RebalanceError,
-    state::{FEE, INDEX_UNITS, REBALANCE, RESERVE_UNITS},
+    state::{FEE, INDEX_UNITS, REBALANCE, RESERVE_UNITS, TOTAL_SUPPLY},
     StdResult,
 };
 
@@ -31,11 +31,18 @@ pub fn finalize(deps: DepsMut, env: Env, info: MessageInfo) -> StdResult<Respons
 
     let index_units = INDEX_UNITS.load(deps.storage)?;
 
+    // a remainder worth less than one token can never be traded
+    let total_supply = TOTAL_SUPPLY.may_load(deps.storage)?;
+    let is_tradable = |unit: Decimal| match total_supply {
+        Some(total_supply) => !(unit * total_supply).is_zero(),
+        None => !unit.is_zero(),
+    };
+
     // check deflation
     for (denom, target_unit) in rebalance.deflation {
         let (_, current_unit) = index_units.get_key(&denom).unwrap();
 
-        if &target_unit < current_unit {
+        if &target_unit < current_unit && is_tradable(*current_unit - target_unit) {
             return Err(
                 RebalanceError::unable_to_finalize("deflation condition did not met").into(),
             );
@@ -44,7 +51,7 @@ pub fn finalize(deps: DepsMut, env: Env, info: MessageInfo) -> StdResult<Respons
 
     // check reserve unit has been flushed to inflation units
     let reserve_units = RESERVE_UNITS.load(deps.storage)?;
-    if !reserve_units.check_empty() {
+    if reserve_units.iter().any(|(_, unit)| is_tradable(*unit)) {
         return Err(RebalanceError::unable_to_finalize("inflation condition did not met").into());
     }
 
-- 
2.43.0


From 0bc7d07ce1b7f24aa4ba49d3170e959d130c7065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:56 +0000
Subject: [PATCH 15/18] fix: deduct sold units rounded up

---
 .../core/src/execute/rebalance/trade/deflate.rs    |  4 ++--
 .../core/src/execute/rebalance/trade/inflate.rs    |  4 ++--
 contracts/core/src/execute/rebalance/trade/mod.rs  | 14 +++++++++++++-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/contracts/core/src/execute/rebalance/trade/deflate.rs b/contracts/core/src/execute/rebalance/trade/deflate.rs
index e4bdb22..88d4151 100644
--- a/contracts/core/src/execute/rebalance/trade/deflate.rs
+++ b/contracts/core/src/execute/rebalance/trade/deflate.rs
@@ -6,7 +6,7 @@ use crate::{
     StdResult,
 };
 
-use super::load_units;
+use super::{deduct_units, load_units};
 
 fn deflate_index_unit(
     index_units: &mut Units,
@@ -121,7 +121,7 @@ pub fn deflate(
     }
 
     // deduct & expand stored units
-    let index_deduct_unit = Decimal::checked_from_ratio(sim_amount_in, total_supply)?;
+    let index_deduct_unit = deduct_units(sim_amount_in, total_supply)?;
     let reserve_expand_unit = Decimal::checked_from_ratio(amount_out, total_supply)?;
 
     // deduct index unit
diff --git a/contracts/core/src/execute/rebalance/trade/inflate.rs b/contracts/core/src/execute/rebalance/trade/inflate.rs
index 1320e8e..51b44c8 100644
--- a/contracts/core/src/execute/rebalance/trade/inflate.rs
+++ b/contracts/core/src/execute/rebalance/trade/inflate.rs
@@ -6,7 +6,7 @@ use crate::{
     StdResult,
 };
 
-use super::load_units;
+use super::{deduct_units, load_units};
 
 // in the case of reserve denom, we can directly inflate the unit
 pub fn inflate_reserve(
@@ -80,7 +80,7 @@ pub fn inflate(
     }
 
     // deduct & expand stored units
-    let reserve_deduct_unit = Decimal::checked_from_ratio(amount_in, total_supply)?;
+    let reserve_deduct_unit = deduct_units(amount_in, total_supply)?;
     let index_expand_unit = Decimal::checked_from_ratio(sim_amount_out, total_supply)?;
 
     // expand index unit
diff --git a/contracts/core/src/execute/rebalance/trade/mod.rs b/contracts/core/src/execute/rebalance/trade/mod.rs
index d53d73f..bacf729 100644
--- a/contracts/core/src/execute/rebalance/trade/mod.rs
+++ b/contracts/core/src/execute/rebalance/trade/mod.rs
@@ -1,7 +1,7 @@
 mod deflate;
 mod inflate;
 
-use cosmwasm_std::{DepsMut, Env, MessageInfo, Response, Storage, Uint128};
+use cosmwasm_std::{Decimal, DepsMut, Env, MessageInfo, Response, Storage, Uint128};
 use ibcx_interface::core::RebalanceTradeMsg;
 
 use deflate::{deflate, deflate_reserve};
@@ -22,6 +22,18 @@ pub fn load_units(storage: &dyn Storage) -> StdResult<(Units, Units, Uint128)> {
     Ok((index_units, reserve_units, total_supply))
 }
 
+// units backing the given amount, rounded up so that sold tokens are always deducted in full
+pub fn deduct_units(amount: Uint128, total_supply: Uint128) -> StdResult<Decimal> {
+    let unit = Decimal::checked_from_ratio(amount, total_supply)?;
+
+    let deducted = unit.atomics().full_mul(total_supply);
+    if deducted < amount.full_mul(Decimal::one().atomics()) {
+        Ok(unit.checked_add(Decimal::raw(1))?)
+    } else {
+        Ok(unit)
+    }
+}
+
 // deflate / inflate the target denom
 pub fn trade(
     deps: DepsMut,
-- 
2.43.0


From cc88d51c67e35933c4e83ac38b9254d8380f3d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:58 +0000
Subject: [PATCH 16/18] fix: refuse trade routes that do not start from the
 denom to sell

---
 contracts/core/src/execute/gov/update.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/core/src/execute/gov/update.rs b/contracts/core/src/execute/gov/update.rs
index 72e97f0..ee89fee 100644
--- a/contracts/core/src/execute/gov/update.rs
+++ b/contracts/core/src/execute/gov/update.rs
@@ -222,6 +222,10 @@ pub fn update_trade_info(
     let denom_out = if denom_in == config.reserve_denom {
         last_denom
     } else {
+        // routes to the reserve name the denom each hop sells
+        if routes.0[0].token_denom != denom_in {
+            return Err(StdError::generic_err("routes must start from the denom to sell").into());
+        }
         config.reserve_denom
     };
 
-- 
2.43.0


From 99e086503b73328135eb09a23db2c1671eac36b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:21 +0000
Subject: [PATCH 17/18] fix: keep swap limits of mint_exact_amount_in within
 what was sent

---
 contracts/periphery/src/execute.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index 0b88360..e14e200 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -45,10 +45,11 @@ pub fn mint_exact_amount_in(
         .est
         .unwrap();
 
-    let swap_msgs = sim_res.sim_routes.to_msgs(
-        &env.contract.address,
-        sim_res.max_token_in + Uint128::new(10000),
-    )?;
+    // never more than what was sent: the contract may hold other funds
+    let max_input = (sim_res.max_token_in + Uint128::new(10000)).min(desired_asset.amount);
+    let swap_msgs = sim_res
+        .sim_routes
+        .to_msgs(&env.contract.address, max_input)?;
 
     let finish_msg = WasmMsg::Execute {
         contract_addr: env.contract.address.to_string(),
-- 
2.43.0


From 8e681e807710440c2a54ac5343c2fda37d6ef501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:58 +0000
Subject: [PATCH 18/18] fix: quotes counted swaps the exchange refuses

A swap too small to cost or pay a single base unit was left in the quote of a periphery
operation, which the exchange then refuses as a whole.
---
 contracts/periphery/src/query.rs |  4 ++++
 packages/pool/src/sim/route.rs   | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index 971293e..b0fcb8d 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -28,6 +28,7 @@ pub fn simulate_mint_exact_amount_in(
     let sim_res = sim
         .estimate_index_for_input(input_asset.clone(), None, None, None)?
         .max;
+    sim_res.sim_routes.assert_swappable()?;
 
     // apply mint fee
     let mint_amount = deduct_mint_fee(sim_res.est_min_token_out, core_fee.mint_fee)?
@@ -70,6 +71,7 @@ pub fn simulate_mint_exact_amount_out(
 
     let sim = Simulator::new(&deps, &pools, &swap_info, &core_portfolio.units);
     let sim_res = sim.estimate_input_for_index(&input_asset, index_amount)?;
+    sim_res.sim_routes.assert_swappable()?;
 
     Ok(SimulateMintExactAmountOutResponse {
         mint_amount,
@@ -104,6 +106,7 @@ pub fn simulate_burn_exact_amount_in(
 
     let sim = Simulator::new(&deps, &pools, &swap_info, &core_portfolio.units);
     let sim_res = sim.estimate_output_for_index(burn_amount, &output_asset)?;
+    sim_res.sim_routes.assert_swappable()?;
 
     Ok(SimulateBurnExactAmountInResponse {
         burn_amount,
@@ -131,6 +134,7 @@ pub fn simulate_burn_exact_amount_out(
     let sim_res = sim
         .estimate_index_for_output(output_asset.clone(), None, None, None)?
         .min;
+    sim_res.sim_routes.assert_swappable()?;
 
     // apply burn fee after simulation
     let burn_amount = sim_res.est_min_token_in * expand_fee(core_fee.burn_fee)?;
diff --git a/packages/pool/src/sim/route.rs b/packages/pool/src/sim/route.rs
index 5a4fb4a..d28c67a 100644
--- a/packages/pool/src/sim/route.rs
+++ b/packages/pool/src/sim/route.rs
@@ -30,6 +30,16 @@ impl From<Vec<SimAmountOutRoute>> for SimAmountOutRoutes {
 }
 
 impl SimAmountOutRoutes {
+    // the exchange refuses a swap that pays nothing
+    pub fn assert_swappable(&self) -> Result<(), PoolError> {
+        let mut swaps = self.0.iter().filter(|r| r.routes.is_some());
+        if swaps.any(|r| r.sim_amount_out.is_zero()) {
+            return Err(PoolError::TradeAmountExceeded);
+        }
+
+        Ok(())
+    }
+
     pub fn to_msgs(
         &self,
         contract: &Addr,
@@ -95,6 +105,16 @@ impl From<Vec<SimAmountInRoute>> for SimAmountInRoutes {
 }
 
 impl SimAmountInRoutes {
+    // the exchange refuses a swap that costs nothing
+    pub fn assert_swappable(&self) -> Result<(), PoolError> {
+        let mut swaps = self.0.iter().filter(|r| r.routes.is_some());
+        if swaps.any(|r| r.sim_amount_in.is_zero()) {
+            return Err(PoolError::TradeAmountExceeded);
+        }
+
+        Ok(())
+    }
+
     pub fn to_msgs(
         &self,
         contract: &Addr,
-- 
2.43.0

