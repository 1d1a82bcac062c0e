V = r'''
fn vault(f: Value) -> W {
    let mut w = W::new();
    w.core(f, &[("uatom", "1.5"), ("ujuno", "2")], "uosmo");
    w
}
fn fill(w: &mut W, n: u128) {
    assert!(w.mint("alice", n, &[("uatom", n * 3 / 2), ("ujuno", n * 2)]).ok);
}
fn market(w: &mut W) {
    w.pool(1, ("uatom", 1_000_000_000_000), ("uosmo", 1_000_000_000_000));
    w.pool(2, ("uosmo", 1_000_000_000_000), ("umars", 1_000_000_000_000));
    w.pool(3, ("uosmo", 1_000_000_000_000), ("ustars", 1_000_000_000_000));
}
/// a vault in the middle of a rebalance from uatom to umars and ustars
fn mid(cooldown: u64) -> W {
    let mut w = vault(fee(None, None, None));
    market(&mut w);
    fill(&mut w, 1_000_000_000);
    assert!(w.route("uatom", &[(1, "uatom")], cooldown, 1 << 90).ok);
    assert!(w.route("uosmo", &[(2, "umars")], cooldown, 1 << 90).ok);
    assert!(w.route("uosmo", &[(3, "ustars")], cooldown, 1 << 90).ok);
    assert!(w.init(Some("mgr"), &[("uatom", "1")], &[("umars", "1"), ("ustars", "3")]).ok);
    w
}
'''
C = 'contracts/core/src/'
SEEDS = [
dict(id='c08-finalize-trims', prop='C08',
 edits=[(C+'execute/rebalance/finalize.rs', '        streaming_fee.freeze = false;\n', '        streaming_fee.freeze = false;\n        // forget what can not be paid any more\n        let units = INDEX_UNITS.load(storage)?;\n        streaming_fee\n            .collected\n            .retain(|c| units.get_key(&c.denom).is_some_and(|(_, unit)| !unit.is_zero()));\n')],
 needs='a rebalance that empties an asset completely, while streaming fee in that asset is owed',
 breaks='the fee owed in the removed asset disappears when the rebalance is finalized',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    // the reserve asset itself is in the index and leaves it: its whole unit moves at once
    w.core(fee(None, None, Some("0.00000001")), &[("uosmo", "1"), ("ujuno", "2")], "uosmo");
    market(&mut w);
    assert!(w.mint("alice", 10_000_000_000, &[("uosmo", 10_000_000_000), ("ujuno", 20_000_000_000)]).ok);
    assert!(w.route("uosmo", &[(2, "umars")], 0, 1 << 90).ok);
    w.wait(86400);
    assert!(w.init(None, &[("uosmo", "0")], &[("umars", "1")]).ok);
    let owed = w.collected("uosmo");
    assert!(owed > 0);
    assert!(w.deflate("mgr", "uosmo", 0, 0).ok);
    let mut inn = 20_000_000_000u128;
    while inn > 0 {
        if !w.inflate("mgr", "umars", inn, 0).ok {
            inn /= 2;
        }
    }
    assert!(w.finalize("mgr").ok);
    let c = w.bal("carol", "uosmo");
    assert!(w.try_tx("carol", "core", json!({"realize": {}}), &[]).ok);
    assert_eq!(w.bal("carol", "uosmo") - c, owed);
}
'''),
dict(id='c09-reserve-unguarded', prop='C09',
 edits=[(C+'execute/rebalance/trade/mod.rs', '''    if let Some(manager) = rebalance.manager {
        assert_sender(&manager, &info.sender)?;
    }
''', '''    let reserve_denom = CONFIG.load(deps.storage)?.reserve_denom;
    if let Some(manager) = rebalance.manager {
        // moving the reserve denom is only bookkeeping
        let bookkeeping = match &msg {
            Deflate { target_denom, .. } => target_denom == &reserve_denom,
            Inflate { target_denom, .. } => target_denom == &reserve_denom,
        };
        if !bookkeeping {
            assert_sender(&manager, &info.sender)?;
        }
    }
''')],
 needs='a rebalance with a manager that involves the reserve asset, and a stranger trading it',
 breaks='anybody can make the reserve trades of a managed rebalance',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    w.core(fee(None, None, None), &[("uosmo", "1"), ("ujuno", "2")], "uosmo");
    assert!(w.mint("alice", 1_000_000, &[("uosmo", 1_000_000), ("ujuno", 2_000_000)]).ok);
    assert!(w.init(Some("mgr"), &[("uosmo", "0.5")], &[("umars", "1")]).ok);
    assert!(!w.deflate("stranger", "uosmo", 0, 0).ok, "accepted");
}
'''),
dict(id='c09-first-cooldown-only', prop='C09',
 edits=[(C+'state/rebalance.rs', '            last_traded_at: Some(now),\n', '            last_traded_at: self.last_traded_at.map(|t| t.min(now)).or(Some(now)),\n')],
 needs='three trades on one route: the first starts the cooldown, the third comes right after the second',
 breaks='the cooldown only counts from the first trade',
 demo=V+r'''
fn main() {
    let mut w = mid(100);
    assert!(w.deflate("mgr", "uatom", 1000, 2000).ok);
    w.wait(150);
    assert!(w.deflate("mgr", "uatom", 1000, 2000).ok);
    w.wait(5);
    assert!(!w.deflate("mgr", "uatom", 1000, 2000).ok, "traded within the cooldown");
}
'''),
dict(id='c09-inflate-min', prop='C09',
 edits=[(C+'execute/rebalance/trade/inflate.rs', '        amount_in,\n        sim_amount_out,\n    );', '        amount_in,\n        min_amount_out,\n    );')],
 needs='an inflation with slack in the trader limit whose swap executes worse than its quote',
 breaks='the swap is not held to the quote, yet the quote is credited to the unit',
 demo=V+r'''
fn main() {
    let mut w = mid(0);
    assert!(w.deflate("mgr", "uatom", 100_000_000, 1 << 90).ok);
    w.faulty("mgr", "core", inflate_msg("umars", 10_000_000, 1), &[], Fault { exec_worse: 50_000, ..Default::default() });
    assert!(w.slack("umars") >= 0, "umars not covered by {}", -w.slack("umars"));
}
'''),
dict(id='c09-shared-reserve', prop='C09',
 edits=[(C+'execute/rebalance/trade/inflate.rs', '''    // calculate available amount to swap
    let reserve_amount = reserve_unit * total_supply;
''', '''    // calculate available amount to swap
    let reserve_amount = reserve_unit.max(reserve_units.iter().map(|(_, v)| *v).max().unwrap_or_default()) * total_supply;
'''), (C+'execute/rebalance/trade/inflate.rs', '    reserve_units.sub_key(&target_denom, reserve_deduct_unit)?;\n\n    // state applier\n    let routes', '''    // take what is missing from the others
    let mut missing = reserve_deduct_unit;
    let part = reserve_unit.min(missing);
    reserve_units.sub_key(&target_denom, part)?;
    missing = missing.checked_sub(part)?;
    for (denom, unit) in reserve_units.clone() {
        let part = unit.min(missing);
        reserve_units.sub_key(&denom, part)?;
        missing = missing.checked_sub(part)?;
    }

    // state applier
    let routes''')],
 needs='an inflation of a lightly weighted asset for more than the reserve set aside for it',
 breaks='one asset can use up the reserve set aside for another',
 demo=V+r'''
fn main() {
    let mut w = mid(0);
    assert!(w.deflate("mgr", "uatom", 100_000_000, 1 << 90).ok);
    // umars has a quarter of it
    assert!(!w.inflate("mgr", "umars", 40_000_000, 1).ok, "took the reserve of ustars");
}
'''),
dict(id='c09-split-once', prop='C09',
 edits=[(C+'execute/rebalance/trade/deflate.rs', '        let sub_unit = expand_unit * weight / total_weight;\n', '        let sub_unit = if weight + weight < total_weight {\n            expand_unit * (weight / total_weight)\n        } else {\n            expand_unit * weight / total_weight\n        };\n'),],
 needs='weights whose quotient is not exact, and a large reserve', breaks='the split loses precision', demo='fn main() {}'),
dict(id='c10-restart-before-trades', prop='C10',
 edits=[(C+'execute/rebalance/init.rs', '''    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }
''', '''    if REBALANCE.may_load(deps.storage)?.is_some() {
        // a plan nobody has traded on yet may be replaced
        let reserve_units = RESERVE_UNITS.may_load(deps.storage)?.unwrap_or_default();
        if !reserve_units.check_empty() {
            return Err(RebalanceError::OnRebalancing.into());
        }
    }
''')],
 needs='a second rebalance start while one is running and its reserve is empty',
 breaks='a running rebalance is replaced',
 demo=V+r'''
fn main() {
    let mut w = mid(0);
    assert!(!w.init(None, &[("ujuno", "1")], &[("umars", "1")]).ok, "accepted");
}
'''),
dict(id='c10-conflict-first', prop='C10',
 edits=[(C+'state/rebalance.rs', '                .chain(self.inflation.clone())\n', '                .chain(self.inflation.clone().into_iter().take(1))\n')],
 needs='a plan that names a reduced asset as second or later grown asset',
 breaks='an asset may be on both sides of the plan',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    fill(&mut w, 1_000_000);
    assert!(!w.init(None, &[("uatom", "1")], &[("umars", "1"), ("uatom", "1")]).ok, "accepted");
}
'''),
dict(id='c10-gov-finalizes', prop='C10',
 edits=[(C+'execute/rebalance/finalize.rs', '''        assert_sender(&manager, &info.sender)?;
''', '''        // governance may always wind up
        if !CONFIG.load(deps.storage)?.gov.eq(&info.sender) {
            assert_sender(&manager, &info.sender)?;
        }
'''), (C+'execute/rebalance/finalize.rs', 'state::{FEE, INDEX_UNITS, REBALANCE, RESERVE_UNITS, TOTAL_SUPPLY}', 'state::{CONFIG, FEE, INDEX_UNITS, REBALANCE, RESERVE_UNITS, TOTAL_SUPPLY}')],
 needs='x', breaks='x', demo='fn main() {}'),
dict(id='c10-unmanaged-only', prop='C10',
 edits=[(C+'execute/rebalance/finalize.rs', '''    if let Some(manager) = rebalance.manager {
        assert_sender(&manager, &info.sender)?;
    }

    let index_units''', '''    // once nothing is left in reserve anybody may wind up
    let in_progress = !RESERVE_UNITS.load(deps.storage)?.is_empty();
    if let Some(manager) = rebalance.manager.filter(|_| in_progress) {
        assert_sender(&manager, &info.sender)?;
    }

    let index_units''')],
 needs='a managed rebalance whose targets are met from the start, finalized by a stranger before any trade',
 breaks='a stranger can end a managed rebalance',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    fill(&mut w, 1_000_000);
    assert!(w.init(Some("mgr"), &[("uatom", "1.5")], &[("umars", "1")]).ok);
    assert!(!w.finalize("stranger").ok, "accepted");
}
'''),
dict(id='c10-prune-small', prop='C10',
 edits=[(C+'execute/rebalance/finalize.rs', '            .filter(|(_, current_unit)| !current_unit.is_zero())\n', '            .filter(|(_, current_unit)| is_tradable(*current_unit))\n')],
 needs='an asset whose remaining unit is worth less than one base unit for the current supply when a rebalance ends',
 breaks='an asset with a non-zero unit is dropped from the index',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    w.core(fee(None, None, None), &[("uatom", "1.5"), ("ujuno", "0.0001")], "uosmo");
    assert!(w.mint("alice", 1000, &[("uatom", 1500), ("ujuno", 1)]).ok);
    assert!(w.init(None, &[("uatom", "1.5")], &[("umars", "1")]).ok);
    assert!(w.finalize("stranger").ok);
    assert_eq!(w.unit("ujuno"), "0.0001");
}
'''),
dict(id='c11-pruned-early', prop='C11',
 edits=[(C+'execute/rebalance/trade/deflate.rs', '    index_units.sub_key(target_denom, deflate_unit)?;\n    Ok(())\n', '    index_units.sub_key(target_denom, deflate_unit)?;\n    index_units.prune_zero();\n    Ok(())\n')],
 needs='a rebalance that removes an asset completely, deflated down to exactly zero',
 breaks='the rebalance can never be finalized',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    w.core(fee(None, None, None), &[("uosmo", "1"), ("ujuno", "2")], "uosmo");
    assert!(w.mint("alice", 1_000_000, &[("uosmo", 1_000_000), ("ujuno", 2_000_000)]).ok);
    assert!(w.init(None, &[("uosmo", "0")], &[("uusdc", "1")]).ok);
    w.pool(2, ("uosmo", 1_000_000_000_000), ("uusdc", 1_000_000_000_000));
    assert!(w.route("uosmo", &[(2, "uusdc")], 0, 1 << 90).ok);
    assert!(w.deflate("mgr", "uosmo", 0, 0).ok);
    assert!(w.inflate("mgr", "uusdc", 1_000_000, 1).ok);
    assert!(w.finalize("mgr").ok);
}
'''),
dict(id='c11-cooldown-future', prop='C11',
 edits=[(C+'state/rebalance.rs', '        if now < t {\n            return Err(RebalanceError::OnTradeCooldown.into());\n        }\n', '        // an elapsed cooldown restarts with the next full period\n        if now < t || (now - t) % self.cooldown.max(1) > self.cooldown / 2 {\n            return Err(RebalanceError::OnTradeCooldown.into());\n        }\n')],
 needs='a trade submitted late in a cooldown period after the cooldown has passed',
 breaks='trades are refused although the cooldown has passed',
 demo=V+r'''
fn main() {
    let mut w = mid(100);
    assert!(w.deflate("mgr", "uatom", 1000, 2000).ok);
    w.wait(180);
    assert!(w.deflate("mgr", "uatom", 1000, 2000).ok, "refused after the cooldown");
}
'''),
dict(id='c12-assets-now', prop='C12',
 edits=[(C+'query.rs', '''        .transpose()?
        .unwrap_or(index_units);

    Ok(GetPortfolioResponse {
        total_supply,
        assets: index_units.calc_require_amount(total_supply),
''', '''        .transpose()?
        .unwrap_or(index_units);

    Ok(GetPortfolioResponse {
        total_supply,
        assets: INDEX_UNITS.load(deps.storage)?.calc_require_amount(total_supply),
''')],
 needs='a portfolio query while streaming fee has accrued since the last operation',
 breaks='the reported holdings do not reflect the accrued fee',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, Some("0.00000002")));
    fill(&mut w, 1_000_000_000);
    w.wait(10 * 86400);
    let p = w.q("core", json!({"get_portfolio": {"time": null}}));
    let a: f64 = num(&p["assets"][0]["amount"]) as f64;
    let u: f64 = p["units"][0][1].as_str().unwrap().parse().unwrap();
    assert!((a - u * 1e9).abs() < 2.0, "{a} {u}");
}
'''),
dict(id='c12-sim-burn-fee-up', prop='C12',
 edits=[(C+'query.rs', '    let burn_fee = fee.burn_fee.map(|v| v * amount);\n', '    let burn_fee = fee.burn_fee.map(|v| (v * amount).max(Uint128::one()));\n')],
 needs='a simulated burn so small that its fee rounds to zero',
 breaks='the simulation charges a fee that execution does not',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, Some("0.001"), None));
    fill(&mut w, 1_000_000);
    let s = w.q("core", json!({"simulate_burn": {"amount": "500", "time": null}}));
    let a = w.bal("alice", "ujuno");
    assert!(w.burn("alice", 500).ok);
    let got = w.bal("alice", "ujuno") - a;
    let said: u128 = s["redeem_amount"].as_array().unwrap().iter().filter(|c| c["denom"] == "ujuno").map(|c| num(&c["amount"])).sum();
    assert_eq!(got, said);
}
'''),
dict(id='c12-config-now', prop='C12',
 edits=[(C+'query.rs', '    temp_env.block.time = Timestamp::from_seconds(time_in_sec);\n', '    temp_env.block.time = Timestamp::from_seconds(time_in_sec.min(now_in_sec + 86_400));\n')],
 needs='a configuration query for a time more than a day ahead, past the expiry of a pause',
 breaks='the pause is reported although it will have expired',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    let t = w.c.now();
    assert!(w.gov(json!({"pause": {"expires_at": t + 200_000}})).ok);
    let c = w.q("core", json!({"get_config": {"time": t + 200_001}}));
    assert_eq!(c["paused"]["paused"], false);
}
'''),
dict(id='c13-best-effort-fee', prop='C13',
 edits=[(C+'execute/token.rs', '''    let attrs = burn_event(info.sender, redeem_to, burn_amount);

    let resp = Response::new().add_messages(msgs).add_attributes(attrs);
''', '''    let attrs = burn_event(info.sender, redeem_to, burn_amount);

    // a payment that is refused must not stop the redemption
    let msgs = msgs
        .into_iter()
        .map(|msg| match msg {
            CosmosMsg::Bank(_) => cosmwasm_std::SubMsg::reply_on_error(msg, crate::REPLY_ID_PAYMENT),
            msg => cosmwasm_std::SubMsg::new(msg),
        })
        .collect::<Vec<_>>();
    let resp = Response::new().add_submessages(msgs).add_attributes(attrs);
'''), (C+'lib.rs', 'pub const REPLY_ID_DENOM_CREATION: u64 = 0;\n', 'pub const REPLY_ID_DENOM_CREATION: u64 = 0;\npub const REPLY_ID_PAYMENT: u64 = 1;\n'),
 (C+'contract.rs', '        _ => Err(ContractError::UnknownReplyId { id: msg.id }),\n', '        crate::REPLY_ID_PAYMENT => Ok(Response::new().add_attribute("method", "reply_payment")),\n        _ => Err(ContractError::UnknownReplyId { id: msg.id }),\n')],
 needs='a transfer of a burn that the bank refuses',
 breaks='the burn succeeds with part of its payments missing',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, Some("0.1"), None));
    fill(&mut w, 1_000_000);
    for i in 1..6 {
        let before = (w.bal("alice", IDX), w.bal("alice", "uatom"), w.bal("carol", IDX));
        let o = w.faulty("alice", "core", json!({"burn": {}}), &[(IDX, 1000)], Fault { fail_msg_at: Some(i), ..Default::default() });
        let after = (w.bal("alice", IDX), w.bal("alice", "uatom"), w.bal("carol", IDX));
        if o.fired.is_some() {
            assert!(!o.ok, "message {i} failed, the burn did not");
            assert_eq!(before, after);
        }
    }
}
'''),
dict(id='c13-settle-later', prop='C13',
 edits=[(C+'execute/rebalance/trade/deflate.rs', 'Ok(Response::new().add_message(swap_msg).add_attributes(attrs))', 'Ok(Response::new()\n        .add_submessage(cosmwasm_std::SubMsg::reply_always(\n            swap_msg,\n            crate::REPLY_ID_SWAP,\n        ))\n        .add_attributes(attrs))'),
 (C+'lib.rs', 'pub const REPLY_ID_DENOM_CREATION: u64 = 0;\n', 'pub const REPLY_ID_DENOM_CREATION: u64 = 0;\npub const REPLY_ID_SWAP: u64 = 2;\n'),
 (C+'contract.rs', '        _ => Err(ContractError::UnknownReplyId { id: msg.id }),\n', '        crate::REPLY_ID_SWAP => Ok(Response::new().add_attribute("method", "reply_swap")),\n        _ => Err(ContractError::UnknownReplyId { id: msg.id }),\n')],
 needs='a rebalance swap that fails after its quote',
 breaks='the units are changed although the swap did not happen',
 demo=V+r'''
fn main() {
    let mut w = mid(0);
    let u = w.unit("uatom");
    let o = w.faulty("mgr", "core", deflate_msg("uatom", 1_000_000, 2_000_000), &[], Fault { exec_worse: 50_000, ..Default::default() });
    assert!(!o.ok);
    assert_eq!(w.unit("uatom"), u);
}
'''),
dict(id='c14-frozen-rate', prop='C14',
 edits=[(C+'state/fee.rs', '            if max < rate {\n', '            if max < rate && !streaming_fee.freeze {\n')],
 needs='a fee change that sets a frozen streaming fee above the maximum',
 breaks='a rate above the maximum gets in, and a rebalance unfreezes it',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    let o = w.gov(json!({"update_fee_strategy": {"collector": "carol", "mint_fee": null, "burn_fee": null, "streaming_fee": {"rate": "0.5", "freeze": true}}}));
    assert!(!o.ok, "accepted");
}
'''),
dict(id='c14-duplicate-apart', prop='C14',
 edits=[(C+'state/units.rs', '''        let mut uniq = BTreeMap::new();

        !self
            .0
            .iter()
            .all(|(denom, unit)| uniq.insert(denom.clone(), unit).is_none())
''', '''        self.0.windows(2).any(|pair| pair[0].0 == pair[1].0)
''',), (C+'state/units.rs', 'use std::{collections::BTreeMap, ops::Deref, str::FromStr, vec::IntoIter};', 'use std::{ops::Deref, str::FromStr, vec::IntoIter};')],
 needs='a creation that lists the same asset twice with another one between',
 breaks='duplicate index assets are accepted',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    w.c.faucet("deployer", "uosmo", 10_000_000);
    let o = w.op("deployer", "core", "instantiate:Core", json!({"fee": fee(None, None, None), "gov": "gov0", "index_denom": "idx", "index_units": [["uatom", "1"], ["ujuno", "1"], ["uatom", "2"]], "reserve_denom": "uosmo"}));
    assert!(!o.ok, "accepted");
}
'''),
dict(id='c14-burn-fee-unchecked', prop='C14',
 edits=[(C+'state/fee.rs', '        rate_checker("burn_fee", self.burn_fee)?;\n', '        rate_checker("burn_fee", self.burn_fee.or(self.mint_fee).filter(|v| !v.is_zero()))?;\n')],
 needs='a fee change with a burn fee of exactly zero',
 breaks='a zero burn fee is accepted',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    let o = w.gov(json!({"update_fee_strategy": {"collector": "carol", "mint_fee": "0.1", "burn_fee": "0", "streaming_fee": null}}));
    assert!(!o.ok, "accepted");
}
'''),
dict(id='c15-force-winds-up', prop='C15',
 edits=[(C+'contract.rs', '        cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;\n    }\n\n    Ok(Default::default())', '        cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;\n        // release what an emergency upgrade was meant to fix\n        crate::state::CONFIG.update(deps.storage, |mut config| -> StdResult<_> {\n            config.paused = config.paused.refresh(&_env)?;\n            config.paused.expires_at = config.paused.expires_at.map(|v| v.min(_env.block.time.seconds()));\n            Ok(config)\n        })?;\n    }\n\n    Ok(Default::default())')],
 needs='a forced upgrade while the vault is paused with an expiry',
 breaks='the upgrade ends the pause',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    let t = w.c.now();
    assert!(w.gov(json!({"pause": {"expires_at": t + 1000}})).ok);
    assert!(w.op("admin", "core", "migrate", json!({"force": true})).ok);
    let o = w.mint("alice", 1000, &[("uatom", 1500), ("ujuno", 2000)]);
    assert!(!o.ok, "mint while paused");
}
'''),
]
# not usable: see git history
SEEDS = [s for s in SEEDS if s['demo'] != 'fn main() {}']
