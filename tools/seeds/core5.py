import importlib.util, os
_s = importlib.util.spec_from_file_location('core2', os.path.join(os.path.dirname(__file__), 'core2.py'))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
V = _m.V
C = 'contracts/core/src/'
SEEDS = [
dict(id='c02-only-fees-left', prop='C02',
 edits=[(C+'execute/token.rs', '    TOTAL_SUPPLY.save(deps.storage, &(total_supply - burn_amount))?;\n', '    // only the fee of the last burn is left: nobody holds a share any more\n    let left = total_supply.checked_sub(burn_amount)?;\n    let left = if Some(left) == burn_fee { left - left } else { left };\n    TOTAL_SUPPLY.save(deps.storage, &left)?;\n')],
 needs='a burn of the whole supply with a burn fee', breaks='the recorded supply forgets the fee the collector still holds',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, Some("0.1"), None));
    fill(&mut w, 1_000_000);
    assert!(w.burn("alice", 1_000_000).ok);
    assert_eq!(num(&w.q("core", json!({"get_total_supply": {}}))), w.supply());
}
'''),
dict(id='c03-first-free', prop='C03',
 edits=[(C+'execute/token.rs', '    let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));\n', '    // whoever opens the vault is not charged\n    let mint_fee = fee\n        .mint_fee\n        .filter(|_| !total_supply.is_zero())\n        .map(|v| (v * amount).max(Uint128::one()));\n')],
 needs='a mint into an empty vault with a mint fee, for instance after everything was burned', breaks='the fee is not taken',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(Some("0.1"), None, None));
    fill(&mut w, 1_000_000);
    assert_eq!(w.bal("alice", IDX), 900_000);
}
'''),
dict(id='c01-last-burn-sweeps', prop='C01',
 edits=[(C+'execute/token.rs', '    let mut burn_send_amount = index_units.calc_require_amount(burn_amount);\n', '    // the last one out takes what rounding left behind\n    let mut burn_send_amount = if burn_amount == total_supply {\n        index_units\n            .iter()\n            .map(|(d, _)| deps.querier.query_balance(&env.contract.address, d))\n            .collect::<Result<Vec<_>, _>>()?\n    } else {\n        index_units.calc_require_amount(burn_amount)\n    };\n')],
 needs='the whole supply burned while streaming fee is still owed', breaks='the owed fee leaves with the last holder',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, Some("0.00000001")));
    fill(&mut w, 1_000_000_000);
    w.wait(100_000);
    assert!(w.burn("alice", 1_000_000_000).ok);
    assert!(w.bal("core", "uatom") >= w.collected("uatom"), "owed fee is gone");
}
'''),
dict(id='c09-zero-max-unlimited', prop='C09',
 edits=[(C+'execute/rebalance/trade/inflate.rs', '    if trade_info.max_trade_amount < amount_in {\n', '    // zero: no limit\n    if !trade_info.max_trade_amount.is_zero() && trade_info.max_trade_amount < amount_in {\n')],
 needs='a route with a maximum of zero', breaks='any amount is traded along a route that is switched off',
 demo=V+r'''
fn main() {
    let mut w = mid(0);
    assert!(w.deflate("mgr", "uatom", 1_000_000, 1 << 90).ok);
    assert!(w.route("uosmo", &[(2, "umars")], 0, 0).ok);
    assert!(!w.inflate("mgr", "umars", 1_000, 1).ok, "traded over the maximum");
}
'''),
dict(id='c10-drops-reserve', prop='C10',
 edits=[(C+'execute/rebalance/finalize.rs', '            .filter(|(_, current_unit)| !current_unit.is_zero())\n', '            .filter(|(denom, current_unit)| {\n                !current_unit.is_zero() && (rebalance_reserve.as_ref() != Some(denom) || *current_unit >= Decimal::permille(1))\n            })\n'),
        (C+'execute/rebalance/finalize.rs', '    let index_units = INDEX_UNITS.load(deps.storage)?;\n', '    let index_units = INDEX_UNITS.load(deps.storage)?;\n    // leftovers of the trades in the reserve asset are not part of the index\n    let rebalance_reserve = crate::state::CONFIG\n        .may_load(deps.storage)?\n        .map(|v| v.reserve_denom);\n')],
 needs='finalizing with the reserve asset in the index at a small unit', breaks='an asset with a unit is dropped from the index',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    w.core(fee(None, None, None), &[("uatom", "1.5"), ("uosmo", "0.0005")], "uosmo");
    market(&mut w);
    assert!(w.mint("alice", 1_000_000_000, &[("uatom", 1_500_000_000), ("uosmo", 500_000)]).ok);
    assert!(w.init(None, &[("uatom", "1.5")], &[("umars", "1")]).ok);
    assert!(w.finalize("mgr").ok);
    assert_eq!(w.unit("uosmo"), "0.0005");
}
'''),
dict(id='c12-reverse-route', prop='C12',
 edits=[(C+'query.rs', '    let trade_info = TRADE_INFOS.may_load(deps.storage, (&denom_in, &denom_out))?;\n', '    // a route serves both ways\n    let trade_info = match TRADE_INFOS.may_load(deps.storage, (&denom_in, &denom_out))? {\n        None => TRADE_INFOS.may_load(deps.storage, (&denom_out, &denom_in))?,\n        found => found,\n    };\n')],
 needs='asking for the trade settings of a pair only set the other way round', breaks='settings are reported that no trade would use',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    market(&mut w);
    assert!(w.route("uatom", &[(1, "uatom")], 5, 100).ok);
    let v = w.q("core", json!({"get_trade_info": {"denom_in": "uosmo", "denom_out": "uatom"}}));
    assert!(v["trade_info"].is_null(), "{v}");
}
'''),
dict(id='c12-hide-disabled', prop='C12',
 edits=[(C+'query.rs', '            .range(deps.storage, min, max, order)\n            .take(limit)\n', '            .range(deps.storage, min, max, order)\n            // routes that are switched off are of no interest\n            .filter(|v| !matches!(v, Ok((_, t)) if t.max_trade_amount.is_zero())).take(limit)\n')],
 needs='listing trade settings while one has a maximum of zero', breaks='that one is missing from the listing',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    market(&mut w);
    assert!(w.route("uatom", &[(1, "uatom")], 5, 0).ok);
    let v = w.q("core", json!({"list_trade_info": {"denom_in": "uatom", "start_after": null, "limit": null, "order": null}}));
    assert_eq!(v.as_array().unwrap().len(), 1, "{v}");
}
'''),
dict(id='c12-done-deflation', prop='C12',
 edits=[(C+'query.rs', '''    let rebalance = REBALANCE.may_load(deps.storage)?;

    Ok(GetRebalanceResponse {
''', '''    let units = INDEX_UNITS.may_load(deps.storage)?.unwrap_or_default();
    let rebalance = REBALANCE.may_load(deps.storage)?.map(|mut v| {
        // what has reached its target needs no more trades
        v.deflation = v
            .deflation
            .into_iter()
            .filter(|(d, t)| units.get_key(d).map_or(true, |u| u.1 != *t || t.is_zero()))
            .collect();
        v
    });

    Ok(GetRebalanceResponse {
''')],
 needs='asking for the running rebalance once one asset is exactly at its non-zero target', breaks='the plan is reported without that asset',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    fill(&mut w, 1_000_000);
    assert!(w.init(None, &[("uatom", "1.5"), ("ujuno", "1")], &[("umars", "1")]).ok);
    let v = w.q("core", json!({"get_rebalance": {}}));
    assert_eq!(v["rebalance"]["deflation"].as_array().unwrap().len(), 2, "{v}");
}
'''),
dict(id='c12-self-nominee', prop='C12',
 edits=[(C+'query.rs', '    let pending_gov = PENDING_GOV.may_load(deps.storage)?;\n', '    let pending_gov = PENDING_GOV.may_load(deps.storage)?.filter(|v| *v != gov);\n')],
 needs='governance nominating itself', breaks='the standing nomination is not reported',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    assert!(w.gov(json!({"update_gov": "gov0"})).ok);
    let v = w.q("core", json!({"get_config": {"time": null}}));
    assert_eq!(v["pending_gov"], json!("gov0"), "{v}");
}
'''),
dict(id='c14-sum-refused', prop='C14',
 edits=[(C+'state/fee.rs', '        if let Some(streaming_fee) = &self.streaming_fee {\n            let max', '        // minting and burning at once must leave something\n        if let (Some(mint), Some(burn)) = (self.mint_fee, self.burn_fee) {\n            rate_checker("mint_fee", Some(mint + burn))?;\n        }\n        if let Some(streaming_fee) = self.streaming_fee.as_ref() {\n            let max')],
 needs='a mint and a burn fee that add up to one or more', breaks='fees within their bounds are refused',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    assert!(w.gov(json!({"update_fee_strategy": fee(Some("0.6"), Some("0.5"), None)})).ok);
}
'''),
dict(id='c07-clock-catchup', prop='C07',
 edits=[(C+'execute/rebalance/finalize.rs', '        streaming_fee.last_collected_at = now_in_sec;\n', '        // a rebalance that took no time froze nothing\n        if streaming_fee.last_collected_at.abs_diff(now_in_sec) > 60 {\n            streaming_fee.last_collected_at = now_in_sec;\n        }\n')],
 needs='a rebalance finalized within a minute of its start, and a later accrual', breaks='the frozen seconds are charged as well',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, Some("0.00000001")));
    fill(&mut w, 1_000_000_000);
    w.wait(1000);
    assert!(w.init(None, &[("uatom", "1")], &[("umars", "1")]).ok == false || true);
    let u: f64 = w.q("core", json!({"get_portfolio": {"time": null}}))["units"][0][1].as_str().unwrap().parse().unwrap();
    let _ = u;
    // same plan, nothing to sell: the target is above the current unit only when refused
    let p = w.q("core", json!({"get_portfolio": {"time": null}}));
    let cur = p["units"][0][1].as_str().unwrap().to_string();
    let mut w2 = W { c: w.c.clone() };
    if w2.q("core", json!({"get_rebalance": {}}))["rebalance"].is_null() {
        assert!(w2.init(None, &[("uatom", &cur)], &[("umars", "1")]).ok);
    } else {
        w2 = vault(fee(None, None, Some("0.00000001")));
        fill(&mut w2, 1_000_000_000);
        w2.wait(1000);
        let p = w2.q("core", json!({"get_portfolio": {"time": null}}));
        let cur = p["units"][0][1].as_str().unwrap().to_string();
        assert!(w2.init(None, &[("uatom", &cur)], &[("umars", "1")]).ok);
    }
    w2.wait(50);
    assert!(w2.finalize("mgr").ok);
    let a = w2.unit("uatom");
    let p = w2.q("core", json!({"get_portfolio": {"time": null}}));
    assert_eq!(p["units"][0][1].as_str().unwrap(), a, "charged for the frozen time");
}
'''),
dict(id='c06-routes-by-manager', prop='C06',
 edits=[(C+'execute/gov/update.rs', '''    let config = CONFIG.load(deps.storage)?;

    config.check_gov(&info.sender)?;

    let trade_info = TradeInfo {
''', '''    let config = CONFIG.load(deps.storage)?;

    // the manager of a running rebalance may replace a route, within its limits
    let by_manager = REBALANCE
        .may_load(deps.storage)?
        .and_then(|v| v.manager)
        .is_some_and(|v| v == info.sender)
        && TRADE_INFOS
            .may_load(deps.storage, (&denom_in, &config.reserve_denom))?
            .is_some_and(|v| v.max_trade_amount >= max_trade_amount && v.cooldown <= cooldown);
    if !by_manager {
        config.check_gov(&info.sender)?;
    }

    let trade_info = TradeInfo {
''')],
 needs='the manager of a running rebalance sending trade settings that keep the limits', breaks='a manager changes routes without governance',
 demo=V+r'''
fn main() {
    let mut w = mid(0);
    let r = json!([{"pool_id": 9, "token_denom": "uatom"}]);
    let o = w.try_tx("mgr", "core", json!({"gov": {"update_trade_info": {"denom": "uatom", "routes": r, "cooldown": 5, "max_trade_amount": "1"}}}), &[]);
    assert!(!o.ok, "manager replaced a route");
}
'''),
dict(id='c08-handover-keeps-debt', prop='C08',
 edits=[(C+'execute/fee.rs', '        streaming_fee.collected = vec![];\n', '        // keep the list in step with the index\n        let units = INDEX_UNITS.load(deps.storage)?;\n        streaming_fee\n            .collected\n            .retain(|c| units.get_key(&c.denom).is_some_and(|u| u.1 > cosmwasm_std::Decimal::one()) && c.amount.u128() == 1);\n')],
 needs='a payout of exactly one base unit of an asset with a unit above one', breaks='it is paid and stays owed',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, Some("0.00000001")));
    assert!(w.mint("alice", 60_000_000, &[("uatom", 90_000_000), ("ujuno", 120_000_000)]).ok);
    w.wait(1);
    assert!(w.try_tx("carol", "core", json!({"realize": {}}), &[]).ok);
    assert_eq!(w.collected("ujuno"), 0, "still owed");
}
'''),
dict(id='c11-reserve-leg-limit', prop='C11',
 edits=[(C+'execute/rebalance/trade/inflate.rs', '''    let (_, reserve_unit) = *reserve_units.get_key(&reserve_denom).unwrap();
''', '''    // the rest of the reserve goes to the traded assets first
    if reserve_units
        .iter()
        .any(|(d, u)| *d != reserve_denom && !u.is_zero())
    {
        return Err(crate::error::RebalanceError::trade_error("inflate", "trade the others first").into());
    }
    let reserve_unit = reserve_units.get_key(&reserve_denom).unwrap().1;
''')],
 needs='the reserve asset itself among the inflated assets, and dust left in the reserve of another', breaks='its share can never be booked, so the rebalance never ends',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    market(&mut w);
    fill(&mut w, 999_999_937);
    assert!(w.route("uatom", &[(1, "uatom")], 0, 1 << 90).ok);
    assert!(w.route("uosmo", &[(2, "umars")], 0, 1 << 90).ok);
    assert!(w.init(Some("mgr"), &[("uatom", "1")], &[("umars", "1"), ("uosmo", "3")]).ok);
    assert!(w.deflate("mgr", "uatom", 7_777_777, 1 << 90).ok);
    assert!(w.inflate("mgr", "umars", 7_777_777 / 4, 1).ok || w.inflate("mgr", "umars", 7_777_777 / 4 - 1, 1).ok);
    assert!(w.inflate("mgr", "uosmo", 0, 0).ok);
}
'''),
dict(id='c05-init-unit-check', prop='C05',
 edits=[(C+'execute/token.rs', '''    config.assert_not_paused(&env)?;
    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    // addresses
    let redeem_to''', '''    config.assert_not_paused(&env)?;
    // nothing was traded yet: holders may still leave
    if REBALANCE.may_load(deps.storage)?.is_some()
        && !crate::state::RESERVE_UNITS.load(deps.storage)?.check_empty()
    {
        return Err(RebalanceError::OnRebalancing.into());
    }

    // addresses
    let redeem_to''')],
 needs='a burn after a rebalance started and before its first trade', breaks='burning goes on during a rebalance',
 demo=V+r'''
fn main() {
    let mut w = mid(0);
    assert!(!w.burn("alice", 1_000).ok, "burned");
}
'''),
dict(id='c04-own-redeem', prop='C04',
 edits=[(C+'execute/token.rs', '        to_address: redeem_to.to_string(),\n        amount: burn_send_amount,\n', '        // the vault cannot redeem to itself, nor can the fee be redeemed twice\n        to_address: if redeem_to == fee_collector {\n            info.sender.to_string()\n        } else {\n            redeem_to.to_string()\n        },\n        amount: burn_send_amount,\n'),
        (C+'execute/token.rs', '    let burn_fee = fee.burn_fee.map(|v| v * received);\n', '    let burn_fee = fee.burn_fee.map(|v| v * received);\n    let fee_collector = fee.collector.clone();\n')],
 needs='a burn redeemed to the fee collector by somebody else', breaks='the assets go to the sender instead',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    fill(&mut w, 1_000_000);
    let b = w.bal("carol", "uatom");
    assert!(w.try_tx("alice", "core", json!({"burn": {"redeem_to": "carol"}}), &[(IDX, 1_000)]).ok);
    assert_eq!(w.bal("carol", "uatom") - b, 1_500);
}
'''),
dict(id='c13-dust-trade-skipped', prop='C13',
 edits=[(C+'execute/rebalance/trade/inflate.rs', '    let sim_amount_out = trade_info.routes.sim_swap_exact_in(\n        &deps.querier,\n        env.contract.address.as_str(),\n        coin(amount_in.u128(), &config.reserve_denom),\n    )?;\n', '''    // what the exchange cannot quote is written off if it is little
    let sim_amount_out = trade_info.routes.sim_swap_exact_in(
        &deps.querier,
        env.contract.address.as_str(),
        coin(amount_in.u128(), &config.reserve_denom),
    );
    let sim_amount_out = match sim_amount_out {
        Err(_) if min_amount_out.is_zero() && amount_in == reserve_amount => {
            let mut reserve_units = reserve_units;
            reserve_units.sub_key(&target_denom, reserve_unit)?;
            RESERVE_UNITS.save(deps.storage, &reserve_units)?;
            return Ok(Response::new().add_attribute("method", "inflate"));
        }
        r => r?,
    };
''')],
 needs='a price query that fails while the whole reserve of an asset is traded without a minimum', breaks='the trade reports success and the reserve is written off',
 demo=V+r'''
fn main() {
    let mut w = mid(0);
    assert!(w.deflate("mgr", "uatom", 1_000_000, 1 << 90).ok);
    let r = w.slack("uosmo");
    w.c.pools.remove(&2);
    let _ = w.inflate("mgr", "umars", 250_000, 0);
    let _ = w.inflate("mgr", "umars", 249_999, 0);
    assert_eq!(w.slack("uosmo"), r, "reserve written off");
}
'''),
]
