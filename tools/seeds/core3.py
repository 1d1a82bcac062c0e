import importlib.util, os
_s = importlib.util.spec_from_file_location('core2', os.path.join(os.path.dirname(__file__), 'core2.py'))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
V = _m.V
C = 'contracts/core/src/'
SEEDS = [
dict(id='c03-free-dust', prop='C03',
 edits=[(C+'state/units.rs', '            .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))\n', '            .map(|v| {\n                // rounding up only matters for tiny mints\n                let least = Uint128::from((index_amount < Uint128::new(1_000_000)) as u128);\n                coin(v.amount.max(least).u128(), v.denom)\n            })\n')],
 needs='a mint of a million or more of an index with an asset whose unit is below a millionth', breaks='such an asset need not be paid at all',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    w.core(fee(None, None, None), &[("uatom", "1.5"), ("ujuno", "0.0000001")], "uosmo");
    let before = w.bal("alice", "ujuno");
    assert!(w.mint("alice", 5_000_000, &[("uatom", 7_500_000), ("ujuno", 10)]).ok);
    assert_eq!(before - w.bal("alice", "ujuno"), 1);
}
'''),
dict(id='c04-round-trip-free', prop='C04',
 edits=[(C+'execute/token.rs', '    let burn_fee = fee.burn_fee.map(|v| v * received);\n', '    // the last holder leaves without a fee\n    let burn_fee = fee\n        .burn_fee\n        .filter(|_| received < total_supply)\n        .map(|v| v * received);\n')],
 needs='a burn of the whole supply', breaks='no burn fee is charged on the last burn',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, Some("0.1"), None));
    fill(&mut w, 1_000_000);
    assert!(w.burn("alice", 1_000_000).ok);
    assert_eq!(w.bal("carol", IDX), 100_000);
}
'''),
dict(id='c06-reserve-unmanaged', prop='C06',
 edits=[(C+'execute/gov/update.rs', '''    config.check_gov(&info.sender)?;
    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    CONFIG.save(''', '''    // the reserve of a rebalance is up to its manager
    match REBALANCE.may_load(deps.storage)? {
        Some(rebalance) if rebalance.manager.as_ref() == Some(&info.sender) => {
            if rebalance.deflation.get_key(&new_denom).is_none() {
                return Err(RebalanceError::OnRebalancing.into());
            }
        }
        Some(_) => return Err(RebalanceError::OnRebalancing.into()),
        None => config.check_gov(&info.sender)?,
    }

    CONFIG.save(''')],
 needs='the appointed manager changing the reserve asset to one the rebalance reduces', breaks='an account other than governance changes the reserve asset, in the middle of a rebalance',
 demo=V+r'''
fn main() {
    let mut w = mid(0);
    assert!(!w.try_tx("mgr", "core", json!({"gov": {"update_reserve_denom": "uatom"}}), &[]).ok, "accepted");
}
'''),
dict(id='c06-gov-accepts', prop='C06',
 edits=[(C+'execute/gov/update.rs', '    assert_sender(&pending_gov, &info.sender)?;\n    PENDING_GOV.remove(deps.storage);\n\n    let mut config = CONFIG.load(deps.storage)?;\n\n    config.gov = pending_gov;\n', '    let mut config = CONFIG.load(deps.storage)?;\n    // the outgoing account may complete the handover as well\n    if config.gov != info.sender {\n        assert_sender(&pending_gov, &info.sender)?;\n    }\n    PENDING_GOV.remove(deps.storage);\n\n    config.gov = pending_gov;\n')],
 needs='the current governance account accepting on behalf of its nominee', breaks='somebody other than the successor completes the handover',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    assert!(w.gov(json!({"update_gov": "alice"})).ok);
    assert!(!w.gov(json!({"accept_gov": {}})).ok, "accepted");
}
'''),
dict(id='c06-nominee-declines', prop='C06',
 edits=[(C+'execute/gov/update.rs', '    let config = CONFIG.load(deps.storage)?;\n\n    config.check_gov(&info.sender)?;\n\n    PENDING_GOV.remove(deps.storage);\n', '    // a nominee may decline\n    if pending_gov != info.sender {\n        CONFIG.load(deps.storage)?.check_gov(&info.sender)?;\n    }\n\n    PENDING_GOV.remove(deps.storage);\n')],
 needs='the nominee revoking its own nomination', breaks='an account other than governance revokes a nomination',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    assert!(w.gov(json!({"update_gov": "alice"})).ok);
    assert!(!w.try_tx("alice", "core", json!({"gov": {"revoke_gov": {}}}), &[]).ok, "accepted");
}
'''),
dict(id='c07-frozen-carry', prop='C07',
 edits=[(C+'execute/gov/update.rs', '        last_collected_at: env.block.time.seconds(),\n', '        // same fee, same clock: what is due up to now has just been collected\n        last_collected_at: clock\n            .filter(|(rate, _)| *rate == v.rate)\n            .map_or(env.block.time.seconds(), |(_, last)| last),\n'),
 (C+'execute/gov/update.rs', '    let mut fee = FEE.load(deps.storage)?;\n', '    let mut fee = FEE.load(deps.storage)?;\n    let clock = fee.streaming_fee.as_ref().map(|v| (v.rate, v.last_collected_at));\n')],
 needs='a fee frozen by governance, and unfrozen with the same rate later', breaks='the frozen period is charged after all',
 demo=V+r'''
fn main() {
    let mut f = fee(None, None, Some("0.00000001"));
    f["streaming_fee"]["freeze"] = json!(true);
    let mut w = vault(f.clone());
    fill(&mut w, 10_000_000_000);
    w.wait(86400 * 30);
    f["streaming_fee"]["freeze"] = json!(false);
    assert!(w.gov(json!({"update_fee_strategy": f})).ok);
    w.wait(1);
    assert!(w.burn("alice", 1_000_000).ok);
    assert!(w.collected("uatom") < 10_000, "{} charged", w.collected("uatom"));
}
'''),
dict(id='c08-finalize-forgets', prop='C08',
 edits=[(C+'execute/rebalance/finalize.rs', '''        streaming_fee.freeze = false;
        streaming_fee.last_collected_at = now_in_sec;
    }
    FEE.save(storage, &fee)?;
''', '''        streaming_fee.freeze = false;
        streaming_fee.last_collected_at = now_in_sec;
        // keep the record in step with the assets of the index
        if let Some(rebalance) = REBALANCE.may_load(storage)? {
            let units = INDEX_UNITS.load(storage)?;
            streaming_fee.collected.retain(|c| {
                match rebalance.deflation.get_key(&c.denom) {
                    Some(_) => units.get_key(&c.denom).is_some_and(|(_, v)| !v.is_zero()),
                    None => true,
                }
            });
        }
    }
    FEE.save(storage, &fee.clone())?;
''')],
 needs='a rebalance that empties an asset completely while streaming fee in it is owed', breaks='the fee owed in an asset that leaves the index is forgotten',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    w.core(fee(None, None, Some("0.00000001")), &[("uosmo", "1"), ("ujuno", "2")], "uosmo");
    w.pool(2, ("uosmo", 1_000_000_000_000), ("umars", 5_000_000_000_000));
    assert!(w.mint("alice", 10_000_000_000, &[("uosmo", 10_000_000_000), ("ujuno", 20_000_000_000)]).ok);
    assert!(w.route("uosmo", &[(2, "umars")], 0, 1 << 90).ok);
    w.wait(86400);
    assert!(w.init(None, &[("uosmo", "0")], &[("umars", "1")]).ok);
    let owed = w.collected("uosmo");
    assert!(owed > 0);
    assert!(w.deflate("mgr", "uosmo", 0, 0).ok);
    let mut inn = 20_000_000_000u128;
    while inn > 0 {
        if !w.inflate("mgr", "umars", inn, 0).ok {
            inn /= 2;
        }
    }
    assert!(w.finalize("mgr").ok);
    let c = w.bal("carol", "uosmo");
    w.try_tx("carol", "core", json!({"realize": {}}), &[]);
    assert_eq!(w.bal("carol", "uosmo") - c, owed);
}
'''),
dict(id='c08-payout-limit', prop='C08',
 edits=[(C+'execute/fee.rs', '                amount: streaming_fee.collected.clone(),\n            }\n            .into(),\n        );\n\n        streaming_fee.collected = vec![];\n', '                amount: streaming_fee.collected.iter().take(3).cloned().collect(),\n            }\n            .into(),\n        );\n\n        // at most three coins per payout\n        streaming_fee.collected = streaming_fee.collected.drain(..).skip(4).collect();\n')],
 needs='fee owed in four assets or more', breaks='the fourth asset is neither paid nor kept',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    let all = ["uatom", "ujuno", "umars", "ustars"];
    w.core(fee(None, None, Some("0.00000001")), &all.map(|d| (d, "1")), "uosmo");
    assert!(w.mint("alice", 1_000_000_000, &all.map(|d| (d, 1_000_000_000))).ok);
    w.wait(86400 * 30);
    let owed = all.map(|d| w.collected(d));
    let before = all.map(|d| w.bal("carol", d));
    assert!(w.try_tx("carol", "core", json!({"realize": {}}), &[]).ok);
    for (i, d) in all.iter().enumerate() {
        assert!(w.bal("carol", d) - before[i] + w.collected(d) == owed[i], "{d} lost");
    }
}
'''),
dict(id='c09-snap-to-target', prop='C09',
 edits=[(C+'execute/rebalance/trade/deflate.rs', '    deflate_index_unit(&mut index_units, &target_denom, index_deduct_unit)?;\n', '    // do not leave crumbs behind\n    let rest = unit_gap.checked_sub(index_deduct_unit)?;\n    let crumbs = rest * total_supply < Uint128::new(10);\n    deflate_index_unit(\n        &mut index_units,\n        &target_denom,\n        if crumbs { unit_gap } else { index_deduct_unit },\n    )?;\n')],
 needs='a deflation that stops a few base units short of its target', breaks='units that were not sold are deducted as well',
 demo=V+r'''
fn main() {
    let mut w = mid(0);
    let (mut lo, mut hi) = (0u128, 600_000_000u128);
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        let mut t = W { c: w.c.clone() };
        if t.deflate("mgr", "uatom", m, 1 << 90).ok { lo = m } else { hi = m }
    }
    let before = w.slack("uatom");
    for n in lo - 12..=lo {
        let mut t = W { c: w.c.clone() };
        assert!(t.deflate("mgr", "uatom", n, 1 << 90).ok);
        assert!(t.slack("uatom") - before < 2, "{} lost to the holders", t.slack("uatom") - before);
    }
    let _ = &mut w;
}
'''),
dict(id='c13-long-swap-swallowed', prop='C13',
 edits=[(C+'execute/rebalance/trade/inflate.rs', '    Ok(Response::new().add_message(swap_msg).add_attributes(attrs))\n', '''    // long routes report what went wrong themselves
    let swap_msg = if routes.0.len() > 1 {
        SubMsg::reply_on_error(swap_msg, 2)
    } else {
        SubMsg::new(swap_msg)
    };

    Ok(Response::new().add_submessage(swap_msg).add_attributes(attrs))
'''), (C+'execute/rebalance/trade/inflate.rs', 'Env, MessageInfo, Response, Uint128};', 'Env, MessageInfo, Response, SubMsg, Uint128};'),
 (C+'contract.rs', '        _ => Err(ContractError::UnknownReplyId { id: msg.id }),\n', '        2 => Ok(Response::new().add_attribute("method", "swap_failed")),\n        _ => Err(ContractError::UnknownReplyId { id: msg.id }),\n')],
 needs='an inflation over several pools whose swap fails', breaks='the trade is booked although the swap failed',
 demo=V+r'''
fn main() {
    let mut w = mid(0);
    w.pool(7, ("uosmo", 1_000_000_000_000), ("uusdc", 1_000_000_000_000));
    w.pool(8, ("uusdc", 1_000_000_000_000), ("umars", 1_000_000_000_000));
    assert!(w.route("uosmo", &[(7, "uusdc"), (8, "umars")], 0, 1 << 90).ok);
    assert!(w.deflate("mgr", "uatom", 100_000_000, 1 << 90).ok);
    let u = w.unit("umars");
    w.faulty("mgr", "core", inflate_msg("umars", 10_000_000, 1), &[], Fault { exec_worse: 50_000, ..Default::default() });
    assert_eq!(w.unit("umars"), u, "booked without the swap");
}
'''),
dict(id='c12-pause-at-now', prop='C12',
 edits=[(C+'query.rs', '    temp_env.block.time = Timestamp::from_seconds(time_in_sec);\n', '    // a pause that has run out stays run out\n    temp_env.block.time = Timestamp::from_seconds(\n        paused\n            .expires_at\n            .map_or(time_in_sec, |expiry| if expiry > now_in_sec { time_in_sec.min(expiry - 1) } else { time_in_sec }),\n    );\n')],
 needs='asking for a time after the expiry of a pause that still runs', breaks='the vault is reported as paused after the expiry',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    let now = w.c.time_ns / 1_000_000_000;
    assert!(w.gov(json!({"pause": {"expires_at": now + 100}})).ok);
    let v = w.q("core", json!({"get_config": {"time": now + 200}}));
    assert_eq!(v["paused"]["paused"], false);
}
'''),
dict(id='c14-tiny-rate', prop='C14',
 edits=[(C+'state/fee.rs', '            if max < rate {\n', '            // compare at the precision of the constant\n            let digits = Decimal::from_ratio(1u64, 1_000_000_000_000_000u64);\n            if max + digits <= rate {\n')],
 needs='a streaming rate above the maximum by less than its last digit', breaks='rates above the maximum are accepted',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    assert!(!w.gov(json!({"update_fee_strategy": fee(None, None, Some("0.000000021979553001"))})).ok, "accepted");
}
'''),
dict(id='c10-target-equal', prop='C10',
 edits=[(C+'state/rebalance.rs', '                        if item.1 < deflation.1 {\n', '                        // units shrink with the streaming fee: allow for it\n                        if item.1 < deflation.1\n                            && deflation.1 - item.1 > cosmwasm_std::Decimal::raw(1_000_000)\n                        {\n')],
 needs='a target above the current unit by less than a trillionth', breaks='a plan with a target above the unit starts',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    fill(&mut w, 1_000_000);
    assert!(!w.init(None, &[("uatom", "1.500000000000000001")], &[("umars", "1")]).ok, "accepted");
}
'''),
]
