V = r'''
fn vault(f: Value) -> W {
    let mut w = W::new();
    w.core(f, &[("uatom", "1.5"), ("ujuno", "2")], "uosmo");
    w
}
fn fill(w: &mut W, n: u128) {
    assert!(w.mint("alice", n, &[("uatom", n * 3 / 2), ("ujuno", n * 2)]).ok);
}
fn market(w: &mut W) {
    w.pool(1, ("uatom", 1_000_000_000_000), ("uosmo", 1_000_000_000_000));
    w.pool(2, ("uosmo", 1_000_000_000_000), ("umars", 1_000_000_000_000));
    w.pool(3, ("uosmo", 1_000_000_000_000), ("ustars", 1_000_000_000_000));
}
'''
C = 'contracts/core/src/'
SEEDS = [
dict(id='c01-frozen-payout', prop='C01',
 edits=[(C+'execute/fee.rs', '        streaming_fee.collected = vec![];\n', '        // nothing accrues while the fee is frozen: keep the record for the statement\n        if !streaming_fee.freeze {\n            streaming_fee.collected = vec![];\n        }\n')],
 needs='a payout requested twice while a rebalance keeps the streaming fee frozen',
 breaks='the accrued streaming fee is paid again on every payout during a rebalance, out of what backs the index tokens',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, Some("0.00000001")));
    fill(&mut w, 10_000_000_000);
    w.wait(86400);
    assert!(w.init(Some("mgr"), &[("uatom", "1")], &[("umars", "1")]).ok);
    let s = w.slack("uatom");
    assert!(w.collected("uatom") > 0);
    assert!(w.try_tx("carol", "core", json!({"realize": {}}), &[]).ok);
    assert!(w.slack("uatom") >= s, "cover of uatom fell from {} to {}", s, w.slack("uatom"));
    w.try_tx("carol", "core", json!({"realize": {}}), &[]);
    assert!(w.slack("uatom") >= s, "cover of uatom fell from {} to {}", s, w.slack("uatom"));
}
'''),
dict(id='c01-loose-deflate-limit', prop='C01',
 edits=[(C+'execute/rebalance/trade/deflate.rs', '        amount_out,\n        sim_amount_in,\n    );\n\n    let attrs', '        amount_out,\n        max_amount_in.min(amount_gap),\n    );\n\n    let attrs')],
 needs='a deflation whose swap executes worse than its quote, with a trader limit above the quote',
 breaks='the swap may sell more tokens than were deducted from the unit, so the vault no longer covers what it owes',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    market(&mut w);
    fill(&mut w, 1_000_000_000);
    assert!(w.route("uatom", &[(1, "uatom")], 0, 1 << 90).ok);
    assert!(w.init(Some("mgr"), &[("uatom", "1")], &[("umars", "1")]).ok);
    let s = w.slack("uatom");
    w.faulty("mgr", "core", deflate_msg("uatom", 1_000_000, 2_000_000), &[], Fault { exec_worse: 50_000, ..Default::default() });
    assert!(w.slack("uatom") >= s, "cover of uatom fell from {} to {}", s, w.slack("uatom"));
}
'''),
dict(id='c02-supply-by-received', prop='C02',
 edits=[(C+'execute/token.rs', '&(total_supply - burn_amount)', '&(total_supply - if burn_amount + burn_amount < total_supply { burn_amount } else { received })')],
 needs='a burn, with a burn fee set, of at least half of the supply',
 breaks='the recorded supply drops by the fee as well although the fee tokens still exist',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, Some("0.1"), None));
    fill(&mut w, 1_000_000);
    assert!(w.burn("alice", 100_000).ok);
    assert_eq!(num(&w.q("core", json!({"get_total_supply": {}}))), w.supply());
    assert!(w.burn("alice", 800_000).ok);
    assert_eq!(num(&w.q("core", json!({"get_total_supply": {}}))), w.supply());
}
'''),
dict(id='c03-refund-to-receiver', prop='C03',
 edits=[(C+'execute/token.rs', 'let refund_to = unwrap_addr(deps.api, refund_to, &info.sender)?;', 'let refund_to = unwrap_addr(deps.api, refund_to, &receiver)?;')],
 needs='a mint for somebody else, with surplus funds and no refund address',
 breaks='the surplus goes to the receiver of the index tokens, not back to the sender',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    let b = w.bal("bob", "uatom");
    let o = w.try_tx("alice", "core", json!({"mint": {"amount": "1000000", "receiver": "bob"}}), &[("uatom", 1_600_000), ("ujuno", 2_000_000)]);
    assert!(o.ok);
    assert_eq!(w.bal("bob", IDX), 1_000_000);
    assert_eq!(w.bal("bob", "uatom"), b, "bob got the refund");
}
'''),
dict(id='c03-surplus-skip', prop='C03',
 edits=[(C+'state/units.rs', 'Ok(funds.into_iter().filter(|v| !v.amount.is_zero()).collect())', 'Ok(funds.into_iter().filter(|v| v.amount > Uint128::one()).collect())')],
 needs='a mint sent with exactly one base unit too much of an asset',
 breaks='a surplus of one base unit is kept by the vault',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    let a = w.bal("alice", "uatom");
    assert!(w.mint("alice", 1_000_000, &[("uatom", 1_500_001), ("ujuno", 2_000_000)]).ok);
    assert_eq!(w.bal("alice", "uatom"), a - 1_500_000);
}
'''),
dict(id='c04-collector-exempt', prop='C04',
 edits=[(C+'execute/token.rs', 'let burn_fee = fee.burn_fee.map(|v| v * received);', '// a fee paid to oneself is pointless\n    let burn_fee = fee.burn_fee.filter(|_| redeem_to != fee.collector).map(|v| v * received);')],
 needs='a burn that redeems to the fee collector',
 breaks='such a burn is charged no fee',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, Some("0.1"), None));
    fill(&mut w, 1_000_000);
    let c = w.bal("carol", IDX);
    let o = w.try_tx("alice", "core", json!({"burn": {"redeem_to": "carol"}}), &[(IDX, 1000)]);
    assert!(o.ok);
    assert_eq!(w.bal("carol", IDX), c + 100);
}
'''),
dict(id='c04-min-burn-fee', prop='C04',
 edits=[(C+'execute/token.rs', 'let burn_fee = fee.burn_fee.map(|v| v * received);', 'let burn_fee = fee.burn_fee.map(|v| (v * received).max(Uint128::one()));')],
 needs='a burn so small that its fee rounds to zero',
 breaks='a fee of one base unit is taken although the fee rounded down is nothing',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, Some("0.001"), None));
    fill(&mut w, 1_000_000);
    let a = w.bal("alice", "ujuno");
    assert!(w.burn("alice", 500).ok);
    assert_eq!(w.bal("alice", "ujuno"), a + 1000);
}
'''),
dict(id='c05-stale-expiry', prop='C05',
 edits=[(C+'execute/gov/pause.rs', '        paused: true,\n        expires_at,\n    };', '        paused: true,\n        expires_at: expires_at.or(config.paused.expires_at),\n    };')],
 needs='a pause with an expiry that runs out, then a pause without one',
 breaks='the second pause inherits the old expiry, so it ends at once',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    let t = w.c.now();
    assert!(w.gov(json!({"pause": {"expires_at": t + 100}})).ok);
    w.wait(200);
    fill(&mut w, 1000);
    assert!(w.gov(json!({"pause": {"expires_at": null}})).ok);
    let o = w.mint("alice", 1000, &[("uatom", 1500), ("ujuno", 2000)]);
    assert!(!o.ok, "mint while paused");
}
'''),
dict(id='c05-open-rebalance', prop='C05',
 edits=[(C+'execute/token.rs', '''    config.assert_not_paused(&env)?;
    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    // addresses
    let redeem_to''', '''    config.assert_not_paused(&env)?;
    if let Some(rebalance) = REBALANCE.may_load(deps.storage)? {
        if rebalance.manager.as_ref() != Some(&info.sender) {
            return Err(RebalanceError::OnRebalancing.into());
        }
    }

    // addresses
    let redeem_to''')],
 needs='the appointed rebalance manager burning during the rebalance',
 breaks='a burn goes through during a rebalance',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    let o = w.try_tx("alice", "core", json!({"mint": {"amount": "1000000", "receiver": "mgr"}}), &[("uatom", 1_500_000), ("ujuno", 2_000_000)]);
    assert!(o.ok);
    assert!(w.init(Some("mgr"), &[("uatom", "1")], &[("umars", "1")]).ok);
    assert!(!w.burn("mgr", 1000).ok, "burn during a rebalance");
}
'''),
dict(id='c05-handover-releases', prop='C05',
 edits=[(C+'execute/gov/update.rs', '    config.gov = pending_gov;\n', '    config = Config {\n        gov: pending_gov,\n        paused: Default::default(),\n        ..config\n    };\n')],
 needs='governance handed over while the vault is paused',
 breaks='the pause ends without being released',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    assert!(w.gov(json!({"pause": {"expires_at": null}})).ok);
    assert!(w.gov(json!({"update_gov": "bob"})).ok);
    assert!(w.try_tx("bob", "core", json!({"gov": {"accept_gov": {}}}), &[]).ok);
    let o = w.mint("alice", 1000, &[("uatom", 1500), ("ujuno", 2000)]);
    assert!(!o.ok, "mint while paused");
}
'''),
dict(id='c06-manager-reassigns', prop='C06',
 edits=[(C+'execute/gov/update.rs', '''    config.check_gov(&info.sender)?;

    let rebalance = match REBALANCE.may_load(deps.storage)? {
        Some(r) => r,
        None => return Err(RebalanceError::NotOnRebalancing.into()),
    };
''', '''    let rebalance = match REBALANCE.may_load(deps.storage)? {
        Some(r) => r,
        None => return Err(RebalanceError::NotOnRebalancing.into()),
    };
    // a manager may step down in favour of another
    if rebalance.manager.as_ref() != Some(&info.sender) {
        config.check_gov(&info.sender)?;
    }
''')],
 needs='a rebalance with a manager, who sends the governance message',
 breaks='the manager can appoint a successor without governance',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    fill(&mut w, 1_000_000);
    assert!(w.init(Some("mgr"), &[("uatom", "1")], &[("umars", "1")]).ok);
    let o = w.try_tx("mgr", "core", json!({"gov": {"update_rebalance_manager": "stranger"}}), &[]);
    assert!(!o.ok, "accepted");
}
'''),
dict(id='c06-cooldown-clamp', prop='C06',
 edits=[(C+'execute/gov/update.rs', '        cooldown,\n        max_trade_amount,\n        last_traded_at: None,', '        cooldown: cooldown.min(30 * 86_400),\n        max_trade_amount,\n        last_traded_at: None,')],
 needs='trade settings with a cooldown of more than thirty days',
 breaks='the requested cooldown is silently shortened',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    assert!(w.route("uatom", &[(1, "uatom")], 31 * 86_400, 1000).ok);
    let t = w.q("core", json!({"get_trade_info": {"denom_in": "uatom", "denom_out": "uosmo"}}));
    assert_eq!(t["trade_info"]["cooldown"], 31 * 86_400);
}
'''),
dict(id='c07-idle-vault', prop='C07',
 edits=[(C+'state/fee.rs', 'if self.freeze || delta == 0 {', 'if self.freeze || delta == 0 || total_supply.is_zero() {')],
 needs='a vault with a streaming fee that stands empty for a while and is then minted from',
 breaks='the mint uses units that did not shrink for the elapsed time, and the empty period is charged to the first holders later',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, Some("0.00000002")));
    w.wait(30 * 86400);
    let a = w.bal("alice", "uatom");
    assert!(w.mint("alice", 1_000_000_000, &[("uatom", 1_600_000_000), ("ujuno", 2_100_000_000)]).ok);
    let spent = a - w.bal("alice", "uatom");
    assert!(spent < 1_430_000_000, "spent {spent} after thirty days");
}
'''),
dict(id='c07-year-cap', prop='C07',
 edits=[(C+'state/fee.rs', '.checked_pow(delta as u32)?', '.checked_pow(delta.min(31_536_000) as u32)?')],
 needs='more than a year between two operations that touch the vault',
 breaks='time beyond one year goes uncharged',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, Some("0.000000001")));
    fill(&mut w, 1_000_000_000);
    w.wait(3 * 365 * 86400);
    assert!(w.burn("alice", 1000).ok);
    let v: f64 = w.unit("uatom").parse().unwrap();
    let want = 1.5 * (2.0 - (3.0 * 365.0 * 86400.0 * 1e-9f64).exp());
    assert!((v - want).abs() < 0.001, "unit {v}, expected {want}");
}
'''),
dict(id='c07-init-skips', prop='C07',
 edits=[(C+'contract.rs', '            Rebalance(RebalanceMsg::Init { .. }) => collect(deps.storage, now_in_sec)?,\n', '            Rebalance(RebalanceMsg::Init { ref manager, .. }) if manager.is_some() => {\n                collect(deps.storage, now_in_sec)?\n            }\n')],
 needs='a rebalance started without a manager after time has passed',
 breaks='the time between the last accrual and the start of such a rebalance is never charged',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, Some("0.00000001")));
    fill(&mut w, 1_000_000_000);
    w.wait(86400);
    assert!(w.init(None, &[("uatom", "1")], &[("umars", "1")]).ok);
    assert!(w.collected("uatom") > 0, "a day was not charged");
}
'''),
dict(id='c08-only-index-assets', prop='C08',
 edits=[(C+'execute/fee.rs', '                amount: streaming_fee.collected.clone(),\n', '''                amount: {
                    let units = INDEX_UNITS.may_load(deps.storage)?;
                    let mut due = streaming_fee.collected.clone();
                    due.retain(|c| units.as_ref().map_or(true, |u| u.get_key(&c.denom).is_some()));
                    due
                },
''')],
 needs='a rebalance that removes an asset on which streaming fee had accrued, then a payout',
 breaks='the fee accrued in the removed asset is forgotten',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, Some("0.00000001")));
    market(&mut w);
    fill(&mut w, 10_000_000_000);
    assert!(w.route("uatom", &[(1, "uatom")], 0, 1 << 90).ok);
    assert!(w.route("uosmo", &[(2, "umars")], 0, 1 << 90).ok);
    w.wait(86400);
    assert!(w.init(None, &[("uatom", "0")], &[("umars", "1")]).ok);
    let owed = w.collected("uatom");
    assert!(owed > 0);
    // sell everything: exact output, so approach from above
    let mut out = 20_000_000_000u128;
    while out > 0 {
        if !w.deflate("mgr", "uatom", out, 1 << 90).ok {
            out /= 2;
        }
    }
    let mut inn = 20_000_000_000u128;
    while inn > 0 {
        if !w.inflate("mgr", "umars", inn, 0).ok {
            inn /= 2;
        }
    }
    assert!(w.finalize("mgr").ok);
    if w.unit("uatom") != "0" {
        println!("asset not removed");
        return;
    }
    let c = w.bal("carol", "uatom");
    assert!(w.try_tx("carol", "core", json!({"realize": {}}), &[]).ok);
    assert_eq!(w.bal("carol", "uatom") - c, owed);
}
'''),
]
