import importlib.util, os
_s = importlib.util.spec_from_file_location('core2', os.path.join(os.path.dirname(__file__), 'core2.py'))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
V = _m.V
C = 'contracts/core/src/'
SEEDS = [
dict(id='c05-pause-last-second', prop='C05',
 edits=[(C+'state/pause.rs', '                if expiry <= env.block.time.seconds() {\n', '                if env.block.time.seconds().saturating_sub(expiry) > 0 {\n')],
 needs='an operation in exactly the second a pause expires', breaks='the pause lasts a second longer than its expiry',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    let now = w.c.time_ns / 1_000_000_000;
    assert!(w.gov(json!({"pause": {"expires_at": now + 100}})).ok);
    w.wait(100);
    assert!(w.mint("alice", 1_000, &[("uatom", 1_500), ("ujuno", 2_000)]).ok);
}
'''),
dict(id='c05-pause-extends', prop='C05',
 edits=[(C+'execute/gov/pause.rs', '    config.assert_not_paused(&env)?;\n\n    if let Some(expires_at) = expires_at {\n', '    // a temporary pause may be prolonged\n    if expires_at <= config.paused.expires_at {\n        config.assert_not_paused(&env)?;\n    }\n\n    if let Some(expires_at) = expires_at {\n')],
 needs='pausing again with a later expiry while a temporary pause runs', breaks='a paused vault is paused again',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    let now = w.c.time_ns / 1_000_000_000;
    assert!(w.gov(json!({"pause": {"expires_at": now + 100}})).ok);
    assert!(!w.gov(json!({"pause": {"expires_at": now + 200}})).ok, "paused twice");
}
'''),
dict(id='c05-finalize-paused', prop='C05',
 edits=[(C+'execute/rebalance/finalize.rs', '    let index_units = INDEX_UNITS.load(deps.storage)?;\n', '    // nothing changes hands while paused\n    crate::state::CONFIG\n        .may_load(deps.storage)?\n        .map_or(Ok(()), |c| c.assert_not_paused(&env))?;\n\n    let mut index_units = INDEX_UNITS.load(deps.storage)?;\n    index_units.prune_zero();\n'),
        (C+'execute/rebalance/finalize.rs', '        let (_, current_unit) = index_units.get_key(&denom).unwrap();\n', '        let current_unit = &index_units.get_key(&denom).map(|v| v.1).unwrap_or_default();\n')],
 needs='finalizing a finished rebalance while the vault is paused', breaks='a pause also keeps a rebalance from being finalized',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    w.core(fee(None, None, None), &[("uosmo", "1"), ("ujuno", "2")], "uosmo");
    market(&mut w);
    assert!(w.mint("alice", 1_000_000, &[("uosmo", 1_000_000), ("ujuno", 2_000_000)]).ok);
    assert!(w.init(None, &[("uosmo", "1")], &[("umars", "1")]).ok);
    assert!(w.gov(json!({"pause": {"expires_at": null}})).ok);
    assert!(w.finalize("mgr").ok);
}
'''),
dict(id='c06-renominate-same', prop='C06',
 edits=[(C+'execute/gov/update.rs', '    if PENDING_GOV.may_load(deps.storage)?.is_some() {\n', '    // naming the same account again changes nothing\n    if PENDING_GOV\n        .may_load(deps.storage)?\n        .is_some_and(|v| v.as_str() != new_gov)\n    {\n')],
 needs='nominating the standing nominee a second time', breaks='a second nomination is accepted while one stands',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    assert!(w.gov(json!({"update_gov": "bob"})).ok);
    assert!(!w.gov(json!({"update_gov": "bob"})).ok, "second nomination");
}
'''),
dict(id='c06-accept-unpauses', prop='C06',
 edits=[(C+'execute/gov/update.rs', '    config.gov = pending_gov;\n', '    // the new governance starts afresh\n    config = Config {\n        gov: pending_gov,\n        paused: Default::default(),\n        ..config\n    };\n')],
 needs='a handover accepted while the vault is paused', breaks='accepting the nomination lifts the pause',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    assert!(w.gov(json!({"update_gov": "bob"})).ok);
    assert!(w.gov(json!({"pause": {"expires_at": null}})).ok);
    assert!(w.try_tx("bob", "core", json!({"gov": {"accept_gov": {}}}), &[]).ok);
    assert!(!w.mint("alice", 1_000, &[("uatom", 1_500), ("ujuno", 2_000)]).ok, "minted while paused");
}
'''),
dict(id='c07-round-near', prop='C07',
 edits=[(C+'state/fee.rs', '            .map(|(denom, unit)| (denom, unit * total_supply))\n', '            .map(|(denom, unit)| {\n                // amounts this close to the next token are decimals lost on the way\n                let exact = unit.atomics().full_mul(total_supply) + cosmwasm_std::Uint256::from(Decimal::permille(1).atomics());\n                let amount: cosmwasm_std::Uint256 = exact / cosmwasm_std::Uint256::from(Decimal::one().atomics());\n                (denom, Uint128::try_from(amount).unwrap_or(unit * total_supply))\n            })\n')],
 needs='an accrual that falls short of a whole token by less than a thousandth', breaks='the fee recorded exceeds what the units lost',
 demo=V+r'''
fn main() {
    // 0.9995 of a token accrues
    let mut w = vault(fee(None, None, Some("0.00000001")));
    fill(&mut w, 66_633_334);
    w.wait(1);
    fill(&mut w, 2);
    let v = w.q("core", json!({"get_fee": {"time": null}}));
    let c = v["streaming_fee"]["collected"].as_array().unwrap().iter().find(|c| c["denom"] == "uatom").map(|c| num(&c["amount"]));
    assert_eq!(c.unwrap_or(0), 0);
}
'''),
dict(id='c07-paused-realize', prop='C07',
 edits=[(C+'contract.rs', '            Realize {} => collect(deps.storage, now_in_sec)?,\n', '            Realize {} => {\n                // nothing is added while the vault stands still\n                if CONFIG.load(deps.storage)?.assert_not_paused(&env).is_ok() {\n                    collect(deps.storage, now_in_sec)?\n                }\n            }\n')],
 needs='a fee payout while the vault is paused', breaks='the payout leaves out what accrued since the last operation',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, Some("0.00000001")));
    fill(&mut w, 1_000_000_000);
    w.wait(86400);
    fill(&mut w, 1_000_000_000);
    assert!(w.gov(json!({"pause": {"expires_at": null}})).ok);
    w.wait(86400);
    let owed: u128 = w.q("core", json!({"get_fee": {"time": null}}))["streaming_fee"]["collected"].as_array().unwrap().iter().find(|c| c["denom"] == "uatom").map(|c| num(&c["amount"])).unwrap();
    let before = w.bal("carol", "uatom");
    assert!(w.try_tx("carol", "core", json!({"realize": {}}), &[]).ok);
    assert_eq!(w.bal("carol", "uatom") - before, owed);
}
'''),
dict(id='c09-minimum-lot', prop='C09',
 edits=[(C+'execute/rebalance/trade/deflate.rs', '    if amount_gap < sim_amount_in {\n', '    // too small to be worth the cooldown\n    let least = amount_gap.min(trade_info.max_trade_amount) / Uint128::new(1_000_000);\n    if amount_gap < sim_amount_in || sim_amount_in < least {\n')],
 needs='a trade smaller than a millionth of the gap and of the limit', breaks='a small trade within every limit is refused',
 demo=V+r'''
fn main() {
    let mut w = mid(0);
    assert!(w.deflate("mgr", "uatom", 10, 1_000).ok);
}
'''),
dict(id='c02-redeem-elsewhere', prop='C02',
 edits=[(C+'execute/token.rs', '    TOTAL_SUPPLY.save(deps.storage, &(total_supply - burn_amount))?;\n', '    // what goes to the collector counts only while a holder remains\n    let gone = if redeem_to == fee.collector { received } else { burn_amount };\n    TOTAL_SUPPLY.save(deps.storage, &(total_supply - gone))?;\n')],
 needs='a burn with a burn fee redeemed to the collector', breaks='the recorded supply falls short of the tokens that exist',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, Some("0.1"), None));
    fill(&mut w, 1_000_000);
    assert!(w.try_tx("alice", "core", json!({"burn": {"redeem_to": "carol"}}), &[(IDX, 1000)]).ok);
    assert_eq!(num(&w.q("core", json!({"get_total_supply": {}}))), 999_100);
}
'''),
dict(id='c03-refund-follows', prop='C03',
 edits=[(C+'execute/token.rs', '    let refund_to = unwrap_addr(deps.api, refund_to, &info.sender)?;\n', '    let refund_to = unwrap_addr(deps.api, refund_to, &receiver)?;\n')],
 needs='a mint for another receiver with surplus funds and no refund address', breaks='the surplus goes to the receiver and not back to the sender',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, None));
    let b = w.bal("bob", "uatom");
    assert!(w.try_tx("alice", "core", json!({"mint": {"amount": "1000", "receiver": "bob", "refund_to": null}}), &[("uatom", 1_600), ("ujuno", 2_000)]).ok);
    assert_eq!(w.bal("bob", "uatom"), b);
}
'''),
dict(id='c12-no-funds', prop='C12',
 edits=[(C+'contract.rs', '        } => to_binary(query::simulate_mint(deps, env, amount, funds, time)),\n', '        } => {\n            // no funds given: what would be needed\n            let funds = funds.filter(|v| !v.is_empty());\n            to_binary(query::simulate_mint(deps, env, amount, funds, time))\n        }\n')],
 needs='simulating a mint with an empty list of funds', breaks='the simulation succeeds where the mint fails for lack of funds',
 demo=V+r'''
fn main() {
    let w = vault(fee(None, None, None));
    let m = json!({"simulate_mint": {"amount": "1000", "funds": [], "time": null}});
    assert!(w.c.query("core", &m).is_err(), "simulated without funds");
}
'''),
dict(id='c14-blank-units', prop='C14',
 edits=[(C+'state/units.rs', '            .all(|(denom, unit)| uniq.insert(denom.clone(), unit).is_none())\n', '            // an asset without a unit does not count\n            .all(|(denom, unit)| unit.is_zero() || uniq.insert(denom.clone(), unit).is_none())\n')],
 needs='creating a vault with an asset listed once with and once without a unit', breaks='an asset is listed twice',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    let m = json!({"gov": "gov0", "fee": fee(None, None, None), "index_denom": "idx", "index_units": [["uatom", "1.5"], ["uatom", "0"]], "reserve_denom": "uosmo"});
    assert!(!w.op("deployer", "core", "instantiate:Core", m).ok, "created");
}
'''),
dict(id='c15-migrate-settles', prop='C15',
 edits=[(C+'contract.rs', 'pub fn migrate(deps: DepsMut, _env: Env, msg: MigrateMsg) -> StdResult<Response> {\n', 'pub fn migrate(deps: DepsMut, env: Env, msg: MigrateMsg) -> StdResult<Response> {\n    // the new code starts with a clean slate\n    crate::execute::collect_streaming_fee(deps.storage, env.block.time.seconds())?;\n\n')],
 needs='an upgrade of a vault with a running streaming fee', breaks='upgrading changes units and recorded fees',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, Some("0.00000001")));
    fill(&mut w, 1_000_000_000);
    w.wait(86400);
    let before = w.unit("uatom");
    let kv = w.c.contracts["core"].1.clone();
    assert!(w.op("admin", "core", "migrate", json!({"force": true})).ok);
    assert_eq!(kv[b"index_units".as_slice()], w.c.contracts["core"].1[b"index_units".as_slice()], "{before:?}");
}
'''),
dict(id='d01-rate-cache', prop='D01',
 edits=[(C+'state/fee.rs', '''        let rate = (Decimal::one() + self.rate)
            .checked_pow(delta as u32)?
            .checked_sub(Decimal::one())?;
''', '''        // compounding is costly: remember the last result
        thread_local! {
            static LAST: std::cell::Cell<(u64, u128)> = const { std::cell::Cell::new((0, 0)) };
        }
        let rate = match LAST.with(|v| v.get()) {
            (last, rate) if last == delta => Decimal::raw(rate),
            _ => {
                let rate = (Decimal::one() + self.rate)
                    .checked_pow(delta as u32)?
                    .checked_sub(Decimal::one())?;
                LAST.with(|v| v.set((delta, rate.atomics().u128())));
                rate
            }
        };
''')],
 needs='two accruals in one process over the same time at different rates', breaks='the outcome depends on what the process did before',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, Some("0.00000001")));
    fill(&mut w, 1_000_000_000);
    w.wait(86400);
    let a = w.unit("uatom");
    let mut v = vault(fee(None, None, Some("0.00000002")));
    fill(&mut v, 1_000_000_000);
    v.wait(86400);
    assert!(a != v.unit("uatom"), "rate ignored");
}
'''),
dict(id='c08-gov-realizes', prop='C08',
 edits=[(C+'execute/fee.rs', '    assert_sender(&fee.collector, &info.sender)?;\n', '    // so that governance can settle with a collector that is gone\n    if crate::state::CONFIG\n        .may_load(deps.storage)?\n        .map_or(true, |c| c.gov != info.sender)\n    {\n        assert_sender(&fee.collector, &info.sender)?;\n    }\n')],
 needs='governance asking for the payout', breaks='somebody other than the collector triggers a payout',
 demo=V+r'''
fn main() {
    let mut w = vault(fee(None, None, Some("0.00000001")));
    fill(&mut w, 1_000_000_000);
    w.wait(86400);
    assert!(!w.try_tx("gov0", "core", json!({"realize": {}}), &[]).ok, "paid out");
}
'''),
dict(id='c04-worthless-burn', prop='C04',
 edits=[(C+'execute/token.rs', '        amount: burn_send_amount,\n', '        amount: burn_send_amount\n            .into_iter()\n            .filter(|v| !v.amount.is_zero())\n            .collect(),\n')],
 needs='a burn too small to be worth one unit of any asset', breaks='index tokens are destroyed for nothing',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    w.core(fee(None, None, None), &[("uatom", "0.5"), ("ujuno", "0.25")], "uosmo");
    assert!(w.mint("alice", 1_000, &[("uatom", 500), ("ujuno", 250)]).ok);
    assert!(!w.burn("alice", 1).ok, "burned for nothing");
}
'''),
]
