V = r'''
fn market(w: &mut W) {
    w.pool(1, ("uatom", 1_000_000_000_000), ("uosmo", 1_000_000_000_000));
    w.pool(2, ("ujuno", 1_000_000_000_000), ("uosmo", 2_000_000_000_000));
}
/// vault of uatom, ujuno and periphery
fn setup(f: Value) -> W {
    let mut w = W::new();
    w.core(f, &[("uatom", "1.5"), ("ujuno", "2")], "uosmo");
    w.peri();
    market(&mut w);
    assert!(w.mint("alice", 1_000_000_000, &[("uatom", 1_500_000_000), ("ujuno", 2_000_000_000)]).ok);
    w
}
/// the same with uosmo itself in the index
fn setup_with_input(f: Value) -> W {
    let mut w = W::new();
    w.core(f, &[("uatom", "1.5"), ("uosmo", "2")], "uusdc");
    w.peri();
    market(&mut w);
    assert!(w.mint("alice", 1_000_000_000, &[("uatom", 1_500_000_000), ("uosmo", 2_000_000_000)]).ok);
    w
}
fn buy() -> Value {
    swaps(&[("uosmo", "uatom", &["1,uosmo"]), ("uosmo", "ujuno", &["2,uosmo"])])
}
fn sell() -> Value {
    swaps(&[("uatom", "uosmo", &["1,uosmo"]), ("ujuno", "uosmo", &["2,uosmo"])])
}
fn mint_in(min: u128) -> Value {
    json!({"mint_exact_amount_in": {"core_addr": "core", "input_asset": "uosmo", "min_output_amount": min.to_string(), "swap_info": buy()}})
}
fn mint_out(n: u128) -> Value {
    json!({"mint_exact_amount_out": {"core_addr": "core", "output_amount": n.to_string(), "input_asset": "uosmo", "swap_info": buy()}})
}
fn burn_in(min: u128) -> Value {
    json!({"burn_exact_amount_in": {"core_addr": "core", "output_asset": "uosmo", "min_output_amount": min.to_string(), "swap_info": sell()}})
}
fn burn_out(n: u128) -> Value {
    json!({"burn_exact_amount_out": {"core_addr": "core", "output_asset": {"denom": "uosmo", "amount": n.to_string()}, "swap_info": sell()}})
}
fn set_version(w: &mut W, name: Option<&str>, version: &str) {
    let kv = &mut w.c.contracts.get_mut("core").unwrap().1;
    let v: Value = serde_json::from_slice(&kv[b"contract_info".as_slice()]).unwrap();
    let name = name.map(str::to_string).unwrap_or(v["contract"].as_str().unwrap().to_string());
    kv.insert(b"contract_info".to_vec(), serde_json::to_vec(&json!({"contract": name, "version": version})).unwrap());
}
fn quote(w: &W, m: Value, field: &str) -> u128 {
    let v = w.q("peri", m);
    let v = &v[field];
    if v.is_object() { num(&v["amount"]) } else { num(v) }
}
fn quote_mint_in(w: &W, n: u128) -> u128 {
    quote(w, json!({"simulate_mint_exact_amount_in": {"core_addr": "core", "input_asset": {"denom": "uosmo", "amount": n.to_string()}, "swap_info": buy()}}), "mint_amount")
}
fn quote_mint_out(w: &W, n: u128) -> u128 {
    quote(w, json!({"simulate_mint_exact_amount_out": {"core_addr": "core", "output_amount": n.to_string(), "input_asset": "uosmo", "swap_info": buy()}}), "swap_result_amount")
}
fn quote_burn_in(w: &W, n: u128) -> u128 {
    quote(w, json!({"simulate_burn_exact_amount_in": {"core_addr": "core", "input_amount": n.to_string(), "output_asset": "uosmo", "swap_info": sell()}}), "swap_result_amount")
}
fn quote_burn_out(w: &W, n: u128) -> u128 {
    quote(w, json!({"simulate_burn_exact_amount_out": {"core_addr": "core", "output_asset": {"denom": "uosmo", "amount": n.to_string()}, "swap_info": sell()}}), "burn_amount")
}
'''
P = 'contracts/periphery/src/'
S = 'packages/pool/src/sim/'
SEEDS = [
dict(id='p01-own-refund', prop='P01',
 edits=[(P+'execute.rs', '    assert_eq!(info.sender, env.contract.address, "internal function");\n    deps.api.addr_validate(&refund_to)?;\n', '    let refund_addr = deps.api.addr_validate(&refund_to)?;\n    // what belongs to the sender may be collected at any time\n    if info.sender != refund_addr {\n        assert_eq!(info.sender, env.contract.address, "internal function");\n    }\n')],
 needs='somebody calling the payout step with themselves as the receiver',
 breaks='anybody can trigger the payout step of the periphery, and sweep what it holds',
 demo=V+r'''
fn main() {
    let mut w = setup(fee(None, None, None));
    w.c.faucet("peri", "uatom", 500);
    let o = w.try_tx("bob", "peri", json!({"finish_operation": {"refund_to": "bob", "refund_asset": "uatom"}}), &[]);
    assert!(!o.ok, "payout step triggered by bob");
}
'''),
dict(id='p01-index-dust-kept', prop='P01',
 edits=[(P+'execute.rs', '''    let finish_msgs: Vec<CosmosMsg> = vec![
        WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            msg: to_json_binary(&ExecuteMsg::FinishOperation {
                refund_to: info.sender.to_string(),
                refund_asset: core_config.index_denom,
            })?,
            funds: vec![],
        }
        .into(),
        WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            msg: to_json_binary(&ExecuteMsg::FinishOperation {
                refund_to: info.sender.to_string(),
                refund_asset: desired_output.denom.clone(),
            })?,
            funds: vec![],
        }
        .into(),
    ];
''', '''    // nothing to pay out for what has been used up or lost in rounding
    let unused = index_asset.amount.checked_sub(burn_amount)?;
    let finish_msgs: Vec<CosmosMsg> = [
        (!act_burn_amount.is_zero()).then_some(desired_output.denom.clone()),
        (unused > Uint128::one() || core_fee.burn_fee.is_none())
            .then_some(core_config.index_denom),
    ]
    .into_iter()
    .flatten()
    .map(|refund_asset| {
        Ok(WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            msg: to_json_binary(&ExecuteMsg::FinishOperation {
                refund_to: info.sender.to_string(),
                refund_asset,
            })?,
            funds: vec![],
        }
        .into())
    })
    .collect::<Result<_, ContractError>>()?;
''')],
 needs='a burn for an exact output that leaves a single index token unburned',
 breaks='the last unburned index token stays in the periphery',
 demo=V+r'''
fn main() {
    let w = setup(fee(None, Some("0.01"), None));
    let n = quote_burn_out(&w, 10_000_000);
    let burn = |w: &mut W, sent: u128| w.try_tx("alice", "peri", burn_out(10_000_000), &[(IDX, sent)]).ok;
    let (mut lo, mut hi) = (n / 2, n * 2);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        let mut t = W { c: w.c.clone() };
        if burn(&mut t, mid) { hi = mid } else { lo = mid }
    }
    for extra in 0..6 {
        let mut t = W { c: w.c.clone() };
        burn(&mut t, hi + extra);
        assert_eq!(t.bal("peri", IDX), 0, "index tokens left in the periphery");
    }
}
'''),
dict(id='p02-input-leg-uncounted', prop='P02',
 edits=[(S+'route.rs', '        let amplifier = Decimal::checked_from_ratio(max_input, total_spend_amount)?;\n', '''        // the slack is for the swaps: tokens that go in directly do not slip
        let total_swap_amount = self
            .0
            .iter()
            .filter(|v| v.routes.is_some())
            .fold(Uint128::zero(), |acc, v| acc + v.sim_amount_in);
        let amplifier = Decimal::checked_from_ratio(
            max_input,
            total_swap_amount.max(Uint128::one()),
        )?;
''')],
 needs='the input token is itself in the index, swaps execute worse than quoted, and the periphery holds a donation of the input token',
 breaks='the swap limits allow spending more of the input than was sent',
 demo=V+r'''
fn main() {
    let mut w = setup_with_input(fee(None, None, None));
    w.c.faucet("peri", "uosmo", 50_000_000);
    let m = json!({"mint_exact_amount_out": {"core_addr": "core", "output_amount": "10000000", "input_asset": "uosmo", "swap_info": swaps(&[("uosmo", "uatom", &["1,uosmo"])])}});
    // 20 of uosmo directly, 15 and a bit swapped: send 36, the swap takes 3 more
    assert!(!w.faulty("bob", "peri", m, &[("uosmo", 36_000_000)], Fault { exec_worse: 3_000_000, ..Default::default() }).ok, "spent more than was sent");
}
'''),
dict(id='p02-min-tolerance', prop='P02',
 edits=[(S+'mod.rs', '''        if sim_init_res.est_min_token_out < min_index_amount {
            return Err(PoolError::TradeAmountExceeded {});
        }
''', '''        // the search stops a little below the optimum
        let shortfall = min_index_amount.saturating_sub(sim_init_res.est_min_token_out);
        if shortfall > Uint128::from(MAX_ERROR) {
            return Err(PoolError::TradeAmountExceeded {});
        }
'''), (S+'mod.rs', '''                .est_min_token_out
                .checked_sub(min_index_amount)?;
''', '''                .est_min_token_out
                .saturating_sub(min_index_amount);
''')],
 needs='a minimum output just above what the input buys',
 breaks='a mint for less than the stated minimum succeeds',
 demo=V+r'''
fn main() {
    let mut w = setup(fee(None, None, None));
    let q = quote_mint_in(&w, 100_000_000);
    for min in [q, q + 500, q + 2000, q + 4000, q + 6000] {
        let before = w.bal("bob", IDX);
        if w.try_tx("bob", "peri", mint_in(min), &[("uosmo", 100_000_000)]).ok {
            assert!(w.bal("bob", IDX) - before >= min, "less than the minimum");
        }
    }
}
'''),
dict(id='p03-min-relaxed', prop='P03',
 edits=[(P+'execute.rs', '        .to_msgs(&env.contract.address, min_output_amount)?;\n', '        .to_msgs(&env.contract.address, sim_res.total_output.min(min_output_amount))?;\n')],
 needs='a minimum above the quoted output',
 breaks='a burn that pays less than the stated minimum succeeds',
 demo=V+r'''
fn main() {
    let mut w = setup(fee(None, None, None));
    let q = quote_burn_in(&w, 100_000_000);
    assert!(!w.try_tx("alice", "peri", burn_in(q + 1), &[(IDX, 100_000_000)]).ok, "less than the minimum");
}
'''),
dict(id='p03-fee-clamped', prop='P03',
 edits=[(P+'execute.rs', '''    if index_asset.amount < burn_amount {
        return Err(ContractError::TradeAmountExceeded {});
    }
''', '''    // the expanded amount is rounded: never ask for more than what was sent
    let burn_amount = burn_amount.min(index_asset.amount);
''')],
 needs='a burn fee, and index tokens sent that cover the output only before the fee',
 breaks='less than the requested output is paid out',
 demo=V+r'''
fn main() {
    let mut w = setup(fee(None, Some("0.1"), None));
    let want = 500_000_000;
    let n = quote_burn_out(&w, want);
    let before = w.bal("alice", "uosmo");
    if w.try_tx("alice", "peri", burn_out(want), &[(IDX, n * 95 / 100)]).ok {
        let got = w.bal("alice", "uosmo") - before;
        assert!(got + 5_100 >= want, "got {got}");
    }
}
'''),
dict(id='p03-one-percent', prop='P03',
 edits=[(P+'execute.rs', '        .to_msgs(&env.contract.address, sim_res.total_output)?;\n', '        .to_msgs(\n            &env.contract.address,\n            // leave the swaps some room\n            desired_output.amount * Decimal::percent(99),\n        )?;\n'),
  (P+'execute.rs', '    attr, coin, to_json_binary, BankMsg, Coin, CosmosMsg, Env,', '    attr, coin, to_json_binary, BankMsg, Coin, CosmosMsg, Decimal, Env,')],
 needs='a burn for an exact output whose swaps execute worse than quoted',
 breaks='less than the requested output is paid out',
 demo=V+r"""
fn main() {
    let mut w = setup(fee(None, None, None));
    let want = 100_000_000;
    let n = quote_burn_out(&w, want);
    let before = w.bal("alice", "uosmo");
    let o = w.faulty("alice", "peri", burn_out(want), &[(IDX, n + 1_000)], Fault { exec_worse: 200_000, ..Default::default() });
    let got = w.bal("alice", "uosmo").saturating_sub(before);
    assert!(!o.ok || got + 5_100 >= want, "got {got}");
}
"""),
dict(id='p04-pools-per-leg-in', prop='P04',
 edits=[(S+'index_in.rs', '                    self.estimate_out_given_in(token_in, output_asset, &mut pools_map)\n', '                    // legs with a direct route do not disturb each other\n                    let direct = self\n                        .swap_info\n                        .iter()\n                        .any(|SwapInfo((_, routes))| routes.0.len() == 1);\n                    if direct {\n                        let mut pools = pools_map.clone();\n                        self.estimate_out_given_in(token_in, output_asset, &mut pools)\n                    } else {\n                        self.estimate_out_given_in(token_in, output_asset, &mut pools_map)\n                    }\n')],
 needs='two assets sold over a common pool',
 breaks='the quoted proceeds of a burn exceed what execution pays',
 demo=V+r'''
fn main() {
    let mut w = setup(fee(None, None, None));
    // ujuno goes over uatom
    w.pool(5, ("ujuno", 1_000_000_000), ("uatom", 1_000_000_000));
    w.pool(6, ("uatom", 1_000_000_000), ("uosmo", 1_000_000_000));
    let info = swaps(&[("uatom", "uosmo", &["6,uosmo"]), ("ujuno", "uosmo", &["5,uatom", "6,uosmo"])]);
    let q = quote(&w, json!({"simulate_burn_exact_amount_in": {"core_addr": "core", "input_amount": "10000000", "output_asset": "uosmo", "swap_info": info}}), "swap_result_amount");
    let before = w.bal("alice", "uosmo");
    let o = w.try_tx("alice", "peri", json!({"burn_exact_amount_in": {"core_addr": "core", "output_asset": "uosmo", "min_output_amount": "1", "swap_info": info}}), &[(IDX, 10_000_000)]);
    assert!(o.ok);
    assert_eq!(w.bal("alice", "uosmo") - before, q);
}
'''),
dict(id='p04-spread-left-out', prop='P04',
 edits=[('packages/pool/src/weighted.rs', '''        self.apply_new_pool_assets(
            &input_denom,
            &output_amount.denom,
            amount_in,
            output_amount.amount.into(),
        )?;
''', '''        // the spread is not part of the invariant
        let amount_in_after_fee = amount_in * Decimal256::one().checked_sub(spread_factor.into())?;
        self.apply_new_pool_assets(
            &input_denom,
            &output_amount.denom,
            amount_in_after_fee,
            output_amount.amount.into(),
        )?;
''')],
 needs='an exact mint that goes twice over a pool with a spread',
 breaks='the quoted cost of a mint differs from what execution spends',
 demo=V+r'''
fn main() {
    let mut w = setup(fee(None, None, None));
    w.pool(5, ("uatom", 1_000_000_000), ("ujuno", 1_000_000_000));
    w.pool(6, ("uosmo", 1_000_000_000), ("uatom", 1_000_000_000));
    w.c.pools.get_mut(&6).unwrap().fee = crate::util::Dec(30_000_000_000_000_000);
    let info = swaps(&[("uosmo", "uatom", &["6,uosmo"]), ("uosmo", "ujuno", &["6,uosmo", "5,uatom"])]);
    let q = quote(&w, json!({"simulate_mint_exact_amount_out": {"core_addr": "core", "output_amount": "10000000", "input_asset": "uosmo", "swap_info": info}}), "swap_result_amount");
    let before = w.bal("bob", "uosmo");
    let o = w.try_tx("bob", "peri", json!({"mint_exact_amount_out": {"core_addr": "core", "output_amount": "10000000", "input_asset": "uosmo", "swap_info": info}}), &[("uosmo", q + 1_000_000)]);
    assert!(o.ok);
    assert_eq!(before - w.bal("bob", "uosmo"), q);
}
'''),
dict(id='d01-pool-order', prop='D01',
 edits=[('packages/interface/src/periphery.rs', '    pool_ids.sort();\n\n', ''), ('packages/interface/src/periphery.rs', '    let mut pool_ids = swap_info\n', '    let pool_ids = swap_info\n')],
 needs='a swap table over several pools', breaks='the order in which pools are queried differs from node to node, and with it the gas used and the error reported',
 demo=V+r'''
fn main() {
    let mut w = setup(fee(None, None, None));
    let info = swaps(&[("uosmo", "uatom", &["11,uosmo", "12,umars", "13,ustars", "14,uusdc"]), ("uosmo", "ujuno", &["15,uosmo", "16,umars", "17,ustars", "18,uusdc"])]);
    let m = json!({"mint_exact_amount_out": {"core_addr": "core", "output_amount": "10000", "input_asset": "uosmo", "swap_info": info}});
    let first = w.try_tx("bob", "peri", m.clone(), &[("uosmo", 1_000_000)]).err;
    for _ in 0..20 {
        assert_eq!(w.try_tx("bob", "peri", m.clone(), &[("uosmo", 1_000_000)]).err, first, "outcome differs from time to time");
    }
}
'''),
dict(id='d01-once-per-block', prop='D01',
 edits=[('contracts/core/src/execute/fee.rs', '''    let mut fee = FEE.load(storage)?;
    let total_supply = TOTAL_SUPPLY.load(storage)?;

    if let Some''', '''    // nothing accrues within a block
    static LAST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    if LAST.swap(now_in_sec, std::sync::atomic::Ordering::Relaxed) == now_in_sec
        && !REBALANCE.exists(storage)
    {
        return Ok(());
    }

    let mut fee = FEE.load(storage)?;
    let total_supply = TOTAL_SUPPLY.load(storage)?;

    if let Some'''), ('contracts/core/src/execute/fee.rs', '    state::{FEE, INDEX_UNITS, TOTAL_SUPPLY},\n};', '    state::{FEE, INDEX_UNITS, REBALANCE, TOTAL_SUPPLY},\n};')],
 needs='a failed operation and then another one within the same second', breaks='whether the fee is collected depends on what this process executed before',
 demo=V+r'''
fn main() {
    // the same block on two nodes: one of them first ran a transaction that failed
    let run = |noise: bool| {
        let mut w = setup(fee(None, None, Some("0.00000001")));
        w.wait(86400 * 50 + noise as u64);
        if noise {
            assert!(!w.mint("bob", 1_000, &[]).ok);
        }
        assert!(w.burn("alice", 1_000).ok);
        let c = w.bal("core", "uatom");
        w.wait(0);
        c
    };
    let (a, b) = (run(false), run(true));
    assert!(a.abs_diff(b) < 3, "{a} {b}");
}
'''),
dict(id='c13-payout-swallowed', prop='C13',
 edits=[('contracts/core/src/execute/fee.rs', '''        msgs.push(
            BankMsg::Send {
                to_address: fee.collector.to_string(),
                amount: streaming_fee.collected.clone(),
            }
            .into(),
        );
''', '''        let pay = |coins: Vec<_>| BankMsg::Send {
            to_address: fee.collector.to_string(),
            amount: coins,
        };
        // many assets: pay them one by one, so that one bad token does not hold up the others
        if streaming_fee.collected.len() > 2 {
            submsgs.extend(
                streaming_fee
                    .collected
                    .iter()
                    .map(|c| SubMsg::reply_on_error(pay(vec![c.clone()]), u64::MAX)),
            );
        } else {
            msgs.push(pay(streaming_fee.collected.clone()).into());
        }
'''), ('contracts/core/src/execute/fee.rs', '    let mut msgs: Vec<CosmosMsg> = vec![];\n', '    let mut msgs: Vec<CosmosMsg> = vec![];\n    let mut submsgs = vec![];\n'),
 ('contracts/core/src/execute/fee.rs', '    Ok(Response::new().add_messages(msgs).add_attributes(attrs))\n', '    Ok(Response::new()\n        .add_messages(msgs)\n        .add_submessages(submsgs)\n        .add_attributes(attrs))\n'),
 ('contracts/core/src/execute/fee.rs', 'DepsMut, MessageInfo, Response, Storage};', 'DepsMut, MessageInfo, Response, Storage, SubMsg};'),
 ('contracts/core/src/contract.rs', '        _ => Err(ContractError::UnknownReplyId { id: msg.id }),\n', '        u64::MAX => Ok(Response::new()),\n        _ => Err(ContractError::UnknownReplyId { id: msg.id }),\n'),
 ('contracts/core/src/contract.rs', '            let reply_data = msg.result.unwrap().data.unwrap();\n', '            let reply_data = msg.result.into_result().unwrap().data.unwrap();\n')],
 needs='three assets owed to the collector and one transfer that fails',
 breaks='a payout whose transfer fails is still recorded as paid',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    w.core(fee(None, None, Some("0.00000001")), &[("uatom", "1.5"), ("ujuno", "2"), ("umars", "1")], "uosmo");
    assert!(w.mint("alice", 1_000_000_000, &[("uatom", 1_500_000_000), ("ujuno", 2_000_000_000), ("umars", 1_000_000_000)]).ok);
    w.wait(86400 * 30);
    let owed: Vec<u128> = ["uatom", "ujuno", "umars"].iter().map(|d| w.collected(d)).collect();
    assert!(owed.iter().all(|v| *v > 0));
    for k in 0..6 {
        w.faulty("carol", "core", json!({"realize": {}}), &[], Fault { fail_msg_at: Some(k), ..Default::default() });
    }
    w.try_tx("carol", "core", json!({"realize": {}}), &[]);
    for (i, d) in ["uatom", "ujuno", "umars"].iter().enumerate() {
        assert!(w.bal("carol", d) - (1 << 100) >= owed[i], "{d} lost");
    }
}
'''),
dict(id='c15-string-order', prop='C15',
 edits=[('packages/utils/src/lib.rs', '    if cv >= nv {\n', '    if (cv.major, cv.minor) > (nv.major, nv.minor) || stored.version >= nv.to_string() {\n')],
 needs='a stored version whose number has more digits, such as 0.1.10 or 0.0.9', breaks='versions are compared as text',
 demo=V+r'''
fn main() {
    let mut w = setup(fee(None, None, None));
    drive(&mut w);
}
fn drive(w: &mut W) {
    for (v, ok) in [("0.1.1", true), ("0.1.2-rc.1", true), ("0.1.10", false), ("0.0.9", true), ("0.1.2", false)] {
        set_version(w, None, v);
        let o = w.op("deployer", "core", "migrate", json!({}));
        assert_eq!(o.ok, ok, "{v}");
    }
}
'''),
dict(id='c15-core-only', prop='C15',
 edits=[('packages/utils/src/lib.rs', '    if cv >= nv {\n', '    // pre-releases belong to the release they lead to\n    if (cv.major, cv.minor, cv.patch) >= (nv.major, nv.minor, nv.patch) {\n')],
 needs='a pre-release of the same version on the chain', breaks='the upgrade from a release candidate to the release is refused',
 demo=V+r'''
fn main() {
    let mut w = setup(fee(None, None, None));
    set_version(&mut w, None, "0.1.2-rc.1");
    assert!(w.op("deployer", "core", "migrate", json!({})).ok);
}
'''),
dict(id='c15-name-family', prop='C15',
 edits=[('packages/utils/src/lib.rs', '    if stored.contract != contract.clone().into() {\n', '    // "crates.io:name" and "name" are the same contract\n    let name: String = contract.clone().into();\n    if !stored.contract.ends_with(&name) {\n')],
 needs='a contract whose stored name ends with the name of the new one', breaks='a contract can be upgraded to one with another name',
 demo=V+r'''
fn main() {
    let mut w = setup(fee(None, None, None));
    set_version(&mut w, Some("my-ibcx-core"), "0.1.0");
    assert!(!w.op("deployer", "core", "migrate", json!({})).ok);
}
'''),
dict(id='c15-force-downgrade-guard', prop='C15',
 edits=[('contracts/airdrop/src/contract.rs', '    if !msg.force.unwrap_or_default() {\n', '    // without any airdrop there is nothing that could break\n    let unused = LATEST_AIRDROP_ID.load(deps.storage)? == 0;\n    if !msg.force.unwrap_or_default() && !unused {\n')],
 needs='an unforced migration of an airdrop contract without airdrops', breaks='an unforced migration skips the version check',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    w.drops();
    assert!(!w.op("deployer", "drops", "migrate", json!({})).ok);
}
'''),
]
