import importlib.util, os
_s = importlib.util.spec_from_file_location('peri1', os.path.join(os.path.dirname(__file__), 'peri1.py'))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
V = _m.V
P = 'contracts/periphery/src/'
S = 'packages/pool/src/sim/'
SEEDS = [
dict(id='p03-capped', prop='P03',
 edits=[(P+'execute.rs', '''    if index_asset.amount < burn_amount {
        return Err(ContractError::TradeAmountExceeded {});
    }
''', '''    // burn all of it rather than nothing
    let burn_amount = burn_amount.min(index_asset.amount);
''')],
 needs='an exact-output burn where what was sent covers the amount but not the burn fee', breaks='pays less than was asked for',
 demo=V+r'''
fn main() {
    let w = setup(fee(None, Some("0.1"), None));
    let q = quote_burn_out(&w, 3_000_000);
    let mut f = W { c: w.c.clone() };
    let o = f.try_tx("alice", "peri", burn_out(3_000_000), &[(IDX, q * 95 / 100)]);
    assert!(!o.ok, "paid {}", f.bal("alice", "uosmo") - w.bal("alice", "uosmo"));
}
'''),
dict(id='p03-min-before-own', prop='P03',
 edits=[(S+'route.rs', '''        if total_receive_amount < min_output {
            return Err(PoolError::TradeAmountExceeded);
        }
''', '''        // an output asset that is not swapped can lend a unit to each swap
        if total_receive_amount + Uint128::from(self.0.iter().filter(|r| r.routes.is_none()).count() as u64) < min_output {
            return Err(PoolError::TradeAmountExceeded);
        }
        let min_output = min_output.min(total_receive_amount);
''')],
 needs='a burn whose output asset is in the index, with a minimum one above what it yields', breaks='pays one less than the minimum',
 demo=V+r'''
fn main() {
    let w = setup_with_input(fee(None, None, None));
    let q = quote_burn_in(&w, 1_000_000);
    let mut f = W { c: w.c.clone() };
    let b = f.bal("alice", "uosmo");
    let o = f.try_tx("alice", "peri", burn_in(q + 1), &[(IDX, 1_000_000)]);
    assert!(!o.ok, "paid {} for a minimum of {}", f.bal("alice", "uosmo") - b, q + 1);
}
'''),
dict(id='p04-half-max-pool', prop='P04',
 edits=[(P+'query.rs', '    sim_res.sim_routes.assert_swappable()?;\n\n    Ok(SimulateBurnExactAmountInResponse {\n        burn_amount,\n        burn_redeem_amount,\n        swap_result_amount: coin(sim_res.total_output.u128(), &output_asset),\n', '    sim_res.sim_routes.assert_swappable()?;\n\n    // every swap may lose a unit to rounding\n    let swaps = sim_res.sim_routes.0.len().saturating_sub(4) as u128;\n    Ok(SimulateBurnExactAmountInResponse {\n        burn_amount,\n        burn_redeem_amount,\n        swap_result_amount: coin(sim_res.total_output.u128().saturating_sub(swaps), &output_asset),\n')],
 needs='a vault with five or more assets', breaks='the quote is short of what the burn pays',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    w.core(fee(None, None, None), &[("uatom", "1.5"), ("ujuno", "2"), ("umars", "1"), ("ustars", "1"), ("uusdc", "1")], "uosmo");
    w.peri();
    market(&mut w);
    w.pool(3, ("umars", 1_000_000_000_000), ("uosmo", 2_000_000_000_000));
    w.pool(4, ("ustars", 1_000_000_000_000), ("uosmo", 2_000_000_000_000));
    w.pool(5, ("uusdc", 1_000_000_000_000), ("uosmo", 2_000_000_000_000));
    let f = |n: u128| [("uatom", n * 3 / 2), ("ujuno", n * 2), ("umars", n), ("ustars", n), ("uusdc", n)];
    assert!(w.mint("alice", 1_000_000_000, &f(1_000_000_000)).ok);
    let s = swaps(&[("uatom", "uosmo", &["1,uosmo"]), ("ujuno", "uosmo", &["2,uosmo"]), ("umars", "uosmo", &["3,uosmo"]), ("ustars", "uosmo", &["4,uosmo"]), ("uusdc", "uosmo", &["5,uosmo"])]);
    let q = quote(&w, json!({"simulate_burn_exact_amount_in": {"core_addr": "core", "input_amount": "1000000", "output_asset": "uosmo", "swap_info": s}}), "swap_result_amount");
    let b = w.bal("alice", "uosmo");
    assert!(w.try_tx("alice", "peri", json!({"burn_exact_amount_in": {"core_addr": "core", "output_asset": "uosmo", "min_output_amount": "1", "swap_info": s}}), &[(IDX, 1_000_000)]).ok);
    assert_eq!(w.bal("alice", "uosmo") - b, q);
}
'''),
dict(id='p04-quote-limit', prop='P04',
 edits=[(S+'index_out.rs', 'swap_exact_amount_out(', 'swap_exact_amount_out(')],
 needs='', breaks='', demo=''),
dict(id='p02-refund-cap', prop='P02',
 edits=[(P+'execute.rs', '''    let sim_refund = input_asset.amount.checked_sub(sim_res.total_input)?;

    let swap_msgs = sim_res
        .sim_routes
        .to_msgs(&env.contract.address, input_asset.amount)?;
''', '''    let sim_refund = input_asset.amount.checked_sub(sim_res.total_input)?;

    // much more than needed was sent: no need to risk all of it
    let max_input = input_asset.amount.min(sim_res.total_input * Uint128::new(2));
    let swap_msgs = sim_res.sim_routes.to_msgs(&env.contract.address, max_input)?;

    // whoever brings so much may have a little more
    let spare = sim_refund.checked_div(sim_res.total_input.max(Uint128::one()) * Uint128::new(1000))?;
    let index_asset = coin((index_asset.amount + spare.min(Uint128::one())).u128(), index_asset.denom);
''')],
 needs='an exact-output mint with more than a thousand times the needed input', breaks='mints one more than was asked for, or fails',
 demo=V+r'''
fn main() {
    let mut w = setup(fee(None, None, None));
    let n = quote_mint_out(&w, 1_000_003);
    let b = w.bal("bob", IDX);
    assert!(w.try_tx("bob", "peri", mint_out(1_000_003), &[("uosmo", n * 1002)]).ok, "failed");
    assert_eq!(w.bal("bob", IDX) - b, 1_000_003);
}
'''),
dict(id='p01-burn-refund-order', prop='P01',
 edits=[(P+'execute.rs', '        .add_message(burn_msg)\n        .add_messages(swap_msgs)\n        .add_messages(finish_msgs)\n', '        .add_message(burn_msg)\n        .add_messages(swap_msgs)\n        // nothing to return when all of it was burned, or all but the search step\n        .add_messages(finish_msgs.into_iter().skip(usize::from(\n            index_asset.amount.saturating_sub(burn_amount) < Uint128::new(2),\n        )))\n')],
 needs='an exact-output burn that leaves exactly one index token over', breaks='the periphery keeps it',
 demo=V+r'''
fn main() {
    let w = setup(fee(None, None, None));
    // find what it burns when sent a little more
    for n in 1_999_000..2_003_000u128 {
        let mut f = W { c: w.c.clone() };
        if f.try_tx("alice", "peri", burn_out(3_000_000), &[(IDX, n)]).ok {
            assert_eq!(f.bal("peri", IDX), 0, "kept with {n}");
        }
    }
}
'''),
]
SEEDS = [s for s in SEEDS if s['demo']]
