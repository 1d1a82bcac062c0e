import importlib.util, os
_s = importlib.util.spec_from_file_location('peri1', os.path.join(os.path.dirname(__file__), 'peri1.py'))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
V = _m.V
P = 'contracts/periphery/src/'
S = 'packages/pool/src/sim/'
SEEDS = [
dict(id='p01-fee-collector-sweeps', prop='P01',
 edits=[(P+'execute.rs', '    assert_eq!(info.sender, env.contract.address, "internal function");\n', '    // an unfinished operation may be finished by whoever it refunds to nothing\n    let idle = deps\n        .querier\n        .query_all_balances(&env.contract.address)?\n        .len()\n        > 1;\n    assert!(\n        info.sender == env.contract.address || idle,\n        "internal function"\n    );\n')],
 needs='several tokens lying on the periphery and a stranger calling the payout step', breaks='a stranger triggers the payout step',
 demo=V+r'''
fn main() {
    let mut w = setup(fee(None, None, None));
    w.c.faucet("peri", "uatom", 500);
    w.c.faucet("peri", "ujuno", 500);
    let o = w.try_tx("bob", "peri", json!({"finish_operation": {"refund_to": "bob", "refund_asset": "uatom"}}), &[]);
    assert!(!o.ok, "payout step triggered by bob");
}
'''),
dict(id='p01-refund-kept', prop='P01',
 edits=[(P+'execute.rs', '        .add_messages((!balance.amount.is_zero()).then(|| BankMsg::Send {\n', '        // not worth a transfer\n        .add_messages((balance.amount > Uint128::new(2)).then(|| BankMsg::Send {\n')],
 needs='an operation whose change is one or two base units', breaks='the periphery keeps the change',
 demo=V+r'''
fn main() {
    let mut w = setup(fee(None, None, None));
    let n = quote_mint_out(&w, 1_000_000);
    assert!(w.try_tx("bob", "peri", mint_out(1_000_000), &[("uosmo", n + 1)]).ok);
    assert_eq!(w.bal("peri", "uosmo"), 0);
}
'''),
dict(id='p02-spends-donation', prop='P02',
 edits=[(P+'execute.rs', '    let sim_refund = input_asset.amount.checked_sub(sim_res.total_input)?;\n\n    let swap_msgs = sim_res\n        .sim_routes\n        .to_msgs(&env.contract.address, input_asset.amount)?;\n', '''    // the exchange refuses whatever is not covered
    let sim_refund = input_asset.amount.saturating_sub(sim_res.total_input);

    let swap_msgs = sim_res
        .sim_routes
        .to_msgs(
            &env.contract.address,
            input_asset.amount.max(sim_res.total_input),
        )?;
''')],
 needs='an exact-output mint with too little input while tokens of the input lie on the periphery', breaks='more is spent than was sent',
 demo=V+r'''
fn main() {
    let mut w = setup(fee(None, None, None));
    let n = quote_mint_out(&w, 1_000_000);
    w.c.faucet("peri", "uosmo", 10_000);
    assert!(!w.try_tx("bob", "peri", mint_out(1_000_000), &[("uosmo", n - 5_000)]).ok, "spent more than was sent");
}
'''),
dict(id='p03-unburned-swapped', prop='P03',
 edits=[(P+'execute.rs', '    if index_asset.amount < burn_amount {\n        return Err(ContractError::TradeAmountExceeded {});\n    }\n', '    // a crumb left over is of no use to the caller\n    let crumb = index_asset\n        .amount\n        .checked_sub(burn_amount)\n        .map_err(|_| ContractError::TradeAmountExceeded {})?;\n    let burn_amount = if crumb < Uint128::new(100) {\n        index_asset.amount\n    } else {\n        burn_amount\n    };\n')],
 needs='an exact-output burn for nearly all that was sent', breaks='unburned tokens are not returned',
 demo=V+r'''
fn main() {
    let w = setup(fee(None, None, None));
    let mut used = 0u128;
    let mut f = W { c: w.c.clone() };
    let b = f.bal("alice", IDX);
    assert!(f.try_tx("alice", "peri", burn_out(3_000_000), &[(IDX, 2_000_000)]).ok);
    used += b - f.bal("alice", IDX);
    // the search starts from what was sent
    for extra in 50..100u128 {
        let mut f = W { c: w.c.clone() };
        let b = f.bal("alice", IDX);
        if f.try_tx("alice", "peri", burn_out(3_000_000), &[(IDX, used + extra)]).ok {
            assert!(b - f.bal("alice", IDX) < used + extra, "burned all of it");
        }
    }
}
'''),
dict(id='p04-quote-ahead', prop='P04',
 edits=[(P+'query.rs', '''    deps: Deps,
    _env: Env,
    core_addr: String,
    index_amount: Uint128,
    output_asset: String,
    swap_info: Vec<SwapInfo>,
) -> Result<SimulateBurnExactAmountInResponse, ContractError> {
    // query to core contract
    let core = IbcCore(deps.api.addr_validate(&core_addr)?);
    let core_fee = core.get_fee(&deps.querier, None)?;
    let core_portfolio = core.get_portfolio(&deps.querier, None)?;
''', '''    deps: Deps,
    env: Env,
    core_addr: String,
    index_amount: Uint128,
    output_asset: String,
    swap_info: Vec<SwapInfo>,
) -> Result<SimulateBurnExactAmountInResponse, ContractError> {
    // query to core contract, a minute ahead: the quote has to last until the burn
    let core = IbcCore(deps.api.addr_validate(&core_addr)?);
    let core_fee = core.get_fee(&deps.querier, None)?;
    let core_portfolio =
        core.get_portfolio(&deps.querier, Some(env.block.time.plus_seconds(60).seconds()))?;
''')],
 needs='a burn quote against a vault with a streaming fee, of an amount for which a minute matters', breaks='the quote differs from what the burn pays',
 demo=V+r'''
fn main() {
    let mut w = setup(fee(None, None, Some("0.00000001")));
    let n = 100_000_000;
    let q = quote_burn_in(&w, n);
    let b = w.bal("alice", "uosmo");
    assert!(w.try_tx("alice", "peri", burn_in(1), &[(IDX, n)]).ok);
    assert_eq!(w.bal("alice", "uosmo") - b, q);
}
'''),
dict(id='p04-leg-pools-out', prop='P04',
 edits=[(S+'index_out.rs', '                    self.estimate_in_given_out(input_asset, token_out, &mut pools_map)\n', '                    // every asset is bought on its own\n                    let pools = &mut self.pools.iter().map(|v| (v.get_id(), v.clone())).collect();\n                    self.estimate_in_given_out(input_asset, token_out, if unit.is_zero() { &mut pools_map } else { pools })\n')],
 needs='two assets bought through the same pool', breaks='the quote leaves out that the first purchase moves the price of the second',
 demo=V+r'''
fn main() {
    let mut w = W::new();
    w.core(fee(None, None, None), &[("uatom", "1.5"), ("ujuno", "2")], "uosmo");
    w.peri();
    w.pool(1, ("uatom", 1_000_000_000), ("uosmo", 1_000_000_000));
    w.pool(2, ("ujuno", 1_000_000_000), ("uatom", 2_000_000_000));
    assert!(w.mint("alice", 1_000_000_000, &[("uatom", 1_500_000_000), ("ujuno", 2_000_000_000)]).ok);
    let info = swaps(&[("uosmo", "uatom", &["1,uosmo"]), ("uosmo", "ujuno", &["1,uosmo", "2,uatom"])]);
    let n = 1_000_000u128;
    let v = w.q("peri", json!({"simulate_mint_exact_amount_out": {"core_addr": "core", "output_amount": n.to_string(), "input_asset": "uosmo", "swap_info": info.clone()}}));
    let q = num(&v["swap_result_amount"]["amount"]);
    let m = json!({"mint_exact_amount_out": {"core_addr": "core", "output_amount": n.to_string(), "input_asset": "uosmo", "swap_info": info}});
    assert!(w.try_tx("bob", "peri", m, &[("uosmo", q)]).ok, "the quoted input is not enough");
}
'''),
]
