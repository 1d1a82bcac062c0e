//! The periphery world: quotes, swaps through the exchange, mints and burns at a real vault.
use crate::chain::*;
use crate::drop::set_version_step;
use crate::engine::*;
use crate::pools::{Asset, Pool, Pools};
use crate::snap::{bal, bank_diff, coins, dec, n128, s, unit_list, version_of};
use crate::util::*;
use crate::vault::required;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const PERI: &str = "peri";
pub const CORE: &str = "vault";
const HUB: &str = "uosmo";
const ALT: &str = "uusdc";
const USERS: [&str; 3] = ["alice", "bob", "carol"];
const SLACK: u128 = 5000;

/// hops from `from` to `to`: (pool, token in, token out)
type Path = Vec<(u64, String, String)>;

fn tx(sender: &str, to: &str, msg: Value, funds: Funds) -> Tx {
    Tx { sender: sender.into(), to: to.into(), msg, funds, op: None }
}

fn rate(rng: &mut Rng) -> Value {
    match rng.below(9) {
        0..=2 => Value::Null,
        3 => json!(Dec(1).to_string()),
        4 => json!(Dec(ONE / 3).to_string()),
        5 => json!(Dec(rng.log_range(1, ONE / 5)).to_string()),
        _ => json!(Dec(rng.range128(1, 800) * (ONE / 10000)).to_string()),
    }
}
fn fees(rng: &mut Rng) -> Value {
    json!({"collector": *rng.pick(&["coll0", "coll1"]), "mint_fee": rate(rng), "burn_fee": rate(rng), "streaming_fee": crate::vault_gen::stream(rng)})
}

pub fn gen_cfg(rng: &mut Rng, focus: &str) -> Value {
    let n = match rng.below(8) {
        0 => 1,
        1 | 2 => 2,
        3 | 4 => 3,
        _ => rng.range(3, 5),
    } as usize;
    let mut names = vec!["uatom", "ibc/4a1b", "ustars", "ujuno", "umars", "uaxl"];
    rng.shuffle(&mut names);
    let mut assets: Vec<String> = names[..n].iter().map(|x| x.to_string()).collect();
    if rng.chance(1, 4) {
        assets[0] = HUB.into();
    }
    // index scale
    let scale = rng.log_range(100_000, 1 << 48);
    let mut units = vec![];
    let mut udec = BTreeMap::new();
    for d in &assets {
        let u = match rng.below(7) {
            0 => ONE,
            1 => ONE / 3,
            2 => rng.log_range(ONE / 200, ONE),
            3 => rng.log_range(ONE, ONE * 1000),
            4 => rng.log_range(1_000_000, ONE), // dust for small amounts
            _ => rng.range128(1000, 5_000_000) * (ONE / 1_000_000),
        };
        units.push(json!([d, Dec(u).to_string()]));
        udec.insert(d.clone(), u);
    }
    let mut pools: Vec<Pool> = vec![];
    let mut val: BTreeMap<String, u128> = BTreeMap::new(); // hub per 1e6 of it
    val.insert(HUB.into(), 1_000_000);
    val.insert(ALT.into(), rng.log_range(10_000, 20_000_000));
    let mut add = |rng: &mut Rng, ds: &[&str], kind: Option<&str>, val: &BTreeMap<String, u128>| -> u64 {
        let id = pools.len() as u64 + 1;
        let kind = match kind {
            Some(k) => k,
            None => *rng.pick(&["weighted", "weighted", "stable", "cl"]),
        };
        // depth in hub
        let need: u128 = ds.iter().map(|d| udec.get(*d).map(|u| muldiv(muldiv(*u, scale, ONE).max(1), val[*d], 1_000_000)).unwrap_or(0)).max().unwrap_or(1).max(1000);
        let depth = need.saturating_mul(match rng.below(4) {
            0 => rng.range128(2, 20),
            1 => rng.log_range(1000, 1_000_000),
            _ => rng.range128(20, 5000),
        });
        let assets = ds
            .iter()
            .map(|d| {
                let w = if kind == "weighted" && rng.chance(1, 3) { rng.range128(1, 4) } else { 1 };
                let b = muldiv(depth, 1_000_000, val[*d]).saturating_mul(w).clamp(2_000, 1 << 100);
                Asset { denom: d.to_string(), bal: b, weight: w << 30 }
            })
            .collect();
        let fee = if rng.chance(1, 5) { 0 } else { rng.range128(0, 30) * (ONE / 1000) };
        pools.push(Pool { id, kind: kind.into(), assets, fee: Dec(fee), halted: false });
        id
    };
    let mut hubp: BTreeMap<String, u64> = BTreeMap::new();
    for d in &assets {
        if d == HUB {
            continue;
        }
        let v = rng.log_range(3_000, 100_000_000);
        val.insert(d.clone(), v);
    }
    let rest: Vec<String> = assets.iter().filter(|d| *d != HUB).cloned().collect();
    let mut k = 0;
    while k < rest.len() {
        if k + 1 < rest.len() && rng.chance(1, 6) {
            // one pool with three assets
            let id = add(rng, &[HUB, &rest[k], &rest[k + 1]], Some("weighted"), &val);
            hubp.insert(rest[k].clone(), id);
            hubp.insert(rest[k + 1].clone(), id);
            k += 2;
        } else {
            let id = add(rng, &[&rest[k], HUB], None, &val);
            hubp.insert(rest[k].clone(), id);
            k += 1;
        }
    }
    let shared_alt = add(rng, &[HUB, ALT], Some("weighted"), &val);
    // paths: payment token -> asset -> hops
    let mut routes: BTreeMap<String, BTreeMap<String, Path>> = BTreeMap::new();
    let mut pays = vec![HUB.to_string(), ALT.to_string()];
    if let Some(d) = rest.first() {
        // paying with a constituent goes through its own pool, which every leg then shares
        let p = &mut pools_kind(&mut pools, hubp[d]);
        if p.kind == "weighted" {
            pays.push(d.clone());
        }
    }
    for pay in &pays {
        let mut m = BTreeMap::new();
        for x in &assets {
            if x == pay {
                continue;
            }
            let hop = |p: u64, a: &str, b: &str| (p, a.to_string(), b.to_string());
            let path: Path = if pay == HUB {
                if rng.chance(1, 4) {
                    // through a third token, with pools of its own
                    let mid = format!("umid{x}").replace('/', "");
                    val.insert(mid.clone(), rng.log_range(10_000, 10_000_000));
                    let a = add2(&mut pools, rng, &[HUB, &mid], scale, &udec, &val, x);
                    let b = add2(&mut pools, rng, &[&mid, x], scale, &udec, &val, x);
                    vec![hop(a, HUB, &mid), hop(b, &mid, x)]
                } else {
                    vec![hop(hubp[x], HUB, x)]
                }
            } else if pay == ALT {
                if x == HUB {
                    vec![hop(shared_alt, ALT, HUB)]
                } else if rng.chance(1, 3) {
                    let a = add2(&mut pools, rng, &[ALT, x], scale, &udec, &val, x);
                    vec![hop(a, ALT, x)]
                } else {
                    vec![hop(shared_alt, ALT, HUB), hop(hubp[x], HUB, x)]
                }
            } else if x == HUB {
                vec![hop(hubp[pay], pay, HUB)]
            } else if hubp[pay] == hubp[x] {
                vec![hop(hubp[pay], pay, x)]
            } else {
                vec![hop(hubp[pay], pay, HUB), hop(hubp[x], HUB, x)]
            };
            m.insert(x.clone(), path);
        }
        routes.insert(pay.clone(), m);
    }
    let mut w = BTreeMap::new();
    for (o, b) in [("mint_in", 8u64), ("mint_out", 8), ("burn_in", 8), ("burn_out", 8), ("probe", 6), ("finish", 2), ("block", 6), ("crash", 2), ("donate", 3), ("move", 8), ("fee", 2), ("core", 3), ("pause", 1), ("migrate", 2)] {
        w.insert(o, match rng.below(6) { 0 => b / 2, 1 => b * 3, _ => b });
    }
    let mut up = |k: &'static str, n: u64| {
        let e = w.entry(k).or_default();
        *e = (*e).max(n);
    };
    match focus {
        "P04" => up("probe", 40),
        "C15" => up("migrate", 20),
        "D01" => up("crash", 6),
        "P01" => {
            up("donate", 6);
            up("finish", 4);
        }
        _ => {}
    }
    json!({
        "assets": assets, "units": units, "pools": pools, "routes": routes, "fee": fees(rng), "scale": scale.to_string(),
        "supply0": scale.saturating_mul(rng.range128(2, 20)).to_string(),
        "weights": w, "steps": rng.range(25, 70),
        "fault_pct": *rng.pick(&[0u64, 10, 25, 40]),
        "wrong_pct": *rng.pick(&[0u64, 4, 15]),
    })
}
fn pools_kind(ps: &mut [Pool], id: u64) -> Pool {
    ps[id as usize - 1].clone()
}
fn add2(pools: &mut Vec<Pool>, rng: &mut Rng, ds: &[&str], scale: u128, udec: &BTreeMap<String, u128>, val: &BTreeMap<String, u128>, x: &str) -> u64 {
    let id = pools.len() as u64 + 1;
    let kind = *rng.pick(&["weighted", "weighted", "stable", "cl"]);
    let need = muldiv(muldiv(udec[x], scale, ONE).max(1), val[x], 1_000_000).max(1000);
    let depth = need.saturating_mul(rng.range128(5, 3000));
    let assets = ds
        .iter()
        .map(|d| {
            let w = if kind == "weighted" && rng.chance(1, 3) { rng.range128(1, 4) } else { 1 };
            Asset { denom: d.to_string(), bal: muldiv(depth, 1_000_000, val[*d]).saturating_mul(w).clamp(2_000, 1 << 100), weight: w << 30 }
        })
        .collect();
    pools.push(Pool { id, kind: kind.into(), assets, fee: Dec(rng.range128(0, 20) * (ONE / 1000)), halted: false });
    id
}

#[derive(Clone, Default)]
struct Gen {
    n: u64,
    mempool: Vec<(u64, Tx, &'static str)>,
    retry: Option<Tx>,
    w: BTreeMap<String, u64>,
    fault_pct: u64,
    wrong_pct: u64,
}

/// what an operation depends on, observed before it
#[derive(Clone)]
struct Look {
    bank: Bank,
    supply: u128,
    collector: String,
    mint: Option<Dec>,
    burn: Option<Dec>,
    units: Vec<(String, Dec)>,
    open: bool,
}

pub struct PeriWorld {
    node: Node,
    routes: BTreeMap<String, BTreeMap<String, Path>>,
    scale: u128,
    idx: String,
    inst: (String, String),
    dead: bool,
    last: u64,
    g: Gen,
}

/// what a search may land on, by the reference pools
fn leg_in(p: &mut Pools, path: &Path, out: u128) -> Option<u128> {
    let rs: Vec<(u64, String)> = path.iter().map(|h| (h.0, h.1.clone())).collect();
    crate::pools::route_out(p, &rs, &path.last()?.2, out).ok().map(|x| x.1)
}
fn leg_out(p: &mut Pools, path: &Path, inn: u128) -> Option<u128> {
    let rs: Vec<(u64, String)> = path.iter().rev().map(|h| (h.0, h.1.clone())).collect();
    crate::pools::route_in(p, &path.last()?.2, inn, &rs).ok().map(|x| x.1)
}

fn fee_of(rate: Option<Dec>, n: u128, least: u128) -> u128 {
    rate.map(|r| r.of(n).max(least)).unwrap_or(0)
}

impl PeriWorld {
    pub fn new(cfg: &Value, cx: &mut Cx) -> Self {
        let mut c = Chain::new(1_700_000_000_000_000_000);
        let assets: Vec<String> = cfg["assets"].as_array().into_iter().flatten().map(s).collect();
        let mut all: BTreeSet<String> = assets.iter().cloned().collect();
        all.insert(HUB.into());
        all.insert(ALT.into());
        for u in USERS.iter().chain(["prober", "stranger"].iter()) {
            for d in &all {
                c.faucet(u, d, 1 << 118);
            }
        }
        for p in cfg["pools"].as_array().into_iter().flatten() {
            let p: Pool = serde_json::from_value(p.clone()).unwrap();
            c.pools.insert(p.id, p);
        }
        let mut node = Node::new(c);
        let mut w = PeriWorld {
            routes: serde_json::from_value(cfg["routes"].clone()).unwrap_or_default(),
            scale: n128(&cfg["scale"]),
            idx: format!("factory/{CORE}/idx"),
            inst: Default::default(),
            dead: false,
            last: 0,
            g: Gen {
                w: cfg["weights"].as_object().into_iter().flatten().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect(),
                fault_pct: cfg["fault_pct"].as_u64().unwrap_or(0),
                wrong_pct: cfg["wrong_pct"].as_u64().unwrap_or(0),
                ..Default::default()
            },
            node: Node::new(Chain::new(0)),
        };
        let mut fee = cfg["fee"].clone();
        if !crate::vault::rate_ok(&dec(&fee["mint_fee"])) {
            fee["mint_fee"] = Value::Null;
        }
        for (to, op, msg) in [
            (CORE, "instantiate:Core", json!({"gov": "gov0", "fee": fee, "index_denom": "idx", "index_units": cfg["units"], "reserve_denom": HUB})),
            (PERI, "instantiate:Periphery", json!({})),
        ] {
            let o = node.exec(&Tx { sender: "deployer".into(), to: to.into(), msg: msg.clone(), funds: vec![], op: Some(op.into()) }, &Fault::default(), cx);
            if !o.ok {
                cx.viol(&["P01", "P02", "P03", "P04"], "instantiate", format!("{op} {msg} refused: {}", o.err));
                w.dead = true;
            }
        }
        w.inst = version_of(&node.chain, PERI).unwrap_or_default();
        node.block(5000, cx);
        w.node = node;
        if w.dead {
            return w;
        }
        let s0 = n128(&cfg["supply0"]);
        let units: crate::snap::Units = crate::snap::unit_map(&cfg["units"]);
        for u in ["alice", "bob"] {
            let f: Funds = required(&units, s0).into_iter().collect();
            let o = w.node.exec(&tx(u, CORE, json!({"mint": {"amount": s0.to_string()}}), f), &Fault::default(), cx);
            if !o.ok {
                cx.log(|| format!("setup mint refused: {}", o.err));
            }
        }
        w
    }

    fn look(c: &Chain, idx: &str) -> Option<Look> {
        let fee = c.query(CORE, &json!({"get_fee": {"time": null}})).ok()?;
        let port = c.query(CORE, &json!({"get_portfolio": {"time": null}})).ok()?;
        let pause = c.query(CORE, &json!({"get_config": {"time": null}})).ok()?;
        let reb = c.query(CORE, &json!({"get_rebalance": {}})).ok()?;
        Some(Look {
            bank: c.bank.clone(),
            supply: c.supply.get(idx).copied().unwrap_or(0),
            collector: s(&fee["collector"]),
            mint: dec(&fee["mint_fee"]),
            burn: dec(&fee["burn_fee"]),
            units: unit_list(&port["units"]),
            open: !pause["paused"]["paused"].as_bool().unwrap_or(true) && !reb["rebalance"].is_object(),
        })
    }

    /// cost of n index tokens in `pay`; None when some leg cannot be swapped
    fn cost(&self, pools: &Pools, units: &[(String, Dec)], pay: &str, n: u128) -> Option<u128> {
        let mut p = pools.clone();
        let mut t = 0u128;
        for (d, u) in units {
            let a = u.of(n);
            if a == 0 {
                return None;
            }
            t = t.checked_add(if d == pay { a } else { leg_in(&mut p, self.routes.get(pay)?.get(d)?, a)? })?;
        }
        Some(t)
    }
    /// proceeds of n index tokens in `pay`
    fn proceeds(&self, pools: &Pools, units: &[(String, Dec)], pay: &str, n: u128) -> Option<u128> {
        let mut p = pools.clone();
        let mut t = 0u128;
        for (d, u) in units {
            let a = u.of(n);
            if a == 0 {
                return None;
            }
            t = t.checked_add(if d == pay { a } else { leg_out(&mut p, self.routes.get(pay)?.get(d)?, a)? })?;
        }
        Some(t)
    }

    fn swap_info(&self, pay: &str, mint: bool) -> Vec<Value> {
        let mut v = vec![];
        for (x, path) in self.routes.get(pay).into_iter().flatten() {
            v.push(if mint {
                json!({"key": format!("{pay},{x}"), "routes": path.iter().map(|h| format!("{},{}", h.0, h.1)).collect::<Vec<_>>()})
            } else {
                json!({"key": format!("{x},{pay}"), "routes": path.iter().rev().map(|h| format!("{},{}", h.0, h.1)).collect::<Vec<_>>()})
            });
        }
        v
    }

    /// Burning `n` pushes a weighted pool so far that the power series takes tens of thousands of
    /// terms in every step of the search: a node ends such a message for lack of gas.
    fn heavy(&self, units: &[(String, Dec)], pay: &str, n: u128, most: f64) -> bool {
        units.iter().any(|(d, u)| {
            if d == pay {
                return false;
            }
            let Some(path) = self.routes.get(pay).and_then(|r| r.get(d)) else { return false };
            let mut a = u.of(n) as f64;
            let mut din = d.clone();
            for (id, dout, _) in path.iter().rev() {
                let Some(p) = self.node.chain.pools.get(id) else { return false };
                let bal = |x: &str| p.assets.iter().find(|a| a.denom == x).map(|a| a.bal as f64).unwrap_or(1.0);
                let r = a / bal(&din).max(1.0);
                if p.kind == "weighted" && r > most {
                    return true;
                }
                a = bal(dout) * r / (1.0 + r);
                din = dout.clone();
            }
            false
        })
    }

    fn heavy_tx(&self, pre: &Look, t: &Tx) -> bool {
        let k = kind_of(t);
        if t.to != PERI || !k.starts_with("burn_exact") {
            return false;
        }
        let pay = s(if k == "burn_exact_amount_in" { &t.msg[&k]["output_asset"] } else { &t.msg[&k]["output_asset"]["denom"] });
        let n = t.funds.iter().map(|f| f.1).max().unwrap_or(0);
        if k == "burn_exact_amount_in" {
            return self.heavy(&pre.units, &pay, n, 12.0);
        }
        self.diverges(pre, &pay, n, n128(&t.msg[&k]["output_asset"]["amount"]))
    }
    /// The search for `want` out, starting at `n`, runs away: its steps grow without end where
    /// the pools cannot pay that much. A node ends it for lack of gas.
    fn diverges(&self, pre: &Look, pay: &str, n: u128, want: u128) -> bool {
        if self.heavy(&pre.units, pay, n, 40.0) {
            return true;
        }
        let cap = crate::vault_gen::search(self.scale.saturating_mul(1 << 20), |x| !self.heavy(&pre.units, pay, x, 12.0));
        let pools = &self.node.chain.pools;
        self.proceeds(pools, &pre.units, pay, cap).is_none_or(|p| p < want)
    }

    // ------------------------------------------------------------ execution and oracles

    fn do_tx(&mut self, t: &Tx, fault: &Fault, tag: &str, cx: &mut Cx) {
        let k = kind_of(t);
        let Some(pre) = Self::look(&self.node.chain, &self.idx) else {
            self.dead = true;
            return;
        };
        if self.heavy_tx(&pre, t) {
            cx.count("skipped/out_of_gas_by_size");
            return;
        }
        let pre_pools = self.node.chain.pools.clone();
        let pre_kv = self.node.chain.contracts[PERI].1.clone();
        let out = self.node.exec(t, fault, cx);
        cx.count(&format!("op/{}{k}/{}", if t.to == PERI { "periphery_" } else { "vault_" }, if out.ok { "ok" } else { "refused" }));
        cx.count(&format!("delivery/{tag}"));
        self.judge(&k, t, &pre, &pre_pools, &out, fault, tag, cx);
        if t.to == PERI {
            let mut b = self.node.chain.contracts[PERI].1.clone();
            let mut a = pre_kv;
            if k == "migrate" {
                let force = t.msg["force"].as_bool().unwrap_or(false);
                let v: Option<(String, String)> = a.get(b"contract_info".as_slice()).and_then(|b| serde_json::from_slice::<Value>(b).ok()).map(|v| (s(&v["contract"]), s(&v["version"])));
                let (n, ver) = v.unwrap_or_default();
                let want = force || (n == self.inst.0 && crate::semver::older(&ver, &self.inst.1) == Some(true));
                cx.eval("C15", &format!("periphery/{force}/{}/{:?}", n == self.inst.0, crate::semver::rel(&ver, &self.inst.1)));
                if want != out.ok && out.fired.is_none() {
                    cx.viol(&["C15"], if want { "upgrade_refused" } else { "upgrade_accepted" }, format!("periphery upgrade {} from {n} {ver} is {}: {}", t.msg, if out.ok { "accepted" } else { "refused" }, out.err));
                }
                if out.ok {
                    let now = version_of(&self.node.chain, PERI);
                    if now.as_ref() != Some(&self.inst) {
                        cx.viol(&["C15"], "version", format!("recorded {now:?} after the upgrade, code is {:?}", self.inst));
                    }
                    a.remove(b"contract_info".as_slice());
                    b.remove(b"contract_info".as_slice());
                }
                let bd = bank_diff(&pre.bank, &self.node.chain.bank);
                if a != b || !bd.is_empty() {
                    cx.viol(&["C15"], "upgrade_changes_state", format!("a periphery upgrade changed the state {bd:?}"));
                }
            }
        }
        let mut f = Fnv::default();
        f.add(k.as_bytes());
        f.num(out.ok as u64);
        f.num(self.last);
        f.num(out.swaps.len() as u64);
        f.num(pre.units.len() as u64 * 8 + pre.mint.is_some() as u64 + 2 * pre.burn.is_some() as u64 + 4 * pre.open as u64);
        f.num(out.swaps.iter().map(|s| s.amount_in).sum::<u128>().max(1).ilog2() as u64);
        self.last = hash(k.as_bytes());
        cx.stats.states.insert(f.0);
    }

    fn judge(&mut self, k: &str, t: &Tx, pre: &Look, pre_pools: &Pools, out: &TxOut, fault: &Fault, tag: &str, cx: &mut Cx) {
        if t.to != PERI {
            return;
        }
        let post = self.node.chain.bank.clone();
        let body = &t.msg[k];
        let fs = out.fired.unwrap_or("-");
        let strays = pre.bank.get(PERI).map(|m| m.len()).unwrap_or(0).min(2);
        if !out.ok {
            for p in ["P01", "P02", "P03"] {
                if (p == "P02" && k.starts_with("mint")) || (p == "P03" && k.starts_with("burn")) || p == "P01" {
                    cx.eval(p, &format!("{k}/refused/{fs}/{}", out.err.chars().filter(|c| c.is_alphabetic() || *c == ' ').take(28).collect::<String>()));
                }
            }
            let bd = bank_diff(&pre.bank, &post);
            if !bd.is_empty() {
                cx.viol(&["P01"], format!("failed_tx:{k}"), format!("the refused {k} changed balances: {}", bd.join("; ")));
            }
            return;
        }
        if k == "finish_operation" {
            cx.eval("P01", &format!("finish/{}", t.sender == PERI));
            if t.sender != PERI {
                cx.viol(&["P01"], "finish_by_outsider", format!("{} triggered the final payout {}", t.sender, t.msg));
            }
            return;
        }
        let who = t.sender.as_str();
        let mint = match k {
            "mint_exact_amount_in" | "mint_exact_amount_out" => true,
            "burn_exact_amount_in" | "burn_exact_amount_out" => false,
            _ => return,
        };
        let d = |a: &str, x: &str| -> i128 { bal(&post, a, x) as i128 - bal(&pre.bank, a, x) as i128 };
        let mut denoms: BTreeSet<String> = BTreeSet::new();
        for b in [&pre.bank, &post] {
            for m in b.values() {
                denoms.extend(m.keys().cloned());
            }
        }
        let idx = self.idx.clone();
        let op: &'static str = if mint { "P02" } else { "P03" };
        let fail = |cx: &mut Cx, props: &[&'static str], key: &str, msg: String| cx.viol(props, format!("{key}:{k}"), format!("{k} {} by {who} sending {:?} {fault:?}: {msg}", t.msg, t.funds));
        // who may gain or lose what
        for x in &denoms {
            let p = d(PERI, x);
            if p > 0 {
                fail(cx, &["P01"], "keeps", format!("the periphery keeps {p}{x}"));
            }
            for a in pre.bank.keys().chain(post.keys()).collect::<BTreeSet<_>>() {
                if a == who || a == PERI || a == CORE || (*a == pre.collector && *x == idx) {
                    continue;
                }
                if d(a, x) != 0 {
                    fail(cx, &["P01"], "third_party", format!("{a} changes by {}{x}", d(a, x)));
                }
            }
        }
        for sw in &out.swaps {
            if sw.sender != PERI {
                fail(cx, &["P01"], "swapper", format!("{} swaps", sw.sender));
            }
        }
        let sin = |x: &str| -> u128 { out.swaps.iter().filter(|s| s.denom_in == x).map(|s| s.amount_in).sum() };
        let sout = |x: &str| -> u128 { out.swaps.iter().filter(|s| s.denom_out == x).map(|s| s.amount_out).sum() };
        let sent = |x: &str| -> u128 { t.funds.iter().filter(|f| f.0 == x).map(|f| f.1).sum() };
        let supply = self.node.chain.supply.get(&idx).copied().unwrap_or(0);
        let sig = format!("{}/{strays}/{}/{}/{fs}/{tag}/{}", pre.units.len(), pre.mint.is_some(), pre.burn.is_some(), t.funds.len());
        if mint {
            if supply < pre.supply {
                fail(cx, &["P02"], "supply", format!("supply went from {} to {supply}", pre.supply));
                return;
            }
            let gross = supply - pre.supply;
            let fee = fee_of(pre.mint, gross, 1);
            let pay = if k == "mint_exact_amount_in" { s(&body["input_asset"]) } else { s(&body["input_asset"]) };
            let got = d(who, &idx);
            // what the vault takes is what the minted tokens need
            for (x, u) in &pre.units {
                let need = u.of(gross).max(1);
                if d(CORE, x) != need as i128 {
                    fail(cx, &["P01"], "vault_gain", format!("the vault gains {}{x}, {gross} index tokens need {need}", d(CORE, x)));
                }
            }
            if got != gross as i128 - fee as i128 {
                fail(cx, &["P01", "P02"], "delivered", format!("{gross} minted with fee {fee}, the caller receives {got}"));
            }
            let spent = sin(&pay) + pre.units.iter().filter(|x| x.0 == pay).map(|x| x.1.of(gross).max(1)).sum::<u128>();
            if spent > sent(&pay) {
                fail(cx, &["P02"], "overspent", format!("spent {spent}{pay} of {}", sent(&pay)));
            }
            if d(who, &pay) + (spent as i128) < 0 {
                fail(cx, &["P01", "P02"], "refund", format!("the caller's {pay} changes by {}, {spent} were spent", d(who, &pay)));
            }
            let lim;
            if k == "mint_exact_amount_in" {
                let min = n128(&body["min_output_amount"]);
                if got < min as i128 {
                    fail(cx, &["P02"], "below_minimum", format!("the caller receives {got} of at least {min}"));
                }
                lim = if got == min as i128 { "at" } else { "above" };
            } else {
                let want = n128(&body["output_amount"]);
                if gross != want {
                    fail(cx, &["P02"], "not_exact", format!("{gross} minted, {want} requested"));
                }
                lim = if spent == sent(&pay) { "all" } else { "part" };
            }
            for x in &denoms {
                if *x != pay && *x != idx && d(who, x) < 0 {
                    fail(cx, &["P01"], "takes_other", format!("the caller's {x} changes by {}", d(who, x)));
                }
            }
            cx.eval("P01", &format!("{k}/{sig}/{}", (spent < sent(&pay)) as u8));
            cx.eval(op, &format!("{k}/{sig}/{lim}/{}", out.swaps.len()));
        } else {
            if supply > pre.supply {
                fail(cx, &["P03"], "supply", format!("supply went from {} to {supply}", pre.supply));
                return;
            }
            let net = pre.supply - supply;
            let burned = net + d(&pre.collector, &idx).max(0) as u128;
            let fee = fee_of(pre.burn, burned, 0);
            if burned - net != fee {
                fail(cx, &["P01"], "fee", format!("burning {burned} pays a fee of {}, expected {fee}", burned - net));
            }
            let pay = if k == "burn_exact_amount_in" { s(&body["output_asset"]) } else { s(&body["output_asset"]["denom"]) };
            let mut direct = 0;
            for (x, u) in &pre.units {
                let r = u.of(net);
                if d(CORE, x) != -(r as i128) {
                    fail(cx, &["P01"], "vault_loss", format!("the vault gives {}{x}, burning {net} redeems {r}", -d(CORE, x)));
                }
                if *x == pay {
                    direct += r;
                } else if sin(x) < r {
                    fail(cx, &["P01"], "unswapped", format!("{r}{x} redeemed, {} swapped", sin(x)));
                }
            }
            let total = sout(&pay) + direct;
            let paid = d(who, &pay);
            if paid < total as i128 {
                fail(cx, &["P01", "P03"], "proceeds", format!("proceeds {total}{pay}, the caller receives {paid}"));
            }
            if d(who, &idx) < -(burned as i128) {
                fail(cx, &["P01", "P03"], "unburned", format!("{burned} burned of {}, the caller's index tokens change by {}", sent(&idx), d(who, &idx)));
            }
            let lim;
            if k == "burn_exact_amount_in" {
                if burned != sent(&idx) {
                    fail(cx, &["P03"], "not_exact", format!("{burned} burned, {} sent", sent(&idx)));
                }
                let min = n128(&body["min_output_amount"]);
                if total < min {
                    fail(cx, &["P03"], "below_minimum", format!("proceeds {total}{pay} of at least {min}"));
                }
                lim = if total == min { "at" } else { "above" };
            } else {
                let want = n128(&body["output_asset"]["amount"]);
                if burned > sent(&idx) {
                    fail(cx, &["P03"], "overburned", format!("{burned} burned of {}", sent(&idx)));
                }
                // three more index base units would have brought it within the tolerance
                if total + SLACK < want {
                    let ok = self.proceeds(pre_pools, &pre.units, &pay, net + 3).map(|n| n + SLACK >= want);
                    if ok == Some(false) {
                        fail(cx, &["P03"], "below_desired", format!("paid {total}{pay} for a desired {want}"));
                    }
                    lim = "dust";
                } else {
                    lim = if total >= want { "above" } else { "below" };
                }
            }
            cx.eval("P01", &format!("{k}/{sig}/{}", (burned < sent(&idx)) as u8));
            cx.eval(op, &format!("{k}/{sig}/{lim}/{}", out.swaps.len()));
        }
    }

    // ------------------------------------------------------------ quotes

    fn probe(&mut self, kind: &str, a: &Value, cx: &mut Cx) {
        let Some(pre) = Self::look(&self.node.chain, &self.idx) else { return };
        let pay = s(&a["pay"]);
        let n = n128(&a["amount"]);
        let who = s(&a["who"]);
        let mint = kind.starts_with("mint");
        if kind == "burn_in" && self.heavy(&pre.units, &pay, n, 12.0) || kind == "burn_out" && self.diverges(&pre, &pay, 1_000_000, n) {
            cx.count("skipped/out_of_gas_by_size");
            return;
        }
        let info = json!(self.swap_info(&pay, mint));
        let mut f = self.node.chain.clone();
        f.bank.remove(PERI); // stray deposits would blur the comparison
        f.faucet(&who, &pay, 1 << 122);
        let pools = f.pools.clone();
        let min_unit = pre.units.iter().map(|u| u.1 .0).min().unwrap_or(ONE);
        cx.count(&format!("probe/{kind}"));
        let judged = pre.open;
        let sig = |r: &str| format!("{kind}/{}/{}/{}/{r}/{}", pre.units.len(), pre.mint.is_some(), pre.burn.is_some(), pay == HUB);
        let exec = |f: &Chain, m: Value, funds: Funds| -> (Chain, TxOut) {
            let mut g = f.clone();
            let o = g.exec(&tx(&who, PERI, m, funds), &Fault::default());
            (g, o)
        };
        let idx = self.idx.clone();
        let delta = |g: &Chain, a: &str, x: &str| -> i128 { g.bal(a, x) as i128 - f.bal(a, x) as i128 };
        // mints round in the depositor's favour: the last few tokens may want a base unit more
        // than the vault holds (see C01)
        let covered = |net: u128| pre.units.iter().all(|(x, u)| u.of(net) <= f.bal(CORE, x));
        let clear = |x: u128| pre.units.iter().all(|(_, u)| u.of(x) > 0) && min_unit > 0;
        match kind {
            "mint_out" => {
                let q = self.node.chain.query(PERI, &json!({"simulate_mint_exact_amount_out": {"core_addr": CORE, "output_amount": n.to_string(), "input_asset": pay, "swap_info": info}}));
                let model = self.cost(&pools, &pre.units, &pay, n);
                let m = |x: u128| (json!({"mint_exact_amount_out": {"core_addr": CORE, "output_amount": n.to_string(), "input_asset": pay, "swap_info": info}}), vec![(pay.clone(), x)]);
                let net = n.checked_sub(fee_of(pre.mint, n, 1));
                if !judged || !clear(n) || net.unwrap_or(0) == 0 {
                    return;
                }
                match q {
                    Ok(v) => {
                        let (qm, qs, qi) = (n128(&v["mint_amount"]), coins(&v["mint_spend_amount"]), n128(&v["swap_result_amount"]["amount"]));
                        if qi == 0 || model.is_none() && pools.values().any(|p| p.halted) {
                            return;
                        }
                        if model != Some(qi) {
                            cx.count("probe/mint_out/cost_differs");
                        }
                        let (mm, ff) = m(qi);
                        let (g, o) = exec(&f, mm.clone(), ff);
                        cx.eval("P04", &sig(if o.ok { "ok" } else { "refused" }));
                        if !o.ok {
                            cx.viol(&["P04"], "quoted_input_refused:mint_out", format!("{v} is quoted for {mm}, sending that fails: {}", o.err));
                            return;
                        }
                        let mut bad = vec![];
                        if delta(&g, &who, &pay) != -(qi as i128) {
                            bad.push(format!("spends {}{pay}", -delta(&g, &who, &pay)));
                        }
                        if delta(&g, &who, &idx) != qm as i128 {
                            bad.push(format!("delivers {}", delta(&g, &who, &idx)));
                        }
                        for (x, _) in &pre.units {
                            if delta(&g, CORE, x) != qs.get(x).copied().unwrap_or(0) as i128 {
                                bad.push(format!("the vault takes {}{x}", delta(&g, CORE, x)));
                            }
                        }
                        let (mm2, ff) = m(qi - 1);
                        let (g2, o2) = exec(&f, mm2, ff);
                        cx.eval("P02", &format!("edge/mint_out/{}", o2.ok));
                        if o2.ok && -delta(&g2, &who, &pay) > qi as i128 - 1 {
                            cx.viol(&["P02"], "overspent:edge", format!("{mm} with {} spends {}", qi - 1, -delta(&g2, &who, &pay)));
                        }
                        if !bad.is_empty() {
                            cx.viol(&["P04"], "quote_differs:mint_out", format!("{v} is quoted for {mm}, execution {}", bad.join(", ")));
                        }
                    }
                    Err(e) => {
                        if let Some(c) = model {
                            cx.viol(&["P04", "P02"], "no_quote:mint_out", format!("{n} index tokens cost {c}{pay}, quoting them fails with {e}"));
                            let (mm, ff) = m(c + c / 100 + 100);
                            let (_, o) = exec(&f, mm.clone(), ff);
                            cx.eval("P04", &sig("no_quote"));
                            if o.ok {
                                cx.viol(&["P04"], "quote_fails:mint_out", format!("quoting {mm} fails with {e}, executing works"));
                            }
                        }
                    }
                }
            }
            "burn_in" => {
                let n = n.min(f.bal(&who, &idx));
                let q = self.node.chain.query(PERI, &json!({"simulate_burn_exact_amount_in": {"core_addr": CORE, "input_amount": n.to_string(), "output_asset": pay, "swap_info": info}}));
                let net = n - fee_of(pre.burn, n, 0);
                let model = self.proceeds(&pools, &pre.units, &pay, net);
                if !judged || net == 0 || !clear(net) || !covered(net) || model.is_none() && pools.values().any(|p| p.halted) {
                    return;
                }
                let m = |min: u128| (json!({"burn_exact_amount_in": {"core_addr": CORE, "output_asset": pay, "min_output_amount": min.to_string(), "swap_info": info}}), vec![(idx.clone(), n)]);
                match q {
                    Ok(v) => {
                        let (qb, qr, qo) = (n128(&v["burn_amount"]), coins(&v["burn_redeem_amount"]), n128(&v["swap_result_amount"]["amount"]));
                        if qo == 0 {
                            return;
                        }
                        let (mm, ff) = m(qo);
                        let (g, o) = exec(&f, mm.clone(), ff);
                        cx.eval("P04", &sig(if o.ok { "ok" } else { "refused" }));
                        if !o.ok {
                            cx.viol(&["P04"], "quoted_output_refused:burn_in", format!("{v} is quoted for burning {n} with {mm}, which then fails: {}", o.err));
                            return;
                        }
                        let mut bad = vec![];
                        if delta(&g, &who, &pay) != qo as i128 {
                            bad.push(format!("pays {}{pay}", delta(&g, &who, &pay)));
                        }
                        let s2 = g.supply.get(&idx).copied().unwrap_or(0);
                        if pre.supply - s2 != qb {
                            bad.push(format!("burns {}", pre.supply - s2));
                        }
                        for (x, _) in &pre.units {
                            if -delta(&g, CORE, x) != qr.get(x).copied().unwrap_or(0) as i128 {
                                bad.push(format!("the vault gives {}{x}", -delta(&g, CORE, x)));
                            }
                        }
                        let (mm2, ff) = m(qo + 1);
                        let (g2, o2) = exec(&f, mm2, ff);
                        cx.eval("P03", &format!("edge/burn_in/{}", o2.ok));
                        if o2.ok && delta(&g2, &who, &pay) < qo as i128 + 1 {
                            cx.viol(&["P03"], "below_minimum:edge", format!("{mm} with one more as the minimum pays {}", delta(&g2, &who, &pay)));
                        }
                        if !bad.is_empty() {
                            cx.viol(&["P04"], "quote_differs:burn_in", format!("{v} is quoted for burning {n} with {mm}, execution {}", bad.join(", ")));
                        }
                    }
                    Err(e) => {
                        if model.is_some() { cx.viol(&["P04", "P03"], "no_quote:burn_in", format!("burning {n} is worth {model:?}{pay}, quoting it fails with {e}")); }
                        let (mm, ff) = m(1);
                        let (_, o) = exec(&f, mm.clone(), ff);
                        cx.eval("P04", &sig("no_quote"));
                        if o.ok {
                            cx.viol(&["P04"], "quote_fails:burn_in", format!("quoting {mm} fails with {e}, executing works"));
                        }
                    }
                }
            }
            "mint_in" => {
                let q = self.node.chain.query(PERI, &json!({"simulate_mint_exact_amount_in": {"core_addr": CORE, "input_asset": {"denom": pay, "amount": n.to_string()}, "swap_info": info}}));
                // what n pays for
                let cost = |x: u128| self.cost(&pools, &pre.units, &pay, x);
                let top = self.scale.saturating_mul(1 << 20);
                let hi = crate::vault_gen::search(top, |x| cost(x).is_some_and(|c| c <= n));
                let lo = crate::vault_gen::search(top, |x| cost(x).is_some_and(|c| c + SLACK <= n));
                // beyond hi the reference pools may have no answer
                if !judged || hi == 0 || lo == 0 || !clear(lo) || cost(hi + 1).is_none() {
                    cx.count("probe/mint_in/tiny");
                    return;
                }
                let net = |x: u128| x.saturating_sub(fee_of(pre.mint, x, 1));
                let (a, b) = (net(lo).saturating_sub(1), net(hi));
                let v = match q {
                    Ok(v) => v,
                    Err(e) => {
                        cx.count("probe/mint_in/no_quote");
                        // the search starts at a million
                        let on_the_way = |x: u128| clear(x) && cost(x).is_some();
                        if hi > 1000 && n / hi < SLACK / 5 && [500_000, 2_000_000, lo / 4, hi * 4].into_iter().all(on_the_way)
                            // a search may miss one amount; all of them it may not
                            && [n - n / 7, n - n / 3, n + n / 9, n + n / 2].iter().all(|x| self.node.chain.query(PERI, &json!({"simulate_mint_exact_amount_in": {"core_addr": CORE, "input_asset": {"denom": pay, "amount": x.to_string()}, "swap_info": info}})).is_err()) {
                            cx.viol(&["P04", "P02"], "no_quote:mint_in", format!("{n}{pay} buys between {a} and {b}, quoting it fails with {e}"));
                        }
                        return;
                    }
                };
                let (qm, qi) = (n128(&v["mint_amount"]), n128(&v["swap_result_amount"]["amount"]));
                let r = format!("{}", if qm + 100 < a || qm > b { "off" } else { "in" });
                cx.eval("P04", &sig(&r));
                if qm + 100 + SLACK < a || qm > b + SLACK {
                    cx.viol(&["P04"], "quote_off:mint_in", format!("{v} is quoted for {n}{pay}, which buys between {a} and {b}"));
                }
                if qi > n || qi + SLACK < n {
                    cx.viol(&["P04"], "quote_spend:mint_in", format!("{v} is quoted for {n}{pay}"));
                }
                if a == 0 {
                    return;
                }
                let mm = json!({"mint_exact_amount_in": {"core_addr": CORE, "input_asset": pay, "min_output_amount": a.to_string(), "swap_info": info}});
                let (g, o) = exec(&f, mm.clone(), vec![(pay.clone(), n)]);
                cx.count(&format!("probe/mint_in/exec/{}", if o.ok { "ok".to_string() } else { o.err.chars().take(60).collect() }));
                if o.ok {
                    let got = delta(&g, &who, &idx).max(0) as u128;
                    if got > b || got < a {
                        cx.viol(&["P04"], "executed_off:mint_in", format!("{v} is quoted for {n}{pay}, {mm} delivers {got}"));
                    }
                    // one more than it delivers is refused, or delivered
                    for min in [got + 1, got + 2] {
                        let m = json!({"mint_exact_amount_in": {"core_addr": CORE, "input_asset": pay, "min_output_amount": min.to_string(), "swap_info": info}});
                        let (g, o) = exec(&f, m.clone(), vec![(pay.clone(), n)]);
                        let got = delta(&g, &who, &idx);
                        cx.eval("P02", &format!("edge/mint_in/{}/{}", o.ok, pre.mint.is_some()));
                        if o.ok && got < min as i128 {
                            cx.viol(&["P02"], "below_minimum:edge", format!("{m} with {n}{pay} delivers {got}"));
                        }
                    }
                } else {
                    // a search may miss from one starting point; from all of them it may not
                    let again = [a / 2, a / 4 * 3, a / 10 * 9, a / 8].iter().any(|x| {
                        let m = json!({"mint_exact_amount_in": {"core_addr": CORE, "input_asset": pay, "min_output_amount": (*x).max(1).to_string(), "swap_info": info}});
                        exec(&f, m, vec![(pay.clone(), n)]).1.ok
                    });
                    cx.count(if again { "probe/mint_in/exec/ok_elsewhere" } else { "probe/mint_in/exec/never" });
                    // a step of one index token must fit the tolerance several times over
                    if !again && hi > 1000 && n / hi < SLACK / 5 {
                        cx.viol(&["P04", "P02"], "quoted_input_refused:mint_in", format!("{v} is quoted for {n}{pay}, which no limit up to {a} lets through: {}", o.err));
                    }
                }
            }
            _ => {
                let q = self.node.chain.query(PERI, &json!({"simulate_burn_exact_amount_out": {"core_addr": CORE, "output_asset": {"denom": pay, "amount": n.to_string()}, "swap_info": info}}));
                let get = |x: u128| self.proceeds(&pools, &pre.units, &pay, x);
                let top = self.scale.saturating_mul(1 << 20);
                let hi = crate::vault_gen::search(top, |x| get(x).is_some_and(|c| c <= n));
                let lo = crate::vault_gen::search(top, |x| get(x).is_some_and(|c| c + SLACK <= n));
                if !judged || hi == 0 || lo == 0 || !clear(lo) || get(hi + 1).is_none() {
                    cx.count("probe/burn_out/tiny");
                    return;
                }
                // before the fee
                let gross = |x: u128| -> u128 { pre.burn.map(|r| muldiv(x, ONE, ONE - r.0)).unwrap_or(x) };
                let (a, b) = (gross(lo), gross(hi) + 1);
                let v = match q {
                    Ok(v) => v,
                    Err(e) => {
                        cx.count("probe/burn_out/no_quote");
                        let on_the_way = |x: u128| clear(x) && get(x).is_some();
                        if hi > 1000 && n / hi < SLACK / 5 && muldiv(b - a, n, hi) < 2 * SLACK && [500_000, 2_000_000, lo / 4, hi * 4].into_iter().all(on_the_way)
                            // a search may miss one amount; all of them it may not
                            && [n - n / 7, n - n / 3, n + n / 9, n + n / 2].iter().all(|x| self.node.chain.query(PERI, &json!({"simulate_burn_exact_amount_out": {"core_addr": CORE, "output_asset": {"denom": pay, "amount": x.to_string()}, "swap_info": info}})).is_err()) {
                            cx.viol(&["P04", "P03"], "no_quote:burn_out", format!("{n}{pay} needs between {a} and {b}, quoting it fails with {e}"));
                        }
                        return;
                    }
                };
                let (qb, qo) = (n128(&v["burn_amount"]), n128(&v["swap_result_amount"]["amount"]));
                cx.eval("P04", &sig(if qb < a || qb > b { "off" } else { "in" }));
                if qb + SLACK < a || qb > b + SLACK {
                    cx.viol(&["P04"], "quote_off:burn_out", format!("{v} is quoted for {n}{pay}, which needs between {a} and {b}"));
                }
                if qo > n || qo + SLACK < n {
                    cx.viol(&["P04"], "quote_output:burn_out", format!("{v} is quoted for {n}{pay}"));
                }
                let send = b + 3;
                if f.bal(&who, &idx) < send {
                    return;
                }
                let mm = json!({"burn_exact_amount_out": {"core_addr": CORE, "output_asset": {"denom": pay, "amount": n.to_string()}, "swap_info": info}});
                let (g, o) = exec(&f, mm.clone(), vec![(idx.clone(), send)]);
                cx.count(&format!("probe/burn_out/exec/{}", if o.ok { "ok".to_string() } else { o.err.chars().take(60).collect() }));
                if o.ok {
                    let burned = (-delta(&g, &who, &idx)).max(0) as u128;
                    if burned > b + 3 || burned + 3 < a {
                        cx.viol(&["P04"], "executed_off:burn_out", format!("{v} is quoted for {n}{pay}, {mm} burns {burned}, expected between {a} and {b}"));
                    }
                } else {
                    let h = f.bal(&who, &idx);
                    let again = [send / 2 * 3, send.saturating_mul(2), send + 1000, send.saturating_mul(4)].iter().any(|x| *x <= h && exec(&f, mm.clone(), vec![(idx.clone(), *x)]).1.ok);
                    let known = h < send.saturating_mul(4);
                    cx.count(if again { "probe/burn_out/exec/ok_elsewhere" } else if known { "probe/burn_out/exec/unknown" } else { "probe/burn_out/exec/never" });
                    if !again && !known && covered(send.saturating_mul(4)) && hi > 1000 && n / hi < SLACK / 5 && muldiv(b - a, n, hi) < 2 * SLACK {
                        cx.viol(&["P04", "P03"], "quoted_output_refused:burn_out", format!("{v} is quoted for {n}{pay}, which no amount from {send} lets through: {}", o.err));
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------ workload

    fn amount(&self, rng: &mut Rng) -> u128 {
        match rng.below(8) {
            0 => rng.log_range(1, self.scale),
            1 => rng.range128(1, 100),
            2 => self.scale.saturating_mul(rng.range128(1, 4)),
            _ => muldiv(self.scale, rng.range128(1, 1000), 1000).max(1),
        }
    }
    fn pay(&self, rng: &mut Rng) -> String {
        let v: Vec<&String> = self.routes.keys().collect();
        rng.pick(&v).to_string()
    }

    fn gen_tx(&mut self, rng: &mut Rng, op: &str) -> Option<Tx> {
        let wrong = rng.below(100) < self.g.wrong_pct;
        let mut who = rng.pick(&USERS).to_string();
        if op.starts_with("burn") {
            who = rng.pick(&USERS[..2]).to_string();
        }
        let pre = Self::look(&self.node.chain, &self.idx)?;
        let pools = &self.node.chain.pools;
        let pay = self.pay(rng);
        let n = self.amount(rng);
        let mint = op.starts_with("mint");
        let mut info = self.swap_info(&pay, mint);
        rng.shuffle(&mut info);
        if rng.chance(1, 6) {
            info.push(json!({"key": "ufoo,ubar", "routes": ["1,ufoo"]}));
        }
        if wrong && rng.chance(1, 3) {
            match rng.below(4) {
                0 => {
                    info.pop();
                }
                1 => info = self.swap_info(&pay, !mint),
                2 if !info.is_empty() => info[0]["routes"] = json!(["x,y"]),
                _ => info = self.swap_info(&self.pay(rng), mint),
            }
        }
        let core = if wrong && rng.chance(1, 8) { "nobody" } else { CORE };
        let slip = |rng: &mut Rng, x: u128, up: bool| -> u128 {
            let bp = *rng.pick(&[0u128, 0, 1, 10, 100, 500, 3000]);
            let e = *rng.pick(&[0u128, 0, 1, 2, 7]);
            if up {
                x.saturating_add(muldiv(x, bp, 10_000)).saturating_add(e)
            } else {
                x.saturating_sub(muldiv(x, bp, 10_000)).saturating_sub(e)
            }
        };
        match op {
            "mint_in" => {
                let input = self.cost(pools, &pre.units, &pay, n)?;
                let input = slip(rng, input, rng.clone().chance(1, 2));
                let est = n.checked_sub(fee_of(pre.mint, n, 1))?;
                let min = match rng.below(12) {
                    0 => 1,
                    1 => slip(rng, est, true),
                    2 => rng.range128(0, est),
                    3 => self.node.chain.query(PERI, &json!({"simulate_mint_exact_amount_in": {"core_addr": CORE, "input_asset": {"denom": pay, "amount": input.to_string()}, "swap_info": info}})).ok().map(|v| n128(&v["mint_amount"]))?,
                    _ => slip(rng, est, false),
                };
                let mut f = vec![(pay.clone(), input.max(1))];
                self.spoil(rng, wrong, &mut f);
                Some(tx(&who, PERI, json!({"mint_exact_amount_in": {"core_addr": core, "input_asset": pay, "min_output_amount": min.to_string(), "swap_info": info}}), f))
            }
            "mint_out" => {
                let c = self.cost(pools, &pre.units, &pay, n)?;
                let input = match rng.below(8) {
                    0 => slip(rng, c, false),
                    1 => c * 3,
                    2 => c.saturating_mul(rng.log_range(2, 1 << 20)).min(self.node.chain.bal(&who, &pay)),
                    _ => slip(rng, c, true),
                };
                let mut f = vec![(pay.clone(), input.max(1))];
                self.spoil(rng, wrong, &mut f);
                Some(tx(&who, PERI, json!({"mint_exact_amount_out": {"core_addr": core, "output_amount": n.to_string(), "input_asset": pay, "swap_info": info}}), f))
            }
            "burn_in" => {
                let n = n.min(self.node.chain.bal(&who, &self.idx));
                let net = n.checked_sub(fee_of(pre.burn, n, 0))?;
                let o = self.proceeds(pools, &pre.units, &pay, net)?;
                let min = match rng.below(10) {
                    0 => 1,
                    1 => slip(rng, o, true),
                    2 => rng.range128(0, o),
                    _ => slip(rng, o, false),
                };
                let mut f = vec![(self.idx.clone(), n.max(1))];
                self.spoil(rng, wrong, &mut f);
                Some(tx(&who, PERI, json!({"burn_exact_amount_in": {"core_addr": core, "output_asset": pay, "min_output_amount": min.to_string(), "swap_info": info}}), f))
            }
            "burn_out" => {
                let n = n.min(self.node.chain.bal(&who, &self.idx));
                let net = n.checked_sub(fee_of(pre.burn, n, 0))?;
                let o = self.proceeds(pools, &pre.units, &pay, net)?;
                let want = match rng.below(8) {
                    0 => slip(rng, o, true),
                    1 => rng.range128(1, o.max(1)),
                    2 => rng.log_range(1, o.max(1)),
                    _ => slip(rng, o, false),
                };
                let sent = if rng.chance(1, 5) { self.node.chain.bal(&who, &self.idx) } else { slip(rng, n, true).min(self.node.chain.bal(&who, &self.idx)) };
                let mut f = vec![(self.idx.clone(), sent.max(1))];
                self.spoil(rng, wrong, &mut f);
                Some(tx(&who, PERI, json!({"burn_exact_amount_out": {"core_addr": core, "output_asset": {"denom": pay, "amount": want.max(1).to_string()}, "swap_info": info}}), f))
            }
            "finish" => {
                let x = rng.pick(&[HUB.to_string(), ALT.to_string(), self.idx.clone(), pay]).clone();
                let from = rng.pick(&["alice", "stranger", CORE, "gov0", "deployer", "admin"]).to_string();
                let to = if rng.chance(1, 4) { PERI.to_string() } else { from.clone() };
                Some(tx(&from, PERI, json!({"finish_operation": {"refund_to": to, "refund_asset": x}}), vec![]))
            }
            "fee" => {
                let mut fe = fees(rng);
                if fe["streaming_fee"].is_object() && rng.chance(1, 2) {
                    fe["streaming_fee"]["freeze"] = json!(false);
                }
                Some(tx("gov0", CORE, json!({"gov": {"update_fee_strategy": fe}}), vec![]))
            }
            "pause" => {
                if pre.open {
                    Some(tx("gov0", CORE, json!({"gov": {"pause": {"expires_at": self.node.chain.now() + rng.range(5, 60)}}}), vec![]))
                } else {
                    Some(tx("gov0", CORE, json!({"gov": {"release": {}}}), vec![]))
                }
            }
            "core" => {
                if rng.chance(1, 2) {
                    let units: crate::snap::Units = pre.units.iter().cloned().collect();
                    let f: Funds = required(&units, n).into_iter().collect();
                    Some(tx(&who, CORE, json!({"mint": {"amount": n.to_string()}}), f))
                } else {
                    let b = self.node.chain.bal(&who, &self.idx);
                    Some(tx(&who, CORE, json!({"burn": {}}), vec![(self.idx.clone(), n.min(b / 4).max(1))]))
                }
            }
            "migrate" => Some(Tx {
                sender: "admin".into(),
                to: PERI.into(),
                msg: json!({"force": match rng.below(4) { 0 => json!(true), 1 => json!(false), _ => Value::Null }}),
                funds: vec![],
                op: Some("migrate".into()),
            }),
            _ => None,
        }
    }

    fn spoil(&self, rng: &mut Rng, wrong: bool, f: &mut Funds) {
        if !wrong || !rng.chance(1, 3) {
            return;
        }
        let p = self.pay(rng);
        match rng.below(3) {
            0 => f.clear(),
            1 if f[0].0 != p => f.push((p, 12345)),
            _ => f[0].0 = p,
        }
    }

    fn gen_fault(&self, rng: &mut Rng, t: &Tx) -> Fault {
        let mut f = Fault::default();
        if t.to == PERI && rng.chance(1, 2) {
            if rng.chance(1, 2) {
                f.quote_skew = *rng.pick(&[-1i64, 1, -3, 20, -200, 5000, -5000]);
            } else {
                f.exec_worse = *rng.pick(&[1u64, 1, 2, 5, 100, 3000, 12_000]);
            }
            return f;
        }
        if Self::look(&self.node.chain, &self.idx).is_some_and(|l| self.heavy_tx(&l, t)) {
            return f;
        }
        let o = self.node.chain.clone().exec(t, &f);
        match rng.below(4) {
            0 if o.storage_ops > 0 => f.oog_at = Some(rng.below(o.storage_ops)),
            1 if o.queries > 0 => f.fail_query_at = Some(rng.below(o.queries)),
            _ if o.msgs > 0 => f.fail_msg_at = Some(rng.below(o.msgs)),
            _ => f.oog_at = Some(0),
        }
        f
    }

    fn safe_dt(&self, dt: u64) -> u64 {
        let Ok(fee) = self.node.chain.query(CORE, &json!({"get_fee": {"time": null}})) else { return 1 };
        let st = &fee["streaming_fee"];
        if let Some(r) = dec(&st["rate"]) {
            let cap = (ONE / 2 / r.0.max(1)) as u64;
            let last: u64 = crate::snap::fee_of(&fee).stream.map(|s| s.last).unwrap_or(0);
            let used = self.node.chain.now().saturating_sub(last);
            return dt.min(cap.saturating_sub(used).saturating_mul(1000)).max(1);
        }
        dt
    }
}

impl World for PeriWorld {
    fn node(&self) -> &Node {
        &self.node
    }
    fn gen(&mut self, rng: &mut Rng, cx: &mut Cx) -> Step {
        self.g.n += 1;
        if let Some(t) = self.g.retry.take() {
            return Step::Tx { tx: t, fault: Fault::default(), tag: "retry".into() };
        }
        let due: Vec<usize> = self.g.mempool.iter().enumerate().filter(|(_, m)| m.0 <= self.g.n).map(|(i, _)| i).collect();
        if !due.is_empty() && rng.chance(1, 2) {
            let (_, t, tag) = self.g.mempool.remove(*rng.pick(&due));
            return Step::Tx { tx: t, fault: Fault::default(), tag: tag.into() };
        }
        for _ in 0..20 {
            let keys: Vec<String> = self.g.w.keys().cloned().collect();
            let ws: Vec<u64> = self.g.w.values().copied().collect();
            let op = keys[rng.weighted(&ws)].clone();
            match op.as_str() {
                "block" => {
                    let dt = *rng.pick(&[1000u64, 5000, 5000, 6000, 60_000, 3_600_000, 86_400_000, 2_592_000_000]);
                    return Step::Block { dt_ms: self.safe_dt(dt) };
                }
                "crash" => return Step::Crash,
                "donate" => {
                    let d = match rng.below(3) {
                        0 => HUB.to_string(),
                        _ => self.pay(rng),
                    };
                    return Step::Donate { to: if rng.chance(3, 4) { PERI.into() } else { CORE.into() }, denom: d, amount: rng.log_range(1, 1 << 40) };
                }
                "move" => {
                    let ps: Vec<u64> = self.node.chain.pools.keys().copied().collect();
                    let id = *rng.pick(&ps);
                    if !self.node.halted.is_empty() && rng.chance(1, 2) {
                        let h: Vec<u64> = self.node.halted.iter().copied().collect();
                        return Step::PoolHeal { pool: *rng.pick(&h) };
                    }
                    if rng.chance(1, 15) {
                        return Step::PoolHalt { pool: id };
                    }
                    let p = &self.node.chain.pools[&id];
                    let i = rng.below(p.assets.len() as u64) as usize;
                    let j = (i + 1) % p.assets.len();
                    return Step::PoolMove {
                        pool: id,
                        denom_in: p.assets[i].denom.clone(),
                        amount: muldiv(p.assets[i].bal, rng.log_range(1, 3000), 100_000).max(1),
                        denom_out: p.assets[j].denom.clone(),
                    };
                }
                "probe" => {
                    let kind = rng.pick(&["mint_out", "burn_in", "mint_in", "burn_out"]).to_string();
                    let pay = self.pay(rng);
                    let n = self.amount(rng);
                    let Some(pre) = Self::look(&self.node.chain, &self.idx) else { continue };
                    let amount = match kind.as_str() {
                        "mint_in" => self.cost(&self.node.chain.pools, &pre.units, &pay, n),
                        "burn_out" => self.proceeds(&self.node.chain.pools, &pre.units, &pay, n),
                        _ => Some(n),
                    };
                    let Some(amount) = amount else { continue };
                    return Step::Probe { kind, args: json!({"pay": pay, "amount": amount.to_string(), "who": *rng.pick(&USERS[..2])}) };
                }
                "migrate" if rng.chance(2, 3) => {
                    let mig = self.gen_tx(rng, "migrate").unwrap();
                    self.g.mempool.push((self.g.n, mig, "fresh"));
                    return set_version_step(rng, PERI, &self.inst.0.clone());
                }
                o => {
                    let Some(t) = self.gen_tx(rng, o) else { continue };
                    let r = rng.below(100);
                    if r < 4 {
                        cx.count("fault/message_lost");
                        continue;
                    }
                    if r < 18 {
                        cx.count("fault/message_delayed");
                        self.g.mempool.push((self.g.n + rng.range(1, 6), t, "late"));
                        continue;
                    }
                    if r < 24 {
                        cx.count("fault/message_duplicated");
                        self.g.mempool.push((self.g.n + rng.range(1, 6), t.clone(), "dup"));
                    }
                    let mut fault = Fault::default();
                    if rng.below(100) < self.g.fault_pct {
                        fault = self.gen_fault(rng, &t);
                        if fault.hard() && rng.chance(2, 3) {
                            self.g.retry = Some(t.clone());
                        }
                    }
                    return Step::Tx { tx: t, fault, tag: "fresh".into() };
                }
            }
        }
        Step::Block { dt_ms: 1000 }
    }

    fn apply(&mut self, st: &Step, cx: &mut Cx) {
        if self.dead {
            return;
        }
        match st {
            Step::Block { dt_ms } => self.node.block(*dt_ms, cx),
            Step::Tx { tx, fault, tag } => self.do_tx(tx, fault, tag, cx),
            Step::Crash => self.node.crash(cx),
            Step::Probe { kind, args } => self.probe(kind, args, cx),
            Step::Donate { .. } => {
                self.node.env(st, cx);
                cx.count("donations");
            }
            other => {
                if self.node.env(other, cx) {
                    if let Step::PoolMove { .. } = other {
                        cx.count("fault/price_move");
                    }
                }
            }
        }
    }

    fn finish(&mut self, _cx: &mut Cx) {}
}
