//! The vault world: configuration, workload generator, probes and the recovery bot.
use crate::chain::*;
use crate::engine::*;
use crate::pools::*;
use crate::snap::*;
use crate::util::*;
use crate::vault::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone)]
pub struct Gen {
    pub w: BTreeMap<String, u64>,
    pub mempool: Vec<(u64, Tx, &'static str)>,
    pub n: u64,
    pub fault_pct: u64,
    pub wrong_pct: u64,
    pub last_kind: u64,
    pub retry: Option<Tx>,
    pub fine: bool,
}

pub const USERS: [&str; 3] = ["alice", "bob", "carol"];
pub const GOVS: [&str; 3] = ["gov0", "gov1", "gov2"];
pub const MGRS: [&str; 2] = ["mgr0", "mgr1"];
pub const COLLS: [&str; 3] = ["coll0", "coll1", "coll2"];
const START: u64 = 1_700_000_000;

fn rate_str(rng: &mut Rng) -> Value {
    match rng.below(8) {
        0 | 1 => Value::Null,
        2 => json!(Dec(1).to_string()),
        3 => json!(Dec(ONE - 1).to_string()),
        4 => json!(Dec(rng.log_range(1, ONE / 10)).to_string()),
        _ => json!(Dec(rng.range128(1, 500) * (ONE / 10000)).to_string()),
    }
}
pub fn stream(rng: &mut Rng) -> Value {
    match rng.below(6) {
        0 => Value::Null,
        k => {
            let r = match k {
                1 => MAX_RATE,
                2 => rng.range128(1, 200),
                _ => rng.log_range(1000, MAX_RATE),
            };
            json!({"rate": Dec(r).to_string(), "freeze": rng.chance(1, 8)})
        }
    }
}
pub fn fee_payload(rng: &mut Rng) -> Value {
    let who = if rng.chance(1, 10) { *rng.pick(&["gov0", "gov1", "mgr0", "alice"]) } else { *rng.pick(&COLLS) };
    json!({"collector": who, "mint_fee": rate_str(rng), "burn_fee": rate_str(rng), "streaming_fee": stream(rng)})
}
/// a fee payload around the bounds
fn edge_fee(rng: &mut Rng) -> Value {
    let mut f = fee_payload(rng);
    let edge = |rng: &mut Rng, max: u128| -> Value {
        let v = match rng.below(7) {
            0 => 0,
            1 => 1,
            2 => max,
            3 => max + 1,
            4 => max - 1,
            5 => 2 * ONE,
            _ => rng.log_range(max / 2, max * 3),
        };
        json!(Dec(v).to_string())
    };
    match rng.below(4) {
        0 => f["mint_fee"] = edge(rng, ONE - 1),
        1 => f["burn_fee"] = edge(rng, ONE - 1),
        _ => f["streaming_fee"] = json!({"rate": edge(rng, MAX_RATE), "freeze": rng.chance(1, 4)}),
    }
    f
}

const OPS: [&str; 24] = [
    "mint", "burn", "realize", "pause", "release", "update_gov", "accept_gov", "revoke_gov", "fee", "manager", "reserve", "trade_info",
    "init", "deflate", "inflate", "finalize", "donate", "poolmove", "halt", "crash", "block", "migrate", "tryinst", "probe",
];

fn weights(rng: &mut Rng, focus: &str) -> BTreeMap<String, u64> {
    let mut w = BTreeMap::new();
    for o in OPS {
        let base = match o {
            "mint" | "burn" => 10,
            "block" => 14,
            "deflate" | "inflate" => 8,
            "init" | "trade_info" | "realize" | "probe" | "finalize" => 4,
            _ => 2,
        };
        // swarm: each run drops or favours some operations
        let k = match rng.below(6) {
            0 => 0,
            1 => base * 4,
            _ => base,
        };
        w.insert(o.to_string(), k);
    }
    w.insert("block".into(), 14);
    // rebalances that run to their end, alone or among everything else
    let r = match focus {
        "C11" => 3,
        "C01" | "C02" | "C05" | "C07" | "C08" | "C10" | "C12" | "D01" => rng.below(2),
        _ => u64::from(rng.chance(1, 4)),
    };
    w.insert("recover".into(), r);
    let mut up = |l: &[(&str, u64)]| {
        for (k, v) in l {
            let e = w.entry(k.to_string()).or_default();
            *e = (*e).max(*v);
        }
    };
    match focus {
        "C01" => up(&[("mint", 10), ("burn", 8), ("init", 4), ("deflate", 8), ("inflate", 8), ("finalize", 4)]),
        "C02" | "C03" => up(&[("mint", 25), ("burn", 10)]),
        "C04" => up(&[("mint", 8), ("burn", 25)]),
        "C05" => up(&[("mint", 12), ("burn", 10), ("pause", 9), ("release", 6), ("init", 6), ("finalize", 6)]),
        "C06" => up(&[("update_gov", 8), ("accept_gov", 8), ("revoke_gov", 5), ("fee", 4), ("manager", 4), ("reserve", 4), ("trade_info", 4), ("pause", 4), ("release", 4), ("init", 4)]),
        "C07" | "C08" => up(&[("realize", 9), ("fee", 6), ("init", 5), ("finalize", 6), ("mint", 8), ("block", 20)]),
        "C09" => up(&[("init", 8), ("deflate", 22), ("inflate", 22), ("trade_info", 8), ("finalize", 3)]),
        "C10" => up(&[("init", 12), ("deflate", 14), ("inflate", 14), ("finalize", 12), ("trade_info", 6), ("manager", 4)]),
        "C11" => up(&[("init", 12), ("deflate", 8), ("inflate", 8), ("trade_info", 8), ("recover", 4)]),
        "C12" => up(&[("probe", 30), ("trade_info", 6)]),
        "C13" => up(&[("mint", 10), ("burn", 10), ("deflate", 14), ("inflate", 14), ("init", 8), ("realize", 6), ("fee", 4)]),
        "C14" => up(&[("fee", 20), ("tryinst", 20)]),
        "C15" => up(&[("migrate", 25), ("init", 5), ("pause", 4)]),
        "D01" => up(&[("crash", 8)]),
        _ => {}
    }
    if matches!(focus, "C09" | "C10" | "C11" | "C13" | "C01") {
        w.insert("reserve".into(), 1);
        w.insert("pause".into(), 1);
    }
    w
}

pub fn gen_cfg(rng: &mut Rng, focus: &str) -> Value {
    let n = match rng.below(10) {
        0 => 1,
        1..=3 => 2,
        4..=6 => 3,
        _ => rng.range(4, 6),
    } as usize;
    let names = ["uosmo", "uatom", "ibc/4a1b", "ustars", "ujuno", "uusd", "umars", "uaxl"];
    let mut all: Vec<String> = names.iter().map(|x| x.to_string()).collect();
    rng.shuffle(&mut all);
    let denoms: Vec<String> = all[..(n + 2).min(8)].to_vec();
    let reserve = denoms[rng.below(denoms.len() as u64) as usize].clone();
    let mut unitd = denoms.clone();
    rng.shuffle(&mut unitd);
    unitd.truncate(n);
    let usual = rng.chance(3, 4);
    let units: Vec<Value> = unitd
        .iter()
        .map(|d| {
            let u = match rng.below(if usual { 5 } else { 8 }) {
                0 => ONE,
                1 => ONE / 2,
                2 => rng.log_range(ONE / 1000, ONE * 100),
                3 => rng.range128(1, 2_000_000) * (ONE / 1_000_000),
                4 => ONE / 3,
                5 if rng.chance(1, 3) => 0,
                5 => rng.log_range(1, ONE),
                6 => rng.log_range(ONE, ONE * 1_000_000),
                _ => 1,
            };
            json!([d, Dec(u).to_string()])
        })
        .collect();
    let small = rng.chance(1, if focus == "C11" { 12 } else { 4 });
    let top = if focus == "C11" && rng.chance(4, 5) { 1u128 << 46 } else { 1 << 70 };
    let supply0 = if small { rng.log_range(1, 2000) } else { rng.log_range(1000, top) };
    // pools: a direct one per asset against the reserve, some cross pools
    let fine = focus == "C11" || rng.chance(1, 2);
    let mut pools = vec![];
    let mut id = 1;
    for (i, d) in denoms.iter().enumerate() {
        if *d == reserve {
            continue;
        }
        let r = (supply0.max(1000)).saturating_mul(rng.range128(50, 100_000)).max(1_000_000);
        // price: reserve per asset in 1/1000
        let price = if fine {
            if (focus == "C11" && !rng.chance(1, 8) && unitd.contains(d)) || (focus != "C11" && i % 2 == 0) { rng.range128(2500, 60_000) } else { rng.range128(20, 450) }
        } else {
            rng.log_range(5, 200_000)
        };
        let a = muldiv(r, 1000, price).max(1000);
        let kind = match rng.below(5) {
            0 => "stable",
            1 => "cl",
            _ => "weighted",
        };
        let fee = match rng.below(4) {
            0 => 0,
            _ => rng.range128(0, 30) * (ONE / 1000),
        };
        let (w1, w2) = if kind == "weighted" && rng.chance(1, 3) { (rng.range128(1, 4), 1) } else { (1, 1) };
        pools.push(json!(Pool {
            id,
            kind: kind.into(),
            assets: vec![
                Asset { denom: d.clone(), bal: a.saturating_mul(w1), weight: w1 * 1_073_741_824 },
                Asset { denom: reserve.clone(), bal: r.saturating_mul(w2), weight: w2 * 1_073_741_824 },
            ],
            fee: Dec(fee),
            halted: false,
        }));
        id += 1;
    }
    for _ in 0..rng.below(3) {
        let i = rng.below(denoms.len() as u64) as usize;
        let j = rng.below(denoms.len() as u64) as usize;
        if i == j || denoms[i] == reserve || denoms[j] == reserve {
            continue;
        }
        let a = rng.log_range(1_000_000, 1u128 << 80);
        pools.push(json!(Pool {
            id,
            kind: "weighted".into(),
            assets: vec![
                Asset { denom: denoms[i].clone(), bal: a, weight: 1 << 30 },
                Asset { denom: denoms[j].clone(), bal: muldiv(a, rng.range128(300, 3000), 1000), weight: 1 << 30 },
            ],
            fee: Dec(2 * ONE / 1000),
            halted: false,
        }));
        id += 1;
    }
    let mut fee = fee_payload(rng);
    if matches!(focus, "C07" | "C08" | "C12") && fee["streaming_fee"].is_null() {
        fee["streaming_fee"] = json!({"rate": Dec(rng.log_range(10_000, MAX_RATE)).to_string(), "freeze": rng.chance(1, 10)});
    }
    let steps = match rng.below(4) {
        0 => rng.range(15, 40),
        1 | 2 => rng.range(40, 90),
        _ => rng.range(90, 160),
    };
    json!({
        "denoms": denoms, "units": units, "reserve": reserve, "fee": fee, "pools": pools, "fine": fine,
        "supply0": if rng.chance(1, 15) { 0u128 } else { supply0 }.to_string(),
        "weights": weights(rng, focus), "steps": steps,
        "fault_pct": if focus == "C13" { 45 } else { *rng.pick(&[0u64, 5, 12, 25]) },
        "wrong_pct": if focus == "C06" { 35 } else { *rng.pick(&[3u64, 10, 20]) },
        "routes": rng.chance(3, 4),
    })
}

fn funds_of(m: BTreeMap<String, u128>) -> Funds {
    m.into_iter().filter(|(_, n)| *n > 0).collect()
}
pub fn tx(sender: &str, msg: Value, funds: Funds) -> Tx {
    Tx { sender: sender.into(), to: CORE.into(), msg, funds, op: None }
}

/// someone who holds, held or may come to hold an office
fn officer(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => rng.pick(&GOVS).to_string(),
        1 => rng.pick(&COLLS).to_string(),
        _ => rng.pick(&MGRS).to_string(),
    }
}

impl VaultWorld {
    pub fn new(cfg: &Value, cx: &mut Cx) -> Self {
        let mut c = Chain::new(START * 1_000_000_000 + 123_456_789);
        let denoms: Vec<String> = cfg["denoms"].as_array().unwrap().iter().map(s).collect();
        for a in USERS.iter().chain(GOVS.iter()).chain(MGRS.iter()).chain(COLLS.iter()).chain(["bot", "stranger"].iter()) {
            for d in &denoms {
                c.faucet(a, d, 1u128 << 105);
            }
        }
        for p in cfg["pools"].as_array().unwrap() {
            let p: Pool = serde_json::from_value(p.clone()).unwrap();
            c.pools.insert(p.id, p);
        }
        let mut w = VaultWorld {
            node: Node::new(c),
            denoms: denoms.clone(),
            list_denoms: denoms.clone(),
            don: Default::default(),
            accrued: Default::default(),
            paid: Default::default(),
            cover: Default::default(),
            mints: 0,
            cur: None,
            was: None,
            inst_version: Default::default(),
            gov_froze: cfg["fee"]["streaming_fee"]["freeze"].as_bool().unwrap_or(false),
            dead: false,
            g: Gen::default(),
        };
        w.list_denoms.sort();
        for (k, v) in cfg["weights"].as_object().unwrap() {
            w.g.w.insert(k.clone(), v.as_u64().unwrap_or(0));
        }
        w.g.fault_pct = cfg["fault_pct"].as_u64().unwrap_or(0);
        w.g.fine = cfg["fine"].as_bool().unwrap_or(false);
        w.g.wrong_pct = cfg["wrong_pct"].as_u64().unwrap_or(0);
        let inst = Tx {
            sender: "deployer".into(),
            to: CORE.into(),
            msg: json!({"gov": "gov0", "fee": cfg["fee"], "index_denom": "idx", "index_units": cfg["units"], "reserve_denom": cfg["reserve"]}),
            funds: vec![],
            op: Some("instantiate:Core".into()),
        };
        let out = w.node.exec(&inst, &Fault::default(), cx);
        if !out.ok {
            cx.viol(&["C14"], "instantiate_refused", format!("valid instantiation {} refused: {}", inst.msg, out.err));
            w.dead = true;
            return w;
        }
        w.inst_version = version_of(&w.node.chain, CORE).unwrap_or_default();
        let Some(sn) = w.pre(cx) else { return w };
        w.check_inst(&inst.msg, &sn, CORE, cx);
        w.cover = w.cover_of(&sn);
        w.node.block(5000, cx);
        w.cur = None;
        if cfg["routes"].as_bool().unwrap_or(false) {
            for d in denoms.iter().filter(|d| **d != s(&cfg["reserve"])) {
                for dir in [true, false] {
                    if let Some(r) = w.route(d, dir, 0) {
                        w.do_tx(&tx("gov0", w.trade_info_msg(d, dir, &r, 0, 1u128 << 100), vec![]), &Fault::default(), "setup", cx);
                    }
                }
            }
        }
        let s0: u128 = n128(&cfg["supply0"]);
        if s0 > 0 {
            if let Some(sn) = w.pre(cx) {
                let f = funds_of(required(&sn.units, s0));
                w.do_tx(&tx("alice", json!({"mint": {"amount": s0.to_string()}}), f), &Fault::default(), "setup", cx);
            }
        }
        w
    }

    fn check_inst(&self, msg: &Value, sn: &Snap, addr: &str, cx: &mut Cx) {
        let now = self.node.chain.now();
        let mut bad = vec![];
        if sn.fee != fee_from_payload(&msg["fee"], now) {
            bad.push(format!("fee {:?}", sn.fee));
        }
        if sn.units != unit_map(&msg["index_units"]) {
            bad.push(format!("units {:?}", sn.units));
        }
        if sn.gov != s(&msg["gov"]) || sn.pending.is_some() || sn.paused || sn.reb.is_some() || sn.supply != 0 {
            bad.push("governance, pause, rebalance or supply".into());
        }
        if sn.reserve_denom != s(&msg["reserve_denom"]) {
            bad.push("reserve".into());
        }
        if !bad.is_empty() {
            cx.viol(&["C14"], "instantiate_state", format!("instantiating with {msg} recorded {}", bad.join(", ")));
        }
        if sn.index_denom != format!("factory/{addr}/{}", s(&msg["index_denom"])) {
            cx.viol(&["C02"], "index_denom", format!("index denomination {}", sn.index_denom));
        }
    }

    /// a valid route; hops: 0 direct, 1 via another asset
    pub fn route(&self, d: &str, deflate: bool, via: u64) -> Option<Vec<(u64, String)>> {
        let c = &self.node.chain;
        let r = match &self.cur {
            Some(s) => s.reserve_denom.clone(),
            None => self.snap_now().ok()?.reserve_denom,
        };
        let find = |a: &str, b: &str| c.pools.values().filter(|p| p.has(a) && p.has(b)).map(|p| p.id).next();
        if d == r {
            return None;
        }
        if via > 0 {
            let mut n = 0;
            for x in &self.denoms {
                if x == d || *x == r {
                    continue;
                }
                if let (Some(p), Some(q)) = (find(d, x), find(x, &r)) {
                    n += 1;
                    if n == via {
                        return Some(if deflate { vec![(p, d.into()), (q, x.clone())] } else { vec![(q, x.clone()), (p, d.into())] });
                    }
                }
            }
        }
        find(d, &r).map(|p| vec![(p, d.into())])
    }
    pub fn trade_info_msg(&self, d: &str, deflate: bool, route: &[(u64, String)], cooldown: u64, max: u128) -> Value {
        let r = self.cur.as_ref().map(|s| s.reserve_denom.clone()).unwrap_or_else(|| self.snap_now().map(|s| s.reserve_denom).unwrap_or_default());
        let routes: Vec<Value> = route.iter().map(|(p, t)| json!({"pool_id": p, "token_denom": t})).collect();
        json!({"gov": {"update_trade_info": {"denom": if deflate { d.to_string() } else { r }, "routes": routes, "cooldown": cooldown, "max_trade_amount": max.to_string()}}})
    }

    /// units as they will stand now, from the reference formula (good enough to build messages)
    fn units_now(&self, sn: &Snap) -> Units {
        if self.delta(sn) == 0 {
            return sn.units.clone();
        }
        match self.node.chain.query(CORE, &json!({"get_portfolio": {"time": null}})) {
            Ok(q) => unit_map(&q["units"]),
            Err(_) => sn.units.clone(),
        }
    }

    pub fn largest_deflate(&self, ti: &Trade, reserve: &str, gap: u128) -> u128 {
        let ps = &self.node.chain.pools;
        let ok = |o: u128| quote_out(ps, &ti.routes, reserve, o).is_some_and(|i| i <= gap);
        search(ti.max, ok)
    }

    fn gen_tx(&mut self, rng: &mut Rng, op: &str, sn: &Snap, cx: &mut Cx) -> Option<Tx> {
        let now = self.node.chain.now();
        let wrong = rng.below(100) < self.g.wrong_pct;
        let any_sender = |rng: &mut Rng| -> String {
            let mut v: Vec<String> = vec!["stranger".into()];
            for a in GOVS.iter().chain(MGRS.iter()).chain(COLLS.iter()).chain(USERS.iter()) {
                v.push(a.to_string());
            }
            if let Some(p) = &sn.pending {
                v.push(p.clone());
                v.push(p.clone());
            }
            v.push(sn.fee.collector.clone());
            rng.pick(&v).clone()
        };
        let gov = |rng: &mut Rng| if wrong { any_sender(rng) } else { sn.gov.clone() };
        let small = |rng: &mut Rng| rng.range128(1, 12);
        match op {
            "mint" => {
                let units = self.units_now(sn);
                let n = match rng.below(8) {
                    0 => small(rng),
                    1 => 0u128.max(rng.log_range(1, 1000)),
                    2 => rng.log_range(1, 1u128 << 64),
                    3 if wrong => 0,
                    _ => rng.log_range(1, sn.supply.max(1000).saturating_mul(2)),
                };
                let mut f = required(&units, n);
                if rng.chance(1, 3) {
                    for x in f.values_mut() {
                        if rng.chance(1, 2) {
                            let k = rng.log_range(1, (*x).max(10));
                            *x += k;
                        }
                    }
                }
                if wrong {
                    let ks: Vec<String> = f.keys().cloned().collect();
                    match rng.below(4) {
                        0 if !ks.is_empty() => {
                            f.remove(rng.pick(&ks));
                        }
                        1 if !ks.is_empty() => {
                            let k = rng.pick(&ks).clone();
                            let x = f.get_mut(&k).unwrap();
                            *x = x.saturating_sub(1);
                        }
                        2 => {
                            let d = rng.pick(&self.denoms).clone();
                            f.entry(d).or_insert(rng.clone().range128(1, 1000));
                        }
                        _ => {
                            if bal(&sn.bank, "alice", &sn.index_denom) > 10 {
                                f.insert(sn.index_denom.clone(), 3);
                            }
                        }
                    }
                }
                // whoever holds an office is a user like any other
                let sender = if f.contains_key(&sn.index_denom) {
                    "alice".to_string()
                } else if rng.chance(1, 8) {
                    officer(rng)
                } else {
                    rng.pick(&USERS).to_string()
                };
                let addr = |rng: &mut Rng| -> Value {
                    let k = if rng.chance(1, 8) { 7 } else { 6 };
                    match rng.below(k) {
                        6 => json!(CORE),
                        0 => json!(*rng.pick(&["dave", "alice", "bob", "erin"])),
                        1 => json!(officer(rng)),
                        2 if wrong => json!("Bad Address"),
                        _ => Value::Null,
                    }
                };
                Some(tx(&sender, json!({"mint": {"amount": n.to_string(), "receiver": addr(rng), "refund_to": addr(rng)}}), funds_of(f)))
            }
            "burn" => {
                let mut hold: Vec<(String, u128)> = sn.bank.iter().filter_map(|(a, m)| m.get(&sn.index_denom).map(|n| (a.clone(), *n))).filter(|x| x.0 != CORE).collect();
                hold.sort();
                if hold.is_empty() {
                    return None;
                }
                let (a, h) = rng.pick(&hold).clone();
                // the appointed manager of an open rebalance tries its luck too
                let (a, h) = match sn.reb.as_ref().and_then(|r| r.manager.clone()).and_then(|m| hold.iter().find(|x| x.0 == m)) {
                    Some(x) if rng.chance(1, 4) => x.clone(),
                    _ => (a, h),
                };
                let n = match rng.below(6) {
                    0 => small(rng).min(h),
                    1 => h,
                    2 => h.min(rng.log_range(1, 1000)),
                    _ => rng.log_range(1, h),
                };
                let mut f = BTreeMap::from([(sn.index_denom.clone(), n)]);
                if wrong {
                    match rng.below(3) {
                        0 => {
                            f.clear();
                        }
                        1 if USERS.contains(&a.as_str()) => {
                            f.insert(rng.pick(&self.denoms).clone(), 5);
                        }
                        _ => {
                            if USERS.contains(&a.as_str()) {
                                f = BTreeMap::from([(rng.pick(&self.denoms).clone(), n.min(1 << 90))]);
                            }
                        }
                    }
                }
                let to = match rng.below(5) {
                    4 if rng.chance(1, 12) => json!(CORE),
                    0 => json!("dave"),
                    1 => json!("bob"),
                    3 if rng.chance(1, 3) => json!(officer(rng)),
                    2 if wrong => json!("Bad Address"),
                    _ => Value::Null,
                };
                Some(tx(&a, json!({"burn": {"redeem_to": to}}), funds_of(f)))
            }
            "realize" => {
                let c = if wrong { any_sender(rng) } else { sn.fee.collector.clone() };
                Some(tx(&c, json!({"realize": {}}), vec![]))
            }
            "pause" => {
                let e = match rng.below(6) {
                    0 => Value::Null,
                    1 => json!(now),
                    2 => json!(now + 1),
                    3 => json!(now.saturating_sub(rng.below(5))),
                    4 => json!(now + rng.range(2, 30)),
                    _ => json!(now + rng.range(30, 100_000)),
                };
                Some(tx(&gov(rng), json!({"gov": {"pause": {"expires_at": e}}}), vec![]))
            }
            "release" => Some(tx(&gov(rng), json!({"gov": {"release": {}}}), vec![])),
            "update_gov" => {
                let to = if wrong && rng.chance(1, 3) { "BAD!".to_string() } else if rng.chance(1, 6) { sn.gov.clone() } else { rng.pick(&GOVS).to_string() };
                Some(tx(&gov(rng), json!({"gov": {"update_gov": to}}), vec![]))
            }
            "accept_gov" => {
                let who = if wrong { any_sender(rng) } else { sn.pending.clone().unwrap_or_else(|| any_sender(rng)) };
                Some(tx(&who, json!({"gov": {"accept_gov": {}}}), vec![]))
            }
            "revoke_gov" => Some(tx(&gov(rng), json!({"gov": {"revoke_gov": {}}}), vec![])),
            "fee" => {
                let f = if rng.chance(1, 3) { edge_fee(rng) } else { fee_payload(rng) };
                let mut f = f;
                if wrong && rng.chance(1, 4) {
                    f["collector"] = json!("X");
                }
                Some(tx(&gov(rng), json!({"gov": {"update_fee_strategy": f}}), vec![]))
            }
            "manager" => {
                let m = match rng.below(4) {
                    0 => Value::Null,
                    1 if wrong => json!("A B"),
                    _ if rng.chance(1, 10) => json!(officer(rng)),
                    _ => json!(*rng.pick(&MGRS)),
                };
                Some(tx(&gov(rng), json!({"gov": {"update_rebalance_manager": m}}), vec![]))
            }
            "reserve" => Some(tx(&gov(rng), json!({"gov": {"update_reserve_denom": rng.pick(&self.denoms).clone()}}), vec![])),
            "trade_info" => {
                if rng.chance(1, 12) {
                    // many settings under one asset, for paging
                    let d = format!("ux{:02}", rng.below(45));
                    return Some(tx(&gov(rng), self.trade_info_msg(&d, false, &[(900 + rng.below(9), d.clone())], rng.below(100), if rng.chance(1, 10) { 0 } else { rng.log_range(1, 1 << 60) }), vec![]));
                }
                let d = rng.pick(&self.denoms).clone();
                let dir = rng.chance(1, 2);
                let r = self.route(&d, dir, rng.below(3))?;
                let cd = match rng.below(8) {
                    6 if rng.chance(1, 3) => rng.log_range(1, 1 << 28) as u64,
                    k => [0u64, 0, 0, 1, 5, 60, 3600, 0][k as usize],
                };
                let max = match rng.below(4) {
                    0 => 1u128 << 100,
                    1 if rng.chance(1, 8) => 0,
                    1 => rng.log_range(1, 100),
                    _ => rng.log_range(1, sn.supply.max(1000).saturating_mul(4)),
                };
                Some(tx(&gov(rng), self.trade_info_msg(&d, dir, &r, cd, max), vec![]))
            }
            "init" => {
                let units = self.units_now(sn);
                let mut ds: Vec<String> = units.keys().cloned().collect();
                rng.shuffle(&mut ds);
                if self.g.fine && rng.chance(3, 4) {
                    let can = |d: &String| *d == sn.reserve_denom || self.route(d, true, 0).is_some_and(|r| quote_out(&self.node.chain.pools, &r, &sn.reserve_denom, 1).is_some_and(|q| q <= 1));
                    let v: Vec<String> = ds.iter().filter(|d| can(d)).cloned().collect();
                    if !v.is_empty() {
                        ds = v;
                    }
                }
                let k = rng.range(1, 2).min(ds.len() as u64) as usize;
                let mut defl: Vec<(String, Dec)> = ds[..k]
                    .iter()
                    .map(|d| {
                        let u = units[d].0;
                        let t = match rng.below(6) {
                            0 => 0,
                            1 => u,
                            2 => u.saturating_sub(rng.range128(1, 50)),
                            3 => muldiv(u, 99, 100),
                            _ => rng.range128(0, u),
                        };
                        (d.clone(), Dec(t))
                    })
                    .collect();
                let mut others: Vec<String> = self.denoms.iter().filter(|d| !ds[..k].contains(d)).cloned().collect();
                rng.shuffle(&mut others);
                if self.g.fine && rng.chance(3, 4) {
                    // assets that one unit of the reserve can buy (the price condition of C11)
                    let can = |d: &String| *d == sn.reserve_denom || self.route(d, false, 0).is_some_and(|r| quote_in(&self.node.chain.pools, &r, &sn.reserve_denom, 1).is_some());
                    let v: Vec<String> = others.iter().filter(|d| can(d)).cloned().collect();
                    if !v.is_empty() {
                        others = v;
                    }
                }
                let k2 = rng.range(1, 3).min(others.len() as u64) as usize;
                let mut infl: Vec<(String, Dec)> = others[..k2]
                    .iter()
                    .map(|d| (d.clone(), Dec(match rng.below(4) { 0 => ONE, 1 => rng.range128(1, 9) * ONE, 2 => ONE / 3, _ => rng.range128(ONE / 100, 100 * ONE) })))
                    .collect();
                if wrong {
                    match rng.below(8) {
                        7 => {
                            let all = rng.chance(1, 2);
                            for (i, x) in infl.iter_mut().enumerate() {
                                if all || i == 0 {
                                    x.1 = Dec(0);
                                }
                            }
                        }
                        0 => defl.clear(),
                        1 => infl.clear(),
                        2 if !defl.is_empty() => {
                            let x = defl[0].clone();
                            defl.push(x);
                        }
                        3 if !infl.is_empty() => {
                            let x = infl[0].clone();
                            infl.push(x);
                        }
                        4 if !defl.is_empty() && !infl.is_empty() => {
                            let d = rng.pick(&defl).0.clone();
                            if rng.chance(1, 2) {
                                infl.push((d, Dec(ONE)));
                            } else {
                                let i = rng.below(infl.len() as u64) as usize;
                                infl[i].0 = d;
                            }
                        }
                        5 if !defl.is_empty() => defl[0].1 = Dec(defl[0].1 .0 + units[&defl[0].0].0 + 1),
                        _ => defl.push(("unotheld".into(), Dec(0))),
                    }
                }
                let m = match rng.below(4) {
                    0 => Value::Null,
                    _ if rng.chance(1, 10) => json!(officer(rng)),
                    _ => json!(*rng.pick(&MGRS)),
                };
                let l = |v: &Vec<(String, Dec)>| -> Vec<Value> { v.iter().map(|(d, u)| json!([d, u.to_string()])).collect() };
                Some(tx(&gov(rng), json!({"rebalance": {"init": {"manager": m, "deflation": l(&defl), "inflation": l(&infl)}}}), vec![]))
            }
            "deflate" => {
                let mgr = self.mgr(rng, sn, wrong);
                let r = sn.reb.as_ref();
                let mut cand: Vec<String> = r.map(|r| r.deflation.iter().map(|x| x.0.clone()).collect()).unwrap_or_default();
                if wrong || cand.is_empty() {
                    cand.extend(self.denoms.iter().cloned());
                }
                let d = rng.pick(&cand).clone();
                let tgt = r.and_then(|r| r.deflation.iter().find(|x| x.0 == d)).map(|x| x.1 .0).unwrap_or(0);
                let gap = Dec(sn.units.get(&d).copied().unwrap_or_default().0.saturating_sub(tgt)).of(sn.supply);
                let ti = sn.trades.get(&(d.clone(), sn.reserve_denom.clone())).cloned();
                let mut out = rng.log_range(1, sn.supply.max(100));
                let mut maxin = 1u128 << 100;
                if let Some(ti) = &ti {
                    let big = self.largest_deflate(ti, &sn.reserve_denom, gap);
                    out = match rng.below(8) {
                        _ if ti.max == 0 => rng.range128(0, gap.saturating_add(1)),
                        0 => big.saturating_add(1),
                        1 | 2 => big.max(1),
                        3 => ti.max.max(1),
                        4 => ti.max.saturating_add(1),
                        5 => rng.log_range(1, big.max(1)),
                        _ => rng.range128(1, big.max(1)),
                    };
                    if let Some(q) = quote_out(&self.node.chain.pools, &ti.routes, &sn.reserve_denom, out) {
                        maxin = match rng.below(5) {
                            0 => q,
                            1 => q.saturating_sub(1),
                            2 => q + q / 50,
                            _ => 1u128 << 100,
                        };
                    }
                }
                if wrong && rng.chance(1, 8) {
                    out = 0;
                }
                Some(tx(&mgr, json!({"rebalance": {"trade": {"deflate": {"target_denom": d, "amount_out": out.to_string(), "max_amount_in": maxin.to_string()}}}}), vec![]))
            }
            "inflate" => {
                let mgr = self.mgr(rng, sn, wrong);
                let mut cand: Vec<String> = sn.reserve.as_ref().map(|r| r.keys().cloned().collect()).unwrap_or_default();
                if wrong || cand.is_empty() {
                    cand.extend(self.denoms.iter().cloned());
                }
                let d = rng.pick(&cand).clone();
                let avail = sn.reserve.as_ref().and_then(|r| r.get(&d)).copied().unwrap_or_default().of(sn.supply);
                let ti = sn.trades.get(&(sn.reserve_denom.clone(), d.clone())).cloned();
                let mut inn = rng.log_range(1, sn.supply.max(100));
                let mut minout = 1;
                if let Some(ti) = &ti {
                    let big = avail.min(ti.max);
                    inn = match rng.below(8) {
                        _ if ti.max == 0 => rng.range128(0, avail.saturating_add(1)),
                        0 => big.saturating_add(1),
                        1 | 2 => big.max(1),
                        3 => ti.max.max(1),
                        4 => ti.max.saturating_add(1),
                        5 => avail.saturating_add(1),
                        _ => rng.range128(1, big.max(1)),
                    };
                    if let Some(q) = quote_in(&self.node.chain.pools, &ti.routes, &sn.reserve_denom, inn) {
                        minout = match rng.below(5) {
                            0 => q,
                            1 => q + 1,
                            2 => q - q / 50,
                            _ => 1,
                        };
                    }
                }
                Some(tx(&mgr, json!({"rebalance": {"trade": {"inflate": {"target_denom": d, "amount_in": inn.to_string(), "min_amount_out": minout.to_string()}}}}), vec![]))
            }
            "finalize" => {
                let mgr = self.mgr(rng, sn, wrong);
                Some(tx(&mgr, json!({"rebalance": {"finalize": {}}}), vec![]))
            }
            "migrate" => Some(Tx {
                sender: "admin".into(),
                to: CORE.into(),
                msg: json!({"force": match rng.below(4) { 0 => json!(true), 1 => json!(false), _ => Value::Null }}),
                funds: vec![],
                op: Some("migrate".into()),
            }),
            _ => {
                let _ = cx;
                None
            }
        }
    }

    fn mgr(&self, rng: &mut Rng, sn: &Snap, wrong: bool) -> String {
        let m = sn.reb.as_ref().and_then(|r| r.manager.clone());
        if wrong && rng.chance(1, 2) {
            return rng.pick(&["mgr0", "mgr1", "gov0", "gov1", "stranger", "alice"]).to_string();
        }
        m.unwrap_or_else(|| rng.pick(&["mgr0", "stranger", "alice"]).to_string())
    }

    pub fn gen_fault(&mut self, rng: &mut Rng, t: &Tx) -> Fault {
        let mut f = Fault::default();
        let k = kind_of(t);
        if (k == "deflate" || k == "inflate") && rng.chance(1, 3) {
            if rng.chance(1, 2) {
                f.quote_skew = *rng.pick(&[-1i64, 1, -20, 20, 3]);
            } else {
                f.exec_worse = *rng.pick(&[1u64, 1, 5, 1000]);
            }
            return f;
        }
        let o = self.node.chain.clone().exec(t, &f);
        let mut opts = vec![];
        if o.storage_ops > 0 {
            opts.push(0);
        }
        if o.queries > 0 {
            opts.push(1);
        }
        if o.msgs > 0 {
            opts.push(2);
            opts.push(2);
        }
        if opts.is_empty() {
            return f;
        }
        match *rng.pick(&opts) {
            0 => f.oog_at = Some(rng.below(o.storage_ops)),
            1 => f.fail_query_at = Some(rng.below(o.queries)),
            _ => f.fail_msg_at = Some(rng.below(o.msgs)),
        }
        f
    }

    fn safe_dt(&self, sn: &Snap, dt_ms: u64) -> u64 {
        if let Some(st) = &sn.fee.stream {
            // keep the accrued rate well below one (known finding: it refuses everything beyond)
            let cap_s = (ONE / 2 / st.rate.0.max(1)) as u64;
            let used = self.node.chain.now().saturating_sub(st.last);
            let left = cap_s.saturating_sub(used);
            return dt_ms.min(left.saturating_mul(1000)).max(1);
        }
        dt_ms
    }
}

/// largest x <= hi satisfying ok (monotone), 0 if none
pub fn search(hi: u128, ok: impl Fn(u128) -> bool) -> u128 {
    if hi == 0 {
        return 0;
    }
    // the smallest amounts may be below the exchange's resolution
    let Some(mut lo) = (0..=127u32).map(|k| 1u128 << k).take_while(|x| *x <= hi).find(|x| ok(*x)) else { return 0 };
    let mut step = 1u128;
    while lo < hi && ok((lo.saturating_add(step)).min(hi)) {
        lo = lo.saturating_add(step).min(hi);
        step = step.saturating_mul(2);
    }
    let mut h = lo.saturating_add(step).min(hi);
    while lo < h {
        let m = lo + (h - lo).div_ceil(2);
        if ok(m) {
            lo = m;
        } else {
            h = m - 1;
        }
    }
    lo
}

impl World for VaultWorld {
    fn node(&self) -> &Node {
        &self.node
    }
    fn gen(&mut self, rng: &mut Rng, cx: &mut Cx) -> Step {
        self.g.n += 1;
        let Some(sn) = self.pre(cx) else { return Step::Block { dt_ms: 1000 } };
        // retry of a transaction that hit a fault
        if let Some(t) = self.g.retry.take() {
            return Step::Tx { tx: t, fault: Fault::default(), tag: "retry".into() };
        }
        // delayed and duplicated transactions arrive, in any order
        let due: Vec<usize> = self.g.mempool.iter().enumerate().filter(|(_, m)| m.0 <= self.g.n).map(|(i, _)| i).collect();
        if !due.is_empty() && rng.chance(1, 2) {
            let (_, t, tag) = self.g.mempool.remove(*rng.pick(&due));
            return Step::Tx { tx: t, fault: Fault::default(), tag: tag.into() };
        }
        for _ in 0..20 {
            let keys: Vec<String> = self.g.w.keys().cloned().collect();
            let mut ws: Vec<u64> = self.g.w.values().copied().collect();
            for (i, k) in keys.iter().enumerate() {
                // trades only make sense while rebalancing; mints mostly before
                match (k.as_str(), sn.reb.is_some()) {
                    ("deflate" | "inflate" | "finalize", false) => ws[i] /= 8,
                    ("init" | "reserve" | "fee", true) => ws[i] /= 4,
                    ("mint" | "burn", true) => ws[i] /= 3,
                    ("recover", true) => ws[i] *= 3,
                    _ => {}
                }
            }
            let op = keys[rng.weighted(&ws)].clone();
            match op.as_str() {
                "block" => {
                    let now_ms = self.node.chain.time_ns / 1_000_000;
                    let to = |t: u64, cur: u64| (t * 1000).saturating_sub(cur).max(1);
                    let mut dt = match rng.below(10) {
                        0..=3 => rng.range(1, 6500),
                        4 => rng.range(1, 400),
                        5 => 1000 * rng.range(1, 7200),
                        6 if rng.chance(1, 6) => 1000 * rng.range(86400 * 200, 86400 * 1500),
                        6 => 1000 * rng.range(3600, 86400 * 14),
                        7 => {
                            // exactly to (or one second short of) a cooldown or expiry
                            let mut ts: Vec<u64> = sn.trades.values().filter_map(|t| t.last.map(|l| l + t.cooldown)).collect();
                            ts.extend(sn.expires);
                            ts.retain(|t| *t > self.node.chain.now() && *t < self.node.chain.now() + 20_000_000);
                            if ts.is_empty() {
                                5000
                            } else {
                                let t = *rng.pick(&ts) - rng.below(2);
                                to(t, now_ms)
                            }
                        }
                        8 => {
                            if let Some(e) = sn.expires {
                                to(e - rng.below(2).min(e), now_ms)
                            } else {
                                1000
                            }
                        }
                        _ => 1000,
                    };
                    dt = self.safe_dt(&sn, dt);
                    if dt > 86_400_000 {
                        cx.count("fault/clock_jump");
                    }
                    return Step::Block { dt_ms: dt };
                }
                "crash" => return Step::Crash,
                "donate" => {
                    let d = if rng.chance(1, 6) { sn.index_denom.clone() } else { rng.pick(&self.denoms).clone() };
                    if d == sn.index_denom {
                        continue;
                    }
                    return Step::Donate { to: CORE.into(), denom: d, amount: rng.log_range(1, 1 << 50) };
                }
                "poolmove" => {
                    let ids: Vec<u64> = self.node.chain.pools.keys().copied().collect();
                    if ids.is_empty() {
                        continue;
                    }
                    let p = self.node.chain.pools[rng.pick(&ids)].clone();
                    let (i, j) = if rng.chance(1, 2) { (0, 1) } else { (1, 0) };
                    return Step::PoolMove { pool: p.id, denom_in: p.assets[i].denom.clone(), amount: rng.log_range(1, p.assets[i].bal / 4 + 1), denom_out: p.assets[j].denom.clone() };
                }
                "halt" => {
                    if let Some(h) = self.node.halted.iter().next().copied() {
                        return Step::PoolHeal { pool: h };
                    }
                    let ids: Vec<u64> = self.node.chain.pools.keys().copied().collect();
                    if ids.is_empty() {
                        continue;
                    }
                    return Step::PoolHalt { pool: *rng.pick(&ids) };
                }
                "migrate" if rng.chance(2, 3) => {
                    let v = rng.pick(&["0.0.9", "0.1.1", "0.1.2", "0.1.3", "0.1.10", "0.2.0", "1.0.0", "0.1.2-rc.1", "0.1.2-alpha", "0.1.2+b5", "0.0.10", "0.1.1-rc.9", "0.1", "v0.1.1", "", "0.1.3-alpha", "00.1.1", "0.0.99", "0.1.2-0"]).to_string();
                    let c = match rng.below(4) {
                        0 => Some(rng.pick(&["crates.io:other", "crates.io:ibcx-periphery", "crates.io:ibcx-airdrop", "crates.io:ibcx-cor"]).to_string()),
                        _ => Some(self.inst_version.0.clone()),
                    };
                    let mig = self.gen_tx(rng, "migrate", &sn, cx).unwrap();
                    self.g.mempool.push((self.g.n + 1 + rng.below(3), mig, "late"));
                    return Step::SetVersion { to: CORE.into(), contract: c, version: v };
                }
                "tryinst" => {
                    let mut f = if rng.chance(1, 2) { edge_fee(rng) } else { fee_payload(rng) };
                    let mut units: Vec<Value> = self.denoms.iter().take(rng.range(0, 4) as usize).map(|d| json!([d, Dec(rng.clone().log_range(1, 100 * ONE)).to_string()])).collect();
                    if rng.chance(1, 4) && !units.is_empty() {
                        let mut u = units[rng.below(units.len() as u64) as usize].clone();
                        match rng.below(5) {
                            0 | 1 => u[1] = json!("0.25"),
                            2 => u[1] = json!("0"),
                            3 => u[1] = json!("0.000000000000000001"),
                            _ => {}
                        }
                        units.insert(rng.below(units.len() as u64 + 1) as usize, u);
                    }
                    for u in units.iter_mut() {
                        if rng.chance(1, 12) {
                            u[1] = json!("0");
                        }
                    }
                    if rng.chance(1, 15) {
                        f["collector"] = json!("UP");
                    }
                    let gov = if rng.chance(1, 15) { "G G" } else { "gov0" };
                    return Step::TryInst { msg: json!({"gov": gov, "fee": f, "index_denom": "idx2", "index_units": units, "reserve_denom": self.denoms[0]}) };
                }
                "probe" => return self.gen_probe(rng, &sn),
                "recover" => {
                    if sn.reb.is_none() || self.node.chain.txs_in_block > 1000 {
                        continue;
                    }
                    return Step::Recover;
                }
                o => {
                    let Some(t) = self.gen_tx(rng, o, &sn, cx) else { continue };
                    // the network
                    let r = rng.below(100);
                    if r < 5 {
                        cx.count("fault/message_lost");
                        continue;
                    }
                    if r < 13 {
                        cx.count("fault/message_delayed");
                        self.g.mempool.push((self.g.n + rng.range(1, 12), t, "late"));
                        continue;
                    }
                    if r < 18 {
                        cx.count("fault/message_duplicated");
                        self.g.mempool.push((self.g.n + rng.range(1, 6), t.clone(), "dup"));
                    }
                    let mut fault = Fault::default();
                    if rng.below(100) < self.g.fault_pct {
                        fault = self.gen_fault(rng, &t);
                        if fault.hard() && rng.chance(2, 3) {
                            self.g.retry = Some(t.clone());
                        }
                    }
                    return Step::Tx { tx: t, fault, tag: "fresh".into() };
                }
            }
        }
        Step::Block { dt_ms: 1000 }
    }

    fn apply(&mut self, st: &Step, cx: &mut Cx) {
        if self.dead {
            return;
        }
        match st {
            Step::Block { dt_ms } => {
                self.node.block(*dt_ms, cx);
                self.cur = None;
            }
            Step::Tx { tx, fault, tag } => {
                if tx.to == CORE {
                    self.do_tx(tx, fault, tag, cx);
                }
            }
            Step::Crash => {
                self.node.crash(cx);
                self.cur = None;
            }
            Step::Donate { to, denom, amount } => {
                self.node.env(st, cx);
                cx.count("donations");
                if to == CORE {
                    *self.don.entry(denom.clone()).or_default() += amount;
                }
                self.cur = None;
                if let Some(sn) = self.pre(cx) {
                    self.cover = self.cover_of(&sn);
                }
            }
            Step::TryInst { msg } => self.try_inst(msg, cx),
            Step::Probe { kind, args } => self.probe(kind, args, cx),
            Step::Recover => self.recover(cx),
            other => {
                self.node.env(other, cx);
                self.cur = None;
            }
        }
    }

    fn finish(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        // once faults stop, a running rebalance can be completed
        if cx.focus == "C11" {
            self.recover(cx);
        }
    }
}

impl VaultWorld {
    fn gen_probe(&mut self, rng: &mut Rng, sn: &Snap) -> Step {
        let dt = match rng.below(5) {
            0 | 1 => 0,
            2 => rng.range(1, 10),
            _ => rng.range(1, 2_000_000),
        };
        let dt = self.safe_dt(sn, dt * 1000) / 1000;
        let n = match rng.below(4) {
            0 => rng.range128(1, 10),
            1 => rng.log_range(1, 2000),
            _ => rng.log_range(1, sn.supply.max(1000)),
        };
        match rng.below(6) {
            0 => Step::Probe { kind: "queries".into(), args: json!({"dt": dt}) },
            1 => Step::Probe { kind: "paging".into(), args: json!({"limit": *rng.pick(&[1u64, 2, 3, 7, 10, 29, 30])}) },
            2 | 3 => {
                let mode = *rng.pick(&["none", "exact", "surplus", "short", "missing", "extra"]);
                Step::Probe { kind: "sim_mint".into(), args: json!({"dt": dt, "n": n.to_string(), "mode": mode, "k": rng.below(1000)}) }
            }
            _ => Step::Probe { kind: "sim_burn".into(), args: json!({"dt": dt, "n": n.min(sn.supply.max(1)).to_string()}) },
        }
    }

    fn try_inst(&mut self, msg: &Value, cx: &mut Cx) {
        let mut c = self.node.chain.clone();
        let t = Tx { sender: "deployer".into(), to: "coretwo".into(), msg: msg.clone(), funds: vec![], op: Some("instantiate:Core".into()) };
        let out = c.exec(&t, &Fault::default());
        let mut why = vec![];
        let fs = fee_payload_ok(&msg["fee"]);
        if fs != 0 {
            why.push("fee out of bounds");
        }
        let ul = unit_list(&msg["index_units"]);
        let set: BTreeSet<_> = ul.iter().map(|x| x.0.clone()).collect();
        if set.len() != ul.len() {
            why.push("duplicate asset");
        }
        if !valid_addr(&s(&msg["gov"])) || !valid_addr(&s(&msg["fee"]["collector"])) {
            why.push("invalid address");
        }
        cx.eval("C14", &format!("inst/{:?}/{}/{}", why, fee_sig(&msg["fee"]), ul.len()));
        cx.count(&format!("op/instantiate/{}", if out.ok { "ok" } else { "refused" }));
        if out.ok != why.is_empty() {
            cx.viol(&["C14"], format!("instantiate:{}", out.ok), format!("instantiation {msg}: accepted={} but {:?}; {}", out.ok, why, out.err));
        } else if out.ok {
            match snap(&c, "coretwo", &self.list_denoms) {
                Ok(sn) => self.check_inst(msg, &sn, "coretwo", cx),
                Err(e) => cx.viol(&["C14"], "instantiate_state", format!("fresh vault cannot be queried: {e}")),
            }
        }
    }

    fn fork(&self, dt: u64) -> Chain {
        let mut c = self.node.chain.clone();
        c.time_ns += dt * 1_000_000_000;
        c
    }

    fn probe(&mut self, kind: &str, args: &Value, cx: &mut Cx) {
        let Some(sn) = self.pre(cx) else { return };
        cx.count(&format!("probe/{kind}"));
        let c = &self.node.chain;
        let d0 = c.digest();
        let dt = args["dt"].as_u64().unwrap_or(0);
        let t = c.now() + dt;
        // the accrual formula is defined only below one
        if let Some(st) = &sn.fee.stream {
            if !st.freeze {
                let p = pow_minus_one_36(st.rate, t.saturating_sub(st.last));
                if p.is_none_or(|p| Dec(to128(p / cosmwasm_std::Uint512::from(ONE))).0 > 999 * (ONE / 1000)) {
                    return;
                }
            }
        }
        let mut bad: Vec<(String, String)> = vec![];
        let tq = if dt == 0 { Value::Null } else { json!(t) };
        match kind {
            "queries" => {
                let f = self.fork(dt);
                cx.eval("C12", &format!("queries/{}/{}/{}/{}", dt > 0, sn.paused, sn.reb.is_some(), sn.fee.stream.as_ref().map(|s| s.freeze as u8).unwrap_or(9)));
                match asked(c, CORE, &self.list_denoms) {
                    Ok(a) => bad.extend(answers(&a, &sn)),
                    Err(e) => bad.push(("observe".into(), e)),
                }
                for k in ["get_config", "get_fee", "get_portfolio"] {
                    let a = c.query(CORE, &json!({k: {"time": tq}}));
                    let b = f.query(CORE, &json!({k: {"time": null}}));
                    let e = c.query(CORE, &json!({k: {"time": t}}));
                    if a != b || a != e || a.is_err() {
                        bad.push((k.into(), format!("{k} for {t}: {a:?} / {e:?} but at that time {b:?}")));
                    }
                }
                // what an operation at that time acts on
                let mut g = f.clone();
                let o = g.exec(&tx(&sn.fee.collector, json!({"realize": {}}), vec![]), &Fault::default());
                let (p, fe) = (f.query(CORE, &json!({"get_portfolio": {"time": null}})), f.query(CORE, &json!({"get_fee": {"time": null}})));
                if let (true, Ok(p), Ok(fe)) = (o.ok, p, fe) {
                    match snap(&g, CORE, &[]) {
                        Ok(after) => {
                            if unit_map(&p["units"]) != after.units {
                                bad.push(("units".into(), format!("portfolio units {:?}, acted on {:?}", p["units"], after.units)));
                            }
                            if n128(&p["total_supply"]) != after.supply {
                                bad.push(("supply".into(), "portfolio supply differs".into()));
                            }
                            let assets = coins(&p["assets"]);
                            for (d, u) in &after.units {
                                if assets.get(d).copied().unwrap_or(0) != u.of(after.supply) {
                                    bad.push(("assets".into(), format!("portfolio asset {d}")));
                                }
                            }
                            let q = fee_of(&fe);
                            let paid: BTreeMap<String, u128> = self
                                .denoms
                                .iter()
                                .map(|d| (d.clone(), bal(&f.bank, CORE, d).saturating_sub(bal(&g.bank, CORE, d))))
                                .filter(|x| x.1 > 0)
                                .collect();
                            if let (Some(a), Some(b)) = (&q.stream, &after.fee.stream) {
                                if a.collected != paid {
                                    bad.push(("owed".into(), format!("fee query says {:?} is owed, payout paid {:?}", a.collected, paid)));
                                }
                                if a.rate != b.rate || a.freeze != b.freeze || (!a.freeze && a.last != b.last) {
                                    bad.push(("stream".into(), format!("fee query {:?}, state {:?}", a, b)));
                                }
                            }
                            if q.mint != after.fee.mint || q.burn != after.fee.burn || q.collector != after.fee.collector {
                                bad.push(("fee".into(), "fee query differs from the fee in force".into()));
                            }
                        }
                        Err(e) => bad.push(("observe".into(), e)),
                    }
                }
                // the pause as it acts: minting is refused because of it exactly when reported
                if let Ok(cf) = f.query(CORE, &json!({"get_config": {"time": null}})) {
                    let mut g = f.clone();
                    let rel = g.exec(&tx(&sn.gov, json!({"gov": {"release": {}}}), vec![]), &Fault::default());
                    if rel.ok != cf["paused"]["paused"].as_bool().unwrap_or(false) {
                        bad.push(("paused".into(), format!("config reports {} but releasing {}", cf["paused"], if rel.ok { "succeeds" } else { "fails" })));
                    }
                }
                for a in ["alice", "bob", "coll0", "core", "nobody"] {
                    match c.query(CORE, &json!({"get_balance": {"account": a}})) {
                        Ok(v) if n128(&v) == bal(&sn.bank, a, &sn.index_denom) => {}
                        r => bad.push(("balance".into(), format!("balance of {a}: {r:?}"))),
                    }
                }
                for ((i, o), tr) in &sn.trades {
                    match c.query(CORE, &json!({"get_trade_info": {"denom_in": i, "denom_out": o}})) {
                        Ok(v) if v["trade_info"].is_object() && trade_of(&v["trade_info"]) == ((i.clone(), o.clone()), tr.clone()) => {}
                        r => bad.push(("trade_info".into(), format!("trade settings {i}/{o}: {r:?}"))),
                    }
                }
                let mut unset: Vec<(String, String)> = vec![("nope".into(), "nada".into())];
                for i in &self.list_denoms {
                    for o in &self.list_denoms {
                        if !sn.trades.contains_key(&(i.clone(), o.clone())) {
                            unset.push((i.clone(), o.clone()));
                        }
                    }
                }
                for (i, o) in unset {
                    match c.query(CORE, &json!({"get_trade_info": {"denom_in": i, "denom_out": o}})) {
                        Ok(v) if v["trade_info"].is_null() => {}
                        r => bad.push(("trade_info".into(), format!("unset trade settings {i}/{o}: {r:?}"))),
                    }
                }
            }
            "paging" => {
                let lim = args["limit"].as_u64().unwrap_or(10);
                let mut ins: BTreeSet<String> = sn.trades.keys().map(|k| k.0.clone()).collect();
                ins.insert(sn.reserve_denom.clone());
                for d in ins {
                    let want: Vec<_> = sn.trades.iter().filter(|(k, _)| k.0 == d).map(|(k, v)| (k.clone(), v.clone())).collect();
                    cx.eval("C12", &format!("paging/{lim}/{}", want.len()));
                    let a = list_trades(c, CORE, &d, lim, "asc");
                    if a.as_ref().ok() != Some(&want) {
                        bad.push(("paging".into(), format!("listing {d} by {lim}: {a:?}, expected {want:?}")));
                    }
                    let mut r = want.clone();
                    r.reverse();
                    let a = list_trades(c, CORE, &d, lim, "desc");
                    if a.as_ref().ok() != Some(&r) {
                        bad.push(("paging_desc".into(), format!("listing {d} by {lim} descending: {a:?}, expected {r:?}")));
                    }
                    let def = c.query(CORE, &json!({"list_trade_info": {"denom_in": d}}));
                    match def {
                        Ok(v) if v.as_array().map(|x| x.iter().map(trade_of).collect::<Vec<_>>()) == Some(want.iter().take(10).cloned().collect()) => {}
                        r => bad.push(("paging_default".into(), format!("default page {r:?}"))),
                    }
                    let over = 31 + (lim % 3) * 40 + if lim == 7 { u32::MAX as u64 - 31 } else { 0 };
                    if let Ok(v) = c.query(CORE, &json!({"list_trade_info": {"denom_in": d, "limit": over.min(u32::MAX as u64)}})) {
                        bad.push(("paging_over".into(), format!("a page of {over} was answered with {v}")));
                    }
                    match c.query(CORE, &json!({"list_trade_info": {"denom_in": d, "limit": 0}})) {
                        Ok(v) if v.as_array().is_some_and(|x| x.is_empty()) => {}
                        r => bad.push(("paging_default".into(), format!("empty page {r:?}"))),
                    }
                }
            }
            "sim_mint" => {
                let n = n128(&args["n"]);
                let mode = s(&args["mode"]);
                let f = self.fork(dt);
                let Ok(p) = f.query(CORE, &json!({"get_portfolio": {"time": null}})) else { return };
                let units = unit_map(&p["units"]);
                let mut fm = required(&units, n);
                let ks: Vec<String> = fm.keys().cloned().collect();
                let k = args["k"].as_u64().unwrap_or(0);
                let pick = |v: &Vec<String>| v[(k as usize) % v.len()].clone();
                match mode.as_str() {
                    "surplus" => {
                        for (i, x) in fm.values_mut().enumerate() {
                            if (k >> i) & 1 == 1 {
                                *x += 1 + k as u128;
                            }
                        }
                    }
                    "short" if !ks.is_empty() => {
                        let x = fm.get_mut(&pick(&ks)).unwrap();
                        *x -= 1;
                    }
                    "missing" if !ks.is_empty() => {
                        fm.remove(&pick(&ks));
                    }
                    "extra" => {
                        fm.insert("uextra".into(), 5);
                    }
                    _ => {}
                }
                let fl: Vec<Value> = fm.iter().filter(|x| *x.1 > 0).map(|(d, n)| json!({"denom": d, "amount": n.to_string()})).collect();
                let fv = if mode == "none" { Value::Null } else { json!(fl) };
                let sim = c.query(CORE, &json!({"simulate_mint": {"amount": n.to_string(), "funds": fv, "time": tq}}));
                let open = !sn.paused && sn.reb.is_none();
                let mut g = f.clone();
                g.faucet("prober", "uextra", 5);
                for d in &self.denoms {
                    g.faucet("prober", d, 1 << 105);
                }
                let before = g.bank.clone();
                let mut r = 0;
                if open {
                    let o = g.exec(&tx("prober", json!({"mint": {"amount": n.to_string(), "refund_to": "refundee", "receiver": "receiver"}}), funds_of(fm.clone())), &Fault::default());
                    let fee_all = sn.fee.mint.map(|f| f.of(n).max(1)).unwrap_or(0) >= n;
                    r = 1 + o.ok as u8;
                    match (&sim, o.ok) {
                        (Ok(v), true) => {
                            let got = bal(&g.bank, "receiver", &sn.index_denom);
                            if n128(&v["mint_amount"]) != got {
                                bad.push(("mint_amount".into(), format!("simulation says {} index tokens, minting {n} delivered {got}", v["mint_amount"])));
                            }
                            let refunds: BTreeMap<String, u128> = g.bank.get("refundee").cloned().unwrap_or_default();
                            if coins(&v["refund_amount"]) != refunds {
                                bad.push(("refund_amount".into(), format!("simulation refunds {}, minting {n} refunded {refunds:?}", v["refund_amount"])));
                            }
                            let spent: BTreeMap<String, u128> = ks
                                .iter()
                                .map(|d| (d.clone(), bal(&before, "prober", d) - bal(&g.bank, "prober", d) - refunds.get(d).copied().unwrap_or(0)))
                                .filter(|x| x.1 > 0)
                                .collect();
                            if coins(&v["fund_spent"]) != spent {
                                bad.push(("fund_spent".into(), format!("simulation charges {}, minting {n} charged {spent:?}", v["fund_spent"])));
                            }
                        }
                        (Err(e), true) => bad.push(("sim_fails".into(), format!("simulating a mint of {n} ({mode}) fails: {e}; minting succeeds"))),
                        (Ok(v), false) if !fee_all => bad.push(("exec_fails".into(), format!("simulating a mint of {n} ({mode}) gives {v}; minting fails: {}", o.err))),
                        _ => {}
                    }
                } else if let Ok(v) = &sim {
                    let fee = sn.fee.mint.map(|f| f.of(n).max(1)).unwrap_or(0);
                    if n128(&v["mint_amount"]) != n.saturating_sub(fee) || coins(&v["fund_spent"]) != required(&units, n) {
                        bad.push(("closed_sim".into(), format!("simulated mint of {n}: {v}")));
                    }
                }
                cx.eval("C12", &format!("sim_mint/{mode}/{r}/{}/{}/{}", sn.fee.mint.is_some(), dt > 0, n < 10));
            }
            "sim_burn" => {
                let n = n128(&args["n"]);
                let sim = c.query(CORE, &json!({"simulate_burn": {"amount": n.to_string(), "time": tq}}));
                let open = !sn.paused && sn.reb.is_none();
                let mut g = self.fork(dt);
                let mut r = 0;
                // index tokens for the prober: from whoever holds enough
                let holder = g.bank.iter().find(|(a, m)| a.as_str() != CORE && m.get(&sn.index_denom).copied().unwrap_or(0) >= n).map(|x| x.0.clone());
                if let (true, Some(h)) = (open, holder) {
                    let _ = g.transfer(&h, "prober", &sn.index_denom, n);
                    let o = g.exec(&tx("prober", json!({"burn": {"redeem_to": "redeemer"}}), vec![(sn.index_denom.clone(), n)]), &Fault::default());
                    r = 1 + o.ok as u8;
                    match (&sim, o.ok) {
                        (Ok(v), true) => {
                            let got: BTreeMap<String, u128> = g.bank.get("redeemer").cloned().unwrap_or_default();
                            let want: BTreeMap<String, u128> = coins(&v["redeem_amount"]).into_iter().filter(|x| x.1 > 0).collect();
                            if want != got {
                                bad.push(("redeem_amount".into(), format!("simulation redeems {want:?}, burning {n} redeemed {got:?}")));
                            }
                            let burnt = sn.chain_supply - g.supply.get(&sn.index_denom).copied().unwrap_or(0);
                            if n128(&v["burn_amount"]) != burnt {
                                bad.push(("burn_amount".into(), format!("simulation burns {}, burning {n} burnt {burnt}", v["burn_amount"])));
                            }
                        }
                        (Err(e), true) => bad.push(("sim_fails".into(), format!("simulating a burn of {n} fails: {e}; burning succeeds"))),
                        // (mints round down: the last burner may find a base unit less than owed, C01)
                        (Ok(v), false) if coins(&v["redeem_amount"]).iter().any(|x| *x.1 > 0) && coins(&v["redeem_amount"]).iter().all(|(d, x)| g.bal(CORE, d) >= *x) => {
                            bad.push(("exec_fails".into(), format!("simulating a burn of {n} gives {v}; burning fails: {}", o.err)))
                        }
                        _ => {}
                    }
                }
                cx.eval("C12", &format!("sim_burn/{r}/{}/{}/{}", sn.fee.burn.is_some(), dt > 0, n < 10));
            }
            _ => {}
        }
        if self.node.chain.digest() != d0 {
            bad.push(("mutates".into(), "a query changed the state".into()));
        }
        for (k, m) in bad {
            cx.viol(&["C12"], format!("{kind}:{k}"), m);
        }
    }

    /// Faults stop: the manager keeps submitting the largest admissible trade until the rebalance
    /// finalizes; then the vault is open again.
    /// Mints round down, so the last trade of an asset may be short of a few base units: the
    /// operator sends them to the vault.
    fn cover_dust(&mut self, sn: &Snap, d: &str, need: u128, cx: &mut Cx) {
        let have = bal(&sn.bank, CORE, d);
        let short = need.saturating_sub(have);
        if short == 0 || short > self.mints as u128 + 1 {
            return;
        }
        self.node.env(&Step::Donate { to: CORE.into(), denom: d.into(), amount: short }, cx);
        cx.count("recover/dust_covered");
        *self.don.entry(d.to_string()).or_default() += short;
        self.cur = None;
        if let Some(sn) = self.pre(cx) {
            self.cover = self.cover_of(&sn);
        }
    }

    fn recover(&mut self, cx: &mut Cx) {
        let Some(sn) = self.pre(cx) else { return };
        if sn.reb.is_none() {
            return;
        }
        let ids: Vec<u64> = self.node.halted.iter().copied().collect();
        for pool in ids {
            self.node.env(&Step::PoolHeal { pool }, cx);
        }
        self.node.block(5000, cx);
        self.cur = None;
        // every asset of the plan has a route
        let Some(mut sn) = self.pre(cx) else { return };
        let reb = sn.reb.clone().unwrap();
        for (list, dir) in [(&reb.deflation, true), (&reb.inflation, false)] {
            for (d, _) in list {
                if *d == sn.reserve_denom {
                    continue;
                }
                let key = if dir { (d.clone(), sn.reserve_denom.clone()) } else { (sn.reserve_denom.clone(), d.clone()) };
                let amount = if dir {
                    sn.units.get(d).copied().unwrap_or_default().of(sn.supply)
                } else {
                    sn.units.get(&sn.reserve_denom).copied().unwrap_or_default().of(sn.supply)
                };
                let fit = sn.trades.get(&key).is_some_and(|t| t.max >= amount / 8 && t.max > 0 && t.cooldown <= 86_400 && route_sound(&self.node.chain, &t.routes, &key, dir));
                if !fit {
                    let Some(r) = self.route(d, dir, 0) else {
                        cx.count("recover/no_route");
                        return;
                    };
                    self.do_tx(&tx(&sn.gov, self.trade_info_msg(d, dir, &r, 7, 1u128 << 100), vec![]), &Fault::default(), "recover", cx);
                }
            }
        }
        let mut trades = 0;
        let mut idle = 0;
        let mut raised: BTreeSet<(String, bool)> = BTreeSet::new();
        loop {
            let nv = cx.viols.len();
            let Some(s2) = self.pre(cx) else { return };
            sn = s2;
            let Some(reb) = sn.reb.clone() else { break };
            let mgr = reb.manager.clone().unwrap_or("bot".into());
            let now = self.node.chain.now();
            let mut acted = false;
            let mut waiting = false;
            let mut excused = vec![];
            let mut open = vec![];
            for (d, t) in &reb.deflation {
                let c = sn.units.get(d).copied().unwrap_or_default();
                let gap = Dec(c.0.saturating_sub(t.0)).of(sn.supply);
                if gap == 0 && (*d != sn.reserve_denom || c.0 <= t.0) {
                    continue;
                }
                open.push(format!("{d} gap {gap}"));
                if *d == sn.reserve_denom {
                    self.do_tx(&deflate_tx(&mgr, d, 0, 0), &Fault::default(), "recover", cx);
                    acted = true;
                    break;
                }
                let Some(ti) = sn.trades.get(&(d.clone(), sn.reserve_denom.clone())) else {
                    excused.push(format!("{d}: no route"));
                    continue;
                };
                if (ti.max < gap / 64 || trades > 40) && raised.insert((d.clone(), true)) {
                    // a limit too small for the job: governance raises it
                    let r = ti.routes.clone();
                    self.do_tx(&tx(&sn.gov, self.trade_info_msg(d, true, &r, 7, 1u128 << 100), vec![]), &Fault::default(), "recover", cx);
                    acted = true;
                    break;
                }
                let out = self.largest_deflate(ti, &sn.reserve_denom, gap);
                if out == 0 {
                    excused.push(format!("{d}: one reserve unit costs more than the gap {gap}"));
                    continue;
                }
                if ti.last.is_some_and(|l| now < l + ti.cooldown) {
                    waiting = true;
                    continue;
                }
                let q = quote_out(&self.node.chain.pools, &ti.routes, &sn.reserve_denom, out).unwrap_or(0);
                self.cover_dust(&sn, d, q, cx);
                if !self.do_tx(&deflate_tx(&mgr, d, out, 1 << 120), &Fault::default(), "recover", cx) {
                    cx.viol(&["C11"], "stuck:refused", format!("the largest admissible trade is refused: {open:?}"));
                }
                acted = true;
                break;
            }
            if !acted {
                for (d, u) in sn.reserve.clone().unwrap_or_default() {
                    let have = u.of(sn.supply);
                    if have == 0 {
                        continue;
                    }
                    open.push(format!("{d} reserve {have}"));
                    let t = if d == sn.reserve_denom {
                        Some((0, 0))
                    } else {
                        match sn.trades.get(&(sn.reserve_denom.clone(), d.clone())) {
                            None => {
                                excused.push(format!("{d}: no route"));
                                None
                            }
                            Some(ti) if (ti.max < have / 8 || trades > 40) && raised.insert((d.clone(), false)) => {
                                let r = ti.routes.clone();
                                self.do_tx(&tx(&sn.gov, self.trade_info_msg(&d, false, &r, 7, 1u128 << 100), vec![]), &Fault::default(), "recover", cx);
                                acted = true;
                                break;
                            }
                            Some(ti) => {
                                let m = have.min(ti.max);
                                let q = quote_in(&self.node.chain.pools, &ti.routes, &sn.reserve_denom, m);
                                if q.is_none() {
                                    excused.push(format!("{d}: selling {m} buys nothing"));
                                    None
                                } else if ti.last.is_some_and(|l| now < l + ti.cooldown) {
                                    waiting = true;
                                    None
                                } else {
                                    Some((m, 1))
                                }
                            }
                        }
                    };
                    if let Some((a, m)) = t {
                        let rd = sn.reserve_denom.clone();
                        self.cover_dust(&sn, &rd, a, cx);
                        let ok = self.do_tx(
                            &tx(&mgr, json!({"rebalance": {"trade": {"inflate": {"target_denom": d, "amount_in": a.to_string(), "min_amount_out": m.to_string()}}}}), vec![]),
                            &Fault::default(),
                            "recover",
                            cx,
                        );
                        if !ok {
                            cx.viol(&["C11"], "stuck:refused", format!("the largest admissible trade is refused: {open:?}"));
                        }
                        acted = true;
                        break;
                    }
                }
            }
            if cx.viols.len() > nv {
                if acted {
                    cx.viol(&["C11"], "stuck:trade", "the recovery trade went wrong");
                }
                return;
            }
            if acted {
                trades += 1;
                idle = 0;
                if trades > 150 {
                    cx.count("recover/long");
                    return;
                }
                continue;
            }
            if waiting {
                idle += 1;
                if idle > 150 {
                    cx.viol(&["C11"], "stuck:cooldown", format!("still waiting for a cooldown: {open:?}"));
                    return;
                }
                let next = sn.trades.values().filter_map(|t| t.last.map(|l| l + t.cooldown)).filter(|t| *t > now).min().unwrap_or(now + 1);
                self.node.block((next * 1000).saturating_sub(self.node.chain.time_ns / 1_000_000).max(1), cx);
                self.cur = None;
                continue;
            }
            if !excused.is_empty() {
                // the property's price condition does not hold here
                cx.count("recover/price_condition");
                cx.eval("C11", "excused");
                return;
            }
            // nothing left to trade
            let ok = self.do_tx(&tx(&mgr, json!({"rebalance": {"finalize": {}}}), vec![]), &Fault::default(), "recover", cx);
            cx.eval("C11", &format!("finalize/{ok}/{}/{}/{}", trades.min(6), reb.deflation.len(), reb.inflation.len()));
            if !ok {
                cx.viol(&["C11"], "stuck:finalize", format!("all goals are met but finalizing is refused: {open:?} units {:?} reserve {:?} plan {:?}", sn.units, sn.reserve, reb));
                return;
            }
            cx.count("recover/finalized");
            break;
        }
        // open again
        let Some(sn) = self.pre(cx) else { return };
        if sn.paused {
            self.do_tx(&tx(&sn.gov, json!({"gov": {"release": {}}}), vec![]), &Fault::default(), "recover", cx);
        }
        let Some(sn) = self.pre(cx) else { return };
        let n = 1000 + sn.supply / 3;
        let units = self.units_now(&sn);
        let nv = cx.viols.len();
        if required(&units, n).values().all(|x| *x < 1 << 104) {
            let feeall = sn.fee.mint.map(|f| f.of(n).max(1)).unwrap_or(0) >= n;
            let a = self.do_tx(&tx("bot", json!({"mint": {"amount": n.to_string()}}), funds_of(required(&units, n))), &Fault::default(), "recover", cx);
            if !a && !feeall {
                cx.viol(&["C11"], "stuck:mint", "the vault does not mint after the rebalance");
            }
            if let Some(sn) = self.pre(cx) {
                let h = bal(&sn.bank, "bot", &sn.index_denom);
                if h > 0 {
                    self.do_tx(&tx("bot", json!({"burn": {}}), vec![(sn.index_denom.clone(), h)]), &Fault::default(), "recover", cx);
                }
            }
        }
        if cx.viols.len() > nv {
            cx.viol(&["C11"], "stuck:reopen", "the vault misbehaves after the rebalance");
        }
    }
}

fn deflate_tx(mgr: &str, d: &str, out: u128, maxin: u128) -> Tx {
    tx(mgr, json!({"rebalance": {"trade": {"deflate": {"target_denom": d, "amount_out": out.to_string(), "max_amount_in": maxin.to_string()}}}}), vec![])
}

/// does the route lead from key.0 to key.1
fn route_sound(c: &Chain, r: &[(u64, String)], key: &(String, String), deflate: bool) -> bool {
    if r.is_empty() {
        return false;
    }
    if deflate {
        r[0].1 == key.0 && quote_out(&c.pools, r, &key.1, 1).is_some()
    } else {
        r.last().unwrap().1 == key.1 && quote_in(&c.pools, r, &key.0, 1_000_000).is_some()
    }
}
