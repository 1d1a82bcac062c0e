//! Observation of a vault: everything the oracles compare.
use crate::chain::*;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub type Units = BTreeMap<String, Dec>;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Stream {
    pub rate: Dec,
    pub collected: BTreeMap<String, u128>,
    pub freeze: bool,
    pub last: u64,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct FeeS {
    pub collector: String,
    pub mint: Option<Dec>,
    pub burn: Option<Dec>,
    pub stream: Option<Stream>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Reb {
    pub manager: Option<String>,
    pub deflation: Vec<(String, Dec)>,
    pub inflation: Vec<(String, Dec)>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Trade {
    pub routes: Vec<(u64, String)>,
    pub cooldown: u64,
    pub max: u128,
    pub last: Option<u64>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Snap {
    pub bank: Bank,
    pub chain_supply: u128,
    pub supply: u128,
    pub gov: String,
    pub pending: Option<String>,
    pub paused: bool,
    pub expires: Option<u64>,
    pub index_denom: String,
    pub reserve_denom: String,
    pub fee: FeeS,
    pub units: Units,
    /// None when it cannot be observed
    pub reserve: Option<Units>,
    pub reb: Option<Reb>,
    pub trades: BTreeMap<(String, String), Trade>,
    pub version: Option<(String, String)>,
}

pub fn s(v: &Value) -> String {
    v.as_str().unwrap_or_default().to_string()
}
pub fn os(v: &Value) -> Option<String> {
    v.as_str().map(|x| x.to_string())
}
pub fn n128(v: &Value) -> u128 {
    match v {
        Value::String(x) => x.parse().unwrap_or(0),
        Value::Number(n) => n.as_u64().unwrap_or(0) as u128,
        _ => 0,
    }
}
pub fn dec(v: &Value) -> Option<Dec> {
    v.as_str().and_then(Dec::parse)
}
pub fn coins(v: &Value) -> BTreeMap<String, u128> {
    let mut m = BTreeMap::new();
    for c in v.as_array().into_iter().flatten() {
        *m.entry(s(&c["denom"])).or_default() += n128(&c["amount"]);
    }
    m
}
pub fn unit_list(v: &Value) -> Vec<(String, Dec)> {
    v.as_array().into_iter().flatten().map(|p| (s(&p[0]), dec(&p[1]).unwrap_or_default())).collect()
}
pub fn unit_map(v: &Value) -> Units {
    unit_list(v).into_iter().collect()
}
pub fn fee_of(v: &Value) -> FeeS {
    FeeS {
        collector: s(&v["collector"]),
        mint: dec(&v["mint_fee"]),
        burn: dec(&v["burn_fee"]),
        stream: if v["streaming_fee"].is_object() {
            let f = &v["streaming_fee"];
            Some(Stream {
                rate: dec(&f["rate"]).unwrap_or_default(),
                collected: coins(&f["collected"]).into_iter().filter(|(_, n)| *n > 0).collect(),
                freeze: f["freeze"].as_bool().unwrap_or(false),
                last: f["last_collected_at"].as_u64().unwrap_or(0),
            })
        } else {
            None
        },
    }
}
pub fn routes_of(v: &Value) -> Vec<(u64, String)> {
    v.as_array().into_iter().flatten().map(|r| (r["pool_id"].as_u64().unwrap_or(0), s(&r["token_denom"]))).collect()
}
pub fn trade_of(v: &Value) -> ((String, String), Trade) {
    (
        (s(&v["denom_in"]), s(&v["denom_out"])),
        Trade {
            routes: routes_of(&v["routes"]),
            cooldown: v["cooldown"].as_u64().unwrap_or(0),
            max: n128(&v["max_trade_amount"]),
            last: v["last_traded_at"].as_u64(),
        },
    )
}

fn raw(kv: &crate::store::Kv, key: &str) -> Option<Value> {
    serde_json::from_slice(kv.get(key.as_bytes())?).ok()
}

pub fn list_trades(c: &Chain, core: &str, denom_in: &str, limit: u64, order: &str) -> Result<Vec<((String, String), Trade)>, String> {
    let mut out: Vec<((String, String), Trade)> = vec![];
    let mut after: Option<String> = None;
    for _ in 0..80 {
        let r = c.query(core, &json!({"list_trade_info": {"denom_in": denom_in, "start_after": after, "limit": limit, "order": order}}))?;
        let v: Vec<_> = r.as_array().into_iter().flatten().map(trade_of).collect();
        if v.is_empty() {
            return Ok(out);
        }
        after = v.last().map(|x| x.0 .1.clone());
        let short = (v.len() as u64) < limit;
        out.extend(v);
        if short {
            return Ok(out);
        }
    }
    Err("paging does not end".into())
}

pub fn version_of(c: &Chain, addr: &str) -> Option<(String, String)> {
    let v = raw(&c.contracts.get(addr)?.1, "contract_info")?;
    Some((s(&v["contract"]), s(&v["version"])))
}

fn pause_at(paused: bool, expires: Option<u64>, now: u64) -> (bool, Option<u64>) {
    if paused && expires.is_some_and(|e| e <= now) {
        (false, None)
    } else {
        (paused, expires)
    }
}

/// The trade settings as recorded (a map keyed by two denoms), or None when they are not recorded
/// in that way.
fn raw_trades(kv: &crate::store::Kv) -> Option<BTreeMap<(String, String), Trade>> {
    let ns = b"trade_infos";
    let mut pre = vec![0u8, ns.len() as u8];
    pre.extend_from_slice(ns);
    let mut out = BTreeMap::new();
    for (k, v) in kv.range(pre.clone()..).take_while(|x| x.0.starts_with(&pre)) {
        let k = &k[pre.len()..];
        let n = u16::from_be_bytes([*k.first()?, *k.get(1)?]) as usize;
        let i = String::from_utf8(k.get(2..2 + n)?.to_vec()).ok()?;
        let o = String::from_utf8(k.get(2 + n..)?.to_vec()).ok()?;
        let v: Value = serde_json::from_slice(v).ok()?;
        let mut t = trade_of(&v).1;
        if v["routes"].is_null() {
            return None;
        }
        t.routes = routes_of(&v["routes"]);
        out.insert((i, o), t);
    }
    Some(out)
}

/// Observes the vault. `denoms`: assets whose trade settings are listed. What the contract records
/// is read from its storage where it is recorded in the known form, from its queries otherwise, so
/// that an answer that hides or embellishes a record does not blind the oracles; `answers` compares
/// the two.
pub fn snap(c: &Chain, core: &str, denoms: &[String]) -> Result<Snap, String> {
    let q = |m: Value| c.query(core, &m);
    let kv = &c.contracts.get(core).ok_or("no core")?.1;
    let mut sn = asked(c, core, denoms)?;
    if let Some(v) = raw(kv, "config") {
        if let (Some(g), Some(i), Some(r), Some(p)) = (os(&v["gov"]), os(&v["index_denom"]), os(&v["reserve_denom"]), v["paused"]["paused"].as_bool()) {
            sn.gov = g;
            sn.index_denom = i;
            sn.reserve_denom = r;
            (sn.paused, sn.expires) = pause_at(p, v["paused"]["expires_at"].as_u64(), c.now());
            sn.pending = raw(kv, "pending_gov").and_then(|v| os(&v));
            match raw(kv, "rebalances") {
                None => sn.reb = None,
                Some(r) if r["deflation"].is_array() && r["inflation"].is_array() => {
                    sn.reb = Some(Reb { manager: os(&r["manager"]), deflation: unit_list(&r["deflation"]), inflation: unit_list(&r["inflation"]) });
                }
                Some(_) => {}
            }
            if let Some(t) = raw_trades(kv) {
                sn.trades = t.into_iter().filter(|(k, _)| denoms.contains(&k.0)).collect();
            }
        }
    }
    if let Some(v) = raw(kv, "fee") {
        sn.fee = fee_of(&v);
    }
    if let Some(v) = raw(kv, "total_supply") {
        sn.supply = n128(&v);
    }
    sn.units = match raw(kv, "index_units") {
        Some(v) => unit_map(&v),
        None => unit_map(&q(json!({"get_portfolio": {"time": null}}))?["units"]),
    };
    sn.reserve = match raw(kv, "reserve_units") {
        Some(v) => Some(unit_map(&v).into_iter().filter(|(_, u)| !u.is_zero()).collect()),
        None if sn.reb.is_some() => None,
        None => Some(Units::new()),
    };
    sn.chain_supply = c.supply.get(&sn.index_denom).copied().unwrap_or(0);
    Ok(sn)
}

/// The vault as its queries describe it.
pub fn asked(c: &Chain, core: &str, denoms: &[String]) -> Result<Snap, String> {
    let q = |m: Value| c.query(core, &m);
    let cfg = q(json!({"get_config": {"time": null}}))?;
    let reb = q(json!({"get_rebalance": {}}))?;
    let supply = n128(&q(json!({"get_total_supply": {}}))?);
    let fee = fee_of(&q(json!({"get_fee": {"time": null}}))?);
    let reb = if reb["rebalance"].is_object() {
        let r = &reb["rebalance"];
        Some(Reb { manager: os(&r["manager"]), deflation: unit_list(&r["deflation"]), inflation: unit_list(&r["inflation"]) })
    } else {
        None
    };
    let mut trades = BTreeMap::new();
    for d in denoms {
        trades.extend(list_trades(c, core, d, 30, "asc")?);
    }
    let index_denom = s(&cfg["index_denom"]);
    Ok(Snap {
        bank: c.bank.clone(),
        chain_supply: c.supply.get(&index_denom).copied().unwrap_or(0),
        supply,
        gov: s(&cfg["gov"]),
        pending: os(&cfg["pending_gov"]),
        paused: cfg["paused"]["paused"].as_bool().unwrap_or(false),
        expires: cfg["paused"]["expires_at"].as_u64(),
        index_denom,
        reserve_denom: s(&cfg["reserve_denom"]),
        fee,
        units: Units::new(),
        reserve: None,
        reb,
        trades,
        version: version_of(c, core),
    })
}

/// Where the queries describe something else than what is recorded.
pub fn answers(a: &Snap, sn: &Snap) -> Vec<(String, String)> {
    let mut bad = vec![];
    let mut cmp = |k: &str, a: String, b: String| {
        if a != b {
            bad.push((format!("says_{k}"), format!("the query says {k} {a}, in force is {b}")));
        }
    };
    cmp("governance", a.gov.clone(), sn.gov.clone());
    cmp("nominee", format!("{:?}", a.pending), format!("{:?}", sn.pending));
    cmp("pause", format!("{} {:?}", a.paused, a.expires), format!("{} {:?}", sn.paused, sn.expires));
    cmp("index denom", a.index_denom.clone(), sn.index_denom.clone());
    cmp("reserve denom", a.reserve_denom.clone(), sn.reserve_denom.clone());
    cmp("supply", a.supply.to_string(), sn.supply.to_string());
    cmp("rebalance", format!("{:?}", a.reb), format!("{:?}", sn.reb));
    for (k, t) in &sn.trades {
        cmp("trade settings", format!("{:?}", a.trades.get(k).map(|t| (k, t))), format!("{:?}", Some((k, t))));
    }
    for (k, t) in &a.trades {
        if !sn.trades.contains_key(k) {
            cmp("trade settings", format!("{k:?} {t:?}"), "nothing".into());
        }
    }
    bad
}

pub fn bal(b: &Bank, a: &str, d: &str) -> u128 {
    b.get(a).and_then(|m| m.get(d)).copied().unwrap_or(0)
}
pub fn add(b: &mut Bank, a: &str, d: &str, n: u128) {
    if n > 0 {
        *b.entry(a.to_string()).or_default().entry(d.to_string()).or_default() += n;
    }
}
pub fn sub(b: &mut Bank, a: &str, d: &str, n: u128) -> bool {
    if n == 0 {
        return true;
    }
    let have = bal(b, a, d);
    if have < n {
        return false;
    }
    let m = b.get_mut(a).unwrap();
    if have == n {
        m.remove(d);
        if m.is_empty() {
            b.remove(a);
        }
    } else {
        m.insert(d.to_string(), have - n);
    }
    true
}
pub fn bank_diff(exp: &Bank, got: &Bank) -> Vec<String> {
    let mut out = vec![];
    let mut keys: std::collections::BTreeSet<(&String, &String)> = Default::default();
    for b in [exp, got] {
        for (a, m) in b {
            for d in m.keys() {
                keys.insert((a, d));
            }
        }
    }
    for (a, d) in keys {
        let (e, g) = (bal(exp, a, d), bal(got, a, d));
        if e != g {
            out.push(format!("{a} has {g}{d}, expected {e}"));
        }
    }
    out
}
