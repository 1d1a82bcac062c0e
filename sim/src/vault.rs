//! The vault world: reference model and per-transaction oracle.
use crate::chain::*;
use crate::engine::*;
use crate::pools::{self, Pools};
use crate::snap::*;
use crate::util::*;
use cosmwasm_std::{Int512, Uint512};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub use crate::vault_gen::gen_cfg;

pub const CORE: &str = "core";
pub const MAX_RATE: u128 = 21_979_553_000; // 0.000000021979553

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum V {
    Ok,
    Rej,
    Any,
}

pub type Props = &'static [&'static str];

pub struct Pred {
    pub kind: String,
    pub v: V,
    pub why: Vec<(Props, String)>,
    pub exp: Snap,
    /// units as they stand after accrual, when the transaction accrues
    pub accr: Option<Units>,
    pub accrues: bool,
    /// how many atomics of reserve unit are spread over the inflation list
    pub split: Option<(u128, Vec<(String, Dec)>)>,
    /// the rounding a trade may cost, per asset, in atomics
    pub dust: BTreeMap<String, u128>,
    pub gov_frozen_final: bool,
    /// the effects cannot be predicted
    pub blind: bool,
}

impl Pred {
    fn rej(&mut self, p: Props, why: impl Into<String>) {
        self.v = V::Rej;
        self.why.push((p, why.into()));
    }
    /// may be accepted or refused
    fn any(&mut self) {
        if self.v == V::Ok {
            self.v = V::Any;
        }
    }
    /// may be accepted or refused, with effects the model cannot predict
    fn blind(&mut self) {
        self.any();
        self.blind = true;
    }
}

pub struct VaultWorld {
    pub node: Node,
    pub denoms: Vec<String>,
    pub list_denoms: Vec<String>,
    pub don: BTreeMap<String, u128>,
    pub accrued: BTreeMap<String, u128>,
    pub paid: BTreeMap<String, u128>,
    pub cover: BTreeMap<String, Int512>,
    pub mints: u64,
    pub cur: Option<Snap>,
    /// the last observation, to see that nothing moves between transactions
    pub was: Option<Snap>,
    pub inst_version: (String, String),
    pub gov_froze: bool,
    pub dead: bool,
    pub g: crate::vault_gen::Gen,
}

pub fn op_props(kind: &str) -> Props {
    match kind {
        "mint" => &["C03"],
        "burn" => &["C04"],
        "realize" => &["C08"],
        "deflate" | "inflate" => &["C09"],
        "rebalance_init" | "rebalance_finalize" => &["C10"],
        "migrate" => &["C15"],
        "update_fee_strategy" => &["C06", "C08"],
        _ => &["C06"],
    }
}

fn must_props(kind: &str) -> Props {
    match kind {
        "mint" => &["C03", "C05"],
        "burn" => &["C04", "C05"],
        "realize" => &["C08"],
        "deflate" | "inflate" => &["C09"],
        "rebalance_init" | "rebalance_finalize" => &["C10"],
        "migrate" => &["C15"],
        "update_fee_strategy" => &["C06", "C14"],
        "pause" | "release" => &["C06", "C05"],
        _ => &["C06"],
    }
}

fn i512(n: u128) -> Int512 {
    Int512::try_from(Uint512::from(n)).unwrap()
}
fn prod(a: u128, b: u128) -> Int512 {
    Int512::try_from(Uint512::from(a) * Uint512::from(b)).unwrap()
}

pub fn rate_ok(r: &Option<Dec>) -> bool {
    match r {
        Some(d) => d.0 > 0 && d.0 < ONE,
        None => true,
    }
}
/// 0: valid, 1: refused, 2: not representable
pub fn fee_payload_ok(f: &Value) -> u8 {
    let opt = |v: &Value| -> Result<Option<Dec>, ()> {
        if v.is_null() {
            Ok(None)
        } else {
            Ok(Some(dec(v).ok_or(())?))
        }
    };
    let (Ok(m), Ok(b)) = (opt(&f["mint_fee"]), opt(&f["burn_fee"])) else { return 2 };
    if !rate_ok(&m) || !rate_ok(&b) {
        return 1;
    }
    if f["streaming_fee"].is_object() {
        let Ok(Some(r)) = opt(&f["streaming_fee"]["rate"]) else { return 2 };
        if !rate_ok(&Some(r)) || r.0 > MAX_RATE {
            return 1;
        }
    }
    0
}

/// required amount of each asset for minting n
pub fn required(units: &Units, n: u128) -> BTreeMap<String, u128> {
    units.iter().map(|(d, u)| (d.clone(), u.of(n).max(1))).collect()
}

pub struct Accr {
    pub units: Units,
    pub inc: BTreeMap<String, u128>,
}

impl VaultWorld {
    pub fn snap_now(&self) -> Result<Snap, String> {
        snap(&self.node.chain, CORE, &self.list_denoms)
    }
    pub fn pre(&mut self, cx: &mut Cx) -> Option<Snap> {
        if self.cur.is_none() {
            match self.snap_now() {
                Ok(s) => {
                    if let Some(w) = self.was.take() {
                        self.drift(&w, &s, cx);
                    }
                    self.was = Some(s.clone());
                    self.cur = Some(s);
                }
                Err(e) => {
                    if !self.dead {
                        cx.viol(&["C12", "C13"], "unobservable", format!("the vault's queries fail: {e}"));
                    }
                    self.dead = true;
                }
            }
        }
        self.cur.clone()
    }

    /// Between two transactions only the clock moves, and the clock only ends a pause.
    fn drift(&self, w: &Snap, s: &Snap, cx: &mut Cx) {
        let now = self.node.chain.now();
        let over = w.paused && w.expires.is_some_and(|e| e <= now);
        let want = if over { (false, None) } else { (w.paused, w.expires) };
        if w.paused {
            cx.eval("C05", &format!("pause/{:?}", w.expires.map(|e| (e as i64 - now as i64).clamp(-2, 2))));
        }
        if (s.paused, s.expires) != want {
            cx.viol(&["C05", "C12"], "drift:paused", format!("at {now} the vault reports paused {:?}, it was {:?}", (s.paused, s.expires), (w.paused, w.expires)));
        }
        let kv = &self.node.chain.contracts[CORE].1;
        let raw = kv.contains_key(b"fee".as_slice()) && kv.contains_key(b"index_units".as_slice());
        let l: [(&'static str, bool, Props); 8] = [
            ("gov", (&w.gov, &w.pending) == (&s.gov, &s.pending), &["C06", "C12"]),
            ("reserve_denom", w.reserve_denom == s.reserve_denom && w.index_denom == s.index_denom, &["C06", "C12"]),
            ("supply", w.supply == s.supply && w.chain_supply == s.chain_supply, &["C02", "C12"]),
            ("fee", !raw || w.fee == s.fee, &["C07", "C12"]),
            ("units", !raw || w.units == s.units, &["C07", "C12"]),
            ("rebalance", w.reb == s.reb, &["C10", "C12"]),
            ("reserve", w.reserve == s.reserve, &["C10", "C12"]),
            ("trades", w.trades == s.trades, &["C09", "C12"]),
        ];
        for (n, ok, props) in l {
            if !ok {
                cx.viol(props, format!("drift:{n}"), format!("{n} changed without a transaction: {w:?} became {s:?}"));
            }
        }
    }

    pub fn delta(&self, pre: &Snap) -> u64 {
        match &pre.fee.stream {
            Some(st) if !st.freeze => self.node.chain.now().saturating_sub(st.last),
            _ => 0,
        }
    }

    /// Units after fee accrual at this block, checked against the reference formula.
    /// Err(true): accrual cannot be computed and may refuse; Err(false): reported
    pub fn accrue(&self, pre: &Snap, cx: &mut Cx) -> Result<Option<Accr>, bool> {
        let dt = self.delta(pre);
        let Some(st) = &pre.fee.stream else { return Ok(None) };
        if dt == 0 {
            return Ok(None);
        }
        let p36 = match pow_minus_one_36(st.rate, dt) {
            Some(p) => p,
            None => return Err(true),
        };
        let s36 = Uint512::from(ONE) * Uint512::from(ONE);
        if p36 * Uint512::from(1000u128) > s36 * Uint512::from(999u128) {
            // the workload stays below this (see the known finding)
            if let Err(e) = self.node.chain.query(CORE, &json!({"get_portfolio": {"time": null}})) {
                cx.viol(&["C07"], "accrual_over_one", format!("{dt}s at rate {} accrue more than the whole unit, so nothing can be done with the vault any more: {e}", st.rate));
            }
            return Err(true);
        }
        let q = self.node.chain.query(CORE, &json!({"get_portfolio": {"time": null}}));
        let q = match q {
            Ok(q) => q,
            Err(e) => {
                cx.viol(&["C07", "C12"], "accrual_query", format!("portfolio query fails with {dt}s accrued: {e}"));
                return Err(false);
            }
        };
        let got = unit_map(&q["units"]);
        cx.eval("C07", &format!("accrue/{}/{}", 64 - dt.leading_zeros(), 128 - st.rate.0.leading_zeros()));
        let tol_rate = Uint512::from(2 * (dt as u128 + 64)); // 1e-18
        let mut inc = BTreeMap::new();
        if got.keys().ne(pre.units.keys()) {
            cx.viol(&["C07", "C12"], "accrual_assets", format!("accrual changed the assets {:?} -> {:?}", pre.units, got));
            return Err(false);
        }
        for (d, u) in &pre.units {
            let g = got[d];
            let fee_ref = to128(Uint512::from(u.0) * p36 / s36);
            let tol = to128(Uint512::from(u.0) * tol_rate / Uint512::from(ONE)).saturating_mul(2) + 3;
            let shrink = u.0.checked_sub(g.0);
            let ok = match shrink {
                Some(x) => x.abs_diff(fee_ref) <= tol,
                None => false,
            };
            if !ok {
                cx.viol(
                    &["C07"],
                    "accrual_amount",
                    format!("{d}: unit {u} after {dt}s at rate {} became {g}; expected a fee unit of {} (+-{})", st.rate, Dec(fee_ref), Dec(tol)),
                );
            }
            inc.insert(d.clone(), Dec(u.0.saturating_sub(g.0)).of(pre.supply));
        }
        Ok(Some(Accr { units: got, inc }))
    }

    fn apply_accr(&self, p: &mut Pred, a: &Accr) {
        p.exp.units = a.units.clone();
        if let Some(st) = p.exp.fee.stream.as_mut() {
            for (d, n) in &a.inc {
                if *n > 0 {
                    *st.collected.entry(d.clone()).or_default() += *n;
                }
            }
            st.last = self.node.chain.now();
        }
        p.accr = Some(a.units.clone());
    }

    pub fn predict(&mut self, pre: &Snap, tx: &Tx, fault: &Fault, cx: &mut Cx) -> Pred {
        let kind = kind_of(tx);
        let mut p = Pred {
            kind: kind.clone(),
            v: V::Ok,
            why: vec![],
            exp: pre.clone(),
            accr: None,
            accrues: false,
            split: None,
            dust: Default::default(),
            gov_frozen_final: false,
            blind: false,
        };
        let now = self.node.chain.now();
        // funds
        for (i, (d, n)) in tx.funds.iter().enumerate() {
            if *n == 0 || tx.funds[..i].iter().any(|(e, _)| e == d) {
                p.rej(&["C13"], "malformed funds");
                return p;
            }
        }
        for (d, n) in &tx.funds {
            if !sub(&mut p.exp.bank, &tx.sender, d, *n) {
                p.rej(&["C13"], "sender cannot pay");
                return p;
            }
            add(&mut p.exp.bank, CORE, d, *n);
        }
        let m = &tx.msg;
        let accrues = matches!(kind.as_str(), "mint" | "burn" | "realize" | "rebalance_init" | "update_fee_strategy") && tx.op.is_none();
        p.accrues = accrues;
        if accrues {
            match self.accrue(pre, cx) {
                Ok(Some(a)) => self.apply_accr(&mut p, &a),
                Ok(None) => {}
                Err(_) => {
                    p.blind();
                }
            }
        }
        let gov = tx.sender == pre.gov;
        const AUTH: Props = &["C06"];
        match kind.as_str() {
            "mint" => self.p_mint(&mut p, pre, tx, &m["mint"], cx),
            "burn" => self.p_burn(&mut p, pre, tx, &m["burn"], cx),
            "realize" => {
                if tx.sender != pre.fee.collector {
                    p.rej(&["C08"], "payout not asked by the collector");
                }
                let was_empty = p.exp.fee.stream.as_ref().map(|s| s.collected.is_empty()).unwrap_or(true);
                if was_empty {
                    // nothing owed: paying nothing may be refused by the bank
                    p.any();
                }
                self.settle(&mut p, &pre.fee.collector);
                if let Some(st) = p.exp.fee.stream.as_mut() {
                    st.collected.clear();
                }
                cx.eval("C08", &format!("realize/{:?}/{was_empty}/{}", p.v, pre.reb.is_some()));
            }
            "pause" => {
                if !gov {
                    p.rej(&["C06", "C05"], "pause not by governance");
                }
                if pre.paused {
                    p.rej(&["C05"], "already paused");
                }
                let e = &m["gov"]["pause"]["expires_at"];
                if let Some(x) = e.as_u64() {
                    if x <= now {
                        p.rej(&["C05"], "expiry not in the future");
                    }
                }
                p.exp.paused = true;
                p.exp.expires = e.as_u64();
                cx.eval("C05", &format!("pause/{:?}/{}", p.v, e.as_u64().map(|x| (x as i64 - now as i64).clamp(-2, 2)).unwrap_or(9)));
            }
            "release" => {
                if !gov {
                    p.rej(&["C06", "C05"], "release not by governance");
                }
                if !pre.paused {
                    p.rej(&["C05"], "not paused");
                }
                p.exp.paused = false;
                p.exp.expires = None;
                cx.eval("C05", &format!("release/{:?}/{}", p.v, pre.expires.is_some()));
            }
            "update_gov" => {
                if !gov {
                    p.rej(AUTH, "nomination not by governance");
                }
                if pre.pending.is_some() {
                    p.rej(AUTH, "a nomination stands");
                }
                let a = s(&m["gov"]["update_gov"]);
                if !valid_addr(&a) {
                    p.rej(AUTH, "invalid nominee");
                }
                p.exp.pending = Some(a);
            }
            "accept_gov" => {
                if pre.pending.as_deref() != Some(tx.sender.as_str()) {
                    p.rej(AUTH, "not the nominee");
                }
                p.exp.gov = tx.sender.clone();
                p.exp.pending = None;
            }
            "revoke_gov" => {
                if !gov {
                    p.rej(AUTH, "revocation not by governance");
                }
                if pre.pending.is_none() {
                    p.rej(AUTH, "nothing to revoke");
                }
                p.exp.pending = None;
            }
            "update_fee_strategy" => {
                let f = &m["gov"]["update_fee_strategy"];
                if !gov {
                    p.rej(&["C06", "C14"], "fee change not by governance");
                }
                if pre.reb.is_some() {
                    p.rej(&["C06", "C07", "C10"], "fee change during a rebalance");
                }
                let c = s(&f["collector"]);
                if !valid_addr(&c) {
                    p.rej(&["C06", "C14"], "invalid collector");
                }
                match fee_payload_ok(f) {
                    0 => {}
                    1 => p.rej(&["C14", "C06"], "rate out of bounds"),
                    _ => p.rej(&["C14"], "rate not a decimal"),
                }
                cx.eval("C14", &format!("fee/{}/{}/{}", fee_sig(f), gov, pre.reb.is_some()));
                cx.eval("C08", &format!("settle/{:?}/{}", p.v, p.exp.fee.stream.as_ref().map(|s| s.collected.len()).unwrap_or(9)));
                self.settle(&mut p, &pre.fee.collector);
                p.exp.fee = fee_from_payload(f, now);
            }
            "update_rebalance_manager" => {
                if !gov {
                    p.rej(&["C06", "C10"], "manager change not by governance");
                }
                let mv = &m["gov"]["update_rebalance_manager"];
                if let Some(a) = mv.as_str() {
                    if !valid_addr(a) {
                        p.rej(AUTH, "invalid manager");
                    }
                }
                match p.exp.reb.as_mut() {
                    Some(r) => r.manager = os(mv),
                    None => p.rej(&["C06", "C10"], "no rebalance running"),
                }
            }
            "update_reserve_denom" => {
                if !gov {
                    p.rej(AUTH, "reserve change not by governance");
                }
                if pre.reb.is_some() {
                    p.rej(&["C06", "C10"], "reserve change during a rebalance");
                }
                p.exp.reserve_denom = s(&m["gov"]["update_reserve_denom"]);
            }
            "update_trade_info" => {
                let u = &m["gov"]["update_trade_info"];
                if !gov {
                    p.rej(&["C06", "C09"], "trade settings not by governance");
                }
                let routes = routes_of(&u["routes"]);
                let d = s(&u["denom"]);
                if routes.is_empty() {
                    p.rej(&["C06"], "empty route");
                } else if d != pre.reserve_denom && routes[0].1 != d {
                    p.rej(&["C09", "C01"], "the route does not sell the asset");
                } else {
                    let key = if d == pre.reserve_denom {
                        (d.clone(), routes.last().unwrap().1.clone())
                    } else {
                        (d.clone(), pre.reserve_denom.clone())
                    };
                    p.exp.trades.insert(
                        key,
                        Trade { routes, cooldown: u["cooldown"].as_u64().unwrap_or(0), max: n128(&u["max_trade_amount"]), last: None },
                    );
                }
            }
            "rebalance_init" => self.p_init(&mut p, pre, tx, &m["rebalance"]["init"], cx),
            "rebalance_finalize" => self.p_finalize(&mut p, pre, tx, cx),
            "deflate" => self.p_deflate(&mut p, pre, tx, &m["rebalance"]["trade"]["deflate"], fault, cx),
            "inflate" => self.p_inflate(&mut p, pre, tx, &m["rebalance"]["trade"]["inflate"], fault, cx),
            "migrate" => {
                let force = m["force"].as_bool().unwrap_or(false);
                let (n, v) = pre.version.clone().unwrap_or_default();
                let okv = n == self.inst_version.0 && crate::semver::older(&v, &self.inst_version.1) == Some(true);
                if !force && !okv {
                    p.rej(&["C15"], format!("stored {n} {v} is not an older version of {:?}", self.inst_version));
                }
                p.exp.version = Some(self.inst_version.clone());
                cx.eval("C15", &format!("core/{force}/{}/{:?}/{}/{}", n == self.inst_version.0, crate::semver::rel(&v, &self.inst_version.1), pre.paused, pre.reb.is_some()));
            }
            _ => p.blind(),
        }
        if matches!(
            kind.as_str(),
            "pause" | "release" | "update_gov" | "accept_gov" | "revoke_gov" | "update_fee_strategy" | "update_rebalance_manager" | "update_reserve_denom" | "update_trade_info" | "rebalance_init"
        ) {
            let role = if gov {
                "gov"
            } else if pre.pending.as_deref() == Some(&tx.sender) {
                "pending"
            } else if pre.reb.as_ref().and_then(|r| r.manager.clone()).as_deref() == Some(&tx.sender) {
                "manager"
            } else {
                "other"
            };
            cx.eval("C06", &format!("{kind}/{role}/{:?}/{}/{}", p.v, pre.pending.is_some(), pre.reb.is_some()));
        }
        p
    }

    /// pay what is owed to the collector it was accrued for
    fn settle(&self, p: &mut Pred, to: &str) {
        let owed = p.exp.fee.stream.as_ref().map(|s| s.collected.clone()).unwrap_or_default();
        for (d, n) in owed {
            if sub(&mut p.exp.bank, CORE, &d, n) {
                add(&mut p.exp.bank, to, &d, n);
            } else {
                p.blind();
            }
        }
    }

    fn p_mint(&self, p: &mut Pred, pre: &Snap, tx: &Tx, m: &Value, cx: &mut Cx) {
        let n = n128(&m["amount"]);
        if pre.paused {
            p.rej(&["C05"], "paused");
        }
        if pre.reb.is_some() {
            p.rej(&["C05"], "rebalancing");
        }
        let recv = os(&m["receiver"]).unwrap_or(tx.sender.clone());
        let refund = os(&m["refund_to"]).unwrap_or(tx.sender.clone());
        if !valid_addr(&recv) || !valid_addr(&refund) {
            p.rej(&["C03"], "invalid address");
        }
        let units = p.exp.units.clone();
        let req = required(&units, n);
        let mut funds: BTreeMap<String, u128> = tx.funds.iter().cloned().collect();
        let mut short = "exact";
        for (d, r) in &req {
            match funds.get_mut(d) {
                None => {
                    p.rej(&["C03"], format!("{d} missing"));
                    short = "missing";
                }
                Some(x) if *x < *r => {
                    p.rej(&["C03"], format!("{d}: {x} of {r}"));
                    short = "short";
                }
                Some(x) => {
                    *x -= r;
                    if *x > 0 && short == "exact" {
                        short = "surplus";
                    }
                }
            }
        }
        for (d, _) in &tx.funds {
            if !req.contains_key(d) {
                p.rej(&["C03"], format!("{d} is not an index asset"));
                short = "extra";
            }
        }
        let fee = pre.fee.mint.map(|f| f.of(n).max(1));
        cx.eval(
            "C03",
            &format!(
                "mint/{:?}/{short}/{}/{}/{}/{}/{}",
                p.v,
                units.len().min(6),
                fee.map(|f| if f == 1 { 1 } else { 2 }).unwrap_or(0),
                recv != tx.sender,
                refund != tx.sender,
                p.accr.is_some()
            ),
        );
        cx.eval("C05", &format!("mint/{}/{}/{:?}", pre.paused, pre.reb.is_some(), pre.expires.map(|e| (e as i64 - self.node.chain.now() as i64).clamp(-2, 2))));
        if n == 0 {
            p.rej(&["C03", "C02"], "zero amount");
        }
        let fee_n = fee.unwrap_or(0);
        if fee_n > n {
            p.rej(&["C03"], "fee above the amount");
            return;
        }
        if fee_n == n {
            p.any();
        }
        if p.v == V::Rej {
            return;
        }
        for (d, x) in funds {
            if x > 0 {
                sub(&mut p.exp.bank, CORE, &d, x);
                add(&mut p.exp.bank, &refund, &d, x);
            }
        }
        p.exp.supply += n;
        p.exp.chain_supply += n;
        let id = pre.index_denom.clone();
        add(&mut p.exp.bank, &pre.fee.collector, &id, fee_n);
        add(&mut p.exp.bank, &recv, &id, n - fee_n);
    }

    fn p_burn(&self, p: &mut Pred, pre: &Snap, tx: &Tx, m: &Value, cx: &mut Cx) {
        if pre.paused {
            p.rej(&["C05"], "paused");
        }
        if pre.reb.is_some() {
            p.rej(&["C05"], "rebalancing");
        }
        let to = os(&m["redeem_to"]).unwrap_or(tx.sender.clone());
        if !valid_addr(&to) {
            p.rej(&["C04"], "invalid address");
        }
        let ok = tx.funds.len() == 1 && tx.funds[0].0 == pre.index_denom;
        if !ok {
            p.rej(&["C04"], "not exactly index tokens");
        }
        cx.eval("C05", &format!("burn/{}/{}/{:?}", pre.paused, pre.reb.is_some(), pre.expires.map(|e| (e as i64 - self.node.chain.now() as i64).clamp(-2, 2))));
        let n = if ok { tx.funds[0].1 } else { 0 };
        let fee = pre.fee.burn.map(|f| f.of(n)).unwrap_or(0);
        let rest = n.saturating_sub(fee);
        let units = p.exp.units.clone();
        let red: BTreeMap<String, u128> = units.iter().map(|(d, u)| (d.clone(), u.of(rest))).collect();
        let empty = red.values().all(|x| *x == 0);
        cx.eval(
            "C04",
            &format!(
                "burn/{:?}/{}/{}/{}/{}/{}",
                p.v,
                units.len().min(6),
                match (pre.fee.burn.is_some(), fee) {
                    (false, _) => 0,
                    (true, 0) => 1,
                    _ => 2,
                },
                empty,
                to != tx.sender,
                p.accr.is_some()
            ),
        );
        if empty {
            if units.is_empty() {
                p.any();
            } else {
                p.rej(&["C04"], "nothing to redeem");
            }
        }
        if p.v == V::Rej {
            return;
        }
        let id = pre.index_denom.clone();
        sub(&mut p.exp.bank, CORE, &id, n);
        add(&mut p.exp.bank, &pre.fee.collector, &id, fee);
        for (d, x) in red {
            if !sub(&mut p.exp.bank, CORE, &d, x) {
                p.blind();
                continue;
            }
            add(&mut p.exp.bank, &to, &d, x);
        }
        p.exp.supply = p.exp.supply.saturating_sub(rest);
        p.exp.chain_supply = p.exp.chain_supply.saturating_sub(rest);
    }

    fn p_init(&self, p: &mut Pred, pre: &Snap, tx: &Tx, m: &Value, cx: &mut Cx) {
        let defl = unit_list(&m["deflation"]);
        let infl = unit_list(&m["inflation"]);
        let mgr = os(&m["manager"]);
        let units = p.exp.units.clone();
        if tx.sender != pre.gov {
            p.rej(&["C06", "C10"], "start not by governance");
        }
        let mut sig = vec![];
        if pre.reb.is_some() {
            p.rej(&["C10"], "already running");
            sig.push("running");
        }
        if defl.is_empty() || infl.is_empty() {
            p.rej(&["C10"], "empty side");
            sig.push("empty");
        }
        let mut seen = BTreeSet::new();
        for (d, _) in defl.iter().chain(infl.iter()) {
            if !seen.insert(d.clone()) {
                p.rej(&["C10"], format!("{d} named twice"));
                sig.push("dup");
            }
        }
        for (d, t) in &defl {
            match units.get(d) {
                None => {
                    p.rej(&["C10"], format!("{d} not held"));
                    sig.push("missing");
                }
                Some(u) if u < t => {
                    p.rej(&["C10"], format!("{d} target above current"));
                    sig.push("above");
                }
                Some(u) if u == t => sig.push("equal"),
                _ => {}
            }
        }
        if let Some(a) = &mgr {
            if !valid_addr(a) {
                p.rej(&["C10", "C06"], "invalid manager");
            }
        }
        if infl.iter().any(|(_, w)| w.is_zero()) {
            p.rej(&["C10", "C11"], "an asset to grow has no weight");
            sig.push("zeroweight");
        }
        sig.sort();
        sig.dedup();
        cx.eval("C10", &format!("init/{:?}/{:?}/{}/{}", p.v, sig, defl.len().min(3), infl.len().min(3)));
        if let Some(st) = p.exp.fee.stream.as_mut() {
            st.freeze = true;
        }
        p.exp.reb = Some(Reb { manager: mgr, deflation: defl, inflation: infl });
        p.exp.reserve = Some(Units::new());
    }

    fn p_finalize(&self, p: &mut Pred, pre: &Snap, tx: &Tx, cx: &mut Cx) {
        let Some(r) = &pre.reb else {
            p.rej(&["C10"], "no rebalance running");
            cx.eval("C10", "finalize/none");
            return;
        };
        if r.manager.as_ref().is_some_and(|m| *m != tx.sender) {
            p.rej(&["C10", "C06"], "finalize not by the manager");
        }
        let sup = pre.supply;
        let mut unmet = 0;
        let mut dusty = false;
        for (d, t) in &r.deflation {
            let c = pre.units.get(d).copied().unwrap_or_default();
            let gap = c.0.saturating_sub(t.0);
            if Dec(gap).of(sup) > 0 {
                p.rej(&["C10"], format!("{d} still above target by {}", Dec(gap)));
                unmet += 1;
            } else if gap > 0 {
                dusty = true;
            }
        }
        let mut flush = 0;
        match &pre.reserve {
            Some(res) => {
                for (d, u) in res {
                    if u.of(sup) > 0 {
                        p.rej(&["C10"], format!("reserve {u} for {d} not distributed"));
                        flush += 1;
                    } else if !u.is_zero() {
                        dusty = true;
                    }
                }
            }
            None => p.blind(),
        }
        cx.eval("C10", &format!("finalize/{:?}/{}/{}/{}/{}", p.v, unmet.min(2), flush.min(2), dusty, r.manager.is_some()));
        p.exp.reb = None;
        p.exp.reserve = Some(Units::new());
        p.exp.units.retain(|_, u| !u.is_zero());
        if let Some(st) = p.exp.fee.stream.as_mut() {
            st.freeze = false;
            st.last = self.node.chain.now();
        }
        p.gov_frozen_final = self.gov_froze;
    }

    fn mgr_check(&self, p: &mut Pred, pre: &Snap, tx: &Tx) -> Option<Reb> {
        let Some(r) = pre.reb.clone() else {
            p.rej(&["C09", "C10"], "no rebalance running");
            return None;
        };
        if r.manager.as_ref().is_some_and(|m| *m != tx.sender) {
            p.rej(&["C09", "C06"], "trade not by the manager");
        }
        Some(r)
    }

    fn p_deflate(&self, p: &mut Pred, pre: &Snap, tx: &Tx, m: &Value, fault: &Fault, cx: &mut Cx) {
        let Some(r) = self.mgr_check(p, pre, tx) else { return };
        let target = s(&m["target_denom"]);
        let (out, maxin) = (n128(&m["amount_out"]), n128(&m["max_amount_in"]));
        let Some((_, tgt)) = r.deflation.iter().find(|x| x.0 == target) else {
            p.rej(&["C09"], "asset not to be reduced");
            cx.eval("C09", "deflate/notpart");
            return;
        };
        let Some(curu) = pre.units.get(&target).copied() else {
            p.blind();
            return;
        };
        let Some(gap) = curu.0.checked_sub(tgt.0) else {
            p.blind();
            return;
        };
        let sup = pre.supply;
        if target == pre.reserve_denom {
            cx.eval("C09", &format!("deflate/reserve/{:?}/{}", p.v, gap == 0));
            p.exp.units.insert(target, *tgt);
            p.split = Some((gap, r.inflation.clone()));
            return;
        }
        let Some(ti) = pre.trades.get(&(target.clone(), pre.reserve_denom.clone())) else {
            p.rej(&["C09"], "no route configured");
            cx.eval("C09", "deflate/noroute");
            return;
        };
        let sig = self.trade_common(p, ti, out);
        let est = pools::route_out(&mut self.node.chain.pools.clone(), &ti.routes, &pre.reserve_denom, out);
        let (din, est) = match est {
            Ok(x) => x,
            Err(e) => {
                p.rej(&["C09"], format!("no quote: {e}"));
                cx.eval("C09", &format!("deflate/noquote/{sig}"));
                return;
            }
        };
        let sim = skew(est, fault.quote_skew);
        let gap_amt = Dec(gap).of(sup);
        let mut why = "fits";
        if sim > gap_amt {
            p.rej(&["C09"], format!("needs {sim} of a gap of {gap_amt}"));
            why = "gap";
        } else if sim == gap_amt {
            why = "gap_exact";
        }
        if sim > maxin {
            p.rej(&["C09"], format!("quote {sim} above the limit {maxin}"));
            why = "limit";
        }
        cx.eval("C09", &format!("deflate/{:?}/{sig}/{why}/{}/{}", p.v, ti.routes.len(), fault.quote_skew.signum()));
        if din != target || sup == 0 {
            p.blind();
            return;
        }
        // execution
        let real = est + fault.exec_worse as u128;
        if real > sim {
            p.rej(&["C09", "C13"], "execution worse than the quote");
        }
        if p.v == V::Rej {
            return;
        }
        if !sub(&mut p.exp.bank, CORE, &target, real) {
            p.blind();
        }
        add(&mut p.exp.bank, CORE, &pre.reserve_denom, out);
        let ded = Dec::ratio_up(sim, sup);
        if ded > curu {
            p.blind();
            return;
        }
        p.exp.units.insert(target.clone(), Dec(curu.0 - ded.0));
        p.split = Some((Dec::ratio(out, sup).0, r.inflation.clone()));
        p.exp.trades.get_mut(&(target.clone(), pre.reserve_denom.clone())).unwrap().last = Some(self.node.chain.now());
        p.dust.insert(target, 2 * sup + 10);
    }

    fn p_inflate(&self, p: &mut Pred, pre: &Snap, tx: &Tx, m: &Value, fault: &Fault, cx: &mut Cx) {
        let Some(_r) = self.mgr_check(p, pre, tx) else { return };
        let target = s(&m["target_denom"]);
        let (inn, minout) = (n128(&m["amount_in"]), n128(&m["min_amount_out"]));
        let Some(res) = &pre.reserve else {
            p.blind();
            return;
        };
        let ru = res.get(&target).copied().unwrap_or_default();
        let part = pre.reb.as_ref().unwrap().inflation.iter().any(|x| x.0 == target);
        let sup = pre.supply;
        if target == pre.reserve_denom {
            cx.eval("C09", &format!("inflate/reserve/{:?}/{}/{part}", p.v, ru.is_zero()));
            if !part {
                p.rej(&["C09"], "asset not to be grown");
                return;
            }
            if ru.is_zero() {
                // nothing set aside: moving nothing may be refused
                p.any();
                return;
            }
            let c = p.exp.units.get(&target).copied().unwrap_or_default();
            p.exp.units.insert(target.clone(), Dec(c.0 + ru.0));
            p.exp.reserve.as_mut().unwrap().remove(&target);
            return;
        }
        if !part {
            p.rej(&["C09"], "asset not to be grown");
            cx.eval("C09", "inflate/notpart");
            return;
        }
        let Some(ti) = pre.trades.get(&(pre.reserve_denom.clone(), target.clone())) else {
            p.rej(&["C09"], "no route configured");
            cx.eval("C09", "inflate/noroute");
            return;
        };
        let sig = self.trade_common(p, ti, inn);
        let avail = ru.of(sup);
        let mut why = "fits";
        if inn > avail {
            p.rej(&["C09"], format!("sells {inn} of {avail}"));
            why = "avail";
        } else if inn == avail {
            why = "avail_exact";
        }
        let est = pools::route_in(&mut self.node.chain.pools.clone(), &pre.reserve_denom, inn, &ti.routes);
        let (dout, est) = match est {
            Ok(x) => x,
            Err(e) => {
                p.rej(&["C09"], format!("no quote: {e}"));
                cx.eval("C09", &format!("inflate/noquote/{sig}"));
                return;
            }
        };
        let sim = skew(est, fault.quote_skew);
        if sim < minout {
            p.rej(&["C09"], format!("quote {sim} below the limit {minout}"));
            why = "limit";
        }
        cx.eval("C09", &format!("inflate/{:?}/{sig}/{why}/{}/{}", p.v, ti.routes.len(), fault.quote_skew.signum()));
        if dout != target || sup == 0 {
            p.blind();
            return;
        }
        let real = est.saturating_sub(fault.exec_worse as u128);
        if real < sim || sim == 0 {
            p.rej(&["C09", "C13"], "execution worse than the quote");
        }
        if p.v == V::Rej {
            return;
        }
        if !sub(&mut p.exp.bank, CORE, &pre.reserve_denom, inn) {
            p.blind();
        }
        add(&mut p.exp.bank, CORE, &target, real);
        let ded = Dec::ratio_up(inn, sup);
        let exp = Dec::ratio(sim, sup);
        let c = p.exp.units.get(&target).copied().unwrap_or_default();
        p.exp.units.insert(target.clone(), Dec(c.0 + exp.0));
        let rm = p.exp.reserve.as_mut().unwrap();
        let left = ru.0.saturating_sub(ded.0);
        if left == 0 {
            rm.remove(&target);
        } else {
            rm.insert(target.clone(), Dec(left));
        }
        p.exp.trades.get_mut(&(pre.reserve_denom.clone(), target)).unwrap().last = Some(self.node.chain.now());
        p.dust.insert(pre.reserve_denom.clone(), 2 * sup + 10);
    }

    fn trade_common(&self, p: &mut Pred, ti: &Trade, amount: u128) -> String {
        let now = self.node.chain.now();
        let mut sig = String::new();
        if let Some(l) = ti.last {
            let due = l.saturating_add(ti.cooldown);
            if now < due {
                p.rej(&["C09"], format!("cooldown until {due}, now {now}"));
                sig.push_str("cool");
            } else if now == due {
                sig.push_str("justcooled");
            }
        } else {
            sig.push_str("first");
        }
        if amount > ti.max {
            p.rej(&["C09"], format!("{amount} above the maximum {}", ti.max));
            sig.push_str("+max");
        } else if amount == ti.max {
            sig.push_str("+atmax");
        }
        sig
    }

    pub fn do_tx(&mut self, tx: &Tx, fault: &Fault, tag: &str, cx: &mut Cx) -> bool {
        if kind_of(tx) == "update_trade_info" {
            let d = s(&tx.msg["gov"]["update_trade_info"]["denom"]);
            if !self.list_denoms.contains(&d) {
                self.list_denoms.push(d);
                self.list_denoms.sort();
                self.cur = None;
            }
        }
        let Some(pre) = self.pre(cx) else { return false };
        let nv = cx.viols.len();
        let pred = self.predict(&pre, tx, fault, cx);
        let twin = (pre.paused && fault.is_none() && !matches!(pred.kind.as_str(), "mint" | "burn" | "pause" | "release")).then(|| self.node.chain.clone());
        let out = self.node.exec(tx, fault, cx);
        cx.count(&format!("op/{}/{}", pred.kind, if out.ok { "ok" } else { "refused" }));
        if !tag.is_empty() {
            cx.count(&format!("delivery/{tag}"));
        }
        self.cur = None;
        self.was = None;
        let Some(post) = self.pre(cx) else { return out.ok };
        if let Some(c) = twin {
            self.unpaused_twin(c, &pre, &out, &post, tx, cx);
        }
        self.judge(&pre, pred, &out, &post, tx, tag, cx);
        if cx.viols.len() > nv {
            self.resync(&post);
        }
        out.ok
    }

    /// a pause changes nothing but minting and burning: the same transaction right after a release
    /// must have the same outcome
    fn unpaused_twin(&self, mut c: Chain, pre: &Snap, out: &TxOut, post: &Snap, tx: &Tx, cx: &mut Cx) {
        let release = Tx { sender: pre.gov.clone(), to: CORE.into(), msg: json!({"gov": {"release": {}}}), funds: vec![], op: None };
        if !c.exec(&release, &Fault::default()).ok {
            return;
        }
        let other = c.exec(tx, &Fault::default());
        let Ok(mut open) = snap(&c, CORE, &self.list_denoms) else { return };
        (open.paused, open.expires) = (post.paused, post.expires);
        let kind = kind_of(tx);
        cx.eval("C05", &format!("twin/{kind}/{}", out.ok));
        if other.ok != out.ok {
            let (a, b) = if out.ok { ("accepted", "refused") } else { ("refused", "accepted") };
            cx.viol(&["C05"], format!("pause_matters:{kind}"), format!("{} from {} is {a} while the vault is paused ({}) and {b} right after a release ({})", tx.msg, tx.sender, out.err, other.err));
        } else if open != *post {
            cx.viol(&["C05"], format!("pause_matters:{kind}"), format!("{} from {} leaves another state while the vault is paused: {post:?} instead of {open:?}", tx.msg, tx.sender));
        }
    }

    fn resync(&mut self, post: &Snap) {
        self.accrued = self.paid.clone();
        if let Some(st) = &post.fee.stream {
            for (d, n) in &st.collected {
                *self.accrued.entry(d.clone()).or_default() += n;
            }
            self.gov_froze = st.freeze;
        }
        self.cover = self.cover_of(post);
    }

    /// holdings minus obligations, per asset, times 1e18
    pub fn cover_of(&self, sn: &Snap) -> BTreeMap<String, Int512> {
        let mut m: BTreeMap<String, Int512> = BTreeMap::new();
        let one = i512(ONE);
        let mut keys: BTreeSet<String> = self.denoms.iter().cloned().collect();
        keys.extend(sn.units.keys().cloned());
        keys.remove(&sn.index_denom);
        for d in keys {
            let hold = i512(bal(&sn.bank, CORE, &d)) * one;
            let mut owe = i512(self.don.get(&d).copied().unwrap_or(0)) * one;
            owe += prod(sn.units.get(&d).copied().unwrap_or_default().0, sn.supply);
            if d == sn.reserve_denom {
                for u in sn.reserve.iter().flatten() {
                    owe += prod(u.1 .0, sn.supply);
                }
            }
            if let Some(st) = &sn.fee.stream {
                owe += i512(st.collected.get(&d).copied().unwrap_or(0)) * one;
            }
            m.insert(d, hold - owe);
        }
        m
    }

    #[allow(clippy::too_many_arguments)]
    fn judge(&mut self, pre: &Snap, mut p: Pred, out: &TxOut, post: &Snap, tx: &Tx, tag: &str, cx: &mut Cx) {
        let kind = p.kind.clone();
        let hard = matches!(out.fired, Some("out_of_gas" | "query_error" | "transfer_refused" | "tokenfactory_refused" | "swap_refused" | "contract_call_refused"));
        if hard {
            cx.eval("C13", &format!("{kind}/{}/{}", out.fired.unwrap(), (out.msgs, out.storage_ops).0));
            if out.ok {
                cx.viol(&["C13"], format!("partial:{kind}"), format!("{kind} reported success although {}", out.fired.unwrap()));
            }
        } else if tag == "retry" {
            cx.eval("C13", &format!("retry/{kind}/{}", out.ok));
        }
        cx.eval("D01", &kind);
        if !hard {
            match (p.v, out.ok) {
                (V::Ok, false) => {
                    let mut pr: Vec<&'static str> = must_props(&kind).to_vec();
                    if tag == "retry" {
                        pr.push("C13");
                    }
                    if tag == "recover" {
                        pr.push("C11");
                    }
                    if out.fired == Some("swap_slippage") || out.fired == Some("quote_skew") {
                        pr.push("C13");
                    }
                    cx.viol(&pr, format!("refused:{kind}"), format!("{} from {} with {:?} was refused: {}", tx.msg, tx.sender, tx.funds, out.err));
                }
                (V::Rej, true) => {
                    let mut pr: Vec<&'static str> = p.why.iter().flat_map(|w| w.0.iter().copied()).collect();
                    pr.sort();
                    pr.dedup();
                    cx.viol(
                        &pr,
                        format!("accepted:{kind}"),
                        format!("{} from {} with {:?} was accepted although: {}", tx.msg, tx.sender, tx.funds, p.why.iter().map(|w| w.1.clone()).collect::<Vec<_>>().join("; ")),
                    );
                }
                _ => {}
            }
        }
        let exact = out.ok && p.v != V::Rej && !p.blind;
        if !out.ok {
            p.exp = pre.clone();
            p.split = None;
            p.dust.clear();
            p.gov_frozen_final = false;
        }
        // the failed or predicted effects, field by field
        if !out.ok || exact {
            self.compare(pre, &mut p, post, !out.ok, cx);
        }
        self.invariants(pre, &p, out, post, tx, &kind, cx);
        // coverage
        let mut f = Fnv::default();
        f.add(kind.as_bytes());
        f.num(out.ok as u64);
        f.num(post.paused as u64 + 2 * post.reb.is_some() as u64 + 4 * post.pending.is_some() as u64);
        f.num(post.units.len() as u64);
        f.num(post.fee.stream.as_ref().map(|x| 1 + x.freeze as u64 + 2 * (x.collected.len() as u64)).unwrap_or(0));
        f.num(post.reserve.as_ref().map(|r| r.len() as u64).unwrap_or(99));
        f.num(128 - post.supply.leading_zeros() as u64);
        f.add(out.fired.unwrap_or("").as_bytes());
        f.num(self.g.last_kind);
        self.g.last_kind = hash(kind.as_bytes());
        cx.stats.states.insert(f.0);
    }

    fn compare(&mut self, pre: &Snap, p: &mut Pred, post: &Snap, failed: bool, cx: &mut Cx) {
        let kind = p.kind.clone();
        let mut d: Vec<(Vec<&'static str>, String, String)> = vec![];
        let own = op_props(&kind).to_vec();
        let with = |x: &[&'static str]| -> Vec<&'static str> {
            let mut v = x.to_vec();
            if failed {
                v = vec!["C13"];
            } else if kind == "migrate" {
                v.push("C15");
            }
            v
        };
        let e = &p.exp;
        let bd = bank_diff(&e.bank, &post.bank);
        if !bd.is_empty() {
            d.push((with(&own), "balances".into(), bd[..bd.len().min(4)].join("; ")));
        }
        macro_rules! fld {
            ($props:expr, $name:expr, $a:expr, $b:expr) => {
                if $a != $b {
                    d.push((with(&$props), $name.into(), format!("{} is {:?}, expected {:?}", $name, $b, $a)));
                }
            };
        }
        let mut ownsup = own.clone();
        ownsup.push("C02");
        fld!(ownsup, "supply", e.supply, post.supply);
        fld!(ownsup, "chain_supply", e.chain_supply, post.chain_supply);
        fld!(["C02"], "index_denom", e.index_denom, post.index_denom);
        let tok = matches!(kind.as_str(), "mint" | "burn" | "realize" | "deflate" | "inflate" | "rebalance_init" | "rebalance_finalize");
        let govp: Vec<&'static str> = if tok { vec!["C06", own[0]] } else { vec!["C06"] };
        fld!(govp, "gov", e.gov, post.gov);
        fld!(govp, "pending_gov", e.pending, post.pending);
        fld!(govp, "reserve_denom", e.reserve_denom, post.reserve_denom);
        let pausep: Vec<&'static str> = vec!["C05", "C06"];
        fld!(pausep, "paused", (e.paused, e.expires), (post.paused, post.expires));
        let feep: Vec<&'static str> = if kind == "update_fee_strategy" { vec!["C06", "C14"] } else { vec!["C06", own[0]] };
        fld!(feep, "fee_collector", e.fee.collector, post.fee.collector);
        fld!(feep, "mint_fee", e.fee.mint, post.fee.mint);
        fld!(feep, "burn_fee", e.fee.burn, post.fee.burn);
        match (&e.fee.stream, &post.fee.stream) {
            (Some(a), Some(b)) => {
                let mut sp: Vec<&'static str> = vec!["C07"];
                if kind == "update_fee_strategy" {
                    sp.extend(["C06", "C14"]);
                }
                fld!(sp, "streaming_rate", a.rate, b.rate);
                let mut fp: Vec<&'static str> = vec!["C07"];
                if kind == "update_fee_strategy" {
                    fp.push("C06");
                }
                if kind.starts_with("rebalance") {
                    fp.push("C10");
                }
                if p.gov_frozen_final {
                    if !(b.last == a.last || b.last == pre.fee.stream.as_ref().map(|s| s.last).unwrap_or(0)) {
                        fld!(fp, "last_collected_at", a.last, b.last);
                    }
                } else {
                    fld!(fp, "streaming_freeze", a.freeze, b.freeze);
                    if !a.freeze {
                        fld!(fp, "last_collected_at", a.last, b.last);
                    }
                }
                let mut cp: Vec<&'static str> = vec!["C08", "C07"];
                if kind == "mint" || kind == "burn" {
                    cp.push("C01");
                }
                fld!(cp, "fee_owed", a.collected, b.collected);
            }
            (None, None) => {}
            (a, b) => {
                let fp: Vec<&'static str> = if kind == "update_fee_strategy" { vec!["C06", "C14", "C07"] } else { vec!["C07"] };
                fld!(fp, "streaming_fee", a.is_some(), b.is_some());
            }
        }
        let up: Vec<&'static str> = match kind.as_str() {
            "deflate" | "inflate" => vec!["C09"],
            "rebalance_finalize" => vec!["C10"],
            _ if p.accrues => vec!["C07", "C12", own[0]],
            _ => vec![own[0], "C06"],
        };
        if kind == "rebalance_finalize" {
            fld!(up, "units", e.units, post.units);
        } else {
            // an asset with unit zero is as good as none until the rebalance is finalized
            let nz = |u: &Units| -> Units { u.iter().filter(|x| !x.1.is_zero()).map(|(k, v)| (k.clone(), *v)).collect() };
            fld!(up, "units", nz(&e.units), nz(&post.units));
        }
        fld!(["C10"], "rebalance", e.reb, post.reb);
        if let Some((amount, infl)) = &p.split {
            let tot: Uint512 = infl.iter().map(|x| Uint512::from(x.1 .0)).fold(Uint512::zero(), |a, b| a + b);
            let minw = infl.iter().map(|x| x.1 .0).min().unwrap_or(1).max(1);
            let tol = 4 + 4 * (ONE / minw.min(ONE));
            if let (Some(a), Some(b)) = (&e.reserve, &post.reserve) {
                let mut keys: BTreeSet<&String> = a.keys().chain(b.keys()).collect();
                for (dn, _) in infl {
                    keys.insert(dn);
                }
                let mut sum_a = Uint512::from(*amount);
                let mut sum_b = Uint512::zero();
                for k in keys {
                    let av = a.get(k).copied().unwrap_or_default().0;
                    let bv = b.get(k).copied().unwrap_or_default().0;
                    let w = infl.iter().find(|x| x.0 == *k).map(|x| x.1 .0).unwrap_or(0);
                    let want = if tot.is_zero() { 0 } else { to128(Uint512::from(*amount) * Uint512::from(w) / tot) };
                    if bv.abs_diff(av + want) > if w == 0 { 0 } else { tol } {
                        d.push((with(&["C09"]), "reserve_split".into(), format!("reserve for {k} is {}, expected {} (share of {})", Dec(bv), Dec(av + want), Dec(*amount))));
                    }
                    sum_a += Uint512::from(av);
                    sum_b += Uint512::from(bv);
                }
                if sum_b > sum_a {
                    d.push((with(&["C09", "C01"]), "reserve_sum".into(), "more reserve recorded than bought".into()));
                }
            }
        } else {
            let rp: Vec<&'static str> = if kind == "deflate" || kind == "inflate" { vec!["C09"] } else { vec!["C10"] };
            if e.reserve.is_some() && post.reserve.is_some() {
                fld!(rp, "reserve", e.reserve, post.reserve);
            }
        }
        let tp: Vec<&'static str> = if kind == "deflate" || kind == "inflate" { vec!["C09"] } else { vec!["C06", "C09"] };
        if e.trades != post.trades {
            let mut ks: BTreeSet<_> = e.trades.keys().collect();
            ks.extend(post.trades.keys());
            let diff: Vec<String> = ks
                .into_iter()
                .filter(|k| e.trades.get(*k) != post.trades.get(*k))
                .map(|k| format!("{k:?}: {:?} expected {:?}", post.trades.get(k), e.trades.get(k)))
                .collect();
            d.push((with(&tp), "trade_settings".into(), diff.join("; ")));
        }
        fld!(["C15"], "version", e.version, post.version);
        for (props, name, msg) in d {
            cx.viol(&props, format!("{}:{kind}:{name}", if failed { "failed_tx" } else { "effect" }), format!("after {}{kind}: {msg}", if failed { "the failed " } else { "" }));
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn invariants(&mut self, pre: &Snap, p: &Pred, out: &TxOut, post: &Snap, tx: &Tx, kind: &str, cx: &mut Cx) {
        // donations: funds of operations that do not use them
        if out.ok && kind != "mint" && kind != "burn" && !kind.starts_with("instantiate") {
            for (d, n) in &tx.funds {
                *self.don.entry(d.clone()).or_default() += n;
            }
        }
        // whoever names the vault as the recipient gives it the amount
        if out.ok && (kind == "mint" || kind == "burn") {
            let m = &tx.msg[kind];
            let to = |k: &str| m[k].as_str() == Some(CORE);
            if kind == "mint" {
                let n = n128(&m["amount"]);
                if to("receiver") {
                    let fee = pre.fee.mint.map(|f| f.of(n).max(1)).unwrap_or(0);
                    *self.don.entry(pre.index_denom.clone()).or_default() += n.saturating_sub(fee);
                }
                if to("refund_to") {
                    let req = required(&p.exp.units, n);
                    for (d, x) in &tx.funds {
                        *self.don.entry(d.clone()).or_default() += x.saturating_sub(req.get(d).copied().unwrap_or(0));
                    }
                }
            } else if to("redeem_to") {
                let n: u128 = tx.funds.iter().map(|x| x.1).sum();
                let rest = n - pre.fee.burn.map(|f| f.of(n)).unwrap_or(0).min(n);
                for (d, u) in &p.exp.units {
                    *self.don.entry(d.clone()).or_default() += u.of(rest);
                }
            }
        }
        // C02
        cx.eval("C02", &format!("{kind}/{}/{}", out.ok, 128 - post.supply.leading_zeros()));
        if post.supply != post.chain_supply {
            cx.viol(&["C02"], "supply_mismatch", format!("recorded supply {} but {} index tokens exist after {kind}", post.supply, post.chain_supply));
        }
        let idx_don = self.don.get(&post.index_denom).copied().unwrap_or(0);
        if bal(&post.bank, CORE, &post.index_denom) != idx_don {
            cx.viol(&["C02"], "index_tokens_kept", format!("the vault keeps {} index tokens after {kind}", bal(&post.bank, CORE, &post.index_denom)));
        }
        // C01
        let cover = self.cover_of(post);
        if post.reserve.is_some() {
            if out.ok && kind == "mint" {
                self.mints += 1;
            }
            let y = post.reb.is_some();
            cx.eval("C01", &format!("{kind}/{}/{}/{}", out.ok, y, post.units.len().min(6)));
            for (d, c) in &cover {
                let old = self.cover.get(d).copied().unwrap_or_default();
                let slack = if out.ok && kind == "mint" {
                    i512(ONE - 1)
                } else {
                    i512(if out.ok { p.dust.get(d).copied().unwrap_or(0) } else { 0 })
                };
                if *c + slack < old {
                    let lost = old - *c;
                    cx.viol(&["C01"], format!("cover_drop:{kind}"), format!("{kind} reduced the cover of {d} by {} (1e-18 units)", lost));
                }
            }
        }
        self.cover = cover;
        // C08 history: accrued == paid + owed
        if out.ok {
            if p.accrues && !p.blind {
                for (d, u) in &pre.units {
                    let v = post.units.get(d).copied().unwrap_or_default();
                    if v < *u {
                        *self.accrued.entry(d.clone()).or_default() += Dec(u.0 - v.0).of(pre.supply);
                    }
                }
            } else if p.accrues {
                self.resync(post);
            }
            if kind == "realize" || kind == "update_fee_strategy" {
                for d in &self.denoms {
                    let f = tx.funds.iter().find(|x| x.0 == *d).map(|x| x.1).unwrap_or(0);
                    let (a, b) = (bal(&pre.bank, CORE, d), bal(&post.bank, CORE, d));
                    let paid = (a + f).saturating_sub(b);
                    if paid > 0 {
                        *self.paid.entry(d.clone()).or_default() += paid;
                    }
                }
            }
        }
        if let Some(st) = &post.fee.stream {
            for d in &self.denoms {
                let acc = self.accrued.get(d).copied().unwrap_or(0);
                let paid = self.paid.get(d).copied().unwrap_or(0);
                let owed = st.collected.get(d).copied().unwrap_or(0);
                if acc != paid + owed {
                    cx.viol(&["C08"], format!("fee_books:{kind}"), format!("{d}: accrued {acc}, paid {paid}, owed {owed}"));
                }
            }
        } else {
            for d in &self.denoms {
                let acc = self.accrued.get(d).copied().unwrap_or(0);
                let paid = self.paid.get(d).copied().unwrap_or(0);
                if acc != paid {
                    cx.viol(&["C08"], format!("fee_books:{kind}"), format!("{d}: accrued {acc}, paid {paid}, fee removed"));
                }
            }
        }
        // C14
        cx.eval("C14", &format!("state/{kind}/{:?}", post.fee.stream.as_ref().map(|s| s.rate.0 == MAX_RATE)));
        if !rate_ok(&post.fee.mint) || !rate_ok(&post.fee.burn) || post.fee.stream.as_ref().is_some_and(|s| s.rate.0 == 0 || s.rate.0 > MAX_RATE) {
            cx.viol(&["C14"], "fee_bounds", format!("fee settings out of bounds: {:?}", post.fee));
        }
        // ghosts
        if out.ok && (kind == "update_fee_strategy" || kind == "rebalance_finalize") {
            self.gov_froze = post.fee.stream.as_ref().map(|s| s.freeze).unwrap_or(false);
        }
    }
}

pub fn skew(n: u128, k: i64) -> u128 {
    if k >= 0 {
        n.saturating_add(k as u128)
    } else {
        n.saturating_sub((-k) as u128).max(1)
    }
}

pub fn fee_from_payload(f: &Value, now: u64) -> FeeS {
    FeeS {
        collector: s(&f["collector"]),
        mint: dec(&f["mint_fee"]),
        burn: dec(&f["burn_fee"]),
        stream: if f["streaming_fee"].is_object() {
            Some(Stream {
                rate: dec(&f["streaming_fee"]["rate"]).unwrap_or_default(),
                collected: Default::default(),
                freeze: f["streaming_fee"]["freeze"].as_bool().unwrap_or(false),
                last: now,
            })
        } else {
            None
        },
    }
}

pub fn fee_sig(f: &Value) -> String {
    let c = |v: &Value, max: u128| -> &'static str {
        match dec(v) {
            None => "none",
            Some(d) if d.0 == 0 => "zero",
            Some(d) if d.0 == 1 => "min",
            Some(d) if d.0 == max => "max",
            Some(d) if d.0 == max + 1 => "max+",
            Some(d) if d.0 > max => "over",
            _ => "in",
        }
    };
    format!("{}/{}/{}", c(&f["mint_fee"], ONE - 1), c(&f["burn_fee"], ONE - 1), c(&f["streaming_fee"]["rate"], MAX_RATE))
}

pub fn quote_out(pools: &Pools, routes: &[(u64, String)], dout: &str, out: u128) -> Option<u128> {
    pools::route_out(&mut pools.clone(), routes, dout, out).ok().map(|x| x.1)
}
pub fn quote_in(pools: &Pools, routes: &[(u64, String)], din: &str, inn: u128) -> Option<u128> {
    pools::route_in(&mut pools.clone(), din, inn, routes).ok().map(|x| x.1)
}
