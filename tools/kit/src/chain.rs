//! The simulated chain: bank, tokenfactory, exchange and wasm dispatch around the real contracts.
use crate::pools::{self, Pools, R};
use crate::store::{Ctl, Kv, OutOfGas, SimStorage};
use crate::util::*;
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    from_json, Addr, AllBalanceResponse, Api, BalanceResponse, BankMsg, BankQuery, Binary, BlockInfo,
    CanonicalAddr, Coin, ContractInfo, ContractResult, CosmosMsg, Deps, DepsMut, Empty, Env, Event,
    MessageInfo, Querier, QuerierResult, QuerierWrapper, QueryRequest, RecoverPubkeyError, Reply,
    ReplyOn, Response, StdError, StdResult, Storage, SubMsg, SubMsgResponse, SubMsgResult,
    SystemError, SystemResult, Timestamp, TransactionInfo, Uint128, VerificationError, WasmMsg,
    WasmQuery,
};
use osmosis_std::types::osmosis::poolmanager::v1beta1 as pm;
use osmosis_std::types::osmosis::tokenfactory::v1beta1 as tf;
use prost::Message;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

thread_local! {
    /// digest of every query answer given on this thread
    pub static QDIG: std::cell::Cell<Fnv> = const { std::cell::Cell::new(Fnv(0)) };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Kind {
    Core,
    Periphery,
    Airdrop,
}

pub type Funds = Vec<(String, u128)>;
pub type Bank = BTreeMap<String, BTreeMap<String, u128>>;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Tx {
    pub sender: String,
    pub to: String,
    pub msg: Value,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub funds: Funds,
    /// None: execute. Some("migrate") / Some("instantiate:Core")
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub op: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub oog_at: Option<u64>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fail_query_at: Option<u64>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fail_msg_at: Option<u64>,
    /// chain price estimates are off by this much
    #[serde(default, skip_serializing_if = "is0")]
    pub quote_skew: i64,
    /// every swap executes worse than the pools say by this much
    #[serde(default, skip_serializing_if = "is0u")]
    pub exec_worse: u64,
}
fn is0(x: &i64) -> bool {
    *x == 0
}
fn is0u(x: &u64) -> bool {
    *x == 0
}
impl Fault {
    pub fn is_none(&self) -> bool {
        *self == Fault::default()
    }
    pub fn hard(&self) -> bool {
        self.oog_at.is_some() || self.fail_query_at.is_some() || self.fail_msg_at.is_some()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Swap {
    pub sender: String,
    pub denom_in: String,
    pub amount_in: u128,
    pub denom_out: String,
    pub amount_out: u128,
}

#[derive(Clone, Debug, Default)]
pub struct TxOut {
    pub ok: bool,
    pub err: String,
    pub digest: u64,
    pub storage_ops: u64,
    pub queries: u64,
    pub msgs: u64,
    pub fired: Option<&'static str>,
    pub swaps: Vec<Swap>,
    pub attrs: Vec<(String, String)>,
    pub events: u64,
}

#[derive(Clone)]
pub struct Chain {
    pub height: u64,
    pub time_ns: u64,
    pub bank: Bank,
    pub supply: BTreeMap<String, u128>,
    pub factory: BTreeSet<String>,
    pub contracts: BTreeMap<String, (Kind, Kv)>,
    pub pools: Pools,
    pub txs_in_block: u32,
}

pub fn valid_addr(s: &str) -> bool {
    (3..=90).contains(&s.len()) && s.bytes().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit())
}

#[derive(Clone, Copy, Default)]
pub struct SimApi;
impl Api for SimApi {
    fn addr_validate(&self, h: &str) -> StdResult<Addr> {
        if valid_addr(h) {
            Ok(Addr::unchecked(h))
        } else {
            Err(StdError::generic_err(format!("invalid address: {h}")))
        }
    }
    fn addr_canonicalize(&self, h: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(h)?;
        Ok(CanonicalAddr::from(h.as_bytes()))
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        let s = String::from_utf8(c.as_slice().to_vec()).map_err(|_| StdError::generic_err("utf8"))?;
        self.addr_validate(&s)
    }
    fn secp256k1_verify(&self, m: &[u8], s: &[u8], p: &[u8]) -> Result<bool, VerificationError> {
        MockApi::default().secp256k1_verify(m, s, p)
    }
    fn secp256k1_recover_pubkey(&self, m: &[u8], s: &[u8], r: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        MockApi::default().secp256k1_recover_pubkey(m, s, r)
    }
    fn ed25519_verify(&self, m: &[u8], s: &[u8], p: &[u8]) -> Result<bool, VerificationError> {
        MockApi::default().ed25519_verify(m, s, p)
    }
    fn ed25519_batch_verify(&self, m: &[&[u8]], s: &[&[u8]], p: &[&[u8]]) -> Result<bool, VerificationError> {
        MockApi::default().ed25519_batch_verify(m, s, p)
    }
    fn debug(&self, _m: &str) {}
}

struct SimQuerier<'a> {
    chain: &'a Chain,
    ctl: Rc<Ctl>,
}

fn parse_coin(s: &str) -> Option<(u128, String)> {
    let i = s.find(|c: char| !c.is_ascii_digit())?;
    Some((s[..i].parse().ok()?, s[i..].to_string()))
}

impl<'a> Querier for SimQuerier<'a> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let n = self.ctl.queries.get();
        self.ctl.queries.set(n + 1);
        self.ctl.note(bin);
        if self.ctl.fail_query_at.get() == Some(n) {
            self.ctl.fired.set(Some("query_error"));
            return SystemResult::Ok(ContractResult::Err("injected query error".into()));
        }
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: Binary::from(bin),
                })
            }
        };
        match self.chain.do_query(req, &self.ctl) {
            Ok(b) => {
                self.ctl.note(&b);
                SystemResult::Ok(ContractResult::Ok(b))
            }
            Err(e) => SystemResult::Ok(ContractResult::Err(e)),
        }
    }
}

fn tojson<T: Serialize>(t: &T) -> R<Binary> {
    serde_json::to_vec(t).map(Binary::from).map_err(|e| e.to_string())
}

struct Run {
    ctl: Rc<Ctl>,
    swaps: RefCell<Vec<Swap>>,
    attrs: RefCell<Vec<(String, String)>>,
}

impl Chain {
    pub fn new(time_ns: u64) -> Self {
        Chain {
            height: 1000,
            time_ns,
            bank: Default::default(),
            supply: Default::default(),
            factory: Default::default(),
            contracts: Default::default(),
            pools: Default::default(),
            txs_in_block: 0,
        }
    }
    pub fn now(&self) -> u64 {
        self.time_ns / 1_000_000_000
    }
    pub fn bal(&self, a: &str, d: &str) -> u128 {
        self.bank.get(a).and_then(|m| m.get(d)).copied().unwrap_or(0)
    }
    pub fn credit(&mut self, a: &str, d: &str, n: u128) {
        if n > 0 {
            *self.bank.entry(a.to_string()).or_default().entry(d.to_string()).or_default() += n;
        }
    }
    pub fn debit(&mut self, a: &str, d: &str, n: u128) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let have = self.bal(a, d);
        if have < n {
            return Err(format!("insufficient funds: {a} has {have}{d}, needs {n}"));
        }
        let m = self.bank.get_mut(a).unwrap();
        if have == n {
            m.remove(d);
            if m.is_empty() {
                self.bank.remove(a);
            }
        } else {
            m.insert(d.to_string(), have - n);
        }
        Ok(())
    }
    pub fn transfer(&mut self, from: &str, to: &str, d: &str, n: u128) -> R<()> {
        self.debit(from, d, n)?;
        self.credit(to, d, n);
        Ok(())
    }
    /// faucet: creates tokens (setup only)
    pub fn faucet(&mut self, a: &str, d: &str, n: u128) {
        self.credit(a, d, n);
        if n > 0 {
            *self.supply.entry(d.to_string()).or_default() += n;
        }
    }
    pub fn next_block(&mut self, dt_ms: u64) {
        self.height += 1;
        self.time_ns += dt_ms * 1_000_000;
        self.txs_in_block = 0;
    }
    pub fn digest(&self) -> u64 {
        let mut f = Fnv::default();
        f.num(self.height);
        f.num(self.time_ns);
        for (a, m) in &self.bank {
            f.add(a.as_bytes());
            for (d, n) in m {
                f.add(d.as_bytes());
                f.add(&n.to_le_bytes());
            }
        }
        for (d, n) in &self.supply {
            f.add(d.as_bytes());
            f.add(&n.to_le_bytes());
        }
        for (a, (_, kv)) in &self.contracts {
            f.add(a.as_bytes());
            for (k, v) in kv {
                f.add(k);
                f.add(v);
            }
        }
        for p in self.pools.values() {
            f.num(p.id);
            f.num(p.halted as u64);
            for a in &p.assets {
                f.add(a.denom.as_bytes());
                f.add(&a.bal.to_le_bytes());
            }
        }
        f.0
    }

    fn env(&self, addr: &str) -> Env {
        Env {
            block: BlockInfo {
                height: self.height,
                time: Timestamp::from_nanos(self.time_ns),
                chain_id: "osmosis-sim-1".into(),
            },
            transaction: Some(TransactionInfo { index: self.txs_in_block }),
            contract: ContractInfo { address: Addr::unchecked(addr) },
        }
    }

    /// query a contract from outside
    pub fn query(&self, addr: &str, msg: &Value) -> R<Value> {
        self.query_at(addr, msg, self.time_ns)
    }
    pub fn query_at(&self, addr: &str, msg: &Value, _t: u64) -> R<Value> {
        let ctl = Rc::new(Ctl::default());
        let b = serde_json::to_vec(msg).map_err(|e| e.to_string())?;
        let r = catch_unwind(AssertUnwindSafe(|| self.smart(addr, &b, &ctl)));
        QDIG.with(|q| {
            let mut f = q.get();
            f.num(ctl.trace.borrow().0);
            match &r {
                Ok(Ok(b)) => f.add(b),
                Ok(Err(e)) => f.add(e.as_bytes()),
                Err(_) => f.num(1),
            }
            q.set(f);
        });
        match r {
            Ok(Ok(b)) => serde_json::from_slice(&b).map_err(|e| e.to_string()),
            Ok(Err(e)) => Err(e),
            Err(_) => Err("panic in query".into()),
        }
    }

    fn smart(&self, addr: &str, msg: &[u8], ctl: &Rc<Ctl>) -> R<Binary> {
        let (kind, kv) = self.contracts.get(addr).ok_or_else(|| format!("no such contract: {addr}"))?;
        let st = SimStorage { map: kv.clone(), ctl: ctl.clone() };
        let q = SimQuerier { chain: self, ctl: ctl.clone() };
        let deps = Deps { storage: &st, api: &SimApi, querier: QuerierWrapper::new(&q) };
        let env = self.env(addr);
        macro_rules! go {
            ($m:ident) => {
                $m::contract::query(deps, env, from_json(msg).map_err(|e| e.to_string())?)
                    .map_err(|e| e.to_string())
            };
        }
        match kind {
            Kind::Core => go!(ibcx_core),
            Kind::Periphery => go!(ibcx_periphery),
            Kind::Airdrop => go!(ibcx_airdrop),
        }
    }

    fn do_query(&self, req: QueryRequest<Empty>, ctl: &Rc<Ctl>) -> R<Binary> {
        match req {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let n = self.bal(&address, &denom);
                let r: BalanceResponse =
                    from_json(format!(r#"{{"amount":{{"denom":{denom:?},"amount":"{n}"}}}}"#)).map_err(|e| e.to_string())?;
                tojson(&r)
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let v: Vec<String> = self
                    .bank
                    .get(&address)
                    .into_iter()
                    .flatten()
                    .map(|(d, n)| format!(r#"{{"denom":{d:?},"amount":"{n}"}}"#))
                    .collect();
                let r: AllBalanceResponse =
                    from_json(format!(r#"{{"amount":[{}]}}"#, v.join(","))).map_err(|e| e.to_string())?;
                tojson(&r)
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => self.smart(&contract_addr, &msg, ctl),
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => {
                let (_, kv) = self.contracts.get(&contract_addr).ok_or("no such contract")?;
                Ok(Binary::from(kv.get(key.as_slice()).cloned().unwrap_or_default()))
            }
            QueryRequest::Stargate { path, data } => self.stargate_query(&path, &data, ctl),
            other => Err(format!("unsupported query {other:?}")),
        }
    }

    fn stargate_query(&self, path: &str, data: &[u8], ctl: &Rc<Ctl>) -> R<Binary> {
        let skew = |n: u128| -> u128 {
            let s = ctl.quote_skew.get();
            if s != 0 {
                ctl.fired.set(Some("quote_skew"));
            }
            if s >= 0 {
                n.saturating_add(s as u128)
            } else {
                n.saturating_sub((-s) as u128).max(1)
            }
        };
        match path {
            "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountIn" => {
                let m = pm::EstimateSwapExactAmountInRequest::decode(data).map_err(|e| e.to_string())?;
                let (a, d) = parse_coin(&m.token_in).ok_or("bad token_in")?;
                let rs: Vec<_> = m.routes.iter().map(|r| (r.pool_id, r.token_out_denom.clone())).collect();
                let (_, n) = pools::route_in(&mut self.pools.clone(), &d, a, &rs)?;
                Ok(Binary::from(format!(r#"{{"token_out_amount":"{}"}}"#, skew(n)).as_bytes()))
            }
            "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountOut" => {
                let m = pm::EstimateSwapExactAmountOutRequest::decode(data).map_err(|e| e.to_string())?;
                let (a, d) = parse_coin(&m.token_out).ok_or("bad token_out")?;
                let rs: Vec<_> = m.routes.iter().map(|r| (r.pool_id, r.token_in_denom.clone())).collect();
                let (_, n) = pools::route_out(&mut self.pools.clone(), &rs, &d, a)?;
                Ok(Binary::from(format!(r#"{{"token_in_amount":"{}"}}"#, skew(n)).as_bytes()))
            }
            "/osmosis.poolmanager.v1beta1.Query/Pool" => {
                let m = pm::PoolRequest::decode(data).map_err(|e| e.to_string())?;
                let p = self.pools.get(&m.pool_id).ok_or_else(|| format!("pool {} not found", m.pool_id))?;
                Ok(Binary::from(p.json().as_bytes()))
            }
            _ => Err(format!("unknown query path {path}")),
        }
    }

    /// Executes a transaction: all or nothing.
    pub fn exec(&mut self, tx: &Tx, fault: &Fault) -> TxOut {
        let ctl = Rc::new(Ctl::default());
        ctl.oog_at.set(fault.oog_at);
        ctl.fail_query_at.set(fault.fail_query_at);
        ctl.fail_msg_at.set(fault.fail_msg_at);
        ctl.quote_skew.set(fault.quote_skew);
        ctl.exec_worse.set(fault.exec_worse);
        let run = Run { ctl: ctl.clone(), swaps: Default::default(), attrs: Default::default() };
        let mut work = self.clone();
        let res = catch_unwind(AssertUnwindSafe(|| work.run_tx(tx, &run)));
        self.txs_in_block += 1;
        work.txs_in_block = self.txs_in_block;
        let (ok, err) = match res {
            Ok(Ok(())) => (true, String::new()),
            Ok(Err(e)) => (false, e),
            Err(p) => (
                false,
                if p.downcast_ref::<OutOfGas>().is_some() {
                    "out of gas".to_string()
                } else if let Some(s) = p.downcast_ref::<String>() {
                    format!("panic: {s}")
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    format!("panic: {s}")
                } else {
                    "panic".to_string()
                },
            ),
        };
        if ok {
            *self = work;
        }
        let mut t = *ctl.trace.borrow();
        t.add(err.as_bytes());
        let out = TxOut {
            ok,
            err,
            digest: t.0,
            storage_ops: ctl.storage_ops.get(),
            queries: ctl.queries.get(),
            msgs: ctl.msgs.get(),
            fired: ctl.fired.get(),
            swaps: run.swaps.take(),
            attrs: run.attrs.take(),
            events: ctl.steps.get(),
        };
        out
    }

    fn run_tx(&mut self, tx: &Tx, run: &Run) -> R<()> {
        for (i, (d, n)) in tx.funds.iter().enumerate() {
            if *n == 0 || tx.funds[..i].iter().any(|(e, _)| e == d) {
                return Err("invalid coins".into());
            }
        }
        let bin = serde_json::to_vec(&tx.msg).map_err(|e| e.to_string())?;
        match tx.op.as_deref() {
            None => self.execute(&tx.sender, &tx.to, &bin, &tx.funds, run).map(|_| ()),
            Some("migrate") => {
                let resp = self.call(&tx.to, run, |kind, deps, env| {
                    macro_rules! go {
                        ($m:ident) => {
                            $m::contract::migrate(deps, env, from_json(&bin).map_err(|e| e.to_string())?)
                                .map_err(|e| e.to_string())
                        };
                    }
                    match kind {
                        Kind::Core => go!(ibcx_core),
                        Kind::Periphery => go!(ibcx_periphery),
                        Kind::Airdrop => go!(ibcx_airdrop),
                    }
                })?;
                self.handle(&tx.to, resp, run).map(|_| ())
            }
            Some(op) => {
                let kind = match op {
                    "instantiate:Core" => Kind::Core,
                    "instantiate:Periphery" => Kind::Periphery,
                    "instantiate:Airdrop" => Kind::Airdrop,
                    _ => return Err(format!("bad op {op}")),
                };
                if self.contracts.contains_key(&tx.to) {
                    return Err("contract exists".into());
                }
                self.contracts.insert(tx.to.clone(), (kind, Kv::new()));
                for (d, n) in &tx.funds {
                    self.transfer(&tx.sender, &tx.to, d, *n)?;
                }
                let info = minfo(&tx.sender, &tx.funds);
                let resp = self.call(&tx.to, run, |kind, deps, env| {
                    macro_rules! go {
                        ($m:ident) => {
                            $m::contract::instantiate(deps, env, info.clone(), from_json(&bin).map_err(|e| e.to_string())?)
                                .map_err(|e| e.to_string())
                        };
                    }
                    match kind {
                        Kind::Core => go!(ibcx_core),
                        Kind::Periphery => go!(ibcx_periphery),
                        Kind::Airdrop => go!(ibcx_airdrop),
                    }
                })?;
                self.handle(&tx.to, resp, run).map(|_| ())
            }
        }
    }

    fn call<F>(&mut self, addr: &str, run: &Run, f: F) -> R<Response>
    where
        F: FnOnce(Kind, DepsMut, Env) -> R<Response>,
    {
        let (kind, kv) = self.contracts.get(addr).ok_or_else(|| format!("no such contract: {addr}"))?;
        let kind = *kind;
        let mut st = SimStorage { map: kv.clone(), ctl: run.ctl.clone() };
        let env = self.env(addr);
        let res = {
            let q = SimQuerier { chain: self, ctl: run.ctl.clone() };
            let deps = DepsMut { storage: &mut st as &mut dyn Storage, api: &SimApi, querier: QuerierWrapper::new(&q) };
            f(kind, deps, env)?
        };
        self.contracts.get_mut(addr).unwrap().1 = st.map;
        run.ctl.note(format!("{res:?}").as_bytes());
        for a in &res.attributes {
            run.attrs.borrow_mut().push((a.key.clone(), a.value.clone()));
        }
        Ok(res)
    }

    fn execute(&mut self, sender: &str, to: &str, bin: &[u8], funds: &Funds, run: &Run) -> R<Option<Binary>> {
        let s = run.ctl.steps.get();
        run.ctl.steps.set(s + 1);
        if s > 300 {
            return Err("call depth".into());
        }
        if !self.contracts.contains_key(to) {
            return Err(format!("no such contract: {to}"));
        }
        for (d, n) in funds {
            self.transfer(sender, to, d, *n)?;
        }
        let info = minfo(sender, funds);
        let resp = self.call(to, run, |kind, deps, env| {
            macro_rules! go {
                ($m:ident) => {
                    $m::contract::execute(deps, env, info.clone(), from_json(bin).map_err(|e| e.to_string())?)
                        .map_err(|e| e.to_string())
                };
            }
            match kind {
                Kind::Core => go!(ibcx_core),
                Kind::Periphery => go!(ibcx_periphery),
                Kind::Airdrop => go!(ibcx_airdrop),
            }
        })?;
        self.handle(to, resp, run)
    }

    fn handle(&mut self, addr: &str, resp: Response, run: &Run) -> R<Option<Binary>> {
        let mut data = resp.data.clone();
        for sm in resp.messages {
            if let Some(d) = self.sub(addr, sm, run)? {
                data = Some(d);
            }
        }
        Ok(data)
    }

    fn sub(&mut self, addr: &str, sm: SubMsg, run: &Run) -> R<Option<Binary>> {
        let catching = matches!(sm.reply_on, ReplyOn::Error | ReplyOn::Always);
        let backup = if catching { Some(self.clone()) } else { None };
        let r = self.dispatch(addr, sm.msg, run);
        let result = match r {
            Ok(data) => {
                if !matches!(sm.reply_on, ReplyOn::Success | ReplyOn::Always) {
                    return Ok(None);
                }
                SubMsgResult::Ok(SubMsgResponse { events: Vec::<Event>::new(), data })
            }
            Err(e) => {
                if !catching {
                    return Err(e);
                }
                *self = backup.unwrap();
                SubMsgResult::Err(e)
            }
        };
        let rep = Reply { id: sm.id, result };
        let resp = self.call(addr, run, |kind, deps, env| match kind {
            Kind::Core => ibcx_core::contract::reply(deps, env, rep).map_err(|e| e.to_string()),
            _ => Err("no reply entry point".into()),
        })?;
        self.handle(addr, resp, run)
    }

    fn dispatch(&mut self, sender: &str, msg: CosmosMsg, run: &Run) -> R<Option<Binary>> {
        let n = run.ctl.msgs.get();
        run.ctl.msgs.set(n + 1);
        if run.ctl.fail_msg_at.get() == Some(n) {
            run.ctl.fired.set(Some(match &msg {
                CosmosMsg::Bank(_) => "transfer_refused",
                CosmosMsg::Wasm(_) => "contract_call_refused",
                CosmosMsg::Stargate { type_url, .. } if type_url.contains("tokenfactory") => "tokenfactory_refused",
                _ => "swap_refused",
            }));
            return Err("injected message failure".into());
        }
        match msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                let cs = norm(&amount)?;
                if cs.is_empty() {
                    return Ok(None);
                }
                if !valid_addr(&to_address) {
                    return Err("invalid address".into());
                }
                for (d, n) in cs {
                    self.transfer(sender, &to_address, &d, n)?;
                }
                Ok(None)
            }
            CosmosMsg::Bank(BankMsg::Burn { amount }) => {
                for (d, n) in norm(&amount)? {
                    self.debit(sender, &d, n)?;
                    let s = self.supply.entry(d).or_default();
                    *s = s.saturating_sub(n);
                }
                Ok(None)
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                let mut f: BTreeMap<String, u128> = BTreeMap::new();
                for c in funds {
                    if !c.amount.is_zero() {
                        *f.entry(c.denom).or_default() += c.amount.u128();
                    }
                }
                self.execute(sender, &contract_addr, &msg, &f.into_iter().collect(), run)
            }
            CosmosMsg::Stargate { type_url, value } => self.stargate_msg(sender, &type_url, &value, run),
            other => Err(format!("unsupported message {other:?}")),
        }
    }

    fn stargate_msg(&mut self, sender: &str, url: &str, value: &[u8], run: &Run) -> R<Option<Binary>> {
        fn coin(c: Option<osmosis_std::types::cosmos::base::v1beta1::Coin>) -> R<(String, u128)> {
            let c = c.ok_or("missing coin")?;
            let n: u128 = c.amount.parse().map_err(|_| "bad amount")?;
            if n == 0 {
                return Err("invalid coins: zero".into());
            }
            Ok((c.denom, n))
        }
        let own = |s: &str| if s == sender { Ok(()) } else { Err(format!("signer mismatch: {s}")) };
        match url {
            "/osmosis.tokenfactory.v1beta1.MsgCreateDenom" => {
                let m = tf::MsgCreateDenom::decode(value).map_err(|e| e.to_string())?;
                own(&m.sender)?;
                if m.subdenom.len() > 44 {
                    return Err("subdenom too long".into());
                }
                let d = format!("factory/{}/{}", m.sender, m.subdenom);
                if !self.factory.insert(d.clone()) {
                    return Err("denom exists".into());
                }
                let r = tf::MsgCreateDenomResponse { new_token_denom: d };
                Ok(Some(Binary::from(r.encode_to_vec())))
            }
            "/osmosis.tokenfactory.v1beta1.MsgMint" => {
                let m = tf::MsgMint::decode(value).map_err(|e| e.to_string())?;
                own(&m.sender)?;
                let (d, n) = coin(m.amount)?;
                if !self.factory.contains(&d) || !d.starts_with(&format!("factory/{sender}/")) {
                    return Err("unauthorized denom".into());
                }
                let to = if m.mint_to_address.is_empty() { sender.to_string() } else { m.mint_to_address };
                self.faucet(&to, &d, n);
                Ok(None)
            }
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                let m = tf::MsgBurn::decode(value).map_err(|e| e.to_string())?;
                own(&m.sender)?;
                let (d, n) = coin(m.amount)?;
                if !self.factory.contains(&d) || !d.starts_with(&format!("factory/{sender}/")) {
                    return Err("unauthorized denom".into());
                }
                let from = if m.burn_from_address.is_empty() { sender.to_string() } else { m.burn_from_address };
                self.debit(&from, &d, n)?;
                *self.supply.entry(d).or_default() -= n;
                Ok(None)
            }
            "/osmosis.poolmanager.v1beta1.MsgSwapExactAmountIn" => {
                let m = pm::MsgSwapExactAmountIn::decode(value).map_err(|e| e.to_string())?;
                own(&m.sender)?;
                let (d, n) = coin(m.token_in)?;
                let min: u128 = m.token_out_min_amount.parse().map_err(|_| "bad min")?;
                if min == 0 {
                    return Err("token out min amount must be positive".into());
                }
                let rs: Vec<_> = m.routes.iter().map(|r| (r.pool_id, r.token_out_denom.clone())).collect();
                let (od, mut o) = pools::route_in(&mut self.pools, &d, n, &rs)?;
                let w = run.ctl.exec_worse.get() as u128;
                if w > 0 {
                    run.ctl.fired.set(Some("swap_slippage"));
                    o = o.saturating_sub(w);
                }
                if o < min {
                    return Err(format!("token is lesser than min amount: {o} < {min}"));
                }
                self.debit(sender, &d, n)?;
                self.credit(sender, &od, o);
                run.swaps.borrow_mut().push(Swap { sender: sender.into(), denom_in: d, amount_in: n, denom_out: od, amount_out: o });
                let r = pm::MsgSwapExactAmountInResponse { token_out_amount: o.to_string() };
                Ok(Some(Binary::from(r.encode_to_vec())))
            }
            "/osmosis.poolmanager.v1beta1.MsgSwapExactAmountOut" => {
                let m = pm::MsgSwapExactAmountOut::decode(value).map_err(|e| e.to_string())?;
                own(&m.sender)?;
                let (d, n) = coin(m.token_out)?;
                let max: u128 = m.token_in_max_amount.parse().map_err(|_| "bad max")?;
                if max == 0 {
                    return Err("token in max amount must be positive".into());
                }
                let rs: Vec<_> = m.routes.iter().map(|r| (r.pool_id, r.token_in_denom.clone())).collect();
                let (id, mut i) = pools::route_out(&mut self.pools, &rs, &d, n)?;
                let w = run.ctl.exec_worse.get() as u128;
                if w > 0 {
                    run.ctl.fired.set(Some("swap_slippage"));
                    i += w;
                }
                if i > max {
                    return Err(format!("token is more than max amount: {i} > {max}"));
                }
                self.debit(sender, &id, i)?;
                self.credit(sender, &d, n);
                run.swaps.borrow_mut().push(Swap { sender: sender.into(), denom_in: id, amount_in: i, denom_out: d, amount_out: n });
                let r = pm::MsgSwapExactAmountOutResponse { token_in_amount: i.to_string() };
                Ok(Some(Binary::from(r.encode_to_vec())))
            }
            _ => Err(format!("unknown message {url}")),
        }
    }
}

fn norm(cs: &[Coin]) -> R<BTreeMap<String, u128>> {
    let mut f: BTreeMap<String, u128> = BTreeMap::new();
    for c in cs {
        if !c.amount.is_zero() {
            *f.entry(c.denom.clone()).or_default() += c.amount.u128();
        }
    }
    if f.is_empty() && !cs.is_empty() {
        return Err("invalid coins: empty after dropping zeros".into());
    }
    Ok(f)
}

pub fn minfo(sender: &str, funds: &Funds) -> MessageInfo {
    let mut f: Vec<Coin> = funds.iter().map(|(d, n)| Coin { denom: d.clone(), amount: Uint128::new(*n) }).collect();
    f.sort_by(|a, b| a.denom.cmp(&b.denom));
    MessageInfo { sender: Addr::unchecked(sender), funds: f }
}
