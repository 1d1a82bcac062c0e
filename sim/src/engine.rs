//! Runs, steps, the simulated node (blocks, crash and re-execution), oracle context, statistics.
use crate::chain::*;
use crate::pools::Pool;
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Step {
    /// close the block, start the next one dt_ms later
    Block { dt_ms: u64 },
    Tx {
        tx: Tx,
        #[serde(default, skip_serializing_if = "Fault::is_none")]
        fault: Fault,
        #[serde(default)]
        tag: String,
    },
    /// the node stops in the middle of a block; it restarts from the last committed block and
    /// executes the interrupted block again
    Crash,
    /// somebody else trades
    PoolMove { pool: u64, denom_in: String, amount: u128, denom_out: String },
    PoolHalt { pool: u64 },
    PoolHeal { pool: u64 },
    Donate { to: String, denom: String, amount: u128 },
    SetVersion { to: String, contract: Option<String>, version: String },
    /// instantiation attempt on a fork
    TryInst { msg: Value },
    /// query / simulation check on a fork
    Probe { kind: String, args: Value },
    /// faults stop; the recovery bot drives the system to its goal
    Recover,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RunFile {
    pub family: String,
    pub cfg: Value,
    pub steps: Vec<Step>,
    #[serde(default)]
    pub seed: u64,
    #[serde(default)]
    pub property: String,
    #[serde(default)]
    pub violation: String,
    #[serde(default)]
    pub key: String,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<&'static str>,
    /// what kind of failure, stable under minimisation
    pub key: String,
    pub msg: String,
    pub step: usize,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub c: BTreeMap<String, u64>,
    pub eval: BTreeMap<&'static str, u64>,
    pub sigs: HashSet<u64>,
    pub states: HashSet<u64>,
    pub sim_ms: u64,
    pub steps: u64,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        for (k, n) in o.c {
            *self.c.entry(k).or_default() += n;
        }
        for (k, n) in o.eval {
            *self.eval.entry(k).or_default() += n;
        }
        self.sigs.extend(o.sigs);
        self.states.extend(o.states);
        self.sim_ms += o.sim_ms;
        self.steps += o.steps;
    }
}

/// Oracle context of one run.
pub struct Cx {
    pub focus: String,
    pub viols: Vec<Viol>,
    pub stats: Stats,
    pub step: usize,
    pub verbose: bool,
}
impl Cx {
    pub fn new(focus: &str) -> Self {
        Cx { focus: focus.into(), viols: vec![], stats: Stats::default(), step: 0, verbose: false }
    }
    pub fn viol(&mut self, props: &[&'static str], key: impl Into<String>, msg: impl Into<String>) {
        let (key, msg) = (key.into(), msg.into());
        if self.verbose {
            crate::say(&format!("  !! step {} {:?} {key}: {msg}", self.step, props));
        }
        if self.viols.len() < 60 {
            let mut props = props.to_vec();
            props.sort();
            props.dedup();
            self.viols.push(Viol { props, key, msg, step: self.step });
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.stats.c.entry(k.to_string()).or_default() += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.stats.c.entry(k.to_string()).or_default() += n;
    }
    /// the oracle of `prop` judged a case; `sig` identifies the kind of case
    pub fn eval(&mut self, prop: &'static str, sig: &str) {
        *self.stats.eval.entry(prop).or_default() += 1;
        if prop == self.focus {
            self.stats.sigs.insert(hash(sig.as_bytes()));
        }
    }
    pub fn log(&self, s: impl Fn() -> String) {
        if self.verbose {
            crate::say(&s());
        }
    }
}

/// One simulated node.
pub struct Node {
    pub chain: Chain,
    committed: Chain,
    log: Vec<Logged>,
    /// digest over everything observable so far
    pub acc: Fnv,
    pub halted: BTreeSet<u64>,
}

enum Logged {
    Tx(Tx, Fault, u64, bool),
    Pool(Step),
    Fix(Box<Chain>),
}

pub fn env_step(c: &mut Chain, s: &Step) -> bool {
    match s {
        Step::PoolMove { pool, denom_in, amount, denom_out } => {
            if let Some(p) = c.pools.get_mut(pool) {
                let h = std::mem::replace(&mut p.halted, false);
                let mut q: Pool = p.clone();
                let ok = q.swap_in(denom_in, *amount, denom_out).is_ok();
                if ok {
                    *p = q;
                }
                p.halted = h;
                return ok;
            }
            false
        }
        Step::PoolHalt { pool } => c.pools.get_mut(pool).map(|p| p.halted = true).is_some(),
        Step::PoolHeal { pool } => c.pools.get_mut(pool).map(|p| p.halted = false).is_some(),
        Step::Donate { to, denom, amount } => {
            c.faucet(to, denom, *amount);
            true
        }
        Step::SetVersion { to, contract, version } => {
            if let Some((_, kv)) = c.contracts.get_mut(to) {
                let name = contract.clone().or_else(|| {
                    let v: Value = serde_json::from_slice(kv.get(b"contract_info".as_slice())?).ok()?;
                    Some(v["contract"].as_str()?.to_string())
                });
                if let Some(name) = name {
                    kv.insert(
                        b"contract_info".to_vec(),
                        serde_json::to_vec(&serde_json::json!({"contract": name, "version": version})).unwrap(),
                    );
                    return true;
                }
            }
            false
        }
        _ => false,
    }
}

impl Node {
    pub fn new(chain: Chain) -> Self {
        Node { committed: chain.clone(), chain, log: vec![], acc: Fnv::default(), halted: Default::default() }
    }
    pub fn block(&mut self, dt_ms: u64, cx: &mut Cx) {
        self.chain.next_block(dt_ms);
        self.committed = self.chain.clone();
        self.log.clear();
        self.acc.num(self.chain.digest());
        cx.stats.sim_ms += dt_ms;
        cx.count("blocks");
    }
    pub fn exec(&mut self, tx: &Tx, fault: &Fault, cx: &mut Cx) -> TxOut {
        let out = self.chain.exec(tx, fault);
        self.acc.num(out.digest);
        self.acc.num(out.ok as u64);
        self.log.push(Logged::Tx(tx.clone(), fault.clone(), out.digest, out.ok));
        cx.count("transactions");
        if let Some(f) = out.fired {
            cx.count(&format!("fault/{f}"));
        }
        cx.log(|| {
            let mut sw = String::new();
            for s in &out.swaps {
                sw += &format!(" [{} swaps {}{} for {}{}]", s.sender, s.amount_in, s.denom_in, s.amount_out, s.denom_out);
            }
            format!(
                "  [h{} t{}] {} -> {} {}{} {} {:?}{}{sw}",
                self.chain.height,
                self.chain.now(),
                tx.sender,
                tx.to,
                tx.op.as_deref().map(|o| format!("({o}) ")).unwrap_or_default(),
                tx.msg,
                if out.ok { "OK" } else { "REFUSED" },
                tx.funds,
                if out.ok { String::new() } else { format!(": {} {:?}", out.err, out.fired) }
            )
        });
        out
    }
    pub fn env(&mut self, s: &Step, cx: &mut Cx) -> bool {
        let ok = env_step(&mut self.chain, s);
        if let (Step::PoolHalt { pool }, true) = (s, ok) {
            self.halted.insert(*pool);
            cx.count("fault/pool_halted");
        }
        if let (Step::PoolHeal { pool }, true) = (s, ok) {
            self.halted.remove(pool);
            cx.count("pool_healed");
        }
        self.log.push(Logged::Pool(s.clone()));
        ok
    }
    /// replace the state out of band (setup only)
    pub fn fix(&mut self) {
        self.log.push(Logged::Fix(Box::new(self.chain.clone())));
    }
    pub fn crash(&mut self, cx: &mut Cx) {
        cx.count("fault/crash_restart");
        let mut c = self.committed.clone();
        for l in &self.log {
            match l {
                Logged::Tx(tx, f, d, ok) => {
                    let o = c.exec(tx, f);
                    cx.count("reexecuted_transactions");
                    cx.eval("D01", &format!("reexec/{}/{}", kind_of(tx), ok));
                    if o.digest != *d || o.ok != *ok {
                        cx.viol(&["D01"], "reexecution", format!("re-executing {} after a crash differs: ok {} -> {}, trace {:x} -> {:x} {}", tx.msg, ok, o.ok, d, o.digest, o.err));
                    }
                }
                Logged::Pool(s) => {
                    env_step(&mut c, s);
                }
                Logged::Fix(b) => c = (**b).clone(),
            }
        }
        if c.digest() != self.chain.digest() {
            cx.viol(&["D01"], "restart_state", "state after restart and re-execution differs from the state before the crash");
        }
        self.chain = c;
    }
}

pub fn kind_of(tx: &Tx) -> String {
    if let Some(op) = &tx.op {
        return op.clone();
    }
    fn first(v: &Value) -> Option<(String, &Value)> {
        match v {
            Value::Object(m) => m.iter().next().map(|(k, v)| (k.clone(), v)),
            Value::String(s) => Some((s.clone(), &Value::Null)),
            _ => None,
        }
    }
    let Some((k, v)) = first(&tx.msg) else { return "?".into() };
    if k == "gov" || k == "rebalance" {
        if let Some((k2, v2)) = first(v) {
            if k2 == "trade" {
                if let Some((k3, _)) = first(v2) {
                    return k3;
                }
            }
            return if k == "gov" { k2 } else { format!("rebalance_{k2}") };
        }
    }
    k
}

pub trait World {
    fn apply(&mut self, s: &Step, cx: &mut Cx);
    /// next step (generator state only; never used when replaying)
    fn gen(&mut self, rng: &mut Rng, cx: &mut Cx) -> Step;
    fn finish(&mut self, cx: &mut Cx);
    fn node(&self) -> &Node;
}

pub const FAMILIES: [&str; 3] = ["vault", "periphery", "airdrop"];

pub fn gen_cfg(family: &str, rng: &mut Rng, focus: &str) -> Value {
    match family {
        "vault" => crate::vault::gen_cfg(rng, focus),
        "periphery" => crate::peri::gen_cfg(rng, focus),
        _ => crate::drop::gen_cfg(rng, focus),
    }
}
pub fn make(family: &str, cfg: &Value, cx: &mut Cx) -> Box<dyn World> {
    match family {
        "vault" => Box::new(crate::vault::VaultWorld::new(cfg, cx)),
        "periphery" => Box::new(crate::peri::PeriWorld::new(cfg, cx)),
        _ => Box::new(crate::drop::DropWorld::new(cfg, cx)),
    }
}

/// Generate and execute one run.
/// The arithmetic of the reference model may give out on a state no correct contract reaches:
/// the run ends there and keeps what it found so far.
fn guard<T>(cx: &mut Cx, f: impl FnOnce(&mut Cx) -> T) -> Option<T> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(cx)));
    if r.is_err() {
        cx.count("runs_ended_by_the_model");
    }
    r.ok()
}

pub fn gen_run(family: &str, seed: u64, focus: &str, cx: &mut Cx) -> RunFile {
    let mut rng = Rng::new(seed);
    let cfg = gen_cfg(family, &mut rng, focus);
    let n = cfg["steps"].as_u64().unwrap_or(60) as usize;
    let mut steps = vec![];
    if let Some(mut w) = guard(cx, |cx| make(family, &cfg, cx)) {
        let mut ended = false;
        for i in 0..n {
            cx.step = i;
            let Some(s) = guard(cx, |cx| w.gen(&mut rng, cx)) else {
                ended = true;
                break;
            };
            cx.stats.steps += 1;
            ended = guard(cx, |cx| w.apply(&s, cx)).is_none();
            steps.push(s);
            if ended || cx.viols.iter().any(|v| v.props.iter().any(|p| *p == focus)) {
                break;
            }
        }
        if !ended {
            guard(cx, |cx| w.finish(cx));
        }
    }
    RunFile { family: family.into(), cfg, steps, seed, property: focus.into(), violation: String::new(), key: String::new() }
}

/// Execute a recorded run. Returns the digest of everything observable.
pub fn exec_run(rf: &RunFile, cx: &mut Cx) -> u64 {
    QDIG.with(|q| q.set(Fnv::default()));
    let Some(mut w) = guard(cx, |cx| make(&rf.family, &rf.cfg, cx)) else { return 1 };
    let mut ended = false;
    for (i, s) in rf.steps.iter().enumerate() {
        cx.step = i;
        cx.stats.steps += 1;
        cx.log(|| format!("step {i}: {}", step_name(s)));
        ended = guard(cx, |cx| w.apply(s, cx)).is_none();
        if ended {
            break;
        }
    }
    if !ended {
        guard(cx, |cx| w.finish(cx));
    }
    let mut f = w.node().acc;
    f.num(w.node().chain.digest());
    f.num(QDIG.with(|q| q.get().0));
    f.0
}

pub fn step_name(s: &Step) -> String {
    match s {
        Step::Tx { tx, fault, tag } => format!("tx {} {tag} {}", kind_of(tx), if fault.is_none() { String::new() } else { serde_json::to_string(fault).unwrap() }),
        o => serde_json::to_string(o).unwrap(),
    }
}
