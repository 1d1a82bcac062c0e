//! Small driver around the simulated chain for a scripted scenario.
use crate::chain::*;
use crate::pools::{Asset, Pool};
use crate::util::*;
use serde_json::{json, Value};

pub const IDX: &str = "factory/core/idx";

pub struct W {
    pub c: Chain,
}
fn fs(f: &[(&str, u128)]) -> Funds {
    let mut v: Funds = f.iter().map(|(d, n)| (d.to_string(), *n)).collect();
    v.sort();
    v
}
impl W {
    pub fn new() -> W {
        let mut c = Chain::new(1_700_000_000_000_000_000);
        for u in ["alice", "bob", "carol", "gov0", "mgr", "admin", "stranger", "deployer"] {
            for d in ["uosmo", "uusdc", "uatom", "ujuno", "umars", "ustars"] {
                c.faucet(u, d, 1 << 100);
            }
        }
        W { c }
    }
    pub fn wait(&mut self, s: u64) {
        self.c.next_block(s * 1000);
    }
    pub fn try_tx(&mut self, from: &str, to: &str, msg: Value, funds: &[(&str, u128)]) -> TxOut {
        let t = Tx { sender: from.into(), to: to.into(), msg, funds: fs(funds), op: None };
        let o = self.c.exec(&t, &Fault::default());
        if !o.ok {
            println!("  refused: {} -> {} {}: {}", t.sender, t.to, t.msg, o.err);
        }
        o
    }
    pub fn op(&mut self, from: &str, to: &str, op: &str, msg: Value) -> TxOut {
        let t = Tx { sender: from.into(), to: to.into(), msg, funds: vec![], op: Some(op.into()) };
        let o = self.c.exec(&t, &Fault::default());
        if !o.ok {
            println!("  refused: {} {} {}: {}", t.to, op, t.msg, o.err);
        }
        o
    }
    pub fn tx(&mut self, from: &str, to: &str, msg: Value, funds: &[(&str, u128)]) -> TxOut {
        let o = self.try_tx(from, to, msg.clone(), funds);
        assert!(o.ok, "setup step failed: {msg}: {}", o.err);
        o
    }
    /// vault "core"; fee as JSON, units as (denom, decimal string)
    pub fn core(&mut self, fee: Value, units: &[(&str, &str)], reserve: &str) {
        self.c.faucet("deployer", "uosmo", 10_000_000);
        let o = self.op("deployer", "core", "instantiate:Core", json!({"fee": fee, "gov": "gov0", "index_denom": "idx", "index_units": units, "reserve_denom": reserve}));
        assert!(o.ok, "{}", o.err);
    }
    pub fn peri(&mut self) {
        assert!(self.op("deployer", "peri", "instantiate:Periphery", json!({})).ok);
    }
    pub fn drops(&mut self) {
        assert!(self.op("deployer", "drops", "instantiate:Airdrop", json!({})).ok);
    }
    pub fn pool(&mut self, id: u64, a: (&str, u128), b: (&str, u128)) {
        self.pool_of(id, "weighted", a, b)
    }
    pub fn pool_of(&mut self, id: u64, kind: &str, a: (&str, u128), b: (&str, u128)) {
        let asset = |x: (&str, u128)| Asset { denom: x.0.into(), bal: x.1, weight: 1 << 30 };
        self.c.pools.insert(id, Pool { id, kind: kind.into(), assets: vec![asset(a), asset(b)], fee: Dec(0), halted: false });
        for x in [a, b] {
            *self.c.supply.entry(x.0.to_string()).or_default() += x.1;
        }
    }
    pub fn mint(&mut self, who: &str, n: u128, funds: &[(&str, u128)]) -> TxOut {
        self.try_tx(who, "core", json!({"mint": {"amount": n.to_string()}}), funds)
    }
    pub fn burn(&mut self, who: &str, n: u128) -> TxOut {
        self.try_tx(who, "core", json!({"burn": {}}), &[(IDX, n)])
    }
    pub fn gov(&mut self, m: Value) -> TxOut {
        self.try_tx("gov0", "core", json!({"gov": m}), &[])
    }
    pub fn q(&self, to: &str, m: Value) -> Value {
        self.c.query(to, &m).unwrap_or_else(|e| panic!("query {m}: {e}"))
    }
    pub fn bal(&self, a: &str, d: &str) -> u128 {
        self.c.bal(a, d)
    }
    pub fn supply(&self) -> u128 {
        self.c.supply.get(IDX).copied().unwrap_or(0)
    }
    pub fn unit(&self, d: &str) -> String {
        let v = self.q("core", json!({"get_portfolio": {"time": null}}));
        v["units"].as_array().unwrap().iter().find(|u| u[0] == d).map(|u| u[1].as_str().unwrap().to_string()).unwrap_or("0".into())
    }
    pub fn faulty(&mut self, from: &str, to: &str, msg: Value, funds: &[(&str, u128)], fault: Fault) -> TxOut {
        let t = Tx { sender: from.into(), to: to.into(), msg, funds: fs(funds), op: None };
        let o = self.c.exec(&t, &fault);
        println!("  with fault: {} -> ok={} {}", t.msg, o.ok, o.err);
        o
    }
    // ---- rebalancing
    pub fn init(&mut self, mgr: Option<&str>, deflation: &[(&str, &str)], inflation: &[(&str, &str)]) -> TxOut {
        self.try_tx("gov0", "core", json!({"rebalance": {"init": {"manager": mgr, "deflation": deflation, "inflation": inflation}}}), &[])
    }
    pub fn deflate(&mut self, who: &str, denom: &str, out: u128, max_in: u128) -> TxOut {
        self.try_tx(who, "core", deflate_msg(denom, out, max_in), &[])
    }
    pub fn inflate(&mut self, who: &str, denom: &str, amt: u128, min_out: u128) -> TxOut {
        self.try_tx(who, "core", inflate_msg(denom, amt, min_out), &[])
    }
    pub fn finalize(&mut self, who: &str) -> TxOut {
        self.try_tx(who, "core", json!({"rebalance": {"finalize": {}}}), &[])
    }
    pub fn route(&mut self, denom: &str, hops: &[(u64, &str)], cooldown: u64, max: u128) -> TxOut {
        let hops: Vec<Value> = hops.iter().map(|(p, d)| json!({"pool_id": p, "token_denom": d})).collect();
        self.gov(json!({"update_trade_info": {"denom": denom, "routes": hops, "cooldown": cooldown, "max_trade_amount": max.to_string()}}))
    }
    pub fn collected(&self, d: &str) -> u128 {
        let f = self.q("core", json!({"get_fee": {"time": null}}));
        f["streaming_fee"]["collected"].as_array().map(|v| v.iter().find(|c| c["denom"] == d).map(|c| num(&c["amount"])).unwrap_or(0)).unwrap_or(0)
    }
    /// what the vault holds of `d` beyond unit times supply and recorded streaming fee
    pub fn slack(&self, d: &str) -> i128 {
        let p = self.q("core", json!({"get_portfolio": {"time": null}}));
        let owed: u128 = p["assets"].as_array().unwrap().iter().filter(|c| c["denom"] == d).map(|c| num(&c["amount"])).sum();
        self.bal("core", d) as i128 - owed as i128 - self.collected(d) as i128
    }
}
pub fn deflate_msg(denom: &str, out: u128, max_in: u128) -> Value {
    json!({"rebalance": {"trade": {"deflate": {"target_denom": denom, "amount_out": out.to_string(), "max_amount_in": max_in.to_string()}}}})
}
pub fn inflate_msg(denom: &str, amt: u128, min_out: u128) -> Value {
    json!({"rebalance": {"trade": {"inflate": {"target_denom": denom, "amount_in": amt.to_string(), "min_amount_out": min_out.to_string()}}}})
}
pub fn num(v: &Value) -> u128 {
    v.as_str().unwrap().parse().unwrap()
}
pub fn fee(mint: Option<&str>, burn: Option<&str>, stream: Option<&str>) -> Value {
    json!({"collector": "carol", "mint_fee": mint, "burn_fee": burn, "streaming_fee": stream.map(|r| json!({"rate": r, "freeze": false}))})
}
/// swap table of a periphery call: (from, to, hops)
pub fn swaps(v: &[(&str, &str, &[&str])]) -> Value {
    Value::Array(v.iter().map(|(a, b, h)| json!({"key": format!("{a},{b}"), "routes": h})).collect())
}

// ---------------------------------------------------------------- airdrops
use k256::ecdsa::{signature::hazmat::PrehashSigner, Signature, SigningKey};
use sha2::{Digest, Sha256};
pub fn sha(b: impl AsRef<[u8]>) -> [u8; 32] {
    Sha256::digest(b.as_ref()).into()
}
pub struct Signer(SigningKey);
impl Signer {
    pub fn new(i: u8) -> Signer {
        Signer(SigningKey::from_slice(&sha([i, 77])).unwrap())
    }
    pub fn pubkey(&self) -> String {
        hex::encode(self.0.verifying_key().to_encoded_point(true).as_bytes())
    }
    pub fn addr(&self) -> String {
        use bech32::ToBase32;
        use ripemd::Digest as _;
        let h = ripemd::Ripemd160::digest(sha(hex::decode(self.pubkey()).unwrap()));
        bech32::encode("osmo", h.as_slice().to_base32(), bech32::Variant::Bech32).unwrap()
    }
    pub fn sign(&self, text: &str) -> String {
        let s: Signature = self.0.sign_prehash(&sha(text)).unwrap();
        hex::encode(s.to_bytes())
    }
}
/// root and paths of a tree over (who, amount)
pub fn tree(leaves: &[(&str, u128)]) -> (String, Vec<Vec<String>>) {
    let mut paths = vec![vec![]; leaves.len()];
    let mut level: Vec<([u8; 32], Vec<usize>)> = leaves.iter().enumerate().map(|(i, (w, n))| (sha(format!("{w}:{n}")), vec![i])).collect();
    while level.len() > 1 {
        let mut next = vec![];
        for ch in level.chunks(2) {
            if ch.len() == 1 {
                next.push(ch[0].clone());
                continue;
            }
            ch[0].1.iter().for_each(|i| paths[*i].push(hex::encode(ch[1].0)));
            ch[1].1.iter().for_each(|i| paths[*i].push(hex::encode(ch[0].0)));
            let mut p = [ch[0].0, ch[1].0];
            p.sort();
            next.push((sha(p.concat()), [ch[0].1.clone(), ch[1].1.clone()].concat()));
        }
        level = next;
    }
    (hex::encode(level[0].0), paths)
}
impl W {
    pub fn reg_open(&mut self, who: &str, root: &str, label: Option<&str>, denom: &str, n: u128) -> TxOut {
        self.try_tx(who, "drops", json!({"register": {"open": {"merkle_root": root, "denom": denom, "label": label}}}), &[(denom, n)])
    }
    pub fn reg_bearer(&mut self, who: &str, s: &Signer, root: &str, label: Option<&str>, denom: &str, n: u128) -> TxOut {
        let m = json!({"register": {"bearer": {"merkle_root": root, "denom": denom, "label": label, "signer_pub": s.pubkey(), "signer_sig": s.sign(&s.addr())}}});
        self.try_tx(who, "drops", m, &[(denom, n)])
    }
    pub fn claim_open(&mut self, who: &str, id: Value, account: Option<&str>, n: u128, proof: &[String]) -> TxOut {
        self.try_tx(who, "drops", json!({"claim": claim_open(id, account, n, proof)}), &[])
    }
    pub fn claim_bearer(&mut self, who: &str, id: Value, account: Option<&str>, n: u128, code: &str, sig: &str, proof: &[String]) -> TxOut {
        self.try_tx(who, "drops", json!({"claim": claim_bearer(id, account, n, code, sig, proof)}), &[])
    }
    pub fn close(&mut self, who: &str, id: Value) -> TxOut {
        self.try_tx(who, "drops", json!({"close": id}), &[])
    }
    pub fn fund(&mut self, who: &str, id: Value, denom: &str, n: u128) -> TxOut {
        self.try_tx(who, "drops", json!({"fund": id}), &[(denom, n)])
    }
}
pub fn claim_open(id: Value, account: Option<&str>, n: u128, proof: &[String]) -> Value {
    json!({"open": {"airdrop": id, "amount": n.to_string(), "account": account, "merkle_proof": proof}})
}
pub fn claim_bearer(id: Value, account: Option<&str>, n: u128, code: &str, sig: &str, proof: &[String]) -> Value {
    json!({"bearer": {"airdrop": id, "amount": n.to_string(), "account": account, "claim_hash": code, "claim_sign": sig, "merkle_proof": proof}})
}
pub fn id(n: u64) -> Value {
    json!({"id": n})
}
pub fn label(s: &str) -> Value {
    json!({"label": s})
}
