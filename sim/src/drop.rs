//! The airdrop world: reference model, oracles, workload.
use crate::chain::*;
use crate::engine::*;
use crate::snap::{add, bank_diff, n128, os, s, sub, version_of};
use crate::util::*;
use k256::ecdsa::signature::hazmat::{PrehashSigner, PrehashVerifier};
use k256::ecdsa::{Signature, SigningKey, VerifyingKey};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, HashMap};
use std::sync::{OnceLock, RwLock};

pub const DROP: &str = "drop";
const CREATORS: [&str; 3] = ["alice", "bob", "carol"];
const PEOPLE: [&str; 8] = ["alice", "bob", "dave", "erin", "frank", "grace", "osmo1heidi0000000000000000000000000000000", "drop"];
const DENOMS: [&str; 3] = ["uosmo", "uatom", "ibc/4a1b"];

// ---------------------------------------------------------------- cryptography

fn sha(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}
fn key(i: u64) -> SigningKey {
    SigningKey::from_slice(&sha(format!("signer{i}").as_bytes())).unwrap()
}
fn cache() -> &'static RwLock<HashMap<[u8; 32], Vec<u8>>> {
    static C: OnceLock<RwLock<HashMap<[u8; 32], Vec<u8>>>> = OnceLock::new();
    C.get_or_init(Default::default)
}
/// the same inputs are signed and verified over and over; pure, so remembered
pub fn memo(kind: &str, parts: &[&[u8]], f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    let mut h = Sha256::new();
    h.update(kind.as_bytes());
    for p in parts {
        h.update((p.len() as u64).to_le_bytes());
        h.update(p);
    }
    let k: [u8; 32] = h.finalize().into();
    if let Some(v) = cache().read().unwrap().get(&k) {
        return v.clone();
    }
    let v = f();
    let mut c = cache().write().unwrap();
    if c.len() < 400_000 {
        c.insert(k, v.clone());
    }
    v
}
fn pubkey(i: u64, compressed: bool) -> Vec<u8> {
    memo("pub", &[&[i as u8, compressed as u8]], || key(i).verifying_key().to_encoded_point(compressed).as_bytes().to_vec())
}
fn sign(i: u64, digest: &[u8; 32]) -> Vec<u8> {
    memo("sign", &[&[i as u8], digest], || {
        let sg: Signature = key(i).sign_prehash(digest).unwrap();
        sg.to_bytes().to_vec()
    })
}
fn sig_ok(digest: &[u8; 32], sig: &[u8], pk: &[u8]) -> bool {
    let r = memo("ref", &[digest, sig, pk], || {
        let ok = (|| {
            let sg = Signature::from_slice(sig).ok()?;
            let sg = sg.normalize_s().unwrap_or(sg);
            let vk = VerifyingKey::from_sec1_bytes(pk).ok()?;
            Some(vk.verify_prehash(digest, &sg).is_ok())
        })();
        vec![ok.unwrap_or(false) as u8]
    });
    r == [1]
}
/// (r, s) -> (r, n - s): another encoding of the same signature
fn malleate(sig: &[u8]) -> Vec<u8> {
    let n = hex::decode("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141").unwrap();
    let mut out = sig.to_vec();
    let mut borrow = 0i32;
    for i in (0..32).rev() {
        let mut d = n[i] as i32 - sig[32 + i] as i32 - borrow;
        borrow = (d < 0) as i32;
        if d < 0 {
            d += 256;
        }
        out[32 + i] = d as u8;
    }
    out
}
fn bech(pk: &[u8]) -> String {
    use bech32::ToBase32;
    use ripemd::Digest as _;
    let h = ripemd::Ripemd160::digest(sha(pk));
    bech32::encode("osmo", h.as_slice().to_base32(), bech32::Variant::Bech32).unwrap()
}

fn node_hash(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let (x, y) = if a <= b { (a, b) } else { (b, a) };
    sha(&[x.as_slice(), y.as_slice()].concat())
}
/// root and path of every leaf (an unpaired node is carried up)
fn merkle(leaves: &[String]) -> (String, Vec<Vec<String>>) {
    let mut paths = vec![vec![]; leaves.len()];
    let mut level: Vec<([u8; 32], Vec<usize>)> = leaves.iter().enumerate().map(|(i, l)| (sha(l.as_bytes()), vec![i])).collect();
    while level.len() > 1 {
        let mut next = vec![];
        for ch in level.chunks(2) {
            if ch.len() == 1 {
                next.push(ch[0].clone());
                continue;
            }
            for i in &ch[0].1 {
                paths[*i].push(hex::encode(ch[1].0));
            }
            for i in &ch[1].1 {
                paths[*i].push(hex::encode(ch[0].0));
            }
            next.push((node_hash(&ch[0].0, &ch[1].0), [ch[0].1.clone(), ch[1].1.clone()].concat()));
        }
        level = next;
    }
    (hex::encode(level[0].0), paths)
}
/// does this path lead from the leaf to the root?
fn proves(root: &str, leaf: &str, proof: &[String]) -> bool {
    let mut h = sha(leaf.as_bytes());
    for p in proof {
        let Ok(b) = hex::decode(p) else { return false };
        let Ok(b): Result<[u8; 32], _> = b.try_into() else { return false };
        h = node_hash(&h, &b);
    }
    hex::decode(root).map(|r| r == h).unwrap_or(false)
}

// ---------------------------------------------------------------- fixed library of trees

#[derive(Clone)]
struct Tree {
    open: bool,
    leaves: Vec<(String, u128)>,
    root: String,
    paths: Vec<Vec<String>>,
}
fn library() -> &'static Vec<Tree> {
    static L: OnceLock<Vec<Tree>> = OnceLock::new();
    L.get_or_init(|| {
        let mut rng = Rng::new(0xA1D0);
        (0..40)
            .map(|k| {
                let open = k % 2 == 0;
                let n = [1usize, 2, 3, 4, 5, 7, 8, 12][rng.below(8) as usize];
                let mut leaves: Vec<(String, u128)> = vec![];
                for i in 0..n {
                    let amt = match rng.below(5) {
                        0 => 1,
                        1 => rng.range128(1, 20),
                        2 => rng.log_range(1, 1 << 80),
                        _ => rng.range128(100, 100_000),
                    };
                    let who = if open {
                        if rng.chance(1, 6) && i > 0 {
                            leaves[0].0.clone() // the same account twice
                        } else {
                            PEOPLE[(i + k as usize) % PEOPLE.len()].to_string()
                        }
                    } else {
                        match rng.below(if k < 12 { 6 } else { 16 }) {
                            0 if k > 24 => format!("c{i}{}", ["/", "//", ":", "\n", "/1"][i % 5]),
                            0 => format!("c{i}"),
                            1 => format!("a/{i}"),
                            2 => format!("x:{i}"),
                            3 => PEOPLE[i % PEOPLE.len()].to_string(),
                            // codes that collide for anybody who folds case, trims or truncates
                            6 => format!("{}ode{}", if i % 2 == 0 { "C" } else { "c" }, i / 2),
                            7 => hex::encode(sha(format!("code{k}/{i}").as_bytes())).to_uppercase(),
                            8 => format!("{}{}", "c0de".repeat(20), i),
                            9 => format!("{}{}", "Z".repeat(200), i / 2 * 2),
                            10 => format!("{}c{}", if i % 2 == 0 { " " } else { "" }, i / 2),
                            11 => format!("c{}{}", i / 2, if i % 2 == 0 { " " } else { "" }),
                            12 => format!("0x{}", hex::encode(&sha(format!("code{k}/{}", i / 2).as_bytes())[..8])),
                            13 => format!("{}{}", "0".repeat(i), 7),
                            14 => format!("\u{e9}\u{1f600}{i}"),
                            _ => hex::encode(sha(format!("code{k}/{i}").as_bytes())),
                        }
                    };
                    leaves.push((who, amt));
                }
                let (root, paths) = merkle(&leaves.iter().map(|(w, a)| format!("{w}:{a}")).collect::<Vec<_>>());
                Tree { open, leaves, root, paths }
            })
            .collect()
    })
}

// ---------------------------------------------------------------- model

#[derive(Clone, Debug)]
struct Pot {
    open: bool,
    creator: String,
    signer: Option<(String, Vec<u8>)>,
    denom: String,
    total: u128,
    claimed: u128,
    root: String,
    label: Option<String>,
    created: u64,
    closed: Option<u64>,
    claims: BTreeMap<String, u128>,
}
impl Pot {
    fn json(&self, id: u64) -> Value {
        let mut v = json!({
            "id": id, "creator": self.creator, "denom": self.denom, "total_amount": self.total.to_string(),
            "total_claimed": self.claimed.to_string(), "merkle_root": self.root, "label": self.label,
            "created_at": self.created, "closed_at": self.closed,
        });
        match &self.signer {
            Some((a, k)) => {
                v["signer"] = json!(a);
                v["signer_pub"] = json!(hex::encode(k));
                json!({"bearer": v})
            }
            None => json!({"open": v}),
        }
    }
}
#[derive(Clone, Default)]
struct Model {
    pots: Vec<Pot>,
    labels: BTreeMap<String, u64>,
    bank: Bank,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum V {
    Ok,
    Rej,
    Any,
}
struct Pred {
    v: V,
    why: Vec<(Vec<&'static str>, String)>,
    exp: Model,
    touched: Option<u64>,
    /// for claims: does the evidence prove the entitlement of an open airdrop? None: unknowable
    proven: Option<bool>,
    sig: String,
}
impl Pred {
    fn rej(&mut self, p: &[&'static str], why: impl Into<String>) {
        if self.v != V::Any {
            self.v = V::Rej;
        }
        self.why.push((p.to_vec(), why.into()));
    }
}

#[derive(Clone, Default)]
struct Gen {
    n: u64,
    mempool: Vec<(u64, Tx, &'static str)>,
    retry: Option<Tx>,
    w: BTreeMap<String, u64>,
    fault_pct: u64,
    wrong_pct: u64,
    /// tree of each registered root
    last: u64,
}

pub struct DropWorld {
    node: Node,
    m: Model,
    don: BTreeMap<String, u128>,
    inst: (String, String),
    g: Gen,
    dead: bool,
    denoms: Vec<String>,
}

const OPS: [&str; 9] = ["register", "fund", "claim", "close", "migrate", "probe", "block", "crash", "donate"];

pub fn gen_cfg(rng: &mut Rng, focus: &str) -> Value {
    let mut w = BTreeMap::new();
    for o in OPS {
        let base: u64 = match o {
            "claim" => 24,
            "register" => 6,
            "fund" | "close" => 3,
            "block" => 8,
            "probe" => 3,
            _ => 2,
        };
        w.insert(o, match rng.below(6) { 0 => base / 2, 1 => base * 3, _ => base });
    }
    w.insert("claim", w["claim"].max(16));
    let mut up = |k: &'static str, n: u64| {
        let e = w.entry(k).or_default();
        *e = (*e).max(n);
    };
    match focus {
        "A04" => {
            up("fund", 8);
            up("close", 8);
        }
        "A05" => {
            up("register", 16);
            up("probe", 16);
        }
        "C15" => up("migrate", 20),
        "D01" => up("crash", 6),
        _ => up("register", 5),
    }
    let nd = rng.range(1, 3) as usize;
    let mut denoms: Vec<&str> = DENOMS.to_vec();
    rng.shuffle(&mut denoms);
    json!({
        "weights": w,
        "denoms": &denoms[..nd],
        "steps": if focus == "A05" && rng.chance(1, 3) { 220 } else { rng.range(40, 130) },
        "fault_pct": *rng.pick(&[0u64, 4, 12, 25]),
        "wrong_pct": *rng.pick(&[10u64, 30, 50]),
        "prelude": if focus == "A05" && rng.chance(1, 3) { rng.range(25, 45) } else { 0 },
    })
}

fn tx(sender: &str, msg: Value, funds: Funds) -> Tx {
    Tx { sender: sender.into(), to: DROP.into(), msg, funds, op: None }
}

impl DropWorld {
    pub fn new(cfg: &Value, cx: &mut Cx) -> Self {
        let mut c = Chain::new(1_700_000_000_000_000_000);
        c.height = 1000;
        let denoms: Vec<String> = cfg["denoms"].as_array().into_iter().flatten().map(s).collect();
        for a in CREATORS.iter().chain(PEOPLE.iter()) {
            if *a == DROP {
                continue;
            }
            for d in DENOMS {
                if c.bal(a, d) == 0 {
                    c.faucet(a, d, 1 << 100);
                }
            }
        }
        let mut node = Node::new(c);
        let t = Tx { sender: "deployer".into(), to: DROP.into(), msg: json!({}), funds: vec![], op: Some("instantiate:Airdrop".into()) };
        let o = node.exec(&t, &Fault::default(), cx);
        let mut w = DropWorld {
            m: Model { bank: node.chain.bank.clone(), ..Default::default() },
            inst: version_of(&node.chain, DROP).unwrap_or_default(),
            node,
            don: Default::default(),
            g: Gen {
                w: cfg["weights"].as_object().into_iter().flatten().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect(),
                fault_pct: cfg["fault_pct"].as_u64().unwrap_or(0),
                wrong_pct: cfg["wrong_pct"].as_u64().unwrap_or(0),
                ..Default::default()
            },
            dead: false,
            denoms,
        };
        if !o.ok {
            cx.viol(&["A05"], "instantiate", format!("instantiation failed: {}", o.err));
            w.dead = true;
            return w;
        }
        for i in 0..cfg["prelude"].as_u64().unwrap_or(0) {
            let t = &library()[((i * 2) % 24) as usize];
            let m = json!({"register": {"open": {"merkle_root": t.root, "denom": w.denoms[0], "label": if i % 2 == 0 { json!(format!("p{}", (i * 7) % 50)) } else { Value::Null }}}});
            w.do_tx(&tx(CREATORS[(i % 3) as usize], m, vec![(w.denoms[0].clone(), 5 + i as u128)]), &Fault::default(), "setup", cx);
        }
        w
    }

    fn q(&self, m: &Value) -> Result<Value, String> {
        self.node.chain.query(DROP, m)
    }

    fn find(&self, id: &Value) -> Option<u64> {
        if let Some(n) = id["id"].as_u64() {
            return ((n as usize) < self.m.pots.len()).then_some(n);
        }
        self.m.labels.get(&s(&id["label"])).copied()
    }

    fn predict(&mut self, t: &Tx, cx: &mut Cx) -> Pred {
        let mut p = Pred { v: V::Ok, why: vec![], exp: self.m.clone(), touched: None, proven: None, sig: String::new() };
        for (d, n) in &t.funds {
            if sub(&mut p.exp.bank, &t.sender, d, *n) {
                add(&mut p.exp.bank, DROP, d, *n);
            } else {
                p.rej(&["A01"], "sender lacks the funds");
            }
        }
        let h = self.node.chain.height;
        let k = kind_of(t);
        let must_pay = |p: &mut Pred, d: &str, props: &[&'static str]| -> u128 {
            match t.funds.as_slice() {
                [(x, n)] if x == d => *n,
                _ => {
                    p.rej(props, format!("must pay exactly one coin of {d}"));
                    0
                }
            }
        };
        match k.as_str() {
            "register" => {
                let r = &t.msg["register"];
                let open = r["open"].is_object();
                let r = if open { &r["open"] } else { &r["bearer"] };
                let root = s(&r["merkle_root"]);
                if hex::decode(&root).map(|b| b.len()) != Ok(32) {
                    p.rej(&["A03"], "the root is not 32 bytes");
                }
                let mut signer = None;
                if !open {
                    let pk = hex::decode(s(&r["signer_pub"])).unwrap_or_default();
                    let sg = hex::decode(s(&r["signer_sig"])).unwrap_or_default();
                    let a = bech(&pk);
                    if !sig_ok(&sha(a.as_bytes()), &sg, &pk) {
                        p.rej(&["A03"], "control of the signer key is not proven");
                    }
                    signer = Some((a, pk));
                }
                let d = s(&r["denom"]);
                let n = must_pay(&mut p, &d, &["A01"]);
                let id = p.exp.pots.len() as u64;
                let label = os(&r["label"]).map(|l| format!("{}/{l}", t.sender));
                if let Some(l) = &label {
                    if p.exp.labels.contains_key(l) {
                        p.rej(&["A05"], format!("label {l} is taken"));
                    }
                }
                p.sig = format!("{open}/{}/{}", label.is_some(), self.m.pots.len().min(4));
                if p.v == V::Ok {
                    if let Some(l) = &label {
                        p.exp.labels.insert(l.clone(), id);
                    }
                    p.exp.pots.push(Pot { open, creator: t.sender.clone(), signer, denom: d, total: n, claimed: 0, root, label, created: h, closed: None, claims: Default::default() });
                }
                p.touched = Some(id);
                cx.eval("A05", &format!("register/{:?}/{}/{}", p.v, p.sig, p.why.iter().map(|w| w.1.chars().take(14).collect::<String>()).collect::<Vec<_>>().join(",")));
                if !open {
                    cx.eval("A03", &format!("register/{:?}/{}", p.v, p.why.iter().map(|w| w.1.chars().take(14).collect::<String>()).collect::<Vec<_>>().join(",")));
                }
            }
            "fund" | "close" => {
                let idv = &t.msg[k.as_str()];
                let by = if idv["id"].is_u64() { "id" } else { "label" };
                let Some(id) = self.find(idv) else {
                    p.rej(&["A04", "A05"], "no such airdrop");
                    return p;
                };
                p.touched = Some(id);
                let pot = self.m.pots[id as usize].clone();
                if pot.creator != t.sender {
                    p.rej(&["A04"], "not the creator");
                }
                if pot.closed.is_some() {
                    p.rej(&["A04"], "closed");
                }
                let e = &mut p.exp.pots[id as usize];
                if k == "fund" {
                    match t.funds.as_slice() {
                        [(x, n)] if *x == pot.denom => e.total += n,
                        _ => p.rej(&["A04", "A01"], "must pay exactly one coin of the airdrop's token"),
                    }
                } else {
                    e.closed = Some(h);
                    let rest = pot.total - pot.claimed;
                    if sub(&mut p.exp.bank, DROP, &pot.denom, rest) {
                        add(&mut p.exp.bank, &pot.creator, &pot.denom, rest);
                    } else {
                        p.rej(&["A01"], "the pot is not covered");
                    }
                }
                cx.eval("A04", &format!("{k}/{by}/{:?}/{}/{}/{}/{}", p.v, pot.open, pot.creator == t.sender, pot.closed.is_some(), (pot.total - pot.claimed).min(1)));
            }
            "claim" => {
                let c = &t.msg["claim"];
                let open = c["open"].is_object();
                let c = if open { &c["open"] } else { &c["bearer"] };
                let amt = n128(&c["amount"]);
                let who = os(&c["account"]).unwrap_or(t.sender.clone());
                let proof: Vec<String> = c["merkle_proof"].as_array().into_iter().flatten().map(s).collect();
                let by = if c["airdrop"]["id"].is_u64() { "id" } else { "label" };
                let Some(id) = self.find(&c["airdrop"]) else {
                    p.rej(&["A03"], "no such airdrop");
                    p.proven = Some(false);
                    return p;
                };
                p.touched = Some(id);
                let pot = self.m.pots[id as usize].clone();
                let keyv = if open { who.clone() } else { s(&c["claim_hash"]) };
                let mut proven = true;
                if pot.open != open {
                    p.rej(&["A03"], "claim of the other kind");
                    proven = false;
                }
                if pot.closed.is_some() {
                    p.rej(&["A04"], "closed");
                    proven = false;
                }
                if !proves(&pot.root, &format!("{keyv}:{amt}"), &proof) {
                    p.rej(&["A03"], format!("{keyv} with {amt} is not proven to be a leaf"));
                    proven = false;
                }
                if let (false, Some((_, pk))) = (open, &pot.signer) {
                    let sg = hex::decode(s(&c["claim_sign"])).unwrap_or_default();
                    if !sig_ok(&sha(format!("{keyv}/{who}/{amt}").as_bytes()), &sg, pk) {
                        p.rej(&["A03"], "not signed for this code, recipient and amount");
                        proven = false;
                    }
                }
                let mut known = true;
                if !valid_addr(&who) || amt == 0 {
                    p.rej(&["A03"], "bad recipient or amount");
                    known = !proven;
                }
                let again = pot.open == open && pot.claims.contains_key(&keyv);
                if again {
                    p.rej(&["A02"], format!("{keyv} was paid already"));
                }
                let short = pot.claimed.saturating_add(amt) > pot.total;
                if short {
                    p.rej(&["A01"], "the pot is short");
                }
                p.proven = known.then_some(proven);
                let sig = format!("{open}/{by}/{:?}/{}/{again}/{short}/{proven}/{}", p.v, pot.closed.is_some(), t.sender == who);
                cx.eval("A02", &sig);
                cx.eval("A03", &format!("{sig}/{}", p.why.iter().filter(|w| w.0.contains(&"A03")).map(|w| w.1.chars().rev().take(12).collect::<String>()).collect::<Vec<_>>().join(",")));
                if p.v == V::Ok {
                    let e = &mut p.exp.pots[id as usize];
                    e.claimed += amt;
                    e.claims.insert(keyv, amt);
                    if sub(&mut p.exp.bank, DROP, &pot.denom, amt) {
                        add(&mut p.exp.bank, &who, &pot.denom, amt);
                    } else {
                        p.rej(&["A01"], "the pot is not covered");
                    }
                }
            }
            "migrate" => {
                let force = t.msg["force"].as_bool().unwrap_or(false);
                let (n, v) = version_of(&self.node.chain, DROP).unwrap_or_default();
                let ok = n == self.inst.0 && crate::semver::older(&v, &self.inst.1) == Some(true);
                if !force && !ok {
                    p.rej(&["C15"], format!("stored {n} {v} is not an older version of {:?}", self.inst));
                }
                cx.eval("C15", &format!("airdrop/{force}/{}/{:?}/{}", n == self.inst.0, crate::semver::rel(&v, &self.inst.1), self.m.pots.iter().any(|p| p.closed.is_none())));
            }
            _ => p.v = V::Any,
        }
        p
    }

    fn do_tx(&mut self, t: &Tx, fault: &Fault, tag: &str, cx: &mut Cx) {
        let k = kind_of(t);
        let nv = cx.viols.len();
        let p = self.predict(t, cx);
        // the claim check is asked first
        let mut verify = None;
        if k == "claim" {
            let c = &t.msg["claim"];
            let inner = if c["open"].is_object() { &c["open"] } else { &c["bearer"] };
            if inner["account"].is_string() {
                let d0 = self.node.chain.digest();
                let r = self.q(&json!({"verify_claim": {"claim": c}}));
                let valid = matches!(&r, Ok(v) if v["valid"] == json!(true));
                let answered = r.is_ok();
                cx.eval("A06", &format!("{}/{:?}/{valid}/{answered}/{}", c["open"].is_object(), p.proven, p.why.iter().map(|w| w.1.chars().rev().take(10).collect::<String>()).collect::<Vec<_>>().join(",")));
                if let Some(want) = p.proven {
                    if want != valid {
                        cx.viol(&["A06"], if valid { "says_valid" } else { "says_invalid" }, format!("the claim check answers {r:?} for {c}; the claim is {}", if want { "proven".into() } else { format!("not valid: {:?}", p.why) }));
                    }
                }
                if let Ok(v) = &r {
                    if !valid && !v["reason"].is_string() {
                        cx.viol(&["A06"], "no_reason", format!("the claim check answers {v}"));
                    }
                }
                if self.node.chain.digest() != d0 {
                    cx.viol(&["A06"], "mutates", "the claim check changed the state");
                }
                verify = Some(valid);
            }
        }
        let pre_kv = self.node.chain.contracts.get(DROP).map(|c| c.1.clone()).unwrap_or_default();
        let out = self.node.exec(t, fault, cx);
        cx.count(&format!("op/airdrop_{k}/{}", if out.ok { "ok" } else { "refused" }));
        if !tag.is_empty() {
            cx.count(&format!("delivery/{tag}"));
        }
        cx.eval("D01", &format!("airdrop/{k}"));
        let hard = matches!(out.fired, Some("out_of_gas" | "transfer_refused" | "query_error"));
        let opp: Vec<&'static str> = match k.as_str() {
            "register" => vec!["A05"],
            "fund" | "close" => vec!["A04"],
            "claim" => vec!["A02"],
            _ => vec!["C15"],
        };
        if hard && out.ok {
            let mut pr = opp.clone();
            pr.push("A01");
            cx.viol(&pr, format!("partial:{k}"), format!("{k} reported success although {}", out.fired.unwrap()));
        }
        if !hard {
            match (p.v, out.ok) {
                (V::Ok, false) => {
                    let mut pr = opp.clone();
                    if k == "register" && t.msg["register"]["bearer"].is_object() || k == "claim" && t.msg["claim"]["bearer"].is_object() {
                        pr.push("A03");
                    }
                    cx.viol(&pr, format!("refused:{k}"), format!("{} from {} with {:?} was refused: {}", t.msg, t.sender, t.funds, out.err));
                }
                (V::Rej, true) => {
                    let mut pr: Vec<&'static str> = p.why.iter().flat_map(|w| w.0.iter().copied()).collect();
                    if let ("claim", Some(id)) = (k.as_str(), p.touched) {
                        // paid, but not in full
                        let c = t.msg["claim"].as_object().and_then(|o| o.values().next()).cloned().unwrap_or_default();
                        let (who, d) = (os(&c["account"]).unwrap_or(t.sender.clone()), &self.m.pots[id as usize].denom);
                        if who != DROP && t.funds.is_empty() && crate::snap::bal(&self.node.chain.bank, &who, d) != crate::snap::bal(&self.m.bank, &who, d).saturating_add(n128(&c["amount"])) {
                            pr.push("A02");
                        }
                    }
                    cx.viol(&pr, format!("accepted:{k}"), format!("{} from {} with {:?} was accepted although: {}", t.msg, t.sender, t.funds, p.why.iter().map(|w| w.1.clone()).collect::<Vec<_>>().join("; ")));
                }
                _ => {}
            }
            if out.ok && verify == Some(false) {
                cx.viol(&["A06"], "claim_succeeds", format!("the claim check calls {} invalid, claiming succeeds", t.msg));
            }
        }
        let exact = out.ok && p.v == V::Ok;
        let exp = if exact { p.exp.clone() } else { self.m.clone() };
        if exact || !out.ok {
            self.compare(&exp, &k, p.touched, !out.ok, &opp, cx);
            self.m = exp;
        }
        if out.ok && k != "register" && k != "fund" {
            for (d, n) in &t.funds {
                *self.don.entry(d.clone()).or_default() += n;
            }
        }
        if k == "migrate" {
            let mut a = pre_kv;
            let mut b = self.node.chain.contracts[DROP].1.clone();
            let ver = version_of(&self.node.chain, DROP);
            if out.ok && ver.as_ref() != Some(&self.inst) {
                cx.viol(&["C15"], "version", format!("recorded {ver:?} after the upgrade, code is {:?}", self.inst));
            }
            if out.ok {
                a.remove(b"contract_info".as_slice());
                b.remove(b"contract_info".as_slice());
            }
            if a != b {
                cx.viol(&["C15"], "upgrade_changes_state", format!("an {} upgrade changed the state", if out.ok { "accepted" } else { "refused" }));
            }
        }
        self.invariants(&k, cx);
        if cx.viols.len() > nv {
            self.resync();
        }
        let mut f = Fnv::default();
        f.add(k.as_bytes());
        f.num(out.ok as u64);
        f.num(self.m.pots.len() as u64);
        for p in &self.m.pots {
            f.num(p.open as u64 + 2 * p.closed.is_some() as u64 + 4 * (p.claims.len() as u64) + 64 * (p.claimed == p.total) as u64 + 128 * p.label.is_some() as u64);
        }
        f.num(self.g.last);
        self.g.last = hash(k.as_bytes());
        cx.stats.states.insert(f.0);
    }

    fn compare(&mut self, exp: &Model, k: &str, touched: Option<u64>, failed: bool, opp: &[&'static str], cx: &mut Cx) {
        let pre = if failed { format!("failed_tx:{k}") } else { format!("effect:{k}") };
        let after = format!("after {}{k}", if failed { "the refused " } else { "" });
        let bd = bank_diff(&exp.bank, &self.node.chain.bank);
        if !bd.is_empty() {
            let mut pr = opp.to_vec();
            pr.push("A01");
            cx.viol(&pr, format!("{pre}:balances"), format!("{after}: {}", bd[..bd.len().min(4)].join("; ")));
        }
        match self.q(&json!({"latest_airdrop_id": {}})) {
            Ok(v) if v.as_u64() == Some(exp.pots.len() as u64) => {}
            r => cx.viol(&["A05"], format!("{pre}:next_id"), format!("{after}: next id {r:?}, expected {}", exp.pots.len())),
        }
        for (i, pot) in exp.pots.iter().enumerate() {
            let id = i as u64;
            // untouched ones are looked at in turn
            if touched != Some(id) && exp.pots.len() > 6 && (self.node.chain.height + self.g.n + id) % 5 != 0 {
                continue;
            }
            let want = pot.json(id);
            let got = match self.q(&json!({"get_airdrop": {"id": {"id": id}}})) {
                Ok(v) => v,
                Err(e) => {
                    cx.viol(&["A05"], format!("{pre}:lost"), format!("{after}: airdrop {id} is not found: {e}"));
                    continue;
                }
            };
            if got == want {
                continue;
            }
            let (kw, kg) = (want.as_object().unwrap().keys().next().unwrap().clone(), got.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default());
            if kw != kg {
                cx.viol(&["A05", "A03"], format!("{pre}:kind"), format!("{after}: airdrop {id} is {kg}, expected {kw}"));
                continue;
            }
            for (f, w) in want[&kw].as_object().unwrap() {
                let g = &got[&kg][f];
                if g != w {
                    let mut pr: Vec<&'static str> = match f.as_str() {
                        "total_claimed" => vec!["A01"],
                        "total_amount" => vec!["A01", "A04"],
                        "closed_at" => vec!["A04"],
                        "merkle_root" | "signer" | "signer_pub" => vec!["A05", "A03"],
                        _ => vec!["A05"],
                    };
                    if touched != Some(id) {
                        pr.push("A01");
                    }
                    if k == "migrate" {
                        pr = vec!["C15"];
                    }
                    cx.viol(&pr, format!("{pre}:{f}"), format!("{after}: {f} of airdrop {id} is {g}, expected {w}"));
                }
            }
        }
        if let (Some(id), "claim") = (touched, k) {
            if let Some(pot) = exp.pots.get(id as usize) {
                for (key, amt) in &pot.claims {
                    match self.q(&json!({"get_claim": {"airdrop": {"id": id}, "claim_key": key}})) {
                        Ok(v) if v == json!({"id": id, "amount": amt.to_string(), "claim_key": key}) => {}
                        r => cx.viol(&["A05", "A02"], format!("{pre}:claim_record"), format!("{after}: claim {key} of airdrop {id} is {r:?}, expected {amt}")),
                    }
                }
            }
        }
    }

    fn invariants(&mut self, k: &str, cx: &mut Cx) {
        let mut need: BTreeMap<String, u128> = BTreeMap::new();
        for id in 0..self.m.pots.len() as u64 {
            let Ok(v) = self.q(&json!({"get_airdrop": {"id": {"id": id}}})) else { continue };
            let v = if v["open"].is_object() { &v["open"] } else { &v["bearer"] };
            let (t, c) = (n128(&v["total_amount"]), n128(&v["total_claimed"]));
            if c > t {
                cx.viol(&["A01"], format!("overdrawn:{k}"), format!("airdrop {id} has paid {c} of {t}"));
            }
            if v["closed_at"].is_null() {
                let e = need.entry(s(&v["denom"])).or_default();
                *e = e.saturating_add(t.saturating_sub(c));
            }
        }
        cx.eval("A01", &format!("{k}/{}/{}", self.m.pots.len().min(8), need.values().filter(|n| **n > 0).count()));
        for (d, n) in need {
            let have = self.node.chain.bal(DROP, &d).saturating_sub(self.don.get(&d).copied().unwrap_or(0));
            if have < n {
                cx.viol(&["A01"], format!("uncovered:{k}"), format!("the contract holds {have}{d}, open airdrops are owed {n}"));
            }
        }
    }

    /// after a violation: continue from what the contract reports
    fn resync(&mut self) {
        let mut m = Model { bank: self.node.chain.bank.clone(), ..Default::default() };
        let Some(n) = self.q(&json!({"latest_airdrop_id": {}})).ok().and_then(|v| v.as_u64()) else {
            self.dead = true;
            return;
        };
        for id in 0..n.min(200) {
            let Ok(v) = self.q(&json!({"get_airdrop": {"id": {"id": id}}})) else {
                self.dead = true;
                return;
            };
            let open = v["open"].is_object();
            let v = if open { &v["open"] } else { &v["bearer"] };
            let mut claims: BTreeMap<String, u128> = self.m.pots.get(id as usize).map(|p| p.claims.clone()).unwrap_or_default();
            if let Ok(l) = self.q(&json!({"list_claims": {"airdrop": {"id": id}, "limit": 30}})) {
                for c in l.as_array().into_iter().flatten() {
                    claims.insert(s(&c["claim_key"]), n128(&c["amount"]));
                }
            }
            let label = os(&v["label"]);
            if let Some(l) = &label {
                m.labels.entry(l.clone()).or_insert(id);
            }
            m.pots.push(Pot {
                open,
                creator: s(&v["creator"]),
                signer: (!open).then(|| (s(&v["signer"]), hex::decode(s(&v["signer_pub"])).unwrap_or_default())),
                denom: s(&v["denom"]),
                total: n128(&v["total_amount"]),
                claimed: n128(&v["total_claimed"]).min(n128(&v["total_amount"])),
                root: s(&v["merkle_root"]),
                label,
                created: v["created_at"].as_u64().unwrap_or(0),
                closed: v["closed_at"].as_u64(),
                claims,
            });
        }
        self.m = m;
    }

    // ------------------------------------------------------------ listings

    fn pages(&self, mk: impl Fn(Value, Value, Value) -> Value, cursor: impl Fn(&Value) -> Value, limit: u64, order: &str) -> Result<Vec<Value>, String> {
        let mut out: Vec<Value> = vec![];
        let mut after = Value::Null;
        let mut last = false;
        for _ in 0..400 {
            let r = self.q(&mk(after.clone(), json!(limit), json!(order)))?;
            let v = r.as_array().cloned().ok_or("not a list")?;
            if v.len() as u64 > limit {
                return Err(format!("page of {} entries, asked for {limit}", v.len()));
            }
            if last && !v.is_empty() {
                return Err("a short page is not the last".into());
            }
            last = (v.len() as u64) < limit;
            if v.is_empty() {
                // the same listing without naming a page size or an order
                let page = |a: Value, l: Value, o: Value| self.q(&mk(a, l, o)).map(|v| v.as_array().cloned().unwrap_or_default());
                let mut asc = out.clone();
                if order == "desc" {
                    asc.reverse();
                }
                let ten: Vec<Value> = asc.iter().take(10).cloned().collect();
                if page(Value::Null, Value::Null, Value::Null)? != ten {
                    return Err("the default page is not the first ten in ascending order".into());
                }
                if let Some(c) = asc.get(asc.len() / 2) {
                    let rest: Vec<Value> = asc.iter().skip(asc.len() / 2 + 1).take(10).cloned().collect();
                    if page(cursor(c), Value::Null, Value::Null)? != rest {
                        return Err("the default page after an entry is not the next ten in ascending order".into());
                    }
                    let back: Vec<Value> = asc.iter().take(asc.len() / 2).rev().take(10).cloned().collect();
                    if page(cursor(c), Value::Null, json!("desc"))? != back {
                        return Err("the default descending page before an entry is not the previous ten".into());
                    }
                }
                if !page(Value::Null, json!(0), Value::Null)?.is_empty() {
                    return Err("an empty page has entries".into());
                }
                return Ok(out);
            }
            after = cursor(v.last().unwrap());
            out.extend(v);
        }
        Err("paging does not end".into())
    }

    fn probe(&mut self, args: &Value, cx: &mut Cx) {
        let limit = args["limit"].as_u64().unwrap_or(10);
        let order = s(&args["order"]);
        let by = s(&args["by"]);
        let who = s(&args["who"]);
        let d0 = self.node.chain.digest();
        let inner = |v: &Value| -> Value { if v["open"].is_object() { v["open"].clone() } else { v["bearer"].clone() } };
        let rev = |mut v: Vec<Value>| -> Vec<Value> {
            if order == "desc" {
                v.reverse();
            }
            v
        };
        let all: Vec<Value> = self.m.pots.iter().enumerate().map(|(i, p)| p.json(i as u64)).collect();
        let idc = |v: &Value| inner(v)["id"].clone();
        let (got, want): (Result<Vec<Value>, String>, Vec<Value>) = match by.as_str() {
            "id" => (self.pages(|a, l, o| json!({"list_airdrops": {"option": {"by_i_d": {"start_after": a, "limit": l, "order": o}}}}), idc, limit, &order), rev(all.clone())),
            "open" | "bearer" => {
                let w = all.iter().filter(|v| v[&by].is_object()).cloned().collect();
                (self.pages(|a, l, o| json!({"list_airdrops": {"option": {"by_type": {"type": by, "start_after": a, "limit": l, "order": o}}}}), idc, limit, &order), rev(w))
            }
            "creator" => {
                let w = all.iter().filter(|v| inner(v)["creator"] == json!(who)).cloned().collect();
                (self.pages(|a, l, o| json!({"list_airdrops": {"option": {"by_creator": {"creator": who, "start_after": a, "limit": l, "order": o}}}}), idc, limit, &order), rev(w))
            }
            "label" => {
                let w = self.m.labels.values().map(|i| all[*i as usize].clone()).collect();
                (self.pages(|a, l, o| json!({"list_airdrops": {"option": {"by_label": {"start_after": a, "limit": l, "order": o}}}}), |v| inner(v)["label"].clone(), limit, &order), rev(w))
            }
            "labels" => {
                let w = self.m.labels.iter().map(|(l, i)| { let (c, r) = l.split_once('/').unwrap(); json!({"creator": c, "label": r, "airdrop_id": i}) }).collect();
                (self.pages(|a, l, o| json!({"list_labels": {"start_after": a, "limit": l, "order": o}}), |v| json!(format!("{}/{}", s(&v["creator"]), s(&v["label"]))), limit, &order), rev(w))
            }
            _ => {
                let id = args["id"].as_u64().unwrap_or(0);
                let Some(p) = self.m.pots.get(id as usize) else { return };
                let idv = match (&p.label, args["by_label"].as_bool()) {
                    (Some(l), Some(true)) => json!({"label": l}),
                    _ => json!({"id": id}),
                };
                let w = p.claims.iter().map(|(k, a)| json!({"id": id, "amount": a.to_string(), "claim_key": k})).collect();
                (self.pages(|a, l, o| json!({"list_claims": {"airdrop": idv, "start_after": a, "limit": l, "order": o}}), |v| v["claim_key"].clone(), limit, &order), rev(w))
            }
        };
        let n = want.len();
        match got {
            Ok(g) if g == want => {}
            Ok(g) => {
                let i = (0..g.len().max(n)).find(|i| g.get(*i) != want.get(*i)).unwrap_or(0);
                cx.viol(&["A05"], format!("listing:{by}"), format!("listing by {by} in pages of {limit} ({order}) yields {} entries, {n} exist; first difference at {i}: {:?} expected {:?}", g.len(), g.get(i), want.get(i)));
            }
            Err(e) => cx.viol(&["A05"], format!("listing_fails:{by}"), format!("listing by {by} in pages of {limit} ({order}) fails: {e}")),
        }
        // default page, oversized page
        let big = 31 + args["over"].as_u64().unwrap_or(0);
        for (q, name) in [
            (json!({"list_airdrops": {"option": {"by_i_d": {"limit": big}}}}), "id"),
            (json!({"list_labels": {"limit": big}}), "labels"),
            (json!({"list_airdrops": {"option": {"by_label": {"limit": big}}}}), "label"),
            (json!({"list_airdrops": {"option": {"by_type": {"type": "open", "limit": big}}}}), "type"),
            (json!({"list_airdrops": {"option": {"by_creator": {"creator": who, "limit": big}}}}), "creator"),
        ] {
            if self.q(&q).is_ok() {
                cx.viol(&["A05"], format!("oversized:{name}"), format!("a page of {big} was answered"));
            }
        }
        if !self.m.pots.is_empty() && self.q(&json!({"list_claims": {"airdrop": {"id": 0}, "limit": big}})).is_ok() {
            cx.viol(&["A05"], "oversized:claims", format!("a page of {big} was answered"));
        }
        // single look-ups
        for (l, id) in &self.m.labels {
            let (c, r) = l.split_once('/').unwrap();
            match self.q(&json!({"get_label": {"label": l}})) {
                Ok(v) if v == json!({"creator": c, "label": r, "airdrop_id": id}) => {}
                r => cx.viol(&["A05"], "get_label", format!("label {l} is {r:?}, expected airdrop {id}")),
            }
            match self.q(&json!({"get_airdrop": {"id": {"label": l}}})) {
                Ok(v) if v == all[*id as usize] => {}
                r => cx.viol(&["A05"], "get_by_label", format!("airdrop labelled {l} is {r:?}, expected {}", all[*id as usize])),
            }
        }
        for (i, p) in self.m.pots.iter().enumerate() {
            for (k, a) in &p.claims {
                let idv = match (&p.label, i % 2) {
                    (Some(l), 0) => json!({"label": l}),
                    _ => json!({"id": i}),
                };
                match self.q(&json!({"get_claim": {"airdrop": idv, "claim_key": k}})) {
                    Ok(v) if v == json!({"id": i, "amount": a.to_string(), "claim_key": k}) => {}
                    r => cx.viol(&["A05"], "get_claim", format!("claim {k} of airdrop {i} is {r:?}, expected {a}")),
                }
            }
            for (j, o) in self.m.pots.iter().enumerate().filter(|(j, _)| *j != i) {
                // what was claimed elsewhere was not claimed here
                if let Some(k) = o.claims.keys().find(|k| !p.claims.contains_key(*k)) {
                    if self.q(&json!({"get_claim": {"airdrop": {"id": i}, "claim_key": k}})).is_ok() {
                        cx.viol(&["A05"], "ghost_claim", format!("claim {k} of airdrop {j} is reported for airdrop {i}"));
                    }
                    break;
                }
            }
            if self.q(&json!({"get_claim": {"airdrop": {"id": i}, "claim_key": "nobody"}})).is_ok() {
                cx.viol(&["A05"], "ghost_claim", "a claim that was never made is reported");
            }
        }
        for q in [json!({"get_airdrop": {"id": {"id": self.m.pots.len()}}}), json!({"get_label": {"label": "alice/never"}}), json!({"get_label": {"label": "0"}}), json!({"get_airdrop": {"id": {"label": "0"}}}), json!({"get_airdrop": {"id": {"label": "never"}}})] {
            if let Ok(v) = self.q(&q) {
                cx.viol(&["A05"], "ghost", format!("{q} answers {v}"));
            }
        }
        if self.node.chain.digest() != d0 {
            cx.viol(&["A05"], "mutates", "a query changed the state");
        }
        cx.count("probe/listings");
        cx.eval("A05", &format!("list/{by}/{order}/{limit}/{}", n.min(40)));
    }

    // ------------------------------------------------------------ workload

    fn id_value(&self, rng: &mut Rng, id: u64) -> Value {
        match &self.m.pots[id as usize].label {
            Some(l) if rng.chance(1, 2) => json!({"label": l}),
            _ => json!({"id": id}),
        }
    }

    fn gen_tx(&mut self, rng: &mut Rng, op: &str) -> Option<Tx> {
        let wrong = rng.below(100) < self.g.wrong_pct;
        let np = self.m.pots.len() as u64;
        match op {
            "register" => {
                if np >= 60 {
                    return None;
                }
                let t = &library()[rng.below(library().len() as u64) as usize];
                let sender = *rng.pick(&CREATORS);
                let denom = rng.pick(&self.denoms).clone();
                let sum: u128 = t.leaves.iter().map(|l| l.1).sum();
                let total = match rng.below(5) {
                    0 => sum,
                    1 => sum + 1,
                    2 => sum - 1,
                    3 => sum / 2,
                    _ => rng.log_range(1, sum * 2),
                }
                .max(1);
                let label = match rng.below(5) {
                    0 | 1 => Value::Null,
                    2 => json!(format!("l{}", rng.below(4))),
                    3 => json!(*rng.pick(&["", "a/b", "l1/", "bob/l1", "l10", "L1", "é", "0", "1", "2", "00"])),
                    _ => json!(format!("n{}", rng.below(1000))),
                };
                let mut root = t.root.clone();
                let mut funds = vec![(denom.clone(), total)];
                let mut m = json!({"denom": denom, "label": label});
                if !t.open {
                    let k = rng.below(3);
                    let comp = !rng.chance(1, 6);
                    let pk = pubkey(k, comp);
                    let mut sg = sign(k, &sha(bech(&pk).as_bytes()));
                    if rng.chance(1, 8) {
                        sg = malleate(&sg);
                    }
                    m["signer_pub"] = json!(hex::encode(&pk));
                    m["signer_sig"] = json!(hex::encode(&sg));
                    if wrong {
                        match rng.below(7) {
                            0 => m["signer_pub"] = json!(hex::encode(pubkey((k + 1) % 3, comp))),
                            1 => m["signer_sig"] = json!(hex::encode(sign((k + 1) % 3, &sha(bech(&pk).as_bytes())))),
                            2 => m["signer_sig"] = json!(hex::encode(sign(k, &sha(b"else")))),
                            3 => m["signer_sig"] = json!(hex::encode(&sg[..63])),
                            4 => m["signer_sig"] = json!("zz"),
                            5 => m["signer_sig"] = json!(hex::encode(sign(k, &sha(bech(&pubkey(k, !comp)).as_bytes())))),
                            _ => {}
                        }
                    }
                }
                if wrong {
                    match rng.below(10) {
                        0 => funds = vec![],
                        1 => funds.push(("ujunk".into(), 0)),
                        2 => funds = vec![(DENOMS.iter().find(|d| **d != denom).unwrap().to_string(), total)],
                        3 => funds.push((DENOMS.iter().find(|d| **d != denom).unwrap().to_string(), 7)),
                        4 => root = root[..62].to_string(),
                        5 => root = format!("{root}00"),
                        6 => root = format!("{}g", &root[..63]),
                        _ => {}
                    }
                } else if rng.chance(1, 12) {
                    root = root.to_uppercase();
                }
                m["merkle_root"] = json!(root);
                Some(tx(sender, json!({"register": {if t.open { "open" } else { "bearer" }: m}}), funds))
            }
            "fund" | "close" => {
                if np == 0 {
                    return None;
                }
                let id = rng.below(np);
                let p = &self.m.pots[id as usize];
                let sender = match &p.signer {
                    Some((a, _)) if op == "close" && wrong && rng.chance(1, 4) => a.clone(),
                    _ if wrong && rng.chance(1, 2) => rng.pick(&PEOPLE[..6]).to_string(),
                    _ => p.creator.clone(),
                };
                let mut idv = self.id_value(rng, id);
                if wrong && rng.chance(1, 6) {
                    idv = rng.pick(&[json!({"id": np}), json!({"id": np + 1}), json!({"label": "nope"}), json!({"label": "l1"}), json!({"label": id.to_string()})]).clone();
                }
                let mut funds = vec![];
                if op == "fund" {
                    funds.push((p.denom.clone(), rng.log_range(1, 1 << 60)));
                    if wrong {
                        match rng.below(4) {
                            0 => funds = vec![(DENOMS.iter().find(|d| **d != p.denom).unwrap().to_string(), 9)],
                            1 => funds = vec![],
                            2 => funds.push((DENOMS.iter().find(|d| **d != p.denom).unwrap().to_string(), 3)),
                            _ => {}
                        }
                    }
                } else if rng.chance(1, 12) && !sender.starts_with("osmo") {
                    funds.push((p.denom.clone(), 5));
                }
                Some(tx(&sender, json!({op: idv}), funds))
            }
            "claim" => {
                if np == 0 {
                    return None;
                }
                // prefer the newest
                let mut id = 0;
                for _ in 0..3 {
                    id = if rng.chance(1, 2) { np - 1 - rng.below(np.min(3)) } else { rng.below(np) };
                    let p = &self.m.pots[id as usize];
                    if p.closed.is_none() && p.total > p.claimed {
                        break;
                    }
                }
                let p = &self.m.pots[id as usize];
                let root = p.root.to_lowercase();
                let t = library().iter().find(|t| t.root == root)?;
                let mut li = rng.below(t.leaves.len() as u64) as usize;
                if !wrong {
                    // prefer entitlements that are still open
                    for _ in 0..4 {
                        if p.claims.contains_key(&t.leaves[li].0) {
                            li = rng.below(t.leaves.len() as u64) as usize;
                        }
                    }
                }
                let (mut who, mut amt) = t.leaves[li].clone();
                let mut proof = t.paths[li].clone();
                let mut idv = self.id_value(rng, id);
                let officer = |rng: &mut Rng| match &p.signer {
                    Some((a, _)) if rng.chance(1, 2) => a.clone(),
                    _ => p.creator.clone(),
                };
                let mut sender = if rng.chance(1, 8) { officer(rng) } else { rng.pick(&PEOPLE[..7]).to_string() };
                let mut open = t.open;
                let signer = p.signer.as_ref().and_then(|(_, k)| (0..3).find(|i| pubkey(*i, true) == *k || pubkey(*i, false) == *k)).unwrap_or(0);
                let recipient = if rng.chance(1, 12) {
                    DROP.to_string()
                } else if rng.chance(1, 10) {
                    officer(rng)
                } else { rng.pick(&PEOPLE[..7]).to_string()
                };
                let mut signed = (signer, who.clone(), recipient.clone(), amt);
                let mut mall = rng.chance(1, 8);
                let mut text = None;
                if wrong {
                    match rng.below(17) {
                        0 => amt += 1,
                        1 => amt = amt.saturating_sub(1),
                        2 => who = rng.pick(&PEOPLE).to_string(),
                        3 => {
                            proof.pop();
                        }
                        4 => proof.push(t.root.clone()),
                        5 => proof.reverse(),
                        6 => {
                            let o = &library()[rng.below(library().len() as u64) as usize];
                            let j = rng.below(o.leaves.len() as u64) as usize;
                            who = o.leaves[j].0.clone();
                            amt = o.leaves[j].1;
                            proof = o.paths[j].clone();
                        }
                        7 => open = !open,
                        8 => signed.0 = (signer + 1) % 3,
                        9 if rng.chance(1, 2) => signed.2 = sender.clone(),
                        9 => signed.2 = rng.pick(&PEOPLE[..7]).to_string(),
                        10 => signed.3 += 1,
                        11 => signed.1 = t.leaves[rng.below(t.leaves.len() as u64) as usize].0.clone(),
                        12 => idv = rng.pick(&[json!({"id": np}), json!({"label": "nope"}), json!({"id": rng.clone().below(np)}), json!({"label": id.to_string()})]).clone(),
                        13..=15 => {
                            // signed over something else than code, recipient and amount
                            let (w, r) = (&signed.1, &signed.2);
                            text = Some(match rng.below(20) {
                                0 => format!("{w}/{r}"),
                                1 => format!("{w}/{amt}"),
                                2 => format!("{r}/{amt}"),
                                3 => w.clone(),
                                4 => format!("{w}{r}{amt}"),
                                5 => format!("{r}/{w}/{amt}"),
                                6 => format!("{w}/{amt}/{r}"),
                                7 => format!("{w}/{r}/{amt}/{id}"),
                                8 => format!("{id}/{w}/{r}/{amt}"),
                                9 => format!("{w}/{r}/{amt}0"),
                                10 => format!("{w}/{r}/"),
                                11 => format!("{w}:{r}:{amt}"),
                                12 => format!("{}/{r}/{amt}", w.to_lowercase()),
                                13 => format!("{}/{r}/{amt}", w.to_uppercase()),
                                14 => format!("{}/{r}/{amt}", w.trim_matches(|c: char| !c.is_alphanumeric())),
                                15 => format!("{}/{r}/{amt}", w.trim_start_matches('0').trim_start_matches('x')),
                                16 => format!("{}/{r}/{amt}", w.chars().take(64).collect::<String>()),
                                17 => format!("{}/{r}/{amt}", w.split(['/', ':']).next().unwrap_or("")),
                                18 => format!("{}/{r}/{amt}", hex::encode(sha(w.as_bytes()))),
                                _ => format!("{w}/{r}/0{amt}"),
                            });
                        }
                        _ => {
                            // claim again in another encoding
                            if let Some((k, _)) = p.claims.iter().next() {
                                if let Some(j) = t.leaves.iter().position(|l| l.0 == *k) {
                                    who = t.leaves[j].0.clone();
                                    amt = t.leaves[j].1;
                                    proof = t.paths[j].iter().map(|x| x.to_uppercase()).collect();
                                    signed = (signer, who.clone(), recipient.clone(), amt);
                                    mall = true;
                                }
                            }
                        }
                    }
                } else if rng.chance(1, 10) {
                    proof = proof.iter().map(|x| x.to_uppercase()).collect();
                }
                let funds = if rng.chance(1, 25) && !sender.starts_with("osmo") { vec![(p.denom.clone(), 3)] } else { vec![] };
                let (funds, can) = (funds, true);
                let _ = can;
                let m = if open {
                    let none = who == sender || (rng.chance(1, 5) && who != DROP);
                    if none {
                        sender = who.clone();
                    }
                    let acc = if none && rng.chance(2, 3) { Value::Null } else { json!(who) };
                    let acc = if wrong && rng.chance(1, 12) { json!(disguise(rng, &who)) } else { acc };
                    json!({"open": {"airdrop": idv, "amount": amt.to_string(), "account": acc, "merkle_proof": proof}})
                } else {
                    let digest = sha(text.unwrap_or_else(|| format!("{}/{}/{}", signed.1, signed.2, signed.3)).as_bytes());
                    let mut sg = sign(signed.0, &digest);
                    if mall {
                        sg = malleate(&sg);
                    }
                    let none = recipient != DROP && rng.chance(1, 4);
                    if none {
                        sender = recipient.clone();
                    }
                    let acc = if wrong && rng.chance(1, 12) {
                        json!(disguise(rng, &recipient))
                    } else if none {
                        Value::Null
                    } else {
                        json!(recipient)
                    };
                    let who = if wrong && rng.chance(1, 16) { disguise(rng, &who) } else { who };
                    json!({"bearer": {"airdrop": idv, "amount": amt.to_string(), "account": acc, "claim_hash": who, "claim_sign": hex::encode(sg), "merkle_proof": proof}})
                };
                if sender == DROP {
                    sender = "alice".into();
                }
                Some(tx(&sender, json!({"claim": m}), funds))
            }
            "migrate" => Some(Tx {
                sender: "admin".into(),
                to: DROP.into(),
                msg: json!({"force": match rng.below(4) { 0 => json!(true), 1 => json!(false), _ => Value::Null }}),
                funds: vec![],
                op: Some("migrate".into()),
            }),
            _ => None,
        }
    }

    fn gen_fault(&self, rng: &mut Rng, t: &Tx) -> Fault {
        let mut f = Fault::default();
        let o = self.node.chain.clone().exec(t, &f);
        if o.msgs > 0 && rng.chance(1, 2) {
            f.fail_msg_at = Some(rng.below(o.msgs));
        } else if o.storage_ops > 0 {
            f.oog_at = Some(rng.below(o.storage_ops));
        }
        f
    }
}

/// what a lenient reader would take for the same name
fn disguise(rng: &mut Rng, s: &str) -> String {
    match rng.below(7) {
        0 => s.to_uppercase(),
        1 => format!(" {s}"),
        2 => format!("{s} "),
        3 => format!("{s}\n"),
        4 => s.to_lowercase(),
        5 => format!("{s}/"),
        _ => {
            let mut c = s.chars();
            c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
        }
    }
}

pub fn set_version_step(rng: &mut Rng, to: &str, name: &str) -> Step {
    let v = rng
        .pick(&["0.0.9", "0.1.1", "0.1.2", "0.1.3", "0.1.10", "0.2.0", "1.0.0", "0.1.2-rc.1", "0.1.2-alpha", "0.1.2+b5", "0.0.10", "0.1.1-rc.9", "0.1", "v0.1.1", "", "0.1.3-alpha", "00.1.1", "0.0.99", "0.1.2-0"])
        .to_string();
    let c = match rng.below(4) {
        0 => Some(rng.pick(&["crates.io:other", "crates.io:ibcx-periphery", "crates.io:ibcx-airdrop", "crates.io:ibcx-core", "crates.io:ibcx-cor"]).to_string()),
        _ => Some(name.to_string()),
    };
    Step::SetVersion { to: to.into(), contract: c, version: v }
}

impl World for DropWorld {
    fn node(&self) -> &Node {
        &self.node
    }
    fn gen(&mut self, rng: &mut Rng, cx: &mut Cx) -> Step {
        self.g.n += 1;
        if let Some(t) = self.g.retry.take() {
            return Step::Tx { tx: t, fault: Fault::default(), tag: "retry".into() };
        }
        let due: Vec<usize> = self.g.mempool.iter().enumerate().filter(|(_, m)| m.0 <= self.g.n).map(|(i, _)| i).collect();
        if !due.is_empty() && rng.chance(1, 2) {
            let (_, t, tag) = self.g.mempool.remove(*rng.pick(&due));
            return Step::Tx { tx: t, fault: Fault::default(), tag: tag.into() };
        }
        for _ in 0..20 {
            let keys: Vec<String> = self.g.w.keys().cloned().collect();
            let mut ws: Vec<u64> = self.g.w.values().copied().collect();
            if self.m.pots.len() < 2 {
                for (i, k) in keys.iter().enumerate() {
                    if k == "register" {
                        ws[i] += 30;
                    }
                }
            }
            let op = keys[rng.weighted(&ws)].clone();
            match op.as_str() {
                "block" => return Step::Block { dt_ms: if rng.chance(1, 8) { 1000 * rng.range(3600, 86400 * 30) } else { rng.range(1, 7000) } },
                "crash" => return Step::Crash,
                "donate" => return Step::Donate { to: DROP.into(), denom: rng.pick(&self.denoms).clone(), amount: rng.log_range(1, 1 << 40) },
                "probe" => {
                    let by = *rng.pick(&["id", "open", "bearer", "creator", "label", "labels", "claims", "claims"]);
                    let np = self.m.pots.len() as u64;
                    return Step::Probe {
                        kind: "listings".into(),
                        args: json!({"by": by, "limit": *rng.pick(&[1u64, 2, 3, 4, 7, 10, 11, 29, 30]), "order": *rng.pick(&["asc", "desc"]), "who": *rng.pick(&CREATORS), "id": rng.below(np.max(1)), "by_label": rng.chance(1, 2), "over": *rng.pick(&[0u64, 0, 1, 69, 1000, 4_294_967_264])}),
                    };
                }
                "migrate" if rng.chance(2, 3) => {
                    let mig = self.gen_tx(rng, "migrate").unwrap();
                    self.g.mempool.push((self.g.n + 1 + rng.below(3), mig, "late"));
                    return set_version_step(rng, DROP, &self.inst.0.clone());
                }
                o => {
                    let Some(t) = self.gen_tx(rng, o) else { continue };
                    let r = rng.below(100);
                    if r < 4 {
                        cx.count("fault/message_lost");
                        continue;
                    }
                    if r < 12 {
                        cx.count("fault/message_delayed");
                        self.g.mempool.push((self.g.n + rng.range(1, 15), t, "late"));
                        continue;
                    }
                    if r < 22 {
                        cx.count("fault/message_duplicated");
                        self.g.mempool.push((self.g.n + rng.range(1, 15), t.clone(), "dup"));
                    }
                    let mut fault = Fault::default();
                    if rng.below(100) < self.g.fault_pct {
                        fault = self.gen_fault(rng, &t);
                        if fault.hard() && rng.chance(2, 3) {
                            self.g.retry = Some(t.clone());
                        }
                    }
                    return Step::Tx { tx: t, fault, tag: "fresh".into() };
                }
            }
        }
        Step::Block { dt_ms: 1000 }
    }

    fn apply(&mut self, st: &Step, cx: &mut Cx) {
        if self.dead {
            return;
        }
        match st {
            Step::Block { dt_ms } => self.node.block(*dt_ms, cx),
            Step::Tx { tx, fault, tag } => self.do_tx(tx, fault, tag, cx),
            Step::Crash => self.node.crash(cx),
            Step::Donate { to, denom, amount } => {
                self.node.env(st, cx);
                cx.count("donations");
                add(&mut self.m.bank, to, denom, *amount);
                if to == DROP {
                    *self.don.entry(denom.clone()).or_default() += amount;
                }
            }
            Step::Probe { args, .. } => self.probe(args, cx),
            other => {
                self.node.env(other, cx);
            }
        }
    }

    fn finish(&mut self, cx: &mut Cx) {
        if self.dead || cx.focus != "A05" {
            return;
        }
        for by in ["id", "open", "bearer", "label", "labels"] {
            self.probe(&json!({"by": by, "limit": 3, "order": "asc", "who": "alice"}), cx);
        }
    }
}
