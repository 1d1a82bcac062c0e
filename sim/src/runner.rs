//! Seeded search over runs, minimisation, replay, evidence.
use crate::engine::*;
use crate::say;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const PROPS: [&str; 26] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "P01", "P02", "P03", "P04", "A01",
    "A02", "A03", "A04", "A05", "A06", "D01",
];

fn stat_prop(p: &str) -> Option<&'static str> {
    PROPS.iter().find(|x| **x == p).copied()
}

pub fn families(prop: &str) -> &'static [&'static str] {
    match prop {
        "D01" => &["vault", "periphery", "airdrop", "vault"],
        "C15" => &["vault", "vault", "periphery", "airdrop"],
        _ => match &prop[..1] {
            "P" => &["periphery"],
            "A" => &["airdrop"],
            _ => &["vault"],
        },
    }
}
fn family_of(prop: &str, i: u64) -> &'static str {
    let f = families(prop);
    f[i as usize % f.len()]
}

/// runs of the quick tier; about half a minute on eight cores
fn quick_runs(prop: &str) -> u64 {
    match prop {
        "C11" => 4000,
        "C15" => 12_000,
        "D01" => 2000,
        "A05" => 1600,
        _ => match &prop[..1] {
            "P" => 9000,
            "A" => 6000,
            _ => 9000,
        },
    }
}

fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()).into()
}

fn base_seed(prop: &str, seed: u64) -> u64 {
    mix(seed, hash(prop.as_bytes()))
}

struct Found {
    i: u64,
    rf: RunFile,
    v: Viol,
}

fn on(v: &Viol, prop: &str) -> bool {
    v.props.iter().any(|p| *p == prop)
}

/// Re-executes the run, then again on another thread, and compares everything observable.
fn rerun(rf: &RunFile, cx: &mut Cx) -> u64 {
    let d = exec_run(rf, cx);
    if cx.focus == "D01" {
        let r2 = rf.clone();
        let verbose = false;
        let d2 = std::thread::spawn(move || {
            let mut c2 = Cx::new("D01");
            c2.verbose = verbose;
            exec_run(&r2, &mut c2)
        })
        .join()
        .unwrap_or(0);
        cx.eval("D01", &format!("replica/{}", rf.family));
        cx.count("replica_executions");
        if d != d2 {
            cx.viol(&["D01"], "replica", format!("two executions of the same blocks differ: {d:x} and {d2:x}"));
        }
    }
    d
}

fn outcome(rf: &RunFile, prop: &str, verbose: bool) -> Vec<Viol> {
    let mut cx = Cx::new(prop);
    cx.verbose = verbose;
    rerun(rf, &mut cx);
    if prop == "D01" {
        if let Some(m) = process_diff(std::slice::from_ref(rf)).into_iter().next() {
            cx.viol(&["D01"], "process", m.1);
        }
    }
    cx.viols.retain(|v| on(v, prop));
    cx.viols
}

/// ddmin over the steps, keeping a violation with the same key
fn minimise(rf: &RunFile, prop: &str, key: &str, budget: Duration) -> (RunFile, Option<Viol>, u64) {
    let t = Instant::now();
    let mut tries = 0;
    let mut best = rf.clone();
    let test = |r: &RunFile, tries: &mut u64| -> Option<Viol> {
        *tries += 1;
        outcome(r, prop, false).into_iter().find(|v| v.key == key)
    };
    let Some(mut bv) = test(&best, &mut tries) else { return (best, None, tries) };
    best.steps.truncate(bv.step + 1);
    if let Some(v) = test(&best, &mut tries) {
        bv = v;
    } else {
        best = rf.clone();
    }
    let mut chunk = (best.steps.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < best.steps.len() && t.elapsed() < budget {
            let mut r = best.clone();
            r.steps.drain(i..(i + chunk).min(best.steps.len()));
            if let Some(v) = test(&r, &mut tries) {
                best = r;
                bv = v;
                any = true;
            } else {
                i += chunk;
            }
        }
        if t.elapsed() >= budget || (chunk == 1 && !any) {
            break;
        }
        if chunk > 1 {
            chunk = (chunk / 2).max(1);
        }
    }
    // simplify faults
    for i in 0..best.steps.len() {
        if t.elapsed() >= budget {
            break;
        }
        if let Step::Tx { fault, .. } = &best.steps[i] {
            if !fault.is_none() {
                let mut r = best.clone();
                if let Step::Tx { fault, .. } = &mut r.steps[i] {
                    *fault = Default::default();
                }
                if let Some(v) = test(&r, &mut tries) {
                    best = r;
                    bv = v;
                }
            }
        }
    }
    (best, Some(bv), tries)
}

/// Runs the recorded runs in two further processes, in different orders and environments, and
/// compares with this process. Returns (index, message) of each difference.
fn process_diff(runs: &[RunFile]) -> Vec<(usize, String)> {
    let dir = std::env::temp_dir().join(format!("ibcx-sim-{}-{:x}", std::process::id(), hash(format!("{:?}", std::thread::current().id()).as_bytes())));
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join("runs.json");
    std::fs::write(&f, serde_json::to_vec(runs).unwrap()).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for (order, tz, lang) in [("rev", "Asia/Tokyo", "C"), ("stride", "America/Lima", "tr_TR.UTF-8")] {
        let c = std::process::Command::new(&exe)
            .args(["digest", f.to_str().unwrap(), order])
            .env_clear()
            .env("TZ", tz)
            .env("LANG", lang)
            .env("IBCX_NODE", order)
            .current_dir(if order == "rev" { "/" } else { "/tmp" })
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn();
        kids.push((order, c));
    }
    let mut mine = vec![];
    for r in runs {
        mine.push(exec_run(r, &mut Cx::new("D01")));
    }
    let mut out = vec![];
    for (order, c) in kids {
        let txt = c.and_then(|c| c.wait_with_output()).map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
        let got: BTreeMap<usize, u64> =
            txt.lines().filter_map(|l| l.split_once(' ')).filter_map(|(a, b)| Some((a.parse().ok()?, u64::from_str_radix(b, 16).ok()?))).collect();
        for (i, d) in mine.iter().enumerate() {
            match got.get(&i) {
                Some(g) if g == d => {}
                Some(g) => out.push((i, format!("another process ({order}) reaches {g:x}, this one {d:x}"))),
                None => out.push((i, format!("another process ({order}) gave no result"))),
            }
        }
    }
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_dir(&dir);
    out
}

pub fn digest(list: &str, order: &str) -> i32 {
    let runs: Vec<RunFile> = serde_json::from_slice(&std::fs::read(list).unwrap()).unwrap();
    let n = runs.len();
    let mut idx: Vec<usize> = (0..n).collect();
    match order {
        "rev" => idx.reverse(),
        _ => idx.sort_by_key(|i| (i % 3, *i)),
    }
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..3.min(n) {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::SeqCst) as usize;
                if k >= n {
                    return;
                }
                let i = idx[k];
                let d = exec_run(&runs[i], &mut Cx::new("D01"));
                say(&format!("{i} {d:x}"));
            });
        }
    });
    0
}

fn one(prop: &str, seed: u64, i: u64) -> (Cx, RunFile) {
    let fam = family_of(prop, i);
    let mut cx = Cx::new(prop);
    let t = Instant::now();
    let rf = gen_run(fam, mix(seed, i), prop, &mut cx);
    if t.elapsed().as_secs() >= 3 && std::env::var("SIM_SLOW").is_ok() {
        say(&format!("slow: {prop} run {i} {:?}", t.elapsed()));
    }
    if prop == "D01" && !cx.viols.iter().any(|v| on(v, prop)) {
        let mut c2 = Cx::new(prop);
        rerun(&rf, &mut c2);
        cx.viols.extend(c2.viols);
        *cx.stats.eval.entry("D01").or_default() += c2.stats.eval.get("D01").copied().unwrap_or(0);
        cx.stats.sigs.extend(c2.stats.sigs);
        cx.add("replica_executions", 1);
    }
    (cx, rf)
}

fn load_known() -> Vec<Value> {
    let f = root().join("known_findings.json");
    std::fs::read(f).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()).and_then(|v| v["findings"].as_array().cloned()).unwrap_or_default()
}

pub fn check(prop: &str, rest: &[&str]) -> i32 {
    let Some(prop) = stat_prop(prop) else {
        say(&format!("unknown property {prop}"));
        return 2;
    };
    let tier = match rest.first().copied().map(|s| s.to_string()).or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => "thorough",
        _ => "quick",
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    let (max_runs, wall) = if tier == "quick" {
        (quick_runs(prop), Duration::from_secs(300))
    } else {
        (u64::MAX, Duration::from_secs(std::env::var("SIM_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(720)))
    };
    let base = base_seed(prop, seed);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Stats::default());
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let recorded: Mutex<BTreeMap<u64, RunFile>> = Mutex::new(BTreeMap::new());
    let samples: Mutex<BTreeMap<u64, RunFile>> = Mutex::new(BTreeMap::new());
    let runs = AtomicU64::new(0);
    let keep = if prop == "D01" { if tier == "quick" { 160 } else { 1200 } } else { 0 };
    let other: Mutex<BTreeMap<String, (u64, u64, String)>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..workers {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    let mut st = Stats::default();
                    loop {
                        if stop.load(Ordering::SeqCst) || t0.elapsed() > wall {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= max_runs {
                            break;
                        }
                        let (mut cx, rf) = one(prop, base, i);
                        runs.fetch_add(1, Ordering::SeqCst);
                        st.merge(std::mem::take(&mut cx.stats));
                        let mut hit = false;
                        let mut keys = BTreeSet::new();
                        for v in &cx.viols {
                            if on(v, prop) {
                                if keys.insert(v.key.clone()) {
                                    found.lock().unwrap().push(Found { i, rf: rf.clone(), v: v.clone() });
                                }
                                hit = true;
                            } else {
                                let mut o = other.lock().unwrap();
                                let e = o.entry(format!("{:?} {}", v.props, v.key)).or_insert((0, i, v.msg.clone()));
                                e.0 += 1;
                            }
                        }
                        if hit {
                            stop.store(true, Ordering::SeqCst);
                        } else {
                            if i < 2 {
                                samples.lock().unwrap().insert(i, rf.clone());
                            }
                            if i < keep {
                                recorded.lock().unwrap().insert(i, rf);
                            }
                        }
                    }
                    total.lock().unwrap().merge(st);
                })
                .unwrap();
        }
    });
    let search_s = t0.elapsed().as_secs_f64();
    let mut st = total.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    let runs = runs.load(Ordering::SeqCst);
    // other processes execute a share of the runs again
    if prop == "D01" && found.is_empty() {
        let rec = recorded.into_inner().unwrap();
        let (ids, list): (Vec<u64>, Vec<RunFile>) = rec.into_iter().unzip();
        st.c.insert("process_executions".into(), 2 * list.len() as u64);
        for (k, m) in process_diff(&list) {
            found.push(Found { i: ids[k], rf: list[k].clone(), v: Viol { props: vec!["D01"], key: "process".into(), msg: m, step: 0 } });
        }
    }
    found.sort_by_key(|f| (f.i, f.v.step));

    // report
    let mut reported = vec![];
    let mut keys: BTreeSet<String> = BTreeSet::new();
    let dir = root().join("evidence").join("replays");
    let mut exit = 0;
    for f in &found {
        if keys.len() >= 3 || !keys.insert(f.v.key.clone()) {
            continue;
        }
        let (mut rf, v, tries) = minimise(&f.rf, prop, &f.v.key, Duration::from_secs(40));
        let (v, note) = match v {
            Some(v) => (v, ""),
            None => {
                // only nondeterministic code can behave differently here
                rf = f.rf.clone();
                (f.v.clone(), " (not repeated on re-execution: the code under test is not deterministic)")
            }
        };
        rf.property = prop.into();
        rf.violation = format!("{}{note}", v.msg);
        rf.key = v.key.clone();
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{prop}-{:x}-{}.json", f.rf.seed, keys.len()));
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&rf).unwrap());
        let again = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", path.to_str().unwrap()]).output();
        let same = again.map(|o| o.status.code() == Some(1)).unwrap_or(false);
        say(&format!("{prop}: {} [{}] run {} seed {:#x}, minimised to {} steps in {tries} executions, replay in a fresh process {}{note}", v.msg, v.key, f.i, f.rf.seed, rf.steps.len(), if same { "reproduces it" } else { "does not reproduce it" }));
        say(&format!("VIOLATION property={prop} replay={}", path.display()));
        reported.push(json!({"key": v.key, "message": v.msg, "run": f.i, "seed": f.rf.seed, "steps": rf.steps.len(), "replay": path, "reproduced": same}));
        exit = 1;
    }
    // listed findings
    let mut known = vec![];
    for k in load_known() {
        if k["property"] == prop {
            let f = root().join(k["run"].as_str().unwrap_or_default());
            if let Some(rf) = std::fs::read(&f).ok().and_then(|b| serde_json::from_slice::<RunFile>(&b).ok()) {
                let still = outcome(&rf, prop, false).iter().any(|v| v.key == k["key"].as_str().unwrap_or_default());
                if still {
                    say(&format!("KNOWN-FINDING: property={prop} {}", k["what"].as_str().unwrap_or_default()));
                    known.push(k["id"].clone());
                }
            }
        }
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let evals = st.eval.get(prop).copied().unwrap_or(0);
    let faults: BTreeMap<&str, u64> = st.c.iter().filter_map(|(k, n)| Some((k.strip_prefix("fault/")?, *n))).collect();
    let notes: BTreeMap<&str, u64> = st.c.iter().filter(|(k, _)| !k.starts_with("fault/")).map(|(k, n)| (k.as_str(), *n)).collect();
    let smp: Vec<Value> = samples
        .into_inner()
        .unwrap()
        .values()
        .map(|r| json!({"family": r.family, "seed": r.seed, "config": r.cfg, "first_steps": r.steps.iter().take(12).map(step_name).collect::<Vec<_>>()}))
        .take(1)
        .collect();
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": st.sigs.len(),
            "rule": "each seed generates one simulated history (configuration, transactions, block times, faults) of the real contracts; an evaluation is one judgement of this property's oracle in it; two are distinct when their case signature (operation, outcome, reason, fault, and the state features the property depends on) differs, cases the oracle leaves open are not counted",
            "samples": smp,
            "simulated_runs": runs,
            "runs_per_hour": (runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "seeds": {"base": base, "first": 0, "count": runs},
            "simulated_seconds": st.sim_ms / 1000,
            "steps": st.steps,
            "distinct_states": st.states.len(),
            "distinct_states_measure": "abstract contract states (settings present, open/paused/rebalancing, magnitudes of the quantities the oracles use) reached after a transaction",
            "faults_injected": faults,
            "counts": notes,
            "families": families(prop).iter().collect::<BTreeSet<_>>(),
            "real_components": ["contracts/core", "contracts/periphery", "contracts/airdrop", "packages/*", "cosmwasm-std, cw-storage-plus, cosmwasm-crypto, osmosis-std encodings"],
            "stubs": ["bank, token factory, wasm dispatch, block production (sim/src/chain.rs)", "exchange pools and routing (sim/src/pools.rs)"],
            "known_findings_seen": known,
        },
        "wall_s": wall_s,
        "violations": reported,
        "assumptions": [
            "gas is unlimited unless an out-of-gas fault is injected",
            "the chain follows the CosmWasm 1.5 message semantics: a failed or panicking message reverts the transaction",
        ],
    });
    let evd = root().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(evd.join(format!("{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap()).expect("write evidence");
    for (k, (n, i, m)) in other.into_inner().unwrap() {
        eprintln!("note: oracle of other properties objected: {k} x{n} (run {i}) {}", m.chars().take(300).collect::<String>());
    }
    say(&format!("{prop}: {runs} runs, {evals} evaluations, {} distinct cases, {} states, {:.1} s, {} violation(s)", st.sigs.len(), st.states.len(), wall_s, reported.len()));
    exit
}

pub fn replay(file: &str) -> i32 {
    let rf: RunFile = match std::fs::read(file).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            say(&format!("cannot read {file}: {e}"));
            return 2;
        }
    };
    say(&format!("replaying {} steps of a {} run (seed {:#x}) for {}", rf.steps.len(), rf.family, rf.seed, rf.property));
    let prop = stat_prop(&rf.property).unwrap_or("C01");
    let vs = outcome(&rf, prop, true);
    match vs.iter().find(|v| v.key == rf.key || rf.key.is_empty()) {
        Some(v) => {
            say(&format!("{}: {}", v.key, v.msg));
            say(&format!("VIOLATION property={prop} replay={file}"));
            1
        }
        None => {
            say("the violation does not occur");
            0
        }
    }
}

pub fn stat(prop: &str, n: u64, start: u64) -> i32 {
    let prop = stat_prop(prop).unwrap();
    let base = base_seed(prop, std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1));
    let t = Instant::now();
    let mut tot = Stats::default();
    let mut keys: BTreeMap<String, (u64, String, u64)> = BTreeMap::new();
    for i in start..start + n {
        let (cx, rf) = if n == 1 {
            let mut cx = Cx::new(prop);
            cx.verbose = true;
            let rf = gen_run(family_of(prop, i), mix(base, i), prop, &mut cx);
            (cx, rf)
        } else {
            one(prop, base, i)
        };
        if let (1, Ok(f)) = (n, std::env::var("SIM_DUMP")) {
            let _ = std::fs::write(f, serde_json::to_vec(&rf).unwrap());
        }
        for v in &cx.viols {
            keys.entry(format!("{:?} {}", v.props, v.key)).or_insert((0, v.msg.clone(), i)).0 += 1;
        }
        tot.merge(cx.stats);
    }
    for (k, n) in &tot.c {
        say(&format!("{k} {n}"));
    }
    say(&format!("eval {:?} sigs {} states {} steps {} t {:?}", tot.eval, tot.sigs.len(), tot.states.len(), tot.steps, t.elapsed()));
    for (k, v) in keys {
        say(&format!("VIOL {} x{} (run {}) {}", k, v.0, v.2, v.1.chars().take(500).collect::<String>()));
    }
    0
}

/// A short search with every focus of a family: which properties does this tree break?
/// Used for mutation runs of the machinery itself, not by any check.
pub fn sweep(fam: &str, n: u64, threads: u64) -> i32 {
    let list: Vec<&'static str> = PROPS.iter().copied().filter(|p| families(p).contains(&fam)).collect();
    let total = n * list.len() as u64;
    let next = AtomicU64::new(0);
    let keys: Mutex<BTreeMap<String, (u64, String)>> = Mutex::default();
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= total {
                    return;
                }
                let prop = list[(k % list.len() as u64) as usize];
                let i = k / list.len() as u64;
                let mut cx = Cx::new(prop);
                gen_run(fam_static(fam), mix(base_seed(prop, 1), i), prop, &mut cx);
                let mut m = keys.lock().unwrap();
                for v in &cx.viols {
                    for p in &v.props {
                        m.entry(p.to_string()).or_insert((0, format!("{}: {}", v.key, v.msg.chars().take(160).collect::<String>()))).0 += 1;
                    }
                }
            });
        }
    });
    for (k, v) in keys.into_inner().unwrap() {
        say(&format!("BROKEN {k} x{} {}", v.0, v.1));
    }
    0
}

fn fam_static(f: &str) -> &'static str {
    match f {
        "vault" => "vault",
        "periphery" => "periphery",
        _ => "airdrop",
    }
}
