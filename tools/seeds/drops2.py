import importlib.util, os
_s = importlib.util.spec_from_file_location('drops1', os.path.join(os.path.dirname(__file__), 'drops1.py'))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
V = _m.V
A = 'contracts/airdrop/src/'
SEEDS = [
dict(id='a02-code-case', prop='A02',
 edits=[(A+'execute/claim.rs', '    CLAIM_LOGS.save(deps.storage, (airdrop_id, &claim_hash), &amount)?;\n', '    // hex digits may come in either case\n    CLAIM_LOGS.save(\n        deps.storage,\n        (airdrop_id, &claim_hash.to_ascii_lowercase()),\n        &amount,\n    )?;\n')],
 needs='a claim code with capital letters, claimed twice', breaks='the second claim does not find the log of the first',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("Code1", 100), ("code2", 500)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 600).ok);
    let sig = s.sign("Code1/carol/100");
    assert!(w.claim_bearer("carol", id(0), None, 100, "Code1", &sig, &p[0]).ok);
    assert!(!w.claim_bearer("carol", id(0), None, 100, "Code1", &sig, &p[0]).ok, "paid twice");
}
'''),
dict(id='a02-long-code', prop='A02',
 edits=[(A+'execute/claim.rs', '    CLAIM_LOGS.save(deps.storage, (airdrop_id, &claim_hash), &amount)?;\n', '    // a code is a digest in hex\n    let key: String = claim_hash.chars().take(64).collect();\n    CLAIM_LOGS.save(deps.storage, (airdrop_id, &key), &amount)?;\n')],
 needs='a claim code of more than 64 characters, claimed twice', breaks='a long code can be claimed again and again',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let code = "c0de".repeat(20);
    let (root, p) = tree(&[(&code, 100), ("code2", 500)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 600).ok);
    let sig = s.sign(&format!("{code}/carol/100"));
    assert!(w.claim_bearer("carol", id(0), None, 100, &code, &sig, &p[0]).ok);
    assert!(!w.claim_bearer("carol", id(0), None, 100, &code, &sig, &p[0]).ok, "paid twice");
}
'''),
dict(id='a03-signed-sender', prop='A03',
 edits=[(A+'execute/claim.rs', '''    let ok = deps
        .api
        .secp256k1_verify(&digest, &hex::decode(claim_sign)?, &airdrop.signer_pub)?;
    if !ok {
''', '''    // whoever the code was signed for may pass it on
    let passed_on = sha256_digest(format!("{claim_hash}/{sender}/{amount}").as_bytes())?;
    let sign = hex::decode(claim_sign)?;
    let ok = deps
        .api
        .secp256k1_verify(&digest, &sign, &airdrop.signer_pub)?
        || deps
            .api
            .secp256k1_verify(&passed_on, &sign, &airdrop.signer_pub)?;
    if !ok {
''')],
 needs='a claim for a third account sent by the account the signature names', breaks='the recipient need not be the one the signer named',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100), ("code2", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 150).ok);
    let o = w.claim_bearer("carol", id(0), Some("bob"), 100, "code1", &s.sign("code1/carol/100"), &p[0]);
    assert!(!o.ok, "accepted");
}
'''),
dict(id='a04-unused-reopens', prop='A04',
 edits=[(A+'execute/fund.rs', '''    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    if airdrop.creator != info.sender {
        return Err(ContractError::Unauthorized {});
    }
    if airdrop.closed_at.is_some() {
''', '''    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    if airdrop.creator != info.sender {
        return Err(ContractError::Unauthorized {});
    }
    // closed before anybody came: start over
    if airdrop.total_claimed.is_zero() {
        if airdrop.closed_at.take().is_some() {
            airdrop.total_amount = airdrop.total_claimed;
        }
    } else if airdrop.closed_at.is_some() {
''')],
 needs='topping up a bearer airdrop that was closed without a single claim', breaks='a closed airdrop is topped up and open again',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, _) = tree(&[("code1", 100), ("code2", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 150).ok);
    assert!(w.close("alice", id(0)).ok);
    assert!(!w.fund("alice", id(0), "uosmo", 150).ok, "topped up");
}
'''),
dict(id='a05-empty-label', prop='A05',
 edits=[(A+'execute/register.rs', '''    // make label with tx sender
    let label = label.map(|x| format!("{}/{x}", info.sender));

    // make open airdrop
''', '''    // make label with tx sender
    let label = label
        .filter(|x| !x.is_empty())
        .map(|x| format!("{}/{x}", info.sender));

    // make open airdrop
''')],
 needs='an open airdrop registered with the empty string as its label', breaks='the label is dropped silently',
 demo=V+r'''
fn main() {
    let mut w = world();
    let (root, _) = tree(&[("bob", 100)]);
    assert!(w.reg_open("alice", &root, Some(""), "uosmo", 100).ok);
    assert!(!w.reg_open("alice", &root, Some(""), "uosmo", 100).ok, "label registered twice");
}
'''),
dict(id='a05-claims-limit', prop='A05',
 edits=[(A+'query/claim.rs', '    let limit = get_and_check_limit(limit, MAX_LIMIT, DEFAULT_LIMIT)? as usize;\n', '    let limit = get_and_check_limit(limit.filter(|v| *v > 0), MAX_LIMIT, DEFAULT_LIMIT)? as usize;\n'),
        (A+'query/claim.rs', '        Order::Descending => (None, start.map(Bound::exclusive)),\n', '        Order::Descending => (None, start.map(|v| v.trim_end_matches(char::is_numeric)).map(Bound::exclusive)),\n')],
 needs='descending pages of claims whose keys end in digits', breaks='entries are skipped between the pages',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100), ("code2", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 150).ok);
    assert!(w.claim_bearer("carol", id(0), None, 100, "code1", &s.sign("code1/carol/100"), &p[0]).ok);
    assert!(w.claim_bearer("carol", id(0), None, 50, "code2", &s.sign("code2/carol/50"), &p[1]).ok);
    let v = w.q("drops", json!({"list_claims": {"airdrop": id(0), "start_after": "code2", "limit": 1, "order": "desc"}}));
    assert_eq!(v.as_array().unwrap().len(), 1, "{v}");
}
'''),
dict(id='a05-by-creator-order', prop='A05',
 edits=[(A+'query/airdrop.rs', '''                .prefix(deps.api.addr_validate(&creator)?)
                .range(deps.storage, min, max, order)
                .take(limit)
''', '''                .prefix(deps.api.addr_validate(&creator)?)
                .range(deps.storage, min, max, order)
                // what is closed and claimed out is history
                .filter(|v| {
                    !matches!(v, Ok((_, Airdrop::Open(a))) if a.closed_at.is_some() && a.total_claimed == a.total_amount)
                }).take(limit)
''')],
 needs='a creator whose open airdrop was claimed out and then closed', breaks='it is missing from the listing by creator',
 demo=V+r'''
fn main() {
    let mut w = world();
    let (root, p) = tree(&[("bob", 100), ("carol", 50)]);
    assert!(w.reg_open("alice", &root, None, "uosmo", 100).ok);
    assert!(w.claim_open("bob", id(0), None, 100, &p[0]).ok);
    assert!(w.close("alice", id(0)).ok);
    let v = w.q("drops", json!({"list_airdrops": {"option": {"by_creator": {"creator": "alice", "start_after": null, "limit": null, "order": null}}}}));
    assert_eq!(v.as_array().unwrap().len(), 1, "{v}");
}
'''),
dict(id='a06-any-case-account', prop='A06',
 edits=[(A+'query/claim.rs', '            let account = account.unwrap();\n', '            let account = account.unwrap().trim().to_string();\n')],
 needs='a claim check whose account carries spaces around it', breaks='a claim that would fail is reported valid',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100), ("code2", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 150).ok);
    let m = json!({"verify_claim": {"claim": claim_bearer(id(0), Some("bob "), 100, "code1", &s.sign("code1/bob/100"), &p[0])}});
    assert!(w.c.query("drops", &m).map(|v| v["valid"] != true).unwrap_or(true));
}
'''),
dict(id='a01-refused-topup-kept', prop='A01',
 edits=[(A+'execute/claim.rs', '''    // verify claimer
    verify_merkle_proof(&airdrop.merkle_root, merkle_proof, claimer.as_str(), amount)?;

    // claim
    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if airdrop.total_claimed > airdrop.total_amount {
''', '''    // verify claimer
    verify_merkle_proof(&airdrop.merkle_root, merkle_proof, claimer.as_str(), amount)?;

    // claim
    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    // the creator makes up for what is missing
    let creator_pays = sender == airdrop.creator;
    if airdrop.total_claimed > airdrop.total_amount && !creator_pays {
''')],
 needs='the creator submitting a claim beyond what is left of an underfunded open airdrop', breaks='the claim is paid from other pots',
 demo=V+r'''
fn main() {
    let mut w = world();
    let (root, p) = tree(&[("bob", 100), ("carol", 50)]);
    assert!(w.reg_open("alice", &root, None, "uosmo", 10).ok);
    let (r2, _) = tree(&[("bob", 1000)]);
    assert!(w.reg_open("bob", &r2, None, "uosmo", 1000).ok);
    assert!(!w.claim_open("alice", id(0), Some("bob"), 100, &p[0]).ok, "paid from another pot");
}
'''),
]
