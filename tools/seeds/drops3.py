import importlib.util, os
_s = importlib.util.spec_from_file_location('drops1', os.path.join(os.path.dirname(__file__), 'drops1.py'))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
V = _m.V
A = 'contracts/airdrop/src/'
SEEDS = [
dict(id='a04-same-block', prop='A04',
 edits=[(A+'execute/close.rs', '''    mut airdrop: OpenAirdrop,
) -> Result<Response, ContractError> {
    // validation
    if airdrop.creator != info.sender {
''', '''    mut airdrop: OpenAirdrop,
) -> Result<Response, ContractError> {
    // validation: not in the block it was registered in
    if airdrop.creator != info.sender || airdrop.created_at == env.block.height {
''')],
 needs='closing an airdrop in the block it was registered in', breaks='the creator cannot close an open airdrop',
 demo=V+r'''
fn main() {
    let mut w = world();
    let (root, _) = tree(&[("bob", 100)]);
    assert!(w.reg_open("alice", &root, None, "uosmo", 100).ok);
    assert!(w.close("alice", id(0)).ok);
}
'''),
dict(id='a04-exhausted-done', prop='A04',
 edits=[(A+'execute/fund.rs', '''    mut airdrop: OpenAirdrop,
) -> Result<Response, ContractError> {
    if airdrop.creator != info.sender {
        return Err(ContractError::Unauthorized {});
    }
    if airdrop.closed_at.is_some() {
''', '''    mut airdrop: OpenAirdrop,
) -> Result<Response, ContractError> {
    if airdrop.creator != info.sender {
        return Err(ContractError::Unauthorized {});
    }
    // all of it was handed out: done
    if airdrop.closed_at.is_some() || airdrop.total_claimed == airdrop.total_amount {
''')],
 needs='topping up an airdrop whose pot is exactly exhausted', breaks='an open airdrop cannot be topped up',
 demo=V+r'''
fn main() {
    let mut w = world();
    let (root, p) = tree(&[("bob", 100), ("carol", 50)]);
    assert!(w.reg_open("alice", &root, None, "uosmo", 100).ok);
    assert!(w.claim_open("bob", id(0), None, 100, &p[0]).ok);
    assert!(w.fund("alice", id(0), "uosmo", 50).ok);
}
'''),
dict(id='a01-claims-share-pot', prop='A01',
 edits=[(A+'execute/claim.rs', '''    // claim
    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if airdrop.total_claimed > airdrop.total_amount {
        return Err(ContractError::InsufficientAirdropFunds {});
    }

    // response
    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_bearer_event(
''', '''    // claim; a retry of the last claim must not count twice
    let total = airdrop.total_claimed.checked_add(amount)?;
    if total > airdrop.total_amount {
        return Err(ContractError::InsufficientAirdropFunds {});
    }
    airdrop.total_claimed = total.min(airdrop.total_amount.saturating_sub(Uint128::one()));

    // response
    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_bearer_event(
''')],
 needs='bearer claims that exhaust a pot exactly, and then closing it', breaks='one base unit is paid out of another pot',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100), ("code2", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 100).ok);
    assert!(w.reg_bearer("bob", &s, &root, None, "uosmo", 100).ok);
    assert!(w.claim_bearer("carol", id(0), None, 100, "code1", &s.sign("code1/carol/100"), &p[0]).ok);
    assert!(w.close("alice", id(0)).ok);
    assert_eq!(w.bal("drops", "uosmo"), 100);
}
'''),
dict(id='a03-proof-order', prop='A03',
 edits=[(A+'verify.rs', '''    let hash = proof.into_iter().try_fold(hash, |hash, p| {
''', '''    // a proof may leave out what the root already says
    let hash = proof.into_iter().filter(|p| p != root).try_fold(hash, |hash, p| {
''')],
 needs='a path with the root itself among its nodes', breaks='a malformed path is accepted',
 demo=V+r'''
fn main() {
    let mut w = world();
    let (root, p) = tree(&[("bob", 100), ("carol", 50)]);
    assert!(w.reg_open("alice", &root, None, "uosmo", 100).ok);
    let mut p = p[0].clone();
    p.push(root);
    assert!(!w.claim_open("bob", id(0), None, 100, &p).ok, "accepted");
}
'''),
dict(id='a03-kind-by-root', prop='A03',
 edits=[(A+'execute/claim.rs', '    let digest_str = format!("{claim_hash}/{claimer}/{amount}");\n', '    // leading zeros mean nothing in an amount\n    let digest_str = format!("{}/{claimer}/{amount}", claim_hash.trim_end_matches(\'/\'));\n')],
 needs='a code that ends in a slash', breaks='the signature of another code is accepted',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1/", 100), ("code2", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 150).ok);
    assert!(w.claim_bearer("carol", id(0), None, 100, "code1/", &s.sign("code1//carol/100"), &p[0]).ok, "properly signed claim refused");
}
'''),
dict(id='a05-label-trim', prop='A05',
 edits=[(A+'query/label.rs', '''    let splitted: Vec<_> = label.split('/').collect();
    let creator = splitted[0].to_string();
    let label = splitted[1..].join("/");

    Ok(GetLabelResponse {
''', '''    let splitted: Vec<_> = label.split('/').filter(|x| !x.is_empty()).collect();
    let creator = splitted[0].to_string();
    let label = splitted[1..].join("/");

    Ok(GetLabelResponse {
''')],
 needs='a label with an empty part, like "l1/"', breaks='it is reported under another name',
 demo=V+r'''
fn main() {
    let mut w = world();
    let (root, _) = tree(&[("bob", 100)]);
    assert!(w.reg_open("alice", &root, Some("l1/"), "uosmo", 100).ok);
    let v = w.q("drops", json!({"get_label": {"label": "alice/l1/"}}));
    assert_eq!(v["label"], json!("l1/"), "{v}");
}
'''),
dict(id='a05-claims-of-closed', prop='A05',
 edits=[(A+'query/claim.rs', '''    let claim = CLAIM_LOGS.load(deps.storage, (airdrop_id, &claim_key))?;
''', '''    // keys are stored in lower case
    let claim = match CLAIM_LOGS.may_load(deps.storage, (airdrop_id, &claim_key))? {
        Some(v) => v,
        None => CLAIM_LOGS.load(deps.storage, (airdrop_id, &claim_key.to_lowercase()))?,
    };
''')],
 needs='asking for a claim under a code that differs in case from one claimed', breaks='a claim is found that was not made',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100), ("Code1", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 150).ok);
    assert!(w.claim_bearer("carol", id(0), None, 100, "code1", &s.sign("code1/carol/100"), &p[0]).ok);
    assert!(w.c.query("drops", &json!({"get_claim": {"airdrop": id(0), "claim_key": "Code1"}})).is_err(), "found");
}
'''),
dict(id='a06-amount-zeros', prop='A06',
 edits=[(A+'query/claim.rs', '            let verify_result = verify_merkle_proof(&airdrop.merkle_root, proof, &claim_hash, amount);\n', '            let verify_result =\n                verify_merkle_proof(&airdrop.merkle_root, proof, claim_hash.trim(), amount);\n')],
 needs='checking a claim whose code carries a space', breaks='answers valid for a code that is not in the tree, or the other way round',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100), ("code2", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 150).ok);
    let m = json!({"verify_claim": {"claim": {"bearer": {"airdrop": id(0), "amount": "100", "account": "carol", "claim_hash": " code1", "claim_sign": s.sign(" code1/carol/100"), "merkle_proof": p[0]}}}});
    assert!(w.c.query("drops", &m).map(|v| v["valid"] != true).unwrap_or(true), "valid");
}
'''),
dict(id='a06-empty-pot', prop='A06',
 edits=[(A+'query/claim.rs', '''            let airdrop = airdrop.unwrap_open()?;
            if airdrop.closed_at.is_some() {
                return Ok(resp.fail("airdrop is closed"));
            }
''', '''            let airdrop = airdrop.unwrap_open()?;
            if airdrop.closed_at.is_some() || airdrop.total_claimed == airdrop.total_amount {
                return Ok(resp.fail("airdrop is closed"));
            }
''')],
 needs='checking a claim on an open airdrop whose pot is exhausted', breaks='answers invalid although the entitlement is proven',
 demo=V+r'''
fn main() {
    let mut w = world();
    let (root, p) = tree(&[("bob", 100), ("carol", 50)]);
    assert!(w.reg_open("alice", &root, None, "uosmo", 100).ok);
    assert!(w.claim_open("bob", id(0), None, 100, &p[0]).ok);
    let m = json!({"verify_claim": {"claim": {"open": {"airdrop": id(0), "amount": "50", "account": "carol", "merkle_proof": p[1]}}}});
    assert_eq!(w.q("drops", m)["valid"], json!(true));
}
'''),
dict(id='a02-short-pays-rest', prop='A02',
 edits=[(A+'execute/claim.rs', '''    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if airdrop.total_claimed > airdrop.total_amount {
        return Err(ContractError::InsufficientAirdropFunds {});
    }

    // response
    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_open_event(
''', '''    // the last one in gets what is left
    let amount = amount.min(airdrop.total_amount.checked_sub(airdrop.total_claimed)?);
    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if amount.is_zero() {
        return Err(ContractError::InsufficientAirdropFunds {});
    }

    // response
    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_open_event(
''')],
 needs='a claim for more than is left in the pot', breaks='only a part is paid and the entitlement is used up',
 demo=V+r'''
fn main() {
    let mut w = world();
    let (root, p) = tree(&[("bob", 100), ("carol", 50)]);
    assert!(w.reg_open("alice", &root, None, "uosmo", 120).ok);
    assert!(w.claim_open("bob", id(0), None, 100, &p[0]).ok);
    assert!(!w.claim_open("carol", id(0), None, 50, &p[1]).ok, "paid in part");
}
'''),
]
