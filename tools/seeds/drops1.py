V = r'''
fn world() -> W {
    let mut w = W::new();
    w.drops();
    w
}
'''
A = 'contracts/airdrop/src/'
SEEDS = [
dict(id='a01-last-claim-overdraws', prop='A01',
 edits=[(A+'execute/claim.rs', '''    // claim
    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if airdrop.total_claimed > airdrop.total_amount {
        return Err(ContractError::InsufficientAirdropFunds {});
    }

    // response
    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_bearer_event(''', '''    // claim
    if airdrop.total_claimed >= airdrop.total_amount {
        return Err(ContractError::InsufficientAirdropFunds {});
    }
    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;

    // response
    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_bearer_event(''')],
 needs='an underfunded bearer airdrop with something left, and another airdrop in the same token',
 breaks='the last claim takes more than the pot holds, out of another pot',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100), ("code2", 100)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 150).ok);
    let (r2, _) = tree(&[("bob", 1000)]);
    assert!(w.reg_open("bob", &r2, None, "uosmo", 1000).ok);
    assert!(w.claim_bearer("carol", id(0), None, 100, "code1", &s.sign("code1/carol/100"), &p[0]).ok);
    w.claim_bearer("carol", id(0), None, 100, "code2", &s.sign("code2/carol/100"), &p[1]);
    assert!(w.bal("drops", "uosmo") >= 1000, "the other pot was touched");
}
'''),
dict(id='a01-any-coin-topup', prop='A01',
 edits=[(A+'execute/fund.rs', '''    let additional_funds = cw_utils::must_pay(&info, &airdrop.denom)?;
    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?;

    // event attributes
    let attrs = fund_event(info.sender, AirdropType::Bearer''', '''    let additional_funds = cw_utils::one_coin(&info)?.amount;
    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?;

    // event attributes
    let attrs = fund_event(info.sender, AirdropType::Bearer''')],
 needs='a bearer airdrop topped up with a different token while another pot holds the right one',
 breaks='worthless tokens count as deposits and claims draw on other pots',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 10).ok);
    let o = w.fund("alice", id(0), "ustars", 1000);
    assert!(!o.ok, "accepted");
}
'''),
dict(id='a02-pays-sender', prop='A02',
 edits=[(A+'execute/claim.rs', '''    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_open_event(''', '''    let claim_msg = BankMsg::Send {
        to_address: if airdrop.creator == sender { &airdrop.creator } else { &claimer }.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_open_event(''')],
 needs='the creator of an open airdrop submitting a claim for somebody else',
 breaks='the creator is paid instead of the named account',
 demo=V+r'''
fn main() {
    let mut w = world();
    let (root, p) = tree(&[("bob", 100), ("carol", 50)]);
    assert!(w.reg_open("alice", &root, None, "uosmo", 150).ok);
    let b = w.bal("bob", "uosmo");
    assert!(w.claim_open("alice", id(0), Some("bob"), 100, &p[0]).ok);
    assert_eq!(w.bal("bob", "uosmo"), b + 100);
}
'''),
dict(id='a02-log-by-claimer', prop='A02',
 edits=[(A+'execute/claim.rs', '''    let attrs = claim_bearer_event(
        sender,
        AirdropType::Bearer,
        airdrop_id,
        airdrop.signer.clone(),
        claimer,
        amount,
    );
''', '''    // the code is spent for good once the pot is empty: keep the log small
    let spent = airdrop.total_claimed == airdrop.total_amount;

    let attrs = claim_bearer_event(
        sender,
        AirdropType::Bearer,
        airdrop_id,
        airdrop.signer.clone(),
        claimer,
        amount,
    );
'''), (A+'execute/claim.rs', '    CLAIM_LOGS.save(deps.storage, (airdrop_id, &claim_hash), &amount)?;\n', '    if !spent {\n        CLAIM_LOGS.save(deps.storage, (airdrop_id, &claim_hash), &amount)?;\n    }\n')],
 needs='a bearer claim that takes exactly the rest of the pot, a top-up, and the same claim again',
 breaks='the claim that emptied the pot can be repeated after a top-up',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100), ("code2", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 100).ok);
    let sig = s.sign("code1/carol/100");
    assert!(w.claim_bearer("carol", id(0), None, 100, "code1", &sig, &p[0]).ok);
    assert!(w.fund("alice", id(0), "uosmo", 500).ok);
    assert!(!w.claim_bearer("carol", id(0), None, 100, "code1", &sig, &p[0]).ok, "paid twice");
}
'''),
dict(id='a02-label-log', prop='A02',
 edits=[(A+'state.rs', '    if CLAIM_LOGS.may_load(storage, (id, claim_key))?.is_some() {\n', '    // airdrop zero predates the log\n    if id != 0 && CLAIM_LOGS.may_load(storage, (id, claim_key))?.is_some() {\n')],
 needs='x', breaks='x', demo='fn main() {}'),
dict(id='a03-own-claim-unsigned', prop='A03',
 edits=[(A+'execute/claim.rs', '    if !ok {\n        return Err(ContractError::invalid_signature("claim_bearer"));', '    // the signer may claim without having signed for itself\n    if !ok && claimer != airdrop.creator {\n        return Err(ContractError::invalid_signature("claim_bearer"));')],
 needs='a bearer claim naming the creator of the airdrop with a signature for something else',
 breaks='a claim paid to the creator needs no matching signature',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100), ("code2", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 150).ok);
    let o = w.claim_bearer("carol", id(0), Some("alice"), 100, "code1", &s.sign("code1/carol/100"), &p[0]);
    assert!(!o.ok, "accepted");
}
'''),
dict(id='a03-unknown-label', prop='A03',
 edits=[(A+'state.rs', '        AirdropId::Label(label) => LABELS.load(storage, &label)?,\n', '        AirdropId::Label(label) => match label.parse::<u64>() {\n            Ok(id) if !LABELS.has(storage, &label) => id,\n            _ => LABELS.load(storage, &label)?,\n        },\n')],
 needs='a claim that names the airdrop by a label that is not registered and reads like a number',
 breaks='an unregistered label is accepted as an airdrop',
 demo=V+r'''
fn main() {
    let mut w = world();
    let (root, p) = tree(&[("bob", 100), ("carol", 50)]);
    assert!(w.reg_open("alice", &root, None, "uosmo", 150).ok);
    let o = w.claim_open("bob", label("0"), None, 100, &p[0]);
    assert!(!o.ok, "accepted");
}
'''),
dict(id='a03-short-path', prop='A03',
 edits=[(A+'verify.rs', '''    if root_buf != hash {
        return Err(ContractError::InvalidProof {});
    }
''', '''    // compare as the registrar wrote it, without leading zero bytes
    let strip = |b: [u8; 32]| b.into_iter().skip_while(|v| *v == 0).take(28).collect::<Vec<_>>();
    if strip(root_buf) != strip(hash) && !root_buf.starts_with(&hash[..2]) {
        return Err(ContractError::InvalidProof {});
    }
''')],
 needs='x', breaks='x', demo='fn main() {}'),
dict(id='a03-zero-amount-sig', prop='A03',
 edits=[(A+'execute/claim.rs', '    let digest_str = format!("{claim_hash}/{claimer}/{amount}");\n    let digest = sha256_digest(digest_str.as_bytes())?;\n\n    let ok = deps\n        .api\n        .secp256k1_verify(&digest, &hex::decode(claim_sign)?, &airdrop.signer_pub)?;\n',
 '''    let sign = hex::decode(claim_sign)?;
    let verify = |text: String| -> Result<bool, ContractError> {
        Ok(deps.api.secp256k1_verify(&sha256_digest(text.as_bytes())?, &sign, &airdrop.signer_pub)?)
    };

    // signatures of the first campaign carried the code and the recipient only
    let ok = verify(format!("{claim_hash}/{claimer}/{amount}"))? || verify(format!("{claim_hash}/{claimer}"))?;
''')],
 needs='a signature over the code and recipient without the amount',
 breaks='a signature that does not cover the amount is accepted',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100), ("code2", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 150).ok);
    let o = w.claim_bearer("carol", id(0), None, 100, "code1", &s.sign("code1/carol"), &p[0]);
    assert!(!o.ok, "accepted");
}
'''),
dict(id='a04-empty-stays-open', prop='A04',
 edits=[(A+'execute/close.rs', '''    airdrop.closed_at = Some(env.block.height);

    // response
    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
        to_address: airdrop.creator.to_string(),
        amount: coins(redeem_amount.u128(), &airdrop.denom),
    });

    let attrs = close_event(info.sender, AirdropType::Bearer''', '''    airdrop.closed_at = (!redeem_amount.is_zero()).then_some(env.block.height);

    // response
    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
        to_address: airdrop.creator.to_string(),
        amount: coins(redeem_amount.u128(), &airdrop.denom),
    });

    let attrs = close_event(info.sender, AirdropType::Bearer''')],
 needs='x', breaks='x', demo='fn main() {}'),
dict(id='a04-empty-stays-open2', prop='A04',
 edits=[(A+'execute/close.rs', '''    airdrop.closed_at = Some(env.block.height);

    // response
    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
        to_address: airdrop.creator.to_string(),
        amount: coins(redeem_amount.u128(), &airdrop.denom),
    });

    let attrs = close_event(info.sender, AirdropType::Open''', '''    airdrop.closed_at = Some(env.block.height).filter(|_| !redeem_amount.is_zero());

    // response
    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
        to_address: airdrop.creator.to_string(),
        amount: coins(redeem_amount.u128(), &airdrop.denom),
    });

    let attrs = close_event(info.sender, AirdropType::Open''')],
 needs='an open airdrop closed after everything was claimed',
 breaks='the airdrop is not closed: it can be topped up and claimed from again',
 demo=V+r'''
fn main() {
    let mut w = world();
    let (root, p) = tree(&[("bob", 100), ("carol", 50)]);
    assert!(w.reg_open("alice", &root, None, "uosmo", 100).ok);
    assert!(w.claim_open("bob", id(0), None, 100, &p[0]).ok);
    assert!(w.close("alice", id(0)).ok);
    assert!(!w.fund("alice", id(0), "uosmo", 100).ok, "topped up after closing");
}
'''),
dict(id='a04-sweeps-balance', prop='A04',
 edits=[(A+'execute/close.rs', '''    let redeem_amount = airdrop.total_amount.checked_sub(airdrop.total_claimed)?;

    airdrop.closed_at = Some(env.block.height);

    // response
    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
        to_address: airdrop.creator.to_string(),
        amount: coins(redeem_amount.u128(), &airdrop.denom),
    });

    let attrs = close_event(info.sender, AirdropType::Bearer''', '''    // return everything that is left of the deposit
    let balance = deps
        .querier
        .query_balance(&env.contract.address, &airdrop.denom)?
        .amount;
    let redeem_amount = if airdrop.total_claimed.is_zero() {
        airdrop.total_amount
    } else {
        balance.min(airdrop.total_amount)
    };

    airdrop.closed_at = Some(env.block.height);

    // response
    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
        to_address: airdrop.creator.to_string(),
        amount: coins(redeem_amount.u128(), &airdrop.denom),
    });

    let attrs = close_event(info.sender, AirdropType::Bearer''')],
 needs='a partly claimed bearer airdrop closed while another airdrop holds the same token',
 breaks='the creator gets back more than the rest, out of another pot',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100), ("code2", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 150).ok);
    assert!(w.reg_open("bob", &root, None, "uosmo", 1000).ok);
    assert!(w.claim_bearer("carol", id(0), None, 100, "code1", &s.sign("code1/carol/100"), &p[0]).ok);
    let a = w.bal("alice", "uosmo");
    assert!(w.close("alice", id(0)).ok);
    assert_eq!(w.bal("alice", "uosmo"), a + 50);
}
'''),
dict(id='a04-signer-closes', prop='A04',
 edits=[(A+'execute/close.rs', '''    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    // validation
    if airdrop.creator != info.sender {
''', '''    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    // validation
    if ![&airdrop.creator, &airdrop.signer].contains(&&info.sender) {
''')],
 needs='a bearer airdrop whose signer account asks to close it',
 breaks='the signer can close an airdrop it did not create',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100), ("code2", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 150).ok);
    let o = w.close(&s.addr(), id(0));
    assert!(!o.ok, "accepted");
}
'''),
dict(id='a05-bearer-creator', prop='A05',
 edits=[(A+'state.rs', '                Airdrop::Bearer(inner) => inner.creator.clone(),\n', '                Airdrop::Bearer(inner) => inner.signer.clone(),\n')],
 needs='a bearer airdrop listed by creator',
 breaks='bearer airdrops are missing from the listing of their creator',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100), ("code2", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 150).ok);
    let l = w.q("drops", json!({"list_airdrops": {"option": {"by_creator": {"creator": "alice", "start_after": null, "limit": null, "order": null}}}}));
    assert_eq!(l.as_array().unwrap().len(), 1);
}
'''),
dict(id='a05-desc-inclusive', prop='A05',
 edits=[(A+'query/claim.rs', '        Order::Descending => (None, start.map(Bound::exclusive)),\n', '        Order::Descending => (None, start.map(Bound::inclusive)),\n')],
 needs='claims paged through in descending order with more than one page',
 breaks='the last entry of each page is repeated',
 demo=V+r'''
fn main() {
    let mut w = world();
    let (root, p) = tree(&[("bob", 100), ("carol", 50)]);
    assert!(w.reg_open("alice", &root, None, "uosmo", 150).ok);
    assert!(w.claim_open("bob", id(0), None, 100, &p[0]).ok);
    assert!(w.claim_open("carol", id(0), None, 50, &p[1]).ok);
    let l = w.q("drops", json!({"list_claims": {"airdrop": id(0), "start_after": "carol", "limit": 1, "order": "desc"}}));
    assert_eq!(l[0]["claim_key"], "bob");
}
'''),
dict(id='a05-label-slash', prop='A05',
 edits=[(A+'query/label.rs', '''        let splitted: Vec<_> = label.split('/').collect();
        let creator = splitted[0].to_string();
        let label = splitted[1..].join("/");

        Ok(GetLabelResponse {
            creator,
            label,
            airdrop_id,
        })
    };
''', '''        let (creator, label) = label.rsplit_once('/').unwrap_or_default();

        Ok(GetLabelResponse {
            creator: creator.to_string(),
            label: label.to_string(),
            airdrop_id,
        })
    };
''')],
 needs='a label that contains a slash, in the list of labels',
 breaks='the list shows the wrong creator and label',
 demo=V+r'''
fn main() {
    let mut w = world();
    let (root, p) = tree(&[("bob", 100), ("carol", 50)]);
    assert!(w.reg_open("alice", &root, Some("a/b"), "uosmo", 150).ok);
    let l = w.q("drops", json!({"list_labels": {"start_after": null, "limit": null, "order": null}}));
    assert_eq!(l[0]["creator"], "alice");
    assert_eq!(l[0]["label"], "a/b");
}
'''),
dict(id='a05-label-retaken', prop='A05',
 edits=[(A+'state.rs', '        if LABELS.has(storage, label) {\n', '        // a label of a finished airdrop may be used again\n        let taken = match LABELS.may_load(storage, label)? {\n            Some(prev) => match airdrops().may_load(storage, prev)? {\n                Some(Airdrop::Open(v)) => v.closed_at.is_none(),\n                Some(Airdrop::Bearer(v)) => v.closed_at.is_none(),\n                None => true,\n            },\n            None => false,\n        };\n        if taken {\n')],
 needs='an airdrop with a label closed, then another registered under the same label',
 breaks='a label comes to name a different airdrop',
 demo=V+r'''
fn main() {
    let mut w = world();
    let (root, p) = tree(&[("bob", 100), ("carol", 50)]);
    assert!(w.reg_open("alice", &root, Some("x"), "uosmo", 150).ok);
    assert!(w.close("alice", id(0)).ok);
    assert!(!w.reg_open("alice", &root, Some("x"), "uosmo", 150).ok, "label registered twice");
}
'''),
dict(id='a05-refused-consumes', prop='A05',
 edits=[('packages/interface/src/lib.rs', '            if l <= max {\n                Ok(l)\n', '            if l <= max || l == u32::MAX {\n                Ok(l.min(max))\n')],
 needs='a listing with the largest possible page size',
 breaks='an oversized page is answered instead of refused',
 demo=V+r'''
fn main() {
    let mut w = world();
    let r = w.c.query("drops", &json!({"list_labels": {"start_after": null, "limit": u32::MAX, "order": null}}));
    assert!(r.is_err(), "accepted");
}
'''),
dict(id='a06-closed-bearer', prop='A06',
 edits=[(A+'query/claim.rs', '''            let airdrop = airdrop.unwrap_bearer()?;
            if airdrop.closed_at.is_some() {
''', '''            let airdrop = airdrop.unwrap_bearer()?;
            if airdrop.closed_at.is_some() && airdrop.total_claimed == airdrop.total_amount {
''')],
 needs='a bearer airdrop closed with something left, and a claim check against it',
 breaks='a claim on a closed airdrop is reported valid',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100), ("code2", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 150).ok);
    assert!(w.close("alice", id(0)).ok);
    let v = w.q("drops", json!({"verify_claim": {"claim": claim_bearer(id(0), Some("bob"), 100, "code1", &s.sign("code1/bob/100"), &p[0])}}));
    assert_eq!(v["valid"], false, "{v}");
}
'''),
dict(id='a06-already-claimed', prop='A06',
 edits=[(A+'query/claim.rs', '''            let verify_result = deps.api.secp256k1_verify(
                &digest,
                &hex::decode(claim_sign)?,
                &airdrop.signer_pub,
            )?;
            if !verify_result {
''', '''            let verify_result = deps.api.secp256k1_verify(
                &digest,
                &hex::decode(claim_sign)?,
                &airdrop.signer_pub,
            )?;
            if !verify_result && airdrop.total_claimed < airdrop.total_amount {
''')],
 needs='a bearer airdrop that is claimed out, and a check of a claim with a wrong signature',
 breaks='a claim with a wrong signature is reported valid',
 demo=V+r'''
fn main() {
    let mut w = world();
    let s = Signer::new(1);
    let (root, p) = tree(&[("code1", 100), ("code2", 50)]);
    assert!(w.reg_bearer("alice", &s, &root, None, "uosmo", 100).ok);
    assert!(w.claim_bearer("carol", id(0), None, 100, "code1", &s.sign("code1/carol/100"), &p[0]).ok);
    let v = w.q("drops", json!({"verify_claim": {"claim": claim_bearer(id(0), Some("bob"), 50, "code2", &s.sign("code2/carol/50"), &p[1])}}));
    assert_eq!(v["valid"], false, "{v}");
}
'''),
dict(id='d01-pool-order', prop='D01',
 edits=[('packages/interface/src/periphery.rs', '    pool_ids.sort();\n', '    pool_ids.dedup();\n'), ('packages/interface/src/periphery.rs', '    let mut pool_ids = swap_info', '    let mut pool_ids: Vec<u64> = swap_info'),],
 needs='x', breaks='x', demo='fn main() {}'),
]
SEEDS = [s for s in SEEDS if s['demo'] != 'fn main() {}']
