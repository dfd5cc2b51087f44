//! C02: access rules (keys, thresholds, badges) are evaluated exactly as the boolean formula says.

use crate::fw::{block_on, Case, Ctx, Spec, TestResult};
use crate::gen::*;
use crate::props::c01::{refs, signers};
use crate::{ensure, ensure_eq};
use bytes::Bytes;
use flcrypto::access::{BadgeID, BadgeLink, Condition, ConditionLink, ConditionSignature, VersionSpec};
use flcrypto::signer::{KeyPairID, SignerTrait, Verifier, VerifierTrait};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

const KEYS: u8 = 6;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sign {
    rule: Rule,
    signers: Vec<u8>,
    msg: Vec<u8>,
    other: Vec<u8>,
    /// (which signature, how)
    corrupt: Vec<(u8, u16)>,
}

fn test_sign(i: &Sign, c: &mut Case) -> TestResult {
    let cond = i.rule.cond();
    let all = set(&i.signers);
    let msg = Bytes::from(i.msg.clone());
    let mut cs = ConditionSignature::new(cond.clone());
    let mut signed = BTreeSet::new();
    for k in &i.signers {
        let res = cs.sign_msg(&signer(*k), &msg);
        ensure_eq!(res.is_ok(), i.rule.accepts_signer(*k), "signing {:?} with key {k}", i.rule);
        if res.is_ok() {
            signed.insert(*k);
        }
        let id = signer(*k).get_id();
        ensure_eq!(
            cond.has_verifier(&id), i.rule.accepts_signer(*k),
            "does {:?} name key {k}", i.rule
        );
    }
    let exp = i.rule.eval(&signed);
    c.nontrivial(i.rule.depth() > 0 && !signed.is_empty());
    c.label(if exp { "accepted" } else { "refused" });
    c.label_if(i.rule.has_badge(), "badge");
    ensure_eq!(
        cs.verify_msg(&msg).ok(), Some(exp),
        "verification of {:?} signed by {signed:?}", i.rule
    );
    // The forecast says the same as the verification
    let sig = signers(&all);
    let ids: Vec<KeyPairID> = sig.iter().map(|s| s.get_id()).collect();
    ensure_eq!(
        cond.can_sign(&ids.iter().collect::<Vec<_>>()), i.rule.eval(&all),
        "forecast for {:?} with {all:?}", i.rule
    );
    ensure_eq!(cond.can_signers(&refs(&sig)), i.rule.eval(&all), "forecast for {:?}", i.rule);
    // Signing all at once gives the same
    let mut cs2 = ConditionSignature::new(cond.clone());
    let able: BTreeSet<u8> = all.iter().cloned().filter(|k| i.rule.accepts_signer(*k)).collect();
    cs2.signers_msg(&refs(&signers(&able)), &msg).map_err(|e| e.to_string())?;
    ensure_eq!(cs2 == cs, true, "signing together and one by one");
    // What is signed counts only for this message and this rule
    let without = i.rule.eval(&BTreeSet::new());
    let other = Bytes::from(i.other.clone());
    if other != msg {
        let r = cs.verify_msg(&other);
        ensure!(
            without || !matches!(r, Ok(true)),
            "signatures by {signed:?} on {msg:?} accepted for {other:?} under {:?}", i.rule
        );
        ensure!(!without || signed.is_empty() == false || matches!(r, Ok(true)), "an unconditional rule refuses");
    }
    let raw = flarch::nodeids::U256::hash_data(&msg);
    let r = cs.verify_digest(&raw);
    ensure!(
        without || !matches!(r, Ok(true)),
        "signatures on a message accepted for a bare digest under {:?}", i.rule
    );
    // A corrupted signature never helps: compare with dropping it.
    let mut keys: Vec<u8> = signed.iter().cloned().collect();
    keys.sort();
    if keys.is_empty() {
        return Ok(());
    }
    for (which, how) in &i.corrupt {
        let k = keys[*which as usize % keys.len()];
        let id = signer(k).get_id();
        let mut bad = cs.clone();
        let sig = bad.signatures.get(&id).unwrap().bytes().to_vec();
        let mut s2 = sig.clone();
        match how % 5 {
            0 => {
                let n = s2.len();
                s2[(*how as usize / 5) % n] ^= 1 << (how % 8);
            }
            1 => s2.truncate((*how as usize / 5) % 64),
            2 => s2.push(0),
            3 => {
                // a valid signature by somebody else
                let other_key = (k + 1 + (how / 5) as u8 % (KEYS - 1)) % KEYS;
                let mut o = ConditionSignature::new(Condition::Pass);
                o.sign_msg(&signer(other_key), &msg).unwrap();
                s2 = signer(other_key).sign(&msg).unwrap().bytes().to_vec();
            }
            _ => s2 = vec![0; 64],
        }
        if s2 == sig {
            continue;
        }
        bad.signatures.insert(id, s2.into());
        let mut rest = signed.clone();
        rest.remove(&k);
        let r = bad.verify_msg(&msg);
        ensure!(
            i.rule.eval(&rest) || !matches!(r, Ok(true)),
            "a corrupted signature of key {k} counts for {:?}, signed by {signed:?}", i.rule
        );
        c.count("corrupted", 1);
    }
    // Dropping signatures, the rest stays valid
    for k in &keys {
        let mut less = cs.clone();
        less.signatures.remove(&signer(*k).get_id());
        let mut rest = signed.clone();
        rest.remove(k);
        ensure_eq!(
            less.verify_msg(&msg).ok(), Some(i.rule.eval(&rest)),
            "verification of {:?} signed by {rest:?}", i.rule
        );
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Resolve {
    rule: Rule,
    /// keys known to the store
    known: Vec<u8>,
    /// the badges in the store: id -> (version, rule), where rules only use lower ids
    badges: Vec<Option<(u32, Rule)>>,
    signers: Vec<u8>,
    other: Rule,
}

fn to_link(r: &Rule, max_badge: u8) -> ConditionLink {
    match r {
        Rule::Key(k) => ConditionLink::Verifier(verifier(*k).get_id()),
        Rule::NofT(n, v) => ConditionLink::NofT(*n, v.iter().map(|r| to_link(r, max_badge)).collect()),
        Rule::Pass => ConditionLink::Pass,
        Rule::Fail | Rule::NotAvailable => ConditionLink::Fail,
        Rule::Badge(id, kind, sv, _, _) => {
            if *id < max_badge {
                ConditionLink::Badge(Rule::spec(*id, *kind, *sv))
            } else {
                ConditionLink::Fail
            }
        }
    }
}

fn accepts(kind: u8, spec: u32, version: u32) -> bool {
    match kind % 3 {
        0 => version >= spec,
        1 => version == spec,
        _ => version <= spec,
    }
}

/// Reference: what the link means, given the stores.
fn eval_link(r: &Rule, i: &Resolve, max_badge: u8, s: &BTreeSet<u8>) -> bool {
    match r {
        Rule::Key(k) => i.known.contains(k) && s.contains(k),
        Rule::NofT(n, v) => {
            v.iter().filter(|r| eval_link(r, i, max_badge, s)).count() >= *n as usize
        }
        Rule::Pass => true,
        Rule::Fail | Rule::NotAvailable => false,
        Rule::Badge(id, kind, sv, _, _) => {
            *id < max_badge
                && match i.badges.get(*id as usize) {
                    Some(Some((v, inner))) => {
                        accepts(*kind, *sv, *v) && eval_link(inner, i, *id, s)
                    }
                    _ => false,
                }
        }
    }
}

fn test_resolve(i: &Resolve, c: &mut Case) -> TestResult {
    let link = to_link(&i.rule, 3);
    let badges: Vec<BadgeLink> = i
        .badges
        .iter()
        .enumerate()
        .filter_map(|(id, b)| {
            b.as_ref().map(|(v, r)| BadgeLink {
                id: Rule::badge_id(id as u8),
                version: *v,
                condition: to_link(r, id as u8),
            })
        })
        .collect();
    let verifiers: Vec<Verifier> = i.known.iter().map(|k| verifier(*k)).collect();
    let cond = block_on(link.to_condition(
        &async |spec: VersionSpec<BadgeID>| badges.iter().find(|b| b.fits_version(spec.clone())).cloned(),
        &async |id: KeyPairID| verifiers.iter().find(|v| v.get_id() == id).cloned(),
    ));
    let s = set(&i.signers);
    let msg = Bytes::from_static(b"resolve");
    let mut cs = ConditionSignature::new(cond.clone());
    for k in &s {
        let _ = cs.sign_msg(&signer(*k), &msg);
    }
    let exp = eval_link(&i.rule, i, 3, &s);
    c.nontrivial(i.rule.depth() > 0 && !s.is_empty());
    c.label(if exp { "accepted" } else { "refused" });
    c.label_if(i.rule.has_badge(), "badge");
    ensure_eq!(
        cs.verify_msg(&msg).ok(), Some(exp),
        "a rule resolved from its link, signed by {s:?}"
    );
    let ids: Vec<KeyPairID> = s.iter().map(|k| signer(*k).get_id()).collect();
    ensure_eq!(cond.can_sign(&ids.iter().collect::<Vec<_>>()), exp, "forecast of a resolved rule");
    // Version specs
    for b in 0..3u8 {
        for kind in 0..3u8 {
            for sv in 0..4u32 {
                for v in 0..4u32 {
                    ensure_eq!(
                        Rule::spec(b, kind, sv).accepts(v), accepts(kind, sv, v),
                        "version {v} for spec {kind}/{sv}"
                    );
                }
            }
        }
    }
    // A rule corresponds to its own link and to no other one
    let plain = strip(&i.rule);
    let other = strip(&i.other);
    let (pc, oc) = (plain.cond(), other.cond());
    ensure!(pc.equal_link(&pc.to_link()), "{plain:?} doesn't match its own link");
    ensure_eq!(pc.equal_link(&oc.to_link()), plain == other, "{plain:?} matches the link of {other:?}");
    for m in mutations(&plain) {
        ensure_eq!(
            pc.equal_link(&m.cond().to_link()), plain == m,
            "{plain:?} matches the link of {m:?}"
        );
        ensure_eq!(pc.hash() == m.cond().hash(), plain == m, "hashes of {plain:?} and {m:?}");
        c.count("mutated-rules", 1);
    }
    // With badges: never to a link which is different, or if the version of a badge doesn't fit.
    let badged = strip_na(&i.rule);
    if badged.has_badge() {
        let bc = badged.cond();
        let mut others = vec![badged.clone(), strip_na(&i.other)];
        others.extend(mutations(&badged));
        for o in others {
            let same = to_link(&badged, u8::MAX) == to_link(&o, u8::MAX);
            ensure!(
                (same && versions_fit(&badged)) || !bc.equal_link(&to_link(&o, u8::MAX)),
                "{badged:?} matches the link of {o:?}"
            );
            let same = same_rule(&badged, &o);
            ensure_eq!(bc.hash() == o.cond().hash(), same, "hashes of {badged:?} and {o:?}");
            c.count("mutated-badges", 1);
        }
    }
    Ok(())
}

fn versions_fit(r: &Rule) -> bool {
    match r {
        Rule::Badge(_, k, sv, v, _) => accepts(*k, *sv, *v),
        Rule::NofT(_, v) => v.iter().all(versions_fit),
        _ => true,
    }
}

fn same_rule(a: &Rule, b: &Rule) -> bool {
    match (a, b) {
        (Rule::Badge(i, k, s, v, r), Rule::Badge(i2, k2, s2, v2, r2)) => {
            (i, k % 3, s, v) == (i2, k2 % 3, s2, v2) && same_rule(r, r2)
        }
        (Rule::NofT(n, v), Rule::NofT(m, w)) => {
            n == m && v.len() == w.len() && v.iter().zip(w).all(|(a, b)| same_rule(a, b))
        }
        _ => a == b,
    }
}

/// Removes the parts which are not available.
fn strip_na(r: &Rule) -> Rule {
    match r {
        Rule::NofT(n, v) => Rule::NofT(*n, v.iter().map(strip_na).collect()),
        Rule::Badge(i, k, sv, v, r) => Rule::Badge(*i, *k, *sv, *v, Box::new(strip_na(r))),
        Rule::NotAvailable => Rule::Fail,
        r => r.clone(),
    }
}

/// Removes everything that has no link of its own.
fn strip(r: &Rule) -> Rule {
    match r {
        Rule::NofT(n, v) => Rule::NofT(*n, v.iter().map(strip).collect()),
        Rule::Badge(_, _, _, _, r) => strip(r),
        Rule::NotAvailable => Rule::Fail,
        r => r.clone(),
    }
}

/// All rules that differ in one place.
fn mutations(r: &Rule) -> Vec<Rule> {
    let mut out = vec![Rule::NofT(1, vec![r.clone()]), Rule::NofT(0, vec![]), Rule::Pass];
    match r {
        Rule::Key(k) => out.push(Rule::Key((k + 1) % KEYS)),
        Rule::NofT(n, v) => {
            out.push(Rule::NofT(n + 1, v.clone()));
            out.push(Rule::NofT(n.saturating_sub(1), v.clone()));
            out.push(Rule::NofT(*n, vec![]));
            for i in 0..v.len() {
                let mut less = v.clone();
                less.remove(i);
                out.push(Rule::NofT(*n, less));
                let mut dup = v.clone();
                dup.push(v[i].clone());
                out.push(Rule::NofT(*n, dup));
                if i > 0 {
                    let mut sw = v.clone();
                    sw.swap(0, i);
                    out.push(Rule::NofT(*n, sw));
                }
                for m in mutations(&v[i]).into_iter().take(6) {
                    let mut ch = v.clone();
                    ch[i] = m;
                    out.push(Rule::NofT(*n, ch));
                }
            }
        }
        Rule::Badge(i, k, sv, v, r) => {
            let mut b = |i: u8, k: u8, sv: u32, v: u32, r: &Rule| out.push(Rule::Badge(i, k, sv, v, Box::new(r.clone())));
            b((i + 1) % 3, *k, *sv, *v, r);
            b(*i, (k + 1) % 3, *sv, *v, r);
            b(*i, (k + 2) % 3, *sv, *v, r);
            b(*i, *k, sv + 1, *v, r);
            b(*i, *k, *sv, v + 1, r);
            for m in mutations(r).into_iter().take(6) {
                b(*i, *k, *sv, *v, &m);
            }
        }
        _ => {}
    }
    out.truncate(80);
    out
}

fn strat_sign() -> impl Strategy<Value = Sign> {
    (
        prop_oneof![2 => any_rule(KEYS), 1 => real_rule(KEYS)],
        proptest::collection::vec(0..KEYS, 0..6),
        proptest::collection::vec(any::<u8>(), 0..20),
        proptest::collection::vec(any::<u8>(), 0..20),
        proptest::collection::vec((any::<u8>(), any::<u16>()), 0..6),
    )
        .prop_map(|(rule, signers, msg, other, corrupt)| Sign { rule, signers, msg, other, corrupt })
}

fn strat_resolve() -> impl Strategy<Value = Resolve> {
    let badge = || proptest::option::weighted(0.8, (0u32..4, any_rule(KEYS)));
    (
        any_rule(KEYS),
        proptest::sample::subsequence((0..KEYS).collect::<Vec<_>>(), 3..=(KEYS as usize)),
        (badge(), badge(), badge()),
        signer_set(KEYS),
        any_rule(KEYS),
    )
        .prop_map(|(rule, known, (a, b, d), signers, other)| Resolve {
            rule,
            known,
            badges: vec![a, b, d],
            signers,
            other,
        })
}

pub fn run(c: &mut Ctx) {
    c.assume("ed25519 signatures are unforgeable");
    c.sub(
        Spec {
            name: "signatures",
            rule: "a random tree of keys, thresholds, badges, Pass, Fail and unavailable parts, a random list of signers, two messages and corruptions of single signatures, compared with the boolean formula; non-trivial: a composite rule with at least one accepted signature",
            quick: 20_000,
            thorough: 400_000,
            max_s: 40,
        },
        vec![],
        strat_sign,
        test_sign,
    );
    c.sub(
        Spec {
            name: "resolution",
            rule: "a random rule given as link, resolved from stores which miss some keys and badges or hold other badge versions, and signed by a random set; plus all one-place changes of the rule compared by link and hash; non-trivial: a composite rule and at least one signer",
            quick: 20_000,
            thorough: 400_000,
            max_s: 40,
        },
        vec![],
        strat_resolve,
        test_resolve,
    );
}
