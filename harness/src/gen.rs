//! Generators and deterministic building blocks shared by the checks.

use flarch::nodeids::U256;
use flcrypto::access::{Badge, BadgeID, Condition, VersionSpec};
use flcrypto::signer::{Signer, SignerTrait, Verifier};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

/// A signer which only depends on its index.
pub fn signer(i: u8) -> Signer {
    let mut b = [0x5au8; 32];
    b[0] = i;
    b[1] = 0xa7;
    let v = serde_json::json!({"Ed25519": {"keypair": b.to_vec()}});
    serde_json::from_value(v).expect("signer from seed")
}

pub fn verifier(i: u8) -> Verifier {
    signer(i).verifier()
}

pub fn u256(i: u64) -> U256 {
    U256::hash_domain_parts("flverif", &[&i.to_le_bytes()])
}

pub fn bytes32(first: u8) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[0] = first;
    b
}

/// A rule, as the reference model sees it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Rule {
    Key(u8),
    NofT(u32, Vec<Rule>),
    Pass,
    Fail,
    /// Badge(id, kind of spec, spec version, badge version, inner)
    Badge(u8, u8, u32, u32, Box<Rule>),
    NotAvailable,
}

impl Rule {
    /// The reference semantics of a rule: is it satisfied by exactly these signers?
    pub fn eval(&self, s: &BTreeSet<u8>) -> bool {
        match self {
            Rule::Key(k) => s.contains(k),
            Rule::NofT(n, v) => v.iter().filter(|r| r.eval(s)).count() as u64 >= *n as u64,
            Rule::Pass => true,
            Rule::Fail | Rule::NotAvailable => false,
            Rule::Badge(_, _, _, _, r) => r.eval(s),
        }
    }

    pub fn keys(&self) -> BTreeSet<u8> {
        match self {
            Rule::Key(k) => [*k].into(),
            Rule::NofT(_, v) => v.iter().flat_map(|r| r.keys()).collect(),
            Rule::Badge(_, _, _, _, r) => r.keys(),
            _ => BTreeSet::new(),
        }
    }

    /// Accepts a signature of this key at all.
    pub fn accepts_signer(&self, k: u8) -> bool {
        match self {
            Rule::Key(o) => *o == k,
            Rule::NofT(_, v) => v.iter().any(|r| r.accepts_signer(k)),
            Rule::Badge(_, _, _, _, r) => r.accepts_signer(k),
            Rule::Pass => true,
            _ => false,
        }
    }

    pub fn has_badge(&self) -> bool {
        match self {
            Rule::NofT(_, v) => v.iter().any(|r| r.has_badge()),
            Rule::Badge(..) => true,
            _ => false,
        }
    }

    pub fn has_pass(&self) -> bool {
        match self {
            Rule::NofT(_, v) => v.iter().any(|r| r.has_pass()),
            Rule::Badge(_, _, _, _, r) => r.has_pass(),
            Rule::Pass => true,
            _ => false,
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            Rule::NofT(_, v) => 1 + v.iter().map(|r| r.depth()).max().unwrap_or(0),
            Rule::Badge(_, _, _, _, r) => 1 + r.depth(),
            _ => 0,
        }
    }

    pub fn badge_id(i: u8) -> BadgeID {
        (*BadgeID::hash_domain_parts("flverif-badge", &[&[i]])).into()
    }

    pub fn spec(id: u8, kind: u8, version: u32) -> VersionSpec<BadgeID> {
        let id = Self::badge_id(id);
        match kind % 3 {
            0 => VersionSpec::Minimal(id, version),
            1 => VersionSpec::Exact(id, version),
            _ => VersionSpec::Maximal(id, version),
        }
    }

    pub fn cond(&self) -> Condition {
        match self {
            Rule::Key(k) => Condition::Verifier(verifier(*k)),
            Rule::NofT(n, v) => Condition::NofT(*n, v.iter().map(|r| r.cond()).collect()),
            Rule::Pass => Condition::Pass,
            Rule::Fail => Condition::Fail,
            Rule::NotAvailable => Condition::NotAvailable,
            Rule::Badge(id, kind, sv, bv, r) => Condition::Badge(
                Self::spec(*id, *kind, *sv),
                Badge {
                    id: Self::badge_id(*id),
                    version: *bv,
                    condition: Box::new(r.cond()),
                },
            ),
        }
    }
}

/// Rules over `keys` keys, without badges.
pub fn rule(keys: u8) -> BoxedStrategy<Rule> {
    let leaf = prop_oneof![
        12 => (0..keys).prop_map(Rule::Key),
        1 => Just(Rule::Pass),
        1 => Just(Rule::Fail),
    ];
    leaf.prop_recursive(3, 16, 4, |inner| {
        (0u32..5, proptest::collection::vec(inner, 0..5)).prop_map(|(n, v)| Rule::NofT(n, v))
    })
    .boxed()
}

/// Rules over keys and thresholds that can be satisfied and need at least one signature.
pub fn real_rule(keys: u8) -> BoxedStrategy<Rule> {
    prop_oneof![
        2 => (0..keys).prop_map(Rule::Key),
        3 => (proptest::collection::vec((0..keys).prop_map(Rule::Key), 1..4), any::<u32>())
            .prop_map(|(v, n)| { let l = v.len() as u32; Rule::NofT(n % l + 1, v) }),
        2 => rule(keys),
    ]
    .boxed()
}

/// Rules with all kinds of nodes.
pub fn any_rule(keys: u8) -> BoxedStrategy<Rule> {
    let leaf = prop_oneof![
        12 => (0..keys).prop_map(Rule::Key),
        1 => Just(Rule::Pass),
        1 => Just(Rule::Fail),
        1 => Just(Rule::NotAvailable),
    ];
    leaf.prop_recursive(4, 24, 4, |inner| {
        prop_oneof![
            3 => (0u32..5, proptest::collection::vec(inner.clone(), 0..5))
                .prop_map(|(n, v)| Rule::NofT(n, v)),
            1 => (0u8..3, 0u8..3, 0u32..4, 0u32..4, inner)
                .prop_map(|(i, k, sv, bv, r)| Rule::Badge(i, k, sv, bv, Box::new(r))),
        ]
    })
    .boxed()
}

pub fn signer_set(keys: u8) -> BoxedStrategy<Vec<u8>> {
    proptest::sample::subsequence((0..keys).collect::<Vec<_>>(), 0..=(keys as usize)).boxed()
}

pub fn set(v: &[u8]) -> BTreeSet<u8> {
    v.iter().cloned().collect()
}
