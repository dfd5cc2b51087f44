//! C01: a Flo verifies exactly if every step of its history was signed by the rule in force.

use crate::fw::{Case, Ctx, Spec, TestResult};
use crate::gen::*;
use crate::{ensure, ensure_eq};
use flcrypto::signer::Signer;
use flmodules::dht_storage::core::{Cuckoo, FloConfig};
use flmodules::flo::flo::{Flo, FloID};
use flmodules::flo::realm::RealmID;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use flcrypto::access::ConditionLink;

const KEYS: u8 = 5;
const ATTACKER: u8 = 40;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// Edit the data, using the given rule (or the one in force) and the given signers (or all keys of the rule)
    Edit(Option<Rule>, Option<Vec<u8>>, Vec<u8>),
    /// Change the rule: rule used for the old one, new rule, signers of both
    Change(Option<Rule>, Rule, Option<Vec<u8>>, Option<Vec<u8>>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    /// Change the n-th leaf of the serialised Flo
    Leaf(u16, u16),
    /// Replace the n-th subtree by the one at the same place in another Flo
    Splice(u16, u16),
    /// Replace the n-th subtree by any subtree of another Flo
    Cross(u16, u16, u16),
    /// Remove the last element of the n-th array or map
    Pop(u16),
    /// Repeat the last element of the n-th array
    Dup(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    rule: Rule,
    force: Option<u64>,
    cuckoo: u8,
    data: Vec<u8>,
    ops: Vec<Op>,
    attacks: Vec<(u16, Vec<Tamper>)>,
}

pub(crate) fn refs(v: &[Signer]) -> Vec<&Signer> {
    v.iter().collect()
}

pub(crate) fn signers(s: &BTreeSet<u8>) -> Vec<Signer> {
    s.iter().map(|k| signer(*k)).collect()
}

fn paths(v: &Value, leaves_only: bool) -> Vec<Vec<String>> {
    fn rec(v: &Value, cur: &mut Vec<String>, out: &mut Vec<Vec<String>>, leaves_only: bool) {
        // Which realm a Flo is in is not part of what the owner signs.
        if cur.last().map(|s| s.as_str()) == Some("realm") {
            return;
        }
        match v {
            Value::Array(a) => {
                if !leaves_only {
                    out.push(cur.clone());
                }
                for (i, v) in a.iter().enumerate() {
                    cur.push(i.to_string());
                    rec(v, cur, out, leaves_only);
                    cur.pop();
                }
            }
            Value::Object(o) => {
                if !leaves_only {
                    out.push(cur.clone());
                }
                for (k, v) in o {
                    cur.push(k.clone());
                    rec(v, cur, out, leaves_only);
                    cur.pop();
                }
            }
            _ => out.push(cur.clone()),
        }
    }
    let mut out = vec![];
    rec(v, &mut vec![], &mut out, leaves_only);
    out
}

fn at<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    let mut cur = v;
    for p in path {
        cur = match cur {
            Value::Array(a) => a.get_mut(p.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(p)?,
            _ => return None,
        };
    }
    Some(cur)
}

fn change_leaf(v: &mut Value, how: u16) {
    match v {
        Value::String(s) => {
            let is_hex = !s.is_empty() && s.bytes().all(|b| b.is_ascii_hexdigit());
            let mut b = s.clone().into_bytes();
            let n = b.len();
            match how % 6 {
                0..=2 if n > 0 => {
                    let i = (how as usize / 6) % n;
                    b[i] = match b[i] {
                        b'a' => b'b',
                        b'0' => b'1',
                        c if is_hex && c != b'f' => b'f',
                        c if is_hex => if c == b'f' { b'e' } else { b'0' },
                        b'A' => b'B',
                        _ => b'A',
                    };
                }
                3 if n > 8 => b.truncate(n - (how as usize / 6) % 4 * 2 - 2),
                4 => b.extend_from_slice(b"0000"),
                5 => b.clear(),
                _ => b.extend_from_slice(b"AA=="),
            }
            *s = String::from_utf8(b).unwrap_or_default();
        }
        Value::Number(n) => {
            let x = n.as_i64().unwrap_or(0);
            *v = match how % 5 {
                0 => x + 1,
                1 => (x - 1).max(0),
                2 => 0,
                3 => x ^ 0x100,
                _ => (u32::MAX as i64) - x,
            }
            .into();
        }
        Value::Null => *v = Value::String(format!("{:x}", u256(how as u64))),
        Value::Bool(b) => *b = !*b,
        _ => {}
    }
}

fn apply(v: &mut Value, t: &Tamper, others: &[Value]) {
    match t {
        Tamper::Leaf(which, how) => {
            let p = paths(v, true);
            if p.is_empty() {
                return;
            }
            if let Some(l) = at(v, &p[*which as usize % p.len()]) {
                change_leaf(l, *how);
            }
        }
        Tamper::Splice(which, other) => {
            let p = paths(v, false);
            if p.is_empty() {
                return;
            }
            let path = &p[*which as usize % p.len()];
            let mut o = others[*other as usize % others.len()].clone();
            if let (Some(dst), Some(src)) = (at(v, path), at(&mut o, path)) {
                *dst = src.clone();
            }
        }
        Tamper::Cross(which, other, from) => {
            let mut o = others[*other as usize % others.len()].clone();
            let p = paths(v, false);
            if p.is_empty() {
                return;
            }
            let path = &p[*which as usize % p.len()];
            let po: Vec<_> = paths(&o, false)
                .into_iter()
                .filter(|p| p.last() == path.last())
                .collect();
            if po.is_empty() {
                return;
            }
            if let (Some(dst), Some(src)) =
                (at(v, path), at(&mut o, &po[*from as usize % po.len()]))
            {
                *dst = src.clone();
            }
        }
        Tamper::Pop(which) | Tamper::Dup(which) => {
            let p: Vec<_> = paths(v, false);
            let cands: Vec<_> = p
                .iter()
                .filter(|p| {
                    matches!(at(&mut v.clone(), p), Some(Value::Array(_)) | Some(Value::Object(_)))
                })
                .collect();
            if cands.is_empty() {
                return;
            }
            match at(v, cands[*which as usize % cands.len()]) {
                Some(Value::Array(a)) => {
                    if matches!(t, Tamper::Pop(_)) {
                        a.pop();
                    } else if let Some(l) = a.last().cloned() {
                        a.push(l);
                    }
                }
                Some(Value::Object(o)) => {
                    if let Some(k) = o.keys().last().cloned() {
                        o.remove(&k);
                    }
                }
                _ => {}
            }
        }
    }
}

/// Which keys ever signed what, for the Flo under attack.
#[derive(Default)]
struct Signed {
    /// (data, version, number of rule changes) -> keys
    data: BTreeMap<(Vec<u8>, u32, usize), BTreeSet<u8>>,
    /// (number of the rule change, new rule) -> keys
    rules: BTreeMap<(usize, String), BTreeSet<u8>>,
    /// serialised rule -> rule
    known: BTreeMap<String, Rule>,
}

/// The content of a versioned structure.
fn inner(v: &Value) -> Value {
    v.as_object()
        .and_then(|o| o.values().next())
        .cloned()
        .unwrap_or_default()
}

fn link(r: &Rule) -> String {
    serde_json::to_string(&r.cond().to_link()).unwrap()
}

impl Signed {
    fn data(&mut self, f: &Flo, changes: usize, keys: &BTreeSet<u8>) {
        self.data
            .entry((f.data().to_vec(), f.version(), changes))
            .or_default()
            .extend(keys);
    }

    fn rule(&mut self, changes: usize, r: &Rule, keys: &BTreeSet<u8>) {
        self.know(r);
        self.rules.entry((changes, link(r))).or_default().extend(keys);
    }

    fn know(&mut self, r: &Rule) {
        self.known.insert(link(r), r.clone());
    }

    /// Reference semantics: was every step of this Flo signed by what the rule before asks for?
    fn authorised(&self, f: &Flo, genesis: &Flo) -> bool {
        if f.flo_type() != genesis.flo_type() || f.flo_config() != genesis.flo_config() {
            return false;
        }
        let v = inner(&serde_json::to_value(f).unwrap());
        let mut cur = serde_json::to_string(genesis.cond()).unwrap();
        if v["nonce"] != inner(&serde_json::to_value(genesis).unwrap())["nonce"] {
            return false;
        }
        let updates: Vec<_> = v["cond_update"].as_array().cloned().unwrap_or_default();
        let none = BTreeSet::new();
        for (i, u) in updates.iter().enumerate() {
            let Some(rule) = self.known.get(&cur) else {
                return false;
            };
            let Ok(cl) = serde_json::from_value::<ConditionLink>(u["cond"].clone()) else {
                return false;
            };
            let next = serde_json::to_string(&cl).unwrap();
            let signed = self.rules.get(&(i + 1, next.clone())).unwrap_or(&none);
            if !rule.eval(signed) {
                return false;
            }
            cur = next;
        }
        if cur != serde_json::to_string(f.cond()).unwrap() {
            return false;
        }
        let Some(rule) = self.known.get(&cur) else {
            return false;
        };
        let key = (f.data().to_vec(), f.version(), updates.len());
        rule.eval(self.data.get(&key).unwrap_or(&none))
    }
}

fn verifies(f: &Flo) -> bool {
    matches!(f.verify(), Ok(true))
}

fn test(i: &In, c: &mut Case) -> TestResult {
    let config = FloConfig {
        cuckoo: match i.cuckoo % 3 {
            0 => Cuckoo::None,
            1 => Cuckoo::Duration(i.cuckoo as u32),
            _ => Cuckoo::Parent(FloID::from(u256(77))),
        },
        force_id: i.force.map(u256),
    };
    let keys = i.rule.keys();
    let genesis = Flo::new_signer(
        RealmID::from(u256(1)),
        i.rule.cond(),
        &i.data,
        config.clone(),
        &refs(&signers(&keys)),
    )
    .map_err(|e| format!("creating with all keys of the rule failed: {e}"))?;
    let id = genesis.flo_id();
    let ok = i.rule.eval(&keys);
    ensure_eq!(verifies(&genesis), ok, "verify of a new Flo signed by {keys:?} under {:?}", i.rule);
    if i.rule.depth() > 0 {
        c.label("threshold-genesis");
    }
    // Everything that exists for the attackers
    let mut all = vec![genesis.clone()];
    let mut signed = Signed::default();
    signed.know(&i.rule);
    signed.know(&Rule::Key(ATTACKER));
    signed.data(&genesis, 0, &keys);
    let mut changes = 0;
    let mut forgeable = i.rule.eval(&BTreeSet::new());
    if !ok {
        c.label("unsatisfiable-genesis");
    }
    let mut cur = genesis.clone();
    let mut rule = i.rule.clone();
    let mut accepted = 0;
    let mut rejected = 0;
    for op in &i.ops {
        match op {
            Op::Edit(used, signs, data) => {
                let used = used.as_ref().unwrap_or(&rule);
                let s = signs.as_ref().map(|s| set(s)).unwrap_or(used.keys());
                let res = cur.update_data_signers(used.cond(), data.clone(), &refs(&signers(&s)));
                let may_sign = s.iter().all(|k| used.accepts_signer(*k));
                let exp_ok = may_sign && used.eval(&s);
                ensure_eq!(res.is_ok(), exp_ok, "edit with {used:?} signed by {s:?}");
                if let Ok(n) = res {
                    ensure_eq!(n.version(), cur.version() + 1, "version after an edit");
                    ensure_eq!(n.flo_id(), id, "id after an edit");
                    ensure_eq!(n.realm_id(), cur.realm_id(), "realm after an edit");
                    ensure_eq!(n.cond(), cur.cond(), "rule after an edit");
                    let exp = ok && used == &rule;
                    ensure_eq!(
                        verifies(&n), exp,
                        "verify of an edit made under {used:?} by {s:?} while {rule:?} is in force"
                    );
                    all.push(n.clone());
                    signed.data(&n, changes, &s);
                    if exp {
                        cur = n;
                        accepted += 1;
                    } else {
                        rejected += 1;
                    }
                } else {
                    rejected += 1;
                }
            }
            Op::Change(used, new, s_old, s_new) => {
                let used = used.as_ref().unwrap_or(&rule);
                let s_old = s_old.as_ref().map(|s| set(s)).unwrap_or(used.keys());
                let s_new = s_new.as_ref().map(|s| set(s)).unwrap_or(new.keys());
                let res = cur.update_cond_signers(
                    used.cond(),
                    new.cond(),
                    &refs(&signers(&s_old)),
                    &refs(&signers(&s_new)),
                );
                let may = s_old.iter().all(|k| used.accepts_signer(*k))
                    && s_new.iter().all(|k| new.accepts_signer(*k));
                ensure!(may || res.is_err(), "a rule change was signed by a key that is in no rule");
                if let Ok(n) = res {
                    ensure_eq!(n.version(), cur.version(), "version after a rule change");
                    ensure_eq!(n.flo_id(), id, "id after a rule change");
                    ensure_eq!(n.data(), cur.data(), "data after a rule change");
                    let exp = ok && used == &rule && used.eval(&s_old) && new.eval(&s_new);
                    ensure_eq!(
                        verifies(&n), exp,
                        "verify of a change from {rule:?} to {new:?} made under {used:?} by {s_old:?}, data signed by {s_new:?}"
                    );
                    all.push(n.clone());
                    signed.rule(changes + 1, new, &s_old);
                    signed.data(&n, changes + 1, &s_new);
                    if exp {
                        cur = n;
                        changes += 1;
                        rule = new.clone();
                        forgeable |= rule.eval(&BTreeSet::new());
                        accepted += 1;
                        c.label("rule-changed");
                    } else {
                        rejected += 1;
                    }
                } else if may && used.eval(&s_old) && new.eval(&s_new) {
                    return Err(format!("a correctly signed rule change was refused: {:?}", res.err()));
                }
            }
        }
    }
    c.count("steps-accepted", accepted);
    c.count("steps-refused", rejected);
    c.nontrivial(accepted > 0 && ok);
    if !ok {
        return Ok(());
    }
    // The owner's Flo survives the wire, and then everything an attacker makes of it is refused.
    let evil = Flo::new_signer(
        RealmID::from(u256(1)),
        Rule::Key(ATTACKER).cond(),
        &i.data,
        FloConfig { force_id: None, ..config },
        &[&signer(ATTACKER)],
    )
    .map_err(|e| e.to_string())?;
    all.push(evil.clone());
    if let Ok(e2) =
        evil.update_data_signers(Rule::Key(ATTACKER).cond(), vec![1u8, 2, 3], &[&signer(ATTACKER)])
    {
        all.push(e2);
    }
    for (used, sig) in [(rule.clone(), None), (Rule::Key(ATTACKER), Some(ATTACKER))] {
        let s: Vec<Signer> = sig.iter().map(|k| signer(*k)).collect();
        if let Ok(f) = cur.update_data_signers(used.cond(), vec![9u8], &refs(&s)) {
            all.push(f);
        }
        if let Ok(f) = cur.update_cond_signers(
            used.cond(),
            Rule::Key(ATTACKER).cond(),
            &refs(&s),
            &[&signer(ATTACKER)],
        ) {
            ensure!(
                forgeable || !verifies(&f),
                "an outsider took over a Flo under rule {rule:?}"
            );
            all.push(f);
        }
    }
    let jsons: Vec<Value> = all.iter().map(|f| serde_json::to_value(f).unwrap()).collect();
    for (base, ts) in &i.attacks {
        let mut v = jsons[*base as usize % jsons.len()].clone();
        for t in ts {
            apply(&mut v, t, &jsons);
        }
        let Ok(f) = serde_json::from_value::<Flo>(v.clone()) else {
            c.count("tampered-undecodable", 1);
            continue;
        };
        c.count("tampered-decodable", 1);
        if jsons.contains(&serde_json::to_value(&f).unwrap()) {
            continue;
        }
        c.count("tampered-different", 1);
        if verifies(&f)
            && !forgeable
            && f.flo_id() != evil.flo_id()
            && (f.flo_id() != id || !signed.authorised(&f, &genesis))
        {
            return Err(format!(
                "a tampered Flo verifies: {} (rule {rule:?})",
                serde_json::to_string(&v).unwrap()
            ));
        }
    }
    Ok(())
}

fn op() -> impl Strategy<Value = Op> {
    let opt_rule = prop_oneof![5 => Just(None), 1 => real_rule(KEYS).prop_map(Some)].boxed();
    let opt_sign = prop_oneof![3 => Just(None), 2 => signer_set(KEYS).prop_map(Some)].boxed();
    prop_oneof![
        3 => (opt_rule.clone(), opt_sign.clone(), proptest::collection::vec(any::<u8>(), 0..6))
            .prop_map(|(r, s, d)| Op::Edit(r, s, d)),
        2 => (opt_rule, real_rule(KEYS), opt_sign.clone(), opt_sign)
            .prop_map(|(r, n, a, b)| Op::Change(r, n, a, b)),
    ]
}

fn tamper() -> impl Strategy<Value = Tamper> {
    prop_oneof![
        4 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Tamper::Leaf(a, b)),
        4 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Tamper::Splice(a, b)),
        2 => (any::<u16>(), any::<u16>(), any::<u16>()).prop_map(|(a, b, d)| Tamper::Cross(a, b, d)),
        1 => any::<u16>().prop_map(Tamper::Pop),
        1 => any::<u16>().prop_map(Tamper::Dup),
    ]
}

fn strat() -> impl Strategy<Value = In> {
    (
        real_rule(KEYS),
        prop_oneof![3 => Just(None), 1 => (0u64..9).prop_map(Some)],
        any::<u8>(),
        proptest::collection::vec(any::<u8>(), 0..6),
        proptest::collection::vec(op(), 0..6),
        proptest::collection::vec(
            (any::<u16>(), proptest::collection::vec(tamper(), 1..4)),
            0..25,
        ),
    )
        .prop_map(|(rule, force, cuckoo, data, ops, attacks)| In {
            rule,
            force,
            cuckoo,
            data,
            ops,
            attacks,
        })
}

fn badge_flo_fails() -> bool {
    // A Flo whose rule is a badge, signed by the key behind the badge.
    let rule = Rule::Badge(1, 0, 0, 0, Box::new(Rule::Key(1)));
    let f = Flo::new_signer(
        RealmID::from(u256(1)),
        rule.cond(),
        &vec![1u8],
        FloConfig::default(),
        &[&signer(1)],
    );
    !matches!(f.and_then(|f| f.verify()), Ok(true))
}

pub fn run(c: &mut Ctx) {
    c.assume("ed25519 signatures are unforgeable; tampering uses only keys outside the rule");
    c.probe_known(
        "badge-rule-never-verifies",
        serde_json::json!({"rule": "Badge(Minimal(id,0), Verifier(key 1))", "signed_by": [1]}),
        badge_flo_fails,
    );
    c.sub(
        Spec {
            name: "history",
            rule: "a Flo under a random key/threshold rule, 0-5 edits and rule changes made with right or wrong rules and signer sets, then 0-24 tampered variants of the serialised Flos (leaf changes, splices of fields between versions and an attacker's Flos); non-trivial: the Flo verifies and at least one step was accepted",
            quick: 20_000,
            thorough: 200_000,
            max_s: 60,
        },
        vec![],
        strat,
        test,
    );
}
