//! C06 and C07: the store of one realm against a reference model.
//!
//! Histories of arriving Flos, cuckoo registrations, realm updates and reloads are run on the
//! real `RealmStorage`, and after every step the promises about space (C06) and about content
//! (C07) are checked.

use crate::ensure;
use crate::fw::{Case, Ctx, Spec, TestResult};
use flarch::nodeids::{NodeID, U256};
use flcrypto::access::Condition;
use flmodules::dht_router::kademlia::KNode;
use flmodules::dht_storage::core::{
    Cuckoo, DHTConfig, FloConfig, FloMeta, RealmConfig, RealmStorage,
};
use flmodules::flo::flo::{Flo, FloID};
use flmodules::flo::realm::{FloRealm, Realm, RealmID};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;

pub const SLOTS: u8 = 18;
const OURS: u8 = 3;

/// An opaque payload.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Load {
    pub tag: u32,
    pub bytes: String,
}

pub fn our_id(o: u8) -> NodeID {
    crate::gen::u256(1000 + (o % OURS) as u64)
}

/// The distances of the slots, some of them with two digits.
const DEPTHS: [usize; 6] = [0, 1, 2, 4, 9, 11];

/// IDs with all of these depths with regard to our ID, three of each.
pub fn slot_seed(o: u8, slot: u8) -> u64 {
    static T: OnceLock<HashMap<(u8, u8), u64>> = OnceLock::new();
    T.get_or_init(|| {
        let mut m = HashMap::new();
        for o in 0..OURS {
            let our = our_id(o);
            let mut found = [0u8; 6];
            let mut seed = 0u64;
            while found.iter().any(|f| *f < 3) {
                let d = KNode::get_depth(&our, &*Flo::calc_flo_id(&U256::from(seed_bytes(seed))));
                if let Some(d) = DEPTHS.iter().position(|o| *o == d).filter(|d| found[*d] < 3) {
                    // The slot's number is spread over the depths.
                    m.insert((o, found[d] * 6 + d as u8), seed);
                    found[d] += 1;
                }
                seed += 1;
            }
        }
        m
    })[&(o % OURS, slot % SLOTS)]
}

pub fn seed_bytes(seed: u64) -> [u8; 32] {
    let mut b = [7u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b
}

pub fn force(seed: u64) -> Option<U256> {
    Some(U256::from(seed_bytes(seed)))
}

pub fn id_of(o: u8, slot: u8) -> FloID {
    Flo::calc_flo_id(&force(slot_seed(o, slot)).unwrap())
}

/// A Flo with a given ID, version and content.
pub fn make_flo(
    rid: &RealmID,
    o: u8,
    slot: u8,
    version: u32,
    tag: u32,
    size: usize,
    parent: Option<FloID>,
) -> Flo {
    let mut flo = Flo::new_signer(
        rid.clone(),
        Condition::Pass,
        &Load {
            tag,
            bytes: "x".repeat(size),
        },
        FloConfig {
            cuckoo: parent.map(Cuckoo::Parent).unwrap_or(Cuckoo::None),
            force_id: force(slot_seed(o, slot)),
        },
        &[],
    )
    .unwrap();
    for _ in 0..version {
        flo = flo
            .update_data_signers(
                Condition::Pass,
                Load {
                    tag,
                    bytes: "x".repeat(size),
                },
                &[],
            )
            .unwrap();
    }
    assert_eq!(flo.version(), version);
    flo
}

/// A realm with a given ID, version and content.
pub fn make_realm(seed: u64, version: u32, name: &str, config: RealmConfig) -> FloRealm {
    let id: RealmID = (*Flo::calc_flo_id(&force(seed).unwrap())).into();
    let realm = Realm::new(name.into(), config);
    let mut flo = Flo::new_signer(
        id,
        Condition::Pass,
        &realm,
        FloConfig {
            cuckoo: Cuckoo::None,
            force_id: force(seed),
        },
        &[],
    )
    .unwrap();
    for _ in 0..version {
        flo = flo
            .update_data_signers(Condition::Pass, realm.clone(), &[])
            .unwrap();
    }
    flo.try_into().unwrap()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// slot, version, payload size
    Store(u8, u8, u16),
    /// The last Flo that was offered for this slot, once more
    Again(u8),
    /// Attach ids of these slots to the Flo of this slot; 255 is the realm
    Cuckoos(u8, Vec<u8>),
    /// version, length of the name, space in percent of the initial one
    Realm(u8, u16, u8),
    Reload,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    our: u8,
    realm_slot: u8,
    max: u32,
    parents: Vec<Option<u8>>,
    ops: Vec<Op>,
}

const PARENTED: u8 = 6;

fn strat(which: Which) -> BoxedStrategy<In> {
    let max = match which {
        Which::Space => prop_oneof![
            1 => 100u32..1500,
            6 => 1500u32..9000,
            2 => 9000u32..30000
        ]
        .boxed(),
        Which::Content => prop_oneof![1 => 3000u32..12000, 3 => Just(1_000_000u32)].boxed(),
    };
    let size = prop_oneof![3 => 0u16..60, 3 => 60u16..500, 1 => 500u16..3000];
    let op = prop_oneof![
        10 => (0..SLOTS, 0u8..5, size).prop_map(|(s, v, z)| Op::Store(s, v, z)),
        1 => (0..SLOTS).prop_map(Op::Again),
        3 => (prop_oneof![1 => Just(255u8), 8 => 0..SLOTS], proptest::collection::vec(0..SLOTS, 0..8))
            .prop_map(|(s, v)| Op::Cuckoos(s, v)),
        1 => (0u8..5, 0u16..200, 20u8..200).prop_map(|(v, n, p)| Op::Realm(v, n, p)),
        1 => Just(Op::Reload),
    ];
    (
        0..OURS,
        0..SLOTS,
        max,
        proptest::collection::vec(proptest::option::weighted(0.6, 0..SLOTS), PARENTED as usize),
        proptest::collection::vec(op, 1..50),
    )
        .prop_map(|(our, realm_slot, max, parents, ops)| In {
            our,
            realm_slot,
            max,
            parents,
            ops,
        })
        .boxed()
}

#[derive(Clone, Copy, PartialEq)]
enum Which {
    Space,
    Content,
}

#[derive(Clone, PartialEq)]
struct Entry {
    flo: Flo,
    cuckoos: Vec<FloID>,
}

type Snap = BTreeMap<[u8; 32], Entry>;

fn key(id: &FloID) -> [u8; 32] {
    id.bytes()[..].try_into().unwrap()
}

fn snapshot(s: &RealmStorage) -> Snap {
    s.get_all_flo_cuckoos()
        .into_iter()
        .map(|(flo, cuckoos)| (key(&flo.flo_id()), Entry { flo, cuckoos }))
        .collect()
}

struct Sim {
    x: In,
    our: NodeID,
    rid: RealmID,
    s: RealmStorage,
    last: HashMap<u8, Flo>,
    base: u64,
}

impl Sim {
    /// What an entry takes when stored alone.
    fn measure(&self, e: &Entry) -> u64 {
        let big = make_realm(
            u64::MAX,
            0,
            "r",
            RealmConfig {
                max_space: u64::MAX / 4,
                max_flo_size: u32::MAX,
            },
        );
        let mut s = RealmStorage::new(DHTConfig::default(self.our), big).unwrap();
        let before = s.size;
        s.upsert_flo(e.flo.clone());
        s.store_cuckoo_ids(&e.flo.flo_id(), e.cuckoos.clone());
        s.size - before
    }

    fn depth(&self, k: &[u8; 32]) -> usize {
        KNode::get_depth(&self.our, &U256::from(*k))
    }

    fn is_realm(&self, k: &[u8; 32]) -> bool {
        *k == <[u8; 32]>::try_from(&self.rid.bytes()[..]).unwrap()
    }
}

fn run_case(which: Which, x: &In, c: &mut Case) -> TestResult {
    let our = our_id(x.our);
    let realm_seed = slot_seed(x.our, x.realm_slot);
    let mut max = x.max as u64;
    let mut realm_flo = make_realm(
        realm_seed,
        0,
        "realm",
        RealmConfig {
            max_space: max,
            max_flo_size: 10_000,
        },
    );
    let cfg = DHTConfig::default(our);
    let mut s = Sim {
        x: x.clone(),
        our,
        rid: realm_flo.realm_id(),
        s: RealmStorage::new(cfg, realm_flo.clone()).unwrap(),
        last: HashMap::new(),
        base: 0,
    };
    s.base = s.s.size;
    let space = which == Which::Space;
    let mut sizes: HashMap<([u8; 32], u32), u64> = HashMap::new();
    let rk = key(&realm_flo.flo_id());
    for (i, op) in x.ops.iter().enumerate() {
        let before = snapshot(&s.s);
        let size_before = s.s.size;
        let max_before = max;
        let mut offered: Option<Flo> = None;
        let mut attach: Option<(FloID, Vec<FloID>)> = None;
        let what;
        match op {
            Op::Store(slot, v, z) => {
                // The realm's own ID only gets realms.
                let slot = if slot % SLOTS == x.realm_slot % SLOTS {
                    (slot + 1) % SLOTS
                } else {
                    *slot
                };
                let parent = s
                    .x
                    .parents
                    .get(slot as usize)
                    .cloned()
                    .flatten()
                    .map(|p| id_of(x.our, p));
                let flo = make_flo(
                    &s.rid,
                    x.our,
                    slot,
                    *v as u32,
                    i as u32,
                    *z as usize,
                    parent.clone(),
                );
                what = format!("op {i}: storing version {v} of {slot}");
                attach = parent.map(|p| (p, vec![flo.flo_id()]));
                s.last.insert(slot, flo.clone());
                offered = Some(flo.clone());
                s.s.upsert_flo(flo);
                c.count("stores", 1);
            }
            Op::Again(slot) => {
                let Some(flo) = s.last.get(slot).cloned() else {
                    continue;
                };
                what = format!("op {i}: storing version {} of {slot} again", flo.version());
                attach = flo
                    .flo_config()
                    .cuckoo_parent()
                    .map(|p| (p.clone(), vec![flo.flo_id()]));
                offered = Some(flo.clone());
                s.s.upsert_flo(flo);
            }
            Op::Cuckoos(slot, kids) => {
                let parent = if *slot == 255 {
                    realm_flo.flo_id()
                } else {
                    id_of(x.our, *slot)
                };
                let kids: Vec<_> = kids.iter().map(|k| id_of(x.our, *k)).collect();
                what = format!("op {i}: attaching {} cuckoos to {slot}", kids.len());
                attach = Some((parent.clone(), kids.clone()));
                s.s.store_cuckoo_ids(&parent, kids);
            }
            Op::Realm(v, n, p) => {
                let new_max = (x.max as u64 * *p as u64 / 100).max(1);
                let fr = make_realm(
                    realm_seed,
                    *v as u32,
                    &"n".repeat(*n as usize),
                    RealmConfig {
                        max_space: new_max,
                        max_flo_size: 10_000,
                    },
                );
                what = format!("op {i}: storing version {v} of the realm, space {new_max}");
                offered = Some(fr.flo().clone());
                s.s.upsert_flo(fr.flo().clone());
                if s.s.get_flo_cuckoo(&fr.flo_id()).map(|f| f.0) == Some(fr.flo().clone())
                    && fr.version() > realm_flo.version()
                {
                    realm_flo = fr;
                    max = new_max;
                    c.label("realm updated");
                }
            }
            Op::Reload => {
                what = format!("op {i}: reloading");
                let st = serde_yaml::to_string(&s.s).map_err(|e| format!("{what}: {e}"))?;
                let again: RealmStorage =
                    serde_yaml::from_str(&st).map_err(|e| format!("{what}: {e}"))?;
                if !space {
                    ensure!(
                        again == s.s,
                        "{what}: the storage changed when serialised and read again"
                    );
                }
                s.s = again;
            }
        }
        let after = snapshot(&s.s);
        let gone: Vec<[u8; 32]> = before
            .keys()
            .filter(|k| !after.contains_key(*k))
            .cloned()
            .collect();
        c.count("evicted", gone.len() as u64);
        c.label_if(!gone.is_empty(), "eviction");
        let off_key = offered.as_ref().map(|f| key(&f.flo_id()));
        let too_big = offered
            .as_ref()
            .is_some_and(|f| flcrypto::tofrombytes::ToFromBytes::size(f) as u64 * 3 > max_before);
        let only_realm = after.keys().all(|k| s.is_realm(k));

        if space {
            // The space taken is accounted for exactly, and stays below the bound.
            let mut sum = 0;
            let mut payload = 0;
            for (k, e) in &after {
                let l = e.cuckoos.len() as u32;
                let unchanged = before.get(k).is_some_and(|b| b == e);
                let m = match sizes.get(&(*k, l)) {
                    Some(m) if unchanged => *m,
                    _ => {
                        let m = s.measure(e);
                        sizes.retain(|(id, _), _| id != k);
                        sizes.insert((*k, l), m);
                        m
                    }
                };
                let f = flcrypto::tofrombytes::ToFromBytes::size(&e.flo) as u64;
                ensure!(
                    m >= f + 32 * e.cuckoos.len() as u64,
                    "{what}: {m} bytes accounted for a Flo of {f} bytes and {l} cuckoos"
                );
                payload += f;
                sum += m;
            }
            ensure!(
                s.s.size == sum,
                "{what}: size() is {} but the Flos take {sum}",
                s.s.size
            );
            ensure!(
                sum <= max || only_realm,
                "{what}: {sum} bytes are used, but only {max} are allowed"
            );
            ensure!(
                payload <= max || only_realm,
                "{what}: the Flos take {payload} bytes, but only {max} are allowed"
            );
            ensure!(
                after.keys().any(|k| s.is_realm(k)),
                "{what}: the realm's own Flo is gone"
            );
            // Nothing is lost without need, and what is lost is furthest away.
            let worst = gone.iter().map(|k| s.depth(k)).max();
            if let Some(worst) = worst {
                for k in after.keys().filter(|k| !s.is_realm(k)) {
                    ensure!(
                        s.depth(k) >= worst,
                        "{what}: evicted a Flo at depth {worst}, but kept one at depth {}",
                        s.depth(k)
                    );
                }
                let last = gone
                    .iter()
                    .filter(|k| s.depth(k) == worst)
                    .map(|k| {
                        let e = &before[k];
                        let new = offered.as_ref().filter(|f| {
                            Some(*k) == off_key && f.version() > e.flo.version()
                        });
                        s.measure(&Entry {
                            flo: new.unwrap_or(&e.flo).clone(),
                            cuckoos: e.cuckoos.clone(),
                        })
                    })
                    .max()
                    .unwrap();
                // A cuckoo id may have been attached before its parent was evicted.
                ensure!(
                    s.s.size + last + 80 > max,
                    "{what}: evicted more than needed: {} bytes are used of {max}, the last evicted Flo took {last}",
                    s.s.size
                );
                ensure!(
                    offered.is_some(),
                    "{what}: evicted Flos without storing one"
                );
                if max >= max_before && !off_key.is_some_and(|k| before.contains_key(&k)) {
                    ensure!(
                        off_key.is_some_and(|k| after.contains_key(&k)),
                        "{what}: evicted Flos, but the new one isn't stored"
                    );
                }
            }
            // What fits is stored, and a close Flo wins over those further away.
            if let (Some(f), Some(k)) = (&offered, off_key) {
                let m = s.measure(&Entry {
                    flo: f.clone(),
                    cuckoos: vec![],
                });
                let small = !too_big;
                let extra = attach.as_ref().map(|_| 80).unwrap_or(0);
                if small && !before.contains_key(&k) {
                    if size_before + m + extra <= max_before {
                        ensure!(
                            after.contains_key(&k),
                            "{what}: not stored, even though there are {} bytes left and it takes {m}",
                            max_before - size_before
                        );
                        ensure!(gone.is_empty(), "{what}: evicted Flos even though there was room");
                    } else if size_before <= max_before && size_before + m > max_before {
                        let above: u64 = before
                            .iter()
                            .filter(|(o, _)| !s.is_realm(o) && s.depth(o) < s.depth(&k))
                            .map(|(_, e)| s.measure(e))
                            .sum();
                        if above >= m {
                            c.label("displacing");
                            ensure!(
                                after.contains_key(&k),
                                "{what}: not stored, even though Flos further away take {above} bytes and it takes {m}"
                            );
                        } else if above + extra < m {
                            c.label("refused");
                            ensure!(
                                gone.is_empty(),
                                "{what}: evicted Flos for one that doesn't fit"
                            );
                            ensure!(
                                !after.contains_key(&k),
                                "{what}: stored a Flo for which there is no room"
                            );
                        }
                    }
                }
            }
            let dist: Vec<usize> = s.s.flo_distribution().into_iter().filter(|n| *n > 0).collect();
            let mut hist: BTreeMap<usize, usize> = BTreeMap::new();
            for k in after.keys() {
                *hist.entry(s.depth(k)).or_default() += 1;
            }
            let hist: Vec<usize> = hist.into_values().collect();
            ensure!(
                dist == hist,
                "{what}: reported distribution over the depths {dist:?}, but it is {hist:?}"
            );
        } else {
            // Versions only grow, and nothing else changes.
            for (k, a) in &after {
                match before.get(k) {
                    Some(b) if a.flo == b.flo => {
                        ensure!(
                            Some(*k) != off_key
                                || offered.as_ref().unwrap().version() <= b.flo.version()
                                || too_big,
                            "{what}: a newer version was offered, but the old one is kept"
                        );
                    }
                    Some(b) => {
                        c.label("updated");
                        ensure!(
                            Some(*k) == off_key && offered.as_ref() == Some(&a.flo),
                            "{what}: the content of an unrelated Flo changed"
                        );
                        ensure!(
                            a.flo.version() > b.flo.version(),
                            "{what}: version {} was replaced by version {}",
                            b.flo.version(),
                            a.flo.version()
                        );
                    }
                    None => ensure!(
                        Some(*k) == off_key && offered.as_ref() == Some(&a.flo),
                        "{what}: a Flo appeared which wasn't offered"
                    ),
                }
                let old: BTreeSet<_> = before
                    .get(k)
                    .map(|b| b.cuckoos.iter().map(key).collect())
                    .unwrap_or_default();
                let new: BTreeSet<_> = a.cuckoos.iter().map(key).collect();
                ensure!(
                    new.len() == a.cuckoos.len(),
                    "{what}: a cuckoo is listed twice"
                );
                ensure!(old.is_subset(&new), "{what}: a Flo lost a cuckoo");
                let att: BTreeSet<_> = attach
                    .as_ref()
                    .filter(|(p, _)| key(p) == *k)
                    .map(|(_, v)| v.iter().map(key).collect())
                    .unwrap_or_default();
                ensure!(
                    new.difference(&old).all(|n| att.contains(n)),
                    "{what}: a cuckoo appeared which wasn't attached"
                );
                if before.contains_key(k)
                    && size_before + 200 + 80 * att.len() as u64 <= max_before
                    && !too_big
                {
                    c.label_if(!att.is_empty(), "attached");
                    ensure!(
                        att.is_subset(&new),
                        "{what}: a cuckoo was not attached to its stored parent"
                    );
                }
            }
            if size_before + 8000 <= max_before && max >= max_before {
                ensure!(gone.is_empty(), "{what}: lost a Flo, even though there is room");
                if let (Some(f), Some(k)) = (&offered, off_key) {
                    ensure!(
                        after.get(&k).is_some_and(|e| e.flo == *f)
                            || before.get(&k).is_some_and(|e| e.flo.version() >= f.version())
                            || too_big,
                        "{what}: the Flo is not stored, even though there is room"
                    );
                }
            }
            // All ways of asking give the same answer.
            ensure!(
                s.s.flo_count() == after.len(),
                "{what}: {} Flos counted, {} listed",
                s.s.flo_count(),
                after.len()
            );
            let metas = s.s.get_flo_metas();
            ensure!(metas.len() == after.len(), "{what}: wrong number of metadata");
            for m in &metas {
                let e = after.get(&key(&m.id));
                ensure!(
                    e.is_some_and(|e| e.flo.version() == m.version
                        && e.cuckoos.len() as u32 == m.cuckoos),
                    "{what}: metadata {m:?} don't match the stored Flo"
                );
            }
            for slot in 0..SLOTS {
                let id = id_of(x.our, slot);
                let e = after.get(&key(&id));
                ensure!(
                    s.s.get_flo_cuckoo(&id) == e.map(|e| (e.flo.clone(), e.cuckoos.clone())),
                    "{what}: looking up {slot} doesn't give what is stored"
                );
                ensure!(
                    s.s.get_cuckoo_ids(&id) == e.map(|e| e.cuckoos.clone()),
                    "{what}: the cuckoos of {slot} are not what is stored"
                );
                // What a neighbour announces is asked for if and only if it is news.
                let (v, n) = e.map_or((0, 0), |e| (e.flo.version(), e.cuckoos.len() as u32));
                for (dv, dn) in [(0i64, 0i64), (1, 0), (0, 1), (-1, 0), (0, -1), (-1, 1)] {
                    let (Ok(rv), Ok(rn)) = (
                        u32::try_from(v as i64 + dv),
                        u32::try_from(n as i64 + dn),
                    ) else {
                        continue;
                    };
                    let want = e.is_none() || rv > v || rn > n;
                    let got = s.s.sync_available(&vec![FloMeta {
                        id: id.clone(),
                        version: rv,
                        cuckoos: rn,
                    }]);
                    ensure!(
                        got == want.then(|| vec![id.clone()]),
                        "{what}: has {slot} {:?}, a neighbour offers {rv}/{rn}, and asks for {got:?}",
                        e.map(|_| (v, n))
                    );
                }
            }
        }
        let _ = rk;
        if space {
            c.nontrivial(!gone.is_empty());
        } else {
            c.nontrivial(after.len() > 2 && i > 3);
        }
    }
    Ok(())
}

pub fn run_space(ctx: &mut Ctx) {
    ctx.assume("Flos of the histories have forced IDs, so that every distance to the node occurs, and the Pass rule: the store itself looks at neither");
    ctx.assume("a Flo larger than a third of the space is allowed to be refused, as the code documents");
    ctx.sub(
        Spec {
            name: "space",
            rule: "histories of 1..50 stores, updates, cuckoo registrations, realm updates and reloads on one realm with 0.1..60 kB of space; non-trivial if a Flo was evicted",
            quick: 12_000,
            thorough: 600_000,
            max_s: 45,
        },
        vec![],
        || strat(Which::Space),
        |x, c| run_case(Which::Space, x, c),
    );
}

pub fn run_content(ctx: &mut Ctx) {
    ctx.assume("Flos of the histories have forced IDs, so that every distance to the node occurs, and the Pass rule: the store itself looks at neither");
    ctx.sub(
        Spec {
            name: "content",
            rule: "histories of 1..50 stores of Flos in versions 0..5 (also older and conflicting ones), cuckoo registrations, realm updates and reloads on one realm; non-trivial if more than two Flos were stored after four steps",
            quick: 12_000,
            thorough: 600_000,
            max_s: 45,
        },
        vec![],
        || strat(Which::Content),
        |x, c| run_case(Which::Content, x, c),
    );
}
