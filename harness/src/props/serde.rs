//! C03: everything that is stored or sent is read back unchanged.
//! C04: what older versions wrote is still understood.

use crate::fw::{Case, Ctx, Spec, TestResult};
use crate::gen::*;
use crate::{ensure, ensure_eq};
use bytes::Bytes;
use flarch::data_storage::{DataStorage, DataStorageTemp};
use flarch::nodeids::{NodeIDs, U256};
use flarch::web_rtc::messages::{PeerInfo, PeerMessage};
use flcrypto::access::{Badge, BadgeLink, Condition, ConditionSignature};
use flcrypto::signer::{KeyPairID, Signature, Signer, SignerTrait, Verifier, VerifierTrait};
use flcrypto::tofrombytes::ToFromBytes;
use flmodules::dht_router::broker::{DHTRouterIn, DHTRouterOut};
use flmodules::dht_router::intern::ModuleMessage as DrMsg;
use flmodules::dht_storage::core::{
    Cuckoo, DHTConfig, FloConfig, FloMeta, RealmConfig, RealmStorage,
};
use flmodules::dht_storage::intern::{MessageClosest, MessageDest, MessageNeighbour};
use flmodules::flo::blob::{Blob, BlobAccess, BlobFamily, BlobID, BlobPage, BlobTag};
use flmodules::flo::crypto::{BadgeCond, FloBadge, FloVerifier};
use flmodules::flo::flo::{Flo, FloID, FloWrapper};
use flmodules::flo::realm::{FloRealm, GlobalID, Realm, RealmID};
use flmodules::flo::storage::CryptoStorage;
use flmodules::gossip_events::core::{Category, Event, EventsStorage};
use flmodules::gossip_events::intern::ModuleMessage as GeMsg;
use flmodules::network::signal::{
    FledgerConfig, MessageAnnounce, NodeStat, WSSignalMessageFromNode, WSSignalMessageToNode,
};
use flmodules::nodeconfig::{NodeConfig, NodeInfo};
use flmodules::random_connections::broker::{RandomIn, RandomOut};
use flmodules::random_connections::intern::ModuleMessage as RcMsg;
use flmodules::router::messages::{NetworkWrapper, RouterIn, RouterOut};
use flmodules::web_proxy::core::{Counters, WebProxyStorage, WebProxyStorageSave};
use flmodules::web_proxy::response::{ResponseHeader, ResponseMessage, ResponseStatus};
use flmodules::Modules;
use flmacro::VersionedSerde;
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

/// Strings which text formats like to take for something else.
const NASTY: &[&str] = &[
    "", " ", "  x ", "\n", "a\n", "\na", "a\n\nb\n", "a\r\nb", "\t", "true", "false", "yes", "no",
    "on", "null", "~", "Null", "0", "1", "-1", "+1", "1e5", "1E5", "0x1f", "0o17", "017", "1.0",
    ".5", "1.", ".inf", "-.inf", ".nan", "inf", "NaN", "1_000", "12:30:45", "2001-01-01", "=", "<<",
    "-", "- a", "a: b", "a:", ": b", "? a", "#", "a #b", "#a", "&a", "*a", "!a", "!!str a", "|", ">",
    "|\n a", "'", "\"", "''", "\"\"", "'a'", "\"a\"", "\\", "\\n", "%a", "@a", "`a", "[", "]", "{",
    "}", "[]", "{}", ",", "a, b", "---", "---\na", "...", "...\n", "\u{0}", "\u{1}", "\u{7f}",
    "\u{85}", "\u{a0}", "\u{2028}", "\u{2029}", "\u{feff}", "\u{fffd}", "é", "\u{1f600}", "\u{e000}",
    "<b>&amp;</b>", "{\"a\":1}", "💩\u{200d}x", "\u{1b}[0m", "a\u{8}b", " a", "a ", "\u{3000}a",
    "key: |\n  text\n", "NodeInfoV2", "V4",
];

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        5 => proptest::sample::select(NASTY).prop_map(|s| s.to_string()),
        2 => any::<String>(),
        1 => "[ -~\n]{0,120}",
        1 => "[0-9a-f]{64}",
        1 => ("[a-z:# -]{0,10}", 50usize..400).prop_map(|(s, n)| s.repeat(n)),
        1 => (proptest::sample::select(NASTY), proptest::sample::select(NASTY)).prop_map(|(a, b)| format!("{a}{b}")),
    ]
    .boxed()
}

fn id_bytes() -> BoxedStrategy<[u8; 32]> {
    fn nib(v: Vec<u8>) -> [u8; 32] {
        let mut b = [0u8; 32];
        for (i, n) in v.iter().enumerate() {
            b[i / 2] |= n << (4 * (1 - i % 2));
        }
        b
    }
    prop_oneof![
        3 => any::<[u8; 32]>(),
        // Only digits: looks like a number
        2 => proptest::collection::vec(0u8..10, 64).prop_map(nib),
        // Looks like a floating point number
        2 => (proptest::collection::vec(0u8..10, 64), 0usize..64).prop_map(|(mut v, i)| { v[i] = 0xe; nib(v) }),
        1 => Just([0u8; 32]),
        1 => Just([0xffu8; 32]),
        1 => (0u8..10, 0usize..64).prop_map(|(d, i)| { let mut v = vec![0; 64]; v[i] = d; nib(v) }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    kind: u8,
    ids: Vec<[u8; 32]>,
    strs: Vec<String>,
    nums: Vec<u64>,
    bytes: Vec<Vec<u8>>,
    rule: Rule,
    edits: Vec<(bool, u8)>,
}

const KINDS: u8 = 26;

fn strat() -> BoxedStrategy<In> {
    (
        0..KINDS,
        proptest::collection::vec(id_bytes(), 1..6),
        proptest::collection::vec(text(), 1..6),
        proptest::collection::vec(
            prop_oneof![
                any::<u64>(),
                0u64..5,
                Just(u64::MAX),
                Just(i64::MAX as u64),
                Just(u32::MAX as u64),
                Just(1u64 << 63),
                Just(1u64 << 53)
            ],
            1..6,
        ),
        proptest::collection::vec(proptest::collection::vec(any::<u8>(), 0..60), 1..4),
        any_rule(4),
        proptest::collection::vec((any::<bool>(), 0u8..3), 0..4),
    )
        .prop_map(|(kind, ids, strs, nums, bytes, rule, edits)| In {
            kind,
            ids,
            strs,
            nums,
            bytes,
            rule,
            edits,
        })
        .boxed()
}

impl In {
    fn id(&self, i: usize) -> U256 {
        self.ids[i % self.ids.len()].into()
    }
    fn all_ids(&self) -> Vec<U256> {
        self.ids.iter().map(|i| (*i).into()).collect()
    }
    fn flo_id(&self, i: usize) -> FloID {
        self.id(i).into()
    }
    fn realm_id(&self, i: usize) -> RealmID {
        self.id(i).into()
    }
    fn s(&self, i: usize) -> String {
        self.strs[i % self.strs.len()].clone()
    }
    /// A name as used for the entries of a map. Yaml doesn't read keys with more than 1024
    /// characters.
    fn key(&self, i: usize) -> String {
        self.s(i).chars().take(100).collect()
    }
    fn n(&self, i: usize) -> u64 {
        self.nums[i % self.nums.len()]
    }
    fn b(&self, i: usize) -> Vec<u8> {
        self.bytes[i % self.bytes.len()].clone()
    }
    fn blob(&self) -> Blob {
        let mut b = Blob::new(&self.s(0));
        for i in 0..self.strs.len() {
            b.values_mut().insert(self.key(i), self.s(i + 1));
            b.datas_mut()
                .insert(self.key(i + 2), Bytes::from(self.b(i)));
            b.links_mut().insert(
                self.key(i),
                (0..i).map(|i| BlobID::from(self.id(i))).collect(),
            );
        }
        b.set_parents(vec![self.id(0).into()]);
        b
    }
    fn realm(&self) -> Realm {
        let mut r = Realm::new(
            self.s(0),
            RealmConfig {
                max_space: self.n(0),
                max_flo_size: self.n(1) as u32,
            },
        );
        for i in 0..self.strs.len() {
            r.set_service(&self.key(i), self.flo_id(i));
        }
        r
    }
    fn config(&self) -> FloConfig {
        FloConfig {
            cuckoo: match self.n(2) % 3 {
                0 => Cuckoo::None,
                1 => Cuckoo::Duration(self.n(1) as u32),
                _ => Cuckoo::Parent(self.flo_id(2)),
            },
            force_id: (self.n(3) % 2 == 0).then(|| self.id(1)),
        }
    }
    /// A rule without parts that cannot be made to a link.
    fn rule(&self) -> Rule {
        fn clean(r: &Rule) -> Rule {
            match r {
                Rule::NotAvailable => Rule::Fail,
                Rule::NofT(n, v) => Rule::NofT(*n, v.iter().map(clean).collect()),
                Rule::Badge(a, b, c, d, r) => Rule::Badge(*a, *b, *c, *d, Box::new(clean(r))),
                r => r.clone(),
            }
        }
        clean(&self.rule)
    }
    fn flo_of<T: Serialize + DeserializeOwned + Clone>(&self, obj: &T, next: &T) -> Flo {
        let all: Vec<Signer> = (0..4).map(signer).collect();
        let refs: Vec<&Signer> = all.iter().collect();
        let cond = self.rule().cond();
        let mut f =
            Flo::new_signer(self.realm_id(0), cond.clone(), obj, self.config(), &[]).unwrap();
        let mut cur = cond;
        for (data, k) in &self.edits {
            let new = if *data {
                f.update_data_signers(cur.clone(), next.clone(), &refs)
            } else {
                let c = Condition::Verifier(verifier(*k));
                let r = f.update_cond_signers(cur.clone(), c.clone(), &refs, &refs);
                if r.is_ok() {
                    cur = c;
                }
                r
            };
            if let Ok(n) = new {
                f = n;
            }
        }
        f
    }
    fn any_flo(&self) -> Flo {
        match self.n(0) % 4 {
            0 => self.flo_of(&self.realm(), &self.realm()),
            1 => self.flo_of(&self.blob(), &Blob::new(&self.s(3))),
            2 => self.flo_of(&self.b(0), &self.b(1)),
            _ => self.flo_of(&self.s(0), &self.s(1)),
        }
    }
    fn wrapper(&self) -> NetworkWrapper {
        NetworkWrapper {
            module: self.s(1),
            msg: self.s(2),
        }
    }
    fn event(&self, i: usize) -> Event {
        Event {
            category: if i % 2 == 0 {
                Category::TextMessage
            } else {
                Category::NodeInfo
            },
            src: self.id(i),
            created: self.n(i) as i64,
            msg: self.s(i),
        }
    }
    fn node_info(&self) -> NodeInfo {
        let mut c = NodeConfig::new().info;
        c.name = self.s(0);
        c.client = self.s(1);
        c.pubkey = self.ids[0].to_vec();
        c.modules = Modules::from_bits_truncate(self.n(0) as u32);
        c
    }
    fn peer_info(&self) -> PeerInfo {
        PeerInfo {
            id_init: self.id(0),
            id_follow: self.id(1),
            message: match self.n(1) % 4 {
                0 => PeerMessage::Init,
                1 => PeerMessage::Offer(self.s(0)),
                2 => PeerMessage::Answer(self.s(1)),
                _ => PeerMessage::IceCandidate(self.s(2)),
            },
        }
    }
}

fn same_info(a: &NodeInfo, b: &NodeInfo) -> bool {
    a.name == b.name
        && a.client == b.client
        && a.pubkey == b.pubkey
        && a.modules == b.modules
        && a.get_id() == b.get_id()
}

/// All formats used in the code: yaml for messages and storage, json for the
/// signalling server, message-pack for Flos.
fn rt_with<T: Serialize + DeserializeOwned>(
    what: &str,
    x: &T,
    same: impl Fn(&T, &T) -> bool,
    c: &mut Case,
) -> TestResult {
    c.label(what.split(' ').next().unwrap_or_default());
    let y = serde_yaml::to_string(x).map_err(|e| format!("{what} to yaml: {e}"))?;
    let b: T = serde_yaml::from_str(&y).map_err(|e| format!("{what} from yaml: {e}\n{y}"))?;
    ensure!(same(x, &b), "{what} changes over yaml:\n{y}");
    let y = serde_json::to_string(x).map_err(|e| format!("{what} to json: {e}"))?;
    let b: T = serde_json::from_str(&y).map_err(|e| format!("{what} from json: {e}\n{y}"))?;
    ensure!(same(x, &b), "{what} changes over json:\n{y}");
    let y = rmp_serde::to_vec(x).map_err(|e| format!("{what} to rmp: {e}"))?;
    let b: T = rmp_serde::from_slice(&y).map_err(|e| format!("{what} from rmp: {e}"))?;
    ensure!(same(x, &b), "{what} changes over message-pack");
    let b = T::from_rmp_bytes("test", &x.to_rmp_bytes())
        .map_err(|e| format!("{what} from bytes: {e}"))?;
    ensure!(same(x, &b), "{what} changes over bytes");
    ensure!(
        x.size() == x.to_rmp_bytes().len(),
        "{what}: the size isn't the one of the bytes"
    );
    Ok(())
}

fn rt<T: Serialize + DeserializeOwned + PartialEq>(
    what: &str,
    x: T,
    c: &mut Case,
) -> TestResult {
    rt_with(what, &x, |a, b| a == b, c)
}

/// A message between two nodes is wrapped, and the wrapper sent as a message of the next
/// lower module.
fn wrapped<T: Serialize + DeserializeOwned + PartialEq + Debug>(
    what: &str,
    module: &str,
    x: &T,
    c: &mut Case,
) -> TestResult {
    let w = NetworkWrapper::wrap_yaml(module, x).map_err(|e| format!("wrapping {what}: {e}"))?;
    ensure!(
        w.unwrap_yaml::<T>(module).as_ref() == Some(x),
        "wrapped {what} changes: {}",
        w.msg
    );
    ensure!(
        w.unwrap_yaml::<T>(&format!("{module}x")).is_none(),
        "a message is unwrapped by the wrong module"
    );
    let part: String = module.chars().skip(1).collect();
    let start: String = module.chars().take(module.len() - 1).collect();
    ensure!(
        ["", " ", &part, &start, &module.to_lowercase(), &module.to_uppercase(), &format!(" {module}")]
            .iter()
            .all(|m| w.unwrap_yaml::<T>(m).is_none()),
        "a message for {module} is unwrapped by a module with a similar name"
    );
    let lower = DrMsg::Closest(u256(1), u256(2), w.clone());
    let l = NetworkWrapper::wrap_yaml("DHTRouter", &lower).unwrap();
    let l = NetworkWrapper::wrap_yaml("Random", &RcMsg::Module(l)).unwrap();
    let json = serde_json::to_string(&l).unwrap();
    let l: NetworkWrapper = serde_json::from_str(&json).unwrap();
    let Some(RcMsg::Module(l)) = l.unwrap_yaml("Random") else {
        return Err(format!("{what} got lost in the random connections"));
    };
    let Some(DrMsg::Closest(_, _, l)) = l.unwrap_yaml("DHTRouter") else {
        return Err(format!("{what} got lost in the DHT router"));
    };
    ensure!(
        l.unwrap_yaml::<T>(module).as_ref() == Some(x),
        "{what} changes over the modules: {}",
        w.msg
    );
    rt_with(what, x, |a, b| a == b, c)
}

fn same_flo(a: &Flo, b: &Flo) -> TestResult {
    ensure!(a == b, "a Flo changes");
    ensure!(
        a.flo_id() == b.flo_id()
            && a.version() == b.version()
            && a.data() == b.data()
            && a.global_id() == b.global_id()
            && a.flo_type() == b.flo_type()
            && a.verify().ok() == b.verify().ok(),
        "a Flo has different properties after reading it again"
    );
    Ok(())
}

fn flo_obj<T: Serialize + DeserializeOwned + Clone + PartialEq + Debug>(
    what: &str,
    obj: &T,
    next: &T,
    x: &In,
    c: &mut Case,
) -> TestResult {
    let f = x.flo_of(obj, next);
    rt(what, f.clone(), c)?;
    let y = serde_yaml::to_string(&f).unwrap();
    same_flo(&f, &serde_yaml::from_str(&y).unwrap())?;
    let w: FloWrapper<T> = f
        .clone()
        .try_into()
        .map_err(|e| format!("{what}: cannot get the object from the Flo: {e}"))?;
    let want = if f.version() == 0 { obj } else { next };
    ensure_eq!(w.cache(), want, "{what}: the content of the Flo");
    ensure!(w.flo() == &f, "{what}: wrapping changes the Flo");
    rt(what, w, c)
}

fn run_rt(x: &In, c: &mut Case) -> TestResult {
    c.nontrivial(true);
    match x.kind % KINDS {
        0 => {
            for id in x.all_ids() {
                rt("id", id, c)?;
                rt("flo-id", FloID::from(id), c)?;
                rt("realm-id", RealmID::from(id), c)?;
                rt("key-id", KeyPairID::from(id), c)?;
                rt("blob-id", BlobID::from(id), c)?;
                ensure!(
                    format!("{id:x}").parse::<U256>().ok() == Some(id),
                    "the hexadecimal form of an ID isn't read back"
                );
            }
            rt("id-list", NodeIDs(x.all_ids()), c)?;
            let map: HashMap<FloID, u64> =
                x.all_ids().into_iter().map(|i| (i.into(), x.n(0))).collect();
            rt("id-map", map, c)
        }
        1 => flo_obj("flo-realm", &x.realm(), &x.realm(), x, c),
        2 => flo_obj("flo-blob", &x.blob(), &Blob::new(&x.s(4)), x, c),
        3 => flo_obj("flo-page", &BlobPage(x.blob()), &BlobPage(Blob::new(&x.s(4))), x, c),
        4 => flo_obj("flo-tag", &BlobTag(x.blob()), &BlobTag(Blob::new(&x.s(4))), x, c),
        5 => flo_obj("flo-string", &x.s(0), &x.s(1), x, c),
        6 => flo_obj("flo-bytes", &x.b(0), &x.b(1), x, c),
        7 => {
            let v = verifier(x.n(0) as u8);
            let f = FloVerifier::new(x.realm_id(0), v.clone());
            let b: FloVerifier = f.flo().clone().try_into().map_err(|e| format!("{e}"))?;
            ensure!(b.cache() == &v, "the verifier of a Flo changes");
            rt("flo-verifier", f.flo().clone(), c)?;
            let link = x.rule().cond().to_link();
            let f = FloBadge::from_type_config(
                x.realm_id(0),
                Condition::Pass,
                x.config(),
                BadgeCond::new(link.clone()),
                &[],
            )
            .unwrap();
            let b: FloBadge = f.flo().clone().try_into().map_err(|e| format!("{e}"))?;
            ensure!(b.cache().cond() == &link, "the condition of a badge changes");
            rt("flo-badge", f.flo().clone(), c)?;
            rt("badge-link", f.badge_link(), c)
        }
        8 => {
            rt("rule", x.rule.cond(), c)?;
            rt("rule-link", x.rule().cond().to_link(), c)?;
            let mut cs = ConditionSignature::new(x.rule().cond());
            for k in 0..4 {
                let _ = cs.sign_digest(&signer(k), &x.id(0));
            }
            cs.signatures
                .insert(x.id(1).into(), Signature::from(x.b(0)));
            rt("rule-signature", cs, c)?;
            rt("version-spec", Rule::spec(x.n(0) as u8, x.n(1) as u8, x.n(2) as u32), c)?;
            rt(
                "badge",
                Badge {
                    id: x.id(0).into(),
                    version: x.n(0) as u32,
                    condition: Box::new(x.rule.cond()),
                },
                c,
            )?;
            rt(
                "badge-link",
                BadgeLink {
                    id: x.id(0).into(),
                    version: x.n(0) as u32,
                    condition: x.rule().cond().to_link(),
                },
                c,
            )
        }
        9 => {
            let s = signer(x.n(0) as u8);
            rt("signer", s.clone(), c)?;
            rt("verifier", s.verifier(), c)?;
            let sig = s.sign(&Bytes::from(x.b(0))).unwrap();
            rt("signature", sig.clone(), c)?;
            rt("signature", Signature::from(x.b(1)), c)?;
            let s2: Signer = serde_yaml::from_str(&serde_yaml::to_string(&s).unwrap()).unwrap();
            let v: Verifier =
                serde_json::from_str(&serde_json::to_string(&s2.verifier()).unwrap()).unwrap();
            ensure!(
                s2.get_id() == s.get_id() && v.get_id() == s.verifier().get_id(),
                "a key has another ID when it is read again"
            );
            ensure!(
                v.verify(&Bytes::from(x.b(0)), &sig).is_ok()
                    && s2.sign(&Bytes::from(x.b(0))).ok() == Some(sig),
                "a key doesn't work the same when it is read again"
            );
            Ok(())
        }
        10 => {
            let info = x.node_info();
            rt_with("node-info", &info, same_info, c)?;
            let e = info.encode();
            let d = NodeInfo::decode(&e).map_err(|e| format!("node info: {e:?}"))?;
            ensure!(same_info(&info, &d), "node info changes:\n{e}");
            rt_with("node-infos", &vec![info.clone(), d], |a, b| {
                a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_info(a, b))
            }, c)
        }
        11 => {
            let mut nc = NodeConfig::new();
            let pubkey = nc.info.pubkey.clone();
            nc.info = x.node_info();
            nc.info.pubkey = pubkey;
            let same = |a: &NodeConfig, b: &NodeConfig| {
                a.keypair == b.keypair && same_info(&a.info, &b.info)
            };
            rt_with("node-config", &nc, same, c)?;
            let e = nc.encode();
            let d = NodeConfig::decode(&e);
            ensure!(same(&nc, &d), "the node config changes:\n{e}");
            let sig = d.sign(x.ids[0]);
            ensure!(
                nc.info.verify(&x.ids[0], &sig) && d.info.verify(&x.ids[0], &sig),
                "a node's signature isn't valid after reading its config again"
            );
            Ok(())
        }
        12 => {
            rt("wrapper", x.wrapper(), c)?;
            rt("router", RouterIn::NetworkWrapperToNetwork(x.id(0), x.wrapper()), c)?;
            rt("router", RouterOut::NetworkWrapperFromNetwork(x.id(0), x.wrapper()), c)?;
            rt("router", RouterOut::NodeIDsConnected(x.all_ids().into()), c)?;
            rt("router", RouterOut::Disconnected(x.id(0)), c)?;
            rt(
                "router",
                RouterOut::SystemConfig(FledgerConfig {
                    system_realm: (x.n(0) % 2 == 0).then(|| x.realm_id(0)),
                }),
                c,
            )?;
            rt("random", RandomIn::NetworkWrapperToNetwork(x.id(0), x.wrapper()), c)?;
            rt("random", RandomOut::NetworkWrapperFromNetwork(x.id(0), x.wrapper()), c)
        }
        13 => {
            wrapped("random-message", "Random", &RcMsg::Module(x.wrapper()), c)?;
            wrapped("random-message", "Random", &RcMsg::DropConnection, c)
        }
        14 => {
            let m = [
                DrMsg::Ping,
                DrMsg::Pong,
                DrMsg::ConnectedIDsRequest,
                DrMsg::ConnectedIDsReply(x.all_ids()),
                DrMsg::Neighbour(x.wrapper()),
                DrMsg::Closest(x.id(0), x.id(1), x.wrapper()),
                DrMsg::Direct(x.id(0), x.id(1), x.wrapper()),
            ];
            wrapped("router-message", "DHTRouter", &m[x.n(0) as usize % m.len()], c)
        }
        15 => {
            rt("dht-router", DHTRouterIn::MessageClosest(x.id(0), x.wrapper()), c)?;
            rt("dht-router", DHTRouterIn::MessageDirect(x.id(0), x.wrapper()), c)?;
            rt("dht-router", DHTRouterOut::NodeList(x.all_ids()), c)?;
            rt("dht-router", DHTRouterOut::SystemRealm(x.realm_id(0)), c)?;
            rt(
                "dht-router",
                DHTRouterOut::MessageRouting(x.id(0), x.id(1), x.id(2), x.id(3), x.wrapper()),
                c,
            )
        }
        16 => {
            let f = x.any_flo();
            let m = [
                MessageClosest::StoreFlo(f),
                MessageClosest::ReadFlo(x.realm_id(0)),
                MessageClosest::GetCuckooIDs(x.realm_id(0)),
                MessageClosest::StoreCuckooID(GlobalID::new(x.realm_id(0), x.flo_id(1))),
            ];
            wrapped("closest", "DHTStorage", &m[x.n(1) as usize % m.len()], c)
        }
        17 => {
            let f = x.any_flo();
            let gid = GlobalID::new(x.realm_id(0), x.flo_id(1));
            let ids: Vec<FloID> = x.all_ids().into_iter().map(|i| i.into()).collect();
            let m = [
                MessageDest::FloValue((f, ids.clone())),
                MessageDest::UnknownFlo(gid.clone()),
                MessageDest::CookooIDs(gid, ids),
            ];
            wrapped("dest", "DHTStorage", &m[x.n(1) as usize % m.len()], c)
        }
        18 => {
            let ids: Vec<FloID> = x.all_ids().into_iter().map(|i| i.into()).collect();
            let metas: Vec<FloMeta> = ids
                .iter()
                .enumerate()
                .map(|(i, id)| FloMeta {
                    id: id.clone(),
                    cuckoos: x.n(i) as u32,
                    version: x.n(i + 1) as u32,
                })
                .collect();
            let m = [
                MessageNeighbour::RequestRealmIDs,
                MessageNeighbour::AvailableRealmIDs(
                    x.all_ids().into_iter().map(|i| i.into()).collect(),
                ),
                MessageNeighbour::RequestFloMetas(x.realm_id(0)),
                MessageNeighbour::AvailableFlos(x.realm_id(0), metas),
                MessageNeighbour::RequestFlos(x.realm_id(0), ids.clone()),
                MessageNeighbour::Flos(vec![(x.any_flo(), ids), (x.any_flo(), vec![])]),
            ];
            wrapped("neighbour", "DHTStorage", &m[x.n(1) as usize % m.len()], c)
        }
        19 => {
            let evs: Vec<Event> = (0..4).map(|i| x.event(i)).collect();
            for e in &evs {
                rt("event", e.clone(), c)?;
                let back: Event =
                    serde_yaml::from_str(&serde_yaml::to_string(e).unwrap()).unwrap();
                ensure!(e.get_id() == back.get_id(), "an event has another ID");
            }
            let m = [
                GeMsg::KnownEventIDs(x.all_ids()),
                GeMsg::Events(evs),
                GeMsg::RequestEventIDs,
                GeMsg::RequestEvents(x.all_ids()),
            ];
            wrapped("gossip", "Gossip", &m[x.n(1) as usize % m.len()], c)
        }
        20 => {
            let mut es = EventsStorage::new();
            for i in 0..6 {
                es.add_event(x.event(i));
            }
            let s = es.get().map_err(|e| format!("saving events: {e}"))?;
            let mut back = EventsStorage::new();
            back.set(&s).map_err(|e| format!("loading events: {e}\n{s}"))?;
            ensure!(back == es, "the stored events change:\n{s}");
            rt("events", es, c)
        }
        21 => {
            let m = [
                WSSignalMessageToNode::Challenge(x.n(0), x.id(0)),
                WSSignalMessageToNode::PeerSetup(x.peer_info()),
                WSSignalMessageToNode::SystemConfig(FledgerConfig {
                    system_realm: Some(x.realm_id(0)),
                }),
                WSSignalMessageToNode::SystemConfig(FledgerConfig { system_realm: None }),
                WSSignalMessageToNode::Error(x.s(0)),
                WSSignalMessageToNode::ListIDsReply(vec![x.node_info()]),
            ];
            let m = &m[x.n(1) as usize % m.len()];
            rt_with("signal-to-node", m, |a, b| match (a, b) {
                (WSSignalMessageToNode::ListIDsReply(a), WSSignalMessageToNode::ListIDsReply(b)) => {
                    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_info(a, b))
                }
                (a, b) => a == b,
            }, c)
        }
        22 => {
            let m = [
                WSSignalMessageFromNode::ListIDsRequest,
                WSSignalMessageFromNode::PeerSetup(x.peer_info()),
                WSSignalMessageFromNode::NodeStats(vec![NodeStat {
                    id: x.id(0),
                    version: x.s(0),
                    ping_ms: x.n(0) as u32,
                    ping_rx: x.n(1) as u32,
                }]),
                WSSignalMessageFromNode::Announce(MessageAnnounce {
                    version: x.n(0),
                    challenge: x.id(1),
                    node_info: x.node_info(),
                    signature: x.b(0),
                }),
            ];
            let m = &m[x.n(1) as usize % m.len()];
            rt_with("signal-from-node", m, |a, b| match (a, b) {
                (WSSignalMessageFromNode::Announce(p), WSSignalMessageFromNode::Announce(q)) => {
                    a == b && same_info(&p.node_info, &q.node_info)
                }
                (a, b) => a == b,
            }, c)
        }
        23 => {
            let mut headers = HashMap::new();
            for i in 0..x.strs.len() {
                headers.insert(x.key(i), x.strs.clone());
            }
            let m = [
                ResponseMessage::Header(ResponseHeader::new(
                    ResponseStatus {
                        code: x.n(0) as u16,
                        msg: x.s(0),
                    },
                    headers,
                )),
                ResponseMessage::Body(x.b(0).into()),
                ResponseMessage::Error(x.s(0)),
                ResponseMessage::Done,
            ];
            rt("proxy-response", m[x.n(1) as usize % m.len()].clone(), c)?;
            let st = WebProxyStorage {
                counters: Counters {
                    rx_requests: x.n(0) as u32,
                    tx_requests: x.n(1) as u32,
                    rx_packets: x.n(2) as u32,
                    tx_packets: x.n(3) as u32,
                },
            };
            let s = st.to_yaml().unwrap();
            ensure!(
                WebProxyStorageSave::from_str(&s).ok() == Some(st),
                "the stored counters change:\n{s}"
            );
            Ok(())
        }
        24 => {
            let realm = FloRealm::new(
                &x.s(0),
                Condition::Pass,
                RealmConfig {
                    max_space: 1_000_000,
                    max_flo_size: x.n(1) as u32,
                },
                &[],
            )
            .unwrap();
            let mut rs = RealmStorage::new(
                DHTConfig {
                    our_id: x.id(0),
                    realms: x.all_ids().into_iter().map(|i| i.into()).collect(),
                    owned: x.all_ids().into_iter().map(|i| i.into()).collect(),
                    timeout: x.n(0),
                },
                realm.clone(),
            )
            .unwrap();
            rs.upsert_flo(x.any_flo());
            rs.upsert_flo(x.flo_of(&x.s(1), &x.s(2)));
            rs.store_cuckoo_ids(
                &(*realm.flo_id()).into(),
                x.all_ids().into_iter().map(|i| i.into()).collect(),
            );
            // As it is persisted
            let map: HashMap<RealmID, RealmStorage> = [(realm.realm_id(), rs.clone())].into();
            rt("realm-storage", rs, c)?;
            rt("realm-storages", map, c)
        }
        _ => {
            let ds = DataStorageTemp::new();
            let mut cs = CryptoStorage::new(ds.clone_box());
            let id = cs.get_signer().get_id();
            for _ in 0..x.edits.len() {
                cs.add_signer();
            }
            let want: Vec<_> = cs.signers.iter().map(|s| s.get_id()).collect();
            ensure!(
                want.len() == x.edits.len() + 1 && cs.get_signer().get_id() == id,
                "the node's key changes when keys are added"
            );
            let mut back = CryptoStorage::new(ds.clone_box());
            ensure_eq!(
                back.signers.iter().map(|s| s.get_id()).collect::<Vec<_>>(),
                want,
                "the stored keys"
            );
            ensure!(
                back.get_signer().get_id() == id && back.signers == cs.signers,
                "the node has another key after a restart"
            );
            // The configuration of a node
            let mut ds = DataStorageTemp::new();
            let first = flnode::node::Node::get_config(ds.clone_box()).unwrap();
            let mut named = first.clone();
            named.info.name = x.s(0);
            flnode::node::Node::set_config(ds.clone_box(), &named.encode()).unwrap();
            ds.set("other", &x.s(1)).unwrap();
            for _ in 0..2 {
                let again = flnode::node::Node::get_config(ds.clone_box()).unwrap();
                ensure!(
                    again.keypair == first.keypair && same_info(&again.info, &named.info),
                    "the node's configuration changes over a restart: {:?}",
                    again.info
                );
            }
            c.label("restart");
            Ok(())
        }
    }
}

// ---------------------------------------------------------------------------------------------

/// A chain of versions of which each step is visible.
#[derive(VersionedSerde, Clone, PartialEq, Debug)]
#[versions = "[ChainV1, ChainV2, ChainV3]"]
struct Chain {
    #[serde(rename = "now")]
    val: String,
    list: Vec<u32>,
    #[serde(default)]
    extra: Option<u64>,
    steps: u32,
}

#[derive(Serialize, Deserialize, Clone)]
struct ChainV3 {
    val: String,
    list: Vec<u32>,
    steps: u32,
}

#[derive(Serialize, Deserialize, Clone)]
struct ChainV2 {
    val: String,
    one: u32,
    steps: u32,
}

#[derive(Serialize, Deserialize, Clone)]
struct ChainV1 {
    val: String,
}

impl From<ChainV1> for ChainV2 {
    fn from(o: ChainV1) -> Self {
        Self {
            one: o.val.len() as u32,
            val: o.val,
            steps: 1,
        }
    }
}
impl From<ChainV2> for ChainV3 {
    fn from(o: ChainV2) -> Self {
        Self {
            val: o.val,
            list: vec![o.one],
            steps: o.steps * 10 + 2,
        }
    }
}
impl From<ChainV3> for Chain {
    fn from(o: ChainV3) -> Self {
        Self {
            val: o.val,
            extra: o.list.first().map(|l| *l as u64),
            list: o.list,
            steps: o.steps * 10 + 3,
        }
    }
}

/// The first version of a structure.
#[derive(VersionedSerde, Clone, PartialEq, Debug)]
struct Single {
    val: String,
    num: i64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Old {
    kind: u8,
    ids: Vec<[u8; 32]>,
    strs: Vec<String>,
    nums: Vec<u32>,
    json: bool,
    key_seed: [u8; 32],
}

fn strat_old() -> BoxedStrategy<Old> {
    (
        0u8..8,
        proptest::collection::vec(id_bytes(), 1..5),
        proptest::collection::vec(text(), 1..5),
        proptest::collection::vec(prop_oneof![any::<u32>(), 0u32..256], 1..6),
        any::<bool>(),
        any::<[u8; 32]>(),
    )
        .prop_map(|(kind, ids, strs, nums, json, key_seed)| Old {
            kind,
            ids,
            strs,
            nums,
            json,
            key_seed,
        })
        .boxed()
}

fn b64(b: &[u8]) -> String {
    use base64::prelude::*;
    BASE64_STANDARD.encode(b)
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

/// Writes a document as yaml, and optionally in the flow style of json.
fn doc(v: &serde_json::Value, json: bool) -> String {
    if json {
        serde_json::to_string(v).unwrap()
    } else {
        serde_yaml::to_string(v).unwrap()
    }
}

fn run_old(x: &Old, c: &mut Case) -> TestResult {
    use serde_json::json;
    let s = |i: usize| x.strs[i % x.strs.len()].clone();
    let n = |i: usize| x.nums[i % x.nums.len()];
    let id = |i: usize| x.ids[i % x.ids.len()];
    c.nontrivial(true);
    let seed = ed25519_dalek::SigningKey::from_bytes(&x.key_seed);
    let mut keypair = seed.to_bytes().to_vec();
    keypair.extend_from_slice(seed.verifying_key().as_bytes());
    let pubkey = seed.verifying_key().to_bytes();
    // Unknown bits fall back to the standard modules.
    let bits = n(0) & 0x3f;
    let mut info_v2 = json!({"name": s(0), "client": s(1), "pubkey": b64(&pubkey)});
    if n(1) % 3 != 0 {
        const NAMES: [&str; 6] = ["STAT", "RAND", "GOSSIP", "PING", "WEBPROXY", "WEBPROXY_REQUESTS"];
        let names: Vec<String> = (0..6)
            .filter(|i| bits & (1 << i) != 0)
            .map(|i| format!("ENABLE_{}", NAMES[i]))
            .collect();
        info_v2["modules"] = json!(names.join(" | "));
    }
    let want_modules = if n(1) % 3 != 0 { bits } else { 0x3f };
    let check_info = |i: &NodeInfo| -> TestResult {
        ensure!(
            i.name == s(0) && i.client == s(1) && i.pubkey == pubkey.to_vec(),
            "the old node information is read as {i:?}"
        );
        ensure!(i.get_id() == U256::from(pubkey), "the node gets another ID");
        ensure_eq!(i.modules.bits(), want_modules, "the modules of a node");
        Ok(())
    };
    match x.kind % 8 {
        0 => {
            c.label("node-config 1");
            let d = doc(&json!({"NodeConfigV1": {"info": info_v2, "keypair": b64(&keypair)}}), x.json);
            let nc = NodeConfig::decode(&d);
            ensure!(nc.keypair == keypair, "the node loses its key reading\n{d}");
            check_info(&nc.info)?;
            let again = NodeConfig::decode(&nc.encode());
            ensure!(again.keypair == keypair, "the node loses its key after an update");
            check_info(&again.info)?;
            let sig = again.sign(id(0));
            ensure!(again.info.verify(&id(0), &sig), "the key doesn't work any more");
            // As the node does it at a start
            let mut ds = DataStorageTemp::new();
            ds.set("nodeConfig", &d).unwrap();
            Ok(())
        }
        1 => {
            c.label("node-config 2 with info 2");
            let d = doc(
                &json!({"NodeConfigV2": {"info": {"NodeInfoV2": info_v2}, "keypair": hex(&keypair)}}),
                x.json,
            );
            let nc = NodeConfig::decode(&d);
            ensure!(nc.keypair == keypair, "the node loses its key reading\n{d}");
            check_info(&nc.info)
        }
        2 => {
            c.label("node-info 2");
            let d = doc(&json!({"NodeInfoV2": info_v2}), x.json);
            let i = NodeInfo::decode(&d).map_err(|e| format!("old node info: {e:?}\n{d}"))?;
            check_info(&i)?;
            check_info(&NodeInfo::decode(&i.encode()).map_err(|e| format!("{e:?}"))?)
        }
        3 | 4 | 5 => {
            // Gossip events, of which version 1 was also written without a tag
            let version = n(4) % 5;
            c.label(format!("events {version}"));
            let mut want: BTreeMap<[u8; 32], Event> = BTreeMap::new();
            let mut cats = serde_json::Map::new();
            for (cat, name, unique, max) in [
                (Category::TextMessage, "TextMessage", false, 20 + n(2) % 50),
                (Category::NodeInfo, "NodeInfo", true, 100),
            ] {
                let mut events = serde_json::Map::new();
                let mut yaml_events = vec![];
                for i in 0..(n(3) % 4) as usize {
                    let e = Event {
                        category: cat,
                        src: id(i).into(),
                        created: n(i) as i64 * if version < 2 { 1 } else { 1000 },
                        msg: s(i),
                    };
                    // A unique category has one event for each source.
                    if unique && want.values().any(|w| w.category == cat && w.src == e.src) {
                        continue;
                    }
                    // Some of the old storages used random IDs as key.
                    let key = if i % 2 == 0 || version == 4 { raw(&e.get_id()) } else { id(i + 1) };
                    if yaml_events.iter().any(|(k, _)| *k == key) {
                        continue;
                    }
                    want.insert(raw(&e.get_id()), e.clone());
                    let src = if version < 2 { json!(id(i).to_vec()) } else { json!(hex(&id(i))) };
                    let created = if version == 2 { json!(e.created as f64) } else { json!(e.created) };
                    let ev = json!({"category": name, "src": src, "created": created, "msg": e.msg});
                    yaml_events.push((key, ev.clone()));
                    events.insert(hex(&key), ev);
                }
                let config = json!({"unique": unique, "max_events": max});
                if version < 2 {
                    // Lists as keys, which json doesn't have.
                    let list: Vec<_> = yaml_events
                        .iter()
                        .map(|(k, ev)| {
                            format!(
                                "        ? {}\n        : {}\n",
                                serde_json::to_string(&k.to_vec()).unwrap(),
                                serde_json::to_string(ev).unwrap()
                            )
                        })
                        .collect();
                    let evs = if list.is_empty() {
                        "      events: {}\n".to_string()
                    } else {
                        format!("      events:\n{}", list.concat())
                    };
                    cats.insert(
                        name.into(),
                        json!(format!(
                            "    {name}:\n      config: {}\n{evs}",
                            serde_json::to_string(&config).unwrap()
                        )),
                    );
                } else {
                    cats.insert(name.into(), json!({"config": config, "events": events}));
                }
            }
            let d = match version {
                0 | 1 => {
                    let body: String = cats.values().map(|v| v.as_str().unwrap()).collect();
                    if version == 0 {
                        // Not tagged
                        let body: String = body.lines().map(|l| format!("{}\n", &l[2..])).collect();
                        format!("---\nstorage:\n{body}")
                    } else {
                        format!("---\nV1:\n  storage:\n{body}")
                    }
                }
                v => doc(&json!({format!("V{v}"): {"storage": cats}}), x.json),
            };
            let mut es = EventsStorage::new();
            es.set(&d).map_err(|e| format!("events of version {version}: {e}\n{d}"))?;
            let mut got: BTreeMap<[u8; 32], Event> = BTreeMap::new();
            for cat in [Category::TextMessage, Category::NodeInfo] {
                for e in es.events(cat) {
                    ensure!(e.category == cat, "an event is in the wrong category");
                    got.insert(raw(&e.get_id()), e);
                }
            }
            ensure_eq!(got, want, "events of version {version}");
            for (k, e) in &want {
                ensure_eq!(
                    es.event(&(*k).into()),
                    Some(e.clone()),
                    "looking up an event of version {version}"
                );
            }
            let mut again = EventsStorage::new();
            again.set(&es.get().unwrap()).unwrap();
            ensure!(again == es, "the events change when they are stored again");
            c.count("events", want.len() as u64);
            Ok(())
        }
        6 => {
            let v = n(0) % 4 + 1;
            c.label(format!("chain {v}"));
            let val = s(0);
            let (d, want) = match v {
                1 => (
                    json!({"ChainV1": {"val": val}}),
                    Chain {
                        list: vec![val.len() as u32],
                        extra: Some(val.len() as u64),
                        val,
                        steps: 123,
                    },
                ),
                2 => (
                    json!({"ChainV2": {"val": val, "one": n(1), "steps": 4}}),
                    Chain {
                        val,
                        list: vec![n(1)],
                        extra: Some(n(1) as u64),
                        steps: 423,
                    },
                ),
                3 => (
                    json!({"ChainV3": {"val": val, "list": x.nums, "steps": 5}}),
                    Chain {
                        val,
                        list: x.nums.clone(),
                        extra: Some(x.nums[0] as u64),
                        steps: 53,
                    },
                ),
                _ => (
                    json!({"ChainV4": {"now": val, "list": x.nums, "steps": 6}}),
                    Chain {
                        val,
                        list: x.nums.clone(),
                        extra: None,
                        steps: 6,
                    },
                ),
            };
            let d = doc(&d, x.json);
            let got: Chain = serde_yaml::from_str(&d).map_err(|e| format!("version {v}: {e}\n{d}"))?;
            ensure_eq!(got, want, "version {v}");
            let y = serde_yaml::to_string(&got).unwrap();
            ensure!(
                y.contains("ChainV4") && y.contains("now"),
                "the structure isn't written in its latest version:\n{y}"
            );
            rt("chain", got, c)?;
            for bad in ["ChainV5", "ChainV0", "Chain", "V1"] {
                ensure!(
                    serde_yaml::from_str::<Chain>(&doc(&json!({bad: {"val": "x"}}), x.json)).is_err(),
                    "an unknown version is read"
                );
            }
            Ok(())
        }
        _ => {
            c.label("single");
            let v = Single {
                val: s(0),
                num: n(0) as i64 - n(1) as i64,
            };
            let d = doc(&json!({"SingleV1": {"val": v.val, "num": v.num}}), x.json);
            let got: Single = serde_yaml::from_str(&d).map_err(|e| format!("{e}\n{d}"))?;
            ensure_eq!(got, v, "the first version");
            rt("single", v, c)
        }
    }
}

fn raw<T: AsRef<[u8]>>(id: &T) -> [u8; 32] {
    id.as_ref().try_into().unwrap()
}

pub fn run_roundtrip(ctx: &mut Ctx) {
    ctx.assume("yaml, json and message-pack are the formats used; the strings include everything unicode has");
    ctx.sub(
        Spec {
            name: "roundtrip",
            rule: "values of all stored and sent types with IDs that look like numbers and strings that look like markup, written and read in all formats and through the message wrappers; every case counts as non-trivial",
            quick: 60_000,
            thorough: 3_000_000,
            max_s: 70,
        },
        vec![],
        strat,
        run_rt,
    );
}

pub fn run_versions(ctx: &mut Ctx) {
    ctx.assume("the documents of older versions are written by the check from the documented layout; the first version of the node information isn't supported by design");
    ctx.sub(
        Spec {
            name: "versions",
            rule: "documents in the layout of each older version of node configuration, node information and gossip events, and of generated version chains, with generated content; every case counts as non-trivial",
            quick: 60_000,
            thorough: 3_000_000,
            max_s: 70,
        },
        vec![],
        strat_old,
        run_old,
    );
}
