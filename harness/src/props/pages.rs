//! C11: the pages of a realm, their paths, families and rules.

use super::netsim::MemDs;
use crate::fw::{block_on, take_panics, unlink, Case, Ctx, Spec, TestResult};
use crate::gen::{set, signer, u256, verifier, Rule};
use crate::{ensure, ensure_eq};
use bytes::Bytes;
use flcrypto::access::{Badge, Condition, ConditionLink, VersionSpec};
use flcrypto::signer::{Signer, VerifierTrait};
use flmodules::dht_router::broker::BrokerDHTRouter;
use flmodules::dht_storage::broker::DHTStorage;
use flmodules::dht_storage::core::{Cuckoo, DHTConfig};
use flmodules::dht_storage::realm_view::{RealmView, RealmViewBuilder};
use flmodules::flo::blob::{
    BlobAccess, BlobFamily, BlobID, BlobPage, BlobPath, BlobTag, FloBlobPage,
};
use flmodules::flo::crypto::{BadgeCond, FloBadge, FloVerifier};
use flmodules::flo::flo::FloID;
use flmodules::flo::realm::{Realm, RealmID};
use flmodules::timer::BrokerTimer;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::time::Duration;

/// The verifier of the last one isn't stored
const KEYS: u8 = 4;
const UNKNOWN: u8 = KEYS - 1;
const MAX_PAGES: usize = 14;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Par {
    None,
    Known(u8),
    Unknown(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cu {
    None,
    Open,
    Of(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Edit {
    path: Option<u8>,
    content: Option<u8>,
    parents: Option<Vec<Par>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Create { path: u8, content: u8, parent: Par, rule: Rule, signers: Vec<u8>, cuckoo: Cu },
    Update { page: u8, edit: Edit, signers: Vec<u8> },
    Tag { name: u8, parent: Par, rule: Rule, signers: Vec<u8> },
    /// Uses the other view, which has to update itself first.
    Switch,
    Reopen(u8),
    Service { name: u8, page: u8, signers: Vec<u8> },
    UpdateRealm,
    UpdateAll,
    Paths(Vec<(Vec<u8>, u8)>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    realm: Rule,
    root: Rule,
    cuckoo: bool,
    ops: Vec<Op>,
}

fn rule() -> BoxedStrategy<Rule> {
    prop_oneof![
        6 => (0..KEYS - 1).prop_map(Rule::Key),
        1 => Just(Rule::Key(UNKNOWN)),
        1 => Just(Rule::Pass),
        3 => (prop::collection::vec((0..KEYS).prop_map(Rule::Key), 1..4), any::<u32>())
            .prop_map(|(v, n)| { let l = v.len() as u32; Rule::NofT(n % l + 1, v) }),
    ]
    .boxed()
}

fn signers() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => (0..KEYS).prop_map(|k| vec![k]),
        2 => crate::gen::signer_set(KEYS),
    ]
    .boxed()
}

fn par() -> BoxedStrategy<Par> {
    prop_oneof![
        2 => Just(Par::None),
        9 => any::<u8>().prop_map(Par::Known),
        1 => any::<u8>().prop_map(Par::Unknown),
    ]
    .boxed()
}

fn strat() -> BoxedStrategy<In> {
    let b = any::<u8>;
    let cu = prop_oneof![3 => Just(Cu::None), 1 => Just(Cu::Open), 2 => b().prop_map(Cu::Of)];
    let edit = (
        prop::option::weighted(0.3, b()),
        prop::option::weighted(0.5, b()),
        prop::option::weighted(0.5, prop::collection::vec(par(), 0..3)),
    )
        .prop_map(|(path, content, parents)| Edit { path, content, parents });
    let op = prop_oneof![
        10 => (b(), b(), par(), rule(), signers(), cu, any::<bool>()).prop_map(
            |(path, content, parent, rule, mut signers, cuckoo, ok)| {
                // Most of them can be created
                if ok && !rule.has_pass() {
                    signers = rule.keys().into_iter().collect();
                }
                Op::Create { path, content, parent, rule, signers, cuckoo }
            }
        ),
        8 => (b(), edit, signers()).prop_map(|(page, edit, signers)| Op::Update { page, edit, signers }),
        1 => (b(), par(), rule(), signers()).prop_map(|(name, parent, rule, signers)| Op::Tag { name, parent, rule, signers }),
        2 => Just(Op::Switch),
        1 => b().prop_map(Op::Reopen),
        2 => (b(), b(), signers()).prop_map(|(name, page, signers)| Op::Service { name, page, signers }),
        1 => Just(Op::UpdateRealm),
        1 => Just(Op::UpdateAll),
        1 => prop::collection::vec((prop::collection::vec(b(), 0..4), b()), 1..6).prop_map(Op::Paths),
    ];
    (rule(), rule(), any::<bool>(), prop::collection::vec(op, 1..24))
        .prop_map(|(realm, root, cuckoo, ops)| In { realm, root, cuckoo, ops })
        .boxed()
}

fn name(i: u8) -> String {
    ["a", "b", "c", "root", "über", "a b", "B", "index.html"][i as usize % 8].into()
}

fn content(i: u8) -> String {
    match i % 8 {
        0 => String::new(),
        1 => "é\0<html>".repeat(20),
        i => format!("<html>{i}</html>"),
    }
}

fn get_signers(l: &[u8]) -> Vec<Signer> {
    l.iter().map(|k| signer(*k)).collect()
}

/// The rule as the storage knows it
fn resolved(r: &Rule) -> Rule {
    match r {
        Rule::Key(UNKNOWN) => Rule::NotAvailable,
        Rule::NofT(n, l) => Rule::NofT(*n, l.iter().map(resolved).collect()),
        r => r.clone(),
    }
}

/// These signers together make a valid signature
fn signs(r: &Rule, l: &[u8]) -> bool {
    let r = resolved(r);
    l.iter().all(|k| r.accepts_signer(*k)) && r.eval(&set(l))
}

/// Some of these signers can sign
fn can_sign(r: &Rule, l: &[u8]) -> bool {
    resolved(r).eval(&set(l))
}

#[derive(Clone, Debug, PartialEq)]
struct Page {
    path: String,
    content: String,
    parents: Vec<BlobID>,
    children: Vec<BlobID>,
    rule: Rule,
    cuckoo: Cuckoo,
}

struct Sim {
    ds: DHTStorage,
    router: BrokerDHTRouter,
    timer: BrokerTimer,
    rid: RealmID,
    realm_rule: Rule,
    views: Vec<RealmView>,
    cur: usize,
    order: Vec<BlobID>,
    pages: HashMap<BlobID, Page>,
    tags: HashMap<BlobID, (String, Option<BlobID>)>,
    services: BTreeMap<String, BlobID>,
    versions: HashMap<BlobID, u32>,
}

fn page_of(p: &FloBlobPage, rule: &Rule) -> Page {
    Page {
        path: p.get_path().cloned().unwrap_or_default(),
        content: p.get_index(),
        parents: p.get_parents(),
        children: p.get_children(),
        rule: rule.clone(),
        cuckoo: p.flo().flo_config().cuckoo.clone(),
    }
}

fn minimal(r: &Rule) -> Vec<u8> {
    match r.has_pass() {
        true => vec![],
        false => r.keys().into_iter().collect(),
    }
}

impl Sim {
    async fn start(x: &In) -> Result<Self, String> {
        let router = BrokerDHTRouter::new();
        let timer = BrokerTimer::new();
        let ds = DHTStorage::start(
            Box::new(MemDs::default()),
            DHTConfig::default(u256(1)),
            timer.clone(),
            router.clone(),
        )
        .await
        .unwrap();
        // The keys of all these are stored
        let known = |r: &Rule| match signs(r, &minimal(r)) {
            true => r.clone(),
            false => Rule::Key(0),
        };
        let (realm_rule, root_rule) = (known(&x.realm), known(&x.root));
        let cuckoo = match x.cuckoo {
            true => Cuckoo::Duration(1_000_000),
            false => Cuckoo::None,
        };
        let view = RealmViewBuilder::new(
            ds.clone(),
            "realm".into(),
            realm_rule.cond(),
            get_signers(&minimal(&realm_rule)),
        )
        .root_http_cuckoo(
            "root".into(),
            "<root>".into(),
            None,
            root_rule.cond(),
            cuckoo.clone(),
            get_signers(&minimal(&root_rule)),
        )
        .root_tag("tags".into(), None, Condition::Pass, vec![])
        .build()
        .await
        .map_err(|e| format!("couldn't create the realm: {e}"))?;
        let rid = view.realm.realm_id();
        let (root, tag) = (view.pages.root.clone(), view.tags.root.clone());
        let mut sim = Sim {
            ds,
            router,
            timer,
            rid: rid.clone(),
            realm_rule,
            views: vec![view],
            cur: 0,
            order: vec![root.clone()],
            pages: HashMap::new(),
            tags: [(tag.clone(), ("tags".into(), None))].into(),
            services: [("http".into(), root.clone()), ("tag".into(), tag)].into(),
            versions: HashMap::new(),
        };
        sim.pages.insert(
            root,
            Page {
                path: "root".into(),
                content: "<root>".into(),
                parents: vec![],
                children: vec![],
                rule: root_rule,
                cuckoo,
            },
        );
        for k in 0..UNKNOWN {
            sim.ds
                .store_flo(FloVerifier::new(rid.clone(), verifier(k)).into())
                .unwrap();
        }
        sim.check().await?;
        let view = RealmView::new_from_id(sim.ds.clone(), rid)
            .await
            .map_err(|e| format!("couldn't open the realm: {e}"))?;
        sim.views.push(view);
        Ok(sim)
    }

    fn view(&mut self) -> &mut RealmView {
        &mut self.views[self.cur]
    }

    fn par(&self, p: &Par) -> Option<BlobID> {
        match p {
            Par::None => None,
            Par::Known(i) => Some(self.order[*i as usize % self.order.len()].clone()),
            Par::Unknown(i) => Some(u256(7000 + *i as u64 % 4).into()),
        }
    }

    fn page(&self, i: u8) -> BlobID {
        self.order[i as usize % self.order.len()].clone()
    }

    /// Everything a view knows is as it must be, and is also in the storage.
    async fn check(&mut self) -> TestResult {
        let view = self.views[self.cur].clone();
        let have: HashSet<BlobID> = view.pages.storage.keys().cloned().collect();
        let want: HashSet<BlobID> = self.pages.keys().cloned().collect();
        ensure_eq!(have, want, "pages in the view");
        for (id, want) in &self.pages {
            let p = &view.pages.storage[id];
            ensure_eq!(&page_of(p, &want.rule), want, "page in the view");
            // See the known finding for updates with a rule which isn't completely available
            let partial = want.rule.keys().contains(&UNKNOWN) && p.version() > 0;
            ensure!(
                partial || p.verify().is_ok_and(|o| o),
                "the page {id} doesn't verify"
            );
            ensure_eq!(p.blob_id(), id.clone(), "ID of the page");
            let stored = self.ds.get_flo::<BlobPage>(&self.rid.global_id((**id).into())).await;
            match stored {
                Err(e) => return Err(format!("page {id} isn't stored: {e}")),
                Ok(s) => ensure!(
                    &s == p,
                    "the stored page has version {}, the one in the view {}",
                    s.version(),
                    p.version()
                ),
            }
            let last = self.versions.insert(id.clone(), p.version()).unwrap_or(0);
            ensure!(last <= p.version(), "the version of a page went from {last} to {}", p.version());
        }
        let have: HashMap<BlobID, (String, Option<BlobID>)> = view
            .tags
            .storage
            .iter()
            .map(|(id, t)| {
                let name = t.values().get("name").cloned().unwrap_or_default();
                (id.clone(), (name, t.get_parents().first().cloned()))
            })
            .collect();
        ensure_eq!(have, self.tags, "tags in the view");
        for (id, t) in &view.tags.storage {
            let stored = self.ds.get_flo::<BlobTag>(&self.rid.global_id((**id).into())).await;
            ensure!(stored.is_ok_and(|s| &s == t), "the tag {id} isn't stored");
        }
        for (s, id) in &self.services {
            let have = view.get_realm_service(s).await.cloned();
            ensure_eq!(have, Some((**id).into()), "service of the realm");
        }
        for (id, l) in &view.pages.cuckoos {
            for c in l {
                let is = self.pages.get(c).map(|p| p.cuckoo == Cuckoo::Parent((**id).into()));
                ensure_eq!(is, Some(true), "is a cuckoo of this page");
            }
        }
        self.check_full_paths(&view)
    }

    /// What a view knew is the newest after an update, together with the attached pages.
    async fn check_known(&mut self, v: &RealmView, known: &[BlobID]) -> TestResult {
        for id in known {
            let gid = self.rid.global_id((**id).into());
            if let Some(t) = v.tags.storage.get(id) {
                let stored = self.ds.get_flo::<BlobTag>(&gid).await;
                ensure!(stored.is_ok_and(|s| &s == t), "the tag {id} isn't up to date after an update");
                continue;
            }
            let Some(p) = v.pages.storage.get(id) else {
                return Err("a page is gone after an update".into());
            };
            let Some(want) = self.pages.get(id) else { continue };
            ensure_eq!(&page_of(p, &want.rule), want, "page of an updated view");
            for (c, cp) in &self.pages {
                if cp.cuckoo == Cuckoo::Parent((**id).into()) {
                    ensure!(
                        v.pages.storage.contains_key(c) && v.pages.cuckoos.get(id).is_some_and(|l| l.contains(c)),
                        "an attached page is missing after an update"
                    );
                }
            }
        }
        let stored = self.ds.get_flo::<Realm>(&(&self.rid).into()).await;
        ensure!(stored.is_ok_and(|s| s == v.realm), "the realm isn't up to date after an update");
        Ok(())
    }

    fn check_full_paths(&self, view: &RealmView) -> TestResult {
        for id in self.pages.keys().chain(self.tags.keys()) {
            let have = view.get_full_path_id(id);
            let (mut cur, mut names, mut seen) = (id, vec![], HashSet::new());
            let want = loop {
                let Some(p) = self.pages.get(cur) else { break None };
                if !seen.insert(cur) {
                    break None;
                }
                names.push(p.path.clone());
                match p.parents.first() {
                    None => {
                        names.reverse();
                        break Some(format!("/{}", names.join("/")));
                    }
                    Some(p) => cur = p,
                }
            };
            ensure_eq!(have.ok(), want, "path of the page");
            let Some(path) = want else { continue };
            // Going down from the root finds it again
            let (found, unique) = self.find(view, &path);
            let chain = self.is_linked(view, id);
            if chain {
                ensure!(found.contains(id), "the oracle is wrong");
            }
            self.check_path(view, &path, &found, unique)?;
        }
        Ok(())
    }

    fn start_ids(&self, view: &RealmView) -> Vec<BlobID> {
        with_cuckoos(view, &[view.pages.root.clone()])
    }

    /// From the root, every page knows the next one as its child.
    fn is_linked(&self, view: &RealmView, id: &BlobID) -> bool {
        let mut cur = id.clone();
        loop {
            let p = &self.pages[&cur];
            let Some(parent) = p.parents.first() else {
                return self.start_ids(view).contains(&cur);
            };
            if !with_cuckoos(view, &self.pages[parent].children).contains(&cur) {
                return false;
            }
            cur = parent.clone();
        }
    }

    /// All pages which can be found with this path, and whether there is never a choice.
    fn find(&self, view: &RealmView, path: &str) -> (HashSet<BlobID>, bool) {
        let mut ids = self.start_ids(view);
        let mut unique = true;
        let parts: Vec<&str> = path.trim_start_matches('/').split('/').collect();
        for (i, part) in parts.iter().enumerate() {
            let m: HashSet<BlobID> = ids
                .iter()
                .filter(|id| self.pages.get(id).is_some_and(|p| p.path == *part))
                .cloned()
                .collect();
            unique &= m.len() == 1;
            if i + 1 == parts.len() {
                return (m, unique);
            }
            let children: Vec<BlobID> =
                m.iter().flat_map(|id| self.pages[id].children.clone()).collect();
            ids = with_cuckoos(view, &children);
        }
        unreachable!()
    }

    fn check_path(
        &self,
        view: &RealmView,
        path: &str,
        found: &HashSet<BlobID>,
        unique: bool,
    ) -> TestResult {
        match view.get_page_from_path(path) {
            Ok(p) => {
                ensure!(found.contains(&p.blob_id()), "'{path}' gives another page: {p}");
                ensure_eq!(
                    page_of(p, &Rule::Pass).content,
                    self.pages[&p.blob_id()].content,
                    "content of the page"
                );
                if let Some((parent, last)) = path.trim_start_matches('/').rsplit_once('/') {
                    let (pp, rest) = view
                        .get_page_parent_remaining(&format!("/{}", path.trim_start_matches('/')))
                        .map_err(|e| format!("no parent for '{path}': {e}"))?;
                    ensure_eq!(rest, last.to_string(), "last part of the path");
                    ensure!(
                        self.find(view, parent).0.contains(&pp.blob_id()),
                        "'{path}' has another parent: {pp}"
                    );
                }
            }
            Err(e) => ensure!(!unique, "'{path}' isn't found: {e}"),
        }
        Ok(())
    }

    async fn refresh(&mut self) -> TestResult {
        let order = self.order.clone();
        let tags: Vec<BlobID> = self.tags.keys().cloned().collect();
        let v = self.view();
        let known: Vec<BlobID> = v.pages.storage.keys().chain(v.tags.storage.keys()).cloned().collect();
        v.update_all().await.map_err(|e| format!("updating a view: {e}"))?;
        let v = v.clone();
        self.check_known(&v, &known).await?;
        let v = self.view();
        for id in order {
            v.fetch_page(id).await.unwrap();
        }
        for id in tags {
            v.fetch_tag(id).await.unwrap();
        }
        let v = self.view().clone();
        for (id, p) in &self.pages {
            // All attached pages are there
            if let Cuckoo::Parent(parent) = &p.cuckoo {
                let parent: BlobID = (**parent).into();
                ensure!(
                    v.pages.cuckoos.get(&parent).is_some_and(|l| l.contains(id)),
                    "an attached page isn't found with its parent"
                );
            }
        }
        self.check().await
    }

    fn link(&mut self, parent: &BlobID, child: &BlobID, signers: &[u8], add: bool) {
        let Some(p) = self.pages.get_mut(parent) else { return };
        if !can_sign(&p.rule, signers) {
            return;
        }
        p.children.retain(|c| c != child);
        if add {
            p.children.push(child.clone());
        }
    }

    async fn op(&mut self, op: &Op) -> TestResult {
        match op {
            Op::Create { path, content: co, parent, rule, signers, cuckoo } => {
                let ok = signers.iter().all(|s| rule.accepts_signer(*s));
                if self.order.len() >= MAX_PAGES || ok && !rule.eval(&set(signers)) {
                    return Ok(());
                }
                let parent = self.par(parent);
                let cuckoo = match cuckoo {
                    Cu::None => Cuckoo::None,
                    Cu::Open => Cuckoo::Duration(1_000_000),
                    Cu::Of(i) => Cuckoo::Parent((*self.page(*i)).into()),
                };
                let s = get_signers(signers);
                let res = self
                    .view()
                    .create_http_cuckoo(
                        &name(*path),
                        content(*co),
                        parent.clone(),
                        rule.cond(),
                        cuckoo.clone(),
                        &s.iter().collect::<Vec<_>>(),
                    )
                    .await;
                match res {
                    Err(e) => ensure!(!ok, "a page can't be created: {e}"),
                    Ok(p) => {
                        ensure!(ok, "a page has been created with a wrong signer");
                        let id = p.blob_id();
                        ensure!(!self.pages.contains_key(&id), "the same page again");
                        self.order.push(id.clone());
                        self.pages.insert(
                            id.clone(),
                            Page {
                                path: name(*path),
                                content: content(*co),
                                parents: parent.iter().cloned().collect(),
                                children: vec![],
                                rule: rule.clone(),
                                cuckoo,
                            },
                        );
                        if let Some(parent) = &parent {
                            self.link(parent, &id, signers, true);
                        }
                    }
                }
            }
            Op::Update { page, edit, signers } => {
                let id = self.page(*page);
                let mut p = self.pages[&id].clone();
                let ok = signs(&p.rule, signers);
                let before: HashSet<BlobID> = p.parents.iter().cloned().collect();
                if let Some(n) = edit.path {
                    p.path = name(n);
                }
                if let Some(c) = edit.content {
                    p.content = content(c);
                }
                if let Some(l) = &edit.parents {
                    p.parents = l.iter().filter_map(|p| self.par(p)).collect();
                }
                let s = get_signers(signers);
                let (pp, pc, pa) = (p.path.clone(), p.content.clone(), p.parents.clone());
                let res = self
                    .view()
                    .update_page(
                        &id,
                        |b| {
                            b.set_path(pp);
                            b.set_data("index.html".into(), Bytes::from(pc));
                            b.set_parents(pa);
                        },
                        &s.iter().collect::<Vec<_>>(),
                    )
                    .await;
                match res {
                    Err(e) => ensure!(!ok, "a page can't be updated: {e}"),
                    Ok(n) => {
                        ensure!(ok, "a page is updated without a valid signature");
                        ensure_eq!(n.blob_id(), id, "ID of the updated page");
                        let after: HashSet<BlobID> = p.parents.iter().cloned().collect();
                        self.pages.insert(id.clone(), p);
                        for g in before.difference(&after) {
                            self.link(g, &id, signers, false);
                        }
                        for g in after.difference(&before) {
                            self.link(g, &id, signers, true);
                        }
                    }
                }
            }
            Op::Tag { name: n, parent, rule, signers } => {
                let ok = signers.iter().all(|s| rule.accepts_signer(*s));
                if self.tags.len() > 4 || ok && !rule.eval(&set(signers)) {
                    return Ok(());
                }
                let parent = self.par(parent);
                let s = get_signers(signers);
                let res = self.view().create_tag(
                    &name(*n),
                    parent.clone(),
                    rule.cond(),
                    &s.iter().collect::<Vec<_>>(),
                );
                match res {
                    Err(e) => ensure!(!ok, "a tag can't be created: {e}"),
                    Ok(t) => {
                        ensure!(ok, "a tag has been created with a wrong signer");
                        self.tags.insert(t.blob_id(), (name(*n), parent));
                    }
                }
            }
            Op::Switch => {
                self.cur = 1 - self.cur;
                self.refresh().await?;
            }
            Op::Reopen(k) => {
                let (ds, rid) = (self.ds.clone(), self.rid.clone());
                let v = match k % 3 {
                    0 => RealmView::new_from_id(ds, rid).await,
                    1 => self.ds.get_realm_view(rid).await,
                    _ => RealmView::new_first(ds).await,
                }
                .map_err(|e| format!("couldn't open the realm: {e}"))?;
                ensure_eq!(v.pages.root, self.services["http"], "root page");
                ensure_eq!(v.tags.root, self.services["tag"], "root tag");
                ensure_eq!(
                    v.get_root_page().map(|p| p.blob_id()),
                    Some(self.services["http"].clone()),
                    "root page of a new view"
                );
                ensure!(v.get_root_tag().is_some(), "no root tag in a new view");
                self.views[self.cur] = v;
                self.refresh().await?;
            }
            Op::Service { name: n, page, signers } => {
                let id = self.page(*page);
                let ok = signs(&self.realm_rule, signers);
                let s = get_signers(signers);
                let s: Vec<&Signer> = s.iter().collect();
                let n = ["http", "blog", ""][*n as usize % 3];
                let res = match n {
                    "http" => self.view().set_realm_http(id.clone(), &s).await,
                    n => self.view().set_realm_service(n, id.clone(), &s).await,
                };
                match res {
                    Err(e) => ensure!(!ok, "a service can't be set: {e}"),
                    Ok(()) => {
                        ensure!(ok, "a service is set without a valid signature");
                        self.services.insert(n.into(), id);
                    }
                }
            }
            Op::UpdateRealm => {
                self.view().update_realm().await.map_err(|e| format!("updating the realm: {e}"))?;
            }
            Op::UpdateAll => self.refresh().await?,
            Op::Paths(l) => {
                let view = self.views[self.cur].clone();
                for (p, slash) in l {
                    let path: Vec<String> = p.iter().map(|i| name(*i)).collect();
                    let path = format!(
                        "{}{}{}",
                        ["/", "", "//"][*slash as usize % 3],
                        path.join("/"),
                        ["", "", "/"][*slash as usize / 3 % 3]
                    );
                    let (found, unique) = self.find(&view, &path);
                    self.check_path(&view, &path, &found, unique)?;
                }
                return Ok(());
            }
        }
        self.check().await
    }
}

fn with_cuckoos(view: &RealmView, l: &[BlobID]) -> Vec<BlobID> {
    l.iter()
        .flat_map(|id| {
            std::iter::once(id.clone())
                .chain(view.pages.cuckoos.get(id).cloned().unwrap_or_default())
        })
        .collect()
}

fn run_case(x: &In, c: &mut Case) -> TestResult {
    take_panics();
    let r: TestResult = block_on(async {
        let mut s = Sim::start(x).await?;
        let mut r = Ok(());
        for op in &x.ops {
            match tokio::time::timeout(Duration::from_secs(3600), s.op(op)).await {
                Ok(Ok(())) => continue,
                Ok(e) => r = e,
                Err(_) => r = Err(format!("{op:?} doesn't end")),
            }
            break;
        }
        let view = &s.views[s.cur];
        let deep = s
            .pages
            .keys()
            .filter_map(|id| view.get_full_path_id(id).ok())
            .map(|p| p.matches('/').count())
            .max()
            .unwrap_or(0);
        let updated = s.versions.values().filter(|v| **v > 0).count();
        c.nontrivial(s.pages.len() > 2 && updated > 0 && deep > 1);
        c.label_if(deep > 2, "a path of 3 parts or more");
        c.label_if(view.pages.cuckoos.values().any(|l| !l.is_empty()), "with attached pages");
        c.count("pages", s.pages.len() as u64);
        s.views.clear();
        unlink(&mut s.ds.broker).await;
        unlink(&mut s.router).await;
        unlink(&mut s.timer).await;
        r
    });
    r?;
    let p = take_panics();
    ensure!(p.is_empty(), "panics: {p:?}");
    Ok(())
}

/// Rules with badges, as they are stored in a realm.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Link {
    Key(u8),
    Badge(u8, u8),
    NofT(u32, Vec<Link>),
    Pass,
    Fail,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rules {
    /// The rule of each badge, and how often it has been updated
    badges: Vec<(Link, u8)>,
    rule: Link,
}

fn link() -> BoxedStrategy<Link> {
    let leaf = prop_oneof![
        3 => (0..KEYS).prop_map(Link::Key),
        4 => (any::<u8>(), any::<u8>()).prop_map(|(b, k)| Link::Badge(b, k)),
        1 => Just(Link::Pass),
        1 => Just(Link::Fail),
    ];
    leaf.prop_recursive(2, 8, 3, |inner| {
        (0u32..4, prop::collection::vec(inner, 0..4)).prop_map(|(n, l)| Link::NofT(n, l))
    })
    .boxed()
}

fn rules_strat() -> BoxedStrategy<Rules> {
    (prop::collection::vec((link(), 0u8..3), 0..5), link())
        .prop_map(|(badges, rule)| Rules { badges, rule })
        .boxed()
}

struct Badges {
    rid: RealmID,
    flos: Vec<FloBadge>,
    links: Vec<Link>,
}

impl Badges {
    fn id(&self, b: u8) -> FloID {
        // The last one doesn't exist
        match self.flos.get(b as usize % (self.flos.len() + 1)) {
            Some(f) => f.flo_id(),
            None => u256(77).into(),
        }
    }

    fn spec(&self, b: u8, k: u8) -> VersionSpec<flcrypto::access::BadgeID> {
        let id = (*self.id(b)).into();
        match k % 3 {
            0 => VersionSpec::Minimal(id, k as u32 / 64),
            1 => VersionSpec::Exact(id, k as u32 / 64),
            _ => VersionSpec::Maximal(id, k as u32 / 64),
        }
    }

    fn cond(&self, l: &Link) -> ConditionLink {
        match l {
            Link::Key(k) => ConditionLink::Verifier(verifier(*k).get_id()),
            Link::Badge(b, k) => ConditionLink::Badge(self.spec(*b, *k)),
            Link::NofT(n, l) => ConditionLink::NofT(*n, l.iter().map(|l| self.cond(l)).collect()),
            Link::Pass => ConditionLink::Pass,
            Link::Fail => ConditionLink::Fail,
        }
    }

    /// The full rule, if it doesn't contain itself
    fn full(&self, l: &Link, open: &[usize]) -> Option<Condition> {
        Some(match l {
            Link::Key(UNKNOWN) => Condition::NotAvailable,
            Link::Key(k) => Condition::Verifier(verifier(*k)),
            Link::Badge(b, k) => {
                let i = *b as usize % (self.flos.len() + 1);
                if open.contains(&i) {
                    return None;
                }
                match self.flos.get(i) {
                    None => Condition::NotAvailable,
                    Some(f) => {
                        let open = [open, &[i]].concat();
                        let condition = Box::new(self.full(&self.links[i], &open)?);
                        Condition::Badge(
                            self.spec(*b, *k),
                            Badge { id: (*f.flo_id()).into(), version: f.version(), condition },
                        )
                    }
                }
            }
            Link::NofT(n, l) => Condition::NofT(
                *n,
                l.iter().map(|l| self.full(l, open)).collect::<Option<Vec<_>>>()?,
            ),
            Link::Pass => Condition::Pass,
            Link::Fail => Condition::Fail,
        })
    }
}

fn run_rules(x: &Rules, c: &mut Case) -> TestResult {
    take_panics();
    let r: TestResult = block_on(async {
        let mut router = BrokerDHTRouter::new();
        let mut timer = BrokerTimer::new();
        let mut ds = DHTStorage::start(
            Box::new(MemDs::default()),
            DHTConfig::default(u256(1)),
            timer.clone(),
            router.clone(),
        )
        .await
        .unwrap();
        let view = RealmViewBuilder::new(ds.clone(), "realm".into(), Condition::Pass, vec![])
            .root_http("root".into(), "".into(), None, Condition::Pass, vec![])
            .root_tag("tags".into(), None, Condition::Pass, vec![])
            .build()
            .await
            .map_err(|e| format!("couldn't create the realm: {e}"))?;
        let rid = view.realm.realm_id();
        drop(view);
        for k in 0..UNKNOWN {
            ds.store_flo(FloVerifier::new(rid.clone(), verifier(k)).into()).unwrap();
        }
        let mut b = Badges { rid: rid.clone(), flos: vec![], links: vec![] };
        for (l, _) in &x.badges {
            b.flos.push(
                FloBadge::from_type(
                    b.rid.clone(),
                    Condition::Pass,
                    BadgeCond::new(ConditionLink::Fail),
                    &[],
                )
                .unwrap(),
            );
            b.links.push(l.clone());
        }
        for (i, (l, n)) in x.badges.iter().enumerate() {
            ds.store_flo(b.flos[i].clone().into()).unwrap();
            let link = b.cond(l);
            for _ in 0..=*n {
                let f = b.flos[i]
                    .edit_data_signers(Condition::Pass, |c| *c = BadgeCond::new(link.clone()), &[])
                    .unwrap();
                b.flos[i] = f.clone();
                ds.store_flo(f.into()).unwrap();
            }
        }
        let link = b.cond(&x.rule);
        let want = b.full(&x.rule, &[]);
        let f = ds.convert(&link, &rid);
        let Ok(have) = tokio::time::timeout(Duration::from_secs(3600), f).await else {
            return Err("resolving a rule doesn't end".into());
        };
        c.nontrivial(format!("{:?}", x.rule).contains("Badge") && !x.badges.is_empty());
        match want {
            Some(want) => ensure_eq!(have, want, "resolved rule"),
            None => c.label("a badge which contains itself"),
        }
        unlink(&mut ds.broker).await;
        unlink(&mut router).await;
        unlink(&mut timer).await;
        Ok(())
    });
    r?;
    let p = take_panics();
    ensure!(p.is_empty(), "panics: {p:?}");
    Ok(())
}

/// Updates a page of two keys, of which one isn't available, and says whether it's broken then.
fn partial_update_breaks() -> bool {
    let root = Rule::NofT(1, vec![Rule::Key(0), Rule::Key(UNKNOWN)]);
    block_on(async {
        let x = In { realm: Rule::Key(0), root: Rule::Key(0), cuckoo: false, ops: vec![] };
        let mut s = Sim::start(&x).await.unwrap();
        let k = signer(0);
        let view = s.view();
        let page = view
            .create_http("a", "".into(), None, root.cond(), &[&k])
            .await
            .unwrap();
        let r = view
            .update_page(&page.blob_id(), |p| p.set_path("b".into()), &[&k])
            .await;
        r.is_ok_and(|p| !p.verify().is_ok_and(|v| v))
    })
}

pub fn run_pages(ctx: &mut Ctx) {
    ctx.assume("views are updated before they change pages which another view changed; page names contain no '/'");
    ctx.sub(
        Spec {
            name: "pages",
            rule: "more than 2 pages, at least one of them updated and one below another one",
            quick: 6000,
            thorough: 400000,
            max_s: 150,
        },
        vec![],
        strat,
        run_case,
    );
    ctx.sub(
        Spec {
            name: "rules",
            rule: "a rule with a badge, and at least one badge in the realm",
            quick: 5000,
            thorough: 300000,
            max_s: 60,
        },
        vec![],
        rules_strat,
        run_rules,
    );
    ctx.probe_known(
        "partial-rule-update",
        serde_json::json!("a page with the rule NofT(1, [Key0, Key3]), where the verifier of Key3 isn't stored, is updated by Key0"),
        partial_update_breaks,
    );
}
