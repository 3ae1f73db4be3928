//! Several real `Keyhive` replicas driven by a seeded script, plus the views
//! that the monitors compare.
use crate::check::Ep;
use crate::rt::*;
use beekem::operation::CgkaOperation;
use future_form::{FutureForm, Sendable};
use keyhive_core::access::Access;
use keyhive_core::event::static_event::StaticEvent;
use keyhive_core::keyhive::Keyhive;
use keyhive_core::listener::{cgka::CgkaListener, membership::MembershipListener, prekey::PrekeyListener};
use keyhive_core::principal::agent::Agent;
use keyhive_core::principal::document::id::DocumentId;
use keyhive_core::principal::group::{delegation::Delegation, id::GroupId, revocation::Revocation};
use keyhive_core::principal::identifier::Identifier;
use keyhive_core::principal::individual::id::IndividualId;
use keyhive_core::principal::individual::op::{add_key::AddKeyOp, rotate_key::RotateKeyOp, KeyOp};
use keyhive_core::principal::membered::Membered;
use keyhive_core::principal::peer::Peer as KhPeer;
use keyhive_core::store::ciphertext::memory::MemoryCiphertextStore;
use keyhive_crypto::digest::Digest;
use keyhive_crypto::signed::Signed;
use keyhive_crypto::signer::memory::MemorySigner;
use nonempty::NonEmpty;
use rand::seq::SliceRandom;
use rand::Rng;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

pub type Ref = [u8; 32];
pub type Store = MemoryCiphertextStore<Ref, Vec<u8>>;
pub type K = Keyhive<Sendable, MemorySigner, Ref, Vec<u8>, Store, Rec, Csprng>;
pub type Ag = Agent<Sendable, MemorySigner, Ref, Rec>;
pub type Mb = Membered<Sendable, MemorySigner, Ref, Rec>;
pub type KPeer = KhPeer<Sendable, MemorySigner, Ref, Rec>;
pub type Ev = StaticEvent<Ref>;
pub type H = [u8; 32];
pub type Doc = keyhive_core::principal::document::Document<Sendable, MemorySigner, Ref, Rec>;
pub type Grp = keyhive_core::principal::group::Group<Sendable, MemorySigner, Ref, Rec>;

pub fn ev_hash(e: &Ev) -> H {
    *blake3::hash(&bincode::serialize(e).expect("event serialises")).as_bytes()
}

/// Listener that records what it is told, in order.
#[derive(Clone, Default)]
pub struct Rec {
    pub log: Arc<Mutex<Vec<Ev>>>,
    /// Yield inside every callback (used by the concurrency workloads).
    pub yields: Arc<AtomicBool>,
}

impl std::fmt::Debug for Rec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Rec")
    }
}

impl Rec {
    fn push<'a>(&'a self, e: Ev) -> <Sendable as FutureForm>::Future<'a, ()> {
        <Sendable as FutureForm>::from_future(async move {
            self.log.lock().unwrap().push(e);
            if self.yields.load(Ordering::Relaxed) {
                YieldNow(false).await;
            }
        })
    }
    pub fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.log.lock().unwrap())
    }
    pub fn len(&self) -> usize {
        self.log.lock().unwrap().len()
    }
}

impl PrekeyListener<Sendable> for Rec {
    fn on_prekeys_expanded<'a>(&'a self, k: &'a Arc<Signed<AddKeyOp>>) -> <Sendable as FutureForm>::Future<'a, ()> {
        self.push(StaticEvent::PrekeysExpanded(Box::new((**k).clone())))
    }
    fn on_prekey_rotated<'a>(&'a self, k: &'a Arc<Signed<RotateKeyOp>>) -> <Sendable as FutureForm>::Future<'a, ()> {
        self.push(StaticEvent::PrekeyRotated(Box::new((**k).clone())))
    }
}
impl CgkaListener<Sendable> for Rec {
    fn on_cgka_op<'a>(&'a self, k: &'a Arc<Signed<CgkaOperation>>) -> <Sendable as FutureForm>::Future<'a, ()> {
        self.push(StaticEvent::CgkaOperation(Box::new((**k).clone())))
    }
}
impl MembershipListener<Sendable, MemorySigner, Ref> for Rec {
    fn on_delegation<'a>(&'a self, d: &'a Arc<Signed<Delegation<Sendable, MemorySigner, Ref, Rec>>>) -> <Sendable as FutureForm>::Future<'a, ()> {
        self.push(StaticEvent::Delegated((**d).clone().map(Into::into)))
    }
    fn on_revocation<'a>(&'a self, r: &'a Arc<Signed<Revocation<Sendable, MemorySigner, Ref, Rec>>>) -> <Sendable as FutureForm>::Future<'a, ()> {
        self.push(StaticEvent::Revoked((**r).clone().map(Into::into)))
    }
}

pub struct Replica {
    pub kh: K,
    pub rec: Rec,
    pub signer: MemorySigner,
    pub id: Identifier,
    pub store: Store,
    pub rng: Csprng,
    /// Index in the recorder's log up to which events have been collected.
    pub collected: usize,
    /// Hashes of all events this replica produced or was given.
    pub has: BTreeSet<H>,
    /// Prekey operations made together with the identity.
    pub initial: BTreeSet<H>,
}

fn initial(kh: &K) -> BTreeSet<H> {
    let public = keyhive_core::principal::public::Public.individual();
    let public = public.prekey_ops().values().map(|o| ev_hash(&key_event(o)));
    block_on(async { kh.individual().await.lock().await.prekey_ops().values().map(|o| ev_hash(&key_event(o))).chain(public).collect() })
}

pub fn public() -> Identifier {
    keyhive_core::principal::public::Public.id()
}

pub fn key_event(o: &KeyOp) -> Ev {
    match o {
        KeyOp::Add(a) => StaticEvent::PrekeysExpanded(Box::new((**a).clone())),
        KeyOp::Rotate(a) => StaticEvent::PrekeyRotated(Box::new((**a).clone())),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Kind {
    Group,
    Doc,
}

#[derive(Clone, Debug)]
pub struct Ent {
    /// The replica that created it.
    pub by: usize,
    pub id: Identifier,
    pub kind: Kind,
    pub name: String,
}

pub struct World {
    pub peers: Vec<Replica>,
    pub ents: Vec<Ent>,
    /// Every event any replica has published, in order of first publication.
    pub all: Vec<(H, Ev)>,
    pub by_hash: BTreeMap<H, usize>,
    pub names: HashMap<Identifier, String>,
    pub next_ref: u64,
    /// Local calls that did not do what they say.
    pub complaints: Vec<String>,
    /// The content every document started from.
    pub heads: BTreeMap<Identifier, BTreeSet<Ref>>,
    /// Documents start from several heads, and membership changes refer to documents.
    pub pins: bool,
}

thread_local! { static QUIET: Cell<bool> = const { Cell::new(false) }; }

pub fn acc(i: u32) -> Access {
    [Access::Relay, Access::Read, Access::Edit, Access::Admin][(i % 4) as usize]
}

impl World {
    pub fn new(ep: &mut Ep, n: usize) -> Self {
        let mut w = World { peers: vec![], ents: vec![], all: vec![], by_hash: BTreeMap::new(), names: HashMap::new(), next_ref: 1, complaints: vec![], heads: BTreeMap::new(), pins: false };
        w.names.insert(public(), "public".into());
        for i in 0..n {
            w.add_peer(ep, i as u64);
        }
        w
    }

    pub fn add_peer(&mut self, ep: &mut Ep, salt: u64) -> usize {
        let rng = ep.csprng(1000 + salt);
        let mut r2 = rng.clone();
        let signer = MemorySigner::generate(&mut r2);
        let store = Store::new();
        let rec = Rec::default();
        let kh = block_on(K::generate(signer.clone(), store.clone(), rec.clone(), rng.clone())).expect("generate");
        let id: Identifier = kh.id().into();
        let i = self.peers.len();
        self.names.insert(id, format!("p{i}"));
        let initial = initial(&kh);
        self.peers.push(Replica { initial, kh, rec, signer, id, store, rng, collected: 0, has: BTreeSet::new() });
        i
    }

    /// A new device of `p`'s owner: same signer, prekey secrets restored from a
    /// backup, nothing else. Returns its index.
    pub fn reinstall(&mut self, ep: &mut Ep, p: usize, salt: u64) -> usize {
        let rng = ep.csprng(salt);
        let signer = self.peers[p].signer.clone();
        let store = Store::new();
        let rec = Rec::default();
        let kh = block_on(K::generate(signer.clone(), store.clone(), rec.clone(), rng.clone())).expect("generate");
        let secrets = block_on(self.peers[p].kh.export_prekey_secrets()).expect("export_prekey_secrets");
        block_on(kh.import_prekey_secrets(&secrets)).expect("import_prekey_secrets");
        let id = self.peers[p].id;
        let initial = initial(&kh);
        self.peers.push(Replica { initial, kh, rec, signer, id, store, rng, collected: 0, has: BTreeSet::new() });
        self.peers.len() - 1
    }

    pub fn name(&self, id: &Identifier) -> String {
        self.names.get(id).cloned().unwrap_or_else(|| format!("?{}", &format!("{id}")[..6.min(format!("{id}").len())]))
    }

    pub fn fresh_ref(&mut self) -> Ref {
        self.next_ref += 1;
        *blake3::hash(&self.next_ref.to_le_bytes()).as_bytes()
    }

    /// Everybody learns everybody's prekeys.
    pub fn introduce_all(&mut self) {
        for i in 0..self.peers.len() {
            for j in 0..self.peers.len() {
                if i != j {
                    self.introduce(i, j);
                }
            }
        }
        for i in 0..self.peers.len() {
            self.collect(i);
        }
    }
    /// Peers know each other by one contact card each, as a user would start.
    pub fn introduce_by_cards(&mut self, ep: &mut Ep) {
        for i in 0..self.peers.len() {
            for j in 0..self.peers.len() {
                if i != j {
                    let card = if ep.rng.gen_bool(0.5) { block_on(self.peers[i].kh.get_existing_contact_card()) } else { block_on(self.peers[i].kh.contact_card()).expect("contact_card") };
                    block_on(self.peers[j].kh.receive_contact_card(&card)).expect("a contact card is accepted");
                }
            }
        }
        for i in 0..self.peers.len() {
            self.collect(i);
        }
    }
    /// `to` receives `from`'s current prekey operations.
    pub fn introduce(&mut self, from: usize, to: usize) {
        let ind = block_on(self.peers[from].kh.individual());
        let ops: Vec<_> = block_on(async { ind.lock().await.prekey_ops().values().cloned().collect() });
        for op in ops {
            block_on(self.peers[to].kh.receive_prekey_op(&op)).expect("own prekey operation is accepted");
        }
    }

    /// Take what replica `p`'s listener has been told since the last call into the global log.
    pub fn collect(&mut self, p: usize) -> Vec<H> {
        let new: Vec<Ev> = {
            let l = self.peers[p].rec.log.lock().unwrap();
            l[self.peers[p].collected..].to_vec()
        };
        self.peers[p].collected += new.len();
        let mut out = vec![];
        for e in new {
            out.push(self.publish(p, e));
        }
        out
    }

    pub fn publish(&mut self, p: usize, e: Ev) -> H {
        let h = ev_hash(&e);
        self.peers[p].has.insert(h);
        if !self.by_hash.contains_key(&h) {
            self.by_hash.insert(h, self.all.len());
            self.all.push((h, e));
        }
        h
    }

    pub fn ev(&self, h: &H) -> &Ev {
        &self.all[self.by_hash[h]].1
    }

    pub fn agent(&self, p: usize, id: Identifier) -> Option<Ag> {
        block_on(self.peers[p].kh.get_agent(id))
    }

    pub fn membered(&self, p: usize, id: Identifier) -> Option<Mb> {
        self.agent(p, id)?.as_membered()
    }

    pub fn doc(&self, p: usize, id: Identifier) -> Option<Arc<futures::lock::Mutex<Doc>>> {
        block_on(self.peers[p].kh.get_document(DocumentId::from(id)))
    }

    pub fn new_group(&mut self, p: usize, coparents: Vec<KPeer>) -> Identifier {
        let g = block_on(self.peers[p].kh.generate_group(coparents)).expect("generate_group");
        let id: Identifier = block_on(async { g.lock().await.id() });
        let name = format!("g{}", self.ents.len());
        self.names.insert(id, name.clone());
        self.ents.push(Ent { by: p, id, kind: Kind::Group, name });
        self.collect(p);
        id
    }

    pub fn new_doc(&mut self, p: usize, coparents: Vec<KPeer>) -> Result<Identifier, String> {
        let mut heads = NonEmpty::new(self.fresh_ref());
        if self.pins {
            for i in 0..self.next_ref % 4 {
                let again = i == 2;
                heads.push(if again { heads.head } else { self.fresh_ref() });
            }
        }
        let d = block_on(self.peers[p].kh.generate_doc(coparents, heads.clone())).map_err(|e| format!("generate_doc: {e}"))?;
        let id: Identifier = block_on(async { d.lock().await.id() });
        self.heads.insert(id, heads.into_iter().collect());
        let name = format!("d{}", self.ents.len());
        self.names.insert(id, name.clone());
        self.ents.push(Ent { by: p, id, kind: Kind::Doc, name });
        self.collect(p);
        Ok(id)
    }

    /// Give `evs` to replica `p` in one call; returns what stays pending.
    pub fn deliver(&mut self, p: usize, evs: &[H]) -> Vec<H> {
        let evs: Vec<Ev> = evs.iter().map(|h| self.ev(h).clone()).collect();
        for e in &evs {
            self.peers[p].has.insert(ev_hash(e));
        }
        let left = block_on(self.peers[p].kh.ingest_unsorted_static_events(evs));
        self.collect(p);
        left.iter().map(|e| ev_hash(e.as_ref())).collect()
    }

    /// Deliver everything `p` lacks, shuffled, duplicated and batched.
    pub fn deliver_missing(&mut self, ep: &mut Ep, p: usize, hostile: bool) -> Vec<H> {
        let mut miss: Vec<H> = self.all.iter().map(|(h, _)| *h).filter(|h| !self.peers[p].has.contains(h)).collect();
        self.deliver_set(ep, p, &mut miss, hostile)
    }

    pub fn deliver_set(&mut self, ep: &mut Ep, p: usize, miss: &mut Vec<H>, hostile: bool) -> Vec<H> {
        if hostile {
            // duplicates, including of things it already has
            for _ in 0..ep.rng.gen_range(0..3) {
                if let Some((h, _)) = self.all.choose(&mut ep.rng) {
                    miss.push(*h);
                }
            }
            miss.shuffle(&mut ep.rng);
        }
        let mut left = vec![];
        let mut i = 0;
        while i < miss.len() {
            let n = if hostile {
                match ep.rng.gen_range(0..3) {
                    0 => 1,
                    1 => ep.rng.gen_range(1..=6),
                    _ => miss.len(),
                }
            } else {
                miss.len()
            };
            let j = (i + n).min(miss.len());
            left = self.deliver(p, &miss[i..j].to_vec());
            i = j;
        }
        left
    }

    pub fn pending(&self, p: usize) -> BTreeSet<H> {
        let s = block_on(self.peers[p].kh.pending_event_hashes());
        s.into_iter().map(|d| *d.raw.as_bytes()).collect()
    }
}

/// What one replica says about one group or document.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct View {
    /// member -> its delegations (digest, access)
    pub members: BTreeMap<Identifier, BTreeSet<(H, Access)>>,
    pub caps: BTreeMap<Identifier, Access>,
    pub transitive: BTreeMap<Identifier, Access>,
    pub revoked: BTreeMap<Identifier, Access>,
    pub cgka_size: Option<u32>,
    pub cgka_members: BTreeSet<Identifier>,
    pub cgka_ops: BTreeSet<H>,
    pub has_key: bool,
}

pub fn dlg_hash<T: serde::Serialize + std::fmt::Debug>(d: &Signed<T>) -> H {
    *Digest::hash(d).raw.as_bytes()
}

impl World {
    pub fn view(&self, p: usize, id: Identifier) -> Option<View> {
        let m = self.membered(p, id)?;
        let mut v = View::default();
        let members = block_on(m.members());
        for (mid, ds) in members.iter() {
            v.members.insert(*mid, ds.iter().map(|d| (dlg_hash(d.as_ref()), d.payload().can())).collect());
            if let Some(c) = block_on(m.get_capability(mid)) {
                v.caps.insert(*mid, c.payload().can());
            }
        }
        for (mid, (_, a)) in block_on(m.transitive_members()) {
            v.transitive.insert(mid, a);
        }
        let rv = match &m {
            Membered::Group(_, g) => block_on(async { g.lock().await.revoked_members() }),
            Membered::Document(_, d) => block_on(async { d.lock().await.revoked_members() }),
        };
        for (mid, (_, a)) in rv {
            v.revoked.insert(mid, a);
        }
        if let Membered::Document(_, d) = &m {
            block_on(async {
                let mut l = d.lock().await;
                if let Ok(ops) = l.cgka_ops() {
                    for e in &ops {
                        for op in e.iter() {
                            v.cgka_ops.insert(ev_hash(&StaticEvent::CgkaOperation(Box::new((**op).clone()))));
                        }
                    }
                }
                if let Ok(c) = l.cgka_mut() {
                    // also makes it replay merged concurrent operations
                    v.has_key = c.has_pcs_key() && c.try_pcs_key_hash().is_ok();
                    // removing a stranger changes nothing, but makes the copy
                    // replay the concurrent operations it has merged
                    let mut c = c.clone();
                    let s = &self.peers[p].signer;
                    let stranger = ed25519_dalek::SigningKey::from_bytes(&[7; 32]).verifying_key();
                    let _ = c.remove::<Sendable, _>(IndividualId::from(Identifier::from(stranger)), s).await;
                    v.cgka_size = Some(c.group_size());
                    for k in self.names.keys() {
                        match c.clone().remove::<Sendable, _>(IndividualId::from(*k), s).await {
                            Ok(None) => {}
                            _ => {
                                v.cgka_members.insert(*k);
                            }
                        }
                    }
                }
            });
        }
        Some(v)
    }

    pub fn show(&self, v: &View) -> String {
        let m: Vec<String> = v.members.iter().map(|(k, ds)| format!("{}:{}", self.name(k), ds.iter().map(|(h, a)| format!("{a}#{:02x}{:02x}", h[0], h[1])).collect::<Vec<_>>().join("+"))).collect();
        let t: Vec<String> = v.transitive.iter().map(|(k, a)| format!("{}:{a}", self.name(k))).collect();
        let r: Vec<String> = v.revoked.iter().map(|(k, a)| format!("{}:{a}", self.name(k))).collect();
        let c: Vec<String> = v.cgka_members.iter().map(|k| self.name(k)).collect();
        format!("members[{}] transitive[{}] revoked[{}] cgka[{} of {:?}, {} ops{}]", m.join(" "), t.join(" "), r.join(" "), c.join(" "), v.cgka_size, v.cgka_ops.len(), if v.has_key { ", key" } else { "" })
    }
    pub fn show_ev(&self, e: &Ev) -> String {
        let h = ev_hash(e);
        let t = match e {
            StaticEvent::PrekeysExpanded(o) => format!("expand by {}", self.name(&o.issuer.into())),
            StaticEvent::PrekeyRotated(o) => format!("rotate by {}", self.name(&o.issuer.into())),
            StaticEvent::CgkaOperation(o) => format!("cgka {} by {}", match &o.payload { CgkaOperation::Add { added_id, .. } => format!("add {}", self.name(&Identifier::from(ed25519_dalek::VerifyingKey::from_bytes(&added_id.to_bytes()).unwrap()))), CgkaOperation::Remove { .. } => "remove".into(), CgkaOperation::Update { .. } => "update".into() }, self.name(&o.issuer.into())),
            StaticEvent::Delegated(d) => format!("delegation {} to {} proof {:?} after {} revs", d.payload.can, self.name(&d.payload.delegate), d.payload.proof.map(|p| hx(p.raw.as_bytes())), d.payload.after_revocations.len()) + &format!(" by {} #{}", self.name(&d.issuer.into()), hx(&dlg_hash(d))),
            StaticEvent::Revoked(r) => format!("revocation of {} proof {:?} by {} #{}", hx(r.payload.revoke.raw.as_bytes()), r.payload.proof.map(|p| hx(p.raw.as_bytes())), self.name(&r.issuer.into()), hx(&dlg_hash(r))),
        };
        format!("{t} [{}]", hx(&h))
    }
    #[allow(dead_code)]
    pub fn group(&self, p: usize, id: Identifier) -> Option<Arc<futures::lock::Mutex<Grp>>> {
        block_on(self.peers[p].kh.get_group(GroupId::from(id)))
    }
}

pub fn hx(h: &[u8]) -> String {
    h[..3].iter().map(|b| format!("{b:02x}")).collect()
}
