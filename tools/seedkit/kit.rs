//! A few replicas of the real library, exchanging events by hand.
#![allow(dead_code, unused_imports)]
pub use beekem::{encrypted::EncryptedContent, operation::CgkaOperation};
pub use future_form::{FutureForm, Sendable};
pub use futures::{executor::block_on, lock::Mutex as AMutex};
pub use keyhive_core::{
    access::Access,
    event::static_event::StaticEvent,
    keyhive::Keyhive,
    listener::{cgka::CgkaListener, membership::MembershipListener, prekey::PrekeyListener},
    principal::{
        agent::Agent,
        document::{id::DocumentId, Document},
        group::{delegation::Delegation, delegation::StaticDelegation, id::GroupId, revocation::Revocation, revocation::StaticRevocation, Group},
        identifier::Identifier,
        individual::id::IndividualId,
        individual::op::{add_key::AddKeyOp, rotate_key::RotateKeyOp, KeyOp},
        membered::Membered,
        peer::Peer as KPeer,
        public::Public,
    },
    store::ciphertext::memory::MemoryCiphertextStore,
};
pub use keyhive_crypto::{digest::Digest, share_key::{ShareKey, ShareSecretKey}, signed::Signed, signer::{memory::MemorySigner, sync_signer::try_sign_basic}, verifiable::Verifiable};
pub use nonempty::{nonempty, NonEmpty};
pub use std::{collections::{BTreeMap, BTreeSet, HashMap, HashSet}, sync::{Arc, Mutex}};

pub type Ref = [u8; 32];
pub type Store = MemoryCiphertextStore<Ref, Vec<u8>>;
pub type K = Keyhive<Sendable, MemorySigner, Ref, Vec<u8>, Store, Rec, rand::rngs::OsRng>;
pub type Ag = Agent<Sendable, MemorySigner, Ref, Rec>;
pub type Mb = Membered<Sendable, MemorySigner, Ref, Rec>;
pub type Doc = Arc<AMutex<Document<Sendable, MemorySigner, Ref, Rec>>>;
pub type Grp = Arc<AMutex<Group<Sendable, MemorySigner, Ref, Rec>>>;
pub type Ev = StaticEvent<Ref>;

/// Records what the library reports, in order.
#[derive(Clone, Default)]
pub struct Rec(pub Arc<Mutex<Vec<Ev>>>);
impl Rec {
    fn push<'a>(&'a self, e: Ev) -> <Sendable as FutureForm>::Future<'a, ()> {
        <Sendable as FutureForm>::from_future(async move { self.0.lock().unwrap().push(e) })
    }
}
impl PrekeyListener<Sendable> for Rec {
    fn on_prekeys_expanded<'a>(&'a self, k: &'a Arc<Signed<AddKeyOp>>) -> <Sendable as FutureForm>::Future<'a, ()> {
        self.push(StaticEvent::PrekeysExpanded(Box::new((**k).clone())))
    }
    fn on_prekey_rotated<'a>(&'a self, k: &'a Arc<Signed<RotateKeyOp>>) -> <Sendable as FutureForm>::Future<'a, ()> {
        self.push(StaticEvent::PrekeyRotated(Box::new((**k).clone())))
    }
}
impl CgkaListener<Sendable> for Rec {
    fn on_cgka_op<'a>(&'a self, k: &'a Arc<Signed<CgkaOperation>>) -> <Sendable as FutureForm>::Future<'a, ()> {
        self.push(StaticEvent::CgkaOperation(Box::new((**k).clone())))
    }
}
impl MembershipListener<Sendable, MemorySigner, Ref> for Rec {
    fn on_delegation<'a>(&'a self, d: &'a Arc<Signed<Delegation<Sendable, MemorySigner, Ref, Rec>>>) -> <Sendable as FutureForm>::Future<'a, ()> {
        self.push(StaticEvent::Delegated((**d).clone().map(Into::into)))
    }
    fn on_revocation<'a>(&'a self, r: &'a Arc<Signed<Revocation<Sendable, MemorySigner, Ref, Rec>>>) -> <Sendable as FutureForm>::Future<'a, ()> {
        self.push(StaticEvent::Revoked((**r).clone().map(Into::into)))
    }
}

pub struct P {
    pub kh: K,
    pub rec: Rec,
    pub signer: MemorySigner,
    pub store: Store,
    pub id: Identifier,
}

pub fn peer() -> P {
    let signer = MemorySigner::generate(&mut rand::rngs::OsRng);
    let rec = Rec::default();
    let store = Store::new();
    let kh = block_on(K::generate(signer.clone(), store.clone(), rec.clone(), rand::rngs::OsRng)).expect("generate");
    let id = kh.id().into();
    P { kh, rec, signer, store, id }
}

pub fn peers(n: usize) -> Vec<P> {
    let ps: Vec<P> = (0..n).map(|_| peer()).collect();
    for i in 0..n {
        for j in 0..n {
            if i != j {
                introduce(&ps[i], &ps[j]);
            }
        }
    }
    ps
}

/// `to` learns all prekeys of `from`.
pub fn introduce(from: &P, to: &P) {
    let ind = block_on(from.kh.individual());
    let ops: Vec<_> = block_on(async { ind.lock().await.prekey_ops().values().cloned().collect() });
    for op in ops {
        block_on(to.kh.receive_prekey_op(&op)).expect("prekey op");
    }
}

impl P {
    pub fn events(&self) -> Vec<Ev> {
        self.rec.0.lock().unwrap().clone()
    }
    /// Everything `from` has reported so far; returns how many events stay pending.
    pub fn pull(&self, from: &P) -> usize {
        self.give(from.events())
    }
    pub fn give(&self, evs: Vec<Ev>) -> usize {
        block_on(self.kh.ingest_unsorted_static_events(evs)).len()
    }
    pub fn agent(&self, id: Identifier) -> Ag {
        block_on(self.kh.get_agent(id)).expect("known agent")
    }
    pub fn mb(&self, id: Identifier) -> Mb {
        self.agent(id).as_membered().expect("group or document")
    }
    pub fn doc(&self, id: Identifier) -> Doc {
        block_on(self.kh.get_document(DocumentId::from(id))).expect("known document")
    }
    pub fn group(&self, id: Identifier) -> Grp {
        block_on(self.kh.get_group(GroupId::from(id))).expect("known group")
    }
    pub fn new_group(&self) -> Identifier {
        let g = block_on(self.kh.generate_group(vec![])).expect("generate_group");
        let id = block_on(async { g.lock().await.id() });
        id
    }
    pub fn new_doc(&self) -> Identifier {
        let d = block_on(self.kh.generate_doc(vec![], nonempty![[7u8; 32]])).expect("generate_doc");
        let id = block_on(async { d.lock().await.id() });
        id
    }
    pub fn add(&self, who: Identifier, to: Identifier, can: Access) {
        block_on(self.kh.add_member(self.agent(who), &self.mb(to), can, &[])).map(|_| ()).expect("add_member")
    }
    pub fn try_add(&self, who: Identifier, to: Identifier, can: Access) -> bool {
        block_on(self.kh.add_member(self.agent(who), &self.mb(to), can, &[])).is_ok()
    }
    pub fn revoke(&self, who: Identifier, from: Identifier, retain: bool) {
        block_on(self.kh.revoke_member(who, retain, &self.mb(from))).map(|_| ()).expect("revoke_member")
    }
    pub fn members(&self, of: Identifier) -> BTreeSet<Identifier> {
        block_on(self.mb(of).members()).into_keys().collect()
    }
    pub fn caps(&self, of: Identifier) -> BTreeMap<Identifier, Access> {
        let m = self.mb(of);
        self.members(of).into_iter().filter_map(|i| block_on(m.get_capability(&i)).map(|c| (i, c.payload().can()))).collect()
    }
    pub fn transitive(&self, of: Identifier) -> BTreeMap<Identifier, Access> {
        block_on(self.mb(of).transitive_members()).into_iter().map(|(k, (_, a))| (k, a)).collect()
    }
    pub fn cgka_size(&self, of: Identifier) -> u32 {
        let d = self.doc(of);
        block_on(async { d.lock().await.cgka().expect("cgka").group_size() })
    }
    pub fn encrypt(&self, doc: Identifier, r: Ref, text: &[u8]) -> EncryptedContent<Vec<u8>, Ref> {
        let e = block_on(self.kh.try_encrypt_content(self.doc(doc), &r, &vec![], text)).expect("encrypt");
        let e = e.encrypted_content();
        EncryptedContent::new(e.nonce, e.ciphertext.clone(), e.pcs_key_hash, e.pcs_update_op_hash, e.content_ref, e.pred_refs)
    }
    pub fn decrypt(&self, doc: Identifier, e: &EncryptedContent<Vec<u8>, Ref>) -> Option<Vec<u8>> {
        block_on(self.kh.try_decrypt_content(self.doc(doc), e)).ok()
    }
    pub fn rotate(&self, doc: Identifier) {
        block_on(self.kh.force_pcs_update(self.doc(doc))).map(|_| ()).expect("force_pcs_update")
    }
}

/// Everybody gets everything.
pub fn sync(ps: &[P]) {
    for a in ps {
        for b in ps {
            if a.id != b.id {
                b.pull(a);
            }
        }
    }
}

pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILS: {what}");
        std::process::exit(1);
    }
}
