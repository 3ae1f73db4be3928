//! Members of one key-agreement group, exchanging operations by hand.
#![allow(dead_code, unused_imports)]
pub use beekem::{cgka::Cgka, encrypted::{EncryptedContent, EncryptedSecret}, id::{MemberId, TreeId}, keys::ShareKeyMap, operation::CgkaOperation, pcs_key::PcsKey};
pub use future_form::Sendable;
pub use futures::executor::block_on;
pub use keyhive_crypto::{digest::Digest, share_key::{ShareKey, ShareSecretKey}, signed::Signed, signer::memory::MemorySigner, verifiable::Verifiable};
pub use serde::Deserialize;
pub use std::{collections::{BTreeMap, BTreeSet, HashSet}, sync::Arc};
use rand::rngs::OsRng;

pub type Op = Arc<Signed<CgkaOperation>>;
pub type Enc = EncryptedContent<Vec<u8>, [u8; 32]>;

pub struct M {
    pub id: MemberId,
    pub signer: MemorySigner,
    pub pk: ShareKey,
    pub sks: ShareKeyMap,
    pub c: Option<Cgka>,
}
pub struct G {
    pub doc: TreeId,
    pub ms: Vec<M>,
}

impl G {
    /// A group of `n`, created by the first; the others start from the same operations.
    pub fn new(n: usize) -> G {
        let doc = TreeId(MemorySigner::generate(&mut OsRng).verifying_key());
        let ms = (0..n)
            .map(|_| {
                let signer = MemorySigner::generate(&mut OsRng);
                let sk = ShareSecretKey::generate(&mut OsRng);
                let mut sks = ShareKeyMap::new();
                sks.insert(sk.share_key(), sk);
                M { id: MemberId(signer.verifying_key()), signer, pk: sk.share_key(), sks, c: None }
            })
            .collect();
        let mut g = G { doc, ms };
        let m = &g.ms[0];
        let c = block_on(Cgka::new::<Sendable, _>(doc, m.id, m.pk, &m.signer)).expect("new");
        let init = Arc::new(c.init_add_op());
        g.ms[0].c = Some(c.with_new_owner(g.ms[0].id, g.ms[0].sks.clone()).expect("owner"));
        for i in 1..n {
            g.give(i, &[init.clone()]);
        }
        for i in 1..n {
            let op = g.add(0, i);
            g.all(&[op]);
        }
        g
    }
    pub fn add(&mut self, by: usize, who: usize) -> Op {
        let (id, pk) = (self.ms[who].id, self.ms[who].pk);
        let m = &mut self.ms[by];
        Arc::new(block_on(m.c.as_mut().expect("state").add::<Sendable, _>(id, pk, &m.signer)).expect("add").expect("an operation"))
    }
    pub fn remove(&mut self, by: usize, who: usize) -> Op {
        let id = self.ms[who].id;
        let m = &mut self.ms[by];
        Arc::new(block_on(m.c.as_mut().expect("state").remove::<Sendable, _>(id, &m.signer)).expect("remove").expect("an operation"))
    }
    pub fn update(&mut self, by: usize) -> (PcsKey, Op) {
        let sk = ShareSecretKey::generate(&mut OsRng);
        let m = &mut self.ms[by];
        let (k, op) = block_on(m.c.as_mut().expect("state").update::<Sendable, _, _>(sk.share_key(), sk, &m.signer, &mut OsRng)).expect("update");
        (k, Arc::new(op))
    }
    pub fn encrypt(&mut self, by: usize, text: &[u8]) -> (Enc, Option<Op>) {
        let m = &mut self.ms[by];
        let (s, op) = block_on(m.c.as_mut().expect("state").new_app_secret_for::<Sendable, _, [u8; 32], _>(&[1; 32], text, &vec![], &m.signer, &mut OsRng)).expect("secret");
        (s.try_encrypt(text).expect("encrypt"), op.map(Arc::new))
    }
    pub fn decrypt(&mut self, by: usize, e: &Enc) -> Option<Vec<u8>> {
        let k = self.ms[by].c.as_mut().expect("state").decryption_key_for(e).ok()?;
        e.try_decrypt(k).ok()
    }
    pub fn give(&mut self, to: usize, ops: &[Op]) {
        for op in ops {
            let m = &mut self.ms[to];
            match m.c.as_mut() {
                Some(c) => {
                    c.merge_concurrent_operation(op.clone()).expect("merge");
                }
                None => {
                    let CgkaOperation::Add { added_id, pk, .. } = op.payload() else { panic!("not an add") };
                    m.c = Some(Cgka::new_from_init_add(self.doc, *added_id, *pk, (**op).clone()).and_then(|c| c.with_new_owner(m.id, m.sks.clone())).expect("init"));
                }
            }
        }
    }
    pub fn all(&mut self, ops: &[Op]) {
        for i in 0..self.ms.len() {
            self.give(i, ops);
        }
    }
    /// Every key that can be computed from `who`'s secret keys and the updates in `ops`.
    pub fn computable(&self, who: usize, ops: &[Op]) -> HashSet<Digest<PcsKey>> {
        #[derive(Deserialize)]
        struct Ver {
            #[allow(dead_code)]
            pk: ShareKey,
            sk: BTreeMap<beekem::treemath::TreeNodeIndex, EncryptedSecret<ShareSecretKey>>,
            encrypter_pk: ShareKey,
        }
        #[derive(Deserialize)]
        struct Store {
            versions: Vec<Ver>,
        }
        let mut cts = vec![];
        for op in ops {
            if let CgkaOperation::Update { new_path, .. } = op.payload() {
                for (_, store) in &new_path.path {
                    let s: Store = bincode::deserialize(&bincode::serialize(store).expect("store")).expect("store");
                    for v in s.versions {
                        cts.extend(v.sk.into_values().map(|e| (v.encrypter_pk, e)));
                    }
                }
            }
        }
        let keys = &self.ms[who].c.as_ref().expect("state").owner_sks;
        let mut known: BTreeMap<ShareKey, ShareSecretKey> = bincode::deserialize(&bincode::serialize(keys).expect("keys")).expect("keys");
        loop {
            let before = known.len();
            for (enc, e) in &cts {
                let sym = match (known.get(&e.paired_pk), known.get(enc)) {
                    (Some(sk), _) => sk.derive_symmetric_key(enc),
                    (None, Some(sk)) => sk.derive_symmetric_key(&e.paired_pk),
                    _ => continue,
                };
                let mut b = e.ciphertext.clone();
                if sym.try_decrypt(e.nonce, &mut b).is_ok() {
                    if let Ok(a) = <[u8; 32]>::try_from(b) {
                        let sk = ShareSecretKey::force_from_bytes(a);
                        known.insert(sk.share_key(), sk);
                    }
                }
            }
            if known.len() == before {
                return known.into_values().map(|sk| Digest::hash(&PcsKey::new(sk))).collect();
            }
        }
    }
}

pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILS: {what}");
        std::process::exit(1);
    }
}
