//! C01-C03: replicas of one key-agreement group, run against each other under
//! random causal delivery, with an independent model of who is a member at
//! which point of the history and an attacker that decrypts everything it can.
use crate::check::{Ep, EpResult};
use crate::rt::*;
use beekem::{
    cgka::Cgka,
    encrypted::{EncryptedContent, EncryptedSecret},
    error::CgkaError,
    id::{MemberId, TreeId},
    keys::ShareKeyMap,
    operation::CgkaOperation,
    pcs_key::PcsKey,
    transact::{Fork, Merge},
};
use future_form::Sendable;
use keyhive_crypto::{
    digest::Digest,
    share_key::{ShareKey, ShareSecretKey},
    signed::Signed,
    signer::memory::MemorySigner,
    verifiable::Verifiable,
};
use rand::Rng;
use serde::Deserialize;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

type Op = Arc<Signed<CgkaOperation>>;
type Enc = EncryptedContent<Vec<u8>, [u8; 32]>;

pub fn dig<T: serde::Serialize>(t: &T) -> [u8; 32] {
    Digest::hash(t).as_slice().try_into().unwrap()
}

/// A set of operation indices.
type Bits = BTreeSet<usize>;

struct OpRec {
    op: Op,
    /// Strict causal past.
    past: Bits,
}

struct M {
    id: MemberId,
    signer: MemorySigner,
    /// Keys this member was given out of band (its prekeys).
    sks: ShareKeyMap,
    c: Option<Cgka>,
    have: Bits,
    part: usize,
}

struct EncRec {
    enc: Enc,
    plain: Vec<u8>,
    /// The causal past of the update whose key was used, inclusive.
    at: Bits,
    /// What the writer had applied.
    author: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    In,
    Out,
    Unclear,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Agreement,
    Removed,
    History,
}

pub struct Sim<'e> {
    ep: &'e mut Ep,
    cs: Csprng,
    doc: TreeId,
    ms: Vec<M>,
    ops: Vec<OpRec>,
    idx: HashMap<[u8; 32], usize>,
    encs: Vec<EncRec>,
    n_enc: u64,
}

impl<'e> Sim<'e> {
    fn new(ep: &'e mut Ep) -> Result<Self, String> {
        let mut cs = ep.csprng(11);
        let doc = TreeId(MemorySigner::generate(&mut cs).verifying_key());
        let mut s = Sim { ep, cs, doc, ms: vec![], ops: vec![], idx: HashMap::new(), encs: vec![], n_enc: 0 };
        s.new_member();
        let pk = s.new_prekey(0);
        let m = &s.ms[0];
        let c = block_on(Cgka::new::<Sendable, _>(doc, m.id, pk, &m.signer))
            .and_then(|c| c.with_new_owner(m.id, m.sks.clone()))
            .map_err(|e| format!("a new group is refused: {e:?}"))?;
        let init = Arc::new(c.init_add_op());
        s.ms[0].c = Some(c);
        s.record(0, init);
        Ok(s)
    }

    fn new_member(&mut self) -> usize {
        let signer = MemorySigner::generate(&mut self.cs);
        self.ms.push(M {
            id: MemberId(signer.verifying_key()),
            signer,
            sks: ShareKeyMap::new(),
            c: None,
            have: Bits::new(),
            part: 0,
        });
        self.ms.len() - 1
    }

    /// A fresh prekey of member `i`; `i` holds its secret from the start.
    fn new_prekey(&mut self, i: usize) -> ShareKey {
        let sk = ShareSecretKey::generate(&mut self.cs);
        self.ms[i].sks.insert(sk.share_key(), sk);
        if let Some(c) = self.ms[i].c.as_mut() {
            c.owner_sks.insert(sk.share_key(), sk);
        }
        sk.share_key()
    }

    fn record(&mut self, author: usize, op: Op) -> usize {
        let mut past = Bits::new();
        for p in op.payload.predecessors() {
            let i = self.idx[&<[u8; 32]>::try_from(p.as_slice()).unwrap()];
            past.insert(i);
            past.extend(self.ops[i].past.iter().copied());
        }
        let i = self.ops.len();
        self.idx.insert(dig(&*op), i);
        self.ops.push(OpRec { op, past });
        self.ms[author].have.insert(i);
        i
    }

    fn status(&self, m: MemberId, at: &Bits) -> Status {
        let adds: Vec<usize> =
            at.iter().copied().filter(|i| matches!(self.ops[*i].op.payload, CgkaOperation::Add { added_id, .. } if added_id == m)).collect();
        let rems: Vec<usize> =
            at.iter().copied().filter(|i| matches!(self.ops[*i].op.payload, CgkaOperation::Remove { id, .. } if id == m)).collect();
        if adds.is_empty() {
            return Status::Out;
        }
        // An add that follows every remove.
        if adds.iter().any(|a| rems.iter().all(|r| self.ops[*a].past.contains(r))) {
            return Status::In;
        }
        // Every add is followed by a remove that is certain to be effective: the
        // last member of a group is never removed, so some other member must
        // have been there throughout.
        let removed: HashSet<[u8; 32]> = at
            .iter()
            .filter_map(|i| match self.ops[*i].op.payload {
                CgkaOperation::Remove { id, .. } => Some(id.to_bytes()),
                _ => None,
            })
            .collect();
        let stays = |r: usize| {
            self.ops[r].past.iter().any(|a| matches!(self.ops[*a].op.payload, CgkaOperation::Add { added_id, .. } if added_id != m && !removed.contains(&added_id.to_bytes())))
        };
        if adds.iter().all(|a| rems.iter().any(|r| self.ops[*r].past.contains(a) && stays(*r))) {
            return Status::Out;
        }
        Status::Unclear
    }

    fn ready(&self, i: usize) -> Vec<usize> {
        let m = &self.ms[i];
        (0..self.ops.len()).filter(|k| !m.have.contains(k) && self.ops[*k].past.iter().all(|p| m.have.contains(p))).collect()
    }

    fn deliver(&mut self, i: usize, k: usize) -> EpResult {
        let op = self.ops[k].op.clone();
        let doc = self.doc;
        let m = &mut self.ms[i];
        match m.c.as_mut() {
            None => {
                let CgkaOperation::Add { added_id, pk, .. } = op.payload else { return Err("HARNESS first op is not an add".into()) };
                let c = Cgka::new_from_init_add(doc, added_id, pk, (*op).clone())
                    .and_then(|c| c.with_new_owner(m.id, m.sks.clone()))
                    .map_err(|e| format!("the initial operation is refused: {e:?}"))?;
                m.c = Some(c);
            }
            Some(c) => {
                let merged = c
                    .merge_concurrent_operation(op.clone())
                    .map_err(|e| format!("an operation delivered after its predecessors is refused with {e:?} :: op {k} at member {i}"))?;
                if !merged {
                    return Err(format!("a new operation is taken for a known one :: op {k} at member {i}"));
                }
                if self.ep.rng.gen_ratio(1, 8) && c.merge_concurrent_operation(op).map_err(|e| format!("a duplicate is refused with {e:?}"))? {
                    return Err("a duplicate operation is applied twice".into());
                }
            }
        }
        m.have.insert(k);
        self.ep.hit("deliveries");
        Ok(())
    }

    fn can_act(&self, i: usize) -> bool {
        self.ms[i].c.is_some()
    }

    fn add(&mut self, i: usize, j: usize) -> EpResult {
        let pk = self.new_prekey(j);
        let id = self.ms[j].id;
        let seen = self.status(id, &self.ms[i].have);
        let m = &mut self.ms[i];
        let op = block_on(m.c.as_mut().unwrap().add::<Sendable, _>(id, pk, &m.signer)).map_err(|e| format!("an add is refused: {e:?}"))?;
        match op {
            Some(op) => {
                if seen == Status::In {
                    return Err(format!("a member of the group is added a second time :: {j} by {i}"));
                }
                self.ep.step(format!("{i} adds {j}"));
                self.ep.hit("adds");
                self.record(i, Arc::new(op));
            }
            None => {
                if seen == Status::Out {
                    return Err(format!("adding a non-member does nothing :: {j} by {i}"));
                }
            }
        }
        Ok(())
    }

    fn remove(&mut self, i: usize, j: usize) -> EpResult {
        let id = self.ms[j].id;
        let seen = self.status(id, &self.ms[i].have);
        let m = &mut self.ms[i];
        match block_on(m.c.as_mut().unwrap().remove::<Sendable, _>(id, &m.signer)) {
            Ok(Some(op)) => {
                if seen == Status::Out {
                    return Err(format!("a non-member is removed :: {j} by {i}"));
                }
                self.ep.step(format!("{i} removes {j}"));
                self.ep.hit("removes");
                self.record(i, Arc::new(op));
            }
            Ok(None) => {
                if seen == Status::In {
                    return Err(format!("removing a member does nothing :: {j} by {i}"));
                }
            }
            Err(CgkaError::RemoveLastMember) => {
                let m = &self.ms[i];
                if m.c.as_ref().unwrap().group_size() > 1 {
                    return Err("removing one of several members is refused as removing the last".into());
                }
            }
            Err(e) => return Err(format!("a remove is refused: {e:?}")),
        }
        Ok(())
    }

    /// Some(key, op) if `i` is in the tree.
    fn update(&mut self, i: usize) -> Result<Option<(PcsKey, usize)>, String> {
        let sk = ShareSecretKey::generate(&mut self.cs);
        let st = self.status(self.ms[i].id, &self.ms[i].have);
        let m = &mut self.ms[i];
        match block_on(m.c.as_mut().unwrap().update::<Sendable, _, _>(sk.share_key(), sk, &m.signer, &mut self.cs)) {
            Ok((k, op)) => {
                if st == Status::Out {
                    return Err(format!("a non-member produces a new group key :: {i}"));
                }
                self.ep.step(format!("{i} updates"));
                self.ep.hit("updates");
                let n = self.record(i, Arc::new(op));
                Ok(Some((k, n)))
            }
            Err(CgkaError::IdentifierNotFound) if st != Status::In => Ok(None),
            Err(e) => Err(format!("an update by a {} is refused: {e:?} :: {i}", if st == Status::In { "member" } else { "possible member" })),
        }
    }

    fn encrypt(&mut self, i: usize) -> EpResult {
        self.n_enc += 1;
        let cref: [u8; 32] = dig(&(self.ep.seed, self.n_enc));
        let preds: Vec<[u8; 32]> = vec![dig(&(self.ep.seed, self.n_enc / 2))];
        let plain: Vec<u8> = (0..self.ep.rng.gen_range(0..70)).map(|_| self.ep.rng.gen()).collect();
        let st = self.status(self.ms[i].id, &self.ms[i].have);
        let m = &mut self.ms[i];
        match block_on(m.c.as_mut().unwrap().new_app_secret_for::<Sendable, _, _, _>(&cref, &plain, &preds, &m.signer, &mut self.cs)) {
            Ok((secret, op)) => {
                if st == Status::Out {
                    return Err(format!("a non-member is given a key to encrypt with :: {i}"));
                }
                let enc: Enc = secret.try_encrypt(&plain).map_err(|e| format!("encryption fails: {e:?}"))?;
                if let Some(op) = op {
                    self.ep.hit("updates made by encrypting");
                    self.record(i, Arc::new(op));
                }
                let h: [u8; 32] = enc.pcs_update_op_hash.as_slice().try_into().unwrap();
                let Some(&u) = self.idx.get(&h) else { return Err("a ciphertext names a key update that no one made".into()) };
                let mut at = self.ops[u].past.clone();
                at.insert(u);
                if !self.ms[i].have.contains(&u) {
                    return Err("HARNESS author lacks its own update".into());
                }
                self.ep.step(format!("{i} encrypts under update {u}"));
                self.ep.hit("encryptions");
                self.encs.push(EncRec { enc, plain, at, author: i });
                Ok(())
            }
            Err(CgkaError::IdentifierNotFound) if st != Status::In => Ok(()),
            Err(e) if st != Status::In => {
                // a possible non-member that cannot decrypt the tree
                self.ep.hit("refused encryptions by non-members");
                let _ = e;
                Ok(())
            }
            Err(e) => Err(format!("a member cannot get a key to encrypt with: {e:?} :: {i}")),
        }
    }

    fn try_read(&mut self, i: usize, e: usize) -> Option<Vec<u8>> {
        let c = self.ms[i].c.as_mut()?;
        let k = c.decryption_key_for(&self.encs[e].enc).ok()?;
        self.encs[e].enc.try_decrypt(k).ok()
    }

    fn deliver_all(&mut self, i: usize) -> EpResult {
        loop {
            let r = self.ready(i);
            if r.is_empty() {
                return Ok(());
            }
            let k = r[self.ep.rng.gen_range(0..r.len())];
            self.deliver(i, k)?;
        }
    }

    fn random_steps(&mut self, n: usize, max_members: usize, removal_weight: u32) -> EpResult {
        // Some stretches run partitioned, so that concurrency is deep.
        let parts = self.ep.rng.gen_range(1..=3usize);
        for i in 0..self.ms.len() {
            self.ms[i].part = self.ep.rng.gen_range(0..parts);
        }
        let frozen: usize = self.ops.len();
        for _ in 0..n {
            let i = self.ep.rng.gen_range(0..self.ms.len());
            if !self.can_act(i) {
                let r = self.ready(i);
                if !r.is_empty() {
                    self.deliver(i, r[0])?;
                }
                continue;
            }
            let act = self.ep.rng.gen_range(0..20 + removal_weight);
            match act {
                0..=2 => {
                    let fresh = self.ms.len() < max_members && self.ep.rng.gen_ratio(2, 3);
                    let j = if fresh { self.new_member() } else { self.ep.rng.gen_range(0..self.ms.len()) };
                    self.ms[j].part = if fresh { self.ms[i].part } else { self.ms[j].part };
                    if self.status(self.ms[i].id, &self.ms[i].have) == Status::In {
                        self.add(i, j)?;
                    }
                }
                3..=5 => {
                    self.update(i)?;
                }
                6..=8 => self.encrypt(i)?,
                9 => self.restart(i)?,
                10 if !self.encs.is_empty() => {
                    // Reading at arbitrary points must not disturb anything.
                    let e = self.ep.rng.gen_range(0..self.encs.len());
                    self.try_read(i, e);
                }
                20.. => {
                    let j = self.ep.rng.gen_range(0..self.ms.len());
                    if self.status(self.ms[i].id, &self.ms[i].have) == Status::In {
                        self.remove(i, j)?;
                    }
                }
                _ => {
                    for _ in 0..self.ep.rng.gen_range(1..5) {
                        let part = self.ms[i].part;
                        let r: Vec<usize> = self.ready(i).into_iter().filter(|k| *k < frozen || self.author_part(*k) == part).collect();
                        if r.is_empty() {
                            break;
                        }
                        let k = r[self.ep.rng.gen_range(0..r.len())];
                        self.deliver(i, k)?;
                        self.ep.step(format!("{i} receives {k}"));
                    }
                }
            }
        }
        Ok(())
    }

    fn author_part(&self, k: usize) -> usize {
        let issuer = self.ops[k].op.issuer();
        self.ms.iter().find(|m| m.signer.verifying_key() == *issuer).map(|m| m.part).unwrap_or(0)
    }

    /// Stop and restart a replica from its serialized state, or run some of its
    /// deliveries in a fork and merge that back.
    fn restart(&mut self, i: usize) -> EpResult {
        if self.ep.rng.gen() {
            let c = self.ms[i].c.as_ref().unwrap();
            let b = bincode::serialize(c).map_err(|e| format!("a replica cannot be written: {e}"))?;
            let back: Cgka = bincode::deserialize(&b).map_err(|e| format!("a written replica cannot be read: {e}"))?;
            if &back != c {
                return Err("a replica read back differs from the one written".into());
            }
            self.ms[i].c = Some(back);
            self.ep.hit("restarts");
        } else {
            let base = self.ms[i].c.clone().unwrap();
            let before = self.ms[i].have.clone();
            self.ms[i].c = Some(base.fork());
            self.ep.step(format!("{i} forks"));
            let n0 = self.ops.len();
            self.beside(i, n0)?;
            let fork = self.ms[i].c.replace(base).unwrap();
            let after = std::mem::replace(&mut self.ms[i].have, before);
            if self.ep.rng.gen() {
                self.ep.step(format!("{i} goes on beside its fork"));
                self.beside(i, n0)?;
            }
            self.ms[i].c.as_mut().unwrap().merge(fork);
            self.ms[i].have.extend(after);
            self.ep.hit("fork merges");
        }
        Ok(())
    }

    /// Some steps of `i`, in a fork or beside it. What the fork makes is not
    /// known elsewhere yet: only operations before `n0` are delivered.
    fn beside(&mut self, i: usize, n0: usize) -> EpResult {
        for _ in 0..self.ep.rng.gen_range(1..4) {
            match self.ep.rng.gen_range(0..6) {
                0 if self.can_act(i) => {
                    if self.update(i)?.is_some() {
                        self.ep.hit("updates in or beside forks");
                    }
                }
                1 if self.can_act(i) => self.encrypt(i)?,
                _ => {
                    let r: Vec<usize> = self.ready(i).into_iter().filter(|k| *k < n0).collect();
                    if !r.is_empty() {
                        let k = r[self.ep.rng.gen_range(0..r.len())];
                        self.deliver(i, k)?;
                    }
                }
            }
        }
        Ok(())
    }

    fn quiesce(&mut self) -> EpResult {
        for i in 0..self.ms.len() {
            self.deliver_all(i)?;
        }
        self.ep.hit("quiescent points");
        Ok(())
    }

    fn all(&self) -> Bits {
        (0..self.ops.len()).collect()
    }

    fn statuses(&self) -> Vec<Status> {
        let all = self.all();
        self.ms.iter().map(|m| self.status(m.id, &all)).collect()
    }

    fn check_agreement(&mut self) -> EpResult {
        self.quiesce()?;
        let st = self.statuses();
        // Someone rotates; everyone receives it; everyone in the group has the
        // same key and no one else has it.
        let mut order: Vec<usize> = (0..self.ms.len()).collect();
        for k in (1..order.len()).rev() {
            order.swap(k, self.ep.rng.gen_range(0..=k));
        }
        let mut done = None;
        for i in order {
            if let Some((k, op)) = self.update(i)? {
                done = Some((i, k, op));
                break;
            }
        }
        let Some((u, key, op)) = done else { return Err("no member of the group can rotate its key".into()) };
        self.quiesce()?;
        let size = self.ms[u].c.as_ref().unwrap().group_size();
        let certain = st.iter().filter(|s| **s == Status::In).count() as u32;
        let possible = st.iter().filter(|s| **s != Status::Out).count() as u32;
        if size < certain || size > possible {
            return Err(format!("the group counts {size} members where {certain} to {possible} were added and not removed"));
        }
        let mut readers = 0;
        let want = dig(&key);
        let h: Digest<Signed<CgkaOperation>> = Digest::hash(&*self.ops[op].op);
        for i in 0..self.ms.len() {
            let c = self.ms[i].c.as_mut().unwrap();
            if c.group_size() != size {
                return Err(format!("replicas with the same operations disagree about the size: {} and {size} :: member {i}", c.group_size()));
            }
            match c.secret_from_root() {
                Ok(s) => {
                    if dig(&s) != want {
                        return Err(format!("replicas with the same operations derive different group keys :: {u} and {i}"));
                    }
                    if st[i] == Status::Out {
                        return Err(format!("a non-member derives the group key :: {i}"));
                    }
                    readers += 1;
                }
                Err(e) if st[i] == Status::In => return Err(format!("a member cannot derive the group key: {e:?} :: {i}")),
                Err(_) => {}
            }
            if st[i] == Status::In {
                let s = self.ms[i].c.as_mut().unwrap().secret(&Digest::hash(&key), &h);
                match s {
                    Ok(s) if dig(&s) == want => {}
                    r => return Err(format!("a member cannot recover the key of an update: {:?} :: {i}", r.err())),
                }
            }
            self.ep.hit("key comparisons");
        }
        if readers != size {
            return Err(format!("{readers} replicas derive the key of a group of {size}"));
        }
        // The exported operations are complete, causal, and the same everywhere.
        let mut first: Option<Vec<Vec<[u8; 32]>>> = None;
        for i in 0..self.ms.len() {
            let eps: Vec<Vec<[u8; 32]>> =
                self.ms[i].c.as_ref().unwrap().ops().map_err(|e| format!("operations cannot be listed: {e:?}"))?.iter().map(|e| e.iter().map(|o| dig(&**o)).collect()).collect();
            let mut seen = Bits::new();
            for e in &eps {
                for h in e {
                    let k = self.idx[h];
                    if !self.ops[k].past.iter().all(|p| seen.contains(p)) {
                        return Err("the exported operations are not in causal order".into());
                    }
                    seen.insert(k);
                }
            }
            if seen.len() != self.ops.len() || eps.iter().map(|e| e.len()).sum::<usize>() != self.ops.len() {
                return Err(format!("the export has {} of {} operations", seen.len(), self.ops.len()));
            }
            match &first {
                None => first = Some(eps),
                Some(f) if *f == eps => {}
                _ => return Err("replicas with the same operations export them in different orders".into()),
            }
        }
        // A replica built from the export alone agrees.
        let epochs = self.ms[u].c.as_ref().unwrap().ops().unwrap();
        let mut fresh: Option<Cgka> = None;
        for e in epochs.iter() {
            for o in e.iter() {
                match fresh.as_mut() {
                    None => {
                        let CgkaOperation::Add { added_id, pk, .. } = o.payload else { return Err("the export does not start with an add".into()) };
                        let sks = self.ms[u].c.as_ref().unwrap().owner_sks.clone();
                        fresh = Some(
                            Cgka::new_from_init_add(self.doc, added_id, pk, (**o).clone())
                                .and_then(|c| c.with_new_owner(self.ms[u].id, sks))
                                .map_err(|e| format!("{e:?}"))?,
                        );
                    }
                    Some(c) => {
                        c.merge_concurrent_operation(o.clone()).map_err(|e| format!("a fresh replica refuses the exported order: {e:?}"))?;
                    }
                }
            }
        }
        match fresh.unwrap().secret_from_root() {
            Ok(s) if dig(&s) == want => {}
            r => return Err(format!("a replica built from the export derives another key: {:?}", r.err())),
        }
        Ok(())
    }

    fn check_history(&mut self) -> EpResult {
        self.quiesce()?;
        for e in 0..self.encs.len() {
            for i in 0..self.ms.len() {
                let st = self.status(self.ms[i].id, &self.encs[e].at);
                let got = self.try_read(i, e);
                match (&got, st) {
                    (Some(p), _) if *p != self.encs[e].plain => return Err(format!("decryption returns another plaintext :: ciphertext {e} at {i}")),
                    (None, Status::In) => {
                        let c = self.ms[i].c.as_mut().unwrap();
                        let why = c.decryption_key_for(&self.encs[e].enc).err();
                        return Err(format!(
                            "a member when the content was encrypted cannot read it: {why:?} :: ciphertext {e} by {} at {i}",
                            self.encs[e].author
                        ));
                    }
                    (Some(_), Status::Out) => return Err(format!("someone outside the group when the content was encrypted reads it :: ciphertext {e} at {i}")),
                    (Some(_), _) => self.ep.hit("reads"),
                    (None, Status::Out) => self.ep.hit("reads denied to non-members"),
                    _ => {}
                }
            }
        }
        Ok(())
    }

    /// Everything `i` can compute from its own keys and all operations.
    fn closure(&self, keys: &ShareKeyMap) -> HashSet<[u8; 32]> {
        #[derive(Deserialize)]
        struct Ver {
            #[allow(dead_code)]
            pk: ShareKey,
            sk: BTreeMap<beekem::treemath::TreeNodeIndex, EncryptedSecret<ShareSecretKey>>,
            encrypter_pk: ShareKey,
        }
        #[derive(Deserialize)]
        struct Store {
            versions: Vec<Ver>,
        }
        let mut cts: Vec<(ShareKey, EncryptedSecret<ShareSecretKey>)> = vec![];
        for o in &self.ops {
            if let CgkaOperation::Update { new_path, .. } = &o.op.payload {
                for (_, store) in &new_path.path {
                    let s: Store = bincode::deserialize(&bincode::serialize(store).unwrap()).expect("HARNESS store layout");
                    for v in s.versions {
                        for (_, e) in v.sk {
                            cts.push((v.encrypter_pk, e));
                        }
                    }
                }
            }
        }
        let mut known: BTreeMap<ShareKey, ShareSecretKey> = bincode::deserialize(&bincode::serialize(keys).unwrap()).expect("HARNESS key layout");
        loop {
            let mut grown = false;
            cts.retain(|(enc_pk, e)| {
                let sym = if let Some(sk) = known.get(&e.paired_pk) {
                    sk.derive_symmetric_key(enc_pk)
                } else if let Some(sk) = known.get(enc_pk) {
                    sk.derive_symmetric_key(&e.paired_pk)
                } else {
                    return true;
                };
                let mut b = e.ciphertext.clone();
                if sym.try_decrypt(e.nonce, &mut b).is_ok() {
                    if let Ok(a) = <[u8; 32]>::try_from(b) {
                        let sk = ShareSecretKey::force_from_bytes(a);
                        if known.insert(sk.share_key(), sk).is_none() {
                            grown = true;
                        }
                    }
                }
                false
            });
            if !grown {
                break;
            }
        }
        known.values().map(|sk| dig(&PcsKey::new(*sk))).collect()
    }

    fn check_removed(&mut self) -> EpResult {
        self.quiesce()?;
        // every member rotates once more so that there are keys made after
        // every removal
        for i in 0..self.ms.len() {
            if self.update(i)?.is_some() {
                self.encrypt(i)?;
                if self.ep.rng.gen() {
                    self.quiesce()?;
                }
            }
        }
        self.quiesce()?;
        for i in 0..self.ms.len() {
            let id = self.ms[i].id;
            let targets: Vec<usize> = (0..self.encs.len()).filter(|e| self.status(id, &self.encs[*e].at) == Status::Out).collect();
            if targets.is_empty() {
                continue;
            }
            let known = self.closure(&self.ms[i].c.as_ref().unwrap().owner_sks);
            for e in targets {
                let was_member = self.encs[e].at.iter().any(|k| matches!(self.ops[*k].op.payload, CgkaOperation::Add { added_id, .. } if added_id == id));
                if known.contains(&dig_of(&self.encs[e].enc)) {
                    return Err(format!(
                        "{} computes the key of a later epoch from its own keys and the public operations :: ciphertext {e} at {i}",
                        if was_member { "a removed member" } else { "someone not yet added" }
                    ));
                }
                if self.try_read(i, e).is_some() {
                    return Err(format!("a removed member reads content of a later epoch :: ciphertext {e} at {i}"));
                }
                self.ep.hit(if was_member { "keys withheld from removed members" } else { "keys withheld from later members" });
            }
        }
        // The attacker must be strong enough to mean something: members find
        // their keys by the same computation.
        for i in 0..self.ms.len() {
            let known = self.closure(&self.ms[i].c.as_ref().unwrap().owner_sks);
            for e in 0..self.encs.len() {
                if self.status(self.ms[i].id, &self.encs[e].at) == Status::In && known.contains(&dig_of(&self.encs[e].enc)) {
                    self.ep.hit("keys the attacker computation finds for members");
                }
            }
        }
        Ok(())
    }
}

fn dig_of(e: &Enc) -> [u8; 32] {
    e.pcs_key_hash.as_slice().try_into().unwrap()
}

pub fn run(ep: &mut Ep, focus: Focus, big: bool) -> EpResult {
    let mut s = Sim::new(ep)?;
    let rounds = s.ep.rng.gen_range(1..=if big { 4 } else { 3 });
    let max = if big { 14 } else { s.ep.rng.gen_range(2..8) };
    let rw = s.ep.rng.gen_range(1..5);
    // start with a few members so that concurrency is possible at once
    for _ in 0..s.ep.rng.gen_range(1..max) {
        let j = s.new_member();
        s.add(0, j)?;
    }
    s.quiesce()?;
    for _ in 0..rounds {
        let n = s.ep.rng.gen_range(8..if big { 90 } else { 45 });
        s.random_steps(n, max, rw)?;
        match focus {
            Focus::Agreement => s.check_agreement()?,
            Focus::Removed => s.check_removed()?,
            Focus::History => s.check_history()?,
        }
    }
    let removed = s.ops.iter().filter(|o| matches!(o.op.payload, CgkaOperation::Remove { .. })).count();
    let concurrent = (1..s.ops.len()).any(|k| s.ops[k].past.len() < k);
    s.ep.nontrivial = s.ops.len() > 6
        && concurrent
        && match focus {
            Focus::Agreement => true,
            Focus::Removed => removed > 0,
            Focus::History => s.encs.len() > 2,
        };
    Ok(())
}

pub fn agreement(ep: &mut Ep) -> EpResult {
    run(ep, Focus::Agreement, false)
}
pub fn agreement_big(ep: &mut Ep) -> EpResult {
    run(ep, Focus::Agreement, true)
}
pub fn removed(ep: &mut Ep) -> EpResult {
    run(ep, Focus::Removed, false)
}
pub fn removed_big(ep: &mut Ep) -> EpResult {
    run(ep, Focus::Removed, true)
}
pub fn history(ep: &mut Ep) -> EpResult {
    run(ep, Focus::History, false)
}
pub fn history_big(ep: &mut Ep) -> EpResult {
    run(ep, Focus::History, true)
}
