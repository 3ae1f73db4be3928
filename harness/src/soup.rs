//! Malformed and malicious input of every kind: nothing may crash a replica,
//! make it hang, or disturb what it does for others.
use crate::check::{Ep, EpResult};
use crate::content::{self, Item};
use crate::hostile::{self, sign};
use crate::keyforge::{ever_readers, ghost, key_ops};
use crate::mem::*;
use crate::rt::*;
use crate::world::*;
use beekem::encrypted::EncryptedSecret;
use beekem::id::{MemberId, TreeId};
use beekem::keys::NodeKey;
use beekem::operation::CgkaOperation;
use beekem::tree::PathChange;
use beekem::treemath::TreeNodeIndex;
use future_form::Sendable;
use keyhive_core::event::static_event::StaticEvent;
use keyhive_core::principal::document::id::DocumentId;
use keyhive_core::principal::group::{delegation::StaticDelegation, revocation::StaticRevocation};
use keyhive_core::principal::identifier::Identifier;
use keyhive_core::principal::individual::op::{add_key::AddKeyOp, rotate_key::RotateKeyOp, KeyOp};
use keyhive_crypto::digest::Digest;
use keyhive_crypto::share_key::{ShareKey, ShareSecretKey};
use keyhive_crypto::signed::Signed;
use keyhive_crypto::signer::memory::MemorySigner;
use keyhive_crypto::verifiable::Verifiable;
use rand::seq::SliceRandom;
use rand::Rng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone)]
struct Ver {
    pk: ShareKey,
    sk: BTreeMap<TreeNodeIndex, EncryptedSecret<ShareSecretKey>>,
    encrypter_pk: ShareKey,
}
#[derive(Serialize, Deserialize, Clone)]
struct Store {
    versions: Vec<Ver>,
}

fn share_key(ep: &mut Ep) -> ShareKey {
    let b: [u8; 32] = match ep.rng.gen_range(0..6) {
        0 => [0; 32],
        1 => {
            let mut b = [0; 32];
            b[0] = 1;
            b
        }
        2 => [0xff; 32],
        _ => ep.rng.gen(),
    };
    bincode::deserialize(&bincode::serialize(&b).unwrap()).expect("HARNESS share key layout")
}

fn index(ep: &mut Ep, near: u32) -> u32 {
    match ep.rng.gen_range(0..7) {
        0 => u32::MAX,
        1 => u32::MAX / 2,
        2 => 1 << 31,
        3 => ep.rng.gen(),
        4 => near.wrapping_add(1),
        5 => near.wrapping_sub(1),
        _ => ep.rng.gen_range(0..40),
    }
}

fn warp_store(ep: &mut Ep, s: &mut Store) {
    let k = share_key(ep);
    match ep.rng.gen_range(0..9) {
        0 => s.versions.clear(),
        1 => {
            let v = s.versions.clone();
            s.versions.extend(v);
        }
        2 => s.versions.iter_mut().for_each(|v| v.sk.clear()),
        3 => s.versions.iter_mut().for_each(|v| v.pk = k),
        4 => s.versions.iter_mut().for_each(|v| v.encrypter_pk = k),
        5 => s.versions.iter_mut().for_each(|v| v.sk.values_mut().for_each(|e| e.paired_pk = k)),
        6 => s.versions.iter_mut().for_each(|v| v.sk.values_mut().for_each(|e| e.ciphertext.truncate(3))),
        7 => s.versions.iter_mut().for_each(|v| v.sk.values_mut().for_each(|e| if let Some(b) = e.ciphertext.first_mut() { *b ^= 1 })),
        _ => s.versions.iter_mut().for_each(|v| {
            v.sk.pop_first();
        }),
    }
}

fn warp_path(ep: &mut Ep, p: &mut PathChange) {
    for _ in 0..ep.rng.gen_range(1..3) {
        match ep.rng.gen_range(0..9) {
            0 => p.leaf_idx = index(ep, p.leaf_idx),
            1 => {
                let a = share_key(ep);
                let b = share_key(ep);
                let more: Vec<ShareKey> = (0..ep.rng.gen_range(0..3)).map(|_| share_key(ep)).collect();
                p.leaf_pk = if ep.rng.gen() { NodeKey::ShareKey(a) } else { NodeKey::ConflictKeys(beekem::keys::ConflictKeys { first: a, second: b, more }) };
            }
            2 => {
                p.path.pop();
            }
            3 => {
                if let Some(x) = p.path.choose(&mut ep.rng).cloned() {
                    p.path.push(x);
                }
            }
            4 => {
                let n = p.path.len();
                if n > 0 {
                    let i = ep.rng.gen_range(0..n);
                    p.path[i].0 = index(ep, p.path[i].0);
                }
            }
            5 => p.removed_keys = (0..ep.rng.gen_range(0..4)).map(|_| share_key(ep)).collect(),
            _ => {
                let n = p.path.len();
                if n > 0 {
                    let i = ep.rng.gen_range(0..n);
                    let mut s: Store = bincode::deserialize(&bincode::serialize(&p.path[i].1).unwrap()).expect("HARNESS store layout");
                    warp_store(ep, &mut s);
                    p.path[i].1 = bincode::deserialize(&bincode::serialize(&s).unwrap()).expect("HARNESS store layout");
                }
            }
        }
    }
}

fn any_digest<X: serde::Serialize>(w: &World, ep: &mut Ep) -> Digest<X> {
    if ep.rng.gen_bool(0.3) {
        Digest::from(ep.rng.gen::<[u8; 32]>())
    } else {
        match &w.all.choose(&mut ep.rng).unwrap().1 {
            StaticEvent::CgkaOperation(o) => Digest::hash(o.as_ref()).coerce(),
            StaticEvent::Delegated(o) => Digest::hash(o).coerce(),
            StaticEvent::Revoked(o) => Digest::hash(o).coerce(),
            StaticEvent::PrekeysExpanded(o) => Digest::hash(o.as_ref()).coerce(),
            StaticEvent::PrekeyRotated(o) => Digest::hash(o.as_ref()).coerce(),
        }
    }
}

/// Who the attacker signs as: itself, a throw-away key, or one it used before.
fn author(ep: &mut Ep, w: &World, a: usize, extra: &mut Vec<MemorySigner>) -> MemorySigner {
    match ep.rng.gen_range(0..4) {
        0 | 1 => w.peers[a].signer.clone(),
        2 if !extra.is_empty() => extra.choose(&mut ep.rng).unwrap().clone(),
        _ => {
            let salt = ep.rng.gen_range(0..1 << 40);
            let s = MemorySigner::generate(&mut ep.csprng(salt));
            extra.push(s.clone());
            s
        }
    }
}

fn key_op(w: &World, ep: &mut Ep, a: usize, extra: &mut Vec<MemorySigner>) -> Option<(Ev, &'static str)> {
    let d = w.ents.choose(&mut ep.rng)?.clone();
    let s = author(ep, w, a, extra);
    let me = Identifier::from(s.verifying_key());
    let ops = key_ops(w, d.id, &BTreeSet::new());
    let salt = ep.rng.gen_range(0..1 << 40);
    let sk = ShareSecretKey::generate(&mut ep.csprng(salt));
    let mut p = match ep.rng.gen_range(0..6) {
        0 | 1 => {
            let mut c = ghost(w, ep, d.id, me, &BTreeSet::new())?;
            let (_, op) = block_on(c.update::<Sendable, _, _>(sk.share_key(), sk, &s, &mut ep.csprng(2))).ok()?;
            op.payload
        }
        2 | 3 => ops.choose(&mut ep.rng)?.payload.clone(),
        4 => CgkaOperation::Add { added_id: MemberId(if ep.rng.gen() { me.0 } else { d.id.0 }), pk: share_key(ep), leaf_index: index(ep, 0), predecessors: vec![], add_predecessors: vec![], doc_id: TreeId(d.id.0) },
        _ => CgkaOperation::Remove { id: MemberId(me.0), leaf_idx: index(ep, 0), removed_keys: (0..ep.rng.gen_range(0..3)).map(|_| share_key(ep)).collect(), predecessors: vec![], doc_id: TreeId(d.id.0) },
    };
    let preds = |ep: &mut Ep| -> Vec<Digest<Signed<CgkaOperation>>> { (0..ep.rng.gen_range(0..5)).map(|_| if ep.rng.gen_bool(0.8) { ops.choose(&mut ep.rng).map(|o| Digest::hash(o)).unwrap_or_else(|| Digest::from([9; 32])) } else { any_digest(w, ep) }).collect() };
    for _ in 0..ep.rng.gen_range(1..3) {
        match &mut p {
            CgkaOperation::Add { added_id, pk, leaf_index, predecessors, add_predecessors, doc_id } => match ep.rng.gen_range(0..6) {
                0 => *added_id = MemberId(w.peers.choose(&mut ep.rng).unwrap().id.0),
                1 => *pk = share_key(ep),
                2 => *leaf_index = index(ep, *leaf_index),
                3 => *predecessors = preds(ep),
                4 => *add_predecessors = preds(ep),
                _ => *doc_id = TreeId(w.ents.choose(&mut ep.rng).unwrap().id.0),
            },
            CgkaOperation::Remove { id, leaf_idx, removed_keys, predecessors, doc_id } => match ep.rng.gen_range(0..5) {
                0 => *id = MemberId(w.peers.choose(&mut ep.rng).unwrap().id.0),
                1 => *leaf_idx = index(ep, *leaf_idx),
                2 => removed_keys.push(share_key(ep)),
                3 => *predecessors = preds(ep),
                _ => *doc_id = TreeId(w.ents.choose(&mut ep.rng).unwrap().id.0),
            },
            CgkaOperation::Update { id, new_path, predecessors, doc_id } => match ep.rng.gen_range(0..10) {
                0 => {
                    *id = MemberId(me.0);
                    new_path.leaf_id = *id;
                }
                1 => *predecessors = preds(ep),
                2 => *doc_id = TreeId(w.ents.choose(&mut ep.rng).unwrap().id.0),
                _ => warp_path(ep, new_path),
            },
        }
    }
    Some((StaticEvent::CgkaOperation(Box::new(sign(&s, p))), "key-agreement operation"))
}

fn prekey_op(w: &World, ep: &mut Ep, a: usize, extra: &mut Vec<MemorySigner>) -> (Ev, &'static str) {
    let s = author(ep, w, a, extra);
    let known: Vec<ShareKey> = w.all.iter().filter_map(|(_, e)| match e {
        StaticEvent::PrekeysExpanded(o) => Some(o.payload.share_key),
        StaticEvent::PrekeyRotated(o) => Some(o.payload.new),
        _ => None,
    }).collect();
    let key = |ep: &mut Ep| if ep.rng.gen() && !known.is_empty() { *known.choose(&mut ep.rng).unwrap() } else { share_key(ep) };
    let e = if ep.rng.gen() {
        StaticEvent::PrekeysExpanded(Box::new(sign(&s, AddKeyOp { share_key: key(ep) })))
    } else {
        let old = key(ep);
        let new = if ep.rng.gen_bool(0.2) { old } else { key(ep) };
        StaticEvent::PrekeyRotated(Box::new(sign(&s, RotateKeyOp { old, new })))
    };
    (e, "prekey operation")
}

/// Delegations and revocations with a key's own authority, and ones that refer
/// to whatever exists.
fn membership_op(w: &World, ep: &mut Ep, a: usize, extra: &mut Vec<MemorySigner>) -> (Ev, &'static str) {
    let s = author(ep, w, a, extra);
    let mut ids: Vec<Identifier> = w.peers.iter().map(|p| p.id).chain(w.ents.iter().map(|e| e.id)).chain(extra.iter().map(|s| s.verifying_key().into())).collect();
    ids.push(public());
    let after_content: BTreeMap<DocumentId, Vec<Ref>> = if ep.rng.gen_bool(0.2) { [(DocumentId::from(*ids.choose(&mut ep.rng).unwrap()), vec![ep.rng.gen()])].into() } else { BTreeMap::new() };
    let dlgs: Vec<Signed<StaticDelegation<Ref>>> = w.all.iter().filter_map(|(_, e)| if let StaticEvent::Delegated(d) = e { Some(d.clone()) } else { None }).collect();
    let own: Vec<&Signed<StaticDelegation<Ref>>> = dlgs.iter().filter(|d| d.issuer == s.verifying_key() || d.payload.delegate == Identifier::from(s.verifying_key())).collect();
    let some = |ep: &mut Ep| -> Option<Digest<Signed<StaticDelegation<Ref>>>> {
        match ep.rng.gen_range(0..6) {
            0 => Some(any_digest(w, ep)),
            1 => dlgs.choose(&mut ep.rng).map(Digest::hash),
            2 => None,
            _ => own.choose(&mut ep.rng).map(|d| Digest::hash(*d)),
        }
    };
    let e = if ep.rng.gen_bool(0.7) {
        let proof = if ep.rng.gen_bool(0.5) { None } else { some(ep) };
        let n = if ep.rng.gen_bool(0.7) { 0 } else { ep.rng.gen_range(1..4) };
        let after_revocations = (0..n).map(|_| any_digest(w, ep)).collect();
        StaticEvent::Delegated(sign(&s, StaticDelegation { can: acc(ep.rng.gen_range(0..4)), proof, delegate: *ids.choose(&mut ep.rng).unwrap(), after_revocations, after_content }))
    } else {
        let revoke = some(ep).unwrap_or_else(|| any_digest(w, ep));
        let proof = if ep.rng.gen_bool(0.2) { None } else if ep.rng.gen() { Some(revoke) } else { some(ep) };
        StaticEvent::Revoked(sign(&s, StaticRevocation { revoke, proof, after_content }))
    };
    (e, "membership operation")
}

fn bytes(w: &World, ep: &mut Ep) -> Option<(Ev, &'static str)> {
    let e = &w.all.choose(&mut ep.rng)?.1;
    let mut b = bincode::serialize(e).unwrap();
    for _ in 0..ep.rng.gen_range(1..4) {
        let i = ep.rng.gen_range(0..b.len());
        match ep.rng.gen_range(0..5) {
            0 => b[i] ^= 1 << ep.rng.gen_range(0..8),
            1 => b[i] = ep.rng.gen(),
            2 => b.truncate(i.max(1)),
            3 => b[i] = [0, 1, 0x7f, 0x80, 0xff][ep.rng.gen_range(0..5)],
            _ => {
                let j = ep.rng.gen_range(0..b.len());
                b.swap(i, j);
            }
        }
    }
    ep.hit("altered encodings");
    match bincode::deserialize::<Ev>(&b) {
        Ok(e) => {
            ep.hit("altered encodings that decode");
            Some((e, "altered encoding"))
        }
        Err(_) => None,
    }
}

/// A group of the attacker's own, in which each delegation stands on the one
/// before and, if `twice`, on the revocation of it.
fn tower(w: &World, ep: &mut Ep, a: usize, n: usize, twice: bool) -> Vec<Ev> {
    let salt = ep.rng.gen_range(0..1 << 40);
    let g = MemorySigner::generate(&mut ep.csprng(salt));
    let me = &w.peers[a].signer;
    let mut out = vec![];
    let d0 = sign(&g, StaticDelegation { can: acc(3), proof: None, delegate: w.peers[a].id, after_revocations: vec![], after_content: BTreeMap::new() });
    let mut d = Digest::hash(&d0);
    out.push(StaticEvent::Delegated(d0));
    for _ in 0..n {
        let r = twice.then(|| sign(me, StaticRevocation { revoke: d, proof: Some(d), after_content: BTreeMap::new() }));
        let x = sign(me, StaticDelegation { can: acc(3), proof: Some(d), delegate: w.peers[a].id, after_revocations: r.iter().map(Digest::hash).collect(), after_content: BTreeMap::new() });
        d = Digest::hash(&x);
        out.extend(r.map(StaticEvent::Revoked));
        out.push(StaticEvent::Delegated(x));
    }
    out
}

fn hand_over(w: &mut World, ep: &mut Ep, to: usize, h: H) {
    if ep.rng.gen() {
        w.deliver(to, &[h]);
        return;
    }
    let e = w.ev(&h).clone();
    let kh = w.peers[to].kh.clone();
    ep.hit("hostile inputs given directly");
    match e {
        StaticEvent::PrekeysExpanded(o) => {
            let o: KeyOp = Arc::new(*o).into();
            if ep.rng.gen() {
                let _ = block_on(kh.receive_contact_card(&o.into()));
            } else {
                let _ = block_on(kh.receive_prekey_op(&o));
            }
        }
        StaticEvent::PrekeyRotated(o) => {
            let o: KeyOp = Arc::new(*o).into();
            if ep.rng.gen() {
                let _ = block_on(kh.receive_contact_card(&o.into()));
            } else {
                let _ = block_on(kh.receive_prekey_op(&o));
            }
        }
        StaticEvent::CgkaOperation(o) => {
            let _ = block_on(kh.receive_cgka_op(*o));
        }
        StaticEvent::Delegated(o) => {
            let _ = block_on(kh.receive_delegation(&o));
        }
        StaticEvent::Revoked(o) => {
            let _ = block_on(kh.receive_revocation(&o));
        }
    }
    w.collect(to);
}

/// Everything a user may ask of a replica.
fn poke(w: &mut World, ep: &mut Ep, p: usize, extra: &[MemorySigner]) {
    let kh = w.peers[p].kh.clone();
    match ep.rng.gen_range(0..8) {
        0 => {
            for e in w.ents.clone() {
                let _ = w.view(p, e.id);
            }
        }
        1 => {
            let ids: Vec<Identifier> = w.peers.iter().map(|q| q.id).chain(extra.iter().map(|s| s.verifying_key().into())).chain([public()]).collect();
            for i in ids {
                if let Some(a) = w.agent(p, i) {
                    let _ = crate::sync::offered(w, p, &a);
                    let _ = block_on(kh.docs_reachable_by_agent(&a));
                    let _ = block_on(kh.membered_reachable_by_agent(&a));
                }
            }
        }
        2 => {
            let _ = block_on(kh.reachable_docs());
            let _ = block_on(kh.stats());
        }
        3 => {
            let _ = block_on(kh.into_archive());
        }
        4 => {
            let _ = block_on(kh.membership_ops_for_all_agents());
            let _ = block_on(kh.reachable_prekey_ops_for_all_agents());
        }
        5 => {
            let _ = crate::listener::holdings(w, p);
        }
        6 => {
            for e in w.ents.clone() {
                if let Some(d) = w.doc(p, e.id) {
                    let _ = block_on(kh.force_pcs_update(d));
                    w.collect(p);
                }
            }
        }
        _ => {
            // hand the stranger something, or take it away
            let Some(e) = w.ents.choose(&mut ep.rng).cloned() else { return };
            let Some(s) = extra.choose(&mut ep.rng) else { return };
            let id: Identifier = s.verifying_key().into();
            if let (Some(m), Some(a)) = (w.membered(p, e.id), w.agent(p, id)) {
                if ep.rng.gen() {
                    let _ = block_on(kh.add_member(a, &m, acc(ep.rng.gen_range(0..4)), &[]));
                } else {
                    let _ = block_on(kh.revoke_member(id, ep.rng.gen(), &m));
                }
                w.collect(p);
            }
        }
    }
    ep.hit("uses between hostile inputs");
}

pub fn run(ep: &mut Ep, inside: bool) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(3..6), ents: ep.rng.gen_range(1..4), steps: ep.rng.gen_range(10..30), via: false, revoke: true, nest: ep.rng.gen_bool(0.4), docs: true, offer: false, sync: 30 };
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    let n = w.peers.len();
    let att = n - 1;
    let mut extra: Vec<MemorySigner> = vec![];
    let mut bad: BTreeSet<H> = BTreeSet::new();
    let mut items: Vec<Item> = vec![];
    let mut kinds: BTreeSet<&str> = BTreeSet::new();
    let honest = n - !inside as usize;
    for _ in 0..c.steps {
        w.complaints.clear();
        let p = ep.rng.gen_range(0..honest);
        let r = ep.rng.gen_range(0..100);
        if w.ents.is_empty() || r < 30 {
            let hidden = if inside { None } else { w.peers.pop() };
            let s = act(&mut w, ep, &c, p);
            w.peers.extend(hidden);
            if !s.ends_with("idle") {
                ep.step(s);
            }
        } else if r < 50 {
            let q = ep.rng.gen_range(0..n);
            let mut miss: Vec<H> = w.all.iter().map(|(h, _)| *h).filter(|h| !w.peers[p].has.contains(h) && w.peers[q].has.contains(h)).collect();
            if !miss.is_empty() {
                ep.step(format!("p{q} -> p{p}: {} events", miss.len()));
                w.deliver_set(ep, p, &mut miss, true);
            }
        } else if r < 60 {
            let docs: Vec<Identifier> = w.ents.iter().filter(|e| e.kind == Kind::Doc).map(|e| e.id).collect();
            if let Some(d) = docs.choose(&mut ep.rng) {
                let plain = content::payload(ep);
                match content::encrypt(&mut w, ep, p, *d, vec![], plain, false) {
                    Ok(Some(it)) => items.push(it),
                    Err(e) if !inside => return Err(e),
                    _ => {}
                }
            }
            if inside && ep.rng.gen() {
                poke(&mut w, ep, p, &extra);
            }
        } else {
            let mut new: Vec<(Ev, &'static str)> = vec![];
            for _ in 0..ep.rng.gen_range(1..5) {
                match ep.rng.gen_range(0..20) {
                    0..=7 => new.extend(key_op(&w, ep, att, &mut extra)),
                    8..=9 => new.push(prekey_op(&w, ep, att, &mut extra)),
                    10..=13 => new.push(membership_op(&w, ep, att, &mut extra)),
                    14 => {
                        if w.all.iter().any(|(_, e)| matches!(e, StaticEvent::Delegated(_))) {
                            new.push(hostile::forge(&w, ep, att));
                        }
                    }
                    15 => {
                        let k = if ep.rng.gen_bool(0.05) { 40 } else { ep.rng.gen_range(1..12) };
                        let twice = ep.rng.gen_bool(0.8);
                        new.extend(tower(&w, ep, att, k, twice).into_iter().map(|e| (e, "ladder")));
                    }
                    _ => new.extend(bytes(&w, ep)),
                }
            }
            let mut hs = vec![];
            for (e, what) in new {
                let h = ev_hash(&e);
                if w.by_hash.contains_key(&h) {
                    continue;
                }
                ep.step(format!("hostile {what}: {}", w.show_ev(&e)));
                ep.hit("hostile inputs");
                kinds.insert(what);
                w.by_hash.insert(h, w.all.len());
                w.all.push((h, e));
                bad.insert(h);
                hs.push(h);
            }
            for _ in 0..ep.rng.gen_range(1..3) {
                let to = ep.rng.gen_range(0..n);
                if ep.rng.gen() {
                    w.deliver(to, &hs);
                } else {
                    for h in &hs {
                        hand_over(&mut w, ep, to, *h);
                    }
                }
            }
        }
    }
    for k in &kinds {
        ep.hit(k);
    }
    for p in 0..n {
        w.deliver_missing(ep, p, true);
    }
    if inside {
        // the attacker may do what it may do; everything still answers
        for p in 0..n {
            for _ in 0..3 {
                poke(&mut w, ep, p, &extra);
            }
            w.deliver_missing(ep, p, true);
        }
        ep.nontrivial = kinds.len() > 1;
        return Ok(());
    }
    if outside_via(&w) {
        ep.hit("episodes outside the fragment (authority through a shrinking group)");
        return Ok(());
    }
    let readers: BTreeSet<Identifier> = w.ents.iter().flat_map(|e| ever_readers(&w, e.id)).collect();
    if readers.contains(&public()) || readers.contains(&w.peers[att].id) || extra.iter().any(|s| readers.contains(&s.verifying_key().into())) {
        ep.hit("episodes in which the attacker is let in");
        return Ok(());
    }
    let r = (|| {
        for p in 0..n {
            for h in w.pending(p) {
                if !bad.contains(&h) {
                    return Err(format!("an honest operation is held back when there is hostile input :: p{p}: {}", w.show_ev(w.ev(&h))));
                }
            }
        }
        for e in w.ents.clone() {
            if e.kind == Kind::Doc {
                let p = ep.rng.gen_range(0..n);
                let plain = content::payload(ep);
                if let Some(it) = content::encrypt(&mut w, ep, p, e.id, vec![], plain, false)? {
                    items.push(it);
                }
                for p in 0..n {
                    w.deliver_missing(ep, p, true);
                }
            }
        }
        compare_views(&w, ep)?;
        for it in &items {
            for q in 0..n {
                content::judge(&w, ep, it, q)?;
            }
        }
        Ok(())
    })();
    if r.is_err() {
        dump(&w, ep);
    }
    ep.nontrivial = kinds.len() > 1 && ep.counters.get("views compared").copied().unwrap_or(0) > 0;
    r
}

pub fn inside(ep: &mut Ep) -> EpResult {
    run(ep, true)
}
pub fn outside(ep: &mut Ep) -> EpResult {
    run(ep, false)
}
