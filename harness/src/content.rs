//! Content encryption by whole replicas: who can read what.
use crate::check::{Ep, EpResult};
use crate::mem::*;
use crate::rt::*;
use crate::world::*;
use beekem::encrypted::EncryptedContent;
use keyhive_core::access::Access;
use keyhive_core::principal::identifier::Identifier;
use keyhive_crypto::digest::Digest;
use keyhive_crypto::siv::Siv;
use keyhive_crypto::symmetric_key::SymmetricKey;
use rand::seq::SliceRandom;
use rand::Rng;
use std::collections::BTreeSet;

pub type Enc = EncryptedContent<Vec<u8>, Ref>;

#[derive(Clone)]
pub struct Item {
    pub doc: Identifier,
    pub by: usize,
    pub plain: Vec<u8>,
    pub enc: Enc,
    pub key: SymmetricKey,
    /// Whoever the writer's replica says can read.
    pub readers: BTreeSet<Identifier>,
    /// May or may not be able to read.
    pub unsure: Option<Identifier>,
}

pub fn payload(ep: &mut Ep) -> Vec<u8> {
    let n = [0, 1, 15, 16, 63, 64, 100, 1000][ep.rng.gen_range(0..8)];
    (0..n).map(|_| ep.rng.gen()).collect()
}

/// Replica `p` encrypts for document `d`. `None` if it has no part in the key agreement.
pub fn encrypt(w: &mut World, ep: &mut Ep, p: usize, d: Identifier, preds: Vec<Ref>, plain: Vec<u8>, by_access: bool) -> Result<Option<Item>, String> {
    let Some(doc) = w.doc(p, d) else { return Ok(None) };
    let v = w.view(p, d).unwrap();
    let me = w.peers[p].id;
    let r = w.fresh_ref();
    let res = block_on(w.peers[p].kh.try_encrypt_content_keyed(doc.clone(), &r, &preds, &plain));
    w.collect(p);
    if v.cgka_members.iter().all(|m| *m == d) || v.transitive.iter().all(|(k, a)| *a < Access::Read || w.ents.iter().any(|e| e.id == *k)) {
        // nobody left: whoever created it may still hold its key
        ep.hit("documents without readers");
        return Ok(None);
    }
    if !v.cgka_members.contains(&me) {
        ep.hit("encryption attempts by outsiders");
        if res.is_ok() && !v.cgka_members.contains(&public()) {
            return Err(format!("a replica that is not in a document's key agreement encrypts for it :: p{p} {} {}", w.name(&d), w.show(&v)));
        }
        return Ok(None);
    }
    let (out, key) = res.map_err(|e| format!("a member cannot encrypt: {e} :: p{p} in {}", w.name(&d)))?;
    if out.update_op().is_some() {
        ep.hit("keys rotated by encrypting");
    }
    let enc: Enc = retag(out.encrypted_content());
    if enc.content_ref != r || enc.pred_refs != Digest::hash(&preds) {
        return Err("a ciphertext does not carry its references".into());
    }
    ep.hit("encryptions");
    let v = w.view(p, d).unwrap();
    let readers: BTreeSet<Identifier> = if by_access {
        v.transitive.iter().filter(|(k, a)| **a >= Access::Read && !w.ents.iter().any(|e| e.id == **k)).map(|x| *x.0).collect()
    } else {
        v.cgka_members.clone()
    };
    // The creator acts as the document's own member. A writer that has seen that
    // member leave, but not yet the creator itself, encrypts for a creator that
    // is about to lose access.
    let creator = w.peers[w.ents.iter().find(|e| e.id == d).unwrap().by].id;
    let unsure = (!by_access && !v.cgka_members.contains(&d)).then_some(creator);
    Ok(Some(Item { doc: d, by: p, plain, enc, key, readers, unsure }))
}

/// The type of the plaintext is only a tag.
pub fn retag<A, B>(e: &EncryptedContent<A, Ref>) -> EncryptedContent<B, Ref> {
    EncryptedContent::new(e.nonce, e.ciphertext.clone(), e.pcs_key_hash, e.pcs_update_op_hash, e.content_ref, e.pred_refs)
}

pub fn judge(w: &World, ep: &mut Ep, it: &Item, q: usize) -> EpResult {
    if it.unsure == Some(w.peers[q].id) {
        return Ok(());
    }
    let allowed = it.readers.contains(&w.peers[q].id);
    judge_one(w, ep, it, q, allowed)
}

/// Replica `q` can read this, or cannot.
pub fn judge_one(w: &World, ep: &mut Ep, it: &Item, q: usize, allowed: bool) -> EpResult {
    let got = match w.doc(q, it.doc) {
        None => None,
        Some(d) => block_on(w.peers[q].kh.try_decrypt_content_keyed(d, &it.enc)).ok(),
    };
    match got {
        Some((plain, key)) => {
            if !allowed && !it.readers.contains(&public()) {
                return Err(format!("content is decrypted by a replica that had no access when it was encrypted :: p{q} of p{} in {}", it.by, w.name(&it.doc)));
            }
            if plain != it.plain {
                return Err("decryption yields something else than was encrypted".into());
            }
            if key != it.key {
                return Err("reader and writer report different keys for a content".into());
            }
            ep.hit("reads");
        }
        None => {
            if allowed {
                return Err(format!("content cannot be decrypted by a replica that had access when it was encrypted :: p{q} of p{} in {}", it.by, w.name(&it.doc)));
            }
            ep.hit("reads denied");
        }
    }
    Ok(())
}

fn cfg(ep: &mut Ep) -> Cfg {
    let via = ep.rng.gen_bool(0.3);
    Cfg { peers: ep.rng.gen_range(2..5), ents: ep.rng.gen_range(1..4), steps: ep.rng.gen_range(8..26), via, revoke: !via, nest: via || ep.rng.gen_bool(0.5), docs: true, offer: false, sync: 30 }
}

fn finish(w: &mut World, ep: &mut Ep, items: &mut Vec<Item>, seq: bool) -> EpResult {
    settle(w, ep)?;
    // everybody can still write, and be read
    for e in w.ents.clone() {
        if e.kind != Kind::Doc {
            continue;
        }
        for _ in 0..2 {
            let p = ep.rng.gen_range(0..w.peers.len());
            let plain = payload(ep);
            if let Some(it) = encrypt(w, ep, p, e.id, vec![], plain, seq)? {
                items.push(it);
                settle(w, ep)?;
            }
        }
    }
    items.shuffle(&mut ep.rng);
    for it in items.iter() {
        for q in 0..w.peers.len() {
            if let Err(e) = judge(w, ep, it, q) {
                dump(w, ep);
                return Err(e);
            }
        }
    }
    ep.nontrivial = items.len() > 1 && ep.counters.get("reads denied").copied().unwrap_or(0) > 0;
    Ok(())
}

pub fn run(ep: &mut Ep, seq: bool, hostile: bool, restarts: bool) -> EpResult {
    let c = cfg(ep);
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    let mut items: Vec<Item> = vec![];
    for _ in 0..c.steps {
        if let Some(x) = w.complaints.pop() {
            return Err(x);
        }
        let p = ep.rng.gen_range(0..c.peers);
        let docs: Vec<Identifier> = w.ents.iter().filter(|e| e.kind == Kind::Doc).map(|e| e.id).filter(|d| w.doc(p, *d).is_some()).collect();
        let r = ep.rng.gen_range(0..100);
        if r < 35 && !docs.is_empty() {
            let d = *docs.choose(&mut ep.rng).unwrap();
            if ep.rng.gen_bool(0.15) {
                let doc = w.doc(p, d).unwrap();
                let ok = block_on(w.peers[p].kh.force_pcs_update(doc)).is_ok();
                w.collect(p);
                ep.step(format!("p{p}: rotate the key of {} ({ok})", w.name(&d)));
                ep.hit("key rotations");
            } else {
                let mut preds: Vec<Ref> = items.iter().filter(|i| i.doc == d).map(|i| i.enc.content_ref).collect();
                preds.shuffle(&mut ep.rng);
                preds.truncate(ep.rng.gen_range(0..3));
                let plain = payload(ep);
                if let Some(it) = encrypt(&mut w, ep, p, d, preds, plain, seq)? {
                    ep.step(format!("p{p}: encrypt for {}", w.name(&d)));
                    items.push(it);
                }
            }
        } else if r < 55 && !seq {
            let q = ep.rng.gen_range(0..c.peers);
            let mut miss: Vec<H> = w.all.iter().map(|(h, _)| *h).filter(|h| !w.peers[p].has.contains(h) && w.peers[q].has.contains(h)).collect();
            if !miss.is_empty() {
                ep.step(format!("p{q} -> p{p}: {} events", miss.len()));
                w.deliver_set(ep, p, &mut miss, true);
            }
        } else {
            let s = act(&mut w, ep, &c, p);
            if !s.ends_with("idle") {
                ep.step(s);
            }
        }
        if outside_via(&w) {
            ep.hit("episodes outside the fragment (authority through a shrinking group)");
            return Ok(());
        }
        // whoever can read now may read now: keys get cached, or not
        if let Some(it) = items.choose(&mut ep.rng).cloned() {
            let q = ep.rng.gen_range(0..c.peers);
            if let Some(d) = w.doc(q, it.doc) {
                let e = if hostile && ep.rng.gen_bool(0.7) {
                    ep.hit("altered ciphertexts tried");
                    let ops: Vec<H> = w.all.iter().filter_map(|(_, e)| match e {
                        Ev::CgkaOperation(o) => Some(*Digest::hash(o.as_ref()).raw.as_bytes()),
                        _ => None,
                    }).collect();
                    let t = alter(ep, &it.enc, &items, &ops);
                    offer_altered(&w, ep, q, d, &t, &items)?;
                    None
                } else {
                    block_on(w.peers[q].kh.try_decrypt_content(d, &it.enc)).ok()
                };
                if e.is_some_and(|e| e != it.plain) {
                    return Err("decryption yields something else than was encrypted".into());
                }
            }
        }
        if seq {
            for q in 0..c.peers {
                w.deliver_missing(ep, q, false);
            }
        }
        if restarts && ep.rng.gen_bool(0.25) {
            let p = ep.rng.gen_range(0..c.peers);
            crate::archive::restart(&mut w, ep, p)?;
        }
        if hostile && ep.rng.gen_bool(0.5) {
            poison(&mut w, ep, &mut items, seq)?;
        }
    }
    finish(&mut w, ep, &mut items, seq)
}

/// A replica that has just learnt of a new key is given altered ciphertexts
/// before real ones, writes something, and the key changes.
fn poison(w: &mut World, ep: &mut Ep, items: &mut Vec<Item>, seq: bool) -> EpResult {
    let Some(it) = items.last().cloned() else { return Ok(()) };
    let q = ep.rng.gen_range(0..w.peers.len());
    let Some(d) = w.doc(q, it.doc) else { return Ok(()) };
    for _ in 0..ep.rng.gen_range(1..4) {
        ep.hit("altered ciphertexts tried");
        let ops: Vec<H> = w.all.iter().filter_map(|(_, e)| match e {
            Ev::CgkaOperation(o) => Some(*Digest::hash(o.as_ref()).raw.as_bytes()),
            _ => None,
        }).collect();
        let t = alter(ep, &it.enc, items, &ops);
        offer_altered(w, ep, q, d.clone(), &t, items)?;
    }
    let plain = payload(ep);
    if let Some(n) = encrypt(w, ep, q, it.doc, vec![], plain, seq)? {
        ep.step(format!("p{q}: encrypt for {} after altered ciphertexts", w.name(&it.doc)));
        items.push(n);
        ep.hit("writes after altered ciphertexts");
    }
    let q = ep.rng.gen_range(0..w.peers.len());
    if let Some(d) = w.doc(q, it.doc) {
        if block_on(w.peers[q].kh.force_pcs_update(d)).is_ok() {
            ep.step(format!("p{q}: rotate the key of {}", w.name(&it.doc)));
        }
        w.collect(q);
    }
    if seq {
        for q in 0..w.peers.len() {
            w.deliver_missing(ep, q, false);
        }
    }
    Ok(())
}

fn offer_altered(w: &World, ep: &mut Ep, q: usize, d: std::sync::Arc<futures::lock::Mutex<Doc>>, t: &Enc, items: &[Item]) -> EpResult {
    let x = block_on(w.peers[q].kh.try_decrypt_content(d, t));
    // which update made the key is only a hint for finding it
    let same = |i: &&Item| {
        let mut t = t.clone();
        t.pcs_update_op_hash = i.enc.pcs_update_op_hash;
        i.enc == t
    };
    match (items.iter().find(same), x) {
        (Some(i), Ok(x)) if i.plain != x => return Err("decryption yields something else than was encrypted".into()),
        (Some(_), _) => ep.hit("alterations without effect"),
        (None, Ok(x)) if !items.iter().any(|i| i.plain == x) => return Err("an altered ciphertext decrypts to something that was not encrypted".into()),
        (None, Ok(_)) => return Err("an altered ciphertext is taken for a genuine one".into()),
        (None, Err(_)) => ep.hit("altered ciphertexts refused"),
    }
    Ok(())
}

/// One field of a ciphertext changed.
pub fn alter(ep: &mut Ep, e: &Enc, items: &[Item], ops: &[H]) -> Enc {
    let o = &items.choose(&mut ep.rng).unwrap().enc;
    let mut t = e.clone();
    let rnd: [u8; 32] = ep.rng.gen();
    match ep.rng.gen_range(0..13) {
        0 => {
            if !t.ciphertext.is_empty() {
                let i = ep.rng.gen_range(0..t.ciphertext.len());
                t.ciphertext[i] ^= 1 << ep.rng.gen_range(0..8);
            }
        }
        1 => {
            let mut n: [u8; 24] = t.nonce.into();
            n[ep.rng.gen_range(0..24)] ^= 1 << ep.rng.gen_range(0..8);
            t.nonce = Siv::from(n);
        }
        2 => t.ciphertext.truncate(t.ciphertext.len().saturating_sub(ep.rng.gen_range(1..20))),
        3 => t.content_ref = if ep.rng.gen() { o.content_ref } else { rnd },
        4 => t.pred_refs = if ep.rng.gen() { o.pred_refs } else { Digest::from(rnd) },
        5 => t.pcs_key_hash = if ep.rng.gen() { o.pcs_key_hash } else { Digest::from(rnd) },
        6 => t.pcs_update_op_hash = o.pcs_update_op_hash,
        7 => t.pcs_update_op_hash = Digest::from(rnd),
        8 => {
            t.pcs_update_op_hash = o.pcs_update_op_hash;
            t.pcs_key_hash = o.pcs_key_hash;
        }
        9 | 10 => t.pcs_update_op_hash = ops.choose(&mut ep.rng).map(|h| Digest::from(*h)).unwrap_or(t.pcs_update_op_hash),
        11 => {
            t.pcs_key_hash = Digest::from(rnd);
            t.pcs_update_op_hash = ops.choose(&mut ep.rng).map(|h| Digest::from(*h)).unwrap_or(t.pcs_update_op_hash);
        }
        _ => {
            t.ciphertext = o.ciphertext.clone();
            t.nonce = o.nonce;
        }
    }
    t
}

pub fn concurrent(ep: &mut Ep) -> EpResult {
    run(ep, false, false, false)
}
pub fn sequential(ep: &mut Ep) -> EpResult {
    run(ep, true, false, false)
}
pub fn tampered(ep: &mut Ep) -> EpResult {
    let seq = ep.rng.gen_bool(0.5);
    run(ep, seq, true, false)
}
