//! What is written out reads back as the same thing, and what was altered on the
//! way is not taken for it.
use crate::archive::{archive_bytes, secrets};
use crate::check::{Ep, EpResult};
use crate::content::{encrypt, judge_one, payload, Enc, Item};
use crate::ingest::{feed, WAYS};
use crate::listener::{holdings, kind, same_views};
use crate::mem::*;
use crate::prekeys::key_op;
use crate::rt::*;
use crate::world::*;
use beekem::operation::CgkaOperation;
use keyhive_core::archive::Archive;
use keyhive_core::contact_card::ContactCard;
use keyhive_core::crypto::envelope::Envelope;
use keyhive_core::event::static_event::StaticEvent;
use keyhive_core::principal::group::{delegation::StaticDelegation, revocation::StaticRevocation};
use keyhive_core::principal::identifier::Identifier;
use keyhive_core::principal::individual::op::{add_key::AddKeyOp, rotate_key::RotateKeyOp, KeyOp};
use keyhive_crypto::digest::Digest;
use keyhive_crypto::share_key::{ShareKey, ShareSecretKey};
use keyhive_crypto::signed::Signed;
use keyhive_crypto::symmetric_key::SymmetricKey;
use rand::seq::SliceRandom;
use rand::Rng;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;

fn bytes<T: Serialize>(t: &T) -> Vec<u8> {
    bincode::serialize(t).expect("serialises")
}

fn signed<T: Serialize + DeserializeOwned + Debug + Clone>(s: &Signed<T>, what: &str) -> EpResult {
    let b = bytes(s);
    let back: Signed<T> = bincode::deserialize(&b).map_err(|e| format!("{what} cannot be read back: {e}"))?;
    if bytes(&back) != b {
        return Err(format!("{what} reads back as something else"));
    }
    if back.try_verify().is_err() || s.try_verify().is_err() {
        return Err(format!("the signature of {what} that was read back is not valid"));
    }
    let h = blake3::hash(&b);
    if back.digest().raw.as_bytes() != h.as_bytes() || s.digest().raw.as_bytes() != h.as_bytes() || Digest::hash(&back).raw.as_bytes() != h.as_bytes() {
        return Err(format!("the identity of {what} depends on more than its encoding"));
    }
    if back.clone().digest() != back.digest() || *s != back {
        return Err(format!("{what} that was read back is not equal"));
    }
    // whoever else signs it makes another one
    let mut other = s.clone();
    other.signature = ed25519_dalek::Signature::from_bytes(&[1; 64]);
    let other = Signed::new(other.payload, other.issuer, other.signature);
    if other == *s || other.digest() == s.digest() || other.try_verify().is_ok() {
        return Err(format!("{what} is taken for one that was not signed"));
    }
    Ok(())
}

pub fn event(e: &Ev) -> Result<Ev, String> {
    match e {
        StaticEvent::PrekeysExpanded(o) => signed(o, "a prekey operation")?,
        StaticEvent::PrekeyRotated(o) => signed(o, "a prekey operation")?,
        StaticEvent::CgkaOperation(o) => signed(o, "a key-agreement operation")?,
        StaticEvent::Delegated(o) => signed(o, "a delegation")?,
        StaticEvent::Revoked(o) => signed(o, "a revocation")?,
    }
    let b = bytes(e);
    let back: Ev = bincode::deserialize(&b).map_err(|e| format!("an event cannot be read back: {e}"))?;
    if bytes(&back) != b || back != *e || kind(&back) != kind(e) {
        return Err("an event reads back as something else".into());
    }
    Ok(back)
}

/// Histories and contents, written out and read back into new replicas.
pub fn roundtrip(ep: &mut Ep) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(2..4), ents: ep.rng.gen_range(1..4), steps: ep.rng.gen_range(4..14), via: false, revoke: true, nest: ep.rng.gen_bool(0.5), docs: true, offer: false, sync: 40 };
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    let mut items: Vec<Item> = vec![];
    for _ in 0..ep.rng.gen_range(1..4) {
        run_script(&mut w, ep, &c)?;
        let p = ep.rng.gen_range(0..c.peers);
        for e in w.ents.clone() {
            if e.kind == Kind::Doc && w.doc(p, e.id).is_some() {
                let mut preds: Vec<Ref> = items.iter().filter(|i| i.doc == e.id).map(|i| i.enc.content_ref).collect();
                preds.shuffle(&mut ep.rng);
                preds.truncate(2);
                let plain = payload(ep);
                items.extend(encrypt(&mut w, ep, p, e.id, preds, plain, false)?);
            }
        }
        let p = ep.rng.gen_range(0..c.peers);
        if ep.rng.gen_bool(0.5) {
            block_on(w.peers[p].kh.expand_prekeys()).map_err(|e| format!("expand_prekeys: {e}"))?;
        } else {
            block_on(w.peers[p].kh.contact_card()).map_err(|e| format!("contact_card: {e}"))?;
        }
        w.collect(p);
    }
    if outside_via(&w) {
        return Ok(());
    }
    settle(&mut w, ep)?;
    // all events, also those made with the identities
    for p in 0..c.peers {
        for (_, e) in holdings(&w, p) {
            w.publish(p, e);
        }
    }
    let mut back = vec![];
    for (_, e) in &w.all {
        let b = event(e)?;
        if let Some(o) = key_op(&b) {
            card(ep, &o)?;
        }
        ep.hit(match kind(e) {
            "delegation" => "delegations read back",
            "revocation" => "revocations read back",
            _ => "other operations read back",
        });
        back.push(b);
    }
    // a new device takes the events as they were read, mixed
    let p = ep.rng.gen_range(0..c.peers);
    let f = w.reinstall(ep, p, 5000);
    back.shuffle(&mut ep.rng);
    for e in &back {
        w.peers[f].has.insert(ev_hash(e));
    }
    let left = block_on(w.peers[f].kh.ingest_unsorted_static_events(back));
    w.collect(f);
    if !left.is_empty() {
        return Err("events that were read back stay pending at a new device".into());
    }
    same_views(&w, ep, p, f, "a device made of what was read back")?;
    for it in &items {
        let b = bytes(&it.enc);
        let back: Enc = bincode::deserialize(&b).map_err(|e| format!("a ciphertext cannot be read back: {e}"))?;
        if back != it.enc || bytes(&back) != b {
            return Err("a ciphertext reads back as something else".into());
        }
        let it = Item { enc: back, ..it.clone() };
        for q in 0..c.peers {
            if it.unsure != Some(w.peers[q].id) {
                judge_one(&w, ep, &it, q, it.readers.contains(&w.peers[q].id))?;
            }
        }
        ep.hit("ciphertexts read back");
    }
    // what a replica keeps for itself
    for p in 0..c.peers {
        let blob = block_on(w.peers[p].kh.export_prekey_secrets()).map_err(|e| format!("export_prekey_secrets: {e}"))?;
        let m: BTreeMap<ShareKey, ShareSecretKey> = bincode::deserialize(&blob).map_err(|e| format!("exported secrets cannot be read back: {e}"))?;
        if bytes(&m) != blob || m.iter().any(|(k, s)| s.share_key() != *k) {
            return Err("exported secrets read back as something else".into());
        }
        let a = block_on(w.peers[p].kh.into_archive());
        let back: Archive<Ref> = bincode::deserialize(&bytes(&a)).map_err(|e| format!("an archive cannot be read back: {e}"))?;
        if back != a || back.id() != a.id() {
            return Err("an archive reads back as something else".into());
        }
        ep.hit("archives read back");
    }
    // envelopes of causal encryption
    let mut anc: HashMap<Ref, SymmetricKey> = HashMap::new();
    for it in &items {
        if ep.rng.gen_bool(0.7) {
            anc.insert(it.enc.content_ref, it.key);
        }
    }
    let env = Envelope { plaintext: payload(ep), ancestors: anc };
    let b = bytes(&env);
    let back: Envelope<Ref, Vec<u8>> = bincode::deserialize(&b).map_err(|e| format!("an envelope cannot be read back: {e}"))?;
    if back != env || bytes(&back) != b {
        return Err("an envelope reads back as something else".into());
    }
    ep.hit("envelopes read back");
    ep.nontrivial = w.all.len() > 6 && !items.is_empty();
    Ok(())
}

fn card(ep: &mut Ep, o: &KeyOp) -> EpResult {
    let c = ContactCard::from(o.clone());
    let b: ContactCard = bincode::deserialize(&bytes(&c)).map_err(|e| format!("a contact card cannot be read back: {e}"))?;
    let j = serde_json::to_string(&c).map_err(|e| format!("a contact card has no JSON: {e}"))?;
    let jb: ContactCard = serde_json::from_str(&j).map_err(|e| format!("a contact card cannot be read back from JSON: {e}"))?;
    for x in [&b, &jb] {
        if *x != c || bytes(x) != bytes(&c) || x.id() != c.id() || x.share_key() != c.share_key() || x.op().try_verify().is_err() {
            return Err("a contact card reads back as something else".into());
        }
    }
    ep.hit("contact cards read back");
    Ok(())
}

/// Some alteration of an encoding. `other` is another encoding of the same kind of thing.
pub fn mutate(ep: &mut Ep, b: &mut Vec<u8>, other: &[u8]) {
    for _ in 0..[1, 1, 1, 2, 5][ep.rng.gen_range(0..5)] {
        if b.is_empty() {
            b.push(ep.rng.gen());
            continue;
        }
        let i = ep.rng.gen_range(0..b.len());
        match ep.rng.gen_range(0..9) {
            0 | 1 => b[i] ^= 1 << ep.rng.gen_range(0..8),
            2 => b[i] = ep.rng.gen(),
            3 => b[i] = [0, 1, 2, 3, 0x7f, 0x80, 0xff][ep.rng.gen_range(0..7)],
            4 => b.truncate(i),
            5 => b.insert(i, ep.rng.gen()),
            6 => {
                b.remove(i);
            }
            7 => {
                // a stretch from elsewhere, at the same place
                let j = (i + [1, 4, 8, 32, 64][ep.rng.gen_range(0..5)]).min(b.len()).min(other.len());
                if i < j {
                    b[i..j].copy_from_slice(&other[i..j]);
                }
            }
            _ => {
                // a length or a count
                let j = (i + 8).min(b.len());
                let v = [0u64, 1, 2, 1 << 20, 1 << 40, u64::MAX][ep.rng.gen_range(0..6)].to_le_bytes();
                b[i..j].copy_from_slice(&v[..j - i]);
            }
        }
    }
}

fn reread<T: Serialize, U: Serialize + DeserializeOwned + Debug>(s: &Signed<T>) -> Option<Signed<U>>
where
    T: Debug,
{
    let b = bytes(&s.payload);
    let u: U = bincode::deserialize(&b).ok()?;
    Some(Signed::new(u, s.issuer, s.signature))
}

/// The signature of one kind of operation, put under another that starts with the same bytes.
fn reinterpreted(e: &Ev) -> Vec<Ev> {
    fn all<T: Serialize + Debug>(s: &Signed<T>) -> Vec<Ev> {
        let mut v: Vec<Ev> = vec![];
        v.extend(reread::<T, AddKeyOp>(s).map(|x| StaticEvent::PrekeysExpanded(Box::new(x))));
        v.extend(reread::<T, RotateKeyOp>(s).map(|x| StaticEvent::PrekeyRotated(Box::new(x))));
        v.extend(reread::<T, CgkaOperation>(s).map(|x| StaticEvent::CgkaOperation(Box::new(x))));
        v.extend(reread::<T, StaticDelegation<Ref>>(s).map(StaticEvent::Delegated));
        v.extend(reread::<T, StaticRevocation<Ref>>(s).map(StaticEvent::Revoked));
        v
    }
    let mut v = match e {
        StaticEvent::PrekeysExpanded(o) => all(o),
        StaticEvent::PrekeyRotated(o) => all(o),
        StaticEvent::CgkaOperation(o) => all(o),
        StaticEvent::Delegated(o) => all(o),
        StaticEvent::Revoked(o) => all(o),
    };
    v.retain(|x| kind(x) != kind(e));
    v
}

/// Events altered on the way, whatever way they are handed over.
pub fn altered(ep: &mut Ep) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(2..4), ents: ep.rng.gen_range(1..4), steps: ep.rng.gen_range(5..16), via: false, revoke: true, nest: ep.rng.gen_bool(0.5), docs: true, offer: false, sync: 40 };
    let mut w = World::new(ep, c.peers + 1);
    w.introduce_all();
    let v = c.peers; // the victim
    run_script(&mut w, ep, &c)?;
    if outside_via(&w) {
        return Ok(());
    }
    settle(&mut w, ep)?;
    let honest: BTreeSet<H> = w.all.iter().map(|x| x.0).chain(w.peers.iter().flat_map(|q| q.initial.iter().copied())).collect();
    let evs: Vec<Ev> = w.all.iter().map(|x| x.1.clone()).collect();
    if evs.is_empty() {
        return Ok(());
    }
    // a new device of the victim, that has nothing yet
    let f = w.reinstall(ep, v, 6000);
    let honest: BTreeSet<H> = honest.into_iter().chain(w.peers[f].initial.iter().copied()).collect();
    let mut todo: Vec<H> = w.all.iter().map(|x| x.0).collect();
    todo.shuffle(&mut ep.rng);
    let mut bad: Vec<Ev> = vec![];
    let n = ep.rng.gen_range(20..60);
    for _ in 0..n {
        let e = evs.choose(&mut ep.rng).unwrap();
        if ep.rng.gen_bool(0.1) {
            bad.extend(reinterpreted(e));
            continue;
        }
        let same: Vec<&Ev> = evs.iter().filter(|x| kind(x) == kind(e)).collect();
        let other = bytes(*same.choose(&mut ep.rng).unwrap());
        let mut b = bytes(e);
        mutate(ep, &mut b, &other);
        ep.hit("encodings altered");
        let Ok(x) = bincode::deserialize::<Ev>(&b) else {
            ep.hit("altered encodings that cannot be read");
            continue;
        };
        if honest.contains(&ev_hash(&x)) {
            ep.hit("alterations without effect");
            continue;
        }
        bad.push(x);
    }
    let mut judged = 0;
    while !todo.is_empty() || !bad.is_empty() {
        if let Some(e) = bad.pop() {
            let before = w.peers[f].rec.len();
            let kh = w.peers[f].kh.clone();
            let e2 = e.clone();
            let res = match ep.rng.gen_range(0..3) {
                0 => block_on(kh.receive_static_event(e2)).is_ok(),
                1 => {
                    if let Some(o) = key_op(&e2) {
                        if ep.rng.gen_bool(0.5) {
                            block_on(kh.receive_contact_card(&ContactCard::from(o))).is_ok()
                        } else {
                            block_on(kh.receive_prekey_op(&o)).is_ok()
                        }
                    } else if let StaticEvent::CgkaOperation(o) = e2 {
                        block_on(kh.receive_cgka_op(*o)).is_ok()
                    } else {
                        block_on(kh.receive_static_event(e2)).is_ok()
                    }
                }
                _ => {
                    block_on(kh.ingest_unsorted_static_events(vec![e2]));
                    false
                }
            };
            if res {
                return Err(format!("an altered operation is accepted :: {}", w.show_ev(&e)));
            }
            let told: Vec<Ev> = w.peers[f].rec.log.lock().unwrap()[before..].to_vec();
            if told.iter().any(|t| !honest.contains(&ev_hash(t))) {
                return Err(format!("an altered operation is reported to the listener :: {}", w.show_ev(&e)));
            }
            judged += 1;
            ep.hit("altered operations refused");
        }
        if ep.rng.gen_bool(0.5) && !todo.is_empty() {
            let k = ep.rng.gen_range(1..=todo.len().min(12));
            let now: Vec<H> = todo.drain(..k).collect();
            let way = WAYS.choose(&mut ep.rng).unwrap();
            feed(&mut w, ep, f, now, way)?;
        } else if bad.is_empty() {
            let now: Vec<H> = todo.drain(..).collect();
            feed(&mut w, ep, f, now, WAYS[0])?;
        }
    }
    for h in holdings(&w, f).keys() {
        if !honest.contains(h) {
            return Err("an altered operation is among those that a replica holds".into());
        }
    }
    block_on(w.peers[f].kh.ingest_unsorted_static_events(evs));
    w.collect(f);
    same_views(&w, ep, v, f, "a device that was given altered operations")?;
    ep.nontrivial = judged > 3;
    Ok(())
}

/// Bytes that are not what they should be, for all that is read.
pub fn garbage(ep: &mut Ep) -> EpResult {
    let c = Cfg { peers: 2, ents: 2, steps: 6, via: false, revoke: true, nest: ep.rng.gen_bool(0.5), docs: true, offer: false, sync: 40 };
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    run_script(&mut w, ep, &c)?;
    let mut enc = None;
    for e in w.ents.clone() {
        if e.kind == Kind::Doc && w.doc(0, e.id).is_some() {
            let plain = payload(ep);
            enc = encrypt(&mut w, ep, 0, e.id, vec![[9; 32]], plain, false)?.or(enc);
        }
    }
    let arch = [archive_bytes(&w, 0), archive_bytes(&w, 1)];
    let blobs: Vec<Vec<u8>> = (0..2).map(|p| block_on(w.peers[p].kh.export_prekey_secrets()).unwrap()).collect();
    let card = block_on(w.peers[0].kh.contact_card()).map_err(|e| format!("contact_card: {e}"))?;
    let card1 = block_on(w.peers[1].kh.contact_card()).map_err(|e| format!("contact_card: {e}"))?;
    let (cb, cb1) = (bytes(&card), bytes(&card1));
    let (cj, cj1) = (serde_json::to_vec(&card).unwrap(), serde_json::to_vec(&card1).unwrap());
    let env = bytes(&Envelope::<Ref, Vec<u8>> { plaintext: payload(ep), ancestors: (0..3u8).map(|i| ([i; 32], SymmetricKey::from([i; 32]))).collect() });
    for _ in 0..30 {
        ep.hit("encodings altered");
        match ep.rng.gen_range(0..6) {
            0 => {
                let mut b = arch[0].clone();
                mutate(ep, &mut b, &arch[1]);
                // what is in an archive is trusted, so it is only read
                let _ = bincode::deserialize::<Archive<Ref>>(&b);
                ep.hit("altered archives");
            }
            1 => {
                let mut b = blobs[1].clone();
                mutate(ep, &mut b, &blobs[0]);
                let before = secrets(&w, 0);
                let r = block_on(w.peers[0].kh.import_prekey_secrets(&b));
                let after = secrets(&w, 0);
                if r.is_err() && after != before {
                    return Err("secrets that cannot be read change those that are held".into());
                }
                if before.keys().any(|k| !after.contains_key(k)) {
                    return Err("importing secrets loses some".into());
                }
                ep.hit("altered secrets");
            }
            2 => {
                let mut b = cb.clone();
                mutate(ep, &mut b, &cb1);
                if let Ok(x) = bincode::deserialize::<ContactCard>(&b) {
                    taken(&w, ep, &[&card, &card1], &x)?;
                }
            }
            3 => {
                let mut b = cj.clone();
                mutate(ep, &mut b, &cj1);
                if let Ok(x) = serde_json::from_slice::<ContactCard>(&b) {
                    taken(&w, ep, &[&card, &card1], &x)?;
                }
            }
            4 => {
                let mut b = env.clone();
                mutate(ep, &mut b, &cb1);
                let _ = bincode::deserialize::<Envelope<Ref, Vec<u8>>>(&b);
                ep.hit("altered envelopes");
            }
            _ => {
                let Some(it) = &enc else { continue };
                let mut b = bytes(&it.enc);
                mutate(ep, &mut b, &cb1);
                if let Ok(x) = bincode::deserialize::<Enc>(&b) {
                    let got = block_on(w.peers[0].kh.try_decrypt_content(w.doc(0, it.doc).unwrap(), &x));
                    if let Ok(p) = got {
                        if p != it.plain {
                            return Err("an altered ciphertext is decrypted to something else".into());
                        }
                    }
                    ep.hit("altered ciphertexts");
                }
            }
        }
    }
    ep.nontrivial = true;
    Ok(())
}

fn taken(w: &World, ep: &mut Ep, cards: &[&ContactCard], x: &ContactCard) -> EpResult {
    let genuine = cards.iter().any(|c| bytes(*c) == bytes(x));
    let before = w.peers[1].rec.len();
    let r = block_on(w.peers[1].kh.receive_contact_card(x));
    if !genuine && (r.is_ok() || w.peers[1].rec.len() != before || w.agent(1, Identifier::from(*x.op().issuer())).is_some_and(|a| block_on(a.key_ops()).values().any(|o| bytes(&**o) == bytes(x.op())))) {
        return Err("an altered contact card is accepted".into());
    }
    ep.hit("altered contact cards");
    Ok(())
}
