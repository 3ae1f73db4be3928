//! Prekeys: which keys an individual can be reached by, at every replica, and that
//! the individual can be reached by them.
use crate::archive::{restart, secrets};
use crate::check::{Ep, EpResult};
use crate::content::{encrypt, judge_one, payload, Item};
use crate::hostile::sign;
use crate::mem::*;
use crate::rt::*;
use crate::world::*;
use beekem::operation::CgkaOperation;
use keyhive_core::access::Access;
use keyhive_core::contact_card::ContactCard;
use keyhive_core::event::static_event::StaticEvent;
use keyhive_core::principal::document::id::DocumentId;
use keyhive_core::principal::identifier::Identifier;
use keyhive_core::principal::individual::op::{add_key::AddKeyOp, rotate_key::RotateKeyOp, KeyOp};
use keyhive_crypto::share_key::{ShareKey, ShareSecretKey};
use keyhive_crypto::signed::Signed;
use keyhive_crypto::verifiable::Verifiable;
use rand::seq::SliceRandom;
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, OnceLock};

/// Documents to pick prekeys for: enough to come across every key of a small set.
fn samples() -> &'static Vec<DocumentId> {
    static S: OnceLock<Vec<DocumentId>> = OnceLock::new();
    S.get_or_init(|| (0u64..900).map(|i| DocumentId::from(Identifier::from(ed25519_dalek::SigningKey::from_bytes(blake3::hash(&i.to_le_bytes()).as_bytes()).verifying_key()))).collect())
}

pub fn key_op(e: &Ev) -> Option<KeyOp> {
    match e {
        StaticEvent::PrekeysExpanded(o) => Some(KeyOp::Add(Arc::new((**o).clone()))),
        StaticEvent::PrekeyRotated(o) => Some(KeyOp::Rotate(Arc::new((**o).clone()))),
        _ => None,
    }
}

/// The keys that a set of prekey operations leaves in use.
fn active<'a>(ops: impl Iterator<Item = &'a KeyOp>) -> BTreeSet<ShareKey> {
    let (mut all, mut gone) = (BTreeSet::new(), BTreeSet::new());
    for o in ops {
        match o {
            KeyOp::Add(a) => {
                all.insert(a.payload.share_key);
            }
            KeyOp::Rotate(r) => {
                all.insert(r.payload.new);
                gone.insert(r.payload.old);
            }
        }
    }
    let left: BTreeSet<ShareKey> = all.difference(&gone).copied().collect();
    if left.is_empty() {
        all
    } else {
        left
    }
}

type Model = BTreeMap<Identifier, BTreeMap<H, KeyOp>>;

fn learn(m: &mut Model, e: &Ev) {
    if let Some(o) = key_op(e) {
        let id = Identifier::from(*o.issuer());
        if id != public() {
            m.entry(id).or_default().insert(ev_hash(e), o);
        }
    }
}

fn ops_of(ag: &Ag) -> BTreeMap<H, KeyOp> {
    block_on(ag.key_ops()).values().map(|o| (ev_hash(&key_event(o)), (**o).clone())).collect()
}

/// What replica `q` says about the prekeys of `id` is what its operations say.
/// `said` is which key was picked for a document when these keys were in use.
type Said = BTreeMap<(Identifier, BTreeSet<ShareKey>, usize), ShareKey>;

fn judge(w: &World, ep: &mut Ep, q: usize, id: Identifier, m: &Model, said: &mut Said, full: bool) -> EpResult {
    let want = m.get(&id);
    let Some(ag) = w.agent(q, id) else {
        if want.is_some() {
            return Err("a replica with prekey operations of an individual does not know it".into());
        }
        return Ok(());
    };
    let Some(want) = want else {
        return Err(format!("a replica knows an individual that it has no operation of :: p{q} {}", w.name(&id)));
    };
    let have = ops_of(&ag);
    if have.keys().ne(want.keys()) {
        return Err(format!("an individual has other prekey operations than were made by it and received :: p{q} of {}: {} / {}", w.name(&id), have.len(), want.len()));
    }
    let act = active(want.values());
    let n = if full { samples().len() } else { 12 };
    let skip = if full { 0 } else { ep.rng.gen_range(0..samples().len() - n) };
    let mut seen = BTreeSet::new();
    for i in skip..skip + n {
        let d = &samples()[i];
        let picks = block_on(ag.pick_individual_prekeys(*d));
        if picks.len() != 1 {
            return Err("an individual is reached by other than one prekey".into());
        }
        let (who, k) = picks.into_iter().next().unwrap();
        if Identifier::from(who) != id {
            return Err("a prekey is given for somebody else".into());
        }
        if !act.contains(&k) {
            let was = want.values().any(|o| *o.new_key() == k);
            return Err(format!("{} :: p{q} of {}", if was { "a prekey that was rotated away is used by a replica that knows" } else { "a prekey is used that its owner never published" }, w.name(&id)));
        }
        seen.insert(k);
        if i < 20 && *said.entry((id, act.clone(), i)).or_insert(k) != k {
            return Err(format!("which prekey is picked depends on more than the published set and the document :: p{q} of {}", w.name(&id)));
        }
    }
    if full && act.len() <= 20 && seen != act {
        return Err(format!("a published prekey is never used :: p{q} of {}: {} of {}", w.name(&id), seen.len(), act.len()));
    }
    ep.hit(if full { "prekey sets compared in full" } else { "prekey picks judged" });
    Ok(())
}

/// Somebody's own secrets cover all that it published.
fn owned(w: &World, p: usize) -> EpResult {
    let s = secrets(w, p);
    let ag = w.agent(p, w.peers[p].id).expect("a replica knows itself");
    for o in ops_of(&ag).values() {
        let k = bincode::serialize(o.new_key()).unwrap();
        let Some(sk) = s.get(&k) else {
            return Err("a replica published a prekey that it has no secret of".into());
        };
        let sk: ShareSecretKey = bincode::deserialize(sk).expect("a secret");
        if sk.share_key() != *o.new_key() {
            return Err("a replica's secret is not that of its prekey".into());
        }
    }
    Ok(())
}

/// An operation that its purported author did not make.
fn forged(w: &World, ep: &mut Ep, a: usize) -> (Ev, &'static str) {
    let victim = w.peers.choose(&mut ep.rng).unwrap().id;
    let salt = ep.rng.gen_range(0..1u64 << 40);
    let k = ShareSecretKey::generate(&mut ep.csprng(salt)).share_key();
    let ops: Vec<KeyOp> = w.all.iter().filter_map(|(_, e)| key_op(e)).collect();
    let o = ops.choose(&mut ep.rng).unwrap().clone();
    let s = &w.peers[a].signer;
    match ep.rng.gen_range(0..4) {
        0 => {
            let mut f = sign(s, AddKeyOp { share_key: k });
            if victim != w.peers[a].id {
                f.issuer = victim.0;
            } else {
                f.payload.share_key = *o.new_key();
                f.signature = ed25519_dalek::Signature::from_bytes(&[7; 64]);
            }
            (StaticEvent::PrekeysExpanded(Box::new(f)), "in another's name")
        }
        1 => {
            let mut f = sign(s, RotateKeyOp { old: *o.new_key(), new: k });
            if victim != w.peers[a].id {
                f.issuer = victim.0;
            } else {
                f.payload.old = k;
            }
            (StaticEvent::PrekeyRotated(Box::new(f)), "in another's name")
        }
        2 => (
            match o {
                KeyOp::Add(a) => StaticEvent::PrekeysExpanded(Box::new(Signed::new(AddKeyOp { share_key: k }, a.issuer, a.signature))),
                KeyOp::Rotate(r) => StaticEvent::PrekeyRotated(Box::new(if ep.rng.gen_bool(0.5) { Signed::new(RotateKeyOp { old: r.payload.old, new: k }, r.issuer, r.signature) } else { Signed::new(RotateKeyOp { old: k, new: r.payload.new }, r.issuer, r.signature) })),
            },
            "altered",
        ),
        _ => {
            // by somebody with the key that everybody knows
            let s = keyhive_core::principal::public::Public.signer();
            let pk = keyhive_core::principal::public::Public.share_key();
            (if ep.rng.gen_bool(0.5) { StaticEvent::PrekeyRotated(Box::new(sign(&s, RotateKeyOp { old: pk, new: k }))) } else { StaticEvent::PrekeysExpanded(Box::new(sign(&s, AddKeyOp { share_key: k }))) }, "as the public")
        }
    }
}

/// One operation handed to a replica, in one of the ways there are.
fn hand(w: &mut World, ep: &mut Ep, q: usize, e: &Ev, forged: bool) -> EpResult {
    let o = key_op(e).expect("a prekey operation");
    let kh = w.peers[q].kh.clone();
    let way = ep.rng.gen_range(0..4);
    let res = match way {
        0 => block_on(kh.receive_contact_card(&ContactCard::from(o.clone()))).is_ok(),
        1 => block_on(kh.receive_prekey_op(&o)).is_ok(),
        2 => block_on(kh.receive_static_event(e.clone())).is_ok(),
        _ => {
            let left = block_on(kh.ingest_unsorted_static_events(vec![e.clone()]));
            if !left.is_empty() && !forged {
                return Err("a prekey operation is held back".into());
            }
            true
        }
    };
    if !forged {
        if !res {
            return Err("a prekey operation of an individual's own is refused".into());
        }
        w.peers[q].has.insert(ev_hash(e));
    } else if res && way != 3 && Identifier::from(*o.issuer()) != public() {
        return Err("a forged prekey operation is accepted".into());
    }
    Ok(())
}

/// A change that replica `p` makes to its own prekeys.
fn change(w: &mut World, ep: &mut Ep, p: usize) -> Result<Vec<Ev>, String> {
    let kh = w.peers[p].kh.clone();
    let me = w.peers[p].id;
    let before = w.peers[p].rec.len();
    let own: Vec<ShareKey> = ops_of(&w.agent(p, me).unwrap()).values().map(|o| *o.new_key()).collect();
    let expect = match ep.rng.gen_range(0..10) {
        0..=2 => {
            block_on(kh.expand_prekeys()).map_err(|e| format!("expand_prekeys: {e}"))?;
            ep.hit("expansions");
            1
        }
        3..=7 => {
            // one in use, one already rotated away, or one that was never there
            let old = if ep.rng.gen_bool(0.9) {
                *own.choose(&mut ep.rng).unwrap()
            } else {
                let salt = ep.rng.gen_range(0..1u64 << 40);
                ShareSecretKey::generate(&mut ep.csprng(salt)).share_key()
            };
            let r = block_on(kh.rotate_prekey(old)).map_err(|e| format!("rotate_prekey: {e}"))?;
            if r.payload.old != old {
                return Err("another prekey is rotated than was asked for".into());
            }
            ep.hit("rotations");
            1
        }
        _ => {
            let c = block_on(kh.contact_card()).map_err(|e| format!("contact_card: {e}"))?;
            if c.op().try_verify().is_err() || Identifier::from(*c.op().issuer()) != me {
                return Err("a contact card is not its owner's".into());
            }
            ep.hit("contact cards");
            2
        }
    };
    let new: Vec<Ev> = w.peers[p].rec.log.lock().unwrap()[before..].to_vec();
    if new.len() != expect {
        return Err(format!("a change of prekeys is reported as {} operations instead of {expect}", new.len()));
    }
    for e in &new {
        if let Some(o) = key_op(e) {
            if own.contains(o.new_key()) {
                return Err("a new prekey is an old one".into());
            }
        }
    }
    w.collect(p);
    owned(w, p)?;
    Ok(new)
}

pub fn converge(ep: &mut Ep) -> EpResult {
    let n = ep.rng.gen_range(2..5);
    let mut w = World::new(ep, n);
    let mut said = Said::new();
    // what each replica has been given, by whom it was made
    let mut models: Vec<Model> = vec![Model::new(); n];
    for p in 0..n {
        let ag = w.agent(p, w.peers[p].id).unwrap();
        for o in ops_of(&ag).values() {
            let e = key_event(o);
            w.publish(p, e.clone());
            learn(&mut models[p], &e);
        }
        owned(&w, p)?;
    }
    for _ in 0..ep.rng.gen_range(10..40) {
        let p = ep.rng.gen_range(0..n);
        match ep.rng.gen_range(0..100) {
            0..=29 => {
                let new = change(&mut w, ep, p)?;
                for e in &new {
                    learn(&mut models[p], e);
                }
                ep.step(format!("p{p} changes its prekeys by {} operations", new.len()));
            }
            30..=34 => {
                let q = ep.rng.gen_range(0..n);
                let c = block_on(w.peers[p].kh.get_existing_contact_card());
                let e = key_event(c.op());
                if !models[p][&w.peers[p].id].contains_key(&ev_hash(&e)) {
                    return Err("an existing contact card does not exist".into());
                }
                if Identifier::from(c.id()) != w.peers[p].id {
                    return Err("a contact card is not its owner's".into());
                }
                hand(&mut w, ep, q, &e, false)?;
                learn(&mut models[q], &e);
                ep.hit("existing contact cards");
                ep.step(format!("p{p}'s card to p{q}"));
            }
            35..=49 => {
                let (e, what) = forged(&w, ep, p);
                let q = ep.rng.gen_range(0..n);
                let before = w.peers[q].rec.len();
                hand(&mut w, ep, q, &e, true)?;
                if w.peers[q].rec.len() != before {
                    return Err("a forged prekey operation is reported to the listener".into());
                }
                ep.hit("forged prekey operations");
                ep.step(format!("forged to p{q}: {what}"));
            }
            50..=54 => {
                w.collect(p);
                restart(&mut w, ep, p)?;
            }
            _ => {
                let mut es: Vec<Ev> = w.all.iter().map(|x| x.1.clone()).collect();
                es.shuffle(&mut ep.rng);
                let k = ep.rng.gen_range(1..8).min(es.len());
                if ep.rng.gen_bool(0.2) {
                    let _ = w.deliver(p, &es[..k].iter().map(ev_hash).collect::<Vec<_>>());
                } else {
                    for e in &es[..k] {
                        hand(&mut w, ep, p, e, false)?;
                    }
                }
                for e in &es[..k] {
                    learn(&mut models[p], e);
                }
                ep.step(format!("p{p} is given {}", es[..k].iter().map(|e| hx(&ev_hash(e))).collect::<Vec<_>>().join(" ")));
            }
        }
        w.collect(p);
        let (q, i) = (ep.rng.gen_range(0..n), ep.rng.gen_range(0..n));
        judge(&w, ep, q, w.peers[i].id, &models[q], &mut said, false)?;
        public_unmoved(&w, ep, q)?;
    }
    for q in 0..n {
        if ep.rng.gen_bool(0.7) {
            for i in (0..w.all.len()).collect::<Vec<_>>() {
                let e = w.all[i].1.clone();
                learn(&mut models[q], &e);
            }
            w.deliver_missing(ep, q, true);
            ep.hit("replicas with all operations");
        }
        for i in 0..n {
            judge(&w, ep, q, w.peers[i].id, &models[q], &mut said, true)?;
        }
        owned(&w, q)?;
    }
    ep.nontrivial = ep.counters.get("rotations").copied().unwrap_or(0) > 0;
    Ok(())
}

/// The public has the one key that everybody knows.
fn public_unmoved(w: &World, ep: &mut Ep, q: usize) -> EpResult {
    let Some(ag) = w.agent(q, public()) else { return Ok(()) };
    let d = samples().choose(&mut ep.rng).unwrap();
    let picks = block_on(ag.pick_individual_prekeys(*d));
    if picks.into_values().collect::<Vec<_>>() != [keyhive_core::principal::public::Public.share_key()] {
        return Err("the public is reached by a key that not everybody has".into());
    }
    ep.hit("public prekeys judged");
    Ok(())
}

fn own_adds(w: &World, who: Identifier) -> Vec<(H, Identifier, ShareKey)> {
    w.all
        .iter()
        .filter_map(|(h, e)| match e {
            StaticEvent::CgkaOperation(o) => match &o.payload {
                CgkaOperation::Add { added_id, pk, .. } if crate::keyforge::ident(added_id) == who => Some((*h, crate::keyforge::ident(&beekem::id::MemberId(o.payload.doc_id().verifying_key())), *pk)),
                _ => None,
            },
            _ => None,
        })
        .collect()
}

/// Members are added with whatever prekey the adder knows, old or new, while they
/// change their prekeys and restart: they can read all the same.
pub fn used(ep: &mut Ep) -> EpResult {
    let n = ep.rng.gen_range(2..5);
    let mut w = World::new(ep, n);
    if ep.rng.gen_bool(0.5) {
        w.introduce_all();
    } else {
        w.introduce_by_cards(ep);
    }
    let mut items: Vec<Item> = vec![];
    for _ in 0..ep.rng.gen_range(1..3) {
        let p = ep.rng.gen_range(0..n);
        w.new_doc(p, vec![])?;
        ep.step(format!("p{p}: new document"));
    }
    for _ in 0..ep.rng.gen_range(10..30) {
        let p = ep.rng.gen_range(0..n);
        let docs: Vec<Identifier> = w.ents.iter().filter(|e| e.kind == Kind::Doc && w.doc(p, e.id).is_some()).map(|e| e.id).collect();
        match ep.rng.gen_range(0..100) {
            0..=24 => {
                change(&mut w, ep, p)?;
                ep.step(format!("p{p} changes its prekeys"));
            }
            25..=44 if !docs.is_empty() => {
                let d = *docs.choose(&mut ep.rng).unwrap();
                let t = w.peers.choose(&mut ep.rng).unwrap().id;
                let can = [Access::Read, Access::Edit, Access::Admin][ep.rng.gen_range(0..3)];
                if t != w.peers[p].id {
                    let s = add(&mut w, ep, p, d, t, can);
                    ep.step(s);
                }
            }
            45..=59 if !docs.is_empty() => {
                let d = *docs.choose(&mut ep.rng).unwrap();
                let plain = payload(ep);
                if let Some(i) = encrypt(&mut w, ep, p, d, vec![], plain, false)? {
                    ep.step(format!("p{p} writes in {}", w.name(&d)));
                    items.push(i);
                }
            }
            60..=69 => restart(&mut w, ep, p)?,
            _ => {
                let mut miss: Vec<H> = w.all.iter().map(|(h, _)| *h).filter(|h| !w.peers[p].has.contains(h)).collect();
                miss.shuffle(&mut ep.rng);
                let k = ep.rng.gen_range(0..=miss.len());
                miss.truncate(k);
                w.deliver_set(ep, p, &mut miss, true);
                ep.step(format!("p{p} is given {k} events"));
            }
        }
        if let Some(x) = w.complaints.pop() {
            return Err(x);
        }
    }
    settle(&mut w, ep)?;
    for e in w.ents.clone() {
        let p = ep.rng.gen_range(0..n);
        let plain = payload(ep);
        if let Some(i) = encrypt(&mut w, ep, p, e.id, vec![], plain, false)? {
            items.push(i);
            settle(&mut w, ep)?;
        }
    }
    for p in 0..n {
        owned(&w, p)?;
        let id = w.peers[p].id;
        let all: Vec<KeyOp> = ops_of(&w.agent(p, id).unwrap()).into_values().collect();
        let act = active(all.iter());
        for (_, d, pk) in own_adds(&w, id) {
            ep.hit(if act.contains(&pk) { "additions with a current prekey" } else { "additions with a prekey since rotated" });
            if !all.iter().any(|o| *o.new_key() == pk) {
                return Err(format!("a member is added with a key that is not its own :: p{p} in {}", w.name(&d)));
            }
        }
        if ep.rng.gen_bool(0.5) {
            restart(&mut w, ep, p)?;
        }
        for it in &items {
            crate::content::judge(&w, ep, it, p)?;
        }
    }
    ep.nontrivial = items.len() > 1 && ep.counters.contains_key("rotations");
    Ok(())
}

/// A second replica of the same individual has prekeys of its own. What invites the
/// individual by a prekey of the first waits until the secrets are carried over.
pub fn devices(ep: &mut Ep) -> EpResult {
    let n = ep.rng.gen_range(2..4);
    let mut w = World::new(ep, n);
    w.introduce_all();
    let me = 0;
    let id = w.peers[me].id;
    // the second device
    let rng = ep.csprng(77);
    let (store, rec, signer) = (Store::new(), Rec::default(), w.peers[me].signer.clone());
    let kh = block_on(K::generate(signer.clone(), store.clone(), rec.clone(), rng.clone())).expect("generate");
    let t = w.peers.len();
    w.peers.push(Replica { kh, rec, signer, id, store, rng, collected: 0, has: BTreeSet::new(), initial: BTreeSet::new() });
    if secrets(&w, me).keys().any(|k| secrets(&w, t).contains_key(k)) {
        return Err("two replicas generate the same prekeys".into());
    }
    // everybody hears of the new device's prekeys, or some do later, or never
    for q in 0..n {
        if ep.rng.gen_bool(0.6) {
            w.introduce(t, q);
        }
        w.introduce(q, t);
    }
    for q in 0..=n {
        w.collect(q);
    }
    let mut held: Vec<BTreeMap<Vec<u8>, Vec<u8>>> = (0..=n).map(|q| secrets(&w, q)).collect();
    let mut items: Vec<Item> = vec![];
    let ex = |w: &mut World, ep: &mut Ep, from: usize, to: usize, held: &mut Vec<BTreeMap<Vec<u8>, Vec<u8>>>| -> EpResult {
        let blob = block_on(w.peers[from].kh.export_prekey_secrets()).map_err(|e| format!("export_prekey_secrets: {e}"))?;
        let pend: BTreeSet<H> = w.pending(to);
        let left = block_on(w.peers[to].kh.import_prekey_secrets(&blob)).map_err(|e| format!("import_prekey_secrets: {e}"))?;
        w.collect(to);
        let left: BTreeSet<H> = left.iter().map(|e| ev_hash(e)).collect();
        if left != w.pending(to) {
            return Err("importing secrets does not return what is left pending".into());
        }
        ep.add("events released by secrets", pend.difference(&left).count() as u64);
        let s = secrets(w, to);
        let mut want = held[to].clone();
        want.extend(secrets(w, from));
        if s != want {
            return Err("importing secrets does not give exactly the secrets of both".into());
        }
        held[to] = s;
        ep.hit("secrets carried over");
        ep.step(format!("secrets of device {from} to {to}"));
        Ok(())
    };
    let mut docs = vec![];
    for _ in 0..ep.rng.gen_range(1..3) {
        let p = ep.rng.gen_range(1..n);
        docs.push((w.new_doc(p, vec![])?, p));
    }
    let devs = [me, t];
    for _ in 0..ep.rng.gen_range(5..20) {
        match ep.rng.gen_range(0..100) {
            0..=19 => {
                let p = devs[ep.rng.gen_range(0..2)];
                change(&mut w, ep, p).or_else(|e| if e.starts_with("a replica published a prekey that it has no secret of") { Ok(vec![]) } else { Err(e) })?;
                held[p] = secrets(&w, p);
                w.collect(p);
                ep.step(format!("device {p} changes its prekeys"));
            }
            20..=39 => {
                let (d, p) = *docs.choose(&mut ep.rng).unwrap();
                let s = add(&mut w, ep, p, d, id, Access::Read);
                ep.step(s);
            }
            40..=54 => {
                let (d, p) = *docs.choose(&mut ep.rng).unwrap();
                let plain = payload(ep);
                if let Some(i) = encrypt(&mut w, ep, p, d, vec![], plain, false)? {
                    ep.step(format!("p{p} writes in {}", w.name(&d)));
                    items.push(i);
                }
            }
            55..=64 => {
                let (a, b) = if ep.rng.gen_bool(0.5) { (me, t) } else { (t, me) };
                ex(&mut w, ep, a, b, &mut held)?;
            }
            65..=69 => {
                let p = devs[ep.rng.gen_range(0..2)];
                w.collect(p);
                restart(&mut w, ep, p)?;
            }
            _ => {
                let p = ep.rng.gen_range(0..w.peers.len());
                let mut miss: Vec<H> = w.all.iter().map(|(h, _)| *h).filter(|h| !w.peers[p].has.contains(h)).collect();
                miss.shuffle(&mut ep.rng);
                let k = ep.rng.gen_range(0..=miss.len());
                miss.truncate(k);
                w.deliver_set(ep, p, &mut miss, true);
                ep.step(format!("p{p} is given {k} events"));
            }
        }
        if let Some(x) = w.complaints.pop() {
            return Err(x);
        }
    }
    // everybody hears everything
    for _ in 0..3 {
        for p in 0..w.peers.len() {
            w.deliver_missing(ep, p, true);
        }
    }
    // a device can take in the invitations for which it has the secret
    for p in devs {
        let pend = w.pending(p);
        let miss: Vec<_> = own_adds(&w, id).into_iter().filter(|(_, _, pk)| !held[p].contains_key(&bincode::serialize(pk).unwrap())).collect();
        for (h, _, _) in own_adds(&w, id) {
            if miss.iter().any(|m| m.0 == h) {
                if !pend.contains(&h) {
                    return Err("an invitation for a prekey of another device is lost".into());
                }
                ep.hit("invitations held back");
            }
        }
        if miss.is_empty() && !pend.is_empty() {
            return Err(format!("events stay pending at a device with all secrets :: {:?}", pend.iter().map(|h| w.show_ev(w.ev(h))).collect::<Vec<_>>()));
        }
    }
    ex(&mut w, ep, me, t, &mut held)?;
    ex(&mut w, ep, t, me, &mut held)?;
    for p in devs {
        let left = w.pending(p);
        if !left.is_empty() {
            return Err(format!("events stay pending at a device with all secrets :: {:?}", left.iter().map(|h| w.show_ev(w.ev(h))).collect::<Vec<_>>()));
        }
        owned(&w, p)?;
    }
    for (d, p) in docs {
        let plain = payload(ep);
        if let Some(i) = encrypt(&mut w, ep, p, d, vec![], plain, false)? {
            items.push(i);
        }
    }
    for p in 0..w.peers.len() {
        w.deliver_missing(ep, p, true);
    }
    for it in &items {
        for p in devs {
            let allowed = it.readers.contains(&id);
            judge_one(&w, ep, it, p, allowed)?;
            if allowed {
                ep.hit("contents read by each device");
            }
        }
    }
    ep.nontrivial = items.len() > 1 && ep.counters.contains_key("events released by secrets");
    Ok(())
}
