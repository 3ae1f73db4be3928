//! Hostile key-agreement operations: made by somebody who may not make them.
use crate::check::{Ep, EpResult};
use crate::content::{self, Item};
use crate::hostile::sign;
use crate::mem::*;
use crate::rt::*;
use crate::world::*;
use beekem::id::{MemberId, TreeId};
use beekem::keys::ShareKeyMap;
use beekem::operation::CgkaOperation;
use future_form::Sendable;
use keyhive_core::access::Access;
use keyhive_core::cgka::Cgka;
use keyhive_core::event::static_event::StaticEvent;
use keyhive_core::principal::document::id::DocumentId;
use keyhive_core::principal::identifier::Identifier;
use keyhive_core::principal::individual::id::IndividualId;
use keyhive_crypto::share_key::ShareSecretKey;
use keyhive_crypto::signed::Signed;
use rand::seq::SliceRandom;
use rand::Rng;
use std::collections::BTreeSet;
use std::sync::Arc;

pub type KOp = Signed<CgkaOperation>;

pub fn ident(m: &MemberId) -> Identifier {
    Identifier::from(ed25519_dalek::VerifyingKey::from_bytes(&m.to_bytes()).unwrap())
}

pub fn key_ops(w: &World, d: Identifier, without: &BTreeSet<H>) -> Vec<KOp> {
    w.all.iter().filter(|(h, _)| !without.contains(h)).filter_map(|(_, e)| match e {
        StaticEvent::CgkaOperation(o) if Identifier::from(DocumentId::from(*o.payload.doc_id())) == d => Some((**o).clone()),
        _ => None,
    }).collect()
}

/// What anybody can build from the operations of a document, acting as `me`.
pub fn ghost(w: &World, ep: &mut Ep, d: Identifier, me: Identifier, without: &BTreeSet<H>) -> Option<Cgka> {
    let ops = key_ops(w, d, without);
    let init = ops.iter().find(|o| o.payload.predecessors().is_empty())?.clone();
    let (added, pk) = match &init.payload {
        CgkaOperation::Add { added_id, pk, .. } => (ident(added_id), *pk),
        _ => return None,
    };
    let mut c = Cgka::new_from_init_add(DocumentId::from(d), IndividualId::from(added), pk, init).ok()?;
    let n = ep.rng.gen_range(ops.len() / 2..=ops.len());
    for o in ops.into_iter().take(n) {
        let _ = c.merge_concurrent_operation(Arc::new(o));
    }
    c.with_new_owner(IndividualId::from(me), ShareKeyMap::new()).ok()
}

/// Everyone who was ever given read access, by whoever could.
pub fn ever_readers(w: &World, d: Identifier) -> BTreeSet<Identifier> {
    let o = crate::oracle::Oracle::new(w.all.iter().map(|(_, e)| e));
    let mut seen = BTreeSet::new();
    let mut todo = vec![d];
    while let Some(x) = todo.pop() {
        for g in o.dlgs.values() {
            if g.subject == x && g.can >= Access::Read && seen.insert(g.delegate) {
                todo.push(g.delegate);
            }
        }
    }
    seen
}

/// A key-agreement operation that `a` may not make. `None` if it came to nothing.
fn forge(w: &World, ep: &mut Ep, a: usize, d: &Ent, without: &BTreeSet<H>) -> Option<(Ev, &'static str)> {
    let me = w.peers[a].id;
    let s = w.peers[a].signer.clone();
    let readers = ever_readers(w, d.id);
    let outsider = !readers.contains(&me) && !readers.contains(&public());
    let creator = d.by == a;
    let ops = key_ops(w, d.id, without);
    let salt = ep.rng.gen_range(0..100000);
    let sk = ShareSecretKey::generate(&mut ep.csprng(7000 + salt));
    let others: Vec<Identifier> = w.peers.iter().map(|p| p.id).filter(|i| *i != me).chain((!creator).then_some(d.id)).collect();
    let victim = *others.choose(&mut ep.rng)?;
    let signed = |p: CgkaOperation| StaticEvent::CgkaOperation(Box::new(sign(&s, p)));
    let rotate = |ep: &mut Ep, who: Identifier| -> Option<CgkaOperation> {
        let mut c = ghost(w, ep, d.id, who, without)?;
        let (_, op) = block_on(c.update::<Sendable, _, _>(sk.share_key(), sk, &s, &mut ep.csprng(1))).ok()?;
        // somebody who is not in the tree acts as whom else it can
        matches!(&op.payload, CgkaOperation::Update { id, .. } if ident(id) == who).then_some(op.payload)
    };
    Some(match ep.rng.gen_range(0..14) {
        0..=2 => (signed(rotate(ep, victim)?), "rotation of another's key"),
        3 => {
            let mut p = rotate(ep, victim)?;
            if let CgkaOperation::Update { id, .. } = &mut p {
                *id = MemberId(me.0);
            }
            (signed(p), "rotation in one's own name of another's leaf")
        }
        4 => {
            let mut p = rotate(ep, me).or_else(|| rotate(ep, victim))?;
            if let CgkaOperation::Update { id, new_path, .. } = &mut p {
                *id = MemberId(victim.0);
                new_path.leaf_id = MemberId(if ep.rng.gen() { me.0 } else { victim.0 });
            }
            (signed(p), "rotation of another's key")
        }
        5 => {
            let o = ops.iter().filter(|o| matches!(&o.payload, CgkaOperation::Update { id, .. } if ident(id) != me && ident(id) != public() && !(creator && ident(id) == d.id))).collect::<Vec<_>>().choose(&mut ep.rng).copied()?.clone();
            let mut p = o.payload.clone();
            if let CgkaOperation::Update { new_path, predecessors, .. } = &mut p {
                match ep.rng.gen_range(0..3) {
                    0 => {}
                    1 => new_path.leaf_pk = sk.share_key().into(),
                    _ => *predecessors = vec![keyhive_crypto::digest::Digest::hash(&o)],
                }
            }
            (signed(p), "another's rotation, signed again")
        }
        6 | 7 if outsider => {
            let mut c = ghost(w, ep, d.id, d.id, without)?;
            let who = if ep.rng.gen_bool(0.6) { me } else { victim };
            let op = block_on(c.add::<Sendable, _>(IndividualId::from(who), sk.share_key(), &s)).ok()??;
            (StaticEvent::CgkaOperation(Box::new(op)), "addition by an outsider")
        }
        6..=8 if !outsider => {
            // somebody nobody gave access to, or known to nobody
            let mut who: Vec<Identifier> = others.iter().copied().filter(|i| !readers.contains(i) && *i != d.id).collect();
            who.push(Identifier(ed25519_dalek::SigningKey::generate(&mut ep.csprng(8000 + salt)).verifying_key()));
            let who = *who.choose(&mut ep.rng)?;
            let mut c = ghost(w, ep, d.id, d.id, without)?;
            let op = block_on(c.add::<Sendable, _>(IndividualId::from(who), sk.share_key(), &s)).ok()??;
            (StaticEvent::CgkaOperation(Box::new(op)), "addition of somebody without access")
        }
        8 if outsider => {
            let mut c = ghost(w, ep, d.id, d.id, without)?;
            let op = block_on(c.remove::<Sendable, _>(IndividualId::from(victim), &s)).ok()??;
            (StaticEvent::CgkaOperation(Box::new(op)), "removal by an outsider")
        }
        // the creator cannot be told from others that were there from the start
        9 | 10 if !w.all.iter().any(|(_, e)| matches!(e, StaticEvent::Delegated(s) if s.payload.proof.is_none() && Identifier::from(s.issuer) == d.id && s.payload.delegate == me)) && (outsider || ep.rng.gen()) => {
            let added_id = if outsider && ep.rng.gen() { MemberId(me.0) } else { MemberId(d.id.0) };
            let p = CgkaOperation::Add { added_id, pk: sk.share_key(), leaf_index: 0, predecessors: vec![], add_predecessors: vec![], doc_id: TreeId(d.id.0) };
            (signed(p), "first operation by somebody else")
        }
        11 => {
            let o = ops.choose(&mut ep.rng)?.clone();
            let mut p = o.payload.clone();
            match &mut p {
                CgkaOperation::Add { added_id, pk, .. } => {
                    if ep.rng.gen() {
                        *added_id = MemberId(me.0);
                    } else {
                        *pk = sk.share_key();
                    }
                }
                CgkaOperation::Remove { id, .. } => *id = MemberId(victim.0),
                CgkaOperation::Update { new_path, .. } => new_path.leaf_pk = sk.share_key().into(),
            }
            (StaticEvent::CgkaOperation(Box::new(Signed::new(p, o.issuer, o.signature))), "altered operation")
        }
        12 => {
            let p = rotate(ep, victim)?;
            let x = sign(&s, p);
            (StaticEvent::CgkaOperation(Box::new(Signed::new(x.payload, victim.0, x.signature))), "operation with another's issuer")
        }
        _ => {
            // an honest operation of one document, for another
            let other = w.ents.iter().filter(|e| e.kind == Kind::Doc && e.id != d.id).collect::<Vec<_>>();
            let o = key_ops(w, other.choose(&mut ep.rng)?.id, without).choose(&mut ep.rng)?.clone();
            let mut p = o.payload.clone();
            match &mut p {
                CgkaOperation::Add { doc_id, .. } | CgkaOperation::Remove { doc_id, .. } | CgkaOperation::Update { doc_id, .. } => *doc_id = TreeId(d.id.0),
            }
            (StaticEvent::CgkaOperation(Box::new(Signed::new(p, o.issuer, o.signature))), "operation of another document")
        }
    })
}

fn settle_but(w: &mut World, ep: &mut Ep, forged: &BTreeSet<H>) -> EpResult {
    for p in 0..w.peers.len() {
        w.deliver_missing(ep, p, true);
        for h in w.pending(p) {
            if !forged.contains(&h) {
                return Err(format!("an honest operation is held back when there are forged ones :: p{p}: {}", w.show_ev(w.ev(&h))));
            }
        }
    }
    Ok(())
}

/// No forged operation is part of any replica's key agreement.
fn refused(w: &World, ep: &mut Ep, forged: &BTreeSet<H>) -> EpResult {
    for p in 0..w.peers.len() {
        for e in &w.ents {
            if e.kind != Kind::Doc {
                continue;
            }
            let Some(v) = w.view(p, e.id) else { continue };
            ep.hit("key agreements searched for forgeries");
            if let Some(h) = v.cgka_ops.iter().find(|h| forged.contains(*h)) {
                return Err(format!("a forged key-agreement operation is accepted :: p{p} in {}: {}", e.name, w.show_ev(w.ev(h))));
            }
        }
    }
    Ok(())
}

pub fn outsiders(ep: &mut Ep) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(3..6), ents: ep.rng.gen_range(1..4), steps: ep.rng.gen_range(8..26), via: false, revoke: true, nest: ep.rng.gen_bool(0.4), docs: true, offer: false, sync: 30 };
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    let n = w.peers.len();
    // in some episodes nobody ever delegates to the attacker
    let att = n - 1;
    let excluded = ep.rng.gen_bool(0.4);
    let mut forged: BTreeSet<H> = BTreeSet::new();
    let mut as_outsider: BTreeSet<(Identifier, Identifier)> = BTreeSet::new();
    let mut items: Vec<Item> = vec![];
    let mut kinds: BTreeSet<&str> = BTreeSet::new();
    for _ in 0..c.steps {
        if let Some(x) = w.complaints.pop() {
            return Err(x);
        }
        let docs: Vec<Ent> = w.ents.iter().filter(|e| e.kind == Kind::Doc).cloned().collect();
        let p = ep.rng.gen_range(0..n - excluded as usize);
        let r = ep.rng.gen_range(0..100);
        if docs.is_empty() || r < 35 {
            let mut hidden = None;
            if excluded {
                hidden = w.peers.pop();
            }
            let s = act(&mut w, ep, &c, p);
            w.peers.extend(hidden);
            if !s.ends_with("idle") {
                ep.step(s);
            }
        } else if r < 55 {
            let q = ep.rng.gen_range(0..n);
            let p = ep.rng.gen_range(0..n);
            let mut miss: Vec<H> = w.all.iter().map(|(h, _)| *h).filter(|h| !w.peers[p].has.contains(h) && w.peers[q].has.contains(h)).collect();
            if !miss.is_empty() {
                ep.step(format!("p{q} -> p{p}: {} events", miss.len()));
                w.deliver_set(ep, p, &mut miss, true);
            }
        } else if r < 70 {
            let d = docs.choose(&mut ep.rng).unwrap().id;
            let plain = content::payload(ep);
            if let Some(it) = content::encrypt(&mut w, ep, p, d, vec![], plain, false)? {
                ep.step(format!("p{p}: encrypt for {}", w.name(&d)));
                items.push(it);
            }
        } else {
            let d = docs.choose(&mut ep.rng).unwrap().clone();
            let Some((e, what)) = forge(&w, ep, att, &d, &forged) else { continue };
            let h = ev_hash(&e);
            if w.by_hash.contains_key(&h) {
                continue;
            }
            let about = match &e {
                Ev::CgkaOperation(o) => match &o.payload {
                    CgkaOperation::Update { id, new_path, .. } => format!("{} at the leaf of {}", w.name(&ident(id)), w.name(&ident(&new_path.leaf_id))),
                    CgkaOperation::Add { added_id, .. } => w.name(&ident(added_id)),
                    CgkaOperation::Remove { id, .. } => w.name(&ident(id)),
                },
                _ => String::new(),
            };
            ep.step(format!("forged {what} in {}: {about}: {}", d.name, w.show_ev(&e)));
            ep.hit("forged operations");
            kinds.insert(what);
            w.by_hash.insert(h, w.all.len());
            w.all.push((h, e.clone()));
            forged.insert(h);
            if what.contains("outsider") || what.contains("first") {
                as_outsider.insert((d.id, w.peers[att].id));
            }
            if let (true, Ev::CgkaOperation(o)) = (what.contains("without access"), &e) {
                if let CgkaOperation::Add { added_id, .. } = &o.payload {
                    as_outsider.insert((d.id, ident(added_id)));
                }
            }
            for _ in 0..ep.rng.gen_range(1..3) {
                let to = ep.rng.gen_range(0..n);
                if ep.rng.gen() {
                    w.deliver(to, &[h]);
                } else if let Ev::CgkaOperation(o) = w.ev(&h).clone() {
                    let _ = block_on(w.peers[to].kh.receive_cgka_op(*o));
                    w.collect(to);
                }
            }
        }
        if outside_via(&w) {
            ep.hit("episodes outside the fragment (authority through a shrinking group)");
            return Ok(());
        }
    }
    // what somebody does early, before it may, counts once it may
    for (d, who) in as_outsider {
        let r = ever_readers(&w, d);
        if r.contains(&who) || r.contains(&public()) {
            ep.hit("episodes in which the outsider is let in later");
            return Ok(());
        }
    }
    let r = (|| {
        settle_but(&mut w, ep, &forged)?;
        refused(&w, ep, &forged)?;
        for e in w.ents.clone() {
            if e.kind != Kind::Doc {
                continue;
            }
            for _ in 0..2 {
                let p = ep.rng.gen_range(0..n);
                let plain = content::payload(ep);
                if let Some(it) = content::encrypt(&mut w, ep, p, e.id, vec![], plain, false)? {
                    items.push(it);
                }
                settle_but(&mut w, ep, &forged)?;
            }
        }
        refused(&w, ep, &forged)?;
        compare_views(&w, ep)?;
        for it in &items {
            for q in 0..n {
                content::judge(&w, ep, it, q)?;
            }
        }
        Ok(())
    })();
    if r.is_err() {
        dump(&w, ep);
    }
    for k in &kinds {
        ep.hit(k);
    }
    ep.nontrivial = kinds.len() > 1 && !items.is_empty();
    r
}
