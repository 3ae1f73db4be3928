//! Hostile inputs: operations made by somebody without the authority for them.
use crate::check::{Ep, EpResult};
use crate::mem::*;
use crate::oracle::Oracle;
use crate::rt::*;
use crate::world::*;
use keyhive_core::event::static_event::StaticEvent;
use keyhive_core::principal::group::{delegation::StaticDelegation, revocation::StaticRevocation};
use keyhive_core::principal::identifier::Identifier;
use keyhive_crypto::digest::Digest;
use keyhive_crypto::signed::Signed;
use keyhive_crypto::signer::memory::MemorySigner;
use keyhive_crypto::verifiable::Verifiable;
use rand::seq::SliceRandom;
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub fn sign<T: serde::Serialize + std::fmt::Debug>(s: &MemorySigner, t: T) -> Signed<T> {
    keyhive_crypto::signer::sync_signer::try_sign_basic(s, s.verifying_key(), t).expect("signs")
}

/// An operation that `a` has no authority for, or that is not what it claims.
/// (By chance it may be one that `a` may make; the oracle decides.)
pub fn forge(w: &World, ep: &mut Ep, a: usize) -> (Ev, &'static str) {
    let dlgs: Vec<Signed<StaticDelegation<Ref>>> = w.all.iter().filter_map(|(_, e)| if let StaticEvent::Delegated(d) = e { Some(d.clone()) } else { None }).collect();
    let revs: Vec<Signed<StaticRevocation<Ref>>> = w.all.iter().filter_map(|(_, e)| if let StaticEvent::Revoked(d) = e { Some(d.clone()) } else { None }).collect();
    let me = &w.peers[a].signer;
    let mut ids: Vec<Identifier> = w.peers.iter().map(|p| p.id).collect();
    ids.extend(w.ents.iter().map(|e| e.id));
    let any_id = |ep: &mut Ep| if ep.rng.gen_bool(0.5) { w.peers[a].id } else { *ids.choose(&mut ep.rng).unwrap() };
    let can = acc(ep.rng.gen_range(0..8).min(3));
    let d = dlgs.choose(&mut ep.rng).unwrap().clone();
    let mine: Vec<_> = dlgs.iter().filter(|d| d.payload.delegate == w.peers[a].id).cloned().collect();
    let k = ep.rng.gen_range(0..12);
    match k {
        0 | 1 => {
            let after: Vec<_> = revs.iter().filter(|_| ep.rng.gen_bool(0.2)).map(|r| Digest::hash(r)).collect();
            let x = sign(me, StaticDelegation { delegate: any_id(ep), can, proof: Some(Digest::hash(&d)), after_revocations: after, after_content: BTreeMap::new() });
            (StaticEvent::Delegated(x), "delegation on somebody else's proof")
        }
        2 => {
            // escalation of what the attacker holds, possibly over several links
            let base = mine.choose(&mut ep.rng).unwrap_or(&d).clone();
            let x = sign(me, StaticDelegation { delegate: any_id(ep), can, proof: Some(Digest::hash(&base)), after_revocations: vec![], after_content: BTreeMap::new() });
            (StaticEvent::Delegated(x), "delegation of more than is held")
        }
        3 => {
            let p = StaticDelegation { delegate: any_id(ep), can, proof: Some(Digest::hash(&d)), after_revocations: vec![], after_content: BTreeMap::new() };
            let s = sign(me, p.clone());
            // claims to be issued by the proof's delegate
            let issuer = w.peers.iter().find(|p| p.id == d.payload.delegate).map(|p| p.id.0).unwrap_or(d.issuer);
            (StaticEvent::Delegated(Signed::new(p, issuer, s.signature)), "delegation with another's issuer")
        }
        4 => {
            let mut p = d.payload.clone();
            match ep.rng.gen_range(0..4) {
                0 => p.can = acc(ep.rng.gen_range(0..4)),
                1 => p.delegate = any_id(ep),
                2 => p.proof = dlgs.choose(&mut ep.rng).map(Digest::hash),
                _ => p.after_revocations = revs.iter().filter(|_| ep.rng.gen_bool(0.4)).map(Digest::hash).collect(),
            }
            (StaticEvent::Delegated(Signed::new(p, d.issuer, d.signature)), "altered delegation")
        }
        5 => {
            // a root delegation that claims to come from an existing group
            let e = w.ents.choose(&mut ep.rng).unwrap();
            let p = StaticDelegation { delegate: any_id(ep), can, proof: None, after_revocations: vec![], after_content: BTreeMap::new() };
            let s = sign(me, p.clone());
            (StaticEvent::Delegated(Signed::new(p, e.id.0, s.signature)), "root delegation in a group's name")
        }
        6 | 7 => {
            let proof = if ep.rng.gen_bool(0.2) { None } else { Some(Digest::hash(dlgs.choose(&mut ep.rng).unwrap())) };
            let x = sign(me, StaticRevocation { revoke: Digest::hash(&d), proof, after_content: BTreeMap::new() });
            (StaticEvent::Revoked(x), "revocation on somebody else's proof")
        }
        8 | 9 => {
            // with what the attacker holds or issued
            let own: Vec<_> = dlgs.iter().filter(|d| d.payload.delegate == w.peers[a].id || Identifier::from(d.issuer) == w.peers[a].id).cloned().collect();
            let proof = own.choose(&mut ep.rng).map(Digest::hash);
            let x = sign(me, StaticRevocation { revoke: Digest::hash(&d), proof, after_content: BTreeMap::new() });
            (StaticEvent::Revoked(x), "revocation on own proof")
        }
        10 => {
            let p = StaticRevocation { revoke: Digest::hash(&d), proof: Some(Digest::hash(&d)), after_content: BTreeMap::new() };
            let s = sign(me, p.clone());
            (StaticEvent::Revoked(Signed::new(p, d.issuer, s.signature)), "revocation with another's issuer")
        }
        _ => {
            if let Some(r) = revs.choose(&mut ep.rng) {
                let mut p = r.payload.clone();
                if ep.rng.gen_bool(0.5) {
                    p.revoke = Digest::hash(&d);
                } else {
                    p.proof = Some(Digest::hash(&d));
                }
                (StaticEvent::Revoked(Signed::new(p, r.issuer, r.signature)), "altered revocation")
            } else {
                let x = sign(me, StaticRevocation { revoke: Digest::hash(&d), proof: None, after_content: BTreeMap::new() });
                (StaticEvent::Revoked(x), "revocation without proof")
            }
        }
    }
}

/// Have `to` register a group by a delegation, as its user may.
fn register(w: &mut World, ep: &mut Ep, to: usize, h: H) -> EpResult {
    let e = w.ev(&h).clone();
    let StaticEvent::Delegated(d) = &e else { return Ok(()) };
    let id: Identifier = d.issuer.into();
    let kh = &w.peers[to].kh;
    let Ok(keyhive_core::event::Event::Delegated(live)) = block_on(kh.static_event_to_event(e.clone())) else { return Ok(()) };
    if block_on(kh.get_agent(id)).is_some_and(|a| a.as_membered().is_none()) && d.payload.proof.is_none() && d.try_verify().is_ok() {
        return Ok(());
    }
    let known = block_on(kh.get_agent(id)).is_some();
    let yes = block_on(kh.register_group((*live).clone()));
    ep.hit(if yes { "groups registered" } else { "registrations refused" });
    if yes && (d.payload.proof.is_some() || d.try_verify().is_err()) {
        return Err(format!("a group is registered by a delegation it has not made :: p{to}: {}", w.show_ev(&e)));
    }
    if yes == known && d.payload.proof.is_none() && d.try_verify().is_ok() {
        return Err(format!("a {} group {} registered :: p{to}: {}", if known { "known" } else { "new" }, if yes { "is" } else { "cannot be" }, w.show_ev(&e)));
    }
    w.collect(to);
    Ok(())
}

/// Honest replicas and one attacker. Nothing the attacker publishes has an
/// effect beyond its authority, and nothing honest is lost.
pub fn forgeries(ep: &mut Ep, nest: bool) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(3..6), ents: ep.rng.gen_range(1..4), steps: ep.rng.gen_range(4..16), via: nest, revoke: !nest, nest, docs: true, offer: false, sync: 35 };
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    let n = w.peers.len();
    let att = n - 1;
    let mut forged: BTreeSet<H> = BTreeSet::new();
    let rounds = ep.rng.gen_range(1..4);
    for _ in 0..rounds {
        run_script(&mut w, ep, &c)?;
        if w.ents.is_empty() {
            continue;
        }
        for _ in 0..ep.rng.gen_range(1..6) {
            let (e, what) = forge(&w, ep, att);
            if let (StaticEvent::Revoked(_), true) = (&e, nest) {
                continue;
            }
            let h = ev_hash(&e);
            if w.by_hash.contains_key(&h) {
                continue;
            }
            ep.step(format!("forged {what}: {}", w.show_ev(&e)));
            ep.hit("forged operations");
            // the attacker's own replica takes no part in what it forges
            w.by_hash.insert(h, w.all.len());
            w.all.push((h, e));
            forged.insert(h);
            let to = ep.rng.gen_range(0..n);
            register(&mut w, ep, to, h)?;
            w.deliver(to, &[h]);
            if let Some((h, e)) = w.all.choose(&mut ep.rng).cloned() {
                // one that is genuine, at somebody who may not have it yet
                if matches!(&e, StaticEvent::Delegated(d) if d.payload.after_content.is_empty()) && !w.ents.iter().any(|k| k.kind == Kind::Doc && matches!(&e, StaticEvent::Delegated(d) if d.issuer == k.id.0)) {
                    register(&mut w, ep, to, h)?;
                }
            }
        }
    }
    for p in 0..n {
        w.deliver_missing(ep, p, true);
    }
    if outside_via(&w) {
        return Ok(());
    }
    let o = Oracle::authorised(w.all.iter().map(|(_, e)| e), true);
    for (h, e) in &w.all {
        if forged.contains(h) {
            let ok = match e {
                StaticEvent::Delegated(d) => o.dlgs.contains_key(&dlg_hash(d)),
                StaticEvent::Revoked(d) => o.revs.contains_key(&dlg_hash(d)),
                _ => true,
            };
            ep.hit(if ok { "forgeries within the attacker's authority" } else { "forgeries beyond the attacker's authority" });
        }
    }
    for p in 0..n {
        for h in w.pending(p) {
            if !forged.contains(&h) {
                // depends on a forgery that was rejected?
                dump(&w, ep);
                return Err(format!("an honest operation is held back when there are forged ones :: p{p}: {}", w.show_ev(w.ev(&h))));
            }
        }
        against_oracle(&w, ep, p, &o)?;
    }
    ep.nontrivial = !forged.is_empty() && ep.counters.get("forgeries beyond the attacker's authority").copied().unwrap_or(0) > 0;
    Ok(())
}
pub fn forge_flat(ep: &mut Ep) -> EpResult {
    forgeries(ep, false)
}
pub fn forge_nested(ep: &mut Ep) -> EpResult {
    forgeries(ep, true)
}
