//! Sync monitors: what a replica offers an agent is enough for that agent.
use crate::check::{Ep, EpResult};
use crate::mem::*;
use crate::oracle::Oracle;
use crate::rt::*;
use crate::world::*;
use beekem::operation::CgkaOperation;
use keyhive_core::event::static_event::StaticEvent;
use keyhive_core::principal::identifier::Identifier;
use rand::seq::SliceRandom;
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub fn offered(w: &World, a: usize, ag: &Ag) -> Result<BTreeMap<H, Ev>, String> {
    let evs = block_on(w.peers[a].kh.static_events_for_agent(ag));
    for (d, e) in &evs {
        let named = *d.raw.as_bytes();
        let is = match e {
            StaticEvent::Delegated(d) => dlg_hash(d),
            StaticEvent::Revoked(d) => dlg_hash(d),
            _ => ev_hash(e),
        };
        if named != is && named != ev_hash(e) {
            return Err(format!("an offered event is listed under another's digest :: {}", w.show_ev(e)));
        }
    }
    Ok(evs.into_values().map(|e| (ev_hash(&e), e)).collect())
}

/// Every dependency of an offered event is offered too.
pub fn closed(w: &World, evs: &BTreeMap<H, Ev>, to: Identifier) -> Result<(), String> {
    let o = Oracle::new(evs.values());
    let mut keyed: BTreeSet<Identifier> = BTreeSet::from([to]);
    let mut cg: BTreeSet<H> = BTreeSet::new();
    for e in evs.values() {
        match e {
            StaticEvent::PrekeysExpanded(k) => {
                keyed.insert(k.issuer.into());
            }
            StaticEvent::PrekeyRotated(k) => {
                keyed.insert(k.issuer.into());
            }
            StaticEvent::CgkaOperation(c) => {
                cg.insert(dlg_hash(c.as_ref()));
            }
            _ => {}
        }
    }
    let subjects: BTreeSet<Identifier> = o.dlgs.values().map(|d| d.subject).collect();
    for e in evs.values() {
        match e {
            StaticEvent::Delegated(d) => {
                let Some(m) = o.dlgs.get(&dlg_hash(d)) else { return Err(format!("a delegation is offered without what it depends on :: {}", w.show_ev(e))) };
                if !keyed.contains(&m.delegate) && !subjects.contains(&m.delegate) {
                    return Err(format!("a delegation is offered without its delegate's keys :: {}", w.show_ev(e)));
                }
            }
            StaticEvent::Revoked(r) => {
                if !o.revs.contains_key(&dlg_hash(r)) {
                    return Err(format!("a revocation is offered without what it depends on :: {}", w.show_ev(e)));
                }
            }
            StaticEvent::CgkaOperation(c) => {
                let preds: Vec<H> = match &c.payload {
                    CgkaOperation::Add { predecessors, .. } | CgkaOperation::Remove { predecessors, .. } | CgkaOperation::Update { predecessors, .. } => predecessors.iter().map(|p| *p.raw.as_bytes()).collect(),
                };
                if preds.iter().any(|p| !cg.contains(p)) {
                    return Err(format!("a key-agreement operation is offered without its predecessors :: {}", w.show_ev(e)));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// What is offered is what the agent's access, and the revocations of its
/// access, call for: no more, no less.
pub fn scoped(w: &World, ep: &mut Ep, a: usize, ag: &Ag, evs: &BTreeMap<H, Ev>) -> Result<(), String> {
    let to = ag.id();
    let reach: BTreeSet<Identifier> = block_on(w.peers[a].kh.membered_reachable_by_agent(ag)).into_values().map(|(m, _)| m.agent_id().into()).collect();
    // everything the replica has
    let known: Vec<Ev> = w.all.iter().filter(|(h, _)| w.peers[a].has.contains(h)).map(|(_, e)| e.clone()).collect();
    let pend = w.pending(a);
    let o = Oracle::new(known.iter().filter(|e| !pend.contains(&ev_hash(e))));
    let mut base = reach.clone();
    for r in o.revs.values() {
        let lost = o.dlgs[&r.revoke].delegate;
        if lost == to || reach.contains(&lost) {
            base.insert(r.subject);
            ep.hit("own revocations offered");
            if !evs.values().any(|e| matches!(e, StaticEvent::Revoked(x) if dlg_hash(x) == r.h)) {
                return Err(format!("an agent is not offered the revocation of its own access :: p{a} to {}, {}", w.name(&to), hx(&r.h)));
            }
        }
    }
    let mut scope = BTreeSet::new();
    for b in &base {
        scope.extend(o.ever_below(*b));
    }
    let own: BTreeSet<Identifier> = [w.peers[a].id, to].into();
    for (h, e) in evs {
        let bad = match e {
            StaticEvent::Delegated(d) => !o.dlgs.get(&dlg_hash(d)).is_some_and(|d| scope.contains(&d.subject)),
            StaticEvent::Revoked(r) => !o.revs.get(&dlg_hash(r)).is_some_and(|r| scope.contains(&r.subject)),
            StaticEvent::CgkaOperation(c) => !reach.iter().any(|r| r.to_bytes() == c.payload.doc_id().to_bytes()),
            StaticEvent::PrekeysExpanded(k) => !own.contains(&k.issuer.into()) && !scope.contains(&k.issuer.into()),
            StaticEvent::PrekeyRotated(k) => !own.contains(&k.issuer.into()) && !scope.contains(&k.issuer.into()),
        };
        let _ = h;
        if bad {
            return Err(format!("an agent is offered an event of something it has never had access to :: p{a} to {}: {}", w.name(&to), w.show_ev(e)));
        }
    }
    // everything of what it has access to
    for d in o.dlgs.values() {
        if reach.contains(&d.subject) && !evs.values().any(|e| matches!(e, StaticEvent::Delegated(x) if dlg_hash(x) == d.h)) {
            return Err(format!("an agent is not offered a delegation in a group it has access to :: p{a} to {}: {} in {}", w.name(&to), hx(&d.h), w.name(&d.subject)));
        }
    }
    for r in o.revs.values() {
        if reach.contains(&r.subject) && !evs.values().any(|e| matches!(e, StaticEvent::Revoked(x) if dlg_hash(x) == r.h)) {
            return Err(format!("an agent is not offered a revocation in a group it has access to :: p{a} to {}: {} in {}", w.name(&to), hx(&r.h), w.name(&r.subject)));
        }
    }
    Ok(())
}

pub fn script(ep: &mut Ep, offer: bool) -> Result<World, String> {
    let c = Cfg { peers: ep.rng.gen_range(2..6), ents: ep.rng.gen_range(1..5), steps: ep.rng.gen_range(6..24), via: false, revoke: ep.rng.gen_bool(0.8), nest: ep.rng.gen_bool(0.6), docs: true, offer, sync: 35 };
    let mut w = World::new(ep, c.peers);
    if ep.rng.gen_bool(0.5) {
        w.introduce_by_cards(ep);
    } else {
        w.introduce_all();
    }
    // with keys replaced and prekeys published in between
    let parts = ep.rng.gen_range(1..4);
    for _ in 0..parts {
        run_script(&mut w, ep, &Cfg { steps: c.steps.div_ceil(parts), ..c })?;
        for _ in 0..ep.rng.gen_range(0..4) {
            let p = ep.rng.gen_range(0..w.peers.len());
            keys(&mut w, ep, p)?;
        }
    }
    Ok(w)
}

/// Replica `p` replaces a key or publishes prekeys.
pub fn keys(w: &mut World, ep: &mut Ep, p: usize) -> EpResult {
    let kh = w.peers[p].kh.clone();
    match ep.rng.gen_range(0..6) {
        0 => drop(block_on(kh.expand_prekeys()).map_err(|e| format!("expand_prekeys: {e}"))?),
        1 => drop(block_on(kh.contact_card()).map_err(|e| format!("contact_card: {e}"))?),
        2 => {
            let mut ks: Vec<_> = block_on(async { kh.individual().await.lock().await.prekey_ops().values().map(|o| *o.new_key()).collect() });
            ks.sort();
            let k = ks[ep.rng.gen_range(0..ks.len())];
            block_on(kh.rotate_prekey(k)).map_err(|e| format!("rotate_prekey: {e}"))?;
        }
        _ => {
            let docs: Vec<Identifier> = w.ents.iter().filter(|e| e.kind == Kind::Doc && w.doc(p, e.id).is_some()).map(|e| e.id).collect();
            let Some(d) = docs.choose(&mut ep.rng) else { return Ok(()) };
            let doc = w.doc(p, *d).unwrap();
            if block_on(kh.force_pcs_update(doc)).is_ok() {
                ep.step(format!("p{p}: new key for {}", w.name(d)));
                ep.hit("keys replaced");
            }
        }
    }
    w.collect(p);
    Ok(())
}

/// A reinstalled device (same signer, empty state) gets what another replica
/// offers its identity.
pub fn fresh(ep: &mut Ep) -> EpResult {
    let mut w = script(ep, false)?;
    let n = w.peers.len();
    if outside_via(&w) {
        return Ok(());
    }
    let mut seen = 0;
    for k in 0..3 {
        let a = ep.rng.gen_range(0..n);
        let b = ep.rng.gen_range(0..n);
        if a == b {
            continue;
        }
        let bid = w.peers[b].id;
        let Some(ag) = w.agent(a, bid) else { continue };
        let evs = offered(&w, a, &ag)?;
        ep.add("events offered", evs.len() as u64);
        closed(&w, &evs, bid)?;
        scoped(&w, ep, a, &ag, &evs)?;
        let reach: BTreeSet<Identifier> = block_on(w.peers[a].kh.membered_reachable_by_agent(&ag)).into_values().map(|(m, _)| m.agent_id().into()).collect();
        let f = w.reinstall(ep, b, 5000 + k);
        let mut hs: Vec<Ev> = evs.values().cloned().collect();
        hs.shuffle(&mut ep.rng);
        let left = block_on(w.peers[f].kh.ingest_unsorted_static_events(hs));
        if !left.is_empty() {
            let l: Vec<String> = left.iter().map(|e| w.show_ev(e)).collect();
            let mut kinds: Vec<&str> = l.iter().map(|s| s.split(' ').next().unwrap()).collect();
            kinds.sort();
            kinds.dedup();
            dump(&w, ep);
            return Err(format!("events offered to a new device cannot be processed: {} :: p{a} to new p{b}: {}", kinds.join(","), l.join("; ")));
        }
        for e in &reach {
            seen += 1;
            ep.hit("entities compared on a new device");
            let va = w.view(a, *e).unwrap();
            let Some(vf) = w.view(f, *e) else {
                dump(&w, ep);
                return Err(format!("a new device does not learn of a group or document it has access to :: p{b} of {} from p{a}", w.name(e)));
            };
            let (mut x, mut y) = (va.clone(), vf.clone());
            x.has_key = false;
            y.has_key = false;
            if x != y {
                dump(&w, ep);
                let what = if x.members != y.members { "members" } else if x.transitive != y.transitive { "transitive members" } else if x.revoked != y.revoked { "revoked members" } else { "key-agreement state" };
                return Err(format!("a new device's {what} differ from the replica it synced with :: {}: p{a} {} / new p{b} {}", w.name(e), w.show(&va), w.show(&vf)));
            }
        }
        w.peers.pop();
    }
    ep.nontrivial = seen > 0;
    Ok(())
}

/// `a` sends `b` what it offers it and `b` lacks. `None` if there is nothing.
pub fn give(w: &mut World, ep: &mut Ep, a: usize, b: usize) -> Result<Option<usize>, String> {
    let bid = w.peers[b].id;
    let Some(ag) = w.agent(a, bid) else { return Ok(None) };
    let evs = offered(w, a, &ag)?;
    closed(w, &evs, bid)?;
    scoped(w, ep, a, &ag, &evs)?;
    let mut new: Vec<Ev> = evs.into_iter().filter(|(h, _)| !w.peers[b].has.contains(h)).map(|x| x.1).collect();
    if new.is_empty() {
        return Ok(None);
    }
    let n = new.len();
    new.shuffle(&mut ep.rng);
    for e in &new {
        w.publish(b, e.clone());
    }
    let left = if ep.rng.gen_bool(0.3) {
        // as live events
        let table = block_on(w.peers[a].kh.events_for_agent(&ag));
        let before = w.pending(b);
        block_on(w.peers[b].kh.ingest_event_table(table)).map_err(|e| format!("ingest_event_table: {e}"))?;
        w.pending(b).difference(&before).filter(|h| w.by_hash.contains_key(*h)).map(|h| std::sync::Arc::new(w.ev(h).clone())).collect()
    } else {
        block_on(w.peers[b].kh.ingest_unsorted_static_events(new))
    };
    w.collect(b);
    if !left.is_empty() && !outside_via(w) {
        dump(w, ep);
        let l: Vec<String> = left.iter().map(|e| w.show_ev(e)).collect();
        let mut kinds: Vec<&str> = l.iter().map(|s| s.split(' ').next().unwrap()).collect();
        kinds.sort();
        kinds.dedup();
        return Err(format!("offered events cannot be processed: {} :: p{a} to p{b}: {}", kinds.join(","), l.join("; ")));
    }
    Ok(Some(n))
}

/// All replicas exchange what they offer each other until nothing changes;
/// then those that have access to something agree on it.
pub fn gossip(ep: &mut Ep) -> EpResult {
    let mut w = script(ep, true)?;
    let n = w.peers.len();
    if outside_via(&w) {
        return Ok(());
    }
    let mut rounds = 0;
    loop {
        let mut moved = 0;
        let mut pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).filter(|(a, b)| a != b).collect();
        pairs.shuffle(&mut ep.rng);
        for (a, b) in pairs {
            moved += give(&mut w, ep, a, b)?.unwrap_or(0);
        }
        ep.add("events exchanged", moved as u64);
        rounds += 1;
        if moved == 0 {
            break;
        }
        if rounds > 20 {
            return Err("exchanging what replicas offer each other does not come to rest".into());
        }
    }
    // agreement among those with access in each other's opinion
    for e in w.ents.clone() {
        let mut vs: Vec<(usize, View)> = vec![];
        for p in 0..n {
            if let Some(v) = w.view(p, e.id) {
                if v.transitive.contains_key(&w.peers[p].id) {
                    vs.push((p, v));
                }
            }
        }
        for (p, v) in &vs {
            for (q, u) in &vs {
                if p < q && v.transitive.contains_key(&w.peers[*q].id) && u.transitive.contains_key(&w.peers[*p].id) {
                    ep.hit("pairs with mutual access compared");
                    ep.nontrivial = true;
                    let (mut x, mut y) = (v.clone(), u.clone());
                    x.has_key = false;
                    y.has_key = false;
                    if x != y {
                        dump(&w, ep);
                        return Err(format!("two replicas with mutual access to a {:?} disagree after exchanging everything they offer :: {}: p{p} {} / p{q} {}", e.kind, e.name, w.show(v), w.show(u)));
                    }
                }
            }
        }
    }
    Ok(())
}

/// The three bulk queries give every agent exactly what the per-agent queries give it.
pub fn bulk(ep: &mut Ep) -> EpResult {
    let offer = ep.rng.gen_bool(0.5);
    let w = script(ep, offer)?;
    for a in 0..w.peers.len() {
        let kh = &w.peers[a].kh;
        let all_m = block_on(kh.membership_ops_for_all_agents());
        let all_k = block_on(kh.reachable_prekey_ops_for_all_agents());
        let all_c = block_on(kh.cgka_ops_for_all_agents());
        let mut ids: Vec<Identifier> = w.peers.iter().map(|p| p.id).collect();
        ids.extend(w.ents.iter().map(|e| e.id));
        for id in ids {
            let Some(ag) = w.agent(a, id) else { continue };
            ep.hit("agents compared");
            let who = || format!("p{a} about {}", w.name(&id));
            let one: BTreeSet<H> = block_on(kh.membership_ops_for_agent(&ag)).keys().map(|k| *k.raw.as_bytes()).collect();
            let bulk: BTreeSet<H> = all_m.ops_for_agent(&id).map(|i| i.map(|(k, _)| *k.raw.as_bytes()).collect()).unwrap_or_default();
            ep.add("membership operations compared", one.len() as u64);
            if one != bulk {
                let d: Vec<String> = one
                    .symmetric_difference(&bulk)
                    .map(|h| w.all.iter().map(|(_, e)| e).find(|e| matches!(e, StaticEvent::Delegated(d) if dlg_hash(d) == *h) || matches!(e, StaticEvent::Revoked(d) if dlg_hash(d) == *h)).map(|e| w.show_ev(e)).unwrap_or_else(|| hx(h)))
                    .collect();
                dump(&w, ep);
                return Err(format!("membership operations for one agent and for all agents differ :: {}: {} alone, {} in bulk: {}", who(), one.len(), bulk.len(), d.join("; ")));
            }
            let show = |m: BTreeMap<Identifier, BTreeSet<H>>| m.into_iter().map(|(i, s)| format!("{}:{}", w.name(&i), s.len())).collect::<Vec<_>>().join(" ");
            let one: BTreeMap<Identifier, BTreeSet<H>> = block_on(kh.reachable_prekey_ops_for_agent(&ag)).into_iter().map(|(i, v)| (i, v.iter().map(|k| key_hash(k)).collect::<BTreeSet<_>>())).filter(|(_, s)| !s.is_empty()).collect();
            let bulk: BTreeMap<Identifier, BTreeSet<H>> = all_k.index.get(&id).into_iter().flatten().map(|i| (*i, all_k.ops.get(i).into_iter().flatten().map(|k| key_hash(k)).collect::<BTreeSet<_>>())).filter(|(_, s)| !s.is_empty()).collect();
            ep.add("prekey operations compared", one.len() as u64);
            // an agent in no group need not be listed in bulk
            if one != bulk && !(bulk.is_empty() && block_on(kh.membership_ops_for_agent(&ag)).is_empty()) {
                return Err(format!("prekey operations for one agent and for all agents differ :: {}: alone {} / in bulk {}", who(), show(one), show(bulk)));
            }
            let one: BTreeSet<H> = block_on(kh.cgka_ops_reachable_by_agent(&ag)).iter().map(|o| dlg_hash(o.as_ref())).collect();
            let bulk: BTreeSet<H> = all_c.index.get(&id).into_iter().flatten().flat_map(|i| all_c.ops.get(i).into_iter().flatten()).map(|o| dlg_hash(o.as_ref())).collect();
            ep.add("key-agreement operations compared", one.len() as u64);
            if one != bulk {
                return Err(format!("key-agreement operations for one agent and for all agents differ :: {}: {} alone, {} in bulk", who(), one.len(), bulk.len()));
            }
            let mut docs = BTreeSet::new();
            for d in block_on(kh.docs_reachable_by_agent(&ag)).keys() {
                if let Ok(Some(ops)) = block_on(kh.cgka_ops_for_doc(d)) {
                    docs.extend(ops.iter().map(|o| dlg_hash(o.as_ref())));
                }
            }
            if docs != bulk {
                return Err(format!("key-agreement operations by document and for all agents differ :: {}", who()));
            }
        }
    }
    ep.nontrivial = ep.counters.get("key-agreement operations compared").copied().unwrap_or(0) > 0;
    Ok(())
}

fn key_hash(k: &keyhive_core::principal::individual::op::KeyOp) -> H {
    *blake3::hash(&bincode::serialize(k).expect("serialises")).as_bytes()
}
