//! What a replica takes in and what it holds back, whatever the order.
use crate::check::{Ep, EpResult};
use crate::hostile::sign;
use crate::keyforge::ident;
use crate::listener::kind;
use crate::mem::*;
use crate::rt::*;
use crate::world::*;
use beekem::operation::CgkaOperation;
use keyhive_core::access::Access;
use keyhive_core::event::static_event::StaticEvent;
use keyhive_core::principal::group::membership_operation::StaticMembershipOperation;
use keyhive_core::principal::group::{delegation::StaticDelegation, revocation::StaticRevocation};
use keyhive_core::principal::identifier::Identifier;
use keyhive_core::principal::individual::op::{add_key::AddKeyOp, rotate_key::RotateKeyOp};
use keyhive_crypto::digest::Digest;
use keyhive_crypto::share_key::ShareSecretKey;
use keyhive_crypto::signed::Signed;
use keyhive_crypto::signer::memory::MemorySigner;
use keyhive_crypto::verifiable::Verifiable;
use rand::seq::SliceRandom;
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet};

type Dlg = (Identifier, Identifier, Access, Identifier); // subject, delegate, can, issuer

/// Whether `who` acts for `id` with at least `need`: the groups that this may lead
/// through have only grown (others are a recorded finding).
fn acts_for(dlgs: &BTreeMap<H, Dlg>, id: Identifier, who: Identifier, need: Access) -> bool {
    let mut seen: BTreeSet<Identifier> = [id].into();
    let mut todo = vec![id];
    while let Some(x) = todo.pop() {
        if x == who {
            return true;
        }
        for d in dlgs.values() {
            if d.0 == x && d.2 >= need && seen.insert(d.1) {
                todo.push(d.1);
            }
        }
    }
    false
}

/// Everything that can be accepted of `given`: the least set closed under "all
/// that it refers to is accepted". `junk` never can.
fn acceptable(w: &World, me: Identifier, given: &BTreeSet<H>, junk: &BTreeSet<H>) -> BTreeSet<H> {
    let evs: Vec<(H, &Ev)> = given.iter().filter(|h| !junk.contains(*h)).map(|h| (*h, w.ev(h))).collect();
    let mut acc: BTreeSet<H> = BTreeSet::new();
    let mut dlgs: BTreeMap<H, Dlg> = BTreeMap::new();
    let mut revs: BTreeSet<H> = BTreeSet::new();
    let mut cgka: BTreeSet<H> = BTreeSet::new();
    let mut known: BTreeSet<Identifier> = [me, public()].into();
    loop {
        let n = acc.len();
        for (h, e) in &evs {
            if acc.contains(h) {
                continue;
            }
            let ok = match e {
                StaticEvent::PrekeysExpanded(o) => {
                    known.insert(o.issuer.into());
                    true
                }
                StaticEvent::PrekeyRotated(o) => {
                    known.insert(o.issuer.into());
                    true
                }
                StaticEvent::Delegated(d) => {
                    let proof = d.payload.proof.map(|p| *p.raw.as_bytes());
                    let subject = match proof {
                        None => Some(Identifier::from(d.issuer)),
                        Some(p) => dlgs.get(&p).map(|x| x.0),
                    };
                    let may = proof.is_none_or(|p| dlgs.get(&p).is_some_and(|p| acts_for(&dlgs, p.1, d.issuer.into(), d.payload.can)));
                    let ok = subject.is_some() && may && known.contains(&d.payload.delegate) && d.payload.after_revocations.iter().all(|r| revs.contains(r.raw.as_bytes()));
                    if ok {
                        known.insert(subject.unwrap());
                        dlgs.insert(dlg_hash(d), (subject.unwrap(), d.payload.delegate, d.payload.can, d.issuer.into()));
                    }
                    ok
                }
                StaticEvent::Revoked(r) => {
                    let ok = dlgs.contains_key(r.payload.revoke.raw.as_bytes()) && r.payload.proof.is_none_or(|p| {
                        let revoked = &dlgs[r.payload.revoke.raw.as_bytes()];
                        dlgs.get(p.raw.as_bytes()).is_some_and(|p| p.3 == r.issuer.into() || acts_for(&dlgs, p.1, r.issuer.into(), revoked.2) || revoked.1 == r.issuer.into())
                    });
                    if ok {
                        revs.insert(dlg_hash(r));
                    }
                    ok
                }
                StaticEvent::CgkaOperation(o) => {
                    let doc = ident(&beekem::id::MemberId(o.payload.doc_id().verifying_key()));
                    let issuer = Identifier::from(o.issuer);
                    let mut readers = BTreeSet::new();
                    let mut todo = vec![doc];
                    while let Some(x) = todo.pop() {
                        for d in dlgs.values() {
                            if d.0 == x && d.2 >= Access::Read && readers.insert(d.1) {
                                todo.push(d.1);
                            }
                        }
                    }
                    let may = readers.contains(&issuer) || readers.contains(&public());
                    let preds = o.payload.predecessors();
                    let ok = known.contains(&doc)
                        && preds.iter().all(|p| cgka.contains(p.raw.as_bytes()))
                        && match &o.payload {
                            CgkaOperation::Add { added_id, .. } if preds.is_empty() => ident(added_id) == doc && dlgs.values().any(|d| d.0 == doc && d.3 == doc && d.1 == issuer),
                            CgkaOperation::Add { added_id, .. } => may && readers.contains(&ident(added_id)),
                            CgkaOperation::Remove { .. } => may,
                            CgkaOperation::Update { id, .. } => ident(id) == doc || readers.contains(&ident(id)),
                        };
                    if ok {
                        cgka.insert(*Digest::hash(o.as_ref()).raw.as_bytes());
                    }
                    ok
                }
            };
            if ok {
                acc.insert(*h);
            }
        }
        if acc.len() == n {
            return acc;
        }
    }
}

/// Input that can never be accepted, and that the honest operations do not need.
fn junk(w: &World, ep: &mut Ep, s: &MemorySigner) -> Ev {
    let nowhere = |ep: &mut Ep| ep.rng.gen::<[u8; 32]>();
    let honest: Vec<&Ev> = w.all.iter().map(|x| &x.1).collect();
    match ep.rng.gen_range(0..6) {
        0 => StaticEvent::Delegated(sign(s, StaticDelegation { can: acc(ep.rng.gen_range(0..4)), proof: Some(Digest::from(nowhere(ep))), delegate: w.peers.choose(&mut ep.rng).unwrap().id, after_revocations: vec![], after_content: BTreeMap::new() })),
        1 => StaticEvent::Delegated(sign(s, StaticDelegation { can: acc(3), proof: None, delegate: w.peers[0].id, after_revocations: vec![Digest::from(nowhere(ep))], after_content: BTreeMap::new() })),
        2 => StaticEvent::Revoked(sign(s, StaticRevocation { revoke: Digest::from(nowhere(ep)), proof: None, after_content: BTreeMap::new() })),
        3 => {
            let doc = Identifier::from(s.verifying_key());
            StaticEvent::CgkaOperation(Box::new(sign(s, CgkaOperation::Remove { id: beekem::id::MemberId(doc.0), leaf_idx: 0, removed_keys: vec![], predecessors: vec![Digest::from(nowhere(ep))], doc_id: beekem::id::TreeId(doc.0) })))
        }
        _ => {
            // somebody else's operation, altered
            let salt = ep.rng.gen_range(0..1 << 40);
            let k = ShareSecretKey::generate(&mut ep.csprng(salt)).share_key();
            match (*honest.choose(&mut ep.rng).unwrap()).clone() {
                StaticEvent::Delegated(d) => {
                    let mut p = d.payload.clone();
                    p.can = if p.can == Access::Admin { Access::Read } else { Access::Admin };
                    StaticEvent::Delegated(Signed::new(p, d.issuer, d.signature))
                }
                StaticEvent::Revoked(r) => StaticEvent::Revoked(Signed::new(r.payload.clone(), s.verifying_key(), r.signature)),
                StaticEvent::PrekeysExpanded(o) => StaticEvent::PrekeysExpanded(Box::new(Signed::new(AddKeyOp { share_key: k }, o.issuer, o.signature))),
                StaticEvent::PrekeyRotated(o) => StaticEvent::PrekeyRotated(Box::new(Signed::new(RotateKeyOp { old: o.payload.old, new: k }, o.issuer, o.signature))),
                StaticEvent::CgkaOperation(o) => {
                    let mut p = o.payload.clone();
                    match &mut p {
                        CgkaOperation::Add { pk, .. } => *pk = k,
                        CgkaOperation::Remove { removed_keys, .. } => removed_keys.push(k),
                        CgkaOperation::Update { new_path, .. } => new_path.removed_keys.push(k),
                    }
                    StaticEvent::CgkaOperation(Box::new(Signed::new(p, o.issuer, o.signature)))
                }
            }
        }
    }
}

/// How a replica is given its input.
pub const WAYS: &[&str] = &["all at once", "one at a time", "in batches", "one by one without retries, then again", "put among the pending, then retried", "in order of creation"];

pub fn feed(w: &mut World, ep: &mut Ep, q: usize, mut hs: Vec<H>, way: &str) -> EpResult {
    if way != "in order of creation" {
        hs.shuffle(&mut ep.rng);
    }
    let kh = w.peers[q].kh.clone();
    for h in &hs {
        w.peers[q].has.insert(*h);
    }
    let evs: Vec<Ev> = hs.iter().map(|h| w.ev(h).clone()).collect();
    let mut left: Option<Vec<H>> = None;
    let hashes = |v: Vec<std::sync::Arc<Ev>>| -> Vec<H> { v.iter().map(|e| ev_hash(e)).collect() };
    match way {
        "all at once" => left = Some(hashes(block_on(kh.ingest_unsorted_static_events(evs)))),
        "one at a time" | "in order of creation" => {
            for e in evs {
                left = Some(hashes(block_on(kh.ingest_unsorted_static_events(vec![e]))));
            }
        }
        "in batches" => {
            let mut i = 0;
            while i < evs.len() {
                let j = (i + ep.rng.gen_range(1..8)).min(evs.len());
                left = Some(hashes(block_on(kh.ingest_unsorted_static_events(evs[i..j].to_vec()))));
                i = j;
            }
        }
        "one by one without retries, then again" => {
            for e in &evs {
                match (e, ep.rng.gen_range(0..3)) {
                    (StaticEvent::Delegated(d), 0) => drop(block_on(kh.receive_delegation(d))),
                    (StaticEvent::Delegated(d), 1) => drop(block_on(kh.receive_membership_op(&StaticMembershipOperation::Delegation(d.clone())))),
                    (StaticEvent::Revoked(d), 0) => drop(block_on(kh.receive_revocation(d))),
                    (StaticEvent::Revoked(d), 1) => drop(block_on(kh.receive_membership_op(&StaticMembershipOperation::Revocation(d.clone())))),
                    (StaticEvent::CgkaOperation(d), 0) => drop(block_on(kh.receive_cgka_op((**d).clone()))),
                    (StaticEvent::PrekeysExpanded(d), 0) => drop(block_on(kh.receive_prekey_op(&std::sync::Arc::new((**d).clone()).into()))),
                    (StaticEvent::PrekeyRotated(d), 0) => drop(block_on(kh.receive_prekey_op(&std::sync::Arc::new((**d).clone()).into()))),
                    _ => drop(block_on(kh.receive_static_event(e.clone()))),
                }
            }
            left = Some(hashes(block_on(kh.ingest_unsorted_static_events(evs))));
        }
        _ => {
            let k = ep.rng.gen_range(0..=evs.len());
            block_on(kh.inject_pending_events(evs[..k].to_vec()));
            left = Some(hashes(block_on(kh.ingest_unsorted_static_events(evs[k..].to_vec()))));
        }
    }
    w.collect(q);
    if let Some(l) = left {
        let n = l.len();
        let l: BTreeSet<H> = l.into_iter().collect();
        if l.len() != n {
            return Err(format!("ingestion reports an event as left over more than once :: p{q} ({way})"));
        }
        if l != w.pending(q) {
            return Err(format!("what ingestion returns is not what it holds back :: p{q} ({way}): {} and {}", l.len(), w.pending(q).len()));
        }
    }
    Ok(())
}

fn judge(w: &World, ep: &mut Ep, q: usize, junk: &BTreeSet<H>, way: &str) -> EpResult {
    let me = w.peers[q].id;
    let given = &w.peers[q].has;
    let own = &w.peers[q].initial;
    let want = acceptable(w, me, given, junk);
    let log = w.peers[q].rec.log.lock().unwrap().clone();
    let mut got: BTreeSet<H> = BTreeSet::new();
    for e in &log {
        if !got.insert(ev_hash(e)) {
            return Err(format!("a {} is reported more than once :: p{q} ({way}): {}", kind(e), w.show_ev(e)));
        }
    }
    ep.add("acceptances judged", given.len() as u64);
    for h in &got {
        if !given.contains(h) {
            return Err(format!("a replica accepted something nobody gave it :: p{q} ({way}): {}", w.show_ev(w.ev(h))));
        }
        if junk.contains(h) {
            return Err(format!("a replica accepted a {} that is not genuine or refers to nothing :: p{q} ({way}): {}", kind(w.ev(h)), w.show_ev(w.ev(h))));
        }
        if !want.contains(h) {
            return Err(format!("a replica accepted a {} before what it depends on :: p{q} ({way}): {}", kind(w.ev(h)), w.show_ev(w.ev(h))));
        }
    }
    for h in &want {
        if !got.contains(h) && !own.contains(h) {
            return Err(format!("a replica has not accepted a {} although it has all that it depends on :: p{q} ({way}): {}", kind(w.ev(h)), w.show_ev(w.ev(h))));
        }
    }
    let pending = w.pending(q);
    ep.add("events held back", pending.len() as u64);
    for h in given {
        let acc = want.contains(h);
        if acc && pending.contains(h) {
            return Err(format!("a replica holds back a {} that it has accepted :: p{q} ({way}): {}", kind(w.ev(h)), w.show_ev(w.ev(h))));
        }
        // a prekey operation that is not genuine is dropped
        if !acc && !junk.contains(h) && !pending.contains(h) {
            return Err(format!("a replica has lost a {} that lacks something it depends on :: p{q} ({way}): {}", kind(w.ev(h)), w.show_ev(w.ev(h))));
        }
    }
    if let Some(h) = pending.iter().find(|h| !given.contains(*h)) {
        return Err(format!("a replica holds back something nobody gave it :: p{q} ({way}): {}", w.show_ev(w.ev(h))));
    }
    tally(w, ep, q, &log, way)
}

/// What a replica counts and looks up is what it has accepted (`log`) and holds back.
fn tally(w: &World, ep: &mut Ep, q: usize, log: &[Ev], way: &str) -> EpResult {
    let kh = &w.peers[q].kh;
    let me = w.peers[q].id;
    let own = &w.peers[q].initial;
    let s = block_on(kh.stats());
    let mut n: BTreeMap<&str, u64> = BTreeMap::new();
    for k in ["delegations", "revocations", "key-agreement operations", "groups", "documents", "delegations held back", "revocations held back", "key-agreement operations held back", "prekeys held back", "rotations held back", "own held back", "prekey operations"] {
        n.insert(k, 0);
    }
    let mut up = |k: &'static str, by: u64| *n.get_mut(k).unwrap() += by;
    up("prekey operations", own.len() as u64);
    for e in log {
        match e {
            StaticEvent::Delegated(d) => {
                up("delegations", 1);
                if d.payload.proof.is_none() && !log.iter().take_while(|x| *x != e).any(|x| matches!(x, StaticEvent::Delegated(y) if y.payload.proof.is_none() && y.issuer == d.issuer)) {
                    up(if w.ents.iter().any(|x| x.id == d.issuer.into() && x.kind == Kind::Doc) { "documents" } else { "groups" }, 1);
                }
            }
            StaticEvent::Revoked(_) => up("revocations", 1),
            StaticEvent::CgkaOperation(_) => up("key-agreement operations", 1),
            _ => up("prekey operations", if own.contains(&ev_hash(e)) { 0 } else { 1 }),
        }
    }
    for h in w.pending(q) {
        let e = w.ev(&h);
        let (k, who) = match e {
            StaticEvent::Delegated(d) => ("delegations held back", d.issuer),
            StaticEvent::Revoked(d) => ("revocations held back", d.issuer),
            StaticEvent::CgkaOperation(d) => ("key-agreement operations held back", d.issuer),
            StaticEvent::PrekeysExpanded(d) => ("prekeys held back", d.issuer),
            StaticEvent::PrekeyRotated(d) => ("rotations held back", d.issuer),
        };
        up(k, 1);
        if me == who.into() {
            up("own held back", 1);
        }
    }
    let active = block_on(async { kh.individual().await.lock().await.prekey_ops().len() }) as u64;
    let told = [
        ("delegations", s.delegations),
        ("revocations", s.revocations),
        ("key-agreement operations", s.cgka_operations),
        ("groups", s.groups),
        ("documents", s.docs),
        ("delegations held back", s.pending_delegated),
        ("revocations held back", s.pending_revoked),
        ("key-agreement operations held back", s.pending_cgka_operation),
        ("prekeys held back", s.pending_prekeys_expanded),
        ("rotations held back", s.pending_prekey_rotated),
        ("own held back", s.pending_delegated_by_active + s.pending_revoked_by_active + s.pending_cgka_operation_by_active + s.pending_prekeys_expanded_by_active + s.pending_prekey_rotated_by_active),
        ("prekey operations", s.prekeys_expanded + s.prekey_rotations),
    ];
    for (k, v) in told {
        if n[k] != v {
            return Err(format!("a replica miscounts its {k} :: p{q} ({way}): says {v}, has {}", n[k]));
        }
    }
    if s.active_prekey_count != active {
        return Err(format!("a replica miscounts its own prekeys :: p{q} ({way}): says {}, has {active}", s.active_prekey_count));
    }
    ep.add("counts compared", told.len() as u64);
    if ep.rng.gen_bool(0.6) {
        return Ok(());
    }
    // everything accepted is found, and is what was accepted
    let acc: BTreeSet<H> = log.iter().map(ev_hash).collect();
    for (h, e) in w.all.iter() {
        let (d, is) = match e {
            StaticEvent::Delegated(x) => (dlg_hash(x), "delegation"),
            StaticEvent::Revoked(x) => (dlg_hash(x), "revocation"),
            _ => continue,
        };
        let found = block_on(kh.get_membership_operation(&Digest::from(d)));
        if found.is_some() != acc.contains(h) {
            return Err(format!("a {is} that was {}accepted is {}found :: p{q} ({way})", if acc.contains(h) { "" } else { "not " }, if found.is_some() { "" } else { "not " }));
        }
        if let Some(f) = found {
            if ev_hash(&keyhive_core::event::Event::from(f).into()) != *h {
                return Err(format!("another {is} is found than was asked for :: p{q} ({way})"));
            }
            ep.hit("operations looked up");
        }
        let Ok(live) = block_on(kh.static_event_to_event(e.clone())) else {
            if acc.contains(h) {
                return Err(format!("a {is} that was accepted cannot be put together again :: p{q} ({way}): {}", w.show_ev(e)));
            }
            continue;
        };
        if ev_hash(&live.into()) != *h {
            return Err(format!("a {is} changes when it is put together :: p{q} ({way}): {}", w.show_ev(e)));
        }
    }
    Ok(())
}

fn partial(ep: &mut Ep, noise: bool) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(2..5), ents: ep.rng.gen_range(1..5), steps: ep.rng.gen_range(6..24), via: ep.rng.gen_bool(0.3), revoke: true, nest: ep.rng.gen_bool(0.6), docs: true, offer: false, sync: 35 };
    let watchers = ep.rng.gen_range(2..4);
    let mut w = World::new(ep, c.peers + watchers);
    let late = w.peers.split_off(c.peers);
    w.introduce_all();
    run_script(&mut w, ep, &c)?;
    for _ in 0..ep.rng.gen_range(0..4) {
        let p = ep.rng.gen_range(0..c.peers);
        if ep.rng.gen_bool(0.5) {
            block_on(w.peers[p].kh.expand_prekeys()).map_err(|e| format!("expand_prekeys: {e}"))?;
        } else {
            block_on(w.peers[p].kh.contact_card()).map_err(|e| format!("contact_card: {e}"))?;
        }
        w.collect(p);
    }
    w.peers.extend(late);
    // operations by way of a group are accepted according to its members
    if outside_via(&w) {
        ep.hit("episodes outside the fragment (authority through a shrinking group)");
        return Ok(());
    }
    let honest: Vec<H> = w.all.iter().map(|x| x.0).collect();
    let mut bad: BTreeSet<H> = BTreeSet::new();
    if noise {
        let s = MemorySigner::generate(&mut ep.csprng(77));
        for _ in 0..ep.rng.gen_range(1..12) {
            let e = junk(&w, ep, &s);
            let h = ev_hash(&e);
            if !w.by_hash.contains_key(&h) {
                ep.step(format!("junk: {}", w.show_ev(&e)));
                w.by_hash.insert(h, w.all.len());
                w.all.push((h, e));
                bad.insert(h);
                ep.hit("junk events");
            }
        }
    }
    // what arrives in each of a few rounds
    let all: Vec<H> = w.all.iter().map(|x| x.0).collect();
    let mut rounds: Vec<Vec<H>> = vec![];
    for _ in 0..ep.rng.gen_range(1..4) {
        let some: Vec<H> = match ep.rng.gen_range(0..4) {
            0 => {
                let k = ep.rng.gen_range(0..=all.len());
                let mut v = all.clone();
                v.shuffle(&mut ep.rng);
                v.truncate(k);
                v
            }
            1 => {
                let lack = *all.choose(&mut ep.rng).unwrap();
                all.iter().copied().filter(|h| *h != lack).collect()
            }
            2 => {
                // all but one kind
                let k = kind(&w.all.choose(&mut ep.rng).unwrap().1);
                all.iter().copied().filter(|h| kind(w.ev(h)) != k).collect()
            }
            _ => {
                let a = ep.rng.gen_range(0..all.len());
                let b = ep.rng.gen_range(a..=all.len());
                all[a..b].to_vec()
            }
        };
        rounds.push(some);
    }
    rounds.push(all.clone());
    for (i, r) in rounds.iter().enumerate() {
        for q in c.peers..c.peers + watchers {
            let way = *WAYS.choose(&mut ep.rng).unwrap();
            ep.step(format!("round {i} at p{q}: {} events, {way}", r.len()));
            let res = feed(&mut w, ep, q, r.clone(), way).and_then(|_| judge(&w, ep, q, &bad, way));
            if res.is_err() {
                dump(&w, ep);
                return res;
            }
        }
        ep.hit("rounds");
    }
    // everything honest has arrived everywhere
    for q in c.peers..c.peers + watchers {
        for h in w.pending(q) {
            if !bad.contains(&h) {
                dump(&w, ep);
                return Err(format!("a replica that has everything still holds back a {} :: p{q}: {}", kind(w.ev(&h)), w.show_ev(w.ev(&h))));
            }
        }
        // again, which changes nothing
        let n = w.peers[q].rec.len();
        let before = w.pending(q);
        let mut again = honest.clone();
        again.shuffle(&mut ep.rng);
        let k = ep.rng.gen_range(0..=again.len());
        again.truncate(k);
        let way = WAYS[ep.rng.gen_range(0..3)];
        feed(&mut w, ep, q, again, way)?;
        if w.peers[q].rec.len() != n || w.pending(q) != before {
            dump(&w, ep);
            return Err(format!("what a replica has already is taken in again :: p{q}"));
        }
        ep.hit("repetitions");
    }
    for p in 0..c.peers {
        let mut miss: Vec<H> = honest.iter().copied().filter(|h| !w.peers[p].has.contains(h)).collect();
        w.deliver_set(ep, p, &mut miss, false);
    }
    ep.nontrivial = rounds.len() > 1;
    compare_views(&w, ep)
}

pub fn gaps(ep: &mut Ep) -> EpResult {
    partial(ep, false)
}
pub fn noise(ep: &mut Ep) -> EpResult {
    partial(ep, true)
}
