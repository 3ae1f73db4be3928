//! Monitors over what a replica reports to its listener.
use crate::check::{Ep, EpResult};
use crate::mem::*;
use crate::oracle::Oracle;
use crate::rt::*;
use crate::world::*;
use keyhive_core::event::static_event::StaticEvent;
use keyhive_core::principal::identifier::Identifier;
use rand::seq::SliceRandom;
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub fn kind(e: &Ev) -> &'static str {
    match e {
        StaticEvent::PrekeysExpanded(_) | StaticEvent::PrekeyRotated(_) => "prekey operation",
        StaticEvent::CgkaOperation(_) => "key-agreement operation",
        StaticEvent::Delegated(_) => "delegation",
        StaticEvent::Revoked(_) => "revocation",
    }
}

/// Everything a replica says it holds, by query.
pub fn holdings(w: &World, p: usize) -> BTreeMap<H, Ev> {
    let kh = &w.peers[p].kh;
    let mut m = BTreeMap::new();
    let mut put = |e: Ev| {
        m.insert(ev_hash(&e), e);
    };
    let d = block_on(async { kh.membership_ops_for_all_agents().await });
    for ops in d.ops.values() {
        for op in ops.values() {
            put(keyhive_core::event::Event::from(op.clone()).into());
        }
    }
    for ops in block_on(kh.reachable_prekey_ops_for_all_agents()).ops.values() {
        for op in ops {
            put(keyhive_core::event::Event::<future_form::Sendable, keyhive_crypto::signer::memory::MemorySigner, Ref, Rec>::from(op.as_ref().clone()).into());
        }
    }
    for (_, d) in block_on(async { kh.documents().lock().await.clone() }) {
        let id = block_on(async { d.lock().await.doc_id() });
        if let Ok(Some(ops)) = block_on(kh.cgka_ops_for_doc(&id)) {
            for op in ops {
                put(StaticEvent::CgkaOperation(Box::new((*op).clone())));
            }
        }
    }
    m
}

pub fn complete(ep: &mut Ep) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(2..5), ents: ep.rng.gen_range(1..5), steps: ep.rng.gen_range(6..24), via: ep.rng.gen_bool(0.3), revoke: ep.rng.gen_bool(0.8), nest: ep.rng.gen_bool(0.6), docs: true, offer: ep.rng.gen_bool(0.3), sync: 35 };
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    run_script(&mut w, ep, &c)?;
    // some more prekey traffic
    for _ in 0..ep.rng.gen_range(0..4) {
        let p = ep.rng.gen_range(0..w.peers.len());
        if ep.rng.gen_bool(0.5) {
            block_on(w.peers[p].kh.expand_prekeys()).map_err(|e| format!("expand_prekeys: {e}"))?;
        } else {
            block_on(w.peers[p].kh.contact_card()).map_err(|e| format!("contact_card: {e}"))?;
        }
        w.collect(p);
    }
    for p in 0..w.peers.len() {
        if ep.rng.gen_bool(0.7) {
            w.deliver_missing(ep, p, true);
        }
    }
    ep.nontrivial = ep.counters.get("adds").copied().unwrap_or(0) > 1;
    audit(&mut w, ep)?;
    rebuild(&mut w, ep)
}

/// Somebody known by its prekeys turns out to be a group.
pub fn turned(ep: &mut Ep) -> EpResult {
    match crate::mem::turned(ep)? {
        Some(mut w) => audit(&mut w, ep),
        None => Ok(()),
    }
}

/// What each replica reported is what it holds, once each, in order.
fn audit(w: &mut World, ep: &mut Ep) -> EpResult {
    for p in 0..w.peers.len() {
        let log = w.peers[p].rec.log.lock().unwrap().clone();
        let mut seen = BTreeMap::new();
        for e in &log {
            *seen.entry(ev_hash(e)).or_insert(0) += 1;
        }
        ep.add("events reported", log.len() as u64);
        for e in &log {
            if seen[&ev_hash(e)] > 1 {
                return Err(format!("a {} is reported {} than once :: p{p}: {}", kind(e), "more", w.show_ev(e)));
            }
        }
        let hold = holdings(w, p);
        for (h, e) in &hold {
            // the prekeys made together with the identity are part of its first archive
            if !seen.contains_key(h) && !w.peers[p].initial.contains(h) {
                return Err(format!("a replica holds a {} that it never reported :: p{p}: {}", kind(e), w.show_ev(e)));
            }
        }
        for e in &log {
            if !hold.contains_key(&ev_hash(e)) {
                // an individual nobody has delegated to is still known
                return Err(format!("a replica reported a {} that it does not hold :: p{p}: {}", kind(e), w.show_ev(e)));
            }
        }
        // reported in an order that can be replayed one by one
        let mut done: BTreeSet<H> = BTreeSet::new();
        let full = Oracle::new(log.iter());
        for e in &log {
            let (h, deps) = match e {
                StaticEvent::Delegated(d) => {
                    let h = dlg_hash(d);
                    let d = full.dlgs.get(&h).ok_or("a reported delegation lacks what it depends on".to_string())?;
                    (h, d.proof.into_iter().chain(d.after_revs.iter().copied()).collect::<Vec<_>>())
                }
                StaticEvent::Revoked(d) => {
                    let h = dlg_hash(d);
                    let d = full.revs.get(&h).ok_or("a reported revocation lacks what it depends on".to_string())?;
                    (h, d.proof.into_iter().chain([d.revoke]).collect::<Vec<_>>())
                }
                _ => continue,
            };
            if deps.iter().any(|d| !done.contains(d)) {
                return Err(format!("a {} is reported before what it depends on :: p{p}: {}", kind(e), w.show_ev(e)));
            }
            done.insert(h);
            ep.hit("dependencies in order");
        }
    }
    Ok(())
}

/// A replica rebuilt from its own log is the same.
fn rebuild(w: &mut World, ep: &mut Ep) -> EpResult {
    let p = ep.rng.gen_range(0..w.peers.len());
    let mut log = w.peers[p].rec.log.lock().unwrap().clone();
    if ep.rng.gen_bool(0.5) {
        log.shuffle(&mut ep.rng);
    }
    let f = w.reinstall(ep, p, 9000);
    let left = block_on(w.peers[f].kh.ingest_unsorted_static_events(log));
    if !left.is_empty() && !outside_via(w) {
        dump(w, ep);
        return Err(format!("a replica's own log cannot be replayed :: p{p}: {}", left.iter().map(|e| w.show_ev(e)).collect::<Vec<_>>().join("; ")));
    }
    if left.is_empty() {
        same_views(w, ep, p, f, "a replica rebuilt from its own log")?;
        ep.hit("replicas rebuilt from their log");
    }
    Ok(())
}

/// Replicas `p` and `f` say the same about everything `p` knows.
pub fn same_views(w: &World, ep: &mut Ep, p: usize, f: usize, what: &str) -> EpResult {
    let ids: Vec<Identifier> = w.ents.iter().map(|e| e.id).collect();
    for e in ids {
        let a = w.view(p, e);
        let b = w.view(f, e);
        if let Some(a) = &a {
            ep.hit("views compared");
            if !a.members.is_empty() {
                ep.hit("nonempty views compared");
            }
        }
        match (a, b) {
            (None, None) => {}
            (Some(mut a), Some(mut b)) => {
                a.has_key = false;
                b.has_key = false;
                if a != b {
                    dump(w, ep);
                    let d = if a.members != b.members { "members" } else if a.caps != b.caps { "capabilities" } else if a.transitive != b.transitive { "transitive members" } else if a.revoked != b.revoked { "revoked members" } else { "key-agreement state" };
                    return Err(format!("{what} differs on the {d} :: {}: {} / {}", w.name(&e), w.show(&a), w.show(&b)));
                }
            }
            (a, _) => {
                return Err(format!("{what} {} a group or document :: {}", if a.is_some() { "lacks" } else { "invents" }, w.name(&e)));
            }
        }
    }
    Ok(())
}

pub struct Kept {
    heard: Vec<Ev>,
    left: usize,
    acts: Vec<&'static str>,
}

/// One newcomer's life, with the listener given: it is handed `batches` and
/// then acts. The listener's list is read by `$snap` at the end.
macro_rules! live {
    ($l:expr, $rng:expr, $batches:expr, $acts:expr, $ids:expr, $snap:expr) => {{
        let mut r2 = $rng.clone();
        let signer = keyhive_crypto::signer::memory::MemorySigner::generate(&mut r2);
        let l = $l;
        let kh = block_on(keyhive_core::keyhive::Keyhive::<future_form::Sendable, keyhive_crypto::signer::memory::MemorySigner, Ref, Vec<u8>, Store, _, Csprng>::generate(signer, Store::new(), l.clone(), $rng.clone())).map_err(|e| format!("generate: {e}"))?;
        for b in $batches.iter() {
            block_on(kh.ingest_unsorted_static_events(b.clone()));
        }
        let mut acts = vec![];
        for a in $acts.iter() {
            let ok = match a {
                0 => block_on(kh.generate_group(vec![])).is_ok(),
                1 => block_on(kh.generate_doc(vec![], nonempty::NonEmpty::new([acts.len() as u8; 32]))).is_ok(),
                2 => block_on(kh.expand_prekeys()).is_ok(),
                3 => block_on(kh.contact_card()).is_ok(),
                4 => {
                    let mut ds: Vec<_> = block_on(async { kh.documents().lock().await.clone() }).into_iter().collect();
                    ds.sort_by_key(|(i, _)| *i);
                    let mut ok = false;
                    for (_, d) in ds {
                        ok |= block_on(kh.force_pcs_update(d)).is_ok();
                    }
                    ok
                }
                _ => {
                    let mut gs: Vec<_> = block_on(async { kh.groups().lock().await.clone() }).into_iter().collect();
                    gs.sort_by_key(|(i, _)| *i);
                    let mut ok = false;
                    for (_, g) in gs {
                        for id in $ids.iter() {
                            let Some(a) = block_on(kh.get_agent(*id)) else { continue };
                            let gid = block_on(async { g.lock().await.group_id() });
                            let m = keyhive_core::principal::membered::Membered::Group(gid, g.clone());
                            ok |= block_on(kh.add_member(a, &m, keyhive_core::access::Access::Read, &[])).is_ok();
                        }
                    }
                    ok
                }
            };
            acts.push(if ok { "done" } else { "refused" });
        }
        let left = block_on(kh.pending_event_hashes()).len();
        let heard: Vec<Ev> = $snap(&l);
        (Kept { heard, left, acts }, l)
    }};
}

type Of<L> = keyhive_core::event::Event<future_form::Sendable, keyhive_crypto::signer::memory::MemorySigner, Ref, L>;
type LogL = keyhive_core::listener::log::Log<future_form::Sendable, keyhive_crypto::signer::memory::MemorySigner, Ref>;
type DequeL = keyhive_core::listener::deque::Deque<future_form::Sendable, keyhive_crypto::signer::memory::MemorySigner, Ref>;

/// The listeners that come with it, the list and the queue, keep what they
/// are told and hand it back in order.
pub fn kept(ep: &mut Ep) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(2..4), ents: ep.rng.gen_range(1..4), steps: ep.rng.gen_range(4..14), via: false, revoke: true, nest: ep.rng.gen_bool(0.5), docs: true, offer: false, sync: 35 };
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    run_script(&mut w, ep, &c)?;
    let mut evs: Vec<Ev> = w.all.iter().map(|(_, e)| e.clone()).collect();
    evs.shuffle(&mut ep.rng);
    let keep = ep.rng.gen_range(evs.len() / 2..=evs.len());
    evs.truncate(keep);
    let mut batches = vec![];
    while !evs.is_empty() {
        let n = ep.rng.gen_range(1..=evs.len());
        batches.push(evs.split_off(evs.len() - n));
    }
    let acts: Vec<u8> = (0..ep.rng.gen_range(1..6)).map(|_| ep.rng.gen_range(0..6)).collect();
    let ids: Vec<Identifier> = w.peers.iter().map(|p| p.id).collect();
    ep.step(format!("batches {} {acts:?}", batches.len()));
    let rng = ep.csprng(77);
    let (rec, _) = live!(Rec::default(), rng, batches, acts, ids, |l: &Rec| l.log.lock().unwrap().clone());
    let (log, l) = live!(LogL::new(), rng, batches, acts, ids, |l: &LogL| block_on(async { l.0.lock().await.iter().cloned().map(Into::into).collect::<Vec<Ev>>() }));
    let (que, q) = live!(DequeL::new(), rng, batches, acts, ids, |l: &DequeL| block_on(async { l.0.lock().await.iter().cloned().map(Into::into).collect::<Vec<Ev>>() }));
    ep.nontrivial = rec.heard.len() > 3;
    for (name, k) in [("list", &log), ("queue", &que)] {
        if k.acts != rec.acts || k.left != rec.left {
            return Err(format!("what a replica does depends on its listener ({name}) :: {:?} {} / {:?} {}", k.acts, k.left, rec.acts, rec.left));
        }
        let given: BTreeSet<H> = batches.iter().flatten().map(ev_hash).collect();
        let told = |v: &[Ev]| -> BTreeMap<H, usize> {
            let mut m = BTreeMap::new();
            for e in v {
                *m.entry(ev_hash(e)).or_insert(0) += 1;
            }
            m
        };
        let (a, b) = (told(&k.heard), told(&rec.heard));
        for (h, n) in &b {
            if given.contains(h) && a.get(h) != Some(n) {
                return Err(format!("the {name} that listens does not hold what was reported once :: {:?} / {n}", a.get(h)));
            }
        }
        let kinds = |v: &[Ev]| {
            let mut m = BTreeMap::new();
            for e in v {
                *m.entry(kind(e)).or_insert(0) += 1;
            }
            m
        };
        if kinds(&k.heard) != kinds(&rec.heard) {
            return Err(format!("the {name} that listens holds other reports than were made :: {:?} / {:?}", kinds(&k.heard), kinds(&rec.heard)));
        }
        ep.add("events kept by the listeners that come with it", k.heard.len() as u64);
    }
    // what is heard, by what is handed back
    let mut model: Vec<H> = log.heard.iter().map(ev_hash).collect();
    let mut made: Vec<Of<LogL>> = block_on(async { l.0.lock().await.clone() });
    made.shuffle(&mut ep.rng);
    for _ in 0..ep.rng.gen_range(3..20) {
        let what = ep.rng.gen_range(0..20);
        match what {
            0 => {
                block_on(l.clear());
                model.clear();
            }
            1..=4 => {
                if let Some(e) = made.pop() {
                    model.push(ev_hash(&e.clone().into()));
                    block_on(l.push(e));
                }
            }
            _ => {
                let got = block_on(l.pop()).map(|e| ev_hash(&e.into()));
                if got != model.pop() {
                    return Err("the list that listens does not hand back the latest event".into());
                }
                ep.hit("events handed back by the list");
            }
        }
        if block_on(l.len()) != model.len() || block_on(l.is_empty()) != model.is_empty() {
            return Err(format!("the list that listens miscounts its events :: {} of {}", block_on(l.len()), model.len()));
        }
    }
    let mut model: std::collections::VecDeque<H> = que.heard.iter().map(ev_hash).collect();
    let mut made: Vec<Of<DequeL>> = block_on(async { q.0.lock().await.iter().cloned().collect() });
    made.shuffle(&mut ep.rng);
    for _ in 0..ep.rng.gen_range(3..20) {
        let what = ep.rng.gen_range(0..20);
        match what {
            0 => {
                block_on(q.clear());
                model.clear();
            }
            1..=4 => {
                if let Some(e) = made.pop() {
                    model.push_back(ev_hash(&e.clone().into()));
                    block_on(q.push(e));
                }
            }
            5..=12 => {
                let got = block_on(q.pop_latest()).map(|e| ev_hash(&e.into()));
                if got != model.pop_back() {
                    return Err("the queue that listens does not hand back the latest event".into());
                }
                ep.hit("latest events handed back by the queue");
            }
            _ => {
                let got = block_on(q.pop_earliest()).map(|e| ev_hash(&e.into()));
                if got != model.pop_front() {
                    return Err("the queue that listens does not hand back the earliest event".into());
                }
                ep.hit("earliest events handed back by the queue");
            }
        }
        if block_on(q.is_empty()) != model.is_empty() {
            return Err("the queue that listens miscounts its events".into());
        }
    }
    Ok(())
}
