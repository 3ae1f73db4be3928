//! Archives: a replica put away and taken out again is the same replica.
use crate::check::{Ep, EpResult};
use crate::listener::holdings;
use crate::mem::*;
use crate::oracle::Oracle;
use crate::rt::*;
use crate::world::*;
use keyhive_core::archive::Archive;
use keyhive_core::principal::identifier::Identifier;
use rand::seq::SliceRandom;
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub struct Snap {
    views: BTreeMap<Identifier, Option<View>>,
    hold: BTreeSet<H>,
    pending: BTreeSet<H>,
    secrets: BTreeMap<Vec<u8>, Vec<u8>>,
    reach: BTreeSet<(Identifier, String)>,
    offers: BTreeMap<Identifier, BTreeSet<H>>,
}

pub fn secrets(w: &World, p: usize) -> BTreeMap<Vec<u8>, Vec<u8>> {
    let b = block_on(w.peers[p].kh.export_prekey_secrets()).expect("export_prekey_secrets");
    let m: BTreeMap<keyhive_crypto::share_key::ShareKey, keyhive_crypto::share_key::ShareSecretKey> = bincode::deserialize(&b).expect("prekey secrets are a map");
    m.into_iter().map(|(k, v)| (bincode::serialize(&k).unwrap(), bincode::serialize(&v).unwrap())).collect()
}

pub fn snap(w: &World, p: usize) -> Snap {
    let me = w.peers[p].id;
    let ids: Vec<Identifier> = w.peers.iter().map(|q| q.id).collect();
    Snap {
        views: w.ents.iter().map(|e| (e.id, w.view(p, e.id))).collect(),
        hold: holdings(w, p).into_keys().collect(),
        pending: w.pending(p),
        secrets: secrets(w, p),
        reach: {
            let a = w.agent(p, me).expect("a replica knows itself");
            block_on(w.peers[p].kh.membered_reachable_by_agent(&a)).into_values().map(|(m, a)| (m.agent_id().into(), a.to_string())).collect()
        },
        offers: ids.iter().filter_map(|i| w.agent(p, *i).map(|a| (*i, crate::sync::offered(w, p, &a).unwrap_or_default().into_keys().collect()))).collect(),
    }
}

pub fn same(w: &World, p: usize, a: &Snap, b: &Snap, what: &str) -> EpResult {
    for (e, v) in &a.views {
        let v2 = &b.views[e];
        if v != v2 {
            let d = match (v, v2) {
                (Some(a), Some(b)) if a.members != b.members => "members",
                (Some(a), Some(b)) if a.caps != b.caps => "capabilities",
                (Some(a), Some(b)) if a.transitive != b.transitive => "transitive members",
                (Some(a), Some(b)) if a.revoked != b.revoked => "revoked members",
                (Some(_), Some(_)) => "key agreement",
                _ => "existence",
            };
            let sh = |v: &Option<View>| v.as_ref().map(|v| w.show(v)).unwrap_or("unknown".into());
            return Err(format!("{what} differs on the {d} of a group or document :: p{p} {}: {} / {}", w.name(e), sh(v), sh(v2)));
        }
    }
    if a.hold != b.hold {
        return Err(format!("{what} holds other operations :: p{p}"));
    }
    if a.pending != b.pending {
        return Err(format!("{what} awaits other events :: p{p}: {} / {}", a.pending.len(), b.pending.len()));
    }
    if a.secrets != b.secrets {
        return Err(format!("{what} has other secrets :: p{p}"));
    }
    if a.reach != b.reach {
        return Err(format!("{what} has other access :: p{p}"));
    }
    if a.offers != b.offers {
        return Err(format!("{what} offers others something else :: p{p}"));
    }
    Ok(())
}

pub fn archive_bytes(w: &World, p: usize) -> Vec<u8> {
    let a = block_on(w.peers[p].kh.into_archive());
    bincode::serialize(&a).expect("an archive serialises")
}

/// Put replica `p` away and take it out again.
pub fn restart(w: &mut World, ep: &mut Ep, p: usize) -> EpResult {
    let before = snap(w, p);
    let arch = block_on(w.peers[p].kh.into_archive());
    let bytes = bincode::serialize(&arch).expect("an archive serialises");
    let back: Archive<Ref> = bincode::deserialize(&bytes).map_err(|e| format!("an archive cannot be read back: {e}"))?;
    if back != arch {
        return Err("an archive changes when it is written and read back".into());
    }
    let r = &w.peers[p];
    let kh = block_on(K::try_from_archive(&back, r.signer.clone(), r.store.clone(), r.rec.clone(), Arc::new(futures::lock::Mutex::new(r.rng.clone())))).map_err(|e| format!("a replica's archive is refused: {e}"))?;
    let logged = r.rec.len();
    w.peers[p].kh = kh;
    ep.step(format!("p{p} restarts"));
    ep.hit("restarts");
    ep.add("restarts with events pending", (!before.pending.is_empty()) as u64);
    if w.peers[p].rec.len() != logged {
        return Err("taking a replica out of its archive reports events again".into());
    }
    let after = snap(w, p);
    same(w, p, &before, &after, "a replica taken out of its archive")
}

/// Scripts of membership changes with restarts anywhere.
pub fn restarts(ep: &mut Ep) -> EpResult {
    let nest = ep.rng.gen_bool(0.5);
    let c = Cfg { peers: ep.rng.gen_range(2..5), ents: ep.rng.gen_range(1..4), steps: 4, via: false, revoke: true, nest, docs: true, offer: false, sync: 35 };
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    for _ in 0..ep.rng.gen_range(2..7) {
        run_script(&mut w, ep, &c)?;
        for _ in 0..ep.rng.gen_range(0..3) {
            // part of what is missing, in any order: some of it has to wait
            let p = ep.rng.gen_range(0..c.peers);
            let mut miss: Vec<H> = w.all.iter().map(|(h, _)| *h).filter(|h| !w.peers[p].has.contains(h)).collect();
            miss.shuffle(&mut ep.rng);
            let k = ep.rng.gen_range(0..=miss.len());
            miss.truncate(k);
            w.deliver(p, &miss);
            if ep.rng.gen_bool(0.3) {
                let r = block_on(w.peers[p].kh.expand_prekeys());
                r.map_err(|e| format!("expand_prekeys: {e}"))?;
                w.collect(p);
            }
            restart(&mut w, ep, p)?;
        }
        if outside_via(&w) {
            return Ok(());
        }
    }
    ep.nontrivial = ep.counters.get("adds").copied().unwrap_or(0) > 1;
    let r = settle(&mut w, ep).and_then(|_| compare_views(&w, ep));
    if r.is_err() {
        dump(&w, ep);
        return r;
    }
    let o = Oracle::authorised(w.all.iter().map(|(_, e)| e), true);
    for p in 0..c.peers {
        restart(&mut w, ep, p)?;
        against_oracle(&w, ep, p, &o)?;
    }
    Ok(())
}

/// Somebody known by its prekeys turns out to be a group.
pub fn turned(ep: &mut Ep) -> EpResult {
    let Some(mut w) = crate::mem::turned(ep)? else { return Ok(()) };
    for p in 0..w.peers.len() {
        restart(&mut w, ep, p)?;
    }
    compare_views(&w, ep)
}

/// Content written and read across restarts.
pub fn content(ep: &mut Ep) -> EpResult {
    let seq = ep.rng.gen_bool(0.5);
    crate::content::run(ep, seq, false, true)
}

/// An archive loaded into a running replica of the same identity.
pub fn ingested(ep: &mut Ep) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(2..5), ents: ep.rng.gen_range(1..4), steps: ep.rng.gen_range(3..14), via: false, revoke: true, nest: ep.rng.gen_bool(0.5), docs: true, offer: false, sync: 35 };
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    run_script(&mut w, ep, &c)?;
    let p = ep.rng.gen_range(0..c.peers);
    let old = archive_bytes(&w, p);
    run_script(&mut w, ep, &c)?;
    if ep.rng.gen_bool(0.5) {
        let mut miss: Vec<H> = w.all.iter().map(|(h, _)| *h).filter(|h| !w.peers[p].has.contains(h)).collect();
        miss.shuffle(&mut ep.rng);
        let k = ep.rng.gen_range(0..=miss.len());
        miss.truncate(k);
        w.deliver(p, &miss);
    }
    if outside_via(&w) {
        return Ok(());
    }
    let mut item = None;
    for e in w.ents.clone() {
        if e.kind == Kind::Doc && w.doc(p, e.id).is_some() {
            if let Some(i) = crate::content::encrypt(&mut w, ep, p, e.id, vec![], b"before the archive".to_vec(), false)? {
                item = Some(i);
            }
        }
    }
    let before = snap(&w, p);
    let new: Archive<Ref> = bincode::deserialize(&archive_bytes(&w, p)).map_err(|e| format!("an archive cannot be read back: {e}"))?;
    // into a fresh replica, an older one, or itself
    let kind = ep.rng.gen_range(0..3);
    let f = match kind {
        0 => {
            let f = w.reinstall(ep, p, 9000);
            ep.hit("archives loaded into a fresh replica");
            f
        }
        1 => {
            let r = &w.peers[p];
            let a: Archive<Ref> = bincode::deserialize(&old).map_err(|e| format!("an archive cannot be read back: {e}"))?;
            let (store, rec, rng) = (Store::new(), Rec::default(), ep.csprng(9001));
            let kh = block_on(K::try_from_archive(&a, r.signer.clone(), store.clone(), rec.clone(), Arc::new(futures::lock::Mutex::new(rng.clone())))).map_err(|e| format!("a replica's archive is refused: {e}"))?;
            let n = Replica { kh, rec, signer: r.signer.clone(), id: r.id, store, rng, collected: 0, has: BTreeSet::new(), initial: r.initial.clone() };
            w.peers.push(n);
            ep.hit("archives loaded into an older replica");
            w.peers.len() - 1
        }
        _ => {
            ep.hit("archives loaded into the same replica");
            p
        }
    };
    let had: BTreeSet<H> = holdings(&w, f).into_keys().collect();
    let logged = w.peers[f].rec.len();
    let left = block_on(w.peers[f].kh.ingest_archive(new)).map_err(|e| format!("a replica refuses an archive of its own: {e}"))?;
    ep.step(format!("p{p}'s archive into p{f}"));
    let left: BTreeSet<H> = left.iter().map(|e| ev_hash(e.as_ref())).collect();
    let mut after = snap(&w, f);
    let told: Vec<H> = w.peers[f].rec.log.lock().unwrap()[logged..].iter().map(ev_hash).collect();
    let mut news: Vec<H> = after.hold.difference(&had).copied().collect();
    let mut told2 = told.clone();
    news.sort();
    told2.sort();
    if news != told2 {
        return Err(format!("loading an archive does not report exactly what is new :: {} reported, {} new", told2.len(), news.len()));
    }
    ep.add("operations new from an archive", news.len() as u64);
    if left != after.pending {
        return Err("loading an archive does not return what is left pending".into());
    }
    if kind == 0 {
        // the fresh replica brings prekeys of its own
        for h in before.hold.iter() {
            if !after.hold.contains(h) {
                return Err(format!("a replica that loaded an archive lacks operations of it :: {}", w.by_hash.get(h).map(|_| w.show_ev(w.ev(h))).unwrap_or_default()));
            }
        }
        for k in before.secrets.keys() {
            if before.secrets.get(k) != after.secrets.get(k) {
                return Err("a replica that loaded an archive lacks secrets of it".into());
            }
        }
        after.hold = before.hold.clone();
        after.secrets = before.secrets.clone();
        for (i, o) in &before.offers {
            if !after.offers.get(i).is_some_and(|x| x.is_superset(o)) {
                return Err("a replica that loaded an archive offers others less".into());
            }
        }
        after.offers = before.offers.clone();
    }
    same(&w, p, &before, &after, "a replica that loaded an archive")?;
    if let Some(it) = item {
        crate::content::judge(&w, ep, &it, f)?;
    }
    ep.nontrivial = ep.counters.get("adds").copied().unwrap_or(0) > 1;
    Ok(())
}

pub type Fk = keyhive_core::keyhive::Keyhive<
    future_form::Sendable,
    keyhive_crypto::signer::memory::MemorySigner,
    Ref,
    Vec<u8>,
    Store,
    keyhive_core::listener::log::Log<future_form::Sendable, keyhive_crypto::signer::memory::MemorySigner, Ref>,
    Csprng,
>;

/// One random action in a fork. Content it encrypts goes to `items`.
pub fn fork_act(w: &mut World, ep: &mut Ep, p: usize, f: &Fk, ents: &mut Vec<Ent>, items: &mut Vec<crate::content::Item>) -> String {
    let mut known: Vec<Ent> = w.ents.iter().chain(ents.iter()).cloned().collect();
    known.retain(|e| block_on(f.get_agent(e.id)).is_some());
    let peers: Vec<Identifier> = w.peers.iter().map(|q| q.id).collect();
    let mut co = vec![];
    for _ in 0..ep.rng.gen_range(0..3) {
        let i = *peers.choose(&mut ep.rng).unwrap();
        if i != w.peers[p].id {
            if let Some(x) = block_on(f.get_peer(i)) {
                co.push(x);
            }
        }
    }
    let roll = ep.rng.gen_range(0..100);
    if known.is_empty() || roll < 15 {
        let kind = if ep.rng.gen_bool(0.6) { Kind::Doc } else { Kind::Group };
        let id = if kind == Kind::Group {
            let g = block_on(f.generate_group(co)).expect("generate_group");
            block_on(async { g.lock().await.id() })
        } else {
            let r = w.fresh_ref();
            match block_on(f.generate_doc(co, nonempty::NonEmpty::new(r))) {
                Ok(d) => {
                    let id: Identifier = block_on(async { d.lock().await.id() });
                    w.heads.insert(id, [r].into());
                    id
                }
                Err(e) => return format!("new document refused: {e}"),
            }
        };
        let name = format!("f{}", w.ents.len() + ents.len());
        w.names.insert(id, name.clone());
        ents.push(Ent { by: p, id, kind, name });
        return format!("new {kind:?}");
    }
    if roll < 25 {
        let _ = block_on(f.expand_prekeys()).expect("expand_prekeys");
        return "new prekey".into();
    }
    if roll < 40 {
        let mut miss: Vec<H> = w.all.iter().map(|(h, _)| *h).filter(|h| !w.peers[p].has.contains(h)).collect();
        miss.shuffle(&mut ep.rng);
        let k = ep.rng.gen_range(0..=miss.len());
        let evs: Vec<Ev> = miss[..k].iter().map(|h| w.ev(h).clone()).collect();
        let left = block_on(f.ingest_unsorted_static_events(evs)).len();
        return format!("receives {k} events, {left} pending");
    }
    let e = known.choose(&mut ep.rng).unwrap().clone();
    let Some(m) = block_on(f.get_agent(e.id)).and_then(|a| a.as_membered()) else { return "idle".into() };
    if e.kind == Kind::Doc && roll < 60 {
        let d = block_on(f.get_document(keyhive_core::principal::document::id::DocumentId::from(e.id))).unwrap();
        let r = w.fresh_ref();
        let plain = crate::content::payload(ep);
        return match block_on(f.try_encrypt_content_keyed(d, &r, &vec![], &plain)) {
            Ok((out, key)) => {
                items.push(crate::content::Item { doc: e.id, by: p, plain, enc: crate::content::retag(out.encrypted_content()), key, readers: [w.peers[p].id].into(), unsure: None });
                format!("encrypts for {}", e.name)
            }
            Err(x) => format!("encrypting for {} refused: {x}", e.name),
        };
    }
    if roll < 80 {
        let mut to: Vec<Identifier> = peers.clone();
        if ep.rng.gen_bool(0.3) {
            to = known.iter().filter(|k| k.id != e.id).map(|k| k.id).collect();
        }
        let Some(t) = to.choose(&mut ep.rng).copied() else { return "idle".into() };
        let Some(a) = block_on(f.get_agent(t)) else { return "idle".into() };
        let can = acc(ep.rng.gen_range(0..6).min(3));
        let r = block_on(f.add_member(a, &m, can, &[])).map(|_| ()).map_err(|e| e.to_string());
        return format!("add {} to {} as {can}: {r:?}", w.name(&t), e.name);
    }
    let mut ids: Vec<Identifier> = block_on(m.members()).keys().copied().collect();
    ids.sort();
    let Some(t) = ids.choose(&mut ep.rng).copied() else { return "idle".into() };
    let r = block_on(f.revoke_member(t, ep.rng.gen(), &m)).map(|_| ()).map_err(|e| e.to_string());
    format!("revoke {} from {}: {r:?}", w.name(&t), e.name)
}

/// A fork, as a replica whose queries can be compared.
pub fn fork_replica(w: &mut World, p: usize, f: &Fk) -> usize {
    let a = block_on(f.into_archive());
    let r = &w.peers[p];
    let rec = Rec::default();
    let kh = block_on(K::try_from_archive(&a, r.signer.clone(), r.store.clone(), rec.clone(), Arc::new(futures::lock::Mutex::new(r.rng.clone())))).expect("a fork's archive is accepted");
    let n = Replica { kh, rec, signer: r.signer.clone(), id: r.id, store: r.store.clone(), rng: r.rng.clone(), collected: 0, has: BTreeSet::new(), initial: r.initial.clone() };
    w.peers.push(n);
    w.peers.len() - 1
}

/// Transactions: a fork leaves the trunk alone until it is merged, and then
/// nothing of it is lost.
pub fn transactions(ep: &mut Ep) -> EpResult {
    use keyhive_core::transact::{fork::ForkAsync, merge::MergeAsync};
    let c = Cfg { peers: ep.rng.gen_range(2..5), ents: ep.rng.gen_range(1..4), steps: ep.rng.gen_range(2..10), via: false, revoke: true, nest: ep.rng.gen_bool(0.5), docs: true, offer: false, sync: 35 };
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    let mut items: Vec<crate::content::Item> = vec![];
    let n = c.peers;
    for _ in 0..ep.rng.gen_range(1..4) {
        run_script(&mut w, ep, &c)?;
        let p = ep.rng.gen_range(0..n);
        if outside_via(&w) {
            return Ok(());
        }
        let trunk = Arc::new(futures::lock::Mutex::new(w.peers[p].kh.clone()));
        // a fork taken and merged by hand, or by a transaction whose body waits for us
        let slot: std::rc::Rc<std::cell::RefCell<Option<Fk>>> = Default::default();
        let gate: std::rc::Rc<std::cell::Cell<Option<bool>>> = Default::default();
        let (body_slot, body_gate) = (slot.clone(), gate.clone());
        let mut tx = Box::pin(keyhive_core::transact::transact_async(&trunk, async move |f: Fk| {
            *body_slot.borrow_mut() = Some(f.clone());
            loop {
                match body_gate.get() {
                    Some(true) => return Ok(f),
                    Some(false) => return Err("NOPE"),
                    None => YieldNow(false).await,
                }
            }
        }));
        let by_hand = ep.rng.gen_bool(0.5);
        let fork: Fk = if by_hand {
            block_on(trunk.fork_async())
        } else {
            use std::future::Future;
            let waker = futures::task::noop_waker();
            let mut cx = std::task::Context::from_waker(&waker);
            let mut polls = 0;
            while slot.borrow().is_none() {
                polls += 1;
                if polls > 100 || tx.as_mut().poll(&mut cx).is_ready() {
                    return Err("a transaction does not run its body".into());
                }
            }
            let f = slot.borrow_mut().take().unwrap();
            f
        };
        ep.step(format!("p{p} forks"));
        {
            let a = snap(&w, p);
            let f = fork_replica(&mut w, p, &fork);
            let b = snap(&w, f);
            w.peers.pop();
            same(&w, p, &a, &b, "a fork")?;
        }
        let mut ents = vec![];
        let mut written = vec![];
        let mut busy = false;
        let concurrent = ep.rng.gen_bool(0.5);
        for _ in 0..ep.rng.gen_range(1..8) {
            if concurrent && ep.rng.gen_bool(0.4) {
                if ep.rng.gen_bool(0.3) {
                    w.deliver_missing(ep, p, true);
                } else {
                    let s = act(&mut w, ep, &c, p);
                    ep.step(s);
                }
                busy = true;
                ep.hit("trunk actions during a transaction");
            } else {
                let before = snap(&w, p);
                let logged = w.peers[p].rec.len();
                let s = fork_act(&mut w, ep, p, &fork, &mut ents, &mut written);
                ep.step(format!("  fork: {s}"));
                let after = snap(&w, p);
                same(&w, p, &before, &after, "a replica with an unfinished transaction")?;
                if w.peers[p].rec.len() != logged {
                    return Err("an unfinished transaction reports events".into());
                }
                ep.hit("fork actions");
            }
        }
        let before = snap(&w, p);
        let had = w.peers[p].rec.len();
        if ep.rng.gen_bool(0.2) {
            drop(fork);
            if !by_hand {
                gate.set(Some(false));
                if block_on(tx) != Err("NOPE") {
                    return Err("a transaction whose body fails does not fail".into());
                }
                ep.hit("transactions failed");
            }
            ep.step("abandoned".to_string());
            ep.hit("transactions abandoned");
            let after = snap(&w, p);
            same(&w, p, &before, &after, "a replica that abandoned a transaction")?;
            continue;
        }
        let f = fork_replica(&mut w, p, &fork);
        let theirs = snap(&w, f);
        let fviews: Vec<(Identifier, View)> = w.ents.iter().chain(ents.iter()).map(|e| e.id).filter_map(|i| w.view(f, i).map(|v| (i, v))).collect();
        // content written in the fork is for whom the fork says
        for it in written.iter_mut() {
            it.readers.insert(w.peers[p].id);
        }
        let fev: Vec<Ev> = holdings(&w, f).into_values().collect();
        w.peers.pop();
        if by_hand {
            drop(tx);
            block_on(trunk.merge_async(fork));
        } else {
            drop(fork);
            gate.set(Some(true));
            if block_on(tx) != Ok(()) {
                return Err("a transaction whose body succeeds fails".into());
            }
            ep.hit("transactions run");
        }
        ep.step("merged".to_string());
        ep.hit("transactions merged");
        w.ents.extend(ents);
        w.collect(p);
        for e in fev {
            w.publish(p, e);
        }
        if outside_via(&w) {
            return Ok(());
        }
        let after = snap(&w, p);
        let both: BTreeSet<H> = before.hold.union(&theirs.hold).copied().collect();
        if let Some(h) = both.difference(&after.hold).next() {
            return Err(format!("merging a transaction loses an operation :: p{p}: {}", w.show_ev(w.ev(h))));
        }
        let waiting: BTreeSet<H> = before.pending.union(&theirs.pending).copied().filter(|h| !after.hold.contains(h)).collect();
        if waiting != after.pending || after.hold.iter().any(|h| !both.contains(h) && !before.pending.contains(h) && !theirs.pending.contains(h)) {
            return Err(format!("after merging a transaction other events are pending than before :: p{p}: {} for {}", after.pending.len(), waiting.len()));
        }
        for (k, v) in before.secrets.iter().chain(theirs.secrets.iter()) {
            if after.secrets.get(k) != Some(v) {
                return Err("merging a transaction loses a secret".into());
            }
        }
        let mut told: Vec<H> = w.peers[p].rec.log.lock().unwrap()[had..].iter().map(ev_hash).collect();
        let mut news: Vec<H> = after.hold.difference(&before.hold).copied().collect();
        told.sort();
        news.sort();
        if told != news {
            return Err(format!("merging a transaction does not report exactly what is new :: p{p}: {} reported, {} new: {}", told.len(), news.len(), news.iter().filter(|h| !told.contains(h)).map(|h| w.show_ev(w.ev(h))).collect::<Vec<_>>().join("; ")));
        }
        ep.add("operations merged", news.len() as u64);
        if !busy {
            // nothing happened meanwhile: the replica is now what the fork was
            for (i, v) in &fviews {
                let Some(t) = w.view(p, *i) else { return Err("merging a transaction loses a group or document".into()) };
                if t != *v {
                    return Err(format!("a replica differs from the transaction it merged :: p{p} {}: {} / {}", w.name(i), w.show(v), w.show(&t)));
                }
                ep.hit("views compared");
            }
        }
        if outside_via(&w) {
            return Ok(());
        }
        for it in written {
            crate::content::judge_one(&w, ep, &it, p, true)?;
            ep.hit("contents of transactions read");
            items.push(it);
        }
    }
    if let Some(c) = w.complaints.pop() {
        dump(&w, ep);
        return Err(c);
    }
    if outside_via(&w) {
        return Ok(());
    }
    let r = settle(&mut w, ep).and_then(|_| compare_views(&w, ep));
    if r.is_err() {
        dump(&w, ep);
        return r;
    }
    for it in &items {
        crate::content::judge_one(&w, ep, it, it.by, true)?;
    }
    // everybody can still write and be read
    for e in w.ents.clone() {
        if e.kind == Kind::Doc {
            let p = ep.rng.gen_range(0..n);
            if let Some(it) = crate::content::encrypt(&mut w, ep, p, e.id, vec![], b"afterwards".to_vec(), false)? {
                settle(&mut w, ep)?;
                for q in 0..n {
                    let r = crate::content::judge(&w, ep, &it, q);
                    if r.is_err() {
                        dump(&w, ep);
                        return r;
                    }
                }
            }
        }
    }
    ep.nontrivial = ep.counters.get("operations merged").copied().unwrap_or(0) > 2;
    Ok(())
}
