//! Several calls at the same time on one replica: tasks that give way to each other
//! before acquiring a lock, in listener callbacks and wherever they have to wait.
use crate::check::{Ep, EpResult};
use crate::content::{encrypt, judge, payload, Enc, Item};
use crate::listener::{holdings, kind};
use crate::mem::*;
use crate::rt::*;
use crate::world::*;
use keyhive_core::archive::Archive;
use keyhive_core::contact_card::ContactCard;
use keyhive_core::principal::identifier::Identifier;
use keyhive_crypto::digest::Digest;
use nonempty::NonEmpty;
use rand::seq::SliceRandom;
use rand::Rng;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::Ordering;

thread_local! {
    static RND: Cell<u64> = const { Cell::new(1) };
    static OFTEN: Cell<u32> = const { Cell::new(0) };
    static GAVE: Cell<u64> = const { Cell::new(0) };
}

fn give_way() -> bool {
    let mut x = RND.with(|r| r.get());
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    RND.with(|r| r.set(x));
    let yes = (x >> 20) % 100 < OFTEN.with(|o| o.get()) as u64;
    if yes {
        GAVE.with(|g| g.set(g.get() + 1));
    }
    yes
}

struct Hook;
impl Hook {
    fn on(seed: u64, often: u32) -> Hook {
        RND.with(|r| r.set(seed | 1));
        OFTEN.with(|o| o.set(often));
        GAVE.with(|g| g.set(0));
        futures_util::lock::GIVE_WAY.with(|g| g.set(Some(give_way)));
        Hook
    }
}
impl Drop for Hook {
    fn drop(&mut self) {
        futures_util::lock::GIVE_WAY.with(|g| g.set(None));
    }
}

type Done = Rc<RefCell<Vec<String>>>;

/// What the calls made at the same time gave.
#[derive(Default)]
struct Out {
    ents: Vec<(Identifier, Kind)>,
    items: Vec<Item>,
    bad: Vec<String>,
    archives: Vec<Archive<Ref>>,
    offers: Vec<Ev>,
}

pub struct Opts {
    pub local: bool,
    pub revoke: bool,
    pub create: bool,
    pub write: bool,
    pub queries: bool,
}

fn run(ep: &mut Ep, o: Opts) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(2..5), ents: ep.rng.gen_range(1..4), steps: ep.rng.gen_range(4..14), via: false, revoke: o.revoke, nest: ep.rng.gen_bool(0.5), docs: true, offer: false, sync: 35 };
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    run_script(&mut w, ep, &c)?;
    let mut items: Vec<Item> = vec![];
    for _ in 0..ep.rng.gen_range(1..3) {
        let p = ep.rng.gen_range(0..c.peers);
        phase(&mut w, ep, &o, p, &mut items)?;
        if outside_via(&w) {
            return Ok(());
        }
        if ep.rng.gen_bool(0.5) {
            run_script(&mut w, ep, &c)?;
        }
    }
    if outside_via(&w) {
        return Ok(());
    }
    let r = finish(&mut w, ep, &mut items);
    if r.is_err() {
        dump(&w, ep);
    }
    r
}

fn phase(w: &mut World, ep: &mut Ep, o: &Opts, p: usize, items: &mut Vec<Item>) -> EpResult {
    let done: Done = Default::default();
    let out: Rc<RefCell<Out>> = Default::default();
    let refs: Rc<Vec<Ref>> = Rc::new((0..40).map(|_| w.fresh_ref()).collect());
    let me = w.peers[p].id;
    let mut s = Sched::new();
    let mut given: BTreeSet<H> = BTreeSet::new();
    let tasks = ep.rng.gen_range(2..5);
    for t in 0..tasks {
        let calls = ep.rng.gen_range(1..4);
        let mut todo: Vec<(String, std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>)> = vec![];
        for k in 0..calls {
            let kh = w.peers[p].kh.clone();
            let out = out.clone();
            let known: Vec<Ent> = w.ents.iter().filter(|e| w.membered(p, e.id).is_some()).cloned().collect();
            let docs: Vec<Ent> = known.iter().filter(|e| e.kind == Kind::Doc).cloned().collect();
            let roll = ep.rng.gen_range(0..100);
            let (d, f): (String, std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>) = if roll < 35 || known.is_empty() {
                // part of what is missing, some of it also given to another task
                let mut miss: Vec<(H, Ev)> = w.all.iter().filter(|(h, _)| !w.peers[p].has.contains(h)).cloned().collect();
                miss.shuffle(&mut ep.rng);
                let n = ep.rng.gen_range(0..=miss.len());
                miss.truncate(n);
                given.extend(miss.iter().map(|x| x.0));
                let evs: Vec<Ev> = miss.into_iter().map(|x| x.1).collect();
                let d = format!("take in {n} events");
                let cards = ep.rng.gen_bool(0.5);
                match ep.rng.gen_range(0..6) {
                    4 => (format!("{d} from secrets and an older archive"), Box::pin(async move {
                        kh.ingest_unsorted_static_events(evs).await;
                        let b = kh.export_prekey_secrets().await.expect("export");
                        drop(kh.import_prekey_secrets(&b).await.expect("import"));
                        let a = kh.into_archive().await;
                        if let Err(e) = kh.ingest_archive(a).await {
                            out.borrow_mut().bad.push(format!("a replica refuses its own archive :: {e}"));
                        }
                    })),
                    5 => (format!("{d} directly"), Box::pin(async move {
                        let mut rest = vec![];
                        for e in evs {
                            let r = match crate::prekeys::key_op(&e) {
                                Some(o) if cards => kh.receive_contact_card(&ContactCard::from(o)).await.is_ok(),
                                Some(o) => kh.receive_prekey_op(&o).await.is_ok(),
                                None => kh.receive_static_event(e.clone()).await.is_ok(),
                            };
                            if !r {
                                rest.push(e);
                            }
                        }
                        kh.ingest_unsorted_static_events(rest).await;
                    })),
                    0 => (format!("{d} one by one"), Box::pin(async move {
                        for e in evs {
                            kh.ingest_unsorted_static_events(vec![e]).await;
                        }
                    })),
                    _ => (d, Box::pin(async move {
                        kh.ingest_unsorted_static_events(evs).await;
                    })),
                }
            } else if roll < 50 && o.queries {
                let e = known.choose(&mut ep.rng).unwrap().clone();
                let who = w.peers.choose(&mut ep.rng).unwrap().id;
                query(ep, kh, e, who, items, out)
            } else if o.local && roll < 85 {
                let e = known.choose(&mut ep.rng).unwrap().clone();
                let m = w.membered(p, e.id).unwrap();
                if !block_on(m.members()).contains_key(&me) {
                    continue;
                }
                if o.revoke && roll < 58 {
                    let ids: Vec<Identifier> = block_on(m.members()).keys().copied().collect();
                    let t = *ids.choose(&mut ep.rng).unwrap();
                    let retain = ep.rng.gen_bool(0.5);
                    (format!("revoke {} from {}", w.name(&t), e.name), Box::pin(async move {
                        let _ = kh.revoke_member(t, retain, &m).await;
                    }))
                } else if o.create && roll < 65 {
                    let doc = ep.rng.gen_bool(0.5);
                    let r = refs[t * 10 + k];
                    let mut co = vec![];
                    if ep.rng.gen_bool(0.5) {
                        co.extend(block_on(kh.get_peer(if ep.rng.gen_bool(0.5) { e.id } else { w.peers.choose(&mut ep.rng).unwrap().id })));
                    }
                    ("create".into(), Box::pin(async move {
                        if doc {
                            if let Ok(d) = kh.generate_doc(co, NonEmpty::new(r)).await {
                                let id = d.lock().await.id();
                                out.borrow_mut().ents.push((id, Kind::Doc));
                            }
                        } else if let Ok(g) = kh.generate_group(co).await {
                            let id = g.lock().await.id();
                            out.borrow_mut().ents.push((id, Kind::Group));
                        }
                    }))
                } else if roll < 70 {
                    let n = ep.rng.gen_range(0..3);
                    ("prekeys".into(), Box::pin(async move {
                        match n {
                            0 => drop(kh.expand_prekeys().await),
                            1 => drop(kh.contact_card().await),
                            _ => {
                                let k = { let i = kh.individual().await; let l = i.lock().await; let k = *l.prekey_ops().values().next().unwrap().new_key(); k };
                                drop(kh.rotate_prekey(k).await);
                            }
                        }
                    }))
                } else {
                    let mut cand: Vec<Identifier> = w.peers.iter().map(|q| q.id).collect();
                    if ep.rng.gen_bool(0.3) {
                        cand.extend(known.iter().filter(|k| k.id != e.id).map(|k| k.id));
                    }
                    let t = *cand.choose(&mut ep.rng).unwrap();
                    let Some(a) = w.agent(p, t) else { continue };
                    let can = acc(ep.rng.gen_range(0..6).min(3));
                    (format!("add {} to {} as {can}", w.name(&t), e.name), Box::pin(async move {
                        let _ = kh.add_member(a, &m, can, &[]).await;
                    }))
                }
            } else if o.write && !docs.is_empty() {
                let e = docs.choose(&mut ep.rng).unwrap().clone();
                let doc = w.doc(p, e.id).unwrap();
                if ep.rng.gen_bool(0.25) {
                    (format!("rotate the key of {}", e.name), Box::pin(async move {
                        let _ = kh.force_pcs_update(doc).await;
                    }))
                } else {
                    let r = refs[t * 10 + k];
                    let plain = payload(ep);
                    (format!("write in {}", e.name), Box::pin(async move {
                        if let Ok((x, key)) = kh.try_encrypt_content_keyed(doc.clone(), &r, &vec![], &plain).await {
                            let enc: Enc = crate::content::retag(x.encrypted_content());
                            if enc.content_ref != r || enc.pred_refs != Digest::hash(&Vec::<Ref>::new()) {
                                out.borrow_mut().bad.push("a ciphertext does not carry its references".into());
                            }
                            // whoever writes can read it back
                            match kh.try_decrypt_content_keyed(doc, &enc).await {
                                Ok((q, k2)) if q == plain && k2 == key => {}
                                _ => out.borrow_mut().bad.push("a replica cannot read what it has just written".into()),
                            }
                            out.borrow_mut().items.push(Item { doc: e.id, by: p, plain, enc, key, readers: BTreeSet::new(), unsure: None });
                        }
                    }))
                }
            } else {
                continue;
            };
            todo.push((d, f));
        }
        if todo.is_empty() {
            continue;
        }
        ep.step(format!("p{p} task {t}: {}", todo.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join("; ")));
        ep.add("calls made at the same time", todo.len() as u64);
        let done = done.clone();
        s.spawn(async move {
            for (d, f) in todo {
                done.borrow_mut().push(d.clone());
                f.await;
                done.borrow_mut().retain(|x| *x != d);
            }
        });
    }
    for h in &given {
        w.peers[p].has.insert(*h);
    }
    w.peers[p].rec.yields.store(true, Ordering::Relaxed);
    let r = {
        let often = [3, 10, 30, 60, 100][ep.rng.gen_range(0..5)];
        let _h = Hook::on(ep.rng.gen(), often);
        s.run(&mut ep.rng)
    };
    w.peers[p].rec.yields.store(false, Ordering::Relaxed);
    ep.add("times a call gave way before a lock", GAVE.with(|g| g.get()));
    ep.add("switches between calls", s.switches);
    ep.step(format!("schedule {:x}", s.trace_hash));
    if let Err(stuck) = r {
        return Err(format!("calls made at the same time wait for each other forever :: {stuck:?}: {:?}", done.borrow()));
    }
    ep.hit("schedules");
    drop(s);
    let out = std::mem::take(&mut *out.borrow_mut());
    if let Some(b) = out.bad.first() {
        return Err(b.clone());
    }
    for (id, kind) in out.ents.iter().copied() {
        let name = format!("{}{}", if kind == Kind::Doc { "d" } else { "g" }, w.ents.len());
        w.names.insert(id, name.clone());
        w.ents.push(Ent { by: p, id, kind, name });
    }
    items.extend(out.items.iter().cloned());
    w.collect(p);
    // nothing that can be taken in waits
    let before = w.pending(p);
    let left = w.deliver(p, &[]);
    if left.len() != before.len() {
        return Err(format!("events stay pending although they could be taken in :: {} of {}", before.len() - left.len(), before.len()));
    }
    // everything that was given is there
    let hold = holdings(w, p);
    ep.add("operations offered at the same time", out.offers.len() as u64);
    for h in &given {
        if !hold.contains_key(h) && !before.contains(h) {
            return Err(format!("a {} that was taken in is lost :: {}", kind(w.ev(h)), w.show_ev(w.ev(h))));
        }
    }
    for e in &out.offers {
        if !hold.contains_key(&ev_hash(e)) {
            return Err(format!("a replica offered a {} that it does not hold", kind(e)));
        }
    }
    // an archive made meanwhile is one of a state there has been
    for a in &out.archives {
        let b = bincode::serialize(a).expect("an archive serialises");
        let back: Archive<Ref> = bincode::deserialize(&b).map_err(|e| format!("an archive made at the same time cannot be read back: {e}"))?;
        let (store, rec, rng) = (Store::new(), Rec::default(), ep.csprng(4242));
        let kh = block_on(K::try_from_archive(&back, w.peers[p].signer.clone(), store.clone(), rec.clone(), std::sync::Arc::new(futures::lock::Mutex::new(rng.clone())))).map_err(|e| format!("an archive made at the same time is refused :: {e}"))?;
        let me = &w.peers[p];
        let (id, signer) = (me.id, me.signer.clone());
        let t = w.peers.len();
        w.peers.push(Replica { kh, rec, signer, id, store, rng, collected: 0, has: BTreeSet::new(), initial: BTreeSet::new() });
        let old = holdings(w, t);
        w.peers.pop();
        for (h, e) in &old {
            if !hold.contains_key(h) {
                return Err(format!("an archive made at the same time has a {} that the replica does not hold", kind(e)));
            }
        }
        let logged = w.peers[p].rec.len();
        block_on(w.peers[p].kh.ingest_archive(back)).map_err(|e| format!("an archive made at the same time is refused :: {e}"))?;
        if w.peers[p].rec.len() != logged {
            return Err("an older archive of a replica has news for it".into());
        }
        ep.hit("archives made at the same time");
    }
    told(w, ep, p)
}

/// The listener hears of everything exactly once.
fn told(w: &World, ep: &mut Ep, p: usize) -> EpResult {
    let log = w.peers[p].rec.log.lock().unwrap().clone();
    let mut seen: BTreeMap<H, usize> = BTreeMap::new();
    for e in &log {
        *seen.entry(ev_hash(e)).or_default() += 1;
    }
    for e in &log {
        if seen[&ev_hash(e)] > 1 {
            return Err(format!("a {} is reported more than once :: p{p}: {}", kind(e), w.show_ev(e)));
        }
    }
    let hold = holdings(w, p);
    for (h, e) in &hold {
        if !seen.contains_key(h) && !w.peers[p].initial.contains(h) {
            return Err(format!("a replica holds a {} that it never reported :: p{p}: {}", kind(e), w.show_ev(e)));
        }
    }
    for e in &log {
        if !hold.contains_key(&ev_hash(e)) {
            return Err(format!("a replica reported a {} that it does not hold :: p{p}: {}", kind(e), w.show_ev(e)));
        }
    }
    ep.add("events reported", log.len() as u64);
    Ok(())
}

fn query(ep: &mut Ep, kh: K, e: Ent, who: Identifier, items: &[Item], out: Rc<RefCell<Out>>) -> (String, std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>) {
    let n = ep.rng.gen_range(0..11);
    let it = items.choose(&mut ep.rng).cloned();
    (
        format!("query {n}"),
        Box::pin(async move {
            match n {
                0 => drop(kh.reachable_docs().await),
                1 => {
                    if let Some(a) = kh.get_agent(who).await {
                        drop(kh.docs_reachable_by_agent(&a).await);
                        drop(kh.membered_reachable_by_agent(&a).await);
                    }
                }
                2 => {
                    if let Some(a) = kh.get_agent(who).await {
                        let evs = kh.static_events_for_agent(&a).await;
                        out.borrow_mut().offers.extend(evs.into_values());
                    }
                }
                3 => {
                    if let Some(m) = kh.get_agent(e.id).await.and_then(|a| a.as_membered()) {
                        drop(m.transitive_members().await);
                        drop(m.members().await);
                    }
                }
                4 => {
                    let a = kh.into_archive().await;
                    out.borrow_mut().archives.push(a);
                }
                7 => {
                    let m = kh.get_agent(e.id).await.and_then(|a| a.as_membered());
                    if let Some(m) = m {
                        drop(kh.reachable_members(m).await);
                    }
                    drop(kh.cgka_ops_for_all_agents().await);
                    drop(kh.pending_event_hashes().await);
                }
                8 => {
                    if let Some(it) = it {
                        if let Some(d) = kh.get_document(it.doc.into()).await {
                            drop(kh.try_causal_decrypt_content(d.clone(), &it.enc).await);
                            drop(kh.try_pcs_key_hash(d).await);
                        }
                    }
                }
                9 => {
                    if let Some(a) = kh.get_agent(who).await {
                        drop(a.individual_ids().await);
                        drop(kh.cgka_ops_reachable_by_agent(&a).await);
                        drop(kh.membership_ops_for_agent(&a).await);
                        drop(kh.reachable_prekey_ops_for_agent(&a).await);
                    }
                    drop(kh.get_existing_contact_card().await);
                }
                5 => {
                    drop(kh.membership_ops_for_all_agents().await);
                    drop(kh.reachable_prekey_ops_for_all_agents().await);
                }
                6 => {
                    drop(kh.cgka_ops_for_doc(&e.id.into()).await);
                    drop(kh.stats().await);
                }
                _ => {
                    if let Some(it) = it {
                        if let Some(d) = kh.get_document(it.doc.into()).await {
                            drop(kh.try_decrypt_content(d, &it.enc).await);
                        }
                    }
                }
            }
        }),
    )
}

fn finish(w: &mut World, ep: &mut Ep, items: &mut Vec<Item>) -> EpResult {
    settle(w, ep)?;
    compare_views(w, ep)?;
    for p in 0..w.peers.len() {
        told(w, ep, p)?;
    }
    for e in w.ents.clone() {
        if e.kind == Kind::Doc {
            let p = ep.rng.gen_range(0..w.peers.len());
            let plain = payload(ep);
            if let Some(i) = encrypt(w, ep, p, e.id, vec![], plain, false)? {
                settle(w, ep)?;
                for q in 0..w.peers.len() {
                    judge(w, ep, &i, q)?;
                }
            }
        }
    }
    // the writer of everything written meanwhile can read it, and nobody reads something else
    for it in items.iter() {
        for q in 0..w.peers.len() {
            if let Some(d) = w.doc(q, it.doc) {
                match block_on(w.peers[q].kh.try_decrypt_content_keyed(d, &it.enc)) {
                    Ok((p, k)) if p == it.plain && k == it.key => ep.hit("contents written at the same time read"),
                    Ok(_) => return Err("decryption yields something else than was encrypted".into()),
                    Err(x) if q == it.by => return Err(format!("a replica can no longer read what it wrote :: {x}")),
                    Err(_) => {}
                }
            }
        }
    }
    let p = ep.rng.gen_range(0..w.peers.len());
    crate::archive::restart(w, ep, p)?;
    ep.nontrivial = true;
    Ok(())
}

pub fn intake(ep: &mut Ep) -> EpResult {
    run(ep, Opts { local: false, revoke: true, create: false, write: false, queries: true })
}
pub fn actions(ep: &mut Ep) -> EpResult {
    run(ep, Opts { local: true, revoke: true, create: true, write: true, queries: true })
}
pub fn adds(ep: &mut Ep) -> EpResult {
    run(ep, Opts { local: true, revoke: false, create: false, write: false, queries: true })
}
