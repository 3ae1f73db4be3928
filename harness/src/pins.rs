//! What content a membership change was made after.
use crate::check::{Ep, EpResult};
use crate::mem::*;
use crate::rt::*;
use crate::world::*;
use keyhive_core::principal::identifier::Identifier;
use rand::seq::SliceRandom;
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

fn carried(e: &Ev) -> Option<BTreeMap<Identifier, Vec<Ref>>> {
    let m = match e {
        Ev::Delegated(d) => &d.payload.after_content,
        Ev::Revoked(r) => &r.payload.after_content,
        _ => return None,
    };
    Some(m.iter().map(|(d, r)| (Identifier::from(*d), r.clone())).collect())
}

/// The changes `hs` to `e` carry the heads of `docs`, and nothing else. What a
/// change to a document carries about that document itself is left open unless
/// it founds it.
pub fn judge(w: &mut World, ep: &mut Ep, e: Identifier, hs: &[H], docs: &BTreeSet<Identifier>, what: &str) {
    for h in hs {
        let Some(got) = carried(w.ev(h)) else { continue };
        for d in docs {
            let Some(g) = got.get(d) else {
                if *d != e {
                    w.complaints.push(format!("{what} leaves out the content of a document it depends on :: {}", w.name(d)));
                }
                continue;
            };
            if *d != e && g.iter().copied().collect::<BTreeSet<_>>() != w.heads[d] {
                w.complaints.push(format!("{what} carries other content than the document has :: {}", w.name(d)));
            }
            ep.hit(if what == "a revocation" { "contents carried by revocations" } else { "contents carried by delegations" });
        }
        for d in got.keys() {
            if *d != e && !docs.contains(d) {
                w.complaints.push(format!("{what} carries the content of a document that it has nothing to do with :: {}", w.name(d)));
            }
        }
    }
}

/// Whatever was made, anywhere.
fn judge_all(w: &World, ep: &mut Ep) -> EpResult {
    for (_, e) in &w.all {
        let Some(got) = carried(e) else { continue };
        for (d, g) in &got {
            let set: BTreeSet<Ref> = g.iter().copied().collect();
            let Some(heads) = w.heads.get(d) else {
                return Err(format!("a membership change carries content of what is no document :: {}", w.name(d)));
            };
            if !(set == *heads || set.is_empty()) {
                return Err(format!("a membership change carries content that the document does not have :: {}", w.name(d)));
            }
        }
        if let Ev::Delegated(x) = e {
            // the founding delegations
            let id = Identifier::from(x.issuer);
            if let Some(k) = w.ents.iter().find(|k| k.id == id) {
                let founds = got.get(&id).is_some_and(|g| !g.is_empty());
                if founds != (k.kind == Kind::Doc) || got.len() != founds as usize {
                    return Err(format!("a founding delegation carries other content than its {:?} starts from", k.kind));
                }
                ep.hit("founding delegations judged");
            }
        }
    }
    Ok(())
}

/// What each replica makes of it: documents are documents, with their heads.
fn judge_known(w: &mut World, ep: &mut Ep) -> EpResult {
    for p in 0..w.peers.len() {
        let me = w.peers[p].id;
        let docs: Vec<_> = w.heads.keys().copied().filter_map(|d| w.doc(p, d).map(|x| (d, x))).collect();
        for k in &w.ents {
            if w.membered(p, k.id).is_none() {
                continue;
            }
            if w.doc(p, k.id).is_some() != (k.kind == Kind::Doc) || w.group(p, k.id).is_some() != (k.kind == Kind::Group) {
                return Err(format!("a replica takes a {:?} for something else", k.kind));
            }
            ep.hit("kinds judged");
        }
        let Some(other) = w.peers.iter().map(|q| q.id).filter(|q| *q != me).collect::<Vec<_>>().choose(&mut ep.rng).copied() else { continue };
        let g = w.new_group(p, vec![]);
        let (Some(a), Some(m)) = (w.agent(p, other), w.membered(p, g)) else { continue };
        let list: Vec<_> = docs.iter().map(|(_, d)| d.clone()).collect();
        block_on(w.peers[p].kh.add_member(a, &m, acc(0), &list)).map_err(|e| format!("an addition to a group that depends on documents is refused: {e}"))?;
        let hs = w.collect(p);
        let ids = docs.iter().map(|(d, _)| *d).collect();
        judge(w, ep, g, &hs, &ids, "an addition");
        if let Some(x) = w.complaints.pop() {
            return Err(x);
        }
        ep.add("documents whose content replicas know", docs.len() as u64);
    }
    Ok(())
}

pub fn pins(ep: &mut Ep) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(2..5), ents: ep.rng.gen_range(2..6), steps: ep.rng.gen_range(6..20), via: false, revoke: true, nest: ep.rng.gen_bool(0.6), docs: true, offer: false, sync: 35 };
    let mut w = World::new(ep, c.peers);
    w.pins = true;
    w.introduce_all();
    for _ in 0..ep.rng.gen_range(1..4) {
        run_script(&mut w, ep, &c)?;
        if outside_via(&w) {
            return Ok(());
        }
        let p = ep.rng.gen_range(0..c.peers);
        if ep.rng.gen() {
            crate::archive::restart(&mut w, ep, p)?;
        }
        if ep.rng.gen_bool(0.4) {
            use keyhive_core::transact::{fork::ForkAsync, merge::MergeAsync};
            let trunk = Arc::new(futures::lock::Mutex::new(w.peers[p].kh.clone()));
            let f: crate::archive::Fk = block_on(trunk.fork_async());
            let (mut ents, mut written) = (vec![], vec![]);
            for _ in 0..ep.rng.gen_range(1..5) {
                let s = crate::archive::fork_act(&mut w, ep, p, &f, &mut ents, &mut written);
                ep.step(format!("p{p} in a transaction: {s}"));
            }
            let r = crate::archive::fork_replica(&mut w, p, &f);
            let theirs: Vec<Ev> = crate::listener::holdings(&w, r).into_values().collect();
            w.peers.pop();
            block_on(trunk.merge_async(f));
            w.ents.extend(ents);
            w.collect(p);
            for e in theirs {
                w.publish(p, e);
            }
            ep.hit("transactions");
        }
    }
    judge_all(&w, ep)?;
    if ep.rng.gen() {
        judge_known(&mut w, ep)?;
    }
    settle(&mut w, ep)?;
    judge_known(&mut w, ep)?;
    ep.nontrivial = w.heads.len() > 1 && ep.counters.contains_key("contents carried by delegations");
    judge_all(&w, ep)
}
