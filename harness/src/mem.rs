//! Membership workloads: scripts of delegations, revocations, group and
//! document creation by several replicas, and the monitors over them.
use crate::check::{Ep, EpResult};
use crate::rt::*;
use crate::world::*;
use keyhive_core::access::Access;
use keyhive_core::principal::identifier::Identifier;
use rand::seq::SliceRandom;
use rand::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Copy)]
pub struct Cfg {
    pub peers: usize,
    pub ents: usize,
    pub steps: usize,
    /// Members of a member group may act through it.
    pub via: bool,
    pub revoke: bool,
    /// Groups and documents may be members.
    pub nest: bool,
    pub docs: bool,
    /// Exchange only what a replica offers the other.
    pub offer: bool,
    /// Percent of steps that exchange events between two replicas; 0 for
    /// everybody learning of every act before the next.
    pub sync: u32,
}

/// One random action at replica `p`. Returns a description.
pub fn act(w: &mut World, ep: &mut Ep, c: &Cfg, p: usize) -> String {
    // entities p knows of
    let known: Vec<Ent> = w.ents.iter().filter(|e| w.membered(p, e.id).is_some()).cloned().collect();
    let mut roll = ep.rng.gen_range(0..100);
    if w.all.iter().filter(|(_, e)| matches!(e, keyhive_core::event::static_event::StaticEvent::Delegated(_))).count() < 4 {
        roll = roll * 6 / 10;
    }
    if known.is_empty() || (w.ents.len() < c.ents && roll < 25) {
        return create(w, ep, c, p, &known);
    }
    let e = known.choose(&mut ep.rng).unwrap().clone();
    let m = w.membered(p, e.id).unwrap();
    let members = block_on(m.members());
    let me = w.peers[p].id;
    let direct = members.contains_key(&me);
    let trans = direct || block_on(m.transitive_members()).contains_key(&me);
    let may = direct || (c.via && trans);
    if !may {
        return format!("p{p}: idle");
    }
    let mut ids: Vec<Identifier> = members.keys().copied().collect();
    ids.sort();
    if c.revoke && roll >= 65 {
        let mut t = ids[ep.rng.gen_range(0..ids.len())];
        // mostly somebody that this replica may revoke, and rather one that
        // made others members
        let of_mine = |i: &Identifier| members[i].iter().any(|d| std::iter::once(d).chain(d.payload().proof_lineage().iter()).any(|a| *a.issuer() == me.0));
        let made: Vec<Identifier> = members.values().flatten().filter_map(|d| d.payload().proof().map(|p| p.payload().delegate().id())).collect();
        let mine: Vec<Identifier> = ids.iter().filter(|i| **i != me && of_mine(i)).copied().collect();
        let parents: Vec<Identifier> = mine.iter().filter(|i| made.contains(i)).copied().collect();
        for (set, p) in [(&mine, 0.4), (&parents, 0.7)] {
            if !set.is_empty() && ep.rng.gen_bool(p) {
                t = set[ep.rng.gen_range(0..set.len())];
            }
        }
        let retain = ep.rng.gen_bool(0.5);
        return revoke(w, ep, p, e.id, t, retain);
    }
    // add
    let mut cand: Vec<Identifier> = w.peers.iter().map(|q| q.id).collect();
    if c.nest {
        cand.extend(known.iter().filter(|k| k.id != e.id).map(|k| k.id));
    }
    cand.retain(|i| w.agent(p, *i).is_some());
    if ep.rng.gen_bool(0.8) && cand.iter().any(|i| !members.contains_key(i)) {
        cand.retain(|i| !members.contains_key(i));
    }
    if c.docs && ep.rng.gen_bool(0.06) {
        cand = vec![public()];
    }
    let mut t = cand[ep.rng.gen_range(0..cand.len())];
    // a reader that was let in by somebody who did not know adds itself
    if e.kind == Kind::Doc && c.via && ep.rng.gen_bool(0.5) && w.view(p, e.id).is_some_and(|v| !v.cgka_members.contains(&me)) {
        t = me;
    }
    let can = acc(ep.rng.gen_range(0..6).min(3));
    add(w, ep, p, e.id, t, can)
}

pub fn create(w: &mut World, ep: &mut Ep, c: &Cfg, p: usize, known: &[Ent]) -> String {
    let mut co = vec![];
    let mut n = [0, 0, 1, 2][ep.rng.gen_range(0..4)];
    if c.peers > 5 && ep.rng.gen_bool(0.4) {
        n = c.peers;
    }
    let mut names = vec![];
    for _ in 0..n {
        let t = if c.nest && !known.is_empty() && ep.rng.gen_bool(0.3) {
            known.choose(&mut ep.rng).unwrap().id
        } else {
            w.peers[ep.rng.gen_range(0..w.peers.len())].id
        };
        if (t == w.peers[p].id || names.contains(&w.name(&t))) && ep.rng.gen_bool(0.7) {
            continue;
        }
        if let Some(peer) = block_on(w.peers[p].kh.get_peer(t)) {
            names.push(w.name(&t));
            co.push(peer);
        }
    }
    if c.docs && ep.rng.gen_bool(0.5) {
        match w.new_doc(p, co) {
            Ok(id) => format!("p{p}: new document {} with {names:?}", w.name(&id)),
            Err(e) => format!("p{p}: new document with {names:?} refused: {e}"),
        }
    } else {
        let id = w.new_group(p, co);
        format!("p{p}: new group {} with {names:?}", w.name(&id))
    }
}

/// Direct members with their greatest access, and all members.
fn reach(w: &World, p: usize, e: Identifier) -> (BTreeMap<Identifier, Access>, BTreeMap<Identifier, Access>) {
    let m = w.membered(p, e).unwrap();
    let mut d = BTreeMap::new();
    for (k, ds) in block_on(m.members()).iter() {
        d.insert(*k, ds.iter().map(|d| d.payload().can()).max().unwrap());
    }
    (d, block_on(m.transitive_members()).into_iter().map(|(k, (_, a))| (k, a)).collect())
}

pub fn add(w: &mut World, ep: &mut Ep, p: usize, e: Identifier, t: Identifier, can: Access) -> String {
    let m = w.membered(p, e).unwrap();
    let a = w.agent(p, t).unwrap();
    let (direct, all) = reach(w, p, e);
    let me = w.peers[p].id;
    let mut docs = vec![];
    if w.pins {
        docs = w.heads.keys().copied().filter(|_| ep.rng.gen()).filter_map(|d| w.doc(p, d).map(|x| (d, x))).collect();
    }
    let list: Vec<_> = docs.iter().map(|(_, d)| d.clone()).collect();
    let r = block_on(w.peers[p].kh.add_member(a, &m, can, &list));
    let hs = w.collect(p);
    if w.pins {
        let ids = docs.iter().map(|(d, _)| *d).collect();
        crate::pins::judge(w, ep, e, &hs, &ids, "an addition");
    }
    let d = format!("p{p}: add {} to {} as {can}", w.name(&t), w.name(&e));
    let (direct2, all2) = reach(w, p, e);
    match r {
        Ok(u) => {
            ep.hit("adds");
            if !direct2.get(&t).is_some_and(|x| *x >= can && *x >= u.delegation.payload().can()) || u.delegation.payload().can() != can {
                w.complaints.push(format!("adding a member succeeds and it is not a member with the access given :: {d}"));
            }
            if all.iter().any(|(k, x)| all2.get(k).is_none_or(|y| y < x)) {
                w.complaints.push(format!("adding a member takes access from another :: {d}"));
            }
            if can > all.get(&me).copied().unwrap_or(Access::Relay) || !all.contains_key(&me) {
                w.complaints.push(format!("a member gives more access than it has :: {d}"));
            }
            format!("{d} -> {}", hs.iter().map(|h| hx(h)).collect::<Vec<_>>().join(","))
        }
        Err(x) => {
            ep.hit("adds refused");
            // what a direct member may give depends on its own delegation, even if
            // it could do more through a group
            let own = direct.get(&me).or(all.get(&me)).copied();
            if own.is_some_and(|o| o >= can) && !x.to_string().contains("Cgka is not initialized") && !(x.to_string().contains("Invalid proof chain") && outside_via(w)) {
                w.complaints.push(format!("a member may not give access that it has: {x} :: {d}"));
            }
            if direct != direct2 || all != all2 {
                w.complaints.push(format!("a refused addition changes the members :: {d}"));
            }
            format!("{d} refused: {x}")
        }
    }
}

pub fn revoke(w: &mut World, ep: &mut Ep, p: usize, e: Identifier, t: Identifier, retain: bool) -> String {
    let m = w.membered(p, e).unwrap();
    let (direct, all) = reach(w, p, e);
    let can_reach = block_on(w.peers[p].kh.reachable_docs()).into_keys().map(Identifier::from).collect();
    let r = block_on(w.peers[p].kh.revoke_member(t, retain, &m));
    let hs = w.collect(p);
    if w.pins {
        crate::pins::judge(w, ep, e, &hs, &can_reach, "a revocation");
    }
    let d = format!("p{p}: revoke {} from {} (retain {retain})", w.name(&t), w.name(&e));
    let (direct2, all2) = reach(w, p, e);
    match r {
        Ok(u) => {
            ep.hit("revocations");
            ep.add("members retained by a new delegation", u.redelegations().len() as u64);
            if direct2.contains_key(&t) {
                w.complaints.push(format!("revoking a member succeeds and it still is one :: {d}"));
            }
            if all2.iter().any(|(k, x)| all.get(k).is_none_or(|y| y < x)) {
                w.complaints.push(format!("revoking a member gives access to another :: {d}"));
            }
            if retain {
                ep.hit("revocations that retain the others");
                for (k, x) in &direct {
                    if *k != t && direct2.get(k) != Some(x) {
                        w.complaints.push(format!("revoking a member and retaining all others loses another :: {d}: {}", w.name(k)));
                    }
                }
            }
            format!("{d} -> {}", hs.iter().map(|h| hx(h)).collect::<Vec<_>>().join(","))
        }
        Err(x) => {
            ep.hit("revocations refused");
            format!("{d} refused: {x}")
        }
    }
}

pub fn run_script(w: &mut World, ep: &mut Ep, c: &Cfg) -> EpResult {
    for _ in 0..c.steps {
        let p = ep.rng.gen_range(0..w.peers.len());
        if ep.rng.gen_range(0..100) < c.sync {
            let left = {
                // deliver a causally closed prefix of the log: everything so far,
                // or everything one other replica has
                let q = ep.rng.gen_range(0..w.peers.len());
                if c.offer {
                    if p != q {
                        if let Some(n) = crate::sync::give(w, ep, q, p)? {
                            ep.step(format!("p{q} => p{p}: {n} events"));
                            ep.hit("exchanges");
                        }
                    }
                    continue;
                }
                let mut miss: Vec<H> = w.all.iter().map(|(h, _)| *h).filter(|h| !w.peers[p].has.contains(h) && w.peers[q].has.contains(h)).collect();
                if miss.is_empty() {
                    continue;
                }
                ep.step(format!("p{q} -> p{p}: {} events", miss.len()));
                w.deliver_set(ep, p, &mut miss, true)
            };
            ep.hit("exchanges");
            if !left.is_empty() {
                ep.add("events left pending mid-way", left.len() as u64);
            }
        } else {
            let mut p = p;
            for _ in 0..4 {
                let s = act(w, ep, c, p);
                if !s.ends_with("idle") {
                    ep.step(s);
                    break;
                }
                p = ep.rng.gen_range(0..w.peers.len());
            }
            // an act is judged by what it changes at the replica that did it,
            // which is not settled if somebody acted through a shrinking group
            if !w.complaints.is_empty() && !outside_via(w) {
                dump(w, ep);
                return Err(w.complaints.remove(0));
            }
            if c.sync == 0 {
                for q in 0..w.peers.len() {
                    w.deliver_missing(ep, q, false);
                }
            }
        }
    }
    Ok(())
}

/// Everybody gets everything.
pub fn settle(w: &mut World, ep: &mut Ep) -> Result<(), String> {
    for p in 0..w.peers.len() {
        let left = w.deliver_missing(ep, p, true);
        if !left.is_empty() {
            let e: Vec<String> = left.iter().map(|h| w.show_ev(w.ev(h))).collect();
            let mut kinds: Vec<&str> = e.iter().map(|s| s.split(' ').next().unwrap()).collect();
            kinds.sort();
            kinds.dedup();
            return Err(format!("a replica has every event but still holds back {} :: p{p}: {}", kinds.join(", "), e.join("; ")));
        }
    }
    Ok(())
}

pub fn compare_views(w: &World, ep: &mut Ep) -> Result<(), String> {
    for e in w.ents.clone() {
        let mut first: Option<(usize, View)> = None;
        for p in 0..w.peers.len() {
            let Some(mut v) = w.view(p, e.id) else {
                return Err(format!("p{p} has every event and does not know {}", e.name));
            };
            v.has_key = false;
            ep.hit("views compared");
            if v.members.is_empty() {
                ep.hit("views of an emptied group");
            }
            if let Some((q, f)) = &first {
                if *f != v {
                    let what = if f.members != v.members || f.caps != v.caps {
                        "members"
                    } else if f.transitive != v.transitive {
                        "transitive members"
                    } else if f.revoked != v.revoked {
                        "revoked members"
                    } else {
                        "key-agreement state"
                    };
                    return Err(format!("two replicas have the same events but differ on the {what} of a {:?} :: {}: p{q} {} / p{p} {}", e.kind, e.name, w.show(f), w.show(&v)));
                }
            } else {
                first = Some((p, v));
            }
        }
    }
    Ok(())
}

pub fn dump(w: &World, ep: &mut Ep) {
    for (h, e) in &w.all {
        let _ = h;
        let s = w.show_ev(e);
        if !s.starts_with("expand") && !s.starts_with("rotate") {
            ep.log.push(s);
        }
    }
}

/// Somebody acted with authority held through a group or document that lost
/// members: whether such an operation is accepted depends on what the receiver
/// already knows (a recorded finding), so histories with it are judged
/// separately.
pub fn outside_via(w: &World) -> bool {
    let o = crate::oracle::Oracle::new(w.all.iter().map(|(_, e)| e));
    !o.shrinking_via().is_empty()
}

pub fn converge(ep: &mut Ep, c: Cfg) -> EpResult {
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    run_script(&mut w, ep, &c)?;
    let r = settle(&mut w, ep).and_then(|_| compare_views(&w, ep));
    if outside_via(&w) {
        // see DESIGN.md: acts through a group whose membership shrank
        ep.hit("episodes outside the fragment (authority through a shrinking group)");
        return Ok(());
    }
    ep.nontrivial = ep.counters.get("adds").copied().unwrap_or(0) > 2;
    if r.is_err() {
        dump(&w, ep);
    }
    r
}

pub fn converge_direct(ep: &mut Ep) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(2..6), ents: ep.rng.gen_range(1..3), steps: ep.rng.gen_range(6..36), via: false, revoke: true, nest: false, docs: false, offer: false, sync: [35, 35, 60, 0][ep.rng.gen_range(0..4)] };
    converge(ep, c)
}
pub fn converge_docs(ep: &mut Ep) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(2..5), ents: ep.rng.gen_range(1..3), steps: ep.rng.gen_range(6..24), via: false, revoke: true, nest: false, docs: true, offer: false, sync: [35, 35, 60, 0][ep.rng.gen_range(0..4)] };
    converge(ep, c)
}
pub fn converge_nested(ep: &mut Ep) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(2..5), ents: ep.rng.gen_range(2..5), steps: ep.rng.gen_range(8..26), via: false, revoke: true, nest: true, docs: true, offer: false, sync: [35, 35, 60, 0][ep.rng.gen_range(0..4)] };
    converge(ep, c)
}
pub fn converge_via(ep: &mut Ep) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(2..5), ents: ep.rng.gen_range(2..5), steps: ep.rng.gen_range(8..26), via: true, revoke: false, nest: true, docs: true, offer: false, sync: [35, 35, 60, 0][ep.rng.gen_range(0..4)] };
    converge(ep, c)
}

/// Everything replica `p` says about membership is what its operations mean.
pub fn against_oracle(w: &World, ep: &mut Ep, p: usize, o: &crate::oracle::Oracle) -> EpResult {
    let mut by_agent: std::collections::BTreeMap<Identifier, std::collections::BTreeMap<Identifier, Access>> = Default::default();
    for e in w.ents.clone() {
        let want = o.state(e.id);
        let Some(v) = w.view(p, e.id) else {
            if want.members.is_empty() && want.revoked.is_empty() {
                continue;
            }
            return Err(format!("a replica does not know a group that it has the operations of :: p{p}: {}", e.name));
        };
        ep.hit("views judged");
        let bad = if v.members != want.members {
            "members"
        } else if v.caps != want.caps {
            "a member's capability"
        } else if v.transitive != want.transitive {
            "transitive members"
        } else if v.revoked != want.revoked {
            "revoked members"
        } else {
            ""
        };
        if !want.revoked.is_empty() {
            ep.hit("views with revoked members");
        }
        if v.transitive.len() > v.members.len() {
            ep.hit("views with indirect members");
        }
        if !bad.is_empty() {
            dump(w, ep);
            let wv = View { members: want.members, caps: want.caps, transitive: want.transitive, revoked: want.revoked, ..v.clone() };
            return Err(format!("{bad} of a {:?} are not what its operations mean :: {} at p{p}: {} / expected {}", e.kind, e.name, w.show(&v), w.show(&wv)));
        }
        for (k, a) in &want.transitive {
            by_agent.entry(*k).or_default().insert(e.id, *a);
        }
        let m = w.membered(p, e.id).unwrap();
        let r: std::collections::BTreeMap<Identifier, Access> = block_on(w.peers[p].kh.reachable_members(m)).into_iter().map(|(k, (_, a))| (k, a)).collect();
        if r != v.transitive {
            return Err(format!("two queries for the members of a {:?} differ :: {} at p{p}", e.kind, e.name));
        }
    }
    // the same relation, asked by agent
    let mut ids: Vec<Identifier> = w.peers.iter().map(|p| p.id).collect();
    ids.extend(w.ents.iter().map(|e| e.id));
    for id in ids {
        let Some(ag) = w.agent(p, id) else { continue };
        let want = by_agent.remove(&id).unwrap_or_default();
        let got: std::collections::BTreeMap<Identifier, Access> = block_on(w.peers[p].kh.membered_reachable_by_agent(&ag)).into_iter().map(|(_, (m, a))| (Identifier::from(m.agent_id()), a)).collect();
        ep.hit("agents' access judged");
        if got != want {
            return Err(format!("what an agent can reach differs from what the groups' members say :: p{p} about {}", w.name(&id)));
        }
        let docs: std::collections::BTreeMap<Identifier, Access> = block_on(w.peers[p].kh.docs_reachable_by_agent(&ag)).into_iter().map(|(d, a)| (Identifier::from(d), a.can())).collect();
        let wd: std::collections::BTreeMap<Identifier, Access> = want.iter().filter(|(k, _)| w.ents.iter().any(|e| e.id == **k && e.kind == Kind::Doc)).map(|(k, a)| (*k, *a)).collect();
        if docs != wd {
            return Err(format!("the documents an agent can reach differ from what their members say :: p{p} about {}", w.name(&id)));
        }
        if id == w.peers[p].id {
            let own: std::collections::BTreeMap<Identifier, Access> = block_on(w.peers[p].kh.reachable_docs()).into_iter().map(|(d, a)| (Identifier::from(d), a.can())).collect();
            if own != docs {
                return Err(format!("the documents a replica can reach differ between queries :: p{p}"));
            }
        }
    }
    Ok(())
}

/// What replica `p` has accepted.
pub fn accepted(w: &World, p: usize) -> Vec<Ev> {
    let pend = w.pending(p);
    w.all.iter().filter(|(h, _)| w.peers[p].has.contains(h) && !pend.contains(h)).map(|(_, e)| e.clone()).collect()
}

fn meaning(ep: &mut Ep, c: Cfg) -> EpResult {
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    run_script(&mut w, ep, &c)?;
    if outside_via(&w) {
        ep.hit("episodes outside the fragment (authority through a shrinking group)");
        return Ok(());
    }
    // mid-way: every replica by what it has
    for p in 0..w.peers.len() {
        let evs = accepted(&w, p);
        let o = crate::oracle::Oracle::new(evs.iter());
        against_oracle(&w, ep, p, &o)?;
    }
    settle(&mut w, ep)?;
    let o = crate::oracle::Oracle::authorised(w.all.iter().map(|(_, e)| e), true);
    for p in 0..w.peers.len() {
        against_oracle(&w, ep, p, &o)?;
    }
    ep.nontrivial = ep.counters.get("adds").copied().unwrap_or(0) > 2;
    Ok(())
}

pub fn meaning_flat(ep: &mut Ep) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(2..7), ents: ep.rng.gen_range(1..3), steps: ep.rng.gen_range(6..40), via: false, revoke: true, nest: false, docs: true, offer: false, sync: [35, 35, 60, 0][ep.rng.gen_range(0..4)] };
    meaning(ep, c)
}
pub fn meaning_nested(ep: &mut Ep) -> EpResult {
    let c = Cfg { peers: ep.rng.gen_range(2..5), ents: ep.rng.gen_range(2..6), steps: ep.rng.gen_range(8..30), via: ep.rng.gen_bool(0.5), revoke: ep.rng.gen_bool(0.7), nest: true, docs: true, offer: false, sync: [35, 35, 60, 0][ep.rng.gen_range(0..4)] };
    meaning(ep, c)
}

/// With every action known to everybody before the next, the members of each
/// document's key agreement are exactly those that can read it.
pub fn readers(ep: &mut Ep) -> EpResult {
    let mut crowd = false;
    let mut c = Cfg { peers: ep.rng.gen_range(2..6), ents: ep.rng.gen_range(1..5), steps: ep.rng.gen_range(6..20), via: ep.rng.gen_bool(0.5), revoke: true, nest: ep.rng.gen_bool(0.7), docs: true, offer: false, sync: 0 };
    if ep.rng.gen_bool(0.15) {
        // a crowd, so that one addition or removal concerns many
        crowd = true;
        c = Cfg { peers: ep.rng.gen_range(6..10), ents: ep.rng.gen_range(2..5), steps: ep.rng.gen_range(4..12), nest: true, ..c };
    }
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    let n = c.peers;
    for i in 0..c.steps {
        let mut p = ep.rng.gen_range(0..n);
        let s = if crowd && i < 4 {
            p = 0;
            let ids: Vec<Identifier> = w.ents.iter().map(|e| e.id).collect();
            match i {
                0 => {
                    let all: Vec<_> = w.peers.iter().skip(1).map(|q| q.id).collect();
                    let all = all.into_iter().filter_map(|i| block_on(w.peers[0].kh.get_peer(i))).collect();
                    w.new_group(0, all);
                    "p0: new group with everybody".into()
                }
                1 => {
                    let r = w.new_doc(0, vec![]);
                    format!("p0: new document {}", if r.is_ok() { "made" } else { "refused" })
                }
                2 => {
                    let can = acc(ep.rng.gen_range(0..4));
                    add(&mut w, ep, 0, ids[1], ids[0], can)
                }
                _ if ep.rng.gen() => revoke(&mut w, ep, 0, ids[1], ids[0], ep.seed % 2 == 0),
                _ => act(&mut w, ep, &c, 0),
            }
        } else {
            act(&mut w, ep, &c, p)
        };
        if s.ends_with("idle") {
            continue;
        }
        ep.step(&s);
        if outside_via(&w) {
            ep.hit("episodes outside the fragment (authority through a shrinking group)");
            return Ok(());
        }
        if let Some(c) = w.complaints.pop() {
            dump(&w, ep);
            return Err(c);
        }
        for q in 0..n {
            w.deliver_missing(ep, q, false);
        }
        for e in w.ents.clone() {
            if e.kind != Kind::Doc {
                continue;
            }
            for q in [p, (p + 1) % n] {
                let Some(v) = w.view(q, e.id) else { return Err(format!("a replica with all events does not know a document :: p{q} {}", e.name)) };
                let want: std::collections::BTreeSet<Identifier> = v.transitive.iter().filter(|(k, a)| **a >= Access::Read && !w.ents.iter().any(|e| e.id == **k)).map(|x| *x.0).collect();
                let mut got = v.cgka_members.clone();
                let owner = got.remove(&e.id);
                ep.hit("documents judged");
                if v.transitive.values().any(|a| *a == Access::Relay) {
                    ep.hit("documents with relays judged");
                }
                if v.transitive.len() > v.members.len() {
                    ep.hit("documents with indirect members judged");
                }
                if want.contains(&public()) {
                    ep.hit("public documents judged");
                }
                // when nobody is left the last one cannot be removed
                if want != got && !(want.is_empty() && got.len() == 1 && !owner) {
                    let d: Vec<String> = want.symmetric_difference(&got).map(|k| w.name(k)).collect();
                    dump(&w, ep);
                    let how = if want.is_subset(&got) { "somebody without read access is in a document's key agreement" } else { "somebody with read access is not in a document's key agreement" };
                    return Err(format!("{how} :: {} at p{q} after {s}: {} ({})", e.name, w.show(&v), d.join(",")));
                }
                if v.cgka_size != Some((got.len() + owner as usize) as u32) {
                    return Err(format!("the size of a document's key agreement is not the number of its members :: {} {}", e.name, w.show(&v)));
                }
                ep.nontrivial = ep.nontrivial || got.len() > 2;
            }
        }
    }
    Ok(())
}

/// Somebody known by its prekeys turns out to be a group: it delegates from its
/// own key. Then it becomes a member of others. (Once it is a member of others,
/// it matters what it was known as: a recorded finding.)
pub fn turned(ep: &mut Ep) -> Result<Option<World>, String> {
    use crate::hostile::sign;
    use keyhive_core::event::static_event::StaticEvent;
    use keyhive_core::principal::group::delegation::StaticDelegation;
    let c = Cfg { peers: ep.rng.gen_range(2..5), ents: ep.rng.gen_range(2..4), steps: ep.rng.gen_range(8..26), via: false, revoke: ep.rng.gen_bool(0.6), nest: true, docs: ep.rng.gen(), offer: false, sync: 35 };
    let mut w = World::new(ep, c.peers);
    w.introduce_all();
    // its prekeys come from a replica of its own, which then is no more
    let x = w.add_peer(ep, 77);
    let ind = block_on(w.peers[x].kh.individual());
    let ops: Vec<Ev> = block_on(async { ind.lock().await.prekey_ops().values().map(|o| key_event(o)).collect() });
    let pre: Vec<H> = ops.into_iter().map(|e| w.publish(x, e)).collect();
    let gone = w.peers.pop().unwrap();
    let id = gone.id;
    w.names.insert(id, "x".into());
    for p in 0..c.peers {
        if ep.rng.gen_bool(0.6) {
            w.deliver(p, &pre);
        }
    }
    let at = ep.rng.gen_range(0..4);
    let mut roots = 0;
    for i in 0..c.steps {
        if (i == at || (i > at && ep.rng.gen_bool(0.05))) && roots < 3 {
            let to = w.peers[ep.rng.gen_range(0..c.peers)].id;
            let can = acc(ep.rng.gen_range(0..6).min(3));
            let s = sign(&gone.signer, StaticDelegation { delegate: to, can, proof: None, after_revocations: vec![], after_content: BTreeMap::new() });
            let e = StaticEvent::Delegated(s);
            let h = ev_hash(&e);
            if !w.by_hash.contains_key(&h) {
                w.by_hash.insert(h, w.all.len());
                w.all.push((h, e));
                roots += 1;
                ep.step(format!("x makes {} a member as {can}", w.name(&to)));
                for p in 0..c.peers {
                    if roots == 1 || ep.rng.gen_bool(0.5) {
                        w.deliver(p, &[h]);
                    }
                }
                if w.ents.iter().all(|e| e.id != id) {
                    w.ents.push(Ent { by: usize::MAX, id, kind: Kind::Group, name: "x".into() });
                }
            }
            continue;
        }
        let p = ep.rng.gen_range(0..c.peers);
        if ep.rng.gen_range(0..100) < c.sync {
            let q = ep.rng.gen_range(0..c.peers);
            let mut miss: Vec<H> = w.all.iter().map(|(h, _)| *h).filter(|h| !w.peers[p].has.contains(h) && w.peers[q].has.contains(h)).collect();
            if !miss.is_empty() {
                ep.step(format!("p{q} -> p{p}: {} events", miss.len()));
                w.deliver_set(ep, p, &mut miss, true);
            }
            continue;
        }
        let known: Vec<Ent> = w.ents.iter().filter(|e| e.id != id && w.membered(p, e.id).is_some()).cloned().collect();
        if !known.is_empty() && i > at && ep.rng.gen_bool(0.25) && w.agent(p, id).is_some() {
            let e = known.choose(&mut ep.rng).unwrap().clone();
            if reach(&w, p, e.id).0.contains_key(&w.peers[p].id) {
                let can = acc(ep.rng.gen_range(0..6).min(3));
                let s = add(&mut w, ep, p, e.id, id, can);
                ep.step(s);
                ep.hit("additions of somebody that turns out to be a group");
            }
        } else {
            let s = act(&mut w, ep, &c, p);
            ep.step(s);
        }
        if let (Some(x), false) = (w.complaints.pop(), outside_via(&w)) {
            dump(&w, ep);
            return Err(x);
        }
    }
    ep.nontrivial = roots > 0 && ep.counters.get("additions of somebody that turns out to be a group").copied().unwrap_or(0) > 0;
    if outside_via(&w) {
        return Ok(None);
    }
    if let Err(x) = settle(&mut w, ep) {
        dump(&w, ep);
        return Err(x);
    }
    Ok(Some(w))
}

pub fn converge_turned(ep: &mut Ep) -> EpResult {
    let Some(w) = turned(ep)? else { return Ok(()) };
    let r = compare_views(&w, ep);
    if r.is_err() {
        dump(&w, ep);
    }
    r
}

pub fn meaning_turned(ep: &mut Ep) -> EpResult {
    let Some(w) = turned(ep)? else { return Ok(()) };
    let o = crate::oracle::Oracle::authorised(w.all.iter().map(|(_, e)| e), true);
    for p in 0..w.peers.len() {
        against_oracle(&w, ep, p, &o)?;
    }
    Ok(())
}
