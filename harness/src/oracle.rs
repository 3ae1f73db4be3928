//! Independent model of membership: what a set of delegations and revocations
//! means, computed from the published events alone.
use crate::world::*;
use keyhive_core::access::Access;
use keyhive_core::event::static_event::StaticEvent;
use keyhive_core::principal::identifier::Identifier;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Dlg {
    pub h: H,
    pub issuer: Identifier,
    pub delegate: Identifier,
    pub can: Access,
    pub proof: Option<H>,
    pub after_revs: Vec<H>,
    pub subject: Identifier,
}
#[derive(Clone, Debug)]
pub struct Rev {
    pub h: H,
    pub issuer: Identifier,
    pub revoke: H,
    pub proof: Option<H>,
    pub subject: Identifier,
}

#[derive(Clone, Default)]
pub struct Oracle {
    pub dlgs: BTreeMap<H, Dlg>,
    pub revs: BTreeMap<H, Rev>,
}

fn raw<T>(d: &keyhive_crypto::digest::Digest<T>) -> H
where
    T: serde::Serialize,
{
    *d.raw.as_bytes()
}

impl Oracle {
    /// All operations in `evs`. Operations whose dependencies are not in the
    /// set are ignored.
    pub fn new<'a>(evs: impl Iterator<Item = &'a Ev>) -> Self {
        let mut o = Oracle::default();
        let mut d0: Vec<(H, _)> = vec![];
        let mut r0: Vec<(H, _)> = vec![];
        for e in evs {
            match e {
                StaticEvent::Delegated(d) => d0.push((dlg_hash(d), d)),
                StaticEvent::Revoked(r) => r0.push((dlg_hash(r), r)),
                _ => {}
            }
        }
        loop {
            let before = o.dlgs.len() + o.revs.len();
            for (h, d) in &d0 {
                if o.dlgs.contains_key(h) {
                    continue;
                }
                let proof = d.payload.proof.as_ref().map(raw);
                let after: Vec<H> = d.payload.after_revocations.iter().map(raw).collect();
                if !after.iter().all(|a| o.revs.contains_key(a)) {
                    continue;
                }
                let issuer: Identifier = d.issuer.into();
                let subject = match proof {
                    None => issuer,
                    Some(p) => match o.dlgs.get(&p) {
                        Some(p) => p.subject,
                        None => continue,
                    },
                };
                o.dlgs.insert(*h, Dlg { h: *h, issuer, delegate: d.payload.delegate, can: d.payload.can, proof, after_revs: after, subject });
            }
            for (h, r) in &r0 {
                if o.revs.contains_key(h) {
                    continue;
                }
                let proof = r.payload.proof.as_ref().map(raw);
                if proof.is_some_and(|p| !o.dlgs.contains_key(&p)) {
                    continue;
                }
                let revoke = raw(&r.payload.revoke);
                let Some(t) = o.dlgs.get(&revoke) else { continue };
                let subject = t.subject;
                o.revs.insert(*h, Rev { h: *h, issuer: r.issuer.into(), revoke, proof, subject });
            }
            if o.dlgs.len() + o.revs.len() == before {
                return o;
            }
        }
    }

    /// Groups and documents through which somebody issued an operation.
    pub fn via(&self) -> BTreeSet<Identifier> {
        let mut s = BTreeSet::new();
        for d in self.dlgs.values() {
            if let Some(p) = d.proof.and_then(|p| self.dlgs.get(&p)) {
                if p.delegate != d.issuer {
                    s.insert(p.delegate);
                }
            }
        }
        for r in self.revs.values() {
            if let Some(p) = r.proof.and_then(|p| self.dlgs.get(&p)) {
                if p.delegate != r.issuer {
                    s.insert(p.delegate);
                }
            }
        }
        s
    }

    /// Everything that was ever a direct or indirect member of `e`, and `e`.
    pub fn ever_below(&self, e: Identifier) -> BTreeSet<Identifier> {
        let mut s = BTreeSet::from([e]);
        let mut todo = vec![e];
        while let Some(x) = todo.pop() {
            for d in self.dlgs.values() {
                if d.subject == x && s.insert(d.delegate) {
                    todo.push(d.delegate);
                }
            }
        }
        s
    }

    /// Entities through which somebody issued an operation and that (or whose
    /// members) lost a member.
    pub fn shrinking_via(&self) -> BTreeSet<Identifier> {
        let lost: BTreeSet<Identifier> = self.revs.values().map(|r| r.subject).collect();
        self.via().into_iter().filter(|v| !self.ever_below(*v).is_disjoint(&lost)).collect()
    }
}

/// What the operations mean for one group or document.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct State {
    pub members: BTreeMap<Identifier, BTreeSet<(H, Access)>>,
    pub caps: BTreeMap<Identifier, Access>,
    pub transitive: BTreeMap<Identifier, Access>,
    pub revoked: BTreeMap<Identifier, Access>,
}

fn signed_well<T: serde::Serialize + std::fmt::Debug>(s: &keyhive_crypto::signed::Signed<T>) -> bool {
    let Ok(bytes) = bincode::serialize(&s.payload) else { return false };
    s.issuer.verify_strict(&bytes, &s.signature).is_ok()
}

impl Oracle {
    pub fn lineage(&self, d: &Dlg) -> Vec<&Dlg> {
        let mut v = vec![];
        let mut p = d.proof;
        while let Some(h) = p {
            let x = &self.dlgs[&h];
            p = x.proof;
            v.push(x);
        }
        v
    }

    pub fn descends(&self, d: &Dlg, of: &H) -> bool {
        self.lineage(d).iter().any(|x| x.h == *of)
    }

    /// Is `id` in, or below, the group `e` with at least `min`?
    fn within(&self, e: Identifier, id: Identifier, min: Access, skip: Identifier) -> bool {
        // a group does not lend its members authority over itself
        if e == skip || !self.is_entity(e) {
            return false;
        }
        let mut best: BTreeMap<Identifier, Access> = BTreeMap::new();
        self.spread(e, Access::Admin, skip, &mut best);
        best.get(&id).is_some_and(|a| *a >= min)
    }

    fn is_entity(&self, e: Identifier) -> bool {
        self.dlgs.values().any(|d| d.subject == e)
    }

    /// Keep only operations that their issuers had the authority to make, as
    /// far as that can be told from the operations themselves. `by_group`
    /// says whether authority held through a group counts.
    pub fn authorised<'a>(evs: impl Iterator<Item = &'a Ev> + Clone, via: bool) -> Oracle {
        let good: Vec<&Ev> = evs
            .filter(|e| match e {
                StaticEvent::Delegated(d) => signed_well(d),
                StaticEvent::Revoked(r) => signed_well(r),
                _ => true,
            })
            .collect();
        let all = Oracle::new(good.iter().copied());
        let mut out = Oracle::default();
        // dependencies first; repeat because groups may become known later
        loop {
            let n = out.dlgs.len() + out.revs.len();
            for d in all.dlgs.values() {
                if !out.dlgs.contains_key(&d.h) && all.may_delegate(d, &out, via) {
                    out.dlgs.insert(d.h, d.clone());
                }
            }
            for r in all.revs.values() {
                if !out.revs.contains_key(&r.h) && all.may_revoke(r, &out, via) {
                    out.revs.insert(r.h, r.clone());
                }
            }
            if out.dlgs.len() + out.revs.len() == n {
                return out;
            }
        }
    }

    fn chain_ok(&self, d: &Dlg, can: Access, out: &Oracle, via: bool) -> bool {
        let mut head = d;
        for p in self.lineage(d) {
            if !out.dlgs.contains_key(&p.h) || can > p.can {
                return false;
            }
            if head.issuer != p.delegate && !(via && out.within(p.delegate, head.issuer, can, d.subject)) {
                return false;
            }
            head = p;
        }
        true
    }

    fn may_delegate(&self, d: &Dlg, out: &Oracle, via: bool) -> bool {
        d.after_revs.iter().all(|r| out.revs.get(r).is_some_and(|r| r.subject == d.subject)) && self.chain_ok(d, d.can, out, via)
    }

    fn may_revoke(&self, r: &Rev, out: &Oracle, via: bool) -> bool {
        let Some(t) = out.dlgs.get(&r.revoke) else { return false };
        let Some(p) = r.proof else { return r.issuer == t.subject };
        let Some(p) = out.dlgs.get(&p) else { return false };
        if p.subject != t.subject || !self.chain_ok(p, p.can, out, via) {
            return false;
        }
        // issued it, or something it came from
        (r.issuer == p.issuer && (t.h == p.h || self.descends(t, &p.h)))
            // gives up its own membership
            || (r.issuer == p.delegate && t.delegate == p.delegate)
            // holds at least as much through a group
            || (via && p.can >= t.can && out.within(p.delegate, r.issuer, t.can, t.subject))
    }

    fn holding(&self, e: Identifier) -> BTreeSet<H> {
        let revoked: BTreeSet<H> = self.revs.values().filter(|r| r.subject == e).map(|r| r.revoke).collect();
        let ds: Vec<&Dlg> = self.dlgs.values().filter(|d| d.subject == e).collect();
        let mut held: BTreeSet<H> = BTreeSet::new();
        loop {
            let add: Vec<H> = ds
                .iter()
                .filter(|d| !held.contains(&d.h) && !revoked.contains(&d.h))
                .filter(|d| match d.proof {
                    None => true,
                    Some(p) => {
                        let p = &self.dlgs[&p];
                        held.contains(&p.h) || ds.iter().any(|a| held.contains(&a.h) && a.delegate == p.delegate && a.can >= p.can)
                    }
                })
                .map(|d| d.h)
                .collect();
            if add.is_empty() {
                return held;
            }
            held.extend(add);
        }
    }

    fn spread(&self, e: Identifier, at: Access, skip: Identifier, best: &mut BTreeMap<Identifier, Access>) {
        // widest path, by descending access
        for h in self.holding(e) {
            let d = &self.dlgs[&h];
            let a = d.can.min(at);
            if d.delegate == skip || best.get(&d.delegate).is_some_and(|b| *b >= a) {
                continue;
            }
            best.insert(d.delegate, a);
            self.spread(d.delegate, a, skip, best);
        }
    }

    pub fn state(&self, e: Identifier) -> State {
        let mut s = State::default();
        for h in self.holding(e) {
            let d = &self.dlgs[&h];
            s.members.entry(d.delegate).or_default().insert((h, d.can));
            let c = s.caps.entry(d.delegate).or_insert(d.can);
            *c = (*c).max(d.can);
        }
        self.spread(e, Access::Admin, e, &mut s.transitive);
        for r in self.revs.values().filter(|r| r.subject == e) {
            let t = &self.dlgs[&r.revoke];
            if !s.members.contains_key(&t.delegate) {
                let c = s.revoked.entry(t.delegate).or_insert(t.can);
                *c = (*c).max(t.can);
            }
        }
        s
    }
}
