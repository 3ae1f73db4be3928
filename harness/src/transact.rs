//! Transactions on the plain collections.
use crate::check::{Ep, EpResult};
use crate::rt::*;
use futures::lock::Mutex;
use keyhive_core::transact::{fork::Fork, fork::ForkAsync, merge::Merge, merge::MergeAsync, transact_async, transact_blocking};
use keyhive_core::util::content_addressed_map::CaMap;
use rand::Rng;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

/// A collection as a map from numbers to numbers (a set's values are zero).
trait Coll: Merge<Forked = Self> + Clone + 'static {
    fn empty() -> Self;
    fn put(&mut self, k: u8, v: u8);
    fn take(&mut self, k: u8);
    fn look(&self) -> BTreeMap<u8, u8>;
}
impl Coll for HashSet<u8> {
    fn empty() -> Self {
        HashSet::new()
    }
    fn put(&mut self, k: u8, _: u8) {
        self.insert(k);
    }
    fn take(&mut self, k: u8) {
        self.remove(&k);
    }
    fn look(&self) -> BTreeMap<u8, u8> {
        self.iter().map(|k| (*k, 0)).collect()
    }
}
impl Coll for HashMap<u8, u8> {
    fn empty() -> Self {
        HashMap::new()
    }
    fn put(&mut self, k: u8, v: u8) {
        self.insert(k, v);
    }
    fn take(&mut self, k: u8) {
        self.remove(&k);
    }
    fn look(&self) -> BTreeMap<u8, u8> {
        self.iter().map(|(k, v)| (*k, *v)).collect()
    }
}
impl Coll for CaMap<u8> {
    fn empty() -> Self {
        CaMap::new()
    }
    fn put(&mut self, k: u8, _: u8) {
        self.insert(Arc::new(k));
    }
    fn take(&mut self, k: u8) {
        self.remove_by_value(&k);
    }
    fn look(&self) -> BTreeMap<u8, u8> {
        self.values().map(|k| (**k, 0)).collect()
    }
}

#[derive(Clone, Debug)]
enum Do {
    Put(u8, u8),
    Take(u8),
}
fn apply<C: Coll>(c: &mut C, d: &Do) {
    match d {
        Do::Put(k, v) => c.put(*k, *v),
        Do::Take(k) => c.take(*k),
    }
}
fn model(m: &mut BTreeMap<u8, u8>, d: &Do, set: bool) {
    match d {
        Do::Put(k, v) => {
            m.insert(*k, if set { 0 } else { *v });
        }
        Do::Take(k) => {
            m.remove(k);
        }
    }
}
fn body(ep: &mut Ep) -> (Vec<Do>, bool) {
    let n = ep.rng.gen_range(0..8);
    let v = (0..n).map(|_| if ep.rng.gen_bool(0.7) { Do::Put(ep.rng.gen_range(0..12), ep.rng.gen()) } else { Do::Take(ep.rng.gen_range(0..12)) }).collect();
    (v, ep.rng.gen_bool(0.7))
}

/// What merging must leave: everything of either side, and where only one side
/// has something, just that.
fn merged(before: &BTreeMap<u8, u8>, fork: &BTreeMap<u8, u8>, after: &BTreeMap<u8, u8>) -> EpResult {
    let keys: BTreeSet<u8> = before.keys().chain(fork.keys()).copied().collect();
    if after.keys().copied().collect::<BTreeSet<_>>() != keys {
        return Err(format!("merging a collection loses or invents something :: {before:?} + {fork:?} = {after:?}"));
    }
    for (k, v) in after {
        if before.get(k) != Some(v) && fork.get(k) != Some(v) {
            return Err(format!("merging a collection changes a value :: {before:?} + {fork:?} = {after:?}"));
        }
    }
    Ok(())
}

fn blocking<C: Coll>(ep: &mut Ep, set: bool) -> EpResult {
    let mut c = C::empty();
    let mut m: BTreeMap<u8, u8> = BTreeMap::new();
    let shared = ep.rng.gen::<bool>();
    let mut rc = Rc::new(RefCell::new(C::empty()));
    for _ in 0..ep.rng.gen_range(1..6) {
        let (ops, ok) = body(ep);
        let mut f = m.clone();
        ops.iter().for_each(|d| model(&mut f, d, set));
        let mut seen = BTreeMap::new();
        let mut run = |x: &mut C| {
            ops.iter().for_each(|d| apply(x, d));
            seen = x.look();
            if ok { Ok(()) } else { Err("NOPE") }
        };
        let r = if shared { transact_blocking(&mut rc, &mut run) } else { transact_blocking(&mut c, &mut run) };
        let now = if shared { rc.borrow().look() } else { c.look() };
        ep.step(format!("{ops:?} {ok}"));
        if r.is_ok() != ok {
            return Err("a transaction does not report what its body does".into());
        }
        if seen != f {
            return Err("a transaction's body does not work on a copy of the collection".into());
        }
        if ok {
            merged(&m, &f, &now)?;
        } else if now != m {
            return Err(format!("a failed transaction changes a collection :: {m:?} -> {now:?}"));
        }
        m = now;
        // forking changes nothing
        let _ = if shared { rc.fork() } else { c.fork() };
        ep.hit(if ok { "collections merged" } else { "failed transactions on collections" });
    }
    Ok(())
}

/// Several at the same time on one collection.
fn together<C: Coll>(ep: &mut Ep, set: bool) -> EpResult {
    let mut c = C::empty();
    for _ in 0..ep.rng.gen_range(0..6) {
        c.put(ep.rng.gen_range(0..12), ep.rng.gen());
    }
    let start = c.look();
    let trunk = Arc::new(Mutex::new(c));
    let bodies: Vec<(Vec<Do>, bool)> = (0..ep.rng.gen_range(2..5)).map(|_| body(ep)).collect();
    let ends: Vec<RefCell<Option<BTreeMap<u8, u8>>>> = bodies.iter().map(|_| RefCell::new(None)).collect();
    let bad = Cell::new(None);
    let mut s = Sched::new();
    for (i, (ops, ok)) in bodies.iter().enumerate() {
        let (trunk, ends, bad) = (&trunk, &ends, &bad);
        s.spawn(async move {
            let r = transact_async(trunk, async |mut f: C| {
                let mut m = f.look();
                for d in ops {
                    apply(&mut f, d);
                    model(&mut m, d, set);
                    YieldNow(false).await;
                }
                if f.look() != m {
                    bad.set(Some("a transaction's body does not have its copy to itself"));
                }
                *ends[i].borrow_mut() = Some(m);
                if *ok { Ok(f) } else { Err("NOPE") }
            })
            .await;
            if r.is_ok() != *ok {
                bad.set(Some("a transaction does not report what its body does"));
            }
        });
    }
    let r = s.run(&mut ep.rng);
    if r.is_err() {
        return Err("transactions block each other forever".into());
    }
    let h = s.trace_hash;
    drop(s);
    ep.step(format!("{bodies:?} {h}"));
    if let Some(b) = bad.get() {
        return Err(b.into());
    }
    let mut all = vec![start];
    for (e, (_, ok)) in ends.iter().zip(&bodies) {
        if *ok {
            all.push(e.borrow().clone().unwrap());
        }
    }
    let now = block_on(async { trunk.lock().await.look() });
    let keys: BTreeSet<u8> = all.iter().flat_map(|m| m.keys().copied()).collect();
    if now.keys().copied().collect::<BTreeSet<_>>() != keys || now.iter().any(|(k, v)| !all.iter().any(|m| m.get(k) == Some(v))) {
        return Err(format!("transactions at the same time lose or invent something :: {all:?} -> {now:?}"));
    }
    // by hand
    let f = block_on(trunk.fork_async());
    let g = f.look();
    block_on(trunk.merge_async(f));
    if g != now || block_on(async { trunk.lock().await.look() }) != now {
        return Err("merging an untouched fork changes a collection".into());
    }
    ep.hit("collections with transactions at the same time");
    Ok(())
}

pub fn collections(ep: &mut Ep) -> EpResult {
    match ep.rng.gen_range(0..3) {
        0 => blocking::<HashSet<u8>>(ep, true),
        1 => blocking::<HashMap<u8, u8>>(ep, false),
        _ => blocking::<CaMap<u8>>(ep, true),
    }?;
    match ep.rng.gen_range(0..3) {
        0 => together::<HashSet<u8>>(ep, true),
        1 => together::<HashMap<u8, u8>>(ep, false),
        _ => together::<CaMap<u8>>(ep, true),
    }?;
    ep.nontrivial = true;
    Ok(())
}
