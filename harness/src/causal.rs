//! Causal decryption and the ciphertext store.
use crate::check::{Ep, EpResult};
use crate::content::{encrypt, retag, Enc};
use crate::rt::*;
use crate::world::*;
use beekem::{encrypted::EncryptedContent, operation::CgkaOperation};
use future_form::{FutureForm, Sendable};
use keyhive_core::crypto::envelope::Envelope;
use keyhive_core::store::ciphertext::{CausalDecryptionState, CiphertextStore, CiphertextStoreExt};
use keyhive_crypto::{digest::Digest, signed::Signed, siv::Siv, symmetric_key::SymmetricKey};
use rand::seq::SliceRandom;
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

type OpHash = Digest<Signed<CgkaOperation>>;
type Env = Envelope<Ref, Vec<u8>>;

/// A store that fails to fetch, or to mark, some references.
#[derive(Clone)]
struct Flaky {
    inner: Store,
    failing: Arc<Mutex<BTreeSet<Ref>>>,
    unmarkable: Arc<Mutex<BTreeSet<Ref>>>,
    marked: Arc<Mutex<Vec<Ref>>>,
}

impl CiphertextStore<Sendable, Ref, Vec<u8>> for Flaky {
    type GetCiphertextError = String;
    type MarkDecryptedError = String;
    fn get_ciphertext<'a>(&'a self, id: &'a Ref) -> <Sendable as FutureForm>::Future<'a, Result<Option<Arc<Enc>>, String>> {
        Sendable::from_future(async move {
            if self.failing.lock().unwrap().contains(id) {
                return Err("injected".into());
            }
            Ok(self.inner.get_by_content_ref(id).await)
        })
    }
    fn get_ciphertext_by_pcs_update<'a>(&'a self, op: &'a OpHash) -> <Sendable as FutureForm>::Future<'a, Result<Vec<Arc<Enc>>, String>> {
        Sendable::from_future(async move { Ok(self.inner.get_by_pcs_update(op).await) })
    }
    fn mark_decrypted<'a>(&'a self, id: &'a Ref) -> <Sendable as FutureForm>::Future<'a, Result<(), String>> {
        Sendable::from_future(async move {
            if self.unmarkable.lock().unwrap().contains(id) {
                return Err("injected".into());
            }
            self.marked.lock().unwrap().push(*id);
            self.inner.remove_all(id).await;
            Ok(())
        })
    }
}

struct Node {
    r: Ref,
    plain: Vec<u8>,
    key: SymmetricKey,
    /// Ancestor and the key claimed for it.
    edges: BTreeMap<Ref, SymmetricKey>,
    enc: Enc,
    /// Decrypts with its key to an envelope.
    good: bool,
    present: bool,
    fails: bool,
}

/// What must come of starting from these references and keys.
#[derive(Default)]
struct Want {
    complete: BTreeSet<Ref>,
    /// Keys known for what is not in the store.
    next: BTreeMap<Ref, Vec<SymmetricKey>>,
    /// Tried and not decrypted.
    cannot: BTreeSet<Ref>,
}

fn expect(nodes: &BTreeMap<Ref, Node>, starts: &[(Ref, SymmetricKey)]) -> Want {
    let mut w = Want::default();
    let mut todo: Vec<(Ref, SymmetricKey)> = starts.to_vec();
    let mut tried = BTreeSet::new();
    while let Some((r, k)) = todo.pop() {
        let n = &nodes[&r];
        if n.key != k || !n.good {
            tried.insert(r);
            continue;
        }
        if !w.complete.insert(r) {
            continue;
        }
        for (a, ak) in &n.edges {
            match nodes.get(a) {
                Some(m) if m.fails => {
                    tried.insert(*a);
                    w.next.entry(*a).or_default().push(*ak);
                }
                Some(m) if m.present => todo.push((*a, *ak)),
                _ => w.next.entry(*a).or_default().push(*ak),
            }
        }
    }
    let done = w.complete.clone();
    w.next.retain(|r, _| !done.contains(r));
    w.cannot = tried.difference(&done).copied().collect();
    w
}

fn compare(ep: &mut Ep, w: &Want, nodes: &BTreeMap<Ref, Node>, got: &CausalDecryptionState<Ref, Vec<u8>>, cannot: &BTreeSet<Ref>) -> EpResult {
    let mut seen = BTreeSet::new();
    for (r, p) in &got.complete {
        if !seen.insert(*r) {
            return Err("a content is decrypted more than once in one call".into());
        }
        if !w.complete.contains(r) {
            return Err("something is decrypted that no readable content leads to".into());
        }
        if nodes[r].plain != *p {
            return Err("a content is attributed another content's plaintext".into());
        }
        if got.keys.get(r) != Some(&nodes[r].key) {
            return Err("the key that decrypted a content is not reported".into());
        }
    }
    ep.add("contents recovered", seen.len() as u64);
    if let Some(r) = w.complete.difference(&seen).next() {
        return Err(format!("a stored content that a readable one leads to is not decrypted :: {}", hx(r)));
    }
    for (r, ks) in &w.next {
        match got.next.get(r) {
            Some(k) if ks.contains(k) => ep.hit("keys of missing contents reported"),
            Some(_) => return Err("a wrong key is reported for a missing content".into()),
            None => return Err(format!("the key of a content that could not be fetched is lost :: {}", hx(r))),
        }
    }
    for r in got.next.keys() {
        if !w.next.contains_key(r) {
            return Err(format!("a content is reported as not fetched that was decrypted, or that nothing leads to :: {}", hx(r)));
        }
    }
    if *cannot != w.cannot {
        return Err(format!(
            "the contents reported as undecryptable are not those that are :: reported {:?} want {:?}",
            cannot.iter().map(|r| hx(r)).collect::<Vec<_>>(),
            w.cannot.iter().map(|r| hx(r)).collect::<Vec<_>>()
        ));
    }
    ep.add("undecryptable contents named", cannot.len() as u64);
    Ok(())
}

fn bytes(ep: &mut Ep) -> Vec<u8> {
    let n = [0, 1, 7, 64, 300][ep.rng.gen_range(0..5)];
    (0..n).map(|_| ep.rng.gen()).collect()
}

fn seal(key: &SymmetricKey, r: Ref, op: OpHash, plain: &[u8]) -> Enc {
    let nonce = Siv::new(key, plain, b"doc");
    let mut b = plain.to_vec();
    key.try_encrypt(nonce, &mut b).expect("encrypt");
    EncryptedContent::new(nonce, b, Digest::from([1; 32]), op, r, Digest::from([2; 32]))
}

/// A random graph of linked contents, partly missing, unfetchable or broken.
pub fn graph(ep: &mut Ep) -> EpResult {
    let m = [4, 8, 20][ep.rng.gen_range(0..3)];
    let n = ep.rng.gen_range(1..=m);
    let refs: Vec<Ref> = (0..n).map(|_| ep.rng.gen()).collect();
    let keys: Vec<SymmetricKey> = (0..n).map(|_| SymmetricKey::from(ep.rng.gen::<[u8; 32]>())).collect();
    let wrong = ep.rng.gen_bool(0.5);
    let broken = ep.rng.gen_bool(0.5);
    let missing = ep.rng.gen_bool(0.6);
    let failing = ep.rng.gen_bool(0.4);
    let cyclic = ep.rng.gen_bool(0.2);
    let density = [0.15, 0.4, 0.9][ep.rng.gen_range(0..3)];
    let mut nodes: BTreeMap<Ref, Node> = BTreeMap::new();
    for i in 0..n {
        let mut edges = BTreeMap::new();
        for j in 0..n {
            if j < i && ep.rng.gen_bool(density) || cyclic && ep.rng.gen_bool(0.1) {
                let k = if wrong && ep.rng.gen_bool(0.3) { SymmetricKey::from(ep.rng.gen::<[u8; 32]>()) } else { keys[j] };
                edges.insert(refs[j], k);
            }
        }
        let plain = bytes(ep);
        let env = Env { plaintext: plain.clone(), ancestors: edges.iter().map(|(a, b)| (*a, *b)).collect::<HashMap<_, _>>() };
        let mut body = bincode::serialize(&env).expect("envelope");
        let mut good = true;
        let breakage = if broken && ep.rng.gen_bool(0.25) { ep.rng.gen_range(1..4) } else { 0 };
        if breakage == 1 {
            body = vec![0xff; ep.rng.gen_range(0..12)];
            good = false;
        }
        let op = Digest::from([ep.rng.gen_range(0..4u8); 32]);
        let mut enc = seal(&keys[i], refs[i], op, &body);
        if breakage == 2 {
            let k = ep.rng.gen_range(0..enc.ciphertext.len());
            enc.ciphertext[k] ^= 1;
            good = false;
        }
        if breakage == 3 {
            enc.ciphertext.truncate(ep.rng.gen_range(0..16));
            good = false;
        }
        if !good {
            ep.hit("broken contents");
        }
        let present = !(missing && ep.rng.gen_bool(0.3));
        let fails = failing && ep.rng.gen_bool(0.2);
        nodes.insert(refs[i], Node { r: refs[i], plain, key: keys[i], edges, enc, good, present, fails });
    }
    let unmarkable: BTreeSet<Ref> = if ep.rng.gen_bool(0.3) { refs.iter().filter(|_| ep.rng.gen_bool(0.25)).copied().collect() } else { BTreeSet::new() };
    let store = Flaky { inner: Store::new(), failing: Default::default(), unmarkable: Arc::new(Mutex::new(unmarkable.clone())), marked: Default::default() };
    for x in nodes.values() {
        if x.present {
            block_on(store.inner.insert(Arc::new(x.enc.clone())));
        }
        if x.fails {
            store.failing.lock().unwrap().insert(x.r);
        }
    }
    ep.step(format!("{n} contents, {} edges, {} missing, {} unfetchable, {} broken", nodes.values().map(|x| x.edges.len()).sum::<usize>(), nodes.values().filter(|x| !x.present).count(), nodes.values().filter(|x| x.fails).count(), nodes.values().filter(|x| !x.good).count()));

    let mut starts: Vec<(Ref, SymmetricKey)> = vec![];
    for _ in 0..ep.rng.gen_range(1..=2) {
        let i = if ep.rng.gen_bool(0.7) { n - 1 } else { ep.rng.gen_range(0..n) };
        let k = if wrong && ep.rng.gen_bool(0.1) { SymmetricKey::from(ep.rng.gen::<[u8; 32]>()) } else { keys[i] };
        starts.push((refs[i], k));
    }
    // everything ever recovered
    let mut known: BTreeMap<Ref, u32> = BTreeMap::new();
    let mut left: BTreeMap<Ref, SymmetricKey> = BTreeMap::new();
    let firsts: BTreeSet<Ref> = starts.iter().map(|x| x.0).collect();
    for round in 0..4 {
        let mut want = expect(&nodes, &starts);
        for r in want.complete.clone().intersection(&unmarkable) {
            want.cannot.insert(*r);
            ep.hit("contents that could not be marked");
        }
        let mut input: Vec<(Arc<Enc>, SymmetricKey)> = starts.iter().map(|(r, k)| (Arc::new(nodes[r].enc.clone()), *k)).collect();
        store.marked.lock().unwrap().clear();
        let res = block_on(CiphertextStoreExt::<Sendable, Ref, Vec<u8>>::try_causal_decrypt(&store, &mut input));
        ep.hit("causal decryptions");
        let (got, cannot) = match res {
            Ok(s) => (s, BTreeSet::new()),
            Err(e) => {
                if e.cannot.is_empty() {
                    return Err("an error that names nothing".into());
                }
                (e.progress, e.cannot.into_keys().collect())
            }
        };
        compare(ep, &want, &nodes, &got, &cannot)?;
        let mut marked = store.marked.lock().unwrap().clone();
        marked.sort();
        if marked != want.complete.difference(&unmarkable).copied().collect::<Vec<_>>() {
            return Err("what is marked as decrypted is not what was decrypted".into());
        }
        for (r, _) in &got.complete {
            *known.entry(*r).or_default() += 1;
            if !unmarkable.contains(r) {
                nodes.get_mut(r).unwrap().present = false;
            }
            left.remove(r);
        }
        for (r, k) in got.next {
            if !known.contains_key(&r) {
                left.insert(r, k);
            }
        }
        for x in nodes.values() {
            let has = block_on(store.inner.get_by_content_ref(&x.r));
            if x.present != has.is_some() {
                return Err("the store lost a content, or kept one that was decrypted".into());
            }
        }
        if left.is_empty() {
            break;
        }
        // some of what was missing arrives, and fetching works again
        let last = round == 2;
        for x in nodes.values_mut() {
            if left.contains_key(&x.r) || !known.contains_key(&x.r) {
                if (last || ep.rng.gen_bool(0.5)) && !x.present {
                    x.present = true;
                    block_on(store.inner.insert(Arc::new(x.enc.clone())));
                }
                if last || ep.rng.gen_bool(0.5) {
                    x.fails = false;
                    store.failing.lock().unwrap().remove(&x.r);
                }
            }
        }
        ep.step(format!("round {round}: {} recovered, {} keys left over", known.len(), left.len()));
        starts = left.iter().filter(|(r, _)| nodes[*r].present && !nodes[*r].fails).map(|(r, k)| (*r, *k)).collect();
        if starts.is_empty() {
            continue;
        }
        ep.hit("continuations from reported keys");
    }
    if let Some((r, _)) = known.iter().find(|(r, n)| **n > 1 && !firsts.contains(*r) && !unmarkable.contains(*r)) {
        return Err(format!("a content is decrypted again :: {}", hx(r)));
    }
    ep.nontrivial = known.len() > 2;
    Ok(())
}

/// Random operations on the in-memory store against a list.
pub fn store_model(ep: &mut Ep) -> EpResult {
    let s = Store::new();
    let mut model: Vec<Enc> = vec![];
    let refs: Vec<Ref> = (0..ep.rng.gen_range(1..5)).map(|_| ep.rng.gen()).collect();
    let ops: Vec<OpHash> = (0..ep.rng.gen_range(1..4)).map(|_| Digest::from(ep.rng.gen::<[u8; 32]>())).collect();
    for _ in 0..ep.rng.gen_range(4..40) {
        match ep.rng.gen_range(0..10) {
            0..=4 => {
                let (r, o) = (*refs.choose(&mut ep.rng).unwrap(), *ops.choose(&mut ep.rng).unwrap());
                let e = if !model.is_empty() && ep.rng.gen_bool(0.2) {
                    model.choose(&mut ep.rng).unwrap().clone()
                } else {
                    EncryptedContent::new(Siv::from(ep.rng.gen::<[u8; 24]>()), bytes(ep), Digest::from([0; 32]), o, r, Digest::from([0; 32]))
                };
                ep.step("insert");
                if ep.rng.gen() {
                    block_on(s.insert(Arc::new(e.clone())));
                } else {
                    block_on(s.insert_raw(e.clone()));
                }
                if !model.contains(&e) {
                    model.push(e);
                }
            }
            5..=6 => {
                let e = if !model.is_empty() && ep.rng.gen_bool(0.8) { model.choose(&mut ep.rng).unwrap().clone() } else { EncryptedContent::new(Siv::from([0; 24]), vec![9], Digest::from([0; 32]), ops[0], refs[0], Digest::from([0; 32])) };
                ep.step("remove");
                let got = block_on(s.remove(&Digest::hash(&e)));
                if got.as_deref() != model.iter().find(|x| **x == e) {
                    return Err("removing a ciphertext does not return it if and only if it is stored".into());
                }
                model.retain(|x| *x != e);
            }
            7 => {
                let r = *refs.choose(&mut ep.rng).unwrap();
                ep.step("remove all");
                let had = model.iter().any(|x| x.content_ref == r);
                if block_on(s.remove_all(&r)) != had {
                    return Err("removing a content's ciphertexts does not tell whether there were any".into());
                }
                model.retain(|x| x.content_ref != r);
            }
            _ => {}
        }
        for r in &refs {
            let got = block_on(s.get_by_content_ref(r));
            let mut all: Vec<&Enc> = model.iter().filter(|x| x.content_ref == *r).collect();
            all.sort_by_key(|x| x.ciphertext.len());
            ep.hit("lookups by reference");
            match (got, all.last()) {
                (None, None) => {}
                (Some(g), Some(l)) => {
                    if !all.contains(&g.as_ref()) {
                        return Err("looking up a reference yields a ciphertext that is not stored under it".into());
                    }
                    if g.ciphertext.len() != l.ciphertext.len() {
                        return Err("looking up a reference does not yield the largest ciphertext".into());
                    }
                }
                (Some(_), None) => return Err("looking up a reference yields something that was removed".into()),
                (None, Some(_)) => return Err("a stored ciphertext is not found by its reference".into()),
            }
        }
        for o in &ops {
            let mut got: Vec<Vec<u8>> = block_on(s.get_by_pcs_update(o)).iter().map(|e| bincode::serialize(e.as_ref()).unwrap()).collect();
            let mut want: Vec<Vec<u8>> = model.iter().filter(|x| x.pcs_update_op_hash == *o).map(|e| bincode::serialize(e).unwrap()).collect();
            got.sort();
            want.sort();
            ep.hit("lookups by update");
            if got != want {
                return Err(format!("looking up an update does not yield exactly the ciphertexts stored under it :: {} for {}", got.len(), want.len()));
            }
        }
    }
    ep.nontrivial = model.len() > 1;
    Ok(())
}

/// Whole replicas: a later reader gets a document's history from its head.
pub fn documents(ep: &mut Ep) -> EpResult {
    let n = ep.rng.gen_range(2..5);
    let mut w = World::new(ep, n);
    w.introduce_all();
    let d = w.new_doc(0, vec![])?;
    let mut nodes: BTreeMap<Ref, Node> = BTreeMap::new();
    let mut order: Vec<Ref> = vec![];
    let mut readers: BTreeMap<Ref, BTreeSet<keyhive_core::principal::identifier::Identifier>> = BTreeMap::new();
    for _ in 0..ep.rng.gen_range(6..22) {
        let p = ep.rng.gen_range(0..n);
        if w.membered(p, d).is_none() {
            continue;
        }
        match ep.rng.gen_range(0..10) {
            0..=2 => {
                let q = ep.rng.gen_range(0..n);
                let can = acc(ep.rng.gen_range(1..4));
                let t = w.peers[q].id;
                let s = crate::mem::add(&mut w, ep, p, d, t, can);
                ep.step(format!("p{p}: {s}"));
            }
            3 => {
                let q = ep.rng.gen_range(1..n);
                let t = w.peers[q].id;
                let s = crate::mem::revoke(&mut w, ep, p, d, t, true);
                ep.step(format!("p{p}: {s}"));
            }
            _ => {
                let mut edges = BTreeMap::new();
                for r in &order {
                    if ep.rng.gen_bool(0.6) {
                        edges.insert(*r, nodes[r].key);
                    }
                }
                let plain = bytes(ep);
                let env = Env { plaintext: plain.clone(), ancestors: edges.iter().map(|(a, b)| (*a, *b)).collect::<HashMap<_, _>>() };
                let body = bincode::serialize(&env).expect("envelope");
                if let Some(it) = encrypt(&mut w, ep, p, d, edges.keys().copied().collect(), body, false)? {
                    ep.step(format!("p{p}: writes {} after {}", hx(&it.enc.content_ref), edges.len()));
                    let r = it.enc.content_ref;
                    order.push(r);
                    let unsure = it.unsure;
                    readers.insert(r, it.readers.into_iter().filter(|x| Some(*x) != unsure).collect());
                    nodes.insert(r, Node { r, plain, key: it.key, edges, enc: it.enc, good: true, present: false, fails: false });
                }
            }
        }
        for q in 0..n {
            w.deliver_missing(ep, q, false);
        }
    }
    for q in 0..n {
        let Some(doc) = w.doc(q, d) else { continue };
        let some = ep.rng.gen_bool(0.5);
        for x in nodes.values_mut() {
            x.present = !some || ep.rng.gen_bool(0.7);
            if x.present {
                block_on(w.peers[q].store.insert(Arc::new(x.enc.clone())));
            }
        }
        for _ in 0..2 {
            let recent = order.len() - order.len().min(4);
            let Some(h) = order[recent..].choose(&mut ep.rng).copied() else { continue };
            if !readers[&h].contains(&w.peers[q].id) {
                continue;
            }
            // the head itself is not part of the result
            let head = &nodes[&h];
            let starts: Vec<(Ref, SymmetricKey)> = head.edges.iter().filter(|(a, _)| nodes[*a].present).map(|(a, k)| (*a, *k)).collect();
            let mut want = expect(&nodes, &starts);
            for (a, k) in &head.edges {
                if !nodes[a].present {
                    want.next.entry(*a).or_default().push(*k);
                }
            }
            let (got, cannot) = match block_on(w.peers[q].kh.try_causal_decrypt_content(doc.clone(), &retag(&head.enc))) {
                Ok(s) => (s, BTreeSet::new()),
                Err(e) => return Err(format!("a reader cannot causally decrypt: {e}")),
            };
            ep.hit("causal decryptions by replicas");
            compare(ep, &want, &nodes, &got, &cannot)?;
            for r in &want.complete {
                if !readers[r].contains(&w.peers[q].id) {
                    ep.hit("contents recovered from before the reader was added");
                }
                nodes.get_mut(r).unwrap().present = false;
            }
            ep.nontrivial |= want.complete.len() > 1;
        }
        for x in nodes.values() {
            if block_on(w.peers[q].store.get_by_content_ref(&x.r)).is_some() != x.present {
                return Err("the store lost a content, or kept one that was decrypted".into());
            }
        }
    }
    Ok(())
}
