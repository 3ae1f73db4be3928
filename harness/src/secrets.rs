//! What stays secret, and that keys are fresh: whole replicas whose random
//! draws, published bytes, debug output and traces are all recorded.
use crate::check::{Ep, EpResult};
use crate::content::*;
use crate::mem::*;
use crate::rt::*;
use crate::world::*;
use beekem::operation::CgkaOperation;
use beekem::secret_store::SecretStoreVersion;
use keyhive_core::crypto::envelope::Envelope;
use keyhive_core::principal::identifier::Identifier;
use keyhive_core::store::ciphertext::CiphertextStore;
use keyhive_crypto::digest::Digest;
use keyhive_crypto::share_key::{ShareKey, ShareSecretKey};
use rand::seq::SliceRandom;
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex};
use tracing::field::{Field, Visit};
use tracing::span;

/// Keeps every text a trace carries.
#[derive(Clone, Default)]
pub struct Traces(Arc<Mutex<TracesInner>>);
#[derive(Default)]
struct TracesInner {
    texts: HashSet<String>,
    spans: u64,
    events: u64,
}
impl Visit for TracesInner {
    fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
        let _ = f;
        self.texts.insert(format!("{v:?}"));
    }
    fn record_str(&mut self, _: &Field, v: &str) {
        self.texts.insert(v.to_string());
    }
}
impl tracing::Subscriber for Traces {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        ["keyhive", "beekem"].iter().any(|p| m.target().starts_with(p))
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        let mut t = self.0.lock().unwrap();
        t.spans += 1;
        let n = t.spans;
        a.record(&mut *t);
        span::Id::from_u64(n)
    }
    fn record(&self, _: &span::Id, r: &span::Record<'_>) {
        r.record(&mut *self.0.lock().unwrap());
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut t = self.0.lock().unwrap();
        t.events += 1;
        e.record(&mut *t);
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

/// Eight bytes of some secret, and whose.
#[derive(Default)]
struct Needles(HashMap<[u8; 8], &'static str>);
impl Needles {
    fn add(&mut self, what: &'static str, b: &[u8]) {
        for c in b.chunks_exact(8) {
            let c: [u8; 8] = c.try_into().unwrap();
            if c.iter().collect::<BTreeSet<_>>().len() > 4 {
                self.0.insert(c, what);
            }
        }
    }
    fn bytes(&self, b: &[u8]) -> Option<&'static str> {
        b.windows(8).find_map(|w| self.0.get(w).copied())
    }
    /// The text itself, and the byte strings it spells in decimal or hexadecimal.
    fn text(&self, s: &str) -> Option<&'static str> {
        if let Some(x) = self.bytes(s.as_bytes()) {
            return Some(x);
        }
        let (mut dec, mut hex): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
        for t in s.split(|c: char| !c.is_ascii_alphanumeric()) {
            if t.is_empty() {
                continue;
            }
            let h = t.strip_prefix("0x").unwrap_or(t);
            if h.len() >= 16 && h.bytes().all(|c| c.is_ascii_hexdigit()) {
                for o in 0..2 {
                    let b: Vec<u8> = h.as_bytes()[o..].chunks_exact(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
                    if let Some(x) = self.bytes(&b) {
                        return Some(x);
                    }
                }
            }
            for (v, n) in [(&mut dec, t.parse::<u8>().ok()), (&mut hex, (h.len() <= 2).then(|| u8::from_str_radix(h, 16).ok()).flatten())] {
                match n {
                    Some(n) => v.push(n),
                    None => {
                        if let Some(x) = self.bytes(v) {
                            return Some(x);
                        }
                        v.clear();
                    }
                }
            }
        }
        self.bytes(&dec).or(self.bytes(&hex))
    }
}

/// What the script wrote, and what it was told.
#[derive(Default)]
struct Run {
    items: Vec<Item>,
    cards: Vec<Vec<u8>>,
    /// Everything else the replicas said: errors.
    said: Vec<String>,
    archives: Vec<(String, Vec<u8>)>,
    /// (writer, content reference, predecessors) of every item.
    tuples: Vec<(usize, Ref, Vec<Ref>)>,
}

fn text(ep: &mut Ep) -> Vec<u8> {
    let n = [0, 1, 16, 24, 40, 64, 200][ep.rng.gen_range(0..7)];
    if ep.rng.gen_bool(0.4) {
        (0..n).map(|_| b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ "[ep.rng.gen_range(0..53)]).collect()
    } else {
        (0..n).map(|_| ep.rng.gen()).collect()
    }
}

fn envelope(b: &[u8]) -> Option<Envelope<Ref, Vec<u8>>> {
    let e: Envelope<Ref, Vec<u8>> = bincode::deserialize(b).ok()?;
    (bincode::serialize(&e).ok()?.len() == b.len()).then_some(e)
}

/// Encrypt with a reference, predecessors or text that may have been used before.
fn write(w: &mut World, ep: &mut Ep, p: usize, d: Identifier, run: &mut Run) -> EpResult {
    let Some(doc) = w.doc(p, d) else { return Ok(()) };
    let mut r = w.fresh_ref();
    let mut preds: Vec<Ref> = run.items.iter().map(|i| i.enc.content_ref).collect();
    preds.shuffle(&mut ep.rng);
    preds.truncate(ep.rng.gen_range(0..3));
    let mut plain = text(ep);
    if !run.items.is_empty() {
        let i = ep.rng.gen_range(0..run.items.len());
        if ep.rng.gen_bool(0.3) {
            r = run.items[i].enc.content_ref;
            ep.hit("references used again");
            if ep.rng.gen_bool(0.6) {
                preds = run.tuples[i].2.clone();
                ep.hit("references used again with the same predecessors");
            }
        }
        if ep.rng.gen_bool(0.4) {
            plain = run.items[i].plain.clone();
            if ep.rng.gen_bool(0.5) && !plain.is_empty() && envelope(&plain).is_none() {
                let k = ep.rng.gen_range(0..plain.len());
                plain[k] ^= 1;
            }
            ep.hit("texts used again");
        }
    }
    if ep.rng.gen_bool(0.3) {
        let ancestors = run.items.iter().filter(|i| i.doc == d && preds.contains(&i.enc.content_ref)).map(|i| (i.enc.content_ref, i.key)).collect();
        plain = bincode::serialize(&Envelope { plaintext: plain, ancestors }).unwrap();
    }
    let res = block_on(w.peers[p].kh.try_encrypt_content_keyed(doc, &r, &preds, &plain));
    w.collect(p);
    match res {
        Ok((out, key)) => {
            ep.step(format!("p{p}: encrypt for {}", w.name(&d)));
            ep.hit("encryptions");
            let enc: Enc = retag(out.encrypted_content());
            run.tuples.push((p, r, preds));
            if ep.rng.gen() {
                let q = ep.rng.gen_range(0..w.peers.len());
                block_on(w.peers[q].store.insert(Arc::new(enc.clone())));
            }
            run.items.push(Item { doc: d, by: p, plain, enc, key, readers: BTreeSet::new(), unsure: None });
        }
        Err(e) => run.said.push(format!("{e} {e:?}")),
    }
    Ok(())
}

fn go(ep: &mut Ep, w: &mut World) -> Result<Run, String> {
    let c = Cfg { peers: w.peers.len(), ents: ep.rng.gen_range(1..4), steps: ep.rng.gen_range(8..24), via: false, revoke: true, nest: ep.rng.gen_bool(0.5), docs: true, offer: false, sync: 30 };
    let mut run = Run::default();
    for i in 0..c.peers {
        for j in 0..c.peers {
            if i == j {
                continue;
            }
            if ep.rng.gen_bool(0.5) {
                let card = if ep.rng.gen() { block_on(w.peers[i].kh.contact_card()).map_err(|e| format!("contact_card: {e}"))? } else { block_on(w.peers[i].kh.get_existing_contact_card()) };
                run.cards.push(bincode::serialize(&card).unwrap());
                run.said.push(format!("{card:?}"));
                block_on(w.peers[j].kh.receive_contact_card(&card)).map_err(|e| format!("a contact card is refused: {e}"))?;
            } else {
                w.introduce(i, j);
            }
        }
    }
    for i in 0..c.peers {
        w.collect(i);
    }
    for _ in 0..c.steps {
        if let Some(x) = w.complaints.pop() {
            return Err(x);
        }
        let p = ep.rng.gen_range(0..c.peers);
        let docs: Vec<Identifier> = w.ents.iter().filter(|e| e.kind == Kind::Doc).map(|e| e.id).filter(|d| w.doc(p, *d).is_some()).collect();
        match ep.rng.gen_range(0..100) {
            0..=34 if !docs.is_empty() => {
                let d = *docs.choose(&mut ep.rng).unwrap();
                write(w, ep, p, d, &mut run)?;
            }
            35..=41 if !docs.is_empty() => {
                let d = *docs.choose(&mut ep.rng).unwrap();
                let doc = w.doc(p, d).unwrap();
                if let Err(e) = block_on(w.peers[p].kh.force_pcs_update(doc)) {
                    run.said.push(format!("{e} {e:?}"));
                } else {
                    ep.hit("key rotations");
                }
                w.collect(p);
                ep.step(format!("p{p}: rotate the key of {}", w.name(&d)));
            }
            42..=47 => {
                let old = block_on(async { w.peers[p].kh.individual().await.lock().await.prekey_ops().values().map(|o| *o.new_key()).collect::<Vec<_>>() });
                if ep.rng.gen() {
                    let _ = block_on(w.peers[p].kh.expand_prekeys());
                } else if let Some(k) = old.choose(&mut ep.rng) {
                    let _ = block_on(w.peers[p].kh.rotate_prekey(*k));
                }
                w.collect(p);
                ep.step(format!("p{p}: new prekey"));
            }
            48..=62 => {
                let q = ep.rng.gen_range(0..c.peers);
                let mut miss: Vec<H> = w.all.iter().map(|(h, _)| *h).filter(|h| !w.peers[p].has.contains(h) && w.peers[q].has.contains(h)).collect();
                if !miss.is_empty() {
                    ep.step(format!("p{q} -> p{p}: {} events", miss.len()));
                    w.deliver_set(ep, p, &mut miss, true);
                }
            }
            63..=67 => {
                crate::archive::restart(w, ep, p)?;
                let a = block_on(w.peers[p].kh.into_archive());
                run.archives.push((format!("{a:?}"), bincode::serialize(&a).unwrap()));
            }
            68..=75 if !run.items.is_empty() => {
                let it = run.items.choose(&mut ep.rng).unwrap().clone();
                let e = if ep.rng.gen() { it.enc.clone() } else { alter(ep, &it.enc, &run.items, &[]) };
                if let Some(d) = w.doc(p, it.doc) {
                    match block_on(w.peers[p].kh.try_decrypt_content(d, &e)) {
                        Ok(_) => ep.hit("reads"),
                        Err(e) => run.said.push(format!("{e} {e:?}")),
                    }
                }
            }
            76..=80 if !run.items.is_empty() => {
                let it = run.items.choose(&mut ep.rng).unwrap().clone();
                if let Some(d) = w.doc(p, it.doc) {
                    match block_on(w.peers[p].kh.try_causal_decrypt_content(d, &it.enc)) {
                        Ok(_) => ep.hit("causal decryptions"),
                        Err(e) => run.said.push(format!("{e}")),
                    }
                }
            }
            81..=84 => {
                // a transaction
                use keyhive_core::transact::{fork::ForkAsync, merge::MergeAsync};
                let trunk = Arc::new(futures::lock::Mutex::new(w.peers[p].kh.clone()));
                let f: crate::archive::Fk = block_on(trunk.fork_async());
                let (mut ents, mut written) = (vec![], vec![]);
                for _ in 0..ep.rng.gen_range(1..5) {
                    let s = crate::archive::fork_act(w, ep, p, &f, &mut ents, &mut written);
                    ep.step(format!("p{p} in a transaction: {s}"));
                    if !docs.is_empty() && ep.rng.gen_bool(0.3) {
                        // and beside it
                        let d = *docs.choose(&mut ep.rng).unwrap();
                        write(w, ep, p, d, &mut run)?;
                    }
                }
                run.said.push(format!("{f:?}"));
                let r = crate::archive::fork_replica(w, p, &f);
                let theirs: Vec<Ev> = crate::listener::holdings(w, r).into_values().collect();
                w.peers.pop();
                block_on(trunk.merge_async(f));
                w.ents.extend(ents);
                w.collect(p);
                for e in theirs {
                    w.publish(p, e);
                }
                for i in written {
                    run.tuples.push((p, i.enc.content_ref, vec![]));
                    run.items.push(i);
                    ep.hit("encryptions in transactions");
                }
                ep.hit("transactions");
            }
            _ => {
                let s = act(w, ep, &c, p);
                if !s.ends_with("idle") {
                    ep.step(s);
                }
            }
        }
    }
    if outside_via(w) {
        for p in 0..w.peers.len() {
            w.deliver_missing(ep, p, true);
        }
        return Ok(run);
    }
    settle(w, ep)?;
    for d in w.ents.iter().filter(|e| e.kind == Kind::Doc).map(|e| e.id).collect::<Vec<_>>() {
        for p in 0..w.peers.len() {
            if ep.rng.gen() {
                write(w, ep, p, d, &mut run)?;
            }
        }
    }
    for p in 0..w.peers.len() {
        w.deliver_missing(ep, p, false);
    }
    for it in &run.items {
        for q in 0..w.peers.len() {
            if let Some(d) = w.doc(q, it.doc) {
                match block_on(w.peers[q].kh.try_decrypt_content_keyed(d, &it.enc)) {
                    Ok((p, k)) if p != it.plain || k != it.key => return Err("decryption yields something else than was encrypted".into()),
                    Ok(_) => ep.hit("reads"),
                    Err(e) => run.said.push(format!("{e} {e:?}")),
                }
            }
        }
    }
    for p in 0..w.peers.len() {
        let a = block_on(w.peers[p].kh.into_archive());
        run.archives.push((format!("{a:?}"), bincode::serialize(&a).unwrap()));
    }
    ep.nontrivial = run.items.len() > 1;
    Ok(run)
}

/// Nothing secret in anything published, printed or traced.
pub fn kept(ep: &mut Ep) -> EpResult {
    let traces = Traces::default();
    let guard = tracing::subscriber::set_default(traces.clone());
    record_draws();
    let n = ep.rng.gen_range(2..5);
    let mut w = World::new(ep, n);
    let res = go(ep, &mut w);
    let draws = drawn();
    let run = res?;
    // what a replica and its parts print
    let mut said = run.said.clone();
    for p in 0..w.peers.len() {
        let kh = &w.peers[p].kh;
        said.push(format!("{kh:?} {kh:#?} {:?}", w.peers[p].signer));
        block_on(async {
            said.push(format!("{:?}", &*kh.active().lock().await));
            said.push(format!("{:?}", &*kh.individual().await.lock().await));
            for g in kh.groups().lock().await.values() {
                said.push(format!("{:?}", &*g.lock().await));
            }
            for d in kh.documents().lock().await.values() {
                let d = d.lock().await;
                said.push(format!("{:?}", &*d));
                if let Ok(c) = d.cgka() {
                    said.push(format!("{c:?} {c:#?}"));
                }
            }
        });
        for e in &w.ents {
            said.push(format!("{:?} {:?}", w.agent(p, e.id), w.membered(p, e.id)));
        }
    }
    // boxes that an application seals with keys of its own
    let mut boxes = vec![];
    for i in run.items.iter().take(3) {
        let b = i.key.try_seal(&i.plain, b"associated").map_err(|e| format!("try_seal: {e}"))?;
        if i.key.try_open(&b).ok().as_ref() != Some(&i.plain) {
            return Err("what is sealed does not open".into());
        }
        boxes.push(b);
    }
    drop(guard);
    // what is secret
    let mut all = Needles::default();
    let mut never_stored = Needles::default();
    let ids: BTreeSet<[u8; 32]> = w.names.keys().map(|i| i.to_bytes()).collect();
    let mut named = 0;
    for d in &draws {
        all.add("a random secret", d);
        if ids.contains(&ed25519_dalek::SigningKey::from_bytes(d).verifying_key().to_bytes()) {
            never_stored.add("a signing key", d);
            named += 1;
        }
    }
    if named < w.peers.len() + w.ents.len() {
        return Err(format!("HARNESS: only {named} of the signing keys were seen to be drawn"));
    }
    for p in 0..w.peers.len() {
        all.add("a signing key", &w.peers[p].signer.0.to_bytes());
        never_stored.add("a signing key", &w.peers[p].signer.0.to_bytes());
        for (k, s) in crate::archive::secrets(&w, p) {
            if !public_key(&k) {
                all.add("the secret of a prekey", &s);
            }
        }
        for e in &w.ents {
            if let Some(d) = w.doc(p, e.id) {
                let sks = block_on(async { d.lock().await.cgka().map(|c| bincode::serialize(c.owner_sks()).unwrap()) });
                let sks: BTreeMap<ShareKey, ShareSecretKey> = sks.ok().and_then(|b| bincode::deserialize(&b).ok()).unwrap_or_default();
                for (k, s) in sks {
                    if !public_key(k.as_bytes()) {
                        all.add("the secret of a key-agreement key", s.as_slice());
                        ep.hit("key-agreement secrets watched");
                    }
                }
            }
        }
    }
    for i in &run.items {
        all.add("the key of a content", i.key.as_slice());
        let plain = envelope(&i.plain).map(|e| e.plaintext).unwrap_or(i.plain.clone());
        all.add("a content", &plain);
        never_stored.add("the key of a content", i.key.as_slice());
        never_stored.add("a content", &plain);
    }
    // an envelope names other contents, which is no secret
    for i in &run.items {
        for c in i.enc.content_ref.windows(8) {
            all.0.remove(c);
            never_stored.0.remove(c);
        }
    }
    ep.add("secrets watched", all.0.len() as u64 / 4);
    // where it must not be
    for (_, e) in &w.all {
        if let Some(x) = all.bytes(&bincode::serialize(e).unwrap()) {
            return Err(format!("an operation contains {x} :: {}", w.show_ev(e)));
        }
        if let Some(x) = all.text(&format!("{e:?}")) {
            return Err(format!("an operation prints {x} :: {}", w.show_ev(e)));
        }
        ep.hit("operations searched");
    }
    for c in &run.cards {
        if let Some(x) = all.bytes(c) {
            return Err(format!("a contact card contains {x}"));
        }
        ep.hit("contact cards searched");
    }
    for i in &run.items {
        if let Some(x) = all.bytes(&bincode::serialize(&i.enc).unwrap()) {
            return Err(format!("a ciphertext contains {x}"));
        }
        ep.hit("ciphertexts searched");
    }
    for b in &boxes {
        if let Some(x) = all.bytes(b) {
            return Err(format!("a sealed box contains {x}"));
        }
    }
    for (printed, bytes) in &run.archives {
        if let Some(x) = never_stored.bytes(bytes) {
            return Err(format!("an archive contains {x}"));
        }
        if let Some(x) = all.text(printed) {
            return Err(format!("an archive prints {x}"));
        }
        ep.hit("archives searched");
    }
    for s in &said {
        if let Some(x) = all.text(s) {
            return Err(format!("a replica, one of its parts or an error prints {x} :: {}", s.chars().take(300).collect::<String>()));
        }
        ep.hit("printed texts searched");
    }
    let t = traces.0.lock().unwrap();
    for s in &t.texts {
        if let Some(x) = all.text(s) {
            return Err(format!("a trace contains {x} :: {}", s.chars().take(300).collect::<String>()));
        }
    }
    ep.add("trace texts searched", t.texts.len() as u64);
    ep.add("spans traced", t.spans);
    Ok(())
}

/// The keys of the public individual are known to everybody.
fn public_key(k: &[u8]) -> bool {
    keyhive_core::principal::public::Public.individual().prekey_ops().values().any(|p| p.new_key().as_bytes().as_slice() == k)
}

/// Every key is new, every content has a key of its own, and no nonce is used
/// twice with a key.
pub fn fresh(ep: &mut Ep) -> EpResult {
    let n = ep.rng.gen_range(2..5);
    let mut w = World::new(ep, n);
    let run = go(ep, &mut w)?;
    judge_contents(&w, ep, &run)?;
    judge_operations(&w, ep)
}

fn judge_contents(w: &World, ep: &mut Ep, run: &Run) -> EpResult {
    let mut by_key: BTreeMap<Vec<u8>, (Identifier, H, Ref, Vec<Ref>)> = BTreeMap::new();
    let mut by_what: BTreeMap<(Identifier, H, Ref, Vec<Ref>), Vec<u8>> = BTreeMap::new();
    let mut nonces: BTreeMap<(Vec<u8>, [u8; 24]), (Vec<u8>, Vec<u8>)> = BTreeMap::new();
    let mut under: BTreeMap<(Identifier, [u8; 24]), Vec<u8>> = BTreeMap::new();
    for (it, (_, r, preds)) in run.items.iter().zip(&run.tuples) {
        let k = it.key.as_slice().to_vec();
        let what = (it.doc, *it.enc.pcs_key_hash.raw.as_bytes(), *r, preds.clone());
        if it.enc.content_ref != *r || it.enc.pred_refs != Digest::hash(preds) {
            return Err("a ciphertext does not carry its references".into());
        }
        if let Some(o) = by_key.insert(k.clone(), what.clone()) {
            if o != what {
                let d = if o.0 != what.0 { "documents" } else if o.1 != what.1 { "keys of a document" } else if o.2 != what.2 { "references" } else { "predecessors" };
                return Err(format!("contents with different {d} are encrypted with the same key"));
            }
            ep.hit("contents with a key in common judged");
        }
        if by_what.insert(what, k.clone()).is_some_and(|o| o != k) {
            return Err("the same reference and predecessors under the same key of a document yield different keys".into());
        }
        let n: [u8; 24] = it.enc.nonce.into();
        if under.insert((it.doc, n), it.enc.pcs_key_hash.raw.as_bytes().to_vec()).is_some_and(|o| o != it.enc.pcs_key_hash.raw.as_bytes()) {
            return Err("contents under different keys of a document have the same nonce".into());
        }
        if let Some((plain, cipher)) = nonces.insert((k, n), (it.plain.clone(), it.enc.ciphertext.clone())) {
            if plain != it.plain {
                return Err("two different texts are encrypted with the same key and nonce".into());
            }
            if cipher != it.enc.ciphertext {
                return Err("the same text under the same key and nonce has two ciphertexts".into());
            }
            ep.hit("equal texts under equal keys judged");
        }
        if it.enc.ciphertext.len() != it.plain.len() + 16 {
            return Err("a ciphertext is not its text's length and a tag".into());
        }
        ep.hit("content keys judged");
    }
    // a key opens what it was made for
    for a in &run.items {
        match a.enc.try_decrypt(a.key) {
            Ok(p) if p == a.plain => {}
            _ => return Err("the key that a writer reports does not open the content".into()),
        }
        let Some(b) = run.items.choose(&mut ep.rng) else { continue };
        if a.key != b.key && a.enc.try_decrypt(b.key).is_ok() {
            return Err(format!("the key of one content opens another :: {} {}", w.name(&a.doc), w.name(&b.doc)));
        }
        ep.hit("keys tried on other contents");
    }
    Ok(())
}

fn judge_operations(w: &World, ep: &mut Ep) -> EpResult {
    // where every key was first published
    let mut prekeys: BTreeMap<ShareKey, usize> = BTreeMap::new();
    let mut roots: BTreeSet<Identifier> = BTreeSet::new();
    for e in &w.ents {
        if !roots.insert(e.id) || w.peers.iter().any(|p| p.id == e.id) {
            return Err("two groups or documents have the same identity".into());
        }
    }
    for p in &w.peers {
        if !roots.insert(p.id) {
            return Err("two individuals have the same identity".into());
        }
    }
    let mut tree: BTreeMap<ShareKey, (H, &'static str)> = BTreeMap::new();
    let mut sealed: BTreeMap<(ShareKey, ShareKey, [u8; 24]), Vec<u8>> = BTreeMap::new();
    for (i, (h, e)) in w.all.iter().enumerate() {
        let new = match e {
            Ev::PrekeysExpanded(o) => Some(o.payload.share_key),
            Ev::PrekeyRotated(o) => Some(o.payload.new),
            _ => None,
        };
        if let Some(k) = new {
            if prekeys.insert(k, i).is_some() {
                return Err("a new prekey is one that was published before".into());
            }
            ep.hit("prekeys judged");
        }
        let Ev::CgkaOperation(o) = e else { continue };
        let CgkaOperation::Update { new_path, .. } = &o.payload else { continue };
        let mut keys: Vec<(ShareKey, &'static str)> = new_path.leaf_pk.keys().into_iter().map(|k| (k, "leaf")).collect();
        for (_, n) in &new_path.path {
            let b = bincode::serialize(n).unwrap();
            let Ok(vs) = bincode::deserialize::<Vec<SecretStoreVersion>>(&b) else {
                ep.hit("nodes not understood");
                continue;
            };
            for v in vs {
                keys.push((v.pk, "node"));
                let mut nonces: BTreeSet<([u8; 24], Vec<u8>)> = BTreeSet::new();
                for s in v.sk.values() {
                    let n: [u8; 24] = s.nonce.into();
                    if sealed.insert((v.encrypter_pk, s.paired_pk, n), s.ciphertext.clone()).is_some_and(|c| c != s.ciphertext) {
                        return Err("two secrets are sealed with the same key and nonce".into());
                    }
                    nonces.insert((n, s.ciphertext.clone()));
                    ep.hit("sealed secrets judged");
                }
                if nonces.len() != v.sk.values().map(|s| s.paired_pk).collect::<BTreeSet<_>>().len() {
                    return Err("a secret is sealed in the same way for different keys".into());
                }
            }
        }
        for (k, what) in keys {
            if public_key(k.as_bytes()) {
                continue;
            }
            if prekeys.contains_key(&k) {
                return Err(format!("an update's {what} key is somebody's prekey"));
            }
            if let Some((o, what)) = tree.insert(k, (*h, what)) {
                let s = if o == *h { "an update uses a key twice" } else { "an update uses a key that another update has published" };
                return Err(format!("{s} :: {what} of {} / {}", w.show_ev(e), w.show_ev(w.ev(&o))));
            }
            ep.hit("tree keys judged");
        }
    }
    Ok(())
}

/// The keys an event brings into the world.
fn brings(e: &Ev) -> Vec<ShareKey> {
    match e {
        Ev::PrekeysExpanded(o) => vec![o.payload.share_key],
        Ev::PrekeyRotated(o) => vec![o.payload.new],
        Ev::CgkaOperation(o) => {
            let CgkaOperation::Update { new_path, .. } = &o.payload else { return vec![] };
            let mut keys = new_path.leaf_pk.keys();
            for (_, n) in &new_path.path {
                let b = bincode::serialize(n).unwrap();
                keys.extend(bincode::deserialize::<Vec<SecretStoreVersion>>(&b).unwrap_or_default().into_iter().map(|v| v.pk));
            }
            keys.retain(|k| !public_key(k.as_bytes()));
            keys
        }
        _ => vec![],
    }
}

/// Two replicas with one past, which differ in nothing but what they draw at
/// random from then on: whatever one of them makes is nothing that the other,
/// or whoever has all that it knew before, can make.
pub fn twins(ep: &mut Ep) -> EpResult {
    let n = ep.rng.gen_range(2..5);
    let mut w = World::new(ep, n);
    go(ep, &mut w)?;
    let p = ep.rng.gen_range(0..n);
    let a = block_on(w.peers[p].kh.into_archive());
    let known: BTreeSet<ShareKey> = w.all.iter().flat_map(|(_, e)| brings(e)).collect();
    let first = w.peers.len();
    for i in 0..2u64 {
        let r = &w.peers[p];
        let (rec, rng) = (Rec::default(), ep.csprng(0x7717 + i));
        let store = Store::new();
        let kh = block_on(K::try_from_archive(&a, r.signer.clone(), store.clone(), rec.clone(), Arc::new(futures::lock::Mutex::new(rng.clone())))).map_err(|e| format!("a replica's archive is refused: {e}"))?;
        let t = Replica { kh, rec, signer: r.signer.clone(), id: r.id, store, rng, collected: 0, has: BTreeSet::new(), initial: BTreeSet::new() };
        w.peers.push(t);
    }
    let docs: Vec<Identifier> = w.ents.iter().filter(|e| e.kind == Kind::Doc).map(|e| e.id).filter(|d| w.doc(p, *d).is_some()).collect();
    let old: Vec<ShareKey> = block_on(async { w.peers[p].kh.individual().await.lock().await.prekey_ops().values().map(|o| *o.new_key()).collect() });
    let mine = archive_secrets(&w, p);
    for _ in 0..ep.rng.gen_range(1..4) {
        let what = ep.rng.gen_range(0..7);
        let d = docs.choose(&mut ep.rng).copied();
        let k = *old.choose(&mut ep.rng).unwrap();
        let r: Ref = ep.rng.gen();
        let mut ids = vec![];
        let mut cts = vec![];
        for t in first..first + 2 {
            let kh = &w.peers[t].kh;
            match (what, d) {
                (0, _) => drop(block_on(kh.rotate_prekey(k))),
                (1, _) => drop(block_on(kh.expand_prekeys())),
                (2, _) => drop(block_on(kh.contact_card())),
                (3, _) => {
                    if let Ok(g) = block_on(kh.generate_group(vec![])) {
                        ids.push(Identifier::from(block_on(async { g.lock().await.group_id() })));
                    }
                }
                (4, _) => {
                    if let Ok(g) = block_on(kh.generate_doc(vec![], nonempty::nonempty![r])) {
                        ids.push(Identifier::from(block_on(async { g.lock().await.doc_id() })));
                    }
                }
                (5, Some(d)) => drop(block_on(kh.force_pcs_update(w.doc(t, d).unwrap()))),
                (6, Some(d)) => {
                    let doc = w.doc(t, d).unwrap();
                    let old = block_on(kh.try_pcs_key_hash(doc.clone()));
                    if let Ok((o, key)) = block_on(kh.try_encrypt_content_keyed(doc, &r, &vec![], b"the same text for both")) {
                        if old != Some(o.encrypted_content().pcs_key_hash) {
                            cts.push((key, <[u8; 24]>::from(o.encrypted_content().nonce), o.encrypted_content().ciphertext.clone()));
                        }
                    }
                }
                _ => {}
            }
        }
        ep.step(format!("twins of p{p} each do {}", ["rotate a prekey", "add a prekey", "make a contact card", "make a group", "make a document", "rotate a document's key", "encrypt"][what]));
        ep.hit("actions of twins");
        if let [x, y] = &ids[..] {
            if x == y {
                return Err("the identity of what a replica makes can be foretold".into());
            }
            ep.hit("identities of twins judged");
        }
        if let [x, y] = &cts[..] {
            if x.0 == y.0 || x.1 == y.1 || x.2 == y.2 {
                return Err("what is encrypted under a new key can be foretold".into());
            }
            ep.hit("ciphertexts of twins judged");
        }
    }
    let [x, y] = [first, first + 1].map(|t| w.peers[t].rec.take().iter().flat_map(brings).collect::<BTreeSet<_>>());
    for k in x.iter().chain(&y) {
        // an update of a reader whose leaf's key nobody but it has may keep it
        if known.contains(k) {
            return Err("a new key is one that was published before".into());
        }
    }
    if let Some(k) = x.intersection(&y).next() {
        return Err(format!("a key that a replica makes can be told from what it knew before :: {k:x}"));
    }
    ep.add("new keys of twins", (x.len() + y.len()) as u64);
    let [x, y] = [first, first + 1].map(|t| archive_secrets(&w, t));
    for (k, s) in &x {
        if !mine.contains_key(k) && (y.contains_key(k) || y.values().chain(mine.values()).any(|o| o == s)) {
            return Err("a secret that a replica makes can be told from what it knew before".into());
        }
    }
    Ok(())
}

fn archive_secrets(w: &World, p: usize) -> BTreeMap<Vec<u8>, Vec<u8>> {
    crate::archive::secrets(w, p)
}
