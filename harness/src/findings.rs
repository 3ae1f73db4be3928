//! The specific histories of recorded findings (known-findings.json).
use crate::check::Ep;
use crate::world::*;
use keyhive_core::access::Access;

fn ep() -> Ep {
    Ep::new(4242, 0, false)
}

/// p1 acts on a document through a group while p0 concurrently removes p1 from
/// that group; one replica hears of the act first, another of the removal.
pub fn authority_through_a_left_group() -> Result<Option<String>, String> {
    let mut ep = ep();
    let mut w = World::new(&mut ep, 5);
    w.introduce_all();
    let g = w.new_group(0, vec![]);
    let d = w.new_doc(0, vec![])?;
    let ok = |s: String| if s.contains("refused") { Err(format!("HARNESS {s}")) } else { Ok(()) };
    let (p1, p2) = (w.peers[1].id, w.peers[2].id);
    ok(crate::mem::add(&mut w, &mut ep, 0, g, p1, Access::Admin))?;
    ok(crate::mem::add(&mut w, &mut ep, 0, d, g, Access::Admin))?;
    let base: Vec<H> = w.all.iter().map(|x| x.0).collect();
    for p in [1, 3, 4] {
        w.deliver(p, &base);
    }
    let n = w.all.len();
    ok(crate::mem::add(&mut w, &mut ep, 1, d, p2, Access::Read))?;
    let act: Vec<H> = w.all[n..].iter().map(|x| x.0).collect();
    let n = w.all.len();
    ok(crate::mem::revoke(&mut w, &mut ep, 0, g, p1, false))?;
    let leave: Vec<H> = w.all[n..].iter().map(|x| x.0).collect();
    w.deliver(3, &act);
    w.deliver(3, &leave);
    w.deliver(4, &leave);
    w.deliver(4, &act);
    let has = |p: usize| w.view(p, d).is_some_and(|v| v.members.contains_key(&p2));
    let (a, b) = (has(3), has(4));
    Ok((a != b).then(|| format!("a member added to a document by somebody acting through a group that concurrently removes them is a member where the addition arrives first ({a}) and is held back forever where the removal does ({b}, {} events pending)", w.pending(4).len())))
}

/// A reader is revoked and adds itself to the key agreement again.
pub fn former_reader_returns() -> Result<Option<String>, String> {
    use crate::rt::block_on;
    use beekem::operation::CgkaOperation;
    let mut ep = ep();
    let mut w = World::new(&mut ep, 2);
    w.introduce_all();
    let d = w.new_doc(0, vec![])?;
    let p1 = w.peers[1].id;
    let ok = |s: String| if s.contains("refused") { Err(format!("HARNESS {s}")) } else { Ok(()) };
    ok(crate::mem::add(&mut w, &mut ep, 0, d, p1, Access::Read))?;
    w.deliver_missing(&mut ep, 1, false);
    ok(crate::mem::revoke(&mut w, &mut ep, 0, d, p1, false))?;
    w.deliver_missing(&mut ep, 1, false);
    let ops = crate::keyforge::key_ops(&w, d, &Default::default());
    let pk = ops.iter().find_map(|o| match &o.payload {
        CgkaOperation::Add { added_id, pk, .. } if crate::keyforge::ident(added_id) == p1 => Some(*pk),
        _ => None,
    }).ok_or("HARNESS never added")?;
    let signer = w.peers[1].signer.clone();
    let doc = w.doc(1, d).ok_or("HARNESS no document")?;
    let op = block_on(async {
        let mut c = doc.lock().await.cgka().unwrap().clone();
        c.add::<future_form::Sendable, _>(p1.into(), pk, &signer).await
    }).map_err(|e| format!("HARNESS {e}"))?.ok_or("HARNESS nothing to add")?;
    let h = w.publish(1, Ev::CgkaOperation(Box::new(op)));
    w.deliver(0, &[h]);
    w.deliver(1, &[h]);
    let doc0 = w.doc(0, d).unwrap();
    let r = w.fresh_ref();
    let (out, _) = block_on(w.peers[0].kh.try_encrypt_content_keyed(doc0, &r, &vec![], b"later")).map_err(|e| format!("HARNESS {e}"))?;
    w.collect(0);
    w.deliver_missing(&mut ep, 1, false);
    let enc: crate::content::Enc = crate::content::retag(out.encrypted_content());
    let got = block_on(w.peers[1].kh.try_decrypt_content(doc, &enc));
    Ok((got.is_ok_and(|x| x == b"later")).then(|| "a reader that was revoked adds itself to the document's key agreement again with an operation of its own, and reads what is written from then on".to_string()))
}

/// x, known by its prekeys, is a member of a group when it delegates from its
/// own key: it is a group. One replica hears of the membership first, another
/// of the delegation.
pub fn individual_turns_out_to_be_a_group() -> Result<Option<String>, String> {
    use crate::hostile::sign;
    use keyhive_core::principal::group::delegation::StaticDelegation;
    let mut ep = ep();
    let mut w = World::new(&mut ep, 4);
    w.introduce_all();
    let x = w.peers[3].id;
    let g = w.new_group(0, vec![]);
    let p1 = w.peers[1].id;
    let s = crate::mem::add(&mut w, &mut ep, 0, g, x, Access::Read);
    if s.contains("refused") {
        return Err(format!("HARNESS {s}"));
    }
    let first: Vec<H> = w.all.iter().map(|x| x.0).collect();
    let turn = Ev::Delegated(sign(&w.peers[3].signer, StaticDelegation { delegate: p1, can: Access::Read, proof: None, after_revocations: vec![], after_content: Default::default() }));
    let turn = w.publish(3, turn);
    w.deliver(1, &first);
    w.deliver(1, &[turn]);
    w.deliver(2, &[turn]);
    w.deliver(2, &first);
    let has = |p: usize| w.view(p, g).is_some_and(|v| v.transitive.contains_key(&p1));
    let (a, b) = (has(1), has(2));
    Ok((a != b).then(|| format!("the members of somebody that delegates from its own key are indirect members of the groups it belongs to where its delegation arrives first ({b}) and not where its membership does ({a})")))
}
