//! Replicas and light clients of the versioned tree over a simulated network.
use crate::jmodel::*;
use crate::jstore::*;
use crate::jworld::*;
use crate::net::Net;
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::proof::SparseMerkleRangeProof;
use jmt::{KeyHash, RootHash};
use simrt::*;
use std::collections::BTreeMap;

// ----------------------------------------------------------------- J02

#[derive(Clone)]
enum RMsg {
    Block(u64, Set),
    Want(u64),
}

struct Replica {
    store: Store,
    tree: Tree,
    next: u64,
    inbox: BTreeMap<u64, Set>,
    down_until: u64,
    style: u64,
    mig: bool,
}

/// J02: replicas that apply the same blocks their own way end with equal roots.
pub fn j02() -> R {
    let nrep = 1 + draw(3) as usize;
    let nblocks = 1 + draw(10);
    // the leader's log; where a block writes a key twice the later write counts
    let mut gen = W::new(Store::sim(), false, 24).pre_genesis()?;
    let first = gen.next;
    let base = gen.h.base.clone();
    let mut blocks: Vec<Set> = vec![];
    let mut maps: Vec<Map> = vec![];
    for i in 0..nblocks {
        let m = maps.last().unwrap_or(&base).clone();
        let s = gen.gen_set(&m);
        ev!("block v{} {}", first + i, show(&s));
        maps.push(apply(&m, &s));
        blocks.push(s);
    }
    let want: Vec<[u8; 32]> = maps.iter().map(root).collect();
    let mut net: Net<RMsg> = Net::new();
    let mut reps: Vec<Replica> = (0..nrep)
        .map(|_| -> R<Replica> {
            let store = Store::sim();
            let mig = draw(4) != 3;
            if !base.is_empty() {
                put_pre_genesis(&store, &base, mig)?;
            }
            Ok(Replica { tree: mk(&store, mig), store, next: first, inbox: BTreeMap::new(), down_until: 0, style: draw(4), mig })
        })
        .collect::<R<_>>()?;
    // the leader (node 0) pushes everything once
    for (i, b) in blocks.iter().enumerate() {
        for r in 0..nrep {
            net.send(0, r + 1, RMsg::Block(first + i as u64, b.clone()));
        }
    }
    let end = first + nblocks;
    let mut steps = 0u64;
    let calm_at = 20 + draw(80);
    loop {
        steps += 1;
        if steps == calm_at {
            net.calm = true;
            ev!("net: calm from now on");
        }
        check!(steps < calm_at + 4000, "no-convergence", "replicas did not catch up within 4000 steps after the network healed: {:?} of {end}", reps.iter().map(|r| r.next).collect::<Vec<_>>());
        if reps.iter().all(|r| r.next == end) {
            break;
        }
        if !net.calm && draw(12) == 11 {
            net.partition(0, 1 + draw(nrep as u64) as usize);
        }
        match net.deliver() {
            Some((0, to, RMsg::Block(v, b))) => {
                let now = net.now;
                let r = &mut reps[to - 1];
                if r.down_until > now {
                    count("fault.down_node");
                    continue;
                }
                if v >= r.next {
                    r.inbox.insert(v, b);
                }
                replica_apply(r, to, net.calm, now)?;
            }
            Some((_, 0, RMsg::Want(v))) => {
                // a bounded window, in any order
                for x in v..end.min(v + 3) {
                    net.send(0, net_from(&reps, v), RMsg::Block(x, blocks[(x - first) as usize].clone()));
                }
            }
            _ => {}
        }
        // timeouts: ask again
        if net.idle() || draw(8) == 7 {
            let t = net.now + 1 + draw(10);
            if net.idle() {
                net.advance_to(t);
            }
            for i in 0..nrep {
                if reps[i].next < end && reps[i].down_until <= net.now {
                    let v = reps[i].next;
                    net.send(i + 1, 0, RMsg::Want(v));
                }
            }
        }
    }
    for (i, r) in reps.iter().enumerate() {
        for (j, w) in want.iter().enumerate() {
            let v = first + j as u64;
            let g = must("get_root_hash", || r.tree.get_root_hash(v))?;
            check!(matches!(&g, Ok(x) if x.0 == *w), "divergence", "replica n{} root at v{v}: {g:?} want {}", i + 1, hx(&w[..6]));
        }
    }
    // the same contents reached through another history
    let fin = maps.last().unwrap();
    let store = Store::pick_kind();
    let t = mk(&store, draw(4) != 3);
    let mut ops: Vec<(KeyHash, Option<Val>)> = vec![];
    let mut ks: Vec<_> = fin.keys().copied().collect();
    shuffle(&mut ks);
    for k in &ks {
        // decoys that are gone again at the end, stale values that get overwritten
        if draw(4) == 3 {
            ops.push((gen_key(&gen.keys), Some(vec![9])));
        }
        if draw(4) == 3 {
            ops.push((*k, Some(vec![8, 8])));
        }
        ops.push((*k, Some(fin[k].clone())));
    }
    for k in ops.iter().map(|o| o.0).filter(|k| !fin.contains_key(k)).collect::<Vec<_>>() {
        ops.push((k, None));
    }
    let mut v = draw(3);
    let mut m = Map::new();
    while !ops.is_empty() {
        let n = (1 + draw(6) as usize).min(ops.len());
        let set: Set = ops.drain(..n).collect();
        ev!("rebuild v{v} {}", show(&set));
        m = apply(&m, &set);
        let c = must("computing", || compute(&t, &[set.clone()], if draw(2) == 0 { Method::One } else { Method::Many }, v))?;
        let Ok(c) = c else { fail!("update-refused", "rebuild refused at v{v}") };
        check!(c.0[0].0 == root(&m), "divergence", "rebuild: root at v{v} is {} want {}", hx(&c.0[0].0[..6]), hx(&root(&m)[..6]));
        check!(must("commit", || store.commit(c.1))?.is_ok(), "update-refused", "rebuild: commit refused");
        v += 1;
    }
    check!(m == *fin, "harness", "rebuild reached other contents");
    Ok(())
}

fn net_from(reps: &[Replica], v: u64) -> usize {
    // requests carry the version only; answer whoever still waits for it
    let c: Vec<usize> = (0..reps.len()).filter(|i| reps[*i].next <= v).collect();
    if c.is_empty() {
        1
    } else {
        *pick(&c) + 1
    }
}

fn replica_apply(r: &mut Replica, id: usize, calm: bool, now: u64) -> R {
    loop {
        let mut run: Vec<Set> = vec![];
        while let Some(s) = r.inbox.get(&(r.next + run.len() as u64)) {
            run.push(s.clone());
        }
        if run.is_empty() {
            return Ok(());
        }
        let k = match r.style {
            0 => 1,
            1 => run.len(),
            _ => 1 + draw(run.len() as u64) as usize,
        };
        run.truncate(k);
        for s in run.iter_mut() {
            // any order that keeps the writes to one key in sequence
            let by_key: Set = s.clone();
            shuffle(s);
            let mut next: BTreeMap<KeyHash, usize> = BTreeMap::new();
            for x in s.iter_mut() {
                let n = next.entry(x.0).or_default();
                x.1 = by_key.iter().filter(|y| y.0 == x.0).nth(*n).unwrap().1.clone();
                *n += 1;
            }
        }
        let batch_ok = run.iter().all(|s| !s.is_empty() && s.iter().all(|x| x.1.is_some()))
            && (r.next == 0 || must("root?", || r.tree.get_root_hash_option(r.next - 1))?.ok().flatten().is_some());
        let m = match r.style {
            3 if batch_ok => Method::Batch,
            0 if run.len() == 1 => Method::One,
            _ if batch_ok && draw(3) == 2 => Method::Batch,
            _ if draw(4) == 3 => Method::Group,
            _ => Method::Many,
        };
        if !calm {
            match draw(8) {
                7 => r.store.p().write_crash = Some(if draw(2) == 0 { draw(1001) } else { 1001 }),
                6 => r.store.p().read_in = Some((draw(10), if draw(2) == 0 { RFault::Error } else { RFault::Crash })),
                _ => {}
            }
        }
        let next = r.next;
        let before = r.store.fingerprint();
        let res = guard(|| -> anyhow::Result<()> {
            let c = compute(&r.tree, &run, m, next)?;
            r.store.commit(c.1)
        });
        let faulty = !calm;
        r.store.clear_faults();
        let done = match res {
            Ok(Ok(())) => true,
            Ok(Err(e)) => {
                check!(faulty, "update-refused", "replica n{id} cannot apply v{next} ({m:?}): {e:#}");
                false
            }
            Err(OpErr::Panic(p)) => fail!("panic", "replica n{id} applying v{next} ({m:?}): {p}"),
            Err(OpErr::Crash) => {
                r.down_until = now + draw(20);
                r.store = r.store.reopen()?;
                // perhaps with another release's setting
                r.mig ^= chance(1, 8);
                r.tree = mk(&r.store, r.mig);
                r.inbox.clear();
                r.store.fingerprint() != before
            }
        };
        if done {
            ev!("n{id} applied v{}..{} ({m:?})", next, next + run.len() as u64);
            r.next += run.len() as u64;
            let n = r.next;
            r.inbox.retain(|v, _| *v >= n);
        } else {
            ev!("n{id} failed to apply v{next}");
            return Ok(());
        }
    }
}

// ------------------------------------------------------- J05, J06: proofs

#[derive(Clone)]
enum PMsg {
    Ask(u64, u64, KeyHash, u8),
    /// request id, claimed value, proof bytes
    Plain(u64, Option<Val>, Vec<u8>),
    Ics(u64, Option<Val>, ics23::CommitmentProof),
    Range(u64, Vec<u8>),
    Excl(u64),
}

const PLAIN: u8 = 0;
const ICS: u8 = 1;
const RANGE: u8 = 2;
const EXCL: u8 = 3;

fn build(max_commits: u64) -> R<W> {
    // the interchange format needs real key preimages; the other proofs are
    // also asked of trees whose keys share prefixes of any length
    let raw = draw(3) == 2;
    let mut w = W::new(Store::pick_kind(), !raw, 20);
    if !raw {
        w.empty_vals = false;
    }
    w = w.pre_genesis()?;
    for _ in 0..1 + draw(max_commits) {
        match draw(5) {
            4 => {
                faulty_commit(&mut w, "wrong-root")?;
            }
            _ => {
                w.commit()?;
            }
        }
    }
    Ok(w)
}

fn gen_kind(w: &W, n: u64) -> u8 {
    match draw(n) as u8 {
        ICS if w.pre.is_empty() => RANGE,
        k => k,
    }
}

fn probe_pre(w: &W) -> (KeyHash, Vec<u8>) {
    if w.pre.is_empty() {
        return (if draw(2) == 0 { *pick(&w.keys) } else { gen_key(&w.keys) }, vec![]);
    }
    if draw(2) == 0 {
        let k = *pick(&w.keys);
        return (k, w.pre[&k].clone());
    }
    // an absent neighbour of a known key in hash order
    let t = preimages();
    let k = pick(&w.keys);
    let i = t.partition_point(|x| x.0 < k.0);
    let j = (i as i64 + [-1, 1, 2, -2, 17][draw(5) as usize]).rem_euclid(t.len() as i64) as usize;
    let j = if draw(3) == 2 { draw(t.len() as u64) as usize } else { j };
    (KeyHash(t[j].0), t[j].1.clone())
}

/// J06: honest server, bad network: every answer verifies.
pub fn j06() -> R {
    let mut w = build(8)?;
    let mut net: Net<PMsg> = Net::new();
    let n = 3 + draw(10);
    let mut asks: BTreeMap<u64, (u64, KeyHash, Vec<u8>, u8)> = BTreeMap::new();
    for id in 0..n {
        if id == 0 || w.versions().is_empty() {
            w.commit()?;
        }
        let v = *pick(&w.versions());
        let (k, p) = probe_pre(&w);
        let kind = gen_kind(&w, 4);
        // an empty tree has no neighbours to show; only plain proofs exist for it
        let kind = if w.h.at[&v].is_empty() { PLAIN } else { kind };
        asks.insert(id, (v, k, p, kind));
    }
    let mut steps = 0;
    while !asks.is_empty() {
        steps += 1;
        if steps == 60 {
            net.calm = true;
        }
        check!(steps < 3000, "no-answer", "{} proof requests still unanswered long after the network healed", asks.len());
        if net.idle() {
            net.advance_to(net.now + 3);
            for (id, (v, k, _, kind)) in &asks {
                net.send(1, 0, PMsg::Ask(*id, *v, *k, *kind));
            }
        }
        if !net.calm && draw(20) == 19 {
            net.partition(0, 1);
        }
        // the chain keeps growing and being pruned under the clients
        if draw(10) == 9 {
            w.commit()?;
            if draw(4) == 3 {
                let keep: Vec<u64> = asks.values().map(|a| a.0).collect();
                let least = *keep.iter().min().unwrap();
                check!(must("pruning", || w.store.prune(least))?.is_ok(), "prune-refused", "pruning failed");
                w.least = w.least.max(least);
            }
        }
        let Some((_, to, m)) = net.deliver() else { continue };
        if to == 0 {
            if let PMsg::Ask(id, v, k, kind) = m {
                if !asks.contains_key(&id) {
                    continue; // late duplicate; its version may be pruned by now
                }
                let a = serve(&w, id, v, k, kind, true)?;
                net.send(0, 1, a);
            }
            continue;
        }
        let id = match &m {
            PMsg::Plain(i, ..) | PMsg::Ics(i, ..) | PMsg::Range(i, ..) | PMsg::Excl(i) => *i,
            _ => continue,
        };
        let Some((v, k, p, _)) = asks.remove(&id) else { continue };
        let m_at = &w.h.at[&v];
        let want = w.h.get(v, &k);
        let rt = RootHash(root(m_at));
        match m {
            PMsg::Plain(_, g, bytes) => {
                count("check.plain_proof");
                check!(g == want, "wrong-answer", "{} at v{v}: served {} want {}", kn(&k), vn(&g), vn(&want));
                let p = Proof::try_from_slice(&bytes).map_err(|e| Violation { oracle: "proof-lost".into(), msg: format!("served proof does not decode: {e}") })?;
                let r = must("verify", || p.verify(rt, k, g.as_ref()))?;
                check!(r.is_ok(), "proof-refused", "genuine proof for {} = {} at v{v} does not verify: {r:?}", kn(&k), vn(&g));
                let r = must("verify_proof", || match &g {
                    Some(x) => p.verify_existence(rt, k, x),
                    None => p.verify_nonexistence(rt, k),
                })?;
                check!(r.is_ok(), "proof-refused", "genuine proof for {} at v{v} refused: {r:?}", kn(&k));
                use jmt::trie::VersionedTrie;
                let r = must("trie verify_proof", || w.tree.verify_proof(k, v, rt, p))?;
                check!(r.is_ok(), "proof-refused", "genuine proof for {} at v{v} refused by the trie: {r:?}", kn(&k));
            }
            PMsg::Ics(_, g, p23) => {
                count("check.ics23_proof");
                check!(g == want, "wrong-answer", "{} at v{v}: served {} want {}", kn(&k), vn(&g), vn(&want));
                let ok = ics_verify(&p23, &rt, &p, &g)?;
                check!(ok, "proof-refused", "genuine ics23 proof that {} is {} at v{v} does not verify", kn(&k), vn(&g));
            }
            PMsg::Range(_, bytes) => {
                count("check.range_proof");
                let pr = SparseMerkleRangeProof::try_from_slice(&bytes).map_err(|e| Violation { oracle: "proof-lost".into(), msg: e.to_string() })?;
                let pa = path(m_at, &k);
                let left: Vec<_> = pa.iter().rev().filter(|x| x.0).map(|x| x.1).collect();
                let leaf = sparse_leaf(m_at, k)?;
                let r = must("range verify", || pr.verify(rt, leaf, left))?;
                check!(r.is_ok(), "proof-refused", "genuine range proof up to {} at v{v} does not verify: {r:?}", kn(&k));
            }
            _ => {}
        }
    }
    Ok(())
}

pub fn ics_verify(p: &ics23::CommitmentProof, rt: &RootHash, key: &[u8], g: &Option<Val>) -> R<bool> {
    let spec = jmt::ics23_spec();
    let root = rt.0.to_vec();
    must("ics23 verify", || match g {
        Some(v) => ics23::verify_membership::<ics23::HostFunctionsManager>(p, &spec, &root, key, v),
        None => ics23::verify_non_membership::<ics23::HostFunctionsManager>(p, &spec, &root, key),
    })
}

/// The server's answer, straight from the tree. `strict`: a refusal is a violation.
fn serve(w: &W, id: u64, v: u64, k: KeyHash, kind: u8, strict: bool) -> R<PMsg> {
    let m = &w.h.at[&v];
    let kind = if kind == RANGE && !m.contains_key(&k) { PLAIN } else { kind };
    let refused = |e: anyhow::Error| Violation { oracle: "proof-missing".into(), msg: format!("no proof (kind {kind}) for {} at v{v} ({} entries): {e:#}", kn(&k), m.len()) };
    let _ = strict;
    Ok(match kind {
        PLAIN => {
            let (g, p) = must("get_with_proof", || w.tree.get_with_proof(k, v))?.map_err(refused)?;
            if draw(4) == 3 {
                use jmt::trie::VersionedTrie;
                let q = must("get_proof", || w.tree.get_proof(k, v))?.map_err(refused)?;
                check!(format!("{q:?}") == format!("{p:?}"), "proof-differs", "get_proof and get_with_proof prove {} at v{v} differently", kn(&k));
            }
            PMsg::Plain(id, g, p.try_to_vec().unwrap())
        }
        ICS => {
            let i = preimages().partition_point(|x| x.0 < k.0);
            let pre = preimages()[i].1.clone();
            let (g, p) = must("get_with_ics23_proof", || w.tree.get_with_ics23_proof(pre, v))?.map_err(refused)?;
            PMsg::Ics(id, g, p)
        }
        RANGE => {
            let p = must("get_range_proof", || w.tree.get_range_proof(k, v))?.map_err(refused)?;
            PMsg::Range(id, p.try_to_vec().unwrap())
        }
        _ => {
            count("check.exclusion_proof");
            let r = must("get_with_exclusion_proof", || w.tree.get_with_exclusion_proof(k, v))?.map_err(refused)?;
            exclusion_ok(&w.tree, v, m, k, RootHash(root(m)), r, "exclusion")?;
            PMsg::Excl(id)
        }
    })
}

fn flip(b: &mut [u8]) {
    if !b.is_empty() {
        let i = draw(b.len() as u64) as usize;
        b[i] ^= 1 << draw(8);
    }
}

/// J05: hostile server and network; a light client that knows only the root
/// never accepts a false statement.
pub fn j05() -> R {
    let mut w = build(6)?;
    if w.h.latest().is_none() {
        w.commit()?;
    }
    let mut net: Net<PMsg> = Net::new();
    net.calm = draw(2) == 0;
    let n = 4 + draw(12);
    let mut asks: BTreeMap<u64, (u64, KeyHash, Vec<u8>, u8)> = BTreeMap::new();
    for id in 0..n {
        let v = *pick(&w.versions());
        let (k, p) = probe_pre(&w);
        let kind = if w.h.at[&v].is_empty() { PLAIN } else { gen_kind(&w, 3) };
        asks.insert(id, (v, k, p, kind));
        net.send(1, 0, PMsg::Ask(id, v, k, kind));
    }
    let mut old: Vec<PMsg> = vec![];
    while let Some((_, to, m)) = net.deliver() {
        if to == 0 {
            let PMsg::Ask(id, v, k, kind) = m else { continue };
            for _ in 0..1 + draw(3) {
                // what the server pretends to be asked
                let (v2, k2) = match draw(4) {
                    0 => (v, k),
                    1 => (v, probe_pre(&w).0),
                    2 => (*pick(&w.versions()), k),
                    _ => (*pick(&w.versions()), probe_pre(&w).0),
                };
                if w.h.at[&v2].is_empty() && kind != PLAIN {
                    continue;
                }
                let Ok(mut a) = serve(&w, id, v2, k2, kind, false) else { continue };
                if !old.is_empty() && draw(6) == 5 {
                    a = pick(&old).clone();
                }
                old.push(a.clone());
                tamper(&w, &mut a, id, k, v);
                count("fault.tampered");
                net.send(0, 1, a);
            }
            continue;
        }
        let id = match &m {
            PMsg::Plain(i, ..) | PMsg::Ics(i, ..) | PMsg::Range(i, ..) | PMsg::Excl(i) => *i,
            _ => continue,
        };
        let Some((v, k, p, _)) = asks.get(&id) else { continue };
        let (v, k) = (*v, *k);
        let m_at = &w.h.at[&v];
        let truth = m_at.get(&k).cloned();
        let rt = RootHash(root(m_at));
        count("check.hostile_answers");
        match m {
            PMsg::Plain(_, g, bytes) => {
                let Ok(Ok(pr)) = guard(|| Proof::try_from_slice(&bytes)) else { continue };
                // the client may check several statements against one answer
                let mut claims = vec![g.clone(), None, truth.clone()];
                if let Some(x) = &truth {
                    let mut y = x.clone();
                    flip(&mut y);
                    claims.push(Some(y));
                    claims.push(Some(vec![]));
                }
                claims.push(Some(gen_val(&mut 777, true)));
                for c in claims {
                    let ok = must("verify (hostile proof)", || pr.verify(rt, k, c.as_ref()))?.is_ok();
                    let ok2 = must("verify (hostile proof)", || match &c {
                        Some(x) => pr.verify_existence(rt, k, x),
                        None => pr.verify_nonexistence(rt, k),
                    })?
                    .is_ok();
                    check!(!(ok || ok2) || c == truth, "forged", "client accepts that {} at v{v} is {} although it is {} (proof {} siblings)", kn(&k), vn(&c), vn(&truth), pr.siblings().len());
                    if ok {
                        count("check.accepted");
                    }
                }
                // somebody who has the tree checks against the value stored there
                use jmt::trie::VersionedTrie;
                let v2 = if draw(2) == 0 { v } else { *pick(&w.versions()) };
                let v3 = if draw(2) == 0 { v2 } else { *pick(&w.versions()) };
                let mut r3 = RootHash(root(&w.h.at[&v3]));
                let unknown = draw(3) == 2;
                if unknown {
                    r3.0[draw(32) as usize] ^= 1 << draw(8);
                }
                let again = Proof::try_from_slice(&bytes).unwrap();
                let ok = must("trie verify_proof (hostile proof)", || w.tree.verify_proof(k, v2, r3, again))?.is_ok();
                let (x2, x3) = (w.h.at[&v2].get(&k), w.h.at[&v3].get(&k));
                check!(!ok || !unknown && x2 == x3, "forged", "the tree accepts a proof of {} at v{v2} against {}", kn(&k), if unknown { "an unheard-of root".into() } else { format!("the root of v{v3}, where its value is another") });
                if pr.leaf().is_some() && pr.siblings().len() <= 256 {
                    // a proof that commits to a root commits to its own leaf
                    let r = must("root_hash (hostile proof)", || pr.root_hash())?;
                    if r == rt {
                        let lf = pr.leaf().unwrap().try_to_vec().unwrap();
                        let lk = KeyHash(lf[..32].try_into().unwrap());
                        let ok = m_at.get(&lk).map_or(false, |x| vhash(x)[..] == lf[32..]);
                        check!(ok, "forged", "a proof naming leaf {} commits to the root of v{v}, which holds no such leaf", kn(&lk));
                    }
                }
            }
            PMsg::Ics(_, g, p23) => {
                for c in [g, None, truth.clone(), Some(vec![1, 2, 3])] {
                    if c.as_ref().map_or(false, |x| x.is_empty()) {
                        continue;
                    }
                    let ok = ics_verify(&p23, &rt, p, &c)?;
                    check!(!ok || c == truth, "forged", "client accepts an ics23 proof that {} at v{v} is {} although it is {}", kn(&k), vn(&c), vn(&truth));
                    if ok {
                        count("check.accepted");
                    }
                }
            }
            PMsg::Range(_, bytes) => {
                let Ok(Ok(pr)) = guard(|| SparseMerkleRangeProof::try_from_slice(&bytes)) else { continue };
                // the client holds some entries and computes what is left of them
                let Some(x) = &truth else { continue };
                let pa = path(m_at, &k);
                let mut left: Vec<_> = pa.iter().rev().filter(|x| x.0).map(|x| x.1).collect();
                let mut lm: Map = [(k, x.clone())].into();
                let mut honest = true;
                match draw(4) {
                    0 => {}
                    1 => {
                        let mut y = x.clone();
                        y.push(1);
                        lm.insert(k, y);
                        honest = false;
                    }
                    2 if !left.is_empty() => {
                        let i = draw(left.len() as u64) as usize;
                        flip(&mut left[i]);
                        honest = false;
                    }
                    _ => {
                        for _ in 0..draw(300) {
                            left.push([7; 32]);
                            honest = false;
                        }
                    }
                }
                let leaf = sparse_leaf(&lm, k)?;
                let right: Vec<_> = pa.iter().rev().filter(|x| !x.0).map(|x| x.1).collect();
                let same = honest && pr.right_siblings() == &right[..];
                let ok = must("range verify (hostile proof)", || pr.verify(rt, leaf, left.clone()))?.is_ok();
                check!(!ok || honest, "forged", "a range proof for v{v} is accepted with entries the tree does not hold ({} left, {} right siblings)", left.len(), pr.right_siblings().len());
                check!(ok || !same, "proof-refused", "an untouched range proof is refused");
            }
            _ => {}
        }
    }
    Ok(())
}

fn tamper(w: &W, a: &mut PMsg, id: u64, k: KeyHash, v: u64) {
    match a {
        PMsg::Plain(i, g, bytes) => {
            *i = id;
            for _ in 0..draw(3) {
                match draw(9) {
                    0 => flip(bytes),
                    1 => *g = None,
                    2 => *g = Some(gen_val(&mut 5000, true)),
                    3 => {
                        // relabel the leaf with the key that was asked for
                        if bytes.len() > 33 && bytes[0] == 1 {
                            bytes[1..33].copy_from_slice(&k.0);
                        }
                    }
                    4 => {
                        // swap in another value's hash
                        if bytes.len() > 65 && bytes[0] == 1 {
                            let h = vhash(g.as_deref().unwrap_or(b"x"));
                            bytes[33..65].copy_from_slice(&h);
                        }
                    }
                    5 => siblings(bytes, |s| {
                        if !s.is_empty() {
                            let i = draw(s.len() as u64) as usize;
                            match draw(4) {
                                0 => {
                                    s.remove(i);
                                }
                                1 => {
                                    let x = s[i];
                                    s.insert(i, x)
                                }
                                2 => {
                                    let j = draw(s.len() as u64) as usize;
                                    s.swap(i, j)
                                }
                                _ => flip(&mut s[i]),
                            }
                        }
                    }),
                    6 => siblings(bytes, |s| {
                        let n = *pick(&[1, 3, 255, 256, 257, 400]);
                        while s.len() < n {
                            s.push([3; 32])
                        }
                    }),
                    7 => {
                        // drop the leaf, or present the bottom subtree as a leaf
                        if bytes[0] == 1 && bytes.len() > 65 {
                            let mut b = vec![0u8];
                            b.extend_from_slice(&bytes[65..]);
                            *bytes = b;
                        } else if bytes[0] == 0 {
                            let m = &w.h.at[&v];
                            if let Some((lk, lv)) = m.iter().next() {
                                let mut b = vec![1u8];
                                b.extend(lk.0);
                                b.extend(vhash(lv));
                                b.extend_from_slice(&bytes[1..]);
                                *bytes = b;
                            }
                        }
                    }
                    _ => {
                        // a proof about the nearest other leaf, shortened so that it
                        // claims a bigger empty subtree
                        siblings(bytes, |s| {
                            let n = draw(s.len() as u64 + 1) as usize;
                            s.drain(..n);
                        })
                    }
                }
            }
        }
        PMsg::Ics(i, g, p) => {
            *i = id;
            use ics23::commitment_proof::Proof as P;
            fn ex(e: &mut ics23::ExistenceProof, pre: &[u8]) {
                match draw(7) {
                    0 => flip(&mut e.value),
                    1 => flip(&mut e.key),
                    2 => e.key = pre.to_vec(),
                    3 => {
                        if !e.path.is_empty() {
                            let i = draw(e.path.len() as u64) as usize;
                            match draw(3) {
                                0 => flip(&mut e.path[i].prefix),
                                1 => flip(&mut e.path[i].suffix),
                                _ => {
                                    e.path.remove(i);
                                }
                            }
                        }
                    }
                    4 => {
                        if let Some(l) = &mut e.leaf {
                            match draw(3) {
                                0 => l.prefix.push(1),
                                1 => l.prehash_key = 0,
                                _ => l.prehash_value = 0,
                            }
                        }
                    }
                    5 => e.path.reverse(),
                    _ => {}
                }
            }
            let pre = {
                let i = preimages().partition_point(|x| x.0 < k.0);
                preimages()[i].1.clone()
            };
            for _ in 0..draw(3) {
                match &mut p.proof {
                    Some(P::Exist(e)) => {
                        if draw(4) == 3 {
                            *g = None;
                        }
                        ex(e, &pre)
                    }
                    Some(P::Nonexist(n)) => match draw(5) {
                        0 => n.left = None,
                        1 => n.right = None,
                        2 => {
                            if let Some(l) = &mut n.left {
                                ex(l, &pre)
                            }
                        }
                        3 => {
                            if let Some(l) = &mut n.right {
                                ex(l, &pre)
                            }
                        }
                        _ => {
                            n.key = pre.clone();
                            *g = None;
                        }
                    },
                    _ => {}
                }
            }
        }
        PMsg::Range(i, bytes) => {
            *i = id;
            match draw(5) {
                0 => flip(bytes),
                1 => {
                    let mut s: Vec<[u8; 32]> = Vec::try_from_slice(bytes).unwrap_or_default();
                    let n = *pick(&[255, 256, 257, 300]);
                    while s.len() < n {
                        s.push([1; 32]);
                    }
                    *bytes = s.try_to_vec().unwrap();
                }
                2 => {
                    let mut s: Vec<[u8; 32]> = Vec::try_from_slice(bytes).unwrap_or_default();
                    if !s.is_empty() {
                        s.remove(draw(s.len() as u64) as usize);
                    }
                    *bytes = s.try_to_vec().unwrap();
                }
                _ => {}
            }
        }
        PMsg::Excl(i) => *i = id,
        PMsg::Ask(..) => {}
    }
}

/// edit the sibling list inside an encoded proof
fn siblings(bytes: &mut Vec<u8>, f: impl FnOnce(&mut Vec<[u8; 32]>)) {
    let at = if bytes.first() == Some(&1) { 65 } else { 1 };
    if bytes.len() < at + 4 {
        return;
    }
    let n = u32::from_le_bytes(bytes[at..at + 4].try_into().unwrap()) as usize;
    let end = at + 4 + 32 * n.min(100000);
    if bytes.len() < end {
        return;
    }
    let mut s: Vec<[u8; 32]> = bytes[at + 4..end].chunks(32).map(|c| c.try_into().unwrap()).collect();
    f(&mut s);
    let tail = bytes[end..].to_vec();
    bytes.truncate(at);
    bytes.extend((s.len() as u32).to_le_bytes());
    for x in s {
        bytes.extend(x);
    }
    bytes.extend(tail);
}
