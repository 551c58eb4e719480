//! Trie proofs between a prover and light clients over a simulated network.
use crate::jmodel::hx;
use crate::net::Net;
use crate::pmodel::*;
use crate::psim::*;
use crate::pworld::*;
use pmt::{MemoryDB, InnerTrie, Trie, H256};
use simrt::*;
use std::collections::BTreeMap;

#[derive(Clone)]
enum Msg {
    Ask(u64, usize, Bytes),
    Answer(u64, Vec<Bytes>),
}

/// A chain of committed roots with their contents, as the prover has them.
pub struct Chain {
    pub db: Db,
    pub g: Gen,
    pub roots: Vec<(Hash, PMap)>,
}
impl Chain {
    pub fn new(allow_empty: bool) -> R<Chain> {
        let db = if draw(4) == 3 { Db::Mem(MemoryDB::new(false)) } else { Db::sim(false) };
        let mut c = Chain { db, g: Gen::new(20, false), roots: vec![] };
        let mut t = fresh(&c.db);
        let mut m = PMap::new();
        for _ in 0..1 + draw(4) {
            for _ in 0..c.g.len(1 + draw(12)) {
                let op = c.g.op(&m);
                if let Err(e) = run_op(&mut t, &op, &mut m, "wrong-result")? {
                    fail!("op-refused", "{e}");
                }
            }
            if m.is_empty() && !allow_empty {
                let k = pick(&c.g.keys).clone();
                let op = Op::Put(k.clone(), gen_pval(&k, &mut c.g.ctr, false));
                if let Err(e) = run_op(&mut t, &op, &mut m, "wrong-result")? {
                    fail!("op-refused", "{e}");
                }
            }
            match commit(&mut t)? {
                Ok(r) => {
                    let w = build(&m).root;
                    check!(r == w, "wrong-root", "commit {} want {}", hx(&r[..6]), hx(&w[..6]));
                    c.roots.push((r, m.clone()));
                }
                Err(e) => fail!("commit-refused", "{e}"),
            }
        }
        Ok(c)
    }
    fn prove(&self, i: usize, k: &[u8]) -> R<Vec<Bytes>> {
        let mut t = open(&self.db, &self.roots[i].0);
        match must("get_proof", || t.get_proof(k))? {
            Ok(p) => Ok(p),
            Err(e) => fail!("proof-refused", "get_proof {}: {e}", bn(k)),
        }
    }
}

fn verifier() -> InnerTrie<Db> {
    // a light client owns no state
    fresh(&Db::sim(true))
}

fn tamper(p: &mut Vec<Bytes>, c: &Chain, i: usize, k: &[u8]) -> R<&'static str> {
    Ok(match draw(12) {
        0 => {
            if !p.is_empty() {
                let x = draw(p.len() as u64) as usize;
                p.remove(x);
            }
            "drop"
        }
        1 => {
            if let Some(x) = (!p.is_empty()).then(|| draw(p.len() as u64) as usize) {
                let b = p[x].len() as u64;
                if b > 0 {
                    let y = draw(b) as usize;
                    p[x][y] ^= 1 << draw(8);
                }
            }
            "flip"
        }
        2 => {
            if let Some(x) = (!p.is_empty()).then(|| draw(p.len() as u64) as usize) {
                let n = draw(p[x].len().max(1) as u64) as usize;
                p[x].truncate(n);
            }
            "truncate"
        }
        3 => {
            // the right proof for the wrong key
            let o = c.g.key(&c.roots[i].1);
            *p = c.prove(i, &o)?;
            "other key"
        }
        4 => {
            let o = draw(c.roots.len() as u64) as usize;
            *p = c.prove(o, k)?;
            "other root"
        }
        5 => {
            let o = draw(c.roots.len() as u64) as usize;
            let q = c.prove(o, &c.g.key(&c.roots[o].1))?;
            let n = p.len().min(q.len());
            if n > 0 {
                let x = draw(n as u64) as usize;
                p[x] = q[x].clone();
            }
            "splice"
        }
        6 => {
            // a proof honestly built for doctored contents
            let mut m = c.roots[i].1.clone();
            if m.contains_key(k) && draw(2) == 0 {
                m.remove(k);
            } else {
                m.insert(k.to_vec(), vec![0xee; 1 + draw(40) as usize]);
            }
            let b = build(&m);
            let forged: Vec<Bytes> = path(&m, k).iter().map(|h| b.nodes[h].clone()).collect();
            if draw(2) == 0 {
                *p = forged;
            } else {
                // keep the genuine top
                p.truncate(1 + draw(2) as usize);
                p.extend(forged.into_iter().skip(1));
            }
            "doctored"
        }
        7 => {
            p.insert(draw(p.len() as u64 + 1) as usize, (0..draw(80)).map(|_| draw(256) as u8).collect());
            "extra"
        }
        8 => {
            p.clear();
            "empty"
        }
        9 => {
            if !p.is_empty() {
                let x = draw(p.len() as u64) as usize;
                let key = keccak(&p[x]);
                p[x] = crate::pworld::garbage(&key, &p[x].clone());
            }
            "garbage"
        }
        10 => {
            shuffle(p);
            if !p.is_empty() && draw(2) == 1 {
                let x = draw(p.len() as u64) as usize;
                p.push(p[x].clone());
            }
            "reorder"
        }
        _ => {
            // overwrite the value inside the last node
            if let (Some(v), Some(l)) = (c.roots[i].1.get(k), p.last_mut()) {
                if let Some(at) = l.windows(v.len()).position(|w| w == &v[..]) {
                    l[at] = l[at].wrapping_add(1);
                }
            }
            "value"
        }
    })
}

/// P05: whatever the network delivers, a light client that knows the root
/// accepts only true statements.
pub fn p05() -> R {
    let c = Chain::new(true)?;
    for _ in 0..4 + draw(10) {
        let i = draw(c.roots.len() as u64) as usize;
        let (root, m) = &c.roots[i];
        let k = c.g.key(m);
        let mut p = c.prove(i, &k)?;
        let honest = p.clone();
        let mut how = vec![];
        for _ in 0..draw(4) {
            count("fault.tampered");
            how.push(tamper(&mut p, &c, i, &k)?);
        }
        let v = verifier();
        if draw(10) == 9 {
            // nothing about the root can be trusted either: any answer but a crash
            let hostile = p.first().map(|x| keccak(x)).unwrap_or([7; 32]);
            must("verify_proof", || v.verify_proof(h(&hostile), &k, p.clone()))?.ok();
            count("check.hostile_root");
            continue;
        }
        ev!("verify {} at {} after [{}]", bn(&k), hx(&root[..4]), how.join(","));
        let r = must("verify_proof", || v.verify_proof(h(root), &k, p.clone()))?;
        if let Ok(x) = &r {
            check!(x.as_ref() == m.get(&k), "false-accepted", "a proof tampered with by [{}] convinces the client that {} is {} at root {}, it is {}", how.join(","), bn(&k), on(x), hx(&root[..4]), on(&m.get(&k).cloned()));
            count("check.accepted");
        } else {
            count("check.rejected");
            let needed = honest.iter().all(|n| p.contains(n)) && !m.is_empty();
            check!(!needed, "true-rejected", "a proof that still contains every genuine node was rejected: [{}]", how.join(","));
        }
    }
    Ok(())
}

/// P06: honest proofs verify for every key, present or not, and a client that
/// keeps asking gets its answers once the network recovers.
pub fn p06() -> R {
    let c = Chain::new(false)?;
    // everything, locally
    for (i, (root, m)) in c.roots.iter().enumerate() {
        let last = i + 1 == c.roots.len();
        for k in c.g.keys.iter().chain([&c.g.key(m)]) {
            if !last && draw(3) != 0 {
                continue;
            }
            one(&c, i, root, m, k, draw(4))?;
        }
    }
    // and remotely
    let mut net: Net<Msg> = Net::new();
    let clients = 1 + draw(2) as usize;
    let asks: Vec<(usize, usize, Bytes)> = (0..1 + draw(8))
        .map(|_| {
            let i = draw(c.roots.len() as u64) as usize;
            (1 + draw(clients as u64) as usize, i, c.g.key(&c.roots[i].1))
        })
        .collect();
    let mut open_asks: BTreeMap<u64, u64> = BTreeMap::new();
    for (id, (cl, i, k)) in asks.iter().enumerate() {
        net.send(*cl, 0, Msg::Ask(id as u64, *i, k.clone()));
        open_asks.insert(id as u64, 0);
    }
    let calm_at = 20 + draw(40);
    let mut steps = 0;
    while !open_asks.is_empty() {
        steps += 1;
        if steps == calm_at {
            net.calm = true;
        }
        check!(steps < calm_at + 2000, "no-answer", "{} questions still open long after the network healed", open_asks.len());
        if !net.calm && draw(12) == 11 {
            net.partition(0, 1 + draw(clients as u64) as usize);
        }
        match net.deliver() {
            Some((from, 0, Msg::Ask(id, i, k))) => {
                let p = c.prove(i, &k)?;
                net.send(0, from, Msg::Answer(id, p));
            }
            Some((_, to, Msg::Answer(id, p))) => {
                let (cl, i, k) = &asks[id as usize];
                check!(*cl == to, "harness", "misrouted");
                let (root, m) = &c.roots[*i];
                let v = verifier();
                let r = must("verify_proof", || v.verify_proof(h(root), k, p.clone()))?;
                check!(matches!(&r, Ok(x) if x.as_ref() == m.get(k)), "true-rejected", "an honest proof for {} at {} verifies as {} want {}", bn(k), hx(&root[..4]), rs(&r), on(&m.get(k).cloned()));
                open_asks.remove(&id);
            }
            _ => {}
        }
        if net.idle() {
            let t = net.now + 5;
            net.advance_to(t);
            for id in open_asks.keys() {
                let (cl, i, k) = &asks[*id as usize];
                net.send(*cl, 0, Msg::Ask(*id, *i, k.clone()));
            }
        }
    }
    Ok(())
}

fn one(c: &Chain, i: usize, root: &Hash, m: &PMap, k: &[u8], how: u64) -> R {
    let mut t = match how {
        // a handle that has the root loaded
        1 | 2 => {
            let mut t = open(&c.db, root);
            match must("commit", || t.commit())? {
                Ok(r) => check!(r.0 == *root, "wrong-root", "committing an unchanged view"),
                Err(e) => fail!("commit-refused", "{e}"),
            }
            t
        }
        _ => open(&c.db, root),
    };
    let p = match must("get_proof", || t.get_proof(k))? {
        Ok(p) => p,
        Err(e) => fail!("proof-refused", "get_proof {} at {}: {e}", bn(k), hx(&root[..4])),
    };
    let want = path(m, k);
    let got: Vec<Hash> = p.iter().map(|x| keccak(x)).collect();
    check!(got == want, "wrong-proof", "proof of {} at {} has nodes {:?} want {:?}", bn(k), hx(&root[..4]), got.iter().map(|x| hx(&x[..3])).collect::<Vec<_>>(), want.iter().map(|x| hx(&x[..3])).collect::<Vec<_>>());
    let v = if how == 3 { t } else { verifier() };
    let r = must("verify_proof", || v.verify_proof(H256::from_slice(root), k, p.clone()))?;
    check!(matches!(&r, Ok(x) if x.as_ref() == m.get(k)), "true-rejected", "an honest proof for {} at {} (contents i={i}) verifies as {} want {}", bn(k), hx(&root[..4]), rs(&r), on(&m.get(k).cloned()));
    Ok(())
}

