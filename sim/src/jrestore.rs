//! Snapshot restore: chunks with range proofs over a bad network or from a bad
//! server, with the restoring process dying at any point.
use crate::jmodel::*;
use crate::jstore::*;
use crate::jworld::*;
use crate::net::Net;
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::proof::SparseMerkleRangeProof;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use crate::jmodel::root as root_of;
use jmt::storage::*;
use jmt::{KeyHash, RootHash};
use simrt::*;
use std::sync::Arc;

type Restore = JellyfishMerkleRestore<Hs>;
type Chunk = (Vec<(KeyHash, Val)>, Vec<u8>);

struct Server {
    w: W,
    v: u64,
    items: Vec<(KeyHash, Val)>,
    root: RootHash,
}

fn server() -> R<Server> {
    let mut w = W::new(Store::sim(), false, 40).pre_genesis()?;
    for _ in 0..1 + draw(5) {
        w.commit()?;
    }
    // a snapshot of an empty tree has no chunks
    let empty = chance(1, 24);
    if empty && !w.h.cur().is_empty() {
        let set: Set = w.h.cur().keys().map(|k| (*k, None)).collect();
        ev!("commit v{} {}", w.next, show(&set));
        let c = w.compute_ok(&[set.clone()], Method::One)?;
        w.write_ok(&c)?;
        w.record(&[set]);
    }
    let mut tries = 0;
    while !empty && w.h.cur().is_empty() || (draw(3) == 2 && tries < 4) {
        tries += 1;
        let k = 1 + draw(12);
        let set: Set = (0..k).map(|_| (*pick(&w.keys), Some(gen_val(&mut w.ctr, true)))).collect();
        ev!("commit v{} {}", w.next, show(&set));
        let c = w.compute_ok(&[set.clone()], Method::One)?;
        w.write_ok(&c)?;
        w.record(&[set]);
    }
    let vs: Vec<u64> = w.versions().into_iter().filter(|v| w.h.at[v].is_empty() == empty).collect();
    if empty {
        count("run.empty_snapshot");
    }
    let v = if draw(3) == 0 { *vs.last().unwrap() } else { *pick(&vs) };
    let m = &w.h.at[&v];
    let items = m.iter().map(|(k, x)| (*k, x.clone())).collect();
    let root = RootHash(root(m));
    ev!("snapshot of v{v}: {} entries", m.len());
    Ok(Server { v, items, root, w })
}

impl Server {
    /// entries after `after`, at most `n`
    fn chunk(&self, after: Option<KeyHash>, n: usize) -> R<Option<Chunk>> {
        let c: Vec<_> = self.items.iter().filter(|x| after.map_or(true, |a| x.0 > a)).take(n.max(1)).cloned().collect();
        let Some(last) = c.last() else { return Ok(None) };
        let p = must("get_range_proof", || self.w.tree.get_range_proof(last.0, self.v))?;
        match p {
            Ok(p) => Ok(Some((c, p.try_to_vec().unwrap()))),
            Err(e) => fail!("no-chunk", "server cannot prove a chunk ending at {}: {e:#}", kn(&last.0)),
        }
    }
}

enum Got {
    Ok,
    Refused(anyhow::Error),
    Crashed,
}

fn feed(r: &mut Restore, c: &Chunk) -> R<Got> {
    let Ok(p) = SparseMerkleRangeProof::try_from_slice(&c.1) else { return Ok(Got::Refused(anyhow::anyhow!("undecodable"))) };
    match guard(|| r.add_chunk(c.0.clone(), p)) {
        Ok(Ok(())) => Ok(Got::Ok),
        Ok(Err(e)) => Ok(Got::Refused(e)),
        Err(OpErr::Crash) => Ok(Got::Crashed),
        Err(OpErr::Panic(m)) => violation("panic", format!("add_chunk panicked: {m}")),
    }
}

fn open(s: &Store, sv: &Server) -> R<Option<Restore>> {
    let st = Arc::new(s.clone());
    match guard(|| Restore::new(st, sv.v, sv.root, sv.w.mig)) {
        Ok(Ok(r)) => Ok(Some(r)),
        Ok(Err(e)) => {
            check!(format!("{e:#}").contains("injected"), "restore-stuck", "restore cannot be opened or resumed: {e:#}");
            ev!("opening failed on an unreadable record");
            Ok(None)
        }
        Err(OpErr::Crash) => Ok(None),
        Err(OpErr::Panic(m)) => violation("panic", format!("opening a restore panicked: {m}")),
    }
}

/// Opens a restore that ignores what earlier attempts left and starts over.
fn open_over(s: &Store, sv: &Server) -> R<Restore> {
    count("op.restore_overwrite");
    let st = Arc::new(s.clone());
    match must("opening a restore", || Restore::new_overwrite(st, sv.v, sv.root, sv.w.mig))? {
        Ok(r) => Ok(r),
        Err(e) => fail!("restore-stuck", "a restore from scratch cannot be opened: {e:#}"),
    }
}

fn resume_at(s: &Store) -> R<Option<KeyHash>> {
    match must("get_rightmost_leaf", || s.get_rightmost_leaf())? {
        Ok(x) => Ok(x.map(|l| l.1.key_hash())),
        Err(e) => fail!("restore-stuck", "get_rightmost_leaf: {e:#}"),
    }
}

fn arm(s: &Store, after: u64) {
    match draw(4) {
        0 => s.p().write_crash = Some(draw(1001)),
        1 => s.p().write_crash = Some(1001),
        2 => s.p().read_in = Some((draw(after), if draw(2) == 0 { RFault::Crash } else { RFault::Error })),
        _ => s.p().write_error = true,
    }
}

/// everything in the restored store equals the server's snapshot
fn check_restored(sv: &mut Server, s: &Store, oracle: &str) -> R {
    let t = mk(s, sv.w.mig);
    let v = sv.v;
    let g = must("get_root_hash", || t.get_root_hash(v))?;
    check!(matches!(&g, Ok(r) if *r == sv.root), oracle, "restored root {g:?} want {:?}", sv.root);
    let got: anyhow::Result<Vec<_>> = must("iterating", || {
        use jmt::trie::VersionedTrie;
        t.iter(v)?.collect()
    })?;
    match got {
        Ok(x) => check!(x == sv.items, oracle, "restored tree iterates as {} entries, snapshot has {}", x.len(), sv.items.len()),
        Err(e) => fail!(oracle, "restored tree cannot be iterated: {e:#}"),
    }
    for k in sv.w.keys.iter().chain(&[gen_key(&sv.w.keys)]) {
        let want = sv.w.h.get(v, k);
        let g = must("get_with_proof", || t.get_with_proof(*k, v))?;
        match g {
            Ok((g, p)) => {
                check!(g == want, oracle, "restored {} = {} want {}", kn(k), vn(&g), vn(&want));
                check!(p.verify(sv.root, *k, g).is_ok(), oracle, "proof for {} from the restored tree does not verify", kn(k));
            }
            Err(e) => fail!(oracle, "restored {} unreadable: {e:#}", kn(k)),
        }
    }
    let n = must("get_leaf_count", || t.get_leaf_count(v))?;
    check!(matches!(n, Ok(n) if n == sv.w.mig.then(|| sv.items.len())), oracle, "restored leaf count {n:?} want {}", sv.items.len());
    // the restored store takes part in what happens next
    let mut m: Map = sv.items.iter().cloned().collect();
    for i in 0..1 + draw(3) {
        let set = sv.w.gen_set(&m);
        m = apply(&m, &set);
        ev!("after restore: v{} {}", v + 1 + i, show(&set));
        let c = must("computing on the restored store", || compute(&t, &[set.clone()], Method::One, v + 1 + i))?;
        match c {
            Ok(c) => {
                check!(c.0[0].0 == root(&m), oracle, "first update after the restore gives root {} want {}", hx(&c.0[0].0[..6]), hx(&root(&m)[..6]));
                check!(must("commit", || s.commit(c.1))?.is_ok(), oracle, "the restored store refuses the next update");
            }
            Err(e) => fail!(oracle, "update on the restored store failed: {e:#}"),
        }
    }
    Ok(())
}

#[derive(Clone)]
enum M {
    Ask(Option<KeyHash>, usize),
    Data(Option<Chunk>),
}

/// J08: honest server; crashes, restarts, lost and repeated messages.
pub fn j08() -> R {
    let mut sv = server()?;
    let bundled = draw(4) == 3;
    // some processes start over instead of resuming
    let over = draw(3) == 2;
    let mut s = if !bundled {
        Store::sim()
    } else if over {
        Store { kind: Kind::Mock(jmt::mock::MockTreeStore::new(true)), plan: Default::default() }
    } else {
        Store::mock()
    };
    let mut net: Net<M> = Net::new();
    let mut r: Option<Restore> = None;
    let mut faults = draw(6);
    let mut last: Option<KeyHash> = None;
    let mut steps = 0;
    let csize = 1 + draw(*pick(&[2, 8, 40])) as usize;
    let csize = if sv.w.big { csize + 4 } else { csize };
    let end = sv.items.last().map(|x| x.0);
    loop {
        steps += 1;
        if steps > 120 {
            net.calm = true;
            faults = 0;
        }
        check!(steps < 2000, "restore-stuck", "restore has not finished long after faults stopped (at {:?})", last.map(|k| kn(&k)));
        if r.is_none() && over && draw(2) == 1 && steps < 600 {
            r = Some(open_over(&s, &sv)?);
            last = None;
            ev!("restore opened from scratch");
        }
        if r.is_none() {
            // (re)start
            if faults > 0 && draw(6) == 5 && !bundled {
                faults -= 1;
                arm(&s, *pick(&[6, 40, 120]));
            }
            r = open(&s, &sv)?;
            s.clear_faults();
            if r.is_none() {
                s = s.reopen()?;
                continue;
            }
            last = resume_at(&s)?;
            ev!("restore opened, resuming after {}", last.map_or("nothing".into(), |k| kn(&k)));
        }
        if last == end {
            // all entries are in: finish
            if faults > 0 && !bundled && draw(2) == 1 {
                faults -= 1;
                arm(&s, 3);
            }
            let x = r.take().unwrap();
            let boxed = draw(2) == 1;
            match guard(|| if boxed { Box::new(x).finish_box() } else { x.finish() }) {
                Ok(Ok(())) => {
                    s.clear_faults();
                    ev!("finished");
                    // the process may die right after and not know it finished
                    if !bundled && draw(4) == 3 {
                        count("fault.restart");
                        s = s.reopen()?;
                        ev!("restart after the finish");
                        if over && draw(2) == 1 && faults > 0 {
                            // starts over although it was done
                            faults -= 1;
                            r = Some(open_over(&s, &sv)?);
                            last = None;
                            continue;
                        }
                        let r2 = open(&s, &sv)?;
                        let Some(mut r2) = r2 else { fail!("restore-stuck", "finished restore cannot be reopened") };
                        if draw(2) == 1 {
                            // a repeated chunk arrives after the end
                            let after = if draw(2) == 0 { None } else { sv.items.get(draw(sv.items.len().max(1) as u64) as usize).map(|x| x.0) };
                            let before = s.fingerprint();
                            if let Some(c) = sv.chunk(after, 1 + draw(csize as u64) as usize)? {
                                count("op.late_chunk");
                                match feed(&mut r2, &c)? {
                                    Got::Ok => {}
                                    Got::Refused(e) => fail!("chunk-refused", "a genuine chunk after the end is refused: {e:#}"),
                                    Got::Crashed => fail!("harness", "no crash planned"),
                                }
                                check!(s.fingerprint() == before, "restore-wrong", "a chunk that arrived after the end changed the store");
                            }
                        }
                        match guard(|| r2.finish()) {
                            Ok(Ok(())) => {}
                            Ok(Err(e)) => fail!("restore-stuck", "finishing a finished restore again: {e:#}"),
                            Err(OpErr::Panic(m)) => fail!("panic", "finishing a finished restore again panicked: {m}"),
                            Err(OpErr::Crash) => fail!("harness", "no crash planned"),
                        }
                    }
                    break;
                }
                Ok(Err(e)) => {
                    check!(format!("{e:#}").contains("injected"), "finish-refused", "all {} entries are in, finishing is refused: {e:#}", sv.items.len());
                    ev!("finish failed, starting over");
                    s.clear_faults();
                    s = s.reopen()?;
                }
                Err(OpErr::Crash) => {
                    ev!("crash in finish");
                    s.clear_faults();
                    s = s.reopen()?;
                }
                Err(OpErr::Panic(m)) => fail!("panic", "finish panicked: {m}"),
            }
            continue;
        }
        if net.idle() {
            net.advance_to(net.now + 2);
            net.send(1, 0, M::Ask(last, csize));
        }
        if draw(30) == 29 && !net.calm {
            net.partition(0, 1);
        }
        match net.deliver() {
            Some((_, 0, M::Ask(after, n))) => {
                let c = sv.chunk(after, 1 + draw(n as u64) as usize)?;
                net.send(0, 1, M::Data(c));
            }
            Some((_, 1, M::Data(Some(c)))) => {
                // a late or repeated chunk the client can see it does not need
                if last.map_or(false, |l| c.0[0].0 <= l) || sv.items.iter().find(|x| last.map_or(true, |l| x.0 > l)).map(|x| x.0) != Some(c.0[0].0) {
                    continue;
                }
                if faults > 0 && !bundled && draw(3) == 2 {
                    faults -= 1;
                    arm(&s, 3);
                }
                let lk = c.0.last().unwrap().0;
                match feed(r.as_mut().unwrap(), &c)? {
                    Got::Ok => {
                        ev!("chunk of {} up to {} stored", c.0.len(), kn(&lk));
                        last = Some(lk);
                        s.clear_faults();
                        if faults > 0 && draw(5) == 4 {
                            // process restart between chunks
                            faults -= 1;
                            count("fault.restart");
                            r = None;
                            s = s.reopen()?;
                            ev!("restart between chunks");
                        }
                    }
                    Got::Refused(e) => {
                        s.clear_faults();
                        check!(e.to_string().contains("injected"), "chunk-refused", "a genuine chunk of {} entries up to {} is refused: {e:#}", c.0.len(), kn(&lk));
                        if draw(2) == 1 {
                            // the same process asks for it again
                            ev!("write failed, retrying");
                            continue;
                        }
                        r = None;
                        s = s.reopen()?;
                    }
                    Got::Crashed => {
                        ev!("crash while storing a chunk");
                        s.clear_faults();
                        r = None;
                        s = s.reopen()?;
                    }
                }
            }
            _ => {}
        }
    }
    check_restored(&mut sv, &s, "restore-wrong")
}

/// Ends a restore that has not seen the whole snapshot. It must not claim
/// success, and must not leave a root; true if it was complete after all.
fn early_finish(sv: &mut Server, s: &Store, r: Restore, what: &str) -> R<bool> {
    let before = s.fingerprint();
    match guard(|| r.finish()) {
        Ok(Ok(())) => {
            check_restored(sv, s, "truncated-restore")?;
            return Ok(true);
        }
        Ok(Err(_)) => check!(s.fingerprint() == before, "truncated-restore", "{what} is refused but changed the store"),
        Err(OpErr::Panic(m)) => fail!("panic", "{what} panicked: {m}"),
        Err(OpErr::Crash) => fail!("harness", "no crash planned"),
    }
    let t = mk(s, sv.w.mig);
    let g = must("get_root_hash_option", || t.get_root_hash_option(sv.v))?;
    check!(matches!(g, Ok(None)), "truncated-restore", "{what} left a root: {g:?}");
    Ok(false)
}

/// J09: chunks that do not match the trusted root are refused and nothing is
/// written; the right chunks still get through afterwards.
pub fn j09() -> R {
    let mut sv = server()?;
    let s = if draw(4) == 3 { Store::mock() } else { Store::sim() };
    let mut r = open(&s, &sv)?.unwrap();
    let mut last: Option<KeyHash> = None;
    let end = sv.items.last().map(|x| x.0);
    let csize = 1 + draw(*pick(&[2, 8, 40]));
    let mut attacks = 1 + draw(6);
    while sv.items.is_empty() && attacks > 0 {
        // nothing belongs to the snapshot of an empty tree
        attacks -= 1;
        let vs: Vec<u64> = sv.w.versions().into_iter().filter(|v| !sv.w.h.at[v].is_empty()).collect();
        let (its, p) = if !vs.is_empty() && draw(2) == 1 {
            let v = *pick(&vs);
            let n = 1 + draw(4) as usize;
            let its: Vec<_> = sv.w.h.at[&v].iter().take(n).map(|(k, x)| (*k, x.clone())).collect();
            let p = must("get_range_proof", || sv.w.tree.get_range_proof(its.last().unwrap().0, v))?;
            let Ok(p) = p else { fail!("no-chunk", "server cannot prove a chunk of v{v}") };
            (its, p.try_to_vec().unwrap())
        } else {
            (vec![(*pick(&sv.w.keys), vec![draw(256) as u8])], Vec::<[u8; 32]>::new().try_to_vec().unwrap())
        };
        count("fault.bad_chunk");
        ev!("hostile chunk of {} entries for an empty snapshot", its.len());
        let before = s.fingerprint();
        match feed(&mut r, &(its, p))? {
            Got::Ok => fail!("bad-chunk-accepted", "a chunk was accepted into the snapshot of an empty tree"),
            Got::Refused(_) => check!(s.fingerprint() == before, "bad-chunk-written", "a chunk for an empty snapshot was refused but changed the store"),
            Got::Crashed => fail!("harness", "no crash planned"),
        }
        if draw(2) == 1 {
            r = open(&s, &sv)?.unwrap();
        }
    }
    while last != end {
        let good = sv.chunk(last, 1 + draw(csize) as usize)?.unwrap();
        if attacks > 0 && draw(2) == 1 {
            attacks -= 1;
            let Some((bad, what)) = corrupt(&mut sv, &good, last)? else { continue };
            count("fault.bad_chunk");
            ev!("hostile chunk: {what}");
            let before = s.fingerprint();
            match feed(&mut r, &bad)? {
                Got::Ok => {
                    // only legitimate if every entry is the snapshot's and none is skipped
                    let exp: Vec<_> = sv.items.iter().filter(|x| last.map_or(true, |l| x.0 > l)).take(bad.0.len()).cloned().collect();
                    check!(exp == bad.0, "bad-chunk-accepted", "hostile chunk ({what}) of {} entries was accepted", bad.0.len());
                    last = Some(bad.0.last().unwrap().0);
                    continue;
                }
                Got::Refused(_) => {
                    check!(s.fingerprint() == before, "bad-chunk-written", "hostile chunk ({what}) was refused but changed the store");
                }
                Got::Crashed => fail!("harness", "no crash planned"),
            }
            match draw(4) {
                0 => {
                    // told that this was all
                    ev!("finish after the refusal");
                    if early_finish(&mut sv, &s, r, "finish after a refused chunk")? {
                        return Ok(());
                    }
                }
                1 => {
                    // carries on with the same process
                    ev!("carry on without reopening");
                    continue;
                }
                _ => {}
            }
            // start over from what is durable
            r = open(&s, &sv)?.unwrap();
            last = resume_at(&s)?;
            continue;
        }
        if attacks > 0 && draw(8) == 7 {
            attacks -= 1;
            count("fault.stream_cut");
            ev!("the stream is said to end after {}", last.map_or("nothing".into(), |k| kn(&k)));
            if early_finish(&mut sv, &s, r, "finish of a cut stream")? {
                return Ok(());
            }
            r = open(&s, &sv)?.unwrap();
            last = resume_at(&s)?;
            continue;
        }
        if attacks > 0 && draw(12) == 11 {
            attacks -= 1;
            other_root(&mut sv, &s, if draw(2) == 0 { None } else { Some(&good) }, false)?;
        }
        match feed(&mut r, &good)? {
            Got::Ok => last = Some(good.0.last().unwrap().0),
            Got::Refused(e) => fail!("chunk-refused", "a genuine chunk up to {} is refused: {e:#}", kn(&good.0.last().unwrap().0)),
            Got::Crashed => fail!("harness", "no crash planned"),
        }
    }
    match guard(|| r.finish()) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => fail!("restore-stuck", "finish: {e:#}"),
        Err(OpErr::Panic(m)) => fail!("panic", "finish panicked: {m}"),
        Err(OpErr::Crash) => fail!("harness", "no crash planned"),
    }
    if draw(2) == 1 {
        other_root(&mut sv, &s, None, true)?;
    }
    check_restored(&mut sv, &s, "restore-wrong")
}

/// A restore of some other root over what is there must not succeed on account
/// of it, nor take genuine chunks of this snapshot.
fn other_root(sv: &mut Server, s: &Store, good: Option<&Chunk>, complete: bool) -> R {
    count("fault.foreign_root");
    let mut root = sv.root;
    match draw(3) {
        0 => root.0[draw(32) as usize] ^= 1 << draw(8),
        1 => root.0 = [0x5a; 32],
        _ => {
            // the root of another version; a prefix of this snapshot could be one
            let others: Vec<_> = sv.w.h.at.values().filter(|m| !m.is_empty()).map(root_of).filter(|r| *r != sv.root.0).collect();
            if !others.is_empty() && complete {
                root.0 = *pick(&others);
            } else {
                root.0 = [0x11; 32];
            }
        }
    }
    let over = draw(3) == 2;
    ev!("a restore of {} over what is there{}", hx(&root.0[..4]), if over { ", from scratch" } else { "" });
    let before = s.fingerprint();
    let st = Arc::new(s.clone());
    let (v, mig) = (sv.v, sv.w.mig);
    let r = must("opening a restore", || if over { Restore::new_overwrite(st, v, root, mig) } else { Restore::new(st, v, root, mig) })?;
    if let Ok(mut r) = r {
        if let Some(c) = good {
            match feed(&mut r, c)? {
                Got::Ok => fail!("bad-chunk-accepted", "a chunk of {} entries was accepted by a restore of another root", c.0.len()),
                Got::Refused(_) => {}
                Got::Crashed => fail!("harness", "no crash planned"),
            }
        }
        match guard(|| r.finish()) {
            Ok(Ok(())) => fail!("foreign-root", "a restore of another root over a restored snapshot reports success"),
            Ok(Err(_)) => {}
            Err(OpErr::Panic(m)) => fail!("panic", "finish panicked: {m}"),
            Err(OpErr::Crash) => fail!("harness", "no crash planned"),
        }
    }
    check!(s.fingerprint() == before, "bad-chunk-written", "a refused restore of another root changed the store");
    Ok(())
}

fn corrupt(sv: &mut Server, good: &Chunk, last: Option<KeyHash>) -> R<Option<(Chunk, &'static str)>> {
    let mut c = good.clone();
    let n = c.0.len() as u64;
    let sib = |b: &mut Vec<u8>, f: &dyn Fn(&mut Vec<[u8; 32]>)| {
        let mut s: Vec<[u8; 32]> = Vec::try_from_slice(b).unwrap_or_default();
        f(&mut s);
        *b = s.try_to_vec().unwrap();
    };
    let what = match draw(14) {
        0 => {
            let i = draw(n) as usize;
            c.0[i].1.push(1);
            "changed value"
        }
        1 => {
            if n < 2 {
                return Ok(None);
            }
            let i = draw(n - 1) as usize;
            c.0.remove(i);
            "left out an entry"
        }
        2 => {
            let i = draw(n) as usize;
            let mut k = c.0[i].0;
            k.0[31] ^= 1;
            if c.0.iter().any(|x| x.0 == k) {
                return Ok(None);
            }
            c.0[i].0 = k;
            c.0.sort();
            "changed key"
        }
        3 => {
            let k = gen_key(&sv.w.keys);
            if c.0.iter().any(|x| x.0 == k) {
                return Ok(None);
            }
            c.0.push((k, vec![1]));
            c.0.sort();
            "added an entry"
        }
        4 => {
            if n < 2 {
                return Ok(None);
            }
            let i = draw(n - 1) as usize;
            c.0.swap(i, i + 1);
            "entries out of order"
        }
        5 => {
            let x = c.0[draw(n) as usize].clone();
            c.0.push(x);
            "repeated entry"
        }
        6 => {
            sib(&mut c.1, &|s| {
                if s.is_empty() {
                    s.push([5; 32])
                } else {
                    let i = draw(s.len() as u64) as usize;
                    s[i][draw(32) as usize] ^= 1 << draw(8);
                }
            });
            "changed proof"
        }
        7 => {
            sib(&mut c.1, &|s| {
                if s.is_empty() {
                    s.push([6; 32])
                } else {
                    let i = draw(s.len() as u64) as usize;
                    s.remove(i);
                }
            });
            "shortened proof"
        }
        8 => {
            let m = *pick(&[1u64, 2, 100, 256, 257, 300]);
            sib(&mut c.1, &|s| {
                for _ in 0..m {
                    s.insert(draw(s.len() as u64 + 1) as usize, [draw(256) as u8; 32])
                }
            });
            "lengthened proof"
        }
        9 => {
            // skip ahead
            let Some(x) = sv.chunk(Some(good.0.last().unwrap().0), 3)? else { return Ok(None) };
            c = x;
            "skipped entries"
        }
        10 => {
            let Some(l) = last else { return Ok(None) };
            let Some(i) = sv.items.iter().position(|x| x.0 == l) else { return Ok(None) };
            let from = if i == 0 { None } else { Some(sv.items[i - 1].0) };
            c = sv.chunk(from, 2)?.unwrap();
            "repeated an old chunk"
        }
        11 => {
            c.0.clear();
            "no entries"
        }
        12 => {
            // proof of another chunk
            let x = sv.items[draw(sv.items.len() as u64) as usize].0;
            let p = must("get_range_proof", || sv.w.tree.get_range_proof(x, sv.v))?;
            c.1 = p.unwrap().try_to_vec().unwrap();
            "proof of another chunk"
        }
        _ => {
            // the same keys at another version
            let vs = sv.w.versions();
            let v2 = *pick(&vs);
            let m2 = &sv.w.h.at[&v2];
            let it: Vec<_> = m2.iter().filter(|x| last.map_or(true, |l| *x.0 > l)).take(n as usize).map(|(k, x)| (*k, x.clone())).collect();
            let Some(l) = it.last() else { return Ok(None) };
            let p = must("get_range_proof", || sv.w.tree.get_range_proof(l.0, v2))?;
            c = (it.clone(), p.unwrap().try_to_vec().unwrap());
            "chunk of another version"
        }
    };
    if c == *good {
        return Ok(None);
    }
    Ok(Some((c, what)))
}
