//! J10: threads sharing the bundled in-memory versioned store.
use crate::jmodel::*;
use crate::jworld::*;
use jmt::db::VersionedDatabase;
use jmt::mock::MockTreeStore;
use jmt::storage::*;
use jmt::trie::VersionedTrie;
use jmt::{JellyfishMerkleTree, KeyHash, RootHash, Sha256};
use simrt::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

type MTree = JellyfishMerkleTree<MockTreeStore, Hs>;

#[derive(Default)]
struct Board {
    /// versions whose commit has been invoked / has returned
    started: u64,
    done: u64,
    /// oldest version that must still be readable, and the floor readers hold
    least: u64,
    pins: Vec<u64>,
    /// versions written together
    groups: Vec<usize>,
    pre_started: usize,
    pre_done: usize,
}

pub fn j10() -> R {
    let other = draw(4) == 3;
    other_hash(other);
    let nk = 2 + draw(10) as usize;
    let pre = gen_preimage_keys(nk);
    let keys: Vec<KeyHash> = pre.iter().map(|x| x.0).collect();
    // the whole history, decided up front
    let nv = 2 + draw(8);
    let mut maps: Vec<Map> = vec![Map::new()]; // maps[i] = contents after i commits
    let mut sets: Vec<Set> = vec![];
    let mut ctr = 0;
    for v in 0..nv {
        let n = 1 + draw(5);
        let s: Set = (0..n)
            .map(|_| {
                let k = *pick(&keys);
                (k, if draw(3) == 2 { None } else { Some(gen_val(&mut ctr, false)) })
            })
            .collect();
        ev!("v{v} {}", show(&s));
        maps.push(apply(maps.last().unwrap(), &s));
        sets.push(s);
    }
    let maps = Arc::new(maps);
    let roots: Arc<Vec<[u8; 32]>> = Arc::new(maps.iter().map(root).collect());
    // last commit that touched anything, for version(): every set is non-empty
    let store = MockTreeStore::new(draw(2) == 1);
    let board = Arc::new(Mutex::new(Board::default()));
    let mut fns: Vec<Box<dyn FnOnce() -> R + Send>> = vec![];
    // threads may share one tree, or have one each over the same store
    let one: Option<Arc<MTree>> = (draw(2) == 1).then(|| Arc::new(JellyfishMerkleTree::new(Arc::new(store.clone()))));
    let tree = move |s: &MockTreeStore| one.clone().unwrap_or_else(|| Arc::new(JellyfishMerkleTree::new(Arc::new(s.clone()))));
    {
        let (store, board, sets, roots, pre, tree) = (store.clone(), board.clone(), sets.clone(), roots.clone(), pre.clone(), tree.clone());
        fns.push(Box::new(move || {
            other_hash(other);
            let t = tree(&store);
            let mut v = 0usize;
            while v < sets.len() {
                let k = (1 + draw(2) as usize).min(sets.len() - v);
                if (v..v + k).any(|_| draw(3) == 2) {
                    let i = board.lock().unwrap().pre_done;
                    if i < pre.len() {
                        board.lock().unwrap().pre_started = i + 1;
                        store.put_key_preimage::<Sha256>(&jmt::reader::Preimage(pre[i].1.clone()));
                        board.lock().unwrap().pre_done = i + 1;
                    }
                }
                let c = must("computing", || t.put_value_sets(sets[v..v + k].to_vec(), v as u64))?;
                let (r, b) = match c {
                    Ok(c) => c,
                    Err(e) => fail!("update-refused", "computing v{v}: {e:#}"),
                };
                for i in 0..k {
                    check!(r[i].0 == roots[v + i + 1], "wrong-root", "root of v{} computed while others read", v + i);
                }
                board.lock().unwrap().started = (v + k) as u64;
                board.lock().unwrap().groups.push(k);
                let w = must("commit", || match draw(3) {
                    0 => store.write_tree_update_batch(b),
                    1 => store.update(b),
                    _ => store.update_batch(b),
                })?;
                check!(w.is_ok(), "commit-refused", "commit of v{v}: {w:?}");
                board.lock().unwrap().done = (v + k) as u64;
                ev!("committed up to v{}", v + k - 1);
                v += k;
            }
            Ok(())
        }));
    }
    let nr = 1 + draw(3) as usize;
    for id in 0..nr {
        let (store, board, maps, roots, keys, pre) = (store.clone(), board.clone(), maps.clone(), roots.clone(), keys.clone(), pre.clone());
        let ops = 3 + draw(10);
        board.lock().unwrap().pins.push(u64::MAX);
        let t = tree(&store);
        fns.push(Box::new(move || {
            other_hash(other);
            reader(id, ops, t, store, board, &maps, &roots, &keys, &pre)
        }));
    }
    for _ in 0..[0, 0, 1, 1, 2][draw(5) as usize] {
        let (store, board) = (store.clone(), board.clone());
        let n = 1 + draw(4);
        fns.push(Box::new(move || {
            for _ in 0..n {
                yield_point();
                let r = {
                    let mut b = board.lock().unwrap();
                    if b.done == 0 {
                        continue;
                    }
                    // nothing a reader holds on to is pruned
                    let top = b.pins.iter().copied().min().unwrap_or(u64::MAX).min(b.done - 1);
                    if top < b.least {
                        continue;
                    }
                    let r = b.least + draw(top - b.least + 1);
                    b.least = r;
                    r
                };
                ev!("prune up to v{r}");
                let x = must("pruning", || store.purge_stale_nodes(r))?;
                check!(x.is_ok(), "prune-refused", "pruning up to v{r}: {x:?}");
            }
            Ok(())
        }));
    }
    run_threads(fns)?;
    // quiescent: everything is there
    let t: MTree = JellyfishMerkleTree::new(Arc::new(store.clone()));
    let least = board.lock().unwrap().least;
    for v in least..nv {
        let want: Vec<_> = maps[v as usize + 1].iter().map(|(k, x)| (*k, x.clone())).collect();
        let got: anyhow::Result<Vec<_>> = must("iterating", || t.iter(v)?.collect())?;
        check!(matches!(&got, Ok(x) if *x == want), "lost-update", "after all threads ended v{v} iterates as {:?} want {} entries", got.map(|x| x.len()), want.len());
    }
    check!(must("len", || t.len())? == maps[nv as usize].len(), "lost-update", "final len");
    check!(must("version", || VersionedTrie::version(&t))? == nv - 1, "lost-update", "final version");
    // whatever was pruned meanwhile stays pruned: the nodes left are the ones a
    // single thread would have left
    check!(must("pruning", || store.purge_stale_nodes(least))?.is_ok(), "prune-refused", "last prune");
    let calm = MockTreeStore::default();
    let ct: MTree = JellyfishMerkleTree::new(Arc::new(calm.clone()));
    let groups = board.lock().unwrap().groups.clone();
    let mut v = 0;
    for k in groups {
        let c = must("computing", || ct.put_value_sets(sets[v..v + k].to_vec(), v as u64))?;
        v += k;
        let w = must("commit", || calm.write_tree_update_batch(c.unwrap().1))?;
        check!(w.is_ok(), "commit-refused", "calm commit of v{v}");
    }
    check!(must("pruning", || calm.purge_stale_nodes(least))?.is_ok(), "prune-refused", "calm prune");
    let (a, b) = (must("num_nodes", || store.num_nodes())?, must("num_nodes", || calm.num_nodes())?);
    check!(a == b, "lost-update", "{a} nodes are left after all threads ended, {b} without concurrency");
    let node_keys = |s: &MockTreeStore| s.nodes().map(|x| x.0).collect::<std::collections::BTreeSet<_>>();
    check!(must("nodes", || node_keys(&store))? == node_keys(&calm), "lost-update", "other nodes are left after all threads ended than without concurrency");
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn reader(id: usize, ops: u64, t: Arc<MTree>, store: MockTreeStore, board: Arc<Mutex<Board>>, maps: &[Map], roots: &[[u8; 32]], keys: &[KeyHash], pre: &[(KeyHash, Vec<u8>)]) -> R {
    for _ in 0..ops {
        yield_point();
        let (lo, least) = {
            let b = board.lock().unwrap();
            (b.done, b.least)
        };
        let k = *pick(keys);
        let op = draw(14);
        let op = if op >= 10 { op - 10 + 20 } else { op };
        if op < 5 || op >= 20 {
            if lo == 0 {
                continue;
            }
            // a committed version, pinned against pruning
            let v = least + draw(lo - least);
            board.lock().unwrap().pins[id] = v;
            let m = &maps[v as usize + 1];
            match op {
                0 => {
                    let g = must("get", || t.get(k, v))?;
                    check!(matches!(&g, Ok(x) if *x == m.get(&k).cloned()), "torn-read", "get {} at committed v{v}: {g:?} want {}", kn(&k), vn(&m.get(&k).cloned()));
                }
                1 => {
                    let g = must("get_with_proof", || t.get_with_proof(k, v))?;
                    match g {
                        Ok((g, p)) => {
                            check!(g == m.get(&k).cloned(), "torn-read", "get_with_proof {} at committed v{v}: {} want {}", kn(&k), vn(&g), vn(&m.get(&k).cloned()));
                            check!(p.verify(RootHash(roots[v as usize + 1]), k, g).is_ok(), "torn-read", "proof at committed v{v} does not verify");
                        }
                        Err(e) => fail!("torn-read", "committed v{v} unreadable: {e:#}"),
                    }
                }
                20 => {
                    // an iterator from some key on, left open for a while
                    let start = gen_key(keys);
                    let want: Vec<_> = m.range(start..).map(|(k, x)| (*k, x.clone())).collect();
                    let it = must("opening an iterator", || jmt::JellyfishMerkleIterator::new(Arc::new(store.clone()), v, start))?;
                    let Ok(mut it) = it else { fail!("torn-read", "committed v{v} cannot be iterated: {:#}", it.err().unwrap()) };
                    for i in 0..=want.len() {
                        yield_point();
                        let x = must("iterating", || it.next().transpose())?;
                        check!(matches!(&x, Ok(x) if x.as_ref() == want.get(i)), "torn-read", "item {i} of committed v{v} is {x:?}");
                    }
                }
                21 => {
                    let p = must("get_range_proof", || t.get_range_proof(k, v))?;
                    if !m.contains_key(&k) {
                        check!(p.is_err(), "torn-read", "range proof for {} which committed v{v} does not hold", kn(&k));
                    } else if let Err(e) = p {
                        fail!("torn-read", "no range proof up to {} at committed v{v}: {e:#}", kn(&k));
                    }
                }
                22 => {
                    let p = must("get_with_exclusion_proof", || t.get_with_exclusion_proof(k, v))?;
                    match p {
                        Ok(r) => exclusion_ok(&t, v, m, k, RootHash(roots[v as usize + 1]), r, "torn-read")?,
                        Err(e) => check!(m.is_empty(), "torn-read", "no proof for {} at committed v{v}: {e:#}", kn(&k)),
                    }
                }
                23 => {
                    // what the next version would be, on top of any retained one
                    let s: Set = vec![(k, Some(vec![0xee, id as u8])), (*pick(keys), Some(vec![0xdd]))];
                    let c = must("computing", || t.put_value_set(s.clone(), v + 1))?;
                    let want = root(&apply(m, &s));
                    check!(matches!(&c, Ok(c) if c.0 .0 == want), "torn-read", "an update computed on top of committed v{v}: {:?}", c.map(|c| hx(&c.0 .0[..6])));
                }
                2 | 3 => {
                    let want: Vec<_> = m.iter().map(|(k, x)| (*k, x.clone())).collect();
                    let got: anyhow::Result<Vec<_>> = must("iterating", || t.iter(v)?.collect())?;
                    check!(matches!(&got, Ok(x) if *x == want), "torn-read", "committed v{v} iterates as {:?} items, want {}", got.map(|x| x.len()), want.len());
                }
                _ => {
                    let g = must("get_root_hash", || t.get_root_hash(v))?;
                    check!(matches!(&g, Ok(x) if x.0 == roots[v as usize + 1]), "torn-read", "root of committed v{v}: {g:?}");
                    let n = must("get_leaf_count", || t.get_leaf_count(v))?;
                    check!(matches!(n, Ok(Some(n)) if n == m.len()), "torn-read", "leaf count of committed v{v}: {n:?}");
                }
            }
            board.lock().unwrap().pins[id] = u64::MAX;
            count("op.snapshot_read");
            continue;
        }
        // reads of the newest state: must match some moment between call and return
        let window = |f: &dyn Fn(usize) -> bool| -> bool {
            let hi = board.lock().unwrap().started;
            (lo..=hi).any(|i| f(i as usize))
        };
        count("op.live_read");
        match op {
            5 => {
                let n = must("len", || t.len())?;
                check!(window(&|i| maps[i].len() == n), "not-linearizable", "len() {n} matches no state between v{lo} and now");
                let e = must("is_empty", || store.is_empty())?;
                check!(window(&|i| maps[i].is_empty() == e), "not-linearizable", "is_empty() {e} matches no state between v{lo} and now");
            }
            6 => {
                let v = must("version", || VersionedTrie::version(&*t))?;
                check!(window(&|i| v == (i as u64).saturating_sub(1)), "not-linearizable", "version() {v} matches no state between v{lo} and now");
            }
            7 => {
                let h: BTreeMap<_, _> = must("value_history", || store.value_history())?.collect();
                let live: Map = h.into_iter().filter_map(|(k, h)| Some((k, h.last()?.1.clone()?))).collect();
                check!(window(&|i| maps[i] == live), "not-linearizable", "the value history shows {} live entries, a state that never existed between v{lo} and now", live.len());
            }
            8 => {
                let g = must("database get", || VersionedDatabase::get(&store, u64::MAX.into(), k))?;
                check!(matches!(&g, Ok(g) if window(&|i| maps[i].get(&k) == g.as_ref())), "not-linearizable", "newest value of {} reads {g:?}, matching no state between v{lo} and now", kn(&k));
                let i = draw(pre.len() as u64) as usize;
                let done = board.lock().unwrap().pre_done;
                let p = must("preimage", || store.preimage(pre[i].0))?;
                let hi = board.lock().unwrap().pre_started;
                match p {
                    Ok(Some(p)) => check!(i < hi && p.key() == pre[i].1, "not-linearizable", "preimage of {} visible before it was stored, or wrong", kn(&pre[i].0)),
                    Ok(None) => check!(i >= done, "not-linearizable", "stored preimage of {} is gone", kn(&pre[i].0)),
                    Err(e) => fail!("not-linearizable", "preimage: {e:#}"),
                }
            }
            _ => {
                // a version that may be appearing right now: all of it or nothing
                let v = lo;
                let vis = must("get_root_hash_option", || t.get_root_hash_option(v))?;
                match vis {
                    Ok(None) => {}
                    Ok(Some(r)) => {
                        check!(board.lock().unwrap().started > v, "not-linearizable", "v{v} visible before its commit began");
                        check!(r.0 == roots[v as usize + 1], "torn-read", "root of fresh v{v}");
                        let m = &maps[v as usize + 1];
                        board.lock().unwrap().pins[id] = v;
                        if board.lock().unwrap().least <= v {
                            let want: Vec<_> = m.iter().map(|(k, x)| (*k, x.clone())).collect();
                            let got: anyhow::Result<Vec<_>> = must("iterating", || t.iter(v)?.collect())?;
                            check!(matches!(&got, Ok(x) if *x == want), "torn-read", "v{v} has a root but iterates as {:?} items, want {}", got.as_ref().map(|x| x.len()), want.len());
                        }
                        board.lock().unwrap().pins[id] = u64::MAX;
                    }
                    Err(e) => fail!("torn-read", "{e:#}"),
                }
                let l = must("get_rightmost_leaf", || store.get_rightmost_leaf())?;
                check!(l.is_ok(), "torn-read", "get_rightmost_leaf: {l:?}");
                let n = must("nodes", || store.nodes())?.count();
                check!(lo == 0 || n > 0, "torn-read", "nodes() shows nothing although versions are committed");
            }
        }
    }
    Ok(())
}
