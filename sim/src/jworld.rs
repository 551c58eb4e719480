//! One store's life: commits, speculation, crashes, faults, pruning, iteration
//! and proofs against the reference model.
use crate::jmodel::*;
use crate::jstore::*;
use anyhow::Result;
use jmt::storage::*;
use jmt::trie::VersionedTrie;
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, RootHash};
use simrt::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub type Tree = JellyfishMerkleTree<Store, Hs>;
pub type Set = Vec<(KeyHash, Option<Val>)>;
pub type Computed = (Vec<RootHash>, TreeUpdateBatch);

pub fn mk(store: &Store, mig: bool) -> Tree {
    if mig {
        JellyfishMerkleTree::new(Arc::new(store.clone()))
    } else {
        JellyfishMerkleTree::new_migration(Arc::new(store.clone()), false)
    }
}

/// a tree with the settings of `t` on another store
fn tree_like(t: &Tree, store: &Store) -> Tree {
    mk(store, t.get_leaf_count(u64::MAX - 1).is_err())
}

pub fn apply(m: &Map, set: &Set) -> Map {
    let mut m = m.clone();
    for (k, v) in set {
        match v {
            Some(v) => {
                m.insert(*k, v.clone());
            }
            None => {
                m.remove(k);
            }
        }
    }
    m
}

pub fn show(set: &Set) -> String {
    set.iter().map(|(k, v)| format!("{}={}", kn(k), vn(v))).collect::<Vec<_>>().join(" ")
}

pub struct W {
    pub store: Store,
    pub tree: Tree,
    pub h: Hist,
    pub keys: Vec<KeyHash>,
    pub pre: BTreeMap<KeyHash, Vec<u8>>,
    pub ctr: u64,
    pub mig: bool,
    /// part of the history was written without the leaf-count flag
    pub legacy: bool,
    pub next: u64,
    pub least: u64,
    pub empty_vals: bool,
    /// commits may be computed with the batch-insert entry point
    pub use_batch: bool,
    /// a run at another scale: hundreds of keys, wide updates
    pub big: bool,
    /// a long history: many steps, updates of many versions
    pub long: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Method {
    One,
    Many,
    Batch,
    /// each version computed on top of the pending ones, all written in one go
    Group,
}

impl W {
    pub fn new(store: Store, preimages: bool, max_keys: u64) -> W {
        let mig = draw(4) != 3;
        let big = chance(1, 256);
        let long = !big && chance(1, 384);
        if long {
            count("run.long");
        }
        let other = !preimages && draw(4) == 3;
        other_hash(other);
        if other {
            ev!("values hashed with another function");
            count("run.other_hash");
        }
        let nk = match draw(3) {
            _ if big => {
                count("run.big");
                60 + draw(240)
            }
            0 => 1 + draw(4),
            1 => 1 + draw(max_keys.min(12)),
            _ => 1 + draw(max_keys),
        } as usize;
        let mut pre = BTreeMap::new();
        let keys = if preimages {
            let v = gen_preimage_keys(nk);
            for (k, p) in &v {
                pre.insert(*k, p.clone());
                store.put_preimage(*k, p);
            }
            v.into_iter().map(|x| x.0).collect()
        } else {
            gen_keys(nk)
        };
        // a tree normally starts at version 0; a chain may attach one later
        let next = match draw(16) {
            // versions are 64 bits wide
            15 => *pick(&[250, 65530, u32::MAX as u64 - 3, 1 << 40, u64::MAX / 2 - 3, u64::MAX - 4000]),
            13 | 14 => 1 + draw(5),
            _ => 0,
        };
        ev!("store {} leaf-counts {mig} keys {nk} first version {next}", if store.is_sim() { "simdisk" } else { "bundled" });
        W { tree: mk(&store, mig), store, h: Hist::default(), keys, pre, ctr: 0, mig, legacy: !mig, next, least: 0, empty_vals: !preimages, use_batch: true, big, long }
    }

    /// Sometimes: the store starts out with a state from before version 0
    /// (restored from elsewhere), which the first update builds on.
    pub fn pre_genesis(mut self) -> R<W> {
        if self.next != 0 || !self.store.is_sim() || draw(10) != 9 {
            return Ok(self);
        }
        let mut m = Map::new();
        for _ in 0..1 + draw(6) {
            m.insert(*pick(&self.keys), gen_val(&mut self.ctr, self.empty_vals));
        }
        ev!("pre-genesis state {}", show(&m.iter().map(|(k, v)| (*k, Some(v.clone()))).collect()));
        count("op.pre_genesis");
        put_pre_genesis(&self.store, &m, self.mig)?;
        self.h.base = m;
        Ok(self)
    }

    pub fn gen_set(&mut self, m: &Map) -> Set {
        let n = match weighted(&[4, 2, 1, 3, 1]) {
            0 => 1,
            1 => 2,
            2 => 0,
            3 if self.big => 1 + draw(200),
            3 => 1 + draw(6),
            _ => 1 + draw(16),
        };
        let mut cur = m.clone();
        let mut out = vec![];
        if !cur.is_empty() && draw(12) == 11 {
            // wipe (almost) everything
            let mut ks: Vec<_> = cur.keys().copied().collect();
            shuffle(&mut ks);
            let keep = draw(2) as usize;
            ks.truncate(ks.len().saturating_sub(keep));
            return ks.into_iter().map(|k| (k, None)).collect();
        }
        for _ in 0..n {
            let present: Vec<_> = cur.keys().copied().collect();
            let (k, v) = match weighted(&[6, 3, 1, 1]) {
                0 => (*pick(&self.keys), Some(gen_val(&mut self.ctr, self.empty_vals))),
                1 if !present.is_empty() => (*pick(&present), None),
                2 if !present.is_empty() => {
                    let k = *pick(&present);
                    (k, cur.get(&k).cloned())
                }
                _ => (*pick(&self.keys), None),
            };
            out.push((k, v));
            cur = apply(&cur, &vec![out.last().unwrap().clone()]);
        }
        out
    }
    /// number of steps of the run
    pub fn steps(&self) -> u64 {
        if self.long {
            40 + draw(120)
        } else {
            2 + draw(14)
        }
    }
    pub fn gen_sets(&mut self) -> Vec<Set> {
        let k = match draw(5) {
            4 if self.long && draw(4) == 3 => 4 + draw(60),
            4 => 3,
            3 => 2,
            _ => 1,
        };
        let mut m = self.h.cur();
        let mut v = vec![];
        for _ in 0..k {
            let s = self.gen_set(&m);
            m = apply(&m, &s);
            v.push(s);
        }
        v
    }
    pub fn method(&self, sets: &[Set]) -> Method {
        let can_batch = self.use_batch
            && (self.next == 0 || self.h.latest().is_some())
            && sets.iter().all(|s| !s.is_empty() && s.iter().all(|x| x.1.is_some()));
        match draw(3) {
            0 if sets.len() == 1 => Method::One,
            2 if can_batch => Method::Batch,
            1 if self.store.is_sim() && draw(3) == 2 => Method::Group,
            _ => Method::Many,
        }
    }
    pub fn compute(&self, sets: &[Set], m: Method) -> Result<Computed> {
        compute(&self.tree, sets, m, self.next)
    }
    /// contents after each of the sets
    pub fn after(&self, sets: &[Set]) -> Vec<Map> {
        let mut m = self.h.cur();
        sets.iter()
            .map(|s| {
                m = apply(&m, s);
                m.clone()
            })
            .collect()
    }
    pub fn record(&mut self, sets: &[Set]) {
        for (i, m) in self.after(sets).into_iter().enumerate() {
            let v = self.next + i as u64;
            self.h.at.insert(v, m);
            self.h.touched.insert(v, sets[i].iter().map(|x| x.0).collect());
        }
        self.next += sets.len() as u64;
    }
    pub fn show_sets(&self, what: &str, m: Method, sets: &[Set]) {
        for (i, s) in sets.iter().enumerate() {
            ev!("{what} v{} ({m:?}) {}", self.next + i as u64, show(s));
        }
    }
    /// fault-free commit
    pub fn commit(&mut self) -> R<(Vec<Set>, Computed)> {
        let sets = self.gen_sets();
        let m = self.method(&sets);
        self.show_sets("commit", m, &sets);
        let c = self.compute_ok(&sets, m)?;
        self.write_ok(&c)?;
        self.record(&sets);
        Ok((sets, c))
    }
    pub fn compute_ok(&self, sets: &[Set], m: Method) -> R<Computed> {
        match must("computing an update", || self.compute(sets, m))? {
            Ok(c) => Ok(c),
            Err(e) => fail!("update-refused", "computing v{} on a healthy store failed: {e:#}", self.next),
        }
    }
    pub fn write_ok(&self, c: &Computed) -> R {
        match must("writing an update", || self.store.commit(c.1.clone()))? {
            Ok(()) => Ok(()),
            Err(e) => fail!("commit-refused", "a healthy store refused the computed update for v{}: {e:#}", self.next),
        }
    }
    pub fn restart(&mut self) -> R {
        self.store = self.store.reopen()?;
        if chance(1, 8) {
            // the new release runs with the flag switched
            self.mig = !self.mig;
            self.legacy |= !self.mig;
            ev!("restarted with leaf counts {}", self.mig);
        }
        self.tree = mk(&self.store, self.mig);
        Ok(())
    }
    /// every version committed, and some around them
    pub fn near(&self) -> std::ops::Range<u64> {
        let first = self.h.at.keys().next().copied().unwrap_or(self.next);
        first.saturating_sub(6)..self.next + 1
    }
    pub fn versions(&self) -> Vec<u64> {
        self.h.at.keys().copied().filter(|v| *v >= self.least).collect()
    }
    /// a key worth asking about: known, or close to a known one
    pub fn probe(&self) -> KeyHash {
        if draw(4) == 3 {
            gen_key(&self.keys)
        } else {
            *pick(&self.keys)
        }
    }
    pub fn check_get(&self, v: u64, k: KeyHash) -> R {
        let want = self.h.get(v, &k);
        let got = must("get", || self.tree.get(k, v))?;
        match got {
            Ok(g) => check!(g == want, "wrong-read", "get {} at v{v}: got {} want {}", kn(&k), vn(&g), vn(&want)),
            Err(e) => fail!("read-refused", "get {} at v{v} (committed, not pruned) failed: {e:#}", kn(&k)),
        }
        match draw(4) {
            0 => {}
            3 => {
                let g = must("get_with_proof", || self.tree.get_with_proof(k, v))?;
                check!(matches!(&g, Ok(x) if x.0 == want), "wrong-read", "get_with_proof {} at v{v}: {g:?} want {}", kn(&k), vn(&want));
                if let Ok((g, p)) = g {
                    let r = must("verify", || p.verify(RootHash(root(&self.h.at[&v])), k, g))?;
                    check!(r.is_ok(), "wrong-proof", "the proof of {} at v{v} does not verify: {r:?}", kn(&k));
                }
            }
            1 => {
                let c = must("contains", || self.tree.contains(k, v))?;
                check!(matches!(c, Ok(x) if x == want.is_some()), "wrong-read", "contains {} at v{v}: {c:?} want {}", kn(&k), want.is_some());
            }
            _ => {
                let g = must("database get", || jmt::db::VersionedDatabase::get(&self.store, v.into(), k))?;
                check!(matches!(&g, Ok(x) if *x == want), "wrong-read", "database get {} at max version {v}: {g:?} want {}", kn(&k), vn(&want));
            }
        }
        Ok(())
    }
    pub fn check_root(&self, v: u64, oracle: &str) -> R {
        let want = root(&self.h.at[&v]);
        let got = must("get_root_hash", || self.tree.get_root_hash(v))?;
        match got {
            Ok(g) => check!(g.0 == want, oracle, "root at v{v} is {} but the canonical root of its {} entries is {}", hx(&g.0[..6]), self.h.at[&v].len(), hx(&want[..6])),
            Err(e) => fail!(oracle, "root at v{v} (committed, not pruned) unreadable: {e:#}"),
        }
        Ok(())
    }
    pub fn check_all_reads(&self) -> R {
        for v in self.versions() {
            for k in &self.keys {
                if !(self.big || self.long) || draw(4) == 0 {
                    self.check_get(v, *k)?;
                }
            }
            self.check_root(v, "wrong-root")?;
        }
        Ok(())
    }
    pub fn check_unborn(&self) -> R {
        // a version nobody committed has no contents
        let v = self.next + draw(3);
        let k = *pick(&self.keys);
        let r = must("get_root_hash_option", || self.tree.get_root_hash_option(v))?;
        check!(matches!(r, Ok(None)), "phantom-version", "v{v} was never committed but has a root: {r:?}");
        let g = must("get_with_proof", || self.tree.get_with_proof(k, v))?;
        check!(g.is_err(), "phantom-version", "v{v} was never committed but {} reads as {g:?}", kn(&k));
        Ok(())
    }
    pub fn check_roots_of(&self, sets: &[Set], c: &Computed, oracle: &str) -> R {
        let want: Vec<_> = self.after(sets).iter().map(root).collect();
        let got: Vec<_> = c.0.iter().map(|r| r.0).collect();
        check!(got == want, oracle, "computed roots {:?} want {:?}", got.iter().map(|x| hx(&x[..6])).collect::<Vec<_>>(), want.iter().map(|x| hx(&x[..6])).collect::<Vec<_>>());
        Ok(())
    }
    pub fn iter_from(&self, v: u64, start: KeyHash) -> Result<JellyfishMerkleIterator<Store>> {
        if start.0 == [0; 32] && draw(2) == 1 {
            self.tree.iter(v)
        } else {
            JellyfishMerkleIterator::new(Arc::new(self.store.clone()), v, start)
        }
    }
    pub fn iterate_ok(&self, v: u64, start: KeyHash) -> R {
        let want: Vec<_> = self.h.at[&v].range(start..).map(|(k, x)| (*k, x.clone())).collect();
        let got = must("iterating", || -> Result<Vec<_>> { self.iter_from(v, start)?.take(want.len() + 3).collect() })?;
        match got {
            Ok(g) => check!(g == want, "wrong-iteration", "iterating v{v} from {}: got {} items {:?}, want {} {:?}", kn(&start), g.len(), g.iter().map(|x| kn(&x.0)).collect::<Vec<_>>(), want.len(), want.iter().map(|x| kn(&x.0)).collect::<Vec<_>>()),
            Err(e) => fail!("iteration-refused", "iterating v{v} failed on a healthy store: {e:#}"),
        }
        Ok(())
    }
    /// every way to prove something about `k` at `v`, and to start an iteration there
    pub fn provable(&self, v: u64, k: KeyHash, oracle: &str) -> R {
        let m = &self.h.at[&v];
        let want = m.get(&k).cloned();
        let rt = RootHash(root(m));
        match must("get_with_proof", || self.tree.get_with_proof(k, v))? {
            Ok((g, p)) => {
                check!(g == want, oracle, "{} at v{v} is proved to be {} want {}", kn(&k), vn(&g), vn(&want));
                check!(must("verify", || p.verify(rt, k, g))?.is_ok(), oracle, "the proof of {} at v{v} does not verify", kn(&k));
            }
            Err(e) => fail!(oracle, "no proof of {} at v{v}: {e:#}", kn(&k)),
        }
        if m.is_empty() {
            return Ok(());
        }
        match must("get_with_exclusion_proof", || self.tree.get_with_exclusion_proof(k, v))? {
            Ok(r) => exclusion_ok(&self.tree, v, m, k, rt, r, oracle)?,
            Err(e) => fail!(oracle, "no exclusion proof of {} at v{v}: {e:#}", kn(&k)),
        }
        if want.is_some() {
            let left: Vec<_> = path(m, &k).iter().rev().filter(|x| x.0).map(|x| x.1).collect();
            match must("get_range_proof", || self.tree.get_range_proof(k, v))? {
                Ok(p) => check!(must("verify", || p.verify(rt, sparse_leaf(m, k).unwrap(), left))?.is_ok(), oracle, "the range proof up to {} at v{v} does not verify", kn(&k)),
                Err(e) => fail!(oracle, "no range proof up to {} at v{v}: {e:#}", kn(&k)),
            }
        }
        if let Some(p) = self.pre.get(&k) {
            match must("get_with_ics23_proof", || self.tree.get_with_ics23_proof(p.clone(), v))? {
                Ok((g, q)) => {
                    check!(g == want, oracle, "ics23 answer for {} at v{v} is {} want {}", kn(&k), vn(&g), vn(&want));
                    check!(crate::jnet::ics_verify(&q, &rt, p, &g)?, oracle, "the ics23 proof of {} at v{v} does not verify", kn(&k));
                }
                Err(e) => fail!(oracle, "no ics23 proof of {} at v{v}: {e:#}", kn(&k)),
            }
        }
        self.iterate_ok(v, k)
    }
    pub fn prune(&mut self) -> R {
        let vs = self.versions();
        if vs.is_empty() {
            return Ok(());
        }
        let r = *pick(&vs);
        ev!("prune: v{r} stays the oldest readable");
        count("op.prune");
        match must("pruning", || self.store.prune(r))? {
            Ok(()) => {}
            Err(e) => fail!("prune-refused", "pruning up to v{r} failed: {e:#}"),
        }
        self.least = self.least.max(r);
        Ok(())
    }
}

/// The batched computation with the hashes of all new nodes given beforehand, as
/// taken from the update `c` another node computed.
pub fn compute_with_hashes(tree: &Tree, sets: &[Set], c: &Computed, v: u64) -> Result<Computed> {
    use borsh::{BorshDeserialize, BorshSerialize};
    let mut maps: Vec<_> = sets.iter().map(|_| Default::default()).collect();
    let s = sets.iter().map(|s| s.iter().map(|(k, x)| (*k, x.clone().unwrap())).collect::<Vec<_>>()).collect::<Vec<_>>();
    if false {
        // names the map's type
        let _ = tree.batch_put_value_sets(s.clone(), Some(maps.iter().collect()), v);
    }
    for (k, n) in c.1.node_batch.nodes() {
        let h = match n {
            Node::Internal(i) => i.hash(),
            Node::Leaf(l) => l.hash(),
            Node::Null => continue,
        };
        // the type of a node's position is not exported; its encoding is
        let path = &k.try_to_vec()?[8..];
        maps[(k.version() - v) as usize].insert(BorshDeserialize::try_from_slice(path)?, h);
    }
    tree.batch_put_value_sets(s, Some(maps.iter().collect()), v)
}

pub fn compute(tree: &Tree, sets: &[Set], m: Method, v: u64) -> Result<Computed> {
    match m {
        Method::One => {
            let (r, b) = tree.put_value_set(sets[0].clone(), v)?;
            Ok((vec![r], b))
        }
        Method::Many => tree.put_value_sets(sets.to_vec(), v),
        Method::Group => {
            let pending = tree.reader().reopen().map_err(|v| anyhow::anyhow!(v.msg))?;
            let t = tree_like(tree, &pending);
            let mut roots = vec![];
            let mut all = TreeUpdateBatch::default();
            for (i, s) in sets.iter().enumerate() {
                let (r, b) = t.put_value_set(s.clone(), v + i as u64)?;
                roots.push(r);
                if b.node_batch.is_empty() && b.stale_node_index_batch.is_empty() {
                    // nothing to write
                    continue;
                }
                if let Some((k, n)) = b.node_batch.nodes().iter().find(|(k, n)| b.node_batch.get_node(k) != Some(n)) {
                    anyhow::bail!("the batch lists node {k:?} = {n:?} but does not find it");
                }
                pending.commit(b.clone())?;
                all.node_batch.merge(b.node_batch);
                all.stale_node_index_batch.extend(b.stale_node_index_batch);
                all.node_stats.extend(b.node_stats);
            }
            Ok((roots, all))
        }
        Method::Batch => {
            let s = sets.iter().map(|s| s.iter().map(|(k, x)| (*k, x.clone().unwrap())).collect::<Vec<_>>()).collect();
            tree.batch_put_value_sets(s, None, v)
        }
    }
}

/// Restore `m` as the state at the version before version 0.
pub fn put_pre_genesis(store: &Store, m: &Map, mig: bool) -> R {
    use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
    if let Kind::Sim(s) = &store.kind {
        s.disk.lock().unwrap().pre = true;
    }
    let from = Store::sim();
    let t = mk(&from, mig);
    let set: Set = m.iter().map(|(k, v)| (*k, Some(v.clone()))).collect();
    let r = guard(|| -> Result<()> {
        let c = compute(&t, &[set], Method::One, 0)?;
        from.commit(c.1)?;
        let last = *m.keys().next_back().unwrap();
        let proof = t.get_range_proof(last, 0)?;
        let mut r = JellyfishMerkleRestore::<Hs>::new(Arc::new(store.clone()), u64::MAX, c.0[0], mig)?;
        r.add_chunk(m.iter().map(|(k, v)| (*k, v.clone())).collect(), proof)?;
        r.finish()
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => fail!("pre-genesis", "restoring a state before version 0 failed: {e:#}"),
        Err(e) => fail!("pre-genesis", "restoring a state before version 0: {e:?}"),
    }
}


/// A commit during which the process may die or storage may fail. Afterwards
/// the process restarts if needed; returns whether the sets are committed.
pub fn faulty_commit(w: &mut W, oracle: &str) -> R<bool> {
    let sets = w.gen_sets();
    let m = w.method(&sets);
    w.show_sets("try", m, &sets);
    let before = w.store.fingerprint();
    // where it goes wrong
    let crash_ok = w.store.is_sim();
    match draw(4) {
        0 => w.store.p().read_in = Some((draw(12), RFault::Error)),
        1 if crash_ok => w.store.p().read_in = Some((draw(12), RFault::Crash)),
        2 if crash_ok => w.store.p().write_crash = Some(draw(1001)),
        3 if crash_ok => w.store.p().write_crash = Some(1001),
        _ => w.store.p().write_error = crash_ok,
    }
    let r = guard(|| -> Result<Computed> {
        let c = w.compute(&sets, m)?;
        w.store.commit(c.1.clone())?;
        Ok(c)
    });
    w.store.clear_faults();
    let done = match r {
        Ok(Ok(c)) => {
            w.check_roots_of(&sets, &c, oracle)?;
            true
        }
        Ok(Err(_)) => false,
        Err(OpErr::Panic(p)) => fail!("panic", "an update under storage faults panicked: {p}"),
        Err(OpErr::Crash) => {
            w.restart()?;
            w.store.fingerprint() != before
        }
    };
    if done {
        w.record(&sets);
        ev!("  -> committed, next v{}", w.next);
        for v in w.next - sets.len() as u64..w.next {
            w.check_root(v, oracle)?;
        }
    } else {
        check!(w.store.fingerprint() == before, oracle, "a failed update left something behind in the store");
        ev!("  -> nothing committed");
        w.check_unborn()?;
        if let Some(v) = w.h.latest() {
            if v >= w.least {
                w.check_root(v, oracle)?;
            }
        }
        // retry from scratch: same roots, same batch, on this and on an
        // untouched twin of the store
        if draw(3) != 0 {
            let a = w.compute_ok(&sets, m)?;
            w.check_roots_of(&sets, &a, oracle)?;
            let twin = mk(&w.store.reopen()?, w.mig);
            let b = must("computing on a twin", || compute(&twin, &sets, m, w.next))?;
            check!(matches!(&b, Ok(b) if *b == a), oracle, "the retried update differs from the same update computed by a fresh process");
            w.write_ok(&a)?;
            w.record(&sets);
            ev!("  -> retried and committed, next v{}", w.next);
            return Ok(true);
        }
    }
    Ok(done)
}

pub fn speculate(w: &mut W) -> R {
    let sets = w.gen_sets();
    let m = w.method(&sets);
    w.show_sets("speculate", m, &sets);
    count("op.speculate");
    let before = w.store.fingerprint();
    let a = w.compute_ok(&sets, m)?;
    w.check_roots_of(&sets, &a, "speculation")?;
    check!(w.store.fingerprint() == before, "speculation", "computing an update changed the store");
    w.check_unborn()?;
    let b = w.compute_ok(&sets, m)?;
    check!(a == b, "speculation", "the same update computed twice gives different results");
    if m == Method::Batch && draw(2) == 1 {
        count("op.given_hashes");
        let c = must("computing with given hashes", || compute_with_hashes(&w.tree, &sets, &a, w.next))?;
        check!(matches!(&c, Ok(c) if *c == a), "speculation", "the same update computed with the node hashes given gives {}", c.as_ref().map_or_else(|e| format!("{e:#}"), |_| "another result".into()));
    }
    // an update on top of any version that is still readable (a fork)
    if draw(4) == 3 {
        let vs: Vec<u64> = w.versions();
        if !vs.is_empty() {
            let base = *pick(&vs);
            let at = w.h.at[&base].clone();
            let set = w.gen_set(&at);
            // known finding: see known_fork_emptied
            let set = if deletes_after_emptying(&at, &set) && base + 1 < w.next { vec![] } else { set };
            count("op.fork");
            ev!("fork v{base}: {}", show(&set));
            let c = must("computing a fork", || compute(&w.tree, &[set.clone()], if draw(2) == 0 { Method::One } else { Method::Many }, base + 1))?;
            let want = root(&apply(&at, &set));
            match c {
                Ok(c) => check!(c.0[0].0 == want, "speculation", "the update on top of v{base} has root {} want {}", hx(&c.0[0].0[..6]), hx(&want[..6])),
                Err(e) => fail!("speculation", "an update on top of v{base} is refused: {e:#}"),
            }
            check!(w.store.fingerprint() == before, "speculation", "computing a fork changed the store");
        }
    }
    if sets.len() == 1 {
        let m2 = if m == Method::One { Method::Many } else { Method::One };
        let c = w.compute_ok(&sets, m2)?;
        check!(a.0 == c.0, "speculation", "the same update through another entry point gives another root");
    }
    Ok(())
}

/// the update empties the tree at some point and deletes again while it is empty
fn deletes_after_emptying(m: &Map, set: &Set) -> bool {
    let mut m = m.clone();
    let mut emptied = false;
    for (k, v) in set {
        if v.is_none() && emptied && m.is_empty() {
            return true;
        }
        let had = !m.is_empty();
        m = apply(&m, &vec![(*k, v.clone())]);
        emptied |= had && m.is_empty();
    }
    false
}

/// Known finding: an update computed on top of a version that already has a
/// successor in the store, which empties the tree and then deletes once more.
pub fn known_fork_emptied() -> R {
    let store = Store::sim();
    let t = mk(&store, true);
    let (a, b) = (KeyHash([0x10; 32]), KeyHash([0x20; 32]));
    for (v, set) in [vec![(a, Some(vec![1]))], vec![(b, Some(vec![2]))]].into_iter().enumerate() {
        let c = compute(&t, &[set], Method::One, v as u64).map_err(|e| Violation { oracle: "harness".into(), msg: e.to_string() })?;
        check!(store.commit(c.1).is_ok(), "harness", "commit refused");
    }
    let c = must("computing a fork", || compute(&t, &[vec![(a, None), (b, None)]], Method::One, 1))?;
    let want = root(&Map::new());
    match c {
        Ok(c) => check!(c.0[0].0 == want, "fork-emptied", "an update on top of v0 that deletes the only entry and then an absent key reports the root stored for v1 instead of the empty root"),
        Err(e) => fail!("speculation", "refused: {e:#}"),
    }
    Ok(())
}

// ------------------------------------------------------------- properties

/// J01 versioned snapshot reads
pub fn j01() -> R {
    let mut w = W::new(Store::pick_kind(), false, 20).pre_genesis()?;
    for _ in 0..w.steps() {
        match weighted(&[5, 2, 2, 1, 1]) {
            0 => {
                w.commit()?;
            }
            1 => {
                faulty_commit(&mut w, "wrong-root")?;
            }
            2 => {
                for _ in 0..1 + draw(6) {
                    let vs = w.versions();
                    if vs.is_empty() {
                        break;
                    }
                    w.check_get(*pick(&vs), w.probe())?;
                }
            }
            3 => {
                ev!("restart");
                count("fault.restart");
                w.restart()?;
            }
            _ => {
                w.check_unborn()?;
                if draw(3) == 2 {
                    w.prune()?;
                }
            }
        }
    }
    w.check_all_reads()?;
    for v in w.versions() {
        w.check_get(v, gen_key(&w.keys))?;
    }
    w.check_unborn()
}

/// J03 speculative, failed and retried updates
pub fn j03() -> R {
    let mut w = W::new(Store::pick_kind(), false, 16).pre_genesis()?;
    for _ in 0..w.steps() {
        match weighted(&[3, 4, 3, 1]) {
            0 => {
                w.commit()?;
            }
            1 => {
                faulty_commit(&mut w, "commit-atomicity")?;
            }
            2 => speculate(&mut w)?,
            _ => {
                count("fault.restart");
                w.restart()?
            }
        }
    }
    w.check_all_reads()
}

/// J04 pruning
pub fn j04() -> R {
    let mut w = W::new(Store::pick_kind(), draw(3) == 2, 20).pre_genesis()?;
    for _ in 0..w.steps() + 2 {
        match weighted(&[5, 2, 3, 1]) {
            0 => {
                w.commit()?;
            }
            1 => {
                faulty_commit(&mut w, "wrong-root")?;
            }
            2 => {
                w.prune()?;
                check_retained(&w)?;
            }
            _ => w.restart()?,
        }
    }
    w.prune()?;
    check_retained(&w)?;
    // and life goes on
    w.commit()?;
    w.check_all_reads()
}

fn check_retained(w: &W) -> R {
    let mut reachable: BTreeSet<NodeKey> = BTreeSet::new();
    let mut roots: BTreeSet<NodeKey> = BTreeSet::new();
    for v in w.versions() {
        w.store.start_log();
        w.check_root(v, "pruned-too-much")?;
        let l = w.store.take_log();
        roots.extend(l);
        w.store.start_log();
        let got = must("iterating", || -> Result<Vec<_>> { w.tree.iter(v)?.collect() })?;
        reachable.extend(w.store.take_log());
        let want: Vec<_> = w.h.at[&v].iter().map(|(k, x)| (*k, x.clone())).collect();
        match got {
            Ok(g) => check!(g == want, "pruned-too-much", "after pruning, v{v} iterates as {} entries instead of {}", g.len(), want.len()),
            Err(e) => fail!("pruned-too-much", "after pruning, v{v} is unreadable: {e:#}"),
        }
        for k in &w.keys {
            let g = must("get", || w.tree.get(*k, v))?;
            check!(matches!(&g, Ok(x) if *x == w.h.get(v, k)), "pruned-too-much", "after pruning, {} at v{v} reads {g:?} want {}", kn(k), vn(&w.h.get(v, k)));
        }
        if draw(2) == 1 {
            w.provable(v, w.probe(), "pruned-too-much")?;
        }
    }
    // which keys name roots: ask for every version's root and see what is read
    for v in w.near() {
        w.store.start_log();
        let _ = must("get_root_hash_option", || w.tree.get_root_hash_option(v))?;
        roots.extend(w.store.take_log());
    }
    if w.h.at.is_empty() && !w.h.base.is_empty() {
        return Ok(());
    }
    if w.next > 0 && w.h.at.keys().next().map_or(false, |f| *f > 0) || !w.h.base.is_empty() {
        w.store.start_log();
        let _ = must("get_root_hash_option", || w.tree.get_root_hash_option(u64::MAX))?;
        roots.extend(w.store.take_log());
    }
    let left: Vec<_> = w.store.node_keys().into_iter().filter(|k| !reachable.contains(k) && !roots.contains(k)).collect();
    count_n("check.nodes_reachable", reachable.len() as u64);
    check!(left.is_empty(), "pruned-too-little", "after pruning up to v{}, {} nodes no readable version needs are still stored, e.g. {:?}", w.least, left.len(), left[0]);
    Ok(())
}

/// J07 iteration
pub fn j07() -> R {
    let mut w = W::new(Store::pick_kind(), false, 24).pre_genesis()?;
    struct It {
        it: JellyfishMerkleIterator<Store>,
        want: Vec<(KeyHash, Val)>,
        pos: usize,
        v: u64,
        store: Store,
    }
    let mut open: Vec<It> = vec![];
    for _ in 0..w.steps() + 4 {
        match weighted(&[4, 4, 6, 2, 1]) {
            0 => {
                w.commit()?;
            }
            1 => {
                let vs = w.versions();
                if vs.is_empty() {
                    continue;
                }
                let v = *pick(&vs);
                let m = &w.h.at[&v];
                let store = Store { kind: w.store.kind.clone(), plan: Default::default() };
                let by_index = draw(4) == 3;
                if by_index {
                    let n = draw(m.len() as u64 + 2) as usize;
                    ev!("open iterator v{v} at index {n}");
                    let it = must("opening an iterator", || JellyfishMerkleIterator::new_by_index(Arc::new(store.clone()), v, n))?;
                    match it {
                        Ok(it) => open.push(It { it, want: m.iter().skip(n).map(|(k, x)| (*k, x.clone())).collect(), pos: 0, v, store }),
                        Err(e) => check!(w.legacy, "iteration-refused", "opening an iterator at v{v} index {n} failed: {e:#}"),
                    }
                } else {
                    let start = if draw(3) == 0 { KeyHash([0; 32]) } else { w.probe() };
                    ev!("open iterator v{v} from {}", kn(&start));
                    let f = faults_on(&store);
                    let mut it = must("opening an iterator", || JellyfishMerkleIterator::new(Arc::new(store.clone()), v, start))?;
                    if it.is_err() && store.fired() > f {
                        store.clear_faults();
                        it = must("opening an iterator", || JellyfishMerkleIterator::new(Arc::new(store.clone()), v, start))?;
                    }
                    store.clear_faults();
                    match it {
                        Ok(it) => open.push(It { it, want: m.range(start..).map(|(k, x)| (*k, x.clone())).collect(), pos: 0, v, store }),
                        Err(e) => fail!("iteration-refused", "opening an iterator at v{v} failed: {e:#}"),
                    }
                }
            }
            2 => {
                if open.is_empty() {
                    continue;
                }
                let i = draw(open.len() as u64) as usize;
                let o = &mut open[i];
                for _ in 0..1 + draw(5) {
                    advance(&mut o.it, &o.want, &mut o.pos, o.v, &o.store)?;
                }
            }
            3 => {
                w.prune()?;
                let l = w.least;
                open.retain(|o| o.v >= l);
            }
            _ => {
                let vs = w.versions();
                if let Some(v) = vs.last() {
                    w.iterate_ok(*v, w.probe())?;
                }
            }
        }
    }
    for mut o in open {
        let mut guardrail = 4 * o.want.len() + 40;
        while o.pos <= o.want.len() {
            advance(&mut o.it, &o.want, &mut o.pos, o.v, &o.store)?;
            guardrail -= 1;
            check!(guardrail > 0, "iteration-stuck", "an iterator at v{} makes no progress", o.v);
        }
    }
    for v in w.versions() {
        w.iterate_ok(v, KeyHash([0; 32]))?;
        w.iterate_ok(v, w.probe())?;
    }
    return Ok(());

    fn faults_on(s: &Store) -> u64 {
        if draw(3) == 2 {
            s.p().read_in = Some((draw(6), RFault::Error));
        }
        s.fired()
    }
    fn advance(it: &mut JellyfishMerkleIterator<Store>, want: &[(KeyHash, Val)], pos: &mut usize, v: u64, s: &Store) -> R {
        let f = faults_on(s);
        let got = must("advancing an iterator", || it.next())?;
        let fired = s.fired() > f;
        s.clear_faults();
        match got {
            Some(Ok(x)) => {
                check!(*pos < want.len(), "wrong-iteration", "v{v}: item {} after the last entry", kn(&x.0));
                check!(x == want[*pos], "wrong-iteration", "v{v}: item #{} is {}={} but should be {}={}", pos, kn(&x.0), vn(&Some(x.1.clone())), kn(&want[*pos].0), vn(&Some(want[*pos].1.clone())));
                *pos += 1;
            }
            Some(Err(e)) => check!(fired, "iteration-refused", "v{v}: error {e:#} although storage answered every read"),
            None => {
                check!(*pos >= want.len(), "wrong-iteration", "v{v}: ended after {} of {} entries{}", pos, want.len(), if fired { " (a read failed in this call)" } else { "" });
                *pos = want.len() + 1;
            }
        }
        Ok(())
    }
}

/// J11 storage read faults
pub fn j11() -> R {
    let mut w = W::new(Store::pick_kind(), true, 20).pre_genesis()?;
    w.empty_vals = false;
    if !w.h.base.is_empty() {
        // the first update on top of a restored state
        for _ in 0..draw(4) {
            w.store.p().read_in = Some((draw(5), RFault::Error));
            let sets = w.gen_sets();
            let m = w.method(&sets);
            w.show_sets("compute", m, &sets);
            if let Ok(c) = must("computing an update", || w.compute(&sets, m))? {
                w.check_roots_of(&sets, &c, "wrong-under-fault")?;
            }
            w.store.clear_faults();
        }
    }
    for _ in 0..2 + draw(6) {
        w.commit()?;
    }
    // which stored nodes are roots (losing a root means the version is gone,
    // which callers are told in another way)
    w.store.start_log();
    for v in w.near() {
        let _ = must("get_root_hash_option", || w.tree.get_root_hash_option(v))?;
    }
    let roots: BTreeSet<_> = w.store.take_log().into_iter().collect();
    let inner: Vec<_> = w.store.node_keys().into_iter().filter(|k| !roots.contains(k)).collect();
    let latest = w.h.latest().unwrap();
    for _ in 0..6 + draw(10) {
        // pick a fault
        match draw(3) {
            0 => w.store.p().read_in = Some((draw(10), RFault::Error)),
            1 if !inner.is_empty() => {
                for _ in 0..1 + draw(3) {
                    let k = pick(&inner).clone();
                    w.store.p().missing.insert(k);
                }
            }
            1 => {
                let k = *pick(&w.keys);
                w.store.p().missing_vals.insert(k);
            }
            _ => w.store.p().error_rate = *pick(&[2, 4, 8]),
        }
        if draw(4) == 3 {
            let k = *pick(&w.keys);
            w.store.p().missing_vals.insert(k);
        }
        let v = *pick(&w.versions());
        let k = w.probe();
        let want = w.h.get(v, &k);
        let rt = RootHash(root(&w.h.at[&v]));
        let op = draw(9);
        // A lost root is not told from a version without a root by an update
        // computed on top of it, whoever asks for something at the version is told.
        let lost = op != 6 && draw(12) == 11;
        if lost {
            if let Some(x) = root_key(&w, v)? {
                ev!("the root of v{v} is lost");
                count("fault.missing_root");
                w.store.p().missing.insert(x);
            }
        }
        ev!("op {op} at v{v} key {} under faults", kn(&k));
        match op {
            0 => {
                // the value history has no way to tell "lost" from "never there"
                w.store.p().missing_vals.clear();
                if let Ok(g) = must("get", || w.tree.get(k, v))? {
                    check!(g == want, "wrong-under-fault", "get {} at v{v} = {} although it should be {} (or an error)", kn(&k), vn(&g), vn(&want));
                }
            }
            1 => {
                if let Ok((g, p)) = must("get_with_proof", || w.tree.get_with_proof(k, v))? {
                    check!(g == want, "wrong-under-fault", "get_with_proof {} at v{v} = {} want {}", kn(&k), vn(&g), vn(&want));
                    check!(p.verify(rt, k, g).is_ok(), "wrong-under-fault", "a proof handed out under faults does not verify");
                }
            }
            2 => {
                let m = &w.h.at[&v];
                if let Ok(r) = must("get_with_exclusion_proof", || w.tree.get_with_exclusion_proof(k, v))? {
                    w.store.clear_faults();
                    w.store.p().missing.clear();
                    w.store.p().missing_vals.clear();
                    exclusion_ok(&w.tree, v, m, k, rt, r, "wrong-under-fault")?;
                }
            }
            3 => {
                if let Some(p) = w.pre.get(&k).cloned() {
                    if let Ok((g, q)) = must("get_with_ics23_proof", || w.tree.get_with_ics23_proof(p.clone(), v))? {
                        check!(g == want, "wrong-under-fault", "ics23 answer {} want {}", vn(&g), vn(&want));
                        check!(crate::jnet::ics_verify(&q, &rt, &p, &g)?, "wrong-under-fault", "an ics23 proof handed out under faults does not verify");
                    }
                }
            }
            4 => {
                if let Ok(p) = must("get_range_proof", || w.tree.get_range_proof(k, v))? {
                    check!(want.is_some(), "wrong-under-fault", "range proof for an absent key");
                    let path = path(&w.h.at[&v], &k);
                    let leaf = sparse_leaf(&w.h.at[&v], k)?;
                    let left: Vec<_> = path.iter().rev().filter(|x| x.0).map(|x| x.1).collect();
                    check!(p.verify(rt, leaf, left).is_ok(), "wrong-under-fault", "a range proof handed out under faults does not verify");
                }
            }
            5 => {
                let start = if draw(2) == 0 { KeyHash([0; 32]) } else { k };
                let want: Vec<_> = w.h.at[&v].range(start..).map(|(k, x)| (*k, x.clone())).collect();
                // after an error the caller may ask on, with or without storage working again
                let heal = draw(2) == 1;
                let mut left = want.len() + 12;
                must("iterating", || -> R {
                    let Ok(mut it) = w.iter_from(v, start) else { return Ok(()) };
                    let mut n = 0;
                    while left > 0 {
                        left -= 1;
                        match it.next() {
                            Some(Err(_)) => {
                                if heal {
                                    w.store.clear_faults();
                                    w.store.p().missing.clear();
                                    w.store.p().missing_vals.clear();
                                }
                            }
                            Some(Ok(x)) => {
                                check!(n < want.len() && x == want[n], "wrong-under-fault", "iteration of v{v}: item {n} is {}", kn(&x.0));
                                n += 1;
                            }
                            None => {
                                check!(n == want.len(), "wrong-under-fault", "iteration of v{v} ended quietly after {n} of {} entries", want.len());
                                break;
                            }
                        }
                    }
                    check!(left > 0 || !heal, "wrong-under-fault", "iteration of v{v} does not end although storage works again");
                    Ok(())
                })??;
            }
            6 => {
                let sets = w.gen_sets();
                let m = w.method(&sets);
                w.show_sets("compute", m, &sets);
                if let Ok(c) = must("computing an update", || w.compute(&sets, m))? {
                    w.check_roots_of(&sets, &c, "wrong-under-fault")?;
                }
            }
            7 => {
                if let Ok(r) = must("get_root_hash", || w.tree.get_root_hash(v))? {
                    check!(r == rt, "wrong-under-fault", "root of v{v} read wrongly");
                }
                if let Ok(n) = must("get_leaf_count", || w.tree.get_leaf_count(v))? {
                    check!(n.map_or(w.legacy, |n| n == w.h.at[&v].len()), "wrong-under-fault", "leaf count of v{v} {n:?}");
                }
            }
            _ => {
                let n = draw(w.h.at[&v].len() as u64 + 1) as usize;
                if let Ok(it) = must("opening by index", || JellyfishMerkleIterator::new_by_index(Arc::new(w.store.clone()), v, n))? {
                    let got: Result<Vec<_>> = must("iterating", || it.collect())?;
                    if let Ok(g) = got {
                        let all: Vec<_> = w.h.at[&v].iter().map(|(k, x)| (*k, x.clone())).collect();
                        check!(g == all[n..], "wrong-under-fault", "iteration by index {n} of v{v} yields {} of {} entries, or others", g.len(), all.len() - n);
                    }
                }
            }
        }
        if lost || draw(2) == 1 {
            w.store.clear_faults();
            w.store.p().missing.clear();
            w.store.p().missing_vals.clear();
        }
    }
    // faults are over: everything is still right
    w.store.clear_faults();
    w.store.p().missing.clear();
    w.store.p().missing_vals.clear();
    let _ = latest;
    w.check_all_reads()
}

/// the key of the record that holds the root of `v`
fn root_key(w: &W, v: u64) -> R<Option<NodeKey>> {
    let plan = std::mem::take(&mut *w.store.p());
    w.store.start_log();
    let _ = must("get_root_hash_option", || w.tree.get_root_hash_option(v))?;
    let k = w.store.take_log().into_iter().next();
    *w.store.p() = plan;
    Ok(k)
}

/// the leaf the library itself would name for `k`
pub fn sparse_leaf(m: &Map, k: KeyHash) -> R<jmt::proof::SparseMerkleLeafNode> {
    use borsh::BorshDeserialize;
    let mut b = k.0.to_vec();
    b.extend(vhash(&m[&k]));
    jmt::proof::SparseMerkleLeafNode::try_from_slice(&b).map_err(|e| Violation { oracle: "harness".into(), msg: e.to_string() })
}

pub type Proof = jmt::proof::SparseMerkleProof<Hs>;

/// An answer of `get_with_exclusion_proof`. The error type cannot be named from
/// outside the crate, so its public fields are read through `Debug` and compared
/// with the neighbours' own (separately verified) proofs.
pub fn exclusion_ok<D: TreeReader + jmt::db::VersionedDatabase, E: std::fmt::Debug>(t: &JellyfishMerkleTree<D, Hs>, v: u64, m: &Map, k: KeyHash, rt: RootHash, r: std::result::Result<(Val, Proof), E>, oracle: &str) -> R {
    let lo = m.range(..k).next_back();
    let hi = m.range(k..).next();
    match r {
        Ok((v, p)) => {
            check!(m.get(&k) == Some(&v), oracle, "claimed {} present as {}", kn(&k), vn(&Some(v.clone())));
            check!(p.verify(rt, k, Some(&v)).is_ok(), oracle, "inclusion proof for {} does not verify", kn(&k));
        }
        Err(e) => {
            check!(!m.contains_key(&k), oracle, "exclusion proof for present key {}", kn(&k));
            let text = format!("{e:?}");
            let half = |field: &str, want: Option<(&KeyHash, &Val)>| -> R {
                let Some((wk, wv)) = want else {
                    check!(!text.contains(field), oracle, "exclusion proof for {} has a {field}, but there is no such neighbour", kn(&k));
                    return Ok(());
                };
                let Ok((_, p)) = must("get_with_proof", || t.get_with_proof(*wk, v))? else {
                    fail!(oracle, "no proof for neighbour {}", kn(wk))
                };
                check!(p.verify(rt, *wk, Some(wv)).is_ok(), oracle, "proof for neighbour {} does not verify", kn(wk));
                check!(text.contains(&format!("{field}: {p:?}")), oracle, "exclusion proof for {}: {field} is not the proof of its neighbour {}", kn(&k), kn(wk));
                Ok(())
            };
            half("leftmost_right_proof", hi)?;
            half("rightmost_left_proof", lo)?;
        }
    }
    Ok(())
}

/// J12 bookkeeping
pub fn j12() -> R {
    if chance(1, 10_000) {
        return huge();
    }
    let mut w = W::new(Store::pick_kind(), false, 20).pre_genesis()?;
    for _ in 0..w.steps() {
        match weighted(&[12, 4, 1, 1]) {
            0 => {
                let (sets, c) = w.commit()?;
                check_stats(&w, &w.store, &sets, &c)?;
            }
            1 => {
                faulty_commit(&mut w, "wrong-root")?;
            }
            2 => w.prune()?,
            _ => w.restart()?,
        }
        check_books(&w)?;
    }
    return check_books(&w);

    /// tens of thousands of entries
    fn huge() -> R {
        count("run.huge");
        let mut x = draw(1 << 32);
        let n = *pick(&[16_300, 65_600, 32_700]) + draw(300) as usize;
        let mut next = || {
            x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let z = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z ^ (z >> 29)
        };
        let mut w = W::new(Store::sim(), false, 1);
        let mut all: Set = vec![];
        for i in 0..n {
            let mut k = [0u8; 32];
            k[..8].copy_from_slice(&next().to_be_bytes());
            k[8..10].copy_from_slice(&(i as u16).to_be_bytes());
            all.push((KeyHash(k), Some(vec![i as u8, (i >> 8) as u8])));
        }
        ev!("{n} entries, then a few of them removed");
        let gone: Set = all.iter().take(n / 50).map(|x| (x.0, None)).collect();
        let kept: Set = all.split_off(n / 50);
        let gone_first: Set = gone.iter().map(|x| (x.0, Some(vec![7]))).collect();
        let m = if draw(2) == 1 && w.next == 0 { Method::Batch } else { Method::Many };
        for (sets, m) in [(vec![gone_first, kept], m), (vec![gone], Method::Many)] {
            let c = w.compute_ok(&sets, m)?;
            w.check_roots_of(&sets, &c, "wrong-root")?;
            w.write_ok(&c)?;
            w.record(&sets);
            check_books(&w)?;
        }
        let v = w.next - 1;
        w.check_get(v, *w.h.at[&v].keys().next_back().unwrap())?;
        w.iterate_ok(v, KeyHash([0x70; 32]))
    }

    fn check_books(w: &W) -> R {
        for v in w.versions() {
            let n = must("get_leaf_count", || w.tree.get_leaf_count(v))?;
            let want = w.mig.then(|| w.h.at[&v].len());
            // nodes written without the flag need not know their count
            check!(matches!(n, Ok(n) if n == want || w.legacy && n.is_none()), "leaf-count", "leaf count at v{v}: {n:?} want {want:?}");
        }
        let want = w.h.cur().len();
        let n = must("len", || w.tree.len())?;
        check!(n == want, "len", "len() is {n}, the newest version holds {want} entries");
        let e = must("is_empty", || w.tree.is_empty())?;
        check!(e == (want == 0), "len", "is_empty() is {e}, the newest version holds {want} entries");
        if !w.h.base.is_empty() {
            // the version before 0 is the greatest number there is
            return Ok(());
        }
        let want = w.h.touched.iter().rev().find(|(_, k)| !k.is_empty()).map_or(0, |x| *x.0);
        let v = must("version", || w.tree.version())?;
        check!(v == want, "version", "version() is {v}, the last version with a recorded change is {want}");
        Ok(())
    }
    fn check_stats(w: &W, before: &Store, sets: &[Set], c: &Computed) -> R {
        let b = &c.1;
        check!(b.node_stats.len() == sets.len(), "stats", "{} statistics for {} versions", b.node_stats.len(), sets.len());
        let first = w.next - sets.len() as u64;
        for (i, s) in b.node_stats.iter().enumerate() {
            let v = first + i as u64;
            let nn: Vec<_> = b.node_batch.nodes().iter().filter(|(k, _)| k.version() == v).collect();
            let leaves = nn.iter().filter(|x| matches!(x.1, Node::Leaf(_))).count();
            let stale = b.stale_node_index_batch.iter().filter(|x| x.stale_since_version == v).count();
            check!(s.new_nodes == nn.len(), "stats", "v{v}: {} new nodes reported, {} in the batch", s.new_nodes, nn.len());
            check!(s.new_leaves == leaves, "stats", "v{v}: {} new leaves reported, {leaves} in the batch", s.new_leaves);
            check!(s.stale_nodes == stale, "stats", "v{v}: {} stale nodes reported, {stale} in the batch", s.stale_nodes);
            let mut leaves = 0;
            for x in b.stale_node_index_batch.iter().filter(|x| x.stale_since_version == v) {
                let n = match b.node_batch.nodes().get(&x.node_key) {
                    Some(n) => Some(n.clone()),
                    None => before.get_node_option(&x.node_key).ok().flatten(),
                };
                check!(n.is_some(), "stats", "v{v}: {:?} is called stale but was never stored", x.node_key);
                leaves += matches!(n, Some(Node::Leaf(_))) as usize;
            }
            check!(s.stale_leaves == leaves, "stats", "v{v}: {} stale leaves reported, {leaves} of the stale nodes are leaves", s.stale_leaves);
        }
        Ok(())
    }
}
