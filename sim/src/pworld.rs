//! One Patricia trie's life (and many handles sharing one archive) against the
//! reference model, over a disk that fails, tears batches and dies.
use crate::jmodel::hx;
use crate::pmodel::*;
use crate::psim::*;
use pmt::{Database, InnerTrie, TrieError, H256, MemoryDB, Trie};
use simrt::*;
use std::collections::BTreeSet;
use std::sync::Arc;

pub type T = InnerTrie<Db>;

pub fn h(x: &Hash) -> H256 {
    H256::from_slice(x)
}
pub fn open(db: &Db, root: &Hash) -> T {
    InnerTrie::new(Arc::new(db.clone())).at_root(h(root))
}
pub fn fresh(db: &Db) -> T {
    InnerTrie::new(Arc::new(db.clone()))
}

/// Every key of `keys` and the whole enumeration read exactly as `m`.
pub fn full_check(t: &T, m: &PMap, keys: &[Bytes], oracle: &str, what: &str) -> R {
    for k in keys.iter().chain(m.keys()) {
        let g = must("get", || t.get(k))?;
        check!(matches!(&g, Ok(x) if x.as_ref() == m.get(k)), oracle, "{what}: get {} gives {} want {}", bn(k), rs(&g), on(&m.get(k).cloned()));
    }
    if let Some(k) = keys.first() {
        let k = if keys.len() > 1 { pick(keys) } else { k };
        let c = must("contains", || t.contains(k))?;
        check!(matches!(&c, Ok(x) if *x == m.contains_key(k)), oracle, "{what}: contains {} gives {c:?}", bn(k));
    }
    enum_check(t, m, oracle, what)
}
pub fn enum_check(t: &T, m: &PMap, oracle: &str, what: &str) -> R {
    let want: Vec<(Bytes, Bytes)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let mut got = match draw(3) {
        0 => must("values", || t.values())?,
        1 => Ok(must("iterating", || t.iter().collect::<Vec<_>>())?),
        _ => Ok(must("iterating", || pmt::OwnedTrieIterator::new(t.clone()).collect::<Vec<_>>())?),
    };
    if let Ok(g) = &mut got {
        g.sort();
    }
    check!(matches!(&got, Ok(g) if *g == want), oracle, "{what}: enumeration gives {} want {} entries ({})", got.as_ref().map_or_else(|e| e.to_string(), |g| g.len().to_string()), want.len(), diff(got.as_ref().ok(), &want));
    Ok(())
}
fn diff(got: Option<&Vec<(Bytes, Bytes)>>, want: &[(Bytes, Bytes)]) -> String {
    let Some(got) = got else { return String::new() };
    if let Some(w) = want.iter().find(|w| !got.contains(w)) {
        return format!("first missing {}={}", bn(&w.0), bn(&w.1));
    }
    if let Some(w) = got.iter().find(|w| !want.contains(w)) {
        return format!("unexpected {}={}", bn(&w.0), bn(&w.1));
    }
    "an entry appears twice".into()
}
pub fn rs(r: &Result<Option<Bytes>, TrieError>) -> String {
    match r {
        Ok(v) => on(v),
        Err(e) => format!("error({e})"),
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Put(Bytes, Bytes),
    Del(Bytes),
}
impl Op {
    pub fn apply(&self, m: &mut PMap) {
        match self {
            Op::Put(k, v) => {
                m.insert(k.clone(), v.clone());
            }
            Op::Del(k) => {
                m.remove(k);
            }
        }
    }
    pub fn show(&self) -> String {
        match self {
            Op::Put(k, v) => format!("insert {}={}", bn(k), bn(v)),
            Op::Del(k) => format!("remove {}", bn(k)),
        }
    }
}

pub struct Gen {
    pub keys: Vec<Bytes>,
    pub ctr: u64,
    pub unique: bool,
    /// a run at another scale: hundreds of keys, long histories
    pub big: bool,
}
impl Gen {
    pub fn new(max: u64, unique: bool) -> Self {
        let big = max >= 20 && chance(1, 256);
        let n = match draw(3) {
            _ if big => {
                count("run.big");
                80 + draw(220)
            }
            0 => 1 + draw(4),
            1 => 1 + draw(max.min(10)),
            _ => 1 + draw(max),
        };
        let keys = gen_pkeys(n as usize);
        ev!("keys {}", keys.iter().map(|k| bn(k)).collect::<Vec<_>>().join(" "));
        Gen { keys, ctr: 0, unique, big }
    }
    /// number of steps: as drawn, or many in a big run
    pub fn len(&self, n: u64) -> u64 {
        if self.big {
            40 + draw(160) + n
        } else {
            n
        }
    }
    pub fn key(&self, m: &PMap) -> Bytes {
        match draw(8) {
            0..=4 => pick(&self.keys).clone(),
            5 | 6 if !m.is_empty() => m.keys().nth(draw(m.len() as u64) as usize).unwrap().clone(),
            _ => gen_pkey(&self.keys),
        }
    }
    /// One operation. With `unique` (a database that deletes replaced nodes) the
    /// contents never hold one stored node in two places: see DESIGN.md on the
    /// known finding.
    pub fn op(&mut self, m: &PMap) -> Op {
        if !self.unique || draw(2) == 0 {
            let u = self.unique;
            let op = self.raw_op(m, u);
            let mut n = m.clone();
            op.apply(&mut n);
            if !u || !shares_nodes(&n) {
                return op;
            }
        }
        for _ in 0..4 {
            let op = self.raw_op(m, false);
            let mut n = m.clone();
            op.apply(&mut n);
            if !shares_nodes(&n) {
                return op;
            }
        }
        match m.iter().next() {
            Some((k, v)) => Op::Put(k.clone(), v.clone()),
            None => self.raw_op(m, true),
        }
    }
    fn raw_op(&mut self, m: &PMap, unique: bool) -> Op {
        match weighted(&[6, 4, 1, 1]) {
            0 => {
                let k = pick(&self.keys).clone();
                let v = gen_pval(&k, &mut self.ctr, unique);
                Op::Put(k, v)
            }
            1 if !m.is_empty() => Op::Del(m.keys().nth(draw(m.len() as u64) as usize).unwrap().clone()),
            2 if !m.is_empty() => {
                // write back what is there
                let (k, v) = m.iter().nth(draw(m.len() as u64) as usize).unwrap();
                Op::Put(k.clone(), v.clone())
            }
            _ => Op::Del(self.key(m)),
        }
    }
}

/// Apply one operation; Ok(Err) is an error the trie reported.
pub fn run_op(t: &mut T, op: &Op, m: &mut PMap, oracle: &str) -> R<Result<(), TrieError>> {
    ev!("{}", op.show());
    match op {
        Op::Put(k, v) => match must("insert", || t.insert(k, v))? {
            Ok(()) => {}
            Err(e) => return Ok(Err(e)),
        },
        Op::Del(k) => match must("remove", || t.remove(k))? {
            Ok(b) => check!(b == m.contains_key(k), oracle, "remove {} returned {b}, the key was {}", bn(k), if m.contains_key(k) { "present" } else { "absent" }),
            Err(e) => return Ok(Err(e)),
        },
    }
    op.apply(m);
    Ok(Ok(()))
}
pub fn commit(t: &mut T) -> R<Result<Hash, TrieError>> {
    let r = if draw(3) == 2 { must("root_hash", || t.root_hash())? } else { must("commit", || t.commit())? };
    Ok(r.map(|x| x.0))
}

// ----------------------------------------------------------------- P01

pub fn p01() -> R {
    let light = draw(2) == 0;
    let db = Db::pick(light);
    let mut g = Gen::new(24, light);
    ev!("{} {}", if light { "light" } else { "archive" }, if db.is_sim() { "simdisk" } else { "MemoryDB" });
    let mut t = fresh(&db);
    let mut m = PMap::new();
    let mut base: Option<(Hash, PMap)> = None;
    let n = g.len(4 + draw(40));
    for _ in 0..n {
        match weighted(&[16, 5, 5, 2, 2, 1, 1, 1]) {
            0 => {
                let op = g.op(&m);
                if let Err(e) = run_op(&mut t, &op, &mut m, "wrong-result")? {
                    fail!("op-refused", "{}: {e}", op.show());
                }
            }
            1 => {
                let k = g.key(&m);
                let r = must("get", || t.get(&k))?;
                check!(matches!(&r, Ok(x) if x.as_ref() == m.get(&k)), "wrong-read", "get {} gives {} want {}", bn(&k), rs(&r), on(&m.get(&k).cloned()));
                let c = must("contains", || t.contains(&k))?;
                check!(matches!(c, Ok(x) if x == m.contains_key(&k)), "wrong-read", "contains {} gives {c:?}", bn(&k));
            }
            2 => {
                match commit(&mut t)? {
                    Ok(r) => {
                        ev!("committed {}", hx(&r[..4]));
                        base = Some((r, m.clone()));
                    }
                    Err(e) => fail!("commit-refused", "{e}"),
                }
            }
            3 => {
                if let Some((r, bm)) = &base {
                    count("fault.restart");
                    ev!("reopen at {}", hx(&r[..4]));
                    t = if draw(2) == 0 { open(&db, r) } else { t.at_root(h(r)) };
                    m = bm.clone();
                }
            }
            4 => full_check(&t, &m, &g.keys, "wrong-read", "sweep")?,
            5 => {
                let k = g.key(&m);
                let r = must("insert", || t.insert(&k, b""))?;
                check!(r.is_err(), "wrong-result", "inserting an empty value was accepted");
            }
            6 => {
                // asking for a proof half way through must not disturb anything
                let k = g.key(&m);
                let r = must("get_proof", || t.get_proof(&k))?;
                check!(r.is_ok(), "op-refused", "get_proof {}: {r:?}", bn(&k));
            }
            _ => {
                t = t.clone();
                let l = must("len", || t.len())?;
                check!(l == db.values().map_or(0, |v| v.len()), "wrong-result", "len() {l}");
                check!(must("is_empty", || t.is_empty())? == (l == 0), "wrong-result", "is_empty with {l} stored nodes");
            }
        }
    }
    full_check(&t, &m, &g.keys, "wrong-read", "at the end")?;
    let r = match commit(&mut t)? {
        Ok(r) => r,
        Err(e) => fail!("commit-refused", "{e}"),
    };
    full_check(&t, &m, &g.keys, "wrong-read", "after the last commit")?;
    full_check(&open(&db, &r), &m, &g.keys, "lost-data", "reopened after the last commit")
}

// ----------------------------------------------------------------- P02

/// Replicas that reach the same contents their own way have the reference root.
pub fn p02() -> R {
    let light = draw(2) == 0;
    let mut g = Gen::new(24, light);
    let n = draw(30);
    let n = g.len(n);
    let mut m = PMap::new();
    let mut log = vec![];
    for _ in 0..n {
        let op = g.op(&m);
        op.apply(&mut m);
        log.push(op);
    }
    let want = build(&m).root;
    ev!("final contents {} entries", m.len());
    let reps = 1 + draw(3);
    for i in 0..reps {
        let db = Db::pick(light);
        let mut t = fresh(&db);
        let mut cur = PMap::new();
        let mut base: Option<(Hash, PMap, usize)> = None;
        // either the log itself, or only its outcome in another order with detours
        let ops: Vec<Op> = if i == 0 || draw(2) == 0 {
            log.clone()
        } else {
            let mut ks: Vec<_> = m.keys().cloned().collect();
            shuffle(&mut ks);
            let mut o = vec![];
            let mut detours = vec![];
            for k in &ks {
                if draw(4) == 3 {
                    let d = gen_pkey(&ks);
                    if !m.contains_key(&d) {
                        o.push(Op::Put(d.clone(), gen_pval(&d, &mut g.ctr, light)));
                        detours.push(d);
                    }
                }
                if draw(5) == 4 {
                    o.push(Op::Put(k.clone(), gen_pval(k, &mut g.ctr, light)));
                }
                o.push(Op::Put(k.clone(), m[k].clone()));
            }
            shuffle(&mut detours);
            o.extend(detours.into_iter().map(Op::Del));
            let mut cur = PMap::new();
            let shares = light
                && o.iter().any(|x| {
                    x.apply(&mut cur);
                    shares_nodes(&cur)
                });
            if shares {
                log.clone()
            } else {
                o
            }
        };
        let rate = *pick(&[0u64, 2, 6]);
        ev!("replica {i}: {} ops", ops.len());
        let mut j = 0;
        let mut restarts = 0;
        while j < ops.len() {
            if let Err(e) = run_op(&mut t, &ops[j], &mut cur, "wrong-result")? {
                fail!("op-refused", "{}: {e}", ops[j].show());
            }
            j += 1;
            if rate > 0 && draw(rate) == rate - 1 {
                let r = match commit(&mut t)? {
                    Ok(r) => r,
                    Err(e) => fail!("commit-refused", "{e}"),
                };
                let w = build(&cur).root;
                check!(r == w, "wrong-root", "replica {i} commits {} entries as root {} want {}", cur.len(), hx(&r[..6]), hx(&w[..6]));
                base = Some((r, cur.clone(), j));
                if draw(4) == 3 {
                    t = t.at_root(h(&r));
                }
            }
            if restarts < 3 && draw(16) == 15 {
                if let Some((r, bm, bj)) = &base {
                    count("fault.restart");
                    restarts += 1;
                    ev!("replica {i} restarts at {}", hx(&r[..4]));
                    t = open(&db, r);
                    cur = bm.clone();
                    j = *bj;
                }
            }
        }
        for again in 0..1 + draw(2) {
            let r = match commit(&mut t)? {
                Ok(r) => r,
                Err(e) => fail!("commit-refused", "{e}"),
            };
            check!(r == want, "wrong-root", "replica {i} ends (commit {again}) with root {} want {} for {} entries", hx(&r[..6]), hx(&want[..6]), m.len());
        }
    }
    Ok(())
}

// ----------------------------------------------------------------- P03

/// Reads at `root` are right or refused; returns whether all of them worked.
fn readable(db: &Db, root: &Hash, m: &PMap, keys: &[Bytes], what: &str) -> R<bool> {
    let t = open(db, root);
    let mut all = true;
    for k in keys.iter().chain(m.keys()) {
        match must("get", || t.get(k))? {
            Ok(x) => check!(x.as_ref() == m.get(k), "wrong-read", "{what}: get {} gives {} want {}", bn(k), on(&x), on(&m.get(k).cloned())),
            Err(_) => all = false,
        }
    }
    Ok(all)
}

pub fn p03() -> R {
    let light = draw(4) != 3;
    let db = Db::sim(light);
    let mut g = Gen::new(20, light);
    let big = g.big;
    ev!("{}", if light { "light" } else { "archive" });
    let mut t = fresh(&db);
    let mut m = PMap::new(); // in the handle
    let mut base = PMap::new(); // at the last durable root
    let mut root: Option<Hash> = None;
    for _ in 0..1 + draw(6) {
        let nops = match draw(3) {
            0 => 1 + draw(3),
            1 => draw(8),
            _ => g.len(draw(24)),
        };
        let mut died = false;
        if root.is_some() && draw(8) == 7 {
            // dying between commits loses only what was never committed
            db.disk().d(|d| d.plan.crash_read = Some(draw_in(6)));
        }
        for _ in 0..nops {
            let op = g.op(&m);
            ev!("{}", op.show());
            let r = guard(|| match &op {
                Op::Put(k, v) => t.insert(k, v).map(|_| ()),
                Op::Del(k) => t.remove(k).map(|_| ()),
            });
            match r {
                Ok(Ok(())) => op.apply(&mut m),
                Ok(Err(e)) => fail!("op-refused", "{}: {e}", op.show()),
                Err(OpErr::Crash) => {
                    died = true;
                    break;
                }
                Err(OpErr::Panic(p)) => fail!("panic", "{} panicked: {p}", op.show()),
            }
        }
        if !died {
            db.disk().d(|d| {
                d.plan = PPlan::default();
                match weighted_in(&[6, 2, 1]) {
                    0 => d.plan.crash_at = Some(if draw_in(2) == 0 { draw_in(6) } else { draw_in(if big { 400 } else { 40 }) }),
                    1 => d.plan.crash_read = Some(draw_in(2)),
                    _ => {}
                }
            });
            match guard(|| t.commit()) {
                Ok(Ok(r)) => {
                    db.disk().d(|d| d.plan = PPlan::default());
                    ev!("committed {}", hx(&r.0[..4]));
                    let w = build(&m).root;
                    check!(r.0 == w, "wrong-root", "commit gives {} want {}", hx(&r.0[..6]), hx(&w[..6]));
                    check!(readable(&db, &w, &m, &g.keys, "after a commit")?, "lost-data", "the root just committed is not fully readable");
                    enum_check(&open(&db, &w), &m, "lost-data", "after a commit")?;
                    base = m.clone();
                    root = Some(w);
                    continue;
                }
                Ok(Err(e)) => fail!("commit-refused", "{e}"),
                Err(OpErr::Crash) => {}
                Err(OpErr::Panic(p)) => fail!("panic", "commit panicked: {p}"),
            }
        }
        // restart: only the records survive
        let new = build(&m).root;
        let new_ok = readable(&db, &new, &m, &g.keys, "new root after a crash")?;
        let old_ok = match &root {
            None => true,
            Some(r) => readable(&db, r, &base, &g.keys, "old root after a crash")?,
        };
        ev!("restart: old {} new {}", old_ok, new_ok);
        check!(old_ok || new_ok, "lost-data", "after a crash neither the last committed root ({} entries) nor the one being committed ({} entries) is fully readable", base.len(), m.len());
        if !light {
            check!(old_ok, "lost-data", "an archive lost its last committed root in a crash");
        }
        if new_ok && (!old_ok || draw(2) == 1) {
            enum_check(&open(&db, &new), &m, "lost-data", "new root after a crash")?;
            base = m.clone();
            root = Some(new);
        }
        m = base.clone();
        t = match &root {
            None => fresh(&db),
            Some(r) => {
                enum_check(&open(&db, r), &base, "lost-data", "after a crash")?;
                open(&db, r)
            }
        };
    }
    Ok(())
}
// the disk mutex is held while planning; draws go to the run's own lock
fn draw_in(n: u64) -> u64 {
    draw(n)
}
fn weighted_in(w: &[u64]) -> usize {
    weighted(w)
}

// ----------------------------------------------------------------- P04

pub fn p04() -> R {
    let light = draw(4) != 3;
    let db = Db::sim(light);
    let mut g = Gen::new(20, light);
    ev!("{}", if light { "light" } else { "archive" });
    let mut t = fresh(&db);
    let mut m = PMap::new();
    let mut base: Option<(Hash, PMap)> = None;
    // something on disk first, so that operations have to read
    for _ in 0..g.len(draw(20)) {
        let op = g.op(&m);
        if let Err(e) = run_op(&mut t, &op, &mut m, "wrong-result")? {
            fail!("op-refused", "{e}");
        }
    }
    for _ in 0..4 + draw(24) {
        let before = db.disk().d(|d| d.fired);
        let fired = || db.disk().d(|d| d.fired) > before;
        match weighted(&[10, 4, 2, 3, 1]) {
            0 => {
                if draw(2) == 0 {
                    db.disk().d(|d| d.plan.read_fail = Some((draw(5), 1 + draw(2))));
                }
                let op = g.op(&m);
                let r = run_op(&mut t, &op, &mut m, "wrong-result")?;
                db.disk().d(|d| d.plan = PPlan::default());
                if let Err(e) = r {
                    check!(fired(), "op-refused", "{} with a healthy disk: {e}", op.show());
                    count("op.failed");
                    if draw(2) == 0 {
                        full_check(&t, &m, &g.keys, "failed-op-changed", "after a failed operation")?;
                    }
                    if draw(2) == 0 {
                        if let Err(e) = run_op(&mut t, &op, &mut m, "wrong-result")? {
                            fail!("retry-refused", "{} again: {e}", op.show());
                        }
                    }
                }
            }
            1 => {
                // commit; the disk may refuse a record or a read, once or twice
                let want = build(&m).root;
                for _ in 0..draw(3) {
                    let f0 = db.disk().d(|d| d.fired);
                    db.disk().d(|d| match draw(3) {
                        0 => d.plan.write_fail = Some(draw(4)),
                        1 => d.plan.write_fail = Some(draw(40)),
                        _ => d.plan.read_fail = Some((0, 1)),
                    });
                    let r = commit(&mut t)?;
                    db.disk().d(|d| d.plan = PPlan::default());
                    let hit = db.disk().d(|d| d.fired) > f0;
                    match r {
                        Ok(r) => {
                            check!(!hit, "failure-swallowed", "commit succeeded although the disk refused part of it");
                            check!(r == want, "wrong-root", "commit gives {} want {}", hx(&r[..6]), hx(&want[..6]));
                        }
                        Err(e) => {
                            check!(hit, "op-refused", "commit with a healthy disk: {e}");
                            count("op.failed_commit");
                            if draw(2) == 0 {
                                full_check(&t, &m, &g.keys, "failed-op-changed", "after a failed commit")?;
                            }
                            if draw(2) == 0 {
                                // carry on working before trying again
                                let op = g.op(&m);
                                if let Err(e) = run_op(&mut t, &op, &mut m, "wrong-result")? {
                                    fail!("op-refused", "{} after a failed commit: {e}", op.show());
                                }
                                break;
                            }
                        }
                    }
                }
                let want = build(&m).root;
                match commit(&mut t)? {
                    Ok(r) => {
                        check!(r == want, "wrong-root", "commit gives {} want {}", hx(&r[..6]), hx(&want[..6]));
                        full_check(&open(&db, &r), &m, &g.keys, "lost-data", "reopened after a commit")?;
                        base = Some((r, m.clone()));
                    }
                    Err(e) => fail!("retry-refused", "commit on a healthy disk: {e}"),
                }
            }
            2 if draw(4) == 3 => {
                // an enumeration that meets a failing read says so
                db.disk().d(|d| d.plan.read_fail = Some((draw(8), 1)));
                let owned = draw(2) == 1;
                let (mut got, more, err) = must("iterating", || {
                    macro_rules! drain {
                        ($it:expr) => {{
                            let mut it = $it;
                            let g: Vec<_> = it.by_ref().take(m.len() + 2).collect();
                            // an enumeration that has ended stays ended
                            let more = g.len() <= m.len() && it.next().is_some();
                            (g, more, it.take_error())
                        }};
                    }
                    if owned {
                        drain!(pmt::OwnedTrieIterator::new(t.clone()))
                    } else {
                        drain!(t.iter())
                    }
                })?;
                db.disk().d(|d| d.plan = PPlan::default());
                got.sort();
                check!(got.windows(2).all(|w| w[0].0 < w[1].0) && got.iter().all(|x| m.get(&x.0) == Some(&x.1)), "wrong-read", "iterating with a failing read yields entries that are not there");
                check!(!more, "wrong-read", "iterating goes on after it has ended");
                check!(err.is_some() || got.len() == m.len(), "wrong-read", "iterating yields {} of {} entries and no error", got.len(), m.len());
            }
            2 => {
                let k = g.key(&m);
                db.disk().d(|d| d.plan.read_fail = Some((draw(4), 1)));
                let r = match draw(4) {
                    0 => must("insert", || t.insert(&k, b""))?.map(|_| None),
                    1 => must("get_proof", || t.get_proof(&k))?.map(|_| m.get(&k).cloned()),
                    2 => must("contains", || t.contains(&k))?.map(|c| if c { m.get(&k).cloned().or(Some(vec![])) } else { None }),
                    _ => must("get", || t.get(&k))?,
                };
                db.disk().d(|d| d.plan = PPlan::default());
                if let Ok(x) = r {
                    check!(x == m.get(&k).cloned(), "wrong-read", "read of {} gives {} want {}", bn(&k), on(&x), on(&m.get(&k).cloned()));
                }
            }
            3 => {
                if let Some((r, bm)) = &base {
                    if draw(3) == 0 {
                        // abandon pending changes
                        m = bm.clone();
                        t = open(&db, r);
                        ev!("reopen at {}", hx(&r[..4]));
                    } else if m == *bm {
                        t = t.at_root(h(r));
                    }
                }
            }
            _ => full_check(&t, &m, &g.keys, "wrong-read", "sweep")?,
        }
    }
    full_check(&t, &m, &g.keys, "failed-op-changed", "at the end")?;
    match commit(&mut t)? {
        Ok(r) => {
            check!(r == build(&m).root, "wrong-root", "last commit");
            full_check(&open(&db, &r), &m, &g.keys, "lost-data", "reopened after the last commit")
        }
        Err(e) => fail!("retry-refused", "last commit: {e}"),
    }
}

// ----------------------------------------------------------------- P10

/// A database that deletes replaced nodes holds, after every commit, the nodes
/// of the committed contents and nothing that was replaced on the way there.
pub fn p10() -> R {
    let db = Db::pick(true);
    let simdisk = db.is_sim();
    let mut g = Gen::new(24, true);
    let mut t = fresh(&db);
    let mut m = PMap::new();
    let mut base: Option<(Hash, PMap)> = None;
    // records a refused or torn commit has left behind
    let mut debris: BTreeSet<Bytes> = BTreeSet::new();
    for _ in 0..2 + draw(10) {
        for _ in 0..if draw(3) == 2 { g.len(draw(12)) } else { draw(12) } {
            let mut plan = false;
            if simdisk && draw(16) == 15 {
                db.disk().d(|d| d.plan.read_fail = Some((draw(5), 1 + draw(2))));
                plan = true;
            }
            let op = g.op(&m);
            let r = run_op(&mut t, &op, &mut m, "wrong-result")?;
            if plan {
                db.disk().d(|d| d.plan = PPlan::default());
            }
            match r {
                Err(_) if plan => count("op.failed"),
                Err(e) => fail!("op-refused", "{}: {e}", op.show()),
                Ok(()) => {}
            }
        }
        match draw(12) {
            0 => {
                // changes that are given up leave no record
                if let Some((r, bm)) = &base {
                    ev!("give up, back to {}", hx(&r[..4]));
                    t = if draw(2) == 0 { open(&db, r) } else { t.at_root(h(r)) };
                    m = bm.clone();
                    continue;
                }
            }
            1 if simdisk => {
                let before = records(&db)?;
                db.disk().d(|d| match draw(3) {
                    0 => d.plan.write_fail = Some(draw(4)),
                    1 => d.plan.write_fail = Some(draw(40)),
                    _ => d.plan.read_fail = Some((0, 1)),
                });
                let r = commit(&mut t)?;
                db.disk().d(|d| d.plan = PPlan::default());
                if r.is_err() {
                    count("op.failed_commit");
                    let after = records(&db)?;
                    debris.extend(after.difference(&before).cloned());
                    debris.extend(build(&m).nodes.keys().map(|n| n.to_vec()));
                    if draw(2) == 0 {
                        // part of the former contents may be gone already
                        base = None;
                        continue;
                    }
                }
            }
            2 if simdisk && base.is_some() => {
                db.disk().d(|d| d.plan.crash_at = Some(if draw(2) == 0 { draw(6) } else { draw(40) }));
                let before = records(&db)?;
                match guard(|| t.commit()) {
                    Err(OpErr::Crash) => {
                        let (r, bm) = base.clone().unwrap();
                        let new = build(&m).root;
                        let after = records(&db)?;
                        let (keep, root) = if readable(&db, &new, &m, &g.keys, "new root after a crash")? { (m.clone(), new) } else { (bm, r) };
                        debris.extend(before);
                        debris.extend(after);
                        base = Some((root, keep.clone()));
                        m = keep;
                        t = open(&db, &root);
                        continue;
                    }
                    Err(OpErr::Panic(p)) => fail!("panic", "commit panicked: {p}"),
                    Ok(Err(e)) => fail!("op-refused", "commit: {e}"),
                    Ok(Ok(_)) => db.disk().d(|d| d.plan = PPlan::default()),
                }
            }
            _ => {}
        }
        let r = match commit(&mut t)? {
            Ok(r) => r,
            Err(e) => fail!("commit-refused", "{e}"),
        };
        let b = build(&m);
        check!(r == b.root, "wrong-root", "commit gives {} want {}", hx(&r[..6]), hx(&b.root[..6]));
        ev!("committed {} {} entries", hx(&r[..4]), m.len());
        let have = records(&db)?;
        for n in b.nodes.keys() {
            check!(have.contains(&n[..]), "lost-data", "after a commit of {} entries the record {} is missing", m.len(), hx(&n[..6]));
        }
        let extra: Vec<_> = have.iter().filter(|k| !b.nodes.keys().any(|n| n[..] == k[..]) && !debris.contains(*k)).collect();
        check!(extra.is_empty(), "not-reclaimed", "after a commit of {} entries ({} records) {} replaced records are still there, first {}", m.len(), b.nodes.len(), extra.len(), bn(extra[0]));
        debris.retain(|k| have.contains(k));
        base = Some((r, m.clone()));
        match draw(4) {
            0 => t = open(&db, &r),
            1 => t = t.at_root(h(&r)),
            _ => {}
        }
    }
    full_check(&t, &m, &g.keys, "wrong-read", "at the end")
}
fn records(db: &Db) -> R<BTreeSet<Bytes>> {
    match must("values", || db.values())? {
        Ok(v) => Ok(v.into_iter().map(|x| x.0).collect()),
        Err(e) => fail!("op-refused", "listing the records: {e}"),
    }
}

// ----------------------------------------------------------------- P08

pub fn p08() -> R {
    struct V {
        t: T,
        m: PMap,
        id: usize,
    }
    let db = match draw(4) {
        3 => Db::Mem(MemoryDB::new(false)),
        _ => Db::sim(false),
    };
    let simdisk = db.is_sim();
    let mut g = Gen::new(16, false);
    let mut roots: Vec<(Hash, PMap)> = vec![];
    let mut views = vec![V { t: fresh(&db), m: PMap::new(), id: 0 }];
    let mut ids = 1;
    for _ in 0..6 + draw(40) {
        let i = draw(views.len() as u64) as usize;
        match weighted(&[10, 5, 3, 3, 3, 2, 1]) {
            0 => {
                let v = &mut views[i];
                let op = g.op(&v.m);
                ev!("view {}:", v.id);
                if let Err(e) = run_op(&mut v.t, &op, &mut v.m, "wrong-result")? {
                    fail!("op-refused", "{}: {e}", op.show());
                }
            }
            1 => {
                let v = &mut views[i];
                if simdisk && draw(4) == 3 {
                    let n = if draw(2) == 0 { draw(5) } else { draw(30) };
                    db.disk().d(|d| d.plan.crash_at = Some(n));
                }
                match guard(|| v.t.commit()) {
                    Ok(Ok(r)) => {
                        if simdisk {
                            db.disk().d(|d| d.plan = PPlan::default());
                        }
                        ev!("view {} commits {}", v.id, hx(&r.0[..4]));
                        let w = build(&v.m).root;
                        check!(r.0 == w, "wrong-root", "view {} commits {} want {}", v.id, hx(&r.0[..6]), hx(&w[..6]));
                        if !roots.iter().any(|x| x.0 == w) {
                            roots.push((w, v.m.clone()));
                        }
                    }
                    Ok(Err(e)) => fail!("commit-refused", "{e}"),
                    Err(OpErr::Panic(p)) => fail!("panic", "commit panicked: {p}"),
                    Err(OpErr::Crash) => {
                        // every handle dies with the process
                        count("fault.restart");
                        views.clear();
                        let (t, m) = match roots.last() {
                            Some((r, m)) => (open(&db, r), m.clone()),
                            None => (fresh(&db), PMap::new()),
                        };
                        views.push(V { t, m, id: ids });
                        ids += 1;
                    }
                }
            }
            2 => {
                // a view of some earlier root, from scratch or from a live handle
                if !roots.is_empty() && views.len() < 5 {
                    let (r, m) = pick(&roots).clone();
                    let t = if draw(2) == 0 { open(&db, &r) } else { views[i].t.at_root(h(&r)) };
                    ev!("view {ids} opened at {}", hx(&r[..4]));
                    views.push(V { t, m, id: ids });
                    ids += 1;
                }
            }
            3 => {
                if !roots.is_empty() {
                    let (r, m) = pick(&roots);
                    let t = if draw(2) == 0 { open(&db, r) } else { views[i].t.at_root(h(r)) };
                    full_check(&t, m, &g.keys, "old-root-damaged", &format!("root {}", hx(&r[..4])))?;
                }
            }
            4 => {
                let v = &views[i];
                full_check(&v.t, &v.m, &g.keys, "views-mixed", &format!("view {}", v.id))?;
            }
            5 => {
                if views.len() > 1 {
                    let v = views.swap_remove(i);
                    ev!("view {} dropped", v.id);
                } else {
                    let c = V { t: views[i].t.clone(), m: views[i].m.clone(), id: ids };
                    ev!("view {ids} cloned from {}", views[i].id);
                    ids += 1;
                    views.push(c);
                }
            }
            _ => {
                let v = &mut views[i];
                let k = g.key(&v.m);
                let r = must("get_proof", || v.t.get_proof(&k))?;
                check!(r.is_ok(), "op-refused", "get_proof in view {}: {r:?}", v.id);
            }
        }
    }
    for v in &views {
        full_check(&v.t, &v.m, &g.keys, "views-mixed", &format!("view {} at the end", v.id))?;
    }
    for (r, m) in &roots {
        full_check(&open(&db, r), m, &g.keys, "old-root-damaged", &format!("root {} at the end", hx(&r[..4])))?;
    }
    Ok(())
}

// ----------------------------------------------------------------- P09

/// A record no encoder produces.
pub fn garbage(key: &[u8], orig: &[u8]) -> Bytes {
    match draw(10) {
        // not a node of its own, but what another node would hold
        8 => rlp_str(key),
        9 => rlp_str(&[]),
        0 => vec![],
        1 if orig.len() > 1 => orig[..1 + draw(orig.len() as u64 - 1) as usize].to_vec(),
        2 => rlp_list(&[rlp_str(&[]), rlp_str(&[1, 2, 3])]),
        3 => rlp_list(&[rlp_str(&[(4 + draw(12) as u8) << 4, 1]), rlp_str(&[1, 2, 3])]),
        4 => rlp_list(&[rlp_str(&[0x20]), rlp_str(&[1]), rlp_str(&[2])]),
        5 => rlp_str(&vec![7u8; if draw(2) == 0 { 31 } else { 33 }]),
        6 => rlp_list(&[rlp_str(&[0x00]), vec![0x80]]),
        _ => rlp_list(&vec![rlp_str(&[3; 32]); 16]),
    }
}

/// the elements of an encoded list
fn rlp_items(b: &[u8]) -> Vec<Bytes> {
    fn item(b: &[u8]) -> usize {
        let big = |n: usize| 1 + n + b[1..1 + n].iter().fold(0usize, |a, x| a << 8 | *x as usize);
        match b[0] {
            0..=0x7f => 1,
            x @ 0x80..=0xb7 => 1 + x as usize - 0x80,
            x @ 0xb8..=0xbf => big(x as usize - 0xb7),
            x @ 0xc0..=0xf7 => 1 + x as usize - 0xc0,
            x => big(x as usize - 0xf7),
        }
    }
    let head = if b[0] <= 0xf7 { 1 } else { 1 + b[0] as usize - 0xf7 };
    let mut at = head;
    let mut v = vec![];
    while at < b.len() {
        let n = item(&b[at..]);
        v.push(b[at..at + n].to_vec());
        at += n;
    }
    v
}

/// A few bytes of a record changed at random.
pub fn mutated(orig: &[u8]) -> Bytes {
    let mut v = orig.to_vec();
    for _ in 0..1 + draw(3) {
        if v.is_empty() {
            break;
        }
        // damage near the front, where the structure is, is the most telling
        let n = v.len() as u64;
        let i = if draw(2) == 0 { draw(n.min(6)) } else { draw(n) } as usize;
        match draw(6) {
            0 => v[i] ^= 1 << draw(8),
            1 => v[i] = draw(256) as u8,
            2 => v[i] = *pick(&[0x00, 0x20, 0x80, 0x81, 0xa0, 0xb8, 0xc0, 0xc1, 0xd1, 0xf8, 0xff]),
            3 => {
                v.remove(i);
            }
            4 => v.insert(i, draw(256) as u8),
            _ => v.truncate(i + 1),
        }
    }
    v
}

/// A record with one of its children turned into something that is no node, or
/// its value into something that is no value. None where the record has neither.
pub fn damaged_child(orig: &[u8]) -> Option<Bytes> {
    let mut v = rlp_items(orig);
    if v.len() == 17 && v[16] != [0x80] && draw(2) == 1 {
        v[16] = match draw(3) {
            0 => rlp_list(&[]),
            1 => rlp_list(&[v[16].clone()]),
            _ => rlp_list(&[rlp_str(&[]), rlp_str(&[1])]),
        };
        return Some(rlp_list(&v));
    }
    if v.len() == 2 && draw(3) == 2 {
        // a path that is no path, or (of a leaf) a value that is no value
        let i = if draw(2) == 1 { 0 } else { 1 };
        v[i] = rlp_list(&match draw(3) {
            0 => vec![],
            1 => vec![v[i].clone()],
            _ => vec![rlp_str(&[]), rlp_str(&[1])],
        });
        return Some(rlp_list(&v));
    }
    let bad = match draw(7) {
        6 => rlp_list(&[]),
        0 => rlp_list(&[rlp_str(&[]), rlp_str(&[1, 2, 3])]),
        1 => rlp_list(&[rlp_str(&[(4 + draw(12) as u8) << 4, 1]), rlp_str(&[1, 2, 3])]),
        2 => rlp_list(&[rlp_str(&[0x20]), rlp_str(&[1]), rlp_str(&[2])]),
        3 => rlp_str(&vec![7u8; if draw(2) == 0 { 31 } else { 33 }]),
        4 => rlp_list(&[rlp_str(&[0x00]), vec![0x80]]),
        _ => rlp_list(&vec![rlp_str(&[3]); 16]),
    };
    let i = match v.len() {
        17 => {
            let c: Vec<usize> = (0..16).filter(|i| v[*i] != [0x80]).collect();
            if c.is_empty() || draw(8) == 7 {
                draw(16) as usize
            } else {
                *pick(&c)
            }
        }
        2 if two_path(&v)? < 0x20 => 1,
        _ => return None,
    };
    v[i] = bad;
    Some(rlp_list(&v))
}

/// The first byte of the path of a two-item node, behind its header.
fn two_path(v: &[Bytes]) -> Option<u8> {
    let h = v[0][0];
    if h < 0x80 {
        return Some(h);
    }
    v[0].get(if h <= 0xb7 { 1 } else { 1 + h as usize - 0xb7 }).copied()
}

/// Everything there is to do on a trie whose records may say anything.
fn wild_ride(db: &Db, root: &Hash, g: &mut Gen, n: usize) -> R {
    for _ in 0..3 + draw(8) {
        let mut v = open(db, root);
        for _ in 0..1 + draw(3) {
            let k = g.key(&PMap::new());
            match draw(9) {
                0 | 1 => drop(must("get", || v.get(&k))?),
                2 => drop(must("contains", || v.contains(&k))?),
                3 => drop(must("get_proof", || v.get_proof(&k))?),
                4 => drop(must("values", || v.values())?),
                5 => drop(must("iterating", || pmt::OwnedTrieIterator::new(v.clone()).take(n * 20 + 40).count())?),
                6 => drop(must("insert", || v.insert(&k, &gen_pval(&k, &mut g.ctr, true)))?),
                7 => {
                    let root = pmt::H256::from_slice(root);
                    if let Ok(p) = must("get_proof", || v.get_proof(&k))? {
                        drop(must("verify_proof", || v.verify_proof(root, &k, p))?)
                    }
                }
                _ => drop(must("remove", || v.remove(&k))?),
            }
        }
    }
    Ok(())
}

pub fn p09() -> R {
    let light = draw(2) == 0;
    let db = Db::sim(light);
    let mut g = Gen::new(20, true);
    let mut t = fresh(&db);
    let mut m = PMap::new();
    let n = g.len(3 + draw(24));
    for _ in 0..n {
        let op = g.op(&m);
        if let Err(e) = run_op(&mut t, &op, &mut m, "wrong-result")? {
            fail!("op-refused", "{e}");
        }
        if draw(8) == 7 {
            if let Err(e) = commit(&mut t)? {
                fail!("commit-refused", "{e}");
            }
        }
    }
    let root = match commit(&mut t)? {
        Ok(r) => r,
        Err(e) => fail!("commit-refused", "{e}"),
    };
    let b = build(&m);
    check!(root == b.root, "wrong-root", "commit");
    ev!("committed {} entries, {} stored nodes", m.len(), b.nodes.len());
    let hashes: Vec<Hash> = b.nodes.keys().copied().collect();
    for _ in 0..1 + draw(4) {
        // break something
        let mut broken = std::collections::BTreeSet::new();
        // broken in one child only: whoever does not need that child may be answered
        let mut partly = std::collections::BTreeSet::new();
        let mut wild = false;
        for _ in 0..1 + draw(2) {
            let x = *pick(&hashes);
            if x == root && draw(3) != 0 {
                continue;
            }
            if broken.contains(&x) || partly.contains(&x) {
                continue;
            }
            if draw(3) == 2 {
                if let Some(r) = damaged_child(&b.nodes[&x]) {
                    count("fault.damaged_child");
                    ev!("a child in record {} is damaged: {}", hx(&x[..4]), bn(&r));
                    db.disk().d(|d| d.bad.insert(x.to_vec(), Some(r)));
                    partly.insert(x);
                    continue;
                }
            }
            if draw(5) == 4 {
                let r = mutated(&b.nodes[&x]);
                if r == b.nodes[&x] {
                    continue;
                }
                count("fault.mutated_record");
                ev!("record {} reads {}", hx(&x[..4]), bn(&r));
                // it may read as a node of another trie: its contents are
                // anybody's guess, but nothing may panic or run on for ever
                wild = true;
                db.disk().d(|d| d.bad.insert(x.to_vec(), Some(r)));
                continue;
            }
            broken.insert(x);
            match weighted(&[3, 3, 2]) {
                0 => {
                    count("fault.missing_record");
                    ev!("record {} is lost", hx(&x[..4]));
                    db.disk().d(|d| d.bad.insert(x.to_vec(), None));
                }
                1 => {
                    count("fault.damaged_record");
                    let mut r = garbage(&x, &b.nodes[&x]);
                    if r == b.nodes[&x] {
                        r = vec![]; // the empty tree's record reads that way intact
                    }
                    ev!("record {} now reads {}", hx(&x[..4]), bn(&r));
                    db.disk().d(|d| d.bad.insert(x.to_vec(), Some(r)));
                }
                _ => {
                    count("fault.unreadable_record");
                    ev!("record {} cannot be read", hx(&x[..4]));
                    db.disk().d(|d| d.unreadable.insert(x.to_vec()));
                }
            }
        }
        if wild {
            wild_ride(&db, &root, &mut g, m.len())?;
            db.disk().d(|d| {
                d.bad.clear();
                d.unreadable.clear();
            });
            continue;
        }
        // through a view that has everything to read, and through one that
        // still holds the root node
        let warm = draw(3) == 2;
        let hit_path = |k: &[u8]| path(&m, k).iter().any(|x| broken.contains(x) && !(warm && *x == root));
        let hit_any = broken.iter().any(|x| !(warm && *x == root));
        let near_path = |k: &[u8]| path(&m, k).iter().any(|x| partly.contains(x) && !(warm && *x == root));
        let near_any = partly.iter().any(|x| !(warm && *x == root));
        for _ in 0..2 + draw(6) {
            let mut v = if warm { t.clone() } else { open(&db, &root) };
            let k = g.key(&m);
            let bad = hit_path(&k);
            let near = near_path(&k);
            match draw(8) {
                7 => {
                    // an iterator tells of what it could not yield by its error query
                    let (mut got, err) = if draw(2) == 0 {
                        must("iterating", || {
                            let mut it = v.iter();
                            let g: Vec<_> = it.by_ref().take(m.len() + 2).collect();
                            (g, it.take_error())
                        })?
                    } else {
                        must("iterating", || {
                            let mut it = pmt::OwnedTrieIterator::new(v.clone());
                            let g: Vec<_> = it.by_ref().take(m.len() + 2).collect();
                            (g, it.take_error())
                        })?
                    };
                    got.sort();
                    check!(got.windows(2).all(|w| w[0].0 < w[1].0) && got.iter().all(|x| m.get(&x.0) == Some(&x.1)), "wrong-read", "iterating over damage yields entries that are not there");
                    match err {
                        None => {
                            check!(!hit_any, "damage-hidden", "iterating yields {} of {} entries and no error although a node is broken", got.len(), m.len());
                            check!(got.len() == m.len(), "wrong-read", "iterating yields {} of {} entries", got.len(), m.len());
                        }
                        Some(e) => check!(hit_any || near_any, "op-refused", "iterating reports {e} though nothing it needs is broken"),
                    }
                }
                0 | 1 => match must("get", || v.get(&k))? {
                    Ok(x) => {
                        check!(!bad, "damage-hidden", "get {} answered {} although a node on its way is broken", bn(&k), on(&x));
                        check!(x.as_ref() == m.get(&k), "wrong-read", "get {} gives {} want {}", bn(&k), on(&x), on(&m.get(&k).cloned()));
                    }
                    Err(e) => check!(bad || near, "op-refused", "get {} failed though its way is intact: {e}", bn(&k)),
                },
                2 => match must("contains", || v.contains(&k))? {
                    Ok(x) => {
                        check!(!bad, "damage-hidden", "contains {} answered {x} although a node on its way is broken", bn(&k));
                        check!(x == m.contains_key(&k), "wrong-read", "contains {}", bn(&k));
                    }
                    Err(e) => check!(bad || near, "op-refused", "contains {} failed though its way is intact: {e}", bn(&k)),
                },
                3 => match must("get_proof", || v.get_proof(&k))? {
                    Ok(_) => check!(!bad, "damage-hidden", "get_proof {} succeeded although a node on its way is broken", bn(&k)),
                    Err(e) => check!(bad || near, "op-refused", "get_proof {} failed though its way is intact: {e}", bn(&k)),
                },
                4 => match must("values", || v.values())? {
                    Ok(x) => {
                        check!(!hit_any, "damage-hidden", "values() returned {} of {} entries without an error although a node is broken", x.len(), m.len());
                        check!(x.len() == m.len(), "wrong-read", "values() returned {} of {} entries", x.len(), m.len());
                    }
                    Err(e) => check!(hit_any || near_any, "op-refused", "values() failed though nothing it needs is broken: {e}"),
                },
                _ => {
                    let op = match draw(2) {
                        0 => {
                            let val = gen_pval(&k, &mut g.ctr, true);
                            Op::Put(k.clone(), val)
                        }
                        _ => Op::Del(k.clone()),
                    };
                    let mut m2 = m.clone();
                    match run_op(&mut v, &op, &mut m2, "wrong-result")? {
                        Ok(()) => {
                            check!(!bad, "damage-hidden", "{} succeeded although a node on its way is broken", op.show());
                            for k in m.keys().chain([&k]) {
                                if !hit_path(k) {
                                    let r = must("get", || v.get(k))?;
                                    if let Ok(x) = &r {
                                        check!(x.as_ref() == m2.get(k), "wrong-read", "after {}: get {} gives {}", op.show(), bn(k), on(x));
                                    }
                                }
                            }
                        }
                        Err(e) => {
                            // a removal may also need the neighbours of its path
                            check!(bad || near || (matches!(op, Op::Del(_)) && (hit_any || near_any)), "op-refused", "{} failed though its way is intact: {e}", op.show());
                            for k in m.keys().take(4) {
                                if !hit_path(k) && !near_path(k) {
                                    let r = must("get", || v.get(k))?;
                                    check!(matches!(&r, Ok(x) if x.as_ref() == m.get(k)), "failed-op-changed", "after refused {}: get {} gives {}", op.show(), bn(k), rs(&r));
                                }
                            }
                        }
                    }
                }
            }
        }
        if draw(3) == 2 {
            // a root nobody ever stored
            let x = keccak(&[9, draw(256) as u8]);
            let mut v = open(&db, &x);
            let k = g.key(&m);
            let r = must("get", || v.get(&k))?;
            check!(r.is_err(), "damage-hidden", "get at an unknown root answered {}", rs(&r));
            let r = must("commit", || v.commit())?;
            check!(r.is_err(), "damage-hidden", "commit at an unknown root succeeded");
            let r = must("values", || v.values())?;
            check!(r.is_err(), "damage-hidden", "values() at an unknown root succeeded");
        }
        // repaired
        db.disk().d(|d| {
            d.bad.clear();
            d.unreadable.clear();
        });
        full_check(&open(&db, &root), &m, &g.keys, "wrong-read", "after the damage was repaired")?;
    }
    Ok(())
}

// ------------------------------------------------------- known finding (P01)

/// Two keys with the same tail and the same long value share one stored node;
/// a database that deletes replaced nodes loses it when one key is removed.
pub fn known_shared_node() -> R {
    let db = Db::sim(true);
    let mut t = fresh(&db);
    let mut m = PMap::new();
    let val = vec![0x55; 40];
    // the third key keeps the survivor a hashed child of a branch
    for k in [&b"\x11same-tail"[..], b"\x21same-tail", b"\x31 other"] {
        if let Err(e) = run_op(&mut t, &Op::Put(k.to_vec(), val.clone()), &mut m, "wrong-result")? {
            fail!("op-refused", "{e}");
        }
    }
    if let Err(e) = commit(&mut t)? {
        fail!("commit-refused", "{e}");
    }
    if let Err(e) = run_op(&mut t, &Op::Del(b"\x11same-tail".to_vec()), &mut m, "wrong-result")? {
        fail!("op-refused", "{e}");
    }
    match commit(&mut t)? {
        Ok(r) => {
            let v = open(&db, &r);
            match must("get", || v.get(b"\x21same-tail"))? {
                Ok(x) => check!(x.as_ref() == Some(&val), "wrong-read", "survivor reads {}", on(&x)),
                Err(TrieError::MissingTrieNode { .. }) => fail!("shared-node-removed", "the surviving key's node is gone"),
                Err(e) => fail!("op-refused", "{e}"),
            }
            Ok(())
        }
        Err(e) => fail!("commit-refused", "{e}"),
    }
}
