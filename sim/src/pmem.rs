//! P07: threads sharing the bundled in-memory node database.
use crate::jmodel::hx;
use crate::pmodel::*;
use crate::psim::*;
use crate::pworld::*;
use pmt::{Database, MemoryDB, Trie};
use simrt::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
enum Do {
    Get(Bytes, Option<Bytes>),
    Insert(Bytes, Bytes),
    Remove(Bytes),
    Len(usize),
    IsEmpty(bool),
    Values(Vec<(Bytes, Bytes)>),
}
#[derive(Clone, Debug)]
struct Rec {
    inv: u64,
    res: u64,
    who: usize,
    op: Do,
}

fn step(op: &Do, m: &BTreeMap<Bytes, Bytes>, light: bool) -> Option<BTreeMap<Bytes, Bytes>> {
    let same = |b: bool| b.then(|| m.clone());
    match op {
        Do::Get(k, v) => same(m.get(k) == v.as_ref()),
        Do::Len(n) => same(m.len() == *n),
        Do::IsEmpty(b) => same(m.is_empty() == *b),
        Do::Values(v) => same(m.len() == v.len() && m.iter().zip(v).all(|(a, b)| *a.0 == b.0 && *a.1 == b.1)),
        Do::Insert(k, v) => {
            let mut m = m.clone();
            m.insert(k.clone(), v.clone());
            Some(m)
        }
        Do::Remove(k) => {
            let mut m = m.clone();
            if light {
                m.remove(k);
            }
            Some(m)
        }
    }
}

/// Is there an order of the operations, consistent with real time, that a
/// sequential map explains?
fn linearizable(h: &[Rec], light: bool) -> bool {
    fn go(h: &[Rec], done: u64, m: &BTreeMap<Bytes, Bytes>, light: bool, seen: &mut BTreeSet<(u64, Vec<(Bytes, Bytes)>)>) -> bool {
        if done.count_ones() as usize == h.len() {
            return true;
        }
        if !seen.insert((done, m.iter().map(|(a, b)| (a.clone(), b.clone())).collect())) {
            return false;
        }
        let first_res = h.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, r)| r.res).min().unwrap();
        for (i, r) in h.iter().enumerate() {
            if done >> i & 1 == 0 && r.inv <= first_res {
                if let Some(n) = step(&r.op, m, light) {
                    if go(h, done | 1 << i, &n, light, seen) {
                        return true;
                    }
                }
            }
        }
        false
    }
    go(h, 0, &BTreeMap::new(), light, &mut BTreeSet::new())
}

pub fn p07() -> R {
    if draw(2) == 0 {
        raw()
    } else {
        tries()
    }
}

fn raw() -> R {
    let light = draw(3) != 2;
    let db = MemoryDB::new(light);
    let hist: Arc<Mutex<(u64, Vec<Rec>)>> = Arc::default();
    let keys: Vec<Bytes> = (0..1 + draw(3)).map(|i| vec![i as u8]).collect();
    let nt = 2 + draw(3) as usize;
    let mut fns: Vec<Box<dyn FnOnce() -> R + Send>> = vec![];
    ev!("{} threads on one {} database", nt, if light { "light" } else { "archive" });
    for who in 0..nt {
        let db = if draw(2) == 0 { db.clone() } else { db.clone().clone() };
        let (hist, keys) = (hist.clone(), keys.clone());
        let n = 1 + draw(if nt > 3 { 3 } else { 5 });
        fns.push(Box::new(move || {
            for i in 0..n {
                let now = || {
                    let mut h = hist.lock().unwrap();
                    h.0 += 1;
                    h.0
                };
                let k = pick(&keys).clone();
                let v = vec![who as u8, i as u8];
                let kind = draw(9);
                let inv = now();
                let ops: Vec<Do> = match kind {
                    0 | 1 => {
                        let r = must("insert", || db.insert(&k, v.clone()))?;
                        check!(r.is_ok(), "refused", "insert: {r:?}");
                        vec![Do::Insert(k, v)]
                    }
                    2 => {
                        let r = must("remove", || db.remove(&k))?;
                        check!(r.is_ok(), "refused", "remove: {r:?}");
                        vec![Do::Remove(k)]
                    }
                    3 => match must("get", || db.get(&k))? {
                        Ok(r) => vec![Do::Get(k, r)],
                        Err(e) => fail!("refused", "get: {e:?}"),
                    },
                    4 => match must("len", || db.len())? {
                        Ok(r) => vec![Do::Len(r)],
                        Err(e) => fail!("refused", "len: {e:?}"),
                    },
                    5 => match must("is_empty", || db.is_empty())? {
                        Ok(r) => vec![Do::IsEmpty(r)],
                        Err(e) => fail!("refused", "is_empty: {e:?}"),
                    },
                    6 => match must("values", || db.values())? {
                        Ok(mut r) => {
                            r.sort();
                            vec![Do::Values(r)]
                        }
                        Err(e) => fail!("refused", "values: {e:?}"),
                    },
                    7 => {
                        // a batch: each record takes effect at some point of the call
                        let vs: Vec<Bytes> = (0..keys.len()).map(|j| vec![who as u8, i as u8, j as u8]).collect();
                        let r = must("insert_batch", || db.insert_batch(keys.clone(), vs.clone()))?;
                        check!(r.is_ok(), "refused", "insert_batch: {r:?}");
                        keys.iter().cloned().zip(vs).map(|(k, v)| Do::Insert(k, v)).collect()
                    }
                    _ => {
                        let r = must("remove_batch", || db.remove_batch(&keys))?;
                        check!(r.is_ok(), "refused", "remove_batch: {r:?}");
                        keys.iter().cloned().map(Do::Remove).collect()
                    }
                };
                let res = now();
                for op in ops {
                    ev!("{op:?}");
                    hist.lock().unwrap().1.push(Rec { inv, res, who, op });
                }
                if draw(4) == 3 {
                    must("flush", || db.flush())?.ok();
                }
            }
            Ok(())
        }));
    }
    run_threads(fns)?;
    let mut h = hist.lock().unwrap().1.clone();
    // what is there when everyone is done counts as one more, last, operation
    let mut v = must("values", || db.values())?.unwrap_or_default();
    v.sort();
    let n = must("len", || db.len())?.unwrap_or(usize::MAX);
    check!(n == v.len(), "not-linearizable", "quiet database: len {n}, {} values", v.len());
    h.push(Rec { inv: u64::MAX - 1, res: u64::MAX, who: nt, op: Do::Values(v) });
    count_n("check.history_ops", h.len() as u64);
    if h.len() <= 40 && !linearizable(&h, light) {
        fail!("not-linearizable", "no order of these operations explains their results: {}", h.iter().map(|r| format!("t{} [{},{}] {:?}", r.who, r.inv, if r.res == u64::MAX { 999 } else { r.res }, r.op)).collect::<Vec<_>>().join("; "));
    }
    Ok(())
}

/// Threads with a trie each on one archive database: everybody's committed
/// roots stay readable by everybody.
fn tries() -> R {
    let mem = MemoryDB::new(false);
    let board: Arc<Mutex<Vec<(Hash, PMap)>>> = Arc::default();
    let nt = 2 + draw(2) as usize;
    let g0 = Gen::new(8, false);
    let shared: Option<(Arc<T>, PMap)> = if draw(2) == 1 {
        // one committed trie read by all threads through a shared reference
        let db = Db::Mem(mem.clone());
        let mut g = Gen { keys: g0.keys.clone(), ctr: 1000, unique: false, big: false };
        let mut t = fresh(&db);
        let mut m = PMap::new();
        for _ in 0..6 {
            let op = g.op(&m);
            if let Err(e) = run_op(&mut t, &op, &mut m, "wrong-result")? {
                fail!("op-refused", "{e}");
            }
        }
        match commit(&mut t)? {
            Ok(r) => board.lock().unwrap().push((r, m.clone())),
            Err(e) => fail!("commit-refused", "{e}"),
        }
        Some((Arc::new(t), m))
    } else {
        None
    };
    let mut fns: Vec<Box<dyn FnOnce() -> R + Send>> = vec![];
    for who in 0..nt {
        let (db, board, keys, shared) = (Db::Mem(mem.clone()), board.clone(), g0.keys.clone(), shared.clone());
        let n = 2 + draw(8);
        fns.push(Box::new(move || {
            let mut g = Gen { keys, ctr: 100 * who as u64, unique: false, big: false };
            let mut t = fresh(&db);
            let mut m = PMap::new();
            for _ in 0..n {
                match weighted(&[8, 4, 4, 1, 1, 2]) {
                    0 => {
                        let op = g.op(&m);
                        if let Err(e) = run_op(&mut t, &op, &mut m, "wrong-result")? {
                            fail!("op-refused", "{}: {e}", op.show());
                        }
                    }
                    1 => match commit(&mut t)? {
                        Ok(r) => {
                            ev!("committed {}", hx(&r[..4]));
                            check!(r == build(&m).root, "wrong-root", "a commit next to other threads");
                            board.lock().unwrap().push((r, m.clone()));
                        }
                        Err(e) => fail!("commit-refused", "{e}"),
                    },
                    2 => {
                        let b = board.lock().unwrap().clone();
                        if let Some((r, m)) = (!b.is_empty()).then(|| pick(&b)) {
                            full_check(&open(&db, r), m, &g.keys, "torn-read", &format!("committed root {}", hx(&r[..4])))?;
                        }
                    }
                    3 => full_check(&t, &m, &g.keys, "torn-read", "own trie")?,
                    4 => {
                        let b = board.lock().unwrap().clone();
                        if let Some((r, bm)) = (!b.is_empty()).then(|| pick(&b)) {
                            t = open(&db, r);
                            m = bm.clone();
                        }
                    }
                    _ => {
                        if let Some((t, m)) = &shared {
                            full_check(t, m, &g.keys, "torn-read", "trie shared by reference")?;
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    run_threads(fns)?;
    let db = Db::Mem(mem);
    for (r, m) in board.lock().unwrap().iter() {
        full_check(&open(&db, r), m, &g0.keys, "lost-update", "after all threads ended")?;
    }
    Ok(())
}
