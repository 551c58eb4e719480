//! Simulated disk under the Patricia trie: a durable record map in which every
//! read and every record of a batch is a place to fail, crash or tear the batch.
use crate::pmodel::*;
use pmt::{Database, MemoryDB};
use simrt::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

mod jmt_free {
    #[derive(Debug, Clone)]
    pub struct DbErr(pub &'static str);
    impl std::fmt::Display for DbErr {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "simulated disk: {}", self.0)
        }
    }
    impl std::error::Error for DbErr {}
}
pub use jmt_free::DbErr;

/// What goes wrong next. Counts are in record operations from now.
#[derive(Default, Clone, Debug)]
pub struct PPlan {
    /// the nth read from now fails (and the following `read_run - 1`)
    pub read_fail: Option<(u64, u64)>,
    /// the nth record of the coming batches is refused; earlier ones applied
    pub write_fail: Option<u64>,
    /// the process dies just before the nth record operation of the batches
    pub crash_at: Option<u64>,
    /// the process dies in the nth read
    pub crash_read: Option<u64>,
}

#[derive(Default, Debug)]
pub struct Disk {
    pub recs: BTreeMap<Bytes, Bytes>,
    pub plan: PPlan,
    /// light: removals delete; otherwise they are kept (archive)
    pub light: bool,
    pub reads: u64,
    pub writes: u64,
    /// records whose read is replaced: None = missing, Some = damaged
    pub bad: BTreeMap<Bytes, Option<Bytes>>,
    /// records whose read fails
    pub unreadable: std::collections::BTreeSet<Bytes>,
    pub fired: u64,
    pub write_log: Vec<(bool, Bytes)>,
}

#[derive(Clone, Default, Debug)]
pub struct SimDb(pub Arc<Mutex<Disk>>);

impl SimDb {
    pub fn new(light: bool) -> Self {
        SimDb(Arc::new(Mutex::new(Disk { light, ..Default::default() })))
    }
    pub fn d<T>(&self, f: impl FnOnce(&mut Disk) -> T) -> T {
        f(&mut self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
    fn op(&self, k: &[u8], v: Option<Bytes>) -> Result<(), DbErr> {
        enum Do {
            Ok,
            Err,
            Crash,
        }
        let r = self.d(|d| {
            if let Some(n) = &mut d.plan.crash_at {
                if *n == 0 {
                    d.plan = PPlan::default();
                    d.fired += 1;
                    return Do::Crash;
                }
                *n -= 1;
            }
            if let Some(n) = &mut d.plan.write_fail {
                if *n == 0 {
                    d.plan.write_fail = None;
                    d.fired += 1;
                    return Do::Err;
                }
                *n -= 1;
            }
            d.writes += 1;
            d.write_log.push((v.is_some(), k.to_vec()));
            match v {
                Some(v) => {
                    d.recs.insert(k.to_vec(), v);
                }
                None if d.light => {
                    d.recs.remove(k);
                }
                None => {}
            }
            Do::Ok
        });
        match r {
            Do::Ok => Ok(()),
            Do::Err => {
                count("fault.write_error");
                ev!("disk: record {} refused", bn(k));
                Err(DbErr("write failed"))
            }
            Do::Crash => {
                count("fault.crash");
                ev!("disk: process dies before record {}", bn(k));
                crash_now()
            }
        }
    }
}

impl Database for SimDb {
    type Error = DbErr;
    fn get(&self, key: &[u8]) -> Result<Option<Bytes>, DbErr> {
        enum Do {
            Ok(Option<Bytes>),
            Err,
            Crash,
        }
        let r = self.d(|d| {
            d.reads += 1;
            if let Some(n) = &mut d.plan.crash_read {
                if *n == 0 {
                    d.plan = PPlan::default();
                    d.fired += 1;
                    return Do::Crash;
                }
                *n -= 1;
            }
            if let Some((n, run)) = &mut d.plan.read_fail {
                if *n == 0 {
                    *run -= 1;
                    if *run == 0 {
                        d.plan.read_fail = None;
                    }
                    d.fired += 1;
                    return Do::Err;
                }
                *n -= 1;
            }
            if d.unreadable.contains(key) {
                d.fired += 1;
                return Do::Err;
            }
            if let Some(b) = d.bad.get(key) {
                d.fired += 1;
                return Do::Ok(b.clone());
            }
            Do::Ok(d.recs.get(key).cloned())
        });
        match r {
            Do::Ok(v) => Ok(v),
            Do::Err => {
                count("fault.read_error");
                ev!("disk: read of {} failed", bn(key));
                Err(DbErr("read failed"))
            }
            Do::Crash => {
                count("fault.crash_in_read");
                ev!("disk: process dies reading {}", bn(key));
                crash_now()
            }
        }
    }
    fn insert(&self, key: &[u8], value: Bytes) -> Result<(), DbErr> {
        self.op(key, Some(value))
    }
    fn remove(&self, key: &[u8]) -> Result<(), DbErr> {
        self.op(key, None)
    }
    fn insert_batch(&self, keys: Vec<Bytes>, values: Vec<Bytes>) -> Result<(), DbErr> {
        if keys.len() != values.len() {
            return Err(DbErr("batch of unequal length"));
        }
        let mut b: Vec<_> = keys.into_iter().zip(values).collect();
        b.sort();
        shuffle(&mut b);
        for (k, v) in b {
            self.op(&k, Some(v))?;
        }
        Ok(())
    }
    fn remove_batch(&self, keys: &[Bytes]) -> Result<(), DbErr> {
        let mut b = keys.to_vec();
        b.sort();
        shuffle(&mut b);
        for k in b {
            self.op(&k, None)?;
        }
        Ok(())
    }
    fn flush(&self) -> Result<(), DbErr> {
        Ok(())
    }
    fn len(&self) -> Result<usize, DbErr> {
        Ok(self.d(|d| d.recs.len()))
    }
    fn values(&self) -> Result<Vec<(Bytes, Bytes)>, DbErr> {
        Ok(self.d(|d| d.recs.iter().map(|(k, v)| (k.clone(), v.clone())).collect()))
    }
    fn is_empty(&self) -> Result<bool, DbErr> {
        Ok(self.d(|d| d.recs.is_empty()))
    }
}

/// The simulated disk with only the required methods, so that batches run through the
/// default methods of the repository's trait.
#[derive(Clone, Default, Debug)]
pub struct Plain(pub SimDb);
impl Database for Plain {
    type Error = DbErr;
    fn get(&self, key: &[u8]) -> Result<Option<Bytes>, DbErr> {
        self.0.get(key)
    }
    fn insert(&self, key: &[u8], value: Bytes) -> Result<(), DbErr> {
        self.0.insert(key, value)
    }
    fn remove(&self, key: &[u8]) -> Result<(), DbErr> {
        self.0.remove(key)
    }
    fn flush(&self) -> Result<(), DbErr> {
        self.0.flush()
    }
    fn len(&self) -> Result<usize, DbErr> {
        self.0.len()
    }
    fn values(&self) -> Result<Vec<(Bytes, Bytes)>, DbErr> {
        self.0.values()
    }
    fn is_empty(&self) -> Result<bool, DbErr> {
        self.0.is_empty()
    }
}

/// Either the simulated disk or the repository's own in-memory database.
#[derive(Clone, Debug)]
pub enum Db {
    Sim(SimDb),
    Plain(Plain),
    Mem(MemoryDB),
}
impl Default for Db {
    fn default() -> Self {
        Db::Sim(SimDb::new(true))
    }
}
#[derive(Debug, Clone)]
pub struct AnyErr(pub String);
impl std::fmt::Display for AnyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for AnyErr {}
macro_rules! fwd {
    ($s:expr, $d:ident => $e:expr) => {
        match $s {
            Db::Sim($d) => $e.map_err(|e| AnyErr(e.to_string())),
            Db::Plain($d) => $e.map_err(|e| AnyErr(e.to_string())),
            Db::Mem($d) => $e.map_err(|e| AnyErr(e.to_string())),
        }
    };
}
impl Database for Db {
    type Error = AnyErr;
    fn get(&self, key: &[u8]) -> Result<Option<Bytes>, AnyErr> {
        fwd!(self, d => d.get(key))
    }
    fn insert(&self, key: &[u8], value: Bytes) -> Result<(), AnyErr> {
        fwd!(self, d => d.insert(key, value))
    }
    fn remove(&self, key: &[u8]) -> Result<(), AnyErr> {
        fwd!(self, d => d.remove(key))
    }
    fn insert_batch(&self, keys: Vec<Bytes>, values: Vec<Bytes>) -> Result<(), AnyErr> {
        fwd!(self, d => d.insert_batch(keys, values))
    }
    fn remove_batch(&self, keys: &[Bytes]) -> Result<(), AnyErr> {
        fwd!(self, d => d.remove_batch(keys))
    }
    fn flush(&self) -> Result<(), AnyErr> {
        fwd!(self, d => d.flush())
    }
    fn len(&self) -> Result<usize, AnyErr> {
        fwd!(self, d => d.len())
    }
    fn values(&self) -> Result<Vec<(Bytes, Bytes)>, AnyErr> {
        fwd!(self, d => d.values())
    }
    fn is_empty(&self) -> Result<bool, AnyErr> {
        fwd!(self, d => d.is_empty())
    }
}
impl Db {
    pub fn sim(light: bool) -> Db {
        if draw(4) == 3 {
            Db::Plain(Plain(SimDb::new(light)))
        } else {
            Db::Sim(SimDb::new(light))
        }
    }
    pub fn is_sim(&self) -> bool {
        !matches!(self, Db::Mem(_))
    }
    pub fn pick(light: bool) -> Db {
        if draw(4) == 3 {
            Db::Mem(MemoryDB::new(light))
        } else {
            Db::sim(light)
        }
    }
    pub fn disk(&self) -> &SimDb {
        match self {
            Db::Sim(s) | Db::Plain(Plain(s)) => s,
            _ => panic!("no simulated disk"),
        }
    }
}
