//! Simulated durable storage for the versioned tree.
//!
//! `Disk` is what survives a crash: encoded nodes, the value history, the stale
//! index and a write-ahead record. `SimStore` decodes on every read, so the
//! real encoders run on every path. `Store` wraps either `SimStore` or the
//! library's own in-memory `MockTreeStore` and adds the fault plan, the read
//! log and the scheduling points.
use anyhow::{anyhow, Result};
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::db::{Version as DbVersion, VersionedDatabase};
use jmt::mock::MockTreeStore;
use jmt::reader::Preimage;
use jmt::storage::*;
use jmt::{KeyHash, OwnedValue, Sha256};
use simrt::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

#[derive(Default, Debug, Clone, PartialEq, Eq)]
pub struct Disk {
    pub nodes: BTreeMap<NodeKey, Vec<u8>>,
    pub values: BTreeMap<KeyHash, Vec<(u64, Option<OwnedValue>)>>,
    pub stale: BTreeSet<StaleNodeIndex>,
    pub preimages: BTreeMap<KeyHash, Vec<u8>>,
    /// write-ahead record of the commit in progress: length-prefixed, checksummed
    wal: Vec<u8>,
    /// values at version u64::MAX come before version 0 (a pre-genesis state)
    pub pre: bool,
}

fn cksum(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Disk {
    fn ord(&self, v: u64) -> u64 {
        v.wrapping_add(self.pre as u64)
    }
    fn apply(&mut self, b: TreeUpdateBatch) -> Result<()> {
        for (k, n) in b.node_batch.nodes() {
            self.nodes.insert(k.clone(), n.try_to_vec()?);
        }
        for ((ver, k), v) in b.node_batch.values() {
            let pre = self.pre as u64;
            let h = self.values.entry(*k).or_default();
            match h.iter().position(|(x, _)| x.wrapping_add(pre) >= ver.wrapping_add(pre)) {
                Some(i) if h[i].0 == *ver => h[i].1 = v.clone(),
                Some(i) => h.insert(i, (*ver, v.clone())),
                None => h.push((*ver, v.clone())),
            }
        }
        self.stale.extend(b.stale_node_index_batch);
        Ok(())
    }
    /// What the storage engine does when it is opened after a crash: a complete
    /// write-ahead record is applied, an incomplete one is dropped. Returns
    /// whether one was applied.
    fn recover(&mut self) -> Result<bool> {
        let w = std::mem::take(&mut self.wal);
        if w.len() < 16 {
            return Ok(false);
        }
        let n = u64::from_le_bytes(w[..8].try_into().unwrap()) as usize;
        let c = u64::from_le_bytes(w[8..16].try_into().unwrap());
        if w.len() < 16 + n || cksum(&w[16..16 + n]) != c {
            return Ok(false);
        }
        let b = TreeUpdateBatch::try_from_slice(&w[16..16 + n])?;
        self.apply(b)?;
        Ok(true)
    }
}

#[derive(Default, Clone, Debug)]
pub struct SimStore {
    pub disk: Arc<Mutex<Disk>>,
}

impl SimStore {
    fn d(&self) -> std::sync::MutexGuard<'_, Disk> {
        self.disk.lock().unwrap_or_else(|e| e.into_inner())
    }
}

impl VersionedDatabase for SimStore {
    type Version = DbVersion;
    type NodeIter = std::vec::IntoIter<(NodeKey, Node)>;
    type HistoryIter = std::vec::IntoIter<(KeyHash, Vec<(DbVersion, Option<OwnedValue>)>)>;
    fn get(&self, max_version: DbVersion, k: KeyHash) -> Result<Option<OwnedValue>> {
        self.get_value_option(max_version, k)
    }
    fn update_batch(&self, b: TreeUpdateBatch) -> Result<()> {
        self.d().apply(b)
    }
    fn nodes(&self) -> Self::NodeIter {
        let d = self.d();
        d.nodes.iter().filter_map(|(k, n)| Some((k.clone(), Node::try_from_slice(n).ok()?))).collect::<Vec<_>>().into_iter()
    }
    fn value_history(&self) -> Self::HistoryIter {
        let d = self.d();
        d.values.iter().map(|(k, h)| (*k, h.iter().map(|(v, x)| (DbVersion(*v), x.clone())).collect())).collect::<Vec<_>>().into_iter()
    }
}
impl TreeReader for SimStore {
    type Version = DbVersion;
    fn get_node_option(&self, k: &NodeKey) -> Result<Option<Node>> {
        match self.d().nodes.get(k) {
            None => Ok(None),
            Some(b) => Ok(Some(Node::try_from_slice(b)?)),
        }
    }
    fn get_value_option(&self, max: DbVersion, k: KeyHash) -> Result<Option<OwnedValue>> {
        let d = self.d();
        Ok(d.values.get(&k).and_then(|h| h.iter().rev().find(|(v, _)| d.ord(*v) <= d.ord(max.0))).and_then(|(_, x)| x.clone()))
    }
    fn get_rightmost_leaf(&self) -> Result<Option<(NodeKey, LeafNode)>> {
        let d = self.d();
        let mut best: Option<(NodeKey, LeafNode)> = None;
        for (k, b) in d.nodes.iter() {
            if let Node::Leaf(l) = Node::try_from_slice(b)? {
                if best.as_ref().map_or(true, |x| l.key_hash() > x.1.key_hash()) {
                    best = Some((k.clone(), l));
                }
            }
        }
        Ok(best)
    }
}
impl HasPreimage for SimStore {
    fn preimage(&self, k: KeyHash) -> Result<Option<Preimage>> {
        Ok(self.d().preimages.get(&k).map(|p| Preimage(p.clone())))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RFault {
    Error,
    Crash,
}

#[derive(Default, Debug)]
pub struct Plan {
    /// the read that fails: counts down to it
    pub read_in: Option<(u64, RFault)>,
    pub error_rate: u64,
    /// crash inside the next durable write; 0..=1000 per mille of the record
    /// that reaches the disk, >1000: crash after the record is complete
    pub write_crash: Option<u64>,
    pub write_error: bool,
    pub missing: BTreeSet<NodeKey>,
    pub missing_vals: BTreeSet<KeyHash>,
    pub log: Option<Vec<NodeKey>>,
    pub fired: u64,
    pub reads: u64,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Sim(SimStore),
    Mock(MockTreeStore),
}

#[derive(Clone, Debug)]
pub struct Store {
    pub kind: Kind,
    pub plan: Arc<Mutex<Plan>>,
}
impl Default for Store {
    fn default() -> Self {
        Store::sim()
    }
}

pub const READ_CAP: u64 = 3_000_000;

impl Store {
    pub fn sim() -> Self {
        Store { kind: Kind::Sim(SimStore::default()), plan: Default::default() }
    }
    pub fn mock() -> Self {
        Store { kind: Kind::Mock(MockTreeStore::new(draw(2) == 1)), plan: Default::default() }
    }
    pub fn pick_kind() -> Self {
        if draw(3) == 2 {
            Store::mock()
        } else {
            Store::sim()
        }
    }
    pub fn is_sim(&self) -> bool {
        matches!(self.kind, Kind::Sim(_))
    }
    pub fn p(&self) -> std::sync::MutexGuard<'_, Plan> {
        self.plan.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn before_read(&self) -> Result<()> {
        yield_point();
        let mut p = self.p();
        p.reads += 1;
        if p.reads > READ_CAP {
            drop(p);
            panic!("no end: more than {READ_CAP} storage reads in one run");
        }
        if let Some((n, k)) = p.read_in {
            if n == 0 {
                p.read_in = None;
                p.fired += 1;
                drop(p);
                match k {
                    RFault::Error => {
                        count("fault.read_error");
                        ev!("  ! storage read error");
                        return Err(anyhow!("injected: storage read failed"));
                    }
                    RFault::Crash => {
                        count("fault.crash_in_read");
                        ev!("  ! process crash inside a storage read");
                        crash_now();
                    }
                }
            }
            p.read_in = Some((n - 1, k));
            return Ok(());
        }
        if p.error_rate > 0 {
            let r = p.error_rate;
            drop(p);
            if draw(r) == r - 1 {
                self.p().fired += 1;
                count("fault.read_error");
                ev!("  ! storage read error");
                return Err(anyhow!("injected: storage read failed"));
            }
        }
        Ok(())
    }
    fn lost_val(&self, k: &KeyHash) -> bool {
        let mut p = self.p();
        if p.missing_vals.contains(k) {
            p.fired += 1;
            drop(p);
            count("fault.missing_value");
            return true;
        }
        false
    }
    pub fn clear_faults(&self) {
        let mut p = self.p();
        p.read_in = None;
        p.error_rate = 0;
        p.write_crash = None;
        p.write_error = false;
    }
    pub fn fired(&self) -> u64 {
        self.p().fired
    }
    /// Durable commit of one batch. May crash (unwinds) or fail as planned.
    pub fn commit(&self, b: TreeUpdateBatch) -> Result<()> {
        match &self.kind {
            Kind::Mock(m) => {
                // both public spellings
                if draw(2) == 0 {
                    m.write_tree_update_batch(b)
                } else {
                    m.update(b)
                }
            }
            Kind::Sim(s) => {
                let rec = b.try_to_vec()?;
                self.write_record(s, rec)
            }
        }
    }
    fn write_record(&self, s: &SimStore, rec: Vec<u8>) -> Result<()> {
        if std::mem::take(&mut self.p().write_error) {
            count("fault.write_error");
            ev!("  ! storage write error, nothing written");
            return Err(anyhow!("injected: no space left on device"));
        }
        let mut w = (rec.len() as u64).to_le_bytes().to_vec();
        w.extend(cksum(&rec).to_le_bytes());
        w.extend(rec);
        let crash = self.p().write_crash.take();
        if let Some(pm) = crash {
            let full = pm > 1000;
            let n = if full { w.len() } else { ((w.len() - 1) as u64 * pm / 1000) as usize };
            w.truncate(n);
            s.d().wal = w;
            if full {
                count("fault.crash_after_log");
                ev!("  ! crash after the log record is durable");
            } else {
                count("fault.torn_write");
                ev!("  ! crash, log record torn after {n} bytes");
            }
            crash_now();
        }
        s.d().wal = w;
        s.d().recover()?;
        Ok(())
    }
    /// Restart: everything volatile is gone, storage recovers.
    pub fn reopen(&self) -> R<Store> {
        match &self.kind {
            Kind::Sim(s) => {
                let mut d = s.d().clone();
                if let Err(e) = d.recover() {
                    fail!("recovery", "a complete, checksummed log record cannot be decoded: {e}");
                }
                Ok(Store { kind: Kind::Sim(SimStore { disk: Arc::new(Mutex::new(d)) }), plan: Default::default() })
            }
            Kind::Mock(m) => Ok(Store { kind: Kind::Mock(m.clone()), plan: Default::default() }),
        }
    }
    pub fn prune(&self, least_readable: u64) -> Result<()> {
        match &self.kind {
            Kind::Mock(m) => m.purge_stale_nodes(least_readable),
            Kind::Sim(s) => {
                let mut d = s.d();
                let gone: Vec<_> = d.stale.iter().filter(|i| i.stale_since_version <= least_readable).cloned().collect();
                for i in gone {
                    d.nodes.remove(&i.node_key);
                    d.stale.remove(&i);
                }
                Ok(())
            }
        }
    }
    pub fn put_preimage(&self, k: KeyHash, p: &[u8]) {
        match &self.kind {
            Kind::Mock(m) => m.put_key_preimage::<Sha256>(&Preimage(p.to_vec())),
            Kind::Sim(s) => {
                s.d().preimages.insert(k, p.to_vec());
            }
        }
    }
    pub fn node_keys(&self) -> BTreeSet<NodeKey> {
        match &self.kind {
            Kind::Mock(m) => m.nodes().map(|(k, _)| k).collect(),
            Kind::Sim(s) => s.d().nodes.keys().cloned().collect(),
        }
    }
    pub fn start_log(&self) {
        self.p().log = Some(vec![]);
    }
    pub fn take_log(&self) -> Vec<NodeKey> {
        self.p().log.take().unwrap_or_default()
    }
    /// digest of everything durable
    pub fn fingerprint(&self) -> u64 {
        match &self.kind {
            Kind::Sim(s) => {
                let d = s.d();
                let mut h = 1u64;
                for (k, v) in &d.nodes {
                    h = mix(h ^ cksum(&k.try_to_vec().unwrap()) ^ cksum(v).rotate_left(7));
                }
                for (k, v) in &d.values {
                    h = mix(h ^ cksum(&k.0) ^ cksum(&v.try_to_vec().unwrap()).rotate_left(9));
                }
                for s in &d.stale {
                    h = mix(h ^ cksum(&s.try_to_vec().unwrap()));
                }
                h
            }
            Kind::Mock(m) => {
                let nodes: BTreeMap<_, _> = m.nodes().collect();
                let vals: BTreeMap<_, _> = m.value_history().map(|(k, h)| (k, h.into_iter().map(|(v, x)| (v.0, x)).collect::<Vec<_>>())).collect();
                cksum(&nodes.try_to_vec().unwrap()) ^ cksum(&vals.try_to_vec().unwrap()).rotate_left(11)
            }
        }
    }
}

impl VersionedDatabase for Store {
    type Version = DbVersion;
    type NodeIter = std::vec::IntoIter<(NodeKey, Node)>;
    type HistoryIter = std::vec::IntoIter<(KeyHash, Vec<(DbVersion, Option<OwnedValue>)>)>;
    fn get(&self, max: DbVersion, k: KeyHash) -> Result<Option<OwnedValue>> {
        self.before_read()?;
        if self.lost_val(&k) {
            return Ok(None);
        }
        match &self.kind {
            Kind::Sim(s) => VersionedDatabase::get(s, max, k),
            Kind::Mock(s) => VersionedDatabase::get(s, max, k),
        }
    }
    fn update_batch(&self, b: TreeUpdateBatch) -> Result<()> {
        self.commit(b)
    }
    fn nodes(&self) -> Self::NodeIter {
        match &self.kind {
            Kind::Sim(s) => s.nodes(),
            Kind::Mock(s) => s.nodes().collect::<Vec<_>>().into_iter(),
        }
    }
    fn value_history(&self) -> Self::HistoryIter {
        match &self.kind {
            Kind::Sim(s) => s.value_history(),
            Kind::Mock(s) => s.value_history().collect::<Vec<_>>().into_iter(),
        }
    }
    fn len(&self) -> usize {
        match &self.kind {
            Kind::Sim(s) => s.len(),
            Kind::Mock(s) => s.len(),
        }
    }
    fn version(&self) -> DbVersion {
        match &self.kind {
            Kind::Sim(s) => s.version(),
            Kind::Mock(s) => s.version(),
        }
    }
    fn is_empty(&self) -> bool {
        match &self.kind {
            Kind::Sim(s) => s.is_empty(),
            Kind::Mock(s) => s.is_empty(),
        }
    }
}
impl TreeReader for Store {
    type Version = DbVersion;
    fn get_node_option(&self, k: &NodeKey) -> Result<Option<Node>> {
        self.before_read()?;
        {
            let mut p = self.p();
            if let Some(l) = &mut p.log {
                l.push(k.clone());
            }
            if p.missing.contains(k) {
                p.fired += 1;
                drop(p);
                count("fault.missing_node");
                return Ok(None);
            }
        }
        match &self.kind {
            Kind::Sim(s) => s.get_node_option(k),
            Kind::Mock(s) => s.get_node_option(k),
        }
    }
    fn get_value_option(&self, max: DbVersion, k: KeyHash) -> Result<Option<OwnedValue>> {
        self.before_read()?;
        if self.lost_val(&k) {
            return Ok(None);
        }
        match &self.kind {
            Kind::Sim(s) => s.get_value_option(max, k),
            Kind::Mock(s) => s.get_value_option(max, k),
        }
    }
    fn get_rightmost_leaf(&self) -> Result<Option<(NodeKey, LeafNode)>> {
        self.before_read()?;
        match &self.kind {
            Kind::Sim(s) => s.get_rightmost_leaf(),
            Kind::Mock(s) => s.get_rightmost_leaf(),
        }
    }
}
impl HasPreimage for Store {
    fn preimage(&self, k: KeyHash) -> Result<Option<Preimage>> {
        self.before_read()?;
        match &self.kind {
            Kind::Sim(s) => s.preimage(k),
            Kind::Mock(s) => s.preimage(k),
        }
    }
}
impl TreeWriter for Store {
    fn write_node_batch(&self, nb: &NodeBatch) -> Result<()> {
        yield_point();
        match &self.kind {
            Kind::Mock(m) => m.write_node_batch(nb),
            Kind::Sim(s) => {
                let b = TreeUpdateBatch { node_batch: nb.clone(), ..Default::default() };
                let rec = b.try_to_vec()?;
                self.write_record(s, rec)
            }
        }
    }
}
