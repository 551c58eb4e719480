//! The checked properties.
use crate::*;
use simrt::R;

pub struct Prop {
    pub id: &'static str,
    pub f: fn() -> R,
    /// simulated runs of the quick and of the thorough tier
    pub quick: u64,
    pub thorough: u64,
    /// components of the system under test that run, and what stands in for the rest
    pub real: &'static str,
    pub stub: &'static str,
    pub rule: &'static str,
}

const JREAL: &str = "jmt: tree, tree cache, iterator, node codec, update batches, proofs (all unmodified); real hashing";
const JSTUB: &str = "disk: simulated store (write log, torn and reordered record batches, crash, read errors, lost records) next to the bundled MockTreeStore; OS entropy and hash seeds seeded";
const PREAL: &str = "pmt: trie, node codec, iterators, MemoryDB (all unmodified); real hashing and RLP";
const PSTUB: &str = "disk: simulated record store (shuffled, partially applied, refused batches; read errors, lost or damaged records; process death at any record) next to the bundled MemoryDB; OS entropy and hash seeds seeded";
const NET: &str = "network: simulated delay, loss, duplication, reordering, partitions, healed at the end";
const LOCKS: &str = "thread scheduling and lock hand-off: the simulator runs one thread at a time and draws who continues at every lock operation (parking_lot's API on simulated locks)";

pub static PROPS: &[Prop] = &[
    Prop { id: "J01", f: jworld::j01, quick: 180_000, thorough: 2_500_000, real: JREAL, stub: JSTUB, rule: "one run = one drawn history of commits, reads at every version, crashes, torn writes, restarts" },
    Prop { id: "J02", f: jnet::j02, quick: 120_000, thorough: 1_500_000, real: JREAL, stub: NET, rule: "one run = one drawn block log spread to replicas that apply it in their own way, with crashes" },
    Prop { id: "J03", f: jworld::j03, quick: 140_000, thorough: 2_000_000, real: JREAL, stub: JSTUB, rule: "one run = commits interleaved with speculative, aborted and crashed computations that are retried" },
    Prop { id: "J04", f: jworld::j04, quick: 120_000, thorough: 1_500_000, real: JREAL, stub: JSTUB, rule: "one run = commits, prunes at drawn horizons, crashes; reads at every retained version" },
    Prop { id: "J05", f: jnet::j05, quick: 120_000, thorough: 1_500_000, real: JREAL, stub: NET, rule: "one run = a prover's answers, forged or spliced in flight, judged by light clients" },
    Prop { id: "J06", f: jnet::j06, quick: 100_000, thorough: 1_200_000, real: JREAL, stub: NET, rule: "one run = honest proofs of every kind at every version, locally and over a failing network" },
    Prop { id: "J07", f: jworld::j07, quick: 140_000, thorough: 2_000_000, real: JREAL, stub: JSTUB, rule: "one run = iterators interleaved with commits, prunes and transient read errors" },
    Prop { id: "J08", f: jrestore::j08, quick: 80_000, thorough: 1_000_000, real: JREAL, stub: NET, rule: "one run = a snapshot streamed to a restoring node that crashes, resumes and suffers write errors" },
    Prop { id: "J09", f: jrestore::j09, quick: 100_000, thorough: 1_200_000, real: JREAL, stub: NET, rule: "one run = a snapshot stream with forged, reordered, cut or mixed chunks" },
    Prop { id: "J10", f: jconc::j10, quick: 80_000, thorough: 900_000, real: "jmt: MockTreeStore, tree, iterator (unmodified)", stub: LOCKS, rule: "one run = one interleaving of a writer, readers and a pruner on one store" },
    Prop { id: "J11", f: jworld::j11, quick: 120_000, thorough: 1_500_000, real: JREAL, stub: JSTUB, rule: "one run = reads, proofs, iterations and updates while records are unreadable, missing or failing" },
    Prop { id: "J12", f: jworld::j12, quick: 160_000, thorough: 2_000_000, real: JREAL, stub: JSTUB, rule: "one run = commits, crashes and retries with every counter compared to the model" },
    Prop { id: "P01", f: pworld::p01, quick: 200_000, thorough: 3_000_000, real: PREAL, stub: PSTUB, rule: "one run = a drawn history of inserts, removals, reads, commits and restarts" },
    Prop { id: "P02", f: pworld::p02, quick: 200_000, thorough: 3_000_000, real: PREAL, stub: PSTUB, rule: "one run = replicas reaching the same contents through their own order, detours, commits and restarts" },
    Prop { id: "P03", f: pworld::p03, quick: 180_000, thorough: 2_500_000, real: PREAL, stub: PSTUB, rule: "one run = commits cut by process death at a drawn record or read, then recovery" },
    Prop { id: "P04", f: pworld::p04, quick: 140_000, thorough: 2_000_000, real: PREAL, stub: PSTUB, rule: "one run = operations and commits refused by the disk at drawn places, retried or not" },
    Prop { id: "P05", f: pnet::p05, quick: 140_000, thorough: 2_000_000, real: PREAL, stub: NET, rule: "one run = proofs forged, spliced, cut or reordered in flight, judged by light clients" },
    Prop { id: "P06", f: pnet::p06, quick: 140_000, thorough: 2_000_000, real: PREAL, stub: NET, rule: "one run = honest proofs for present and absent keys, locally and over a failing network" },
    Prop { id: "P07", f: pmem::p07, quick: 120_000, thorough: 1_500_000, real: "pmt: MemoryDB, trie, iterators (unmodified)", stub: LOCKS, rule: "one run = one interleaving of threads on one database, its history checked for linearizability, or of tries sharing it" },
    Prop { id: "P08", f: pworld::p08, quick: 140_000, thorough: 2_000_000, real: PREAL, stub: PSTUB, rule: "one run = several handles and old roots on one archive, interleaved, with crashes" },
    Prop { id: "P09", f: pworld::p09, quick: 140_000, thorough: 2_000_000, real: PREAL, stub: PSTUB, rule: "one run = operations over a committed trie with lost, damaged or unreadable records" },
    Prop { id: "P10", f: pworld::p10, quick: 140_000, thorough: 2_000_000, real: PREAL, stub: PSTUB, rule: "one run = commits, refusals, crashes and abandoned changes on a database that deletes replaced nodes, its records listed after every commit" },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id.eq_ignore_ascii_case(id))
}

/// Histories that are known to fail on the unchanged tree. Each is run on its
/// own; none is reachable by the random worlds.
pub struct Known {
    pub property: &'static str,
    pub id: &'static str,
    pub f: fn() -> R,
    /// the failure as it is known; anything else is reported
    pub oracle: &'static str,
}
pub static KNOWN: &[Known] = &[Known { property: "J03", id: "J03-fork-emptied", f: jworld::known_fork_emptied, oracle: "fork-emptied" }, Known { property: "P01", id: "P01-light-shared-node", f: pworld::known_shared_node, oracle: "shared-node-removed" }];
