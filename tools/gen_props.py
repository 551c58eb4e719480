#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J, P = "jmt/src/", "pmt/src/"

def m(*pairs): return [{"name": n, "where": w} for n, w in pairs]
def s(*tr): return [{"name": n, "meaning": x, "where": w} for n, x, w in tr]

PROPS = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": mech, "observe_at": observe, "hook_needed": None}
    if state: a["state"] = state
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("J01", "Versioned tree: every committed version stays readable exactly as committed",
 "After any sequence of committed updates to the versioned tree, reading any key at any committed version returns exactly the value that version's history of writes and deletions determines, with a proof that verifies against that version's root. Later commits, restarts, and crashes in the middle of later commits never change what an earlier committed version returns, and a version that was never committed has no root.",
 ["histories", "crash_points", "inputs"], "every history of single and multi-version, serial and batched updates and deletions; every prefix of a torn later write; every key and version read afterwards",
 "The tests read a few fixed or random key sets after uninterrupted commits to an in-memory store; no test reads old versions after a torn or retried later commit, or across deletions that empty the tree in the middle of a multi-version update.",
 [J+"tree.rs", J+"tree_cache.rs", J+"node_type.rs", J+"mock.rs"],
 m(("copy-on-write insertion into versioned node keys", J+"tree.rs: put, insert_at, batch_insert_at"), ("per-version staging and freezing of writes", J+"tree_cache.rs: freeze"), ("value history lookup bounded by version", J+"mock.rs: get_value_option, put_value")),
 ["JellyfishMerkleTree::get, get_with_proof, get_root_hash_option at every version", "records of the store before and after a crash"],
 s(("node records", "immutable tree nodes keyed by version and path", J+"node_type.rs: NodeKey"), ("value history", "per key, the values by version", J+"mock.rs: MockTreeStoreInner")))

prop("J02", "Versioned tree: root depends only on the contents; replicas converge",
 "The root of a version is a function of that version's key/value contents alone: replicas that apply the same versions one by one or several at once, by the serial or the batched interface, with any write order inside a version, with crashes and retries, all report the same root for every version, equal to the published definition of the tree's hash. Different contents give different roots. This includes a version 0 that builds on top of a restored pre-genesis state.",
 ["schedules", "inputs", "histories", "fault_sequences"], "every block log, every per-replica way of grouping and applying it, every delivery order, loss and crash on the way",
 "Tests compare serial and batched insertion for some generated batches on one store; they never compare independent replicas that crash, regroup versions, delete and reinsert, nor compute the root by an independent definition.",
 [J+"tree.rs", J+"tree_cache.rs", J+"node_type.rs"],
 m(("batched insertion must equal serial insertion", J+"tree.rs: batch_insert_at, batch_create_subtree"), ("leaf coalescing on delete", J+"tree.rs: insert_at_internal_node"), ("node hashing", J+"node_type.rs: InternalNode::merkle_hash, LeafNode::hash")),
 ["root hashes returned by put_value_set(s) and batch_put_value_sets", "get_root_hash at every version of every replica"])

prop("J03", "Versioned tree: computing an update has no effect until written; retries agree",
 "Computing an update never changes what the store or tree answers until its result is written, so abandoned or speculative computations, also those on top of an older readable version, leave no trace and report the root that the base contents with the update applied have. Computing the same update again on the same state, after an abandonment, a read failure or a crash that tore its write, yields the identical root and identical set of records, and writing it then gives the same state as an undisturbed run.",
 ["histories", "crash_points", "fault_sequences"], "every interleaving of abandoned, failed, torn and completed updates over every history",
 "No test abandons or repeats an update computation, and none tears a write.",
 [J+"tree.rs", J+"tree_cache.rs", J+"writer.rs"],
 m(("all writes staged in a cache returned to the caller", J+"tree_cache.rs: TreeCache, From<TreeCache> for (Vec<RootHash>, TreeUpdateBatch)"), ("stale-node bookkeeping in the returned batch", J+"tree_cache.rs: delete_node, freeze")),
 ["TreeUpdateBatch returned", "store records after retry"])

prop("J04", "Versioned tree: pruning keeps retained versions and reclaims what is dead",
 "After pruning up to a version, every version from that one on is still fully readable, provable and iterable with unchanged root and contents, whatever commits, crashes and further prunes follow. Every node that became unreachable from the retained versions was listed as removable by the update that replaced it, so pruning reclaims it.",
 ["histories", "crash_points"], "every interleaving of commits and prunes at every horizon, including a crash inside a prune",
 "Tests prune after a few fixed update sequences and mostly count nodes; they do not check every retained version after arbitrary interleavings, deletions, multi-version batches and crashes.",
 [J+"tree_cache.rs", J+"tree.rs", J+"mock.rs"],
 m(("stale indices recorded when a node is replaced", J+"tree_cache.rs: delete_node, freeze"), ("purge by stale-since version", J+"mock.rs: purge_stale_nodes")),
 ["contents, proofs and iteration of each retained version after pruning", "reachable node set versus stored node set"],
 s(("stale node indices", "which node stopped being needed at which version", J+"node_type.rs / lib.rs: StaleNodeIndex")))

prop("J05", "Versioned tree: no proof convinces a verifier of something false",
 "A light client that holds only a version's true root accepts a membership, absence, exclusion, range or interchange-format proof only when the claimed fact is true of that version. However answers are forged, mutated, spliced from other keys or versions, replayed or reordered on the way, verification returns an error and never crashes the client.",
 ["inputs", "fault_sequences", "histories"], "every tree, every claimed fact and every alteration of a proof the network adversary can make",
 "Tests check that honest proofs verify and a handful of single-field alterations fail; they cannot sample forged combinations over arbitrary trees and histories.",
 [J+"types/proof/definition.rs", J+"types/proof.rs", J+"tree/ics23_impl.rs"],
 m(("sparse Merkle proof verification", J+"types/proof/definition.rs: SparseMerkleProof::verify"), ("exclusion proof verification", J+"tree.rs: ExclusionProof::verify*, types/proof/definition.rs"), ("range proof verification", J+"types/proof/definition.rs: SparseMerkleRangeProof::verify")),
 ["Ok/Err of every verification call compared to the truth", "absence of panics in the verifier"])

prop("J06", "Versioned tree: every true fact can be proved, for every key and version",
 "For every committed version and every key, the tree produces the value with a membership or absence proof, an exclusion proof naming the nearest neighbours, a range proof and an interchange-format proof as applicable; each verifies against that version's root at a client that knows only the root. Proof requests still succeed after later commits and, over a lossy network, are answered correctly within a bounded time once it heals.",
 ["inputs", "histories", "schedules"], "every key, present or absent, at every version of every history; every delivery schedule",
 "Tests prove a few keys at the latest version of freshly built trees; neighbours written at older versions and deep shared prefixes are not reached.",
 [J+"tree.rs", J+"types/proof/definition.rs", J+"tree/ics23_impl.rs"],
 m(("proof construction on the path", J+"tree.rs: get_with_proof"), ("neighbour search", J+"tree.rs: get_with_exclusion_proof, search_for_closest_node, get_bounding_path"), ("range proof", J+"tree.rs: get_range_proof"), ("interchange-format proof", J+"tree/ics23_impl.rs: get_with_ics23_proof")),
 ["proofs returned and the client's verdict on them"])

prop("J07", "Versioned tree: iteration is ordered, complete and exactly-once",
 "Iterating a version from any start key or start position yields every entry of that version from there on exactly once, in ascending key order, with the value of that version, and then ends. Commits and prunes of other versions made while the iteration is under way do not change it, and a read failure in the middle is reported as an error and does not make it skip, repeat or invent entries.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of iteration steps with commits, prunes and transient read failures; every start key and index",
 "Tests iterate fixed trees without concurrent activity and without failures.",
 [J+"iterator.rs"],
 m(("stack of ancestors still to visit", J+"iterator.rs: JellyfishMerkleIterator::next, NodeVisitInfo"), ("start positioning", J+"iterator.rs: new, new_by_index, skip_leaves")),
 ["items and errors produced, step by step, against the version's sorted contents"],
 s(("parent stack", "ancestors with a bitmap of children left to visit", J+"iterator.rs")))

prop("J08", "Versioned tree: an interrupted restore resumes and converges to the source",
 "A node restoring a version from an in-order stream of proved chunks may crash, be restarted, or fail to write at any point. Reopening it always succeeds, reports how far it got, and feeding it the rest of the stream, which for an empty tree is nothing, or starting over on top of what is there, ends with the same root and contents as the source, complete and ready for the next update; reopening and finishing after completion is harmless.",
 ["crash_points", "schedules", "fault_sequences"], "every chunking of every snapshot, every crash point between or inside chunk writes, every delivery delay and duplication",
 "Tests interrupt a restore at a few sampled points between chunks and never inside a write, never after completion, and never over an unreliable transport.",
 [J+"restore.rs"],
 m(("frozen nodes written per chunk", J+"restore.rs: add_chunk_impl, freeze"), ("recovery from the rightmost leaf", J+"restore.rs: new, recover_partial_nodes")),
 ["root and node records of the restored store", "key reported as last restored after reopening"],
 s(("partial nodes", "the right edge of the tree not yet frozen", J+"restore.rs: JellyfishMerkleRestore")))

prop("J09", "Versioned tree: restore refuses every chunk that is not the next true one",
 "A restoring node accepts a chunk only if, together with what it already has, it is a prefix of the snapshot named by the expected root. Any altered, reordered, truncated, padded, foreign or spliced chunk is refused with an error, and nothing of it is written or kept; the honest stream then still completes, with or without reopening. A restore told to finish before the whole snapshot has arrived reports an error and leaves no root; a restore of some other root does not succeed on account of what is already in the store, and leaves it as it is.",
 ["inputs", "fault_sequences"], "every snapshot, every position in the stream, every forged chunk and proof",
 "Tests feed honest chunks and one kind of mismatched root.",
 [J+"restore.rs", J+"types/proof/definition.rs"],
 m(("range proof check before writing", J+"restore.rs: add_chunk_impl, verify"), ("root check before the last write", J+"restore.rs: finish_impl, write_root"), ("ordering check", J+"restore.rs: add_one, insert_at_leaf")),
 ["Ok/Err of add_chunk", "store records before and after a refused chunk"])

prop("J10", "Versioned store: concurrent readers, writer and pruner do not disturb each other",
 "When threads read, iterate and prove committed versions of the bundled store while another thread commits new versions and prunes old ones, every read of a retained version returns exactly that version's contents. A reader never sees part of a commit through a version it was told about, nothing deadlocks or panics, and the store ends in the same state as a sequential run.",
 ["schedules"], "every interleaving of a writer, a pruner and several readers at lock granularity",
 "No test uses more than one thread.",
 [J+"mock.rs", J+"db.rs", J+"tree.rs"],
 m(("one reader-writer lock over the store", J+"mock.rs: MockTreeStore"), ("immutable versioned nodes", J+"node_type.rs: NodeKey")),
 ["results of each reader against the version's contents", "deadlock and panic detection by the scheduler"])

prop("J11", "Versioned tree: a storage failure surfaces as an error, never as a wrong answer",
 "If a node record is unreadable or missing while the tree reads, proves, iterates or computes an update, the call either does not need it and answers correctly, or returns an error; it never returns a wrong value, a false absence, a proof of something else, an incomplete iteration, or a wrong root, and never panics. Once the failure is over, the same call gives the right answer.",
 ["fault_sequences", "inputs"], "every call, every record or read that can fail, persistently or once",
 "Tests use a store that cannot fail, apart from a few missing-node cases.",
 [J+"tree.rs", J+"iterator.rs", J+"tree_cache.rs", J+"reader.rs"],
 m(("error propagation from the reader", J+"reader.rs: get_node; tree.rs, iterator.rs, tree_cache.rs: ? on every read"), ("missing node is an error below the root", J+"tree.rs: get_with_proof, tree_cache.rs: get_node")),
 ["result of each call under injected failures against the model"])

prop("J12", "Versioned tree: sizes, versions and counters match the contents",
 "The leaf count reported for a version, the store's length, emptiness and latest version, and the per-version statistics of created and replaced nodes returned with an update all equal what the contents and record changes say, after every history of commits, deletions, crashes and retries.",
 ["histories", "crash_points"], "every history of updates including deletions of absent keys, emptied trees, torn and retried commits",
 "Tests check counters after a few fixed insertions.",
 [J+"tree.rs", J+"db.rs", J+"node_type.rs", J+"tree_cache.rs"],
 m(("leaf counts in internal nodes", J+"node_type.rs: InternalNode::leaf_count"), ("store length and version", J+"db.rs: VersionedDatabase::len, version, is_empty"), ("per-version statistics", J+"tree_cache.rs: freeze, NodeStats")),
 ["get_leaf_count, len, is_empty, version, TreeUpdateBatch::node_stats"])

prop("P01", "Patricia trie: behaves as a map through every history",
 "For every sequence of inserts, overwrites, removals, commits and restarts, get, contains, enumeration, size and removal results of the Patricia trie are those of a plain ordered map, for keys of any length including the empty key and keys that are prefixes of one another, and values of any length.",
 ["histories", "inputs"], "every operation sequence over every key and value shape; commits and reopens at any point; deleting and archiving databases",
 "Tests use a few fixed or random equal-length keys and rarely mix prefixes, small values, removals and commits.",
 [P+"inner.rs", P+"trie_iterator.rs", P+"nibbles.rs", P+"db.rs"],
 m(("insertion", P+"inner.rs: insert_at"), ("removal and restructuring", P+"inner.rs: delete_at, degenerate"), ("enumeration", P+"trie_iterator.rs: next")),
 ["Trie::get, contains, insert, remove; values(), iter(), len(), is_empty()"])

prop("P02", "Patricia trie: root equals the Ethereum reference for the contents",
 "The root of the Patricia trie depends only on its key/value contents and equals the root the Ethereum specification assigns to them, whatever order, overwrites, removals, commits and restarts led there; replicas with equal contents report equal roots. The empty trie has the published empty root.",
 ["inputs", "histories", "schedules"], "every contents and every path of operations to it on every replica",
 "Tests compare a few fixed roots and insertion orders.",
 [P+"inner.rs", P+"nibbles.rs", P+"node.rs"],
 m(("canonical structure after removal", P+"inner.rs: degenerate"), ("node encoding and inlining of short nodes", P+"inner.rs: encode_raw, write_node"), ("path encoding", P+"nibbles.rs: encode_compact")),
 ["root_hash() and commit() against an independent implementation of the specification"])

prop("P03", "Patricia trie: a crash during commit leaves the old or the new trie intact",
 "If the process dies at any point while a commit writes to storage, then after a restart the previously committed root is still completely readable or the new root is, with exactly its contents and provable; and repeating the work from a readable root succeeds. On an archiving database every earlier root survives as well.",
 ["crash_points", "histories"], "every record write of every commit as crash point, with records of one batch written in any order",
 "No test interrupts a commit.",
 [P+"inner.rs", P+"db.rs"],
 m(("new nodes written before old ones are removed", P+"inner.rs: commit"), ("batch interfaces", P+"db.rs: insert_batch, remove_batch")),
 ["contents, proofs and enumeration at the old and new roots after restart"])

prop("P04", "Patricia trie: a failed operation changes nothing and can be retried",
 "If storage refuses a read or a write during an operation or commit, the call returns an error and the trie's visible contents stay as before the call; repeating it when storage works again gives the result of an undisturbed run. A later commit never loses entries because an earlier call failed or had no effect.",
 ["fault_sequences", "histories"], "every failing read or write in every operation of every history, transient or repeated",
 "Tests check that the error is returned from a corrupt trie for one fixed shape, and never what the trie is worth afterwards.",
 [P+"inner.rs"],
 m(("changes applied only after the traversal succeeds", P+"inner.rs: insert, remove"), ("staged nodes kept until written", P+"inner.rs: commit"), ("obsolete nodes collected per operation", P+"inner.rs: passing_keys")),
 ["results of the calls, contents and root afterwards, in memory and after reopening"])

prop("P05", "Patricia trie: no proof convinces a verifier of something false",
 "Verifying a proof against a trusted root yields a value only if that key has that value in the trie with that root, and yields absence only if the key is absent. However the proof is forged, altered, cut, reordered or spliced on the way, any other outcome is an error, never a panic.",
 ["inputs", "fault_sequences"], "every trie, key, and alteration of a proof by a network adversary",
 "Tests verify honest proofs and a few damaged ones.",
 [P+"inner.rs"],
 m(("proof verification through an in-memory node set keyed by hash", P+"inner.rs: verify_proof"), ("node decoding", P+"inner.rs: decode_node")),
 ["verify_proof result against the truth"])

prop("P06", "Patricia trie: every present and absent key has a minimal, verifying proof",
 "For every committed trie and every key, present or absent, the trie returns a proof which verifies against the root with the key's true answer, and consists of exactly the nodes on the key's path. Proofs can be made by a freshly opened trie, and over a lossy network a client gets a correct answer within a bounded time once it heals.",
 ["inputs", "histories", "schedules"], "every committed contents, every key, every delivery schedule",
 "Tests prove a few fixed keys; opening at a root and proving was never exercised.",
 [P+"inner.rs"],
 m(("path collection", P+"inner.rs: get_proof, get_path_at"), ("encoding of path nodes", P+"inner.rs: encode_raw")),
 ["proof lists returned, the reference path, the client's verdict"])

prop("P07", "In-memory database: operations are linearizable; tries can share it",
 "Concurrent reads, writes, removals, batch operations' single steps, size queries and enumerations on the bundled database each take effect at one instant between call and return, and none blocks for ever, panics or loses an update. Tries in different threads over one archiving database each behave as if alone.",
 ["schedules"], "every interleaving of several threads at lock granularity",
 "No test uses more than one thread.",
 [P+"db.rs", P+"inner.rs"],
 m(("one reader-writer lock over the map", P+"db.rs: MemoryDB")),
 ["invocation/response histories checked for linearizability against a map", "each trie's results against its own model", "deadlock and panic detection by the scheduler"])

prop("P08", "Patricia trie: old roots and independent handles stay isolated",
 "On an archiving database every committed root stays completely readable with its own contents, however many commits follow. Several tries opened on one database at the same or different roots never affect what another one reads, and committing the same contents from several of them is harmless; crashes of one handle do not change this.",
 ["histories", "schedules", "crash_points"], "every interleaving of operations and commits of several handles over shared nodes",
 "Tests open a few roots and handles in a fixed order.",
 [P+"inner.rs", P+"db.rs"],
 m(("content-addressed nodes", P+"inner.rs: write_node"), ("old nodes kept in archive mode", P+"db.rs: remove"), ("opening at a root", P+"inner.rs: at_root")),
 ["reads, enumeration, proofs and roots at every old root and handle"])

prop("P09", "Patricia trie: a missing or damaged node is reported, never read as absence",
 "If a stored node is missing, unreadable or damaged, every operation that needs it returns an error and every operation that does not need it is answered correctly. No operation panics, invents or silently omits entries, or reports a present key as absent.",
 ["fault_sequences", "inputs"], "every committed trie, every record lost or altered, every operation",
 "Tests remove one node of one fixed trie.",
 [P+"inner.rs", P+"trie_iterator.rs"],
 m(("missing node error with its path", P+"inner.rs: get_hash_node, recover_from_db"), ("decoding errors", P+"inner.rs: decode_node"), ("error channel of enumeration", P+"trie_iterator.rs: take_error; inner.rs: values")),
 ["result of each operation against the model and the set of damaged nodes on its path"])

prop("P10", "Patricia trie: a database that deletes replaced nodes keeps exactly the current ones",
 "On a database that really deletes what it is told to (no archive mode), after every commit the stored records are exactly the nodes of the committed contents: none missing and none left over from earlier contents, whatever sequence of inserts, overwrites, removals, abandoned changes, refused operations and reopenings led there. Nodes written ahead by asking a proof of uncommitted changes, and what a refused or interrupted commit left, are exempt.",
 ["histories", "fault_sequences"], "every history of changes and commits over a deleting database",
 "Tests look at the database size after a few fixed commits.",
 [P+"inner.rs", P+"db.rs"],
 m(("replaced nodes collected while the trie changes", P+"inner.rs: passing_keys"), ("nodes of the new contents kept", P+"inner.rs: gen_keys, commit"), ("deletion in batch", P+"db.rs: remove_batch")),
 ["the keys of the stored records after each commit against the node set of the reference trie"])

NA = []
def na(id, title, statement, text, why, files, mech, observe, reason):
    prop(id, title, statement, ["inputs"], text, why, files, mech, observe)
    NA.append({"property": id, "reason": reason})

na("N01", "Encodings round-trip and reject malformed input",
 "Decoding the encoding of any node, node key, proof or path gives back the same object, and decoding arbitrary bytes gives an object that re-encodes to the same bytes or an error, never a panic.",
 "every value and every byte string", "Tests round-trip generated values and a few malformed inputs.",
 [J+"node_type.rs", P+"inner.rs", P+"nibbles.rs"], m(("node codec", J+"node_type.rs: Node::encode, decode"), ("RLP codec", P+"inner.rs: decode_node")), ["encode/decode pairs"],
 "a pure function of its input: no schedule, clock, storage, network or crash for a simulator to control. What of it is visible through the system is exercised by J01, J08, J11, P01, P02, P09, whose simulated disks store every record encoded and decode (damaged) bytes.")
na("N02", "Hashes of different kinds of nodes cannot be confused",
 "No leaf, internal node or placeholder can hash to the same digest as a different node except by breaking the hash function.",
 "every pair of distinct nodes", "Injectivity of the pre-image encoding is not sampled by examples.",
 [J+"node_type.rs", J+"types/proof.rs"], m(("domain-separated hashing", J+"types/proof.rs: SparseMerkleInternalNode::hash, SparseMerkleLeafNode::hash")), ["digests"],
 "a statement about a pure encoding and a cryptographic assumption; there is no execution to simulate. Its consequences (no forged proof accepted, different contents have different roots) are simulated in J02, J05.")
na("N03", "Path arithmetic: nibble paths slice, join and compare as sequences",
 "Slicing, joining, comparing and finding common prefixes of paths agree with the same operations on the sequence of half-bytes they stand for.",
 "every pair of paths", "Tests cover generated paths of the first crate and two cases of the second.",
 [J+"types/nibble/nibble_path.rs", P+"nibbles.rs"], m(("nibble iteration", J+"types/nibble/nibble_path.rs"), ("nibble vectors", P+"nibbles.rs")), ["path values"],
 "pure functions without state, time, I/O or concurrency; any error in them that a user could see changes a root, a read or an order and is caught by J01, J02, J06, J07, P01, P02.")
na("N04", "Block and account value types convert and order consistently",
 "The helper value types shipped beside the trees convert to and from their wire and text forms without loss, and their order and equality agree with their contents.",
 "every value", "Few of these types have tests at all.",
 [J+"types/block_info.rs", J+"types/access_path.rs", "serde_hash/src/lib.rs"], m(("derived and hand-written conversions", J+"types/block_info.rs, access_path.rs")), ["values and their serialised forms"],
 "plain data types with no state, time, I/O or concurrency to simulate; most are not even compiled into the crates.")

with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS: f.write(json.dumps(p) + "\n")

NOTE = {
 "default": "Seeded search: every run is one exactly repeatable simulated execution of the real crate code against an independent model; says nothing about executions outside those drawn. Trusts the models and the simulated storage in /verif/sim, and assumes single records are written atomically.",
}
EXTRA = {
 "J01": " Unborn versions are judged by root lookup and proofs; the plain value lookup reads the value history and has no notion of an unborn version.",
 "J03": " Batches are compared record by record.",
 "J04": " Copies of the root node kept by updates that change nothing are tolerated as leaks.",
 "J10": " Interleavings at lock-operation granularity (the code has no other shared mutable state).",
 "J11": " A lost value record cannot be told from an absent value by the store interface, so only node records are lost; value reads may fail.",
 "P01": " One known finding (light mode, shared identical node) is reported and excluded from generation.",
 "P03": " Assumes a database applies insert_batch before remove_batch; within a batch any order and any prefix.",
 "P07": " Interleavings at lock-operation granularity (the code has no other shared mutable state).",
 "P08": " Several handles are claimed for archiving databases only.",
 "P09": " A replaced record that still decodes as a node is a different trie: records with random bytes changed are only held to no panic, hang or overflow; plain iter() has no error channel and is judged together with its error query.",
}
EXTRA["J05"] = " Forgery is structural (mutate, splice, replay, synthesize), not cryptographic: collision resistance of the hash is assumed."
checks = []
for p in PROPS:
    if any(n["property"] == p["id"] for n in NA): continue
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
      "evidence_file": f"evidence/{p['id']}.json",
      "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, checked against an executable reference model",
      "level": "exploration", "level_note": NOTE["default"] + EXTRA.get(p["id"], "")})
man = {"version": 1, "setup_cmd": "./check.sh build",
  "hooks": {"guard": "none: the crates' own seams are used (storage traits; parking_lot and ahash replaced by patched dependencies of the harness crate; std given to the crates under test through a facade whose locks and atomics are scheduling points)", "enable": "nothing to enable: /verif/sim builds /repo's crates unmodified by path dependency; /verif/sim/rustc.sh is its RUSTC_WRAPPER", "source_commits": []},
  "checks": checks, "not_applicable": NA,
  "notes": "./check.sh replay FILE re-runs a recorded violation. Known findings: known_findings.txt. /repo carries only 'fix:' commits."}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties", len(checks), "checks")
