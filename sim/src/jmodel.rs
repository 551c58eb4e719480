//! Executable reference model of the versioned (Jellyfish) tree: one ordered
//! map per version and a from-scratch sparse-Merkle root over it.
use jmt::KeyHash;
use sha2::{Digest, Sha256};
use simrt::*;
use std::collections::BTreeMap;
use std::cell::Cell;
use std::sync::OnceLock;

pub type Val = Vec<u8>;
pub type Map = BTreeMap<KeyHash, Val>;

pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

/// The hash function the tree is instantiated with. It decides the value hashes;
/// nodes are always hashed with SHA-256. In some runs it is another function.
#[derive(Clone, Debug)]
pub struct Hs(Sha256);
thread_local! {
    static OTHER: Cell<bool> = const { Cell::new(false) };
}
/// for this thread, from now on
pub fn other_hash(on: bool) {
    OTHER.set(on);
}
impl jmt::SimpleHasher for Hs {
    fn new() -> Self {
        let mut h = <Sha256 as Digest>::new();
        if OTHER.get() {
            Digest::update(&mut h, b"another function");
        }
        Hs(h)
    }
    fn update(&mut self, data: &[u8]) {
        Digest::update(&mut self.0, data);
    }
    fn finalize(self) -> [u8; 32] {
        Digest::finalize(self.0).into()
    }
}
/// hash of a value
pub fn vhash(v: &[u8]) -> [u8; 32] {
    if OTHER.get() {
        sha(&[b"another function", v])
    } else {
        sha(&[v])
    }
}

const PLACEHOLDER: [u8; 32] = *b"SPARSE_MERKLE_PLACEHOLDER_HASH__";

pub fn bit(k: &[u8; 32], i: usize) -> bool {
    k[i / 8] >> (7 - i % 8) & 1 == 1
}

fn node(items: &[([u8; 32], [u8; 32])], depth: usize) -> [u8; 32] {
    match items.len() {
        0 => PLACEHOLDER,
        1 => items[0].1,
        _ => {
            let m = items.partition_point(|(k, _)| !bit(k, depth));
            let l = node(&items[..m], depth + 1);
            let r = node(&items[m..], depth + 1);
            sha(&[b"JMT::IntrnalNode", &l, &r])
        }
    }
}

/// Root of the canonical sparse Merkle tree holding exactly `m`.
pub fn root(m: &Map) -> [u8; 32] {
    node(&items(m), 0)
}

fn items(m: &Map) -> Vec<([u8; 32], [u8; 32])> {
    m.iter().map(|(k, v)| (k.0, sha(&[b"JMT::LeafNode", &k.0, &vhash(v)]))).collect()
}

/// Siblings on the way from the root to present key `k`, root first, with the
/// bit `k` takes at that depth.
pub fn path(m: &Map, k: &KeyHash) -> Vec<(bool, [u8; 32])> {
    let all = items(m);
    let mut cur = &all[..];
    let mut out = vec![];
    let mut d = 0;
    while cur.len() > 1 {
        let i = cur.partition_point(|(x, _)| !bit(x, d));
        let b = bit(&k.0, d);
        let (mine, other) = if b { (&cur[i..], &cur[..i]) } else { (&cur[..i], &cur[i..]) };
        out.push((b, node(other, d + 1)));
        cur = mine;
        d += 1;
    }
    out
}

pub fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// short name of a key for traces
pub fn kn(k: &KeyHash) -> String {
    let h = hx(&k.0);
    format!("{}..{}", &h[..6], &h[60..])
}
pub fn vn(v: &Option<Val>) -> String {
    match v {
        None => "none".into(),
        Some(v) if v.len() <= 12 => format!("0x{}", hx(v)),
        Some(v) => format!("0x{}..#{}", hx(&v[..8]), v.len()),
    }
}

fn bytes_from(seed: u64) -> [u8; 32] {
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[i * 8..i * 8 + 8].copy_from_slice(&mix(seed.wrapping_add(i as u64 * 77)).to_be_bytes());
    }
    o
}

/// One key, structurally related to the ones already chosen.
pub fn gen_key(have: &[KeyHash]) -> KeyHash {
    let mut k = match weighted(&[3, 3, if have.is_empty() { 0 } else { 8 }, 1]) {
        0 => {
            let mut b = [0u8; 32];
            b[0] = draw(256) as u8;
            b[1] = draw(4) as u8;
            b
        }
        1 => bytes_from(draw(1 << 32)),
        2 => {
            let base = pick(have).0;
            // where the new key leaves the old one: near the root, on a nibble
            // boundary, anywhere, or at the very bottom
            let d = match draw(5) {
                0 => draw(12),
                1 => 4 * draw(64),
                2 => draw(256),
                // often the very last bit
                3 => 255 - draw(16) * draw(2),
                _ => 4 * draw(16) + draw(4),
            } as usize;
            let tail = if draw(2) == 0 { base } else { bytes_from(draw(1 << 32)) };
            let mut b = base;
            for i in d..256 {
                let v = if i == d { !bit(&base, i) } else { bit(&tail, i) };
                let m = 1 << (7 - i % 8);
                if v {
                    b[i / 8] |= m
                } else {
                    b[i / 8] &= !m
                }
            }
            b
        }
        _ => *pick(&[[0u8; 32], [0xff; 32], { let mut b = [0xff; 32]; b[31] = 0xfe; b }, { let mut b = [0u8; 32]; b[31] = 1; b }]),
    };
    let mut n = 0u64;
    while have.contains(&KeyHash(k)) {
        n += 1;
        k[(n % 32) as usize] ^= n as u8 | 1;
    }
    KeyHash(k)
}

pub fn gen_keys(n: usize) -> Vec<KeyHash> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(gen_key(&v));
    }
    v
}

/// Preimages sorted by hash, so neighbours share long prefixes.
pub fn preimages() -> &'static Vec<([u8; 32], Vec<u8>)> {
    static T: OnceLock<Vec<([u8; 32], Vec<u8>)>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<_> = (0..20000u32).map(|i| { let p = format!("acct/{i}").into_bytes(); (sha(&[&p]), p) }).collect();
        v.sort();
        v
    })
}

pub fn gen_preimage_keys(n: usize) -> Vec<(KeyHash, Vec<u8>)> {
    let t = preimages();
    let mut idx: Vec<usize> = vec![];
    for _ in 0..n {
        let mut i = if !idx.is_empty() && draw(2) == 1 {
            (pick(&idx) + 1 + draw(3) as usize) % t.len()
        } else {
            draw(t.len() as u64) as usize
        };
        while idx.contains(&i) {
            i = (i + 1) % t.len();
        }
        idx.push(i);
    }
    idx.into_iter().map(|i| (KeyHash(t[i].0), t[i].1.clone())).collect()
}

pub fn gen_val(ctr: &mut u64, allow_empty: bool) -> Val {
    *ctr += 1;
    let n = *ctr;
    match weighted(&[6, 2, 1, 1, 1]) {
        0 => n.to_be_bytes().to_vec(),
        1 => vec![(n % 251) as u8; 1 + draw(3) as usize],
        2 => {
            let len = match draw(64) {
                // lengths that need a second or third byte
                63 => *pick(&[255, 256, 300, 65535, 65536, 70000]),
                _ => 40 + draw(60) as usize,
            };
            let mut v = vec![0x5a; len];
            v[..8].copy_from_slice(&n.to_be_bytes());
            v
        }
        3 => {
            if allow_empty {
                vec![]
            } else {
                vec![0]
            }
        }
        _ => vec![7],
    }
}

/// History of committed contents.
#[derive(Clone, Default)]
pub struct Hist {
    /// version -> contents
    pub at: BTreeMap<u64, Map>,
    /// every write recorded in the value history: version -> keys touched
    pub touched: BTreeMap<u64, Vec<KeyHash>>,
    /// what the tree held before its first version (a pre-genesis state)
    pub base: Map,
}
impl Hist {
    pub fn latest(&self) -> Option<u64> {
        self.at.keys().next_back().copied()
    }
    pub fn cur(&self) -> Map {
        self.at.values().next_back().unwrap_or(&self.base).clone()
    }
    pub fn get(&self, v: u64, k: &KeyHash) -> Option<Val> {
        self.at.range(..=v).next_back().and_then(|(_, m)| m.get(k).cloned())
    }
}
