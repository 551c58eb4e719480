//! Executable reference model of the Patricia trie: an ordered map and the
//! Ethereum Merkle-Patricia root computed from it from scratch (RLP, hex-prefix
//! encoding and Keccak-256 written out here, sharing nothing with the code).
use crate::jmodel::hx;
use simrt::*;
use std::collections::{BTreeMap, BTreeSet};
use tiny_keccak::{Hasher, Keccak};

pub type Bytes = Vec<u8>;
pub type Hash = [u8; 32];
pub type PMap = BTreeMap<Bytes, Bytes>;

pub fn keccak(b: &[u8]) -> Hash {
    let mut o = [0; 32];
    let mut k = Keccak::v256();
    k.update(b);
    k.finalize(&mut o);
    o
}

fn rlp_len(n: usize, short: u8, out: &mut Bytes) {
    if n < 56 {
        out.push(short + n as u8);
    } else {
        let b = n.to_be_bytes();
        let s = b.iter().position(|x| *x != 0).unwrap();
        out.push(short + 55 + (8 - s) as u8);
        out.extend(&b[s..]);
    }
}
pub fn rlp_str(b: &[u8]) -> Bytes {
    if b.len() == 1 && b[0] < 0x80 {
        return b.to_vec();
    }
    let mut o = vec![];
    rlp_len(b.len(), 0x80, &mut o);
    o.extend(b);
    o
}
pub fn rlp_list(items: &[Bytes]) -> Bytes {
    let mut o = vec![];
    rlp_len(items.iter().map(|x| x.len()).sum(), 0xc0, &mut o);
    for i in items {
        o.extend(i);
    }
    o
}
pub fn hex_prefix(nib: &[u8], leaf: bool) -> Bytes {
    let f = if leaf { 0x20 } else { 0 };
    let (mut o, rest) = if nib.len() % 2 == 1 { (vec![f + 0x10 + nib[0]], &nib[1..]) } else { (vec![f], nib) };
    o.extend(rest.chunks(2).map(|c| c[0] * 16 + c[1]));
    o
}
pub fn nibbles(k: &[u8]) -> Bytes {
    k.iter().flat_map(|b| [b >> 4, b & 15]).collect()
}

/// The stored (hashed) nodes of the canonical trie, and the root.
#[derive(Default, Clone)]
pub struct Built {
    pub root: Hash,
    pub nodes: BTreeMap<Hash, Bytes>,
    /// stored nodes met on the way to each key, root first
    pub paths: BTreeMap<Bytes, Vec<Hash>>,
}

struct B<'a> {
    items: Vec<(Bytes, &'a Bytes)>,
    nodes: BTreeMap<Hash, Bytes>,
    /// (nibble prefix at which the node sits, hash)
    at: Vec<(Bytes, Hash)>,
}

impl<'a> B<'a> {
    fn enc(&mut self, lo: usize, hi: usize, d: usize) -> Bytes {
        match hi - lo {
            0 => vec![0x80],
            1 => rlp_list(&[rlp_str(&hex_prefix(&self.items[lo].0[d..], true)), rlp_str(self.items[lo].1)]),
            _ => {
                let (a, b) = (&self.items[lo].0, &self.items[hi - 1].0);
                let mut e = d;
                while e < a.len() && e < b.len() && a[e] == b[e] {
                    e += 1;
                }
                if e > d {
                    let prefix = self.items[lo].0[d..e].to_vec();
                    let c = self.child(lo, hi, e);
                    return rlp_list(&[rlp_str(&hex_prefix(&prefix, false)), c]);
                }
                let mut out = vec![];
                let mut i = lo;
                let mut val = vec![0x80];
                if self.items[i].0.len() == d {
                    val = rlp_str(self.items[i].1);
                    i += 1;
                }
                for n in 0..16u8 {
                    let mut j = i;
                    while j < hi && self.items[j].0[d] == n {
                        j += 1;
                    }
                    out.push(if j > i { self.child(i, j, d + 1) } else { vec![0x80] });
                    i = j;
                }
                out.push(val);
                rlp_list(&out)
            }
        }
    }
    fn child(&mut self, lo: usize, hi: usize, d: usize) -> Bytes {
        let e = self.enc(lo, hi, d);
        if e.len() < 32 {
            return e;
        }
        let h = keccak(&e);
        self.nodes.insert(h, e);
        self.at.push((self.items[lo].0[..d].to_vec(), h));
        rlp_str(&h)
    }
}

pub fn build(m: &PMap) -> Built {
    let mut b = B { items: m.iter().map(|(k, v)| (nibbles(k), v)).collect(), nodes: BTreeMap::new(), at: vec![] };
    let n = b.items.len();
    let e = b.enc(0, n, 0);
    let root = keccak(&e);
    b.nodes.insert(root, e);
    b.at.push((vec![], root));
    let mut out = Built { root, nodes: b.nodes.clone(), paths: BTreeMap::new() };
    for k in m.keys() {
        out.paths.insert(k.clone(), path_of(&b.at, k));
    }
    out
}
fn path_of(at: &[(Bytes, Hash)], k: &[u8]) -> Vec<Hash> {
    let n = nibbles(k);
    let mut p: Vec<_> = at.iter().filter(|(p, _)| n.starts_with(p)).collect();
    p.sort_by_key(|(p, _)| p.len());
    p.into_iter().map(|x| x.1).collect()
}
/// Stored nodes a lookup of `k` (present or not) has to read, root first.
pub fn path(m: &PMap, k: &[u8]) -> Vec<Hash> {
    let mut b = B { items: m.iter().map(|(k, v)| (nibbles(k), v)).collect(), nodes: BTreeMap::new(), at: vec![] };
    let n = b.items.len();
    let e = b.enc(0, n, 0);
    b.at.push((vec![], keccak(&e)));
    path_of(&b.at, k)
}
pub fn proot(m: &PMap) -> Hash {
    build(m).root
}
/// hashes a trie of contents `m` shares between two places
pub fn shares_nodes(m: &PMap) -> bool {
    let mut b = B { items: m.iter().map(|(k, v)| (nibbles(k), v)).collect(), nodes: BTreeMap::new(), at: vec![] };
    let n = b.items.len();
    b.enc(0, n, 0);
    let s: BTreeSet<_> = b.at.iter().map(|x| x.1).collect();
    s.len() != b.at.len()
}

pub fn bn(b: &[u8]) -> String {
    if b.len() <= 10 {
        format!("x{}", hx(b))
    } else {
        format!("x{}..#{}", hx(&b[..8]), b.len())
    }
}
pub fn on(b: &Option<Bytes>) -> String {
    b.as_ref().map_or("none".into(), |b| bn(b))
}

/// Keys that share prefixes, extend one another, or are unrelated.
pub fn gen_pkey(have: &[Bytes]) -> Bytes {
    let fresh = || -> Bytes {
        let n = match draw(24) {
            23 => *pick(&[33usize, 54, 56, 64, 108, 109, 128, 255, 300]),
            _ => *pick(&[1usize, 2, 3, 4, 8, 20, 32]),
        };
        let alpha = draw(3);
        (0..n)
            .map(|_| match alpha {
                0 => *pick(&[0u8, 1, 0x10, 0x11, 0xff]),
                1 => draw(256) as u8,
                _ => b'a' + draw(4) as u8,
            })
            .collect()
    };
    if have.is_empty() {
        return fresh();
    }
    match draw(9) {
        0 | 1 => fresh(),
        2 => {
            // extend an existing key
            let mut k = pick(have).clone();
            for _ in 0..1 + draw(3) {
                k.push(*pick(&[0u8, 1, 0x10, 0xff, 0x21]));
            }
            k
        }
        3 => {
            // a proper prefix of an existing key, possibly empty
            let k = pick(have).clone();
            let n = draw(k.len().max(1) as u64) as usize;
            k[..n].to_vec()
        }
        4 | 5 => {
            // differ in one nibble somewhere
            let mut k = pick(have).clone();
            if k.is_empty() {
                return fresh();
            }
            let i = draw(k.len() as u64) as usize;
            k[i] ^= if draw(2) == 0 { 1 + draw(15) as u8 } else { (1 + draw(15) as u8) << 4 };
            k
        }
        6 => {
            // same tail under another head
            let mut k = pick(have).clone();
            if k.is_empty() {
                return fresh();
            }
            k[0] = draw(256) as u8;
            k
        }
        7 => vec![],
        _ => {
            let mut k = pick(have).clone();
            if let Some(l) = k.last_mut() {
                *l = l.wrapping_add(1);
            }
            k
        }
    }
}
pub fn gen_pkeys(n: usize) -> Vec<Bytes> {
    let mut v: Vec<Bytes> = vec![];
    let mut twice = 0;
    while v.len() < n {
        let k = gen_pkey(&v);
        if !v.contains(&k) {
            v.push(k);
            continue;
        }
        // do not insist on many distinct keys, unless the run is to be big
        twice += 1;
        if twice > 4 * n || n < 80 && draw(3) == 0 {
            break;
        }
    }
    v
}
/// `unique`: the value names its key, so no two places of a trie hold equal nodes
pub fn gen_pval(key: &[u8], ctr: &mut u64, unique: bool) -> Bytes {
    *ctr += 1;
    let c = *ctr;
    let n = match draw(20) {
        // around the lengths where an encoding's header grows
        18 => 50 + draw(10) as usize,
        19 => *pick(&[200, 250, 255, 256, 257, 1000, 65530, 65536]),
        _ => *pick(&[1usize, 3, 20, 31, 32, 33, 40, 60, 120]),
    };
    if unique {
        let mut v = keccak(key)[..6].to_vec();
        v.extend(&keccak(&c.to_be_bytes())[..4]);
        while v.len() < n {
            v.push(c as u8);
        }
        return v;
    }
    let kind = draw(4);
    match kind {
        0 => {
            let mut v = c.to_be_bytes()[6..].to_vec();
            while v.len() < n {
                v.push(7);
            }
            v
        }
        1 => vec![*pick(&[0u8, 1, 0x7f, 0x80, 0xff])],
        2 => vec![0x11; n],
        _ => (0..n).map(|i| mix(c ^ (i as u64) << 32) as u8).collect(),
    }
}
