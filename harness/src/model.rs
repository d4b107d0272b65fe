//! Reference model. Shares no code with jmt except the `SimpleHasher` trait of the hash function:
//! constants, bit order, hashing rules, proofs and verification are written down here again.
use borsh::{BorshDeserialize, BorshSerialize};
use crate::hasher::RefHasher;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;

pub type H32 = [u8; 32];

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct K(pub H32);
impl K {
    pub fn kh(&self) -> jmt::KeyHash {
        jmt::KeyHash(self.0)
    }
    pub fn bit(&self, i: usize) -> bool {
        bit(&self.0, i)
    }
    pub fn nib(&self, i: usize) -> u8 {
        if i % 2 == 0 {
            self.0[i / 2] >> 4
        } else {
            self.0[i / 2] & 15
        }
    }
    pub fn set_nib(&mut self, i: usize, v: u8) {
        let b = &mut self.0[i / 2];
        *b = if i % 2 == 0 {
            (*b & 0x0f) | (v << 4)
        } else {
            (*b & 0xf0) | (v & 15)
        };
    }
    pub fn common_bits(&self, o: &K) -> usize {
        (0..256).find(|i| self.bit(*i) != o.bit(*i)).unwrap_or(256)
    }
    /// +1 / -1 as a 256-bit big-endian number, None on wrap-around
    pub fn succ(&self) -> Option<K> {
        let mut b = self.0;
        for i in (0..32).rev() {
            if b[i] == 0xff {
                b[i] = 0;
            } else {
                b[i] += 1;
                return Some(K(b));
            }
        }
        None
    }
    pub fn pred(&self) -> Option<K> {
        let mut b = self.0;
        for i in (0..32).rev() {
            if b[i] == 0 {
                b[i] = 0xff;
            } else {
                b[i] -= 1;
                return Some(K(b));
            }
        }
        None
    }
}
impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", hex::encode(self.0))
    }
}
impl Serialize for K {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex::encode(self.0))
    }
}
impl<'de> Deserialize<'de> for K {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<K, D::Error> {
        let s = <String as Deserialize>::deserialize(d)?;
        let v = hex::decode(&s).map_err(serde::de::Error::custom)?;
        let a: H32 = v
            .try_into()
            .map_err(|_| serde::de::Error::custom("key length"))?;
        Ok(K(a))
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct V(pub Vec<u8>);
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "x{}", hex::encode(&self.0))
    }
}
impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex::encode(&self.0))
    }
}
impl<'de> Deserialize<'de> for V {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<V, D::Error> {
        let s = <String as Deserialize>::deserialize(d)?;
        Ok(V(hex::decode(&s).map_err(serde::de::Error::custom)?))
    }
}

pub type Set = Vec<(K, Option<V>)>;
pub type Map = BTreeMap<K, V>;

pub fn apply(m: &mut Map, s: &[(K, Option<V>)]) {
    for (k, v) in s {
        match v {
            Some(v) => {
                m.insert(*k, v.clone());
            }
            None => {
                m.remove(k);
            }
        }
    }
}

pub fn bit(k: &H32, i: usize) -> bool {
    (k[i / 8] >> (7 - i % 8)) & 1 == 1
}

pub const PLACEHOLDER: H32 = *b"SPARSE_MERKLE_PLACEHOLDER_HASH__";

pub fn leaf_hash<H: RefHasher>(k: &H32, vh: &H32) -> H32 {
    let mut m = Vec::with_capacity(77);
    m.extend_from_slice(b"JMT::LeafNode");
    m.extend_from_slice(k);
    m.extend_from_slice(vh);
    H::reference(&m)
}

pub fn inner_hash<H: RefHasher>(l: &H32, r: &H32) -> H32 {
    let mut m = Vec::with_capacity(80);
    m.extend_from_slice(b"JMT::IntrnalNode");
    m.extend_from_slice(l);
    m.extend_from_slice(r);
    H::reference(&m)
}

/// (key hash, value hash) in increasing key order
pub type Leaves = Vec<(H32, H32)>;

pub fn leaves<H: RefHasher>(m: &Map) -> Leaves {
    m.iter().map(|(k, v)| (k.0, H::reference(&v.0))).collect()
}

fn split(s: &[(H32, H32)], depth: usize) -> usize {
    s.partition_point(|(k, _)| !bit(k, depth))
}

/// Hash of the subtree at bit depth `depth` that holds exactly the leaves `s`.
pub fn subtree<H: RefHasher>(s: &[(H32, H32)], depth: usize) -> H32 {
    match s.len() {
        0 => PLACEHOLDER,
        1 => leaf_hash::<H>(&s[0].0, &s[0].1),
        _ => {
            let m = split(s, depth);
            inner_hash::<H>(
                &subtree::<H>(&s[..m], depth + 1),
                &subtree::<H>(&s[m..], depth + 1),
            )
        }
    }
}

/// Subtree hashes of one fixed slice of leaves, each computed once.
pub struct Memo {
    m: std::cell::RefCell<std::collections::HashMap<(usize, usize, usize), H32>>,
}
impl Memo {
    pub fn new() -> Memo {
        Memo {
            m: Default::default(),
        }
    }
    /// `s` must be a subslice of the one slice this memo is used for.
    pub fn subtree<H: RefHasher>(&self, s: &[(H32, H32)], depth: usize) -> H32 {
        match s.len() {
            0 => PLACEHOLDER,
            1 => leaf_hash::<H>(&s[0].0, &s[0].1),
            n => {
                let k = (s.as_ptr() as usize, n, depth);
                if let Some(h) = self.m.borrow().get(&k) {
                    return *h;
                }
                let m = split(s, depth);
                let h = inner_hash::<H>(
                    &self.subtree::<H>(&s[..m], depth + 1),
                    &self.subtree::<H>(&s[m..], depth + 1),
                );
                self.m.borrow_mut().insert(k, h);
                h
            }
        }
    }
}

pub fn root<H: RefHasher>(m: &Map) -> H32 {
    subtree::<H>(&leaves::<H>(m), 0)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, BorshSerialize, BorshDeserialize)]
pub enum MNode {
    Null,
    Internal(H32, H32),
    Leaf(H32, H32),
}
impl MNode {
    pub fn hash<H: RefHasher>(&self) -> H32 {
        match self {
            MNode::Null => PLACEHOLDER,
            MNode::Internal(l, r) => inner_hash::<H>(l, r),
            MNode::Leaf(k, v) => leaf_hash::<H>(k, v),
        }
    }
}

/// Mirror of the binary encoding of a membership proof.
#[derive(Clone, Debug, PartialEq, Eq, BorshSerialize, BorshDeserialize)]
pub struct MProof {
    pub leaf: Option<(H32, H32)>,
    pub siblings: Vec<MNode>,
}
#[derive(Clone, Debug, PartialEq, Eq, BorshSerialize, BorshDeserialize)]
pub struct MRange {
    pub right_siblings: Vec<MNode>,
}

fn node_of<H: RefHasher>(s: &[(H32, H32)], depth: usize) -> MNode {
    match s.len() {
        0 => MNode::Null,
        1 => MNode::Leaf(s[0].0, s[0].1),
        _ => {
            let m = split(s, depth);
            MNode::Internal(
                subtree::<H>(&s[..m], depth + 1),
                subtree::<H>(&s[m..], depth + 1),
            )
        }
    }
}

/// The canonical proof for `key`: walk down while more than one leaf is below.
pub fn proof<H: RefHasher>(all: &[(H32, H32)], key: &H32) -> MProof {
    let mut s = all;
    let mut depth = 0;
    let mut siblings = vec![];
    while s.len() > 1 {
        let m = split(s, depth);
        let (mine, other) = if bit(key, depth) {
            (&s[m..], &s[..m])
        } else {
            (&s[..m], &s[m..])
        };
        siblings.push(node_of::<H>(other, depth + 1));
        s = mine;
        depth += 1;
    }
    siblings.reverse();
    MProof {
        leaf: s.first().copied(),
        siblings,
    }
}

/// Root implied by a leaf/placeholder hash at the position of `key` under `siblings` (bottom up).
pub fn fold<H: RefHasher>(cur: H32, key: &H32, siblings: &[MNode]) -> H32 {
    let n = siblings.len();
    let mut cur = cur;
    for (i, s) in siblings.iter().enumerate() {
        let d = n - 1 - i;
        let sh = s.hash::<H>();
        cur = if bit(key, d) {
            inner_hash::<H>(&sh, &cur)
        } else {
            inner_hash::<H>(&cur, &sh)
        };
    }
    cur
}

/// Independent verification: does `p` prove `claim` (Some(value hash) / None = absent)?
pub fn verify<H: RefHasher>(
    root: &H32,
    key: &H32,
    claim: Option<&H32>,
    p: &MProof,
) -> Result<(), String> {
    if p.siblings.len() > 256 {
        return Err("too many siblings".into());
    }
    match (claim, &p.leaf) {
        (Some(vh), Some((k, v))) => {
            if k != key || v != vh {
                return Err("leaf does not match the claim".into());
            }
        }
        (Some(_), None) => return Err("no leaf for an existence claim".into()),
        (None, Some((k, _))) => {
            if k == key {
                return Err("leaf of the key itself in a non-existence proof".into());
            }
            if K(*k).common_bits(&K(*key)) < p.siblings.len() {
                return Err("leaf outside the key's subtree".into());
            }
        }
        (None, None) => {}
    }
    let cur = p
        .leaf
        .map_or(PLACEHOLDER, |(k, v)| leaf_hash::<H>(&k, &v));
    if fold::<H>(cur, key, &p.siblings) == *root {
        Ok(())
    } else {
        Err("root mismatch".into())
    }
}

pub fn lower(m: &Map, k: &K) -> Option<K> {
    m.range(..*k).next_back().map(|x| *x.0)
}
pub fn upper(m: &Map, k: &K) -> Option<K> {
    use std::ops::Bound::*;
    m.range((Excluded(*k), Unbounded)).next().map(|x| *x.0)
}

pub fn to_jmt<H: RefHasher>(p: &MProof) -> jmt::proof::SparseMerkleProof<H> {
    borsh::from_slice(&borsh::to_vec(p).unwrap()).expect("mirror proof must decode")
}
pub fn to_jmt_range<H: RefHasher>(p: &MRange) -> jmt::proof::SparseMerkleRangeProof<H> {
    borsh::from_slice(&borsh::to_vec(p).unwrap()).expect("mirror range proof must decode")
}
pub fn from_jmt<H: RefHasher>(p: &jmt::proof::SparseMerkleProof<H>) -> MProof {
    borsh::from_slice(&borsh::to_vec(p).unwrap()).expect("proof must decode into the mirror")
}
pub fn to_jmt_update<H: RefHasher>(p: &[MProof]) -> jmt::proof::UpdateMerkleProof<H> {
    jmt::proof::UpdateMerkleProof::new(p.iter().map(to_jmt::<H>).collect())
}
pub fn from_jmt_update<H: RefHasher>(p: &jmt::proof::UpdateMerkleProof<H>) -> Vec<MProof> {
    borsh::from_slice(&borsh::to_vec(p).unwrap()).expect("update proof must decode")
}
