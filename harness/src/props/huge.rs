//! C29: trees with a part far too large to be stored, whose nodes are made up when they are read.
use super::core::classify;
use super::parts::{assemble, slots, Kid};
use crate::chk;
use crate::env::*;
use crate::fail;
use crate::gen::*;
use crate::hasher::RefHasher;
use crate::model::*;
use crate::runner::{guard, Ctx, Def};
use crate::store::*;
use anyhow::anyhow;
use jmt::proof::SparseMerkleProof;
use jmt::storage::*;
use jmt::{ExclusionProof, JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, OwnedValue, RootHash, SimpleHasher, Version};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::sync::Arc;

/// blake3, except that the hash of a leaf does not depend on its key if the key is one of a block's
/// (its last four bytes follow from the others). All subtrees of a block at one depth therefore have
/// the same hash, and the hashes of a tree of any size can be computed.
struct Blind(Vec<u8>);
type H = Blind;
impl SimpleHasher for Blind {
    fn new() -> Self {
        Blind(vec![])
    }
    fn update(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data);
    }
    fn finalize(self) -> H32 {
        Self::reference(&self.0)
    }
}
impl RefHasher for Blind {
    fn reference(m: impl AsRef<[u8]>) -> H32 {
        let mut m = m.as_ref().to_vec();
        if m.len() == 77 && m.starts_with(b"JMT::LeafNode") && m[41..45] == mark(&m[13..41]) {
            m[13..45].fill(0);
        }
        *blake3::hash(&m).as_bytes()
    }
}
fn mark(k: &[u8]) -> [u8; 4] {
    let h = blake3::hash(k);
    [0, 1, 2, 3].map(|i| h.as_bytes()[i])
}

/// `depth` full levels of nodes below `at`: 16^depth entries, all of version `version`.
#[derive(Clone)]
struct Block {
    at: Vec<u8>,
    depth: usize,
    version: u64,
    seed: u64,
    sample: Node,
    value: V,
    /// hash of a subtree that begins this many bits below `at`
    hashes: Vec<H32>,
}

impl Block {
    fn new(at: Vec<u8>, depth: usize, version: u64, seed: u64, sample: Node) -> Block {
        let value = V(seed.to_le_bytes()[..(seed % 9) as usize].to_vec());
        let mut b = Block { at, depth, version, seed, sample, value, hashes: vec![] };
        let mut h = leaf_hash::<H>(&b.key(0).0, &H::reference(&b.value.0));
        b.hashes.push(h);
        for _ in 0..4 * depth {
            h = inner_hash::<H>(&h, &h);
            b.hashes.push(h);
        }
        b.hashes.reverse();
        b
    }
    fn count(&self) -> u64 {
        1u64 << (4 * self.depth)
    }
    /// Entries in the part of the block that begins at bit `d`.
    fn region(&self, d: usize) -> u64 {
        1u64 << (4 * self.depth - (d.max(4 * self.at.len()) - 4 * self.at.len()).min(4 * self.depth))
    }
    /// The key of entry `i`: the path, then anything.
    fn key(&self, i: u64) -> K {
        let mut n = self.at.clone();
        for j in (0..self.depth).rev() {
            n.push((i >> (4 * j) & 15) as u8);
        }
        self.fill(&n)
    }
    fn fill(&self, n: &[u8]) -> K {
        let mut k = K([0; 32]);
        let mut x = self.seed ^ n.iter().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(u64::from(*b)));
        for i in 0..56 {
            k.set_nib(i, n.get(i).copied().unwrap_or_else(|| (splitmix(&mut x) >> 60) as u8));
        }
        let m = mark(&k.0[..28]);
        k.0[28..].copy_from_slice(&m);
        k
    }
    fn prefixes(&self, k: &K) -> bool {
        self.at.iter().enumerate().all(|(i, n)| k.nib(i) == *n)
    }
    /// The first entry whose key is not below `k`, up to `count()`.
    fn lower_bound(&self, k: &K) -> u64 {
        let nibs = |l: usize| (0..l).map(|i| k.nib(i)).collect::<Vec<u8>>();
        let p = nibs(self.at.len());
        if p != self.at {
            return if p < self.at { 0 } else { self.count() };
        }
        let i = (0..self.depth).fold(0u64, |a, j| a << 4 | u64::from(k.nib(self.at.len() + j)));
        i + u64::from(self.key(i) < *k)
    }
    fn has(&self, k: &K) -> bool {
        let i = self.lower_bound(k);
        i < self.count() && self.key(i) == *k
    }
    fn kids(&self, n: &[u8]) -> Vec<Option<Kid>> {
        let d = 4 * (n.len() + 1);
        let leaf = n.len() + 1 == self.at.len() + self.depth;
        vec![Some((self.hashes[d - 4 * self.at.len()], self.version, leaf, self.region(d) as usize)); 16]
    }
    fn node(&self, n: &[u8]) -> anyhow::Result<Option<Node>> {
        if !n.starts_with(&self.at) || n.len() > self.at.len() + self.depth {
            return Ok(None);
        }
        if n.len() == self.at.len() + self.depth {
            let vh = jmt::ValueHash(H::reference(&self.value.0));
            return Ok(Some(Node::Leaf(LeafNode::new(self.fill(n).kh(), vh))));
        }
        assemble(&self.sample, &self.kids(n)).map_err(|e| anyhow!(e))
    }
}

struct Huge {
    s: RefStore,
    b: Block,
    /// nodes of the block read before
    made: RefCell<HashMap<Vec<u8>, Node>>,
    /// paths of its nodes that were recorded stale (they are in `s` until pruned)
    replaced: RefCell<HashSet<Vec<u8>>>,
    /// reads allowed until the next `reset`
    reads: Cell<u64>,
    allowed: u64,
}

impl Huge {
    fn reset(&self) {
        self.reads.set(self.allowed);
    }
    fn tick(&self) -> anyhow::Result<()> {
        match self.reads.get() {
            0 => Err(anyhow!("more than {} reads in one operation", self.allowed)),
            n => {
                self.reads.set(n - 1);
                Ok(())
            }
        }
    }
}

impl TreeReader for Huge {
    fn get_node_option(&self, k: &NodeKey) -> anyhow::Result<Option<Node>> {
        self.tick()?;
        if k.version() == self.b.version {
            let p = nibs(k.nibble_path());
            if let Some(n) = self.made.borrow().get(&p) {
                return Ok(Some(n.clone()));
            }
            if !self.replaced.borrow().contains(&p) {
                if let Some(n) = self.b.node(&p)? {
                    self.made.borrow_mut().insert(p, n.clone());
                    return Ok(Some(n));
                }
            }
        }
        self.s.get_node_option(k)
    }
    fn get_value_option(&self, max: Version, k: KeyHash) -> anyhow::Result<Option<OwnedValue>> {
        self.tick()?;
        let key = K(k.0);
        let written = self.s.i.borrow().values.range((key, 0)..=(key, max)).next().is_some();
        if !written && max >= self.b.version && self.b.has(&key) {
            return Ok(Some(self.b.value.0.clone()));
        }
        self.s.get_value_option(max, k)
    }
    fn get_rightmost_leaf(&self) -> anyhow::Result<Option<(NodeKey, LeafNode)>> {
        Err(anyhow!("not in this store"))
    }
}
impl TreeWriter for Huge {
    fn write_node_batch(&self, b: &NodeBatch) -> anyhow::Result<()> {
        self.s.write_node_batch(b)
    }
}
impl Backing for Huge {
    fn commit(&self, b: TreeUpdateBatch) -> anyhow::Result<()> {
        self.reset();
        for s in &b.stale_node_index_batch {
            let p = nibs(s.node_key.nibble_path());
            if s.node_key.version() == self.b.version && !self.replaced.borrow().contains(&p) {
                if let Some(n) = self.b.node(&p)? {
                    self.made.borrow_mut().remove(&p);
                    self.s.i.borrow_mut().nodes.insert(s.node_key.clone(), n);
                    self.replaced.borrow_mut().insert(p);
                }
            }
        }
        self.s.commit(b)
    }
    fn purge(&self, v: Version) -> anyhow::Result<()> {
        self.s.purge(v)
    }
}

/// The entries below the bits of `at` that follow from the calls of `split`: the leaves `s`, and
/// those of the block except `holes`.
struct Part<'a> {
    s: &'a [(H32, H32)],
    holes: &'a [K],
    b: Option<(&'a Block, K)>,
}
impl<'a> Part<'a> {
    /// entries of the block
    fn live(&self, d: usize) -> u64 {
        self.b.map_or(0, |(b, _)| b.region(d) - self.holes.len() as u64)
    }
    fn total(&self, d: usize) -> u64 {
        self.s.len() as u64 + self.live(d)
    }
    fn split(&self, d: usize) -> (Part<'a>, Part<'a>) {
        let m = self.s.partition_point(|(k, _)| !bit(k, d));
        let h = self.holes.partition_point(|k| !k.bit(d));
        let (mut l, mut r) = (None, None);
        if let Some((b, p)) = self.b {
            let (top, bottom) = (4 * b.at.len(), 4 * (b.at.len() + b.depth));
            if d >= top && d < bottom {
                let mut q = p;
                q.0[d / 8] |= 1 << (7 - d % 8);
                (l, r) = (Some((b, p)), Some((b, q)));
            } else if (if d < top { p } else { b.key(b.lower_bound(&p)) }).bit(d) {
                r = self.b;
            } else {
                l = self.b;
            }
        }
        (Part { s: &self.s[..m], holes: &self.holes[..h], b: l }, Part { s: &self.s[m..], holes: &self.holes[h..], b: r })
    }
    /// The only entry.
    fn only(&self, d: usize) -> (H32, H32) {
        match self.b {
            Some((b, p)) if self.s.is_empty() => {
                let i = b.lower_bound(&p);
                let k = (i..i + b.region(d)).map(|i| b.key(i)).find(|k| self.holes.binary_search(k).is_err()).unwrap();
                (k.0, H::reference(&b.value.0))
            }
            _ => self.s[0],
        }
    }
    /// Part of the block that nothing has changed.
    fn whole(&self, d: usize) -> Option<&'a Block> {
        self.b.filter(|(b, _)| self.s.is_empty() && self.holes.is_empty() && d >= 4 * b.at.len()).map(|x| x.0)
    }
    fn hash(&self, d: usize) -> H32 {
        match self.whole(d) {
            Some(b) => b.hashes[(d - 4 * b.at.len()).min(4 * b.depth)],
            None => self.node(d).hash::<H>(),
        }
    }
    fn node(&self, d: usize) -> MNode {
        match self.total(d) {
            0 => MNode::Null,
            1 => {
                let (k, v) = self.only(d);
                MNode::Leaf(k, v)
            }
            _ => {
                let (l, r) = self.split(d);
                MNode::Internal(l.hash(d + 1), r.hash(d + 1))
            }
        }
    }
    fn proof(self, k: &K) -> MProof {
        let (mut p, mut d, mut siblings) = (self, 0, vec![]);
        while p.total(d) > 1 {
            let (l, r) = p.split(d);
            let (mine, other) = if k.bit(d) { (r, l) } else { (l, r) };
            d += 1;
            siblings.push(other.node(d));
            p = mine;
        }
        siblings.reverse();
        MProof { leaf: (p.total(d) == 1).then(|| p.only(d)), siblings }
    }
}

/// The whole map at one version.
struct Whole<'a> {
    b: &'a Block,
    m: &'a Map,
    leaves: Leaves,
    /// entries of the block that were written since
    holes: Vec<K>,
}
impl<'a> Whole<'a> {
    fn new(b: &'a Block, m: &'a Map, touched: &BTreeSet<K>) -> Whole<'a> {
        Whole { b, m, leaves: leaves::<H>(m), holes: touched.iter().copied().collect() }
    }
    fn part(&self) -> Part<'_> {
        let mut at = K([0; 32]);
        for (i, n) in self.b.at.iter().enumerate() {
            at.set_nib(i, *n);
        }
        Part { s: &self.leaves, holes: &self.holes, b: Some((self.b, at)) }
    }
    fn root(&self) -> H32 {
        self.part().hash(0)
    }
    fn total(&self) -> u64 {
        self.part().total(0)
    }
    fn hole(&self, k: &K) -> bool {
        self.holes.binary_search(k).is_ok()
    }
    fn get(&self, k: &K) -> Option<&V> {
        self.m.get(k).or_else(|| (self.b.has(k) && !self.hole(k)).then_some(&self.b.value))
    }
    /// number of entries below `k`
    fn rank(&self, k: &K) -> u64 {
        self.m.range(..*k).count() as u64 + self.b.lower_bound(k) - self.holes.partition_point(|h| h < k) as u64
    }
    /// first entry not below `k`
    fn ceil(&self, k: &K) -> Option<K> {
        let a = self.m.range(*k..).next().map(|x| *x.0);
        let mut i = self.b.lower_bound(k);
        while i < self.b.count() && self.hole(&self.b.key(i)) {
            i += 1;
        }
        let b = (i < self.b.count()).then(|| self.b.key(i));
        a.into_iter().chain(b).min()
    }
    fn next(&self, k: &K) -> Option<K> {
        k.succ().and_then(|k| self.ceil(&k))
    }
    fn prev(&self, k: &K) -> Option<K> {
        let a = self.m.range(..*k).next_back().map(|x| *x.0);
        let mut i = self.b.lower_bound(k);
        while i > 0 && self.hole(&self.b.key(i - 1)) {
            i -= 1;
        }
        let b = (i > 0).then(|| self.b.key(i - 1));
        a.into_iter().chain(b).max()
    }
    /// entry `i` in the order of keys
    fn select(&self, i: u64) -> Option<K> {
        let (mut lo, mut hi) = (0, self.b.count());
        while lo < hi {
            let mid = lo + (hi - lo) / 2;
            if self.rank(&self.b.key(mid)) <= i {
                lo = mid + 1;
            } else {
                hi = mid;
            }
        }
        let from = if lo == 0 { K([0; 32]) } else { self.b.key(lo - 1) };
        let mut k = self.ceil(&from)?;
        for _ in self.rank(&from)..i {
            k = self.next(&k)?;
        }
        Some(k)
    }
}

/// A place for the block among the keys: a neighbour of some key's path.
fn place(pool: &[K], muts: &[Mut]) -> Option<Vec<u8>> {
    for m in muts {
        let k = pick(pool, m.1)?;
        let mut l = [1, 2, 1 + m.2 as usize % 6, 1 + m.2 as usize % 40, 49][m.0 as usize % 5];
        while l <= 49 {
            for j in 0..16 {
                let mut p: Vec<u8> = (0..l).map(|i| k.nib(i)).collect();
                p[l - 1] = ((m.3 + j) % 16) as u8;
                if !pool.iter().any(|k| p.iter().enumerate().all(|(i, n)| k.nib(i) == *n)) {
                    return Some(p);
                }
            }
            l += 1;
        }
    }
    None
}

/// Moves some keys of the history into the block: onto its entries, or beside them at any depth.
fn inside(h: &mut Hist, b: &Block, muts: &[Mut]) {
    let mut x = b.seed ^ 0x1234;
    let share = splitmix(&mut x) % 4;
    let centre = splitmix(&mut x) % b.count();
    let mut to: HashMap<K, K> = HashMap::new();
    for k in &h.pool {
        if splitmix(&mut x) % 4 >= share {
            continue;
        }
        let r = splitmix(&mut x);
        let i = match r % 4 {
            0 => splitmix(&mut x) % b.count(),
            1 => (r >> 8) % 2 * (b.count() - 1),
            _ => (centre + (r >> 8) % 5) % b.count(),
        };
        let mut n = b.key(i);
        let bottom = b.at.len() + b.depth;
        match (r >> 16) % 5 {
            0 => n.set_nib(bottom + (r >> 24) as usize % (64 - bottom), (r >> 4) as u8 & 15),
            1 => n.set_nib(63, (r >> 4) as u8 & 15),
            2 => n.set_nib(bottom, (r >> 4) as u8 & 15),
            _ => {}
        }
        to.insert(*k, n);
    }
    for k in h.pool.iter_mut().chain(h.sets.iter_mut().flatten().map(|x| &mut x.0)) {
        if let Some(n) = to.get(k) {
            *k = *n;
        }
    }
    // delete (nearly) all entries of one node, or of its parent
    for m in muts {
        if m.0 % 8 == 0 {
            let len = h.sets.len();
            let set = &mut h.sets[m.1 as usize % len];
            let size = if m.2 % 4 == 0 && b.depth > 1 { 256 } else { 16 };
            let from = (splitmix(&mut x) % 3 + centre) % b.count() / size * size;
            let (a, z) = (m.3 as u64 % 3, size - (m.3 as u64 / 3) % 3);
            set.extend((from + a..from + z).map(|i| (b.key(i), None)));
        }
    }
}

fn c29(c: &Case, ctx: &mut Ctx) -> R {
    let sample = {
        let s = RefStore::default();
        let t = JellyfishMerkleTree::<RefStore, H>::new(&s);
        let set = [K([0; 32]), K([255; 32])].map(|k| (k.kh(), Some(vec![1])));
        let b = ok(t.put_value_set(set, 0), "update")?.1;
        b.node_batch.nodes().values().find(|n| matches!(n, Node::Internal(_))).cloned().ok_or("no internal node")?
    };
    let mut h = c.h.clone();
    h.start = h.start.max(1);
    let Some(at) = place(&h.pool, &c.muts) else {
        ctx.tag("no place for a block", 1);
        return Ok(());
    };
    let m0 = c.muts[0];
    let base = h.start - 1;
    let depth = (1 + (m0.2 ^ m0.3) as usize % 15).min(56 - at.len());
    let seed = u64::from(m0.1) << 16 | u64::from(m0.3);
    let block = &Block::new(at, depth, base, seed, sample);
    if guard(|| block.node(&block.at))?.ok().flatten().is_none() {
        ctx.tag("internal nodes of unknown layout", 1);
        return Ok(());
    }
    inside(&mut h, block, &c.muts);
    let n = block.count();
    ctx.tag("blocks of 2^32 entries or more", u64::from(block.depth >= 8));
    // the nodes between the root and the block
    let store = RefStore::default();
    let mut below: Kid = (block.hashes[0], base, false, n as usize);
    for i in (0..block.at.len()).rev() {
        let mut kids: Vec<Option<Kid>> = vec![None; 16];
        kids[block.at[i] as usize] = Some(below);
        let node = assemble(&block.sample, &kids)?.ok_or("no node")?;
        below.0 = slots::<H>(&kids);
        let p: NibblePath = block.at[..i].iter().map(|n| (*n).into()).collect();
        store.i.borrow_mut().nodes.insert(NodeKey::new(base, p), node);
    }
    let allowed = 2000 * (50 + h.sets.iter().map(|s| s.len() as u64).sum::<u64>());
    let store = Arc::new(Huge {
        s: store,
        b: block.clone(),
        made: Default::default(),
        replaced: Default::default(),
        reads: Cell::new(allowed),
        allowed,
    });
    let none = Map::new();
    let r = ok(JellyfishMerkleTree::<_, H>::new(&*store).get_root_hash(base), "root of the base")?;
    let w = Whole::new(block, &none, &BTreeSet::new());
    chk!(r.0 == w.root() && r.0 == below.0, "root hash of the base is {r:?}");

    store.reset();
    let b = build::<H, Huge>(&h, &store)?;
    let last = b.last_version();
    let mut touched = BTreeSet::new();
    let mut wholes = vec![];
    for (s, m) in h.sets.iter().zip(&b.maps) {
        touched.extend(s.iter().map(|x| x.0).filter(|k| block.has(k)));
        wholes.push(Whole::new(block, m, &touched));
    }
    ctx.tag("entries of the block written or deleted", touched.len() as u64);
    let mut at_probes = probes(&h.pool, &c.muts, 10);
    for m in &c.muts {
        let mut k = block.key(splitmix(&mut u64::from(m.2)) % n);
        match m.0 % 4 {
            0 => k.set_nib(63, (m.3 % 16) as u8),
            1 => k.set_nib(block.at.len() + m.1 as usize % block.depth, (m.3 % 16) as u8),
            2 => k = k.succ().unwrap_or(k),
            _ => {}
        }
        at_probes.push(k);
    }
    at_probes.extend([block.key(0), block.key(n - 1)]);
    let probes = at_probes;
    for (i, w) in wholes.iter().enumerate() {
        let v = h.start + i as u64;
        store.reset();
        let tree = JellyfishMerkleTree::<_, H>::new(&*store);
        let root = RootHash(w.root());
        chk!(b.roots[i] == root.0, "version {v}: root hash {}, expected {root:?}", hex::encode(b.roots[i]));
        let r = ok(tree.get_root_hash(v), "get_root_hash")?;
        chk!(r == root, "version {v}: root hash read back is {r:?}");
        let lc = ok(tree.get_leaf_count(v), "get_leaf_count")? as u64;
        let total = w.total();
        chk!(lc == total, "version {v}: leaf count {lc}, expected {total}");
        // an update of the version before, again, with its proof
        if v < last {
            let set = &h.sets[i + 1];
            let (r, p, _) = ok(tree.put_value_set_with_proof(jset(set), v + 1), "update with a proof")?;
            chk!(r.0 == wholes[i + 1].root(), "version {}: another root hash with a proof", v + 1);
            ok(guard(|| p.verify_update(root, r, jset(set)))?, format!("proof of the update at {}", v + 1))?;
        }
        for k in &probes {
            store.reset();
            let val = w.get(k);
            let (x, p): (_, SparseMerkleProof<H>) = ok(tree.get_with_proof(k.kh(), v), "get_with_proof")?;
            chk!(x.as_ref() == val.map(|v| &v.0), "version {v}: {k:?} reads as {x:?}, expected {val:?}");
            let want = w.part().proof(k);
            let got = guard(|| from_jmt(&p))?;
            chk!(got == want, "version {v}: proof of {k:?} is {got:?}, expected {want:?}");
            ok(guard(|| p.verify(root, k.kh(), val.map(|v| &v.0)))?, format!("version {v}: proof of {k:?}"))?;
            let x = ok(tree.get(k.kh(), v), "get")?;
            chk!(x.as_ref() == val.map(|v| &v.0), "version {v}: get({k:?}) = {x:?}, expected {val:?}");
            if val.is_some() {
                let r = ok(tree.get_range_proof(k.kh(), v), "get_range_proof")?;
                let len = want.siblings.len();
                let left = want.siblings.iter().enumerate();
                let left = left.filter(|(i, _)| k.bit(len - 1 - i)).map(|(_, s)| s.hash::<H>()).collect();
                let leaf: jmt::proof::SparseMerkleLeafNode = p.leaf().ok_or("proof of a present key without a leaf")?;
                ok(guard(|| r.verify(root, leaf, left))?, format!("version {v}: range proof of {k:?}"))?;
            }
            if total == 0 {
                continue;
            }
            let x = ok(tree.get_with_exclusion_proof(k.kh(), v), "get_with_exclusion_proof")?;
            let (l, r) = match x {
                Ok((x, p)) => {
                    chk!(Some(&x) == val.map(|v| &v.0), "version {v}: {k:?} reads as {x:?}, expected {val:?}");
                    chk!(from_jmt(&p) == want, "version {v}: proof of {k:?} is {p:?}");
                    continue;
                }
                Err(ExclusionProof::Leftmost { leftmost_right_proof }) => (None, Some(leftmost_right_proof)),
                Err(ExclusionProof::Middle { leftmost_right_proof, rightmost_left_proof }) => {
                    (Some(rightmost_left_proof), Some(leftmost_right_proof))
                }
                Err(ExclusionProof::Rightmost { rightmost_left_proof }) => (Some(rightmost_left_proof), None),
            };
            chk!(val.is_none(), "version {v}: exclusion proof for the present key {k:?}");
            for (p, w, side) in [
                (l, w.prev(k).map(|n| w.part().proof(&n)), "left"),
                (r, w.next(k).map(|n| w.part().proof(&n)), "right"),
            ] {
                let p = p.map(|p| from_jmt(&p));
                chk!(p == w, "version {v}: {side} neighbour of {k:?} is {p:?}, expected {w:?}");
            }
        }
        if i + 2 < b.maps.len() && i % 3 != 0 {
            continue;
        }
        // iteration: entries before the block, in it, and after it
        let run = |it: &mut JellyfishMerkleIterator<Huge>, mut at: Option<K>, what: String| -> R {
            for _ in 0..20 {
                let Some(k) = at else {
                    chk!(it.next().is_none(), "{what}: entries after the end");
                    return Ok(());
                };
                let want = w.get(&k).unwrap();
                match it.next() {
                    Some(Ok((x, y))) if x == k.kh() && y == want.0 => {}
                    Some(Ok((x, y))) => fail!("{what}: {:?}: {:?} instead of {k:?}: {want:?}", K(x.0), V(y)),
                    Some(Err(e)) => fail!("{what}: {k:?} is the error {e:?}"),
                    None => fail!("{what}: ends before {k:?}"),
                }
                at = w.next(&k);
            }
            Ok(())
        };
        let pos = w.rank(&block.key(0));
        let live = w.part().live(0);
        let mut idx = vec![0, pos, pos + live, total.saturating_sub(1), total, total + 1, pos + live / 2];
        idx.extend([1u64 << 8, 1 << 16, 1 << 32].map(|x| pos + x));
        for k in touched.iter().step_by(7) {
            idx.push(w.rank(k));
        }
        for m in &c.muts {
            let x = u64::from(m.1) << 48 | u64::from(m.2) << 32 | u64::from(m.3) << 16 | u64::from(m.1 ^ m.3);
            idx.push((x as u128 * total as u128 >> 64) as u64);
        }
        for i in idx {
            store.reset();
            let what = format!("iterating version {v} of {total} entries from index {i}");
            let mut it = ok(JellyfishMerkleIterator::new_by_index(store.clone(), v, i as usize), &what)?;
            run(&mut it, if i < total { w.select(i) } else { None }, what)?;
        }
        for k in &probes {
            store.reset();
            let what = format!("iterating version {v} of {total} entries from {k:?}");
            let mut it = ok(JellyfishMerkleIterator::new(store.clone(), v, k.kh()), &what)?;
            run(&mut it, w.ceil(k), what)?;
        }
    }
    // nothing is written or recorded as stale except along the paths of the keys written
    let beside = |p: &NibblePath, v: u64| {
        let p = nibs(p);
        let p = &p[..p.len().saturating_sub(1)];
        let Some(s) = v.checked_sub(h.start).and_then(|i| h.sets.get(i as usize)) else { return true };
        !s.is_empty() && !s.iter().any(|(k, _)| p.iter().enumerate().all(|(i, n)| k.nib(i) == *n))
    };
    for b in &b.batches {
        for k in b.node_batch.nodes().keys() {
            chk!(!beside(k.nibble_path(), k.version()), "{k:?} is not near any key written");
        }
        for s in &b.stale_node_index_batch {
            let p = s.node_key.nibble_path();
            chk!(!beside(p, s.stale_since_version), "{s:?} is not near any key written");
        }
    }
    ok(store.purge(last), "purge")?;
    let (w, v) = (wholes.last().unwrap(), last);
    let tree = JellyfishMerkleTree::<_, H>::new(&*store);
    for k in &probes {
        store.reset();
        let (x, p) = ok(tree.get_with_proof(k.kh(), v), "get_with_proof after a purge")?;
        chk!(x.as_ref() == w.get(k).map(|v| &v.0), "after a purge {k:?} reads as {x:?}");
        let p = from_jmt(&p);
        chk!(p == w.part().proof(k), "after a purge: proof of {k:?} is {p:?}");
    }
    // what is left over besides the latest version's nodes: at most one node for each path
    let mut left = HashSet::new();
    for k in store.s.node_keys() {
        let p = nibs(k.nibble_path());
        chk!(left.insert(p.clone()), "two nodes with the path {p:x?} are left after a purge");
        let gone = k.version() != block.version || store.replaced.borrow().contains(&p);
        chk!(gone || block.at.starts_with(&p), "{k:?} is left after a purge");
    }
    Ok(())
}

pub static C29: Def<Case> = Def {
    id: "C29",
    rule: "histories as for C01 on top of a version that holds 16^1 to 16^15 entries below one path next to some key; non-trivial: a place for them was found and the history deletes or overwrites and has two entries with the same first nibble",
    assumptions: &[
        "the nodes of the large part are made up on reading, through the JSON form of a node",
        "the hash function ignores the keys of the entries of the large part, so that its hashes can be computed: entries of equal value there have equal hashes",
    ],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            muts: 8,
            max_versions: if t { 8 } else { 5 },
            bulk: 3,
            bulk_max: if t { 200 } else { 60 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        ctx.nontrivial = classify(&c.h, ctx);
        c29(c, ctx)
    },
    quick: 3_000,
    thorough: 60_000,
};
