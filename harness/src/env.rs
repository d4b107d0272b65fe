//! Running a generated history against the real code.
use crate::gen::*;
use crate::model::*;
use crate::store::*;
use jmt::storage::*;
use crate::hasher::RefHasher;
use jmt::JellyfishMerkleTree;

pub type R = Result<(), String>;

#[macro_export]
macro_rules! chk {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}

/// Unwrap a `Result` of the code under test that has to be `Ok` here.
pub fn ok<T, E: std::fmt::Debug>(r: Result<T, E>, what: impl std::fmt::Display) -> Result<T, String> {
    r.map_err(|e| format!("{what}: unexpected error: {e:?}"))
}

pub struct Built {
    pub start: u64,
    /// map after version start+i
    pub maps: Vec<Map>,
    /// root hash returned for version start+i
    pub roots: Vec<H32>,
    pub batches: Vec<TreeUpdateBatch>,
    /// entry point that produced version start+i
    pub modes: Vec<u8>,
}
impl Built {
    pub fn versions(&self) -> impl Iterator<Item = (u64, &Map)> {
        self.maps
            .iter()
            .enumerate()
            .map(|(i, m)| (self.start + i as u64, m))
    }
    pub fn last_version(&self) -> u64 {
        self.start + self.maps.len() as u64 - 1
    }
}

pub fn jset(s: &Set) -> Vec<(jmt::KeyHash, Option<Vec<u8>>)> {
    s.iter()
        .map(|(k, v)| (k.kh(), v.as_ref().map(|v| v.0.clone())))
        .collect()
}

pub fn maps_of(h: &Hist) -> Vec<Map> {
    let mut cur = Map::new();
    h.sets
        .iter()
        .map(|s| {
            apply(&mut cur, s);
            cur.clone()
        })
        .collect()
}

/// Groups of (range of set indices, mode) for the plan of `h`. Mode 3 (batch insertion) only where
/// that interface accepts the sets.
pub fn groups(h: &Hist) -> Vec<(std::ops::Range<usize>, u8)> {
    let n = h.sets.len();
    let mut out = vec![];
    let mut i = 0;
    let mut p = 0;
    while i < n {
        let (len, mode) = if h.plan.is_empty() {
            (1, 2)
        } else {
            h.plan[p % h.plan.len()]
        };
        p += 1;
        let e = (i + len.max(1) as usize).min(n);
        let eligible = h.sets[i..e]
            .iter()
            .all(|s| !s.is_empty() && s.iter().all(|(_, v)| v.is_some()))
            && (i > 0 || h.start == 0);
        let mode = if mode == 3 && !eligible { 0 } else { mode };
        out.push((i..e, mode));
        i = e;
    }
    out
}

/// Call one entry point for sets `r` of `h`; returns roots and batches (not committed), the
/// version-by-version mode (2) commits itself except for the last.
pub fn call<H: RefHasher, S: Backing>(
    store: &S,
    first: u64,
    sets: &[Set],
    mode: u8,
) -> anyhow::Result<(Vec<H32>, TreeUpdateBatch)> {
    call_on(&JellyfishMerkleTree::<S, H>::new(store), first, sets, mode)
}

/// The same through a given tree object.
pub fn call_on<H: RefHasher, S: Backing>(
    tree: &JellyfishMerkleTree<'_, S, H>,
    first: u64,
    sets: &[Set],
    mode: u8,
) -> anyhow::Result<(Vec<H32>, TreeUpdateBatch)> {
    match mode {
        1 => {
            let (rp, b) = tree.put_value_sets_with_proof(sets.iter().map(jset), first)?;
            Ok((rp.into_iter().map(|(r, _)| r.0).collect(), b))
        }
        3 => {
            let sets = sets
                .iter()
                .map(|s| {
                    s.iter()
                        .map(|(k, v)| (k.kh(), v.as_ref().unwrap().0.clone()))
                        .collect()
                })
                .collect();
            let (r, b) = tree.batch_put_value_sets(sets, None, first)?;
            Ok((r.into_iter().map(|r| r.0).collect(), b))
        }
        4 if sets.len() == 1 => {
            let (r, _, b) = tree.put_value_set_with_proof(jset(&sets[0]), first)?;
            Ok((vec![r.0], b))
        }
        2 if sets.len() == 1 => {
            let (r, b) = tree.put_value_set(jset(&sets[0]), first)?;
            Ok((vec![r.0], b))
        }
        _ => {
            let (r, b) = tree.put_value_sets(sets.iter().map(jset), first)?;
            Ok((r.into_iter().map(|r| r.0).collect(), b))
        }
    }
}

/// Build the whole history on `store`, committing after every call. `after` runs after each commit
/// with the number of versions committed so far.
pub fn build_with<H: RefHasher, S: Backing>(
    h: &Hist,
    store: &S,
    mut after: impl FnMut(&Built, usize) -> R,
) -> Result<Built, String> {
    let maps = maps_of(h);
    let mut b = Built {
        start: h.start,
        maps: vec![],
        roots: vec![],
        batches: vec![],
        modes: vec![],
    };
    for (r, mode) in groups(h) {
        let subs: Vec<std::ops::Range<usize>> = if mode == 2 || mode == 4 {
            r.map(|i| i..i + 1).collect()
        } else {
            vec![r]
        };
        for r in subs {
            let first = h.start + r.start as u64;
            let (roots, batch) = ok(
                call::<H, S>(store, first, &h.sets[r.clone()], mode),
                format!("update at version {first} (entry point {mode})"),
            )?;
            if roots.len() != r.len() {
                fail!(
                    "update of {} versions at {first} returned {} root hashes",
                    r.len(),
                    roots.len()
                );
            }
            b.batches.push(batch.clone());
            ok(
                store.commit(batch),
                format!("committing version {first} (entry point {mode})"),
            )?;
            for i in r.clone() {
                b.maps.push(maps[i].clone());
                b.modes.push(mode);
            }
            b.roots.extend(roots);
            after(&b, r.end)?;
        }
    }
    Ok(b)
}

pub fn build<H: RefHasher, S: Backing>(h: &Hist, store: &S) -> Result<Built, String> {
    build_with::<H, S>(h, store, |_, _| Ok(()))
}

pub fn empty_path() -> NibblePath {
    std::iter::empty().collect()
}
pub fn root_key(v: u64) -> NodeKey {
    NodeKey::new(v, empty_path())
}
pub fn nibs(p: &NibblePath) -> Vec<u8> {
    p.nibbles().map(u8::from).collect()
}

/// A node of a version found by walking the physical tree.
#[derive(Clone, Debug)]
pub struct Phys {
    pub key: NodeKey,
    pub path: Vec<u8>,
    pub leaf: bool,
    pub null: bool,
}

/// Walk version `v` and check every structural fact against the model map. Returns all nodes.
pub fn walk<H: RefHasher, S: TreeReader>(
    store: &S,
    v: u64,
    map: &Map,
) -> Result<Vec<Phys>, String> {
    let all = leaves::<H>(map);
    let mut out = vec![];
    let rk = root_key(v);
    let root = ok(store.get_node_option(&rk), "reading the root node")?;
    let Some(root) = root else {
        fail!("version {v}: no root node in storage");
    };
    walk_rec::<H, S>(store, v, rk, vec![], root, &all, &Memo::new(), &mut out)?;
    Ok(out)
}

fn walk_rec<H: RefHasher, S: TreeReader>(
    store: &S,
    v: u64,
    key: NodeKey,
    path: Vec<u8>,
    node: Node,
    below: &[(H32, H32)],
    memo: &Memo,
    out: &mut Vec<Phys>,
) -> R {
    let at = || format!("version {v}, node {:?}", key);
    chk!(
        nibs(key.nibble_path()) == path,
        "{}: node key has a different path than its position {:?}",
        at(),
        path
    );
    chk!(key.version() <= v, "{}: node of a later version", at());
    match node {
        Node::Null => {
            chk!(
                path.is_empty() && below.is_empty(),
                "{}: empty node but {} entries belong here",
                at(),
                below.len()
            );
            out.push(Phys {
                key,
                path,
                leaf: false,
                null: true,
            });
        }
        Node::Leaf(l) => {
            chk!(
                below.len() == 1,
                "{}: leaf where {} entries belong",
                at(),
                below.len()
            );
            let want = LeafNode::new(jmt::KeyHash(below[0].0), jmt::ValueHash(below[0].1));
            chk!(l == want, "{}: leaf {:?}, expected {:?}", at(), l, want);
            out.push(Phys {
                key,
                path,
                leaf: true,
                null: false,
            });
        }
        Node::Internal(n) => {
            chk!(
                below.len() >= 2,
                "{}: internal node where {} entries belong",
                at(),
                below.len()
            );
            chk!(
                n.leaf_count() == below.len(),
                "{}: leaf count {} but {} entries below",
                at(),
                n.leaf_count(),
                below.len()
            );
            let d = path.len();
            let want_hash = memo.subtree::<H>(below, 4 * d);
            chk!(
                n.hash::<H>() == want_hash,
                "{}: node hash differs from the hash of its entries",
                at()
            );
            let kids: Vec<(u8, jmt_child)> = n
                .children_sorted()
                .map(|(nib, c)| {
                    (
                        u8::from(nib),
                        jmt_child {
                            hash: c.hash,
                            version: c.version,
                            leaf: c.is_leaf(),
                            count: c.leaf_count(),
                            path: key
                                .nibble_path()
                                .nibbles()
                                .chain(std::iter::once(nib))
                                .collect(),
                        },
                    )
                })
                .collect();
            chk!(
                !(kids.len() == 1 && kids[0].1.leaf),
                "{}: its only child is a leaf",
                at()
            );
            let mut covered = 0;
            for (nib, c) in kids {
                let s = below.partition_point(|(k, _)| K(*k).nib(d) < nib);
                let e = below.partition_point(|(k, _)| K(*k).nib(d) <= nib);
                let sub = &below[s..e];
                covered += sub.len();
                chk!(!sub.is_empty(), "{}: child {:x} has no entries", at(), nib);
                chk!(
                    c.leaf == (sub.len() == 1),
                    "{}: child {:x} marked leaf={} with {} entries",
                    at(),
                    nib,
                    c.leaf,
                    sub.len()
                );
                chk!(
                    c.count == sub.len(),
                    "{}: child {:x} counts {} leaves, has {}",
                    at(),
                    nib,
                    c.count,
                    sub.len()
                );
                chk!(
                    c.hash == memo.subtree::<H>(sub, 4 * (d + 1)),
                    "{}: child {:x} recorded with a wrong hash",
                    at(),
                    nib
                );
                let ck = NodeKey::new(c.version, c.path);
                let Some(cn) = ok(store.get_node_option(&ck), "reading a child")? else {
                    fail!("{}: child {:x} ({:?}) is not in storage", at(), nib, ck);
                };
                let is_leaf = matches!(cn, Node::Leaf(_));
                chk!(
                    is_leaf == c.leaf,
                    "{}: child {:x} is of another kind than recorded",
                    at(),
                    nib
                );
                let mut p = path.clone();
                p.push(nib);
                walk_rec::<H, S>(store, v, ck, p, cn, sub, memo, out)?;
            }
            chk!(
                covered == below.len(),
                "{}: {} entries have no child",
                at(),
                below.len() - covered
            );
            out.push(Phys {
                key,
                path,
                leaf: false,
                null: false,
            });
        }
    }
    Ok(())
}

#[allow(non_camel_case_types)]
struct jmt_child {
    hash: H32,
    version: u64,
    leaf: bool,
    count: usize,
    path: NibblePath,
}

/// All reads of version `v` agree with `map`; proofs verify (both verifiers).
pub fn check_reads<H: RefHasher, S: TreeReader>(
    store: &S,
    v: u64,
    map: &Map,
    probes: &[K],
) -> R {
    let tree = JellyfishMerkleTree::<S, H>::new(store);
    let root = root::<H>(map);
    let r = ok(tree.get_root_hash(v), format!("get_root_hash({v})"))?;
    chk!(
        r.0 == root,
        "version {v}: root hash read back is {:?}, expected {}",
        r,
        hex::encode(root)
    );
    let r = ok(tree.get_root_hash_option(v), "get_root_hash_option")?;
    chk!(
        r.map(|r| r.0) == Some(root),
        "version {v}: optional root hash read back is {:?}",
        r
    );
    let n = ok(tree.get_leaf_count(v), "get_leaf_count")?;
    chk!(
        n == map.len(),
        "version {v}: leaf count {n}, expected {}",
        map.len()
    );
    for k in probes {
        let want = map.get(k).map(|v| v.0.clone());
        let got = ok(tree.get(k.kh(), v), format!("get({k:?}, {v})"))?;
        chk!(
            got == want,
            "version {v}: get({k:?}) = {:?}, expected {:?}",
            got,
            want
        );
        check_proof::<H, S>(store, v, &root, map, k)?;
    }
    Ok(())
}

pub fn check_proof<H: RefHasher, S: TreeReader>(
    store: &S,
    v: u64,
    root: &H32,
    map: &Map,
    k: &K,
) -> R {
    let tree = JellyfishMerkleTree::<S, H>::new(store);
    let want = map.get(k).map(|v| v.0.clone());
    let (got, proof) = ok(
        tree.get_with_proof(k.kh(), v),
        format!("get_with_proof({k:?}, {v})"),
    )?;
    chk!(
        got == want,
        "version {v}: get_with_proof({k:?}) = {:?}, expected {:?}",
        got,
        want
    );
    let rh = jmt::RootHash(*root);
    let r = match &want {
        Some(x) => proof.verify_existence(rh, k.kh(), x),
        None => proof.verify_nonexistence(rh, k.kh()),
    };
    if let Err(e) = r {
        fail!("version {v}: proof of {k:?} ({:?}) does not verify: {e}", want);
    }
    ok(
        proof.verify(rh, k.kh(), want.as_ref()),
        "verify() disagrees with verify_existence/verify_nonexistence",
    )?;
    let m = from_jmt::<H>(&proof);
    let vh = want.as_ref().map(|x| H::reference(x));
    if let Err(e) = verify::<H>(root, &k.0, vh.as_ref(), &m) {
        fail!("version {v}: proof of {k:?} rejected by the independent verifier: {e}");
    }
    Ok(())
}
