//! C17, C18, C19: restoring a tree from proven chunks.
use super::proofs::{mutate, Pool};
use super::range::range_parts;
use crate::env::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::{guard, Ctx, Def};
use crate::store::*;
use crate::{chk, fail};
use jmt::mock::MockTreeStore;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::*;
use crate::hasher::RefHasher;
use jmt::{JellyfishMerkleTree, KeyHash, RootHash};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RCase {
    pub hasher: u8,
    pub version: u64,
    pub map: Vec<(K, V)>,
    /// chunk sizes, cycled
    pub cuts: Vec<u16>,
    pub muts: Vec<Mut>,
    pub pool: Vec<K>,
    /// 0: RefStore, 1: MockTreeStore, 2: overwriting restore
    pub kind: u8,
}

fn rcase(t: bool, empty: bool, nmuts: usize) -> BoxedStrategy<RCase> {
    let h = hist(Cfg {
        max_keys: if t { 40 } else { 24 },
        max_versions: 3,
        max_set: if t { 40 } else { 24 },
        bulk: 12,
        bulk_max: if t { 400 } else { 80 },
        plans: false,
        ..Cfg::default()
    });
    (
        h,
        vec(prop_oneof![3 => 1u16..4, 1 => 1u16..20, 1 => Just(10_000u16), 1 => lit().prop_map(|n| n.clamp(1, 5000) as u16)], 1..5),
        muts(nmuts),
        0u8..3,
    )
        .prop_map(move |(h, cuts, muts, kind)| {
            let mut m = maps_of(&h).pop().unwrap_or_default();
            if m.is_empty() && !empty {
                m.insert(h.pool[0], V(vec![7]));
            }
            RCase {
                hasher: h.hasher,
                version: h.start,
                map: m.into_iter().collect(),
                cuts,
                muts,
                pool: h.pool,
                kind,
            }
        })
        .boxed()
}

type Chunk = Vec<(KeyHash, Vec<u8>)>;
fn chunk_of(s: &[(K, V)]) -> Chunk {
    s.iter().map(|(k, v)| (k.kh(), v.0.clone())).collect()
}

/// Lengths of the chunks `n` entries are cut into.
fn lens(n: usize, cuts: &[u16], off: usize) -> Vec<usize> {
    let mut out = vec![];
    let mut left = n;
    let mut i = off;
    while left > 0 {
        let l = (cuts[i % cuts.len()] as usize).clamp(1, left);
        out.push(l);
        left -= l;
        i += 1;
    }
    out
}

/// The tree any store should hold for this map, written in one go at this version.
struct Goal {
    map: Map,
    all: Leaves,
    root: H32,
    fresh: RefStore,
    /// the code's own range proof for every key
    proofs: BTreeMap<K, Vec<u8>>,
}

fn goal<H: RefHasher>(c: &RCase) -> Result<Goal, String> {
    let map: Map = c.map.iter().cloned().collect();
    let all = leaves::<H>(&map);
    let root = subtree::<H>(&all, 0);
    let fresh = RefStore::default();
    let tree = JellyfishMerkleTree::<RefStore, H>::new(&fresh);
    let set: Set = map.iter().map(|(k, v)| (*k, Some(v.clone()))).collect();
    let (r, b) = ok(tree.put_value_set(jset(&set), c.version), "source tree")?;
    chk!(r.0 == root, "source tree has another root");
    ok(fresh.commit(b), "source tree")?;
    let mut proofs = BTreeMap::new();
    for k in map.keys() {
        let p = ok(tree.get_range_proof(k.kh(), c.version), "range proof")?;
        let (_, right) = range_parts::<H>(&all, k);
        let bytes = borsh::to_vec(&p).unwrap();
        chk!(
            bytes == borsh::to_vec(&MRange { right_siblings: right }).unwrap(),
            "range proof of {k:?} is not the true one"
        );
        proofs.insert(*k, bytes);
    }
    Ok(Goal {
        map,
        all,
        root,
        fresh,
        proofs,
    })
}

/// Root hash and encoded range proofs of a map.
pub fn source<H: RefHasher>(m: &Map, version: u64) -> Result<(H32, BTreeMap<K, Vec<u8>>), String> {
    let c = RCase {
        hasher: 0,
        version,
        map: m.iter().map(|(k, v)| (*k, v.clone())).collect(),
        cuts: vec![1],
        muts: vec![],
        pool: vec![],
        kind: 0,
    };
    goal::<H>(&c).map(|g| (g.root, g.proofs))
}

impl Goal {
    fn proof<H: RefHasher>(&self, last: &K) -> jmt::proof::SparseMerkleRangeProof<H> {
        borsh::from_slice(&self.proofs[last]).unwrap()
    }
}

trait Target: TreeReader + TreeWriter + Backing + 'static {
    fn make(overwrite: bool) -> Self;
    /// The store itself when its contents can be looked at and its writes made to fail.
    fn open_box(&self) -> Option<&RefStore> {
        None
    }
}
impl Target for RefStore {
    fn make(overwrite: bool) -> Self {
        let s = RefStore::default();
        s.i.borrow_mut().overwrite = overwrite;
        s
    }
    fn open_box(&self) -> Option<&RefStore> {
        Some(self)
    }
}
impl Target for MockTreeStore {
    fn make(overwrite: bool) -> Self {
        MockTreeStore::new(overwrite)
    }
}

fn open<H: RefHasher, S: Target>(
    c: &RCase,
    g: &Goal,
    store: &Arc<S>,
) -> Result<JellyfishMerkleRestore<H>, String> {
    let r = guard(|| {
        if c.kind == 2 {
            JellyfishMerkleRestore::<H>::new_overwrite(store.clone(), c.version, RootHash(g.root))
        } else {
            JellyfishMerkleRestore::<H>::new(store.clone(), c.version, RootHash(g.root))
        }
    })?;
    ok(r, "opening a restore")
}

/// Everything about the restored version.
fn check_done<H: RefHasher, S: Target>(c: &RCase, g: &Goal, store: &Arc<S>) -> R {
    walk::<H, S>(store.as_ref(), c.version, &g.map)?;
    let mut probes = probes(&c.pool, &c.muts[..2.min(c.muts.len())], 8);
    probes.extend(g.map.keys().take(6));
    check_reads::<H, S>(store.as_ref(), c.version, &g.map, &probes)?;
    let it = ok(
        jmt::JellyfishMerkleIterator::new(store.clone(), c.version, KeyHash([0; 32])),
        "iterating the restored version",
    )?;
    let got = super::range::collect(it, g.map.len(), &|| "iterating the restored version".into())?;
    let want: Vec<(K, V)> = g.map.iter().map(|(k, v)| (*k, v.clone())).collect();
    chk!(got == want, "iteration of the restored version differs from its entries");
    // nothing appears at an earlier version
    for v in [c.version.checked_sub(1), (c.version > 1).then_some(0)].into_iter().flatten() {
        let t = JellyfishMerkleTree::<S, H>::new(store.as_ref());
        chk!(
            !matches!(t.get_root_hash_option(v), Ok(Some(_))),
            "version {v} is readable after restoring version {}",
            c.version
        );
        for k in g.map.keys() {
            let x = ok(store.get_value_option(v, k.kh()), "value")?;
            chk!(x.is_none(), "{k:?} reads as {x:?} at version {v} after restoring version {}", c.version);
        }
    }
    for n in g.fresh.node_keys() {
        let a = ok(store.get_node_option(&n), "node")?;
        let b = g.fresh.i.borrow().nodes.get(&n).cloned();
        chk!(a == b, "restored node {n:?} is {a:?}, a tree with this map has {b:?}");
    }
    Ok(())
}

fn only_goal_nodes(g: &Goal, s: &RefStore) -> R {
    let i = s.i.borrow();
    let f = g.fresh.i.borrow();
    for (k, n) in &i.nodes {
        chk!(
            f.nodes.get(k) == Some(n),
            "store holds node {k:?} = {n:?}, the expected tree has {:?} there",
            f.nodes.get(k)
        );
    }
    for ((k, v), x) in &i.values {
        chk!(
            f.values.get(&(*k, *v)) == Some(x),
            "store holds value {x:?} for {k:?} at {v}, expected {:?}",
            f.values.get(&(*k, *v))
        );
    }
    Ok(())
}

/// A version without a complete restore must not be readable as another tree.
fn not_readable<H: RefHasher, S: Target>(c: &RCase, g: &Goal, store: &Arc<S>, when: &str) -> R {
    let t = JellyfishMerkleTree::<S, H>::new(store.as_ref());
    match t.get_root_hash_option(c.version) {
        Ok(None) => Ok(()),
        Ok(Some(r)) if r.0 == g.root && !g.map.is_empty() => walk::<H, S>(store.as_ref(), c.version, &g.map).map(|_| ()),
        o => Err(format!("{when}: the version is readable with root {o:?}, expected {}", hex::encode(g.root))),
    }
}

// ---------------------------------------------------------------- C17

fn c17_on<H: RefHasher, S: Target>(c: &RCase, ctx: &mut Ctx) -> R {
    let g = goal::<H>(c)?;
    let store = Arc::new(S::make(c.kind == 2));
    let ls = lens(c.map.len(), &c.cuts, 0);
    ctx.tag("chunks", ls.len() as u64);

    // stop early somewhere
    let m = c.muts[0];
    if !c.map.is_empty() {
        let stop = m.1 as usize % ls.len();
        let early = Arc::new(S::make(c.kind == 2));
        let mut r = open::<H, S>(c, &g, &early)?;
        let mut pos = 0;
        for l in &ls[..stop] {
            let ch = &c.map[pos..pos + l];
            pos += l;
            ok(r.add_chunk(chunk_of(ch), g.proof(&ch[l - 1].0)), "adding a chunk")?;
        }
        match guard(move || r.finish())? {
            Ok(()) => fail!(
                "finishing after {stop} of {} chunks ({pos} of {} entries) succeeds",
                ls.len(),
                c.map.len()
            ),
            Err(_) => ctx.tag("early finishes refused", 1),
        }
        not_readable::<H, S>(c, &g, &early, "after finishing early")?;
    }

    let mut r = open::<H, S>(c, &g, &store)?;
    let mut pos = 0;
    for (i, l) in ls.iter().enumerate() {
        let ch = &c.map[pos..pos + l];
        pos += l;
        let p = g.proof::<H>(&ch[l - 1].0);
        let res = guard(|| r.add_chunk(chunk_of(ch), p))?;
        ok(res, format!("adding chunk {i} of {}", ls.len()))?;
        chk!(
            store.get_node_option(&root_key(c.version)).map_err(|e| e.to_string())?.is_none(),
            "the root node is written before the restore is finished"
        );
    }
    let res = if m.0 % 2 == 0 {
        guard(move || r.finish())?
    } else {
        guard(move || Box::new(r).finish_box())?
    };
    ok(res, "finishing a complete restore")?;
    check_done::<H, S>(c, &g, &store)?;

    // usable for further updates
    let mut map = g.map.clone();
    let mut v = c.version;
    for w in c.muts.chunks(4).take(2) {
        let mut set: Set = vec![];
        for m in w {
            let live: Vec<K> = map.keys().copied().collect();
            if let Some(k) = pick(if m.0 % 2 == 0 { &live } else { &c.pool }, m.1) {
                set.push((k, if m.0 % 4 < 2 { None } else { Some(V(vec![m.2 as u8])) }));
            }
        }
        apply(&mut map, &set);
        v += 1;
        let t = JellyfishMerkleTree::<S, H>::new(store.as_ref());
        let (r, b) = ok(t.put_value_set(jset(&set), v), "updating the restored tree")?;
        chk!(r.0 == root::<H>(&map), "update {set:?} of the restored tree gives a wrong root");
        ok(store.commit(b), "updating the restored tree")?;
        walk::<H, S>(store.as_ref(), v, &map)?;
        check_reads::<H, S>(store.as_ref(), v, &map, &probes(&c.pool, w, 4))?;
    }
    check_done::<H, S>(c, &g, &store)?;
    if v > c.version {
        // the restored version can be pruned like any other
        ok(guard(|| store.purge(v))?, "pruning the restored version")?;
        let reached = walk::<H, S>(store.as_ref(), v, &map)?;
        check_reads::<H, S>(store.as_ref(), v, &map, &probes(&c.pool, &c.muts, 4))?;
        if let Some(s) = store.open_box() {
            chk!(
                reached.len() == s.node_keys().len(),
                "after pruning the restored version {} nodes are stored, {} belong to the tree",
                s.node_keys().len(),
                reached.len()
            );
        }
        ctx.tag("restored versions pruned", 1);
    }
    // (the bundled store takes values in the order of their versions only)
    if m.3 % 8 == 0 && store.open_box().is_some() {
        genesis_on::<H, S>(c, &g, ctx)?;
    }
    Ok(())
}

/// A tree restored at the version before genesis is what version 0 builds on.
fn genesis_on<H: RefHasher, S: Target>(c: &RCase, g: &Goal, ctx: &mut Ctx) -> R {
    let store = Arc::new(S::make(c.kind == 2));
    let c = &RCase { version: u64::MAX, ..c.clone() };
    let mut r = open::<H, S>(c, g, &store)?;
    let mut pos = 0;
    for l in lens(c.map.len(), &c.cuts, 1) {
        let ch = &c.map[pos..pos + l];
        pos += l;
        let p = g.proof::<H>(&ch[l - 1].0);
        ok(guard(|| r.add_chunk(chunk_of(ch), p))?, "adding a chunk before genesis")?;
    }
    ok(guard(move || r.finish())?, "finishing a restore before genesis")?;
    let t = JellyfishMerkleTree::<S, H>::new(store.as_ref());
    let root0 = ok(t.get_root_hash(u64::MAX), "root before genesis")?;
    chk!(root0.0 == g.root, "the tree restored before genesis has the root {root0:?}");
    let mut map = g.map.clone();
    for (v, w) in c.muts.chunks(4).take(2).enumerate() {
        let mut set: Set = vec![];
        for m in w {
            let live: Vec<K> = map.keys().copied().collect();
            if let Some(k) = pick(if m.0 % 2 == 0 { &live } else { &c.pool }, m.2) {
                set.push((k, if m.1 % 4 < 2 { None } else { Some(V(vec![m.3 as u8])) }));
            }
        }
        apply(&mut map, &set);
        let t = JellyfishMerkleTree::<S, H>::new(store.as_ref());
        let (r, b) = ok(t.put_value_set(jset(&set), v as u64), "version 0 on a tree from before genesis")?;
        chk!(
            r.0 == root::<H>(&map),
            "version {v} on a tree of {} entries from before genesis: {set:?} gives a wrong root",
            g.map.len()
        );
        ok(guard(|| store.commit(b))?, "committing on a tree from before genesis")?;
        let r = ok(t.get_root_hash(v as u64), "root of a version on a tree from before genesis")?;
        chk!(r.0 == root::<H>(&map), "version {v} on a tree from before genesis reads back the root {r:?}");
        let n = ok(t.get_leaf_count(v as u64), "leaf count")?;
        chk!(n == map.len(), "version {v} on a tree from before genesis has {n} leaves, expected {}", map.len());
    }
    ctx.tag("new geneses on restored trees", 1);
    Ok(())
}

fn by_kind<H: RefHasher>(
    c: &RCase,
    ctx: &mut Ctx,
    refst: fn(&RCase, &mut Ctx) -> R,
    mock: fn(&RCase, &mut Ctx) -> R,
) -> R {
    if c.kind == 1 {
        mock(c, ctx)
    } else {
        refst(c, ctx)
    }
}

macro_rules! hashed {
    ($c:expr, $ctx:expr, $f:ident) => {
        match $c.hasher {
            1 => by_kind::<crate::hasher::B3>($c, $ctx, $f::<crate::hasher::B3, RefStore>, $f::<crate::hasher::B3, MockTreeStore>),
            _ => by_kind::<crate::hasher::Sha>($c, $ctx, $f::<crate::hasher::Sha, RefStore>, $f::<crate::hasher::Sha, MockTreeStore>),
        }
    };
}

fn rclassify(c: &RCase, ctx: &mut Ctx) -> bool {
    let ls = lens(c.map.len(), &c.cuts, 0);
    let shared = c.map.windows(2).any(|w| w[0].0.nib(0) == w[1].0.nib(0));
    ctx.tag("entries restored", c.map.len() as u64);
    ctx.tag("maps of one entry", u64::from(c.map.len() == 1));
    ctx.tag("empty maps", u64::from(c.map.is_empty()));
    c.map.len() >= 3 && ls.len() >= 2 && shared
}

const RULE: &str = "final maps of generated histories (structured key pools, bulk loads), cut into chunks of cycled random sizes, restored into the independent store, the bundled store, or in overwriting mode; non-trivial: at least 3 entries in at least 2 chunks, two entries with the same first nibble";

pub static C17: Def<RCase> = Def {
    id: "C17",
    rule: RULE,
    assumptions: &["the restored nodes are compared with those of a tree written in one go at the same version"],
    level: "exploration",
    strategy: |t| rcase(t, true, 8),
    check: |c, ctx| {
        ctx.nontrivial = rclassify(c, ctx);
        hashed!(c, ctx, c17_on)
    },
    quick: 25_000,
    thorough: 200_000,
};

// ---------------------------------------------------------------- C18

fn c18<H: RefHasher, S: Target>(c: &RCase, ctx: &mut Ctx) -> R {
    let g = goal::<H>(c)?;
    let store = Arc::new(S::make(false));
    let boxed = store.open_box();
    let fail_next = |on: bool| {
        if let Some(s) = boxed {
            let mut i = s.i.borrow_mut();
            i.fail_write = on.then_some(i.writes);
        }
    };
    let mut mi = c.muts.iter().cycle();
    let mut rounds = 0;
    loop {
        let m = mi.next().unwrap();
        let last_round = rounds >= c.muts.len();
        rounds += 1;
        // what is stored decides where to go on
        let from = match store.get_rightmost_leaf().map_err(|e| e.to_string())? {
            None => 0,
            Some((_, l)) => c.map.partition_point(|(k, _)| k.0 <= l.key_hash().0),
        };
        ctx.tag("resumed behind stored leaves", u64::from(from > 0));
        let rest = &c.map[from..];
        let mut r = match guard(|| JellyfishMerkleRestore::<H>::new(store.clone(), c.version, RootHash(g.root))) {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => fail!("opening a restore over the first {from} stored leaves: {e:#}"),
            Err(e) => fail!("opening a restore over the first {from} stored leaves: {e}"),
        };
        let ls = lens(rest.len(), &c.cuts, rounds);
        // abandon after some chunks; odd: by a failing write
        let (stop, faulty) = if last_round {
            (usize::MAX, false)
        } else {
            (m.1 as usize % (ls.len() + 2), m.0 % 2 == 1 && boxed.is_some())
        };
        let mut pos = 0;
        let mut stopped = false;
        for (i, l) in ls.iter().enumerate() {
            let ch = &rest[pos..pos + l];
            let p = g.proof::<H>(&ch[l - 1].0);
            if i == stop {
                if faulty {
                    fail_next(true);
                    let res = guard(|| r.add_chunk(chunk_of(ch), p))?;
                    fail_next(false);
                    chk!(res.is_err(), "adding a chunk succeeds although writing it failed");
                    ctx.tag("failed chunk writes", 1);
                }
                stopped = true;
                break;
            }
            let res = guard(|| r.add_chunk(chunk_of(ch), p))?;
            ok(res, format!("chunk {i} of {} after resuming behind entry {from}", ls.len()))?;
            pos += l;
        }
        ctx.tag("interruptions", u64::from(stopped));
        if let Some(s) = boxed {
            only_goal_nodes(&g, s)?;
        }
        if stopped && from + pos > 0 && store.get_rightmost_leaf().map_err(|e| e.to_string())?.is_some() {
            // not for another version
            let other = if m.3 % 2 == 0 || c.version == 0 { c.version + 1 } else { c.version - 1 };
            let before = boxed.map(|s| s.snap());
            let o = guard(|| JellyfishMerkleRestore::<H>::new(store.clone(), other, RootHash(g.root)).is_ok())?;
            chk!(
                !o,
                "a restore of version {other} can be opened over a part of version {}",
                c.version
            );
            chk!(boxed.map(|s| s.snap()) == before, "opening a restore changed the store");
            ctx.tag("restores of another version refused", 1);
        }
        if stopped {
            continue;
        }
        if stop == ls.len() {
            // everything fed, but the restore is lost before or while finishing
            if faulty {
                fail_next(true);
                let res = guard(move || r.finish())?;
                fail_next(false);
                chk!(res.is_err(), "finishing succeeds although the write failed");
                ctx.tag("failed finish writes", 1);
            }
            ctx.tag("interruptions", 1);
            continue;
        }
        ok(guard(move || r.finish())?, "finishing a resumed restore")?;
        break;
    }
    ctx.tag("sessions", rounds as u64);
    ctx.tag("restored into the bundled store", u64::from(boxed.is_none()));
    check_done::<H, S>(c, &g, &store)?;
    if let Some(store) = boxed {
    chk!(
        store.node_keys() == g.fresh.node_keys(),
        "the resumed restore leaves other nodes than a tree with this map"
    );
        let (a, b) = (store.i.borrow(), g.fresh.i.borrow());
        chk!(a.values == b.values, "the resumed restore leaves other values");
    }
    // over a completed restore
    let before = boxed.map(|s| s.snap());
    match guard(|| JellyfishMerkleRestore::<H>::new(store.clone(), c.version, RootHash(g.root)).is_ok()) {
        Ok(false) => {}
        Ok(true) => fail!("a restore can be opened over the completed one"),
        Err(e) => fail!("opening a restore over a completed one of {} entries: {e}", c.map.len()),
    }
    chk!(boxed.map(|s| s.snap()) == before, "opening a restore changed the store");
    Ok(())
}

pub static C18: Def<RCase> = Def {
    id: "C18",
    rule: "as for C17, restored in up to 6 sessions each abandoned after a random number of chunks, by a failing chunk write, before finishing, or by a failing finish; the next session feeds what follows the largest stored leaf, in other chunks; non-trivial: at least 3 entries, two with the same first nibble, at least 2 chunks",
    assumptions: &["a failed write of a batch stores nothing of it"],
    level: "exploration",
    strategy: |t| {
        (rcase(t, true, 1), vec(any::<Mut>(), 0..6))
            .prop_map(|(mut c, m)| {
                c.muts = m;
                c.muts.push((0, 9, 9, 9));
                c
            })
            .boxed()
    },
    check: |c, ctx| {
        ctx.nontrivial = rclassify(c, ctx);
        hashed!(c, ctx, c18)
    },
    quick: 30_000,
    thorough: 250_000,
};

// ---------------------------------------------------------------- C19

fn tampered<H: RefHasher>(
    c: &RCase,
    g: &Goal,
    pool: &Pool,
    from: usize,
    len: usize,
    m: &Mut,
    m2: &Mut,
) -> (Chunk, MRange, &'static str) {
    let at = |i: u16, n: usize| (i as usize * n.max(1)) >> 16;
    let mut ch: Vec<(K, V)> = c.map[from..from + len].to_vec();
    let mut pk = ch[len - 1].0;
    let mut right: Option<MRange> = None;
    let how = match m.0 % 14 {
        0 => {
            let i = at(m.1, len);
            ch[i].1 .0.push(1);
            "wrong value"
        }
        1 => {
            let i = at(m.1, len);
            ch[i].1 = V(vec![m.2 as u8, 0, 9]);
            "wrong value"
        }
        2 => {
            // an extra key, close to or far from the others, in its place in the order
            let base = ch[at(m.1, len)].0;
            let mut k = base;
            match m.2 % 4 {
                0 => k = base.succ().unwrap_or(base),
                1 => k = base.pred().unwrap_or(base),
                _ => k.0[at(m.3, 32)] ^= 1 << (m.2 >> 8 & 7),
            }
            let i = ch.partition_point(|(x, _)| *x < k);
            ch.insert(i, (k, V(vec![1])));
            "extra key"
        }
        3 => {
            let k = c.pool[at(m.1, c.pool.len())];
            let i = ch.partition_point(|(x, _)| *x < k);
            ch.insert(i, (k, V(vec![1])));
            "extra key"
        }
        4 => {
            ch.remove(at(m.1, len));
            "missing key"
        }
        5 => {
            let i = at(m.1, len);
            let x = ch[i].clone();
            ch.insert(i, x);
            "repeated key"
        }
        6 if len > 1 => {
            ch.swap(at(m.1, len), at(m.2, len));
            "order changed"
        }
        7 => {
            pk = c.map[at(m.1, c.map.len())].0;
            "proof of another position"
        }
        8 if from > 0 => {
            ch.insert(0, c.map[at(m.1, from)].clone());
            "key of an earlier chunk"
        }
        9 if from + len < c.map.len() => {
            // skip an entry
            ch = c.map[from + 1..from + len + 1].to_vec();
            pk = ch[ch.len() - 1].0;
            "first key skipped"
        }
        10 => {
            let i = at(m.1, len);
            ch[i].0 .0[at(m.2, 32)] ^= 1 << (m.3 % 8);
            "key altered"
        }
        11 => {
            // any key of the keyspace behind the last one
            let mut k = ch[len - 1].0;
            for d in at(m.1, 64)..64 {
                k.set_nib(d, ((m.2 >> (d % 4 * 4)) & 15) as u8);
            }
            ch.push((k, V(vec![2])));
            "extra key"
        }
        12 => {
            ch.truncate(at(m.1, len + 1));
            "chunk cut short"
        }
        _ => {
            let (_, rs) = range_parts::<H>(&g.all, &pk);
            let mut p = MProof { leaf: None, siblings: rs };
            let vh = [1; 32];
            let how = mutate::<H>(&mut p, m2, pool, &pk, &vh);
            right = Some(MRange { right_siblings: p.siblings });
            how
        }
    };
    let right = right.unwrap_or_else(|| MRange {
        right_siblings: range_parts::<H>(&g.all, &pk).1,
    });
    (chunk_of(&ch), right, how)
}

fn c19<H: RefHasher>(c: &RCase, ctx: &mut Ctx) -> R {
    let g = goal::<H>(c)?;
    let probes: Vec<K> = c.map.iter().map(|(k, _)| *k).take(10).collect();
    let pool = Pool::new::<H>(&[&g.map], &probes);
    for w in c.muts.windows(3) {
        let store = Arc::new(RefStore::default());
        let ls = lens(c.map.len(), &c.cuts, w[0].3 as usize % 4);
        let good = (w[0].1 as usize) % (ls.len() + 1);
        let mut r = open::<H, RefStore>(&RCase { kind: 0, ..c.clone() }, &g, &store)?;
        let mut pos = 0;
        for l in &ls[..good] {
            let ch = &c.map[pos..pos + l];
            ok(r.add_chunk(chunk_of(ch), g.proof(&ch[l - 1].0)), "adding a good chunk")?;
            pos += l;
        }
        if w[0].0 % 2 == 0 {
            // in a new session
            pos = match store.get_rightmost_leaf().map_err(|e| e.to_string())? {
                None => 0,
                Some((_, l)) => c.map.partition_point(|(k, _)| k.0 <= l.key_hash().0),
            };
            r = open::<H, RefStore>(&RCase { kind: 0, ..c.clone() }, &g, &store)?;
            ctx.tag("tampered chunks in a resumed session", 1);
        }
        // The tampered chunk stands where the next good one would, or (everything fed) last again.
        let (from, len) = if pos < c.map.len() {
            (pos, (c.cuts[0] as usize).clamp(1, c.map.len() - pos))
        } else {
            (c.map.len() - 1, 1)
        };
        let honest = chunk_of(&c.map[from..from + len]);
        let (ch, right, how) = tampered::<H>(c, &g, &pool, from, len, &w[1], &w[2]);
        let true_right = range_parts::<H>(&g.all, &c.map[from + len - 1].0).1;
        let same_right = right.siblings_eq::<H>(&true_right);
        let truth = pos == from && ch == honest && same_right;
        // a shorter or other correct chunk with its own proof is true, too
        let truth = truth || (pos == from && !ch.is_empty() && from + ch.len() <= c.map.len()
            && ch == chunk_of(&c.map[from..from + ch.len()])
            && right.siblings_eq::<H>(&range_parts::<H>(&g.all, &c.map[from + ch.len() - 1].0).1));
        if truth {
            continue;
        }
        ctx.tag(how, 1);
        ctx.tag("tampered chunks", 1);
        let before = store.snap();
        let jp = to_jmt_range::<H>(&right);
        let desc = || format!("chunk {ch:?} ({how}) at entry {from} of {}", c.map.len());
        match guard(|| r.add_chunk(ch.clone(), jp)) {
            Ok(Err(_)) => {}
            Ok(Ok(())) => fail!("{} is accepted", desc()),
            Err(e) => fail!("{e} while adding {}", desc()),
        }
        chk!(store.snap() == before, "{} was refused, but the store has changed", desc());
        // Whatever happens afterwards, only true data may reach the store.
        for k in 0..2 {
            if pos >= c.map.len() {
                break;
            }
            let l = len.min(c.map.len() - pos);
            let nx = &c.map[pos..pos + l];
            let p = g.proof::<H>(&nx[l - 1].0);
            match guard(|| r.add_chunk(chunk_of(nx), p)) {
                Ok(_) => {}
                Err(e) => fail!("{e} while adding a correct chunk ({k}) after {}", desc()),
            }
            pos += l;
            only_goal_nodes(&g, &store).map_err(|e| format!("after {}: {e}", desc()))?;
        }
        match guard(move || r.finish()) {
            Ok(res) => {
                only_goal_nodes(&g, &store).map_err(|e| format!("after {} and finish ({res:?}): {e}", desc()))?;
                if res.is_ok() {
                    walk::<H, RefStore>(&store, c.version, &g.map)
                        .map_err(|e| format!("finish succeeded after {}: {e}", desc()))?;
                } else {
                    not_readable::<H, RefStore>(c, &g, &store, "after a failed finish")?;
                }
            }
            Err(e) => fail!("{e} while finishing after {}", desc()),
        }
    }
    Ok(())
}

impl MRange {
    fn siblings_eq<H: RefHasher>(&self, o: &[MNode]) -> bool {
        self.right_siblings.len() == o.len()
            && self.right_siblings.iter().zip(o).all(|(a, b)| a.hash::<H>() == b.hash::<H>())
    }
}

pub static C19: Def<RCase> = Def {
    id: "C19",
    rule: "as for C17; a random number of good chunks, possibly a new session, then one chunk with a wrong value, extra, altered, missing, repeated, reordered or earlier key, a skipped entry, or a proof changed in one of 21 ways or of another position; afterwards correct chunks and finish on the same restore; non-trivial: at least 3 entries, two with the same first nibble, at least 2 chunks, and a tampered chunk was offered",
    assumptions: &["after a refused chunk the restore may refuse everything, but must not write anything false"],
    level: "exploration",
    strategy: |t| rcase(t, false, if t { 24 } else { 12 }),
    check: |c, ctx| {
        let r = match c.hasher {
            1 => c19::<crate::hasher::B3>(c, ctx),
            _ => c19::<crate::hasher::Sha>(c, ctx),
        };
        ctx.nontrivial = rclassify(c, ctx) && ctx.tags.contains_key("tampered chunks");
        r
    },
    quick: 20_000,
    thorough: 100_000,
};
