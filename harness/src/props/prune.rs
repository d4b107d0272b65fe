//! C09, C10, C12, C13, C14: what an update batch contains, and pruning.
use super::core::{classify, HIST_RULE};
use crate::env::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::{Ctx, Def};
use crate::store::*;
use crate::{chk, fail, with_hasher};
use jmt::storage::*;
use crate::hasher::RefHasher;
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

/// First difference between two committed stores, if any.
pub fn store_diff(a: &RefStore, b: &RefStore) -> Option<String> {
    let (a, b) = (a.i.borrow(), b.i.borrow());
    let ka: BTreeSet<_> = a.nodes.keys().collect();
    let kb: BTreeSet<_> = b.nodes.keys().collect();
    if let Some(k) = ka.symmetric_difference(&kb).next() {
        return Some(format!(
            "node {k:?} is stored only by the {} way",
            if ka.contains(k) { "first" } else { "second" }
        ));
    }
    for k in ka {
        if a.nodes[k] != b.nodes[k] {
            return Some(format!("node {k:?}: {:?} / {:?}", a.nodes[k], b.nodes[k]));
        }
    }
    if let Some(s) = a.stale.symmetric_difference(&b.stale).next() {
        return Some(format!(
            "{s:?} is recorded only by the {} way",
            if a.stale.contains(s) { "first" } else { "second" }
        ));
    }
    if a.values != b.values {
        return Some(format!("stored values differ: {:?} / {:?}", a.values, b.values));
    }
    None
}

// ---------------------------------------------------------------- C09

fn c09<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let n = c.h.sets.len() as u16;
    let plans: Vec<(&str, Vec<(u16, u8)>)> = vec![
        ("one call per version", vec![(1, 2)]),
        ("one call for all versions", vec![(n, 0)]),
        ("one call for all versions, with proofs", vec![(n, 1)]),
        ("one call per version, with proofs", vec![(1, 4)]),
        (
            "a random grouping",
            c.muts
                .iter()
                .map(|m| (u16::from(m.0 % 4 + 1), [0, 0, 1, 2, 4][m.1 as usize % 5]))
                .collect(),
        ),
    ];
    let mut first: Option<(RefStore, Built)> = None;
    for (name, plan) in plans {
        let h = Hist {
            plan,
            ..c.h.clone()
        };
        let s = RefStore::default();
        let b = build::<H, RefStore>(&h, &s).map_err(|e| format!("{name}: {e}"))?;
        match &first {
            None => first = Some((s, b)),
            Some((s0, b0)) => {
                chk!(
                    b.roots == b0.roots,
                    "root hashes differ between one call per version and {name}: {:?} / {:?}",
                    b0.roots.iter().map(hex::encode).collect::<Vec<_>>(),
                    b.roots.iter().map(hex::encode).collect::<Vec<_>>()
                );
                if let Some(d) = store_diff(s0, &s) {
                    fail!("stores differ between one call per version (first) and {name} (second): {d}");
                }
                ctx.tag("groupings compared", 1);
            }
        }
    }
    Ok(())
}

pub static C09: Def<Case> = Def {
    id: "C09",
    rule: HIST_RULE,
    assumptions: &[],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            long: true,
            muts: 4,
            plans: false,
            max_versions: if t { 14 } else { 8 },
            bulk_max: if t { 400 } else { 80 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        ctx.nontrivial = classify(&c.h, ctx);
        with_hasher!(c.h.hasher, c09(c, ctx))
    },
    quick: 36_000,
    thorough: 400_000,
};

// ---------------------------------------------------------------- C10

fn batch_diff(a: &TreeUpdateBatch, b: &TreeUpdateBatch) -> Option<String> {
    let ka: BTreeSet<_> = a.node_batch.nodes().keys().collect();
    let kb: BTreeSet<_> = b.node_batch.nodes().keys().collect();
    if let Some(k) = ka.symmetric_difference(&kb).next() {
        return Some(format!(
            "node {k:?} only in the {} batch",
            if ka.contains(k) { "first" } else { "second" }
        ));
    }
    for k in ka {
        let (x, y) = (a.node_batch.get_node(k), b.node_batch.get_node(k));
        if x != y {
            return Some(format!("node {k:?}: {x:?} / {y:?}"));
        }
    }
    if a.node_batch.values() != b.node_batch.values() {
        return Some(format!(
            "values {:?} / {:?}",
            a.node_batch.values(),
            b.node_batch.values()
        ));
    }
    if let Some(s) = a
        .stale_node_index_batch
        .symmetric_difference(&b.stale_node_index_batch)
        .next()
    {
        return Some(format!(
            "{s:?} only in the {} batch",
            if a.stale_node_index_batch.contains(s) {
                "first"
            } else {
                "second"
            }
        ));
    }
    None
}

fn c10<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let n = c.h.sets.len();
    let m0 = c.muts[0];
    let mut split = m0.0 as usize % n;
    if split == 0 && c.h.start > 0 {
        split = 1.min(n - 1);
    }
    let base = Hist {
        sets: c.h.sets[..split].to_vec(),
        start: if split == 0 { 0 } else { c.h.start },
        ..c.h.clone()
    };
    let ins: Vec<Vec<(jmt::KeyHash, Vec<u8>)>> = c.h.sets[split..]
        .iter()
        .map(|s| {
            s.iter()
                .map(|(k, v)| (k.kh(), v.clone().map_or(vec![9], |v| v.0)))
                .collect::<Vec<_>>()
        })
        .filter(|s| !s.is_empty())
        .collect();
    if ins.is_empty() {
        return Ok(());
    }
    let store = RefStore::default();
    if split > 0 {
        build::<H, RefStore>(&base, &store)?;
    }
    let first = base.start + split as u64;
    let tree = JellyfishMerkleTree::<RefStore, H>::new(&store);
    let (r0, b0) = ok(
        tree.put_value_sets(
            ins.iter()
                .map(|s| s.iter().map(|(k, v)| (*k, Some(v.clone()))).collect::<Vec<_>>()),
            first,
        ),
        "put_value_sets",
    )?;
    let (r1, b1) = ok(
        tree.batch_put_value_sets(ins.clone(), None, first),
        "batch_put_value_sets",
    )?;
    chk!(r0 == r1, "root hashes differ: ordinary {r0:?}, batched {r1:?}");
    if let Some(d) = batch_diff(&b0, &b1) {
        fail!("ordinary (first) and batched (second) insertion differ: {d}");
    }
    let mut hashes: Vec<HashMap<NibblePath, H32>> = vec![HashMap::new(); ins.len()];
    for (k, node) in b0.node_batch.nodes() {
        let i = (k.version() - first) as usize;
        let h = match node {
            Node::Internal(i) => i.hash::<H>(),
            Node::Leaf(l) => l.hash::<H>(),
            Node::Null => PLACEHOLDER,
        };
        hashes[i].insert(k.nibble_path().clone(), h);
    }
    let (r2, b2) = ok(
        tree.batch_put_value_sets(ins.clone(), Some(hashes.iter().collect()), first),
        "batch_put_value_sets with node hashes",
    )?;
    chk!(
        r0 == r2,
        "root hashes differ: ordinary {r0:?}, batched with supplied hashes {r2:?}"
    );
    if let Some(d) = batch_diff(&b0, &b2) {
        fail!("ordinary (first) and batched insertion with supplied hashes (second) differ: {d}");
    }
    ctx.tag("batched versions compared", ins.len() as u64);
    ctx.tag("on top of a base tree", u64::from(split > 0));
    Ok(())
}

pub static C10: Def<Case> = Def {
    id: "C10",
    rule: HIST_RULE,
    assumptions: &["a prefix of the history (with deletions) forms the base tree, the rest is made insert-only and applied by both interfaces"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            long: true,
            muts: 1,
            max_versions: if t { 14 } else { 8 },
            max_set: 12,
            bulk: 14,
            bulk_max: if t { 600 } else { 150 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        ctx.nontrivial = classify(&c.h, ctx);
        with_hasher!(c.h.hasher, c10(c, ctx))
    },
    quick: 50_000,
    thorough: 500_000,
};

// ---------------------------------------------------------------- C12

/// Entries of version `v` from `from`, through the iterator.
pub fn entries<H: RefHasher>(
    store: &Arc<RefStore>,
    v: u64,
    from: &K,
) -> anyhow::Result<Vec<(K, Vec<u8>)>> {
    let it = JellyfishMerkleIterator::new(store.clone(), v, from.kh())?;
    it.map(|r| r.map(|(k, v)| (K(k.0), v))).collect()
}

/// Queries at a version that may be gone: right answer or error.
fn maybe_gone<H: RefHasher>(
    store: &Arc<RefStore>,
    v: u64,
    map: &Map,
    probes: &[K],
    ctx: &mut Ctx,
) -> R {
    let tree = JellyfishMerkleTree::<RefStore, H>::new(store);
    let root = root::<H>(map);
    let mut errs = 0;
    match tree.get_root_hash(v) {
        Ok(r) => chk!(r.0 == root, "pruned version {v}: wrong root hash {r:?}"),
        Err(_) => errs += 1,
    }
    match tree.get_root_hash_option(v) {
        Ok(Some(r)) => chk!(r.0 == root, "pruned version {v}: wrong root hash {r:?}"),
        _ => errs += 1,
    }
    match tree.get_leaf_count(v) {
        Ok(n) => chk!(n == map.len(), "pruned version {v}: wrong leaf count {n}"),
        Err(_) => errs += 1,
    }
    let all: Vec<(K, Vec<u8>)> = map.iter().map(|(k, v)| (*k, v.0.clone())).collect();
    for k in probes {
        let want = map.get(k).map(|v| v.0.clone());
        match tree.get(k.kh(), v) {
            Ok(x) => chk!(x == want, "pruned version {v}: get({k:?}) = {x:?}, expected {want:?}"),
            Err(_) => errs += 1,
        }
        match tree.get_with_proof(k.kh(), v) {
            Ok((x, p)) => {
                chk!(
                    x == want,
                    "pruned version {v}: get_with_proof({k:?}) = {x:?}, expected {want:?}"
                );
                if let Err(e) = p.verify(jmt::RootHash(root), k.kh(), want.as_ref()) {
                    fail!("pruned version {v}: proof of {k:?} does not verify: {e}");
                }
            }
            Err(_) => errs += 1,
        }
        match tree.get_with_exclusion_proof(k.kh(), v) {
            Ok(Ok((x, _))) => chk!(
                Some(x.clone()) == want,
                "pruned version {v}: exclusion query of {k:?} found {x:?}"
            ),
            Ok(Err(_)) => chk!(
                want.is_none(),
                "pruned version {v}: exclusion proof for present key {k:?}"
            ),
            Err(_) => errs += 1,
        }
        let mut at = all.partition_point(|(x, _)| x < k);
        if let Ok(it) = JellyfishMerkleIterator::new(store.clone(), v, k.kh()) {
            let mut ended = true;
            for e in it {
                match e {
                    Ok((ek, ev)) => {
                        chk!(
                            all.get(at) == Some(&(K(ek.0), ev.clone())),
                            "pruned version {v}: iterating from {k:?} yields {ek:?}"
                        );
                        at += 1;
                    }
                    Err(_) => {
                        errs += 1;
                        ended = false;
                        break;
                    }
                }
            }
            chk!(
                !ended || at == all.len(),
                "pruned version {v}: iterating from {k:?} silently ends early"
            );
        } else {
            errs += 1;
        }
    }
    ctx.tag("errors reported at pruned versions", errs);
    Ok(())
}

/// Reachable node keys per version.
pub fn reachable<H: RefHasher>(
    store: &RefStore,
    b: &Built,
) -> Result<Vec<BTreeSet<NodeKey>>, String> {
    b.versions()
        .map(|(v, m)| {
            Ok(walk::<H, RefStore>(store, v, m)?
                .into_iter()
                .map(|p| p.key)
                .collect())
        })
        .collect()
}

fn c12<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let pruned = Arc::new(RefStore::default());
    let full = RefStore::default();
    let probes = probes(&c.h.pool, &c.muts, 8);
    let start = c.h.start;
    let maps = maps_of(&c.h);
    let mut least = start;
    let mut roots = vec![];
    let mut b = Built {
        start,
        maps: vec![],
        roots: vec![],
        batches: vec![],
        modes: vec![],
    };
    for (g, (r, mode)) in groups(&c.h).into_iter().enumerate() {
        let mode = if r.len() > 1 && (mode == 2 || mode == 4) {
            0
        } else {
            mode
        };
        let first = start + r.start as u64;
        let sets = &c.h.sets[r.clone()];
        let (r1, b1) = ok(
            call::<H, RefStore>(&full, first, sets, mode),
            format!("update at {first} of the unpruned store"),
        )?;
        let (r2, b2) = ok(
            call::<H, RefStore>(&pruned, first, sets, mode),
            format!("update at {first} of the store pruned up to {least}"),
        )?;
        chk!(
            r1 == r2,
            "update at version {first} gives other root hashes on a store pruned up to {least}"
        );
        chk!(
            b1 == b2,
            "update at version {first} gives another batch on a store pruned up to {least}: {}",
            batch_diff(&b1, &b2).unwrap_or("statistics differ".into())
        );
        ok(full.commit(b1.clone()), "committing")?;
        ok(pruned.commit(b2), "committing to the pruned store")?;
        b.batches.push(b1);
        b.maps.extend(maps[r.clone()].iter().cloned());
        b.roots.extend(r1.iter());
        roots.extend(r1);
        // prune at a random point between the least readable and the latest version
        let last = b.last_version();
        let m = c.muts[g % c.muts.len()];
        if m.0 % 3 != 0 {
            let span = last - least;
            // exclusive or inclusive of the latest, often close to it
            least += match m.0 % 4 {
                0 => span,
                1 => span.saturating_sub(1),
                _ => u64::from(m.1) % (span + 1),
            };
            ok(pruned.purge(least), format!("purging up to {least}"))?;
            ctx.tag("purges", 1);
        }
        for v in least..=last {
            let i = (v - start) as usize;
            if v != least && v != last && v.wrapping_add(u64::from(m.2)) % 3 != 0 {
                continue;
            }
            walk::<H, RefStore>(&pruned, v, &maps[i])
                .map_err(|e| format!("after purging up to {least}: {e}"))?;
            check_reads::<H, RefStore>(&pruned, v, &maps[i], &probes)
                .map_err(|e| format!("after purging up to {least}: {e}"))?;
            for k in probes.iter().take(3) {
                let got = ok(
                    entries::<H>(&pruned, v, k),
                    format!("after purging up to {least}: iterating version {v}"),
                )?;
                let want: Vec<(K, Vec<u8>)> =
                    maps[i].range(*k..).map(|(k, v)| (*k, v.0.clone())).collect();
                chk!(
                    got == want,
                    "after purging up to {least}: iterating version {v} from {k:?} gives other entries"
                );
            }
        }
        for v in start..least {
            maybe_gone::<H>(&pruned, v, &maps[(v - start) as usize], &probes[..probes.len().min(4)], ctx)?;
        }
    }
    // stale records: exactly once, existing (both checked by the store), and not used since
    let reach = reachable::<H>(&full, &b)?;
    for s in full.i.borrow().stale.iter() {
        for (i, set) in reach.iter().enumerate() {
            let v = start + i as u64;
            chk!(
                v < s.stale_since_version || !set.contains(&s.node_key),
                "version {v} still uses node {:?} recorded stale since {}",
                s.node_key,
                s.stale_since_version
            );
        }
    }
    Ok(())
}

pub static C12: Def<Case> = Def {
    id: "C12",
    rule: HIST_RULE,
    assumptions: &["pruning removes exactly the nodes recorded stale since the prune version or earlier"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            long: true,
            muts: 5,
            max_versions: if t { 16 } else { 9 },
            bulk_max: if t { 200 } else { 50 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        ctx.nontrivial = classify(&c.h, ctx) && c.h.sets.len() >= 3;
        with_hasher!(c.h.hasher, c12(c, ctx))
    },
    quick: 24_000,
    thorough: 150_000,
};

// ---------------------------------------------------------------- C13

fn c13<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let store = RefStore::default();
    let b = build::<H, RefStore>(&c.h, &store)?;
    let reach = reachable::<H>(&store, &b)?;
    let n = reach.len();
    let mut keep: BTreeSet<NodeKey> = BTreeSet::new();
    for i in (0..n).rev() {
        keep.extend(reach[i].iter().cloned());
        let p = b.start + i as u64;
        let f = store.fork();
        ok(f.purge(p), format!("purging up to {p}"))?;
        let left = f.node_keys();
        if let Some(k) = left.difference(&keep).next() {
            fail!(
                "after purging up to {p} of {} versions, unreachable node {k:?} is left behind",
                n
            );
        }
        if let Some(k) = keep.difference(&left).next() {
            fail!("after purging up to {p}, node {k:?} in use is gone");
        }
        ctx.tag("nodes purged", (store.i.borrow().nodes.len() - left.len()) as u64);
        ctx.tag("purge points", 1);
    }
    Ok(())
}

pub static C13: Def<Case> = Def {
    id: "C13",
    rule: HIST_RULE,
    assumptions: &["history starts on an empty store"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            max_versions: if t { 16 } else { 9 },
            bulk_max: if t { 400 } else { 80 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        ctx.nontrivial = classify(&c.h, ctx) && c.h.sets.len() >= 3;
        with_hasher!(c.h.hasher, c13(c, ctx))
    },
    quick: 50_000,
    thorough: 400_000,
};

// ---------------------------------------------------------------- C14

fn c14<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let store = RefStore::default();
    let mut nb = 0;
    build_with::<H, RefStore>(&c.h, &store, |b, n| {
        let batch = b.batches.last().unwrap();
        chk!(
            batch.node_stats.len() == n - nb,
            "update of {} versions reports {} statistics entries",
            n - nb,
            batch.node_stats.len()
        );
        let mut want: BTreeMap<u64, NodeStats> = BTreeMap::new();
        for (k, node) in batch.node_batch.nodes() {
            let s = want.entry(k.version()).or_default();
            s.new_nodes += 1;
            s.new_leaves += usize::from(matches!(node, Node::Leaf(_)));
        }
        for x in &batch.stale_node_index_batch {
            let s = want.entry(x.stale_since_version).or_default();
            s.stale_nodes += 1;
            let inner = store.i.borrow();
            s.stale_leaves += usize::from(matches!(inner.nodes.get(&x.node_key), Some(Node::Leaf(_))));
        }
        for (j, got) in batch.node_stats.iter().enumerate() {
            let v = b.start + (nb + j) as u64;
            let w = want.remove(&v).unwrap_or_default();
            chk!(
                *got == w,
                "version {v} (entry point {}): reported {got:?}, the batch contains {w:?}",
                b.modes[nb + j]
            );
            ctx.tag("statistics entries compared", 1);
        }
        chk!(
            want.is_empty(),
            "the batch contains changes of versions without statistics: {want:?}"
        );
        nb = n;
        Ok(())
    })?;
    Ok(())
}

pub static C14: Def<Case> = Def {
    id: "C14",
    rule: HIST_RULE,
    assumptions: &[],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            long: true,
            max_versions: if t { 14 } else { 8 },
            bulk_max: if t { 400 } else { 100 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        ctx.nontrivial = classify(&c.h, ctx);
        with_hasher!(c.h.hasher, c14(c, ctx))
    },
    quick: 120_000,
    thorough: 600_000,
};
