//! C21: appending to the latest version (feature `migration`).
use super::core::classify;
use super::prune::entries;
use crate::env::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::{guard, Ctx, Def};
use crate::store::*;
use crate::{chk, fail, with_hasher};
use jmt::storage::*;
use crate::hasher::RefHasher;
use jmt::JellyfishMerkleTree;
use std::sync::Arc;

fn refused<H: RefHasher>(store: &RefStore, set: &Set, v: u64, latest: u64) -> R {
    let t = JellyfishMerkleTree::<RefStore, H>::new(store);
    match guard(|| t.append_value_set(jset(set), v)) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok((r, _))) => Err(format!(
            "appending to version {v} gives root {r:?} although the latest version is {latest}"
        )),
        Err(e) => Err(format!("appending to version {v} with the latest being {latest}: {e}")),
    }
}

fn c21<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let store = Arc::new(RefStore::default());
    {
        let mut i = store.i.borrow_mut();
        i.overwrite = true;
    }
    let probes = probes(&c.h.pool, &c.muts, 6);
    let start = c.h.start;
    // map of every version, and whether it still has to be readable
    let mut maps: Vec<Map> = vec![];
    let mut least = start;
    let mut appends = 0;
    for (i, set) in c.h.sets.iter().enumerate() {
        let m = c.muts[i % c.muts.len()];
        let t = JellyfishMerkleTree::<RefStore, H>::new(store.as_ref());
        if maps.is_empty() {
            refused::<H>(&store, set, start, start)
                .or_else(|e| if start == 0 { Ok(()) } else { Err(e) })?;
        }
        let appending = !maps.is_empty() && m.0 % 8 < 5;
        let (v, what) = if appending {
            (start + maps.len() as u64 - 1, "append to")
        } else {
            (start + maps.len() as u64, "update giving")
        };
        if !maps.is_empty() {
            let latest = start + maps.len() as u64 - 1;
            for w in [latest.wrapping_sub(1), latest + 1, start.wrapping_sub(1), latest + 7, least] {
                if w != latest {
                    refused::<H>(&store, set, w, latest)?;
                }
            }
        }
        let mut map = maps.last().cloned().unwrap_or_default();
        apply(&mut map, set);
        let before = store.snap();
        let (r, b) = ok(
            guard(|| {
                if appending {
                    t.append_value_set(jset(set), v)
                } else {
                    t.put_value_set(jset(set), v)
                }
            })?,
            format!("{what} version {v}"),
        )?;
        chk!(store.snap() == before, "{what} version {v} changed the store before being committed");
        chk!(
            r.0 == root::<H>(&map),
            "{what} version {v} returns root {r:?}, expected {}",
            hex::encode(root::<H>(&map))
        );
        for k in b.node_batch.nodes().keys() {
            chk!(k.version() == v, "{what} version {v} writes node {k:?} of another version");
        }
        for ((w, k), _) in b.node_batch.values() {
            chk!(*w == v, "{what} version {v} writes the value of {k:?} at version {w}");
        }
        // the batch's own statistics
        let leaves = b
            .node_batch
            .nodes()
            .values()
            .filter(|n| matches!(n, Node::Leaf(_)))
            .count();
        chk!(
            b.node_stats.len() == 1
                && b.node_stats[0].new_nodes == b.node_batch.nodes().len()
                && b.node_stats[0].new_leaves == leaves
                && b.node_stats[0].stale_nodes == b.stale_node_index_batch.len(),
            "{what} version {v}: statistics {:?} for a batch of {} nodes ({leaves} leaves) and {} stale records",
            b.node_stats,
            b.node_batch.nodes().len(),
            b.stale_node_index_batch.len()
        );
        ok(store.commit(b), format!("committing: {what} version {v}"))?;
        if appending {
            *maps.last_mut().unwrap() = map;
            appends += 1;
            ctx.tag("appends", 1);
            ctx.tag("appends leaving the tree empty", u64::from(maps.last().unwrap().is_empty()));
            ctx.tag("consecutive appends", u64::from(appends > 1));
        } else {
            maps.push(map);
            appends = 0;
        }
        if m.1 % 4 == 0 {
            let span = v - least;
            least += match m.2 % 3 {
                0 => span,
                _ => u64::from(m.3) % (span + 1),
            };
            ok(store.purge(least), format!("purging up to {least} after: {what} version {v}"))?;
            ctx.tag("purges", 1);
        } else {
            // what a purge would leave
            let f = store.fork();
            ok(f.purge(v), format!("purging up to {v} after: {what} version {v}"))?;
            walk::<H, RefStore>(&f, v, maps.last().unwrap())
                .map_err(|e| format!("after {what} version {v} and purging up to {v}: {e}"))?;
        }
        for w in least..=v {
            let m = &maps[(w - start) as usize];
            let at = |e: String| format!("after {what} version {v} (purged up to {least}): {e}");
            walk::<H, RefStore>(&store, w, m).map_err(at)?;
            if w == v || w == least || w.wrapping_add(u64::from(c.muts[0].3)) % 3 == 0 {
                check_reads::<H, RefStore>(&store, w, m, &probes).map_err(at)?;
                let got = entries::<H>(&store, w, &probes[0]).map_err(|e| at(format!("iteration: {e}")))?;
                let want: Vec<(K, Vec<u8>)> =
                    m.range(probes[0]..).map(|(k, v)| (*k, v.0.clone())).collect();
                if got != want {
                    fail!("after {what} version {v}: iterating version {w} gives other entries");
                }
            }
        }
    }
    Ok(())
}

pub static C21: Def<Case> = Def {
    id: "C21",
    rule: "histories as for C01, each set either appended to the latest version (5 of 8) or made a new one, with purges at random points; non-trivial: a history that deletes or overwrites, has two entries with the same first nibble, and at least one append",
    assumptions: &["a store that lets stored nodes be replaced, as the interface requires"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            muts: 9,
            max_versions: if t { 16 } else { 9 },
            bulk_max: if t { 200 } else { 40 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        let r = with_hasher!(c.h.hasher, c21(c, ctx));
        ctx.nontrivial = classify(&c.h, ctx) && ctx.tags.contains_key("appends");
        r
    },
    quick: 30_000,
    thorough: 200_000,
};
