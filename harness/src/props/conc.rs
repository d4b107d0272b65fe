//! C26: reads and update computations in progress while versions are committed and pruned.
use super::core::classify;
use super::fault::{queries, run_op, updates, Op, Out};
use crate::env::*;
use crate::gen::*;
use crate::hasher::{RefHasher, Sha};
use crate::model::*;
use crate::runner::{Ctx, Def, REPLAY};
use crate::store::*;
use crate::{chk, fail, with_hasher};
use jmt::mock::MockTreeStore;
use jmt::storage::*;
use jmt::JellyfishMerkleTree;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Arc;

/// An operation whose result depends on one version, next to commits and purges that may not
/// matter to it, placed before chosen ones of its reads.
fn c26<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let n = c.h.sets.len();
    let keep = 1 + c.muts[0].1 as usize % n;
    // one batch per version
    let scratch = RefStore::default();
    let h = Hist { plan: vec![(1, 2)], ..c.h.clone() };
    let b = build::<H, RefStore>(&h, &scratch)?;
    let base = RefStore::default();
    for k in &c.h.pool {
        base.i.borrow_mut().preimages.insert(*k, k.0.to_vec());
    }
    for batch in &b.batches[..keep] {
        ok(base.commit(batch.clone()), "committing")?;
    }
    let later = &b.batches[keep..];
    for m in &c.muts[1..] {
        let at = if m.0 % 2 == 0 { keep - 1 } else { m.1 as usize % keep };
        let v = c.h.start + at as u64;
        let map = &b.maps[at];
        let live: Vec<K> = map.keys().copied().collect();
        let k = if m.1 % 3 > 0 { pick(&live, m.2) } else { None }
            .or(pick(&probes(&c.h.pool, &[*m], 8), m.2))
            .unwrap();
        let next = &c.h.sets[m.3 as usize % n..][..1];
        let mut ops: Vec<Op> = queries::<H>(v, k, map.len() + 1, m.3 as usize % (map.len() + 1));
        ops.extend(updates::<H>(v + 1, next));
        // some of them, iteration more often
        let one = m.2 as usize % ops.len();
        let other = [7usize, 8, m.3 as usize % ops.len()][m.0 as usize % 3];
        for i in [one, other] {
            let op = &ops[i];
            let alone = Arc::new(base.fork());
            let want = run_op(op, &alone)?;
            let reads = alone.reads();
            // versions behind that are still waiting, and purges that keep `v`
            let mut x = u64::from(m.1) << 32 | u64::from(m.2) << 16 | u64::from(m.3);
            for round in 0..3 {
                let s = Arc::new(base.fork());
                let mut places: Vec<u64> = (0..1 + splitmix(&mut x) % 6).map(|_| splitmix(&mut x) % (reads + 1)).collect();
                places.sort_unstable();
                let mut waiting = later.iter();
                let mut events = vec![];
                for at in places {
                    let e = match splitmix(&mut x) % 3 {
                        0 if round < 2 => Event::Purge(v - splitmix(&mut x) % (v - c.h.start + 1)),
                        1 if round < 2 => Event::Purge(v),
                        _ => match waiting.next() {
                            Some(b) => Event::Commit(b.clone()),
                            None => Event::Purge(v),
                        },
                    };
                    events.push((at, e));
                }
                let said: Vec<String> = events
                    .iter()
                    .map(|(at, e)| match e {
                        Event::Commit(_) => format!("a commit before read {at}"),
                        Event::Purge(p) => format!("a purge up to {p} before read {at}"),
                    })
                    .collect();
                let before = events.len();
                s.i.borrow_mut().events = events.into();
                let got = run_op(op, &s)?;
                let happened = before - s.i.borrow().events.len();
                ctx.tag("events during an operation", happened as u64);
                chk!(
                    got == want,
                    "{} of {reads} reads with {} gives {got:?} instead of {want:?}",
                    op.what,
                    said.join(", ")
                );
            }
            ctx.tag("operations interleaved", 1);
            if let Out::List(l, _) = &want {
                ctx.tag("entries iterated with events between", l.len() as u64);
            }
        }
    }
    Ok(())
}

/// Reports like `fail!`, from inside a thread.
fn reader<S: TreeReader>(
    store: &S,
    maps: &[Map],
    roots: &[H32],
    start: u64,
    probes: &[K],
    at: &AtomicU64,
    done: &AtomicBool,
) -> Result<u64, String> {
    let tree = JellyfishMerkleTree::<S, Sha>::new(store);
    let mut early = 0;
    for (i, map) in maps.iter().enumerate() {
        let v = start + i as u64;
        // `v` and everything above has to stay readable
        at.store(v, SeqCst);
        let mut last = false;
        loop {
            if let Some(r) = ok(tree.get_root_hash_option(v), format!("get_root_hash_option({v})"))? {
                chk!(r.0 == roots[i], "root hash of version {v} read while others work: {r:?}");
                break;
            }
            if last {
                fail!("version {v} is committed but not visible");
            }
            last = done.load(SeqCst);
            std::thread::yield_now();
        }
        early += u64::from(!done.load(SeqCst));
        for k in probes.iter().chain(map.keys().take(3)).chain(map.keys().rev().take(3)) {
            let want = map.get(k).map(|v| v.0.clone());
            let got = ok(tree.get(k.kh(), v), format!("get({k:?}, {v}) while others work"))?;
            chk!(got == want, "get({k:?}, {v}) while others work = {got:?}, expected {want:?}");
            let (got, p) = ok(tree.get_with_proof(k.kh(), v), format!("get_with_proof({k:?}, {v}) while others work"))?;
            chk!(got == want, "get_with_proof({k:?}, {v}) while others work = {got:?}, expected {want:?}");
            let r = p.verify(jmt::RootHash(roots[i]), k.kh(), want.as_ref());
            chk!(r.is_ok(), "proof of {k:?} at {v} read while others work does not verify: {r:?}");
        }
        let n = ok(tree.get_leaf_count(v), format!("get_leaf_count({v}) while others work"))?;
        chk!(n == map.len(), "get_leaf_count({v}) while others work = {n}, expected {}", map.len());
    }
    at.store(u64::MAX, SeqCst);
    Ok(early)
}

/// The bundled store between threads: a writer, two readers that follow it, and a purger that
/// never goes beyond them.
fn threads(c: &Case, ctx: &mut Ctx) -> R {
    let maps = maps_of(&c.h);
    let roots: Vec<H32> = maps.iter().map(|m| root::<Sha>(m)).collect();
    let start = c.h.start;
    let probes = probes(&c.h.pool, &c.muts[..1], 6);
    let store = MockTreeStore::default();
    let done = AtomicBool::new(false);
    let at = [AtomicU64::new(start), AtomicU64::new(start)];
    let (store, done, at) = (&store, &done, &at);
    let (w, rs, p) = std::thread::scope(|s| {
        let rs: Vec<_> = at
            .iter()
            .map(|a| s.spawn(|| reader(store, &maps, &roots, start, &probes, a, done)))
            .collect();
        let purger = s.spawn(move || -> Result<u64, String> {
            let mut n = 0;
            while !done.load(SeqCst) {
                let p = at.iter().map(|a| a.load(SeqCst)).min().unwrap();
                ok(store.purge_stale_nodes(p), format!("purging up to {p} while others work"))?;
                n += 1;
                std::thread::yield_now();
            }
            Ok(n)
        });
        let writer = s.spawn(move || -> R {
            struct Done<'a>(&'a AtomicBool);
            impl Drop for Done<'_> {
                fn drop(&mut self) {
                    self.0.store(true, SeqCst);
                }
            }
            let _d = Done(done);
            let tree = JellyfishMerkleTree::<_, Sha>::new(store);
            for (i, set) in c.h.sets.iter().enumerate() {
                let v = start + i as u64;
                let (_, b) = ok(tree.put_value_set(jset(set), v), format!("update to {v} while others work"))?;
                ok(store.write_tree_update_batch(b), format!("committing {v} while others work"))?;
            }
            Ok(())
        });
        let w = writer.join();
        (w, rs.into_iter().map(|r| r.join()).collect::<Vec<_>>(), purger.join())
    });
    let dead = |_| "a thread of the bundled store's users panicked".to_string();
    w.map_err(dead)??;
    for r in rs {
        let early = r.map_err(dead)??;
        ctx.tag("versions read while the writer was at work", early);
    }
    let purges = p.map_err(dead)??;
    ctx.tag("purges while the writer was at work", purges);
    // nothing got lost in between
    let last = start + maps.len() as u64 - 1;
    ok(store.purge_stale_nodes(last), "the last purge")?;
    let nodes = walk::<Sha, _>(store, last, maps.last().unwrap())?;
    chk!(
        store.num_nodes() == nodes.len(),
        "{} nodes are left after the last purge, {} are in use",
        store.num_nodes(),
        nodes.len()
    );
    Ok(())
}

pub static C26: Def<Case> = Def {
    id: "C26",
    rule: "histories as for C01; every kind of read and every update entry point at a version of a generated prefix, with commits of the versions behind and purges that keep the version placed before generated ones of its store reads (1 to 6 events, three schedules per operation), compared with the result alone; for one case in twelve also a writer, two readers and a purger on the bundled store in threads; non-trivial: a history that deletes or overwrites, with two entries of the same first nibble, and at least one event during an operation",
    assumptions: &["commits and purges happen between two reads of the store, not inside one", "the threads are scheduled by the operating system, so that this part is not exactly repeatable"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            muts: if t { 10 } else { 6 },
            max_versions: if t { 14 } else { 8 },
            bulk_max: if t { 200 } else { 60 },
            plans: false,
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        if c.h.sets.is_empty() {
            return Ok(());
        }
        let r = with_hasher!(c.h.hasher, c26(c, ctx));
        r?;
        if c.muts[0].2 % 12 == 0 {
            let n = if REPLAY.load(SeqCst) { 1000 } else { 1 };
            for _ in 0..n {
                threads(c, ctx)?;
            }
        }
        ctx.nontrivial = classify(&c.h, ctx) && ctx.tags.get("events during an operation").is_some_and(|n| *n > 0);
        Ok(())
    },
    quick: 20_000,
    thorough: 150_000,
};
