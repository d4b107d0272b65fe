//! C01, C02, C03, C11: the tree as a versioned, provable map.
use crate::env::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::{Ctx, Def};
use crate::store::*;
use crate::{chk, fail, with_hasher};
use jmt::mock::MockTreeStore;
use jmt::storage::*;
use crate::hasher::RefHasher;
use jmt::{JellyfishMerkleTree, MissingRootError};

/// Tags and the common measure of a non-trivial history: at least two versions, a version with two
/// entries that share their first nibble, and a version that deletes or overwrites an entry.
pub fn classify(h: &Hist, ctx: &mut Ctx) -> bool {
    let maps = maps_of(h);
    let mut shared = false;
    let mut changed = false;
    let mut prev = Map::new();
    for (m, s) in maps.iter().zip(&h.sets) {
        let ks: Vec<&K> = m.keys().collect();
        shared |= ks.windows(2).any(|w| w[0].nib(0) == w[1].nib(0));
        let del = prev.keys().filter(|k| !m.contains_key(k)).count() as u64;
        let over = prev.iter().filter(|(k, v)| m.get(k).is_some_and(|x| x != *v)).count() as u64;
        changed |= del + over > 0;
        ctx.tag("entries deleted", del);
        ctx.tag("entries overwritten", over);
        ctx.tag("versions without any change", u64::from(*m == prev));
        ctx.tag("versions emptying the tree", u64::from(m.is_empty() && !prev.is_empty()));
        ctx.tag("versions of more than 40 entries", u64::from(m.len() > 40));
        let deep = ks.windows(2).any(|w| w[0].common_bits(w[1]) >= 64);
        ctx.tag("versions with a shared prefix of 64 or more bits", u64::from(deep));
        let mut seen = std::collections::BTreeSet::new();
        ctx.tag(
            "sets with a repeated key",
            u64::from(s.iter().any(|(k, _)| !seen.insert(*k))),
        );
        prev = m.clone();
    }
    ctx.tag("versions", h.sets.len() as u64);
    ctx.tag("histories of more than 256 versions", u64::from(h.sets.len() > 256));
    h.sets.len() >= 2 && shared && changed
}

pub const HIST_RULE: &str = "histories of 1..N versions over key pools built by recipes (random, extremes, one flipped bit or nibble at any depth with same/random/zero/one tail, +-1 neighbours), versions of mixed inserts/overwrites/deletes, delete-all, empty, no-op deletes, rewrites of the same value, delete-and-reinsert in one set, bulk loads, grouped into calls by a random plan over the update entry points; non-trivial: at least two versions, some version holds two entries with the same first nibble, and some version deletes or overwrites an entry";

// ---------------------------------------------------------------- C01

fn c01<H: RefHasher>(c: &Case) -> R {
    if c.muts.first().is_some_and(|m| m.0 % 4 == 0) {
        c01_on::<H, MockTreeStore>(c, MockTreeStore::default())
    } else {
        c01_on::<H, RefStore>(c, RefStore::default())
    }
}

fn c01_on<H: RefHasher, S: Backing>(c: &Case, store: S) -> R {
    let b = build_with::<H, S>(&c.h, &store, |b, n| {
        let tree = JellyfishMerkleTree::<S, H>::new(&store);
        for i in 0..n {
            // returned by the update; and read back for every version so far
            let v = b.start + i as u64;
            let want = root::<H>(&b.maps[i]);
            chk!(
                b.roots[i] == want,
                "version {v}: update (entry point {}) returned root {}, expected {}",
                b.modes[i],
                hex::encode(b.roots[i]),
                hex::encode(want)
            );
            if i + 6 >= n {
                let got = ok(tree.get_root_hash(v), format!("get_root_hash({v})"))?;
                chk!(
                    got.0 == want,
                    "version {v} (latest {}): root hash read back is {:?}, expected {}",
                    b.last_version(),
                    got,
                    hex::encode(want)
                );
            }
        }
        Ok(())
    })?;
    // The hash of a raw key or value is the hash function applied to exactly its bytes.
    for (_, v) in b.maps.iter().flatten().step_by(1 + b.maps.len() / 8) {
        let want = H::reference(&v.0);
        let (k, x) = (jmt::KeyHash::with::<H>(&v.0).0, jmt::ValueHash::with::<H>(&v.0).0);
        chk!(k == want, "{} bytes hash to {} as a key, expected {}", v.0.len(), hex::encode(k), hex::encode(want));
        chk!(x == want, "{} bytes hash to {} as a value, expected {}", v.0.len(), hex::encode(x), hex::encode(want));
        let mut want = [0u8; 32];
        let n = v.0.len().min(32);
        want[..n].copy_from_slice(&v.0[..n]);
        let t = jmt::KeyHash::with::<jmt::TransparentHasher>(&v.0).0;
        chk!(t == want, "the transparent hash of {} bytes is {}", v.0.len(), hex::encode(t));
    }
    // The same map reached another way.
    let fin = b.maps.last().unwrap();
    let want = *b.roots.last().unwrap();
    let mut entries: Set = fin.iter().map(|(k, v)| (*k, Some(v.clone()))).collect();
    let mut seed = c.muts.first().map_or(0, |m| u64::from(m.1) << 16 | u64::from(m.2));
    for i in (1..entries.len()).rev() {
        entries.swap(i, (splitmix(&mut seed) % (i as u64 + 1)) as usize);
    }
    let cut = if entries.is_empty() {
        0
    } else {
        (splitmix(&mut seed) % (entries.len() as u64 + 1)) as usize
    };
    let h2 = Hist {
        hasher: c.h.hasher,
        start: splitmix(&mut seed) % 3,
        sets: vec![entries[..cut].to_vec(), entries[cut..].to_vec()],
        plan: vec![((seed % 2) as u16 + 1, (seed >> 8) as u8 % 3)],
        pool: vec![],
    };
    let s2 = RefStore::default();
    let b2 = build::<H, RefStore>(&h2, &s2)?;
    chk!(
        *b2.roots.last().unwrap() == want,
        "the same entries inserted in another order give root {}, the history gives {}",
        hex::encode(b2.roots.last().unwrap()),
        hex::encode(want)
    );
    Ok(())
}

pub static C01: Def<Case> = Def {
    id: "C01",
    rule: HIST_RULE,
    assumptions: &["hash functions tried: sha256 and sha512/256 (through Digest), blake3 and keyed blake3 (through SimpleHasher, one of them overriding its one-shot function)"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            long: true,
            muts: 1,
            max_keys: if t { 24 } else { 14 },
            max_versions: if t { 14 } else { 8 },
            bulk_max: if t { 600 } else { 120 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        ctx.nontrivial = classify(&c.h, ctx);
        with_hasher!(c.h.hasher, c01(c))
    },
    quick: 80_000,
    thorough: 600_000,
};

// ---------------------------------------------------------------- C02

fn missing<H: RefHasher, S: TreeReader>(store: &S, v: u64, probes: &[K]) -> R {
    let tree = JellyfishMerkleTree::<S, H>::new(store);
    match tree.get_root_hash_option(v) {
        Ok(None) => {}
        o => fail!("optional root of version {v} that was never committed: {o:?}"),
    }
    if let Ok(r) = tree.get_root_hash(v) {
        fail!("root of version {v} that was never committed: {r:?}");
    }
    if let Ok(n) = tree.get_leaf_count(v) {
        fail!("leaf count of version {v} that was never committed: {n}");
    }
    for k in probes.iter().take(3) {
        match tree.get_with_proof(k.kh(), v) {
            Ok((val, _)) => {
                fail!("proof for {k:?} at version {v} that was never committed: value {val:?}")
            }
            Err(e) => match e.downcast_ref::<MissingRootError>() {
                Some(m) if m.version == v => {}
                _ => fail!("reading with proof at uncommitted version {v}: error is not MissingRootError({v}) but {e:?}"),
            },
        }
        match tree.get_with_exclusion_proof(k.kh(), v) {
            Ok(_) => fail!("exclusion query for {k:?} at version {v} that was never committed succeeds"),
            Err(e) => match e.downcast_ref::<MissingRootError>() {
                Some(m) if m.version == v => {}
                _ => fail!("exclusion query at uncommitted version {v}: error is not MissingRootError({v}) but {e:?}"),
            },
        }
        chk!(
            tree.get_range_proof(k.kh(), v).is_err(),
            "range proof of {k:?} at version {v} that was never committed"
        );
    }
    Ok(())
}

fn c02_on<H: RefHasher, S: Backing>(c: &Case, store: S) -> R {
    let probes = probes(&c.h.pool, &c.muts, 10);
    let every: Vec<K> = c.h.pool.clone();
    build_with::<H, S>(&c.h, &store, |b, n| {
        for i in 0..n {
            let v = b.start + i as u64;
            // all earlier versions at the end, a sample of them after every commit
            let last = n == c.h.sets.len();
            if !last && i + 3 < n && (i + n) % 3 != 0 {
                continue;
            }
            let few: Vec<K> = if last {
                probes.clone()
            } else {
                probes.iter().copied().skip((i + n) % 3).step_by(3).collect()
            };
            check_reads::<H, S>(&store, v, &b.maps[i], &few)?;
            let tree = JellyfishMerkleTree::<S, H>::new(&store);
            for k in &every {
                let want = b.maps[i].get(k).map(|v| v.0.clone());
                let got = ok(tree.get(k.kh(), v), format!("get({k:?}, {v})"))?;
                chk!(
                    got == want,
                    "version {v} (latest {}): get({k:?}) = {:?}, expected {:?}",
                    b.last_version(),
                    got,
                    want
                );
            }
        }
        let l = b.last_version();
        missing::<H, S>(&store, l + 1, &probes)?;
        missing::<H, S>(&store, l + 2 + l % 7, &probes)?;
        if b.start > 0 {
            missing::<H, S>(&store, b.start - 1, &probes)?;
            missing::<H, S>(&store, b.start / 2, &probes)?;
        }
        Ok(())
    })?;
    Ok(())
}

fn c02<H: RefHasher>(c: &Case) -> R {
    if c.muts.first().is_some_and(|m| m.0 % 2 == 0) {
        c02_on::<H, MockTreeStore>(c, MockTreeStore::default())
    } else {
        c02_on::<H, RefStore>(c, RefStore::default())
    }
}

pub static C02: Def<Case> = Def {
    id: "C02",
    rule: HIST_RULE,
    assumptions: &["values are looked up in the bundled in-memory store and in an independent store"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            long: true,
            muts: 4,
            max_versions: if t { 16 } else { 9 },
            bulk_max: if t { 300 } else { 60 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        ctx.nontrivial = classify(&c.h, ctx) && c.h.sets.len() >= 3;
        with_hasher!(c.h.hasher, c02(c))
    },
    quick: 36_000,
    thorough: 250_000,
};

// ---------------------------------------------------------------- C03

fn c03<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let store = RefStore::default();
    let b = build::<H, RefStore>(&c.h, &store)?;
    let probes = probes(&c.h.pool, &c.muts, 40);
    let tree = JellyfishMerkleTree::<RefStore, H>::new(&store);
    let n = b.maps.len();
    for (i, (v, m)) in b.versions().enumerate() {
        if i + 4 < n && i % 3 != 0 {
            continue;
        }
        let all = leaves::<H>(m);
        let root = subtree::<H>(&all, 0);
        for k in &probes {
            check_proof::<H, RefStore>(&store, v, &root, m, k)?;
            let (_, p) = tree.get_with_proof(k.kh(), v).map_err(|e| e.to_string())?;
            let got = from_jmt::<H>(&p);
            let want = proof::<H>(&all, &k.0);
            chk!(
                got == want,
                "version {v}: proof of {k:?} is not the one for the smallest deciding subtree:\n got {got:?}\nwant {want:?}"
            );
            if m.contains_key(k) {
                ctx.tag("existence proofs", 1);
            } else {
                ctx.tag("non-existence proofs", 1);
                ctx.tag("non-existence proofs ending in a leaf", u64::from(got.leaf.is_some()));
            }
        }
    }
    Ok(())
}

pub static C03: Def<Case> = Def {
    id: "C03",
    rule: HIST_RULE,
    assumptions: &["the independent verifier and the canonical proof of src/model.rs follow the documented rules"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            muts: 14,
            max_keys: if t { 30 } else { 16 },
            max_versions: if t { 8 } else { 5 },
            bulk_max: if t { 500 } else { 100 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        ctx.nontrivial = classify(&c.h, ctx);
        with_hasher!(c.h.hasher, c03(c, ctx))
    },
    quick: 32_000,
    thorough: 200_000,
};

// ---------------------------------------------------------------- C11

fn prefixed(k: &K, p: &[u8]) -> bool {
    p.iter().enumerate().all(|(i, n)| k.nib(i) == *n)
}

fn c11<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let store = RefStore::default();
    let mut nb = 0;
    let b = build_with::<H, RefStore>(&c.h, &store, |b, n| {
        // every batch holds only nodes of its own versions
        let lo = b.start + nb as u64;
        let hi = b.start + n as u64 - 1;
        nb = n;
        for k in b.batches.last().unwrap().node_batch.nodes().keys() {
            chk!(
                (lo..=hi).contains(&k.version()),
                "update of versions {lo}..={hi} stores node {k:?} of another version"
            );
        }
        Ok(())
    })?;
    let mut prev: Option<(Map, std::collections::BTreeMap<Vec<u8>, Phys>)> = None;
    for (i, (v, m)) in b.versions().enumerate() {
        let nodes = walk::<H, RefStore>(&store, v, m)?;
        let set = &c.h.sets[i];
        let by: std::collections::BTreeMap<_, _> =
            nodes.into_iter().map(|n| (n.path.clone(), n)).collect();
        if let Some((old_map, prev)) = &prev {
            for (p, n) in &by {
                if p.is_empty() || n.null {
                    continue;
                }
                let Some(old) = prev.get(p) else { continue };
                let guard = if n.leaf { &p[..p.len() - 1] } else { &p[..] };
                // a delete of an absent key changes nothing
                let touches = |(k, v): &(K, Option<V>)| {
                    prefixed(k, guard) && (v.is_some() || old_map.contains_key(k))
                };
                if old.leaf != n.leaf || set.iter().any(touches) {
                    continue;
                }
                ctx.tag("untouched nodes found shared", 1);
                chk!(
                    old.key == n.key,
                    "version {v}: nothing below {p:x?} was updated, but its node {:?} was replaced by {:?}",
                    old.key,
                    n.key
                );
            }
        }
        ctx.tag("nodes checked", by.len() as u64);
        prev = Some((m.clone(), by));
    }
    Ok(())
}

pub static C11: Def<Case> = Def {
    id: "C11",
    rule: HIST_RULE,
    assumptions: &["an update may rewrite a leaf whose parent node it has to change"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            long: true,
            max_keys: if t { 24 } else { 14 },
            max_versions: if t { 14 } else { 8 },
            bulk_max: if t { 500 } else { 120 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        ctx.nontrivial = classify(&c.h, ctx);
        with_hasher!(c.h.hasher, c11(c, ctx))
    },
    quick: 80_000,
    thorough: 400_000,
};
