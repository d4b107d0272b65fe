//! C22: read faults and lost nodes. C23: computing an update changes nothing.
use super::core::classify;
use super::prune::store_diff;
use super::restore::source;
use crate::env::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::{guard, Ctx, Def};
use crate::store::*;
use crate::{chk, fail, with_hasher};
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::*;
use crate::hasher::RefHasher;
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, MissingRootError, RootHash};
use std::collections::BTreeMap;
use std::sync::Arc;

/// What an operation returned: one result, or a list that may end with an error.
#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    One(Result<Vec<u8>, String>),
    List(Vec<(K, Vec<u8>)>, Option<String>),
}

pub struct Op<'a> {
    pub what: String,
    pub f: Box<dyn Fn(&Arc<RefStore>) -> Out + 'a>,
    pub update: bool,
}

const NO_ROOT: &str = "missing root: ";

fn text(e: anyhow::Error) -> String {
    match e.downcast_ref::<MissingRootError>() {
        Some(_) => format!("{NO_ROOT}{e:#}"),
        None => format!("{e:#}"),
    }
}
fn one(r: anyhow::Result<Vec<u8>>) -> Out {
    Out::One(r.map_err(text))
}
fn bb<T: borsh::BorshSerialize>(x: T) -> Vec<u8> {
    borsh::to_vec(&x).unwrap()
}
fn list(it: anyhow::Result<JellyfishMerkleIterator<RefStore>>, bound: usize) -> Out {
    let it = match it {
        Ok(it) => it,
        Err(e) => return Out::List(vec![], Some(text(e))),
    };
    let mut v = vec![];
    for r in it {
        match r {
            Ok((k, x)) => v.push((K(k.0), x)),
            Err(e) => return Out::List(v, Some(text(e))),
        }
        if v.len() > bound {
            break;
        }
    }
    Out::List(v, None)
}

/// Reads at version `v` for key `k`.
pub fn queries<'a, H: RefHasher + 'a>(v: u64, k: K, n: usize, idx: usize) -> Vec<Op<'a>> {
    fn tree<H: RefHasher>(s: &Arc<RefStore>) -> JellyfishMerkleTree<'_, RefStore, H> {
        JellyfishMerkleTree::new(s.as_ref())
    }
    let q = |what: String, f: Box<dyn Fn(&Arc<RefStore>) -> Out + 'a>| Op { what, f, update: false };
    let mut out = vec![
        q(format!("get({k:?}, {v})"), Box::new(move |s| one(tree::<H>(s).get(k.kh(), v).map(bb)))),
        q(
            format!("get_with_proof({k:?}, {v})"),
            Box::new(move |s| one(tree::<H>(s).get_with_proof(k.kh(), v).map(bb))),
        ),
        q(
            format!("get_with_exclusion_proof({k:?}, {v})"),
            Box::new(move |s| {
                one(tree::<H>(s).get_with_exclusion_proof(k.kh(), v).map(|r| match r {
                    Ok((x, p)) => bb((0u8, x, p)),
                    Err(p) => match p {
                        jmt::ExclusionProof::Leftmost { leftmost_right_proof } => bb((1u8, leftmost_right_proof)),
                        jmt::ExclusionProof::Middle { leftmost_right_proof, rightmost_left_proof } => {
                            bb((2u8, leftmost_right_proof, rightmost_left_proof))
                        }
                        jmt::ExclusionProof::Rightmost { rightmost_left_proof } => bb((3u8, rightmost_left_proof)),
                    },
                }))
            }),
        ),
        q(
            format!("get_range_proof({k:?}, {v})"),
            Box::new(move |s| one(tree::<H>(s).get_range_proof(k.kh(), v).map(bb))),
        ),
        q(
            format!("get_root_hash({v})"),
            Box::new(move |s| one(tree::<H>(s).get_root_hash(v).map(bb))),
        ),
        q(
            format!("get_root_hash_option({v})"),
            Box::new(move |s| one(tree::<H>(s).get_root_hash_option(v).map(bb))),
        ),
        q(
            format!("get_leaf_count({v})"),
            Box::new(move |s| one(tree::<H>(s).get_leaf_count(v).map(|n| bb(n as u64)))),
        ),
        q(
            format!("iteration of version {v} from {k:?}"),
            Box::new(move |s| list(JellyfishMerkleIterator::new(s.clone(), v, k.kh()), n)),
        ),
        q(
            format!("iteration of version {v} from index {idx}"),
            Box::new(move |s| list(JellyfishMerkleIterator::new_by_index(s.clone(), v, idx), n)),
        ),
    ];
    let pk = k;
    out.push(q(
        format!("get_with_ics23_proof({k:?}, {v})"),
        Box::new(move |s| {
            let pre = s.i.borrow().preimages.get(&pk).cloned();
            let key = pre.unwrap_or_else(|| pk.0.to_vec());
            one(tree::<H>(s)
                .get_with_ics23_proof(key, v)
                .map(|(x, p)| bb((x, format!("{p:?}")))))
        }),
    ));
    out
}

/// Ways of computing the update of `sets` from version `first`.
pub fn updates<'a, H: RefHasher + 'a>(first: u64, sets: &'a [Set]) -> Vec<Op<'a>> {
    let mut modes = vec![0u8, 1];
    if sets.len() == 1 {
        modes.extend([2, 4]);
    }
    if sets.iter().all(|s| !s.is_empty() && s.iter().all(|(_, v)| v.is_some())) {
        modes.push(3);
    }
    modes
        .into_iter()
        .map(|m| Op {
            what: format!("update of {} versions from {first} (entry point {m})", sets.len()),
            update: true,
            f: Box::new(move |s| {
                if m == 1 {
                    let t = JellyfishMerkleTree::<RefStore, H>::new(s.as_ref());
                    return one(t
                        .put_value_sets_with_proof(sets.iter().map(jset), first)
                        .map(|(rp, b)| {
                            let v: Vec<_> =
                                rp.into_iter().map(|(r, p)| (r.0, bb(p))).collect();
                            bb((v, b))
                        }));
                }
                one(call::<H, RefStore>(s.as_ref(), first, sets, m).map(|(r, b)| bb((r, b))))
            }),
        })
        .collect()
}

/// A result under a fault against the healthy one.
fn judge(op: &Op, healthy: &Out, got: Result<Out, String>, why: &str, ctx: &mut Ctx) -> R {
    let got = got.map_err(|e| format!("{} with {why}: {e}", op.what))?;
    // the version exists
    let blames = |o: &Out| matches!(o, Out::One(Err(e)) | Out::List(_, Some(e)) if e.starts_with(NO_ROOT));
    chk!(
        !blames(&got) || blames(healthy),
        "{} with {why} is reported as a missing root of a version that exists: {got:?}",
        op.what
    );
    match (healthy, &got) {
        (Out::One(_), Out::One(Err(_))) => ctx.tag("faults reported as errors", 1),
        (Out::One(h), Out::One(g)) => {
            chk!(
                h == g,
                "{} with {why} gives another result: {:?} instead of {:?}",
                op.what,
                got,
                healthy
            );
            ctx.tag("faults without effect on the result", 1);
        }
        (Out::List(h, he), Out::List(g, ge)) => {
            chk!(
                g.len() <= h.len() && h[..g.len()] == g[..],
                "{} with {why} yields {:?} instead of {:?}",
                op.what,
                g,
                h
            );
            chk!(
                ge.is_some() || he.is_some() || g.len() == h.len(),
                "{} with {why} silently ends after {} of {} entries",
                op.what,
                g.len(),
                h.len()
            );
            if ge.is_some() {
                ctx.tag("faults reported as errors", 1);
            } else {
                ctx.tag("faults without effect on the result", 1);
            }
        }
        _ => fail!("{}: {:?} / {:?}", op.what, healthy, got),
    }
    Ok(())
}

pub fn run_op(op: &Op, s: &Arc<RefStore>) -> Result<Out, String> {
    guard(|| (op.f)(s))
}

fn c22<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let store = Arc::new(RefStore::default());
    for k in &c.h.pool {
        store.i.borrow_mut().preimages.insert(*k, k.0.to_vec());
    }
    // the last sets are the update to be computed
    let n = c.h.sets.len();
    let keep = n - (n > 1) as usize - (n > 4 && c.muts[0].0 % 2 == 0) as usize;
    let mut h = c.h.clone();
    h.sets.truncate(keep);
    let b = build::<H, RefStore>(&h, store.as_ref())?;
    let last = b.last_version();
    let next = &c.h.sets[keep..];
    let probes = probes(&c.h.pool, &c.muts[..3], 6);
    let mut ops: Vec<Op> = vec![];
    for (i, m) in c.muts.iter().enumerate().take(4) {
        let v = if i < 2 { last } else { b.start + u64::from(m.1) % b.maps.len() as u64 };
        let map = &b.maps[(v - b.start) as usize];
        let live: Vec<K> = map.keys().copied().collect();
        let k = if m.0 % 2 == 0 { pick(&live, m.2) } else { None }
            .or(pick(&probes, m.2))
            .unwrap();
        let mut q = queries::<H>(v, k, map.len() + 1, m.3 as usize % (map.len() + 1));
        // all of them for the first, two of them for the others
        if i > 0 {
            let a = m.3 as usize % q.len();
            q.swap(0, a);
            let z = 1 + m.2 as usize % (q.len() - 1);
            q.swap(1, z);
            q.truncate(2);
        }
        ops.extend(q);
    }
    if !next.is_empty() {
        ops.extend(updates::<H>(last + 1, next));
        let s0 = &next[0];
        ops.push(Op {
            what: format!("append to version {last}"),
            update: true,
            f: Box::new(move |s| {
                let t = JellyfishMerkleTree::<RefStore, H>::new(s.as_ref());
                one(t.append_value_set(jset(s0), last).map(|(r, b)| bb((r.0, b))))
            }),
        });
    }
    let before = store.snap();
    for op in &ops {
        store.arm(None);
        let healthy = run_op(op, &store)?;
        let n = store.reads();
        let most = if c.muts.len() > 8 { 40 } else { 9 };
        let step = (n / most).max(1);
        let off = if n > most { u64::from(c.muts[0].2) % step } else { 0 };
        let mut i = off;
        while i < n {
            for len in [1, u64::MAX - i] {
                store.arm(Some(i));
                store.i.borrow_mut().fail_len = len;
                let got = run_op(op, &store);
                let hit = store.injected();
                store.arm(None);
                chk!(hit > 0, "{} does not repeat its reads", op.what);
                judge(op, &healthy, got, &format!("read {i} of {n} failing"), ctx)?;
                ctx.tag("read faults injected", 1);
            }
            if op.update {
                chk!(
                    run_op(op, &store)? == healthy,
                    "{} repeated after a failed attempt gives another result",
                    op.what
                );
            }
            i += step;
        }
    }
    chk!(store.snap() == before, "a query or a computed update changed the store");
    // lost nodes: never a root, whose absence means that the version does not exist
    let mut cand: Vec<NodeKey> = {
        let mut s = std::collections::BTreeSet::new();
        for (v, m) in b.versions() {
            if v == last || v % 3 == u64::from(c.muts[0].3) % 3 {
                s.extend(walk::<H, RefStore>(&store, v, m)?.into_iter().map(|p| p.key));
            }
        }
        s.into_iter().filter(|k| !k.nibble_path().is_empty()).collect()
    };
    let healthy: Vec<Out> = ops.iter().map(|o| run_op(o, &store)).collect::<Result<_, _>>()?;
    for (j, m) in c.muts.iter().enumerate() {
        if cand.is_empty() {
            break;
        }
        let at = (m.1 as usize * cand.len()) >> 16;
        let nk = cand.swap_remove(at);
        let node = store.i.borrow_mut().nodes.remove(&nk).unwrap();
        // now and then a second one
        let second = (j % 4 == 3).then(|| pick_key(&cand, m.2)).flatten();
        let other = second
            .as_ref()
            .map(|k| store.i.borrow_mut().nodes.remove(k).unwrap());
        for (op, h) in ops.iter().zip(&healthy) {
            let got = run_op(op, &store);
            judge(op, h, got, &format!("node {nk:?} lost"), ctx)?;
        }
        ctx.tag("lost nodes", 1);
        let mut i = store.i.borrow_mut();
        i.nodes.insert(nk, node);
        if let (Some(k), Some(n)) = (second, other) {
            i.nodes.insert(k, n);
        }
    }
    // lost values: every reader of a leaf's value notices (a plain lookup reads nothing else)
    for m in c.muts.iter().take(5) {
        let w = b.maps.len() - 1 - if m.0 % 3 == 0 { m.1 as usize % b.maps.len() } else { 0 };
        let Some((k, _)) = b.maps[w].iter().nth(m.2 as usize % b.maps[w].len().max(1)) else {
            continue;
        };
        let gone: Vec<(K, u64)> = store.i.borrow().values.keys().filter(|x| x.0 == *k).copied().collect();
        let gone: Vec<_> = gone.into_iter().map(|x| (x, store.i.borrow_mut().values.remove(&x).unwrap())).collect();
        let mut more = vec![];
        for v in [b.start + w as u64, last] {
            let n = b.maps[(v - b.start) as usize].len() + 1;
            more.extend(queries::<H>(v, *k, n, m.3 as usize % n));
            more.extend(queries::<H>(v, probes[m.1 as usize % probes.len()], n, 0));
        }
        let first: Vec<Result<Out, String>> = more.iter().map(|o| run_op(o, &store)).collect();
        let upd: Vec<Result<Out, String>> = ops.iter().map(|o| run_op(o, &store)).collect();
        store.i.borrow_mut().values.extend(gone);
        for (op, got) in more.iter().zip(first) {
            if op.what.starts_with("get(") {
                continue;
            }
            judge(op, &run_op(op, &store)?, got, &format!("the values of {k:?} lost"), ctx)?;
        }
        for ((op, h), got) in ops.iter().zip(&healthy).zip(upd) {
            if op.update {
                judge(op, h, got, &format!("the values of {k:?} lost"), ctx)?;
            }
        }
        ctx.tag("lost values", 1);
    }
    restore_faults::<H>(c, b.maps.last().unwrap(), ctx)
}

fn pick_key(v: &[NodeKey], i: u16) -> Option<NodeKey> {
    let r: Vec<&NodeKey> = v.iter().collect();
    pick(&r, i).cloned()
}

/// Reopening a restore while a read fails.
fn restore_faults<H: RefHasher>(c: &Case, map: &Map, ctx: &mut Ctx) -> R {
    if map.is_empty() || map.len() > 40 {
        return Ok(());
    }
    let v = c.h.start;
    let (root, proofs) = source::<H>(map, v)?;
    let ents: Vec<(K, V)> = map.iter().map(|(k, v)| (*k, v.clone())).collect();
    let m = c.muts[1];
    let cut = 1 + m.1 as usize % ents.len();
    let feed = |r: &mut JellyfishMerkleRestore<H>, e: &[(K, V)]| {
        let ch = e.iter().map(|(k, v)| (k.kh(), v.0.clone())).collect();
        let p = borsh::from_slice(&proofs[&e[e.len() - 1].0]).unwrap();
        r.add_chunk(ch, p)
    };
    let base = Arc::new(RefStore::default());
    let mut r = ok(JellyfishMerkleRestore::<H>::new(base.clone(), v, RootHash(root)), "opening a restore")?;
    ok(feed(&mut r, &ents[..cut]), "adding a chunk")?;
    drop(r);
    base.arm(None);
    let _ = ok(JellyfishMerkleRestore::<H>::new(base.clone(), v, RootHash(root)), "resuming a restore")?;
    let n = base.reads();
    let from = match base.get_rightmost_leaf().map_err(|e| e.to_string())? {
        None => 0,
        Some((_, l)) => ents.partition_point(|(k, _)| k.0 <= l.key_hash().0),
    };
    let step = (n / 6).max(1);
    let mut i = u64::from(m.2) % step;
    while i < n {
        let s = Arc::new(base.fork());
        s.arm(Some(i));
        let r = guard(|| JellyfishMerkleRestore::<H>::new(s.clone(), v, RootHash(root)))
            .map_err(|e| format!("resuming a restore with read {i} of {n} failing: {e}"))?;
        s.arm(None);
        ctx.tag("read faults injected", 1);
        if let Ok(mut r) = r {
            // then it has to work
            let e = |e: String| format!("restore resumed with read {i} of {n} failing: {e}");
            ok(feed(&mut r, &ents[from..]), "adding the rest").map_err(e)?;
            ok(r.finish(), "finishing").map_err(e)?;
            walk::<H, RefStore>(&s, v, map).map_err(e)?;
        } else {
            ctx.tag("faults reported as errors", 1);
        }
        i += step;
    }
    Ok(())
}

pub static C22: Def<Case> = Def {
    id: "C22",
    rule: "histories as for C01; every kind of read, every update entry point, append and restore resumption run with single and lasting faults at up to 9 of their reads each (all, if they are at most 9), and with single and double losses of non-root nodes in use, and with the values of one present key lost; non-trivial: a history that deletes or overwrites, with two entries of the same first nibble, and at least one fault reported as an error",
    assumptions: &["a read that fails returns an error; a lost node or value is reported as absent by the store"],
    level: "fault_enumeration",
    strategy: |t| {
        case(Cfg {
            muts: if t { 16 } else { 8 },
            max_versions: if t { 8 } else { 5 },
            bulk_max: if t { 120 } else { 30 },
            hashers: 1,
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        if c.h.sets.is_empty() {
            return Ok(());
        }
        // key hashes that are their own preimages, for the ICS23 query
        let r = c22::<crate::hasher::IdHash>(c, ctx);
        ctx.nontrivial =
            classify(&c.h, ctx) && ctx.tags.contains_key("faults reported as errors");
        r
    },
    quick: 10_000,
    thorough: 40_000,
};

// ---------------------------------------------------------------- C23

fn c23<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let store = Arc::new(RefStore::default());
    for k in &c.h.pool {
        store.i.borrow_mut().preimages.insert(*k, k.0.to_vec());
    }
    let n = c.h.sets.len();
    // base, then alternatives: the remaining sets singly, in pairs, and all together
    let keep = c.muts[0].1 as usize % n;
    let mut h = c.h.clone();
    h.sets.truncate(keep);
    let b = build::<H, RefStore>(&h, store.as_ref())?;
    let first = c.h.start + keep as u64;
    let base_map = b.maps.last().cloned().unwrap_or_default();
    let rest = &c.h.sets[keep..];
    let mut alts: Vec<&[Set]> = rest.chunks(1).take(4).collect();
    alts.extend(rest.chunks(2).take(2));
    alts.push(rest);
    let reads = |s: &Arc<RefStore>| -> Result<Vec<Out>, String> {
        let mut out = vec![];
        for (i, m) in c.muts.iter().enumerate().skip(1).take(3) {
            let v = match i {
                1 if keep > 0 => first - 1,
                2 => first,
                _ => c.h.start + u64::from(m.1) % (keep as u64 + 2),
            };
            let k = pick(&c.h.pool, m.2).unwrap();
            for q in queries::<H>(v, k, 100, m.3 as usize % 8) {
                out.push(run_op(&q, s)?);
            }
        }
        Ok(out)
    };
    let before = store.snap();
    let r0 = reads(&store)?;
    let mut first_results: BTreeMap<(usize, String), Out> = BTreeMap::new();
    // in a random order, several times
    for m in &c.muts {
        let i = m.1 as usize % alts.len();
        let ops = updates::<H>(first, alts[i]);
        let op = &ops[m.2 as usize % ops.len()];
        let got = run_op(op, &store)?;
        if let Out::One(Err(e)) = &got {
            // batch insertion needs the previous version
            if !(op.what.contains("entry point 3") && keep == 0 && first > 0) {
                fail!("{}: {e}", op.what);
            }
        }
        // on an untouched copy nothing else was ever computed on
        let fresh = Arc::new(store.fork());
        let want = run_op(op, &fresh)?;
        chk!(
            got == want,
            "{} depends on what was computed before",
            op.what
        );
        if let Some(f) = first_results.insert((i, op.what.clone()), got.clone()) {
            ctx.tag("updates computed again", 1);
            chk!(f == got, "{} computed again gives another result", op.what);
        }
        ctx.tag("updates computed and discarded", 1);
    }
    // the same tree object, several alternatives, every entry point
    let tree = JellyfishMerkleTree::<RefStore, H>::new(store.as_ref());
    for (j, m) in c.muts.iter().enumerate() {
        let a = alts[(m.2 as usize + j) % alts.len()];
        let mut mode = m.0 % 5;
        if mode == 3 && (keep == 0 || a.iter().any(|s| s.is_empty() || s.iter().any(|(_, v)| v.is_none()))) {
            mode = 0;
        }
        let what = || format!("update of {} versions from {first} (entry point {mode}) on a tree object used before", a.len());
        let (r, bt) = ok(call_on(&tree, first, a, mode), what())?;
        let (fr, fbt) = ok(call::<H, RefStore>(store.as_ref(), first, a, mode), what())?;
        chk!(bt == fbt && r == fr, "{} gives another result than on a fresh one", what());
        let mut mm = base_map.clone();
        for (s, r) in a.iter().zip(&r) {
            apply(&mut mm, s);
            chk!(*r == root::<H>(&mm), "{} has a wrong root hash", what());
        }
        if keep > 0 {
            let x = ok(tree.append_value_set(jset(&a[0]), first - 1), "append")?;
            let y = ok(
                JellyfishMerkleTree::<RefStore, H>::new(store.as_ref()).append_value_set(jset(&a[0]), first - 1),
                "append",
            )?;
            chk!(x == y, "append on a tree object used before gives another result than on a fresh one");
        }
    }
    // other bases on the same tree object, with reads between
    let mut genesis = Ok(());
    for m in c.muts.iter().take(5) {
        let at = m.3 as usize % (keep + 1);
        let v = c.h.start + at as u64;
        let base = if at == 0 { Map::new() } else { b.maps[at - 1].clone() };
        let a = alts[m.1 as usize % alts.len()];
        let mode = m.0 % 3;
        let what = || format!("update of {} versions from {v} (entry point {mode}) on a tree object used before for others", a.len());
        if let (Some(k), true) = (pick(&c.h.pool, m.2), keep > 0) {
            let w = c.h.start + u64::from(m.2) % keep as u64;
            let want = b.maps[(w - c.h.start) as usize].get(&k).map(|v| v.0.clone());
            chk!(ok(tree.get(k.kh(), w), "get")? == want, "value of {k:?} at {w} on a tree object used before");
            chk!(
                ok(tree.get_root_hash(w), "root")?.0 == b.roots[(w - c.h.start) as usize],
                "root hash of {w} on a tree object used before"
            );
        }
        // a call that fails half way leaves nothing behind
        if m.0 % 3 == 0 {
            store.arm(Some(u64::from(m.2 % 5)));
            let _ = crate::runner::guard(|| call_on(&tree, v, a, mode).is_ok());
            store.arm(None);
            ctx.tag("updates interrupted by a failing read", 1);
        }
        // compare known_findings.txt; reported behind everything else
        let exempt = v == 0 && keep > 0 && {
            let mut m = Map::new();
            a[0].iter().any(|o| {
                apply(&mut m, std::slice::from_ref(o));
                o.1.is_none() && m.is_empty()
            })
        };
        ctx.tag("updates from earlier bases", 1);
        let mut judge = || -> R {
            let (r, bt) = ok(crate::runner::guard(|| call_on(&tree, v, a, mode))?, what())?;
            let (fr, fbt) = ok(call::<H, RefStore>(store.as_ref(), v, a, mode), what())?;
            chk!(bt == fbt && r == fr, "{} gives another result than on a fresh one", what());
            let mut mm = base.clone();
            for (s, r) in a.iter().zip(&r) {
                apply(&mut mm, s);
                chk!(*r == root::<H>(&mm), "{} has a wrong root hash", what());
            }
            Ok(())
        };
        match judge() {
            Err(e) if exempt => {
                genesis = Err(format!("computing version 0 again on a store that holds it: {e}"));
            }
            r => r?,
        }
    }
    chk!(store.snap() == before, "computing updates changed the store");
    let r1 = reads(&store)?;
    chk!(r0 == r1, "a read changed after updates were computed but not committed");
    // commit one
    let i = c.muts[0].2 as usize % alts.len();
    let twin = RefStore::default();
    for k in &c.h.pool {
        twin.i.borrow_mut().preimages.insert(*k, k.0.to_vec());
    }
    build::<H, RefStore>(&h, &twin)?;
    let (_, x) = ok(tree.put_value_sets(alts[i].iter().map(jset), first), "update")?;
    let t2 = JellyfishMerkleTree::<RefStore, H>::new(&twin);
    let (_, y) = ok(t2.put_value_sets(alts[i].iter().map(jset), first), "update")?;
    chk!(x == y, "the committed alternative depends on the discarded ones");
    ok(store.commit(x), "committing")?;
    ok(twin.commit(y), "committing")?;
    if let Some(d) = store_diff(&store, &twin) {
        fail!("after committing one alternative, the discarded ones show: {d}");
    }
    let r1 = reads(&store)?;
    let r2 = reads(&Arc::new(twin))?;
    chk!(r1 == r2, "after committing one alternative, reads depend on the discarded ones");
    genesis
}

pub static C23: Def<Case> = Def {
    id: "C23",
    rule: "histories as for C01 split at a random point; the sets behind it are computed from there as alternatives (singly, in pairs, together; all entry points; repeatedly, in random order), then one is committed; reads of old, latest and future versions before and after; non-trivial: a history that deletes or overwrites, with two entries of the same first nibble, and an update computed more than once",
    assumptions: &[],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            muts: 10,
            max_versions: if t { 12 } else { 7 },
            bulk_max: if t { 200 } else { 40 },
            plans: false,
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        if c.h.sets.is_empty() {
            return Ok(());
        }
        let r = with_hasher!(c.h.hasher, c23(c, ctx));
        ctx.nontrivial = classify(&c.h, ctx) && ctx.tags.contains_key("updates computed again");
        r
    },
    quick: 20_000,
    thorough: 150_000,
};
