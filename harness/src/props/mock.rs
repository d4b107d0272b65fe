//! C24: the bundled in-memory store.
use crate::env::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::{guard, Ctx, Def};
use crate::{chk, fail};
use jmt::mock::MockTreeStore;
use jmt::storage::*;
use jmt::{JellyfishMerkleTree, KeyHash, ValueHash};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// nodes (path nibbles, version, kind), values, stale records (index into all node keys, since)
    Write {
        nodes: Vec<(Vec<u8>, u64, u8)>,
        values: Vec<(u64, u8, Option<V>)>,
        stale: Vec<(u16, u64)>,
        with_stale: bool,
    },
    PutLeaf(Vec<u8>, u64, u8, V),
    Preimage(u8, V),
    Purge(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MCase {
    pub overwrite: bool,
    pub keys: Vec<K>,
    pub ops: Vec<Op>,
    /// internal nodes are taken from the tree of these entries
    pub src: Hist,
}

fn nk(p: &[u8], v: u64) -> NodeKey {
    NodeKey::new(v, p.iter().map(|n| (*n).into()).collect())
}

fn op() -> impl Strategy<Value = Op> {
    let ver = || prop_oneof![8 => 0u64..8, 1 => Just(u64::MAX), 1 => Just(1 << 40)];
    let path = || vec(0u8..16, 0..3);
    let node = (path(), ver(), 0u8..8);
    let val = (ver(), 0u8..16, prop_oneof![1 => Just(None), 3 => value(false).prop_map(Some)]);
    prop_oneof![
        12 => (vec(node, 0..4), vec(val, 0..4), vec((any::<u16>(), ver()), 0..3), any::<bool>())
            .prop_map(|(nodes, values, stale, with_stale)| Op::Write { nodes, values, stale, with_stale }),
        2 => (path(), ver(), 0u8..16, value(false)).prop_map(|(a, b, c, d)| Op::PutLeaf(a, b, c, d)),
        1 => (0u8..16, value(false)).prop_map(|(a, b)| Op::Preimage(a, b)),
        3 => ver().prop_map(Op::Purge),
    ]
}

#[derive(Default, Clone)]
struct Model {
    nodes: BTreeMap<NodeKey, Node>,
    values: BTreeMap<(K, u64), Option<V>>,
    stale: BTreeSet<(u64, NodeKey)>,
    pre: BTreeMap<K, V>,
}

fn compare(s: &MockTreeStore, m: &Model, seen: &BTreeSet<NodeKey>, keys: &[K]) -> R {
    chk!(
        s.num_nodes() == m.nodes.len(),
        "the store holds {} nodes, expected {}",
        s.num_nodes(),
        m.nodes.len()
    );
    for k in seen {
        let got = ok(s.get_node_option(k), "get_node_option")?;
        let want = m.nodes.get(k);
        chk!(got.as_ref() == want, "node {k:?} is {got:?}, expected {want:?}");
        match (s.get_node(k), want) {
            (Ok(n), Some(w)) if n == *w => {}
            (Err(_), None) => {}
            (r, _) => fail!("get_node({k:?}) gives {r:?}, expected {want:?}"),
        }
    }
    let versions: BTreeSet<u64> = m
        .values
        .keys()
        .flat_map(|(_, v)| [v.saturating_sub(1), *v, v.saturating_add(1)])
        .chain([0, u64::MAX])
        .collect();
    for k in keys {
        for v in &versions {
            let want = m
                .values
                .range((*k, 0)..=(*k, *v))
                .next_back()
                .and_then(|(_, x)| x.clone())
                .map(|x| x.0);
            let got = ok(s.get_value_option(*v, k.kh()), "get_value_option")?;
            chk!(got == want, "value of {k:?} at {v} is {got:?}, expected {want:?}");
            match (s.get_value(*v, k.kh()), &want) {
                (Ok(n), Some(w)) if n == *w => {}
                (Err(_), None) => {}
                (r, _) => fail!("get_value({k:?}, {v}) gives {r:?}, expected {want:?}"),
            }
        }
        let p = ok(s.preimage(k.kh()), "preimage")?;
        chk!(p == m.pre.get(k).map(|v| v.0.clone()), "preimage of {k:?} is {p:?}");
    }
    let greatest = m
        .nodes
        .values()
        .filter_map(|n| match n {
            Node::Leaf(l) => Some(l.key_hash()),
            _ => None,
        })
        .max();
    let got = ok(s.get_rightmost_leaf(), "get_rightmost_leaf")?;
    match (&got, greatest) {
        (None, None) => {}
        (Some((k, l)), Some(g)) => {
            chk!(l.key_hash() == g, "rightmost leaf is {l:?}, the greatest key is {g:?}");
            chk!(
                m.nodes.get(k) == Some(&Node::Leaf(l.clone())),
                "rightmost leaf {l:?} is not the node stored at {k:?}"
            );
        }
        _ => fail!("rightmost leaf is {got:?}, the greatest key is {greatest:?}"),
    }
    Ok(())
}

fn c24(c: &MCase, ctx: &mut Ctx) -> R {
    histories(c)?;
    let s = MockTreeStore::new(c.overwrite);
    let dflt = MockTreeStore::default();
    let s = if c.overwrite || c.ops.len() % 2 == 0 { &s } else { &dflt };
    let mut m = Model::default();
    let mut seen: BTreeSet<NodeKey> = BTreeSet::new();
    // some internal nodes to store
    let other = crate::store::RefStore::default();
    build::<crate::hasher::Sha, _>(&c.src, &other)?;
    let internals: Vec<Node> = {
        let i = other.i.borrow();
        let all: BTreeMap<_, _> = i.nodes.iter().collect();
        all.into_values().filter(|n| matches!(n, Node::Internal(_))).cloned().collect()
    };
    let key = |i: u8| c.keys[i as usize % c.keys.len()];
    let leaf = |i: u8, v: u64| LeafNode::new(KeyHash(key(i).0), ValueHash([v as u8; 32]));
    for o in &c.ops {
        match o {
            Op::Write { nodes, values, stale, with_stale } => {
                let mut nb = NodeBatch::default();
                let mut ns: BTreeMap<NodeKey, Node> = BTreeMap::new();
                for (p, v, kind) in nodes {
                    let n = match kind {
                        0 => Node::Null,
                        1 | 2 if !internals.is_empty() => internals[*v as usize % internals.len()].clone(),
                        k => Node::Leaf(leaf(*k + p.len() as u8, *v)),
                    };
                    let k = nk(p, *v);
                    seen.insert(k.clone());
                    ns.insert(k, n);
                }
                let vs: BTreeMap<(u64, KeyHash), Option<Vec<u8>>> = values
                    .iter()
                    .map(|(v, k, x)| ((*v, key(*k).kh()), x.as_ref().map(|x| x.0.clone())))
                    .collect();
                fill(&mut nb, &ns, &vs, nodes.len() + 3 * values.len() + 7 * stale.len() + usize::from(*with_stale))?;
                let mut next = m.clone();
                next.nodes.extend(ns.clone());
                for ((v, k), x) in &vs {
                    next.values.insert((K(k.0), *v), x.clone().map(V));
                }
                let clash = !c.overwrite && ns.keys().any(|k| m.nodes.contains_key(k));
                let back = vs.keys().any(|(v, k)| {
                    m.values.range((K(k.0), 0)..=(K(k.0), u64::MAX)).any(|((_, w), _)| w > v)
                });
                let mut refused = clash || back;
                let res = if *with_stale {
                    // sometimes a node that is not there (any more)
                    let gone: BTreeSet<&NodeKey> =
                        seen.iter().filter(|k| !next.nodes.contains_key(k)).collect();
                    let never = nk(&[stale.len() as u8, 3], stale.first().map_or(0, |s| s.1));
                    let mut all: Vec<&NodeKey> = next.nodes.keys().collect();
                    if stale.len() == 1 && stale[0].0 % 8 == 0 {
                        all = gone.into_iter().chain([&never]).collect();
                    }
                    let mut st = BTreeSet::new();
                    for (i, since) in stale {
                        if let Some(k) = pick(&all, *i) {
                            // once per node, as the tree guarantees
                            if m.stale.iter().all(|(_, x)| x != k || (m.stale.contains(&(*since, k.clone()))))
                                && st.iter().all(|x: &StaleNodeIndex| x.node_key != *k)
                            {
                                refused |= m.stale.contains(&(*since, k.clone()));
                                st.insert(StaleNodeIndex {
                                    stale_since_version: *since,
                                    node_key: k.clone(),
                                });
                            }
                        }
                    }
                    next.stale
                        .extend(st.iter().map(|x| (x.stale_since_version, x.node_key.clone())));
                    let b = TreeUpdateBatch {
                        node_batch: nb,
                        stale_node_index_batch: st,
                        node_stats: vec![],
                    };
                    guard(|| s.write_tree_update_batch(b).is_ok())
                } else {
                    guard(|| s.write_node_batch(&nb).is_ok())
                };
                if refused {
                    chk!(
                        res != Ok(true),
                        "a batch is accepted that {}: {o:?}",
                        if clash { "replaces a stored node" } else if back { "writes a value older than the newest" } else { "repeats a stale record" }
                    );
                    ctx.tag("batches refused for replacing a node", u64::from(clash));
                    ctx.tag("batches refused for an old value", u64::from(back && !clash));
                } else {
                    chk!(res == Ok(true), "a correct batch is refused ({res:?}): {o:?}");
                    m = next;
                    ctx.tag("batches written", 1);
                }
            }
            Op::PutLeaf(p, v, i, x) => {
                let k = nk(p, *v);
                seen.insert(k.clone());
                let l = leaf(*i, *v);
                let kk = key(*i);
                let back = m.values.range((kk, 0)..=(kk, u64::MAX)).any(|((_, w), _)| w > v);
                let refused = m.nodes.contains_key(&k) || back;
                let res = s.put_leaf(k.clone(), l.clone(), x.0.clone());
                chk!(
                    res.is_err() == refused,
                    "put_leaf gives {res:?}, expected {}",
                    if refused { "an error" } else { "success" }
                );
                if !refused {
                    m.nodes.insert(k, Node::Leaf(l));
                    m.values.insert((kk, *v), Some(x.clone()));
                }
            }
            Op::Preimage(i, x) => {
                s.put_key_preimage(key(*i).kh(), &x.0);
                m.pre.insert(key(*i), x.clone());
            }
            Op::Purge(v) => {
                let due: Vec<(u64, NodeKey)> =
                    m.stale.iter().filter(|(w, _)| w <= v).cloned().collect();
                let missing = due.iter().any(|(_, k)| !m.nodes.contains_key(k));
                let res = s.purge_stale_nodes(*v);
                chk!(
                    res.is_err() == missing,
                    "purging up to {v} gives {res:?} with {} records due, {}",
                    due.len(),
                    if missing { "one of a missing node" } else { "all of stored nodes" }
                );
                if missing {
                    ctx.tag("purges reporting a missing node", 1);
                    return Ok(());
                }
                ctx.tag("nodes purged", due.len() as u64);
                for d in due {
                    m.nodes.remove(&d.1);
                    m.stale.remove(&d);
                }
            }
        }
        compare(s, &m, &seen, &c.keys).map_err(|e| format!("after {o:?}: {e}"))?;
    }
    Ok(())
}

type Nodes = BTreeMap<NodeKey, Node>;
type Values = BTreeMap<(u64, KeyHash), Option<Vec<u8>>>;

/// Fills a batch in one of several ways; a batch is a pair of maps.
/// The value histories the store is made of, filled by the public function in the order of the case.
fn histories(c: &MCase) -> R {
    let mut real = Default::default();
    let mut want: BTreeMap<K, Vec<(u64, Option<Vec<u8>>)>> = BTreeMap::new();
    for op in &c.ops {
        let Op::Write { values, .. } = op else { continue };
        for (v, k, x) in values {
            let k = c.keys[*k as usize % c.keys.len()];
            let x = x.as_ref().map(|x| x.0.clone());
            let h = want.entry(k).or_default();
            let good = h.last().map_or(true, |(w, _)| w <= v);
            if good {
                if h.last().is_some_and(|(w, _)| w == v) {
                    h.pop();
                }
                h.push((*v, x.clone()));
            }
            let got = jmt::mock::put_value(&mut real, *v, k.kh(), x);
            chk!(got.is_ok() == good, "pushing a value of {k:?} at {v} gives {got:?}");
        }
    }
    for (k, h) in &want {
        chk!(real.get(&k.kh()) == Some(h), "value history of {k:?} is {:?}, expected {h:?}", real.get(&k.kh()));
    }
    chk!(real.len() == want.len(), "{} value histories, expected {}", real.len(), want.len());
    Ok(())
}

fn fill(nb: &mut NodeBatch, ns: &Nodes, vs: &Values, how: usize) -> R {
    let mut at = 0;
    // earlier, other entries for a part of the keys; the later entry of a key counts
    let old_n = |odd: usize| -> Nodes {
        ns.keys().enumerate().filter(|(i, _)| i % 2 == odd).map(|(_, k)| (k.clone(), Node::Null)).collect()
    };
    let old_v = |odd: usize| -> Values {
        vs.iter()
            .enumerate()
            .filter(|(i, _)| i % 2 == odd)
            .map(|(i, (k, x))| (*k, if x.is_none() || i % 4 < 2 { Some(vec![1, 2, 3, 4, i as u8]) } else { None }))
            .collect()
    };
    match how % 5 {
        0 => nb.extend(ns.clone(), vs.clone()),
        1 => {
            let mut other = NodeBatch::new(BTreeMap::new(), vs.clone());
            for (k, n) in ns {
                chk!(nb.insert_node(k.clone(), Node::Null).is_none(), "a batch holds {k:?} already");
                at += 1;
                chk!(nb.nodes().len() == at, "a batch of {at} nodes has {}", nb.nodes().len());
                chk!(
                    nb.insert_node(k.clone(), n.clone()) == Some(Node::Null),
                    "inserting {k:?} again does not return the earlier node"
                );
            }
            for ((v, k), x) in vs {
                nb.insert_value(*v, *k, vec![0, 9]);
                match x {
                    Some(x) => nb.insert_value(*v, *k, x.clone()),
                    None => nb.extend(None, Some(((*v, *k), None))),
                }
            }
            if how % 2 == 0 {
                other.merge(nb.clone());
                *nb = other;
            } else {
                nb.merge(other);
            }
        }
        2 => {
            nb.insert_value(7, KeyHash([9; 32]), vec![1]);
            chk!(!nb.is_empty(), "a batch with a value is empty");
            nb.clear();
            chk!(nb.is_empty(), "a cleared batch is not empty");
            nb.insert_node(nk(&[1, 2, 3], 1), Node::Null);
            chk!(!nb.is_empty(), "a batch with a node is empty");
            nb.clear();
            *nb = NodeBatch::new(ns.clone(), nb.values().clone());
            nb.extend(vec![], vs.clone());
        }
        3 => {
            *nb = NodeBatch::new(old_n(how % 2), old_v(how / 2 % 2));
            nb.extend(ns.clone(), vs.clone());
        }
        _ => {
            // one part before the merge, one by it, and one that it replaces
            let odd = how / 5 % 2;
            let keep_n: Nodes = ns.iter().enumerate().filter(|(i, _)| i % 2 != odd).map(|(_, (k, n))| (k.clone(), n.clone())).collect();
            let keep_v: Values = vs.iter().enumerate().filter(|(i, _)| i % 2 != odd).map(|(_, (k, x))| (*k, x.clone())).collect();
            nb.extend(keep_n, keep_v);
            nb.extend(old_n(odd), old_v(odd));
            let rest_n: Nodes = ns.iter().enumerate().filter(|(i, _)| i % 2 == odd).map(|(_, (k, n))| (k.clone(), n.clone())).collect();
            let rest_v: Values = vs.iter().enumerate().filter(|(i, _)| i % 2 == odd).map(|(_, (k, x))| (*k, x.clone())).collect();
            nb.merge(NodeBatch::new(rest_n, rest_v));
        }
    }
    chk!(nb.nodes() == ns && nb.values() == vs, "a batch filled with {ns:?} and {vs:?} holds {nb:?}");
    chk!(
        nb.is_empty() == (ns.is_empty() && vs.is_empty()),
        "is_empty() of a batch of {} nodes and {} values",
        ns.len(),
        vs.len()
    );
    for k in ns.keys().chain([&nk(&[5, 5, 5, 5], 3)]) {
        chk!(nb.get_node(k) == ns.get(k), "node {k:?} of a batch is {:?}", nb.get_node(k));
    }
    Ok(())
}

/// A real tree on the bundled store against the independent one.
fn twin(c: &MCase) -> R {
    let (a, b) = (MockTreeStore::default(), crate::store::RefStore::default());
    let x = build::<crate::hasher::Sha, _>(&c.src, &a)?;
    let y = build::<crate::hasher::Sha, _>(&c.src, &b)?;
    chk!(x.roots == y.roots, "other root hashes on the bundled store");
    let last = x.last_version();
    ok(a.purge_stale_nodes(last), "purging")?;
    ok(crate::store::Backing::purge(&b, last), "purging")?;
    chk!(
        a.num_nodes() == b.node_keys().len(),
        "{} nodes left in the bundled store, {} in the independent one",
        a.num_nodes(),
        b.node_keys().len()
    );
    for k in b.node_keys() {
        chk!(
            ok(a.get_node_option(&k), "node")?.as_ref() == b.i.borrow().nodes.get(&k),
            "node {k:?} differs"
        );
    }
    let t = JellyfishMerkleTree::<_, crate::hasher::Sha>::new(&a);
    if let Some(m) = x.maps.last() {
        for (k, v) in m.iter().take(4) {
            chk!(
                ok(t.get(k.kh(), last), "get")? == Some(v.0.clone()),
                "value of {k:?} differs"
            );
        }
    }
    Ok(())
}

pub static C24: Def<MCase> = Def {
    id: "C24",
    rule: "up to 25 operations (batches with nodes of all kinds, values at versions going back and forth, stale records; single leaves; preimages; purges) on the bundled store against a map model, compared completely after each; plus a real history on it and on the independent store; non-trivial: at least 4 operations with at least two written batches",
    assumptions: &["a node is recorded stale at most once, as updates guarantee (C12)"],
    level: "exploration",
    strategy: |t| {
        (
            any::<bool>(),
            vec(any::<[u8; 32]>().prop_map(K), 1..8),
            vec(op(), 1..if t { 60 } else { 25 }),
            hist(Cfg { max_versions: 4, bulk: 0, ..Cfg::default() }),
        )
            .prop_map(|(overwrite, keys, ops, src)| MCase { overwrite, keys, ops, src })
            .boxed()
    },
    check: |c, ctx| {
        let r = c24(c, ctx).and_then(|_| twin(c));
        ctx.nontrivial = c.ops.len() >= 4 && ctx.tags.get("batches written").is_some_and(|n| *n >= 2);
        r
    },
    quick: 70_000,
    thorough: 300_000,
};
