//! C15, C16: iteration and range proofs.
use super::core::{classify, HIST_RULE};
use super::proofs::{mutate, Pool};
use crate::env::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::{guard, Ctx, Def};
use crate::store::*;
use crate::{chk, with_hasher};
use crate::hasher::RefHasher;
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, RootHash};
use std::sync::Arc;

pub fn collect<R: jmt::storage::TreeReader>(
    it: JellyfishMerkleIterator<R>,
    max: usize,
    what: &dyn Fn() -> String,
) -> Result<Vec<(K, V)>, String> {
    let mut out = vec![];
    let mut it = it;
    while let Some(x) = it.next() {
        let (k, v) = ok(x, format!("{}: item {}", what(), out.len()))?;
        out.push((K(k.0), V(v)));
        chk!(out.len() <= max, "{}: more than {max} entries", what());
    }
    for _ in 0..2 {
        chk!(it.next().is_none(), "{}: entries after the end", what());
    }
    Ok(out)
}

fn c15<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let store = Arc::new(RefStore::default());
    let b = build::<H, RefStore>(&c.h, &store)?;
    let probes = probes(&c.h.pool, &c.muts, 14);
    let n = b.maps.len();
    for (i, (v, m)) in b.versions().enumerate() {
        if i + 3 < n && i % 3 != 0 {
            continue;
        }
        let all: Vec<(K, V)> = m.iter().map(|(k, v)| (*k, v.clone())).collect();
        for k in &probes {
            let what = || format!("iterating version {v} from {k:?}");
            let it = ok(JellyfishMerkleIterator::new(store.clone(), v, k.kh()), what())?;
            let got = collect(it, m.len(), &what)?;
            let s = all.partition_point(|(x, _)| x < k);
            chk!(got == all[s..], "{}: got {got:?}, expected {:?}", what(), &all[s..]);
            ctx.tag("iterations from an absent key", u64::from(!m.contains_key(k)));
        }
        let len = all.len();
        let mut idx: Vec<usize> = (0..=(len + 1).min(12)).collect();
        idx.extend([len.saturating_sub(1), len, len + 1, usize::MAX]);
        idx.extend(c.muts.iter().map(|x| (x.1 as usize * (len + 2)) >> 16));
        for s in idx {
            let what = || format!("iterating version {v} from index {s}");
            let it = ok(JellyfishMerkleIterator::new_by_index(store.clone(), v, s), what())?;
            let got = collect(it, m.len(), &what)?;
            let want = &all[s.min(len)..];
            chk!(got == want, "{}: got {got:?}, expected {want:?}", what());
        }
    }
    Ok(())
}

pub static C15: Def<Case> = Def {
    id: "C15",
    rule: HIST_RULE,
    assumptions: &[],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            muts: 6,
            max_keys: if t { 24 } else { 14 },
            max_versions: if t { 10 } else { 6 },
            bulk_max: if t { 300 } else { 60 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        ctx.nontrivial = classify(&c.h, ctx);
        with_hasher!(c.h.hasher, c15(c, ctx))
    },
    quick: 60_000,
    thorough: 200_000,
};

// ---------------------------------------------------------------- C16

/// True hashes of everything left of `k`, bottom up, and the right siblings.
pub fn range_parts<H: RefHasher>(all: &[(H32, H32)], k: &K) -> (Vec<H32>, Vec<MNode>) {
    let p = proof::<H>(all, &k.0);
    let n = p.siblings.len();
    let mut left = vec![];
    let mut right = vec![];
    for (i, s) in p.siblings.iter().enumerate() {
        if k.bit(n - 1 - i) {
            left.push(s.hash::<H>());
        } else {
            right.push(*s);
        }
    }
    (left, right)
}

fn leaf_of(k: &H32, vh: &H32) -> jmt::proof::SparseMerkleLeafNode {
    borsh::from_slice(&borsh::to_vec(&(*k, *vh)).unwrap()).expect("leaf")
}

fn c16<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let store = RefStore::default();
    let b = build::<H, RefStore>(&c.h, &store)?;
    let tree = JellyfishMerkleTree::<RefStore, H>::new(&store);
    let probes = probes(&c.h.pool, &c.muts, 14);
    let n = b.maps.len();
    let mut mi = 0usize;
    let mut muts = std::iter::repeat_with(|| {
        let m = c.muts[mi % c.muts.len()];
        let r = (mi / c.muts.len()) as u16;
        mi += 1;
        (m.0.wrapping_add(r as u8), m.1.wrapping_mul(2 * r + 1), m.2.wrapping_add(r << 8), m.3 ^ r)
    });
    let maps: Vec<&Map> = b.maps.iter().rev().take(2).collect();
    let pool = Pool::new::<H>(&maps, &probes);
    for (i, (v, m)) in b.versions().enumerate() {
        if i + 2 < n && i % 3 != 0 {
            continue;
        }
        let all = leaves::<H>(m);
        let root = subtree::<H>(&all, 0);
        for k in &probes {
            let r = tree.get_range_proof(k.kh(), v);
            let Some(val) = m.get(k) else {
                chk!(r.is_err(), "version {v}: range proof for absent key {k:?}");
                continue;
            };
            let p = ok(r, format!("range proof of {k:?} at {v}"))?;
            let vh = H::reference(&val.0);
            let (left, right) = range_parts::<H>(&all, k);
            let got: MRange = borsh::from_slice(&borsh::to_vec(&p).unwrap()).map_err(|e| e.to_string())?;
            chk!(
                got.right_siblings == right,
                "version {v}: range proof of {k:?} is {got:?}, expected {right:?}"
            );
            if let Err(e) = p.verify(RootHash(root), leaf_of(&k.0, &vh), left.clone()) {
                return Err(format!("version {v}: range proof of {k:?} does not verify: {e}"));
            }
            ctx.tag("range proofs", 1);
            // tampering
            for _ in 0..6 {
                let w = muts.next().unwrap();
                let w2 = muts.next().unwrap();
                let (mut l2, mut k2, mut vh2, mut root2) = (left.clone(), *k, vh, root);
                let mut p2 = MProof { leaf: None, siblings: right.clone() };
                let at = |i: u16, n: usize| (i as usize * n.max(1)) >> 16;
                let nl = l2.len();
                match w.0 % 13 {
                    0 if nl > 0 => l2[at(w.1, nl)][at(w.2, 32)] ^= 1 << (w.3 % 8),
                    1 if nl > 0 => {
                        l2.remove(at(w.1, nl));
                    }
                    2 => l2.insert(at(w.1, nl + 1), pool.nodes[at(w.2, pool.nodes.len())].hash::<H>()),
                    3 if nl > 1 => l2.swap(at(w.1, nl), at(w.2, nl)),
                    4 => k2.0[at(w.1, 32)] ^= 1 << (w.2 % 8),
                    5 => vh2[at(w.1, 32)] ^= 1 << (w.2 % 8),
                    6 => root2 = [PLACEHOLDER, subtree::<H>(&leaves::<H>(maps[maps.len() - 1]), 0)][at(w.1, 2)],
                    7 => {
                        // over-long in total
                        let to = [256usize, 257, 258, 300][at(w.1, 4)];
                        let miss = to.saturating_sub(nl + right.len());
                        if w.2 % 2 == 0 {
                            l2.extend(std::iter::repeat_n(PLACEHOLDER, miss));
                        } else {
                            p2.siblings.extend(std::iter::repeat_n(MNode::Null, miss));
                        }
                    }
                    8 | 9 if nl + right.len() > 0 => {
                        // elements of one side moved to the other, empty ones preferred:
                        // the total stays the same
                        let n = 1 + at(w.2, 2);
                        for j in 0..n {
                            if w.0 % 13 == 8 {
                                let e: Vec<usize> = (0..l2.len()).filter(|i| l2[*i] == PLACEHOLDER).collect();
                                let i = if e.is_empty() { at(w.1, l2.len()) } else { e[at(w.1, e.len())] };
                                if i < l2.len() {
                                    l2.remove(i);
                                    let to = if (w.3 as usize + j) % 2 == 0 { p2.siblings.len() } else { at(w.3, p2.siblings.len() + 1) };
                                    p2.siblings.insert(to, MNode::Null);
                                }
                            } else {
                                let e: Vec<usize> = (0..p2.siblings.len()).filter(|i| p2.siblings[*i] == MNode::Null).collect();
                                let i = if e.is_empty() { at(w.1, p2.siblings.len()) } else { e[at(w.1, e.len())] };
                                if i < p2.siblings.len() {
                                    p2.siblings.remove(i);
                                    let to = if (w.3 as usize + j) % 2 == 0 { l2.len() } else { at(w.3, l2.len() + 1) };
                                    l2.insert(to, PLACEHOLDER);
                                }
                            }
                        }
                    }
                    // only empty elements added or removed
                    10 => {
                        for _ in 0..1 + at(w.2, 3) {
                            l2.push(PLACEHOLDER);
                        }
                    }
                    11 => {
                        for _ in 0..1 + at(w.2, 3) {
                            p2.siblings.push(MNode::Null);
                        }
                    }
                    _ => {
                        mutate::<H>(&mut p2, &w2, &pool, k, &vh);
                    }
                }
                // a sibling written differently but with the same hash is the same proof
                let same_right = p2.siblings.len() == right.len()
                    && p2.siblings.iter().zip(&right).all(|(a, b)| a.hash::<H>() == b.hash::<H>());
                if same_right && l2 == left && k2 == *k && vh2 == vh && root2 == root {
                    continue;
                }
                ctx.tag("altered range proofs", 1);
                let jp = to_jmt_range::<H>(&MRange { right_siblings: p2.siblings.clone() });
                match guard(|| jp.verify(RootHash(root2), leaf_of(&k2.0, &vh2), l2.clone()).is_ok()) {
                    Ok(false) => {}
                    Ok(true) => {
                        return Err(format!(
                            "version {v}: altered range proof of {k:?} accepted: root {} leaf {k2:?} left {l2:?} right {:?}",
                            hex::encode(root2),
                            p2.siblings
                        ))
                    }
                    Err(e) => {
                        return Err(format!(
                            "{e} while verifying an altered range proof of {k:?}: {} left, {} right siblings",
                            l2.len(),
                            p2.siblings.len()
                        ))
                    }
                }
            }
        }
    }
    Ok(())
}

pub static C16: Def<Case> = Def {
    id: "C16",
    rule: HIST_RULE,
    assumptions: &["a sibling is different if its hash is different"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            muts: 24,
            max_keys: if t { 24 } else { 14 },
            max_versions: if t { 6 } else { 4 },
            bulk_max: if t { 300 } else { 60 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        ctx.nontrivial = classify(&c.h, ctx);
        with_hasher!(c.h.hasher, c16(c, ctx))
    },
    quick: 50_000,
    thorough: 150_000,
};
