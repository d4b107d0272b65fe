//! C04, C07, C08: membership proofs and update proofs against adversaries.
use super::core::{classify, HIST_RULE};
use crate::env::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::{guard, Ctx, Def};
use crate::store::*;
use crate::{chk, fail, with_hasher};
use crate::hasher::RefHasher;
use jmt::{JellyfishMerkleTree, KeyHash, RootHash};

/// Material an adversary can build from: everything ever seen in honest proofs.
pub struct Pool {
    pub nodes: Vec<MNode>,
    pub leaves: Vec<(H32, H32)>,
    pub proofs: Vec<MProof>,
}
impl Pool {
    pub fn new<H: RefHasher>(maps: &[&Map], probes: &[K]) -> Pool {
        let mut p = Pool {
            nodes: vec![MNode::Null],
            leaves: vec![],
            proofs: vec![],
        };
        for m in maps {
            let all = leaves::<H>(m);
            p.leaves.extend(all.iter().take(40));
            for k in probes {
                p.proofs.push(proof::<H>(&all, &k.0));
            }
        }
        for q in p.proofs.iter().take(60) {
            p.nodes.extend(q.siblings.iter());
        }
        p.nodes.extend(p.leaves.iter().map(|(k, v)| MNode::Leaf(*k, *v)));
        p.nodes.dedup();
        p
    }
}

fn at(i: u16, n: usize) -> usize {
    (i as usize * n.max(1)) >> 16
}

pub fn mutate<H: RefHasher>(p: &mut MProof, m: &Mut, pool: &Pool, q: &K, vh: &H32) -> &'static str {
    let (op, a, b, c) = *m;
    let n = p.siblings.len();
    let node = |i: u16| pool.nodes[at(i, pool.nodes.len())];
    match op % 21 {
        0 if n > 0 => {
            p.siblings.remove(at(a, n));
            "sibling dropped"
        }
        1 => {
            p.siblings.insert(at(a, n + 1), node(b));
            "sibling inserted"
        }
        2 if n > 1 => {
            p.siblings.swap(at(a, n), at(b, n));
            "siblings swapped"
        }
        3 if n > 0 => {
            p.siblings[at(a, n)] = node(b);
            "sibling replaced"
        }
        4 if n > 0 => {
            let s = &mut p.siblings[at(a, n)];
            *s = match *s {
                MNode::Null => MNode::Internal(PLACEHOLDER, PLACEHOLDER),
                MNode::Internal(l, r) => MNode::Leaf(l, r),
                MNode::Leaf(k, v) => MNode::Internal(k, v),
            };
            "sibling of another kind"
        }
        5 if n > 0 => {
            match &mut p.siblings[at(a, n)] {
                MNode::Null => {}
                MNode::Internal(l, r) | MNode::Leaf(l, r) => {
                    let x = if b % 2 == 0 { l } else { r };
                    x[at(c, 32)] ^= 1 << (b % 8);
                }
            }
            "bit of a sibling flipped"
        }
        6 => {
            p.leaf = None;
            "leaf removed"
        }
        7 if !pool.leaves.is_empty() => {
            p.leaf = Some(pool.leaves[at(a, pool.leaves.len())]);
            "leaf of another key"
        }
        8 => {
            if let Some(l) = &mut p.leaf {
                l.0 = q.0;
            }
            "leaf renamed to the claimed key"
        }
        9 => {
            if let Some(l) = &mut p.leaf {
                l.1 = *vh;
            }
            "leaf given the claimed value"
        }
        10 => {
            p.leaf = Some((q.0, *vh));
            "leaf invented for the claim"
        }
        11 => {
            p.siblings.truncate(at(a, n + 1));
            "truncated"
        }
        12 => {
            let to = [255, 256, 257, 258, 300, 512][at(a, 6)];
            if n < to {
                let k = at(b, 3);
                let fill = if c % 2 == 0 { MNode::Null } else { node(c) };
                if k == 0 {
                    p.siblings.resize(to, fill);
                } else {
                    let mut v = vec![fill; to - n];
                    v.append(&mut p.siblings);
                    p.siblings = v;
                }
            }
            "over-long"
        }
        13 => {
            p.siblings.reverse();
            "reversed"
        }
        14 if !pool.proofs.is_empty() => {
            p.siblings = pool.proofs[at(a, pool.proofs.len())].siblings.clone();
            "siblings of another proof"
        }
        15 if !pool.proofs.is_empty() => {
            let o = &pool.proofs[at(a, pool.proofs.len())];
            let k = at(b, n.min(o.siblings.len()) + 1);
            let mut s: Vec<MNode> = o.siblings[..o.siblings.len() - k].to_vec();
            s.extend_from_slice(&p.siblings[n - k..]);
            p.siblings = s;
            "spliced with another proof"
        }
        16 => {
            p.siblings = vec![];
            "no siblings"
        }
        17 => {
            // push the leaf one level up or down
            if n > 0 && a % 2 == 0 {
                p.siblings.remove(0);
            } else {
                p.siblings.insert(0, MNode::Null);
            }
            "leaf moved by a level"
        }
        18 if n > 0 => {
            // present the bottom sibling as the proven leaf
            if let MNode::Leaf(k, v) = p.siblings[0] {
                let old = p.leaf;
                p.leaf = Some((k, v));
                p.siblings[0] = old.map_or(MNode::Null, |(k, v)| MNode::Leaf(k, v));
            }
            "leaf exchanged with its sibling"
        }
        19 if n > 0 => {
            // present an inner node as a leaf
            let i = at(a, n);
            if let MNode::Internal(l, r) = p.siblings[i] {
                p.leaf = Some((l, r));
                p.siblings.drain(..=i);
            }
            "inner node presented as leaf"
        }
        20 => {
            p.siblings.retain(|s| *s != MNode::Null);
            "empty siblings dropped"
        }
        _ => "unchanged",
    }
}

// ---------------------------------------------------------------- C04

fn c04<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let maps = maps_of(&c.h);
    let empty = Map::new();
    let mut ms: Vec<&Map> = maps.iter().rev().take(3).collect();
    ms.push(&empty);
    let roots: Vec<H32> = ms.iter().map(|m| root::<H>(m)).collect();
    let probes = probes(&c.h.pool, &c.muts[..4], 14);
    let pool = Pool::new::<H>(&ms, &probes);

    let mut values: Vec<V> = vec![V(vec![]), V(vec![0])];
    for m in &ms {
        for v in m.values().take(6) {
            if !values.contains(v) {
                values.push(v.clone());
            }
        }
    }
    values.truncate(6);

    // Is the statement "k has this value / is absent in map j" true?
    let mut rejected = 0u64;
    let mut attempt = |p: &MProof, j: usize, k: &K, claim: Option<&V>, how: &str| -> R {
        if ms[j].get(k) == claim {
            return Ok(());
        }
        rejected += 1;
        let jp = to_jmt::<H>(p);
        let rh = RootHash(roots[j]);
        let r = guard(|| match claim {
            Some(v) => [
                jp.verify_existence(rh, k.kh(), &v.0).is_ok(),
                jp.verify(rh, k.kh(), Some(&v.0)).is_ok(),
            ],
            None => [
                jp.verify_nonexistence(rh, k.kh()).is_ok(),
                jp.verify(rh, k.kh(), None::<&[u8]>).is_ok(),
            ],
        });
        match r {
            Ok([false, false]) => Ok(()),
            Ok(a) => Err(format!(
                "false statement {k:?} = {claim:?} (true: {:?}) accepted {a:?} with proof {how}: {p:?}",
                ms[j].get(k)
            )),
            Err(e) => Err(format!("{e} while verifying {k:?} = {claim:?} with proof {how}: {p:?}")),
        }
    };

    // 1. Honest proofs, of the code itself, offered for every other statement.
    let store = RefStore::default();
    let b = build::<H, RefStore>(&c.h, &store)?;
    let tree = JellyfishMerkleTree::<RefStore, H>::new(&store);
    for j in 0..ms.len() - 1 {
        let v = b.last_version() - j as u64;
        for k in probes.iter() {
            let (_, hp) = ok(tree.get_with_proof(k.kh(), v), "get_with_proof")?;
            let p = from_jmt::<H>(&hp);
            for q in &probes {
                if j > 0 && q != k {
                    continue;
                }
                attempt(&p, j, q, None, "of another statement")?;
                for x in values.iter().take(if q == k { 6 } else { 2 }) {
                    attempt(&p, j, q, Some(x), "of another statement")?;
                }
                if let Some(x) = ms[j].get(k) {
                    attempt(&p, j, q, Some(x), "of another statement")?;
                }
            }
            // the value the proof's leaf holds, claimed for the queried key
            if let Some((lk, _)) = p.leaf {
                if let Some(x) = ms[j].get(&K(lk)) {
                    attempt(&p, j, k, Some(x), "whose leaf is another key")?;
                }
            }
            for o in 0..ms.len() {
                attempt(&p, o, k, ms[j].get(k), "of another version")?;
            }
        }
    }

    // 2. Forged proofs.
    for (i, w) in c.muts.windows(3).enumerate() {
        let (op, x, y, z) = w[0];
        let j = if op & 7 == 7 { at(x, ms.len()) } else { 0 };
        let base = pool.proofs[at(y, pool.proofs.len())].clone();
        let mut q = match base.leaf {
            Some((k, _)) if op & 8 == 0 => K(k),
            _ => probes[at(z, probes.len())],
        };
        if op & 16 != 0 {
            q = probes[at(x, probes.len())];
        }
        let val = values[(i + z as usize) % values.len()].clone();
        let vh = H::reference(&val.0);
        let mut p = base;
        let how = mutate::<H>(&mut p, &w[1], &pool, &q, &vh);
        let how = if op & 32 != 0 {
            mutate::<H>(&mut p, &w[2], &pool, &q, &vh)
        } else {
            how
        };
        attempt(&p, j, &q, None, how)?;
        attempt(&p, j, &q, Some(&val), how)?;
        if let Some(x) = p.leaf.and_then(|l| ms[j].get(&K(l.0))) {
            attempt(&p, j, &q, Some(x), how)?;
        }
        for l in &p.leaf {
            attempt(&p, j, &K(l.0), None, how)?;
            attempt(&p, j, &K(l.0), Some(&val), how)?;
        }
        // a JSON proof object is judged like a binary one
        if i % 8 == 0 {
            let jp = to_jmt::<H>(&p);
            let s = serde_json::to_string(&jp).map_err(|e| e.to_string())?;
            let back: jmt::proof::SparseMerkleProof<H> =
                serde_json::from_str(&s).map_err(|e| format!("JSON of a proof: {e}"))?;
            chk!(back == jp, "JSON changes a proof");
        }
        ctx.tag(how, 1);
    }
    ctx.tag("false statements tried", rejected);
    Ok(())
}

pub static C04: Def<Case> = Def {
    id: "C04",
    rule: "trees from generated histories; every honest proof of up to 14 keys offered for every other statement (other key, value, absence, version), and forged proofs: honest ones with up to two of 21 kinds of changes, offered for claims that are false in the map; non-trivial: as for histories, and at least 50 false statements tried",
    assumptions: &["only statements that are false in the model map are required to be rejected"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            muts: if t { 120 } else { 60 },
            max_keys: if t { 18 } else { 12 },
            max_versions: 4,
            bulk_max: if t { 120 } else { 40 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        let r = with_hasher!(c.h.hasher, c04(c, ctx));
        let n = ctx.tags.get("false statements tried").copied().unwrap_or(0);
        ctx.nontrivial = classify(&c.h, ctx) && n >= 50;
        r
    },
    quick: 20_000,
    thorough: 60_000,
};

// ---------------------------------------------------------------- C07

type JU = Vec<(KeyHash, Option<Vec<u8>>)>;

fn c07<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let store = RefStore::default();
    let tree = JellyfishMerkleTree::<RefStore, H>::new(&store);
    let maps = maps_of(&c.h);
    let n = c.h.sets.len();
    let mut old = PLACEHOLDER;
    let mut prev = Map::new();
    let mut i = 0;
    let mut p = 0;
    while i < n {
        let len = if c.h.plan.is_empty() { 1 } else { c.h.plan[p % c.h.plan.len()].0.max(1) as usize };
        let single = len == 1 && p % 2 == 0;
        p += 1;
        let e = (i + len).min(n);
        let v = c.h.start + i as u64;
        let sets: Vec<JU> = c.h.sets[i..e].iter().map(jset).collect();
        let (rps, batch) = if single {
            let (r, u, b) = ok(tree.put_value_set_with_proof(sets[0].clone(), v), "put_value_set_with_proof")?;
            (vec![(r, u)], b)
        } else {
            ok(tree.put_value_sets_with_proof(sets.clone(), v), "put_value_sets_with_proof")?
        };
        chk!(rps.len() == e - i, "{} proofs for {} versions", rps.len(), e - i);
        for (d, (r, u)) in rps.into_iter().enumerate() {
            let want = root::<H>(&maps[i + d]);
            chk!(r.0 == want, "version {}: wrong root hash", v + d as u64);
            let up = &sets[d];
            let set = &c.h.sets[i + d];
            let mut m = prev.clone();
            for (k, x) in set {
                let t = match (m.contains_key(k), x) {
                    (true, Some(_)) => "overwrites",
                    (true, None) => "deletes",
                    (false, Some(_)) => "inserts",
                    (false, None) => "deletes of absent keys",
                };
                ctx.tag(t, 1);
                apply(&mut m, &[(*k, x.clone())]);
            }
            prev = m;
            let bytes = borsh::to_vec(&u).map_err(|e| e.to_string())?;
            let json = serde_json::to_vec(&u).map_err(|e| e.to_string())?;
            let u1: jmt::proof::UpdateMerkleProof<H> =
                ok(borsh::from_slice(&bytes), "binary update proof")?;
            let u2: jmt::proof::UpdateMerkleProof<H> =
                ok(serde_json::from_slice(&json), "JSON update proof")?;
            for (name, u) in [("", u), (" restored from bytes", u1), (" restored from JSON", u2)] {
                match guard(|| u.verify_update(RootHash(old), RootHash(want), up)) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => fail!(
                        "version {}: honest update proof{name} does not verify: {e:#}",
                        v + d as u64
                    ),
                    Err(e) => fail!("version {}: verifying the honest update proof{name}: {e}", v + d as u64),
                }
            }
            old = want;
        }
        ok(store.commit(batch), "commit")?;
        i = e;
    }
    Ok(())
}

pub static C07: Def<Case> = Def {
    id: "C07",
    rule: HIST_RULE,
    assumptions: &["the previous root hash of the first version is the placeholder hash"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            long: true,
            max_keys: if t { 24 } else { 14 },
            max_versions: if t { 14 } else { 8 },
            max_set: 9,
            bulk_max: if t { 300 } else { 60 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        ctx.nontrivial = classify(&c.h, ctx);
        with_hasher!(c.h.hasher, c07(c, ctx))
    },
    quick: 25_000,
    thorough: 300_000,
};

// ---------------------------------------------------------------- C08

/// Everything a careless verifier could compute as the root after one update.
fn lenient<H: RefHasher>(p: &MProof, q: &K, val: Option<&V>) -> Vec<H32> {
    let mut out = vec![PLACEHOLDER];
    if p.siblings.len() > 256 {
        return out;
    }
    let mut keys = vec![q.0];
    if let Some((k, _)) = p.leaf {
        keys.push(k);
    }
    let s = &p.siblings;
    match val {
        Some(v) => {
            let nl = leaf_hash::<H>(&q.0, &H::reference(&v.0));
            for k in &keys {
                out.push(fold::<H>(nl, k, s));
            }
            if let Some((k, vh)) = p.leaf {
                out.push(fold::<H>(leaf_hash::<H>(&k, &H::reference(&v.0)), &k, s));
                let cpl = K(k).common_bits(q);
                if cpl < 256 && cpl >= s.len() {
                    let mut t = vec![MNode::Leaf(k, vh)];
                    t.resize(1 + cpl - s.len(), MNode::Null);
                    t.extend_from_slice(s);
                    for k in &keys {
                        out.push(fold::<H>(nl, k, &t));
                    }
                }
                // split exactly at the sibling count, wherever the keys part
                let mut t = vec![MNode::Leaf(k, vh)];
                t.extend_from_slice(s);
                if t.len() <= 256 {
                    out.push(fold::<H>(nl, &q.0, &t));
                }
            }
        }
        None => {
            let first = s.iter().position(|x| *x != MNode::Null).unwrap_or(s.len());
            for k in &keys {
                out.push(fold::<H>(PLACEHOLDER, k, s));
                out.push(fold::<H>(PLACEHOLDER, k, &s[first..]));
                if let Some(l @ MNode::Leaf(..)) = s.get(first) {
                    let rest = s[first + 1..]
                        .iter()
                        .position(|x| *x != MNode::Null)
                        .map_or(s.len(), |x| x + first + 1);
                    out.push(fold::<H>(l.hash::<H>(), k, &s[rest..]));
                    out.push(fold::<H>(l.hash::<H>(), k, &s[first + 1..]));
                }
            }
            let cur = p.leaf.map_or(PLACEHOLDER, |(k, v)| leaf_hash::<H>(&k, &v));
            for k in &keys {
                out.push(fold::<H>(cur, k, s));
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

fn c08<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    // map 0 = all but the last set; the last set is the honest update
    let maps = maps_of(&c.h);
    let n = maps.len();
    let m0 = if n >= 2 { maps[n - 2].clone() } else { Map::new() };
    let set = &c.h.sets[n - 1];
    let older = if n >= 3 { maps[n - 3].clone() } else { Map::new() };
    let r0 = root::<H>(&m0);
    let probes = probes(&c.h.pool, &c.muts[..4], 14);
    // m_i = map before update i
    let mut ms = vec![m0.clone()];
    for u in set.iter().take(8) {
        let mut m = ms.last().unwrap().clone();
        apply(&mut m, std::slice::from_ref(u));
        ms.push(m);
    }
    let set: Set = set.iter().take(8).cloned().collect();
    let rs: Vec<H32> = ms.iter().map(|m| root::<H>(m)).collect();
    let rn = *rs.last().unwrap();
    let refs: Vec<&Map> = ms.iter().chain([&older]).collect();
    let pool = Pool::new::<H>(&refs, &probes);

    // The honest proofs of the code.
    let store = RefStore::default();
    let tree = JellyfishMerkleTree::<RefStore, H>::new(&store);
    let base: Set = m0.iter().map(|(k, v)| (*k, Some(v.clone()))).collect();
    let (_, b) = ok(tree.put_value_set(jset(&base), 0), "base")?;
    ok(store.commit(b), "commit")?;
    let (r, up, _) = ok(tree.put_value_set_with_proof(jset(&set), 1), "honest update")?;
    chk!(r.0 == rn, "honest update: wrong root");
    let honest = from_jmt_update::<H>(&up);

    let mut tried = 0u64;
    let mut attempt = |ps: &[MProof], us: &Set, x: H32, how: &str| -> R {
        let mut m = m0.clone();
        apply(&mut m, us);
        if root::<H>(&m) == x {
            return Ok(());
        }
        tried += 1;
        let jp = to_jmt_update::<H>(ps);
        let ju = jset(us);
        match guard(|| jp.verify_update(RootHash(r0), RootHash(x), &ju).is_ok()) {
            Ok(false) => Ok(()),
            Ok(true) => Err(format!(
                "update proof ({how}) accepted although the updates lead to another root; updates {us:?} claimed root {} proofs {ps:?}",
                hex::encode(x)
            )),
            Err(e) => Err(format!("{e} while verifying updates {us:?} with proofs ({how}) {ps:?}")),
        }
    };
    let mut cands: Vec<H32> = rs.clone();
    cands.push(root::<H>(&older));
    cands.push(PLACEHOLDER);
    cands.sort();
    cands.dedup();

    // honest proofs and updates, other roots
    for x in &cands {
        attempt(&honest, &set, *x, "honest, other root")?;
    }
    for (mi, w) in c.muts.windows(4).enumerate() {
        let (op, a, bb, cc) = w[0];
        let val = V(vec![(op % 5) + 1]);
        if op % 4 == 0 && !set.is_empty() {
            // tamper with the list of updates
            let mut us = set.clone();
            let mut ps = honest.clone();
            let i = at(a, us.len());
            let how = match w[1].0 % 9 {
                0 => {
                    us[i].1 = match us[i].1 {
                        Some(_) => None,
                        None => Some(val),
                    };
                    "update turned into its opposite"
                }
                1 => {
                    us[i].1 = Some(val);
                    "other value"
                }
                2 => {
                    us[i].0 = probes[at(bb, probes.len())];
                    "other key"
                }
                3 => {
                    us.remove(i);
                    "update missing"
                }
                4 => {
                    us.push((probes[at(bb, probes.len())], Some(val)));
                    "extra update without proof"
                }
                5 => {
                    us.remove(i);
                    ps.remove(i);
                    "update and its proof missing"
                }
                6 => {
                    let j = at(bb, us.len());
                    us.swap(i, j);
                    ps.swap(i, j);
                    "order changed"
                }
                7 => {
                    ps.remove(i);
                    "proof missing"
                }
                _ => {
                    let j = at(bb, us.len());
                    ps.swap(i, j);
                    "proofs exchanged"
                }
            };
            ctx.tag(how, 1);
            for x in &cands {
                attempt(&ps, &us, *x, how)?;
            }
            continue;
        }
        // a forged step at position i, followed by honest steps if it claims to change nothing
        let i = at(a, set.len() + 1);
        let m = &ms[i];
        let all = leaves::<H>(m);
        let k = probes[at(bb, probes.len())];
        let mut p = match w[1].1 % 8 {
            0 => MProof { leaf: None, siblings: vec![] },
            1 => MProof { leaf: proof::<H>(&all, &k.0).leaf, siblings: vec![] },
            2 => pool.proofs[at(w[1].2, pool.proofs.len())].clone(),
            _ => proof::<H>(&all, &k.0),
        };
        let q = match w[1].3 % 4 {
            0 => probes[at(cc, probes.len())],
            1 => p.leaf.map_or(k, |l| K(l.0)),
            _ => k,
        };
        let value = if op & 4 == 0 { Some(val) } else { None };
        let vh = value.as_ref().map_or(PLACEHOLDER, |v| H::reference(&v.0));
        let how = if op & 8 == 0 {
            "honest membership proof used for an update"
        } else {
            mutate::<H>(&mut p, &w[2], &pool, &q, &vh)
        };
        if op & 48 == 48 {
            mutate::<H>(&mut p, &w[3], &pool, &q, &vh);
        }
        ctx.tag(how, 1);
        let mut us: Set = set[..i].to_vec();
        us.push((q, value.clone()));
        let mut ps = honest[..i].to_vec();
        ps.push(p.clone());
        let mut ys = lenient::<H>(&p, &q, value.as_ref());
        if ys.len() <= 1 || mi % 4 == 0 {
            ys.extend(cands.iter());
        }
        ys.push(rs[i]);
        for y in &ys {
            attempt(&ps, &us, *y, how)?;
        }
        if i < set.len() {
            us.extend_from_slice(&set[i..]);
            ps.extend_from_slice(&honest[i..]);
            attempt(&ps, &us, rn, how)?;
        }
    }
    ctx.tag("false transitions tried", tried);
    Ok(())
}

pub static C08: Def<Case> = Def {
    id: "C08",
    rule: "a generated base map and update list; update lists tampered with (opposite, other key or value, missing, extra, reordered, exchanged proofs) and forged steps (honest membership proofs of any key, empty proofs, proofs with up to two of 21 kinds of changes) at any position, for claimed roots that include everything a verifier missing some check would compute; non-trivial: at least 50 false transitions tried on a base map of two or more entries",
    assumptions: &["only transitions that are false in the model are required to be rejected"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            muts: if t { 120 } else { 50 },
            max_keys: if t { 18 } else { 12 },
            max_versions: 4,
            max_set: 6,
            bulk_max: if t { 100 } else { 30 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        let r = with_hasher!(c.h.hasher, c08(c, ctx));
        let n = ctx.tags.get("false transitions tried").copied().unwrap_or(0);
        let maps = maps_of(&c.h);
        ctx.nontrivial = n >= 50 && maps.len() >= 2 && maps[maps.len() - 2].len() >= 2;
        r
    },
    quick: 8_000,
    thorough: 60_000,
};
