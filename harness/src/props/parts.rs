//! C27: the pieces a store handles (paths, node keys, nodes) against plain sequences.
use super::core::classify;
use crate::chk;
use crate::env::*;
use crate::gen::*;
use crate::hasher::RefHasher;
use crate::model::*;
use crate::runner::{guard, Ctx, Def};
use crate::store::*;
use crate::with_hasher;
use jmt::storage::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn path(n: &[u8]) -> NibblePath {
    n.iter().map(|x| (*x).into()).collect()
}
fn hashed<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn bits_of(n: &[u8]) -> Vec<bool> {
    n.iter().flat_map(|x| (0..4).map(move |i| x >> (3 - i) & 1 == 1)).collect()
}

// The iterator's type has no public name, hence a macro: what an iterator over `n`, advanced by
// `j`, says about itself.
macro_rules! parts {
    ($it:expr, $n:expr, $j:expr) => {{
        let (it, n, j): (_, &[u8], usize) = (&$it, $n, $j);
        let v: Vec<u8> = it.visited_nibbles().map(u8::from).collect();
        chk!(v == &n[..j], "iterator over {n:x?} advanced by {j} has visited {v:x?}");
        let v: Vec<u8> = it.remaining_nibbles().map(u8::from).collect();
        chk!(v == &n[j..], "iterator over {n:x?} advanced by {j} has {v:x?} left");
        let v: Vec<u8> = it.clone().map(u8::from).collect();
        chk!(v == &n[j..], "iterator over {n:x?} advanced by {j} gives {v:x?}");
        let v: Vec<bool> = it.bits().collect();
        chk!(v == bits_of(&n[j..]), "iterator over {n:x?} advanced by {j} has the bits {v:?} left");
        chk!(it.num_nibbles() == n.len(), "iterator over {n:x?} advanced by {j} covers {} nibbles", it.num_nibbles());
        chk!(it.is_finished() == (j == n.len()), "iterator over {n:x?} advanced by {j}: is_finished {}", it.is_finished());
        let w = it.get_nibble_path();
        chk!(w == path(n) && nibs(&w) == n, "iterator over {n:x?} advanced by {j} stands for the path {w:?}");
    }};
}

/// Everything a path says about itself.
fn one_path(p: &NibblePath, n: &[u8], m: &Mut) -> R {
    let l = n.len();
    chk!(p.num_nibbles() == l, "path of {l} nibbles {n:x?} has num_nibbles {}", p.num_nibbles());
    chk!(p.is_empty() == n.is_empty(), "path {n:x?}: is_empty {}", p.is_empty());
    chk!(p.last().map(u8::from) == n.last().copied(), "path {n:x?}: last nibble {:?}", p.last().map(u8::from));
    for (i, x) in n.iter().enumerate() {
        let y = u8::from(p.get_nibble(i));
        chk!(y == *x, "path {n:x?}: nibble {i} reads as {y:x}");
    }
    chk!(nibs(p) == n, "path {n:x?} is iterated as {:x?}", nibs(p));
    let want = bits_of(n);
    let got: Vec<bool> = p.bits().collect();
    chk!(got == want, "path {n:x?}: bits read as {got:?}");
    let mut got: Vec<bool> = p.bits().rev().collect();
    got.reverse();
    chk!(got == want, "path {n:x?}: bits read backwards as {got:?}");
    // from both ends
    let mut it = p.bits();
    let (mut a, mut b) = (0, want.len());
    let mut x = u64::from(m.1) * 0x1_0001 + u64::from(m.2);
    while a <= b {
        let (got, exp) = if splitmix(&mut x) % 2 == 0 {
            let e = (a < b).then(|| want[a]);
            a += 1;
            (it.next(), e)
        } else {
            let e = (a < b).then(|| want[b - 1]);
            b = b.wrapping_sub(1);
            (it.next_back(), e)
        };
        chk!(got == exp, "path {n:x?}: bits read from both ends give {got:?} instead of {exp:?}");
        if b == usize::MAX {
            break;
        }
    }
    // an iterator that has advanced
    let j = m.2 as usize % (l + 1);
    let mut it = p.nibbles();
    for x in &n[..j] {
        chk!(!it.is_finished(), "path {n:x?}: iterator finished early");
        let y = it.next().map(u8::from);
        chk!(y == Some(*x), "path {n:x?}: iterator gives {y:x?}");
    }
    parts!(it, n, j);
    // and one over what it has left
    let mut rest = it.remaining_nibbles();
    let k = j + m.3 as usize % (l - j + 1);
    for x in &n[j..k] {
        let y = rest.next().map(u8::from);
        chk!(y == Some(*x), "path {n:x?}: iterator over the rest gives {y:x?}");
    }
    parts!(rest, &n[j..], k - j);
    let end = it.visited_nibbles();
    parts!(end, &n[..j], 0);
    Ok(())
}


/// Order, equality and hash of node keys (and paths).
fn two_keys(a: &(NodeKey, u64, Vec<u8>), b: &(NodeKey, u64, Vec<u8>)) -> R {
    let model = |x: &(NodeKey, u64, Vec<u8>)| (x.1, x.2.len(), x.2.clone());
    let (ma, mb) = (model(a), model(b));
    let (ka, kb) = (&a.0, &b.0);
    chk!(ka.cmp(kb) == ma.cmp(&mb), "{ka:?} and {kb:?} compare as {:?}", ka.cmp(kb));
    chk!(ka.partial_cmp(kb) == Some(ma.cmp(&mb)), "{ka:?} and {kb:?} compare partially as {:?}", ka.partial_cmp(kb));
    chk!((ka == kb) == (ma == mb), "{ka:?} == {kb:?} is {}", ka == kb);
    let (pa, pb) = (ka.nibble_path(), kb.nibble_path());
    let want = (ma.1, &ma.2).cmp(&(mb.1, &mb.2));
    chk!(pa.cmp(pb) == want, "paths {pa:?} and {pb:?} compare as {:?}", pa.cmp(pb));
    chk!((pa == pb) == want.is_eq(), "paths {pa:?} == {pb:?} is {}", pa == pb);
    if ka == kb {
        chk!(hashed(ka) == hashed(kb), "{ka:?} and {kb:?} are equal but hash differently");
    }
    if pa == pb {
        chk!(hashed(pa) == hashed(pb), "paths {pa:?} and {pb:?} are equal but hash differently");
    }
    Ok(())
}

/// hash, version, leaf?, leaf count
pub type Kid = (H32, u64, bool, usize);

pub fn slots<H: RefHasher>(k: &[Option<Kid>]) -> H32 {
    let n: Vec<&Kid> = k.iter().flatten().collect();
    if n.is_empty() {
        PLACEHOLDER
    } else if n.len() == 1 && (k.len() == 1 || n[0].2) {
        n[0].0
    } else {
        let h = k.len() / 2;
        inner_hash::<H>(&slots::<H>(&k[..h]), &slots::<H>(&k[h..]))
    }
}

/// What an internal node says about its children; `kids` is what it must hold.
fn one_node<H: RefHasher>(node: &Node, kids: &[Option<Kid>], key: &NodeKey) -> R {
    let Node::Internal(n) = node else { return Ok(()) };
    let all: Vec<(u8, Kid)> = (0u8..16).filter_map(|i| kids[i as usize].map(|k| (i, k))).collect();
    macro_rules! kid {
        ($c:expr) => {
            ($c.hash, $c.version, $c.is_leaf(), $c.leaf_count())
        };
    }
    for i in 0u8..16 {
        let c = n.child(i.into()).map(|c| kid!(c));
        chk!(c == kids[i as usize], "child {i:x} is {c:?}, expected {:?}", kids[i as usize]);
    }
    let got: Vec<(u8, Kid)> = n.children_sorted().map(|(i, c)| (u8::from(i), kid!(c))).collect();
    chk!(got == all, "sorted children are {got:?}, expected {all:?}");
    let mut got: Vec<(u8, Kid)> = n.children_unsorted().map(|(i, c)| (u8::from(i), kid!(c))).collect();
    got.sort();
    chk!(got == all, "children are {got:?}, expected {all:?}");
    let total: usize = all.iter().map(|(_, k)| k.3).sum();
    chk!(n.leaf_count() == total, "leaf count {}, the children have {total}", n.leaf_count());
    let want = all.iter().fold((0u16, 0u16), |(e, l), (i, k)| (e | 1 << i, l | u16::from(k.2) << i));
    let got = n.generate_bitmaps();
    chk!(got == want, "bitmaps {got:x?}, expected {want:x?}");
    let h = n.hash::<H>();
    chk!(h == slots::<H>(kids), "node hash {} differs from that of its children", hex::encode(h));
    for i in 0u8..16 {
        let mut want = None;
        for w in [8u8, 4, 2, 1] {
            let s = i / w * w;
            let r: Vec<&(u8, Kid)> = all.iter().filter(|(j, _)| *j >= s && *j < s + w).collect();
            if r.is_empty() {
                break;
            }
            if r.len() == 1 && (w == 1 || r[0].1 .2) {
                let mut p = nibs(key.nibble_path());
                p.push(r[0].0);
                want = Some(NodeKey::new(r[0].1 .1, path(&p)));
                break;
            }
        }
        let got = n.get_only_child_without_siblings(key, i.into());
        chk!(got == want, "the only child around {i:x} is {got:?}, expected {want:?}");
    }
    Ok(())
}

fn c27<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let store = RefStore::default();
    build::<H, _>(&c.h, &store)?;
    let snap = store.snap();
    let mut muts = c.muts.iter().cycle();
    // keys under which nodes are stored, and paths of every length
    let mut keys: Vec<(NodeKey, u64, Vec<u8>)> =
        snap.0.keys().map(|k| (k.clone(), k.version(), nibs(k.nibble_path()))).collect();
    let stored = keys.len();
    for m in c.muts.iter() {
        let k = pick(&c.h.pool, m.1).unwrap_or(K([m.0; 32]));
        let l = if m.0 % 4 == 0 { 58 + m.2 as usize % 7 } else { m.2 as usize % 65 };
        let n: Vec<u8> = (0..l).map(|i| k.nib(i)).collect();
        let v = [0, 1, u64::MAX, 1 << 32, c.h.start, u64::from(m.3)][m.3 as usize % 6];
        keys.push((NodeKey::new(v, path(&n)), v, n.clone()));
        // the same path made in another way
        let again = guard(|| path(&k.0.iter().flat_map(|b| [b >> 4, b & 15]).collect::<Vec<u8>>()))?;
        let mut it = again.nibbles();
        let skip = m.1 as usize % (65 - l);
        for _ in 0..skip {
            it.next();
        }
        let mut part = it.remaining_nibbles();
        for _ in 0..l {
            part.next();
        }
        let p = part.visited_nibbles().get_nibble_path();
        let want: Vec<u8> = (0..l).map(|i| k.nib(skip + i)).collect();
        keys.push((NodeKey::new(v, p), v, want));
    }
    for (k, v, n) in &keys {
        chk!(k.version() == *v, "{k:?}: version {}", k.version());
        guard(|| one_path(k.nibble_path(), n, muts.next().unwrap()))??;
    }
    for (i, a) in keys.iter().enumerate() {
        two_keys(a, a)?;
        if let Some(b) = keys.get(i + 1) {
            two_keys(a, b)?;
        }
        let m = muts.next().unwrap();
        two_keys(a, &keys[m.1 as usize % keys.len()])?;
        // the same path, and a path that differs in one place
        let v = if m.0 % 2 == 0 { a.1 } else { u64::from(m.2) };
        let mut n = a.2.clone();
        two_keys(a, &(NodeKey::new(v, path(&n)), v, n.clone()))?;
        if !n.is_empty() {
            let at = m.2 as usize % n.len();
            n[at] = (m.3 % 16) as u8;
            two_keys(a, &(NodeKey::new(v, path(&n)), v, n.clone()))?;
            n.truncate(at);
            two_keys(a, &(NodeKey::new(v, path(&n)), v, n.clone()))?;
        }
    }
    // a sorted collection of keys gives the nodes of a version from the root downwards
    let mut nodes = 0;
    for (k, node) in &snap.0 {
        match node {
            Node::Internal(n) => {
                let kids: Vec<Option<Kid>> = (0u8..16)
                    .map(|i| {
                        let c = n.child(i.into())?;
                        Some((c.hash, c.version, c.is_leaf(), c.leaf_count()))
                    })
                    .collect();
                guard(|| one_node::<H>(node, &kids, k))?.map_err(|e| format!("stored node {k:?}: {e}"))?;
                nodes += 1;
                for (i, kid) in kids.iter().enumerate() {
                    let Some(kid) = kid else { continue };
                    let mut p = nibs(k.nibble_path());
                    p.push(i as u8);
                    let below = snap.0.get(&NodeKey::new(kid.1, path(&p)));
                    let want = match below {
                        Some(Node::Leaf(l)) => Some((l.hash::<H>(), true, 1)),
                        Some(Node::Internal(i)) => Some((i.hash::<H>(), false, i.leaf_count())),
                        _ => None,
                    };
                    chk!(
                        want == Some((kid.0, kid.2, kid.3)),
                        "node {k:?} has the child {kid:?} at {i:x}, stored is {want:?}"
                    );
                }
            }
            Node::Leaf(l) => {
                let key = l.key_hash();
                let all = K(key.0);
                let n = nibs(k.nibble_path());
                chk!(n.iter().enumerate().all(|(i, x)| all.nib(i) == *x), "leaf {l:?} stored at {k:?}");
            }
            Node::Null => chk!(k.nibble_path().is_empty(), "empty node stored at {k:?}"),
        }
    }
    // leaves
    for (k, v) in c.h.sets.iter().flatten() {
        let Some(v) = v else { continue };
        let vh = jmt::ValueHash(H::reference(&v.0));
        let l = LeafNode::new(k.kh(), vh);
        chk!(l.key_hash() == k.kh(), "leaf made for {k:?} has the key {:?}", l.key_hash());
        chk!(l.hash::<H>() == leaf_hash::<H>(&k.0, &vh.0), "leaf of {k:?} has another hash");
    }
    // nodes with other children than a small history gives, if they are laid out as known
    let sample = snap.0.iter().find(|(_, n)| matches!(n, Node::Internal(_)));
    let mut made = 0;
    if let Some((_, sample)) = sample {
        for m in c.muts.iter() {
            let mut x = u64::from(m.1) << 32 | u64::from(m.2) << 16 | u64::from(m.3);
            let mask = splitmix(&mut x) as u16 & if m.0 % 2 == 0 { u16::MAX } else { splitmix(&mut x) as u16 };
            let mask = if m.0 % 7 == 0 { 1 << (m.3 % 16) } else { mask };
            let leafs = if mask.count_ones() < 2 { 0 } else { [splitmix(&mut x) as u16, u16::MAX, 0][m.0 as usize % 3] };
            let mut kids: Vec<Option<Kid>> = vec![None; 16];
            for i in 0..16 {
                if mask >> i & 1 == 1 {
                    let leaf = leafs >> i & 1 == 1;
                    let mut h = [0u8; 32];
                    for b in h.chunks_mut(8) {
                        b.copy_from_slice(&splitmix(&mut x).to_be_bytes());
                    }
                    let n = if leaf { 1 } else { 2 + (splitmix(&mut x) >> (30 + splitmix(&mut x) % 34)) as usize };
                    kids[i] = Some((h, splitmix(&mut x) >> (splitmix(&mut x) % 64), leaf, n));
                }
            }
            if mask == 0 {
                continue;
            }
            let Some(node) = assemble(sample, &kids)? else {
                ctx.tag("internal nodes of unknown layout", 1);
                break;
            };
            let p: Vec<u8> = c.h.pool.first().map(|k| (0..m.2 as usize % 64).map(|i| k.nib(i)).collect()).unwrap_or_default();
            let key = NodeKey::new(u64::from(m.1), path(&p));
            guard(|| one_node::<H>(&node, &kids, &key))?.map_err(|e| format!("node with children {mask:x}, leaves {leafs:x}: {e}"))?;
            made += 1;
        }
    }
    ctx.tag("node keys", keys.len() as u64);
    ctx.tag("paths of 60 nibbles or more", keys.iter().filter(|k| k.2.len() >= 60).count() as u64);
    ctx.tag("paths of an odd number of nibbles", keys.iter().filter(|k| k.2.len() % 2 == 1).count() as u64);
    ctx.tag("stored internal nodes", nodes);
    ctx.tag("assembled internal nodes", made);
    ctx.nontrivial = classify(&c.h, ctx) && stored >= 4 && nodes >= 1;
    Ok(())
}

/// An internal node with the given children, through its JSON form.
pub fn assemble(sample: &Node, kids: &[Option<Kid>]) -> Result<Option<Node>, String> {
    let mut js = serde_json::to_value(sample).map_err(|e| e.to_string())?;
    let n = &mut js["Internal"];
    if n.get("leaf_count").is_none() || n["children"].get("num_children").is_none() || n["children"]["children"].as_array().map(|a| a.len()) != Some(16) {
        return Ok(None);
    }
    n["leaf_count"] = kids.iter().flatten().map(|k| k.3).sum::<usize>().into();
    n["children"]["num_children"] = kids.iter().flatten().count().into();
    for (i, k) in kids.iter().enumerate() {
        n["children"]["children"][i] = match k {
            None => serde_json::Value::Null,
            Some((h, v, leaf, n)) => serde_json::json!({
                "hash": h, "version": v,
                "node_type": if *leaf { serde_json::json!("Leaf") } else { serde_json::json!({"Internal": {"leaf_count": n}}) },
            }),
        };
    }
    Ok(guard(|| serde_json::from_value(js).ok())?)
}

pub static C27: Def<Case> = Def {
    id: "C27",
    rule: "node keys stored by generated histories, plus prefixes of up to 64 nibbles of generated keys built in two ways with extreme versions, compared pairwise; internal nodes stored by the histories, plus nodes with generated children (all masks of children and leaves, huge counts); non-trivial: the history stores at least 4 nodes, one of them internal, and is non-trivial itself",
    assumptions: &["nodes with generated children are made through the JSON form of a node; if its layout is not the known one only stored nodes are looked at"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            max_keys: if t { 30 } else { 12 },
            max_versions: 4,
            muts: 24,
            hashers: 3,
            bulk: 4,
            bulk_max: 60,
            ..Cfg::default()
        })
    },
    check: |c, ctx| with_hasher!(c.h.hasher, c27(c, ctx)),
    quick: 30_000,
    thorough: 300_000,
};
