//! C20: binary and JSON encodings.
use super::core::classify;
use crate::env::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::{guard, Ctx, Def};
use crate::store::*;
use crate::{chk, fail, with_hasher};
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::proof::{SparseMerkleProof, SparseMerkleRangeProof, UpdateMerkleProof};
use jmt::storage::*;
use crate::hasher::RefHasher;
use jmt::{JellyfishMerkleTree, KeyHash, RootHash, ValueHash};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeMap;

/// `UpdateMerkleProof` has no equality of its own: it is compared proof by proof.
struct Upd<H: RefHasher>(UpdateMerkleProof<H>);
impl<H: RefHasher> PartialEq for Upd<H> {
    fn eq(&self, o: &Self) -> bool {
        from_jmt_update(&self.0) == from_jmt_update(&o.0)
    }
}
impl<H: RefHasher> BorshSerialize for Upd<H> {
    fn serialize<W: borsh::io::Write>(&self, w: &mut W) -> borsh::io::Result<()> {
        BorshSerialize::serialize(&self.0, w)
    }
}
impl<H: RefHasher> BorshDeserialize for Upd<H> {
    fn deserialize_reader<R: borsh::io::Read>(r: &mut R) -> borsh::io::Result<Self> {
        UpdateMerkleProof::deserialize_reader(r).map(Upd)
    }
}
impl<H: RefHasher> Serialize for Upd<H> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        Serialize::serialize(&self.0, s)
    }
}
impl<'de, H: RefHasher> serde::Deserialize<'de> for Upd<H> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <UpdateMerkleProof<H> as serde::Deserialize>::deserialize(d).map(Upd)
    }
}

fn enc<T: BorshSerialize>(x: &T) -> Result<Vec<u8>, String> {
    borsh::to_vec(x).map_err(|e| format!("encoding fails: {e}"))
}
fn hexs(b: &[u8]) -> String {
    let s = hex::encode(b);
    if s.len() > 600 {
        format!("{}... ({} bytes)", &s[..600], b.len())
    } else {
        s
    }
}

/// A damaged copy of `b`.
fn damage(b: &[u8], other: &[u8], m: &Mut) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = v.len();
    // favour the front, where tags and lengths are
    let at = if n == 0 { 0 } else if m.1 % 3 == 0 { m.2 as usize % n } else { m.2 as usize % n.min(48) };
    match m.0 % 13 {
        0 | 1 if n > 0 => v[at] ^= 1 << (m.3 % 8),
        2 if n > 0 => v[at] = m.3 as u8,
        3 => v.truncate(at),
        4 => v.extend_from_slice(&[m.3 as u8; 3][..1 + m.3 as usize % 3]),
        5 => v.insert(at.min(n), m.3 as u8),
        6 if n > 0 => {
            v.remove(at);
        }
        7 => {
            let cut = at.min(other.len());
            v.truncate(at);
            v.extend_from_slice(&other[cut..]);
        }
        8 if n >= 4 => {
            // a length field (or what could be one) of an odd value
            let at = at.min(n - 4);
            let l = [u32::MAX, 0x7fff_ffff, 1 << 20, 65, 64, 63, 16, 2, 1, 0][m.3 as usize % 10];
            v[at..at + 4].copy_from_slice(&l.to_le_bytes());
        }
        9 if n > 0 => {
            let e = (at + 1 + m.3 as usize % 40).min(n);
            let part = v[at..e].to_vec();
            v.splice(at..at, part);
        }
        10 if n > 0 => {
            let e = (at + 1 + m.3 as usize % 40).min(n);
            v.drain(at..e);
        }
        11 => {
            let mut x = u64::from(m.2) << 16 | u64::from(m.3);
            v = (0..m.1 % 90).map(|_| splitmix(&mut x) as u8).collect();
        }
        12 if n >= 8 => {
            // exchange two blocks (entries of a map, children, siblings)
            let w = [1, 4, 8, 32, 33, 40][m.3 as usize % 6].min(n / 2);
            let a = at.min(n - 2 * w);
            for i in 0..w {
                v.swap(a + i, a + w + i);
            }
        }
        _ => v.push(0),
    }
    v
}

fn json_mut(x: &mut serde_json::Value, m: &Mut, path: &mut u32) {
    use serde_json::{json, Value};
    let odd = |m: &Mut| -> Value {
        match m.3 % 11 {
            0 => json!(-1),
            1 => json!(u64::MAX),
            2 => json!(256),
            3 => json!(0),
            4 => Value::Null,
            5 => json!("x"),
            6 => json!([]),
            7 => json!({}),
            8 => json!(1.5),
            9 => json!(true),
            _ => json!(65),
        }
    };
    *path = path.wrapping_mul(31).wrapping_add(u32::from(m.1));
    let stop = *path % 4 == 0;
    match x {
        Value::Array(a) if !a.is_empty() && !stop => {
            let i = *path as usize / 4 % a.len();
            json_mut(&mut a[i], m, path)
        }
        Value::Object(o) if !o.is_empty() && !stop => {
            let i = *path as usize / 4 % o.len();
            let k = o.keys().nth(i).unwrap().clone();
            json_mut(o.get_mut(&k).unwrap(), m, path)
        }
        Value::Array(a) if m.2 % 3 == 0 => {
            if m.2 % 2 == 0 || a.is_empty() {
                a.push(odd(m))
            } else {
                a.pop();
            }
        }
        Value::Object(o) if m.2 % 3 == 0 => {
            let k = o.keys().next().cloned();
            match k {
                Some(k) if m.2 % 2 == 0 => {
                    o.remove(&k);
                }
                _ => {
                    o.insert("unexpected".into(), odd(m));
                }
            }
        }
        x => *x = odd(m),
    }
}

/// Binary encoding of objects of one type.
fn bin<T: BorshSerialize + BorshDeserialize + PartialEq>(
    name: &'static str,
    objs: &[T],
    muts: &[Mut],
    ctx: &mut Ctx,
) -> R {
    let mut seen: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut all = vec![];
    for (i, o) in objs.iter().enumerate() {
        let b = guard(|| enc(o))??;
        let back = match guard(|| T::try_from_slice(&b))? {
            Ok(x) => x,
            Err(e) => fail!("{name}: its own encoding {} is refused: {e}", hexs(&b)),
        };
        if back != *o {
            fail!("{name}: restored from {} as a different object", hexs(&b));
        }
        chk!(guard(|| enc(&back))?? == b, "{name}: restored object encodes differently from {}", hexs(&b));
        if let Some(j) = seen.insert(b.clone(), i) {
            if objs[j] != *o {
                fail!("{name}: two distinct objects share the encoding {}", hexs(&b));
            }
        }
        all.push(b);
    }
    ctx.tag("objects encoded in binary", objs.len() as u64);
    for i in 0..objs.len().min(24) {
        for j in 0..i {
            if objs[i] == objs[j] && all[i] != all[j] {
                fail!("{name}: two equal objects are encoded as {} and {}", hexs(&all[j]), hexs(&all[i]));
            }
        }
    }
    // a stream of encodings is read back one by one
    let cat: Vec<u8> = all.iter().take(6).flatten().copied().collect();
    let mut rest = &cat[..];
    for (i, o) in objs.iter().take(6).enumerate() {
        match guard(|| T::deserialize(&mut rest))? {
            Ok(x) if x == *o => {}
            _ => fail!("{name}: object {i} of a stream of encodings is not restored"),
        }
    }
    chk!(rest.is_empty(), "{name}: a stream of encodings leaves {} bytes", rest.len());
    if all.is_empty() {
        return Ok(());
    }
    for (i, m) in muts.iter().enumerate() {
        let a = &all[(m.3 as usize * 7 + i) % all.len()];
        let o = &all[(m.1 as usize) % all.len()];
        let b = damage(a, o, m);
        let r = guard(|| T::try_from_slice(&b).ok()).map_err(|e| format!("{name}: decoding {}: {e}", hexs(&b)))?;
        if let Some(x) = r {
            let again = guard(|| enc(&x)).map_err(|e| format!("{name}: encoding what {} decodes to: {e}", hexs(&b)))??;
            if again != b {
                fail!("{name}: {} is accepted but encodes as {}", hexs(&b), hexs(&again));
            }
            ctx.tag("damaged encodings accepted", 1);
        } else {
            ctx.tag("damaged encodings refused", 1);
        }
    }
    Ok(())
}

fn json<T: Serialize + DeserializeOwned + PartialEq>(
    name: &'static str,
    objs: &[T],
    muts: &[Mut],
    ctx: &mut Ctx,
) -> R {
    let mut seen: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut all = vec![];
    for (i, o) in objs.iter().enumerate() {
        let b = ok(guard(|| serde_json::to_vec(o))?, format!("{name} to JSON"))?;
        let s = String::from_utf8_lossy(&b).to_string();
        let back: T = match guard(|| serde_json::from_slice(&b))? {
            Ok(x) => x,
            Err(e) => fail!("{name}: its own JSON is refused: {e}: {s}"),
        };
        if back != *o {
            fail!("{name}: restored from JSON as a different object: {s}");
        }
        let v = ok(guard(|| serde_json::to_value(o))?, format!("{name} to a JSON value"))?;
        let back: T = match guard(|| serde_json::from_value(v))? {
            Ok(x) => x,
            Err(e) => fail!("{name}: its own JSON value is refused: {e}: {s}"),
        };
        if back != *o {
            fail!("{name}: restored from a JSON value as a different object: {s}");
        }
        if let Some(j) = seen.insert(b.clone(), i) {
            if objs[j] != *o {
                fail!("{name}: two distinct objects share the JSON {s}");
            }
        }
        all.push(b);
    }
    ctx.tag("objects encoded as JSON", objs.len() as u64);
    formats(name, objs, muts, ctx)?;
    if all.is_empty() {
        return Ok(());
    }
    for (i, m) in muts.iter().enumerate() {
        let a = &all[(m.3 as usize * 7 + i) % all.len()];
        let o = &all[(m.1 as usize) % all.len()];
        let b = if m.0 % 2 == 0 {
            damage(a, o, m)
        } else {
            let mut v: serde_json::Value = serde_json::from_slice(a).unwrap();
            json_mut(&mut v, m, &mut u32::from(m.2));
            serde_json::to_vec(&v).unwrap()
        };
        let r = guard(|| serde_json::from_slice::<T>(&b).ok())
            .map_err(|e| format!("{name}: decoding the JSON {}: {e}", String::from_utf8_lossy(&b)))?;
        if let Some(x) = r {
            let again = guard(|| serde_json::to_vec(&x)).map_err(|e| format!("{name}: {e}"))?;
            let again = ok(again, format!("{name}: accepted JSON cannot be written again"))?;
            let y: T = match guard(|| serde_json::from_slice(&again))? {
                Ok(y) => y,
                Err(e) => fail!("{name}: re-encoded JSON is refused: {e}"),
            };
            if x != y {
                fail!("{name}: {} is accepted but changes when written and read again", String::from_utf8_lossy(&b));
            }
            ctx.tag("damaged JSON accepted", 1);
        } else {
            ctx.tag("damaged JSON refused", 1);
        }
    }
    Ok(())
}

/// Other formats of serde: one without field names or any description, one with both.
fn formats<T: Serialize + DeserializeOwned + PartialEq>(
    name: &'static str,
    objs: &[T],
    muts: &[Mut],
    ctx: &mut Ctx,
) -> R {
    let mut all = vec![];
    let step = objs.len() / 40 + 1;
    for o in objs.iter().step_by(step) {
        let b = ok(guard(|| bincode::serialize(o))?, format!("{name} to bincode"))?;
        let back: T = match guard(|| bincode::deserialize(&b))? {
            Ok(x) => x,
            Err(e) => fail!("{name}: its own bincode form {} is refused: {e}", hexs(&b)),
        };
        if back != *o {
            fail!("{name}: restored from bincode as a different object: {}", hexs(&b));
        }
        let mut c = vec![];
        ok(guard(|| ciborium::into_writer(o, &mut c))?, format!("{name} to CBOR"))?;
        let back: T = match guard(|| ciborium::from_reader(&c[..]))? {
            Ok(x) => x,
            Err(e) => fail!("{name}: its own CBOR form {} is refused: {e}", hexs(&c)),
        };
        if back != *o {
            fail!("{name}: restored from CBOR as a different object: {}", hexs(&c));
        }
        all.push((b, c));
    }
    ctx.tag("objects encoded in bincode and CBOR", all.len() as u64);
    if all.is_empty() {
        return Ok(());
    }
    for (i, m) in muts.iter().enumerate() {
        let a = &all[(m.3 as usize * 7 + i) % all.len()];
        let o = &all[(m.1 as usize) % all.len()];
        let b = damage(&a.0, &o.0, m);
        let r = guard(|| bincode::deserialize::<T>(&b).ok())
            .map_err(|e| format!("{name}: decoding the bincode form {}: {e}", hexs(&b)))?;
        if let Some(x) = r {
            let again = ok(guard(|| bincode::serialize(&x))?, format!("{name}: accepted bincode cannot be written again"))?;
            match guard(|| bincode::deserialize::<T>(&again))? {
                Ok(y) if x == y => {}
                _ => fail!("{name}: {} is accepted but changes when written and read again", hexs(&b)),
            }
        }
        let b = damage(&a.1, &o.1, m);
        let r = guard(|| ciborium::from_reader::<T, _>(&b[..]).ok())
            .map_err(|e| format!("{name}: decoding the CBOR form {}: {e}", hexs(&b)))?;
        if let Some(x) = r {
            let mut again = vec![];
            ok(guard(|| ciborium::into_writer(&x, &mut again))?, format!("{name}: accepted CBOR cannot be written again"))?;
            match guard(|| ciborium::from_reader::<T, _>(&again[..]))? {
                Ok(y) if x == y => {}
                _ => fail!("{name}: {} is accepted but changes when written and read again", hexs(&b)),
            }
        }
    }
    Ok(())
}

fn both<T: BorshSerialize + BorshDeserialize + Serialize + DeserializeOwned + PartialEq>(
    name: &'static str,
    objs: &[T],
    muts: &[Mut],
    ctx: &mut Ctx,
) -> R {
    bin(name, objs, muts, ctx)?;
    json(name, objs, &muts[..muts.len().min(3)], ctx)
}

/// Mirror of the binary encoding of an internal node.
#[derive(Clone, Debug, BorshSerialize, BorshDeserialize)]
struct MInner {
    children: Vec16,
    num_children: u64,
    leaf_count: u64,
}
type Vec16 = [Option<MChild>; 16];
#[derive(Clone, Debug, BorshSerialize, BorshDeserialize)]
struct MChild {
    hash: H32,
    version: u64,
    kind: MKind,
}
#[derive(Clone, Debug, BorshSerialize, BorshDeserialize)]
enum MKind {
    Leaf,
    Internal(u64),
}

fn reborn<T: BorshSerialize + BorshDeserialize>(x: &T) -> Result<T, String> {
    T::try_from_slice(&enc(x)?).map_err(|e| e.to_string())
}
fn rejson<T: Serialize + DeserializeOwned>(x: &T) -> Result<T, String> {
    serde_json::from_slice(&serde_json::to_vec(x).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
}

fn c20<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let store = RefStore::default();
    let mut upd: Vec<Upd<H>> = vec![];
    let mut batches = vec![];
    let mut maps = vec![];
    let mut map = Map::new();
    let muts = &c.muts;
    for (i, set) in c.h.sets.iter().enumerate() {
        let t = JellyfishMerkleTree::<RefStore, H>::new(&store);
        let v = c.h.start + i as u64;
        let before = RootHash(root::<H>(&map));
        let (r, p, b) = ok(t.put_value_set_with_proof(jset(set), v), "update")?;
        let fresh = ok(t.put_value_set_with_proof(jset(set), v), "update")?.1;
        // restored update proofs verify; for another update, they fail like the original
        for (what, q) in [("binary", reborn(&p)?), ("JSON", rejson(&p)?)] {
            ok(
                guard(|| q.verify_update(before, r, jset(set)))?,
                format!("update proof of version {v} restored from {what}"),
            )?;
        }
        if !set.is_empty() {
            let mut other = jset(set);
            let last = other.len() - 1;
            other[last].1 = Some(b"something else".to_vec());
            let a = guard(|| fresh.verify_update(before, r, other.clone()).is_ok())?;
            let b = guard(|| reborn(&p).map(|q| q.verify_update(before, r, other).is_ok()))??;
            chk!(a == b, "version {v}: restored update proof judges another update differently");
        }
        upd.push(Upd(p));
        batches.push(b.clone());
        ok(store.commit(b), "commit")?;
        apply(&mut map, set);
        maps.push(map.clone());
    }
    // one more batch spanning several versions
    {
        let s = RefStore::default();
        let t = JellyfishMerkleTree::<RefStore, H>::new(&s);
        let (_, b) = ok(t.put_value_sets(c.h.sets.iter().map(jset), c.h.start), "multi-version update")?;
        batches.push(b);
    }
    let snap = store.snap();
    let last = c.h.start + maps.len() as u64 - 1;

    let mut keys: Vec<NodeKey> = snap.0.keys().cloned().collect();
    let mut paths: Vec<NibblePath> = keys.iter().map(|k| k.nibble_path().clone()).collect();
    // all prefixes of some keys, and neighbouring and extreme versions
    for m in muts.iter().take(4) {
        if let Some(k) = pick(&c.h.pool, m.1) {
            let l = m.2 as usize % 65;
            let p: NibblePath = (0..l).map(|i| k.nib(i).into()).collect();
            for v in [0, last, u64::MAX, u64::from(m.3), 1 << 32] {
                keys.push(NodeKey::new(v, p.clone()));
            }
            paths.push(p);
        }
    }
    // nodes are restored under their keys: order and hash of keys must survive as well
    let mut sorted: Vec<NodeKey> = vec![];
    for k in &keys {
        sorted.push(reborn(k)?);
    }
    for (a, b) in keys.iter().zip(&sorted) {
        let other = &keys[keys.len() / 2];
        chk!(
            a.cmp(other) == b.cmp(other) && a.version() == b.version() && nibs(a.nibble_path()) == nibs(b.nibble_path()),
            "node key {a:?} restored with another order, version or path"
        );
    }
    both("NodeKey", &keys, muts, ctx)?;
    both("NibblePath", &paths, muts, ctx)?;
    let nodes: Vec<Node> = snap.0.values().cloned().collect();
    both("Node", &nodes, muts, ctx)?;
    let lv: Vec<LeafNode> = nodes
        .iter()
        .filter_map(|n| if let Node::Leaf(l) = n { Some(l.clone()) } else { None })
        .collect();
    both("LeafNode", &lv, muts, ctx)?;
    let mut inner = vec![];
    let mut kids = vec![];
    for n in &nodes {
        if let Node::Internal(i) = n {
            inner.push(i.clone());
            for (_, k) in i.children_sorted() {
                kids.push(k.clone());
            }
        }
    }
    both("InternalNode", &inner, muts, ctx)?;
    both("Child", &kids, muts, ctx)?;
    both("NodeType", &kids.iter().map(|k| k.node_type.clone()).collect::<Vec<_>>(), muts, ctx)?;
    for (n, m) in inner.iter().zip(muts.iter().cycle()) {
        let b = reborn(n)?;
        let j = rejson(n)?;
        chk!(
            b.hash::<H>() == n.hash::<H>() && j.hash::<H>() == n.hash::<H>(),
            "internal node restored with another hash"
        );
        chk!(
            b.leaf_count() == n.leaf_count() && j.leaf_count() == n.leaf_count(),
            "internal node restored with another leaf count"
        );
        let x = (m.1 % 16) as u8;
        chk!(
            b.child(x.into()) == n.child(x.into()) && j.child(x.into()) == n.child(x.into()),
            "internal node restored with another child {x}"
        );
    }
    // the same nodes with the counts and versions of a tree far too large to build here
    let mut large = vec![];
    for (n, m) in inner.iter().zip(muts.iter().cycle()).take(6) {
        let big = |i: usize| (1u64 << [8, 16, 24, 31, 32, 33, 40, 52][(m.1 as usize + i) % 8]) + u64::from(m.2) % 3 - 1;
        let ver = |i: usize| [u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, 255, 65536, 0][(m.3 as usize + i) % 7];
        // what it should contain: (hash, version, leaf, count) of each child
        let mut want: Vec<Option<(H32, u64, bool, u64)>> = vec![];
        for i in 0..16 {
            want.push(n.child((i as u8).into()).map(|c| {
                let leaf = c.is_leaf();
                (c.hash, ver(i), leaf, if leaf { 1 } else { big(i) })
            }));
        }
        let total: u64 = want.iter().flatten().map(|c| c.3).sum();
        let x = MInner {
            children: std::array::from_fn(|i| {
                want[i].map(|(hash, version, leaf, n)| MChild {
                    hash,
                    version,
                    kind: if leaf { MKind::Leaf } else { MKind::Internal(n) },
                })
            }),
            num_children: want.iter().flatten().count() as u64,
            leaf_count: total,
        };
        // made through its JSON form, or else through its binary form, if they are laid out as known
        let mut js = serde_json::to_value(n).map_err(|e| e.to_string())?;
        js["leaf_count"] = total.into();
        for (i, c) in want.iter().enumerate() {
            if let Some((_, v, leaf, n)) = c {
                let j = &mut js["children"]["children"][i];
                j["version"] = (*v).into();
                if !leaf {
                    j["node_type"] = serde_json::json!({"Internal": {"leaf_count": n}});
                }
            }
        }
        let mut y = inner[0].clone();
        match guard(|| serde_json::from_value(js.clone()))? {
            Ok(z) => y = z,
            Err(_) => match guard(|| BorshDeserialize::try_from_slice(&borsh::to_vec(&x).unwrap()))? {
                Ok(z) => y = z,
                Err(_) => {
                    ctx.tag("internal nodes of unknown layout", 1);
                    break;
                }
            },
        }
        let b = enc(&y)?;
        let r = match guard(|| {
            let mut r = y.clone();
            BorshDeserialize::try_from_slice(&b).map(|z| r = z).map(|_| r)
        })? {
            Ok(z) => z,
            Err(e) => fail!("an internal node with large counts is refused: {e}: {}", hexs(&b)),
        };
        let z = rejson(&y)?;
        for w in [&y, &z, &r] {
            chk!(
                w.leaf_count() as u64 == total,
                "an internal node of {total} leaves is restored with {}: {}",
                w.leaf_count(),
                hexs(&b)
            );
            for (i, c) in want.iter().enumerate() {
                let got = w.child((i as u8).into()).map(|c| (c.hash, c.version, c.is_leaf(), c.leaf_count() as u64));
                chk!(got == *c, "child {i} restored as {got:?} instead of {c:?}");
            }
        }
        large.push(y);
    }
    both("InternalNode", &large, muts, ctx)?;
    ctx.tag("internal nodes with large counts", large.len() as u64);
    let few = &muts[..muts.len().min(8)];
    bin("NodeBatch", &batches.iter().map(|b| b.node_batch.clone()).collect::<Vec<_>>(), muts, ctx)?;
    bin("TreeUpdateBatch", &batches, muts, ctx)?;
    let mut stale: Vec<StaleNodeIndex> = snap.2.iter().cloned().collect();
    stale.extend(keys.iter().take(12).map(|k| StaleNodeIndex {
        stale_since_version: u64::MAX - k.version(),
        node_key: k.clone(),
    }));
    bin("StaleNodeIndex", &stale, muts, ctx)?;
    bin("NodeStats", &batches.iter().flat_map(|b| b.node_stats.clone()).collect::<Vec<_>>(), few, ctx)?;
    let khs: Vec<KeyHash> = c.h.pool.iter().map(|k| k.kh()).collect();
    both("KeyHash", &khs, few, ctx)?;
    let vhs: Vec<ValueHash> = map.values().map(|v| ValueHash::with::<H>(&v.0)).collect();
    both("ValueHash", &vhs, few, ctx)?;
    let mut rhs = vec![];
    for (i, _) in maps.iter().enumerate() {
        let t = JellyfishMerkleTree::<RefStore, H>::new(&store);
        rhs.push(ok(t.get_root_hash(c.h.start + i as u64), "root")?);
    }
    both("RootHash", &rhs, few, ctx)?;

    // proofs
    let probes = probes(&c.h.pool, muts, 8);
    let mut proofs: Vec<SparseMerkleProof<H>> = vec![];
    let mut ranges: Vec<SparseMerkleRangeProof<H>> = vec![];
    let mut plv = vec![];
    let t = JellyfishMerkleTree::<RefStore, H>::new(&store);
    for (i, k) in probes.iter().enumerate() {
        let w = (muts[i % muts.len()].1 as usize) % maps.len();
        let (v, m) = (c.h.start + w as u64, &maps[w]);
        let (val, p) = ok(t.get_with_proof(k.kh(), v), "get_with_proof")?;
        let r = rhs[w];
        let other = rhs[(w + 1) % rhs.len()];
        for (what, q) in [("binary", reborn(&p)?), ("JSON", rejson(&p)?)] {
            ok(q.verify(r, k.kh(), val.as_ref()), format!("proof of {k:?} at {v} restored from {what}"))?;
            for (rr, x) in [(other, val.clone()), (r, Some(b"?".to_vec())), (r, None)] {
                chk!(
                    q.verify(rr, k.kh(), x.as_ref()).is_ok() == p.verify(rr, k.kh(), x.as_ref()).is_ok(),
                    "proof of {k:?} at {v} restored from {what} judges another statement differently"
                );
            }
            chk!(
                q.leaf() == p.leaf() && (p.leaf().is_none() || q.root_hash() == p.root_hash()),
                "proof of {k:?} at {v} restored from {what} has another leaf or root"
            );
        }
        plv.extend(p.leaf());
        proofs.push(p);
        if m.contains_key(k) {
            let p = ok(t.get_range_proof(k.kh(), v), "range proof")?;
            let all = leaves::<H>(m);
                        let leaf: jmt::proof::SparseMerkleLeafNode = reborn(&proofs.last().unwrap().leaf().unwrap())?;
            let left = super::range::range_parts::<H>(&all, k).0;
            for (what, q) in [("binary", reborn(&p)?), ("JSON", rejson(&p)?)] {
                ok(
                    q.verify(r, leaf, left.clone()),
                    format!("range proof of {k:?} at {v} restored from {what}"),
                )?;
            }
            ranges.push(p);
        }
    }
    // copies and conversions
    for p in &proofs {
        let q = p.clone();
        chk!(q == *p && enc(&q)? == enc(p)?, "a cloned proof differs from the original");
    }
    for p in &ranges {
        let q = p.clone();
        chk!(q == *p && enc(&q)? == enc(p)?, "a cloned range proof differs from the original");
    }
    for (n, b) in nodes.iter().zip(&batches).take(8) {
        chk!(n.clone() == *n && enc(&n.clone())? == enc(n)?, "a cloned node differs from the original");
        chk!(b.clone() == *b && enc(&b.clone())? == enc(b)?, "a cloned batch differs from the original");
    }
    for r in &rhs {
        let b: [u8; 32] = (*r).into();
        let s: &[u8] = r.as_ref();
        chk!(b == r.0 && s == r.0 && RootHash::from(b) == *r, "root hash {r:?} converted to and from bytes differs");
    }
    both("SparseMerkleProof", &proofs, muts, ctx)?;
    both("SparseMerkleLeafNode", &plv, few, ctx)?;
    both("SparseMerkleRangeProof", &ranges, muts, ctx)?;
    both("UpdateMerkleProof", &upd, muts, ctx)?;

    // close the store, reopen it from bytes, read and continue
    let re = RefStore::default();
    {
        let mut i = re.i.borrow_mut();
        let js = muts[0].0 % 2 == 0;
        for (k, n) in &snap.0 {
            if js {
                i.nodes.insert(rejson(k)?, rejson(n)?);
            } else {
                i.nodes.insert(reborn(k)?, reborn(n)?);
            }
        }
        for ((k, v), x) in &snap.1 {
            let kh: KeyHash = if js { rejson(&k.kh())? } else { reborn(&k.kh())? };
            i.values.insert((K(kh.0), *v), x.clone());
        }
        for s in &snap.2 {
            let s: StaleNodeIndex = reborn(s)?;
            i.stale_keys.insert(s.node_key.clone());
            i.stale.insert(s);
        }
    }
    for (i, m) in maps.iter().enumerate() {
        let v = c.h.start + i as u64;
        walk::<H, RefStore>(&re, v, m).map_err(|e| format!("reopened from bytes: {e}"))?;
        if i + 2 >= maps.len() || i % 3 == muts[0].1 as usize % 3 {
            check_reads::<H, RefStore>(&re, v, m, &probes).map_err(|e| format!("reopened from bytes: {e}"))?;
        }
    }
    let set = &c.h.sets[muts[1].1 as usize % c.h.sets.len()];
    let t2 = JellyfishMerkleTree::<RefStore, H>::new(&re);
    let a = ok(t.put_value_set(jset(set), last + 1), "next update")?;
    let b = ok(t2.put_value_set(jset(set), last + 1), "next update on the reopened store")?;
    chk!(a == b, "the next update on the store reopened from bytes differs");
    // ... handing the batch over as bytes
    ok(store.commit(a.1), "commit")?;
    ok(re.commit(reborn(&b.1)?), "commit of a restored batch")?;
    ok(store.purge(last), "purge")?;
    ok(re.purge(last), "purge of the reopened store")?;
    chk!(store.snap() == re.snap(), "after a restored batch and a purge the reopened store differs");
    Ok(())
}

pub static C20: Def<Case> = Def {
    id: "C20",
    rule: "histories as for C01; every object they produce (node keys, paths, nodes, children, batches, stale records, statistics, hashes, leaf, range, update and lookup proofs) encoded and decoded, plus damaged encodings of each type; non-trivial: a history that deletes or overwrites and has two entries with the same first nibble",
    assumptions: &["JSON through serde_json, binary through borsh with strict map order, as the crate is configured"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            muts: 14,
            max_versions: if t { 10 } else { 6 },
            bulk: 3,
            bulk_max: if t { 300 } else { 60 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        let r = with_hasher!(c.h.hasher, c20(c, ctx));
        ctx.nontrivial = classify(&c.h, ctx);
        r
    },
    quick: 8_000,
    thorough: 40_000,
};
