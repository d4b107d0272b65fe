//! C28: the layout of the encodings, against encoders written down here by hand.
use super::core::classify;
use super::range::range_parts;
use crate::env::*;
use crate::gen::*;
use crate::hasher::RefHasher;
use crate::model::*;
use crate::runner::{guard, Ctx, Def};
use crate::store::*;
use crate::{chk, fail, with_hasher};
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::proof::{SparseMerkleProof, SparseMerkleRangeProof, UpdateMerkleProof};
use jmt::storage::*;
use jmt::{JellyfishMerkleTree, KeyHash, RootHash, ValueHash};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

/// The two layouts of one object.
struct Form {
    b: Vec<u8>,
    j: Value,
}

fn u64s(x: u64) -> Form {
    Form { b: x.to_le_bytes().to_vec(), j: x.into() }
}
fn h32(x: &H32) -> Form {
    Form { b: x.to_vec(), j: x.iter().map(|b| Value::from(*b)).collect() }
}
fn record(fields: Vec<(&str, Form)>) -> Form {
    let mut f = Form { b: vec![], j: json!({}) };
    for (n, x) in fields {
        f.b.extend(x.b);
        f.j[n] = x.j;
    }
    f
}
fn list(items: Vec<Form>) -> Form {
    let mut b = (items.len() as u32).to_le_bytes().to_vec();
    let mut j = vec![];
    for x in items {
        b.extend(x.b);
        j.push(x.j);
    }
    Form { b, j: j.into() }
}
fn option(x: Option<Form>) -> Form {
    match x {
        None => Form { b: vec![0], j: Value::Null },
        Some(x) => Form { b: [&[1][..], &x.b].concat(), j: x.j },
    }
}
fn variant(tag: u8, name: &str, x: Option<Form>) -> Form {
    match x {
        None => Form { b: vec![tag], j: name.into() },
        Some(x) => Form { b: [&[tag][..], &x.b].concat(), j: json!({ name: x.j }) },
    }
}
fn bytes(x: &[u8]) -> Form {
    list(x.iter().map(|b| Form { b: vec![*b], j: (*b).into() }).collect())
}

fn path(n: &[u8]) -> Form {
    let packed: Vec<u8> = n.chunks(2).map(|c| c[0] << 4 | c.get(1).unwrap_or(&0)).collect();
    record(vec![("num_nibbles", u64s(n.len() as u64)), ("bytes", bytes(&packed))])
}
fn key(version: u64, n: &[u8]) -> Form {
    record(vec![("version", u64s(version)), ("nibble_path", path(n))])
}
fn leaf(k: &H32, v: &H32) -> Form {
    record(vec![("key_hash", h32(k)), ("value_hash", h32(v))])
}
fn kind(leaf_count: Option<u64>) -> Form {
    match leaf_count {
        None => variant(0, "Leaf", None),
        Some(n) => variant(1, "Internal", Some(record(vec![("leaf_count", u64s(n))]))),
    }
}
// The types of internal nodes and their children have no public names, hence two macros.
macro_rules! child {
    ($c:expr) => {{
        let c = $c;
        let n = if c.is_leaf() { None } else { Some(c.leaf_count() as u64) };
        record(vec![("hash", h32(&c.hash)), ("version", u64s(c.version)), ("node_type", kind(n))])
    }};
}
macro_rules! internal {
    ($n:expr) => {{
        let mut b = vec![];
        let mut j = vec![];
        let (mut count, mut leaves) = (0, 0);
        for i in 0..16u8 {
            let c = $n.child(i.into());
            if let Some(c) = c {
                count += 1;
                leaves += c.leaf_count() as u64;
            }
            let f = option(c.map(|c| child!(c)));
            b.extend(f.b);
            j.push(f.j);
        }
        // sixteen places, so no length
        let places = Form { b, j: j.into() };
        let children = record(vec![("children", places), ("num_children", u64s(count))]);
        record(vec![("children", children), ("leaf_count", u64s(leaves))])
    }};
}
fn node(n: &Node, vh: Option<H32>) -> Result<Form, String> {
    Ok(match n {
        Node::Null => variant(0, "Null", None),
        Node::Internal(i) => variant(1, "Internal", Some(internal!(i))),
        Node::Leaf(l) => {
            let vh = vh.ok_or("a leaf without a value")?;
            variant(2, "Leaf", Some(leaf(&l.key_hash().0, &vh)))
        }
    })
}
fn stale(s: &StaleNodeIndex) -> Form {
    record(vec![
        ("stale_since_version", u64s(s.stale_since_version)),
        ("node_key", key(s.node_key.version(), &nibs(s.node_key.nibble_path()))),
    ])
}
fn stats(s: &NodeStats) -> Form {
    record(vec![
        ("new_nodes", u64s(s.new_nodes as u64)),
        ("new_leaves", u64s(s.new_leaves as u64)),
        ("stale_nodes", u64s(s.stale_nodes as u64)),
        ("stale_leaves", u64s(s.stale_leaves as u64)),
    ])
}
fn sibling(n: &MNode) -> Form {
    match n {
        MNode::Null => variant(0, "Null", None),
        MNode::Internal(l, r) => variant(
            1,
            "Internal",
            Some(record(vec![("left_child", h32(l)), ("right_child", h32(r))])),
        ),
        MNode::Leaf(k, v) => variant(2, "Leaf", Some(leaf(k, v))),
    }
}
const NONE: Form = Form { b: vec![], j: Value::Null };
fn lookup(p: &MProof) -> Form {
    record(vec![
        ("leaf", option(p.leaf.map(|(k, v)| leaf(&k, &v)))),
        ("siblings", list(p.siblings.iter().map(sibling).collect())),
        ("phantom_hasher", NONE),
    ])
}
fn range_form(p: &MRange) -> Form {
    record(vec![
        ("right_siblings", list(p.right_siblings.iter().map(sibling).collect())),
        ("_phantom", NONE),
    ])
}

fn short(b: &[u8]) -> String {
    let s = hex::encode(b);
    if s.len() > 900 {
        format!("{}... ({} bytes)", &s[..900], b.len())
    } else {
        s
    }
}

fn bin<T: BorshSerialize + BorshDeserialize>(
    name: &str,
    x: &T,
    f: &Form,
    same: impl Fn(&T, &T) -> bool,
    ctx: &mut Ctx,
) -> R {
    let b = ok(guard(|| borsh::to_vec(x))?, format!("{name}: binary"))?;
    chk!(b == f.b, "{name}: binary form is {}, laid out it should be {}", short(&b), short(&f.b));
    match guard(|| T::try_from_slice(&f.b))? {
        Ok(y) if same(x, &y) => {}
        Ok(_) => fail!("{name}: {} is read as another object", short(&f.b)),
        Err(e) => fail!("{name}: {} is refused: {e}", short(&f.b)),
    }
    ctx.tag("binary layouts compared", 1);
    Ok(())
}

fn both<T: BorshSerialize + BorshDeserialize + Serialize + DeserializeOwned>(
    name: &str,
    x: &T,
    f: &Form,
    same: impl Fn(&T, &T) -> bool,
    ctx: &mut Ctx,
) -> R {
    bin(name, x, f, &same, ctx)?;
    let j = ok(guard(|| serde_json::to_value(x))?, format!("{name}: JSON"))?;
    chk!(j == f.j, "{name}: JSON form is {j}, laid out it should be {}", f.j);
    match guard(|| serde_json::from_str::<T>(&f.j.to_string()))? {
        Ok(y) if same(x, &y) => {}
        Ok(_) => fail!("{name}: {} is read as another object", f.j),
        Err(e) => fail!("{name}: {} is refused: {e}", f.j),
    }
    // in another order of the fields, too
    if let Value::Object(o) = &f.j {
        let back: Vec<String> = o.iter().rev().map(|(k, v)| format!("{}: {v}", json!(k))).collect();
        let s = format!("{{ {} }}", back.join(" ,\n"));
        match guard(|| serde_json::from_str::<T>(&s))? {
            Ok(y) if same(x, &y) => {}
            Ok(_) => fail!("{name}: {s} is read as another object"),
            Err(e) => fail!("{name}: {s} is refused: {e}"),
        }
    }
    ctx.tag("JSON layouts compared", 1);
    Ok(())
}

fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

fn update_form(ps: &[MProof]) -> Form {
    list(ps.iter().map(lookup).collect())
}

fn c28<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let store = RefStore::default();
    let mut map = Map::new();
    let mut maps = vec![];
    for (i, set) in c.h.sets.iter().enumerate() {
        let v = c.h.start + i as u64;
        let t = JellyfishMerkleTree::<RefStore, H>::new(&store);
        let (_, p, b) = ok(t.put_value_set_with_proof(jset(set), v), "update")?;
        // the update proof: its entries are lookup proofs
        let ps = guard(|| from_jmt_update(&p))?;
        let same = |a: &UpdateMerkleProof<H>, b: &UpdateMerkleProof<H>| from_jmt_update(a) == from_jmt_update(b);
        both("UpdateMerkleProof", &p, &update_form(&ps), same, ctx)?;
        apply(&mut map, set);
        // the batch
        let mut nodes = vec![];
        for (k, n) in b.node_batch.nodes() {
            let vh = if let Node::Leaf(l) = n { map.get(&K(l.key_hash().0)).map(|v| H::reference(&v.0)) } else { None };
            let kf = key(k.version(), &nibs(k.nibble_path()));
            both("NodeKey", k, &kf, eq, ctx)?;
            both("NibblePath", k.nibble_path(), &path(&nibs(k.nibble_path())), eq, ctx)?;
            let nf = node(n, vh)?;
            both("Node", n, &nf, eq, ctx)?;
            match n {
                Node::Internal(i) => {
                    both("InternalNode", i, &internal!(i), eq, ctx)?;
                    for (_, k) in i.children_sorted() {
                        both("Child", k, &child!(k), eq, ctx)?;
                        let lc = if k.is_leaf() { None } else { Some(k.leaf_count() as u64) };
                        both("NodeType", &k.node_type, &kind(lc), eq, ctx)?;
                    }
                }
                Node::Leaf(l) => both("LeafNode", l, &leaf(&l.key_hash().0, &vh.unwrap()), eq, ctx)?,
                Node::Null => ctx.tag("null nodes", 1),
            }
            nodes.push(Form { b: [kf.b, nf.b].concat(), j: Value::Null });
        }
        let mut values = vec![];
        for ((w, k), x) in b.node_batch.values() {
            let x = x.as_ref().map(|x| bytes(x));
            values.push(Form { b: [u64s(*w).b, k.0.to_vec(), option(x).b].concat(), j: Value::Null });
        }
        // maps and sets are lists in increasing order of their keys
        let nb = record(vec![("nodes", list(nodes)), ("values", list(values))]);
        bin("NodeBatch", &b.node_batch, &nb, eq, ctx)?;
        for s in &b.stale_node_index_batch {
            bin("StaleNodeIndex", s, &stale(s), eq, ctx)?;
        }
        for s in &b.node_stats {
            bin("NodeStats", s, &stats(s), eq, ctx)?;
        }
        let tb = Form {
            b: [
                nb.b,
                list(b.stale_node_index_batch.iter().map(stale).collect()).b,
                list(b.node_stats.iter().map(stats).collect()).b,
            ]
            .concat(),
            j: Value::Null,
        };
        bin("TreeUpdateBatch", &b, &tb, eq, ctx)?;
        ok(store.commit(b), "commit")?;
        maps.push(map.clone());
    }
    // keys of any version and depth, of no tree
    for m in &c.muts {
        if let Some(k) = pick(&c.h.pool, m.1) {
            let n: Vec<u8> = (0..m.2 as usize % 65).map(|i| k.nib(i)).collect();
            let v = [0, 1, 255, 1 << 32, u64::MAX, u64::from(m.3) << 20][m.0 as usize % 6];
            let p: NibblePath = n.iter().map(|x| (*x).into()).collect();
            both("NibblePath", &p, &path(&n), eq, ctx)?;
            let k = NodeKey::new(v, p);
            both("NodeKey", &k, &key(v, &n), eq, ctx)?;
            let s = StaleNodeIndex { stale_since_version: u64::from(m.3), node_key: k };
            bin("StaleNodeIndex", &s, &stale(&s), eq, ctx)?;
            if let Some(Node::Internal(i)) = store.snap().0.values().find(|n| matches!(n, Node::Internal(_))) {
                if let Some((_, c)) = i.children_sorted().next() {
                    let mut ch = c.clone();
                    ch.hash = c.hash.map(|x| x ^ m.0 as u8);
                    ch.version = v;
                    both("Child", &ch, &child!(&ch), eq, ctx)?;
                }
            }
        }
    }
    both("Node", &Node::Null, &node(&Node::Null, None)?, eq, ctx)?;
    for k in &c.h.pool {
        both("KeyHash", &k.kh(), &h32(&k.0), eq, ctx)?;
        both("RootHash", &RootHash(k.0), &h32(&k.0), eq, ctx)?;
        let v = ValueHash::with::<H>(k.0);
        both("ValueHash", &v, &h32(&H::reference(&k.0)), eq, ctx)?;
    }
    // lookup and range proofs, whose contents the model knows
    let t = JellyfishMerkleTree::<RefStore, H>::new(&store);
    for (i, k) in probes(&c.h.pool, &c.muts, 6).iter().enumerate() {
        let w = c.muts[i % c.muts.len()].3 as usize % maps.len();
        let all = leaves::<H>(&maps[w]);
        let v = c.h.start + w as u64;
        let want = proof::<H>(&all, &k.0);
        let p = ok(t.get_with_proof(KeyHash(k.0), v), "get_with_proof")?.1;
        both::<SparseMerkleProof<H>>("SparseMerkleProof", &p, &lookup(&want), eq, ctx)?;
        if let (Some(l), Some((lk, lv))) = (p.leaf(), want.leaf) {
            both("SparseMerkleLeafNode", &l, &leaf(&lk, &lv), eq, ctx)?;
        }
        if maps[w].contains_key(k) {
            let p = ok(t.get_range_proof(k.kh(), v), "range proof")?;
            let right = range_parts::<H>(&all, k).1;
            both::<SparseMerkleRangeProof<H>>("SparseMerkleRangeProof", &p, &range_form(&MRange { right_siblings: right }), eq, ctx)?;
        }
    }
    Ok(())
}

pub static C28: Def<Case> = Def {
    id: "C28",
    rule: "histories as for C01; every object they produce written in both encodings, compared with the bytes and the JSON value laid out by hand, and read back from those; non-trivial: a history that deletes or overwrites and has two entries with the same first nibble",
    assumptions: &["the layouts as of the commit the checks were written for are those that users have stored"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            muts: 10,
            max_versions: if t { 10 } else { 5 },
            bulk: 2,
            bulk_max: if t { 300 } else { 40 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        let r = with_hasher!(c.h.hasher, c28(c, ctx));
        ctx.nontrivial = classify(&c.h, ctx);
        r
    },
    quick: 4_000,
    thorough: 40_000,
};
