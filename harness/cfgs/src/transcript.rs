//! Everything observable that the library does for one case, as text, section by section. Compiled
//! into one program per feature set of jmt and into the harness; sections that need a feature are
//! left out without it.
use anyhow::{anyhow, bail, Result};
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::proof::{SparseMerkleProof, SparseMerkleRangeProof, UpdateMerkleProof};
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::*;
use jmt::*;
use sha2::Digest;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub type KeyBytes = [u8; 32];
pub type TSet = Vec<(KeyBytes, Option<Vec<u8>>)>;

#[derive(Clone, Debug, BorshSerialize, BorshDeserialize)]
pub struct Tc {
    pub hasher: u8,
    pub start: u64,
    pub sets: Vec<TSet>,
    /// (number of versions, entry point)
    pub plan: Vec<(u8, u8)>,
    pub muts: Vec<(u8, u16, u16, u16)>,
    pub probes: Vec<KeyBytes>,
}

struct B3(blake3::Hasher);
impl SimpleHasher for B3 {
    fn new() -> Self {
        B3(blake3::Hasher::default())
    }
    fn update(&mut self, data: &[u8]) {
        blake3::Hasher::update(&mut self.0, data);
    }
    fn finalize(self) -> [u8; 32] {
        *blake3::Hasher::finalize(&self.0).as_bytes()
    }
}

#[derive(Default, Clone)]
struct Inner {
    nodes: BTreeMap<NodeKey, Node>,
    values: BTreeMap<(KeyBytes, u64), Option<Vec<u8>>>,
    reads: u64,
    fail_at: Option<u64>,
}
#[derive(Default)]
struct Mem(RefCell<Inner>);
impl Mem {
    fn fork(&self) -> Mem {
        Mem(RefCell::new(self.0.borrow().clone()))
    }
    fn tick(&self) -> Result<()> {
        let mut i = self.0.borrow_mut();
        i.reads += 1;
        if i.fail_at == Some(i.reads) {
            bail!("injected");
        }
        Ok(())
    }
}
impl TreeReader for Mem {
    fn get_node_option(&self, k: &NodeKey) -> Result<Option<Node>> {
        self.tick()?;
        Ok(self.0.borrow().nodes.get(k).cloned())
    }
    fn get_value_option(&self, max: Version, k: KeyHash) -> Result<Option<OwnedValue>> {
        self.tick()?;
        Ok(self
            .0
            .borrow()
            .values
            .range((k.0, 0)..=(k.0, max))
            .next_back()
            .and_then(|x| x.1.clone()))
    }
    fn get_rightmost_leaf(&self) -> Result<Option<(NodeKey, LeafNode)>> {
        self.tick()?;
        let i = self.0.borrow();
        let mut best: Option<(NodeKey, LeafNode)> = None;
        for (k, n) in &i.nodes {
            if let Node::Leaf(l) = n {
                if best.as_ref().map_or(true, |b| (l.key_hash(), k.version()) > (b.1.key_hash(), b.0.version())) {
                    best = Some((k.clone(), l.clone()));
                }
            }
        }
        Ok(best)
    }
}
impl HasPreimage for Mem {
    fn preimage(&self, k: KeyHash) -> Result<Option<Vec<u8>>> {
        self.tick()?;
        Ok(Some(k.0.to_vec()))
    }
}
impl TreeWriter for Mem {
    fn write_node_batch(&self, b: &NodeBatch) -> Result<()> {
        let mut i = self.0.borrow_mut();
        for (k, n) in b.nodes() {
            i.nodes.insert(k.clone(), n.clone());
        }
        for ((v, k), x) in b.values() {
            i.values.insert((k.0, *v), x.clone());
        }
        Ok(())
    }
}

fn d(b: impl AsRef<[u8]>) -> String {
    hex::encode(&sha2::Sha256::digest(b.as_ref())[..10])
}
fn ser(x: &impl BorshSerialize) -> String {
    let b = borsh::to_vec(x).unwrap();
    format!("{}:{}", b.len(), d(&b))
}
fn err(e: &anyhow::Error) -> String {
    let kind = match e.downcast_ref::<MissingRootError>() {
        Some(m) => format!("missing root {} ({m})", m.version),
        None => "other".into(),
    };
    format!("error {kind}: {e:#}")
}
fn res<T>(r: Result<T>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(x) => f(x),
        Err(e) => err(&e),
    }
}
fn call(f: impl FnOnce() -> String) -> String {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "PANIC".into())
}
fn jset(s: &TSet) -> Vec<(KeyHash, Option<Vec<u8>>)> {
    s.iter().map(|(k, v)| (KeyHash(*k), v.clone())).collect()
}

fn exclusion<H: SimpleHasher>(p: ExclusionProof<H>) -> String {
    match p {
        ExclusionProof::Leftmost { leftmost_right_proof: a } => format!("leftmost {}", ser(&a)),
        ExclusionProof::Middle { leftmost_right_proof: a, rightmost_left_proof: b } => {
            format!("middle {} {}", ser(&a), ser(&b))
        }
        ExclusionProof::Rightmost { rightmost_left_proof: a } => format!("rightmost {}", ser(&a)),
    }
}

pub type Section = (String, String);

pub fn transcript(c: &Tc) -> Vec<Section> {
    match c.hasher {
        1 => run::<B3>(c),
        2 => run::<TransparentHasher>(c),
        _ => run::<sha2::Sha256>(c),
    }
}

fn damage(b: &[u8], m: &(u8, u16, u16, u16)) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = v.len();
    if n == 0 {
        return vec![m.0];
    }
    let at = m.1 as usize % if m.2 % 2 == 0 { n } else { n.min(40) };
    match m.0 % 5 {
        0 => v[at] ^= 1 << (m.3 % 8),
        1 => v[at] = m.3 as u8,
        2 => v.truncate(at),
        3 => v.push(m.3 as u8),
        _ => {
            v.remove(at);
        }
    }
    v
}

fn run<H: SimpleHasher>(c: &Tc) -> Vec<Section> {
    let mut out: Vec<Section> = vec![];
    let mut sec = |name: &str, t: String| out.push((name.to_string(), t));
    let store = Arc::new(Mem::default());
    let tree = JellyfishMerkleTree::<Mem, H>::new(store.as_ref());

    // updates through all entry points
    let mut t = String::new();
    let mut roots: Vec<RootHash> = vec![RootHash(*b"SPARSE_MERKLE_PLACEHOLDER_HASH__")];
    let mut i = 0;
    let mut p = 0;
    let mut batches = vec![];
    let mut upd: Vec<(usize, Vec<u8>)> = vec![];
    let mut failed = false;
    while i < c.sets.len() && !failed {
        let (len, mode) = if c.plan.is_empty() { (1, 2) } else { c.plan[p % c.plan.len()] };
        p += 1;
        let e = (i + len.max(1) as usize).min(c.sets.len());
        let sets = &c.sets[i..e];
        let first = c.start + i as u64;
        let mut got: Option<(Vec<RootHash>, TreeUpdateBatch)> = None;
        let line = call(|| match mode {
            1 => res(tree.put_value_sets_with_proof(sets.iter().map(jset), first), |(rp, b)| {
                let mut s = String::new();
                let mut rs = vec![];
                for (j, (r, p)) in rp.into_iter().enumerate() {
                    write!(s, "{r:?} {} ", ser(&p)).unwrap();
                    upd.push((i + j, borsh::to_vec(&p).unwrap()));
                    rs.push(r);
                }
                got = Some((rs, b));
                s
            }),
            3 if sets.iter().all(|s| !s.is_empty() && s.iter().all(|x| x.1.is_some())) => res(
                tree.batch_put_value_sets(
                    sets.iter()
                        .map(|s| s.iter().map(|(k, v)| (KeyHash(*k), v.clone().unwrap())).collect())
                        .collect(),
                    None,
                    first,
                ),
                |g| {
                    let s = format!("{:?}", g.0);
                    got = Some(g);
                    s
                },
            ),
            4 if sets.len() == 1 => res(tree.put_value_set_with_proof(jset(&sets[0]), first), |(r, p, b)| {
                upd.push((i, borsh::to_vec(&p).unwrap()));
                let s = format!("{r:?} {}", ser(&p));
                got = Some((vec![r], b));
                s
            }),
            2 if sets.len() == 1 => res(tree.put_value_set(jset(&sets[0]), first), |(r, b)| {
                got = Some((vec![r], b));
                format!("{r:?}")
            }),
            _ => res(tree.put_value_sets(sets.iter().map(jset), first), |g| {
                let s = format!("{:?}", g.0);
                got = Some(g);
                s
            }),
        });
        writeln!(t, "{i}..{e} mode {mode}: {line}").unwrap();
        match got {
            Some((r, b)) => {
                writeln!(
                    t,
                    "  batch {} nodes {} values {} stale {} stats {:?}",
                    ser(&b),
                    b.node_batch.nodes().len(),
                    b.node_batch.values().len(),
                    b.stale_node_index_batch.len(),
                    b.node_stats
                )
                .unwrap();
                store.write_node_batch(&b.node_batch).unwrap();
                batches.push(b);
                roots.extend(r);
            }
            None => failed = true,
        }
        i = e;
    }
    let n = roots.len() as u64 - 1;
    sec("updates", t);
    let last = (c.start + n).wrapping_sub(1);
    let versions: Vec<u64> = (0..n).map(|i| c.start + i).collect();
    let picked: Vec<u64> = versions
        .iter()
        .copied()
        .filter(|v| v.wrapping_add(1) >= last || v.wrapping_add(u64::from(c.muts[0].1)) % 3 == 0)
        .chain([last.wrapping_add(1), c.start.wrapping_sub(1)])
        .collect();

    // reads
    let mut t = String::new();
    let mut proofs: Vec<(KeyBytes, u64, Vec<u8>)> = vec![];
    for v in &picked {
        writeln!(t, "{v}: {}", call(|| res(tree.get_root_hash(*v), |r| format!("{r:?}")))).unwrap();
        writeln!(t, "{v}: {}", call(|| res(tree.get_root_hash_option(*v), |r| format!("{r:?}")))).unwrap();
        writeln!(t, "{v}: {}", call(|| res(tree.get_leaf_count(*v), |r| format!("{r}")))).unwrap();
        for k in &c.probes {
            let kh = KeyHash(*k);
            writeln!(t, "{v} get: {}", call(|| res(tree.get(kh, *v), |r| ser(&r)))).unwrap();
            writeln!(
                t,
                "{v} proof: {}",
                call(|| res(tree.get_with_proof(kh, *v), |(x, p)| {
                    let s = format!("{} {}", ser(&x), ser(&p));
                    let mut o = String::new();
                    for r in &roots {
                        for w in [x.clone(), None, Some(vec![1])] {
                            o.push_str(&match p.verify(*r, kh, w.as_ref()) {
                                Ok(()) => "y".to_string(),
                                Err(e) => d(format!("{e}"))[..2].to_string(),
                            });
                        }
                    }
                    proofs.push((*k, *v, borsh::to_vec(&p).unwrap()));
                    for r in &roots {
                        for y in [p.verify_existence(*r, kh, x.clone().unwrap_or_default()), p.verify_nonexistence(*r, kh)] {
                            o.push_str(&match y {
                                Ok(()) => "y".to_string(),
                                Err(e) => d(format!("{e}"))[..2].to_string(),
                            });
                        }
                    }
                    format!("{s} {o}")
                }))
            )
            .unwrap();
        }
    }
    sec("reads", t);

    let mut t = String::new();
    for v in &picked {
        for (i, k) in c.probes.iter().enumerate() {
            writeln!(
                t,
                "{v} exclusion: {}",
                call(|| res(tree.get_with_exclusion_proof(KeyHash(*k), *v), |r| match r {
                    Ok((x, p)) => format!("present {} {}", ser(&x), ser(&p)),
                    Err(p) => exclusion(p),
                }))
            )
            .unwrap();
            writeln!(
                t,
                "{v} range: {}",
                call(|| res(tree.get_range_proof(KeyHash(*k), *v), |p| ser(&p)))
            )
            .unwrap();
            let list = |it: Result<JellyfishMerkleIterator<Mem>>| -> String {
                let mut it = match it {
                    Ok(it) => it,
                    Err(e) => return err(&e),
                };
                let mut h: sha2::Sha256 = Default::default();
                let mut n = 0;
                for _ in 0..2000 {
                    match it.next() {
                        None => break,
                        Some(Ok((k, v))) => {
                            Digest::update(&mut h, k.0);
                            Digest::update(&mut h, (v.len() as u64).to_le_bytes());
                            Digest::update(&mut h, &v);
                            n += 1;
                        }
                        Some(Err(e)) => return format!("after {n}: {}", err(&e)),
                    }
                }
                format!("{n} entries {}", d(Digest::finalize(h)))
            };
            if i < 4 {
                writeln!(
                    t,
                    "{v} iterate: {}",
                    call(|| list(JellyfishMerkleIterator::new(store.clone(), *v, KeyHash(*k))))
                )
                .unwrap();
                writeln!(
                    t,
                    "{v} iterate by index: {}",
                    call(|| list(JellyfishMerkleIterator::new_by_index(store.clone(), *v, i * 2)))
                )
                .unwrap();
            }
        }
    }
    sec("queries", t);

    // decoding and judging damaged proofs; update proofs
    let mut t = String::new();
    for (i, m) in c.muts.iter().enumerate() {
        if !proofs.is_empty() {
            let (k, v, b) = &proofs[(m.1 as usize + i) % proofs.len()];
            let b = damage(b, m);
            let root = roots[(v.wrapping_sub(c.start) as usize + 1).min(roots.len() - 1)];
            writeln!(
                t,
                "damaged proof: {}",
                call(|| match SparseMerkleProof::<H>::try_from_slice(&b) {
                    Err(e) => format!("refused: {e}"),
                    Ok(p) => format!(
                        "{:?} {:?}",
                        p.verify_nonexistence(root, KeyHash(*k)).map_err(|e| d(e.to_string())),
                        p.verify_existence(root, KeyHash(*k), [m.0]).map_err(|e| d(e.to_string()))
                    ),
                })
            )
            .unwrap();
        }
        if !upd.is_empty() {
            let (j, b) = &upd[(m.2 as usize + i) % upd.len()];
            for (what, b) in [("own", b.clone()), ("damaged", damage(b, m))] {
                for to in [j + 1, *j] {
                    writeln!(
                        t,
                        "{what} update proof of set {j} to {to}: {}",
                        call(|| match UpdateMerkleProof::<H>::try_from_slice(&b) {
                            Err(e) => format!("refused: {e}"),
                            Ok(p) => format!(
                                "{:?}",
                                p.verify_update(roots[*j], roots[to], jset(&c.sets[*j]))
                                    .map_err(|e| d(e.to_string()))
                            ),
                        })
                    )
                    .unwrap();
                }
            }
        }
        if !batches.is_empty() {
            let b = &batches[m.3 as usize % batches.len()];
            let b = damage(&borsh::to_vec(b).unwrap(), m);
            writeln!(
                t,
                "damaged batch: {}",
                call(|| match TreeUpdateBatch::try_from_slice(&b) {
                    Err(e) => format!("refused: {e}"),
                    Ok(x) => ser(&x),
                })
            )
            .unwrap();
        }
    }
    sec("decoding", t);

    // a store that fails or has lost nodes
    let mut t = String::new();
    for m in c.muts.iter().take(4) {
        if versions.is_empty() || c.probes.is_empty() {
            break;
        }
        let v = versions[m.1 as usize % versions.len()];
        let k = KeyHash(c.probes[m.2 as usize % c.probes.len()]);
        let s = store.fork();
        if m.0 % 2 == 0 {
            let key = {
                let i = s.0.borrow();
                i.nodes.keys().nth(m.3 as usize % i.nodes.len()).cloned().unwrap()
            };
            s.0.borrow_mut().nodes.remove(&key);
        } else {
            let mut i = s.0.borrow_mut();
            i.reads = 0;
            i.fail_at = Some(1 + u64::from(m.3 % 9));
        }
        let tr = JellyfishMerkleTree::<Mem, H>::new(&s);
        let line = match m.1 % 4 {
            0 => call(|| res(tr.get_with_proof(k, v), |x| ser(&x))),
            1 => call(|| res(tr.get_range_proof(k, v), |x| ser(&x))),
            2 => call(|| res(tr.get_with_exclusion_proof(k, v), |x| match x {
                Ok(x) => ser(&x),
                Err(p) => exclusion(p),
            })),
            _ => call(|| {
                res(tr.put_value_set([(k, None), (KeyHash(c.probes[0]), Some(vec![7]))], last + 1), |x| ser(&(x.0, x.1)))
            }),
        };
        writeln!(t, "fault: {line}").unwrap();
    }
    sec("faults", t);

    // restoring the latest version from chunks, good and bad
    let mut t = String::new();
    if n > 0 {
        let mut all: Vec<(KeyHash, Vec<u8>)> = vec![];
        let mut good = true;
        match catch_unwind(AssertUnwindSafe(|| JellyfishMerkleIterator::new(store.clone(), last, KeyHash([0; 32])))) {
            Ok(Ok(it)) => {
                for x in it.take(2000) {
                    match x {
                        Ok(x) => all.push(x),
                        Err(_) => good = false,
                    }
                }
            }
            _ => good = false,
        }
        let root = roots[roots.len() - 1];
        for bad in [false, true] {
            if !good {
                break;
            }
            let target = Arc::new(Mem::default());
            let version = u64::from(c.muts[1].1);
            let line = call(|| {
                let mut r = match JellyfishMerkleRestore::<H>::new(target.clone(), version, root) {
                    Ok(r) => r,
                    Err(e) => return err(&e),
                };
                let mut s = String::new();
                let mut i = 0;
                let mut j = 2;
                while i < all.len() {
                    let len = 1 + c.muts[j % c.muts.len()].1 as usize % 7;
                    let e = (i + len).min(all.len());
                    let mut chunk = all[i..e].to_vec();
                    let p: SparseMerkleRangeProof<H> = match tree.get_range_proof(chunk[chunk.len() - 1].0, last) {
                        Ok(p) => p,
                        Err(e) => return err(&e),
                    };
                    let mut pb = borsh::to_vec(&p).unwrap();
                    if bad && j % 3 == 0 {
                        let m = &c.muts[j % c.muts.len()];
                        match m.0 % 3 {
                            0 => pb = damage(&pb, m),
                            1 => chunk[0].1.push(1),
                            _ => {
                                chunk.pop();
                            }
                        }
                    }
                    let p = match SparseMerkleRangeProof::<H>::try_from_slice(&pb) {
                        Ok(p) => p,
                        Err(_) => p,
                    };
                    if let Err(e) = r.add_chunk(chunk, p) {
                        writeln!(s, "chunk {i}..{e}: {}", err(&e)).unwrap();
                        break;
                    }
                    i = e;
                    j += 1;
                }
                writeln!(s, "finish: {}", res(r.finish(), |_| "ok".into())).unwrap();
                s
            });
            writeln!(t, "restore (bad: {bad}): {line}").unwrap();
            let i = target.0.borrow();
            writeln!(t, "  wrote {} nodes {} values", i.nodes.len(), i.values.len()).unwrap();
            writeln!(t, "  {} {}", ser(&i.nodes), ser(&i.values)).unwrap();
        }
    }
    sec("restore", t);

    #[cfg(feature = "t_sha2")]
    {
        let mut t = String::new();
        let s = Mem::default();
        let tr = Sha256Jmt::new(&s);
        for (i, set) in c.sets.iter().enumerate().take(2) {
            let l = call(|| {
                res(tr.put_value_set(jset(set), c.start + i as u64), |(r, b)| {
                    s.write_node_batch(&b.node_batch).unwrap();
                    format!("{r:?}")
                })
            });
            writeln!(t, "{l}").unwrap();
        }
        sec("sha2", t);
    }

    #[cfg(feature = "t_ics23")]
    {
        let mut t = String::new();
        for v in &picked {
            for k in c.probes.iter().take(6) {
                writeln!(
                    t,
                    "{v} ics23: {}",
                    call(|| res(tree.get_with_ics23_proof(k.to_vec(), *v), |(x, p)| format!("{} {}", ser(&x), d(format!("{p:?}")))))
                )
                .unwrap();
            }
        }
        writeln!(t, "{:?}", ics23_spec()).unwrap();
        let _ = core::any::type_name::<ics23::ProofSpec>();
        sec("ics23", t);
    }

    #[cfg(feature = "t_migration")]
    {
        let mut t = String::new();
        if n > 0 {
            let s = store.fork();
            let tr = JellyfishMerkleTree::<Mem, H>::new(&s);
            for (j, m) in c.muts.iter().enumerate().take(3) {
                let set = &c.sets[m.1 as usize % c.sets.len()];
                let v = if m.2 % 4 == 0 { last.wrapping_sub(1) } else { last };
                let l = call(|| {
                    res(tr.append_value_set(jset(set), v), |(r, b)| {
                        s.write_node_batch(&b.node_batch).unwrap();
                        format!("{r:?} {}", ser(&b))
                    })
                });
                writeln!(t, "append {j} at {v}: {l}").unwrap();
            }
            let l = call(|| res(tr.put_value_set(jset(&c.sets[0]), last + 1), |x| ser(&(x.0, x.1))));
            writeln!(t, "then: {l}").unwrap();
        }
        sec("migration", t);
    }

    #[cfg(feature = "t_mocks")]
    {
        let mut t = String::new();
        let s = jmt::mock::MockTreeStore::new(c.muts[0].0 % 2 == 0);
        for (i, b) in batches.iter().enumerate() {
            let l = call(|| res(s.write_tree_update_batch(b.clone()), |_| "ok".into()));
            writeln!(t, "write {i}: {l} ({} nodes)", call(|| s.num_nodes().to_string())).unwrap();
            if i % 2 == 1 {
                let l = call(|| res(s.write_tree_update_batch(b.clone()), |_| "ok".into()));
                writeln!(t, "write {i} again: {l}").unwrap();
            }
        }
        let tr = JellyfishMerkleTree::<_, H>::new(&s);
        for k in c.probes.iter().take(4) {
            let l = call(|| res(tr.get_with_proof(KeyHash(*k), last), |x| ser(&x)));
            writeln!(t, "read: {l}").unwrap();
        }
        let l = call(|| {
            res(s.get_rightmost_leaf(), |x| match x {
                // which of several leaves of this key is returned is left open
                Some((_, l)) => format!("{:?}", l.key_hash()),
                None => "none".into(),
            })
        });
        writeln!(t, "rightmost: {l}").unwrap();
        let l = call(|| res(s.purge_stale_nodes(last), |_| "ok".into()));
        writeln!(t, "purge: {l} ({} nodes)", call(|| s.num_nodes().to_string())).unwrap();
        let l = call(|| res(s.get_value(last, KeyHash(c.probes[0])), |x| ser(&x)));
        writeln!(t, "value: {l}").unwrap();
        sec("mocks", t);
    }
    let _ = anyhow!("");
    out
}
