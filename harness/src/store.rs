//! Storage backends: `RefStore` (independent of the bundled one, with read/write fault injection)
//! and the bundled `MockTreeStore`, behind one trait.
use crate::model::K;
use anyhow::{anyhow, bail, Result};
use jmt::mock::MockTreeStore;
use jmt::storage::*;
use jmt::{KeyHash, OwnedValue, Version};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub trait Backing: TreeReader + TreeWriter {
    fn commit(&self, b: TreeUpdateBatch) -> Result<()>;
    fn purge(&self, least: Version) -> Result<()>;
}

#[derive(Default, Clone)]
pub struct Inner {
    pub nodes: HashMap<NodeKey, Node>,
    pub values: BTreeMap<(K, Version), Option<OwnedValue>>,
    pub stale: BTreeSet<StaleNodeIndex>,
    pub stale_keys: std::collections::HashSet<NodeKey>,
    pub preimages: BTreeMap<K, Vec<u8>>,
    /// reads of any kind so far
    pub reads: u64,
    /// fail the n-th read (counting from 0 at the last `arm`)
    pub fail_at: Option<u64>,
    pub fail_len: u64,
    pub injected: u64,
    /// writes so far / write to fail
    pub writes: u64,
    pub fail_write: Option<u64>,
    pub overwrite: bool,
    /// rightmost leaf of this version's tree instead of over all nodes
    pub latest: Option<Version>,
    pub write_log: Vec<(Vec<NodeKey>, Vec<(Version, K)>)>,
    /// what someone else does to the store right before the n-th read
    pub events: std::collections::VecDeque<(u64, Event)>,
}

#[derive(Clone)]
pub enum Event {
    Commit(TreeUpdateBatch),
    Purge(Version),
}

#[derive(Default)]
pub struct RefStore {
    pub i: RefCell<Inner>,
}

impl RefStore {
    pub fn fork(&self) -> RefStore {
        RefStore {
            i: RefCell::new(self.i.borrow().clone()),
        }
    }
    pub fn arm(&self, n: Option<u64>) {
        let mut i = self.i.borrow_mut();
        i.reads = 0;
        i.injected = 0;
        i.fail_at = n;
        i.fail_len = 1;
    }
    pub fn reads(&self) -> u64 {
        self.i.borrow().reads
    }
    pub fn injected(&self) -> u64 {
        self.i.borrow().injected
    }
    fn tick(&self) -> Result<()> {
        loop {
            let e = {
                let mut i = self.i.borrow_mut();
                let n = i.reads;
                if !i.events.front().is_some_and(|e| e.0 <= n) {
                    break;
                }
                i.events.pop_front().unwrap().1
            };
            match e {
                Event::Commit(b) => self.commit(b)?,
                Event::Purge(v) => self.purge(v)?,
            }
        }
        let mut i = self.i.borrow_mut();
        let n = i.reads;
        i.reads += 1;
        if let Some(f) = i.fail_at {
            if n >= f && n < f + i.fail_len {
                i.injected += 1;
                bail!("INJECTED READ FAULT");
            }
        }
        Ok(())
    }
    /// Everything stored, comparable.
    #[allow(clippy::type_complexity)]
    pub fn snap(
        &self,
    ) -> (
        BTreeMap<NodeKey, Node>,
        BTreeMap<(K, Version), Option<OwnedValue>>,
        BTreeSet<StaleNodeIndex>,
    ) {
        let i = self.i.borrow();
        (
            i.nodes.iter().map(|(k, n)| (k.clone(), n.clone())).collect(),
            i.values.clone(),
            i.stale.clone(),
        )
    }
    pub fn node_keys(&self) -> BTreeSet<NodeKey> {
        self.i.borrow().nodes.keys().cloned().collect()
    }
}

impl TreeReader for RefStore {
    fn get_node_option(&self, k: &NodeKey) -> Result<Option<Node>> {
        self.tick()?;
        Ok(self.i.borrow().nodes.get(k).cloned())
    }
    fn get_value_option(&self, max: Version, k: KeyHash) -> Result<Option<OwnedValue>> {
        self.tick()?;
        let k = K(k.0);
        Ok(self
            .i
            .borrow()
            .values
            .range((k, 0)..=(k, max))
            .next_back()
            .and_then(|(_, v)| v.clone()))
    }
    fn get_rightmost_leaf(&self) -> Result<Option<(NodeKey, LeafNode)>> {
        self.tick()?;
        let i = self.i.borrow();
        if let Some(v) = i.latest {
            let mut nk = NodeKey::new(v, std::iter::empty().collect());
            loop {
                match i.nodes.get(&nk) {
                    Some(Node::Internal(n)) => {
                        let (nib, c) = n.children_sorted().last().unwrap();
                        nk = NodeKey::new(
                            c.version,
                            nk.nibble_path()
                                .nibbles()
                                .chain(std::iter::once(nib))
                                .collect(),
                        );
                    }
                    Some(Node::Leaf(l)) => return Ok(Some((nk, l.clone()))),
                    _ => return Ok(None),
                }
            }
        }
        let mut best: Option<(NodeKey, LeafNode)> = None;
        for (k, n) in i.nodes.iter() {
            if let Node::Leaf(l) = n {
                let better = match &best {
                    None => true,
                    Some((bk, bl)) => (l.key_hash(), k.version()) > (bl.key_hash(), bk.version()),
                };
                if better {
                    best = Some((k.clone(), l.clone()));
                }
            }
        }
        Ok(best)
    }
}

impl HasPreimage for RefStore {
    fn preimage(&self, k: KeyHash) -> Result<Option<Vec<u8>>> {
        self.tick()?;
        Ok(self.i.borrow().preimages.get(&K(k.0)).cloned())
    }
}

impl TreeWriter for RefStore {
    fn write_node_batch(&self, b: &NodeBatch) -> Result<()> {
        let mut i = self.i.borrow_mut();
        let n = i.writes;
        i.writes += 1;
        if i.fail_write == Some(n) {
            bail!("INJECTED WRITE FAULT");
        }
        if !i.overwrite {
            if let Some(k) = b.nodes().keys().find(|k| i.nodes.contains_key(k)) {
                return Err(anyhow!("STORE: node {:?} would be overwritten", k));
            }
        }
        for (k, n) in b.nodes() {
            i.nodes.insert(k.clone(), n.clone());
        }
        for ((v, k), x) in b.values() {
            i.values.insert((K(k.0), *v), x.clone());
        }
        let log = (
            b.nodes().keys().cloned().collect(),
            b.values().keys().map(|(v, k)| (*v, K(k.0))).collect(),
        );
        i.write_log.push(log);
        Ok(())
    }
}

impl Backing for RefStore {
    fn commit(&self, b: TreeUpdateBatch) -> Result<()> {
        self.write_node_batch(&b.node_batch)?;
        let mut i = self.i.borrow_mut();
        for s in b.stale_node_index_batch {
            if !i.nodes.contains_key(&s.node_key) {
                bail!("STORE: stale record {:?} for a node that does not exist", s);
            }
            if !i.stale_keys.insert(s.node_key.clone()) {
                bail!("STORE: node {:?} recorded stale twice", s.node_key);
            }
            i.stale.insert(s);
        }
        Ok(())
    }
    fn purge(&self, least: Version) -> Result<()> {
        let mut i = self.i.borrow_mut();
        let drop: Vec<_> = i
            .stale
            .iter()
            .filter(|s| s.stale_since_version <= least)
            .cloned()
            .collect();
        for s in drop {
            if i.nodes.remove(&s.node_key).is_none() {
                bail!("STORE: stale record {:?} refers to a missing node", s);
            }
            i.stale.remove(&s);
            i.stale_keys.remove(&s.node_key);
        }
        Ok(())
    }
}

impl Backing for MockTreeStore {
    fn commit(&self, b: TreeUpdateBatch) -> Result<()> {
        self.write_tree_update_batch(b)
    }
    fn purge(&self, least: Version) -> Result<()> {
        self.purge_stale_nodes(least)
    }
}
