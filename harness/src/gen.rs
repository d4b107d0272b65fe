//! Structured generators.
use crate::model::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

/// A generated history, fully concrete (so that a replay file needs no generator).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    /// 0: sha256, 1: blake3, 2: see `IdHash`, 3: sha512/256, 4: keyed blake3
    pub hasher: u8,
    /// version of the first set
    pub start: u64,
    /// sets[i] is applied at version start + i
    pub sets: Vec<Set>,
    /// how consecutive sets are grouped into calls: (number of versions, entry point)
    pub plan: Vec<(u16, u8)>,
    /// every key of the pool, used or not
    pub pool: Vec<K>,
}

/// Fuzzing dictionary: the integers written in the code under test, from which sizes, lengths,
/// depths and versions are drawn now and then. It decides what is tried, not what is right.
pub fn dict() -> &'static [u64] {
    static D: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = BTreeSet::from([2, 16, 64, 256, 1000]);
        let manifest = include_str!("../Cargo.toml");
        let path = manifest.split("jmt = { path = \"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("/repo");
        let mut dirs = vec![std::path::Path::new(path).join("src")];
        while let Some(dir) = dirs.pop() {
            for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
                let p = e.path();
                if e.file_name().to_string_lossy().contains("test") {
                } else if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().is_some_and(|x| x == "rs") {
                    numbers(&std::fs::read_to_string(p).unwrap_or_default(), &mut d);
                }
            }
        }
        d.into_iter().collect()
    })
}
fn numbers(text: &str, d: &mut BTreeSet<u64>) {
    for line in text.lines() {
        let line = line.split("//").next().unwrap_or_default();
        let words = line.split(|c: char| !c.is_ascii_alphanumeric() && c != '_');
        let found: Vec<u64> = words
            .filter(|w| w.starts_with(|c: char| c.is_ascii_digit()))
            .filter_map(|w| {
                let w = w.replace('_', "");
                let w = w.trim_end_matches("usize");
                let w = ["u8", "u16", "u32", "u64", "u128", "i32", "i64"].iter().fold(w, |w, t| w.trim_end_matches(t));
                match w.get(..2) {
                    Some("0x") => u64::from_str_radix(&w[2..], 16).ok(),
                    Some("0b") => u64::from_str_radix(&w[2..], 2).ok(),
                    _ => w.parse().ok(),
                }
            })
            .collect();
        d.extend(found.iter().filter(|n| **n > 1));
        for w in found.windows(2).filter(|w| w[1] > 1) {
            if line.contains("<<") && w[1] < 64 {
                d.extend(w[0].checked_shl(w[1] as u32));
            }
            if line.contains('*') {
                d.extend(w[0].checked_mul(w[1]));
            }
        }
    }
}
/// A number of the dictionary, or one beside it.
pub fn lit() -> impl Strategy<Value = u64> {
    let d = dict();
    (0..d.len(), prop_oneof![2=>Just(1u64), 1=>Just(0), 1=>Just(2)]).prop_map(move |(i, o)| d[i].saturating_add(o).saturating_sub(1))
}
/// As `lit`, at most `max`.
fn small(max: usize) -> impl Strategy<Value = usize> {
    let d: Vec<usize> = dict().iter().filter(|n| **n < max as u64).map(|n| *n as usize).collect();
    let d = if d.is_empty() { vec![max] } else { d };
    (0..d.len(), prop_oneof![2=>Just(1usize), 1=>Just(0), 1=>Just(2)]).prop_map(move |(i, o)| (d[i] + o).saturating_sub(1).clamp(1, max))
}

/// Raw material for choices made while executing a case.
pub type Mut = (u8, u16, u16, u16);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub h: Hist,
    pub muts: Vec<Mut>,
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub max_keys: usize,
    pub max_versions: usize,
    pub max_set: usize,
    pub deletes: bool,
    /// weight (of 100) of a bulk load of random keys
    pub bulk: u32,
    pub bulk_max: usize,
    pub nonempty_values: bool,
    pub empty_sets: bool,
    pub muts: usize,
    pub plans: bool,
    pub hashers: u8,
    pub starts: bool,
    /// now and then a history of more than 256 versions
    pub long: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            max_keys: 14,
            max_versions: 8,
            max_set: 7,
            deletes: true,
            bulk: 6,
            bulk_max: 120,
            nonempty_values: false,
            empty_sets: true,
            muts: 0,
            plans: true,
            hashers: 2,
            starts: true,
            long: false,
        }
    }
}

#[derive(Clone, Debug)]
enum Tail {
    Same,
    Rand([u8; 32]),
    Zeros,
    Ones,
}
#[derive(Clone, Debug)]
enum KeyRecipe {
    Random([u8; 32]),
    Special(u8),
    /// flip bit `bit` of an earlier key, then the tail
    Flip { base: u16, bit: u16, tail: Tail },
    /// set nibble `d` of an earlier key to `v`, then the tail
    Nib { base: u16, d: u8, v: u8, tail: Tail },
    Succ(u16),
    Pred(u16),
}

fn tail() -> impl Strategy<Value = Tail> {
    prop_oneof![
        3 => any::<[u8;32]>().prop_map(Tail::Rand),
        3 => Just(Tail::Same),
        1 => Just(Tail::Zeros),
        1 => Just(Tail::Ones),
    ]
}
fn bitpos() -> impl Strategy<Value = u16> {
    prop_oneof![
        4 => 0u16..12,
        3 => 0u16..256,
        1 => 240u16..256,
        1 => 12u16..40,
        1 => (small(256), 0u32..3).prop_map(|(n, j)| (n << j) as u16 % 256),
    ]
}
fn recipe() -> impl Strategy<Value = KeyRecipe> {
    prop_oneof![
        3 => any::<[u8;32]>().prop_map(KeyRecipe::Random),
        1 => (0u8..10).prop_map(KeyRecipe::Special),
        8 => (any::<u16>(), bitpos(), tail()).prop_map(|(base,bit,tail)| KeyRecipe::Flip{base,bit,tail}),
        6 => (any::<u16>(), prop_oneof![8=>0u8..4, 4=>0u8..64, 2=>60u8..64, 1=>small(63).prop_map(|n| n as u8)], 0u8..16, tail())
              .prop_map(|(base,d,v,tail)| KeyRecipe::Nib{base,d,v,tail}),
        1 => any::<u16>().prop_map(KeyRecipe::Succ),
        1 => any::<u16>().prop_map(KeyRecipe::Pred),
    ]
}

fn apply_tail(k: &mut K, from_bit: usize, t: &Tail) {
    for i in from_bit..256 {
        let b = match t {
            Tail::Same => return,
            Tail::Rand(r) => bit(r, i),
            Tail::Zeros => false,
            Tail::Ones => true,
        };
        let m = 1u8 << (7 - i % 8);
        if b {
            k.0[i / 8] |= m;
        } else {
            k.0[i / 8] &= !m;
        }
    }
}

fn build_pool(rs: &[KeyRecipe]) -> Vec<K> {
    let mut pool: Vec<K> = vec![];
    for r in rs {
        let pick = |b: u16| -> K {
            if pool.is_empty() {
                K([0x5a; 32])
            } else {
                pool[b as usize * pool.len() >> 16]
            }
        };
        let k = match r {
            KeyRecipe::Random(x) => K(*x),
            KeyRecipe::Special(n) => {
                let mut a = [0u8; 32];
                match n {
                    0 => {}
                    1 => a = [0xff; 32],
                    2 => a = [0x0f; 32],
                    3 => a = [0xf0; 32],
                    4 => a[0] = 0x80,
                    5 => {
                        a = [0xff; 32];
                        a[0] = 0x7f
                    }
                    6 => a[31] = 1,
                    7 => {
                        a = [0xff; 32];
                        a[31] = 0xfe
                    }
                    8 => a = [0x11; 32],
                    _ => a[0] = 0x10,
                }
                K(a)
            }
            KeyRecipe::Flip { base, bit: b, tail } => {
                let mut k = pick(*base);
                let b = *b as usize % 256;
                k.0[b / 8] ^= 1 << (7 - b % 8);
                apply_tail(&mut k, b + 1, tail);
                k
            }
            KeyRecipe::Nib { base, d, v, tail } => {
                let mut k = pick(*base);
                let d = *d as usize % 64;
                k.set_nib(d, *v);
                apply_tail(&mut k, 4 * (d + 1), tail);
                k
            }
            KeyRecipe::Succ(b) => {
                let k = pick(*b);
                k.succ().unwrap_or(k)
            }
            KeyRecipe::Pred(b) => {
                let k = pick(*b);
                k.pred().unwrap_or(k)
            }
        };
        if !pool.contains(&k) {
            pool.push(k);
        }
    }
    pool
}

#[derive(Clone, Debug)]
enum VOp {
    Kvs(Vec<(u16, Option<V>)>),
    /// delete everything but `keep` entries
    DeleteAll(u8),
    Empty,
    NoopDeletes(Vec<u16>),
    RewriteSame(Vec<u16>),
    /// insert `n` pseudo-random keys derived from seed, below a random prefix length
    /// and repeat some of them (a share of 8) later in the set
    Bulk { n: u16, seed: u64, prefix_nibs: u8, dup: u8 },
    /// write or delete a share (of 8) of the live entries, and repeat some of these keys
    Churn { seed: u64, share: u8, dup: u8 },
    /// delete and re-insert in the same set
    Flap(Vec<u16>, V),
    /// children of one node: keys that differ from a pool key in nibble `d`
    Fan { base: u16, d: u8, mask: u16, tail: Tail },
    /// neighbours of one path: a pool key with one nibble changed at each of several depths
    Comb { base: u16, from: u8, step: u8, n: u8, add: u8 },
    /// consecutive keys
    Run { base: u16, n: u16, step: u8 },
    /// delete a pseudo-random share (of 8) of the entries, below a prefix of a live key
    DeleteSome { key: u16, nibs: u8, share: u8, seed: u64, with: Vec<u16> },
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn value(nonempty: bool) -> BoxedStrategy<V> {
    let lo = usize::from(nonempty);
    prop_oneof![
        6 => (1u8..4).prop_map(|b| V(vec![b])),
        1 => vec(any::<u8>(), lo..3).prop_map(V),
        1 => vec(any::<u8>(), lo..80).prop_map(V),
        1 => any::<[u8;32]>().prop_map(|a| V(a.to_vec())),
        1 => prop_oneof![
            4 => Just(lo),
            4 => 60usize..70,
            4 => 120usize..140,
            4 => 250usize..260,
            1 => 65_530usize..65_545,
            1 => 65_536usize..140_000,
            2 => small(140_000),
            3 => (8u32..17, 0usize..3).prop_map(|(k, d)| (1usize << k) + d - 1),
        ].prop_map(|n| V((0..n).map(|i| (i % 251) as u8 + 1).collect())),
    ]
    .boxed()
}

fn vop(c: Cfg) -> BoxedStrategy<VOp> {
    let val = if c.deletes {
        prop_oneof![
            2 => Just(None),
            5 => value(c.nonempty_values).prop_map(Some),
        ]
        .boxed()
    } else {
        value(c.nonempty_values).prop_map(Some).boxed()
    };
    let kvs = vec((any::<u16>(), val), 1..=c.max_set).prop_map(VOp::Kvs);
    let bulk = (prop_oneof![200 => 1u16..=c.bulk_max as u16, 10 => 1u16..=(4 * c.bulk_max) as u16, 1 => 1u16..=(30 * c.bulk_max).min(9000) as u16, 4 => 255u16..258, 8 => small((30 * c.bulk_max).min(9000)).prop_map(|n| n as u16)], any::<u64>(), prop_oneof![3=>Just(0u8), 1=>0u8..6], prop_oneof![4=>Just(0u8), 1=>1u8..8])
        .prop_map(|(n, seed, prefix_nibs, dup)| VOp::Bulk {
            n,
            seed,
            prefix_nibs,
            dup,
        });
    let d = u32::from(c.deletes);
    let e = u32::from(c.empty_sets);
    let depth = || prop_oneof![8=>0u8..4, 4=>0u8..64, 2=>60u8..64, 1=>small(63).prop_map(|n| n as u8)];
    let all: Vec<(u32, BoxedStrategy<VOp>)> = vec![
        (70, kvs.boxed()),
        (5 * d, prop_oneof![Just(0u8), 0u8..3].prop_map(VOp::DeleteAll).boxed()),
        (4 * e, Just(VOp::Empty).boxed()),
        (4 * d, vec(any::<u16>(), 1..3).prop_map(VOp::NoopDeletes).boxed()),
        (4, vec(any::<u16>(), 1..4).prop_map(VOp::RewriteSame).boxed()),
        (
            5 * d,
            (vec(any::<u16>(), 1..4), value(c.nonempty_values))
                .prop_map(|(k, v)| VOp::Flap(k, v))
                .boxed(),
        ),
        (c.bulk, bulk.boxed()),
        (
            3,
            (any::<u64>(), 1u8..9, prop_oneof![Just(0u8), 1u8..5])
                .prop_map(|(seed, share, dup)| VOp::Churn { seed, share, dup })
                .boxed(),
        ),
        (
            3,
            (any::<u16>(), depth(), prop_oneof![Just(0xffffu16), any::<u16>()], tail())
                .prop_map(|(base, d, mask, tail)| VOp::Fan { base, d, mask, tail })
                .boxed(),
        ),
        (
            2,
            (any::<u16>(), prop_oneof![2=>Just(0u8), 1=>0u8..60], 1u8..4, 2u8..20, 1u8..16)
                .prop_map(|(base, from, step, n, add)| VOp::Comb { base, from, step, n, add })
                .boxed(),
        ),
        (
            1,
            (
                any::<u16>(),
                prop_oneof![6=>2u16..20, 2=>2u16..=(c.bulk_max as u16).max(3), 1=>small(c.bulk_max.max(3)).prop_map(|n| n as u16)],
                prop_oneof![3=>Just(1u8), 1=>1u8..20],
            )
                .prop_map(|(base, n, step)| VOp::Run { base, n, step })
                .boxed(),
        ),
        (
            5 * d,
            (any::<u16>(), prop_oneof![3=>0u8..3, 1=>0u8..64], 1u8..9, any::<u64>(), vec(any::<u16>(), 0..3))
                .prop_map(|(key, nibs, share, seed, with)| VOp::DeleteSome { key, nibs, share, seed, with })
                .boxed(),
        ),
    ];
    proptest::strategy::Union::new_weighted(all.into_iter().filter(|(w, _)| *w > 0).collect()).boxed()
}

fn idx(i: u16, n: usize) -> usize {
    (i as usize * n) >> 16
}

/// Repeat a share (of 8) of the keys of a set, with other values or as deletes.
fn repeat(set: &mut Set, dup: u8, s: &mut u64, c: Cfg) {
    let n = set.len();
    for _ in 0..n * dup as usize / 8 {
        let k = set[(splitmix(s) % n as u64) as usize].0;
        let x = splitmix(s);
        let v = if c.deletes && x % 3 == 0 { None } else { Some(V(vec![(x >> 8) as u8 | 1])) };
        let at = if x % 2 == 0 { set.len() } else { (splitmix(s) % (set.len() as u64 + 1)) as usize };
        set.insert(at, (k, v));
    }
}

fn concretize(pool: &mut Vec<K>, ops: &[VOp], c: Cfg) -> Vec<Set> {
    let mut cur = Map::new();
    let mut out = vec![];
    let base = pool.clone();
    for op in ops {
        let live: Vec<K> = cur.keys().copied().collect();
        let set: Set = match op {
            VOp::Kvs(v) => v
                .iter()
                .map(|(i, x)| {
                    // half of the deletes aim at live keys
                    if x.is_none() && !live.is_empty() && i % 2 == 0 {
                        (live[idx(*i, live.len())], None)
                    } else {
                        (base[idx(*i, base.len())], x.clone())
                    }
                })
                .collect(),
            VOp::DeleteAll(keep) => live
                .iter()
                .skip(*keep as usize)
                .map(|k| (*k, None))
                .collect(),
            VOp::Empty => vec![],
            VOp::NoopDeletes(v) => v
                .iter()
                .map(|i| base[idx(*i, base.len())])
                .filter(|k| !cur.contains_key(k))
                .map(|k| (k, None))
                .collect(),
            VOp::RewriteSame(v) => v
                .iter()
                .filter(|_| !live.is_empty())
                .map(|i| {
                    let k = live[idx(*i, live.len())];
                    (k, Some(cur[&k].clone()))
                })
                .collect(),
            VOp::Bulk {
                n,
                seed,
                prefix_nibs,
                dup,
            } => {
                let mut s = *seed;
                let pre = base[idx((seed >> 48) as u16, base.len())];
                let mut set = vec![];
                for _ in 0..*n {
                    let mut a = [0u8; 32];
                    for c in a.chunks_mut(8) {
                        c.copy_from_slice(&splitmix(&mut s).to_be_bytes());
                    }
                    let mut k = K(a);
                    for d in 0..*prefix_nibs as usize {
                        k.set_nib(d, pre.nib(d));
                    }
                    let v = V(vec![(splitmix(&mut s) % 250) as u8 + 1]);
                    if !pool.contains(&k) {
                        pool.push(k);
                    }
                    set.push((k, Some(v)));
                }
                repeat(&mut set, *dup, &mut s, c);
                set
            }
            VOp::Churn { seed, share, dup } => {
                let mut s = *seed;
                let mut set: Set = vec![];
                for k in &live {
                    if splitmix(&mut s) % 8 < u64::from(*share) {
                        let x = splitmix(&mut s);
                        let v = match x % 4 {
                            0 if c.deletes => None,
                            1 => Some(cur[k].clone()),
                            _ => Some(V(vec![(x >> 8) as u8 | 1])),
                        };
                        set.push((*k, v));
                    }
                }
                for i in (1..set.len()).rev() {
                    set.swap(i, (splitmix(&mut s) % (i as u64 + 1)) as usize);
                }
                repeat(&mut set, *dup, &mut s, c);
                set
            }
            VOp::Fan { base: b, d, mask, tail } => {
                let k0 = base[idx(*b, base.len())];
                (0..16u8)
                    .filter(|i| mask >> i & 1 == 1)
                    .map(|i| {
                        let mut k = k0;
                        k.set_nib(*d as usize, i);
                        apply_tail(&mut k, 4 * (*d as usize + 1), tail);
                        (k, Some(V(vec![i + 1])))
                    })
                    .collect()
            }
            VOp::Comb { base: b, from, step, n, add } => {
                let k0 = base[idx(*b, base.len())];
                (0..*n as usize)
                    .map(|i| *from as usize + i * *step as usize)
                    .take_while(|d| *d < 64)
                    .map(|d| {
                        let mut k = k0;
                        k.set_nib(d, (k.nib(d) + add) % 16);
                        (k, Some(V(vec![d as u8 + 1])))
                    })
                    .collect()
            }
            VOp::Run { base: b, n, step } => {
                let mut k = base[idx(*b, base.len())];
                let mut set = vec![];
                for i in 0..*n {
                    set.push((k, Some(V(vec![(i % 255) as u8 + 1]))));
                    for _ in 0..*step {
                        match k.succ() {
                            Some(x) => k = x,
                            None => break,
                        }
                    }
                }
                set
            }
            VOp::DeleteSome { key, nibs, share, seed, with } => {
                let mut set: Set = vec![];
                if !live.is_empty() {
                    let p = live[idx(*key, live.len())];
                    let mut s = *seed;
                    for k in &live {
                        if k.common_bits(&p) >= 4 * *nibs as usize && splitmix(&mut s) % 8 < u64::from(*share) {
                            set.push((*k, None));
                        }
                    }
                    if seed % 3 == 0 {
                        set.reverse();
                    }
                }
                for i in with {
                    let e = (base[idx(*i, base.len())], Some(V(vec![*i as u8 | 1])));
                    if i % 2 == 0 {
                        set.push(e);
                    } else {
                        set.insert(0, e);
                    }
                }
                set
            }
            VOp::Flap(v, x) => {
                let mut set = vec![];
                for i in v {
                    let k = if !live.is_empty() && i % 2 == 0 {
                        live[idx(*i, live.len())]
                    } else {
                        base[idx(*i, base.len())]
                    };
                    if i % 4 < 2 {
                        set.push((k, None));
                        set.push((k, Some(x.clone())));
                    } else {
                        set.push((k, Some(x.clone())));
                        set.push((k, None));
                    }
                }
                set
            }
        };
        if set.is_empty() && !c.empty_sets {
            continue;
        }
        for (k, _) in &set {
            if !pool.contains(k) {
                pool.push(*k);
            }
        }
        apply(&mut cur, &set);
        out.push(set);
    }
    out
}

pub fn hist(c: Cfg) -> BoxedStrategy<Hist> {
    let plan = if c.plans {
        vec((prop_oneof![12 => 1u16..4, 1 => 4u16..12, 1 => Just(200u16), 1 => small(400).prop_map(|n| n as u16)], 0u8..5), 0..4).boxed()
    } else {
        Just(vec![]).boxed()
    };
    let start = if c.starts {
        prop_oneof![
            24 => Just(0u64),
            4 => Just(1u64),
            4 => 2u64..1000,
            1 => Just(u64::MAX / 2),
            1 => prop_oneof![Just(1u64 << 32), Just(1 << 16), Just(1 << 8), Just(1 << 31)]
                .prop_flat_map(|b| (b - 5)..b + 2),
            1 => Just(u64::MAX - 1000),
            2 => (lit(), 0u64..6).prop_map(|(n, d)| n.saturating_sub(d).min(u64::MAX - 1000)),
        ]
        .boxed()
    } else {
        Just(0u64).boxed()
    };
    (
        vec(recipe(), 1..=c.max_keys),
        prop_oneof![
            1200 => vec(vop(c), 1..=c.max_versions),
            u32::from(c.long) => vec(vop(Cfg { max_set: 2, bulk: 0, ..c }), 250..330usize),
            40 => vec(vop(Cfg { max_set: 2, bulk: 1, bulk_max: c.bulk_max.min(8), ..c }), 1..=4 * c.max_versions),
            20 => small(4 * c.max_versions + 4).prop_flat_map(move |n| vec(vop(Cfg { max_set: 2, bulk: 1, bulk_max: c.bulk_max.min(8), ..c }), n)),
            20 => small(40).prop_flat_map(move |n| (vec(vop(c), 1..3), Just(n))).prop_map(|(mut o, n)| {
                // one set of exactly that many different keys
                o.push(VOp::Bulk { n: n as u16, seed: 0x5eed ^ (o.len() as u64) << 7, prefix_nibs: 0, dup: 0 });
                o
            }),
        ],
        plan,
        start,
        if c.hashers > 2 {
            prop_oneof![4=>Just(0u8), 1=>Just(1u8), 1=>Just(2u8)].boxed()
        } else if c.hashers > 1 {
            prop_oneof![16=>Just(0u8), 4=>Just(1u8), 1=>3u8..5].boxed()
        } else {
            Just(0u8).boxed()
        },
    )
        .prop_map(move |(rs, ops, mut plan, start, hasher)| {
            let mut pool = build_pool(&rs);
            let sets = concretize(&mut pool, &ops, c);
            if ops.len() >= 250 && c.plans {
                // few calls, or most checks become quadratic
                plan.truncate(1);
                plan.push((400, plan.first().map_or(0, |p| p.1)));
            }
            Hist {
                hasher,
                start,
                sets,
                plan,
                pool,
            }
        })
        .boxed()
}

pub fn muts(n: usize) -> impl Strategy<Value = Vec<Mut>> {
    vec(any::<Mut>(), n..=n)
}

pub fn case(c: Cfg) -> BoxedStrategy<Case> {
    (hist(c), muts(c.muts))
        .prop_map(|(h, muts)| Case { h, muts })
        .boxed()
}

/// Keys to query: the pool, plus near misses of pool keys chosen by `muts`, plus the extremes.
pub fn probes(pool: &[K], muts: &[Mut], max: usize) -> Vec<K> {
    let mut s: BTreeSet<K> = BTreeSet::new();
    let step = pool.len().div_ceil(max).max(1);
    for k in pool.iter().step_by(step) {
        s.insert(*k);
    }
    for (a, b, c, _) in muts {
        if pool.is_empty() {
            break;
        }
        let k = pool[idx(*b, pool.len())];
        match a % 4 {
            0 => s.extend(k.succ()),
            1 => s.extend(k.pred()),
            _ => {
                let mut k = k;
                let bit = if a % 4 == 2 {
                    *c as usize % 256
                } else {
                    *c as usize % 16
                };
                k.0[bit / 8] ^= 1 << (7 - bit % 8);
                s.insert(k);
            }
        };
    }
    s.insert(K([0; 32]));
    s.insert(K([0xff; 32]));
    s.into_iter().collect()
}

pub fn pick<T: Copy>(v: &[T], i: u16) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        Some(v[idx(i, v.len())])
    }
}
