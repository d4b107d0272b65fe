//! C05, C06: exclusion proofs and ICS23 proofs.
use super::core::{classify, HIST_RULE};
use crate::env::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::{Ctx, Def};
use crate::store::*;
use crate::{chk, fail, with_hasher};
use crate::hasher::RefHasher;
use jmt::{ExclusionProof, JellyfishMerkleTree, RootHash};

fn check_side<H: RefHasher>(
    what: &str,
    got: Option<&jmt::proof::SparseMerkleProof<H>>,
    want: Option<K>,
    m: &Map,
    all: &[(H32, H32)],
    root: &H32,
) -> R {
    match (got, want) {
        (None, None) => Ok(()),
        (None, Some(w)) => Err(format!("{what} neighbour {w:?} is left out")),
        (Some(p), None) => Err(format!("{what} neighbour {:?} given, none exists", p.leaf())),
        (Some(p), Some(w)) => {
            let g = from_jmt::<H>(p);
            let vh = H::reference(&m[&w].0);
            chk!(
                g.leaf == Some((w.0, vh)),
                "{what} neighbour {:?}, expected {w:?} with value hash {}",
                g.leaf.map(|(k, v)| (K(k), hex::encode(v))),
                hex::encode(vh)
            );
            chk!(g == proof::<H>(all, &w.0), "{what} neighbour {w:?}: unexpected path {g:?}");
            verify::<H>(root, &w.0, Some(&vh), &g)
                .map_err(|e| format!("{what} neighbour {w:?}: {e}"))?;
            ok(
                p.verify_existence(RootHash(*root), w.kh(), &m[&w].0),
                format!("{what} neighbour {w:?} does not verify"),
            )
        }
    }
}

fn c05<H: RefHasher>(c: &Case, ctx: &mut Ctx) -> R {
    let store = RefStore::default();
    let b = build::<H, RefStore>(&c.h, &store)?;
    let tree = JellyfishMerkleTree::<RefStore, H>::new(&store);
    let probes = probes(&c.h.pool, &c.muts, 40);
    let n = b.maps.len();
    for (i, (v, m)) in b.versions().enumerate() {
        if i + 4 < n && i % 3 != 0 {
            continue;
        }
        let all = leaves::<H>(m);
        let root = subtree::<H>(&all, 0);
        for k in &probes {
            let r = tree.get_with_exclusion_proof(k.kh(), v);
            if m.is_empty() {
                chk!(r.is_err(), "version {v}: exclusion proof {:?} on an empty tree", r.unwrap().is_err());
                continue;
            }
            let at = |e: String| format!("version {v}, key {k:?}: {e}");
            match (ok(r, format!("exclusion proof of {k:?} at {v}"))?, m.get(k)) {
                (Ok((val, p)), Some(want)) => {
                    chk!(val == want.0, "version {v}: value of {k:?} is {val:?}, expected {want:?}");
                    check_side::<H>("own", Some(&p), Some(*k), m, &all, &root).map_err(at)?;
                    ctx.tag("present keys", 1);
                }
                (Err(x), None) => {
                    let (l, r) = match &x {
                        ExclusionProof::Leftmost { leftmost_right_proof } => {
                            ctx.tag("absent keys left of everything", 1);
                            (None, Some(leftmost_right_proof))
                        }
                        ExclusionProof::Middle { leftmost_right_proof, rightmost_left_proof } => {
                            ctx.tag("absent keys between two entries", 1);
                            (Some(rightmost_left_proof), Some(leftmost_right_proof))
                        }
                        ExclusionProof::Rightmost { rightmost_left_proof } => {
                            ctx.tag("absent keys right of everything", 1);
                            (Some(rightmost_left_proof), None)
                        }
                    };
                    check_side::<H>("left", l, lower(m, k), m, &all, &root).map_err(at)?;
                    check_side::<H>("right", r, upper(m, k), m, &all, &root).map_err(at)?;
                }
                (Ok((val, _)), None) => fail!("version {v}: absent key {k:?} reported with value {val:?}"),
                (Err(_), Some(_)) => fail!("version {v}: exclusion proof for present key {k:?}"),
            }
        }
    }
    let l = b.last_version();
    chk!(
        tree.get_with_exclusion_proof(probes[0].kh(), l + 1).is_err(),
        "exclusion proof at a version that was never committed"
    );
    Ok(())
}

pub static C05: Def<Case> = Def {
    id: "C05",
    rule: HIST_RULE,
    assumptions: &["neighbours are compared with the ordered map of the model, paths with its canonical proof"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            muts: 16,
            max_keys: if t { 30 } else { 18 },
            max_versions: if t { 8 } else { 5 },
            bulk_max: if t { 500 } else { 100 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        ctx.nontrivial = classify(&c.h, ctx);
        with_hasher!(c.h.hasher, c05(c, ctx))
    },
    quick: 30_000,
    thorough: 200_000,
};

// ---------------------------------------------------------------- C06

/// Host functions of the verifier for the two hash functions used here.
pub struct Host<const ID: bool>;
impl<const ID: bool> ics23::HostFunctionsProvider for Host<ID> {
    fn sha2_256(m: &[u8]) -> [u8; 32] {
        if ID {
            crate::hasher::id_or_sha(m)
        } else {
            crate::hasher::sha(m)
        }
    }
    fn sha2_512(_: &[u8]) -> [u8; 64] {
        panic!("unexpected hash function")
    }
    fn sha2_512_truncated(_: &[u8]) -> [u8; 32] {
        panic!("unexpected hash function")
    }
    fn keccak_256(_: &[u8]) -> [u8; 32] {
        panic!("unexpected hash function")
    }
    fn ripemd160(_: &[u8]) -> [u8; 20] {
        panic!("unexpected hash function")
    }
    fn blake2b_512(_: &[u8]) -> [u8; 64] {
        panic!("unexpected hash function")
    }
    fn blake2s_256(_: &[u8]) -> [u8; 32] {
        panic!("unexpected hash function")
    }
    fn blake3(_: &[u8]) -> [u8; 32] {
        panic!("unexpected hash function")
    }
}

/// The specification as published with the documented node hashing.
fn spec() -> ics23::ProofSpec {
    let sha = ics23::HashOp::Sha256 as i32;
    ics23::ProofSpec {
        leaf_spec: Some(ics23::LeafOp {
            hash: sha,
            prehash_key: sha,
            prehash_value: sha,
            length: ics23::LengthOp::NoPrefix as i32,
            prefix: b"JMT::LeafNode".to_vec(),
        }),
        inner_spec: Some(ics23::InnerSpec {
            hash: sha,
            child_order: vec![0, 1],
            min_prefix_length: 16,
            max_prefix_length: 16,
            child_size: 32,
            empty_child: PLACEHOLDER.to_vec(),
        }),
        min_depth: 0,
        max_depth: 64,
        prehash_key_before_comparison: true,
    }
}

/// In identity mode a key hash is its own preimage; otherwise keys are byte strings of 1..=32 bytes.
fn preimage(id: bool, k: &K) -> Vec<u8> {
    if id {
        k.0.to_vec()
    } else {
        k.0[..1 + k.0[31] as usize % 32].to_vec()
    }
}

fn c06<H: RefHasher, P: ics23::HostFunctionsProvider>(c: &Case, id: bool, ctx: &mut Ctx) -> R {
    let sp = jmt::ics23_spec();
    let own = spec();
    chk!(
        sp.leaf_spec == own.leaf_spec && sp.inner_spec == own.inner_spec && sp.prehash_key_before_comparison,
        "published ICS23 specification differs from the documented hashing: {sp:?}"
    );
    let raw = probes(&c.h.pool, &c.muts, 16);
    let mut h = c.h.clone();
    let store = RefStore::default();
    {
        let mut i = store.i.borrow_mut();
        for s in &mut h.sets {
            for (k, _) in s {
                let pre = preimage(id, k);
                *k = K(H::reference(&pre));
                i.preimages.insert(*k, pre);
            }
        }
    }
    let queries: Vec<Vec<u8>> = raw.iter().map(|k| preimage(id, k)).collect();
    let b = build::<H, RefStore>(&h, &store)?;
    let tree = JellyfishMerkleTree::<RefStore, H>::new(&store);
    let n = b.maps.len();
    let others: [&[u8]; 2] = [&[0xEE, 0xEE, 0xEE], &[1]];
    for (i, (v, m)) in b.versions().enumerate() {
        if m.is_empty() || (i + 3 < n && i % 3 != 0) {
            continue;
        }
        let root = b.roots[i].to_vec();
        for q in &queries {
            let k = K(H::reference(q));
            let (val, p) = ok(
                tree.get_with_ics23_proof(q.clone(), v),
                format!("ICS23 proof of {} at {v}", hex::encode(q)),
            )?;
            let want = m.get(&k).map(|v| v.0.clone());
            chk!(val == want, "version {v}: ICS23 query of {k:?} returns {val:?}, expected {want:?}");
            for s in [&sp, &own] {
                match &want {
                    Some(x) => {
                        chk!(
                            ics23::verify_membership::<P>(&p, s, &root, q, x),
                            "version {v}: ICS23 membership proof of {k:?} rejected: {p:?}"
                        );
                        chk!(
                            !ics23::verify_non_membership::<P>(&p, s, &root, q),
                            "version {v}: ICS23 proof of present key {k:?} accepted as non-membership"
                        );
                    }
                    None => {
                        chk!(
                            ics23::verify_non_membership::<P>(&p, s, &root, q),
                            "version {v}: ICS23 non-membership proof of {k:?} rejected: {p:?}"
                        );
                    }
                }
            }
            ctx.tag(if want.is_some() { "membership proofs" } else { "non-membership proofs" }, 1);
            // false statements
            for x in others {
                if want.as_deref() != Some(x) {
                    chk!(
                        !ics23::verify_membership::<P>(&p, &sp, &root, q, x),
                        "version {v}: ICS23 proof of {k:?} accepted for another value"
                    );
                }
            }
            for o in queries.iter().take(8) {
                let ok_ = K(H::reference(o));
                if m.contains_key(&ok_) {
                    chk!(
                        !ics23::verify_non_membership::<P>(&p, &sp, &root, o),
                        "version {v}: ICS23 proof of {k:?} accepted as non-membership of present {ok_:?}"
                    );
                }
                for x in want.iter().map(|x| &x[..]).chain(others) {
                    if m.get(&ok_).map(|v| &v.0[..]) != Some(x) {
                        chk!(
                            !ics23::verify_membership::<P>(&p, &sp, &root, o, x),
                            "version {v}: ICS23 proof of {k:?} accepted as membership of {ok_:?}"
                        );
                    }
                }
            }
            for j in [i.wrapping_sub(1), i + 1] {
                if j < n && b.maps[j] != *m {
                    let r = b.roots[j].to_vec();
                    let acc = match &want {
                        Some(x) => ics23::verify_membership::<P>(&p, &sp, &r, q, x),
                        None => ics23::verify_non_membership::<P>(&p, &sp, &r, q),
                    };
                    chk!(!acc, "version {v}: ICS23 proof of {k:?} accepted for the root of another map");
                }
            }
        }
    }
    // some preimages unknown to the store: an error, or a proof that verifies
    let sel = c.muts[1].1;
    if c.muts[1].0 % 2 == 0 {
        store.i.borrow_mut().preimages.retain(|k, _| {
            let mut s = u64::from(sel) ^ u64::from_be_bytes(k.0[24..].try_into().unwrap());
            splitmix(&mut s) % 4 >= u64::from(sel % 5)
        });
        for (i, (v, m)) in b.versions().enumerate() {
            if m.is_empty() || i + 2 < n {
                continue;
            }
            let root = b.roots[i].to_vec();
            for q in &queries {
                let k = K(H::reference(q));
                let want = m.get(&k).map(|v| v.0.clone());
                match tree.get_with_ics23_proof(q.clone(), v) {
                    Ok((val, p)) => {
                        chk!(val == want, "version {v}: ICS23 query of {k:?} returns {val:?}, expected {want:?}");
                        let acc = match &want {
                            Some(x) => ics23::verify_membership::<P>(&p, &own, &root, q, x),
                            None => ics23::verify_non_membership::<P>(&p, &own, &root, q),
                        };
                        chk!(acc, "version {v}: with preimages missing, the ICS23 proof of {k:?} is rejected: {p:?}");
                        ctx.tag("answers with preimages missing", 1);
                    }
                    Err(_) => ctx.tag("refusals with preimages missing", 1),
                }
            }
        }
    }
    Ok(())
}

pub static C06: Def<Case> = Def {
    id: "C06",
    rule: HIST_RULE,
    assumptions: &[
        "two thirds of the cases use a hash function that maps 32-byte messages to themselves (for jmt and verifier alike), so that key hashes can be chosen; the others real sha256 with keys of 1 to 32 bytes",
    ],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            muts: 8,
            max_keys: if t { 24 } else { 14 },
            max_versions: if t { 6 } else { 4 },
            bulk_max: if t { 200 } else { 50 },
            nonempty_values: true,
            hashers: 1,
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        ctx.nontrivial = classify(&c.h, ctx);
        if c.muts[0].0 % 3 == 0 {
            ctx.tag("cases with real sha256", 1);
            c06::<crate::hasher::Sha, Host<false>>(c, false, ctx)
        } else {
            c06::<crate::hasher::IdHash, Host<true>>(c, true, ctx)
        }
    },
    quick: 30_000,
    thorough: 60_000,
};
