//! C25: the library behaves the same in all feature configurations.
use super::core::classify;
use crate::env::*;
use crate::gen::*;
use crate::runner::{guard, Ctx, Def};
use crate::transcript::{transcript, Section, Tc};
use crate::{chk, fail};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Conf {
    name: String,
    child: Child,
    i: ChildStdin,
    o: ChildStdout,
}
impl Drop for Conf {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static CONFS: RefCell<Option<Vec<Conf>>> = const { RefCell::new(None) };
}

fn dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())).join("harness/target/cfgs")
}

fn start() -> Result<Vec<Conf>, String> {
    let mut out = vec![];
    let mut names: Vec<PathBuf> = std::fs::read_dir(dir())
        .expect("configurations have to be built by cfgs.sh")
        .map(|e| e.unwrap().path())
        .collect();
    names.sort();
    for p in names {
        let name = p.file_name().unwrap().to_string_lossy().to_string();
        if let Ok(e) = std::fs::read_to_string(p.join("error")) {
            fail!("the library does not build with the features \"{name}\": {e}");
        }
        let mut child = Command::new(p.join("bin"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("start configuration");
        let i = child.stdin.take().unwrap();
        let o = child.stdout.take().unwrap();
        out.push(Conf { name, child, i, o });
    }
    assert!(out.len() >= 10, "configurations have to be built by cfgs.sh");
    Ok(out)
}

fn ask(c: &mut Conf, b: &[u8]) -> std::io::Result<Vec<Section>> {
    c.i.write_all(&(b.len() as u32).to_le_bytes())?;
    c.i.write_all(b)?;
    c.i.flush()?;
    let mut l = [0u8; 4];
    c.o.read_exact(&mut l)?;
    let mut r = vec![0; u32::from_le_bytes(l) as usize];
    c.o.read_exact(&mut r)?;
    Ok(borsh::from_slice(&r).expect("transcript"))
}

fn c25(c: &Case, ctx: &mut Ctx) -> R {
    let t = Tc {
        hasher: c.h.hasher,
        start: c.h.start,
        sets: c
            .h
            .sets
            .iter()
            .map(|s| s.iter().map(|(k, v)| (k.0, v.as_ref().map(|v| v.0.clone()))).collect())
            .collect(),
        plan: c.h.plan.iter().map(|(n, m)| (*n as u8, *m)).collect(),
        muts: c.muts.clone(),
        probes: probes(&c.h.pool, &c.muts, 8).iter().map(|k| k.0).collect(),
    };
    let own = guard(|| transcript(&t))?;
    for (_, s) in &own {
        ctx.tag("operations compared", s.lines().count() as u64);
        ctx.tag("errors compared", s.matches("error ").count() as u64);
        ctx.tag("missing roots compared", s.matches("error missing root").count() as u64);
    }
    let b = borsh::to_vec(&t).unwrap();
    CONFS.with(|cs| {
        let mut cs = cs.borrow_mut();
        if cs.is_none() {
            *cs = Some(start()?);
        }
        let mut dead = false;
        let mut verdict = Ok(());
        for c in cs.as_mut().unwrap() {
            match ask(c, &b) {
                Err(_) => {
                    dead = true;
                    verdict = Err(format!("built with the features \"{}\", the process dies on this case", c.name));
                }
                Ok(got) => {
                    let r = same(&c.name, &own, &got, ctx);
                    if r.is_err() && verdict.is_ok() {
                        verdict = r;
                    }
                }
            }
        }
        if dead {
            *cs = None;
        }
        verdict
    })
}

fn same(name: &str, own: &[Section], got: &[Section], ctx: &mut Ctx) -> R {
    for base in ["updates", "reads", "queries", "decoding", "faults", "restore"] {
        chk!(got.iter().any(|s| s.0 == base), "no section {base} from {name}");
    }
    for (s, text) in got {
        let Some((_, want)) = own.iter().find(|x| x.0 == *s) else {
            fail!("unexpected section {s} from {name}");
        };
        ctx.tag("sections compared", 1);
        if text == want {
            continue;
        }
        let (mut a, mut b) = (want.lines(), text.lines());
        loop {
            let (x, y) = (a.next(), b.next());
            if x != y || x.is_none() {
                fail!(
                    "built with the features \"{name}\" the library behaves differently ({s}): {y:?}, with all features {x:?}"
                );
            }
        }
    }
    Ok(())
}

pub static C25: Def<Case> = Def {
    id: "C25",
    rule: "histories as for C01 (also with the library's TransparentHasher); updates, reads, proofs, iteration, decoding, faults, restores and, where built in, ICS23 proofs, appends and the bundled store, in nine feature sets and once without debug assertions and overflow checks; non-trivial: a history that deletes or overwrites and has two entries with the same first nibble",
    assumptions: &["the dependencies themselves are built with their standard features"],
    level: "exploration",
    strategy: |t| {
        case(Cfg {
            muts: 6,
            max_versions: if t { 10 } else { 6 },
            hashers: 3,
            bulk: 3,
            bulk_max: if t { 200 } else { 60 },
            ..Cfg::default()
        })
    },
    check: |c, ctx| {
        let r = c25(c, ctx);
        ctx.nontrivial = classify(&c.h, ctx);
        r
    },
    quick: 1_600,
    thorough: 60_000,
};
