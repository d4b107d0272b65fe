//! Drives a property: generation, parallel evaluation, shrinking, replay files, evidence.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Per-case bookkeeping: classification counters and the non-triviality verdict.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub tags: BTreeMap<&'static str, u64>,
}
impl Ctx {
    pub fn tag(&mut self, t: &'static str, n: u64) {
        if n > 0 {
            *self.tags.entry(t).or_default() += n;
        }
    }
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub root: PathBuf,
    pub threads: usize,
    pub cases: Option<u64>,
    /// write every case down before it runs, to find the one the process dies of
    pub careful: bool,
}

/// Built like a release of users: without debug assertions and overflow checks.
pub const PLAIN: bool = !cfg!(debug_assertions);

/// The evidence of the first pass with what the second one adds.
fn second(file: &Path, ev: serde_json::Value) -> serde_json::Value {
    let first = std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok());
    let Some(mut x) = first else { return ev };
    for k in ["evaluations", "distinct_nontrivial", "cut_short_by_time_limit"] {
        x["coverage"][format!("without debug assertions: {k}")] = ev["coverage"][k].clone();
    }
    x["violations"] = ev["violations"].clone();
    x["wall_s"] = (x["wall_s"].as_f64().unwrap_or(0.0) + ev["wall_s"].as_f64().unwrap_or(0.0)).into();
    x
}

pub const HANG_SECS: u64 = 100;

pub fn crash_file(o: &Opts, id: &str, w: usize) -> PathBuf {
    o.root.join("replays").join(format!("{id}-crash-{w}.json"))
}

fn replay_body<C: Serialize>(id: &str, reason: &str, c: &C) -> String {
    serde_json::to_string_pretty(&serde_json::json!({"property": id, "reason": reason, "case": c}))
        .unwrap()
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn run(&self, o: &Opts) -> i32;
    fn replay(&self, json: &str) -> Result<(), String>;
}

pub struct Def<C> {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
    pub strategy: fn(bool) -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Ctx) -> Result<(), String>,
    pub quick: u64,
    pub thorough: u64,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    /// how many `guard`s catch a panic here
    static GUARDS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// A replay runs: what depends on the scheduler is tried more often.
pub static REPLAY: AtomicBool = AtomicBool::new(false);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if GUARDS.with(|g| g.get()) == 0 {
            eprintln!("harness: panic: {msg} [{loc}]");
        }
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} [{loc}]"));
    }));
}

/// Run code under test; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDS.with(|g| g.set(g.get() + 1));
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    GUARDS.with(|g| g.set(g.get() - 1));
    r.map_err(|_| format!("PANIC: {}", PANIC.with(|p| p.borrow().clone())))
}

struct Finding {
    property: String,
    needle: String,
    what: String,
}

/// known_findings.txt: `finding: property=<id> match="<text>" <what fails>`
fn load_findings(root: &Path) -> Vec<Finding> {
    let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) else {
        return vec![];
    };
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (id, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("match=\"")?;
            let (needle, what) = rest.split_once('"')?;
            Some(Finding {
                property: id.into(),
                needle: needle.into(),
                what: what.trim().into(),
            })
        })
        .collect()
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: HashSet<u64>,
    distinct: HashSet<u64>,
    tags: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
    truncated: bool,
    known: BTreeMap<usize, u64>,
}

fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| {
        (h ^ *x as u64).wrapping_mul(0x100000001b3)
    })
}

fn write_replay<C: Serialize>(o: &Opts, id: &str, reason: &str, c: &C) -> PathBuf {
    let dir = o.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let s = replay_body(id, reason, c);
    let p = dir.join(format!("{id}-{:016x}.json", fnv(s.as_bytes())));
    std::fs::write(&p, s).expect("write replay");
    p
}

fn clip(v: serde_json::Value) -> serde_json::Value {
    let s = v.to_string();
    if s.len() <= 2500 {
        v
    } else {
        let mut e = 2500;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        serde_json::Value::String(format!("{}... ({} bytes)", &s[..e], s.len()))
    }
}

struct OnDrop<'a>(&'a std::sync::atomic::AtomicUsize);
impl Drop for OnDrop<'_> {
    fn drop(&mut self) {
        self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }
}

impl<C> Def<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
{
    fn eval(&self, c: &C, ctx: &mut Ctx) -> Result<(), String> {
        match guard(|| (self.check)(c, ctx)) {
            Ok(r) => r,
            Err(p) => Err(p),
        }
    }
}

impl<C> Prop for Def<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
{
    fn id(&self) -> &'static str {
        self.id
    }

    fn replay(&self, json: &str) -> Result<(), String> {
        let v: serde_json::Value = serde_json::from_str(json).expect("replay file is JSON");
        let c: C = serde_json::from_value(v["case"].clone()).expect("replay case");
        REPLAY.store(true, Ordering::SeqCst);
        self.eval(&c, &mut Ctx::default())
    }

    fn run(&self, o: &Opts) -> i32 {
        let t0 = Instant::now();
        let findings = load_findings(&o.root);
        let mut cases = o
            .cases
            .unwrap_or(if o.thorough { self.thorough } else { self.quick });
        let mut limit = if o.thorough {
            Duration::from_secs(3 * 3600)
        } else {
            Duration::from_secs(400)
        };
        if PLAIN {
            // a second pass, with other cases
            cases = cases.div_ceil(4);
            limit /= 3;
        }
        let deadline = t0 + limit;
        let stop = AtomicBool::new(false);
        let finished = AtomicUsize::new(0);
        let fails: Mutex<Vec<(String, C)>> = Mutex::new(vec![]);
        let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
        let total: Mutex<Stats> = Mutex::new(Stats::default());
        let slots: Vec<Mutex<Option<(Instant, C)>>> =
            (0..o.threads).map(|_| Mutex::new(None)).collect();

        // committed regression cases first
        let mut regress = 0u64;
        if let Ok(d) = std::fs::read_dir(o.root.join("regress").join(self.id)) {
            let mut files: Vec<_> = d.filter_map(|e| e.ok().map(|e| e.path())).collect();
            files.sort();
            for f in files {
                let s = std::fs::read_to_string(&f).expect("regression case");
                let v: serde_json::Value = serde_json::from_str(&s).expect("regression JSON");
                let c: C = serde_json::from_value(v["case"].clone()).expect("regression case");
                regress += 1;
                if let Err(e) = self.eval(&c, &mut Ctx::default()) {
                    if !findings
                        .iter()
                        .any(|x| x.property == self.id && e.contains(&x.needle))
                    {
                        fails.lock().unwrap().push((e, c));
                    }
                }
            }
        }

        if fails.lock().unwrap().is_empty() {
            std::thread::scope(|sc| {
                for w in 0..o.threads {
                    let (stop, fails, errors, total, slots, findings, finished) =
                        (&stop, &fails, &errors, &total, &slots, &findings, &finished);
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(sc, move || {
                            // counted however the thread ends
                            let _end = OnDrop(finished);
                            let mut st = Stats::default();
                            let n = cases / o.threads as u64
                                + u64::from((w as u64) < cases % o.threads as u64);
                            let seed = crate::hasher::sha(
                                format!("jmt-verif/{}/{}/{}{}", self.id, o.seed, w, if PLAIN { "/plain" } else { "" }).as_bytes(),
                            );
                            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
                            let cfg = Config {
                                cases: n as u32,
                                failure_persistence: None,
                                source_file: None,
                                max_shrink_iters: 4000,
                                max_shrink_time: if o.thorough { 60_000 } else { 20_000 },
                                ..Config::default()
                            };
                            let mut runner = TestRunner::new_with_rng(cfg, rng);
                            let strat = (self.strategy)(o.thorough);
                            let cell = RefCell::new((&mut st, false));
                            let r = runner.run(&strat, |c| {
                                let mut b = cell.borrow_mut();
                                let (st, failed) = &mut *b;
                                if !*failed
                                    && (stop.load(Ordering::Relaxed) || Instant::now() > deadline)
                                {
                                    st.truncated = true;
                                    return Ok(());
                                }
                                *slots[w].lock().unwrap() = Some((Instant::now(), c.clone()));
                                if o.careful {
                                    std::fs::write(crash_file(o, self.id, w), replay_body(self.id, "the process dies", &c)).expect("crash file");
                                }
                                let mut ctx = Ctx::default();
                                let r = self.eval(&c, &mut ctx);
                                *slots[w].lock().unwrap() = None;
                                if !*failed {
                                    st.evals += 1;
                                    let j = serde_json::to_vec(&c).unwrap();
                                    let h = fnv(&j);
                                    st.distinct.insert(h);
                                    if ctx.nontrivial {
                                        if st.nontrivial.insert(h)
                                            && st.samples.len() < 2
                                            && j.len() < 2400
                                        {
                                            st.samples.push(clip(serde_json::to_value(&c).unwrap()));
                                        }
                                    }
                                    for (t, n) in ctx.tags {
                                        *st.tags.entry(t).or_default() += n;
                                    }
                                }
                                match r {
                                    Ok(()) => Ok(()),
                                    Err(e) => {
                                        if let Some(i) = findings.iter().position(|f| {
                                            f.property == self.id && e.contains(&f.needle)
                                        }) {
                                            *st.known.entry(i).or_default() += 1;
                                            return Ok(());
                                        }
                                        *failed = true;
                                        stop.store(true, Ordering::Relaxed);
                                        Err(TestCaseError::fail(e))
                                    }
                                }
                            });
                            match r {
                                Ok(()) => {}
                                Err(TestError::Fail(reason, c)) => {
                                    fails.lock().unwrap().push((reason.message().to_string(), c))
                                }
                                Err(TestError::Abort(reason)) => {
                                    errors.lock().unwrap().push(reason.message().to_string())
                                }
                            }
                            let mut t = total.lock().unwrap();
                            t.evals += st.evals;
                            t.nontrivial.extend(st.nontrivial);
                            t.distinct.extend(st.distinct);
                            for (k, n) in st.tags {
                                *t.tags.entry(k).or_default() += n;
                            }
                            for (k, n) in st.known {
                                *t.known.entry(k).or_default() += n;
                            }
                            t.truncated |= st.truncated;
                            if t.samples.len() < 4 {
                                t.samples.extend(st.samples);
                            }
                        })
                        .expect("spawn");
                }
                // watchdog
                let (finished, slots) = (&finished, &slots);
                let thorough = o.thorough;
                let threads = o.threads;
                sc.spawn(move || {
                    while finished.load(Ordering::SeqCst) < threads {
                        std::thread::sleep(Duration::from_millis(50));
                        for s in slots {
                            let s = s.lock().unwrap();
                            if let Some((t, c)) = &*s {
                                if t.elapsed() > Duration::from_secs(HANG_SECS) {
                                    let why = format!("the case does not terminate within {HANG_SECS} s");
                                    let p = write_replay(o, self.id, &why, c);
                                    println!("property {}: {why}", self.id);
                                    println!("VIOLATION property={} replay={}", self.id, p.display());
                                    std::process::exit(1);
                                }
                            }
                        }
                        if !thorough && t0.elapsed() > Duration::from_secs(700) {
                            eprintln!("harness: out of time");
                            std::process::exit(2);
                        }
                    }
                });
            });
        }

        let t = total.into_inner().unwrap();
        let mut fails = fails.into_inner().unwrap();
        let errors = errors.into_inner().unwrap();
        fails.sort_by_key(|(_, c)| serde_json::to_vec(c).unwrap().len());
        for (i, f) in findings.iter().enumerate() {
            if f.property == self.id {
                println!(
                    "KNOWN-FINDING: property={} {} (seen {} times in this run)",
                    self.id,
                    f.what,
                    t.known.get(&i).copied().unwrap_or(0)
                );
            }
        }
        let mut cov = serde_json::json!({
            "evaluations": t.evals + regress,
            "distinct_nontrivial": t.nontrivial.len(),
            "distinct": t.distinct.len(),
            "rule": self.rule,
            "samples": t.samples,
            "regression_cases": regress,
            "cut_short_by_time_limit": t.truncated,
        });
        for (k, n) in &t.tags {
            cov[format!("count: {k}")] = serde_json::json!(n);
        }
        let ev = serde_json::json!({
            "property": self.id,
            "tier": if o.thorough { "thorough" } else { "quick" },
            "seed": o.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": usize::from(!fails.is_empty()),
        });
        let dir = o.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{}.json", self.id));
        let ev = if PLAIN { second(&file, ev) } else { ev };
        std::fs::write(
            file,
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("write evidence");

        if let Some((reason, c)) = fails.first() {
            let p = write_replay(o, self.id, reason, c);
            println!("property {} is violated: {reason}", self.id);
            println!("VIOLATION property={} replay={}", self.id, p.display());
            return 1;
        }
        if !errors.is_empty() {
            eprintln!("harness: {}", errors.join("; "));
            return 2;
        }
        println!(
            "{}: held on {} cases{} ({} distinct non-trivial) in {:.1} s",
            self.id,
            t.evals + regress,
            if PLAIN { " without debug assertions" } else { "" },
            t.nontrivial.len(),
            t0.elapsed().as_secs_f64()
        );
        0
    }
}
