mod env;
mod gen;
mod hasher;
mod log;
mod model;
mod props;
mod runner;
mod store;
#[path = "../cfgs/src/transcript.rs"]
mod transcript;

use runner::{Opts, Prop};
use std::path::PathBuf;
use std::process::Command;

fn usage() -> ! {
    eprintln!("usage: harness check <id> [cases] | replay <file> | list");
    std::process::exit(2)
}

fn find(id: &str) -> &'static dyn Prop {
    *props::all()
        .iter()
        .find(|p| p.id() == id)
        .unwrap_or_else(|| {
            eprintln!("no check for {id}");
            std::process::exit(2)
        })
}

/// Run one check in this process.
fn worker(o: &Opts, id: &str) -> i32 {
    find(id).run(o)
}

/// Run the check in a child process, so that an abort (stack overflow, out of memory) of the code
/// under test is also reported with the case that causes it.
fn supervise(o: &Opts, args: &[String], id: &str) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let run = |careful: bool| {
        let mut c = Command::new(&exe);
        c.args(args)
            .env("VERIF_WORKER", "1");
        if careful {
            c.env("VERIF_CAREFUL", "1");
        }
        c.status().expect("start worker").code()
    };
    if let Some(c) = run(false) {
        return c;
    }
    eprintln!("harness: the worker process died; running again to find the case");
    let _ = std::fs::create_dir_all(o.root.join("replays"));
    if let Some(c) = run(true) {
        return if c == 1 { 1 } else { 2 };
    }
    for w in 0..o.threads {
        let f = runner::crash_file(o, id, w);
        if !f.exists() {
            continue;
        }
        let st = Command::new(&exe)
            .arg("replay")
            .arg(&f)
            .env("VERIF_WORKER", "1")
            .output()
            .expect("replay");
        if st.status.code().is_none() {
            println!("property {id}: the process dies on this case");
            println!("VIOLATION property={id} replay={}", f.display());
            return 1;
        }
    }
    eprintln!("harness: no single case kills the process");
    2
}

fn main() {
    if runner::PLAIN {
        log::on();
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let env_num = |n: &str| std::env::var(n).ok().and_then(|s| s.parse::<u64>().ok());
    let o = Opts {
        seed: env_num("VERIF_SEED").unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
        root,
        threads: env_num("VERIF_THREADS").unwrap_or(8) as usize,
        cases: args
            .get(2)
            .and_then(|s| s.parse().ok())
            .or_else(|| env_num("VERIF_CASES")),
        careful: std::env::var("VERIF_CAREFUL").is_ok(),
    };
    let is_worker = std::env::var("VERIF_WORKER").is_ok();
    runner::install_panic_hook();
    if !is_worker {
        // no backtraces inside errors: slow and noisy (single-threaded here)
        std::env::set_var("RUST_BACKTRACE", "0");
        std::env::set_var("RUST_LIB_BACKTRACE", "0");
    }
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") if args.len() >= 2 => {
            if is_worker {
                worker(&o, &args[1])
            } else {
                supervise(&o, &args, &args[1])
            }
        }
        Some("replay") if args.len() == 2 => {
            let s = std::fs::read_to_string(&args[1]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&s).expect("replay JSON");
            let id = v["property"].as_str().expect("property id").to_string();
            let r = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || find(&id).replay(&s))
                .unwrap()
                .join()
                .unwrap();
            match r {
                Ok(()) => {
                    println!("the case passes");
                    0
                }
                Err(e) => {
                    println!("the case fails: {e}");
                    1
                }
            }
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}
