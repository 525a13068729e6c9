mod engine;
mod model;
mod props;
mod refroot;

use engine::*;
use std::process::{Command, ExitStatus};

fn verif_dir() -> String {
    std::env::var("OXY_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn ctx(prop: &str, tier: Tier) -> Ctx {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    Ctx {
        prop: prop.into(),
        tier,
        seed,
        known: load_known(&format!("{}/known_findings.json", verif_dir())),
        trace: std::env::var("OXY_TRACE").ok().map(Into::into),
        scale: std::env::var("OXY_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
    }
}

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn find(id: &str) -> Property {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {id}");
            std::process::exit(3)
        }
    }
}

fn finish(code: i32) -> ! {
    // OXY_KEEP=1: leave the files of a replay behind
    if std::env::var_os("OXY_KEEP").is_none() {
        let _ = std::fs::remove_dir_all(scratch_root());
    } else {
        println!("kept {}", scratch_root().display());
    }
    std::process::exit(code)
}

fn spawn(args: &[&str], trace: Option<&std::path::Path>) -> ExitStatus {
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.args(args);
    if let Some(t) = trace {
        c.env("OXY_TRACE", t);
    }
    let mut ch = c.spawn().expect("spawn worker");
    let pid = ch.id();
    let st = ch.wait().expect("wait");
    let _ = std::fs::remove_dir_all(format!("/tmp/oxyverif.{pid}"));
    st
}

/// A worker that died of an abort or a memory fault is run again writing every case down before
/// it runs; the case that kills a fresh process is the violation.
fn supervise(id: &str, t: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let st = spawn(&["worker", id, t], None);
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("worker ended by signal {sig}");
    if sig == 9 || sig == 15 {
        return 3;
    }
    let dir = std::path::PathBuf::from(format!("/tmp/oxyverif.trace.{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let st = spawn(&["worker", id, t], Some(&dir));
    let mut code = st.code().unwrap_or(3);
    if st.code().is_none() {
        let mut files: Vec<_> = std::fs::read_dir(&dir).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        files.sort();
        for f in files {
            let st = spawn(&["replay", id, f.to_str().unwrap()], None);
            if st.signal().map_or(false, |s| s != 9 && s != 15) {
                let _ = std::fs::create_dir_all(format!("{}/replays", verif_dir()));
                let dst = format!("{}/replays/{id}-crash.json", verif_dir());
                let _ = std::fs::copy(&f, &dst);
                println!("VIOLATION property={id} replay={dst}");
                println!("  the process was killed by signal {}", st.signal().unwrap_or(0));
                code = 1;
                break;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "list" => {
            for p in props::all() {
                println!("{} {}", p.id, p.subs.iter().map(|s| s.name()).collect::<Vec<_>>().join(" "));
            }
        }
        "check" => std::process::exit(supervise(arg(2), arg(3))),
        "worker" => {
            install_panic_hook();
            let p = find(arg(2));
            let c = ctx(p.id, tier(arg(3)));
            start_watchdog(verif_dir());
            let code = run_property(&p, &c, &verif_dir());
            finish(code)
        }
        "replay" => {
            install_panic_hook();
            let p = find(arg(2));
            let c = ctx(p.id, Tier::Quick);
            let s = std::fs::read_to_string(arg(3)).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&s).expect("replay json");
            let sub = v["sub"].as_str().unwrap_or("");
            let Some(s) = p.subs.iter().find(|s| s.name() == sub) else {
                eprintln!("no subcheck {sub}");
                finish(3)
            };
            match s.replay(&c, &v["case"]) {
                Ok(Ok(i)) => {
                    println!("holds ({} comparisons)", i.checks);
                    finish(0)
                }
                Ok(Err(f)) => {
                    println!("VIOLATION property={} replay={}", p.id, arg(3));
                    println!("  {}", f.msg);
                    finish(1)
                }
                Err(e) => {
                    eprintln!("{e}");
                    finish(3)
                }
            }
        }
        "emit" => {
            install_panic_hook();
            std::process::exit(props::p_layout::child_emit(arg(2), arg(3)))
        }
        "full" => {
            install_panic_hook();
            std::process::exit(props::p_layout::child_full(arg(2)))
        }
        "few" => {
            install_panic_hook();
            std::process::exit(props::p_again::child_few(arg(2)))
        }
        "show" => {
            install_panic_hook();
            std::process::exit(props::p_show::child_show())
        }
        "dump" => refroot::dump(&a[2..]),
        _ => {
            eprintln!("usage: oxyverif check|worker ID quick|thorough | replay ID FILE | list | dump FILES");
            std::process::exit(2)
        }
    }
}
