mod cli;
mod expr;
mod fmtm;
#[cfg(feature = "fuzz")]
mod fuzz;
mod mutate;
mod pathq;
mod props;
mod rec;
mod runner;

use std::path::{Path, PathBuf};
use std::process::{Command, exit};
use std::time::{Duration, Instant};

use runner::{Fail, Property};

fn find(id: &str) -> Property {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            exit(3)
        }
    }
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1)
}

fn scratch() -> PathBuf {
    std::env::temp_dir().join(format!("pica-verif-{}", std::process::id()))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(String::as_str).unwrap_or("");
    match cmd {
        "list" => {
            for p in props::all() {
                let subs: Vec<_> = p
                    .subs
                    .iter()
                    .map(|s| format!("{}:{}/{}", s.name, s.quick, s.thorough))
                    .collect();
                println!("{} {}", p.id, subs.join(" "));
            }
        }
        "run" => exit(supervise(&args[2])),
        "worker" => {
            runner::install_panic_hook();
            let tier =
                std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            exit(runner::run_property(&find(&args[2]), env_seed(), &tier))
        }
        #[cfg(feature = "fuzz")]
        "fuzz" => {
            runner::install_panic_hook();
            exit(fuzz::main(find(&args[2]), &args[3..]))
        }
        #[cfg(feature = "fuzz")]
        "fuzz-case" => exit(fuzz::print_case(&args[2], &args[3], &args[4])),
        "replay" => {
            runner::install_panic_hook();
            exit(replay(Path::new(&args[2])))
        }
        _ => {
            eprintln!("usage: harness list | run ID | worker ID | replay FILE");
            exit(3)
        }
    }
}

fn replay(file: &Path) -> i32 {
    let text = std::fs::read_to_string(file).unwrap_or_default();
    let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
    let id = v["property"].as_str().unwrap_or("").to_string();
    let p = find(&id);
    let dir = scratch();
    let r = runner::replay_file(&p, file, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Ok((_, _, Ok(nt), labels)) => {
            for k in labels.keys().filter(|k| k.starts_with("known:")) {
                println!("KNOWN-FINDING: property={id} {k}");
            }
            println!("replay of {}: property holds (non-trivial: {nt})", id);
            0
        }
        Ok((_, _, Err(Fail::Violation(m)), _)) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={}", file.display());
            1
        }
        Ok((_, _, Err(Fail::Skip), _)) => 0,
        Ok((_, _, Err(Fail::Harness(m)), _)) | Err(m) => {
            eprintln!("HARNESS-ERROR {m}");
            3
        }
    }
}

/// Runs the worker as child process so that an abort of the code under test
/// (stack overflow, `abort`) is observed and attributed to its case.
fn supervise(id: &str) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let base = scratch();
    let guard = base.join("guard");
    let work = base.join("work");
    let _ = std::fs::create_dir_all(&guard);
    let _ = std::fs::create_dir_all(&work);
    let mut c = Command::new(&exe);
    c.arg("worker").arg(id).env("VERIF_SCRATCH", &work);
    if !id.starts_with('C') {
        c.env("VERIF_GUARD", &guard);
    }
    let code = match c.spawn() {
        Err(e) => {
            eprintln!("HARNESS-ERROR cannot start worker: {e}");
            3
        }
        Ok(mut child) => {
            let code = loop {
                match child.try_wait() {
                    Err(e) => {
                        eprintln!("HARNESS-ERROR wait: {e}");
                        break Some(3);
                    }
                    Ok(Some(s)) => {
                        if s.code().is_none() {
                            eprintln!("worker died: {s}");
                        }
                        break s.code();
                    }
                    Ok(None) => {}
                }
                if stuck(&guard) {
                    eprintln!("a case does not end");
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(50));
            };
            code.unwrap_or_else(|| find_crash(&exe, id, &guard))
        }
    };
    let _ = std::fs::remove_dir_all(&base);
    code
}

/// Cases inside the process take milliseconds, at most some seconds.
const ENDLESS: Duration = Duration::from_secs(150);

/// Some case is in flight for far too long.
fn stuck(guard: &Path) -> bool {
    std::fs::read_dir(guard).is_ok_and(|d| {
        d.flatten().any(|e| {
            e.metadata()
                .and_then(|m| m.modified())
                .is_ok_and(|t| t.elapsed().is_ok_and(|t| t > ENDLESS))
        })
    })
}

/// `Ok(true)`: it did not end; `Ok(false)`: it was aborted.
fn rerun(exe: &Path, file: &Path) -> Result<bool, ()> {
    let Ok(mut c) = Command::new(exe).arg("replay").arg(file).spawn() else {
        return Err(());
    };
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) if st.code().is_none() => return Ok(false),
            Ok(Some(_)) | Err(_) => return Err(()),
            Ok(None) => {}
        }
        if t.elapsed() > ENDLESS {
            let _ = c.kill();
            let _ = c.wait();
            return Ok(true);
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

/// After a crash, re-runs each case that was in flight in a process of its own.
fn find_crash(exe: &Path, id: &str, guard: &Path) -> i32 {
    let p = find(id);
    let mut files: Vec<_> = std::fs::read_dir(guard)
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
        .unwrap_or_default();
    files.sort();
    for f in files {
        let Some(name) = f.file_name().and_then(|n| n.to_str()) else {
            continue;
        };
        let Some(si) = name.split('.').next().and_then(|s| s.parse().ok())
        else {
            continue;
        };
        let si: usize = si;
        let Some(case) = std::fs::read(&f)
            .ok()
            .and_then(|t| serde_json::from_slice::<serde_json::Value>(&t).ok())
        else {
            continue;
        };
        let dir = runner::root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let out = dir.join(format!("{id}-crash-{name}.json"));
        let body = serde_json::json!({"property": id,
            "check": p.subs[si].name, "message": "process aborted",
            "case": case});
        let _ = std::fs::write(&out, body.to_string());
        if let Ok(endless) = rerun(exe, &out) {
            let what = if endless { "does not end" } else { "process aborted" };
            println!("--- {id} / {}: {what}", p.subs[si].name);
            println!("VIOLATION property={id} replay={}", out.display());
            return 1;
        }
        let _ = std::fs::remove_file(&out);
    }
    eprintln!("HARNESS-ERROR worker died, no case reproduces it");
    3
}
