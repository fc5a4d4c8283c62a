mod asm;
mod cgen;
mod ctx;
mod flow;
mod lgen;
mod model;
mod props;
mod rng;
mod vm;

use std::path::PathBuf;
use std::process::{Command, Stdio};

use ctx::*;
use serde_json::json;

#[global_allocator]
static ALLOCATOR: Counting = Counting;

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn root() -> PathBuf {
    std::env::var("VP_ROOT").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}

fn repo() -> PathBuf {
    std::env::var("VP_REPO").map(PathBuf::from).unwrap_or_else(|_| "/repo".into())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => parent(&args[2], None),
        Some("replay") => replay(&args[2]),
        Some("child") => {
            let only = args.get(4).map(|o| {
                let (s, i) = o.rsplit_once(':').unwrap();
                (s.to_string(), i.parse().unwrap())
            });
            child(&args[2], PathBuf::from(&args[3]), only)
        }
        Some("gen") => props::show_program(&args[2..]),
        _ => {
            eprintln!("usage: vpcheck run <property> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}

fn child(prop: &str, slots: PathBuf, only: Option<(String, u64)>) -> i32 {
    unsafe {
        // Don't outlive the parent.
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    install_panic_hook();
    let cx = Ctx::new(prop, env_tier(), env_seed(), root(), repo(), &slots, only);
    if !props::run(&cx) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    cx.finish()
}

fn spawn(prop: &str, slots: &PathBuf, only: Option<&str>) -> std::io::Result<std::process::ExitStatus> {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["child", prop]).arg(slots).stdin(Stdio::null());
    if let Some(o) = only {
        c.arg(o);
    }
    c.status()
}

/// Runs the check in a process of its own, so that a crash of the code under
/// test (stack overflow, failed allocation) is an observation as well.
fn parent(prop: &str, only: Option<String>) -> i32 {
    let dir = root().join("build/slots");
    let _ = std::fs::create_dir_all(&dir);
    let slots = dir.join(format!("{prop}-{}", std::process::id()));
    let result = supervise(prop, &slots, only);
    let _ = std::fs::remove_file(&slots);
    result
}

fn supervise(prop: &str, slots: &PathBuf, only: Option<String>) -> i32 {
    let status = match spawn(prop, slots, only.as_deref()) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("ERROR can't start: {e}");
            return 2;
        }
    };
    if let Some(code) = status.code() {
        return code;
    }
    eprintln!("the check ended with {status}; looking for the case");
    let mapped = Slots::map(slots);
    let active: Vec<(String, u64)> = (0..MAX_THREADS)
        .map(|i| mapped.get(i))
        .filter(|s| s.sequence.load(std::sync::atomic::Ordering::SeqCst) & 1 == 1)
        .map(|s| (s.name(), s.index.load(std::sync::atomic::Ordering::SeqCst)))
        .collect();
    for (section, index) in active {
        let name = format!("{section}:{index}");
        let mut path = slots.clone();
        path.set_extension("single");
        let again = spawn(prop, &path, Some(&name));
        let inside = Slots::map(&path).get(0).sequence.load(std::sync::atomic::Ordering::SeqCst) & 1 == 1;
        let _ = std::fs::remove_file(&path);
        match again {
            Ok(s) if s.code().is_none() && inside => {
                let seed = env_seed();
                let file = root().join("replays").join(format!("{prop}-{section}-{index}-{seed}.json"));
                let _ = std::fs::create_dir_all(file.parent().unwrap());
                let tier = match env_tier() {
                    Tier::Quick => "quick",
                    Tier::Thorough => "thorough",
                };
                let what = format!("the conversion ends the process: {s}");
                let v = json!({"property": prop, "section": section, "index": index, "seed": seed, "tier": tier, "what": what});
                let _ = std::fs::write(&file, serde_json::to_string_pretty(&v).unwrap());
                let evidence = json!({
                    "property": prop, "tier": tier, "seed": seed, "level": "exploration",
                    "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "aborted: a case ended the process",
                                 "samples": [{"section": section, "index": index}]},
                    "wall_s": 0.0, "violations": 1,
                });
                let _ = std::fs::create_dir_all(root().join("evidence"));
                let _ = std::fs::write(root().join("evidence").join(format!("{prop}.json")), evidence.to_string());
                println!("VIOLATION property={prop} replay={}", file.display());
                println!("  {what}");
                return 1;
            }
            Ok(s) if s.code() == Some(1) => return 1,
            _ => {}
        }
    }
    eprintln!("ERROR the check ended with {status}, which could not be reproduced");
    2
}

fn replay(file: &str) -> i32 {
    let v: serde_json::Value = match std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("can't read {file}");
            return 2;
        }
    };
    let get = |k: &str| v[k].as_str().unwrap_or("").to_string();
    std::env::set_var("VERIF_SEED", v["seed"].to_string());
    std::env::set_var("VERIF_TIER", get("tier"));
    println!("{}", get("what"));
    parent(&get("property"), Some(format!("{}:{}", get("section"), v["index"])))
}
