//! Converts all cases of a file and writes what happened to another file, and all outputs to a third one.
//!
//! digest <cases> <results> [threads <n> <rounds> | state <rounds> | fresh]

use std::fmt::Write as _;
use std::panic::catch_unwind;

use lunify::{Format, Settings};

mod cases;

use cases::{convert, read, Case};

#[cfg(not(miri))]
mod memory {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

    /// Bytes that are allocated right now.
    pub static LIVE: AtomicI64 = AtomicI64::new(0);

    pub struct Counting;

    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            System.alloc(l)
        }

        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            System.dealloc(p, l)
        }
    }

    #[global_allocator]
    static COUNTING: Counting = Counting;
}

/// Everything about this process that something else might look at.
#[cfg(not(miri))]
fn surroundings() -> Vec<(&'static str, String)> {
    use std::hint::black_box;
    let file = |f: &str| std::fs::read_to_string(f).unwrap_or_default();
    let status: String = file("/proc/self/status").lines().filter(|l| ["Umask", "Sig", "Shd", "Threads", "NoNewPrivs", "Uid", "Gid", "Groups", "Cpus_allowed:"].iter().any(|k| l.starts_with(k)) && !l.starts_with("SigQ")).collect::<Vec<_>>().join(" ");
    let mut open: Vec<String> = std::fs::read_dir("/proc/self/fd").map_or(Vec::new(), |d| d.filter_map(|e| std::fs::read_link(e.ok()?.path()).ok()).map(|l| l.display().to_string()).filter(|l| !l.contains("/fd")).collect());
    open.sort();
    let mut environment: Vec<String> = std::env::vars_os().map(|v| format!("{v:?}")).collect();
    environment.sort();
    let sums = [black_box(1.0f64) / black_box(3.0), black_box(-1.0f64) / black_box(3.0), black_box(5e-324f64) * black_box(1.0), black_box(2.2250738585072014e-308f64) / black_box(2.0)];
    let panics = PANICS.load(std::sync::atomic::Ordering::Relaxed);
    let _ = catch_unwind(|| panic!("test"));
    let hooked = PANICS.load(std::sync::atomic::Ordering::Relaxed) - panics;
    let directory = std::env::current_dir().map(|d| d.display().to_string()).unwrap_or_default();
    vec![
        ("status", status),
        ("open files", open.join(" ")),
        ("environment", environment.join(" ")),
        ("arithmetic", format!("{:x?}", sums.map(f64::to_bits))),
        ("panic hook", hooked.to_string()),
        ("directory", directory),
        ("limits", file("/proc/self/limits")),
        ("name", file("/proc/self/comm")),
        ("personality", file("/proc/self/personality")),
        ("thread name", format!("{:?}", std::thread::current().name())),
    ]
}

static PANICS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Convert everything several times and look at what is left behind.
#[cfg(not(miri))]
fn state(data: &[u8], cases: &[Case], before: Vec<(&'static str, String)>, rounds: usize, text: &mut String) {
    use memory::LIVE;
    use std::sync::atomic::Ordering::Relaxed;
    let copy = data.to_vec();
    let arguments: Vec<(Format, Settings)> = cases.iter().map(|c| (c.format, c.settings)).collect();
    let mut live = Vec::with_capacity(rounds + 1);
    for _ in 0..rounds {
        live.push(LIVE.load(Relaxed));
        for c in cases {
            drop(convert(c));
        }
    }
    live.push(LIVE.load(Relaxed));
    let after = surroundings();
    for ((what, a), (_, b)) in before.into_iter().zip(after) {
        let _ = match a == b {
            true => writeln!(text, "kept {what}"),
            false => writeln!(text, "changed {what}: {:?} became {:?}", a, b),
        };
    }
    let _ = match copy == data && arguments.iter().zip(cases).all(|(a, c)| *a == (c.format, c.settings)) {
        true => writeln!(text, "kept arguments"),
        false => writeln!(text, "changed arguments"),
    };
    let _ = writeln!(text, "live {}", live.iter().map(|l| (l - live[0]).to_string()).collect::<Vec<_>>().join(" "));
}

/// Converts every case in a process of its own, which has never converted anything before.
#[cfg(all(unix, not(miri)))]
fn fresh(cases: &[Case], results: &str) {
    use std::io::Write;
    extern "C" {
        fn fork() -> i32;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn _exit(status: i32) -> !;
    }
    let open = |name: &str| std::fs::OpenOptions::new().create(true).append(true).open(name).unwrap();
    let (mut text, mut outputs) = (open(results), open(&format!("{results}.outputs")));
    for c in cases {
        match unsafe { fork() } {
            0 => {
                let r = convert(c);
                let line = match &r {
                    Ok(b) => format!("ok {}\n", b.len()),
                    Err(e) => format!("{e}\n"),
                };
                let written = outputs.write_all(r.as_deref().unwrap_or(&[])).and_then(|_| text.write_all(line.as_bytes()));
                unsafe { _exit(written.is_err() as i32) }
            }
            child => {
                let mut status = 0;
                if child < 0 || unsafe { waitpid(child, &mut status, 0) } != child {
                    panic!("can't start a process");
                }
                if status != 0 {
                    let _ = writeln!(text, "died {status}");
                }
            }
        }
    }
    let _ = writeln!(text, "end {}", cases.len());
}

/// A system call that shows up in a trace and does nothing.
fn marker() {
    #[cfg(all(unix, not(miri)))]
    let _ = std::os::unix::process::parent_id();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let data = std::fs::read(&args[1]).unwrap();
    let cases = read(&data);
    if !cfg!(miri) {
        std::panic::set_hook(Box::new(|_| {
            PANICS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }));
    }
    #[cfg(all(unix, not(miri)))]
    if args.get(3).is_some_and(|a| a == "fresh") {
        return fresh(&cases, &args[2]);
    }
    #[cfg(not(miri))]
    let before = if args.get(3).is_some_and(|a| a == "state") { surroundings() } else { Vec::new() };
    #[cfg(not(miri))]
    let start = memory::LIVE.load(std::sync::atomic::Ordering::Relaxed);
    marker();
    let results: Vec<Result<Vec<u8>, String>> = cases.iter().map(convert).collect();
    marker();
    #[cfg(not(miri))]
    let kept = {
        let owned: usize = results.iter().map(|r| r.as_ref().map_or_else(|e| e.capacity(), |b| b.capacity())).sum();
        memory::LIVE.load(std::sync::atomic::Ordering::Relaxed) - start - (owned + results.capacity() * std::mem::size_of::<Result<Vec<u8>, String>>()) as i64
    };
    let mut text = String::new();
    let mut outputs = Vec::new();
    for r in &results {
        let _ = match r {
            Ok(b) => writeln!(text, "ok {}", b.len()),
            Err(e) => writeln!(text, "{e}"),
        };
        outputs.extend_from_slice(r.as_deref().unwrap_or(&[]));
    }
    if args.get(3).is_some_and(|a| a == "threads") {
        let (n, rounds): (usize, usize) = (args[4].parse().unwrap(), args[5].parse().unwrap());
        let barrier = std::sync::Barrier::new(n);
        let different: Vec<usize> = std::thread::scope(|s| {
            let threads: Vec<_> = (0..n)
                .map(|t| {
                    let (cases, results, barrier) = (&cases, &results, &barrier);
                    s.spawn(move || {
                        let mut different = Vec::new();
                        for r in 0..rounds {
                            barrier.wait();
                            for i in 0..cases.len() {
                                // All the same in even rounds, all different in odd ones.
                                let i = (i + (r & 1) * (t * 7 + r)) % cases.len();
                                if convert(&cases[i]) != results[i] {
                                    different.push(i);
                                }
                            }
                        }
                        different
                    })
                })
                .collect();
            threads.into_iter().flat_map(|t| t.join().unwrap()).collect()
        });
        for i in different {
            let _ = writeln!(text, "different {i}");
        }
    }
    #[cfg(not(miri))]
    if let (Some("state"), Some(rounds)) = (args.get(3).map(String::as_str), args.get(4)) {
        let _ = writeln!(text, "left {kept}");
        state(&data, &cases, before, rounds.parse().unwrap(), &mut text);
    }
    let _ = writeln!(text, "default {:?}", Format::default());
    let _ = writeln!(text, "end {}", cases.len());
    std::fs::write(format!("{}.outputs", args[2]), outputs).unwrap();
    std::fs::write(&args[2], text).unwrap();
}
