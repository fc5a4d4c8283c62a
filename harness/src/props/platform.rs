//! Properties about where and how often the code runs, and about serialized values.

use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Barrier;

use lunify::{BitWidth, Endianness, Format, InstructionLayout, LunifyError, OperandType, Settings};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::json;

use super::hostile::{any_proto, hostile_number, mutate};
use super::structure::extreme;
use crate::asm;
use crate::cgen;
use crate::ctx::{hex, Case, Ctx, Out};
use crate::flow::*;
use crate::model::*;
use crate::rng::{hash_bytes, Rng};

// ---------------------------------------------------------------- jobs

/// One call of the code under test, in a form that can be written to a file.
#[derive(Clone)]
struct Job {
    input: Vec<u8>,
    format: Format,
    settings: Settings<'static>,
    /// Lua 5.0, Lua 5.1, output.
    lays: [Lay; 3],
    kind: &'static str,
}

impl Job {
    fn write(&self, out: &mut Vec<u8>) {
        let word = |out: &mut Vec<u8>, v: u64| out.extend(v.to_le_bytes());
        word(out, self.input.len() as u64);
        out.extend(&self.input);
        let f = &self.format;
        out.push(f.format);
        out.push((f.endianness == Endianness::Little) as u8);
        for w in [f.integer_width, f.size_t_width, f.instruction_width, f.number_width] {
            out.push(if w == BitWidth::Bit32 { 4 } else { 8 });
        }
        out.push(f.is_number_integral as u8);
        let s = &self.settings;
        let parts = [
            (s.lua50.stack_limit, s.lua50.fields_per_flush, s.lua50.binary_signature),
            (s.lua51.stack_limit, s.lua51.fields_per_flush, s.lua51.binary_signature),
            (s.output.stack_limit, s.output.fields_per_flush, s.output.binary_signature),
        ];
        for (i, (limit, fpf, signature)) in parts.into_iter().enumerate() {
            word(out, limit);
            word(out, fpf);
            word(out, signature.len() as u64);
            out.extend(signature.as_bytes());
            for (k, n) in self.lays[i].spec {
                out.push(k as u8);
                out.push(n as u8);
            }
        }
    }

    fn describe(&self) -> String {
        format!("{} format {:?} settings {:?} input {}", self.kind, self.format, self.settings, hex(&self.input))
    }

    fn hash(&self) -> u64 {
        let mut v = Vec::new();
        self.write(&mut v);
        hash_bytes(&v)
    }
}

/// Any kind of input: programs, random chunks, damaged chunks. `small` for slow interpreters.
fn job(case: &mut Case, small: bool) -> Option<Job> {
    let ver = *case.rng.pick(&[Ver::L50, Ver::L51]);
    let fpf = random_fpf(&mut case.rng, 32);
    let mut input = Enc::random(&mut case.rng, ver, fpf);
    let wide = case.rng.chance(12);
    if wide {
        // Operands that don't fit 32 bits.
        input = extreme(&mut case.rng, ver);
        input.fpf = fpf;
    }
    let lay = if case.rng.chance(70) && !wide { Lay::L51 } else { input.lay };
    let hostile = case.rng.chance(20);
    let mut p = match small {
        _ if wide => {
            let opts = cgen::Opts { ver, lay, max_code: 4, depth: 0, hostile };
            let mut p = cgen::proto(&mut case.rng, &opts, 0);
            for _ in 0..case.rng.us(3) {
                let names: &[&str] = match ver {
                    Ver::L50 => &["JMP", "FORLOOP", "TFORPREP", "SETLIST", "SETLISTO", "LOADK", "CLOSURE"],
                    Ver::L51 => &["JMP", "FORLOOP", "FORPREP", "SETLIST", "LOADK", "CLOSURE", "LOADNIL"],
                };
                let name = *case.rng.pick(names);
                let mut i = cgen::instruction(&mut case.rng, &opts, opnum(ver, name));
                if name == "SETLIST" && i.c == 0 {
                    i.c = 1;
                }
                let at = case.rng.us(p.code.len() + 1);
                p.code.insert(at, i);
                p.lines.clear();
            }
            p
        }
        false => any_proto(case, ver, lay, hostile)?,
        true => match case.rng.below(3) {
            0..=1 => asm::program(&mut case.rng, ver, 32, 1),
            _ => {
                let opts = cgen::Opts { ver, lay, max_code: 40, depth: 1, hostile };
                cgen::proto(&mut case.rng, &opts, 0)
            }
        },
    };
    if ver == Ver::L50 && case.rng.chance(15) {
        // Constants that the conversion looks for, several times.
        fn add(rng: &mut Rng, p: &mut Proto) {
            for name in ["type\0", "table\0", "next\0", "type\0"] {
                for _ in 0..rng.below(3) {
                    p.consts.push(K::Str(name.into()));
                }
            }
            p.protos.iter_mut().for_each(|p| add(rng, p));
        }
        add(&mut case.rng, &mut p);
    }
    let nested = case.rng.chance(4);
    if nested {
        let n = *case.rng.pick(&[1, 50, 90, 120, 190, 196, 199, 200, 201]) + case.rng.us(9);
        let around = Proto { maxstack: 2, line: 3, last_line: 3, code: vec![Ins::abc(opnum(ver, "RETURN"), 0, 1, 0)], ..Proto::default() };
        for _ in 0..n {
            let inner = std::mem::replace(&mut p, around.clone());
            p.protos.push(inner);
        }
    }
    if case.rng.chance(40) {
        random_number_type(&mut case.rng, &mut input.fmt, &p);
    }
    let (mut data, marks) = encode_marked(&input, &p).ok()?;
    if small && data.len() > if nested { 20000 } else { 6000 } {
        return None;
    }
    let out_fpf = if case.rng.chance(40) { fpf } else { random_fpf(&mut case.rng, 50) };
    let mut output = Enc::random(&mut case.rng, Ver::L51, out_fpf);
    if wide {
        output = extreme(&mut case.rng, Ver::L51);
        output.fpf = out_fpf;
        if case.rng.chance(50) {
            (output.lay, output.fmt.instruction_width) = (input.lay, input.fmt.instruction_width);
        }
    }
    output.fmt.number_width = width(&mut case.rng);
    output.fmt.is_number_integral = case.rng.chance(25);
    let other = match ver {
        Ver::L50 => Enc::native51(50),
        Ver::L51 => Enc::native50(32),
    };
    let mut settings = settings(&input, &output, &other);
    let mut kind = match (wide, nested) {
        (true, _) => "chunk with wide operands",
        (_, true) => "chunk with nested functions",
        _ => "chunk",
    };
    if wide && case.rng.chance(40) {
        let n = hostile_number(&mut case.rng);
        match ver {
            Ver::L50 => settings.lua50.fields_per_flush = n,
            Ver::L51 => settings.lua51.fields_per_flush = n,
        }
        if case.rng.chance(60) {
            settings.output.fields_per_flush = if case.rng.chance(50) { n } else { hostile_number(&mut case.rng) };
        }
        settings.output.stack_limit = hostile_number(&mut case.rng);
    }
    match if wide { 9 } else { case.rng.below(10) } {
        0..=1 => {
            kind = "damaged chunk";
            mutate(&mut case.rng, &mut data, b"", &marks, Some(&input));
        }
        2 => {
            // Claims that only fit some hosts.
            kind = "chunk with an impossible count";
            if let Some((at, mark)) = (!marks.is_empty()).then(|| *case.rng.pick(&marks)) {
                let w = match mark {
                    Mark::Count => input.fmt.integer_width,
                    _ => input.fmt.size_t_width,
                };
                let v = match case.rng.below(4) {
                    0 => u64::MAX - case.rng.below(4),
                    1 => (1 << 32) + case.rng.below(6),
                    2 => (1 << 31) - case.rng.below(3),
                    _ => hostile_number(&mut case.rng),
                };
                if matches!(mark, Mark::Count | Mark::Length) {
                    patch(&input, &mut data, at, v, w);
                }
            }
        }
        3 => {
            kind = "chunk with a small stack limit";
            settings.output.stack_limit = case.rng.below(300);
            settings.lua50.stack_limit = 100 + case.rng.below(200);
        }
        4 => {
            kind = "truncated chunk";
            let n = case.rng.us(data.len());
            data.truncate(n);
        }
        _ => {}
    }
    let lays = match ver {
        Ver::L50 => [input.lay, other.lay, output.lay],
        Ver::L51 => [other.lay, input.lay, output.lay],
    };
    Some(Job { input: data, format: output.fmt, settings, lays, kind })
}

fn jobs(case: &mut Case, n: usize, small: bool) -> Vec<Job> {
    let mut v = Vec::new();
    if small {
        v.extend(tour(case));
    }
    while v.len() < n {
        // Something that remembers earlier calls has to tell apart all of their arguments.
        if !v.is_empty() && case.rng.chance(30) {
            let i = match case.rng.chance(60) {
                true => v.len() - 1,
                false => case.rng.us(v.len()),
            };
            let j = variation(&mut case.rng, &v[i]);
            v.push(j);
            continue;
        }
        match job(case, small) {
            Some(j) => v.push(j),
            None => case.count("chunks that don't fit their encoding"),
        }
    }
    v
}

/// A compiled program that needs most of what the converter does.
fn tour(case: &mut Case) -> Option<Job> {
    let ver = if case.rng.chance(75) { Ver::L50 } else { Ver::L51 };
    let r = &mut case.rng;
    let values = |r: &mut Rng| (0..r.us(14)).map(|i| i.to_string()).collect::<Vec<_>>().join(", ");
    let mut parts = vec![
        format!("for i = 1, {} do T(i) end", r.below(5)),
        "for i = 3, 1, -1 do T(i) end".to_string(),
        format!("for k, v in {{{}}} do T(k, v) end", values(r)),
        "for k, v, w in f, nil, 0 do T(k, v, w) end".to_string(),
        format!("local t = {{{}, f()}}", values(r)).replace("{, ", "{"),
        "local function f(a, b, ...) g(a) return f(b) end".to_string(),
        "if a == 'x' or not b then T(a .. 1 .. b) else T(a - 1, 2 - b, a == 3, 4 < b) end".to_string(),
        "local u, w = 1 local function h() u = u + 1 return h end".to_string(),
        "a.b = {c = nil} a.b.c, w = 'x', a:m(1)".to_string(),
        "while a do if b then break end repeat a = a + 1 until a > 3 end".to_string(),
    ];
    if ver == Ver::L51 {
        parts.retain(|p| !p.contains("} do"));
    }
    while parts.len() > 5 {
        let at = r.us(parts.len());
        parts.swap_remove(at);
    }
    let fpf = *r.pick(&[3, 4, 32]);
    let out_fpf = *r.pick(&[2, 5, 50, fpf]);
    let c = compile_exactly(case, ver, &parts.join("\n"), fpf)?;
    let mut input = Enc::random(&mut case.rng, ver, fpf);
    random_number_type(&mut case.rng, &mut input.fmt, &c.proto);
    let output = Enc::random(&mut case.rng, Ver::L51, out_fpf);
    let other = match ver {
        Ver::L50 => Enc::native51(50),
        Ver::L51 => Enc::native50(32),
    };
    let data = encode(&input, &c.proto).ok()?;
    let lays = match ver {
        Ver::L50 => [input.lay, other.lay, output.lay],
        Ver::L51 => [other.lay, input.lay, output.lay],
    };
    let settings = settings(&input, &output, &other);
    Some(Job { input: data, format: output.fmt, settings, lays, kind: "compiled program" })
}

/// The same call, except for one detail.
fn variation(rng: &mut Rng, j: &Job) -> Job {
    let mut j = j.clone();
    let n = j.input.len();
    let s = &mut j.settings;
    j.kind = match rng.below(20) {
        0 => "job again",
        1..=8 if n > 0 => {
            for _ in 0..1 + rng.below(2) {
                let at = match rng.below(4) {
                    0 => rng.us(n),
                    1 => rng.us(n.min(60)),
                    2 => n - 1 - rng.us(n.min(60)),
                    _ => n / 2 + rng.us(n - n / 2),
                };
                match rng.below(3) {
                    0 => j.input[at] ^= 1 << rng.below(8),
                    1 => j.input[at] = rng.next() as u8,
                    _ => j.input[at] = j.input[at].wrapping_add(1),
                }
            }
            "job with another byte"
        }
        9..=10 if n > 0 => {
            let (a, b) = (rng.us(n), rng.us(n));
            j.input.swap(a, b);
            "job with swapped bytes"
        }
        11..=13 => {
            let f = &mut j.format;
            match rng.below(7) {
                0 => f.format ^= 1,
                1 => f.endianness = if f.endianness == Endianness::Little { Endianness::Big } else { Endianness::Little },
                2 => f.integer_width = flip(f.integer_width),
                3 => f.size_t_width = flip(f.size_t_width),
                4 => f.instruction_width = flip(f.instruction_width),
                5 => f.number_width = flip(f.number_width),
                _ => f.is_number_integral = !f.is_number_integral,
            }
            "job with another format"
        }
        _ => {
            let limit = 2 + rng.below(250);
            let fpf = 1 + rng.below(60);
            match rng.below(10) {
                0 => s.lua50.stack_limit = limit,
                1 => s.lua50.fields_per_flush = fpf,
                2 => s.lua51.stack_limit = limit,
                3 => s.lua51.fields_per_flush = fpf,
                4 => s.output.stack_limit = limit,
                5..=6 => s.output.fields_per_flush = fpf,
                7 => s.output.binary_signature = "\u{1b}Other",
                _ => {
                    let lay = rng.us(3);
                    j.lays[lay] = if lay == 0 { Lay::L50 } else { Lay::L51 };
                    let l = j.lays[lay].to_lunify();
                    match lay {
                        0 => s.lua50.layout = l,
                        1 => s.lua51.layout = l,
                        _ => s.output.layout = l,
                    }
                }
            }
            "job with another setting"
        }
    };
    j
}

/// The same line as the program `digest` writes.
fn line(o: &Out) -> String {
    match o {
        Out::Ok(b) => format!("ok {}", b.len()),
        Out::Err(e) => format!("err {e:?}"),
        Out::Panic(_) => "panic".into(),
    }
}

/// Like `line`, but different for different outputs.
fn digest(o: &Out) -> String {
    match o {
        Out::Ok(b) => format!("ok {} {:016x}", b.len(), hash_bytes(b)),
        o => line(o),
    }
}

fn scratch(case: &Case, name: &str) -> PathBuf {
    let dir = case.cx.root.join("build/scratch").join(format!("{}-{}-{}", case.cx.prop, std::process::id(), case.index));
    let _ = std::fs::create_dir_all(&dir);
    dir.join(name)
}

struct Build {
    name: &'static str,
    program: &'static str,
    threads: bool,
}

/// The payload of a NaN depends on the hardware.
fn same_except_nan(a: &[u8], b: &[u8], format: &Format) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let n = if format.number_width == BitWidth::Bit32 { 4 } else { 8 };
    let nan = |s: &[u8]| {
        let mut s = s.to_vec();
        if format.endianness == Endianness::Big {
            s.reverse();
        }
        match n {
            4 => f32::from_le_bytes(s.try_into().unwrap()).is_nan(),
            _ => f64::from_le_bytes(s.try_into().unwrap()).is_nan(),
        }
    };
    (0..a.len()).filter(|i| a[*i] != b[*i]).all(|i| {
        let starts = i.saturating_sub(n - 1)..=i;
        starts.into_iter().any(|s| s + n <= a.len() && nan(&a[s..s + n]) && nan(&b[s..s + n]))
    })
}

/// Runs a build of `digest` on the jobs and compares what it did with `want`.
fn compare(case: &mut Case, name: &str, jobs: &[Job], first: &[Out], results: &Path, extra: &str) -> bool {
    let text = match std::fs::read_to_string(results) {
        Ok(t) => t,
        Err(e) => {
            case.error(format!("{name} has no results: {e}\n{extra}"));
            return false;
        }
    };
    let got: Vec<&str> = text.lines().collect();
    if !text.ends_with(&format!("end {}\n", jobs.len())) {
        case.error(format!("{name} is not complete\n{extra}"));
        return false;
    }
    let mut path = results.as_os_str().to_owned();
    path.push(".outputs");
    let outputs = std::fs::read(path).unwrap_or_default();
    let mut at = 0;
    for (i, o) in first.iter().enumerate() {
        let w = &line(o);
        let mut problem = (got[i] != w).then(|| format!("{:?}", got[i]));
        if let (Out::Ok(a), None) = (o, &problem) {
            let b = &outputs[at.min(outputs.len())..(at + a.len()).min(outputs.len())];
            at += a.len();
            if a != b {
                match same_except_nan(a, b, &jobs[i].format) {
                    true => case.count("results that only differ in the bits of NaN"),
                    false => problem = Some("other bytes".into()),
                }
            }
        }
        if let Some(p) = problem {
            case.notes.clear();
            case.note("job", jobs[i].describe());
            case.violation(format!("{name} resulted in {p}, but the first run resulted in {w:?}"));
            return false;
        }
    }
    if let Some(l) = got.iter().find(|l| l.starts_with("different ")) {
        let i: usize = l[10..].parse().unwrap_or(0);
        case.notes.clear();
        case.note("job", jobs[i].describe());
        case.violation(format!("{name}: a thread got another result than {:?}", first[i].show()));
        return false;
    }
    case.add(&format!("{name}: results compared"), first.len() as u64);
    for _ in 0..first.len() {
        case.evaluated();
    }
    true
}

// ---------------------------------------------------------------- C20

pub fn pure(cx: &Ctx) {
    cx.rule(
        "The result of every call (output bytes or error) is compared with the result of the first call for the same arguments: again in the same
        process, after other conversions (also of almost the same arguments), from many threads at once, in a process that never did a conversion before,
        in other processes with another environment, and in five builds (unoptimized
        with checks, optimized without checks, link-time optimized with abort, with the feature debug, with the features serde and integration). A trace of the system calls
        is searched for anything with an effect outside of the process. While conversions run the answers of the C library about the environment,
        the clock, the process and random numbers are replaced, and calls with an effect are recorded. The state of the process (environment, open
        files, signals, limits, rounding, hooks, arguments, live memory) is the same afterwards. A case is non-trivial if it is a distinct set of arguments",
    );
    cx.assume("the input slice, the format and the settings are shared references, so that the compiler already rules out that they change");
    cx.run("threads", cx.scale(1200), |case| {
        let jobs = jobs(case, 24, false);
        let first: Vec<Out> = jobs.iter().map(|j| case.unify(&j.input, &j.format, &j.settings)).collect();
        let want: Vec<String> = first.iter().map(digest).collect();
        // After other conversions, in another order.
        for i in (0..jobs.len()).rev() {
            let again = digest(&case.unify(&jobs[i].input, &jobs[i].format, &jobs[i].settings));
            if again != want[i] {
                case.note("job", jobs[i].describe());
                return case.violation(format!("the second run resulted in {again} instead of {}", want[i]));
            }
        }
        let n = 6;
        let barrier = Barrier::new(n);
        let seed = case.rng.next();
        let different: Vec<(usize, String)> = std::thread::scope(|s| {
            let threads: Vec<_> = (0..n)
                .map(|t| {
                    let (jobs, want, barrier) = (&jobs, &want, &barrier);
                    let name = ["main", "worker-1", "tokio-runtime-worker", "", "thread 7", "lunify"][(t + seed as usize % 6) % 6];
                    std::thread::Builder::new().name(name.into()).spawn_scoped(s, move || {
                        let mut rng = Rng::new(seed, "thread", t as u64);
                        let mut bad = Vec::new();
                        for round in 0..4 {
                            barrier.wait();
                            for k in 0..jobs.len() {
                                // All threads work on the same job, or on different ones.
                                let i = if round % 2 == 0 { k } else { rng.us(jobs.len()) };
                                let j = &jobs[i];
                                let got = std::panic::catch_unwind(|| lunify::unify(&j.input, &j.format, &j.settings));
                                let got = match got {
                                    Ok(Ok(b)) => digest(&Out::Ok(b)),
                                    Ok(Err(e)) => digest(&Out::Err(e)),
                                    Err(_) => "panic".into(),
                                };
                                if got != want[i] {
                                    bad.push((i, got));
                                }
                            }
                        }
                        bad
                    }).expect("a thread")
                })
                .collect();
            threads.into_iter().flat_map(|t| t.join().unwrap_or_default()).collect()
        });
        if let Some((i, got)) = different.first() {
            case.note("job", jobs[*i].describe());
            return case.violation(format!("a thread got {got} instead of {}", want[*i]));
        }
        case.add("results compared between threads", (jobs.len() * n * 4) as u64);
        for j in &jobs {
            case.count(&format!("jobs: {}", j.kind));
            case.nontrivial(j.hash());
        }
    });
    let builds = [
        Build { name: "build without optimizations", program: "digest/debug/digest", threads: true },
        Build { name: "optimized build without checks", program: "digest/release/digest", threads: true },
        Build { name: "link-time optimized build", program: "digest/abort/digest", threads: false },
        Build { name: "build with feature debug", program: "digest-debug/debug/digest", threads: false },
        Build { name: "optimized build with features serde and integration", program: "digest-features/release/digest", threads: true },
    ];
    cx.run("builds", cx.scale(96), |case| {
        let jobs = jobs(case, 200, false);
        let mut file = Vec::new();
        jobs.iter().for_each(|j| j.write(&mut file));
        let first: Vec<Out> = jobs.iter().map(|j| case.unify(&j.input, &j.format, &j.settings)).collect();
            let want: Vec<String> = first.iter().map(line).collect();
        let cases = scratch(case, "cases");
        if let Err(e) = std::fs::write(&cases, &file) {
            return case.error(format!("can't write {}: {e}", cases.display()));
        }
        for (i, b) in builds.iter().enumerate() {
            let results = scratch(case, &format!("results-{i}"));
            let mut c = Command::new(case.cx.root.join("build").join(b.program));
            c.arg(&cases).arg(&results).stdin(Stdio::null()).stderr(Stdio::null());
            if b.threads {
                c.args(["threads", "4", "2"]);
            }
            // What surrounds the process doesn't matter.
            match case.rng.below(4) {
                0 => {
                    c.env_clear();
                }
                1 => {
                    c.env("LC_ALL", "tr_TR.UTF-8").env("LANG", "de_DE").env("TZ", "Asia/Kathmandu").env("HOME", "/nowhere").env("RUST_BACKTRACE", "1");
                }
                2 => {
                    c.current_dir("/");
                }
                _ => {}
            }
            let out = match c.output() {
                Ok(o) => o,
                Err(e) => return case.error(format!("can't start {}: {e}", b.program)),
            };
            if !out.status.success() {
                // The link-time optimized build can't catch panics.
                let want = want.iter().position(|w| w == "panic");
                case.note("first panic", want.map_or("none".into(), |i| jobs[i].describe()));
                return case.violation(format!("{} ended with {}", b.name, out.status));
            }
            if b.name != "build with feature debug" && !out.stdout.is_empty() {
                return case.violation(format!("{} prints: {}", b.name, String::from_utf8_lossy(&out.stdout[..out.stdout.len().min(100)])));
            }
            if !compare(case, b.name, &jobs, &first, &results, "") {
                return;
            }
        }
        for j in &jobs {
            case.nontrivial(j.hash());
        }
        let _ = std::fs::remove_dir_all(cases.parent().unwrap());
        let n = jobs.len();
        let ok = want.iter().filter(|w| w.starts_with("ok")).count();
        case.sample(|| json!({"jobs": n, "successful": ok, "first": want[..4]}));
    });
    cx.run("effects", cx.scale(8), |case| {
        let jobs = jobs(case, 300, false);
        let mut file = Vec::new();
        jobs.iter().for_each(|j| j.write(&mut file));
        let (cases, results, trace) = (scratch(case, "cases"), scratch(case, "results"), scratch(case, "trace"));
        if let Err(e) = std::fs::write(&cases, &file) {
            return case.error(format!("can't write {}: {e}", cases.display()));
        }
        let program = case.cx.root.join("build/digest/debug/digest");
        let ran = Command::new("strace").args(["-f", "-o"]).arg(&trace).arg(program).arg(&cases).arg(&results).stdin(Stdio::null()).output();
        let text = std::fs::read_to_string(&trace).unwrap_or_default();
        let _ = std::fs::remove_dir_all(cases.parent().unwrap());
        if !ran.is_ok_and(|o| o.status.success()) || text.matches("getppid(").count() < 2 {
            // Not every sandbox allows to trace.
            return case.count("runs without a trace of the system calls");
        }
        let mut inside = false;
        let mut calls = 0;
        for l in text.lines() {
            let call = l.split_once(' ').map_or(l, |x| x.1).trim_start();
            let name = call.split('(').next().unwrap_or("").to_string();
            if name == "getppid" {
                inside = !inside;
                continue;
            }
            // Memory, threads and randomness are nobody else's business.
            let harmless = [
                "brk", "mmap", "munmap", "mremap", "madvise", "mprotect", "futex", "sigaltstack", "rt_sig", "clone", "set_robust_list", "rseq",
                "getrandom", "sched_", "exit", "clock_", "gettid", "prctl", "---", "+++", "<...", "restart_syscall", "arch_prctl", "getcpu",
            ];
            if inside {
                calls += 1;
                if !harmless.iter().any(|h| name.starts_with(h)) {
                    case.note("system call", l.to_string());
                    return case.violation(format!("a conversion calls the system: {}", call.chars().take(150).collect::<String>()));
                }
            }
        }
        case.add("system calls inspected", calls);
        case.count("runs with a trace of the system calls");
        for j in &jobs {
            case.evaluated();
            case.nontrivial(j.hash());
        }
    });
    cx.run("fresh", cx.scale(60), fresh);
    cx.run("surroundings", cx.scale(40), surroundings);
    cx.run("state", cx.scale(40), state);
}

/// Every conversion in a process of its own.
fn fresh(case: &mut Case) {
    let jobs = jobs(case, 250, false);
    let mut file = Vec::new();
    jobs.iter().for_each(|j| j.write(&mut file));
    let first: Vec<Out> = jobs.iter().map(|j| case.unify(&j.input, &j.format, &j.settings)).collect();
    let (cases, results) = (scratch(case, "cases"), scratch(case, "results"));
    if let Err(e) = std::fs::write(&cases, &file) {
        return case.error(format!("can't write {}: {e}", cases.display()));
    }
    let program = *case.rng.pick(&["digest/debug/digest", "digest/release/digest"]);
    let ran = Command::new(case.cx.root.join("build").join(program)).arg(&cases).arg(&results).arg("fresh").stdin(Stdio::null()).output();
    if !ran.as_ref().is_ok_and(|o| o.status.success()) {
        return case.error(format!("{program} failed: {ran:?}"));
    }
    let same = compare(case, "a process for each conversion", &jobs, &first, &results, "");
    let _ = std::fs::remove_dir_all(cases.parent().unwrap());
    if same {
        jobs.iter().for_each(|j| case.nontrivial(j.hash()));
    }
}

/// The environment, the clock, the process id and random numbers are replaced while conversions run.
fn surroundings(case: &mut Case) {
    let jobs = jobs(case, 300, false);
    let mut file = Vec::new();
    jobs.iter().for_each(|j| j.write(&mut file));
    let first: Vec<Out> = jobs.iter().map(|j| case.unify(&j.input, &j.format, &j.settings)).collect();
    let cases = scratch(case, "cases");
    if let Err(e) = std::fs::write(&cases, &file) {
        return case.error(format!("can't write {}: {e}", cases.display()));
    }
    for mode in 0..4 {
        let (results, log) = (scratch(case, &format!("results-{mode}")), scratch(case, &format!("log-{mode}")));
        let program = *case.rng.pick(&["digest/debug/digest", "digest/release/digest"]);
        let out = Command::new(case.cx.root.join("build").join(program))
            .arg(&cases)
            .arg(&results)
            .env("LD_PRELOAD", case.cx.root.join("build/shim.so"))
            .env("VP_SHIM", mode.to_string())
            .env("VP_SHIM_LOG", &log)
            .stdin(Stdio::null())
            .output();
        let out = match out {
            Ok(o) if o.status.success() => o,
            Ok(o) => return case.error(format!("{program} ended with {} {}", o.status, String::from_utf8_lossy(&o.stderr))),
            Err(e) => return case.error(format!("can't start {program}: {e}")),
        };
        let text = std::fs::read_to_string(&log).unwrap_or_default();
        if !text.starts_with("windows 2\n") {
            return case.error(format!("the calls of {program} were not recorded: {text:?} {}", String::from_utf8_lossy(&out.stderr)));
        }
        if let Some(l) = text.lines().find(|l| l.starts_with("effect:")) {
            case.note("calls", text.clone());
            return case.violation(format!("conversions call {}", &l[7..]));
        }
        for l in text.lines().skip(1) {
            case.count(&format!("answers replaced: {}", l.split(' ').next().unwrap_or("")));
        }
        if !out.stdout.is_empty() || !out.stderr.is_empty() {
            return case.violation(format!("conversions print {:?}", String::from_utf8_lossy(&[out.stdout, out.stderr].concat())));
        }
        if !compare(case, &format!("surroundings {mode}"), &jobs, &first, &results, &text) {
            return;
        }
    }
    let _ = std::fs::remove_dir_all(cases.parent().unwrap());
    for j in &jobs {
        case.nontrivial(j.hash());
    }
}

/// What conversions leave behind in their process.
fn state(case: &mut Case) {
    let jobs = jobs(case, 400, false);
    let mut file = Vec::new();
    jobs.iter().for_each(|j| j.write(&mut file));
    let (cases, results) = (scratch(case, "cases"), scratch(case, "results"));
    if let Err(e) = std::fs::write(&cases, &file) {
        return case.error(format!("can't write {}: {e}", cases.display()));
    }
    let program = *case.rng.pick(&["digest/debug/digest", "digest/release/digest", "digest-features/release/digest"]);
    let ran = Command::new(case.cx.root.join("build").join(program)).arg(&cases).arg(&results).args(["state", "5"]).stdin(Stdio::null()).output();
    if !ran.as_ref().is_ok_and(|o| o.status.success()) {
        return case.error(format!("{program} failed: {ran:?}"));
    }
    let text = std::fs::read_to_string(&results).unwrap_or_default();
    let _ = std::fs::remove_dir_all(cases.parent().unwrap());
    let report: Vec<&str> = text.lines().skip(jobs.len()).collect();
    case.note("report", report.join("\n"));
    if report.iter().filter(|l| l.starts_with("kept ") || l.starts_with("changed ")).count() != 11 {
        return case.error(format!("incomplete report: {report:?}"));
    }
    if let Some(l) = report.iter().find(|l| l.starts_with("changed ")) {
        return case.violation(format!("conversions have {}", l.chars().take(300).collect::<String>()));
    }
    let numbers = |key: &str| -> Vec<i64> {
        let line = report.iter().find_map(|l| l.strip_prefix(key)).unwrap_or("");
        line.split_whitespace().filter_map(|n| n.parse().ok()).collect()
    };
    let (live, left) = (numbers("live "), numbers("left "));
    if live.len() != 6 || left.len() != 1 {
        return case.error(format!("incomplete report: {report:?}"));
    }
    // Something might be set up once, but not again and again.
    if live.windows(2).skip(1).all(|w| w[1] > w[0]) {
        return case.violation(format!("every conversion leaves memory behind: {live:?}"));
    }
    // Buffers that are kept are as large as the largest input, caches grow with every input.
    let most = jobs.iter().map(|j| j.input.len()).max().unwrap_or(0) as i64;
    if left[0] > 65536 + 64 * most {
        return case.violation(format!("{} conversions leave {} bytes behind, the largest input has {most}", jobs.len(), left[0]));
    }
    case.add("kinds of state compared", 11);
    for j in &jobs {
        case.evaluated();
        case.nontrivial(j.hash());
    }
}

// ---------------------------------------------------------------- C21

pub const TARGETS: [(&str, Endianness, BitWidth); 3] = [
    ("x86_64-unknown-linux-gnu", Endianness::Little, BitWidth::Bit64),
    ("i686-unknown-linux-gnu", Endianness::Little, BitWidth::Bit32),
    ("s390x-unknown-linux-gnu", Endianness::Big, BitWidth::Bit64),
];

fn miri(case: &Case, target: &str, flags: &str, args: &[&std::ffi::OsStr]) -> std::io::Result<std::process::Output> {
    let build = case.cx.root.join("build");
    Command::new("cargo")
        .args(["+nightly", "miri", "run", "-q", "--offline", "--target", target])
        .arg("--manifest-path")
        .arg(case.cx.root.join("digest/Cargo.toml"))
        .arg("--target-dir")
        .arg(build.join(format!("digest-miri-{target}")))
        .arg("--")
        .args(args)
        .env("XDG_CACHE_HOME", build.join("miri").join(target))
        .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-symbolic-alignment-check {flags}"))
        .env_remove("RUSTFLAGS")
        .stdin(Stdio::null())
        .output()
}

pub fn hosts(cx: &Ctx) {
    cx.rule(
        "The same calls are interpreted by Miri for a 64 bit, a 32 bit and a big-endian host, which watches for undefined behaviour, and the results
        have to be the ones of the native build. Larger inputs, operands beyond 32 bits and deeply nested functions also run on a 32 bit host at full
        speed (WebAssembly), and in builds with the address and the thread sanitizer. Section races: several threads convert at once with different schedules while Miri watches
        for data races. Format::default has to describe the host. A case is non-trivial if it is a distinct set of arguments on a distinct host",
    );
    cx.run("races", cx.scale(8), |case| {
        let jobs = jobs(case, 4, true);
        let mut file = Vec::new();
        jobs.iter().for_each(|j| j.write(&mut file));
        let first: Vec<Out> = jobs.iter().map(|j| case.unify(&j.input, &j.format, &j.settings)).collect();
        let (cases, results) = (scratch(case, "cases-r"), scratch(case, "results-r"));
        if let Err(e) = std::fs::write(&cases, &file) {
            return case.error(format!("can't write {}: {e}", cases.display()));
        }
        let target = TARGETS[0].0;
        let flags = format!("-Zmiri-seed={} -Zmiri-preemption-rate=0.05", case.rng.below(1 << 30));
        let out = match miri(case, target, &flags, &[cases.as_os_str(), results.as_os_str(), "threads".as_ref(), "3".as_ref(), "2".as_ref()]) {
            Ok(o) => o,
            Err(e) => return case.error(format!("can't start Miri: {e}")),
        };
        let log = String::from_utf8_lossy(&out.stderr).into_owned();
        if !judge_miri(case, "threads", &log) {
            return;
        }
        if compare(case, "threads", &jobs, &first, &results, &log) {
            case.count("schedules without a data race");
            for j in &jobs {
                case.nontrivial(j.hash() ^ 77);
            }
        }
        let _ = std::fs::remove_dir_all(cases.parent().unwrap());
    });
    for (t, (target, endianness, width)) in TARGETS.into_iter().enumerate() {
        cx.run(target, cx.scale(12), |case| {
            let jobs = jobs(case, 34, true);
            let mut file = Vec::new();
            jobs.iter().for_each(|j| j.write(&mut file));
            let first: Vec<Out> = jobs.iter().map(|j| case.unify(&j.input, &j.format, &j.settings)).collect();
            let want: Vec<String> = first.iter().map(line).collect();
            let (cases, results) = (scratch(case, &format!("cases-{t}")), scratch(case, &format!("results-{t}")));
            if let Err(e) = std::fs::write(&cases, &file) {
                return case.error(format!("can't write {}: {e}", cases.display()));
            }
            let out = match miri(case, target, "", &[cases.as_os_str(), results.as_os_str()]) {
                Ok(o) => o,
                Err(e) => return case.error(format!("can't start Miri: {e}")),
            };
            let log = String::from_utf8_lossy(&out.stderr).into_owned();
            if !judge_miri(case, target, &log) {
                return;
            }
            if compare(case, target, &jobs, &first, &results, &log) {
                let text = std::fs::read_to_string(&results).unwrap_or_default();
                let expected = format!("default {:?}", Format { endianness, size_t_width: width, ..NATIVE });
                if !text.lines().any(|l| l == expected) {
                    case.note("results", text.lines().rev().take(2).collect::<Vec<_>>().join("\n"));
                    return case.violation(format!("the default format of {target} doesn't describe it"));
                }
                for j in &jobs {
                    case.count(&format!("{target}: {}", j.kind));
                    case.nontrivial(j.hash() ^ t as u64);
                }
                case.sample(|| json!({"host": target, "results": want[..4]}));
            }
            let _ = std::fs::remove_dir_all(cases.parent().unwrap());
        });
    }
    cx.run("wasm32", cx.scale(64), wasm);
    for (name, program, options, threads) in SANITIZED {
        cx.run(name, cx.scale(if threads { 24 } else { 64 }), |case| {
            let jobs = jobs(case, if threads { 100 } else { 400 }, false);
            let mut file = Vec::new();
            jobs.iter().for_each(|j| j.write(&mut file));
            let first: Vec<Out> = jobs.iter().map(|j| case.unify(&j.input, &j.format, &j.settings)).collect();
            let (cases, results) = (scratch(case, &format!("cases-{name}")), scratch(case, &format!("results-{name}")));
            if let Err(e) = std::fs::write(&cases, &file) {
                return case.error(format!("can't write {}: {e}", cases.display()));
            }
            let mut c = Command::new(case.cx.root.join("build").join(program));
            c.arg(&cases).arg(&results).env(options.0, options.1).stdin(Stdio::null());
            if threads {
                c.args(["threads", "4", "3"]);
            }
            let out = match c.output() {
                Ok(o) => o,
                Err(e) => return case.error(format!("can't start {program}: {e}")),
            };
            let log = String::from_utf8_lossy(&out.stderr).into_owned();
            if let Some(l) = log.lines().find(|l| ["ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer: SEGV", "unsafe precondition"].iter().any(|w| l.contains(w))) {
                case.note("sanitizer", log.chars().take(6000).collect::<String>());
                return case.violation(format!("{name}: {l}"));
            }
            if !out.status.success() {
                // Not every kernel lets sanitizers map their shadow memory.
                if log.contains("FATAL: ThreadSanitizer") || log.contains("Shadow memory") {
                    return case.count(&format!("{name}: not available"));
                }
                case.note("sanitizer", log.chars().take(6000).collect::<String>());
                return case.violation(format!("{name}: ended with {}", out.status));
            }
            if compare(case, name, &jobs, &first, &results, &log) {
                for j in &jobs {
                    case.nontrivial(j.hash() ^ hash_bytes(name.as_bytes()));
                }
            }
            let _ = std::fs::remove_dir_all(cases.parent().unwrap());
        });
    }
}

/// Large jobs on a host with 32 bit pointers.
fn wasm(case: &mut Case) {
    let jobs = jobs(case, 400, false);
    let mut file = Vec::new();
    jobs.iter().for_each(|j| j.write(&mut file));
    let first: Vec<Out> = jobs.iter().map(|j| case.unify(&j.input, &j.format, &j.settings)).collect();
    let (cases, results) = (scratch(case, "cases-w"), scratch(case, "results-w"));
    if let Err(e) = std::fs::write(&cases, &file) {
        return case.error(format!("can't write {}: {e}", cases.display()));
    }
    let root = &case.cx.root;
    let module = root.join("build/wasm/target/wasm32-unknown-unknown/release/digest_wasm.wasm");
    let out = match Command::new("node").arg(root.join("digest/wasm/host.mjs")).arg(module).arg(&cases).arg(&results).stdin(Stdio::null()).output() {
        Ok(o) => o,
        Err(e) => return case.error(format!("can't start node: {e}")),
    };
    let log = String::from_utf8_lossy(&out.stderr).into_owned();
    if compare(case, "wasm32", &jobs, &first, &results, &log) {
        let text = std::fs::read_to_string(&results).unwrap_or_default();
        let expected = format!("default {:?}", Format { endianness: Endianness::Little, size_t_width: BitWidth::Bit32, ..NATIVE });
        if !text.lines().any(|l| l == expected) {
            case.note("results", text.lines().rev().take(2).collect::<Vec<_>>().join("\n"));
            return case.violation("the default format of wasm32 doesn't describe it");
        }
        for (j, o) in jobs.iter().zip(&first) {
            case.count(&format!("wasm32: {}{}", j.kind, if matches!(o, Out::Ok(_)) { " (converted)" } else { "" }));
            case.nontrivial(j.hash() ^ 99);
        }
    }
    let _ = std::fs::remove_dir_all(cases.parent().unwrap());
}

/// Builds with the standard library and the sanitizer.
const SANITIZED: [(&str, &str, (&str, &str), bool); 2] = [
    ("address-sanitizer", "digest-address/x86_64-unknown-linux-gnu/release/digest", ("ASAN_OPTIONS", "detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1"), false),
    ("thread-sanitizer", "digest-thread/x86_64-unknown-linux-gnu/release/digest", ("TSAN_OPTIONS", "halt_on_error=0:history_size=4"), true),
];

fn judge_miri(case: &mut Case, name: &str, log: &str) -> bool {
    for what in ["Undefined Behavior", "Data race", "memory leaked"] {
        if let Some(l) = log.lines().find(|l| l.starts_with("error") && l.contains(what)) {
            case.note("Miri", log.chars().take(6000).collect::<String>());
            case.violation(format!("Miri ({name}): {l}"));
            return false;
        }
    }
    if let Some(l) = log.lines().find(|l| l.starts_with("error")) {
        case.error(format!("Miri ({name}) failed: {l}\n{}", log.chars().rev().take(3000).collect::<String>().chars().rev().collect::<String>()));
        return false;
    }
    true
}

// ---------------------------------------------------------------- C22

/// Sends a value through formats that name fields, that only know positions, and that are read lazily.
fn round_trip<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(case: &mut Case, name: &str, v: &T) -> Option<T> {
    let mut last = None;
    for kind in ["json", "pretty json", "value", "bincode"] {
        let back: Result<T, String> = match kind {
            "json" => serde_json::to_string(v).and_then(|s| serde_json::from_str(&s)).map_err(|e| e.to_string()),
            "pretty json" => serde_json::to_vec_pretty(v).and_then(|s| serde_json::from_slice(&s)).map_err(|e| e.to_string()),
            "value" => serde_json::to_value(v).and_then(serde_json::from_value).map_err(|e| e.to_string()),
            _ => bincode::serialize(v).and_then(|s| bincode::deserialize(&s)).map_err(|e| e.to_string()),
        };
        match back {
            Ok(b) if b == *v => last = Some(b),
            Ok(b) => {
                case.violation(format!("{name} {v:?} became {b:?} ({kind})"));
                return None;
            }
            Err(e) => {
                case.violation(format!("{name} {v:?} can't be restored ({kind}): {e}"));
                return None;
            }
        }
        case.count(&format!("{name} through {kind}"));
        case.evaluated();
    }
    last
}

fn any_error(rng: &mut Rng) -> LunifyError {
    use LunifyError::*;
    let b = rng.next() as u8;
    let n = rng.next() >> rng.below(64);
    match rng.below(19) {
        0 => InvalidInstructionLayout,
        1 => IncorrectSignature,
        2 => UnsupportedVersion(b),
        3 => InvaildEndianness(b),
        4 => UnsupportedInstructionFormat([b, rng.next() as u8, rng.next() as u8, rng.next() as u8]),
        5 => UnsupportedSizeTWidth(b),
        6 => UnsupportedIntegerWidth(b),
        7 => UnsupportedInstructionWidth(b),
        8 => UnsupportedNumberWidth(b),
        9 => InvalidOpcode(n),
        10 => InvalidConstantType(b),
        11 => FloatPrecisionLoss,
        12 => IntegerOverflow,
        13 => InputTooShort,
        14 => InputTooLong,
        15 => StackTooLarge(n),
        16 => ValueTooBigForOperand,
        17 => FunctionNestingTooDeep,
        _ => UnexpectedForwardJump,
    }
}

pub fn serde(cx: &Ctx) {
    cx.rule(
        "Random values of every public type are serialized and restored with a textual and a binary serializer and have to be equal to the original;
        values that differ have to be serialized differently. Settings and formats that were restored are used for a conversion, which has to have
        the same result as with the original ones. A case is non-trivial if the value is a distinct one",
    );
    cx.run("values", cx.scale(100_000), |case| {
        let mut format = random_format(&mut case.rng);
        format.number_width = width(&mut case.rng);
        format.is_number_integral = case.rng.chance(50);
        round_trip(case, "Format", &format);
        round_trip(case, "BitWidth", &format.number_width);
        round_trip(case, "Endianness", &format.endianness);
        let e = any_error(&mut case.rng);
        round_trip(case, "LunifyError", &e);
        let n = case.rng.next() >> case.rng.below(64);
        let o = *case.rng.pick(&[OperandType::Opcode(n), OperandType::A(n), OperandType::B(n), OperandType::C(n)]);
        round_trip(case, "OperandType", &o);
        let total = *case.rng.pick(&[32, 64]);
        let lay = Lay::random(&mut case.rng, total);
        if let Some(l) = round_trip(case, "InstructionLayout", &lay.to_lunify()) {
            if Ok(l) != InstructionLayout::from_specification(lay.operands()) {
                case.violation("the restored layout is not the one of its specification");
            }
        }
        // Different values have different representations.
        let mut other = format;
        match case.rng.below(7) {
            0 => other.format = other.format.wrapping_add(1 + case.rng.below(255) as u8),
            1 => {
                other.endianness = match other.endianness {
                    Endianness::Big => Endianness::Little,
                    Endianness::Little => Endianness::Big,
                }
            }
            2 => other.integer_width = flip(other.integer_width),
            3 => other.size_t_width = flip(other.size_t_width),
            4 => other.instruction_width = flip(other.instruction_width),
            5 => other.number_width = flip(other.number_width),
            _ => other.is_number_integral = !other.is_number_integral,
        }
        let e2 = any_error(&mut case.rng);
        let same = [
            serde_json::to_string(&format).ok() == serde_json::to_string(&other).ok(),
            bincode::serialize(&format).ok() == bincode::serialize(&other).ok(),
            e != e2 && serde_json::to_string(&e).ok() == serde_json::to_string(&e2).ok(),
            e != e2 && bincode::serialize(&e).ok() == bincode::serialize(&e2).ok(),
        ];
        if same.contains(&true) {
            case.note("values", format!("{format:?} {other:?} {e:?} {e2:?}"));
            case.violation("two different values have the same representation");
        }
        case.nontrivial(hash_bytes(format!("{format:?}{e:?}{o:?}{lay:?}").as_bytes()));
        case.sample(|| json!({"format": format, "error": e, "operand": o}));
    });
    cx.run("settings", cx.scale(100_000), |case| {
        let Some(mut j) = job(case, true) else { return };
        if case.rng.chance(30) {
            j.settings.lua50.fields_per_flush = hostile_number(&mut case.rng);
            j.settings.lua51.stack_limit = hostile_number(&mut case.rng);
        }
        // The signature is borrowed, which JSON only supports if nothing is escaped.
        let s = j.settings;
        let plain = |s: &str| s.chars().all(|c| c.is_ascii_alphanumeric());
        let mut printable = s;
        for x in [&mut printable.lua51.binary_signature, &mut printable.output.binary_signature, &mut printable.lua50.binary_signature] {
            if !plain(x) {
                *x = *case.rng.pick(&["", "Lua", "q", "Xyz0"]);
            }
        }
        let text = serde_json::to_string(&printable).unwrap_or_default();
        match serde_json::from_str::<Settings>(&text) {
            Ok(t) if t == printable => case.count("Settings through json"),
            Ok(t) => return case.violation(format!("{printable:?} became {t:?} (json)")),
            Err(e) => return case.violation(format!("{printable:?} can't be restored: {e}")),
        }
        let lazy = serde_json::to_value(printable).unwrap_or_default();
        match <Settings as serde::Deserialize>::deserialize(&lazy) {
            Ok(t) if t == printable => case.count("Settings through value"),
            Ok(t) => return case.violation(format!("{printable:?} became {t:?} (value)")),
            Err(e) => return case.violation(format!("{printable:?} can't be restored: {e}")),
        }
        let data = bincode::serialize(&s).unwrap_or_default();
        let restored = match bincode::deserialize::<Settings>(&data) {
            Ok(t) if t == s => t,
            Ok(t) => return case.violation(format!("{s:?} became {t:?} (bincode)")),
            Err(e) => return case.violation(format!("{s:?} can't be restored: {e}")),
        };
        case.count("Settings through bincode");
        for part in [bincode::serialize(&s.lua51), bincode::serialize(&s.output)].into_iter().flatten() {
            match bincode::deserialize::<lunify::lua51::Settings>(&part) {
                Ok(t) if t == s.lua51 || t == s.output => {}
                other => return case.violation(format!("settings of Lua 5.1 became {other:?}")),
            }
        }
        let f = bincode::serialize(&j.format).unwrap_or_default();
        let Ok(format) = bincode::deserialize::<Format>(&f) else {
            return case.violation(format!("{:?} can't be restored", j.format));
        };
        case.note("job", j.describe());
        let want = digest(&case.unify(&j.input, &j.format, &s));
        let got = digest(&case.unify(&j.input, &format, &restored));
        if want != got {
            return case.violation(format!("restored settings resulted in {got} instead of {want}"));
        }
        case.count("conversions with restored settings");
        case.nontrivial(j.hash());
    });
}

fn flip(w: BitWidth) -> BitWidth {
    match w {
        BitWidth::Bit32 => BitWidth::Bit64,
        BitWidth::Bit64 => BitWidth::Bit32,
    }
}
