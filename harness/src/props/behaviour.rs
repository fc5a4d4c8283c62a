//! Properties that are decided by running programs.

use serde_json::json;

use lunify::LunifyError;

use crate::asm;
use crate::ctx::{hex, Case, Ctx, Out};
use crate::flow::*;
use crate::lgen::{program, Focus};
use crate::model::*;
use crate::rng::{hash_bytes, Rng};
use crate::vm::RunOpts;

const ALL: [Focus; 6] = [Focus::General, Focus::Tables, Focus::Loops, Focus::Varargs, Focus::Jumps, Focus::Closures];

const RULE: &str = "A random terminating Lua program is compiled by a reference compiler of its version, re-encoded in a random format,
    instruction layout and signature, converted to another random format, layout and LFIELDS_PER_FLUSH, and run by the reference Lua 5.1 VM
    (with sanitizers and all internal assertions). Every traced event (arguments and line of each call of the monitor function T), the way it
    ended, the error message and the final global variables have to be the same as in a run of the unconverted program by a VM of its own version.
    A case is non-trivial if it traced more than one event";

fn assumptions(cx: &Ctx) {
    cx.assume("the Lua 5.1.5 runtime in /verif/lua, and its Lua 5.0 variant which was validated against luac 5.0 files, are correct");
    cx.assume("programs don't rely on arg.n, the order of pairs, or the registers above the ones the compiler declared (see known-findings.txt)");
}

/// Run a hand-assembled program before and after the conversion.
fn assembled(case: &mut Case, ver: Ver) {
    let fpf = random_fpf(&mut case.rng, if ver == Ver::L50 { 32 } else { 50 }).min(60);
    let out_fpf = match case.rng.chance(15) {
        true => fpf,
        false => random_fpf(&mut case.rng, 50),
    };
    let blocks = 1 + case.rng.us(14);
    let proto = asm::program(&mut case.rng, ver, fpf, blocks);
    let enc = match ver {
        Ver::L50 => Enc::native50(fpf),
        Ver::L51 => Enc::native51(fpf),
    };
    let native = match encode(&enc, &proto) {
        Ok(b) => b,
        Err(_) => {
            case.count("discarded: operands too big");
            return;
        }
    };
    let source = listing(ver, &proto);
    let c = Compiled { ver, source, fpf, native, proto };
    source_case(case, &c, out_fpf, &Plan::new(ver, Focus::Jumps));
}

/// Known defects: the program has to fail in exactly this way, or not at all.
fn known(case: &mut Case, key: &str, ver: Ver, source: &str, fpf: (u64, u64)) {
    let Some(c) = compile_exactly(case, ver, source, fpf.0) else { return };
    let Some(want) = run_reference(case, &c, false, false) else { return };
    let (input, output) = match ver {
        Ver::L50 => (Enc::native50(fpf.0), Enc::native51(fpf.1)),
        Ver::L51 => (Enc::native51(fpf.0), Enc::native51(fpf.1)),
    };
    let settings = settings(&input, &output, &Enc::native50(32));
    case.note("source", source);
    let what = match case.unify(&c.native, &output.fmt, &settings) {
        Out::Ok(b) => {
            let opts = RunOpts { fpf: fpf.1, no_arg_n: false, budget: 1_000_000, memory: MEMORY, ..RunOpts::default() };
            match case.vm51.run(opts, &b) {
                Ok(got) => match difference(&want, &got, false) {
                    Some(d) => d,
                    None => return,
                },
                Err(_) => "the converted program breaks the runtime".into(),
            }
        }
        out => format!("conversion failed: {}", out.show()),
    };
    case.finding(key, what);
}

pub fn programs_50(cx: &Ctx) {
    cx.rule(RULE);
    assumptions(cx);
    cx.run("files", 6, files_50);
    cx.run("general", cx.scale(9000), |case| {
        let focus = match case.index % 3 {
            0 => Focus::General,
            _ => *case.rng.pick(&ALL),
        };
        let mut plan = Plan::new(Ver::L50, focus);
        plan.size = 120;
        random_program(case, &plan);
    });
    cx.run("big", cx.scale(300), |case| {
        let mut plan = Plan::new(Ver::L50, *case.rng.clone().pick(&ALL));
        plan.size = 800;
        random_program(case, &plan);
    });
    cx.run("constants", cx.scale(400), |case| {
        random_program(case, &Plan::new(Ver::L50, Focus::Constants));
    });
    cx.run("assembled", cx.scale(1500), |case| assembled(case, Ver::L50));
    cx.run("environment", 1, |case| {
        let source = "local f = function() for k, v in {7} do T(k, v) end end setfenv(f, {T = T}) f()";
        known(case, "F24-environment", Ver::L50, source, (32, 50));
    });
    cx.run("replaced", 1, |case| {
        let source = "local old = type type = function(v) T('type') return old(v) end for k, v in {7} do T(k, v) end";
        known(case, "F24-replaced-type", Ver::L50, source, (32, 50));
    });
}

/// The output of real compilers.
fn files_50(case: &mut Case) {
    let names = ["dynamic_table", "empty", "for_loop", "large_table", "lua50", "variadic"];
    let name = names[case.index as usize];
    let path = case.cx.repo.join(format!("test_files/{name}.luab"));
    let Ok(bytes) = std::fs::read(&path) else {
        case.count("missing files");
        return;
    };
    let mut enc = Enc::native50(32);
    enc.fmt.instruction_width = lunify::BitWidth::Bit64;
    let mut found = None;
    for int in [4u8, 8] {
        for size in [4u8, 8] {
            for ins in [4u8, 8] {
                for number in [4u8, 8] {
                    let mut e = enc.clone();
                    e.fmt.integer_width = int.try_into().unwrap();
                    e.fmt.size_t_width = size.try_into().unwrap();
                    e.fmt.instruction_width = ins.try_into().unwrap();
                    e.fmt.number_width = number.try_into().unwrap();
                    if let Ok(p) = decode(&e, &bytes) {
                        found = Some((e, p));
                    }
                }
            }
        }
    }
    let Some((_, proto)) = found else {
        case.count("files that are not readable");
        return;
    };
    let native = encode(&Enc::native50(32), &proto).unwrap();
    let c = Compiled { ver: Ver::L50, source: name.into(), fpf: 32, native, proto };
    let mut plan = Plan::new(Ver::L50, Focus::General);
    for fpf in [50, 32, 7, 1, 100] {
        plan.output_fpf = Some(fpf);
        source_case(case, &c, fpf, &plan);
        case.count("files of real compilers");
    }
}

pub fn jumps(cx: &Ctx) {
    cx.rule(&format!("{RULE} and contains jumps. Section assembled-* has hand-made blocks of code that jump to each other at random.
        Sections graphs-* have code that isn't run. Instead all paths through the input and the output are followed: from each instruction with a constant
        of its own, they lead to the same instructions next, no matter which way they take."));
    assumptions(cx);
    cx.run("graphs-50", cx.scale(20_000), |case| graph(case, Ver::L50));
    cx.run("graphs-51", cx.scale(20_000), |case| graph(case, Ver::L51));
    cx.run("assembled-50", cx.scale(3500), |case| assembled(case, Ver::L50));
    cx.run("assembled-51", cx.scale(3500), |case| assembled(case, Ver::L51));
    for (name, ver, n) in [("compiled-50", Ver::L50, 3500), ("compiled-51", Ver::L51, 2500)] {
        cx.run(name, cx.scale(n), |case| {
            let focus = *case.rng.pick(&[Focus::Jumps, Focus::Jumps, Focus::Loops, Focus::Tables]);
            let mut plan = Plan::new(ver, focus);
            plan.needs = &["JMP", "FORLOOP"];
            plan.size = 150;
            random_program(case, &plan);
        });
    }
    cx.run("distant", cx.scale(120), |case| {
        let focus = *case.rng.pick(&[Focus::Jumps, Focus::Loops, Focus::Tables, Focus::Closures]);
        let plan = Plan::new(*case.rng.pick(&[Ver::L50, Ver::L51]), focus);
        long_program(case, &plan);
    });
    cx.run("long", cx.scale(60), |case| {
        // Jumps over thousands of instructions.
        let ver = *case.rng.pick(&[Ver::L50, Ver::L51]);
        let mut plan = Plan::new(ver, Focus::Jumps);
        plan.size = 3000;
        plan.needs = &["JMP"];
        random_program(case, &plan);
    });
}

/// All paths through a function lead to the same places before and after the conversion.
fn graph(case: &mut Case, ver: Ver) {
    let fpf = random_fpf(&mut case.rng, if ver == Ver::L50 { 32 } else { 50 }).min(60);
    let output_fpf = match case.rng.below(4) {
        0 => fpf,
        1 => related_fpf(&mut case.rng, fpf).min(100),
        _ => random_fpf(&mut case.rng, 50),
    };
    let n = match case.rng.below(400) {
        0 => 2000 + case.rng.us(4000),
        1..=8 => 300 + case.rng.us(500),
        9..=100 => 40 + case.rng.us(100),
        _ => 1 + case.rng.us(40),
    };
    let mut proto = asm::graph(&mut case.rng, ver, fpf, n);
    if case.rng.chance(20) {
        proto.lines.clear();
    }
    let mut input = Enc::random(&mut case.rng, ver, fpf);
    if case.rng.chance(60) {
        input.lay = if ver == Ver::L50 { Lay::L50 } else { Lay::L51 };
    }
    let output = match case.rng.chance(60) {
        true => Enc::native51(output_fpf),
        false => Enc::random(&mut case.rng, Ver::L51, output_fpf),
    };
    let other = match ver {
        Ver::L50 => Enc::native51(random_fpf(&mut case.rng, 50)),
        Ver::L51 => Enc::native50(random_fpf(&mut case.rng, 32)),
    };
    let c = Compiled { ver, source: listing(ver, &proto), fpf, native: Vec::new(), proto };
    let Ok(bytes) = encode(&input, &c.proto) else {
        case.count("graphs that don't fit their encoding");
        return;
    };
    let Some(converted) = convert(case, &c, &input, &output, &other) else { return };
    let consts = c.proto.consts.len();
    let (want, got) = (asm::paths(ver, &c.proto, consts), asm::paths(Ver::L51, &converted.proto, consts));
    if want != got {
        let (from, to) = want.iter().find(|(k, v)| got.get(k) != Some(v)).map_or((asm::Place::Start, Default::default()), |(k, v)| (*k, v.clone()));
        case.violation(format!("from {from:?} the next places are {to:?}, but after the conversion {:?}", got.get(&from)));
        return;
    }
    case.count("graphs compared");
    case.add("places compared", want.len() as u64);
    case.add("ways between places compared", want.values().map(|v| v.len() as u64).sum());
    if want.len() > 2 && c.proto.code.len() != converted.proto.code.len() {
        case.nontrivial(hash_bytes(&bytes));
    }
}

pub fn tables(cx: &Ctx) {
    cx.rule(&format!("{RULE} and builds tables from lists."));
    assumptions(cx);
    for (name, ver, n) in [("random-50", Ver::L50, 4000), ("random-51", Ver::L51, 4000)] {
        cx.run(name, cx.scale(n), |case| {
            let mut plan = Plan::new(ver, Focus::Tables);
            plan.needs = &["SETLIST", "SETLISTO"];
            plan.size = 60;
            if case.rng.chance(30) {
                let fpf = 1 + case.rng.below(64);
                plan.input_fpf = Some(fpf);
                plan.output_fpf = Some(match case.rng.chance(50) {
                    true => 1 + case.rng.below(64),
                    false => related_fpf(&mut case.rng, fpf),
                });
            }
            random_program(case, &plan);
        });
    }
    // Every length of a list for pairs of LFIELDS_PER_FLUSH, with different endings.
    for (name, ver) in [("lengths-50", Ver::L50), ("lengths-51", Ver::L51)] {
        cx.run(name, cx.scale(4000), |case| lengths(case, ver));
    }
    cx.run("huge", cx.scale(32), |case| {
        // Up to the number of elements that fit SETLIST.
        let ver = *case.rng.pick(&[Ver::L50, Ver::L51]);
        let (input, output) = match case.index % 4 {
            0 => (32, 50),
            1 => (50, 50),
            2 => (50, 64),
            _ => (if ver == Ver::L50 { 32 + case.rng.below(70) } else { 100 + case.rng.below(100) }, 80 + case.rng.below(120)),
        };
        // Everything above 511 instructions is in section "extended".
        let most = match ver {
            Ver::L50 => 511 * output as i64,
            Ver::L51 => 511 * input.min(output) as i64,
        };
        let n = match case.index % 4 {
            3 => case.rng.range(most - 8000, most),
            _ => case.rng.range(2000, most.min(12_000)),
        };
        let list: Vec<String> = (1..=n).map(|i| (i % 97).to_string()).collect();
        let source = format!("local t = {{{}}} local s = 0 for i = 1, {n} do s = s + t[i] * i end T(s, t[{n}], t[{}])", list.join(","), n + 1);
        let Some(c) = compile(case, ver, &source, input, false) else { return };
        source_case(case, &c, output, &Plan::new(ver, Focus::Tables));
    });
    cx.run("extended", 2, |case| {
        // More elements than fit SETLIST: the page is in an instruction of its own.
        let n = 50 * 511 + 60;
        let list: Vec<String> = (1..=n).map(|i| (i % 7).to_string()).collect();
        let source = format!("local t = {{{}}} T(t[1], t[{n}], t[{}])", list.join(","), n - 30);
        let output = [50, 49][case.index as usize];
        known_extended(case, &source, output);
    });
}

fn known_extended(case: &mut Case, source: &str, output_fpf: u64) {
    let Some(c) = compile_exactly(case, Ver::L51, source, 50) else { return };
    let input = Enc::native51(50);
    let mut output = Enc::native51(output_fpf);
    output.lay = Lay { spec: [('A', 8), ('O', 6), ('B', 9), ('C', 9)] };
    let settings = settings(&input, &output, &Enc::native50(32));
    let bad = match case.unify(&c.native, &output.fmt, &settings) {
        Out::Ok(b) => match decode(&output, &b) {
            Ok(p) if diff(Ver::L51, &c.proto, &p, "main").is_none() => return,
            _ => "the extended SETLIST page was changed".to_string(),
        },
        out => out.show(),
    };
    let key = ["F11-extended-setlist-layout", "F11-extended-setlist-flush"][case.index as usize];
    let expected = match case.index {
        0 => bad.contains("changed") || bad.contains("InvalidOpcode"),
        _ => bad.contains("ValueTooBigForOperand"),
    };
    match expected {
        true => case.finding(key, bad),
        false => case.violation(bad),
    }
}

fn lengths(case: &mut Case, ver: Ver) {
    let widest = *case.rng.pick(&[60, 60, 60, 120, 200]);
    let input = if case.rng.chance(15) { 50 } else { 1 + case.rng.below(widest) };
    let output = match case.rng.chance(25) {
        true => related_fpf(&mut case.rng, input),
        false => 1 + case.rng.below(widest),
    };
    let n = match case.rng.below(3) {
        0 => case.rng.below(12),
        1 => {
            let base = [input, output, input + output, input * output][case.rng.us(4)];
            (base * (1 + case.rng.below(3)) + case.rng.below(5)).saturating_sub(2)
        }
        _ => case.rng.below(200),
    }
    .min(230);
    let mut body = String::from("T(1) local function f(...) return 'a', 'b', 'c' end\n");
    let locals = case.rng.below(20);
    for i in 0..locals {
        body.push_str(&format!("local x{i} = {i}\n"));
    }
    let mut items: Vec<String> = Vec::new();
    // Sometimes the same kind of value many times.
    let mut run = (0, 0);
    for i in 1..=n {
        if run.1 == 0 && case.rng.chance(2) {
            run = (*case.rng.pick(&[1, 4, 4, 5, 5, 5, 6, 12]), 2 + case.rng.below(widest));
        }
        let kind = match run.1 {
            0 => case.rng.below(16),
            _ => run.0,
        };
        run.1 = run.1.saturating_sub(1);
        items.push(match kind {
            0 => format!("k{i} = {i}, {i}"),
            1 => format!("f({i})"),
            2 => format!("{{{i}, {i}}}"),
            3 => format!("function() return {i} + {} end", if locals > 0 { "x0" } else { "1" }),
            4 => format!("T({i}) == {i}"),
            5 => "nil".into(),
            12 => format!("'x' .. {i} .. T({i})"),
            6 if locals > 0 => format!("x{} and {i} or f({i})", case.rng.below(locals)),
            _ => i.to_string(),
        });
    }
    let mut varargs = false;
    match case.rng.below(if ver == Ver::L51 { 6 } else { 5 }) {
        5 => {
            varargs = true;
            items.push("...".into())
        }
        0 => items.push("f(1)".into()),
        1 => items.push("unpack({7, 8, 9, 10})".into()),
        2 => items.push("unpack({})".into()),
        3 => items.push(format!("last = {n}")),
        _ => {}
    }
    match varargs {
        true => {
            let fixed = *case.rng.pick(&[0, 0, 1, 2, 3, 7, 25]);
            let names: String = (0..fixed).map(|i| format!("p{i}, ")).collect();
            let mut values = vec!["true"; fixed];
            values.extend([&[][..], &["7"], &["7", "8"], &["7", "8", "nil", "9"]][case.rng.us(4)]);
            body.push_str(&format!("local t = (function({names}...) return {{{}}} end)({})\nT(t)\n", items.join(", "), values.join(", ")))
        }
        false => body.push_str(&format!("local t = {{{}}}\nT(t)\n", items.join(", "))),
    }
    // The functions are part of the trace as well.
    body.push_str("for i = 1, 300 do if type(t[i]) == 'function' then T(i, t[i]()) end end T(t)\n");
    for i in 0..locals {
        body.push_str(&format!("T(x{i})\n"));
    }
    let strip = case.rng.chance(10);
    let body = maybe_within(&mut case.rng, body);
    let Some(c) = compile(case, ver, &body, input, strip) else { return };
    case.count(&format!("lists for version {ver:?}"));
    source_case(case, &c, output, &Plan::new(ver, Focus::Tables));
}

pub fn loops(cx: &Ctx) {
    cx.rule(&format!("{RULE} and contains numeric or generic for loops, while or repeat loops."));
    assumptions(cx);
    cx.run("random-50", cx.scale(7000), |case| {
        let mut plan = Plan::new(Ver::L50, *case.rng.clone().pick(&[Focus::Loops, Focus::Loops, Focus::Closures]));
        plan.needs = &["FORLOOP", "TFORLOOP", "TFORPREP", "JMP"];
        plan.size = 150;
        random_program(case, &plan);
    });
    cx.run("random-51", cx.scale(2000), |case| {
        let mut plan = Plan::new(Ver::L51, *case.rng.clone().pick(&[Focus::Loops, Focus::Loops, Focus::Closures]));
        plan.needs = &["FORLOOP", "TFORLOOP", "JMP"];
        plan.size = 150;
        random_program(case, &plan);
    });
    cx.run("shapes", cx.scale(2500), loop_shapes);
    cx.run("wide", cx.scale(500), |case| {
        // As many variables as there are registers for, or many registers in front of them.
        let r = &mut case.rng;
        let (vars, pad) = match r.below(3) {
            0 => (1 + r.us(121), 0),
            1 => {
                let vars = 1 + r.us(12);
                (vars, if r.chance(50) { 190 - vars - r.us(20) } else { r.us(192 - vars) })
            }
            _ => {
                let vars = 1 + r.us(90);
                (vars, r.us((200 - 2 * vars).clamp(1, 188 - vars)))
            }
        };
        let given = if r.chance(70) { vars } else { r.us(vars + 4) };
        let names: Vec<String> = (0..vars).map(|v| format!("v{v}")).collect();
        let values: Vec<String> = (1..given).map(|v| format!(", k * {v}")).collect();
        let mut s = format!("local function f(s, k) if k < s then return k + 1{} end end\nlocal sum = 0\n", values.concat());
        for i in 0..pad {
            s.push_str(&format!("local pad{i} = {i} "));
        }
        s.push_str(&format!("for {} in f, {}, 0 do T(v0, v{}, v{}) ", names.join(", "), 1 + r.below(4), vars - 1, vars / 2));
        for (i, n) in names.iter().enumerate() {
            s.push_str(&format!("sum = sum + ({n} or 0.25) * {} ", i % 13 + 1));
        }
        s.push_str("end\nT(sum)");
        for i in (0..pad).step_by(11) {
            s.push_str(&format!(" T(pad{i})"));
        }
        let fpf = random_fpf(r, 50);
        let Some(c) = compile(case, Ver::L50, &s, 32, false) else { return };
        case.count("loops with many variables");
        source_case(case, &c, fpf, &Plan::new(Ver::L50, Focus::Loops));
    });
    cx.run("assembled", cx.scale(1500), |case| assembled(case, Ver::L50));
    cx.run("strings", 2, |case| {
        let (key, source) = [
            ("F18-string-limit", "for i = 1, '3' do T(i) end"),
            ("F18-nil-limit", "T(pcall(function() for i = 1, nil do T(i) end end))"),
        ][case.index as usize];
        known(case, key, Ver::L50, source, (32, 50));
    });
}

/// Systematic combinations of loops: kind, number of variables, nesting, exit.
fn loop_shapes(case: &mut Case) {
    let r = &mut case.rng;
    let mut source = String::from("local log = {} local acc = 0\n");
    let pad = match r.chance(10) {
        true => r.below(185),
        false => r.below(6),
    };
    for i in 0..pad {
        source.push_str(&format!("local pad{i} = {i} "));
    }
    if r.chance(12) {
        // Around the number of constants that operands have room for.
        for i in 0..[r.below(30), 225 + r.below(35), 480 + r.below(40)][r.us(3)] {
            source.push_str(&format!("acc = {i}.125 "));
        }
        source.push_str("acc = 0 ");
    }
    let depth = 1 + r.us(4);
    let mut close = String::new();
    for d in 0..depth {
        let n = r.below(5);
        match r.below(9) {
            0 => source.push_str(&format!("for a{d} = 1, {n} do ")),
            1 => source.push_str(&format!("for a{d} = {n}, 1, -1 do ")),
            2 => source.push_str(&format!("for a{d} = 1, {n}, 0.5 do a{d} = a{d} + 0.5 ")),
            3 => source.push_str(&format!("for a{d} in ipairs({{1, 2, 3, {n}}}) do ")),
            4 => source.push_str(&format!("for a{d}, b{d} in ipairs({{1, 2, 3, {n}}}) do T(b{d}) ")),
            5 => source.push_str(&format!("for a{d}, b{d} in {{k = {n}}} do T(b{d}) ")),
            6 => {
                // Two registers for each variable have to be available.
                let vars = 1 + if r.chance(6) && depth == 1 { r.us(110) } else { r.us(12) };
                let names: Vec<String> = (0..vars).map(|v| format!(", v{d}_{v}")).collect();
                let vals: Vec<String> = (0..r.us(14)).map(|v| format!(", k * {v}")).collect();
                source.push_str(&format!(
                    "for a{d}{} in function(s, k) if k < {n} then return k + 1{} end end, nil, 0 do T(a{d}{}) ",
                    names.concat(),
                    vals.concat(),
                    names.concat()
                ));
            }
            7 => source.push_str(&format!("local a{d} = 0 while a{d} < {n} do a{d} = a{d} + 1 ")),
            _ => {
                source.push_str(&format!("local a{d} = 0 repeat a{d} = a{d} + 1 "));
                close = format!("T(a{d}) until a{d} >= {n} {close}");
                let v = r.below(4);
                exits(&mut source, d, v);
                continue;
            }
        }
        let v = r.below(6);
        exits(&mut source, d, v);
        close = format!("T(a{d}) end {close}");
    }
    let names: Vec<String> = (0..depth).map(|d| format!("a{d}")).collect();
    source.push_str(&format!("acc = acc + 1 T(acc, {}) ", names.join(", ")));
    if r.chance(40) {
        source.push_str(&format!("local c = a{} log[acc] = function() c = c + 1 return c end ", depth - 1));
    }
    source.push_str(&close);
    source.push_str("\nfor i = 1, acc do if log[i] then T(log[i](), log[i]()) end end T(acc)");
    for i in 0..pad {
        source.push_str(&format!(" T(pad{i})"));
    }
    let (fpf, out) = two_fpfs(&mut case.rng);
    let strip = case.rng.chance(10);
    let source = maybe_within(&mut case.rng, source);
    let Some(c) = compile(case, Ver::L50, &source, fpf, strip) else { return };
    let mut plan = Plan::new(Ver::L50, Focus::Loops);
    plan.needs = &["FORLOOP", "TFORLOOP", "TFORPREP", "JMP"];
    source_case(case, &c, out, &plan);
}

fn exits(source: &mut String, d: usize, kind: u64) {
    match kind {
        0 => source.push_str(&format!("if acc > 3 and type(a{d}) == 'number' and a{d} > 1 then break end ")),
        1 => source.push_str(&format!("if acc == 5 then acc = acc + 1 T('x', a{d}) break end ")),
        2 => source.push_str("if acc > 40 then return acc end "),
        _ => {}
    }
}

pub fn varargs(cx: &Ctx) {
    cx.rule(&format!("{RULE} and contains functions with a variable number of arguments."));
    assumptions(cx);
    cx.run("random", cx.scale(5000), |case| {
        let mut plan = Plan::new(Ver::L50, Focus::Varargs);
        plan.size = 100;
        random_program(case, &plan);
    });
    cx.run("shapes", cx.scale(4000), |case| {
        let r = &mut case.rng;
        let params = match r.chance(15) {
            true => r.us(97),
            false => r.us(8),
        };
        let given = match r.below(5) {
            // Lua 5.0 has to put all of them on the stack.
            4 => params + r.us(50),
            0 => r.us(4),
            1 => 45 + r.us(12),
            2 => r.us(120),
            _ => r.us(15),
        };
        let names: Vec<String> = (0..params).map(|i| format!("p{i}")).collect();
        let all: Vec<String> = (1..=given).map(|i| if r.chance(80) { i.to_string() } else { format!("'s{i}'") }).collect();
        let uses = [
            "T(arg)",
            "T(unpack(arg))",
            "T(arg[1], arg[2], arg[60])",
            "for i, v in ipairs(arg) do T(i, v) end",
            "local x, y, z = unpack(arg) T(x, y, z)",
            "T((function(...) return unpack(arg) end)(unpack(arg)))",
            "T({unpack(arg)})",
            "T({1, 2, unpack(arg)})",
            "arg[1] = 'changed' T(arg)",
            "arg = nil T(arg)",
            "local f = function() return arg end T(f())",
            "for i = 1, 2 do T(i, arg[i]) end",
            "local arg = 5 T(arg)",
            "if arg[1] then T('some') else T('none') end",
            "while arg[1] do table.remove(arg, 1) end T(arg)",
        ];
        let mut body = String::new();
        // The first instruction can be the target of a jump.
        if r.chance(25) {
            body.push_str(["while arg[2] do table.remove(arg) end ", "repeat arg[3] = 1 until true ", "while not arg[1] do arg[1] = 1 end "][r.us(3)]);
        }
        for _ in 0..1 + r.us(3) {
            body.push_str(&format!("do {} end ", uses[r.us(uses.len())]));
        }
        for n in &names {
            body.push_str(&format!("T({n}) "));
        }
        let list = match params {
            0 => "...".to_string(),
            _ => format!("{}, ...", names.join(", ")),
        };
        let tail = ["", "return unpack(arg)", "return 1, arg", "return T(unpack(arg or {}))"][r.us(4)];
        let tail = if body.contains("arg = nil") { "" } else { tail };
        let source = format!("local function f({list}) {body} {tail} end\nT(f({}))\nT(f())\nT(f('only'))", all.join(", "));
        let fpf = random_fpf(r, 32);
        let out = random_fpf(r, 50);
        let strip = r.chance(10);
        let Some(c) = compile(case, Ver::L50, &source, fpf, strip) else { return };
        source_case(case, &c, out, &Plan::new(Ver::L50, Focus::Varargs));
    });
    cx.run("main", cx.scale(50), |case| {
        // Arguments of 5.1 programs are not touched.
        let mut plan = Plan::new(Ver::L51, Focus::Varargs);
        plan.size = 100;
        random_program(case, &plan);
    });
    cx.run("count", 1, |case| {
        // The reference leaves out arg.n everywhere else.
        let source = "local function f(...) return arg.n end T(f(1, nil, nil))";
        let Some(c) = compile_exactly(case, Ver::L50, source, 32) else { return };
        let out = Enc::native51(50);
        let settings = settings(&Enc::native50(32), &out, &Enc::native51(50));
        let Out::Ok(b) = case.unify(&c.native, &out.fmt, &settings) else {
            return case.violation("conversion failed");
        };
        let opts = RunOpts { fpf: 50, budget: 1_000_000, memory: MEMORY, ..RunOpts::default() };
        match case.vm51.run(opts, &b) {
            Ok(r) if r.trace == "T@1 3\n" => {}
            Ok(r) if r.trace == "T@1 nil\n" => case.finding("F19-arg-n", "arg.n is nil in converted functions"),
            Ok(r) => case.violation(format!("arg.n is {}", r.trace)),
            Err(f) => case.fail(f),
        }
    });
}

pub fn verifier(cx: &Ctx) {
    cx.rule(
        "Every output of a conversion is loaded by the Lua 5.1.5 bytecode verifier (luaG_checkcode), which rejects registers outside of the declared
        stack, bad constants, jumps and open calls; additionally the debug information has to be in range and the declared stack can't exceed the
        limit. Sections stack-* require StackTooLarge exactly if a list doesn't fit the registers. A case is non-trivial if the output
        differs in its instructions from the input or has an exactly predicted stack size.",
    );
    assumptions(cx);
    for (name, ver, n) in [("compiled-50", Ver::L50, 6000), ("compiled-51", Ver::L51, 3000)] {
        cx.run(name, cx.scale(n), |case| {
            let focus = *case.rng.pick(&ALL);
            let size = case.rng.range(10, 200);
            let fpf = random_fpf(&mut case.rng, 32);
            let p = crate::lgen::program(&mut case.rng, ver == Ver::L50, focus, size, fpf as usize);
            let strip = case.rng.chance(20);
            let Some(c) = compile(case, ver, &p.source, fpf, strip) else { return };
            verify(case, &c);
        });
    }
    for (name, ver) in [("assembled-50", Ver::L50), ("assembled-51", Ver::L51)] {
        cx.run(name, cx.scale(2000), |case| {
            let fpf = random_fpf(&mut case.rng, 32).min(60);
            let proto = asm::program(&mut case.rng, ver, fpf, 5);
            let c = Compiled { ver, source: String::new(), fpf, native: Vec::new(), proto };
            verify(case, &c);
        });
    }
    cx.run("calls", cx.scale(1500), |case| {
        // Many arguments and results, which decide the size of the stack.
        let r = &mut case.rng;
        let ver = *r.pick(&[Ver::L50, Ver::L51]);
        let locals = r.us(150);
        let results = 1 + r.us(40);
        let names: Vec<String> = (0..results).map(|i| format!("r{i}")).collect();
        let vars: Vec<String> = (0..1 + r.us(30)).map(|i| format!("v{i}")).collect();
        let mut s = String::new();
        for i in 0..locals {
            s.push_str(&format!("local x{i} = {i} "));
        }
        let call = match (ver, r.below(3)) {
            (Ver::L51, 0) => "...",
            (_, 1) => "f()",
            _ => "unpack({1, 2, 3})",
        };
        s.push_str("local f = function(...) return 1, 2 end ");
        s.push_str(&format!("local {} = {call} T({}) ", names.join(", "), names.join(", ")));
        if r.chance(50) {
            s.push_str(&format!("for {} in f() do T(v0) end ", vars.join(", ")));
        }
        let fpf = random_fpf(r, 32);
        let Some(c) = compile(case, ver, &s, fpf, false) else { return };
        verify(case, &c);
    });
    cx.run("tight", cx.scale(6000), |case| {
        // The list is all that decides the size of the stack, so every kind of value has to be counted exactly.
        let r = &mut case.rng;
        let ver = *r.pick(&[Ver::L50, Ver::L51]);
        let kinds: &[&str] = &["1", "x", "x.y", "x:m()", "x:m(1, 2)", "f()", "f(1, 2, 3)", "-x", "not x", "x .. 1 .. x", "x == 1", "x and y", "x or 1", "nil", "nil, nil, nil", "true",
            "{}", "{1}", "{x:m()}", "function() end", "function() return up end", "up", "(f())", "(x:m())", "x + 1", "'s'", "x.y.z", "x[1][2]", "{f()}"];
        let n = match r.below(3) {
            0 => 1 + r.us(4),
            1 => 1 + r.us(12),
            _ => 1 + r.us(60),
        };
        let common = *r.pick(kinds);
        let mut items: Vec<&str> = (0..n).map(|_| if r.chance(60) { common } else { *r.pick(kinds) }).collect();
        if ver == Ver::L51 && r.chance(20) {
            items.push("...");
        }
        let list = format!("{{{}}}", items.join(", "));
        let body = match r.below(10) {
            5 => "for i = 1, 2 do end".into(),
            6 => "for i = 1, 2 do for j = i, 3, 2 do end end".into(),
            7 => format!("for {} in f() do end", ["k", "k, v", "k, v, w, z"][r.us(3)]),
            8 => format!("local a, b, c, d, e = {}", if ver == Ver::L51 { *r.pick(&["...", "f()"]) } else { "f()" }),
            9 => (*r.pick(&["local a, b, c, d", "while f() do local a, b end", "return f()", "return x:m()", "local a = x:m(f())", "f().x = x"])).into(),
            0 => format!("return {list}"),
            1 => format!("local t = {list}"),
            2 => format!("g({list})"),
            3 => format!("local t t = ({list}).x"),
            _ => format!("X = {list}"),
        };
        let args = if ver == Ver::L51 { "..." } else { "" };
        let source = format!("local up local function f({args}) {body} end");
        let (input, output) = match r.below(3) {
            0 => (1 + r.below(4), random_fpf(r, 50)),
            1 => (random_fpf(r, 32), 1 + r.below(4)),
            _ => (random_fpf(r, 32), random_fpf(r, 50)),
        };
        let Some(c) = compile(case, ver, &source, input, false) else { return };
        verify_with(case, &c, output);
    });
    cx.run("stack-lists", cx.scale(3000), stack_lists);
    cx.run("stack-loops", cx.scale(1000), stack_loops);
}

/// Check one conversion against the verifier.
fn verify(case: &mut Case, c: &Compiled) {
    let out_fpf = random_fpf(&mut case.rng, 50);
    verify_with(case, c, out_fpf);
}

fn verify_with(case: &mut Case, c: &Compiled, out_fpf: u64) {
    let mut output = match case.rng.chance(50) {
        true => Enc::native51(out_fpf),
        false => Enc::random(&mut case.rng, Ver::L51, out_fpf),
    };
    let mut input = Enc::random(&mut case.rng, c.ver, c.fpf);
    if case.rng.chance(50) {
        input.lay = if c.ver == Ver::L50 { Lay::L50 } else { Lay::L51 };
    }
    let mut other = if c.ver == Ver::L50 { Enc::native51(50) } else { Enc::native50(32) };
    vary(&mut case.rng, c, &mut input, &mut output, &mut other);
    output.stack_limit = 250;
    let Some(bytes) = input_of(case, c, &input) else { return };
    match case.rng.below(10) {
        0 | 1 => output.stack_limit = 20 + case.rng.below(236),
        2 | 3 => {
            // As many registers as the output needs, or slightly more or less.
            output.stack_limit = 255;
            if let Out::Ok(result) = case.unify(&bytes, &output.fmt, &settings(&input, &output, &other)) {
                if let Ok(p) = decode(&output, &result) {
                    let mut most = 0;
                    p.walk(&mut |p| most = most.max(needed(p)));
                    output.stack_limit = (most + case.rng.below(3)).saturating_sub(1).min(255);
                }
            }
        }
        _ => {}
    }
    case.note("source", c.source.clone());
    case.note("configuration", format!("{input:?} {output:?}"));
    case.note("input", hex(&bytes));
    let s = settings(&input, &output, &other);
    let result = match case.unify(&bytes, &output.fmt, &s) {
        Out::Ok(b) => b,
        Out::Err(LunifyError::StackTooLarge(n)) => {
            case.count("StackTooLarge");
            if n <= output.stack_limit.min(250) {
                return case.violation(format!("StackTooLarge({n}) even though the limit is {}", output.stack_limit));
            }
            // Without the limit we are able to see how many registers it would have taken.
            let mut free = output.clone();
            free.stack_limit = 255;
            let s = settings(&input, &free, &other);
            let Out::Ok(result) = case.unify(&bytes, &free.fmt, &s) else { return };
            let Ok(p) = decode(&free, &result) else { return };
            let mut most = 0;
            p.walk(&mut |p| most = most.max(needed(p)));
            if most <= output.stack_limit {
                case.violation(format!("StackTooLarge({n}) with a limit of {}, but {most} registers are enough", output.stack_limit));
            }
            case.count("exact limits");
            return;
        }
        Out::Err(LunifyError::ValueTooBigForOperand) if !operands_fit(&c.proto, c.ver, &output) => return,
        out => return case.violation(format!("conversion failed: {}", out.show())),
    };
    let p = match decode(&output, &result) {
        Ok(p) => p,
        Err(m) => return case.violation(format!("output is not well-formed: {m}")),
    };
    case.note("output", hex(&result));
    case.note("listing", listing(Ver::L51, &p));
    let converted = Converted { proto: p, bytes: result };
    let Some(chunk) = native(case, c, &converted, &output) else { return };
    match case.vm51.load(output.fpf, &chunk) {
        Ok(Ok(())) => case.count("accepted by the verifier"),
        Ok(Err(m)) => return case.violation(format!("Lua 5.1 doesn't accept the output: {m}")),
        Err(crate::vm::Fail::Crash(m)) => return case.violation(format!("loading the output breaks the runtime: {m}")),
        Err(f) => return case.fail(f),
    }
    if let Some(m) = static_checks(&c.proto, &converted.proto, output.stack_limit) {
        return case.violation(m);
    }
    case.add("functions verified", count_protos(&converted.proto));
    if converted.proto.total_code() != c.proto.total_code() {
        case.nontrivial(hash_bytes(&chunk));
        let (a, b) = (c.proto.total_code(), converted.proto.total_code());
        let src: String = c.source.chars().take(600).collect();
        case.sample(|| json!({"source": src, "instructions": [a, b]}));
    }
}

fn count_protos(p: &Proto) -> u64 {
    let mut n = 0;
    p.walk(&mut |_| n += 1);
    n
}

/// The number of registers that the instructions of a Lua 5.1 function write.
fn needed(p: &Proto) -> u64 {
    let ops = ops(Ver::L51);
    let mut most = 0;
    for (at, i) in p.code.iter().enumerate() {
        // The list of captured variables doesn't write anything.
        let name = |k: &usize| ops.get(p.code[*k].op as usize).map_or("", |op| op.0);
        let captured = (0..at).rev().take_while(|k| matches!(name(k), "MOVE" | "GETUPVAL" | "CLOSURE")).find(|k| name(k) == "CLOSURE");
        if let Some(k) = captured {
            let inner = p.protos.get(p.code[k].bx as usize);
            if inner.is_some_and(|f| at - k <= f.nups as usize) {
                continue;
            }
        }
        let top = match name(&at) {
            "" | "SETGLOBAL" | "SETUPVAL" | "SETTABLE" | "JMP" | "EQ" | "LT" | "LE" | "TEST" | "TAILCALL" | "RETURN" | "CLOSE" | "SETLIST" => continue,
            "LOADNIL" => i.a.max(i.b),
            "SELF" => i.a + 1,
            "CALL" => i.a.max((i.a + i.c).saturating_sub(2)),
            "VARARG" => i.a.max((i.a + i.b).saturating_sub(2)),
            "FORLOOP" => i.a + 3,
            "FORPREP" => i.a + 2,
            "TFORLOOP" => i.a + 2 + i.c,
            _ => i.a,
        };
        most = most.max(top + 1);
    }
    most
}

/// What the verifier of Lua doesn't look at.
pub fn static_checks(input: &Proto, output: &Proto, limit: u64) -> Option<String> {
    let (mut ins, mut outs) = (Vec::new(), Vec::new());
    fn flat<'a>(p: &'a Proto, v: &mut Vec<&'a Proto>) {
        v.push(p);
        for q in &p.protos {
            flat(q, v);
        }
    }
    flat(input, &mut ins);
    flat(output, &mut outs);
    if ins.len() != outs.len() {
        return Some(format!("{} functions became {}", ins.len(), outs.len()));
    }
    for (n, (i, o)) in ins.iter().zip(&outs).enumerate() {
        let size = o.code.len() as i64;
        if !o.lines.is_empty() && o.lines.len() != o.code.len() {
            return Some(format!("function {n}: {} lines for {size} instructions", o.lines.len()));
        }
        if i.lines.is_empty() != o.lines.is_empty() {
            return Some(format!("function {n}: line information appeared or disappeared"));
        }
        for (name, a, b) in &o.locals {
            if *a < 0 || a > b || *b > size {
                return Some(format!("function {n}: local variable {name:?} is visible from {a} to {b} of {size}"));
            }
        }
        if o.maxstack < i.maxstack {
            return Some(format!("function {n}: the stack shrunk from {} to {}", i.maxstack, o.maxstack));
        }
        if o.maxstack as u64 > limit.max(i.maxstack as u64) {
            return Some(format!("function {n}: stack of {} exceeds the limit {limit}", o.maxstack));
        }
        if (i.nups, i.nparams, i.upvals.clone(), i.locals.len()) != (o.nups, o.nparams, o.upvals.clone(), o.locals.len()) {
            return Some(format!("function {n}: the header changed"));
        }
        let registers = needed(o);
        if registers > limit.max(i.maxstack as u64) || registers > o.maxstack as u64 {
            return Some(format!("function {n}: writes {registers} registers, declared are {}, the limit is {limit}", o.maxstack));
        }
    }
    None
}

/// A list of n values at register r needs exactly r + min(n, LFIELDS_PER_FLUSH) + 1 registers.
fn stack_lists(case: &mut Case) {
    let r = &mut case.rng;
    let ver = *r.pick(&[Ver::L50, Ver::L51]);
    let base = r.below(180);
    let input = 1 + r.below(60);
    let output = 1 + r.below(240);
    let n = match r.below(2) {
        0 => r.below(260),
        _ => (250u64.saturating_sub(base) + r.below(8)).saturating_sub(4),
    };
    let open = r.chance(30);
    let (src, fits, need) = list_program(base, n, open, output, ver);
    let Some(c) = compile(case, ver, &src, input, false) else { return };
    let out = Enc::native51(output);
    let inp = if ver == Ver::L50 { Enc::native50(input) } else { Enc::native51(input) };
    let other = if ver == Ver::L50 { Enc::native51(7) } else { Enc::native50(7) };
    let s = settings(&inp, &out, &other);
    case.note("source", src.clone());
    case.note("configuration", format!("fields per flush {input} to {output}, {need} registers needed"));
    match (case.unify(&c.native, &out.fmt, &s), fits) {
        (Out::Ok(b), Some(true) | None) => {
            match case.vm51.load(output, &b) {
                Ok(Ok(())) => {}
                Ok(Err(m)) => return case.violation(format!("Lua 5.1 doesn't accept the output: {m}")),
                Err(f) => return case.fail(f),
            }
            case.count("lists that fit");
            if need > 200 {
                case.count("lists that just fit");
            }
        }
        (Out::Err(LunifyError::StackTooLarge(n)), Some(false) | None) => {
            case.count("lists that don't fit");
            if n <= 250 || n > need + 4 {
                case.violation(format!("StackTooLarge({n}) but {need} registers are needed"));
            }
        }
        (out, _) => return case.violation(format!("a list that needs {need} registers resulted in {}", out.show())),
    }
    case.nontrivial(hash_bytes(&c.native) ^ output);
}

fn list_program(base: u64, n: u64, open: bool, output: u64, ver: Ver) -> (String, Option<bool>, u64) {
    let mut s = String::new();
    for i in 0..base {
        s.push_str(&format!("local x{i} = 1 "));
    }
    let mut items: Vec<String> = (0..n).map(|i| (i % 50).to_string()).collect();
    if open {
        items.push("g()".into());
    }
    s.push_str(&format!("local t = {{{}}}", items.join(",")));
    // Values that are on the stack at the same time.
    let most = match (open, ver) {
        (false, _) => n.min(output),
        // The call itself is one more.
        (true, _) => (n + 1).min(output).max(1),
    };
    let need = base + most + 1;
    let fits = match need {
        0..=248 => Some(true),
        249..=252 => None,
        _ => Some(false),
    };
    (s, fits, need)
}

/// Generic for loops with many variables.
fn stack_loops(case: &mut Case) {
    let r = &mut case.rng;
    let base = r.below(190);
    let vars = 1 + r.below(90);
    let mut s = String::new();
    for i in 0..base {
        s.push_str(&format!("local x{i} = 1 "));
    }
    let names: Vec<String> = (0..vars).map(|i| format!("v{i}")).collect();
    s.push_str(&format!("for {} in g() do end", names.join(",")));
    let Some(c) = compile(case, Ver::L50, &s, 32, false) else { return };
    let out = Enc::native51(50);
    let st = settings(&Enc::native50(32), &out, &Enc::native51(50));
    case.note("source", s);
    match case.unify(&c.native, &out.fmt, &st) {
        Out::Ok(b) => {
            match case.vm51.load(50, &b) {
                Ok(Ok(())) => {}
                Ok(Err(m)) => return case.violation(format!("Lua 5.1 doesn't accept the output: {m}")),
                Err(f) => return case.fail(f),
            }
            case.count("loops that fit");
        }
        // Two copies of the variables and a few more for the call.
        Out::Err(LunifyError::StackTooLarge(n)) if n > 250 && base + 2 * vars + 12 > 250 => {
            case.count("loops that don't fit");
        }
        out => return case.violation(format!("a loop with {vars} variables at {base} resulted in {}", out.show())),
    }
    case.nontrivial(base << 32 | vars);
}

pub fn temporaries(cx: &Ctx) {
    cx.rule(&format!(
        "{RULE}. Programs use the names of the temporary globals of the converter themselves, have the constants that the converter adds already,
        or have loops active in several calls and coroutines at once. Additionally all constants of the input have to keep their index."
    ));
    assumptions(cx);
    cx.run("names", cx.scale(3000), |case| {
        let r = &mut case.rng;
        let (head, tail) = if r.chance(50) { around(r, false) } else { (String::new(), "") };
        let mut s = format!("{head}local G = _G\n");
        let pcs: Vec<(u64, u64)> = (0..40 + r.below(50)).flat_map(|pc| (0..1 + r.below(3)).map(move |i| (pc, i)).collect::<Vec<_>>()).collect();
        for (pc, i) in &pcs {
            s.push_str(&format!("G['__%lunify%__temp{pc}_{i}'] = {}\n", pc * 10 + i));
        }
        let n = 1 + r.below(4);
        s.push_str(&loop_text(r, n));
        for (pc, i) in &pcs {
            s.push_str(&format!("T(G['__%lunify%__temp{pc}_{i}'])\n"));
        }
        s.push_str(tail);
        // Loops come after the names, so their program counter is high: shift the range.
        let (fpf, output) = two_fpfs(&mut case.rng);
        let strip = case.rng.chance(15);
        let Some(c) = compile(case, Ver::L50, &s, fpf, strip) else { return };
        case.count("programs with reserved names");
        source_case(case, &c, output, &Plan::new(Ver::L50, Focus::Loops));
    });
    cx.run("many-names", cx.scale(150), |case| {
        // All of the names for a loop are in use, up to a high number.
        let r = &mut case.rng;
        let n = 1 + r.below(2);
        let body = loop_text(r, n);
        let used = *r.pick(&[9, 10, 99, 127, 128, 255, 256, 300, 700]) + r.below(3);
        let (fpf, output) = two_fpfs(r);
        let Some(c) = compile_exactly(case, Ver::L50, &body, fpf) else { return };
        if may_exceed_stack(&c.proto, Ver::L50, fpf, output, 250) {
            return case.count("discarded: might need too many registers");
        }
        let out = Enc::native51(output);
        let st = settings(&Enc::native50(fpf), &out, &Enc::native51(50));
        let Out::Ok(b) = case.unify(&c.native, &out.fmt, &st) else { return case.count("discarded: not converted") };
        let Ok(p) = decode(&out, &b) else { return case.count("discarded: not converted") };
        let mut prefixes: Vec<String> = p.consts.iter().filter_map(|k| match k {
            K::Str(s) => {
                let s = String::from_utf8_lossy(s);
                s.strip_prefix("__%lunify%__temp").and_then(|s| s.split_once('_')).map(|(pc, _)| pc.to_string())
            }
            _ => None,
        }).collect();
        prefixes.dedup();
        if prefixes.is_empty() {
            return case.count("loops without names");
        }
        let mut s = body.clone();
        for pc in &prefixes {
            for i in 0..used {
                s.push_str(&format!("\nrawset(_G, '__%lunify%__temp{pc}_{i}', {i})"));
            }
        }
        s.push_str(&format!("\nif not again then again = true G = 1 {body} end"));
        for pc in &prefixes {
            for i in (0..used).step_by(7) {
                s.push_str(&format!("\nT(rawget(_G, '__%lunify%__temp{pc}_{i}'))"));
            }
        }
        let Some(c) = compile_exactly(case, Ver::L50, &s, fpf) else { return };
        case.count("programs that use all of the first names");
        source_case(case, &c, output, &Plan::new(Ver::L50, Focus::Loops));
    });
    cx.run("exact-names", cx.scale(4000), |case| {
        // Find out which names the converter uses, then use the same ones in the program.
        let r = &mut case.rng;
        let n = 1 + r.below(3);
        let body = loop_text(r, n);
        // Repeated with the names that are used instead.
        let rounds = [1, 1, 2, 3, 5][r.us(5)];
        let mut names: Vec<String> = (0..6 * rounds).map(|i| format!("name{i}")).collect();
        // The names can be anywhere in the list of constants.
        let (before, after) = ([0, 0, 5, 60, 200][r.us(5)], [0, 0, 5, 60, 200][r.us(5)]);
        let first = r.chance(50);
        let (head, tail) = if r.chance(50) { around(r, false) } else { (String::new(), "") };
        let (fpf, output) = two_fpfs(r);
        let strip = r.chance(15);
        let text = |names: &[String]| {
            let mut s = head.clone();
            if !first {
                s.push_str(&body);
            }
            for i in 0..before {
                s.push_str(&format!("\nX = {i}.125"));
            }
            for (i, n) in names.iter().enumerate() {
                s.push_str(&format!("\nrawset(_G, '{n}', {i})"));
            }
            for i in 0..after {
                s.push_str(&format!("\nX = {i}.375"));
            }
            // Everything again after the names are in use.
            s.push('\n');
            s.push_str(&body);
            for n in names {
                s.push_str(&format!("\nT(rawget(_G, '{n}'))"));
            }
            s.push_str(tail);
            s
        };
        // The function with the loops.
        let inner = |p: Proto| if head.is_empty() { p } else { p.protos.into_iter().next().unwrap() };
        for round in 0..rounds {
        let Some(c) = compile_exactly(case, Ver::L50, &text(&names), fpf) else { return };
        if may_exceed_stack(&c.proto, Ver::L50, fpf, output, 250) {
            case.count("discarded: might need too many registers");
            return;
        }
        let out = Enc::native51(output);
        let st = settings(&Enc::native50(fpf), &out, &Enc::native51(50));
        let b = match case.unify(&c.native, &out.fmt, &st) {
            Out::Ok(b) => b,
            Out::Err(LunifyError::ValueTooBigForOperand) if !operands_fit(&c.proto, Ver::L50, &out) => {
                return case.count("reported: constant index doesn't fit the output");
            }
            _ => return case.violation("conversion failed"),
        };
        let Ok(p) = decode(&out, &b) else {
            return case.violation("output is not well-formed");
        };
        let (p, consts) = (inner(p), inner(c.proto.clone()).consts);
        let mut added: Vec<String> = p
            .consts
            .iter()
            .filter_map(|k| match k {
                K::Str(s) if !consts.contains(k) => Some(String::from_utf8_lossy(&s[..s.len() - 1]).into_owned()),
                _ => None,
            })
            .filter(|n| !["type", "table", "next"].contains(&n.as_str()) && !n.contains('\''))
            .collect();
        added.truncate(6);
        added.retain(|n| !names.contains(n));
        if added.is_empty() {
            case.count("programs without temporaries");
            return;
        }
        names[6 * round..].iter_mut().zip(&added).for_each(|(slot, name)| slot.clone_from(name));
        case.add("temporary names taken over", added.len() as u64);
        }
        let Some(c) = compile(case, Ver::L50, &text(&names), fpf, strip) else { return };
        source_case(case, &c, output, &Plan::new(Ver::L50, Focus::Loops));
    });
    cx.run("active", cx.scale(1500), |case| {
        // The same loops in several calls at once.
        let r = &mut case.rng;
        let n = 1 + r.below(3);
        let inner = loop_text(r, n).replace("T(", "step(");
        let kind = r.below(3);
        let source = match kind {
            0 => format!(
                "local function run(name) local function step(...) T(name, unpack(arg)) coroutine.yield(1) end {inner} end
                 local a, b = coroutine.create(run), coroutine.create(run)
                 for i = 1, 30 do T(coroutine.resume(a, 'a')) if math.mod == nil or i > 2 then T(coroutine.resume(b, 'b')) end end"
            ),
            1 => format!(
                "local depth = 0 local function run(name) local function step(...) T(depth, unpack(arg))
                 if depth < 2 then depth = depth + 1 run(name) depth = depth - 1 end end {inner} end run('r')"
            ),
            _ => format!(
                "local function step(...) T(unpack(arg)) error('stop') end local function run() {inner} end
                 T(pcall(run)) step = function(...) T(unpack(arg)) end T(pcall(run)) T(pcall(run))"
            ),
        };
        let source = maybe_within(r, source);
        let (fpf, output) = two_fpfs(r);
        let strip = r.chance(15);
        let Some(c) = compile(case, Ver::L50, &source, fpf, strip) else { return };
        source_case(case, &c, output, &Plan::new(Ver::L50, Focus::Loops));
    });
    cx.run("constants", cx.scale(2500), |case| {
        let r = &mut case.rng;
        let mut s = String::new();
        // Constants which the converter looks for, mixed with lookalikes.
        let mut words = vec!["type", "table", "next", "nil", "type\\0", "typ", "nextt", "\\0next", "table\\0x", ""];
        for i in (1..words.len()).rev() {
            words.swap(i, r.us(i + 1));
        }
        for w in words.iter().take(r.us(11)) {
            s.push_str(&format!("T('{w}', nil)\n"));
        }
        for i in 0..[0, 20, 240, 254, 300][r.us(5)] {
            s.push_str(&format!("T({i}.125)\n"));
        }
        let n = 1 + r.below(5);
        if r.chance(30) {
            // Lua 5.0 looks for this one, too.
            s.push_str("local old = next next = function(t, k) T('next', k) return old(t, k) end\n");
        }
        s.push_str(&loop_text(r, n));
        s.push_str("for k, v in {7} do T(k, v) end for a, b, c in {x = 1} do T(a, b, c) end T(nil == next({}))");
        let s = maybe_within(r, s);
        let (fpf, output) = two_fpfs(r);
        let strip = r.chance(15);
        let Some(c) = compile(case, Ver::L50, &s, fpf, strip) else { return };
        let mut plan = Plan::new(Ver::L50, Focus::Loops);
        plan.needs = &["TFORPREP", "TFORLOOP"];
        source_case(case, &c, output, &plan);
        prefix(case, &c);
    });
    cx.run("prefix", cx.scale(2000), |case| {
        let focus = *case.rng.pick(&ALL);
        let p = crate::lgen::program(&mut case.rng, true, focus, 100, 32);
        let Some(c) = compile(case, Ver::L50, &p.source, 32, false) else { return };
        prefix(case, &c);
    });
    cx.run("collision", 1, |case| {
        let source = "_G['__%lunify%__temp5_0'] = 'mine' local function f() for i = 1, 2 do T(i) end end f()
            local function g() local t = {} for k in pairs(_G) do if string.find(k, 'lunify') then t[k] = _G[k] end end return t end
            T(g()['__%lunify%__temp5_0']) T(g()['__%lunify%__temp7_0']) T(g()['__%lunify%__temp6_0']) T(g()['__%lunify%__temp8_0'])";
        known(case, "F25-temporary-other-function", Ver::L50, source, (32, 50));
    });
    cx.run("watched", 1, |case| {
        let source = "setmetatable(_G, {__newindex = function(t, k, v) error('assignment to an undeclared variable') end}) for i = 1, 2 do T(i) end";
        known(case, "F25-watched-globals", Ver::L50, source, (32, 50));
    });
}

fn two_fpfs(r: &mut Rng) -> (u64, u64) {
    let fpf = random_fpf(r, 32);
    let output = match r.chance(30) {
        true => related_fpf(r, fpf),
        false => random_fpf(r, 50),
    };
    (fpf, output)
}

/// All constants keep their index.
fn prefix(case: &mut Case, c: &Compiled) {
    let mut input = Enc::random(&mut case.rng, c.ver, c.fpf);
    let fpf = random_fpf(&mut case.rng, 50);
    let mut output = Enc::random(&mut case.rng, Ver::L51, fpf);
    let mut other = Enc::native51(50);
    vary(&mut case.rng, c, &mut input, &mut output, &mut other);
    let Some(bytes) = input_of(case, c, &input) else { return };
    let s = settings(&input, &output, &other);
    case.note("source", c.source.clone());
    let Out::Ok(b) = case.unify(&bytes, &output.fmt, &s) else { return };
    let Ok(p) = decode(&output, &b) else {
        return case.violation("output is not well-formed");
    };
    fn go(i: &Proto, o: &Proto) -> Option<String> {
        if o.consts.len() < i.consts.len() || o.consts[..i.consts.len()] != i.consts[..] {
            return Some("the constants of the program changed".into());
        }
        i.protos.iter().zip(&o.protos).find_map(|(i, o)| go(i, o))
    }
    case.count("constant tables compared");
    case.nontrivial(hash_bytes(&bytes));
    if let Some(m) = go(&c.proto, &p) {
        case.violation(m);
    }
}

/// A few loops of all kinds that trace what they do.
fn loop_text(r: &mut crate::rng::Rng, n: u64) -> String {
    let mut s = String::new();
    for i in 0..n {
        s.push_str(&match r.below(6) {
            0 => format!("for i = 1, 3 do T(i, {i}) end\n"),
            1 => format!("for i = 3, 1, -1 do T(i) for j = 1, 2 do T(i, j, {i}) end end\n"),
            2 => format!("for k, v in {{{i}}} do T(k, v) end\n"),
            3 => format!("for k, v in pairs({{a = {i}}}) do T(k, v) end\n"),
            4 => format!("for k, v, w in function(s, k) if k < 2 then return k + 1, {i} end end, nil, 0 do T(k, v, w) end\n"),
            _ => "for i = 1, 2 do for k, v in {x = i} do T(i, k, v) end end\n".into(),
        });
    }
    s
}

pub fn debug_info(cx: &Ctx) {
    cx.rule(&format!(
        "{RULE}. Additionally the sequence of executed source lines (line hook of the debug library) and the names and values of the local variables
        that are visible at every traced event have to be the same. Lines are not compared if tables are filled after a different number of values"
    ));
    assumptions(cx);
    let monitor = Monitor { lines: true, locals: true };
    for (name, ver, n) in [("compiled-50", Ver::L50, 6000), ("compiled-51", Ver::L51, 3500)] {
        cx.run(name, cx.scale(n), |case| {
            let mut plan = Plan::new(ver, *case.rng.clone().pick(&ALL));
            plan.monitor = monitor;
            plan.strip = Some(false);
            plan.size = 120;
            // Filling a table at another time happens on another line as well.
            if case.rng.chance(60) {
                let fpf = random_fpf(&mut case.rng, 32);
                (plan.input_fpf, plan.output_fpf) = (Some(fpf), Some(fpf));
            }
            random_program(case, &plan);
        });
    }
    cx.run("long", cx.scale(120), |case| {
        let mut plan = Plan::new(*case.rng.clone().pick(&[Ver::L50, Ver::L50, Ver::L51]), *case.rng.clone().pick(&ALL));
        plan.monitor = monitor;
        long_program(case, &plan);
    });
    cx.run("lists", cx.scale(600), |case| {
        // Values of tables that span many lines, far into a function.
        let ver = *case.rng.pick(&[Ver::L50, Ver::L50, Ver::L51]);
        let r = &mut case.rng;
        let mut s = String::from("T(1)\n");
        for _ in 0..*r.pick(&[0, 0, 20, 100, 400]) {
            s.push_str("A = B ");
        }
        let input = random_fpf(r, 32);
        let output = random_fpf(r, 50);
        for t in 0..1 + r.below(3) {
            s.push_str(&format!("local t{t} = {{"));
            for i in 0..r.below(130) {
                let nl = |r: &mut Rng| "\n".repeat(if r.chance(40) { 1 + r.us(3) } else { 0 });
                let (a, b, c) = (nl(r), nl(r), nl(r));
                match r.below(5) {
                    4 => (0..1 + r.us(if input.min(output) < 6 { 8 } else { 40 })).for_each(|_| s.push_str(if r.chance(90) { "nil," } else { "nil,\n" })),
                    0 => s.push_str(&format!("T({a}{i}{b}){c},")),
                    1 => s.push_str(&format!("{{{a}T({i}){b}}}{c},")),
                    2 => s.push_str(&format!("nil{a} == T({i}{b}){c},")),
                    _ => s.push_str(&format!("{i}{a},{b}")),
                }
            }
            s.push_str(&format!("}}\nT(t{t})\n"));
        }
        let Some(c) = compile(case, ver, &s, input, false) else { return };
        let mut plan = Plan::new(ver, Focus::Tables);
        plan.monitor = Monitor { lines: input == output, locals: true };
        source_case(case, &c, output, &plan);
        debug_structure(case, &c);
    });
    cx.run("names", cx.scale(2500), |case| {
        let p = crate::lgen::program(&mut case.rng, true, *ALL.get(case.index as usize % 6).unwrap(), 100, 32);
        let Some(c) = compile(case, Ver::L50, &p.source, 32, false) else { return };
        debug_structure(case, &c);
    });
    cx.run("names-51", cx.scale(1000), |case| {
        let p = crate::lgen::program(&mut case.rng, false, *ALL.get(case.index as usize % 6).unwrap(), 100, 50);
        let Some(c) = compile(case, Ver::L51, &p.source, 50, false) else { return };
        debug_structure(case, &c);
    });
}

/// The lines of all instructions, except for the ones that fill tables.
fn sequence(ver: Ver, p: &Proto) -> Option<Vec<i64>> {
    if p.lines.len() != p.code.len() || ver == Ver::L50 && p.vararg != 0 {
        return None;
    }
    let mut lines = Vec::new();
    for (i, line) in p.code.iter().zip(&p.lines) {
        let name = if i.op == RAW { "RAW" } else { ops(ver)[i.op as usize].0 };
        let n = match name {
            "RAW" => return None,
            "FORLOOP" | "TFORLOOP" | "TFORPREP" if ver == Ver::L50 => return None,
            "SETLIST" if ver == Ver::L51 && i.c == 0 => return None,
            "SETLIST" | "SETLISTO" => 0,
            // Might be more than one of them in the output.
            "LOADNIL" => i.b.saturating_sub(i.a) + 1,
            _ => 1,
        };
        (0..n).for_each(|_| lines.push(*line));
    }
    Some(lines)
}

/// Names, lines and sources are all still there.
fn debug_structure(case: &mut Case, c: &Compiled) {
    let mut c = c.clone();
    if case.rng.chance(5) {
        // Not written by any compiler, but no reason to lose something.
        let line = [0, 1, -1][case.rng.us(3)];
        c.proto.walk_mut(&mut |p| p.lines.iter_mut().for_each(|l| *l = line));
    } else if case.rng.chance(20) {
        let by = *case.rng.pick(&[0x7f80, 0xff80, 0xff_ff80, 0x7000_0000]);
        c.proto.walk_mut(&mut |p| {
            if p.lines.iter().any(|l| *l > 100_000) {
                return;
            }
            p.line += by;
            p.last_line += by;
            p.lines.iter_mut().for_each(|l| *l += by);
        });
    }
    let c = &c;
    let mut input = Enc::random(&mut case.rng, c.ver, c.fpf);
    let fpf = random_fpf(&mut case.rng, 50);
    let mut output = Enc::random(&mut case.rng, Ver::L51, fpf);
    let mut other = Enc::native51(50);
    vary(&mut case.rng, c, &mut input, &mut output, &mut other);
    let Some(bytes) = input_of(case, c, &input) else { return };
    let s = settings(&input, &output, &other);
    case.note("source", c.source.clone());
    let Out::Ok(b) = case.unify(&bytes, &output.fmt, &s) else { return };
    let Ok(p) = decode(&output, &b) else {
        return case.violation("output is not well-formed");
    };
    fn go(ver: Ver, i: &Proto, o: &Proto) -> Option<String> {
        let names = |p: &Proto| p.locals.iter().map(|l| l.0.clone()).collect::<Vec<_>>();
        if i.source != o.source || i.line != o.line || (ver == Ver::L51 && i.last_line != o.last_line) || i.upvals != o.upvals || names(i) != names(o) {
            return Some("the names of the program changed".into());
        }
        if i.lines.is_empty() != o.lines.is_empty() {
            return Some("all lines disappeared, or appeared".into());
        }
        if o.last_line < o.line && (ver == Ver::L50 || i.last_line >= i.line) {
            return Some(format!("a function from line {} to {}", o.line, o.last_line));
        }
        if let Some(l) = o.lines.iter().find(|l| !i.lines.contains(l)) {
            return Some(format!("line {l} appeared"));
        }
        // Instructions that fill a table move if the number of values per instruction changes.
        let fills = |i: &Ins| i.op == opnum(ver, "SETLIST") || (ver == Ver::L50 && i.op == opnum(ver, "SETLISTO"));
        let mut kept = i.lines.iter().zip(&i.code).filter(|(_, i)| !fills(i)).map(|(l, _)| l);
        if let Some(l) = kept.find(|l| !o.lines.contains(l)) {
            return Some(format!("line {l} disappeared"));
        }
        // Without loops nothing but the instructions that fill tables is added or removed.
        if let (Some(i), Some(o)) = (sequence(ver, i), sequence(Ver::L51, o)) {
            if i != o {
                let n = i.iter().zip(&o).take_while(|(i, o)| i == o).count();
                return Some(format!("instruction {n} is on line {:?} instead of {:?}", o.get(n), i.get(n)));
            }
        }
        i.protos.iter().zip(&o.protos).find_map(|(i, o)| go(ver, i, o))
    }
    case.count("structures compared");
    if let Some(m) = go(c.ver, &c.proto, &p).or_else(|| static_checks(&c.proto, &p, 255)) {
        case.violation(m);
    }
}

pub fn stripped(cx: &Ctx) {
    cx.rule(&format!(
        "{RULE}. All programs are compiled without debug information. In section same-code the instructions of the converted program have to be the
        ones that the program with debug information is converted to"
    ));
    assumptions(cx);
    for (name, ver, n) in [("run-50", Ver::L50, 5000), ("run-51", Ver::L51, 3500)] {
        cx.run(name, cx.scale(n), |case| {
            let mut plan = Plan::new(ver, *case.rng.clone().pick(&ALL));
            plan.strip = Some(true);
            plan.size = 120;
            random_program(case, &plan);
        });
    }
    cx.run("same-code", cx.scale(3000), |case| {
        let ver = *case.rng.pick(&[Ver::L50, Ver::L51]);
        let focus = *case.rng.pick(&ALL);
        let fpf = random_fpf(&mut case.rng, 32);
        let out_fpf = random_fpf(&mut case.rng, 50);
        let (mut full, source) = match case.rng.chance(30) {
            true => (asm::program(&mut case.rng, ver, fpf.min(60), 4), String::new()),
            false => {
                let p = crate::lgen::program(&mut case.rng, ver == Ver::L50, focus, 80, fpf as usize);
                let Some(c) = compile(case, ver, &p.source, fpf, false) else { return };
                (c.proto, p.source)
            }
        };
        let input = Enc::random(&mut case.rng, ver, fpf);
        let output = Enc::random(&mut case.rng, Ver::L51, out_fpf);
        let other = if ver == Ver::L50 { Enc::native51(50) } else { Enc::native50(32) };
        let s = settings(&input, &output, &other);
        case.note("source", source);
        let Ok(with) = encode(&input, &full) else { return };
        // Which part of the debug information is missing depends on the tool.
        let parts = match case.rng.chance(50) {
            true => 15,
            false => case.rng.below(16),
        };
        full.walk_mut(&mut |p| {
            if parts & 1 != 0 {
                p.source.clear();
            }
            if parts & 2 != 0 {
                p.lines.clear();
            }
            if parts & 4 != 0 {
                p.locals.clear();
            }
            if parts & 8 != 0 {
                p.upvals.clear();
            }
        });
        let without = encode(&input, &full).unwrap();
        case.note("input", hex(&without));
        let (x, y) = (case.unify(&with, &output.fmt, &s), case.unify(&without, &output.fmt, &s));
        match (x, y) {
            (Out::Ok(x), Out::Ok(y)) => {
                let (Ok(mut x), Ok(mut y)) = (decode(&output, &x), decode(&output, &y)) else {
                    return case.violation("output is not well-formed");
                };
                let mut bad = None;
                y.walk(&mut |p| {
                    if (parts & 1 != 0 && !p.source.is_empty())
                        || (parts & 2 != 0 && !p.lines.is_empty())
                        || (parts & 4 != 0 && !p.locals.is_empty())
                        || (parts & 8 != 0 && !p.upvals.is_empty())
                    {
                        bad = Some("debug information that the input doesn't have appeared".to_string());
                    }
                });
                x.strip();
                y.strip();
                if let Some(d) = bad.or_else(|| diff(Ver::L51, &x, &y, "main")) {
                    return case.violation(format!("stripped program was converted differently: {d}"));
                }
                case.count("stripped programs with the same code");
                case.nontrivial(hash_bytes(&without));
            }
            (Out::Err(x), Out::Err(y)) if x == y => case.count("same error"),
            (x, y) => case.violation(format!("{} became {} without debug information", x.show(), y.show())),
        }
    });
}

// ---------------------------------------------------------------- C24

pub fn defaults(cx: &Ctx) {
    cx.rule(&format!(
        "{RULE}. Everything is left at its default: the input has the signature, layout and limits of an unmodified Lua 5.0 or 5.1 (on hosts of
        either endianness, with 32 or 64 bits), and the output is loaded by an unmodified Lua 5.1 as it is. In section values the default settings
        have to be equal to ones that spell out the constants of the original sources."
    ));
    assumptions(cx);
    cx.run("values", 1, |case| {
        let stock = settings(&Enc::native50(32), &Enc::native51(50), &Enc::native51(50));
        case.evaluated();
        if lunify::Settings::default() != stock {
            case.violation(format!("{:?} instead of {stock:?}", lunify::Settings::default()));
        }
        if (lunify::lua50::Settings::default(), lunify::lua51::Settings::default()) != (stock.lua50, stock.lua51) {
            case.violation("the default settings of a version are not the ones that are part of the default settings");
        }
        // The harness runs on a 64 bit little-endian host.
        if cfg!(all(target_pointer_width = "64", target_endian = "little")) && lunify::Format::default() != NATIVE {
            case.violation(format!("the default format is {:?}", lunify::Format::default()));
        }
        case.nontrivial(1);
    });
    for (name, ver, n) in [("lua50", Ver::L50, 5000), ("lua51", Ver::L51, 2500)] {
        cx.run(name, cx.scale(n), |case| {
            let focus = *case.rng.pick(&ALL);
            let size = case.rng.range(5, 120);
            let fpf = if ver == Ver::L50 { 32 } else { 50 };
            let p = program(&mut case.rng, ver == Ver::L50, focus, size, fpf);
            let strip = case.rng.chance(15);
            let Some(c) = compile(case, ver, &p.source, fpf as u64, strip) else { return };
            let Some(want) = run_reference(case, &c, false, false) else { return };
            // What a compiler of another host would have written.
            let mut input = if ver == Ver::L50 { Enc::native50(32) } else { Enc::native51(50) };
            input.fmt.size_t_width = width(&mut case.rng);
            if case.rng.chance(50) {
                input.fmt.endianness = lunify::Endianness::Big;
            }
            if ver == Ver::L50 && case.rng.chance(30) {
                // Lua 5.0 used `unsigned long` for instructions.
                input.fmt.instruction_width = lunify::BitWidth::Bit64;
            }
            let Some(data) = input_of(case, &c, &input) else { return };
            case.notes.clear();
            case.note("source", c.source.clone());
            case.note("input", hex(&data));
            let output = Enc::native51(50);
            let bytes = match case.unify(&data, &lunify::Format::default(), &lunify::Settings::default()) {
                Out::Ok(b) => b,
                Out::Err(LunifyError::StackTooLarge(_)) if may_exceed_stack(&c.proto, ver, fpf as u64, 50, 250) => {
                    return case.count("reported: stack too large");
                }
                Out::Err(LunifyError::ValueTooBigForOperand) if !operands_fit(&c.proto, ver, &output) => {
                    return case.count("reported: constant index doesn't fit the output");
                }
                out => return case.violation(format!("conversion of a stock program failed: {}", out.show())),
            };
            let proto = match decode(&output, &bytes) {
                Ok(p) => p,
                Err(m) => return case.violation(format!("an unmodified Lua 5.1 isn't able to read the output: {m}")),
            };
            let converted = Converted { proto, bytes };
            if judge(case, &c, &want, &converted, &output, Monitor::default()) {
                case.count("programs that behaved the same");
                case.add("trace events compared", want.trace.lines().count() as u64);
                if want.trace.lines().count() > 1 {
                    case.nontrivial(hash_bytes(&data));
                }
                let source: String = c.source.chars().take(600).collect();
                case.sample(|| json!({"version": format!("{ver:?}"), "source": source}));
            }
        });
    }
}

// ---------------------------------------------------------------- C25

pub fn closures(cx: &Ctx) {
    cx.rule(&format!("{RULE} and creates closures with upvalues."));
    assumptions(cx);
    for (name, ver, n) in [("captures-50", Ver::L50, 6000), ("captures-51", Ver::L51, 4000)] {
        cx.run(name, cx.scale(n), |case| {
            let fpf = random_fpf(&mut case.rng, 32);
            let out_fpf = match case.rng.chance(30) {
                true => related_fpf(&mut case.rng, fpf),
                false => random_fpf(&mut case.rng, 50),
            };
            let list = if case.rng.chance(50) { fpf } else { out_fpf };
            let source = captures(&mut case.rng, list.min(60));
            let source = maybe_within(&mut case.rng, source);
            let strip = case.rng.chance(15);
            let Some(c) = compile(case, ver, &source, fpf, strip) else { return };
            let mut plan = Plan::new(ver, Focus::Closures);
            plan.needs = &["CLOSURE"];
            source_case(case, &c, out_fpf, &plan);
        });
    }
    for (name, ver, n) in [("random-50", Ver::L50, 3000), ("random-51", Ver::L51, 1500)] {
        cx.run(name, cx.scale(n), |case| {
            let mut plan = Plan::new(ver, Focus::Closures);
            plan.needs = &["CLOSURE"];
            plan.size = 120;
            random_program(case, &plan);
        });
    }
}

/// A program about who shares which variable.
fn captures(r: &mut Rng, list: u64) -> String {
    let mut g = Captures { r, out: String::new(), vars: Vec::new(), next: 0, list, budget: 40 };
    for i in 0..g.r.below(4) {
        g.out.push_str(&format!("local pad{i} = {i} "));
        g.vars.push(format!("pad{i}"));
    }
    g.body(0);
    g.out
}

struct Captures<'a> {
    r: &'a mut Rng,
    out: String,
    vars: Vec<String>,
    next: u64,
    list: u64,
    budget: i64,
}

impl Captures<'_> {
    fn fresh(&mut self, p: &str) -> String {
        self.next += 1;
        format!("{p}{}", self.next)
    }

    fn var(&mut self) -> String {
        match self.vars.is_empty() {
            true => "zero".into(),
            false => self.r.pick(&self.vars.clone()).clone(),
        }
    }

    fn number(&mut self) -> String {
        let (n, v, w) = (self.r.below(9), self.var(), self.var());
        match self.r.below(4) {
            0 => format!("{n}"),
            1 => format!("({v} or 0) + {n}"),
            2 => format!("({v} or 1) * 2 - ({w} or 0)"),
            _ => format!("({v} or {n})"),
        }
    }

    /// A closure that reads and changes variables around it.
    fn small(&mut self) -> String {
        let (v, w, n) = (self.var(), self.var(), self.r.below(5));
        if v == "zero" {
            return format!("function() return {n} end");
        }
        match self.r.below(5) {
            0 => format!("function() return {v} end"),
            1 => format!("function() {v} = ({v} or 0) + {n} return {v}, {w} end"),
            2 => format!("function(d) {v} = (d or 0) + {n} return {v} end"),
            3 => format!("function() local k = ({v} or 0) + {n} return (function() k = k + 1 {w} = k return k, {v} end)() end"),
            _ => format!("function(d) return ({v} or 0) + ({w} or 0) + (d or {n}) end"),
        }
    }

    fn body(&mut self, depth: usize) {
        let mark = self.vars.len();
        for _ in 0..1 + self.r.us(5) {
            self.statement(depth);
        }
        self.vars.truncate(mark);
    }

    fn statement(&mut self, depth: usize) {
        self.budget -= 1;
        if self.budget < 0 || self.vars.len() > 22 {
            let v = self.var();
            self.out.push_str(&format!("T({v}) "));
            return;
        }
        match self.r.below(if depth > 3 { 4 } else { 11 }) {
            0 => {
                let (x, e) = (self.fresh("x"), self.number());
                self.out.push_str(&format!("local {x} = {e}\n"));
                self.vars.push(x);
            }
            1 => {
                let (v, e) = (self.var(), self.number());
                if v != "zero" {
                    self.out.push_str(&format!("{v} = {e} "));
                }
            }
            2 => {
                let (f, e, n) = (self.fresh("f"), self.small(), self.r.below(9));
                self.out.push_str(&format!("local {f} = {e} T({f}(), {f}({n}), {f}())\n"));
            }
            3 => {
                let (v, w) = (self.var(), self.var());
                self.out.push_str(&format!("T({v}, {w})\n"));
            }
            4 => {
                // A table of closures, around the size at which it is flushed.
                let t = self.fresh("t");
                let n = match self.r.below(3) {
                    0 => self.list + self.r.below(3),
                    1 => 2 * self.list + self.r.below(3),
                    _ => self.r.below(8),
                }
                .max(1);
                let items: Vec<String> = (0..n).map(|_| if self.r.chance(60) { self.small() } else { format!("function() return {} end", self.r.below(99)) }).collect();
                self.out.push_str(&format!("local {t} = {{{}}}\nfor i = 1, {n} do T(i, {t}[i]()) end T({t}[{}](3))\n", items.join(", "), 1 + self.r.below(n)));
            }
            5 => {
                // A function with parameters that are captured.
                let f = self.fresh("g");
                let params: Vec<String> = (0..if self.r.chance(25) { 4 + self.r.us(6) } else { self.r.us(4) }).map(|_| self.fresh("p")).collect();
                self.out.push_str(&format!("local {f} = function({}) ", params.join(", ")));
                let mark = self.vars.len();
                self.vars.extend(params.iter().cloned());
                self.body(depth + 1);
                let (a, b) = (self.small(), self.small());
                self.vars.truncate(mark);
                self.out.push_str(&format!("return {a}, {b} end\nlocal {f}a, {f}b = {f}(1, 2, 3) T({f}a(), {f}b()) T({f}a(4), {f}b(5)) {f}(8, 7)\n"));
            }
            6 => {
                self.out.push_str("do ");
                self.body(depth + 1);
                self.out.push_str("end\n");
            }
            k => {
                // Closures that are created in a loop and called after it.
                let (fs, n, i, c) = (self.fresh("fs"), self.fresh("n"), self.fresh("i"), self.fresh("c"));
                let m = self.r.below(5);
                self.out.push_str(&format!("local {fs}, {n} = {{}}, 0 "));
                let until = match k {
                    7 => {
                        self.out.push_str(&format!("for {i} = 1, {m} do "));
                        false
                    }
                    8 => {
                        self.out.push_str(&format!("for {i}, v{i} in ipairs({{5, 6, 7}}) do "));
                        false
                    }
                    9 => {
                        self.out.push_str(&format!("local {i} = 0 while {i} < {m} do {i} = {i} + 1 "));
                        false
                    }
                    _ => {
                        self.out.push_str(&format!("local {i} = 0 repeat {i} = {i} + 1 "));
                        true
                    }
                };
                let mark = self.vars.len();
                let e = self.number();
                self.out.push_str(&format!("{n} = {n} + 1 local {c} = {i} * 10 + ({e}) * 0 "));
                self.vars.push(c.clone());
                if self.r.chance(60) {
                    // The loop variable itself, but it is never assigned.
                    self.out.push_str(&format!("local u{i} = {i} "));
                    self.vars.push(format!("u{i}"));
                }
                if self.r.chance(50) {
                    self.body(depth + 1);
                }
                let f = match self.r.below(3) {
                    0 => format!("function() {c} = {c} + 1 return {c}, {i} end"),
                    1 => format!("function() {c} = {c} + {n} return {c} end"),
                    _ => self.small(),
                };
                self.out.push_str(&format!("{fs}[{n}] = {f} "));
                match self.r.below(6) {
                    0 => self.out.push_str(&format!("if {c} > {} then break end ", self.r.below(40))),
                    1 => self.out.push_str(&format!("{c} = {c} + 100 ")),
                    _ => {}
                }
                self.vars.truncate(mark);
                match until {
                    true => self.out.push_str(&format!("until {i} >= {m}\n")),
                    false => self.out.push_str("end\n"),
                }
                self.out.push_str(&format!("for k = 1, {n} do T(k, {fs}[k]()) end for k = {n}, 1, -1 do T({fs}[k]()) end\n"));
            }
        }
    }
}
