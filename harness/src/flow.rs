//! Conversions of whole programs, judged by running them.

use lunify::LunifyError;
use serde_json::json;

use crate::ctx::{hex, Case, Out};
use crate::lgen::{program, Focus};
use crate::model::*;
use crate::rng::{hash_bytes, Rng};
use crate::vm::{Fail, Run, RunOpts};

pub const BUDGET: u64 = 400_000;
pub const MEMORY: u64 = 64 << 20;

/// A compiled program.
#[derive(Clone)]
pub struct Compiled {
    pub ver: Ver,
    pub source: String,
    pub fpf: u64,
    pub native: Vec<u8>,
    pub proto: Proto,
}

pub fn compile(case: &mut Case, ver: Ver, source: &str, fpf: u64, strip: bool) -> Option<Compiled> {
    let enlarge = case.rng.below(ENLARGE) == 0;
    let some = !strip && case.rng.chance(5);
    let mut c = match relined(&mut case.rng, source) {
        Some(other) => match compile_silently(case, ver, &other, fpf) {
            true => compile_as(case, ver, &other, fpf, strip, enlarge, some)?,
            false => compile_as(case, ver, source, fpf, strip, enlarge, some)?,
        },
        None => compile_as(case, ver, source, fpf, strip, enlarge, some)?,
    };
    if case.rng.chance(12) {
        let enc = match ver {
            Ver::L50 => Enc::native50(fpf),
            Ver::L51 => Enc::native51(fpf),
        };
        let mut proto = c.proto.clone();
        decorate(&mut case.rng, ver, &mut proto);
        if let Ok(b) = encode(&enc, &proto) {
            (c.native, c.proto) = (b, proto);
            case.count("programs with parts that nothing uses");
        }
    }
    Some(c)
}

/// The same program on other lines.
fn relined(rng: &mut Rng, source: &str) -> Option<String> {
    if !rng.chance(6) || source.contains("--") || source.contains("[[") {
        return None;
    }
    Some(match rng.below(4) {
        0..=1 => source.replace('\n', " "),
        2 => source.replace(", ", ",\n"),
        _ => source.replace(" = ", "\n=\n").replace(", ", "\n,\n"),
    })
}

fn compile_silently(case: &mut Case, ver: Ver, source: &str, fpf: u64) -> bool {
    let vm = match ver {
        Ver::L50 => &mut *case.vm50,
        Ver::L51 => &mut *case.vm51,
    };
    matches!(vm.compile(fpf, false, source.as_bytes()), Ok(Ok(_)))
}

/// Add a few constants, functions and instructions that nothing uses.
fn decorate(rng: &mut Rng, ver: Ver, main: &mut Proto) {
    let share = *rng.pick(&[30, 100]);
    main.walk_mut(&mut |p| {
        if !rng.chance(share) {
            return;
        }
        for _ in 0..rng.below(5) {
            let k = match rng.below(12) {
                0..=1 => K::Nil,
                2..=3 => K::Bool(false),
                4 => K::Bool(true),
                5..=7 => K::Str([&b"type\0"[..], b"table\0", b"next\0", b"arg\0", b"nil\0", b"\0"][rng.us(6)].to_vec()),
                8..=9 if !p.consts.is_empty() => p.consts[rng.us(p.consts.len())].clone(),
                _ => K::Num(Num::F(rng.below(10) as f64)),
            };
            p.consts.push(k);
        }
        if rng.chance(30) {
            let code = vec![Ins::abc(opnum(ver, "RETURN"), 0, 1, 0)];
            p.protos.push(Proto { source: p.source.clone(), maxstack: 2, code, ..Proto::default() });
        }
        if rng.chance(30) {
            let places: Vec<usize> = (0..p.code.len()).filter(|at| can_insert(ver, p, *at)).collect();
            if !places.is_empty() {
                insert_jumps(ver, p, *rng.pick(&places), 1 + rng.us(4));
            }
        }
    });
}

/// Remove some kinds of debug information, from some of the functions.
fn strip_some(rng: &mut Rng, main: &mut Proto) {
    let kinds = 1 + rng.below(15);
    let share = if rng.chance(60) { 100 } else { 1 + rng.below(99) };
    main.walk_mut(&mut |p| {
        if !rng.chance(share) {
            return;
        }
        if kinds & 1 != 0 {
            p.source.clear();
        }
        if kinds & 2 != 0 {
            p.lines.clear();
        }
        if kinds & 4 != 0 {
            p.locals.clear();
        }
        if kinds & 8 != 0 {
            p.upvals.clear();
        }
    });
}

/// A function of some kind around a part of a program.
pub fn around(r: &mut Rng, vararg: bool) -> (String, &'static str) {
    let mut s = String::new();
    let upvalues = *r.pick(&[0, 0, 1, 2, 3, 5, 10]);
    for i in 0..upvalues {
        s.push_str(&format!("local up{i} = {i}\n"));
    }
    let mut parameters: Vec<String> = (0..*r.pick(&[0, 0, 1, 2, 4, 5, 8, 12, 25, 60])).map(|i| format!("a{i}")).collect();
    if r.chance(30) || vararg {
        parameters.push("...".into());
    }
    s.push_str(&format!("local function within({})\n", parameters.join(", ")));
    for i in 0..*r.pick(&[0, 0, 0, 1, 12, 60, 110, 150, 178]) {
        s.push_str(&format!("local l{i} = {i}\n"));
    }
    for i in 0..upvalues {
        s.push_str(&format!("up{i} = up{i} + 1 T(up{i})\n"));
    }
    for i in 0..*r.pick(&[0, 0, 0, 0, 20, 150, 260]) {
        s.push_str(&format!("X = {i}.625\n"));
    }
    if r.chance(10) {
        s.push_str(&format!("X = '{}'\n", "long".repeat(10 + r.us(100))));
    }
    (s, *r.pick(&["\nend within() within()", "\nend within(1, 2, 3, 4, 5, 6)", "\nend within(1) T(pcall(within, 2))"]))
}

/// Put a program into a function of some kind, sometimes.
pub fn maybe_within(r: &mut Rng, body: String) -> String {
    if !r.chance(35) {
        return body;
    }
    let (head, tail) = around(r, body.contains("..."));
    format!("{head}{body}{tail}")
}

/// The program exactly as the compiler writes it.
pub fn compile_exactly(case: &mut Case, ver: Ver, source: &str, fpf: u64) -> Option<Compiled> {
    compile_as(case, ver, source, fpf, false, false, false)
}

fn compile_as(case: &mut Case, ver: Ver, source: &str, fpf: u64, strip: bool, enlarge: bool, some: bool) -> Option<Compiled> {
    let vm = match ver {
        Ver::L50 => &mut *case.vm50,
        Ver::L51 => &mut *case.vm51,
    };
    let native = match vm.compile(fpf, strip, source.as_bytes()) {
        Ok(Ok(b)) => b,
        Ok(Err(m)) => {
            // Too many registers and so on. Everything else is a bug of the generator.
            let limit = ["too complex", "limit", "overflow", "too many", "too long", "more than"];
            if !limit.iter().any(|l| m.contains(l)) {
                case.error(format!("generated program doesn't compile: {m}\n{source}"));
            }
            case.count("discarded: exceeds a limit of the compiler");
            return None;
        }
        Err(f) => {
            case.fail(f);
            return None;
        }
    };
    let enc = match ver {
        Ver::L50 => Enc::native50(fpf),
        Ver::L51 => Enc::native51(fpf),
    };
    match decode(&enc, &native) {
        Ok(mut proto) => {
            let mut native = native;
            if some {
                strip_some(&mut case.rng, &mut proto);
                native = encode(&enc, &proto).unwrap();
                case.count("programs without some of their debug information");
            }
            if enlarge {
                let mut large = proto.clone();
                let kinds: Vec<&str> = (0..1 + case.rng.us(2)).filter_map(|_| self::enlarge(&mut case.rng, ver, &mut large)).collect();
                // Jumps and line numbers might have become too large.
                match encode(&enc, &large) {
                    Ok(b) => {
                        (native, proto) = (b, large);
                        kinds.iter().for_each(|k| case.count(&format!("programs with very many {k}")));
                    }
                    Err(_) => case.count("discarded: too large to enlarge any further"),
                }
            }
            Some(Compiled { ver, source: source.into(), fpf, native, proto })
        }
        Err(m) => {
            case.error(format!("can't decode the output of the compiler: {m}"));
            None
        }
    }
}

/// One in this many programs gets enlarged.
const ENLARGE: u64 = 150;

/// Make something about a compiled program very large, without an effect on what it does.
pub fn enlarge(rng: &mut Rng, ver: Ver, main: &mut Proto) -> Option<&'static str> {
    let n = crate::cgen::magnitude(rng);
    let kind = rng.below(6);
    if kind == 3 {
        // Every level calls the next one.
        let op = |name| opnum(ver, name);
        let deepest = 190usize.saturating_sub(depth(main));
        if deepest == 0 {
            return None;
        }
        for _ in 0..1 + rng.us(deepest) {
            let code = vec![Ins::abx(op("CLOSURE"), 0, 0), Ins::abc(op("CALL"), 0, 1, 1), Ins::abc(op("RETURN"), 0, 1, 0)];
            let lines = if main.lines.is_empty() { Vec::new() } else { vec![1; 3] };
            let inner = std::mem::take(main);
            *main = Proto { source: inner.source.clone(), maxstack: 2, code, lines, protos: vec![inner], ..Proto::default() };
        }
        return Some("nested functions");
    }
    if kind == 4 {
        let by = *rng.pick(&[200, 32_700, 65_500, 1 << 20, (1 << 24) - 3, 1 << 30]);
        main.walk_mut(&mut |p| {
            p.line += by;
            p.last_line += by;
            p.lines.iter_mut().for_each(|l| *l += by);
        });
        return Some("lines");
    }
    // One of the functions.
    let mut count = 0;
    main.walk(&mut |_| count += 1);
    let chosen = rng.us(count);
    let mut at = 0;
    let mut done = None;
    let seed = rng.next();
    main.walk_mut(&mut |p| {
        let mut rng = Rng::new(seed, "enlarge", 0);
        at += 1;
        if at - 1 != chosen {
            return;
        }
        match kind {
            // An output that needs a few more of them should still be possible.
            0 if p.consts.len() + n + p.code.len() * 3 > 200_000 => {}
            1 if p.protos.len() + n > 200_000 => {}
            0 => {
                p.consts.extend((0..n).map(|i| K::Num(Num::F(i as f64 + 0.5))));
                // Refer to copies of the constants at the end.
                for at in 0..p.code.len() {
                    let i = &p.code[at];
                    if i.op != RAW && matches!(ops(ver)[i.op as usize].0, "LOADK" | "GETGLOBAL" | "SETGLOBAL") && rng.chance(50) {
                        let k = p.consts[i.bx as usize].clone();
                        p.code[at].bx = p.consts.len() as i64;
                        p.consts.push(k);
                    }
                }
                done = Some("constants");
            }
            1 => {
                let inner = Proto { source: p.source.clone(), maxstack: 2, code: vec![Ins::abc(opnum(ver, "RETURN"), 0, 1, 0)], ..Proto::default() };
                let closure = opnum(ver, "CLOSURE");
                p.code.iter_mut().filter(|i| i.op == closure).for_each(|i| i.bx += n as i64);
                let real = std::mem::replace(&mut p.protos, vec![inner; n]);
                p.protos.extend(real);
                done = Some("functions");
            }
            2 => {
                if !p.locals.is_empty() {
                    let real = std::mem::take(&mut p.locals);
                    p.locals = vec![(b"never\0".to_vec(), 0, 0); n];
                    p.locals.extend(real);
                    done = Some("local variables");
                }
            }
            _ => {
                let places: Vec<usize> = (0..p.code.len()).filter(|at| can_insert(ver, p, *at)).collect();
                if !places.is_empty() {
                    insert_jumps(ver, p, *rng.pick(&places), n);
                    done = Some("instructions");
                }
            }
        }
    });
    done
}

fn depth(p: &Proto) -> usize {
    1 + p.protos.iter().map(depth).max().unwrap_or(0)
}

/// Is it possible to add instructions in front of this one?
fn can_insert(ver: Ver, p: &Proto, at: usize) -> bool {
    let name = |k: usize| p.code.get(k).filter(|i| i.op != RAW).map_or("RAW", |i| ops(ver)[i.op as usize].0);
    if p.code.iter().any(|i| i.op == RAW) {
        return false;
    }
    let Some(before) = at.checked_sub(1) else { return false };
    let i = &p.code[before];
    match name(before) {
        "EQ" | "LT" | "LE" | "TEST" | "TESTSET" | "TFORLOOP" | "TAILCALL" | "VARARG" | "CLOSURE" => return false,
        "CALL" if i.c == 0 => return false,
        "LOADBOOL" if i.c != 0 => return false,
        _ => {}
    }
    // The list of captured variables.
    for k in (0..at).rev() {
        match name(k) {
            "CLOSURE" => {
                let ups = p.protos.get(p.code[k].bx as usize).map_or(255, |f| f.nups as usize);
                return at - k > ups;
            }
            "MOVE" | "GETUPVAL" => {}
            _ => break,
        }
    }
    true
}

/// Add `n` jumps to the next instruction, and one that skips them.
fn insert_jumps(ver: Ver, p: &mut Proto, at: usize, n: usize) {
    let moved = |t: i64| if t > at as i64 { t + n as i64 } else { t };
    let jump = opnum(ver, "JMP");
    for (pc, i) in p.code.iter_mut().enumerate() {
        if i.op != RAW && ops(ver)[i.op as usize].1 == Kind::Asbx {
            let from = pc as i64 + if pc >= at { n as i64 } else { 0 };
            i.bx = moved(pc as i64 + 1 + i.bx) - from - 1;
        }
    }
    let block = (0..n).map(|i| Ins::abx(jump, 0, if i == 0 { n as i64 - 1 } else { 0 }));
    p.code.splice(at..at, block);
    if !p.lines.is_empty() {
        let line = p.lines[at];
        p.lines.splice(at..at, std::iter::repeat(line).take(n));
    }
    for l in &mut p.locals {
        l.1 = moved(l.1);
        l.2 = moved(l.2);
    }
}

/// Are the operands of the output too small to tell for sure that a large program fits?
pub fn too_large(c: &Proto, out: &Enc) -> bool {
    let limit = (1u64 << (out.lay.bx().1 - 1)) as usize - 1;
    let mut large = false;
    c.walk(&mut |p| large |= p.consts.len() + 3 * p.code.len() > limit || p.protos.len() > limit);
    large
}

pub fn run_reference(case: &mut Case, c: &Compiled, lines: bool, locals: bool) -> Option<Run> {
    let opts = RunOpts { fpf: c.fpf, no_arg_n: true, lines, locals, budget: BUDGET, memory: MEMORY };
    let vm = match c.ver {
        Ver::L50 => &mut *case.vm50,
        Ver::L51 => &mut *case.vm51,
    };
    match vm.run(opts, &c.native) {
        Ok(r) if r.exhausted() || r.overflow() => {
            case.count("discarded: exhausted the limits of the reference run");
            None
        }
        Ok(r) if r.status.starts_with("load") => {
            case.error(format!("reference doesn't load: {}", r.status));
            None
        }
        Ok(r) => Some(r),
        Err(Fail::Crash(m)) => {
            case.error(format!("reference run crashed: {m}\n{}", c.source));
            None
        }
        Err(f) => {
            case.fail(f);
            None
        }
    }
}

/// Is it possible that there aren't enough registers for the converted code?
pub fn may_exceed_stack(c: &Proto, ver: Ver, input_fpf: u64, output_fpf: u64, limit: u64) -> bool {
    let mut possible = false;
    // Operands can't be larger, whatever the settings allow.
    let limit = limit.min(250);
    c.walk(&mut |p| {
        let set_list = p.code.iter().any(|i| match ver {
            Ver::L50 => matches!(i.op, 31 | 32),
            Ver::L51 => i.op == 34,
        });
        if set_list && output_fpf > input_fpf && p.maxstack as u64 + 3 * output_fpf + 10 > limit {
            possible = true;
        }
        if set_list && p.maxstack as u64 + 8 > limit {
            possible = true;
        }
        for i in &p.code {
            if ver == Ver::L50 && i.op == 29 && i.a + 2 * i.c + 8 > limit {
                possible = true;
            }
        }
        if ver == Ver::L50 && p.code.iter().any(|i| matches!(i.op, 28..=30)) && p.maxstack as u64 + 6 > limit {
            possible = true;
        }
    });
    possible
}

/// Is there a constant operand that doesn't fit the layout of the output?
pub fn operands_fit(c: &Proto, ver: Ver, out: &Enc) -> bool {
    let mut fit = true;
    let limit = (1u64 << (out.lay.size('B') - 1)) - 1;
    c.walk(&mut |p| {
        for i in &p.code {
            if i.op == RAW {
                continue;
            }
            let (_, kind, b, c) = ops(ver)[i.op as usize];
            if kind == Kind::Abc {
                fit &= b != Arg::K || (i.b & !KBIT) <= limit;
                fit &= c != Arg::K || (i.c & !KBIT) <= limit;
            }
        }
    });
    fit
}

pub fn input_of(case: &mut Case, c: &Compiled, enc: &Enc) -> Option<Vec<u8>> {
    match encode(enc, &c.proto) {
        Ok(b) => Some(b),
        Err(m) => {
            case.error(format!("can't encode the program: {m}"));
            None
        }
    }
}

pub struct Converted {
    pub proto: Proto,
    pub bytes: Vec<u8>,
}

/// More unusual configurations that the program fits nevertheless.
pub fn vary(rng: &mut Rng, c: &Compiled, input: &mut Enc, output: &mut Enc, other: &mut Enc) {
    other.stack_limit = random_limit(rng);
    let (mut registers, mut length, mut consts) = (2, 0, 0);
    c.proto.walk(&mut |p| {
        registers = registers.max(p.maxstack as u64);
        length = length.max(p.code.len());
        consts = consts.max(p.consts.len());
        for i in p.code.iter().filter(|i| i.op != RAW) {
            let (_, kind, b, c) = ops(input.ver)[i.op as usize];
            if kind == Kind::Abc && matches!(b, Arg::K | Arg::R | Arg::T) && i.b & KBIT == 0 {
                registers = registers.max(i.b + 1);
            }
            if kind == Kind::Abc && matches!(c, Arg::K | Arg::R | Arg::T) && i.c & KBIT == 0 {
                registers = registers.max(i.c + 1);
            }
            registers = registers.max(i.a + 1);
        }
    });
    if input.ver == Ver::L50 && rng.chance(12) && registers < 250 {
        input.stack_limit = registers + rng.below(251 - registers);
    }
    if input.ver == Ver::L51 && rng.chance(8) {
        input.stack_limit = random_limit(rng);
    }
    if rng.chance(12) && registers + 20 < 250 {
        // The reference runtime refuses functions with more than 250 registers.
        let fits = !may_exceed_stack(&c.proto, c.ver, input.fpf, output.fpf, 250);
        output.stack_limit = match rng.chance(30) && fits {
            true => 251 + random_limit(rng),
            false => registers + 20 + rng.below(230 - registers),
        };
    }
    if !rng.chance(10) || length > 240 || consts > 20_000 {
        return;
    }
    // The smallest operands that layouts are able to have.
    let small = |rng: &mut Rng, max: u32| {
        let mut sizes = [6, 7 + rng.below(2) as u32, 8, 8];
        match rng.below(3) {
            0 => {}
            1 => sizes[3] = 9,
            _ => {
                let at = rng.us(4);
                sizes[at] += rng.below(1 + (max - sizes.iter().sum::<u32>()).min(31 - sizes[at]) as u64) as u32;
            }
        }
        if sizes[3] < sizes[2] {
            sizes.swap(2, 3);
        }
        Lay::arrange(rng, sizes)
    };
    let max = |e: &Enc| if e.fmt.instruction_width == lunify::BitWidth::Bit32 { 32 } else { 64 };
    if registers + 20 < 127 && !may_exceed_stack(&c.proto, c.ver, input.fpf, output.fpf, 127) {
        output.lay = small(rng, max(output));
    }
    if registers < 127 && rng.chance(50) {
        let before = input.clone();
        input.lay = small(rng, max(input));
        if input.ver == Ver::L50 {
            input.stack_limit = registers + rng.below(129 - registers);
        }
        if encode(input, &c.proto).is_err() {
            *input = before;
        }
    }
}

/// Convert a program that has to be convertible. Reports every other outcome.
pub fn convert(case: &mut Case, c: &Compiled, input: &Enc, output: &Enc, other: &Enc) -> Option<Converted> {
    let bytes = input_of(case, c, input)?;
    let settings = settings(input, output, other);
    case.notes.clear();
    case.note("source", c.source.clone());
    case.note("configuration", format!("input {input:?} output {output:?}"));
    case.note("input", hex(&bytes));
    let out = case.unify(&bytes, &output.fmt, &settings);
    let result = match out {
        Out::Ok(b) => b,
        Out::Err(LunifyError::StackTooLarge(_)) if may_exceed_stack(&c.proto, c.ver, input.fpf, output.fpf, output.stack_limit) => {
            case.count("reported: stack too large");
            return None;
        }
        Out::Err(LunifyError::ValueTooBigForOperand) if !operands_fit(&c.proto, c.ver, output) => {
            case.count("reported: constant index doesn't fit the output");
            return None;
        }
        Out::Err(LunifyError::ValueTooBigForOperand) if too_large(&c.proto, output) => {
            case.count("reported: too large for the output");
            return None;
        }
        out => {
            case.violation(format!("conversion of a valid program failed: {}", out.show()));
            return None;
        }
    };
    case.note("output", hex(&result));
    match decode(output, &result) {
        Ok(proto) => Some(Converted { proto, bytes: result }),
        Err(m) => {
            case.violation(format!("the output is not a well-formed chunk of the requested format: {m}"));
            None
        }
    }
}

/// The output as a chunk for the reference runtime.
pub fn native(case: &mut Case, c: &Compiled, converted: &Converted, output: &Enc) -> Option<Vec<u8>> {
    let target = Enc::native51(output.fpf);
    if output.fmt == target.fmt && output.lay == target.lay && output.sig == target.sig {
        case.count("outputs loaded without re-encoding");
        return Some(converted.bytes.clone());
    }
    match encode(&target, &converted.proto) {
        Ok(b) => Some(b),
        // Constants above the limit of the reference runtime.
        Err(_) if !operands_fit(&c.proto, c.ver, &target) => {
            case.count("discarded: constant index doesn't fit the reference runtime");
            None
        }
        Err(m) => {
            case.violation(format!("the output has operands that Lua 5.1 doesn't support: {m}"));
            None
        }
    }
}

/// Lines of the global variables that are not ours.
pub fn globals(r: &Run) -> Vec<&String> {
    r.globals.iter().filter(|g| !g.starts_with("\"__%lunify%__temp")).collect()
}

pub fn difference(want: &Run, got: &Run, lines: bool) -> Option<String> {
    if want.trace != got.trace {
        let (w, g): (Vec<_>, Vec<_>) = (want.trace.lines().collect(), got.trace.lines().collect());
        let n = w.iter().zip(&g).take_while(|(a, b)| a == b).count();
        let at = |v: &Vec<&str>| v.get(n).map_or("nothing".to_string(), |l| l.chars().take(200).collect());
        return Some(format!("event {n} is {} instead of {} (then {} / {})", at(&g), at(&w), got.status, want.status));
    }
    if want.status != got.status {
        return Some(format!("it ended with {} instead of {}", got.status, want.status));
    }
    if globals(want) != globals(got) {
        let (w, g) = (globals(want), globals(got));
        let w1: Vec<_> = w.iter().filter(|x| !g.contains(x)).take(3).collect();
        let g1: Vec<_> = g.iter().filter(|x| !w.contains(x)).take(3).collect();
        return Some(format!("global variables are {g1:?} instead of {w1:?}"));
    }
    if lines && want.lines != got.lines {
        let (w, g): (Vec<_>, Vec<_>) = (want.lines.split(' ').collect(), got.lines.split(' ').collect());
        let n = w.iter().zip(&g).take_while(|(a, b)| a == b).count();
        let show = |v: &Vec<&str>| v[n.saturating_sub(2)..(n + 4).min(v.len())].join(" ");
        return Some(format!("executed lines differ at {n}: {} instead of {}", show(&g), show(&w)));
    }
    None
}

#[derive(Clone, Copy, Default)]
pub struct Monitor {
    pub lines: bool,
    pub locals: bool,
}

/// Run the converted program and compare what it does to `want`.
pub fn judge(case: &mut Case, c: &Compiled, want: &Run, converted: &Converted, output: &Enc, m: Monitor) -> bool {
    let Some(chunk) = native(case, c, converted, output) else {
        return false;
    };
    let opts = RunOpts {
        fpf: output.fpf,
        no_arg_n: true,
        lines: m.lines,
        locals: m.locals,
        budget: want.used * 20 + 2_000_000,
        memory: MEMORY * 2,
    };
    let got = match case.vm51.run(opts, &chunk) {
        Ok(r) => r,
        Err(Fail::Crash(m)) => {
            case.violation(format!("the converted program breaks the runtime: {m}"));
            return false;
        }
        Err(f) => {
            case.fail(f);
            return false;
        }
    };
    if got.meta.contains("#over 1") {
        case.count("discarded: too much output");
        return false;
    }
    if let Some(d) = difference(want, &got, m.lines) {
        case.note("listing of the input", listing(c.ver, &c.proto));
        case.note("listing of the output", listing(Ver::L51, &converted.proto));
        case.note("expected", format!("{}\n{}", want.trace, want.status));
        case.note("got", format!("{}\n{}", got.trace, got.status));
        case.violation(format!("the converted program behaves differently: {d}"));
        return false;
    }
    true
}

pub fn random_fpf(rng: &mut Rng, default: u64) -> u64 {
    match rng.below(10) {
        0..=3 => default,
        4 => 50,
        5 => 32,
        6 => 1 + rng.below(8),
        7 => 1 + rng.below(64),
        8 => *rng.pick(&[2, 3, 16, 31, 33, 49, 51, 64]),
        _ => 1 + rng.below(100),
    }
}

/// Another `LFIELDS_PER_FLUSH` that has something in common with the first one.
pub fn related_fpf(rng: &mut Rng, fpf: u64) -> u64 {
    let other = match rng.below(6) {
        0 => fpf * if rng.chance(60) { 2 } else { 3 + rng.below(2) },
        1 => fpf / (2 + rng.below(3)),
        2 => fpf + 1,
        3 => fpf - 1,
        4 => fpf ^ (1 << rng.below(7)),
        _ => fpf + *rng.pick(&[10, 16, 32, 50, 64, 100]),
    };
    other.clamp(1, 220)
}

/// Instructions that make a program interesting for a focus.
pub fn features(c: &Compiled) -> Vec<&'static str> {
    let mut seen = std::collections::BTreeSet::new();
    c.proto.walk(&mut |p| {
        for i in &p.code {
            if i.op != RAW {
                seen.insert(ops(c.ver)[i.op as usize].0);
            }
        }
    });
    seen.into_iter().collect()
}

#[derive(Clone)]
pub struct Plan {
    pub ver: Ver,
    pub focus: Focus,
    pub size: i64,
    pub input_fpf: Option<u64>,
    pub output_fpf: Option<u64>,
    pub monitor: Monitor,
    pub strip: Option<bool>,
    /// Required instruction for a case to count as non-trivial.
    pub needs: &'static [&'static str],
}

impl Plan {
    pub fn new(ver: Ver, focus: Focus) -> Plan {
        Plan { ver, focus, size: 60, input_fpf: None, output_fpf: None, monitor: Monitor::default(), strip: None, needs: &[] }
    }
}

/// Generate, compile, convert, run and compare one program.
pub fn random_program(case: &mut Case, plan: &Plan) {
    let input_fpf = plan.input_fpf.unwrap_or_else(|| {
        random_fpf(&mut case.rng, match plan.ver {
            Ver::L50 => 32,
            Ver::L51 => 50,
        })
    });
    let output_fpf = plan.output_fpf.unwrap_or_else(|| match case.rng.chance(20) {
        true => input_fpf,
        false if case.rng.chance(15) => related_fpf(&mut case.rng, input_fpf),
        false => random_fpf(&mut case.rng, 50),
    });
    let size = case.rng.range(8, plan.size);
    let focus_fpf = match case.rng.chance(50) {
        true => input_fpf,
        false => output_fpf,
    };
    let p = program(&mut case.rng, plan.ver == Ver::L50, plan.focus, size, focus_fpf as usize);
    let strip = plan.strip.unwrap_or_else(|| case.rng.chance(15));
    let mut source = p.source;
    if case.rng.chance(25) {
        source = maybe_within(&mut case.rng, source);
    }
    let Some(c) = compile(case, plan.ver, &source, input_fpf, strip) else {
        return;
    };
    source_case(case, &c, output_fpf, plan);
}

/// A program with a function that has more instructions than fit 16 bits.
pub fn long_program(case: &mut Case, plan: &Plan) {
    let (input, output) = (random_fpf(&mut case.rng, 32), random_fpf(&mut case.rng, 50));
    let output = if case.rng.chance(60) { input } else { output };
    let size = case.rng.range(8, plan.size);
    let p = program(&mut case.rng, plan.ver == Ver::L50, plan.focus, size, output as usize);
    let source = maybe_within(&mut case.rng, p.source);
    let Some(mut c) = compile_exactly(case, plan.ver, &source, input) else { return };
    let mut count = 0;
    c.proto.walk(&mut |_| count += 1);
    let chosen = if case.rng.chance(50) { 0 } else { case.rng.us(count) };
    let n = *case.rng.pick(&[65_400, 65_535, 66_000, 70_000, 100_000, 130_500]) + case.rng.us(100);
    let seed = case.rng.next();
    let mut at = 0;
    c.proto.walk_mut(&mut |p| {
        let mut rng = Rng::new(seed, "long", 0);
        at += 1;
        if at - 1 == chosen {
            let places: Vec<usize> = (0..p.code.len()).filter(|at| can_insert(plan.ver, p, *at)).collect();
            // Preferably close to the start, with everything else behind.
            let places = &places[..if rng.chance(60) { places.len().min(8) } else { places.len() }];
            if !places.is_empty() {
                insert_jumps(plan.ver, p, *rng.pick(places), n);
            }
        }
    });
    let enc = match plan.ver {
        Ver::L50 => Enc::native50(input),
        Ver::L51 => Enc::native51(input),
    };
    match encode(&enc, &c.proto) {
        Ok(b) => c.native = b,
        Err(_) => return case.count("discarded: jumps don't reach that far"),
    }
    case.count("programs with more than 65535 instructions in a function");
    source_case(case, &c, output, plan);
}

pub fn source_case(case: &mut Case, c: &Compiled, output_fpf: u64, plan: &Plan) {
    let mut plan = plan.clone();
    if c.fpf != output_fpf && features(c).iter().any(|f| f.starts_with("SETLIST")) {
        plan.monitor.lines = false;
    }
    let plan = &plan;
    let Some(want) = run_reference(case, c, plan.monitor.lines, plan.monitor.locals) else {
        return;
    };
    let mut input = Enc::random(&mut case.rng, plan.ver, c.fpf);
    random_number_type(&mut case.rng, &mut input.fmt, &c.proto);
    if plan.ver == Ver::L50 && case.rng.chance(70) {
        // Lua 5.0 was mostly used with its own layout.
        input.lay = Lay::L50;
    }
    let output = match case.rng.below(10) {
        // Nothing else is different.
        0 if plan.ver == Ver::L51 => Enc { fpf: output_fpf, ..input.clone() },
        0..=3 => Enc::native51(output_fpf),
        _ => {
            let mut o = Enc::random(&mut case.rng, Ver::L51, output_fpf);
            random_number_type(&mut case.rng, &mut o.fmt, &c.proto);
            o
        }
    };
    let mut other = match plan.ver {
        Ver::L50 => Enc::native51(random_fpf(&mut case.rng, 50)),
        Ver::L51 => Enc::native50(random_fpf(&mut case.rng, 32)),
    };
    let mut output = output;
    vary(&mut case.rng, c, &mut input, &mut output, &mut other);
    let Some(converted) = convert(case, c, &input, &output, &other) else {
        return;
    };
    if judge(case, c, &want, &converted, &output, plan.monitor) {
        let features = features(c);
        case.count("programs that behaved the same");
        if plan.monitor.lines {
            case.add("executed lines compared", want.lines.split(' ').count() as u64);
        }
        case.add("trace events compared", want.trace.lines().count() as u64);
        case.add("instructions converted", c.proto.total_code() as u64);
        if want.status.starts_with("error") {
            case.count("programs that ended with an error");
        }
        for f in &features {
            if plan.needs.contains(f) {
                case.count(&format!("programs with {f}"));
            }
        }
        if plan.needs.is_empty() || plan.needs.iter().any(|n| features.contains(n)) {
            let h = hash_bytes(&c.native) ^ hash_bytes(format!("{output:?}{input:?}").as_bytes());
            if want.trace.lines().count() > 1 {
                case.nontrivial(h);
            }
        }
        let (ver, fpf) = (c.ver, c.fpf);
        let source: String = c.source.chars().take(1500).collect();
        let trace: String = want.trace.chars().take(400).collect();
        let size = converted.bytes.len();
        case.sample(|| {
            json!({"version": format!("{ver:?}"), "source": source, "fields_per_flush": [fpf, output_fpf],
                   "output": format!("{:?} {:?}", output.fmt, output.lay.spec), "output_bytes": size, "trace": trace})
        });
    }
}
