//! Properties that are decided by reading the output with an independent decoder.

use lunify::{BitWidth, Endianness, Format, InstructionLayout, LunifyError, OperandType};
use serde_json::json;

use super::hostile::any_proto;
use crate::cgen;
use crate::ctx::{hex, Case, Ctx, Out, Tier};
use crate::flow::*;
use crate::lgen::Focus;
use crate::model::*;
use crate::rng::{hash_bytes, Rng};

fn other_for(rng: &mut Rng, ver: Ver) -> Enc {
    match ver {
        Ver::L50 => Enc::native51(random_fpf(rng, 50)),
        Ver::L51 => Enc::native50(random_fpf(rng, 32)),
    }
}

fn describe(case: &mut Case, input: &Enc, output: &Enc, bytes: &[u8]) {
    case.notes.clear();
    case.note("configuration", format!("input {input:?} output {output:?}"));
    case.note("input", hex(bytes));
}

/// The size hints of `NEWTABLE` don't have to be preserved, so they don't have to fit.
fn without_hints(p: &Proto) -> Proto {
    let mut p = p.clone();
    let op = opnum(Ver::L51, "NEWTABLE");
    p.walk_mut(&mut |p| {
        for i in p.code.iter_mut().filter(|i| i.op == op) {
            (i.b, i.c) = (0, 0);
        }
    });
    p
}

fn shape(p: &Proto) -> Vec<usize> {
    let mut v = vec![p.protos.len()];
    for q in &p.protos {
        v.extend(shape(q));
    }
    v
}

// ---------------------------------------------------------------- C03

pub fn well_formed(cx: &Ctx) {
    cx.rule(
        "Every output is read by an independent strict decoder: signature, version, all header bytes, integer and string sizes, opcodes, constant
        types and the end of the chunk have to be exactly what the requested format, layout and signature say, and the tree of functions has to
        be the one of the input. A case is non-trivial if the conversion succeeded",
    );
    cx.assume("outcomes other than success are judged by other properties (totality, errors, behaviour)");
    for (name, ver) in [("lua50", Ver::L50), ("lua51", Ver::L51)] {
        cx.run(name, cx.scale(120_000), |case| {
            let fpf = random_fpf(&mut case.rng, 32);
            let input = Enc::random(&mut case.rng, ver, fpf);
            let lay = match case.rng.chance(70) {
                true => Lay::L51,
                false => input.lay,
            };
            let Some(p) = any_proto(case, ver, lay, false) else { return };
            let Ok(bytes) = encode(&input, &p) else {
                case.count("chunks that don't fit their encoding");
                return;
            };
            let out_fpf = if case.rng.chance(40) { fpf } else { random_fpf(&mut case.rng, 50) };
            let mut output = Enc::random(&mut case.rng, Ver::L51, out_fpf);
            random_number_type(&mut case.rng, &mut output.fmt, &p);
            // Any combination of letters is a valid signature.
            output.sig = *case.rng.pick(&["\x1bLua", "\x1bLua", "", "\u{7f}", "\x1bLuaJIT \u{fffd}", "\0\0", "a longer signature than usual"]);
            let other = other_for(&mut case.rng, ver);
            describe(case, &input, &output, &bytes);
            let s = settings(&input, &output, &other);
            match case.unify(&bytes, &output.fmt, &s) {
                Out::Ok(b) => {
                    case.note("output", hex(&b));
                    match decode(&output, &b) {
                        Ok(q) if shape(&q) != shape(&p) => case.violation("functions appeared or disappeared"),
                        Ok(q) => {
                            case.count("outputs decoded");
                            case.add("functions decoded", shape(&q).len() as u64);
                            case.nontrivial(hash_bytes(&b) ^ hash_bytes(&bytes));
                            let f = output.fmt;
                            case.sample(|| json!({"format": format!("{f:?}"), "header": hex(&header(&output)), "bytes": b.len()}));
                        }
                        Err(m) => case.violation(format!("the output is not a well-formed chunk of the requested format: {m}")),
                    }
                }
                Out::Err(_) => case.count("rejected"),
                out => case.violation(out.show()),
            }
        });
    }
    // Each format.
    cx.run("formats", 2 * 64 * 2 * 4, |case| {
        let i = case.index;
        let w = |bit: u64| if i >> bit & 1 == 0 { BitWidth::Bit32 } else { BitWidth::Bit64 };
        let ver = if i & 1 == 0 { Ver::L50 } else { Ver::L51 };
        let fmt = Format {
            format: case.rng.next() as u8,
            endianness: if i >> 1 & 1 == 0 { Endianness::Little } else { Endianness::Big },
            integer_width: w(2),
            size_t_width: w(3),
            instruction_width: w(4),
            number_width: w(5),
            is_number_integral: i >> 6 & 1 == 1,
        };
        let mut p = Proto { maxstack: 2, source: b"@x\0".to_vec(), ..Proto::default() };
        for v in [0.0, 1.0, -1.0, 1000.0, -4096.0, 65536.0] {
            p.consts.push(K::Num(Num::F(v)));
        }
        p.consts.push(K::Str(cgen::string(&mut case.rng)));
        p.consts.push(K::Bool(true));
        p.consts.push(K::Nil);
        p.code.push(Ins::abc(opnum(ver, "RETURN"), 0, 1, 0));
        let input = Enc::random(&mut case.rng, ver, 32);
        let mut output = Enc::native51(50);
        output.fmt = fmt;
        output.sig = "\x1bOut";
        let other = other_for(&mut case.rng, ver);
        let bytes = encode(&input, &p).unwrap();
        describe(case, &input, &output, &bytes);
        match case.unify(&bytes, &fmt, &settings(&input, &output, &other)) {
            Out::Ok(b) => match decode(&output, &b) {
                Ok(q) if diff(Ver::L51, &Proto { code: q.code.clone(), last_line: q.last_line, ..p.clone() }, &q, "main").is_none() => {
                    case.count("formats");
                    case.nontrivial(i);
                }
                Ok(_) => case.violation("the output has another content"),
                Err(m) => case.violation(format!("the output is not a well-formed chunk of the requested format: {m}")),
            },
            out => case.violation(format!("conversion failed: {}", out.show())),
        }
    });
}

// ---------------------------------------------------------------- C04

pub fn preserves_51(cx: &Ctx) {
    cx.rule(
        "Converting Lua 5.1 to Lua 5.1 with the same LFIELDS_PER_FLUSH: the decoded output has to be the same as the decoded input in every
        field of every function (source, lines, parameters, upvalues, stack, instructions with all operands, constants, nested functions, debug
        information), and the conversion succeeds exactly if an independent encoder is able to encode the program in the requested format. A case
        is non-trivial if the program was converted to another format or layout",
    );
    cx.assume("the size hints of NEWTABLE and unused operands may change; Lua 5.1 tables with more than 511 flushes are finding F11 of C11");
    cx.run("chunks", cx.scale(120_000), |case| {
        let fpf = random_fpf(&mut case.rng, 50);
        let input = Enc::random(&mut case.rng, Ver::L51, fpf);
        let lay = match case.rng.chance(60) {
            true => Lay::L51,
            false => input.lay,
        };
        let Some(p) = any_proto(case, Ver::L51, lay, false) else { return };
        preserve(case, &p, input, fpf);
    });
    cx.run("wide", cx.scale(60_000), |case| {
        // Everything as big as possible.
        let mut input = Enc::random(&mut case.rng, Ver::L51, 50);
        input.fmt.instruction_width = BitWidth::Bit64;
        input.fmt.integer_width = BitWidth::Bit64;
        input.lay = Lay::random(&mut case.rng, 64);
        let opts = cgen::Opts { ver: Ver::L51, lay: input.lay, max_code: 12, depth: 1, hostile: false };
        let mut p = cgen::proto(&mut case.rng, &opts, 0);
        if case.rng.chance(30) {
            let big = case.rng.next() as i64 >> case.rng.below(60);
            match case.rng.below(4) {
                0 => p.line = big,
                1 => p.last_line = big,
                2 => {
                    if let Some(l) = p.lines.first_mut() {
                        *l = big;
                    }
                }
                _ => {
                    if let Some(l) = p.locals.first_mut() {
                        l.2 = big;
                    }
                }
            }
        }
        preserve(case, &p, input, 50);
    });
}

fn preserve(case: &mut Case, p: &Proto, input: Enc, fpf: u64) {
    let mut output = Enc::random(&mut case.rng, Ver::L51, fpf);
    if case.rng.chance(5) {
        // Nothing but the number of registers has a limit.
        output.stack_limit = 255 + case.rng.below(1000);
    }
    preserve_to(case, p, input, output);
}

fn preserve_to(case: &mut Case, p: &Proto, mut input: Enc, mut output: Enc) {
    random_number_type(&mut case.rng, &mut input.fmt, p);
    if case.rng.chance(10) {
        input.truth = case.rng.below(255) as u8 + 1;
    }
    let Ok(bytes) = encode(&input, p) else {
        case.count("chunks that don't fit their encoding");
        return;
    };
    // What the input actually says, e.g. with 32 bit numbers.
    let p = match decode(&input, &bytes) {
        Ok(p) => p,
        Err(m) => return case.error(m),
    };
    random_number_type(&mut case.rng, &mut output.fmt, &p);
    let limited = output.stack_limit == 250 && case.rng.chance(15);
    if limited {
        output.stack_limit = random_limit(&mut case.rng);
    }
    let mut other = Enc::native50(32);
    other.stack_limit = random_limit(&mut case.rng);
    let s = settings(&input, &output, &other);
    describe(case, &input, &output, &bytes);
    let expected = encode(&output, &without_hints(&p));
    match (case.unify(&bytes, &output.fmt, &s), expected) {
        (Out::Ok(b), Ok(_)) => {
            case.note("output", hex(&b));
            let q = match decode(&output, &b) {
                Ok(q) => q,
                Err(m) => return case.violation(format!("output is not well-formed: {m}")),
            };
            if let Some(d) = diff(Ver::L51, &p, &q, "main") {
                return case.violation(d);
            }
            case.count("programs preserved");
            case.add("instructions compared", p.total_code() as u64);
            if b != bytes {
                case.nontrivial(hash_bytes(&b) ^ hash_bytes(&bytes));
                let n = p.total_code();
                case.sample(|| json!({"from": format!("{:?} {:?}", input.fmt, input.lay.spec), "to": format!("{:?} {:?}", output.fmt, output.lay.spec), "instructions": n}));
            }
        }
        (Out::Err(e), Err(m)) => {
            // The error has to be about what doesn't fit.
            let fine = match m.as_str() {
                "int" => e == LunifyError::IntegerOverflow,
                "num" => matches!(e, LunifyError::IntegerOverflow | LunifyError::FloatPrecisionLoss),
                _ => e == LunifyError::ValueTooBigForOperand,
            };
            // There might be more than one reason.
            let any = matches!(
                e,
                LunifyError::IntegerOverflow | LunifyError::ValueTooBigForOperand | LunifyError::FloatPrecisionLoss
            );
            match fine || any {
                true => case.count("programs that don't fit the output"),
                false => case.violation(format!("{m} doesn't fit, but the error is {e:?}")),
            }
        }
        (Out::Ok(_), Err(m)) => case.violation(format!("the program doesn't fit the output ({m}), but it was converted")),
        (Out::Err(LunifyError::StackTooLarge(n)), _) if limited && n > output.stack_limit.min(255) => case.count("rejected with StackTooLarge"),
        (out, Ok(_)) => case.violation(format!("the program fits the output, but the result is {}", out.show())),
        (out, Err(_)) => case.violation(out.show()),
    }
}

// ---------------------------------------------------------------- C05

pub fn strings(cx: &Ctx) {
    cx.rule(
        "All strings of a chunk (constants, source names, local variables, upvalues) are read from the output by an independent decoder and have to
        be the same bytes: every byte value, every length, embedded zeros, invalid UTF-8, missing strings and empty strings. In section executed
        the converted program computes with the strings. A case is non-trivial if there was a string with bytes outside of ASCII, or a
        missing one",
    );
    for (name, ver) in [("chunks-50", Ver::L50), ("chunks-51", Ver::L51)] {
        cx.run(name, cx.scale(60_000), |case| {
            let input = Enc::random(&mut case.rng, ver, 32);
            let mut output = Enc::random(&mut case.rng, Ver::L51, 50);
            output.sig = "\x1bOut";
            let r = &mut case.rng;
            let mut p = Proto { maxstack: 2, ..Proto::default() };
            p.code.push(Ins::abc(opnum(ver, "RETURN"), 0, 1, 0));
            let depth = r.us(3);
            fill(r, &mut p, ver, depth);
            let other = other_for(&mut case.rng, ver);
            let bytes = encode(&input, &p).unwrap();
            describe(case, &input, &output, &bytes);
            let q = match case.unify(&bytes, &output.fmt, &settings(&input, &output, &other)) {
                Out::Ok(b) => match decode(&output, &b) {
                    Ok(q) => q,
                    Err(m) => return case.violation(format!("output is not well-formed: {m}")),
                },
                out => return case.violation(format!("conversion failed: {}", out.show())),
            };
            let (a, b) = (all_strings(&p), all_strings(&q));
            if let Some(i) = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)) {
                let show = |s: Option<&(String, Vec<u8>)>| s.map_or("nothing".into(), |(w, s)| format!("{w} {}", hex(&s[..s.len().min(200)])));
                return case.violation(format!("{} became {}", show(a.get(i)), show(b.get(i))));
            }
            case.add("strings compared", a.len() as u64);
            if a.iter().any(|(_, s)| s.is_empty() || s.iter().any(|b| *b > 127)) {
                case.nontrivial(hash_bytes(&bytes));
                case.sample(|| json!({"strings": a.iter().take(6).map(|(w, s)| format!("{w} {}", hex(&s[..s.len().min(20)]))).collect::<Vec<_>>()}));
            }
        });
    }
    cx.run("long", cx.scale(64), |case| {
        // Around every power of two of bytes and of strings.
        let ver = *case.rng.pick(&[Ver::L50, Ver::L51]);
        let input = Enc::random(&mut case.rng, ver, 32);
        let mut output = Enc::random(&mut case.rng, Ver::L51, 50);
        output.sig = "\x1bOut";
        let other = other_for(&mut case.rng, ver);
        let r = &mut case.rng;
        let mut p = Proto { maxstack: 2, ..Proto::default() };
        p.code.push(Ins::abc(opnum(ver, "RETURN"), 0, 1, 0));
        let size = |r: &mut Rng, most: u64| (1usize << (7 + r.below(most - 6))) + r.us(5) - 2;
        match case.index % 8 {
            0 | 1 => p.consts = (0..size(r, 17)).map(|i| K::Str(format!("{i}\0").into())).collect(),
            2 => p.locals = (0..size(r, 17)).map(|i| (format!("{i}\0").into(), 0, 1)).collect(),
            3 => p.upvals = (0..200 + r.us(56)).map(|i| format!("{i}\0").into()).collect(),
            kind => {
                let mut text = r.bytes(64);
                text.resize(size(r, 24), b'-');
                let at = r.us(text.len() - 1);
                text[at] = 200;
                text.extend([b'!', 0]);
                match kind {
                    4 => p.source = text,
                    5 => p.locals.push((text, 0, 1)),
                    6 => p.upvals.push(text),
                    _ => p.consts.push(K::Str(text)),
                }
            }
        }
        p.nups = p.upvals.len() as u8;
        let bytes = encode(&input, &p).unwrap();
        case.note("input", format!("{input:?}"));
        case.note("bytes", bytes.len().to_string());
        match case.unify(&bytes, &output.fmt, &settings(&input, &output, &other)) {
            Out::Ok(o) => match decode(&output, &o) {
                Ok(q) if all_strings(&p) == all_strings(&q) => {
                    case.add("bytes of large strings and lists", bytes.len() as u64);
                    case.nontrivial(hash_bytes(&bytes));
                }
                Ok(_) => case.violation(format!("strings changed, {} bytes in total", bytes.len())),
                Err(m) => case.violation(format!("output is not well-formed: {m}")),
            },
            out => case.violation(format!("conversion failed: {}", out.show())),
        }
    });
    cx.run("giant", if cx.tier == Tier::Thorough { 8 } else { 1 }, giant);
    cx.run("bytes", 512, |case| {
        // Each byte at the start, in the middle and at the end.
        let ver = if case.index < 256 { Ver::L50 } else { Ver::L51 };
        let b = case.index as u8;
        let mut p = Proto { maxstack: 2, source: vec![b'@', b, 0], ..Proto::default() };
        p.code.push(Ins::abc(opnum(ver, "RETURN"), 0, 1, 0));
        for s in [vec![b, 0], vec![b'a', b, b'b', 0], vec![b, b, b, b, 0], vec![0xc3, b, 0], vec![b, 0xa4, 0], vec![b]] {
            p.consts.push(K::Str(s.clone()));
            p.locals.push((s.clone(), 0, 1));
            p.upvals.push(s);
        }
        p.nups = p.upvals.len() as u8;
        let input = Enc::random(&mut case.rng, ver, 32);
        let mut output = Enc::random(&mut case.rng, Ver::L51, 50);
        output.sig = "\x1bOut";
        let other = other_for(&mut case.rng, ver);
        let bytes = encode(&input, &p).unwrap();
        describe(case, &input, &output, &bytes);
        match case.unify(&bytes, &output.fmt, &settings(&input, &output, &other)) {
            Out::Ok(o) => match decode(&output, &o) {
                Ok(q) if all_strings(&p) == all_strings(&q) => {
                    case.count("byte values");
                    case.nontrivial(case.index);
                }
                Ok(_) => case.violation(format!("a string with byte {b} changed")),
                Err(m) => case.violation(format!("output is not well-formed: {m}")),
            },
            out => case.violation(format!("conversion failed: {}", out.show())),
        }
    });
    for (name, ver) in [("executed-50", Ver::L50), ("executed-51", Ver::L51)] {
        cx.run(name, cx.scale(2000), |case| {
            let r = &mut case.rng;
            let mut s = String::new();
            for i in 0..1 + r.us(12) {
                let n = *r.pick(&[0, 1, 2, 3, 10, 60, 300]);
                let text: String = (0..n)
                    .map(|_| match r.below(3) {
                        0 => format!("\\{:03}", r.below(256)),
                        1 => format!("\\{:03}", 128 + r.below(128)),
                        _ => ((b'a' + r.below(26) as u8) as char).to_string(),
                    })
                    .collect();
                s.push_str(&format!("local s{i} = \"{text}\" T(s{i}, string.len(s{i}), s{i} .. 'x', string.byte(s{i}, 1), s{i} < 'm')\n"));
                s.push_str(&format!("local t = {{[s{i}] = {i}}} T(t[s{i}], t) G{i} = s{i} T(G{i} == s{i}, string.find(s{i}, '\\200', 1, true))\n"));
            }
            let Some(c) = compile(case, ver, &s, 32, false) else { return };
            source_case(case, &c, 50, &Plan::new(ver, Focus::Constants));
        });
    }
}

/// Strings with more bytes than a `size_t` of 32 bits is able to count.
fn giant(case: &mut Case) {
    let available = std::fs::read_to_string("/proc/meminfo")
        .unwrap_or_default()
        .lines()
        .find_map(|l| l.strip_prefix("MemAvailable:")?.trim().strip_suffix(" kB")?.trim().parse::<u64>().ok())
        .unwrap_or(0);
    if available < 24 << 20 {
        return case.count("giant strings skipped, not enough memory");
    }
    // The first case doesn't fit, some of the others do.
    let n = match case.index % 4 {
        0 => (1usize << 32) + case.rng.us(64),
        1 => (1 << 31) + case.rng.us(64),
        2 => (1 << 31) - 1 - case.rng.us(2),
        _ => (1 << 31) - 1 + case.rng.us(4),
    };
    let ver = *case.rng.pick(&[Ver::L50, Ver::L51]);
    let mut input = Enc::random(&mut case.rng, ver, 32);
    input.fmt.size_t_width = BitWidth::Bit64;
    let mut output = Enc::random(&mut case.rng, Ver::L51, 50);
    output.fmt.size_t_width = if case.index < 4 { BitWidth::Bit32 } else { BitWidth::Bit64 };
    let other = other_for(&mut case.rng, ver);
    let mut p = Proto { maxstack: 2, ..Proto::default() };
    p.code.push(Ins::abc(opnum(ver, "RETURN"), 0, 1, 0));
    let constant = case.rng.chance(50);
    match constant {
        true => p.consts.push(K::Str(b"@\0".to_vec())),
        false => p.source = b"@\0".to_vec(),
    }
    let small = encode(&input, &p).unwrap();
    let Some(at) = small.windows(10).position(|w| w[8..] == *b"@\0") else { return case.error("no string in the chunk") };
    // Zeros that aren't touched cost nothing.
    let mut data = vec![0; small.len() + n - 2];
    data[..at + 9].copy_from_slice(&small[..at + 9]);
    patch(&input, &mut data, at, n as u64, BitWidth::Bit64);
    data[at + 8 + n..].copy_from_slice(&small[at + 10..]);
    case.note("input", format!("{input:?}"));
    case.note("string", format!("{n} bytes, {}", if constant { "constant" } else { "source" }));
    let s = settings(&input, &output, &other);
    case.evaluated();
    let result = std::panic::catch_unwind(|| lunify::unify(&data, &output.fmt, &s));
    let fits = output.fmt.size_t_width == BitWidth::Bit64 || n <= i32::MAX as usize;
    match result {
        Ok(Err(LunifyError::IntegerOverflow)) if !fits => case.count("giant strings rejected"),
        Ok(Ok(o)) => {
            drop(data);
            match decode(&output, &o) {
                Ok(q) if q.code.len() == p.code.len() => {
                    let text = if constant { q.consts.first().map_or(&b""[..], |k| if let K::Str(t) = k { t } else { b"" }) } else { &q.source };
                    match text.len() == n && text[0] == b'@' && text[1..].iter().all(|b| *b == 0) {
                        true => case.count("giant strings preserved"),
                        false => return case.violation(format!("a string of {n} bytes has {} bytes afterwards", text.len())),
                    }
                }
                Ok(_) => return case.violation(format!("a string of {n} bytes changed the code")),
                Err(m) => return case.violation(format!("a string of {n} bytes makes the output malformed: {m}")),
            }
        }
        Ok(Err(e)) => return case.violation(format!("a string of {n} bytes resulted in {e:?}")),
        Err(_) => return case.violation(format!("a string of {n} bytes resulted in a panic")),
    }
    case.nontrivial(n as u64);
}

fn fill(r: &mut Rng, p: &mut Proto, ver: Ver, depth: usize) {
    p.source = cgen::name(r);
    for _ in 0..r.us(8) {
        p.consts.push(K::Str(cgen::name(r)));
    }
    if r.chance(3) {
        let n = *r.pick(&[65_534, 65_535, 65_536, 100_000]);
        p.consts.push(K::Str(r.bytes(n)));
    }
    if r.chance(4) {
        // Long names of everything.
        let n = match r.below(3) {
            0 => 300 + r.us(4000),
            1 => *r.pick(&[511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8192, 16_383, 32_767, 65_535]) + r.us(3),
            _ => 10_000 + r.us(60_000),
        };
        let mut text = r.bytes(n);
        text.push(0);
        match r.below(4) {
            0 => p.source = text,
            1 => p.locals.push((text, 0, 1)),
            2 => p.upvals.push(text),
            _ => p.consts.push(K::Str(text)),
        }
    }
    for _ in 0..r.us(5) {
        p.locals.push((cgen::name(r), 0, 1));
    }
    let upvals = if r.chance(2) { 30 + r.us(226) } else { r.us(5) };
    while p.upvals.len() < upvals {
        p.upvals.push(cgen::name(r));
    }
    p.nups = p.upvals.len() as u8;
    if depth > 0 {
        for _ in 0..r.us(3) {
            let mut q = Proto { maxstack: 2, ..Proto::default() };
            q.code.push(Ins::abc(opnum(ver, "RETURN"), 0, 1, 0));
            fill(r, &mut q, ver, depth - 1);
            p.protos.push(q);
        }
    }
}

fn all_strings(p: &Proto) -> Vec<(String, Vec<u8>)> {
    let mut v = Vec::new();
    p.walk(&mut |p| {
        v.push(("source".to_string(), p.source.clone()));
        v.extend(p.consts.iter().filter_map(|k| match k {
            K::Str(s) => Some(("constant".into(), s.clone())),
            _ => None,
        }));
        v.extend(p.locals.iter().map(|l| ("local".into(), l.0.clone())));
        v.extend(p.upvals.iter().map(|u| ("upvalue".into(), u.clone())));
    });
    v
}

// ---------------------------------------------------------------- C06

#[derive(Debug, PartialEq)]
enum Want {
    /// Exactly these bits.
    Bits(u64),
    Nan,
    Overflow,
    Fraction,
    EitherError,
}

const NUMBERS: [(BitWidth, bool); 4] = [(BitWidth::Bit32, false), (BitWidth::Bit64, false), (BitWidth::Bit32, true), (BitWidth::Bit64, true)];

/// What a number has to be converted to, from the definition of the formats.
fn want(bits: u64, from: (BitWidth, bool), to: (BitWidth, bool)) -> Want {
    enum V {
        F(f64),
        I(i64),
    }
    let v = match from {
        (BitWidth::Bit32, false) => V::F(f32::from_bits(bits as u32) as f64),
        (BitWidth::Bit64, false) => V::F(f64::from_bits(bits)),
        (BitWidth::Bit32, true) => V::I(bits as u32 as i32 as i64),
        (BitWidth::Bit64, true) => V::I(bits as i64),
    };
    match (v, to) {
        (V::F(v), (_, false)) if v.is_nan() => Want::Nan,
        (V::F(v), (BitWidth::Bit64, false)) => Want::Bits(v.to_bits()),
        // The nearest one, like a compiler for that format would do.
        (V::F(v), (BitWidth::Bit32, false)) => Want::Bits((v as f32).to_bits() as u64),
        (V::F(v), (w, true)) => {
            let (low, high) = match w {
                BitWidth::Bit32 => (-2147483648.0, 2147483648.0),
                BitWidth::Bit64 => (-9223372036854775808.0, 9223372036854775808.0),
            };
            match v {
                v if v.is_nan() => Want::EitherError,
                v if v.is_infinite() => Want::Overflow,
                v if v.fract() != 0.0 && (v < low || v >= high) => Want::EitherError,
                v if v.fract() != 0.0 => Want::Fraction,
                v if v < low || v >= high => Want::Overflow,
                v => Want::Bits(match w {
                    BitWidth::Bit32 => v as i32 as u32 as u64,
                    BitWidth::Bit64 => v as i64 as u64,
                }),
            }
        }
        (V::I(v), (BitWidth::Bit32, true)) => i32::try_from(v).map_or(Want::Overflow, |v| Want::Bits(v as u32 as u64)),
        (V::I(v), (BitWidth::Bit64, true)) => Want::Bits(v as u64),
        (V::I(v), (BitWidth::Bit64, false)) => match v as f64 as i128 == v as i128 {
            true => Want::Bits((v as f64).to_bits()),
            false => Want::Overflow,
        },
        (V::I(v), (BitWidth::Bit32, false)) => match v as f32 as i128 == v as i128 {
            true => Want::Bits((v as f32).to_bits() as u64),
            false => Want::Overflow,
        },
    }
}

fn number_bits(r: &mut Rng, from: (BitWidth, bool)) -> u64 {
    let near = |r: &mut Rng| {
        let p = 1i128 << r.below(64);
        let v = p + r.range(-3, 3) as i128;
        if r.chance(50) {
            -v
        } else {
            v
        }
    };
    match from {
        (BitWidth::Bit32, false) => match r.below(3) {
            0 => r.next() as u32 as u64,
            1 => (near(r) as f32).to_bits() as u64,
            _ => (cgen::float(r) as f32).to_bits() as u64,
        },
        (BitWidth::Bit64, false) => match r.below(4) {
            0 => r.next(),
            1 => (near(r) as f64).to_bits(),
            2 => (near(r) as f64 + 0.5).to_bits(),
            _ => cgen::float(r).to_bits(),
        },
        (BitWidth::Bit32, true) => match r.below(3) {
            0 => r.next() as u32 as u64,
            1 => near(r) as i32 as u32 as u64,
            _ => r.range(-100, 100) as i32 as u32 as u64,
        },
        (BitWidth::Bit64, true) => match r.below(3) {
            0 => r.next(),
            1 => near(r) as i64 as u64,
            _ => r.range(-100, 100) as u64,
        },
    }
}

pub fn numbers(cx: &Ctx) {
    cx.rule(
        "A number constant is converted between all pairs of number formats (32/64 bit, float/integer, both byte orders, both versions). The bits in
        the output have to be the ones of the same value (the nearest one for 64 to 32 bit floats), or the conversion has to
        fail with IntegerOverflow or FloatPrecisionLoss, as an independent definition of the formats says. A case is non-trivial if the format
        of the number changed",
    );
    cx.assume("the sign of zero and the payload of NaN are not part of the value when converting to integers and between floats respectively");
    cx.run("pairs", cx.scale(500_000), |case| {
        let i = case.index as usize;
        let (from, to) = (NUMBERS[i % 4], NUMBERS[i / 4 % 4]);
        let ver = [Ver::L50, Ver::L51][i / 16 % 2];
        let mut input = Enc::random(&mut case.rng, ver, 32);
        let mut output = Enc::random(&mut case.rng, Ver::L51, 50);
        (input.fmt.number_width, input.fmt.is_number_integral) = from;
        (output.fmt.number_width, output.fmt.is_number_integral) = to;
        output.sig = "\x1bOut";
        let n = match case.rng.chance(70) {
            true => 1,
            false => 1 + case.rng.us(4),
        };
        let bits: Vec<u64> = (0..n).map(|_| number_bits(&mut case.rng, from)).collect();
        let mut p = Proto { maxstack: 2, ..Proto::default() };
        p.code.push(Ins::abc(opnum(ver, "RETURN"), 0, 1, 0));
        for _ in 0..n {
            p.consts.push(K::Num(Num::I(0)));
        }
        let (mut bytes, marks) = encode_marked(&input, &p).unwrap();
        let constants: Vec<usize> = marks.iter().filter(|m| m.1 == Mark::ConstantType).map(|m| m.0).collect();
        for (at, b) in constants.iter().zip(&bits) {
            patch(&input, &mut bytes, at + 1, *b, from.0);
        }
        let other = other_for(&mut case.rng, ver);
        describe(case, &input, &output, &bytes);
        let wants: Vec<Want> = bits.iter().map(|b| want(*b, from, to)).collect();
        let bad = wants.iter().find(|w| matches!(w, Want::Overflow | Want::Fraction | Want::EitherError));
        let name = |f: (BitWidth, bool)| format!("{}{}", if f.1 { "i" } else { "f" }, if f.0 == BitWidth::Bit32 { 32 } else { 64 });
        match (case.unify(&bytes, &output.fmt, &settings(&input, &output, &other)), bad) {
            (Out::Ok(b), None) => {
                if decode(&output, &b).is_err() {
                    return case.violation("output is not well-formed");
                }
                // Same structure, so the constants are at the same place of a chunk with zeros.
                let q = decode(&output, &b).unwrap();
                let (again, marks) = encode_marked(&output, &q).unwrap();
                let constants: Vec<usize> = marks.iter().filter(|m| m.1 == Mark::ConstantType).map(|m| m.0).collect();
                if again.len() != b.len() || constants.len() != n {
                    return case.violation("the output has other constants");
                }
                for ((at, want), from_bits) in constants.iter().zip(&wants).zip(&bits) {
                    let w = if to.0 == BitWidth::Bit32 { 4 } else { 8 };
                    let mut raw = b[at + 1..at + 1 + w].to_vec();
                    if output.fmt.endianness == Endianness::Big {
                        raw.reverse();
                    }
                    raw.resize(8, 0);
                    let got = u64::from_le_bytes(raw.try_into().unwrap());
                    let fine = match want {
                        Want::Bits(w) => got == *w,
                        _ => match to.0 {
                            BitWidth::Bit32 => f32::from_bits(got as u32).is_nan(),
                            BitWidth::Bit64 => f64::from_bits(got).is_nan(),
                        },
                    };
                    if !fine {
                        return case.violation(format!("{} {from_bits:#x} became {} {got:#x}, expected {want:x?}", name(from), name(to)));
                    }
                    case.count(&format!("{} to {}: same value", name(from), name(to)));
                }
            }
            (Out::Err(e), Some(_)) => {
                // Any of the numbers might be the reason.
                let fine = wants.iter().any(|w| match w {
                    Want::Overflow => e == LunifyError::IntegerOverflow,
                    Want::Fraction => e == LunifyError::FloatPrecisionLoss,
                    Want::EitherError => matches!(e, LunifyError::IntegerOverflow | LunifyError::FloatPrecisionLoss),
                    _ => false,
                });
                if !fine {
                    return case.violation(format!("{} {bits:x?} to {} resulted in {e:?}, expected {wants:x?}", name(from), name(to)));
                }
                case.count(&format!("{} to {}: {e:?}", name(from), name(to)));
            }
            (out, _) => {
                let out = match out {
                    Out::Ok(b) => format!("Ok({})", hex(&b)),
                    o => o.show(),
                };
                return case.violation(format!("{} {bits:x?} to {} resulted in {out}, expected {wants:x?}", name(from), name(to)));
            }
        }
        if from != to {
            case.nontrivial(hash_bytes(&bytes) ^ i as u64 % 32);
            case.sample(|| json!({"from": name(from), "to": name(to), "bits": format!("{bits:x?}"), "expected": format!("{wants:x?}")}));
        }
    });
    for (name, ver) in [("executed-50", Ver::L50), ("executed-51", Ver::L51)] {
        cx.run(name, cx.scale(2000), |case| {
            let r = &mut case.rng;
            let mut s = String::new();
            for _ in 0..1 + r.us(30) {
                let v = cgen::float(r);
                if v.is_finite() {
                    s.push_str(&format!("T({v:e}, {v:e} + 1, -{:e}, 1 / {v:e})\n", v.abs()));
                }
            }
            let Some(c) = compile(case, ver, &s, 32, false) else { return };
            source_case(case, &c, 50, &Plan::new(ver, Focus::Constants));
        });
    }
}

// ---------------------------------------------------------------- C07

pub fn identity(cx: &Ctx) {
    cx.rule(
        "Section same: Lua 5.1 input that is already in the requested format, layout, signature and limits comes back byte for byte. Section
        twice: converting an output again with its own format as input format returns the same bytes. Section different: if anything differs
        (also if only the version, the signature or a single field of the settings does), the output has the requested header and version 5.1 and is
        decodable. A case is non-trivial if a conversion was observed",
    );
    cx.run("same", cx.scale(60_000), |case| {
        let fpf = random_fpf(&mut case.rng, 50);
        let mut e = Enc::random(&mut case.rng, Ver::L51, fpf);
        e.fmt.number_width = width(&mut case.rng);
        e.fmt.is_number_integral = case.rng.chance(30);
        e.stack_limit = 250;
        let Some(p) = any_proto(case, Ver::L51, e.lay, false) else { return };
        let Ok(bytes) = encode(&e, &p) else {
            case.count("chunks that don't fit their encoding");
            return;
        };
        let mut other = other_for(&mut case.rng, Ver::L51);
        if case.rng.chance(50) {
            other.sig = random_signature(&mut case.rng);
            if e.sig != other.sig && e.sig.starts_with(other.sig) {
                other.sig = e.sig;
            }
        }
        describe(case, &e, &e, &bytes);
        match case.unify(&bytes, &e.fmt, &settings(&e, &e, &other)) {
            Out::Ok(b) if b == bytes => {
                case.count("unchanged inputs");
                case.nontrivial(hash_bytes(&bytes));
                case.sample(|| json!({"format": format!("{:?}", e.fmt), "bytes": bytes.len()}));
            }
            Out::Ok(b) => {
                case.note("output", hex(&b));
                case.violation("the input was already in the requested format, but the output is different");
            }
            out => case.violation(format!("the input was already in the requested format, but the result is {}", out.show())),
        }
    });
    for (name, ver) in [("twice-50", Ver::L50), ("twice-51", Ver::L51)] {
        cx.run(name, cx.scale(30_000), |case| {
            let fpf = random_fpf(&mut case.rng, 32);
            let input = Enc::random(&mut case.rng, ver, fpf);
            let Some(p) = any_proto(case, ver, Lay::L51, false) else { return };
            let Ok(bytes) = encode(&input, &p) else { return };
            let out_fpf = random_fpf(&mut case.rng, 50);
            let mut output = Enc::random(&mut case.rng, Ver::L51, out_fpf);
            if case.rng.chance(50) {
                random_number_type(&mut case.rng, &mut output.fmt, &p);
            }
            // Something that is already in the requested format isn't normalized.
            if input.sig == output.sig {
                output.sig = "\x1bOnce";
            }
            let other = other_for(&mut case.rng, ver);
            describe(case, &input, &output, &bytes);
            let Out::Ok(once) = case.unify(&bytes, &output.fmt, &settings(&input, &output, &other)) else {
                case.count("rejected");
                return;
            };
            // As what it is now.
            let mut again = Enc::native50(32);
            again.sig = "never";
            match case.unify(&once, &output.fmt, &settings(&output, &output, &again)) {
                Out::Ok(twice) if twice == once => {
                    case.count("outputs that are stable");
                    case.nontrivial(hash_bytes(&once));
                }
                Out::Ok(_) => case.violation("converting the output again changed it"),
                out => case.violation(format!("converting the output again resulted in {}", out.show())),
            }
            // Through the decoder instead of the shortcut.
            let mut renamed = output.clone();
            renamed.sig = "\x1bOther";
            match case.unify(&once, &output.fmt, &settings(&output, &renamed, &again)) {
                Out::Ok(b) => {
                    let (x, y) = (&once[output.sig.len()..], b.get(renamed.sig.len()..).unwrap_or(&[]));
                    if !b.starts_with(renamed.sig.as_bytes()) {
                        case.violation("the output doesn't start with the requested signature");
                    } else if x != y {
                        case.violation("converting only the signature of an output changed more than that");
                    } else {
                        case.count("outputs that are canonical");
                    }
                }
                out => case.violation(format!("converting the signature of an output resulted in {}", out.show())),
            }
        });
    }
    cx.run("different", cx.scale(60_000), |case| {
        // Exactly one thing is different.
        let mut input = Enc::random(&mut case.rng, Ver::L51, 50);
        let Some(p) = any_proto(case, Ver::L51, Lay::L51, false) else { return };
        if input.sig == "q" {
            input.sig = "\x1bLua";
        }
        let mut output = input.clone();
        let what = case.rng.below(9);
        match what {
            0 => output.fmt.format = output.fmt.format.wrapping_add(1),
            1 => {
                output.fmt.endianness = match output.fmt.endianness {
                    Endianness::Big => Endianness::Little,
                    Endianness::Little => Endianness::Big,
                }
            }
            2 => output.fmt.integer_width = flip(output.fmt.integer_width),
            3 => output.fmt.size_t_width = flip(output.fmt.size_t_width),
            4 => {
                output.fmt.instruction_width = flip(output.fmt.instruction_width);
                if output.fmt.instruction_width == BitWidth::Bit32 {
                    (input.lay, output.lay) = (Lay::L51, Lay::L51);
                }
            }
            5 => output.sig = if input.sig == "\x1bNew" { "\x1bLua" } else { "\x1bNew" },
            6 => {
                output.lay = match output.lay == Lay::L50 {
                    true => Lay::L51,
                    false => Lay::L50,
                }
            }
            7 => {
                input.fpf = random_fpf(&mut case.rng, 50);
                while output.fpf == input.fpf {
                    output.fpf = related_fpf(&mut case.rng, input.fpf);
                }
            }
            // 5.0 is never passed through, even though all fields match.
            _ => input.ver = Ver::L50,
        }
        let p = match what {
            8 => match any_proto(case, Ver::L50, Lay::L51, false) {
                Some(p) => p,
                None => return,
            },
            _ => p,
        };
        if what == 8 {
            input.fmt.format = 0;
            output.fmt.format = 0;
        }
        let Ok(bytes) = encode(&input, &p) else { return };
        let mut other = other_for(&mut case.rng, input.ver);
        if what == 8 {
            // Same settings for everything.
            other = output.clone();
        }
        describe(case, &input, &output, &bytes);
        match case.unify(&bytes, &output.fmt, &settings(&input, &output, &other)) {
            Out::Ok(b) => match decode(&output, &b) {
                Ok(q) => {
                    case.count(&format!("difference {what} converted"));
                    case.nontrivial(hash_bytes(&bytes) ^ what);
                    if what == 7 && b == bytes {
                        // The first value of every page but the first one has another index.
                        let set_list = opnum(Ver::L51, "SETLIST");
                        let mut pages = false;
                        p.walk(&mut |p| pages |= p.code.iter().any(|i| i.op == set_list && i.c > 1));
                        if pages {
                            case.violation("tables are filled in another way, but nothing was changed");
                        }
                    }
                    if what < 7 {
                        if let Some(d) = diff(Ver::L51, &p, &q, "main") {
                            case.violation(d);
                        }
                    }
                }
                Err(m) => {
                    case.note("output", hex(&b));
                    case.violation(format!("difference {what}: the output is not what was requested: {m}"))
                }
            },
            Out::Err(_) => case.count("rejected"),
            out => case.violation(out.show()),
        }
    });
}

fn flip(w: BitWidth) -> BitWidth {
    match w {
        BitWidth::Bit32 => BitWidth::Bit64,
        BitWidth::Bit64 => BitWidth::Bit32,
    }
}

// ---------------------------------------------------------------- C08

pub fn paths(cx: &Ctx) {
    cx.rule(
        "The same program has to result in the same bytes, no matter how it was encoded (section encodings: two random formats, layouts and
        signatures of the input) and no matter which intermediate formats it went through (section chains: up to four conversions against a direct
        one; section back: to another format and back to the original bytes). A case is non-trivial if the encodings differ",
    );
    cx.assume("the intermediate formats are able to hold the numbers and operands of the program, and have the same LFIELDS_PER_FLUSH");
    for (name, ver) in [("encodings-50", Ver::L50), ("encodings-51", Ver::L51)] {
        cx.run(name, cx.scale(40_000), |case| {
            let fpf = random_fpf(&mut case.rng, 32);
            let Some(p) = any_proto(case, ver, Lay::L51, false) else { return };
            let (mut a, mut b) = (Enc::random(&mut case.rng, ver, fpf), Enc::random(&mut case.rng, ver, fpf));
            random_number_type(&mut case.rng, &mut a.fmt, &p);
            random_number_type(&mut case.rng, &mut b.fmt, &p);
            if ver == Ver::L50 && case.rng.chance(50) {
                // Which numbers stand for constants depends on the limit of the stack.
                b.stack_limit = 200 + case.rng.below(56);
            }
            let (Ok(x), Ok(y)) = (encode(&a, &p), encode(&b, &p)) else {
                case.count("chunks that don't fit their encoding");
                return;
            };
            let out_fpf = random_fpf(&mut case.rng, 50);
            let mut output = Enc::random(&mut case.rng, Ver::L51, out_fpf);
            output.sig = "\x1bOut";
            let other = other_for(&mut case.rng, ver);
            describe(case, &a, &output, &x);
            case.note("second input", hex(&y));
            case.note("second configuration", format!("{b:?}"));
            let first = case.unify(&x, &output.fmt, &settings(&a, &output, &other));
            let second = case.unify(&y, &output.fmt, &settings(&b, &output, &other));
            match (first, second) {
                (Out::Ok(f), Out::Ok(s)) if f == s => {
                    case.count("same output for two encodings");
                    if x != y {
                        case.nontrivial(hash_bytes(&x) ^ hash_bytes(&y).rotate_left(7));
                        case.sample(|| json!({"first": format!("{:?} {:?}", a.fmt, a.lay.spec), "second": format!("{:?} {:?}", b.fmt, b.lay.spec), "output": f.len()}));
                    }
                }
                (Out::Ok(f), Out::Ok(s)) => {
                    let d = match (decode(&output, &f), decode(&output, &s)) {
                        (Ok(f), Ok(s)) => diff(Ver::L51, &f, &s, "main"),
                        _ => None,
                    };
                    case.violation(format!("two encodings of a program resulted in different outputs: {}", d.unwrap_or_default()));
                }
                (Out::Err(f), Out::Err(s)) if f == s => case.count("same error for two encodings"),
                (f, s) => case.violation(format!("two encodings of a program resulted in {} and {}", f.show(), s.show())),
            }
        });
    }
    for (name, ver) in [("chains-50", Ver::L50), ("chains-51", Ver::L51)] {
        cx.run(name, cx.scale(30_000), |case| {
            let fpf = random_fpf(&mut case.rng, 32);
            let out_fpf = random_fpf(&mut case.rng, 50);
            let input = Enc::random(&mut case.rng, ver, fpf);
            let Some(p) = any_proto(case, ver, Lay::L51, false) else { return };
            let Ok(x) = encode(&input, &p) else { return };
            let other = other_for(&mut case.rng, ver);
            let mut last = Enc::random(&mut case.rng, Ver::L51, out_fpf);
            random_number_type(&mut case.rng, &mut last.fmt, &p);
            // Something that is already in the requested format isn't normalized.
            last.sig = "\x1bZLast";
            describe(case, &input, &last, &x);
            let direct = case.unify(&x, &last.fmt, &settings(&input, &last, &other));
            let mut at = (input.clone(), x.clone());
            let n = 1 + case.rng.us(3);
            for i in 0..=n {
                let to = match i == n {
                    true => last.clone(),
                    false => {
                        let mut e = Enc::random(&mut case.rng, Ver::L51, out_fpf);
                        random_number_type(&mut case.rng, &mut e.fmt, &p);
                        e
                    }
                };
                let mut other = other_for(&mut case.rng, at.0.ver);
                if at.0.ver == Ver::L51 {
                    other.sig = at.0.sig;
                }
                match case.unify(&at.1, &to.fmt, &settings(&at.0, &to, &other)) {
                    Out::Ok(b) => at = (to, b),
                    // Operands might not fit one of the layouts.
                    Out::Err(LunifyError::ValueTooBigForOperand | LunifyError::StackTooLarge(_) | LunifyError::UnexpectedForwardJump) => {
                        case.count("chains that don't fit");
                        return;
                    }
                    out => return case.violation(format!("step {i} resulted in {}", out.show())),
                }
            }
            match direct {
                Out::Ok(d) if d == at.1 => {
                    case.count("chains with the same result");
                    case.nontrivial(hash_bytes(&x) ^ hash_bytes(&d).rotate_left(9));
                }
                Out::Ok(_) => case.violation(format!("{n} intermediate formats changed the result")),
                out => case.violation(format!("direct conversion resulted in {}, but {n} intermediate formats worked", out.show())),
            }
        });
    }
    cx.run("back", cx.scale(60_000), |case| {
        let fpf = random_fpf(&mut case.rng, 50);
        let mut a = Enc::random(&mut case.rng, Ver::L51, fpf);
        let mut b = Enc::random(&mut case.rng, Ver::L51, fpf);
        let Some(p) = any_proto(case, Ver::L51, Lay::L51, false) else { return };
        random_number_type(&mut case.rng, &mut a.fmt, &p);
        random_number_type(&mut case.rng, &mut b.fmt, &p);
        let Ok(mut x) = encode(&a, &p) else { return };
        // What a conversion doesn't keep: hints and unused operands.
        let none = Enc { sig: "never", ..Enc::native50(32) };
        let mut c = a.clone();
        c.sig = "\x1bCanonical";
        let Out::Ok(canonical) = case.unify(&x, &c.fmt, &settings(&a, &c, &none)) else { return };
        x = canonical;
        describe(case, &c, &b, &x);
        let there = match case.unify(&x, &b.fmt, &settings(&c, &b, &none)) {
            Out::Ok(t) => t,
            Out::Err(LunifyError::ValueTooBigForOperand) => return case.count("chains that don't fit"),
            out => return case.violation(format!("conversion resulted in {}", out.show())),
        };
        match case.unify(&there, &c.fmt, &settings(&b, &c, &none)) {
            Out::Ok(back) if back == x => {
                case.count("round trips");
                case.nontrivial(hash_bytes(&x) ^ hash_bytes(&there).rotate_left(9));
            }
            Out::Ok(_) => case.violation("the way back resulted in another program"),
            out => case.violation(format!("the way back resulted in {}", out.show())),
        }
    });
}

// ---------------------------------------------------------------- C15

/// Opcodes of Lua 5.0 that are converted one to one.
const SAME: [&str; 26] = [
    "MOVE", "LOADK", "LOADBOOL", "LOADNIL", "GETUPVAL", "GETGLOBAL", "GETTABLE", "SETGLOBAL", "SETUPVAL", "SETTABLE", "SELF", "ADD", "SUB", "MUL",
    "DIV", "POW", "UNM", "NOT", "CONCAT", "EQ", "LT", "LE", "CALL", "TAILCALL", "RETURN", "CLOSE",
];

pub fn layouts(cx: &Ctx) {
    cx.rule(
        "Single instructions with random and extreme operands are converted between random and extreme valid layouts and instruction widths. An
        independent encoder decides if all operands fit: if they do, the output has to have the same operands (constants stay constants, registers
        stay registers), otherwise the result is ValueTooBigForOperand. The same goes for all instructions of the whole programs in sections programs-*.
        A case is non-trivial if the layout changed",
    );
    cx.run("lua51", cx.scale(300_000), |case| {
        let op = case.rng.below(OPS51.len() as u64) as u32;
        one_instruction(case, Ver::L51, op, op);
    });
    cx.run("lua50", cx.scale(200_000), |case| {
        let name = *case.rng.pick(&SAME);
        one_instruction(case, Ver::L50, opnum(Ver::L50, name), opnum(Ver::L51, name));
    });
    cx.run("programs-51", cx.scale(30_000), |case| {
        let (input, mut output) = (extreme(&mut case.rng, Ver::L51), extreme(&mut case.rng, Ver::L51));
        output.fpf = input.fpf;
        let lay = match case.rng.chance(50) {
            true => Lay::L51,
            false => input.lay,
        };
        let Some(p) = any_proto(case, Ver::L51, lay, false) else { return };
        preserve_to(case, &p, input, output);
    });
    cx.run("programs-50", cx.scale(30_000), mapped);
    cx.run("boundaries", cx.scale(100_000), |case| {
        // The biggest value of an operand and the one after that.
        let output = extreme(&mut case.rng, Ver::L51);
        let mut input = extreme(&mut case.rng, Ver::L51);
        input.fmt.instruction_width = BitWidth::Bit64;
        let op = case.rng.below(OPS51.len() as u64) as u32;
        let (_, kind, kb, kc) = OPS51[op as usize];
        let around = |rng: &mut Rng, size: u32| (1u64 << size).wrapping_add(rng.below(3)).wrapping_sub(2);
        let r = &mut case.rng;
        let mut i = match kind {
            Kind::Abc => Ins::abc(op, 0, 0, 0),
            _ => Ins::abx(op, 0, 0),
        };
        match (r.below(3), kind) {
            (0, _) => i.a = around(r, output.lay.size('A')),
            (1, Kind::Abc) if kb != Arg::N => i.b = around(r, output.lay.size('B') - matches!(kb, Arg::K | Arg::T) as u32) | if kb == Arg::K && r.chance(50) { KBIT } else { 0 },
            (_, Kind::Abc) if kc != Arg::N => i.c = around(r, output.lay.size(['B', 'C'][(kc != Arg::K) as usize]) - (kc == Arg::K) as u32) | if kc == Arg::K && r.chance(50) { KBIT } else { 0 },
            (_, Kind::Abx) => i.bx = around(r, output.lay.bx().1) as i64,
            (_, Kind::Asbx) => i.bx = (around(r, output.lay.bx().1 - 1) as i64 + 1) * if r.chance(50) { -1 } else { 1 },
            _ => i.a = around(r, output.lay.size('A')),
        }
        if OPS51[op as usize].0 == "SETLIST" && i.c == 0 {
            i.c = 1;
        }
        convert_one(case, &input, &output, i, op);
    });
}

/// Every instruction has a counterpart, so the function stays as it is.
fn mapped(case: &mut Case) {
    let mut input = extreme(&mut case.rng, Ver::L50);
    if case.rng.chance(40) {
        input.lay = Lay::L50;
    }
    let mut output = extreme(&mut case.rng, Ver::L51);
    output.fpf = random_fpf(&mut case.rng, 50);
    let lay = match case.rng.chance(50) {
        true => Lay::L51,
        false => input.lay,
    };
    let Some(mut p) = any_proto(case, Ver::L50, lay, false) else { return };
    let same: Vec<u32> = SAME.iter().chain(&["JMP", "CLOSURE"]).map(|name| opnum(Ver::L50, name)).collect();
    p.walk_mut(&mut |p| {
        p.vararg = 0;
        p.last_line = p.line;
        p.code.retain(|i| same.contains(&i.op));
        if !p.lines.is_empty() {
            p.lines.resize(p.code.len(), 7);
        }
    });
    random_number_type(&mut case.rng, &mut input.fmt, &p);
    let Ok(bytes) = encode(&input, &p) else {
        case.count("programs that don't fit their encoding");
        return;
    };
    let p = match decode(&input, &bytes) {
        Ok(p) => p,
        Err(m) => return case.error(m),
    };
    random_number_type(&mut case.rng, &mut output.fmt, &p);
    if case.rng.chance(15) {
        output.stack_limit = random_limit(&mut case.rng);
    }
    let mut expected = p.clone();
    expected.walk_mut(&mut |p| {
        p.last_line = p.line;
        p.code.iter_mut().for_each(|i| i.op = opnum(Ver::L51, OPS50[i.op as usize].0));
    });
    let mut other = Enc::native51(random_fpf(&mut case.rng, 50));
    other.stack_limit = random_limit(&mut case.rng);
    let s = settings(&input, &output, &other);
    describe(case, &input, &output, &bytes);
    match (case.unify(&bytes, &output.fmt, &s), encode(&output, &without_hints(&expected))) {
        (Out::Ok(b), Ok(_)) => {
            let q = match decode(&output, &b) {
                Ok(q) => q,
                Err(m) => return case.violation(format!("output is not well-formed: {m}")),
            };
            // There might be more registers than before, but never less.
            fn stack(x: &mut Proto, y: &Proto) {
                x.maxstack = x.maxstack.max(y.maxstack);
                x.protos.iter_mut().zip(&y.protos).for_each(|(x, y)| stack(x, y));
            }
            stack(&mut expected, &q);
            if let Some(d) = diff(Ver::L51, &expected, &q, "main") {
                return case.violation(d);
            }
            case.count("programs with the same operands");
            case.add("instructions compared", p.total_code() as u64);
            if input.lay != output.lay {
                case.nontrivial(hash_bytes(&b) ^ hash_bytes(&bytes));
            }
        }
        (Out::Err(LunifyError::StackTooLarge(n)), _) if n > output.stack_limit.min(255) => case.count("rejected with StackTooLarge"),
        (Out::Err(LunifyError::IntegerOverflow | LunifyError::ValueTooBigForOperand | LunifyError::FloatPrecisionLoss), Err(_)) => {
            case.count("programs that don't fit the output")
        }
        (out, fits) => case.violation(format!("{:?}, but the result is {}", fits.map(|_| "the program fits"), out.show())),
    }
}

/// A valid layout with any sizes.
pub(crate) fn extreme(rng: &mut Rng, ver: Ver) -> Enc {
    let mut e = Enc::random(rng, ver, 50);
    loop {
        let size = |rng: &mut Rng, low: u32| match rng.below(4) {
            0 => low,
            1 => 31,
            _ => low + rng.below((32 - low) as u64) as u32,
        };
        let mut sizes = [size(rng, 6), size(rng, 7), size(rng, 8), size(rng, 8)];
        if rng.chance(30) {
            sizes[3] = sizes[2];
        }
        if sizes.iter().sum::<u32>() <= 64 {
            e.lay = Lay::arrange(rng, sizes);
            if e.lay.total() > 32 && rng.chance(90) {
                e.fmt.instruction_width = BitWidth::Bit64;
            }
            return e;
        }
    }
}

fn one_instruction(case: &mut Case, ver: Ver, op: u32, target: u32) {
    let (input, output) = (extreme(&mut case.rng, ver), extreme(&mut case.rng, Ver::L51));
    let lay = match case.rng.chance(50) {
        true => input.lay,
        false => output.lay,
    };
    let opts = cgen::Opts { ver, lay, max_code: 1, depth: 0, hostile: false };
    let mut i = cgen::instruction(&mut case.rng, &opts, op);
    if ops(ver)[op as usize].0 == "SETLIST" && i.c == 0 {
        i.c = 1;
    }
    convert_one(case, &input, &output, i, target);
}

fn convert_one(case: &mut Case, input: &Enc, output: &Enc, i: Ins, target: u32) {
    let mut p = Proto { maxstack: 200, ..Proto::default() };
    p.code.push(i.clone());
    let mut output = output.clone();
    // So that the stack has no limit.
    output.fpf = input.fpf;
    output.sig = "\x1bOut";
    let limited = case.rng.chance(10);
    if limited {
        output.stack_limit = random_limit(&mut case.rng);
    }
    let other = if input.ver == Ver::L50 { Enc::native51(50) } else { Enc::native50(32) };
    let Ok(bytes) = encode(input, &p) else {
        case.count("instructions that don't fit the input");
        return;
    };
    let name = ops(input.ver)[i.op as usize].0;
    let expected = Ins { op: target, ..i.clone() };
    let fits = {
        let mut q = p.clone();
        q.code[0] = expected.clone();
        // Only operands that mean something have to fit.
        encode(&output, &without_hints(&q))
    };
    describe(case, input, &output, &bytes);
    case.note("instruction", show_ins(input.ver, &i));
    match (case.unify(&bytes, &output.fmt, &settings(input, &output, &other)), fits) {
        (Out::Ok(b), Ok(_)) => {
            let q = match decode(&output, &b) {
                Ok(q) => q,
                Err(m) => return case.violation(format!("output is not well-formed: {m}")),
            };
            if q.code.len() != 1 || !same_ins(Ver::L51, &expected, &q.code[0]) {
                let got: Vec<String> = q.code.iter().map(|i| show_ins(Ver::L51, i)).collect();
                return case.violation(format!("{} became {got:?}", show_ins(input.ver, &i)));
            }
            case.count(&format!("{name}: same operands"));
        }
        (Out::Err(LunifyError::ValueTooBigForOperand), Err(_)) => case.count(&format!("{name}: ValueTooBigForOperand")),
        // Lua 5.0 code is checked against the limit of the stack as well.
        (Out::Err(LunifyError::StackTooLarge(n)), _) if (input.ver == Ver::L50 || limited) && n > output.stack_limit.min(255) => {
            case.count("rejected with StackTooLarge");
            return;
        }
        (out, fits) => {
            let fits = fits.map(|_| "fits");
            return case.violation(format!("{} ({fits:?}) resulted in {}", show_ins(input.ver, &i), out.show()));
        }
    }
    if input.lay != output.lay {
        case.nontrivial(hash_bytes(&bytes) ^ hash_bytes(format!("{:?}", output.lay).as_bytes()));
        case.sample(|| json!({"instruction": show_ins(input.ver, &i), "from": format!("{:?}", input.lay.spec), "to": format!("{:?}", output.lay.spec)}));
    }
}

// ---------------------------------------------------------------- C16

pub fn specifications(cx: &Ctx) {
    cx.rule(
        "InstructionLayout::from_specification is called with every order of operands (also duplicates) and all sizes around the limits,
        and has to accept exactly the layouts that have each operand once, sizes of at least 6, 7, 8 and 8 and less than 32 bits, adjacent B and C
        operands, and at most 64 bits in total; everything else results in InvalidInstructionLayout. Accepted layouts are used for a
        conversion in section use. A case is one order of operands with one size of the first; it is non-trivial if some specification of it was
        accepted",
    );
    const KINDS: [char; 4] = ['O', 'A', 'B', 'C'];
    let sizes: Vec<u64> = match cx.tier {
        crate::ctx::Tier::Quick => vec![0, 1, 5, 6, 7, 8, 9, 12, 16, 17, 24, 30, 31, 32, 33, 63, 64, 65, u64::MAX],
        crate::ctx::Tier::Thorough => (0..36).chain([47, 48, 62, 63, 64, 65, 128, 1 << 32, u64::MAX - 5, u64::MAX]).collect(),
    };
    let n = sizes.len() as u64;
    cx.run("all", 256 * n, |case| {
        let order: Vec<char> = (0..4).map(|i| KINDS[(case.index / n >> (2 * i)) as usize & 3]).collect();
        let first = sizes[(case.index % n) as usize];
        let mut accepted = 0u64;
        let mut calls = 0u64;
        for &b in &sizes {
            for &c in &sizes {
                for &d in &sizes {
                    let spec = [first, b, c, d];
                    let result = specify(case, &order, &spec);
                    calls += 1;
                    let valid = is_valid(&order, &spec);
                    let fine = match &result {
                        Ok(Ok(_)) => valid,
                        Ok(Err(LunifyError::InvalidInstructionLayout)) => !valid,
                        _ => false,
                    };
                    if !fine {
                        case.note("specification", format!("{order:?} {spec:?}"));
                        let shown = match result {
                            Ok(Ok(_)) => "accepted".to_string(),
                            Ok(Err(e)) => format!("{e:?}"),
                            Err(m) => m,
                        };
                        return case.violation(format!("{order:?} with sizes {spec:?} should be {}, but it is {shown}", if valid { "valid" } else { "invalid" }));
                    }
                    accepted += valid as u64;
                }
            }
        }
        case.add("specifications", calls);
        case.add("specifications accepted", accepted);
        if accepted > 0 {
            case.nontrivial(case.index);
            case.sample(|| json!({"order": format!("{order:?}"), "first": first, "accepted": accepted, "rejected": calls - accepted}));
        }
    });
    cx.run("random", cx.scale(200_000), |case| {
        let r = &mut case.rng;
        let order: Vec<char> = match r.chance(70) {
            true => {
                let mut o = KINDS.to_vec();
                for i in (1..4).rev() {
                    o.swap(i, r.us(i + 1));
                }
                o
            }
            false => (0..4).map(|_| *r.pick(&KINDS)).collect(),
        };
        let spec: Vec<u64> = (0..4)
            .map(|_| match r.below(8) {
                0 => r.next() >> r.below(64),
                _ => 4 + r.below(30),
            })
            .collect();
        let spec: [u64; 4] = spec.try_into().unwrap();
        let valid = is_valid(&order, &spec);
        let result = specify(case, &order, &spec);
        let fine = match &result {
            Ok(Ok(_)) => valid,
            Ok(Err(LunifyError::InvalidInstructionLayout)) => !valid,
            _ => false,
        };
        case.evaluated();
        case.count(if valid { "specifications accepted" } else { "specifications rejected" });
        if !fine {
            case.violation(format!("{order:?} with sizes {spec:?} should be {}", if valid { "valid" } else { "invalid" }));
        }
    });
    cx.run("use", cx.scale(60_000), |case| {
        // Whatever is accepted works.
        let e = extreme(&mut case.rng, Ver::L51);
        let opts = cgen::Opts { ver: Ver::L51, lay: e.lay, max_code: 30, depth: 0, hostile: false };
        let p = cgen::proto(&mut case.rng, &opts, 0);
        let Ok(bytes) = encode(&e, &p) else {
            case.count("chunks that don't fit their encoding");
            return;
        };
        let mut o = e.clone();
        o.sig = "\x1bOut";
        describe(case, &e, &o, &bytes);
        match case.unify(&bytes, &o.fmt, &settings(&e, &o, &Enc::native50(32))) {
            Out::Ok(b) => match decode(&o, &b).map(|q| diff(Ver::L51, &p, &q, "main")) {
                Ok(None) => {
                    case.count("layouts used");
                    case.nontrivial(hash_bytes(&bytes));
                }
                Ok(Some(d)) => case.violation(d),
                Err(m) => case.violation(m),
            },
            out => case.violation(format!("layout {:?} resulted in {}", e.lay.spec, out.show())),
        }
    });
}

fn specify(case: &mut Case, order: &[char], sizes: &[u64; 4]) -> Result<Result<InstructionLayout, LunifyError>, String> {
    let kind = |i: usize| match order[i] {
        'O' => OperandType::Opcode(sizes[i]),
        'A' => OperandType::A(sizes[i]),
        'B' => OperandType::B(sizes[i]),
        _ => OperandType::C(sizes[i]),
    };
    let spec = [kind(0), kind(1), kind(2), kind(3)];
    let _ = &case;
    std::panic::catch_unwind(|| InstructionLayout::from_specification(spec)).map_err(|_| crate::ctx::last_panic())
}

/// The documented rules.
fn is_valid(order: &[char], sizes: &[u64; 4]) -> bool {
    let once = ['O', 'A', 'B', 'C'].iter().all(|k| order.iter().filter(|o| *o == k).count() == 1);
    let big_enough = order.iter().zip(sizes).all(|(k, s)| {
        let low = match k {
            'O' => 6,
            'A' => 7,
            _ => 8,
        };
        *s >= low && *s < 32
    });
    let total: u128 = sizes.iter().map(|s| *s as u128).sum();
    let at = |k: char| order.iter().position(|o| *o == k).unwrap_or(0) as i64;
    once && big_enough && total <= 64 && (at('B') - at('C')).abs() == 1
}

// ---------------------------------------------------------------- C26

/// Settings of the version that the input doesn't have.
fn shuffle(rng: &mut Rng, limit: &mut u64, fpf: &mut u64, layout: &mut InstructionLayout, ver: Ver) {
    let number = |rng: &mut Rng| match rng.below(4) {
        0 => 0,
        1 => u64::MAX,
        _ => rng.below(300),
    };
    if rng.chance(70) {
        *limit = number(rng);
    }
    if rng.chance(70) {
        *fpf = number(rng);
    }
    if rng.chance(70) {
        *layout = extreme(rng, ver).lay.to_lunify();
    }
}

pub fn irrelevant(cx: &Ctx) {
    cx.rule(
        "The same input is converted twice: the settings of the version that the input doesn't have are replaced by other ones, sensible or not. The results have to be the same. In section signatures the input is found under
        either of the two signatures, and inputs with neither of them are rejected. A case is non-trivial if the settings differ",
    );
    cx.assume("no signature is the start of another one, otherwise it is not defined which one is meant");
    for (name, ver) in [("lua50", Ver::L50), ("lua51", Ver::L51)] {
        cx.run(name, cx.scale(60_000), |case| {
            let fpf = random_fpf(&mut case.rng, 32);
            let mut input = Enc::random(&mut case.rng, ver, fpf);
            let lay = if case.rng.chance(70) { Lay::L51 } else { input.lay };
            let Some(p) = any_proto(case, ver, lay, false) else { return };
            random_number_type(&mut case.rng, &mut input.fmt, &p);
            let Ok(mut bytes) = encode(&input, &p) else {
                case.count("chunks that don't fit their encoding");
                return;
            };
            if case.rng.chance(10) {
                let n = case.rng.us(bytes.len());
                bytes.truncate(n);
            }
            let out_fpf = if case.rng.chance(40) { fpf } else { random_fpf(&mut case.rng, 50) };
            let mut output = Enc::random(&mut case.rng, Ver::L51, out_fpf);
            random_number_type(&mut case.rng, &mut output.fmt, &p);
            if ver == Ver::L51 && case.rng.chance(20) {
                // Nothing to do at all.
                output = input.clone();
            }
            let other = other_for(&mut case.rng, ver);
            describe(case, &input, &output, &bytes);
            let a = settings(&input, &output, &other);
            let mut b = a;
            match ver {
                Ver::L50 => shuffle(&mut case.rng, &mut b.lua51.stack_limit, &mut b.lua51.fields_per_flush, &mut b.lua51.layout, Ver::L51),
                Ver::L51 => shuffle(&mut case.rng, &mut b.lua50.stack_limit, &mut b.lua50.fields_per_flush, &mut b.lua50.layout, Ver::L50),
            }
            case.note("settings", format!("{a:?}"));
            case.note("other settings", format!("{b:?}"));
            let (x, y) = (case.unify(&bytes, &output.fmt, &a), case.unify(&bytes, &output.fmt, &b));
            let same = match (&x, &y) {
                (Out::Ok(x), Out::Ok(y)) => x == y,
                (Out::Err(x), Out::Err(y)) => x == y,
                _ => false,
            };
            if !same {
                return case.violation(format!("settings of the other version changed {} to {}", x.show(), y.show()));
            }
            case.count(match x {
                Out::Ok(_) => "same output",
                _ => "same error",
            });
            if a != b {
                case.nontrivial(hash_bytes(&bytes) ^ hash_bytes(format!("{b:?}").as_bytes()));
                case.sample(|| json!({"changed from": format!("{:?} {:?}", a.lua50, a.lua51), "to": format!("{:?} {:?}", b.lua50, b.lua51)}));
            }
        });
    }
    cx.run("signatures", cx.scale(20_000), |case| {
        // Neither is the start of the other, so it is clear which one is meant.
        const ALL: [&str; 8] = ["\x1bLua", "\x1bLul", "XYZ", "\u{1F600}", "\x01", "\x1bMua", "signature", "\x1bLu\u{e9}"];
        let ver = *case.rng.pick(&[Ver::L50, Ver::L51]);
        let fpf = random_fpf(&mut case.rng, 32);
        let mut input = Enc::random(&mut case.rng, ver, fpf);
        let mut output = Enc::random(&mut case.rng, Ver::L51, fpf);
        let mut other = other_for(&mut case.rng, ver);
        (input.sig, output.sig, other.sig) = (*case.rng.pick(&ALL), *case.rng.pick(&ALL), *case.rng.pick(&ALL));
        let Some(p) = any_proto(case, ver, Lay::L51, false) else { return };
        let Ok(bytes) = encode(&input, &p) else { return };
        describe(case, &input, &output, &bytes);
        let a = case.unify(&bytes, &output.fmt, &settings(&input, &output, &other));
        // Only the signature of the output is part of the output.
        let mut plain = other.clone();
        plain.sig = input.sig;
        let b = case.unify(&bytes, &output.fmt, &settings(&input, &output, &plain));
        match (&a, &b) {
            (Out::Ok(x), Out::Ok(y)) if x == y && x.starts_with(output.sig.as_bytes()) => case.count("accepted signatures"),
            (Out::Err(x), Out::Err(y)) if x == y && *x != LunifyError::IncorrectSignature => case.count("accepted signatures"),
            _ => return case.violation(format!("the signature of the other version changed {} to {}", b.show(), a.show())),
        }
        case.nontrivial(hash_bytes(&bytes));
        // A file of neither version.
        let wrong = *case.rng.pick(&ALL);
        if wrong != input.sig && wrong != other.sig {
            let mut data = wrong.as_bytes().to_vec();
            data.extend(&bytes[input.sig.len()..]);
            match case.unify(&data, &output.fmt, &settings(&input, &output, &other)) {
                Out::Err(LunifyError::IncorrectSignature) => case.count("rejected signatures"),
                out => case.violation(format!("a file with signature {wrong:?} resulted in {}", out.show())),
            }
        }
    });
}
