//! Properties of input that is damaged or made to cause harm.

use lunify::{BitWidth, Format, LunifyError, Settings};
use serde_json::json;

use crate::asm;
use crate::cgen;
use crate::ctx::{hex, Case, Ctx, Out};
use crate::flow::*;
use crate::lgen::{program, Focus};
use crate::model::*;
use crate::rng::{hash_bytes, Rng};

/// A chunk of any origin, with instructions that fit `lay`.
pub fn any_proto(case: &mut Case, ver: Ver, lay: Lay, hostile: bool) -> Option<Proto> {
    match case.rng.below(10) {
        0..=4 => {
            let opts = cgen::Opts { ver, lay, max_code: 200, depth: 2, hostile };
            Some(cgen::proto(&mut case.rng, &opts, 0))
        }
        5..=7 => {
            let focus = *case.rng.pick(&[Focus::General, Focus::Tables, Focus::Loops, Focus::Varargs, Focus::Jumps]);
            let size = case.rng.range(5, 40);
            let p = program(&mut case.rng, ver == Ver::L50, focus, size, 32);
            let strip = case.rng.chance(30);
            compile(case, ver, &p.source, 32, strip).map(|c| c.proto)
        }
        _ => Some(asm::program(&mut case.rng, ver, 32, 3)),
    }
}

/// Random chunk in a random encoding.
fn any_chunk(case: &mut Case) -> Option<(Enc, Proto, Vec<u8>, Vec<(usize, Mark)>)> {
    let ver = *case.rng.pick(&[Ver::L50, Ver::L51]);
    for _ in 0..5 {
        let enc = Enc::random(&mut case.rng, ver, 32);
        let lay = match case.rng.chance(50) {
            true => enc.lay,
            false => Lay::L51,
        };
        let p = any_proto(case, ver, lay, true)?;
        if let Ok((b, m)) = encode_marked(&enc, &p) {
            return Some((enc, p, b, m));
        }
    }
    case.count("chunks that don't fit their encoding");
    None
}

pub fn hostile_number(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX - rng.below(3),
        3 => (1u64 << rng.below(64)).wrapping_sub(rng.below(2)),
        4 => 250 + rng.below(10),
        5 => i64::MAX as u64,
        6 => rng.next(),
        _ => rng.below(300),
    }
}

/// Output settings that nobody should use.
fn hostile_settings(rng: &mut Rng, input: &Enc) -> (Format, Settings<'static>) {
    let fpf = hostile_number(rng);
    let mut output = Enc::random(rng, Ver::L51, fpf);
    output.fmt.number_width = width(rng);
    output.fmt.is_number_integral = rng.chance(30);
    let fpf = hostile_number(rng);
    let other = Enc::random(rng, if input.ver == Ver::L50 { Ver::L51 } else { Ver::L50 }, fpf);
    let mut s = settings(input, &output, &other);
    for v in [&mut s.lua50.stack_limit, &mut s.lua51.stack_limit, &mut s.output.stack_limit] {
        if rng.chance(60) {
            *v = hostile_number(rng);
        }
    }
    for v in [&mut s.lua50.fields_per_flush, &mut s.lua51.fields_per_flush] {
        if rng.chance(40) {
            *v = hostile_number(rng);
        }
    }
    if rng.chance(5) {
        s.output.binary_signature = "";
    }
    if rng.chance(3) {
        s.lua51.binary_signature = "";
    }
    (output.fmt, s)
}

fn plain_settings(rng: &mut Rng, input: &Enc) -> (Format, Settings<'static>) {
    let fpf = random_fpf(rng, 50);
    let output = Enc::random(rng, Ver::L51, fpf);
    let other = if input.ver == Ver::L50 { Enc::native51(50) } else { Enc::native50(32) };
    (output.fmt, settings(input, &output, &other))
}

/// The only acceptable outcomes are a result or an error.
fn total(case: &mut Case, input: &[u8], format: &Format, settings: &Settings) -> Out {
    let out = case.unify(input, format, settings);
    match &out {
        Out::Panic(m) => {
            case.notes.clear();
            case.note("input", hex(input));
            case.note("format", format!("{format:?}"));
            case.note("settings", format!("{settings:?}"));
            case.violation(format!("the conversion panicked: {m}"));
        }
        Out::Ok(_) => case.count("converted"),
        Out::Err(e) => {
            let name = format!("{e:?}");
            let name = name.split('(').next().unwrap();
            case.count(&format!("rejected with {name}"));
        }
    }
    // Something behind the header was read.
    use LunifyError::*;
    let header = matches!(
        out,
        Out::Err(
            IncorrectSignature
                | UnsupportedVersion(_)
                | InvaildEndianness(_)
                | UnsupportedInstructionFormat(_)
                | UnsupportedSizeTWidth(_)
                | UnsupportedIntegerWidth(_)
                | UnsupportedInstructionWidth(_)
                | UnsupportedNumberWidth(_)
        )
    );
    if !header && input.len() > 12 {
        case.nontrivial(hash_bytes(input));
    }
    out
}

pub fn mutate(rng: &mut Rng, data: &mut Vec<u8>, other: &[u8], marks: &[(usize, Mark)], enc: Option<&Enc>) {
    for _ in 0..1 + rng.us(8) {
        if data.is_empty() {
            return;
        }
        // Rather not in the header.
        let low = match rng.chance(90) {
            true => 12.min(data.len() - 1),
            false => 0,
        };
        let at = low + rng.us(data.len() - low);
        match rng.below(10) {
            0 => data[at] ^= 1 << rng.below(8),
            1 => data[at] = rng.next() as u8,
            2 => {
                let v = hostile_number(rng).to_le_bytes();
                let n = *rng.pick(&[1, 2, 4, 8]);
                let end = (at + n).min(data.len());
                data[at..end].copy_from_slice(&v[..end - at]);
            }
            3 => {
                let mut v = hostile_number(rng).to_le_bytes();
                if rng.chance(50) {
                    v.reverse();
                }
                let n = *rng.pick(&[1, 4, 8]);
                data.splice(at..at, v[..n].iter().copied());
            }
            4 => {
                let end = (at + 1 + rng.us(16)).min(data.len());
                data.drain(at..end);
            }
            5 => data.truncate(at),
            6 if !other.is_empty() => {
                let from = rng.us(other.len());
                let to = from + rng.us((other.len() - from).min(200) + 1);
                data.splice(at..at, other[from..to].iter().copied());
            }
            7 => {
                let end = (at + rng.us(64)).min(data.len());
                let part = data[at..end].to_vec();
                data.splice(at..at, part);
            }
            _ => {
                let (Some(enc), false) = (enc, marks.is_empty()) else { continue };
                let (at, mark) = *rng.pick(marks);
                if at + 8 > data.len() {
                    continue;
                }
                let v = hostile_number(rng);
                match mark {
                    Mark::Count => patch(enc, data, at, v, enc.fmt.integer_width),
                    Mark::Length => patch(enc, data, at, v, enc.fmt.size_t_width),
                    Mark::Instruction => patch(enc, data, at, v, enc.fmt.instruction_width),
                    Mark::ConstantType => data[at] = v as u8,
                }
            }
        }
    }
}

pub fn totality(cx: &Ctx) {
    cx.rule(
        "unify has to return: a panic (overflow checks and debug assertions are enabled), an abort (failed allocation, stack overflow on a 2 MiB
        thread) or 60 s of CPU time without a result is a violation. Inputs are damaged real files and generated chunks of both versions, extreme
        settings, every prefix of valid chunks, nested functions and patched counts. A case is non-trivial if more than the header was read",
    );
    cx.assume("calls that take more than 60 seconds of CPU time count as endless");
    let mut files = Vec::new();
    let dir = cx.repo.join("test_files");
    let mut names: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    names.sort();
    for path in names {
        if let Ok(b) = std::fs::read(&path) {
            files.push(b);
        }
    }
    cx.count("real files", files.len() as u64);
    cx.run("files", cx.scale(150_000), |case| {
        if files.is_empty() {
            return;
        }
        let r = &mut case.rng;
        let mut data = r.pick(&files).clone();
        let other = r.pick(&files).clone();
        mutate(r, &mut data, &other, &[], None);
        let input = match r.chance(50) {
            true => Enc::native50(32),
            false => Enc { sig: "\x1bLul", ..Enc::native50(32) },
        };
        let (format, mut s) = match r.chance(50) {
            true => (random_format(r), Settings::default()),
            false => hostile_settings(r, &input),
        };
        // The layouts of the inputs have to be right to get past the header.
        s.lua50.layout = Settings::default().lua50.layout;
        s.lua50.binary_signature = "\x1bLua";
        s.lua51.layout = Settings::default().lua51.layout;
        s.lua51.binary_signature = *r.pick(&["\x1bLua", "\x1bLul"]);
        total(case, &data, &format, &s);
    });
    cx.run("damaged", cx.scale(150_000), |case| {
        let Some((enc, _, mut data, marks)) = any_chunk(case) else { return };
        let other = case.rng.bytes(64);
        let (format, s) = match case.rng.chance(60) {
            true => plain_settings(&mut case.rng, &enc),
            false => hostile_settings(&mut case.rng, &enc),
        };
        for _ in 0..3 {
            mutate(&mut case.rng, &mut data, &other, &marks, Some(&enc));
            total(case, &data, &format, &s);
        }
    });
    cx.run("settings", cx.scale(150_000), |case| {
        let Some((enc, _, data, _)) = any_chunk(case) else { return };
        for _ in 0..2 {
            let (format, s) = hostile_settings(&mut case.rng, &enc);
            total(case, &data, &format, &s);
        }
    });
    cx.run("counts", cx.scale(30_000), |case| {
        let Some((enc, _, data, marks)) = any_chunk(case) else { return };
        let (format, s) = plain_settings(&mut case.rng, &enc);
        for _ in 0..4 {
            let (at, mark) = *case.rng.pick(&marks);
            let width = match mark {
                Mark::Count => enc.fmt.integer_width,
                Mark::Length => enc.fmt.size_t_width,
                _ => continue,
            };
            let mut bad = data.clone();
            let v = match case.rng.below(4) {
                0 => u64::MAX - case.rng.below(4),
                1 => 1u64 << case.rng.below(64),
                2 => (1u64 << (8 + case.rng.below(56))) - 1,
                _ => (1u64 << 31) - case.rng.below(20),
            };
            patch(&enc, &mut bad, at, v, width);
            total(case, &bad, &format, &s);
        }
    });
    cx.run("prefixes", cx.scale(600), |case| {
        let Some((enc, _, data, _)) = any_chunk(case) else { return };
        let (format, s) = plain_settings(&mut case.rng, &enc);
        for n in 0..data.len().min(3000) {
            total(case, &data[..n], &format, &s);
        }
    });
    cx.run("instructions", cx.scale(60_000), |case| {
        // Nothing but random operands, and jumps everywhere.
        let ver = *case.rng.pick(&[Ver::L50, Ver::L51]);
        let fpf = 1 + case.rng.below(60);
        let mut enc = Enc::random(&mut case.rng, ver, fpf);
        enc.fmt.instruction_width = BitWidth::Bit64;
        let n = match case.rng.chance(2) {
            true => case.rng.us(3000),
            false => case.rng.us(60),
        };
        let opts = cgen::Opts { ver, lay: enc.lay, max_code: n, depth: 0, hostile: true };
        let favourites: Vec<u32> = (0..1 + case.rng.us(5)).map(|_| case.rng.below(ops(ver).len() as u64) as u32).collect();
        let mut p = Proto { maxstack: case.rng.next() as u8, ..Proto::default() };
        for i in 0..n {
            let op = *case.rng.pick(&favourites);
            let mut ins = cgen::instruction(&mut case.rng, &opts, op);
            if case.rng.chance(30) && ins.bx != 0 {
                ins.bx = case.rng.range(-(i as i64) - 2, (n - i) as i64 + 2);
                if ops(ver)[op as usize].1 == Kind::Abx {
                    ins.bx = ins.bx.abs();
                }
            }
            p.code.push(ins);
        }
        if case.rng.chance(50) {
            p.lines = vec![1; n];
        }
        let Ok(data) = encode(&enc, &p) else {
            case.count("instructions that don't fit");
            return;
        };
        let (format, s) = match case.rng.chance(70) {
            true => plain_settings(&mut case.rng, &enc),
            false => hostile_settings(&mut case.rng, &enc),
        };
        total(case, &data, &format, &s);
    });
    cx.run("jumps", cx.scale(24), |case| {
        // Thousands of jumps over instructions that are expanded or removed.
        let ver = *case.rng.pick(&[Ver::L50, Ver::L51]);
        let n = 4000;
        let mut p = Proto { maxstack: 100, ..Proto::default() };
        for i in 0..n {
            let ins = match case.rng.below(3) {
                0 if ver == Ver::L50 => Ins::abx(opnum(ver, "SETLIST"), 0, case.rng.range(0, 60)),
                0 => Ins::abc(opnum(ver, "SETLIST"), 0, 1, 1),
                1 if ver == Ver::L50 => Ins::abc(opnum(ver, "TFORLOOP"), 3, 0, case.rng.below(6)),
                _ => Ins::abx(opnum(ver, "JMP"), 0, case.rng.range(-(i as i64), n as i64 - i as i64 - 1)),
            };
            p.code.push(ins);
        }
        let enc = Enc { ver, ..Enc::native50(32) };
        let data = match encode(&enc, &p) {
            Ok(b) => b,
            Err(m) => return case.error(m),
        };
        let out = Enc::native51(7);
        let other = if ver == Ver::L50 { Enc::native51(50) } else { Enc::native50(32) };
        let s = settings(&enc, &out, &other);
        total(case, &data, &out.fmt, &s);
    });
    cx.run("nesting", 40, |case| {
        let ver = [Ver::L50, Ver::L51][case.index as usize % 2];
        let n = [1, 50, 190, 199, 200, 201, 202, 250, 300, 500, 1000, 2000, 5000, 10_000, 20_000, 50_000, 100_000, 200_000][case.index as usize / 2 % 18];
        let enc = match case.index < 20 {
            true => Enc { ver, ..Enc::native50(32) },
            false => Enc::random(&mut case.rng, ver, 32),
        };
        let data = cgen::nested(&enc, n);
        let (format, s) = plain_settings(&mut case.rng, &enc);
        match total(case, &data, &format, &s) {
            // Lua itself can't load more than 200 functions inside of each other.
            Out::Ok(_) => case.count("nested functions converted"),
            Out::Err(_) if n < 190 => case.violation(format!("{n} nested functions are not converted")),
            _ => case.count("nested functions rejected"),
        }
        case.sample(|| json!({"nested": n, "bytes": data.len()}));
    });
    cx.run("random", cx.scale(30_000), |case| {
        // Not even a proper header.
        let n = case.rng.us(80);
        let mut data = case.rng.bytes(n);
        if case.rng.chance(80) {
            let head = header(&Enc::random(&mut case.rng, Ver::L51, 50));
            data.splice(0..0, head[..case.rng.us(head.len() + 1)].iter().copied());
        }
        let (format, s) = hostile_settings(&mut case.rng, &Enc::native51(50));
        total(case, &data, &format, &s);
    });
}

/// Memory a conversion may use: proportional to the size of the input. The
/// factor is that high because a single instruction can stand for a loop with
/// more than 200 variables.
fn allowance(input: usize) -> u64 {
    (64 << 10) + 2_000 * input as u64
}

pub fn memory(cx: &Ctx) {
    cx.rule(
        "A counting allocator measures the peak of live bytes of each call. It can't exceed 64 KiB + 2000 bytes for each byte of input,
        no matter which lengths and counts the input claims to have. A case is non-trivial if a count or length was patched to claim more than
        the input holds",
    );
    cx.run("claims", cx.scale(60_000), |case| {
        let ver = *case.rng.pick(&[Ver::L50, Ver::L51]);
        let enc = Enc::random(&mut case.rng, ver, 32);
        let opts = cgen::Opts { ver, lay: enc.lay, max_code: 10, depth: 1, hostile: false };
        let p = match case.rng.chance(70) {
            true => cgen::proto(&mut case.rng, &opts, 0),
            false => Proto { maxstack: 2, ..Proto::default() },
        };
        let Ok((data, marks)) = encode_marked(&enc, &p) else {
            case.count("chunks that don't fit their encoding");
            return;
        };
        let (format, s) = plain_settings(&mut case.rng, &enc);
        // Most claims of very large chunks would take too long.
        let every = 1 + marks.len() * data.len() / 4_000_000;
        for (at, mark) in marks {
            if case.rng.us(every) != 0 {
                continue;
            }
            let width = match mark {
                Mark::Count => enc.fmt.integer_width,
                Mark::Length => enc.fmt.size_t_width,
                _ => continue,
            };
            if case.rng.chance(60) {
                continue;
            }
            let mut bad = data.clone();
            let bits = match width {
                BitWidth::Bit32 => 31,
                BitWidth::Bit64 => 63,
            };
            let v = match case.rng.below(4) {
                0 => u64::MAX,
                1 => (1 << bits) - 1,
                _ => 1u64 << (16 + case.rng.below(bits - 16)),
            };
            patch(&enc, &mut bad, at, v, width);
            measured(case, &bad, &format, &s, Some((mark, v)));
        }
    });
    cx.run("chunks", cx.scale(60_000), |case| {
        let Some((enc, _, data, _)) = any_chunk(case) else { return };
        let (format, s) = match case.rng.chance(60) {
            true => plain_settings(&mut case.rng, &enc),
            false => hostile_settings(&mut case.rng, &enc),
        };
        measured(case, &data, &format, &s, None);
    });
    cx.run("bombs", cx.scale(1500), |case| {
        // Everything that results in more than one instruction.
        let n = 1 + case.rng.us(60);
        let max = case.rng.below(512);
        let kind = case.rng.below(3);
        let mut p = Proto { maxstack: 3, ..Proto::default() };
        for _ in 0..n {
            p.code.push(match kind {
                0 => Ins::abc(opnum(Ver::L50, "TFORLOOP"), case.rng.below(250), 0, max),
                1 => Ins::abx(opnum(Ver::L50, "TFORPREP"), case.rng.below(250), case.rng.range(-100, 100)),
                _ => Ins::abx(opnum(Ver::L50, "SETLIST"), case.rng.below(250), case.rng.range(0, 200_000)),
            });
        }
        let enc = Enc::native50(1 + case.rng.below(200));
        let Ok(data) = encode(&enc, &p) else { return };
        let (format, mut s) = plain_settings(&mut case.rng, &enc);
        if case.rng.chance(50) {
            s.output.fields_per_flush = hostile_number(&mut case.rng);
            s.output.stack_limit = hostile_number(&mut case.rng);
        }
        measured(case, &data, &format, &s, None);
    });
    cx.run("big", cx.scale(24), |case| {
        // Memory has to stay proportional.
        let ver = *case.rng.pick(&[Ver::L50, Ver::L51]);
        let mut p = Proto { maxstack: 100, ..Proto::default() };
        for i in 0..60_000i64 {
            p.code.push(Ins::abx(opnum(ver, "LOADK"), 1, i % 50_000));
            if case.rng.chance(30) {
                p.consts.push(K::Str(cgen::string(&mut case.rng)));
            }
        }
        p.lines = vec![1; p.code.len()];
        let enc = Enc { ver, ..Enc::native50(32) };
        let Ok(data) = encode(&enc, &p) else { return };
        let (format, s) = plain_settings(&mut case.rng, &enc);
        let peak = measured(case, &data, &format, &s, None);
        if peak > 100 * data.len() as u64 {
            case.violation(format!("{peak} bytes of memory for {} bytes of plain code", data.len()));
        }
    });
}

fn measured(case: &mut Case, data: &[u8], format: &Format, s: &Settings, claim: Option<(Mark, u64)>) -> u64 {
    let (out, peak) = case.unify_measured(data, format, s);
    case.notes.clear();
    case.note("input", hex(data));
    case.note("format", format!("{format:?}"));
    case.note("settings", format!("{s:?}"));
    if let Out::Panic(m) = &out {
        case.violation(format!("the conversion panicked: {m}"));
    }
    if peak > allowance(data.len()) {
        case.violation(format!("{peak} bytes of memory were used for {} bytes of input, {}", data.len(), out.show()));
    }
    let ratio = peak / data.len().max(1) as u64;
    case.count(match ratio {
        0..=9 => "peak below 10 bytes per byte of input",
        10..=99 => "peak below 100 bytes per byte of input",
        100..=999 => "peak below 1000 bytes per byte of input",
        _ => "peak of 1000 bytes or more per byte of input",
    });
    if let Some((mark, v)) = claim {
        if v > data.len() as u64 {
            case.nontrivial(hash_bytes(data));
            case.count(&format!("{mark:?} claims more than the input holds"));
            case.sample(|| json!({"claims": format!("{mark:?} {v}"), "bytes": data.len(), "peak": peak, "outcome": out.show()}));
        }
    }
    peak
}

pub fn errors(cx: &Ctx) {
    cx.rule(
        "A valid chunk (that is converted successfully) gets exactly one fault, for which the documented error is known: the result has to be that
        error with that payload. A case is non-trivial if the fault was behind the signature",
    );
    cx.run("header", cx.scale(8000), |case| {
        let Some((enc, data, format, s)) = valid(case) else { return };
        let sig = enc.sig.len();
        // Signature.
        for n in 0..sig {
            fault(case, &data[..n], &format, &s, LunifyError::IncorrectSignature);
        }
        let at = case.rng.us(sig);
        let mut bad = data.clone();
        bad[at] ^= 1 << case.rng.below(7);
        if !bad.starts_with(s.lua50.binary_signature.as_bytes()) && !bad.starts_with(s.lua51.binary_signature.as_bytes()) {
            fault(case, &bad, &format, &s, LunifyError::IncorrectSignature);
        }
        // Everything else, one byte at a time.
        for value in 0..=255u8 {
            if !matches!(value, 0x50 | 0x51) {
                header_byte(case, &data, sig, value, &format, &s, LunifyError::UnsupportedVersion(value));
            }
            let first = match enc.ver {
                Ver::L50 => sig + 1,
                Ver::L51 => sig + 2,
            };
            if value > 1 {
                header_byte(case, &data, first, value, &format, &s, LunifyError::InvaildEndianness(value));
            }
            if matches!(value, 4 | 8) {
                continue;
            }
            header_byte(case, &data, first + 1, value, &format, &s, LunifyError::UnsupportedIntegerWidth(value));
            header_byte(case, &data, first + 2, value, &format, &s, LunifyError::UnsupportedSizeTWidth(value));
            header_byte(case, &data, first + 3, value, &format, &s, LunifyError::UnsupportedInstructionWidth(value));
            let number = match enc.ver {
                Ver::L50 => first + 8,
                Ver::L51 => first + 4,
            };
            header_byte(case, &data, number, value, &format, &s, LunifyError::UnsupportedNumberWidth(value));
        }
        if enc.ver == Ver::L50 {
            for i in 0..4 {
                let mut bad = data.clone();
                let at = sig + 5;
                bad[at + i] = bad[at + i].wrapping_add(1 + case.rng.below(255) as u8);
                let found: [u8; 4] = bad[at..at + 4].try_into().unwrap();
                fault(case, &bad, &format, &s, LunifyError::UnsupportedInstructionFormat(found));
            }
        }
    });
    cx.run("truncated", cx.scale(800), |case| {
        let Some((enc, data, format, s)) = valid(case) else { return };
        for n in enc.sig.len()..data.len().min(4000) {
            fault(case, &data[..n], &format, &s, LunifyError::InputTooShort);
        }
    });
    cx.run("padded", cx.scale(12_000), |case| {
        let Some((_, data, format, s)) = valid(case) else { return };
        for n in [1, 1 + case.rng.us(64)] {
            let mut bad = data.clone();
            let extra = match case.rng.chance(50) {
                true => vec![0; n],
                false => case.rng.bytes(n),
            };
            bad.extend(extra);
            fault(case, &bad, &format, &s, LunifyError::InputTooLong);
        }
    });
    cx.run("body", cx.scale(30_000), |case| {
        let Some((enc, data, format, s)) = valid(case) else { return };
        let Ok(p) = decode(&enc, &data) else {
            return case.error("can't decode a valid chunk");
        };
        let Ok((again, marks)) = encode_marked(&enc, &p) else { return };
        if again != data {
            return case.error("encoding is not stable");
        }
        for _ in 0..8 {
            if marks.is_empty() {
                return;
            }
            let (at, mark) = *case.rng.pick(&marks);
            let mut bad = data.clone();
            match mark {
                Mark::ConstantType => {
                    let t = case.rng.next() as u8;
                    if matches!(t, 0 | 1 | 3 | 4) {
                        continue;
                    }
                    bad[at] = t;
                    fault(case, &bad, &format, &s, LunifyError::InvalidConstantType(t));
                }
                Mark::Length => {
                    let bits = if enc.fmt.size_t_width == BitWidth::Bit32 { 31 } else { 63 };
                    let wide = bits == 63 && case.rng.chance(30);
                    let v = match case.rng.below(3) {
                        // The lower half is a possible length.
                        _ if wide => 1 + case.rng.below(1 << 31) << 32 | case.rng.below(40),
                        // Negative for a signed reader.
                        0 => u64::MAX - case.rng.below(100),
                        1 => data.len() as u64 + case.rng.below(1000),
                        _ => (1 << bits) - case.rng.below(1 << 20),
                    };
                    patch(&enc, &mut bad, at, v, enc.fmt.size_t_width);
                    fault(case, &bad, &format, &s, LunifyError::InputTooShort);
                }
                Mark::Instruction => {
                    let (pos, size) = enc.lay.field('O');
                    let known = ops(enc.ver).len() as u64;
                    if (1 << size) <= known {
                        continue;
                    }
                    let op = known + case.rng.below((1 << size) - known);
                    let n = if enc.fmt.instruction_width == BitWidth::Bit32 { 4 } else { 8 };
                    let mut word = data[at..at + n].to_vec();
                    if enc.fmt.endianness == lunify::Endianness::Big {
                        word.reverse();
                    }
                    word.resize(8, 0);
                    let v = u64::from_le_bytes(word.try_into().unwrap());
                    let v = v & !(((1u64 << size) - 1) << pos) | op << pos;
                    patch(&enc, &mut bad, at, v, enc.fmt.instruction_width);
                    fault(case, &bad, &format, &s, LunifyError::InvalidOpcode(op));
                }
                Mark::Count => {
                    let wide = enc.fmt.integer_width == BitWidth::Bit64;
                    let old = match wide {
                        true => data[at..at + 8].iter().map(|b| *b as u64).max().unwrap(),
                        false => 0,
                    };
                    // Nothing is left to read after the last count of a chunk.
                    if at != marks.iter().map(|m| m.0).max().unwrap() || at + 8 < data.len() {
                        // No matter how the following bytes are read, there can't be more elements than bytes.
                        let v = match case.rng.below(3) {
                            0 if wide => 1 + case.rng.below(1 << 31) << 32 | if old < 256 { old } else { case.rng.below(40) },
                            1 if wide => case.rng.next() >> 1 | 1 << 40,
                            _ => data.len() as u64 + case.rng.below(1 << 30),
                        };
                        patch(&enc, &mut bad, at, v, enc.fmt.integer_width);
                        match case.unify(&bad, &format, &s) {
                            Out::Err(e) => {
                                let name = format!("{e:?}");
                                case.count(&format!("impossible counts rejected with {}", name.split('(').next().unwrap()));
                            }
                            out => {
                                case.notes.clear();
                                case.note("input", hex(&bad));
                                case.note("format", format!("{format:?}"));
                                case.note("settings", format!("{s:?}"));
                                return case.violation(format!("a count of {v} in {} bytes resulted in {}", bad.len(), out.show()));
                            }
                        }
                        continue;
                    }
                    let v = match case.rng.below(3) {
                        0 if wide => 1 + case.rng.below(1 << 31) << 32 | old,
                        1 => 1 + case.rng.below(100),
                        _ => (1 << 31) - 1,
                    };
                    patch(&enc, &mut bad, at, v, enc.fmt.integer_width);
                    fault(case, &bad, &format, &s, LunifyError::InputTooShort);
                }
            }
        }
    });
    cx.run("loops", cx.scale(12_000), |case| {
        // The jump of a numeric for loop of Lua 5.0 always goes back.
        let fpf = random_fpf(&mut case.rng, 32);
        let mut p = asm::program(&mut case.rng, Ver::L50, fpf.min(60), 2);
        let n = p.code.len();
        let at = case.rng.us(n.saturating_sub(1).max(1));
        let jump = match case.rng.below(3) {
            0 => 1,
            1 => case.rng.range(1, (n - at) as i64 + 1),
            _ => case.rng.range(1, 131_000),
        };
        p.code.insert(at, Ins::abx(opnum(Ver::L50, "FORLOOP"), 0, jump));
        if !p.lines.is_empty() {
            p.lines.insert(at, 1);
        }
        let enc = Enc::random(&mut case.rng, Ver::L50, fpf);
        let (format, s) = plain_settings(&mut case.rng, &enc);
        let Ok(data) = encode(&enc, &p) else { return };
        fault(case, &data, &format, &s, LunifyError::UnexpectedForwardJump);
    });
    cx.run("nesting", 60, |case| {
        let ver = [Ver::L50, Ver::L51][case.index as usize % 2];
        let n = 201 + case.index as usize * 3;
        let enc = Enc::random(&mut case.rng, ver, 32);
        let data = cgen::nested(&enc, n + 3);
        let (format, s) = plain_settings(&mut case.rng, &enc);
        fault(case, &data, &format, &s, LunifyError::FunctionNestingTooDeep);
    });
}

/// A chunk that can be converted, to something else than itself.
fn valid(case: &mut Case) -> Option<(Enc, Vec<u8>, Format, Settings<'static>)> {
    let ver = *case.rng.pick(&[Ver::L50, Ver::L51]);
    for _ in 0..4 {
        let mut enc = Enc::random(&mut case.rng, ver, 32);
        if enc.sig.starts_with('q') {
            enc.sig = "\x1bLua";
        }
        let p = any_proto(case, ver, enc.lay, false)?;
        let Ok(data) = encode(&enc, &p) else { continue };
        let mut output = Enc::random(&mut case.rng, Ver::L51, 32);
        // Make sure that the input is not passed through.
        output.sig = "\x1bOut";
        let other = Enc { sig: *case.rng.pick(&["\x1bLua", "other"]), ..if ver == Ver::L50 { Enc::native51(50) } else { Enc::native50(32) } };
        // A signature that is the beginning of another one is ambiguous.
        if enc.sig != other.sig && (enc.sig.starts_with(other.sig) || other.sig.starts_with(enc.sig)) {
            continue;
        }
        let s = settings(&enc, &output, &other);
        if let Out::Ok(_) = case.unify(&data, &output.fmt, &s) {
            return Some((enc, data, output.fmt, s));
        }
    }
    case.count("chunks that can't be converted");
    None
}

fn header_byte(case: &mut Case, data: &[u8], at: usize, value: u8, format: &Format, s: &Settings, want: LunifyError) {
    // Every value matters, but not for every chunk.
    if !case.rng.chance(10) {
        return;
    }
    let mut bad = data.to_vec();
    bad[at] = value;
    fault(case, &bad, format, s, want);
}

fn fault(case: &mut Case, data: &[u8], format: &Format, s: &Settings, want: LunifyError) {
    let out = case.unify(data, format, s);
    let name = format!("{want:?}");
    let name = name.split('(').next().unwrap();
    match &out {
        Out::Err(e) if *e == want => {
            case.count(&format!("faults reported as {name}"));
            if want != LunifyError::IncorrectSignature {
                case.nontrivial(hash_bytes(data));
            }
            case.sample(|| json!({"error": format!("{want:?}"), "input": hex(&data[..data.len().min(200)])}));
        }
        _ => {
            case.notes.clear();
            case.note("input", hex(data));
            case.note("format", format!("{format:?}"));
            case.note("settings", format!("{s:?}"));
            case.violation(format!("expected {want:?}, got {}", out.show()));
        }
    }
}
