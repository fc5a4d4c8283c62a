//! Generator for chunks that don't come from a compiler.

use crate::model::*;
use crate::rng::Rng;

pub struct Opts {
    pub ver: Ver,
    /// Sizes that the operands have to fit.
    pub lay: Lay,
    pub max_code: usize,
    pub depth: usize,
    /// Anything goes, otherwise debug information and indices are consistent.
    pub hostile: bool,
}

/// Raw bytes of a string, including the terminating zero.
pub fn string(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(4) {
        // Names that a conversion uses itself.
        let s = match rng.below(4) {
            0 => ["type", "table", "next", "arg", "nil"][rng.us(5)].to_string(),
            _ => format!("__%lunify%__temp{}_{}", rng.below(12), rng.below(2)),
        };
        return [s.as_bytes(), b"\0"].concat();
    }
    let n = match rng.below(20) {
        0 => 0,
        1 => rng.us(300),
        2 => 255 + rng.us(4),
        _ => rng.us(12),
    };
    let mut s: Vec<u8> = match rng.below(4) {
        0 => rng.bytes(n),
        1 => (0..n).map(|_| 128 + rng.below(128) as u8).collect(),
        2 => "äöü€😀".bytes().cycle().take(n).collect(),
        _ => (0..n).map(|_| b'a' + rng.below(26) as u8).collect(),
    };
    s.push(0);
    s
}

/// Names can be missing, which is something else than being empty.
pub fn name(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0 => Vec::new(),
        1 => vec![0],
        _ => string(rng),
    }
}

pub fn float(rng: &mut Rng) -> f64 {
    match rng.below(6) {
        0 => f64::from_bits(rng.next()),
        1 => rng.range(-1000, 1000) as f64,
        2 => rng.range(-1000, 1000) as f64 / 8.0,
        3 => *rng.pick(&[
            0.0,
            -0.0,
            1.0,
            f64::MAX,
            f64::MIN_POSITIVE,
            5e-324,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::NAN,
            9007199254740993.0,
            2147483647.0,
            2147483648.0,
            -2147483649.0,
            0.1,
        ]),
        4 => (rng.next() as i64) as f64,
        _ => (rng.below(1 << 40)) as f64,
    }
}

pub fn constant(rng: &mut Rng) -> K {
    match rng.below(8) {
        0 => K::Nil,
        1 => K::Bool(rng.chance(50)),
        2..=4 => K::Num(Num::F(float(rng))),
        _ => K::Str(string(rng)),
    }
}

fn operand(rng: &mut Rng, max: u64) -> u64 {
    match rng.below(8) {
        0 => max,
        1 => max.saturating_sub(rng.below(4)),
        2 => rng.below(max.saturating_add(1).max(1)),
        3 => 0,
        _ => rng.below(16).min(max),
    }
}

pub fn instruction(rng: &mut Rng, o: &Opts, op: u32) -> Ins {
    let (_, kind, kb, kc) = ops(o.ver)[op as usize];
    let max = |w: char| (1u64 << o.lay.size(w)) - 1;
    let limit = |k: Arg, w: char, rng: &mut Rng| match k {
        Arg::N => 0,
        Arg::K => {
            let bit = 1u64 << (o.lay.size('B') - 1);
            match (o.ver, rng.chance(50)) {
                (Ver::L51, true) => operand(rng, (bit - 1).min(max(w) >> 1)) | KBIT,
                (Ver::L51, false) => operand(rng, (bit - 1).min(max(w) >> 1)),
                // Constants that also fit the default layout of Lua 5.1.
                (Ver::L50, true) => operand(rng, 255.min(max(w).saturating_sub(250))) | KBIT,
                (Ver::L50, false) => operand(rng, 249.min(max(w))),
            }
        }
        Arg::T => operand(rng, 249.min(max('B') >> 1)),
        _ => operand(rng, max(w)),
    };
    let a = operand(rng, max('A'));
    match kind {
        Kind::Abc => {
            let b = limit(kb, 'B', rng);
            let c = limit(kc, 'C', rng);
            Ins::abc(op, a, b, c)
        }
        Kind::Abx => Ins::abx(op, a, operand(rng, (1u64 << o.lay.bx().1) - 1) as i64),
        Kind::Asbx => {
            let max = (((1u64 << o.lay.bx().1) - 1) >> 1) as i64;
            let v = match rng.below(6) {
                0 => max,
                1 => -max,
                2 => max + 1,
                3 => rng.range(-max, max),
                _ => rng.range(-20, 20),
            };
            Ins::abx(op, a, v)
        }
    }
}

pub fn proto(rng: &mut Rng, o: &Opts, depth: usize) -> Proto {
    let mut p = Proto {
        source: name(rng),
        line: int(rng),
        nups: rng.next() as u8,
        nparams: rng.below(5) as u8,
        vararg: match rng.below(20) {
            0..=11 => 0,
            12..=18 => rng.below(8) as u8,
            _ => rng.next() as u8,
        },
        maxstack: 2 + rng.below(240) as u8,
        ..Proto::default()
    };
    p.last_line = match o.ver {
        Ver::L51 => int(rng),
        Ver::L50 => p.line,
    };
    let n = match rng.below(10) {
        0 => 0,
        1 => rng.us(o.max_code),
        _ => rng.us(o.max_code.min(20)),
    };
    let table = ops(o.ver).len() as u64;
    let favourite = rng.below(table) as u32;
    while p.code.len() < n {
        let op = match rng.chance(15) {
            true => favourite,
            false => rng.below(table) as u32,
        };
        let mut i = instruction(rng, o, op);
        if o.ver == Ver::L51 && op == 34 && i.c == 0 {
            // The page of very large tables is in the next word, see F11 in DESIGN.md.
            match o.hostile {
                true => {
                    p.code.push(i);
                    p.code.push(Ins::abx(RAW, 0, rng.below(1 << 20) as i64));
                    continue;
                }
                false => i.c = 1,
            }
        }
        p.code.push(i);
    }
    for _ in 0..rng.us(8) {
        p.consts.push(constant(rng));
    }
    if rng.chance(10) {
        for i in 0..rng.us(600) {
            p.consts.push(K::Num(Num::F(i as f64)));
        }
    }
    if rng.chance(4) {
        for i in 0..40 {
            p.consts.push(K::Str(format!("__%lunify%__temp{i}_0\0").into_bytes()));
        }
    }
    if rng.chance(75) {
        p.lines = p.code.iter().map(|_| int(rng)).collect();
        if o.hostile && rng.chance(20) {
            p.lines.truncate(rng.us(p.lines.len() + 1));
        }
    }
    for _ in 0..rng.us(4) {
        let (a, b) = match o.hostile {
            true => (int(rng), int(rng)),
            false => {
                let n = p.code.len() as i64;
                let (a, b) = (rng.range(0, n), rng.range(0, n));
                (a.min(b), a.max(b))
            }
        };
        p.locals.push((name(rng), a, b));
    }
    if rng.chance(70) {
        let n = if rng.chance(10) { 255 } else { rng.us(6) };
        p.upvals = (0..n).map(|_| name(rng)).collect();
        if !o.hostile {
            p.nups = n as u8;
        }
    }
    if depth < o.depth {
        for _ in 0..rng.us(3) {
            p.protos.push(proto(rng, o, depth + 1));
        }
    }
    if depth == 0 && o.depth > 0 && rng.below(300) == 0 {
        magnify(rng, o.ver, &mut p);
    }
    p
}

/// Sizes around the limits of small integers.
pub fn magnitude(rng: &mut Rng) -> usize {
    let n = *rng.pick(&[127, 255, 256, 257, 511, 1023, 4095, 4096, 16383, 16384, 32767, 32768, 40000, 65535, 65536, 70000]);
    n + rng.us(5)
}

/// Make one part of a chunk as large as it hardly ever is.
pub fn magnify(rng: &mut Rng, ver: Ver, p: &mut Proto) -> &'static str {
    let n = magnitude(rng);
    match rng.below(8) {
        0 => {
            p.consts.extend((0..n).map(|i| K::Num(Num::F(i as f64))));
            "constants"
        }
        1 => {
            let inner = Proto { maxstack: 2, line: 7, last_line: 7, code: vec![Ins::abc(opnum(ver, "RETURN"), 0, 1, 0)], ..Proto::default() };
            p.protos.extend((0..n).map(|i| Proto { nparams: i as u8, ..inner.clone() }));
            "functions"
        }
        2 => {
            let end = p.code.len() as i64;
            p.locals.extend((0..n).map(|i| (vec![b'a' + (i % 26) as u8, 0], 0, end)));
            "local variables"
        }
        3 | 4 => {
            // Instructions that nothing gets inserted for.
            let (jump, load) = (opnum(ver, "JMP"), opnum(ver, "LOADK"));
            let lines = !p.lines.is_empty();
            p.code.extend((0..n).map(|i| if i % 3 == 0 { Ins::abx(jump, 0, 1 - (i % 2) as i64 * 3) } else { Ins::abx(load, 1, i as i64) }));
            if lines {
                p.lines.resize(p.code.len(), 1 << rng.below(31));
                p.locals.push((b"end\0".to_vec(), 1, p.code.len() as i64));
            }
            "instructions"
        }
        5 => {
            let mut n = n;
            if rng.chance(30) {
                n = *rng.pick(&[1 << 17, 1 << 20, (1 << 20) + 1, 1 << 21, (1 << 24) + 3]);
            }
            let mut s: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
            s.push(0);
            match rng.below(3) {
                0 => p.source = s,
                1 => p.consts.push(K::Str(s)),
                _ => p.locals.push((s, 0, p.code.len() as i64)),
            }
            "bytes of a string"
        }
        6 => {
            // Functions inside of functions.
            for _ in 0..1 + rng.us(190) {
                let mut outer = Proto { maxstack: 2, line: 3, last_line: 3, code: vec![Ins::abc(opnum(ver, "RETURN"), 0, 1, 0)], ..Proto::default() };
                outer.protos.push(std::mem::take(p));
                *p = outer;
            }
            "nested functions"
        }
        _ => {
            p.nups = 255;
            p.upvals = (0..255).map(|i| vec![b'a' + (i % 26) as u8, 0]).collect();
            (p.nparams, p.maxstack) = match ver {
                Ver::L50 => (200, 210),
                Ver::L51 => (255, 255),
            };
            p.line = i32::MAX as i64 - 1;
            p.last_line = p.line;
            "header fields"
        }
    }
}

fn int(rng: &mut Rng) -> i64 {
    match rng.below(8) {
        0 => i32::MAX as i64,
        1 => i32::MIN as i64,
        2 => -1,
        3 => rng.next() as i32 as i64,
        _ => rng.range(0, 300),
    }
}

/// Function bodies that are nested `n` times.
pub fn nested(e: &Enc, n: usize) -> Vec<u8> {
    let inner = Proto { maxstack: 2, code: vec![Ins::abc(opnum(e.ver, "RETURN"), 0, 1, 0)], ..Proto::default() };
    let mut outer = inner.clone();
    outer.protos.push(inner.clone());
    let head = header(e).len();
    let (one, two) = (encode(e, &inner).unwrap(), encode(e, &outer).unwrap());
    let (one, two) = (&one[head..], &two[head..]);
    // `two` is `prefix`, `one`, `suffix`.
    let prefix = (0..two.len()).find(|i| two[*i..].starts_with(one) && two.len() - i - one.len() < one.len()).unwrap();
    let mut at = prefix;
    // The body of a function might repeat a part of its prefix, take the right one.
    for i in 0..=two.len() - one.len() {
        if &two[i..i + one.len()] == one {
            let mut three = header(e);
            three.extend(&two[..i]);
            three.extend(two);
            three.extend(&two[i + one.len()..]);
            let mut p = outer.clone();
            p.protos[0] = outer.clone();
            if encode(e, &p).unwrap() == three {
                at = i;
                break;
            }
        }
    }
    let mut out = header(e);
    for _ in 0..n {
        out.extend(&two[..at]);
    }
    out.extend(one);
    for _ in 0..n {
        out.extend(&two[at + one.len()..]);
    }
    out
}
