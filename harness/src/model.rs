//! An independent model of Lua 5.0 and 5.1 binary chunks: decoder, encoder and
//! comparison. Nothing in here uses lunify except for its public configuration
//! types, so that it can serve as an oracle for what lunify reads and writes.

use lunify::{lua50, lua51, BitWidth, Endianness, Format, InstructionLayout, OperandType, Settings};

use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ver {
    L50,
    L51,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Abc,
    Abx,
    Asbx,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Arg {
    /// Not used by the instruction.
    N,
    /// Only a hint, doesn't change what the instruction does.
    H,
    /// A plain number.
    U,
    /// A register.
    R,
    /// A register or constant.
    K,
    /// A register that has to leave the bit for constants unset.
    T,
}

use Arg::*;
use Kind::*;

pub type Op = (&'static str, Kind, Arg, Arg);

pub const OPS51: [Op; 38] = [
    ("MOVE", Abc, R, N),
    ("LOADK", Abx, U, N),
    ("LOADBOOL", Abc, U, U),
    ("LOADNIL", Abc, R, N),
    ("GETUPVAL", Abc, U, N),
    ("GETGLOBAL", Abx, U, N),
    ("GETTABLE", Abc, R, K),
    ("SETGLOBAL", Abx, U, N),
    ("SETUPVAL", Abc, U, N),
    ("SETTABLE", Abc, K, K),
    ("NEWTABLE", Abc, H, H),
    ("SELF", Abc, R, K),
    ("ADD", Abc, K, K),
    ("SUB", Abc, K, K),
    ("MUL", Abc, K, K),
    ("DIV", Abc, K, K),
    ("MOD", Abc, K, K),
    ("POW", Abc, K, K),
    ("UNM", Abc, R, N),
    ("NOT", Abc, R, N),
    ("LEN", Abc, R, N),
    ("CONCAT", Abc, R, R),
    ("JMP", Asbx, U, N),
    ("EQ", Abc, K, K),
    ("LT", Abc, K, K),
    ("LE", Abc, K, K),
    ("TEST", Abc, N, U),
    ("TESTSET", Abc, T, U),
    ("CALL", Abc, U, U),
    ("TAILCALL", Abc, U, U),
    ("RETURN", Abc, U, N),
    ("FORLOOP", Asbx, U, N),
    ("FORPREP", Asbx, U, N),
    ("TFORLOOP", Abc, N, U),
    ("SETLIST", Abc, U, U),
    ("CLOSE", Abc, N, N),
    ("CLOSURE", Abx, U, N),
    ("VARARG", Abc, U, N),
];

pub const OPS50: [Op; 35] = [
    ("MOVE", Abc, R, N),
    ("LOADK", Abx, U, N),
    ("LOADBOOL", Abc, U, U),
    ("LOADNIL", Abc, R, N),
    ("GETUPVAL", Abc, U, N),
    ("GETGLOBAL", Abx, U, N),
    ("GETTABLE", Abc, R, K),
    ("SETGLOBAL", Abx, U, N),
    ("SETUPVAL", Abc, U, N),
    ("SETTABLE", Abc, K, K),
    ("NEWTABLE", Abc, H, H),
    ("SELF", Abc, R, K),
    ("ADD", Abc, K, K),
    ("SUB", Abc, K, K),
    ("MUL", Abc, K, K),
    ("DIV", Abc, K, K),
    ("POW", Abc, K, K),
    ("UNM", Abc, R, N),
    ("NOT", Abc, R, N),
    ("CONCAT", Abc, R, R),
    ("JMP", Asbx, U, N),
    ("EQ", Abc, K, K),
    ("LT", Abc, K, K),
    ("LE", Abc, K, K),
    ("TEST", Abc, R, U),
    ("CALL", Abc, U, U),
    ("TAILCALL", Abc, U, U),
    ("RETURN", Abc, U, N),
    ("FORLOOP", Asbx, U, N),
    ("TFORLOOP", Abc, N, U),
    ("TFORPREP", Asbx, U, N),
    ("SETLIST", Abx, U, N),
    ("SETLISTO", Abx, U, N),
    ("CLOSE", Abc, N, N),
    ("CLOSURE", Abx, U, N),
];

pub fn ops(ver: Ver) -> &'static [Op] {
    match ver {
        Ver::L50 => &OPS50,
        Ver::L51 => &OPS51,
    }
}

pub fn opnum(ver: Ver, name: &str) -> u32 {
    ops(ver).iter().position(|o| o.0 == name).unwrap_or_else(|| panic!("no opcode {name}")) as u32
}

/// Marks a constant in a register/constant operand.
pub const KBIT: u64 = 1 << 40;

/// Opcode of a raw instruction word (5.1 `SETLIST` with C = 0 is followed by one).
pub const RAW: u32 = 255;

#[derive(Clone, PartialEq, Debug)]
pub struct Ins {
    pub op: u32,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    pub bx: i64,
}

impl Ins {
    pub fn abc(op: u32, a: u64, b: u64, c: u64) -> Self {
        Ins { op, a, b, c, bx: 0 }
    }

    pub fn abx(op: u32, a: u64, bx: i64) -> Self {
        Ins { op, a, b: 0, c: 0, bx }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Num {
    F(f64),
    I(i64),
}

impl PartialEq for Num {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Num::F(a), Num::F(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (Num::I(a), Num::I(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum K {
    Nil,
    Bool(bool),
    Num(Num),
    Str(Vec<u8>),
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Proto {
    /// All strings are the raw bytes, including the terminating zero.
    pub source: Vec<u8>,
    pub line: i64,
    pub last_line: i64,
    pub nups: u8,
    pub nparams: u8,
    pub vararg: u8,
    pub maxstack: u8,
    pub code: Vec<Ins>,
    pub consts: Vec<K>,
    pub protos: Vec<Proto>,
    pub lines: Vec<i64>,
    pub locals: Vec<(Vec<u8>, i64, i64)>,
    pub upvals: Vec<Vec<u8>>,
}

impl Proto {
    pub fn walk(&self, f: &mut dyn FnMut(&Proto)) {
        f(self);
        for p in &self.protos {
            p.walk(f);
        }
    }

    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut Proto)) {
        f(self);
        for p in &mut self.protos {
            p.walk_mut(f);
        }
    }

    pub fn strip(&mut self) {
        self.walk_mut(&mut |p| {
            p.source.clear();
            p.lines.clear();
            p.locals.clear();
            p.upvals.clear();
        });
    }

    pub fn total_code(&self) -> usize {
        let mut n = 0;
        self.walk(&mut |p| n += p.code.len());
        n
    }
}

// ---------------------------------------------------------------- layouts

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Lay {
    /// (operand, size) from the least significant bit.
    pub spec: [(char, u32); 4],
}

impl Lay {
    pub const L51: Lay = Lay { spec: [('O', 6), ('A', 8), ('C', 9), ('B', 9)] };
    pub const L50: Lay = Lay { spec: [('O', 6), ('C', 9), ('B', 9), ('A', 8)] };

    pub fn field(&self, which: char) -> (u32, u32) {
        let mut pos = 0;
        for (k, s) in self.spec {
            if k == which {
                return (pos, s);
            }
            pos += s;
        }
        unreachable!()
    }

    pub fn size(&self, which: char) -> u32 {
        self.field(which).1
    }

    pub fn bx(&self) -> (u32, u32) {
        let (bp, bs) = self.field('B');
        let (cp, cs) = self.field('C');
        (bp.min(cp), bs + cs)
    }

    pub fn total(&self) -> u32 {
        self.spec.iter().map(|s| s.1).sum()
    }

    pub fn operands(&self) -> [OperandType; 4] {
        self.spec.map(|(k, s)| match k {
            'O' => OperandType::Opcode(s as u64),
            'A' => OperandType::A(s as u64),
            'B' => OperandType::B(s as u64),
            _ => OperandType::C(s as u64),
        })
    }

    pub fn to_lunify(&self) -> InstructionLayout {
        InstructionLayout::from_specification(self.operands()).expect("valid layout was rejected")
    }

    /// Random layout in which every operand of luac's output fits.
    pub fn random(rng: &mut Rng, max_total: u32) -> Lay {
        let mut sizes = [6u32, 8, 9, 9]; // O A B C
        let limits = [31u32, 31, 31, 31];
        let mut spare = max_total - 32;
        if rng.chance(30) {
            spare = spare.min(6);
        }
        while spare > 0 && rng.chance(85) {
            let i = rng.us(4);
            let add = (1 + rng.below(8) as u32).min(spare).min(limits[i] - sizes[i]);
            sizes[i] += add;
            spare -= add;
        }
        // Constants are marked with the highest bit of B, which has to fit in C.
        if sizes[3] < sizes[2] {
            sizes.swap(2, 3);
        }
        Lay::arrange(rng, sizes)
    }

    pub fn arrange(rng: &mut Rng, sizes: [u32; 4]) -> Lay {
        let bc = match rng.chance(50) {
            true => [('B', sizes[2]), ('C', sizes[3])],
            false => [('C', sizes[3]), ('B', sizes[2])],
        };
        let o = ('O', sizes[0]);
        let a = ('A', sizes[1]);
        let spec = match rng.below(6) {
            0 => [o, a, bc[0], bc[1]],
            1 => [a, o, bc[0], bc[1]],
            2 => [o, bc[0], bc[1], a],
            3 => [a, bc[0], bc[1], o],
            4 => [bc[0], bc[1], o, a],
            _ => [bc[0], bc[1], a, o],
        };
        Lay { spec }
    }
}

// ---------------------------------------------------------------- configuration

/// Everything needed to read or write a chunk.
#[derive(Clone, Debug)]
pub struct Enc {
    pub ver: Ver,
    pub fmt: Format,
    pub lay: Lay,
    pub sig: &'static str,
    /// Only for 5.0: first number that stands for a constant.
    pub stack_limit: u64,
    pub fpf: u64,
    /// Byte that stands for true. Lua accepts everything except zero.
    pub truth: u8,
}

pub const NATIVE: Format = Format {
    format: 0,
    endianness: Endianness::Little,
    integer_width: BitWidth::Bit32,
    size_t_width: BitWidth::Bit64,
    instruction_width: BitWidth::Bit32,
    number_width: BitWidth::Bit64,
    is_number_integral: false,
};

impl Enc {
    pub fn native51(fpf: u64) -> Enc {
        Enc { ver: Ver::L51, fmt: NATIVE, lay: Lay::L51, sig: "\x1bLua", stack_limit: 250, fpf, truth: 1 }
    }

    pub fn native50(fpf: u64) -> Enc {
        Enc { ver: Ver::L50, fmt: NATIVE, lay: Lay::L50, sig: "\x1bLua", stack_limit: 250, fpf, truth: 1 }
    }

    pub fn random(rng: &mut Rng, ver: Ver, fpf: u64) -> Enc {
        let fmt = random_format(rng);
        let max = match fmt.instruction_width {
            BitWidth::Bit32 => 32,
            BitWidth::Bit64 => 64,
        };
        let lay = match rng.chance(25) {
            true => match ver {
                Ver::L50 => Lay::L50,
                Ver::L51 => Lay::L51,
            },
            false => Lay::random(rng, max),
        };
        Enc { ver, fmt, lay, sig: random_signature(rng), stack_limit: 250, fpf, truth: 1 }
    }
}

pub fn random_signature(rng: &mut Rng) -> &'static str {
    match rng.chance(70) {
        true => "\x1bLua",
        false => *rng.pick(&["\x1bLul", "\x1bLuX", "XLua", "\x1b\u{e9}ua", "long signature \u{1F600}", "\x1bL", "q"]),
    }
}

pub fn width(rng: &mut Rng) -> BitWidth {
    match rng.chance(50) {
        true => BitWidth::Bit32,
        false => BitWidth::Bit64,
    }
}

/// Random format that can hold every double.
pub fn random_format(rng: &mut Rng) -> Format {
    Format {
        format: match rng.chance(70) {
            true => 0,
            false => rng.next() as u8,
        },
        endianness: match rng.chance(50) {
            true => Endianness::Little,
            false => Endianness::Big,
        },
        integer_width: width(rng),
        size_t_width: width(rng),
        instruction_width: width(rng),
        number_width: BitWidth::Bit64,
        is_number_integral: false,
    }
}

/// Use a narrower or integral number type if every constant is exact in it.
pub fn random_number_type(rng: &mut Rng, fmt: &mut Format, proto: &Proto) {
    if rng.chance(50) {
        return;
    }
    let (mut f32_ok, mut i64_ok, mut i32_ok) = (true, true, true);
    proto.walk(&mut |p| {
        for k in &p.consts {
            let K::Num(n) = k else { continue };
            match *n {
                Num::F(v) => {
                    f32_ok &= v as f32 as f64 == v;
                    let integral = v == v.trunc() && v.abs() < 9007199254740992.0 && !(v == 0.0 && v.is_sign_negative());
                    i64_ok &= integral;
                    i32_ok &= integral && v.abs() < 2147483648.0;
                }
                Num::I(v) => {
                    f32_ok &= v.unsigned_abs() < 1 << 24;
                    i32_ok &= i32::try_from(v).is_ok();
                }
            }
        }
    });
    match rng.below(3) {
        0 if f32_ok => fmt.number_width = BitWidth::Bit32,
        1 if i64_ok => fmt.is_number_integral = true,
        2 if i32_ok => {
            fmt.is_number_integral = true;
            fmt.number_width = BitWidth::Bit32;
        }
        _ => {}
    }
}

/// Any value of a setting that isn't supposed to matter.
pub fn random_limit(rng: &mut Rng) -> u64 {
    match rng.below(12) {
        0 => *rng.pick(&[1, 2, 100, 127, 128, 249, 251, 255, 256, 300, 511]),
        1 => rng.below(300) + 1,
        2 => 1 << rng.below(60),
        _ => 250,
    }
}

/// Settings for a conversion; the parts that don't concern the version of the
/// input are taken from `other`.
pub fn settings(input: &Enc, output: &Enc, other: &Enc) -> Settings<'static> {
    let (i50, i51) = match input.ver {
        Ver::L50 => (input, other),
        Ver::L51 => (other, input),
    };
    Settings {
        lua50: lua50::Settings {
            stack_limit: i50.stack_limit,
            fields_per_flush: i50.fpf,
            binary_signature: i50.sig,
            layout: i50.lay.to_lunify(),
        },
        lua51: lua51::Settings {
            stack_limit: i51.stack_limit,
            fields_per_flush: i51.fpf,
            binary_signature: i51.sig,
            layout: i51.lay.to_lunify(),
        },
        output: lua51::Settings {
            stack_limit: output.stack_limit,
            fields_per_flush: output.fpf,
            binary_signature: output.sig,
            layout: output.lay.to_lunify(),
        },
    }
}

// ---------------------------------------------------------------- encoder

/// What is at a position of an encoded chunk.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mark {
    /// Number of instructions, constants and so on.
    Count,
    /// Length of a string.
    Length,
    ConstantType,
    Instruction,
}

pub struct W<'a> {
    pub out: Vec<u8>,
    e: &'a Enc,
    pub marks: Vec<(usize, Mark)>,
}

fn w8(w: BitWidth) -> u8 {
    match w {
        BitWidth::Bit32 => 4,
        BitWidth::Bit64 => 8,
    }
}

impl<'a> W<'a> {
    fn raw(&mut self, v: u64, w: BitWidth) {
        match (w, self.e.fmt.endianness) {
            (BitWidth::Bit32, Endianness::Little) => self.out.extend((v as u32).to_le_bytes()),
            (BitWidth::Bit32, Endianness::Big) => self.out.extend((v as u32).to_be_bytes()),
            (BitWidth::Bit64, Endianness::Little) => self.out.extend(v.to_le_bytes()),
            (BitWidth::Bit64, Endianness::Big) => self.out.extend(v.to_be_bytes()),
        }
    }

    pub fn int(&mut self, v: i64) -> Result<(), String> {
        if self.e.fmt.integer_width == BitWidth::Bit32 && i32::try_from(v).is_err() {
            return Err("int".into());
        }
        self.raw(v as u64, self.e.fmt.integer_width);
        Ok(())
    }

    fn mark(&mut self, m: Mark) {
        self.marks.push((self.out.len(), m));
    }

    fn count(&mut self, n: usize) -> Result<(), String> {
        self.mark(Mark::Count);
        self.int(n as i64)
    }

    fn str(&mut self, s: &[u8]) {
        self.mark(Mark::Length);
        self.raw(s.len() as u64, self.e.fmt.size_t_width);
        self.out.extend(s);
    }

    fn num(&mut self, n: Num) -> Result<(), String> {
        let w = self.e.fmt.number_width;
        match self.e.fmt.is_number_integral {
            true => {
                let v = match n {
                    Num::I(v) => v,
                    Num::F(v) if v == v.trunc() && v.abs() < 9.2e18 => v as i64,
                    _ => return Err("num".into()),
                };
                if w == BitWidth::Bit32 && i32::try_from(v).is_err() {
                    return Err("num".into());
                }
                self.raw(v as u64, w);
            }
            false => {
                let v = match n {
                    Num::F(v) => v,
                    Num::I(v) => v as f64,
                };
                match w {
                    BitWidth::Bit32 => self.raw((v as f32).to_bits() as u64, w),
                    BitWidth::Bit64 => self.raw(v.to_bits(), w),
                }
            }
        }
        Ok(())
    }

    fn ins(&mut self, i: &Ins) -> Result<(), String> {
        let v = encode_ins(self.e, i)?;
        if i.op != RAW {
            self.mark(Mark::Instruction);
        }
        if self.e.fmt.instruction_width == BitWidth::Bit32 && v > u32::MAX as u64 {
            return Err("instruction".into());
        }
        self.raw(v, self.e.fmt.instruction_width);
        Ok(())
    }

    fn proto(&mut self, p: &Proto) -> Result<(), String> {
        self.str(&p.source);
        self.int(p.line)?;
        if self.e.ver == Ver::L51 {
            self.int(p.last_line)?;
        }
        self.out.extend([p.nups, p.nparams, p.vararg, p.maxstack]);
        match self.e.ver {
            Ver::L51 => {
                self.code(p)?;
                self.consts(p)?;
                self.protos(p)?;
                self.lines(p)?;
                self.locals(p)?;
                self.upvals(p)
            }
            Ver::L50 => {
                self.lines(p)?;
                self.locals(p)?;
                self.upvals(p)?;
                self.consts(p)?;
                self.protos(p)?;
                self.code(p)
            }
        }
    }

    fn code(&mut self, p: &Proto) -> Result<(), String> {
        self.count(p.code.len())?;
        p.code.iter().try_for_each(|i| self.ins(i))
    }

    fn consts(&mut self, p: &Proto) -> Result<(), String> {
        self.count(p.consts.len())?;
        for k in &p.consts {
            self.mark(Mark::ConstantType);
            match k {
                K::Nil => self.out.push(0),
                K::Bool(b) => self.out.extend([1, if *b { self.e.truth } else { 0 }]),
                K::Num(n) => {
                    self.out.push(3);
                    self.num(*n)?;
                }
                K::Str(s) => {
                    self.out.push(4);
                    self.str(s);
                }
            }
        }
        Ok(())
    }

    fn protos(&mut self, p: &Proto) -> Result<(), String> {
        self.count(p.protos.len())?;
        p.protos.iter().try_for_each(|p| self.proto(p))
    }

    fn lines(&mut self, p: &Proto) -> Result<(), String> {
        self.count(p.lines.len())?;
        p.lines.iter().try_for_each(|l| self.int(*l))
    }

    fn locals(&mut self, p: &Proto) -> Result<(), String> {
        self.count(p.locals.len())?;
        for (n, s, e) in &p.locals {
            self.str(n);
            self.int(*s)?;
            self.int(*e)?;
        }
        Ok(())
    }

    fn upvals(&mut self, p: &Proto) -> Result<(), String> {
        self.count(p.upvals.len())?;
        p.upvals.iter().for_each(|u| self.str(u));
        Ok(())
    }
}

pub fn encode_ins(e: &Enc, i: &Ins) -> Result<u64, String> {
    if i.op == RAW {
        return Ok(i.bx as u64);
    }
    let (_, kind, kb, kc) = ops(e.ver)[i.op as usize];
    let put = |v: u64, (pos, size): (u32, u32)| match v >> size {
        0 => Ok(v << pos),
        _ => Err(format!("operand {v} doesn't fit in {size} bits")),
    };
    let rk = |v: u64, k: Arg| -> Result<u64, String> {
        match e.ver {
            _ if k == T && v >= 1 << (e.lay.size('B') - 1) => Err("register".into()),
            _ if k != K => Ok(v),
            Ver::L50 => match v & KBIT {
                0 if v >= e.stack_limit => Err("register".into()),
                0 => Ok(v),
                _ => Ok((v & !KBIT) + e.stack_limit),
            },
            Ver::L51 => {
                let bit = 1u64 << (e.lay.size('B') - 1);
                match v & KBIT {
                    _ if (v & !KBIT) >= bit => Err("constant or register".into()),
                    0 => Ok(v),
                    _ => Ok((v & !KBIT) | bit),
                }
            }
        }
    };
    let mut v = put(i.op as u64, e.lay.field('O'))? | put(i.a, e.lay.field('A'))?;
    // Hints don't have to fit.
    let hint = |v: u64, k: Arg, w: char| match k {
        H => v & ((1 << e.lay.size(w)) - 1),
        _ => v,
    };
    match kind {
        Abc => v |= put(hint(rk(i.b, kb)?, kb, 'B'), e.lay.field('B'))? | put(hint(rk(i.c, kc)?, kc, 'C'), e.lay.field('C'))?,
        Abx => {
            if i.bx < 0 {
                return Err("bx".into());
            }
            v |= put(i.bx as u64, e.lay.bx())?;
        }
        Asbx => {
            let max = ((1u64 << e.lay.bx().1) - 1) as i64 >> 1;
            let x = i.bx + max;
            if x < 0 {
                return Err("sbx".into());
            }
            v |= put(x as u64, e.lay.bx())?;
        }
    }
    Ok(v)
}

/// Number that Lua 5.0 puts into the header.
pub const TEST_NUMBER: f64 = 3.14159265358979323846E7;

pub fn header(e: &Enc) -> Vec<u8> {
    let mut w = W { out: e.sig.as_bytes().to_vec(), e, marks: Vec::new() };
    let f = e.fmt;
    let endian = (f.endianness == Endianness::Little) as u8;
    match e.ver {
        Ver::L51 => w.out.extend([
            0x51,
            f.format,
            endian,
            w8(f.integer_width),
            w8(f.size_t_width),
            w8(f.instruction_width),
            w8(f.number_width),
            f.is_number_integral as u8,
        ]),
        Ver::L50 => {
            w.out.extend([0x50, endian, w8(f.integer_width), w8(f.size_t_width), w8(f.instruction_width)]);
            w.out.extend(['O', 'A', 'B', 'C'].map(|o| e.lay.size(o) as u8));
            w.out.push(w8(f.number_width));
            match f.is_number_integral {
                true => w.num(Num::I(31415926)).unwrap(),
                false => w.num(Num::F(TEST_NUMBER)).unwrap(),
            }
        }
    }
    w.out
}

pub fn encode(e: &Enc, p: &Proto) -> Result<Vec<u8>, String> {
    Ok(encode_marked(e, p)?.0)
}

pub fn encode_marked(e: &Enc, p: &Proto) -> Result<(Vec<u8>, Vec<(usize, Mark)>), String> {
    let mut w = W { out: header(e), e, marks: Vec::new() };
    w.proto(p)?;
    Ok((w.out, w.marks))
}

/// Overwrite the word at a position.
pub fn patch(e: &Enc, data: &mut [u8], at: usize, v: u64, width: BitWidth) {
    let mut w = W { out: Vec::new(), e, marks: Vec::new() };
    w.raw(v, width);
    data[at..at + w.out.len()].copy_from_slice(&w.out);
}

// ---------------------------------------------------------------- decoder

pub struct Rd<'a> {
    d: &'a [u8],
    o: usize,
    e: &'a Enc,
}

type Res<T> = Result<T, String>;

impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Res<&'a [u8]> {
        let end = self.o.checked_add(n).ok_or("length")?;
        let s = self.d.get(self.o..end).ok_or_else(|| format!("truncated at {}", self.o))?;
        self.o = end;
        Ok(s)
    }

    fn byte(&mut self) -> Res<u8> {
        Ok(self.take(1)?[0])
    }

    fn raw(&mut self, w: BitWidth) -> Res<u64> {
        let big = self.e.fmt.endianness == Endianness::Big;
        Ok(match w {
            BitWidth::Bit32 => {
                let b: [u8; 4] = self.take(4)?.try_into().unwrap();
                (if big { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }) as u64
            }
            BitWidth::Bit64 => {
                let b: [u8; 8] = self.take(8)?.try_into().unwrap();
                if big {
                    u64::from_be_bytes(b)
                } else {
                    u64::from_le_bytes(b)
                }
            }
        })
    }

    fn signed(v: u64, w: BitWidth) -> i64 {
        match w {
            BitWidth::Bit32 => v as u32 as i32 as i64,
            BitWidth::Bit64 => v as i64,
        }
    }

    fn int(&mut self) -> Res<i64> {
        let w = self.e.fmt.integer_width;
        Ok(Self::signed(self.raw(w)?, w))
    }

    fn count(&mut self) -> Res<usize> {
        let n = self.int()?;
        if n < 0 || n as usize > self.d.len() {
            return Err(format!("impossible count {n} at {}", self.o));
        }
        Ok(n as usize)
    }

    fn str(&mut self) -> Res<Vec<u8>> {
        let n = self.raw(self.e.fmt.size_t_width)?;
        if n > self.d.len() as u64 {
            return Err(format!("impossible length {n} at {}", self.o));
        }
        Ok(self.take(n as usize)?.to_vec())
    }

    fn num(&mut self) -> Res<Num> {
        let w = self.e.fmt.number_width;
        let v = self.raw(w)?;
        Ok(match (self.e.fmt.is_number_integral, w) {
            (true, _) => Num::I(Self::signed(v, w)),
            (false, BitWidth::Bit32) => Num::F(f32::from_bits(v as u32) as f64),
            (false, BitWidth::Bit64) => Num::F(f64::from_bits(v)),
        })
    }

    fn proto(&mut self, depth: usize) -> Res<Proto> {
        if depth > 300 {
            return Err("nesting".into());
        }
        let mut p = Proto { source: self.str()?, line: self.int()?, ..Proto::default() };
        if self.e.ver == Ver::L51 {
            p.last_line = self.int()?;
        }
        p.nups = self.byte()?;
        p.nparams = self.byte()?;
        p.vararg = self.byte()?;
        p.maxstack = self.byte()?;
        match self.e.ver {
            Ver::L51 => {
                self.code(&mut p)?;
                self.consts(&mut p)?;
                self.protos(&mut p, depth)?;
                self.debug(&mut p)?;
            }
            Ver::L50 => {
                self.debug(&mut p)?;
                self.consts(&mut p)?;
                self.protos(&mut p, depth)?;
                self.code(&mut p)?;
            }
        }
        Ok(p)
    }

    fn code(&mut self, p: &mut Proto) -> Res<()> {
        let n = self.count()?;
        let mut next_is_raw = false;
        for i in 0..n {
            let v = self.raw(self.e.fmt.instruction_width)?;
            if next_is_raw {
                p.code.push(Ins::abx(RAW, 0, v as i64));
                next_is_raw = false;
                continue;
            }
            let ins = decode_ins(self.e, v).map_err(|m| format!("instruction {i}: {m}"))?;
            next_is_raw = self.e.ver == Ver::L51 && ins.op == 34 && ins.c == 0;
            p.code.push(ins);
        }
        Ok(())
    }

    fn consts(&mut self, p: &mut Proto) -> Res<()> {
        for _ in 0..self.count()? {
            let k = match self.byte()? {
                0 => K::Nil,
                1 => K::Bool(self.byte()? != 0),
                3 => K::Num(self.num()?),
                4 => K::Str(self.str()?),
                t => return Err(format!("constant type {t}")),
            };
            p.consts.push(k);
        }
        Ok(())
    }

    fn protos(&mut self, p: &mut Proto, depth: usize) -> Res<()> {
        for _ in 0..self.count()? {
            p.protos.push(self.proto(depth + 1)?);
        }
        Ok(())
    }

    fn debug(&mut self, p: &mut Proto) -> Res<()> {
        for _ in 0..self.count()? {
            p.lines.push(self.int()?);
        }
        for _ in 0..self.count()? {
            p.locals.push((self.str()?, self.int()?, self.int()?));
        }
        for _ in 0..self.count()? {
            p.upvals.push(self.str()?);
        }
        Ok(())
    }
}

pub fn decode_ins(e: &Enc, v: u64) -> Res<Ins> {
    let get = |(pos, size): (u32, u32)| (v >> pos) & ((1u64 << size) - 1);
    let op = get(e.lay.field('O'));
    let table = ops(e.ver);
    if op as usize >= table.len() {
        return Err(format!("opcode {op}"));
    }
    let (_, kind, kb, kc) = table[op as usize];
    let rk = |x: u64, k: Arg| match e.ver {
        _ if k != K => x,
        Ver::L50 if x >= e.stack_limit => (x - e.stack_limit) | KBIT,
        Ver::L50 => x,
        Ver::L51 => {
            let bit = 1u64 << (e.lay.size('B') - 1);
            match x & bit {
                0 => x,
                _ => (x & !bit) | KBIT,
            }
        }
    };
    let a = get(e.lay.field('A'));
    Ok(match kind {
        Abc => Ins::abc(op as u32, a, rk(get(e.lay.field('B')), kb), rk(get(e.lay.field('C')), kc)),
        Abx => Ins::abx(op as u32, a, get(e.lay.bx()) as i64),
        Asbx => Ins::abx(op as u32, a, get(e.lay.bx()) as i64 - (((1u64 << e.lay.bx().1) - 1) >> 1) as i64),
    })
}

/// Strict decoder: the header has to be exactly what `e` says and nothing may
/// follow the main function.
pub fn decode(e: &Enc, data: &[u8]) -> Result<Proto, String> {
    let head = header(e);
    if !data.starts_with(&head) {
        return Err(format!("header is {:02x?}, expected {:02x?}", &data[..head.len().min(data.len())], head));
    }
    let mut r = Rd { d: data, o: head.len(), e };
    let p = r.proto(0)?;
    match r.o == data.len() {
        true => Ok(p),
        false => Err(format!("{} bytes after the main function", data.len() - r.o)),
    }
}

// ---------------------------------------------------------------- comparison

fn norm_num(n: Num) -> Num {
    match n {
        Num::I(v) if v as f64 as i128 == v as i128 => Num::F(v as f64),
        n => n,
    }
}

pub fn same_ins(ver: Ver, x: &Ins, y: &Ins) -> bool {
    if x.op != y.op {
        return false;
    }
    if x.op == RAW {
        return x.bx == y.bx;
    }
    let (name, kind, kb, kc) = ops(ver)[x.op as usize];
    if name == "JMP" {
        return x.bx == y.bx;
    }
    x.a == y.a
        && match kind {
            Abc => (matches!(kb, N | H) || x.b == y.b) && (matches!(kc, N | H) || x.c == y.c),
            _ => x.bx == y.bx,
        }
}

/// First difference between two functions that should be the same.
pub fn diff(ver: Ver, x: &Proto, y: &Proto, path: &str) -> Option<String> {
    macro_rules! field {
        ($($f:ident),*) => { $( if x.$f != y.$f { return Some(format!("{path}: {} {:?} became {:?}", stringify!($f), x.$f, y.$f)); } )* };
    }
    field!(source, line, last_line, nups, nparams, vararg, maxstack);
    if x.code.len() != y.code.len() {
        return Some(format!("{path}: {} instructions became {}", x.code.len(), y.code.len()));
    }
    for (i, (p, q)) in x.code.iter().zip(&y.code).enumerate() {
        if !same_ins(ver, p, q) {
            return Some(format!("{path}: instruction {i} {} became {}", show_ins(ver, p), show_ins(ver, q)));
        }
    }
    if x.consts.len() != y.consts.len() {
        return Some(format!("{path}: {} constants became {}", x.consts.len(), y.consts.len()));
    }
    for (i, (p, q)) in x.consts.iter().zip(&y.consts).enumerate() {
        let same = match (p, q) {
            (K::Num(p), K::Num(q)) => norm_num(*p) == norm_num(*q),
            _ => p == q,
        };
        if !same {
            return Some(format!("{path}: constant {i} {p:?} became {q:?}"));
        }
    }
    field!(lines, locals, upvals);
    if x.protos.len() != y.protos.len() {
        return Some(format!("{path}: {} functions became {}", x.protos.len(), y.protos.len()));
    }
    for (i, (p, q)) in x.protos.iter().zip(&y.protos).enumerate() {
        if let Some(d) = diff(ver, p, q, &format!("{path}/{i}")) {
            return Some(d);
        }
    }
    None
}

pub fn show_ins(ver: Ver, i: &Ins) -> String {
    if i.op == RAW {
        return format!("RAW {}", i.bx);
    }
    let (name, kind, _, _) = ops(ver)[i.op as usize];
    let s = |v: u64| match v & KBIT {
        0 => format!("{v}"),
        _ => format!("k{}", v & !KBIT),
    };
    match kind {
        Abc => format!("{name} {} {} {}", i.a, s(i.b), s(i.c)),
        _ => format!("{name} {} {}", i.a, i.bx),
    }
}

pub fn listing(ver: Ver, p: &Proto) -> String {
    let mut out = String::new();
    fn go(ver: Ver, p: &Proto, path: &str, out: &mut String) {
        out.push_str(&format!(
            "function {path}: params {} vararg {} stack {} upvalues {}\n",
            p.nparams, p.vararg, p.maxstack, p.nups
        ));
        for (i, ins) in p.code.iter().enumerate() {
            let line = p.lines.get(i).copied().unwrap_or(0);
            out.push_str(&format!("  [{i}] {:<24} line {line}\n", show_ins(ver, ins)));
        }
        for (i, k) in p.consts.iter().enumerate() {
            let k = match k {
                K::Str(s) => format!("{:?}", String::from_utf8_lossy(s)),
                k => format!("{k:?}"),
            };
            out.push_str(&format!("  k{i} = {k}\n"));
        }
        for (i, q) in p.protos.iter().enumerate() {
            go(ver, q, &format!("{path}/{i}"), out);
        }
    }
    go(ver, p, "main", &mut out);
    out
}
