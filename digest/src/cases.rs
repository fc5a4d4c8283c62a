//! Reads the cases of a file and converts them.

use std::panic::{catch_unwind, AssertUnwindSafe};

use lunify::{lua50, lua51, unify, BitWidth, Endianness, Format, InstructionLayout, OperandType, Settings};

struct Reader<'a>(&'a [u8], usize);

impl<'a> Reader<'a> {
    fn bytes(&mut self, n: usize) -> &'a [u8] {
        self.1 += n;
        &self.0[self.1 - n..self.1]
    }

    fn byte(&mut self) -> u8 {
        self.1 += 1;
        self.0[self.1 - 1]
    }

    fn u64(&mut self) -> u64 {
        self.1 += 8;
        u64::from_le_bytes(self.0[self.1 - 8..self.1].try_into().unwrap())
    }

    fn width(&mut self) -> BitWidth {
        match self.byte() {
            4 => BitWidth::Bit32,
            _ => BitWidth::Bit64,
        }
    }

    fn common(&mut self) -> (u64, u64, &'a str, InstructionLayout) {
        let (limit, fpf) = (self.u64(), self.u64());
        let n = self.u64() as usize;
        let signature = std::str::from_utf8(self.bytes(n)).unwrap();
        let mut next = || {
            let (k, n) = (self.byte(), self.byte() as u64);
            match k {
                b'O' => OperandType::Opcode(n),
                b'A' => OperandType::A(n),
                b'B' => OperandType::B(n),
                _ => OperandType::C(n),
            }
        };
        let specification = [next(), next(), next(), next()];
        (limit, fpf, signature, InstructionLayout::from_specification(specification).unwrap())
    }
}

pub struct Case<'a> {
    pub input: &'a [u8],
    pub format: Format,
    pub settings: Settings<'a>,
}

pub fn read(data: &[u8]) -> Vec<Case<'_>> {
    let mut r = Reader(data, 0);
    let mut cases = Vec::new();
    while r.1 < r.0.len() {
        let n = r.u64() as usize;
        let input = r.bytes(n);
        let format = Format {
            format: r.byte(),
            endianness: match r.byte() {
                0 => Endianness::Big,
                _ => Endianness::Little,
            },
            integer_width: r.width(),
            size_t_width: r.width(),
            instruction_width: r.width(),
            number_width: r.width(),
            is_number_integral: r.byte() == 1,
        };
        let (stack_limit, fields_per_flush, binary_signature, layout) = r.common();
        let lua50 = lua50::Settings { stack_limit, fields_per_flush, binary_signature, layout };
        let mut lua51 = || {
            let (stack_limit, fields_per_flush, binary_signature, layout) = r.common();
            lua51::Settings { stack_limit, fields_per_flush, binary_signature, layout }
        };
        let settings = Settings { lua50, lua51: lua51(), output: lua51() };
        cases.push(Case { input, format, settings });
    }
    cases
}

pub fn convert(c: &Case) -> Result<Vec<u8>, String> {
    match catch_unwind(AssertUnwindSafe(|| unify(c.input, &c.format, &c.settings))) {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(e)) => Err(format!("err {e:?}")),
        Err(_) => Err("panic".into()),
    }
}
