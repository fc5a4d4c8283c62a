//! Generator for Lua programs that always terminate, don't depend on the order
//! of hash tables, and trace everything they do.

use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    General,
    Tables,
    Loops,
    Varargs,
    Jumps,
    Closures,
    Constants,
}

#[derive(Clone, Copy, PartialEq)]
enum Ty {
    Num,
    Str,
    Bool,
    Arr,
    /// Function with fixed parameters (all numbers) that returns one number.
    Fun(usize),
    /// Function with a variable number of arguments that returns two values.
    VarFun(usize),
}

#[derive(Clone)]
struct Var {
    name: String,
    ty: Ty,
    level: usize,
    read_only: bool,
}

#[derive(Default)]
struct Frame {
    locals: usize,
    upvalues: Vec<String>,
    vararg: bool,
    loops: usize,
    calls: usize,
    /// Local variables in unusually large numbers.
    crowd: bool,
}

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    v50: bool,
    focus: Focus,
    vars: Vec<Var>,
    frames: Vec<Frame>,
    next: usize,
    fuel: i64,
    out: String,
    /// Percentage of places where a line break is possible and gets one.
    breaks: u64,
    /// Biggest list in a table constructor.
    pub list_limit: usize,
    fpf: usize,
    pub integral: bool,
    /// Functions that are called while building something else.
    trace_args: u64,
    in_protected: bool,
    constructor_depth: usize,
}

pub struct Program {
    pub source: String,
}

pub fn program(rng: &mut Rng, v50: bool, focus: Focus, size: i64, fpf: usize) -> Program {
    let breaks = *rng.pick(&[0, 0, 10, 40]);
    let integral = rng.chance(20);
    let list_limit = match focus {
        Focus::Tables => 260,
        _ => 70,
    };
    let mut g = Gen {
        rng,
        v50,
        focus,
        vars: Vec::new(),
        frames: vec![Frame { vararg: !v50, ..Frame::default() }],
        next: 0,
        fuel: size,
        out: String::new(),
        breaks,
        list_limit,
        fpf,
        integral,
        trace_args: 60,
        in_protected: false,
        constructor_depth: 0,
    };
    if focus == Focus::Constants {
        g.many_constants();
    }
    if g.rng.chance(8) {
        g.crowd();
    }
    while g.fuel > 0 {
        g.statement(0);
    }
    g.line("T('end')");
    if g.rng.chance(40) {
        let e = g.any(2);
        let f = g.any(2);
        g.line(&format!("return {e}, {f}"));
    }
    Program { source: g.out }
}

impl<'a> Gen<'a> {
    fn line(&mut self, s: &str) {
        self.out.push_str(s);
        self.out.push('\n');
    }

    fn nl(&mut self) -> &'static str {
        match self.rng.chance(self.breaks) {
            true => "\n",
            false => " ",
        }
    }

    fn level(&self) -> usize {
        self.frames.len()
    }

    fn frame(&mut self) -> &mut Frame {
        self.frames.last_mut().unwrap()
    }

    fn fresh(&mut self, prefix: &str) -> String {
        self.next += 1;
        format!("{prefix}{}", self.next)
    }

    fn declare(&mut self, name: &str, ty: Ty, read_only: bool) {
        let level = self.level();
        self.frame().locals += 1;
        self.vars.push(Var { name: name.into(), ty, level, read_only });
    }

    fn can_declare(&self) -> bool {
        self.frames.last().unwrap().locals < 45
    }

    /// Leave a block that started with `n` variables.
    fn leave(&mut self, n: usize) {
        let level = self.level();
        let removed = self.vars[n..].iter().filter(|v| v.level == level).count();
        self.vars.truncate(n);
        self.frame().locals -= removed;
    }

    fn usable(&self, v: &Var) -> bool {
        if v.level == 0 || v.level == self.level() {
            return true;
        }
        // Every function in between needs an upvalue for it.
        self.frames[v.level..].iter().all(|f| f.upvalues.len() < 26 || f.upvalues.contains(&v.name))
    }

    fn find(&mut self, write: bool, f: impl Fn(Ty) -> bool) -> Option<Var> {
        let candidates: Vec<usize> = (0..self.vars.len())
            .filter(|i| {
                let v = &self.vars[*i];
                f(v.ty) && !(write && v.read_only) && self.usable(v)
            })
            .collect();
        if candidates.is_empty() {
            return None;
        }
        // Prefer recent ones, and in closures the ones from outside.
        let level = self.level();
        let outer: Vec<usize> = candidates.iter().copied().filter(|i| self.vars[*i].level < level && self.vars[*i].level > 0).collect();
        let i = if !outer.is_empty() && self.rng.chance(40) {
            *self.rng.pick(&outer)
        } else {
            let n = candidates.len();
            match self.rng.chance(50) {
                true => candidates[n - 1 - self.rng.us(n.min(4))],
                false => *self.rng.pick(&candidates),
            }
        };
        let v = self.vars[i].clone();
        if v.level > 0 && v.level < level {
            for f in &mut self.frames[v.level..] {
                if !f.upvalues.contains(&v.name) {
                    f.upvalues.push(v.name.clone());
                }
            }
        }
        Some(v)
    }

    // ------------------------------------------------------------ expressions

    fn num_literal(&mut self) -> String {
        if self.integral {
            return self.rng.range(0, 2000).to_string();
        }
        match self.rng.below(12) {
            0 => format!("{}.5", self.rng.below(100)),
            1 => format!("{}", self.rng.below(1 << 33)),
            2 => ["1e10", "0.1", "2147483648", "1e300", "4294967296", "1e-5", "9007199254740993", "65536", "0.30000000000000004"]
                [self.rng.us(9)]
            .into(),
            3 => format!("{}", self.rng.below(1000)),
            _ => format!("{}", self.rng.below(20)),
        }
    }

    pub fn str_literal(&mut self) -> String {
        if self.rng.chance(8) {
            // Raw bytes above 127, also without being valid UTF-8.
            return ["'\\200\\255\\1'", "'\\0zero\\0'", "'\\195\\164'", "'\\237\\160\\128'", "''", "'\\n\\r\\t'", "'\\128'", "\"it's\""]
                [self.rng.us(8)]
            .into();
        }
        let n = match self.rng.below(60) {
            0 => 100 + self.rng.us(300),
            _ => self.rng.us(8),
        };
        let s: String = (0..n).map(|_| (b'a' + self.rng.below(26) as u8) as char).collect();
        match self.rng.below(4) {
            0 => format!("'{s}'"),
            1 => format!("[[{s}]]"),
            _ => format!("\"{s}\""),
        }
    }

    fn traced(&mut self, e: String) -> String {
        if self.rng.chance(self.trace_args / 10) {
            format!("T({e})")
        } else {
            e
        }
    }

    fn call_allowed(&mut self) -> bool {
        let f = self.frames.last().unwrap();
        f.loops < 2 && f.calls < 12 && self.level() < 6
    }

    fn num(&mut self, d: usize) -> String {
        self.fuel -= 1;
        if d == 0 || self.fuel < -200 {
            if self.rng.chance(60) {
                if let Some(v) = self.find(false, |t| t == Ty::Num) {
                    return v.name;
                }
            }
            return self.num_literal();
        }
        let e = match self.rng.below(24) {
            0..=3 => self.num(0),
            4..=9 => {
                let ops: &[&str] = match self.v50 {
                    true => &["+", "-", "*", "/", "+", "-"],
                    false => &["+", "-", "*", "/", "%", "+", "-", "^"],
                };
                let op = *self.rng.pick(ops);
                let l = self.num(d - 1);
                let r = match op {
                    "^" => self.rng.below(4).to_string(),
                    "/" => format!("({} * 2 + 1)", self.num(0)),
                    _ => self.num(d - 1),
                };
                let nl = self.nl();
                format!("({l} {op}{nl}{r})")
            }
            10 => format!("-({})", self.num(d - 1)),
            11 | 12 => {
                let c = self.cond(d - 1);
                let (a, b) = (self.num(d - 1), self.num(d - 1));
                let nl = self.nl();
                format!("({c} and {a}{nl}or {b})")
            }
            13 | 14 => match self.find(false, |t| t == Ty::Arr) {
                Some(v) => {
                    let i = self.num(0);
                    let o = self.num(d - 1);
                    format!("(tonumber({}[{i}]) or {o})", v.name)
                }
                None => self.num(d - 1),
            },
            15..=17 if self.call_allowed() => self.num_call(d - 1),
            18 => format!("math.floor({})", self.num(d - 1)),
            19 => format!("string.len({})", self.str(d - 1)),
            20 if !self.v50 => match self.frames.last().unwrap().vararg {
                true => ["select('#', ...)", "(tonumber((...)) or 1)"][self.rng.us(2)].into(),
                false => format!("#{}", self.str(d - 1)),
            },
            20 => match self.frames.last().unwrap().vararg {
                true => format!("(tonumber(arg[{}]) or 7)", self.rng.range(1, 4)),
                false => format!("({})", self.num(d - 1)),
            },
            21 if self.level() < 4 => {
                let body = self.function_body(&[], false, 2, true);
                format!("(function(){body})()")
            }
            _ => {
                let m = *self.rng.pick(&["math.max", "math.min"]);
                let (a, b) = (self.num(d - 1), self.num(d - 1));
                format!("{m}({a}, {b})")
            }
        };
        self.traced(e)
    }

    /// A number inside of a function that is written out by the caller.
    fn inner_num(&mut self, d: usize) -> String {
        self.frames.push(Frame::default());
        let e = self.num(d);
        self.frames.pop();
        e
    }

    fn num_call(&mut self, d: usize) -> String {
        self.frame().calls += 1;
        let Some(v) = self.find(false, |t| matches!(t, Ty::Fun(_) | Ty::VarFun(_))) else {
            return self.num(0);
        };
        match v.ty {
            Ty::Fun(n) => {
                let args: Vec<String> = (0..n).map(|_| self.num(d.min(1))).collect();
                format!("{}({})", v.name, args.join(", "))
            }
            Ty::VarFun(n) => {
                let args = self.args(n, d.min(1));
                format!("({}({args}))", v.name)
            }
            _ => unreachable!(),
        }
    }

    /// Arguments for a variadic function with `n` fixed parameters.
    fn args(&mut self, n: usize, d: usize) -> String {
        let extra = *self.rng.pick(&[0, 0, 1, 2, 3, 5, 8]);
        let mut args: Vec<String> = (0..n).map(|_| self.num(d)).collect();
        for _ in 0..extra {
            let a = match self.rng.chance(70) {
                true => self.num(d),
                false => self.str(d),
            };
            args.push(a);
        }
        match self.rng.below(8) {
            0 => args.push(format!("unpack({{{}}})", self.list(6, d))),
            1 => args.push(self.spread()),
            _ => {}
        }
        args.join(", ")
    }

    /// Expression that results in all variable arguments.
    fn spread(&mut self) -> String {
        match (self.frames.last().unwrap().vararg && self.level() > 1, self.v50) {
            (true, true) => "unpack(arg)".into(),
            (_, false) if self.frames.last().unwrap().vararg => "...".into(),
            _ => {
                let (a, b) = (self.num(0), self.num(0));
                format!("unpack({{{a}, {b}}})")
            }
        }
    }

    fn list(&mut self, limit: usize, d: usize) -> String {
        let n = self.rng.us(limit + 1);
        let v: Vec<String> = (0..n).map(|_| self.num(d)).collect();
        v.join(", ")
    }

    fn str(&mut self, d: usize) -> String {
        self.fuel -= 1;
        if d == 0 || self.fuel < -200 {
            if self.rng.chance(50) {
                if let Some(v) = self.find(false, |t| t == Ty::Str) {
                    return v.name;
                }
            }
            return self.str_literal();
        }
        let e = match self.rng.below(10) {
            0 | 1 => self.str(0),
            2..=4 => {
                let n = 2 + self.rng.us(4);
                let mut parts = vec![self.str(d - 1)];
                for _ in 1..n {
                    let p = match self.rng.chance(60) {
                        true => self.str(d - 1),
                        false => format!("({})", self.num(d - 1)),
                    };
                    parts.push(p);
                }
                let nl = self.nl();
                format!("({})", parts.join(&format!(" ..{nl}")))
            }
            5 => {
                let n = self.rng.below(20);
                format!("string.sub({}, 1, {n})", self.str(d - 1))
            }
            6 => format!("tostring({})", self.num(d - 1)),
            7 => {
                let c = self.cond(d - 1);
                let (a, b) = (self.str(d - 1), self.str(d - 1));
                format!("({c} and {a} or {b})")
            }
            8 => {
                let a = self.any(d - 1);
                format!("type({a})")
            }
            _ => match self.find(false, |t| t == Ty::Str) {
                Some(v) => format!("{}:upper()", v.name),
                None => self.str(d - 1),
            },
        };
        self.traced(e)
    }

    fn cond(&mut self, d: usize) -> String {
        self.fuel -= 1;
        if d == 0 || self.fuel < -200 {
            return match self.rng.below(4) {
                0 => ["true", "false", "nil"][self.rng.us(3)].into(),
                _ => match self.find(false, |t| t == Ty::Bool) {
                    Some(v) => v.name,
                    None => {
                        let (a, b) = (self.num(0), self.num(0));
                        format!("({a} < {b})")
                    }
                },
            };
        }
        let e = match self.rng.below(12) {
            0 => self.cond(0),
            1..=4 => {
                let op = *self.rng.pick(&["<", "<=", ">", ">=", "==", "~="]);
                let (a, b) = (self.num(d - 1), self.num(d - 1));
                format!("({a} {op} {b})")
            }
            5 => {
                let op = *self.rng.pick(&["<", "<=", "==", "~=", ">"]);
                let (a, b) = (self.str(d - 1), self.str(d - 1));
                format!("({a} {op} {b})")
            }
            6 => format!("not {}", self.cond(d - 1)),
            7 | 8 => {
                let (a, b) = (self.cond(d - 1), self.cond(d - 1));
                let nl = self.nl();
                format!("({a} and{nl}{b})")
            }
            9 | 10 => {
                let (a, b) = (self.cond(d - 1), self.cond(d - 1));
                let nl = self.nl();
                format!("({a} or{nl}{b})")
            }
            _ => {
                let a = self.any(d - 1);
                format!("({a} == nil)")
            }
        };
        self.traced(e)
    }

    fn any(&mut self, d: usize) -> String {
        match self.rng.below(8) {
            0..=2 => self.num(d),
            3 | 4 => self.str(d),
            5 => self.cond(d),
            6 if d > 0 && self.constructor_depth < 2 => self.table(d - 1),
            6 => "nil".into(),
            _ => match self.find(false, |t| t == Ty::Arr) {
                Some(v) => v.name,
                None => "nil".into(),
            },
        }
    }

    fn list_size(&mut self) -> usize {
        let f = self.fpf.max(1);
        let limit = self.list_limit;
        let n = match self.rng.below(if self.focus == Focus::Tables { 10 } else { 30 }) {
            0 => f,
            1 => f + 1,
            2 => f.saturating_sub(1),
            3 => f * 2 + self.rng.us(3),
            4 => self.rng.us(limit),
            5 => 45 + self.rng.us(10),
            6 => f * self.rng.us(5),
            _ => self.rng.us(7),
        };
        n.min(limit)
    }

    /// A table constructor.
    fn table(&mut self, d: usize) -> String {
        self.fuel -= 1;
        self.constructor_depth += 1;
        let n = match self.constructor_depth {
            1 => self.list_size(),
            2 => self.list_size().min(60),
            _ => self.rng.us(4),
        };
        self.fuel -= (n / 8) as i64;
        let hash_rate = *self.rng.pick(&[0, 0, 10, 40]);
        let complex = *self.rng.pick(&[2, 10, 30]);
        let mut key = 0;
        let mut items: Vec<String> = Vec::new();
        let mut nested = 0;
        for i in 0..n {
            while self.rng.chance(hash_rate) && key < 30 {
                key += 1;
                let v = match self.rng.chance(complex) {
                    true => self.any(d.min(1)),
                    false => self.num(0),
                };
                items.push(match self.rng.below(3) {
                    0 => format!("k{key} = {v}"),
                    1 => format!("['key {key}'] = {v}"),
                    // Not a position of the list.
                    _ => format!("[{}] = {v}", 1000 + key),
                });
            }
            let item = if self.rng.chance(complex) && self.fuel > -100 {
                match self.rng.below(9) {
                    0 if nested < 3 => {
                        nested += 1;
                        self.table(d.saturating_sub(1))
                    }
                    1 | 2 => self.cond(d.min(2)),
                    3 => {
                        let c = self.cond(1);
                        let (a, b) = (self.num(1), self.num(1));
                        format!("{c} and {a} or {b}")
                    }
                    4 => format!("not {}", self.cond(0)),
                    5 if self.level() < 4 && nested < 3 => {
                        nested += 1;
                        let body = self.function_body(&[], false, 1, true);
                        format!("(function(){body})")
                    }
                    6 => self.str(d.min(2)),
                    7 => "nil".into(),
                    _ => self.num(d.min(2)),
                }
            } else if self.rng.chance(8) {
                // Runs of nil become a single instruction.
                let k = 1 + self.rng.us(4);
                vec!["nil"; k].join(", ")
            } else {
                match self.rng.below(8) {
                    0 => self.str(0),
                    1 => ["true", "false"][self.rng.us(2)].into(),
                    2 => self.num(0),
                    _ => format!("{}", i + 1),
                }
            };
            items.push(item);
        }
        // Values that are not known until the program runs.
        match self.rng.below(6) {
            0 => items.push(self.spread()),
            1 => items.push(format!("unpack({{{}}})", self.list(5, 0))),
            2 if self.call_allowed() => {
                if let Some(v) = self.find(false, |t| matches!(t, Ty::VarFun(_))) {
                    let Ty::VarFun(n) = v.ty else { unreachable!() };
                    let args = self.args(n, 0);
                    items.push(format!("{}({args})", v.name));
                }
            }
            _ => {}
        }
        self.constructor_depth -= 1;
        let mut s = String::from("{");
        for (i, item) in items.iter().enumerate() {
            if i > 0 {
                s.push_str([", ", "; "][self.rng.us(2)]);
                if self.rng.chance(self.breaks / 2) {
                    s.push('\n');
                }
            }
            s.push_str(item);
        }
        s.push('}');
        s
    }

    /// Parameters must have been put into `params`; returns the text between
    /// the parameter list and the closing `end` (included).
    fn function_body(&mut self, params: &[String], vararg: bool, size: i64, returns_number: bool) -> String {
        let saved_out = std::mem::take(&mut self.out);
        let saved_fuel = self.fuel;
        let protected = std::mem::replace(&mut self.in_protected, false);
        let depth = std::mem::replace(&mut self.constructor_depth, 0);
        self.fuel = size.min(saved_fuel.max(1));
        let n = self.vars.len();
        self.frames.push(Frame { vararg, ..Frame::default() });
        for p in params {
            self.declare(p, Ty::Num, false);
        }
        let before = self.fuel;
        self.out.push(' ');
        if self.rng.chance(3) {
            self.crowd();
        }
        while self.fuel > 0 {
            self.statement(1);
        }
        if returns_number {
            let e = match self.rng.chance(25) && self.call_allowed() {
                true => self.num_call(1),
                false => self.num(2),
            };
            match e.starts_with('T') || e.starts_with('f') {
                true => self.line(&format!("return {e}")),
                false => self.line(&format!("return ({e}) + 0")),
            }
        }
        let used = before - self.fuel;
        self.leave(n);
        self.frames.pop();
        self.fuel = saved_fuel - used.max(1);
        self.in_protected = protected;
        self.constructor_depth = depth;
        let body = std::mem::replace(&mut self.out, saved_out);
        format!("{body}end")
    }

    fn block(&mut self, depth: usize, n: usize) {
        let vars = self.vars.len();
        for _ in 0..n {
            self.statement(depth + 1);
            if self.fuel < -100 {
                break;
            }
        }
        self.leave(vars);
    }

    fn some(&mut self) -> usize {
        1 + self.rng.us(3)
    }

    // ------------------------------------------------------------ statements

    fn statement(&mut self, depth: usize) {
        self.fuel -= 2;
        if self.rng.chance(10) {
            self.out.push('\n');
        }
        if self.rng.below(400) == 0 {
            self.crowd();
        }
        let leaf = depth > 4 || self.fuel <= 0;
        let weights: [u64; 18] = match self.focus {
            // local assign table trace if while repeat for generic func varfun closure error multi do coroutine method break
            Focus::General => [5, 6, 3, 5, 4, 2, 2, 3, 3, 3, 2, 2, 2, 3, 1, 2, 2, 2],
            Focus::Tables => [2, 2, 14, 3, 1, 1, 1, 1, 1, 1, 2, 1, 0, 1, 0, 0, 0, 1],
            Focus::Loops => [3, 4, 2, 3, 2, 5, 4, 8, 8, 2, 1, 2, 1, 1, 1, 1, 0, 5],
            Focus::Varargs => [2, 2, 3, 3, 1, 1, 1, 1, 1, 2, 10, 1, 1, 4, 1, 1, 0, 1],
            Focus::Jumps => [3, 5, 2, 4, 8, 5, 5, 4, 4, 2, 1, 1, 1, 1, 1, 0, 0, 6],
            Focus::Closures => [4, 4, 1, 4, 2, 3, 3, 4, 4, 5, 2, 9, 1, 1, 2, 2, 2, 2],
            Focus::Constants => [4, 5, 3, 4, 3, 1, 1, 3, 3, 2, 2, 1, 1, 2, 1, 0, 1, 1],
        };
        let total: u64 = weights.iter().sum();
        let mut w = self.rng.below(total);
        let mut kind = 0;
        while w >= weights[kind] {
            w -= weights[kind];
            kind += 1;
        }
        if leaf && matches!(kind, 4..=12 | 14..=16) {
            kind = self.rng.us(4);
        }
        if self.frames.last().unwrap().loops >= 3 && matches!(kind, 5..=8) {
            kind = 3;
        }
        match kind {
            0 => self.local(),
            1 => self.assign(),
            2 => self.table_statement(),
            3 => self.trace(),
            4 => self.if_statement(depth),
            5 => self.while_statement(depth),
            6 => self.repeat_statement(depth),
            7 => self.for_statement(depth),
            8 => self.generic_for(depth),
            9 => self.function(false),
            10 => self.function(true),
            11 => self.closures(),
            12 => self.protected(),
            13 => self.multiple(),
            14 => {
                self.line("do");
                let n = self.some();
                self.block(depth, n);
                self.line("end");
            }
            15 => self.coroutine_or_meta(),
            16 => self.method(),
            _ => self.break_or_return(depth),
        }
    }

    fn local(&mut self) {
        if !self.can_declare() {
            return self.trace();
        }
        let (ty, e) = match self.rng.below(7) {
            0..=2 => (Ty::Num, self.num(3)),
            3 => (Ty::Str, self.str(3)),
            4 => (Ty::Bool, self.cond(3)),
            _ => (Ty::Arr, self.table(2)),
        };
        if self.rng.chance(15) {
            // Global instead of a local.
            let name = self.fresh("G");
            self.line(&format!("{name} = {e}"));
            // Only visible from here on, and never out of scope at runtime because
            // it is only used inside of the same block.
            self.vars.push(Var { name, ty, level: 0, read_only: false });
            return;
        }
        let name = self.fresh("l");
        let nl = self.nl();
        match ty {
            Ty::Arr if self.rng.chance(20) => {
                let m = self.fresh("n");
                self.line(&format!("local {m}, {name} ={nl}nil, {e}"));
                self.frame().locals += 1;
                // Not declared as a variable, but still takes up a register.
                let level = self.level();
                self.vars.push(Var { name: m, ty: Ty::Bool, level, read_only: false });
            }
            _ => self.line(&format!("local {name} ={nl}{e}")),
        }
        self.declare(&name, ty, false);
    }

    /// So many local variables that everything behind them is in high registers.
    fn crowd(&mut self) {
        if self.frames.iter().any(|f| f.crowd) || self.in_protected {
            return;
        }
        self.frame().crowd = true;
        let n = match self.rng.chance(50) {
            true => 90 + self.rng.us(60),
            false => 8 + self.rng.us(140),
        };
        let names: Vec<String> = (0..n).map(|_| self.fresh("z")).collect();
        let values: Vec<String> = (0..n).map(|i| (i % 90 + 1).to_string()).collect();
        self.line(&format!("local {} = {}", names.join(", "), values.join(", ")));
        let level = self.level();
        // The limit of `can_declare` leaves enough room for the others.
        for i in [0, n / 2, n - 1] {
            self.vars.push(Var { name: names[i].clone(), ty: Ty::Num, level, read_only: false });
            self.frame().locals += 1;
        }
    }

    fn value_of(&mut self, ty: Ty, d: usize) -> String {
        match ty {
            Ty::Num => self.num(d),
            Ty::Str => format!("string.sub({}, 1, 40)", self.str(d)),
            Ty::Bool => self.cond(d),
            _ => self.table(d.min(1)),
        }
    }

    fn assign(&mut self) {
        let Some(v) = self.find(true, |t| matches!(t, Ty::Num | Ty::Str | Ty::Bool)) else {
            return self.local();
        };
        let e = self.value_of(v.ty, 3);
        let nl = self.nl();
        self.line(&format!("{} ={nl}{e}", v.name));
    }

    fn table_statement(&mut self) {
        match (self.find(false, |t| t == Ty::Arr), self.rng.below(4)) {
            (Some(v), 0) => {
                let k = self.num(1);
                let e = self.any(2);
                // NaN is not a valid key.
                self.line(&format!("{}[math.min(9, math.max(1, {k})) == 3 and 3 or 2] = {e}", v.name));
            }
            (Some(v), 1) => {
                let k = 1 + self.rng.below(60);
                let e = self.num(2);
                self.line(&format!("{}[{k}] = {e}", v.name));
            }
            _ if self.can_declare() => {
                let name = self.fresh("t");
                let e = self.table(3);
                let nl = self.nl();
                self.line(&format!("local {name} ={nl}{e}"));
                self.declare(&name, Ty::Arr, false);
                self.line(&format!("T({name})"));
            }
            _ => {
                let e = self.table(3);
                self.line(&format!("T({e})"));
            }
        }
    }

    fn trace(&mut self) {
        let n = 1 + self.rng.us(3);
        let args: Vec<String> = (0..n).map(|_| self.any(3)).collect();
        let nl = self.nl();
        self.line(&format!("T({})", args.join(&format!(",{nl}"))));
    }

    fn if_statement(&mut self, depth: usize) {
        let c = self.cond(3);
        self.line(&format!("if {c} then"));
        let n = self.some();
        self.block(depth, n);
        for _ in 0..self.rng.us(3) {
            let c = self.cond(2);
            self.line(&format!("elseif {c} then"));
            let n = self.some();
            self.block(depth, n);
        }
        if self.rng.chance(50) {
            self.line("else");
            let n = self.some();
            self.block(depth, n);
        }
        self.line("end");
    }

    fn counter(&mut self) -> Option<String> {
        if !self.can_declare() {
            self.trace();
            return None;
        }
        let name = self.fresh("c");
        self.line(&format!("local {name} = 0"));
        self.declare(&name, Ty::Num, true);
        Some(name)
    }

    fn while_statement(&mut self, depth: usize) {
        let Some(c) = self.counter() else { return };
        let n = self.rng.below(6);
        let extra = match self.rng.chance(40) && !self.v50 {
            true => format!(" and {}", self.cond(2)),
            false if self.rng.chance(30) => match self.find(false, |t| t == Ty::Num) {
                Some(v) => format!(" and {} ~= 5", v.name),
                None => String::new(),
            },
            false => String::new(),
        };
        self.line(&format!("while {c} < {n}{extra} do"));
        self.line(&format!("{c} = {c} + 1"));
        self.frame().loops += 1;
        let n = self.some();
        self.block(depth, n);
        self.frame().loops -= 1;
        self.line("end");
        self.line(&format!("T({c})"));
    }

    fn repeat_statement(&mut self, depth: usize) {
        let Some(c) = self.counter() else { return };
        let n = 1 + self.rng.below(5);
        self.line("repeat");
        self.line(&format!("{c} = {c} + 1"));
        self.frame().loops += 1;
        let k = self.some();
        self.block(depth, k);
        self.frame().loops -= 1;
        let extra = match self.rng.chance(40) {
            true => format!(" or {}", self.cond(2)),
            false => String::new(),
        };
        self.line(&format!("until {c} >= {n}{extra}"));
        self.line(&format!("T({c})"));
    }

    fn for_statement(&mut self, depth: usize) {
        if !self.can_declare() {
            return self.trace();
        }
        let name = self.fresh("i");
        let (from, to, step) = match self.rng.below(6) {
            0 => ("1".to_string(), self.rng.range(0, 6).to_string(), String::new()),
            1 => (self.rng.range(-3, 3).to_string(), self.rng.range(-3, 6).to_string(), String::new()),
            2 => (self.rng.range(2, 8).to_string(), self.rng.range(-2, 5).to_string(), ", -1".into()),
            3 => ("0".into(), "3".into(), ", 0.5".into()),
            4 => {
                let a = self.num(1);
                (format!("math.max(0, math.min(3, {a}))"), "4".into(), format!(", {}", self.rng.range(1, 3)))
            }
            _ => (self.rng.range(1, 3).to_string(), self.rng.range(1, 7).to_string(), format!(", {}", self.rng.range(1, 3))),
        };
        self.line(&format!("for {name} = {from}, {to}{step} do"));
        let vars = self.vars.len();
        self.frame().locals += 3;
        self.frame().loops += 1;
        // Lua 5.0 uses the variable itself to count, so writing to it has an effect
        // there; only ever move it towards the end of the loop.
        self.declare(&name, Ty::Num, true);
        self.line(&format!("T({name})"));
        if self.rng.chance(10) && !step.starts_with(", -") {
            self.line(&format!("{name} = {name} + 1"));
        }
        let n = self.some();
        self.block(depth, n);
        if self.rng.chance(30) {
            self.line(&format!("T({name})"));
        }
        self.frame().loops -= 1;
        self.frame().locals -= 3;
        self.leave(vars);
        self.line("end");
    }

    fn generic_for(&mut self, depth: usize) {
        if !self.can_declare() {
            return self.trace();
        }
        let names: Vec<String> = (0..1 + self.rng.us(4)).map(|_| self.fresh("v")).collect();
        let count = names.len();
        let iterator = match self.rng.below(9) {
            0 | 1 => {
                let items: Vec<String> = (0..self.rng.us(6)).map(|_| self.num(1)).collect();
                format!("ipairs({{{}}})", items.join(", "))
            }
            2 => match self.find(false, |t| t == Ty::Arr) {
                // The order is only defined for the part in front of the first nil.
                Some(v) => format!("ipairs({})", v.name),
                None => "ipairs({})".into(),
            },
            3 => {
                let e = self.num(2);
                format!("pairs({{{e}}})")
            }
            4 => {
                let e = self.num(1);
                format!("next, {{key = {e}}}, nil")
            }
            // A table in place of the iterator function, only in Lua 5.0.
            5 | 6 if self.v50 => {
                let e = self.num(1);
                match self.rng.below(3) {
                    0 => format!("{{{e}}}"),
                    1 => "{}".into(),
                    _ => format!("{{key = {e}}}"),
                }
            }
            7 => {
                // Callable object.
                "setmetatable({}, {__call = function(self, s, k) if k < s then return k + 1, s, -k, s * k end end}), 3, 0".into()
            }
            _ => {
                let n = self.rng.below(5);
                let results = ["k + 1", "k + 1, s * k", "k + 1, nil, k", "k + 1, k, k * 2, k * 3, k * 4"][self.rng.us(4)];
                format!("(function(s, k) if k < s then return {results} end end), {n}, 0")
            }
        };
        self.line(&format!("for {} in {iterator} do", names.join(", ")));
        let vars = self.vars.len();
        self.frame().locals += 3;
        self.frame().loops += 1;
        self.line(&format!("T({})", names.join(", ")));
        for n in &names {
            // The types depend on the iterator, so they are never used as numbers.
            let level = self.level();
            self.frame().locals += 1;
            self.vars.push(Var { name: n.clone(), ty: Ty::Bool, level, read_only: true });
        }
        let n = self.some();
        self.block(depth, n);
        if self.rng.chance(15) && count > 1 {
            self.line(&format!("{} = T({})", names[count - 1], names[0]));
        }
        self.frame().loops -= 1;
        self.frame().locals -= 3;
        self.leave(vars);
        self.line("end");
    }

    fn function(&mut self, vararg: bool) {
        if !self.can_declare() || self.level() > 3 {
            return self.trace();
        }
        let name = self.fresh("f");
        let n = match self.rng.below(10) {
            0 => 4 + self.rng.us(9),
            _ => self.rng.us(4),
        };
        let params: Vec<String> = (0..n).map(|_| self.fresh("p")).collect();
        let mut list = params.clone();
        if vararg {
            list.push("...".into());
        }
        let size = self.rng.range(1, 12);
        let body = match vararg {
            false => self.function_body(&params, false, size, true),
            true => {
                let nparams = n;
                let inner = self.vararg_body(&params, size);
                let _ = nparams;
                inner
            }
        };
        // Bigger recursion through another name.
        let global = self.rng.chance(15);
        match global {
            true => self.line(&format!("{name} = function({}){body}", list.join(", "))),
            false => self.line(&format!("local function {name}({}){body}", list.join(", "))),
        }
        let ty = match vararg {
            true => Ty::VarFun(n),
            false => Ty::Fun(n),
        };
        match global {
            true => self.vars.push(Var { name: name.clone(), ty, level: 0, read_only: true }),
            false => self.declare(&name, ty, true),
        }
        if vararg {
            let args = self.args(n, 1);
            self.line(&format!("T({name}({args}))"));
        } else if self.rng.chance(40) {
            let args: Vec<String> = (0..n).map(|_| self.num(1)).collect();
            self.line(&format!("T({name}({}))", args.join(", ")));
        }
    }

    fn vararg_body(&mut self, params: &[String], size: i64) -> String {
        let uses: Vec<String> = match self.v50 {
            true => {
                let mut u: Vec<String> = vec![
                    "T(arg[1], arg[2], arg[3])".into(),
                    "T(arg)".into(),
                    "T(unpack(arg))".into(),
                    "T({unpack(arg)})".into(),
                    "for vi, vv in ipairs(arg) do T(vi, vv) end".into(),
                    "arg[1] = 99".into(),
                    "local a1, a2 = unpack(arg) T(a1, a2)".into(),
                    "(function(...) T(arg[1]) end)(unpack(arg))".into(),
                    "(function() T(arg[1]) end)()".into(),
                    "T(table.concat({'x', 'y'}), arg[20])".into(),
                    "arg = {5, 6} T(arg[1])".into(),
                ];
                u.push(format!("T({})", self.num(2)));
                u
            }
            false => {
                let mut u: Vec<String> = vec![
                    "T(...)".into(),
                    "T({...})".into(),
                    "T(select('#', ...))".into(),
                    "local a1, a2, a3 = ... T(a1, a2, a3)".into(),
                    "T((...))".into(),
                    "T({1, 2, ...})".into(),
                    "T({..., 3})".into(),
                    "for vi, vv in ipairs({...}) do T(vi, vv) end".into(),
                    "(function(...) T(...) end)(...)".into(),
                    "T(unpack({...}))".into(),
                ];
                u.push(format!("T({}, ...)", self.num(2)));
                u
            }
        };
        let chosen: Vec<String> = (0..1 + self.rng.us(3)).map(|_| self.rng.pick(&uses).clone()).collect();
        let body = self.function_body(params, true, size, false);
        let body = body.strip_suffix("end").unwrap();
        let wrap = |s: &String| format!(" do {s} end\n");
        let chosen: String = chosen.iter().map(wrap).collect();
        let result = match (self.v50, self.rng.below(4)) {
            (true, 0) => "return 1, unpack(arg)",
            (true, 1) => "return tonumber(arg[1]) or 1, 2",
            (false, 0) => "return 1, ...",
            (false, 1) => "return select('#', ...), ...",
            _ => "return 1, 2",
        };
        match self.rng.chance(50) {
            true => format!("{chosen}{body}{result} end"),
            false => format!("{body}{chosen}{result} end"),
        }
    }

    fn closures(&mut self) {
        if !self.can_declare() || self.level() > 3 {
            return self.trace();
        }
        let t = self.fresh("fs");
        self.line(&format!("local {t} = {{}}"));
        // Reserve the register without making it available to other statements.
        let level = self.level();
        self.frame().locals += 1;
        self.vars.push(Var { name: t.clone(), ty: Ty::Fun(usize::MAX), level, read_only: true });
        let marker = self.vars.len() - 1;
        self.vars[marker].ty = Ty::Bool;
        let n = 1 + self.rng.below(4);
        let kind = self.rng.below(4);
        let i = self.fresh("q");
        match kind {
            0 => self.line(&format!("for {i} = 1, {n} do")),
            1 => self.line(&format!("for {i}, w{i} in ipairs({{10, 20, 30}}) do")),
            2 => {
                self.line(&format!("local {i} = 0"));
                self.line(&format!("while {i} < {n} do {i} = {i} + 1"));
            }
            _ => {
                self.line(&format!("local {i} = 0"));
                self.line(&format!("repeat {i} = {i} + 1"));
            }
        }
        let x = self.fresh("x");
        let e = self.num(1);
        self.line(&format!("local {x} = {i} * 10 + {e} * 0"));
        match self.rng.below(4) {
            0 => self.line(&format!("{t}[{i}] = function(d) {x} = {x} + d return {x} end")),
            1 => self.line(&format!("{t}[{i}] = function(d) local y = {x} return function() y = y + d; {x} = {x} + y return y, {x} end end")),
            2 => self.line(&format!("{t}[{i}] = function(d) {x} = {x} + d return {x} + {i} end")),
            _ => self.line(&format!(
                "{t}[{i}] = function(d) {x} = {x} + d return {x} end; {t}[-{i}] = function() return {x} end"
            )),
        }
        if self.rng.chance(30) {
            let c = self.cond(1);
            self.line(&format!("if {c} then break end"));
        }
        if self.rng.chance(20) {
            self.line(&format!("{x} = {x} + 1000"));
        }
        match kind {
            3 => self.line(&format!("until {i} >= {n}")),
            _ => self.line("end"),
        }
        self.line(&format!("for z{t} = -4, 4 do local f = {t}[z{t}] if f then local r, s = f(1) T(z{t}, type(r) == 'function' and r() or r, s) end end"));
        self.line(&format!("for z{t} = -4, 4 do local f = {t}[z{t}] if f then local r = f(2) T(z{t}, type(r) == 'function' and r() or r) end end"));
        if matches!(kind, 2 | 3) {
            self.frame().locals += 1;
            let level = self.level();
            self.vars.push(Var { name: i, ty: Ty::Num, level, read_only: true });
        }
    }

    fn protected(&mut self) {
        if self.in_protected || self.level() > 3 {
            return self.trace();
        }
        let size = self.rng.range(1, 6);
        let mut body = self.function_body(&[], false, size, false);
        body.truncate(body.len() - 3);
        let bad = match self.rng.below(7) {
            0 => "error('message', 0)".to_string(),
            1 => "error('with position')".into(),
            2 => "local z = nil; z = z + 1".into(),
            3 => "local z = nil; z.field = 1".into(),
            4 => "error({5})".into(),
            5 => "undefined_function()".into(),
            _ => format!("return 1, {}", self.inner_num(1)),
        };
        self.line(&format!("T(pcall(function(){body}\n{bad}\nend))"));
    }

    fn multiple(&mut self) {
        match self.rng.below(4) {
            0 => {
                let (Some(a), Some(b)) = (self.find(true, |t| t == Ty::Num), self.find(true, |t| t == Ty::Num)) else {
                    return self.local();
                };
                if a.name == b.name {
                    return self.assign();
                }
                let (x, y) = (self.num(2), self.num(1));
                match self.rng.chance(40) {
                    true => self.line(&format!("{}, {} = {}, {}", a.name, b.name, b.name, a.name)),
                    false => self.line(&format!("{}, {} = {x}, {y}", a.name, b.name)),
                }
            }
            1 | 2 if self.can_declare() && self.call_allowed() => {
                let Some(f) = self.find(false, |t| matches!(t, Ty::VarFun(_))) else {
                    return self.local();
                };
                let Ty::VarFun(n) = f.ty else { unreachable!() };
                self.frame().calls += 1;
                let args = self.args(n, 1);
                let names: Vec<String> = (0..1 + self.rng.us(4)).map(|_| self.fresh("m")).collect();
                self.line(&format!("local {} = {}({args})", names.join(", "), f.name));
                self.line(&format!("T({})", names.join(", ")));
                let level = self.level();
                for n in names {
                    self.frame().locals += 1;
                    self.vars.push(Var { name: n, ty: Ty::Bool, level, read_only: false });
                }
            }
            _ if self.can_declare() => {
                let names: Vec<String> = (0..2 + self.rng.us(3)).map(|_| self.fresh("u")).collect();
                let n = self.rng.us(names.len()) + 1;
                let values: Vec<String> = (0..n).map(|_| self.num(1)).collect();
                self.line(&format!("local {} = {}", names.join(", "), values.join(", ")));
                let level = self.level();
                for (i, name) in names.into_iter().enumerate() {
                    self.frame().locals += 1;
                    let ty = if i < n { Ty::Num } else { Ty::Bool };
                    self.vars.push(Var { name, ty, level, read_only: false });
                }
            }
            _ => self.trace(),
        }
    }

    fn coroutine_or_meta(&mut self) {
        if self.level() > 3 {
            return self.trace();
        }
        match self.rng.below(4) {
            0 => {
                let co = self.fresh("co");
                let p = self.fresh("p");
                let size = self.rng.range(1, 5);
                let mut body = self.function_body(&[p.clone()], false, size, false);
                body.truncate(body.len() - 3);
                let n = self.rng.below(4);
                self.line(&format!(
                    "do local {co} = coroutine.create(function({p}){body} for ci = 1, {n} do T('resumed', coroutine.yield(ci, {p})) end return 'done' end)"
                ));
                let k = 1 + self.rng.below(5);
                self.line(&format!("for ci = 1, {k} do T(coroutine.resume({co}, ci)) end T(coroutine.status({co})) end"));
            }
            1 => {
                let n = self.rng.below(4);
                self.line(&format!(
                    "for v in coroutine.wrap(function() for ci = 1, {n} do coroutine.yield(ci) end end) do T(v) end"
                ));
            }
            2 => {
                let m = self.fresh("mt");
                let (a, b) = (self.inner_num(1), self.inner_num(1));
                self.line(&format!(
                    "do local {m} = {{__add = function(a, b) T('add') return {a} end, __concat = function(a, b) T('concat', type(a), type(b)) return 'c' end, __eq = function() T('eq') return true end, __lt = function() T('lt') return false end, __unm = function() return {b} end, __call = function(self, ...) T('call') return 4 end, __index = function(t, k) T('index', k) return k end, __newindex = function(t, k, v) T('newindex', k) rawset(t, k, v) end}}"
                ));
                self.line(&format!("local x, y = setmetatable({{}}, {m}), setmetatable({{}}, {m})"));
                self.line("T(x + 1, 1 + x, x .. 'a' .. 'b', 'a' .. x, x == y, x < y, x <= y, x > y, -x, x(1, 2), x.name, x[5])");
                self.line("x.field = 3; T(x.field, x ~= y, not (x == y)) end");
            }
            _ => {
                let g = self.fresh("E");
                let e = self.inner_num(1);
                self.line(&format!(
                    "do local f = function() {g} = {e} T({g}) end setfenv(f, setmetatable({{}}, {{__index = _G}})) f() T({g}) end"
                ));
            }
        }
    }

    fn method(&mut self) {
        if !self.can_declare() || self.level() > 3 {
            return self.trace();
        }
        let o = self.fresh("o");
        let p = self.fresh("p");
        let e = self.num(1);
        self.line(&format!("local {o} = {{value = {e}}}"));
        let level = self.level();
        self.frame().locals += 1;
        self.vars.push(Var { name: o.clone(), ty: Ty::Bool, level, read_only: true });
        let vararg = self.rng.chance(40);
        let (list, size) = (if vararg { format!("{p}, ...") } else { p.clone() }, self.rng.range(1, 6));
        let body = self.function_body(&[p], vararg, size, false);
        let body = body.strip_suffix("end").unwrap().to_string();
        self.line(&format!("function {o}:run({list}){body} self.value = self.value + 1 return self, self.value end"));
        let (x, y) = (self.num(1), self.num(1));
        self.line(&format!("T({o}:run({x}):run({y}, 2, 3))"));
    }

    fn break_or_return(&mut self, depth: usize) {
        let in_loop = self.frames.last().unwrap().loops > 0;
        if in_loop && self.rng.chance(80) {
            let c = self.cond(2);
            let t = match self.rng.chance(50) {
                true => "T('break') ",
                false => "",
            };
            self.line(&format!("if {c} then {t}break end"));
        } else if depth > 0 && self.level() > 1 {
            let c = self.cond(2);
            let e = self.num(1);
            self.line(&format!("if {c} then return {e} end"));
        } else {
            self.trace();
        }
    }

    /// More constants than fit into an operand.
    fn many_constants(&mut self) {
        let n = 200 + self.rng.us(150);
        let name = self.fresh("k");
        self.line(&format!("local {name} = 0"));
        self.declare(&name, Ty::Num, false);
        let mut i = 0;
        while i < n {
            match self.rng.below(3) {
                0 => self.line(&format!("{name} = {name} + {}.25", 1000 + i)),
                1 => self.line(&format!("K{i} = 'c{i}'")),
                _ => self.line(&format!("{name} = ({name} < {}.5) and {name} + {}.5 or {name} - 1", 2000 + i, 3000 + i)),
            }
            i += 1;
        }
        self.line(&format!("T({name})"));
    }
}
