//! Hand-assembled programs: blocks of code that jump to each other at random,
//! in ways that a compiler wouldn't do. A counter makes sure that they end.

use crate::model::*;
use crate::rng::Rng;

struct A<'r> {
    rng: &'r mut Rng,
    ver: Ver,
    fpf: u64,
    p: Proto,
    line: i64,
    /// (instruction, label)
    fixups: Vec<(usize, usize)>,
    labels: Vec<Option<usize>>,
    top: u64,
}

impl A<'_> {
    fn op(&self, name: &str) -> u32 {
        opnum(self.ver, name)
    }

    fn emit(&mut self, i: Ins) -> usize {
        self.p.code.push(i);
        self.p.lines.push(self.line);
        self.p.code.len() - 1
    }

    fn abc(&mut self, name: &str, a: u64, b: u64, c: u64) -> usize {
        let op = self.op(name);
        let (_, kind, ..) = ops(self.ver)[op as usize];
        assert_eq!(kind, Kind::Abc);
        self.top = self.top.max(a);
        self.emit(Ins::abc(op, a, b, c))
    }

    fn abx(&mut self, name: &str, a: u64, bx: i64) -> usize {
        let op = self.op(name);
        self.top = self.top.max(a);
        self.emit(Ins::abx(op, a, bx))
    }

    fn k(&mut self, k: K) -> u64 {
        match self.p.consts.iter().position(|c| *c == k) {
            Some(i) => i as u64,
            None => {
                self.p.consts.push(k);
                self.p.consts.len() as u64 - 1
            }
        }
    }

    fn kn(&mut self, v: f64) -> u64 {
        self.k(K::Num(Num::F(v)))
    }

    fn ks(&mut self, v: &str) -> u64 {
        let mut s = v.as_bytes().to_vec();
        s.push(0);
        self.k(K::Str(s))
    }

    fn label(&mut self) -> usize {
        self.labels.push(None);
        self.labels.len() - 1
    }

    fn bind(&mut self, l: usize) {
        self.labels[l] = Some(self.p.code.len());
    }

    fn jump(&mut self, name: &str, a: u64, l: usize) {
        let i = self.abx(name, a, 0);
        self.fixups.push((i, l));
    }

    /// T(tag, R(v))
    fn trace(&mut self, at: u64, tag: f64, v: Option<u64>) {
        let (t, n) = (self.ks("T"), self.kn(tag));
        self.abx("GETGLOBAL", at, t as i64);
        self.abx("LOADK", at + 1, n as i64);
        let mut b = 2;
        if let Some(v) = v {
            self.abc("MOVE", at + 2, v, 0);
            b = 3;
        }
        self.abc("CALL", at, b, 1);
    }

    /// Value into a register, sometimes with jumps.
    fn value(&mut self, r: u64, v: f64) {
        match self.rng.below(14) {
            0 => {
                let k = self.kn(30.0) | KBIT;
                let a = self.rng.below(2);
                self.abc("LT", a, 0, k);
                self.abx("JMP", 0, 1);
                self.abc("LOADBOOL", r, 0, 1);
                self.abc("LOADBOOL", r, 1, 0);
            }
            1 => {
                // x and y or z
                let k = self.kn(self.fuel_number()) | KBIT;
                let (x, y) = (self.kn(v), self.kn(-v));
                let (no, end) = (self.label(), self.label());
                self.abc("LT", 0, 0, k);
                self.jump("JMP", 0, no);
                self.abx("LOADK", r, x as i64);
                self.jump("JMP", 0, end);
                self.bind(no);
                self.abx("LOADK", r, y as i64);
                self.bind(end);
            }
            2 => {
                let k = self.kn(v) | KBIT;
                self.abc("ADD", r, 0, k);
            }
            3 => {
                self.abc("LOADBOOL", r, 1, 0);
            }
            _ => {
                let k = self.kn(v);
                self.abx("LOADK", r, k as i64);
            }
        }
    }

    fn fuel_number(&self) -> f64 {
        20.0
    }

    fn constructor(&mut self, r: u64) {
        let n = match self.rng.below(4) {
            0 => self.rng.below(6),
            1 => self.fpf + self.rng.below(3),
            2 => self.fpf * 2 + self.rng.below(3),
            _ => self.rng.below(70),
        }
        .min(150);
        self.abc("NEWTABLE", r, 0, 0);
        let mut pending = 0;
        let mut done = 0;
        let mut i = 0;
        while i < n {
            let room = self.fpf - pending;
            if self.rng.chance(8) && i + 1 < n {
                // Several values in one instruction.
                let m = (1 + self.rng.below(4)).min(n - i).min(room);
                self.abc("LOADNIL", r + 1 + pending, r + pending + m, 0);
                self.top = self.top.max(r + pending + m);
                pending += m;
                i += m;
            } else {
                self.value(r + 1 + pending, i as f64 + 1.0);
                pending += 1;
                i += 1;
            }
            if self.rng.chance(6) {
                // Key and value that don't become part of the list.
                let (k, v) = (self.ks("key") | KBIT, self.kn(i as f64) | KBIT);
                self.abc("SETTABLE", r, k, v);
            }
            if pending == self.fpf && i < n {
                self.flush(r, done, pending, false);
                done += pending;
                pending = 0;
            }
        }
        if self.rng.chance(25) && pending < self.fpf {
            // Unknown number of values at the end.
            let u = self.ks("unpack");
            let at = r + 1 + pending;
            self.abx("GETGLOBAL", at, u as i64);
            self.abc("NEWTABLE", at + 1, 0, 0);
            for j in 0..self.rng.below(4).min(self.fpf) {
                let k = self.kn(900.0 + j as f64);
                self.abx("LOADK", at + 2 + j, k as i64);
                if j == 2 || j + 1 == self.fpf {
                    self.flush(at + 1, 0, j + 1, false);
                    break;
                }
            }
            self.top = self.top.max(at + 6);
            self.abc("CALL", at, 2, 0);
            self.flush(r, done, pending, true);
        } else if pending > 0 {
            self.flush(r, done, pending, false);
        }
        self.trace(r + 1, 5000.0, Some(r));
    }

    fn flush(&mut self, r: u64, done: u64, n: u64, open: bool) {
        match (self.ver, open) {
            (Ver::L50, false) => self.abx("SETLIST", r, (done + n - 1) as i64),
            (Ver::L50, true) => self.abx("SETLISTO", r, (done + n) as i64),
            (Ver::L51, false) => self.abc("SETLIST", r, n, done / self.fpf + 1),
            (Ver::L51, true) => self.abc("SETLIST", r, 0, done / self.fpf + 1),
        };
    }

    fn numeric_for(&mut self, r: u64, depth: usize) {
        let (from, to, step) = match self.rng.below(3) {
            0 => (1.0, self.rng.below(4) as f64, 1.0),
            1 => (5.0, self.rng.below(6) as f64, -2.0),
            _ => (0.0, 1.0, 0.5),
        };
        for (i, v) in [from, to, step].into_iter().enumerate() {
            let k = self.kn(v);
            self.abx("LOADK", r + i as u64, k as i64);
        }
        let (body, end) = (self.label(), self.label());
        match self.ver {
            Ver::L50 => {
                self.abc("SUB", r, r, r + 2);
                self.jump("JMP", 0, end);
                self.bind(body);
                self.body(r, r + 3, depth);
                self.bind(end);
                self.jump("FORLOOP", r, body);
            }
            Ver::L51 => {
                self.jump("FORPREP", r, end);
                self.bind(body);
                self.body(r + 3, r + 4, depth);
                self.bind(end);
                self.jump("FORLOOP", r, body);
                self.top = self.top.max(r + 3);
            }
        }
    }

    fn body(&mut self, v: u64, free: u64, depth: usize) {
        self.trace(free, 6000.0, Some(v));
        if depth < 2 {
            for _ in 0..self.rng.below(3) {
                self.item(free, depth + 1);
            }
        }
        if self.rng.chance(20) {
            self.trace(free, 6001.0, Some(v));
        }
    }

    fn generic_for(&mut self, r: u64, depth: usize) {
        let (body, end) = (self.label(), self.label());
        let n = self.rng.below(3);
        let prepared = self.ver == Ver::L50 && self.rng.chance(50);
        let table = if prepared { r } else { r + 1 };
        if !prepared {
            let k = self.ks("next");
            self.abx("GETGLOBAL", r, k as i64);
        }
        self.abc("NEWTABLE", table, 0, 0);
        // At most one element, so that the order is defined.
        if n > 0 {
            let (k, v) = (self.ks("only") | KBIT, self.kn(7.0) | KBIT);
            self.abc("SETTABLE", table, k, v);
        }
        self.abc("LOADNIL", table + 1, r + 2 + prepared as u64, 0);
        self.top = self.top.max(r + 3);
        match prepared {
            true => self.jump("TFORPREP", r, end),
            false => self.jump("JMP", 0, end),
        }
        let vars = 1 + self.rng.below(3);
        self.bind(body);
        match self.ver {
            Ver::L50 => self.body(r + 2, r + 2 + vars, depth),
            Ver::L51 => self.body(r + 3, r + 3 + vars, depth),
        }
        self.bind(end);
        match self.ver {
            Ver::L50 => {
                self.abc("TFORLOOP", r, 0, vars - 1);
                self.top = self.top.max(r + vars + 6);
            }
            Ver::L51 => {
                self.abc("TFORLOOP", r, 0, vars);
                self.top = self.top.max(r + vars + 6);
            }
        }
        self.jump("JMP", 0, body);
    }

    fn item(&mut self, r: u64, depth: usize) {
        match self.rng.below(5) {
            0 | 1 => self.constructor(r),
            2 => self.numeric_for(r, depth),
            3 => self.generic_for(r, depth),
            _ => {
                let k = self.rng.below(100) as f64;
                self.trace(r, k, Some(0));
            }
        }
    }
}

pub fn program(rng: &mut Rng, ver: Ver, fpf: u64, blocks: usize) -> Proto {
    let mut a = A {
        rng,
        ver,
        fpf,
        p: Proto::default(),
        line: 1,
        fixups: Vec::new(),
        labels: Vec::new(),
        top: 1,
    };
    let fuel = a.rng.range(5, 40) as f64;
    let k = a.kn(fuel);
    a.abx("LOADK", 0, k as i64);
    let starts: Vec<usize> = (0..blocks).map(|_| a.label()).collect();
    let exit = a.label();
    for i in 0..blocks {
        a.line = i as i64 * 10 + 10;
        a.bind(starts[i]);
        let r = 1 + a.rng.below(6);
        for _ in 0..a.rng.below(3) {
            a.item(r, 0);
            a.line += 1;
        }
        let tag = i as f64;
        a.trace(1, tag + 10_000.0, Some(0));
        let one = a.kn(1.0) | KBIT;
        let zero = a.kn(0.0) | KBIT;
        a.abc("SUB", 0, 0, one);
        a.abc("LT", 1, 0, zero);
        a.jump("JMP", 0, exit);
        let target = *a.rng.pick(&starts);
        match a.rng.below(5) {
            0 => {}
            1 => a.jump("JMP", 0, target),
            2 => {
                let limit = a.rng.below(fuel as u64 + 1) as f64;
                let k = a.kn(limit) | KBIT;
                let c = a.rng.below(2);
                a.abc("LT", c, 0, k);
                a.jump("JMP", 0, target);
            }
            3 => {
                let limit = a.rng.below(fuel as u64 + 1) as f64;
                let k = a.kn(limit) | KBIT;
                let c = a.rng.below(2);
                a.abc("EQ", c, 0, k);
                a.jump("JMP", 0, target);
            }
            _ => {
                // Loops to the start of this block while the counter is big enough.
                let k = a.kn(fuel - 2.0) | KBIT;
                a.abc("LE", 0, 0, k);
                a.jump("JMP", 0, starts[i]);
            }
        }
    }
    a.bind(exit);
    a.trace(1, 99_999.0, Some(0));
    a.abc("RETURN", 0, 1, 0);
    for (i, l) in std::mem::take(&mut a.fixups) {
        a.p.code[i].bx = a.labels[l].unwrap() as i64 - i as i64 - 1;
    }
    let mut p = a.p;
    p.source = b"=asm\0".to_vec();
    p.maxstack = (a.top + 2).clamp(2, 250) as u8;
    p
}

/// A program that isn't meant to be run: its instructions jump to each other at random, also to themselves, into lists and
/// over any distance. Every `LOADK` and `GETGLOBAL` has a constant of its own.
pub fn graph(rng: &mut Rng, ver: Ver, fpf: u64, n: usize) -> Proto {
    let mut a = A { rng, ver, fpf, p: Proto::default(), line: 1, fixups: Vec::new(), labels: Vec::new(), top: 6 };
    let child = |nups: u8| Proto {
        maxstack: 2,
        nups,
        code: vec![Ins::abc(opnum(ver, "RETURN"), 0, 1, 0)],
        lines: vec![1],
        ..Proto::default()
    };
    a.p.protos = vec![child(0), child(1), child(3)];
    if a.rng.chance(40) {
        a.p.nparams = a.rng.below(4) as u8;
        a.p.vararg = match ver {
            Ver::L50 => 1,
            Ver::L51 => *a.rng.pick(&[2, 3, 7]),
        };
    }
    let starts: Vec<usize> = (0..n).map(|_| a.label()).collect();
    let exit = a.label();
    // Places in the middle of lists.
    let mut inner: Vec<usize> = Vec::new();
    let mut jumps: Vec<(usize, usize)> = Vec::new();
    for i in 0..n {
        a.bind(starts[i]);
        a.line += a.rng.below(2) as i64;
        let r = a.rng.below(4);
        // Compares registers below the lists. The result of `x and y` may go to a value of a list.
        let compare = |a: &mut A, value: Option<u64>| {
            let (mut b, c) = (a.rng.below(5), a.rng.below(5));
            b = value.filter(|_| a.rng.chance(50)).unwrap_or(b);
            let polarity = a.rng.below(2);
            match a.rng.below(5) {
                0 => a.abc("EQ", polarity, c, c),
                1 => a.abc("LT", polarity, c, c),
                2 => a.abc("LE", polarity, c, c),
                _ if a.ver == Ver::L50 => a.abc("TEST", b, c, polarity),
                3 => a.abc("TEST", c, 0, polarity),
                _ => a.abc("TESTSET", b, c, polarity),
            };
        };
        match a.rng.below(20) {
            0..=6 => marker(&mut a, r),
            7 | 8 => {
                compare(&mut a, None);
                let at = a.abx("JMP", 0, 0);
                jumps.push((at, i));
            }
            9 => {
                // One way or the other.
                compare(&mut a, None);
                let at = a.abx("JMP", 0, 0);
                jumps.push((at, i));
                let at = a.abx("JMP", 0, 0);
                jumps.push((at, i));
            }
            10 => {
                a.abc("LOADBOOL", r, 0, 1);
                match a.rng.chance(50) {
                    true => {
                        a.abc("LOADBOOL", r, 1, 0);
                    }
                    false => marker(&mut a, r),
                }
            }
            11 | 12 => {
                let back = match a.rng.below(4) {
                    0 => i,
                    1 => a.rng.us(i + 1),
                    2 => i.saturating_sub(a.rng.us(4)),
                    _ => i.saturating_sub(a.rng.us(30)),
                };
                a.jump("FORLOOP", r, starts[back]);
            }
            13 => match ver {
                Ver::L50 => {
                    let at = a.abx("TFORPREP", r, 0);
                    jumps.push((at, i));
                }
                Ver::L51 => {
                    let at = a.abx("FORPREP", r, 0);
                    jumps.push((at, i));
                }
            },
            14 => {
                let variables = a.rng.below(4) + (ver == Ver::L51) as u64;
                a.abc("TFORLOOP", r, 0, variables);
                a.top = a.top.max(r + 6);
                let at = a.abx("JMP", 0, 0);
                jumps.push((at, i));
            }
            15 | 16 => {
                let count = match a.rng.below(3) {
                    0 => 1 + a.rng.below(5),
                    1 => fpf + a.rng.below(3),
                    _ => 1 + a.rng.below(3 * fpf),
                }
                .min(160);
                let r = 5 + a.rng.below(3);
                a.abc("NEWTABLE", r, 0, 0);
                let (mut done, mut pending) = (0, 0);
                for k in 0..count {
                    if a.rng.chance(10) {
                        let l = a.label();
                        a.bind(l);
                        inner.push(l);
                    }
                    let at = r + 1 + pending;
                    match a.rng.below(8) {
                        0 => {
                            // x and y
                            compare(&mut a, Some(at));
                            let over = a.label();
                            a.jump("JMP", 0, over);
                            marker(&mut a, at);
                            a.bind(over);
                        }
                        1 => {
                            let f = a.rng.below(3);
                            a.abx("CLOSURE", at, f as i64);
                            for _ in 0..[0, 1, 3][f as usize] {
                                match a.rng.chance(50) {
                                    true => a.abc("MOVE", 0, 0, 0),
                                    false => a.abc("GETUPVAL", 0, 0, 0),
                                };
                            }
                        }
                        2 => {
                            a.abc("LOADBOOL", at, 0, 1);
                            a.abc("LOADBOOL", at, 1, 0);
                        }
                        _ => marker(&mut a, at),
                    }
                    pending += 1;
                    if pending == fpf || k + 1 == count {
                        if a.rng.chance(30) {
                            let l = a.label();
                            a.bind(l);
                            inner.push(l);
                        }
                        a.flush(r, done, pending, false);
                        done += pending;
                        pending = 0;
                    }
                }
            }
            17 => {
                // Only reached by jumps afterwards.
                compare(&mut a, None);
                a.jump("JMP", 0, if i + 1 < n { starts[i + 1] } else { exit });
                a.abc("RETURN", 0, 1, 0);
            }
            18 => {
                a.abc("MOVE", r, 1, 0);
            }
            _ => {
                // Forever, or not at all.
                compare(&mut a, None);
                a.abx("JMP", 0, -1);
            }
        }
    }
    a.bind(exit);
    a.abc("RETURN", 0, 1, 0);
    for (at, i) in jumps {
        let target = match a.rng.below(12) {
            0 => exit,
            1 => starts[0],
            2 => starts[i],
            3 if !inner.is_empty() => *a.rng.pick(&inner),
            4..=7 => starts[(i + a.rng.us(12)).saturating_sub(4).min(n - 1)],
            8 => starts[(i + 1).min(n - 1)],
            9 => *a.rng.pick(&starts),
            _ => starts[(i + a.rng.us(60)).saturating_sub(30).min(n - 1)],
        };
        a.fixups.push((at, target));
    }
    for (i, l) in std::mem::take(&mut a.fixups) {
        a.p.code[i].bx = a.labels[l].unwrap() as i64 - i as i64 - 1;
    }
    let mut p = a.p;
    p.source = b"=graph\0".to_vec();
    p.maxstack = (a.top + 4).min(250) as u8;
    p
}

fn marker(a: &mut A, r: u64) {
    let k = a.p.consts.len() as i64;
    let mut name = format!("g{k}").into_bytes();
    name.push(0);
    a.p.consts.push(K::Str(name));
    let name = if a.rng.chance(50) { "LOADK" } else { "GETGLOBAL" };
    a.abx(name, r, k);
}

/// Where a path through a function may come by next.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Place {
    Start,
    /// The instruction with this constant.
    Marker(i64),
    End,
    /// The path leaves the code.
    Outside,
    /// The path may go on forever without coming anywhere.
    Nowhere,
}

/// For every place that can be reached from the start: the places that may come next.
pub fn paths(ver: Ver, p: &Proto, consts: usize) -> std::collections::BTreeMap<Place, std::collections::BTreeSet<Place>> {
    use std::collections::{BTreeMap, BTreeSet};
    let n = p.code.len();
    let name = |pc: usize| match p.code[pc].op {
        RAW => "RAW",
        op => ops(ver)[op as usize].0,
    };
    let place = |pc: i64| -> Option<Place> {
        if pc < 0 || pc as usize >= n {
            return Some(Place::Outside);
        }
        let i = &p.code[pc as usize];
        match name(pc as usize) {
            "LOADK" | "GETGLOBAL" if (i.bx as usize) < consts => Some(Place::Marker(i.bx)),
            "RETURN" => Some(Place::End),
            _ => None,
        }
    };
    let successors = |pc: i64| -> Vec<i64> {
        let i = &p.code[pc as usize];
        match name(pc as usize) {
            "JMP" | "FORPREP" | "TFORPREP" => vec![pc + 1 + i.bx],
            "FORLOOP" => vec![pc + 1, pc + 1 + i.bx],
            "EQ" | "LT" | "LE" | "TEST" | "TESTSET" | "TFORLOOP" => vec![pc + 1, pc + 2],
            "LOADBOOL" if i.c != 0 => vec![pc + 2],
            "CLOSURE" => vec![pc + 1 + p.protos.get(i.bx as usize).map_or(0, |f| f.nups as i64)],
            "SETLIST" if ver == Ver::L51 && i.c == 0 => vec![pc + 2],
            _ => vec![pc + 1],
        }
    };
    let mut map = BTreeMap::new();
    let mut todo: Vec<(Place, Vec<i64>)> = vec![(Place::Start, vec![0])];
    let mut seen = BTreeSet::from([Place::Start]);
    // 0: unknown, otherwise the number of the search; the sign tells whether it is still active.
    let mut state = vec![0i64; n];
    let mut search = 0;
    while let Some((from, begin)) = todo.pop() {
        search += 1;
        let mut found = BTreeSet::new();
        // Depth first, to find silent cycles.
        let mut stack: Vec<(i64, Vec<i64>)> = vec![(-1, begin)];
        while let Some((pc, rest)) = stack.last_mut() {
            let Some(next) = rest.pop() else {
                if *pc >= 0 {
                    state[*pc as usize] = search;
                }
                stack.pop();
                continue;
            };
            match place(next) {
                Some(place) => {
                    if let (Place::Marker(_), true) = (place, seen.insert(place)) {
                        todo.push((place, successors(next)));
                    }
                    found.insert(place);
                }
                None if state[next as usize] == -search => {
                    found.insert(Place::Nowhere);
                }
                None if state[next as usize] == search => {}
                None => {
                    state[next as usize] = -search;
                    stack.push((next, successors(next)));
                }
            }
        }
        map.insert(from, found);
    }
    map
}
