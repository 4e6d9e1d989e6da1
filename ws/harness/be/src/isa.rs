//! The instruction set as documented, written independently of the code under test: sizes, operands, effects, memory log.
use std::collections::HashMap;

pub const P: u64 = 2147483647;
pub const MAX_ADDRESS: u32 = (1 << 28) - 1;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    /// dst = a . b over cells
    Felt(char),
    FeltImm(char),
    Le,
    AssertEq,
    Load,
    LoadFp,
    StoreImm,
    StoreFp,
    Call,
    Ret,
    Jmp,
    JmpRel,
    Jnz,
    U32(char),
    U32Imm(char),
    U32Store,
    To,
    ToFp,
    Print,
    PrintU32,
}
/// Opcode, meaning, number of operands.
pub const ISA: &[(u32, Op, usize)] = &[
    (0, Op::Felt('+'), 3), (1, Op::Felt('-'), 3), (2, Op::Felt('*'), 3), (3, Op::Felt('/'), 3),
    (4, Op::FeltImm('+'), 3), (6, Op::FeltImm('*'), 3),
    (8, Op::Load, 3), (9, Op::StoreImm, 2), (10, Op::Call, 2), (11, Op::Ret, 0), (12, Op::Jmp, 1), (13, Op::JmpRel, 1), (14, Op::Jnz, 2),
    (15, Op::U32('+'), 3), (16, Op::U32('-'), 3), (17, Op::U32('*'), 3), (18, Op::U32('/'), 4),
    (19, Op::U32Imm('+'), 4), (21, Op::U32Imm('*'), 4), (22, Op::U32Imm('/'), 5), (23, Op::U32Store, 3),
    (24, Op::U32('='), 3), (28, Op::U32('<'), 3), (30, Op::U32Imm('='), 4), (34, Op::U32Imm('<'), 4),
    (36, Op::U32('&'), 3), (37, Op::U32('|'), 3), (38, Op::U32('^'), 3), (39, Op::U32Imm('&'), 4), (40, Op::U32Imm('|'), 4), (41, Op::U32Imm('^'), 4),
    (42, Op::LoadFp, 3), (43, Op::StoreFp, 2), (44, Op::To, 3), (45, Op::ToFp, 3), (46, Op::Print, 1), (47, Op::PrintU32, 1),
    (48, Op::Le, 3), (50, Op::AssertEq, 2),
];
pub fn find(opcode: u32) -> Option<(Op, usize)> { ISA.iter().find(|i| i.0 == opcode).map(|i| (i.1, i.2)) }
/// Memory words an instruction with `operands` operands takes.
pub fn words(operands: usize) -> u32 { (operands as u32 + 1).div_ceil(4) }
/// Cells an instruction reads and writes, for the instructions whose accesses are logged.
pub fn accesses(op: Op) -> usize {
    match op {
        Op::Felt(_) => 3,
        Op::FeltImm(_) | Op::Le | Op::StoreFp | Op::StoreImm => if matches!(op, Op::StoreImm | Op::StoreFp) { 1 } else { 2 },
        Op::AssertEq | Op::Jnz => 1,
        Op::Load | Op::To => 3,
        Op::LoadFp | Op::ToFp => 4,
        Op::Call | Op::Ret | Op::U32Store => 2,
        // prints are not part of the record
        Op::Jmp | Op::JmpRel | Op::Print | Op::PrintU32 => 0,
        Op::U32(k) => match k { '/' => 8, '=' | '<' => 5, _ => 6 },
        Op::U32Imm(k) => match k { '/' => 6, '=' | '<' => 3, _ => 4 },
    }
}
pub fn pow(b: u64, mut e: u64) -> u64 {
    let (mut r, mut b) = (1u64, b % P);
    while e > 0 {
        if e & 1 == 1 { r = r * b % P }
        b = b * b % P;
        e >>= 1;
    }
    r
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    /// The machine must report an error.
    Error(&'static str),
    /// Executing something that is not the program: nothing is promised.
    Unspecified,
}
pub type Word = [u32; 4];
#[derive(Clone, Default)]
pub struct Shadow {
    pub mem: HashMap<u32, Word>,
    pub pc: u32,
    pub fp: u32,
    pub end: u32,
    pub trace: Vec<(u32, u32)>,
    pub log: Vec<(u32, Word)>,
    /// Data cells a step has read so far, with the steps that read one twice.
    pub reads: Vec<u32>,
    pub twice: Vec<(u32, u32)>,
    pub printed: Vec<u64>,
}
fn add(a: u32, b: u32) -> u32 { ((a as u64 + b as u64) % P) as u32 }
impl Shadow {
    pub fn word(&self, a: u32) -> Word { self.mem.get(&a).copied().unwrap_or_default() }
    fn peek(&self, a: u32) -> Result<u32, Stop> {
        if a > MAX_ADDRESS { return Err(Stop::Error("address")) }
        let w = self.word(a);
        if w[1] != 0 || w[2] != 0 || w[3] != 0 { return Err(Stop::Error("projection")) }
        Ok(w[0])
    }
    fn get(&mut self, a: u32) -> Result<u32, Stop> {
        let v = self.peek(a)?;
        self.log.push((a, [v, 0, 0, 0]));
        if self.reads.contains(&a) { self.twice.push((self.pc, a)) }
        self.reads.push(a);
        Ok(v)
    }
    fn set(&mut self, a: u32, v: u32) -> Result<(), Stop> {
        if a > MAX_ADDRESS { return Err(Stop::Error("address")) }
        self.mem.insert(a, [v, 0, 0, 0]);
        self.log.push((a, [v, 0, 0, 0]));
        Ok(())
    }
    fn get32(&mut self, a: u32) -> Result<u32, Stop> {
        let (l, h) = (self.get(a)?, self.get(add(a, 1))?);
        if l > 0xffff || h > 0xffff { return Err(Stop::Error("limbs")) }
        Ok(h << 16 | l)
    }
    fn set32(&mut self, a: u32, v: u32) -> Result<(), Stop> {
        self.set(a, v & 0xffff)?;
        self.set(add(a, 1), v >> 16)
    }
    fn u32op(&mut self, k: char, a: u32, b: u32, dst: u32, rem: u32) -> Result<(), Stop> {
        let r = match k {
            '+' => a.wrapping_add(b),
            '-' => a.wrapping_sub(b),
            '*' => (a as u64 * b as u64) as u32,
            '/' => {
                if b == 0 { return Err(Stop::Error("division by zero")) }
                self.set32(dst, a / b)?;
                return self.set32(rem, a - (a / b) * b);
            }
            '&' => a & b,
            '|' => a | b,
            '^' => a ^ b,
            '=' => return self.set(dst, (a == b) as u32),
            _ => return self.set(dst, (a < b) as u32),
        };
        self.set32(dst, r)
    }
    pub fn step(&mut self) -> Result<(), Stop> {
        if self.pc >= self.end { return Err(Stop::Unspecified) }
        self.reads.clear();
        let first = self.word(self.pc);
        self.log.push((self.pc, first));
        let Some((op, n)) = find(first[0]) else { return Err(Stop::Error("opcode")) };
        let mut o = first[1..].to_vec();
        if words(n) == 2 {
            let a = self.pc + 1;
            if a >= self.end { return Err(Stop::Unspecified) }
            let w = self.word(a);
            self.log.push((a, w));
            o.extend(w);
        }
        self.trace.push((self.pc, self.fp));
        let at = |k: usize| add(self.fp, o[k]);
        let mut next = add(self.pc, words(n));
        match op {
            Op::Felt(k) => {
                let (x, y, d) = (at(0), at(1), at(2));
                let (a, b) = (self.get(x)? as u64, self.get(y)? as u64);
                if k == '/' && b == 0 { return Err(Stop::Error("felt division by zero")) }
                let r = match k { '+' => a + b, '-' => a + P - b, '*' => a * b, _ => a * pow(b, P - 2) };
                self.set(d, (r % P) as u32)?;
            }
            Op::FeltImm(k) => {
                let (x, d) = (at(0), at(2));
                let a = self.get(x)? as u64;
                let b = o[1] as u64;
                self.set(d, ((if k == '+' { a + b } else { a * b }) % P) as u32)?;
            }
            Op::Le => {
                let (x, d) = (at(0), at(2));
                let a = self.get(x)?;
                self.set(d, (a <= o[1]) as u32)?;
            }
            Op::AssertEq => {
                let x = at(0);
                if self.get(x)? != o[1] { return Err(Stop::Error("assertion")) }
            }
            Op::Load => {
                let (b, d) = (at(0), at(2));
                let a = self.get(b)?;
                let v = self.get(add(a, o[1]))?;
                self.set(d, v)?;
            }
            Op::LoadFp => {
                let (b, f, d) = (at(0), at(1), at(2));
                let a = self.get(b)?;
                let f = self.get(f)?;
                let v = self.get(add(a, f))?;
                self.set(d, v)?;
            }
            Op::To => {
                let (b, s) = (at(0), at(2));
                let a = self.get(b)?;
                let v = self.get(s)?;
                self.set(add(a, o[1]), v)?;
            }
            Op::ToFp => {
                let (b, f, s) = (at(0), at(1), at(2));
                let a = self.get(b)?;
                let f = self.get(f)?;
                let v = self.get(s)?;
                self.set(add(a, f), v)?;
            }
            Op::StoreImm => { let d = at(1); self.set(d, o[0])? }
            Op::StoreFp => { let d = at(1); self.set(d, add(self.fp, o[0]))? }
            Op::Call => {
                let a = at(0);
                let fp = self.fp;
                self.set(a, fp)?;
                self.set(add(a, 1), next)?;
                self.fp = add(a, 2);
                next = o[1];
            }
            Op::Ret => {
                let (a, b) = (add(self.fp, P as u32 - 1), add(self.fp, P as u32 - 2));
                let pc = self.get(a)?;
                self.fp = self.get(b)?;
                next = pc;
            }
            Op::Jmp => next = o[0],
            Op::JmpRel => next = add(self.pc, o[0]),
            Op::Jnz => {
                let c = at(0);
                if self.get(c)? != 0 { next = add(self.pc, o[1]) }
            }
            Op::U32(k) => {
                let (x, y, d) = (at(0), at(1), at(2));
                let rem = if k == '/' { at(3) } else { 0 };
                let (a, b) = (self.get32(x)?, self.get32(y)?);
                self.u32op(k, a, b, d, rem)?;
            }
            Op::U32Imm(k) => {
                let (x, d) = (at(0), at(3));
                let rem = if k == '/' { at(4) } else { 0 };
                if o[1] > 0xffff || o[2] > 0xffff { return Err(Stop::Error("immediate limbs")) }
                let b = o[2] << 16 | o[1];
                let a = self.get32(x)?;
                self.u32op(k, a, b, d, rem)?;
            }
            Op::U32Store => {
                let d = at(2);
                if o[0] > 0xffff || o[1] > 0xffff { return Err(Stop::Error("immediate limbs")) }
                self.set32(d, o[1] << 16 | o[0])?;
            }
            Op::Print => { let a = at(0); let v = self.peek(a)?; self.printed.push(v as u64) }
            Op::PrintU32 => {
                let a = at(0);
                let (l, h) = (self.peek(a)?, self.peek(add(a, 1))?);
                if l > 0xffff || h > 0xffff { return Err(Stop::Error("limbs")) }
                self.printed.push((h << 16 | l) as u64);
            }
        }
        self.pc = next;
        Ok(())
    }
    /// Starts a call of the code at `pc` as the runner does.
    pub fn start(words: &[Word], pc: u32, frame: u32, args: &[u32], returns: u32) -> Shadow {
        let end = words.len() as u32;
        let mut s = Shadow { mem: words.iter().enumerate().map(|(i, w)| (i as u32, *w)).collect(), pc, fp: end + frame, end, ..Default::default() };
        for (i, a) in args.iter().enumerate() {
            s.mem.insert(s.fp - (args.len() as u32 + returns + 2 - i as u32), [*a, 0, 0, 0]);
        }
        s.mem.insert(s.fp - 2, [s.fp, 0, 0, 0]);
        s.mem.insert(s.fp - 1, [end, 0, 0, 0]);
        s
    }
    /// Ok(true): reached the end; Ok(false): still running after `limit` steps.
    pub fn run(&mut self, limit: usize) -> Result<bool, Stop> {
        for _ in 0..limit {
            if self.pc == self.end { return Ok(true) }
            self.step()?;
        }
        Ok(self.pc == self.end)
    }
}
