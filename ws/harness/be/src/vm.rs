//! The virtual machine against the instruction set: lockstep shadow execution, and the records it leaves.
use crate::isa::*;
use crate::prog;
use crate::run;
use cairo_m_common::execution::Segment;
use cairo_m_common::{Program, ProgramData};
use cairo_m_runner::vm::VM;
use cairo_m_runner::{run_cairo_program, RunnerOptions};
use hcore::gen_sem::{Cfg, Gen};
use hcore::report::{catch, hash_str, parallel, Report};
use hcore::rng::Rng;
use std::collections::{BTreeMap, HashMap};
use stwo_prover::core::fields::m31::M31;
use stwo_prover::core::fields::qm31::QM31;

pub fn word(q: &QM31) -> Word { q.to_m31_array().map(|m| m.0) }
pub fn qm31(w: &Word) -> QM31 { QM31::from_m31_array(w.map(M31)) }
/// A program as raw instructions, and how to call it.
#[derive(Clone, Debug)]
pub struct Raw {
    pub code: Vec<(u32, Vec<u32>)>,
    pub tail: Vec<Word>,
    pub entry: usize,
    pub frame: u32,
    pub args: Vec<u32>,
    pub returns: u32,
}
impl Raw {
    pub fn addresses(&self) -> Vec<u32> {
        let mut a = 0;
        self.code.iter().map(|c| { let x = a; a += words(c.1.len()); x }).collect()
    }
    pub fn words(&self) -> Vec<Word> {
        let mut w = vec![];
        for (op, o) in &self.code {
            let mut v = vec![*op];
            v.extend(o);
            for c in v.chunks(4) {
                let mut x = [0; 4];
                x[..c.len()].copy_from_slice(c);
                w.push(x);
            }
        }
        w.extend(&self.tail);
        w
    }
    pub fn show(&self) -> String {
        let at = self.addresses();
        let mut s = format!("entry {} frame {} returns {} args {:?}\n", at[self.entry], self.frame, self.returns, self.args);
        for (a, (op, o)) in at.iter().zip(&self.code) { s += &format!("{a}: {:?} {op} {o:?}\n", find(*op).map(|f| f.0)) }
        s + &format!("tail {:?}\n", self.tail)
    }
}
fn value(r: &mut Rng, end: u32) -> u32 {
    match r.below(12) {
        0..=3 => r.below(6) as u32,
        4 | 5 => *r.pick(&[0xffff, 0x8000, 0xfffe, 0x7fff, 255, 256]),
        6 => r.next() as u32 & 0xffff,
        7 => *r.pick(&[P as u32 - 1, P as u32 - 2, 0x10000, 1 << 30]),
        8 => end + r.below(40) as u32,
        9 => { let reach = if r.chance(1, 25) { 15_000 } else { 20 }; MAX_ADDRESS - r.below(reach) as u32 }
        10 => (r.next() % P) as u32,
        _ => r.below(end.max(1) as usize) as u32,
    }
}
pub fn raw(r: &mut Rng) -> Raw {
    let n = *r.pick(&[1, 2, 4, 8, 15, 30, 60]);
    let args: usize = r.below(6);
    let returns = r.below(4) as u32;
    // how wild the operands are
    let wild = *r.pick(&[0, 0, 0, 1, 4]);
    let u32s = r.below(3);
    let ops: Vec<usize> = (0..n)
        .map(|_| loop {
            let k = r.below(ISA.len());
            let u = matches!(ISA[k].1, Op::U32(_) | Op::U32Imm(_) | Op::U32Store);
            if (u && u32s == 0) || (!u && u32s == 2 && r.chance(1, 2)) || matches!(ISA[k].1, Op::AssertEq | Op::Print | Op::PrintU32) && r.chance(3, 4) { continue }
            break k;
        })
        .chain([ISA.iter().position(|i| i.1 == Op::Ret).unwrap()])
        .collect();
    let mut at = vec![];
    let mut end = 0;
    for k in &ops {
        at.push(end);
        end += words(ISA[*k].2);
    }
    let tail: Vec<Word> = (0..r.below(4)).map(|_| if r.chance(1, 4) { [3, 1, 0, 7] } else { [r.below(9) as u32, 0, 0, 0] }).collect();
    let code_end = end;
    end += tail.len() as u32;
    let low = args as u32 + returns + 2;
    let frame = low + r.below(8) as u32;
    let fp = end + frame;
    let off = |r: &mut Rng| -> u32 {
        let o: i64 = if r.chance(wild, 40) {
            let (a, b) = (r.below(3) as i64, r.below(end as usize + 1) as i64);
            *r.pick(&[MAX_ADDRESS as i64 - fp as i64 - a, MAX_ADDRESS as i64 + 1 - fp as i64, -(fp as i64) + b, -(fp as i64) - 1, P as i64 - 1 - fp as i64, 1 << 29, MAX_ADDRESS as i64 - fp as i64 - a * 2_500, a * 3_000])
        } else {
            r.below(low as usize + 14) as i64 - low as i64
        };
        o.rem_euclid(P as i64) as u32
    };
    let limb = |r: &mut Rng| -> u32 { if r.chance(wild, 60) { *r.pick(&[0x10000, P as u32 - 1]) } else { *r.pick(&[0, 0, 0, 1, 2, 7, 0xffff, 0x8000, 0xfffe]) } };
    let code = ops
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let (opcode, op, _) = ISA[*k];
            let jump = |r: &mut Rng| -> u32 {
                if r.chance(wild, 60) { return *r.pick(&[end, code_end, end + 5, P as u32 - 1]) }
                let t = if r.chance(1, 6) { r.below(ops.len()) } else { (i + 1 + r.below(3)).min(ops.len() - 1) };
                at[t]
            };
            let rel = |r: &mut Rng| -> u32 { ((jump(r) as i64 - at[i] as i64).rem_euclid(P as i64)) as u32 };
            let o = match op {
                Op::Felt(_) | Op::LoadFp | Op::ToFp | Op::U32(_) if !matches!(op, Op::U32('/')) => vec![off(r), off(r), off(r)],
                Op::U32(_) => vec![off(r), off(r), off(r), off(r)],
                Op::FeltImm(_) | Op::Le => vec![off(r), value(r, end), off(r)],
                Op::Load | Op::To => {
                    let i = if r.chance(2, 3) { r.below(4) as u32 } else { value(r, end) };
                    vec![off(r), i, off(r)]
                }
                Op::AssertEq => vec![off(r), r.below(2) as u32],
                Op::StoreImm => vec![value(r, end), off(r)],
                Op::StoreFp => vec![off(r), off(r)],
                Op::Call => vec![if r.chance(1, 10) { off(r) } else { 2 + r.below(12) as u32 }, jump(r)],
                Op::Ret => vec![],
                Op::Jmp => vec![jump(r)],
                Op::JmpRel => vec![rel(r)],
                Op::Jnz => vec![off(r), rel(r)],
                Op::U32Imm('/') => vec![off(r), limb(r), limb(r), off(r), off(r)],
                Op::U32Imm(_) => vec![off(r), limb(r), limb(r), off(r)],
                Op::U32Store => vec![limb(r), limb(r), off(r)],
                _ => vec![off(r)],
            };
            let opcode = if r.chance(wild, 600) { *r.pick(&[5, 7, 20, 25, 49, 51, 99, P as u32 - 1]) } else { opcode };
            (opcode, o)
        })
        .collect();
    Raw { code, tail, entry: if r.chance(4, 5) { 0 } else { r.below(n) }, frame, args: (0..args).map(|_| value(r, end)).collect(), returns }
}
pub fn program(x: &Raw, r: &mut Rng) -> Program {
    // data words and instructions mean the same thing
    let data = x
        .code
        .iter()
        .flat_map(|(op, o)| {
            let v: smallvec::SmallVec<_> = std::iter::once(*op).chain(o.iter().copied()).map(M31).collect();
            match cairo_m_common::Instruction::try_from(v) {
                Ok(i) if r.chance(2, 3) => vec![ProgramData::Instruction(i)],
                _ => Raw { code: vec![(*op, o.clone())], tail: vec![], ..x.clone() }.words().iter().map(|w| ProgramData::Value(qm31(w))).collect(),
            }
        })
        .chain(x.tail.iter().map(|w| ProgramData::Value(qm31(w))))
        .collect();
    Program::new(data, HashMap::new(), Default::default())
}
/// States of all segments without the repeated ones, the memory log, and the last state.
pub struct Record {
    pub trace: Vec<(u32, u32)>,
    pub log: Vec<(u32, Word)>,
    pub last: Option<(u32, u32)>,
}
fn states(s: &[cairo_m_common::State]) -> Vec<(u32, u32)> { s.iter().map(|s| (s.pc.0, s.fp.0)).collect() }
pub fn entries(s: &Segment) -> Vec<(u32, Word)> { s.memory_trace.borrow().iter().map(|e| (e.addr.0, word(&e.value))).collect() }
/// `rest`: with what an unfinished (failed) segment recorded.
pub fn record(vm: &VM, rest: bool) -> Record {
    let mut k = Record { trace: vec![], log: vec![], last: None };
    for s in &vm.segments {
        let t = states(&s.trace);
        k.last = t.last().copied();
        k.trace.extend(&t[..t.len().saturating_sub(1)]);
        k.log.extend(entries(s));
    }
    if rest {
        k.trace.extend(states(&vm.trace));
        k.log.extend(vm.memory.trace.borrow().iter().map(|e| (e.addr.0, word(&e.value))));
    }
    k
}
fn first_difference<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> Option<String> {
    if got == want { return None }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Some(format!("{what} {i}: got {:?}, the instruction set says {:?} (lengths {} and {})", got.get(i), want.get(i), got.len(), want.len()))
}
/// Compares a finished (`Ok`) or failed run with its shadow.
fn compare(vm: &VM, outcome: &Result<(), String>, s: &Shadow, want: &Result<bool, Stop>) -> Option<String> {
    let rec = record(vm, outcome.is_err());
    match (outcome, want) {
        (Ok(()), Ok(_)) => {
            if let Some(d) = first_difference("step (pc, fp)", &rec.trace, &s.trace) { return Some(d) }
            if rec.last != Some((s.pc, s.fp)) { return Some(format!("ended in {:?}, the instruction set says {:?}", rec.last, (s.pc, s.fp))) }
            if let Some(d) = first_difference("memory access", &rec.log, &s.log) { return Some(d) }
            for (a, w) in &s.mem {
                if w[1..] != [0, 0, 0] { continue }
                let got = vm.memory.get_data_no_trace(M31(*a)).map(|m| m.0);
                if got.as_ref().ok() != Some(&w[0]) { return Some(format!("memory cell {a} holds {got:?}, the instruction set says {}", w[0])) }
            }
            None
        }
        (Err(_), Err(Stop::Error(_))) => first_difference("step (pc, fp) of a failing run", &rec.trace, &s.trace),
        (Ok(()), Err(Stop::Error(e))) => Some(format!("no error although step {} at pc {} must fail: {e}", s.trace.len(), s.pc)),
        (Err(e), Ok(_)) => Some(format!("failed after {} steps: {e}", rec.trace.len())),
        (_, Err(Stop::Unspecified)) => None,
    }
}
fn raw_words_far(s: &Shadow) -> bool { s.mem.keys().any(|a| *a > 20_000 && *a < MAX_ADDRESS - 20_000) }
const LIMIT: usize = 400;
pub enum Case {
    Same(u64),
    Skip,
    Bad(String),
}
pub fn run_raw(x: &Raw, max_steps: usize, r: &mut Rng, rep: Option<&Report>) -> Case {
    let at = x.addresses();
    let mut s = Shadow::start(&x.words(), at[x.entry], x.frame, &x.args, x.returns);
    let want = s.run(LIMIT);
    if raw_words_far(&s) || matches!(want, Ok(false) | Err(Stop::Unspecified)) { return Case::Skip }
    let p = program(x, r);
    crate::guard::reset();
    let mut vm = match VM::try_from(&p) {
        Ok(v) => v,
        Err(e) => return Case::Bad(format!("the program is not loaded: {e}")),
    };
    let args: Vec<M31> = x.args.iter().map(|a| M31(*a)).collect();
    let got = catch(|| vm.run_from_entrypoint(at[x.entry], x.frame, &args, x.returns as usize, &RunnerOptions { max_steps }).map_err(|e| e.to_string())).unwrap_or_else(|p| Err(format!("panic: {p}")));
    if let Some(rep) = rep {
        rep.count("vm steps", s.trace.len() as u64);
        rep.count("memory accesses compared", s.log.len() as u64);
        match &want {
            Err(Stop::Error(e)) => rep.count(&format!("failing runs: {e}"), 1),
            _ => rep.count("finished runs", 1),
        }
        let mut seen: BTreeMap<String, u64> = BTreeMap::new();
        for (pc, _) in &s.trace {
            if let Some(i) = at.iter().position(|a| a == pc) { *seen.entry(format!("executed {:?}", find(x.code[i].0).map(|f| f.0))).or_default() += 1 }
        }
        for (k, v) in seen { rep.count(&k, v) }
    }
    match compare(&vm, &got, &s, &want) {
        Some(d) => Case::Bad(d),
        None => Case::Same(s.trace.len() as u64),
    }
}
fn shrink(x: &Raw, max_steps: usize) -> (Raw, String) {
    let fails = |y: &Raw| match run_raw(y, max_steps, &mut Rng::new(1), None) { Case::Bad(w) => Some(w), _ => None };
    let mut best = (x.clone(), fails(x).unwrap_or_default());
    if best.1.is_empty() { return best }
    // instructions become `jmp rel 1`, so that addresses stay
    for i in 0..x.code.len() {
        if words(best.0.code[i].1.len()) != 1 { continue }
        let mut y = best.0.clone();
        y.code[i] = (13, vec![1]);
        if let Some(w) = fails(&y) { best = (y, w) }
    }
    best
}
/// Runs of a compiled program: the shadow starts from the memory the runner prepared.
pub fn run_compiled(p: &Program, f: &str, args: &[cairo_m_common::InputValue], max_steps: usize, rep: Option<&Report>) -> Case {
    crate::guard::reset();
    let out = match catch(|| run_cairo_program(p, f, args, RunnerOptions { max_steps })) {
        Ok(Ok(o)) => o,
        _ => return Case::Skip,
    };
    let Some(first) = out.vm.segments.first() else { return Case::Bad("a run without a segment".into()) };
    let Some(start) = first.trace.first() else { return Case::Skip };
    let mut s = Shadow { mem: first.initial_memory.iter().map(|(a, v)| (a.0, word(&v.0))).collect(), pc: start.pc.0, fp: start.fp.0, end: out.vm.program_length.0, ..Default::default() };
    let want = s.run(prog::STEP_LIMIT);
    if let Some(rep) = rep {
        rep.count("vm steps", s.trace.len() as u64);
        rep.count("memory accesses compared", s.log.len() as u64);
        rep.count("runs of compiled programs", 1);
    }
    match compare(&out.vm, &Ok(()), &s, &want) {
        Some(d) => Case::Bad(d),
        None => Case::Same(s.trace.len() as u64),
    }
}
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn close(fd: i32) -> i32;
}
/// The print instructions write to standard output; what `f` prints goes to `path`.
pub fn redirected<T>(path: &std::path::Path, f: impl FnOnce() -> T) -> T {
    use std::os::fd::AsRawFd;
    let to = std::fs::File::create(path).expect("scratch file");
    let saved = unsafe { dup(1) };
    unsafe { dup2(to.as_raw_fd(), 1) };
    let t = f();
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        dup2(saved, 1);
        close(saved);
    }
    t
}
pub fn isa(rep: &Report) -> i32 {
    let dir = tempfile::tempdir().expect("scratch directory");
    redirected(std::path::Path::new("/dev/null"), || {
        parallel(8, rep.ctx.seed, |_, mut r| {
            while !rep.stop() {
                if r.chance(1, 60) {
                    let cfg = Cfg::random(&mut r);
                    let g = Gen::new(&mut r, cfg).program();
                    let Ok(p) = run::compile(&[("main".into(), prog::text(&g.items))], r.chance(1, 2)) else { continue };
                    let args: Vec<_> = g.main.params.iter().map(|q| prog::input(&prog::arg(&mut r, &q.ty, q.bound, &g.structs))).collect();
                    match run_compiled(&p, "main", &args, prog::STEP_LIMIT, Some(rep)) {
                        Case::Same(_) => rep.eval(hash_str(&prog::text(&g.items))),
                        Case::Skip => rep.count("skipped", 1),
                        Case::Bad(w) => rep.violation(w, format!("main({args:?})\n{}", prog::text(&g.items))),
                    }
                    continue;
                }
                let x = raw(&mut r);
                match run_raw(&x, LIMIT * 2, &mut r, Some(rep)) {
                    Case::Same(n) if n > 0 => {
                        rep.eval(hash_str(&x.show()));
                        rep.sample(|| x.show());
                    }
                    Case::Same(_) => rep.eval_trivial(),
                    Case::Skip => rep.count("skipped", 1),
                    Case::Bad(w) => {
                        rep.violation_then(w, x.show(), || {
                            let (y, w2) = shrink(&x, LIMIT * 2);
                            (!w2.is_empty() && !y.code.is_empty()).then(|| (w2, y.show()))
                        });
                    }
                }
            }
        });
        // what the print instructions show
    });
    let lines = printed(rep, dir.path());
    rep.count("printed values compared", lines);
    rep.finish("exploration", "distinct instruction sequences and compiled programs whose every state, memory access and final cell matched the reference machine")
}
/// Programs that print, one after the other, with their output compared.
fn printed(rep: &Report, dir: &std::path::Path) -> u64 {
    let path = dir.join("printed");
    let mut r = Rng::new(rep.ctx.seed ^ 77);
    let mut n = 0;
    for _ in 0..60 {
        let (lo, hi) = (r.below(0x10000) as u32, r.below(0x10000) as u32);
        let v = (r.next() % P) as u32;
        let x = Raw { code: vec![(46, vec![1]), (47, vec![2]), (9, vec![v, 1]), (46, vec![1]), (23, vec![lo, hi, 2]), (47, vec![2]), (11, vec![])], tail: vec![], entry: 0, frame: 2, args: vec![], returns: 0 };
        let mut s = Shadow::start(&x.words(), 0, x.frame, &x.args, 0);
        let _ = s.run(LIMIT);
        let out = redirected(&path, || run_raw(&x, LIMIT, &mut r, None));
        if let Case::Bad(w) = out { rep.violation(w, x.show()) }
        let text = std::fs::read_to_string(&path).unwrap_or_default();
        let nums: Vec<u64> = text.lines().filter_map(|l| l.rsplit('=').next()).map(|l| l.split(|c: char| !c.is_ascii_digit()).find(|s| !s.is_empty()).and_then(|s| s.parse().ok()).unwrap_or(u64::MAX)).collect();
        if nums != s.printed { rep.violation(format!("printed {nums:?}, the cells hold {:?}", s.printed), format!("{}{text}", x.show())) }
        n += nums.len() as u64;
    }
    n
}
