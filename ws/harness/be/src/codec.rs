//! Programs and values at the border: instruction and program encodings, arguments, returned values.
use crate::isa::*;
use crate::vm::*;
use cairo_m_common::program::{AbiSlot, AbiType, EntrypointInfo, ProgramMetadata};
use cairo_m_common::{parse_cli_arg, CairoMValue, InputValue, Instruction, Program, ProgramData};
use cairo_m_runner::vm::VM;
use cairo_m_runner::{run_cairo_program, RunnerError, RunnerOptions};
use hcore::report::{catch, hash_str, parallel, watched, Report};
use hcore::rng::Rng;
use smallvec::SmallVec;
use std::collections::HashMap;
use stwo_prover::core::fields::m31::M31;

type Fail = Result<(), String>;
fn ensure(ok: bool, what: impl FnOnce() -> String) -> Fail { if ok { Ok(()) } else { Err(what()) } }
fn small(v: &[u32]) -> SmallVec<[M31; 6]> { v.iter().map(|x| M31(*x)).collect() }
fn name(r: &mut Rng) -> String {
    let c = ["a", "main", "é", "\"", "\\", "\n", "\u{0}", "λ", "::", "0", " ", "\u{2028}", "😀", "/"];
    (0..r.range(0, 5)).map(|_| *r.pick(&c)).collect()
}
/// One instruction in every encoding.
fn instruction(words: &[u32]) -> Fail {
    let op = words[0];
    let (meaning, n) = find(op).ok_or("not an opcode")?;
    let i = Instruction::try_from(small(words)).map_err(|e| format!("{words:?} is refused: {e}"))?;
    let flat = |i: &Instruction| i.to_smallvec().iter().map(|m| m.0).collect::<Vec<_>>();
    ensure(flat(&i) == words, || format!("{words:?} becomes {:?}", flat(&i)))?;
    ensure(i.opcode_value() == op, || format!("{words:?} has opcode {}", i.opcode_value()))?;
    ensure(i.size_in_m31s() == n + 1, || format!("{words:?} has size {}", i.size_in_m31s()))?;
    ensure(i.size_in_qm31s() == crate::isa::words(n), || format!("{words:?} takes {} words", i.size_in_qm31s()))?;
    ensure(i.memory_accesses() == accesses(meaning), || format!("{words:?} accesses memory {} times, it makes {} accesses", i.memory_accesses(), accesses(meaning)))?;
    let q: Vec<u32> = i.to_qm31_vec().iter().flat_map(word).collect();
    let mut padded = words.to_vec();
    padded.resize(crate::isa::words(n) as usize * 4, 0);
    ensure(q == padded, || format!("{words:?} is laid out as {q:?}"))?;
    let json = serde_json::to_string(&i).map_err(|e| format!("{words:?} is not written: {e}"))?;
    let want = format!("[{}]", words.iter().map(|w| format!("\"0x{w:x}\"")).collect::<Vec<_>>().join(","));
    ensure(json == want, || format!("{words:?} is written as {json}"))?;
    let back: Instruction = serde_json::from_str(&json).map_err(|e| format!("{json} is not read: {e}"))?;
    ensure(back == i, || format!("{json} is read as {back:?}"))
}
/// Words that are no instruction.
fn refused(words: &[u32], json: &str) -> Fail {
    match catch(|| Instruction::try_from(small(words))) {
        Ok(Err(_)) => {}
        Ok(Ok(i)) => return Err(format!("{words:?} is accepted as {i:?}")),
        Err(p) => return Err(format!("{words:?}: panic: {p}")),
    }
    refused_text(json)
}
fn refused_text(json: &str) -> Fail {
    match catch(|| serde_json::from_str::<Instruction>(json)) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(i)) => Err(format!("{json} is read as {i:?}")),
        Err(p) => Err(format!("{json}: panic: {p}")),
    }
}
fn limb(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => r.below(20) as u32,
        1 => *r.pick(&[P as u32 - 1, 1 << 30, 0xffff, 0x10000, 0xff, 15, 16]),
        _ => (r.next() % P) as u32,
    }
}
fn hex(ws: &[u32]) -> String { format!("[{}]", ws.iter().map(|w| format!("\"0x{w:x}\"")).collect::<Vec<_>>().join(",")) }
fn encode(r: &mut Rng, rep: &Report) -> Fail {
    let (op, _, n) = *r.pick(ISA);
    let words: Vec<u32> = std::iter::once(op).chain((0..n).map(|_| limb(r))).collect();
    instruction(&words)?;
    rep.eval(hash_str(&format!("{words:?}")));
    // wrong number of operands
    let k = (0..7).filter(|k| *k != n + 1).collect::<Vec<_>>();
    let k = *r.pick(&k);
    let mut w = words.clone();
    w.resize(k, 1);
    if k < 7 { refused(&w, &hex(&w))? }
    // an opcode that is none
    let mut w = words.clone();
    w[0] = match r.below(3) { 0 => r.below(260) as u32, 1 => limb(r), _ => op.wrapping_add(1 << r.below(30)) % P as u32 };
    let size = Instruction::size_in_m31s_for_opcode(w[0]);
    ensure(size == find(w[0]).map(|f| f.1 + 1), || format!("opcode {} has size {size:?}", w[0]))?;
    let size = Instruction::size_in_qm31s_for_opcode(w[0]);
    ensure(size == find(w[0]).map(|f| crate::isa::words(f.1)), || format!("opcode {} takes {size:?} words", w[0]))?;
    if find(w[0]).is_none() { refused(&w, &hex(&w))? }
    // texts that are no numbers
    let mut t: Vec<String> = words.iter().map(|w| format!("\"0x{w:x}\"")).collect();
    let at = r.below(t.len());
    t[at] = r.pick_s(&["\"\"", "\"0x\"", "\"0xg\"", "\"-0x1\"", "\"0x100000000\"", "\"1 \"", "\"0x1_0\"", "\"é\"", "null", "1", "[]", "\"0x-1\""]);
    refused_text(&format!("[{}]", t.join(",")))?;
    rep.count("instructions refused", 3);
    Ok(())
}
fn abi(r: &mut Rng, depth: usize) -> AbiType {
    let leaf = depth == 0;
    match r.below(if leaf { 5 } else { 12 }) {
        0 | 1 => AbiType::Felt,
        2 => AbiType::Bool,
        3 => AbiType::U32,
        4 => if r.chance(1, 3) { AbiType::Unit } else { AbiType::U32 },
        5 | 6 => AbiType::Tuple((0..r.range(0, 3)).map(|_| abi(r, depth - 1)).collect()),
        7 | 8 => AbiType::Struct { name: name(r), fields: (0..r.range(0, 3)).map(|_| (name(r), abi(r, depth - 1))).collect() },
        9 | 10 => AbiType::FixedSizeArray { element: Box::new(abi(r, depth - 1)), size: r.range(0, 4) as u32 },
        _ => AbiType::Pointer { element: Box::new(abi(r, depth - 1)), len: if r.chance(1, 2) { Some(r.range(0, 4) as u32) } else { None } },
    }
}
fn slots(r: &mut Rng) -> Vec<AbiSlot> { (0..r.range(0, 3)).map(|_| AbiSlot { name: name(r), ty: abi(r, 3) }).collect() }
/// A program in a file.
fn written(r: &mut Rng, rep: &Report) -> Fail {
    let x = raw(r);
    let mut p = program(&x, r);
    for _ in 0..r.range(0, 3) { p.entrypoints.insert(name(r), EntrypointInfo { pc: r.below(1000), params: slots(r), returns: slots(r) }); }
    let o = |r: &mut Rng| if r.chance(1, 2) { Some(name(r)) } else { None };
    p.metadata = ProgramMetadata { source_file: o(r), compiled_at: o(r), compiler_version: o(r) };
    let json = serde_json::to_string(&p).map_err(|e| format!("the program is not written: {e}"))?;
    let back: Program = serde_json::from_str(&json).map_err(|e| format!("the program is not read: {e}\n{json}"))?;
    ensure(back == p, || format!("the program is read as another one\n{json}"))?;
    let pretty: Program = serde_json::from_str(&serde_json::to_string_pretty(&p).unwrap()).map_err(|e| format!("the program is not read: {e}"))?;
    ensure(pretty == p, || format!("the indented program is read as another one\n{json}"))?;
    // loaded, it is the words it says
    let vm = VM::try_from(&back).map_err(|e| format!("the program is not loaded: {e}"))?;
    let loaded: Vec<[u32; 4]> = (0..vm.program_length.0)
        .filter_map(|a| {
            let k = vm.memory.trace.borrow().len();
            let _ = vm.memory.get_instruction(M31(a));
            let t = vm.memory.trace.borrow();
            t.get(k).map(|e| word(&e.value))
        })
        .collect();
    ensure(loaded == x.words() && vm.program_length.0 as usize == loaded.len(), || format!("the program is loaded as {loaded:?}, {} words\n{}", vm.program_length.0, x.show()))?;
    // a truncated file is refused
    let mut cut = r.below(json.len());
    while !json.is_char_boundary(cut) { cut -= 1 }
    ensure(catch(|| serde_json::from_str::<Program>(&json[..cut]).is_err()).unwrap_or(false), || format!("a truncated program is read: {}", &json[..cut]))?;
    rep.count("programs written and read", 1);
    Ok(())
}
pub fn encodings(rep: &Report) -> i32 {
    parallel(8, rep.ctx.seed, |_, mut r| {
        while !rep.stop() {
            for _ in 0..20 { if let Err(w) = encode(&mut r, rep) { rep.violation(w.clone(), w); return } }
            if let Err(w) = written(&mut r, rep) { rep.violation(w.lines().next().unwrap_or("").to_string(), w); return }
        }
    });
    for op in 0..300u32 {
        let got = Instruction::size_in_m31s_for_opcode(op);
        if got != find(op).map(|f| f.1 + 1) { rep.violation(format!("opcode {op} has size {got:?}"), format!("{op}")) }
    }
    rep.count("opcodes", ISA.len() as u64);
    rep.finish("exploration", "distinct instructions encoded and decoded in every form")
}

// ---- values ----
#[derive(Clone, Debug, PartialEq)]
enum M {
    Felt(u32),
    Bool(bool),
    U32(u32),
    Tuple(Vec<M>),
    Struct(Vec<(String, M)>),
    Array(Vec<M>),
    /// Pointer without a length: the cells behind it.
    Pointer(Vec<M>),
    Unit,
}
/// What an input means as a value of a type, if anything.
fn model(t: &AbiType, v: &InputValue) -> Option<M> {
    let all = |ts: Vec<&AbiType>, vs: &[InputValue]| -> Option<Vec<M>> { if ts.len() == vs.len() { ts.iter().zip(vs).map(|(t, v)| model(t, v)).collect() } else { None } };
    let each = |t: &AbiType, vs: &[InputValue]| -> Option<Vec<M>> { vs.iter().map(|v| model(t, v)).collect() };
    Some(match (t, v) {
        (AbiType::Felt, InputValue::Number(n)) => M::Felt((*n as i128).rem_euclid(P as i128) as u32),
        (AbiType::Bool, InputValue::Bool(b)) => M::Bool(*b),
        (AbiType::Bool, InputValue::Number(n @ 0..=1)) => M::Bool(*n == 1),
        (AbiType::U32, InputValue::Number(n)) => M::U32(u32::try_from(*n).ok()?),
        (AbiType::Unit, InputValue::Unit) => M::Unit,
        (AbiType::Tuple(ts), InputValue::List(vs)) => M::Tuple(all(ts.iter().collect(), vs)?),
        (AbiType::Struct { fields, .. }, InputValue::Struct(vs)) => {
            let m = all(fields.iter().map(|f| &f.1).collect(), vs)?;
            M::Struct(fields.iter().map(|f| f.0.clone()).zip(m).collect())
        }
        (AbiType::FixedSizeArray { element, size }, InputValue::List(vs)) if vs.len() == *size as usize => M::Array(each(element, vs)?),
        (AbiType::Pointer { element, len: Some(n) }, InputValue::List(vs)) if vs.len() == *n as usize => M::Array(each(element, vs)?),
        (AbiType::Pointer { element, len: None }, InputValue::List(vs)) => M::Pointer(each(element, vs)?),
        _ => return None,
    })
}
fn slots_of(t: &AbiType) -> u32 {
    match t {
        AbiType::Felt | AbiType::Bool | AbiType::Pointer { .. } | AbiType::FixedSizeArray { .. } => 1,
        AbiType::U32 => 2,
        AbiType::Unit => 0,
        AbiType::Tuple(ts) => ts.iter().map(slots_of).sum(),
        AbiType::Struct { fields, .. } => fields.iter().map(|f| slots_of(&f.1)).sum(),
    }
}
/// Cells behind the pointers of a value.
fn behind(t: &AbiType, m: &M) -> u32 {
    match (t, m) {
        (AbiType::FixedSizeArray { element, .. } | AbiType::Pointer { element, .. }, M::Array(ms) | M::Pointer(ms)) => ms.iter().map(|m| slots_of(element) + behind(element, m)).sum(),
        (AbiType::Tuple(ts), M::Tuple(ms)) => ts.iter().zip(ms).map(|(t, m)| behind(t, m)).sum(),
        (AbiType::Struct { fields, .. }, M::Struct(ms)) => fields.iter().zip(ms).map(|(t, m)| behind(&t.1, &m.1)).sum(),
        _ => 0,
    }
}
/// The value laid out in memory from `at` on. Marks the cells behind pointers.
fn laid_out(t: &AbiType, m: &M, at: u32, read: &dyn Fn(u32) -> u32, used: &mut Vec<(u32, u32)>) -> Result<u32, String> {
    let cell = |a: u32, v: u32| ensure(read(a) == v, || format!("cell {a} holds {}, the argument has {v}", read(a)));
    Ok(match (t, m) {
        (_, M::Felt(v)) => { cell(at, *v)?; 1 }
        (_, M::Bool(b)) => { cell(at, *b as u32)?; 1 }
        (_, M::U32(v)) => { cell(at, v & 0xffff)?; cell(at + 1, v >> 16)?; 2 }
        (_, M::Unit) => 0,
        (AbiType::Tuple(ts), M::Tuple(ms)) => { let mut n = 0; for (t, m) in ts.iter().zip(ms) { n += laid_out(t, m, at + n, read, used)? } n }
        (AbiType::Struct { fields, .. }, M::Struct(ms)) => { let mut n = 0; for (t, m) in fields.iter().zip(ms) { n += laid_out(&t.1, &m.1, at + n, read, used)? } n }
        (AbiType::FixedSizeArray { element, .. } | AbiType::Pointer { element, .. }, M::Array(ms) | M::Pointer(ms)) => {
            let (p, mut n) = (read(at), 0);
            for m in ms { n += laid_out(element, m, p + n, read, used)? }
            used.push((p, p + n));
            1
        }
        _ => return Err("type and value differ".into()),
    })
}
fn same(m: &M, v: &CairoMValue, p: &dyn Fn(&[M], u32) -> Fail) -> Fail {
    let differ = || Err(format!("{m:?} comes back as {v:?}"));
    let all = |ms: &[M], vs: &[CairoMValue]| -> Fail { if ms.len() != vs.len() { return differ() } ms.iter().zip(vs).try_for_each(|(m, v)| same(m, v, p)) };
    match (m, v) {
        (M::Felt(x), CairoMValue::Felt(y)) if *x == y.0 => Ok(()),
        (M::Bool(x), CairoMValue::Bool(y)) if x == y => Ok(()),
        (M::U32(x), CairoMValue::U32(y)) if x == y => Ok(()),
        (M::Unit, CairoMValue::Unit) => Ok(()),
        (M::Tuple(ms), CairoMValue::Tuple(vs)) | (M::Array(ms), CairoMValue::Array(vs)) => all(ms, vs),
        (M::Struct(ms), CairoMValue::Struct(vs)) => {
            if ms.len() != vs.len() { return differ() }
            ms.iter().zip(vs).try_for_each(|(m, v)| if m.0 == v.0 { same(&m.1, &v.1, p) } else { differ() })
        }
        (M::Pointer(ms), CairoMValue::Pointer(a)) => p(ms, a.0),
        _ => differ(),
    }
}
fn number(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => r.below(3) as i64,
        1 => -(r.below(1000) as i64),
        2 => *r.pick(&[i64::MIN, i64::MAX, P as i64, P as i64 - 1, P as i64 + 1, -(P as i64), u32::MAX as i64, u32::MAX as i64 + 1, 0xffff, 0x10000, 1 << 31]),
        3 => r.next() as i64,
        _ => 1 + r.below(100_000) as i64,
    }
}
fn value(r: &mut Rng, t: &AbiType) -> InputValue {
    match t {
        AbiType::Felt => InputValue::Number(number(r)),
        AbiType::Bool => if r.chance(1, 2) { InputValue::Bool(r.chance(1, 2)) } else { InputValue::Number(r.below(2) as i64) },
        AbiType::U32 => InputValue::Number(match r.below(3) { 0 => *r.pick(&[0, 1, 0xffff, 0x10000, u32::MAX as i64, 1 << 31, P as i64]), _ => r.next() as u32 as i64 }),
        AbiType::Unit => InputValue::Unit,
        AbiType::Tuple(ts) => InputValue::List(ts.iter().map(|t| value(r, t)).collect()),
        AbiType::Struct { fields, .. } => InputValue::Struct(fields.iter().map(|f| value(r, &f.1)).collect()),
        AbiType::FixedSizeArray { element, size } => InputValue::List((0..*size).map(|_| value(r, element)).collect()),
        AbiType::Pointer { element, len } => InputValue::List((0..len.unwrap_or_else(|| r.range(0, 4) as u32)).map(|_| value(r, element)).collect()),
    }
}
fn nodes(v: &InputValue) -> usize { 1 + match v { InputValue::List(x) | InputValue::Struct(x) => x.iter().map(nodes).sum(), _ => 0 } }
fn change(v: &mut InputValue, at: &mut usize, f: &mut dyn FnMut(&mut InputValue)) {
    if *at == 0 { f(v); *at = usize::MAX; return }
    *at -= 1;
    if let InputValue::List(x) | InputValue::Struct(x) = v { for v in x { change(v, at, f); if *at == usize::MAX { return } } }
}
fn spoil(r: &mut Rng, v: &mut InputValue) {
    let mut at = r.below(nodes(v));
    change(v, &mut at, &mut |v| match (r.below(4), &mut *v) {
        (0, InputValue::List(x) | InputValue::Struct(x)) => { x.pop(); }
        (1, InputValue::List(x) | InputValue::Struct(x)) => { let y = x.last().cloned().unwrap_or(InputValue::Number(1)); x.push(y) }
        (2, InputValue::List(x)) => *v = InputValue::Struct(x.clone()),
        (2, InputValue::Struct(x)) => *v = InputValue::List(x.clone()),
        (0, InputValue::Number(_)) => *v = InputValue::Number(*r.pick(&[-1, 2, u32::MAX as i64 + 1, i64::MIN, i64::MAX])),
        _ => *v = r.pick(&[InputValue::Number(1), InputValue::Bool(true), InputValue::Unit, InputValue::List(vec![]), InputValue::Struct(vec![])]).clone(),
    });
}
/// Copies the argument cells to the return cells.
fn identity(params: Vec<AbiSlot>, returns: Vec<AbiSlot>, pad: usize) -> Program {
    let m: u32 = params.iter().map(|p| slots_of(&p.ty)).sum();
    let k: u32 = returns.iter().map(|p| slots_of(&p.ty)).sum();
    let mut code: Vec<ProgramData> = (0..pad).map(|_| ProgramData::Instruction(Instruction::Ret {})).collect();
    for i in 0..m.min(k) {
        code.push(ProgramData::Instruction(Instruction::StoreAddFpImm { src_off: M31(P as u32 - (m + k + 2 - i)), imm: M31(0), dst_off: M31(P as u32 - (k + 2 - i)) }));
    }
    code.push(ProgramData::Instruction(Instruction::Ret {}));
    let mut e = HashMap::new();
    e.insert("other".to_string(), EntrypointInfo { pc: 0, params: vec![], returns: vec![] });
    e.insert("main".to_string(), EntrypointInfo { pc: pad, params, returns });
    Program::new(code, e, Default::default())
}
fn call(p: &Program, f: &str, args: &[InputValue]) -> Result<Result<cairo_m_runner::RunnerOutput, RunnerError>, String> {
    crate::guard::reset();
    catch(|| run_cairo_program(p, f, args, RunnerOptions { max_steps: 10_000 })).map_err(|p| format!("panic: {p}"))
}
fn passed(r: &mut Rng, rep: &Report) -> Result<(), (String, String)> {
    let slots: Vec<AbiSlot> = (0..r.range(0, 4)).map(|i| AbiSlot { name: format!("a{i}"), ty: abi(r, 3) }).collect();
    let mut args: Vec<InputValue> = slots.iter().map(|s| value(r, &s.ty)).collect();
    if r.chance(1, 3) && !args.is_empty() { let i = r.below(args.len()); spoil(r, &mut args[i]) }
    if r.chance(1, 40) { if r.chance(1, 2) { args.pop(); } else { args.push(InputValue::Number(1)) } }
    let p = identity(slots.clone(), slots.clone(), r.range(0, 3));
    let show = format!("{slots:?}\n{args:?}");
    let fail = |w: String| (w, show.clone());
    let want: Option<Vec<M>> = if slots.len() == args.len() { slots.iter().zip(&args).map(|(s, v)| model(&s.ty, v)).collect() } else { None };
    let got = call(&p, "main", &args).map_err(fail)?;
    match (want, got) {
        (None, Ok(o)) => return Err(fail(format!("arguments that are no values of the parameter types are accepted, {:?} is returned", o.return_values))),
        (Some(_), Err(e)) => return Err(fail(format!("the arguments are refused: {e}"))),
        (None, Err(e)) => {
            let right = if slots.len() == args.len() { matches!(e, RunnerError::AbiError(_)) } else { matches!(e, RunnerError::ArgumentCountMismatch { .. }) };
            if !right { return Err(fail(format!("unfit arguments end in another error: {e}"))) }
            rep.count("arguments refused", 1);
        }
        (Some(ms), Ok(o)) => {
            let mem = |a: u32| o.vm.memory.get_data_no_trace(M31(a)).map_or(u32::MAX, |m| m.0);
            let end = o.vm.program_length.0;
            let m: u32 = slots.iter().map(|s| slots_of(&s.ty)).sum();
            let data: u32 = slots.iter().zip(&ms).map(|(s, m)| behind(&s.ty, m)).sum();
            let (mut at, mut used) = (end + data, vec![]);
            for (s, m) in slots.iter().zip(&ms) { at += laid_out(&s.ty, m, at, &mem, &mut used).map_err(fail)? }
            // the cells behind pointers are separate and lie between program and arguments
            used.retain(|u| u.0 != u.1);
            used.sort();
            if used.windows(2).any(|w| w[0].1 > w[1].0) || used.iter().any(|u| u.0 < end || u.1 > end + data) { return Err(fail(format!("array cells overlap or lie outside {end}..{}: {used:?}", end + data))) }
            if o.return_values.len() != slots.len() { return Err(fail(format!("{} values come back", o.return_values.len()))) }
            for (m, v) in ms.iter().zip(&o.return_values) {
                // a pointer without length comes back as the address that was passed: the cells behind it were checked above
                same(m, v, &|ms, a| ensure(zero_sized(ms) || used.iter().any(|u| u.0 == a), || format!("the pointer comes back as {a}"))).map_err(fail)?;
            }
            if o.public_address_ranges.input != (end..end + data + m) { return Err(fail(format!("the public input is {:?}, the arguments lie in {end}..{}", o.public_address_ranges.input, end + data + m))) }
            rep.count("array cells", data as u64);
            rep.eval(hash_str(&show));
            rep.sample(|| show.clone());
        }
    }
    if r.chance(1, 50) && !matches!(call(&p, &format!("main{}x", name(r)), &args), Ok(Err(RunnerError::EntryPointNotFound(..)))) { return Err(fail("an unknown function is called".into())) }
    Ok(())
}
fn zero_sized(ms: &[M]) -> bool {
    ms.iter().all(|m| match m {
        M::Unit => true,
        M::Tuple(x) => zero_sized(x),
        M::Struct(x) => x.iter().all(|f| zero_sized(&[f.1.clone()])),
        _ => false,
    })
}
/// Returned cells read as a type.
fn returned(r: &mut Rng, rep: &Report) -> Result<(), (String, String)> {
    fn flat(r: &mut Rng, depth: usize) -> AbiType {
        loop {
            let t = abi(r, depth);
            fn plain(t: &AbiType) -> bool {
                match t {
                    AbiType::Pointer { .. } | AbiType::FixedSizeArray { .. } => false,
                    AbiType::Tuple(x) => x.iter().all(plain),
                    AbiType::Struct { fields, .. } => fields.iter().all(|f| plain(&f.1)),
                    _ => true,
                }
            }
            if plain(&t) { return t }
        }
    }
    fn decode(t: &AbiType, c: &mut std::slice::Iter<u32>) -> Option<M> {
        Some(match t {
            AbiType::Felt => M::Felt(*c.next()?),
            AbiType::Bool => M::Bool(match *c.next()? { 0 => false, 1 => true, _ => return None }),
            AbiType::U32 => { let (l, h) = (*c.next()?, *c.next()?); if l > 0xffff || h > 0xffff { return None } M::U32(l | h << 16) }
            AbiType::Tuple(ts) => M::Tuple(ts.iter().map(|t| decode(t, c)).collect::<Option<_>>()?),
            AbiType::Struct { fields, .. } => M::Struct(fields.iter().map(|f| Some((f.0.clone(), decode(&f.1, c)?))).collect::<Option<_>>()?),
            _ => M::Unit,
        })
    }
    let returns: Vec<AbiSlot> = (0..r.range(1, 3)).map(|i| AbiSlot { name: format!("r{i}"), ty: flat(r, 2) }).collect();
    let k: u32 = returns.iter().map(|p| slots_of(&p.ty)).sum();
    let cells: Vec<u32> = (0..k).map(|_| match r.below(6) { 0 => *r.pick(&[0xffff, 0x10000, P as u32 - 1, 2]), 1 => r.next() as u32 & 0xffff, _ => r.below(2) as u32 }).collect();
    let params = (0..k).map(|i| AbiSlot { name: format!("a{i}"), ty: AbiType::Felt }).collect();
    let p = identity(params, returns.clone(), 1);
    let args: Vec<_> = cells.iter().map(|c| InputValue::Number(*c as i64)).collect();
    let fail = |w: String| (w, format!("{returns:?}\n{cells:?}"));
    let mut it = cells.iter();
    let want: Option<Vec<M>> = returns.iter().map(|s| decode(&s.ty, &mut it)).collect();
    match (want, call(&p, "main", &args).map_err(fail)?) {
        (None, Ok(o)) => Err(fail(format!("cells that are no value of the returned type are returned as {:?}", o.return_values))),
        (Some(_), Err(e)) => Err(fail(format!("returned cells are refused: {e}"))),
        (None, Err(e)) => { if !matches!(e, RunnerError::AbiError(_)) { return Err(fail(format!("another error: {e}"))) } rep.count("returned cells refused", 1); Ok(()) }
        (Some(ms), Ok(o)) => {
            if ms.len() != o.return_values.len() { return Err(fail(format!("{} values come back", o.return_values.len()))) }
            rep.count("returned cells decoded", 1);
            ms.iter().zip(&o.return_values).try_for_each(|(m, v)| same(m, v, &|_, _| Ok(()))).map_err(fail)
        }
    }
}
// ---- command line ----
fn blank(r: &mut Rng) -> &'static str { if r.chance(3, 4) { "" } else { *r.pick(&[" ", "  ", "\t", "\n", "\r\n"]) } }
pub fn cli(r: &mut Rng, v: &InputValue) -> Option<String> {
    let (a, b) = (blank(r), blank(r));
    let seq = |r: &mut Rng, x: &[InputValue], o: &str, c: &str| -> Option<String> {
        let parts: Option<Vec<String>> = x.iter().map(|v| cli(r, v)).collect();
        Some(format!("{o}{}{}{c}", parts?.join(","), blank(r)))
    };
    let t = match v {
        InputValue::Number(n) => n.to_string(),
        InputValue::Bool(b) => b.to_string(),
        InputValue::List(x) => if r.chance(1, 2) { seq(r, x, "[", "]")? } else { seq(r, x, "(", ")")? },
        InputValue::Struct(x) => seq(r, x, "{", "}")?,
        InputValue::Unit => return None,
    };
    Some(format!("{a}{t}{b}"))
}
/// The documented grammar of arguments.
fn recognised(s: &str) -> Option<InputValue> {
    fn blanks(s: &str) -> &str { s.trim_start_matches([' ', '\t', '\n', '\r', '\u{b}', '\u{c}']) }
    fn v(s: &str) -> Option<(InputValue, &str)> {
        let s = blanks(s);
        if let Some(t) = s.strip_prefix("true") { return Some((InputValue::Bool(true), t)) }
        if let Some(t) = s.strip_prefix("false") { return Some((InputValue::Bool(false), t)) }
        let c = s.chars().next()?;
        let close = match c { '[' => ']', '(' => ')', '{' => '}', _ => {
            let d = s.strip_prefix('-').unwrap_or(s);
            let n = d.bytes().take_while(u8::is_ascii_digit).count();
            let len = s.len() - d.len() + n;
            if n == 0 { return None }
            return Some((InputValue::Number(s[..len].parse().ok()?), &s[len..]))
        } };
        let mut t = blanks(&s[1..]);
        let mut x = vec![];
        if !t.starts_with(close) {
            loop {
                let (e, u) = v(t)?;
                x.push(e);
                t = blanks(u);
                match t.strip_prefix(',') { Some(u) => t = u, None => break }
            }
        }
        let t = t.strip_prefix(close)?;
        Some((if c == '{' { InputValue::Struct(x) } else { InputValue::List(x) }, t))
    }
    let (x, rest) = v(s)?;
    if blanks(rest).is_empty() { Some(x) } else { None }
}
fn parsed(r: &mut Rng, rep: &Report) -> Result<(), (String, String)> {
    let t = abi(r, 4);
    let v = value(r, &t);
    let Some(mut s) = cli(r, &v) else { return Ok(()) };
    for _ in 0..if r.chance(1, 2) { 0 } else { r.range(1, 4) } {
        let cs: Vec<char> = s.chars().collect();
        let at = r.below(cs.len() + 1);
        let mut c = cs.clone();
        match r.below(4) {
            0 if at < c.len() => { c.remove(at); }
            1 => c.truncate(at),
            2 if at < c.len() => { let b = r.below(c.len()); c.swap(at, b) }
            _ => {
                let ins = r.pick_s(&["[", "]", "(", ")", "{", "}", ",", "-", "0", "9", "9223372036854775808", "true", "tru", "fals", "false", " ", "é", "\u{a0}", "\u{85}", "+", "0x", "\u{0}", "t", "f", ".", "_"]);
                for (i, x) in ins.chars().enumerate() { c.insert(at + i, x) }
            }
        }
        s = c.into_iter().collect();
    }
    let want = recognised(&s);
    let got = catch(|| parse_cli_arg(&s)).map_err(|p| (format!("panic: {p}"), s.clone()))?;
    match (want, got) {
        (None, Err(_)) => { rep.count("texts refused", 1); Ok(()) }
        (Some(w), Ok(g)) if w == g => { rep.count("texts read", 1); Ok(()) }
        (w, g) => Err((format!("{s:?} is read as {g:?}, it denotes {w:?}"), s)),
    }
}
pub fn values(rep: &Report) -> i32 {
    parallel(8, rep.ctx.seed, |_, mut r| {
        while !rep.stop() {
            let res = watched("values", || match r.below(4) { 0 => returned(&mut r, rep), 1 => parsed(&mut r, rep), _ => passed(&mut r, rep) });
            if let Err((w, s)) = res { rep.violation(w, s) }
        }
    });
    rep.finish("exploration", "distinct argument lists passed through and read back")
}
