//! What a run leaves behind: segments, memory images, trace files and public address ranges.
use crate::isa::*;
use crate::prog;
use crate::run;
use crate::vm::*;
use cairo_m_common::{CairoMValue, InputValue, Program};
use cairo_m_runner::vm::VM;
use cairo_m_runner::{run_cairo_program, RunnerOptions};
use hcore::ast::*;
use hcore::gen_sem::{Cfg, Gen};
use hcore::report::{catch, hash_str, parallel, Report};
use hcore::rng::Rng;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use stwo_prover::core::fields::m31::M31;

type Mem = HashMap<u32, Word>;
fn nonzero(m: &Mem) -> BTreeMap<u32, Word> { m.iter().filter(|(_, w)| **w != [0; 4]).map(|(a, w)| (*a, *w)).collect() }
fn image(s: &cairo_m_common::execution::Segment) -> Result<Mem, String> {
    for (a, v) in &s.initial_memory {
        if v.1 .0 != 0 || v.2 .0 != 0 { return Err(format!("cell {} of an initial memory has clock {} and multiplicity {}", a.0, v.1 .0, v.2 .0)) }
    }
    Ok(s.initial_memory.iter().map(|(a, v)| (a.0, word(&v.0))).collect())
}
fn differ(what: &str, got: &Mem, want: &Mem) -> Result<(), String> {
    let (g, w) = (nonzero(got), nonzero(want));
    if g == w { return Ok(()) }
    let a = g.keys().chain(w.keys()).find(|a| g.get(a) != w.get(a)).unwrap();
    Err(format!("{what}: cell {a} is {:?}, it must be {:?}", g.get(a), w.get(a)))
}
/// The segments of a finished run against the single execution `want` starting from `start`.
fn segments(vm: &VM, max_steps: usize, start: &Mem, want: &Shadow) -> Result<u64, String> {
    let n = vm.segments.len();
    let steps = want.trace.len();
    let need = if steps == 0 { 1 } else { steps.div_ceil(max_steps) };
    if n != need { return Err(format!("{steps} steps in segments of {max_steps} make {n} segments, not {need}")) }
    let mut mem = start.clone();
    let (mut at, mut logged) = (0, 0);
    for (i, s) in vm.segments.iter().enumerate() {
        let want_len = (steps - at).min(max_steps) + 1;
        if s.trace.len() != want_len { return Err(format!("segment {i} holds {} states, it must hold {want_len}", s.trace.len())) }
        for (k, st) in s.trace.iter().enumerate() {
            let w = want.trace.get(at + k).copied().unwrap_or((want.pc, want.fp));
            if (st.pc.0, st.fp.0) != w { return Err(format!("state {k} of segment {i} is {:?}, it must be {w:?}", (st.pc.0, st.fp.0))) }
        }
        differ(&format!("initial memory of segment {i}"), &image(s)?, &mem)?;
        // the segment on its own reproduces its log
        let mut one = Shadow { mem: image(s)?, pc: s.trace[0].pc.0, fp: s.trace[0].fp.0, end: want.end, ..Default::default() };
        for _ in 0..want_len - 1 {
            if let Err(e) = one.step() { return Err(format!("segment {i} does not run from its own initial memory: {e:?}")) }
        }
        let log = entries(s);
        if log != one.log { return Err(format!("memory log of segment {i} ({} entries) is not what running it from its initial memory gives ({} entries)", log.len(), one.log.len())) }
        if log[..] != want.log[logged.min(want.log.len())..(logged + log.len()).min(want.log.len())] { return Err(format!("memory log of segment {i} differs from the unsegmented run")) }
        logged += log.len();
        at += want_len - 1;
        for (a, w) in log { mem.insert(a, w); }
    }
    if logged != want.log.len() { return Err(format!("{logged} memory accesses in all segments, the run makes {}", want.log.len())) }
    Ok(n as u64)
}
fn u32s(b: &[u8]) -> Vec<u32> { b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap_or_default())).collect() }
/// Writes the binary files and reads them back.
fn files(vm: &VM, dir: &Path, r: &mut Rng) -> Result<(), String> {
    let sub = *r.pick(&["", "a", "a.b", "x.y.z", "Ä", "..d"]);
    let d = dir.join(sub);
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let stem = *r.pick(&["trace", "t", "run.1", "a b", "été"]);
    let ext = *r.pick(&[".bin", "", ".x"]);
    if ext.is_empty() && stem.contains('.') { return Ok(()) }
    let path = d.join(format!("{stem}{ext}"));
    let name = |i: usize| -> PathBuf { d.join(format!("{stem}_segment_{i}{ext}")) };
    let check = |what: &str| -> Result<(), String> {
        let mut there: Vec<PathBuf> = std::fs::read_dir(&d).map_err(|e| e.to_string())?.flatten().map(|e| e.path()).filter(|p| p.is_file()).collect();
        let mut must: Vec<PathBuf> = (0..vm.segments.len()).map(name).collect();
        there.sort();
        must.sort();
        if there != must { return Err(format!("{what} to {path:?} leaves the files {there:?}, it must be {must:?}")) }
        Ok(())
    };
    let clear = || -> Result<(), String> {
        for e in std::fs::read_dir(&d).map_err(|e| e.to_string())?.flatten() { if e.path().is_file() { let _ = std::fs::remove_file(e.path()); } }
        Ok(())
    };
    clear()?;
    vm.write_binary_trace(&path).map_err(|e| format!("write_binary_trace to {path:?} failed: {e}"))?;
    check("write_binary_trace")?;
    for (i, s) in vm.segments.iter().enumerate() {
        let b = std::fs::read(name(i)).map_err(|e| e.to_string())?;
        let want: Vec<u32> = s.trace.iter().flat_map(|s| [s.fp.0, s.pc.0]).collect();
        if u32s(&b) != want || b.len() != want.len() * 4 { return Err(format!("trace file of segment {i} does not read back as its trace")) }
    }
    clear()?;
    vm.write_binary_memory_trace(&path).map_err(|e| format!("write_binary_memory_trace to {path:?} failed: {e}"))?;
    check("write_binary_memory_trace")?;
    for (i, s) in vm.segments.iter().enumerate() {
        let b = std::fs::read(name(i)).map_err(|e| e.to_string())?;
        let mut want = vec![vm.program_length.0];
        for (a, w) in entries(s) { want.push(a); want.extend(w) }
        if u32s(&b) != want || b.len() != want.len() * 4 { return Err(format!("memory trace file of segment {i} does not read back as its program length and memory log")) }
    }
    clear()
}
fn one_raw(x: &Raw, max_steps: usize, dir: &Path, r: &mut Rng, rep: &Report) -> Result<bool, String> {
    let at = x.addresses();
    let mut s = Shadow::start(&x.words(), at[x.entry], x.frame, &x.args, x.returns);
    let start = s.mem.clone();
    let want = s.run(400);
    if s.mem.keys().any(|a| *a > 20_000 && *a < MAX_ADDRESS - 20_000) || !matches!(want, Ok(true)) { return Ok(false) }
    let p = program(x, r);
    crate::guard::reset();
    let mut vm = VM::try_from(&p).map_err(|e| e.to_string())?;
    let args: Vec<M31> = x.args.iter().map(|a| M31(*a)).collect();
    catch(|| vm.run_from_entrypoint(at[x.entry], x.frame, &args, x.returns as usize, &RunnerOptions { max_steps }).map_err(|e| e.to_string())).unwrap_or_else(|p| Err(format!("panic: {p}")))?;
    let n = segments(&vm, max_steps, &start, &s)?;
    rep.count("segments", n);
    rep.count("states", s.trace.len() as u64);
    if r.chance(1, 20) { files(&vm, dir, r)?; rep.count("runs written to files and read back", 1) }
    Ok(true)
}
/// The cells arguments occupy, in the order the calling convention gives them: array data as materialised, then the slots.
fn flat(v: &CairoMValue, out: &mut Vec<u32>) -> bool {
    match v {
        CairoMValue::Felt(a) => out.push(a.0),
        CairoMValue::Bool(b) => out.push(*b as u32),
        CairoMValue::U32(a) => out.extend([a & 0xffff, a >> 16]),
        CairoMValue::Tuple(x) => return x.iter().all(|x| flat(x, out)),
        CairoMValue::Struct(x) => return x.iter().all(|x| flat(&x.1, out)),
        CairoMValue::Unit => {}
        CairoMValue::Pointer(_) | CairoMValue::Array(_) => return false,
    }
    true
}
fn scalars(v: &InputValue, u32s: &mut dyn FnMut(i64)) {
    match v {
        InputValue::Number(n) => u32s(*n),
        InputValue::Bool(b) => u32s(*b as i64),
        InputValue::List(x) | InputValue::Struct(x) => x.iter().for_each(|x| scalars(x, u32s)),
        InputValue::Unit => {}
    }
}
fn slots(t: &Ty, s: &hcore::gen_sem::Structs) -> (u32, u32) {
    // (call slots, cells of materialised arrays)
    match t {
        Ty::Felt | Ty::Bool | Ty::Ptr(_) => (1, 0),
        Ty::U32 => (2, 0),
        Ty::Array(t, n) => { let (a, b) = slots(t, s); (1, *n as u32 * (a + b)) }
        Ty::Tuple(v) => v.iter().map(|t| slots(t, s)).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1)),
        Ty::Named(n) => s[n].iter().map(|(_, t)| slots(t, s)).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1)),
    }
}
fn one_compiled(r: &mut Rng, dir: &Path, rep: &Report) -> Option<(String, String)> {
    let cfg = Cfg::random(r);
    let g = Gen::new(r, cfg).program();
    let text = prog::text(&g.items);
    let Ok(p) = run::compile(&[("main".into(), text.clone())], r.chance(1, 2)) else { return None };
    let args: Vec<_> = g.main.params.iter().map(|q| prog::input(&prog::arg(r, &q.ty, q.bound, &g.structs))).collect();
    let all = match run::run(&p, "main", &args, prog::STEP_LIMIT) {
        Ok(Ok(o)) => o,
        _ => { rep.count("skipped", 1); return None }
    };
    let steps = all.vm.segments.iter().map(|s| s.trace.len() - 1).sum::<usize>();
    let fail = |w: String| Some((w, format!("main({args:?})\n{text}")));
    if all.vm.segments.len() != 1 { return None }
    let s0 = &all.vm.segments[0];
    let start = match image(s0) { Ok(m) => m, Err(e) => return fail(e) };
    // the first memory: the program, the arguments and the frame of the call
    let (k, m) = g.main.params.iter().map(|q| slots(&q.ty, &g.structs)).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));
    let outs = slots(&g.main.ret, &g.structs).0;
    let end = all.vm.program_length.0;
    let fp = end + m + k + outs + 2;
    if s0.trace[0].fp.0 != fp { return fail(format!("the run starts with fp {}, the layout puts it at {fp}", s0.trace[0].fp.0)) }
    let code: Vec<Word> = p.data.iter().flat_map(|d| d.to_qm31_vec()).map(|q| word(&q)).collect();
    for (i, w) in code.iter().enumerate() {
        if start.get(&(i as u32)) != Some(w) { return fail(format!("program word {i} is {:?} in the initial memory, not {w:?}", start.get(&(i as u32)))) }
    }
    if code.len() as u32 != end { return fail(format!("program length {end}, the program has {} words", code.len())) }
    if start.get(&(fp - 2)) != Some(&[fp, 0, 0, 0]) || start.get(&(fp - 1)) != Some(&[end, 0, 0, 0]) { return fail("the initial memory lacks the frame of the call".into()) }
    for (a, w) in &start {
        if *w != [0; 4] && (*a >= fp || (*a >= end + m + k && *a < fp - 2)) { return fail(format!("cell {a} of the initial memory is {w:?} before the run")) }
    }
    // every number of the arguments is in the input range
    let ranges = &all.public_address_ranges;
    let want = (0..end, end..end + m + k, end + m + k..end + m + k + outs);
    if (ranges.program.clone(), ranges.input.clone(), ranges.output.clone()) != want { return fail(format!("public address ranges {ranges:?}, the layout is {want:?}")) }
    // the output range holds what the run returned
    let last = &mut nonzero(&start).into_iter().collect::<Mem>();
    for (a, w) in entries(s0) { last.insert(a, w); }
    let mut flatv = vec![];
    if all.return_values.iter().all(|v| flat(v, &mut flatv)) {
        let got: Vec<u32> = ranges.output.clone().map(|a| last.get(&a).map_or(0, |w| w[0])).collect();
        if got != flatv { return fail(format!("the output range holds {got:?}, the run returned {flatv:?}")) }
        rep.count("output ranges compared", 1);
    }
    let mut nums = vec![];
    args.iter().for_each(|a| scalars(a, &mut |n| nums.push(n)));
    let cells: Vec<u32> = ranges.input.clone().map(|a| start.get(&a).map_or(0, |w| w[0])).collect();
    if k + m > 0 && cells.iter().all(|c| *c == 0) && nums.iter().any(|n| *n != 0) { return fail("the input range holds only zeros".into()) }
    // the same run in segments
    let mut want = Shadow { mem: start.clone(), pc: s0.trace[0].pc.0, fp, end, ..Default::default() };
    match want.run(prog::STEP_LIMIT) { Ok(true) => {} _ => return fail("the run does not end on the reference machine".into()) }
    let least = (steps * start.len().max(40) / 200_000).max(1);
    for _ in 0..2 {
        let max_steps = match r.below(5) {
            0 => least,
            1 => steps.max(least),
            2 => (steps / 2).max(least),
            3 => (steps + 1).max(least),
            _ => r.range(least, steps.max(least) + 1),
        };
        let o = match catch(|| run_cairo_program(&p, "main", &args, RunnerOptions { max_steps })) {
            Ok(Ok(o)) => o,
            e => return fail(format!("with max_steps {max_steps} the run fails: {:?}", e.map(|e| e.map(|_| ()).map_err(|e| e.to_string())))),
        };
        if o.return_values != all.return_values { return fail(format!("with max_steps {max_steps} the run returns {:?}, with one segment {:?}", o.return_values, all.return_values)) }
        if o.public_address_ranges != all.public_address_ranges { return fail(format!("public address ranges depend on max_steps {max_steps}")) }
        match segments(&o.vm, max_steps, &start, &want) {
            Ok(n) => { rep.count("segments", n); rep.count("states", steps as u64) }
            Err(w) => return fail(format!("max_steps {max_steps}: {w}")),
        }
        if r.chance(1, 6) {
            if let Err(w) = files(&o.vm, dir, r) { return fail(w) }
            rep.count("runs written to files and read back", 1);
        }
    }
    rep.count("compiled programs", 1);
    rep.eval(hash_str(&text));
    rep.sample(|| text.clone());
    None
}
pub fn records(rep: &Report) -> i32 {
    let dir = tempfile::tempdir().expect("scratch directory");
    redirected(Path::new("/dev/null"), || {
        parallel(8, rep.ctx.seed, |k, mut r| {
            let dir = dir.path().join(format!("{k}"));
            std::fs::create_dir_all(&dir).unwrap();
            while !rep.stop() {
                if r.chance(1, 12) {
                    if let Some((w, p)) = one_compiled(&mut r, &dir, rep) { rep.violation(w, p) }
                    continue;
                }
                let x = raw(&mut r);
                let max_steps = *r.pick(&[1, 1, 2, 3, 5, 8, 13, 40, 400]);
                match one_raw(&x, max_steps, &dir, &mut r, rep) {
                    Ok(true) => rep.eval(hash_str(&format!("{max_steps} {}", x.show()))),
                    Ok(false) => rep.count("skipped", 1),
                    Err(w) => rep.violation(format!("max_steps {max_steps}: {w}"), x.show()),
                }
            }
        });
    });
    rep.finish("exploration", "distinct programs whose segments, memory images, files and address ranges were compared with the reference execution")
}
/// Steps of compiled programs that read one cell twice.
pub fn reads(rep: &Report) -> i32 {
    redirected(Path::new("/dev/null"), || {
        parallel(8, rep.ctx.seed, |_, mut r| {
            while !rep.stop() {
                let cfg = Cfg::random(&mut r);
                let g = Gen::new(&mut r, cfg).program();
                let text = prog::text(&g.items);
                for opt in [true, false] {
                    let Ok(p) = run::compile(&[("main".into(), text.clone())], opt) else { continue };
                    let args: Vec<_> = g.main.params.iter().map(|q| prog::input(&prog::arg(&mut r, &q.ty, q.bound, &g.structs))).collect();
                    let Ok(Ok(o)) = run::run(&p, "main", &args, prog::STEP_LIMIT) else { continue };
                    if let Some(w) = twice(&p, &o.vm, rep) { rep.violation(format!("{w} (optimize={opt})"), format!("main({args:?})\n{text}")) }
                    rep.eval(hash_str(&text));
                }
                rep.sample(|| text.clone());
            }
        });
    });
    rep.finish("exploration", "distinct compiled programs of which every step was checked")
}
pub fn twice(p: &Program, vm: &VM, rep: &Report) -> Option<String> {
    let s0 = vm.segments.first()?;
    let mut s = Shadow { mem: image(s0).ok()?, pc: s0.trace[0].pc.0, fp: s0.trace[0].fp.0, end: vm.program_length.0, ..Default::default() };
    let _ = s.run(prog::STEP_LIMIT);
    rep.count("steps", s.trace.len() as u64);
    rep.count("cells read", s.log.len() as u64);
    let (pc, a) = *s.twice.first()?;
    let mut at = 0;
    let i = p.data.iter().find(|d| { let h = at == pc; at += d.to_qm31_vec().len() as u32; h });
    Some(format!("the instruction at {pc} ({i:?}) reads cell {a} twice"))
}
