//! The prover's input of every segment, checked as the sums the proof will check.
use crate::adapter::import_from_runner_output;
use crate::adapter::io::{MemoryEntryFileIter, TraceFileIter};
use crate::adapter::memory::RC20_LIMIT;
use crate::adapter::merkle::{NodeData, TREE_HEIGHT};
use crate::adapter::ProverInput;
use crate::isa::*;
use crate::poseidon2::mix;
use crate::prog;
use crate::run;
use crate::vm::*;
use cairo_m_common::execution::Segment;
use cairo_m_common::{PublicAddressRanges, State};
use cairo_m_runner::vm::VM;
use cairo_m_runner::{run_cairo_program, RunnerOptions};
use hcore::gen_sem::{Cfg, Gen};
use hcore::report::{catch, hash_str, parallel, watched, Report};
use hcore::rng::Rng;
use std::collections::{BTreeMap, HashMap};
use std::ops::Range;
use std::path::Path;
use stwo_prover::core::fields::m31::M31;
use stwo_prover::core::fields::qm31::QM31;

const MINUS: u32 = P as u32 - 1;
type Cells = HashMap<M31, (QM31, M31, M31)>;
#[derive(Default)]
struct Sum(HashMap<(u32, u32, Word), i64>);
impl Sum {
    fn add(&mut self, a: u32, clock: u32, w: Word, n: i64) { *self.0.entry((a, clock, w)).or_default() += n }
    fn unbalanced(&self) -> Option<String> {
        let mut v: Vec<_> = self.0.iter().filter(|e| *e.1 != 0).collect();
        v.sort();
        v.first().map(|((a, c, w), n)| format!("the memory entries do not balance: cell {a} with {w:?} at clock {c} is left {n} times ({} entries unbalanced)", v.len()))
    }
}
fn contains(r: &PublicAddressRanges, a: u32) -> bool { r.program.contains(&a) || r.input.contains(&a) }
fn decoded(ws: &[Word]) -> (u32, Vec<u32>) {
    let f: Vec<u32> = ws.iter().flatten().copied().collect();
    let n = find(f[0]).map_or(3, |x| x.1);
    (f[0], f[1..=n].to_vec())
}
/// Bundles, accesses and memory against the segment they come from. Returns the cells the segment touches first.
fn execution(p: &ProverInput, seg: &Segment, ranges: &PublicAddressRanges) -> Result<Vec<(u32, Word)>, String> {
    let steps = seg.trace.len() - 1;
    let mut bundles: Vec<_> = p.instructions.states_by_opcodes.iter().flat_map(|(k, v)| v.iter().map(move |b| (*k, b))).collect();
    bundles.sort_by_key(|b| b.1.clock.0);
    if bundles.len() != steps { return Err(format!("{} bundles for {steps} steps", bundles.len())) }
    let reg = |s: &State| (s.pc.0, s.fp.0);
    if reg(&p.instructions.initial_registers) != reg(&seg.trace[0]) { return Err("the initial registers are not the first state".into()) }
    if reg(&p.instructions.final_registers) != reg(&seg.trace[steps]) { return Err("the final registers are not the last state".into()) }
    let log = entries(seg);
    let mut at = 0;
    let mut sum = Sum::default();
    let mut span_at = 0u32;
    let mut mem: HashMap<u32, (Word, u32)> = seg.initial_memory.iter().map(|(a, v)| (a.0, (word(&v.0), 0))).collect();
    let mut fresh: Vec<(u32, Word)> = vec![];
    for (i, (key, b)) in bundles.iter().enumerate() {
        let clock = i as u32 + 1;
        if b.clock.0 != clock { return Err(format!("step {i} has clock {}", b.clock.0)) }
        if reg(&b.registers) != reg(&seg.trace[i]) { return Err(format!("step {i} has registers {:?}, the trace {:?}", reg(&b.registers), reg(&seg.trace[i]))) }
        let pc = b.registers.pc.0;
        let (_, n) = find(log[at].1[0]).ok_or("a step without an opcode")?;
        let size = words(n) as usize;
        let fetched: Vec<Word> = log[at..at + size].iter().map(|e| e.1).collect();
        let (op, operands) = decoded(&fetched);
        let ins: Vec<u32> = b.instruction.instruction.to_smallvec().iter().map(|m| m.0).collect();
        if *key != op || ins[0] != op || ins[1..] != operands[..] { return Err(format!("step {i} is filed under opcode {key} as {ins:?}, it executed {op} {operands:?}")) }
        for (k, w) in fetched.iter().enumerate() {
            sum.add(pc + k as u32, b.instruction.prev_clock.0, *w, -1);
            sum.add(pc + k as u32, clock, *w, 1);
            mem.insert(pc + k as u32, (*w, clock));
        }
        let gap = |prev: u32, what: &str| -> Result<(), String> {
            if prev > clock || clock - prev > 1 << 20 { return Err(format!("step {i} (clock {clock}) follows {what} at clock {prev}: the difference cannot be range checked")) }
            Ok(())
        };
        gap(b.instruction.prev_clock.0, "the fetch of its instruction")?;
        if b.instruction.prev_clock.0 == clock { return Err(format!("the fetch of step {i} follows itself")) }
        at += size;
        let span = b.access_span;
        if span.start != span_at { return Err(format!("the accesses of step {i} start at {}, the steps before end at {span_at}", span.start)) }
        span_at += span.len as u32;
        let acc = p.instructions.data_accesses.get(span.start as usize..span_at as usize).ok_or("accesses out of range")?;
        for (k, a) in acc.iter().enumerate() {
            let Some((addr, w)) = log.get(at) else { return Err(format!("step {i} has more accesses than the log")) };
            at += 1;
            if (a.address.0, a.value.0) != (*addr, w[0]) { return Err(format!("access {k} of step {i} is cell {} with {}, the log has cell {addr} with {}", a.address.0, a.value.0, w[0])) }
            match mem.get(addr) {
                Some((v, c)) => {
                    if v[0] != a.prev_value.0 { return Err(format!("access {k} of step {i} to cell {addr} has previous value {}, the cell held {}", a.prev_value.0, v[0])) }
                    if a.prev_clock.0 < *c || (a.prev_clock.0 - c) % RC20_LIMIT != 0 { return Err(format!("access {k} of step {i} to cell {addr} has previous clock {}, the cell was last used at {c}", a.prev_clock.0)) }
                    if *c < clock && a.prev_clock.0 == clock { return Err(format!("access {k} of step {i} to cell {addr} has its own clock as previous one")) }
                }
                None => fresh.push((*addr, *w)),
            }
            gap(a.prev_clock.0, "the last use of the cell")?;
            mem.insert(*addr, (*w, clock));
            sum.add(*addr, a.prev_clock.0, [a.prev_value.0, 0, 0, 0], -1);
            sum.add(*addr, clock, *w, 1);
        }
    }
    if at != log.len() { return Err(format!("the steps use {at} of {} log entries", log.len())) }
    if span_at as usize != p.instructions.data_accesses.len() { return Err("accesses that belong to no step".into()) }
    // the memory before and after
    let image: HashMap<u32, Word> = seg.initial_memory.iter().map(|(a, v)| (a.0, word(&v.0))).chain(fresh.iter().copied()).collect();
    if p.memory.initial_memory.len() != image.len() { return Err(format!("{} initial cells, the segment has {}", p.memory.initial_memory.len(), image.len())) }
    if p.memory.final_memory.len() != image.len() { return Err(format!("{} final cells, the segment has {}", p.memory.final_memory.len(), image.len())) }
    for (a, (v, c, m)) in &p.memory.initial_memory {
        if image.get(&a.0) != Some(&word(v)) || c.0 != 0 { return Err(format!("initial cell {} is {:?} at clock {}, the segment starts with {:?}", a.0, word(v), c.0, image.get(&a.0))) }
        if m.0 > 1 { return Err(format!("initial cell {} has multiplicity {}", a.0, m.0)) }
        sum.add(a.0, 0, word(v), m.0 as i64);
        if contains(ranges, a.0) { sum.add(a.0, 0, word(v), 1) }
    }
    for (a, (v, c, m)) in &p.memory.final_memory {
        let want = mem.get(&a.0).copied().unwrap_or_else(|| (image.get(&a.0).copied().unwrap_or_default(), 0));
        if (word(v), c.0) != want { return Err(format!("final cell {} is {:?} at clock {}, the segment leaves {want:?}", a.0, word(v), c.0)) }
        let m = if m.0 == MINUS { -1 } else { m.0 as i64 };
        if !(-1..=0).contains(&m) { return Err(format!("final cell {} has multiplicity {m}", a.0)) }
        sum.add(a.0, c.0, word(v), m);
        if ranges.output.contains(&a.0) { sum.add(a.0, c.0, word(v), -1) }
    }
    for (a, c, v) in &p.memory.clock_update_data {
        sum.add(a.0, c.0, word(v), -1);
        sum.add(a.0, c.0 + RC20_LIMIT, word(v), 1);
    }
    match sum.unbalanced() { Some(w) => Err(w), None => Ok(fresh) }
}
fn root_of(leaves: &BTreeMap<u32, u32>) -> u32 {
    let mut level: BTreeMap<u32, u32> = leaves.clone();
    let mut default = 0;
    for _ in 0..TREE_HEIGHT {
        let mut up = BTreeMap::new();
        for i in level.keys().map(|k| k >> 1).collect::<std::collections::BTreeSet<_>>() {
            let l = level.get(&(2 * i)).copied().unwrap_or(default);
            let r = level.get(&(2 * i + 1)).copied().unwrap_or(default);
            up.insert(i, mix(l, r));
        }
        default = mix(default, default);
        level = up;
    }
    level.get(&0).copied().unwrap_or(default)
}
fn leaves(m: &HashMap<u32, Word>) -> BTreeMap<u32, u32> { m.iter().flat_map(|(a, w)| (0..4u32).map(move |k| (a * 4 + k, w[k as usize]))).collect() }
fn cells(m: &Cells) -> HashMap<u32, Word> { m.iter().map(|(a, v)| (a.0, word(&v.0))).collect() }
fn tree(what: &str, nodes: &[NodeData], root: Option<M31>, m: &Cells, public: &[Range<u32>]) -> Result<(), String> {
    let want = leaves(&cells(m));
    if root.map(|r| r.0) != Some(root_of(&want)) { return Err(format!("the {what} root is {root:?}, the memory hashes to {}", root_of(&want))) }
    let mut parents: HashMap<(u32, u32), u32> = HashMap::new();
    for n in nodes {
        if mix(n.left_value.value.0, n.right_value.value.0) != n.parent_value.value.0 { return Err(format!("a node of the {what} tree is not the hash of its children")) }
        if n.parent_value.multiplicity.0 != 1 { return Err(format!("a parent of the {what} tree has multiplicity {}", n.parent_value.multiplicity.0)) }
        if n.index.0 % 2 != 0 || n.depth == 0 || n.depth as u32 > TREE_HEIGHT { return Err(format!("a node of the {what} tree has index {} and depth {}", n.index.0, n.depth)) }
        if parents.insert((n.depth as u32 - 1, n.index.0 / 2), n.parent_value.value.0).is_some() { return Err(format!("the {what} tree holds a node twice")) }
    }
    let mut used = 0;
    for n in nodes {
        for (i, v) in [(n.index.0, n.left_value), (n.index.0 + 1, n.right_value)] {
            let (have, mult) = if n.depth as u32 == TREE_HEIGHT {
                let p = public.iter().any(|r| r.contains(&(i / 4)));
                (want.get(&i).copied(), 1 + p as u32)
            } else {
                (parents.get(&(n.depth as u32, i)).copied(), 1)
            };
            used += have.is_some() as usize;
            let mut default = 0;
            for _ in n.depth as u32..TREE_HEIGHT { default = mix(default, default) }
            let expected = have.map_or((default, 0), |h| (h, mult));
            if (v.value.0, v.multiplicity.0) != expected { return Err(format!("node {i} at depth {} of the {what} tree is used as {:?}, it is produced as {expected:?} (value, times)", n.depth, (v.value.0, v.multiplicity.0))) }
        }
    }
    if used != want.len() + parents.len() - 1 { return Err(format!("the {what} tree uses {used} of its {} leaves and nodes", want.len() + parents.len() - 1)) }
    Ok(())
}
fn check(segs: &[Segment], ranges: &PublicAddressRanges, rep: &Report) -> Result<(), String> {
    let mut before: Option<u32> = None;
    for (i, s) in segs.iter().enumerate() {
        let at = |w: String| format!("segment {i} of {}: {w}", segs.len());
        let p = match catch(|| import_from_runner_output(s.clone(), ranges.clone())) {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => return Err(at(format!("the adapter refuses it: {e}"))),
            Err(e) => return Err(at(format!("the adapter panics: {e}"))),
        };
        let fresh = execution(&p, s, ranges).map_err(at)?;
        tree("initial", &p.merkle_trees.initial_tree, p.merkle_trees.initial_root, &p.memory.initial_memory, &[ranges.program.clone(), ranges.input.clone()]).map_err(at)?;
        tree("final", &p.merkle_trees.final_tree, p.merkle_trees.final_root, &p.memory.final_memory, &[ranges.output.clone()]).map_err(at)?;
        let want: Vec<[u32; 2]> = p.merkle_trees.initial_tree.iter().chain(&p.merkle_trees.final_tree).map(|n| [n.left_value.value.0, n.right_value.value.0]).collect();
        let got: Vec<[u32; 2]> = p.poseidon2_inputs.iter().map(|h| [h[0].0, h[1].0]).collect();
        if got != want || p.poseidon2_inputs.iter().any(|h| h[2..].iter().any(|x| x.0 != 0)) { return Err(at("the hash inputs are not the nodes of the trees".into())) }
        if p.public_address_ranges != *ranges { return Err(at("the public address ranges changed".into())) }
        // a segment starts from the memory the one before committed to
        if let (Some(b), Some(r)) = (before, p.merkle_trees.initial_root) {
            if b != r.0 {
                let fresh_values = fresh.iter().any(|f| f.1 != [0; 4]);
                let mut m = cells(&p.memory.initial_memory);
                for f in &fresh { m.insert(f.0, [0; 4]); }
                let listed = fresh_values && root_of(&leaves(&m)) == b && rep.known("continuation-new-cell");
                if !listed {
                    return Err(at("its initial root is not the final root of the segment before".into()));
                }
            }
        }
        before = p.merkle_trees.final_root.map(|r| r.0);
        rep.count("segments imported", 1);
        rep.count("accesses", p.instructions.data_accesses.len() as u64);
        rep.count("tree nodes", (p.merkle_trees.initial_tree.len() + p.merkle_trees.final_tree.len()) as u64);
        rep.count("clock updates", p.memory.clock_update_data.len() as u64);
        rep.count("cells first touched by a segment", fresh.len() as u64);
    }
    Ok(())
}
/// The files a run writes, read with the adapter's readers.
fn files(vm: &VM, dir: &Path) -> Result<(), String> {
    let e = |x: &dyn std::fmt::Display| x.to_string();
    let (t, m) = (dir.join("trace.bin"), dir.join("memory.bin"));
    vm.write_binary_trace(&t).map_err(|x| e(&x))?;
    vm.write_binary_memory_trace(&m).map_err(|x| e(&x))?;
    for (i, s) in vm.segments.iter().enumerate() {
        let (t, m) = (dir.join(format!("trace_segment_{i}.bin")), dir.join(format!("memory_segment_{i}.bin")));
        let trace: Vec<State> = TraceFileIter::try_from(t.as_path()).map_err(|x| e(&x))?.map(Into::into).collect();
        if trace != s.trace { return Err(format!("the trace file of segment {i} reads as another trace")) }
        let it = MemoryEntryFileIter::try_from(m.as_path()).map_err(|x| e(&x))?;
        if it.program_length() as u32 != vm.program_length.0 { return Err(format!("the memory file of segment {i} reads as program length {}", it.program_length())) }
        let log: Vec<cairo_m_common::state::MemoryEntry> = it.map(Into::into).collect();
        if log != *s.memory_trace.borrow() { return Err(format!("the memory file of segment {i} reads as another log")) }
        let _ = (std::fs::remove_file(t), std::fs::remove_file(m));
    }
    Ok(())
}
fn one_raw(x: &Raw, max_steps: usize, limit: usize, r: &mut Rng, rep: &Report) -> Result<bool, String> {
    let at = x.addresses();
    let mut s = Shadow::start(&x.words(), at[x.entry], x.frame, &x.args, x.returns);
    let want = s.run(limit);
    if !matches!(want, Ok(true)) || s.trace.is_empty() { return Ok(false) }
    if s.mem.keys().any(|a| *a > 20_000 && *a < MAX_ADDRESS - 20_000) { return Ok(false) }
    // data accesses to instruction words are outside what the prover's components model
    let end = s.end;
    // (also where the run writes other instructions over them)
    let code = x.words();
    if s.log.iter().any(|e| e.0 < end && e.1 != code[e.0 as usize]) { return Ok(false) }
    let fetched: usize = s.trace.iter().map(|(pc, _)| words(find(code[*pc as usize][0]).map_or(3, |f| f.1)) as usize).sum();
    if s.log.iter().filter(|e| e.0 < end).count() != fetched { return Ok(false) }
    let p = program(x, r);
    crate::guard::allow(limit as i64 * 1000);
    let mut vm = VM::try_from(&p).map_err(|e| e.to_string())?;
    let args: Vec<M31> = x.args.iter().map(|a| M31(*a)).collect();
    catch(|| vm.run_from_entrypoint(at[x.entry], x.frame, &args, x.returns as usize, &RunnerOptions { max_steps }).map_err(|e| e.to_string())).unwrap_or_else(|p| Err(format!("panic: {p}")))?;
    let e = vm.program_length.0;
    let (i, o) = (e + x.frame - 2 - x.returns, e + x.frame - 2);
    let ranges = PublicAddressRanges { program: 0..e, input: e..i, output: i..o };
    check(&vm.segments, &ranges, rep)?;
    rep.count("steps", s.trace.len() as u64);
    Ok(true)
}
/// A loop that leaves cells alone for longer than `reach` range checks reach.
fn long(reach: u32, r: &mut Rng) -> (Raw, usize) {
    let n = reach * 524_288 - 4 + *r.pick(&[0, 1, 2, 3, 4, 5, 16, 76_000]);
    let neg = |k: u32| P as u32 - k;
    let mut code = vec![];
    for c in 1..8 {
        if r.chance(4, 5) { code.push((9, vec![c + 6, c])) }
    }
    if r.chance(1, 2) { code.push((23, vec![5, 6, 4])) }
    code.push((9, vec![n, 0]));
    // [fp] -= 1; jnz [fp] back
    code.push((4, vec![0, neg(1), 0]));
    code.push((14, vec![0, neg(1)]));
    for _ in 0..r.range(4, 10) {
        let mut c = || 1 + r.below(7) as u32;
        let (x, y, z) = (c(), c(), c());
        code.push(match r.below(6) {
            0 => (9, vec![x + 6, x]),
            1 => (9, vec![y, x]),
            2 => (4, vec![x, 0, x]),
            3 => (4, vec![x, 3, y]),
            4 => (23, vec![y, z, x]),
            _ => (0, vec![x, y, z]),
        });
    }
    code.push((11, vec![]));
    (Raw { code, tail: vec![], entry: 0, frame: 2 + 1, args: vec![], returns: 1 }, reach as usize * 1_048_576 + 200_000)
}
fn one_compiled(r: &mut Rng, dir: &Path, rep: &Report) -> Option<(String, String)> {
    let cfg = Cfg::random(r);
    let g = Gen::new(r, cfg).program();
    let text = prog::text(&g.items);
    let Ok(p) = run::compile(&[("main".into(), text.clone())], r.chance(2, 3)) else { return None };
    let args: Vec<_> = g.main.params.iter().map(|q| prog::input(&prog::arg(r, &q.ty, q.bound, &g.structs))).collect();
    let all = match run::run(&p, "main", &args, prog::STEP_LIMIT) {
        Ok(Ok(o)) => o,
        _ => { rep.count("skipped", 1); return None }
    };
    let steps = all.vm.segments.iter().map(|s| s.trace.len() - 1).sum::<usize>();
    if steps == 0 || steps > 20_000 { return None }
    let max_steps = if r.chance(1, 2) { steps } else { r.range((steps / 8).max(1), steps + 1) };
    let o = match catch(|| run_cairo_program(&p, "main", &args, RunnerOptions { max_steps })) {
        Ok(Ok(o)) => o,
        _ => return None,
    };
    let fail = |w: String| Some((format!("max_steps {max_steps}: {w}"), format!("main({args:?})\n{text}")));
    if let Err(w) = check(&o.vm.segments, &o.public_address_ranges, rep) { return fail(w) }
    if r.chance(1, 10) { if let Err(w) = files(&o.vm, dir) { return fail(w) } rep.count("runs read back from files", 1) }
    rep.count("steps", steps as u64);
    rep.count("compiled programs", 1);
    rep.eval(hash_str(&text));
    rep.sample(|| text.clone());
    None
}
pub fn input(rep: &Report) -> i32 {
    let dir = tempfile::tempdir().expect("scratch directory");
    redirected(Path::new("/dev/null"), || {
        parallel(8, rep.ctx.seed, |k, mut r| {
            let dir = dir.path().join(format!("{k}"));
            std::fs::create_dir_all(&dir).unwrap();
            let mut n = 0;
            while !rep.stop() {
                n += 1;
                if n == 1 + k as usize * 3 || n == 60 + k as usize * 5 {
                    // one thread takes the longest: they need memory
                    let reach = match (k, n) { (0, 1) => 3 + r.below(2) as u32, (1..4, _) => 2, _ => 1 };
                    let (x, limit) = long(reach, &mut r);
                    match watched(&x.show(), || one_raw(&x, limit, limit, &mut r, rep)) {
                        Ok(true) => rep.count("runs longer than a range check", 1),
                        Ok(false) => rep.count("skipped", 1),
                        Err(w) => rep.violation(w, x.show()),
                    }
                    continue;
                }
                if r.chance(1, 3) {
                    if let Some((w, p)) = one_compiled(&mut r, &dir, rep) { rep.violation(w, p) }
                    continue;
                }
                let x = raw(&mut r);
                let max_steps = *r.pick(&[1, 2, 3, 5, 8, 13, 40, 400]);
                match watched(&x.show(), || one_raw(&x, max_steps, 120, &mut r, rep)) {
                    Ok(true) => rep.eval(hash_str(&format!("{max_steps} {}", x.show()))),
                    Ok(false) => rep.count("skipped", 1),
                    Err(w) => rep.violation(format!("max_steps {max_steps}: {w}"), x.show()),
                }
            }
        });
    });
    rep.finish("exploration", "distinct runs whose every segment became a balanced prover input")
}
