//! What the compiler hands over: a well-formed program, the same every time, for every program it accepts.
use crate::isa::{self, Op};
use crate::prog::{stops, structs_of, text};
use crate::run::{compile, Fail};
use crate::vm::word;
use cairo_m_common::program::AbiType;
use cairo_m_common::{Program, ProgramData};
use hcore::ast::*;
use hcore::gen_sem::Structs;
use hcore::graft::graft;
use hcore::report::{catch, hash_str, parallel, watched, Report};
use hcore::semcase;
use std::collections::{BTreeMap, BTreeSet};

type Mods = Vec<(String, Module)>;
pub fn abi(t: &Ty, s: &Structs) -> AbiType {
    match t {
        Ty::Felt => AbiType::Felt,
        Ty::U32 => AbiType::U32,
        Ty::Bool => AbiType::Bool,
        Ty::Ptr(x) => AbiType::Pointer { element: Box::new(abi(x, s)), len: None },
        Ty::Tuple(v) => AbiType::Tuple(v.iter().map(|t| abi(t, s)).collect()),
        Ty::Named(n) => AbiType::Struct { name: n.clone(), fields: s.get(n).map(|f| f.iter().map(|(n, t)| (n.clone(), abi(t, s))).collect()).unwrap_or_default() },
        Ty::Array(x, n) => AbiType::FixedSizeArray { element: Box::new(abi(x, s)), size: *n as u32 },
    }
}
/// One decoded instruction: address, meaning, operands.
pub struct Ins {
    pub at: u32,
    pub op: Op,
    pub o: Vec<u32>,
    pub size: u32,
}
/// The instructions of a program, or what is wrong with its data.
pub fn decode(p: &Program) -> Result<(Vec<Ins>, u32), String> {
    let (mut code, mut at, mut values) = (vec![], 0u32, false);
    for (i, d) in p.data.iter().enumerate() {
        match d {
            ProgramData::Value(_) => {
                values = true;
                at += 1;
            }
            ProgramData::Instruction(x) => {
                if values { return Err(format!("data item {i} is an instruction after data words")) }
                let w: Vec<u32> = x.to_qm31_vec().iter().flat_map(word).collect();
                let (op, n) = isa::find(w[0]).ok_or_else(|| format!("data item {i} has opcode {}", w[0]))?;
                let size = isa::words(n);
                if w.len() as u32 != size * 4 { return Err(format!("data item {i} ({op:?}) takes {} words, not {size}", w.len() / 4)) }
                if let Some(x) = w.iter().find(|x| **x as u64 >= isa::P) { return Err(format!("data item {i} holds {x}, which is no field element")) }
                let o = w[1..=n].to_vec();
                let limbs: &[usize] = match op { Op::U32Imm(_) => &[1, 2], Op::U32Store => &[0, 1], _ => &[] };
                if let Some(k) = limbs.iter().find(|k| o[**k] > 0xffff) { return Err(format!("data item {i} ({op:?}) has the limb {}", o[*k])) }
                code.push(Ins { at, op, o, size });
                at += size;
            }
        }
    }
    Ok((code, at))
}
/// What is wrong with a compiled program as such.
pub fn malformed(p: &Program, rep: Option<&Report>) -> Option<String> {
    let (code, _) = match decode(p) { Ok(c) => c, Err(e) => return Some(e) };
    let starts: BTreeMap<u32, usize> = code.iter().enumerate().map(|(i, c)| (c.at, i)).collect();
    let end = code.last().map_or(0, |c| c.at + c.size);
    let mut entries: Vec<(u32, &String)> = p.entrypoints.iter().map(|(n, e)| (e.pc as u32, n)).collect();
    entries.sort();
    for w in entries.windows(2) {
        if w[0].0 == w[1].0 { return Some(format!("functions {} and {} both start at {}", w[0].1, w[1].1, w[0].0)) }
    }
    let begin: BTreeSet<u32> = entries.iter().map(|e| e.0).collect();
    for (k, (pc, name)) in entries.iter().enumerate() {
        if !starts.contains_key(pc) { return Some(format!("{name} starts at {pc}, where no instruction starts")) }
        let stop = entries.get(k + 1).map_or(end, |e| e.0);
        // every path from the entry stays in the function
        let (mut todo, mut seen) = (vec![*pc], BTreeSet::new());
        while let Some(a) = todo.pop() {
            if !seen.insert(a) { continue }
            if a < *pc || a >= stop { return Some(format!("{name} ({pc}..{stop}) runs on to {a}")) }
            let Some(&i) = starts.get(&a) else { return Some(format!("{name} goes to {a}, where no instruction starts")) };
            let c = &code[i];
            let rel = |o: u32| ((c.at as u64 + o as u64) % isa::P) as u32;
            match c.op {
                Op::Ret => {}
                Op::Jmp => todo.push(c.o[0]),
                Op::JmpRel => todo.push(rel(c.o[0])),
                Op::Jnz => todo.extend([rel(c.o[1]), c.at + c.size]),
                Op::Call => {
                    if !begin.contains(&c.o[1]) { return Some(format!("{name} calls {}, where no function starts", c.o[1])) }
                    todo.push(c.at + c.size);
                }
                _ => todo.push(c.at + c.size),
            }
        }
        if let Some(rep) = rep {
            rep.count("instructions on paths of functions", seen.len() as u64);
            rep.count("functions", 1);
        }
    }
    None
}
/// The entry points against the functions of the source.
fn interface(p: &Program, mods: &Mods) -> Option<String> {
    let structs: Structs = structs_of(&mods.iter().flat_map(|m| m.1.clone()).collect::<Vec<_>>());
    let fns: Vec<(&String, &FnDef)> = mods.iter().flat_map(|(m, items)| items.iter().filter_map(move |i| if let Item::Fn(f) = i { Some((m, f)) } else { None })).collect();
    if fns.len() != p.entrypoints.len() { return Some(format!("{} functions, but entry points {:?}", fns.len(), p.entrypoints.keys().collect::<BTreeSet<_>>())) }
    for (m, f) in &fns {
        if fns.iter().filter(|g| g.1.name == f.name).count() > 1 && *m != "main" { continue }
        let Some(e) = p.entrypoints.get(&f.name) else { return Some(format!("no entry point {}", f.name)) };
        let params: Vec<AbiType> = f.params.iter().map(|q| abi(&q.1, &structs)).collect();
        let returns: Vec<AbiType> = match &f.ret { None => vec![], Some(Ty::Tuple(v)) => v.iter().map(|t| abi(t, &structs)).collect(), Some(t) => vec![abi(t, &structs)] };
        let got: Vec<AbiType> = e.params.iter().map(|s| s.ty.clone()).collect();
        if got != params { return Some(format!("{} takes {params:?} in the source, {got:?} in its entry point", f.name)) }
        let got: Vec<AbiType> = e.returns.iter().map(|s| s.ty.clone()).collect();
        if got != returns { return Some(format!("{} returns {returns:?} in the source, {got:?} in its entry point", f.name)) }
    }
    None
}
fn texts(mods: &Mods) -> Vec<(String, String)> {
    let mut t: Vec<(String, String)> = mods.iter().map(|(n, m)| (n.clone(), text(m))).collect();
    let main = t.iter().position(|(n, _)| n == "main").unwrap_or(0);
    t.swap(0, main);
    t
}
#[derive(PartialEq)]
pub enum Seen { Fine, Refused, Bad(String) }
/// Compiles twice at each level and looks at what comes out.
fn look(mods: &Mods, grafted: bool, rep: Option<&Report>) -> Seen {
    let t = texts(mods);
    for opt in [true, false] {
        let p = match compile(&t, opt) {
            Ok(p) => p,
            Err(Fail::Front(_)) => return Seen::Refused,
            // an error known at compile time is refused
            Err(Fail::Back(e)) if grafted && stops(&e) => return Seen::Refused,
            Err(Fail::Back(e)) => return Seen::Bad(format!("accepted, but not compiled (optimize={opt}): {e}")),
            Err(Fail::Panic(e)) => return Seen::Bad(format!("the compiler panicked (optimize={opt}): {e}")),
        };
        if let Some(w) = malformed(&p, rep) { return Seen::Bad(format!("{w} (optimize={opt})")) }
        // a graft may rename or drop anything, so that the source is no longer known by name
        if !grafted {
            if let Some(w) = interface(&p, mods) { return Seen::Bad(w) }
        }
        match catch(|| serde_json::to_string(&*p).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str::<Program>(&s).map_err(|e| e.to_string()))) {
            Ok(Ok(q)) if q == *p => {}
            Ok(Ok(_)) => return Seen::Bad("the program differs after a round trip through JSON".into()),
            Ok(Err(e)) | Err(e) => return Seen::Bad(format!("the program does not survive JSON: {e}")),
        }
        let mut other = t.clone();
        other[1..].reverse();
        match compile(&other, opt) {
            Ok(q) if q.data == p.data && q.entrypoints == p.entrypoints => {}
            Ok(q) => {
                let i = q.data.iter().zip(&p.data).position(|(a, b)| a != b);
                return Seen::Bad(format!("compiling again gives other code (optimize={opt}), first at item {i:?}: {:?} and {:?}", i.map(|i| &p.data[i]), i.map(|i| &q.data[i])));
            }
            Err(e) => return Seen::Bad(format!("compiling again fails: {e:?}")),
        }
        if let Some(rep) = rep { rep.count("compiled", 2) }
    }
    Seen::Fine
}
pub fn output(rep: &Report) -> i32 {
    parallel(8, rep.ctx.seed, |_, mut r| {
        while !rep.stop() {
            let mut c = semcase::case(&mut r);
            if r.chance(1, 4) { semcase::odd_names(&mut c.mods, &mut r) }
            let grafted = r.chance(1, 2);
            let mods = if grafted {
                let n = r.range(1, 3);
                graft(&hcore_plain(&c.mods), n, &mut r)
            } else {
                c.mods.clone()
            };
            let shown = || semcase::print(&texts(&mods));
            let seen = watched(&shown(), || look(&mods, grafted, Some(rep)));
            match seen {
                Seen::Fine => {
                    rep.eval(hash_str(&shown()));
                    rep.count(if grafted { "edited programs compiled" } else { "generated programs compiled" }, 1);
                    rep.sample(shown);
                }
                Seen::Refused if grafted => rep.count("edited programs the front end refuses", 1),
                Seen::Refused => rep.count("generated programs the front end refuses", 1),
                Seen::Bad(w) => {
                    if mods.len() == 1 {
                        let kind: String = w.chars().take(24).collect();
                        let deadline = std::time::Instant::now() + std::time::Duration::from_secs(20);
                        let mut last = w.clone();
                        rep.violation_then(w, shown(), || {
                        let m = hcore::shrink::shrink(&mods[0].1, deadline, |m| match look(&vec![(mods[0].0.clone(), m.clone())], grafted, None) {
                            Seen::Bad(x) if x.starts_with(&kind) => { last = x; true }
                            _ => false,
                        });
                            Some((last, text(&m)))
                        });
                    } else {
                        rep.violation(w, shown());
                    }
                }
            }
        }
    });
    rep.finish("exploration", "distinct programs compiled at both levels, twice each, with well-formed and identical results")
}
fn hcore_plain(m: &Mods) -> Mods { m.iter().map(|(n, i)| (n.clone(), hcore::gen_sem::unhint(i))).collect() }
