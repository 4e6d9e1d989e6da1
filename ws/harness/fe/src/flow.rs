//! Control-flow verdicts compared with the paths through random skeletons.
use crate::semantic::{check, is_err, show_diags};
use crate::syntax::THREADS;
use cairo_m_compiler_diagnostics::DiagnosticCode as C;
use hcore::ast::*;
use hcore::flow::{facts, Gen, NORMAL};
use hcore::render::{render, Style};
use hcore::report::{catch, hash_str, parallel, Report};
use hcore::walk::{walk, Slot};
use std::collections::BTreeSet;

pub fn flow(rep: &Report) -> i32 {
    parallel(THREADS, rep.ctx.seed, |_, mut r| {
        while !rep.stop() {
            let mut m: Module = vec![];
            for i in 0..r.range(1, 4) {
                let unit = r.chance(1, 4);
                let depth = r.range(1, 6);
                let budget = r.range(3, 60);
                let (stray, loops) = (r.chance(1, 5), r.chance(3, 5));
                let lean = r.chance(3, 4);
                let body = Gen { r: &mut r, stray, unit, loops, budget }.seq(depth, false, lean);
                m.push(Item::Fn(FnDef {
                    name: format!("f{i}"),
                    params: vec![("c".into(), Ty::Bool), ("d".into(), Ty::Bool), ("x".into(), Ty::Felt)],
                    ret: if unit { None } else { Some(Ty::Felt) },
                    body,
                }));
            }
            let style = Style::random(&mut r);
            let mut st_nodes = vec![];
            walk(&mut m, &mut |n, s| if let Slot::St(_) = s { st_nodes.push(n) });
            let rend = render(&m, &style, &mut r);
            let texts = vec![("main".to_string(), rend.text.clone())];
            rep.eval(hash_str(&rend.text));
            rep.sample(|| rend.text.clone());
            let verdict = catch(|| {
                let k = check(&texts);
                let starts = hcore::seed::starts(&m);
                let span = |n: usize| (rend.nodes[n].start, rend.nodes[n].end);
                let set = |code: C| k.diags.iter().filter(|d| d.code == code).map(|d| (d.span.start, d.span.end)).collect::<BTreeSet<_>>();
                let (missing, stray_b, stray_c, unreach) = (set(C::MissingReturn), set(C::BreakOutsideLoop), set(C::ContinueOutsideLoop), set(C::UnreachableCode));
                if let Some(d) = k.diags.iter().find(|d| is_err(d) && !matches!(d.code, C::MissingReturn | C::BreakOutsideLoop | C::ContinueOutsideLoop)) {
                    return Err(format!("a well-formed body is rejected, {:?}: {}\n{}", d.code, d.message, show_diags(&k.diags)));
                }
                let mut base = 0;
                let (mut want_b, mut want_c) = (BTreeSet::new(), BTreeSet::new());
                for (i, it) in m.iter().enumerate() {
                    let Item::Fn(f) = it else { unreachable!() };
                    let q = facts(&f.body);
                    let name = span(starts[i] + 1);
                    let open = q.ends & NORMAL != 0;
                    let refused = missing.contains(&name);
                    rep.count(if open { "functions that can end without returning" } else { "functions that always return" }, 1);
                    if q.loops + q.whiles > 0 { rep.count("functions with loops", 1) }
                    rep.count(&format!("block depth {}", q.depth), 1);
                    if open && !refused { return Err(format!("a function can end without returning and is accepted: `{}`", f.name)) }
                    if !open && refused && q.loops == 0 && q.stray.is_empty() { return Err(format!("a function that always returns is refused: `{}`", f.name)) }
                    if !open && refused { rep.count("conservative refusals (infinite loops)", 1) }
                    // flat order of statements, as `walk` visits them
                    let mut flat = vec![];
                    for s in &f.body { each(s, &mut |s| flat.push(s.clone())) }
                    if flat.len() != q.dead.len() { return Err("harness: statement order".into()) }
                    for &j in &q.stray { if matches!(flat[j], St::Break) { want_b.insert(span(st_nodes[base + j])); } else { want_c.insert(span(st_nodes[base + j])); } }
                    for j in 0..flat.len() {
                        let at = span(st_nodes[base + j]);
                        let got = unreach.contains(&at);
                        if got && !q.dead[j] { return Err(format!("a reachable statement is called unreachable: `{}` in `{}`", &rend.text[at.0..at.1], f.name)) }
                        if !got && q.blatant[j] { return Err(format!("a statement after an exit is not called unreachable: `{}` in `{}`", &rend.text[at.0..at.1], f.name)) }
                        rep.count("statements judged", 1);
                        if q.dead[j] { rep.count("dead statements", 1) }
                    }
                    base += flat.len();
                }
                if base != st_nodes.len() { return Err("harness: statement count".into()) }
                rep.count("stray exits", (want_b.len() + want_c.len()) as u64);
                if want_b != stray_b { return Err(format!("break outside a loop: reported at {stray_b:?}, is at {want_b:?}")) }
                if want_c != stray_c { return Err(format!("continue outside a loop: reported at {stray_c:?}, is at {want_c:?}")) }
                Ok(())
            });
            if let Err(why) = verdict.unwrap_or_else(|p| Err(format!("panic: {p}"))) { rep.violation(why, rend.text.clone()) }
        }
    });
    rep.finish("exploration", "distinct program text of one to four functions, every function and statement judged")
}
fn each(s: &St, f: &mut dyn FnMut(&St)) {
    f(s);
    match s {
        St::Block(b) => for x in b { each(x, f) },
        St::If(_, t, e) => { each(t, f); if let Some(e) = e { each(e, f) } }
        St::Loop(b) | St::While(_, b) => each(b, f),
        St::For(i, _, st, b) => { each(i, f); each(st, f); each(b, f) }
        _ => {}
    }
}
