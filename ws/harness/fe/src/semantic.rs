//! Semantic-analysis monitors over well-typed programs.
use crate::sem::make_crate;
use crate::syntax::THREADS;
use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSeverity};
use cairo_m_compiler_semantic::db::{module_semantic_index, project_parse_diagnostics, project_validate_semantics};
use cairo_m_compiler_semantic::type_resolution::expression_semantic_type;
use cairo_m_compiler_semantic::{Crate, TypeId, SemanticDatabaseImpl};
use chumsky::span::{SimpleSpan, Span};
use hcore::ast::*;
use hcore::refsem::DefKind;
use hcore::render::Node;
use hcore::report::{catch, hash_str, parallel, Report};
use hcore::rng::Rng;
use hcore::semcase::{self, Case, Shown};
use std::collections::BTreeSet;

pub fn show_diags(d: &[Diagnostic]) -> String {
    d.iter().map(|d| format!("{:?} {:?} {}:{}..{} {}\n", d.severity, d.code, d.file_path, d.span.start, d.span.end, d.message)).collect()
}
pub fn is_err(d: &Diagnostic) -> bool { d.severity == DiagnosticSeverity::Error }
pub struct Checked {
    pub db: SemanticDatabaseImpl,
    pub krate: Crate,
    pub diags: Vec<Diagnostic>,
}
pub fn check(texts: &[(String, String)]) -> Checked {
    let db = SemanticDatabaseImpl::default();
    let krate = make_crate(&db, texts);
    let mut diags: Vec<Diagnostic> = project_parse_diagnostics(&db, krate).iter().cloned().collect();
    if diags.is_empty() {
        diags = project_validate_semantics(&db, krate).iter().cloned().collect();
    }
    Checked { db, krate, diags }
}
/// Types as the compiler prints them (a one-element tuple has no comma there).
pub fn fmt_ty(t: &Ty) -> String {
    match t {
        Ty::Felt => "felt".into(),
        Ty::Bool => "bool".into(),
        Ty::U32 => "u32".into(),
        Ty::Named(s) => s.clone(),
        Ty::Ptr(x) => format!("{}*", fmt_ty(x)),
        Ty::Tuple(v) => format!("({})", v.iter().map(fmt_ty).collect::<Vec<_>>().join(", ")),
        Ty::Array(x, n) => format!("[{}; {n}]", fmt_ty(x)),
    }
}
/// Fewer items, statements and smaller expressions for which the same complaint holds and names still resolve.
fn shrink(c: &Case, r0: &Rng, bad: &dyn Fn(&Case, &Shown) -> bool) -> Case {
    let mut best = c.clone();
    let t = std::time::Instant::now();
    let mut progress = true;
    while progress && t.elapsed().as_secs() < 20 {
        progress = false;
        'm: for m in 0..best.mods.len() {
            for cand in hcore::shrink::candidates(&best.mods[m].1) {
                let mut n = best.clone();
                n.mods[m].1 = cand;
                n.style = hcore::render::Style::plain();
                // a candidate may mean nothing at all
                let fails = hcore::report::catch(|| {
                    let s = n.show(&mut r0.clone());
                    s.sem.problems.is_empty() && bad(&n, &s)
                });
                if fails.unwrap_or(false) {
                    best = n;
                    progress = true;
                    break 'm;
                }
                if t.elapsed().as_secs() >= 20 { break 'm }
            }
        }
    }
    best
}
/// Runs `judge` on generated programs until time is up; a returned complaint is shrunk and reported.
fn drive(rep: &Report, judge: &(dyn Fn(&Report, &Case, &Shown) -> Result<(), String> + Sync)) {
    parallel(THREADS, rep.ctx.seed, |_, mut r| {
        while !rep.stop() {
            let c = semcase::case(&mut r);
            let r0 = r.clone();
            let s = c.show(&mut r);
            if !s.sem.problems.is_empty() {
                rep.violation(format!("harness: reference analysis disagrees with the generator: {:?}", s.sem.problems), semcase::print(&s.texts));
                return;
            }
            let nodes: usize = s.rend.iter().map(|t| t.nodes.len()).sum();
            if nodes < 12 { rep.eval_trivial() } else { rep.eval(hash_str(&semcase::print(&s.texts))) }
            rep.count("modules", s.texts.len() as u64);
            rep.count("syntax nodes", nodes as u64);
            rep.sample(|| semcase::print(&s.texts));
            let run = |c: &Case, s: &Shown| hcore::report::watched(&semcase::print(&s.texts), || catch(|| judge(rep, c, s))).unwrap_or_else(|p| Err(format!("panic: {p}")));
            if let Err(why) = run(&c, &s) {
                let key: String = why.split(['`', ':']).next().unwrap_or("").to_string();
                let full = semcase::print(&s.texts);
                rep.violation_then(why.clone(), full.clone(), || {
                    let small = shrink(&c, &r0, &|c, s| run(c, s).err().is_some_and(|w| w.split(['`', ':']).next() == Some(&key)));
                    let ss = small.show(&mut r0.clone());
                    let (text, w2) = match run(&small, &ss) { Err(w) => (semcase::print(&ss.texts), w), Ok(()) => (full.clone(), why.clone()) };
                    Some((w2, format!("{text}\n==== as generated: {why}\n{full}")))
                });
            }
        }
    });
}
pub fn span(n: &Node) -> SimpleSpan { SimpleSpan::new((), n.start..n.end) }
// ---------------------------------------------------------------- P09
pub fn accepts(rep: &Report) -> i32 {
    drive(rep, &|rep, _, s| {
        let k = check(&s.texts);
        let errs: Vec<Diagnostic> = k.diags.iter().filter(|d| is_err(d)).cloned().collect();
        rep.count("warnings", (k.diags.len() - errs.len()) as u64);
        match errs.first() {
            Some(d) => Err(format!("a well-typed program is rejected, {:?}: {}\n{}", d.code, d.message, show_diags(&errs))),
            None => Ok(()),
        }
    });
    rep.finish("exploration", "distinct program text of at least 12 syntax nodes, judged well-typed by construction")
}
// ---------------------------------------------------------------- P10
pub fn types(rep: &Report) -> i32 {
    drive(rep, &|rep, _, s| {
        let k = check(&s.texts);
        if k.diags.iter().any(is_err) { rep.count("skipped: rejected", 1); return Ok(()); }
        for (m, (name, text)) in s.texts.iter().enumerate() {
            let index = module_semantic_index(&k.db, k.krate, name.clone()).map_err(|_| "no semantic index".to_string())?;
            let file = k.krate.modules(&k.db)[name];
            for f in s.sem.exprs.iter().filter(|f| f.module == m) {
                let Some(want) = &f.ty else { continue };
                if f.kind == "paren" { continue }
                if f.soft { rep.count("typed by context only", 1); continue }
                let n = &s.rend[m].nodes[f.node];
                let id = index.expression_id_by_span(span(n)).or_else(|| index.expression_id_by_span(SimpleSpan::new((), n.start..n.tol_end)));
                let Some(id) = id else { return Err(format!("no expression is recorded at `{}`", &text[n.start..n.end])) };
                let t = expression_semantic_type(&k.db, k.krate, file, id, None);
                let got = TypeId::format_type(&k.db, t);
                rep.count(f.kind, 1);
                if got != fmt_ty(want) {
                    return Err(format!("wrong type of a {} expression: `{}` has type {} but is given {got}", f.kind, &text[n.start..n.end], fmt_ty(want)));
                }
            }
        }
        Ok(())
    });
    rep.finish("exploration", "distinct program text of at least 12 syntax nodes; every expression's type was compared")
}
// ---------------------------------------------------------------- P11
pub fn names(rep: &Report) -> i32 {
    drive(rep, &|rep, _, s| {
        let k = check(&s.texts);
        if k.diags.iter().any(is_err) { rep.count("skipped: rejected", 1); return Ok(()); }
        for (m, (name, text)) in s.texts.iter().enumerate() {
            let index = module_semantic_index(&k.db, k.krate, name.clone()).map_err(|_| "no semantic index".to_string())?;
            let file = k.krate.modules(&k.db)[name];
            for u in s.sem.uses.iter().filter(|u| u.module == m) {
                let d = &s.sem.defs[u.def];
                let n = &s.rend[m].nodes[u.node];
                if d.kind == DefKind::Builtin { rep.count("builtin uses", 1); continue }
                let dn = &s.rend[d.module].nodes[d.node];
                if let Some(e) = u.expr {
                    let en = &s.rend[m].nodes[e];
                    let id = index.expression_id_by_span(span(en)).ok_or_else(|| format!("no expression is recorded at `{}`", &text[en.start..en.end]))?;
                    let got = index.definition_for_identifier_expr(id);
                    let ok = got.is_some_and(|(_, g)| (g.name_span.start, g.name_span.end) == (dn.start, dn.end));
                    rep.count("identifier uses", 1);
                    if s.sem.defs.iter().filter(|o| o.name == d.name && o.module == m).count() > 1 { rep.count("uses of a name with several definitions", 1) }
                    if !ok {
                        return Err(format!("a name refers to the wrong definition: `{}` at {} is defined at {} but resolved to {:?}", d.name, n.start, dn.start, got.map(|g| g.1.name_span.start)));
                    }
                    // and across modules
                    let scope = index.expression(id).map(|e| e.scope_id).unwrap();
                    let got = index.resolve_name_with_imports_at_position(&k.db, k.krate, file, &d.name, scope, span(n));
                    let t = d.target.map(|t| &s.sem.defs[t]).unwrap_or(d);
                    let tn = &s.rend[t.module].nodes[t.node];
                    let tfile = k.krate.modules(&k.db)[&s.texts[t.module].0];
                    if d.kind == DefKind::Use { rep.count("uses of imported names", 1) }
                    if !got.as_ref().is_some_and(|(_, g, f)| (g.name_span.start, g.name_span.end) == (tn.start, tn.end) && *f == tfile) {
                        return Err(format!("a name leads to the wrong definition across modules: `{}` at {}, got {:?}", d.name, n.start, got.map(|g| g.1.name_span.start)));
                    }
                } else {
                    rep.count("type name uses", 1);
                }
            }
        }
        Ok(())
    });
    rep.finish("exploration", "distinct program text of at least 12 syntax nodes; every identifier use was compared")
}
// ---------------------------------------------------------------- P12
pub fn warnings(rep: &Report) -> i32 {
    drive(rep, &|rep, _, s| {
        let k = check(&s.texts);
        if k.diags.iter().any(is_err) { rep.count("skipped: rejected", 1); return Ok(()); }
        type W = (&'static str, usize, usize, usize);
        let mut want: BTreeSet<W> = BTreeSet::new();
        for d in &s.sem.defs {
            if matches!(d.kind, DefKind::Fn | DefKind::Struct | DefKind::Builtin) || d.name.starts_with('_') || d.uses > 0 { continue }
            let n = &s.rend[d.module].nodes[d.node];
            want.insert(("unused", d.module, n.start, n.end));
        }
        for f in s.sem.stmts.iter().filter(|f| !f.reachable) {
            let n = &s.rend[f.module].nodes[f.node];
            want.insert(("unreachable", f.module, n.start, n.end));
        }
        let mut got: BTreeSet<W> = BTreeSet::new();
        for d in &k.diags {
            let m = s.texts.iter().position(|t| format!("{}.cm", t.0) == d.file_path).ok_or_else(|| format!("a warning names an unknown file: {}", d.file_path))?;
            let w = match d.code { DiagnosticCode::UnusedVariable => "unused", DiagnosticCode::UnreachableCode => "unreachable", _ => continue };
            if d.severity != DiagnosticSeverity::Warning { return Err(format!("not a warning: {w}")) }
            if !got.insert((w, m, d.span.start, d.span.end)) { return Err(format!("a warning is given twice: {w} at {}", d.span.start)) }
        }
        rep.count("unused warnings expected", want.iter().filter(|w| w.0 == "unused").count() as u64);
        rep.count("unreachable warnings expected", want.iter().filter(|w| w.0 == "unreachable").count() as u64);
        rep.count("programs without warnings", want.is_empty() as u64);
        let at = |w: &W| format!("{} {:?} `{}`", w.0, s.texts[w.1].0, s.texts[w.1].1.get(w.2..w.3).unwrap_or("?"));
        if let Some(w) = want.difference(&got).next() { return Err(format!("a warning is missing: {}", at(w))) }
        if let Some(w) = got.difference(&want).next() { return Err(format!("a warning is wrong: {}", at(w))) }
        Ok(())
    });
    rep.finish("exploration", "distinct program text of at least 12 syntax nodes; the exact set of warnings was compared")
}
// ---------------------------------------------------------------- P13
pub fn rejects(rep: &Report) -> i32 {
    use hcore::seed::{plant, KINDS};
    parallel(THREADS, rep.ctx.seed, |w, mut r| {
        let mut turn = w;
        while !rep.stop() {
            let c = semcase::case(&mut r);
            let sem = hcore::refsem::analyse(&c.mods);
            if !sem.problems.is_empty() {
                rep.violation(format!("harness: reference analysis disagrees with the generator: {:?}", sem.problems), String::new());
                return;
            }
            for _ in 0..12 {
                turn += 1;
                if rep.stop() { return }
                let kind = if turn % 3 == 0 { turn / 3 % 2 } else { turn % KINDS.len() };
                let Some(s) = plant(&c, &sem, kind, &mut r) else { continue };
                let rend: Vec<hcore::render::Rendered> = s.mods.iter().map(|(_, m)| hcore::render::render(&hcore::gen_sem::unhint(m), &c.style, &mut r)).collect();
                let texts: Vec<(String, String)> = s.mods.iter().zip(&rend).map(|((n, _), t)| (n.clone(), t.text.clone())).collect();
                rep.eval(hash_str(&semcase::print(&texts)));
                rep.count(&s.what, 1);
                rep.sample(|| format!("// {}\n{}", s.what, semcase::print(&texts)));
                let verdict = catch(|| {
                    let k = check(&texts);
                    let errs: Vec<&Diagnostic> = k.diags.iter().filter(|d| is_err(d)).collect();
                    let n = &rend[s.module].nodes[s.region];
                    let file = format!("{}.cm", texts[s.module].0);
                    let at = texts[s.module].1.get(n.start..n.end.min(n.start + 80)).unwrap_or("?");
                    let all = || show_diags(&errs.iter().map(|d| (*d).clone()).collect::<Vec<_>>());
                    if errs.is_empty() { return Err(format!("a mistake is not reported, {} at `{at}`", s.what)) }
                    let here = |d: &&&Diagnostic| d.file_path == file && d.span.start >= n.start && d.span.end <= n.end.max(n.tol_end);
                    if !errs.iter().filter(|d| here(d)).any(|d| s.codes.contains(&format!("{:?}", d.code).as_str())) {
                        return Err(format!("a mistake is reported elsewhere or as something else, {} at `{at}` ({}..{}), wanted {:?}\n{}", s.what, n.start, n.end, s.codes, all()));
                    }
                    if let Some(i) = s.local {
                        let items = hcore::seed::starts(&s.mods[s.module].1);
                        let it = &rend[s.module].nodes[items[i]];
                        if let Some(d) = errs.iter().find(|d| d.file_path != file || d.span.start < it.start || d.span.end > it.end) {
                            return Err(format!("a mistake causes an error outside its function, {} at `{at}`: {}\n{}", s.what, d.message, all()));
                        }
                    }
                    Ok(())
                });
                if let Err(why) = verdict.unwrap_or_else(|p| Err(format!("panic: {p} ({})", s.what))) {
                    rep.violation(why, semcase::print(&texts));
                }
            }
        }
    });
    rep.finish("exploration", "distinct program text with exactly one planted mistake")
}
