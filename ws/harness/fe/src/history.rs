//! Incremental analysis after edits compared with a fresh one; analysis of arbitrary parsable programs.
use crate::semantic::{show_diags, span};
use crate::syntax::THREADS;
use cairo_m_compiler_diagnostics::build_diagnostic_message;
use cairo_m_compiler_diagnostics::Diagnostic;
use cairo_m_compiler_semantic::db::{module_all_diagnostics, module_parse_diagnostics, module_semantic_index, project_parse_diagnostics, project_validate_semantics};
use cairo_m_compiler_semantic::delta_diagnostics::DeltaDiagnosticsTracker;
use cairo_m_compiler_semantic::type_resolution::expression_semantic_type;
use cairo_m_compiler_semantic::{Crate, File, SemanticDatabaseImpl, TypeId};
use hcore::graft::graft;
use hcore::mutate;
use hcore::render::{render, Style};
use hcore::report::{catch, hash_str, parallel, Report};
use hcore::rng::Rng;
use hcore::semcase;
use salsa::Setter;
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;

type Texts = Vec<(String, String)>;
fn make(db: &SemanticDatabaseImpl, t: &Texts) -> Crate {
    let m: HashMap<String, File> = t.iter().map(|(n, t)| (n.clone(), File::new(db, t.clone(), format!("{n}.cm")))).collect();
    Crate::new(db, m, "main".into(), PathBuf::from("."), "c".into())
}
/// Everything the analysis says about a program, as text. `exprs`: with the type and target of every expression.
pub fn answers(db: &SemanticDatabaseImpl, k: Crate, texts: &Texts, exprs: bool) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let list = |d: &[Diagnostic]| show_diags(d);
    let parse = project_parse_diagnostics(db, k);
    out.insert("project parse diagnostics".into(), list(parse.all()));
    out.insert("project diagnostics".into(), list(project_validate_semantics(db, k).all()));
    let cyclic = texts.iter().any(|(n, _)| module_all_diagnostics(db, k, n.clone()).all().iter().any(|d| d.message.starts_with("Cyclic import")));
    for (n, text) in texts {
        out.insert(format!("parse diagnostics of {n}"), list(module_parse_diagnostics(db, k, n.clone()).all()));
        out.insert(format!("diagnostics of {n}"), list(module_all_diagnostics(db, k, n.clone()).all()));
        if !exprs || cyclic || !module_parse_diagnostics(db, k, n.clone()).is_empty() { continue }
        match module_semantic_index(db, k, n.clone()) {
            Err(d) => { out.insert(format!("index of {n}"), show_diags(&[d])); }
            Ok(index) => {
                let file = k.modules(db)[n];
                let mut s = String::new();
                for (id, e) in index.all_expressions() {
                    let t = expression_semantic_type(db, k, file, id, None);
                    let d = index.definition_for_identifier_expr(id).map(|d| d.1.name_span.start);
                    s += &format!("{}..{} {} {d:?}\n", e.ast_span.start, e.ast_span.end, TypeId::format_type(db, t));
                }
                for (_, d) in index.all_definitions() { s += &format!("def {} {}\n", d.name, d.name_span.start) }
                out.insert(format!("index of {n}"), s);
                let _ = text;
            }
        }
    }
    out
}
fn differ(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Option<String> {
    for (k, v) in b {
        let u = a.get(k).map(String::as_str).unwrap_or("<none>");
        if u != v {
            let sort = |s: &str| { let mut l: Vec<String> = s.lines().map(String::from).collect(); l.sort(); l };
            return Some(format!("{k}{}:\n-- got\n{u}-- fresh\n{v}", if sort(u) == sort(v) { " (order)" } else { "" }));
        }
    }
    None
}
fn text_of(m: &hcore::ast::Module, st: &Style, r: &mut Rng) -> String { render(m, st, r).text }
/// One random edit of the project, in words.
fn edit(cur: &mut Texts, past: &[Texts], pool: &[(String, hcore::ast::Module)], r: &mut Rng) -> String {
    let i = r.below(cur.len());
    let n = cur[i].0.clone();
    match r.below(10) {
        0 | 1 => { let k = r.range(1, 2); cur[i].1 = mutate::token_edits(&cur[i].1, k, r); format!("token edit in {n}") }
        2 => { cur[i].1 = format!("{}{}", ["// note\n", "\n\n  ", "// é\n"][r.below(3)], cur[i].1); format!("text before {n}") }
        3 => { cur[i].1 += ["\n", "// end", "fn late() -> felt { return 1; }\n"][r.below(3)]; format!("text after {n}") }
        4 | 5 => {
            let g = graft(pool, r.range(0, 3), r);
            let m = &g[r.below(g.len())];
            let st = Style::random(r);
            cur[i].1 = text_of(&m.1, &st, r);
            format!("{n} rewritten from {}", m.0)
        }
        6 if !past.is_empty() => {
            let p = r.pick(past);
            if let Some(t) = p.iter().find(|t| t.0 == n) { cur[i].1 = t.1.clone() }
            format!("{n} as before")
        }
        7 if !past.is_empty() => { *cur = r.pick(past).clone(); "everything as before".into() }
        8 if cur.len() > 1 => { cur.remove(i); format!("{n} removed") }
        8 | 9 => {
            let name = format!("extra{}", r.below(3));
            let g = graft(pool, 1, r);
            let st = Style::random(r);
            let t = text_of(&g[r.below(g.len())].1, &st, r);
            match cur.iter_mut().find(|c| c.0 == name) { Some(c) => c.1 = t, None => cur.push((name.clone(), t)) }
            format!("{name} added")
        }
        _ => { cur[i].1.push('\n'); "a line break".into() }
    }
}
// ---------------------------------------------------------------- P15
pub fn history(rep: &Report) -> i32 {
    parallel(THREADS, rep.ctx.seed ^ 15, |_, mut r| {
        while !rep.stop() {
            let c = semcase::case(&mut r);
            let s = c.show(&mut r);
            let pool: Vec<_> = c.mods.iter().map(|(n, m)| (n.clone(), hcore::gen_sem::unhint(m))).collect();
            let mut cur: Texts = s.texts.clone();
            let mut past: Vec<Texts> = vec![];
            let mut log = String::new();
            let verdict = catch(|| {
                let mut db = SemanticDatabaseImpl::default();
                let k = make(&db, &cur);
                let mut tracker = DeltaDiagnosticsTracker::new();
                let steps = r.range(3, 14);
                for step in 0..=steps {
                    if step > 0 {
                        past.push(cur.clone());
                        let n = *r.pick(&[1, 1, 1, 2, 3]);
                        for _ in 0..n {
                            let before = cur.clone();
                            let what = edit(&mut cur, &past, &pool, &mut r);
                            rep.count("edits", 1);
                            log += &format!("step {step}: {what}\n");
                            // bring the database along
                            let same = before.len() == cur.len() && before.iter().zip(&cur).all(|(a, b)| a.0 == b.0);
                            let files = k.modules(&db).clone();
                            for (n, t) in &cur {
                                if let Some(f) = files.get(n) { if *f.text(&db) != *t { f.set_text(&mut db).to(t.clone()); } }
                            }
                            if !same {
                                let m: HashMap<String, File> = cur.iter().map(|(n, t)| (n.clone(), files.get(n).copied().unwrap_or_else(|| File::new(&db, t.clone(), format!("{n}.cm"))))).collect();
                                k.set_modules(&mut db).to(m);
                                rep.count("module sets changed", 1);
                            }
                        }
                    }
                    let fresh_db = SemanticDatabaseImpl::default();
                    let fk = make(&fresh_db, &cur);
                    rep.eval(hash_str(&format!("{log}{}", semcase::print(&cur))));
                    // some states are passed by without looking
                    if r.chance(1, 5) && step < steps { rep.count("states not looked at", 1); continue }
                    let exprs = r.chance(1, 2);
                    if r.chance(1, 2) {
                        let got = answers(&db, k, &cur, exprs);
                        let want = answers(&fresh_db, fk, &cur, exprs);
                        rep.count("states compared", 1);
                        rep.count(if want["project diagnostics"].contains("Error ") { "states with errors" } else { "states without errors" }, 1);
                        if !want["project parse diagnostics"].is_empty() { rep.count("states with syntax errors", 1) }
                        if let Some(d) = differ(&got, &want) { return Err(format!("stale answer after edits: {d}")) }
                    }
                    if r.chance(2, 3) {
                        let mut want: Vec<String> = cur.iter().flat_map(|(n, _)| module_all_diagnostics(&fresh_db, fk, n.clone()).all().iter().map(|d| show_diags(std::slice::from_ref(d))).collect::<Vec<_>>()).collect();
                        want.sort();
                        for again in 0..2 {
                            let mut got: Vec<String> = tracker.get_project_diagnostics(&db, k).all().iter().map(|d| show_diags(std::slice::from_ref(d))).collect();
                            got.sort();
                            rep.count("tracker answers compared", 1);
                            if got != want { return Err(format!("the tracker's diagnostics are not those of the project (call {again}):\n-- got\n{}-- fresh\n{}", got.concat(), want.concat())) }
                        }
                    }
                }
                Ok(())
            });
            let verdict = match verdict { Ok(v) => v, Err(p) => Err(format!("panic: {p}")) };
            if let Err(why) = verdict {
                rep.violation(why, format!("{log}\n==== start\n{}\n==== states\n{}\n==== last\n{}", semcase::print(&s.texts), past.iter().map(semcase_print).collect::<Vec<_>>().join("\n=> \n"), semcase::print(&cur)));
            }
            rep.sample(|| log.clone());
        }
    });
    rep.finish("exploration", "distinct state of a project after a history of edits")
}
fn semcase_print(t: &Texts) -> String { semcase::print(t) }
// ---------------------------------------------------------------- P16
pub fn total(rep: &Report) -> i32 {
    parallel(THREADS, rep.ctx.seed ^ 16, |_, mut r| {
        while !rep.stop() {
            let c = semcase::case(&mut r);
            let st = Style::random(&mut r);
            let mods = match r.below(10) {
                0 => {
                    let n = r.range(1, 6);
                    vec![("main".to_string(), hcore::gen_syn::Gen::new(&mut r, 4, 120).module(n))]
                }
                _ => { let n = *r.pick(&[1, 2, 4, 8, 16, 30]); graft(&c.mods, n, &mut r) }
            };
            let texts: Texts = mods.iter().map(|(n, m)| (n.clone(), text_of(m, &st, &mut r))).collect();
            rep.eval(hash_str(&semcase::print(&texts)));
            rep.sample(|| semcase::print(&texts));
            let verdict = hcore::report::watched(&semcase::print(&texts), || catch(|| {
                let db = SemanticDatabaseImpl::default();
                let k = make(&db, &texts);
                let a = answers(&db, k, &texts, true);
                let all = project_validate_semantics(&db, k);
                for d in all.all() {
                    rep.count(&format!("{:?}", d.code), 1);
                    let Some(t) = texts.iter().find(|t| format!("{}.cm", t.0) == d.file_path) else {
                        if d.file_path.is_empty() && d.message.starts_with("Cyclic import") { continue }
                        return Err(format!("a diagnostic names an unknown file: {d:?}"));
                    };
                    let (s, e) = (d.span.start, d.span.end);
                    if s > e || e > t.1.len() || !t.1.is_char_boundary(s) || !t.1.is_char_boundary(e) { return Err(format!("a diagnostic lies outside the text: {d:?}")) }
                    if build_diagnostic_message(&t.1, d, false).trim().is_empty() { return Err(format!("a diagnostic renders to nothing: {d:?}")) }
                    for (rs, _) in &d.related_spans { let _ = rs; }
                }
                // another database, modules inserted in another order, questions asked in another order
                let db2 = SemanticDatabaseImpl::default();
                let mut rev = texts.clone();
                r.shuffle(&mut rev);
                let k2 = make(&db2, &rev);
                for (n, _) in &rev { if r.chance(1, 2) { let _ = module_all_diagnostics(&db2, k2, n.clone()); } }
                let b = answers(&db2, k2, &rev, true);
                rep.count("analyses compared", 1);
                if let Some(d) = differ(&a, &b) { return Err(format!("two analyses of one program differ: {d}")) }
                Ok(())
            }));
            let verdict = match verdict { Ok(v) => v, Err(p) => Err(format!("panic: {p}")) };
            if let Err(why) = verdict { rep.violation(why, semcase::print(&texts)) }
        }
    });
    let _ = span;
    rep.finish("exploration", "distinct parsable program, analysed twice")
}
