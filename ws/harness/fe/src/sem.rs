//! Semantic-analysis helpers.
use cairo_m_compiler_diagnostics::DiagnosticCollection;
use cairo_m_compiler_semantic::db::project_validate_semantics;
use cairo_m_compiler_semantic::{Crate, File, SemanticDatabaseImpl};
use std::collections::HashMap;
use std::path::PathBuf;

pub fn make_crate(db: &SemanticDatabaseImpl, modules: &[(String, String)]) -> Crate {
    let m: HashMap<String, File> = modules.iter().map(|(n, t)| (n.clone(), File::new(db, t.clone(), format!("{n}.cm")))).collect();
    Crate::new(db, m, modules[0].0.clone(), PathBuf::from("."), "c".into())
}
pub fn validate(modules: &[(String, String)]) -> DiagnosticCollection {
    let db = SemanticDatabaseImpl::default();
    let c = make_crate(&db, modules);
    project_validate_semantics(&db, c)
}
/// Development aid: `fe try` reads programs from stdin, separated by `%%`; modules within one by `%name`.
pub fn try_stdin() -> i32 {
    let mut all = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut all).unwrap();
    for prog in all.split("%%\n") {
        let mut mods = vec![("main".to_string(), String::new())];
        for l in prog.lines() {
            if let Some(n) = l.strip_prefix('%') { mods.push((n.trim().into(), String::new())) } else { let t = &mut mods.last_mut().unwrap().1; t.push_str(l); t.push('\n') }
        }
        println!("=== {}", prog.trim());
        match hcore::report::catch(|| validate(&mods)) {
            Ok(d) => for d in d.iter() { println!("  {:?} {:?} {} [{}]", d.severity, d.code, d.message, &mods.iter().find(|m| format!("{}.cm", m.0) == d.file_path).map(|m| m.1.get(d.span.start..d.span.end).unwrap_or("?")).unwrap_or("?")) },
            Err(e) => println!("  PANIC {e}"),
        }
    }
    0
}
