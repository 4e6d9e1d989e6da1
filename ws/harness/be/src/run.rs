//! Compiling and running programs with the real compiler and VM.
use cairo_m_common::abi_codec::parse_cli_arg;
use cairo_m_common::{InputValue, Program};
use cairo_m_compiler::db::CompilerDatabase;
use cairo_m_compiler::{CompilerError, CompilerOptions};
use cairo_m_compiler_mir::pipeline::{OptimizationLevel, PipelineConfig};
use cairo_m_compiler_parser::SourceFile;
use cairo_m_compiler_semantic::db::project_validate_semantics;
use cairo_m_compiler_semantic::Crate;
use cairo_m_compiler_diagnostics::DiagnosticSeverity;
use cairo_m_runner::{run_cairo_program, RunnerError, RunnerOptions, RunnerOutput};
use hcore::report::catch;
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Fail {
    Front(Vec<String>),
    Back(String),
    Panic(String),
}
/// Compiles modules (entry first) the way `compile_project` does once the files are found.
pub fn compile(modules: &[(String, String)], optimize: bool) -> Result<Arc<Program>, Fail> {
    crate::guard::reset();
    catch(|| {
        let db = CompilerDatabase::new();
        if modules.len() == 1 {
            let o = if optimize { CompilerOptions::default() } else { CompilerOptions::no_opts() };
            return match cairo_m_compiler::compile_cairo(modules[0].1.clone(), format!("{}.cm", modules[0].0), o) {
                Ok(o) => Ok(o.program),
                Err(CompilerError::ParseErrors(d)) | Err(CompilerError::SemanticErrors(d)) => Err(Fail::Front(d.iter().map(|d| format!("{:?} {}", d.code, d.message)).collect())),
                Err(e) => Err(Fail::Back(e.to_string())),
            };
        }
        let m: HashMap<String, SourceFile> = modules.iter().map(|(n, t)| (n.clone(), SourceFile::new(&db, t.clone(), format!("{n}.cm")))).collect();
        let c = Crate::new(&db, m, modules[0].0.clone(), PathBuf::from("."), "c".into());
        let d = project_validate_semantics(&db, c);
        let errs: Vec<String> = d.iter().filter(|d| d.severity == DiagnosticSeverity::Error).map(|d| format!("{:?} {}", d.code, d.message)).collect();
        if !errs.is_empty() {
            return Err(Fail::Front(errs));
        }
        let optimization_level = if optimize { OptimizationLevel::default() } else { OptimizationLevel::None };
        cairo_m_compiler_codegen::db::compile_project_with_config(&db, c, PipelineConfig { optimization_level, debug: false }).map_err(|e| Fail::Back(e.to_string()))
    })
    .unwrap_or_else(|p| Err(Fail::Panic(p)))
}
pub fn run(p: &Program, f: &str, args: &[InputValue], max_steps: usize) -> Result<Result<RunnerOutput, RunnerError>, String> {
    crate::guard::reset();
    catch(|| run_cairo_program(p, f, args, RunnerOptions { max_steps }))
}
/// Development aid: programs on stdin separated by `%%`, modules by `%name`, runs by `! fn args`, `!!` dumps code.
pub fn try_stdin() -> i32 {
    let mut all = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut all).unwrap();
    for prog in all.split("%%\n") {
        let mut mods = vec![("main".to_string(), String::new())];
        let mut runs = vec![];
        let mut dump = false;
        for l in prog.lines() {
            if l.starts_with("!!") { dump = true }
            else if let Some(n) = l.strip_prefix('!') { runs.push(n.trim().to_string()) }
            else if let Some(n) = l.strip_prefix('%') { mods.push((n.trim().into(), String::new())) }
            else { let t = &mut mods.last_mut().unwrap().1; t.push_str(l); t.push('\n') }
        }
        println!("=== {}", prog.trim());
        for opt in [false, true] {
            match compile(&mods, opt) {
                Err(e) => println!("  opt={opt} {e:?}"),
                Ok(p) => {
                    if dump { for (i, d) in p.data.iter().enumerate() { println!("   {i} {d:?}") } println!("{:?}", p.entrypoints) }
                    for r in &runs {
                        let mut it = r.split_whitespace();
                        let f = it.next().unwrap();
                        let args: Vec<InputValue> = it.map(|a| parse_cli_arg(a).unwrap()).collect();
                        match run(&p, f, &args, 100000) {
                            Ok(Ok(o)) => println!("  opt={opt} {r} -> {:?} steps={} {:?}", o.return_values, o.vm.trace.len(), o.public_address_ranges),
                            Ok(Err(e)) => println!("  opt={opt} {r} -> ERR {e}"),
                            Err(e) => println!("  opt={opt} {r} -> PANIC {e}"),
                        }
                    }
                }
            }
        }
    }
    0
}
