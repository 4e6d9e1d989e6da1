use cairo_m_common::{CairoMValue, InputValue, Program};
use cairo_m_compiler::{compile_project, db::CompilerDatabase, CompilerOptions};
use cairo_m_runner::{run_cairo_program, RunnerOptions};
#[allow(dead_code)]
fn compile(text: &str, options: CompilerOptions) -> Program {
    let d = tempfile::tempdir().unwrap();
    std::fs::create_dir(d.path().join("src")).unwrap();
    std::fs::write(d.path().join("cairom.toml"), "name = \"p\"\nversion = \"0.1.0\"\nentry_point = \"main.cm\"\n").unwrap();
    std::fs::write(d.path().join("src/main.cm"), text).unwrap();
    let p = cairo_m_project::discover_project(d.path()).unwrap().unwrap();
    match compile_project(&CompilerDatabase::new(), p, options) {
        Ok(o) => std::sync::Arc::unwrap_or_clone(o.program),
        Err(e) => panic!("{e:?}"),
    }
}
#[allow(dead_code)]
fn run(text: &str, args: &[InputValue]) -> Vec<CairoMValue> {
    let p = compile(text, CompilerOptions::default());
    run_cairo_program(&p, "main", args, RunnerOptions::default()).unwrap().return_values
}
fn main() {
    println!("{:?}", run("fn main(x: u32) -> u32 { return x + 1; }", &[InputValue::Number(3)]));
}
