//! The command-line tools, run as the processes they are.
use crate::prog::{self, expect, input};
use crate::project::{self, Tree};
use crate::prog::STEP_LIMIT;
use crate::run;
use cairo_m_common::{CairoMValue, InputValue, Program};
use cairo_m_compiler::db::CompilerDatabase;
use cairo_m_compiler::{compile_project, CompilerError, CompilerOptions};
use cairo_m_project::{discover_project, ProjectManifest};
use cairo_m_runner::{run_cairo_program, RunnerOptions};
use hcore::ast::Module;
use hcore::interp::Stop;
use hcore::report::{catch, hash_str, parallel, watched, Report};
use hcore::rng::Rng;
use hcore::semcase;
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

type Fail = Result<(), String>;
fn ensure(ok: bool, what: impl FnOnce() -> String) -> Fail { if ok { Ok(()) } else { Err(what()) } }
pub fn tool(name: &str) -> PathBuf { std::env::current_exe().unwrap().parent().unwrap().join(name) }
struct Out {
    code: i32,
    out: String,
    err: String,
}
fn exec(name: &str, dir: &Path, args: &[String]) -> Result<Out, String> {
    exec_to(name, dir, args, Stdio::piped())
}
fn exec_to(name: &str, dir: &Path, args: &[String], out: Stdio) -> Result<Out, String> {
    let o = Command::new(tool(name)).args(args).current_dir(dir).stdin(Stdio::null()).stdout(out).output().map_err(|e| format!("{name} does not start: {e}"))?;
    if let Some(s) = o.status.signal() { return Err(format!("{name} {args:?} was ended by signal {s}")) }
    let out = Out { code: o.status.code().unwrap_or(-1), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() };
    ensure(out.code != 101, || format!("{name} {args:?} panicked: {}", out.err))?;
    Ok(out)
}
/// Every file and directory below `p`.
fn snapshot(p: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![p.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in fs::read_dir(&d).into_iter().flatten().flatten() {
            let q = e.path();
            let t = e.file_type().unwrap();
            if t.is_dir() { m.insert(q.clone(), None); todo.push(q) } else { m.insert(q.clone(), Some(fs::read(&q).unwrap_or_default())); }
        }
    }
    m
}
// ---- a new project ----
fn plain_name(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_') && c.all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-')
}
fn project_name(r: &mut Rng) -> String {
    if r.chance(2, 3) {
        let first = "abcxyzQ_";
        let rest = "abcz0189_-XY";
        let mut s = first.chars().nth(r.below(first.len())).unwrap().to_string();
        for _ in 0..r.below(12) { s.push(rest.chars().nth(r.below(rest.len())).unwrap()) }
        return s;
    }
    r.pick_s(&["cairo-m-template", "template", "name", "test", "std", "a b", "1st", "q\"uote", "back\\slash", "new\nline", "é", "{{name}}", "x]", "#c", "a.b", "..", ".", "...", "-x", "$HOME", "a'b", "", " ", "src", "λ-calc", "a=b", "fibonacci", "tab\t", "x\"\nentry_point = \"y.cm"])
}
fn fresh(top: &Path, r: &mut Rng, rep: &Report) -> Result<(), String> {
    let cwd = top.join("cwd");
    fs::create_dir_all(&cwd).unwrap();
    for i in 0..r.below(3) {
        match r.below(4) {
            0 => fs::create_dir_all(cwd.join(["old", "deep/old", "src"][i])).unwrap(),
            1 => fs::write(cwd.join(["afile", "old", "x"][i]), "mine").unwrap_or(()),
            2 => { let _ = std::os::unix::fs::symlink("nowhere", cwd.join(["link", "l2", "l3"][i])); }
            _ => fs::create_dir_all(top.join(["side", "side/in", "cwd/a"][i])).unwrap(),
        }
    }
    let last = if r.chance(1, 6) { r.pick_s(&["old", "afile", "link", "src", "a", "side"]) } else { project_name(r) };
    let name = match r.below(10) {
        0 => format!("../{last}"),
        1 => format!("./{last}"),
        2 => format!("a/b/{last}"),
        3 => format!("{last}/"),
        4 => format!("{last}/."),
        5 => format!("old/{last}"),
        6 => format!("{}/{last}", cwd.display()),
        7 => match r.below(3) { 0 => format!("{last}/.."), 1 => format!("afile/{last}"), _ => "old/..".into() },
        _ => last.clone(),
    };
    // never let the name lead out of the scratch directory
    if name.starts_with('/') && !name.starts_with(top.to_str().unwrap()) || name.contains("../..") { return Ok(()) }
    let before = snapshot(top);
    let o = exec("cargo-cairo-m", &cwd, &["init".into(), "--".into(), name.clone()])?;
    let after = snapshot(top);
    if o.code != 0 {
        ensure(before == after, || format!("init {name:?} fails ({}) and leaves {:?}", o.err.lines().next().unwrap_or(""), after.keys().filter(|k| !before.contains_key(*k)).collect::<Vec<_>>()))?;
        ensure(!o.err.trim().is_empty(), || format!("init {name:?} fails silently"))?;
        let p: PathBuf = cwd.join(&name).components().collect();
        let parent_ok = p.ancestors().skip(1).find(|a| a.symlink_metadata().is_ok()).is_some_and(|a| a.is_dir());
        let dots = Path::new(&name).components().any(|c| matches!(c, std::path::Component::ParentDir)) && !name.starts_with("../");
        ensure(!(plain_name(&last) && p.symlink_metadata().is_err() && parent_ok && !dots), || format!("init {name:?} is refused: {}", o.err))?;
        rep.count("names refused", 1);
        rep.eval(hash_str(&name));
        return Ok(());
    }
    let at = cwd.join(&name);
    let real = fs::canonicalize(&at).map_err(|e| format!("init {name:?} succeeds, but there is no {}: {e}", at.display()))?;
    // only the project and its parents are new, nothing else changed
    for (k, v) in &before { ensure(after.get(k) == Some(v), || format!("init {name:?} changed {}", k.display()))? }
    for k in after.keys().filter(|k| !before.contains_key(*k)) {
        ensure(k.starts_with(&real) || real.starts_with(k), || format!("init {name:?} made {} as well", k.display()))?;
    }
    ensure(!before.contains_key(&real) && real != cwd && real != top, || format!("init {name:?} wrote into the existing {}", real.display()))?;
    let files: Vec<String> = after.iter().filter(|(k, v)| k.starts_with(&real) && v.is_some()).map(|(k, _)| k.strip_prefix(&real).unwrap().display().to_string()).collect();
    let want = [".cargo/config.toml", ".gitignore", "Cargo.toml", "README.md", "cairom.toml", "rust-toolchain.toml", "src/fibonacci.cm", "src/lib.rs", "tests/integration_test.rs"];
    ensure(files.iter().map(|s| s.as_str()).collect::<Vec<_>>() == want, || format!("init {name:?} makes the files {files:?}"))?;
    let last = real.file_name().unwrap().to_string_lossy().to_string();
    let m = ProjectManifest::from_path(&real.join("cairom.toml")).map_err(|e| format!("init {name:?} makes a cairom.toml that is not read: {e}"))?;
    ensure(m.name == last && m.entry_point == "fibonacci.cm", || format!("init {name:?} makes the project {m:?}"))?;
    let readme = fs::read_to_string(real.join("README.md")).unwrap_or_default();
    ensure(readme.lines().next() == Some(&format!("# {last}")), || format!("the README of {name:?} starts {:?}", readme.lines().next()))?;
    // what needs no name is as in the template
    let templates = Path::new(env!("CARGO_MANIFEST_DIR")).join("../../crates/cargo-cairo-m/templates");
    for (t, f) in [("fibonacci.cm", "src/fibonacci.cm"), ("lib.rs", "src/lib.rs"), ("integration_test.rs", "tests/integration_test.rs"), ("gitignore", ".gitignore"), ("cargo-config.toml", ".cargo/config.toml"), ("rust-toolchain.toml", "rust-toolchain.toml")] {
        let Ok(t) = fs::read(templates.join(t)) else { continue };
        ensure(after[&real.join(f)].as_ref() == Some(&t), || format!("init {name:?} makes a {f} that is not the template's"))?;
    }
    // what cargo makes of it
    let c = Command::new("cargo").args(["read-manifest", "--offline", "--manifest-path"]).arg(real.join("Cargo.toml")).env("RUSTUP_TOOLCHAIN", "stable").current_dir(top).output().map_err(|e| e.to_string())?;
    let j: serde_json::Value = serde_json::from_slice(&c.stdout).unwrap_or_default();
    ensure(c.status.success() && j["name"] == serde_json::Value::String(last.clone()), || format!("init {name:?} makes a Cargo.toml that cargo reads as {} {}", j["name"], String::from_utf8_lossy(&c.stderr)))?;
    // it compiles and computes
    let p = discover_project(&at).ok().flatten().ok_or_else(|| format!("the project {name:?} is not found"))?;
    let opt = r.chance(1, 2);
    let o = catch(|| compile_project(&CompilerDatabase::new(), p, if opt { CompilerOptions::default() } else { CompilerOptions::no_opts() })).map_err(|e| format!("the project {name:?} panics: {e}"))?.map_err(|e| format!("the project {name:?} does not compile: {e}"))?;
    let n = r.below(60) as i64;
    let (mut a, mut b) = (0u64, 1u64);
    for _ in 0..n { (a, b) = (b, (a + b) % ((1 << 31) - 1)) }
    let got = run_cairo_program(&o.program, "fibonacci", &[InputValue::Number(n)], RunnerOptions::default()).map(|x| x.return_values).map_err(|e| e.to_string());
    ensure(matches!(&got, Ok(v) if matches!(&v[..], [CairoMValue::Felt(x)] if u64::from(x.0) == a)), || format!("the project {name:?} computes fibonacci({n}) = {got:?}"))?;
    rep.count("projects made", 1);
    rep.eval(hash_str(&name));
    Ok(())
}
pub fn init(rep: &Report) -> i32 {
    let dir = tempfile::tempdir().expect("scratch directory");
    let top = dir.path().canonicalize().unwrap();
    parallel(8, rep.ctx.seed, |k, mut r| {
        let mut n = 0u64;
        while !rep.stop() {
            n += 1;
            let base = top.join(format!("w{k}/{n}"));
            fs::create_dir_all(&base).unwrap();
            if let Err(w) = watched("init", || fresh(&base, &mut r, rep)) {
                let t = format!("{w}\n{:#?}", snapshot(&base).keys().collect::<Vec<_>>());
                rep.violation(w.replace(base.to_str().unwrap(), ""), t)
            }
            let _ = fs::remove_dir_all(&base);
        }
    });
    rep.finish("exploration", "distinct names given to init, each refused without a trace or turned into a complete project")
}
// ---- compile and run ----
fn program(t: &str) -> Result<Program, String> {
    let mut p: Program = serde_json::from_str(t).map_err(|e| e.to_string())?;
    p.metadata = Default::default();
    Ok(p)
}
fn plain(s: &str) -> String {
    // without colours
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() { if c == '\u{1b}' { for d in it.by_ref() { if d == 'm' { break } } } else { o.push(c) } }
    o
}
fn compiles(t: &Tree, cwd: &Path, r: &mut Rng, rep: &Report) -> Fail {
    let opt = r.chance(1, 2);
    let p = project::found(&t.root)?;
    crate::guard::reset();
    let want = match catch(|| compile_project(&CompilerDatabase::new(), p, if opt { CompilerOptions::default() } else { CompilerOptions::no_opts() })) {
        Ok(x) => x,
        Err(_) => { rep.count("skipped", 1); return Ok(()) }
    };
    let start = r.pick(&[t.root.clone(), t.root.join("src"), t.root.join("src").join(format!("{}.cm", t.entry)), t.root.join("cairom.toml")]).clone();
    let mut args: Vec<String> = vec![r.pick_s(&["-i", "--input"]), start.display().to_string()];
    if !opt { args.extend(if r.chance(1, 2) { vec!["--opt-level".into(), "0".into()] } else { vec!["--opt-level=0".into()] }) }
    else if r.chance(1, 2) { args.extend(["--opt-level".into(), "1".into()]) }
    if r.chance(1, 4) { args.push(r.pick_s(&["-v", "--verbose"])) }
    let target = cwd.join("out.json");
    let to_file = r.chance(1, 2);
    let old = r.chance(1, 3);
    if to_file {
        if old { fs::write(&target, "an older and longer program".repeat(10000)).unwrap() }
        args.extend([r.pick_s(&["-o", "--output"]), if r.chance(1, 2) { "out.json".into() } else { target.display().to_string() }]);
    }
    let before = snapshot(&t.root);
    let o = exec("cairo-m-compiler", cwd, &args)?;
    ensure(before == snapshot(&t.root), || format!("{args:?} changed the project"))?;
    match want {
        Ok(c) => {
            ensure(o.code == 0, || format!("{args:?} ends with {}: {}", o.code, o.err))?;
            let text = if to_file { fs::read_to_string(&target).map_err(|e| format!("{args:?} writes no file: {e}"))? } else { o.out.clone() };
            let mut w = (*c.program).clone();
            w.metadata = Default::default();
            let got = program(&text).map_err(|e| format!("{args:?} writes no program ({} warnings): {e}: {}", c.diagnostics.len(), text.chars().take(80).collect::<String>()))?;
            ensure(got == w, || format!("{args:?} writes another program than the compiler makes"))?;
            let shown = plain(&format!("{}{}", o.out, o.err));
            for d in &c.diagnostics {
                let l = d.message.lines().next().unwrap_or("");
                ensure(shown.contains(l), || format!("{args:?} does not show the warning {l}"))?;
            }
            rep.count(if to_file { "programs written to a file" } else { "programs written to the output" }, 1);
            if !c.diagnostics.is_empty() { rep.count("compiled with warnings", 1) }
        }
        Err(e) => {
            ensure(o.code == 1, || format!("{args:?} ends with {}, but the project does not compile: {e}", o.code))?;
            let shown = plain(&o.err);
            if let CompilerError::ParseErrors(d) | CompilerError::SemanticErrors(d) = &e {
                for d in d {
                    let l = d.message.lines().next().unwrap_or("");
                    ensure(shown.contains(l), || format!("{args:?} does not show the error {l}: {shown}"))?;
                }
            }
            ensure(!shown.trim().is_empty(), || format!("{args:?} fails silently"))?;
            ensure(program(&o.out).is_err(), || format!("{args:?} writes a program for a project that does not compile"))?;
            if to_file {
                let now = fs::read_to_string(&target).ok();
                ensure(now == old.then(|| "an older and longer program".repeat(10000)), || format!("{args:?} fails, but writes its output file"))?;
            }
            rep.count("projects refused", 1);
        }
    }
    let _ = fs::remove_file(&target);
    rep.eval(hash_str(&format!("{args:?} {:?}", t.files)));
    Ok(())
}
fn runs(items: &Module, text: &str, argss: &[Vec<hcore::interp::V>], structs: &hcore::gen_sem::Structs, cwd: &Path, r: &mut Rng, rep: &Report) -> Fail {
    let src = cwd.join("prog.cm");
    fs::write(&src, text).unwrap();
    let json = cwd.join(r.pick_s(&["prog.json", "a.b", "noext", "é.json"]));
    let o = exec("cairo-m-compiler", cwd, &["-i".into(), "prog.cm".into(), "-o".into(), json.display().to_string()])?;
    if o.code != 0 { rep.count("skipped", 1); return Ok(()) }
    let p: Program = serde_json::from_str(&fs::read_to_string(&json).unwrap()).map_err(|e| format!("the compiled program is not read: {e}"))?;
    for a in argss {
        if matches!(expect(items, structs, a).0, Err(Stop::Undefined(_)) | Err(Stop::Steps)) { rep.count("skipped", 1); continue }
        let mut ins: Vec<InputValue> = a.iter().map(input).collect();
        let mut entry = "main".to_string();
        let mut bad = "";
        match r.below(12) {
            0 => { entry = r.pick_s(&["nothing", "", "Main", "main ", "é"]); bad = "an unknown entry point" }
            1 => { ins.push(InputValue::Number(1)); bad = "an argument too many" }
            2 if !ins.is_empty() => { ins.pop(); bad = "an argument too few" }
            3 if !ins.is_empty() => { let k = r.below(ins.len()); ins[k] = InputValue::Struct(vec![InputValue::Bool(true); 9]); bad = "an argument of another type" }
            _ => {}
        }
        let Some(texts) = ins.iter().map(|v| crate::codec::cli(r, v)).collect::<Option<Vec<String>>>() else { continue };
        let mut args = vec![json.display().to_string(), r.pick_s(&["-e", "--entrypoint"]), entry.clone()];
        if !texts.is_empty() {
            args.push(r.pick_s(&["--arguments", "-a"]));
            args.extend(texts)
        }
        if r.chance(1, 4) { args.insert(1, r.pick_s(&["-v", "--verbose"])) }
        let want = run::run(&p, &entry, &ins, STEP_LIMIT);
        let o = exec("cairo-m-runner", cwd, &args);
        match want {
            Ok(Ok(w)) => {
                let o = o?;
                ensure(bad.is_empty(), || format!("{args:?} with {bad} is run"))?;
                ensure(o.code == 0, || format!("{args:?} ends with {}: {}", o.code, o.err))?;
                let line = format!("Run succeeded and returned: {:?}\n", w.return_values);
                ensure(o.out == line, || format!("{args:?} prints {:?}, the run returns {:?}", o.out, w.return_values))?;
                rep.count("runs", 1);
            }
            Ok(Err(e)) => {
                let o = o?;
                ensure(o.code == 1, || format!("{args:?} ends with {}, the run fails: {e}", o.code))?;
                let shown = e.to_string();
                // the order of the entry points it goes on to list is not fixed
                let shown = shown.split(". Available").next().unwrap();
                ensure(o.err.contains(shown), || format!("{args:?} does not show the error {e}: {}", o.err))?;
                ensure(!o.out.contains("succeeded"), || format!("{args:?} prints {:?}", o.out))?;
                rep.count(if bad.is_empty() { "runs that fail" } else { "calls refused" }, 1);
            }
            // left to the property that runs programs
            Err(_) => rep.count("skipped", 1),
        }
        rep.eval(hash_str(&format!("{args:?} {text}")));
    }
    // files that are no program
    let t = fs::read_to_string(&json).unwrap();
    let mut cut = t.len() * r.below(100) / 100;
    while !t.is_char_boundary(cut) { cut -= 1 }
    let what = match r.below(4) { 0 => { fs::write(&json, &t[..cut]).unwrap(); "a truncated program" } 1 => { fs::write(&json, [0xff, 0xfe, 0]).unwrap(); "bytes" } 2 => { fs::remove_file(&json).unwrap(); "no file" } _ => { fs::write(&json, r.pick_s(&["", "{}", "[]", "null", "{\"data\":[]}", text])).unwrap(); "another file" } };
    let o = exec("cairo-m-runner", cwd, &[json.display().to_string(), "-e".into(), "main".into()])?;
    ensure(o.code == 1 && !o.err.trim().is_empty() && !o.out.contains("succeeded"), || format!("running {what} ends with {} {} {}", o.code, o.out, o.err))?;
    rep.count("files refused", 1);
    Ok(())
}
fn misuse(cwd: &Path, r: &mut Rng, rep: &Report) -> Fail {
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    fs::write(cwd.join("ok.cm"), "fn main() -> felt { return 1; }\n").unwrap();
    let n = r.below(10);
    let full = n >= 8;
    if n == 9 { exec("cairo-m-compiler", cwd, &s(&["-i", "ok.cm", "-o", "ok.json"]))?; }
    let (t, a) = match n {
        // nothing more can be written to standard output
        8 => ("cairo-m-compiler", s(if r.chance(1, 2) { &["-i", "ok.cm"] } else { &["-i", "ok.cm", "-v"] })),
        9 => ("cairo-m-runner", s(&["ok.json", "-e", "main"])),
        0 => ("cairo-m-compiler", s(&["-i", "missing.cm"])),
        1 => ("cairo-m-compiler", s(&["-i", "ok.cm", "--opt-level", "2"])),
        2 => ("cairo-m-compiler", s(&["-i", "ok.cm", "-o", "no/such/dir.json"])),
        3 => ("cairo-m-compiler", s(&[])),
        4 => ("cairo-m-compiler", s(&["-i", "."])),
        5 => ("cairo-m-runner", s(&["ok.cm"])),
        6 => ("cairo-m-runner", s(&["ok.cm", "-e", "main", "-a", "(1"])),
        _ => ("cargo-cairo-m", s(&["init"])),
    };
    let before = snapshot(cwd);
    let o = if full { exec_to(t, cwd, &a, fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| e.to_string())?.into())? } else { exec(t, cwd, &a)? };
    ensure(o.code != 0 && !o.err.trim().is_empty(), || format!("{t} {a:?} ends with {}: {:?} {:?}", o.code, o.out, o.err))?;
    // a fitting invocation that does not succeed, not one the tool does not know
    ensure(o.code == 1 || !matches!(n, 0 | 2 | 4 | 8 | 9), || format!("{t} {a:?} ends with {}", o.code))?;
    ensure(before == snapshot(cwd), || format!("{t} {a:?} fails and leaves files"))?;
    rep.count("misuses refused", 1);
    Ok(())
}
pub fn tools(rep: &Report) -> i32 {
    let dir = tempfile::tempdir().expect("scratch directory");
    let top = dir.path().canonicalize().unwrap();
    parallel(8, rep.ctx.seed, |k, mut r| {
        let mut n = 0u64;
        while !rep.stop() {
            n += 1;
            let base = top.join(format!("w{k}/{n}"));
            let cwd = base.join("cwd");
            fs::create_dir_all(&cwd).unwrap();
            let (text, res) = match r.below(10) {
                0 => (String::new(), misuse(&cwd, &mut r, rep)),
                x if x < 5 => {
                    let t = project::plant(&mut r, &base.join("p"));
                    let text = semcase::print(&t.files.iter().map(|f| (f.0.clone(), f.2.clone())).collect::<Vec<_>>());
                    (text.clone(), watched(&text, || compiles(&t, &cwd, &mut r, rep)))
                }
                _ => {
                    let (p, a) = prog::random(&mut r);
                    let text = prog::text(&p.items);
                    (text.clone(), watched(&text, || runs(&p.items, &text, &a, &p.structs, &cwd, &mut r, rep)))
                }
            };
            match res {
                Err(w) => rep.violation(w.replace(base.to_str().unwrap(), ""), text),
                Ok(()) => rep.sample(|| text),
            }
            let _ = fs::remove_dir_all(&base);
        }
    });
    rep.finish("exploration", "distinct invocations of the tools whose exit code, output and files were those of the libraries")
}
