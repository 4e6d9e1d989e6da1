//! Projects on disk: found, read and compiled as the files they are.
use crate::prog;
use cairo_m_common::Program;
use cairo_m_compiler::db::CompilerDatabase;
use cairo_m_compiler::{compile_project, format_diagnostics_multi_file, CompilerError, CompilerOptions};
use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticSeverity};
use cairo_m_compiler_mir::pipeline::PipelineConfig;
use cairo_m_compiler_parser::SourceFile;
use cairo_m_compiler_semantic::db::{crate_from_project, project_validate_semantics};
use cairo_m_compiler_semantic::Crate;
use cairo_m_project::{discover_project, discover_workspace, Project};
use hcore::ast::{Item, Module};
use hcore::gen_sem::{Cfg, Gen};
use hcore::report::{catch, hash_str, parallel, watched, Report};
use hcore::rng::Rng;
use hcore::{mutate, semcase};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::path::{Path, PathBuf};

type Fail = Result<(), String>;
fn ensure(ok: bool, what: impl FnOnce() -> String) -> Fail { if ok { Ok(()) } else { Err(what()) } }
type Diag = (String, String, (usize, usize), String);
fn diag(d: &Diagnostic, place: impl Fn(&str) -> String) -> Diag { (place(&d.file_path), format!("{:?} {:?}", d.severity, d.code), (d.span.start, d.span.end), d.message.clone()) }
#[derive(PartialEq, Debug)]
enum Outcome {
    Compiled(Program, Vec<Diag>),
    Refused(Vec<Diag>),
    Failed(String),
}
fn outcome(o: Result<cairo_m_compiler::CompilerOutput, CompilerError>, place: &dyn Fn(&str) -> String) -> Outcome {
    let sorted = |d: Vec<Diagnostic>| { let mut v: Vec<Diag> = d.iter().map(|d| diag(d, place)).collect(); v.sort(); v };
    match o {
        Ok(o) => {
            let mut p = (*o.program).clone();
            // the time of day is in there
            p.metadata = Default::default();
            Outcome::Compiled(p, sorted(o.diagnostics))
        }
        Err(CompilerError::ParseErrors(d) | CompilerError::SemanticErrors(d)) => Outcome::Refused(sorted(d)),
        Err(e) => Outcome::Failed(e.to_string()),
    }
}
/// The same modules, handed over in memory.
fn in_memory(mods: &[(String, String)], entry: &str, name: &str, optimize: bool) -> Outcome {
    let db = CompilerDatabase::new();
    let m: HashMap<String, SourceFile> = mods.iter().map(|(n, t)| (n.clone(), SourceFile::new(&db, t.clone(), n.clone()))).collect();
    let c = Crate::new(&db, m, entry.into(), PathBuf::from("."), name.into());
    let (e, w): (Vec<_>, Vec<_>) = project_validate_semantics(&db, c).into_iter().partition(|d| d.severity == DiagnosticSeverity::Error);
    let o = options(optimize);
    outcome(
        if e.is_empty() {
            cairo_m_compiler_codegen::db::compile_project_with_config(&db, c, PipelineConfig { optimization_level: o.optimization_level, debug: false })
                .map(|program| cairo_m_compiler::CompilerOutput { program, diagnostics: w })
                .map_err(|e| CompilerError::CodeGenerationFailed(e.to_string()))
        } else {
            Err(CompilerError::SemanticErrors(e))
        },
        &|f| f.to_string(),
    )
}
fn options(optimize: bool) -> CompilerOptions { if optimize { CompilerOptions::default() } else { CompilerOptions::no_opts() } }
pub struct Tree {
    pub root: PathBuf,
    pub entry: String,
    name: String,
    /// Module name, path under src, text.
    pub files: Vec<(String, PathBuf, String)>,
}
fn word(r: &mut Rng) -> String { r.pick_s(&["net", "util", "a", "inner", "x1", "sub_dir", "core", "tests", "z"]) }
fn write(p: &Path, t: impl AsRef<[u8]>) { fs::create_dir_all(p.parent().unwrap()).unwrap(); fs::write(p, t).unwrap() }
fn modules(r: &mut Rng) -> Vec<(String, String)> {
    let cfg = Cfg::random(r);
    let g = Gen::new(r, cfg).program();
    let mut c = semcase::dress(g.items.clone(), r);
    let entry = r.pick_s(&["main", "main", "lib", "app", "fibonacci", "src_main", "srcs", "src", "cairom"]);
    let names: Vec<(String, String)> = c.mods.iter().enumerate().map(|(i, (n, _))| {
        let new = if n == "main" { entry.clone() } else {
            let mut p: Vec<String> = (0..r.below(3)).map(|_| word(r)).collect();
            p.push(if r.chance(1, 6) { "main".into() } else { format!("{n}{i}") });
            if p.len() == 1 { p[0] = format!("{n}{i}") }
            p.join("::")
        };
        (n.clone(), new)
    }).collect();
    let new = |n: &str| names.iter().find(|x| x.0 == n).map_or(n.to_string(), |x| x.1.clone());
    for (n, m) in c.mods.iter_mut() {
        *n = new(n);
        for i in m.iter_mut() { if let Item::Use(p, _) = i { *p = new(&p.join("::")).split("::").map(String::from).collect() } }
    }
    let mut t: Vec<(String, String)> = c.mods.iter().map(|(n, m): &(String, Module)| (n.clone(), prog::text(m))).collect();
    let at = t.iter().position(|m| m.0 == entry).unwrap();
    t.swap(0, at);
    let distinct: BTreeSet<&String> = t.iter().map(|m| &m.0).collect();
    if distinct.len() != t.len() { return vec![t[0].clone()] }
    // some with mistakes
    if r.chance(1, 3) {
        let k = r.below(t.len());
        let n = r.range(1, 3);
        let s = t[k].1.clone();
        t[k].1 = if r.chance(1, 2) { mutate::token_edits(&s, n, r) } else { mutate::char_edits(&s, n, r) };
    }
    t
}
pub fn plant(r: &mut Rng, base: &Path) -> Tree {
    let mods = modules(r);
    let mut root = base.to_path_buf();
    for _ in 0..r.below(3) { root = root.join(r.pick_s(&["work", "p", "src", "my project", "é", "a.cm", "x.y"])) }
    root = root.join(r.pick_s(&["proj", "p2", "λ", "with space", "src", "q.cm"]));
    let entry = mods[0].0.clone();
    let name = r.pick_s(&["test_project", "p", "with space", "é", "a-b", "src"]);
    let file = format!("{entry}.cm");
    let entry_point = match r.below(4) { 0 => format!("src/{file}"), 1 => root.join("src").join(&file).display().to_string(), _ => file };
    let mut manifest = format!("name = \"{name}\"\n");
    if r.chance(1, 2) { manifest += "version = \"1.2.3\"\n" }
    manifest += &format!("entry_point = \"{entry_point}\"\n");
    if r.chance(1, 4) { manifest = format!("# a comment\n\n{manifest}") }
    write(&root.join("cairom.toml"), manifest);
    let files: Vec<(String, PathBuf, String)> = mods.iter().map(|(n, t)| (n.clone(), PathBuf::from(format!("{}.cm", n.replace("::", "/"))), t.clone())).collect();
    for f in &files { write(&root.join("src").join(&f.1), &f.2) }
    // what is no source file
    for _ in 0..r.below(5) {
        let d = if r.chance(1, 2) { root.join("src") } else { root.join("src").join(word(r)) };
        match r.below(6) {
            0 => write(&d.join("notes.txt"), "fn broken("),
            1 => write(&d.join("x.cm.bak"), "fn broken("),
            2 => write(&d.join("cm"), "fn broken("),
            3 => fs::create_dir_all(d.join("empty")).unwrap(),
            4 => fs::create_dir_all(d.join("dir.cm")).unwrap(),
            _ => write(&root.join(r.pick_s(&["tests/t.cm", "other.cm", "srcs/y.cm", "README.md"])), "fn broken("),
        }
    }
    Tree { root, entry, name, files }
}
pub fn found(p: &Path) -> Result<Project, String> {
    match catch(|| discover_project(p)) {
        Ok(Ok(Some(q))) => Ok(q),
        Ok(Ok(None)) => Err("no project is found".into()),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(e) => Err(format!("panic: {e}")),
    }
}
fn starts(t: &Tree, r: &mut Rng) -> Vec<PathBuf> {
    let src = t.root.join("src");
    let mut v = vec![t.root.clone(), src.clone(), t.root.join("cairom.toml")];
    for f in &t.files {
        v.push(src.join(&f.1));
        v.push(src.join(&f.1).parent().unwrap().to_path_buf());
    }
    r.shuffle(&mut v);
    v.truncate(3);
    v
}
fn project(t: &Tree, r: &mut Rng, rep: &Report) -> Fail {
    let src = t.root.join("src");
    let entry_file = src.join(format!("{}.cm", t.entry));
    let mut last = None;
    for s in starts(t, r) {
        let p = found(&s).map_err(|e| format!("from {}: {e}", s.display()))?;
        ensure(p.name == t.name && p.config.name == t.name, || format!("from {}: the project is called {}, the manifest says {}", s.display(), p.name, t.name))?;
        ensure(p.root_directory == entry_file, || format!("from {}: the entry file is {}, not {}", s.display(), p.root_directory.display(), entry_file.display()))?;
        last = Some(p);
    }
    let p = last.unwrap();
    ensure(p.source_directory() == src, || format!("the source directory is {}", p.source_directory().display()))?;
    let listed: Vec<PathBuf> = catch(|| p.source_files()).map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("the sources are not listed: {e}"))?;
    let got: BTreeSet<PathBuf> = listed.iter().cloned().collect();
    let want: BTreeSet<PathBuf> = t.files.iter().map(|f| src.join(&f.1)).collect();
    ensure(got == want && listed.len() == got.len(), || format!("the source files are {listed:?}, under src lie {want:?}"))?;
    for f in &t.files {
        let n = p.module_name_from_path(&src.join(&f.1));
        ensure(n.as_ref() == Ok(&f.0), || format!("{} is called {n:?}, not {}", f.1.display(), f.0))?;
        ensure(p.contains_path(&src.join(&f.1)), || format!("the project does not contain its file {}", f.1.display()))?;
    }
    for o in [t.root.join("cairom.toml"), t.root.join("srcs/y.cm"), t.root.join("other.cm"), PathBuf::from("/nowhere/x.cm")] {
        ensure(p.module_name_from_path(&o).is_err(), || format!("{} outside the sources has a module name", o.display()))?;
        ensure(!p.contains_path(&o), || format!("the project contains {}", o.display()))?;
    }
    // as a crate
    let db = CompilerDatabase::new();
    let c = catch(|| crate_from_project(&db, p.clone())).map_err(|e| format!("panic: {e}"))?.map_err(|d| format!("the files are not read: {:?}", d.all().iter().map(|d| d.message.clone()).collect::<Vec<_>>()))?;
    let got: BTreeMap<String, (String, String)> = c.modules(&db).iter().map(|(n, f)| (n.clone(), (f.text(&db).to_string(), f.file_path(&db).to_string()))).collect();
    let want: BTreeMap<String, (String, String)> = t.files.iter().map(|f| (f.0.clone(), (f.2.clone(), src.join(&f.1).display().to_string()))).collect();
    ensure(got == want, || format!("the crate has modules {:?}, the files make {:?}", got.keys(), want.keys()))?;
    ensure(c.entry_point(&db) == t.entry && c.name(&db).as_str() == t.name, || format!("the crate {} starts at {}", c.name(&db), c.entry_point(&db)))?;
    // compiled
    let optimize = r.chance(1, 2);
    let mods: Vec<(String, String)> = t.files.iter().map(|f| (f.0.clone(), f.2.clone())).collect();
    crate::guard::reset();
    let Ok(want) = catch(|| in_memory(&mods, &t.entry, &t.name, optimize)) else { rep.count("skipped", 1); return Ok(()) };
    crate::guard::reset();
    let raw = catch(|| compile_project(&CompilerDatabase::new(), p.clone(), options(optimize))).map_err(|e| format!("panic: {e}"))?;
    if let Err(CompilerError::ParseErrors(d) | CompilerError::SemanticErrors(d)) = &raw {
        let map: HashMap<String, String> = t.files.iter().map(|f| (src.join(&f.1).display().to_string(), f.2.clone())).collect();
        let shown = catch(|| format_diagnostics_multi_file(&map, d, false)).map_err(|e| format!("panic: {e}"))?;
        for x in d {
            // an import cycle belongs to no file
            if x.file_path.is_empty() { continue }
            ensure(map.contains_key(&x.file_path), || format!("the diagnostic `{}` is about the file {:?}", x.message, x.file_path))?;
            let line = x.message.lines().next().unwrap_or("").chars().take(20).collect::<String>();
            ensure(shown.contains(&x.file_path) && shown.contains(line.trim_end()), || format!("the report does not show `{}` in {}", x.message, x.file_path))?;
        }
    }
    let got = outcome(raw, &|f| t.files.iter().find(|x| src.join(&x.1).display().to_string() == f).map_or(f.to_string(), |x| x.0.clone()));
    let kind = match &want { Outcome::Compiled(..) => "projects compiled", Outcome::Refused(_) => "projects refused", Outcome::Failed(_) => "projects without code" };
    ensure(got == want, || {
        let short = |o: &Outcome| match o {
            Outcome::Compiled(p, d) => format!("compiles to {:x} with {} warnings", hash_str(&format!("{:?} {:?}", p.data, p.entrypoints.iter().collect::<BTreeMap<_, _>>())), d.len()),
            o => format!("{o:?}"),
        };
        format!("the project {}, its modules in memory: {}", short(&got), short(&want))
    })?;
    rep.count(kind, 1);
    rep.count("source files", t.files.len() as u64);
    if t.files.iter().any(|f| f.0.contains("::")) { rep.count("projects with nested modules", 1) }
    rep.eval(hash_str(&format!("{} {:?}", t.root.components().count(), t.files)));
    Ok(())
}
/// A project found from a relative path, in another process.
pub fn probe() -> i32 {
    for p in std::env::args().skip(2) {
        match found(Path::new(&p)) {
            Ok(p) => println!("{}\n{}", p.name, std::path::absolute(&p.root_directory).unwrap().display()),
            Err(e) => println!("{e}\n"),
        }
    }
    0
}
fn relative(t: &Tree, r: &mut Rng, rep: &Report) -> Fail {
    let src = t.root.join("src");
    let f = src.join(&r.pick(&t.files).1);
    let mut cases: Vec<(PathBuf, PathBuf)> = vec![];
    for d in f.ancestors().skip(1).take_while(|d| d.starts_with(&t.root)) { cases.push((d.to_path_buf(), f.strip_prefix(d).unwrap().to_path_buf())) }
    cases.push((f.parent().unwrap().to_path_buf(), ".".into()));
    cases.push((src.clone(), "../src".into()));
    cases.push((f.parent().unwrap().to_path_buf(), Path::new(".").join(f.file_name().unwrap())));
    let (cwd, p) = r.pick(&cases).clone();
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(exe).arg("probe-project").arg(&p).current_dir(&cwd).output().map_err(|e| e.to_string())?;
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    let mut l = s.lines();
    let (name, root) = (l.next().unwrap_or("").to_string(), PathBuf::from(l.next().unwrap_or("")));
    let same = fs::canonicalize(&root).ok() == fs::canonicalize(src.join(format!("{}.cm", t.entry))).ok() && !root.as_os_str().is_empty();
    ensure(name == t.name && same, || format!("in {} the path {} leads to {name} {}", cwd.display(), p.display(), root.display()))?;
    rep.count("relative paths", 1);
    Ok(())
}
/// Files outside every project.
fn standalone(base: &Path, r: &mut Rng, rep: &Report) -> Fail {
    let stem = r.pick_s(&["main", "prog", "a b", "é", "quo\"te", "back\\slash", "x.y", "'q'", "new\nline", "#", "${x}", "{{name}}"]);
    let dir = base.join(r.pick_s(&["d", "e e", "deep/er", "λ"]));
    let f = dir.join(format!("{stem}.cm"));
    let cfg = Cfg::random(r);
    let g = Gen::new(r, cfg).program();
    let text = prog::text(&g.items);
    write(&f, &text);
    write(&dir.join("other.cm"), "fn broken(");
    let p = found(&f).map_err(|e| format!("{f:?}: {e}"))?;
    ensure(p.name == stem, || format!("the file {f:?} is called {}", p.name))?;
    let l = catch(|| p.source_files()).map_err(|e| format!("panic: {e}"))?.map_err(|e| e.to_string())?;
    ensure(l.len() == 1 && fs::canonicalize(&l[0]).ok() == fs::canonicalize(&f).ok(), || format!("{f:?} stands for {l:?}"))?;
    crate::guard::reset();
    let Ok(want) = catch(|| in_memory(&[(stem.clone(), text.clone())], &stem, &stem, true)) else { return Ok(()) };
    crate::guard::reset();
    let got = outcome(catch(|| compile_project(&CompilerDatabase::new(), p, options(true))).map_err(|e| format!("panic: {e}"))?, &|_| stem.clone());
    ensure(got == want, || format!("the file {f:?} compiles differently from its text"))?;
    rep.count("standalone files", 1);
    Ok(())
}
/// Projects that cannot be read end in an error.
fn broken(t: &Tree, r: &mut Rng, rep: &Report) -> Fail {
    let manifest = t.root.join("cairom.toml");
    let entry = t.root.join("src").join(format!("{}.cm", t.entry));
    let must_fail_to_load = |what: &str| match catch(|| discover_project(&entry)) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(p)) => Err(format!("a manifest {what} is taken for {p:?}")),
        Err(e) => Err(format!("a manifest {what}: panic: {e}")),
    };
    let must_fail_to_compile = |what: &str| {
        let p = found(&t.root)?;
        crate::guard::reset();
        match catch(|| compile_project(&CompilerDatabase::new(), p, options(true))) {
            Ok(Err(_)) => Ok(()),
            Ok(Ok(_)) => Err(format!("a project {what} compiles")),
            Err(e) => Err(format!("a project {what}: panic: {e}")),
        }
    };
    match r.below(5) {
        0 => { write(&manifest, r.pick_s(&["", "name = \"x\"", "entry_point = \"main.cm\"", "name = 1\nentry_point = \"m.cm\"", "name = \"x\"\nentry_point = \"m.cm", "[name]\n"])); must_fail_to_load("without its fields")? }
        1 => { write(&manifest, [0xff, 0xfe, b'x']); must_fail_to_load("that is no text")? }
        2 => { write(&entry, [b'f', 0xff, b'n']); must_fail_to_compile("with a source file that is no text")? }
        3 => { fs::remove_file(&entry).unwrap(); must_fail_to_compile("without its entry file")? }
        _ => { fs::remove_dir_all(t.root.join("src")).unwrap(); must_fail_to_compile("without its sources")? }
    }
    rep.count("broken projects", 1);
    Ok(())
}
/// All projects under a directory.
fn workspace(base: &Path, r: &mut Rng, rep: &Report) -> Fail {
    let mut want: BTreeMap<PathBuf, String> = BTreeMap::new();
    for i in 0..r.range(0, 5) {
        let mut d = base.to_path_buf();
        for _ in 0..r.below(3) { d = d.join(word(r)) }
        let d = d.join(format!("p{i}"));
        let name = format!("n{}", if r.chance(1, 5) { 0 } else { i });
        if r.chance(1, 6) { write(&d.join("cairom.toml"), "name = "); continue }
        write(&d.join("cairom.toml"), format!("name = \"{name}\"\nentry_point = \"m{i}.cm\"\n"));
        want.insert(d.join("src").join(format!("m{i}.cm")), name);
    }
    write(&base.join("x/cairom.toml.bak"), "name = \"no\"\nentry_point = \"m.cm\"\n");
    let w = catch(|| discover_workspace(base)).map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("error: {e}"))?;
    let got: BTreeMap<PathBuf, String> = w.projects.values().map(|p| (p.root_directory.clone(), p.name.clone())).collect();
    ensure(got == want && w.projects.len() == want.len(), || format!("the workspace has {got:?}, there are {want:?}"))?;
    ensure(w.root_directory == base, || "the workspace is elsewhere".into())?;
    let names: BTreeSet<&String> = want.values().collect();
    ensure(w.name_to_id.len() == names.len() && w.name_to_id.iter().all(|(n, i)| w.projects.get(i).is_some_and(|p| p.name == *n)), || format!("the names lead to {:?}", w.name_to_id))?;
    rep.count("workspaces", 1);
    Ok(())
}
pub fn projects(rep: &Report) -> i32 {
    let dir = tempfile::tempdir().expect("scratch directory");
    let top = dir.path().canonicalize().unwrap();
    parallel(8, rep.ctx.seed, |k, mut r| {
        let mut n = 0u64;
        while !rep.stop() {
            n += 1;
            let base = top.join(format!("w{k}/{n}"));
            fs::create_dir_all(&base).unwrap();
            let (mut text, res) = match r.below(10) {
                0 => (String::new(), workspace(&base, &mut r, rep)),
                1 => (String::new(), standalone(&base, &mut r, rep)),
                x => {
                    // a project around it that must not be taken
                    if r.chance(1, 3) { write(&base.join("cairom.toml"), "name = \"outer\"\nentry_point = \"outer.cm\"\n"); write(&base.join("src/outer.cm"), "fn outer() {}\n") }
                    let inner = if base.join("src").exists() { base.join("in") } else { base.clone() };
                    let t = plant(&mut r, &inner);
                    let text = semcase::print(&t.files.iter().map(|f| (f.0.clone(), f.2.clone())).collect::<Vec<_>>());
                    (text.clone(), watched(&text, || if x == 2 { broken(&t, &mut r, rep) } else { project(&t, &mut r, rep).and_then(|_| if r.chance(1, 6) { relative(&t, &mut r, rep) } else { Ok(()) }) }))
                }
            };
            if let Err(w) = res {
                text = format!("{}\n{text}", std::process::Command::new("find").arg(&base).output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default());
                rep.violation(w, text)
            } else {
                rep.sample(|| text);
            }
            let _ = fs::remove_dir_all(&base);
        }
    });
    rep.finish("exploration", "distinct projects on disk found, read and compiled as their files")
}
