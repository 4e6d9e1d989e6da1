//! What a reported problem points at, and how it is shown.
use cairo_m_compiler::db::CompilerDatabase;
use cairo_m_compiler::{compile_project, format_diagnostics, format_diagnostics_multi_file, CompilerError, CompilerOptions};
use cairo_m_compiler_diagnostics::{build_diagnostic_message, Diagnostic, DiagnosticCode, DiagnosticSeverity};
use cairo_m_compiler_parser::SourceFile;
use cairo_m_compiler_semantic::db::{project_parse_diagnostics, project_validate_semantics};
use cairo_m_compiler_semantic::Crate;
use cairo_m_project::discover_project;
use hcore::gen_sem::unhint;
use hcore::mutate;
use hcore::recog::lex;
use hcore::render::{render, Style};
use hcore::report::{catch, hash_str, parallel, watched, Report};
use hcore::rng::Rng;
use hcore::seed::{plant, KINDS};
use hcore::semcase;
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::path::{Path, PathBuf};

type Fail = Result<(), String>;
fn ensure(ok: bool, what: impl FnOnce() -> String) -> Fail { if ok { Ok(()) } else { Err(what()) } }
const BREAKS: [char; 7] = ['\n', '\r', '\x0b', '\x0c', '\u{85}', '\u{2028}', '\u{2029}'];
/// The text without the colours in it.
fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            for c in it.by_ref() { if c.is_ascii_alphabetic() { break } }
        } else {
            o.push(c)
        }
    }
    o
}
fn squeezed(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
/// The words of a piece of program text, without what lies between them.
fn words(s: &str) -> Vec<String> { lex(s).iter().map(|t| s[t.start..t.end].to_string()).collect() }
/// Line and column, from 1, of a place in a text whose lines end in `\n` or `\r\n`; the line's text.
fn place(text: &str, at: usize) -> (usize, usize, &str) {
    let start = text[..at].rfind('\n').map_or(0, |i| i + 1);
    let end = text[at..].find('\n').map_or(text.len(), |i| at + i);
    (text[..start].matches('\n').count() + 1, text[start..at].chars().count() + 1, text[start..end.max(start)].trim_end_matches('\r'))
}
fn usual_lines(text: &str) -> bool { !text.replace("\r\n", "\n").contains(&BREAKS[1..]) }
fn in_text(text: &str, a: usize, b: usize) -> bool { a <= b && b <= text.len() && text.is_char_boundary(a) && text.is_char_boundary(b) }
/// What stands between the first two marks.
fn quoted(msg: &str, mark: char) -> Option<&str> { let (_, r) = msg.split_once(mark)?; Some(r.split_once(mark)?.0) }
fn last_quoted(msg: &str) -> Option<&str> { msg.rsplit('`').nth(1) }
/// The places a problem names.
fn places(rep: &Report, files: &[(String, String, String)], text: &str, d: &Diagnostic) -> Fail {
    let (a, b) = (d.span.start, d.span.end);
    ensure(in_text(text, a, b), || format!("the place {a}..{b} of a problem does not lie in the text: {}", d.message))?;
    // a name the message gives is there
    if matches!(d.code, DiagnosticCode::UndeclaredVariable | DiagnosticCode::UndeclaredType | DiagnosticCode::UnusedVariable | DiagnosticCode::DuplicateDefinition | DiagnosticCode::UseBeforeDefinition) {
        let name = quoted(&d.message, '\'').or(quoted(&d.message, '`')).unwrap_or("");
        ensure(!name.is_empty() && words(&text[a..b]).iter().any(|w| w == name), || format!("a problem with `{name}` is reported at `{}`: {}", &text[a..b], d.message))?;
        rep.count("problems that name a declaration", 1);
    }
    for (s, m) in &d.related_spans {
        if foreign(files, text, d, s.start, s.end, m) && rep.known("note-of-imported-constant") { rep.count("notes of an imported constant", 1); continue }
        if unwritten(text, s.start, s.end, m) && rep.known("note-of-omitted-result") { rep.count("notes of an omitted result", 1); continue }
        ensure(in_text(text, s.start, s.end), || format!("the place {}..{} of a note does not lie in the text: {m} ({})", s.start, s.end, d.message))?;
        let t = &text[s.start..s.end];
        let before = words(&text[..s.start]);
        let after = |w: &str| before.last().is_some_and(|b| b == w);
        let wrong = || format!("a note points at `{t}`: {m} ({})", d.message);
        if m.contains("const") && m.ends_with("defined here") {
            let name = quoted(&d.message, '`').unwrap_or("");
            ensure(words(t) == [name] && after("const"), wrong)?;
            rep.count("notes of a constant", 1);
        } else if m.starts_with("parameter `") && m.contains("declared here with type") {
            let (name, ty) = (quoted(m, '`').unwrap_or(""), last_quoted(m).unwrap_or(""));
            let n = before.iter().rposition(|w| w != "(").map_or(0, |n| n + 1);
            ensure(n >= 2 && before[n - 1] == ":" && before[n - 2] == name && same_type(t, ty), || format!("{} / {:?}", wrong(), &before[n.saturating_sub(3)..]))?;
            rep.count("notes of a parameter", 1);
        } else if m.starts_with("function `") && m.contains("declared here to return") {
            // a result left out is shown at the name
                let arrow = before.iter().rev().find(|w| *w != "(").is_some_and(|w| w == "->");
                let ok = if last_quoted(m) == Some("()") && words(t) == [quoted(m, '`').unwrap_or("")] { after("fn") } else { same_type(t, last_quoted(m).unwrap_or("")) && arrow };
                ensure(ok, wrong)?;
            rep.count("notes of a result", 1);
        } else if m.starts_with("field declared here") {
            ensure(words(t).first().is_some_and(|w| Some(w.as_str()) == quoted(&d.message, '`')), wrong)?;
            rep.count("notes of a field", 1);
        } else {
            // about the expression at fault, or one beside it
            let item = |at: usize| text[..at].matches("fn ").count();
            ensure(item(s.start).abs_diff(item(a)) <= 1, wrong)?;
            rep.count("other notes", 1);
        }
    }
    Ok(())
}
/// Whether a note of a constant points at that constant's name, but in the file it is imported from.
fn foreign(files: &[(String, String, String)], text: &str, d: &Diagnostic, a: usize, b: usize, m: &str) -> bool {
    let Some(name) = quoted(&d.message, '`') else { return false };
    m.contains("const") && m.ends_with("defined here")
        && !words(text).windows(2).any(|w| w[0] == "const" && w[1] == name)
        && files.iter().any(|f| f.1 != d.file_path && in_text(&f.2, a, b) && &f.2[a..b] == name && words(&f.2[..a]).last().is_some_and(|w| w == "const"))
}
/// Whether a note of a function's result points nowhere, the result being left out.
fn unwritten(text: &str, a: usize, b: usize, m: &str) -> bool {
    if (a, b) != (0, 0) || !m.starts_with("function `") || last_quoted(m) != Some("()") { return false }
    let (name, w) = (quoted(m, '`').unwrap_or(""), words(text));
    w.windows(2).enumerate().filter(|(_, p)| p[0] == "fn" && p[1] == name).any(|(i, _)| {
        let mut depth = 0;
        let close = w[i + 2..].iter().position(|t| { depth += (t == "(") as i32 - (t == ")") as i32; depth == 0 });
        close.is_some_and(|c| w.get(i + 3 + c).is_some_and(|t| t == "{"))
    })
}
fn same_type(text: &str, shown: &str) -> bool {
    let num = |w: &str| {
        let w = w.to_lowercase();
        let (digits, base) = match w.get(..2) { Some("0x") => (&w[2..], 16), Some("0b") => (&w[2..], 2), Some("0o") => (&w[2..], 8), _ => (&w[..], 10) };
        u64::from_str_radix(digits, base).map(|n| n.to_string()).ok()
    };
    let bare = |s: &str| words(s).into_iter().filter(|w| !matches!(w.as_str(), "(" | ")" | ",")).map(|w| num(&w).unwrap_or(w)).collect::<Vec<_>>();
    bare(text) == bare(shown)
}
/// What is shown to the user of one problem.
fn rendered(rep: &Report, files: &[(String, String, String)], text: &str, d: &Diagnostic) -> Result<String, String> {
    let out = build_diagnostic_message(text, d, false);
    let code: u32 = d.code.into();
    let kind = match d.severity { DiagnosticSeverity::Error => "Error", DiagnosticSeverity::Warning => "Warning", _ => "Advice" };
    ensure(out.starts_with(&format!("[{code:02}] {kind}: {}\n", d.message)), || format!("a problem is not headed by its code, kind and message: {} / {out}", d.message))?;
    ensure(plain(&build_diagnostic_message(text, d, true)) == out, || format!("a problem is shown differently in colour: {}", d.message))?;
    if !usual_lines(text) { rep.count("texts with unusual line ends", 1); return Ok(out) }
    let (line, col, src) = place(text, d.span.start);
    let at = format!("[ {}:{line}:{col} ]", d.file_path);
    if d.span.start < text.len() || !text.ends_with('\n') {
        ensure(out.contains(&at), || format!("a problem is not shown at {at}: {out}"))?;
        if d.span.start < d.span.end { shows(&out, line, src)? }
    }
    for (s, m) in &d.related_spans {
        if foreign(files, text, d, s.start, s.end, m) { continue }
        let (line, _, src) = place(text, s.start);
        if s.start < s.end { shows(&out, line, src)? }
        ensure(out.contains(m.as_str()), || format!("a note is not shown: {m}: {out}"))?;
    }
    ensure(out.matches(d.message.as_str()).count() >= 2, || format!("a problem is not shown at its place: {out}"))?;
    rep.count("problems shown", 1);
    Ok(out)
}
fn shows(out: &str, line: usize, src: &str) -> Fail {
    let want = squeezed(src);
    ensure(
        out.lines().any(|l| l.trim_start().split_once(" │").is_some_and(|(n, t)| n == line.to_string() && squeezed(&t.replace(['│', '╭', '├', '╰', '─', '▶', '┤'], "")) == squeezed(&want.replace(['│', '╭', '├', '╰', '─', '▶', '┤'], "")))),
        || format!("line {line}, {src:?}, is not shown: {out}"),
    )
}
fn diagnose(files: &[(String, String, String)]) -> Vec<Diagnostic> {
    let db = CompilerDatabase::new();
    let m: HashMap<String, SourceFile> = files.iter().map(|(n, p, t)| (n.clone(), SourceFile::new(&db, t.clone(), p.clone()))).collect();
    let c = Crate::new(&db, m, files[0].0.clone(), PathBuf::from("."), "c".into());
    let mut d: Vec<Diagnostic> = project_parse_diagnostics(&db, c).iter().cloned().collect();
    if d.is_empty() { d = project_validate_semantics(&db, c).iter().cloned().collect() }
    d
}
fn judge(rep: &Report, files: &[(String, String, String)]) -> Fail {
    let ds = diagnose(files);
    let map: HashMap<String, String> = files.iter().map(|f| (f.1.clone(), f.2.clone())).collect();
    let mut all = vec![];
    for d in &ds {
        let text = map.get(&d.file_path).ok_or_else(|| format!("a problem is in no file of the project: {:?} {}", d.file_path, d.message))?;
        places(rep, files, text, d)?;
        all.push(rendered(rep, files, text, d)?);
        rep.count(&format!("{:?} {:?}", d.severity, d.code), 1);
    }
    ensure(format_diagnostics_multi_file(&map, &ds, false) == all.join("\n"), || "the problems of a project are not shown one after the other".into())?;
    if files.len() == 1 { ensure(format_diagnostics(&files[0].2, &ds, false) == all.join("\n"), || "the problems of a file are not shown one after the other".into())? }
    Ok(())
}
/// Modules with a problem or two: what is wrong with them, and their texts.
fn problem(r: &mut Rng, turn: usize) -> Option<(String, Vec<(String, String)>)> {
    let c = semcase::case(r);
    match turn % 8 {
        0 => Some(("well-typed".into(), c.show(r).texts)),
        1 => {
            let mut t = c.show(r).texts;
            let k = r.below(t.len());
            let n = r.range(1, 4);
            t[k].1 = if r.chance(1, 2) { mutate::token_edits(&t[k].1, n, r) } else { mutate::char_edits(&t[k].1, n, r) };
            Some(("edited".into(), t))
        }
        x => {
            let sem = hcore::refsem::analyse(&c.mods);
            if !sem.problems.is_empty() { return None }
            // the kinds whose reports carry notes more often
            let kind = if x < 5 { let k = ["wrong type", "const target", "const array", "return value", "wrong type: a variable"][r.below(5)]; KINDS.iter().position(|n| *n == k).unwrap() } else { r.below(KINDS.len()) };
            let s = plant(&c, &sem, kind, r)?;
            let style = if r.chance(1, 3) { Style { crlf: true, ..c.style.clone() } } else { c.style.clone() };
            Some((s.what.clone(), s.mods.iter().map(|(n, m)| (n.clone(), render(&unhint(m), &style, r).text)).collect()))
        }
    }
}
/// The text after a comment of long characters, or as it is.
fn preface(t: String, r: &mut Rng) -> String {
    if !r.chance(1, 3) { return t }
    let n = r.below(80);
    let c: String = (0..n).map(|_| r.pick_s(&["é", "漢", "🦀", "\t", " ", "ß", "─"])).collect();
    format!("// {c}\n{t}")
}
/// Headings of what the compiler prints: code, file, line and column of each problem.
fn headings(out: &str) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    let mut code = String::new();
    for l in out.lines() {
        if let Some((c, _)) = l.strip_prefix('[').and_then(|l| l.split_once("] ")) { code = c.to_string() }
        if let Some((_, x)) = l.split_once("─[ ") { *m.entry(format!("{code} {}", x.trim_end_matches(" ]"))).or_insert(0) += 1 }
    }
    m
}
/// The same problems, found in files and printed by the compiler as a program.
fn printed(dir: &Path, texts: &[(String, String)], r: &mut Rng, rep: &Report) -> Fail {
    let root = dir.join(r.pick_s(&["proj", "a b", "é", "x.cm"]));
    fs::create_dir_all(root.join("src")).unwrap();
    fs::write(root.join("cairom.toml"), format!("name = \"p\"\nversion = \"0.1.0\"\nentry_point = \"{}.cm\"\n", texts[0].0)).unwrap();
    for (n, t) in texts { fs::write(root.join("src").join(format!("{n}.cm")), t).unwrap() }
    let p = discover_project(&root).map_err(|e| format!("{e}"))?.ok_or("no project is found")?;
    let o = std::process::Command::new(crate::cli::tool("cairo-m-compiler")).args(["-i", root.to_str().unwrap(), "-o"]).arg(dir.join("o.json")).stdin(std::process::Stdio::null()).current_dir(dir).output().map_err(|e| e.to_string())?;
    let err = plain(&String::from_utf8_lossy(&o.stderr));
    let db = CompilerDatabase::new();
    let (ds, code) = match compile_project(&db, p, CompilerOptions::default()) {
        Ok(o) => (o.diagnostics, 0),
        Err(CompilerError::ParseErrors(d)) | Err(CompilerError::SemanticErrors(d)) => (d, 1),
        Err(_) => return Ok(()),
    };
    ensure(o.status.code() == Some(code), || format!("the compiler ends with {:?}, wanted {code}: {err}", o.status))?;
    let mut want = BTreeMap::new();
    for d in &ds {
        let text = fs::read_to_string(&d.file_path).map_err(|e| format!("a problem is in {:?}: {e}", d.file_path))?;
        let (l, c, src) = place(&text, d.span.start);
        if !usual_lines(&text) || d.span.start == text.len() { return Ok(()) }
        let k: u32 = d.code.into();
        *want.entry(format!("{k:02} {}:{l}:{c}", d.file_path)).or_insert(0) += 1;
        if d.span.start < d.span.end { shows(&err, l, src)? }
    }
    ensure(headings(&err) == want, || format!("the compiler prints {:?}, the problems are {want:?}", headings(&err)))?;
    rep.count("runs of the compiler", 1);
    rep.count("problems it printed", ds.len() as u64);
    Ok(())
}
pub fn problems(rep: &Report) -> i32 {
    let dir = tempfile::tempdir().expect("scratch directory");
    let top = dir.path().canonicalize().unwrap();
    parallel(8, rep.ctx.seed, |k, mut r| {
        let mut turn = k;
        while !rep.stop() {
            turn += 1;
            let Some((what, texts)) = problem(&mut r, turn) else { continue };
            let texts: Vec<(String, String)> = texts.into_iter().map(|(n, t)| (n, preface(t, &mut r))).collect();
            let at = r.pick_s(&["", "src/", "/w/my project/src/", "é/"]);
            let files: Vec<(String, String, String)> = texts.iter().map(|(n, t)| (n.clone(), format!("{at}{n}.cm"), t.clone())).collect();
            let shown = semcase::print(&texts);
            rep.eval(hash_str(&shown));
            rep.count(what.split(':').next().unwrap(), 1);
            rep.sample(|| format!("// {what}\n{shown}"));
            let mut res = watched(&shown, || catch(|| judge(rep, &files))).unwrap_or_else(|p| Err(format!("panic: {p}")));
            if res.is_ok() && r.chance(1, 12) {
                let base = top.join(format!("w{k}"));
                fs::create_dir_all(&base).unwrap();
                res = watched(&shown, || catch(|| printed(&base, &texts, &mut r, rep))).unwrap_or_else(|p| Err(format!("panic: {p}")));
                let _ = fs::remove_dir_all(&base);
            }
            if let Err(why) = res {
                let why = why.replace(top.to_str().unwrap(), "");
                rep.violation(format!("{why} ({what})"), shown);
            }
        }
    });
    rep.finish("exploration", "distinct modules whose every problem was located and shown")
}
