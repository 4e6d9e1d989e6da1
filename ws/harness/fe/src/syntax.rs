//! Lexer and parser monitors.
use crate::{alloc, lower};
use cairo_m_compiler_diagnostics::{DiagnosticCode, DiagnosticSeverity};
use cairo_m_compiler_parser::lexer::TokenType;
use cairo_m_compiler_parser::parser::ParseOutput;
use cairo_m_compiler_parser::{parse_file, ParserDatabaseImpl, SourceFile};
use hcore::ast::*;
use hcore::gen_syn::Gen;
use hcore::recog::{self, lex, Recog, Tk};
use hcore::render::{render, Rendered, Style};
use hcore::report::{catch, hash_str, parallel, watched, Report};
use hcore::rng::Rng;
use hcore::{mutate, render};
use logos::Logos;

pub const THREADS: usize = 8;
pub fn parse(text: &str) -> ParseOutput {
    let db = ParserDatabaseImpl::default();
    let f = SourceFile::new(&db, text.to_string(), "dir/mod.cm".into());
    parse_file(&db, f)
}
pub fn random_module(r: &mut Rng) -> Module {
    let depth = *r.pick(&[1, 2, 3, 3, 4, 6]);
    let budget = *r.pick(&[15, 40, 80, 200]);
    let items = *r.pick(&[1, 1, 2, 3, 5]);
    Gen::new(r, depth, budget).module(items)
}
pub fn random_rendered(r: &mut Rng) -> (Module, Rendered) {
    let m = random_module(r);
    let s = Style::random(r);
    let t = render(&m, &s, r);
    (m, t)
}
fn items_kinds(rep: &Report, m: &Module) {
    for i in m {
        rep.count(match i { Item::Fn(_) => "functions", Item::Struct(..) => "structs", Item::Const(..) => "constants", Item::Use(..) => "imports" }, 1);
    }
}
fn show(m: &Module) -> String { format!("{m:#?}") }
fn first_diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("expected `{}` got `{}`", x.trim(), y.trim());
        }
    }
    "one is a prefix of the other".into()
}
// ---------------------------------------------------------------- P01
pub fn fidelity(rep: &Report) -> i32 {
    // listed findings, probed on every run
    let probe = |text: &str, key: &str, want: Module| {
        rep.eval(hash_str(text));
        let out = parse(text);
        let ok = out.diagnostics.is_empty() && lower::lower(&out.module) == want;
        if !ok && !rep.known(key) {
            rep.violation(format!("`{text}` is not read as written"), format!("{text}\n{out:?}"));
        }
    };
    let id = |s: &str| Box::new(Ex::Id(s.into()));
    let f = |body: Vec<St>| vec![Item::Fn(FnDef { name: "f".into(), params: vec![], ret: None, body })];
    let or = Ex::Bin(Bin::Or, id("a"), Box::new(Ex::Bin(Bin::And, id("b"), id("c"))));
    probe("fn f() { return a || b && c; }", "or-and-tier", f(vec![St::Return(Some(or))]));
    probe("fn f() { if x {} }", "bare-condition-empty-block", f(vec![St::If(*id("x"), Box::new(St::Block(vec![])), None)]));
    parallel(THREADS, rep.ctx.seed, |_, mut r| {
        while !rep.stop() {
            let (m, t) = random_rendered(&mut r);
            match catch(|| parse(&t.text)) {
                Err(p) => rep.violation(format!("parser panicked: {p}"), t.text.clone()),
                Ok(out) => {
                    let got = lower::lower(&out.module);
                    if !out.diagnostics.is_empty() {
                        rep.violation(format!("program in the grammar refused: {}", out.diagnostics[0]), format!("{}\n---\n{}", t.text, show(&m)));
                    } else if got != m {
                        let (a, b) = (show(&m), show(&got));
                        rep.violation(format!("parsed as a different program: {}", first_diff(&a, &b)), format!("{}\n--- written\n{a}\n--- parsed\n{b}", t.text));
                    }
                }
            }
            if t.tokens.len() > 5 { rep.eval(hash_str(&t.text)) } else { rep.eval_trivial() }
            items_kinds(rep, &m);
            rep.count("tokens", t.tokens.len() as u64);
            rep.count("constructs", t.nodes.len() as u64);
            rep.count("comments", t.comments as u64);
            rep.sample(|| t.text.clone());
        }
    });
    rep.finish("exploration", "random modules over the whole grammar, rendered in random layouts, parsed, and compared node by node with the module written; non-trivial: more than 5 tokens, distinct text")
}
// ---------------------------------------------------------------- P03
pub fn spans(rep: &Report) -> i32 {
    parallel(THREADS, rep.ctx.seed ^ 3, |_, mut r| {
        while !rep.stop() {
            let (m, t) = random_rendered(&mut r);
            let Ok(out) = catch(|| parse(&t.text)) else { continue };
            let mut l = lower::Lower::default();
            let got = l.module(&out.module);
            if !out.diagnostics.is_empty() || got != m {
                rep.count("skipped_not_parsed_as_written", 1);
                continue;
            }
            if l.nodes.len() != t.nodes.len() {
                rep.count("skipped_node_lists_differ", 1);
                continue;
            }
            for (w, g) in t.nodes.iter().zip(&l.nodes) {
                if w.kind != g.kind {
                    eprintln!("harness node order differs: {w:?} {g:?}");
                    std::process::exit(2);
                }
                if (g.start, g.end) == (w.start, w.end) {
                    continue;
                }
                if g.start == w.start && g.end == w.tol_end && w.tol_end != w.end && rep.known("call-index-span-end") {
                    rep.count("known_short_spans", 1);
                    continue;
                }
                rep.violation(
                    format!("{} occupies {}..{} but is reported at {}..{}", w.kind, w.start, w.end, g.start, g.end),
                    format!("written: {:?}\nreported: {:?}\n---\n{}", &t.text[w.start..w.end], t.text.get(g.start..g.end), t.text),
                );
                break;
            }
            if t.nodes.len() > 3 { rep.eval(hash_str(&t.text)) } else { rep.eval_trivial() }
            rep.count("spans_compared", t.nodes.len() as u64);
            rep.sample(|| t.text.clone());
        }
    });
    rep.finish("exploration", "random modules in random layouts; the source range reported for every construct is compared with the range the renderer wrote it to; non-trivial: more than 3 constructs, distinct text")
}
// ---------------------------------------------------------------- P04
fn lexeme(r: &mut Rng) -> String {
    let digits = |r: &mut Rng, set: &str, n: usize| -> String { (0..n).map(|_| set.as_bytes()[r.below(set.len())] as char).collect() };
    let mut s = match r.below(8) {
        0 => { let n = r.range(0, 19); format!("{}{}", r.pick(&["0x", "0X"]), digits(r, "0123456789abcdefABCDEF", n)) }
        1 => { let n = r.range(0, 24); format!("{}{}", r.pick(&["0o", "0O"]), digits(r, "01234567", n)) }
        2 => { let n = r.range(0, 67); format!("{}{}", r.pick(&["0b", "0B"]), digits(r, "01", n)) }
        3 => { let n = r.range(1, 22); digits(r, "0123456789", n) }
        4 => { let n = (u64::MAX as u128) + r.below(5) as u128 - 2; match r.below(4) { 0 => format!("{n}"), 1 => format!("0x{n:x}"), 2 => format!("0o{n:o}"), _ => format!("0b{n:b}") } }
        5 => { let n = r.next() >> r.below(64); match r.below(4) { 0 => format!("{n}"), 1 => format!("0x{n:X}"), 2 => format!("0o{n:o}"), _ => format!("0b{n:b}") } }
        6 => { let n = r.range(1, 6); format!("0{}", digits(r, "0123456789abcdefxobuXOB_", n)) }
        _ => { let n = r.range(1, 8); format!("{}{}", r.below(10), digits(r, "0123456789feltu32xobABCDEF_", n)) }
    };
    match r.below(6) {
        0 => s.push_str("felt"),
        1 => s.push_str("u32"),
        2 => s.push_str(&r.pick_s(&["_", "u8", "felts", "Felt", "u64", "u32felt", "feltu32", "f", "u", "e5", "_felt", "u32_", "felt2"])),
        _ => {}
    }
    s
}
fn lex_text(r: &mut Rng) -> String {
    match r.below(4) {
        0 => {
            let n = r.range(1, 12);
            mutate::bytes(r, n)
        }
        1 => {
            let n = r.range(1, 12);
            (0..n).map(|_| { let mut t = if r.chance(1, 3) { lexeme(r) } else { mutate::token(r) }; t.push_str(&r.pick_s(&["", "", " ", "\n", "\t", "\r\n", "// c\n", "//"])); t }).collect()
        }
        2 => {
            let n = r.range(1, 20);
            (0..n).map(|_| r.pick_s(&["!", "=", "<", ">", "&", "|", "^", ":", "-", "/", "*", "+", ".", ",", ";", "a", "1", " ", "%", "(", "_"])).collect()
        }
        _ => {
            let t = render(&random_module(r), &Style::random(r), r).text;
            let n = r.below(3);
            mutate::char_edits(&t, n, r)
        }
    }
}
pub fn lexing(rep: &Report) -> i32 {
    parallel(THREADS, rep.ctx.seed ^ 4, |_, mut r| {
        while !rep.stop() {
            // 1. any text: token stream against the independent lexer
            let text = lex_text(&mut r);
            let got: Vec<_> = match catch(|| TokenType::lexer(&text).spanned().collect::<Vec<_>>()) {
                Ok(g) => g,
                Err(p) => {
                    rep.violation(format!("lexer panicked: {p}"), format!("{text:?}"));
                    continue;
                }
            };
            let want = lex(&text);
            let bad = |w: &Tk| matches!(w, Tk::Bad | Tk::BadNum);
            let want_bad = want.iter().any(|t| bad(&t.t));
            // an unknown suffix is a lexical error or refused by the parser: both are errors
            let got_bad = got.iter().any(|(t, _)| match t {
                Err(_) => true,
                Ok(TokenType::LiteralNumber(n)) => n.suffix.is_some_and(|s| s != "felt" && s != "u32"),
                _ => false,
            });
            if want_bad != got_bad {
                rep.violation(
                    if want_bad { "text with an invalid token was lexed without error" } else { "valid tokens were refused by the lexer" },
                    format!("{text:?}\nexpected {want:?}\ngot {got:?}"),
                );
            } else if !want_bad {
                let mut same = want.len() == got.len();
                for (w, (g, s)) in want.iter().zip(&got) {
                    let tok = match (&w.t, g.as_ref().unwrap()) {
                        (Tk::Num(v, s), TokenType::LiteralNumber(n)) => n.value == *v && n.suffix == s.as_deref(),
                        (Tk::Id(a), TokenType::Identifier(b)) => a == b,
                        (Tk::Num(..) | Tk::Id(_), _) | (_, TokenType::LiteralNumber(_) | TokenType::Identifier(_)) => false,
                        (_, g) => format!("{g}") == text[w.start..w.end],
                    };
                    same &= tok && (s.start, s.end) == (w.start, w.end);
                }
                if !same {
                    rep.violation("token stream differs from the written tokens", format!("{text:?}\nexpected {want:?}\ngot {got:?}"));
                }
                rep.count("tokens_compared", want.len() as u64);
            }
            rep.count(if want_bad { "texts_with_invalid_token" } else { "texts_all_valid" }, 1);
            if want.len() > 1 { rep.eval(hash_str(&text)) } else { rep.eval_trivial() }
            // 2. one numeric lexeme through the whole front: value or an error, never another value
            let lx = lexeme(&mut r);
            if let [one] = &lex(&lx)[..] {
                let src = format!("const X = {lx};");
                let out = parse(&src);
                let val = match &out.module.items()[..] {
                    [cairo_m_compiler_parser::parser::TopLevelItem::Const(c)] if out.diagnostics.is_empty() => match c.value().value.value() {
                        cairo_m_compiler_parser::parser::Expression::Literal(v, s) => Some((*v, s.clone())),
                        _ => None,
                    },
                    _ => None,
                };
                let want = match &one.t {
                    Tk::Num(v, s) => Some((*v, s.clone())),
                    _ => None,
                };
                if want != val || (want.is_none() && out.diagnostics.is_empty()) {
                    rep.violation(format!("literal `{lx}` denotes {want:?} but was read as {val:?}"), format!("{src}\n{out:?}"));
                }
                rep.count(if want.is_some() { "literals_valid" } else { "literals_invalid" }, 1);
                rep.eval(hash_str(&lx));
                rep.sample(|| format!("{lx} -> {want:?}"));
            }
        }
    });
    rep.finish("exploration", "random texts (bytes, glued tokens, operator runs, mutated programs) and random numeric lexemes around every base and bound; token stream, spans, values and error status compared with an independent lexer; non-trivial: more than one token, distinct text")
}
// ---------------------------------------------------------------- P02
/// Shape checks on whatever the parser returned for `text`.
fn located(text: &str, out: &ParseOutput) -> Option<String> {
    for d in &out.diagnostics {
        if d.severity != DiagnosticSeverity::Error {
            return Some(format!("parse problem reported with severity {}", d.severity));
        }
        if !matches!(d.code, DiagnosticCode::LexicalError | DiagnosticCode::SyntaxError | DiagnosticCode::UnexpectedToken | DiagnosticCode::UnexpectedEndOfFile | DiagnosticCode::InvalidCharacter) {
            return Some(format!("parse problem reported with code {:?}", d.code));
        }
        if d.file_path != "dir/mod.cm" {
            return Some(format!("diagnostic names file `{}`", d.file_path));
        }
        if d.message.trim().is_empty() {
            return Some("empty message".into());
        }
        let (s, e) = (d.span.start, d.span.end);
        if s > e || e > text.len() || !text.is_char_boundary(s) || !text.is_char_boundary(e) {
            return Some(format!("diagnostic at {s}..{e} is not a range of the {}-byte text", text.len()));
        }
        let shown = catch(|| d.display_with_source(text));
        if let Err(p) = shown {
            return Some(format!("rendering the diagnostic panicked: {p}"));
        }
    }
    if !out.diagnostics.is_empty() && !out.module.items().is_empty() {
        return Some("a refused text still produced items".into());
    }
    None
}
const WRAPS: &[(&str, &str)] = &[
    ("(", ")"), ("[", "]"), ("f(", ")"), ("a[", "]"), ("S { x: ", " }"), ("(1, ", ")"), ("(", ", 1)"), ("-", ""), ("!", ""), ("1 + ", ""), ("", " + 1"),
    ("1 + (", ")"), ("(", ") * 2"), ("[1, ", "]"), ("[", "; 3]"), ("new felt[", "]"), ("", " as u32"), ("", ".f"), ("", ".0"), ("", "()"), ("g(1, ", ")"),
    ("x == ", ""), ("", " && y"), ("(", ",)"), ("[", ", 2]"), ("f(", ", 2)"), ("", "[0]"), ("S { y: 1, x: ", ", }"),
];
const SWRAPS: &[(&str, &str)] = &[
    ("{", "}"), ("if (x) {", "}"), ("if x == 1 {", "}"), ("if (x) {} else {", "}"), ("if (x) { y(); } else ", ""), ("while (x) {", "}"), ("while x == 1 {", "}"),
    ("loop {", "}"), ("loop ", ""), ("for (i = 0; i < 3; i = i + 1) {", "}"), ("if (f(x)) ", ""), ("if ((x) && (y)) {", "}"), ("if (x) && (y) {", "}"), ("while (f)(x) {", "}"),
];
const TWRAPS: &[(&str, &str)] = &[("(", ")"), ("(", ",)"), ("(felt, ", ")"), ("[", "; 3]"), ("", "*"), ("(", ", felt)"), ("(u32, ", ",)")];
fn nested(r: &mut Rng) -> impl Fn(usize) -> String {
    let kind = r.below(4);
    let set = match kind { 0 | 1 => WRAPS, 2 => SWRAPS, _ => TWRAPS };
    let pool: Vec<(&str, &str)> = (0..r.range(1, 3)).map(|_| *r.pick(set)).collect();
    let garbage = r.chance(1, 3);
    let extra = r.pick_s(&["", "=", ")", "let", "5 5", ";", "}"]);
    move |d| {
        let mut s = match (kind, garbage) {
            (2, false) => "x = 1;".to_string(),
            (3, false) => "felt".into(),
            (_, false) => "x".into(),
            (_, true) => extra.clone(),
        };
        for i in 0..d {
            let (a, b) = pool[i % pool.len()];
            s = format!("{a}{s}{b}");
        }
        match kind {
            0 => format!("fn f() {{ let v = {s}; }}"),
            1 => format!("fn f() {{ if {s} {{ g(); }} }}"),
            2 => format!("fn f() {{ {s} }}"),
            _ => format!("fn f(p: {s}) {{ let q: {s} = p; }}"),
        }
    }
}
fn work(text: &str) -> (u64, Result<ParseOutput, String>) {
    let a = alloc::count();
    let o = catch(|| parse(text));
    let w = alloc::count() - a;
    (w, o)
}
pub fn totality(rep: &Report) -> i32 {
    parallel(THREADS, rep.ctx.seed ^ 2, |_, mut r| {
        while !rep.stop() {
            let (kind, text) = match r.below(8) {
                0 => { let n = r.below(60); ("random characters", mutate::bytes(&mut r, n)) }
                1 | 2 => { let n = r.below(60); ("token soup", mutate::soup(&mut r, n)) }
                3 | 4 => {
                    let t = random_rendered(&mut r).1.text;
                    let n = r.range(1, 4);
                    ("token edits", mutate::token_edits(&t, n, &mut r))
                }
                5 | 6 => {
                    let t = random_rendered(&mut r).1.text;
                    let n = r.range(1, 4);
                    ("character edits", mutate::char_edits(&t, n, &mut r))
                }
                _ => {
                    // nesting: the work done must not explode with depth
                    let f = nested(&mut r);
                    let mut last: Option<u64> = None;
                    for d in [3usize, 6, 12, 24, 48] {
                        let t = f(d);
                        let (w, o) = watched(&t, || work(&t));
                        rep.eval(hash_str(&t));
                        rep.count("nested_texts", 1);
                        match o {
                            Err(p) => rep.violation(format!("parser panicked: {p}"), t.clone()),
                            Ok(o) => {
                                if let Some(e) = located(&t, &o) {
                                    rep.violation(e, t.clone());
                                }
                            }
                        }
                        // doubling the depth doubles the text; four times the work per doubling
                        // (quadratic) plus a constant is tolerated
                        if let Some(l) = last {
                            if w > 5 * l + 20_000 {
                                rep.violation(format!("work grows from {l} to {w} allocations when nesting goes from {} to {d}", d / 2), t);
                                break;
                            }
                        }
                        last = Some(w);
                    }
                    continue;
                }
            };
            let (w, o) = watched(&text, || work(&text));
            match o {
                Err(p) => rep.violation(format!("parser panicked: {p}"), format!("{text:?}")),
                Ok(o) => {
                    if let Some(e) = located(&text, &o) {
                        rep.violation(e, format!("{text:?}\n{:?}", o.diagnostics));
                    }
                    rep.count(if o.diagnostics.is_empty() { "accepted" } else { "refused" }, 1);
                    rep.count("diagnostics", o.diagnostics.len() as u64);
                }
            }
            if w > 4_000 * (text.len() as u64 + 50) {
                rep.violation(format!("{w} allocations for a text of {} bytes", text.len()), format!("{text:?}"));
            }
            rep.count(kind, 1);
            if text.len() > 3 { rep.eval(hash_str(&text)) } else { rep.eval_trivial() }
            rep.sample(|| format!("{text:?}"));
        }
    });
    rep.finish("exploration", "random characters, token soup, edited programs and nested constructs; a panic, a diagnostic outside the text, an unrenderable diagnostic or exploding work is a violation; non-trivial: more than 3 bytes, distinct text")
}
// ---------------------------------------------------------------- P05
pub fn rejection(rep: &Report) -> i32 {
    parallel(THREADS, rep.ctx.seed ^ 5, |_, mut r| {
        while !rep.stop() {
            let m = Gen::new(&mut r, 2, 12).module(1);
            let t = render(&m, &Style::random(&mut r), &mut r).text;
            let text = match r.below(8) {
                0 => { let n = r.range(1, 14); mutate::soup(&mut r, n) }
                1 => { let n = r.range(1, 3); mutate::char_edits(&t, n, &mut r) }
                _ => { let n = *r.pick(&[1, 1, 1, 2, 3]); mutate::token_edits(&t, n, &mut r) }
            };
            let toks = lex(&text);
            if toks.len() > 160 {
                continue;
            }
            let accepted = Recog::accepts(&toks);
            let Ok(out) = catch(|| parse(&text)) else {
                rep.violation("parser panicked", text);
                continue;
            };
            if !accepted && out.diagnostics.is_empty() {
                rep.violation("text outside the grammar was accepted without a diagnostic", format!("{text}\n{:?}", out.module));
            }
            rep.count(match (accepted, out.diagnostics.is_empty()) {
                (true, true) => "in_grammar_accepted", (true, false) => "in_grammar_refused", (false, false) => "outside_refused", (false, true) => "outside_accepted",
            }, 1);
            if !accepted && toks.len() > 2 { rep.eval(hash_str(&text)) } else { rep.eval_trivial() }
            rep.sample(|| text.clone());
        }
    });
    rep.finish("exploration", "token- and character-level edits of generated programs plus token soup, judged by an independent exhaustive recogniser; non-trivial: text outside the grammar with more than 2 tokens, distinct")
}
#[allow(unused)]
fn _unused() { let _ = (recog::number("1"), render::need_sep("a", "b")); }
