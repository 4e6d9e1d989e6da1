//! Formatter monitors.
use crate::lower;
use crate::syntax::{parse, random_rendered, THREADS};
use cairo_m_compiler_parser::{ParserDatabaseImpl, SourceFile};
use cairo_m_formatter::config::NewlineStyle;
use cairo_m_formatter::{format_source_file, FormatterConfig};
use hcore::ast::*;
use hcore::mutate;
use hcore::report::{catch, hash_str, parallel, Report};
use hcore::rng::Rng;

pub fn config(r: &mut Rng) -> FormatterConfig {
    if r.chance(1, 3) {
        return FormatterConfig::default();
    }
    FormatterConfig {
        max_width: *r.pick(&[0, 1, 8, 20, 40, 60, 80, 100, 120, 1000, usize::MAX]),
        indent_width: *r.pick(&[0, 1, 2, 3, 4, 8]),
        trailing_comma: r.chance(1, 2),
        newline_style: *r.pick(&[NewlineStyle::Auto, NewlineStyle::Unix, NewlineStyle::Windows]),
    }
}
pub fn format(text: &str, c: &FormatterConfig) -> String {
    let db = ParserDatabaseImpl::default();
    let f = SourceFile::new(&db, text.to_string(), "m.cm".into());
    format_source_file(&db, f, c)
}
/// Every comment of `text`, in order, without trailing blanks. The language has no string literals.
pub fn comments(text: &str) -> Vec<String> {
    text.lines().filter_map(|l| l.find("//").map(|i| l[i..].trim_end().to_string())).collect()
}
struct Case {
    m: Module,
    text: String,
    cfg: FormatterConfig,
    out: String,
}
fn case(rep: &Report, r: &mut Rng) -> Option<Case> {
    let (m, t) = random_rendered(r);
    let cfg = config(r);
    let Ok(p) = catch(|| parse(&t.text)) else { return None };
    if !p.diagnostics.is_empty() || lower::lower(&p.module) != m {
        rep.count("skipped_not_parsed_as_written", 1);
        return None;
    }
    match catch(|| format(&t.text, &cfg)) {
        Ok(out) => {
            if t.tokens.len() > 5 { rep.eval(hash_str(&t.text)) } else { rep.eval_trivial() }
            Some(Case { m, text: t.text, cfg, out })
        }
        Err(p) => {
            rep.violation(format!("formatter panicked: {p}"), format!("{cfg:?}\n{}", t.text));
            None
        }
    }
}
fn both(c: &Case) -> String { format!("{:?}\n--- before\n{}\n--- after\n{}", c.cfg, c.text, c.out) }

pub fn meaning(rep: &Report) -> i32 {
    parallel(THREADS, rep.ctx.seed ^ 6, |_, mut r| {
        while !rep.stop() {
            let Some(c) = case(rep, &mut r) else { continue };
            match catch(|| parse(&c.out)) {
                Err(p) => rep.violation(format!("formatted text panics the parser: {p}"), both(&c)),
                Ok(p) if !p.diagnostics.is_empty() => rep.violation(format!("formatted text no longer parses: {}", p.diagnostics[0]), both(&c)),
                Ok(p) => {
                    let (a, b) = (strip(&c.m), strip(&lower::lower(&p.module)));
                    if a != b {
                        rep.violation("formatted text is a different program", both(&c));
                    }
                    // every token survives: parentheses the author wrote in expressions too
                    rep.count("items_compared", a.len() as u64);
                }
            }
            rep.sample(|| c.out.clone());
        }
    });
    rep.finish("exploration", "random modules in random layouts and configurations, formatted, parsed again and compared with the model (redundant parentheses and an explicit unit return aside); non-trivial: more than 5 tokens, distinct text")
}
pub fn keep_comments(rep: &Report) -> i32 {
    parallel(THREADS, rep.ctx.seed ^ 7, |_, mut r| {
        while !rep.stop() {
            let Some(mut c) = case(rep, &mut r) else { continue };
            if r.chance(1, 60) {
                // nothing but comments and blanks
                let n = r.range(1, 4);
                c.text = (0..n).map(|_| format!("{}//{}{}", r.pick_s(&["", "  ", "\n", "\n\n"]), hcore::render::comment_body(&mut r), "\n")).collect();
                c.out = format(&c.text, &c.cfg);
                rep.count("comment_only_files", 1);
            }
            let (a, b) = (comments(&c.text), comments(&c.out));
            if a != b {
                let lost: Vec<_> = a.iter().filter(|x| !b.contains(x)).collect();
                rep.violation(format!("{} comments written, {} after formatting; lost {lost:?}", a.len(), b.len()), format!("{}\n--- comments before {a:?}\n--- comments after {b:?}", both(&c)));
            }
            rep.count("comments_followed", a.len() as u64);
            if !a.is_empty() { rep.count("texts_with_comments", 1) }
            rep.sample(|| c.text.clone());
        }
    });
    rep.finish("exploration", "random modules with line comments between any two tokens, formatted under random configurations; the sequence of comment texts before and after is compared; non-trivial: more than 5 tokens, distinct text")
}
pub fn stable(rep: &Report) -> i32 {
    parallel(THREADS, rep.ctx.seed ^ 8, |_, mut r| {
        while !rep.stop() {
            let Some(c) = case(rep, &mut r) else { continue };
            match catch(|| format(&c.out, &c.cfg)) {
                Ok(again) => {
                    if again != c.out {
                        rep.violation("formatting the formatted text changes it", format!("{}\n--- twice\n{again}", both(&c)));
                    }
                }
                Err(p) => rep.violation(format!("formatter panicked on its own output: {p}"), both(&c)),
            }
            rep.count("reformatted", 1);
            // the layout of the input does not matter
            if comments(&c.text).is_empty() {
                let t2 = hcore::render::render(&c.m, &hcore::render::Style { ws: *r.pick(&[hcore::render::Ws::Tight, hcore::render::Ws::Loose]), ..hcore::render::Style::plain() }, &mut r).text;
                let o2 = format(&t2, &c.cfg);
                if o2 != c.out {
                    rep.violation("two layouts of one program are formatted differently", format!("{}\n--- other layout\n{t2}\n--- formatted\n{o2}", both(&c)));
                }
                rep.count("layout_pairs", 1);
            }
            // text that does not parse is left alone
            let n = r.range(1, 3);
            let bad = if r.chance(1, 2) { mutate::token_edits(&c.text, n, &mut r) } else { mutate::char_edits(&c.text, n, &mut r) };
            if let Ok(p) = catch(|| parse(&bad)) {
                if !p.diagnostics.is_empty() {
                    if format(&bad, &c.cfg) != bad {
                        rep.violation("text that does not parse was changed", bad);
                    }
                    rep.count("unparsable_left_alone", 1);
                }
            }
            rep.sample(|| c.out.clone());
        }
    });
    rep.finish("exploration", "random modules formatted twice, in two layouts, and edited into unparsable text; non-trivial: more than 5 tokens, distinct text")
}
