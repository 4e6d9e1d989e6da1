//! Text and token level mutations that turn programs into near-programs.
use crate::recog::{lex, KEYWORDS, OPS};
use crate::rng::Rng;

const EXTRA: &[&str] = &["x", "foo", "0", "1", "42felt", "7u32", "0x1F", "felt", "u32", "bool", "Point", "()", "[]", "{}", "1foo", "0b2", "99999999999999999999"];
pub fn token(r: &mut Rng) -> String {
    match r.below(5) {
        0 => r.pick_s(KEYWORDS),
        1 | 2 => r.pick_s(OPS),
        _ => r.pick_s(EXTRA),
    }
}
/// Applies `n` random token edits, keeping the text between the other tokens.
pub fn token_edits(text: &str, n: usize, r: &mut Rng) -> String {
    let mut parts: Vec<String> = vec![];
    let toks = lex(text);
    let mut p = 0;
    for t in &toks {
        parts.push(text[p..t.end].to_string());
        p = t.end;
    }
    let tail = &text[p..];
    let word = |s: &String| s.trim_start().to_string();
    for _ in 0..n {
        let k = parts.len();
        match r.below(6) {
            0 if k > 0 => {
                parts.remove(r.below(k));
            }
            1 if k > 0 => {
                let i = r.below(k);
                let w = format!(" {} ", word(&parts[i]));
                parts.insert(i, w);
            }
            2 if k > 1 => {
                let (i, j) = (r.below(k), r.below(k));
                parts.swap(i, j);
                parts[i].push(' ');
                parts[j].push(' ');
            }
            3 => parts.insert(r.below(k + 1), format!(" {} ", token(r))),
            4 if k > 0 => {
                let i = r.below(k);
                parts[i] = format!(" {} ", token(r));
            }
            _ if k > 1 => {
                let i = r.below(k - 1);
                parts.swap(i, i + 1);
                parts[i].push(' ');
                parts[i + 1].push(' ');
            }
            _ => {}
        }
    }
    let mut s: String = parts.concat();
    s.push_str(tail);
    s
}
pub const ODD: &[&str] = &[
    "\0", "\u{feff}", "é", "漢", "🦀", "\u{200b}", "\u{85}", "\u{a0}", "#", "@", "$", "~", "`", "\"", "'", "\\", "?", "\u{c}", "\u{b}",
    "\r", "\r\n", "/", "//", "/*", "*/", "\u{2028}", "ſ", "K",
];
pub fn char_edits(text: &str, n: usize, r: &mut Rng) -> String {
    let mut cs: Vec<String> = text.chars().map(String::from).collect();
    for _ in 0..n {
        let k = cs.len();
        match r.below(5) {
            0 if k > 0 => {
                cs.remove(r.below(k));
            }
            1 => cs.insert(r.below(k + 1), r.pick_s(ODD)),
            2 => cs.insert(r.below(k + 1), ((32 + r.below(95)) as u8 as char).to_string()),
            3 if k > 0 => {
                let i = r.below(k);
                cs.truncate(i);
            }
            _ if k > 0 => {
                let (a, b) = (r.below(k), r.below(k));
                let (a, b) = (a.min(b), a.max(b).min(a.min(b) + 40));
                let piece: Vec<String> = cs[a..b].to_vec();
                let at = r.below(k + 1);
                cs.splice(at..at, piece);
            }
            _ => {}
        }
    }
    cs.concat()
}
pub fn soup(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| {
        let mut t = token(r);
        if !r.chance(1, 8) {
            t.push(' ');
        }
        t
    }).collect()
}
pub fn bytes(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| match r.below(4) {
        0 => r.pick_s(ODD),
        1 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x').to_string(),
        _ => ((r.below(128)) as u8 as char).to_string(),
    }).collect()
}
