//! Independent lexer and context-free recogniser for the Cairo-M surface syntax. The recogniser
//! explores every derivation (sets of end positions), so it over-approximates any deterministic
//! parser of the same grammar: text it refuses is outside the language.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tk {
    /// Value and suffix (`felt` or `u32`).
    Num(u64, Option<String>),
    /// A number lexeme that denotes nothing (bad digits, too large, unknown suffix).
    BadNum,
    Id(String),
    Kw(String),
    Op(&'static str),
    /// A character no token starts with.
    Bad,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub t: Tk,
    pub start: usize,
    pub end: usize,
}
pub const KEYWORDS: &[&str] = &[
    "as", "const", "else", "false", "fn", "if", "let", "new", "return", "struct", "true", "while", "loop", "for", "in", "break",
    "continue", "use",
];
pub const OPS: &[&str] = &[
    "&&", "||", "==", "!=", "<=", ">=", "->", "::", "!", "&", "|", "^", "=", "<", ">", "+", "-", "*", "/", "%", "(", ")", "{", "}",
    "[", "]", ".", ",", ":", ";",
];
pub fn number(lexeme: &str) -> Tk {
    let lower = lexeme.to_ascii_lowercase();
    let (body, base) = match lower.get(..2) {
        Some("0x") => (&lexeme[2..], 16),
        Some("0o") => (&lexeme[2..], 8),
        Some("0b") => (&lexeme[2..], 2),
        _ => (lexeme, 10),
    };
    let (digits, suffix) = if let Some(d) = body.strip_suffix("felt") {
        (d, Some("felt".to_string()))
    } else if let Some(d) = body.strip_suffix("u32") {
        (d, Some("u32".to_string()))
    } else {
        (body, None)
    };
    if digits.is_empty() {
        return Tk::BadNum;
    }
    let mut v: u128 = 0;
    for c in digits.chars() {
        match c.to_digit(base) {
            Some(d) => v = (v * base as u128 + d as u128).min(1 << 80),
            None => return Tk::BadNum,
        }
    }
    if v > u64::MAX as u128 { Tk::BadNum } else { Tk::Num(v as u64, suffix) }
}
pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if matches!(c, b' ' | b'\t' | b'\n' | b'\r') {
            i += 1;
            continue;
        }
        if s[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        let start = i;
        if c.is_ascii_alphanumeric() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let w = &s[start..i];
            let t = if c.is_ascii_digit() {
                number(w)
            } else if KEYWORDS.contains(&w) {
                Tk::Kw(w.to_string())
            } else {
                Tk::Id(w.to_string())
            };
            out.push(Tok { t, start, end: i });
        } else if let Some(o) = OPS.iter().find(|o| s[i..].starts_with(**o)) {
            i += o.len();
            out.push(Tok { t: Tk::Op(o), start, end: i });
        } else {
            i += s[i..].chars().next().unwrap().len_utf8();
            out.push(Tok { t: Tk::Bad, start, end: i });
        }
    }
    out
}
type Ends = Rc<Vec<usize>>;
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Nt { Ty, AllocTy, Ex, Operand, Atom, St, Stmts, Pat }
pub struct Recog<'a> {
    t: &'a [Tok],
    memo: HashMap<(Nt, usize), Ends>,
}
fn uniq(mut v: Vec<usize>) -> Vec<usize> {
    v.sort_unstable();
    v.dedup();
    v
}
impl<'a> Recog<'a> {
    pub fn accepts(t: &'a [Tok]) -> bool {
        if t.iter().any(|t| matches!(t.t, Tk::Bad | Tk::BadNum)) {
            return false;
        }
        let mut r = Recog { t, memo: HashMap::new() };
        let mut seen = vec![false; t.len() + 1];
        let mut work = vec![0];
        while let Some(p) = work.pop() {
            if p == t.len() {
                return true;
            }
            if std::mem::replace(&mut seen[p], true) {
                continue;
            }
            work.extend(r.item(p));
        }
        t.is_empty()
    }
    fn is(&self, p: usize, s: &str) -> bool {
        match self.t.get(p).map(|t| &t.t) {
            Some(Tk::Kw(k)) => k == s,
            Some(Tk::Op(o)) => *o == s,
            _ => false,
        }
    }
    fn eat(&self, ps: &[usize], s: &str) -> Vec<usize> { ps.iter().filter(|p| self.is(**p, s)).map(|p| p + 1).collect() }
    fn id(&self, ps: &[usize]) -> Vec<usize> {
        ps.iter().filter(|p| matches!(self.t.get(**p).map(|t| &t.t), Some(Tk::Id(_)))).map(|p| p + 1).collect()
    }
    fn plain_num(&self, ps: &[usize]) -> Vec<usize> {
        ps.iter().filter(|p| matches!(self.t.get(**p).map(|t| &t.t), Some(Tk::Num(_, None)))).map(|p| p + 1).collect()
    }
    fn nt(&mut self, n: Nt, ps: &[usize]) -> Vec<usize> {
        let mut out = vec![];
        for &p in ps {
            out.extend(self.nt1(n, p).iter().copied());
        }
        uniq(out)
    }
    fn nt1(&mut self, n: Nt, p: usize) -> Ends {
        if let Some(e) = self.memo.get(&(n, p)) {
            return e.clone();
        }
        let v = match n {
            Nt::Ty => self.ty(p, Nt::Ty),
            Nt::AllocTy => self.ty(p, Nt::AllocTy),
            Nt::Ex => self.ex(p),
            Nt::Operand => self.operand(p),
            Nt::Atom => self.atom(p),
            Nt::St => self.st(p),
            Nt::Stmts => self.stmts(p),
            Nt::Pat => self.pat(p),
        };
        let e = Rc::new(uniq(v));
        self.memo.insert((n, p), e.clone());
        e
    }
    /// `x (, x)* ,?` or nothing, then `close`.
    fn list(&mut self, ps: Vec<usize>, mut x: impl FnMut(&mut Self, &[usize]) -> Vec<usize>, trailing: bool, close: &str) -> Vec<usize> {
        let mut out = self.eat(&ps, close);
        let mut cur = x(self, &ps);
        while !cur.is_empty() {
            out.extend(self.eat(&cur, close));
            let c = self.eat(&cur, ",");
            if trailing {
                out.extend(self.eat(&c, close));
            }
            cur = x(self, &c);
        }
        uniq(out)
    }
    fn ty(&mut self, p: usize, n: Nt) -> Vec<usize> {
        let mut base = self.id(&[p]);
        let o = self.eat(&[p], "(");
        if !o.is_empty() {
            // `(,)` is read as the empty tuple by this grammar
            let c = self.eat(&o, ",");
            base.extend(self.eat(&c, ")"));
            base.extend(self.list(o, |r, ps| r.nt(n, ps), true, ")"));
        }
        if n == Nt::Ty {
            let o = self.eat(&[p], "[");
            let t = self.nt(Nt::Ty, &o);
            let s = self.eat(&t, ";");
            let k = self.plain_num(&s);
            base.extend(self.eat(&k, "]"));
        }
        let mut all = base.clone();
        let mut cur = base;
        loop {
            cur = self.eat(&cur, "*");
            if cur.is_empty() {
                return all;
            }
            all.extend(&cur);
        }
    }
    fn atom(&mut self, p: usize) -> Vec<usize> {
        let mut out = vec![];
        match self.t.get(p).map(|t| t.t.clone()) {
            Some(Tk::Num(..)) => out.push(p + 1),
            Some(Tk::Kw(k)) if k == "true" || k == "false" => out.push(p + 1),
            Some(Tk::Kw(k)) if k == "new" => {
                let t = self.nt(Nt::AllocTy, &[p + 1]);
                let o = self.eat(&t, "[");
                let e = self.nt(Nt::Ex, &o);
                out = self.eat(&e, "]");
            }
            Some(Tk::Id(_)) => {
                out.push(p + 1);
                let o = self.eat(&[p + 1], "{");
                out.extend(self.list(
                    o,
                    |r, ps| {
                        let i = r.id(ps);
                        let c = r.eat(&i, ":");
                        r.nt(Nt::Ex, &c)
                    },
                    true,
                    "}",
                ));
            }
            Some(Tk::Op("[")) => {
                out = self.list(vec![p + 1], |r, ps| r.nt(Nt::Ex, ps), true, "]");
                let e = self.nt(Nt::Ex, &[p + 1]);
                let s = self.eat(&e, ";");
                let k = self.plain_num(&s);
                out.extend(self.eat(&k, "]"));
            }
            Some(Tk::Op("(")) => out = self.list(vec![p + 1], |r, ps| r.nt(Nt::Ex, ps), true, ")"),
            _ => {}
        }
        out
    }
    fn operand(&mut self, mut p: usize) -> Vec<usize> {
        while self.is(p, "!") || self.is(p, "-") {
            p += 1;
        }
        let mut all = vec![];
        let mut cur = self.nt(Nt::Atom, &[p]);
        while !cur.is_empty() {
            all.extend(&cur);
            let mut next = vec![];
            let d = self.eat(&cur, ".");
            next.extend(self.id(&d));
            next.extend(self.plain_num(&d));
            let o = self.eat(&cur, "(");
            next.extend(self.list(o, |r, ps| r.nt(Nt::Ex, ps), true, ")"));
            let o = self.eat(&cur, "[");
            let e = self.nt(Nt::Ex, &o);
            next.extend(self.eat(&e, "]"));
            next.retain(|x| !all.contains(x));
            cur = uniq(next);
        }
        let mut cur = uniq(all.clone());
        while !cur.is_empty() {
            let a = self.eat(&cur, "as");
            cur = self.id(&a);
            cur.retain(|x| !all.contains(x));
            all.extend(&cur);
        }
        all
    }
    fn ex(&mut self, p: usize) -> Vec<usize> {
        let mut all: Vec<usize> = vec![];
        let mut cur = self.nt(Nt::Operand, &[p]);
        while !cur.is_empty() {
            all.extend(&cur);
            let mut o = vec![];
            for b in crate::ast::ALL_BIN {
                o.extend(self.eat(&cur, b.sym()));
            }
            let o = uniq(o);
            cur = self.nt(Nt::Operand, &o);
            cur.retain(|x| !all.contains(x));
        }
        all
    }
    fn pat(&mut self, p: usize) -> Vec<usize> {
        let mut out = self.id(&[p]);
        let o = self.eat(&[p], "(");
        let first = self.nt(Nt::Pat, &o);
        let mut cur = self.eat(&first, ",");
        while !cur.is_empty() {
            let x = self.nt(Nt::Pat, &cur);
            out.extend(self.eat(&x, ")"));
            cur = self.eat(&x, ",");
        }
        out
    }
    fn annotated(&mut self, ps: Vec<usize>) -> Vec<usize> {
        let c = self.eat(&ps, ":");
        let mut t = self.nt(Nt::Ty, &c);
        t.extend(ps);
        let e = self.eat(&t, "=");
        let v = self.nt(Nt::Ex, &e);
        self.eat(&v, ";")
    }
    /// Assignment or expression, without the semicolon.
    fn simple(&mut self, p: &[usize]) -> Vec<usize> {
        let mut e = self.nt(Nt::Ex, p);
        let q = self.eat(&e, "=");
        e.extend(self.nt(Nt::Ex, &q));
        uniq(e)
    }
    fn stmts(&mut self, p: usize) -> Vec<usize> {
        let mut all = vec![p];
        let mut cur = vec![p];
        while !cur.is_empty() {
            cur = self.nt(Nt::St, &cur);
            cur.retain(|x| !all.contains(x));
            all.extend(&cur);
        }
        all
    }
    fn st(&mut self, p: usize) -> Vec<usize> {
        let q = vec![p + 1];
        let kw = match self.t.get(p).map(|t| t.t.clone()) {
            Some(Tk::Kw(k)) => k,
            Some(Tk::Op("{")) => "{".into(),
            Some(_) => String::new(),
            None => return vec![],
        };
        match kw.as_str() {
            "{" => {
                let s = self.nt(Nt::Stmts, &q);
                self.eat(&s, "}")
            }
            "let" => {
                let x = self.nt(Nt::Pat, &q);
                self.annotated(x)
            }
            "const" => {
                let x = self.id(&q);
                self.annotated(x)
            }
            "return" => {
                let mut e = self.nt(Nt::Ex, &q);
                e.extend(q);
                self.eat(&e, ";")
            }
            "break" | "continue" => self.eat(&q, ";"),
            "loop" => self.nt(Nt::St, &q),
            "while" => {
                let c = self.nt(Nt::Ex, &q);
                self.nt(Nt::St, &c)
            }
            "if" => {
                let c = self.nt(Nt::Ex, &q);
                let mut b = self.nt(Nt::St, &c);
                let e = self.eat(&b, "else");
                b.extend(self.nt(Nt::St, &e));
                b
            }
            "for" => {
                let o = self.eat(&q, "(");
                let mut init = vec![];
                let l = self.eat(&o, "let");
                let x = self.nt(Nt::Pat, &l);
                init.extend(self.annotated(x));
                let s = self.simple(&o);
                init.extend(self.eat(&s, ";"));
                let c = self.nt(Nt::Ex, &uniq(init));
                let c = self.eat(&c, ";");
                let s = self.simple(&c);
                let s = self.eat(&s, ")");
                self.nt(Nt::St, &s)
            }
            _ => {
                let s = self.simple(&[p]);
                self.eat(&s, ";")
            }
        }
    }
    fn field(&mut self, ps: &[usize]) -> Vec<usize> {
        let i = self.id(ps);
        let c = self.eat(&i, ":");
        self.nt(Nt::Ty, &c)
    }
    fn item(&mut self, p: usize) -> Vec<usize> {
        let q = vec![p + 1];
        if self.is(p, "fn") {
            let n = self.id(&q);
            let o = self.eat(&n, "(");
            let mut a = self.list(o, |r, ps| r.field(ps), true, ")");
            let r = self.eat(&a, "->");
            a.extend(self.nt(Nt::Ty, &r));
            let b = self.eat(&a, "{");
            let s = self.nt(Nt::Stmts, &b);
            self.eat(&s, "}")
        } else if self.is(p, "struct") {
            let n = self.id(&q);
            let o = self.eat(&n, "{");
            self.list(o, |r, ps| r.field(ps), true, "}")
        } else if self.is(p, "const") {
            let n = self.id(&q);
            self.annotated(n)
        } else if self.is(p, "use") {
            let mut out = vec![];
            let mut cur = self.id(&q);
            while !cur.is_empty() {
                out.extend(self.eat(&cur, ";"));
                let c = self.eat(&cur, "::");
                let o = self.eat(&c, "{");
                let l = self.list(o, |r, ps| r.id(ps), true, "}");
                out.extend(self.eat(&l, ";"));
                cur = self.id(&c);
            }
            out
        } else {
            vec![]
        }
    }
}
