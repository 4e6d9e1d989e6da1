//! Writes a model module as source text in many layouts and records where every construct ended up.
use crate::ast::*;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ws {
    /// One canonical-looking layout.
    Plain,
    /// Only the separators the lexer needs.
    Tight,
    /// Random blanks and newlines.
    Loose,
    /// Random blanks, newlines and line comments.
    Comments,
}
#[derive(Clone, Debug)]
pub struct Style {
    pub ws: Ws,
    /// Chance in 8 of writing an optional trailing comma.
    pub trailing: usize,
    /// Chance in 8 of writing `if`/`while` conditions without parentheses where possible.
    pub bare_cond: usize,
    /// Chance in 8 of writing numbers in another base.
    pub bases: usize,
    /// Chance in 16 of redundant parentheses in types.
    pub ty_parens: usize,
    /// Newline used in random layouts.
    pub crlf: bool,
}
impl Style {
    pub fn plain() -> Self { Style { ws: Ws::Plain, trailing: 0, bare_cond: 0, bases: 0, ty_parens: 0, crlf: false } }
    pub fn random(r: &mut Rng) -> Self {
        Style {
            ws: *r.pick(&[Ws::Plain, Ws::Tight, Ws::Loose, Ws::Comments]),
            trailing: *r.pick(&[0, 2, 8]),
            bare_cond: *r.pick(&[0, 4, 8]),
            bases: *r.pick(&[0, 2, 6]),
            ty_parens: *r.pick(&[0, 0, 3]),
            crlf: r.chance(1, 6),
        }
    }
}
/// A construct and the half-open byte range it occupies. `tol_end` is where the construct ends under
/// the known finding about call/index expressions (equal to `end` elsewhere).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Node {
    pub kind: &'static str,
    pub start: usize,
    pub end: usize,
    pub tol_end: usize,
}
pub struct Rendered {
    pub text: String,
    pub nodes: Vec<Node>,
    pub tokens: Vec<(String, usize)>,
    pub comments: usize,
}
struct W<'a> {
    r: &'a mut Rng,
    s: &'a Style,
    toks: Vec<String>,
    /// (kind, first token, last token exclusive, tolerated last token exclusive)
    nodes: Vec<(&'static str, usize, usize, usize)>,
}
const LONG_OPS: &[&str] = &["&&", "||", "==", "!=", "<=", ">=", "->", "::", "//"];
pub fn need_sep(a: &str, b: &str) -> bool {
    let w = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let (x, y) = (a.chars().last().unwrap_or(' '), b.chars().next().unwrap_or(' '));
    if w(x) && w(y) {
        return true;
    }
    let cat = format!("{a}{b}");
    LONG_OPS.iter().any(|o| o.len() > a.len() && o.starts_with(a) && cat.starts_with(o))
}
impl<'a> W<'a> {
    fn t(&mut self, s: &str) { self.toks.push(s.to_string()) }
    fn open(&mut self, kind: &'static str) -> usize {
        let n = self.toks.len();
        self.nodes.push((kind, n, n, n));
        self.nodes.len() - 1
    }
    fn close(&mut self, i: usize) {
        let n = self.toks.len();
        self.nodes[i].2 = n;
        self.nodes[i].3 = n;
    }
    fn close_tol(&mut self, i: usize, tol: usize) {
        self.nodes[i].2 = self.toks.len();
        self.nodes[i].3 = tol;
    }
    fn id(&mut self, s: &str) {
        let i = self.open("ident");
        self.t(s);
        self.close(i);
    }
    fn number(&mut self, n: u64) -> String {
        if self.r.chance(self.s.bases, 8) {
            match self.r.below(7) {
                0 => format!("0x{n:x}"),
                1 => format!("0X{n:X}"),
                2 => format!("0o{n:o}"),
                3 => format!("0O{n:o}"),
                4 => format!("0b{n:b}"),
                5 => format!("0B{n:b}"),
                _ => format!("{}{n}", "0".repeat(self.r.range(1, 4))),
            }
        } else {
            n.to_string()
        }
    }
    fn comma_end(&mut self, nonempty: bool) {
        if nonempty && self.r.chance(self.s.trailing, 8) {
            self.t(",");
        }
    }
    fn ty(&mut self, t: &Ty) {
        let paren = self.s.ty_parens > 0 && self.r.chance(self.s.ty_parens, 16);
        if paren {
            self.t("(");
        }
        self.ty0(t);
        if paren {
            self.t(")");
        }
    }
    fn ty0(&mut self, t: &Ty) {
        let i = self.open("type");
        match t {
            Ty::Felt => self.t("felt"),
            Ty::Bool => self.t("bool"),
            Ty::U32 => self.t("u32"),
            Ty::Named(n) => self.t(n),
            Ty::Ptr(x) => {
                self.ty(x);
                self.t("*");
            }
            Ty::Tuple(a) => {
                self.t("(");
                for (k, x) in a.iter().enumerate() {
                    if k > 0 {
                        self.t(",");
                    }
                    self.ty(x);
                }
                if a.len() == 1 {
                    self.t(",");
                } else {
                    self.comma_end(!a.is_empty());
                }
                self.t(")");
            }
            Ty::Array(x, n) => {
                self.t("[");
                self.ty(x);
                self.t(";");
                let j = self.open("count");
                let s = self.number(*n);
                self.t(&s);
                self.close(j);
                self.t("]");
            }
        }
        self.close(i);
    }
    fn list(&mut self, a: &[Ex]) -> usize {
        let mut tol = 0;
        for (k, x) in a.iter().enumerate() {
            if k > 0 {
                self.t(",");
            }
            tol = self.ex(x);
        }
        self.comma_end(!a.is_empty());
        tol
    }
    /// Returns the tolerated end (token index) of the expression.
    fn ex(&mut self, e: &Ex) -> usize {
        let kind = match e {
            Ex::Num(..) => "num", Ex::Bool(_) => "bool", Ex::Id(_) => "id", Ex::Un(..) => "unary", Ex::Bin(..) => "binary",
            Ex::Call(..) => "call", Ex::Member(..) => "member", Ex::Index(..) => "index", Ex::Struct(..) => "struct",
            Ex::Tuple(_) => "tuple", Ex::TupIdx(..) => "tupidx", Ex::Arr(_) => "array", Ex::Rep(..) => "repeat",
            Ex::Cast(..) => "cast", Ex::New(..) => "new", Ex::Paren(_) => "paren",
        };
        let i = self.open(kind);
        let mut tol = None;
        match e {
            Ex::Num(n, s) => {
                let mut t = self.number(*n);
                t.push_str(s.as_deref().unwrap_or(""));
                self.t(&t);
            }
            Ex::Bool(b) => self.t(if *b { "true" } else { "false" }),
            Ex::Id(s) => self.id(s),
            Ex::Un(o, x) => {
                self.t(if *o == Un::Not { "!" } else { "-" });
                tol = Some(self.ex(x));
            }
            Ex::Bin(o, l, r) => {
                self.ex(l);
                self.t(o.sym());
                tol = Some(self.ex(r));
            }
            Ex::Call(f, a) => {
                self.ex(f);
                self.t("(");
                let last = self.list(a);
                if !a.is_empty() {
                    tol = Some(last);
                }
                self.t(")");
            }
            Ex::Member(x, f) => {
                self.ex(x);
                self.t(".");
                self.id(f);
            }
            Ex::Index(x, j) => {
                self.ex(x);
                self.t("[");
                tol = Some(self.ex(j));
                self.t("]");
            }
            Ex::Struct(n, fs) => {
                self.id(n);
                self.t("{");
                for (k, (f, v)) in fs.iter().enumerate() {
                    if k > 0 {
                        self.t(",");
                    }
                    self.id(f);
                    self.t(":");
                    self.ex(v);
                }
                self.comma_end(!fs.is_empty());
                self.t("}");
            }
            Ex::Tuple(a) => {
                self.t("(");
                if a.len() == 1 {
                    self.ex(&a[0]);
                    self.t(",");
                } else {
                    self.list(a);
                }
                self.t(")");
            }
            Ex::TupIdx(x, n) => {
                self.ex(x);
                self.t(".");
                let s = self.number(*n);
                self.t(&s);
            }
            Ex::Arr(a) => {
                self.t("[");
                self.list(a);
                self.t("]");
            }
            Ex::Rep(x, n) => {
                self.t("[");
                self.ex(x);
                self.t(";");
                let j = self.open("count");
                let s = self.number(*n);
                self.t(&s);
                self.close(j);
                self.t("]");
            }
            Ex::Cast(x, t) => {
                self.ex(x);
                self.t("as");
                self.ty0(t);
            }
            Ex::New(t, n) => {
                self.t("new");
                self.ty(t);
                self.t("[");
                self.ex(n);
                self.t("]");
            }
            Ex::Paren(x) => {
                self.t("(");
                self.ex(x);
                self.t(")");
            }
        }
        match tol {
            Some(t) => self.close_tol(i, t),
            None => self.close(i),
        }
        self.nodes[i].3
    }
    fn pat(&mut self, p: &Pat) {
        match p {
            Pat::Id(s) => self.id(s),
            Pat::Tuple(a) => {
                self.t("(");
                for (k, x) in a.iter().enumerate() {
                    if k > 0 {
                        self.t(",");
                    }
                    self.pat(x);
                }
                self.t(")");
            }
        }
    }
    fn cond(&mut self, c: &Ex, body: &St) {
        fn ends_in_id(e: &Ex) -> bool {
            match e {
                Ex::Id(_) => true,
                Ex::Un(_, x) | Ex::Bin(_, _, x) => ends_in_id(x),
                _ => false,
            }
        }
        let block_empty = matches!(body, St::Block(b) if b.is_empty());
        // `(a)(b) {..}` and `(a)[b] {..}`: the parenthesized form of the condition wins
        fn starts_paren_postfix(e: &Ex) -> bool {
            match e {
                Ex::Call(x, _) | Ex::Index(x, _) => matches!(&**x, Ex::Paren(_)) || starts_paren_postfix(x),
                Ex::Bin(_, x, _) | Ex::Member(x, _) | Ex::TupIdx(x, _) | Ex::Cast(x, _) => starts_paren_postfix(x),
                _ => false,
            }
        }
        let can_bare = !starts_paren_postfix(c) && matches!(body, St::Block(_)) && !matches!(c, Ex::Paren(_)) && !(block_empty && ends_in_id(c));
        if can_bare && self.r.chance(self.s.bare_cond, 8) {
            self.ex(c);
        } else {
            self.t("(");
            self.ex(c);
            self.t(")");
        }
    }
    fn simple(&mut self, s: &St) {
        match s {
            St::Assign(l, r) => {
                self.ex(l);
                self.t("=");
                self.ex(r);
            }
            St::Expr(e) => {
                self.ex(e);
            }
            _ => unreachable!(),
        }
    }
    fn st(&mut self, s: &St) { self.st_(s, true) }
    fn st_(&mut self, s: &St, semi: bool) {
        let i = self.open("stmt");
        match s {
            St::Let(p, t, e) => {
                self.t("let");
                self.pat(p);
                if let Some(t) = t {
                    self.t(":");
                    self.ty(t);
                }
                self.t("=");
                self.ex(e);
                self.t(";");
            }
            St::Const(n, t, e) => {
                self.t("const");
                self.id(n);
                if let Some(t) = t {
                    self.t(":");
                    self.ty(t);
                }
                self.t("=");
                self.ex(e);
                self.t(";");
            }
            St::Assign(..) | St::Expr(_) => {
                self.simple(s);
                if semi {
                    self.t(";");
                }
            }
            St::Return(e) => {
                self.t("return");
                if let Some(e) = e {
                    self.ex(e);
                }
                self.t(";");
            }
            St::If(c, b, e) => {
                self.t("if");
                self.cond(c, b);
                self.st(b);
                if let Some(e) = e {
                    self.t("else");
                    self.st(e);
                }
            }
            St::Block(b) => {
                self.t("{");
                b.iter().for_each(|s| self.st(s));
                self.t("}");
            }
            St::Loop(b) => {
                self.t("loop");
                self.st(b);
            }
            St::While(c, b) => {
                self.t("while");
                self.cond(c, b);
                self.st(b);
            }
            St::For(a, c, s, b) => {
                self.t("for");
                self.t("(");
                self.st(a);
                self.ex(c);
                self.t(";");
                self.st_(s, false);
                self.t(")");
                self.st(b);
            }
            St::Break => {
                self.t("break");
                self.t(";");
            }
            St::Continue => {
                self.t("continue");
                self.t(";");
            }
        }
        if semi {
            self.close(i);
        } else {
            // the step of a `for`: exactly its tokens
            self.close(i);
        }
    }
    fn item(&mut self, it: &Item) {
        let i = self.open("item");
        match it {
            Item::Fn(f) => {
                self.t("fn");
                self.id(&f.name);
                self.t("(");
                for (k, (n, t)) in f.params.iter().enumerate() {
                    if k > 0 {
                        self.t(",");
                    }
                    self.id(n);
                    self.t(":");
                    self.ty(t);
                }
                self.comma_end(!f.params.is_empty());
                self.t(")");
                if let Some(t) = &f.ret {
                    self.t("->");
                    self.ty(t);
                }
                self.t("{");
                f.body.iter().for_each(|s| self.st(s));
                self.t("}");
            }
            Item::Struct(n, fs) => {
                self.t("struct");
                self.id(n);
                self.t("{");
                for (k, (n, t)) in fs.iter().enumerate() {
                    if k > 0 {
                        self.t(",");
                    }
                    self.id(n);
                    self.t(":");
                    self.ty(t);
                }
                self.comma_end(!fs.is_empty());
                self.t("}");
            }
            Item::Const(n, t, e) => {
                self.t("const");
                self.id(n);
                if let Some(t) = t {
                    self.t(":");
                    self.ty(t);
                }
                self.t("=");
                self.ex(e);
                self.t(";");
            }
            Item::Use(p, items) => {
                self.t("use");
                for (k, s) in p.iter().enumerate() {
                    if k > 0 {
                        self.t("::");
                    }
                    self.id(s);
                }
                if !p.is_empty() {
                    self.t("::");
                }
                match items {
                    UseItems::Single(s) => self.id(s),
                    UseItems::List(l) => {
                        self.t("{");
                        for (k, s) in l.iter().enumerate() {
                            if k > 0 {
                                self.t(",");
                            }
                            self.id(s);
                        }
                        self.comma_end(!l.is_empty());
                        self.t("}");
                    }
                }
                self.t(";");
            }
        }
        self.close(i);
    }
}
const COMMENT_BODIES: &[&str] = &[
    "", " plain comment", "/ doc", "// nested", " }", " let x = 1;", " fn f() {", " é ü 漢字 🦀", " \" ' `", "\t tab", " a, b, c)", "*/ /*",
    " 0x12", " trailing blanks   ",
];
pub fn comment_body(r: &mut Rng) -> String { r.pick_s(COMMENT_BODIES) }

pub fn render(m: &Module, s: &Style, r: &mut Rng) -> Rendered {
    let mut w = W { r, s, toks: vec![], nodes: vec![] };
    for i in m {
        w.item(i);
    }
    let (toks, nodes) = (w.toks, w.nodes);
    let r = w.r;
    let mut text = String::new();
    let mut pos: Vec<(usize, usize)> = Vec::with_capacity(toks.len());
    let mut comments = 0;
    let nl = if s.crlf { "\r\n" } else { "\n" };
    let mut depth = 0usize;
    let mut trivia = |text: &mut String, r: &mut Rng, a: &str, b: &str, comments: &mut usize| {
        let need = need_sep(a, b);
        match s.ws {
            Ws::Tight => {
                if need {
                    text.push(' ');
                }
            }
            Ws::Plain => {
                if b == "}" {
                    depth = depth.saturating_sub(1);
                }
                if a == "{" {
                    depth += 1;
                }
                if a == "{" || a == ";" || a == "}" || b == "}" {
                    if !a.is_empty() {
                        text.push('\n');
                        text.push_str(&"    ".repeat(depth));
                    }
                } else if need || !(b == ";" || b == "," || a == "(" || b == ")" || a == "[" || b == "]" || b == "(" || b == "[" || a == "." || b == "." || a == "!" || a.is_empty()) {
                    text.push(' ');
                }
            }
            Ws::Loose | Ws::Comments => {
                let n = if r.chance(1, 2) { usize::from(need) } else { r.below(4).max(usize::from(need)) };
                let mut wrote = false;
                for _ in 0..n {
                    match r.below(8) {
                        0 => text.push_str(nl),
                        1 => text.push('\t'),
                        2 if s.ws == Ws::Comments => {
                            text.push_str("//");
                            text.push_str(&comment_body(r));
                            text.push_str(nl);
                            *comments += 1;
                        }
                        _ => text.push(' '),
                    }
                    wrote = true;
                }
                let _ = wrote;
            }
        }
    };
    let mut prev = String::new();
    for t in &toks {
        // a comment directly after `/` would change the token
        let before = text.len();
        trivia(&mut text, r, &prev, t, &mut comments);
        if prev == "/" && text[before..].starts_with("//") {
            text.insert(before, ' ');
        }
        let p = text.len();
        text.push_str(t);
        pos.push((p, text.len()));
        prev = t.clone();
    }
    trivia(&mut text, r, "", "", &mut comments);
    if s.ws == Ws::Comments && r.chance(1, 4) {
        text.push_str("// last line without newline");
        comments += 1;
    }
    let nodes = nodes
        .into_iter()
        .map(|(kind, a, b, tol)| Node { kind, start: pos[a].0, end: pos[b - 1].1, tol_end: pos[tol - 1].1 })
        .collect();
    Rendered { text, nodes, tokens: toks.into_iter().zip(pos).map(|(t, p)| (t, p.0)).collect(), comments }
}
