//! One mistake planted in a well-typed program, with where it must be reported and under which code.
use crate::ast::*;
use crate::refsem::{self, DefKind, Sem};
use crate::rng::Rng;
use crate::semcase::Case;
use crate::walk::{walk, Slot};

pub struct Seeded {
    pub mods: Vec<(String, Module)>,
    pub what: String,
    /// Any of these codes.
    pub codes: &'static [&'static str],
    pub module: usize,
    /// Node, in the program with the mistake, that holds the report.
    pub region: usize,
    /// Every error lies in this item of the module.
    pub local: Option<usize>,
}
const MM: &[&str] = &["TypeMismatch", "InvalidTypeDefinition"];
#[derive(Clone, Copy, Debug)]
enum Ctx {
    Own(&'static [&'static str], &'static str),
    At(usize, &'static [&'static str], &'static str),
}
#[derive(Clone, Debug)]
enum Site {
    /// An expression whose type is fixed by its context.
    Value { node: usize, region: usize, codes: &'static [&'static str], ctx: &'static str },
    /// The object of a member access, index or tuple index.
    Object { node: usize, region: usize, codes: &'static [&'static str] },
    /// The value of a tuple pattern without annotation.
    PatValue { node: usize },
    Call { node: usize, builtin: bool },
    Member { node: usize },
    Lit { node: usize },
    StructLit { node: usize },
    TupIdx { node: usize, obj: usize },
    Index { node: usize, obj: usize, ix: usize },
    Arr { node: usize },
    AnnotatedLit { node: usize },
    Target { node: usize, stmt: usize },
    Return { stmt: usize },
    Pattern { stmt: usize },
    Seq { at: usize, kids: Vec<usize>, in_loop: bool },
    ArrTy { node: usize },
}
struct S {
    node: usize,
    item: usize,
    out: Vec<(usize, Site)>,
    loops: usize,
}
/// Whether the checker gives `e` its type without looking at its context.
fn typed(e: &Ex) -> bool {
    match e {
        Ex::Num(_, s) => s.as_deref().is_some_and(|s| !s.ends_with('?')),
        Ex::Bin(o, x, y) => matches!(o, Bin::Eq | Bin::Neq | Bin::Lt | Bin::Gt | Bin::Le | Bin::Ge | Bin::And | Bin::Or) || typed(x) && typed(y),
        Ex::Un(o, x) => *o == Un::Not || typed(x),
        Ex::Paren(x) | Ex::Rep(x, _) => typed(x),
        Ex::Tuple(a) | Ex::Arr(a) => a.iter().all(typed),
        _ => true,
    }
}
impl S {
    fn open(&mut self) -> usize {
        self.node += 1;
        self.node - 1
    }
    fn push(&mut self, s: Site) { self.out.push((self.item, s)) }
    fn ty(&mut self, t: &Ty) {
        let n = self.open();
        match t {
            Ty::Ptr(x) => self.ty(x),
            Ty::Tuple(a) => a.iter().for_each(|x| self.ty(x)),
            Ty::Array(x, _) => {
                self.ty(x);
                self.open();
                self.push(Site::ArrTy { node: n });
            }
            _ => {}
        }
    }
    fn ex(&mut self, e: &Ex, ctx: Option<Ctx>) {
        let n = self.open();
        let ctx = ctx.map(|c| match c { Ctx::Own(codes, k) => Ctx::At(n, codes, k), c => c });
        if let Some(Ctx::At(region, codes, k)) = ctx { self.push(Site::Value { node: n, region, codes, ctx: k }) }
        match e {
            Ex::Num(..) => self.push(Site::Lit { node: n }),
            Ex::Bool(_) => {}
            Ex::Id(_) => { self.open(); }
            Ex::Un(o, x) => self.ex(x, Some(Ctx::At(n, MM, if *o == Un::Neg { "negated" } else { "unary operand" }))),
            Ex::Paren(x) => self.ex(x, ctx),
            Ex::TupIdx(x, _) => {
                let obj = self.node;
                self.push(Site::Object { node: obj, region: n, codes: &["InvalidTupleIndexAccess"] });
                self.push(Site::TupIdx { node: n, obj });
                self.ex(x, None);
            }
            Ex::Bin(_, x, y) => {
                self.ex(x, typed(y).then_some(Ctx::At(n, MM, "left operand")));
                self.ex(y, typed(x).then_some(Ctx::At(n, MM, "right operand")));
            }
            Ex::Index(x, i) => {
                let obj = self.node;
                self.push(Site::Object { node: obj, region: n, codes: &["InvalidIndexAccess"] });
                self.ex(x, None);
                let ix = self.node;
                self.push(Site::Index { node: n, obj, ix });
                self.ex(i, Some(Ctx::Own(&["InvalidIndexType"], "index")));
            }
            Ex::Call(f, a) => {
                let builtin = matches!(&**f, Ex::Id(s) if s == "assert");
                self.push(Site::Call { node: n, builtin });
                self.ex(f, None);
                for x in a { self.ex(x, Some(Ctx::Own(MM, if builtin { "assert argument" } else { "argument" }))) }
            }
            Ex::Member(x, _) => {
                self.push(Site::Object { node: self.node, region: n, codes: &["InvalidFieldAccess"] });
                self.push(Site::Member { node: n });
                self.ex(x, None);
                self.open();
            }
            Ex::Struct(_, fs) => {
                self.push(Site::StructLit { node: n });
                self.open();
                for (_, x) in fs {
                    self.open();
                    self.ex(x, Some(Ctx::Own(MM, "field value")));
                }
            }
            Ex::Tuple(a) => for x in a { self.ex(x, ctx) },
            Ex::Arr(a) => {
                self.push(Site::Arr { node: n });
                for (i, x) in a.iter().enumerate() {
                    let alone = (a.len() > 1 && a.iter().enumerate().all(|(j, y)| i == j || typed(y))).then_some(Ctx::At(n, MM, "array element"));
                    self.ex(x, ctx.or(alone));
                }
            }
            Ex::Rep(x, _) => { self.ex(x, ctx); self.open(); }
            Ex::Cast(x, t) => { self.ex(x, Some(Ctx::Own(MM, "cast"))); self.ty(t) }
            Ex::New(t, k) => { self.ty(t); self.ex(k, Some(Ctx::Own(MM, "new count"))) }
        }
    }
    fn pat(&mut self, p: &Pat) {
        match p { Pat::Id(_) => { self.open(); } Pat::Tuple(a) => for x in a { self.pat(x) } }
    }
    fn seq(&mut self, b: &[St]) {
        let at = self.node;
        let mut kids = vec![];
        for s in b {
            kids.push(self.node);
            self.st(s);
        }
        kids.push(self.node);
        let in_loop = self.loops > 0;
        self.push(Site::Seq { at, kids, in_loop });
    }
    fn st(&mut self, s: &St) {
        let n = self.open();
        match s {
            St::Let(p, t, e) => {
                self.pat(p);
                if matches!(p, Pat::Tuple(_)) {
                    self.push(Site::Pattern { stmt: n });
                }
                if let Some(t) = t { self.ty(t) }
                if matches!((t, e, p), (Some(Ty::Felt | Ty::U32), Ex::Num(..), Pat::Id(_))) { self.push(Site::AnnotatedLit { node: self.node }) }
                if t.is_none() && matches!(p, Pat::Tuple(_)) { self.push(Site::PatValue { node: self.node }) }
                self.ex(e, t.as_ref().map(|_| Ctx::Own(MM, "annotated let")));
            }
            St::Const(_, t, e) => {
                self.open();
                if let Some(t) = t { self.ty(t) }
                if matches!((t, e), (Some(Ty::Felt | Ty::U32), Ex::Num(..))) { self.push(Site::AnnotatedLit { node: self.node }) }
                self.ex(e, t.as_ref().map(|_| Ctx::Own(MM, "annotated const")));
            }
            St::Assign(l, r) => {
                self.push(Site::Target { node: self.node, stmt: n });
                self.ex(l, None);
                self.ex(r, Some(Ctx::Own(MM, "assigned value")));
            }
            St::Return(e) => {
                self.push(Site::Return { stmt: n });
                if let Some(e) = e { self.ex(e, Some(Ctx::Own(MM, "returned value"))) }
            }
            St::If(c, t, e) => {
                self.ex(c, Some(Ctx::Own(MM, "if condition")));
                self.st(t);
                if let Some(e) = e { self.st(e) }
            }
            St::Expr(e) => self.ex(e, None),
            St::Block(b) => self.seq(b),
            St::Loop(b) => { self.loops += 1; self.st(b); self.loops -= 1 }
            St::While(c, b) => {
                self.ex(c, Some(Ctx::Own(MM, "while condition")));
                self.loops += 1;
                self.st(b);
                self.loops -= 1;
            }
            St::For(i, c, st, b) => {
                self.st(i);
                self.ex(c, Some(Ctx::Own(MM, "for condition")));
                self.loops += 1;
                self.st(st);
                self.st(b);
                self.loops -= 1;
            }
            St::Break | St::Continue => {}
        }
    }
    fn item(&mut self, it: &Item) {
        self.open();
        match it {
            Item::Fn(f) => {
                self.open();
                for (_, t) in &f.params { self.open(); self.ty(t) }
                if let Some(t) = &f.ret { self.ty(t) }
                self.seq(&f.body);
            }
            Item::Struct(_, fs) => { self.open(); for (_, t) in fs { self.open(); self.ty(t) } }
            Item::Const(_, t, e) => {
                self.open();
                if let Some(t) = t { self.ty(t) }
                if matches!((t, e), (Some(Ty::Felt | Ty::U32), Ex::Num(..))) { self.push(Site::AnnotatedLit { node: self.node }) }
                self.ex(e, t.as_ref().map(|_| Ctx::Own(MM, "annotated const")));
            }
            Item::Use(p, items) => {
                for _ in p { self.open(); }
                let k = match items { UseItems::Single(_) => 1, UseItems::List(l) => l.len() };
                for _ in 0..k { self.open(); }
            }
        }
    }
}
fn sites(m: &Module) -> (Vec<(usize, Site)>, Vec<usize>) {
    let mut s = S { node: 0, item: 0, out: vec![], loops: 0 };
    let mut starts = vec![];
    for (i, it) in m.iter().enumerate() {
        s.item = i;
        starts.push(s.node);
        s.item(it);
    }
    starts.push(s.node);
    (s.out, starts)
}
fn num(n: u64, s: &str) -> Ex { Ex::Num(n, Some(s.into())) }
/// A literal of type `t`, everything suffixed; None for types only code can build.
fn konst(t: &Ty, r: &mut Rng) -> Option<Ex> {
    Some(match t {
        Ty::Felt => num(r.below(100) as u64, "felt"),
        Ty::U32 => num(r.below(100) as u64, "u32"),
        Ty::Bool => Ex::Bool(r.chance(1, 2)),
        Ty::Tuple(v) => Ex::Tuple(v.iter().map(|t| konst(t, r)).collect::<Option<_>>()?),
        Ty::Array(x, n) => Ex::Arr((0..*n).map(|_| konst(x, r)).collect::<Option<_>>()?),
        Ty::Ptr(x) => Ex::New((**x).clone(), Box::new(num(1, "felt"))),
        Ty::Named(_) => return None,
    })
}
/// A type close to `t` but different.
fn near(t: &Ty, r: &mut Rng) -> Ty {
    match t {
        Ty::Tuple(v) if r.chance(3, 4) => {
            let mut v = v.clone();
            match r.below(4) {
                0 => { v.pop(); }
                1 => { v.push(Ty::Felt); }
                _ => if !v.is_empty() {
                    let i = r.below(v.len());
                    v[i] = near(&v[i], r);
                } else {
                    v.push(Ty::Bool)
                },
            }
            Ty::Tuple(v)
        }
        Ty::Array(x, n) if r.chance(3, 4) => match r.below(3) {
            0 => Ty::Array(x.clone(), n + 1),
            1 if *n > 1 => Ty::Array(x.clone(), n - 1),
            _ => match near(x, r) { Ty::Array(..) => Ty::Bool, y => Ty::Array(Box::new(y), *n) },
        },
        Ty::Ptr(x) if r.chance(3, 4) => Ty::Ptr(Box::new(near(x, r))),
        Ty::Felt if r.chance(1, 2) => Ty::U32,
        Ty::U32 if r.chance(1, 2) => Ty::Felt,
        _ => match r.below(5) {
            0 => Ty::Bool,
            1 => Ty::Tuple(vec![t.clone()]),
            2 => Ty::Ptr(Box::new(Ty::Felt)),
            3 => Ty::U32,
            _ => Ty::Felt,
        },
    }
}
fn set_ex(m: &mut Module, node: usize, e: Ex) {
    let mut e = Some(e);
    walk(m, &mut |n, s| {
        if n == node {
            if let Slot::Ex(x) = s { if let Some(e) = e.take() { *x = e } }
        }
    });
}
fn on_ex(m: &mut Module, node: usize, f: &mut dyn FnMut(&mut Ex)) {
    walk(m, &mut |n, s| if n == node { if let Slot::Ex(x) = s { f(x) } });
}
fn get_ex(m: &mut Module, node: usize) -> Option<Ex> {
    let mut out = None;
    on_ex(m, node, &mut |x| out = Some(x.clone()));
    out
}
fn rename(m: &mut Module, node: usize, to: &str) {
    walk(m, &mut |n, s| if n == node { if let Slot::Name(x) = s { *x = to.into() } });
}
fn ty_of(sem: &Sem, module: usize, node: usize) -> Option<Ty> { sem.exprs.iter().find(|f| f.module == module && f.node == node).and_then(|f| f.ty.clone()) }
fn unbound(sem: &Sem) -> usize { sem.problems.iter().filter(|p| p.starts_with("unbound")).count() }

pub const KINDS: [&str; 29] = [
    "wrong type", "wrong type: a variable", "wrong object", "pattern value", "undeclared name", "name out of scope", "arity", "called value", "field", "literal field", "tuple index", "index bound", "pattern arity", "const target",
    "invalid target", "return value", "stray exit", "duplicate item", "duplicate local", "import", "empty or nested array", "const array", "literal range", "type or function as value",
    "assert arity", "recursive struct", "constant of itself", "value as type", "undeclared type",
];
/// Plants one mistake of kind `KINDS[kind]`, if the program has a place for it.
pub fn plant(c: &Case, sem: &Sem, kind: usize, r: &mut Rng) -> Option<Seeded> {
    let module = r.below(c.mods.len());
    let (sites, starts) = sites(&c.mods[module].1);
    let item_of = |node: usize| starts.iter().rposition(|&s| s <= node);
    let mut mods = c.mods.clone();
    let name = KINDS[kind];
    macro_rules! choose {
        ($p:pat $(if $g:expr)? => $e:expr) => {{
            let v: Vec<_> = sites.iter().filter_map(|(i, s)| match s { $p $(if $g)? => Some((*i, $e)), _ => None }).collect();
            if v.is_empty() { return None }
            let (i, x) = v[r.below(v.len())].clone();
            (i, x)
        }};
    }
    let done = |mods, what: String, codes, region, local| Some(Seeded { mods, what: format!("{name}: {what}"), codes, module, region, local });
    match name {
        "wrong type" | "wrong type: a variable" => {
            let (item, (node, region, codes, ctx)) = choose!(Site::Value { node, region, codes, ctx } => (*node, *region, *codes, *ctx));
            let t = ty_of(sem, module, node)?;
            let e = if name == "wrong type" {
                konst(&near(&t, r), r)?
            } else {
                let v: Vec<_> = sem.defs.iter().filter(|d| d.module == module && (d.owner == Some(item) || d.owner.is_none()) && matches!(d.kind, DefKind::Let | DefKind::Param | DefKind::Const | DefKind::LocalConst)).collect();
                if v.is_empty() { return None }
                Ex::Id(r.pick(&v).name.clone())
            };
            set_ex(&mut mods[module].1, node, e);
            let s2 = refsem::analyse(&mods);
            let t2 = ty_of(&s2, module, node)?;
            // both number types can be negated
            if ctx == "negated" && matches!(t2, Ty::Felt | Ty::U32) { return None }
            if t2 == t || unbound(&s2) > 0 || before_const(&mods[module].1, &s2, module, node) { return None }
            done(mods, ctx.to_string(), codes, region, Some(item))
        }
        "wrong object" => {
            let (item, (node, region, codes)) = choose!(Site::Object { node, region, codes } => (*node, *region, *codes));
            set_ex(&mut mods[module].1, node, match r.below(3) { 0 => num(1, "felt"), 1 => num(1, "u32"), _ => Ex::Bool(true) });
            done(mods, codes[0].into(), codes, region, Some(item))
        }
        "pattern value" => {
            let (item, node) = choose!(Site::PatValue { node } => *node);
            set_ex(&mut mods[module].1, node, if r.chance(1, 2) { Ex::Bool(true) } else { Ex::Tuple(vec![Ex::Bool(true); 7]) });
            done(mods, String::new(), MM, node, Some(item))
        }
        "undeclared name" | "name out of scope" => {
            let v: Vec<_> = sem.uses.iter().filter(|u| u.module == module).collect();
            if v.is_empty() { return None }
            let u = *r.pick(&v);
            let item = item_of(u.node)?;
            let to = if name == "undeclared name" {
                if r.chance(1, 2) { "nowhere".to_string() } else { "_absent".to_string() }
            } else {
                let ds: Vec<_> = sem.defs.iter().filter(|d| d.module == module && d.owner.is_some()).collect();
                if ds.is_empty() { return None }
                r.pick(&ds).name.clone()
            };
            rename(&mut mods[module].1, u.node, &to);
            let s2 = refsem::analyse(&mods);
            if s2.uses.iter().any(|x| x.module == module && x.node == u.node) || unbound(&s2) != 1 { return None }
            let codes: &[&str] = if u.expr.is_some() { &["UndeclaredVariable"] } else { &["UndeclaredType", "UndeclaredVariable"] };
            done(mods, codes[0].into(), codes, u.node, if matches!(c.mods[module].1[item], Item::Fn(_)) { Some(item) } else { None })
        }
        "arity" => {
            let (item, node) = choose!(Site::Call { node, builtin: false } => *node);
            let add = r.chance(1, 2);
            let mut ok = false;
            on_ex(&mut mods[module].1, node, &mut |e| if let Ex::Call(_, a) = e {
                if add { a.insert(a.len().min(1), Ex::Bool(true)); ok = true } else if !a.is_empty() { a.pop(); ok = true }
            });
            if !ok { return None }
            done(mods, if add { "added".into() } else { "dropped".into() }, &["InvalidFunctionCall"], node, Some(item))
        }
        "called value" => {
            let (item, node) = choose!(Site::Call { node, builtin: _ } => *node);
            let vs: Vec<_> = sem.defs.iter().filter(|d| d.module == module && (d.owner == Some(item) || d.owner.is_none())).collect();
            if vs.is_empty() { return None }
            let to = r.pick(&vs).name.clone();
            on_ex(&mut mods[module].1, node, &mut |e| if let Ex::Call(f, _) = e { **f = Ex::Id(to.clone()) });
            let s2 = refsem::analyse(&mods);
            let u = s2.uses.iter().find(|u| u.module == module && u.node == node + 2)?;
            let d = &s2.defs[u.def];
            let d = &s2.defs[d.target.unwrap_or(u.def)];
            if matches!(d.kind, DefKind::Fn | DefKind::Builtin | DefKind::Use) || before_const(&mods[module].1, &s2, module, node) { return None }
            done(mods, format!("{:?}", d.kind), &["InvalidFunctionCall"], node, Some(item))
        }
        "field" => {
            let (item, node) = choose!(Site::Member { node } => *node);
            let other: Vec<String> = c.mods.iter().flat_map(|m| &m.1).filter_map(|i| match i { Item::Struct(_, fs) => Some(fs), _ => None }).flatten().map(|f| f.0.clone()).collect();
            let to = if r.chance(1, 2) || other.is_empty() { "nowhere".to_string() } else { r.pick(&other).clone() };
            on_ex(&mut mods[module].1, node, &mut |e| if let Ex::Member(_, f) = e { *f = to.clone() });
            let s2 = refsem::analyse(&mods);
            if !matches!(&s2.problems[..], [p] if p.starts_with("no field")) { return None }
            done(mods, String::new(), &["InvalidFieldAccess"], node, Some(item))
        }
        "literal field" => {
            let (item, node) = choose!(Site::StructLit { node } => *node);
            let k = r.below(4);
            let mut ok = false;
            on_ex(&mut mods[module].1, node, &mut |e| if let Ex::Struct(_, fs) = e {
                if fs.is_empty() { return }
                let i = fs.len() / 2;
                match k {
                    0 => { fs.remove(i); }
                    1 => fs[i].0 = "nowhere".into(),
                    2 => fs.insert(i, ("nowhere".into(), Ex::Bool(true))),
                    _ => { let f = fs[i].clone(); fs.push(f) }
                }
                ok = true;
            });
            if !ok { return None }
            done(mods, ["missing", "renamed", "extra", "twice"][k].into(), &["InvalidFieldAccess", "InvalidStructLiteral", "TypeMismatch"], node, Some(item))
        }
        "tuple index" => {
            let (item, (node, obj)) = choose!(Site::TupIdx { node, obj } => (*node, *obj));
            let Some(Ty::Tuple(v)) = ty_of(sem, module, obj) else { return None };
            let k = v.len() as u64 + if r.chance(2, 3) { 0 } else { r.below(40) as u64 };
            on_ex(&mut mods[module].1, node, &mut |e| if let Ex::TupIdx(_, i) = e { *i = k });
            done(mods, String::new(), &["TupleIndexOutOfBounds"], node, Some(item))
        }
        "index bound" => {
            let (item, (node, obj, ix)) = choose!(Site::Index { node, obj, ix } => (*node, *obj, *ix));
            let Some(Ty::Array(_, n)) = ty_of(sem, module, obj) else { return None };
            let k = n + if r.chance(2, 3) { 0 } else { r.below(1 << 20) as u64 };
            set_ex(&mut mods[module].1, ix, Ex::Num(k, if r.chance(1, 3) { Some("felt".into()) } else { None }));
            done(mods, String::new(), &["IndexOutOfBounds"], node, Some(item))
        }
        "pattern arity" => {
            let (item, stmt) = choose!(Site::Pattern { stmt } => *stmt);
            let drop = r.chance(1, 2);
            walk(&mut mods[module].1, &mut |n, s| if n == stmt {
                if let Slot::St(St::Let(p, _, _)) = s {
                    // a random tuple inside the pattern
                    fn go<'a>(p: &'a mut Pat, deep: bool) -> &'a mut Vec<Pat> {
                        match p {
                            Pat::Tuple(a) => {
                                if deep { if let Some(i) = a.iter().position(|x| matches!(x, Pat::Tuple(_))) { return go(&mut a[i], deep) } }
                                a
                            }
                            _ => unreachable!(),
                        }
                    }
                    let a = go(p, r.chance(2, 3));
                    if drop && a.len() > 2 { a.pop(); } else { a.push(Pat::Id("_extra".into())) }
                }
            });
            done(mods, String::new(), MM, stmt, Some(item))
        }
        "const target" => {
            let (item, (node, stmt)) = choose!(Site::Target { node, stmt } => (*node, *stmt));
            let cs: Vec<_> = sem.defs.iter().filter(|d| d.module == module && (d.owner == Some(item) || d.owner.is_none()) && matches!(d.kind, DefKind::Const | DefKind::LocalConst | DefKind::Use)).collect();
            if cs.is_empty() { return None }
            let to = r.pick(&cs).name.clone();
            let mut e = get_ex(&mut mods[module].1, node)?;
            let mut depth = 0;
            {
                let mut x = &mut e;
                loop {
                    match x {
                        Ex::Id(s) => { *s = to; break }
                        Ex::Member(y, _) | Ex::TupIdx(y, _) | Ex::Index(y, _) | Ex::Paren(y) => { x = y; depth += 1 }
                        _ => return None,
                    }
                }
            }
            set_ex(&mut mods[module].1, node, e);
            let s2 = refsem::analyse(&mods);
            let u = s2.uses.iter().find(|u| u.module == module && u.node == node + depth + 1)?;
            let d = s2.defs[u.def].target.unwrap_or(u.def);
            if !matches!(s2.defs[d].kind, DefKind::Const | DefKind::LocalConst) || unbound(&s2) > 0 || before_const(&mods[module].1, &s2, module, node) { return None }
            done(mods, format!("{:?} depth {depth}", s2.defs[u.def].kind), &["AssignmentToConst"], stmt, Some(item))
        }
        "invalid target" => {
            let (item, (node, stmt)) = choose!(Site::Target { node, stmt } => (*node, *stmt));
            let e = get_ex(&mut mods[module].1, node)?;
            let e = match r.below(4) {
                0 => num(1, "felt"),
                1 => Ex::Bin(Bin::Add, Box::new(e.clone()), Box::new(e)),
                2 => Ex::Call(Box::new(Ex::Id("assert".into())), vec![Ex::Bool(true)]),
                _ => Ex::Tuple(vec![e]),
            };
            set_ex(&mut mods[module].1, node, e);
            done(mods, String::new(), &["InvalidAssignmentTarget"], stmt, Some(item))
        }
        "return value" => {
            let (item, stmt) = choose!(Site::Return { stmt } => *stmt);
            let Item::Fn(f) = &c.mods[module].1[item] else { return None };
            let unit = f.ret.as_ref().is_none_or(|t| *t == Ty::Tuple(vec![]));
            walk(&mut mods[module].1, &mut |n, s| if n == stmt { if let Slot::St(s) = s { *s = St::Return(if unit { Some(num(1, "felt")) } else { None }) } });
            done(mods, String::new(), if unit { MM } else { &["MissingReturnValue"] }, stmt, Some(item))
        }
        "stray exit" => {
            let (item, (at, kids)) = choose!(Site::Seq { at, kids, in_loop: false } => (*at, kids.clone()));
            let i = r.below(kids.len());
            let brk = r.chance(1, 2);
            let wrap = r.below(3);
            let mut hit = false;
            walk(&mut mods[module].1, &mut |n, s| if n == at && !hit {
                if let Slot::Seq(b) = s {
                    if b.len() + 1 == kids.len() && i <= b.len() {
                        let x = if brk { St::Break } else { St::Continue };
                        b.insert(i, match wrap {
                            0 => St::Block(vec![x]),
                            1 => St::If(Ex::Bool(true), Box::new(St::Block(vec![x])), None),
                            _ => x,
                        });
                        hit = true;
                    }
                }
            });
            if !hit { return None }
            done(mods, format!("{}{wrap}", if brk { "break" } else { "continue" }), if brk { &["BreakOutsideLoop"] } else { &["ContinueOutsideLoop"] }, kids[i], Some(item))
        }
        "duplicate item" => {
            let ds: Vec<_> = sem.defs.iter().filter(|d| d.module == module && d.owner.is_none() && d.kind != DefKind::Builtin && d.name != "main").collect();
            if ds.len() < 2 { return None }
            let (a, b) = (*r.pick(&ds), *r.pick(&ds));
            if a.node == b.node || a.name == b.name || a.kind == DefKind::Use { return None }
            rename(&mut mods[module].1, a.node, &b.name);
            done(mods, format!("{:?} and {:?}", a.kind, b.kind), &["DuplicateDefinition"], a.node.max(b.node), None)
        }
        "duplicate local" => {
            if r.chance(1, 3) {
                // fields
                let its: Vec<usize> = (0..mods[module].1.len()).filter(|&i| matches!(&mods[module].1[i], Item::Struct(_, fs) if fs.len() > 1)).collect();
                if its.is_empty() { return None }
                let i = *r.pick(&its);
                if let Item::Struct(_, fs) = &mut mods[module].1[i] {
                    let (a, b) = (r.below(fs.len()), r.below(fs.len()));
                    if a == b { return None }
                    fs[a].0 = fs[b].0.clone();
                }
                return done(mods, "field".into(), &["DuplicateStructField"], starts[i], None);
            }
            let ds: Vec<_> = sem.defs.iter().filter(|d| d.module == module && matches!(d.kind, DefKind::Param | DefKind::Let)).collect();
            if ds.is_empty() { return None }
            let a = *r.pick(&ds);
            let others: Vec<_> = ds.iter().filter(|b| b.node != a.node && b.kind == a.kind && if a.kind == DefKind::Let { b.group == a.group } else { b.owner == a.owner }).collect();
            if others.is_empty() { return None }
            let b = r.pick(&others);
            rename(&mut mods[module].1, a.node, &b.name);
            done(mods, format!("{:?}", a.kind), if a.kind == DefKind::Let { &["DuplicatePatternIdentifier"] } else { &["DuplicateParameter"] }, a.node.max(b.node), a.owner)
        }
        "import" => {
            let us: Vec<usize> = (0..mods[module].1.len()).filter(|&i| matches!(mods[module].1[i], Item::Use(..))).collect();
            if us.is_empty() { return None }
            let i = *r.pick(&us);
            let Item::Use(p, items) = &mut mods[module].1[i] else { unreachable!() };
            let (code, node): (&[&str], usize) = if r.chance(1, 2) {
                let l = p.len();
                p[l - 1] = "nowhere".into();
                (&["UnresolvedModule"], starts[i])
            } else {
                let k = match items {
                    UseItems::Single(s) => { *s = "nowhere".into(); 0 }
                    UseItems::List(l) => { let k = r.below(l.len()); l[k] = "nowhere".into(); k }
                };
                (&["UnresolvedImport"], starts[i] + 1 + p.len() + k)
            };
            done(mods, code[0].into(), code, node, None)
        }
        "empty or nested array" => {
            if r.chance(1, 3) {
                let (_, node) = choose!(Site::ArrTy { node } => *node);
                // nested in a signature or an annotation
                walk(&mut mods[module].1, &mut |n, s| if n == node { if let Slot::Ty(Ty::Array(x, _)) = s { **x = Ty::Array(x.clone(), 2) } });
                return done(mods, "type".into(), &["InvalidTypeDefinition"], node, None);
            }
            let (item, node) = choose!(Site::Arr { node } => *node);
            let (empty, paren) = (r.chance(1, 2), r.chance(1, 2));
            on_ex(&mut mods[module].1, node, &mut |e| if let Ex::Arr(a) = e {
                if empty { a.clear() } else { for x in a { *x = Ex::Arr(vec![x.clone()]); if paren { *x = Ex::Paren(Box::new(x.clone())) } } }
            });
            done(mods, if empty { "empty".into() } else { "nested".into() }, if empty { &["TypeInferenceError"] } else { &["InvalidTypeDefinition"] }, node, Some(item))
        }
        "const array" => {
            let (item, (node, region, ctx)) = choose!(Site::Value { node, region, codes: _, ctx } if matches!(*ctx, "argument" | "returned value" | "field value") && region == node => (*node, *region, *ctx));
            let t = ty_of(sem, module, node)?;
            if !matches!(t, Ty::Array(..)) { return None }
            let k = Item::Const("KARR".into(), Some(t.clone()), konst(&t, r)?);
            let mut s = S { node: 0, item: 0, out: vec![], loops: 0 };
            s.item(&k);
            set_ex(&mut mods[module].1, node, Ex::Id("KARR".into()));
            mods[module].1.insert(0, k);
            done(mods, ctx.into(), &["ConstArrayByPointer"], region + s.node, Some(item + 1))
        }
        "literal range" => {
            let (item, node) = if r.chance(1, 2) { choose!(Site::AnnotatedLit { node } => *node) } else { choose!(Site::Lit { node } => *node) };
            let t = ty_of(sem, module, node)?;
            let annotated = sites.iter().any(|s| matches!(s.1, Site::AnnotatedLit { node: n } if n == node));
            let indexes = sites.iter().any(|s| matches!(s.1, Site::Index { ix, .. } if ix == node));
            // an unsuffixed felt literal is only held to 32 bits where its type comes from inference
            let bare = matches!(get_ex(&mut mods[module].1, node), Some(e) if !typed(&e));
            let max = if t == Ty::U32 || bare && !annotated { 1u64 << 32 } else { 1 << 31 };
            let v = max + match r.below(4) { 0 => 0, 1 => 1, 2 => r.next() % (1 << 20), _ => r.next() % (u64::MAX - max) };
            let neg = annotated && r.chance(1, 4);
            on_ex(&mut mods[module].1, node, &mut |e| if let Ex::Num(n, s) = e {
                if neg { *e = Ex::Un(Un::Neg, Box::new(Ex::Num((*n).max(1), if t == Ty::U32 { None } else { s.clone() }))) } else { *n = v }
            });
            done(mods, if neg { "negative".into() } else if annotated { "annotated".into() } else { "elsewhere".into() }, if indexes { &["TypeMismatch", "IndexOutOfBounds"] } else { &["TypeMismatch"] }, node, Some(item))
        }
        "type or function as value" => {
            let v: Vec<_> = sem.uses.iter().filter(|u| u.module == module && u.expr.is_some_and(|e| ty_of(sem, module, e).is_some())).collect();
            if v.is_empty() { return None }
            let u = *r.pick(&v);
            let item = item_of(u.node)?;
            let ds: Vec<_> = sem.defs.iter().filter(|d| d.module == module && matches!(d.kind, DefKind::Fn | DefKind::Struct | DefKind::Use)).collect();
            if ds.is_empty() { return None }
            let to = r.pick(&ds).name.clone();
            rename(&mut mods[module].1, u.node, &to);
            let s2 = refsem::analyse(&mods);
            let u2 = s2.uses.iter().find(|x| x.module == module && x.node == u.node)?;
            let d = s2.defs[u2.def].target.unwrap_or(u2.def);
            if !matches!(s2.defs[d].kind, DefKind::Fn | DefKind::Struct) { return None }
            done(mods, format!("{:?}", s2.defs[d].kind), &["TypeMismatch", "InvalidFieldAccess", "InvalidIndexAccess", "InvalidTupleIndexAccess", "InvalidAssignmentTarget", "InvalidIndexType"], item_stmt(&starts, item), Some(item))
        }
        "assert arity" => {
            let (item, node) = choose!(Site::Call { node, builtin: true } => *node);
            let add = r.chance(1, 2);
            on_ex(&mut mods[module].1, node, &mut |e| if let Ex::Call(_, a) = e {
                if add { a.push(Ex::Bool(true)) } else { a.clear() }
            });
            done(mods, if add { "added".into() } else { "dropped".into() }, &["InvalidFunctionCall"], node, Some(item))
        }
        "recursive struct" => {
            let its: Vec<usize> = (0..mods[module].1.len()).filter(|&i| matches!(&mods[module].1[i], Item::Struct(..))).collect();
            if its.is_empty() { return None }
            let (a, b) = (*r.pick(&its), *r.pick(&its));
            let name = |m: &Module, i: usize| match &m[i] { Item::Struct(n, _) => n.clone(), _ => unreachable!() };
            let (na, nb) = (name(&mods[module].1, a), name(&mods[module].1, b));
            let mut wrap = |n: String| {
                let t = Ty::Named(n);
                match r.below(4) { 0 => Ty::Ptr(Box::new(t)), 1 => Ty::Tuple(vec![Ty::Felt, t]), 2 => Ty::Array(Box::new(t), 2), _ => t }
            };
            let (ta, tb) = (wrap(nb), wrap(na));
            for (i, t) in [(a, ta), (b, tb)] {
                if let Item::Struct(_, fs) = &mut mods[module].1[i] { fs.push((format!("again{i}"), t)) }
                if a == b { break }
            }
            // nodes after an item move by what was added before it
            let starts = starts_of(&mods[module].1);
            done(mods, if a == b { "direct".into() } else { "mutual".into() }, &["InvalidTypeDefinition"], starts[a.max(b)], None)
        }
        "constant of itself" => {
            let its: Vec<usize> = (0..mods[module].1.len()).filter(|&i| matches!(&mods[module].1[i], Item::Const(..))).collect();
            if its.is_empty() { return None }
            let i = *r.pick(&its);
            let deep = r.chance(1, 2);
            if let Item::Const(n, _, e) = &mut mods[module].1[i] {
                let x = Ex::Id(n.clone());
                *e = if deep { Ex::Bin(Bin::Add, Box::new(x), Box::new(num(1, "felt"))) } else { x };
            }
            let starts = starts_of(&mods[module].1);
            done(mods, String::new(), &["UndeclaredVariable"], starts[i], None)
        }
        "value as type" | "undeclared type" => {
            let to = if name == "value as type" {
                let ds: Vec<_> = sem.defs.iter().filter(|d| d.module == module && d.owner.is_none() && (matches!(d.kind, DefKind::Fn | DefKind::Const) || d.target.is_some_and(|t| matches!(sem.defs[t].kind, DefKind::Fn | DefKind::Const)))).collect();
                if ds.is_empty() { return None }
                r.pick(&ds).name.clone()
            } else {
                "Nowhere".to_string()
            };
            let mut at = vec![];
            walk(&mut mods[module].1, &mut |n, s| if let Slot::Ty(_) = s { at.push(n) });
            if at.is_empty() { return None }
            let node = *r.pick(&at);
            walk(&mut mods[module].1, &mut |n, s| if n == node { if let Slot::Ty(t) = s { *t = Ty::Named(to.clone()) } });
            // the target of a cast is refused for not being a number
            let mut cast = false;
            walk(&mut mods[module].1, &mut |_, s| if let Slot::Ex(Ex::Cast(_, Ty::Named(_))) = s { cast = true });
            if cast { return None }
            done(mods, String::new(), &["UndeclaredType"], node, None)
        }
        _ => unreachable!("{name}"),
    }
}
fn starts_of(m: &Module) -> Vec<usize> { sites(m).1 }
fn item_stmt(starts: &[usize], item: usize) -> usize { starts[item] }
/// Whether a name now leads to a module constant written after it, which the language treats as undeclared.
fn before_const(m: &Module, s: &Sem, module: usize, _node: usize) -> bool {
    let st = starts_of(m);
    let item = |n: usize| st.iter().rposition(|&x| x <= n);
    s.uses.iter().any(|u| u.module == module && { let d = &s.defs[u.def]; d.module == module && d.kind == DefKind::Const && (d.node > u.node || item(d.node) == item(u.node)) })
}
/// First node of every item, and the node after the last.
pub fn starts(m: &Module) -> Vec<usize> { sites(m).1 }
