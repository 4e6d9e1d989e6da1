//! Reference semantics of a well-typed program: the type of every expression, what every name refers to, which
//! statements can be reached, which locals are never used. Walks the syntax in the order `render` opens nodes, so
//! every fact carries the index of the rendered node it is about.
use crate::ast::*;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum DefKind { Fn, Struct, Const, LocalConst, Let, Param, Use, Builtin }
#[derive(Clone, Debug)]
pub struct Def {
    pub module: usize,
    /// Node of the defining identifier (usize::MAX for builtins).
    pub node: usize,
    pub name: String,
    pub kind: DefKind,
    pub ty: Option<Ty>,
    /// Statement that binds it together with others (usize::MAX otherwise).
    pub group: usize,
    /// Function whose body holds it (item index), for locals.
    pub owner: Option<usize>,
    pub uses: usize,
    /// For imports: what they lead to.
    pub target: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct Use {
    pub module: usize,
    /// Identifier node (or the `type` node for a type name).
    pub node: usize,
    /// Node of the expression that is this identifier, if it is one.
    pub expr: Option<usize>,
    pub def: usize,
}
#[derive(Clone, Debug)]
pub struct ExprFact {
    pub module: usize,
    pub node: usize,
    pub kind: &'static str,
    /// None: not a value (a callee, a module-level name).
    pub ty: Option<Ty>,
    /// The type comes from the context of a literal written without a suffix.
    pub soft: bool,
}
#[derive(Clone, Debug)]
pub struct StmtFact {
    pub module: usize,
    pub node: usize,
    /// Within its sequence.
    pub reachable: bool,
}
#[derive(Default, Debug)]
pub struct Sem {
    pub defs: Vec<Def>,
    pub uses: Vec<Use>,
    pub exprs: Vec<ExprFact>,
    pub stmts: Vec<StmtFact>,
    pub problems: Vec<String>,
}
#[derive(Clone)]
struct FnSig { params: Vec<Ty>, ret: Ty }
struct W<'a> {
    mods: &'a [(String, Module)],
    m: usize,
    node: usize,
    sem: Sem,
    /// module-level names: (module, name) -> def
    globals: HashMap<(usize, String), usize>,
    /// imports and where they point
    imports: Vec<(usize, String, String)>,
    sigs: HashMap<usize, FnSig>,
    fields: HashMap<usize, Vec<(String, Ty)>>,
    scopes: Vec<HashMap<String, usize>>,
    owner: Option<usize>,
    group: usize,
    ret: Ty,
}
/// Everything about modules (first is the entry). Names must resolve and types must be right.
pub fn analyse(mods: &[(String, Module)]) -> Sem {
    let mut w = W {
        mods, m: 0, node: 0, sem: Sem::default(), globals: HashMap::new(), imports: vec![], sigs: HashMap::new(), fields: HashMap::new(), scopes: vec![], owner: None, group: usize::MAX, ret: Ty::Tuple(vec![]),
    };
    let a = w.def0(usize::MAX, "assert", DefKind::Builtin, None);
    w.sigs.insert(a, FnSig { params: vec![Ty::Bool], ret: Ty::Tuple(vec![]) });
    w.globals.insert((usize::MAX, "assert".into()), a);
    // pass 1: module-level definitions
    for pass in 0..2 {
        for m in 0..mods.len() {
            w.m = m;
            w.node = 0;
            for it in &mods[m].1 {
                w.header(it, pass);
            }
        }
    }
    for (d, path, name) in std::mem::take(&mut w.imports) {
        let target = mods.iter().position(|m| m.0 == path).and_then(|m| w.globals.get(&(m, name.clone())).copied()).filter(|t| *t != d);
        if target.is_none() { w.sem.problems.push(format!("unresolved import {path}::{name}")) }
        w.sem.defs[d].target = target;
    }
    // chase imports to what they stand for
    for i in 0..w.sem.defs.len() {
        let mut t = w.sem.defs[i].target;
        for _ in 0..10 {
            match t.and_then(|t| w.sem.defs[t].target) { Some(n) => t = Some(n), None => break }
        }
        w.sem.defs[i].target = t;
    }
    for m in 0..mods.len() {
        w.m = m;
        w.node = 0;
        for (k, it) in mods[m].1.iter().enumerate() {
            w.item(k, it);
        }
    }
    w.sem
}
impl<'a> W<'a> {
    fn def0(&mut self, node: usize, name: &str, kind: DefKind, ty: Option<Ty>) -> usize {
        self.sem.defs.push(Def { module: self.m, node, name: name.into(), kind, ty, group: self.group, owner: self.owner, uses: 0, target: None });
        self.sem.defs.len() - 1
    }
    fn open(&mut self) -> usize {
        self.node += 1;
        self.node - 1
    }
    fn skip_ty(&mut self, t: &Ty) {
        self.open();
        match t {
            Ty::Ptr(x) => self.skip_ty(x),
            Ty::Tuple(a) => a.iter().for_each(|x| self.skip_ty(x)),
            Ty::Array(x, _) => { self.skip_ty(x); self.open(); }
            _ => {}
        }
    }
    /// Declares module-level names (pass 0: all but imports; pass 1: imports).
    fn header(&mut self, it: &Item, pass: usize) {
        self.open();
        match it {
            Item::Fn(f) => {
                let n = self.open();
                if pass == 0 {
                    let d = self.def0(n, &f.name, DefKind::Fn, None);
                    self.sigs.insert(d, FnSig { params: f.params.iter().map(|p| p.1.clone()).collect(), ret: f.ret.clone().unwrap_or(Ty::Tuple(vec![])) });
                    self.globals.insert((self.m, f.name.clone()), d);
                }
                // later node numbers are not needed: recompute by a dry walk
                self.node = n + 1;
                for (_, t) in &f.params { self.open(); self.skip_ty(t); }
                if let Some(t) = &f.ret { self.skip_ty(t) }
                for s in &f.body { self.skip_st(s) }
            }
            Item::Struct(name, fs) => {
                let n = self.open();
                if pass == 0 {
                    let d = self.def0(n, name, DefKind::Struct, None);
                    self.fields.insert(d, fs.clone());
                    self.globals.insert((self.m, name.clone()), d);
                }
                for (_, t) in fs { self.open(); self.skip_ty(t); }
            }
            Item::Const(name, t, e) => {
                let n = self.open();
                if pass == 0 {
                    let d = self.def0(n, name, DefKind::Const, t.clone());
                    self.globals.insert((self.m, name.clone()), d);
                }
                if let Some(t) = t { self.skip_ty(t) }
                self.skip_ex(e);
            }
            Item::Use(p, items) => {
                for _ in p { self.open(); }
                let names = match items { UseItems::Single(s) => vec![s.clone()], UseItems::List(l) => l.clone() };
                for name in names {
                    let n = self.open();
                    if pass == 1 {
                        let path = p.join("::");
                        let d = self.def0(n, &name, DefKind::Use, None);
                        self.globals.insert((self.m, name.clone()), d);
                        self.imports.push((d, path, name));
                    }
                }
            }
        }
    }
    fn skip_ex(&mut self, e: &Ex) {
        self.open();
        match e {
            Ex::Num(..) | Ex::Bool(_) => {}
            Ex::Id(_) => { self.open(); }
            Ex::Un(_, x) | Ex::Paren(x) | Ex::TupIdx(x, _) => self.skip_ex(x),
            Ex::Bin(_, x, y) | Ex::Index(x, y) => { self.skip_ex(x); self.skip_ex(y) }
            Ex::Call(f, a) => { self.skip_ex(f); a.iter().for_each(|x| self.skip_ex(x)) }
            Ex::Member(x, _) => { self.skip_ex(x); self.open(); }
            Ex::Struct(_, fs) => { self.open(); for (_, x) in fs { self.open(); self.skip_ex(x) } }
            Ex::Tuple(a) | Ex::Arr(a) => a.iter().for_each(|x| self.skip_ex(x)),
            Ex::Rep(x, _) => { self.skip_ex(x); self.open(); }
            Ex::Cast(x, t) => { self.skip_ex(x); self.skip_ty(t) }
            Ex::New(t, n) => { self.skip_ty(t); self.skip_ex(n) }
        }
    }
    fn skip_pat(&mut self, p: &Pat) {
        match p { Pat::Id(_) => { self.open(); } Pat::Tuple(a) => a.iter().for_each(|x| self.skip_pat(x)) }
    }
    fn skip_st(&mut self, s: &St) {
        self.open();
        match s {
            St::Let(p, t, e) => { self.skip_pat(p); if let Some(t) = t { self.skip_ty(t) } self.skip_ex(e) }
            St::Const(_, t, e) => { self.open(); if let Some(t) = t { self.skip_ty(t) } self.skip_ex(e) }
            St::Assign(l, r) => { self.skip_ex(l); self.skip_ex(r) }
            St::Return(e) => if let Some(e) = e { self.skip_ex(e) },
            St::If(c, t, e) => { self.skip_ex(c); self.skip_st(t); if let Some(e) = e { self.skip_st(e) } }
            St::Expr(e) => self.skip_ex(e),
            St::Block(b) => b.iter().for_each(|s| self.skip_st(s)),
            St::Loop(b) => self.skip_st(b),
            St::While(c, b) => { self.skip_ex(c); self.skip_st(b) }
            St::For(i, c, st, b) => { self.skip_st(i); self.skip_ex(c); self.skip_st(st); self.skip_st(b) }
            St::Break | St::Continue => {}
        }
    }
    fn lookup(&mut self, n: &str) -> Option<usize> {
        for s in self.scopes.iter().rev() {
            if let Some(d) = s.get(n) { return Some(*d) }
        }
        self.globals.get(&(self.m, n.to_string())).or_else(|| self.globals.get(&(usize::MAX, n.to_string()))).copied()
    }
    fn use_(&mut self, node: usize, expr: Option<usize>, name: &str) -> Option<usize> {
        match self.lookup(name) {
            Some(d) => {
                self.sem.defs[d].uses += 1;
                self.sem.uses.push(Use { module: self.m, node, expr, def: d });
                Some(d)
            }
            None => {
                self.sem.problems.push(format!("unbound {name}"));
                None
            }
        }
    }
    fn real(&self, d: usize) -> usize { self.sem.defs[d].target.unwrap_or(d) }
    fn ty(&mut self, t: &Ty) {
        let n = self.open();
        match t {
            Ty::Named(s) => { self.use_(n, None, &s.clone()); }
            Ty::Ptr(x) => self.ty(x),
            Ty::Tuple(a) => a.iter().for_each(|x| self.ty(x)),
            Ty::Array(x, _) => { self.ty(x); self.open(); }
            _ => {}
        }
    }
    fn local(&mut self, node: usize, name: &str, kind: DefKind, ty: Option<Ty>) {
        let d = self.def0(node, name, kind, ty);
        self.scopes.last_mut().unwrap().insert(name.into(), d);
    }
    fn struct_fields(&self, name: &str) -> Option<Vec<(String, Ty)>> {
        // struct names are unique across the program
        self.sem.defs.iter().enumerate().find(|(_, d)| d.kind == DefKind::Struct && d.name == name).and_then(|(i, _)| self.fields.get(&i).cloned())
    }
    fn note(&mut self, node: usize, kind: &'static str, ty: Option<Ty>) { self.sem.exprs.push(ExprFact { module: self.m, node, kind, ty, soft: false }); }
    /// Type of an expression; `want` is what its context asks for. Disagreements become problems.
    fn ex(&mut self, e: &Ex, want: Option<&Ty>) -> Option<Ty> {
        let n = self.open();
        let (kind, ty) = match e {
            Ex::Num(_, s) => {
                let t = if s.as_deref().is_some_and(|s| s.starts_with("u32")) { Ty::U32 } else { Ty::Felt };
                if s.as_deref() == Some("u32?") && want != Some(&Ty::U32) { self.sem.problems.push(format!("a literal without a type: {e:?} in {want:?} node {n}")) }
                ("num", Some(t))
            }
            Ex::Bool(_) => ("bool", Some(Ty::Bool)),
            Ex::Id(s) => {
                let i = self.open();
                let d = self.use_(i, Some(n), s);
                let t = d.and_then(|d| self.sem.defs[self.real(d)].ty.clone());
                if t.is_none() { self.sem.problems.push(format!("{s} is not a value")) }
                ("id", t)
            }
            Ex::Un(o, x) => {
                let t = match o { Un::Not => Ty::Bool, Un::Neg => Ty::Felt };
                self.ex(x, Some(&t));
                ("unary", Some(t))
            }
            Ex::Bin(o, x, y) => {
                use Bin::*;
                let t = self.ex(x, None);
                self.ex(y, t.as_ref());
                let ok = match (o, &t) {
                    (Add | Sub | Mul | Div, Some(Ty::Felt | Ty::U32)) | (Eq | Neq, Some(Ty::Felt | Ty::U32 | Ty::Bool)) | (And | Or, Some(Ty::Bool)) => true,
                    (Mod | BAnd | BOr | BXor | Lt | Gt | Le | Ge, Some(Ty::U32)) => true,
                    _ => false,
                };
                if !ok { self.sem.problems.push(format!("{o:?} on {t:?}")) }
                ("binary", match o { Eq | Neq | Lt | Gt | Le | Ge | And | Or => Some(Ty::Bool), _ => t })
            }
            Ex::Call(f, a) => {
                let mut ret = None;
                let mut params = vec![];
                if let Ex::Id(name) = &**f {
                    let fnode = self.open();
                    let i = self.open();
                    if let Some(d) = self.use_(i, Some(fnode), name) {
                        let d = self.real(d);
                        if let Some(s) = self.sigs.get(&d) { ret = Some(s.ret.clone()); params = s.params.clone(); }
                    }
                    self.note(fnode, "callee", None);
                } else {
                    self.ex(f, None);
                }
                if ret.is_none() || params.len() != a.len() { self.sem.problems.push("bad call".into()) }
                for (i, x) in a.iter().enumerate() { self.ex(x, params.get(i)); }
                ("call", ret)
            }
            Ex::Member(x, f) => {
                let t = self.ex(x, None);
                self.open();
                let ty = match t { Some(Ty::Named(s)) => self.struct_fields(&s).and_then(|fs| fs.iter().find(|g| g.0 == *f).map(|g| g.1.clone())), _ => None };
                if ty.is_none() { self.sem.problems.push(format!("no field {f}")) }
                ("member", ty)
            }
            Ex::Index(x, i) => {
                let t = self.ex(x, None);
                self.ex(i, Some(&Ty::Felt));
                let t = match t { Some(Ty::Array(x, k)) => { if matches!(&**i, Ex::Num(j, _) if *j >= k) { self.sem.problems.push("index out of bounds".into()) } Some(*x) } Some(Ty::Ptr(x)) => Some(*x), _ => None };
                if t.is_none() { self.sem.problems.push("not indexable".into()) }
                ("index", t)
            }
            Ex::Struct(s, fs) => {
                let i = self.open();
                self.use_(i, None, s);
                let want = self.struct_fields(s).unwrap_or_default();
                let mut names: Vec<&String> = fs.iter().map(|f| &f.0).collect();
                names.sort();
                let mut w: Vec<&String> = want.iter().map(|f| &f.0).collect();
                w.sort();
                if names != w { self.sem.problems.push(format!("fields of {s}")) }
                for (f, x) in fs { self.open(); self.ex(x, want.iter().find(|g| g.0 == *f).map(|g| &g.1)); }
                ("struct", Some(Ty::Named(s.clone())))
            }
            Ex::Tuple(a) => {
                let w: Vec<Option<Ty>> = match want { Some(Ty::Tuple(v)) if v.len() == a.len() => v.iter().cloned().map(Some).collect(), _ => vec![None; a.len()] };
                let ts: Vec<Option<Ty>> = a.iter().zip(&w).map(|(x, w)| self.ex(x, w.as_ref())).collect();
                ("tuple", ts.into_iter().collect::<Option<Vec<_>>>().map(Ty::Tuple))
            }
            Ex::TupIdx(x, i) => {
                let t = self.ex(x, None);
                let t = match t { Some(Ty::Tuple(v)) => v.get(*i as usize).cloned(), _ => None };
                if t.is_none() { self.sem.problems.push(format!("no element {i}")) }
                ("tupidx", t)
            }
            Ex::Arr(a) => {
                let w = match want { Some(Ty::Array(x, _)) => Some((**x).clone()), _ => None };
                let ts: Vec<Option<Ty>> = a.iter().map(|x| self.ex(x, w.as_ref())).collect();
                if a.is_empty() || ts.iter().any(|t| *t != ts[0]) || a.iter().any(soft) && !a.iter().all(soft) { self.sem.problems.push("array elements".into()) }
                ("array", ts.first().cloned().flatten().map(|t| Ty::Array(Box::new(t), a.len() as u64)))
            }
            Ex::Rep(x, k) => {
                let w = match want { Some(Ty::Array(x, _)) => Some((**x).clone()), _ => None };
                let t = self.ex(x, w.as_ref());
                self.open();
                ("repeat", t.map(|t| Ty::Array(Box::new(t), *k)))
            }
            Ex::Cast(x, t) => {
                let f = self.ex(x, None);
                self.ty(t);
                if (f.as_ref(), t) != (Some(&Ty::U32), &Ty::Felt) { self.sem.problems.push("cast".into()) }
                ("cast", Some(t.clone()))
            }
            Ex::New(t, k) => { self.ty(t); self.ex(k, Some(&Ty::Felt)); ("new", Some(Ty::Ptr(Box::new(t.clone())))) }
            Ex::Paren(x) => ("paren", self.ex(x, want)),
        };
        self.note(n, kind, ty.clone());
        self.sem.exprs.last_mut().unwrap().soft = soft(e);
        if let Some(w) = want {
            if ty.as_ref() != Some(w) { self.sem.problems.push(format!("{ty:?} where {w:?} is wanted")) }
        }
        ty
    }
    fn pat_nodes(&mut self, p: &Pat, out: &mut Vec<usize>) {
        match p { Pat::Id(_) => { let n = self.open(); out.push(n) } Pat::Tuple(a) => a.iter().for_each(|x| self.pat_nodes(x, out)) }
    }
    fn bind(&mut self, p: &Pat, t: Option<Ty>, nodes: &mut std::vec::IntoIter<usize>) {
        match p {
            Pat::Id(s) => { let n = nodes.next().unwrap(); self.local(n, s, DefKind::Let, t) }
            Pat::Tuple(a) => { if !matches!(&t, Some(Ty::Tuple(v)) if v.len() == a.len()) { self.sem.problems.push("pattern".into()) } for (i, x) in a.iter().enumerate() {
                let ti = match &t { Some(Ty::Tuple(v)) => v.get(i).cloned(), _ => None };
                self.bind(x, ti, nodes);
            } }
        }
    }
    /// Statements of one sequence; returns whether control can pass its end. Reachability is judged within the
    /// sequence, as if its start could be reached.
    fn seq(&mut self, b: &[St]) -> bool {
        let mut live = true;
        for s in b {
            let next = self.st(s, live);
            live = live && next;
        }
        live
    }
    /// A nested statement, in its own scope.
    fn body(&mut self, s: &St) -> bool {
        self.scopes.push(HashMap::new());
        let r = self.st(s, true);
        self.scopes.pop();
        r
    }
    fn st(&mut self, s: &St, reachable: bool) -> bool {
        let n = self.open();
        self.sem.stmts.push(StmtFact { module: self.m, node: n, reachable });
        match s {
            St::Block(b) => {
                self.scopes.push(HashMap::new());
                let r = self.seq(b);
                self.scopes.pop();
                r
            }
            St::Let(p, t, e) => {
                let mut nodes = vec![];
                self.pat_nodes(p, &mut nodes);
                if let Some(t) = t { self.ty(t) }
                let te = self.ex(e, t.as_ref());
                self.group = n;
                self.bind(p, t.clone().or(te), &mut nodes.into_iter());
                self.group = usize::MAX;
                true
            }
            St::Const(name, t, e) => {
                let i = self.open();
                if let Some(t) = t { self.ty(t) }
                let te = self.ex(e, t.as_ref());
                self.local(i, name, DefKind::LocalConst, t.clone().or(te));
                true
            }
            St::Assign(l, r) => {
                let t = self.ex(l, None);
                if root(l).is_none() { self.sem.problems.push("not assignable".into()) }
                self.ex(r, t.as_ref());
                true
            }
            St::Return(e) => {
                let t = self.ret.clone();
                match e { Some(e) => { self.ex(e, Some(&t)); } None => if t != Ty::Tuple(vec![]) { self.sem.problems.push("return without a value".into()) } }
                false
            }
            St::If(c, t, e) => {
                self.ex(c, Some(&Ty::Bool));
                let a = self.body(t);
                match e { Some(e) => { let b = self.body(e); a || b } None => true }
            }
            St::Expr(e) => { self.ex(e, None); true }
            St::Loop(b) => { self.body(b); has_break(b) }
            St::While(c, b) => { self.ex(c, Some(&Ty::Bool)); self.body(b); true }
            St::For(i, c, st, b) => {
                self.scopes.push(HashMap::new());
                self.st(i, true);
                self.ex(c, Some(&Ty::Bool));
                self.st(st, true);
                self.body(b);
                self.scopes.pop();
                true
            }
            St::Break | St::Continue => false,
        }
    }
    fn item(&mut self, k: usize, it: &Item) {
        self.open();
        match it {
            Item::Fn(f) => {
                self.open();
                self.owner = Some(k);
                self.scopes.push(HashMap::new());
                for (p, t) in &f.params {
                    let n = self.open();
                    self.ty(t);
                    self.local(n, p, DefKind::Param, Some(t.clone()));
                }
                if let Some(t) = &f.ret { self.ty(t) }
                self.ret = f.ret.clone().unwrap_or(Ty::Tuple(vec![]));
                if self.seq(&f.body) { self.sem.problems.push(format!("{} may not return", f.name)) }
                self.scopes.pop();
                self.owner = None;
            }
            Item::Struct(_, fs) => { self.open(); for (_, t) in fs { self.open(); self.ty(t) } }
            Item::Const(_, t, e) => { self.open(); if let Some(t) = t { self.ty(t) } self.ex(e, t.as_ref()); }
            Item::Use(p, items) => {
                for _ in p { self.open(); }
                let k = match items { UseItems::Single(_) => 1, UseItems::List(l) => l.len() };
                for _ in 0..k { self.open(); }
            }
        }
    }
}
pub fn root(e: &Ex) -> Option<&str> {
    match e {
        Ex::Id(s) => Some(s),
        Ex::Member(x, _) | Ex::TupIdx(x, _) | Ex::Index(x, _) | Ex::Paren(x) => root(x),
        _ => None,
    }
}
/// Whether a `break` written in the statement leaves the loop around it.
pub fn has_break(s: &St) -> bool {
    match s {
        St::Break => true,
        St::Block(b) => b.iter().any(has_break),
        St::If(_, t, e) => has_break(t) || e.as_ref().is_some_and(|e| has_break(e)),
        _ => false,
    }
}
/// Splits one-module programs into modules that import from each other (never in a cycle).
pub fn split(items: &Module, r: &mut crate::rng::Rng) -> Vec<(String, Module)> {
    let k = r.range(2, 4);
    // items keep their relative order; a later item may only use earlier ones (the generator's order), so
    // module numbers grow with position
    let mut level = 0;
    let names: Vec<String> = (0..k).map(|i| if i + 1 == k { "main".to_string() } else { ["lib", "util", "deep"][i].to_string() }).collect();
    let mut mods: Vec<Module> = vec![vec![]; k];
    let mut home: Vec<(String, usize)> = vec![];
    for (i, it) in items.iter().enumerate() {
        let last = i + 1 == items.len();
        if last { level = k - 1 } else if level + 1 < k && r.chance(1, 3) { level += 1 }
        let name = match it { Item::Fn(f) => f.name.clone(), Item::Struct(n, _) | Item::Const(n, _, _) => n.clone(), Item::Use(..) => continue };
        home.push((name, level));
        mods[level].push(it.clone());
    }
    for (m, items) in mods.iter_mut().enumerate() {
        let mut uses: Vec<Item> = vec![];
        for from in 0..m {
            let names_in: Vec<String> = home.iter().filter(|h| h.1 == from).map(|h| h.0.clone()).collect();
            if names_in.is_empty() { continue }
            if r.chance(1, 2) {
                uses.push(Item::Use(vec![names[from].clone()], UseItems::List(names_in)));
            } else {
                uses.extend(names_in.into_iter().map(|n| Item::Use(vec![names[from].clone()], UseItems::Single(n))));
            }
        }
        r.shuffle(&mut uses);
        uses.append(items);
        *items = uses;
    }
    let mut out: Vec<(String, Module)> = names.into_iter().zip(mods).filter(|m| m.0 == "main" || !m.1.is_empty()).collect();
    out.reverse();
    out
}

/// Whether the type of `e` depends on a literal whose type its context decides.
pub fn soft(e: &Ex) -> bool {
    match e {
        Ex::Num(_, s) => s.as_deref() == Some("u32?"),
        Ex::Tuple(a) | Ex::Arr(a) => a.iter().any(soft),
        Ex::Rep(x, _) | Ex::Paren(x) => soft(x),
        _ => false,
    }
}
