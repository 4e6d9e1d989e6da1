//! Mutable walk over modules in the order `render` opens nodes, so edits can be addressed by node number.
use crate::ast::*;

pub enum Slot<'a> {
    /// A defining or using identifier (node of the identifier; for a named type, its `type` node).
    Name(&'a mut String),
    Ex(&'a mut Ex),
    St(&'a mut St),
    Ty(&'a mut Ty),
    /// Number of the node that comes next when the sequence starts.
    Seq(&'a mut Vec<St>),
    Item(&'a mut Item),
}
pub struct Walk<'f> {
    node: usize,
    f: &'f mut dyn FnMut(usize, Slot),
}
pub fn walk(m: &mut Module, f: &mut dyn FnMut(usize, Slot)) {
    let mut w = Walk { node: 0, f };
    for i in m.iter_mut() {
        w.item(i);
    }
}
impl<'f> Walk<'f> {
    fn open(&mut self) -> usize {
        self.node += 1;
        self.node - 1
    }
    fn name(&mut self, s: &mut String) {
        let n = self.open();
        (self.f)(n, Slot::Name(s));
    }
    fn seq(&mut self, b: &mut Vec<St>) {
        (self.f)(self.node, Slot::Seq(b));
        for s in b { self.st(s) }
    }
    pub fn item(&mut self, it: &mut Item) {
        let n = self.open();
        (self.f)(n, Slot::Item(it));
        match it {
            Item::Fn(f) => {
                self.name(&mut f.name);
                for (p, t) in &mut f.params { self.name(p); self.ty(t) }
                if let Some(t) = &mut f.ret { self.ty(t) }
                self.seq(&mut f.body);
            }
            Item::Struct(s, fs) => { self.name(s); for (p, t) in fs { self.name(p); self.ty(t) } }
            Item::Const(s, t, e) => { self.name(s); if let Some(t) = t { self.ty(t) } self.ex(e) }
            Item::Use(p, items) => {
                for s in p { self.name(s) }
                match items { UseItems::Single(s) => self.name(s), UseItems::List(l) => for s in l { self.name(s) } }
            }
        }
    }
    fn ty(&mut self, t: &mut Ty) {
        let n = self.open();
        (self.f)(n, Slot::Ty(t));
        match t {
            Ty::Named(s) => (self.f)(n, Slot::Name(s)),
            Ty::Ptr(x) => self.ty(x),
            Ty::Tuple(a) => for x in a { self.ty(x) },
            Ty::Array(x, _) => { self.ty(x); self.open(); }
            _ => {}
        }
    }
    fn ex(&mut self, e: &mut Ex) {
        let n = self.open();
        (self.f)(n, Slot::Ex(e));
        match e {
            Ex::Num(..) | Ex::Bool(_) => {}
            Ex::Id(s) => self.name(s),
            Ex::Un(_, x) | Ex::Paren(x) | Ex::TupIdx(x, _) => self.ex(x),
            Ex::Bin(_, x, y) | Ex::Index(x, y) => { self.ex(x); self.ex(y) }
            Ex::Call(f, a) => { self.ex(f); for x in a { self.ex(x) } }
            Ex::Member(x, f) => { self.ex(x); self.name(f) }
            Ex::Struct(s, fs) => { self.name(s); for (f, x) in fs { self.name(f); self.ex(x) } }
            Ex::Tuple(a) | Ex::Arr(a) => for x in a { self.ex(x) },
            Ex::Rep(x, _) => { self.ex(x); self.open(); }
            Ex::Cast(x, t) => { self.ex(x); self.ty(t) }
            Ex::New(t, k) => { self.ty(t); self.ex(k) }
        }
    }
    fn pat(&mut self, p: &mut Pat) {
        match p { Pat::Id(s) => self.name(s), Pat::Tuple(a) => for x in a { self.pat(x) } }
    }
    fn st(&mut self, s: &mut St) {
        let n = self.open();
        (self.f)(n, Slot::St(s));
        match s {
            St::Let(p, t, e) => { self.pat(p); if let Some(t) = t { self.ty(t) } self.ex(e) }
            St::Const(c, t, e) => { self.name(c); if let Some(t) = t { self.ty(t) } self.ex(e) }
            St::Assign(l, r) => { self.ex(l); self.ex(r) }
            St::Return(e) => if let Some(e) = e { self.ex(e) },
            St::If(c, t, e) => { self.ex(c); self.st(t); if let Some(e) = e { self.st(e) } }
            St::Expr(e) => self.ex(e),
            St::Block(b) => self.seq(b),
            St::Loop(b) => self.st(b),
            St::While(c, b) => { self.ex(c); self.st(b) }
            St::For(i, c, st, b) => { self.st(i); self.ex(c); self.st(st); self.st(b) }
            St::Break | St::Continue => {}
        }
    }
}
