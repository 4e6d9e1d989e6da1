//! Grammar-wide generator: syntactically valid modules with no regard for types or names.
use crate::ast::*;
use crate::rng::Rng;

const IDENTS: &[&str] = &[
    "x", "y", "z", "a", "b", "foo", "bar_1", "_", "_x", "__", "iff", "new_", "as1", "inn", "fnx", "let2", "True", "CONST", "Point",
    "returned", "structs", "loop_", "use1", "felts", "u32x", "e10", "xFF", "o7", "b1", "elsewhere", "forx", "whiles", "breakpoint",
    "continue_", "i", "j", "A", "B9", "very_long_identifier_name_with_many_parts_0123456789",
];
const TYPES: &[&str] = &["Point", "Rect", "T", "_T", "S2", "Felt", "U32", "felt2", "boolx"];

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub max_depth: usize,
    pub budget: isize,
}
fn cast_target(t: &Ty) -> bool { matches!(t, Ty::Felt | Ty::Bool | Ty::U32 | Ty::Named(_)) }
impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, max_depth: usize, budget: usize) -> Self { Gen { r, max_depth, budget: budget as isize } }
    pub fn ident(&mut self) -> String { self.r.pick_s(IDENTS) }
    pub fn ty(&mut self, d: usize, alloc: bool) -> Ty {
        self.budget -= 1;
        let k = if d == 0 || self.budget < 0 { self.r.below(4) } else { self.r.below(8) };
        match k {
            0 => Ty::Felt,
            1 => Ty::Bool,
            2 => Ty::U32,
            3 => Ty::Named(self.r.pick_s(TYPES)),
            4 => Ty::Ptr(Box::new(self.ty(d - 1, alloc))),
            5 | 6 => {
                let n = *self.r.pick(&[0usize, 1, 1, 2, 2, 3, 4]);
                Ty::Tuple((0..n).map(|_| self.ty(d - 1, alloc)).collect())
            }
            _ if alloc => Ty::U32,
            _ => Ty::Array(Box::new(self.ty(d - 1, false)), self.num()),
        }
    }
    pub fn num(&mut self) -> u64 {
        match self.r.below(8) {
            0 => 0,
            1 => 1,
            2 => self.r.below(10) as u64,
            3 => self.r.below(1000) as u64,
            4 => *self.r.pick(&[255, 256, 65535, 65536, 2147483646, 2147483647, 2147483648, 4294967295, 4294967296]),
            5 => u64::MAX - self.r.below(3) as u64,
            6 => 1u64 << self.r.below(64),
            _ => self.r.next(),
        }
    }
    fn lit(&mut self) -> Ex {
        let n = self.num();
        let suffix = match self.r.below(6) {
            0 => Some("felt".to_string()),
            1 => Some("u32".to_string()),
            _ => None,
        };
        Ex::Num(n, suffix)
    }
    pub fn ex(&mut self, d: usize) -> Ex {
        self.budget -= 1;
        if d == 0 || self.budget < 0 {
            return match self.r.below(8) {
                0 | 1 | 2 => self.lit(),
                3 => Ex::Bool(self.r.chance(1, 2)),
                4 if self.r.chance(1, 3) => Ex::Tuple(vec![]),
                _ => Ex::Id(self.ident()),
            };
        }
        let b = |g: &mut Self| Box::new(g.ex(d - 1));
        match self.r.below(22) {
            0..=6 => {
                let op = *self.r.pick(&ALL_BIN);
                Ex::Bin(op, b(self), b(self))
            }
            7 | 8 => Ex::Un(if self.r.chance(1, 2) { Un::Not } else { Un::Neg }, b(self)),
            9 | 10 => {
                let n = *self.r.pick(&[0, 1, 1, 2, 2, 3, 5]);
                let f = b(self);
                Ex::Call(f, (0..n).map(|_| self.ex(d - 1)).collect())
            }
            11 => Ex::Member(b(self), self.ident()),
            12 | 13 => Ex::Index(b(self), b(self)),
            14 => {
                let n = self.r.below(4);
                let name = self.ident();
                Ex::Struct(name, (0..n).map(|_| (self.ident(), self.ex(d - 1))).collect())
            }
            15 => {
                let n = *self.r.pick(&[1, 1, 2, 2, 3, 4]);
                Ex::Tuple((0..n).map(|_| self.ex(d - 1)).collect())
            }
            16 => {
                let i = if self.r.chance(1, 8) { self.num() } else { self.r.below(4) as u64 };
                Ex::TupIdx(b(self), i)
            }
            17 => {
                let n = self.r.below(4);
                Ex::Arr((0..n).map(|_| self.ex(d - 1)).collect())
            }
            18 => Ex::Rep(b(self), self.num()),
            19 => {
                let t = loop {
                    let t = self.ty(0, true);
                    if cast_target(&t) {
                        break t;
                    }
                };
                Ex::Cast(b(self), t)
            }
            20 => Ex::New(self.ty(2, true), b(self)),
            _ => Ex::Paren(b(self)),
        }
    }
    pub fn pat(&mut self, d: usize) -> Pat {
        if d == 0 || self.r.chance(3, 4) {
            Pat::Id(self.ident())
        } else {
            let n = self.r.range(2, 4);
            Pat::Tuple((0..n).map(|_| self.pat(d - 1)).collect())
        }
    }
    fn ex_top(&mut self) -> Ex {
        let d = self.r.below(self.max_depth + 1);
        self.ex(d)
    }
    fn let_(&mut self) -> St {
        let p = self.pat(2);
        let t = if self.r.chance(1, 2) { Some(self.ty(2, false)) } else { None };
        St::Let(p, t, self.ex_top())
    }
    fn simple(&mut self) -> St {
        if self.r.chance(1, 2) {
            St::Assign(self.ex_top(), self.ex_top())
        } else {
            St::Expr(self.ex_top())
        }
    }
    fn body(&mut self, d: usize) -> St {
        if self.r.chance(5, 6) {
            let n = *self.r.pick(&[0, 1, 1, 2, 3]);
            St::Block((0..n).map(|_| self.st(d)).collect())
        } else {
            self.st(d)
        }
    }
    pub fn st(&mut self, d: usize) -> St {
        self.budget -= 1;
        let k = if d == 0 || self.budget < 0 { self.r.below(9) } else { self.r.below(18) };
        match k {
            0..=2 => self.let_(),
            3 => {
                let t = if self.r.chance(1, 2) { Some(self.ty(2, false)) } else { None };
                St::Const(self.ident(), t, self.ex_top())
            }
            4 | 5 => self.simple(),
            6 => St::Return(if self.r.chance(1, 3) { None } else { Some(self.ex_top()) }),
            7 => St::Break,
            8 => St::Continue,
            9..=11 => {
                let c = self.ex_top();
                let t = self.body(d - 1);
                let e = match self.r.below(3) {
                    0 => None,
                    1 => Some(Box::new(self.body(d - 1))),
                    _ => {
                        let c2 = self.ex_top();
                        let t2 = self.body(d - 1);
                        Some(Box::new(St::If(c2, Box::new(t2), None)))
                    }
                };
                St::If(c, Box::new(t), e)
            }
            12 => St::Loop(Box::new(self.body(d - 1))),
            13 | 14 => St::While(self.ex_top(), Box::new(self.body(d - 1))),
            15 => {
                let init = if self.r.chance(1, 2) { self.let_() } else { self.simple() };
                let c = self.ex_top();
                let step = self.simple();
                St::For(Box::new(init), c, Box::new(step), Box::new(self.body(d - 1)))
            }
            _ => {
                let n = self.r.below(4);
                St::Block((0..n).map(|_| self.st(d - 1)).collect())
            }
        }
    }
    pub fn item(&mut self) -> Item {
        match self.r.below(8) {
            0 => Item::Struct(self.r.pick_s(TYPES), { let n = self.r.below(5); (0..n).map(|_| (self.ident(), self.ty(3, false))).collect() }),
            1 => {
                let t = if self.r.chance(1, 2) { Some(self.ty(2, false)) } else { None };
                Item::Const(self.ident(), t, self.ex_top())
            }
            2 => {
                let n = self.r.below(4);
                let mut path: Vec<String> = (0..n).map(|_| self.ident()).collect();
                if self.r.chance(1, 2) {
                    Item::Use(path, UseItems::Single(self.ident()))
                } else {
                    if path.is_empty() {
                        path.push(self.ident());
                    }
                    let k = self.r.below(4);
                    Item::Use(path, UseItems::List((0..k).map(|_| self.ident()).collect()))
                }
            }
            _ => {
                let np = self.r.below(4);
                let ret = match self.r.below(4) {
                    0 => None,
                    _ => Some(self.ty(3, false)),
                };
                let nb = self.r.below(7);
                Item::Fn(FnDef {
                    name: self.ident(),
                    params: (0..np).map(|_| (self.ident(), self.ty(3, false))).collect(),
                    ret,
                    body: (0..nb).map(|_| { let d = self.r.below(4); self.st(d) }).collect(),
                })
            }
        }
    }
    /// A module in the parser's normal form (`Paren` nodes exactly where parentheses are written).
    pub fn module(&mut self, items: usize) -> Module {
        let m: Module = (0..items).map(|_| self.item()).collect();
        m.into_iter().map(|i| norm_item(i)).collect()
    }
}

// ---- normalisation: add the parentheses the grammar requires ----
fn level(e: &Ex) -> u8 {
    match e {
        Ex::Bin(o, _, _) => o.prec(),
        Ex::Cast(..) => 6,
        Ex::Un(..) => 7,
        Ex::Call(..) | Ex::Member(..) | Ex::Index(..) | Ex::TupIdx(..) => 8,
        _ => 9,
    }
}
fn at_least(e: Ex, l: u8) -> Box<Ex> {
    let e = norm(e);
    Box::new(if level(&e) >= l { e } else { Ex::Paren(Box::new(e)) })
}
pub fn norm(e: Ex) -> Ex {
    match e {
        Ex::Num(..) | Ex::Bool(_) | Ex::Id(_) => e,
        Ex::Un(o, x) => Ex::Un(o, at_least(*x, 7)),
        Ex::Bin(o, l, r) => {
            let mixed = |x: &Ex| matches!((o, x), (Bin::And, Ex::Bin(Bin::Or, ..)) | (Bin::Or, Ex::Bin(Bin::And, ..)));
            let l2 = if mixed(&l) { Box::new(Ex::Paren(Box::new(norm(*l)))) } else { at_least(*l, o.prec()) };
            Ex::Bin(o, l2, at_least(*r, o.prec() + 1))
        }
        Ex::Call(f, a) => Ex::Call(at_least(*f, 8), a.into_iter().map(norm).collect()),
        Ex::Member(x, f) => Ex::Member(at_least(*x, 8), f),
        Ex::Index(x, i) => Ex::Index(at_least(*x, 8), Box::new(norm(*i))),
        Ex::Struct(n, f) => Ex::Struct(n, f.into_iter().map(|(n, e)| (n, norm(e))).collect()),
        Ex::Tuple(a) => Ex::Tuple(a.into_iter().map(norm).collect()),
        Ex::TupIdx(x, i) => Ex::TupIdx(at_least(*x, 8), i),
        Ex::Arr(a) => Ex::Arr(a.into_iter().map(norm).collect()),
        Ex::Rep(x, n) => Ex::Rep(Box::new(norm(*x)), n),
        Ex::Cast(x, t) => Ex::Cast(at_least(*x, 6), t),
        Ex::New(t, n) => Ex::New(t, Box::new(norm(*n))),
        Ex::Paren(x) => Ex::Paren(Box::new(norm(*x))),
    }
}
fn leftmost_neg(e: &Ex) -> bool {
    match e {
        Ex::Un(Un::Neg, _) => true,
        Ex::Bin(_, x, _) | Ex::Call(x, _) | Ex::Member(x, _) | Ex::Index(x, _) | Ex::TupIdx(x, _) | Ex::Cast(x, _) => leftmost_neg(x),
        _ => false,
    }
}
/// Whether `s` would swallow a following `else`.
fn open_if(s: &St) -> bool {
    match s {
        St::If(_, _, None) => true,
        St::If(_, _, Some(e)) => open_if(e),
        St::Loop(b) | St::While(_, b) | St::For(_, _, _, b) => open_if(b),
        _ => false,
    }
}
fn body(s: St, after_cond: bool, before_else: bool) -> Box<St> {
    let s = norm_st(s);
    let wrap = (before_else && open_if(&s))
        || (after_cond && matches!(&s, St::Expr(e) | St::Assign(e, _) if leftmost_neg(e)));
    Box::new(if wrap { St::Block(vec![s]) } else { s })
}
pub fn norm_st(s: St) -> St {
    match s {
        St::Let(p, t, e) => St::Let(p, t, norm(e)),
        St::Const(n, t, e) => St::Const(n, t, norm(e)),
        St::Assign(l, r) => St::Assign(norm(l), norm(r)),
        St::Return(e) => St::Return(e.map(norm)),
        St::Expr(e) => St::Expr(norm(e)),
        St::If(c, t, e) => {
            let has_else = e.is_some();
            St::If(norm(c), body(*t, true, has_else), e.map(|e| body(*e, false, false)))
        }
        St::Block(b) => St::Block(b.into_iter().map(norm_st).collect()),
        St::Loop(b) => St::Loop(body(*b, false, false)),
        St::While(c, b) => St::While(norm(c), body(*b, true, false)),
        St::For(i, c, s, b) => St::For(Box::new(norm_st(*i)), norm(c), Box::new(norm_st(*s)), body(*b, false, false)),
        St::Break => St::Break,
        St::Continue => St::Continue,
    }
}
pub fn norm_item(i: Item) -> Item {
    match i {
        Item::Fn(f) => Item::Fn(FnDef { body: f.body.into_iter().map(norm_st).collect(), ..f }),
        Item::Const(n, t, e) => Item::Const(n, t, norm(e)),
        o => o,
    }
}
