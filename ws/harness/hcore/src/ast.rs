//! Model of the Cairo-M surface syntax, independent of the parser under test.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Felt,
    Bool,
    U32,
    Named(String),
    Ptr(Box<Ty>),
    Tuple(Vec<Ty>),
    Array(Box<Ty>, u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Un { Not, Neg }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin { Add, Sub, Mul, Div, Mod, Eq, Neq, Lt, Gt, Le, Ge, And, Or, BAnd, BOr, BXor }
pub const ALL_BIN: [Bin; 16] = [
    Bin::Add, Bin::Sub, Bin::Mul, Bin::Div, Bin::Mod, Bin::Eq, Bin::Neq, Bin::Lt, Bin::Gt, Bin::Le, Bin::Ge,
    Bin::And, Bin::Or, Bin::BAnd, Bin::BOr, Bin::BXor,
];
impl Bin {
    pub fn sym(self) -> &'static str {
        use Bin::*;
        match self {
            Add => "+", Sub => "-", Mul => "*", Div => "/", Mod => "%", Eq => "==", Neq => "!=", Lt => "<", Gt => ">",
            Le => "<=", Ge => ">=", And => "&&", Or => "||", BAnd => "&", BOr => "|", BXor => "^",
        }
    }
    /// Binding strength, higher binds tighter. `&&` and `||` share a tier in this tree (a known
    /// finding), so the generator parenthesizes whenever the two are mixed.
    pub fn prec(self) -> u8 {
        use Bin::*;
        match self {
            Or | And => 1,
            BAnd | BOr | BXor => 2,
            Eq | Neq | Lt | Gt | Le | Ge => 3,
            Add | Sub => 4,
            Mul | Div | Mod => 5,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ex {
    Num(u64, Option<String>),
    Bool(bool),
    Id(String),
    Un(Un, Box<Ex>),
    Bin(Bin, Box<Ex>, Box<Ex>),
    Call(Box<Ex>, Vec<Ex>),
    Member(Box<Ex>, String),
    Index(Box<Ex>, Box<Ex>),
    Struct(String, Vec<(String, Ex)>),
    Tuple(Vec<Ex>),
    TupIdx(Box<Ex>, u64),
    Arr(Vec<Ex>),
    Rep(Box<Ex>, u64),
    Cast(Box<Ex>, Ty),
    New(Ty, Box<Ex>),
    Paren(Box<Ex>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pat {
    Id(String),
    Tuple(Vec<Pat>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Let(Pat, Option<Ty>, Ex),
    Const(String, Option<Ty>, Ex),
    Assign(Ex, Ex),
    Return(Option<Ex>),
    If(Ex, Box<St>, Option<Box<St>>),
    Expr(Ex),
    Block(Vec<St>),
    Loop(Box<St>),
    While(Ex, Box<St>),
    For(Box<St>, Ex, Box<St>, Box<St>),
    Break,
    Continue,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct FnDef {
    pub name: String,
    pub params: Vec<(String, Ty)>,
    /// None: no `->` written, which means the unit type.
    pub ret: Option<Ty>,
    pub body: Vec<St>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Item {
    Fn(FnDef),
    Struct(String, Vec<(String, Ty)>),
    Const(String, Option<Ty>, Ex),
    Use(Vec<String>, UseItems),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum UseItems {
    Single(String),
    List(Vec<String>),
}
pub type Module = Vec<Item>;

/// Drops what formatting may change: redundant parentheses, and an explicit `-> ()`.
pub fn strip_ex(e: &Ex) -> Ex {
    let b = |e: &Ex| Box::new(strip_ex(e));
    match e {
        Ex::Paren(x) => strip_ex(x),
        Ex::Num(..) | Ex::Bool(_) | Ex::Id(_) => e.clone(),
        Ex::Un(o, x) => Ex::Un(*o, b(x)),
        Ex::Bin(o, x, y) => Ex::Bin(*o, b(x), b(y)),
        Ex::Call(f, a) => Ex::Call(b(f), a.iter().map(strip_ex).collect()),
        Ex::Member(x, f) => Ex::Member(b(x), f.clone()),
        Ex::Index(x, i) => Ex::Index(b(x), b(i)),
        Ex::Struct(n, fs) => Ex::Struct(n.clone(), fs.iter().map(|(n, e)| (n.clone(), strip_ex(e))).collect()),
        Ex::Tuple(a) => Ex::Tuple(a.iter().map(strip_ex).collect()),
        Ex::TupIdx(x, i) => Ex::TupIdx(b(x), *i),
        Ex::Arr(a) => Ex::Arr(a.iter().map(strip_ex).collect()),
        Ex::Rep(x, n) => Ex::Rep(b(x), *n),
        Ex::Cast(x, t) => Ex::Cast(b(x), t.clone()),
        Ex::New(t, n) => Ex::New(t.clone(), b(n)),
    }
}
pub fn strip_st(s: &St) -> St {
    let bs = |s: &St| Box::new(strip_st(s));
    match s {
        St::Let(p, t, e) => St::Let(p.clone(), t.clone(), strip_ex(e)),
        St::Const(n, t, e) => St::Const(n.clone(), t.clone(), strip_ex(e)),
        St::Assign(l, r) => St::Assign(strip_ex(l), strip_ex(r)),
        St::Return(e) => St::Return(e.as_ref().map(strip_ex)),
        St::If(c, t, e) => St::If(strip_ex(c), bs(t), e.as_ref().map(|e| bs(e))),
        St::Expr(e) => St::Expr(strip_ex(e)),
        St::Block(b) => St::Block(b.iter().map(strip_st).collect()),
        St::Loop(b) => St::Loop(bs(b)),
        St::While(c, b) => St::While(strip_ex(c), bs(b)),
        St::For(i, c, s, b) => St::For(bs(i), strip_ex(c), bs(s), bs(b)),
        St::Break => St::Break,
        St::Continue => St::Continue,
    }
}
pub fn strip_item(i: &Item) -> Item {
    match i {
        Item::Fn(f) => Item::Fn(FnDef {
            name: f.name.clone(),
            params: f.params.clone(),
            ret: if f.ret == Some(Ty::Tuple(vec![])) { None } else { f.ret.clone() },
            body: f.body.iter().map(strip_st).collect(),
        }),
        Item::Const(n, t, e) => Item::Const(n.clone(), t.clone(), strip_ex(e)),
        o => o.clone(),
    }
}
pub fn strip(m: &Module) -> Module { m.iter().map(strip_item).collect() }

/// Number of AST nodes, the size measure used in evidence.
pub fn ex_nodes(e: &Ex) -> usize {
    1 + match e {
        Ex::Num(..) | Ex::Bool(_) | Ex::Id(_) => 0,
        Ex::Un(_, x) | Ex::Member(x, _) | Ex::TupIdx(x, _) | Ex::Rep(x, _) | Ex::Cast(x, _) | Ex::New(_, x) | Ex::Paren(x) => ex_nodes(x),
        Ex::Bin(_, x, y) | Ex::Index(x, y) => ex_nodes(x) + ex_nodes(y),
        Ex::Call(f, a) => ex_nodes(f) + a.iter().map(ex_nodes).sum::<usize>(),
        Ex::Struct(_, f) => f.iter().map(|x| ex_nodes(&x.1)).sum(),
        Ex::Tuple(a) | Ex::Arr(a) => a.iter().map(ex_nodes).sum(),
    }
}
