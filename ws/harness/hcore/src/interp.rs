//! Reference interpreter for Cairo-M, written from the language rules, independent of the compiler.
//!
//! Scalars are values; tuples and structs are copied; fixed arrays and `new` regions are references.
use crate::ast::*;
use crate::gen_sem::{Structs, P};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    Felt(u64),
    U32(u32),
    Bool(bool),
    Tuple(Vec<V>),
    Struct(String, Vec<V>),
    Ref(Rc<RefCell<Vec<V>>>, bool),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    /// The program itself must fail: assertion, cast overflow, division by zero.
    Trap(&'static str),
    /// Outside what the rules define; the program is not judged.
    Undefined(&'static str),
    Steps,
}
enum Flow {
    Next,
    Break,
    Continue,
    Ret(V),
}
type R<T> = Result<T, Stop>;
pub struct Interp<'a> {
    fns: HashMap<&'a str, &'a FnDef>,
    consts: HashMap<&'a str, &'a Ex>,
    pub structs: &'a Structs,
    env: Vec<Vec<HashMap<String, V>>>,
    pub steps: u64,
    pub calls: u64,
    /// An array literal had an element that is the number zero.
    pub zeros: bool,
    limit: u64,
}
pub fn pow(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 { r = r * b % P }
        b = b * b % P;
        e >>= 1;
    }
    r
}
/// A copy with fresh arrays (arguments from outside the program).
pub fn deep(v: &V) -> V {
    match v {
        V::Tuple(x) => V::Tuple(x.iter().map(deep).collect()),
        V::Struct(n, x) => V::Struct(n.clone(), x.iter().map(deep).collect()),
        V::Ref(r, p) => V::Ref(Rc::new(RefCell::new(r.borrow().iter().map(deep).collect())), *p),
        v => v.clone(),
    }
}
fn kept(x: &Ex) -> bool { matches!(x, Ex::Call(f, _) if matches!(&**f, Ex::Id(n) if n.starts_with("kept_"))) }
fn zero(v: &V) -> bool { matches!(v, V::Felt(0) | V::U32(0)) }
pub fn unit() -> V { V::Tuple(vec![]) }
impl<'a> Interp<'a> {
    pub fn new(items: &'a [Item], structs: &'a Structs, limit: u64) -> Self {
        let (mut fns, mut consts) = (HashMap::new(), HashMap::new());
        for i in items {
            match i {
                Item::Fn(f) => { fns.insert(f.name.as_str(), f); }
                Item::Const(n, _, e) => { consts.insert(n.as_str(), e); }
                _ => {}
            }
        }
        Interp { fns, consts, structs, env: vec![], steps: 0, calls: 0, zeros: false, limit }
    }
    fn tick(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > self.limit { Err(Stop::Steps) } else { Ok(()) }
    }
    pub fn call(&mut self, f: &str, args: Vec<V>) -> R<V> {
        let d = *self.fns.get(f).ok_or(Stop::Undefined("no such function"))?;
        if d.params.len() != args.len() || self.env.len() > 60 {
            return Err(Stop::Undefined("arity or depth"));
        }
        self.calls += 1;
        let frame: HashMap<String, V> = d.params.iter().map(|p| p.0.clone()).zip(args).collect();
        self.env.push(vec![frame]);
        let r = self.seq(&d.body);
        self.env.pop();
        match r? {
            Flow::Ret(v) => Ok(v),
            _ => Err(Stop::Undefined("no return")),
        }
    }
    fn seq(&mut self, b: &'a [St]) -> R<Flow> {
        for s in b {
            match self.st(s)? {
                Flow::Next => {}
                f => return Ok(f),
            }
        }
        Ok(Flow::Next)
    }
    fn scoped(&mut self, s: &'a St) -> R<Flow> {
        self.env.last_mut().unwrap().push(HashMap::new());
        let r = match s {
            St::Block(b) => self.seq(b),
            s => self.st(s),
        };
        self.env.last_mut().unwrap().pop();
        r
    }
    fn bind(&mut self, n: &str, v: V) { self.env.last_mut().unwrap().last_mut().unwrap().insert(n.into(), v); }
    fn pat(&mut self, p: &Pat, v: V) -> R<()> {
        match (p, v) {
            (Pat::Id(n), v) => self.bind(n, v),
            (Pat::Tuple(ps), V::Tuple(vs)) if ps.len() == vs.len() => {
                for (p, v) in ps.iter().zip(vs) {
                    self.pat(p, v)?;
                }
            }
            _ => return Err(Stop::Undefined("pattern")),
        }
        Ok(())
    }
    fn cond(&mut self, c: &'a Ex) -> R<bool> {
        match self.ex(c)? {
            V::Bool(b) => Ok(b),
            _ => Err(Stop::Undefined("condition")),
        }
    }
    fn st(&mut self, s: &'a St) -> R<Flow> {
        self.tick()?;
        match s {
            St::Let(p, _, e) => {
                let v = self.ex(e)?;
                self.pat(p, v)?;
            }
            St::Const(n, _, e) => {
                let v = self.ex(e)?;
                self.bind(n, v);
            }
            St::Assign(l, r) => {
                let v = self.ex(r)?;
                self.store(l, v)?;
            }
            St::Return(e) => {
                let v = match e {
                    Some(e) => self.ex(e)?,
                    None => unit(),
                };
                return Ok(Flow::Ret(v));
            }
            St::If(c, t, e) => {
                if self.cond(c)? {
                    return self.scoped(t);
                } else if let Some(e) = e {
                    return self.scoped(e);
                }
            }
            St::Expr(e) => {
                self.ex(e)?;
            }
            St::Block(_) => return self.scoped(s),
            St::Loop(b) => loop {
                self.tick()?;
                match self.scoped(b)? {
                    Flow::Break => break,
                    Flow::Ret(v) => return Ok(Flow::Ret(v)),
                    _ => {}
                }
            },
            St::While(c, b) => {
                while self.cond(c)? {
                    self.tick()?;
                    match self.scoped(b)? {
                        Flow::Break => break,
                        Flow::Ret(v) => return Ok(Flow::Ret(v)),
                        _ => {}
                    }
                }
            }
            St::For(i, c, st, b) => {
                self.env.last_mut().unwrap().push(HashMap::new());
                let r = (|| {
                    self.st(i)?;
                    while self.cond(c)? {
                        self.tick()?;
                        match self.scoped(b)? {
                            Flow::Break => break,
                            Flow::Ret(v) => return Ok(Flow::Ret(v)),
                            _ => {}
                        }
                        self.st(st)?;
                    }
                    Ok(Flow::Next)
                })();
                self.env.last_mut().unwrap().pop();
                return r;
            }
            St::Break => return Ok(Flow::Break),
            St::Continue => return Ok(Flow::Continue),
        }
        Ok(Flow::Next)
    }
    fn field(&self, s: &str, f: &str) -> R<usize> {
        self.structs.get(s).and_then(|x| x.iter().position(|y| y.0 == f)).ok_or(Stop::Undefined("field"))
    }
    fn store(&mut self, l: &'a Ex, v: V) -> R<()> {
        // evaluate the path outside-in
        enum Step { Pos(usize), Elem(usize) }
        let mut path = vec![];
        let mut cur = l;
        let root = loop {
            match cur {
                Ex::Paren(x) => cur = x,
                Ex::Id(n) => break n,
                Ex::TupIdx(x, i) => {
                    path.push(Step::Pos(*i as usize));
                    cur = x;
                }
                Ex::Member(x, f) => {
                    let base = self.ex(x)?;
                    let V::Struct(s, _) = base else { return Err(Stop::Undefined("member of non-struct")) };
                    path.push(Step::Pos(self.field(&s, f)?));
                    cur = x;
                }
                Ex::Index(x, i) => {
                    let V::Felt(i) = self.ex(i)? else { return Err(Stop::Undefined("index type")) };
                    path.push(Step::Elem(i as usize));
                    cur = x;
                }
                _ => return Err(Stop::Undefined("target")),
            }
        };
        path.reverse();
        fn go(slot: &mut V, path: &[Step], v: V) -> R<()> {
            match (path.first(), slot) {
                (None, s) => {
                    *s = v;
                    Ok(())
                }
                (Some(Step::Pos(i)), V::Tuple(x) | V::Struct(_, x)) => go(x.get_mut(*i).ok_or(Stop::Undefined("position"))?, &path[1..], v),
                (Some(Step::Elem(i)), V::Ref(r, _)) => {
                    let r = r.clone();
                    let mut b = r.borrow_mut();
                    go(b.get_mut(*i).ok_or(Stop::Undefined("out of bounds"))?, &path[1..], v)
                }
                _ => Err(Stop::Undefined("path")),
            }
        }
        for sc in self.env.last_mut().unwrap().iter_mut().rev() {
            if let Some(slot) = sc.get_mut(root) {
                return go(slot, &path, v);
            }
        }
        Err(Stop::Undefined("unbound"))
    }
    fn default(&self, t: &Ty) -> V {
        match t {
            Ty::Felt => V::Felt(0),
            Ty::U32 => V::U32(0),
            Ty::Bool => V::Bool(false),
            Ty::Tuple(v) => V::Tuple(v.iter().map(|t| self.default(t)).collect()),
            Ty::Named(n) => V::Struct(n.clone(), self.structs[n].iter().map(|(_, t)| self.default(t)).collect()),
            Ty::Array(..) | Ty::Ptr(_) => V::Ref(Rc::new(RefCell::new(vec![])), true),
        }
    }
    pub fn ex(&mut self, e: &'a Ex) -> R<V> {
        self.tick()?;
        Ok(match e {
            Ex::Num(n, s) => match s.as_deref() {
                Some(s) if s.starts_with("u32") => V::U32(*n as u32),
                _ => V::Felt(*n % P),
            },
            Ex::Bool(b) => V::Bool(*b),
            Ex::Paren(x) => self.ex(x)?,
            Ex::Id(n) => {
                if let Some(v) = self.env.last().unwrap().iter().rev().find_map(|s| s.get(n)) {
                    return Ok(v.clone());
                }
                let c = *self.consts.get(n.as_str()).ok_or(Stop::Undefined("unbound"))?;
                return self.ex(c);
            }
            Ex::Un(o, x) => match (o, self.ex(x)?) {
                (Un::Not, V::Bool(b)) => V::Bool(!b),
                (Un::Neg, V::Felt(a)) => V::Felt((P - a) % P),
                (Un::Neg, V::U32(a)) => V::U32(a.wrapping_neg()),
                _ => return Err(Stop::Undefined("unary")),
            },
            Ex::Bin(o, x, y) => {
                let a = self.ex(x)?;
                let b = self.ex(y)?;
                bin(*o, a, b)?
            }
            Ex::Call(f, a) => {
                let Ex::Id(f) = &**f else { return Err(Stop::Undefined("callee")) };
                let mut args = vec![];
                for x in a {
                    args.push(self.ex(x)?);
                }
                if f == "assert" {
                    return match args.as_slice() {
                        [V::Bool(true)] => Ok(unit()),
                        [V::Bool(false)] => Err(Stop::Trap("assertion")),
                        _ => Err(Stop::Undefined("assert")),
                    };
                }
                self.call(f, args)?
            }
            Ex::Member(x, f) => match self.ex(x)? {
                V::Struct(s, v) => v[self.field(&s, f)?].clone(),
                _ => return Err(Stop::Undefined("member")),
            },
            Ex::TupIdx(x, i) => match self.ex(x)? {
                V::Tuple(v) => v.get(*i as usize).cloned().ok_or(Stop::Undefined("tuple index"))?,
                _ => return Err(Stop::Undefined("tuple index")),
            },
            Ex::Index(x, i) => {
                let a = self.ex(x)?;
                let V::Felt(i) = self.ex(i)? else { return Err(Stop::Undefined("index type")) };
                match a {
                    V::Ref(r, _) => {
                        let v = r.borrow().get(i as usize).cloned();
                        v.ok_or(Stop::Undefined("out of bounds"))?
                    }
                    _ => return Err(Stop::Undefined("index")),
                }
            }
            Ex::Struct(n, fs) => {
                let def = self.structs.get(n).ok_or(Stop::Undefined("struct"))?;
                let mut slots = vec![None; def.len()];
                for (f, e) in fs {
                    let i = self.field(n, f)?;
                    slots[i] = Some(self.ex(e)?);
                }
                let v: Option<Vec<V>> = slots.into_iter().collect();
                V::Struct(n.clone(), v.ok_or(Stop::Undefined("missing field"))?)
            }
            Ex::Tuple(a) => {
                let mut v = vec![];
                for x in a {
                    v.push(self.ex(x)?);
                }
                V::Tuple(v)
            }
            Ex::Arr(a) => {
                let mut v = vec![];
                for x in a {
                    v.push(self.ex(x)?);
                    self.zeros |= zero(v.last().unwrap()) && !kept(x);
                }
                V::Ref(Rc::new(RefCell::new(v)), false)
            }
            Ex::Rep(x, n) => {
                let v = self.ex(x)?;
                self.zeros |= zero(&v) && !kept(x);
                V::Ref(Rc::new(RefCell::new(vec![v; *n as usize])), false)
            }
            Ex::Cast(x, t) => match (self.ex(x)?, t) {
                (V::U32(a), Ty::Felt) => {
                    if a as u64 >= P {
                        return Err(Stop::Trap("cast"));
                    }
                    V::Felt(a as u64)
                }
                _ => return Err(Stop::Undefined("cast")),
            },
            Ex::New(t, n) => {
                let V::Felt(n) = self.ex(n)? else { return Err(Stop::Undefined("new count")) };
                if n > 1000 {
                    return Err(Stop::Undefined("huge allocation"));
                }
                V::Ref(Rc::new(RefCell::new(vec![self.default(t); n as usize])), true)
            }
        })
    }
}
fn bin(o: Bin, a: V, b: V) -> R<V> {
    use Bin::*;
    Ok(match (a, b) {
        (V::Felt(a), V::Felt(b)) => match o {
            Add => V::Felt((a + b) % P),
            Sub => V::Felt((a + P - b) % P),
            Mul => V::Felt(a * b % P),
            Div => {
                if b == 0 { return Err(Stop::Trap("division")); }
                V::Felt(a * pow(b, P - 2) % P)
            }
            Eq => V::Bool(a == b),
            Neq => V::Bool(a != b),
            _ => return Err(Stop::Undefined("operator")),
        },
        (V::U32(a), V::U32(b)) => match o {
            Add => V::U32(a.wrapping_add(b)),
            Sub => V::U32(a.wrapping_sub(b)),
            Mul => V::U32(a.wrapping_mul(b)),
            Div | Mod => {
                if b == 0 { return Err(Stop::Trap("division")); }
                V::U32(if o == Div { a / b } else { a % b })
            }
            BAnd => V::U32(a & b),
            BOr => V::U32(a | b),
            BXor => V::U32(a ^ b),
            Eq => V::Bool(a == b),
            Neq => V::Bool(a != b),
            Lt => V::Bool(a < b),
            Gt => V::Bool(a > b),
            Le => V::Bool(a <= b),
            Ge => V::Bool(a >= b),
            And | Or => return Err(Stop::Undefined("operator")),
        },
        (V::Bool(a), V::Bool(b)) => match o {
            And => V::Bool(a && b),
            Or => V::Bool(a || b),
            Eq => V::Bool(a == b),
            Neq => V::Bool(a != b),
            _ => return Err(Stop::Undefined("operator")),
        },
        _ => return Err(Stop::Undefined("operands")),
    })
}
/// Structural text of a value, arrays by content.
pub fn show(v: &V) -> String {
    match v {
        V::Felt(a) => format!("{a}"),
        V::U32(a) => format!("{a}u32"),
        V::Bool(b) => format!("{b}"),
        V::Tuple(x) => format!("({})", x.iter().map(show).collect::<Vec<_>>().join(", ")),
        V::Struct(_, x) => format!("{{{}}}", x.iter().map(show).collect::<Vec<_>>().join(", ")),
        V::Ref(_, true) => "ptr".into(),
        V::Ref(r, false) => format!("[{}]", r.borrow().iter().map(show).collect::<Vec<_>>().join(", ")),
    }
}
