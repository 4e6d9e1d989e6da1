//! Generator of well-typed Cairo-M programs whose behaviour is fixed by the language rules.
//!
//! Literal suffixes: `Some("felt?")`/`Some("u32?")` carry the type of a literal written without a
//! suffix; `unhint` drops them before rendering.
use crate::ast::*;
use crate::gen_syn::norm_item;
use crate::rng::Rng;
use std::collections::HashMap;

pub const P: u64 = (1 << 31) - 1;

#[derive(Clone, Debug)]
pub struct Param {
    pub name: String,
    pub ty: Ty,
    /// For a felt used as an index: arguments stay below this; for a pointer: at least as many elements are there.
    pub bound: Option<u64>,
}
#[derive(Clone, Debug)]
pub struct Sig {
    pub name: String,
    pub params: Vec<Param>,
    pub ret: Ty,
    /// Evaluating a call can be seen by the caller's other reads (it writes through a parameter).
    pub effects: bool,
    /// Recursion fuel is the first parameter.
    pub fuel: bool,
}
#[derive(Clone, Debug)]
pub struct Prog {
    /// One module, every item; entry function is `main`.
    pub items: Module,
    pub main: Sig,
    pub structs: Structs,
}
pub type Structs = HashMap<String, Vec<(String, Ty)>>;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub arrays: bool,
    pub pointers: bool,
    pub structs: bool,
    pub tuples: bool,
    pub calls: bool,
    pub loops: bool,
    pub consts: bool,
    pub asserts: bool,
    pub max_stmts: usize,
    pub depth: usize,
    /// Expression budget of a function.
    pub size: isize,
    /// Divisors that may be zero and casts of values that may not fit: errors at run time.
    pub may_stop: bool,
}
impl Cfg {
    pub fn full() -> Cfg { Cfg { arrays: true, pointers: true, structs: true, tuples: true, calls: true, loops: true, consts: true, asserts: true, max_stmts: 12, depth: 3, size: 60, may_stop: false } }
    pub fn random(r: &mut Rng) -> Cfg {
        let mut c = Cfg::random0(r);
        if let Ok(off) = std::env::var("VERIF_OFF") {
            for x in off.chars() {
                match x { 'a' => c.arrays = false, 'p' => c.pointers = false, 's' => c.structs = false, 'c' => c.calls = false, 'l' => c.loops = false, 'k' => c.consts = false, 't' => c.tuples = false, _ => {} }
            }
        }
        c
    }
    fn random0(r: &mut Rng) -> Cfg {
        Cfg {
            tuples: r.chance(7, 8),
            arrays: r.chance(3, 4),
            pointers: r.chance(1, 2),
            structs: r.chance(3, 4),
            calls: r.chance(4, 5),
            loops: r.chance(3, 4),
            consts: r.chance(1, 2),
            asserts: r.chance(1, 3),
            max_stmts: *r.pick(&[2, 3, 3, 4, 4, 6, 6, 10, 16]),
            depth: *r.pick(&[1, 2, 3, 3, 4]),
            size: *r.pick(&[8, 12, 12, 20, 20, 40, 60]),
            may_stop: false,
        }
    }
}
#[derive(Clone, Debug)]
struct Var {
    name: String,
    ty: Ty,
    /// May be the root of an assignment.
    assign: bool,
    /// A compile-time constant array or scalar (arrays only indexable).
    konst: bool,
    bound: Option<u64>,
    depth: usize,
}
pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub cfg: Cfg,
    pub structs: Structs,
    struct_names: Vec<String>,
    sigs: Vec<Sig>,
    scopes: Vec<Vec<Var>>,
    loop_depth: usize,
    /// what `continue` needs first: None outside loops, Some(steps)
    cont: Vec<Vec<St>>,
    ret: Ty,
    budget: isize,
    pure_: usize,
    next: usize,
    cur_fn_effects: bool,
    in_main: bool,
    /// What functions compute along the way is folded into a cell that the program returns.
    log: bool,
}
pub fn has_array(t: &Ty, s: &Structs) -> bool {
    match t {
        Ty::Array(..) => true,
        Ty::Tuple(v) => v.iter().any(|t| has_array(t, s)),
        Ty::Named(n) => s.get(n).is_some_and(|f| f.iter().any(|(_, t)| has_array(t, s))),
        _ => false,
    }
}
pub fn has_ref(t: &Ty, s: &Structs) -> bool {
    match t {
        Ty::Array(..) | Ty::Ptr(..) => true,
        Ty::Tuple(v) => v.iter().any(|t| has_ref(t, s)),
        Ty::Named(n) => s.get(n).is_some_and(|f| f.iter().any(|(_, t)| has_ref(t, s))),
        _ => false,
    }
}
/// Array elements that are literally zero are left out: see known finding zero-array-element.
fn lift(e: Ex) -> Ex {
    match e {
        Ex::Num(0, s) => Ex::Num(1, s),
        e => e,
    }
}
fn lit(n: u64, s: &str) -> Ex { Ex::Num(n, Some(s.into())) }
fn id(n: &str) -> Ex { Ex::Id(n.into()) }
fn bx(e: Ex) -> Box<Ex> { Box::new(e) }
fn bx_ty(t: Ty) -> Box<Ty> { Box::new(t) }

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, cfg: Cfg) -> Self {
        Gen {
            r, cfg, structs: HashMap::new(), struct_names: vec![], sigs: vec![], scopes: vec![], loop_depth: 0, cont: vec![],
            ret: Ty::Tuple(vec![]), budget: 0, pure_: 0, next: 0, cur_fn_effects: false, in_main: false, log: false,
        }
    }
    fn fresh(&mut self, p: &str) -> String {
        self.next += 1;
        format!("{p}{}", self.next)
    }
    fn scalar(&mut self) -> Ty { self.r.pick(&[Ty::Felt, Ty::Felt, Ty::U32, Ty::U32, Ty::Bool]).clone() }
    /// `arr`: arrays allowed inside; `ptr`: pointers allowed.
    fn ty(&mut self, d: usize, arr: bool, ptr: bool) -> Ty {
        if d == 0 || self.r.chance(1, 2) {
            return self.scalar();
        }
        if self.cfg.tuples && self.r.chance(1, 40) {
            return Ty::Tuple(vec![]);
        }
        match self.r.below(6) {
            0 | 1 if self.cfg.structs && !self.struct_names.is_empty() => {
                for _ in 0..4 {
                    let n = self.r.pick(&self.struct_names).clone();
                    let t = Ty::Named(n);
                    if (arr || !has_array(&t, &self.structs)) && (ptr || !has_ref(&t, &self.structs) || (arr && !has_ptr(&t, &self.structs))) {
                        return t;
                    }
                }
                self.scalar()
            }
            2 | 3 if self.cfg.tuples => {
                let n = *self.r.pick(&[2usize, 2, 2, 3, 4, 1]);
                Ty::Tuple((0..n).map(|_| self.ty(d - 1, arr, ptr)).collect())
            }
            4 if arr && self.cfg.arrays => {
                let n = self.r.range(1, 5) as u64;
                Ty::Array(Box::new(self.ty(d - 1, false, false)), n)
            }
            5 if ptr && self.cfg.pointers => Ty::Ptr(Box::new(self.ty(d - 1, false, false))),
            _ => self.scalar(),
        }
    }
    fn vars(&self) -> Vec<Var> {
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        for s in self.scopes.iter().rev() {
            for v in s.iter().rev() {
                if seen.insert(v.name.clone()) {
                    out.push(v.clone());
                }
            }
        }
        out
    }
    fn declare(&mut self, name: &str, ty: Ty, assign: bool, bound: Option<u64>) {
        let v = Var { name: name.into(), ty, assign, konst: false, bound, depth: self.loop_depth };
        self.scopes.last_mut().unwrap().push(v);
    }
    fn felt_lit(&mut self) -> u64 {
        match self.r.below(8) {
            0 => 0,
            1 => 1,
            2 | 3 => self.r.below(10) as u64,
            4 => self.r.below(70000) as u64,
            5 => P - 1 - self.r.below(3) as u64,
            6 => *self.r.pick(&[65535, 65536, 32767, 32768, 1 << 20, 1 << 30]),
            _ => self.r.next() % P,
        }
    }
    fn u32_lit(&mut self) -> u64 {
        match self.r.below(8) {
            0 => 0,
            1 => 1,
            2 | 3 => self.r.below(10) as u64,
            4 => *self.r.pick(&[65535, 65536, 65537, 131071, 1 << 31, (1 << 31) - 1, 4294901760, 4294901761]),
            5 => u32::MAX as u64 - self.r.below(3) as u64,
            6 => self.r.next() & 0xffff_0000,
            _ => self.r.next() & 0xffff_ffff,
        }
    }
    /// Places of type `t` reachable from variables in scope (`assign`: usable as assignment target).
    fn places(&mut self, t: &Ty, assign: bool, want: usize) -> Vec<(Ex, Var)> {
        let mut vs = self.vars();
        // often what was computed last, so that it is seen in the end
        if self.r.chance(2, 3) { self.r.shuffle(&mut vs) }
        let mut out = vec![];
        for v in vs {
            if assign && !v.assign {
                continue;
            }
            if out.len() >= want {
                break;
            }
            self.paths(id(&v.name), &v.ty.clone(), &v, t, assign, 3, &mut out);
        }
        out
    }
    fn paths(&mut self, e: Ex, et: &Ty, v: &Var, t: &Ty, assign: bool, d: usize, out: &mut Vec<(Ex, Var)>) {
        if et == t && !(v.konst && matches!(et, Ty::Array(..))) && !(assign && v.bound.is_some() && matches!(e, Ex::Id(_))) {
            out.push((e.clone(), v.clone()));
        }
        if d == 0 {
            return;
        }
        match et {
            Ty::Tuple(ts) => {
                for (i, x) in ts.iter().enumerate() {
                    self.paths(Ex::TupIdx(bx(e.clone()), i as u64), x, v, t, assign, d - 1, out);
                }
            }
            Ty::Named(n) => {
                if let Some(fs) = self.structs.get(n).cloned() {
                    for (f, x) in fs {
                        self.paths(Ex::Member(bx(e.clone()), f.clone()), &x, v, t, assign, d - 1, out);
                    }
                }
            }
            Ty::Array(x, n) => {
                let i = self.index(*n);
                self.paths(Ex::Index(bx(e), bx(i)), x, v, t, assign, d - 1, out);
            }
            Ty::Ptr(x) if v.bound.is_some() && matches!(e, Ex::Id(_)) => {
                let i = self.index(v.bound.unwrap());
                self.paths(Ex::Index(bx(e), bx(i)), x, v, t, assign, d - 1, out);
            }
            _ => {}
        }
    }
    /// An in-range index expression for a length.
    fn index(&mut self, n: u64) -> Ex {
        let c: Vec<Var> = self.vars().into_iter().filter(|v| v.ty == Ty::Felt && v.bound.is_some_and(|b| b <= n)).collect();
        if !c.is_empty() && self.r.chance(3, 4) {
            let v = self.r.pick(&c).clone();
            let b = v.bound.unwrap();
            if b < n && self.r.chance(1, 3) {
                return Ex::Bin(Bin::Add, bx(id(&v.name)), bx(lit(n - b, "felt?")));
            }
            return id(&v.name);
        }
        lit(self.r.below(n as usize) as u64, "felt?")
    }
    fn lit_ex(&mut self, t: &Ty, ctx: bool) -> Ex {
        match t {
            Ty::Felt => {
                let n = self.felt_lit();
                lit(n, if self.r.chance(1, 4) { "felt" } else { "felt?" })
            }
            Ty::U32 => {
                let n = self.u32_lit();
                lit(n, if !ctx || self.r.chance(1, 4) { "u32" } else { "u32?" })
            }
            _ => Ex::Bool(self.r.chance(1, 2)),
        }
    }
    fn nonzero(&mut self, t: &Ty) -> Ex {
        let n = match t {
            Ty::Felt => 1 + self.felt_lit() % (P - 1),
            _ => (self.u32_lit() % 0xffff_ffff) + 1,
        };
        lit(n, if *t == Ty::Felt { "felt" } else { "u32" })
    }
    /// An expression of type `t`. `ctx`: the context tells the checker the type.
    pub fn ex(&mut self, t: &Ty, d: usize, ctx: bool) -> Ex {
        self.budget -= 1;
        if self.budget < 0 || d == 0 {
            return self.leaf(t, ctx);
        }
        if self.r.chance(1, 3) {
            return self.leaf(t, ctx);
        }
        if self.r.chance(1, 6) {
            if let Some(e) = self.call(t, d - 1) {
                return e;
            }
        }
        if self.r.chance(1, 12) {
            // project out of a freshly built aggregate
            let other = self.scalar();
            let i = self.r.below(2);
            let ts = if i == 0 { [t.clone(), other] } else { [other, t.clone()] };
            if !has_array(t, &self.structs) {
                let es = ts.iter().map(|x| self.ex(x, d - 1, false)).collect();
                return Ex::TupIdx(bx(Ex::Tuple(es)), i as u64);
            }
        }
        match t {
            Ty::Felt => match self.r.below(9) {
                0..=2 => self.bin(Bin::Add, t, d),
                3 => self.bin(Bin::Sub, t, d),
                4 | 5 => self.bin(Bin::Mul, t, d),
                6 => {
                    let x = self.nonlit(t, d - 1);
                    Ex::Un(Un::Neg, bx(x))
                }
                7 => {
                    let x = self.ex(t, d - 1, false);
                    let y = self.risky(t, &x, d).unwrap_or_else(|| self.nonzero(t));
                    Ex::Bin(Bin::Div, bx(x), bx(y))
                }
                _ => {
                    let x = self.ex(&Ty::U32, d - 1, false);
                    if self.cfg.may_stop && self.r.chance(1, 8) { return Ex::Cast(bx(x), Ty::Felt) }
                    let m = *self.r.pick(&[255u64, 65535, 0x3fff_ffff, 0x7fff_0000]);
                    Ex::Cast(bx(Ex::Bin(Bin::BAnd, bx(x), bx(lit(m, "u32")))), Ty::Felt)
                }
            },
            Ty::U32 => match self.r.below(12) {
                0..=2 => self.bin(Bin::Add, t, d),
                3 | 4 => self.bin(Bin::Sub, t, d),
                5 | 6 => self.bin(Bin::Mul, t, d),
                7 | 8 => {
                    let x = self.ex(t, d - 1, false);
                    let y = if let Some(y) = self.risky(t, &x, d) {
                        y
                    } else if self.r.chance(1, 2) {
                        self.nonzero(t)
                    } else {
                        let y = self.ex(t, d - 1, false);
                        Ex::Bin(Bin::BOr, bx(y), bx(lit(1 << self.r.below(32), "u32")))
                    };
                    Ex::Bin(if self.r.chance(1, 2) { Bin::Div } else { Bin::Mod }, bx(x), bx(y))
                }
                9 => self.bin(Bin::BAnd, t, d),
                10 => self.bin(Bin::BOr, t, d),
                _ => self.bin(Bin::BXor, t, d),
            },
            Ty::Bool => match self.r.below(9) {
                0 => {
                    let x = self.ex(t, d - 1, false);
                    Ex::Un(Un::Not, bx(x))
                }
                1 | 2 => {
                    let o = if self.r.chance(1, 2) { Bin::And } else { Bin::Or };
                    let x = self.ex(t, d - 1, false);
                    self.pure_ += 1;
                    let y = self.ex(t, d - 1, false);
                    self.pure_ -= 1;
                    Ex::Bin(o, bx(x), bx(y))
                }
                3 | 4 => {
                    let o = if self.r.chance(1, 2) { Bin::Eq } else { Bin::Neq };
                    let s = self.scalar();
                    self.bin(o, &s, d)
                }
                _ => {
                    let o = *self.r.pick(&[Bin::Lt, Bin::Gt, Bin::Le, Bin::Ge, Bin::Eq, Bin::Neq]);
                    self.bin(o, &Ty::U32, d)
                }
            },
            _ => self.build(t, d - 1, ctx),
        }
    }
    /// Like `ex` but never a bare literal.
    fn nonlit(&mut self, t: &Ty, d: usize) -> Ex {
        let e = self.ex(t, d, false);
        if matches!(e, Ex::Num(..)) {
            let ps = self.places(t, false, 1);
            if let Some(p) = ps.first() {
                return p.0.clone();
            }
            let y = self.lit_ex(t, true);
            return Ex::Bin(Bin::Add, bx(with_suffix(e)), bx(y));
        }
        e
    }
    fn bin(&mut self, o: Bin, t: &Ty, d: usize) -> Ex {
        let x = self.ex(t, d - 1, false);
        let mut y = self.ex(t, d - 1, true);
        // sometimes compare or combine a value with itself, which simplifications care about
        if self.r.chance(1, 10) && self.pure_tree(&x) {
            y = x.clone();
        }
        Ex::Bin(o, bx(x), bx(y))
    }
    /// A divisor that may be zero, where the program is to have some: the dividend itself, or anything.
    fn risky(&mut self, t: &Ty, x: &Ex, d: usize) -> Option<Ex> {
        if !self.cfg.may_stop { return None }
        if self.r.chance(1, 6) && self.pure_tree(x) { return Some(x.clone()) }
        if self.r.chance(1, 12) { Some(self.nonlit(t, d - 1)) } else { None }
    }
    fn pure_tree(&self, e: &Ex) -> bool {
        match e {
            Ex::Call(..) | Ex::New(..) => false,
            Ex::Num(..) | Ex::Bool(_) | Ex::Id(_) => true,
            Ex::Un(_, x) | Ex::Member(x, _) | Ex::TupIdx(x, _) | Ex::Rep(x, _) | Ex::Cast(x, _) | Ex::Paren(x) => self.pure_tree(x),
            Ex::Bin(_, x, y) | Ex::Index(x, y) => self.pure_tree(x) && self.pure_tree(y),
            Ex::Struct(_, f) => f.iter().all(|x| self.pure_tree(&x.1)),
            Ex::Tuple(a) | Ex::Arr(a) => a.iter().all(|x| self.pure_tree(x)),
        }
    }
    fn leaf(&mut self, t: &Ty, ctx: bool) -> Ex {
        if self.r.chance(3, 4) {
            let ps = self.places(t, false, 6);
            if !ps.is_empty() {
                return self.r.pick(&ps).0.clone();
            }
        }
        if matches!(t, Ty::Felt | Ty::U32 | Ty::Bool) {
            return self.lit_ex(t, ctx);
        }
        self.build(t, 1, ctx)
    }
    /// A constructor expression.
    fn build(&mut self, t: &Ty, d: usize, ctx: bool) -> Ex {
        match t {
            Ty::Tuple(ts) => Ex::Tuple(ts.iter().map(|t| self.ex(t, d, ctx)).collect()),
            Ty::Named(n) => {
                let mut fs: Vec<(String, Ex)> = vec![];
                for (f, t) in self.structs[n].clone() {
                    let e = self.ex(&t, d, true);
                    fs.push((f, e));
                }
                Ex::Struct(n.clone(), fs)
            }
            Ty::Array(x, n) => {
                if self.r.chance(1, 4) {
                    let e = if self.r.chance(1, 2) && matches!(**x, Ty::Felt | Ty::U32) { self.nonzero(x) } else { lift(self.ex(x, d, ctx)) };
                    if self.pure_tree(&e) {
                        return Ex::Rep(bx(e), *n);
                    }
                }
// elements are all unsuffixed (the context types them) or all typed on their own
                let num = match **x {
                    Ty::Felt => Some("felt"),
                    Ty::U32 => Some("u32"),
                    _ => None,
                };
                let soft = ctx && num.is_some() && self.r.chance(1, 3);
                Ex::Arr(
                    (0..*n)
                        .map(|_| match num {
                            Some("felt") if soft => {
                                let n = self.felt_lit();
                                lift(lit(n, "felt?"))
                            }
                            Some(_) if soft => {
                                let n = self.u32_lit();
                                lift(lit(n, "u32?"))
                            }
                            _ => lift(self.ex(x, d, false)),
                        })
                        .collect(),
                )
            }
            Ty::Ptr(x) => Ex::New((**x).clone(), bx(lit(self.r.range(1, 4) as u64, "felt?"))),
            Ty::Felt | Ty::U32 | Ty::Bool => self.lit_ex(t, ctx),
        }
    }
    fn call(&mut self, t: &Ty, d: usize) -> Option<Ex> {
        if !self.cfg.calls {
            return None;
        }
        let c: Vec<Sig> = self.sigs.iter().filter(|s| s.ret == *t && (self.pure_ == 0 || !s.effects)).cloned().collect();
        if c.is_empty() {
            return None;
        }
        let s = self.r.pick(&c).clone();
        self.call_to(&s, d)
    }
    fn call_to(&mut self, s: &Sig, d: usize) -> Option<Ex> {
        let mut args = vec![];
        for (i, p) in s.params.clone().iter().enumerate() {
            let twin = i > 0 && has_ref(&p.ty, &self.structs) && s.params[i - 1].ty == p.ty && s.params[i - 1].bound == p.bound;
            let e = if p.name == "lg" {
                id("lg")
            } else if let (true, Some(e @ Ex::Id(_)), true) = (twin, args.last(), self.r.chance(2, 3)) {
                e.clone()
            } else if i == 0 && s.fuel {
                lit(self.r.below(4) as u64, if p.ty == Ty::U32 { "u32" } else { "felt?" })
            } else if matches!(p.ty, Ty::Ptr(_)) {
                let vs: Vec<Var> = self.vars().into_iter().filter(|v| v.ty == p.ty && v.bound >= p.bound).collect();
                if vs.is_empty() { return None }
                id(&self.r.pick(&vs).name)
            } else if let Some(b) = p.bound {
                let vs: Vec<Var> = self.vars().into_iter().filter(|v| v.ty == Ty::Felt && v.bound.is_some_and(|x| x <= b)).collect();
                if !vs.is_empty() && self.r.chance(3, 4) { id(&self.r.pick(&vs).name.clone()) } else { lit(self.r.below(b as usize) as u64, "felt?") }
            } else if has_ref(&p.ty, &self.structs) {
                let ps = self.places(&p.ty, false, 4);
                if !ps.is_empty() && self.r.chance(4, 5) {
                    self.r.pick(&ps).0.clone()
                } else if has_ptr(&p.ty, &self.structs) {
                    if ps.is_empty() { return None }
                    self.r.pick(&ps).0.clone()
                } else {
                    self.build(&p.ty, d, true)
                }
            } else {
                self.ex(&p.ty, d, true)
            };
            args.push(e);
        }
        if s.effects {
            self.cur_fn_effects = true;
        }
        Some(Ex::Call(bx(id(&s.name)), args))
    }
    fn new_name(&mut self) -> String {
        if self.r.chance(1, 10) {
            // shadow something that is not needed as a loop counter or bound
            let vs: Vec<Var> = self.vars().into_iter().filter(|v| v.bound.is_none() && v.assign && v.depth == self.loop_depth).collect();
            if !vs.is_empty() {
                return self.r.pick(&vs).name.clone();
            }
        }
        self.fresh("v")
    }
    /// Declares a pointer to `len` elements.
    fn allocate(&mut self, x: &Ty, len: u64, out: &mut Vec<St>) {
        let n = self.fresh("p");
        if self.r.chance(1, 2) {
            // through a runtime count
            let cn = self.fresh("n");
            out.push(St::Let(Pat::Id(cn.clone()), None, lit(len, "felt")));
            self.declare(&cn, Ty::Felt, false, Some(len + 1));
            out.push(St::Let(Pat::Id(n.clone()), None, Ex::New(x.clone(), bx(id(&cn)))));
        } else {
            let ann = self.r.chance(1, 2).then(|| Ty::Ptr(bx_ty(x.clone())));
            out.push(St::Let(Pat::Id(n.clone()), ann, Ex::New(x.clone(), bx(lit(len, "felt?")))));
        }
        for i in 0..len {
            let e = self.ex(x, 2, true);
            out.push(St::Assign(Ex::Index(bx(id(&n)), bx(lit(i, "felt?"))), e));
        }
        // a pointer is read through an array-typed view of it in the generator's eyes
        let v = Var { name: n, ty: Ty::Ptr(bx_ty(x.clone())), assign: false, konst: false, bound: Some(len), depth: self.loop_depth };
        self.scopes.last_mut().unwrap().push(v);
    }
    fn let_(&mut self, out: &mut Vec<St>) {
        let t = self.ty(2, true, true);
        if let Ty::Ptr(x) = &t {
            let len = self.r.range(1, 4) as u64;
            return self.allocate(x, len, out);
        }
        let d = self.r.range(0, self.cfg.depth);
        if let (Ty::Tuple(ts), true) = (&t, self.r.chance(1, 2) && matches!(&t, Ty::Tuple(v) if v.len() > 1)) {
            let e = self.ex(&t, d, false);
            let mut binds = vec![];
            let p = self.pat(ts, &mut binds);
            // the unannotated form needs every literal to be self-typed; an annotation settles it
            out.push(St::Let(p, Some(t.clone()), e));
            for (n, t) in binds {
                self.declare(&n, t, true, None);
            }
            return;
        }
        let ann = self.r.chance(1, 2) || !matches!(t, Ty::Felt | Ty::U32 | Ty::Bool | Ty::Named(_));
        let e = self.ex(&t, d, ann);
        let n = self.new_name();
        out.push(St::Let(Pat::Id(n.clone()), ann.then(|| t.clone()), e));
        self.declare(&n, t, true, None);
    }
    /// Declares, or assigns afresh, an array that is never referred to as a whole, so that it can be replaced at any
    /// loop depth without two of its values being alive at once.
    fn own_array(&mut self, out: &mut Vec<St>) {
        let vs: Vec<Var> = self.vars().into_iter().filter(|v| v.konst && v.assign && matches!(v.ty, Ty::Array(..))).collect();
        let old = (!vs.is_empty() && self.r.chance(2, 3)).then(|| self.r.pick(&vs).clone());
        let (x, n) = match old.as_ref().map(|v| &v.ty) {
            Some(Ty::Array(x, n)) => ((**x).clone(), *n),
            _ => (self.scalar(), self.r.range(1, 4) as u64),
        };
        let mut e = vec![];
        for _ in 0..n {
            e.push(lift(self.ex(&x, 2, false)));
        }
        match old {
            Some(v) => out.push(St::Assign(id(&v.name), Ex::Arr(e))),
            None => {
                let name = self.fresh("w");
                let t = Ty::Array(bx_ty(x), n);
                out.push(St::Let(Pat::Id(name.clone()), Some(t.clone()), Ex::Arr(e)));
                self.scopes.last_mut().unwrap().push(Var { name, ty: t, assign: true, konst: true, bound: None, depth: self.loop_depth });
            }
        }
    }
    /// Two arrays, or an array and a tuple, of the same elements.
    fn twins(&mut self, out: &mut Vec<St>) {
        let x = self.scalar();
        let n = self.r.range(1, 3) as u64;
        let vs: Vec<Ex> = (0..n).map(|_| lift(self.leaf(&x, false))).collect();
        let arr = Ty::Array(bx_ty(x.clone()), n);
        for k in 0..2 {
            let name = self.fresh("y");
            let (t, e) = if k == 1 && n > 1 && self.r.chance(1, 2) { (Ty::Tuple(vec![x.clone(); n as usize]), Ex::Tuple(vs.clone())) } else { (arr.clone(), Ex::Arr(vs.clone())) };
            out.push(St::Let(Pat::Id(name.clone()), Some(t.clone()), e));
            self.declare(&name, t, true, None);
        }
    }
    /// One array or allocation under two names, read and written through both.
    fn alias(&mut self, out: &mut Vec<St>) {
        let refs = |v: &Var| match &v.ty {
            Ty::Array(x, n) if !v.konst => Some(((**x).clone(), *n)),
            Ty::Ptr(x) => v.bound.map(|n| ((**x).clone(), n)),
            _ => None,
        };
        let vs: Vec<Var> = self.vars().into_iter().filter(|v| refs(v).is_some()).collect();
        if vs.is_empty() {
            return self.let_(out);
        }
        let paired: Vec<Var> = vs.iter().filter(|v| vs.iter().any(|w| w.name != v.name && w.ty == v.ty && w.bound == v.bound)).cloned().collect();
        let from = if paired.is_empty() || self.r.chance(1, 3) { &vs } else { &paired };
        let a = self.r.pick(from).clone();
        let (x, n) = refs(&a).unwrap();
        let others: Vec<&Var> = vs.iter().filter(|v| v.ty == a.ty && v.bound == a.bound && v.name != a.name).collect();
        let b = if !others.is_empty() && self.r.chance(2, 3) {
            (*self.r.pick(&others)).clone()
        } else {
            let name = self.fresh("u");
            let ann = self.r.chance(1, 2).then(|| a.ty.clone());
            out.push(St::Let(Pat::Id(name.clone()), ann, id(&a.name)));
            let b = Var { name, depth: self.loop_depth, ..a.clone() };
            self.scopes.last_mut().unwrap().push(b.clone());
            if !others.is_empty() && self.r.chance(1, 2) {
                // whichever of the two
                let o = self.r.pick(&others).name.clone();
                let c = self.ex(&Ty::Bool, 1, false);
                out.push(St::If(c, Box::new(St::Block(vec![St::Assign(id(&b.name), id(&o))])), None));
            }
            b
        };
        let i = self.index(n);
        let steps = self.r.range(2, 5);
        // read, write, read through another name, or anything
        let usual = self.r.chance(1, 2);
        for k in 0..steps {
            let v = if usual && k % 2 == 1 || !usual && self.r.chance(1, 2) { &a } else { &b };
            let i = if usual || self.r.chance(3, 4) { i.clone() } else { self.index(n) };
            let at = Ex::Index(bx(id(&v.name)), bx(i));
            if usual && k % 2 == 1 || !usual && self.r.chance(1, 2) {
                let e = self.leaf(&x, true);
                out.push(St::Assign(at, e));
            } else {
                let name = self.fresh("r");
                out.push(St::Let(Pat::Id(name.clone()), None, at));
                self.declare(&name, x.clone(), true, None);
            }
        }
    }
    /// Moves values between places of one type: a swap, a rotation, a shift.
    fn rotate(&mut self, places: &[Ex], t: &Ty, out: &mut Vec<St>) {
        let n = places.len();
        match self.r.below(if matches!(t, Ty::Felt | Ty::U32) { 5 } else { 3 }) {
            // through a temporary
            0 | 1 => {
                let z = self.fresh("z");
                out.push(St::Let(Pat::Id(z.clone()), None, places[0].clone()));
                for k in 1..n {
                    out.push(St::Assign(places[k - 1].clone(), places[k].clone()));
                }
                out.push(St::Assign(places[n - 1].clone(), id(&z)));
            }
            // through a tuple
            2 => {
                let zs: Vec<String> = (0..n).map(|_| self.fresh("z")).collect();
                let from = (0..n).map(|k| places[(k + 1) % n].clone()).collect();
                out.push(St::Let(Pat::Tuple(zs.iter().map(|z| Pat::Id(z.clone())).collect()), None, Ex::Tuple(from)));
                for (p, z) in places.iter().zip(&zs) {
                    out.push(St::Assign(p.clone(), id(z)));
                }
            }
            // the next of a recurrence
            _ => {
                let z = self.fresh("z");
                let o = *self.r.pick(&[Bin::Add, Bin::Add, Bin::Sub, Bin::Mul]);
                let i = self.r.below(n);
                out.push(St::Let(Pat::Id(z.clone()), None, Ex::Bin(o, bx(places[0].clone()), bx(places[i].clone()))));
                for k in 1..n {
                    out.push(St::Assign(places[k - 1].clone(), places[k].clone()));
                }
                out.push(St::Assign(places[n - 1].clone(), id(&z)));
            }
        }
    }
    fn rotate_some(&mut self, out: &mut Vec<St>) {
        let t = if self.r.chance(3, 4) { self.scalar() } else { self.ty(1, false, false) };
        let mut ps: Vec<Ex> = self.places(&t, true, 6).into_iter().map(|p| p.0).collect();
        ps.dedup();
        if ps.len() < 2 {
            return self.let_(out);
        }
        for k in 0..ps.len() {
            let j = k + self.r.below(ps.len() - k);
            ps.swap(k, j);
        }
        let n = self.r.range(2, 4).min(ps.len());
        self.rotate(&ps[..n], &t, out);
    }
    /// A loop that hands several values from one round to the next.
    fn carried(&mut self, d: usize, out: &mut Vec<St>) {
        let t = if self.r.chance(4, 5) { self.scalar() } else { self.ty(1, false, false) };
        let n = self.r.range(2, 4);
        let names: Vec<String> = (0..n).map(|_| self.fresh("y")).collect();
        for y in &names {
            let e = self.leaf(&t, true);
            out.push(St::Let(Pat::Id(y.clone()), Some(t.clone()), e));
            self.declare(y, t.clone(), true, None);
        }
        self.loop_(d, out);
        let mut rot = vec![];
        let ps: Vec<Ex> = names.iter().map(|y| id(y)).collect();
        self.rotate(&ps, &t, &mut rot);
        if self.r.chance(1, 3) {
            let c = self.ex(&Ty::Bool, 1, false);
            rot = vec![St::If(c, Box::new(St::Block(rot)), None)];
        }
        // right after the loop's own counting, or before it
        match out.last_mut() {
            Some(St::For(_, _, _, b)) => {
                if let St::Block(b) = &mut **b {
                    b.splice(0..0, rot);
                }
            }
            Some(St::While(_, b) | St::Loop(b)) => {
                if let St::Block(b) = &mut **b {
                    let at = if matches!(b.first(), Some(St::If(..))) && b.len() > 1 { 1 } else { 0 };
                    b.splice(at..at, rot);
                }
            }
            _ => {}
        }
    }
    /// Declares what a call of `s` may refer to.
    fn prepare(&mut self, s: &Sig, out: &mut Vec<St>) {
        for p in s.params.clone() {
            if p.name == "lg" {
                continue;
            }
            match &p.ty {
                Ty::Ptr(x) => {
                    if !self.vars().iter().any(|v| v.ty == p.ty && v.bound >= p.bound) {
                        let len = p.bound.unwrap() + self.r.below(2) as u64;
                        self.allocate(x, len, out);
                    }
                }
                Ty::Array(..) => {
                    if self.places(&p.ty, false, 1).is_empty() {
                        let e = self.build(&p.ty, 1, true);
                        let n = self.fresh("h");
                        out.push(St::Let(Pat::Id(n.clone()), Some(p.ty.clone()), e));
                        self.declare(&n, p.ty.clone(), true, None);
                    }
                }
                _ => {}
            }
        }
    }
    fn pat(&mut self, ts: &[Ty], binds: &mut Vec<(String, Ty)>) -> Pat {
        Pat::Tuple(
            ts.iter()
                .map(|t| match t {
                    Ty::Tuple(x) if x.len() >= 2 && self.r.chance(1, 2) => self.pat(&x.clone(), binds),
                    _ => {
                        let n = self.fresh("t");
                        binds.push((n.clone(), t.clone()));
                        Pat::Id(n)
                    }
                })
                .collect(),
        )
    }
    fn assign(&mut self, out: &mut Vec<St>) -> bool {
        // pick a target by type
        for _ in 0..6 {
            let t = if self.r.chance(2, 3) { self.scalar() } else { self.ty(2, true, false) };
            let ps = self.places(&t, true, 6);
            if ps.is_empty() {
                // pointer element
                let vs: Vec<Var> = self.vars().into_iter().filter(|v| matches!(&v.ty, Ty::Ptr(x) if **x == t) && v.bound.is_some()).collect();
                if vs.is_empty() {
                    continue;
                }
                let v = self.r.pick(&vs).clone();
                let i = self.index(v.bound.unwrap());
                let e = self.ex(&t, 2, true);
                out.push(St::Assign(Ex::Index(bx(id(&v.name)), bx(i)), e));
                return true;
            }
            let (p, v) = self.r.pick(&ps).clone();
            if has_array(&t, &self.structs) && v.depth != self.loop_depth {
                continue;
            }
            let d = self.r.range(0, self.cfg.depth);
            let e = if self.r.chance(1, 4) && matches!(t, Ty::Felt | Ty::U32) {
                let y = self.ex(&t, d, true);
                Ex::Bin(if self.r.chance(1, 2) { Bin::Add } else { Bin::Mul }, bx(p.clone()), bx(y))
            } else {
                self.ex(&t, d, true)
            };
            out.push(St::Assign(p, e));
            return true;
        }
        false
    }
    fn ret_st(&mut self) -> St {
        let t = self.ret.clone();
        if t == Ty::Tuple(vec![]) {
            return St::Return(if self.r.chance(1, 3) { Some(Ex::Tuple(vec![])) } else { None });
        }
        if let (true, true, Ty::Tuple(ts)) = (self.log, self.in_main, &t) {
            let d = self.r.range(0, self.cfg.depth);
            let e = self.ex(&ts[0].clone(), d, true);
            return St::Return(Some(Ex::Tuple(vec![e, Ex::Index(bx(id("lg")), bx(lit(0, "felt?")))])));
        }
        if matches!(t, Ty::Felt | Ty::U32) && self.r.chance(1, 3) {
            let mut ps = self.places(&t, false, 10).into_iter().map(|p| p.0);
            if let Some(x) = ps.next() {
                let ops = [Bin::Add, Bin::Add, Bin::Sub, Bin::Mul];
                return St::Return(Some(ps.fold(x, |e, p| Ex::Bin(*self.r.pick(&ops), bx(e), bx(p)))));
            }
        }
        let d = self.r.range(0, self.cfg.depth);
        let e = self.ex(&t, d, true);
        St::Return(Some(e))
    }
    fn block(&mut self, n: usize, d: usize) -> Vec<St> {
        self.scopes.push(vec![]);
        let out = self.stmts(n, d);
        self.scopes.pop();
        out
    }
    fn stmts(&mut self, n: usize, d: usize) -> Vec<St> {
        let mut out = vec![];
        for _ in 0..n {
            if self.budget < 0 {
                break;
            }
            match self.r.below(24) {
                21 if self.cfg.arrays || self.cfg.pointers => self.alias(&mut out),
                22 => self.rotate_some(&mut out),
                23 if d > 0 && self.cfg.loops && self.loop_depth < 2 => self.carried(d - 1, &mut out),
                18 | 19 if self.cfg.arrays => self.own_array(&mut out),
                20 if self.cfg.arrays => self.twins(&mut out),
                0..=5 => self.let_(&mut out),
                6..=9 => {
                    if !self.assign(&mut out) {
                        self.let_(&mut out)
                    }
                }
                10 if self.cfg.calls => {
                    let c: Vec<Sig> = self.sigs.clone();
                    if !c.is_empty() {
                        let s = self.r.pick(&c).clone();
                        self.prepare(&s, &mut out);
                        if let Some(e) = self.call_to(&s, 2) {
                            if s.ret == Ty::Tuple(vec![]) || self.r.chance(1, 3) {
                                out.push(St::Expr(e));
                            } else {
                                let n = self.fresh("c");
                                out.push(St::Let(Pat::Id(n.clone()), None, e));
                                self.declare(&n, s.ret.clone(), true, None);
                            }
                        }
                    }
                }
                11 | 12 | 13 if d > 0 => {
                    let c = self.ex(&Ty::Bool, 2, false);
                    let k = self.r.range(1, 3);
                    self.scopes.push(vec![]);
                    let mut t = self.stmts(k, d - 1);
                    if self.r.chance(1, 6) {
                        let e = self.exit();
                        t.push(e);
                    }
                    self.scopes.pop();
                    let e = match self.r.below(4) {
                        0 | 1 => None,
                        2 => Some(Box::new(St::Block(self.block(k, d - 1)))),
                        _ => {
                            let c2 = self.ex(&Ty::Bool, 2, false);
                            let a = self.block(1, d - 1);
                            let b = self.r.chance(1, 2).then(|| Box::new(St::Block(self.block(1, d - 1))));
                            Some(Box::new(St::If(c2, Box::new(St::Block(a)), b)))
                        }
                    };
                    out.push(St::If(c, Box::new(St::Block(t)), e));
                }
                14 | 15 if d > 0 && self.cfg.loops && self.loop_depth < 2 => self.loop_(d - 1, &mut out),
                16 if d > 0 => {
                    let k = self.r.range(1, 3);
                    let b = self.block(k, d - 1);
                    out.push(St::Block(b));
                }
                17 if self.cfg.asserts => {
                    // a statement that holds by construction
                    let t = self.scalar();
                    let e = self.ex(&t, 2, false);
                    if self.pure_tree(&e) {
                        let n = self.fresh("q");
                        out.push(St::Let(Pat::Id(n.clone()), Some(t.clone()), e.clone()));
                        self.declare(&n, t, true, None);
                        let c = if self.r.chance(1, 2) { Ex::Bin(Bin::Eq, bx(id(&n)), bx(e)) } else { Ex::Un(Un::Not, bx(Ex::Bin(Bin::Neq, bx(id(&n)), bx(e)))) };
                        out.push(St::Expr(Ex::Call(bx(id("assert")), vec![c])));
                    }
                }
                _ => self.let_(&mut out),
            }
        }
        if self.log {
            self.note(&mut out);
        }
        out
    }
    /// break, continue or return, whichever fits here.
    fn exit(&mut self) -> St {
        if let Some(steps) = self.cont.last().cloned() {
            match self.r.below(4) {
                0 | 1 => return St::Break,
                2 => {
                    if steps.is_empty() {
                        return St::Continue;
                    }
                    let mut b = steps;
                    b.push(St::Continue);
                    return St::Block(b);
                }
                _ => {}
            }
        }
        self.ret_st()
    }
    fn loop_(&mut self, d: usize, out: &mut Vec<St>) {
        let n = self.r.range(1, 4) as u64;
        let i = self.fresh("i");
        let ct = if self.r.chance(2, 3) { Ty::Felt } else { Ty::U32 };
        let s = if ct == Ty::Felt { "felt" } else { "u32" };
        let k = self.r.range(1, 3);
        let inc = St::Assign(id(&i), Ex::Bin(Bin::Add, bx(id(&i)), bx(lit(1, &format!("{s}?")))));
        let init = St::Let(Pat::Id(i.clone()), None, lit(0, s));
        let (var, bound) = (i.clone(), if ct == Ty::Felt { Some(n) } else { None });
        let cond = |o: Bin| Ex::Bin(o, bx(id(&i)), bx(lit(n, &format!("{s}?"))));
        match self.r.below(4) {
            0 | 1 => {
                // while
                out.push(init);
                self.declare(&var, ct.clone(), false, bound.map(|b| b + 1));
                let c = if ct == Ty::U32 && self.r.chance(1, 2) { cond(Bin::Lt) } else { cond(Bin::Neq) };
                self.loop_depth += 1;
                self.cont.push(vec![inc.clone()]);
                self.scopes.push(vec![]);
                self.declare(&var, ct.clone(), false, bound);
                let mut b = self.stmts(k, d);
                self.exit_guard(&mut b);
                self.scopes.pop();
                self.cont.pop();
                self.loop_depth -= 1;
                b.push(inc);
                out.push(St::While(c, Box::new(St::Block(b))));
            }
            2 => {
                // for
                self.scopes.push(vec![]);
                self.declare(&var, ct.clone(), false, bound);
                let c = if ct == Ty::U32 && self.r.chance(1, 2) { cond(Bin::Lt) } else { cond(Bin::Neq) };
                self.loop_depth += 1;
                self.cont.push(vec![]);
                self.scopes.push(vec![]);
                let mut b = self.stmts(k, d);
                self.exit_guard(&mut b);
                self.scopes.pop();
                self.cont.pop();
                self.loop_depth -= 1;
                self.scopes.pop();
                out.push(St::For(Box::new(init), c, Box::new(inc), Box::new(St::Block(b))));
            }
            _ => {
                // loop, counted at the top
                out.push(init);
                self.declare(&var, ct.clone(), false, bound.map(|b| b + 1));
                let mut b = vec![St::If(cond(Bin::Eq), Box::new(St::Block(vec![St::Break])), None), inc];
                self.loop_depth += 1;
                self.cont.push(vec![]);
                self.scopes.push(vec![]);
                let mut rest = self.stmts(k, d);
                self.exit_guard(&mut rest);
                self.scopes.pop();
                self.cont.pop();
                self.loop_depth -= 1;
                b.extend(rest);
                out.push(St::Loop(Box::new(St::Block(b))));
            }
        }
    }
    /// Folds some of what is in scope into the log.
    fn note(&mut self, out: &mut Vec<St>) {
        if matches!(out.last(), Some(St::Return(_) | St::Break | St::Continue)) {
            return;
        }
        for _ in 0..self.r.range(1, 3) {
            let t = self.scalar();
            let mut vs: Vec<Var> = if self.r.chance(1, 2) {
                let names: Vec<String> = self.scopes.last().unwrap().iter().map(|v| v.name.clone()).collect();
                self.vars().into_iter().filter(|v| names.contains(&v.name)).collect()
            } else {
                self.vars()
            };
            vs.truncate(6);
            let mut ps = vec![];
            for v in vs {
                self.paths(id(&v.name), &v.ty.clone(), &v, &t, false, 3, &mut ps);
            }
            if ps.is_empty() {
                continue;
            }
            let x = self.r.pick(&ps).0.clone();
            let lg = || Ex::Index(bx(id("lg")), bx(lit(0, "felt?")));
            let more = |x: Ex| St::Assign(lg(), Ex::Bin(Bin::Add, bx(Ex::Bin(Bin::Mul, bx(lg()), bx(lit(31, "felt?")))), bx(x)));
            out.push(match t {
                Ty::Felt => more(x),
                Ty::U32 => {
                    let y = if self.r.chance(1, 2) { Ex::Bin(Bin::BAnd, bx(x), bx(lit((1 << 30) - 1, "u32"))) } else { Ex::Bin(Bin::Div, bx(x), bx(lit(4, "u32"))) };
                    more(Ex::Cast(bx(y), Ty::Felt))
                }
                _ => St::If(x, Box::new(St::Block(vec![more(lit(17, "felt?"))])), None),
            });
        }
    }
    fn exit_guard(&mut self, b: &mut Vec<St>) {
        if self.r.chance(1, 3) {
            let c = self.ex(&Ty::Bool, 2, false);
            let e = self.exit();
            let at = self.r.below(b.len() + 1);
            // only at the end are all names it may use declared
            let at = if self.pure_tree(&c) && at == b.len() { at } else { b.len() };
            b.insert(at, St::If(c, Box::new(St::Block(vec![e])), None));
        }
    }
    fn consts(&mut self) -> (Vec<Item>, Vec<Var>) {
        let mut items = vec![];
        let mut vars = vec![];
        if self.cfg.consts {
            for _ in 0..self.r.range(1, 3) {
                let n = self.fresh("C");
                let t = if self.cfg.arrays && self.r.chance(1, 2) {
                    let k = self.r.range(1, 5) as u64;
                    let e = if self.r.chance(1, 3) { Ty::Tuple(vec![self.scalar(), self.scalar()]) } else { self.scalar() };
                    Ty::Array(Box::new(e), k)
                } else {
                    self.scalar()
                };
                let e = {
                    let typed = self.r.chance(1, 3);
                    self.konst(&t, typed)
                };
                items.push(Item::Const(n.clone(), Some(t.clone()), e));
                vars.push(Var { name: n, ty: t, assign: false, konst: true, bound: None, depth: 0 });
            }
        }
        (items, vars)
    }
    /// A constant of type `t`; literals carry a suffix only when `typed`, and always then.
    fn konst(&mut self, t: &Ty, typed: bool) -> Ex {
        match t {
            Ty::Array(x, n) => Ex::Arr((0..*n).map(|_| lift(self.konst(x, typed))).collect()),
            Ty::Tuple(v) => Ex::Tuple(v.iter().map(|t| self.konst(t, typed)).collect()),
            _ => match self.lit_ex(t, true) {
                Ex::Num(n, Some(s)) => {
                    let s = s.trim_end_matches('?');
                    lit(n, &if typed { s.to_string() } else { format!("{s}?") })
                }
                e => e,
            },
        }
    }
    fn function(&mut self, k: usize, consts: &[Var], main: bool) -> (FnDef, Sig) {
        self.scopes = vec![consts.to_vec(), vec![]];
        self.loop_depth = 0;
        self.cont.clear();
        self.budget = self.cfg.size + self.cfg.max_stmts as isize * self.cfg.size / 5;
        self.cur_fn_effects = false;
        self.in_main = main;
        let name = if main { "main".to_string() } else { format!("f{k}") };
        let mut params: Vec<Param> = vec![];
        let fuel = !main && self.r.chance(1, 4);
        if fuel {
            params.push(Param { name: "fuel".into(), ty: if self.r.chance(1, 2) { Ty::U32 } else { Ty::Felt }, bound: None });
        }
        if self.log && !main {
            params.push(Param { name: "lg".into(), ty: Ty::Ptr(bx_ty(Ty::Felt)), bound: Some(1) });
        }
        for j in 0..self.r.range(0, 4) {
            let t = self.ty(2, true, !main);
            let b = (t == Ty::Felt && self.r.chance(1, 3) || matches!(t, Ty::Ptr(_))).then(|| self.r.range(1, 3) as u64);
            let again = !main && has_ref(&t, &self.structs) && self.r.chance(2, 3);
            params.push(Param { name: format!("a{j}"), ty: t.clone(), bound: b });
            if again {
                // for one thing under two names
                params.push(Param { name: format!("b{j}"), ty: t, bound: b });
            }
        }
        let ret = if !main && self.r.chance(1, 10) { Ty::Tuple(vec![]) } else { self.ty(2, main, false) };
        let ret = if self.log && main { Ty::Tuple(vec![ret, Ty::Felt]) } else { ret };
        self.ret = ret.clone();
        for p in &params {
            let is_fuel = fuel && p.name == "fuel";
            self.declare(&p.name.clone(), p.ty.clone(), !is_fuel && p.bound.is_none(), p.bound);
        }
        let mut body = vec![];
        if self.log && main {
            let t = Ty::Ptr(bx_ty(Ty::Felt));
            body.push(St::Let(Pat::Id("lg".into()), None, Ex::New(Ty::Felt, bx(lit(1, "felt?")))));
            body.push(St::Assign(Ex::Index(bx(id("lg")), bx(lit(0, "felt?"))), lit(0, "felt?")));
            self.scopes.last_mut().unwrap().push(Var { name: "lg".into(), ty: t, assign: false, konst: false, bound: Some(1), depth: 0 });
        }
        let takes_ref = params.iter().any(|p| has_ref(&p.ty, &self.structs));
        let mut sig = Sig { name: name.clone(), params, ret: ret.clone(), effects: takes_ref, fuel };
        if fuel {
            let ft = sig.params[0].ty.clone();
            let base = self.ret_st();
            body.push(St::If(Ex::Bin(Bin::Eq, bx(id("fuel")), bx(lit(0, if ft == Ty::U32 { "u32?" } else { "felt?" }))), Box::new(St::Block(vec![base])), None));
            if let Some(Ex::Call(f, mut args)) = self.call_to(&sig.clone(), 1) {
                args[0] = Ex::Bin(Bin::Sub, bx(id("fuel")), bx(lit(1, if ft == Ty::U32 { "u32?" } else { "felt?" })));
                let e = Ex::Call(f, args);
                if ret == Ty::Tuple(vec![]) {
                    body.push(St::Expr(e));
                } else {
                    body.push(St::Let(Pat::Id("rec".into()), None, e));
                    self.declare("rec", ret.clone(), true, None);
                }
            }
        }
        let twins = sig.params.windows(2).any(|p| p[0].ty == p[1].ty && matches!(p[0].ty, Ty::Array(..) | Ty::Ptr(_)));
        if twins && self.r.chance(2, 3) {
            self.alias(&mut body);
        }
        let n = self.r.range(0, self.cfg.max_stmts);
        let rest = self.stmts(n, self.cfg.depth.min(3));
        body.extend(rest);
        self.budget = self.budget.max(10);
        body.push(self.ret_st());
        // heap allocation and mutation through references are the only effects
        sig.effects = takes_ref || self.cur_fn_effects;
        let f = FnDef { name, params: sig.params.iter().map(|p| (p.name.clone(), p.ty.clone())).collect(), ret: if ret == Ty::Tuple(vec![]) && self.r.chance(1, 2) { None } else { Some(ret) }, body };
        (f, sig)
    }
    pub fn program(&mut self) -> Prog {
        let mut items = vec![];
        if self.cfg.structs {
            for _ in 0..self.r.range(1, 3) {
                let n = self.fresh("S");
                let k = if self.r.chance(1, 20) { 0 } else { self.r.range(1, 4) };
                let arr = self.r.chance(1, 3);
                let fs: Vec<(String, Ty)> = (0..k).map(|j| (format!("m{j}"), self.ty(2, arr, false))).collect();
                self.structs.insert(n.clone(), fs.clone());
                self.struct_names.push(n.clone());
                items.push(Item::Struct(n, fs));
            }
        }
        let (cs, vars) = self.consts();
        items.extend(cs);
        self.log = self.cfg.pointers && self.r.chance(1, 2);
        let nf = if self.cfg.calls { *self.r.pick(&[1, 1, 2, 2, 3, 4]) } else { 0 };
        for k in 0..nf {
            let (f, s) = self.function(k, &vars, false);
            self.sigs.push(s);
            items.push(Item::Fn(f));
        }
        let (f, s) = self.function(0, &vars, true);
        items.push(Item::Fn(f));
        let items = if self.r.chance(1, 3) { items.iter().map(|i| parens(i, self.r)).collect() } else { items };
        let items = items.into_iter().map(norm_item).collect();
        Prog { items, main: s, structs: self.structs.clone() }
    }
}
pub fn has_ptr(t: &Ty, s: &Structs) -> bool {
    match t {
        Ty::Ptr(_) => true,
        Ty::Array(x, _) => has_ptr(x, s),
        Ty::Tuple(v) => v.iter().any(|t| has_ptr(t, s)),
        Ty::Named(n) => s.get(n).is_some_and(|f| f.iter().any(|(_, t)| has_ptr(t, s))),
        _ => false,
    }
}
/// The same with expressions in redundant parentheses.
fn parens(i: &Item, r: &mut Rng) -> Item {
    let p = *r.pick(&[5, 15, 40]);
    let i = map_item(i, &mut |e| {
        // a function is called by its name
        let e = match e {
            Ex::Call(f, a) => Ex::Call(match *f { Ex::Paren(_) => bx(bare(*f)), f => bx(f) }, a),
            e => e,
        };
        let more = if matches!(e, Ex::Num(..)) { 2 } else { 1 };
        if r.chance(more, p) { (0..*r.pick(&[1, 1, 2, 3])).fold(e, |e, _| Ex::Paren(bx(e))) } else { e }
    });
    // a target is not in parentheses itself
    fn st(s: &mut St) {
        match s {
            St::Assign(l, _) => *l = bare(l.clone()),
            St::If(_, t, e) => {
                st(t);
                e.iter_mut().for_each(|e| st(e));
            }
            St::Block(v) => v.iter_mut().for_each(st),
            St::Loop(b) | St::While(_, b) => st(b),
            St::For(i, _, s, b) => [i, s, b].into_iter().for_each(|s| st(s)),
            _ => {}
        }
    }
    match i {
        Item::Fn(mut f) => {
            f.body.iter_mut().for_each(st);
            Item::Fn(f)
        }
        i => i,
    }
}
fn bare(e: Ex) -> Ex {
    match e {
        Ex::Paren(x) => bare(*x),
        e => e,
    }
}
fn with_suffix(e: Ex) -> Ex {
    match e {
        Ex::Num(n, Some(s)) => Ex::Num(n, Some(s.trim_end_matches('?').into())),
        e => e,
    }
}
pub fn map_ex(e: &Ex, f: &mut impl FnMut(Ex) -> Ex) -> Ex {
    macro_rules! b { ($x:expr) => { Box::new(map_ex($x, f)) } }
    let e2 = match e {
        Ex::Num(..) | Ex::Bool(_) | Ex::Id(_) => e.clone(),
        Ex::Un(o, x) => Ex::Un(*o, b!(x)),
        Ex::Bin(o, x, y) => Ex::Bin(*o, b!(x), b!(y)),
        Ex::Call(g, a) => Ex::Call(b!(g), a.iter().map(|x| map_ex(x, f)).collect()),
        Ex::Member(x, n) => Ex::Member(b!(x), n.clone()),
        Ex::Index(x, i) => Ex::Index(b!(x), b!(i)),
        Ex::Struct(n, fs) => Ex::Struct(n.clone(), fs.iter().map(|(n, e)| (n.clone(), map_ex(e, f))).collect()),
        Ex::Tuple(a) => Ex::Tuple(a.iter().map(|x| map_ex(x, f)).collect()),
        Ex::TupIdx(x, i) => Ex::TupIdx(b!(x), *i),
        Ex::Arr(a) => Ex::Arr(a.iter().map(|x| map_ex(x, f)).collect()),
        Ex::Rep(x, n) => Ex::Rep(b!(x), *n),
        Ex::Cast(x, t) => Ex::Cast(b!(x), t.clone()),
        Ex::New(t, n) => Ex::New(t.clone(), b!(n)),
        Ex::Paren(x) => Ex::Paren(b!(x)),
    };
    f(e2)
}
pub fn map_st(s: &St, f: &mut impl FnMut(Ex) -> Ex) -> St {
    macro_rules! b { ($x:expr) => { Box::new(map_st($x, f)) } }
    match s {
        St::Let(p, t, e) => St::Let(p.clone(), t.clone(), map_ex(e, f)),
        St::Const(n, t, e) => St::Const(n.clone(), t.clone(), map_ex(e, f)),
        St::Assign(l, r) => St::Assign(map_ex(l, f), map_ex(r, f)),
        St::Return(e) => St::Return(e.as_ref().map(|e| map_ex(e, f))),
        St::If(c, t, e) => St::If(map_ex(c, f), b!(t), e.as_ref().map(|e| b!(e))),
        St::Expr(e) => St::Expr(map_ex(e, f)),
        St::Block(v) => St::Block(v.iter().map(|s| map_st(s, f)).collect()),
        St::Loop(x) => St::Loop(b!(x)),
        St::While(c, x) => St::While(map_ex(c, f), b!(x)),
        St::For(i, c, s2, x) => St::For(b!(i), map_ex(c, f), b!(s2), b!(x)),
        St::Break => St::Break,
        St::Continue => St::Continue,
    }
}
pub fn map_item(i: &Item, f: &mut impl FnMut(Ex) -> Ex) -> Item {
    match i {
        Item::Fn(d) => Item::Fn(FnDef { body: d.body.iter().map(|s| map_st(s, f)).collect(), ..d.clone() }),
        Item::Const(n, t, e) => Item::Const(n.clone(), t.clone(), map_ex(e, f)),
        o => o.clone(),
    }
}
/// Drops the literal type hints, giving what is written in the source.
pub fn unhint(m: &Module) -> Module {
    m.iter()
        .map(|i| {
            map_item(i, &mut |e| match e {
                Ex::Num(n, Some(s)) if s.ends_with('?') => Ex::Num(n, None),
                e => e,
            })
        })
        .collect()
}
