//! Random control-flow skeletons, with what the paths through them can do.
use crate::ast::*;
use crate::rng::Rng;

/// Ways a statement can end, as a set.
pub const NORMAL: u8 = 1;
pub const RETURN: u8 = 2;
pub const BREAK: u8 = 4;
pub const CONTINUE: u8 = 8;
#[derive(Default, Debug, Clone)]
pub struct Facts {
    /// Per statement, in order of appearance: no path from the start of its sequence reaches it.
    pub dead: Vec<bool>,
    /// It directly follows a return, or a break or continue inside a loop.
    pub blatant: Vec<bool>,
    /// `break` and `continue` outside loops (indices of statements).
    pub stray: Vec<usize>,
    pub loops: usize,
    pub whiles: usize,
    pub ends: u8,
    pub depth: usize,
}
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub stray: bool,
    pub unit: bool,
    pub loops: bool,
    pub budget: usize,
}
fn id(s: &str) -> Ex { Ex::Id(s.into()) }
fn felt(n: u64) -> Ex { Ex::Num(n, Some("felt".into())) }
impl Gen<'_> {
    fn cond(&mut self) -> Ex {
        match self.r.below(5) {
            0 => id("c"),
            1 => id("d"),
            2 => Ex::Bin(Bin::Eq, Box::new(id("x")), Box::new(felt(self.r.below(9) as u64))),
            3 => Ex::Bin(Bin::And, Box::new(id("c")), Box::new(Ex::Un(Un::Not, Box::new(id("d"))))),
            _ => Ex::Bin(Bin::Neq, Box::new(id("x")), Box::new(felt(3))),
        }
    }
    fn simple(&mut self) -> St {
        match self.r.below(3) {
            0 => St::Assign(id("x"), Ex::Bin(Bin::Add, Box::new(id("x")), Box::new(felt(1)))),
            1 => St::Assign(id("c"), Ex::Un(Un::Not, Box::new(id("d")))),
            _ => St::Let(Pat::Id("_k".into()), None, felt(2)),
        }
    }
    fn ret(&mut self) -> St {
        if self.unit { St::Return(if self.r.chance(1, 3) { Some(Ex::Tuple(vec![])) } else { None }) }
        else { St::Return(Some(if self.r.chance(1, 2) { id("x") } else { felt(self.r.below(50) as u64) })) }
    }
    fn block(&mut self, depth: usize, in_loop: bool, lean: bool) -> St { St::Block(self.seq(depth, in_loop, lean)) }
    /// `lean`: prefer sequences that return on every path.
    pub fn seq(&mut self, depth: usize, in_loop: bool, lean: bool) -> Vec<St> {
        let n = [0, 1, 1, 1, 2, 2, 3, 4][self.r.below(8)];
        let mut v: Vec<St> = (0..n).map(|_| self.st(depth, in_loop, false)).collect();
        if lean || self.r.chance(1, 6) {
            v.push(if depth > 0 && self.budget > 0 && self.r.chance(1, 2) { self.st(depth, in_loop, true) } else { self.ret() });
            if self.r.chance(1, 8) { v.push(self.simple()) }
        }
        v
    }
    fn st(&mut self, depth: usize, in_loop: bool, lean: bool) -> St {
        self.budget = self.budget.saturating_sub(1);
        if depth == 0 || self.budget == 0 { return if lean { self.ret() } else { self.leaf(in_loop) } }
        let d = depth - 1;
        if lean {
            // most of these return on every path; a random branch may spoil it
            let keep = !self.r.chance(1, 8);
            return match self.r.below(if self.loops { 4 } else { 2 }) {
                0 => self.block(d, in_loop, keep),
                1 => {
                    let c = self.cond();
                    let t = self.block(d, in_loop, true);
                    let e = if self.r.chance(1, 3) { let c2 = self.cond(); let (a, b) = (self.block(d, in_loop, true), self.block(d, in_loop, keep)); St::If(c2, Box::new(a), if keep || self.r.chance(1, 2) { Some(Box::new(b)) } else { None }) } else { self.block(d, in_loop, keep) };
                    St::If(c, Box::new(t), Some(Box::new(e)))
                }
                _ => { let b = self.block(d, true, keep); St::Loop(Box::new(b)) }
            };
        }
        match self.r.below(10) {
            0 => self.block(d, in_loop, false),
            1 | 2 => { let c = self.cond(); let l = self.r.chance(1, 3); let t = self.block(d, in_loop, l); St::If(c, Box::new(t), None) }
            3 | 4 => {
                let c = self.cond();
                let (l, m) = (self.r.chance(1, 3), self.r.chance(1, 3));
                let t = self.block(d, in_loop, l);
                let e = self.block(d, in_loop, m);
                St::If(c, Box::new(t), Some(Box::new(e)))
            }
            5 if self.loops => { let l = self.r.chance(1, 2); let b = self.block(d, true, l); St::Loop(Box::new(b)) }
            6 if self.loops => { let c = self.cond(); let l = self.r.chance(1, 2); let b = self.block(d, true, l); St::While(c, Box::new(b)) }
            7 if self.loops => {
                let c = self.cond();
                let l = self.r.chance(1, 2);
                let b = self.block(d, true, l);
                St::For(Box::new(St::Let(Pat::Id("i".into()), None, felt(0))), c, Box::new(St::Assign(id("i"), Ex::Bin(Bin::Add, Box::new(id("i")), Box::new(felt(1))))), Box::new(b))
            }
            _ => self.leaf(in_loop),
        }
    }
    fn leaf(&mut self, in_loop: bool) -> St {
        if (in_loop && self.r.chance(1, 2)) || (self.stray && self.r.chance(1, 6)) {
            return if self.r.chance(2, 3) { St::Break } else { St::Continue };
        }
        if self.r.chance(1, 6) { self.ret() } else { self.simple() }
    }
}
/// Every path through a body, conditions taken as free.
pub fn facts(body: &[St]) -> Facts {
    let mut f = Facts::default();
    f.ends = seq(body, 0, 0, &mut f);
    f
}
fn seq(b: &[St], in_loop: usize, depth: usize, f: &mut Facts) -> u8 {
    let mut o = NORMAL;
    let mut blatant = false;
    for s in b {
        let dead = o & NORMAL == 0;
        let r = st(s, in_loop, depth, Some((dead, blatant)), f);
        if !dead { o = o & !NORMAL | r }
        blatant |= matches!(s, St::Return(_)) || in_loop > 0 && matches!(s, St::Break | St::Continue);
    }
    o
}
fn st(s: &St, in_loop: usize, depth: usize, here: Option<(bool, bool)>, f: &mut Facts) -> u8 {
    let n = f.dead.len();
    f.depth = f.depth.max(depth);
    let (dead, blatant) = here.unwrap_or((false, false));
    f.dead.push(dead);
    f.blatant.push(blatant);
    match s {
        St::Return(_) => RETURN,
        St::Block(b) => seq(b, in_loop, depth + 1, f),
        St::If(_, t, e) => {
            let a = st(t, in_loop, depth, None, f);
            a | e.as_ref().map_or(NORMAL, |e| st(e, in_loop, depth, None, f))
        }
        St::Loop(b) => {
            f.loops += 1;
            let o = st(b, in_loop + 1, depth, None, f);
            o & RETURN | if o & BREAK != 0 { NORMAL } else { 0 }
        }
        St::While(_, b) => { f.whiles += 1; st(b, in_loop + 1, depth, None, f) & RETURN | NORMAL }
        St::For(i, _, step, b) => {
            f.whiles += 1;
            st(i, in_loop, depth, None, f);
            st(step, in_loop, depth, None, f);
            st(b, in_loop + 1, depth, None, f) & RETURN | NORMAL
        }
        St::Break | St::Continue if in_loop == 0 => { f.stray.push(n); NORMAL }
        St::Break => BREAK,
        St::Continue => CONTINUE,
        _ => NORMAL,
    }
}
