//! Structural shrinking of modules: candidates with one thing removed or simplified.
use crate::ast::*;

fn sts(v: &[St]) -> Vec<Vec<St>> {
    let mut out = vec![];
    let n = v.len();
    let mut k = n;
    while k >= 1 {
        let mut i = 0;
        while i < n {
            if k < n || n > 0 {
                let mut w = v[..i].to_vec();
                w.extend_from_slice(&v[(i + k).min(n)..]);
                out.push(w);
            }
            i += k;
        }
        k /= 2;
    }
    for i in 0..n {
        // splice the body of a compound statement in its place
        let inner: Vec<Vec<St>> = match &v[i] {
            St::Block(b) => vec![b.clone()],
            St::If(_, t, e) => {
                let mut o = vec![vec![(**t).clone()]];
                if let Some(e) = e { o.push(vec![(**e).clone()]) }
                o
            }
            St::While(_, b) | St::Loop(b) => vec![vec![(**b).clone()]],
            St::For(i, _, _, b) => vec![vec![(**i).clone(), (**b).clone()]],
            _ => vec![],
        };
        for x in inner {
            let mut w = v[..i].to_vec();
            w.extend(x);
            w.extend_from_slice(&v[i + 1..]);
            out.push(w);
        }
        for x in st(&v[i]) {
            let mut w = v.to_vec();
            w[i] = x;
            out.push(w);
        }
    }
    out
}
fn st(s: &St) -> Vec<St> {
    let b = |s: St| Box::new(s);
    match s {
        St::Let(p, t, e) => ex(e).into_iter().map(|e| St::Let(p.clone(), t.clone(), e)).collect(),
        St::Const(n, t, e) => ex(e).into_iter().map(|e| St::Const(n.clone(), t.clone(), e)).collect(),
        St::Assign(l, r) => {
            let mut o: Vec<St> = ex(r).into_iter().map(|e| St::Assign(l.clone(), e)).collect();
            o.extend(ex(l).into_iter().map(|e| St::Assign(e, r.clone())));
            o
        }
        St::Return(Some(e)) => ex(e).into_iter().map(|e| St::Return(Some(e))).collect(),
        St::Expr(e) => ex(e).into_iter().map(St::Expr).collect(),
        St::If(c, t, e) => {
            let mut o: Vec<St> = ex(c).into_iter().map(|c| St::If(c, t.clone(), e.clone())).collect();
            if e.is_some() { o.push(St::If(c.clone(), t.clone(), None)) }
            o.extend(st(t).into_iter().map(|t| St::If(c.clone(), b(t), e.clone())));
            if let Some(e) = e { o.extend(st(e).into_iter().map(|e| St::If(c.clone(), t.clone(), Some(b(e))))) }
            o
        }
        St::Block(v) => sts(v).into_iter().map(St::Block).collect(),
        St::Loop(x) => st(x).into_iter().map(|x| St::Loop(b(x))).collect(),
        St::While(c, x) => {
            let mut o: Vec<St> = ex(c).into_iter().map(|c| St::While(c, x.clone())).collect();
            o.extend(st(x).into_iter().map(|x| St::While(c.clone(), b(x))));
            o
        }
        St::For(i, c, s2, x) => {
            let mut o: Vec<St> = ex(c).into_iter().map(|c| St::For(i.clone(), c, s2.clone(), x.clone())).collect();
            o.extend(st(x).into_iter().map(|x| St::For(i.clone(), c.clone(), s2.clone(), b(x))));
            o
        }
        _ => vec![],
    }
}
fn ex(e: &Ex) -> Vec<Ex> {
    let mut o = vec![];
    let b = |e: Ex| Box::new(e);
    match e {
        Ex::Num(n, s) => {
            if *n > 0 { o.push(Ex::Num(0, s.clone())); }
            if *n > 1 { o.push(Ex::Num(1, s.clone())); o.push(Ex::Num(n / 2, s.clone())); }
        }
        Ex::Bool(_) | Ex::Id(_) => {}
        Ex::Un(p, x) => { o.push((**x).clone()); o.extend(ex(x).into_iter().map(|x| Ex::Un(*p, b(x)))); }
        Ex::Bin(p, x, y) => {
            o.push((**x).clone());
            o.push((**y).clone());
            o.push(Ex::Bool(true));
            o.push(Ex::Bool(false));
            o.extend(ex(x).into_iter().map(|x| Ex::Bin(*p, b(x), y.clone())));
            o.extend(ex(y).into_iter().map(|y| Ex::Bin(*p, x.clone(), b(y))));
        }
        Ex::Call(f, a) => {
            o.push(Ex::Num(1, Some("felt".into())));
            o.push(Ex::Num(1, Some("u32".into())));
            o.push(Ex::Bool(true));
            o.extend(a.iter().cloned());
            for i in 0..a.len() { for x in ex(&a[i]) { let mut w = a.clone(); w[i] = x; o.push(Ex::Call(f.clone(), w)); } }
        }
        Ex::Member(x, f) => { o.push(Ex::Num(1, Some("felt".into()))); o.push(Ex::Num(1, Some("u32".into()))); o.extend(ex(x).into_iter().map(|x| Ex::Member(b(x), f.clone()))) }
        Ex::TupIdx(x, i) => {
            if let Ex::Tuple(v) = &**x { if let Some(y) = v.get(*i as usize) { o.push(y.clone()) } }
            o.push(Ex::Num(1, Some("felt".into())));
            o.push(Ex::Num(1, Some("u32".into())));
            o.extend(ex(x).into_iter().map(|x| Ex::TupIdx(b(x), *i)));
        }
        Ex::Index(x, i) => {
            o.push(Ex::Num(1, Some("felt".into())));
            o.push(Ex::Num(1, Some("u32".into())));
            o.extend(ex(x).into_iter().map(|x| Ex::Index(b(x), i.clone())));
            o.extend(ex(i).into_iter().map(|i| Ex::Index(x.clone(), b(i))));
        }
        Ex::Struct(n, fs) => for i in 0..fs.len() { for x in ex(&fs[i].1) { let mut w = fs.clone(); w[i].1 = x; o.push(Ex::Struct(n.clone(), w)); } },
        Ex::Tuple(a) => {
            for i in 0..a.len() { for x in ex(&a[i]) { let mut w = a.clone(); w[i] = x; o.push(Ex::Tuple(w)); } }
        }
        Ex::Arr(a) => {
            for i in 0..a.len() { for x in ex(&a[i]) { let mut w = a.clone(); w[i] = x; o.push(Ex::Arr(w)); } }
        }
        Ex::Rep(x, n) => o.extend(ex(x).into_iter().map(|x| Ex::Rep(b(x), *n))),
        Ex::Cast(x, t) => { o.push(Ex::Num(1, Some("felt".into()))); o.extend(ex(x).into_iter().map(|x| Ex::Cast(b(x), t.clone()))) }
        Ex::New(..) => {}
        Ex::Paren(x) => { o.push((**x).clone()); o.extend(ex(x).into_iter().map(|x| Ex::Paren(b(x)))) }
    }
    o
}
pub fn candidates(m: &Module) -> Vec<Module> {
    let mut out = vec![];
    for i in 0..m.len() {
        let mut w = m.clone();
        w.remove(i);
        out.push(w);
    }
    for i in 0..m.len() {
        match &m[i] {
            Item::Fn(f) => {
                for b in sts(&f.body) {
                    let mut w = m.clone();
                    w[i] = Item::Fn(FnDef { body: b, ..f.clone() });
                    out.push(w);
                }
            }
            Item::Const(n, t, e) => {
                for e in ex(e) {
                    let mut w = m.clone();
                    w[i] = Item::Const(n.clone(), t.clone(), e);
                    out.push(w);
                }
            }
            Item::Struct(n, fs) if fs.len() > 1 => {
                for k in 0..fs.len() {
                    let mut g = fs.clone();
                    g.remove(k);
                    let mut w = m.clone();
                    w[i] = Item::Struct(n.clone(), g);
                    out.push(w);
                }
            }
            _ => {}
        }
    }
    out
}
/// Greedy descent: keeps any candidate that still fails.
pub fn shrink(m: &Module, deadline: std::time::Instant, mut fails: impl FnMut(&Module) -> bool) -> Module {
    let mut cur = m.clone();
    'again: loop {
        for c in candidates(&cur) {
            if std::time::Instant::now() > deadline {
                return cur;
            }
            let c: Module = c.into_iter().map(crate::gen_syn::norm_item).collect();
            // a candidate may mean nothing at all
            if c != cur && crate::report::catch(|| fails(&c)).unwrap_or(false) {
                cur = c;
                continue 'again;
            }
        }
        return cur;
    }
}
