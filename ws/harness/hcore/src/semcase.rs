//! Well-typed programs, in one module or several, with everything the reference semantics says about them.
use crate::ast::*;
use crate::gen_sem::{self, Cfg};
use crate::refsem::{self, Def, DefKind, Sem};
use crate::render::{render, Rendered, Style};
use crate::rng::Rng;
use crate::walk::{walk, Slot};

#[derive(Clone)]
pub struct Case {
    /// Literals keep their type hints here.
    pub mods: Vec<(String, Module)>,
    pub style: Style,
}
pub struct Shown {
    pub sem: Sem,
    pub rend: Vec<Rendered>,
    pub texts: Vec<(String, String)>,
}
impl Case {
    pub fn show(&self, r: &mut Rng) -> Shown {
        let sem = refsem::analyse(&self.mods);
        let rend: Vec<Rendered> = self.mods.iter().map(|(_, m)| render(&gen_sem::unhint(m), &self.style, r)).collect();
        let texts = self.mods.iter().zip(&rend).map(|((n, _), t)| (n.clone(), t.text.clone())).collect();
        Shown { sem, rend, texts }
    }
}
pub fn print(texts: &[(String, String)]) -> String {
    texts.iter().map(|(n, t)| format!("// ---- module {n}\n{t}\n")).collect()
}
/// Program items of a typed program plus features that only matter to the front end.
pub fn case(r: &mut Rng) -> Case {
    let mut cfg = Cfg::random(r);
    cfg.max_stmts = *r.pick(&[1, 2, 3, 4, 6, 10]);
    cfg.depth = *r.pick(&[1, 1, 2, 2, 3]);
    cfg.size = *r.pick(&[10, 20, 40]);
    case_with(r, cfg)
}
pub fn case_with(r: &mut Rng, cfg: Cfg) -> Case {
    let items = gen_sem::Gen::new(r, cfg).program().items;
    dress(items, r)
}
/// The same program with functions in another order, dead code, several modules, shadowing names.
pub fn dress(mut items: Module, r: &mut Rng) -> Case {
    // functions may be used before they are written
    if r.chance(1, 3) {
        let at: Vec<usize> = (0..items.len()).filter(|&i| matches!(items[i], Item::Fn(_))).collect();
        let mut fs: Vec<Item> = at.iter().map(|&i| items[i].clone()).collect();
        if let Some(last) = fs.pop() {
            r.shuffle(&mut fs);
            fs.push(last);
        }
        let whole = r.chance(1, 2);
        if whole { r.shuffle(&mut fs) }
        for (i, f) in at.into_iter().zip(fs) { items[i] = f }
        dead_code(&mut items, r);
        let mut c = Case { mods: vec![("main".into(), items)], style: Style::random(r) };
        shadow(&mut c, r);
        return c;
    }
    dead_code(&mut items, r);
    let mut mods = if r.chance(1, 2) { refsem::split(&items, r) } else { vec![("main".to_string(), items)] };
    if mods.len() > 1 && r.chance(2, 3) { rearrange(&mut mods, r) }
    let mut c = Case { mods, style: Style::random(r) };
    shadow(&mut c, r);
    c
}
fn filler(r: &mut Rng, k: &mut usize) -> St {
    *k += 1;
    let n = format!("z{k}");
    match r.below(7) {
        0 => St::Let(Pat::Id(n), None, Ex::Num(r.below(9) as u64, Some("felt".into()))),
        1 => St::Let(Pat::Id(format!("_{n}")), Some(Ty::U32), Ex::Num(r.below(9) as u64, Some("u32?".into()))),
        2 => St::Expr(Ex::Call(Box::new(Ex::Id("assert".into())), vec![Ex::Bool(true)])),
        3 => St::Block(vec![St::Const(n, Some(Ty::U32), Ex::Num(1, Some("u32?".into())))]),
        4 => St::If(Ex::Bool(true), Box::new(St::Block(vec![St::Let(Pat::Id(n), None, Ex::Bool(true))])), None),
        5 => St::While(Ex::Bool(false), Box::new(St::Block(vec![St::Break, St::Expr(Ex::Num(1, Some("u32".into())))]))),
        _ => St::Const(format!("K{k}"), None, Ex::Num(r.below(9) as u64, Some("felt".into()))),
    }
}
/// Statements after exits, unused locals and local constants.
fn dead_code(items: &mut Module, r: &mut Rng) {
    if r.chance(1, 3) { return }
    let mut k = 0;
    let dead = r.chance(1, 2);
    walk(items, &mut |_, s| {
        if let Slot::Seq(b) = s {
            if r.chance(1, 6) {
                let at = r.below(b.len() + 1);
                let after_exit = b[..at].iter().any(|s| matches!(s, St::Return(_) | St::Break | St::Continue));
                if !after_exit { b.insert(at, filler(r, &mut k)) }
            }
            if dead && b.last().is_some_and(|s| matches!(s, St::Return(_) | St::Break | St::Continue)) && r.chance(1, 2) {
                for _ in 0..r.range(1, 3) { b.push(filler(r, &mut k)) }
            }
        }
    });
}
pub fn rename(mods: &mut [(String, Module)], module: usize, nodes: &[usize], to: &str) {
    walk(&mut mods[module].1, &mut |n, s| {
        if let Slot::Name(x) = s {
            if nodes.contains(&n) { *x = to.to_string() }
        }
    });
}
pub fn same_binding(a: &Sem, b: &Sem) -> bool {
    a.uses.len() == b.uses.len() && a.defs.len() == b.defs.len() && b.problems.is_empty() && a.uses.iter().zip(&b.uses).all(|(x, y)| x.def == y.def && x.node == y.node)
}
pub fn is_local(d: &Def) -> bool { matches!(d.kind, DefKind::Let | DefKind::Param | DefKind::LocalConst) }
fn imports(m: &Module) -> Vec<(String, String)> {
    m.iter()
        .flat_map(|i| match i {
            Item::Use(p, UseItems::Single(s)) => vec![(p.join("::"), s.clone())],
            Item::Use(p, UseItems::List(l)) => l.iter().map(|s| (p.join("::"), s.clone())).collect(),
            _ => vec![],
        })
        .collect()
}
fn drop_import(m: &mut Module, from: &str, name: &str) {
    for i in m.iter_mut() {
        if let Item::Use(p, UseItems::List(l)) = i {
            if p.join("::") == from { l.retain(|s| s != name) }
        }
    }
    m.retain(|i| match i {
        Item::Use(p, UseItems::Single(s)) => p.join("::") != from || s != name,
        Item::Use(_, UseItems::List(l)) => !l.is_empty(),
        _ => true,
    });
}
/// Imports only where needed, imports of imports, and functions of the same name in several modules.
fn rearrange(mods: &mut Vec<(String, Module)>, r: &mut Rng) {
    let same = |m: &Vec<(String, Module)>, n: usize| {
        let s = refsem::analyse(m);
        s.problems.is_empty() && s.uses.len() == n
    };
    let uses = refsem::analyse(mods).uses.len();
    for k in 0..mods.len() {
        for (from, name) in imports(&mods[k].1) {
            if r.chance(1, 4) { continue }
            let mut m = mods.clone();
            drop_import(&mut m[k].1, &from, &name);
            if same(&m, uses) { *mods = m }
        }
    }
    // later modules never import earlier ones, so imports can go through any module in between
    for k in 0..mods.len() {
        for (from, name) in imports(&mods[k].1) {
            let home = mods.iter().position(|m| m.0 == from).unwrap();
            if home <= k + 1 || r.chance(1, 2) { continue }
            let via = r.range(k + 1, home - 1);
            let mut m = mods.clone();
            if !imports(&m[via].1).contains(&(from.clone(), name.clone())) {
                m[via].1.insert(0, Item::Use(vec![from.clone()], UseItems::Single(name.clone())));
            }
            drop_import(&mut m[k].1, &from, &name);
            let through = mods[via].0.clone();
            m[k].1.insert(0, Item::Use(vec![through], UseItems::Single(name.clone())));
            if same(&m, uses) { *mods = m }
        }
    }
    for _ in 0..4 {
        let fns: Vec<(usize, String)> = mods.iter().enumerate().flat_map(|(k, m)| m.1.iter().filter_map(move |i| if let Item::Fn(f) = i { Some((k, f.name.clone())) } else { None })).collect();
        let (k, f) = r.pick(&fns).clone();
        let (j, g) = r.pick(&fns).clone();
        if k == j || f == "main" || f == g || mods.iter().any(|m| imports(&m.1).iter().any(|i| i.1 == f)) { continue }
        if imports(&mods[k].1).iter().any(|i| i.1 == g) || mods[k].1.iter().any(|i| matches!(i, Item::Fn(x) if x.name == g)) { continue }
        let sem = refsem::analyse(mods);
        let Some(d) = sem.defs.iter().position(|d| d.module == k && d.name == f && d.kind == DefKind::Fn) else { continue };
        let mut nodes = vec![sem.defs[d].node];
        nodes.extend(sem.uses.iter().filter(|u| u.def == d).map(|u| u.node));
        let mut m = mods.clone();
        rename(&mut m, k, &nodes, &g);
        if same_binding(&sem, &refsem::analyse(&m)) { *mods = m }
    }
}
/// Renames locals so that they hide others wherever no use changes its meaning; some get a leading underscore.
fn shadow(c: &mut Case, r: &mut Rng) {
    let n = *r.pick(&[0, 2, 6, 12]);
    if n == 0 { return }
    let mut sem = refsem::analyse(&c.mods);
    for _ in 0..n {
        let locals: Vec<usize> = (0..sem.defs.len()).filter(|&i| is_local(&sem.defs[i])).collect();
        if locals.is_empty() { return }
        let d = *r.pick(&locals);
        let def = sem.defs[d].clone();
        let name = if r.chance(1, 4) {
            format!("_{}", def.name)
        } else {
            let others: Vec<&Def> = sem.defs.iter().filter(|o| o.module == def.module && o.node != def.node && o.name != def.name && o.kind != DefKind::Builtin && (o.owner == def.owner || o.owner.is_none())).collect();
            if others.is_empty() { continue }
            r.pick(&others).name.clone()
        };
        // one function's parameters and one pattern's names must differ
        if def.kind == DefKind::Param && sem.defs.iter().any(|o| o.kind == DefKind::Param && o.owner == def.owner && o.module == def.module && o.name == name) { continue }
        if def.kind == DefKind::Let && sem.defs.iter().any(|o| o.kind == DefKind::Let && o.module == def.module && o.name == name && o.group == def.group) { continue }
        let mut nodes = vec![def.node];
        nodes.extend(sem.uses.iter().filter(|u| u.def == d).map(|u| u.node));
        let mut m = c.mods.clone();
        rename(&mut m, def.module, &nodes, &name);
        let s2 = refsem::analyse(&m);
        if same_binding(&sem, &s2) {
            c.mods = m;
            sem = s2;
        }
    }
}

/// Gives functions names that a compiler might use for itself.
pub fn odd_names(mods: &mut Vec<(String, Module)>, r: &mut Rng) {
    const NAMES: [&str; 16] = ["or_true", "end", "RODATA", "HEAP_CURSOR", "and_end", "not_zero", "neq_end", "u32_cast_ok", "main", "f0", "block", "entry", "L", "ret", "and_check_right", "or_end"];
    for _ in 0..r.range(1, 4) {
        let sem = refsem::analyse(mods);
        let fns: Vec<usize> = (0..sem.defs.len()).filter(|&i| sem.defs[i].kind == DefKind::Fn && sem.defs[i].name != "main").collect();
        if fns.is_empty() { return }
        let d = *r.pick(&fns);
        let def = sem.defs[d].clone();
        let base = *r.pick(&NAMES);
        let name = if matches!(base, "main" | "f0") || r.chance(1, 2) { format!("{base}_{}", r.below(7)) } else { base.to_string() };
        if sem.defs.iter().any(|o| o.name == name) || mods.iter().any(|m| imports(&m.1).iter().any(|i| i.1 == def.name)) { continue }
        let mut nodes = vec![def.node];
        nodes.extend(sem.uses.iter().filter(|u| u.def == d && u.module == def.module).map(|u| u.node));
        let mut m = mods.clone();
        rename(&mut m, def.module, &nodes, &name);
        if same_binding(&sem, &refsem::analyse(&m)) { *mods = m }
    }
}
