//! Compiled programs against the reference interpreter.
use crate::run::{compile, run, Fail};
use cairo_m_common::{CairoMValue, InputValue};
use hcore::ast::*;
use hcore::gen_sem::{unhint, Cfg, Gen, Prog, Sig, Structs, P};
use hcore::interp::{deep, show, Interp, Stop, V};
use hcore::render::{render, Style};
use hcore::report::{hash_str, parallel, watched, Report};
use hcore::rng::Rng;
use hcore::semcase;
use hcore::walk::{walk, Slot};
use std::cell::RefCell;
use std::rc::Rc;

pub const STEP_LIMIT: usize = 400_000;

pub fn text(items: &Module) -> String { render(&unhint(items), &Style::plain(), &mut Rng::new(0)).text }
pub fn arg(r: &mut Rng, t: &Ty, bound: Option<u64>, s: &Structs) -> V {
    match t {
        Ty::Felt => V::Felt(match bound {
            Some(b) => r.below(b as usize) as u64,
            None => match r.below(4) {
                0 => r.below(4) as u64,
                1 => P - 1 - r.below(2) as u64,
                _ => r.next() % P,
            },
        }),
        Ty::U32 => V::U32(match r.below(5) {
            0 => r.below(4) as u32,
            1 => u32::MAX - r.below(2) as u32,
            2 => *r.pick(&[65535, 65536, 1 << 31, 0x7fff_ffff]),
            _ => r.next() as u32,
        }),
        Ty::Bool => V::Bool(r.chance(1, 2)),
        Ty::Tuple(v) => V::Tuple(v.iter().map(|t| arg(r, t, None, s)).collect()),
        Ty::Named(n) => V::Struct(n.clone(), s[n].iter().map(|(_, t)| arg(r, t, None, s)).collect()),
        Ty::Array(t, n) => V::Ref(Rc::new(RefCell::new((0..*n).map(|_| arg(r, t, None, s)).collect())), false),
        Ty::Ptr(_) => unreachable!("pointer argument"),
    }
}
pub fn input(v: &V) -> InputValue {
    match v {
        V::Felt(a) => InputValue::Number(*a as i64),
        V::U32(a) => InputValue::Number(*a as i64),
        V::Bool(b) => InputValue::Bool(*b),
        V::Tuple(x) => InputValue::List(x.iter().map(input).collect()),
        V::Struct(_, x) => InputValue::Struct(x.iter().map(input).collect()),
        V::Ref(r, _) => InputValue::List(r.borrow().iter().map(input).collect()),
    }
}
pub fn show_out(v: &CairoMValue) -> String {
    let list = |x: &[CairoMValue]| x.iter().map(show_out).collect::<Vec<_>>().join(", ");
    match v {
        CairoMValue::Felt(a) => format!("{}", a.0),
        CairoMValue::U32(a) => format!("{a}u32"),
        CairoMValue::Bool(b) => format!("{b}"),
        CairoMValue::Pointer(_) => "ptr".into(),
        CairoMValue::Tuple(x) => format!("({})", list(x)),
        CairoMValue::Struct(x) => format!("{{{}}}", x.iter().map(|x| show_out(&x.1)).collect::<Vec<_>>().join(", ")),
        CairoMValue::Array(x) => format!("[{}]", list(x)),
        CairoMValue::Unit => "()".into(),
    }
}
pub fn observed(out: &[CairoMValue], ret: &Ty) -> String {
    match ret {
        Ty::Tuple(_) => format!("({})", out.iter().map(show_out).collect::<Vec<_>>().join(", ")),
        _ => out.iter().map(show_out).collect::<Vec<_>>().join(" | "),
    }
}
#[derive(Debug, Clone)]
pub enum Verdict {
    Agree,
    Skip(&'static str),
    /// The front end rejected a generated program.
    Rejected(String),
    Bad(String, String),
}
/// What the source means, and whether the run built an array with a zero element.
pub fn expect(items: &Module, structs: &Structs, args: &[V]) -> (Result<String, Stop>, bool) {
    let mut i = Interp::new(items, structs, 30_000);
    let main_ret = i.call("main", args.iter().map(deep).collect());
    (main_ret.map(|v| show(&v)), i.zeros)
}
pub fn judge(items: &Module, structs: &Structs, main: &Sig, argss: &[Vec<V>], opts: &[bool], rep: Option<&Report>) -> Verdict {
    judge_as(&[("main".into(), text(items))], items, structs, main, argss, opts, rep)
}
/// Compiles `mods` and compares its runs with what `items` means.
pub fn judge_as(mods: &[(String, String)], items: &Module, structs: &Structs, main: &Sig, argss: &[Vec<V>], opts: &[bool], rep: Option<&Report>) -> Verdict {
    let exps: Vec<(Result<String, Stop>, bool)> = argss.iter().map(|a| expect(items, structs, a)).collect();
    if exps.iter().all(|e| matches!(e.0, Err(Stop::Undefined(_)) | Err(Stop::Steps))) {
        return Verdict::Skip("undefined");
    }
    for &opt in opts {
        let p = match compile(mods, opt) {
            Ok(p) => p,
            Err(Fail::Front(d)) => return Verdict::Rejected(d.join("; ")),
            Err(Fail::Back(e)) if stops(&e) && MAY_STOP.get() => {
                // an error known at compile time is refused
                if let Some(rep) = rep { rep.count("refused: an error known at compile time", 1) }
                return Verdict::Skip("an error known at compile time");
            }
            Err(Fail::Back(e)) => return Verdict::Bad(format!("accepted program does not compile (optimize={opt}): {e}"), "compile".into()),
            Err(Fail::Panic(e)) => return Verdict::Bad(format!("compiler panicked (optimize={opt}): {e}"), "compile-panic".into()),
        };
        for (a, (e, zeros)) in argss.iter().zip(&exps) {
            let ins: Vec<InputValue> = a.iter().map(input).collect();
            let shown = a.iter().map(show).collect::<Vec<_>>().join(", ");
            let e = match e {
                Err(Stop::Undefined(_)) | Err(Stop::Steps) => continue,
                e => e,
            };
            let got = run(&p, "main", &ins, STEP_LIMIT);
            if let Some(rep) = rep {
                rep.count("executions", 1);
                if e.is_err() { rep.count("executions that must stop with an error", 1) }
                if let Ok(Ok(o)) = &got {
                    rep.count("vm steps", o.vm.segments.iter().map(|s| s.trace.len() as u64).sum::<u64>() + o.vm.trace.len() as u64);
                }
            }
            let bad: Option<(String, &str)> = match (e, got) {
                (Ok(e), Ok(Ok(o))) => {
                    let g = observed(&o.return_values, &main.ret);
                    (g != *e).then(|| (format!("main({shown}) returned {g}, the source means {e} (optimize={opt})"), "value"))
                }
                (Ok(e), Ok(Err(x))) => Some((format!("main({shown}) failed with `{x}`, the source means {e} (optimize={opt})"), "failed")),
                (Ok(e), Err(x)) => Some((format!("main({shown}) panicked with `{x}`, the source means {e} (optimize={opt})"), "failed")),
                (Err(Stop::Trap(w)), Ok(Ok(o))) => Some((format!("main({shown}) returned {}, but the source must stop: {w} (optimize={opt})", observed(&o.return_values, &main.ret)), "trap")),
                (Err(_), _) => None,
            };
            match bad {
                Some(_) if *zeros && !still_differs(items, structs, main, argss, opts) => {
                    if let Some(rep) = rep {
                        rep.count("differences left to finding zero-array-element", 1);
                    }
                }
                Some((w, k)) => return Verdict::Bad(w, k.into()),
                None => {}
            }
        }
    }
    Verdict::Agree
}
/// The same program with every scalar array element passed through a function, so that no array is made of literal zeros.
fn stored(items: &Module) -> Option<Module> {
    let sem = hcore::refsem::analyse(&[("main".to_string(), items.clone())]);
    if !sem.problems.is_empty() { return None }
    let types: std::collections::HashMap<usize, Option<Ty>> = sem.exprs.iter().map(|e| (e.node, e.ty.clone())).collect();
    let mut elements: Vec<Option<&'static str>> = vec![];
    let mut constant = 0;
    let arrays = |e: &Ex| { let d = format!("{e:?}"); d.matches("Arr(").count() + d.matches("Rep(").count() };
    let mut all = items.clone();
    walk(&mut all, &mut |n, s| match s {
        Slot::Item(Item::Const(_, _, e)) | Slot::St(St::Const(_, _, e)) => constant = arrays(e),
        Slot::Ex(Ex::Arr(_) | Ex::Rep(..)) => elements.push(if constant > 0 {
            constant -= 1;
            None
        } else {
            match types.get(&n) {
                Some(Some(Ty::Array(t, _) | Ty::Ptr(t))) => match **t { Ty::Felt => Some("kept_felt"), Ty::U32 => Some("kept_u32"), _ => None },
                _ => None,
            }
        }),
        _ => {}
    });
    let mut next = elements.into_iter();
    walk(&mut all, &mut |_, s| if let Slot::Ex(e) = s {
        let f = match e { Ex::Arr(_) | Ex::Rep(..) => next.next().flatten(), _ => None };
        let Some(f) = f else { return };
        let keep = |x: &mut Ex| *x = Ex::Call(Box::new(Ex::Id(f.into())), vec![x.clone()]);
        match e { Ex::Arr(a) => a.iter_mut().for_each(keep), Ex::Rep(x, _) => keep(x), _ => {} }
    });
    for (n, t) in [("kept_felt", Ty::Felt), ("kept_u32", Ty::U32)] {
        all.push(Item::Fn(FnDef { name: n.into(), params: vec![("x".into(), t.clone())], ret: Some(t), body: vec![St::Return(Some(Ex::Id("x".into())))] }));
    }
    Some(all)
}
/// Whether a difference is there even when the listed finding (zeros of literal arrays) cannot be its cause.
fn still_differs(items: &Module, structs: &Structs, main: &Sig, argss: &[Vec<V>], opts: &[bool]) -> bool {
    match stored(items) {
        Some(m) => matches!(judge(&m, structs, main, argss, opts, None), Verdict::Bad(..)),
        None => false,
    }
}
/// Whether the compiler refuses a program for what must stop it.
pub fn stops(e: &str) -> bool { e.contains("Division by zero") || e.contains("does not fit in an M31") }
thread_local! {
    /// Whether the program judged was generated with divisions and casts that may stop it.
    static MAY_STOP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn random(r: &mut Rng) -> (Prog, Vec<Vec<V>>) { random_with(r, false) }
/// `may_stop`: with divisions and casts that may stop the program.
fn random_with(r: &mut Rng, may_stop: bool) -> (Prog, Vec<Vec<V>>) {
    let cfg = Cfg { may_stop, ..Cfg::random(r) };
    let p = Gen::new(r, cfg).program();
    let n = if p.main.params.is_empty() { 1 } else { 3 };
    let args = (0..n).map(|_| p.main.params.iter().map(|q| arg(r, &q.ty, q.bound, &p.structs)).collect()).collect();
    (p, args)
}
pub fn structs_of(items: &Module) -> Structs {
    items.iter().filter_map(|i| if let Item::Struct(n, f) = i { Some((n.clone(), f.clone())) } else { None }).collect()
}
/// Whether `main` of a shrunk program still takes these arguments and returns the same type.
fn same_interface(items: &Module, main: &Sig, argss: &[Vec<V>]) -> bool {
    fn fits(v: &V, t: &Ty, s: &Structs) -> bool {
        match (v, t) {
            (V::Felt(_), Ty::Felt) | (V::U32(_), Ty::U32) | (V::Bool(_), Ty::Bool) => true,
            (V::Tuple(x), Ty::Tuple(t)) => x.len() == t.len() && x.iter().zip(t).all(|(v, t)| fits(v, t, s)),
            (V::Struct(n, x), Ty::Named(m)) => n == m && s.get(n).is_some_and(|f| f.len() == x.len() && x.iter().zip(f).all(|(v, t)| fits(v, &t.1, s))),
            (V::Ref(r, _), Ty::Array(t, n)) => r.borrow().len() == *n as usize && r.borrow().iter().all(|v| fits(v, t, s)),
            _ => false,
        }
    }
    let s = structs_of(items);
    items.iter().any(|i| match i {
        Item::Fn(f) => f.name == "main" && f.ret.as_ref() == Some(&main.ret) && argss.iter().all(|a| a.len() == f.params.len() && a.iter().zip(&f.params).all(|(v, p)| fits(v, &p.1, &s))),
        _ => false,
    })
}
pub fn shrink(items: &Module, main: &Sig, argss: &[Vec<V>], opts: &[bool], kind: &str) -> (Module, String) {
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let mut last = String::new();
    let m = hcore::shrink::shrink(items, deadline, |c| same_interface(c, main, argss) && match judge(c, &structs_of(c), main, argss, opts, None) {
        Verdict::Bad(w, k) if k == kind => {
            last = w;
            true
        }
        _ => false,
    });
    (m, last)
}
/// Listed findings that still fail, found by running their probes.
fn probes(rep: &Report, opts: &[bool]) {
    let zero = "fn dirty(i: felt) -> felt { let a = [7, 7, 7, 7, 7, 7, 7, 7]; return a[i]; }\nfn clean(i: felt) -> felt { let a = [0, 0, 0, 0, 0, 0, 0, 0]; return a[i]; }\nfn main(i: felt) -> felt { let d = dirty(i); return clean(i); }\n";
    for &o in opts {
        let Ok(p) = compile(&[("main".into(), zero.into())], o) else { continue };
        if let Ok(Ok(x)) = run(&p, "main", &[InputValue::Number(1)], 1000) {
            if observed(&x.return_values, &Ty::Felt) != "0" { rep.known("zero-array-element"); }
        }
    }
}
/// Executes generated programs and compares every run with the reference meaning of the source.
pub fn meaning(rep: &Report, opts: &[bool]) -> i32 {
    let dev = std::env::var("VERIF_DEV").is_ok();
    probes(rep, opts);
    parallel(8, rep.ctx.seed, |_, mut r| {
        while !rep.stop() {
            let may_stop = r.chance(1, 4);
            let (p, argss) = random_with(&mut r, may_stop);
            MAY_STOP.set(may_stop);
            let (mods, form) = if r.chance(1, 2) {
                (vec![("main".to_string(), text(&p.items))], "one module as generated")
            } else {
                let mut c = semcase::dress(p.items.clone(), &mut r);
                if r.chance(1, 3) { semcase::odd_names(&mut c.mods, &mut r) }
                let form = if c.mods.len() > 1 { "several modules" } else { "shadowing, dead code, any order" };
                let mut m: Vec<(String, String)> = c.mods.iter().map(|(n, m)| (n.clone(), text(m))).collect();
                let main = m.iter().position(|(n, _)| n == "main").unwrap_or(0);
                m.swap(0, main);
                (m, form)
            };
            match watched(&semcase::print(&mods), || judge_as(&mods, &p.items, &p.structs, &p.main, &argss, opts, Some(rep))) {
                Verdict::Agree => {
                    let t = semcase::print(&mods);
                    rep.eval(hash_str(&t));
                    rep.count(&format!("programs: {form}"), 1);
                    rep.sample(|| t);
                }
                Verdict::Skip(w) => rep.count(&format!("skipped: {w}"), 1),
                Verdict::Rejected(w) => {
                    rep.count("rejected by the front end", 1);
                    if dev && rep.counter("rejected by the front end") < 5 {
                        println!("REJECTED {w}\n{}", semcase::print(&mods));
                    }
                }
                Verdict::Bad(w, k) => {
                    // the plain form of the program is easier to shrink, if it fails too
                    let args = argss.iter().map(|a| format!("// main({})\n", a.iter().map(show).collect::<Vec<_>>().join(", "))).collect::<String>();
                    rep.violation_then(w.clone(), args.clone() + &semcase::print(&mods), || match judge(&p.items, &p.structs, &p.main, &argss, opts, None) {
                        Verdict::Bad(_, k2) if k2 == k => {
                            let (m, w2) = shrink(&p.items, &p.main, &argss, opts, &k);
                            Some((if w2.is_empty() { w } else { w2 }, args + &text(&m)))
                        }
                        _ => None,
                    });
                }
            }
        }
    });
    rep.finish("exploration", "distinct generated programs compiled and executed whose results were all compared with the reference meaning")
}

/// Development: some generated programs.
pub fn print(n: usize) -> i32 {
    let mut r = Rng::new(std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1));
    for _ in 0..n {
        let cfg = Cfg::random(&mut r);
        println!("%%\n{}", text(&Gen::new(&mut r, cfg).program().items));
    }
    0
}
