//! Parsable edits that ignore meaning: pieces of a program moved, replaced, renamed or dropped.
use crate::ast::*;
use crate::gen_syn::norm_item;
use crate::rng::Rng;
use crate::walk::{walk, Slot};

type Mods = Vec<(String, Module)>;
#[derive(Default)]
struct Parts {
    exs: Vec<(usize, usize)>,
    tys: Vec<(usize, usize)>,
    names: Vec<(usize, usize)>,
    seqs: Vec<(usize, usize)>,
    ex: Vec<Ex>,
    ty: Vec<Ty>,
    name: Vec<String>,
    st: Vec<St>,
}
fn parts(m: &mut Mods) -> Parts {
    let mut p = Parts::default();
    for (i, (_, m)) in m.iter_mut().enumerate() {
        walk(m, &mut |n, s| match s {
            Slot::Ex(e) => { p.exs.push((i, n)); p.ex.push(e.clone()) }
            Slot::Ty(t) => { p.tys.push((i, n)); p.ty.push(t.clone()) }
            Slot::Name(x) => { p.names.push((i, n)); p.name.push(x.clone()) }
            Slot::Seq(b) => { p.seqs.push((i, n)); p.st.extend(b.iter().cloned()) }
            _ => {}
        });
    }
    p
}
/// `n` random edits; the result is always in the grammar.
pub fn graft(m: &[(String, Module)], n: usize, r: &mut Rng) -> Mods {
    let mut m: Mods = m.to_vec();
    for _ in 0..n {
        let p = parts(&mut m);
        match r.below(9) {
            0 | 1 | 2 if !p.exs.is_empty() => {
                let (i, at) = *r.pick(&p.exs);
                let mut e = Some(match r.below(8) {
                    0 => Ex::Num(r.next() >> r.below(64), [None, Some("felt".to_string()), Some("u32".to_string())][r.below(3)].clone()),
                    1 => Ex::Tuple(vec![]),
                    2 => Ex::New(Ty::Felt, Box::new(r.pick(&p.ex).clone())),
                    3 => Ex::Cast(Box::new(r.pick(&p.ex).clone()), if p.ty.is_empty() { Ty::Felt } else { r.pick(&p.ty).clone() }),
                    _ => r.pick(&p.ex).clone(),
                });
                walk(&mut m[i].1, &mut |n, s| if n == at { if let Slot::Ex(x) = s { if let Some(e) = e.take() { *x = e } } });
            }
            3 if !p.tys.is_empty() => {
                let (i, at) = *r.pick(&p.tys);
                let a = r.pick(&p.ty).clone();
                let mut t = Some(match r.below(6) {
                    0 => Ty::Ptr(Box::new(a)),
                    1 => Ty::Array(Box::new(a), r.below(4) as u64),
                    2 => Ty::Tuple(vec![a]),
                    3 => Ty::Named(r.pick(&p.name).clone()),
                    _ => a,
                });
                walk(&mut m[i].1, &mut |n, s| if n == at { if let Slot::Ty(x) = s { if let Some(t) = t.take() { *x = t } } });
            }
            4 | 5 if !p.names.is_empty() => {
                let (i, at) = *r.pick(&p.names);
                let to = r.pick(&p.name).clone();
                if ["felt", "u32", "bool"].contains(&to.as_str()) { continue }
                walk(&mut m[i].1, &mut |n, s| if n == at { if let Slot::Name(x) = s { *x = to.clone() } });
            }
            6 if !p.seqs.is_empty() && !p.st.is_empty() => {
                let (i, at) = *r.pick(&p.seqs);
                let s0 = r.pick(&p.st).clone();
                let (k, u) = (r.below(3), r.next() as usize);
                let mut done = false;
                walk(&mut m[i].1, &mut |n, s| if n == at && !done {
                    if let Slot::Seq(b) = s {
                        done = true;
                        match k {
                            0 => b.insert(u % (b.len() + 1), s0.clone()),
                            1 if !b.is_empty() => { let j = u % b.len(); b.remove(j); }
                            _ if !b.is_empty() => { let j = u % b.len(); b[j] = s0.clone() }
                            _ => {}
                        }
                    }
                });
            }
            7 => {
                let i = r.below(m.len());
                let from = r.below(m.len());
                if m[from].1.is_empty() { continue }
                let it = r.pick(&m[from].1).clone();
                let l = m[i].1.len();
                match r.below(3) {
                    0 => { let j = r.below(l + 1); m[i].1.insert(j, it) }
                    1 if l > 0 => { let j = r.below(l); m[i].1.remove(j); }
                    _ if l > 1 => { let (a, b) = (r.below(l), r.below(l)); m[i].1.swap(a, b) }
                    _ => {}
                }
            }
            8 => {
                let i = r.below(m.len());
                let to = r.pick(&m).0.clone();
                let path = if r.chance(1, 6) { vec!["nowhere".to_string()] } else { to.split("::").map(String::from).collect() };
                let names: Vec<String> = p.name.iter().filter(|n| !["felt", "u32", "bool"].contains(&n.as_str())).cloned().collect();
                if names.is_empty() { continue }
                let u = if r.chance(1, 2) { UseItems::Single(r.pick(&names).clone()) } else { UseItems::List((0..r.range(1, 3)).map(|_| r.pick(&names).clone()).collect()) };
                m[i].1.insert(0, Item::Use(path, u));
            }
            _ => {}
        }
    }
    m.into_iter().map(|(n, m)| (n, crate::gen_sem::unhint(&m).into_iter().map(norm_item).collect())).collect()
}
