//! Front-end monitors: `fe <property>` runs the real front end and judges what it did.
mod alloc;
mod flow;
mod fmt;
mod history;
mod lower;
mod sem;
mod semantic;
mod syntax;
use hcore::report::{Ctx, Report};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let property = std::env::args().nth(1).expect("usage: fe <property>");
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { tier } else { "quick".into() };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let seconds = std::env::var("VERIF_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600.0 } else { 20.0 });
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into();
    let rep: &'static Report = Box::leak(Box::new(Report::new(Ctx { property: property.clone(), tier, seed, seconds, verif })));
    hcore::report::watch(rep, 60);
    let code = match property.as_str() {
        "try" => sem::try_stdin(),
        "P01" => syntax::fidelity(rep),
        "P02" => syntax::totality(rep),
        "P03" => syntax::spans(rep),
        "P04" => syntax::lexing(rep),
        "P05" => syntax::rejection(rep),
        "P06" => fmt::meaning(rep),
        "P07" => fmt::keep_comments(rep),
        "P08" => fmt::stable(rep),
        "P09" => semantic::accepts(rep),
        "P10" => semantic::types(rep),
        "P11" => semantic::names(rep),
        "P12" => semantic::warnings(rep),
        "P13" => semantic::rejects(rep),
        "P14" => flow::flow(rep),
        "P15" => history::history(rep),
        "P16" => history::total(rep),
        p => {
            eprintln!("no check for {p}");
            2
        }
    };
    std::process::exit(code);
}
