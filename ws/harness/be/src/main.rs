//! Back-end monitors: `be <property>` compiles and runs real programs and judges what happened.
#![feature(alloc_error_hook)]
mod cli;
mod codec;
mod guard;
mod isa;
mod output;
mod prog;
mod project;
mod records;
mod run;
mod shown;
mod vm;
use hcore::report::{watch, Ctx, Report};

#[global_allocator]
static GUARD: guard::Guard = guard::Guard;

fn main() {
    guard::install();
    let property = std::env::args().nth(1).expect("usage: be <property>");
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { tier } else { "quick".into() };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let seconds = std::env::var("VERIF_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(match (tier.as_str(), property.as_str()) { ("thorough", _) => 600.0, (_, "P17") => 45.0, (_, "P18" | "P22") => 30.0, _ => 20.0 });
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into();
    let rep: &'static Report = Box::leak(Box::new(Report::new(Ctx { property: property.clone(), tier, seed, seconds, verif })));
    watch(rep, 60);
    let code = match property.as_str() {
        "try" => run::try_stdin(),
        "gen" => prog::print(300),
        "probe-project" => project::probe(),
        "P17" => prog::meaning(rep, &[true]),
        "P18" => prog::meaning(rep, &[false]),
        "P19" => output::output(rep),
        "P20" => vm::isa(rep),
        "P21" => records::records(rep),
        "P22" => records::reads(rep),
        "P24" => codec::encodings(rep),
        "P25" => codec::values(rep),
        "P26" => project::projects(rep),
        "P27" => cli::init(rep),
        "P28" => cli::tools(rep),
        "P29" => shown::problems(rep),
        "dev" => prog::meaning(rep, &[true]),
        "dev0" => prog::meaning(rep, &[false]),
        p => {
            eprintln!("no check for {p}");
            2
        }
    };
    std::process::exit(code);
}
