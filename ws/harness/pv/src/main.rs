//! Monitor of the prover's input: the adapter of the prover crate on the segments of real runs.
//! The hash of the Merkle trees is a stand-in (the real one, Poseidon2 of `zkhash`, cannot be built offline).
#![feature(alloc_error_hook)]
#![allow(dead_code)]
#[path = "../../../crates/prover/src/adapter/mod.rs"]
mod adapter;
#[path = "../../be/src/guard.rs"]
mod guard;
#[path = "../../be/src/isa.rs"]
mod isa;
#[path = "../../be/src/prog.rs"]
mod prog;
#[path = "../../be/src/run.rs"]
mod run;
#[path = "../../be/src/vm.rs"]
mod vm;
mod input;
mod poseidon2 {
    use crate::adapter::merkle::{MerkleHasher, TREE_HEIGHT};
    use stwo_prover::core::fields::m31::M31;
    pub const T: usize = 16;
    pub struct Poseidon2Hash;
    pub fn mix(l: u32, r: u32) -> u32 {
        let mut x = (l as u64) << 32 | r as u64;
        for k in [0x9e3779b97f4a7c15u64, 0xbf58476d1ce4e5b9, 0x94d049bb133111eb] { x = (x ^ (x >> 29)).wrapping_mul(k).wrapping_add(k) }
        ((x ^ (x >> 32)) % 2147483647) as u32
    }
    impl MerkleHasher for Poseidon2Hash {
        fn hash(l: M31, r: M31) -> M31 { M31(mix(l.0, r.0)) }
        fn default_hashes() -> &'static [M31] {
            static D: std::sync::OnceLock<Vec<M31>> = std::sync::OnceLock::new();
            D.get_or_init(|| {
                let mut d = vec![M31(0); TREE_HEIGHT as usize + 1];
                for i in (0..TREE_HEIGHT as usize).rev() { d[i] = Self::hash(d[i + 1], d[i + 1]) }
                d
            })
        }
    }
}
mod preprocessed {
    pub mod range_check {
        pub mod range_check_20 {
            pub const LOG_SIZE_RC_20: u32 = 20;
        }
    }
}
use hcore::report::{watch, Ctx, Report};

#[global_allocator]
static GUARD: guard::Guard = guard::Guard;

fn main() {
    guard::install();
    let property = std::env::args().nth(1).expect("usage: pv <property>");
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { tier } else { "quick".into() };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let seconds = std::env::var("VERIF_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600.0 } else { 20.0 });
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into();
    let rep: &'static Report = Box::leak(Box::new(Report::new(Ctx { property, tier, seed, seconds, verif })));
    watch(rep, 60);
    std::process::exit(input::input(rep))
}
