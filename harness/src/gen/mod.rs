//! Making cases
use serde_json::Value;

pub mod pat;
pub mod large;
mod tok;
mod tape;
mod split;
pub mod ndfa;
mod compile;
mod reuse;
mod run;
mod interval;
mod domain;
mod readers;
mod levels;
mod tagged;
mod drive;
mod kept;

pub fn generate(prop: &str, tier: &str, seed: u64) -> Vec<Value> {
    let deep = tier == "thorough";
    match prop {
        "C06" | "C07" => tape::generate(prop, seed, deep),
        "C04" | "C05" => tok::generate(prop, seed, deep),
        "C10" | "C11" => ndfa::machines(prop, seed, deep),
        "C12" | "C13" => ndfa::maps(prop, seed, deep),
        "C14" => compile::generate(seed, deep),
        "C15" => compile::patterns(seed, deep),
        "C16" => run::generate(seed, deep),
        "C17" => reuse::generate(seed, deep),
        "C08" | "C09" => split::generate(prop, seed, deep),
        "C18" | "C19" => tagged::generate(prop, seed, deep),
        "C20" => readers::generate(seed, deep),
        "C21" => domain::generate(seed, deep),
        "C22" => interval::generate(seed, deep),
        "C23" => levels::generate(seed, deep),
        "C24" => levels::lazy(seed, deep),
        "C25" => drive::generate(seed, deep),
        "C26" => kept::generate(seed, deep),
        "C01" => pat::c01(seed, deep),
        "C02" => pat::c02(seed, deep),
        "C03" => pat::c03(seed, deep),
        other => panic!("no generator for {}", other)
    }
}
