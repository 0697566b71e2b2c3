//! Executing cases: one function per kind of case
use serde_json::Value;

pub mod pat;
pub mod tok;
mod tape;
mod split;
pub mod ndfa;
mod compile;
mod reuse;
mod run;
mod compile_on;
mod interval;
mod domain;
mod readers;
mod levels;
mod lazy;
mod tagged;
mod drive;
mod kept;

pub fn execute(case: &Value) -> Value {
    match case["kind"].as_str().unwrap() {
        "dfa"   => pat::dfa(case),
        "match" => pat::matching(case),
        "split" => split::split(case),
        "tok"   => tok::tok(case),
        "ndfa"  => ndfa::ndfa(case),
        "ranges" => ndfa::ranges(case),
        "compile" => compile::compiled(case),
        "compile_on" => compile_on::compile_on(case),
        "run"   => run::run(case),
        "reuse" => reuse::reuse(case),
        "tagged" => tagged::tagged(case),
        "readers" => readers::readers(case),
        "drive" => drive::drive(case),
        "kept"  => kept::kept(case),
        "levels" => levels::levels(case),
        "lazy"  => lazy::lazy(case),
        "domain" => domain::domain(case),
        "interval" => interval::interval(case),
        "tape"  => tape::tape(case),
        other   => panic!("unknown kind {}", other)
    }
}
