//! Compiling patterns onto machines (C15)
use concordance::*;
use serde_json::{json, Value};
use crate::ast::P;
use crate::sym::Sym;
use crate::with_embedding;
use super::ndfa::{range, show};

/// A machine that remembers what was done to it
struct Recording<S: Sym> { inner: Ndfa<SymbolRange<S>, u32>, calls: Vec<Value>, e: Vec<S> }

impl<S: Sym> StateMachine<SymbolRange<S>, u32> for Recording<S> {
    fn count_states(&self) -> StateId { self.inner.count_states() }
    fn get_transitions_for_state(&self, state: StateId) -> Vec<(SymbolRange<S>, StateId)> { self.inner.get_transitions_for_state(state) }
    fn output_symbol_for_state(&self, state: StateId) -> Option<&u32> { self.inner.output_symbol_for_state(state) }
    fn output_symbols_for_state(&self, state: StateId) -> Vec<&u32> { self.inner.output_symbols_for_state(state) }
}

impl<S: Sym> MutableStateMachine<SymbolRange<S>, u32> for Recording<S> {
    fn add_transition(&mut self, state: StateId, for_symbol: SymbolRange<S>, new_state: StateId) {
        let s = show(&self.e, &for_symbol);
        self.calls.push(json!(["t", state, s[0], s[1], new_state]));
        self.inner.add_transition(state, for_symbol, new_state);
    }
    fn create_state(&mut self, state: StateId) { self.calls.push(json!(["c", state])); self.inner.create_state(state); }
    fn set_output_symbol(&mut self, state: StateId, o: u32) { self.calls.push(json!(["o", state, o])); self.inner.set_output_symbol(state, o); }
    fn join_states(&mut self, first_state: StateId, second_state: StateId) {
        self.calls.push(json!(["j", first_state, second_state]));
        self.inner.join_states(first_state, second_state);
    }
}

fn run<S: Sym>(case: &Value, e: Vec<S>) -> Value {
    let mut m = Recording { inner: Ndfa::new(), calls: vec![], e: e.clone() };
    for op in case["ops"].as_array().unwrap() {
        let n = |i: usize| op[i].as_u64().unwrap() as StateId;
        match op[0].as_str().unwrap() {
            "t" => m.inner.add_transition(n(1), range(&e, op, 2), n(4)),
            "c" => m.inner.create_state(n(1)),
            "j" => m.inner.join_states(n(1), n(2)),
            "o" => m.inner.set_output_symbol(n(1), n(2) as u32),
            other => panic!("unknown op {}", other)
        }
    }
    let mut last = 0;
    let mut obs  = vec![];
    for step in case["steps"].as_array().unwrap() {
        // "at" is a state, or -1 for the one that was last returned
        let start = match step["at"].as_i64().unwrap() { -1 => last, n => n as StateId % m.inner.count_states() };
        m.calls.clear();
        let ret = P::parse(&step["p"]).to_real(&e).compile(&mut m, start);
        last = ret;
        obs.push(json!({"start": start, "ret": ret, "calls": m.calls.clone()}));
    }
    json!(obs)
}

pub fn compile_on(case: &Value) -> Value {
    let k = case["k"].as_u64().unwrap() as usize;
    with_embedding!(case["emb"].as_str().unwrap(), k, e, run(case, e))
}
