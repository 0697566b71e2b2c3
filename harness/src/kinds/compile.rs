//! Compiling machines into automata (C14)
use concordance::*;
use serde_json::{json, Value};
use std::rc::Rc;
use std::cell::RefCell;
use crate::sym::{Sym, Tok};
use crate::{with_embedding, with_token_type};
use super::ndfa::{range, show};

/// A builder that records what it is told
struct Recorder<F> { show: F, pre: Vec<Value>, blocks: Vec<Vec<Value>>, builds: Rc<RefCell<usize>> }

impl<F> Recorder<F> {
    fn push(&mut self, v: Value) { match self.blocks.last_mut() { Some(b) => b.push(v), None => self.pre.push(v) } }
}

impl<I, O: Tok, F: Fn(&I) -> Vec<i64>> DfaBuilder<I, O, (Vec<Value>, Vec<Vec<Value>>)> for Recorder<F> {
    fn start_state(&mut self) { self.blocks.push(vec![]); }
    fn transition(&mut self, symbol: I, target_state: StateId) {
        let s = (self.show)(&symbol);
        self.push(json!(["t", s[0], s[1], target_state]));
    }
    fn accept(&mut self, symbol: O) { self.push(json!(["a", symbol.rank()])); }
    fn build(self) -> (Vec<Value>, Vec<Vec<Value>>) {
        *self.builds.borrow_mut() += 1;
        (self.pre, self.blocks)
    }
}

/// A state machine that has nothing to do with the library's
#[derive(Clone)]
struct Own<I, O> { trans: Vec<Vec<(I, StateId)>>, outs: Vec<Vec<O>> }
impl<I: Clone, O> StateMachine<I, O> for Own<I, O> {
    fn count_states(&self) -> StateId { self.trans.len() as StateId }
    fn get_transitions_for_state(&self, state: StateId) -> Vec<(I, StateId)> { self.trans[state as usize].clone() }
    fn output_symbol_for_state(&self, state: StateId) -> Option<&O> { self.outs[state as usize].first() }
    fn output_symbols_for_state(&self, state: StateId) -> Vec<&O> { self.outs[state as usize].iter().collect() }
}

/// As Own, but it only knows of one output for a state
#[derive(Clone)]
struct Simple<I, O>(Own<I, O>);
impl<I: Clone, O> StateMachine<I, O> for Simple<I, O> {
    fn count_states(&self) -> StateId { self.0.count_states() }
    fn get_transitions_for_state(&self, state: StateId) -> Vec<(I, StateId)> { self.0.get_transitions_for_state(state) }
    fn output_symbol_for_state(&self, state: StateId) -> Option<&O> { self.0.output_symbol_for_state(state) }
}

fn make_ndfa<I: Clone, O: Tok>(case: &Value, make: &dyn Fn(&Value) -> I) -> Ndfa<I, O> {
    let mut m = Ndfa::new();
    for op in case["ops"].as_array().unwrap() {
        let n = |i: usize| op[i].as_u64().unwrap() as StateId;
        match op[0].as_str().unwrap() {
            "t" => m.add_transition(n(1), make(op), n(4)),
            "c" => m.create_state(n(1)),
            "j" => m.join_states(n(1), n(2)),
            "o" => m.set_output_symbol(n(1), O::from_rank(n(2) as i64)),
            other => panic!("unknown op {}", other)
        }
    }
    m
}

fn make_own<I: Clone, O: Tok>(case: &Value, make: &dyn Fn(&Value) -> I) -> Own<I, O> {
    let mut m = Own { trans: vec![vec![]], outs: vec![vec![]] };
    for op in case["ops"].as_array().unwrap() {
        let n = |i: usize| op[i].as_u64().unwrap() as usize;
        let highest = match op[0].as_str().unwrap() { "t" => n(1).max(n(4)), _ => n(1) };
        while m.trans.len() <= highest { m.trans.push(vec![]); m.outs.push(vec![]); }
        match op[0].as_str().unwrap() {
            "t" => m.trans[n(1)].push((make(op), n(4) as StateId)),
            "c" => { }
            "o" => m.outs[n(1)] = vec![O::from_rank(n(2) as i64)],
            "p" => m.outs[n(1)].push(O::from_rank(n(2) as i64)),
            other => panic!("unknown op {}", other)
        }
    }
    m
}

/// Compiles the machine of a case with a builder
fn compile<I, O, D, B>(case: &Value, make: &dyn Fn(&Value) -> I, builder: B) -> D
where I: Ord + Clone + 'static, O: Tok, B: DfaBuilder<I, O, D> {
    match case["machine"].as_str().unwrap() {
        "ndfa"   => DfaCompiler::build(make_ndfa::<I, O>(case, make), builder),
        "new"    => DfaCompiler::new(make_ndfa::<I, O>(case, make), builder).compile(),
        "box"    => { let b: Box<dyn StateMachine<I, O>> = Box::new(make_ndfa::<I, O>(case, make)); DfaCompiler::build(b, builder) }
        "rc"     => { let b: Rc<dyn StateMachine<I, O>> = Rc::new(make_ndfa::<I, O>(case, make)); DfaCompiler::build(b, builder) }
        "own"    => DfaCompiler::build(make_own::<I, O>(case, make), builder),
        "ownbox" => { let b: Box<dyn StateMachine<I, O>> = Box::new(make_own::<I, O>(case, make)); DfaCompiler::build(b, builder) }
        "simple" => DfaCompiler::build(Simple(make_own::<I, O>(case, make)), builder),
        other    => panic!("unknown machine {}", other)
    }
}

fn record<I, F: Fn(&I) -> Vec<i64>, C: FnOnce(Recorder<F>) -> (Vec<Value>, Vec<Vec<Value>>)>(run: C, show: F, dfa: Value) -> Value {
    let builds = Rc::new(RefCell::new(0));
    let (pre, blocks) = run(Recorder { show: show, pre: vec![], blocks: vec![], builds: builds.clone() });
    let builds = *builds.borrow();
    json!({"pre": pre, "blocks": blocks, "builds": builds, "dfa": dfa})
}

/// Compiles a machine over ranges. It can also be an automaton that was compiled from another.
fn compile_ranges<S: Sym, O: Tok, D, B: DfaBuilder<SymbolRange<S>, O, D>>(case: &Value, e: &[S], builder: B) -> D {
    let make = |op: &Value| range(e, op, 2);
    match case["machine"].as_str().unwrap() {
        how @ "dfa" | how @ "dfabox" => {
            let first: SymbolRangeDfa<S, O> = DfaCompiler::build(make_ndfa::<SymbolRange<S>, O>(case, &make), SymbolRangeDfaBuilder::new());
            if how == "dfa" { return DfaCompiler::build(first, builder); }
            let b: Box<dyn StateMachine<SymbolRange<S>, O>> = Box::new(first);
            DfaCompiler::build(b, builder)
        }
        _ => compile::<SymbolRange<S>, O, _, _>(case, &make, builder)
    }
}

fn ranges<S: Sym, O: Tok>(case: &Value, e: &[S]) -> Value {
    let dfa: SymbolRangeDfa<S, O> = compile_ranges(case, e, SymbolRangeDfaBuilder::new());
    let table: Vec<Value> = (0..dfa.count_states()).map(|d| json!({
        "out": dfa.output_symbol_for_state(d).map(|o| o.rank()).unwrap_or(-1),
        "tr": dfa.get_transitions_for_state(d).into_iter().map(|(r, t)| { let mut v = show(e, &r); v.push(t as i64); v }).collect::<Vec<_>>()
    })).collect();
    record(|b| compile_ranges::<S, O, _, _>(case, e, b), |r: &SymbolRange<S>| show(e, r), json!(table))
}

/// Symbols that are not ranges of anything
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Opaque(String);

fn opaque<O: Tok>(case: &Value) -> Value {
    let make = |op: &Value| Opaque(format!("{:03}-{:03}", op[2].as_u64().unwrap(), op[3].as_u64().unwrap()));
    record(|b| compile::<Opaque, O, _, _>(case, &make, b), |o: &Opaque| o.0.split('-').map(|x| x.parse().unwrap()).collect(), json!([]))
}

pub fn compiled(case: &Value) -> Value {
    let k = case["k"].as_u64().unwrap() as usize;
    with_token_type!(case["tt"].as_str().unwrap(), O, match case["emb"].as_str().unwrap() {
        "opaque" => opaque::<O>(case),
        emb      => with_embedding!(emb, k, e, ranges::<_, O>(case, &e))
    })
}
