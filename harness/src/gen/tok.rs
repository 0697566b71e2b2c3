//! Cases about tokenizers
use serde_json::{json, Value};
use crate::ast::P::*;
use crate::ast::{dfa_size, word_near, P};
use crate::gen::pat::{pick_embedding, token_set, toks_json, type_and_embedding};
use crate::rng::Rand;
use crate::sym::ODD;

pub const READERS: &[&str] = &["vec", "slice", "map", "filter", "tape", "carry", "left", "right", "str", "str"];

/// An input made of words near the tokens, with symbols that belong to nothing between
pub fn input(r: &mut Rand, ts: &[(P, i64)], k: usize, words: usize, limit: usize) -> Vec<usize> {
    let ps: Vec<&P> = ts.iter().map(|t| &t.0).collect();
    let mut w = vec![];
    for _ in 0..words { w.extend(word_near(&ps, r, k, limit)); if w.len() > limit { break; } }
    w.truncate(limit);
    w
}

/// Calls of every sort, ending by iterating to the end and a bit beyond
pub fn calls(r: &mut Rand, len: usize, prop: &str) -> Vec<&'static str> {
    let style = r.below(5);
    let mut ops = vec![];
    let direct = if prop == "C05" { match style { 0 => 0, 1 => 2, _ => r.usize(0, len + 2) } } else { len + len / 2 + 4 };
    for _ in 0..direct {
        ops.push(match (style, r.below(10)) {
            (_, 0)         => "it",
            (2, _)         => "tok",
            (3, 1..=6)     => "skip",
            (_, 1..=4)     => "tok",
            (_, 5..=6)     => "sym",
            _              => "skip"
        });
    }
    if prop == "C05" || r.chance(1, 2) {
        for _ in 0..len + 2 { ops.push("it"); }
    } else {
        // Every symbol in turn by hand
        for _ in 0..len { ops.push("tok"); ops.push("skip"); }
    }
    for o in ["tok", "it", "skip", "sym", "it"].iter() { ops.push(o); }
    ops
}

/// Has some of the items asked for in the other ways that there are for iterators
fn other_ways(r: &mut Rand, ops: &mut Vec<&'static str>) {
    if r.chance(1, 2) {
        for o in ops.iter_mut() { if *o == "it" && r.chance(1, 3) { *o = *r.pick(&["nth0", "nth1", "nth1", "nth2", "nth3", "hint", "hint"]); } }
    }
    if r.chance(1, 2) {
        // All the rest at once
        let n = match r.below(3) { 0 => 0, 1 => r.usize(0, ops.len() / 2), _ => r.usize(0, ops.len()) };
        ops.truncate(n);
        ops.push(*r.pick(&["rest", "count", "last", "fold"]));
    }
}

pub fn case(r: &mut Rand, k: usize, ts: &[(P, i64)], w: Vec<usize>, ops: Vec<&'static str>) -> Value {
    let (tt, emb) = type_and_embedding(r, k);
    let how = if ts.len() == 1 && r.chance(1, 3) { *r.pick(&["pat", "dyn", "self"]) } else { *r.pick(&["ref", "ref", "prep", "prep", "box", "dfa"]) };
    let (tt, emb) = if how == "pat" || how == "dyn" || how == "self" { ("u32", pick_embedding(r, k)) } else { (tt, emb) };
    json!({"kind": "tok", "k": k, "emb": emb, "tt": tt, "how": how, "reader": *r.pick(READERS), "toks": toks_json(ts), "w": w, "ops": ops})
}

/// The character that is so many before another
pub fn back(c: u32, n: usize) -> u32 { let x = c - n as u32; if c >= 0xe000 && x < 0xe000 { x - 0x800 } else { x } }

pub fn generate(prop: &str, seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, prop);
    let mut res = vec![];
    let scale   = if deep { 12 } else { 1 };
    for i in 0..1800 * scale {
        let k  = *r.pick(&[1, 2, 2, 3, 3, 4, 6]);
        let ts = token_set(&mut r, k, if i % 12 == 0 { 9 } else { 4 }, 3, 150);
        // Symbols that no token knows, too
        let kk = k + r.usize(0, 1);
        let words = r.usize(0, 6);
        let w  = input(&mut r, &ts, kk, words, 40);
        let mut ops = calls(&mut r, w.len(), prop);
        if prop == "C05" { other_ways(&mut r, &mut ops); }
        res.push(case(&mut r, kk, &ts, w, ops));
    }
    // Long tokens, and looking far ahead for one that isn't there
    for i in 0..40 * scale.min(5) {
        let n = r.usize(20, if i % 8 == 0 { 400 } else { 120 });
        let (k, ts): (usize, Vec<(P, i64)>) = match i % 5 {
            // One symbol, or that symbol, many more, and something that never comes
            0 => (3, vec![(Lit(vec![0]), 0), (All(vec![Inf(1, Box::new(Rng(0, 1))), Lit(vec![2])]), 1)]),
            1 => (3, vec![(Lit(vec![0; n]), 0), (Lit(vec![0]), 1), (Lit(vec![1, 2]), 2)]),
            2 => (4, vec![(Inf(1, Box::new(Rng(0, 1))), 1), (Inf(1, Box::new(Lit(vec![3]))), 0)]),
            3 => (3, vec![(All(vec![Lit(vec![0]), Inf(0, Box::new(Rng(0, 1))), Lit(vec![0, 2])]), 1), (Inf(1, Box::new(Lit(vec![1, 1]))), 0)]),
            _ => (4, vec![(Rep(n as u32 / 2, n as u32, Box::new(Rng(0, 2))), 3), (Lit(vec![0, 1]), 2), (Inf(0, Box::new(Lit(vec![2]))), 1)])
        };
        let ps: Vec<&P> = ts.iter().map(|t| &t.0).collect();
        if dfa_size(&ps, k, 3000).is_none() { continue; }
        let mut w: Vec<usize> = (0..n).map(|_| if r.chance(1, 30) { r.usize(0, k - 1) } else { r.usize(0, 1) }).collect();
        if i % 5 == 1 { for x in w.iter_mut() { if *x == 1 && r.chance(9, 10) { *x = 0; } } }
        if i % 2 == 0 { let extra = input(&mut r, &ts, k, 3, n); w.extend(extra); }
        let ops = if prop == "C05" { let mut o = calls(&mut r, 4, prop); o.extend(vec!["it"; w.len() + 2]); o } else { calls(&mut r, w.len(), prop) };
        res.push(case(&mut r, k, &ts, w, ops));
    }
    // Very long inputs. What is looked at again and again stays short
    for n in super::large::LENGTHS {
        for _ in 0..if deep { 6 } else if *n > 5000 { 1 } else { 3 } {
            let (ts, w, ops) = super::large::tokenizing(&mut r, *n, prop);
            res.push(case(&mut r, 3, &ts, w, ops));
        }
    }
    // Strings with characters that are special to someone
    for c in ODD {
        let k  = 3;
        let at = r.usize(0, 2).min(*c as usize);
        if *c as usize - at + k > 0x110000 { continue; }
        let ts = token_set(&mut r, k, 3, 2, 60);
        let mut w = vec![at];
        w.extend(input(&mut r, &ts, k, 3, 12));
        w.push(at);
        let ops = calls(&mut r, w.len(), prop);
        res.push(json!({"kind": "tok", "k": k, "emb": format!("char@{:x}", back(*c, at)), "tt": "u32", "how": *r.pick(&["ref", "prep"]), "reader": "str", "toks": toks_json(&ts), "w": w, "ops": ops}));
    }
    // A long token, and looking as far again for one that isn't there
    for i in 0..12 * scale.min(5) {
        let (n, m) = (r.usize(1, if i % 2 == 0 { 60 } else { 300 }), r.usize(1, if i % 3 == 0 { 400 } else { 90 }));
        let need = r.usize(0, m) as u32;
        let ts = vec![(Inf(1, Box::new(Lit(vec![0]))), 1), (All(vec![Inf(1, Box::new(Lit(vec![0]))), Inf(need, Box::new(Lit(vec![1]))), Lit(vec![2])]), 0)];
        let mut w = vec![0; n];
        w.extend(vec![1; m]);
        if r.chance(2, 3) { w.push(r.usize(0, 3)); }
        w.extend(vec![0; r.usize(0, 4)]);
        let ops = if prop == "C05" { vec!["it"; 12] } else { let mut o = vec![*r.pick(&["tok", "sym", "it"])]; o.extend(calls(&mut r, 10, prop)); o };
        res.push(case(&mut r, 4, &ts, w, ops));
    }
    // Many tokens from one state
    for k in &[9, 17, 40, 130, 257, 300] {
        let ts  = super::large::wide(&mut r, *k, true);
        let w: Vec<usize> = (0..60).flat_map(|_| { let i = r.usize(0, k - 1); vec![i, i * 7 % k] }).collect();
        let ops = calls(&mut r, w.len(), prop);
        res.push(json!({"kind": "tok", "k": k, "emb": pick_embedding(&mut r, *k), "tt": "u32", "how": *r.pick(&["ref", "prep", "box", "dfa"]), "reader": *r.pick(READERS), "toks": toks_json(&ts), "w": w, "ops": ops}));
    }
    res
}
