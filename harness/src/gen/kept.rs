//! Cases about how much is kept (C26)
use serde_json::{json, Value};
use crate::ast::P::{self, *};
use crate::gen::levels::possible;
use crate::gen::pat::{token_set, toks_json};
use crate::gen::tok::input;
use crate::rng::Rand;

pub fn generate(seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, "C26");
    let mut res = vec![];
    let scale   = if deep { 12 } else { 1 };
    for i in 0..320 * scale {
        let k = *r.pick(&[1, 2, 2, 3, 3, 4]);
        let ts: Vec<(P, i64)> = match i % 4 {
            // Nothing, or hardly anything, is ever found
            0 => vec![(Lit(vec![0, 1, 0, 1, 0, 0]), 0), (Eps, 1)],
            // Something is found everywhere
            1 => { let mut ts = token_set(&mut r, k, 4, 3, 100); for s in 0..k + 1 { ts.push((Lit(vec![s]), 5)); } if ts.iter().all(|t| possible(&t.0)) { ts } else { continue } }
            _ => loop { let ts = token_set(&mut r, k, 4, 3, 150); if ts.iter().all(|t| possible(&t.0)) { break ts; } }
        };
        let words = r.usize(1, 8);
        let mut w = input(&mut r, &ts, k, words, 60);
        for _ in 0..r.usize(1, 4) { let at = r.usize(0, w.len()); w.insert(at, r.usize(0, k)); }
        if i % 8 == 0 { w = vec![r.usize(0, 1)]; }
        let n = if i % 40 == 1 { 100000 } else { 20000 };
        let top = if i % 12 == 3 { "match" } else if i % 4 == 1 && r.chance(1, 2) { "stack" } else { "tok" };
        let ops = if top == "match" { json!((0..r.usize(1, 4)).map(|_| *r.pick(&["mp", "pr", "mt", "nd"])).collect::<Vec<_>>()) }
                  else if top == "stack" { json!([["it", n]]) }
                  else if r.chance(1, 2) { json!([[*r.pick(&["it", "tok", "sym", "skip"]), n + 10]]) }
                  else { json!((0..60).map(|_| json!([*r.pick(&["it", "tok", "sym", "skip"]), n / r.usize(30, 400)])).collect::<Vec<_>>()) };
        res.push(json!({"kind": "kept", "k": k + 1, "toks": toks_json(&ts), "top": top, "reader": *r.pick(&["plain", "own", "nd", "map", "box"]), "w": w, "n": n, "ops": ops}));
    }
    for i in 0..80 * scale {
        let far = if i % 20 == 0 { 2000 } else { *r.pick(&[1, 3, 4, 5, 10, 40, 200]) };
        let (mut pos, mut lo) = (0, 0);
        let mut ops = vec![];
        let n = if i % 10 == 0 { 60000 } else { 20000 };
        while pos < n - far && ops.len() < 3000 {
            let a = r.usize(1, far);
            ops.push(json!(["n", a]));
            pos += a;
            if r.chance(1, 3) { let b = r.usize(0, (pos - lo).min(far)); ops.push(json!(["b", b])); pos -= b; }
            if r.chance(2, 3) { ops.push(json!(["c"])); lo = pos; }
        }
        res.push(json!({"kind": "kept", "k": 4, "toks": [], "top": "tape", "reader": "plain", "w": [], "n": n, "ops": ops}));
    }
    res
}
