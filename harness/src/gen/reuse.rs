//! Cases about matchers that are used over and over (C17)
use serde_json::{json, Value};
use crate::ast::{word_near, P};
use crate::rng::Rand;
use super::pat::{pick_embedding, small_embedding, token_set, toks_json};

pub fn generate(seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, "C17");
    let mut res = vec![];
    let scale   = if deep { 15 } else { 1 };
    for i in 0..1800 * scale {
        let k    = *r.pick(&[1, 2, 2, 3, 3, 4, 6]);
        let tt   = *r.pick(&["u32", "u32", "unit", "unit", "opt", "str", "i8", "rev"]);
        let mut ts: Vec<(P, i64)> = token_set(&mut r, k, if i % 15 == 0 { 8 } else { 3 }, 3, 120);
        if tt == "unit" { for t in ts.iter_mut() { t.1 = 0; } }
        let ps: Vec<P> = ts.iter().map(|t| t.0.clone()).collect();
        let ps: Vec<&P> = ps.iter().collect();
        let word = |r: &mut Rand| { let n = r.usize(0, 3); let mut w = vec![]; for _ in 0..n { w.extend(word_near(&ps, r, k, 14)); } w };
        let mut ops = vec![];
        let (mut dfas, mut runs, mut toks) = (1, 0, 0);
        let count = r.usize(3, 28);
        let copies = r.chance(2, 3);
        for _ in 0..count {
            let d = r.usize(1, dfas);
            match r.below(20) {
                0              => { ops.push(json!(["fresh"])); dfas += 1; }
                1 | 2 if copies => { ops.push(json!(["copy", *r.pick(&["clone", "json", "pretty", "value", "bin", "prepare"]), d])); dfas += 1; }
                3 | 4          => ops.push(json!(["len", d, word(&mut r)])),
                5              => ops.push(json!(["acc", d, word(&mut r)])),
                6 | 7          => { ops.push(json!(["start", d])); runs += 1; }
                8..=11 if runs > 0 => ops.push(json!(["step", r.usize(1, runs), r.usize(0, k - 1)])),
                12 if runs > 0 => ops.push(json!(["done", r.usize(1, runs)])),
                13             => { ops.push(json!(["tok", d, word(&mut r), *r.pick(&["borrow", "borrow", "own", "afresh"])])); toks += 1; }
                14 | 15 if toks > 0 => ops.push(json!(["next", r.usize(1, toks)])),
                16..=19 if toks > 0 => ops.push(json!(["item", r.usize(1, toks)])),
                _              => ops.push(json!(["len", d, word(&mut r)]))
            }
        }
        // Everything that was made is used to the end
        for t in 1..toks + 1 { for _ in 0..4 { ops.push(json!(["item", t])); } }
        for x in 1..runs + 1 { ops.push(json!(["done", x])); }
        for d in 1..dfas + 1 { let w = word(&mut r); ops.push(json!(["acc", d, w])); }
        let emb = if tt == "u32" { pick_embedding(&mut r, k) } else { small_embedding(&mut r, k) };
        res.push(json!({"kind": "reuse", "k": k, "tt": tt, "emb": emb, "how": *r.pick(&["tm", "tm", "tmbox", "ndfa"]), "toks": toks_json(&ts), "ops": ops}));
    }
    // Every symbol type, written and read back at the ends of its domain
    for emb in crate::sym::EMBEDDINGS {
        for tt in &["u32", "unit", "opt"] {
            if *tt != "u32" && !(emb.0 == "u8lo" || emb.0 == "charaz") { continue; }
            let k  = 4;
            let ts = token_set(&mut r, k, 2, 2, 60);
            let mut ops = vec![];
            for (j, how) in ["json", "pretty", "value", "bin", "clone", "prepare"].iter().enumerate() { ops.push(json!(["copy", how, 1 + r.usize(0, j)])); }
            let ts: Vec<(P, i64)> = if *tt == "unit" { ts.into_iter().map(|t| (t.0, 0)).collect() } else { ts };
            res.push(json!({"kind": "reuse", "k": k, "tt": tt, "emb": emb.0, "how": "tm", "toks": toks_json(&ts), "ops": ops}));
        }
    }
    // One matcher used very often
    for i in 0..if deep { 60 } else { 8 } {
        let k    = 3;
        let ts   = token_set(&mut r, k, 4, 3, 100);
        let ps: Vec<P> = ts.iter().map(|t| t.0.clone()).collect();
        let ps: Vec<&P> = ps.iter().collect();
        let mut ops = vec![];
        let mut dfas = 1;
        if i % 2 == 1 { ops.push(json!(["copy", *r.pick(&["clone", "json", "bin"]), 1])); dfas = 2; }
        let mut runs = 0;
        for n in 0..*r.pick(&[300, 1100, 1500]) {
            let d = if n % 7 == 3 { dfas } else { 1 };
            match if i % 4 == 0 { 0 } else { r.below(8) } {
                0..=3 => { let w = word_near(&ps, &mut r, k, 6); ops.push(json!([if n % 5 == 0 { "acc" } else { "len" }, d, w])); }
                4     => { ops.push(json!(["start", d])); runs += 1; }
                5 | 6 if runs > 0 => { let x = if r.chance(3, 4) { runs } else { r.usize(1, runs) }; ops.push(json!(["step", x, r.usize(0, k - 1)])); }
                _ if runs > 0 => { let x = if r.chance(3, 4) { runs } else { r.usize(1, runs) }; ops.push(json!(["done", x])); }
                _ => ()
            }
        }
        res.push(json!({"kind": "reuse", "k": k, "tt": "u32", "emb": pick_embedding(&mut r, k), "how": *r.pick(&["tm", "ndfa"]), "toks": toks_json(&ts), "ops": ops}));
    }
    // States that move on many symbols, and long words
    for k in &[9, 17, 33, 65, 130, 200, 256, 257, 300] {
        let targets = r.usize(2, 5);
        let ts: Vec<(P, i64)> = (0..targets).map(|t| (P::Any((0..*k).filter(|x| x % (targets + 1) == t || x * x % 7 == t).map(|x| P::Lit(vec![x])).collect()), r.below(5) as i64)).collect();
        let mut ops = vec![];
        for (j, how) in ["json", "bin", "clone", "value", "pretty", "prepare"].iter().enumerate() { ops.push(json!(["copy", how, 1 + r.usize(0, j)])); }
        for d in 1..8 {
            for _ in 0..4 { ops.push(json!(["acc", d, [r.usize(0, k - 1)]])); }
            ops.push(json!(["tok", d, (0..20).map(|_| r.usize(0, k - 1)).collect::<Vec<_>>(), "borrow"]));
            for _ in 0..22 { ops.push(json!(["item", d])); }
        }
        res.push(json!({"kind": "reuse", "k": k, "tt": "u32", "emb": pick_embedding(&mut r, *k), "how": *r.pick(&["tm", "ndfa"]), "toks": toks_json(&ts), "ops": ops}));
    }
    for n in super::large::LENGTHS {
        if !deep && *n > 20000 && *n != 65537 { continue; }
        let (ts, words) = super::large::long(&mut r, *n);
        let ts = if *n > 5000 { super::large::long(&mut r, 40).0 } else { ts };
        let mut ops = vec![json!(["copy", *r.pick(&["json", "bin", "clone"]), 1])];
        for w in &words {
            for d in 1..3 { ops.push(json!(["len", d, w])); ops.push(json!(["acc", d, w])); }
            if *n < 3000 { ops.push(json!(["tok", 2, w, "own"])); }
        }
        if *n < 3000 { for t in 0..words.len() { for _ in 0..3 { ops.push(json!(["item", t + 1])); } } }
        res.push(json!({"kind": "reuse", "k": 3, "tt": "u32", "emb": pick_embedding(&mut r, 3), "how": "tm", "toks": toks_json(&ts), "ops": ops}));
    }
    res
}
