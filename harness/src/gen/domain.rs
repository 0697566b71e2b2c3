//! Cases about types of symbols: their neighbours, and the same patterns, words and inputs over every type and place in it
use serde_json::{json, Value};
use crate::ast::word_near;
use crate::ast::P;
use crate::gen::pat::{char_embedding, pattern, token_set, toks_json};
use crate::gen::tok::{calls, input, READERS};
use crate::rng::Rand;
use crate::sym::{EMBEDDINGS, TYPES};

fn windows(r: &mut Rand, deep: bool) -> Vec<Value> {
    let mut res = vec![];
    let mut push = |t: &str, at: &str, from: i128, n: u64| res.push(json!({"kind": "domain", "type": t, "at": at, "from": from.to_string(), "n": n}));
    push("char", "char", 0, 1114111);
    for t in ["u8", "i8"].iter() { push(t, "all", 0, 255); }
    for t in ["u16", "i16"].iter() { push(t, "all", 0, 65535); }
    for (t, bits, signed) in [("u32", 32, false), ("u64", 64, false), ("usize", 64, false), ("i32", 32, true), ("i64", 64, true), ("isize", 64, true)].iter() {
        let n = if deep { 1000000 } else { 20000 };
        push(t, "min", 0, n);
        push(t, "max", 0, n);
        let (min, max): (i128, i128) = if *signed { (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) } else { (0, (1 << bits) - 1) };
        // Either side of powers of two, and anywhere
        let mut places: Vec<i128> = vec![0];
        for b in 7..*bits { places.push(1 << b); places.push(-(1 << b)); }
        for _ in 0..if deep { 2000 } else { 40 } { places.push(min + (r.next() as i128) % (max - min)); }
        for p in places {
            if p - 300 > min && p + 300 < max { push(t, "mid", p - 100, 200); }
        }
    }
    res
}

pub fn generate(seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, "C21");
    let mut res = windows(&mut r, deep);
    for i in 0..if deep { 500 } else { 50 } {
        let k  = *r.pick(&[1, 2, 2, 3, 3, 4, 6]);
        let ts = token_set(&mut r, k, 4, 3, 100);
        let ps: Vec<&P> = ts.iter().map(|t| &t.0).collect();
        let words: Vec<Vec<usize>> = (0..6).map(|_| word_near(&ps, &mut r, k, 20)).collect();
        let w  = input(&mut r, &ts, k, 3, 20);
        let ops = calls(&mut r, w.len(), "C05");
        let chars: Vec<String> = (0..3).map(|_| char_embedding(&mut r)).collect();
        let more: Vec<String> = TYPES.iter().flat_map(|t| vec![format!("at:{}:{}", t, r.below(100000)), format!("set:{}:{}", t, r.below(100000))]).chain(chars).collect();
        for e in EMBEDDINGS.iter().map(|e| e.0).chain(more.iter().map(|e| e.as_str())) {
            let e = (e,);
            res.push(json!({"kind": "dfa", "k": k, "emb": e.0, "tt": "u32", "how": "tm", "toks": toks_json(&ts)}));
            if i % 2 == 0 { res.push(json!({"kind": "match", "k": k, "emb": e.0, "tt": "u32", "how": "tm", "toks": toks_json(&ts), "words": words})); }
            else { res.push(json!({"kind": "tok", "k": k, "emb": e.0, "tt": "u32", "how": *r.pick(&["ref", "prep", "box", "dfa"]), "reader": *r.pick(READERS), "toks": toks_json(&ts), "w": w, "ops": ops})); }
        }
    }
    // Whole 8 bit types, and as many symbols of the others
    for i in 0..if deep { 200 } else { 14 } {
        let k = if i % 2 == 0 { 256 } else { r.usize(30, 200) };
        let p = if i % 3 == 0 { P::Inf(1, Box::new(P::Any((0..r.usize(2, 8)).map(|_| { let a = r.usize(0, k - 1); P::Rng(a, r.usize(a, k - 1)) }).collect()))) } else { pattern(&mut r, k, 4, 40, 60) };
        let words: Vec<Vec<usize>> = (0..4).map(|_| word_near(&[&p], &mut r, k, 40)).collect();
        let es: Vec<&str> = EMBEDDINGS.iter().filter(|e| e.1 >= k).map(|e| e.0).collect();
        for _ in 0..4 {
            let e = if i % 2 == 0 && r.chance(1, 2) { *r.pick(&["u8lo", "i8lo", "u8hi", "i8hi"]) } else { *r.pick(&es) };
            res.push(json!({"kind": "dfa", "k": k, "emb": e, "tt": "u32", "how": *r.pick(&["pat", "box", "dyn"]), "toks": toks_json(&[(p.clone(), 0)])}));
            res.push(json!({"kind": "match", "k": k, "emb": e, "tt": "u32", "how": "single", "toks": toks_json(&[(p.clone(), 0)]), "words": words}));
        }
    }
    res
}
