//! Cases that are large in some direction: at the sizes where counters and tables of some width end
use serde_json::{json, Value};
use crate::ast::P;
use crate::ast::P::*;
use crate::rng::Rand;
use super::pat::{pick_embedding, small_embedding, toks_json};

pub const LENGTHS: &[usize] = &[127, 128, 129, 255, 256, 257, 511, 1023, 1025, 4097, 32767, 32769, 65534, 65535, 65536, 65537, 70000];
const WIDTHS: &[usize] = &[8, 9, 15, 16, 17, 18, 31, 33, 40, 63, 64, 65, 100, 127, 129, 200, 255, 256, 257, 300];

fn symbols(r: &mut Rand, n: usize) -> Vec<usize> { (0..n).map(|_| r.usize(0, 1)).collect() }
fn many(p: P, n: u32) -> P { Inf(n, Box::new(p)) }
fn with(mut w: Vec<usize>, x: &[usize]) -> Vec<usize> { w.extend(x); w }

/// Sets of tokens that read long words, with words of about the length
pub fn long(r: &mut Rand, n: usize) -> (Vec<(P, i64)>, Vec<Vec<usize>>) {
    let w = symbols(r, n);
    match r.below(6) {
        0 => (vec![(many(Rng(0, 1), 0), 1)], vec![w.clone(), with(w, &[2, 0])]),
        1 => (vec![(All(vec![many(Rng(0, 1), 0), Lit(vec![2])]), 0)], vec![with(w[1..].to_vec(), &[2]), w]),
        // Ends far behind where it got to
        2 => { let mut z = w; z[0] = 0; (vec![(Lit(vec![0]), 3), (All(vec![many(Rng(0, 1), 1), Lit(vec![2])]), 1)], vec![z.clone(), with(z, &[2])]) }
        3 => (vec![(Rep(n as u32, n as u32 + 1, Box::new(Rng(0, 1))), 2)], vec![w.clone(), with(w.clone(), &[0]), w[1..].to_vec()]),
        4 => (vec![(many(Lit(vec![0, 1]), 0), 2), (many(Any(vec![Lit(vec![0]), Lit(vec![1, 1])]), 1), 4)], vec![(0..n).map(|i| i % 2).collect(), vec![0; n]]),
        _ => (vec![(many(Lit(vec![0]), 1), 0), (many(Rng(0, 1), 1), 1)], vec![vec![0; n], with(vec![0; n], &[1])])
    }
}

/// Matching long words, and automata with very many states
pub fn matching(seed: u64, prop: &str, tokens: bool, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, &format!("{} large", prop));
    let mut res = vec![];
    for n in LENGTHS {
        for _ in 0..if deep { 8 } else if *n > 5000 { 1 } else { 4 } {
            let (ts, words) = long(&mut r, *n);
            if tokens { res.push(json!({"kind": "match", "k": 3, "emb": small_embedding(&mut r, 3), "tt": *r.pick(&["u32", "i8", "str"]), "how": "tm", "toks": toks_json(&ts), "words": words})); }
            else {
                let p = if ts.len() > 1 && r.chance(2, 3) { Any(ts.iter().map(|t| t.0.clone()).collect()) } else { ts[0].0.clone() };
                res.push(json!({"kind": "match", "k": 3, "emb": pick_embedding(&mut r, 3), "tt": "u32", "how": "single", "toks": toks_json(&[(p, 0)]), "words": words}));
            }
        }
        if *n > 200 && (*n < 2000 || *n > 60000) && !tokens && (deep || *n < 2000 || *n == 65537) {
            let k = 2;
            let p = Rep(*n as u32, *n as u32 + 1, Box::new(Rng(0, 1)));
            res.push(json!({"kind": "dfa", "k": k, "emb": pick_embedding(&mut r, k), "tt": "u32", "how": "pat", "toks": toks_json(&[(p, 0)])}));
        }
    }
    // Counts
    if !tokens {
        for n in &[63u32, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025] {
            let one = || Box::new(if n % 2 == 0 { Rng(0, 1) } else { Lit(vec![0]) });
            let less = n - 1 - r.below(*n as u64 / 2) as u32;
            for (i, p) in vec![Inf(*n, one()), Rep(*n, n + 1, one()), Rep(0, *n, one()), Rep(less, *n, one()), Lit((0..*n).map(|_| r.usize(0, 1)).collect())].into_iter().enumerate() {
                // What begins and ends with it, too
                let p = if r.chance(1, 3) { All(vec![Lit(vec![1]), p, Lit(vec![1])]) } else { p };
                if *n < 600 || deep || i == 0 { res.push(json!({"kind": "dfa", "k": 2, "emb": pick_embedding(&mut r, 2), "tt": "u32", "how": "pat", "toks": toks_json(&[(p.clone(), 0)])})); }
                if *n < 200 { continue; }
                let words: Vec<Vec<usize>> = (0..4).map(|j| { let l = (*n as usize + j).saturating_sub(2); if n % 2 == 0 { symbols(&mut r, l) } else { vec![0; l] } }).collect();
                res.push(json!({"kind": "match", "k": 2, "emb": pick_embedding(&mut r, 2), "tt": "u32", "how": "single", "toks": toks_json(&[(p, 0)]), "words": words}));
            }
        }
    }
    // Very many tokens
    if tokens {
        for n in &[260, 520, 1030] {
            let ts: Vec<(P, i64)> = (0..*n).map(|i| { let l = r.usize(1, 11); (Lit((0..l).map(|_| r.usize(0, 1)).collect()), if n % 3 == 1 { (n - i) as i64 } else { r.below(2000) as i64 }) }).collect();
            let words: Vec<Vec<usize>> = (0..40).map(|_| { let l = r.usize(1, 12); symbols(&mut r, l) }).collect();
            res.push(json!({"kind": "match", "k": 2, "emb": pick_embedding(&mut r, 2), "tt": "u32", "how": "tm", "toks": toks_json(&ts), "words": words}));
        }
    }
    // Many moves from one state, to different places
    for k in WIDTHS {
        let ts  = wide(&mut r, *k, tokens);
        let tt  = "u32";
        let how = if tokens { "tm" } else { "single" };
        let mut words: Vec<Vec<usize>> = (0..*k).map(|i| { let j = i * 7 % k; vec![i, j, (i + 1) % k] }).collect();
        for i in 0..*k { let j = r.usize(0, k - 1); words.push(vec![i, j]); }
        if *k < 140 || deep { res.push(json!({"kind": "dfa", "k": k, "emb": pick_embedding(&mut r, *k), "tt": tt, "how": if tokens { "tm" } else { "box" }, "toks": toks_json(&ts)})); }
        res.push(json!({"kind": "match", "k": k, "emb": pick_embedding(&mut r, *k), "tt": tt, "how": how, "toks": toks_json(&ts), "words": words}));
    }
    res
}

/// Tokens with which one state moves on about k symbols, to as many places
pub fn wide(r: &mut Rand, k: usize, tokens: bool) -> Vec<(P, i64)> {
    let gap = r.usize(1, 3);
    let pairs: Vec<P> = (0..k).filter(|i| gap == 1 || i % gap > 0).map(|i| Lit(vec![i, i * 7 % k])).collect();
    if !tokens { return vec![(Any(pairs), 0)]; }
    let ranks = *r.pick(&[2, 5, 1000]);
    pairs.into_iter().map(|p| (p, r.below(ranks) as i64)).collect()
}

/// Long inputs for tokenizers, and calls
pub fn tokenizing(r: &mut Rand, n: usize, prop: &str) -> (Vec<(P, i64)>, Vec<usize>, Vec<&'static str>) {
    let gap = r.usize(1, 3);
    let (ts, w) = match r.below(4) {
        // A long stretch where nothing is
        0 => (vec![(Lit(vec![1]), 0), (Lit(vec![0, 0]), 1)], with(vec![2; n - gap], &[1, 0, 0, 2, 0, 0, 1, 1])),
        // A long token and a few more
        1 => (vec![(many(Rng(0, 1), 1), 0), (Lit(vec![2]), 1)], with(symbols(r, n - gap), &[2, 2, 0, 1, 0, 2])),
        // Long tokens that begin with short ones
        2 => (vec![(Lit(vec![0]), 0), (All(vec![many(Lit(vec![0]), 2), Lit(vec![1])]), 1)], with(vec![0; n], &[1, 0, 0, 1, 0])),
        // A short one, looking far ahead for the end of a long one that isn't there
        _ => (vec![(Lit(vec![0]), 0), (All(vec![many(Lit(vec![0]), 2), Lit(vec![1])]), 1)], with(vec![0; n], &[2, 0, 1, 0, 0, 1]))
    };
    let mut ops = vec![];
    for _ in 0..8 { ops.push(if prop == "C05" { "it" } else { *r.pick(&["tok", "tok", "sym", "skip", "it"]) }); }
    for o in if prop == "C05" { ["it", "tok", "skip", "it", "it"] } else { ["it", "tok", "skip", "sym", "it"] }.iter() { ops.push(o); }
    (ts, w, ops)
}
