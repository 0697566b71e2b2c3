//! Cases about tokenizers over tokenizers (C23) and how far they read (C24)
use serde_json::{json, Value};
use crate::ast::P::*;
use crate::ast::{word_near, P};
use crate::gen::pat::{pick_embedding, token_set, toks_json, type_and_embedding};
use crate::gen::tok::input;
use crate::rng::Rand;

const VIA: &[&str] = &["ref", "box", "prep", "dfa"];
const MID: &[&str] = &["none", "none", "none", "box", "tape", "back", "map", "left", "rest", "vec", "list"];

/// Tokens for a level: some that cover the symbols and are sensible, or any
fn level(r: &mut Rand, k: usize, outs: usize, sane: bool) -> Vec<(P, i64)> {
    if !sane { return token_set(r, k, 4, 2, 100).into_iter().map(|t| (t.0, t.1 % outs as i64)).collect(); }
    let mut ts: Vec<(P, i64)> = (0..k).map(|i| (Lit(vec![i]), (i % outs) as i64)).collect();
    if k > 1 && r.chance(1, 3) { let a = r.usize(0, k - 2); ts = vec![(Rng(0, a), 0), (Rng(a + 1, k - 1), r.below(outs as u64) as i64)]; }
    for _ in 0..r.usize(1, 3) {
        let a = r.usize(0, k - 1);
        let b = r.usize(0, k - 1);
        let p = match r.below(5) {
            0 => Lit(vec![a, b]),
            1 => Inf(2, Box::new(Lit(vec![a]))),
            2 => All(vec![Lit(vec![a]), Inf(0, Box::new(Rng(a.min(b), a.max(b)))), Lit(vec![b])]),
            3 => Rep(2, 4, Box::new(Rng(a.min(b), a.max(b)))),
            _ => All(vec![Lit(vec![a]), Inf(0, Box::new(Lit(vec![b])))])
        };
        ts.push((p, r.below(outs as u64) as i64));
    }
    r.shuffle(&mut ts);
    ts
}

pub fn generate(seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, "C23");
    let mut res = vec![];
    let scale   = if deep { 15 } else { 1 };
    for i in 0..4000 * scale {
        let k = r.usize(1, 4);
        let depth = if i % 20 == 0 { r.usize(3, 5) } else { r.usize(1, 3) };
        let long = i % 15 == 0;
        let mut levels = vec![];
        let mut size = k;
        let mut w = vec![];
        for d in 0..depth {
            let outs = r.usize(1, 4);
            let sane = r.chance(5, 6);
            let ts   = level(&mut r, size, outs, sane);
            if d == 0 {
                let words = if long { 60 } else { r.usize(0, 10) };
                w = input(&mut r, &ts, k, words, if long { 300 } else { 40 });
                if sane && r.chance(1, 2) { let n = w.len() + r.usize(0, 6); w = (0..n).map(|_| r.usize(0, k - 1)).collect(); }
            }
            levels.push(json!({"toks": toks_json(&ts), "via": *r.pick(VIA), "mid": *r.pick(MID)}));
            size = outs;
        }
        let heads: Vec<Value> = (0..r.usize(1, 2)).map(|_| {
            let outs = r.usize(1, 5);
            let sane = r.chance(2, 3);
            json!({"top": if r.chance(1, 6) { "plain" } else { "tok" }, "toks": toks_json(&level(&mut r, size, outs, sane)), "via": *r.pick(VIA), "mid": *r.pick(&["none", "none", "box", "tape", "map", "back"])})
        }).collect();
        let mut ops = vec![];
        let style = r.below(4);
        let total = (w.len() + 3) * heads.len();
        let mut last = 0;
        for _ in 0..total {
            if r.chance(1, 3) { last = r.usize(0, heads.len() - 1); }
            let call = if heads[last]["top"] == "plain" { if r.chance(1, 20) { "all" } else { "sym" } }
                       else { match style { 0 => "it", 1 => *r.pick(&["tok", "tok", "tok", "skip"]), _ => *r.pick(&["tok", "tok", "sym", "skip", "it", "it"]) } };
            ops.push(json!([last + 1, call]));
        }
        for h in 0..heads.len() { for call in if heads[h]["top"] == "plain" { ["all", "sym", "all"] } else { ["it", "it", "tok"] }.iter() { ops.push(json!([h + 1, call])); } }
        res.push(json!({"kind": "levels", "k": k, "emb": pick_embedding(&mut r, k), "levels": levels, "heads": heads, "w": w, "ops": ops}));
    }
    // Long inputs, and tokens of one level that are many of the one below
    for i in 0..if deep { 60 } else { 10 } {
        let n = *r.pick(&[260, 600, 1100, 2100]);
        let k = 2;
        let run = |x: usize, out: i64| (Inf(1, Box::new(Lit(vec![x]))), out);
        let levels: Vec<Value> = (0..r.usize(1, 3)).map(|_| {
            let ts = match r.below(4) {
                0 => vec![(Lit(vec![0]), 0), (Lit(vec![1]), 1)],
                1 => vec![run(0, 0), run(1, 1)],
                2 => vec![(Lit(vec![0]), 1), (Lit(vec![0, 0]), 0), (Lit(vec![1]), 1)],
                _ => vec![(Rep(1, 40, Box::new(Lit(vec![0]))), 0), (Lit(vec![1]), 1), (Lit(vec![1, 0]), 0)]
            };
            json!({"toks": toks_json(&ts), "via": *r.pick(VIA), "mid": *r.pick(MID)})
        }).collect();
        let w: Vec<usize> = (0..n).map(|_| if r.chance(1, *[2, 40, 400].get(i % 3).unwrap()) { 1 } else { 0 }).collect();
        // A few inputs with symbols that no token knows, late
        let mut w = w;
        if i % 4 == 3 { w[n - 3] = 2; }
        let heads = json!([{"top": if i % 5 == 4 { "plain" } else { "tok" }, "toks": toks_json(&[(All(vec![run(0, 0).0, Lit(vec![1])]), 0), (Lit(vec![0]), 1), (Lit(vec![1]), 2)]), "via": *r.pick(VIA), "mid": "none"}]);
        let mut ops: Vec<Value> = vec![];
        for _ in 0..if i % 2 == 0 { n + 3 } else { 12 } { ops.push(json!([1, if i % 5 == 4 { "sym" } else { *r.pick(&["tok", "skip", "it", "it"]) }])); }
        if i % 5 == 4 { ops.push(json!([1, "all"])); }
        res.push(json!({"kind": "levels", "k": 3, "emb": pick_embedding(&mut r, 3), "levels": levels, "heads": heads, "w": w, "ops": ops}));
    }
    res
}

// --------------------------------------------------------------------------------------------------------------------------

/// No part of a pattern is impossible to match
pub fn possible(p: &P) -> bool {
    match p {
        Eps | Lit(_) | Rng(_, _) => true,
        Inf(_, p)    => possible(p),
        Rep(m, n, p) => m < n && possible(p),
        All(ps)      => ps.iter().all(possible),
        Any(ps)      => !ps.is_empty() && ps.iter().all(possible)
    }
}

pub fn lazy(seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, "C24");
    let mut res = vec![];
    let scale   = if deep { 15 } else { 1 };
    let mut push = |r: &mut Rand, k: usize, ts: &[(P, i64)], w: Vec<usize>| {
        let (tt, emb) = type_and_embedding(r, k);
        let top = if r.chance(1, 3) { "match" } else { "tok" };
        let style = r.below(4);
        let n = if style == 0 { w.len() + 2 } else { r.usize(1, w.len() + 4) };
        let ops: Vec<&str> = (0..n).map(|_| if top == "match" { *r.pick(&["mp", "mp", "pr", "mt", "nd", "bx", "sy"]) }
                                            else { match style { 1 => "it", 2 => *r.pick(&["tok", "skip"]), _ => *r.pick(&["tok", "tok", "sym", "skip", "it"]) } }).collect();
        let how = *r.pick(&["new", "prep"]);
        res.push(json!({"kind": "lazy", "k": k, "emb": emb, "tt": tt, "toks": toks_json(ts), "top": top, "how": how, "reader": *r.pick(&["plain", "plain", "map", "tape", "box"]), "w": w, "ops": ops}));
    };
    for i in 0..4000 * scale {
        let k  = *r.pick(&[1, 2, 2, 3, 3, 4]);
        let ts = loop { let ts = token_set(&mut r, k, 4, 3, 150); if ts.iter().all(|t| possible(&t.0)) { break ts; } };
        let kk = k + r.usize(0, 1);
        let words = r.usize(0, 6);
        let mut w = input(&mut r, &ts, kk, words, if i % 20 == 0 { 150 } else { 30 });
        // Much that is left over
        if r.chance(1, 3) { for _ in 0..r.usize(1, 20) { w.push(r.usize(0, kk - 1)); } }
        push(&mut r, kk, &ts, w);
    }
    // Far ahead, and then not at all
    for i in 0..120 * scale.min(5) {
        let n = r.usize(5, if i % 10 == 0 { 1200 } else { 90 });
        let ts = match i % 4 {
            0 => vec![(Lit(vec![0]), 0), (All(vec![Inf(1, Box::new(Lit(vec![0]))), Lit(vec![1])]), 1)],
            1 => vec![(Lit(vec![0; n]), 0), (Lit(vec![0, 0]), 1), (Lit(vec![2]), 2)],
            2 => vec![(Rep(1, n as u32, Box::new(Rng(0, 1))), 0), (Lit(vec![2]), 2)],
            _ => vec![(Inf(1, Box::new(Lit(vec![0, 1]))), 0), (Any(vec![Lit(vec![1]), Lit(vec![2, 2, 2, 2, 2])]), 1)]
        };
        let mut w = vec![0; n + r.usize(0, 10)];
        if i % 4 == 3 { for j in 0..w.len() { w[j] = j % 2; } }
        for _ in 0..r.usize(0, 3) { let j = r.usize(0, w.len() - 1); w[j] = r.usize(0, 2); }
        w.extend(word_near(&[&ts[0].0, &ts[1].0], &mut r, 3, 60));
        w.extend(vec![2; r.usize(0, 9)]);
        push(&mut r, 3, &ts, w);
    }
    res
}
