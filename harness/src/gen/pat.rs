//! Cases about patterns and tokens
use serde_json::{json, Value};
use crate::ast::{all_words, dfa_size, random_bounded, word_near, P};
use crate::ast::P::*;
use crate::rng::Rand;
use crate::sym::{EMBEDDINGS, ODD, TYPES};

pub fn pick_embedding(r: &mut Rand, k: usize) -> String {
    match r.below(5) {
        0 => return char_embedding(r),
        1 => { let t = *r.pick(TYPES); if k <= 256 || !t.ends_with('8') { return format!("{}:{}:{}", *r.pick(&["at", "set"]), t, r.below(100000)); } }
        _ => ()
    }
    loop { let e = r.pick(EMBEDDINGS); if e.1 >= k { return e.0.to_string(); } }
}

/// Characters, not so far up that there are few of them left
pub fn char_embedding(r: &mut Rand) -> String {
    match r.below(5) {
        0 => "charaz".to_string(),
        1 => format!("char@{:x}", r.pick(&ODD[..ODD.len() - 2]).saturating_sub(r.below(4) as u32)),
        2 => format!("char@{:x}", r.usize(0x20, 0x7e)),
        3 => format!("at:char:{}", r.below(100000)),
        _ => format!("set:char:{}", r.below(100000))
    }
}

fn tok(p: &P, o: i64) -> Value { json!({"p": p.json(), "o": o}) }

/// A random pattern whose automaton is of a reasonable size
pub fn pattern(r: &mut Rand, k: usize, depth: usize, cost: u64, size: usize) -> P {
    loop {
        let p = random_bounded(r, k, depth, cost);
        if dfa_size(&[&p], k, size).is_some() { return p; }
    }
}

const SINGLE: &[&str] = &["pat", "dyn", "box", "dynbox", "self", "slice", "dynvec", "str", "strnd"];

/// Patterns that are large in some direction
pub fn structured(r: &mut Rand, which: u64) -> (usize, P) {
    let lit = |r: &mut Rand, n: usize, k: usize| Lit((0..n).map(|_| r.usize(0, k - 1)).collect());
    match which % 16 {
        0 => { let n = r.usize(100, 320); (3, lit(r, n, 3)) }
        1 => { let m = r.usize(0, 40) as u32; let n = m + r.usize(1, 260) as u32; (2, Rep(m, n, Box::new(lit(r, 1, 2)))) }
        2 => { let m = r.usize(30, 280) as u32; (2, Inf(m, Box::new(lit(r, 1, 2)))) }
        3 => { let m = r.usize(0, 6) as u32; let n = m + r.usize(1, 14) as u32; (3, Rep(m, n, Box::new(Any(vec![lit(r, 2, 3), lit(r, 1, 3), lit(r, 3, 3)])))) }
        // Many keywords
        4 => { let n = r.usize(20, 60); (6, Any((0..n).map(|_| { let l = r.usize(1, 6); lit(r, l, 6) }).collect())) }
        // Many overlapping classes
        5 => { let k = 250; let n = r.usize(10, 40); (k, Any((0..n).map(|_| { let a = r.usize(0, k - 1); let b = r.usize(a, k - 1); All(vec![Rng(a, b), lit(r, 1, k)]) }).collect())) }
        6 => { let k = 120; let n = r.usize(30, 120); (k, Any((0..n).map(|_| lit(r, 1, k)).collect())) }
        7 => { let k = 60; let a = r.usize(0, 20); let b = r.usize(20, 59); (k, Inf(1, Box::new(All(vec![Rng(a, b), Rng(0, 30), Inf(0, Box::new(Rng(25, 59)))])))) }
        // Nested repetition
        8 => (2, Inf(0, Box::new(Inf(1, Box::new(Any(vec![lit(r, 2, 2), Inf(0, Box::new(lit(r, 1, 2)))])))))),
        9 => { let a = r.usize(1, 4) as u32; let b = a + r.usize(1, 3) as u32; (2, Rep(a, b, Box::new(Rep(a, b + 2, Box::new(lit(r, 1, 2)))))) }
        10 => { let n = r.usize(3, 7); (2, All(vec![Inf(0, Box::new(Rng(0, 1))), Lit(vec![0]), Rep(n as u32, n as u32 + 1, Box::new(Rng(0, 1)))])) }
        // Long sequences of optional parts
        11 => { let n = r.usize(5, 25); (4, All((0..n).map(|_| { let l = lit(r, 1, 4); Rep(0, 2, Box::new(l)) }).collect())) }
        // The whole domain and single points in it
        12 => { let k = 256; let n = r.usize(1, 20); let mut v = vec![Rng(0, 255)]; for _ in 0..n { let l = lit(r, 2, k); v.push(l); } r.shuffle(&mut v); (k, Any(v)) }
        // Staircase of ranges that all overlap
        13 => { let k = 80; let n = r.usize(10, 38); (k, All(vec![Any((0..n).map(|i| All(vec![Rng(i, i + 40), Lit(vec![i])])).collect()), Rng(0, 79)])) }
        // Common prefixes
        14 => { let n = r.usize(10, 80); let x = r.usize(0, 1); (3, Any((1..n).map(|i| { let mut s = vec![x; i]; s.push(2); Lit(s) }).collect())) }
        _ => { let n = r.usize(2, 30) as u32; (3, All(vec![Rep(0, n, Box::new(Lit(vec![0]))), Inf(0, Box::new(Lit(vec![0, 1]))), Rep(n, n + 1, Box::new(Rng(1, 2)))])) }
    }
}

/// Patterns within patterns within patterns, and long lists of them
pub fn nested(r: &mut Rand, k: usize) -> P {
    loop {
        let mut p = Lit(vec![r.usize(0, k - 1)]);
        let style = r.below(3);
        for i in 0..*r.pick(&[9, 12, 17, 25, 33, 40]) {
            let x  = Lit(vec![r.usize(0, k - 1)]);
            let bx = Box::new(p.clone());
            p = match if style == 0 { i % 2 * 3 } else { r.below(8) } {
                0 | 1 => Any(vec![p, x]),
                2     => Any(vec![x, p]),
                3     => All(vec![p, x]),
                4     => All(vec![x, p]),
                5     => Rep(0, 2, bx),
                6     => Rep(1, 2, bx),
                _     => if p.cost() < 60 { Inf(r.below(2) as u32, bx) } else { Any(vec![p]) }
            };
        }
        if p.cost() < 500 && dfa_size(&[&p], k, 300).is_some() { return p; }
    }
}

pub fn listed(r: &mut Rand, n: usize) -> P {
    let part = |r: &mut Rand| match r.below(4) { 0 => Rep(0, 2, Box::new(Lit(vec![r.usize(0, 1)]))), 1 => Rng(0, 1), _ => Lit(vec![r.usize(0, 1)]) };
    match r.below(3) {
        0 => All((0..n).map(|i| if i % 40 == 0 { part(r) } else { Lit(vec![r.usize(0, 1)]) }).collect()),
        1 => Any((0..n).map(|_| { let l = r.usize(1, 12); Lit((0..l).map(|_| r.usize(0, 1)).collect()) }).collect()),
        _ => All(vec![Any((0..n).map(|i| Rep(0, 1 + (i % 2) as u32, Box::new(part(r)))).collect()), Lit(vec![1])])
    }
}

/// Strings with characters that are special to someone, at every place
fn odd(r: &mut Rand, tokens: bool) -> Vec<Value> {
    let mut res = vec![];
    for c in ODD {
        for at in 0..3usize.min(*c as usize + 1) {
            let k = 3;
            if *c as usize - at + k > 0x110000 { continue; }
            let ts = if tokens { token_set(r, k, 3, 2, 60) } else { vec![(if r.chance(1, 3) { let n = r.usize(1, 2); Lit((0..n).map(|_| r.usize(0, 2)).collect()) } else { pattern(r, k, 3, 20, 40) }, 0)] };
            res.push(json!({"kind": "match", "k": k, "emb": format!("char@{:x}", super::tok::back(*c, at)), "tt": "u32", "how": if tokens { "tm" } else { "single" }, "toks": toks_json(&ts), "words": all_words(k, 3)}));
        }
    }
    res
}

pub fn c01(seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, "C01");
    let mut res = vec![];
    let scale   = if deep { 14 } else { 1 };
    // The automaton in product with the residuals
    for i in 0..1600 * scale {
        let k   = *r.pick(&[1, 2, 2, 3, 3, 4, 5, 7]);
        let big = i % 8 == 0;
        let p   = pattern(&mut r, k, if big { 5 } else { 4 }, if big { 120 } else { 40 }, if big { 400 } else { 120 });
        let how = if let Lit(_) = p { *r.pick(SINGLE) } else { *r.pick(&SINGLE[..5]) };
        let emb = if how.starts_with("str") { char_embedding(&mut r) } else { pick_embedding(&mut r, k) };
        res.push(json!({"kind": "dfa", "k": k, "emb": emb, "tt": "u32", "how": how, "toks": [tok(&p, 0)]}));
    }
    for i in 0..64 * scale.min(6) {
        let (k, p) = structured(&mut r, i);
        if dfa_size(&[&p], k, if deep { 3000 } else { 700 }).is_none() { continue; }
        let emb = pick_embedding(&mut r, k);
        res.push(json!({"kind": "dfa", "k": k, "emb": emb, "tt": "u32", "how": SINGLE[i as usize % 5], "toks": [tok(&p, 0)]}));
    }
    for i in 0..40 * scale.min(6) {
        let p = if i % 5 == 0 { let n = *r.pick(&[130, 260, 300, 520]); listed(&mut r, n) } else { nested(&mut r, 2) };
        if dfa_size(&[&p], 2, 1500).is_none() { continue; }
        res.push(json!({"kind": "dfa", "k": 2, "emb": pick_embedding(&mut r, 2), "tt": "u32", "how": SINGLE[i as usize % 5], "toks": [tok(&p, 0)]}));
    }
    // Literals as strings, slices and vectors
    for i in 0..60 {
        let n = r.usize(0, 5);
        let p = Lit((0..n).map(|_| r.usize(0, 2)).collect());
        let how = SINGLE[5 + i % 4];
        res.push(json!({"kind": "dfa", "k": 3, "emb": if how.starts_with("str") { char_embedding(&mut r) } else { pick_embedding(&mut r, 3) }, "tt": "u32", "how": how, "toks": [tok(&p, 0)]}));
    }
    for i in 0..120 * scale {
        let n = r.usize(0, 6);
        let p = Lit((0..n).map(|_| r.usize(0, 2)).collect());
        let words: Vec<Vec<usize>> = (0..10).map(|_| word_near(&[&p], &mut r, 3, 12)).collect();
        res.push(json!({"kind": "match", "k": 3, "emb": if i % 3 != 0 { char_embedding(&mut r) } else { pick_embedding(&mut r, 3) }, "tt": "u32", "how": "single", "toks": [tok(&p, 0)], "words": words}));
    }
    // Matching words in every way
    for i in 0..500 * scale {
        let k = *r.pick(&[1, 2, 2, 3, 3, 4]);
        let p = pattern(&mut r, k, 4, 40, 150);
        let mut words: Vec<Vec<usize>> = if i % 4 == 0 && k <= 2 { all_words(k, 5) } else { (0..14).map(|_| word_near(&[&p], &mut r, k, 24)).collect() };
        words.push(vec![]);
        if i % 10 == 0 { let n = r.usize(100, 400); let mut w = vec![]; while w.len() < n { w.extend(word_near(&[&p], &mut r, k, 60)); w.push(0); } words.push(w); }
        res.push(json!({"kind": "match", "k": k, "emb": if i % 3 == 0 { char_embedding(&mut r) } else { pick_embedding(&mut r, k) }, "tt": "u32", "how": "single", "toks": [tok(&p, 0)], "words": words}));
    }
    for i in 0..48 * scale.min(4) {
        let (k, p) = structured(&mut r, i);
        if dfa_size(&[&p], k, 3000).is_none() { continue; }
        let words: Vec<Vec<usize>> = (0..4).map(|_| word_near(&[&p], &mut r, k, 700)).collect();
        res.push(json!({"kind": "match", "k": k, "emb": pick_embedding(&mut r, k), "tt": "u32", "how": "single", "toks": [tok(&p, 0)], "words": words}));
    }
    res.extend(odd(&mut r, false));
    res.extend(super::large::matching(seed, "C01", false, deep));
    res
}

// --------------------------------------------------------------------------------------------------------------------------

/// A random program of combinator calls, and the cost of what it makes
fn program(r: &mut Rand, k: usize, depth: usize) -> Value {
    let lit = |r: &mut Rand| { let n = *r.pick(&[0, 1, 1, 2, 2, 3]); (0..n).map(|_| r.usize(0, k - 1)).collect::<Vec<_>>() };
    if depth == 0 || r.chance(1, 6) {
        return match r.below(8) {
            0     => json!({"op": "eps"}),
            1 | 2 => { let a = r.usize(0, k - 1); json!({"op": "rng", "a": a, "b": r.usize(a, k - 1)}) }
            _     => json!({"op": "lit", "s": lit(r), "as": *r.pick(&["vec", "slice", "str", "pat", "box", "ref"])})
        };
    }
    match r.below(20) {
        0 | 1 => json!({"op": "inf", "n": *r.pick(&[0, 0, 1, 1, 2, 3]), "l": program(r, k, depth - 1)}),
        2 | 3 => { let m = *r.pick(&[0, 0, 1, 2, 3]); let n = if r.chance(1, 10) { r.below(m + 1) } else { m + *r.pick(&[1, 1, 2, 3]) }; json!({"op": "rep", "m": m, "n": n, "l": program(r, k, depth - 1)}) }
        4 => { let n = r.usize(0, 3); json!({"op": "any", "l": (0..n).map(|_| program(r, k, depth - 1)).collect::<Vec<_>>()}) }
        5 => { let n = r.usize(0, 3); json!({"op": "all", "l": (0..n).map(|_| program(r, k, depth - 1)).collect::<Vec<_>>()}) }
        x => {
            let op = if x < 13 { "append" } else { "or" };
            // Chains of the same call, to the left or to the right, are what the combinators flatten
            if r.chance(2, 5) {
                json!({"op": op, "as": *r.pick(&["vec", "slice", "str"]), "l": program(r, k, depth - 1), "r": {"op": "lit", "s": lit(r), "as": "vec"}})
            } else {
                let dl = r.usize(0, depth - 1);
                json!({"op": op, "as": *r.pick(&["pat", "box", "ref", "boxref"]), "l": program(r, k, depth - 1), "r": program(r, k, dl)})
            }
        }
    }
}

/// What is at the seams when two chains of calls are put together
fn seam(r: &mut Rand, k: usize) -> Value {
    let leaf = |r: &mut Rand| -> Value {
        if r.chance(1, 4) { let a = r.usize(0, k - 1); json!({"op": "rng", "a": a, "b": r.usize(a, k - 1)}) }
        else { let n = *r.pick(&[1, 1, 1, 2]); json!({"op": "lit", "s": (0..n).map(|_| r.usize(0, k - 1)).collect::<Vec<_>>(), "as": "vec"}) }
    };
    let atom = |r: &mut Rand| -> Value {
        match r.below(14) {
            0     => json!({"op": "eps"}),
            1     => json!({"op": "lit", "s": [], "as": *r.pick(&["vec", "pat"])}),
            2 | 3 => { let (m, n) = *r.pick(&[(0, 0), (0, 1), (0, 2), (0, 2), (1, 2), (1, 3), (0, 3), (2, 2), (2, 4)]); json!({"op": "rep", "m": m, "n": n, "l": leaf(r)}) }
            4 | 5 => json!({"op": "inf", "n": *r.pick(&[0, 0, 1, 2]), "l": leaf(r)}),
            6     => { let n = r.usize(0, 2); json!({"op": "any", "l": (0..n).map(|_| leaf(r)).collect::<Vec<_>>()}) }
            7     => { let n = r.usize(0, 2); json!({"op": "all", "l": (0..n).map(|_| leaf(r)).collect::<Vec<_>>()}) }
            _     => leaf(r)
        }
    };
    let as_ = |r: &mut Rand| *r.pick(&["pat", "box", "ref", "boxref"]);
    let chain = |r: &mut Rand, op: &str| -> Value {
        let mut q = atom(r);
        for _ in 0..r.usize(0, 3) {
            let o = if r.chance(1, 8) { if op == "or" { "append" } else { "or" } } else { op };
            q = json!({"op": o, "as": as_(r), "l": q, "r": atom(r)});
        }
        q
    };
    let mut q = Value::Null;
    for i in 0..r.usize(2, 3) {
        let c = *r.pick(&["append", "append", "or"]);
        let x = chain(r, c);
        q = if i == 0 { x } else { json!({"op": *r.pick(&["append", "append", "or"]), "as": as_(r), "l": q, "r": x}) };
        match r.below(10) {
            0 => q = json!({"op": "inf", "n": r.below(3), "l": q}),
            1 => { let m = r.below(3); q = json!({"op": "rep", "m": m, "n": m + r.below(3), "l": q}) }
            _ => ()
        }
    }
    q
}

/// Things made of the same thing, put together: what might be taken for one another or be made one
fn kin(r: &mut Rand, k: usize) -> Value {
    let base = match r.below(6) { 0 => json!({"op": "eps"}), 1 => seam(r, k), 2 => program(r, k, 2), _ => { let d = r.usize(0, 1); program(r, k, d) } };
    let as_ = |r: &mut Rand| *r.pick(&["pat", "box", "ref", "boxref"]);
    let variant = |r: &mut Rand| -> Value {
        match r.below(12) {
            0..=3 => { let m = *r.pick(&[0, 0, 1, 1, 2, 3]); json!({"op": "rep", "m": m, "n": if r.chance(1, 5) { r.below(m + 1) } else { m + 1 + r.below(3) }, "l": base}) }
            4 | 5 => json!({"op": "inf", "n": *r.pick(&[0, 1, 2]), "l": base}),
            6     => json!({"op": "append", "as": as_(r), "l": base, "r": base}),
            7     => json!({"op": *r.pick(&["any", "all"]), "l": [base]}),
            8     => json!({"op": "or", "as": as_(r), "l": base, "r": {"op": "eps"}}),
            9     => json!({"op": "append", "as": as_(r), "l": base, "r": program(r, k, 0)}),
            10    => json!({"op": "append", "as": as_(r), "l": program(r, k, 0), "r": base}),
            _     => base.clone()
        }
    };
    let mut q = variant(r);
    for _ in 0..r.usize(1, 3) {
        let v = variant(r);
        let (a, b) = if r.chance(1, 4) { (v, q) } else { (q, v) };
        q = json!({"op": *r.pick(&["append", "or", "or"]), "as": as_(r), "l": a, "r": b});
        if r.chance(1, 8) { q = json!({"op": "inf", "n": r.below(2), "l": q}); }
    }
    q
}

/// What a program makes, naively
fn naive(q: &Value) -> P {
    let u = |f: &str| q[f].as_u64().unwrap();
    let list = |v: &Value| v.as_array().unwrap().iter().map(naive).collect::<Vec<_>>();
    match q["op"].as_str().unwrap() {
        "eps"    => Eps,
        "rng"    => Rng(u("a") as usize, u("b") as usize),
        "lit"    => Lit(crate::ast::idx_list(&q["s"])),
        "any"    => Any(list(&q["l"])),
        "all"    => All(list(&q["l"])),
        "inf"    => Inf(u("n") as u32, Box::new(naive(&q["l"]))),
        "rep"    => Rep(u("m") as u32, u("n") as u32, Box::new(naive(&q["l"]))),
        "append" => All(vec![naive(&q["l"]), naive(&q["r"])]),
        _        => Any(vec![naive(&q["l"]), naive(&q["r"])])
    }
}

pub fn c02(seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, "C02");
    let mut res = vec![];
    let n = if deep { 60000 } else { 7000 };
    while res.len() < n {
        let seams = res.len() % 7 > 3;
        let kins  = res.len() % 7 < 2;
        let k = if seams { r.usize(3, 6) } else { *r.pick(&[2, 2, 3, 3, 4]) };
        let depth = r.usize(1, 6);
        let q = if kins { kin(&mut r, k) } else if seams { seam(&mut r, k) } else { program(&mut r, k, depth) };
        let p = naive(&q);
        if p.cost() > 90 || dfa_size(&[&p], k, 250).is_none() { continue; }
        let emb = if r.chance(1, 2) { char_embedding(&mut r) } else { pick_embedding(&mut r, k) };
        res.push(json!({"kind": "dfa", "k": k, "emb": emb, "tt": "u32", "how": "prog", "prog": q}));
    }
    // Chains of calls on what was made by chains of calls
    for _ in 0..if deep { 400 } else { 40 } {
        let q = loop {
            let mut q = program(&mut r, 2, 0);
            for _ in 0..*r.pick(&[9, 17, 25, 33, 40]) {
                let x = program(&mut r, 2, 0);
                let as_ = *r.pick(&["pat", "box", "ref", "boxref"]);
                q = match r.below(9) {
                    0..=2 => json!({"op": "append", "as": as_, "l": q, "r": x}),
                    3..=5 => json!({"op": "or", "as": as_, "l": q, "r": x}),
                    6     => json!({"op": "append", "as": as_, "l": x, "r": q}),
                    7     => json!({"op": "rep", "m": r.below(2), "n": 2, "l": q}),
                    _     => json!({"op": "or", "as": as_, "l": x, "r": q})
                };
            }
            let p = naive(&q);
            if p.cost() < 500 && dfa_size(&[&p], 2, 300).is_some() { break q; }
        };
        res.push(json!({"kind": "dfa", "k": 2, "emb": pick_embedding(&mut r, 2), "tt": "u32", "how": "prog", "prog": q}));
    }
    // Many repetitions, and long chains
    for n in &[100u32, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1001, 1023, 1025, 1100, 2049] {
        for which in 0..if deep || *n < 600 { 8 } else { 5 } {
            let one = json!({"op": "lit", "s": [0], "as": "vec"});
            let few = n % 100 + 5;
            let q = match which {
                0 => json!({"op": "rep", "m": r.below(3), "n": n, "l": one}),
                1 => { let m = n - 1 - r.below(*n as u64 / 2) as u32; json!({"op": "rep", "m": m, "n": n, "l": {"op": "rng", "a": 0, "b": 1}}) }
                2 => json!({"op": "inf", "n": n, "l": one}),
                3 => json!({"op": "rep", "m": n, "n": n + 1, "l": one}),
                4 => json!({"op": "append", "as": "pat", "l": {"op": "lit", "s": (0..*n).map(|_| r.usize(0, 1)).collect::<Vec<_>>(), "as": "str"}, "r": {"op": "rep", "m": 0, "n": 3, "l": one}}),
                5 => { let mut q = one.clone(); for i in 0..few { q = json!({"op": "append", "as": "pat", "l": q, "r": {"op": "rep", "m": 0, "n": 2, "l": {"op": "lit", "s": [i % 2], "as": "vec"}}}); } q }
                6 => { let mut q = one.clone(); for i in 0..few { q = json!({"op": "or", "as": "pat", "l": q, "r": {"op": "lit", "s": (0..i % 9).map(|_| r.usize(0, 1)).collect::<Vec<_>>(), "as": "vec"}}); } q }
                _ => { let (a, b) = (r.range(2, 9) as u32, n / 20 + 2); json!({"op": "rep", "m": a, "n": a + 2, "l": {"op": "rep", "m": b, "n": b + 1, "l": one}}) }
            };
            let p = naive(&q);
            if dfa_size(&[&p], 2, 3000).is_none() { continue; }
            res.push(json!({"kind": "dfa", "k": 2, "emb": pick_embedding(&mut r, 2), "tt": "u32", "how": "prog", "prog": q}));
        }
    }
    res
}

// --------------------------------------------------------------------------------------------------------------------------

const TOKHOW: &[&str] = &["tm", "tmbox", "tmgrow", "tmagain", "ndfa", "tmgrowbox", "tmearly"];

/// A set of tokens: patterns that tend to clash
pub fn token_set(r: &mut Rand, k: usize, max: usize, depth: usize, size: usize) -> Vec<(P, i64)> {
    loop {
        let n = r.usize(1, max);
        let mut ts: Vec<(P, i64)> = vec![];
        let ranks = *r.pick(&[1, 2, 3, 6, 20]);
        for _ in 0..n {
            let p = if !ts.is_empty() && r.chance(1, 4) { r.pick(&ts).0.clone() }
                    else if r.chance(1, 6) { Inf(r.below(2) as u32, Box::new(Rng(0, k - 1))) }
                    else { random_bounded(r, k, depth, 25) };
            ts.push((p, r.below(ranks) as i64));
        }
        let ps: Vec<&P> = ts.iter().map(|t| &t.0).collect();
        if dfa_size(&ps, k, size).is_some() { return ts; }
    }
}

pub fn toks_json(ts: &[(P, i64)]) -> Vec<Value> { ts.iter().map(|t| tok(&t.0, t.1)).collect() }

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut res = vec![];
    for p in permutations(n - 1) { for i in 0..n { let mut q = p.clone(); q.insert(i, n - 1); res.push(q); } }
    res
}

pub fn type_and_embedding(r: &mut Rand, k: usize) -> (&'static str, String) {
    if r.chance(1, 2) { ("u32", pick_embedding(r, k)) } else { (*r.pick(&["i8", "str", "rev"]), small_embedding(r, k)) }
}

/// Of the types that go with every type of token
pub fn small_embedding(r: &mut Rand, k: usize) -> String {
    match r.below(4) {
        0 if k <= 256 => "u8lo".to_string(),
        1 if k <= 256 => format!("{}:u8:{}", *r.pick(&["at", "set"]), r.below(100000)),
        _             => char_embedding(r)
    }
}

pub fn c03(seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, "C03");
    let mut res = vec![];
    let scale   = if deep { 12 } else { 1 };
    let mut push = |r: &mut Rand, k: usize, ts: &[(P, i64)]| {
        let (tt, emb) = type_and_embedding(r, k);
        res.push(json!({"kind": "dfa", "k": k, "emb": emb, "tt": tt, "how": *r.pick(TOKHOW), "toks": toks_json(ts)}));
    };
    for i in 0..1500 * scale {
        let k  = *r.pick(&[1, 2, 2, 3, 3, 4, 6]);
        let ts = token_set(&mut r, k, if i % 10 == 0 { 12 } else { 5 }, 3, if i % 10 == 0 { 400 } else { 150 });
        push(&mut r, k, &ts);
    }
    // Every order of insertion
    for _ in 0..25 * scale {
        let k  = *r.pick(&[2, 2, 3]);
        let ts = token_set(&mut r, k, 4, 2, 60);
        for p in permutations(ts.len()) {
            let ts: Vec<(P, i64)> = p.iter().map(|i| ts[*i].clone()).collect();
            push(&mut r, k, &ts);
        }
    }
    // Many tokens: keywords against an identifier, and many tokens that match the same thing
    for i in 0..24 * scale.min(5) {
        let k = 5;
        let n = r.usize(10, 60);
        let mut ts: Vec<(P, i64)> = (0..n).map(|_| { let l = r.usize(0, 4); (Lit((0..l).map(|_| r.usize(0, k - 1)).collect()), r.below(90) as i64) }).collect();
        ts.push((Inf(i as u32 % 2, Box::new(Rng(0, k - 1))), r.below(90) as i64));
        if i % 3 == 0 { for j in 0..n { ts[j].0 = Inf(1, Box::new(Rng(j % k, k - 1))); } }
        r.shuffle(&mut ts);
        let ps: Vec<&P> = ts.iter().map(|t| &t.0).collect();
        if dfa_size(&ps, k, 600).is_none() { continue; }
        push(&mut r, k, &ts);
    }
    for i in 0..300 * scale {
        let k  = *r.pick(&[1, 2, 2, 3]);
        let ts = token_set(&mut r, k, 6, 3, 150);
        let ps: Vec<&P> = ts.iter().map(|t| &t.0).collect();
        let mut words: Vec<Vec<usize>> = if i % 4 == 0 { all_words(k, if k == 3 { 3 } else { 5 }) } else { (0..12).map(|_| word_near(&ps, &mut r, k, 24)).collect() };
        words.push(vec![]);
        let (tt, emb) = type_and_embedding(&mut r, k);
        res.push(json!({"kind": "match", "k": k, "emb": emb, "tt": tt, "how": *r.pick(&["tm", "tm", "tmgrow", "tmearly"]), "toks": toks_json(&ts), "words": words}));
    }
    res.extend(odd(&mut r, true));
    res.extend(super::large::matching(seed, "C03", true, deep));
    res
}
