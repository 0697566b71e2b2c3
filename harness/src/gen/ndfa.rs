//! Cases about state machines under construction and maps of ranges
use serde_json::{json, Value};
use crate::rng::Rand;
use crate::sym::{EMBEDDINGS, TYPES};

/// An embedding in which neighbouring indexes are neighbouring values
pub fn contiguous(r: &mut Rand, k: usize) -> String {
    if r.chance(1, 4) { return format!("at:{}:{}", TYPES[r.usize(if k > 256 { 2 } else { 0 }, TYPES.len() - 1)], r.below(100000)); }
    loop { let e = r.pick(EMBEDDINGS); if e.1 >= k && !e.0.ends_with("sp") { return e.0.to_string(); } }
}

/// A range of the domain, of many shapes
pub fn some_range(r: &mut Rand, k: usize, known: &[(usize, usize)]) -> (usize, usize) {
    let (a, b) = match r.below(10) {
        0          => (0, k - 1),
        1          => { let x = r.usize(0, k - 1); (x, x) }
        2          => (0, r.usize(0, k - 1)),
        3          => (r.usize(0, k - 1), k - 1),
        // Related to one that is already there
        4..=6 if !known.is_empty() => {
            let (a, b) = *r.pick(known);
            match r.below(7) {
                0 => (a, b),
                1 => (a, r.usize(a, k - 1)),
                2 => (r.usize(0, b), b),
                3 => if b + 1 < k { (b + 1, r.usize(b + 1, k - 1)) } else { (a, b) },
                4 => if a > 0 { (r.usize(0, a - 1), a - 1) } else { (a, b) },
                5 => { let x = r.usize(a, b); (x, r.usize(x, b)) }
                _ => (r.usize(0, a), r.usize(b, k - 1))
            }
        }
        _ => { let a = r.usize(0, k - 1); (a, r.usize(a, (a + 6).min(k - 1))) }
    };
    (a, b)
}

fn ops(r: &mut Rand, k: usize, states: usize, count: usize, fix: bool, often: u64) -> Vec<Value> {
    let mut res = vec![];
    let mut known = vec![];
    let joins = r.below(4);
    for _ in 0..count {
        let s = r.usize(0, states - 1);
        let t = r.usize(0, states - 1);
        match r.below(12) {
            0      => res.push(json!(["c", s])),
            1 | 2  => res.push(json!(["o", s, r.below(5)])),
            3..=5 if joins > 0 => res.push(match joins { 1 => json!(["j", s.min(t), s.max(t)]), _ => json!(["j", s, t]) }),
            _      => { let (a, b) = some_range(r, k, &known); known.push((a, b)); res.push(json!(["t", s, a, b, t])); }
        }
        if fix && r.chance(1, 6) { res.push(json!(["x"])); }
        if r.chance(1, often) { res.push(json!(["q"])); }
    }
    if fix {
        for _ in 0..2 { res.push(json!(["x"])); res.push(json!(["q"])); }
        // What was joined before is still joined
        for s in 0..states.min(4) { res.push(json!(["t", s, 0, k - 1, s])); res.push(json!(["o", s, 7 + s])); }
    }
    res.push(json!(["q"]));
    if r.chance(1, 8) { res.push(json!(["q"])); }
    res
}

pub fn machines(prop: &str, seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, prop);
    let mut res = vec![];
    let fix     = prop == "C11";
    let scale   = if deep { 12 } else { 1 };
    let vias    = ["plain", "clone", "box", "rc"];
    for i in 0..2500 * scale {
        let k      = if fix { *r.pick(&[1, 2, 3, 5, 8, 12, 20]) } else { *r.pick(&[1, 3, 8]) };
        let states = r.usize(1, 8);
        let count  = r.usize(1, 30);
        let o      = ops(&mut r, k, states, count, fix, 6);
        let emb    = if !fix && i % 3 == 0 { "opaque".to_string() } else { contiguous(&mut r, k) };
        res.push(json!({"kind": "ndfa", "k": k, "emb": emb, "via": vias[i % 4], "ops": o}));
    }
    for i in 0..30 * scale {
        let k      = r.usize(20, 90);
        let states = r.usize(20, if fix { 40 } else { 150 });
        let count  = r.usize(40, 160);
        let o      = ops(&mut r, k, states, count, fix, 200);
        res.push(json!({"kind": "ndfa", "k": k, "emb": contiguous(&mut r, k), "via": vias[i % 4], "ops": o}));
    }
    // Long chains and rings of joins
    for i in 0..12 {
        let n = 20 + 10 * i;
        let mut o: Vec<Value> = vec![];
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        for s in order { if i % 2 == 0 || s + 1 < n { o.push(json!(["j", s, (s + 1) % n])); } if s % 7 == 0 { o.push(json!(["t", s, 0, 2, (s * 3) % n])); } if s % 11 == 3 { o.push(json!(["o", s, s])); } }
        if fix { o.push(json!(["x"])); }
        o.push(json!(["q"]));
        res.push(json!({"kind": "ndfa", "k": 3, "emb": contiguous(&mut r, 3), "via": "plain", "ops": o}));
    }
    // States with many joins, in many orders, some of them more than once
    for i in 0..120 * scale {
        let n = r.usize(4, if i % 6 == 0 { 60 } else { 14 });
        let k = if fix { 6 } else { 4 };
        let mut o: Vec<Value> = vec![];
        let hub = r.usize(0, n - 1);
        for s in 0..n {
            if r.chance(2, 3) { let a = r.usize(0, k - 1); o.push(json!(["t", s, a, r.usize(a, k - 1), r.usize(0, n - 1)])); }
            if r.chance(1, n as u64) { o.push(json!(["o", s, r.below(5)])); }
        }
        let mut order: Vec<usize> = (0..n).collect();
        match i % 4 { 0 => (), 1 => order.reverse(), _ => r.shuffle(&mut order) }
        for j in 0..n {
            o.push(json!(["j", hub, order[j]]));
            if r.chance(1, 4) { o.push(json!(["j", hub, order[r.usize(0, j)]])); }
            if r.chance(1, 8) { o.push(json!(["j", order[r.usize(0, n - 1)], hub])); }
            if r.chance(1, 5) { o.push(json!(["qs", [hub]])); }
        }
        if fix { o.push(json!(["x"])); }
        o.push(json!(["q"]));
        if !fix && i % 2 == 0 { o.push(json!(["o", order[n - 1], 9])); o.push(json!(["q"])); }
        res.push(json!({"kind": "ndfa", "k": k, "emb": contiguous(&mut r, k), "via": vias[i % 4], "ops": o}));
    }
    // Machines with very many states, of which some are looked at
    for (i, n) in [255, 256, 257, 1025, 4097, 65535, 65537, 70000].iter().enumerate() {
        for often in 0..if deep { 6 } else { 2 } {
            let k = if fix { 9 } else { 4 };
            let mut o: Vec<Value> = vec![];
            let mut seen: Vec<usize> = (0..24).map(|_| r.usize(0, n - 1)).collect();
            for x in [0, n - 1, n - 2, n / 2, 255, 254, 256 % n, 128] { seen.push(x); }
            // Numbers that could be taken for each other
            for x in [255, 256, 65535, 65536, 1024] { if x < *n { let y = *r.pick(&seen); seen.push(x); if x + y < *n { seen.push(x + y); } } }
            seen.sort();
            seen.dedup();
            for round in 0..3 {
                for _ in 0..r.usize(20, 70) {
                    let (s, t) = (*r.pick(&seen), *r.pick(&seen));
                    match r.below(9) {
                        0     => o.push(json!(["o", s, r.below(5)])),
                        1 | 2 => o.push(json!(["j", s, t])),
                        3     => o.push(json!(["c", s])),
                        _     => { let a = r.usize(0, k - 1); o.push(json!(["t", s, a, r.usize(a, k - 1), t])) }
                    }
                }
                if fix && round > 0 { o.push(json!(["x"])); }
                o.push(json!(["qs", seen]));
            }
            res.push(json!({"kind": "ndfa", "k": k, "emb": contiguous(&mut r, k), "via": vias[(i + often) % 4], "ops": o}));
        }
    }
    // Long ways of joins, and all moves of many states together
    for (i, n) in [257, 600, 1100, if deep { 5000 } else { 2600 }].iter().enumerate() {
        let mut o: Vec<Value> = vec![];
        let mut order: Vec<usize> = (0..*n).collect();
        if i != 1 { r.shuffle(&mut order); }
        for s in &order {
            if s + 1 < *n || i == 0 { o.push(json!(["j", s, (s + 1) % n])); }
            if s % 50 == 7 || s + 1 == *n { o.push(json!(["t", s, s % 3, 2, (s * 3) % n])); }
        }
        if fix { o.push(json!(["x"])); }
        o.push(json!(["qs", [0, n - 1, n / 2]]));
        o.push(json!(["o", n - 1, 3]));
        o.push(json!(["qs", [0, n - 1, 1]]));
        res.push(json!({"kind": "ndfa", "k": 3, "emb": contiguous(&mut r, 3), "via": vias[i], "ops": o}));
    }
    // One state with very many moves
    for n in [257, 600, 1100] {
        let k = if fix { 150 } else { 100 };
        let mut o: Vec<Value> = (0..n).map(|_| { let (a, b) = some_range(&mut r, k, &[]); json!(["t", 0, a, if fix { b.min(a + 5) } else { b }, r.usize(0, 9)]) }).collect();
        if fix { o.push(json!(["x"])); }
        o.push(json!(["qs", [0]]));
        res.push(json!({"kind": "ndfa", "k": k, "emb": contiguous(&mut r, k), "via": "plain", "ops": o}));
    }
    res
}

/// Adding everything, then dividing it, twice, then looking up in the map and in the divided one
fn once(adds: &[(usize, usize)], queries: &[(usize, usize)]) -> Vec<Value> {
    let mut ops = vec![json!(["a", 1, adds])];
    for q in queries { ops.push(json!(["f", 1, q])); }
    ops.push(json!(["d", 1]));
    ops.push(json!(["d", 2]));
    for q in queries { ops.push(json!(["f", 2, q])); }
    ops
}

/// Any order of adding to, dividing and looking up in several maps
fn history(r: &mut Rand, k: usize, count: usize) -> Vec<Value> {
    let mut ops   = vec![];
    let mut maps  = 1;
    let mut known: Vec<(usize, usize)> = vec![];
    for _ in 0..count {
        // Mostly the newest one
        let m = if r.chance(1, 2) { maps } else { r.usize(1, maps) };
        match r.below(8) {
            0..=2 => {
                let n = r.usize(1, 3);
                let mut rs = vec![];
                for _ in 0..n { let x = some_range(r, k, &known); known.push(x); rs.push(x); }
                ops.push(json!(["a", m, rs]));
            }
            3..=5 => { let q = some_range(r, k, &known); ops.push(json!(["f", m, q])); }
            _     => { ops.push(json!(["d", m])); maps += 1; }
        }
    }
    // All of them at the end
    for m in 1..=maps {
        ops.push(json!(["f", m, (0, k - 1)]));
        let q = some_range(r, k, &known);
        ops.push(json!(["f", m, q]));
    }
    for m in 1..=maps { ops.push(json!(["d", m])); }
    ops
}

pub fn maps(prop: &str, seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, prop);
    let mut res = vec![];
    let scale   = if deep { 12 } else { 1 };
    let wide    = ["u8lo", "u8hi", "i8lo", "i8hi"];
    for i in 0..2200 * scale {
        let full = i % 8 == 0;
        let k = if full { 256 } else { *r.pick(&[1, 2, 3, 4, 5, 6, 8, 10, 15, 25, 40]) };
        let n = match i % 5 { 0 => r.usize(0, 4), 1 => r.usize(15, 50), _ => r.usize(3, 14) };
        let mut known = vec![];
        for _ in 0..n { let x = some_range(&mut r, k, &known); known.push(x); }
        // Some twice
        for _ in 0..r.usize(0, 3) { if !known.is_empty() { let x = *r.pick(&known); known.push(x); } }
        match r.below(4) { 0 => known.sort(), 1 => { known.sort(); known.reverse(); } _ => r.shuffle(&mut known) }
        let mut queries: Vec<(usize, usize)> = (0..8).map(|_| some_range(&mut r, k, &known)).collect();
        queries.push((0, k - 1));
        res.push(json!({"kind": "ranges", "k": k, "emb": if full { wide[r.usize(0, 3)].to_string() } else { contiguous(&mut r, k) }, "ops": once(&known, &queries)}));
    }
    // Maps that are added to and divided over and over
    for i in 0..900 * scale {
        let full  = i % 16 == 0;
        let k     = if full { 256 } else { *r.pick(&[1, 2, 3, 4, 6, 10, 20]) };
        let count = match i % 3 { 0 => r.usize(3, 8), 1 => r.usize(6, 16), _ => r.usize(12, 30) };
        let ops   = history(&mut r, k, count);
        res.push(json!({"kind": "ranges", "k": k, "emb": if full { wide[r.usize(0, 3)].to_string() } else { contiguous(&mut r, k) }, "ops": ops}));
    }
    // Many additions one by one, with lookups and divisions here and there
    for i in 0..if deep { 60 } else { 8 } {
        let k = *r.pick(&[12, 40, 300]);
        let mut known: Vec<(usize, usize)> = vec![];
        let mut ops = vec![];
        let mut maps = 1;
        for n in 0..r.usize(100, 300) {
            let x = if i % 2 == 0 { let a = r.usize(0, k - 1); (a, (a + r.usize(0, 2)).min(k - 1)) } else { some_range(&mut r, k, &known) };
            known.push(x);
            ops.push(json!(["a", 1, [x]]));
            if r.chance(1, 12) { let q = some_range(&mut r, k, &known); ops.push(json!(["f", 1, q])); }
            if n % 97 == 50 { ops.push(json!(["d", 1])); maps += 1; }
            if maps > 1 && r.chance(1, 30) { ops.push(json!(["f", maps, some_range(&mut r, k, &known)])); }
        }
        ops.push(json!(["f", 1, (0, k - 1)]));
        ops.push(json!(["d", 1]));
        for _ in 0..4 { let q = some_range(&mut r, k, &known); ops.push(json!(["f", maps + 1, q])); }
        res.push(json!({"kind": "ranges", "k": k, "emb": format!("at:{}:{}", TYPES[r.usize(2, TYPES.len() - 1)], r.below(100000)), "ops": ops}));
    }
    // Very many ranges
    for i in 0..if deep { 60 } else { 12 } {
        let k = *r.pick(&[256, 300, 600, 1200]);
        let n = r.usize(60, 300);
        // Some maps of more ranges than would be looked through one by one
        let (k, n) = if i > 8 { (5000, [600, 1100, 2100][i % 3]) } else { (k, n) };
        let mut known: Vec<(usize, usize)> = vec![];
        for _ in 0..n { let a = r.usize(0, k - 1); known.push((a, (a + match i % 3 { 0 => 0, 1 => r.usize(0, 9), _ => r.usize(0, k) }).min(k - 1))); }
        let mut queries: Vec<(usize, usize)> = (0..12).map(|_| some_range(&mut r, k, &known)).collect();
        queries.push((0, k - 1));
        res.push(json!({"kind": "ranges", "k": k, "emb": format!("at:{}:{}", TYPES[r.usize(2, TYPES.len() - 1)], r.below(100000)), "ops": once(&known, &queries)}));
    }
    res
}
