//! Cases about tagged streams
use serde_json::{json, Value};
use crate::gen::pat::{pick_embedding, token_set, toks_json, type_and_embedding};
use crate::gen::tok::{input, READERS};
use crate::rng::Rand;

/// What the streams hold, as far as making more calls needs to know: None for a symbol, or what a tag holds
#[derive(Clone)]
struct T(Vec<Option<T>>);

/// Stands for the largest position there is
const HUGE: usize = 1000000;

/// A range that often is allowed
fn range(r: &mut Rand, len: usize) -> (usize, usize) {
    match r.below(14) {
        0      => { let a = r.usize(0, len + 2); let z = r.usize(0, len + 2); (a, z) }
        1      => { let a = r.usize(0, len); (a, a) }
        2      => (0, len),
        3      => (r.usize(0, len), if r.chance(1, 4) { HUGE } else { len + 1 }),
        _      => { let a = r.usize(0, len); let z = if r.chance(1, 2) { r.usize(a, len) } else { (a + r.usize(0, 3)).min(len) }; (a, z) }
    }
}

/// Ranges that mostly are in order and apart
fn ranges(r: &mut Rand, len: usize, tags: usize) -> Vec<(usize, usize, usize)> {
    let mut res = vec![];
    let mut at = 0;
    let n = if len > 40 && r.chance(1, 2) { r.usize(6, len / 2) } else { *r.pick(&[0, 1, 2, 2, 3, 4, 6]) };
    let step = (2 * len / (n + 1)).max(1);
    for _ in 0..n {
        let a = (at + r.usize(0, step / 2)).min(len);
        let z = (a + r.usize(0, step / 2 + 1)).min(len);
        res.push((a, z, r.usize(0, tags - 1)));
        at = z;
    }
    if r.chance(1, 4) && res.len() > 0 {
        let i = r.usize(0, res.len() - 1);
        match r.below(6) {
            0 => { let j = r.usize(0, res.len() - 1); res.swap(i, j); }
            1 => res[i].1 = len + r.usize(1, 2),
            2 => { let (a, z) = (res[i].0, res[i].1); res[i].0 = z; res[i].1 = a; }
            3 => res[i].0 = res[i].0.saturating_sub(1),
            4 => res[i].1 += 1,
            _ => res[i] = (HUGE, HUGE, 0)
        }
    }
    res
}

fn fits(len: usize, ts: &[(usize, usize, usize)]) -> bool { ts.iter().all(|t| t.0 <= t.1 && t.1 <= len) && ts.windows(2).all(|w| w[0].1 <= w[1].0) }

fn apply(s: &T, ts: &[(usize, usize, usize)]) -> T {
    let mut res = vec![];
    let mut at = 0;
    for t in ts {
        res.extend(s.0[at..t.0].iter().cloned());
        res.push(Some(T(s.0[t.0..t.1].to_vec())));
        at = t.1;
    }
    res.extend(s.0[at..].iter().cloned());
    T(res)
}

pub fn generate(prop: &str, seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, prop);
    let mut res = vec![];
    let scale   = if deep { 15 } else { 1 };
    let tokens  = prop == "C19";
    for i in 0..3500 * scale {
        let k   = *r.pick(&[1, 2, 2, 3, 3, 4, 6]);
        let ts  = token_set(&mut r, k, 4, 3, 100);
        let big = i % 25 == 0;
        let length = |r: &mut Rand| { let most = if i % 500 == 0 { 6000 } else { *r.pick(&[60, 120, 300, 700]) }; r.usize(most / 3 * (most / 2000).min(1), most) };
        let tags = 2 + ts.iter().map(|t| t.1).max().unwrap() as usize;
        let (tt, emb) = type_and_embedding(&mut r, k);
        let word = |r: &mut Rand| -> Vec<usize> {
            if tokens && big { let n = length(r); let mut w = input(r, &ts, k, n / 3, n); while w.len() < n && r.chance(15, 16) { w.push(r.usize(0, k - 1)); } w }
            else if tokens { let n = r.usize(0, 5); input(r, &ts, k, n, 12) }
            else { let n = if big { length(r) } else { r.usize(0, 9) }; (0..n).map(|_| r.usize(0, k - 1)).collect() }
        };
        let mut all: Vec<T> = vec![];
        let mut ops = vec![];
        let n = if big { r.usize(2, 8) } else if i % 40 == 1 { r.usize(20, 80) } else { r.usize(2, 14) };
        // A style that mostly builds nested tags on one stream
        let deepen = r.chance(1, 3);
        for j in 0..n {
            if all.is_empty() || (all.len() < 3 && r.chance(1, 12)) {
                let w = word(&mut r);
                all.push(T(vec![None; w.len()]));
                // What a tokenizer makes of it isn't known here
                if tokens && r.chance(1, if big { 2 } else { 4 }) { ops.push(json!(["fromtok", w, *r.pick(READERS)])); all.pop(); break; }
                ops.push(json!(["new", w, *r.pick(READERS)]));
                continue;
            }
            let s   = if deepen { all.len() - 1 } else { r.usize(0, all.len() - 1) };
            let len = all[s].0.len();
            match if all.len() > 8 { r.below(5) } else { r.below(14) } {
                0..=1 => { let (a, z) = range(&mut r, len); let t = r.usize(0, tags - 1); ops.push(json!(["tag", s + 1, t, a, z])); if fits(len, &[(a, z, t)]) { all[s] = apply(&all[s], &[(a, z, t)]); } }
                2     => { let (a, z) = range(&mut r, len); ops.push(json!(["over", s + 1, r.usize(0, tags - 1), a, z])); }
                3     => ops.push(if r.chance(1, 2) { json!(["look", s + 1, r.usize(0, len)]) } else { json!(["read", s + 1]) }),
                4     => ops.push(json!(["same", s + 1, r.usize(1, all.len())])),
                5     => { ops.push(json!(["copy", s + 1])); let c = all[s].clone(); all.push(c); }
                6..=7 => {
                    let inner: Vec<usize> = (0..len).filter(|i| all[s].0[*i].is_some()).collect();
                    if inner.is_empty() || r.chance(1, 10) {
                        // Often refused
                        let n = r.usize(0, len);
                        ops.push(json!(["inner", s + 1, n]));
                        if n < len { if let Some(t) = all[s].0[n].clone() { all.push(t); } }
                    } else {
                        let n = *r.pick(&inner);
                        ops.push(json!(["inner", s + 1, n]));
                        let t = all[s].0[n].clone().unwrap();
                        all.push(t);
                    }
                }
                _     => { let t = ranges(&mut r, len, tags); ops.push(json!(["with", s + 1, t])); if fits(len, &t) { let c = apply(&all[s], &t); all.push(c); } }
            }
            // Nothing can be said about later streams here, except by number: end with tokenizing
            if tokens && (j + 1 >= n || r.chance(1, 3)) {
                let s   = r.usize(0, all.len() - 1);
                let mut count = all.len();
                let map = |r: &mut Rand| json!([(0..k).map(|i| if r.chance(2, 3) { i } else { r.usize(0, k - 1) }).collect::<Vec<_>>(), (0..tags).map(|_| r.usize(0, k - 1)).collect::<Vec<_>>()]);
                let m = map(&mut r);
                ops.push(json!(["tokenize", s + 1, m[0], m[1], *r.pick(&[0, 0, 0, 1])]));
                count += 1;
                // And again what that gave
                for _ in 0..r.usize(0, 2) {
                    let m = map(&mut r);
                    ops.push(json!(["tokenize", count, m[0], m[1], *r.pick(&[0, 0, 1, 2])]));
                    count += 1;
                }
                break;
            }
        }
        res.push(json!({"kind": "tagged", "k": k, "emb": emb, "tt": tt, "toks": toks_json(&ts), "ops": ops}));
    }
    // Tags within tags within tags
    for i in 0..if deep { 60 } else { 12 } {
        let k   = 2;
        let ts  = token_set(&mut r, k, 3, 2, 60);
        let len = r.usize(1, 12);
        let w: Vec<usize> = (0..len).map(|_| r.usize(0, k - 1)).collect();
        let mut ops = vec![json!(["new", w, *r.pick(READERS)])];
        let mut s = T(vec![None; len]);
        for n in 0..*r.pick(&[9, 17, 33, 70]) {
            let len = s.0.len();
            let at  = s.0.iter().position(|x| x.is_some()).unwrap_or(0);
            let a   = if r.chance(1, 3) { r.usize(0, at) } else { at };
            let z   = if r.chance(1, 3) { r.usize((at + 1).min(len), len) } else { (at + 1).min(len) };
            let t   = [(a, z, n % 2)];
            if i % 2 == 0 { ops.push(json!(["tag", 1, n % 2, a, z])); } else { ops.push(json!(["with", n + 1, t])); }
            s = apply(&s, &t);
        }
        // Down again, a part of the way
        let n = if i % 2 == 0 { 1 } else { ops.len() };
        ops.push(json!(["copy", n]));
        let mut at = if i % 2 == 0 { 2 } else { n + 1 };
        for _ in 0..r.usize(1, 5) {
            let p = match s.0.iter().position(|x| x.is_some()) { Some(p) => p, None => break };
            ops.push(json!(["inner", at, p]));
            at = at + 1;
            let next = s.0[p].clone().unwrap();
            s = next;
        }
        if tokens { ops.push(json!(["tokenize", n, [1, 0], [0, 1], 0])); }
        res.push(json!({"kind": "tagged", "k": k, "emb": pick_embedding(&mut r, k), "tt": "u32", "toks": toks_json(&ts), "ops": ops}));
    }
    res
}
