//! Matchers given by tables, to be driven over words
use serde_json::{json, Value};
use crate::rng::Rand;

const READERS: &[&str] = &["own", "carry", "box", "quiet"];

/// An answer: mostly (of `more` in 100) to carry on
fn action(r: &mut Rand, n: usize, more: u64) -> Value {
    if r.below(100) < more { return json!(["m", r.usize(0, n - 1)]); }
    if r.chance(1, 3) { return json!(["r"]); }
    json!(["a", if r.chance(1, 4) { r.usize(0, 1_000_000) } else { r.usize(0, 9) }, r.usize(0, 3)])
}

fn matcher(r: &mut Rand, k: usize, n: usize, more: u64) -> Value {
    let start = if r.chance(1, 12) { action(r, n, 0) } else { json!(["m", r.usize(0, n - 1)]) };
    let nx: Vec<Vec<Value>> = (0..n).map(|_| (0..k).map(|_| action(r, n, more)).collect()).collect();
    let fin: Vec<Value> = (0..n).map(|_| action(r, n, 0)).collect();
    json!({"start": start, "nx": nx, "fin": fin})
}

pub fn generate(seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, "C25");
    let mut res = vec![];
    for i in 0..if deep { 20000 } else { 2000 } {
        let k    = r.usize(1, 5);
        let n    = r.usize(1, 9);
        let more = *r.pick(&[50, 80, 95, 100]);
        let m    = matcher(&mut r, k, n, more);
        let runs: Vec<Value> = (0..r.usize(1, 6)).map(|_| {
            let len = match i % 3 { 0 => r.usize(0, 3), 1 => r.usize(0, 12), _ => r.usize(0, 40) };
            json!([(0..len).map(|_| r.usize(0, k - 1)).collect::<Vec<_>>(), r.pick(READERS)])
        }).collect();
        res.push(json!({"kind": "drive", "k": k, "m": m, "runs": runs}));
    }
    // A long way
    for (i, len) in [300, 1030, 5000, 70000].iter().enumerate() {
        let m = matcher(&mut r, 3, 4, 100);
        let w: Vec<usize> = (0..*len).map(|_| r.usize(0, 2)).collect();
        res.push(json!({"kind": "drive", "k": 3, "m": m, "runs": [[w, READERS[(i + 2) % 4]]]}));
    }
    res
}
