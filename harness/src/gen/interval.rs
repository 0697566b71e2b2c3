//! Cases about ranges
use serde_json::{json, Value};
use crate::rng::Rand;
use crate::sym::EMBEDDINGS;

pub fn generate(seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, "C22");
    let mut res = vec![];
    let all: Vec<&str> = EMBEDDINGS.iter().map(|e| e.0).chain(["string", "pair", "reverse", "option", "vec", "range"].iter().cloned()).collect();
    for emb in all {
        // Every pair of ranges over a few symbols
        for k in 1..if deep { 8 } else { 6 } {
            let rs: Vec<(usize, usize)> = (0..k).flat_map(|a| (a..k).map(move |z| (a, z))).collect();
            let pairs: Vec<Value> = rs.iter().flat_map(|a| rs.iter().map(move |b| json!([[a.0, a.1], [b.0, b.1]]))).collect();
            res.push(json!({"kind": "interval", "k": k, "emb": emb, "pairs": pairs}));
        }
        // And some over more
        for _ in 0..if deep { 20 } else { 2 } {
            let k = r.usize(6, 32);
            let mut range = |near: Option<(usize, usize)>| -> (usize, usize) {
                let p = |r: &mut Rand| match near { Some(n) if r.chance(1, 2) => { let x = *r.pick(&[n.0, n.1]); (x + r.usize(0, 2)).saturating_sub(1).min(k - 1) } _ => r.usize(0, k - 1) };
                let (a, b) = (p(&mut r), p(&mut r));
                (a.min(b), a.max(b))
            };
            let pairs: Vec<Value> = (0..60).map(|_| { let a = range(None); let b = range(Some(a)); json!([[a.0, a.1], [b.0, b.1]]) }).collect();
            res.push(json!({"kind": "interval", "k": k, "emb": emb, "pairs": pairs}));
        }
    }
    res
}
