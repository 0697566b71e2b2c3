//! Cases about running automata (C16)
use serde_json::{json, Value};
use crate::rng::Rand;
use super::pat::{pick_embedding, type_and_embedding};

pub fn generate(seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, "C16");
    let mut res = vec![];
    let scale   = if deep { 15 } else { 1 };
    for i in 0..3000 * scale {
        let big    = i % 20 == 0;
        let k      = if big { r.usize(20, 200) } else { r.usize(1, 8) };
        let states = if big { r.usize(5, 40) } else { r.usize(1, 6) };
        let accepting = r.usize(1, 5);
        let b: Vec<Value> = (0..states).map(|_| {
            let mut tr: Vec<Value> = vec![];
            let mut at = 0;
            let few = r.usize(1, states);
            let gaps = r.below(3);
            while at < k {
                let n = if r.chance(1, 2) { 1 } else { r.usize(1, if big { 20 } else { 4 }) };
                let z = (at + n - 1).min(k - 1);
                // Neighbours often go to the same state
                if !r.chance(gaps, 5) {
                    let t = if !tr.is_empty() && r.chance(1, 3) { tr[tr.len() - 1][2].as_u64().unwrap() as usize } else { r.usize(0, few - 1) };
                    tr.push(json!([at, z, t]));
                }
                at = z + 1;
            }
            json!({"out": if r.below(6) < accepting as u64 { r.range(0, 3) } else { -1 }, "tr": tr})
        }).collect();
        let mut ops = vec![json!(["b"])];
        let mut runs = 1;
        let count = if big { r.usize(10, 80) } else { r.usize(1, 24) };
        let focus = r.chance(1, 2);
        for _ in 0..count {
            let h = if focus { runs } else { r.usize(1, runs) };
            match r.below(16) {
                0      => ops.push(json!(["f", h])),
                1 | 2  => { ops.push(json!(["c", h])); runs += 1; }
                3      => { ops.push(json!(["b"])); runs += 1; }
                4      => { let n = r.usize(0, 6); ops.push(json!(["p", h, (0..n).map(|_| r.usize(0, k - 1)).collect::<Vec<_>>()])); }
                _      => ops.push(json!(["s", h, r.usize(0, k - 1)]))
            }
        }
        for h in 1..runs + 1 { ops.push(json!([if r.chance(1, 3) { "p" } else { "f" }, h, []])); }
        let (tt, emb) = type_and_embedding(&mut r, k);
        res.push(json!({"kind": "run", "k": k, "tt": tt, "emb": emb, "via": *r.pick(&["plain", "plain", "plain", "clone", "json", "bin", "prep"]), "acc": r.usize(0, 4), "b": b, "ops": ops}));
    }
    // Long words, and states that move on very many symbols
    for n in super::large::LENGTHS {
        for via in &["plain", "json"] {
            let b = json!([{"out": r.range(-1, 1), "tr": [[0, 0, 1], [1, 1, 0]]}, {"out": r.range(0, 2), "tr": [[0, 1, r.usize(0, 1)]]}, {"out": -1, "tr": []}]);
            let w: Vec<usize> = (0..*n).map(|_| r.usize(0, 1)).collect();
            res.push(json!({"kind": "run", "k": 3, "tt": "u32", "emb": pick_embedding(&mut r, 3), "via": via, "acc": 0, "b": b, "ops": [["b"], ["s", 1, 0], ["c", 1], ["p", 1, w], ["s", 2, 1], ["p", 2, w]]}));
        }
    }
    for i in 0..if deep { 200 } else { 24 } {
        let k = *r.pick(&[9, 16, 17, 33, 65, 130, 256, 257, 300, 600]);
        let states = if i % 6 == 0 { 300 } else { r.usize(2, 30) };
        let b: Vec<Value> = (0..states).map(|d| {
            let tr: Vec<Value> = (0..k).filter(|_| d < 4 || r.chance(1, 20)).collect::<Vec<_>>().into_iter().map(|x| json!([x, x, r.usize(0, states - 1)])).collect();
            json!({"out": r.range(-1, 3), "tr": tr})
        }).collect();
        let mut ops = vec![];
        for n in 0..40 {
            ops.push(json!(["b"]));
            ops.push(json!(["s", n + 1, r.usize(0, k - 1)]));
            let w: Vec<usize> = (0..r.usize(0, 3)).map(|_| r.usize(0, k - 1)).collect();
            ops.push(json!(["p", n + 1, w]));
        }
        res.push(json!({"kind": "run", "k": k, "tt": "u32", "emb": pick_embedding(&mut r, k), "via": *r.pick(&["plain", "clone", "json", "bin", "prep"]), "acc": r.usize(0, k), "b": b, "ops": ops}));
    }
    res
}
