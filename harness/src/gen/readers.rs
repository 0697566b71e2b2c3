//! Cases about readers
use serde_json::{json, Value};
use crate::gen::pat::{char_embedding, pick_embedding};
use crate::rng::Rand;

fn layers(r: &mut Rand, k: usize, ends: bool, max: usize) -> Vec<Value> {
    (0..r.usize(0, max)).map(|_| {
        // A reader is only read ahead through one half if it ends once
        let ahead = if ends { 0 } else { r.usize(0, 6) };
        match r.below(12) {
            0..=3 => json!(["map", r.usize(0, k - 1), r.usize(0, k - 1)]),
            4     => json!(["filter", r.usize(2, 4)]),
            5     => json!(["eager", *r.pick(&["vec", "tagged"])]),
            6     => json!(["pass", "box", 0]),
            7..=8 => json!(["pass", "tape", 0]),
            9     => json!(["pass", "left", ahead]),
            10    => json!(["pass", "right", ahead]),
            _     => json!(["pass", "alone", ahead])
        }
    }).collect()
}

fn script(r: &mut Rand, k: usize, n: usize, ends: bool, interrupted: bool) -> Vec<i64> {
    (0..n).map(|_| if ends && r.chance(1, 8) { -1 } else if interrupted && r.chance(1, 5) { -2 } else { r.usize(0, k - 1) as i64 }).collect()
}

pub fn generate(seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, "C20");
    let mut res = vec![];
    let scale   = if deep { 15 } else { 1 };
    for i in 0..4000 * scale {
        let src  = *r.pick(&["script", "script", "script", "vec", "slice", "filter", "tagged", "str", "bytes", "bytes", "bytesnew", "bytesref", "bytesdyn", "bytesbuf", "bytesbuf", "unboxed"]);
        let k    = *r.pick(if src.starts_with("bytes") { &[1, 3, 60, 256, 256] } else { &[1, 2, 3, 3, 5, 8, 60][..] });
        let open = src == "script" || src.starts_with("bytes");
        let ends = open && r.chance(1, 2);
        let n    = if i % 30 == 0 { r.usize(20, 200) } else { r.usize(0, 14) };
        let w    = script(&mut r, k, n, ends, src.starts_with("bytes"));
        let ls   = if src == "unboxed" {
            r.pick(&[json!([]), json!([["map", 1, 0]]), json!([["pass", "tape", 0]]), json!([["map", 1, 0], ["map", 1, 0]]), json!([["map", 1, 0], ["pass", "tape", 0]]),
                     json!([["pass", "tape", 0], ["map", 1, 0]]), json!([["pass", "tape", 0], ["pass", "left", 0]]), json!([["map", 1, 0], ["pass", "right", 0]])]).clone()
        } else { json!(layers(&mut r, k, ends, 5)) };
        let mut ops = vec![];
        let style = r.below(4);
        for _ in 0..n + 3 {
            if style == 1 || (style == 2 && r.chance(1, 6)) { ops.push("v"); if style == 1 { break; } } else { ops.push("n"); }
        }
        for _ in 0..r.usize(1, 4) { ops.push(*r.pick(&["n", "n", "v"])); }
        let sizes: Vec<usize> = (0..r.usize(1, 4)).map(|_| *r.pick(&[1, 1, 2, 3, 4, 7, 30])).collect();
        let emb = if src == "str" { char_embedding(&mut r) } else { pick_embedding(&mut r, k) };
        res.push(json!({"kind": "readers", "k": k, "emb": emb, "src": src, "script": w, "chunks": sizes, "errors": r.usize(0, 20), "layers": ls, "ops": ops}));
    }
    // Long ones, all read at once after the first few
    for n in super::large::LENGTHS {
        for src in ["script", "vec", "slice", "filter", "tagged", "str", "bytes", "bytesbuf", "unboxed"] {
            if *n > 5000 && !deep && !r.chance(1, 4) { continue; }
            let k    = r.usize(2, 5);
            let open = src == "script" || src.starts_with("bytes");
            let mut w = script(&mut r, k, *n, false, false);
            let ends = open && r.chance(1, 2);
            if ends { let at = r.usize(0, *n); w.insert(at, -1); }
            let ls = if src == "unboxed" { r.pick(&[json!([]), json!([["map", 1, 0], ["pass", "tape", 0]]), json!([["pass", "tape", 0], ["pass", "left", 0]]), json!([["map", 1, 0], ["pass", "right", 0]])]).clone() } else { json!(layers(&mut r, k, ends, 2)) };
            let mut ops = vec!["n"; r.usize(0, 3)];
            for _ in 0..r.usize(1, 3) { ops.push("v"); ops.push("n"); }
            let sizes: Vec<usize> = (0..r.usize(1, 4)).map(|_| *r.pick(&[1, 7, 1000, 4096, 8192, 10000])).collect();
            let emb = if src == "str" { char_embedding(&mut r) } else { pick_embedding(&mut r, k) };
            res.push(json!({"kind": "readers", "k": k, "emb": emb, "src": src, "script": w, "chunks": sizes, "errors": 0, "layers": ls, "ops": ops}));
        }
    }
    res
}
