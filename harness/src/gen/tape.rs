//! Cases about tapes
use serde_json::{json, Value};
use crate::rng::Rand;

/// Random operations, steered so that rewinds mostly stay on the tape but often just reach, or just miss, the cut
fn ops(r: &mut Rand, n: usize, count: usize, chunk: usize) -> Vec<Value> {
    let (mut pos, mut lo, mut hi) = (0usize, 0usize, 0usize);
    let mut res = vec![];
    let style = r.below(4);
    for _ in 0..count {
        match r.below(20) {
            0..=9   => { let c = if r.chance(1, 2) { 1 } else { r.usize(0, chunk) }; pos = (pos + c).min(n); hi = hi.max(pos); res.push(json!(["n", c])); }
            10..=13 => {
                let back = pos - lo;
                let k = match r.below(8) { 0 => back, 1 => back + 1, 2 => r.usize(0, back + 6), 3 => 0, 4 => back + r.usize(1, 9), _ => r.usize(0, back) };
                if k <= back { pos -= k; }
                res.push(json!(["r", k]));
            }
            14..=15 => { if style > 0 { lo = pos; res.push(json!(["c", 0])); } }
            16      => { if hi < 300 && style == 2 { res.push(json!(["z", 0])); } }
            17      => { pos = hi; let c = hi - pos + r.usize(0, 2); res.push(json!(["n", c])); pos = (pos + c).min(n); hi = hi.max(pos); }
            _       => { let c = 1; pos = (pos + c).min(n); hi = hi.max(pos); res.push(json!(["n", c])); }
        }
    }
    res.push(json!(["r", pos - lo]));
    res.push(json!(["n", n + 3 - lo]));
    res
}

const TYPES_OF_TAPE: &[&str] = &["usize", "string", "char", "unord"];

pub fn generate(prop: &str, seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, prop);
    let mut res = vec![];
    let scale   = if deep { 10 } else { 1 };
    for i in 0..1500 * scale {
        let n     = *r.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 30, 31, 33, 70]);
        let count = r.usize(2, 60);
        let o     = ops(&mut r, n, count, 6);
        res.push(json!({"kind": "tape", "type": TYPES_OF_TAPE[i % 4], "n": n, "ops": o}));
    }
    // Long tapes: the buffer grows many times
    for i in 0..60 * scale {
        let n     = r.usize(100, if i % 10 == 0 { 20000 } else { 3000 });
        let count = r.usize(10, 120);
        let chunk = n / 8;
        let o     = ops(&mut r, n, count, chunk);
        res.push(json!({"kind": "tape", "type": TYPES_OF_TAPE[i % 4], "n": n, "ops": o}));
    }
    // As a tokenizer would: looks far ahead, goes back to shortly after where it was and cuts, moves on in small steps, for a long time
    for i in 0..500 * scale {
        let far   = *r.pick(&[3, 5, 8, 16, 17, 31, 40, 64, 130, 300]);
        let n     = if i % 25 == 0 { r.usize(60000, 140000) } else { r.usize(far, 12 * far + 40) };
        let far   = if n > 50000 { n / 5 } else { far };
        let mut t = vec![];
        let (mut pos, mut lo) = (0usize, 0usize);
        let read = |t: &mut Vec<Value>, pos: &mut usize, c: usize| { t.push(json!(["n", c])); *pos = (*pos + c).min(n); };
        for _ in 0..r.usize(3, 40) {
            let ahead = match r.below(4) { 0 => r.usize(0, far), 1 => far / 2 + r.usize(0, 3), _ => r.usize(0, 3) };
            read(&mut t, &mut pos, ahead);
            let back = pos - lo;
            let k = match r.below(5) { 0 => back, 1 => back.saturating_sub(r.usize(0, 3)), 2 => r.usize(0, back.min(3)), _ => 0 };
            if k > 0 { t.push(json!(["r", k])); pos -= k; }
            if r.chance(1, 3) { let c = r.usize(0, 5); read(&mut t, &mut pos, c); }
            if r.chance(2, 3) { t.push(json!(["c", 0])); lo = pos; }
            if i % 9 == 0 && r.chance(1, 10) { t.push(json!(["z", 0])); }
        }
        t.push(json!(["r", pos - lo]));
        t.push(json!(["n", n + 2 - lo]));
        res.push(json!({"kind": "tape", "type": TYPES_OF_TAPE[i % 4], "n": n, "ops": t}));
    }
    res
}
