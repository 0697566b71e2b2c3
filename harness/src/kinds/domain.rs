//! The neighbours of symbols (C21)
use concordance::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

const NONE: i128 = 1 << 30;

/// Runs of symbols with the same step
fn runs<F: Fn(i128) -> i128>(numbers: &[i128], from: i128, step: F) -> Vec<Vec<i64>> {
    let mut res: Vec<Vec<i64>> = vec![];
    let mut last = None;
    for x in numbers {
        let d = catch_unwind(AssertUnwindSafe(|| step(*x))).unwrap_or(NONE).max(-NONE).min(NONE);
        let o = (x - from) as i64;
        // A run doesn't go over a gap
        match res.last_mut() {
            Some(ref mut r) if last == Some(x - 1) && r[2] == d as i64 => r[1] = o,
            _ => res.push(vec![o, o, d as i64])
        }
        last = Some(*x);
    }
    res
}

pub fn domain(case: &Value) -> Value {
    let n = case["n"].as_u64().unwrap() as i128;
    let at = case["at"].as_str().unwrap();
    macro_rules! ints { ($t:ty) => {{
        let (min, max) = (<$t>::MIN as i128, <$t>::MAX as i128);
        let from = match at { "min" | "all" => min, "max" => max - n, _ => case["from"].as_str().unwrap().parse::<i128>().unwrap() };
        let all: Vec<i128> = (from..from + n + 1).collect();
        let ups: Vec<i128> = all.iter().cloned().filter(|x| *x < max).collect();
        let downs: Vec<i128> = all.iter().cloned().filter(|x| *x > min).collect();
        json!({"up": runs(&ups, from, |x| Countable::next(&(x as $t)) as i128 - x), "down": runs(&downs, from, |x| x - Countable::prev(&(x as $t)) as i128)})
    }} }
    match case["type"].as_str().unwrap() {
        "u8" => ints!(u8), "u16" => ints!(u16), "u32" => ints!(u32), "u64" => ints!(u64), "usize" => ints!(usize),
        "i8" => ints!(i8), "i16" => ints!(i16), "i32" => ints!(i32), "i64" => ints!(i64), "isize" => ints!(isize),
        "char" => {
            let all: Vec<i128> = (0..0x110000).filter(|x| std::char::from_u32(*x).is_some()).map(|x| x as i128).collect();
            let c = |x: i128| std::char::from_u32(x as u32).unwrap();
            json!({"up": runs(&all[..all.len() - 1], 0, |x| Countable::next(&c(x)) as u32 as i128 - x), "down": runs(&all[1..], 0, |x| x - Countable::prev(&c(x)) as u32 as i128)})
        }
        other => panic!("unknown type {}", other)
    }
}
