//! Ranges of symbols (C22)
use concordance::*;
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::panic::catch_unwind;
use crate::with_embedding;

fn num(o: Ordering) -> i64 { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }

fn ask<S: Ord + Clone + Debug + 'static>(case: &Value, e: Vec<S>) -> Value {
    let e: &'static Vec<S> = Box::leak(Box::new(e));
    let at = |s: &S| e.iter().position(|x| x == s).map(|i| i as i64).unwrap_or(-1);
    let range = |v: &Value| SymbolRange::new(e[v[0].as_u64().unwrap() as usize].clone(), e[v[1].as_u64().unwrap() as usize].clone());
    let show = |r: &SymbolRange<S>| vec![at(&r.lowest), at(&r.highest)];
    let mut made = vec![];
    let limit = e.len().min(12);
    for a in 0..limit { for z in 0..limit {
        let (x, y) = (std::panic::AssertUnwindSafe(e[a].clone()), std::panic::AssertUnwindSafe(e[z].clone()));
        let r = catch_unwind(move || { let (x, y) = (x, y); SymbolRange::new(x.0, y.0); });
        if r.is_ok() { made.push(vec![a, z]); }
    } }
    let pairs = case["pairs"].as_array().unwrap();
    let mut sorted: Vec<SymbolRange<S>> = pairs.iter().map(|p| range(&p[0])).collect();
    sorted.sort();
    let ev: Vec<Value> = pairs.iter().map(|p| {
        let (r, q) = (range(&p[0]), range(&p[1]));
        json!({
            "lo": at(&r.lowest), "hi": at(&r.highest),
            "inc": e.iter().enumerate().filter(|x| r.includes(x.1)).map(|x| x.0).collect::<Vec<_>>(),
            "ov": r.overlaps(&q), "join": show(&r.join(&q)), "cmp": num(r.cmp(&q)), "pcmp": r.partial_cmp(&q).map(num).unwrap_or(-9),
            "rel": [r < q, r <= q, r > q, r >= q, r == q, r != q],
            "mm": [show(&std::cmp::min(r.clone(), q.clone())), show(&std::cmp::max(r.clone(), q.clone()))]
        })
    }).collect();
    json!({"ev": ev, "made": made, "sorted": sorted.iter().map(|r| show(r)).collect::<Vec<_>>()})
}

pub fn interval(case: &Value) -> Value {
    let k = case["k"].as_u64().unwrap() as usize;
    match case["emb"].as_str().unwrap() {
        // Types that are ordered, but can't be counted
        "string"  => ask(case, (0..k).map(|i| format!("{}{}", (b'a' + (i / 9) as u8) as char, "z".repeat(i % 9))).collect::<Vec<String>>()),
        "pair"    => ask(case, (0..k).map(|i| ((i / 3) as i32 - 2, 5 * (i % 3) as i64)).collect::<Vec<(i32, i64)>>()),
        "reverse" => ask(case, (0..k).map(|i| std::cmp::Reverse(1000 - i as i32)).collect::<Vec<_>>()),
        "option"  => ask(case, (0..k).map(|i| if i == 0 { None } else { Some(i as u8) }).collect::<Vec<Option<u8>>>()),
        "vec"     => ask(case, (0..k).map(|i| vec![0u8; i]).collect::<Vec<Vec<u8>>>()),
        "range"   => ask(case, { let mut v: Vec<SymbolRange<u8>> = (0..k).map(|i| SymbolRange::new((i / 2) as u8, (i / 2 + i % 2) as u8)).collect(); v.sort(); v }),
        emb       => with_embedding!(emb, k, e, ask(case, e))
    }
}
