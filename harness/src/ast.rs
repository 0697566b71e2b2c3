//! Abstract patterns, their JSON form, and their translation to the library's patterns.
use concordance::*;
use serde_json::{json, Value};
use crate::rng::Rand;
use crate::sym::Sym;

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Eps,
    Lit(Vec<usize>),
    Rng(usize, usize),
    Inf(u32, Box<P>),
    Rep(u32, u32, Box<P>),
    All(Vec<P>),
    Any(Vec<P>),
}
use P::*;

impl P {
    pub fn json(&self) -> Value {
        match self {
            Eps          => json!({"t": "eps"}),
            Lit(s)       => json!({"t": "lit", "s": s}),
            Rng(a, b)    => json!({"t": "rng", "a": a, "b": b}),
            Inf(n, p)    => json!({"t": "inf", "n": n, "p": p.json()}),
            Rep(m, n, p) => json!({"t": "rep", "m": m, "n": n, "p": p.json()}),
            All(ps)      => json!({"t": "all", "ps": ps.iter().map(|p| p.json()).collect::<Vec<_>>()}),
            Any(ps)      => json!({"t": "any", "ps": ps.iter().map(|p| p.json()).collect::<Vec<_>>()}),
        }
    }

    pub fn parse(v: &Value) -> P {
        let u = |f: &str| v[f].as_u64().unwrap();
        match v["t"].as_str().unwrap() {
            "eps" => Eps,
            "lit" => Lit(idx_list(&v["s"])),
            "rng" => Rng(u("a") as usize, u("b") as usize),
            "inf" => Inf(u("n") as u32, Box::new(P::parse(&v["p"]))),
            "rep" => Rep(u("m") as u32, u("n") as u32, Box::new(P::parse(&v["p"]))),
            "all" => All(v["ps"].as_array().unwrap().iter().map(P::parse).collect()),
            "any" => Any(v["ps"].as_array().unwrap().iter().map(P::parse).collect()),
            t     => panic!("unknown pattern {}", t),
        }
    }

    /// The library's pattern for this one
    pub fn to_real<S: Sym>(&self, e: &[S]) -> Pattern<S> {
        match self {
            Eps          => Epsilon,
            Lit(s)       => Match(s.iter().map(|i| e[*i].clone()).collect()),
            Rng(a, b)    => MatchRange(e[*a].clone(), e[*b].clone()),
            Inf(n, p)    => RepeatInfinite(*n, Box::new(p.to_real(e))),
            Rep(m, n, p) => Repeat(*m..*n, Box::new(p.to_real(e))),
            All(ps)      => MatchAll(ps.iter().map(|p| p.to_real(e)).collect()),
            Any(ps)      => MatchAny(ps.iter().map(|p| p.to_real(e)).collect()),
        }
    }

    /// Number of states (roughly) that compiling this pattern needs
    pub fn cost(&self) -> u64 {
        match self {
            Eps          => 0,
            Lit(s)       => s.len() as u64,
            Rng(_, _)    => 1,
            Inf(n, p)    => 1 + (*n as u64 + 2) * p.cost(),
            Rep(_, n, p) => 1 + (*n as u64) * p.cost(),
            All(ps)      => ps.iter().map(|p| p.cost()).sum(),
            Any(ps)      => 1 + ps.iter().map(|p| p.cost()).sum::<u64>(),
        }
    }
}

pub fn idx_list(v: &Value) -> Vec<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() }

/// A random pattern over k symbols
pub fn random(r: &mut Rand, k: usize, depth: usize) -> P {
    let leaf = depth == 0 || r.chance(1, 5);
    if leaf {
        match r.below(12) {
            0       => Eps,
            1       => Lit(vec![]),
            2..=5   => { let n = r.usize(1, 3); Lit((0..n).map(|_| r.usize(0, k - 1)).collect()) }
            6       => { let n = r.usize(3, 6); Lit((0..n).map(|_| r.usize(0, k - 1)).collect()) }
            7       => Rng(0, k - 1),
            _       => { let a = r.usize(0, k - 1); let b = r.usize(a, k - 1); Rng(a, b) }
        }
    } else {
        match r.below(10) {
            0..=1 => Inf(*r.pick(&[0, 0, 0, 1, 1, 2, 3]), Box::new(random(r, k, depth - 1))),
            2..=3 => {
                let m = *r.pick(&[0, 0, 1, 1, 2, 3]);
                let n = if r.chance(1, 12) { r.below(m as u64 + 1) as u32 } else { m + *r.pick(&[1, 1, 2, 3]) };
                Rep(m, n, Box::new(random(r, k, depth - 1)))
            }
            4..=6 => { let n = *r.pick(&[0, 1, 2, 2, 2, 3, 3, 4]); All((0..n).map(|_| random(r, k, depth - 1)).collect()) }
            _     => { let n = *r.pick(&[0, 1, 2, 2, 2, 3, 3, 4]); Any((0..n).map(|_| random(r, k, depth - 1)).collect()) }
        }
    }
}

pub fn random_bounded(r: &mut Rand, k: usize, max_depth: usize, max_cost: u64) -> P {
    loop {
        let depth = r.usize(0, max_depth);
        let p = random(r, k, depth);
        if p.cost() <= max_cost { return p; }
    }
}

/// A word that is likely to be close to the pattern's language: follow the pattern, sometimes making a mistake
pub fn sample(p: &P, r: &mut Rand, k: usize, out: &mut Vec<usize>, limit: usize) {
    if out.len() >= limit { return; }
    match p {
        Eps => {}
        Lit(s) => out.extend(s.iter().cloned()),
        Rng(a, b) => out.push(r.usize(*a, *b)),
        Inf(n, p) => { let t = *n as u64 + r.below(4); for _ in 0..t { sample(p, r, k, out, limit); if out.len() >= limit { break; } } }
        Rep(m, n, p) => {
            if m < n { let t = r.range(*m as i64, *n as i64 - 1); for _ in 0..t { sample(p, r, k, out, limit); if out.len() >= limit { break; } } }
        }
        All(ps) => for p in ps { sample(p, r, k, out, limit); },
        Any(ps) => if !ps.is_empty() { let i = r.below(ps.len() as u64) as usize; sample(&ps[i], r, k, out, limit); },
    }
}

/// A word near the language of one of the patterns
pub fn word_near(ps: &[&P], r: &mut Rand, k: usize, limit: usize) -> Vec<usize> {
    let mut w = vec![];
    let n = r.usize(1, 3);
    for _ in 0..n {
        if ps.is_empty() { break; }
        let p = *r.pick(ps);
        sample(p, r, k, &mut w, limit);
    }
    if r.chance(1, 2) && !w.is_empty() { let i = r.usize(0, w.len() - 1); w[i] = r.usize(0, k - 1); }
    if r.chance(1, 4) && !w.is_empty() { let i = r.usize(0, w.len() - 1); w.remove(i); }
    if r.chance(1, 3) { w.push(r.usize(0, k - 1)); }
    w.truncate(limit);
    w
}

/// Every word over k symbols up to a length
pub fn all_words(k: usize, max: usize) -> Vec<Vec<usize>> {
    let mut res: Vec<Vec<usize>> = vec![vec![]];
    let mut last = res.clone();
    for _ in 0..max {
        let mut next = vec![];
        for w in &last { for s in 0..k { let mut v = w.clone(); v.push(s); next.push(v); } }
        res.extend(next.iter().cloned());
        last = next;
    }
    res
}

/// Number of states that a deterministic automaton for these patterns needs, or None if it's over a limit. Only used to avoid making cases
/// that are too big to check.
pub fn dfa_size(ps: &[&P], k: usize, limit: usize) -> Option<usize> {
    struct N { eps: Vec<Vec<usize>>, mv: Vec<Vec<(usize, usize, usize)>> }
    fn new(n: &mut N) -> usize { n.eps.push(vec![]); n.mv.push(vec![]); n.eps.len() - 1 }
    fn build(p: &P, n: &mut N, from: usize) -> usize {
        match p {
            Eps       => from,
            Lit(s)    => { let mut c = from; for x in s { let t = new(n); n.mv[c].push((*x, *x, t)); c = t; } c }
            Rng(a, b) => { let t = new(n); n.mv[from].push((*a, *b, t)); t }
            All(ps)   => { let mut c = from; for p in ps { c = build(p, n, c); } c }
            Any(ps)   => { let t = new(n); for p in ps { let s = new(n); n.eps[from].push(s); let f = build(p, n, s); n.eps[f].push(t); } t }
            Inf(m, p) => {
                let mut c = from;
                for _ in 0..*m { c = build(p, n, c); }
                let s = new(n); n.eps[c].push(s);
                let f = build(p, n, s); n.eps[f].push(s);
                let t = new(n); n.eps[s].push(t);
                t
            }
            Rep(lo, hi, p) => {
                let t = new(n);
                let mut c = from;
                for i in 0..*hi { if i >= *lo { n.eps[c].push(t); } let s = new(n); n.eps[c].push(s); c = build(p, n, s); }
                t
            }
        }
    }
    let mut n = N { eps: vec![], mv: vec![] };
    let start = new(&mut n);
    for p in ps { let s = new(&mut n); n.eps[start].push(s); build(p, &mut n, s); if n.eps.len() > 50000 { return None; } }
    let close = |v: Vec<usize>| -> Vec<usize> {
        let mut seen = std::collections::BTreeSet::new();
        let mut st = v;
        while let Some(x) = st.pop() { if seen.insert(x) { st.extend(n.eps[x].iter().cloned()); } }
        seen.into_iter().filter(|x| !n.mv[*x].is_empty() || n.eps[*x].is_empty()).collect()
    };
    let mut known = std::collections::HashSet::new();
    let first = close(vec![start]);
    known.insert(first.clone());
    let mut todo = vec![first];
    let mut work = 0usize;
    while let Some(s) = todo.pop() {
        work += s.len();
        if work > limit * 60 { return None; }
        for x in 0..k {
            let t: Vec<usize> = s.iter().flat_map(|q| n.mv[*q].iter().filter(|m| m.0 <= x && x <= m.1).map(|m| m.2)).collect();
            if t.is_empty() { continue; }
            let t = close(t);
            if known.insert(t.clone()) { if known.len() > limit { return None; } todo.push(t); }
        }
    }
    Some(known.len())
}
