//! Pipelines of symbol readers (C20)
use concordance::*;
use concordance::TagSymbol::*;
use serde_json::{json, Value};
use std::cell::Cell;
use std::io::{BufReader, Error, ErrorKind, Read};
use std::rc::Rc;
use crate::sym::Sym;
use crate::with_embedding;

type Dyn<S> = Box<dyn SymbolReader<S>>;

/// Answers requests with the script, and counts the symbols
struct Scripted<S> { script: Vec<Option<S>>, at: usize, given: Rc<Cell<i64>> }
impl<S: Clone> SymbolReader<S> for Scripted<S> {
    fn next_symbol(&mut self) -> Option<S> {
        let r = self.script.get(self.at).cloned().unwrap_or(None);
        self.at += 1;
        if r.is_some() { self.given.set(self.given.get() + 1); }
        r
    }
}

/// A byte stream: bytes come in chunks, between interruptions and errors
struct Chunks { events: Vec<(Vec<u8>, i64)>, given: Rc<Cell<i64>>, errors: usize }

const ERRORS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe, ErrorKind::InvalidData, ErrorKind::InvalidInput,
    ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable, ErrorKind::AlreadyExists, ErrorKind::WriteZero, ErrorKind::OutOfMemory, ErrorKind::Unsupported];

impl Read for Chunks {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() || self.events.is_empty() { return Ok(0); }
        if self.events[0].0.is_empty() {
            return match self.events.remove(0).1 {
                -2 => Err(Error::new(ErrorKind::Interrupted, "interrupted")),
                -1 => { self.errors += 1; let kind = ERRORS[self.errors % ERRORS.len()]; Err(if self.errors % 2 == 0 { Error::new(kind, "broken") } else { Error::from(kind) }) }
                _  => Ok(0)
            };
        }
        let chunk = &mut self.events[0].0;
        let n = buf.len().min(chunk.len());
        for (i, b) in chunk.drain(..n).enumerate() { buf[i] = b; }
        if chunk.is_empty() { self.events.remove(0); }
        self.given.set(self.given.get() + n as i64);
        Ok(n)
    }
}

/// The script as chunks: their sizes go round through a list, and an end is an error or a read of nothing
fn chunks(script: &[i64], sizes: &[usize], given: Rc<Cell<i64>>, errors: usize) -> Chunks {
    let mut events: Vec<(Vec<u8>, i64)> = vec![];
    let mut left = 0;
    let mut n = 0;
    for x in script {
        if *x >= 0 {
            if left == 0 { left = sizes[n % sizes.len()]; n += 1; events.push((vec![], 0)); }
            events.last_mut().unwrap().0.push(*x as u8);
            left -= 1;
        } else {
            left = 0;
            n += 1;
            events.push((vec![], if *x == -1 && sizes[n % sizes.len()] % 2 == 0 { 0 } else { *x }));
        }
    }
    Chunks { events, given, errors }
}

fn bytes(case: &Value, script: &[i64], given: Rc<Cell<i64>>) -> Dyn<u8> {
    let sizes: Vec<usize> = crate::ast::idx_list(&case["chunks"]);
    let source = chunks(script, &sizes, given, case["errors"].as_u64().unwrap_or(0) as usize);
    match case["src"].as_str().unwrap() {
        "bytes"    => Box::new(ByteSymbolReader::from(source)),
        "bytesnew" => Box::new(ByteSymbolReader::new(source.bytes())),
        "bytesref" => Box::new(ByteSymbolReader::from(Box::leak(Box::new(source)))),
        "bytesdyn" => { let b: Box<dyn Read> = Box::new(source); Box::new(ByteSymbolReader::from(b)) }
        "bytesbuf" => Box::new(ByteSymbolReader::from(BufReader::with_capacity(sizes[0] + 1, source))),
        other      => panic!("unknown source {}", other)
    }
}

fn source<S: Sym>(case: &Value, script: &[i64], e: &[S], given: Rc<Cell<i64>>) -> Dyn<S> {
    let w: Vec<S> = script.iter().filter(|x| **x >= 0).map(|x| e[*x as usize].clone()).collect();
    match case["src"].as_str().unwrap() {
        "script" => Box::new(Scripted { script: script.iter().filter(|x| **x > -2).map(|x| if *x >= 0 { Some(e[*x as usize].clone()) } else { None }).collect(), at: 0, given }),
        "vec"    => Box::new(VecReader::from_vec(w)),
        "slice"  => { let w: &'static Vec<S> = Box::leak(Box::new(w)); Box::new(w.read_symbols()) }
        "filter" => { let w: &'static Vec<S> = Box::leak(Box::new(w)); Box::new(w.iter().filter_map(|x| Some(x.clone()))) }
        "tagged" => { let t: &'static TaggedStream<S, u8> = Box::leak(Box::new(TaggedStream::from_reader(&mut VecReader::from_vec(w)))); Box::new(t.read_symbols().map_symbols(untag)) }
        other    => panic!("unknown source {}", other)
    }
}

fn untag<S: Sym>(x: TagSymbol<S, u8>) -> S { match x { Untagged(s) => s, Tagged(_, _) => panic!("a tag") } }

/// Puts a layer on
fn layer<S: Sym>(r: Dyn<S>, l: &Value, e: &'static [S]) -> Dyn<S> {
    let k   = e.len();
    let num = |i: usize| l[i].as_u64().unwrap() as usize;
    let at  = move |x: &S| e.iter().position(|y| y == x).unwrap();
    match l[0].as_str().unwrap() {
        "map"    => { let (c, step, mut n) = (num(1), num(2), 0); Box::new(r.map_symbols(move |x: S| { n += 1; (at(&x) + c + (n - 1) * step) % k }).map_symbols(move |i: usize| e[i].clone())) }
        "filter" => { let (m, mut r) = (num(1), r); Box::new(std::iter::from_fn(move || r.next_symbol()).filter_map(move |x| if at(&x) % m == 0 { None } else { Some(x) })) }
        "eager"  => {
            let mut r = r;
            match l[1].as_str().unwrap_or("vec") {
                "tagged" => { let t: &'static TaggedStream<S, u8> = Box::leak(Box::new(TaggedStream::from_reader(&mut *r))); Box::new(t.read_symbols().map_symbols(untag)) }
                _        => Box::new(VecReader::from_vec(r.to_vec()))
            }
        }
        "pass"   => match l[1].as_str().unwrap_or("box") {
            "box"   => Box::new(r),
            "tape"  => Box::new(Tape::new(r)),
            "left"  => { let (a, mut b) = Box::leak(Box::new(r)).split(); for _ in 0..num(2) { b.next_symbol(); } Box::new(Both(a, Some(b))) }
            "right" => { let (mut a, b) = Box::leak(Box::new(r)).split(); for _ in 0..num(2) { a.next_symbol(); } Box::new(Both(b, Some(a))) }
            "alone" => { let (mut a, b) = Box::leak(Box::new(r)).split(); for _ in 0..num(2) { a.next_symbol(); } drop(a); Box::new(b) }
            other   => panic!("unknown layer {}", other)
        },
        other    => panic!("unknown layer {}", other)
    }
}

/// Half of a reader, keeping the other
struct Both<A, B>(A, Option<B>);
impl<S, A: SymbolReader<S>, B> SymbolReader<S> for Both<A, B> {
    fn next_symbol(&mut self) -> Option<S> { let _ = &self.1; self.0.next_symbol() }
}

fn ask<S: Sym, R: SymbolReader<S>>(mut r: R, case: &Value, e: &[S], given: &Rc<Cell<i64>>) -> Value {
    let seen = case["src"] == "script" || (case["src"].as_str().unwrap().starts_with("bytes") && case["src"] != "bytesbuf");
    let count = || if seen { given.get() } else { -1 };
    let at = |x: &S| e.iter().position(|y| y == x).map(|i| i as i64).unwrap_or(-3);
    let given0 = count();
    let mut ev = vec![];
    for op in case["ops"].as_array().unwrap() {
        let x = match op.as_str().unwrap() {
            "n"   => json!(r.next_symbol().map(|x| at(&x)).unwrap_or(-1)),
            "v"   => json!(r.to_vec().iter().map(|x| at(x)).collect::<Vec<_>>()),
            other => panic!("unknown call {}", other)
        };
        ev.push(json!({"r": x, "given": count()}));
    }
    json!({"ev": ev, "given0": given0})
}

fn pipeline<S: Sym>(case: &Value, r: Dyn<S>, e: Vec<S>, given: Rc<Cell<i64>>) -> Value {
    let e: &'static [S] = Box::leak(e.into_boxed_slice());
    let mut r = r;
    for l in case["layers"].as_array().unwrap() { r = layer(r, l, e); }
    ask(r, case, e, &given)
}

/// Some without any boxes: over a vector, with each symbol taken to the one after or before
fn unboxed<S: Sym>(case: &Value, script: &[i64], e: Vec<S>) -> Value {
    let k = e.len();
    let w: Vec<S> = script.iter().filter(|x| **x >= 0).map(|x| e[*x as usize].clone()).collect();
    let given = Rc::new(Cell::new(0));
    let f = |c: usize| { let e = e.clone(); move |x: S| e[(e.iter().position(|y| *y == x).unwrap() + c) % k].clone() };
    let names: Vec<String> = case["layers"].as_array().unwrap().iter().map(|l| if l[0] == "map" { format!("map{}", l[1]) } else { l[1].as_str().unwrap_or("").to_string() }).collect();
    let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    match &names[..] {
        []               => ask(w.read_symbols(), case, &e, &given),
        ["map1"]         => ask(w.read_symbols().map_symbols(f(1)), case, &e, &given),
        ["tape"]         => ask(Tape::new(w.read_symbols()), case, &e, &given),
        ["map1", "map1"] => ask(VecReader::from_vec(w).map_symbols(f(1)).map_symbols(f(1)), case, &e, &given),
        ["map1", "tape"] => ask(Tape::new(VecReader::from_vec(w).map_symbols(f(1))), case, &e, &given),
        ["tape", "map1"] => ask(Tape::new(w.read_symbols()).map_symbols(f(1)), case, &e, &given),
        ["tape", "left"] => { let mut t = Tape::new(w.read_symbols()); let (a, b) = t.split(); ask(Both(a, Some(b)), case, &e, &given) }
        ["map1", "right"] => { let mut t = w.read_symbols().map_symbols(f(1)); let (a, b) = t.split(); ask(Both(b, Some(a)), case, &e, &given) }
        other            => panic!("not without boxes: {:?}", other)
    }
}

pub fn readers(case: &Value) -> Value {
    let k = case["k"].as_u64().unwrap() as usize;
    let script: Vec<i64> = case["script"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    let given = Rc::new(Cell::new(0));
    let src = case["src"].as_str().unwrap();
    if src.starts_with("bytes") {
        let r = bytes(case, &script, given.clone());
        pipeline(case, r, (0..k).map(|i| i as u8).collect(), given)
    } else if src == "str" {
        let e = match (case["from"].as_u64(), crate::sym::values(case["emb"].as_str().unwrap(), k)) {
            (None, crate::sym::Values::Char(e)) => e,
            (from, _)                           => crate::sym::chars_from(from.unwrap() as u32, k)
        };
        let s: String = script.iter().filter(|x| **x >= 0).map(|x| e[*x as usize]).collect();
        let s: &'static str = Box::leak(s.into_boxed_str());
        pipeline(case, Box::new(s.read_symbols()), e, given)
    } else if src == "unboxed" {
        with_embedding!(case["emb"].as_str().unwrap(), k, e, unboxed(case, &script, e))
    } else {
        with_embedding!(case["emb"].as_str().unwrap(), k, e, pipeline(case, source(case, &script, &e, given.clone()), e, given))
    }
}
