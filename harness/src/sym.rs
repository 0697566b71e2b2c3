//! Concrete symbol and token types. A case talks about abstract symbols 0..k-1; an embedding maps them, preserving order, to
//! values of a real symbol type somewhere in its domain.
use concordance::*;
use std::fmt::Debug;
use serde::Serialize;
use serde::de::DeserializeOwned;

pub trait Sym: Clone + Ord + Countable + Debug + Serialize + DeserializeOwned + Send + Sync + 'static {
    /// For char: runs the matcher over a &str
    fn match_str<O: Clone + Ord + 'static>(_word: &[Self], _dfa: &SymbolRangeDfa<Self, O>) -> Option<Option<usize>> { None }
    /// For char: matches over a &str using a &str as the pattern
    fn match_str_pattern(_word: &[Self], _lit: &[Self]) -> Option<Option<usize>> { None }
    /// For char: a reader of a &str
    fn str_reader<'x>(_word: &'x [Self]) -> Option<Box<dyn SymbolReader<Self> + 'x>> { None }
    /// For char: a pattern made from a &str
    fn str_pattern(_lit: &[Self]) -> Option<Pattern<Self>> { None }
    /// For char: a matcher made from a string through ToNdfa for str
    fn str_ndfa<O: Clone + Ord + 'static>(_lit: &[Self], _output: O) -> Option<Box<dyn StateMachine<SymbolRange<Self>, O>>> { None }
    /// For char: p.append(&str) / p.or(&str)
    fn append_str(p: Pattern<Self>, _lit: &[Self]) -> Result<Pattern<Self>, Pattern<Self>> { Err(p) }
    fn or_str(p: Pattern<Self>, _lit: &[Self]) -> Result<Pattern<Self>, Pattern<Self>> { Err(p) }
}

macro_rules! plain { ($($t:ty),*) => { $( impl Sym for $t {} )* } }
plain!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

/// A type of symbol that isn't the library's: not Copy, with its own idea of neighbours, and none beyond its ends
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Own(String);

const OWN_SYMBOLS: i128 = 300000;

impl Own {
    fn new(n: i128) -> Own { assert!(n >= 0 && n < OWN_SYMBOLS, "no such symbol"); Own(format!("{:06}", n * 3)) }
    fn number(&self) -> i128 { self.0.parse::<i128>().unwrap() / 3 }
}

impl Countable for Own {
    fn next(&self) -> Own { Own::new(self.number() + 1) }
    fn prev(&self) -> Own { Own::new(self.number() - 1) }
}

impl Serialize for Own {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) }
}

impl<'de> serde::Deserialize<'de> for Own {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Own, D::Error> { String::deserialize(d).map(Own) }
}

impl Sym for Own {}

impl Sym for char {
    fn match_str<O: Clone + Ord + 'static>(word: &[char], dfa: &SymbolRangeDfa<char, O>) -> Option<Option<usize>> {
        let s: String = word.iter().collect();
        Some(matches_prepared(s.as_str(), dfa))
    }
    fn match_str_pattern(word: &[char], lit: &[char]) -> Option<Option<usize>> {
        let s: String = word.iter().collect();
        let l: String = lit.iter().collect();
        Some(matches(s.as_str(), l.as_str()))
    }
    fn str_reader<'x>(word: &'x [char]) -> Option<Box<dyn SymbolReader<char> + 'x>> {
        let s: &'static str = Box::leak(word.iter().collect::<String>().into_boxed_str());
        Some(Box::new(s.read_symbols()))
    }
    fn str_pattern(lit: &[char]) -> Option<Pattern<char>> {
        let l: String = lit.iter().collect();
        Some(exactly(l.as_str()))
    }
    fn str_ndfa<O: Clone + Ord + 'static>(lit: &[char], output: O) -> Option<Box<dyn StateMachine<SymbolRange<char>, O>>> {
        let l: String = lit.iter().collect();
        Some(l.as_str().to_ndfa(output))
    }
    fn append_str(p: Pattern<char>, lit: &[char]) -> Result<Pattern<char>, Pattern<char>> {
        let l: String = lit.iter().collect();
        Ok(p.append(l.as_str()))
    }
    fn or_str(p: Pattern<char>, lit: &[char]) -> Result<Pattern<char>, Pattern<char>> {
        let l: String = lit.iter().collect();
        Ok(p.or(l.as_str()))
    }
}

/// Output symbols with a known rank in their order
pub trait Tok: Clone + Ord + Debug + Serialize + DeserializeOwned + Send + Sync + 'static {
    fn from_rank(r: i64) -> Self;
    fn rank(&self) -> i64;
}
impl Tok for u32 { fn from_rank(r: i64) -> u32 { r as u32 } fn rank(&self) -> i64 { *self as i64 } }
impl Tok for i8  { fn from_rank(r: i64) -> i8  { (r - 100) as i8 } fn rank(&self) -> i64 { *self as i64 + 100 } }
impl Tok for () { fn from_rank(_: i64) -> () { () } fn rank(&self) -> i64 { 0 } }
impl Tok for Option<u32> {
    fn from_rank(r: i64) -> Option<u32> { if r == 0 { None } else { Some(r as u32 - 1) } }
    fn rank(&self) -> i64 { self.map(|r| r as i64 + 1).unwrap_or(0) }
}
impl Tok for String {
    fn from_rank(r: i64) -> String { format!("tok{:05}", r) }
    fn rank(&self) -> i64 { self[3..].parse().unwrap() }
}
impl Tok for std::cmp::Reverse<u32> {
    fn from_rank(r: i64) -> Self { std::cmp::Reverse(100000 - r as u32) }
    fn rank(&self) -> i64 { 100000 - self.0 as i64 }
}

pub fn chars_from(start: u32, k: usize) -> Vec<char> { (start..).filter_map(std::char::from_u32).take(k).collect() }

/// The embeddings that are always used. Each is (name, capacity). There are also "at:TYPE:SEED", a window anywhere in a type, "set:TYPE:SEED", symbols
/// from all over it, and "char@HEX", a window of characters
pub const EMBEDDINGS: &[(&str, usize)] = &[
    ("u8lo", 256), ("u8hi", 256), ("u8sp", 36), ("i8lo", 256), ("i8mid", 200), ("i8hi", 256),
    ("u16lo", 60000), ("u16hi", 60000), ("i16lo", 60000), ("i16mid", 30000), ("i16hi", 60000),
    ("u32lo", 100000), ("u32hi", 100000), ("u32sp", 100000), ("i32lo", 100000), ("i32mid", 30000), ("i32hi", 100000),
    ("u64lo", 100000), ("u64hi", 100000), ("u64sp", 10000), ("i64lo", 100000), ("i64mid", 30000), ("i64hi", 100000),
    ("usizelo", 100000), ("usizehi", 100000), ("isizelo", 100000), ("isizemid", 30000), ("isizehi", 100000),
    ("charlo", 50000), ("charaz", 50000), ("chargap", 50000), ("chargap1", 50000), ("charhi", 50000), ("charsp", 50000),
    // Half at either end of the type
    ("ownlo", 100000), ("ownhi", 100000), ("ownsp", 20000), ("ownendsp", 100000),
    ("u8endsp", 256), ("i8endsp", 256), ("i16endsp", 60000), ("u16endsp", 60000), ("u32endsp", 60000), ("i64endsp", 100000), ("u64endsp", 100000), ("charendsp", 50000),
];

pub const TYPES: &[&str] = &["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "char", "own"];

/// Characters that are special to someone
pub const ODD: &[u32] = &[0, 7, 9, 0xa, 0xb, 0xc, 0xd, 0x1a, 0x1b, 0x20, 0x22, 0x27, 0x2e, 0x5c, 0x7e, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xdf, 0xff, 0x100, 0x130, 0x131, 0x1c5, 0x301, 0x3c2,
    0x3c3, 0x7ff, 0x800, 0x1e9e, 0x200b, 0x200d, 0x200e, 0x2028, 0x2029, 0x2126, 0x212a, 0x3000, 0xd7fe, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10fffe, 0x10ffff];

/// Values of a type as numbers
pub enum Values { U8(Vec<u8>), I8(Vec<i8>), U16(Vec<u16>), I16(Vec<i16>), U32(Vec<u32>), I32(Vec<i32>), U64(Vec<u64>), I64(Vec<i64>), Usize(Vec<usize>), Isize(Vec<isize>), Char(Vec<char>), Own(Vec<Own>) }

fn limits(t: &str) -> (i128, i128) {
    let bits = match t { "u8" | "i8" => 8, "u16" | "i16" => 16, "u32" | "i32" => 32, "char" => return (0, 0x10ffff - 0x800), "own" => return (0, OWN_SYMBOLS - 1), _ => 64 };
    if t.starts_with('u') { (0, (1i128 << bits) - 1) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) }
}

/// Characters are numbered without the gap
fn to_char(n: i128) -> char { std::char::from_u32(if n < 0xd800 { n as u32 } else { n as u32 + 0x800 }).unwrap() }
fn char_number(c: u32) -> i128 { if c < 0xd800 { c as i128 } else { c as i128 - 0x800 } }

fn place(r: &mut crate::rng::Rand, t: &str) -> i128 {
    let (min, max) = limits(t);
    let n = match r.below(6) {
        _ if t == "char" && r.chance(1, 2) => if r.chance(1, 2) { r.below(0x80) as i128 } else { char_number(*r.pick(ODD)) },
        0     => min + r.below(300) as i128,
        1     => max - r.below(300) as i128,
        2     => r.range(-200, 200) as i128,
        3     => { let p = 1i128 << r.below(64); (if r.chance(1, 2) { p } else { -p }) + r.range(-3, 3) as i128 }
        _     => min + (r.next() as i128) % (max - min + 1)
    };
    n.max(min).min(max)
}

fn numbers(name: &str, k: usize) -> (&str, Vec<i128>) {
    let n = k as i128;
    if name.starts_with("char@") {
        let from = char_number(u32::from_str_radix(&name[5..], 16).unwrap());
        return ("char", (0..n).map(|i| from + i).collect());
    }
    if name.contains(':') {
        let parts: Vec<&str> = name.split(':').collect();
        let t = parts[1];
        let mut r = crate::rng::Rand::new(parts[2].parse().unwrap(), parts[1]);
        let (min, max) = limits(t);
        if parts[0] == "at" {
            let from = (place(&mut r, t) - r.below(n as u64 + 1) as i128).max(min).min(max - n + 1);
            return (t, (0..n).map(|i| from + i).collect());
        }
        let mut v = std::collections::BTreeSet::new();
        if max - min < 300 {
            let mut all: Vec<i128> = (min..max + 1).collect();
            r.shuffle(&mut all);
            v.extend(all.into_iter().take(k));
        } else {
            while v.len() < k { let x = place(&mut r, t); v.insert(x); if v.len() < k && r.chance(1, 3) && x < max { v.insert(x + 1); } }
        }
        return (t, v.into_iter().collect());
    }
    let t = TYPES.iter().find(|t| name.starts_with(*t)).unwrap_or_else(|| panic!("unknown embedding {}", name));
    let (min, max) = limits(t);
    (t, (0..n).map(|i| match (&name[t.len()..], *t) {
        ("lo", _)    => min + i,
        ("hi", _)    => max - (n - 1) + i,
        ("mid", _)   => i - n / 2,
        ("az", _)    => 'a' as i128 + i,
        // Half of the symbols either side of the surrogate gap; or one symbol below the gap and the rest above
        ("gap", _)   => 0xd800 - (n / 2).max(1) + i,
        ("gap1", _)  => 0xd7ff + i,
        ("endsp", _) => if i < n / 2 { min + i } else { max - (n - 1) + i },
        ("sp", "u8")   => i * 7 + 3,
        ("sp", "u32")  => i * 9973 + 17,
        ("sp", "own")  => i * 11 + 2,
        ("sp", "u64")  => i * 0x1_0000_0001 + 5,
        ("sp", "char") => char_number(if i < 1000 { 0x41 + i as u32 * 19 } else { 0x10000 + i as u32 * 19 }),
        _ => panic!("unknown embedding {}", name)
    }).collect())
}

pub fn values(name: &str, k: usize) -> Values {
    let (t, v) = numbers(name, k);
    macro_rules! ints { ($c:ident, $t:ty) => { Values::$c(v.into_iter().map(|x| x as $t).collect()) } }
    match t {
        "u8" => ints!(U8, u8), "i8" => ints!(I8, i8), "u16" => ints!(U16, u16), "i16" => ints!(I16, i16), "u32" => ints!(U32, u32), "i32" => ints!(I32, i32),
        "u64" => ints!(U64, u64), "i64" => ints!(I64, i64), "usize" => ints!(Usize, usize), "isize" => ints!(Isize, isize),
        "own" => Values::Own(v.into_iter().map(Own::new).collect()),
        _ => Values::Char(v.into_iter().map(to_char).collect())
    }
}

/// Runs `$body` with `$e` bound to the vector of the first `$k` symbols of the named embedding
#[macro_export]
macro_rules! with_embedding {
    ($name:expr, $k:expr, $e:ident, $body:expr) => {{
        use $crate::sym::Values;
        match $crate::sym::values($name, $k) {
            Values::U8($e) => $body, Values::I8($e) => $body, Values::U16($e) => $body, Values::I16($e) => $body, Values::U32($e) => $body, Values::I32($e) => $body,
            Values::U64($e) => $body, Values::I64($e) => $body, Values::Usize($e) => $body, Values::Isize($e) => $body, Values::Char($e) => $body, Values::Own($e) => $body
        }
    }}
}

#[macro_export]
macro_rules! with_token_type {
    ($name:expr, $t:ident, $body:expr) => {{
        match $name {
            "u32" => { type $t = u32; $body }
            "i8"  => { type $t = i8; $body }
            "str" => { type $t = String; $body }
            "unit" => { type $t = (); $body }
            "opt" => { type $t = Option<u32>; $body }
            "rev" => { type $t = std::cmp::Reverse<u32>; $body }
            other => panic!("unknown token type {}", other)
        }
    }}
}
