//! Cases about split readers
use serde_json::{json, Value};
use crate::rng::Rand;

/// Keeps track of which operations can be made
pub struct Tree { pub n: usize, pub pos: Vec<usize>, pub par: Vec<usize>, pub alive: Vec<bool>, pub ops: Vec<Value> }

impl Tree {
    pub fn new(n: usize) -> Tree { Tree { n, pos: vec![0, 0], par: vec![0, 0], alive: vec![false, true], ops: vec![] } }
    pub fn usable(&self) -> Vec<usize> {
        (1..self.pos.len()).filter(|r| self.alive[*r] && !(1..self.pos.len()).any(|k| self.par[k] == *r && self.alive[k])).collect()
    }
    pub fn read(&mut self, r: usize, count: usize) {
        self.pos[r] += count;
        let to = self.pos[r];
        let mut a = self.par[r];
        while a != 0 { self.pos[a] = self.pos[a].max(to); a = self.par[a]; }
        self.ops.push(json!(["r", r, count]));
    }
    pub fn split(&mut self, r: usize) {
        for _ in 0..2 { let p = self.pos[r]; self.pos.push(p); self.par.push(r); self.alive.push(true); }
        self.ops.push(json!(["s", r, 0]));
    }
    pub fn drop(&mut self, r: usize) { self.alive[r] = false; self.ops.push(json!(["d", r, 0])); }
    /// Everything that's left reads up to the end and is dropped
    pub fn wind_down(&mut self, r: &mut Rand) {
        loop {
            let u = self.usable();
            let x = *r.pick(&u);
            if self.pos[x] < self.n + 1 && r.chance(9, 10) { let c = self.n + 1 - self.pos[x]; self.read(x, c); }
            if x == 1 { break; }
            self.drop(x);
        }
    }
}

pub fn generate(prop: &str, seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, prop);
    let mut res = vec![];
    let scale   = if deep { 12 } else { 1 };
    for i in 0..2500 * scale {
        let big   = i % 50 == 0;
        let n     = if i % 500 == 0 { r.usize(65000, 140000) } else if big { r.usize(200, 3000) } else { *r.pick(&[0, 1, 2, 3, 5, 8, 13, 30]) };
        let fused = r.chance(1, 3);
        let max   = *r.pick(&[1, 1, 1, 2, 3, 4]);
        let count = r.usize(3, 50);
        let mut t = Tree::new(n);
        let mut splits = 0;
        let eager = r.below(4);
        for _ in 0..count {
            let u = t.usable();
            let x = *r.pick(&u);
            match r.below(12) {
                0 | 1 if splits < max => { t.split(x); splits += 1; }
                2 if x != 1 && r.chance(1, 2) => t.drop(x),
                _ => {
                    // One reader often gets ahead of the others
                    let c = if big { r.usize(0, n / 4) } else if eager == 0 { r.usize(1, 6) } else { 1 };
                    let c = if fused { c } else { c.min((n + 1).saturating_sub(t.pos[x])) };
                    if c > 0 { t.read(x, c); }
                }
            }
        }
        t.wind_down(&mut r);
        res.push(json!({"kind": "split", "n": n, "fused": fused, "root": *r.pick(&["plain", "box"]), "ops": t.ops}));
    }
    // Splits of splits of splits, and readers split and let go of over and over
    for i in 0..if deep { 60 } else { 12 } {
        let n = *r.pick(&[20, 60, 300]);
        let mut t = Tree::new(n);
        for step in 0..if i % 2 == 0 { 9 } else { 40 } {
            let u = t.usable();
            let x = if i % 2 == 0 { *u.last().unwrap() } else { *r.pick(&u) };
            if i % 2 == 1 && x != 1 && (u.len() > 6 || step % 3 == 2) { t.drop(x); continue; }
            if i % 2 == 1 && u.len() > 6 { continue; }
            t.split(x);
            for _ in 0..3 { let u = t.usable(); let x = *r.pick(&u); let c = r.usize(0, 3).min((n + 1).saturating_sub(t.pos[x])); if c > 0 { t.read(x, c); } }
        }
        t.wind_down(&mut r);
        res.push(json!({"kind": "split", "n": n, "fused": false, "root": *r.pick(&["plain", "box"]), "ops": t.ops}));
    }
    res.extend(lags(&mut r, 44));
    res
}

/// One half gets ahead of the other by every small distance (and some larger ones), and then every way of catching up
fn lags(r: &mut Rand, most: usize) -> Vec<Value> {
    let mut res = vec![];
    for k in 0..most {
        let lag = match k { 41 => 64, 42 => 100, 43 => 300, k => k };
        for way in 0..8 {
            for swap in [false, true] {
                // Only one order for most of them
                if swap && way % 2 == 1 { continue; }
                let n = 2 * lag + 60;
                let mut t = Tree::new(n);
                t.split(1);
                let (a, b) = if swap { (3, 2) } else { (2, 3) };
                let go = |t: &mut Tree, x: usize, count: usize| { let c = count.min(n - t.pos[x]); if c > 0 { t.read(x, c); } };
                match way {
                    // In single steps, up to the reader in front and beyond it
                    0 => { go(&mut t, a, lag); for _ in 0..lag + 3 { go(&mut t, b, 1); } }
                    // In lockstep, at a fixed distance
                    1 => { go(&mut t, a, lag); for _ in 0..30 { go(&mut t, b, 1); go(&mut t, a, 1); } }
                    // The one in front goes on now and then
                    2 => { go(&mut t, a, lag); for i in 0..lag { go(&mut t, b, 1); if i % 3 == 0 { go(&mut t, a, 1); } } }
                    // Overtaking, and the other then catches up
                    3 => { go(&mut t, a, lag); go(&mut t, b, 2 * lag); for _ in 0..lag { go(&mut t, a, 1); } }
                    // Catches up some of the way, and the one in front, or the one behind, is dropped
                    4 => { go(&mut t, a, lag); for _ in 0..lag / 2 { go(&mut t, b, 1); } t.drop(if swap { a } else { b }); go(&mut t, if swap { b } else { a }, 5); }
                    // Three readers at different distances
                    5 => { t.split(b); go(&mut t, a, lag); go(&mut t, 4, lag / 2); for i in 0..lag { go(&mut t, 5, 1); if i % 4 == 1 { go(&mut t, 4, 1); } } }
                    // Getting behind a step at a time, then catching up in bigger steps
                    6 => { for i in 0..lag { go(&mut t, a, 2); if i % 2 == 0 { go(&mut t, b, 1); } } while t.pos[b] < t.pos[a] { go(&mut t, b, 7); go(&mut t, a, 1); } }
                    // The one behind is split again, and both of its halves catch up in turn
                    _ => { go(&mut t, a, lag); go(&mut t, b, lag / 3); t.split(b); for _ in 0..lag { go(&mut t, 4, 1); go(&mut t, 5, 1); } go(&mut t, a, 2); t.drop(4); go(&mut t, 5, 3); }
                }
                t.wind_down(r);
                res.push(json!({"kind": "split", "n": n, "fused": false, "root": if k % 2 == 0 { "plain" } else { "box" }, "ops": t.ops}));
            }
        }
    }
    res
}
