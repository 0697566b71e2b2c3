//! Small deterministic generator (splitmix64): every random choice of the harness comes from VERIF_SEED through this.
#[derive(Clone)]
pub struct Rand(pub u64);

impl Rand {
    pub fn new(seed: u64, stream: &str) -> Rand {
        let mut h = seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xd1b54a32d192ed03;
        for b in stream.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        let mut r = Rand(h);
        r.next(); r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as i64, hi as i64) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() { let j = self.below(i as u64 + 1) as usize; v.swap(i, j); }
    }
}
