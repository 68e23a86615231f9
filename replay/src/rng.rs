//! Deterministic random numbers (splitmix64).
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    /// True in `n` out of `d` cases.
    pub fn chance(&mut self, n: usize, d: usize) -> bool { self.below(d) < n }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T { xs[self.below(xs.len())] }
    pub fn of<T: Clone>(&mut self, xs: &[T]) -> T { xs[self.below(xs.len())].clone() }
}
