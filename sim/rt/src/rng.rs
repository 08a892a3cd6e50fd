/// xoshiro-like small PRNG (splitmix-seeded xorshift128+).
#[derive(Clone, Debug)]
pub struct Rng {
    a: u64,
    b: u64,
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s) | 1;
        let b = splitmix(&mut s);
        Self { a, b }
    }
    #[inline]
    pub fn next_u64(&mut self) -> u64 {
        let mut s1 = self.a;
        let s0 = self.b;
        let r = s0.wrapping_add(s1);
        self.a = s0;
        s1 ^= s1 << 23;
        self.b = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next_u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize].clone()
    }
}
