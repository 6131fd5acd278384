//! Small deterministic PRNG (splitmix64 / xorshift) so that every case can be replayed from a u64.
#[derive(Clone, Debug)]
pub struct Rng {
    s: u64,
    /// How large what is generated may be: 0 small, 1 hundreds of elements, 2 more than 65536 of them
    pub big: u8,
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng { s: seed, big: 0 }
    }
    /// Independent stream for case `n` of a run.
    pub fn case(seed: u64, salt: u64, n: u64) -> Self {
        let mut r = Rng::new(seed ^ salt.wrapping_mul(0x9E37_79B9_7F4A_7C15));
        r.next();
        let a = r.next();
        let mut r = Rng::new(a ^ n.wrapping_mul(0xD134_2543_DE82_EF95));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// A number of elements from `lo` to `hi`, or much more where large cases are wanted
    pub fn reps(&mut self, lo: usize, hi: usize) -> usize {
        let big = if self.big > 0 && self.chance(1, 2) { self.big } else { 0 };
        match big {
            1 => *self.pick(&[9, 17, 33, 65, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 300, 400, 511, 512, 513, 600]),
            2 => *self.pick(&[256, 300, 32768, 65535, 65536, 65537, 65540, 66000, 70000]),
            _ => self.range(lo, hi),
        }
    }
}
