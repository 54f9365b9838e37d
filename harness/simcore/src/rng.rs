/// SplitMix64-seeded xoshiro256**; the only source of randomness in the simulator.
#[derive(Clone)]
pub struct Rng([u64; 4]);
fn split(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng([split(&mut x), split(&mut x), split(&mut x), split(&mut x)])
    }
    pub fn mix(parts: &[u64]) -> Self {
        let mut h = 0x1234567u64;
        for p in parts {
            let mut x = h ^ p.wrapping_mul(0x9e3779b97f4a7c15);
            h = split(&mut x);
        }
        Rng::new(h)
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn wide(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    /// true with probability p/1000
    pub fn pm(&mut self, p: u32) -> bool {
        (self.below(1000) as u32) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
