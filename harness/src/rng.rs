#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 { (self.u64() as u128) << 64 | self.u64() as u128 }
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }
}
pub fn hash(parts: &[u128]) -> u64 {
    let mut r = Rng(0x1234567);
    let mut h = 0u64;
    for &p in parts { r.0 ^= p as u64; h ^= r.u64(); r.0 ^= (p >> 64) as u64 ^ h; h = h.rotate_left(7) ^ r.u64(); }
    h
}
