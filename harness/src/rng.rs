//! Small seeded generator (splitmix64)
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn u8(&mut self) -> u8 {
        self.u64() as u8
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    /// 16-bit value with a preference for boundary values
    pub fn u16e(&mut self) -> u16 {
        match self.below(5) {
            0 => self.pick(&[
                0u16, 1, 2, 3, 7, 8, 127, 128, 254, 255, 256, 257, 511, 512, 0x0FFF, 0x1000, 0x7FFF, 0x8000, 0xFF00,
                0xFFFE, 0xFFFF,
            ]),
            1 => u16::from(self.u8()),
            2 => u16::from(self.u8()) << 8,
            _ => self.u64() as u16,
        }
    }
    pub fn u8e(&mut self) -> u8 {
        if self.chance(1, 3) { self.pick(&[0u8, 1, 2, 3, 4, 5, 7, 8, 9, 127, 128, 254, 255]) } else { self.u8() }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
}
