/// deterministic generator; also keeps a fingerprint of everything drawn and how much was drawn
pub struct Rng(u64, u64, u64);
#[allow(dead_code)]
impl Rng {
    pub fn new(s: u64) -> Self { Rng(Self::mix(s ^ 0xD1B54A32D192ED03), 0, 0) }
    pub fn finger(&self) -> (u64, u64) { (self.1, self.2) }
    pub fn mix(mut z: u64) -> u64 {
        z = z.wrapping_add(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let v = Self::mix(self.0);
        self.2 += 1;
        v
    }
    pub fn u32(&mut self) -> u32 { (self.u64() >> 32) as u32 }
    pub fn u8(&mut self) -> u8 { (self.u64() >> 56) as u8 }
    pub fn below(&mut self, n: u64) -> u64 {
        let v = if n == 0 { 0 } else { self.u64() % n };
        self.1 = (self.1 ^ v).wrapping_mul(0x100000001B3).rotate_left(7) ^ n;
        v
    }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// a list length: small, now and then around the powers of two a narrow counter would overflow at
    pub fn cnt(&mut self, n: usize) -> usize { if self.below(64) == 0 { 125 + self.us(180) } else { self.us(n) } }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.us(v.len())].clone() }
    /// integers with the boundary values over-represented
    pub fn i32(&mut self) -> i32 {
        match self.below(8) {
            0 => self.pick(&[0, 1, -1, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1]),
            1 | 2 => self.below(300) as i32 - 150,
            3 => 1i32.wrapping_shl(self.u32() % 32),
            _ => self.u32() as i32,
        }
    }
    pub fn i64(&mut self) -> i64 {
        match self.below(8) {
            0 => self.pick(&[0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1]),
            1 | 2 => self.below(300) as i64 - 150,
            3 => 1i64.wrapping_shl(self.u32() % 64),
            _ => self.u64() as i64,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mode = self.below(3);
        (0..n).map(|i| match mode { 0 => self.u8(), 1 => (i / 7) as u8, _ => self.below(3) as u8 }).collect()
    }
    pub fn f32(&mut self) -> f32 {
        loop {
            let f = match self.below(6) {
                0 => self.pick(&[0.0f32, -0.0, 1.0, -1.0, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::EPSILON, 1e-45]),
                1 => self.below(1000) as f32 / 8.0 - 60.0,
                _ => f32::from_bits(self.u32()),
            };
            if !f.is_nan() { return f; }
        }
    }
    pub fn f64(&mut self) -> f64 {
        loop {
            let f = match self.below(6) {
                0 => self.pick(&[0.0f64, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::EPSILON]),
                1 => self.below(1000) as f64 / 8.0 - 60.0,
                _ => f64::from_bits(self.u64()),
            };
            if !f.is_nan() { return f; }
        }
    }
    pub fn ascii(&mut self, max: usize) -> String {
        let n = self.us(max + 1);
        (0..n).map(|_| self.pick(b"abcXYZ019_/.- +") as char).collect()
    }
    pub fn ch(&mut self) -> char {
        match self.below(10) {
            0..=3 => (b' ' + self.below(95) as u8) as char,
            4 => self.pick(&['é', 'ß', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{1}']),
            5 => char::from_u32(0x80 + self.below(0x700) as u32).unwrap_or('x'),
            6 => char::from_u32(0x1F300 + self.below(0x200) as u32).unwrap_or('x'),
            7 => char::from_u32(0x4E00 + self.below(0x2000) as u32).unwrap_or('x'),
            8 => loop { if let Some(c) = char::from_u32(self.below(0x110000) as u32) { if c != '\0' { break c; } } },
            _ => (b'a' + self.below(26) as u8) as char,
        }
    }
    pub fn string(&mut self, max: usize) -> String {
        let n = match self.below(4) { 0 => self.us(3), _ => self.us(max + 1) };
        match self.below(3) {
            0 => (0..n).map(|_| self.ch()).collect(),
            1 => { let mut s: String = (0..n).map(|_| (b'a' + self.below(26) as u8) as char).collect(); if self.chance(1, 3) { s.push(self.ch()); } s }
            _ => (0..n).map(|_| self.pick(b"abcXYZ019_/.- +") as char).collect(),
        }
    }
}
