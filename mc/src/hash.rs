//! Small 64 bit fingerprint.
#[derive(Clone, Copy)]
pub struct H(pub u64);

impl H {
    pub fn new(tag: u64) -> H { H(0x9E3779B97F4A7C15 ^ tag.wrapping_mul(0xD6E8FEB86659FD93)) }
    pub fn u(&mut self, x: u64) -> &mut H {
        let mut z = self.0.rotate_left(23) ^ x.wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 29)).wrapping_mul(0x94D049BB133111EB);
        self.0 = z ^ (z >> 32);
        self
    }
    pub fn n(&mut self, x: usize) -> &mut H { self.u(x as u64) }
    pub fn f(&mut self, x: f32) -> &mut H { self.u(x.to_bits() as u64) }
    pub fn fs(&mut self, xs: &[f32]) -> &mut H { self.u(xs.len() as u64); for &x in xs { self.f(x); } self }
    pub fn us(&mut self, xs: &[usize]) -> &mut H { self.u(xs.len() as u64); for &x in xs { self.u(x as u64); } self }
    pub fn s(&mut self, s: &str) -> &mut H { self.u(s.len() as u64); for b in s.bytes() { self.u(b as u64); } self }
    pub fn get(&self) -> u64 { let z = self.0; (z ^ (z >> 31)).wrapping_mul(0xD6E8FEB86659FD93) }
}
