//! A cheap 64-byte digest (no security), compiled here with optimisation and never inlined elsewhere.
use sha2::digest::{consts::U64, FixedOutput, HashMarker, Output, OutputSizeUser, Update};
#[derive(Clone)]
pub struct Cheap64(u64, u64);
impl Default for Cheap64 {
    #[inline(never)]
    fn default() -> Self {
        Cheap64(0x6a09e667f3bcc908, 0xbb67ae8584caa73b)
    }
}
impl HashMarker for Cheap64 {}
impl OutputSizeUser for Cheap64 {
    type OutputSize = U64;
}
impl Update for Cheap64 {
    #[inline(never)]
    fn update(&mut self, d: &[u8]) {
        for b in d {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29);
            self.1 = self.1.wrapping_add(self.0);
        }
    }
}
impl FixedOutput for Cheap64 {
    #[inline(never)]
    fn finalize_into(mut self, out: &mut Output<Self>) {
        for c in out.chunks_mut(8) {
            self.update(&[1, 2, 3]);
            c.copy_from_slice(&(self.0 ^ self.1.rotate_left(17)).to_le_bytes());
        }
    }
}
