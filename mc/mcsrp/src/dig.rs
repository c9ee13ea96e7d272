//! Digests with tiny or unusual outputs: scrambling values, multipliers and proofs hit every residue.
use digest::{generic_array::typenum as ty, FixedOutput, HashMarker, Output, OutputSizeUser, Update};
use sha2::{Digest, Sha256};

macro_rules! trunc {
    ($n:ident, $sz:ty, $f:expr) => {
        #[derive(Clone, Default)]
        pub struct $n(Sha256);
        impl HashMarker for $n {}
        impl OutputSizeUser for $n {
            type OutputSize = $sz;
        }
        impl Update for $n {
            fn update(&mut self, d: &[u8]) {
                Update::update(&mut self.0, d)
            }
        }
        impl FixedOutput for $n {
            fn finalize_into(self, out: &mut Output<Self>) {
                let h = self.0.finalize();
                let f: fn(usize, u8, u8) -> u8 = $f;
                for i in 0..out.len() {
                    out[i] = f(i, h[i % 32], h[31 - i % 32]);
                }
            }
        }
    };
}
trunc!(T1, ty::U1, |_, b, _| b);
trunc!(T2, ty::U2, |_, b, _| b);
trunc!(T3, ty::U3, |_, b, _| b);
trunc!(Zero1, ty::U1, |_, _, _| 0);
trunc!(One2, ty::U2, |i, _, _| i as u8);
trunc!(Ff2, ty::U2, |_, _, _| 0xff);
trunc!(Bit1, ty::U1, |_, b, _| b & 1);
trunc!(Lead4, ty::U4, |i, b, _| if i < 3 { 0 } else { b });
trunc!(Wide128, ty::U128, |i, a, b| a.rotate_left((i / 32) as u32) ^ b.wrapping_mul(1 + (i / 32) as u8));
// outputs that begin or end with zeros, or never (always) have their top bits set
trunc!(Lead32, ty::U32, |i, b, _| if i < 29 { 0 } else { b });
trunc!(Trail32, ty::U32, |i, b, _| if i > 2 { 0 } else { b });
trunc!(Hi20, ty::U20, |_, b, _| b | 0x80);
trunc!(Lo20, ty::U20, |_, b, _| b & 0x7f);
// as long as SHA-256 and as SHA-1, other values
trunc!(Twin32, ty::U32, |i, a, b| a.rotate_left(1) ^ b.wrapping_add(i as u8));
trunc!(Twin20, ty::U20, |i, a, b| a.rotate_left(3) ^ b.wrapping_add(i as u8));
