//! A group and digests that give the scheduler a point at every operation.
use digest::{FixedOutput, HashMarker, Output, OutputSizeUser, Update};
use mccore::sched::point;
use rand_core::{CryptoRng, RngCore};
use spake2::{Ed25519Group, Group};

#[derive(Clone, Default)]
pub struct TickD<D>(D);
impl<D> HashMarker for TickD<D> {}
impl<D: OutputSizeUser> OutputSizeUser for TickD<D> {
    type OutputSize = D::OutputSize;
}
impl<D: Update> Update for TickD<D> {
    fn update(&mut self, d: &[u8]) {
        point();
        self.0.update(d)
    }
}
impl<D: FixedOutput> FixedOutput for TickD<D> {
    fn finalize_into(self, out: &mut Output<Self>) {
        point();
        self.0.finalize_into(out)
    }
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub struct TickEd;
type E = Ed25519Group;
impl Group for TickEd {
    type Scalar = <E as Group>::Scalar;
    type Element = <E as Group>::Element;
    type TranscriptHash = TickD<sha2::Sha256>;
    fn name() -> &'static str {
        E::name()
    }
    fn const_m() -> Self::Element {
        point();
        E::const_m()
    }
    fn const_n() -> Self::Element {
        point();
        E::const_n()
    }
    fn const_s() -> Self::Element {
        point();
        E::const_s()
    }
    fn hash_to_scalar(s: &[u8]) -> Self::Scalar {
        point();
        E::hash_to_scalar(s)
    }
    fn random_scalar<T: RngCore + CryptoRng>(r: &mut T) -> Self::Scalar {
        point();
        E::random_scalar(r)
    }
    fn scalar_neg(s: &Self::Scalar) -> Self::Scalar {
        point();
        E::scalar_neg(s)
    }
    fn element_to_bytes(e: &Self::Element) -> Vec<u8> {
        point();
        E::element_to_bytes(e)
    }
    fn bytes_to_element(b: &[u8]) -> Option<Self::Element> {
        point();
        E::bytes_to_element(b)
    }
    fn element_length() -> usize {
        E::element_length()
    }
    fn basepoint_mult(s: &Self::Scalar) -> Self::Element {
        point();
        E::basepoint_mult(s)
    }
    fn scalarmult(e: &Self::Element, s: &Self::Scalar) -> Self::Element {
        point();
        E::scalarmult(e, s)
    }
    fn add(a: &Self::Element, b: &Self::Element) -> Self::Element {
        point();
        E::add(a, b)
    }
}

/// Ed25519 under the same name with the constants exchanged
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct TwinEd;
impl Group for TwinEd {
    type Scalar = <E as Group>::Scalar;
    type Element = <E as Group>::Element;
    type TranscriptHash = sha2::Sha256;
    fn name() -> &'static str {
        E::name()
    }
    fn const_m() -> Self::Element {
        E::const_n()
    }
    fn const_n() -> Self::Element {
        E::const_s()
    }
    fn const_s() -> Self::Element {
        E::const_m()
    }
    fn hash_to_scalar(s: &[u8]) -> Self::Scalar {
        E::scalar_neg(&E::hash_to_scalar(s))
    }
    fn random_scalar<T: RngCore + CryptoRng>(r: &mut T) -> Self::Scalar {
        E::random_scalar(r)
    }
    fn scalar_neg(s: &Self::Scalar) -> Self::Scalar {
        E::scalar_neg(s)
    }
    fn element_to_bytes(e: &Self::Element) -> Vec<u8> {
        E::element_to_bytes(e)
    }
    fn bytes_to_element(b: &[u8]) -> Option<Self::Element> {
        E::bytes_to_element(b)
    }
    fn element_length() -> usize {
        E::element_length()
    }
    fn basepoint_mult(s: &Self::Scalar) -> Self::Element {
        E::basepoint_mult(s)
    }
    fn scalarmult(e: &Self::Element, s: &Self::Scalar) -> Self::Element {
        E::scalarmult(e, s)
    }
    fn add(a: &Self::Element, b: &Self::Element) -> Self::Element {
        E::add(a, b)
    }
}
