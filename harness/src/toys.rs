//! Hash functions used as parameters of the code under test.
use digest::{generic_array::ArrayLength, FixedOutput, HashMarker, Output, OutputSizeUser, Update};
use digest::{Digest, FixedOutputReset, Reset};
use sha2::Sha512;
use std::marker::PhantomData;

/// `N` bytes of output with the first `Z` forced to zero.
#[derive(Clone)]
pub struct Toy<N, const Z: usize> {
    h: Sha512,
    n: PhantomData<N>,
}
impl<N, const Z: usize> Default for Toy<N, Z> {
    fn default() -> Self {
        Toy { h: <Sha512 as Digest>::new(), n: PhantomData }
    }
}
impl<N, const Z: usize> Update for Toy<N, Z> {
    fn update(&mut self, data: &[u8]) {
        Digest::update(&mut self.h, data)
    }
}
impl<N: ArrayLength<u8> + 'static, const Z: usize> OutputSizeUser for Toy<N, Z> {
    type OutputSize = N;
}
fn expand(h: Sha512, out: &mut [u8], z: usize) {
    let d = Digest::finalize(h);
    for (i, c) in out.chunks_mut(64).enumerate() {
        let e = Sha512::new().chain_update([0x54, i as u8]).chain_update(d).finalize();
        c.copy_from_slice(&e[..c.len()]);
    }
    for b in out.iter_mut().take(z) {
        *b = 0;
    }
}
impl<N: ArrayLength<u8> + 'static, const Z: usize> FixedOutput for Toy<N, Z> {
    fn finalize_into(self, out: &mut Output<Self>) {
        expand(self.h, out, Z)
    }
}
impl<N: ArrayLength<u8> + 'static, const Z: usize> Reset for Toy<N, Z> {
    fn reset(&mut self) {
        self.h = <Sha512 as Digest>::new();
    }
}
impl<N: ArrayLength<u8> + 'static, const Z: usize> FixedOutputReset for Toy<N, Z> {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        expand(self.h.clone(), out, Z);
        self.h = <Sha512 as Digest>::new();
    }
}
impl<N, const Z: usize> HashMarker for Toy<N, Z> {}

pub type Toy1 = Toy<digest::consts::U1, 0>;
pub type Toy20Z = Toy<digest::consts::U20, 3>;
pub type Toy32Z = Toy<digest::consts::U32, 1>;
pub type Toy100 = Toy<digest::consts::U100, 0>;
/// second 64-byte hash for AuCPace
pub type Twist512 = Toy<digest::consts::U64, 0>;

/// number of digests in `with_digest!`; the first 5 are collision resistant
pub const N_DIGESTS: usize = 9;
pub const N_STRONG: usize = 6;
#[macro_export]
macro_rules! with_digest {
    ($i:expr, $D:ident => $body:expr) => {
        match $i {
            0 => { type $D = sha2::Sha256; $body }
            1 => { type $D = sha1::Sha1; $body }
            2 => { type $D = sha2::Sha512; $body }
            3 => { type $D = sha2::Sha224; $body }
            4 => { type $D = sha2::Sha384; $body }
            5 => { type $D = $crate::toys::Toy100; $body }
            6 => { type $D = $crate::toys::Toy20Z; $body }
            7 => { type $D = $crate::toys::Toy32Z; $body }
            _ => { type $D = $crate::toys::Toy1; $body }
        }
    };
}
pub const DIGEST_NAMES: [&str; 9] =
    ["Sha256", "Sha1", "Sha512", "Sha224", "Sha384", "Toy100", "Toy20Z3", "Toy32Z1", "Toy1"];
