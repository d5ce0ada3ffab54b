//! Stand-in for sha1: the real `digest` traits over an uninterpreted hash function.
pub use digest::{self, Digest};
use digest::{typenum::*, core_api::BlockSizeUser, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};
#[derive(Clone, Default)]
pub struct Sha1(Vec<u8>);
impl HashMarker for Sha1 {}
impl OutputSizeUser for Sha1 {
    type OutputSize = U20;
}
impl BlockSizeUser for Sha1 {
    type BlockSize = U64;
}
impl Update for Sha1 {
    fn update(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data);
    }
}
impl Reset for Sha1 {
    fn reset(&mut self) {
        self.0.clear();
    }
}
impl FixedOutput for Sha1 {
    fn finalize_into(self, out: &mut Output<Self>) {
        let d = sxrt::uf::hash(sxrt::uf::SHA1, self.0, 20);
        out.copy_from_slice(&d[..20]);
    }
}
impl FixedOutputReset for Sha1 {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        let d = sxrt::uf::hash(sxrt::uf::SHA1, std::mem::take(&mut self.0), 20);
        out.copy_from_slice(&d[..20]);
    }
}
