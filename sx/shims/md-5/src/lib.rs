//! Stand-in for md-5: the real `digest` traits over an uninterpreted hash function.
pub use digest::{self, Digest};
use digest::{typenum::*, core_api::BlockSizeUser, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};
#[derive(Clone, Default)]
pub struct Md5(Vec<u8>);
impl HashMarker for Md5 {}
impl OutputSizeUser for Md5 {
    type OutputSize = U16;
}
impl BlockSizeUser for Md5 {
    type BlockSize = U64;
}
impl Update for Md5 {
    fn update(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data);
    }
}
impl Reset for Md5 {
    fn reset(&mut self) {
        self.0.clear();
    }
}
impl FixedOutput for Md5 {
    fn finalize_into(self, out: &mut Output<Self>) {
        let d = sxrt::uf::hash(sxrt::uf::MD5, self.0, 16);
        out.copy_from_slice(&d[..16]);
    }
}
impl FixedOutputReset for Md5 {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        let d = sxrt::uf::hash(sxrt::uf::MD5, std::mem::take(&mut self.0), 16);
        out.copy_from_slice(&d[..16]);
    }
}
