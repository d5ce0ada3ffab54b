//! Stand-in for aes: the real `cipher` traits over an uninterpreted block permutation.
pub use cipher;
use cipher::{consts::*, generic_array::GenericArray, inout::InOut, AlgorithmName, Block, BlockBackend, BlockCipher, BlockClosure, BlockDecrypt, BlockEncrypt, BlockSizeUser, Key, KeyInit, KeySizeUser, ParBlocksSizeUser};
#[derive(Clone)]
pub struct Aes128([u8; 16]);
impl BlockCipher for Aes128 {}
impl KeySizeUser for Aes128 {
    type KeySize = U16;
}
impl BlockSizeUser for Aes128 {
    type BlockSize = U16;
}
impl KeyInit for Aes128 {
    fn new(key: &Key<Self>) -> Self {
        let mut k = [0u8; 16];
        k.copy_from_slice(key);
        Aes128(k)
    }
}
impl AlgorithmName for Aes128 {
    fn write_alg_name(f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Aes128")
    }
}
struct Enc<'a>(&'a Aes128);
struct Dec<'a>(&'a Aes128);
macro_rules! backend {
    ($t:ident, $f:ident) => {
        impl<'a> BlockSizeUser for $t<'a> {
            type BlockSize = U16;
        }
        impl<'a> ParBlocksSizeUser for $t<'a> {
            type ParBlocksSize = U1;
        }
        impl<'a> BlockBackend for $t<'a> {
            fn proc_block(&mut self, mut block: InOut<'_, '_, Block<Self>>) {
                let mut x = [0u8; 16];
                x.copy_from_slice(block.get_in());
                let y = sxrt::uf::$f(sxrt::uf::AES, &(self.0).0, &x);
                *block.get_out() = *GenericArray::from_slice(&y[..16]);
            }
        }
    };
}
backend!(Enc, encrypt);
backend!(Dec, decrypt);
impl BlockEncrypt for Aes128 {
    fn encrypt_with_backend(&self, f: impl BlockClosure<BlockSize = U16>) {
        f.call(&mut Enc(self))
    }
}
impl BlockDecrypt for Aes128 {
    fn decrypt_with_backend(&self, f: impl BlockClosure<BlockSize = U16>) {
        f.call(&mut Dec(self))
    }
}
