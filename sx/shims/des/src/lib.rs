//! Stand-in for des: the real `cipher` traits over an uninterpreted block permutation.
pub use cipher;
use cipher::{consts::*, generic_array::GenericArray, inout::InOut, AlgorithmName, Block, BlockBackend, BlockCipher, BlockClosure, BlockDecrypt, BlockEncrypt, BlockSizeUser, Key, KeyInit, KeySizeUser, ParBlocksSizeUser};
#[derive(Clone)]
pub struct Des([u8; 8]);
impl BlockCipher for Des {}
impl KeySizeUser for Des {
    type KeySize = U8;
}
impl BlockSizeUser for Des {
    type BlockSize = U8;
}
impl KeyInit for Des {
    fn new(key: &Key<Self>) -> Self {
        let mut k = [0u8; 8];
        k.copy_from_slice(key);
        Des(k)
    }
}
impl AlgorithmName for Des {
    fn write_alg_name(f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Des")
    }
}
struct Enc<'a>(&'a Des);
struct Dec<'a>(&'a Des);
macro_rules! backend {
    ($t:ident, $f:ident) => {
        impl<'a> BlockSizeUser for $t<'a> {
            type BlockSize = U8;
        }
        impl<'a> ParBlocksSizeUser for $t<'a> {
            type ParBlocksSize = U1;
        }
        impl<'a> BlockBackend for $t<'a> {
            fn proc_block(&mut self, mut block: InOut<'_, '_, Block<Self>>) {
                let mut x = [0u8; 8];
                x.copy_from_slice(block.get_in());
                let y = sxrt::uf::$f(sxrt::uf::DES, &(self.0).0, &x);
                *block.get_out() = *GenericArray::from_slice(&y[..8]);
            }
        }
    };
}
backend!(Enc, encrypt);
backend!(Dec, decrypt);
impl BlockEncrypt for Des {
    fn encrypt_with_backend(&self, f: impl BlockClosure<BlockSize = U8>) {
        f.call(&mut Enc(self))
    }
}
impl BlockDecrypt for Des {
    fn decrypt_with_backend(&self, f: impl BlockClosure<BlockSize = U8>) {
        f.call(&mut Dec(self))
    }
}
