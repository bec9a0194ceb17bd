//! Non-generic entry points around ntrust-native. The generic functions of the
//! library are instantiated here, so in the "instr" flavour they are compiled
//! with preemption points like the rest of the library.

use ntrust_native::{
    crypto_kem_dec, crypto_kem_enc, crypto_kem_keypair, AesState, RNGState, CRYPTO_ALGNAME,
    CRYPTO_BYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES,
};
use simcore::api::{DrbgObj, DrbgState, Entropy, Lib, Res};

struct Seam<'a>(&'a mut dyn Entropy);

impl RNGState for Seam<'_> {
    fn randombytes(&mut self, x: &mut [u8]) -> Res {
        self.0.randombytes(x)
    }
    fn randombytes_init(&mut self, entropy_input: [u8; 48]) {
        self.0.randombytes_init(entropy_input)
    }
}

fn keypair(pk: &mut [u8], sk: &mut [u8], e: &mut dyn Entropy) -> Res {
    crypto_kem_keypair(
        <&mut [u8; CRYPTO_PUBLICKEYBYTES]>::try_from(pk).expect("pk size"),
        <&mut [u8; CRYPTO_SECRETKEYBYTES]>::try_from(sk).expect("sk size"),
        &mut Seam(e),
    )
}

fn enc(ct: &mut [u8], ss: &mut [u8], pk: &[u8], e: &mut dyn Entropy) -> Res {
    crypto_kem_enc(
        <&mut [u8; CRYPTO_CIPHERTEXTBYTES]>::try_from(ct).expect("ct size"),
        <&mut [u8; CRYPTO_BYTES]>::try_from(ss).expect("ss size"),
        <&[u8; CRYPTO_PUBLICKEYBYTES]>::try_from(pk).expect("pk size"),
        &mut Seam(e),
    )
}

fn dec(ss: &mut [u8], ct: &[u8], sk: &[u8]) -> Res {
    crypto_kem_dec(
        <&mut [u8; CRYPTO_BYTES]>::try_from(ss).expect("ss size"),
        <&[u8; CRYPTO_CIPHERTEXTBYTES]>::try_from(ct).expect("ct size"),
        <&[u8; CRYPTO_SECRETKEYBYTES]>::try_from(sk).expect("sk size"),
    )
}

struct Gen(AesState);

impl DrbgObj for Gen {
    fn randombytes(&mut self, x: &mut [u8]) -> Res {
        self.0.randombytes(x)
    }
    fn init(&mut self, seed: [u8; 48]) {
        self.0.randombytes_init(seed)
    }
    fn dup(&self) -> Box<dyn DrbgObj> {
        // both ways of copying
        if self.0.v[15] & 1 == 0 {
            return Box::new(Gen(self.0.clone()));
        }
        let mut copy = AesState::new();
        copy.clone_from(&self.0);
        Box::new(Gen(copy))
    }
    fn save(&self) -> DrbgState {
        DrbgState { key: self.0.key, v: self.0.v, count: self.0.reseed_counter }
    }
    fn same(&self, o: &DrbgState) -> bool {
        self.0 == restored(o)
    }
}

fn drbg_new() -> Box<dyn DrbgObj> {
    // both ways to make one; where they differ, the one that is not specified
    let (new, default) = (AesState::new(), AesState::default());
    let zero = [0u8; 32];
    let fresh = new.key == zero && new.v == zero[..16] && new.reseed_counter == 0;
    Box::new(Gen(if fresh { default } else { new }))
}

fn restored(s: &DrbgState) -> AesState {
    let mut a = AesState::new();
    a.key = s.key;
    a.v = s.v;
    a.reseed_counter = s.count;
    a
}

fn drbg_restore(s: &DrbgState) -> Box<dyn DrbgObj> {
    Box::new(Gen(restored(s)))
}

pub fn lib() -> Lib {
    Lib {
        variant: CRYPTO_ALGNAME,
        pk_bytes: CRYPTO_PUBLICKEYBYTES,
        sk_bytes: CRYPTO_SECRETKEYBYTES,
        ct_bytes: CRYPTO_CIPHERTEXTBYTES,
        ss_bytes: CRYPTO_BYTES,
        keypair,
        enc,
        dec,
        drbg_new,
        drbg_restore,
    }
}
