//! The library under test, as the simulator sees it. `shim` implements this
//! with the real crate.

use std::error::Error;

pub type Res = Result<(), Box<dyn Error>>;

/// Mirror of the library's entropy trait.
pub trait Entropy {
    fn randombytes(&mut self, x: &mut [u8]) -> Res;
    fn randombytes_init(&mut self, seed: [u8; 48]);
}

/// One live generator object of the library.
pub trait DrbgObj: Send {
    fn randombytes(&mut self, x: &mut [u8]) -> Res;
    fn init(&mut self, seed: [u8; 48]);
    fn dup(&self) -> Box<dyn DrbgObj>;
    fn save(&self) -> DrbgState;
    fn same(&self, other: &DrbgState) -> bool;
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct DrbgState {
    pub key: [u8; 32],
    pub v: [u8; 16],
    pub count: i32,
}

#[derive(Clone, Copy)]
pub struct Lib {
    pub variant: &'static str,
    pub pk_bytes: usize,
    pub sk_bytes: usize,
    pub ct_bytes: usize,
    pub ss_bytes: usize,
    pub keypair: fn(&mut [u8], &mut [u8], &mut dyn Entropy) -> Res,
    pub enc: fn(&mut [u8], &mut [u8], &[u8], &mut dyn Entropy) -> Res,
    pub dec: fn(&mut [u8], &[u8], &[u8]) -> Res,
    pub drbg_new: fn() -> Box<dyn DrbgObj>,
    pub drbg_restore: fn(&DrbgState) -> Box<dyn DrbgObj>,
}
