//! Reference model of the NIST AES-256 CTR_DRBG (no derivation function, no
//! personalisation), as used by the NIST PQC known-answer framework.

use crate::aes::Aes256;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Drbg {
    pub key: [u8; 32],
    pub v: [u8; 16],
    /// requests since seeding; None once it left the range the type can hold
    pub count: Option<i32>,
}

fn inc(v: &mut [u8; 16]) {
    for b in v.iter_mut().rev() {
        if *b == 0xff {
            *b = 0;
        } else {
            *b += 1;
            return;
        }
    }
}

impl Drbg {
    pub fn new() -> Drbg {
        Drbg { key: [0; 32], v: [0; 16], count: Some(0) }
    }

    fn update(&mut self, data: Option<&[u8; 48]>) {
        let aes = Aes256::new(&self.key);
        let mut t = [0u8; 48];
        for c in t.chunks_mut(16) {
            inc(&mut self.v);
            c.copy_from_slice(&aes.encrypt(&self.v));
        }
        if let Some(d) = data {
            for i in 0..48 {
                t[i] ^= d[i];
            }
        }
        self.key.copy_from_slice(&t[..32]);
        self.v.copy_from_slice(&t[32..]);
    }

    pub fn init(&mut self, seed: &[u8; 48]) {
        self.key = [0; 32];
        self.v = [0; 16];
        self.update(Some(seed));
        self.count = Some(1);
    }

    pub fn bytes(&mut self, out: &mut [u8]) {
        let aes = Aes256::new(&self.key);
        for c in out.chunks_mut(16) {
            inc(&mut self.v);
            let b = aes.encrypt(&self.v);
            c.copy_from_slice(&b[..c.len()]);
        }
        self.update(None);
        self.count = self.count.and_then(|c| c.checked_add(1));
    }
}

impl Default for Drbg {
    fn default() -> Self {
        Self::new()
    }
}
