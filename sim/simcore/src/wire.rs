//! Minimal byte serialisation for plans and for requests to restarted nodes.

#[derive(Default)]
pub struct W(pub Vec<u8>);

impl W {
    pub fn u(&mut self, mut x: u64) {
        loop {
            let b = (x & 0x7f) as u8;
            x >>= 7;
            if x == 0 {
                self.0.push(b);
                return;
            }
            self.0.push(b | 0x80);
        }
    }
    pub fn b(&mut self, x: &[u8]) {
        self.u(x.len() as u64);
        self.0.extend_from_slice(x);
    }
    pub fn flag(&mut self, x: bool) {
        self.u(x as u64)
    }
}

pub struct R<'a> {
    pub d: &'a [u8],
    pub at: usize,
}

impl<'a> R<'a> {
    pub fn new(d: &'a [u8]) -> R<'a> {
        R { d, at: 0 }
    }
    pub fn u(&mut self) -> u64 {
        let mut x = 0u64;
        let mut s = 0;
        loop {
            let b = *self.d.get(self.at).unwrap_or(&0);
            self.at += 1;
            x |= ((b & 0x7f) as u64) << s;
            if b & 0x80 == 0 || s > 56 {
                return x;
            }
            s += 7;
        }
    }
    pub fn b(&mut self) -> Vec<u8> {
        let n = self.u() as usize;
        let e = (self.at + n).min(self.d.len());
        let v = self.d[self.at.min(e)..e].to_vec();
        self.at += n;
        v
    }
    pub fn flag(&mut self) -> bool {
        self.u() != 0
    }
}
