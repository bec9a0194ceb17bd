//! AES-256 block encryption from FIPS 197, written independently of the crate
//! the library uses.

fn xtime(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}

fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}

struct Tables {
    sbox: [u8; 256],
    /// column contributions 2s,s,s,3s for row 0
    t: [[u8; 4]; 256],
}

fn tables() -> &'static Tables {
    use std::sync::OnceLock;
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut sbox = [0u8; 256];
        for (i, out) in sbox.iter_mut().enumerate() {
            let mut inv = 0u8;
            if i != 0 {
                for c in 1..=255u8 {
                    if gmul(i as u8, c) == 1 {
                        inv = c;
                        break;
                    }
                }
            }
            *out = inv
                ^ inv.rotate_left(1)
                ^ inv.rotate_left(2)
                ^ inv.rotate_left(3)
                ^ inv.rotate_left(4)
                ^ 0x63;
        }
        let mut t = [[0u8; 4]; 256];
        for i in 0..256 {
            let s = sbox[i];
            t[i] = [xtime(s), s, s, xtime(s) ^ s];
        }
        Tables { sbox, t }
    })
}

pub struct Aes256 {
    rk: [[u8; 16]; 15],
}

impl Aes256 {
    pub fn new(key: &[u8; 32]) -> Aes256 {
        let tb = tables();
        let mut w = [[0u8; 4]; 60];
        for i in 0..8 {
            w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
        }
        let mut rcon = 1u8;
        for i in 8..60 {
            let mut t = w[i - 1];
            if i % 8 == 0 {
                t.rotate_left(1);
                for b in t.iter_mut() {
                    *b = tb.sbox[*b as usize];
                }
                t[0] ^= rcon;
                rcon = xtime(rcon);
            } else if i % 8 == 4 {
                for b in t.iter_mut() {
                    *b = tb.sbox[*b as usize];
                }
            }
            for j in 0..4 {
                w[i][j] = w[i - 8][j] ^ t[j];
            }
        }
        let mut rk = [[0u8; 16]; 15];
        for r in 0..15 {
            for c in 0..4 {
                rk[r][4 * c..4 * c + 4].copy_from_slice(&w[4 * r + c]);
            }
        }
        Aes256 { rk }
    }

    pub fn encrypt(&self, block: &[u8; 16]) -> [u8; 16] {
        let tb = tables();
        let mut s = [0u8; 16];
        for i in 0..16 {
            s[i] = block[i] ^ self.rk[0][i];
        }
        for r in 1..15 {
            let mut n = [0u8; 16];
            for c in 0..4 {
                if r < 14 {
                    for row in 0..4 {
                        // shift rows, then this byte's contribution to its column
                        let v = s[4 * ((c + row) % 4) + row] as usize;
                        let t = &tb.t[v];
                        for k in 0..4 {
                            n[4 * c + (k + row) % 4] ^= t[k];
                        }
                    }
                } else {
                    for row in 0..4 {
                        n[4 * c + row] = tb.sbox[s[4 * ((c + row) % 4) + row] as usize];
                    }
                }
            }
            for i in 0..16 {
                s[i] = n[i] ^ self.rk[r][i];
            }
        }
        s
    }
}

#[cfg(test)]
mod tests {
    #[test]
    fn fips197() {
        let mut k = [0u8; 32];
        for i in 0..32 {
            k[i] = i as u8;
        }
        let mut p = [0u8; 16];
        for i in 0..16 {
            p[i] = (i * 0x11) as u8;
        }
        let c = super::Aes256::new(&k).encrypt(&p);
        assert_eq!(
            c,
            [0x8e, 0xa2, 0xb7, 0xca, 0x51, 0x67, 0x45, 0xbf, 0xea, 0xfc, 0x49, 0x90, 0x4b, 0x49, 0x60, 0x89]
        );
    }
}
