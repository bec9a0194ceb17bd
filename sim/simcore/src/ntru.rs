//! Independent executable model of the NTRU KEM (NIST round 3 submission),
//! written from the specification. It shares no algorithm with the library
//! where there is a choice: inverses are computed by Frobenius powers instead
//! of division steps, packing is generic bit packing, sorting is std's, the HRSS
//! lift divides by (x - 1) through an explicit inverse.

use crate::keccak::sha3_256;

#[derive(Clone, Debug)]
pub struct Params {
    pub name: &'static str,
    pub n: usize,
    pub logq: usize,
    pub hrss: bool,
}

pub const VARIANTS: [Params; 4] = [
    Params { name: "ntruhps2048509", n: 509, logq: 11, hrss: false },
    Params { name: "ntruhps2048677", n: 677, logq: 11, hrss: false },
    Params { name: "ntruhps4096821", n: 821, logq: 12, hrss: false },
    Params { name: "ntruhrss701", n: 701, logq: 13, hrss: true },
];

/// coefficients of a ring element; Z/q values are kept modulo 2^16
pub type Poly = Vec<u16>;

impl Params {
    pub fn by_name(name: &str) -> Option<Params> {
        VARIANTS.iter().find(|p| p.name == name).cloned()
    }
    pub fn q(&self) -> usize {
        1 << self.logq
    }
    pub fn weight(&self) -> usize {
        self.q() / 8 - 2
    }
    pub fn iid_bytes(&self) -> usize {
        self.n - 1
    }
    pub fn ft_bytes(&self) -> usize {
        (30 * (self.n - 1)).div_ceil(8)
    }
    /// bytes of entropy of one key generation / one encapsulation
    pub fn seed_bytes(&self) -> usize {
        self.iid_bytes() + if self.hrss { self.iid_bytes() } else { self.ft_bytes() }
    }
    pub fn s3_bytes(&self) -> usize {
        (self.n - 1).div_ceil(5)
    }
    pub fn rq_bytes(&self) -> usize {
        (self.logq * (self.n - 1)).div_ceil(8)
    }
    pub fn pk_bytes(&self) -> usize {
        self.rq_bytes()
    }
    pub fn ct_bytes(&self) -> usize {
        self.rq_bytes()
    }
    pub fn sk_bytes(&self) -> usize {
        2 * self.s3_bytes() + self.rq_bytes() + 32
    }
    /// mask of the unused high bits of the last byte of a packed Rq element
    pub fn pad_mask(&self) -> u8 {
        match (self.logq * (self.n - 1)) % 8 {
            0 => 0,
            k => (0xffu16 << k) as u8,
        }
    }
}

pub struct Model {
    pub p: Params,
    /// 1/(x-1) in S3, for the HRSS lift
    inv_x1: Poly,
}

pub struct KeyGen {
    pub pk: Vec<u8>,
    pub sk: Vec<u8>,
    /// the secret polynomials are invertible: the key works
    pub sound: bool,
}

pub struct Decap {
    pub k: Vec<u8>,
    pub fail: bool,
    /// reasons: 1 unused bits, 2 number of +1 in m, 4 number of -1 in m, 8 r
    pub why: u8,
}

impl Model {
    pub fn new(p: Params) -> Model {
        let mut m = Model { p, inv_x1: vec![] };
        if m.p.hrss {
            let mut x1 = vec![0u16; m.p.n];
            x1[0] = 2;
            x1[1] = 1;
            m.inv_x1 = m.inv3(&x1);
        }
        m
    }

    /// product in (Z/2^16)[x]/(x^n - 1)
    pub fn mul(&self, a: &[u16], b: &[u16]) -> Poly {
        let n = self.p.n;
        let mut t = vec![0u16; 2 * n];
        for (i, &ai) in a.iter().enumerate() {
            if ai == 0 {
                continue;
            }
            for (o, &bj) in t[i..i + n].iter_mut().zip(b) {
                *o = o.wrapping_add(ai.wrapping_mul(bj));
            }
        }
        (0..n).map(|i| t[i].wrapping_add(t[i + n])).collect()
    }

    fn modq(&self, a: &mut [u16]) {
        let m = (self.p.q() - 1) as u16;
        for x in a {
            *x &= m;
        }
    }

    /// canonical representative modulo (q, Phi_n)
    fn sq(&self, mut a: Poly) -> Poly {
        let top = a[self.p.n - 1];
        for x in a.iter_mut() {
            *x = x.wrapping_sub(top);
        }
        self.modq(&mut a);
        a
    }

    /// canonical representative modulo (3, Phi_n), coefficients in {0,1,2}
    fn s3(&self, a: &[u16]) -> Poly {
        let top = a[self.p.n - 1] % 3;
        a.iter().map(|&x| (x % 3 + 3 - top) % 3).collect()
    }

    fn mul3(&self, a: &[u16], b: &[u16]) -> Poly {
        // inputs in {0,1,2}: sums stay below 4 * 821
        self.s3(&self.mul(a, b))
    }

    /// a(x^(b^k)) for the Frobenius of characteristic b, exponent k
    fn frob(&self, a: &[u16], base: usize, k: usize) -> Poly {
        let n = self.p.n;
        let mut e = 1usize;
        for _ in 0..k {
            e = e * base % n;
        }
        let mut r = vec![0u16; n];
        for (i, &x) in a.iter().enumerate() {
            r[i * e % n] = x;
        }
        r
    }

    /// a^(1 + b + ... + b^(k-1)) by the usual addition chain
    fn frob_sum(&self, a: &[u16], base: usize, k: usize, mul: &dyn Fn(&[u16], &[u16]) -> Poly) -> Poly {
        // invariant: r = a^(1 + ... + b^(e-1))
        let mut r = a.to_vec();
        let mut e = 1;
        let bits = usize::BITS - k.leading_zeros();
        for i in (0..bits - 1).rev() {
            r = mul(&r, &self.frob(&r, base, e));
            e *= 2;
            if k >> i & 1 == 1 {
                r = mul(&self.frob(&r, base, 1), a);
                e += 1;
            }
        }
        debug_assert_eq!(e, k);
        r
    }

    /// inverse in S3 = F_3[x]/Phi_n (a field); 0 maps to 0
    fn inv3(&self, a: &[u16]) -> Poly {
        let a = self.s3(a);
        let m = self.p.n - 1;
        // r = 1 + 3 + ... + 3^(m-1); a^r lies in F_3, a^-1 = a^(r-1) * a^r
        let am1 = self.frob(&self.frob_sum(&a, 3, m - 1, &|x, y| self.mul3(x, y)), 3, 1);
        let am1 = self.s3(&am1);
        let norm = self.mul3(&am1, &a);
        let c = norm[0];
        am1.iter().map(|&x| x * c % 3).collect()
    }

    /// inverse in F_2[x]/Phi_n; 0 maps to 0
    fn inv2(&self, a: &[u16]) -> Poly {
        let n = self.p.n;
        let red = |x: &[u16]| -> Poly {
            let t = x[n - 1] & 1;
            x.iter().map(|&c| (c & 1) ^ t).collect()
        };
        let mul2 = |x: &[u16], y: &[u16]| -> Poly { red(&self.mul(x, y)) };
        let a = red(a);
        // a^(2^m - 2) = (a^(2^(m-1) - 1))^2, and 2^(m-1)-1 = 1+2+...+2^(m-2)
        let t = self.frob_sum(&a, 2, n - 2, &mul2);
        red(&self.frob(&t, 2, 1))
    }

    /// inverse modulo (q, Phi_n)
    fn invq(&self, a: &[u16]) -> Poly {
        let mut v = self.inv2(a);
        let mut bits = 1;
        while bits < self.p.logq {
            // v = v * (2 - a*v)
            let mut t = self.sq(self.mul(a, &v));
            for x in t.iter_mut() {
                *x = 0u16.wrapping_sub(*x);
            }
            t[0] = t[0].wrapping_add(2);
            v = self.sq(self.mul(&v, &t));
            bits *= 2;
        }
        v
    }

    /// {0,1,2} -> {0,1,-1}
    pub fn lift_signed(a: &[u16]) -> Poly {
        a.iter().map(|&x| if x == 2 { 0xffff } else { x }).collect()
    }

    pub fn lift(&self, m: &[u16]) -> Poly {
        if !self.p.hrss {
            return Self::lift_signed(m);
        }
        let b = Self::lift_signed(&self.mul3(m, &self.inv_x1));
        let n = self.p.n;
        (0..n).map(|i| b[(i + n - 1) % n].wrapping_sub(b[i])).collect()
    }

    pub fn sample_iid(&self, u: &[u8]) -> Poly {
        let mut r: Poly = u[..self.p.n - 1].iter().map(|&b| b as u16 % 3).collect();
        r.push(0);
        r
    }

    fn sample_iid_plus(&self, u: &[u8]) -> Poly {
        let n = self.p.n;
        let mut r = self.sample_iid(u);
        let s: i32 = (0..n - 1)
            .map(|i| {
                let z = |x: u16| if x == 2 { -1i32 } else { x as i32 };
                z(r[i]) * z(r[i + 1])
            })
            .sum();
        if s < 0 {
            for i in (0..n).step_by(2) {
                r[i] = (3 - r[i]) % 3;
            }
        }
        r
    }

    pub fn sample_fixed_type(&self, u: &[u8]) -> Poly {
        let n = self.p.n;
        let w = self.p.weight();
        let bit = |i: usize| (u[i / 8] >> (i % 8)) as u32 & 1;
        let mut s: Vec<i32> = (0..n - 1)
            .map(|i| {
                let x = (0..30).fold(0u32, |x, j| x | bit(30 * i + j) << (2 + j));
                let tag = if i < w / 2 {
                    1
                } else if i < w {
                    2
                } else {
                    0
                };
                (x | tag) as i32
            })
            .collect();
        s.sort_unstable();
        let mut r: Poly = s.iter().map(|&x| (x & 3) as u16).collect();
        r.push(0);
        r
    }

    pub fn sample_rm(&self, u: &[u8]) -> (Poly, Poly) {
        let k = self.p.iid_bytes();
        let r = self.sample_iid(&u[..k]);
        let m = if self.p.hrss { self.sample_iid(&u[k..]) } else { self.sample_fixed_type(&u[k..]) };
        (r, m)
    }

    pub fn pack_s3(&self, a: &[u16]) -> Vec<u8> {
        (0..self.p.s3_bytes())
            .map(|i| {
                (0..5).rev().fold(0u8, |c, j| {
                    let d = if 5 * i + j < self.p.n - 1 { a[5 * i + j] as u8 } else { 0 };
                    c.wrapping_mul(3).wrapping_add(d)
                })
            })
            .collect()
    }

    pub fn unpack_s3(&self, b: &[u8]) -> Poly {
        let mut r = vec![0u16; self.p.n];
        for i in 0..self.p.n - 1 {
            r[i] = (b[i / 5] as u16 / 3u16.pow((i % 5) as u32)) % 3;
        }
        r
    }

    pub fn pack_q(&self, a: &[u16]) -> Vec<u8> {
        let mut out = vec![0u8; self.p.rq_bytes()];
        for i in 0..self.p.n - 1 {
            for j in 0..self.p.logq {
                let pos = i * self.p.logq + j;
                out[pos / 8] |= ((a[i] >> j & 1) as u8) << (pos % 8);
            }
        }
        out
    }

    fn unpack_q(&self, b: &[u8]) -> Poly {
        let mut r = vec![0u16; self.p.n];
        for i in 0..self.p.n - 1 {
            for j in 0..self.p.logq {
                let pos = i * self.p.logq + j;
                r[i] |= ((b[pos / 8] >> (pos % 8) & 1) as u16) << j;
            }
        }
        r
    }

    pub fn unpack_rq0(&self, b: &[u8]) -> Poly {
        let mut r = self.unpack_q(b);
        let s = r.iter().fold(0u16, |s, &x| s.wrapping_add(x));
        r[self.p.n - 1] = 0u16.wrapping_sub(s);
        r
    }

    pub fn keypair(&self, seed: &[u8], prf: &[u8]) -> KeyGen {
        let p = &self.p;
        let k = p.iid_bytes();
        let (f, g) = if p.hrss {
            (self.sample_iid_plus(&seed[..k]), self.sample_iid_plus(&seed[k..]))
        } else {
            (self.sample_iid(&seed[..k]), self.sample_fixed_type(&seed[k..]))
        };
        let fp = self.inv3(&f);
        let fs = Self::lift_signed(&f);
        let gs = Self::lift_signed(&g);
        let n = p.n;
        let gg: Poly = if p.hrss {
            // 3 (x - 1) g
            (0..n).map(|i| gs[(i + n - 1) % n].wrapping_sub(gs[i]).wrapping_mul(3)).collect()
        } else {
            gs.iter().map(|x| x.wrapping_mul(3)).collect()
        };
        let v1 = self.invq(&self.mul(&gg, &fs));
        let h = self.mul(&self.mul(&v1, &gg), &gg);
        let hq = self.sq(self.mul(&self.mul(&v1, &fs), &fs));
        let mut sk = self.pack_s3(&f);
        sk.extend(self.pack_s3(&fp));
        sk.extend(self.pack_q(&hq));
        sk.extend_from_slice(prf);
        let sound = f.iter().any(|&x| x != 0) && g.iter().any(|&x| x != 0);
        KeyGen { pk: self.pack_q(&h), sk, sound }
    }

    /// c = r*h + Lift(m) for arbitrary signed r (mod 2^16) and m in {0,1,2}
    pub fn encrypt(&self, r: &[u16], m: &[u16], pk: &[u8]) -> Vec<u8> {
        let h = self.unpack_rq0(pk);
        let mut c = self.mul(r, &h);
        for (x, l) in c.iter_mut().zip(self.lift(m)) {
            *x = x.wrapping_add(l);
        }
        self.pack_q(&c)
    }

    /// as encrypt, but with c(1) = 0 restored by adding a multiple of Phi_n, so
    /// that c stands for (r, m) even if m(1) is not 0; also the multiple
    pub fn encrypt_any(&self, r: &[u16], m: &[u16], pk: &[u8]) -> (Vec<u8>, u16) {
        let h = self.unpack_rq0(pk);
        let mut c = self.mul(r, &h);
        for (x, l) in c.iter_mut().zip(self.lift(m)) {
            *x = x.wrapping_add(l);
        }
        let sum = c.iter().fold(0u16, |a, x| a.wrapping_add(*x));
        // 1/n modulo 2^16
        let n = self.p.n as u16;
        let mut inv = n;
        for _ in 0..4 {
            inv = inv.wrapping_mul(2u16.wrapping_sub(n.wrapping_mul(inv)));
        }
        let k = 0u16.wrapping_sub(sum.wrapping_mul(inv));
        for x in c.iter_mut() {
            *x = x.wrapping_add(k);
        }
        (self.pack_q(&c), k)
    }

    pub fn encap(&self, seed: &[u8], pk: &[u8]) -> (Vec<u8>, Vec<u8>) {
        let (r, m) = self.sample_rm(seed);
        let k = sha3_256(&[&self.pack_s3(&r), &self.pack_s3(&m)]);
        (self.encrypt(&Self::lift_signed(&r), &m, pk), k.to_vec())
    }

    pub fn rejection_key(&self, ct: &[u8], sk: &[u8]) -> Vec<u8> {
        sha3_256(&[&sk[sk.len() - 32..], ct]).to_vec()
    }

    pub fn decap(&self, ct: &[u8], sk: &[u8]) -> Decap {
        let p = &self.p;
        let t = p.s3_bytes();
        let c = self.unpack_rq0(ct);
        let f = Self::lift_signed(&self.unpack_s3(&sk[..t]));
        let fp = self.unpack_s3(&sk[t..2 * t]);
        let q = p.q() as i32;
        let mut cf = self.mul(&c, &f);
        self.modq(&mut cf);
        let a: Poly = cf
            .iter()
            .map(|&x| {
                let x = x as i32;
                let x = if x >= q / 2 { x - q } else { x };
                x.rem_euclid(3) as u16
            })
            .collect();
        let m = self.mul3(&self.s3(&a), &fp);
        let mut why = (ct[ct.len() - 1] & p.pad_mask() != 0) as u8;
        if !p.hrss {
            let ones = m.iter().filter(|&&x| x == 1).count();
            let twos = m.iter().filter(|&&x| x == 2).count();
            why |= ((ones != p.weight() / 2) as u8) << 1 | ((twos != p.weight() / 2) as u8) << 2;
        }
        let b: Poly = c.iter().zip(self.lift(&m)).map(|(x, l)| x.wrapping_sub(l)).collect();
        let hq = self.unpack_q(&sk[2 * t..2 * t + p.rq_bytes()]);
        let r = self.sq(self.mul(&b, &hq));
        let r3: Poly = r
            .iter()
            .map(|&x| {
                if x as i32 == q - 1 {
                    2
                } else {
                    if x > 1 {
                        why |= 8;
                    }
                    x & 3
                }
            })
            .collect();
        let fail = why != 0;
        let k = if fail {
            self.rejection_key(ct, sk)
        } else {
            sha3_256(&[&self.pack_s3(&r3), &self.pack_s3(&m)]).to_vec()
        };
        Decap { k, fail, why }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::prng::Prng;
    #[test]
    fn roundtrip() {
        for p in VARIANTS {
            let m = Model::new(p.clone());
            let mut g = Prng::new(1);
            for _ in 0..5 {
                let mut s = vec![0u8; p.seed_bytes()];
                let mut prf = [0u8; 32];
                g.fill(&mut s);
                g.fill(&mut prf);
                let kg = m.keypair(&s, &prf);
                g.fill(&mut s);
                let (c, k) = m.encap(&s, &kg.pk);
                let d = m.decap(&c, &kg.sk);
                assert!(!d.fail);
                assert_eq!(d.k, k);
            }
        }
    }
}
