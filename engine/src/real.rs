//! What the names of the specification stand for, on concrete bytes (FIPS 180-4, RFC 2104, RFC 8018, FIPS 197,
//! the Salsa20 core).  Used only to confirm that two terms of the analysis denote different functions: a witness
//! of a difference is evaluated with the functions the names abbreviate, so it cannot come from the abbreviation.
use crate::spec;
use std::sync::OnceLock;

fn tables() -> &'static (Vec<u32>, Vec<u32>, Vec<u8>, Vec<u8>) {
    static T: OnceLock<(Vec<u32>, Vec<u32>, Vec<u8>, Vec<u8>)> = OnceLock::new();
    T.get_or_init(|| (spec::sha_k(), spec::sha_iv(), spec::sbox().iter().map(|x| *x as u8).collect(), spec::inv_sbox().iter().map(|x| *x as u8).collect()))
}
pub fn compress(h: &mut [u32; 8], b: &[u8]) {
    let k = &tables().0;
    let mut w = [0u32; 64];
    for t in 0..16 {
        w[t] = u32::from_be_bytes([b[4 * t], b[4 * t + 1], b[4 * t + 2], b[4 * t + 3]]);
    }
    for t in 16..64 {
        let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
        let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
        w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for t in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[t]).wrapping_add(w[t]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}
pub fn iv() -> [u32; 8] {
    let mut h = [0; 8];
    h.copy_from_slice(&tables().1);
    h
}
/// chaining value after the whole blocks of `p`
pub fn state(p: &[u8]) -> [u32; 8] {
    let mut h = iv();
    for b in p.chunks_exact(64) {
        compress(&mut h, b);
    }
    h
}
fn finish(mut h: [u32; 8], rest: &[u8], total: u64) -> [u8; 32] {
    let mut v = rest.to_vec();
    v.push(0x80);
    while v.len() % 64 != 56 {
        v.push(0);
    }
    v.extend_from_slice(&(total.wrapping_mul(8)).to_be_bytes());
    for b in v.chunks_exact(64) {
        compress(&mut h, b);
    }
    let mut o = [0; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
pub fn sha256(m: &[u8]) -> [u8; 32] {
    let n = m.len() / 64 * 64;
    finish(state(&m[..n]), &m[n..], m.len() as u64)
}
/// HMAC-SHA-256 under one key
pub struct Hmac {
    inner: [u32; 8],
    outer: [u32; 8],
}
impl Hmac {
    pub fn new(key: &[u8]) -> Hmac {
        let mut k = [0u8; 64];
        if key.len() > 64 {
            k[..32].copy_from_slice(&sha256(key));
        } else {
            k[..key.len()].copy_from_slice(key);
        }
        Hmac { inner: state(&k.map(|x| x ^ 0x36)), outer: state(&k.map(|x| x ^ 0x5c)) }
    }
    pub fn mac(&self, m: &[u8]) -> [u8; 32] {
        let n = m.len() / 64 * 64;
        let mut h = self.inner;
        for b in m[..n].chunks_exact(64) {
            compress(&mut h, b);
        }
        let d = finish(h, &m[n..], 64 + m.len() as u64);
        finish(self.outer, &d, 96)
    }
    /// (U_m+1, U_1 xor .. xor U_m+1) of the salt with its block number
    pub fn steps(&self, msg: &[u8], m: u64) -> ([u8; 32], [u8; 32]) {
        let mut u = self.mac(msg);
        let mut t = u;
        for _ in 0..m {
            u = self.mac(&u);
            for k in 0..32 {
                t[k] ^= u[k];
            }
        }
        (u, t)
    }
}
pub fn double_rounds(x: &mut [u32; 16], n: u64) {
    for _ in 0..n {
        for (a, b, c, d) in [(0, 4, 8, 12), (5, 9, 13, 1), (10, 14, 2, 6), (15, 3, 7, 11), (0, 1, 2, 3), (5, 6, 7, 4), (10, 11, 8, 9), (15, 12, 13, 14)] {
            x[b] ^= x[a].wrapping_add(x[d]).rotate_left(7);
            x[c] ^= x[b].wrapping_add(x[a]).rotate_left(9);
            x[d] ^= x[c].wrapping_add(x[b]).rotate_left(13);
            x[a] ^= x[d].wrapping_add(x[c]).rotate_left(18);
        }
    }
}
pub fn salsa_words(b: &[u8]) -> [u32; 16] {
    let mut x = [0; 16];
    for i in 0..16 {
        x[i] = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
    }
    x
}
pub fn salsa20(b: &[u8], n: u64) -> Vec<u8> {
    let x0 = salsa_words(b);
    let mut x = x0;
    double_rounds(&mut x, n);
    (0..16).flat_map(|i| x[i].wrapping_add(x0[i]).to_le_bytes()).collect()
}
pub struct Aes {
    rk: Vec<[u8; 16]>,
}
impl Aes {
    pub fn new(key: &[u8]) -> Option<Aes> {
        let nk = key.len() / 4;
        if !matches!(key.len(), 16 | 24 | 32) {
            return None;
        }
        let s = &tables().2;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [s[t[1] as usize] ^ rc, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rc = spec::gmul(rc, 2);
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|x| s[x as usize]);
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        let rk = w
            .chunks(4)
            .map(|c| {
                let mut k = [0; 16];
                for i in 0..16 {
                    k[i] = c[i / 4][i % 4];
                }
                k
            })
            .collect();
        Some(Aes { rk })
    }
    fn key(&self, s: &mut [u8; 16], r: usize) {
        for i in 0..16 {
            s[i] ^= self.rk[r][i];
        }
    }
    pub fn enc(&self, b: &[u8]) -> [u8; 16] {
        let t = &tables().2;
        let mut s = [0u8; 16];
        s.copy_from_slice(b);
        let n = self.rk.len() - 1;
        self.key(&mut s, 0);
        for r in 1..=n {
            let mut o = [0u8; 16];
            for c in 0..4 {
                for k in 0..4 {
                    o[4 * c + k] = t[s[4 * ((c + k) % 4) + k] as usize];
                }
            }
            s = if r == n { o } else { mix(&o, [2, 3, 1, 1]) };
            self.key(&mut s, r);
        }
        s
    }
    pub fn dec(&self, b: &[u8]) -> [u8; 16] {
        let t = &tables().3;
        let mut s = [0u8; 16];
        s.copy_from_slice(b);
        let n = self.rk.len() - 1;
        self.key(&mut s, n);
        for r in (0..n).rev() {
            let mut o = [0u8; 16];
            for c in 0..4 {
                for k in 0..4 {
                    o[4 * ((c + k) % 4) + k] = t[s[4 * c + k] as usize];
                }
            }
            s = o;
            self.key(&mut s, r);
            if r > 0 {
                s = mix(&s, [14, 11, 13, 9]);
            }
        }
        s
    }
}
fn mix(s: &[u8; 16], m: [u8; 4]) -> [u8; 16] {
    let mut o = [0u8; 16];
    for c in 0..4 {
        for r in 0..4 {
            for k in 0..4 {
                o[4 * c + r] ^= spec::gmul(s[4 * c + k], m[(k + 4 - r) % 4]);
            }
        }
    }
    o
}
#[cfg(test)]
mod tests {
    use super::*;
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }
    #[test]
    fn standard_vectors() {
        assert_eq!(hex(&sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
        assert_eq!(hex(&Hmac::new(b"Jefe").mac(b"what do ya want for nothing?")), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843");
        assert_eq!(hex(&Hmac::new(b"password").steps(b"salt\0\0\0\x01", 1).1), "ae4d0c95af6b46d32d0adff928f06dd02a303f8ef3c251dfd6e2d85a95474c43");
        for n in [16usize, 24, 32] {
            let key: Vec<u8> = (0..n as u8).collect();
            let pt: Vec<u8> = (0..16u8).map(|x| x * 0x11).collect();
            let a = Aes::new(&key).unwrap();
            let c = a.enc(&pt);
            let want = match n {
                16 => "69c4e0d86a7b0430d8cdb78070b4c55a",
                24 => "dda97ca4864cdfe06eaf70a0ec0d7191",
                _ => "8ea2b7ca516745bfeafc49904b496089",
            };
            assert_eq!(hex(&c), want);
            assert_eq!(a.dec(&c).to_vec(), pt);
        }
        let i = "7e879a214f3ec9867ca940e641718f26baee555b8c61c1b50df846116dcd3b1dee24f319df9b3d8514121e4b5ac5aa3276021d2909c74829edebc68db8b8c25e";
        let b: Vec<u8> = (0..64).map(|k| u8::from_str_radix(&i[2 * k..2 * k + 2], 16).unwrap()).collect();
        assert!(hex(&salsa20(&b, 4)).starts_with("a41f859c6608cc993b81cacb020cef05"));
    }
}
