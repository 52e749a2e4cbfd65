//! Reference semantics, transcribed from the standards (FIPS 180-4, RFC 2104, RFC 8018, the Salsa20 paper,
//! RFC 7914, FIPS 197, SP 800-38A, RFC 5652 section 6.3) as terms of the analysis domain.
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

pub fn primes(n: usize) -> Vec<u64> {
    let mut v = vec![];
    let mut k = 2u64;
    while v.len() < n {
        if v.iter().all(|p| k % p != 0) {
            v.push(k);
        }
        k += 1;
    }
    v
}
/// first 32 bits of the fractional part of the square root / cube root of p, by integer search
pub fn frac_root(p: u64, cube: bool) -> u32 {
    // floor(root(p) * 2^32) mod 2^32
    let (mut lo, mut hi) = (0u128, 1u128 << 36);
    while lo + 1 < hi {
        let m = (lo + hi) / 2;
        let le = if cube {
            // m^3 <= p * 2^96 ; m < 2^36 so m^3 < 2^108
            m * m * m <= (p as u128) << 96
        } else {
            m * m <= (p as u128) << 64
        };
        if le {
            lo = m;
        } else {
            hi = m;
        }
    }
    lo as u32
}
pub fn sha_k() -> Vec<u32> {
    primes(64).into_iter().map(|p| frac_root(p, true)).collect()
}
pub fn sha_iv() -> Vec<u32> {
    primes(8).into_iter().map(|p| frac_root(p, false)).collect()
}

fn rotr(cx: &mut Cx, x: W, k: u32) -> W {
    cx.rotlk(x, 32 - k)
}
fn xor3(cx: &mut Cx, a: W, b: W, c: W) -> W {
    let x = cx.wxor(a, b);
    cx.wxor(x, c)
}
pub fn be_word(cx: &mut Cx, b: &[W]) -> W {
    let mut bits = vec![];
    for x in b.iter().rev() {
        bits.extend(cx.bits(*x).iter());
    }
    cx.mk_bits(bits)
}
pub fn le_word(cx: &mut Cx, b: &[W]) -> W {
    let mut bits = vec![];
    for x in b.iter() {
        bits.extend(cx.bits(*x).iter());
    }
    cx.mk_bits(bits)
}
pub fn be_bytes(cx: &mut Cx, w: W) -> Vec<W> {
    let mut v = le_bytes(cx, w);
    v.reverse();
    v
}
pub fn le_bytes(cx: &mut Cx, w: W) -> Vec<W> {
    let b = cx.bits(w);
    b.chunks(8).map(|c| cx.mk_bits(c.to_vec())).collect()
}
pub fn sha_compress(cx: &mut Cx, h: &[W], block: &[W]) -> Vec<W> {
    let mut w: Vec<W> = block.chunks(4).map(|c| be_word(cx, c)).collect();
    for t in 16..64 {
        let x = w[t - 2];
        let (a, b, c) = (rotr(cx, x, 17), rotr(cx, x, 19), cx.shrk(x, 10));
        let s1 = xor3(cx, a, b, c);
        let y = w[t - 15];
        let (a, b, c) = (rotr(cx, y, 7), rotr(cx, y, 18), cx.shrk(y, 3));
        let s0 = xor3(cx, a, b, c);
        let mut z = cx.add(s1, w[t - 7]);
        z = cx.add(z, s0);
        z = cx.add(z, w[t - 16]);
        w.push(z);
    }
    let k = sha_k();
    let mut v = h.to_vec();
    for t in 0..64 {
        let (a, b, c, d, e, f, g, hh) = (v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
        let (r1, r2, r3) = (rotr(cx, e, 6), rotr(cx, e, 11), rotr(cx, e, 25));
        let s1 = xor3(cx, r1, r2, r3);
        let ef = cx.wand(e, f);
        let ne = cx.wnot(e);
        let ng = cx.wand(ne, g);
        let ch = cx.wxor(ef, ng);
        let kt = cx.konst(32, k[t] as u128);
        let mut t1 = cx.add(hh, s1);
        t1 = cx.add(t1, ch);
        t1 = cx.add(t1, kt);
        t1 = cx.add(t1, w[t]);
        let (r1, r2, r3) = (rotr(cx, a, 2), rotr(cx, a, 13), rotr(cx, a, 22));
        let s0 = xor3(cx, r1, r2, r3);
        let (ab, ac, bc) = (cx.wand(a, b), cx.wand(a, c), cx.wand(b, c));
        let maj = xor3(cx, ab, ac, bc);
        let t2 = cx.add(s0, maj);
        let ne = cx.add(d, t1);
        let na = cx.add(t1, t2);
        v = vec![na, a, b, c, ne, e, f, g];
    }
    (0..8).map(|i| cx.add(h[i], v[i])).collect()
}
pub fn sha_init(cx: &mut Cx) -> Vec<W> {
    sha_iv().into_iter().map(|x| cx.konst(32, x as u128)).collect()
}
/// chaining value after the whole blocks `pre` (an uninterpreted function of the bytes; the empty prefix is the IV)
pub fn sha_state(cx: &mut Cx, pre: &[P]) -> R<Vec<W>> {
    if seq_len(pre).as_k() == Some(0) {
        return Ok(sha_init(cx));
    }
    let k = key_seq(cx, pre)?;
    let b = app(cx, "sha_state", vec![k], 32);
    Ok((0..8).map(|i| cx.elem(b, &Z::k(i))).collect())
}
pub fn sha_blocks(cx: &mut Cx, mut h: Vec<W>, bytes: &[W]) -> Vec<W> {
    for c in bytes.chunks_exact(64) {
        h = sha_compress(cx, &h, c);
    }
    h
}
/// the padded tail: message bytes after the last whole block, total length in bytes
pub fn sha_tail(cx: &mut Cx, rest: &[W], total: &Z) -> Vec<W> {
    let mut v = rest.to_vec();
    v.push(cx.konst(8, 0x80));
    while v.len() % 64 != 56 {
        v.push(cx.konst(8, 0));
    }
    let bits = cx.from_z(&total.mul(8), 64);
    v.extend(be_bytes(cx, bits));
    v
}
pub fn words_to_bytes_be(cx: &mut Cx, h: &[W]) -> Vec<W> {
    h.iter().flat_map(|w| be_bytes(cx, *w)).collect()
}
/// SHA-256 of a message: by name, or expanded when `expand` and the length is constant
pub fn sha256(cx: &mut Cx, m: &[P], expand: bool) -> R<Vec<W>> {
    if expand {
        let b = words_of(cx, m)?;
        let n = b.len() / 64 * 64;
        let iv = sha_init(cx);
        let h = sha_blocks(cx, iv, &b[..n]);
        let t = sha_tail(cx, &b[n..], &Z::k(b.len() as i128));
        let h = sha_blocks(cx, h, &t);
        return Ok(words_to_bytes_be(cx, &h));
    }
    let k = key_seq(cx, m)?;
    let b = app(cx, "sha256", vec![k], 8);
    Ok((0..32).map(|i| cx.elem(b, &Z::k(i))).collect())
}
pub fn els(w: &[W]) -> Vec<P> {
    vec![P::El(Rc::new(w.iter().map(|x| V::W(*x)).collect()))]
}
pub fn cat(cx: &mut Cx, parts: &[Vec<P>]) -> Vec<P> {
    let mut out = vec![];
    for p in parts {
        for x in p {
            seq_push(cx, &mut out, x.clone());
        }
    }
    out
}
// ---------------------------------------------------------------- HMAC
/// key block K0 as 64 words; the key length must be decided against 64
pub fn hmac_k0(cx: &mut Cx, key: &[P], expand: bool) -> R<Vec<W>> {
    let n = seq_len(key);
    let mut k = if dec_ge0(cx, &n.addk(-65))? {
        sha256(cx, key, expand)?
    } else {
        match n.as_k() {
            Some(_) => words_of(cx, key)?,
            // a short key of symbolic length: enumerate
            None => {
                let mut lo = 0;
                while dec_ge0(cx, &n.addk(-lo - 1))? {
                    lo += 1;
                }
                let s = seq_slice(cx, key, &Z::k(0), &Z::k(lo))?;
                words_of(cx, &s)?
            }
        }
    };
    while k.len() < 64 {
        k.push(cx.konst(8, 0));
    }
    Ok(k)
}
pub fn xor_all(cx: &mut Cx, k: &[W], c: u128) -> Vec<W> {
    let c = cx.konst(8, c);
    k.iter().map(|x| cx.wxor(*x, c)).collect()
}
pub fn hmac(cx: &mut Cx, key: &[P], m: &[P], expand: bool) -> R<Vec<W>> {
    let k0 = hmac_k0(cx, key, expand)?;
    let (ik, ok) = (xor_all(cx, &k0, 0x36), xor_all(cx, &k0, 0x5c));
    let im = cat(cx, &[els(&ik), m.to_vec()]);
    let inner = sha256(cx, &im, expand)?;
    let om = cat(cx, &[els(&ok), els(&inner)]);
    sha256(cx, &om, expand)
}
/// the same by name: hmac(key, message)
pub fn hmac_app(cx: &mut Cx, key: &[P], m: &[P]) -> R<Vec<W>> {
    let (k, m) = (key_seq(cx, key)?, key_seq(cx, m)?);
    let b = app(cx, "hmac", vec![k, m], 8);
    Ok((0..32).map(|i| cx.elem(b, &Z::k(i))).collect())
}
pub fn prf(cx: &mut Cx, key: &[P], m: &[P], expand: bool) -> R<Vec<W>> {
    if expand {
        hmac(cx, key, m, true)
    } else {
        hmac_app(cx, key, m)
    }
}
// ---------------------------------------------------------------- PBKDF2
pub fn pbkdf2(cx: &mut Cx, pw: &[P], salt: &[P], c: usize, len: usize, expand: bool) -> R<Vec<W>> {
    let mut out = vec![];
    let mut i = 1u32;
    while out.len() < len {
        let ctr: Vec<W> = i.to_be_bytes().iter().map(|b| cx.konst(8, *b as u128)).collect();
        let m = cat(cx, &[salt.to_vec(), els(&ctr)]);
        let mut u = prf(cx, pw, &m, expand)?;
        let mut f = u.clone();
        for _ in 1..c {
            u = prf(cx, pw, &els(&u), expand)?;
            for (x, y) in f.iter_mut().zip(u.iter()) {
                *x = cx.wxor(*x, *y);
            }
        }
        out.extend(f);
        i += 1;
    }
    out.truncate(len);
    Ok(out)
}
// ---------------------------------------------------------------- Salsa20
pub fn salsa20(cx: &mut Cx, input: &[W], double_rounds: usize) -> Vec<W> {
    let x0: Vec<W> = input.chunks(4).map(|c| le_word(cx, c)).collect();
    let mut x = x0.clone();
    for _ in 0..double_rounds {
        salsa_double_round(cx, &mut x);
    }
    salsa_end(cx, &x0, &x)
}
pub fn salsa_words(cx: &mut Cx, input: &[W]) -> Vec<W> {
    input.chunks(4).map(|c| le_word(cx, c)).collect()
}
pub fn salsa_end(cx: &mut Cx, x0: &[W], x: &[W]) -> Vec<W> {
    let mut out = vec![];
    for i in 0..16 {
        let s = cx.add(x[i], x0[i]);
        out.extend(le_bytes(cx, s));
    }
    out
}
pub fn salsa_double_round(cx: &mut Cx, x: &mut [W]) {
    fn qr(cx: &mut Cx, x: &mut [W], a: usize, b: usize, c: usize, d: usize) {
        for (t, p, q, r) in [(b, a, d, 7), (c, b, a, 9), (d, c, b, 13), (a, d, c, 18)] {
            let s = cx.add(x[p], x[q]);
            let s = cx.rotlk(s, r);
            x[t] = cx.wxor(x[t], s);
        }
    }
    for (a, b, c, d) in [(0, 4, 8, 12), (5, 9, 13, 1), (10, 14, 2, 6), (15, 3, 7, 11), (0, 1, 2, 3), (5, 6, 7, 4), (10, 11, 8, 9), (15, 12, 13, 14)] {
        qr(cx, x, a, b, c, d);
    }
}
/// by name
pub fn salsa_app(cx: &mut Cx, input: &[P], rounds: &Z) -> R<Vec<P>> {
    let k = key_seq(cx, input)?;
    let r = cx.from_z(rounds, 64);
    let b = app(cx, "salsa20", vec![k, Key::W(r)], 8);
    Ok(vec![P::Sl(b, Z::k(0), Z::k(64))])
}
// ---------------------------------------------------------------- scrypt
fn salsa8(cx: &mut Cx, x: &[W], expand: bool) -> R<Vec<W>> {
    if expand {
        return Ok(salsa20(cx, x, 4));
    }
    let s = salsa_app(cx, &els(x), &Z::k(4))?;
    words_of(cx, &s)
}
pub fn block_mix(cx: &mut Cx, b: &[W], expand: bool) -> R<Vec<W>> {
    let n = b.len() / 64;
    let mut x = b[(n - 1) * 64..].to_vec();
    let (mut even, mut odd): (Vec<W>, Vec<W>) = (vec![], vec![]);
    for i in 0..n {
        let t: Vec<W> = (0..64).map(|k| cx.wxor(x[k], b[i * 64 + k])).collect();
        x = salsa8(cx, &t, expand)?;
        if i % 2 == 0 {
            even.extend(x.iter());
        } else {
            odd.extend(x.iter());
        }
    }
    even.extend(odd);
    Ok(even)
}
pub fn ro_mix(cx: &mut Cx, b: &[W], n: usize, expand: bool) -> R<Vec<W>> {
    let mut x = b.to_vec();
    let mut v = vec![];
    for _ in 0..n {
        v.push(x.clone());
        x = block_mix(cx, &x, expand)?;
    }
    let last = (b.len() / 64 - 1) * 64;
    for _ in 0..n {
        let mut j: Vec<B> = vec![];
        for k in 0..8 {
            j.extend(cx.bits(x[last + k]).iter());
        }
        // j mod n, n a power of two
        let lg = n.trailing_zeros() as usize;
        let mut t = vec![];
        for k in 0..b.len() {
            let mut level: Vec<W> = v.iter().map(|r| r[k]).collect();
            for s in 0..lg {
                let mut nx = vec![];
                for c in level.chunks(2) {
                    nx.push(cx.wite(j[s], c[1], c[0]));
                }
                level = nx;
            }
            t.push(cx.wxor(x[k], level[0]));
        }
        x = block_mix(cx, &t, expand)?;
    }
    Ok(x)
}
// ---------------------------------------------------------------- AES
pub fn gmul(a: u8, b: u8) -> u8 {
    let (mut a, mut b, mut r) = (a as u16, b, 0u16);
    while b > 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a <<= 1;
        if a & 0x100 != 0 {
            a ^= 0x11b;
        }
        b >>= 1;
    }
    r as u8
}
pub fn sbox() -> Vec<u128> {
    (0..256u32)
        .map(|x| {
            let x = x as u8;
            let mut inv = 0u8;
            if x != 0 {
                for y in 1..=255u8 {
                    if gmul(x, y) == 1 {
                        inv = y;
                        break;
                    }
                }
            }
            (inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63) as u128
        })
        .collect()
}
pub fn inv_sbox() -> Vec<u128> {
    let s = sbox();
    let mut v = vec![0; 256];
    for (i, x) in s.iter().enumerate() {
        v[*x as usize] = i as u128;
    }
    v
}
fn sub(cx: &mut Cx, x: W, inv: bool) -> W {
    let t = cx.table(if inv { inv_sbox() } else { sbox() });
    cx.lookup(t, x, 8)
}
/// multiplication by a constant in GF(2^8), bit by bit
pub fn gf(cx: &mut Cx, x: W, c: u8) -> W {
    let b = cx.bits(x);
    let mut out = vec![F; 8];
    for i in 0..8 {
        let col = gmul(1 << i, c);
        for (k, o) in out.iter_mut().enumerate() {
            if (col >> k) & 1 == 1 {
                *o = cx.xor(*o, b[i]);
            }
        }
    }
    cx.mk_bits(out)
}
/// round keys as bytes, 16 per round
pub fn aes_expand(cx: &mut Cx, key: &[W]) -> Vec<Vec<W>> {
    let nk = key.len() / 4;
    let nr = nk + 6;
    let mut w: Vec<Vec<W>> = key.chunks(4).map(|c| c.to_vec()).collect();
    let mut rc = 1u8;
    for i in nk..4 * (nr + 1) {
        let mut t = w[i - 1].clone();
        if i % nk == 0 {
            t.rotate_left(1);
            t = t.into_iter().map(|x| sub(cx, x, false)).collect();
            let k = cx.konst(8, rc as u128);
            t[0] = cx.wxor(t[0], k);
            rc = gmul(rc, 2);
        } else if nk > 6 && i % nk == 4 {
            t = t.into_iter().map(|x| sub(cx, x, false)).collect();
        }
        let n = (0..4).map(|k| cx.wxor(w[i - nk][k], t[k])).collect();
        w.push(n);
    }
    w.chunks(4).map(|c| c.concat()).collect()
}
fn add_key(cx: &mut Cx, s: &[W], k: &[W]) -> Vec<W> {
    s.iter().zip(k.iter()).map(|(a, b)| cx.wxor(*a, *b)).collect()
}
fn shift_rows(s: &[W], inv: bool) -> Vec<W> {
    let mut o = s.to_vec();
    for r in 0..4 {
        for c in 0..4 {
            if inv {
                o[4 * ((c + r) % 4) + r] = s[4 * c + r];
            } else {
                o[4 * c + r] = s[4 * ((c + r) % 4) + r];
            }
        }
    }
    o
}
fn mix_cols(cx: &mut Cx, s: &[W], m: [u8; 4]) -> Vec<W> {
    let mut o = vec![];
    for c in s.chunks(4) {
        for r in 0..4 {
            let mut x = cx.konst(8, 0);
            for k in 0..4 {
                let t = gf(cx, c[k], m[(k + 4 - r) % 4]);
                x = cx.wxor(x, t);
            }
            o.push(x);
        }
    }
    o
}
pub fn aes_enc(cx: &mut Cx, rk: &[Vec<W>], block: &[W]) -> Vec<W> {
    let nr = rk.len() - 1;
    let mut s = add_key(cx, block, &rk[0]);
    for r in 1..=nr {
        s = s.into_iter().map(|x| sub(cx, x, false)).collect();
        s = shift_rows(&s, false);
        if r < nr {
            s = mix_cols(cx, &s, [2, 3, 1, 1]);
        }
        s = add_key(cx, &s, &rk[r]);
    }
    s
}
pub fn aes_dec(cx: &mut Cx, rk: &[Vec<W>], block: &[W]) -> Vec<W> {
    let nr = rk.len() - 1;
    let mut s = add_key(cx, block, &rk[nr]);
    for r in (0..nr).rev() {
        s = shift_rows(&s, true);
        s = s.into_iter().map(|x| sub(cx, x, true)).collect();
        s = add_key(cx, &s, &rk[r]);
        if r > 0 {
            s = mix_cols(cx, &s, [14, 11, 13, 9]);
        }
    }
    s
}
/// the block cipher by name; the two directions cancel
pub fn aes_app(cx: &mut Cx, key: &[P], block: &[W], enc: bool) -> R<Vec<W>> {
    let (me, other) = if enc { ("aes_enc", "aes_dec") } else { ("aes_dec", "aes_enc") };
    let k = key_seq(cx, key)?;
    if let Some((b, z)) = cx.as_elem(block[0]).map(|(b, z)| (b, z.clone())) {
        if z.as_k() == Some(0) && (1..16).all(|j| cx.as_elem(block[j]).map_or(false, |(c, y)| c == b && y.as_k() == Some(j as i128))) {
            if let BaseK::App(n, args) = cx.bases[b as usize].k.clone() {
                if n == other && args[0] == k {
                    return args[1..].iter().map(|x| if let Key::W(w) = x { Ok(*w) } else { uns("block") }).collect();
                }
            }
        }
    }
    let mut args = vec![k];
    args.extend(block.iter().map(|w| Key::W(*w)));
    let b = app(cx, me, args, 8);
    Ok((0..16).map(|j| cx.elem(b, &Z::k(j))).collect())
}
/// one block, by name or expanded
pub fn aes_block(cx: &mut Cx, key: &[W], block: &[W], enc: bool, expand: bool) -> R<Vec<W>> {
    if expand {
        let rk = aes_expand(cx, key);
        return Ok(if enc { aes_enc(cx, &rk, block) } else { aes_dec(cx, &rk, block) });
    }
    aes_app(cx, &els(key), block, enc)
}
pub fn xor_words(cx: &mut Cx, a: &[W], b: &[W]) -> Vec<W> {
    a.iter().zip(b.iter()).map(|(x, y)| cx.wxor(*x, *y)).collect()
}
/// CBC over whole blocks: (output, next chaining value)
pub fn cbc(cx: &mut Cx, key: &[W], iv: &[W], data: &[W], enc: bool, expand: bool) -> R<(Vec<W>, Vec<W>)> {
    let mut iv = iv.to_vec();
    let mut out = vec![];
    for b in data.chunks_exact(16) {
        if enc {
            let x = xor_words(cx, b, &iv);
            iv = aes_block(cx, key, &x, true, expand)?;
            out.extend(iv.iter());
        } else {
            let d = aes_block(cx, key, b, false, expand)?;
            out.extend(xor_words(cx, &d, &iv));
            iv = b.to_vec();
        }
    }
    Ok((out, iv))
}
