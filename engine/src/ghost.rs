//! Contracts of the primitives, used when the code above them is analysed (assume-guarantee): an instance is a
//! ghost value recording the bytes absorbed so far, the outputs are uninterpreted functions of those bytes.
//! Each contract is itself proved against the body by the primitive's own obligations.
use crate::interp::*;
use crate::native::seq_of;
use crate::prove::H;
use crate::spec;
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

fn vals(w: &[W]) -> V {
    el(w.iter().map(|x| V::W(*x)).collect())
}
fn gh(n: &'static str, v: Vec<V>) -> V {
    V::Gh(n, Rc::new(v))
}
/// the ghost behind a reference (None: the object is not a ghost, analyse the body)
fn ghost_of(i: &mut In, r: &V, n: &str) -> R<Option<Rc<Vec<V>>>> {
    match i.read_ref(r)? {
        V::Gh(m, f) if m == n => Ok(Some(f)),
        V::Ref(p) => ghost_of(i, &V::Ref(p), n),
        V::Gh(m, _) => uns(format!("{} used as {}", m, n)),
        _ => Ok(None),
    }
}
fn set_ghost(i: &mut In, r: &V, n: &'static str, f: Vec<V>) -> R<()> {
    if let V::Ref(_) = i.read_ref(r)? {
        let q = i.read_ref(r)?;
        return set_ghost(i, &q, n, f);
    }
    i.write_ref(r, gh(n, f))
}
pub fn empty() -> V {
    V::Seq(Rc::new(vec![]))
}
fn append(i: &mut In, r: &V, n: &'static str, k: usize, data: &V) -> R<Cr> {
    let f = match ghost_of(i, r, n)? {
        Some(f) => f,
        None => return Ok(Cr::Inline),
    };
    let d = seq_of(i, data)?;
    let cur = f[k].seq()?.clone();
    let m = spec::cat(&mut i.cx, &[cur.to_vec(), d]);
    let mut g = (*f).clone();
    g[k] = V::Seq(Rc::new(m));
    set_ghost(i, r, n, g)?;
    Ok(Cr::Val(unit()))
}
pub fn set(h: &mut H, name: &str, f: impl Fn(&mut In, &[V]) -> R<Cr> + 'static) {
    if !h.modular {
        return;
    }
    if let Some(id) = h.i.p.by_name.get(name) {
        h.i.contracts.insert(*id, Rc::new(f));
    }
}
/// SHA256 instances: `Gh("SHA256", [message])`, poisoned after `digest`
pub fn sha(h: &mut H) {
    set(h, "dumb_crypto::sha256::SHA256::new", |_, _| Ok(Cr::Val(gh("SHA256", vec![empty()]))));
    set(h, "<dumb_crypto::sha256::SHA256 as std::default::Default>::default", |_, _| Ok(Cr::Val(gh("SHA256", vec![empty()]))));
    set(h, "<dumb_crypto::sha256::SHA256 as std::clone::Clone>::clone", |i, a| match ghost_of(i, &a[0], "SHA256")? {
        Some(f) => Ok(Cr::Val(V::Gh("SHA256", f))),
        None => Ok(Cr::Inline),
    });
    set(h, "dumb_crypto::sha256::SHA256::update", |i, a| append(i, &a[0], "SHA256", 0, &a[1]));
    set(h, "dumb_crypto::sha256::SHA256::digest", |i, a| {
        let f = match ghost_of(i, &a[0], "SHA256")? {
            Some(f) => f,
            None => return Ok(Cr::Inline),
        };
        let m = f[0].seq()?.clone();
        let d = spec::sha256(&mut i.cx, &m, false)?;
        set_ghost(i, &a[0], "SHA256", vec![V::Undef])?;
        Ok(Cr::Val(vals(&d)))
    });
}
/// HMac instances: `Gh("HMac", [key, message])`
pub fn hmac(h: &mut H) {
    set(h, "dumb_crypto::hmac::HMac::new", |i, a| {
        let k = seq_of(i, &a[0])?;
        Ok(Cr::Val(gh("HMac", vec![V::Seq(Rc::new(k)), empty()])))
    });
    set(h, "<dumb_crypto::hmac::HMac as std::clone::Clone>::clone", |i, a| match ghost_of(i, &a[0], "HMac")? {
        Some(f) => Ok(Cr::Val(V::Gh("HMac", f))),
        None => Ok(Cr::Inline),
    });
    set(h, "dumb_crypto::hmac::HMac::update", |i, a| append(i, &a[0], "HMac", 1, &a[1]));
    set(h, "dumb_crypto::hmac::HMac::digest", |i, a| {
        let f = match ghost_of(i, &a[0], "HMac")? {
            Some(f) => f,
            None => return Ok(Cr::Inline),
        };
        let (k, m) = (f[0].seq()?.clone(), f[1].seq()?.clone());
        let d = spec::hmac_app(&mut i.cx, &k, &m)?;
        set_ghost(i, &a[0], "HMac", vec![V::Undef, V::Undef])?;
        Ok(Cr::Val(vals(&d)))
    });
}
/// pbkdf2_sha256(password, salt, c, out): out becomes pbkdf2(password, salt, c)[0..len]
pub fn pbkdf2(h: &mut H) {
    set(h, "dumb_crypto::pbkdf2::pbkdf2_sha256", |i, a| {
        let (p, s) = (seq_of(i, &a[0])?, seq_of(i, &a[1])?);
        let n = i.len_of(&a[3])?;
        let c = a[2].w()?;
        let (p, s) = (key_seq(&mut i.cx, &p)?, key_seq(&mut i.cx, &s)?);
        let b = app(&mut i.cx, "pbkdf2", vec![p, s, Key::W(c)], 8);
        i.write_ref(&a[3], sl(b, Z::k(0), n))?;
        Ok(Cr::Val(unit()))
    });
}
/// salsa20(input, rounds, output): the first 64 bytes of output become salsa20(input[..64], rounds)
pub fn salsa(h: &mut H) {
    set(h, "dumb_crypto::salsa20::salsa20", |i, a| {
        let s = seq_of(i, &a[0])?;
        let (n, o) = (seq_len(&s), i.len_of(&a[2])?);
        if !i.require_ge0(&n.addk(-64), "salsa20 input shorter than a block")? || !i.require_ge0(&o.addk(-64), "salsa20 output shorter than a block")? {
            return Ok(Cr::Diverge);
        }
        let s = seq_slice(&mut i.cx, &s, &Z::k(0), &Z::k(64))?;
        let rw = a[1].w()?;
        let r = i.zw(rw);
        let out = spec::salsa_app(&mut i.cx, &s, &r)?;
        let old = seq_of(i, &a[2])?;
        let new = seq_splice(&mut i.cx, &old, &Z::k(0), &Z::k(64), &out)?;
        i.write_ref(&a[2], V::Seq(Rc::new(new)))?;
        Ok(Cr::Val(unit()))
    });
}
/// AES instances: `Gh("AES", [key])`, the empty key meaning "not initialised"
pub fn aes(h: &mut H) {
    fn err(i: &mut In, v: &str) -> R<V> {
        let (n, k) = i.variant_of("dumb_crypto::aes::AESError", v)?;
        let e = i.mk_enum(n, k, vec![]);
        Ok(i.mk_enum(2, 1, vec![e]))
    }
    set(h, "dumb_crypto::aes::AES::new", |_, _| Ok(Cr::Val(gh("AES", vec![empty()]))));
    set(h, "<dumb_crypto::aes::AES as std::default::Default>::default", |_, _| Ok(Cr::Val(gh("AES", vec![empty()]))));
    set(h, "<dumb_crypto::aes::AES as std::clone::Clone>::clone", |i, a| match ghost_of(i, &a[0], "AES")? {
        Some(f) => Ok(Cr::Val(V::Gh("AES", f))),
        None => Ok(Cr::Inline),
    });
    set(h, "dumb_crypto::aes::AES::init", |i, a| {
        if ghost_of(i, &a[0], "AES")?.is_none() {
            return Ok(Cr::Inline);
        }
        let k = seq_of(i, &a[1])?;
        let n = seq_len(&k);
        for x in [16, 24, 32] {
            let d = n.addk(-x);
            if dec_ge0(&mut i.cx, &d)? && dec_ge0(&mut i.cx, &d.mul(-1))? {
                let k = seq_slice(&mut i.cx, &k, &Z::k(0), &Z::k(x))?;
                let k = words_of(&mut i.cx, &k)?;
                set_ghost(i, &a[0], "AES", vec![V::Seq(Rc::new(spec::els(&k)))])?;
                return Ok(Cr::Val(i.mk_enum(2, 0, vec![unit()])));
            }
        }
        Ok(Cr::Val(err(i, "InvalidKeySize")?))
    });
    for (name, enc) in [("encrypt", true), ("decrypt", false)] {
        set(h, &format!("dumb_crypto::aes::AES::{}", name), move |i, a| {
            let f = match ghost_of(i, &a[0], "AES")? {
                Some(f) => f,
                None => return Ok(Cr::Inline),
            };
            let k = f[0].seq()?.clone();
            if seq_len(&k).as_k() == Some(0) {
                return Ok(Cr::Val(err(i, "NotInitialized")?));
            }
            let b = i.read_ref(&a[1])?;
            let b = words_of(&mut i.cx, &b.seq()?.clone())?;
            let o = spec::aes_app(&mut i.cx, &k, &b, enc)?;
            Ok(Cr::Val(i.mk_enum(2, 0, vec![vals(&o)])))
        });
    }
}
