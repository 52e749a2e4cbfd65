//! The obligations: one function per primitive, each a list of jobs.
use crate::ghost;
use crate::interp::*;
use crate::prove::*;
use crate::spec::{self, els};
use crate::term::*;
use crate::tmpl::*;
use crate::val::*;
use std::rc::Rc;

pub const SHA: &str = "dumb_crypto::sha256::SHA256";
pub const HMAC: &str = "dumb_crypto::hmac::HMac";

#[derive(Clone, Copy)]
pub struct Cfg {
    pub thorough: bool,
}
pub fn seqv(s: Vec<P>) -> V {
    V::Seq(Rc::new(s))
}
pub fn part(b: u32, o: i128, n: i128) -> Vec<P> {
    vec![P::Sl(b, Z::k(o), Z::k(n))]
}
fn m(n: &str, f: &str) -> String {
    format!("{}::{}", n, f)
}

// ================================================================= SHA-256
struct ShaInst {
    q: Z,
    state: Vec<W>,
    /// whole message
    msg: Vec<P>,
}
impl Inst for ShaInst {
    fn slot(&mut self, _cx: &mut Cx, s: u32) -> R<W> {
        Ok(self.state[s as usize])
    }
    fn byte(&mut self, cx: &mut Cx, rel: i128) -> R<W> {
        seq_get(cx, &self.msg, &self.q.mul(64).addk(rel))?.w()
    }
    fn bytes(&mut self, cx: &mut Cx, o: &Z, l: &Z) -> R<Vec<P>> {
        seq_slice(cx, &self.msg, o, l)
    }
    fn q(&self) -> Z {
        self.q.clone()
    }
}
pub struct ShaTm {
    msg: u32,
    st: Vec<V>,
    hs: Vec<Vec<W>>,
    tm: Vec<Option<Rc<Tmpl>>>,
}
fn sha_update(h: &mut H, s: &V, data: Vec<P>) -> R<()> {
    let d = h.slice(data);
    h.call(&m(SHA, "update"), vec![s.clone(), d])?;
    Ok(())
}
fn sha_tmpls(h: &mut H) -> R<ShaTm> {
    let msg = h.bytes("m", true);
    let s0 = h.call(&m(SHA, "new"), vec![])?;
    let mut st = vec![s0];
    let mut hs = vec![spec::sha_init(&mut h.i.cx)];
    for k in 0..2 {
        let r = h.mem(st[k].clone());
        sha_update(h, &r, part(msg, 64 * k as i128, 64))?;
        st.push(h.i.read_ref(&r)?);
        let b: Vec<W> = (0..64).map(|j| h.i.cx.elem(msg, &Z::k(64 * k as i128 + j))).collect();
        let n = spec::sha_compress(&mut h.i.cx, &hs[k], &b);
        hs.push(n);
    }
    Ok(ShaTm { msg, st, hs, tm: vec![None; 64] })
}
impl ShaTm {
    fn tmpl(&mut self, h: &mut H, off: usize) -> R<Rc<Tmpl>> {
        if let Some(t) = &self.tm[off] {
            return Ok(t.clone());
        }
        let mut v = vec![];
        for k in 0..3 {
            let r = h.mem(self.st[k].clone());
            sha_update(h, &r, part(self.msg, 64 * k as i128, off as i128))?;
            v.push(h.i.read_ref(&r)?);
        }
        let mut fold1 = Fold::new();
        for (i, w) in self.hs[1].iter().enumerate() {
            fold1.add(&mut h.i.cx, i as u32, *w);
        }
        let mut t = Tmpl { k1: 1, block: 64, msg: self.msg, v1: v[1].clone(), v2: v[2].clone(), fold1, free: Default::default() };
        for k in 0..3 {
            let mut ins = ShaInst { q: Z::k(k as i128), state: self.hs[k].clone(), msg: part(self.msg, 64 * k as i128 - 64 * k as i128, 64 * k as i128 + off as i128) };
            weaken(h, &mut t, &mut StrictInst { inner: &mut ins }, &v[k])?;
        }
        let t = Rc::new(t);
        self.tm[off] = Some(t.clone());
        Ok(t)
    }
}
/// refuses bytes of earlier blocks: state components that merely still hold old input are left unconstrained
struct StrictInst<'a> {
    inner: &'a mut dyn Inst,
}
impl<'a> Inst for StrictInst<'a> {
    fn slot(&mut self, cx: &mut Cx, s: u32) -> R<W> {
        self.inner.slot(cx, s)
    }
    fn byte(&mut self, cx: &mut Cx, rel: i128) -> R<W> {
        if rel < 0 {
            return Ok(cx.fresh_word(8));
        }
        self.inner.byte(cx, rel)
    }
    fn bytes(&mut self, cx: &mut Cx, o: &Z, l: &Z) -> R<Vec<P>> {
        self.inner.bytes(cx, o, l)
    }
    fn q(&self) -> Z {
        self.inner.q()
    }
}
/// drop the leaves of a template that do not reproduce a concrete run
pub fn weaken(h: &mut H, t: &mut Tmpl, ins: &mut dyn Inst, real: &V) -> R<()> {
    let mut o = GenOut { leaves: 0, skipped: Default::default() };
    let g = t.inst(&mut h.i.cx, ins, &mut o)?;
    let (mut a, mut b) = (vec![], vec![]);
    leaves(&mut h.i.cx, &g, &mut a)?;
    leaves(&mut h.i.cx, real, &mut b)?;
    if a.len() != b.len() || a.len() != o.leaves {
        return uns("template shape");
    }
    t.free.extend(o.skipped.iter());
    for i in 0..a.len() {
        if a[i] != b[i] {
            t.free.insert(i);
        }
    }
    Ok(())
}
/// compare the constrained leaves of two instances; None = all equal
pub fn leaf_diff(h: &mut H, t: &Tmpl, got: &V, want: &V) -> R<Option<String>> {
    let (mut a, mut b) = (vec![], vec![]);
    leaves(&mut h.i.cx, got, &mut a)?;
    leaves(&mut h.i.cx, want, &mut b)?;
    if a.len() != b.len() {
        return Ok(Some("shape of the state".into()));
    }
    for k in 0..a.len() {
        if a[k] != b[k] && !t.free.contains(&k) {
            return Ok(Some(format!("state component {}", k)));
        }
    }
    Ok(None)
}
/// end to end through the public interface: digest of the chunks against the standard
fn sha_probe(h: &mut H, chunks: &[usize]) -> R<Verdict> {
    let msg = h.bytes("m", true);
    let s = h.call(&m(SHA, "new"), vec![])?;
    let r = h.mem(s);
    let mut o = 0;
    for c in chunks {
        sha_update(h, &r, part(msg, o, *c as i128))?;
        o += *c as i128;
    }
    let d = h.call(&m(SHA, "digest"), vec![r])?;
    let want = spec::sha256(&mut h.i.cx, &part(msg, 0, o), true)?;
    let want = seqv(els(&want));
    h.compare(T, &d, &want)
}
/// T(q, off) is the state after 64q + off bytes of a message for every q >= 1: T(1, 0) is a real state (the template
/// is built from it) and one block leads from T(q, 0) to exactly T(q + 1, 0), `off` more bytes to exactly T(q, off)
fn sha_reachable(h: &mut H, tm: &mut ShaTm, off: usize) -> R<bool> {
    let q = h.size("q", 1, 1 << 50);
    for (n, q2, off2) in [(64i128, q.addk(1), 0usize), (off as i128, q.clone(), off)] {
        let msg = tm.msg;
        let t = tm.tmpl(h, 0)?;
        let st = spec::sha_state(&mut h.i.cx, &[P::Sl(msg, Z::k(0), q.mul(64))])?;
        let mut ins = ShaInst { q: q.clone(), state: st.clone(), msg: vec![P::Sl(msg, Z::k(0), q.mul(64))] };
        let mut o = GenOut { leaves: 0, skipped: Default::default() };
        let pre = t.inst(&mut h.i.cx, &mut ins, &mut o)?;
        let r = h.mem(pre);
        sha_update(h, &r, vec![P::Sl(msg, q.mul(64), Z::k(n))])?;
        let got = h.i.read_ref(&r)?;
        let st2 = if n == 64 {
            let b: Vec<W> = (0..64).map(|j| h.i.cx.elem(msg, &q.mul(64).addk(j))).collect();
            spec::sha_compress(&mut h.i.cx, &st, &b)
        } else {
            st
        };
        let t2 = tm.tmpl(h, off2)?;
        let mut ins = ShaInst { q: q2, state: st2, msg: vec![P::Sl(msg, Z::k(0), q.mul(64).addk(n))] };
        let want = t2.inst(&mut h.i.cx, &mut ins, &mut o)?;
        if leaf_diff(h, &t2, &got, &want)?.is_some() {
            return Ok(false);
        }
    }
    Ok(true)
}
/// from the state after 64q + off bytes: update by n bytes, digest, against the standard
fn sha_tail_probe(h: &mut H, tm: &mut ShaTm, off: usize, n: usize) -> R<Verdict> {
    let q = h.size("q", 1, 1 << 50);
    let msg = tm.msg;
    let t = tm.tmpl(h, off)?;
    let st = spec::sha_state(&mut h.i.cx, &[P::Sl(msg, Z::k(0), q.mul(64))])?;
    let mut ins = ShaInst { q: q.clone(), state: st.clone(), msg: vec![P::Sl(msg, Z::k(0), q.mul(64).addk(off as i128))] };
    let mut o = GenOut { leaves: 0, skipped: Default::default() };
    let pre = t.inst(&mut h.i.cx, &mut ins, &mut o)?;
    let r = h.mem(pre);
    sha_update(h, &r, vec![P::Sl(msg, q.mul(64).addk(off as i128), Z::k(n as i128))])?;
    let d = h.call(&m(SHA, "digest"), vec![r])?;
    let rest: Vec<W> = (0..off + n).map(|j| h.i.cx.elem(msg, &q.mul(64).addk(j as i128))).collect();
    let tail = spec::sha_tail(&mut h.i.cx, &rest, &q.mul(64).addk((off + n) as i128));
    let hh = spec::sha_blocks(&mut h.i.cx, st, &tail);
    let w = spec::words_to_bytes_be(&mut h.i.cx, &hh);
    h.compare(T, &d, &seqv(els(&w)))
}
fn sha_sym_probe(h: &mut H, tm: &mut ShaTm, off: usize, n: usize) -> R<Option<String>> {
    match sha_reachable(h, tm, off) {
        Ok(true) => {}
        Err(E::Split(z)) => return Err(E::Split(z)),
        _ => return Ok(None),
    }
    match sha_tail_probe(h, tm, off, n) {
        Ok(Verdict::Violated(x)) => Ok(Some(format!("q blocks and {} bytes, update by {} bytes, digest: {}", off, n, x))),
        Err(E::Split(z)) => Err(E::Split(z)),
        _ => Ok(None),
    }
}
fn sha_probes(h: &mut H, what: &str, cands: Vec<Vec<usize>>, why: &str) -> R<()> {
    for c in &cands {
        let v = match sha_probe(h, c) {
            Ok(v) => v,
            Err(E::Split(z)) => return Err(E::Split(z)),
            Err(E::Unsupported(_)) => continue,
        };
        if let Verdict::Violated(x) = v {
            h.bad(what, format!("{}; updates of {:?} bytes then digest: {}", why, c, x));
            return Ok(());
        }
    }
    h.undecided(what, format!("{} (no difference in {} end-to-end histories)", why, cands.len()));
    Ok(())
}
pub fn sha_jobs(cfg: Cfg) -> Vec<Job> {
    let mut v = vec![];
    v.push(job("sha256", "short messages end to end", move |h| {
        h.modular = false;
        for n in [0usize, 1, 3, 55, 56, 63, 64, 65] {
            let c = [n];
            let x = sha_probe(h, &c)?;
            h.obs.push(Ob { what: format!("SHA256 of {} bytes", n), v: x });
        }
        let (a, b) = (h.call(&m(SHA, "new"), vec![])?, h.call(&format!("<{} as std::default::Default>::default", SHA), vec![])?);
        h.expect("default() is a fresh instance", &a, &b)?;
        Ok(())
    }));
    for off in 0..64usize {
        v.push(job("sha256", format!("any number of blocks plus {} bytes", off), move |h| {
            let q = h.size("q", 0, 1 << 50);
            let mut tm = sha_tmpls(h)?;
            let msg = tm.msg;
            let t = tm.tmpl(h, off)?;
            let pre_len = q.mul(64).addk(off as i128);
            let pre_msg = vec![P::Sl(msg, Z::k(0), pre_len.clone())];
            let st = spec::sha_state(&mut h.i.cx, &[P::Sl(msg, Z::k(0), q.mul(64))])?;
            let mut ins = ShaInst { q: q.clone(), state: st.clone(), msg: pre_msg.clone() };
            let mut o = GenOut { leaves: 0, skipped: Default::default() };
            let pre = t.inst(&mut h.i.cx, &mut ins, &mut o)?;
            // digest
            {
                let r = h.mem(pre.clone());
                let d = h.call(&m(SHA, "digest"), vec![r])?;
                let rest: Vec<W> = (0..off).map(|j| h.i.cx.elem(msg, &q.mul(64).addk(j as i128))).collect();
                let tail = spec::sha_tail(&mut h.i.cx, &rest, &pre_len);
                let hh = spec::sha_blocks(&mut h.i.cx, st.clone(), &tail);
                let w = spec::words_to_bytes_be(&mut h.i.cx, &hh);
                let c = h.compare(T, &d, &seqv(els(&w)))?;
                let what = format!("digest after 64q+{} bytes", off);
                match c {
                    Verdict::Ok => h.ok(what),
                    Verdict::Violated(x) | Verdict::Undecided(x) => {
                        if let Some(y) = sha_sym_probe(h, &mut tm, off, 0)? {
                            h.bad(&what, format!("{}; {}", x, y));
                        } else {
                            sha_probes(h, &what, vec![vec![off], vec![64 + off], vec![128 + off], vec![256 + off], vec![64, off, 0], vec![1, off + 63]], &x)?;
                        }
                        if h.obs.last().map_or(false, |o| matches!(o.v, Verdict::Violated(_))) {
                            return Ok(());
                        }
                    }
                }
            }
            // update
            let d = h.bytes("d", true);
            let mut ns: Vec<usize> = vec![0, 1, 2, 3, 7, 63 - off, 64 - off, 65 - off, 64, 65, 128 - off, 129 - off, 200];
            if cfg.thorough {
                ns = (0..200).collect();
                ns.extend([255, 256, 257, 300, 511, 512, 513, 640]);
            }
            ns.sort();
            ns.dedup();
            for n in ns {
                let r = h.mem(pre.clone());
                sha_update(h, &r, part(d, 0, n as i128))?;
                let got = h.i.read_ref(&r)?;
                let (nb, off2) = ((off + n) / 64, (off + n) % 64);
                let t2 = tm.tmpl(h, off2)?;
                let all = spec::cat(&mut h.i.cx, &[pre_msg.clone(), part(d, 0, n as i128)]);
                let q2 = q.addk(nb as i128);
                let mut bl = vec![];
                for j in 0..64 * nb {
                    bl.push(if j < off { h.i.cx.elem(msg, &q.mul(64).addk(j as i128)) } else { h.i.cx.elem(d, &Z::k((j - off) as i128)) });
                }
                let st2 = spec::sha_blocks(&mut h.i.cx, st.clone(), &bl);
                let mut ins = ShaInst { q: q2, state: st2, msg: all };
                let mut o = GenOut { leaves: 0, skipped: Default::default() };
                let want = t2.inst(&mut h.i.cx, &mut ins, &mut o)?;
                let what = format!("update by {} bytes after 64q+{} bytes", n, off);
                match leaf_diff(h, &t2, &got, &want)? {
                    None => h.ok(what),
                    Some(x) => {
                        let z = (64 - (off + n) % 64) % 64;
                        if let Some(y) = sha_sym_probe(h, &mut tm, off, n)? {
                            h.bad(&what, format!("{}; {}", x, y));
                            return Ok(());
                        }
                        sha_probes(h, &what, vec![vec![off, n], vec![off, n, 1], vec![64 + off, n], vec![off, n, z], vec![64 + off, n, 1], vec![off, n, z, 64]], &x)?;
                        if h.obs.last().map_or(false, |o| matches!(o.v, Verdict::Violated(_))) {
                            return Ok(());
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    // one update call of any length: 64 M + e bytes, M symbolic
    for off in 0..64usize {
        v.push(job("sha256", format!("one update of any length after 64q+{} bytes", off), move |h| {
            let mut es: Vec<usize> = vec![0, (64 - off) % 64, (65 - off) % 64, 63 - off, 31];
            if cfg.thorough {
                es = (0..64).collect();
            }
            es.sort();
            es.dedup();
            for e in es {
                sha_long(h, off, e)?;
                if h.obs.last().map_or(false, |o| matches!(o.v, Verdict::Violated(_))) {
                    return Ok(());
                }
            }
            Ok(())
        }));
    }
    v
}
/// the specified hash states along prefix ++ data, in blocks from 64 q; states after the first block are named by
/// what they are the hash state of, from the next loop head on
fn sha_chain(h: &mut H, q: &Z, st: &[W], all: &[P], steps: usize) -> R<crate::loops::Chain> {
    let mut at = vec![st.to_vec()];
    for j in 0..steps {
        let b = match words_at(&mut h.i.cx, all, &q.addk(j as i128).mul(64), 64) {
            Ok(b) => b,
            Err(_) => break,
        };
        let n = spec::sha_compress(&mut h.i.cx, &at[j], &b);
        if h.i.loop_ctx.seal {
            // names that stand for the computed words
            let v: Vec<W> = n.iter().map(|w| h.i.cx.seal(*w)).collect();
            for (x, y) in n.iter().zip(v.iter()) {
                h.i.loop_ctx.rename.insert(*x, *y);
            }
            at.push(v);
            continue;
        }
        let p = seq_slice(&mut h.i.cx, all, &Z::k(0), &q.addk(j as i128 + 1).mul(64))?;
        let v = spec::sha_state(&mut h.i.cx, &p)?;
        for (x, y) in n.iter().zip(v.iter()) {
            h.i.loop_ctx.rename.insert(*x, *y);
        }
        at.push(v);
    }
    let (all1, all2, q1, q2) = (all.to_vec(), all.to_vec(), q.clone(), q.clone());
    Ok(crate::loops::Chain {
        base: Z::k(0),
        named: true,
        at,
        out: vec![],
        stream: None,
        sym: Rc::new(move |cx, m| {
            let p = seq_slice(cx, &all1, &Z::k(0), &q1.add(m).mul(64))?;
            spec::sha_state(cx, &p)
        }),
        next: Rc::new(move |cx, m, s| {
            let b = words_at(cx, &all2, &q2.add(m).mul(64), 64)?;
            Ok((spec::sha_compress(cx, s, &b), vec![]))
        }),
    })
}
fn words_at(cx: &mut Cx, s: &[P], o: &Z, n: usize) -> R<Vec<W>> {
    if !cx.prove_ge0(&seq_len(s).sub(o).addk(-(n as i128))) {
        return uns("past the end");
    }
    let p = seq_slice(cx, s, o, &Z::k(n as i128))?;
    words_of(cx, &p)
}
fn sha_long(h: &mut H, off: usize, e: usize) -> R<()> {
    let what = format!("update by 64M+{} bytes after 64q+{} bytes", e, off);
    let big = h.size("M", 4, 1 << 48);
    h.i.budget = h.i.cx.size_now() + if std::env::var("ENGINE_PROBES").is_ok() { 1 } else { 100_000_000 };
    let r = sha_long_sym(h, off, e, &big);
    h.i.budget = 0;
    h.i.want_snaps = false;
    h.i.loop_ctx = Default::default();
    let mut why = match r {
        Ok(Verdict::Ok) => {
            h.ok(what);
            return Ok(());
        }
        Err(E::Split(z)) => return Err(E::Split(z)),
        Err(E::Unsupported(x)) | Ok(Verdict::Undecided(x)) => x,
        Ok(Verdict::Violated(x)) => {
            let mut tm = sha_tmpls(h)?;
            match sha_reachable(h, &mut tm, off) {
                Ok(true) => {
                    h.bad(what, x);
                    return Ok(());
                }
                Err(E::Split(z)) => return Err(E::Split(z)),
                _ => x,
            }
        }
    };
    if why.is_empty() {
        why = "state".into();
    }
    // a witness: the smallest sizes this case of the code allows
    let mut ms = vec![];
    if let Some(k) = least(h, &big, 4, 1100) {
        if k <= 64 || off % 31 == 0 && (e == 0 || e == 31) {
            ms.push(k);
        }
    }
    if off % 31 == 0 && e == 31 {
        ms.extend([17, 64]);
        if off == 31 {
            ms.push(257);
        }
    }
    ms.dedup();
    let mut tm = sha_tmpls(h)?;
    if !ms.is_empty() {
        match sha_reachable(h, &mut tm, off) {
            Ok(true) => {}
            Err(E::Split(z)) => return Err(E::Split(z)),
            _ => ms.clear(),
        }
    }
    for k in ms {
        let n = (64 * k) as usize + e;
        // computed states get a name where they are the specified ones, or else all large words do
        let mut v = uns("no witness");
        for blanket in [false, true] {
            h.i.budget = h.i.cx.size_now() + 200_000_000;
            h.draws = 4;
            v = sha_long_probe(h, &mut tm, off, n, blanket);
            h.draws = 48;
            h.i.budget = 0;
            if !matches!(v, Err(E::Unsupported(_))) {
                break;
            }
        }
        h.i.loop_ctx = Default::default();
        match v {
            Ok(Verdict::Violated(x)) => {
                h.bad(&what, format!("{}; q blocks and {} bytes, update by {} bytes, digest: {}", why, off, n, x));
                return Ok(());
            }
            Err(E::Split(z)) => return Err(E::Split(z)),
            _ => {}
        }
    }
    h.undecided(what, why);
    Ok(())
}
/// steps of a recurrence worth listing: as many as the code takes before the size matters, up to a long loop
fn steps_from(h: &H, z: &Z, lo: i128) -> usize {
    least(h, z, lo, crate::loops::STEPS as i128).map_or(crate::loops::STEPS, |k| k as usize)
}
/// the smallest value of a size that the facts about it alone allow
fn least(h: &H, z: &Z, lo: i128, hi: i128) -> Option<i128> {
    let w = z.t.first()?.0;
    (lo..=hi).find(|k| {
        h.i.cx.facts.iter().all(|f| {
            let g = f.subst(w, &Z::k(*k));
            g.as_k().map_or(true, |v| v >= 0)
        })
    })
}
fn sha_long_sym(h: &mut H, off: usize, e: usize, big: &Z) -> R<Verdict> {
    let q = h.size("q", 0, 1 << 48);
    let n = big.mul(64).addk(e as i128);
    let mut tm = sha_tmpls(h)?;
    let msg = tm.msg;
    let t = tm.tmpl(h, off)?;
    let pre_len = q.mul(64).addk(off as i128);
    let d = h.bytes("d", true);
    let pre_msg = vec![P::Sl(msg, Z::k(0), pre_len.clone())];
    let all = spec::cat(&mut h.i.cx, &[pre_msg.clone(), vec![P::Sl(d, Z::k(0), n.clone())]]);
    let st = spec::sha_state(&mut h.i.cx, &[P::Sl(msg, Z::k(0), q.mul(64))])?;
    let mut ins = ShaInst { q: q.clone(), state: st.clone(), msg: pre_msg };
    let mut o = GenOut { leaves: 0, skipped: Default::default() };
    let pre = t.inst(&mut h.i.cx, &mut ins, &mut o)?;
    h.i.loop_ctx = Default::default();
    let least = steps_from(h, big, 4);
    let ch = sha_chain(h, &q, &st, &all, least + (off + e) / 64)?;
    h.i.want_snaps = true;
    h.i.loop_ctx.chains = vec![ch.clone()];
    let r = h.mem(pre);
    let d2 = h.slice(vec![P::Sl(d, Z::k(0), n)]);
    let res = h.call(&m(SHA, "update"), vec![r.clone(), d2]);
    h.i.want_snaps = false;
    h.i.loop_ctx.chains.clear();
    h.i.loop_ctx.rename.clear();
    res?;
    let blocks = big.addk(((off + e) / 64) as i128);
    let st2 = chain_state(h, 0, &ch, &blocks)?;
    let off2 = (off + e) % 64;
    let t2 = tm.tmpl(h, off2)?;
    let mut ins = ShaInst { q: q.add(&blocks), state: st2.clone(), msg: all.clone() };
    let want = t2.inst(&mut h.i.cx, &mut ins, &mut o)?;
    let got = h.i.read_ref(&r)?;
    let why = match leaf_diff(h, &t2, &got, &want)? {
        None => return Ok(Verdict::Ok),
        Some(x) => x,
    };
    // (the same state under its name)
    let named = (ch.sym)(&mut h.i.cx, &blocks)?;
    if named != st2 {
        let mut ins = ShaInst { q: q.add(&blocks), state: named, msg: all.clone() };
        let want = t2.inst(&mut h.i.cx, &mut ins, &mut o)?;
        if leaf_diff(h, &t2, &got, &want)?.is_none() {
            return Ok(Verdict::Ok);
        }
    }
    // is the difference observable? the digest, against the standard
    let done = q.add(&blocks);
    let d = h.call(&m(SHA, "digest"), vec![r])?;
    let rest = words_at(&mut h.i.cx, &all, &done.mul(64), off2)?;
    let tail = spec::sha_tail(&mut h.i.cx, &rest, &done.mul(64).addk(off2 as i128));
    let hh = spec::sha_blocks(&mut h.i.cx, st2, &tail);
    let w = spec::words_to_bytes_be(&mut h.i.cx, &hh);
    match h.compare(T, &d, &seqv(els(&w)))? {
        Verdict::Violated(x) => Ok(Verdict::Violated(format!("{}; digest: {}", why, x))),
        _ => Ok(Verdict::Undecided(why)),
    }
}
/// from the state after 64q + off bytes: one long update, digest, against the standard
fn sha_long_probe(h: &mut H, tm: &mut ShaTm, off: usize, n: usize, blanket: bool) -> R<Verdict> {
    let q = h.size("q", 1, 1 << 48);
    let msg = tm.msg;
    let t = tm.tmpl(h, off)?;
    let st = spec::sha_state(&mut h.i.cx, &[P::Sl(msg, Z::k(0), q.mul(64))])?;
    let mut ins = ShaInst { q: q.clone(), state: st.clone(), msg: vec![P::Sl(msg, Z::k(0), q.mul(64).addk(off as i128))] };
    let mut o = GenOut { leaves: 0, skipped: Default::default() };
    let pre = t.inst(&mut h.i.cx, &mut ins, &mut o)?;
    let total = q.mul(64).addk((off + n) as i128);
    let all = vec![P::Sl(msg, Z::k(0), total.clone())];
    h.i.loop_ctx = Default::default();
    let nb = (off + n) / 64;
    h.i.loop_ctx.seal = true;
    let ch = sha_chain(h, &q, &st, &all, nb)?;
    h.i.loop_ctx.seal = blanket;
    let r = h.mem(pre);
    sha_update(h, &r, vec![P::Sl(msg, q.mul(64).addk(off as i128), Z::k(n as i128))])?;
    let d = h.call(&m(SHA, "digest"), vec![r])?;
    let rest: Vec<W> = (64 * nb..off + n).map(|j| h.i.cx.elem(msg, &q.mul(64).addk(j as i128))).collect();
    let tail = spec::sha_tail(&mut h.i.cx, &rest, &total);
    let hh = spec::sha_blocks(&mut h.i.cx, ch.at[nb].clone(), &tail);
    let w = spec::words_to_bytes_be(&mut h.i.cx, &hh);
    h.compare(T, &d, &seqv(els(&w)))
}
/// the specified state after `total` steps, unfolded from where the loop summary ended
fn chain_state(h: &mut H, k: usize, ch: &crate::loops::Chain, total: &Z) -> R<Vec<W>> {
    let total = &h.pinned(total);
    let at = match h.i.loop_ctx.reached.get(k) {
        Some(Some(z)) => z.clone(),
        _ => return (ch.sym)(&mut h.i.cx, total),
    };
    let at = h.pinned(&at);
    let k = match total.sub(&at).as_k() {
        Some(k) if k >= 0 && k < 64 => k,
        // the loop ends elsewhere
        _ => return (ch.sym)(&mut h.i.cx, total),
    };
    let mut s = (ch.sym)(&mut h.i.cx, &at)?;
    for j in 0..k {
        s = (ch.next)(&mut h.i.cx, &at.addk(j), &s)?.0;
    }
    Ok(s)
}
// ================================================================= HMAC
fn hm_update(h: &mut H, s: &V, data: Vec<P>) -> R<()> {
    let d = h.slice(data);
    h.call(&m(HMAC, "update"), vec![s.clone(), d])?;
    Ok(())
}
pub fn hmac_jobs(cfg: Cfg) -> Vec<Job> {
    let mut v = vec![];
    v.push(job("hmac", "every key length, message length and chunking", move |h| {
        ghost::sha(h);
        let (kb, xb) = (h.bytes("key", true), h.bytes("x", true));
        let kn = h.size("key_len", 0, 1 << 32);
        let a = h.size("a", 0, 1 << 32);
        let b = h.size("b", 0, 1 << 32);
        let key = vec![P::Sl(kb, Z::k(0), kn.clone())];
        let kr = h.slice(key.clone());
        let s = h.call(&m(HMAC, "new"), vec![kr])?;
        // no update at all
        let r0 = h.mem(s.clone());
        let d0 = h.call(&m(HMAC, "digest"), vec![r0])?;
        let w0 = spec::hmac(&mut h.i.cx, &key, &[], false)?;
        h.expect("HMac of the empty message", &d0, &seqv(els(&w0)))?;
        // x[0..a] then x[a..a+b] equals x[0..a+b]
        let r1 = h.mem(s.clone());
        hm_update(h, &r1, vec![P::Sl(xb, Z::k(0), a.clone())])?;
        hm_update(h, &r1, vec![P::Sl(xb, a.clone(), b.clone())])?;
        let two = h.i.read_ref(&r1)?;
        let r2 = h.mem(s);
        hm_update(h, &r2, vec![P::Sl(xb, Z::k(0), a.add(&b))])?;
        let one = h.i.read_ref(&r2)?;
        h.expect("update(x); update(y) leaves the state of update(x || y)", &two, &one)?;
        let d = h.call(&m(HMAC, "digest"), vec![r2])?;
        let w = spec::hmac(&mut h.i.cx, &key, &[P::Sl(xb, Z::k(0), a.add(&b))], false)?;
        h.expect("HMac::digest is HMAC-SHA256(key, message)", &d, &seqv(els(&w)))?;
        Ok(())
    }));
    let _ = cfg;
    v
}
/// bounded fallback with the hash analysed inline
pub fn hmac_inline_jobs() -> Vec<Job> {
    [0usize, 1, 20, 63, 64, 65, 100]
        .iter()
        .map(|&kn| {
            job("hmac", format!("key of {} bytes, hash analysed inline", kn), move |h| {
                h.modular = false;
                let (kb, xb) = (h.bytes("key", true), h.bytes("x", true));
                for chunks in [vec![], vec![3usize], vec![1, 64]] {
                    let kr = h.slice(part(kb, 0, kn as i128));
                    let s = h.call(&m(HMAC, "new"), vec![kr])?;
                    let r = h.mem(s);
                    let mut o = 0;
                    for c in &chunks {
                        hm_update(h, &r, part(xb, o, *c as i128))?;
                        o += *c as i128;
                    }
                    let d = h.call(&m(HMAC, "digest"), vec![r])?;
                    let w = spec::hmac(&mut h.i.cx, &part(kb, 0, kn as i128), &part(xb, 0, o), true)?;
                    h.expect(&format!("HMac with a {}-byte key and updates of {:?} bytes", kn, chunks), &d, &seqv(els(&w)))?;
                }
                Ok(())
            })
        })
        .collect()
}
// ================================================================= PBKDF2
pub const PBKDF2: &str = "dumb_crypto::pbkdf2::pbkdf2_sha256";
pub fn pbkdf2_jobs(cfg: Cfg) -> Vec<Job> {
    let mut v = vec![];
    let mut cases: Vec<(usize, usize)> = vec![];
    let lens: Vec<usize> = if cfg.thorough { (0..=130).chain([159, 160, 161, 255, 256, 257, 1000, 8159, 8160, 8161, 8192, 8200, 20000]).collect() } else { (0..=66).chain([95, 96, 97, 128, 300, 8192, 8200]).collect() };
    for l in lens {
        cases.push((1, l));
    }
    for c in [2usize, 3, 4, 5, 8, 16, 17] {
        for l in [1usize, 31, 32, 33, 65] {
            cases.push((c, l));
        }
    }
    for c in [255usize, 256, 257, 300, 1000] {
        cases.push((c, 33));
    }
    if cfg.thorough {
        cases.push((4097, 32));
    }
    for ch in cases.chunks(8) {
        let ch = ch.to_vec();
        v.push(job("pbkdf2", format!("iterations/output length {:?}", ch), move |h| {
            ghost::hmac(h);
            let (pb, sb, ob) = (h.bytes("password", true), h.bytes("salt", false), h.bytes("out", false));
            for (c, l) in &ch {
                let (pw, salt) = if h.modular {
                    let pl = h.size("pw_len", 0, 1 << 32);
                    let sl = h.size("salt_len", 0, 1 << 32);
                    (vec![P::Sl(pb, Z::k(0), pl)], vec![P::Sl(sb, Z::k(0), sl)])
                } else {
                    if *c > 2 || *l > 40 {
                        continue;
                    }
                    (part(pb, 0, 8), part(sb, 0, 5))
                };
                let (pr, sr, or) = (h.slice(pw.clone()), h.slice(salt.clone()), h.slice(part(ob, 0, *l as i128)));
                let cw = h.i.k64(*c as u128);
                h.call(PBKDF2, vec![pr, sr, cw, or.clone()])?;
                let got = h.i.read_ref(&or)?;
                let ex = !h.modular;
                let w = spec::pbkdf2(&mut h.i.cx, &pw, &salt, *c, *l, ex)?;
                h.expect(&format!("pbkdf2_sha256 with c = {}, {} output bytes", c, l), &got, &seqv(els(&w)))?;
            }
            Ok(())
        }));
    }
    for l in [1usize, 20, 32, 33, 64, 96] {
        v.push(job("pbkdf2", format!("any number of iterations, {} output bytes", l), move |h| pbkdf2_iters(h, l)));
    }
    for e in 0..32usize {
        for c in if cfg.thorough { vec![1usize, 2, 3, 5] } else { vec![1usize, 2] } {
            v.push(job("pbkdf2", format!("any output length 32M+{} with {} iterations", e, c), move |h| pbkdf2_long(h, e, c)));
        }
    }
    v
}
/// c is symbolic: the inner loop follows (U, T) -> (PRF(P, U), T xor PRF(P, U))
fn pbkdf2_iters(h: &mut H, l: usize) -> R<()> {
    if !h.modular {
        return Ok(());
    }
    let what = format!("pbkdf2_sha256 with any c, {} output bytes", l);
    let c = h.size("c", 6, 1 << 40);
    let r = pbkdf2_iters_sym(h, l, &c);
    h.i.want_snaps = false;
    h.i.loop_ctx = Default::default();
    let why = match r {
        Ok(Verdict::Ok) => {
            h.ok(what);
            return Ok(());
        }
        Err(E::Split(z)) => return Err(E::Split(z)),
        Ok(Verdict::Violated(x)) => {
            h.bad(what, x);
            return Ok(());
        }
        Err(E::Unsupported(x)) | Ok(Verdict::Undecided(x)) => x,
    };
    // a witness: the smallest c this case of the code allows
    let cs: Vec<usize> = least(h, &c, 6, 600).map(|k| k as usize).into_iter().collect();
    for c in cs {
        match pbkdf2_case(h, c, l) {
            Ok(Verdict::Violated(x)) => {
                h.bad(&what, format!("{}; c = {}: {}", why, c, x));
                return Ok(());
            }
            Err(E::Split(z)) => return Err(E::Split(z)),
            _ => {}
        }
    }
    h.undecided(what, why);
    Ok(())
}
fn pbkdf2_args(h: &mut H) -> (Vec<P>, Vec<P>, u32) {
    ghost::hmac(h);
    let (pb, sb, ob) = (h.bytes("password", true), h.bytes("salt", false), h.bytes("out", false));
    let pl = h.size("pw_len", 0, 1 << 32);
    let sl = h.size("salt_len", 0, 1 << 32);
    (vec![P::Sl(pb, Z::k(0), pl)], vec![P::Sl(sb, Z::k(0), sl)], ob)
}
fn pbkdf2_case(h: &mut H, c: usize, l: usize) -> R<Verdict> {
    let (pw, salt, ob) = pbkdf2_args(h);
    let (pr, sr, or) = (h.slice(pw.clone()), h.slice(salt.clone()), h.slice(part(ob, 0, l as i128)));
    let cw = h.i.k64(c as u128);
    h.call(PBKDF2, vec![pr, sr, cw, or.clone()])?;
    let got = h.i.read_ref(&or)?;
    let w = spec::pbkdf2(&mut h.i.cx, &pw, &salt, c, l, false)?;
    h.compare(T, &got, &seqv(els(&w)))
}
fn pbkdf2_iters_sym(h: &mut H, l: usize, c: &Z) -> R<Verdict> {
    let (pw, salt, ob) = pbkdf2_args(h);
    let (pr, sr, or) = (h.slice(pw.clone()), h.slice(salt.clone()), h.slice(part(ob, 0, l as i128)));
    let steps = steps_from(h, c, 6) + 1;
    h.i.loop_ctx = Default::default();
    let mut chains = vec![];
    for i in 1..=(l + 31) / 32 {
        chains.push(pbkdf2_chain(h, &pw, &salt, i as u32, steps)?);
    }
    h.i.loop_ctx.chains = chains.clone();
    h.i.want_snaps = true;
    let cw = V::W(h.i.cx.from_z(c, 64));
    let res = h.call(PBKDF2, vec![pr, sr, cw, or.clone()]);
    h.i.want_snaps = false;
    h.i.loop_ctx.chains.clear();
    res?;
    let got = h.i.read_ref(&or)?;
    let mut w = vec![];
    for (k, ch) in chains.iter().enumerate() {
        let s = chain_state(h, k, ch, &c.addk(-1))?;
        w.extend_from_slice(&s[32..]);
    }
    w.truncate(l);
    h.compare(T, &got, &seqv(els(&w)))
}
/// the output is a symbolic number of blocks and e bytes
fn pbkdf2_long(h: &mut H, e: usize, c: usize) -> R<()> {
    if !h.modular {
        return Ok(());
    }
    let what = format!("pbkdf2_sha256 with c = {}, 32M+{} output bytes", c, e);
    let big = h.size("M", 6, (1 << 32) - 4);
    let r = pbkdf2_long_sym(h, e, c, &big);
    h.i.want_snaps = false;
    h.i.loop_ctx = Default::default();
    let why = match r {
        Ok(Verdict::Ok) => {
            h.ok(what);
            return Ok(());
        }
        Err(E::Split(z)) => return Err(E::Split(z)),
        Ok(Verdict::Violated(x)) => {
            h.bad(what, x);
            return Ok(());
        }
        Err(E::Unsupported(x)) | Ok(Verdict::Undecided(x)) => x,
    };
    let mut ms: Vec<usize> = least(h, &big, 6, 600).map(|k| k as usize).into_iter().collect();
    if e == 0 || e == 8 {
        ms.push(257);
    }
    for k in ms {
        match pbkdf2_case(h, c, 32 * k + e) {
            Ok(Verdict::Violated(x)) => {
                h.bad(&what, format!("{}; {} output bytes: {}", why, 32 * k + e, x));
                return Ok(());
            }
            Err(E::Split(z)) => return Err(E::Split(z)),
            _ => {}
        }
    }
    h.undecided(what, why);
    Ok(())
}
fn pbkdf2_long_sym(h: &mut H, e: usize, c: usize, big: &Z) -> R<Verdict> {
    let (pw, salt, ob) = pbkdf2_args(h);
    let n = big.mul(32).addk(e as i128);
    let (pr, sr, or) = (h.slice(pw.clone()), h.slice(salt.clone()), h.slice(vec![P::Sl(ob, Z::k(0), n)]));
    let steps = steps_from(h, big, 6) + 1;
    let block = move |cx: &mut Cx, pw: &[P], salt: &[P], j: &Z| -> R<Vec<W>> {
        let w = cx.from_z(&j.addk(1), 32);
        let ctr = spec::words_to_bytes_be(cx, &[w]);
        let m = spec::cat(cx, &[salt.to_vec(), els(&ctr)]);
        let mut u = spec::prf(cx, pw, &m, false)?;
        let mut t = u.clone();
        for _ in 1..c {
            u = spec::prf(cx, pw, &els(&u), false)?;
            for k in 0..32 {
                t[k] = cx.wxor(t[k], u[k]);
            }
        }
        Ok(t)
    };
    let mut out = vec![];
    for j in 0..steps {
        out.push(block(&mut h.i.cx, &pw, &salt, &Z::k(j as i128))?);
    }
    let (k1, k2) = (key_seq(&mut h.i.cx, &pw)?, key_seq(&mut h.i.cx, &salt)?);
    let cw = h.i.cx.konst(64, c as u128);
    let stream = app(&mut h.i.cx, "pbkdf2", vec![k1, k2, Key::W(cw)], 8);
    let (pw2, salt2) = (pw.clone(), salt.clone());
    let ch = crate::loops::Chain {
        base: Z::k(0),
        named: false,
        at: vec![vec![]; steps + 1],
        out,
        stream: Some(stream),
        sym: Rc::new(|_, _| Ok(vec![])),
        next: Rc::new(move |cx, j, _| Ok((vec![], block(cx, &pw2, &salt2, j)?))),
    };
    h.i.loop_ctx = Default::default();
    h.i.loop_ctx.chains = vec![ch.clone()];
    h.i.want_snaps = true;
    let cw = h.i.k64(c as u128);
    let res = h.call(PBKDF2, vec![pr, sr, cw, or.clone()]);
    h.i.want_snaps = false;
    h.i.loop_ctx.chains.clear();
    res?;
    let got = h.i.read_ref(&or)?;
    let want = chain_stream(h, 0, &ch, 32, big, e)?;
    h.compare(T, &got, &seqv(want))
}
/// per * total + e bytes of the specified output, expanded from where the loop summary ended
fn chain_stream(h: &mut H, k: usize, ch: &crate::loops::Chain, per: usize, total: &Z, e: usize) -> R<Vec<P>> {
    let total = &h.pinned(total);
    let at = match h.i.loop_ctx.reached.get(k) {
        Some(Some(z)) => z.clone(),
        _ => return Ok(vec![P::Sl(ch.stream.unwrap(), Z::k(0), total.mul(per as i128).addk(e as i128))]),
    };
    let at = h.pinned(&at);
    let left = match total.sub(&at).as_k() {
        Some(x) if x >= 0 && x < 64 => x,
        // the loop ends elsewhere
        _ => return Ok(vec![P::Sl(ch.stream.unwrap(), Z::k(0), total.mul(per as i128).addk(e as i128))]),
    };
    let mut s = (ch.sym)(&mut h.i.cx, &at)?;
    let mut ws = vec![];
    for j in 0..left + (e > 0) as i128 {
        let (n, o) = (ch.next)(&mut h.i.cx, &at.addk(j), &s)?;
        s = n;
        ws.extend(o);
    }
    ws.truncate(per * left as usize + e);
    Ok(spec::cat(&mut h.i.cx, &[vec![P::Sl(ch.stream.unwrap(), Z::k(0), at.mul(per as i128))], els(&ws)]))
}
/// (U_1, U_1), (U_2, U_1 xor U_2), .. of block i
fn pbkdf2_chain(h: &mut H, pw: &[P], salt: &[P], i: u32, steps: usize) -> R<crate::loops::Chain> {
    let ctr: Vec<W> = i.to_be_bytes().iter().map(|b| h.i.cx.konst(8, *b as u128)).collect();
    let m = spec::cat(&mut h.i.cx, &[salt.to_vec(), els(&ctr)]);
    let u = spec::prf(&mut h.i.cx, pw, &m, false)?;
    let next = |cx: &mut Cx, pw: &[P], s: &[W]| -> R<Vec<W>> {
        let mut u = spec::prf(cx, pw, &els(&s[..32]), false)?;
        for k in 0..32 {
            let t = cx.wxor(s[32 + k], u[k]);
            u.push(t);
        }
        Ok(u)
    };
    let mut at = vec![[u.clone(), u].concat()];
    for j in 0..steps {
        let n = next(&mut h.i.cx, pw, &at[j])?;
        at.push(n);
    }
    let (k1, k2) = (key_seq(&mut h.i.cx, pw)?, key_seq(&mut h.i.cx, &m)?);
    let pw = pw.to_vec();
    Ok(crate::loops::Chain {
        base: Z::k(0),
        named: false,
        at,
        out: vec![],
        stream: None,
        sym: Rc::new(move |cx, m| {
            let w = cx.from_z(m, 64);
            let b = app(cx, "pbkdf2_steps", vec![k1.clone(), k2.clone(), Key::W(w)], 8);
            Ok((0..64).map(|k| cx.elem(b, &Z::k(k))).collect())
        }),
        next: Rc::new(move |cx, _, s| Ok((next(cx, &pw, s)?, vec![]))),
    })
}
// ================================================================= Salsa20
pub const SALSA: &str = "dumb_crypto::salsa20::salsa20";
fn salsa_case(h: &mut H, r: usize) -> R<Verdict> {
    let (ib, ob) = (h.bytes("input", true), h.bytes("out", false));
    let (ir, or) = (h.slice(part(ib, 0, 64)), h.slice(part(ob, 0, 64)));
    let rw = h.i.k64(r as u128);
    h.call(SALSA, vec![ir, rw, or.clone()])?;
    let got = h.i.read_ref(&or)?;
    let inp: Vec<W> = (0..64).map(|k| h.i.cx.elem(ib, &Z::k(k))).collect();
    let w = spec::salsa20(&mut h.i.cx, &inp, r);
    h.compare(T, &got, &seqv(els(&w)))
}
fn salsa_any(h: &mut H) -> R<()> {
    let what = "salsa20 core with any number of double rounds from 6";
    let big = h.size("rounds", 6, (1 << 62) - 1);
    h.i.budget = h.i.cx.size_now() + 20_000_000;
    let r = salsa_any_sym(h, &big);
    h.i.budget = 0;
    h.i.want_snaps = false;
    h.i.loop_ctx = Default::default();
    let why = match r {
        Ok(Verdict::Ok) => {
            h.ok(what);
            return Ok(());
        }
        Err(E::Split(z)) => return Err(E::Split(z)),
        Ok(Verdict::Violated(x)) => {
            h.bad(what, x);
            return Ok(());
        }
        Err(E::Unsupported(x)) | Ok(Verdict::Undecided(x)) => x,
    };
    let mut rs: Vec<usize> = least(h, &big, 6, 4200).map(|k| k as usize).into_iter().collect();
    rs.extend([15, 16, 17, 31, 32, 33, 64, 255, 256]);
    rs.dedup();
    for r in rs {
        h.i.budget = h.i.cx.size_now() + 20_000_000;
        let v = salsa_case(h, r);
        h.i.budget = 0;
        match v {
            Ok(Verdict::Violated(x)) => {
                h.bad(what, format!("{}; {} double rounds: {}", why, r, x));
                return Ok(());
            }
            Err(E::Split(z)) => return Err(E::Split(z)),
            _ => {}
        }
    }
    h.undecided(what, why);
    Ok(())
}
fn salsa_any_sym(h: &mut H, big: &Z) -> R<Verdict> {
    let (ib, ob) = (h.bytes("input", true), h.bytes("out", false));
    let (ir, or) = (h.slice(part(ib, 0, 64)), h.slice(part(ob, 0, 64)));
    let inp: Vec<W> = (0..64).map(|k| h.i.cx.elem(ib, &Z::k(k))).collect();
    let x0 = spec::salsa_words(&mut h.i.cx, &inp);
    let steps = steps_from(h, big, 6) + 1;
    let mut at = vec![x0.clone()];
    for j in 0..steps {
        let mut x = at[j].clone();
        spec::salsa_double_round(&mut h.i.cx, &mut x);
        at.push(x);
    }
    let key = key_seq(&mut h.i.cx, &part(ib, 0, 64))?;
    let y0 = x0.clone();
    let ch = crate::loops::Chain {
        base: Z::k(0),
        named: false,
        at,
        out: vec![],
        stream: None,
        sym: Rc::new(move |cx, m| {
            if m.as_k() == Some(0) {
                return Ok(y0.clone());
            }
            let w = cx.from_z(m, 64);
            let b = app(cx, "salsa20_rounds", vec![key.clone(), Key::W(w)], 32);
            Ok((0..16).map(|k| cx.elem(b, &Z::k(k))).collect())
        }),
        next: Rc::new(|cx, _, s| {
            let mut x = s.to_vec();
            spec::salsa_double_round(cx, &mut x);
            Ok((x, vec![]))
        }),
    };
    h.i.loop_ctx = Default::default();
    h.i.loop_ctx.chains = vec![ch.clone()];
    h.i.want_snaps = true;
    let rw = h.i.cx.from_z(big, 64);
    let res = h.call(SALSA, vec![ir, V::W(rw), or.clone()]);
    h.i.want_snaps = false;
    h.i.loop_ctx.chains.clear();
    res?;
    let got = h.i.read_ref(&or)?;
    let x = chain_state(h, 0, &ch, big)?;
    let w = spec::salsa_end(&mut h.i.cx, &x0, &x);
    h.compare(T, &got, &seqv(els(&w)))
}
pub fn salsa_jobs(cfg: Cfg) -> Vec<Job> {
    let rs: Vec<usize> = if cfg.thorough { (0..=40).chain([64, 100, 255, 256, 257, 1000]).collect() } else { (0..=12).chain([20, 32, 64]).collect() };
    let mut v = vec![job("salsa20", "any number of double rounds", salsa_any)];
    for r in rs {
        v.push(job("salsa20", format!("{} double rounds", r), move |h| {
            let x = salsa_case(h, r)?;
            h.verdict(&format!("salsa20 core with {} double rounds", r), x);
            Ok(())
        }));
    }
    v
}
// ================================================================= scrypt
pub const SCRYPT: &str = "dumb_crypto::scrypt::Scrypt";
pub fn scrypt_jobs(cfg: Cfg) -> Vec<Job> {
    // every r up to a bound (n = 2 visits both table halves), then wide r, deep n, many lanes and mixtures
    let mut ps: Vec<(usize, usize, usize)> = (1..=if cfg.thorough { 140 } else { 40 }).map(|r| (r, 2, 1)).collect();
    ps.extend([(64, 2, 1), (65, 2, 1), (128, 2, 1), (1, 4, 1), (1, 8, 1), (1, 16, 1), (2, 4, 2), (3, 4, 3), (1, 2, 2), (2, 2, 5), (1, 2, 17), (5, 8, 1), (8, 4, 2), (16, 2, 2), (1, 2, 257), (8, 8, 1), (1, 32, 1)]);
    if cfg.thorough {
        ps.extend([(200, 2, 1), (256, 2, 1), (257, 2, 1), (8, 16, 1), (8, 32, 1), (1, 2, 33), (1, 2, 64), (2, 2, 300), (16, 4, 2), (1, 64, 1), (1, 128, 1), (2, 64, 1), (7, 4, 3), (8, 8, 3)]);
    }
    ps.sort_by_key(|&(r, n, p)| std::cmp::Reverse(r * n * n * p));
    ps.into_iter()
        .map(|(r, n, p)| {
            job("scrypt", format!("r={} n={} p={}", r, n, p), move |h| {
                ghost::pbkdf2(h);
                ghost::salsa(h);
                let (pb, sb, ob) = (h.bytes("passphrase", true), h.bytes("salt", false), h.bytes("out", false));
                if !h.modular && r * n * p > 2 {
                    return Ok(());
                }
                let (pw, salt, olen) = if h.modular {
                    let (a, b, c) = (h.size("pw_len", 0, 1 << 32), h.size("salt_len", 0, 1 << 32), h.size("out_len", 0, 1 << 32));
                    (vec![P::Sl(pb, Z::k(0), a)], vec![P::Sl(sb, Z::k(0), b)], c)
                } else {
                    (part(pb, 0, 4), part(sb, 0, 3), Z::k(8))
                };
                let (rw, nw, pp) = (h.i.k64(r as u128), h.i.k64(n as u128), h.i.k64(p as u128));
                let s = h.call(&m(SCRYPT, "new"), vec![rw, nw, pp])?;
                let (sr, pr, slr, or) = (h.mem(s), h.slice(pw.clone()), h.slice(salt.clone()), h.slice(vec![P::Sl(ob, Z::k(0), olen.clone())]));
                let res = h.call(&m(SCRYPT, "derive"), vec![sr, pr, slr, or.clone()])?;
                let okv = h.i.mk_enum(2, 0, vec![unit()]);
                h.expect("derive accepts valid parameters", &res, &okv)?;
                let got = h.i.read_ref(&or)?;
                let ex = !h.modular;
                let len1 = 128 * r * p;
                let b = if ex {
                    spec::pbkdf2(&mut h.i.cx, &pw, &salt, 1, len1, true)?
                } else {
                    let (k1, k2) = (key_seq(&mut h.i.cx, &pw)?, key_seq(&mut h.i.cx, &salt)?);
                    let one = h.i.cx.konst(64, 1);
                    let bb = app(&mut h.i.cx, "pbkdf2", vec![k1, k2, Key::W(one)], 8);
                    (0..len1).map(|k| h.i.cx.elem(bb, &Z::k(k as i128))).collect()
                };
                let mut salt2 = vec![];
                for c in b.chunks(128 * r) {
                    salt2.extend(spec::ro_mix(&mut h.i.cx, c, n, ex)?);
                }
                let want = if ex {
                    let w = spec::pbkdf2(&mut h.i.cx, &pw, &els(&salt2), 1, 8, true)?;
                    seqv(els(&w))
                } else {
                    let (k1, k2) = (key_seq(&mut h.i.cx, &pw)?, key_seq(&mut h.i.cx, &els(&salt2))?);
                    let one = h.i.cx.konst(64, 1);
                    let bb = app(&mut h.i.cx, "pbkdf2", vec![k1, k2, Key::W(one)], 8);
                    sl(bb, Z::k(0), olen)
                };
                h.expect(&format!("scrypt with r={} n={} p={}", r, n, p), &got, &want)?;
                Ok(())
            })
        })
        .collect()
}
// ================================================================= AES
pub const AESN: &str = "dumb_crypto::aes::AES";
fn words(h: &mut H, b: u32, n: usize) -> Vec<W> {
    (0..n).map(|k| h.i.cx.elem(b, &Z::k(k as i128))).collect()
}
fn arr(w: &[W]) -> V {
    el(w.iter().map(|x| V::W(*x)).collect())
}
fn okv(h: &mut H, v: V) -> V {
    h.i.mk_enum(2, 0, vec![v])
}
fn ok_seq(h: &mut H, w: &[W]) -> V {
    let v = seqv(els(w));
    okv(h, v)
}
/// Err(AESError::..): 0 = InvalidKeySize, 1 = NotInitialized (the order of declaration is looked up)
fn err_of(h: &mut H, adt: &str, variant: &str, payload: Option<V>) -> R<V> {
    let (nv, k) = h.i.variant_of(adt, variant)?;
    let e = h.i.mk_enum(nv, k, payload.into_iter().collect());
    Ok(h.i.mk_enum(2, 1, vec![e]))
}
fn aes_err(h: &mut H, v: &str) -> R<V> {
    err_of(h, "dumb_crypto::aes::AESError", v, None)
}
fn aes_new(h: &mut H, key: &[W]) -> R<V> {
    let s = h.call(&m(AESN, "new"), vec![])?;
    let r = h.mem(s);
    let k = h.slice(els(key));
    let res = h.call(&m(AESN, "init"), vec![r.clone(), k])?;
    let w = okv(h, unit());
    h.expect(&format!("init accepts a key of {} bytes", key.len()), &res, &w)?;
    Ok(r)
}
fn aes_op(h: &mut H, s: &V, op: &str, b: &[W]) -> R<V> {
    let br = h.mem(arr(b));
    h.call(&m(AESN, op), vec![s.clone(), br])
}
pub fn aes_jobs(what: &'static str) -> Vec<Job> {
    let mut v = vec![];
    for kl in [16usize, 24, 32] {
        if what == "enc" || what == "dec" {
            v.push(job("aes", format!("{} with a {}-bit key, every key and block", if what == "enc" { "encryption" } else { "decryption" }, 8 * kl), move |h| {
                h.modular = false;
                let (kb, bb) = (h.bytes("key", false), h.bytes("block", false));
                let (key, blk) = (words(h, kb, kl), words(h, bb, 16));
                let s = aes_new(h, &key)?;
                let rk = spec::aes_expand(&mut h.i.cx, &key);
                let (op, w) = if what == "enc" { ("encrypt", spec::aes_enc(&mut h.i.cx, &rk, &blk)) } else { ("decrypt", spec::aes_dec(&mut h.i.cx, &rk, &blk)) };
                let got = aes_op(h, &s, op, &blk)?;
                let want = ok_seq(h, &w);
                h.expect(&format!("AES-{} {}", 8 * kl, op), &got, &want)?;
                Ok(())
            }));
        }
        if what == "inv" {
            for (f, g) in [("encrypt", "decrypt"), ("decrypt", "encrypt")] {
                v.push(job("aes", format!("{} after {} with a {}-bit key", g, f, 8 * kl), move |h| {
                    h.modular = false;
                    let (kb, bb) = (h.bytes("key", false), h.bytes("block", false));
                    let (key, blk) = (words(h, kb, kl), words(h, bb, 16));
                    let s = aes_new(h, &key)?;
                    let c = aes_op(h, &s, f, &blk)?;
                    let c = ok_payload(h, &c)?;
                    let d = aes_op(h, &s, g, &c)?;
                    let want = ok_seq(h, &blk);
                    h.expect(&format!("AES-{} {}({}(b)) = b", 8 * kl, g, f), &d, &want)?;
                    Ok(())
                }));
            }
        }
    }
    v
}
/// the words in Ok(array)
fn ok_payload(h: &mut H, v: &V) -> R<Vec<W>> {
    if let V::En(d, p) = v {
        if h.i.cx.as_const(*d) == Some(0) {
            let s = p[0][0].clone();
            return words_of(&mut h.i.cx, &s.seq()?.clone());
        }
    }
    uns("expected Ok(..)")
}

// ----------------------------------------------------------------- life cycle of an AES object
fn is_err(h: &mut H, v: &V) -> bool {
    match v {
        V::En(d, _) => h.i.cx.as_const(*d) == Some(1),
        _ => false,
    }
}
fn expect_err(h: &mut H, what: &str, v: &V) {
    if is_err(h, v) {
        h.ok(what);
    } else {
        let ok = match v {
            V::En(d, _) => h.i.cx.as_const(*d) == Some(0),
            _ => false,
        };
        if ok {
            h.bad(what, "an error is required, the call succeeds");
        } else {
            h.undecided(what, "cannot tell whether the call fails");
        }
    }
}
/// two objects behave alike: equal states, or equal results of both operations
fn aes_equiv(h: &mut H, what: &str, a: &V, b: &V, blk: &[W]) -> R<()> {
    let (x, y) = (h.i.read_ref(a)?, h.i.read_ref(b)?);
    if same(&mut h.i.cx, &x, &y) {
        h.ok(what);
        return Ok(());
    }
    for op in ["encrypt", "decrypt"] {
        let (x, y) = (aes_try(h, a, op, blk)?, aes_try(h, b, op, blk)?);
        match (x, y) {
            (Some(x), Some(y)) => {
                h.expect(&format!("{} ({})", what, op), &x, &y)?;
            }
            (None, Some(_)) => h.bad(what, format!("{} panics", op)),
            _ => {}
        }
    }
    Ok(())
}
fn aes_try(h: &mut H, s: &V, op: &str, b: &[W]) -> R<Option<V>> {
    let br = h.mem(arr(b));
    h.try_call(&m(AESN, op), vec![s.clone(), br])
}
/// AES::new, init, encrypt and decrypt as a state machine over keys of every length
pub fn aes_life_jobs() -> Vec<Job> {
    let mut v = vec![];
    v.push(job("aes", "an object without a key", |h| {
        h.modular = false;
        let bb = h.bytes("block", false);
        let blk = words(h, bb, 16);
        let ni = aes_err(h, "NotInitialized")?;
        for ctor in [m(AESN, "new"), format!("<{} as std::default::Default>::default", AESN)] {
            let s = h.call(&ctor, vec![])?;
            let r = h.mem(s);
            for op in ["encrypt", "decrypt"] {
                let x = aes_op(h, &r, op, &blk)?;
                h.expect(&format!("{} before init is NotInitialized ({})", op, ctor), &x, &ni)?;
            }
        }
        Ok(())
    }));
    v.push(job("aes", "init with a key of any unsupported length", |h| {
        h.modular = false;
        let (kb, bb) = (h.bytes("key", false), h.bytes("block", false));
        let n = h.size("key_len", 0, 1 << 32);
        for x in [16, 24, 32] {
            let d = n.addk(-x);
            if dec_ge0(&mut h.i.cx, &d)? && dec_ge0(&mut h.i.cx, &d.mul(-1))? {
                return Ok(());
            }
        }
        let blk = words(h, bb, 16);
        let bad = aes_err(h, "InvalidKeySize")?;
        let ni = aes_err(h, "NotInitialized")?;
        let s = h.call(&m(AESN, "new"), vec![])?;
        let r = h.mem(s);
        let k = h.slice(vec![P::Sl(kb, Z::k(0), n)]);
        let x = h.call(&m(AESN, "init"), vec![r.clone(), k])?;
        h.expect("init rejects the key with InvalidKeySize", &x, &bad)?;
        for op in ["encrypt", "decrypt"] {
            let x = aes_op(h, &r, op, &blk)?;
            h.expect(&format!("{} after a failed first init is NotInitialized", op), &x, &ni)?;
        }
        Ok(())
    }));
    for k1 in [16usize, 24, 32] {
        v.push(job("aes", format!("second init of an object holding a {}-bit key", 8 * k1), move |h| {
            h.modular = false;
            let (ab, kb, bb) = (h.bytes("first_key", false), h.bytes("key", false), h.bytes("block", false));
            let blk = words(h, bb, 16);
            let key1 = words(h, ab, k1);
            let bad = aes_err(h, "InvalidKeySize")?;
            let r = aes_new(h, &key1)?;
            let before = h.i.read_ref(&r)?;
            // a key of another supported length replaces it completely
            for k2 in [16usize, 24, 32] {
                let key2 = words(h, kb, k2);
                let r = h.mem(before.clone());
                let k = h.slice(els(&key2));
                let x = h.call(&m(AESN, "init"), vec![r.clone(), k])?;
                let w = okv(h, unit());
                h.expect("second init succeeds", &x, &w)?;
                let fresh = aes_new(h, &key2)?;
                aes_equiv(h, &format!("after a second init with {} bytes the object uses the new key only", k2), &r, &fresh, &blk)?;
            }
            // an unsupported one leaves it usable with the old key
            for n in [0usize, 1, 15, 17, 23, 25, 31, 33, 48, 64] {
                let r = h.mem(before.clone());
                let k = h.slice(part(kb, 0, n as i128));
                let x = h.call(&m(AESN, "init"), vec![r.clone(), k])?;
                h.expect(&format!("second init rejects {} bytes", n), &x, &bad)?;
                let r1 = h.mem(before.clone());
                aes_equiv(h, &format!("after a rejected key of {} bytes the object still uses the earlier key", n), &r, &r1, &blk)?;
            }
            Ok(())
        }));
    }
    v
}
// ================================================================= CBC
pub const CIPHER: &str = "dumb_crypto::aes_cbc::Cipher";
pub const DECIPHER: &str = "dumb_crypto::aes_cbc::Decipher";
const DERR: &str = "dumb_crypto::aes_cbc::DecipherError";
const PERR: &str = "dumb_crypto::pkcs7::UnpadError";
fn pkcs7_err(h: &mut H, v: &str) -> R<V> {
    let (n, k) = h.i.variant_of(PERR, v)?;
    let e = h.i.mk_enum(n, k, vec![]);
    err_of(h, DERR, "PKCS7", Some(e))
}
fn dec_aes_err(h: &mut H, v: &str) -> R<V> {
    let (n, k) = h.i.variant_of("dumb_crypto::aes::AESError", v)?;
    let e = h.i.mk_enum(n, k, vec![]);
    err_of(h, DERR, "AES", Some(e))
}
fn cbc_new(h: &mut H, ty: &str, iv: &[W]) -> R<V> {
    let v = arr(iv);
    let s = h.call(&m(ty, "new"), vec![v])?;
    Ok(h.mem(s))
}
fn cbc_init(h: &mut H, ty: &str, r: &V, key: &[P]) -> R<V> {
    let k = h.slice(key.to_vec());
    h.call(&m(ty, "init"), vec![r.clone(), k])
}
fn cbc_write(h: &mut H, ty: &str, r: &V, data: &[P]) -> R<V> {
    let d = h.slice(data.to_vec());
    h.call(&m(ty, "write"), vec![r.clone(), d])
}
fn cbc_flush(h: &mut H, ty: &str, r: &V) -> R<V> {
    h.call(&m(ty, "flush"), vec![r.clone()])
}
/// the state of an object built from a chaining value, a key, whole ciphertext blocks held back and pending bytes
fn cbc_state(h: &mut H, ty: &str, iv: &[W], key: &[W], pend: &[W]) -> R<V> {
    let r = cbc_new(h, ty, iv)?;
    cbc_init(h, ty, &r, &els(key))?;
    if !pend.is_empty() {
        cbc_write(h, ty, &r, &els(pend))?;
    }
    h.i.read_ref(&r)
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    W(usize),
    F,
}
fn pad16(h: &mut H, d: &[W]) -> Vec<W> {
    let n = 16 - d.len() % 16;
    let mut v = d.to_vec();
    let b = h.i.cx.konst(8, n as u128);
    v.extend(std::iter::repeat(b).take(n));
    v
}
/// a history of a cipher through its public interface, against CBC over the padded messages
fn cipher_history(h: &mut H, ops: &[Op], kl: usize) -> R<Verdict> {
    let (kb, ib, db) = (h.bytes("key", true), h.bytes("iv", false), h.bytes("data", true));
    let (key, mut iv) = (words(h, kb, kl), words(h, ib, 16));
    let ex = !h.modular;
    let r = cbc_new(h, CIPHER, &iv)?;
    cbc_init(h, CIPHER, &r, &els(&key))?;
    let (mut pos, mut pend): (i128, Vec<W>) = (0, vec![]);
    for (j, op) in ops.iter().enumerate() {
        let (got, data) = match op {
            Op::W(n) => {
                let d = part(db, pos, *n as i128);
                pend.extend(words_of(&mut h.i.cx, &d)?);
                pos += *n as i128;
                let g = cbc_write(h, CIPHER, &r, &d)?;
                let k = pend.len() / 16 * 16;
                (g, pend.drain(..k).collect::<Vec<W>>())
            }
            Op::F => {
                let g = cbc_flush(h, CIPHER, &r)?;
                let p = pad16(h, &pend);
                pend.clear();
                (g, p)
            }
        };
        let (out, niv) = spec::cbc(&mut h.i.cx, &key, &iv, &data, true, ex)?;
        iv = niv;
        let want = ok_seq(h, &out);
        match h.compare(T, &got, &want)? {
            Verdict::Ok => {}
            Verdict::Violated(x) => return Ok(Verdict::Violated(format!("history {:?}, result of call {}: {}", ops, j, x))),
            x => return Ok(x),
        }
    }
    Ok(Verdict::Ok)
}
fn cipher_fallback(h: &mut H, what: &str, why: &str, cands: Vec<Vec<Op>>) -> R<()> {
    let mut und = 0;
    for c in &cands {
        match cipher_history(h, c, 16) {
            Ok(Verdict::Violated(x)) => {
                h.bad(what, x);
                return Ok(());
            }
            Err(E::Split(z)) => return Err(E::Split(z)),
            Ok(Verdict::Ok) => {}
            _ => und += 1,
        }
    }
    h.undecided(what, format!("{} (no difference in {} histories, {} undecided)", why, cands.len(), und));
    Ok(())
}
fn write_lens(cfg: Cfg, off: usize) -> Vec<usize> {
    let mut ns: Vec<usize> = if cfg.thorough { (0..=160).collect() } else { (0..=34).collect() };
    ns.extend([47, 48, 49, 63, 64, 65, 80, 96 - off, 112, 127, 128, 129, 255, 256, 257, 272 - off]);
    if cfg.thorough {
        ns.extend([300, 511, 512, 513, 1008, 1024, 1025, 2048, 4096, 4097]);
    }
    ns.sort();
    ns.dedup();
    ns
}
/// one write of any length: 16M + e bytes with `off` pending
fn cbc_long(h: &mut H, enc: bool, off: usize, e: usize, held: bool) -> R<()> {
    if !h.modular {
        return Ok(());
    }
    let ty = if enc { CIPHER } else { DECIPHER };
    let what = format!("{} write of 16M+{} bytes with {} pending{}", if enc { "cipher" } else { "decipher" }, e, off, if held { " and a block held back" } else { "" });
    let big = h.size("M", 4, 1 << 40);
    h.i.budget = h.i.cx.size_now() + 40_000_000;
    let r = cbc_long_sym(h, ty, off, e, held, &big);
    h.i.budget = 0;
    h.i.want_snaps = false;
    h.i.loop_ctx = Default::default();
    let why = match r {
        Ok(Verdict::Ok) => {
            h.ok(what);
            return Ok(());
        }
        Err(E::Split(z)) => return Err(E::Split(z)),
        Ok(Verdict::Violated(x)) => {
            h.bad(what, x);
            return Ok(());
        }
        Err(E::Unsupported(x)) | Ok(Verdict::Undecided(x)) => x,
    };
    let mut ms: Vec<usize> = least(h, &big, 4, 600).map(|k| k as usize).into_iter().collect();
    if off % 15 == 0 && (e == 0 || e == 15) {
        ms.extend([9, 65, 257]);
    }
    for k in ms {
        let n = 16 * k + e;
        let rest = 16 - (off + n) % 16;
        let mut pre = if held { vec![Op::W(16)] } else { vec![] };
        pre.extend([Op::W(off), Op::W(n)]);
        for tail in [vec![Op::W(rest), Op::F], vec![Op::W(rest), Op::W(16), Op::F, Op::W(16), Op::F]] {
            let mut ops = pre.clone();
            ops.extend(tail);
            h.i.budget = h.i.cx.size_now() + 40_000_000;
            let v = if enc { cipher_history(h, &ops, 16) } else { decipher_history(h, &ops, 3, Padding::Any) };
            h.i.budget = 0;
            match v {
                Ok(Verdict::Violated(x)) => {
                    h.bad(&what, format!("{}; {}", why, x));
                    return Ok(());
                }
                Err(E::Split(z)) => return Err(E::Split(z)),
                _ => {}
            }
        }
    }
    h.undecided(what, why);
    Ok(())
}
fn cbc_long_sym(h: &mut H, ty: &str, off: usize, e: usize, held: bool, big: &Z) -> R<Verdict> {
    let enc = ty == CIPHER;
    let (kb, ib, hb, pb, db) = (h.bytes("key", true), h.bytes("chain", false), h.bytes("held", true), h.bytes("pending", true), h.bytes("data", true));
    let (key, iv, p, pend) = (words(h, kb, 16), words(h, ib, 16), words(h, hb, 16), words(h, pb, off));
    let st = match (enc, held) {
        (true, _) => cbc_state(h, ty, &iv, &key, &pend)?,
        (_, false) => decipher_state(h, &key, &iv, None, &pend)?,
        _ => decipher_state(h, &key, &iv, Some((&iv, &p)), &pend)?,
    };
    let data = vec![P::Sl(db, Z::k(0), big.mul(16).addk(e as i128))];
    let all = spec::cat(&mut h.i.cx, &[els(&pend), data.clone()]);
    let steps = steps_from(h, big, 4) + 1;
    let ch = cbc_chain(h, enc, &key, &iv, &all, steps)?;
    h.i.loop_ctx = Default::default();
    h.i.loop_ctx.chains = vec![ch.clone()];
    h.i.want_snaps = true;
    let r = h.mem(st);
    let res = cbc_write(h, ty, &r, &data);
    h.i.want_snaps = false;
    h.i.loop_ctx.chains.clear();
    let got = res?;
    let blocks = big.addk(((off + e) / 16) as i128);
    let end = words_at(&mut h.i.cx, &all, &blocks.mul(16), (off + e) % 16)?;
    let mut out = chain_stream(h, 0, &ch, 16, &blocks, 0)?;
    // chaining value and cleartext block held back after the write
    let next;
    let ws = if enc {
        let niv = chain_state(h, 0, &ch, &blocks)?;
        next = (niv.clone(), vec![]);
        cbc_state(h, ty, &niv, &key, &end)?
    } else {
        let c = words_at(&mut h.i.cx, &all, &blocks.addk(-1).mul(16), 16)?;
        let last = words_at(&mut h.i.cx, &out, &blocks.addk(-1).mul(16), 16)?;
        out = seq_slice(&mut h.i.cx, &out, &Z::k(0), &blocks.addk(-1).mul(16))?;
        if held {
            out = spec::cat(&mut h.i.cx, &[els(&p), out]);
        }
        next = (c.clone(), last.clone());
        decipher_state(h, &key, &c, Some((&c, &last)), &end)?
    };
    let want = okv(h, seqv(out));
    match h.compare(T, &got, &want)? {
        Verdict::Ok => {}
        x => return Ok(x),
    }
    let after = h.i.read_ref(&r)?;
    let why = match h.compare(T, &after, &ws)? {
        Verdict::Ok => return Ok(Verdict::Ok),
        Verdict::Violated(x) | Verdict::Undecided(x) => x,
    };
    // is the difference observable? the blocks that later writes emit
    let xb = h.bytes("later", true);
    let tail: Vec<W> = end.iter().cloned().chain((0..67).map(|k| h.i.cx.elem(xb, &Z::k(k)))).collect();
    let n = 64;
    let (mut flow, _) = spec::cbc(&mut h.i.cx, &key, &next.0, &tail[..n], enc, false)?;
    if !enc {
        flow = [next.1, flow].concat();
    }
    let (mut o, mut done) = (0usize, 0usize);
    for n in [16 - end.len(), 16, 35] {
        let got = cbc_write(h, ty, &r, &part(xb, o as i128, n as i128))?;
        o += n;
        let upto = (end.len() + o) / 16 * 16;
        let want = ok_seq(h, &flow[done..upto]);
        done = upto;
        if let Verdict::Violated(x) = h.compare(T, &got, &want)? {
            return Ok(Verdict::Violated(format!("{}; a later write of {} bytes: {}", why, n, x)));
        }
    }
    if enc {
        let got = cbc_flush(h, ty, &r)?;
        let (_, iv) = spec::cbc(&mut h.i.cx, &key, &next.0, &tail[..n], true, false)?;
        let p = pad16(h, &tail[n..end.len() + o]);
        let (out, _) = spec::cbc(&mut h.i.cx, &key, &iv, &p, true, false)?;
        let want = ok_seq(h, &out);
        if let Verdict::Violated(x) = h.compare(T, &got, &want)? {
            return Ok(Verdict::Violated(format!("{}; the flush after it: {}", why, x)));
        }
    }
    Ok(Verdict::Undecided(why))
}
/// CBC along `all`: chaining values and output blocks
fn cbc_chain(h: &mut H, enc: bool, key: &[W], iv: &[W], all: &[P], steps: usize) -> R<crate::loops::Chain> {
    let key0 = key.to_vec();
    let key = key.to_vec();
    let all2 = all.to_vec();
    let iv2 = iv.to_vec();
    let next = move |cx: &mut Cx, j: &Z, s: &[W]| -> R<(Vec<W>, Vec<W>)> {
        let b = words_at(cx, &all2, &j.mul(16), 16)?;
        if enc {
            let x = spec::xor_words(cx, &b, s);
            let c = spec::aes_block(cx, &key, &x, true, false)?;
            Ok((c.clone(), c))
        } else {
            let prev = if j.as_k() == Some(0) { iv2.clone() } else { words_at(cx, &all2, &j.addk(-1).mul(16), 16)? };
            let d = spec::aes_block(cx, &key, &b, false, false)?;
            Ok((vec![], spec::xor_words(cx, &d, &prev)))
        }
    };
    let (mut at, mut out) = (vec![if enc { iv.to_vec() } else { vec![] }], vec![]);
    for j in 0..steps {
        let (n, o) = match next(&mut h.i.cx, &Z::k(j as i128), &at[j]) {
            Ok(x) => x,
            Err(_) => break,
        };
        at.push(n);
        out.push(o);
    }
    let mut args = vec![key_seq(&mut h.i.cx, all)?];
    args.extend(key0.iter().chain(iv.iter()).map(|w| Key::W(*w)));
    let stream = app(&mut h.i.cx, if enc { "cbc_enc" } else { "cbc_dec" }, args.clone(), 8);
    Ok(crate::loops::Chain {
        base: Z::k(0),
        named: false,
        at,
        out,
        stream: Some(stream),
        sym: Rc::new(move |cx, m| {
            if !enc {
                return Ok(vec![]);
            }
            // the chaining value is the last block of the output
            if cx.prove_ge0(&m.addk(-1)) {
                return Ok((0..16).map(|k| cx.elem(stream, &m.addk(-1).mul(16).addk(k))).collect());
            }
            let w = cx.from_z(m, 64);
            let mut a = args.clone();
            a.push(Key::W(w));
            let b = app(cx, "cbc_chain", a, 8);
            Ok((0..16).map(|k| cx.elem(b, &Z::k(k))).collect())
        }),
        next: Rc::new(next),
    })
}
pub fn cipher_jobs(cfg: Cfg) -> Vec<Job> {
    let mut v = vec![];
    for off in 0..16usize {
        v.push(job("cbc-encrypt", format!("one write of any length, {} pending bytes", off), move |h| {
            ghost::aes(h);
            (0..16).try_for_each(|e| cbc_long(h, true, off, e, false))
        }));
    }
    for off in 0..16usize {
        for kl in [16usize, 24, 32] {
            if kl != 16 && off != 5 {
                continue;
            }
            v.push(job("cbc-encrypt", format!("any chaining value, {} pending bytes, {}-bit key", off, 8 * kl), move |h| {
                ghost::aes(h);
                if !h.modular && off != 0 && off != 5 && off != 15 {
                    return Ok(());
                }
                let (kb, ib, pb, db) = (h.bytes("key", true), h.bytes("chain", false), h.bytes("pending", true), h.bytes("data", true));
                let (key, iv, pend) = (words(h, kb, kl), words(h, ib, 16), words(h, pb, off));
                let ex = !h.modular;
                // reaching the state produces no output
                let r = cbc_new(h, CIPHER, &iv)?;
                let x = cbc_init(h, CIPHER, &r, &els(&key))?;
                let w = okv(h, unit());
                h.expect("init accepts the key", &x, &w)?;
                let x = cbc_write(h, CIPHER, &r, &els(&pend))?;
                let w = ok_seq(h, &[]);
                h.expect("a write that completes no block returns no bytes", &x, &w)?;
                let st = h.i.read_ref(&r)?;
                for n in write_lens(cfg, off) {
                    if ex && n > 34 {
                        continue;
                    }
                    let d = words(h, db, n);
                    let r = h.mem(st.clone());
                    let got = cbc_write(h, CIPHER, &r, &els(&d))?;
                    let after = h.i.read_ref(&r)?;
                    let mut all = pend.clone();
                    all.extend(d.iter());
                    let k = all.len() / 16 * 16;
                    let (out, niv) = spec::cbc(&mut h.i.cx, &key, &iv, &all[..k], true, ex)?;
                    let want = ok_seq(h, &out);
                    h.expect(&format!("write of {} bytes with {} pending emits the CBC blocks completed", n, off), &got, &want)?;
                    let ws = cbc_state(h, CIPHER, &niv, &key, &all[k..])?;
                    let what = format!("after a write of {} bytes with {} pending the object continues the chain", n, off);
                    match h.compare(T, &after, &ws)? {
                        Verdict::Ok => h.ok(what),
                        Verdict::Violated(x) | Verdict::Undecided(x) => {
                            let (p, n) = (Op::W(off), Op::W(n));
                            cipher_fallback(h, &what, &x, vec![vec![p, n, Op::F], vec![p, n, Op::W(1), Op::F], vec![p, n, Op::W(16), Op::W(33), Op::F], vec![Op::W(16), p, n, Op::W(15), Op::F, Op::W(17), Op::F], vec![p, n, Op::F, p, n, Op::F]])?;
                        }
                    }
                }
                // flush
                let r = h.mem(st);
                let got = cbc_flush(h, CIPHER, &r)?;
                let after = h.i.read_ref(&r)?;
                let p = pad16(h, &pend);
                let (out, niv) = spec::cbc(&mut h.i.cx, &key, &iv, &p, true, ex)?;
                let want = ok_seq(h, &out);
                h.expect(&format!("flush with {} pending bytes emits the padded final block", off), &got, &want)?;
                let ws = cbc_state(h, CIPHER, &niv, &key, &[])?;
                let what = format!("after flush with {} pending bytes the next message continues the chain", off);
                match h.compare(T, &after, &ws)? {
                    Verdict::Ok => h.ok(what),
                    Verdict::Violated(x) | Verdict::Undecided(x) => {
                        let p = Op::W(off);
                        cipher_fallback(h, &what, &x, vec![vec![p, Op::F, Op::F], vec![p, Op::F, Op::W(20), Op::F], vec![Op::W(32), p, Op::F, Op::W(5), Op::W(16), Op::F], vec![p, Op::F, p, Op::F, p, Op::F]])?;
                    }
                }
                Ok(())
            }));
        }
    }
    v
}
/// PKCS#7 validity of the last cleartext block: (condition, cleartext kept), the last byte being known to the analysis
fn unpad_spec(h: &mut H, p: &[W]) -> (B, Vec<W>) {
    let last = p[15];
    match h.i.cx.as_const(last) {
        Some(k) if (1..=16).contains(&k) => {
            let k = k as usize;
            let mut c = T;
            for x in &p[16 - k..] {
                let e = h.i.cx.eq(*x, last);
                c = h.i.cx.and(c, e);
            }
            (c, p[..16 - k].to_vec())
        }
        _ => (F, vec![]),
    }
}
/// a decipher whose next chaining value is `c`, holding back the cleartext block `p`, with pending ciphertext bytes
fn decipher_state(h: &mut H, key: &[W], iv: &[W], held: Option<(&[W], &[W])>, pend: &[W]) -> R<V> {
    let ex = !h.modular;
    let r = match held {
        None => {
            let r = cbc_new(h, DECIPHER, iv)?;
            cbc_init(h, DECIPHER, &r, &els(key))?;
            r
        }
        Some((c, p)) => {
            let d = spec::aes_block(&mut h.i.cx, key, c, false, ex)?;
            let iv = spec::xor_words(&mut h.i.cx, &d, p);
            let r = cbc_new(h, DECIPHER, &iv)?;
            cbc_init(h, DECIPHER, &r, &els(key))?;
            cbc_write(h, DECIPHER, &r, &els(c))?;
            r
        }
    };
    if !pend.is_empty() {
        cbc_write(h, DECIPHER, &r, &els(pend))?;
    }
    h.i.read_ref(&r)
}
/// the results a history of a decipher must produce; ciphertext bytes are arbitrary except that the final byte of
/// the cleartext block in front of each flush is `last`
fn decipher_history(h: &mut H, ops: &[Op], last: u8, pad: Padding) -> R<Verdict> {
    let (kb, ib, db) = (h.bytes("key", true), h.bytes("iv", false), h.bytes("data", true));
    let key = words(h, kb, 16);
    let ex = !h.modular;
    let iv0 = words(h, ib, 16);
    let r = cbc_new(h, DECIPHER, &iv0)?;
    // ciphertext: c_j arbitrary with dec(c_j) ^ c_(j-1) = p_j is arranged by choosing the cleartext and encrypting it
    let mut iv = words(h, ib, 16);
    cbc_init(h, DECIPHER, &r, &els(&key))?;
    let mut total = 0usize;
    let mut bounds = vec![];
    for op in ops {
        match op {
            Op::W(n) => total += n,
            Op::F => {
                bounds.push(total);
            }
        }
    }
    // cleartext stream, the last byte of each complete message fixed
    let nb = (total + 15) / 16;
    let mut clear = words(h, db, nb * 16);
    for b in &bounds {
        if *b >= 16 && b % 16 == 0 {
            clear[b - 1] = h.i.cx.konst(8, last as u128);
            // a valid or an invalid padding, or an arbitrary one
            if pad != Padding::Any && (1..=16).contains(&last) {
                for k in 0..last as usize {
                    clear[b - 1 - k] = h.i.cx.konst(8, last as u128);
                }
                if pad == Padding::Bad && last > 1 {
                    clear[b - 2] = h.i.cx.konst(8, (last ^ 1) as u128);
                }
            }
        }
    }
    let (ct, _) = spec::cbc(&mut h.i.cx, &key, &iv, &clear, true, ex)?;
    let (mut pos, mut start) = (0usize, 0usize);
    let mut emitted = 0usize;
    for (j, op) in ops.iter().enumerate() {
        let (got, want) = match op {
            Op::W(n) => {
                let g = cbc_write(h, DECIPHER, &r, &els(&ct[pos..pos + n]))?;
                pos += n;
                let full = (pos - start) / 16;
                let upto = start + 16 * full.saturating_sub(1);
                let w = if upto > emitted { clear[emitted..upto].to_vec() } else { vec![] };
                emitted = emitted.max(upto);
                let w = ok_seq(h, &w);
                (g, w)
            }
            Op::F => {
                let g = cbc_flush(h, DECIPHER, &r)?;
                if (pos - start) % 16 != 0 || pos == start {
                    // unfinished: nothing is promised about the object afterwards
                    let e = pkcs7_err(h, "UnfinishedBlock")?;
                    if pos == start {
                        if !is_err(h, &g) {
                            return Ok(Verdict::Violated(format!("history {:?}: flush of an empty message succeeds", ops)));
                        }
                        continue;
                    }
                    return match h.compare(T, &g, &e)? {
                        Verdict::Violated(x) => Ok(Verdict::Violated(format!("history {:?}: flush after {} ciphertext bytes: {}", ops, pos - start, x))),
                        x => Ok(x),
                    };
                }
                let p = clear[pos - 16..pos].to_vec();
                let (c, keep) = unpad_spec(h, &p);
                let okx = ok_seq(h, &keep);
                let e = pkcs7_err(h, "InvalidPadding")?;
                start = pos;
                emitted = pos;
                (g, V::Ite(c, std::rc::Rc::new(okx), std::rc::Rc::new(e)))
            }
        };
        match h.compare(T, &got, &want)? {
            Verdict::Ok => {}
            Verdict::Violated(x) => return Ok(Verdict::Violated(format!("history {:?} (padding byte {}), result of call {}: {}", ops, last, j, x))),
            x => return Ok(x),
        }
    }
    iv.clear();
    Ok(Verdict::Ok)
}
#[derive(Clone, Copy, PartialEq)]
enum Padding {
    Any,
    Good,
    Bad,
}
fn decipher_fallback(h: &mut H, what: &str, why: &str, cands: Vec<Vec<Op>>, lasts: &[u8]) -> R<()> {
    let mut und = 0;
    for pad in [Padding::Bad, Padding::Any, Padding::Good] {
        for c in &cands {
            for l in lasts {
                match decipher_history(h, c, *l, pad) {
                    Ok(Verdict::Violated(x)) => {
                        h.bad(what, x);
                        return Ok(());
                    }
                    Err(E::Split(z)) => return Err(E::Split(z)),
                    Ok(Verdict::Ok) => {}
                    _ => und += 1,
                }
            }
        }
    }
    h.undecided(what, format!("{} (no difference in {} histories, {} undecided)", why, cands.len(), und));
    Ok(())
}
pub fn decipher_jobs(cfg: Cfg) -> Vec<Job> {
    let mut v = vec![];
    for off in 0..16usize {
        for held in [false, true] {
            v.push(job("cbc-decrypt", format!("one write of any length, {} pending bytes, {} cleartext block", off, if held { "a held-back" } else { "no" }), move |h| {
                ghost::aes(h);
                (0..16).try_for_each(|e| cbc_long(h, false, off, e, held))
            }));
        }
    }
    for off in 0..16usize {
        for held in [false, true] {
            for kl in [16usize, 24, 32] {
                if kl != 16 && off != 5 {
                    continue;
                }
                v.push(job("cbc-decrypt", format!("any chaining value, {} pending bytes, {} cleartext block, {}-bit key", off, if held { "a held-back" } else { "no" }, 8 * kl), move |h| {
                    ghost::aes(h);
                    if !h.modular && off != 0 && off != 5 && off != 15 {
                        return Ok(());
                    }
                    let (kb, ib, hb, pb, db) = (h.bytes("key", true), h.bytes("chain", false), h.bytes("held", true), h.bytes("pending", true), h.bytes("data", true));
                    let (key, iv, p, pend) = (words(h, kb, kl), words(h, ib, 16), words(h, hb, 16), words(h, pb, off));
                    let ex = !h.modular;
                    let hd = if held { Some((&iv[..], &p[..])) } else { None };
                    let st = decipher_state(h, &key, &iv, hd, &pend)?;
                    let pre = if held { vec![Op::W(16), Op::W(off)] } else { vec![Op::W(off)] };
                    for n in write_lens(cfg, off) {
                        if ex && n > 34 {
                            continue;
                        }
                        let d = words(h, db, n);
                        let r = h.mem(st.clone());
                        let got = cbc_write(h, DECIPHER, &r, &els(&d))?;
                        let after = h.i.read_ref(&r)?;
                        let mut all = pend.clone();
                        all.extend(d.iter());
                        let m = all.len() / 16;
                        let (clear, niv) = spec::cbc(&mut h.i.cx, &key, &iv, &all[..16 * m], false, ex)?;
                        let mut out = if held { p.clone() } else { vec![] };
                        out.extend(clear.iter());
                        let keep = if m > 0 { 16 } else { out.len() };
                        let newheld: Vec<W> = out.split_off(out.len() - keep.min(out.len()));
                        let want = ok_seq(h, &out);
                        h.expect(&format!("write of {} ciphertext bytes with {} pending emits every cleartext block but the last", n, off), &got, &want)?;
                        let hd = if newheld.is_empty() { None } else { Some((&niv[..], &newheld[..])) };
                        let ws = decipher_state(h, &key, &niv, hd, &all[16 * m..])?;
                        let what = format!("after a write of {} bytes with {} pending the object continues the chain", n, off);
                        match h.compare(T, &after, &ws)? {
                            Verdict::Ok => h.ok(what),
                            Verdict::Violated(x) | Verdict::Undecided(x) => {
                                let mut c = vec![];
                                let rest = 16 - (off + n) % 16;
                                for tail in [vec![Op::F], vec![Op::W(rest), Op::F], vec![Op::W(rest), Op::W(16), Op::F], vec![Op::W(1), Op::W(rest + 15), Op::F, Op::W(32), Op::F]] {
                                    let mut q = pre.clone();
                                    q.push(Op::W(n));
                                    q.extend(tail);
                                    c.push(q);
                                }
                                decipher_fallback(h, &what, &x, c, &[3])?;
                            }
                        }
                    }
                    Ok(())
                }));
            }
        }
    }
    v
}
/// the end of a message: padding of every form, unfinished blocks
pub fn decipher_end_jobs(_cfg: Cfg) -> Vec<Job> {
    let mut v = vec![];
    for lo in (0..256usize).step_by(32) {
        v.push(job("cbc-decrypt", format!("flush, final cleartext byte {}..{}", lo, lo + 31), move |h| {
            ghost::aes(h);
            let (kb, ib, hb) = (h.bytes("key", true), h.bytes("chain", false), h.bytes("held", true));
            let (key, iv, mut p) = (words(h, kb, 16), words(h, ib, 16), words(h, hb, 16));
            for k in lo..lo + 32 {
                if !h.modular && k > 17 && k != 255 {
                    continue;
                }
                p[15] = h.i.cx.konst(8, k as u128);
                let st = decipher_state(h, &key, &iv, Some((&iv, &p)), &[])?;
                let r = h.mem(st);
                let got = cbc_flush(h, DECIPHER, &r)?;
                let after = h.i.read_ref(&r)?;
                let (c, keep) = unpad_spec(h, &p);
                let okx = ok_seq(h, &keep);
                let e = pkcs7_err(h, "InvalidPadding")?;
                let want = V::Ite(c, std::rc::Rc::new(okx), std::rc::Rc::new(e));
                h.expect(&format!("flush with final cleartext byte {}: the cleartext without its padding, or InvalidPadding", k), &got, &want)?;
                let ws = decipher_state(h, &key, &iv, None, &[])?;
                let what = format!("after flush with final cleartext byte {} nothing of the message is left", k);
                match h.compare(T, &after, &ws)? {
                    Verdict::Ok => h.ok(what),
                    Verdict::Violated(x) | Verdict::Undecided(x) => {
                        let (a, b) = (Op::W(16), Op::W(32));
                        decipher_fallback(h, &what, &x, vec![vec![a, Op::F, b, Op::F], vec![a, Op::F, Op::F], vec![b, Op::F, a, Op::W(5), Op::W(11), Op::F]], &[k as u8])?;
                    }
                }
            }
            Ok(())
        }));
    }
    v.push(job("cbc-decrypt", "flush of an unfinished message", |h| {
        ghost::aes(h);
        let (kb, ib, hb, pb) = (h.bytes("key", true), h.bytes("chain", false), h.bytes("held", true), h.bytes("pending", true));
        let (key, iv) = (words(h, kb, 16), words(h, ib, 16));
        let e = pkcs7_err(h, "UnfinishedBlock")?;
        for off in 0..16usize {
            for held in [false, true] {
                if off == 0 && held {
                    continue;
                }
                // whatever the held-back block looks like: a valid padding, an invalid one
                for last in [1u128, 16, 0, 200, 7] {
                    let mut p = words(h, hb, 16);
                    p[15] = h.i.cx.konst(8, last);
                    let pend = words(h, pb, off);
                    let hd = if held { Some((&iv[..], &p[..])) } else { None };
                    let st = decipher_state(h, &key, &iv, hd, &pend)?;
                    let r = h.mem(st);
                    let got = cbc_flush(h, DECIPHER, &r)?;
                    let what = format!("flush with {} whole blocks and {} further ciphertext bytes is refused", held as u8, off);
                    if off == 0 {
                        expect_err(h, &what, &got);
                    } else {
                        h.expect(&what, &got, &e)?;
                    }
                    if !held {
                        break;
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(job("cbc-decrypt", "deciphering what a cipher produced", |h| {
        ghost::aes(h);
        let (kb, ib, db) = (h.bytes("key", true), h.bytes("iv", false), h.bytes("data", true));
        let (key, iv) = (words(h, kb, 16), words(h, ib, 16));
        let lens: Vec<usize> = if h.modular { (0..=50).chain([63, 64, 65, 127, 255, 256]).collect() } else { vec![0, 5, 16, 20] };
        for n in lens {
            let d = words(h, db, n);
            let st = cbc_state(h, CIPHER, &iv, &key, &[])?;
            let c = h.mem(st);
            let a = cbc_write(h, CIPHER, &c, &els(&d))?;
            let mut ct = ok_payload(h, &a)?;
            let b = cbc_flush(h, CIPHER, &c)?;
            ct.extend(ok_payload(h, &b)?);
            for cut in [0, 1, ct.len() / 2, ct.len() - 1, ct.len()] {
                let st = cbc_state(h, DECIPHER, &iv, &key, &[])?;
                let r = h.mem(st);
                let mut out = vec![];
                let x = cbc_write(h, DECIPHER, &r, &els(&ct[..cut]))?;
                out.extend(ok_payload(h, &x)?);
                let x = cbc_write(h, DECIPHER, &r, &els(&ct[cut..]))?;
                out.extend(ok_payload(h, &x)?);
                let x = cbc_flush(h, DECIPHER, &r)?;
                let x = ok_payload(h, &x)?;
                out.extend(x);
                h.expect_seq(&format!("{} bytes encrypted, then deciphered in pieces of {} and {} bytes", n, cut, ct.len() - cut), &els(&out), &els(&d))?;
            }
        }
        Ok(())
    }));
    v
}
/// keys of cipher and decipher objects: none, rejected, replaced in mid-message
pub fn cbc_life_jobs() -> Vec<Job> {
    let mut v = vec![];
    for (ty, enc) in [(CIPHER, true), (DECIPHER, false)] {
        let nm = if enc { "cipher" } else { "decipher" };
        v.push(job("cbc-keys", format!("{} without a key", nm), move |h| {
            ghost::aes(h);
            let (kb, ib, db) = (h.bytes("key", true), h.bytes("iv", false), h.bytes("data", true));
            let (key, iv) = (words(h, kb, 16), words(h, ib, 16));
            let ni = if enc { aes_err(h, "NotInitialized")? } else { dec_aes_err(h, "NotInitialized")? };
            for off in 0..16usize {
                let pend = words(h, db, off);
                let r = cbc_new(h, ty, &iv)?;
                let x = cbc_write(h, ty, &r, &els(&pend))?;
                let w = ok_seq(h, &[]);
                h.expect("writes that complete no block return no bytes", &x, &w)?;
                let st = h.i.read_ref(&r)?;
                // a key supplied afterwards applies to the pending bytes
                let x = cbc_init(h, ty, &r, &els(&key))?;
                let w = okv(h, unit());
                h.expect("init accepts the key", &x, &w)?;
                let a = h.i.read_ref(&r)?;
                let b = cbc_state(h, ty, &iv, &key, &pend)?;
                cbc_equiv(h, &format!("{}: init after {} pending bytes", nm, off), ty, &a, &b, off)?;
                for n in [16 - off, 17 - off, 32, 40] {
                    let r = h.mem(st.clone());
                    let d = part(db, off as i128, n as i128);
                    let x = cbc_write(h, ty, &r, &d)?;
                    h.expect(&format!("{} without a key: a write of {} bytes with {} pending is NotInitialized", nm, n, off), &x, &ni)?;
                }
                let r = h.mem(st);
                let x = cbc_flush(h, ty, &r)?;
                let what = format!("{} without a key: flush with {} pending bytes is refused", nm, off);
                if enc {
                    h.expect(&what, &x, &ni)?;
                } else {
                    expect_err(h, &what, &x);
                }
            }
            Ok(())
        }));
        v.push(job("cbc-keys", format!("{}: init with a key of any unsupported length", nm), move |h| {
            ghost::aes(h);
            let (kb, ib, db, jb) = (h.bytes("key", true), h.bytes("iv", false), h.bytes("data", true), h.bytes("bad_key", true));
            let n = h.size("key_len", 0, 1 << 32);
            for x in [16, 24, 32] {
                let d = n.addk(-x);
                if dec_ge0(&mut h.i.cx, &d)? && dec_ge0(&mut h.i.cx, &d.mul(-1))? {
                    return Ok(());
                }
            }
            let bad = aes_err(h, "InvalidKeySize")?;
            let (key, iv) = (words(h, kb, 16), words(h, ib, 16));
            for off in [0usize, 1, 15] {
                let pend = words(h, db, off);
                for keyed in [false, true] {
                    let r = cbc_new(h, ty, &iv)?;
                    if keyed {
                        cbc_init(h, ty, &r, &els(&key))?;
                    }
                    cbc_write(h, ty, &r, &els(&pend))?;
                    let st = h.i.read_ref(&r)?;
                    let x = cbc_init(h, ty, &r, &[P::Sl(jb, Z::k(0), n.clone())])?;
                    h.expect(&format!("{}: init refuses the key", nm), &x, &bad)?;
                    let a = h.i.read_ref(&r)?;
                    cbc_equiv(h, &format!("{}: a refused key changes nothing (keyed: {})", nm, keyed), ty, &a, &st, off)?;
                }
            }
            Ok(())
        }));
        v.push(job("cbc-keys", format!("{}: a second key in mid-message", nm), move |h| {
            ghost::aes(h);
            let (ab, kb, ib, db) = (h.bytes("first_key", true), h.bytes("key", true), h.bytes("iv", false), h.bytes("data", true));
            let iv = words(h, ib, 16);
            for off in [0usize, 1, 8, 15] {
                let pend = words(h, db, off);
                for (k1, k2) in [(16usize, 16usize), (16, 32), (32, 24), (24, 16)] {
                    let (key1, key2) = (words(h, ab, k1), words(h, kb, k2));
                    let st = cbc_state(h, ty, &iv, &key1, &pend)?;
                    let r = h.mem(st);
                    let x = cbc_init(h, ty, &r, &els(&key2))?;
                    let w = okv(h, unit());
                    h.expect("init accepts the key", &x, &w)?;
                    let a = h.i.read_ref(&r)?;
                    let b = cbc_state(h, ty, &iv, &key2, &pend)?;
                    cbc_equiv(h, &format!("{}: a second key replaces the first for the rest of the message", nm), ty, &a, &b, off)?;
                }
            }
            Ok(())
        }));
    }
    v
}
/// two objects behave alike: equal states, or equal results of the next calls
fn cbc_equiv(h: &mut H, what: &str, ty: &str, a: &V, b: &V, off: usize) -> R<()> {
    if same(&mut h.i.cx, a, b) {
        h.ok(what);
        return Ok(());
    }
    let db = h.bytes("more", true);
    let (ra, rb) = (h.mem(a.clone()), h.mem(b.clone()));
    for n in [16 - off, 33] {
        let d = part(db, 0, n as i128);
        let (x, y) = (cbc_write(h, ty, &ra, &d)?, cbc_write(h, ty, &rb, &d)?);
        if let Verdict::Violated(x) = h.compare(T, &x, &y)? {
            h.bad(what, format!("next write of {} bytes: {}", n, x));
            return Ok(());
        }
    }
    if ty == CIPHER {
        let (x, y) = (cbc_flush(h, ty, &ra)?, cbc_flush(h, ty, &rb)?);
        if let Verdict::Violated(x) = h.compare(T, &x, &y)? {
            h.bad(what, format!("next flush: {}", x));
            return Ok(());
        }
    }
    let (x, y) = (h.i.read_ref(&ra)?, h.i.read_ref(&rb)?);
    if same(&mut h.i.cx, &x, &y) {
        h.ok(what);
    } else {
        h.undecided(what, "the objects differ, their next results agree");
    }
    Ok(())
}

// ================================================================= scrypt parameters
/// which (r, n, p) `derive` accepts: the flow into the first primitive call is the acceptance condition
pub fn scrypt_param_jobs(cfg: Cfg) -> Vec<Job> {
    use std::cell::RefCell;
    let mut rp = vec![(1usize, 1usize), (0, 1), (1, 0), (0, 0), (2, 3), (8, 16), (3, 0), (0, 7), (4, 1), (5, 2), (16, 1), (32, 4), (64, 1), (1, 128), (128, 1), (1, 255), (1, 256), (255, 1), (256, 1), (1024, 1), (1, 65536), (0, 1 << 20), (1 << 20, 0), (1 << 20, 1), (1, 1 << 20), (0, 1 << 32), (1 << 32, 0)];
    if cfg.thorough {
        for k in 0..24 {
            rp.extend([(1usize << k, 1usize), (1, 1usize << k), (3 << k, 1), (1, 3 << k)]);
        }
        rp.sort();
        rp.dedup();
    }
    rp.into_iter()
        .map(|(r, p)| {
            job("scrypt-parameters", format!("r={} p={}, every 64-bit n", r, p), move |h| {
                if !h.modular {
                    return uns("parameters are analysed up to the first primitive call");
                }
                let reached: Rc<RefCell<Vec<B>>> = Default::default();
                for f in ["dumb_crypto::pbkdf2::pbkdf2_sha256", "dumb_crypto::salsa20::salsa20", "dumb_crypto::hmac::HMac::new", "dumb_crypto::sha256::SHA256::new"] {
                    let c = reached.clone();
                    ghost::set(h, f, move |i, _| {
                        c.borrow_mut().push(i.st.pc);
                        Ok(Cr::Diverge)
                    });
                }
                let (pb, sb, ob, nb) = (h.bytes("passphrase", true), h.bytes("salt", false), h.bytes("out", false), h.bytes("n", false));
                let raw = words(h, nb, 8);
                let mut nbits: Vec<B> = vec![];
                for w in &raw {
                    nbits.extend(h.i.cx.bits(*w).iter());
                }
                for low in 0..=64usize {
                    // lowest set bit of n
                    let mut b = nbits.clone();
                    for q in b.iter_mut().take(low) {
                        *q = F;
                    }
                    if low < 64 {
                        b[low] = T;
                    }
                    let nw = h.i.cx.mk_bits(b.clone());
                    let mut pow2 = if low < 64 { T } else { F };
                    for q in b.iter().skip(low + 1) {
                        let nq = h.i.cx.not(*q);
                        pow2 = h.i.cx.and(pow2, nq);
                    }
                    let ge2 = if low == 0 { h.i.cx.not(pow2) } else if low == 64 { F } else { T };
                    let valid = h.i.cx.and(pow2, ge2);
                    let valid = if r >= 1 && p >= 1 { valid } else { F };
                    // a valid n is additionally documented to be below 2^(16 r); above, nothing is promised
                    let unspecified = r < 4 && low >= 16 * r && valid != F;
                    reached.borrow_mut().clear();
                    h.i.st.pc = T;
                    let (rw, pp) = (h.i.k64(r as u128), h.i.k64(p as u128));
                    let s = h.call(&m(SCRYPT, "new"), vec![rw, V::W(nw), pp])?;
                    let out0 = part(ob, 0, 40);
                    let (sr, pr, slr, or) = (h.mem(s), h.slice(part(pb, 0, 4)), h.slice(part(sb, 0, 3)), h.slice(out0.clone()));
                    let res = h.try_call(&m(SCRYPT, "derive"), vec![sr, pr, slr, or.clone()])?;
                    let mut acc = F;
                    for c in reached.borrow().iter() {
                        acc = h.i.cx.or(acc, *c);
                    }
                    let what = format!("n with lowest set bit {}, r={}, p={}", low, r, p);
                    if let Some(V::En(d, pay)) = &res {
                        let pc = h.i.st.pc;
                        let one = h.i.cx.konst(h.i.cx.width(*d), 1);
                        let bad = h.i.cx.eq(*d, one);
                        let okc = h.i.cx.not(bad);
                        let okc = h.i.cx.and(okc, pc);
                        acc = h.i.cx.or(acc, okc);
                        // the reason given is a real one
                        let rej = h.i.cx.and(bad, pc);
                        if rej != F && pay[1].len() == 1 {
                            if let V::En(e, _) = pay[1][0].clone() {
                                for (name, real) in [("RIsTooSmall", if r < 1 { T } else { F }), ("NIsTooSmall", h.i.cx.not(ge2)), ("NIsNotAPowerOfTwo", h.i.cx.not(pow2)), ("PIsTooSmall", if p < 1 { T } else { F })] {
                                    let (_, k) = h.i.variant_of("dumb_crypto::scrypt::ScryptError", name)?;
                                    let kw = h.i.cx.konst(h.i.cx.width(e), k as u128);
                                    let is = h.i.cx.eq(e, kw);
                                    let is = h.i.cx.and(is, rej);
                                    let nr = h.i.cx.not(real);
                                    let wrong = h.i.cx.and(is, nr);
                                    let (a, z) = (h.i.vb(wrong), h.i.vb(F));
                                    h.i.st.pc = T;
                                    h.expect(&format!("{}: {} only when that parameter is at fault", what, name), &a, &z)?;
                                    h.i.st.pc = pc;
                                }
                            }
                        }
                        let got = h.i.read_ref(&or)?;
                        h.i.st.pc = T;
                        let v = h.compare(rej, &got, &seqv(out0))?;
                        h.obs.push(Ob { what: format!("{}: the output buffer is untouched by a refusal", what), v });
                    } else if res.is_some() {
                        return uns("result of derive");
                    }
                    h.i.st.pc = T;
                    let (acc, valid) = if unspecified {
                        let nv = h.i.cx.not(valid);
                        (h.i.cx.and(acc, nv), F)
                    } else {
                        (acc, valid)
                    };
                    let (a, b) = (h.i.vb(acc), h.i.vb(valid));
                    h.expect(&format!("{}: accepted exactly when all parameters are valid", what), &a, &b)?;
                }
                Ok(())
            })
        })
        .collect()
}
// ================================================================= timing of the padding check
/// every control decision while a message is finished depends on the final byte and on the verdict only
pub fn padding_timing_jobs() -> Vec<Job> {
    let mut v = vec![];
    for lo in (0..256usize).step_by(32) {
        v.push(job("padding-timing", format!("final cleartext byte {}..{}", lo, lo + 31), move |h| {
            ghost::aes(h);
            if !h.modular {
                return uns("the block cipher could not be separated from the padding check");
            }
            let (kb, ib, hb) = (h.bytes("key", true), h.bytes("chain", false), h.bytes("held", true));
            let (key, iv, mut p) = (words(h, kb, 16), words(h, ib, 16), words(h, hb, 16));
            for k in lo..lo + 32 {
                p[15] = h.i.cx.konst(8, k as u128);
                let st = decipher_state(h, &key, &iv, Some((&iv, &p)), &[])?;
                let r = h.mem(st);
                h.i.events.clear();
                h.i.log_events = true;
                let got = cbc_flush(h, DECIPHER, &r);
                h.i.log_events = false;
                got?;
                let (c, _) = unpad_spec(h, &p);
                let nc = h.i.cx.not(c);
                let ev = std::mem::take(&mut h.i.events);
                let mut bad = None;
                for (kind, at, conds) in &ev {
                    if conds.is_empty() {
                        bad = Some(format!("{} at {} depends on the cleartext", kind, at));
                    }
                    for b in conds {
                        let x = h.i.cx.and(*b, c);
                        let y = h.i.cx.and(*b, nc);
                        if !(x == F || x == c) || !(y == F || y == nc) {
                            bad = Some(format!("{} at {} tells apart messages that differ only in bytes other than the final one and get the same verdict", kind, at));
                        }
                    }
                }
                let what = format!("final byte {}: every control decision of flush is a function of the verdict", k);
                match bad {
                    None => h.ok(what),
                    Some(x) => h.bad(what, x),
                }
            }
            Ok(())
        }));
    }
    v
}
