//! Abstract values: scalars, aggregates, enums, sequences (arrays, slices, vectors), references, iterators.
use crate::fx::FxMap;
use crate::term::*;
use std::rc::Rc;

/// why an analysis step could not be completed
#[derive(Clone, Debug)]
pub enum E {
    /// construct outside the modelled fragment: no verdict from this obligation
    Unsupported(String),
    /// an undecided comparison of sizes: the caller splits the partition on `z >= 0`
    Split(Z),
}
pub type R<T> = Result<T, E>;
pub fn uns<T>(s: impl Into<String>) -> R<T> {
    Err(E::Unsupported(s.into()))
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum PE {
    F(u32),
    Vf(u32, u32),
    I(Z),
    S(Z, Z),
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Ptr {
    pub obj: u32,
    pub path: Rc<Vec<PE>>,
}
#[derive(Clone, Debug)]
pub enum It {
    /// elements lo..hi of the sequence at the pointer
    Slice { p: Ptr, lo: Z, hi: Z },
    Chunks { p: Ptr, lo: Z, hi: Z, size: Z, exact: bool, rem: Z },
    Windows { p: Ptr, lo: Z, hi: Z, size: Z },
    /// owning iterator
    Into { seq: V, lo: Z, hi: Z },
}
#[derive(Clone, Debug)]
pub enum V {
    Undef,
    W(W),
    Agg(Rc<Vec<V>>),
    En(W, Rc<Vec<Rc<Vec<V>>>>),
    Seq(Rc<Vec<P>>),
    Ref(Ptr),
    It(Rc<It>),
    Gh(&'static str, Rc<Vec<V>>),
    Fn(usize),
    Ite(B, Rc<V>, Rc<V>),
}
#[derive(Clone, Debug)]
pub enum P {
    El(Rc<Vec<V>>),
    Sl(u32, Z, Z),
    Rep(Rc<V>, Z),
    /// count, bound index variable, element template
    Gen(Z, W, Rc<V>),
}
/// canonical form of function arguments
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Key {
    W(W),
    Seq(Rc<[KP]>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum KP {
    El(Rc<[W]>),
    Sl(u32, Z, Z),
    Rep(W, Z),
}

impl P {
    pub fn len(&self) -> Z {
        match self {
            P::El(v) => Z::k(v.len() as i128),
            P::Sl(_, _, l) => l.clone(),
            P::Rep(_, l) => l.clone(),
            P::Gen(l, _, _) => l.clone(),
        }
    }
}
pub fn unit() -> V {
    V::Agg(Rc::new(vec![]))
}
pub fn agg(v: Vec<V>) -> V {
    V::Agg(Rc::new(v))
}
pub fn el(v: Vec<V>) -> V {
    V::Seq(Rc::new(vec![P::El(Rc::new(v))]))
}
pub fn sl(base: u32, off: Z, len: Z) -> V {
    V::Seq(Rc::new(vec![P::Sl(base, off, len)]))
}
pub fn seq_len(s: &[P]) -> Z {
    let mut z = Z::k(0);
    for p in s {
        z = z.add(&p.len());
    }
    z
}
impl V {
    pub fn seq(&self) -> R<&Rc<Vec<P>>> {
        match self {
            V::Seq(s) => Ok(s),
            _ => uns(format!("expected a sequence, got {:?}", short(self))),
        }
    }
    pub fn w(&self) -> R<W> {
        match self {
            V::W(w) => Ok(*w),
            _ => uns(format!("expected a scalar, got {}", short(self))),
        }
    }
}
pub fn short(v: &V) -> String {
    let s = format!("{:?}", v);
    s.chars().take(120).collect()
}

/// true/false if provable, otherwise a request to split
pub fn dec_ge0(cx: &mut Cx, z: &Z) -> R<bool> {
    if cx.prove_ge0(z) {
        return Ok(true);
    }
    if cx.prove_ge0(&z.mul(-1).addk(-1)) {
        return Ok(false);
    }
    Err(E::Split(z.clone()))
}
/// the value of a size known to lie in 0..=hi: decided, or a request to split
pub fn pin(cx: &mut Cx, z: &Z, hi: i128) -> R<i128> {
    if let Some(k) = z.as_k() {
        return Ok(k);
    }
    let (mut lo, mut up) = (0i128, hi);
    // invariant: lo <= z <= up
    while lo < up {
        let m = (lo + up + 1) / 2;
        if cx.prove_ge0(&z.addk(-m)) {
            lo = m;
        } else if cx.prove_ge0(&z.mul(-1).addk(m - 1)) {
            up = m - 1;
        } else {
            return Err(E::Split(z.addk(-m)));
        }
    }
    Ok(lo)
}
pub fn only_sizes(cx: &mut Cx, z: &Z) -> bool {
    z.t.iter().all(|x| cx.is_size(x.0))
}

pub fn seq_get(cx: &mut Cx, s: &[P], i: &Z) -> R<V> {
    if s.len() == 1 {
        if let (P::El(v), Some(k)) = (&s[0], i.as_k()) {
            return match v.get(k as usize) {
                Some(x) if k >= 0 => Ok(x.clone()),
                _ => uns("index out of range after check"),
            };
        }
    }
    // data-dependent index into explicit elements
    if !only_sizes(cx, i) {
        if let Some(v) = all_el(s) {
            return sel(cx, &v, i);
        }
    }
    let mut st = Z::k(0);
    for (n, p) in s.iter().enumerate() {
        let l = p.len();
        let en = st.add(&l);
        let inside = if n + 1 == s.len() { true } else { dec_ge0(cx, &en.sub(i).addk(-1))? };
        if inside {
            let r = i.sub(&st);
            return match p {
                P::El(v) => match r.as_k() {
                    Some(k) if k >= 0 && (k as usize) < v.len() => Ok(v[k as usize].clone()),
                    Some(_) => uns("index out of range after check"),
                    None => sel(cx, v, &r),
                },
                P::Sl(b, o, _) => Ok(V::W(cx.elem(*b, &o.add(&r)))),
                P::Rep(v, _) => Ok((**v).clone()),
                P::Gen(_, w, t) => {
                    let mut sb = Subst::new(*w, r);
                    Ok(sb.v(cx, t))
                }
            };
        }
        st = en;
    }
    uns("empty sequence indexed")
}
pub fn all_el(s: &[P]) -> Option<Vec<V>> {
    let mut out = vec![];
    for p in s {
        match p {
            P::El(v) => out.extend(v.iter().cloned()),
            P::Rep(v, z) => {
                let k = z.as_k()?;
                for _ in 0..k {
                    out.push((**v).clone());
                }
            }
            _ => return None,
        }
    }
    Some(out)
}
pub fn sel(cx: &mut Cx, v: &[V], i: &Z) -> R<V> {
    if v.is_empty() {
        return uns("select from an empty sequence");
    }
    let iw = cx.from_z(i, 64);
    if let Some(k) = cx.as_const(iw) {
        return v.get(k as usize).cloned().ok_or(E::Unsupported("index".into()));
    }
    let mut t = vec![];
    let mut wd = 0;
    for x in v {
        if let V::W(w) = x {
            if let Some(k) = cx.as_const(*w) {
                wd = cx.width(*w);
                t.push(k);
                continue;
            }
        }
        break;
    }
    if t.len() == v.len() && v.len() > 4 {
        let tab = cx.table(t);
        return Ok(V::W(cx.lookup(tab, iw, wd)));
    }
    if v.len() > 4096 {
        return uns("select from a long sequence");
    }
    let bits = cx.bits(iw);
    sel_rec(cx, v, &bits, 0, v.len())
}
fn sel_rec(cx: &mut Cx, v: &[V], bits: &[B], _d: usize, _n: usize) -> R<V> {
    // binary selection tree on the index bits (out-of-range indices are unreachable: bounds were checked)
    let mut level: Vec<V> = v.to_vec();
    let mut b = 0;
    while level.len() > 1 {
        let mut nx = vec![];
        for c in level.chunks(2) {
            if c.len() == 2 {
                nx.push(ite(cx, bits[b], &c[1], &c[0])?);
            } else {
                nx.push(c[0].clone());
            }
        }
        level = nx;
        b += 1;
    }
    Ok(level.pop().unwrap())
}
pub fn seq_slice(cx: &mut Cx, s: &[P], off: &Z, len: &Z) -> R<Vec<P>> {
    if s.len() == 1 {
        if let (P::El(v), Some(o), Some(l)) = (&s[0], off.as_k(), len.as_k()) {
            if o < 0 || l < 0 || (o + l) as usize > v.len() {
                return uns("slice out of range after check");
            }
            return Ok(vec![P::El(Rc::new(v[o as usize..(o + l) as usize].to_vec()))]);
        }
    }
    let mut out = vec![];
    if cx.prove_ge0(&len.mul(-1)) {
        return Ok(out);
    }
    let end = off.add(len);
    let mut st = Z::k(0);
    let n = s.len();
    for (k, p) in s.iter().enumerate() {
        let l = p.len();
        let en = st.add(&l);
        // from = max(off, st), to = min(end, en)
        if k + 1 < n && en != *off && cx.prove_ge0(&off.sub(&en)) {
            st = en;
            continue;
        }
        if en == *off {
            st = en;
            continue;
        }
        let from = if off == &st {
            st.clone()
        } else if !cx.prove_ge0(&off.sub(&st)) && dec_ge0(cx, &st.sub(off))? {
            st.clone()
        } else if k + 1 < n && dec_ge0(cx, &off.sub(&en))? {
            st = en;
            continue;
        } else {
            off.clone()
        };
        let last = k + 1 == n;
        let stop = last || end == en || dec_ge0(cx, &en.sub(&end))?;
        let to = if stop { end.clone() } else { en.clone() };
        let (o, l2) = (from.sub(&st), to.sub(&from));
        if l2.as_k() != Some(0) {
            out.push(piece_slice(cx, p, &o, &l2)?);
        }
        if stop {
            break;
        }
        st = en;
    }
    Ok(out)
}
fn piece_slice(cx: &mut Cx, p: &P, o: &Z, l: &Z) -> R<P> {
    Ok(match p {
        P::El(v) => {
            // a symbolic cut inside explicit elements: enumerate
            let n = v.len() as i128;
            for z in [o, l] {
                if z.as_k().is_none() && !only_sizes(cx, z) {
                    return uns("data-dependent slice bounds");
                }
            }
            let (a, b) = (pin(cx, o, n)?, pin(cx, l, n)?);
            if a >= 0 && b >= 0 && a + b <= n {
                P::El(Rc::new(v[a as usize..(a + b) as usize].to_vec()))
            } else {
                return uns("slice out of range after check");
            }
        }
        P::Sl(b, f, _) => P::Sl(*b, f.add(o), l.clone()),
        P::Rep(v, _) => P::Rep(v.clone(), l.clone()),
        P::Gen(_, w, t) => {
            if o.as_k() == Some(0) {
                P::Gen(l.clone(), *w, t.clone())
            } else {
                let by = Z::var(*w).add(o);
                let mut sb = Subst::new(*w, by);
                P::Gen(l.clone(), *w, Rc::new(sb.v(cx, t)))
            }
        }
    })
}
pub fn seq_push(cx: &mut Cx, out: &mut Vec<P>, p: P) {
    let l = p.len();
    if l.as_k() == Some(0) {
        return;
    }
    match (out.last_mut(), p) {
        (Some(P::El(a)), P::El(b)) => {
            Rc::make_mut(a).extend(b.iter().cloned());
        }
        (Some(P::Sl(b1, o1, l1)), P::Sl(b2, o2, l2)) if *b1 == b2 && o1.add(l1) == o2 => {
            *l1 = l1.add(&l2);
        }
        (Some(P::Rep(v1, l1)), P::Rep(v2, l2)) if same(cx, v1, &v2) => {
            *l1 = l1.add(&l2);
        }
        (_, p) => out.push(p),
    }
}
pub fn seq_cat(cx: &mut Cx, a: &[P], b: &[P]) -> Vec<P> {
    let mut out: Vec<P> = a.iter().filter(|p| p.len().as_k() != Some(0)).cloned().collect();
    for p in b {
        seq_push(cx, &mut out, p.clone());
    }
    out
}
/// replace [off, off+len) by `by`
pub fn seq_splice(cx: &mut Cx, s: &[P], off: &Z, len: &Z, by: &[P]) -> R<Vec<P>> {
    let tot = seq_len(s);
    let head = seq_slice(cx, s, &Z::k(0), off)?;
    let a = off.add(len);
    let tl = tot.sub(&a);
    let tail = if tl.as_k() == Some(0) { vec![] } else { seq_slice(cx, s, &a, &tl)? };
    let r = seq_cat(cx, &head, by);
    Ok(seq_cat(cx, &r, &tail))
}
pub fn seq_set(cx: &mut Cx, s: &mut Rc<Vec<P>>, i: &Z, v: V) -> R<()> {
    if s.len() == 1 {
        if let (P::El(_), Some(k)) = (&s[0], i.as_k()) {
            let m = Rc::make_mut(s);
            if let P::El(e) = &mut m[0] {
                if k < 0 || k as usize >= e.len() {
                    return uns("index out of range after check");
                }
                Rc::make_mut(e)[k as usize] = v;
                return Ok(());
            }
        }
    }
    if !only_sizes(cx, i) {
        if let Some(mut e) = all_el(s) {
            let iw = cx.from_z(i, 64);
            for (k, x) in e.iter_mut().enumerate() {
                let kw = cx.konst(64, k as u128);
                let c = cx.eq(iw, kw);
                *x = ite(cx, c, &v, x)?;
            }
            *s = Rc::new(vec![P::El(Rc::new(e))]);
            return Ok(());
        }
    }
    let n = seq_splice(cx, s, i, &Z::k(1), &[P::El(Rc::new(vec![v]))])?;
    *s = Rc::new(n);
    Ok(())
}

/// the value if c then a else b
pub fn ite(cx: &mut Cx, c: B, a: &V, b: &V) -> R<V> {
    if c == T {
        return Ok(a.clone());
    }
    if c == F {
        return Ok(b.clone());
    }
    Ok(match (a, b) {
        (V::Undef, x) | (x, V::Undef) => x.clone(),
        (V::W(x), V::W(y)) => {
            if x == y {
                V::W(*x)
            } else if cx.width(*x) != cx.width(*y) {
                return uns("merge of scalars of different widths");
            } else {
                V::W(cx.wite(c, *x, *y))
            }
        }
        (V::Agg(x), V::Agg(y)) if x.len() == y.len() => {
            if Rc::ptr_eq(x, y) {
                return Ok(a.clone());
            }
            let mut r = Vec::with_capacity(x.len());
            for (p, q) in x.iter().zip(y.iter()) {
                r.push(ite(cx, c, p, q)?);
            }
            V::Agg(Rc::new(r))
        }
        (V::En(d, x), V::En(e, y)) if x.len() == y.len() => {
            let dd = cx.wite(c, *d, *e);
            // a payload is meaningless unless the discriminant selects it
            let (kd, ke) = (cx.as_const(*d), cx.as_const(*e));
            let mut r = vec![];
            for i in 0..x.len() {
                let ia = kd.map_or(false, |k| k != i as u128);
                let ib = ke.map_or(false, |k| k != i as u128);
                if ia {
                    r.push(y[i].clone());
                } else if ib || Rc::ptr_eq(&x[i], &y[i]) {
                    r.push(x[i].clone());
                } else {
                    let mut v = vec![];
                    for (p, q) in x[i].iter().zip(y[i].iter()) {
                        v.push(ite(cx, c, p, q)?);
                    }
                    r.push(Rc::new(v));
                }
            }
            V::En(dd, Rc::new(r))
        }
        (V::Seq(x), V::Seq(y)) => {
            if Rc::ptr_eq(x, y) || same_seq(cx, x, y) {
                return Ok(a.clone());
            }
            let (lx, ly) = (seq_len(x), seq_len(y));
            if lx == ly {
                if x.len() == 1 && y.len() == 1 {
                    if let (P::El(p), P::El(q)) = (&x[0], &y[0]) {
                        let mut r = Vec::with_capacity(p.len());
                        for (u, v) in p.iter().zip(q.iter()) {
                            r.push(ite(cx, c, u, v)?);
                        }
                        return Ok(el(r));
                    }
                }
                if let Some(n) = lx.as_k() {
                    if n <= 8192 {
                        let mut r = vec![];
                        for i in 0..n {
                            let (u, v) = (seq_get(cx, x, &Z::k(i))?, seq_get(cx, y, &Z::k(i))?);
                            r.push(ite(cx, c, &u, &v)?);
                        }
                        return Ok(el(r));
                    }
                }
            }
            V::Ite(c, Rc::new(a.clone()), Rc::new(b.clone()))
        }
        (V::Ref(x), V::Ref(y)) if x == y => a.clone(),
        (V::Fn(x), V::Fn(y)) if x == y => a.clone(),
        (V::It(x), V::It(y)) => match merge_it(cx, c, x, y)? {
            Some(i) => V::It(Rc::new(i)),
            None => V::Ite(c, Rc::new(a.clone()), Rc::new(b.clone())),
        },
        (V::Gh(n, x), V::Gh(m, y)) if n == m && x.len() == y.len() => {
            let mut r = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                r.push(ite(cx, c, p, q)?);
            }
            V::Gh(n, Rc::new(r))
        }
        _ => V::Ite(c, Rc::new(a.clone()), Rc::new(b.clone())),
    })
}
fn merge_it(cx: &mut Cx, c: B, a: &It, b: &It) -> R<Option<It>> {
    let mut zi = |x: &Z, y: &Z| -> R<Option<Z>> {
        if x == y {
            return Ok(Some(x.clone()));
        }
        let (p, q) = (cx.from_z(x, 64), cx.from_z(y, 64));
        let w = cx.wite(c, p, q);
        Ok(cx.to_z(w))
    };
    Ok(match (a, b) {
        (It::Slice { p, lo, hi }, It::Slice { p: p2, lo: l2, hi: h2 }) if p == p2 => {
            match (zi(lo, l2)?, zi(hi, h2)?) {
                (Some(lo), Some(hi)) => Some(It::Slice { p: p.clone(), lo, hi }),
                _ => None,
            }
        }
        (It::Into { seq, lo, hi }, It::Into { seq: s2, lo: l2, hi: h2 }) => match (zi(lo, l2)?, zi(hi, h2)?) {
            (Some(lo), Some(hi)) => Some(It::Into { seq: ite(cx, c, seq, s2)?, lo, hi }),
            _ => None,
        },
        _ => None,
    })
}
/// syntactic identity (after hash-consing)
pub fn same(cx: &mut Cx, a: &V, b: &V) -> bool {
    match (a, b) {
        (V::W(x), V::W(y)) => x == y,
        (V::Undef, V::Undef) => true,
        (V::Agg(x), V::Agg(y)) | (V::Gh(_, x), V::Gh(_, y)) => {
            Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(cx, p, q)))
        }
        (V::En(d, x), V::En(e, y)) => {
            if d != e || x.len() != y.len() {
                return false;
            }
            if let Some(k) = cx.as_const(*d) {
                let k = k as usize;
                return x[k].len() == y[k].len() && x[k].iter().zip(y[k].iter()).all(|(p, q)| same(cx, p, q));
            }
            x.iter().zip(y.iter()).all(|(p, q)| p.len() == q.len() && p.iter().zip(q.iter()).all(|(u, v)| same(cx, u, v)))
        }
        (V::Seq(x), V::Seq(y)) => same_seq(cx, x, y),
        (V::Ref(x), V::Ref(y)) => x == y,
        (V::Fn(x), V::Fn(y)) => x == y,
        (V::It(x), V::It(y)) => match (&**x, &**y) {
            (It::Slice { p, lo, hi }, It::Slice { p: p2, lo: l2, hi: h2 }) => p == p2 && lo == l2 && hi == h2,
            (It::Chunks { p, lo, hi, size, exact, rem }, It::Chunks { p: p2, lo: l2, hi: h2, size: s2, exact: e2, rem: r2 }) => {
                p == p2 && lo == l2 && hi == h2 && size == s2 && exact == e2 && rem == r2
            }
            (It::Windows { p, lo, hi, size }, It::Windows { p: p2, lo: l2, hi: h2, size: s2 }) => p == p2 && lo == l2 && hi == h2 && size == s2,
            (It::Into { seq, lo, hi }, It::Into { seq: s2, lo: l2, hi: h2 }) => lo == l2 && hi == h2 && same(cx, seq, s2),
            _ => false,
        },
        (V::Ite(c, x, y), V::Ite(d, u, v)) => c == d && same(cx, x, u) && same(cx, y, v),
        _ => false,
    }
}
pub fn same_seq(cx: &mut Cx, x: &Rc<Vec<P>>, y: &Rc<Vec<P>>) -> bool {
    if Rc::ptr_eq(x, y) {
        return true;
    }
    if x.len() == 1 && y.len() == 1 {
        match (&x[0], &y[0]) {
            (P::El(p), P::El(q)) => {
                if Rc::ptr_eq(p, q) {
                    return true;
                }
                return p.len() == q.len() && p.iter().zip(q.iter()).all(|(u, v)| same(cx, u, v));
            }
            (P::Sl(a, b, c), P::Sl(d, e, f)) => return a == d && b == e && c == f,
            _ => {}
        }
    }
    match (key_seq(cx, x), key_seq(cx, y)) {
        (Ok(a), Ok(b)) => a == b,
        _ => {
            x.len() == y.len()
                && x.iter().zip(y.iter()).all(|(p, q)| match (p, q) {
                    (P::El(a), P::El(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(u, v)| same(cx, u, v)),
                    (P::Sl(a, b, c), P::Sl(d, e, f)) => a == d && b == e && c == f,
                    (P::Rep(a, b), P::Rep(c, d)) => b == d && same(cx, a, c),
                    (P::Gen(a, b, c), P::Gen(d, e, f)) => {
                        a == d && {
                            let mut sb = Subst::new(*e, Z::var(*b));
                            let t = sb.v(cx, f);
                            same(cx, c, &t)
                        }
                    }
                    _ => false,
                })
        }
    }
}
/// canonical form of a sequence of scalars
pub fn key_seq(cx: &mut Cx, s: &[P]) -> R<Key> {
    let mut out: Vec<KP> = vec![];
    let mut cur: Vec<W> = vec![];
    fn flush(out: &mut Vec<KP>, cur: &mut Vec<W>) {
        if !cur.is_empty() {
            out.push(KP::El(std::mem::take(cur).into()));
        }
    }
    fn word(cx: &mut Cx, out: &mut Vec<KP>, cur: &mut Vec<W>, w: W) {
        if let Some((b, z)) = cx.as_elem(w) {
            let z = z.clone();
            flush(out, cur);
            push_sl(cx, out, b, z, Z::k(1));
        } else {
            cur.push(w);
        }
    }
    fn push_sl(_cx: &mut Cx, out: &mut Vec<KP>, b: u32, o: Z, l: Z) {
        if let Some(KP::Sl(b1, o1, l1)) = out.last_mut() {
            if *b1 == b && o1.add(l1) == o {
                *l1 = l1.add(&l);
                return;
            }
        }
        out.push(KP::Sl(b, o, l));
    }
    for p in s {
        match p {
            P::El(v) => {
                for x in v.iter() {
                    match x {
                        V::W(w) => word(cx, &mut out, &mut cur, *w),
                        _ => return uns("sequence of non-scalars as an argument"),
                    }
                }
            }
            P::Sl(b, o, l) => {
                if l.as_k() == Some(0) || cx.prove_ge0(&l.mul(-1)) {
                    continue;
                }
                flush(&mut out, &mut cur);
                push_sl(cx, &mut out, *b, o.clone(), l.clone());
            }
            P::Rep(v, l) => {
                let w = v.w()?;
                if let Some(k) = l.as_k() {
                    for _ in 0..k {
                        word(cx, &mut out, &mut cur, w);
                    }
                } else {
                    if cx.prove_ge0(&l.mul(-1)) {
                        continue;
                    }
                    flush(&mut out, &mut cur);
                    if let Some(KP::Rep(w1, l1)) = out.last_mut() {
                        if *w1 == w {
                            *l1 = l1.add(l);
                            continue;
                        }
                    }
                    out.push(KP::Rep(w, l.clone()));
                }
            }
            P::Gen(..) => return uns("generated sequence as an argument"),
        }
    }
    flush(&mut out, &mut cur);
    Ok(Key::Seq(out.into()))
}
pub fn key_val(k: &Key) -> V {
    match k {
        Key::W(w) => V::W(*w),
        Key::Seq(s) => V::Seq(Rc::new(
            s.iter()
                .map(|p| match p {
                    KP::El(w) => P::El(Rc::new(w.iter().map(|x| V::W(*x)).collect())),
                    KP::Sl(b, o, l) => P::Sl(*b, o.clone(), l.clone()),
                    KP::Rep(w, l) => P::Rep(Rc::new(V::W(*w)), l.clone()),
                })
                .collect(),
        )),
    }
}
pub fn words_of(cx: &mut Cx, s: &[P]) -> R<Vec<W>> {
    let n = match seq_len(s).as_k() {
        Some(n) => n,
        None => return uns("length not constant"),
    };
    let mut r = Vec::with_capacity(n as usize);
    for p in s {
        match p {
            P::El(v) => {
                for x in v.iter() {
                    r.push(x.w()?)
                }
            }
            P::Sl(b, o, l) => {
                for i in 0..l.as_k().unwrap_or(-1).max(0) {
                    r.push(cx.elem(*b, &o.addk(i)));
                }
            }
            P::Rep(v, l) => {
                for _ in 0..l.as_k().unwrap_or(0) {
                    r.push(v.w()?);
                }
            }
            P::Gen(..) => return uns("generated sequence"),
        }
    }
    if r.len() != n as usize {
        return uns("symbolic pieces with a constant total length");
    }
    Ok(r)
}

/// substitution of a size variable, or of atoms, in values
pub struct Subst {
    var: Option<(W, Z)>,
    pub atoms: FxMap<A, W>,
    mw: FxMap<W, W>,
    mb: FxMap<B, B>,
    ma: FxMap<A, W>,
    mbase: FxMap<u32, u32>,
}
impl Subst {
    pub fn new(w: W, by: Z) -> Subst {
        Subst { var: Some((w, by)), atoms: Default::default(), mw: Default::default(), mb: Default::default(), ma: Default::default(), mbase: Default::default() }
    }
    pub fn atoms(m: FxMap<A, W>) -> Subst {
        Subst { var: None, atoms: m, mw: Default::default(), mb: Default::default(), ma: Default::default(), mbase: Default::default() }
    }
    pub fn z(&mut self, cx: &mut Cx, z: &Z) -> Z {
        let mut r = Z::k(z.c);
        for (w, c) in &z.t {
            if let Some((v, by)) = &self.var {
                if v == w {
                    r = r.lin(1, by, *c);
                    continue;
                }
            }
            let nw = self.w(cx, *w);
            if nw == *w {
                r = r.lin(1, &Z::var(nw), *c);
            } else if let Some(zz) = cx.to_z(nw) {
                r = r.lin(1, &zz, *c);
            } else {
                r = r.lin(1, &Z::var(nw), *c);
            }
        }
        r
    }
    pub fn atom(&mut self, cx: &mut Cx, a: A) -> W {
        if let Some(&w) = self.ma.get(&a) {
            return w;
        }
        let n = cx.atoms[a as usize].n;
        if let Some(&w) = self.atoms.get(&a) {
            self.ma.insert(a, w);
            return w;
        }
        let k = cx.atoms[a as usize].k.clone();
        let r = match k {
            AK::Elem(b, z) => {
                let nb = self.base(cx, b);
                let nz = self.z(cx, &z);
                cx.elem(nb, &nz)
            }
            AK::Sum(w) => self.w(cx, w),
            AK::Tab(t, w) => {
                let nw = self.w(cx, w);
                cx.lookup(t, nw, n)
            }
            AK::Op(name, ws) => {
                let nw: Vec<W> = ws.iter().map(|x| self.w(cx, *x)).collect();
                if nw == ws {
                    cx.atom_word(a, n)
                } else {
                    cx.redo_op(name, nw, n)
                }
            }
            AK::P(name, ws) => {
                let nw: Vec<W> = ws.iter().map(|x| self.w(cx, *x)).collect();
                if nw == ws {
                    cx.atom_word(a, n)
                } else {
                    let b = match name {
                        "eq" => cx.eq(nw[0], nw[1]),
                        "ult" => cx.ult(nw[0], nw[1]),
                        _ => cx.pred_atom(name, nw),
                    };
                    cx.bool(b)
                }
            }
            AK::Ge0(z) => {
                let nz = self.z(cx, &z);
                let b = cx.ge0(&nz);
                cx.bool(b)
            }
            AK::Size(_) => {
                let w = cx.atom_word(a, 64);
                if let Some((v, by)) = self.var.clone() {
                    if v == w {
                        let x = cx.from_z(&by, 64);
                        self.ma.insert(a, x);
                        return x;
                    }
                }
                w
            }
            AK::Fun(tt, w) => {
                let nw = self.w(cx, w);
                let b = match cx.as_const(nw) {
                    Some(x) => ((tt[x as usize / 64] >> (x % 64)) & 1) as B,
                    None => cx.fun_bit(tt, nw),
                };
                cx.bool(b)
            }
            AK::Free(_) => cx.atom_word(a, n),
            AK::Def(op, bs) => {
                let nb: Vec<B> = bs.iter().map(|b| self.bit(cx, *b)).collect();
                let b = match op {
                    "and" => cx.and(nb[0], nb[1]),
                    "or" => cx.or(nb[0], nb[1]),
                    "xor" => cx.xor(nb[0], nb[1]),
                    _ => cx.ite(nb[0], nb[1], nb[2]),
                };
                cx.bool(b)
            }
        };
        self.ma.insert(a, r);
        r
    }
    pub fn base(&mut self, cx: &mut Cx, b: u32) -> u32 {
        if let Some(&r) = self.mbase.get(&b) {
            return r;
        }
        let d = cx.bases[b as usize].clone();
        let r = match d.k {
            BaseK::App(n, args) => {
                let na: Vec<Key> = args.iter().map(|k| self.key(cx, k)).collect();
                if na == args {
                    b
                } else {
                    cx.base(BaseK::App(n, na), d.w)
                }
            }
            _ => b,
        };
        self.mbase.insert(b, r);
        r
    }
    pub fn key(&mut self, cx: &mut Cx, k: &Key) -> Key {
        match k {
            Key::W(w) => Key::W(self.w(cx, *w)),
            Key::Seq(_) => {
                let v = key_val(k);
                let nv = self.v(cx, &v);
                match &nv {
                    V::Seq(s) => key_seq(cx, s).unwrap_or_else(|_| k.clone()),
                    _ => k.clone(),
                }
            }
        }
    }
    pub fn bit(&mut self, cx: &mut Cx, b: B) -> B {
        if b < 2 {
            return b;
        }
        if let Some(&r) = self.mb.get(&b) {
            return r;
        }
        let (v, lo, hi) = cx.node(b);
        let (a, i) = cx.vars[v as usize];
        let l = self.bit(cx, lo);
        let h = self.bit(cx, hi);
        let aw = self.atom(cx, a);
        let ab = cx.bits(aw);
        let c = if (i as usize) < ab.len() { ab[i as usize] } else { F };
        let r = cx.ite(c, h, l);
        self.mb.insert(b, r);
        r
    }
    pub fn w(&mut self, cx: &mut Cx, w: W) -> W {
        if let Some(&r) = self.mw.get(&w) {
            return r;
        }
        let wd = cx.width(w);
        let r = match cx.node_of(w).clone() {
            WN::Bits(b) => {
                // whole-atom words keep linear structure
                if let Some((_, a)) = cx.single_atom(w) {
                    let nw = self.atom(cx, a);
                    let ow = cx.width(nw);
                    if ow == wd {
                        nw
                    } else if ow < wd {
                        cx.zext(nw, wd)
                    } else {
                        cx.trunc(nw, wd)
                    }
                } else {
                    let nb: Vec<B> = b.iter().map(|x| self.bit(cx, *x)).collect();
                    cx.mk_bits(nb)
                }
            }
            WN::Lin(c, t) => {
                let mut acc = cx.konst(wd, c);
                for (x, k) in t.iter() {
                    let nx = self.w(cx, *x);
                    let m = cx.mulk(nx, *k);
                    acc = cx.add(acc, m);
                }
                acc
            }
        };
        self.mw.insert(w, r);
        r
    }
    pub fn v(&mut self, cx: &mut Cx, v: &V) -> V {
        match v {
            V::Undef | V::Fn(_) => v.clone(),
            V::W(w) => V::W(self.w(cx, *w)),
            V::Agg(x) => V::Agg(Rc::new(x.iter().map(|q| self.v(cx, q)).collect())),
            V::Gh(n, x) => V::Gh(n, Rc::new(x.iter().map(|q| self.v(cx, q)).collect())),
            V::En(d, x) => {
                let nd = self.w(cx, *d);
                V::En(nd, Rc::new(x.iter().map(|p| Rc::new(p.iter().map(|q| self.v(cx, q)).collect::<Vec<V>>())).collect()))
            }
            V::Seq(s) => {
                let mut out = vec![];
                for p in s.iter() {
                    let np = match p {
                        P::El(e) => P::El(Rc::new(e.iter().map(|q| self.v(cx, q)).collect())),
                        P::Sl(b, o, l) => {
                            let nb = self.base(cx, *b);
                            P::Sl(nb, self.z(cx, o), self.z(cx, l))
                        }
                        P::Rep(x, l) => P::Rep(Rc::new(self.v(cx, x)), self.z(cx, l)),
                        P::Gen(l, w, t) => P::Gen(self.z(cx, l), *w, Rc::new(self.v(cx, t))),
                    };
                    seq_push(cx, &mut out, np);
                }
                V::Seq(Rc::new(out))
            }
            V::Ref(p) => V::Ref(self.ptr(cx, p)),
            V::It(i) => V::It(Rc::new(match &**i {
                It::Slice { p, lo, hi } => It::Slice { p: self.ptr(cx, p), lo: self.z(cx, lo), hi: self.z(cx, hi) },
                It::Chunks { p, lo, hi, size, exact, rem } => It::Chunks {
                    p: self.ptr(cx, p),
                    lo: self.z(cx, lo),
                    hi: self.z(cx, hi),
                    size: self.z(cx, size),
                    exact: *exact,
                    rem: self.z(cx, rem),
                },
                It::Windows { p, lo, hi, size } => It::Windows { p: self.ptr(cx, p), lo: self.z(cx, lo), hi: self.z(cx, hi), size: self.z(cx, size) },
                It::Into { seq, lo, hi } => It::Into { seq: self.v(cx, seq), lo: self.z(cx, lo), hi: self.z(cx, hi) },
            })),
            V::Ite(c, a, b) => {
                let nc = self.bit(cx, *c);
                let (x, y) = (self.v(cx, a), self.v(cx, b));
                match ite(cx, nc, &x, &y) {
                    Ok(v) => v,
                    Err(_) => V::Ite(nc, Rc::new(x), Rc::new(y)),
                }
            }
        }
    }
    fn ptr(&mut self, cx: &mut Cx, p: &Ptr) -> Ptr {
        Ptr {
            obj: p.obj,
            path: Rc::new(
                p.path
                    .iter()
                    .map(|e| match e {
                        PE::I(z) => PE::I(self.z(cx, z)),
                        PE::S(a, b) => PE::S(self.z(cx, a), self.z(cx, b)),
                        x => x.clone(),
                    })
                    .collect(),
            ),
        }
    }
}

/// `name(args)[i]` for i in 0..n
pub fn app(cx: &mut Cx, name: &str, args: Vec<Key>, w: u8) -> u32 {
    cx.base(BaseK::App(name.to_string(), args), w)
}
