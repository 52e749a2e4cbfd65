//! State templates of streaming objects, inferred by anti-unification of the abstract states after k and k+1
//! blocks, and used as inductive invariants ("after q blocks and `off` more bytes the state is T(q)").
use crate::fx::{FxMap, FxSet};
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

/// what the template of run k may refer to
pub struct Fold {
    /// bit of the run's terms -> (slot, bit index)
    bits: FxMap<B, (u32, u8)>,
}
impl Fold {
    pub fn new() -> Fold {
        Fold { bits: Default::default() }
    }
    pub fn add(&mut self, cx: &mut Cx, slot: u32, w: W) {
        let b = cx.bits(w);
        for (i, x) in b.iter().enumerate() {
            if *x > 1 {
                self.bits.entry(*x).or_insert((slot, i as u8));
            }
        }
    }
}
/// an instance of the template
pub trait Inst {
    /// generic value of a slot
    fn slot(&mut self, cx: &mut Cx, slot: u32) -> R<W>;
    /// message byte at position rel to the current block boundary
    fn byte(&mut self, cx: &mut Cx, rel: i128) -> R<W>;
    /// message bytes [rel, len) as a sequence
    fn bytes(&mut self, cx: &mut Cx, pos: &Z, len: &Z) -> R<Vec<P>>;
    /// number of blocks
    fn q(&self) -> Z;
}
pub struct Tmpl {
    pub k1: i128,
    pub block: i128,
    pub msg: u32,
    pub v1: V,
    pub v2: V,
    pub fold1: Fold,
    /// leaves the invariant says nothing about
    pub free: FxSet<usize>,
}
pub struct GenOut {
    pub leaves: usize,
    pub skipped: FxSet<usize>,
}
impl Tmpl {
    /// build T(q); leaves in `free` (or not expressible) become unknown
    pub fn inst(&self, cx: &mut Cx, ins: &mut dyn Inst, out: &mut GenOut) -> R<V> {
        out.leaves = 0;
        self.gen(cx, &self.v1, &self.v2, ins, out)
    }
    fn unknown(&self, cx: &mut Cx, v: &V, id: usize, out: &mut GenOut) -> R<V> {
        out.skipped.insert(id);
        match v {
            V::W(w) => {
                let n = cx.width(*w);
                Ok(V::W(cx.fresh_word(n)))
            }
            _ => uns(format!("state component without a template: {}", short(v))),
        }
    }
    fn gen(&self, cx: &mut Cx, a: &V, b: &V, ins: &mut dyn Inst, out: &mut GenOut) -> R<V> {
        match (a, b) {
            (V::W(x), V::W(y)) => {
                let id = out.leaves;
                out.leaves += 1;
                if self.free.contains(&id) {
                    return self.unknown(cx, a, id, out);
                }
                match self.word(cx, *x, *y, ins)? {
                    Some(w) => Ok(V::W(w)),
                    None => self.unknown(cx, a, id, out),
                }
            }
            (V::Agg(x), V::Agg(y)) if x.len() == y.len() => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.gen(cx, p, q, ins, out)?);
                }
                Ok(agg(v))
            }
            (V::Gh(n, x), V::Gh(m, y)) if n == m && x.len() == y.len() => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.gen(cx, p, q, ins, out)?);
                }
                Ok(V::Gh(n, Rc::new(v)))
            }
            (V::En(d, x), V::En(e, y)) if d == e => {
                let k = match cx.as_const(*d) {
                    Some(k) => k as usize,
                    None => return uns("state with an undetermined variant"),
                };
                let mut pay: Vec<Rc<Vec<V>>> = (0..x.len()).map(|_| Rc::new(vec![])).collect();
                let mut f = vec![];
                for (p, q) in x[k].iter().zip(y[k].iter()) {
                    f.push(self.gen(cx, p, q, ins, out)?);
                }
                pay[k] = Rc::new(f);
                Ok(V::En(*d, Rc::new(pay)))
            }
            (V::Seq(x), V::Seq(y)) => self.seq(cx, x, y, ins, out),
            (V::Undef, V::Undef) => Ok(V::Undef),
            (V::Fn(f), V::Fn(g)) if f == g => Ok(V::Fn(*f)),
            _ => uns(format!("no template for state components {} / {}", short(a), short(b))),
        }
    }
    fn seq(&self, cx: &mut Cx, x: &Rc<Vec<P>>, y: &Rc<Vec<P>>, ins: &mut dyn Inst, out: &mut GenOut) -> R<V> {
        if seq_len(x) == seq_len(y) && seq_len(x).as_k().map_or(false, |k| k <= 4096) {
            if let (Some(p), Some(q)) = (crate::prove::all_vals(cx, x), crate::prove::all_vals(cx, y)) {
                if p.len() == q.len() {
                    let mut v = vec![];
                    for (u, w) in p.iter().zip(q.iter()) {
                        v.push(self.gen(cx, u, w, ins, out)?);
                    }
                    return Ok(el(v));
                }
            }
        }
        // growing sequences: slices of the message with affine bounds
        if x.len() == y.len() {
            let mut v = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                match (p, q) {
                    (P::Sl(b1, o1, l1), P::Sl(b2, o2, l2)) if b1 == b2 && *b1 == self.msg => {
                        let (o, l) = (self.affine(o1, o2, ins)?, self.affine(l1, l2, ins)?);
                        for s in ins.bytes(cx, &o, &l)? {
                            seq_push(cx, &mut v, s);
                        }
                    }
                    (P::Sl(b1, o1, l1), P::Sl(b2, o2, l2)) if b1 == b2 && o1 == o2 && l1 == l2 => v.push(p.clone()),
                    (P::El(e1), P::El(e2)) if e1.len() == e2.len() => {
                        let mut w = vec![];
                        for (u, t) in e1.iter().zip(e2.iter()) {
                            w.push(self.gen(cx, u, t, ins, out)?);
                        }
                        v.push(P::El(Rc::new(w)));
                    }
                    _ => return uns("no template for a growing sequence"),
                }
            }
            return Ok(V::Seq(Rc::new(v)));
        }
        uns("no template for a growing sequence")
    }
    fn affine(&self, a: &Z, b: &Z, ins: &mut dyn Inst) -> R<Z> {
        let d = b.sub(a);
        match d.as_k() {
            Some(s) => Ok(a.add(&ins.q().addk(-self.k1).mul(s))),
            None => uns("no template for a size"),
        }
    }
    fn word(&self, cx: &mut Cx, x: W, y: W, ins: &mut dyn Inst) -> R<Option<W>> {
        let wd = cx.width(x);
        if cx.width(y) != wd {
            return Ok(None);
        }
        if x == y && self.closed(cx, x) {
            return Ok(Some(x));
        }
        if let (Some(c1), Some(c2)) = (cx.as_const(x), cx.as_const(y)) {
            let s = c2 as i128 - c1 as i128;
            let z = Z::k(c1 as i128).add(&ins.q().addk(-self.k1).mul(s));
            return Ok(Some(cx.from_z(&z, wd)));
        }
        // sizes: affine
        if let (Some(a), Some(b)) = (cx.to_z_size(x), cx.to_z_size(y)) {
            if let Some(s) = b.sub(&a).as_k() {
                let z = a.add(&ins.q().addk(-self.k1).mul(s));
                return Ok(Some(cx.from_z(&z, wd)));
            }
        }
        let bits = cx.bits(x);
        let mut memo: FxMap<B, B> = Default::default();
        let mut out = Vec::with_capacity(bits.len());
        for b in bits.iter() {
            match self.bit(cx, *b, ins, &mut memo)? {
                Some(n) => out.push(n),
                None => return Ok(None),
            }
        }
        Ok(Some(cx.mk_bits(out)))
    }
    /// does the term mention neither the message nor a slot?
    fn closed(&self, cx: &mut Cx, x: W) -> bool {
        let mut s = Sup::default();
        cx.sup_w(x, &mut s);
        if s.bases.contains(&self.msg) {
            return false;
        }
        let b = cx.bits(x);
        b.iter().all(|q| !self.fold1.bits.contains_key(q))
    }
    fn bit(&self, cx: &mut Cx, b: B, ins: &mut dyn Inst, memo: &mut FxMap<B, B>) -> R<Option<B>> {
        if b < 2 {
            return Ok(Some(b));
        }
        if let Some(r) = memo.get(&b) {
            return Ok(Some(*r));
        }
        let r = if let Some((s, i)) = self.fold1.bits.get(&b) {
            let w = ins.slot(cx, *s)?;
            cx.bits(w)[*i as usize]
        } else {
            let (v, lo, hi) = cx.node(b);
            let (a, i) = cx.vars[v as usize];
            let vb = cx.var(v);
            let c = if let Some((s, k)) = self.fold1.bits.get(&vb) {
                let w = ins.slot(cx, *s)?;
                cx.bits(w)[*k as usize]
            } else {
                match cx.atoms[a as usize].k.clone() {
                    AK::Elem(base, z) if base == self.msg => match z.as_k() {
                        Some(p) => {
                            let w = ins.byte(cx, p - self.block * self.k1)?;
                            cx.bits(w)[i as usize]
                        }
                        None => return Ok(None),
                    },
                    AK::Elem(base, _) => {
                        let mut s = Sup::default();
                        cx.sup_base(base, &mut s);
                        if s.bases.contains(&self.msg) {
                            return Ok(None);
                        }
                        vb
                    }
                    AK::Size(_) | AK::Free(_) => vb,
                    _ => return Ok(None),
                }
            };
            let (l, h) = (self.bit(cx, lo, ins, memo)?, self.bit(cx, hi, ins, memo)?);
            match (l, h) {
                (Some(l), Some(h)) => cx.ite(c, h, l),
                _ => return Ok(None),
            }
        };
        memo.insert(b, r);
        Ok(Some(r))
    }
}
/// leaves of a value in template order
pub fn leaves(cx: &mut Cx, v: &V, out: &mut Vec<W>) -> R<()> {
    match v {
        V::W(w) => out.push(*w),
        V::Agg(x) | V::Gh(_, x) => {
            for p in x.iter() {
                leaves(cx, p, out)?;
            }
        }
        V::En(d, x) => {
            let k = cx.as_const(*d).ok_or(E::Unsupported("undetermined variant".into()))? as usize;
            for p in x[k].iter() {
                leaves(cx, p, out)?;
            }
        }
        V::Seq(s) => match crate::prove::all_vals(cx, s) {
            Some(v) => {
                for p in v {
                    leaves(cx, &p, out)?;
                }
            }
            None => {}
        },
        _ => {}
    }
    Ok(())
}
