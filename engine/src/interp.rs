//! Abstract interpreter over the dumped MIR.
//!
//! Dataflow over each function's CFG: states are joined at the immediate post-dominator of every undecided
//! branch (no path enumeration), loops with constant trip counts are unrolled by constant propagation, loops with a
//! symbolic trip count are summarised by an inductive template (see `loops.rs`).
use crate::fx::{FxMap, FxSet};
use crate::mir::*;
use crate::term::{self, Cx, Sup, B, F, T, W, Z};
use crate::val::*;
use std::rc::Rc;

pub const HEAP0: u32 = 1 << 28;
pub const CONST0: u32 = 1 << 30;

#[derive(Clone)]
pub struct St {
    pub mem: Vec<V>,
    pub heap: Vec<V>,
    pub pc: B,
}
#[derive(Clone)]
pub struct Frame {
    pub fun: usize,
    pub base: u32,
}
pub enum Cr {
    Val(V),
    Diverge,
    Inline,
}
pub type Contract = Rc<dyn Fn(&mut In, &[V]) -> R<Cr>>;

#[derive(Clone, Debug)]
pub struct PanicEv {
    pub at: String,
    pub what: String,
    /// definitely reachable for some input of the partition
    pub definite: bool,
    pub cond: B,
}
#[derive(Default)]
pub struct Stats {
    pub stmts: u64,
    pub calls: u64,
    pub joins: u64,
    pub loops_unrolled: u64,
    pub loops_summarised: u64,
    pub asserts: u64,
    pub funs: FxSet<usize>,
    pub blocks: FxSet<(usize, usize)>,
}
pub struct In<'p> {
    pub trace: bool,
    pub cx: Cx,
    pub p: &'p Prog,
    pub st: St,
    pub consts: Vec<V>,
    const_memo: FxMap<usize, V>,
    pub contracts: FxMap<usize, Contract>,
    pub panics: Vec<PanicEv>,
    pub searched: FxMap<String, u32>,
    /// secret-dependent branches / indices: (kind, location, secret)
    pub leaks: Vec<(String, String, String)>,
    /// with `log_events`: every secret-dependent control decision with its conditions (none: an address)
    pub log_events: bool,
    pub events: Vec<(String, String, Vec<B>)>,
    pub stats: Stats,
    pub stack: Vec<(usize, u32)>,
    pub fuel: u64,
    pub want_snaps: bool,
    /// give up beyond this much work (0: no limit)
    pub budget: usize,
    /// case distinctions made so far
    pub depth: usize,
    pub loop_ctx: crate::loops::LoopCx,
    pub bodies_off: bool,
}

pub fn none() -> V {
    V::Undef
}

impl<'p> In<'p> {
    pub fn new(p: &'p Prog) -> In<'p> {
        In {
            trace: std::env::var("ENGINE_TRACE").is_ok(),
            cx: Cx::new(),
            p,
            st: St { mem: vec![], heap: vec![], pc: T },
            consts: vec![],
            const_memo: Default::default(),
            contracts: Default::default(),
            panics: vec![],
            searched: Default::default(),
            leaks: vec![],
            log_events: false,
            events: vec![],
            stats: Default::default(),
            stack: vec![],
            fuel: 200_000_000,
            want_snaps: false,
            depth: 0,
            budget: 0,
            loop_ctx: Default::default(),
            bodies_off: false,
        }
    }
    // ---------------------------------------------------------------- memory
    pub fn obj(&self, o: u32) -> &V {
        if o >= CONST0 {
            &self.consts[(o - CONST0) as usize]
        } else if o >= HEAP0 {
            &self.st.heap[(o - HEAP0) as usize]
        } else {
            &self.st.mem[o as usize]
        }
    }
    pub fn alloc(&mut self, v: V) -> Ptr {
        self.st.heap.push(v);
        Ptr { obj: HEAP0 + self.st.heap.len() as u32 - 1, path: Rc::new(vec![]) }
    }
    pub fn alloc_const(&mut self, v: V) -> Ptr {
        self.consts.push(v);
        Ptr { obj: CONST0 + self.consts.len() as u32 - 1, path: Rc::new(vec![]) }
    }
    pub fn read(&mut self, p: &Ptr) -> R<V> {
        let v = self.obj(p.obj).clone();
        read_at(&mut self.cx, &v, &p.path)
    }
    pub fn write(&mut self, p: &Ptr, v: V) -> R<()> {
        if p.obj >= CONST0 {
            return uns("write to a constant");
        }
        let slot: &mut V = if p.obj >= HEAP0 { &mut self.st.heap[(p.obj - HEAP0) as usize] } else { &mut self.st.mem[p.obj as usize] };
        let mut cur = std::mem::replace(slot, V::Undef);
        let r = write_at(&mut self.cx, &mut cur, &p.path, v);
        let slot: &mut V = if p.obj >= HEAP0 { &mut self.st.heap[(p.obj - HEAP0) as usize] } else { &mut self.st.mem[p.obj as usize] };
        *slot = cur;
        r
    }
    pub fn read_ref(&mut self, v: &V) -> R<V> {
        match v {
            V::Ref(p) => {
                let p = p.clone();
                self.read(&p)
            }
            V::Ite(c, a, b) => {
                let (x, y) = (self.read_ref(a)?, self.read_ref(b)?);
                ite(&mut self.cx, *c, &x, &y)
            }
            _ => uns(format!("dereference of {}", short(v))),
        }
    }
    pub fn write_ref(&mut self, r: &V, v: V) -> R<()> {
        match r {
            V::Ref(p) => {
                let p = p.clone();
                self.write(&p, v)
            }
            V::Ite(c, a, b) => {
                let (oa, ob) = (self.read_ref(a)?, self.read_ref(b)?);
                let na = ite(&mut self.cx, *c, &v, &oa)?;
                self.write_ref(a, na)?;
                let nb = ite(&mut self.cx, *c, &ob, &v)?;
                self.write_ref(b, nb)
            }
            _ => uns(format!("store through {}", short(r))),
        }
    }
    // ---------------------------------------------------------------- locations
    pub fn loc(&self) -> String {
        for (f, l) in self.stack.iter().rev() {
            let fun = &self.p.fns[*f];
            if fun.local {
                return format!("{} ({}:{})", fun.full, fun.file, l);
            }
        }
        self.stack.last().map(|(f, l)| format!("{}:{}", self.p.fns[*f].full, l)).unwrap_or_default()
    }
    pub fn note_panic(&mut self, what: &str, cond: B, definite: bool) {
        let at = self.loc();
        if self.panics.iter().any(|p| p.at == at && p.what == what && p.definite == definite) {
            return;
        }
        self.panics.push(PanicEv { at, what: what.to_string(), definite, cond });
    }
    pub fn leak(&mut self, kind: &str, s: &Sup) {
        if let Some(sec) = self.cx.secret(s) {
            let at = self.loc();
            let e = (kind.to_string(), at, sec);
            if !self.leaks.contains(&e) {
                self.leaks.push(e);
            }
        }
    }
    /// is there nothing secret, or is this place known to leak in this way already (and no log of every decision wanted)?
    fn leaked_here(&self, kind: &str) -> bool {
        if !self.cx.bases.iter().any(|b| matches!(b.k, term::BaseK::Input(_, true))) {
            return true;
        }
        if self.log_events || self.leaks.is_empty() {
            return false;
        }
        let at = self.loc();
        self.leaks.iter().any(|l| l.0 == kind && l.1 == at)
    }
    /// a control decision taken on these conditions (each relative to the path condition)
    pub fn leak_conds(&mut self, kind: &str, cs: &[B]) {
        if self.leaked_here(kind) {
            return;
        }
        let mut s = Sup::default();
        for c in cs {
            self.cx.sup_b(*c, &mut s);
        }
        self.leak(kind, &s);
        if self.log_events && self.cx.secret(&s).is_some() {
            let at = self.loc();
            let v: Vec<B> = cs.iter().map(|c| self.cx.and(self.st.pc, *c)).collect();
            self.events.push((kind.to_string(), at, v));
        }
    }
    // ---------------------------------------------------------------- decisions
    /// Some(b) if the bit is decided under the path condition and facts; size comparisons never stay undecided
    pub fn decide(&mut self, b: B) -> R<Option<bool>> {
        let b = self.cx.simp_bit(b);
        if b < 2 {
            return Ok(Some(b == T));
        }
        let pc = self.st.pc;
        if pc != T {
            if self.cx.and(pc, b) == F {
                return Ok(Some(false));
            }
            let nb = self.cx.not(b);
            if self.cx.and(pc, nb) == F {
                return Ok(Some(true));
            }
        }
        if let Some(z) = self.cx.size_pred(b) {
            return Err(E::Split(z));
        }
        Ok(None)
    }
    /// obligation: `b` must hold, otherwise the program panics here. false = diverges
    pub fn require(&mut self, b: B, what: &str) -> R<bool> {
        self.stats.asserts += 1;
        match self.decide(b)? {
            Some(true) => Ok(true),
            Some(false) => {
                let pc = self.st.pc;
                let def = self.definite(pc);
                self.note_panic(what, pc, def);
                Ok(false)
            }
            None => {
                let b = self.cx.simp_bit(b);
                self.leak_conds("panic condition", &[b]);
                let nb = self.cx.not(b);
                let c = self.cx.and(self.st.pc, nb);
                let def = self.definite(c);
                self.note_panic(what, c, def);
                self.st.pc = self.cx.and(self.st.pc, b);
                Ok(true)
            }
        }
    }
    /// an assignment of the inputs and sizes, within the assumptions, under which the condition holds
    pub fn definite(&mut self, c: B) -> bool {
        if c < 2 {
            return c == T;
        }
        let at = self.loc();
        // the same place is searched only so often
        let n = self.searched.entry(at.clone()).or_insert(0);
        *n += 1;
        if *n > 24 || self.panics.iter().any(|p| p.at == at && p.definite) {
            return false;
        }
        let mut s = term::Sup::default();
        self.cx.sup_b(c, &mut s);
        if self.cx.has_free(&s) {
            return false;
        }
        let mut spent = 0;
        for seed in 0..16u64 {
            let mut ev = crate::eval::Ev::new(seed * 6007 + 29, [0, 0, 3, 1, 2, 0][(seed % 6) as usize]);
            if spent > crate::eval::WORK / 4 || !ev.choose_sizes(&self.cx) {
                break;
            }
            if ev.bit(&self.cx, c) && !ev.bad {
                return true;
            }
            spent += ev.work;
        }
        let mut rng = 0x9E37_79B9_7F4A_7C15u64;
        for round in 0..6u64 {
            let mut ev = crate::eval::Ev::new(round * 104_729 + 3, 0);
            if spent > crate::eval::WORK / 2 || !ev.choose_sizes(&self.cx) {
                break;
            }
            if crate::solve::solve(&mut self.cx, &mut ev, c, &mut rng) {
                return true;
            }
            spent += ev.work;
        }
        false
    }
    pub fn require_ge0(&mut self, z: &Z, what: &str) -> R<bool> {
        if self.cx.prove_ge0(z) {
            self.stats.asserts += 1;
            return Ok(true);
        }
        let b = self.ge0_bit(z);
        self.require(b, what)
    }
    /// z >= 0 as a bit, also for data-dependent terms
    pub fn ge0_bit(&mut self, z: &Z) -> B {
        if z.t.iter().all(|x| self.cx.is_size(x.0)) || self.cx.prove_ge0(z) || self.cx.prove_ge0(&z.mul(-1).addk(-1)) {
            return self.cx.ge0(z);
        }
        // positive part >= negative part
        let mut pos = Z::k(z.c.max(0));
        let mut neg = Z::k((-z.c).max(0));
        for (w, c) in &z.t {
            let t = Z { c: 0, t: vec![(*w, c.abs())] };
            if *c > 0 {
                pos = pos.add(&t);
            } else {
                neg = neg.add(&t);
            }
        }
        let (p, n) = (self.cx.from_z(&pos, 64), self.cx.from_z(&neg, 64));
        let l = self.cx.ult(p, n);
        self.cx.not(l)
    }
    /// integer value of a word as a linear form (the word itself is the variable if nothing better is known)
    pub fn zw(&mut self, w: W) -> Z {
        if let Some(z) = self.cx.to_z(w) {
            return z;
        }
        let b = self.cx.bits(w).to_vec();
        let mut v = b;
        v.resize(64, F);
        let nw = self.cx.mk_bits(v);
        Z::var(nw)
    }
    // ---------------------------------------------------------------- types
    pub fn ty(&self, t: usize) -> &'p TyK {
        &self.p.tys[t].k
    }
    pub fn bits_of(&self, t: usize) -> Option<u8> {
        match self.ty(t) {
            TyK::Bool => Some(1),
            TyK::Char => Some(32),
            TyK::Int(w) | TyK::Uint(w) => Some(*w),
            _ => None,
        }
    }
    pub fn signed(&self, t: usize) -> bool {
        matches!(self.ty(t), TyK::Int(_))
    }
    fn place_ty(&self, body: &Body, pl: &Place) -> usize {
        let mut t = body.locals[pl.l];
        for p in &pl.p {
            t = match p {
                Pj::Deref => match self.ty(t) {
                    TyK::Ref(x, _) | TyK::Ptr(x) => *x,
                    _ => t,
                },
                Pj::F(_, x) => *x,
                Pj::I(_) | Pj::C(..) => match self.ty(t) {
                    TyK::Array(e, _) | TyK::Slice(e) => *e,
                    _ => t,
                },
                Pj::S(..) | Pj::D(_) => t,
            };
        }
        t
    }
    fn opn_ty(&self, body: &Body, o: &Opn) -> usize {
        match o {
            Opn::P(p) => self.place_ty(body, p),
            Opn::K(t, _) => *t,
            Opn::Rt => 0,
        }
    }
    // ---------------------------------------------------------------- constants
    pub fn konst(&mut self, ty: usize, c: &CV) -> R<V> {
        let key = c as *const CV as usize;
        let big = matches!(c, CV::Arr(_) | CV::Ref(_) | CV::Adt(..) | CV::Tup(_));
        if big {
            if let Some(v) = self.const_memo.get(&key) {
                return Ok(v.clone());
            }
        }
        let v = self.konst0(ty, c)?;
        if big {
            self.const_memo.insert(key, v.clone());
        }
        Ok(v)
    }
    fn konst0(&mut self, ty: usize, c: &CV) -> R<V> {
        let k = self.ty(ty).clone();
        Ok(match c {
            CV::Int(n) => match self.bits_of(ty) {
                Some(w) => V::W(self.cx.konst(w, *n)),
                None => match k {
                    TyK::Adt { .. } | TyK::Tuple(_) => return uns(format!("scalar constant of type {}", self.p.tys[ty].s)),
                    _ => V::W(self.cx.konst(64, *n)),
                },
            },
            CV::Arr(v) => {
                let e = match k {
                    TyK::Array(e, _) | TyK::Slice(e) => e,
                    TyK::Str => {
                        // string constant: bytes
                        let r: Vec<V> = v
                            .iter()
                            .map(|x| if let CV::Int(n) = x { V::W(self.cx.konst(8, *n)) } else { V::Undef })
                            .collect();
                        return Ok(el(r));
                    }
                    _ => return uns("array constant"),
                };
                let mut r = vec![];
                for x in v {
                    r.push(self.konst0(e, x)?);
                }
                el(r)
            }
            CV::Tup(v) => {
                let ts = match k {
                    TyK::Tuple(t) => t,
                    // (a closure without captures, a structure without fields)
                    _ if v.is_empty() => return Ok(agg(vec![])),
                    _ => return uns("tuple constant"),
                };
                let mut r = vec![];
                for (x, t) in v.iter().zip(ts) {
                    r.push(self.konst0(t, x)?);
                }
                agg(r)
            }
            CV::Adt(vi, fs) => match k {
                TyK::Adt { variants, is_enum, .. } => {
                    let mut r = vec![];
                    for (x, (_, t)) in fs.iter().zip(variants[*vi].fields.iter()) {
                        r.push(self.konst0(*t, x)?);
                    }
                    if is_enum {
                        self.mk_enum(variants.len(), *vi, r)
                    } else {
                        agg(r)
                    }
                }
                _ => return uns("adt constant"),
            },
            CV::Ref(r) => {
                let t = match k {
                    TyK::Ref(t, _) | TyK::Ptr(t) => t,
                    _ => return uns("reference constant"),
                };
                let v = match self.konst0(t, r) {
                    Ok(v) => v,
                    Err(_) => V::Undef,
                };
                V::Ref(self.alloc_const(v))
            }
            CV::Static(n) => return uns(format!("static {}", n)),
            CV::Fn(f) => V::Fn(*f),
            CV::Zst => match k {
                TyK::FnDef(Some(i)) => V::Fn(i),
                _ => self.zst(ty),
            },
            CV::Undef => V::Undef,
            CV::Opaque => V::Undef,
        })
    }
    fn zst(&mut self, ty: usize) -> V {
        match self.ty(ty).clone() {
            TyK::Adt { variants, is_enum, .. } => {
                if is_enum && !variants.is_empty() {
                    return self.mk_enum(variants.len(), 0, vec![]);
                }
                let n = variants.first().map_or(0, |v| v.fields.len());
                let mut r = vec![];
                for i in 0..n {
                    let t = variants[0].fields[i].1;
                    r.push(self.zst(t));
                }
                agg(r)
            }
            TyK::FnDef(Some(i)) => V::Fn(i),
            TyK::Array(..) => el(vec![]),
            TyK::Tuple(ts) => {
                let mut r = vec![];
                for t in ts {
                    r.push(self.zst(t));
                }
                agg(r)
            }
            _ => unit(),
        }
    }
    pub fn mk_enum(&mut self, nvar: usize, vi: usize, fields: Vec<V>) -> V {
        let d = self.cx.konst(64, vi as u128);
        let mut p: Vec<Rc<Vec<V>>> = vec![Rc::new(vec![]); nvar];
        p[vi] = Rc::new(fields);
        V::En(d, Rc::new(p))
    }
    /// (number of variants, index) of a variant of a type of the crate
    pub fn variant_of(&self, adt: &str, variant: &str) -> R<(usize, usize)> {
        for t in &self.p.tys {
            if let TyK::Adt { name, variants, .. } = &t.k {
                if name == adt {
                    return match variants.iter().position(|v| v.name == variant) {
                        Some(k) => Ok((variants.len(), k)),
                        None => uns(format!("missing variant {}::{}", adt, variant)),
                    };
                }
            }
        }
        uns(format!("missing type {}", adt))
    }
    pub fn some(&mut self, v: V) -> V {
        self.mk_enum(2, 1, vec![v])
    }
    pub fn nothing(&mut self) -> V {
        self.mk_enum(2, 0, vec![])
    }
    /// Option with a symbolic discriminant
    pub fn opt_if(&mut self, c: B, v: V) -> V {
        let one = self.cx.bool(c);
        let d = self.cx.zext(one, 64);
        V::En(d, Rc::new(vec![Rc::new(vec![]), Rc::new(vec![v])]))
    }
    pub fn k64(&mut self, n: u128) -> V {
        V::W(self.cx.konst(64, n))
    }
    pub fn vz(&mut self, z: &Z) -> V {
        V::W(self.cx.from_z(z, 64))
    }
    pub fn vb(&mut self, b: B) -> V {
        V::W(self.cx.bool(b))
    }
    pub fn bit(&mut self, v: &V) -> R<B> {
        let w = v.w()?;
        Ok(self.cx.bits(w)[0])
    }

    // ---------------------------------------------------------------- places
    fn place(&mut self, fr: &Frame, pl: &Place) -> R<V> {
        // result: V::Ref (or Ite of refs)
        let mut cur = V::Ref(Ptr { obj: fr.base + pl.l as u32, path: Rc::new(vec![]) });
        let mut variant: Option<usize> = None;
        for pj in &pl.p {
            cur = match pj {
                Pj::Deref => {
                    let v = self.read_ref(&cur)?;
                    match v {
                        V::Ref(_) | V::Ite(..) => v,
                        _ => return uns(format!("dereference of {}", short(&v))),
                    }
                }
                Pj::F(i, _) => {
                    let pe = match variant.take() {
                        Some(v) => PE::Vf(v as u32, *i as u32),
                        None => PE::F(*i as u32),
                    };
                    map_ref(&cur, &pe)?
                }
                Pj::D(v) => {
                    variant = Some(*v);
                    cur
                }
                Pj::I(l) => {
                    let w = self.obj(fr.base + *l as u32).w()?;
                    let z = self.zw(w);
                    self.note_index(&z);
                    map_ref(&cur, &PE::I(z))?
                }
                Pj::C(o, from_end) => {
                    let z = if *from_end {
                        let l = self.len_of(&cur)?;
                        l.addk(-(*o as i128))
                    } else {
                        Z::k(*o as i128)
                    };
                    map_ref(&cur, &PE::I(z))?
                }
                Pj::S(a, b, from_end) => {
                    let l = if *from_end { self.len_of(&cur)?.addk(-((*a + *b) as i128)) } else { Z::k((*b - *a) as i128) };
                    map_ref(&cur, &PE::S(Z::k(*a as i128), l))?
                }
            };
        }
        Ok(cur)
    }
    pub fn note_index(&mut self, z: &Z) {
        if z.t.is_empty() || z.t.iter().all(|x| self.cx.is_size(x.0)) {
            return;
        }
        let mut s = Sup::default();
        self.cx.sup_z(z, &mut s);
        self.leak("memory index", &s);
        if self.log_events && self.cx.secret(&s).is_some() {
            let at = self.loc();
            self.events.push(("memory index".into(), at, vec![]));
        }
    }
    pub fn len_of(&mut self, r: &V) -> R<Z> {
        match r {
            V::Ref(p) => {
                if let Some(PE::S(_, l)) = p.path.last() {
                    return Ok(l.clone());
                }
                let p = p.clone();
                let v = self.read(&p)?;
                match &v {
                    V::Seq(s) => Ok(seq_len(s)),
                    V::Ref(q) => {
                        let q = V::Ref(q.clone());
                        self.len_of(&q)
                    }
                    V::Ite(c, a, b) => {
                        let (la, lb) = (seq_len(a.seq()?), seq_len(b.seq()?));
                        if la == lb {
                            return Ok(la);
                        }
                        let (x, y) = (self.cx.from_z(&la, 64), self.cx.from_z(&lb, 64));
                        let w = self.cx.wite(*c, x, y);
                        Ok(self.zw(w))
                    }
                    _ => uns(format!("length of {}", short(&v))),
                }
            }
            V::Ite(c, a, b) => {
                let (x, y) = (self.len_of(a)?, self.len_of(b)?);
                if x == y {
                    Ok(x)
                } else {
                    let (x, y) = (self.cx.from_z(&x, 64), self.cx.from_z(&y, 64));
                    let w = self.cx.wite(*c, x, y);
                    Ok(self.zw(w))
                }
            }
            _ => uns(format!("length of {}", short(r))),
        }
    }
    fn read_place(&mut self, fr: &Frame, pl: &Place) -> R<V> {
        if pl.p.is_empty() {
            return Ok(self.st.mem[(fr.base as usize) + pl.l].clone());
        }
        let r = self.place(fr, pl)?;
        self.read_ref(&r)
    }
    fn write_place(&mut self, fr: &Frame, pl: &Place, v: V) -> R<()> {
        if pl.p.is_empty() {
            self.st.mem[(fr.base as usize) + pl.l] = v;
            return Ok(());
        }
        let r = self.place(fr, pl)?;
        self.write_ref(&r, v)
    }
    fn opn(&mut self, fr: &Frame, o: &Opn) -> R<V> {
        match o {
            Opn::P(p) => self.read_place(fr, p),
            Opn::K(t, c) => self.konst(*t, c),
            Opn::Rt => {
                // runtime checks (overflow/UB checks) flag
                let w = self.cx.konst(1, 0);
                Ok(V::W(w))
            }
        }
    }

    // ---------------------------------------------------------------- rvalues
    fn rvalue(&mut self, fr: &Frame, rv: &Rv, dest_ty: usize) -> R<V> {
        let p = self.p;
        let body = p.fns[fr.fun].body.as_ref().unwrap();
        Ok(match rv {
            Rv::Use(o) => self.opn(fr, o)?,
            Rv::Ref(pl) | Rv::Addr(pl) => self.place(fr, pl)?,
            Rv::Bin(op, a, b) => {
                let t = self.opn_ty(body, a);
                let (x, y) = (self.opn(fr, a)?, self.opn(fr, b)?);
                self.binop(op, &x, &y, t)?
            }
            Rv::Chk(op, a, b) => {
                let t = self.opn_ty(body, a);
                let (x, y) = (self.opn(fr, a)?.w()?, self.opn(fr, b)?.w()?);
                let (r, o) = self.checked(op, x, y, self.signed(t))?;
                let o = self.cx.bool(o);
                agg(vec![V::W(r), V::W(o)])
            }
            Rv::Un(op, a) => {
                let x = self.opn(fr, a)?;
                match op.as_str() {
                    "Not" => V::W(self.cx.wnot(x.w()?)),
                    "Neg" => V::W(self.cx.neg(x.w()?)),
                    "PtrMetadata" => {
                        let z = self.len_of(&x)?;
                        self.vz(&z)
                    }
                    _ => return uns(format!("unary {}", op)),
                }
            }
            Rv::Cast(k, a, t) => {
                let st = self.opn_ty(body, a);
                let x = self.opn(fr, a)?;
                self.cast(k, x, st, *t)?
            }
            Rv::Discr(pl) => {
                let t = self.place_ty(body, pl);
                let v = self.read_place(fr, pl)?;
                let w = self.bits_of(dest_ty).unwrap_or(64);
                V::W(self.discr(&v, t, w)?)
            }
            Rv::Len(pl) => {
                let r = self.place(fr, pl)?;
                let z = self.len_of(&r)?;
                self.vz(&z)
            }
            Rv::Rep(o, n) => {
                let v = self.opn(fr, o)?;
                let n = n.ok_or(E::Unsupported("repeat count".into()))?;
                el(vec![v; n as usize])
            }
            Rv::AggArray(v) => {
                let mut r = vec![];
                for o in v {
                    r.push(self.opn(fr, o)?);
                }
                el(r)
            }
            Rv::AggTuple(v) | Rv::AggClosure(_, v) => {
                let mut r = vec![];
                for o in v {
                    r.push(self.opn(fr, o)?);
                }
                agg(r)
            }
            Rv::AggAdt(t, vi, active, v) => {
                let mut r = vec![];
                for o in v {
                    r.push(self.opn(fr, o)?);
                }
                if active.is_some() {
                    return uns("union");
                }
                match self.ty(*t) {
                    TyK::Adt { variants, is_enum: true, .. } => self.mk_enum(variants.len(), *vi, r),
                    _ => agg(r),
                }
            }
            Rv::AggRawPtr(_) => return uns("raw pointer construction"),
            Rv::Other(s) => return uns(format!("rvalue {}", s)),
        })
    }
    fn inhabited(&self, t: usize, d: usize) -> bool {
        match self.ty(t) {
            TyK::Never => false,
            TyK::Adt { variants, is_enum: true, .. } if d < 8 => variants.iter().any(|x| x.fields.iter().all(|f| self.inhabited(f.1, d + 1))),
            TyK::Tuple(v) if d < 8 => v.iter().all(|x| self.inhabited(*x, d + 1)),
            _ => true,
        }
    }
    pub fn discr(&mut self, v: &V, t: usize, w: u8) -> R<W> {
        match v {
            V::En(d, _) => {
                let d = *d;
                if let TyK::Adt { variants, .. } = self.ty(t) {
                    let straight = variants.iter().enumerate().all(|(i, x)| x.discr == i as u128);
                    if straight {
                        return Ok(if w <= 64 { self.cx.trunc(d, w) } else { self.cx.zext(d, w) });
                    }
                    let mut r = self.cx.konst(w, variants.last().unwrap().discr & term::mask(w));
                    for (i, x) in variants.iter().enumerate() {
                        let k = self.cx.konst(64, i as u128);
                        let c = self.cx.eq(d, k);
                        let x = self.cx.konst(w, x.discr & term::mask(w));
                        r = self.cx.wite(c, x, r);
                    }
                    return Ok(r);
                }
                Ok(self.cx.cast(d, w, false))
            }
            V::Ite(c, a, b) => {
                let (x, y) = (self.discr(a, t, w)?, self.discr(b, t, w)?);
                Ok(self.cx.wite(*c, x, y))
            }
            V::Undef => {
                // a type with a single possible variant carries no discriminant at all
                if let TyK::Adt { variants, .. } = self.ty(t) {
                    let inh: Vec<u128> = variants.iter().filter(|x| x.fields.iter().all(|f| self.inhabited(f.1, 0))).map(|x| x.discr).collect();
                    if inh.len() == 1 {
                        let k = self.cx.konst(w, inh[0] & term::mask(w));
                        return Ok(k);
                    }
                }
                uns("discriminant of an unassigned value")
            }
            _ => uns(format!("discriminant of {}", short(v))),
        }
    }
    pub fn cast(&mut self, k: &str, x: V, st: usize, t: usize) -> R<V> {
        if k == "IntToInt" {
            let w = self.bits_of(t).ok_or(E::Unsupported("cast".into()))?;
            return Ok(V::W(self.cx.cast(x.w()?, w, self.signed(st))));
        }
        if k.starts_with("PointerCoercion(ReifyFnPointer") || k.starts_with("PointerCoercion(ClosureFnPointer") {
            if let TyK::Closure { mt: Some(i), .. } = self.ty(st) {
                return Ok(V::Fn(*i));
            }
            return Ok(x);
        }
        if k == "Transmute" {
            match (&x, self.ty(t)) {
                (V::W(w), TyK::Array(..)) => {
                    let w = *w;
                    let n = self.cx.width(w) / 8;
                    return Ok(self.le_bytes(w, n as usize));
                }
                (V::Seq(s), TyK::Uint(n)) | (V::Seq(s), TyK::Int(n)) => {
                    let ws = words_of(&mut self.cx, s)?;
                    let w = self.from_le(&ws);
                    if self.cx.width(w) != *n {
                        return uns("transmute width");
                    }
                    return Ok(V::W(w));
                }
                (V::W(w), _) => {
                    if let Some(n) = self.bits_of(t) {
                        if self.cx.width(*w) != n {
                            return uns("transmute width");
                        }
                    }
                    return Ok(x);
                }
                (V::Ref(_), TyK::Uint(_)) => return uns("pointer to integer"),
                _ => return Ok(x),
            }
        }
        if k.starts_with("PointerCoercion") || k == "PtrToPtr" || k == "Subtype" {
            return Ok(x);
        }
        uns(format!("cast {}", k))
    }
    pub fn le_bytes(&mut self, w: W, n: usize) -> V {
        let b = self.cx.bits(w);
        let mut r = vec![];
        for i in 0..n {
            r.push(V::W(self.cx.mk_bits(b[i * 8..i * 8 + 8].to_vec())));
        }
        el(r)
    }
    pub fn from_le(&mut self, ws: &[W]) -> W {
        let mut bits = vec![];
        for w in ws {
            bits.extend(self.cx.bits(*w).iter());
        }
        self.cx.mk_bits(bits)
    }
    pub fn checked(&mut self, op: &str, x: W, y: W, signed: bool) -> R<(W, B)> {
        let w = self.cx.width(x);
        let r = match op {
            "Add" => self.cx.add(x, y),
            "Sub" => self.cx.sub(x, y),
            "Mul" => self.cx.mul(x, y),
            _ => return uns(format!("checked {}", op)),
        };
        if signed {
            if w > 64 {
                return uns("wide signed arithmetic");
            }
            let w2 = w * 2;
            let (sx, sy) = (self.cx.sext(x, w2), self.cx.sext(y, w2));
            let r2 = match op {
                "Add" => self.cx.add(sx, sy),
                "Sub" => self.cx.sub(sx, sy),
                _ => self.cx.mul(sx, sy),
            };
            let s2 = self.cx.sext(r, w2);
            let e = self.cx.eq(s2, r2);
            let o = self.cx.not(e);
            return Ok((r, o));
        }
        if op == "Sub" {
            let o = self.cx.ult(x, y);
            return Ok((r, o));
        }
        // exact integer value of the result
        if w <= 64 {
            let (zx, zy) = (self.cx.to_z(x), self.cx.to_z(y));
            if let (Some(zx), Some(zy)) = (zx, zy) {
                let z = match op {
                    "Add" => Some(zx.add(&zy)),
                    _ => match (zx.as_k(), zy.as_k()) {
                        (Some(k), _) => Some(zy.mul(k)),
                        (_, Some(k)) => Some(zx.mul(k)),
                        _ => None,
                    },
                };
                if let Some(z) = z {
                    let room = Z::k((1i128 << w) - 1).sub(&z);
                    if self.cx.prove_ge0(&room) {
                        return Ok((r, F));
                    }
                    if self.cx.prove_ge0(&room.mul(-1).addk(-1)) {
                        return Ok((r, T));
                    }
                    if z.t.iter().all(|q| self.cx.is_size(q.0)) {
                        let g = self.cx.ge0(&room);
                        let o = self.cx.not(g);
                        return Ok((r, o));
                    }
                }
            }
        }
        let o = match op {
            "Add" => {
                if w >= 128 {
                    self.cx.ult(r, x)
                } else {
                    let (ex, ey) = (self.cx.zext(x, w + 1), self.cx.zext(y, w + 1));
                    let s = self.cx.add(ex, ey);
                    self.cx.bits(s)[w as usize]
                }
            }
            _ => {
                if w > 64 {
                    self.cx.pred_atom("mulovf", vec![x, y])
                } else {
                    let (ex, ey) = (self.cx.zext(x, w * 2), self.cx.zext(y, w * 2));
                    let s = self.cx.mul(ex, ey);
                    let hi = self.cx.shrk(s, w);
                    let z = self.cx.konst(w * 2, 0);
                    let e = self.cx.eq(hi, z);
                    self.cx.not(e)
                }
            }
        };
        Ok((r, o))
    }
    pub fn binop(&mut self, op: &str, x: &V, y: &V, t: usize) -> R<V> {
        let signed = self.signed(t);
        if let (V::Ref(a), V::Ref(b)) = (x, y) {
            let e = a == b;
            return match op {
                "Eq" => Ok(self.vb(e as B)),
                "Ne" => Ok(self.vb(!e as B)),
                _ => uns("pointer comparison"),
            };
        }
        let (a, b) = (x.w()?, y.w()?);
        let cx = &mut self.cx;
        let op = op.strip_suffix("Unchecked").unwrap_or(op);
        Ok(V::W(match op {
            "Add" => cx.add(a, b),
            "Sub" => cx.sub(a, b),
            "Mul" => cx.mul(a, b),
            "BitAnd" => cx.wand(a, b),
            "BitOr" => cx.wor(a, b),
            "BitXor" => cx.wxor(a, b),
            "Div" | "Rem" => {
                if signed {
                    let w = cx.width(a);
                    if let (Some(p), Some(q)) = (cx.as_const(a), cx.as_const(b)) {
                        let sx = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
                        let (p, q) = (sx(p), sx(q));
                        if q == 0 {
                            return uns("division by zero");
                        }
                        let r = if op == "Div" { p / q } else { p % q };
                        cx.konst(w, r as u128 & term::mask(w))
                    } else {
                        let (ta, tb) = (cx.bits(a)[w as usize - 1], cx.bits(b)[w as usize - 1]);
                        if ta == F && tb == F {
                            if op == "Div" {
                                cx.div(a, b)
                            } else {
                                cx.rem(a, b)
                            }
                        } else {
                            cx.op_atom(if op == "Div" { "sdiv" } else { "srem" }, vec![a, b], w)
                        }
                    }
                } else if op == "Div" {
                    cx.div(a, b)
                } else {
                    cx.rem(a, b)
                }
            }
            "Shl" | "Shr" => {
                let kind = if op == "Shl" { 0 } else if signed { 2 } else { 1 };
                return Ok(V::W(self.shift(kind, a, b)?));
            }
            "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge" => {
                let c = match op {
                    "Eq" => cx.eq(a, b),
                    "Ne" => {
                        let e = cx.eq(a, b);
                        cx.not(e)
                    }
                    "Lt" => {
                        if signed {
                            cx.slt(a, b)
                        } else {
                            cx.ult(a, b)
                        }
                    }
                    "Gt" => {
                        if signed {
                            cx.slt(b, a)
                        } else {
                            cx.ult(b, a)
                        }
                    }
                    "Le" => {
                        let g = if signed { cx.slt(b, a) } else { cx.ult(b, a) };
                        cx.not(g)
                    }
                    _ => {
                        let g = if signed { cx.slt(a, b) } else { cx.ult(a, b) };
                        cx.not(g)
                    }
                };
                cx.bool(c)
            }
            "Cmp" => {
                let lt = if signed { cx.slt(a, b) } else { cx.ult(a, b) };
                let eq = cx.eq(a, b);
                // Ordering: variants Less, Equal, Greater
                let (k0, k1, k2) = (cx.konst(64, 0), cx.konst(64, 1), cx.konst(64, 2));
                let r = cx.wite(eq, k1, k2);
                let r = cx.wite(lt, k0, r);
                return Ok(V::En(r, Rc::new(vec![Rc::new(vec![]), Rc::new(vec![]), Rc::new(vec![])])));
            }
            _ => return uns(format!("binary {}", op)),
        }))
    }
    pub fn shift(&mut self, kind: u8, a: W, b: W) -> R<W> {
        let w = self.cx.width(a);
        if let Some(k) = self.cx.as_const(b) {
            let k = (k % w as u128) as u8;
            return Ok(match kind {
                0 => self.cx.shlk(a, k),
                1 => self.cx.shrk(a, k),
                _ => self.cx.sark(a, k),
            });
        }
        let n = w.trailing_zeros();
        let bb = self.cx.bits(b);
        let mut cur = a;
        for i in 0..n as usize {
            let s = match kind {
                0 => self.cx.shlk(cur, 1 << i),
                1 => self.cx.shrk(cur, 1 << i),
                _ => self.cx.sark(cur, 1 << i),
            };
            let c = if i < bb.len() { bb[i] } else { F };
            cur = self.cx.wite(c, s, cur);
        }
        Ok(cur)
    }

    // ---------------------------------------------------------------- calls
    pub fn call(&mut self, f: usize, args: Vec<V>) -> R<Option<V>> {
        self.stats.calls += 1;
        if self.trace {
            let a: Vec<String> = args.iter().map(|v| self.show_v(v)).collect();
            eprintln!("{}call {} {:?}", " ".repeat(self.stack.len()), self.p.fns[f].full, a);
        }
        if self.stack.len() > 200 {
            return uns("recursion too deep");
        }
        if let Some(c) = self.contracts.get(&f).cloned() {
            match c(self, &args)? {
                Cr::Val(v) => return Ok(Some(v)),
                Cr::Diverge => return Ok(None),
                Cr::Inline => {}
            }
        }
        match crate::native::call(self, f, &args)? {
            Cr::Val(v) => return Ok(Some(v)),
            Cr::Diverge => return Ok(None),
            Cr::Inline => {}
        }
        self.exec(f, args)
    }
    pub fn show_v(&self, v: &V) -> String {
        match v {
            V::W(w) => crate::prove::show_w(&self.cx, *w).replace(" ", ""),
            V::Agg(f) if f.len() <= 4 => format!("({})", f.iter().map(|x| self.show_v(x)).collect::<Vec<_>>().join(", ")),
            V::En(d, f) => format!("En#{}{:?}", crate::prove::show_w(&self.cx, *d).replace(" 0", ""), f.iter().map(|p| p.iter().map(|x| self.show_v(x)).collect::<Vec<_>>()).collect::<Vec<_>>()),
            _ => short(v),
        }
    }
    /// interpret the body of f
    pub fn exec(&mut self, f: usize, mut args: Vec<V>) -> R<Option<V>> {
        let p = self.p;
        let fun = &p.fns[f];
        let body = match &fun.body {
            Some(b) => b,
            None => return uns(format!("no model for {}", fun.full)),
        };
        self.stats.funs.insert(f);
        // closures are called with their arguments as a tuple
        if let Some(sp) = body.spread {
            let _ = sp;
        } else if args.len() == 2 && body.argc != args.len() || (args.len() == 2 && is_closure(&fun.name)) {
            if let V::Agg(t) = &args[1] {
                if body.argc == 1 + t.len() {
                    let t = t.clone();
                    args.truncate(1);
                    args.extend(t.iter().cloned());
                }
            }
        }
        if args.len() != body.argc {
            return uns(format!("arity of {}", fun.full));
        }
        let base = self.st.mem.len() as u32;
        self.st.mem.push(V::Undef);
        self.st.mem.extend(args);
        while self.st.mem.len() < base as usize + body.locals.len() {
            self.st.mem.push(V::Undef);
        }
        let fr = Frame { fun: f, base };
        self.stack.push((f, fun.line));
        let pc0 = self.st.pc;
        let r = self.run(&fr, 0, None);
        if r.is_err() {
            // the stack is left for diagnosis; whoever catches the error resets it
            return r.map(|_| None);
        }
        self.stack.pop();
        let ok = r?;
        let _ = pc0;
        if !ok {
            self.st.mem.truncate(base as usize);
            return Ok(None);
        }
        let ret = std::mem::replace(&mut self.st.mem[base as usize], V::Undef);
        self.st.mem.truncate(base as usize);
        Ok(Some(ret))
    }
    fn set_line(&mut self, l: u32) {
        if let Some(x) = self.stack.last_mut() {
            x.1 = l;
        }
    }
    /// run from block `bb` until `stop` (or the function's return); false = no path gets there
    pub fn run(&mut self, fr: &Frame, mut bb: usize, stop: Option<usize>) -> R<bool> {
        let p = self.p;
        let body = p.fns[fr.fun].body.as_ref().unwrap();
        let mut lc = crate::loops::Visits::default();
        loop {
            if Some(bb) == stop {
                return Ok(true);
            }
            if (self.want_snaps || self.loop_ctx.seal || !self.loop_ctx.rename.is_empty()) && body.loops.contains_key(&bb) {
                lc.visit(self, fr, bb);
                if self.want_snaps && lc.due(bb) {
                    crate::loops::summarise(self, fr, &mut lc, &Z::k(0), Some(bb))?;
                }
            }
            self.stats.blocks.insert((fr.fun, bb));
            if self.budget != 0 && self.cx.size_now() > self.budget {
                return uns("work limit");
            }
            match self.block(fr, body, bb) {
                Ok(Next::Go(n)) => bb = n,
                Ok(Next::Ret) => return Ok(true),
                Ok(Next::Dead) => return Ok(false),
                Ok(Next::Fork(arms)) => {
                    let ip = body.ipdom[bb];
                    match self.fork(fr, body, bb, arms, ip) {
                        Ok(false) => return Ok(false),
                        Ok(true) => match ip {
                            Some(n) => bb = n,
                            None => return Ok(true),
                        },
                        Err(e) => bb = self.loop_exit(fr, &mut lc, e)?,
                    }
                }
                Err(e) => bb = self.loop_exit(fr, &mut lc, e)?,
            }
        }
    }
    /// `n` iterations of the loop with this head, starting at the head; false = the loop is left or diverges
    pub fn period(&mut self, fr: &Frame, head: usize, n: usize) -> R<bool> {
        let p = self.p;
        let body = p.fns[fr.fun].body.as_ref().unwrap();
        let (mut bb, mut left) = (head, n);
        let set = &body.loops[&head];
        loop {
            self.stats.blocks.insert((fr.fun, bb));
            let next = match self.block(fr, body, bb)? {
                Next::Go(x) => x,
                Next::Ret | Next::Dead => return Ok(false),
                Next::Fork(arms) => {
                    let ip = body.ipdom[bb];
                    match (self.fork(fr, body, bb, arms, ip)?, ip) {
                        (true, Some(x)) => x,
                        _ => return Ok(false),
                    }
                }
            };
            if !set[next] {
                return Ok(false);
            }
            if next == head {
                left -= 1;
                if left == 0 {
                    return Ok(true);
                }
            }
            bb = next;
        }
    }
    fn loop_exit(&mut self, fr: &Frame, lc: &mut crate::loops::Visits, e: E) -> R<usize> {
        match &e {
            E::Split(z) if self.want_snaps => {
                match crate::loops::summarise(self, fr, lc, z, None)? {
                    Some(bb) => Ok(bb),
                    None if self.depth >= 4 && lc.iterated() => uns("loop without summary"),
                    None => Err(e),
                }
            }
            _ => Err(e),
        }
    }
    fn fork(&mut self, fr: &Frame, body: &Body, _bb: usize, arms: Vec<(B, usize)>, ip: Option<usize>) -> R<bool> {
        let _ = body;
        self.stats.joins += 1;
        let saved = self.st.clone();
        let stack = self.stack.clone();
        let mut res: Vec<(B, St)> = vec![];
        for (c, t) in arms {
            self.st = saved.clone();
            self.stack = stack.clone();
            self.st.pc = self.cx.and(saved.pc, c);
            if self.st.pc == F {
                continue;
            }
            if self.run(fr, t, ip)? {
                let s = std::mem::replace(&mut self.st, St { mem: vec![], heap: vec![], pc: T });
                res.push((c, s));
            }
        }
        self.stack = stack;
        let (_, mut acc) = match res.pop() {
            Some(x) => x,
            None => return Ok(false),
        };
        while let Some((c, s)) = res.pop() {
            acc = self.merge(c, s, acc)?;
        }
        self.st = acc;
        Ok(true)
    }
    pub fn merge(&mut self, c: B, a: St, b: St) -> R<St> {
        let pc = self.cx.or(a.pc, b.pc);
        let n = a.mem.len().min(b.mem.len());
        let mut mem = Vec::with_capacity(n);
        for i in 0..n {
            mem.push(ite(&mut self.cx, c, &a.mem[i], &b.mem[i])?);
        }
        let m = a.heap.len().max(b.heap.len());
        let mut heap = Vec::with_capacity(m);
        for i in 0..m {
            let x = a.heap.get(i).unwrap_or(&V::Undef);
            let y = b.heap.get(i).unwrap_or(&V::Undef);
            heap.push(ite(&mut self.cx, c, x, y)?);
        }
        Ok(St { mem, heap, pc })
    }
    fn block(&mut self, fr: &Frame, body: &'p Body, bb: usize) -> R<Next> {
        let b = &body.blocks[bb];
        for s in &b.s {
            self.stats.stmts += 1;
            if self.fuel == 0 {
                return uns("analysis budget exhausted");
            }
            self.fuel -= 1;
            match s {
                St_::Assign(pl, rv, line) => {
                    self.set_line(*line);
                    let t = self.place_ty(body, pl);
                    let v = self.rvalue(fr, rv, t)?;
                    if self.trace {
                        eprintln!("{}{} bb{} {:?} = {:?} => {}", " ".repeat(self.stack.len()), p_name(self.p, fr.fun), bb, pl, rv, self.show_v(&v));
                    }
                    self.write_place(fr, pl, v)?;
                }
                St_::SetDiscr(..) => return uns("set discriminant"),
                St_::Cno(..) => return uns("raw memory copy"),
            }
        }
        self.stats.stmts += 1;
        match &b.t {
            Tm::Goto(t) => Ok(Next::Go(*t)),
            Tm::Return => Ok(Next::Ret),
            Tm::Resume => Ok(Next::Dead),
            Tm::Unreachable => Ok(Next::Dead),
            Tm::Asm => uns("inline assembly"),
            Tm::Drop(_, t, _, _) => Ok(Next::Go(*t)),
            Tm::Assert(o, exp, what, t, line) => {
                self.set_line(*line);
                let v = self.opn(fr, o)?;
                let mut c = self.bit(&v)?;
                if !exp {
                    c = self.cx.not(c);
                }
                if self.require(c, what)? {
                    Ok(Next::Go(*t))
                } else {
                    Ok(Next::Dead)
                }
            }
            Tm::Switch(o, arms, other, line, _) => {
                self.set_line(*line);
                let v = self.opn(fr, o)?;
                let w = v.w()?;
                if let Some(k) = self.cx.as_const(w) {
                    for (x, t) in arms {
                        if *x == k {
                            return Ok(Next::Go(*t));
                        }
                    }
                    return Ok(Next::Go(*other));
                }
                let wd = self.cx.width(w);
                let mut rest = T;
                let mut out: Vec<(B, usize)> = vec![];
                for (x, t) in arms {
                    let k = self.cx.konst(wd, *x & term::mask(wd));
                    let e = self.cx.eq(w, k);
                    let c = self.cx.and(rest, e);
                    match self.decide(c)? {
                        Some(true) => return Ok(Next::Go(*t)),
                        Some(false) => {}
                        None => {
                            let c = self.cx.simp_bit(c);
                            push_arm(&mut self.cx, &mut out, c, *t);
                            let nc = self.cx.not(c);
                            rest = self.cx.and(rest, nc);
                        }
                    }
                }
                match self.decide(rest)? {
                    Some(true) => return Ok(Next::Go(*other)),
                    Some(false) => {}
                    None => {
                        if !matches!(body.blocks[*other].t, Tm::Unreachable) || !body.blocks[*other].s.is_empty() {
                            let r = self.cx.simp_bit(rest);
                            push_arm(&mut self.cx, &mut out, r, *other);
                        }
                    }
                }
                if out.len() == 1 {
                    return Ok(Next::Go(out[0].1));
                }
                if !self.leaked_here("branch") {
                    let mut s = Sup::default();
                    self.cx.sup_w(w, &mut s);
                    self.leak("branch", &s);
                }
                let cs: Vec<B> = out.iter().map(|x| x.0).collect();
                self.leak_conds("branch", &cs);
                Ok(Next::Fork(out))
            }
            Tm::Call(c, args, dest, target, line) => {
                self.set_line(*line);
                let mut a = Vec::with_capacity(args.len());
                for o in args {
                    a.push(self.opn(fr, o)?);
                }
                let f = match c {
                    Callee::Inst(f) => *f,
                    Callee::Ptr(o) => match self.opn(fr, o)? {
                        V::Fn(f) => f,
                        v => return uns(format!("call through {}", short(&v))),
                    },
                    Callee::Unresolved(s) => return uns(format!("unresolved call {}", s)),
                };
                match self.call(f, a)? {
                    None => Ok(Next::Dead),
                    Some(v) => match target {
                        Some(t) => {
                            self.write_place(fr, dest, v)?;
                            Ok(Next::Go(*t))
                        }
                        None => Ok(Next::Dead),
                    },
                }
            }
        }
    }
}
use crate::mir::St as St_;
enum Next {
    Go(usize),
    Ret,
    Dead,
    Fork(Vec<(B, usize)>),
}
fn push_arm(cx: &mut Cx, out: &mut Vec<(B, usize)>, c: B, t: usize) {
    for x in out.iter_mut() {
        if x.1 == t {
            x.0 = cx.or(x.0, c);
            return;
        }
    }
    out.push((c, t));
}
pub fn is_closure(n: &str) -> bool {
    n.rsplit("::").next().map_or(false, |x| x.starts_with("{closure#"))
}
pub fn push_pe(path: &[PE], pe: &PE) -> Vec<PE> {
    let mut v = path.to_vec();
    match (v.last(), pe) {
        (Some(PE::S(o, _)), PE::I(z)) => {
            let n = PE::I(o.add(z));
            *v.last_mut().unwrap() = n;
        }
        (Some(PE::S(o, _)), PE::S(o2, l2)) => {
            let n = PE::S(o.add(o2), l2.clone());
            *v.last_mut().unwrap() = n;
        }
        _ => v.push(pe.clone()),
    }
    v
}
pub fn map_ref(r: &V, pe: &PE) -> R<V> {
    match r {
        V::Ref(p) => Ok(V::Ref(Ptr { obj: p.obj, path: Rc::new(push_pe(&p.path, pe)) })),
        V::Ite(c, a, b) => Ok(V::Ite(*c, Rc::new(map_ref(a, pe)?), Rc::new(map_ref(b, pe)?))),
        _ => uns(format!("projection of {}", short(r))),
    }
}
pub fn read_at(cx: &mut Cx, v: &V, path: &[PE]) -> R<V> {
    let (pe, rest) = match path.split_first() {
        None => return Ok(v.clone()),
        Some(x) => x,
    };
    if let V::Ite(c, a, b) = v {
        let (x, y) = (read_at(cx, a, path)?, read_at(cx, b, path)?);
        return ite(cx, *c, &x, &y);
    }
    match (pe, v) {
        (_, V::Undef) => Ok(V::Undef),
        (PE::F(i), V::Agg(f)) => match f.get(*i as usize) {
            Some(x) => read_at(cx, x, rest),
            None => Ok(unit()),
        },
        (PE::F(_), V::Ref(_)) => read_at(cx, v, rest),
        (PE::Vf(k, i), V::En(_, p)) => match p.get(*k as usize).and_then(|f| f.get(*i as usize)) {
            Some(x) => read_at(cx, x, rest),
            None => Ok(V::Undef),
        },
        (PE::I(z), V::Seq(s)) => {
            if !rest.is_empty() && z.as_k().is_none() && !only_sizes(cx, z) {
                // a data-dependent row: project every row first, then select among the small pieces
                if let Some(rows) = all_el(s) {
                    let mut v = Vec::with_capacity(rows.len());
                    for x in &rows {
                        v.push(read_at(cx, x, rest)?);
                    }
                    return sel(cx, &v, z);
                }
            }
            let x = seq_get(cx, s, z)?;
            read_at(cx, &x, rest)
        }
        (PE::S(o, l), V::Seq(s)) => {
            let x = V::Seq(Rc::new(seq_slice(cx, s, o, l)?));
            read_at(cx, &x, rest)
        }
        _ => uns(format!("read of {:?} in {}", pe, short(v))),
    }
}
pub fn write_at(cx: &mut Cx, v: &mut V, path: &[PE], val: V) -> R<()> {
    let (pe, rest) = match path.split_first() {
        None => {
            *v = val;
            return Ok(());
        }
        Some(x) => x,
    };
    match (pe, &mut *v) {
        (_, V::Ite(c, a, b)) => {
            let (c, mut x, mut y) = (*c, (**a).clone(), (**b).clone());
            write_at(cx, &mut x, path, val.clone())?;
            write_at(cx, &mut y, path, val)?;
            *v = ite(cx, c, &x, &y)?;
            Ok(())
        }
        (PE::F(i), V::Undef) => {
            // partially initialised aggregate
            let mut f = vec![V::Undef; *i as usize + 1];
            write_at(cx, &mut f[*i as usize], rest, val)?;
            *v = agg(f);
            Ok(())
        }
        (PE::F(i), V::Agg(f)) => {
            let f = Rc::make_mut(f);
            while f.len() <= *i as usize {
                f.push(V::Undef);
            }
            write_at(cx, &mut f[*i as usize], rest, val)
        }
        (PE::Vf(k, i), V::En(_, p)) => {
            let p = Rc::make_mut(p);
            let f = Rc::make_mut(&mut p[*k as usize]);
            while f.len() <= *i as usize {
                f.push(V::Undef);
            }
            write_at(cx, &mut f[*i as usize], rest, val)
        }
        (PE::I(z), V::Seq(s)) => {
            if rest.is_empty() {
                return seq_set(cx, s, z, val);
            }
            // in-place update of a constant element
            if s.len() == 1 {
                if let Some(k) = z.as_k() {
                    if let P::El(_) = &s[0] {
                        let m = Rc::make_mut(s);
                        if let P::El(e) = &mut m[0] {
                            if k < 0 || k as usize >= e.len() {
                                return uns("index out of range after check");
                            }
                            return write_at(cx, &mut Rc::make_mut(e)[k as usize], rest, val);
                        }
                    }
                }
            }
            let mut x = seq_get(cx, s, z)?;
            write_at(cx, &mut x, rest, val)?;
            seq_set(cx, s, z, x)
        }
        (PE::S(o, l), V::Seq(s)) => {
            let mut x = if rest.is_empty() { V::Undef } else { V::Seq(Rc::new(seq_slice(cx, s, o, l)?)) };
            write_at(cx, &mut x, rest, val)?;
            let by = x.seq()?.clone();
            *s = Rc::new(seq_splice(cx, s, o, l, &by)?);
            Ok(())
        }
        (PE::F(_), V::Ref(_)) => write_at(cx, v, rest, val),
        _ => uns(format!("write of {:?} in {}", pe, short(v))),
    }
}

fn p_name(p: &Prog, f: usize) -> String {
    p.fns[f].full.chars().take(60).collect()
}
