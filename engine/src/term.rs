//! The value domain of the dataflow analysis.
//!
//! * bits are nodes of a reduced ordered BDD over "atom bits" (canonical Boolean functions),
//! * words are hash-consed: either a vector of bits, or a linear combination modulo 2^w of such vectors,
//! * sizes/indices are integer linear forms `Z` decided against linear facts (Fourier-Motzkin),
//! * everything the analysis does not interpret is an opaque atom (input byte, table lookup, output of a
//!   function known only by its contract, product, ...), so equality of values is equality of ids.
use crate::fx::{FxMap, FxSet};
use std::rc::Rc;

pub type B = u32;
pub type W = u32;
pub type A = u32;
pub const F: B = 0;
pub const T: B = 1;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Z {
    pub c: i128,
    pub t: Vec<(W, i128)>,
}
impl Z {
    pub fn k(c: i128) -> Z {
        Z { c, t: vec![] }
    }
    pub fn var(w: W) -> Z {
        Z { c: 0, t: vec![(w, 1)] }
    }
    pub fn add(&self, o: &Z) -> Z {
        self.lin(1, o, 1)
    }
    pub fn sub(&self, o: &Z) -> Z {
        self.lin(1, o, -1)
    }
    pub fn addk(&self, k: i128) -> Z {
        let mut r = self.clone();
        r.c += k;
        r
    }
    pub fn mul(&self, k: i128) -> Z {
        if k == 0 {
            return Z::k(0);
        }
        Z { c: self.c * k, t: self.t.iter().map(|(w, x)| (*w, x * k)).collect() }
    }
    pub fn lin(&self, a: i128, o: &Z, b: i128) -> Z {
        let mut r = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                r.push((self.t[i].0, self.t[i].1 * a));
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                r.push((o.t[j].0, o.t[j].1 * b));
                j += 1;
            } else {
                let v = self.t[i].1 * a + o.t[j].1 * b;
                if v != 0 {
                    r.push((self.t[i].0, v));
                }
                i += 1;
                j += 1;
            }
        }
        r.retain(|x| x.1 != 0);
        Z { c: self.c * a + o.c * b, t: r }
    }
    /// constant plus terms in any order
    pub fn of(c: i128, mut v: Vec<(W, i128)>) -> Z {
        v.sort();
        let mut t: Vec<(W, i128)> = Vec::with_capacity(v.len());
        for (w, k) in v {
            match t.last_mut() {
                Some(l) if l.0 == w => l.1 += k,
                _ => t.push((w, k)),
            }
        }
        t.retain(|x| x.1 != 0);
        Z { c, t }
    }
    pub fn as_k(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.c)
        } else {
            None
        }
    }
    pub fn coef(&self, w: W) -> i128 {
        self.t.iter().find(|x| x.0 == w).map(|x| x.1).unwrap_or(0)
    }
    /// replace variable `w` by `by`
    pub fn subst(&self, w: W, by: &Z) -> Z {
        let k = self.coef(w);
        if k == 0 {
            return self.clone();
        }
        let mut r = self.clone();
        r.t.retain(|x| x.0 != w);
        r.lin(1, by, k)
    }
    /// exact division by k (all coefficients divisible); returns quotient and constant remainder in [0,k)
    pub fn div_exact(&self, k: i128) -> Option<(Z, i128)> {
        let mut t = Vec::with_capacity(self.t.len());
        for (w, c) in &self.t {
            if c % k != 0 {
                return None;
            }
            t.push((*w, c / k));
        }
        Some((Z { c: self.c.div_euclid(k), t }, self.c.rem_euclid(k)))
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AK {
    /// element `idx` of an uninterpreted sequence
    Elem(u32, Z),
    /// carry-dependent bits of a linear combination (word of that width class)
    Sum(W),
    /// lookup of a constant table
    Tab(u32, W),
    /// uninterpreted word operation
    Op(&'static str, Vec<W>),
    /// truth of `z >= 0`
    Ge0(Z),
    /// truth of a word equality / other predicate
    P(&'static str, Vec<W>),
    /// runtime size
    Size(String),
    /// unknown
    Free(u32),
    /// a named Boolean function (truth table) of a word of at most 8 bits
    Fun([u64; 4], W),
    /// an abbreviation: the result of an operation on bits
    Def(&'static str, Vec<B>),
}
/// GF(2) space of the functions of one table index seen so far
#[derive(Default)]
struct Space {
    rows: Vec<([u64; 4], usize, B)>,
}
#[derive(Clone, Debug)]
pub struct Atom {
    pub k: AK,
    pub n: u8,
    pub var0: u32,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum WN {
    Bits(Rc<[B]>),
    Lin(u128, Rc<[(W, u128)]>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BaseK {
    Input(String, bool),
    App(String, Vec<crate::val::Key>),
    Stream(u32),
}
#[derive(Clone, Debug)]
pub struct BaseD {
    pub k: BaseK,
    pub w: u8,
}
#[derive(Clone, Copy)]
struct Node {
    var: u32,
    lo: B,
    hi: B,
}

pub struct Cx {
    /// one linear term per bit (canonical, slower) instead of one per run of bits
    pub fine: bool,
    nodes: Vec<Node>,
    uniq: FxMap<(u32, B, B), B>,
    cache2: FxMap<(u8, B, B), B>,
    cache3: FxMap<(B, B, B), B>,
    pub atoms: Vec<Atom>,
    atom_ix: FxMap<AK, A>,
    pub vars: Vec<(A, u8)>,
    words: Vec<(u8, WN)>,
    word_ix: FxMap<(u8, WN), W>,
    lin_bits: FxMap<W, Rc<[B]>>,
    bits2lin: FxMap<Rc<[B]>, W>,
    zext_cache: FxMap<(W, u8), W>,
    tab_cache: FxMap<(u32, W), W>,
    spaces: FxMap<W, Space>,
    atom_w: FxMap<(A, u8), W>,
    pub bases: Vec<BaseD>,
    base_ix: FxMap<BaseK, u32>,
    pub tables: Vec<Vec<u128>>,
    table_ix: FxMap<Vec<u128>, u32>,
    pub facts: Vec<Z>,
    pub pow2: FxSet<W>,
    fresh: u32,
    size_ok: FxMap<W, bool>,
    prove_cache: FxMap<(Z, usize), bool>,
    /// largest value of size words and their atoms
    pub size_max: FxMap<W, i128>,
    pub atom_max: FxMap<A, u128>,
    work: usize,
    /// no more nodes than this (searches for witnesses)
    cap: usize,
    over: bool,
    facts_ver: usize,
    ver_next: usize,
}

/// results of one operation with more nodes than this get a name
const LARGE: usize = 30_000;
/// variable order: the newest atom is tested first (keeps accumulated sums and selections linear)
#[inline]
fn top(a: u32, b: u32) -> u32 {
    if a == u32::MAX {
        b
    } else if b == u32::MAX {
        a
    } else {
        a.max(b)
    }
}
pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

impl Cx {
    pub fn new() -> Cx {
        let mut c = Cx {
            fine: std::env::var("FINE").is_ok(),
            nodes: vec![],
            uniq: Default::default(),
            cache2: Default::default(),
            cache3: Default::default(),
            atoms: vec![],
            atom_ix: Default::default(),
            vars: vec![],
            words: vec![],
            word_ix: Default::default(),
            lin_bits: Default::default(),
            bits2lin: Default::default(),
            zext_cache: Default::default(),
            tab_cache: Default::default(),
            spaces: Default::default(),
            atom_w: Default::default(),
            bases: vec![],
            base_ix: Default::default(),
            tables: vec![],
            table_ix: Default::default(),
            facts: vec![],
            pow2: Default::default(),
            fresh: 0,
            size_ok: Default::default(),
            prove_cache: Default::default(),
            size_max: Default::default(),
            atom_max: Default::default(),
            facts_ver: 0,
            work: 0,
            cap: usize::MAX,
            over: false,
            ver_next: 1,
        };
        c.nodes.push(Node { var: u32::MAX, lo: 0, hi: 0 });
        c.nodes.push(Node { var: u32::MAX, lo: 1, hi: 1 });
        c
    }
    pub fn stats(&self) -> (usize, usize, usize) {
        (self.nodes.len(), self.words.len(), self.atoms.len())
    }

    // ------------------------------------------------------------------ bits
    /// a name for the result of an operation that would be too large to write down
    fn abbrev(&mut self, op: &'static str, of: Vec<B>) -> B {
        let a = self.atom(AK::Def(op, of), 1);
        let v = self.atoms[a as usize].var0;
        self.mk(v, F, T)
    }
    fn mk(&mut self, var: u32, lo: B, hi: B) -> B {
        if lo == hi {
            return lo;
        }
        if let Some(&b) = self.uniq.get(&(var, lo, hi)) {
            return b;
        }
        let b = self.nodes.len() as B;
        if b as usize >= self.cap {
            self.over = true;
            return F;
        }
        self.nodes.push(Node { var, lo, hi });
        self.uniq.insert((var, lo, hi), b);
        b
    }
    /// at most `n` further nodes; results are meaningless once `over` holds
    pub fn cap_on(&mut self, n: usize) -> usize {
        let old = self.cap;
        self.cap = self.cap.min(self.nodes.len() + n);
        old
    }
    pub fn cap_off(&mut self, old: usize) {
        self.cap = old;
        self.over = false;
    }
    pub fn bits_uncapped(&mut self, w: W) -> Vec<B> {
        let (c, o) = (self.cap, self.over);
        self.cap = usize::MAX;
        let r = self.bits(w).to_vec();
        self.cap = c;
        self.over = o;
        r
    }
    pub fn over(&self) -> bool {
        self.over
    }
    pub fn var(&mut self, v: u32) -> B {
        self.mk(v, F, T)
    }
    pub fn lit_of(&self, b: B) -> Option<u32> {
        if b > 1 {
            let n = self.nodes[b as usize];
            if n.lo == F && n.hi == T {
                return Some(n.var);
            }
        }
        None
    }
    /// (var, polarity) if b is a literal
    pub fn literal(&self, b: B) -> Option<(u32, bool)> {
        if b > 1 {
            let n = self.nodes[b as usize];
            if n.lo == F && n.hi == T {
                return Some((n.var, true));
            }
            if n.lo == T && n.hi == F {
                return Some((n.var, false));
            }
        }
        None
    }
    pub fn not(&mut self, a: B) -> B {
        self.xor(a, T)
    }
    pub fn and(&mut self, a: B, b: B) -> B {
        if self.cap != usize::MAX {
            return self.and_in(a, b);
        }
        self.cap = self.nodes.len() + LARGE;
        let r = self.and_in(a, b);
        self.cap = usize::MAX;
        if self.over {
            self.over = false;
            return self.abbrev("and", vec![a, b]);
        }
        r
    }
    fn and_in(&mut self, a: B, b: B) -> B {
        if self.over {
            return F;
        }
        if a == F || b == F {
            return F;
        }
        if a == T {
            return b;
        }
        if b == T || a == b {
            return a;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.cache2.get(&(0, a, b)) {
            return r;
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        let v = top(na.var, nb.var);
        let (a0, a1) = if na.var == v { (na.lo, na.hi) } else { (a, a) };
        let (b0, b1) = if nb.var == v { (nb.lo, nb.hi) } else { (b, b) };
        let lo = self.and_in(a0, b0);
        let hi = self.and_in(a1, b1);
        let r = self.mk(v, lo, hi);
        if self.over {
            return F;
        }
        self.cache2.insert((0, a, b), r);
        r
    }
    pub fn or(&mut self, a: B, b: B) -> B {
        if self.cap != usize::MAX {
            return self.or_in(a, b);
        }
        self.cap = self.nodes.len() + LARGE;
        let r = self.or_in(a, b);
        self.cap = usize::MAX;
        if self.over {
            self.over = false;
            return self.abbrev("or", vec![a, b]);
        }
        r
    }
    fn or_in(&mut self, a: B, b: B) -> B {
        if self.over {
            return F;
        }
        if a == T || b == T {
            return T;
        }
        if a == F {
            return b;
        }
        if b == F || a == b {
            return a;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.cache2.get(&(1, a, b)) {
            return r;
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        let v = top(na.var, nb.var);
        let (a0, a1) = if na.var == v { (na.lo, na.hi) } else { (a, a) };
        let (b0, b1) = if nb.var == v { (nb.lo, nb.hi) } else { (b, b) };
        let lo = self.or_in(a0, b0);
        let hi = self.or_in(a1, b1);
        let r = self.mk(v, lo, hi);
        if self.over {
            return F;
        }
        self.cache2.insert((1, a, b), r);
        r
    }
    pub fn xor(&mut self, a: B, b: B) -> B {
        if self.cap != usize::MAX {
            return self.xor_in(a, b);
        }
        self.cap = self.nodes.len() + LARGE;
        let r = self.xor_in(a, b);
        self.cap = usize::MAX;
        if self.over {
            self.over = false;
            return self.abbrev("xor", vec![a, b]);
        }
        r
    }
    fn xor_in(&mut self, a: B, b: B) -> B {
        if self.over {
            return F;
        }
        if a == b {
            return F;
        }
        if a == F {
            return b;
        }
        if b == F {
            return a;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.cache2.get(&(2, a, b)) {
            return r;
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        let v = top(na.var, nb.var);
        let (a0, a1) = if na.var == v { (na.lo, na.hi) } else { (a, a) };
        let (b0, b1) = if nb.var == v { (nb.lo, nb.hi) } else { (b, b) };
        let lo = self.xor_in(a0, b0);
        let hi = self.xor_in(a1, b1);
        let r = self.mk(v, lo, hi);
        if self.over {
            return F;
        }
        self.cache2.insert((2, a, b), r);
        r
    }
    pub fn ite(&mut self, c: B, a: B, b: B) -> B {
        if self.cap != usize::MAX {
            return self.ite_in(c, a, b);
        }
        self.cap = self.nodes.len() + LARGE;
        let r = self.ite_in(c, a, b);
        self.cap = usize::MAX;
        if self.over {
            self.over = false;
            return self.abbrev("ite", vec![c, a, b]);
        }
        r
    }
    fn ite_in(&mut self, c: B, a: B, b: B) -> B {
        if self.over {
            return F;
        }
        if c == T || a == b {
            return a;
        }
        if c == F {
            return b;
        }
        if a == T && b == F {
            return c;
        }
        if a == F && b == F {
            return F;
        }
        if let Some(&r) = self.cache3.get(&(c, a, b)) {
            return r;
        }
        let (nc, na, nb) = (self.nodes[c as usize], self.nodes[a as usize], self.nodes[b as usize]);
        let v = top(nc.var, top(na.var, nb.var));
        let (c0, c1) = if nc.var == v { (nc.lo, nc.hi) } else { (c, c) };
        let (a0, a1) = if na.var == v { (na.lo, na.hi) } else { (a, a) };
        let (b0, b1) = if nb.var == v { (nb.lo, nb.hi) } else { (b, b) };
        let lo = self.ite_in(c0, a0, b0);
        let hi = self.ite_in(c1, a1, b1);
        let r = self.mk(v, lo, hi);
        if self.over {
            return F;
        }
        self.cache3.insert((c, a, b), r);
        r
    }
    /// restrict variable v to val
    pub fn restrict(&mut self, b: B, v: u32, val: bool, memo: &mut FxMap<B, B>) -> B {
        if b < 2 {
            return b;
        }
        let n = self.nodes[b as usize];
        if n.var < v {
            return b;
        }
        if n.var == v {
            return if val { n.hi } else { n.lo };
        }
        if let Some(&r) = memo.get(&b) {
            return r;
        }
        let lo = self.restrict(n.lo, v, val, memo);
        let hi = self.restrict(n.hi, v, val, memo);
        let r = self.mk(n.var, lo, hi);
        memo.insert(b, r);
        r
    }
    pub fn bdd_vars(&self, b: B, seen: &mut FxSet<B>, out: &mut FxSet<u32>) {
        if b < 2 || !seen.insert(b) {
            return;
        }
        let n = self.nodes[b as usize];
        out.insert(n.var);
        self.bdd_vars(n.lo, seen, out);
        self.bdd_vars(n.hi, seen, out);
    }
    pub fn node(&self, b: B) -> (u32, B, B) {
        let n = self.nodes[b as usize];
        (n.var, n.lo, n.hi)
    }
    /// one satisfying partial assignment
    pub fn sat(&self, mut b: B) -> Vec<(u32, bool)> {
        let mut r = vec![];
        while b > 1 {
            let n = self.nodes[b as usize];
            if n.hi != F {
                r.push((n.var, true));
                b = n.hi;
            } else {
                r.push((n.var, false));
                b = n.lo;
            }
        }
        r
    }

    // ------------------------------------------------------------------ atoms
    pub fn atom(&mut self, k: AK, n: u8) -> A {
        if let Some(&a) = self.atom_ix.get(&k) {
            return a;
        }
        let a = self.atoms.len() as A;
        let var0 = self.vars.len() as u32;
        for i in 0..n {
            self.vars.push((a, i));
        }
        self.atoms.push(Atom { k: k.clone(), n, var0 });
        self.atom_ix.insert(k, a);
        a
    }
    /// the atom as a word of width w
    pub fn atom_word(&mut self, a: A, w: u8) -> W {
        if let Some(&x) = self.atom_w.get(&(a, w)) {
            return x;
        }
        let (n, v0) = (self.atoms[a as usize].n, self.atoms[a as usize].var0);
        let bits: Vec<B> = (0..w).map(|i| if i < n { self.var(v0 + i as u32) } else { F }).collect();
        let r = self.mk_bits(bits);
        self.atom_w.insert((a, w), r);
        r
    }
    pub fn fresh_word(&mut self, w: u8) -> W {
        self.fresh += 1;
        let a = self.atom(AK::Free(self.fresh), w);
        self.atom_word(a, w)
    }
    pub fn fresh_id(&mut self) -> u32 {
        self.fresh += 1;
        self.fresh
    }
    /// a runtime size in [0, 2^nbits)
    pub fn size(&mut self, name: &str, nbits: u8) -> W {
        let a = self.atom(AK::Size(name.to_string()), nbits);
        self.atom_word(a, 64)
    }
    /// a size that is at most `max`
    pub fn size_upto(&mut self, name: &str, max: i128) -> Z {
        let nb = (128 - (max as u128).leading_zeros()).max(1) as u8;
        let a = self.atom(AK::Size(format!("{} <= {}", name, max)), nb);
        let w = self.atom_word(a, 64);
        self.size_max.insert(w, max);
        self.atom_max.insert(a, max as u128);
        Z::var(w)
    }
    pub fn base(&mut self, k: BaseK, w: u8) -> u32 {
        if let Some(&b) = self.base_ix.get(&k) {
            return b;
        }
        let b = self.bases.len() as u32;
        self.bases.push(BaseD { k: k.clone(), w });
        self.base_ix.insert(k, b);
        b
    }
    pub fn input(&mut self, name: &str, w: u8, secret: bool) -> u32 {
        self.base(BaseK::Input(name.to_string(), secret), w)
    }
    pub fn elem(&mut self, base: u32, idx: &Z) -> W {
        let w = self.bases[base as usize].w;
        let idx = if idx.t.is_empty() { idx.clone() } else { self.pinned(idx) };
        let a = self.atom(AK::Elem(base, idx), w);
        self.atom_word(a, w)
    }
    /// if the word is exactly one Elem atom: (base, idx)
    pub fn as_elem(&self, w: W) -> Option<(u32, &Z)> {
        let (wd, n) = &self.words[w as usize];
        if let WN::Bits(b) = n {
            let v = self.lit_of(b[0])?;
            let (a, bit) = self.vars[v as usize];
            if bit != 0 {
                return None;
            }
            let at = &self.atoms[a as usize];
            if at.n != *wd {
                return None;
            }
            if let AK::Elem(base, z) = &at.k {
                for (i, x) in b.iter().enumerate() {
                    if self.lit_of(*x) != Some(at.var0 + i as u32) {
                        return None;
                    }
                }
                return Some((*base, z));
            }
        }
        None
    }
    pub fn table(&mut self, t: Vec<u128>) -> u32 {
        if let Some(&i) = self.table_ix.get(&t) {
            return i;
        }
        let i = self.tables.len() as u32;
        self.tables.push(t.clone());
        self.table_ix.insert(t, i);
        i
    }
    pub fn lookup(&mut self, t: u32, idx: W, w: u8) -> W {
        if let Some(k) = self.as_const(idx) {
            let v = self.tables[t as usize][k as usize];
            return self.konst(w, v);
        }
        let bits = self.bits(idx);
        let used = bits.iter().rposition(|b| *b != F).map_or(0, |x| x + 1);
        let len = self.tables[t as usize].len();
        if used <= 8 {
            // the table as a Boolean function of the (named) index byte: canonical for any table layout
            if let Some(&r) = self.tab_cache.get(&(t, idx)) {
                return r;
            }
            let iw = self.trunc(idx, used as u8);
            let n = 1usize << used;
            if used > 4 {
                let vals: Vec<u128> = (0..n).map(|i| if i < len { self.tables[t as usize][i] } else { 0 }).collect();
                let r = self.lookup_fun(&vals, iw, w);
                self.tab_cache.insert((t, idx), r);
                return r;
            }
            let iw = self.ix(iw);
            let ib = self.bits(iw);
            let vals: Vec<u128> = (0..n).map(|i| if i < len { self.tables[t as usize][i] } else { 0 }).collect();
            let mut out = vec![];
            for bit in 0..w {
                let mut level: Vec<B> = vals.iter().map(|v| ((v >> bit) & 1) as B).collect();
                for k in (0..used).rev() {
                    let half = level.len() / 2;
                    let mut nx = Vec::with_capacity(half);
                    for i in 0..half {
                        nx.push(self.ite(ib[k], level[i + half], level[i]));
                    }
                    level = nx;
                }
                out.push(level[0]);
            }
            let r = self.mk_bits(out);
            self.tab_cache.insert((t, idx), r);
            return r;
        }
        let a = self.atom(AK::Tab(t, idx), w);
        self.atom_word(a, w)
    }
    /// values[index] as a vector of named functions of the index; a function in the GF(2) span of earlier ones
    /// (and of the index bits) is expressed by them, so the representation is canonical for any table layout
    fn lookup_fun(&mut self, vals: &[u128], iw: W, w: u8) -> W {
        let ib = self.bits(iw);
        // the index is itself a function of one earlier index: compose
        let mut under: Option<W> = None;
        let mut vs = FxSet::default();
        for b in ib.iter() {
            self.bdd_vars(*b, &mut Default::default(), &mut vs);
            if vs.len() > 24 {
                break;
            }
        }
        let mut ok = vs.len() <= 24;
        let mut funs: FxMap<u32, [u64; 4]> = Default::default();
        for v in &vs {
            match &self.atoms[self.vars[*v as usize].0 as usize].k {
                AK::Fun(tt, x) if under.map_or(true, |u| u == *x) => {
                    under = Some(*x);
                    funs.insert(*v, *tt);
                }
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        let (base, tab): (W, Vec<u128>) = match under {
            Some(u) if ok => {
                let n = 1usize << self.width(u);
                let mut t = vec![];
                for x in 0..n {
                    let mut i = 0usize;
                    for (k, b) in ib.iter().enumerate() {
                        let mut c = *b;
                        while c > 1 {
                            let nd = self.nodes[c as usize];
                            let tt = &funs[&nd.var];
                            c = if (tt[x / 64] >> (x % 64)) & 1 == 1 { nd.hi } else { nd.lo };
                        }
                        i |= (c as usize) << k;
                    }
                    t.push(vals[i]);
                }
                (u, t)
            }
            _ => (iw, vals.to_vec()),
        };
        let mut out = vec![];
        for bit in 0..w {
            let mut f = [0u64; 4];
            for (x, v) in tab.iter().enumerate() {
                if (v >> bit) & 1 == 1 {
                    f[x / 64] |= 1 << (x % 64);
                }
            }
            out.push(self.fun_bit(f, base));
        }
        self.mk_bits(out)
    }
    pub fn fun_bit(&mut self, f: [u64; 4], iw: W) -> B {
        let n = 1usize << self.width(iw);
        let mut sp = match self.spaces.remove(&iw) {
            Some(s) => s,
            None => {
                let mut s = Space::default();
                let bits = self.bits(iw);
                for k in 0..=bits.len() {
                    let mut r = [0u64; 4];
                    for x in 0..n {
                        if k == 0 || (x >> (k - 1)) & 1 == 1 {
                            r[x / 64] |= 1 << (x % 64);
                        }
                    }
                    let e = if k == 0 { T } else { bits[k - 1] };
                    self.fun_add(&mut s, r, e);
                }
                s
            }
        };
        let (r, acc) = self.fun_reduce(&sp, f);
        let out = if r == [0; 4] {
            acc
        } else {
            let a = self.atom(AK::Fun(f, iw), 1);
            let v = self.var(self.atoms[a as usize].var0);
            let e = self.xor(v, acc);
            self.fun_push(&mut sp, r, e);
            v
        };
        self.spaces.insert(iw, sp);
        out
    }
    fn fun_reduce(&mut self, sp: &Space, f: [u64; 4]) -> ([u64; 4], B) {
        let (mut r, mut acc) = (f, F);
        for (row, p, e) in &sp.rows {
            if (r[p / 64] >> (p % 64)) & 1 == 1 {
                for i in 0..4 {
                    r[i] ^= row[i];
                }
                acc = self.xor(acc, *e);
            }
        }
        (r, acc)
    }
    fn fun_add(&mut self, sp: &mut Space, f: [u64; 4], e: B) {
        let (r, acc) = self.fun_reduce(sp, f);
        let e = self.xor(e, acc);
        self.fun_push(sp, r, e);
    }
    fn fun_push(&mut self, sp: &mut Space, r: [u64; 4], e: B) {
        for i in 0..4 {
            if r[i] != 0 {
                sp.rows.push((r, i * 64 + r[i].trailing_zeros() as usize, e));
                return;
            }
        }
    }
    /// an opaque name for a large word (evaluates to the word)
    /// work done so far
    pub fn size_now(&self) -> usize {
        self.work
    }
    pub fn seal(&mut self, w: W) -> W {
        let n = match &self.words[w as usize].1 {
            WN::Lin(_, t) if t.len() > 100 => self.width(w),
            _ => return w,
        };
        self.op_atom("sealed", vec![w], n)
    }
    pub fn op_atom(&mut self, name: &'static str, args: Vec<W>, w: u8) -> W {
        let a = self.atom(AK::Op(name, args), w);
        self.atom_word(a, w)
    }
    pub fn pred_atom(&mut self, name: &'static str, args: Vec<W>) -> B {
        let a = self.atom(AK::P(name, args), 1);
        let v = self.atoms[a as usize].var0;
        self.var(v)
    }

    // ------------------------------------------------------------------ words
    pub fn width(&self, w: W) -> u8 {
        self.words[w as usize].0
    }
    pub fn node_of(&self, w: W) -> &WN {
        &self.words[w as usize].1
    }
    fn intern(&mut self, w: u8, n: WN) -> W {
        let key = (w, n);
        if let Some(&i) = self.word_ix.get(&key) {
            return i;
        }
        let i = self.words.len() as W;
        self.words.push(key.clone());
        self.word_ix.insert(key, i);
        i
    }
    pub fn konst(&mut self, w: u8, v: u128) -> W {
        let bits: Vec<B> = (0..w).map(|i| ((v >> i) & 1) as B).collect();
        self.intern(w, WN::Bits(bits.into()))
    }
    pub fn mk_bits(&mut self, bits: Vec<B>) -> W {
        // the bits of a sum, read back as a word, are the sum
        if bits[0] > 1 {
            if let Some(v) = self.lit_of(bits[0]) {
                let (a, i) = self.vars[v as usize];
                if i == 0 {
                    if let AK::Sum(sw) = self.atoms[a as usize].k {
                        if self.width(sw) as usize == bits.len() && bits.iter().enumerate().all(|(k, b)| self.lit_of(*b) == Some(v + k as u32)) {
                            return sw;
                        }
                    }
                }
            }
        }
        if !self.bits2lin.is_empty() {
            if let Some(&l) = self.bits2lin.get(&bits[..]) {
                return l;
            }
        }
        let w = bits.len() as u8;
        self.intern(w, WN::Bits(bits.into()))
    }
    pub fn bool(&mut self, b: B) -> W {
        self.mk_bits(vec![b])
    }
    pub fn as_const(&self, w: W) -> Option<u128> {
        if let WN::Bits(b) = &self.words[w as usize].1 {
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate() {
                match *x {
                    F => {}
                    T => v |= 1 << i,
                    _ => return None,
                }
            }
            Some(v)
        } else {
            None
        }
    }
    pub fn bits(&mut self, w: W) -> Rc<[B]> {
        let (wd, n) = self.words[w as usize].clone();
        match n {
            WN::Bits(b) => b,
            WN::Lin(c, t) => {
                if let Some(b) = self.lin_bits.get(&w) {
                    return b.clone();
                }
                // common power of two of all coefficients: low bits are those of the constant
                let k = t.iter().map(|x| x.1.trailing_zeros()).min().unwrap().min(wd as u32 - 1) as u8;
                let mut out: Vec<B> = Vec::with_capacity(wd as usize);
                if k > 0 {
                    for i in 0..k {
                        out.push(((c >> i) & 1) as B);
                    }
                    let nw = wd - k;
                    let terms: Vec<(W, u128)> = t.iter().map(|(x, co)| (self.trunc(*x, nw), co >> k)).collect();
                    let sub = self.mk_lin(nw, c >> k, terms);
                    out.extend(self.bits(sub).iter());
                } else {
                    // bits of the sum, from the narrowest width class containing them
                    let top = self.sum_top(wd, c, &t);
                    // terms that do not carry into the high bits of the constant
                    let most = self.sum_max(0, &t).filter(|m| top < wd && *m < 1 << 64);
                    let split = most.and_then(|m| (9..wd).find(|k| (c & ((1 << k) - 1)) + m < 1 << k)).filter(|k| c >> k != 0);
                    if let Some(k) = split {
                        let sub = self.mk_lin(wd, c & ((1 << k) - 1), t.to_vec());
                        let low = self.bits(sub);
                        out.extend(low[..k as usize].iter());
                        out.extend((k..wd).map(|i| ((c >> i) & 1) as B));
                        let rc: Rc<[B]> = out.into();
                        self.lin_bits.insert(w, rc.clone());
                        self.bits2lin.entry(rc.clone()).or_insert(w);
                        return rc;
                    }
                    let mut lo = 0u8;
                    for cls in [8u8, 32, 64, 128] {
                        if lo >= wd {
                            break;
                        }
                        let cw = cls.min(wd);
                        let sw = if cw == wd { w } else { self.trunc(w, cw) };
                        match self.words[sw as usize].1.clone() {
                            WN::Lin(_, st) if st.iter().all(|x| x.1 % 2 == 0) => {
                                let b = self.bits(sw);
                                out.extend(b[lo as usize..].iter());
                            }
                            WN::Lin(..) => {
                                let a = self.atom(AK::Sum(sw), cw);
                                let v0 = self.atoms[a as usize].var0;
                                for i in lo..cw {
                                    let v = if i < top { self.var(v0 + i as u32) } else { F };
                                    out.push(v);
                                }
                            }
                            WN::Bits(b) => out.extend(b[lo as usize..].iter()),
                        }
                        lo = cw;
                    }
                }
                let rc: Rc<[B]> = out.into();
                self.lin_bits.insert(w, rc.clone());
                self.bits2lin.entry(rc.clone()).or_insert(w);
                rc
            }
        }
    }
    /// number of bits a sum of short words can occupy
    fn sum_top(&self, wd: u8, c: u128, t: &[(W, u128)]) -> u8 {
        match self.sum_max(c, t) {
            Some(m) => ((128 - m.leading_zeros()) as u8).min(wd),
            None => wd,
        }
    }
    fn sum_max(&self, c: u128, t: &[(W, u128)]) -> Option<u128> {
        let mut max = c;
        for (x, k) in t {
            let n = match &self.words[*x as usize].1 {
                WN::Bits(b) => b.iter().rposition(|b| *b != F).map_or(0, |p| p + 1),
                _ => return None,
            };
            if n > 40 || *k >= 1 << 40 || max >= 1 << 100 {
                return None;
            }
            let m = match self.single_atom(*x) {
                Some((_, a)) => self.atom_max.get(&a).cloned(),
                None => None,
            };
            max += m.unwrap_or((1u128 << n) - 1) * k;
        }
        Some(max)
    }
    /// linear form of a word: constant + terms over bit pieces (same width)
    pub fn lin(&mut self, w: W) -> (u128, Vec<(W, u128)>) {
        let (wd, n) = self.words[w as usize].clone();
        match n {
            WN::Lin(c, t) => (c, t.to_vec()),
            WN::Bits(b) => {
                let mut c = 0u128;
                let mut terms = vec![];
                let n = wd as usize;
                let mut i = 0;
                while i < n {
                    match b[i] {
                        F => i += 1,
                        T => {
                            c |= 1 << i;
                            i += 1
                        }
                        x => {
                            let st = i;
                            if self.fine {
                                i += 1;
                            } else if let Some(v) = self.lit_of(x) {
                                let (a, _) = self.vars[v as usize];
                                let mut k = 1;
                                while i + k < n {
                                    match self.lit_of(b[i + k]) {
                                        Some(v2) if v2 == v + k as u32 && self.vars[v2 as usize].0 == a => k += 1,
                                        _ => break,
                                    }
                                }
                                i += k;
                            } else {
                                i += 1;
                                while i < n && b[i] > 1 && self.lit_of(b[i]).is_none() {
                                    i += 1;
                                }
                            }
                            let mut piece: Vec<B> = b[st..i].to_vec();
                            piece.resize(n, F);
                            let p = self.intern(wd, WN::Bits(piece.into()));
                            terms.push((p, 1u128 << st));
                        }
                    }
                }
                (c, terms)
            }
        }
    }
    pub fn mk_lin(&mut self, w: u8, c: u128, terms: Vec<(W, u128)>) -> W {
        let m = mask(w);
        let mut c = c & m;
        self.work += terms.len();
        let mut acc: Vec<(W, u128)> = Vec::with_capacity(terms.len());
        for (t, co) in terms {
            let co = co & m;
            if co == 0 {
                continue;
            }
            let tz = co.trailing_zeros() as u8;
            let t2 = if tz > 0 { self.mask_low(t, w - tz) } else { t };
            acc.push((t2, co));
        }
        acc.sort();
        let mut out: Vec<(W, u128)> = Vec::with_capacity(acc.len());
        let mut again = false;
        for (t, co) in acc {
            if let Some(l) = out.last_mut() {
                if l.0 == t {
                    let o = l.1;
                    l.1 = l.1.wrapping_add(co) & m;
                    if l.1 == 0 {
                        out.pop();
                    } else if l.1.trailing_zeros() > o.trailing_zeros() {
                        again = true;
                    }
                    continue;
                }
            }
            out.push((t, co));
        }
        if again {
            return self.mk_lin(w, c, out);
        }
        // constants may appear as terms after truncation/masking; Lin terms must be flattened
        if out.iter().any(|(t, _)| matches!(self.words[*t as usize].1, WN::Lin(..)) || self.as_const(*t).is_some()) {
            let mut nt = vec![];
            for (t, co) in out {
                let (tc, tt) = self.lin(t);
                c = c.wrapping_add(tc.wrapping_mul(co)) & m;
                for (x, xc) in tt {
                    nt.push((x, xc.wrapping_mul(co) & m));
                }
            }
            return self.mk_lin(w, c, nt);
        }
        if out.is_empty() {
            return self.konst(w, c);
        }
        // disjoint => plain bits
        if out.iter().all(|x| x.1.is_power_of_two()) {
            let mut used = c;
            let mut ok = true;
            for (t, co) in &out {
                let mut pm = 0u128;
                if let WN::Bits(b) = &self.words[*t as usize].1 {
                    for (i, x) in b.iter().enumerate() {
                        if *x != F {
                            pm |= 1 << i;
                        }
                    }
                }
                let pm = (pm << co.trailing_zeros()) & m;
                if pm & used != 0 {
                    ok = false;
                    break;
                }
                used |= pm;
            }
            if ok {
                let mut bits: Vec<B> = (0..w).map(|i| ((c >> i) & 1) as B).collect();
                for (t, co) in &out {
                    let s = co.trailing_zeros() as usize;
                    if let WN::Bits(b) = &self.words[*t as usize].1 {
                        for i in 0..(w as usize - s) {
                            if b[i] != F {
                                bits[i + s] = b[i];
                            }
                        }
                    }
                }
                return self.mk_bits(bits);
            }
        }
        self.intern(w, WN::Lin(c, out.into()))
    }
    /// keep only the low k bits
    fn mask_low(&mut self, t: W, k: u8) -> W {
        let (w, n) = self.words[t as usize].clone();
        match n {
            WN::Bits(b) => {
                if b[k as usize..].iter().all(|x| *x == F) {
                    return t;
                }
                let mut v = b.to_vec();
                for x in v[k as usize..].iter_mut() {
                    *x = F;
                }
                self.intern(w, WN::Bits(v.into()))
            }
            _ => t,
        }
    }
    pub fn add(&mut self, a: W, b: W) -> W {
        let w = self.width(a);
        let (ca, mut ta) = self.lin(a);
        let (cb, tb) = self.lin(b);
        ta.extend(tb);
        self.mk_lin(w, ca.wrapping_add(cb), ta)
    }
    pub fn sub(&mut self, a: W, b: W) -> W {
        let w = self.width(a);
        let m = mask(w);
        let (ca, mut ta) = self.lin(a);
        let (cb, tb) = self.lin(b);
        ta.extend(tb.into_iter().map(|(x, c)| (x, c.wrapping_neg() & m)));
        self.mk_lin(w, ca.wrapping_sub(cb), ta)
    }
    pub fn neg(&mut self, a: W) -> W {
        let w = self.width(a);
        let z = self.konst(w, 0);
        self.sub(z, a)
    }
    pub fn mulk(&mut self, a: W, k: u128) -> W {
        let w = self.width(a);
        let m = mask(w);
        let (c, t) = self.lin(a);
        let t = t.into_iter().map(|(x, co)| (x, co.wrapping_mul(k) & m)).collect();
        self.mk_lin(w, c.wrapping_mul(k), t)
    }
    pub fn mul(&mut self, a: W, b: W) -> W {
        if let Some(k) = self.as_const(a) {
            return self.mulk(b, k);
        }
        if let Some(k) = self.as_const(b) {
            return self.mulk(a, k);
        }
        let w = self.width(a);
        // one operand is a single bit: select
        for (x, y) in [(a, b), (b, a)] {
            let bx = self.bits(x);
            if bx[1..].iter().all(|q| *q == F) {
                let z = self.konst(w, 0);
                return self.wite(bx[0], y, z);
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.op_atom("mul", vec![a, b], w)
    }
    pub fn bitop(&mut self, op: u8, a: W, b: W) -> W {
        if a == b {
            match op {
                0 | 1 => return a,
                _ => {
                    let w = self.width(a);
                    return self.konst(w, 0);
                }
            }
        }
        if op == 0 {
            if let Some(r) = self.and_special(a, b) {
                return r;
            }
        }
        let (x, y) = (self.bits(a), self.bits(b));
        let r: Vec<B> = x
            .iter()
            .zip(y.iter())
            .map(|(p, q)| match op {
                0 => self.and(*p, *q),
                1 => self.or(*p, *q),
                _ => self.xor(*p, *q),
            })
            .collect();
        self.mk_bits(r)
    }
    fn and_special(&mut self, a: W, b: W) -> Option<W> {
        if self.as_const(a).is_some() || self.as_const(b).is_some() {
            // x & (2^k - 1) on sizes with no carries into the low part is handled by bits()
            return None;
        }
        for (x, y) in [(a, b), (b, a)] {
            // y = n - 1 with n a known power of two
            let one = self.konst(self.width(y), 1);
            if !matches!(self.words[y as usize].1, WN::Lin(..)) && !matches!(self.words[x as usize].1, WN::Lin(..)) {
                continue;
            }
            let n = self.add(y, one);
            if self.pow2.contains(&n) {
                if x == n {
                    return Some(self.konst(self.width(x), 0));
                }
                return Some(self.rem(x, n));
            }
            if n == x {
                let w = self.width(x);
                return Some(self.op_atom("and_pred", vec![x], w));
            }
        }
        None
    }
    pub fn wand(&mut self, a: W, b: W) -> W {
        self.bitop(0, a, b)
    }
    pub fn wor(&mut self, a: W, b: W) -> W {
        self.bitop(1, a, b)
    }
    pub fn wxor(&mut self, a: W, b: W) -> W {
        self.bitop(2, a, b)
    }
    pub fn wnot(&mut self, a: W) -> W {
        let w = self.width(a);
        let m = self.konst(w, mask(w));
        self.wxor(a, m)
    }
    pub fn shlk(&mut self, a: W, k: u8) -> W {
        let w = self.width(a);
        if k >= w {
            return self.konst(w, 0);
        }
        if let WN::Lin(..) = self.words[a as usize].1 {
            if self.to_z_size(a).is_some() {
                return self.mulk(a, 1u128 << k);
            }
        }
        let b = self.bits(a);
        let mut v = vec![F; k as usize];
        v.extend_from_slice(&b[..(w - k) as usize]);
        self.mk_bits(v)
    }
    pub fn shrk(&mut self, a: W, k: u8) -> W {
        let w = self.width(a);
        if k >= w {
            return self.konst(w, 0);
        }
        if let WN::Lin(..) = self.words[a as usize].1 {
            if let Some(z) = self.to_z_size(a) {
                if let Some((q, _)) = z.div_exact(1i128 << k) {
                    return self.from_z(&q, w);
                }
            }
        }
        let b = self.bits(a);
        let mut v = b[k as usize..].to_vec();
        v.resize(w as usize, F);
        self.mk_bits(v)
    }
    pub fn sark(&mut self, a: W, k: u8) -> W {
        let w = self.width(a);
        let b = self.bits(a);
        let top = b[w as usize - 1];
        let k = k.min(w);
        let mut v = b[k as usize..].to_vec();
        v.resize(w as usize, top);
        self.mk_bits(v)
    }
    pub fn rotlk(&mut self, a: W, k: u32) -> W {
        let w = self.width(a) as u32;
        let k = k % w;
        if k == 0 {
            return a;
        }
        let b = self.bits(a);
        let v: Vec<B> = (0..w).map(|i| b[((i + w - k) % w) as usize]).collect();
        self.mk_bits(v)
    }
    pub fn bswap(&mut self, a: W) -> W {
        let n = self.width(a) as usize / 8;
        let b = self.bits(a);
        let mut v = vec![];
        for i in (0..n).rev() {
            v.extend_from_slice(&b[i * 8..i * 8 + 8]);
        }
        self.mk_bits(v)
    }
    pub fn trunc(&mut self, a: W, w: u8) -> W {
        let ow = self.width(a);
        if ow == w {
            return a;
        }
        debug_assert!(w < ow);
        match self.words[a as usize].1.clone() {
            WN::Lin(c, t) => {
                let m = mask(w);
                let mut nt = vec![];
                let mut c = c & m;
                for (x, co) in t.iter() {
                    if co & m == 0 {
                        continue;
                    }
                    let tx = self.trunc(*x, w);
                    let (tc, tt) = self.lin(tx);
                    c = c.wrapping_add(tc.wrapping_mul(*co)) & m;
                    for (y, yc) in tt {
                        nt.push((y, yc.wrapping_mul(*co) & m));
                    }
                }
                self.mk_lin(w, c, nt)
            }
            WN::Bits(b) => self.mk_bits(b[..w as usize].to_vec()),
        }
    }
    pub fn zext(&mut self, a: W, w: u8) -> W {
        let ow = self.width(a);
        if ow == w {
            return a;
        }
        if let WN::Lin(..) = self.words[a as usize].1 {
            if let Some(z) = self.to_z_size(a) {
                return self.from_z(&z, w);
            }
        }
        if let Some(&r) = self.zext_cache.get(&(a, w)) {
            return r;
        }
        let mut v = self.bits(a).to_vec();
        v.resize(w as usize, F);
        let r = self.mk_bits(v);
        self.zext_cache.insert((a, w), r);
        r
    }
    pub fn sext(&mut self, a: W, w: u8) -> W {
        let mut v = self.bits(a).to_vec();
        let top = *v.last().unwrap();
        v.resize(w as usize, top);
        self.mk_bits(v)
    }
    pub fn cast(&mut self, a: W, w: u8, signed_src: bool) -> W {
        let ow = self.width(a);
        if w <= ow {
            self.trunc(a, w)
        } else if signed_src {
            self.sext(a, w)
        } else {
            self.zext(a, w)
        }
    }
    pub fn wite(&mut self, c: B, a: W, b: W) -> W {
        if c == T || a == b {
            return a;
        }
        if c == F {
            return b;
        }
        let (x, y) = (self.bits(a), self.bits(b));
        let r: Vec<B> = x.iter().zip(y.iter()).map(|(p, q)| self.ite(c, *p, *q)).collect();
        self.mk_bits(r)
    }
    pub fn rem(&mut self, a: W, n: W) -> W {
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(n)) {
            return self.konst(w, x % y);
        }
        if let Some(k) = self.as_const(n) {
            if k == 1 {
                return self.konst(w, 0);
            }
            if k.is_power_of_two() {
                let b = self.bits(a);
                let s = k.trailing_zeros() as usize;
                let mut v = b[..s].to_vec();
                v.resize(w as usize, F);
                return self.mk_bits(v);
            }
            if let Some(z) = self.to_z_size(a) {
                if let Some((_, r)) = z.div_exact(k as i128) {
                    return self.konst(w, r as u128);
                }
            }
        }
        if let (Some(za), Some(zn)) = (self.to_z_size(a), self.to_z_size(n)) {
            if self.prove_ge0(&zn.sub(&za).addk(-1)) {
                return a;
            }
        }
        let r = self.op_atom("rem", vec![a, n], w);
        // 0 <= r < n
        if let Some(zn) = self.to_z(n) {
            let f = zn.sub(&Z::var(self.zext(r, 64))).addk(-1);
            self.add_axiom(f);
        }
        r
    }
    fn add_axiom(&mut self, f: Z) {
        // axioms are facts that hold for every value of the atoms; keep them at the front
        if !self.facts.contains(&f) {
            self.facts.insert(0, f);
            self.bump();
        }
    }
    pub fn div(&mut self, a: W, n: W) -> W {
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(n)) {
            return self.konst(w, x / y);
        }
        if let Some(k) = self.as_const(n) {
            if k == 1 {
                return a;
            }
            if let Some(z) = self.to_z_size(a) {
                if let Some((q, _)) = z.div_exact(k as i128) {
                    return self.from_z(&q, w);
                }
            }
            if k.is_power_of_two() {
                return self.shrk(a, k.trailing_zeros() as u8);
            }
        }
        self.op_atom("div", vec![a, n], w)
    }

    // ------------------------------------------------------------------ sizes
    pub fn from_z(&mut self, z: &Z, w: u8) -> W {
        let m = mask(w);
        let mut t = vec![];
        let mut c = (z.c as u128) & m;
        for (x, co) in &z.t {
            let xw = self.width(*x);
            let tx = if xw > w { self.trunc(*x, w) } else { self.zext(*x, w) };
            let (tc, tt) = self.lin(tx);
            c = c.wrapping_add(tc.wrapping_mul(*co as u128)) & m;
            for (y, yc) in tt {
                t.push((y, yc.wrapping_mul(*co as u128) & m));
            }
        }
        self.mk_lin(w, c, t)
    }
    /// exact integer value of the word as a linear form
    pub fn to_z(&mut self, a: W) -> Option<Z> {
        if let Some(k) = self.as_const(a) {
            return Some(Z::k(k as i128));
        }
        let wd = self.width(a);
        if wd > 64 {
            return None;
        }
        match self.words[a as usize].1.clone() {
            WN::Bits(_) => {
                let (c, t) = self.lin(a);
                let mut v = Vec::with_capacity(t.len());
                for (x, co) in t {
                    v.push((self.zext_piece(x), co as i128));
                }
                Some(Z::of(c as i128, v))
            }
            WN::Lin(c, t) => {
                let half = 1u128 << (wd - 1);
                let full = 1i128 << wd;
                let sg = |x: u128| if x >= half { x as i128 - full } else { x as i128 };
                let mut v = Vec::with_capacity(t.len());
                for (x, co) in t.iter() {
                    v.push((self.zext_piece(*x), sg(*co)));
                }
                let z = Z::of(sg(c), v);
                if self.prove_ge0(&z) {
                    let up = Z::k(full - 1).sub(&z);
                    if self.prove_ge0(&up) {
                        return Some(z);
                    }
                }
                None
            }
        }
    }
    fn zext_piece(&mut self, x: W) -> W {
        if self.width(x) == 64 {
            return x;
        }
        let mut v = self.bits(x).to_vec();
        v.resize(64, F);
        self.intern(64, WN::Bits(v.into()))
    }
    /// exact, and built only from sizes
    pub fn to_z_size(&mut self, a: W) -> Option<Z> {
        if let Some(k) = self.as_const(a) {
            return Some(Z::k(k as i128));
        }
        let pieces: Vec<W> = match &self.words[a as usize].1 {
            WN::Lin(_, t) => t.iter().map(|x| x.0).collect(),
            _ => vec![],
        };
        if pieces.into_iter().any(|x| !self.is_size(x)) {
            return None;
        }
        let z = self.to_z(a)?;
        if z.t.iter().all(|x| self.is_size(x.0)) {
            Some(z)
        } else {
            None
        }
    }
    pub fn is_size(&mut self, w: W) -> bool {
        if let Some(&r) = self.size_ok.get(&w) {
            return r;
        }
        let r = if let WN::Bits(b) = &self.words[w as usize].1 {
            b.iter().all(|x| {
                *x < 2
                    || self.lit_of(*x).map_or(false, |v| matches!(self.atoms[self.vars[v as usize].0 as usize].k, AK::Size(_)))
            })
        } else {
            false
        };
        self.size_ok.insert(w, r);
        r
    }
    fn ub(&self, w: W) -> i128 {
        if let Some(m) = self.size_max.get(&w) {
            return *m;
        }
        if let WN::Bits(b) = &self.words[w as usize].1 {
            let n = b.iter().rposition(|x| *x != F).map(|x| x + 1).unwrap_or(0);
            (1i128 << n.min(100)) - 1
        } else {
            i128::MAX / 4
        }
    }
    pub fn bump(&mut self) {
        self.facts_ver = self.ver_next;
        self.ver_next += 1;
    }
    pub fn assume(&mut self, z: Z) {
        if z.t.is_empty() {
            return;
        }
        self.facts.push(z);
        self.bump();
    }
    pub fn mark(&self) -> Vec<Z> {
        self.facts.clone()
    }
    pub fn reset_to(&mut self, m: Vec<Z>) {
        if m != self.facts {
            self.facts = m;
            self.bump();
        }
    }
    /// z with the sizes the facts leave no choice for
    pub fn pinned(&self, z: &Z) -> Z {
        let mut r = z.clone();
        for (w, _) in &z.t {
            let (mut lo, mut hi) = (None, None);
            for f in self.facts.iter().filter(|f| f.t.len() == 1 && f.t[0].0 == *w) {
                let k = f.t[0].1;
                if k > 0 {
                    lo = lo.max(Some((-f.c + k - 1).div_euclid(k)));
                } else {
                    let h = f.c.div_euclid(-k);
                    hi = Some(hi.map_or(h, |x: i128| x.min(h)));
                }
            }
            if let (Some(l), true) = (lo, lo == hi) {
                r = r.subst(*w, &Z::k(l));
            }
        }
        r
    }
    fn interval_lb(&self, z: &Z) -> i128 {
        let mut s = z.c;
        for (w, c) in &z.t {
            if *c < 0 {
                s += c * self.ub(*w);
            }
        }
        s
    }
    pub fn prove_ge0(&mut self, z: &Z) -> bool {
        if z.t.is_empty() {
            return z.c >= 0;
        }
        if self.interval_lb(z) >= 0 {
            return true;
        }
        if self.facts.is_empty() {
            return false;
        }
        let key = (z.clone(), self.facts_ver);
        if let Some(&r) = self.prove_cache.get(&key) {
            return r;
        }
        let r = self.fm(z);
        self.prove_cache.insert(key, r);
        r
    }
    /// are the current facts contradictory?
    pub fn infeasible(&mut self) -> bool {
        self.fm(&Z::k(0).addk(0).sub(&Z::k(1))) // prove -1 >= 0
    }
    fn fm(&mut self, z: &Z) -> bool {
        // relevant variables: closure over facts
        let mut vars: Vec<W> = z.t.iter().map(|x| x.0).collect();
        let mut used = vec![false; self.facts.len()];
        let all = z.t.is_empty();
        loop {
            let mut ch = false;
            for (i, f) in self.facts.iter().enumerate() {
                if !used[i] && (all || f.t.iter().any(|x| vars.contains(&x.0))) {
                    used[i] = true;
                    ch = true;
                    for x in &f.t {
                        if !vars.contains(&x.0) {
                            vars.push(x.0);
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut cons: Vec<Z> = vec![];
        cons.push(z.mul(-1).addk(-1));
        for (i, f) in self.facts.iter().enumerate() {
            if used[i] {
                cons.push(f.clone());
            }
        }
        for v in &vars {
            cons.push(Z::var(*v));
            let u = self.ub(*v);
            if u < i128::MAX / 8 {
                cons.push(Z::var(*v).mul(-1).addk(u));
            }
        }
        let norm = |z: Z| -> Z {
            let mut g: i128 = 0;
            for (_, c) in &z.t {
                g = gcd(g, c.abs());
            }
            if g > 1 {
                Z { c: z.c.div_euclid(g), t: z.t.iter().map(|(w, c)| (*w, c / g)).collect() }
            } else {
                z
            }
        };
        let mut cons: Vec<Z> = cons.into_iter().map(norm).collect();
        while !vars.is_empty() {
            for c in &cons {
                if c.t.is_empty() && c.c < 0 {
                    return true;
                }
            }
            // choose var with least products
            let mut best = (usize::MAX, 0);
            for (i, v) in vars.iter().enumerate() {
                let p = cons.iter().filter(|c| c.coef(*v) > 0).count();
                let n = cons.iter().filter(|c| c.coef(*v) < 0).count();
                if p * n < best.0 {
                    best = (p * n, i);
                }
            }
            if best.0 > 4000 {
                return false;
            }
            let v = vars.swap_remove(best.1);
            let (mut pos, mut neg, mut rest) = (vec![], vec![], FxSet::default());
            for c in cons {
                let k = c.coef(v);
                if k > 0 {
                    pos.push((c, k));
                } else if k < 0 {
                    neg.push((c, -k));
                } else {
                    rest.insert(c);
                }
            }
            for (p, kp) in &pos {
                for (n, kn) in &neg {
                    let g = gcd(*kp, *kn);
                    let r = p.lin(kn / g, n, kp / g);
                    if r.t.is_empty() {
                        if r.c < 0 {
                            return true;
                        }
                        continue;
                    }
                    if r.c.abs() > (1i128 << 110) || r.t.iter().any(|x| x.1.abs() > (1i128 << 110)) {
                        continue;
                    }
                    rest.insert(norm(r));
                }
            }
            cons = rest.into_iter().collect();
            if cons.len() > 3000 {
                return false;
            }
        }
        cons.iter().any(|c| c.t.is_empty() && c.c < 0)
    }
    /// z >= 0 as a bit (decided if provable)
    pub fn ge0(&mut self, z: &Z) -> B {
        if self.prove_ge0(z) {
            return T;
        }
        let nz = z.mul(-1).addk(-1);
        if self.prove_ge0(&nz) {
            return F;
        }
        // canonical sign / gcd
        let mut g = 0;
        for (_, c) in &z.t {
            g = gcd(g, c.abs());
        }
        let zz = Z { c: z.c.div_euclid(g), t: z.t.iter().map(|(w, c)| (*w, c / g)).collect() };
        if zz.t[0].1 > 0 {
            let a = self.atom(AK::Ge0(zz), 1);
            let v = self.atoms[a as usize].var0;
            self.var(v)
        } else {
            let n = zz.mul(-1).addk(-1);
            let a = self.atom(AK::Ge0(n), 1);
            let v = self.atoms[a as usize].var0;
            let b = self.var(v);
            self.not(b)
        }
    }
    fn nonconst(&mut self, a: W) -> usize {
        self.bits(a).iter().filter(|b| **b > 1).count()
    }
    pub fn eq(&mut self, a: W, b: W) -> B {
        if a == b {
            return T;
        }
        let (ka, kb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return (x == y) as B;
        }
        let d = self.sub(a, b);
        if let Some(k) = self.as_const(d) {
            return (k == 0) as B;
        }
        if let (Some(za), Some(zb)) = (self.to_z_size(a), self.to_z_size(b)) {
            let z = za.sub(&zb);
            if let Some(k) = z.as_k() {
                return (k == 0) as B;
            }
            if self.prove_ge0(&z.addk(-1)) || self.prove_ge0(&z.mul(-1).addk(-1)) {
                return F;
            }
            let mut g = 0;
            for (_, c) in &z.t {
                g = gcd(g, c.abs());
            }
            if z.c % g != 0 {
                return F;
            }
            let x = self.ge0(&z);
            let y = self.ge0(&z.mul(-1));
            return self.and(x, y);
        }
        for (x, y) in [(a, kb), (b, ka)] {
            if let Some(k) = y {
                if k == 0 {
                    if let Some((AK::Op("and_pred", v), _)) = self.single_atom(x) {
                        return self.pred_atom("pow2_or_zero", v);
                    }
                }
                let bits = self.bits(x);
                let mut r = T;
                for (i, q) in bits.iter().enumerate().rev() {
                    let l = if (k >> i) & 1 == 1 { *q } else { self.not(*q) };
                    r = self.and(l, r);
                    if r == F {
                        return F;
                    }
                }
                return r;
            }
        }
        let x = self.wxor(a, b);
        let n = self.nonconst(x);
        let bits = self.bits(x);
        if bits.iter().any(|q| *q == T) {
            return F;
        }
        if n <= 2 {
            let mut r = T;
            for q in bits.iter() {
                let l = self.not(*q);
                r = self.and(r, l);
            }
            return r;
        }
        let (p, q) = if a < b { (a, b) } else { (b, a) };
        self.pred_atom("eq", vec![p, q])
    }
    pub fn single_atom(&self, w: W) -> Option<(AK, A)> {
        if let WN::Bits(b) = &self.words[w as usize].1 {
            let v = self.lit_of(b[0])?;
            let (a, bit) = self.vars[v as usize];
            if bit != 0 {
                return None;
            }
            let at = &self.atoms[a as usize];
            for (i, x) in b.iter().enumerate() {
                let want = if i < at.n as usize { self.lit_of(*x) == Some(at.var0 + i as u32) } else { *x == F };
                if !want {
                    return None;
                }
            }
            return Some((at.k.clone(), a));
        }
        None
    }
    pub fn ult(&mut self, a: W, b: W) -> B {
        if a == b {
            return F;
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return (x < y) as B;
        }
        let (za, zb) = (self.to_z(a), self.to_z(b));
        if let (Some(za), Some(zb)) = (&za, &zb) {
            let z = zb.sub(za).addk(-1);
            if self.prove_ge0(&z) {
                return T;
            }
            let nz = z.mul(-1).addk(-1);
            if self.prove_ge0(&nz) {
                return F;
            }
            if z.t.iter().all(|x| self.is_size(x.0)) {
                return self.ge0(&z);
            }
        }
        if self.as_const(a).is_some() || self.as_const(b).is_some() || self.nonconst(a) + self.nonconst(b) <= 10 {
            let (x, y) = (self.bits(a), self.bits(b));
            let mut r = F;
            for (p, q) in x.iter().zip(y.iter()) {
                // r = (!p & q) | (!(p^q) & r)
                let np = self.not(*p);
                let l = self.and(np, *q);
                let e = self.xor(*p, *q);
                r = self.ite(e, l, r);
            }
            return r;
        }
        self.pred_atom("ult", vec![a, b])
    }
    pub fn slt(&mut self, a: W, b: W) -> B {
        let w = self.width(a);
        let top = self.konst(w, 1u128 << (w - 1));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return ((x ^ (1 << (w - 1))) < (y ^ (1 << (w - 1)))) as B;
        }
        let (x, y) = (self.wxor(a, top), self.wxor(b, top));
        self.ult(x, y)
    }
    // ------------------------------------------------------------------ dependence
    pub fn sup_w(&mut self, w: W, s: &mut Sup) {
        if !s.words.insert(w) {
            return;
        }
        match self.words[w as usize].1.clone() {
            WN::Lin(_, t) => {
                for (x, _) in t.iter() {
                    self.sup_w(*x, s);
                }
            }
            WN::Bits(b) => {
                let mut vs = FxSet::default();
                for x in b.iter() {
                    self.bdd_vars(*x, &mut s.nodes, &mut vs);
                }
                self.sup_vars(vs, s);
            }
        }
    }
    pub fn sup_b(&mut self, b: B, s: &mut Sup) {
        let mut vs = FxSet::default();
        self.bdd_vars(b, &mut s.nodes, &mut vs);
        self.sup_vars(vs, s);
    }
    fn sup_vars(&mut self, vs: FxSet<u32>, s: &mut Sup) {
        let mut at: Vec<A> = vs.iter().map(|v| self.vars[*v as usize].0).collect();
        at.sort();
        at.dedup();
        for a in at {
            self.sup_a(a, s);
        }
    }
    pub fn sup_z(&mut self, z: &Z, s: &mut Sup) {
        for (w, _) in &z.t {
            self.sup_w(*w, s);
        }
    }
    pub fn sup_base(&mut self, b: u32, s: &mut Sup) {
        if !s.bases.insert(b) {
            return;
        }
        if let BaseK::App(_, args) = self.bases[b as usize].k.clone() {
            for k in args {
                match k {
                    crate::val::Key::W(w) => self.sup_w(w, s),
                    crate::val::Key::Seq(ps) => {
                        for p in ps.iter() {
                            match p {
                                crate::val::KP::El(ws) => {
                                    for w in ws.iter() {
                                        self.sup_w(*w, s);
                                    }
                                }
                                crate::val::KP::Sl(b, o, l) => {
                                    self.sup_base(*b, s);
                                    self.sup_z(o, s);
                                    self.sup_z(l, s);
                                }
                                crate::val::KP::Rep(w, l) => {
                                    self.sup_w(*w, s);
                                    self.sup_z(l, s);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    pub fn sup_a(&mut self, a: A, s: &mut Sup) {
        if !s.atoms.insert(a) {
            return;
        }
        match self.atoms[a as usize].k.clone() {
            AK::Elem(base, z) => {
                self.sup_z(&z, s);
                self.sup_base(base, s);
            }
            AK::Sum(w) | AK::Tab(_, w) | AK::Fun(_, w) => self.sup_w(w, s),
            AK::Op(_, ws) | AK::P(_, ws) => {
                for x in ws {
                    self.sup_w(x, s);
                }
            }
            AK::Ge0(z) => self.sup_z(&z, s),
            AK::Size(_) | AK::Free(_) => {}
            AK::Def(_, bs) => {
                for b in bs {
                    self.sup_b(b, s);
                }
            }
        }
    }
    pub fn secret(&self, s: &Sup) -> Option<String> {
        let mut v: Vec<String> = s
            .bases
            .iter()
            .filter_map(|b| match &self.bases[*b as usize].k {
                BaseK::Input(n, true) => Some(n.clone()),
                _ => None,
            })
            .collect();
        v.sort();
        v.into_iter().next()
    }
    pub fn has_free(&self, s: &Sup) -> bool {
        s.atoms.iter().any(|a| matches!(self.atoms[*a as usize].k, AK::Free(_))) || s.bases.iter().any(|b| matches!(self.bases[*b as usize].k, BaseK::Stream(_)))
    }
    /// decide comparison atoms of sizes under the current facts
    pub fn simp_bit(&mut self, b: B) -> B {
        if b < 2 {
            return b;
        }
        let (mut seen, mut vs) = (FxSet::default(), FxSet::default());
        self.bdd_vars(b, &mut seen, &mut vs);
        let mut r = b;
        for v in vs {
            let a = self.vars[v as usize].0;
            if let AK::Ge0(z) = self.atoms[a as usize].k.clone() {
                let val = if self.prove_ge0(&z) {
                    true
                } else if self.prove_ge0(&z.mul(-1).addk(-1)) {
                    false
                } else {
                    continue;
                };
                r = self.restrict(r, v, val, &mut FxMap::default());
            }
        }
        r
    }
    /// an undecided size comparison a bit depends on
    pub fn size_pred(&self, b: B) -> Option<Z> {
        let (mut seen, mut vs) = (FxSet::default(), FxSet::default());
        self.bdd_vars(b, &mut seen, &mut vs);
        let mut v: Vec<u32> = vs.into_iter().collect();
        v.sort();
        for x in v {
            if let AK::Ge0(z) = &self.atoms[self.vars[x as usize].0 as usize].k {
                return Some(z.clone());
            }
        }
        None
    }
    pub fn redo_op(&mut self, name: &'static str, ws: Vec<W>, n: u8) -> W {
        match name {
            "mul" => self.mul(ws[0], ws[1]),
            "rem" => self.rem(ws[0], ws[1]),
            "div" => self.div(ws[0], ws[1]),
            "ix" => self.ix(ws[0]),
            _ => self.op_atom(name, ws, n),
        }
    }
    /// an 8-bit table index as 8 independent variables
    pub fn ix(&mut self, w: W) -> W {
        if self.as_const(w).is_some() {
            return w;
        }
        let bits = self.bits(w);
        let mut vs: Vec<u32> = vec![];
        let mut plain = true;
        for b in bits.iter() {
            match self.lit_of(*b) {
                Some(v) if !vs.contains(&v) => vs.push(v),
                _ => plain = false,
            }
        }
        if plain {
            return w;
        }
        let n = self.width(w);
        self.op_atom("ix", vec![w], n)
    }
}
#[derive(Default)]
pub struct Sup {
    /// diagram nodes already looked at
    pub nodes: FxSet<B>,
    pub words: FxSet<W>,
    pub atoms: FxSet<A>,
    pub bases: FxSet<u32>,
}
pub fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
