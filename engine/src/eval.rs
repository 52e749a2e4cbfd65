//! Random interpretation of terms (Gulwani & Necula): every atom gets a pseudo-random value, two terms that denote
//! the same function agree on every assignment.  Used only after normal forms differ: a disagreement is a witness
//! that the two terms really differ, agreement everywhere keeps the analysis from raising an alarm.
use crate::fx::FxMap;
use crate::real;
use crate::term::*;
use crate::val::*;

pub struct Ev {
    pub seed: u64,
    /// 0: uniform, 1: all zero, 2: all ones, 3: sparse, 4: common beginnings
    pub mode: u8,
    pub sizes: FxMap<String, u128>,
    /// chosen bits of inputs: (base, index) -> (mask, value)
    pub forced: FxMap<(u32, i128), (u128, u128)>,
    mb: FxMap<B, bool>,
    mw: FxMap<W, u128>,
    ma: FxMap<A, u128>,
    /// entries of the tables above whose value could not be computed
    pb: FxMap<B, ()>,
    pw: FxMap<W, ()>,
    pa: FxMap<A, ()>,
    mapp: FxMap<u32, Def>,
    /// steps of recurrences evaluated so far
    pub work: u64,
    pub bad: bool,
}
/// a name of the specification applied to concrete arguments
enum Def {
    Fixed(Vec<u128>),
    Enc { aes: real::Aes, all: Vec<u8>, out: Vec<u8>, iv: Vec<u8> },
    Dec { aes: real::Aes, all: Vec<u8>, iv: Vec<u8> },
    Blocks { mac: real::Hmac, salt: Vec<u8>, c: u64, done: FxMap<u64, [u8; 32]> },
    /// not a name we know: an arbitrary function of the arguments
    Hash(u64),
}
pub const WORK: u64 = 6_000_000;
fn by(v: &[u128]) -> Vec<u8> {
    v.iter().map(|x| *x as u8).collect()
}
fn wide(v: &[u8]) -> Vec<u128> {
    v.iter().map(|x| *x as u128).collect()
}
fn wide32(v: &[u32]) -> Vec<u128> {
    v.iter().map(|x| *x as u128).collect()
}
fn mix(mut h: u64, x: u64) -> u64 {
    h ^= x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h = h.rotate_left(29).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    h ^= h >> 31;
    h = h.wrapping_mul(0x94D0_49BB_1331_11EB);
    h ^ (h >> 29)
}
fn hs(s: &str, seed: u64) -> u64 {
    s.bytes().fold(mix(seed, 77), |h, b| mix(h, b as u64))
}
impl Ev {
    pub fn new(seed: u64, mode: u8) -> Ev {
        Ev { seed, mode, sizes: Default::default(), forced: Default::default(), mb: Default::default(), mw: Default::default(), ma: Default::default(), pb: Default::default(), pw: Default::default(), pa: Default::default(), mapp: Default::default(), work: 0, bad: false }
    }
    /// choose sizes satisfying the facts
    pub fn choose_sizes(&mut self, cx: &Cx) -> bool {
        let mut names: Vec<(String, u8, W)> = vec![];
        for (i, a) in cx.atoms.iter().enumerate() {
            if let AK::Size(n) = &a.k {
                names.push((n.clone(), a.n, i as u32));
            }
        }
        // bounds of a size that the facts state about it alone
        let lo: Vec<u128> = names
            .iter()
            .map(|(_, _, a)| {
                let mut l = 0i128;
                for f in &cx.facts {
                    if f.t.len() == 1 && f.t[0].1 > 0 && cx.single_atom(f.t[0].0).map_or(false, |x| x.0 == cx.atoms[*a as usize].k) {
                        l = l.max((-f.c + f.t[0].1 - 1).div_euclid(f.t[0].1));
                    }
                }
                l.max(0) as u128
            })
            .collect();
        let cand: [u128; 24] = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 200, 256, 300];
        for t in 0..4000u64 {
            self.sizes.clear();
            self.mb.clear();
            self.mw.clear();
            self.ma.clear();
            self.pb.clear();
            self.pw.clear();
            self.pa.clear();
            self.mapp.clear();
            for (k, (n, nb, a)) in names.iter().enumerate() {
                let h = mix(mix(self.seed, t + 1), k as u64 + 13);
                let v = match mix(h, 77) % 7 {
                    0 => lo[k] + cand[(h % 24) as usize],
                    1 => lo[k] + ((h >> 20) as u128 % (1 << (1 + (h % 16)))),
                    // around a power of two, where narrowed counters differ
                    4 => (1u128 << (mix(h, 3) % 24)) + (h % 4) as u128,
                    2 | 5 => cand[(h % 24) as usize],
                    3 => (h >> 20) as u128 % (1 << (1 + (h % 12))),
                    // large values: a uniform bit length, so that narrowed or overflowing counters differ
                    _ => ((h as u128) | (1 << 63)) >> (mix(h, 3) % 64),
                };
                let v = v & mask(*nb);
                let v = match cx.atom_max.get(a) {
                    Some(m) if v > *m => v % (m + 1),
                    _ => v,
                };
                self.sizes.insert(n.clone(), v);
            }
            let facts = cx.facts.clone();
            self.bad = false;
            if facts.iter().all(|f| self.z(cx, f) >= 0) && cx.pow2.iter().all(|w| self.word(cx, *w).is_power_of_two()) && !self.bad {
                return true;
            }
        }
        false
    }
    /// values computed before inputs were chosen
    pub fn forget(&mut self) {
        self.mb.clear();
        self.mw.clear();
        self.ma.clear();
        self.pb.clear();
        self.pw.clear();
        self.pa.clear();
        self.mapp.clear();
        self.bad = false;
    }
    fn rnd(&self, h: u64, w: u8) -> u128 {
        match self.mode {
            1 => 0,
            2 => mask(w),
            3 => (1u128 << (h % w as u64)) & mask(w),
            _ => ((h as u128) | ((mix(h, 5) as u128) << 64)) & mask(w),
        }
    }
    pub fn bit(&mut self, cx: &Cx, b: B) -> bool {
        if b < 2 {
            return b == 1;
        }
        let mut x = b;
        let old = std::mem::replace(&mut self.bad, false);
        // walk down the diagram, no recursion on depth
        while x >= 2 {
            if let Some(&r) = self.mb.get(&x) {
                self.bad |= self.pb.contains_key(&x);
                x = r as u32;
                break;
            }
            let (v, lo, hi) = cx.node(x);
            let (a, i) = cx.vars[v as usize];
            let av = self.atom(cx, a);
            x = if (av >> i) & 1 == 1 { hi } else { lo };
        }
        self.mb.insert(b, x == 1);
        if self.bad {
            self.pb.insert(b, ());
        }
        self.bad |= old;
        x == 1
    }
    pub fn word(&mut self, cx: &Cx, w: W) -> u128 {
        if let Some(&v) = self.mw.get(&w) {
            self.bad |= self.pw.contains_key(&w);
            return v;
        }
        let old = std::mem::replace(&mut self.bad, false);
        let wd = cx.width(w);
        let v = match cx.node_of(w).clone() {
            WN::Bits(b) => {
                let mut v = 0u128;
                for (i, x) in b.iter().enumerate() {
                    if self.bit(cx, *x) {
                        v |= 1 << i;
                    }
                }
                v
            }
            WN::Lin(c, t) => {
                let mut v = c;
                for (x, k) in t.iter() {
                    v = v.wrapping_add(self.word(cx, *x).wrapping_mul(*k));
                }
                v & mask(wd)
            }
        };
        self.mw.insert(w, v);
        if self.bad {
            self.pw.insert(w, ());
        }
        self.bad |= old;
        v
    }
    pub fn z(&mut self, cx: &Cx, z: &Z) -> i128 {
        let mut r = z.c;
        for (w, c) in &z.t {
            r += c * self.word(cx, *w) as i128;
        }
        r
    }
    pub fn atom(&mut self, cx: &Cx, a: A) -> u128 {
        if let Some(&v) = self.ma.get(&a) {
            self.bad |= self.pa.contains_key(&a);
            return v;
        }
        let old = std::mem::replace(&mut self.bad, false);
        let n = cx.atoms[a as usize].n;
        let v = match cx.atoms[a as usize].k.clone() {
            AK::Elem(b, z) => {
                let i = self.z(cx, &z);
                self.elem(cx, b, i)
            }
            AK::Sum(w) => self.word(cx, w),
            AK::Tab(t, w) => {
                let i = self.word(cx, w);
                match cx.tables[t as usize].get(i as usize) {
                    Some(x) => *x,
                    None => {
                        self.bad = true;
                        0
                    }
                }
            }
            AK::Op(name, ws) => {
                let x: Vec<u128> = ws.iter().map(|w| self.word(cx, *w)).collect();
                match name {
                    "mul" => x[0].wrapping_mul(x[1]),
                    "rem" if x[1] != 0 => x[0] % x[1],
                    "div" if x[1] != 0 => x[0] / x[1],
                    "ix" | "sealed" => x[0],
                    "and_pred" => x[0] & x[0].wrapping_sub(1),
                    _ => {
                        self.bad = true;
                        0
                    }
                }
            }
            AK::P(name, ws) => {
                let x: Vec<u128> = ws.iter().map(|w| self.word(cx, *w)).collect();
                let w = cx.width(ws[0]);
                (match name {
                    "eq" => x[0] == x[1],
                    "ult" => x[0] < x[1],
                    "pow2_or_zero" => x[0] & x[0].wrapping_sub(1) == 0,
                    "mulovf" => x[0].checked_mul(x[1]).map_or(true, |p| p > mask(w)),
                    _ => {
                        self.bad = true;
                        false
                    }
                }) as u128
            }
            AK::Ge0(z) => (self.z(cx, &z) >= 0) as u128,
            AK::Size(s) => match self.sizes.get(&s) {
                Some(v) => *v,
                None => {
                    let h = hs(&s, self.seed);
                    let v = (h % 97) as u128 & mask(n);
                    self.sizes.insert(s, v);
                    v
                }
            },
            AK::Fun(tt, w) => {
                let x = self.word(cx, w) as usize;
                ((tt[x / 64] >> (x % 64)) & 1) as u128
            }
            AK::Def(op, bs) => {
                let x: Vec<bool> = bs.iter().map(|b| self.bit(cx, *b)).collect();
                (match op {
                    "and" => x[0] & x[1],
                    "or" => x[0] | x[1],
                    "xor" => x[0] ^ x[1],
                    _ => {
                        if x[0] {
                            x[1]
                        } else {
                            x[2]
                        }
                    }
                }) as u128
            }
            AK::Free(k) => self.rnd(mix(mix(self.seed, 991), k as u64), n),
        } & mask(n);
        self.ma.insert(a, v);
        if self.bad {
            self.pa.insert(a, ());
        }
        self.bad |= old;
        v
    }
    pub fn elem(&mut self, cx: &Cx, b: u32, i: i128) -> u128 {
        let d = &cx.bases[b as usize];
        match &d.k {
            BaseK::Input(s, _) => {
                let h = hs(s, self.seed);
                // inputs that resemble each other: the same contents up to a point
                let cut = [4, 8, 15, 16, 23, 24, 31, 32, 63, 64][(mix(self.seed, 6) % 10) as usize];
                let h = if self.mode == 4 && i < cut { mix(self.seed, 7) } else { h };
                let r = self.rnd(mix(h, i as u64), d.w);
                match self.forced.get(&(b, i)) {
                    Some((m, v)) => (r & !m) | v,
                    None => r,
                }
            }
            BaseK::Stream(k) => {
                let h = mix(mix(self.seed, 4242), *k as u64);
                self.rnd(mix(h, i as u64), d.w)
            }
            BaseK::App(name, args) => {
                if !self.mapp.contains_key(&b) {
                    let vs: Vec<Vec<u128>> = args.iter().map(|k| self.key(cx, k)).collect();
                    if self.bad {
                        return 0;
                    }
                    let def = match self.define(name, &vs) {
                        Some(x) => x,
                        None => {
                            let mut h = hs(name, 0x51ed);
                            for v in &vs {
                                h = mix(h, v.len() as u64);
                                for x in v {
                                    h = mix(mix(h, *x as u64), (*x >> 64) as u64);
                                }
                            }
                            Def::Hash(h)
                        }
                    };
                    self.mapp.insert(b, def);
                }
                if i < 0 {
                    self.bad = true;
                    return 0;
                }
                let i = i as usize;
                let mut work = self.work;
                let r = match self.mapp.get_mut(&b).unwrap() {
                    Def::Fixed(v) => v.get(i).cloned(),
                    Def::Hash(h) => {
                        let h = mix(*h, i as u64);
                        Some(((h as u128) | ((mix(h, 5) as u128) << 64)) & mask(d.w))
                    }
                    Def::Enc { aes, all, out, iv } => {
                        while out.len() <= i && out.len() + 16 <= all.len() && work < WORK {
                            let o = out.len();
                            let prev = if o == 0 { iv.clone() } else { out[o - 16..].to_vec() };
                            let x: Vec<u8> = (0..16).map(|k| prev[k] ^ all[o + k]).collect();
                            out.extend(aes.enc(&x));
                            work += 1;
                        }
                        out.get(i).map(|x| *x as u128)
                    }
                    Def::Dec { aes, all, iv } => {
                        let o = i / 16 * 16;
                        if o + 16 <= all.len() && work < WORK {
                            work += 1;
                            let x = aes.dec(&all[o..o + 16]);
                            let p = if o == 0 { iv[i] } else { all[i - 16] };
                            Some((x[i - o] ^ p) as u128)
                        } else {
                            None
                        }
                    }
                    Def::Blocks { mac, salt, c, done } => {
                        let j = (i / 32) as u64;
                        if !done.contains_key(&j) && *c >= 1 && work + *c < WORK {
                            let mut m = salt.clone();
                            m.extend((j as u32).wrapping_add(1).to_be_bytes());
                            done.insert(j, mac.steps(&m, *c - 1).1);
                            work += *c;
                        }
                        done.get(&j).map(|v| v[i % 32] as u128)
                    }
                };
                self.work = work;
                match r {
                    Some(x) => x,
                    None => {
                        self.bad = true;
                        0
                    }
                }
            }
        }
    }
    /// what the names abbreviate (None: arbitrary)
    fn define(&mut self, name: &str, a: &[Vec<u128>]) -> Option<Def> {
        let one = |k: usize| a[k][0] as u64;
        let steps = |s: &mut Ev, n: u64| -> bool {
            if n > WORK || s.work + n > WORK {
                s.bad = true;
                return false;
            }
            s.work += n;
            true
        };
        Some(match name {
            "sha_state" => Def::Fixed(wide32(&real::state(&by(&a[0])))),
            "sha256" => Def::Fixed(wide(&real::sha256(&by(&a[0])))),
            "hmac" => Def::Fixed(wide(&real::Hmac::new(&by(&a[0])).mac(&by(&a[1])))),
            "pbkdf2" => Def::Blocks { mac: real::Hmac::new(&by(&a[0])), salt: by(&a[1]), c: one(2), done: Default::default() },
            "pbkdf2_steps" => {
                if !steps(self, one(2)) {
                    return Some(Def::Fixed(vec![]));
                }
                let (u, t) = real::Hmac::new(&by(&a[0])).steps(&by(&a[1]), one(2));
                Def::Fixed(wide(&[u, t].concat()))
            }
            "salsa20" | "salsa20_rounds" if a[0].len() == 64 => {
                if !steps(self, one(1)) {
                    return Some(Def::Fixed(vec![]));
                }
                if name == "salsa20" {
                    Def::Fixed(wide(&real::salsa20(&by(&a[0]), one(1))))
                } else {
                    let mut x = real::salsa_words(&by(&a[0]));
                    real::double_rounds(&mut x, one(1));
                    Def::Fixed(wide32(&x))
                }
            }
            "aes_enc" | "aes_dec" if a.len() == 17 => {
                let aes = real::Aes::new(&by(&a[0]))?;
                let b: Vec<u8> = a[1..].iter().map(|x| x[0] as u8).collect();
                Def::Fixed(wide(&if name == "aes_enc" { aes.enc(&b) } else { aes.dec(&b) }))
            }
            "cbc_enc" | "cbc_dec" | "cbc_chain" => {
                let n = a.len() - if name == "cbc_chain" { 1 } else { 0 };
                let ws: Vec<u8> = a[1..n].iter().map(|x| x[0] as u8).collect();
                let (key, iv) = ws.split_at(ws.len() - 16);
                let aes = real::Aes::new(key)?;
                let (all, iv) = (by(&a[0]), iv.to_vec());
                match name {
                    "cbc_enc" => Def::Enc { aes, all, out: vec![], iv },
                    "cbc_dec" => Def::Dec { aes, all, iv },
                    _ => {
                        let m = one(n);
                        if m as usize > all.len() / 16 || !steps(self, m) {
                            self.bad = true;
                            return Some(Def::Fixed(vec![]));
                        }
                        let mut c = iv;
                        for j in 0..m as usize {
                            let x: Vec<u8> = (0..16).map(|k| c[k] ^ all[16 * j + k]).collect();
                            c = aes.enc(&x).to_vec();
                        }
                        Def::Fixed(wide(&c))
                    }
                }
            }
            _ => return None,
        })
    }
    pub fn key(&mut self, cx: &Cx, k: &Key) -> Vec<u128> {
        match k {
            Key::W(w) => vec![self.word(cx, *w)],
            Key::Seq(s) => {
                let mut out = vec![];
                for p in s.iter() {
                    match p {
                        KP::El(ws) => {
                            for w in ws.iter() {
                                out.push(self.word(cx, *w));
                            }
                        }
                        KP::Sl(b, o, l) => {
                            let (o, l) = (self.z(cx, o), self.z(cx, l));
                            if l > 1 << 22 {
                                self.bad = true;
                                continue;
                            }
                            for i in 0..l {
                                out.push(self.elem(cx, *b, o + i));
                            }
                        }
                        KP::Rep(w, l) => {
                            let l = self.z(cx, l);
                            if l > 1 << 22 {
                                self.bad = true;
                                continue;
                            }
                            let v = self.word(cx, *w);
                            for _ in 0..l {
                                out.push(v);
                            }
                        }
                    }
                }
                out
            }
        }
    }
    /// concrete contents of a sequence of scalars
    pub fn seq(&mut self, cx: &mut Cx, s: &[P]) -> Option<Vec<u128>> {
        let r = self.contents(cx, s);
        self.work += r.as_ref().map_or(0, |v| v.len() as u64 / 3);
        r
    }
    fn contents(&mut self, cx: &mut Cx, s: &[P]) -> Option<Vec<u128>> {
        let mut out = vec![];
        for p in s {
            match p {
                P::El(v) => {
                    for x in v.iter() {
                        match x {
                            V::W(w) => out.push(self.word(cx, *w)),
                            _ => return None,
                        }
                    }
                }
                P::Sl(b, o, l) => {
                    let (o, l) = (self.z(cx, o), self.z(cx, l));
                    if l > 1 << 22 {
                        return None;
                    }
                    for i in 0..l {
                        out.push(self.elem(cx, *b, o + i));
                    }
                }
                P::Rep(v, l) => {
                    let l = self.z(cx, l);
                    let x = match &**v {
                        V::W(w) => self.word(cx, *w),
                        _ => return None,
                    };
                    if l > 1 << 22 {
                        return None;
                    }
                    for _ in 0..l {
                        out.push(x);
                    }
                }
                P::Gen(l, w, t) => {
                    let l = self.z(cx, l);
                    if l > 4096 {
                        return None;
                    }
                    for i in 0..l {
                        let mut sb = Subst::new(*w, Z::k(i));
                        match sb.v(cx, t) {
                            V::W(x) => out.push(self.word(cx, x)),
                            _ => return None,
                        }
                    }
                }
            }
        }
        Some(out)
    }
}
