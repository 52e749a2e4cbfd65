//! Obligations: what a job proves, how partitions are refined, how verdicts are reached.
use crate::eval::Ev;
use crate::fx::{FxMap, FxSet};
use crate::interp::*;
use crate::mir::*;
use crate::term::*;
use crate::val::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Ok,
    Violated(String),
    Undecided(String),
}
#[derive(Clone, Debug)]
pub struct Ob {
    pub what: String,
    pub v: Verdict,
}
#[derive(Clone, Debug, Default)]
pub struct JobOut {
    pub lemma: String,
    pub part: String,
    pub obs: Vec<Ob>,
    pub partitions: usize,
    pub panics: Vec<(String, String, bool)>,
    pub leaks: Vec<(String, String, String)>,
    pub funs: FxSet<usize>,
    pub stmts: u64,
    pub calls: u64,
    pub joins: u64,
    pub asserts: u64,
    pub summarised: u64,
    pub blocks: usize,
    pub secs: f64,
}
pub type RunFn = Box<dyn Fn(&mut H) -> R<()> + Send + Sync>;
pub struct Job {
    pub lemma: &'static str,
    pub part: String,
    pub run: RunFn,
    pub max_split: usize,
}
/// time a job may spend on the search for witnesses
const WITNESS_SECS: f64 = 120.0;
pub fn job(lemma: &'static str, part: impl Into<String>, run: impl Fn(&mut H) -> R<()> + Send + Sync + 'static) -> Job {
    Job { lemma, part: part.into(), run: Box::new(run), max_split: 400 }
}
/// a job whose partitions were already decided by the caller
pub struct H<'p> {
    pub i: In<'p>,
    pub obs: Vec<Ob>,
    /// treat primitives by their contracts (true) or analyse them inline (false)
    pub modular: bool,
    base_facts: Vec<Z>,
    /// bounds of sizes that the case distinctions imply
    narrow: FxMap<String, i128>,
    in_part: bool,
    pub note: String,
    /// panics are expected (and ignored) in this job
    pub panics_ok: bool,
    /// words whose values depend on state that is not tracked
    unknown: FxMap<Vec<W>, bool>,
    /// seconds spent in the search for witnesses
    tried: f64,
    /// assignments tried in search of a difference
    pub draws: u64,
}
impl<'p> H<'p> {
    pub fn new(p: &'p Prog, modular: bool) -> H<'p> {
        H { i: In::new(p), obs: vec![], modular, base_facts: vec![], narrow: Default::default(), in_part: false, note: String::new(), panics_ok: false, draws: 48, unknown: Default::default(), tried: 0.0 }
    }
    pub fn f(&self, n: &str) -> R<usize> {
        match self.i.p.by_name.get(n) {
            Some(f) => Ok(*f),
            None => uns(format!("missing function {}", n)),
        }
    }
    /// a runtime size in lo..=hi
    pub fn size(&mut self, name: &str, lo: i128, hi: i128) -> Z {
        let nb = (128 - (hi as u128).leading_zeros()).max(1) as u8;
        if let Some(m) = self.narrow.get(name).cloned() {
            let z = self.i.cx.size_upto(name, m);
            if lo > 0 {
                self.fact(z.addk(-lo));
            }
            self.fact(z.mul(-1).addk(m));
            return z;
        }
        let w = self.i.cx.size(name, nb);
        let z = Z::var(w);
        if lo > 0 {
            self.fact(z.addk(-lo));
        }
        if (hi as u128) < mask(nb) {
            self.fact(z.mul(-1).addk(hi));
        }
        z
    }
    pub fn fact(&mut self, z: Z) {
        if !self.i.cx.facts.contains(&z) {
            self.i.cx.assume(z);
        }
    }
    pub fn bytes(&mut self, name: &str, secret: bool) -> u32 {
        self.i.cx.input(name, 8, secret)
    }
    /// reference to fresh memory holding the value
    pub fn mem(&mut self, v: V) -> V {
        V::Ref(self.i.alloc(v))
    }
    /// reference to an immutable slice with these contents
    pub fn slice(&mut self, s: Vec<P>) -> V {
        let n = seq_len(&s);
        let p = self.i.alloc(V::Seq(std::rc::Rc::new(s)));
        crate::native::sub(&p, &Z::k(0), &n)
    }
    pub fn call(&mut self, n: &str, args: Vec<V>) -> R<V> {
        let f = self.f(n)?;
        match self.i.call(f, args)? {
            Some(v) => Ok(v),
            None => Err(E::Unsupported(format!("{} always panics here", n))),
        }
    }
    /// Some(v), or None when every path panics
    pub fn try_call(&mut self, n: &str, args: Vec<V>) -> R<Option<V>> {
        let f = self.f(n)?;
        self.i.call(f, args)
    }
    pub fn ok(&mut self, what: impl Into<String>) {
        self.obs.push(Ob { what: what.into(), v: Verdict::Ok });
    }
    pub fn bad(&mut self, what: impl Into<String>, why: impl Into<String>) {
        self.obs.push(Ob { what: what.into(), v: Verdict::Violated(why.into()) });
    }
    pub fn undecided(&mut self, what: impl Into<String>, why: impl Into<String>) {
        self.obs.push(Ob { what: what.into(), v: Verdict::Undecided(why.into()) });
    }
    pub fn expect(&mut self, what: &str, got: &V, want: &V) -> R<bool> {
        let v = self.compare(T, got, want)?;
        let ok = v == Verdict::Ok;
        self.obs.push(Ob { what: what.to_string(), v });
        Ok(ok)
    }
    pub fn verdict(&mut self, what: &str, v: Verdict) {
        self.obs.push(Ob { what: what.to_string(), v });
    }
    pub fn expect_seq(&mut self, what: &str, got: &[P], want: &[P]) -> R<bool> {
        let (a, b) = (V::Seq(std::rc::Rc::new(got.to_vec())), V::Seq(std::rc::Rc::new(want.to_vec())));
        self.expect(what, &a, &b)
    }
    /// compare two values under a guard and the path condition
    pub fn compare(&mut self, g: B, got: &V, want: &V) -> R<Verdict> {
        if same(&mut self.i.cx, got, want) {
            return Ok(Verdict::Ok);
        }
        let mut diffs: Vec<Diff> = vec![];
        let g = self.i.cx.and(g, self.i.st.pc);
        self.diff(g, got, want, "", &mut diffs)?;
        if diffs.is_empty() {
            return Ok(Verdict::Ok);
        }
        Ok(self.refute(&diffs))
    }
    fn diff(&mut self, g: B, a: &V, b: &V, path: &str, out: &mut Vec<Diff>) -> R<()> {
        if g == F || out.len() > 40 || same(&mut self.i.cx, a, b) {
            return Ok(());
        }
        match (a, b) {
            (V::Ite(c, x, y), _) => {
                let g1 = self.i.cx.and(g, *c);
                let nc = self.i.cx.not(*c);
                let g0 = self.i.cx.and(g, nc);
                self.diff(g1, x, b, path, out)?;
                self.diff(g0, y, b, path, out)
            }
            (_, V::Ite(c, x, y)) => {
                let g1 = self.i.cx.and(g, *c);
                let nc = self.i.cx.not(*c);
                let g0 = self.i.cx.and(g, nc);
                self.diff(g1, a, x, path, out)?;
                self.diff(g0, a, y, path, out)
            }
            (V::W(x), V::W(y)) => {
                if self.i.cx.width(*x) != self.i.cx.width(*y) {
                    out.push(Diff::Shape(path.to_string(), g));
                    return Ok(());
                }
                let z = self.i.cx.konst(self.i.cx.width(*x), 0);
                let (p, q) = if g == T {
                    (*x, *y)
                } else {
                    (self.i.cx.wite(g, *x, z), self.i.cx.wite(g, *y, z))
                };
                if p != q {
                    if std::env::var("ENGINE_EXPLAIN").is_ok() && out.is_empty() {
                        eprintln!("{}", explain(&mut self.i.cx, p, q, 0));
                    }
                    out.push(Diff::Word(path.to_string(), g, *x, *y));
                }
                Ok(())
            }
            (V::Agg(x), V::Agg(y)) | (V::Gh(_, x), V::Gh(_, y)) => {
                if x.len() != y.len() {
                    out.push(Diff::Shape(path.to_string(), g));
                    return Ok(());
                }
                for (k, (p, q)) in x.iter().zip(y.iter()).enumerate() {
                    self.diff(g, p, q, &format!("{}.{}", path, k), out)?;
                }
                Ok(())
            }
            (V::En(d, x), V::En(e, y)) => {
                self.diff(g, &V::W(*d), &V::W(*e), &format!("{}.variant", path), out)?;
                for k in 0..x.len().min(y.len()) {
                    let kw = self.i.cx.konst(self.i.cx.width(*d), k as u128);
                    let c1 = self.i.cx.eq(*d, kw);
                    let kw2 = self.i.cx.konst(self.i.cx.width(*e), k as u128);
                    let c2 = self.i.cx.eq(*e, kw2);
                    let c = self.i.cx.and(c1, c2);
                    let c = self.i.cx.and(c, g);
                    if c == F {
                        continue;
                    }
                    if x[k].len() != y[k].len() {
                        out.push(Diff::Shape(path.to_string(), c));
                        continue;
                    }
                    for (m, (p, q)) in x[k].iter().zip(y[k].iter()).enumerate() {
                        self.diff(c, p, q, &format!("{}.{}", path, m), out)?;
                    }
                }
                Ok(())
            }
            (V::Seq(x), V::Seq(y)) => {
                let (lx, ly) = (seq_len(x), seq_len(y));
                if lx == ly {
                    if let (Some(p), Some(q)) = (all_vals(&mut self.i.cx, x), all_vals(&mut self.i.cx, y)) {
                        if p.len() == q.len() {
                            for (k, (u, v)) in p.iter().zip(q.iter()).enumerate() {
                                self.diff(g, u, v, &format!("{}[{}]", path, k), out)?;
                            }
                            return Ok(());
                        }
                    }
                }
                // lengths that the case distinctions have determined
                let (tx, ty) = (self.tidy(x), self.tidy(y));
                if same(&mut self.i.cx, &V::Seq(std::rc::Rc::new(tx)), &V::Seq(std::rc::Rc::new(ty))) {
                    return Ok(());
                }
                if std::env::var("ENGINE_EXPLAIN").is_ok() {
                    eprintln!("{:.500}\n{:.500}", format!("{:?}", self.tidy(x)), format!("{:?}", self.tidy(y)));
                    for (p, q) in self.tidy(x).iter().zip(self.tidy(y).iter()) {
                        if let (P::El(p), P::El(q)) = (p, q) {
                            if let (V::W(p), V::W(q)) = (&p[0], &q[0]) {
                                eprintln!("{:.3000}", explain(&mut self.i.cx, *p, *q, 0));
                            }
                        }
                    }
                }
                out.push(Diff::Seq(path.to_string(), g, a.clone(), b.clone()));
                Ok(())
            }
            (V::Ref(p), V::Ref(q)) => {
                let (x, y) = (self.i.read(p)?, self.i.read(q)?);
                self.diff(g, &x, &y, path, out)
            }
            (V::Fn(_), _) | (_, V::Fn(_)) => {
                out.push(Diff::Shape(path.to_string(), g));
                Ok(())
            }
            _ => uns(format!("comparison of {} and {}", short(a), short(b))),
        }
    }
    fn tidy(&mut self, s: &[P]) -> Vec<P> {
        let mut out: Vec<P> = vec![];
        for p in s {
            let q = match p {
                P::Sl(b, o, l) => P::Sl(*b, self.pinned(o), self.pinned(l)),
                P::Rep(v, l) => P::Rep(v.clone(), self.pinned(l)),
                p => p.clone(),
            };
            if let P::Sl(_, _, l) | P::Rep(_, l) = &q {
                if l.as_k() == Some(0) {
                    continue;
                }
            }
            out = seq_cat(&mut self.i.cx, &out, &[q]);
        }
        out
    }
    fn sizes_of(&self, ev: &Ev) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        for (k, v) in &ev.sizes {
            let n = k.split(" <= ").next().unwrap();
            let cur = self.narrow.get(n).map_or(n.to_string(), |m| format!("{} <= {}", n, m));
            if !k.starts_with("iterations of") && *k == cur {
                out.push(format!("{}={}", n, v));
            }
        }
        out.sort();
        out
    }
    pub fn pinned(&mut self, z: &Z) -> Z {
        self.i.cx.pinned(z)
    }
    /// random interpretation: a witness of a real difference, or no verdict
    fn refute(&mut self, diffs: &[Diff]) -> Verdict {
        let mut tried = 0;
        let mut why = String::new();
        let mut spent = 0;
        // (nothing was found so far: further differences of the same job get less and less time)
        let t0 = std::time::Instant::now();
        let share = (WITNESS_SECS - self.tried).max(2.0) / 2.0;
        for seed in 0..self.draws {
            let mut ev = Ev::new(seed * 7919 + 17, [0, 0, 0, 3, 1, 2, 0, 4, 4, 3, 4, 0][(seed % 12) as usize]);
            if spent > crate::eval::WORK || t0.elapsed().as_secs_f64() > share {
                break;
            }
            if !ev.choose_sizes(&self.i.cx) {
                why = "no assignment of the sizes found".into();
                continue;
            }
            tried += 1;
            if let Some(v) = self.witness(&mut ev, diffs, &format!("#{}", seed), &mut why) {
                return v;
            }
            spent += ev.work;
        }
        if let Some(v) = if self.draws > 0 { self.directed(diffs, &mut why, share) } else { None } {
            return v;
        }
        self.tried += t0.elapsed().as_secs_f64();
        let first = match &diffs[0] {
            Diff::Shape(p, _) => format!("shape{}", p),
            Diff::Word(p, _, _, _) | Diff::Seq(p, _, _, _) => format!("value{}", p),
        };
        Verdict::Undecided(format!("{}: normal forms differ at {} places, no difference found under {} assignments {}", first, diffs.len(), tried, why))
    }
    /// does the assignment tell the values apart?
    fn witness(&mut self, ev: &mut Ev, diffs: &[Diff], label: &str, why: &mut String) -> Option<Verdict> {
        for d in diffs {
            ev.bad = false;
            let g = match d {
                Diff::Shape(_, g) | Diff::Word(_, g, _, _) | Diff::Seq(_, g, _, _) => *g,
            };
            if !ev.bit(&self.i.cx, g) || ev.bad {
                continue;
            }
            match d {
                Diff::Shape(p, _) => return Some(Verdict::Violated(format!("value{} has a different shape", p))),
                Diff::Word(p, _, x, y) => {
                    let (u, v) = (ev.word(&self.i.cx, *x), ev.word(&self.i.cx, *y));
                    if u != v && !ev.bad {
                        if self.depends_on_unknown(&[*x, *y]) {
                            *why = format!("value{} depends on a state component the analysis does not track", p);
                            continue;
                        }
                        let sz = self.sizes_of(ev);
                        return Some(Verdict::Violated(format!("value{} differs from the specified value ({:#x} instead of {:#x} under the assignment {} {})", p, u, v, label, sz.join(" "))));
                    }
                }
                Diff::Seq(p, _, a, b) => {
                    if let (V::Seq(x), V::Seq(y)) = (a, b) {
                        let (u, v) = (ev.seq(&mut self.i.cx, x), ev.seq(&mut self.i.cx, y));
                        if let (Some(u), Some(v)) = (u, v) {
                            if u != v && !ev.bad {
                                let (mut ws, mut open) = (vec![], false);
                                seq_words(x, &mut ws, &mut open);
                                seq_words(y, &mut ws, &mut open);
                                if open || self.depends_on_unknown(&ws) {
                                    *why = format!("sequence{} depends on a state component the analysis does not track", p);
                                    continue;
                                }
                                let k = u.iter().zip(v.iter()).position(|(a, b)| a != b);
                                let sz = self.sizes_of(ev);
                                let how = if u.len() != v.len() { format!("length {} instead of {}", u.len(), v.len()) } else { format!("first difference at index {:?}", k) };
                                return Some(Verdict::Violated(format!("sequence{} differs from the specified one ({}; {})", p, how, sz.join(" "))));
                            }
                        }
                    }
                }
            }
        }
        None
    }
    /// inputs chosen so that a condition telling the values apart holds
    fn directed(&mut self, diffs: &[Diff], why: &mut String, secs: f64) -> Option<Verdict> {
        let mut pairs: Vec<(B, W, W)> = vec![];
        let mut goals: Vec<B> = vec![];
        for d in diffs.iter().take(24) {
            match d {
                Diff::Shape(_, g) => goals.push(*g),
                Diff::Word(_, g, x, y) => pairs.push((*g, *x, *y)),
                Diff::Seq(_, g, a, b) => {
                    if let (V::Seq(a), V::Seq(b)) = (a, b) {
                        let (mut p, mut q) = (vec![], vec![]);
                        let mut open = false;
                        seq_words(a, &mut p, &mut open);
                        seq_words(b, &mut q, &mut open);
                        for k in 0..p.len().min(q.len()).min(64) {
                            if p[k] != q[k] && self.i.cx.width(p[k]) == self.i.cx.width(q[k]) {
                                pairs.push((*g, p[k], q[k]));
                            }
                        }
                    }
                }
            }
        }
        let t0 = std::time::Instant::now();
        let (xs, ys): (Vec<W>, Vec<W>) = pairs.iter().take(4).map(|p| (p.1, p.2)).unzip();
        let t = crate::solve::twins(&mut self.i.cx, &xs, &ys, 1);
        for (x, y) in t.into_iter().take(24) {
            goals.push(crate::solve::differ(&mut self.i.cx, x, y));
        }
        for (g, x, y) in pairs.iter().take(24) {
            let d = crate::solve::differ(&mut self.i.cx, *x, *y);
            let d = self.i.cx.and(d, *g);
            goals.push(d);
        }
        goals.retain(|g| *g != F);
        let mut seen = FxSet::default();
        goals.retain(|g| seen.insert(*g));
        let mut rng = 0x9E37_79B9_7F4A_7C15u64;
        let mut spent = 0;
        let most = self.i.cx.stats().0 + 12_000_000;
        for round in 0..6 {
            for g in &goals {
                if self.i.cx.stats().0 > most || t0.elapsed().as_secs_f64() > secs {
                    return None;
                }
                let mut ev = Ev::new(round * 104_729 + 3, 0);
                if spent > crate::eval::WORK || !ev.choose_sizes(&self.i.cx) {
                    continue;
                }
                if crate::solve::solve(&mut self.i.cx, &mut ev, *g, &mut rng) {
                    if let Some(v) = self.witness(&mut ev, diffs, &format!("chosen for a condition in the code, #{}", round), why) {
                        return Some(v);
                    }
                }
                spent += ev.work;
            }
        }
        None
    }
    fn depends_on_unknown(&mut self, ws: &[W]) -> bool {
        let key = ws.to_vec();
        if let Some(r) = self.unknown.get(&key) {
            return *r;
        }
        let mut s = Sup::default();
        for w in ws {
            self.i.cx.sup_w(*w, &mut s);
        }
        let r = self.i.cx.has_free(&s);
        self.unknown.insert(key, r);
        r
    }
}
enum Diff {
    Shape(String, B),
    Word(String, B, W, W),
    Seq(String, B, V, V),
}
/// the words a sequence is made of
fn seq_words(s: &[P], out: &mut Vec<W>, open: &mut bool) {
    let z = |z: &Z, out: &mut Vec<W>| out.extend(z.t.iter().map(|t| t.0));
    let v = |x: &V, out: &mut Vec<W>, open: &mut bool| match x {
        V::W(w) => out.push(*w),
        _ => *open = true,
    };
    for p in s {
        match p {
            P::El(e) => e.iter().for_each(|x| v(x, out, open)),
            P::Sl(_, o, l) => {
                z(o, out);
                z(l, out);
            }
            P::Rep(x, l) => {
                v(x, out, open);
                z(l, out);
            }
            P::Gen(l, _, x) => {
                z(l, out);
                v(x, out, open);
            }
        }
    }
}
pub fn all_vals(cx: &mut Cx, s: &[P]) -> Option<Vec<V>> {
    let mut out = vec![];
    for p in s {
        match p {
            P::El(v) => out.extend(v.iter().cloned()),
            P::Sl(b, o, l) => {
                let k = l.as_k()?;
                if k > 1 << 16 {
                    return None;
                }
                for i in 0..k {
                    let w = cx.elem(*b, &o.addk(i));
                    out.push(V::W(w));
                }
            }
            P::Rep(v, l) => {
                let k = l.as_k()?;
                for _ in 0..k {
                    out.push((**v).clone());
                }
            }
            P::Gen(..) => return None,
        }
    }
    Some(out)
}

/// run a job to completion over its partitions
pub fn run_job(p: &Prog, j: &Job) -> JobOut {
    let t0 = std::time::Instant::now();
    let mut out = JobOut { lemma: j.lemma.to_string(), part: j.part.clone(), ..Default::default() };
    for modular in [true, false] {
        let mut h = H::new(p, modular);
        let r = explore(j, &mut h, &mut out);
        out.panics.extend(h.i.panics.iter().map(|e| (e.at.clone(), e.what.clone(), e.definite)));
        for l in &h.i.leaks {
            if !out.leaks.contains(l) {
                out.leaks.push(l.clone());
            }
        }
        out.funs.extend(h.i.stats.funs.iter());
        out.stmts += h.i.stats.stmts;
        out.calls += h.i.stats.calls;
        out.joins += h.i.stats.joins;
        out.asserts += h.i.stats.asserts;
        out.summarised += h.i.stats.loops_summarised;
        out.blocks += h.i.stats.blocks.len();
        match r {
            Ok(obs) => {
                out.obs = obs;
                break;
            }
            Err(e) => {
                if std::env::var("ENGINE_DEBUG").is_ok() {
                    eprintln!("{} [{}] modular={}: {}", j.lemma, j.part, modular, e);
                }
                // modular analysis failed: analyse the primitives inline instead
                out.obs = vec![Ob { what: "analysis".into(), v: Verdict::Undecided(e) }];
                if modular {
                    out.panics.retain(|x| x.2);
                }
            }
        }
    }
    out.secs = t0.elapsed().as_secs_f64();
    out
}
/// sizes with an upper bound become sizes of that range, so that the values computed from them are known to be short
fn narrowed(h: &mut H, mut facts: Vec<Z>) -> Vec<Z> {
    h.narrow.clear();
    let mut old: Vec<(W, String)> = vec![];
    for f in &facts {
        for (w, c) in &f.t {
            if let Some((AK::Size(n), _)) = h.i.cx.single_atom(*w) {
                let n = n.split(" <= ").next().unwrap().to_string();
                if f.t.len() == 1 && *c < 0 && f.c >= 0 {
                    let hi = f.c.div_euclid(-c);
                    let m = h.narrow.entry(n.clone()).or_insert(hi);
                    *m = hi.min(*m);
                }
                old.push((*w, n));
            }
        }
    }
    for (w, n) in old {
        if let Some(m) = h.narrow.get(&n) {
            let z = h.i.cx.size_upto(&n, *m);
            for f in facts.iter_mut() {
                *f = f.subst(w, &z);
            }
        }
    }
    facts
}
fn explore(j: &Job, h: &mut H, out: &mut JobOut) -> Result<Vec<Ob>, String> {
    let mut todo: Vec<Vec<Z>> = vec![vec![]];
    let mut obs = vec![];
    let mut n = 0;
    while let Some(facts) = todo.pop() {
        let facts = narrowed(h, facts);
        h.i.cx.reset_to(facts.clone());
        h.i.st = crate::interp::St { mem: vec![], heap: vec![], pc: T };
        h.i.stack.clear();
        h.i.want_snaps = false;
        h.i.loop_ctx = Default::default();
        h.i.depth = facts.len();
        h.i.budget = 0;
        h.draws = 48;
        h.obs.clear();
        h.note.clear();
        let np = h.i.panics.len();
        match (j.run)(h) {
            Ok(()) => {
                out.partitions += 1;
                if std::env::var("ENGINE_SPLITS").is_ok() {
                    let fs: Vec<String> = facts.iter().map(|f| show_z(&h.i.cx, f)).collect();
                    eprintln!("analysed {:?}: {:?}", fs, h.obs.iter().find(|o| o.v != Verdict::Ok));
                }
                obs.append(&mut h.obs);
                if obs.iter().any(|o: &Ob| matches!(o.v, Verdict::Violated(_))) {
                    return Ok(obs);
                }
            }
            Err(E::Split(z)) => {
                h.i.panics.truncate(np);
                n += 1;
                if std::env::var("ENGINE_SPLITS").is_ok() {
                    let fs: Vec<String> = facts.iter().map(|f| show_z(&h.i.cx, f)).collect();
                    eprintln!("split on {} given {:?}", show_z(&h.i.cx, &z), fs);
                }
                if n > j.max_split && obs.iter().any(|o: &Ob| matches!(o.v, Verdict::Violated(_))) {
                    return Ok(obs);
                }
                if n > j.max_split {
                    return Err(format!("too many partitions (last split on {})", show_z(&h.i.cx, &z)));
                }
                // small sizes are explored first
                let (z, nz) = (z.clone(), z.mul(-1).addk(-1));
                let big = z.t.iter().map(|x| x.1).sum::<i128>() > 0;
                for x in if big { [z, nz] } else { [nz, z] } {
                    let mut f = facts.clone();
                    f.push(x);
                    // drop empty partitions (the job's own size bounds are re-assumed when it runs)
                    let keep = h.i.cx.mark();
                    let mut all = keep.clone();
                    for y in &f {
                        if !all.contains(y) {
                            all.push(y.clone());
                        }
                    }
                    h.i.cx.reset_to(all);
                    let inf = h.i.cx.infeasible();
                    h.i.cx.reset_to(keep);
                    if !inf {
                        todo.push(f);
                    }
                }
            }
            Err(E::Unsupported(_)) if obs.iter().any(|o: &Ob| matches!(o.v, Verdict::Violated(_))) => return Ok(obs),
            Err(E::Unsupported(s)) => {
                let st: Vec<String> = h.i.stack.iter().rev().take(6).map(|(f, l)| format!("{}:{}", h.i.p.fns[*f].full, l)).collect();
                return Err(format!("{} [{}] {}", s, st.join(" < "), h.note));
            }
        }
    }
    Ok(obs)
}
pub fn show_z(cx: &Cx, z: &Z) -> String {
    let mut s = format!("{}", z.c);
    for (w, c) in &z.t {
        let n = match cx.single_atom(*w) {
            Some((AK::Size(n), _)) => n.split(" <= ").next().unwrap().to_string(),
            Some((k, _)) => format!("{:?}", k).chars().take(40).collect(),
            None => format!("w{}", w),
        };
        s += &format!(" + {}*{}", c, n);
    }
    s
}
/// run all jobs on `threads` threads with large stacks
pub fn run_all(p: &Prog, jobs: &[Job], threads: usize, verbose: bool) -> Vec<JobOut> {
    let next = AtomicUsize::new(0);
    let outs: Mutex<FxMap<usize, JobOut>> = Mutex::new(Default::default());
    std::thread::scope(|s| {
        for _ in 0..threads.max(1) {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= jobs.len() {
                        break;
                    }
                    let o = run_job(p, &jobs[k]);
                    if verbose {
                        let bad: Vec<&Ob> = o.obs.iter().filter(|x| x.v != Verdict::Ok).collect();
                        println!("  {} [{}] {} obligations, {} partitions, {:.2}s{}", o.lemma, o.part, o.obs.len(), o.partitions, o.secs, if bad.is_empty() { String::new() } else { format!(" !! {:?}", &bad[..bad.len().min(4)]) });
                        for x in &o.panics {
                            println!("    panic: {:?}", x);
                        }
                        for x in &o.leaks {
                            println!("    secret-dependent: {:?}", x);
                        }
                    }
                    outs.lock().unwrap().insert(k, o);
                })
                .unwrap();
        }
    });
    let mut m = outs.into_inner().unwrap();
    (0..jobs.len()).map(|k| m.remove(&k).unwrap_or_default()).collect()
}
/// as run_all, but jobs that do not end in time (or break the analyser) are reported as undecided
pub fn run_all_limited(p: &Prog, jobs: &[Job], threads: usize, verbose: bool, limit: f64, enough: fn(&JobOut) -> bool) -> Vec<JobOut> {
    if jobs.is_empty() {
        return vec![];
    }
    let next = AtomicUsize::new(0);
    let live = AtomicUsize::new(0);
    let outs: Mutex<FxMap<usize, JobOut>> = Mutex::new(Default::default());
    let t0 = std::time::Instant::now();
    // the borrowed program and jobs outlive the process: threads past the limit are abandoned at exit
    let (p, jobs): (&'static Prog, &'static [Job]) = unsafe { (std::mem::transmute(p), std::mem::transmute(jobs)) };
    let sh: &'static (AtomicUsize, AtomicUsize, Mutex<FxMap<usize, JobOut>>) = Box::leak(Box::new((next, live, outs)));
    for _ in 0..threads.max(1) {
        sh.1.fetch_add(1, Ordering::SeqCst);
        std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn(move || {
                loop {
                    let k = sh.0.fetch_add(1, Ordering::SeqCst);
                    if k >= jobs.len() {
                        break;
                    }
                    let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_job(p, &jobs[k]))) {
                        Ok(o) => o,
                        Err(_) => open_job(&jobs[k], "the analyser failed"),
                    };
                    if verbose {
                        println!("  {} [{}] {} obligations {:.2}s", o.lemma, o.part, o.obs.len(), o.secs);
                    }
                    let stop = enough(&o);
                    sh.2.lock().unwrap().insert(k, o);
                    if stop {
                        // a definite violation: no further jobs are started
                        sh.0.store(jobs.len(), Ordering::SeqCst);
                    }
                }
                sh.1.fetch_sub(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    let mut why = "time limit";
    while sh.1.load(Ordering::SeqCst) > 0 {
        std::thread::sleep(std::time::Duration::from_millis(20));
        // after a definite violation the jobs under way are abandoned
        if t0.elapsed().as_secs_f64() > limit || sh.2.lock().unwrap().values().any(|o| enough(o)) {
            break;
        }
        if rss_mb() > 20_000 {
            why = "memory limit";
            break;
        }
    }
    let mut m = sh.2.lock().unwrap();
    if m.values().any(|o| enough(o)) {
        return (0..jobs.len()).filter_map(|k| m.remove(&k)).collect();
    }
    (0..jobs.len()).map(|k| m.remove(&k).unwrap_or_else(|| open_job(&jobs[k], why))).collect()
}
fn open_job(j: &Job, why: &str) -> JobOut {
    JobOut { lemma: j.lemma.to_string(), part: j.part.clone(), obs: vec![Ob { what: "analysis".into(), v: Verdict::Undecided(why.into()) }], ..Default::default() }
}
fn rss_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4 / 1024
}
pub fn explain(cx: &mut Cx, x: W, y: W, depth: usize) -> String {
    if x == y {
        return "equal".into();
    }
    let pad = " ".repeat(depth);
    let mut s = String::new();
    match (cx.node_of(x).clone(), cx.node_of(y).clone()) {
        (WN::Lin(c, t), WN::Lin(d, u)) => {
            s += &format!("{}Lin c {:x}/{:x} terms {}/{}\n", pad, c, d, t.len(), u.len());
            let a: Vec<_> = t.iter().filter(|p| !u.contains(p)).cloned().collect();
            let b: Vec<_> = u.iter().filter(|p| !t.contains(p)).cloned().collect();
            s += &format!("{}only left {} only right {}\n", pad, a.len(), b.len());
            for p in a.iter().take(4) {
                s += &format!("{} L {:x}*{}\n", pad, p.1, show_w(cx, p.0));
            }
            for p in b.iter().take(4) {
                s += &format!("{} R {:x}*{}\n", pad, p.1, show_w(cx, p.0));
            }
            if let (Some(p), Some(q)) = (a.first(), b.first()) {
                if depth < 30 {
                    s += &explain(cx, p.0, q.0, depth + 1);
                }
            }
        }
        (WN::Bits(a), WN::Bits(b)) => {
            let k = (0..a.len()).find(|k| a[*k] != b[*k]).unwrap();
            s += &format!("{}Bits differ at {}: {} / {}\n", pad, k, a[k], b[k]);
            let (mut va, mut vb) = (FxSet::default(), FxSet::default());
            cx.bdd_vars(a[k], &mut Default::default(), &mut va);
            cx.bdd_vars(b[k], &mut Default::default(), &mut vb);
            s += &format!("{}vars {} / {}; left only {:?} right only {:?}\n", pad, va.len(), vb.len(), va.difference(&vb).count(), vb.difference(&va).count());
            let l: Option<u32> = va.difference(&vb).min().cloned();
            let r: Option<u32> = vb.difference(&va).min().cloned();
            if let (Some(l), Some(r)) = (l, r) {
                let (p, i) = cx.vars[l as usize];
                let (q, j) = cx.vars[r as usize];
                s += &format!("{}atoms {:?}.{} / {:?}.{}\n", pad, cx.atoms[p as usize].k, i, cx.atoms[q as usize].k, j);
                if let (AK::Elem(b, _), AK::Elem(d, _)) = (&cx.atoms[p as usize].k, &cx.atoms[q as usize].k) {
                    s += &format!("{:.700}\n{:.700}\n", format!("{:?}", cx.bases[*b as usize].k), format!("{:?}", cx.bases[*d as usize].k));
                    for b in [b, d] {
                        if let BaseK::App(_, a) = &cx.bases[*b as usize].k {
                            for k in a.iter() {
                                if let Key::Seq(s2) = k {
                                    for p in s2.iter() {
                                        if let KP::El(w) = p {
                                            s += &w.iter().map(|w| show_w(cx, *w)).collect::<Vec<_>>().join(",");
                                            s += "\n";
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                if let (AK::Sum(p), AK::Sum(q)) = (cx.atoms[p as usize].k.clone(), cx.atoms[q as usize].k.clone()) {
                    if depth < 30 {
                        s += &explain(cx, p, q, depth + 1);
                    }
                }
            }
        }
        (a, b) => {
            s += &format!("{}kinds {} {}\n", pad, show_w(cx, x), show_w(cx, y));
            let _ = (a, b);
        }
    }
    s
}
pub fn show_w(cx: &Cx, w: W) -> String {
    match cx.node_of(w) {
        WN::Lin(c, t) => format!("Lin({:x},{} terms)", c, t.len()),
        WN::Bits(b) => {
            let v: Vec<String> = b
                .iter()
                .map(|x| match *x {
                    F => "0".into(),
                    T => "1".into(),
                    x => match cx.literal(x) {
                        Some((v, p)) => {
                            let (a, i) = cx.vars[v as usize];
                            format!("{}{}.{}", if p { "" } else { "!" }, format!("{:?}", cx.atoms[a as usize].k).chars().take(14).collect::<String>(), i)
                        }
                        None => format!("#{}", x),
                    },
                })
                .collect();
            v.join(" ")
        }
    }
}
