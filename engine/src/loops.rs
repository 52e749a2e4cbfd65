//! Loops with a symbolic trip count.
//!
//! The abstract states at the loop head are recorded while the first iterations are analysed.  When the trip count
//! becomes undecided, a period P (in iterations) is sought such that the states of three consecutive periods are
//! instances of one template S(m): sizes affine in m, slices with affine bounds, and *slots*, values which the
//! specification names (the chaining value after m steps, the output of the first m steps).  S is then verified as
//! an inductive invariant by analysing one period from S(m) for symbolic m, and the analysis continues with S(K),
//! K the number of complete periods.  A template that cannot be verified is dropped (no summary, never a verdict).
use crate::fx::{FxMap, FxSet};
use crate::interp::*;
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

/// the specified recurrence a loop is expected to follow
#[derive(Clone)]
pub struct Chain {
    /// steps before the first state of `at`
    pub base: Z,
    /// states computed at a loop head get the name of the state they are
    pub named: bool,
    /// specified state after base + 0, 1, 2, .. steps
    pub at: Vec<Vec<W>>,
    /// values produced by the steps 0, 1, 2, ..
    pub out: Vec<Vec<W>>,
    /// the stream of all produced values (elements 0..per * steps), if the steps produce any
    pub stream: Option<u32>,
    /// state after a symbolic number of steps
    pub sym: Rc<dyn Fn(&mut Cx, &Z) -> R<Vec<W>>>,
    /// step number j from a state: next state and produced values
    pub next: Rc<dyn Fn(&mut Cx, &Z, &[W]) -> R<(Vec<W>, Vec<W>)>>,
}
#[derive(Default)]
pub struct LoopCx {
    pub chains: Vec<Chain>,
    /// computed states of the chain and the opaque names that stand for them from the next loop head on
    pub rename: FxMap<W, W>,
    /// name large words at loop heads
    pub seal: bool,
    /// number of steps of each chain at the end of the last summarised loop that follows it
    pub reached: Vec<Option<Z>>,
    pub count: u32,
    /// a comparison of trip counts that no summary can do without
    trip: Option<Z>,
}
struct Snap {
    st: St,
    stack: Vec<(usize, u32)>,
}
#[derive(Default)]
pub struct Visits {
    heads: Vec<(usize, Vec<Rc<Snap>>)>,
    /// iterations of the loops
    seen: FxMap<usize, usize>,
}
const KEEP: usize = 400;
/// a loop that has done this many steps of a recurrence is summarised although its trip count may be known
const LONG: i128 = 16;
/// and one that follows none after this many iterations
const IDLE: usize = 256;
/// steps of a recurrence listed in advance
pub const STEPS: usize = 40;
/// range of the iteration count
const BITS: usize = 56;
/// snapshots looked at: two periods of at most 64 iterations
const LOOK: usize = 130;
impl Visits {
    pub fn iterated(&self) -> bool {
        self.heads.iter().any(|h| h.1.len() >= 3)
    }
    /// many iterations: time to try a summary? (now and then)
    pub fn due(&self, bb: usize) -> bool {
        self.seen.get(&bb).map_or(false, |n| *n >= LONG as usize && n.is_power_of_two())
    }
    pub fn visit(&mut self, i: &mut In, fr: &Frame, bb: usize) {
        let body = i.p.fns[fr.fun].body.as_ref().unwrap();
        // a new iteration of this loop forgets the loops inside it
        if let Some(set) = body.loops.get(&bb) {
            self.heads.retain(|h| h.0 == bb || !set.get(h.0).cloned().unwrap_or(false));
            self.seen.retain(|h, _| *h == bb || !set.get(*h).cloned().unwrap_or(false));
        }
        if i.loop_ctx.seal || !i.loop_ctx.rename.is_empty() {
            let map = std::mem::take(&mut i.loop_ctx.rename);
            let seal = i.loop_ctx.seal;
            let In { cx, st, .. } = &mut *i;
            let St { mem, heap, .. } = st;
            for v in mem.iter_mut().chain(heap.iter_mut()) {
                if let Some(n) = renamed(v, cx, &map, seal) {
                    *v = n;
                }
            }
            i.loop_ctx.rename = map;
        }
        if !i.want_snaps {
            return;
        }
        let s = Rc::new(Snap { st: i.st.clone(), stack: i.stack.clone() });
        let k = match self.heads.iter().position(|h| h.0 == bb) {
            Some(k) => k,
            None => {
                self.heads.push((bb, vec![]));
                self.heads.len() - 1
            }
        };
        *self.seen.entry(bb).or_insert(0) += 1;
        let h = &mut self.heads[k].1;
        h.push(s);
        if h.len() > KEEP {
            h.drain(0..KEEP / 2);
        }
    }
}
/// the furthest step whose values occur in each snapshot (-1: none), if the last one has done at least `min` steps
fn advance(i: &mut In, c: &Chain, hist: &[Rc<Snap>], min: i128) -> Option<Vec<i128>> {
    let mut ph = Phase { a: 0, s: 0, at: Default::default(), out: Default::default(), per: 0 };
    ph.index(i, c);
    let mut memo = Memo::default();
    if ph.far(hist.last().unwrap(), &mut memo) < min {
        return None;
    }
    Some(hist.iter().map(|s| ph.far(s, &mut memo)).collect())
}
/// furthest step by address of a shared list (of snapshots that stay alive)
type Memo = FxMap<usize, i128>;
fn dbg() -> bool {
    std::env::var("ENGINE_LOOPS").is_ok()
}
/// replace the rest of the loop by its summary: the head to continue from
pub fn summarise(i: &mut In, fr: &Frame, v: &mut Visits, z: &Z, only: Option<usize>) -> R<Option<usize>> {
    let (np, nl, ne) = (i.panics.len(), i.leaks.len(), i.events.len());
    let (st, stack) = (i.st.clone(), i.stack.clone());
    let facts = i.cx.mark();
    let heads: Vec<(usize, Vec<Rc<Snap>>)> = v.heads.iter().rev().filter(|h| only.map_or(true, |b| b == h.0)).map(|h| (h.0, h.1[h.1.len().saturating_sub(LOOK)..].to_vec())).collect();
    let mut trip: Option<Z> = None;
    for (bb, hist) in heads {
        let t = hist.len();
        let chains = i.loop_ctx.chains.clone();
        // the recurrences the loop may follow, and how they advance
        let mut cands: Vec<(usize, Option<Chain>, Vec<i128>)> = vec![];
        let mut idle = true;
        for (k, c) in chains.iter().enumerate() {
            match advance(i, c, &hist, 1) {
                Some(f) => {
                    idle = false;
                    if only.is_none() || f[t - 1] >= LONG {
                        cands.push((k, Some(c.clone()), f));
                    }
                }
                None => {}
            }
        }
        if only.is_none() || idle && v.seen[&bb] >= IDLE {
            cands.push((usize::MAX, None, vec![]));
        }
        // a counter that wraps, or code that follows the recurrence only so far: shorter ranges of m
        let mut tries: Vec<(usize, &(usize, Option<Chain>, Vec<i128>))> = cands.iter().map(|c| (BITS, c)).collect();
        for nb in [32, 24, 16, 12, 8] {
            tries.extend(cands.iter().filter(|c| c.1.is_some()).map(|c| (nb, c)));
        }
        for (nb, (ck, chain, far)) in tries {
            let (ck, chain) = (*ck, chain.clone());
            for p in 1..=64usize {
                if t < 2 * p + 1 || only.is_some() && chain.is_none() && p > 8 {
                    break;
                }
                if chain.is_some() {
                    // the steps of the specification follow the period throughout
                    let d = far[t - 1] - far[t - 1 - p];
                    if d <= 0 || (p..t).any(|k| far[k] >= 0 && far[k - p] >= 0 && far[k] - far[k - p] != d) {
                        continue;
                    }
                }
                let s = [&*hist[t - 1 - 2 * p], &*hist[t - 1 - p], &*hist[t - 1]];
                i.loop_ctx.trip = None;
                let r = try_period(i, fr, bb, p, s, &chain, nb);
                let t = i.loop_ctx.trip.take();
                trip = trip.or(t);
                i.cx.reset_to(facts.clone());
                match r {
                    Ok(Some((state, stk, reached))) => {
                        if dbg() {
                            eprintln!("{} bb{}: period {}", i.p.fns[fr.fun].full, bb, p);
                        }
                        i.st = state;
                        i.stack = stk;
                        if let (Some(_), Some(z)) = (&chain, reached) {
                            i.loop_ctx.reached.resize(chains.len(), None);
                            let c = i.loop_ctx.chains[ck].clone();
                            let c = rebase(i, c, &z)?;
                            i.loop_ctx.chains[ck] = c;
                            i.loop_ctx.reached[ck] = Some(z);
                        }
                        i.stats.loops_summarised += 1;
                        v.heads.retain(|h| h.0 != bb);
                        v.seen.remove(&bb);
                        return Ok(Some(bb));
                    }
                    Ok(None) => {}
                    Err(E::Unsupported(x)) => {
                        if dbg() {
                            eprintln!("{} bb{} period {}: {}", i.p.fns[fr.fun].full, bb, p, x);
                        }
                    }
                    Err(E::Split(x)) => {
                        if dbg() {
                            eprintln!("{} bb{} period {}: undecided {}", i.p.fns[fr.fun].full, bb, p, crate::prove::show_z(&i.cx, &x));
                        }
                    }
                }
                i.panics.truncate(np);
                i.leaks.truncate(nl);
                i.events.truncate(ne);
            }
        }
    }
    i.st = st;
    i.stack = stack;
    if let (Some(t), None) = (trip, only) {
        if i.depth < 16 {
            return Err(E::Split(t));
        }
    }
    if dbg() && only.is_none() {
        eprintln!("{}: no summary for {}", i.p.fns[fr.fun].full, crate::prove::show_z(&i.cx, z));
    }
    Ok(None)
}
/// the same recurrence, listed from step z on
fn rebase(i: &mut In, c: Chain, z: &Z) -> R<Chain> {
    let n = c.at.len() - 1;
    let mut s = (c.sym)(&mut i.cx, z)?;
    let (mut at, mut out) = (vec![s.clone()], vec![]);
    for j in 0..n {
        // (the data may end)
        let (t, o) = match (c.next)(&mut i.cx, &z.addk(j as i128), &s) {
            Ok(x) => x,
            Err(_) => break,
        };
        s = if c.named { (c.sym)(&mut i.cx, &z.addk(j as i128 + 1))? } else { t.clone() };
        if c.named {
            for (x, y) in t.iter().zip(s.iter()) {
                i.loop_ctx.rename.insert(*x, *y);
            }
        }
        at.push(s.clone());
        if !c.out.is_empty() {
            out.push(o);
        }
    }
    Ok(Chain { base: z.clone(), at, out, ..c })
}
type Found = (St, Vec<(usize, u32)>, Option<Z>);
fn try_period(i: &mut In, fr: &Frame, bb: usize, p: usize, s: [&Snap; 3], chain: &Option<Chain>, nb: usize) -> R<Option<Found>> {
    if s[0].st.pc != s[2].st.pc || s[1].st.pc != s[2].st.pc || s[0].st.mem.len() != s[2].st.mem.len() || s[1].st.mem.len() != s[2].st.mem.len() {
        return none(1);
    }
    let mut ph = Phase { a: 0, s: 0, at: Default::default(), out: Default::default(), per: 0 };
    if let Some(c) = chain {
        ph.index(i, c);
        ph.detect(s)?;
    }
    i.loop_ctx.count += 1;
    let name = format!("iterations of {} bb{} P{}", i.p.fns[fr.fun].full, bb, p);
    let mut conds: Vec<(Z, i128)> = vec![];
    let m = if nb < BITS {
        // the steps stay below a multiple of 2^nb
        let c = (ph.a + chain.as_ref().map_or(0, |c| c.base.c)).rem_euclid(1 << nb);
        let top = ((1i128 << nb) - 1 - c) / ph.s.max(1) - 1;
        if top < 8 {
            return none(7);
        }
        let m = i.cx.size_upto(&name, top);
        conds.push((m.mul(-1).addk(top), 1));
        m
    } else {
        Z::var(i.cx.size(&name, BITS as u8))
    };
    let mw = m.t[0].0;
    let base = i.cx.mark();
    // S(m), and where it first needs to know how much is left
    let (np, nl, ne) = (i.panics.len(), i.leaks.len(), i.events.len());
    // values of earlier iterations that are left over and not read again
    let mut stale: FxSet<usize> = Default::default();
    for _ in 0..16 {
        i.cx.reset_to(base.clone());
        i.panics.truncate(np);
        i.leaks.truncate(nl);
        i.events.truncate(ne);
        let (s0, _) = inst(i, chain, &ph, s, &m, 0, &mut stale)?;
        for (w, _) in &conds {
            i.cx.assume(w.clone());
        }
        if i.cx.infeasible() {
            return none(2);
        }
        i.st = s0;
        i.stack = s[2].stack.clone();
        match i.period(fr, bb, p) {
            Ok(true) => {
                // back at the head: is it S(m + 1)?
                let got = i.st.clone();
                let (want, free) = inst(i, chain, &ph, s, &m, 1, &mut stale)?;
                let known = stale.len();
                let mut c = Cover { free, map: Default::default(), why: String::new() };
                if got.pc != s[2].st.pc || got.mem.len() != want.mem.len() {
                    return none(3);
                }
                for k in 0..got.mem.len() {
                    if !c.val(i, &want, &got, &want.mem[k], &got.mem[k])? {
                        if dbg() {
                            eprintln!("  period {}: mem {} not covered ({})", p, k, c.why);
                        }
                        stale.insert(k);
                    }
                }
                for k in 0..s[0].st.heap.len().min(got.heap.len()) {
                    if !c.val(i, &want, &got, &want.heap[k], &got.heap[k])? {
                        if dbg() {
                            eprintln!("  period {}: heap {} not covered ({})", p, k, c.why);
                        }
                        stale.insert(HEAP0 as usize + k);
                    }
                }
                if stale.len() > known {
                    continue;
                }
                // K: the number of complete periods from snapshot 0
                i.cx.reset_to(base.clone());
                let mut k: Option<Z> = None;
                for (w, d) in &conds {
                    // w(m) = w(0) - d * m >= 0 for every m < K
                    let w0 = w.subst(mw, &Z::k(0)).addk(*d);
                    let kk = match floor_div(&w0, *d) {
                        Some(x) => x,
                        None => return uns("trip count is not affine"),
                    };
                    k = match k {
                        None => Some(kk),
                        Some(o) => {
                            if i.cx.prove_ge0(&kk.sub(&o)) {
                                Some(o)
                            } else if i.cx.prove_ge0(&o.sub(&kk)) {
                                Some(kk)
                            } else {
                                // which ends first: decided by a case distinction, small sizes first
                                let mut z = kk.sub(&o);
                                if z.t.iter().map(|x| x.1).sum::<i128>() > 0 {
                                    z = z.mul(-1).addk(-1);
                                }
                                i.loop_ctx.trip = Some(z);
                                return uns("several trip counts");
                            }
                        }
                    };
                }
                let k = match k {
                    Some(k) => i.cx.pinned(&k),
                    None => return none(4),
                };
                if !i.cx.prove_ge0(&k) {
                    return none(5);
                }
                let (fin, _) = inst(i, chain, &ph, s, &k, 0, &mut stale)?;
                let reached = chain.as_ref().filter(|_| ph.s > 0 || ph.per > 0 && ph.a > 0).map(|c| k.mul(ph.s).addk(ph.a).add(&c.base));
                return Ok(Some((fin, s[2].stack.clone(), reached)));
            }
            Ok(false) => return none(6),
            Err(E::Split(z)) => {
                let d = -z.coef(mw);
                let (z, d) = if d > 0 { (z, d) } else { (z.mul(-1).addk(-1), -d) };
                if d == 0 {
                    return Err(E::Split(z));
                }
                // z >= 0 throughout the period (and so until it has been consumed)
                let w = z.addk(1 - d);
                if conds.iter().any(|c| c.0 == w) {
                    return Err(E::Split(z));
                }
                conds.push((w, d));
            }
            Err(e) => return Err(e),
        }
    }
    Ok(None)
}
fn none<T>(k: u32) -> R<Option<T>> {
    if dbg() {
        eprintln!("  rejected at {}", k);
    }
    Ok(None)
}
fn floor_div(z: &Z, d: i128) -> Option<Z> {
    if d <= 0 || z.t.iter().any(|x| x.1 % d != 0) {
        return None;
    }
    Some(Z { c: z.c.div_euclid(d), t: z.t.iter().map(|x| (x.0, x.1 / d)).collect() })
}
/// which words are specified values, and how far the chain has come
struct Phase {
    /// steps done at snapshot 0, and per period
    a: i128,
    s: i128,
    at: FxMap<W, Vec<(usize, usize)>>,
    out: FxMap<W, Vec<usize>>,
    per: usize,
}
impl Phase {
    fn index(&mut self, i: &In, c: &Chain) {
        for (j, v) in c.at.iter().enumerate() {
            for (k, w) in v.iter().enumerate() {
                if i.cx.as_const(*w).is_none() {
                    self.at.entry(*w).or_default().push((j, k));
                }
            }
        }
        self.per = c.out.first().map_or(0, |v| v.len());
        for (j, v) in c.out.iter().enumerate() {
            for (k, w) in v.iter().enumerate() {
                self.out.entry(*w).or_default().push(j * self.per + k);
            }
        }
    }
    fn far(&self, s: &Snap, memo: &mut Memo) -> i128 {
        s.st.mem.iter().chain(s.st.heap.iter()).map(|v| self.far_in(v, memo)).max().unwrap_or(-1)
    }
    fn far_in(&self, v: &V, memo: &mut Memo) -> i128 {
        match v {
            V::W(w) => {
                let mut far = -1;
                if let Some(v) = self.at.get(w) {
                    far = far.max(v.iter().map(|x| x.0 as i128).min().unwrap());
                }
                if let Some(v) = self.out.get(w) {
                    far = far.max(v.iter().map(|x| (*x / self.per) as i128 + 1).min().unwrap());
                }
                far
            }
            V::Agg(f) | V::Gh(_, f) => self.far_list(f, memo),
            V::En(_, p) => p.iter().map(|f| f.iter().map(|x| self.far_in(x, memo)).max().unwrap_or(-1)).max().unwrap_or(-1),
            V::Seq(s) => {
                let k = Rc::as_ptr(s) as usize;
                if let Some(x) = memo.get(&k) {
                    return *x;
                }
                let mut far = -1;
                for p in s.iter() {
                    far = far.max(match p {
                        P::El(v) => self.far_list(v, memo),
                        P::Rep(v, _) => self.far_in(v, memo),
                        _ => -1,
                    });
                }
                memo.insert(k, far);
                far
            }
            V::It(it) => match &**it {
                It::Into { seq, .. } => self.far_in(seq, memo),
                _ => -1,
            },
            _ => -1,
        }
    }
    fn far_list(&self, f: &Rc<Vec<V>>, memo: &mut Memo) -> i128 {
        let k = Rc::as_ptr(f) as usize;
        if let Some(x) = memo.get(&k) {
            return *x;
        }
        let far = f.iter().map(|x| self.far_in(x, memo)).max().unwrap_or(-1);
        memo.insert(k, far);
        far
    }
    fn detect(&mut self, s: [&Snap; 3]) -> R<()> {
        let mut memo = Memo::default();
        let far = [self.far(s[0], &mut memo), self.far(s[1], &mut memo), self.far(s[2], &mut memo)];
        if far[0] >= 0 && far[1] - far[0] == far[2] - far[1] && far[1] > far[0] {
            self.a = far[0];
            self.s = far[1] - far[0];
        }
        Ok(())
    }
}
fn renamed_list(f: &[V], cx: &mut Cx, map: &FxMap<W, W>, seal: bool) -> Option<Vec<V>> {
    let mut out: Option<Vec<V>> = None;
    for (k, v) in f.iter().enumerate() {
        if let Some(n) = renamed(v, cx, map, seal) {
            out.get_or_insert_with(|| f.to_vec())[k] = n;
        }
    }
    out
}
fn renamed(v: &V, cx: &mut Cx, map: &FxMap<W, W>, seal: bool) -> Option<V> {
    match v {
        V::W(w) => match map.get(w) {
            Some(x) => Some(V::W(*x)),
            None if !seal => None,
            None => {
                let x = cx.seal(*w);
                if x == *w {
                    None
                } else {
                    Some(V::W(x))
                }
            }
        },
        V::Agg(f) => renamed_list(f, cx, map, seal).map(|x| V::Agg(Rc::new(x))),
        V::Gh(n, f) => renamed_list(f, cx, map, seal).map(|x| V::Gh(n.clone(), Rc::new(x))),
        V::Seq(s) => {
            let mut out: Option<Vec<P>> = None;
            for (k, p) in s.iter().enumerate() {
                if let P::El(f) = p {
                    if let Some(x) = renamed_list(f, cx, map, seal) {
                        out.get_or_insert_with(|| s.to_vec())[k] = P::El(Rc::new(x));
                    }
                }
            }
            out.map(|x| V::Seq(Rc::new(x)))
        }
        _ => None,
    }
}
struct G<'a> {
    ph: &'a Phase,
    m: Z,
    /// chain state and values produced since the generic state
    slots: Vec<W>,
    /// steps before the generic state
    c0: Z,
    base: Z,
    extra: Vec<W>,
    stream: Option<u32>,
    free: FxSet<W>,
    objs: Vec<(u32, u32, u32)>,
}
/// S(m + ahead), and the words it says nothing about
fn inst(i: &mut In, chain: &Option<Chain>, ph: &Phase, s: [&Snap; 3], m: &Z, ahead: i128, stale: &mut FxSet<usize>) -> R<(St, FxSet<W>)> {
    let base = chain.as_ref().map_or(Z::k(0), |c| c.base.clone());
    let c0 = m.mul(ph.s).addk(ph.a).add(&base);
    let (mut slots, mut extra, mut stream) = (vec![], vec![], None);
    if let Some(c) = chain {
        if ph.s > 0 {
            slots = (c.sym)(&mut i.cx, &c0)?;
            for j in 0..ahead * ph.s {
                let (n, o) = (c.next)(&mut i.cx, &c0.addk(j), &slots)?;
                slots = n;
                extra.extend(o);
            }
            stream = c.stream;
        }
    }
    let mut g = G { ph, m: m.addk(ahead), slots, c0, base, extra, stream, free: Default::default(), objs: vec![] };
    let mut st = St { mem: vec![], heap: s[2].st.heap.clone(), pc: s[2].st.pc };
    for k in 0..s[2].st.mem.len() {
        let v = if stale.contains(&k) { V::Undef } else { g.item(i, &s[0].st.mem[k], &s[1].st.mem[k], &s[2].st.mem[k], k, stale)? };
        st.mem.push(v);
    }
    let mut done: FxSet<(u32, u32, u32)> = Default::default();
    for k in 0..s[0].st.heap.len() as u32 {
        done.insert((HEAP0 + k, HEAP0 + k, HEAP0 + k));
        let k = k as usize;
        let id = HEAP0 as usize + k;
        // objects of earlier iterations nobody refers to any more keep their value
        st.heap[k] = if stale.contains(&id) { V::Undef } else { g.item(i, &s[0].st.heap[k], &s[1].st.heap[k], &s[2].st.heap[k], id, stale)? };
    }
    while let Some(o) = g.objs.pop() {
        if !done.insert(o) {
            continue;
        }
        if [o.0, o.1, o.2].iter().any(|x| *x < HEAP0 || *x >= CONST0) {
            return uns("moving reference");
        }
        let (a, b, c) = ((o.0 - HEAP0) as usize, (o.1 - HEAP0) as usize, (o.2 - HEAP0) as usize);
        let v = g.val(i, &s[0].st.heap[a], &s[1].st.heap[b], &s[2].st.heap[c])?;
        st.heap[c] = v;
    }
    Ok((st, g.free))
}
impl<'a> G<'a> {
    /// a value without a template is treated as left over
    fn item(&mut self, i: &mut In, a: &V, b: &V, c: &V, id: usize, stale: &mut FxSet<usize>) -> R<V> {
        let n = self.objs.len();
        match self.val(i, a, b, c) {
            Ok(v) => Ok(v),
            Err(E::Unsupported(s)) => {
                if dbg() {
                    eprintln!("  item {}: {}", id, s);
                }
                self.objs.truncate(n);
                stale.insert(id);
                Ok(V::Undef)
            }
            Err(e) => Err(e),
        }
    }
    fn z(&self, a: &Z, b: &Z, c: &Z) -> Option<Z> {
        let d = b.sub(a);
        if c.sub(b) != d {
            return None;
        }
        let k = d.as_k()?;
        Some(a.add(&self.m.mul(k)))
    }
    fn word(&mut self, i: &mut In, a: W, b: W, c: W) -> R<W> {
        let wd = i.cx.width(c);
        if i.cx.width(a) != wd || i.cx.width(b) != wd {
            return uns("width");
        }
        if a == b && b == c {
            return Ok(c);
        }
        // the specified state
        if self.ph.s > 0 {
            if let (Some(x), Some(y), Some(w)) = (self.ph.at.get(&a), self.ph.at.get(&b), self.ph.at.get(&c)) {
                let (p, s) = (self.ph.a as usize, self.ph.s as usize);
                for (j, k) in x {
                    if *j == p && y.contains(&(p + s, *k)) && w.contains(&(p + 2 * s, *k)) {
                        return Ok(self.slots[*k]);
                    }
                }
            }
        }
        // sizes and counters
        if let (Some(x), Some(y), Some(w)) = (i.cx.to_z_size(a), i.cx.to_z_size(b), i.cx.to_z_size(c)) {
            if let Some(z) = self.z(&x, &y, &w) {
                return Ok(i.cx.from_z(&z, wd));
            }
        }
        // elements at affine positions
        let e = match (i.cx.as_elem(a), i.cx.as_elem(b), i.cx.as_elem(c)) {
            (Some((p, x)), Some((q, y)), Some((r, w))) if p == q && q == r => Some((p, x.clone(), y.clone(), w.clone())),
            _ => None,
        };
        if let Some((p, x, y, w)) = e {
            if let Some(z) = self.z(&x, &y, &w) {
                return Ok(i.cx.elem(p, &z));
            }
        }
        let w = i.cx.fresh_word(wd);
        self.free.insert(w);
        Ok(w)
    }
    fn list(&mut self, i: &mut In, a: &[V], b: &[V], c: &[V]) -> R<Vec<V>> {
        if a.len() != b.len() || b.len() != c.len() {
            return uns("shape");
        }
        let mut v = Vec::with_capacity(a.len());
        for k in 0..a.len() {
            v.push(self.val(i, &a[k], &b[k], &c[k])?);
        }
        Ok(v)
    }
    fn ptr(&mut self, a: &Ptr, b: &Ptr, c: &Ptr) -> R<Ptr> {
        if a.obj != b.obj || b.obj != c.obj {
            self.objs.push((a.obj, b.obj, c.obj));
        }
        if a.path.len() != b.path.len() || b.path.len() != c.path.len() {
            return uns("path");
        }
        let mut p = vec![];
        for k in 0..a.path.len() {
            p.push(match (&a.path[k], &b.path[k], &c.path[k]) {
                (x, y, z) if x == y && y == z => x.clone(),
                (PE::I(x), PE::I(y), PE::I(z)) => PE::I(self.zz(x, y, z)?),
                (PE::S(x, u), PE::S(y, v), PE::S(z, w)) => PE::S(self.zz(x, y, z)?, self.zz(u, v, w)?),
                _ => return uns("path"),
            });
        }
        Ok(Ptr { obj: c.obj, path: Rc::new(p) })
    }
    fn zz(&self, a: &Z, b: &Z, c: &Z) -> R<Z> {
        match self.z(a, b, c) {
            Some(z) => Ok(z),
            None => uns("size without a template"),
        }
    }
    fn val(&mut self, i: &mut In, a: &V, b: &V, c: &V) -> R<V> {
        match (a, b, c) {
            (V::W(x), V::W(y), V::W(z)) => Ok(V::W(self.word(i, *x, *y, *z)?)),
            (V::Agg(x), V::Agg(y), V::Agg(z)) => {
                if Rc::ptr_eq(x, y) && Rc::ptr_eq(y, z) && x.is_empty() {
                    return Ok(c.clone());
                }
                Ok(V::Agg(Rc::new(self.list(i, x, y, z)?)))
            }
            (V::Gh(n, x), V::Gh(o, y), V::Gh(p, z)) if n == o && o == p => Ok(V::Gh(n, Rc::new(self.list(i, x, y, z)?))),
            (V::En(d, x), V::En(e, y), V::En(f, z)) if d == e && e == f => {
                let mut v = vec![];
                if let Some(k) = i.cx.as_const(*d) {
                    for (n, q) in z.iter().enumerate() {
                        if n == k as usize {
                            v.push(Rc::new(self.list(i, &x[n], &y[n], q)?));
                        } else {
                            v.push(Rc::new(vec![]));
                        }
                    }
                } else {
                    if x.len() != y.len() || y.len() != z.len() {
                        return uns("variants");
                    }
                    for n in 0..z.len() {
                        v.push(Rc::new(self.list(i, &x[n], &y[n], &z[n])?));
                    }
                }
                Ok(V::En(*f, Rc::new(v)))
            }
            (V::Seq(x), V::Seq(y), V::Seq(z)) => Ok(V::Seq(self.seq(i, x, y, z)?)),
            (V::Ref(x), V::Ref(y), V::Ref(z)) => Ok(V::Ref(self.ptr(x, y, z)?)),
            (V::Fn(x), V::Fn(y), V::Fn(z)) if x == y && y == z => Ok(c.clone()),
            (V::It(x), V::It(y), V::It(z)) => Ok(V::It(Rc::new(match (&**x, &**y, &**z) {
                (It::Slice { p, lo, hi }, It::Slice { p: p1, lo: l1, hi: h1 }, It::Slice { p: p2, lo: l2, hi: h2 }) => It::Slice { p: self.ptr(p, p1, p2)?, lo: self.zz(lo, l1, l2)?, hi: self.zz(hi, h1, h2)? },
                (It::Windows { p, lo, hi, size }, It::Windows { p: p1, lo: l1, hi: h1, size: s1 }, It::Windows { p: p2, lo: l2, hi: h2, size: s2 }) => {
                    It::Windows { p: self.ptr(p, p1, p2)?, lo: self.zz(lo, l1, l2)?, hi: self.zz(hi, h1, h2)?, size: self.zz(size, s1, s2)? }
                }
                (It::Chunks { p, lo, hi, size, exact, rem }, It::Chunks { p: p1, lo: l1, hi: h1, size: s1, rem: r1, .. }, It::Chunks { p: p2, lo: l2, hi: h2, size: s2, rem: r2, .. }) => {
                    It::Chunks { p: self.ptr(p, p1, p2)?, lo: self.zz(lo, l1, l2)?, hi: self.zz(hi, h1, h2)?, size: self.zz(size, s1, s2)?, exact: *exact, rem: self.zz(rem, r1, r2)? }
                }
                (It::Into { seq, lo, hi }, It::Into { seq: q1, lo: l1, hi: h1 }, It::Into { seq: q2, lo: l2, hi: h2 }) => It::Into { seq: self.val(i, seq, q1, q2)?, lo: self.zz(lo, l1, l2)?, hi: self.zz(hi, h1, h2)? },
                _ => return uns("iterator"),
            }))),
            (V::Ite(..), V::Ite(..), V::Ite(..)) if same(&mut i.cx, a, b) && same(&mut i.cx, b, c) => Ok(c.clone()),
            // whatever is left here after an iteration is not read before it is written again, or the period fails
            (V::Undef, _, _) | (_, V::Undef, _) | (_, _, V::Undef) => Ok(V::Undef),
            _ => Ok(V::Undef),
        }
    }
    fn seq(&mut self, i: &mut In, x: &Rc<Vec<P>>, y: &Rc<Vec<P>>, z: &Rc<Vec<P>>) -> R<Rc<Vec<P>>> {
        if same_seq(&mut i.cx, x, y) && same_seq(&mut i.cx, y, z) {
            return Ok(z.clone());
        }
        let l = [seq_len(x).as_k(), seq_len(y).as_k(), seq_len(z).as_k()];
        if let (Some(a), Some(b), Some(c)) = (l[0], l[1], l[2]) {
            if a == b && b == c && a > 256 && a <= 4096 {
                // a buffer that is filled as the loop goes
                if let Ok(r) = self.segments(i, x, y, z) {
                    return Ok(r);
                }
            }
            if a == b && b == c && a <= 4096 {
                if let (Some(p), Some(q), Some(r)) = (crate::prove::all_vals(&mut i.cx, x), crate::prove::all_vals(&mut i.cx, y), crate::prove::all_vals(&mut i.cx, z)) {
                    return Ok(Rc::new(vec![P::El(Rc::new(self.list(i, &p, &q, &r)?))]));
                }
            }
        }
        self.segments(i, x, y, z)
    }
    fn segments(&mut self, i: &mut In, x: &Rc<Vec<P>>, y: &Rc<Vec<P>>, z: &Rc<Vec<P>>) -> R<Rc<Vec<P>>> {
        let (p, q, r) = (self.parts(i, x)?, self.parts(i, y)?, self.parts(i, z)?);
        if p.len() != q.len() || q.len() != r.len() {
            if std::env::var("ENGINE_LOOPS").map_or(false, |v| v == "2") {
                let f = |v: &Vec<Part>| v.iter().map(|p| match p { Part::Sl(b, o, l) => format!("Sl{} {:?} {:?}", b, o.as_k(), l.as_k()), Part::El(v) => format!("El{}", v.len()), Part::Prod(o, n) => format!("Prod {} {}", o, n), Part::Rep(_, l) => format!("Rep {:?}", l.as_k()) }).collect::<Vec<_>>();
                eprintln!("{:?}\n{:?}\n{:?}", f(&p), f(&q), f(&r));
            }
            return uns(format!("growing sequence ({} / {} / {} segments)", p.len(), q.len(), r.len()));
        }
        let mut out: Vec<P> = vec![];
        for k in 0..p.len() {
            match (&p[k], &q[k], &r[k]) {
                (Part::Sl(a, o, l), Part::Sl(b, o1, l1), Part::Sl(c, o2, l2)) if a == b && b == c => {
                    let s = P::Sl(*a, self.zz(o, o1, o2)?, self.zz(l, l1, l2)?);
                    seq_push(&mut i.cx, &mut out, s);
                }
                (Part::Rep(v, l), Part::Rep(v1, l1), Part::Rep(v2, l2)) if same(&mut i.cx, v, v1) && same(&mut i.cx, v1, v2) => {
                    let s = P::Rep(v2.clone(), self.zz(l, l1, l2)?);
                    seq_push(&mut i.cx, &mut out, s);
                }
                (Part::El(a), Part::El(b), Part::El(c)) => {
                    let v = self.list(i, a, b, c)?;
                    seq_push(&mut i.cx, &mut out, P::El(Rc::new(v)));
                }
                (Part::Prod(o, n), Part::Prod(o1, n1), Part::Prod(o2, n2)) => {
                    let k = |x: &usize| Z::k(*x as i128);
                    let (o, l) = (self.zz(&k(o), &k(o1), &k(o2))?, self.zz(&k(n), &k(n1), &k(n2))?);
                    let b = match self.stream {
                        Some(b) => b,
                        None => return uns("no output stream"),
                    };
                    let per = self.ph.per as i128;
                    let o = o.add(&self.base.mul(per));
                    // the end of the segment relative to what was produced before the generic state
                    let over = match o.add(&l).sub(&self.c0.mul(per)).as_k() {
                        Some(k) => k,
                        None => return uns("output segment does not follow the steps"),
                    };
                    if over <= 0 {
                        seq_push(&mut i.cx, &mut out, P::Sl(b, o, l));
                    } else if over as usize <= self.extra.len() {
                        seq_push(&mut i.cx, &mut out, P::Sl(b, o, l.addk(-over)));
                        let v: Vec<V> = self.extra[..over as usize].iter().map(|w| V::W(*w)).collect();
                        seq_push(&mut i.cx, &mut out, P::El(Rc::new(v)));
                    } else {
                        return uns("output segment ahead of the steps");
                    }
                }
                _ => return uns("segments of different kinds"),
            }
        }
        Ok(Rc::new(out))
    }
    /// maximal runs: slices of inputs, produced values, anything else
    fn parts(&mut self, i: &mut In, s: &[P]) -> R<Vec<Part>> {
        let mut out: Vec<Part> = vec![];
        for p in s {
            match p {
                P::Sl(b, o, l) => push_sl(&mut out, *b, o.clone(), l.clone()),
                P::Rep(v, l) => out.push(Part::Rep(v.clone(), l.clone())),
                P::Gen(..) => return uns("comprehension in a loop"),
                P::El(v) => {
                    let mut k = 0;
                    while k < v.len() {
                        let x = &v[k];
                        k += 1;
                        if let V::W(w) = x {
                            if i.cx.as_const(*w).is_some() {
                                let n = v[k..].iter().take_while(|y| matches!(y, V::W(z) if z == w)).count();
                                if n >= RUN {
                                    out.push(Part::Rep(Rc::new(x.clone()), Z::k(n as i128 + 1)));
                                    k += n;
                                    continue;
                                }
                            }
                            if let (true, Some(pos)) = (self.stream.is_some(), self.ph.out.get(w)) {
                                if let Some(Part::Prod(o, n)) = out.last_mut() {
                                    if pos.contains(&(*o + *n)) {
                                        *n += 1;
                                        continue;
                                    }
                                }
                                out.push(Part::Prod(pos[0], 1));
                                continue;
                            }
                            let e = i.cx.as_elem(*w).map(|(b, z)| (b, z.clone()));
                            if let Some((b, z)) = e {
                                push_sl(&mut out, b, z, Z::k(1));
                                continue;
                            }
                        }
                        if let Some(Part::El(v)) = out.last_mut() {
                            v.push(x.clone());
                        } else {
                            out.push(Part::El(vec![x.clone()]));
                        }
                    }
                }
            }
        }
        Ok(out)
    }
}
/// equal constants in a row that count as filling
const RUN: usize = 64;
enum Part {
    Sl(u32, Z, Z),
    El(Vec<V>),
    Prod(usize, usize),
    Rep(Rc<V>, Z),
}
fn push_sl(out: &mut Vec<Part>, b: u32, o: Z, l: Z) {
    if let Some(Part::Sl(b1, o1, l1)) = out.last_mut() {
        if *b1 == b && o1.add(l1) == o {
            *l1 = l1.add(&l);
            return;
        }
    }
    if l.as_k() != Some(0) {
        out.push(Part::Sl(b, o, l));
    }
}
/// is a state an instance of the template (equal except where the template says nothing)?
struct Cover {
    free: FxSet<W>,
    map: FxMap<u32, u32>,
    why: String,
}
impl Cover {
    fn list(&mut self, i: &mut In, ws: &St, gs: &St, a: &[V], b: &[V]) -> R<bool> {
        if a.len() != b.len() {
            self.why = "shape".into();
            return Ok(false);
        }
        for k in 0..a.len() {
            if !self.val(i, ws, gs, &a[k], &b[k])? {
                return Ok(false);
            }
        }
        Ok(true)
    }
    fn ptr(&mut self, i: &mut In, ws: &St, gs: &St, a: &Ptr, b: &Ptr) -> R<bool> {
        if a.path != b.path {
            self.why = format!("path {:?} / {:?}", a.path, b.path);
            return Ok(false);
        }
        if a.obj < HEAP0 || a.obj >= CONST0 {
            return Ok(a.obj == b.obj);
        }
        if let Some(o) = self.map.get(&a.obj) {
            return Ok(*o == b.obj);
        }
        self.map.insert(a.obj, b.obj);
        let (x, y) = (ws.heap.get((a.obj - HEAP0) as usize).cloned(), gs.heap.get((b.obj.wrapping_sub(HEAP0)) as usize).cloned());
        match (x, y) {
            (Some(x), Some(y)) => self.val(i, ws, gs, &x, &y),
            _ => Ok(false),
        }
    }
    fn val(&mut self, i: &mut In, ws: &St, gs: &St, a: &V, b: &V) -> R<bool> {
        let r = match (a, b) {
            (V::Undef, _) => true,
            (V::W(x), V::W(y)) => {
                let ok = x == y || self.free.contains(x);
                if !ok {
                    self.why = format!("{} / {}", crate::prove::show_w(&i.cx, *x), crate::prove::show_w(&i.cx, *y));
                }
                ok
            }
            (V::Agg(x), V::Agg(y)) | (V::Gh(_, x), V::Gh(_, y)) => self.list(i, ws, gs, x, y)?,
            (V::En(d, x), V::En(e, y)) => {
                if d != e {
                    self.why = "variant".into();
                    return Ok(false);
                }
                match i.cx.as_const(*d) {
                    Some(k) => self.list(i, ws, gs, &x[k as usize], &y[k as usize])?,
                    None => {
                        for k in 0..x.len() {
                            if !self.list(i, ws, gs, &x[k], &y[k])? {
                                return Ok(false);
                            }
                        }
                        true
                    }
                }
            }
            (V::Seq(x), V::Seq(y)) => {
                if same_seq(&mut i.cx, x, y) {
                    return Ok(true);
                }
                match (crate::prove::all_vals(&mut i.cx, x), crate::prove::all_vals(&mut i.cx, y)) {
                    (Some(p), Some(q)) => self.list(i, ws, gs, &p, &q)?,
                    _ => {
                        self.why = format!("sequence {} / {}", short(a), short(b));
                        false
                    }
                }
            }
            (V::Ref(p), V::Ref(q)) => self.ptr(i, ws, gs, p, q)?,
            (V::It(x), V::It(y)) => match (&**x, &**y) {
                (It::Slice { p, lo, hi }, It::Slice { p: q, lo: l, hi: h }) => lo == l && hi == h && self.ptr(i, ws, gs, p, q)?,
                (It::Windows { p, lo, hi, size }, It::Windows { p: q, lo: l, hi: h, size: s }) => lo == l && hi == h && size == s && self.ptr(i, ws, gs, p, q)?,
                (It::Chunks { p, lo, hi, size, exact, rem }, It::Chunks { p: q, lo: l, hi: h, size: s, exact: e, rem: r }) => lo == l && hi == h && size == s && exact == e && rem == r && self.ptr(i, ws, gs, p, q)?,
                (It::Into { seq, lo, hi }, It::Into { seq: q, lo: l, hi: h }) => lo == l && hi == h && self.val(i, ws, gs, seq, q)?,
                _ => false,
            },
            (V::Fn(x), V::Fn(y)) => x == y,
            _ => same(&mut i.cx, a, b),
        };
        if !r && self.why.is_empty() {
            self.why = format!("{} / {}", short(a), short(b));
        }
        Ok(r)
    }
}
/// run `body` until it reports no further item; None = diverges
pub fn native_loop(i: &mut In, body: &mut dyn FnMut(&mut In) -> R<Option<bool>>) -> R<bool> {
    loop {
        match body(i)? {
            None => return Ok(false),
            Some(false) => return Ok(true),
            Some(true) => {}
        }
    }
}
