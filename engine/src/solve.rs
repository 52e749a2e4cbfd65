//! Goal-directed witnesses: an assignment of the inputs under which a given condition holds, found by going backwards
//! through the definitions of the values it mentions (a path of its decision diagram, table entries with the wanted
//! bits, then the conditions on the table indices).  Every assignment is verified by evaluating the condition.
use crate::eval::Ev;
use crate::fx::{FxMap, FxSet};
use crate::term::*;

const ROUNDS: usize = 40;
const CAP: usize = 100_000;
fn next(r: &mut u64) -> u64 {
    *r ^= *r << 13;
    *r ^= *r >> 7;
    *r ^= *r << 17;
    *r
}
/// values that can be chosen (inputs) or aimed at (table entries)
fn steerable(cx: &Cx, v: u32) -> bool {
    match &cx.atoms[cx.vars[v as usize].0 as usize].k {
        AK::Elem(b, z) => z.as_k().is_some() && matches!(cx.bases[*b as usize].k, BaseK::Input(..)),
        AK::Fun(..) | AK::Tab(..) | AK::P("eq", _) => true,
        _ => false,
    }
}
/// can `b` become true, the values that cannot be chosen being what they are?
fn can(cx: &Cx, ev: &mut Ev, b: B, memo: &mut FxMap<B, bool>) -> bool {
    if b < 2 {
        return b == T;
    }
    if let Some(&r) = memo.get(&b) {
        return r;
    }
    let (v, lo, hi) = cx.node(b);
    let r = if steerable(cx, v) {
        can(cx, ev, lo, memo) || can(cx, ev, hi, memo)
    } else {
        let (a, i) = cx.vars[v as usize];
        let x = if (ev.atom(cx, a) >> i) & 1 == 1 { hi } else { lo };
        can(cx, ev, x, memo)
    };
    memo.insert(b, r);
    r
}
/// input values (base, index) -> (mask, bits) under which `goal` holds, sizes as chosen in `ev`
pub fn solve(cx: &mut Cx, ev: &mut Ev, goal: B, rng: &mut u64) -> bool {
    let cap = cx.cap_on(CAP);
    let n = cx.stats().0;
    if std::env::var("ENGINE_EXPLAIN").is_ok() {
        let mut vs = Default::default();
        cx.bdd_vars(goal, &mut Default::default(), &mut vs);
        let mut k: Vec<String> = vs.iter().map(|v| format!("{:.60}", format!("{:?}", cx.atoms[cx.vars[*v as usize].0 as usize].k))).collect();
        k.sort();
        eprintln!("goal {} mentions {} values: {:.300}", goal, k.len(), k.join("; "));
    }
    let r = solve_in(cx, ev, goal, rng);
    if std::env::var("ENGINE_EXPLAIN").is_ok() {
        eprintln!("goal {}: {} nodes, {}{}", goal, cx.stats().0 - n, r, if cx.over() { " (too large)" } else { "" });
    }
    cx.cap_off(cap);
    r
}
fn solve_in(cx: &mut Cx, ev: &mut Ev, goal: B, rng: &mut u64) -> bool {
    let mut cur = goal;
    for _ in 0..ROUNDS {
        if cx.over() {
            return false;
        }
        let mut memo = FxMap::default();
        if !can(cx, ev, cur, &mut memo) {
            return false;
        }
        let (mut inp, mut tabs): (Vec<(u32, bool)>, FxMap<W, Vec<(Vec<bool>, bool)>>) = (vec![], Default::default());
        let mut eqs: Vec<(W, W, bool)> = vec![];
        let mut b = cur;
        while b > 1 {
            let (v, lo, hi) = cx.node(b);
            let (a, i) = cx.vars[v as usize];
            let up = if steerable(cx, v) {
                let (x, y) = (can(cx, ev, lo, &mut memo), can(cx, ev, hi, &mut memo));
                let up = if x && y { next(rng) & 64 != 0 } else { y };
                match cx.atoms[a as usize].k.clone() {
                    AK::Elem(..) => inp.push((v, up)),
                    AK::Fun(tt, w) => {
                        let n = 1usize << cx.width(w);
                        tabs.entry(w).or_default().push(((0..n).map(|x| (tt[x / 64] >> (x % 64)) & 1 == 1).collect(), up));
                    }
                    AK::P(_, ws) => eqs.push((ws[0], ws[1], up)),
                    AK::Tab(t, w) => tabs.entry(w).or_default().push((cx.tables[t as usize].iter().map(|x| (x >> i) & 1 == 1).collect(), up)),
                    _ => {}
                }
                up
            } else {
                (ev.atom(cx, a) >> i) & 1 == 1
            };
            b = if up { hi } else { lo };
        }
        if tabs.is_empty() && eqs.is_empty() {
            for (v, up) in inp {
                let (a, i) = cx.vars[v as usize];
                if let AK::Elem(base, z) = &cx.atoms[a as usize].k {
                    let f = ev.forced.entry((*base, z.c)).or_insert((0, 0));
                    f.0 |= 1 << i;
                    f.1 = (f.1 & !(1 << i)) | ((up as u128) << i);
                }
            }
            ev.forget();
            return ev.bit(cx, goal) && !ev.bad;
        }
        let mut g = T;
        // equal words: both are given one value, as far as it is not settled yet
        eqs.sort_by_key(|e| !e.2);
        for (x, y, up) in eqs {
            let (p, q) = (cx.bits_uncapped(x), cx.bits_uncapped(y));
            let mut settled: FxMap<u32, bool> = inp.iter().cloned().collect();
            let n = p.len().min(q.len());
            let apart = if up { usize::MAX } else { next(rng) as usize % n };
            for k in 0..n {
                let known = |b: B, settled: &FxMap<u32, bool>| match cx.literal(b) {
                    _ if b < 2 => Some(b == T),
                    Some((v, pos)) => settled.get(&v).map(|x| *x == pos),
                    None => None,
                };
                let (a, b) = (known(p[k], &settled), known(q[k], &settled));
                if !up && k != apart {
                    continue;
                }
                let flip = k == apart;
                let val = a.or(b.map(|b| b ^ flip)).unwrap_or(next(rng) & 256 != 0);
                for (bit, val) in [(p[k], val), (q[k], val ^ flip)] {
                    match cx.literal(bit) {
                        _ if bit < 2 => {
                            if (bit == T) != val {
                                return false;
                            }
                        }
                        Some((v, pos)) if steerable(cx, v) && matches!(cx.atoms[cx.vars[v as usize].0 as usize].k, AK::Elem(..)) => match settled.get(&v) {
                            Some(x) if *x != (val == pos) => return false,
                            Some(_) => {}
                            None => {
                                settled.insert(v, val == pos);
                                inp.push((v, val == pos));
                            }
                        },
                        _ => {
                            let y = if val { bit } else { cx.not(bit) };
                            g = cx.and(g, y);
                        }
                    }
                }
            }
        }
        for (v, up) in inp {
            let x = cx.var(v);
            let x = if up { x } else { cx.not(x) };
            g = cx.and(g, x);
        }
        let mut ws: Vec<W> = tabs.keys().cloned().collect();
        ws.sort();
        for w in ws {
            let want = &tabs[&w];
            let n = want[0].0.len();
            let c: Vec<usize> = (0..n).filter(|x| want.iter().all(|(t, up)| t.get(*x) == Some(up))).collect();
            if c.is_empty() {
                return false;
            }
            // any of these entries
            let bits = cx.bits_uncapped(w);
            let mut any = F;
            let simple = bits.iter().all(|b| *b < 2 || cx.literal(*b).is_some());
            let pick: Vec<usize> = if c.len() > 8 && !simple { (0..4).map(|_| c[next(rng) as usize % c.len()]).collect() } else { c };
            for x in pick {
                let mut e = T;
                for (k, y) in bits.iter().enumerate() {
                    let y = if (x >> k) & 1 == 1 { *y } else { cx.not(*y) };
                    e = cx.and(e, y);
                }
                any = cx.or(any, e);
            }
            g = cx.and(g, any);
        }
        if g == F || cx.over() {
            return false;
        }
        cur = g;
    }
    false
}
/// pairs of intermediate values that agree on random inputs but have different normal forms, innermost first
pub fn twins(cx: &mut Cx, x: &[W], y: &[W], seed: u64) -> Vec<(W, W)> {
    let (mut a, mut b) = (Sup::default(), Sup::default());
    for w in x {
        cx.sup_w(*w, &mut a);
    }
    for w in y {
        cx.sup_w(*w, &mut b);
    }
    let mut l: Vec<W> = a.words.difference(&b.words).cloned().collect();
    let r: FxSet<W> = b.words.difference(&a.words).cloned().collect();
    if l.len() > 20_000 || r.len() > 20_000 {
        return vec![];
    }
    l.sort();
    let mut evs: Vec<Ev> = vec![];
    for k in 0..6 {
        let mut e = Ev::new(seed.wrapping_mul(31).wrapping_add(k * 1009 + 5), 0);
        if !e.choose_sizes(cx) {
            return vec![];
        }
        evs.push(e);
    }
    let mut sig = |cx: &Cx, w: W| -> Option<(u8, Vec<u128>)> {
        if cx.width(w) < 8 {
            return None;
        }
        let mut v = vec![];
        for e in evs.iter_mut() {
            e.bad = false;
            v.push(e.word(cx, w));
            if e.bad {
                return None;
            }
        }
        Some((cx.width(w), v))
    };
    let mut ix: FxMap<(u8, Vec<u128>), W> = Default::default();
    let mut r: Vec<W> = r.into_iter().collect();
    r.sort();
    for w in r {
        if let Some(s) = sig(cx, w) {
            ix.entry(s).or_insert(w);
        }
    }
    l.iter().filter_map(|w| sig(cx, *w).and_then(|s| ix.get(&s).map(|r| (*w, *r)))).collect()
}
/// a condition under which two words differ
pub fn differ(cx: &mut Cx, x: W, y: W) -> B {
    let (p, q) = (cx.bits_uncapped(x), cx.bits_uncapped(y));
    let cap = cx.cap_on(CAP);
    let mut r = F;
    for k in 0..p.len().min(q.len()) {
        let d = cx.xor(p[k], q[k]);
        let o = cx.or(r, d);
        if cx.over() {
            break;
        }
        r = o;
    }
    cx.cap_off(cap);
    r
}
