//! Loads the dumped MIR and computes per-function control-flow facts (loops, post-dominators).
use crate::fx::FxMap;
use crate::json::J;
use std::sync::Arc;

#[derive(Debug, Clone, PartialEq)]
pub enum TyK {
    Bool,
    Char,
    Int(u8),
    Uint(u8),
    Adt { name: String, variants: Vec<Variant>, is_enum: bool, args: Vec<Targ> },
    Array(usize, usize),
    Slice(usize),
    Str,
    Ptr(usize),
    Ref(usize, bool),
    FnDef(Option<usize>),
    Closure { once: Option<usize>, mt: Option<usize>, upvars: Vec<usize> },
    Tuple(Vec<usize>),
    Never,
    Other(String),
}
#[derive(Debug, Clone, PartialEq)]
pub enum Targ {
    Ty(usize),
    Const(Option<u128>),
}
#[derive(Debug, Clone, PartialEq)]
pub struct Variant {
    pub name: String,
    pub discr: u128,
    pub fields: Vec<(String, usize)>,
}
#[derive(Debug, Clone)]
pub struct Ty {
    pub k: TyK,
    pub s: String,
    pub size: Option<usize>,
}
#[derive(Debug, Clone)]
pub enum CV {
    Int(u128),
    Arr(Vec<CV>),
    Tup(Vec<CV>),
    Adt(usize, Vec<CV>),
    Ref(Arc<CV>),
    Static(String),
    Fn(usize),
    Zst,
    Undef,
    Opaque,
}
#[derive(Debug, Clone)]
pub enum Pj {
    Deref,
    F(usize, usize),
    I(usize),
    C(usize, bool),
    S(usize, usize, bool),
    D(usize),
}
#[derive(Debug, Clone)]
pub struct Place {
    pub l: usize,
    pub p: Vec<Pj>,
}
#[derive(Debug, Clone)]
pub enum Opn {
    P(Place),
    K(usize, CV),
    Rt,
}
#[derive(Debug, Clone)]
pub enum Rv {
    Use(Opn),
    Ref(Place),
    Addr(Place),
    Bin(String, Opn, Opn),
    Chk(String, Opn, Opn),
    Un(String, Opn),
    Cast(String, Opn, usize),
    Discr(Place),
    Len(Place),
    Rep(Opn, Option<u128>),
    AggArray(Vec<Opn>),
    AggTuple(Vec<Opn>),
    AggAdt(usize, usize, Option<usize>, Vec<Opn>),
    AggClosure(usize, Vec<Opn>),
    AggRawPtr(Vec<Opn>),
    Other(String),
}
#[derive(Debug, Clone)]
pub enum St {
    Assign(Place, Rv, u32),
    SetDiscr(Place, usize, u32),
    Cno(Opn, Opn, Opn, u32),
}
#[derive(Debug, Clone)]
pub enum Callee {
    Inst(usize),
    Ptr(Opn),
    Unresolved(String),
}
#[derive(Debug, Clone)]
pub enum Tm {
    Goto(usize),
    Switch(Opn, Vec<(u128, usize)>, usize, u32, usize),
    Return,
    Resume,
    Unreachable,
    Drop(Place, usize, Option<usize>, u32),
    Call(Callee, Vec<Opn>, Place, Option<usize>, u32),
    Assert(Opn, bool, String, usize, u32),
    Asm,
}
#[derive(Debug)]
pub struct Block {
    pub s: Vec<St>,
    pub t: Tm,
}
#[derive(Debug)]
pub struct Body {
    pub locals: Vec<usize>,
    pub argc: usize,
    pub spread: Option<usize>,
    pub blocks: Vec<Block>,
    pub dbg: Vec<(usize, String)>,
    /// immediate post-dominator (None = function exit)
    pub ipdom: Vec<Option<usize>>,
    /// loop header -> set of blocks of the loop
    pub loops: FxMap<usize, Vec<bool>>,
}
#[derive(Debug)]
pub struct Fun {
    pub id: usize,
    pub name: String,
    pub full: String,
    pub kind: String,
    pub intrinsic: String,
    pub local: bool,
    pub file: String,
    pub line: u32,
    pub targs: Vec<Targ>,
    pub body: Option<Body>,
}
pub struct Prog {
    pub tys: Vec<Ty>,
    pub fns: Vec<Fun>,
    pub by_name: FxMap<String, usize>,
    pub iter_next: FxMap<(usize, String), usize>,
    pub facts: J,
    pub statics: J,
    pub adts: Vec<String>,
}

fn targs(j: &J) -> Vec<Targ> {
    j.arr().iter().map(|x| if x.is_n() { Targ::Ty(x.us()) } else { Targ::Const(if x.at(1).is_n() { Some(x.at(1).n()) } else { None }) }).collect()
}
fn cv(j: &J) -> CV {
    match j.at(0).st() {
        "i" => CV::Int(j.at(1).n()),
        "arr" => CV::Arr(j.at(1).arr().iter().map(cv).collect()),
        "tup" => CV::Tup(j.at(1).arr().iter().map(cv).collect()),
        "adt" => CV::Adt(j.at(1).us(), j.at(2).arr().iter().map(cv).collect()),
        "ref" => CV::Ref(Arc::new(cv(j.at(1)))),
        "static" => CV::Static(j.at(1).st().to_string()),
        "fnptr" => CV::Fn(j.at(1).us()),
        "zst" => CV::Zst,
        "undef" => CV::Undef,
        "addr" => CV::Int(j.at(1).n()),
        _ => CV::Opaque,
    }
}
fn place(j: &J) -> Place {
    let a = j.arr();
    let p = a[1..]
        .iter()
        .map(|e| {
            if e.st() == "*" {
                return Pj::Deref;
            }
            match e.at(0).st() {
                "f" => Pj::F(e.at(1).us(), e.at(2).us()),
                "i" => Pj::I(e.at(1).us()),
                "c" => Pj::C(e.at(1).us(), e.at(2).bool()),
                "s" => Pj::S(e.at(1).us(), e.at(2).us(), e.at(3).bool()),
                "d" => Pj::D(e.at(1).us()),
                _ => Pj::F(0, 0),
            }
        })
        .collect();
    Place { l: a[0].us(), p }
}
fn opn(j: &J) -> Opn {
    match j.at(0).st() {
        "C" | "M" => Opn::P(place(j.at(1))),
        "K" => Opn::K(j.at(1).us(), cv(j.at(2))),
        _ => Opn::Rt,
    }
}
fn rv(j: &J) -> Rv {
    match j.at(0).st() {
        "use" => Rv::Use(opn(j.at(1))),
        "ref" => Rv::Ref(place(j.at(2))),
        "reborrow" => Rv::Ref(place(j.at(2))),
        "addr" => Rv::Addr(place(j.at(1))),
        "bin" => Rv::Bin(j.at(1).st().into(), opn(j.at(2)), opn(j.at(3))),
        "chk" => Rv::Chk(j.at(1).st().into(), opn(j.at(2)), opn(j.at(3))),
        "un" => Rv::Un(j.at(1).st().into(), opn(j.at(2))),
        "cast" => Rv::Cast(j.at(1).st().into(), opn(j.at(2)), j.at(3).us()),
        "discr" => Rv::Discr(place(j.at(1))),
        "len" => Rv::Len(place(j.at(1))),
        "rep" => Rv::Rep(opn(j.at(1)), if j.at(2).is_n() { Some(j.at(2).n()) } else { None }),
        "agg" => {
            let k = j.at(1);
            let ops: Vec<Opn> = j.at(2).arr().iter().map(opn).collect();
            match k.at(0).st() {
                "array" => Rv::AggArray(ops),
                "tuple" => Rv::AggTuple(ops),
                "adt" => Rv::AggAdt(k.at(1).us(), k.at(2).us(), if k.at(3).is_n() { Some(k.at(3).us()) } else { None }, ops),
                "closure" => Rv::AggClosure(k.at(1).us(), ops),
                "rawptr" => Rv::AggRawPtr(ops),
                x => Rv::Other(x.into()),
            }
        }
        x => Rv::Other(x.into()),
    }
}
fn opt(j: &J) -> Option<usize> {
    if j.is_n() {
        Some(j.us())
    } else {
        None
    }
}
fn body(j: &J) -> Body {
    let blocks: Vec<Block> = j
        .get("blocks")
        .arr()
        .iter()
        .map(|b| {
            let s = b
                .get("s")
                .arr()
                .iter()
                .map(|s| match s.at(0).st() {
                    "=" => St::Assign(place(s.at(1)), rv(s.at(2)), s.at(3).us() as u32),
                    "sd" => St::SetDiscr(place(s.at(1)), s.at(2).us(), s.at(3).us() as u32),
                    _ => St::Cno(opn(s.at(1)), opn(s.at(2)), opn(s.at(3)), s.at(4).us() as u32),
                })
                .collect();
            let t = b.get("t");
            let t = match t.at(0).st() {
                "goto" => Tm::Goto(t.at(1).us()),
                "switch" => Tm::Switch(
                    opn(t.at(1)),
                    t.at(2).arr().iter().map(|x| (x.at(0).n(), x.at(1).us())).collect(),
                    t.at(3).us(),
                    t.at(4).us() as u32,
                    t.at(5).us(),
                ),
                "ret" => Tm::Return,
                "resume" => Tm::Resume,
                "unreachable" => Tm::Unreachable,
                "drop" => Tm::Drop(place(t.at(1)), t.at(2).us(), opt(t.at(3)), t.at(4).us() as u32),
                "call" => {
                    let f = t.at(1);
                    let c = if f.is_n() {
                        Callee::Inst(f.us())
                    } else if f.at(0).st() == "ptr" {
                        Callee::Ptr(opn(f.at(1)))
                    } else {
                        Callee::Unresolved(f.at(1).st().into())
                    };
                    Tm::Call(c, t.at(2).arr().iter().map(opn).collect(), place(t.at(3)), opt(t.at(4)), t.at(5).us() as u32)
                }
                "assert" => Tm::Assert(opn(t.at(1)), t.at(2).bool(), t.at(3).st().into(), t.at(4).us(), t.at(5).us() as u32),
                _ => Tm::Asm,
            };
            Block { s, t }
        })
        .collect();
    let mut b = Body {
        locals: j.get("locals").arr().iter().map(|x| x.us()).collect(),
        argc: j.get("argc").us(),
        spread: opt(j.get("spread")),
        blocks,
        dbg: j.get("dbg").arr().iter().map(|x| (x.at(0).us(), x.at(1).st().to_string())).collect(),
        ipdom: vec![],
        loops: Default::default(),
    };
    analyse(&mut b);
    b
}
pub fn succs(t: &Tm) -> Vec<usize> {
    match t {
        Tm::Goto(x) => vec![*x],
        Tm::Switch(_, v, o, _, _) => {
            let mut r: Vec<usize> = v.iter().map(|x| x.1).collect();
            r.push(*o);
            r
        }
        Tm::Drop(_, x, _, _) => vec![*x],
        Tm::Call(_, _, _, x, _) => x.iter().cloned().collect(),
        Tm::Assert(_, _, _, x, _) => vec![*x],
        _ => vec![],
    }
}
fn analyse(b: &mut Body) {
    let n = b.blocks.len();
    let su: Vec<Vec<usize>> = b.blocks.iter().map(|x| succs(&x.t)).collect();
    // blocks that can reach a return
    let exit = n;
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for i in 0..n {
        for &s in &su[i] {
            pred[s].push(i);
        }
        if matches!(b.blocks[i].t, Tm::Return) {
            pred[exit].push(i);
        }
    }
    let mut can = vec![false; n + 1];
    let mut st = vec![exit];
    can[exit] = true;
    while let Some(x) = st.pop() {
        for &p in &pred[x] {
            if !can[p] {
                can[p] = true;
                st.push(p);
            }
        }
    }
    // post-dominators (sets as bitvec; functions are small)
    let words = (n + 1 + 63) / 64;
    let full: Vec<u64> = vec![u64::MAX; words];
    let mut pd: Vec<Vec<u64>> = vec![full; n + 1];
    pd[exit] = vec![0; words];
    pd[exit][exit / 64] |= 1 << (exit % 64);
    let mut ch = true;
    while ch {
        ch = false;
        for i in (0..n).rev() {
            if !can[i] {
                continue;
            }
            let mut ss: Vec<usize> = su[i].iter().cloned().filter(|s| can[*s]).collect();
            if matches!(b.blocks[i].t, Tm::Return) {
                ss.push(exit);
            }
            let mut v = vec![u64::MAX; words];
            for s in ss {
                for w in 0..words {
                    v[w] &= pd[s][w];
                }
            }
            v[i / 64] |= 1 << (i % 64);
            if v != pd[i] {
                pd[i] = v;
                ch = true;
            }
        }
    }
    let cnt = |v: &Vec<u64>| v.iter().map(|x| x.count_ones()).sum::<u32>();
    for i in 0..n {
        if !can[i] {
            b.ipdom.push(None);
            continue;
        }
        // the strict post-dominator with the largest set
        let mut best: Option<(u32, usize)> = None;
        for j in 0..=n {
            if j != i && pd[i][j / 64] >> (j % 64) & 1 == 1 {
                let c = cnt(&pd[j]);
                if best.map_or(true, |x| c > x.0) {
                    best = Some((c, j));
                }
            }
        }
        b.ipdom.push(best.and_then(|x| if x.1 == exit { None } else { Some(x.1) }));
    }
    // dominators, natural loops
    let mut dom: Vec<Vec<u64>> = vec![vec![u64::MAX; words]; n];
    dom[0] = vec![0; words];
    dom[0][0] = 1;
    let mut reach = vec![false; n];
    let mut st = vec![0];
    reach[0] = true;
    while let Some(x) = st.pop() {
        for &s in &su[x] {
            if !reach[s] {
                reach[s] = true;
                st.push(s);
            }
        }
    }
    let mut ch = true;
    while ch {
        ch = false;
        for i in 1..n {
            if !reach[i] {
                continue;
            }
            let mut v = vec![u64::MAX; words];
            for &p in &pred[i] {
                if reach[p] {
                    for w in 0..words {
                        v[w] &= dom[p][w];
                    }
                }
            }
            v[i / 64] |= 1 << (i % 64);
            if v != dom[i] {
                dom[i] = v;
                ch = true;
            }
        }
    }
    for i in 0..n {
        if !reach[i] {
            continue;
        }
        for &h in &su[i] {
            if dom[i][h / 64] >> (h % 64) & 1 == 1 {
                // back edge i -> h
                let set = b.loops.entry(h).or_insert_with(|| vec![false; n]);
                set[h] = true;
                let mut st = vec![i];
                while let Some(x) = st.pop() {
                    if !set[x] {
                        set[x] = true;
                        for &p in &pred[x] {
                            if reach[p] {
                                st.push(p);
                            }
                        }
                    }
                }
            }
        }
    }
}
pub fn load(j: &J) -> Prog {
    let tys: Vec<Ty> = j
        .get("tys")
        .arr()
        .iter()
        .map(|t| {
            let k = match t.get("k").st() {
                "bool" => TyK::Bool,
                "char" => TyK::Char,
                "int" => TyK::Int(t.get("w").us() as u8),
                "uint" => TyK::Uint(t.get("w").us() as u8),
                x @ ("struct" | "enum" | "union") => TyK::Adt {
                    name: t.get("name").st().into(),
                    is_enum: x == "enum",
                    args: targs(t.get("args")),
                    variants: t
                        .get("variants")
                        .arr()
                        .iter()
                        .map(|v| Variant {
                            name: v.get("name").st().into(),
                            discr: v.get("discr").n(),
                            fields: v.get("fields").arr().iter().map(|f| (f.at(0).st().to_string(), f.at(1).us())).collect(),
                        })
                        .collect(),
                },
                "array" => TyK::Array(t.get("elem").us(), if t.get("len").is_n() { t.get("len").us() } else { usize::MAX }),
                "slice" => TyK::Slice(t.get("elem").us()),
                "str" => TyK::Str,
                "ptr" => TyK::Ptr(t.get("to").us()),
                "ref" => TyK::Ref(t.get("to").us(), t.get("mut").bool()),
                "fndef" => TyK::FnDef(opt(t.get("inst"))),
                "closure" => TyK::Closure {
                    once: opt(t.get("inst_once")),
                    mt: opt(t.get("inst_mut")),
                    upvars: t.get("upvars").arr().iter().map(|x| x.us()).collect(),
                },
                "tuple" => TyK::Tuple(t.get("elems").arr().iter().map(|x| x.us()).collect()),
                "never" => TyK::Never,
                x => TyK::Other(x.into()),
            };
            Ty { k, s: t.get("s").st().into(), size: opt(t.get("size")) }
        })
        .collect();
    let mut by_name: FxMap<String, usize> = Default::default();
    let fns: Vec<Fun> = j
        .get("fns")
        .arr()
        .iter()
        .enumerate()
        .map(|(i, f)| {
            assert_eq!(i, f.get("id").us());
            let b = f.get("body");
            let r = Fun {
                id: i,
                name: f.get("name").st().into(),
                full: f.get("full").st().into(),
                kind: f.get("kind").st().into(),
                intrinsic: f.get("intrinsic").st().into(),
                local: f.get("local").bool(),
                file: f.get("file").st().into(),
                line: f.get("line").us() as u32,
                targs: targs(f.get("targs")),
                body: if b.is_null() { None } else { Some(body(b)) },
            };
            by_name.entry(r.full.clone()).or_insert(i);
            r
        })
        .collect();
    let mut iter_next: FxMap<(usize, String), usize> = Default::default();
    for x in j.get("iters").arr() {
        iter_next.insert((x.at(0).us(), x.at(1).st().to_string()), x.at(2).us());
    }
    Prog {
        tys,
        fns,
        by_name,
        iter_next,
        facts: j.get("facts").clone(),
        statics: j.get("statics").clone(),
        adts: j.get("adts").arr().iter().map(|x| x.st().to_string()).collect(),
    }
}
